"""Files near a well-formed one: truncations and changes of one byte or one field."""


def spread(length, count):
    """At most count positions, all of them if there are not more; the start of the file is dense."""
    if length <= count:
        return list(range(length))
    dense = count // 2
    step = (length - dense) / (count - dense)
    return sorted(set(range(dense)) | {dense + int(i * step) for i in range(count - dense)})


def truncations(data, count):
    for size in spread(len(data), count):
        yield f"cut to {size}", data[:size]


def single_bytes(data, count, values=(0x00, 0xff, "flip", "next")):
    """One byte at a time, at each of count positions."""
    for position in spread(len(data), count):
        old = data[position]
        for value in values:
            new = {"flip": old ^ 0x80, "next": (old + 1) & 0xff}.get(value, value)
            if new != old:
                yield f"byte {position} {old:02x}->{new:02x}", data[:position] + bytes([new]) + data[position + 1:]


def fields(data, count, sizes=(2, 4, 8)):
    """Aligned fields at each of count positions: zero, all bits, large, small and the offset of the field itself in both byte orders."""
    for size in sizes:
        for position in spread(len(data) - size + 1, count):
            if position % (2 if size > 2 else 1):
                continue
            old = data[position:position + size]
            news = {bytes(size), b"\xff" * size, b"\x7f" + b"\xff" * (size - 1), b"\xff" * (size - 1) + b"\x7f"}
            for order in ("little", "big"):
                value = int.from_bytes(old, order)
                for changed in (1, value + 1, max(0, value - 1), position, value * 2, len(data)):
                    news.add((changed & (1 << 8 * size) - 1).to_bytes(size, order))
            for new in sorted(news - {old}):
                yield f"{size} bytes at {position} {old.hex()}->{new.hex()}", data[:position] + new + data[position + size:]


def links(data, limit, sizes=(4, 8, 2)):
    """Fields that may hold an offset, each set to the other possible offsets in the file: chains that point back at themselves or cross."""
    for size in sizes:
        for order in ("little", "big"):
            found = {}
            for position in range(len(data) - size + 1):
                value = int.from_bytes(data[position:position + size], order)
                if 4 <= value < len(data) or (value % 0x1000 == 0 and 0 < value >> 12 < 8):
                    found[position] = value
            targets = sorted(set(found.values()))
            if len(targets) > limit:
                targets = [targets[i] for i in spread(len(targets), limit)]
            for position in [list(found)[i] for i in spread(len(found), 8 * limit if size > 2 else 3 * limit)]:
                for target in targets + [position, max(0, position - size), 0]:
                    if target != found[position]:
                        new = (target & (1 << 8 * size) - 1).to_bytes(size, order)
                        yield f"link at {position} {found[position]:#x}->{target:#x} {order}", data[:position] + new + data[position + size:]
