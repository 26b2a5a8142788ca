"""Reference encoder: Spotlight store database and streams maps."""
import struct
import zlib

import lz4.block


def varint(value):
    """The shortest form: leading one bits count the additional bytes."""
    for extra in range(0, 5):
        if value < 1 << (7 - extra) + 8 * extra:
            raw = value.to_bytes(extra + 1, "big")
            return bytes([raw[0] | (0xff00 >> extra & 0xff)]) + raw[1:]
    for extra, lead in ((5, 0xf8), (6, 0xfc), (7, 0xfe), (8, 0xff)):
        if value < 1 << 8 * extra:
            return bytes([lead]) + value.to_bytes(extra, "big")
    raise ValueError(value)


def attribute(kind, prop, value):
    """(bytes, reported value) of an attribute value; strings as lists."""
    many = prop & 2
    if kind in (0, 2, 6):
        return varint(value), value
    if kind == 7:
        if not many:
            return varint(value), value
        data = b"".join(varint(v) for v in value)
        return varint(len(data)) + data, list(value)
    if kind in (8, 9, 0xa, 0xc):
        code = {8: "B", 9: "f", 0xa: "d", 0xc: "d"}[kind]
        if not many:
            return struct.pack("<" + code, value), value
        data = struct.pack(f"<{len(value)}{code}", *value)
        return varint(len(data)) + data, tuple(value)
    if kind == 0xb:
        data = b"".join(v.encode() + b"\0" for v in value)
        if prop & 3 == 2:
            shown = tuple(value)
        else:
            shown = value[0].split("\x16\x02")[0] if prop & 3 == 3 else value[0]
        return varint(len(data)) + data, shown
    if kind == 0xe:
        return varint(len(value)) + value, value
    raise ValueError(kind)


def record(identifier, item, parent, updated, attributes, flags=0):
    """attributes: [(type index, encoded value)] by ascending index."""
    body = varint(identifier) + bytes([flags]) + varint(item) + varint(parent) + varint(updated)
    last = 0
    for index, data in attributes:
        body += varint(index - last) + data
        last = index
    return struct.pack("<I", len(body)) + body


def page(table_type, data, page_size=None, uncompressed=0):
    used = 20 + len(data)
    size = page_size or -(-used // 0x1000) * 0x1000
    return (b"2pbd" + struct.pack("<4I", size, used, table_type, uncompressed) + data).ljust(size, b"\0")


def record_page(data, how):
    """how: plain, zlib, lz4, lz4raw, lz4many."""
    if how == "plain":
        return page(9, data)
    if how == "zlib":
        return page(9, zlib.compress(data), uncompressed=20 + len(data))

    def block(chunk, previous=b""):
        packed = lz4.block.compress(chunk, store_size=False, dict=previous)
        return b"bv41" + struct.pack("<II", len(chunk), len(packed)) + packed

    def raw(chunk):
        return b"bv4-" + struct.pack("<I", len(chunk)) + chunk
    if how == "lz4":
        stream = block(data)
    elif how == "lz4raw":
        stream = raw(data)
    else:
        third = max(1, len(data) // 3)
        a, b, c = data[:third], data[third:2 * third], data[2 * third:]
        stream = block(a) + raw(b) + (block(c, b) if c else b"")
    return page(0x1009 if how != "lz4many" else 0x5009, stream + b"bv4$", uncompressed=20 + len(data))


def table_pages(table_type, entries, first_block, per_page, links):
    """Splits entries over linked pages; links gives the block of every page."""
    groups = [entries[i:i + per_page] for i in range(0, len(entries), per_page)] or [[]]
    pages = {}
    blocks = [first_block] + [links() for _ in groups[1:]]
    for number, group in enumerate(groups):
        following = blocks[number + 1] if number + 1 < len(blocks) else 0
        pages[blocks[number]] = page(table_type, struct.pack("<IQ", following, 0x1122334455667788) + b"".join(group))
    return pages


def type_entry(index, kind, prop, key):
    return struct.pack("<IBB", index, kind, prop) + key.encode() + b"\0"


def value_entry(index, text):
    return struct.pack("<I", index) + text.encode() + b"\0"


def index_entry(index, values, padding=0):
    return struct.pack("<I", index) + varint(4 * len(values) + padding) + b"\xee" * padding + b"".join(struct.pack("<I", v) for v in values)


def streams_map(number, values):
    """values: stream values in order (the first is not used)."""
    offsets, data = [], b""
    for value in values:
        offsets.append(len(data))
        data += value
    # The offset of a range is never 0 except for the first.
    header = b"\x00PataD\x00\x00" + struct.pack("<12I", 1, 2, 3, len(data), 5, len(offsets), 7, 8, 9, 10, 11, 12)
    return {f"dbStr-{number}.map.header": header, f"dbStr-{number}.map.offsets": b"".join(struct.pack("<I", o) for o in offsets),
            f"dbStr-{number}.map.data": data}


def store(types, values, lists, localized, record_pages, per_page=100, streams=False, map_pages=1, padding=0, reverse=False):
    """Returns {file name: bytes}; the store is "store.db".

    types: {index: (kind, prop, key)}; values: {index: text}; lists, localized:
    {index: [value index]}; record_pages: [(how, bytes)].
    """
    files = {}
    blocks = {}
    counter = [3]

    def allocate(size=0x1000):
        block = counter[0]
        counter[0] += -(-size // 0x1000)
        return block
    tables = [(0x11, [type_entry(i, *t) for i, t in types.items()]), (0x21, [value_entry(i, v) for i, v in values.items()]), (0x41, []),
              (0x81, [index_entry(i, v, padding) for i, v in lists.items()]), (0x81, [index_entry(i, v, padding) for i, v in localized.items()])]
    firsts = []
    if not streams:
        for table_type, entries in tables:
            first = allocate()
            firsts.append(first)
            blocks.update(table_pages(table_type, entries, first, per_page, allocate))
    else:
        firsts = [0] * 5

        def dense(mapping, make):
            return [b"\x00"] + [make(mapping[i]) if i in mapping else b"\x05xx" for i in range(1, max(mapping, default=0) + 1)]

        def sized(data):
            return varint(len(data)) + data

        def listing(v):
            return varint(9) + varint(4 * len(v) + padding) + b"\xee" * padding + b"".join(struct.pack("<I", x) for x in v)
        files.update(streams_map(1, dense(types, lambda t: sized(bytes(t[:2]) + t[2].encode() + b"\0"))))
        files.update(streams_map(2, dense(values, lambda v: sized(v.encode() + b"\0"))))
        files.update(streams_map(3, [b"\x00"]))
        files.update(streams_map(4, [b"\x00"] + [listing(lists[i]) for i in sorted(lists)]))
        files.update(streams_map(5, [b"\x00"] + [listing(localized[i]) for i in sorted(localized)]))
    numbers = []
    encoded = [record_page(data, how) for how, data in record_pages]
    for blob in (reversed(encoded) if reverse else encoded):
        block = allocate(len(blob))
        blocks[block] = blob
        numbers.append(block)
    if reverse:
        numbers.reverse()
    map_data, size = b"", 0x400
    share = -(-len(numbers) // map_pages) or 1
    for index in range(map_pages):
        group = numbers[index * share:(index + 1) * share]
        blob = (b"2mbd" if index % 2 == 0 else b"1mbd") + struct.pack("<4I", size, len(group), 0, 0)
        blob += b"".join(struct.pack("<QII", 7, block, 9) for block in group)
        map_data += blob.ljust(size, b"\0")
    header = b"8tsd" + struct.pack("<16I", 1, 2, 3, 4, 5, 6, 7, 8, 0x1000, len(map_data), 0x1000, *firsts)
    header += bytes(range(256)) + b"/a/path".ljust(256, b"\0")
    out = bytearray(header.ljust(0x1000, b"\0"))
    out += map_data.ljust(0x2000, b"\0")
    assert len(map_data) <= 0x2000
    for block, blob in sorted(blocks.items()):
        out = out.ljust(block * 0x1000, b"\0")
        assert len(out) == block * 0x1000
        out += blob
    files["store.db"] = bytes(out)
    return files
