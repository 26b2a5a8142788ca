"""Windows NT Registry hives, as far as Amcache.hve needs them."""
import struct


def hive(root):
    """root: (name, [(value name, type, data)], [sub keys])."""
    cells = bytearray(b"\0" * 32)

    def cell(data):
        size = -(-(len(data) + 4) // 8) * 8
        at = len(cells)
        cells.extend(struct.pack("<i", -size) + data.ljust(size - 4, b"\0"))
        return at

    def value(name, kind, data):
        if len(data) <= 4:
            size, at = 0x80000000 | len(data), int.from_bytes(data.ljust(4, b"\0"), "little")
        else:
            size, at = len(data), cell(data)
        name = name.encode("ascii")
        return cell(b"vk" + struct.pack("<HIIIHH", len(name), size, at, kind, 1 if name else 0, 0) + name)

    def key(node, parent, flags):
        name, values, subs = node
        raw = name.encode("ascii")
        at = cell(b"nk" + bytes(74) + raw)
        value_list = 0xffffffff
        if values:
            offsets = [value(*v) for v in values]
            value_list = cell(struct.pack(f"<{len(offsets)}I", *offsets))
        sub_list = 0xffffffff
        if subs:
            offsets = [(key(s, at, 0x20), s[0]) for s in subs]
            sub_list = cell(b"lf" + struct.pack("<H", len(offsets)) + b"".join(struct.pack("<I4s", o, n.encode()[:4]) for o, n in offsets))
        record = b"nk" + struct.pack("<HQIIIIIIIIIIIIIIIHH", flags, 0x01d0000012345678, 0, parent, len(subs), 0, sub_list, 0xffffffff, len(values), value_list,
                                     0xffffffff, 0xffffffff, 0, 0, 0, 0, 0, len(raw), 0) + raw
        cells[at + 4:at + 4 + len(record)] = record
        return at

    root_at = key(root, 0, 0x2c)
    free = -len(cells) % 4096
    if free:
        cells.extend(struct.pack("<i", free) + bytes(free - 4) if free >= 8 else bytes(free))
    cells[:32] = b"hbin" + struct.pack("<IIIIQI", 0, len(cells), 0, 0, 0x01d0000012345678, 0)
    header = b"regf" + struct.pack("<IIQIIIIIII", 1, 1, 0x01d0000012345678, 1, 3, 0, 1, root_at, len(cells), 1)
    header = header.ljust(508, b"\0")
    checksum = 0
    for (word,) in struct.iter_unpack("<I", header):
        checksum ^= word
    return (header + struct.pack("<I", checksum)).ljust(4096, b"\0") + bytes(cells)


def text(string):
    return string.encode("utf-16-le") + b"\0\0"
