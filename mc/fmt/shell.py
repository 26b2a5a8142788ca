"""Reference encoders of Windows shortcuts with shell items and property stores."""
import struct
import uuid

from mc.fmt import windows

ENVIRONMENT, DARWIN, ICON, PROPERTIES = 0xa0000001, 0xa0000006, 0xa0000007, 0xa0000009


def root_folder(guid):
    return struct.pack("<HBB", 20, 0x1f, 0x50) + uuid.UUID(guid).bytes_le


def volume(name):
    return struct.pack("<HB", 25, 0x2f) + name.encode("ascii").ljust(22, b"\0")


def file_entry(name, long=None, size=5, mtime=0x12345a21, attributes=0x20, version=9, ctime=0x12345a21, atime=0x12345a22, reference=5, localized=""):
    """Without a long name the item has no extension block."""
    body = struct.pack("<BBIIH", 0x32, 0, size, mtime, attributes) + name.encode("ascii") + b"\0"
    body += b"\0" * (len(body) % 2)
    extension = b""
    if long is not None:
        extension = struct.pack("<HIIIH", version, 0xbeef0004, ctime, atime, {3: 0x14, 7: 0x26, 8: 0x2a, 9: 0x2e}[version])
        text = localized.encode("utf-16-le") + b"\0\0" if localized else b""
        if version >= 7:
            extension += struct.pack("<HQQ", 0, reference, 0)
        extension += struct.pack("<H", len(text))
        if version >= 9:
            extension += bytes(4)
        if version >= 8:
            extension += bytes(4)
        extension += long.encode("utf-16-le") + b"\0\0" + text + struct.pack("<H", len(body) + 2)
        extension = struct.pack("<H", len(extension) + 2) + extension
    return struct.pack("<H", len(body) + len(extension) + 2) + body + extension


def path_block(signature, path):
    return struct.pack("<II", 0x314, signature) + path.encode("ascii").ljust(260, b"\0") + path.encode("utf-16-le").ljust(520, b"\0")


def record(key, kind, data):
    """key: an integer or a name."""
    if isinstance(key, str):
        name = key.encode("utf-16-le") + b"\0\0"
        head = struct.pack("<IB", len(name), 0) + name
    else:
        head = struct.pack("<IB", key, 0)
    body = head + struct.pack("<HH", kind, 0) + data
    return struct.pack("<I", len(body) + 4) + body


def property_set(guid, records):
    body = b"1SPS" + uuid.UUID(guid).bytes_le + b"".join(records) + bytes(4)
    return struct.pack("<I", len(body) + 4) + body


def properties_block(sets):
    body = b"".join(sets) + bytes(4)
    return struct.pack("<II", len(body) + 8, PROPERTIES) + body


def shortcut(items=(), blocks=(), texts=None, flags=0, times=(1, 2, 3), size=77, attributes=0x20, icon=0, window=1, hotkey=0):
    """texts: {flag: string}; times: creation, access and modification."""
    flags |= 0x80
    out = b""
    if items:
        flags |= 1
        data = b"".join(items) + b"\0\0"
        out += struct.pack("<H", len(data)) + data
    for bit in (4, 8, 0x10, 0x20, 0x40):
        if texts and bit in texts:
            flags |= bit
            out += struct.pack("<H", len(texts[bit])) + texts[bit].encode("utf-16-le")
    head = struct.pack("<I16sIIQQQIiIHHII", 0x4c, windows.LNK_GUID, flags, attributes, *times, size, icon, window, hotkey, 0, 0, 0)
    return head + out + b"".join(blocks) + bytes(4)


def volume_identifier(guid):
    return struct.pack("<HBB", 20, 0x2e, 0x80) + uuid.UUID(guid).bytes_le


def volume_folder(name, guid):
    return struct.pack("<HB", 41, 0x29) + name.encode("ascii").ljust(22, b"\0") + uuid.UUID(guid).bytes_le


def control_panel_category(number):
    return struct.pack("<HBBII", 12, 1, 0, 0x39de2184, number)


def control_panel_item(guid):
    return struct.pack("<HBB", 30, 0x71, 0x80) + bytes(10) + uuid.UUID(guid).bytes_le


def network_location(location, description="", comments=""):
    flags = (0x80 if description else 0) | (0x40 if comments else 0)
    body = struct.pack("<BBB", 0x42, 0, flags) + b"".join(s.encode("ascii") + b"\0" for s in (location, description, comments) if s or s is location) + b"\0\0"
    return struct.pack("<H", len(body) + 2) + body
