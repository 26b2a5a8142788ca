"""Reference encoder for CPIO archives (bin big/little endian, odc, newc, crc)."""
import struct

FORMATS = ("bin-big-endian", "bin-little-endian", "odc", "newc", "crc")
TRAILER = "TRAILER!!!"


class Member:
    def __init__(self, path, data=b"", inode=7, mode=0o100644, uid=501, gid=20, nlink=1, mtime=1234567,
                 dev=(3, 4), rdev=(5, 6), raw_path=None):
        self.path, self.data = path, data
        self.inode, self.mode, self.uid, self.gid, self.nlink, self.mtime = inode, mode, uid, gid, nlink, mtime
        self.dev, self.rdev = dev, rdev
        self.raw_path = raw_path if raw_path is not None else path.encode() + b"\0"

    def __repr__(self):
        return f"Member({self.path!r}, {len(self.data)} bytes)"


def limits(fmt):
    """Largest value each header field can hold."""
    if fmt.startswith("bin"):
        return {"inode": 0xffff, "mode": 0xffff, "uid": 0xffff, "gid": 0xffff, "nlink": 0xffff, "mtime": 0xffffffff}
    if fmt == "odc":
        return {"inode": 0o777777, "mode": 0o777777, "uid": 0o777777, "gid": 0o777777, "nlink": 0o777777, "mtime": 0o77777777777}
    return {k: 0xffffffff for k in ("inode", "mode", "uid", "gid", "nlink", "mtime")}


def _pad(data, fmt):
    align = 1 if fmt == "odc" else 2 if fmt.startswith("bin") else 4
    return data + b"\0" * (-len(data) % align)


def encode_member(fmt, m, upper=False):
    name = m.raw_path
    size = len(m.data)
    if fmt.startswith("bin"):
        e = ">" if fmt == "bin-big-endian" else "<"
        head = struct.pack(e + "8H", 0o070707, m.dev[0] & 0xffff, m.inode, m.mode, m.uid, m.gid, m.nlink, m.rdev[0] & 0xffff)
        head += struct.pack(e + "5H", m.mtime >> 16, m.mtime & 0xffff, len(name), size >> 16, size & 0xffff)
    elif fmt == "odc":
        head = b"070707" + b"".join(b"%06o" % v for v in (m.dev[0], m.inode, m.mode, m.uid, m.gid, m.nlink, m.rdev[0]))
        head += b"%011o%06o%011o" % (m.mtime, len(name), size)
    else:
        checksum = sum(m.data) & 0xffffffff if fmt == "crc" else 0
        f = b"%08X" if upper else b"%08x"
        head = (b"070702" if fmt == "crc" else b"070701")
        head += b"".join(f % v for v in (m.inode, m.mode, m.uid, m.gid, m.nlink, m.mtime, size, m.dev[0], m.dev[1],
                                         m.rdev[0], m.rdev[1], len(name), checksum))
    return head, name


def encode(fmt, members, trailing=b"", upper=False, trailer=True):
    """Returns (archive bytes, [data offset per member], size up to and including the trailer)."""
    out = b""
    offsets = []
    entries = list(members)
    if trailer:
        entries.append(Member(TRAILER, inode=0, mode=0, uid=0, gid=0, nlink=1, mtime=0, dev=(0, 0), rdev=(0, 0)))
    for m in entries:
        head, name = encode_member(fmt, m, upper)
        out = _pad(out + head + name, fmt)
        offsets.append(len(out))
        out = _pad(out + m.data, fmt)
    return out + trailing, offsets[:len(members)], len(out)


def describe(fmt, m):
    """What the header prints in debug output, in order."""
    if fmt.startswith("bin"):
        signature = "0x71c7"
    else:
        signature = str({"odc": b"070707", "newc": b"070701", "crc": b"070702"}[fmt])
    result = [("Signature", signature)]
    if fmt not in ("crc", "newc"):
        result.append(("Device number", str(m.dev[0])))
    result += [("Inode number", str(m.inode)), ("Mode", f"{m.mode:o}"), ("User identifier (UID)", str(m.uid)),
               ("Group identifier (GID)", str(m.gid)), ("Number of links", str(m.nlink))]
    if fmt not in ("crc", "newc"):
        result.append(("Special device number", str(m.rdev[0])))
    result.append(("Modification time", str(m.mtime)))
    result.append(("File size", str(len(m.data))))
    if fmt in ("crc", "newc"):
        result += [("Device major number", str(m.dev[0])), ("Device minor number", str(m.dev[1])),
                   ("Special device major number", str(m.rdev[0])), ("Special device minor number", str(m.rdev[1])),
                   ("Checksum", f"0x{(sum(m.data) & 0xffffffff) if fmt == 'crc' else 0:08x}")]
    result.append(("Path", m.path))
    return result
