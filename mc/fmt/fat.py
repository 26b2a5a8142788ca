"""A FAT16 volume with long file names (reference encoder)."""
import struct

SECTOR, FAT_SECTORS, ROOT_ENTRIES, CLUSTERS = 512, 32, 512, 8000


def _checksum(short):
    total = 0
    for c in short:
        total = (((total & 1) << 7) + (total >> 1) + c) & 0xff
    return total


def _entries(name, short, attributes, cluster, size):
    """Directory entries of a file: the parts of the long name, last first, then the short entry."""
    units = name.encode("utf-16-le")
    count = len(units) // 26 + (1 if len(units) % 26 else 0)
    padded = units if len(units) % 26 == 0 else (units + b"\0\0").ljust(count * 26, b"\xff")
    out = b""
    for i in range(count, 0, -1):
        part = padded[(i - 1) * 26:i * 26]
        out += struct.pack("<B10sBBB12sH4s", i | (0x40 if i == count else 0), part[:10], 0x0f, 0, _checksum(short), part[10:22], 0, part[22:])
    return out + struct.pack("<11sB10xHHHI", short, attributes, 0x4a21, 0x5321, cluster, size)


class _Volume:
    def __init__(self):
        self.fat, self.data, self.number = [0xfff8, 0xffff], [], 0

    def store(self, data):
        """Stores clusters in a chain, returns the first."""
        parts = [data[i:i + SECTOR].ljust(SECTOR, b"\0") for i in range(0, len(data), SECTOR)]
        first = len(self.fat)
        for i, part in enumerate(parts):
            self.data.append(part)
            self.fat.append(len(self.fat) + 1 if i + 1 < len(parts) else 0xffff)
        return first if parts else 0

    def directory(self, tree, parent, own=None):
        out = b""
        for name, node in tree.items():
            self.number += 1
            short = b"F%07dDAT" % self.number
            if isinstance(node, dict):
                # The clusters of a directory are taken first, so that its entries can name them.
                size = 32 * (2 + sum(2 + len(n) // 13 for n in node))
                count = -(-size // SECTOR)
                cluster = self.store(bytes(count * SECTOR))
                body = struct.pack("<11sB10xHHHI", b".          ", 0x10, 0x4a21, 0x5321, cluster, 0) + struct.pack("<11sB10xHHHI", b"..         ", 0x10, 0x4a21, 0x5321, parent, 0)
                body += self.directory(node, cluster)
                body = body.ljust(count * SECTOR, b"\0")
                assert len(body) == count * SECTOR
                for i in range(count):
                    self.data[cluster - 2 + i] = body[i * SECTOR:(i + 1) * SECTOR]
                out += _entries(name, short, 0x10, cluster, 0)
            else:
                out += _entries(name, short, 0x20, self.store(node), len(node))
        return out


def image(files):
    """Volume image of {path: bytes}."""
    tree = {}
    for path, data in files.items():
        node = tree
        *parents, name = path.split("/")
        for p in parents:
            node = node.setdefault(p, {})
        node[name] = data
    volume = _Volume()
    root = volume.directory(tree, 0).ljust(ROOT_ENTRIES * 32, b"\0")
    total = 1 + FAT_SECTORS * 2 + ROOT_ENTRIES * 32 // SECTOR + CLUSTERS
    boot = b"\xeb\x3c\x90MSDOS5.0" + struct.pack("<HBHBHHBHHHIIBBBI11s8s", SECTOR, 1, 1, 2, ROOT_ENTRIES, total, 0xf8, FAT_SECTORS, 63, 255, 0, 0, 0x80, 0, 0x29, 0x12345678,
                                              b"NO NAME    ", b"FAT16   ")
    boot = boot.ljust(510, b"\0") + b"\x55\xaa"
    fat = b"".join(struct.pack("<H", v) for v in volume.fat).ljust(FAT_SECTORS * SECTOR, b"\0")
    assert len(fat) == FAT_SECTORS * SECTOR and len(volume.data) <= CLUSTERS
    return boot + fat + fat + root + b"".join(volume.data).ljust(CLUSTERS * SECTOR, b"\0")
