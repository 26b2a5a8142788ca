"""Reference encoder for gzip files (RFC 1952)."""
import struct
import zlib

from mc.fmt import common

FTEXT, FHCRC, FEXTRA, FNAME, FCOMMENT = 1, 2, 4, 8, 16


def deflate(data, mode):
    """Raw deflate streams of one payload, in different block layouts."""
    if mode == "stored":
        out = b""
        chunks = [data[i:i + 65535] for i in range(0, len(data), 65535)] or [b""]
        for i, chunk in enumerate(chunks):
            out += struct.pack("<BHH", i == len(chunks) - 1, len(chunk), len(chunk) ^ 0xffff) + chunk
        return out
    if mode == "stored1":   # every byte in a block of its own, then an empty final block
        out = b"".join(struct.pack("<BHH", 0, 1, 0xfffe) + data[i:i + 1] for i in range(len(data)))
        return out + struct.pack("<BHH", 1, 0, 0xffff)
    if mode == "flush":     # sync flushes between chunks
        c = zlib.compressobj(6, zlib.DEFLATED, -15)
        out = b""
        for i in range(0, len(data), 7):
            out += c.compress(data[i:i + 7]) + c.flush(zlib.Z_SYNC_FLUSH)
        return out + c.flush()
    level, strategy = {"fast": (1, 0), "best": (9, 0), "fixed": (9, zlib.Z_FIXED), "rle": (6, zlib.Z_RLE)}[mode]
    c = zlib.compressobj(level, zlib.DEFLATED, -15, 9, strategy)
    return c.compress(data) + c.flush()


MODES = ("stored", "stored1", "flush", "fast", "best", "fixed", "rle")


def member(data=b"", flags=0, mode="fast", mtime=0, xfl=0, os_=3, name="file.txt", comment="no comment", extra=b"ab\x02\x00xy",
           crc=None, size=None):
    head = struct.pack("<HBBiBB", 0x8b1f, 8, flags, mtime, xfl, os_)
    if flags & FEXTRA:
        head += struct.pack("<H", len(extra)) + extra
    if flags & FNAME:
        head += name.encode("latin-1") + b"\0"
    if flags & FCOMMENT:
        head += comment.encode("latin-1") + b"\0"
    if flags & FHCRC:
        head += struct.pack("<H", zlib.crc32(head) & 0xffff)
    crc = zlib.crc32(data) if crc is None else crc
    size = len(data) & 0xffffffff if size is None else size
    blob = head + deflate(data, mode) + struct.pack("<II", crc, size)
    expected = [("Signature", "0x8b1f"), ("Compression method", "8"), ("Flags", f"0x{flags:02x}"),
                ("Modification time", common.posix(mtime)), ("Operating system", str(os_)), ("Compression flags", f"0x{xfl:02x}")]
    if flags & FNAME:
        expected.append(("Original filename", name))
    if flags & FCOMMENT:
        expected.append(("Comment", comment))
    expected += [("Checksum", f"0x{crc:08x}"), ("Uncompressed data size", str(size))]
    return blob, expected


FIELDS = {"Signature", "Compression method", "Flags", "Modification time", "Operating system", "Compression flags",
          "Original filename", "Comment", "Checksum", "Uncompressed data size"}
