"""Reference encoders: Chrome cache (blockfile), Firefox cache version 1, SuperFastHash."""
import datetime
import struct

from mc.fmt import common

M = 0xffffffff


def super_fast_hash(data):
    """Paul Hsieh's SuperFastHash, from its publication."""
    if not data:
        return 0
    h = len(data)
    words, rem = divmod(len(data), 4)
    for low, high in struct.iter_unpack("<HH", data[:words * 4]):
        h = (h + low) & M
        h = ((h << 16) & M) ^ (((high << 11) & M) ^ h)
        h = (h + (h >> 11)) & M
    tail = data[words * 4:]
    if rem == 3:
        h = (h + struct.unpack("<H", tail[:2])[0]) & M
        h ^= (h << 16) & M
        h ^= tail[2] << 18
        h = (h + (h >> 11)) & M
    elif rem == 2:
        h = (h + struct.unpack("<H", tail)[0]) & M
        h ^= (h << 11) & M
        h = (h + (h >> 17)) & M
    elif rem == 1:
        h = (h + tail[0]) & M
        h ^= (h << 10) & M
        h = (h + (h >> 1)) & M
    for left, right in ((3, 5), (4, 17), (25, 6)):
        h ^= (h << left) & M
        h = (h + (h >> right)) & M
    return h


UNITS = {1: 36, 2: 256, 3: 1024, 4: 4096}
KINDS = {0: "Separate file", 1: "Rankings block file", 2: "256 byte block file", 3: "1024 byte block file", 4: "4096 byte block file"}


def address(kind, selector, number=0, blocks=1, initialized=1):
    if kind == 0:
        return initialized << 31 | selector
    return initialized << 31 | kind << 28 | (blocks - 1) << 24 | selector << 16 | number


def describe_address(value):
    """(is_initialized, file_type, filename, number, offset, documented size or None)."""
    kind = value >> 28 & 7
    initialized = bool(value >> 31)
    if value == 0:
        return (False, 0, None, None, None, None)
    if kind == 0:
        return (initialized, 0, "f_%06x" % (value & 0xfffffff), None, None, None)
    if kind not in UNITS:
        return (initialized, kind, None, None, None, None)
    number = value & 0xffff
    return (initialized, kind, "data_%d" % (value >> 16 & 0xff), number, 8192 + number * UNITS[kind], ((value >> 24 & 3) + 1) * UNITS[kind])


def address_string(value):
    """Debug rendering; the block size is left out (it is compared separately)."""
    initialized, kind, name, number, offset, _ = describe_address(value)
    if value == 0:
        return "0x00000000 (uninitialized)"
    text = f"0x{value:08x} (initialized: {initialized}, file type: {KINDS.get(kind, 'Unknown')}"
    if name:
        text += f", filename: {name}"
    if number is not None:
        text += f", block number: {number}, block offset: 0x{offset:08x}"
    return text


def chrome_time(value):
    return f"{datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds=value)} (0x{value:08x})"


def index_file(table, version=(2, 0), entries=3, stored=100, last=5, creation=12900000000000000, lru=None, tail=b""):
    out = struct.pack("<IHHIIIIIIIIQ", 0xc103cac3, version[1], version[0], entries, stored, last, 0, 0, len(table), 0, 0, creation) + bytes(208)
    lru = lru or {}
    out += bytes(8) + struct.pack("<I5I5I5IIII", lru.get("filled", 0), *lru.get("sizes", (1, 2, 3, 4, 5)), *lru.get("heads", (0,) * 5),
                                  *lru.get("tails", (0,) * 5), lru.get("transaction", 0), lru.get("operation", 0), lru.get("list", 0)) + bytes(28)
    return out + b"".join(struct.pack("<I", a) for a in table) + tail


def entry(key, next_=0, rankings=0, creation=12900000000000000, hash_=None, reuse=1, refetch=2, state=0, flags=0, self_hash=0x99,
          sizes=(1, 2, 3, 4), streams=(0, 0, 0, 0), junk=b""):
    raw = key + b"\0" + junk if len(key) < 160 else key[:160]
    hash_ = super_fast_hash(key) if hash_ is None else hash_
    return struct.pack("<IIIIIIQII4I4II16xI160s", hash_, next_, rankings, reuse, refetch, state, creation, len(key), 0, *sizes, *streams,
                       flags, self_hash, raw)


def data_file(blocks, block_size=256, version=(2, 0), number=1, next_number=0, entries=None, maximum=None, bitmap=None, updating=0,
              empty=(0, 0, 0, 0), hints=(0, 0, 0, 0), user=(0, 0, 0, 0, 0)):
    """blocks: {block number: bytes}."""
    count = (max(blocks) + 8) if blocks else 8
    words = [0] * 2028
    for b in (bitmap if bitmap is not None else blocks):
        words[b // 32] |= 1 << b % 32
    head = struct.pack("<IHHHHIII4I4II5I", 0xc104cac3, version[1], version[0], number, next_number, block_size,
                       len(blocks) if entries is None else entries, count if maximum is None else maximum, *empty, *hints, updating, *user)
    out = bytearray(head + struct.pack("<2028I", *words))
    assert len(out) == 8192, len(out)
    out += bytes(block_size * count)
    for b, data in blocks.items():
        out[8192 + b * block_size:8192 + b * block_size + len(data)] = data
    return bytes(out)


def ranges(bits):
    out = []
    for b in sorted(bits):
        if out and out[-1][1] == b:
            out[-1][1] = b + 1
        else:
            out.append([b, b + 1])
    return [f"{a} - {b} ({b - a})" for a, b in out]


# Firefox ------------------------------------------------------------------

def location(value):
    return (f"block number: {value & 0xffffff}, extra blocks: {value >> 24 & 3}, location selector: {value >> 28 & 3}, "
            f"reserved: {(value & 0x4c000000) >> 26:02x}, location flag: {value >> 31}")


def ff_map(records, version=(1, 19), entries=None, dirty=0, ranks=None, usage=None, number=None):
    ranks = ranks or list(range(32))
    usage = usage or [7 * i for i in range(32)]
    n = len(records)
    head = struct.pack(">HHIiIi32I32I", version[0], version[1], 16 * n, n if entries is None else entries, dirty, n if number is None else number, *ranks, *usage)
    out = head + b"".join(struct.pack(">IIII", *r) for r in records)
    text = [("Major format version", str(version[0])), ("Minor format version", str(version[1])), ("Data size", str(16 * n)),
            ("Number of entries", str(n if entries is None else entries)), ("Is dirty flag", str(dirty)),
            ("Number of records", str(n if number is None else number)),
            ("Eviction ranks", ", ".join(map(str, ranks))), ("Bucket usage", ", ".join(map(str, usage)))]
    for h, rank, data, meta in records:
        text += [("Hash number", str(h)), ("Eviction rank", str(rank)), ("Data location", location(data)), ("Metadata location", location(meta))]
    return out, text


def ff_entry(request, information, loc=0x90000001, fetch=3, fetched=1400000000, modified=1400000001, expires=0, data_size=77, version=(1, 19)):
    raw = request.encode() + b"\0"
    out = struct.pack(">HHIiIIIIII", version[0], version[1], loc, fetch, fetched, modified, expires, data_size, len(raw), len(information)) + raw + information
    text = [("Major format version", str(version[0])), ("Minor format version", str(version[1])), ("Location", location(loc)),
            ("Fetch count", str(fetch)), ("Last fetched time", common.posix(fetched)), ("Last modified time", common.posix(modified)),
            ("Cached data size", str(data_size)), ("Request size", str(len(raw))), ("Information size", str(len(information))),
            ("Request", request), ("Information", information)]
    return out, text


def ff_block_file(items, block_size):
    """items: encoded entries, or an int n for n free (zero) blocks."""
    out = b""
    for item in items:
        out += bytes(item * block_size) if isinstance(item, int) else item + b"\xee" * (-len(item) % block_size)
    return out
