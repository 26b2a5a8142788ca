"""Reference encoders for LevelDB log, descriptor (MANIFEST) and table files."""
import struct

import snappy
import zstd

PAGE = 32768
MAGIC = b"\x57\xfb\x80\x8b\x24\x75\x47\xdb"


def varint(value):
    out = b""
    while value >= 0x80:
        out += bytes([value & 0x7f | 0x80])
        value >>= 7
    return out + bytes([value])


def slice_(data):
    return varint(len(data)) + data


def block(kind, data, checksum=0x11223344):
    return struct.pack("<IHB", checksum, len(data), kind) + data


def log_file(records, fragment=None):
    """Records placed the way LevelDB's writer does; returns (bytes, blocks, record offsets).

    fragment(index, record, left) may return a list of explicit cut positions.
    """
    out = b""
    blocks = []
    offsets = []
    for index, record in enumerate(records):
        rest = record
        begin = True
        cuts = list(fragment(index, record)) if fragment else []
        while True:
            left = PAGE - len(out) % PAGE
            if left < 7:
                out += b"\0" * left
                left = PAGE
            room = left - 7
            size = min(room, len(rest))
            if cuts:
                size = min(size, cuts.pop(0))
            end = size == len(rest) and not cuts
            kind = 1 if begin and end else 2 if begin else 4 if end else 3
            if begin:
                offsets.append(len(out))
            blocks.append((len(out), kind, rest[:size]))
            out += block(kind, rest[:size])
            rest = rest[size:]
            begin = False
            if end:
                break
    return out, blocks, offsets


def batch(sequence, items, count=None):
    """items: (key, value) or (key, None) for a deletion."""
    out = struct.pack("<QI", sequence, len(items) if count is None else count)
    for key, value in items:
        out += (b"\1" if value is not None else b"\0") + slice_(key)
        if value is not None:
            out += slice_(value)
    return out


def describe_blocks(blocks):
    return [[("Checksum", "0x11223344"), ("Record type", str(kind)), ("Record data", data)] for _, kind, data in blocks]


def describe_batch(offset, sequence, items):
    out = [("Offset", str(offset)), ("Sequence number", str(sequence)), ("Number of values", str(len(items)))]
    for key, value in items:
        out.append(("Value type", "1 (kTypeValue)" if value is not None else "0 (kTypeDeletion)"))
        out += [("Key size", str(len(key))), ("Key", key)]
        if value is not None:
            out += [("Value size", str(len(value))), ("Value", value)]
    return out


TAGS = {1: "kComparator", 2: "kLogNumber", 3: "kNextFileNumber", 4: "kLastSequence", 5: "kCompactPointer", 6: "kDeletedFile",
        7: "kNewFile", 9: "kPrevLogNumber"}


def edit(values):
    """A version edit record: (tag, ...) tuples; returns (bytes, described pairs)."""
    out, text = b"", []
    for tag, *args in values:
        out += varint(tag)
        text.append(("Value tag", f"{tag} ({TAGS[tag]})"))
        if tag == 1:
            name = args[0].encode()
            out += slice_(name)
            text += [("Name string size", str(len(name))), ("Name string", args[0])]
        elif tag in (2, 3, 4, 9):
            out += varint(args[0])
            text.append(({2: "Log number", 3: "Next file number", 4: "Last sequence number", 9: "Previous log number"}[tag], str(args[0])))
        elif tag == 5:
            out += varint(args[0]) + slice_(args[1])
            text += [("Level", str(args[0])), ("Key size", str(len(args[1]))), ("Key", args[1])]
        elif tag == 6:
            out += varint(args[0]) + varint(args[1])
            text += [("Level", str(args[0])), ("File number", str(args[1]))]
        elif tag == 7:
            out += varint(args[0]) + varint(args[1]) + varint(args[2]) + slice_(args[3]) + slice_(args[4])
            text += [("Level", str(args[0])), ("File number", str(args[1])), ("File size", str(args[2])),
                     ("Smallest record key size", str(len(args[3]))), ("Smallest record key", args[3]),
                     ("Largest record key size", str(len(args[4]))), ("Largest record key", args[4])]
    return out, text


def common(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return n


def table_block(entries, interval=16, share=None, restarts=None):
    """entries: (internal key, value)."""
    out, points, previous = b"", [], b""
    for index, (key, value) in enumerate(entries):
        if index % interval == 0:
            points.append(len(out))
            shared = 0
        else:
            shared = common(previous, key)
            if share is not None:
                shared = min(shared, share)
        out += varint(shared) + varint(len(key) - shared) + varint(len(value)) + key[shared:] + value
        previous = key
    if not points:
        points = [0]
    return out + b"".join(struct.pack("<I", p) for p in points) + struct.pack("<I", len(points))


def internal(key, sequence, kind):
    return key + struct.pack("<Q", sequence << 8 | kind)


def compress(data, kind):
    return snappy.compress(data) if kind == 1 else zstd.compress(data) if kind == 2 else data


def table(groups, interval=16, share=None, compressions=(0,), index_compression=0, pad=b"", index_interval=1):
    """groups: list of data blocks, each a list of (key, sequence, type, value)."""
    out = pad
    index = []
    for i, group in enumerate(groups):
        kind = compressions[i % len(compressions)]
        data = compress(table_block([(internal(k, s, t), v) for k, s, t, v in group], interval, share), kind)
        index.append((internal(group[-1][0], group[-1][1], group[-1][2]), varint(len(out)) + varint(len(data))))
        out += data + struct.pack("<BI", kind, 0x55667788)
    meta = table_block([])
    meta_handle = varint(len(out)) + varint(len(meta))
    out += meta + struct.pack("<BI", 0, 0x55667788)
    data = compress(table_block(index, index_interval), index_compression)
    index_handle = varint(len(out)) + varint(len(data))
    out += data + struct.pack("<BI", index_compression, 0x55667788)
    return out + (meta_handle + index_handle).ljust(40, b"\0") + MAGIC


def idb_prefix(database, store, index, widths):
    d, s, i = widths
    return (bytes([(d - 1) << 5 | (s - 1) << 2 | (i - 1)]) + database.to_bytes(d, "little") + store.to_bytes(s, "little") +
            index.to_bytes(i, "little"))
