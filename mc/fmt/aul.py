"""Apple unified logging: an independent writer of uuidtext, dsc, timesync and tracev3 files (after the documentation)."""
import os
import struct
import uuid

import lz4.block


def pad8(data):
    return data + bytes(-len(data) % 8)


def make_uuid(number):
    return uuid.UUID(int=0xa0b1c2d3e4f500112233445566778899 ^ number << 64 ^ number)


def uuidtext(entries, path, version=(2, 1)):
    """entries: (virtual offset, data)."""
    out = b"\x99\x88\x77\x66" + struct.pack("<III", *version, len(entries))
    for offset, data in entries:
        out += struct.pack("<II", offset, len(data))
    return out + b"".join(data for _, data in entries) + path.encode("utf-8") + b"\0"


def dsc(version, ranges, uuids):
    """ranges: (uuid index, range offset, data); uuids: (text offset, text size, identifier, path)."""
    header = b"hcsd" + struct.pack("<HHII", version, 0, len(ranges), len(uuids))
    at = len(header) + len(ranges) * (16 if version == 1 else 24) + len(uuids) * (28 if version == 1 else 32)
    strings, descriptors = b"", b""
    for index, offset, data in ranges:
        where = at + len(strings)
        strings += data
        descriptors += struct.pack("<IIII", index, offset, where, len(data)) if version == 1 else struct.pack("<QIIQ", offset, where, len(data), index)
    for offset, size, identifier, path in uuids:
        where = at + len(strings)
        strings += path.encode("utf-8") + b"\0"
        descriptors += struct.pack("<I" if version == 1 else "<Q", offset) + struct.pack("<I", size) + identifier.bytes + struct.pack("<I", where)
    return header + descriptors + strings


def boot_record(identifier, numerator, denominator, timestamp, extra=b""):
    body = identifier.bytes + struct.pack("<IIqiI", numerator, denominator, timestamp, 60, 0) + extra
    return b"\xb0\xbb" + struct.pack("<HI", 8 + len(body), 0) + body


def sync_record(kernel_time, timestamp, extra=b""):
    body = struct.pack("<QqiI", kernel_time, timestamp, -60, 1) + extra
    return b"Ts" + struct.pack("<HI", 8 + len(body), 0) + body


def chunk(tag, data, sub_tag=0x11):
    return struct.pack("<IIQ", tag, sub_tag, len(data)) + data


def header(boot, numerator=1, denominator=1, timestamp=1600000000, start=5, continuous=7, flags=1):
    data = struct.pack("<IIQiIIiII", numerator, denominator, start, timestamp, 0, 0, -60, 1, flags)
    data += struct.pack("<IIQ", 0x6100, 8, continuous)
    data += struct.pack("<IIII", 0x6101, 56, 0, 0) + b"20G80".ljust(16, b"\0") + b"MacBookPro16,1".ljust(32, b"\0")
    data += struct.pack("<II", 0x6102, 24) + boot.bytes + struct.pack("<II", 88, 0)
    data += struct.pack("<II", 0x6103, 48) + b"/var/db/timezone/zoneinfo/Europe/Amsterdam".ljust(48, b"\0")
    return pad8(chunk(0x1000, data))


def process_entry(index, main, shared, upper, lower, pid, uuid_entries=(), sub_systems=()):
    """uuid_entries: (load address, size, uuid index); sub_systems: (identifier, sub system offset, category offset)."""
    data = struct.pack("<HHhhQIIIIII", index, 0, main, shared, upper, lower, pid, 501, 0, len(uuid_entries), 0)
    for address, size, number in uuid_entries:
        data += struct.pack("<IIHIH", size, 0, number, address & 0xffffffff, address >> 32)
    data += struct.pack("<II", len(sub_systems), 0)
    for entry in sub_systems:
        data += struct.pack("<HHH", *entry)
    return pad8(data)


def string_table(strings):
    """Returns the data and the offset per string."""
    data, offsets = b"", {}
    for string in strings:
        offsets.setdefault(string, len(data))
        data += string.encode("utf-8") + b"\0"
    return data, offsets


def catalog(uuids, strings, processes, sub_chunks=()):
    data_uuids = b"".join(u.bytes for u in uuids)
    entries = b"".join(processes)
    first = len(data_uuids)
    second = first + len(strings)
    data = struct.pack("<HHHHH6xQ", first, second, len(processes), second + len(entries), len(sub_chunks), 3)
    data += data_uuids + strings + entries
    for start, end, size, indexes, offsets in sub_chunks:
        data += pad8(struct.pack(f"<QQIII{len(indexes)}H", start, end, size, 256, len(indexes), *indexes) +
                     struct.pack(f"<I{len(offsets)}H", len(offsets), *offsets))
    return pad8(chunk(0x600b, data))


def chunk_set(chunks, compressed):
    data = b"".join(pad8(c) for c in chunks)
    if compressed:
        packed = lz4.block.compress(data, store_size=False)
        block = b"bv41" + struct.pack("<II", len(data), len(packed)) + packed
    else:
        block = b"bv4-" + struct.pack("<I", len(data)) + data
    return pad8(chunk(0x600d, block + b"bv4$"))


def firehose(upper, lower, base, tracepoints, private=b"", ttl=0, gap=0):
    public = b"".join(tracepoints)
    virtual = 4096 - len(private)
    data = struct.pack("<QIBBHHHHBBQ", upper, lower, ttl, 0, 0, 16 + len(public), virtual, 0, 0, 0, base)
    return chunk(0x6001, data + public + bytes(gap) + private)


def tracepoint(record_type, log_type, flags, reference, thread, delta, data):
    return pad8(struct.pack("<BBHIQIHH", record_type, log_type, flags, reference, thread, delta & 0xffffffff, delta >> 32, len(data)) + data)


def backtrace(frames):
    """frames: (identifier or None, offset)."""
    identifiers = []
    for identifier, _ in frames:
        if identifier is not None and identifier not in identifiers:
            identifiers.append(identifier)
    data = struct.pack("<HBBBB", 0x0100, 0, len(identifiers), len(frames), 0)
    data += b"".join(i.bytes for i in identifiers) + b"".join(struct.pack("<I", o) for _, o in frames)
    return data + bytes(0xff if i is None else identifiers.index(i) for i, _ in frames)


def items(values, base=0):
    """values: (value type, data). Returns the data items, values data and private data.

    base is the size of what precedes the values in the values data (the backtrace).
    """
    out, public, private = b"", b"", b""
    for kind, data in values:
        if kind in (0x20, 0x22, 0x30, 0x32, 0x40, 0x42, 0xf2):
            out += struct.pack("<BBHH", kind, 4, base + len(public), len(data))
            public += data
        elif kind in (0x21, 0x41):
            out += struct.pack("<BBHH", kind, 4, len(private), len(data))
            private += data
        else:
            out += struct.pack("<BB", kind, len(data)) + data
    return out, public, private


def oversize(upper, lower, reference, values, lead=b""):
    encoded, public, private = items(values, len(lead))
    data = struct.pack("<BB", 0, len(values)) + encoded + lead + public
    return chunk(0x6002, struct.pack("<QIBBHQIHH", upper, lower, 0, 0, 0, 77, reference, len(data), len(private)) + data + private)


def simple_dump(upper, lower, log_type, time, thread, address, image, shared, sub_system, message):
    a, b = sub_system.encode("utf-8") + b"\0", message.encode("utf-8") + b"\0"
    return chunk(0x6004, struct.pack("<QIBBHQQQ", upper, lower, 0, log_type, 0, time, thread, address) + image.bytes + shared.bytes +
                 struct.pack("<III", 0, len(a), len(b)) + a + b)


def state_dump(upper, lower, time, activity, image, kind, library, decoder, title, state):
    return chunk(0x6003, struct.pack("<QIBBHQQ", upper, lower, 0, 0, 0, time, activity) + image.bytes + struct.pack("<II", kind, len(state)) +
                 library.ljust(64, b"\0") + decoder.ljust(64, b"\0") + title.encode("utf-8").ljust(64, b"\0") + state)


class Store:
    """A directory tree with a tracev3 file and its uuidtext, dsc and timesync files."""

    LAYOUTS = {"system": ("var/db/diagnostics/Persist/0.tracev3", "var/db/uuidtext", "var/db/diagnostics/timesync"),
               "archive": ("a.logarchive/Persist/0.tracev3", "a.logarchive", "a.logarchive/timesync"),
               "live": ("a.logarchive/logdata.LiveData.tracev3", "a.logarchive", "a.logarchive/timesync")}

    def __init__(self, root, layout="system"):
        self.root, (self.path, self.text, self.sync) = root, self.LAYOUTS[layout]

    def put(self, path, data):
        path = os.path.join(self.root, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)
        return path

    def uuidtext(self, identifier, data):
        name = identifier.hex.upper()
        self.put(f"{self.text}/{name[:2]}/{name[2:]}", data)

    def dsc(self, identifier, data):
        self.put(f"{self.text}/dsc/{identifier.hex.upper()}", data)

    def timesync(self, name, data):
        self.put(f"{self.sync}/{name}", data)

    def trace(self, data):
        return self.put(self.path, data)
