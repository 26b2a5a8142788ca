"""Reference encoders: keychain, Safari cookies, alias, bookmark, TZif."""
import collections
import datetime
import struct

from mc.fmt import common


def u32(value):
    return struct.pack(">I", value)


# ------------------------------------------------------------ keychain

Column = collections.namedtuple("Column", "identifier name format name_format")
NAMES = {0: "CSSM_DL_DB_SCHEMA_INFO", 1: "CSSM_DL_DB_SCHEMA_INDEXES", 2: "CSSM_DL_DB_SCHEMA_ATTRIBUTES"}
STRING, SINT32, UINT32, BIGNUM, REAL, TIME, BLOB, MULTI = range(8)


def pad4(data):
    return data + b"\0" * (-len(data) % 4)


def keychain_value(kind, value):
    if kind in (STRING, BLOB):
        raw = value if isinstance(value, bytes) else value.encode("ascii")
        return pad4(u32(len(raw)) + raw)
    if kind == SINT32:
        return struct.pack(">i", value)
    if kind == UINT32:
        return u32(value)
    if kind == TIME:
        return value.encode("ascii").ljust(16, b"\0")
    return b"\x01\x02\x03\x04"


def keychain_record(values, index=0, key=b"", order=None, tail=b""):
    """values: list of encoded values or None, each stored where order puts it."""
    start = 24 + 4 * len(values)
    offsets = [0] * len(values)
    data = pad4(key)
    for position in (order or range(len(values))):
        if values[position] is None:
            continue
        offsets[position] = start + len(data) + 1
        data += values[position]
    data += tail
    body = b"".join(u32(o) for o in offsets) + data
    return struct.pack(">6I", 24 + len(body), index, 3, 4, len(key), 6) + body


def keychain_table(record_type, records, holes=()):
    """records: list of bytes; holes: positions in the offsets array that are unused."""
    slots = []
    pending = list(range(len(records)))
    for position in range(len(records) + len(holes)):
        slots.append(None if position in holes else pending.pop(0))
    header = 28 + 4 * len(slots)
    offsets, data = [], b""
    where = []
    for record in records:
        where.append(header + len(data))
        data += record
    offsets = [0 if slot is None else where[slot] for slot in slots]
    return struct.pack(">7I", header + len(data), record_type, len(records), header, 0, 0, len(slots)) + b"".join(map(u32, offsets)) + data


def keychain(relations, indexes, tables, holes=(), key=b"", order=None, tail=b"", gap=b"", array_gap=b""):
    """relations: [(identifier, name, [Column])]; tables: {identifier: [row]}.

    A row is a list with one value per column, None for NULL. Returns the file
    and the tables it stores.
    """
    info = [(i, n) for i, n, _ in relations]
    info_rows = [keychain_record([u32(i), u32(len(n)) + n.encode("ascii")], index, tail=tail) for index, (i, n) in enumerate(info)]
    index_rows = [keychain_record([u32(v) for v in row], index, tail=tail) for index, row in enumerate(indexes)]
    attribute_rows, attributes = [], []
    for identifier, _, columns in relations:
        for column in columns:
            values = [u32(identifier), None if column.identifier is None else u32(column.identifier), u32(column.name_format),
                      None if column.name is None else keychain_value(STRING, column.name), None, u32(column.format)]
            attribute_rows.append(keychain_record(values, len(attribute_rows), tail=tail))
            name = column.name if column.name is not None else u32(column.identifier).decode("ascii")
            attributes.append({"RelationID": identifier, "AttributeID": column.identifier, "AttributeNameFormat": column.name_format,
                               "AttributeName": name, "AttributeFormat": column.format})
    blobs = [keychain_table(0, info_rows, holes), keychain_table(1, index_rows, holes), keychain_table(2, attribute_rows, holes)]
    expected = collections.OrderedDict()
    for identifier, name, columns in relations:
        expected[identifier] = [identifier, name, [(c.format, c.identifier, c.name if c.name is not None else u32(c.identifier).decode("ascii")) for c in columns], []]
    for identifier, rows in tables.items():
        columns = dict((i, c) for i, _, c in relations)[identifier]
        records = []
        for index, row in enumerate(rows):
            records.append(keychain_record([None if v is None else keychain_value(c.format, v) for c, v in zip(columns, row)], index,
                                           key, order(len(columns)) if order else None, tail))
            record = collections.OrderedDict()
            for (_, _, label), column, value in zip(expected[identifier][2], columns, row):
                if column.format in (BIGNUM, REAL, MULTI):
                    value = None
                elif column.format == BLOB and value is not None:
                    value = repr(value)
                record[label] = value
            expected[identifier][3].append(list(record.items()))
        blobs.append(keychain_table(identifier, records, holes))
    expected[0][3] = [[("RelationID", i), ("RelationName", n)] for i, n in info]
    if 1 in expected:
        names = ("RelationID", "IndexID", "AttributeID", "IndexType", "IndexedDataLocation")
        expected[1][3] = [list(zip(names, row)) for row in indexes]
    if 2 in expected:
        expected[2][3] = [list(a.items()) for a in attributes]
    base = 8 + 4 * len(blobs)
    offsets, data = [], array_gap
    for blob in blobs:
        offsets.append(base + len(data))
        data += blob + gap
    array = u32(base + len(data)) + u32(len(blobs)) + b"".join(map(u32, offsets)) + data
    header = b"kych" + struct.pack(">HHIII", 1, 0, 16, 20 + len(gap), 0)
    return header + gap + array, list(expected.values())


SCHEMA = [(i, n, []) for i, n in NAMES.items()]


# ------------------------------------------------------------ Safari cookies

def cocoa(value):
    try:
        return f"{datetime.datetime(2001, 1, 1) + datetime.timedelta(seconds=int(value))} ({value:f})"
    except (OverflowError, ValueError):
        return f"{value:f}"


def cookie(url=b"u.example", name=b"n", path=b"/", value=b"v", flags=1, unknown=(0x11223344, 0x55667788, 0x99), expires=5e8, created=4e8, order=(0, 1, 2, 3), gap=b""):
    """One cookie record; a string that is None is not stored."""
    strings = [url, name, path, value]
    offsets = [0, 0, 0, 0]
    data = gap
    for position in order:
        if strings[position] is not None:
            offsets[position] = 56 + len(data)
            data += strings[position] + b"\0" + gap
    size = 56 + len(data)
    blob = struct.pack("<8IQdd", size, unknown[0], flags, unknown[1], *offsets, unknown[2], expires, created) + data
    expected = [("Size", f"{size}"), ("Unknown1", f"0x{unknown[0]:08x}"), ("Flags", f"0x{flags:08x}"), ("Unknown2", f"0x{unknown[1]:08x}")]
    expected += [(d, str(o)) for d, o in zip(("URL offset", "Name offset", "Path offset", "Value offset"), offsets)]
    expected += [("Unknown3", f"0x{unknown[2]:08x}"), ("Expiration time", cocoa(expires)), ("Creation time", cocoa(created))]
    expected += [(d, (s or b"").decode("ascii")) for d, s in zip(("URL", "Name", "Path", "Value"), strings)]
    return blob, expected


def cookies(pages, gap=b"", footer=b"\0\0\0\0\x07\x17\x20\x05", trailer=b""):
    """pages: lists of (blob, expected) cookies."""
    blobs, texts = [], []
    for records in pages:
        offsets, data = [], gap
        start = 8 + 4 * len(records) + 4
        for blob, _ in records:
            offsets.append(start + len(data))
            data += blob + gap
        blobs.append(struct.pack("<II", 0x100, len(records)) + b"".join(struct.pack("<I", o) for o in offsets) + b"\0\0\0\0" + data)
        text = [("Signature", "0x00000100"), ("Number of records", str(len(records)))]
        text += [(f"Record: {i} offset", str(o)) for i, o in enumerate(offsets)]
        for _, expected in records:
            text += expected
        texts.append(text)
    out = b"cook" + u32(len(pages)) + b"".join(u32(len(b)) for b in blobs) + b"".join(blobs) + footer + trailer
    expected = [("Signature", "b'cook'"), ("Number of pages", str(len(pages)))]
    expected += [(f"Page: {i} size", str(len(b))) for i, b in enumerate(blobs)]
    for text in texts:
        expected += text
    return out, expected


# ------------------------------------------------------------ alias data

def hfs64(value):
    if value == 0:
        return "Not set (0)"
    seconds, fraction = divmod(value, 65536)
    moment = datetime.datetime(1904, 1, 1) + datetime.timedelta(seconds=seconds)
    return moment.strftime("%Y-%m-%d %H:%M:%S") + f".{fraction:03d} UTC"


def alias_value(tag, payload):
    """payload: bytes, str or list of integers depending on the tag."""
    if tag == 1:
        data = b"".join(u32(v) for v in payload)
        text = [("Integers", ", ".join(str(v) for v in payload))]
    elif tag in (0, 2, 6, 0x12, 0x13):
        data = payload.encode("utf-8")
        text = [("String", payload)]
    elif tag in (0xe, 0xf):
        raw = payload.encode("utf-16-be")
        data = struct.pack(">H", len(raw) // 2) + raw
        text = [("Number of characters", str(len(raw) // 2)), ("String", payload)]
    else:
        data = payload
        text = [("Value data", payload)]
    blob = struct.pack(">HH", tag, len(data)) + data
    blob += b"\0" * (len(blob) % 2)
    return blob, [("Value tag", f"0x{tag:04x}"), ("Value data size", str(len(data)))] + text


def alias(version, record, values):
    """record: (packed bytes, expected pairs) of the version's record."""
    data = record[0] + b"".join(b for b, _ in values)
    header = b"\0\0\0\0" + struct.pack(">HH", 8 + len(data), version)
    expected = [("Application information", b"\0\0\0\0"), ("Record size", str(8 + len(data))), ("Format version", str(version))]
    expected += record[1]
    for _, text in values:
        expected += text
    return header + data, expected


# ------------------------------------------------------------ bookmark data

def bookmark_record(kind, value):
    """(bytes, own text, type) of a data record."""
    if kind == 0x101:
        data, text = value.encode("utf-8"), [("String", value)]
    elif kind in (0x301, 0x302, 0x303, 0x304):
        data = struct.pack("<" + {0x301: "b", 0x302: "h", 0x303: "i", 0x304: "q"}[kind], value)
        text = [("Integer", str(value))]
    elif kind in (0x305, 0x306):
        data = struct.pack("<" + {0x305: "f", 0x306: "d"}[kind], value)
        text = [("Floating point", f"{value:f}")]
    elif kind == 0x601:
        data = b"".join(struct.pack("<I", v) for v in value)
        text = [("Integers", ", ".join(str(v) for v in value))]
    elif kind == 0x400:
        data = struct.pack(">d", value)
        text = [("Data", data)]
    else:
        data, text = value, [("Data", value)]
    return struct.pack("<II", len(data), kind) + data, [("Data size", str(len(data))), ("Data type", f"0x{kind:08x}")] + text


def bookmark(entries, signature=b"book", unknown=b"\x05" * 32, identifier=1, gap=b""):
    """entries: [(tag, kind, value, entry_unknown)].

    A value of kind 0x601 may be a list of (kind, value) members, which are then
    stored as records of their own. Returns file and expected text.
    """
    area = bytearray(b"\0\0\0\0")
    toc, per_entry = [], []

    def store(blob):
        area.extend(gap)
        offset = len(area)
        area.extend(blob)
        area.extend(b"\0" * (-len(area) % 4))
        return offset

    for tag, kind, value, extra in entries:
        members = []
        if kind == 0x601 and value and isinstance(value[0], tuple):
            offsets = []
            for member_kind, member in value:
                blob, text = bookmark_record(member_kind, member)
                offsets.append(store(blob))
                members += text
            stored = offsets
        else:
            stored = value
        blob, text = bookmark_record(kind, stored)
        offset = store(blob)
        toc.append((tag, offset, extra))
        text = [("Value tag", f"0x{tag:04x}")] + text + members
        if kind == 0x400:
            text.append(("Cocoa timestamp", f"{value:f}"))
        elif tag == 0x1004:
            text.append(("Path", "/".join(m for _, m in value)))
        elif tag == 0x1005:
            text.append(("Integers array", ", ".join(str(m) for _, m in value)))
        elif tag in (0x1010, 0x2020):
            flags = struct.unpack("<3Q", value[:24])
            text += [("Flags", f"0x{flags[0]:08x}"), ("Valid flags bitmask", f"0x{flags[1]:08x}"), ("Unknown", f"0x{flags[2]:08x}")]
        per_entry.append(text)
    area.extend(b"\0" * (-len(area) % 4))
    struct.pack_into("<I", area, 0, len(area))
    size = 12 * len(toc) + 12
    table = struct.pack("<5I", size, 0xfffffffe, identifier, 0, len(toc)) + b"".join(struct.pack("<III", *t) for t in toc)
    total = 48 + len(area) + len(table)
    blob = signature + struct.pack("<III", total, 0x10040000, 48) + unknown + bytes(area) + table
    expected = [("Signature", signature.decode()), ("Size", str(total)), ("Unknown1", "0x10040000"), ("Data area offset", "0x00000030"), ("Unknown3", unknown)]
    expected += [("Data area size", str(len(area))), ("Entries data size", str(size)), ("Unknown1", "0xfffffffe"), ("Identifier", str(identifier)),
                 ("Next TOC offset", "0x00000000"), ("Number of tagged values", str(len(toc)))]
    lines = [f"\ttag: 0x{t:04x}, data record offset: 0x{o:08x}, unknown1: 0x{x:08x}" for t, o, x in toc]
    for text in per_entry:
        expected += text
    return blob, expected, lines


# ------------------------------------------------------------ TZif

def tzif_block(width, transitions, types, abbreviations, leaps, standard, utc, version, reserved=b"\0" * 15):
    """transitions: [(time, type index)]; the rest is raw bytes except types."""
    code = {4: ">i", 8: ">q"}[width]
    leap_size = width + 4
    counts = (len(utc), len(standard), len(leaps) // leap_size, len(transitions), len(types) // 6, len(abbreviations))
    blob = b"TZif" + bytes([version]) + reserved + struct.pack(">6I", *counts)
    blob += b"".join(struct.pack(code, t) for t, _ in transitions) + bytes(i for _, i in transitions)
    blob += types + abbreviations + leaps + standard + utc
    names = ("Number of UTC time indicators", "Number of standard time indicators", "Number of leap seconds", "Number of transition times",
             "Number of local time types", "Time zone abbreviation strings size")
    expected = [("Signature", "b'TZif'"), ("Format version", f"0x{version:02x}"), ("Unknown1", reserved)]
    expected += [(n, str(c)) for n, c in zip(names, counts)]
    expected += [(f"Transition time: {i}", str(t)) for i, (t, _) in enumerate(transitions)]
    expected += [(f"Type of local time: {i}", str(k)) for i, (_, k) in enumerate(transitions)]
    expected += [("Local time types table data", types), ("Timezeone abbreviation strings data", abbreviations), ("Leap second records data", leaps),
                 ("Standard time indicators data", standard), ("UTC time indicators data", utc)]
    return blob, expected


def tzif(version, first, second=None, footer=b""):
    """first, second: keyword arguments of tzif_block."""
    blob, expected = tzif_block(4, version=version, **first)
    if second is not None:
        more, text = tzif_block(8, version=version, **second)
        blob += more + footer
        expected = expected + text + [("Time zone string", footer)]
    return blob, expected


__all__ = [n for n in dir() if not n.startswith("_")] + ["common"]
