"""Reference encoders of the Windows artefact formats."""
import struct
import uuid

from mc.fmt import common
from mc.fmt.table import Table


def utf16(string):
    return string.encode("utf-16-le")


def guid(data):
    return str(uuid.UUID(bytes_le=data))


# ------------------------------------------------------------ Recycle.Bin

def recycle_bin(version, size, time, name, extra=0):
    blob = struct.pack("<QQQ", version, size, time)
    data = utf16(name + "\0")
    if version == 2:
        return blob + struct.pack("<I", len(data) // 2 + extra) + data + b"\0\0" * extra
    return blob + data + b"\0\0" * extra


INFO2_HEADER = Table("<", "u1:I:Unknown1:x8", "count:I:Number of file entries:d", "u2:I:Unknown2:x8", "size:I:File entry size:d",
                     "u3:I:Unknown3:x8")
INFO2_ENTRY = Table("<", "name:260:Original filename (ANSI):ansi", "index:I:Index:d", "drive:I:Drive number:d",
                    "time:Q:Deletion time:filetime", "fsize:I:Original file size:d",
                    ansi=lambda v: v.split(b"\0")[0].decode("cp1252"))


def info2(header, entries):
    """entries: (values, unicode name or None)."""
    blob = INFO2_HEADER.pack(header)
    expected = INFO2_HEADER.expect(header)
    for values, name in entries:
        blob += INFO2_ENTRY.pack(values)
        expected += INFO2_ENTRY.expect(values)
        if header["size"] == 800:
            data, tail = name
            blob += (utf16(data) + b"\0\0" + tail).ljust(520, b"\0")[:520]
            expected.append(("Original filename (Unicode)", data))
    return blob, expected


# ------------------------------------------------------------ restore points

RP_EVENTS = {100: "BEGIN_SYSTEM_CHANGE", 101: "END_SYSTEM_CHANGE", 102: "BEGIN_NESTED_SYSTEM_CHANGE", 103: "END_NESTED_SYSTEM_CHANGE"}
RP_TYPES = {0: "APPLICATION_INSTALL", 1: "APPLICATION_UNINSTALL", 10: "DEVICE_DRIVER_INSTALL", 12: "MODIFY_SETTINGS",
            13: "CANCELLED_OPERATION"}


def rp_log(event, kind, sequence, description, unknown, time):
    blob = struct.pack("<IIQ", event, kind, sequence) + utf16(description + "\0") + unknown + struct.pack("<Q", time)
    expected = [("Event type", f"0x{event:08x} ({RP_EVENTS.get(event, 'UNKNOWN')})"),
                ("Restore point type", f"0x{kind:08x} ({RP_TYPES.get(kind, 'UNKNOWN')})"),
                ("Sequence number", f"0x{sequence:08x}"), ("Description", description)]
    expected.append(("Unknown1", unknown))
    return blob, expected + [("Creation time", common.filetime(time))]


CHANGE_TYPES = ["LogHeader", "LogEntry", "VolumePath", "FirstPath", "SecondPath", "TempPath", "AclInline", "AclFile", "DebugInfo", "ShortName"]
CHANGE_STRINGS = {4: "Secondary path", 5: "Backup filename", 9: "Short filename"}
CHANGE_ENTRY = Table("<", "sig:I:Signature:x8", "type:I:Entry type:x8", "flags:I:Entry flags:x8", "attrs:I:File attribute flags:x8",
                     "seq:Q:Sequence number:d", "u1:32::", "psize:I:Process name size:d", "u2:I:Unknown2:x8")
CHANGE_FIELDS = {"Record size", "Record type", "Signature", "Format version", "Volume path", "Copy of record size", "Entry type",
                 "Entry flags", "File attribute flags", "Sequence number", "Process name size", "Unknown2", "Process name",
                 "Sub record data offset", "Sub record data size", "Secondary path", "Backup filename", "Short filename"}


def change_type(number):
    name = f"RecordType{CHANGE_TYPES[number]}" if number < len(CHANGE_TYPES) else "UNKNOWN"
    return f"{number} ({name})"


def change_log(volume, entries):
    """entries: (values, process name, [(sub record type, payload or string)]).

    Returns (bytes, expected text, expected API values)."""
    path = utf16(volume + "\0")
    size = 16 + 8 + len(path) + 4
    blob = struct.pack("<IIII", size, 0, 0xabcdef12, 2) + struct.pack("<II", 8 + len(path), 2) + path + struct.pack("<I", size)
    expected = [("Record size", str(size)), ("Record type", change_type(0)), ("Signature", "0xabcdef12"), ("Format version", "2"),
                ("Record size", str(8 + len(path))), ("Record type", change_type(2)), ("Volume path", volume),
                ("Copy of record size", str(size))]
    api = []
    for values, process, subs in entries:
        name = utf16(process + "\0")
        body = b""
        texts = []
        for kind, payload in subs:
            data = utf16(payload + "\0") if isinstance(payload, str) else payload
            body += struct.pack("<II", 8 + len(data), kind) + data
            texts += [("Record size", str(8 + len(data))), ("Record type", change_type(kind))]
            if kind in CHANGE_STRINGS:
                texts.append((CHANGE_STRINGS[kind], payload))
        values = {**values, "sig": 0xabcdef12, "psize": len(name)}
        size = 8 + CHANGE_ENTRY.size + len(name) + len(body) + 4
        blob += struct.pack("<II", size, 1) + CHANGE_ENTRY.pack(values) + name + body + struct.pack("<I", size)
        expected += [("Record size", str(size)), ("Record type", change_type(1))] + CHANGE_ENTRY.expect(values)
        expected += [("Process name", process), ("Sub record data offset", str(len(name))), ("Sub record data size", str(len(body)))]
        expected += texts + [("Copy of record size", str(size))]
        api.append((values["type"], values["flags"], values["attrs"], values["seq"], process))
    return blob, expected, (volume, api)


# ------------------------------------------------------------ USN journal

USN_KEYS = ("file_reference", "parent_file_reference", "sequence_number", "timestamp", "update_reason_flags", "update_source_flags",
            "security_descriptor_entry", "file_attribute_flags")


def usn_record(values, name, align=8):
    data = utf16(name)
    size = -(-(60 + len(data)) // align) * align
    return struct.pack("<IHHQQQQIIIIHH", size, 2, 0, *values, len(data), 60) + data + b"\0" * (size - 60 - len(data))


def usn_file(records, align=8, skip=()):
    """Lays records out in 4096 byte blocks that none of them spans; skip: record indexes that start a new block."""
    blob = b""
    for index, (values, name) in enumerate(records):
        data = usn_record(values, name, align)
        used = len(blob) % 4096
        if used and (index in skip or used + len(data) > 4096):
            blob += b"\0" * (4096 - used)
        blob += data
    return blob


# ------------------------------------------------------------ task scheduler job

JOB_FIXED = Table("<", "product:H:Product version:product", "version:H:Format version:d", "id:16:Job identifier:guid",
                  "app:H:Application name offset:x4", "triggers:H:Triggers offset:x4", "retries:H:Error retry count:d",
                  "interval:H:Error retry interval:minutes", "deadline:H:Idle deadline:minutes", "wait:H:Idle wait:minutes",
                  "priority:I:Priority:x8", "runtime:I:Maximum run time:ms", "exit:I:Exit code:x8", "status:I:Status:x8",
                  "flags:I:Flags:x8", "last:16:Last run time:systime",
                  product=lambda v: f"0x{v:04x} ({v >> 8}.{v & 0xff})", guid=guid, minutes=lambda v: f"{v} minutes",
                  ms=lambda v: f"{v} milliseconds",
                  systime=lambda v: "{0:04d}-{1:02d}-{3:02d} {4:02d}:{5:02d}:{6:02d}.{7:03d}".format(*struct.unpack("<8H", v)))
JOB_TRIGGER = Table("<", "size:H:Size:d", "r1:H:Reserved1:x4", "begin:6:Start date:date", "end:6:End date:date", "time:4:Start time:time",
                    "duration:I:Duration:minutes", "interval:I:Interval:minutes", "flags:I:Trigger flags:x8", "type:I:Trigger type:x8",
                    "a0:H:Trigger arg0:x4", "a1:H:Trigger arg1:x4", "a2:H:Trigger arg2:x4", "pad:H:Trigger padding:x4",
                    "r2:H:Trigger reserved2:x4", "r3:H:Trigger reserved3:x4",
                    date=lambda v: "{:04d}-{:02d}-{:02d}".format(*struct.unpack("<3H", v)),
                    time=lambda v: "{:02d}:{:02d}".format(*struct.unpack("<2H", v)), minutes=lambda v: f"{v} minutes")
JOB_STRINGS = ("Application name", "Parameters", "Working directory", "Author", "Comment")


def job_string(value):
    """None: no characters at all, otherwise NUL terminated."""
    data = b"" if value is None else utf16(value + "\0")
    return struct.pack("<H", len(data) // 2) + data


def job(fixed, running, strings, user, reserved, triggers):
    blob = JOB_FIXED.pack(fixed) + struct.pack("<H", running)
    expected = JOB_FIXED.expect(fixed) + [("Running instance count", str(running))]
    for description, value in zip(JOB_STRINGS, strings):
        data = job_string(value)
        blob += data
        expected.append((description, f"({len(data) - 2} bytes) {value or ''}"))
    blob += struct.pack("<H", len(user)) + user + struct.pack("<H", len(reserved)) + reserved + struct.pack("<H", len(triggers))
    for trigger in triggers:
        blob += JOB_TRIGGER.pack(trigger)
        expected += JOB_TRIGGER.expect(trigger)
    api = (strings[0] or "", strings[3] or "", strings[4] or "", fixed["retries"], fixed["interval"], guid(fixed["id"]),
           strings[1] or "", fixed["priority"], strings[2] or "")
    return blob, expected, api


# ------------------------------------------------------------ detection history

CATEGORIES = {0: "INVALID", 1: "ADWARE", 8: "TROJAN", 34: "TOOL", 35: "UNKNOWN", 36: "TROJAN_DENIALOFSERVICE", 42: "VIRUS", 44: "UNKNOWN",
              50: "RANSOM", 51: "ASR", 52: "UNKNOWN"}
HISTORY_NAMES = [{0: "Threat identifier", 1: "Identifier"}, {0: "UnknownMagic1", 1: "Threat name", 4: "Category"},
                 {0: "UnknownMagic2", 1: "Resource type", 2: "Resource location", 4: "Threat tracking data size",
                  6: "Last threat status change time", 12: "Domain user1", 14: "Process name", 18: "Initial detection time",
                  20: "Remediation time", 24: "Domain user2"}]
MAGIC = "Magic.Version:1.2"


def history_value(kind, value):
    """(bytes, value lines, the value as the summary shows it)."""
    if kind in (0, 5, 6, 8):
        data = struct.pack("<Q" if kind == 8 else "<I", value)
        shown, line = str(value), ("Value integer", str(value))
    elif kind == 0xa:
        data = struct.pack("<Q", value)
        shown, line = str(value), ("Value FILETIME", common.filetime(value))
    elif kind == 0x15:
        data = utf16(value + "\0")
        shown, line = value, ("Value string", value)
    elif kind == 0x1e:
        data = value
        shown, line = guid(value), ("Value GUID", guid(value))
    else:
        data = value
        shown, line = (str(value) if kind == 0x28 else "None"), ("Data", value)
    blob = struct.pack("<II", len(data), kind) + data
    blob += b"\0" * (-len(blob) % 8)
    return blob, [("Value data", blob), ("Data size", str(len(data))), ("Data type", f"0x{kind:08x}"), line], shown


def tracking(values, header=None, tail=b""):
    """Threat tracking data: (bytes, lines). header: (header size, unknown2) of the variant with a header."""
    body = b""
    lines = []
    for kind, key, value in values:
        name = utf16(key + "\0")
        body += struct.pack("<I", len(name)) + name + struct.pack("<I", kind)
        lines += [("Key string size", str(len(name))), ("Key string", key), ("Value type", f"0x{kind:08x}")]
        if kind in (3, 4, 5):
            body += struct.pack({3: "<I", 4: "<Q", 5: "<B"}[kind], value)
            lines.append(("Value integer", str(value)))
        elif kind == 6:
            data = utf16(value + "\0")
            body += struct.pack("<I", len(data)) + data
            lines += [("Value string size", str(len(data))), ("Value string", value)]
        else:
            body += value
            lines.append(("Value data", value))
    if header is None:
        return struct.pack("<I", 4 + len(body)) + body + tail, lines
    size, unknown = header
    total = size + 4 + len(body)
    blob = struct.pack("<IIIII", 1, size, len(body), total, unknown) + b"\0" * (size + 4 - 20) + body + tail
    return blob, [("Version", "1"), ("Header size", str(size)), ("Values data size", str(len(body))), ("Total data size", str(total)),
                  ("Unknown2", f"0x{unknown:08x}")] + lines


def history(values):
    """values: (kind, value); kind "tracking" stands for data made by tracking()."""
    blob = b""
    first = []
    second = []
    group = index = 0
    for kind, value in values:
        lines = None
        if kind == "tracking":
            value, lines = value
            kind = 0x28
        data, texts, shown = history_value(kind, value)
        blob += data
        first += texts
        if value == MAGIC:
            group, index = min(group + 1, 2), 0
        if (group, index) == (2, 5):
            second += lines
        else:
            if (group, index) == (1, 4):
                shown += f" ({CATEGORIES[value]})"
            second.append((HISTORY_NAMES[group].get(index, f"UNKNOWN_{group}_{index}"), shown))
        index += 1
    return blob, first + second


HISTORY_FIELDS = {d for names in HISTORY_NAMES for d in names.values()} | {
    f"UNKNOWN_{g}_{i}" for g in range(3) for i in range(32)} | {
    "Data size", "Data type", "Value integer", "Value FILETIME", "Value string", "Value GUID", "Data", "Key string size", "Key string",
    "Value type", "Value string size", "Value data", "Version", "Header size", "Values data size", "Total data size", "Unknown2"}


# ------------------------------------------------------------ metafiles

EMF_HEADER = Table("<", "type:I:Record type:type", "size:I:Record size:d", "bounds:16::", "frame:16::", "sig:I:Signature:x4",
                   "version:I:Format version:x4", "fsize:I:File size:d", "records:I:Number of records:d", "handles:H:Number of handles:d",
                   "u1:H:Unknown (reserved):x4", "dsize:I:Description string size:d", "doffset:I:Description string offset:x4",
                   "palette:I::", "px:8::", "mm:8::", "pfs:I::", "pfo:I::", "gl:I::", "um:8::",
                   type=lambda v: f"0x{v:04x} ({EMF_TYPES.get(v, 'UNKNOWN')})")
EMF_TYPES = {1: "EMR_HEADER", 14: "EMR_EOF", 0x18: "EMR_SETTEXTCOLOR", 0x25: "EMR_SELECTOBJECT", 70: "EMR_COMMENT"}
EMF_STOCK = {0x80000000: "WHITE_BRUSH", 0x80000005: "NULL_BRUSH", 0x80000007: "BLACK_PEN", 0x80000008: "NULL_PEN"}


def emf(header, records, tail=b""):
    values = {**header, "type": 1, "size": EMF_HEADER.size + len(tail)}
    blob = EMF_HEADER.pack(values) + tail
    expected = EMF_HEADER.expect(values)
    for kind, data in records:
        blob += struct.pack("<II", kind, 8 + len(data)) + data
        expected += [("Record type", f"0x{kind:04x} ({EMF_TYPES.get(kind, 'UNKNOWN')})"), ("Record size", str(8 + len(data)))]
        if data:
            expected.append(("Record data", data))
        if kind == 0x18:
            expected.append(("Color", f"0x{struct.unpack('<I', data[:4])[0]:04x}"))
        elif kind == 0x25:
            value = struct.unpack("<I", data[:4])[0]
            expected.append(("Object identifier", f"0x{value:08x} ({EMF_STOCK[value]})" if value in EMF_STOCK else f"0x{value:08x}"))
    return blob, expected


EMF_FIELDS = {d for _, _, d, _, _ in EMF_HEADER.fields if d} | {"Record data", "Color", "Object identifier"}

WMF_HEADER = Table("<", "type:H:File type:x4", "size:H:Record size:d", "version:H:Format version:d", "low:H:File size lower:d",
                   "high:H:File size upper:d", "objects:H:Maximum number of object:d", "largest:I:Largest record size:d",
                   "members:H:Number of records:d")
WMF_PLACEABLE = Table("<", "sig:I:Signature:x8", "handle:H:Resource handle:x4", "box:8:Bounding box:dump",
                      "inch:H:Number of units per inch:d", "u1:I:Unknown1:x8", "sum:H:Checksum:x4")
WMF_TYPES = {0: "META_EOF", 0x1e: "META_SAVEDC", 0x103: "META_SETMAPMODE", 0x107: "META_SETSTRETCHBLTMODE", 0x127: "META_RESTOREDC",
             0x20b: "META_SETWINDOWORG", 0x20c: "META_SETWINDOWEXT", 0xb41: "META_DIBSTRETCHBLT"}
MAP_MODES = dict(enumerate("MM_TEXT MM_LOMETRIC MM_HIMETRIC MM_LOENGLISH MM_HIENGLISH MM_TWIPS MM_ISOTROPIC MM_ANISOTROPIC".split(), 1))
STRETCH_MODES = dict(enumerate("BLACKONWHITE WHITEONBLACK COLORONCOLOR HALFTONE".split(), 1))
RASTER = {0x42: "BLACKNESS", 0xcc0020: "SRCCOPY", 0x8800c6: "SRCAND", 0xff0062: "WHITENESS", 0x550009: "DSTINVERT", 0x660046: "SRCINVERT"}


def wmf_value(kind, data):
    n = lambda f: struct.unpack_from("<" + f, data)
    if kind == 0x103:
        return [("Map mode", f"0x{n('H')[0]:04x} ({MAP_MODES.get(n('H')[0], 'UNKNOWN')})")]
    if kind == 0x107:
        return [("Stretch mode", f"0x{n('H')[0]:04x} ({STRETCH_MODES.get(n('H')[0], 'UNKNOWN')})")]
    if kind == 0x127:
        return [("Number of saved device context", str(n("H")[0]))]
    if kind in (0x20b, 0x20c):
        return [("X coordinate", str(n("hh")[1])), ("Y coordinate", str(n("hh")[0]))]
    if kind == 0xb41:
        op, sh, sw, sy, sx, dh, dw, dy, dx = n("I8h")
        return [("Raster operation", f"0x{op:08x} ({RASTER.get(op, 'UNKNOWN')})"), ("Source height", str(sh)), ("Source width", str(sw)),
                ("Source X coordinate", str(sx)), ("Source Y coordinate", str(sy)), ("Destination height", str(dh)),
                ("Destination width", str(dw)), ("Destination X coordinate", str(dx)), ("Destination Y coordinate", str(dy))]
    return []


def wmf(placeable, header, records):
    blob = b""
    expected = []
    if placeable is not None:
        placeable = {**placeable, "sig": 0x9ac6cdd7}
        blob = WMF_PLACEABLE.pack(placeable)
        expected = WMF_PLACEABLE.expect(placeable)
    header = {**header, "size": 9}
    blob += WMF_HEADER.pack(header)
    expected += WMF_HEADER.expect(header)
    for kind, data in records:
        assert len(data) % 2 == 0
        words = 3 + len(data) // 2
        blob += struct.pack("<IH", words, kind) + data
        expected += [("Record size", f"{words} ({words * 2} bytes)"), ("Record type", f"0x{kind:04x} ({WMF_TYPES.get(kind, 'UNKNOWN')})")]
        if data:
            expected.append(("Record data", data))
        expected += wmf_value(kind, data)
    return blob, expected


WMF_FIELDS = {d for t in (WMF_HEADER, WMF_PLACEABLE) for _, _, d, _, _ in t.fields if d} | {"Record type", "Record data"} | {
    d for k in (0x103, 0x107, 0x127, 0x20b, 0xb41) for d, _ in wmf_value(k, bytes(20))}


# ------------------------------------------------------------ jump lists

LNK_GUID = bytes.fromhex("0114020000000000c000000000000046")


def lnk(description, times=(0x01d0000012345678, 0x01d1000012345678, 0x01d2000012345678), size=77, attributes=0x20, blocks=b""):
    """A shortcut that holds only a description."""
    flags = 0x80 | (4 if description is not None else 0)
    blob = struct.pack("<I16sIIQQQIiIHHII", 0x4c, LNK_GUID, flags, attributes, *times, size, 0, 1, 0, 0, 0, 0)
    if description is not None:
        blob += struct.pack("<H", len(description)) + utf16(description)
    return blob + blocks + b"\0\0\0\0"


def compound(streams):
    """An OLE compound file (512 byte sectors) with these streams in its root: [(name, data)]."""
    sectors = []
    fat = []

    def chain(data):
        if not data:
            return 0xfffffffe
        first = len(sectors)
        count = -(-len(data) // 512)
        for i in range(count):
            sectors.append(data[i * 512:i * 512 + 512].ljust(512, b"\0"))
            fat.append(first + i + 1 if i + 1 < count else 0xfffffffe)
        return first

    mini = b""
    minifat = []
    placed = {}
    order = sorted(range(len(streams)), key=lambda i: (len(streams[i][0]), streams[i][0].upper()))
    for index, (_, data) in enumerate(streams):
        if len(data) >= 4096:
            placed[index] = chain(data)
        elif data:
            first = len(minifat)
            count = -(-len(data) // 64)
            minifat += [first + i + 1 for i in range(count - 1)] + [0xfffffffe]
            mini += data.ljust(count * 64, b"\0")
            placed[index] = first
        else:
            placed[index] = 0xfffffffe
    mini_start = chain(mini)
    table = b"".join(struct.pack("<I", v) for v in minifat)
    minifat_start = chain(table.ljust(-(-len(table) // 512) * 512, b"\xff"))
    minifat_count = -(-len(table) // 512)

    def entry(name, kind, right, child, start, size):
        data = utf16(name + "\0")
        return data.ljust(64, b"\0") + struct.pack("<HBBIII16sIQQIQ", len(data), kind, 1, 0xffffffff, right, child, bytes(16), 0, 0, 0, start, size)

    directory = entry("Root Entry", 5, 0xffffffff, order[0] + 1 if order else 0xffffffff, mini_start, len(mini))
    follows = {a: b + 1 for a, b in zip(order, order[1:])}
    for index, (name, data) in enumerate(streams):
        directory += entry(name, 2, follows.get(index, 0xffffffff), 0xffffffff, placed[index], len(data))
    while len(directory) % 512:
        directory += bytes(68) + b"\xff" * 12 + bytes(48)
    directory_start = chain(directory)
    fat_sector = len(sectors)
    fat.append(0xfffffffd)
    assert len(fat) <= 128, "one FAT sector"
    sectors.append(b"".join(struct.pack("<I", v) for v in fat).ljust(512, b"\xff"))
    header = bytes.fromhex("d0cf11e0a1b11ae1") + bytes(16) + struct.pack(
        "<HHHHHHIIIIIIIIII", 0x3e, 3, 0xfffe, 9, 6, 0, 0, 0, 1, directory_start, 0, 4096, minifat_start, minifat_count, 0xfffffffe, 0)
    header += struct.pack("<I", fat_sector) + b"\xff" * (108 * 4)
    return header + b"".join(sectors)


DEST_HEADER = Table("<", "version:I:Format version:d", "count:I:Number of entries:d", "pinned:I:Number of pinned entries:d",
                    "u1:f:Unknown1:f", "last:I:Last entry number:d", "u2:I:Unknown2:x8", "rev:I:Last revision number:d", "u3:I:Unknown3:x8")
_DEST = ("u1:Q:Unknown1:x8", "v:16:Droid volume identifier:guid", "f:16:Droid file identifier:guid", "bv:16:Birth droid volume identifier:guid",
         "bf:16:Birth droid file identifier:guid", "host:16:Hostname:host", "number:I:Entry number:d", "u2:I:Unknown2:x8", "u3:f:Unknown3:f",
         "time:Q:Last modification time:filetime", "pin:i:Pin status:d")
_RENDERS = {"guid": guid, "host": lambda v: v.decode("ascii").rstrip("\0"), "chars": lambda v: f"{v} characters ({v * 2} bytes)"}
DEST_V1 = Table("<", *_DEST, "psize:H:Path size:chars", **_RENDERS)
DEST_V2 = Table("<", *_DEST, "u4:i:Unknown4:d", "u5:I:Unknown5:x8", "u6:Q:Unknown6:x8", "psize:H:Path size:chars", **_RENDERS)
DEST_FIELDS = {d for t in (DEST_HEADER, DEST_V2) for _, _, d, _, _ in t.fields if d} | {"Path", "Unknown7"}


def dest_list(header, entries):
    """entries: (values, path, unknown7)."""
    blob = DEST_HEADER.pack(header)
    expected = DEST_HEADER.expect(header)
    table = DEST_V1 if header["version"] == 1 else DEST_V2
    for values, path, unknown in entries:
        values = {**values, "psize": len(utf16(path)) // 2}
        blob += table.pack(values) + utf16(path)
        expected += table.expect(values) + [("Path", path)]
        if header["version"] > 1:
            blob += struct.pack("<I", unknown)
            expected.append(("Unknown7", f"0x{unknown:08x}"))
    return blob, expected


CUSTOM_FIELDS = {"Format version", "Number of categories", "Unknown1", "Category type", "Number of characters", "Category name",
                 "Category identifier", "Number of entries", "Signature"}
CATEGORY_TYPES = {0: "Custom category", 1: "Known category", 2: "User tasks"}


def custom(categories, unknown=0, tail=b""):
    """categories: (0, name, [lnk descriptions]), (1, identifier), (2, [lnk descriptions]). Returns (bytes, lines, [(offset, description)])."""
    blob = struct.pack("<III", 2, len(categories), unknown)
    expected = [("Format version", "2"), ("Number of categories", str(len(categories))), ("Unknown1", f"0x{unknown:08x}")]
    links = []
    for category in categories:
        kind = category[0]
        blob += struct.pack("<I", kind)
        expected.append(("Category type", f"{kind} ({CATEGORY_TYPES[kind]})"))
        entries = ()
        if kind == 1:
            blob += struct.pack("<i", category[1])
            expected.append(("Category identifier", str(category[1])))
        else:
            if kind == 0:
                name = utf16(category[1])
                blob += struct.pack("<H", len(name) // 2) + name
                expected += [("Number of characters", str(len(name) // 2)), ("Category name", category[1])]
            entries = category[-1]
            blob += struct.pack("<I", len(entries))
            expected.append(("Number of entries", str(len(entries))))
        for description in entries:
            blob += LNK_GUID
            links.append((f"0x{len(blob):08x}", description))
            blob += lnk(description)
        blob += b"\xab\xfb\xbf\xba"
        expected.append(("Signature", b"\xab\xfb\xbf\xba"))
    return blob + tail, expected, links
