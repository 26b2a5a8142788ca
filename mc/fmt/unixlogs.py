"""Reference encoders of the Unix and macOS log formats (written from their documentation)."""
import struct
import zlib

from mc.fmt.table import Table, RENDER

LINUX_TYPES = ("EMPTY", "RUN_LVL", "BOOT_TIME", "NEW_TIME", "OLD_TIME", "INIT_PROCESS", "LOGIN_PROCESS", "USER_PROCESS",
               "DEAD_PROCESS", "ACCOUNTING")
MAC_TYPES = ("EMPTY", "RUN_LVL", "BOOT_TIME", "OLD_TIME", "NEW_TIME", "INIT_PROCESS", "LOGIN_PROCESS", "USER_PROCESS",
             "DEAD_PROCESS", "ACCOUNTING", "SIGNATURE", "SHUTDOWN_TIME")


def named(names, digits):
    def render(value):
        name = names[value] if 0 <= value < len(names) else "UNKNOWN"
        return f"0x{value:0{digits}x} ({name})"
    return render


UTMP = Table(
    "<", "type:i:Type of login:type", "pid:I:PID:d", "terminal:32:Terminal:s", "tid:I:Terminal ID:d", "user:32:Username:s",
    "host:256:Hostname:s", "term:h:Termination status:x4", "exit:h:Exit status:x4", "session:i:Session:d",
    "ts:i:Timestamp:posix", "us:i:Microseconds:d", "ip:16:IP address:utmpip", "unknown:20:Unknown1:dump",
    type=named(LINUX_TYPES, 8),
    utmpip=lambda v: RENDER["ipv4"](v[:4]) if v[4:] == b"\0" * 12 else RENDER["ipv6"](v))

UTMPX = Table(
    "<", "user:256:Username:s", "tid:I:Terminal ID:d", "terminal:32:Terminal:s", "pid:I:PID:d", "type:h:Type of login:type",
    "unknown1:h:Unknown1:x4", "ts:i:Timestamp:posix", "us:i:Microseconds:d", "host:256:Hostname:s", "unknown2:64:Unknown2:dump",
    type=named(MAC_TYPES, 4))


def utmpx_header():
    return UTMPX.base(3, user=b"utmpx-1.00".ljust(256, b"\0"), type=10)


# ---------------------------------------------------------------- ASL

ASL_HEADER = Table(
    ">", "sig:12", "version:I:Format version:d", "first:Q:First log entry offset:x8", "created:Q:Creation time:posix",
    "cache:I:Cache size:d", "last:Q:Last log entry offset:x8", "unknown:36")
ASL_RECORD = Table(
    ">", "unknown:H", "size:I:Data size:d", "next:Q:Next record offset:x8", "id:Q:Message identifier:x8",
    "ts:Q:Written time:posix", "ns:I:Written time nanoseconds:d", "level:H:Alert level:d", "flags:H:Flags:x4",
    "pid:I:Process identifier (PID):d", "uid:i:User identifier (UID):d", "gid:i:Group identifier (GID):d",
    "ruid:i:Read user identifier (UID):d", "rgid:i:Read group identifier (GID):d",
    "refpid:Q:Reference process identifier (PID):d", "host:Q:Hostname string offset:x8", "sender:Q:Sender string offset:x8",
    "facility:Q:Facility string offset:x8", "message:Q:Message string offset:x8")


def asl_inline(data):
    return int.from_bytes(bytes([0x80 | len(data)]) + data.ljust(7, b"\0"), "big")


def asl(records, header=None, gap=b"", terminate_zero=True):
    """records: (values, [4 strings], [(name, value)]); a string is None, bytes (stored) or ("inline", bytes) or ("same", bytes).

    Returns the file and its reported values.
    """
    blob = bytearray(ASL_HEADER.size)
    stored = {}
    placed = []

    def put(item):
        if item is None:
            return 0
        if isinstance(item, tuple):
            kind, data = item
            if kind == "inline":
                return asl_inline(data)
            if data in stored:
                return stored[data]
            item = data
        offset = len(blob)
        blob.extend(struct.pack(">HI", 1, len(item) + 1) + item + b"\0")
        stored[item] = offset
        return offset

    def shown(item):
        if item is None:
            return "None"
        return (item[1] if isinstance(item, tuple) else item).decode("utf-8")

    for values, strings, extras in records:
        offsets = [put(s) for s in strings]
        pairs = [(put(n), put(v)) for n, v in extras]
        blob.extend(gap)
        placed.append((len(blob), values, strings, offsets, extras, pairs))
        blob.extend(bytes(ASL_RECORD.size + 16 * len(pairs) + 8))
    head = {**ASL_HEADER.base(1), "sig": b"ASL DB".ljust(12, b"\0"), "version": 2, "cache": 256, **(header or {})}
    head["first"] = placed[0][0] if placed else 0
    head["last"] = placed[-1][0] if placed else 0
    blob[:ASL_HEADER.size] = ASL_HEADER.pack(head)
    expected = ASL_HEADER.expect(head)
    previous = 0
    for index, (offset, values, strings, offsets, extras, pairs) in enumerate(placed):
        values = dict(values)
        values["size"] = ASL_RECORD.size - 6 + 16 * len(pairs) + 8
        values["next"] = placed[index + 1][0] if index + 1 < len(placed) else 0
        values.update(zip(("host", "sender", "facility", "message"), offsets))
        data = ASL_RECORD.pack(values) + b"".join(struct.pack(">QQ", *p) for p in pairs) + struct.pack(">Q", previous)
        blob[offset:offset + len(data)] = data
        previous = offset
        expected += ASL_RECORD.expect(values)
        expected += list(zip(("Hostname", "Sender", "Facility", "Message"), map(shown, strings)))
        expected += [(shown(n), shown(v)) for n, v in extras]
    return bytes(blob), expected


# ---------------------------------------------------------------- BSM

EVENTS = {0: "indir system call", 1: "exit(2)", 43190: "posix_spawn(2)", 45000: "audit startup", 6152: "login - local", 32800: "OpenSSH login",
          45023: "user authentication", 65535: "UNKNOWN", 45099: "UNKNOWN"}


def event_type(value):
    return f"0x{value:04x} ({EVENTS[value]})"


IDS = ("auid:i:Audit user identifier:d", "euid:i:Effective user identifier:d", "egid:i:Effective group identifier:d",
       "ruid:i:Real user identifier:d", "rgid:i:Real group identifier:d", "pid:I:Process identifier (PID):d",
       "sid:I:Session identifier:d")
HEAD = ("record_size:I:Record size:d", "version:B:Format version:d", "event:H:Event type:event", "modifier:H:Modifier:x4")


def token(kind, *fields):
    return Table(">", "token:B:Token type:x2", *fields, event=event_type), kind


def bsm_tokens():
    """name -> (Table, token type): every token layout of a fixed size, per address size."""
    result = {}

    def add(name, kind, *fields):
        result[name] = token(kind, *fields)

    add("attr32", 0x3e, "u:H:Unknown1:x4", "mode:H:File mode:x4", "uid:i:User identifier (UID):d", "gid:i:Group identifier (GID):d",
        "fs:I:File system identifier:x8", "file:Q:File identifier:x8", "dev:I:Device:x8")
    add("attr64", 0x73, "u:H:Unknown1:x4", "mode:H:File mode:x4", "uid:i:User identifier (UID):d", "gid:i:Group identifier (GID):d",
        "fs:I:File system identifier:x8", "file:Q:File identifier:x8", "dev:Q:Device:x8")
    add("exit", 0x52, "status:I:Status:x8", "value:I:Return value:x8")
    add("return32", 0x27, "status:B:Status:x8", "value:I:Return value:x8")
    add("return64", 0x72, "status:B:Status:x8", "value:Q:Return value:x8")
    add("in_addr", 0x2a, "ip:4:IP address:ipv4")
    add("in_addr_ex", 0x7e, "net:I:Net type:d", "ip:16:IP address:ipv6")
    add("ip", 0x2b, "u:12", "src:4:Source IP address:ipv4", "dst:4:Destination IP address:ipv4")
    add("ipc", 0x22, "type:B:Object type:x2", "id:I:Object identifier:x8")
    add("iport", 0x2c, "port:H:Port number:d")
    add("seq", 0x2f, "seq:I:Sequence number:d")
    add("sockinet32", 0x80, "family:H:Socket family:x4", "port:H:Local port:d", "ip:4:Local IP address:ipv4")
    add("sockinet128", 0x81, "family:H:Socket family:x4", "port:H:Local port:d", "ip:16:Local IP address:ipv6")
    for kind, name in ((0x24, "subject32"), (0x26, "process32")):
        add(name, kind, *IDS, "port:I:Terminal port:d", "ip:4:IP address:ipv4")
    for kind, name in ((0x75, "subject64"), (0x77, "process64")):
        add(name, kind, *IDS, "port:Q:Terminal port:d", "ip:4:IP address:ipv4")
    for net in (4, 16):
        for kind, name in ((0x7a, "subject32_ex"), (0x7b, "process32_ex")):
            add(f"{name}/{net}", kind, *IDS, "port:I:Terminal port:d", "net:I:Net type:d", f"ip:{net}:IP address:ip")
        for kind, name in ((0x7c, "subject64_ex"), (0x7d, "process64_ex")):
            add(f"{name}/{net}", kind, *IDS, "port:Q:Terminal port:d", "net:I:Net type:d", f"ip:{net}:IP address:ip")
        add(f"socket_ex/{net}", 0x7f, "domain:H:Socket domain:x4", "type:H:Socket type:x4", "net:H:Net type:d", "lport:H:Local port:d",
            f"lip:{net}:Local IP address:ip", "rport:H:Remote port:d", f"rip:{net}:Remote IP address:ip")
    return result


def bsm_headers():
    result = {"header32": token(0x14, *HEAD, "ts:I:Timestamp:posix", "us:I:Microseconds:d"),
              "header64": token(0x74, *HEAD, "ts:Q:Timestamp:posix", "us:Q:Microseconds:d")}
    for net in (4, 16):
        extra = ("net:I:Net type:d", f"ip:{net}:IP address:ip")
        result[f"header32_ex/{net}"] = token(0x15, *HEAD, *extra, "ts:I:Timestamp:posix", "us:I:Microseconds:d")
        result[f"header64_ex/{net}"] = token(0x79, *HEAD, *extra, "ts:Q:Timestamp:posix", "us:Q:Microseconds:d")
    return result


def bsm_variable(kind, *parts):
    """A token of a variable size: parts are (struct code, value, description, render) or raw bytes with description."""
    blob = bytes([kind])
    expected = [("Token type", f"0x{kind:02x}")]
    for code, value, description, render in parts:
        blob += value if code == "raw" else struct.pack(">" + code, value)
        if description:
            expected.append((description, RENDER[render](value) if render in RENDER else render))
    return blob, expected


def bsm_strings(data):
    """Variable size tokens that carry data (ASCII bytes)."""
    n = len(data)
    text = data.decode("ascii")
    string = ("raw", data + b"\0", None, None)

    def sized(kind, before, size_name, name):
        return bsm_variable(kind, *before, ("H", n + 1, size_name, "d"), string[:2] + (name, text))
    result = {
        "path": sized(0x23, [], "Path size", "Path"),
        "text": sized(0x28, [], "Text size", "Text"),
        "zonename": sized(0x60, [], "Name size", "Name"),
        "arg32": sized(0x2d, [("B", 3, "Argument index", "d"), ("I", 0x80000001, "Argument name", "x8")], "Argument value size", "Argument value"),
        "arg64": sized(0x71, [("B", 255, "Argument index", "d"), ("Q", 0x8000000000000001, "Argument name", "x8")], "Argument value size", "Argument value"),
        "other_file32": sized(0x11, [("I", 1400000000, "Timestamp", "posix"), ("I", 999999, "Microseconds", "d")], "Name size", "Name"),
        "sockunix": bsm_variable(0x82, ("H", 1, "Socket family", "x4"), string[:2] + ("Socket path", text)),
    }
    if n:
        result["opaque"] = bsm_variable(0x29, ("H", n, "Data size", "d"), ("raw", data, "Data", "dump"))
        result["data"] = bsm_variable(0x21, ("B", 2, "Data format", "x2"), ("B", 0, "Element data type", "x2"), ("B", n, "Number of elements", "d"),
                                      ("raw", data, "Data", "dump"))
    return result


def bsm_silent():
    """Tokens the reader skips over without reporting their values."""
    strings = b"ls\0-l\0\0"
    return {
        "exec_args": b"\x3c" + struct.pack(">I", 3) + strings,
        "exec_env": b"\x3d" + struct.pack(">I", 1) + b"A=b\0",
        "groups": b"\x34" + struct.pack(">III", 2, 20, 0x13141516),
        "newgroups": b"\x3b" + struct.pack(">II", 1, 0x2c282321),
        "ipc_perm": b"\x32" + bytes(range(1, 29)),
    }


def bsm_record(header, values, tokens):
    """(bytes, expected) of one record."""
    table, kind = header
    body = b"".join(t[0] for t in tokens)
    size = table.size + len(body) + 7
    values = {**values, "token": kind, "record_size": size, "version": 11}
    blob = table.pack(values) + body + struct.pack(">BHI", 0x13, 0xb105, size)
    expected = table.expect(values)
    for t in tokens:
        expected = expected + t[1]
    return blob, expected + [("Token type", "0x13"), ("Signature", "0xb105"), ("Record size", str(size))]


# ---------------------------------------------------------------- systemd

FLAG_NAMES = {0: "0x00", 1: "0x01 (OBJECT_COMPRESSED_XZ)", 2: "0x02 (OBJECT_COMPRESSED_LZ4)"}
OBJECTS = {1: "1 (OBJECT_DATA)", 3: "3 (OBJECT_ENTRY)", 6: "6 (OBJECT_ENTRY_ARRAY)"}
JOURNAL_HEADER = Table(
    "<", "sig:8:Signature:s", "compat:I:Compatible flags:x8", "incompat:I:Incompatible flags:x8", "state:B:State:x2", "res:7:Reserved:dump",
    "file:16:File identifier:dump", "machine:16:Machine identifier:dump", "boot:16:Boot identifier:dump",
    "seqid:16:Sequence number identifier:dump", "hsize:Q:Header size:d", "arena:Q:Arena size:d", "dht:Q:Data hash table offset:x8",
    "dhts:Q:Data hash table size:d", "fht:Q:Field hash table offset:x8", "fhts:Q:Field hash table size:d", "tail:Q:Tail object offset:x8",
    "objects:Q:Number of objects:d", "entries:Q:Number of entry objects:d", "tailseq:Q:Tail entry sequence number:x8",
    "headseq:Q:Head entry sequence number:x8", "array:Q:Entry array offset:x8", "headrt:Q:Head entry real time:posix_us",
    "tailrt:Q:Tail entry real time:posix_us", "tailmono:Q:Tail entry monotonic:x8")
OBJECT = ("type:B:Object type:otype", "flags:B:Object flags:oflags", "res:6:Reserved:dump", "size:Q:Data size:d")
RENDERS = {"otype": OBJECTS.get, "oflags": FLAG_NAMES.get}
JOURNAL_DATA = Table("<", *OBJECT, "hash:Q:Hash:x8", "nexthash:Q:Next hash offset:x8", "nextfield:Q:Next field offset:x8",
                     "entry:Q:Entry offset:x8", "array:Q:Entry array offset:x8", "count:Q:Number of entries:d", **RENDERS)
JOURNAL_ENTRY = Table("<", *OBJECT, "seq:Q:Sequence number:d", "rt:Q:Real time:posix_us", "mono:Q:Monotonic:x8", "boot:16:Boot identifier:dump",
                      "xor:Q:XOR hash:x8", **RENDERS)
JOURNAL_ARRAY = Table("<", *OBJECT, "next:Q:Next entry array offset:x8", **RENDERS)


def journal(entries, arrays, header_size=208, header=None, pad_slots=0, entry_first=False):
    """entries: [(values, [(data values, payload)])]; arrays: how many entries each entry array object lists.

    Objects are aligned on 8 bytes as the format requires.
    """
    blob = bytearray(header_size)

    def align():
        while len(blob) % 8:
            blob.append(0)

    def reserve(size):
        align()
        offset = len(blob)
        blob.extend(bytes(size))
        return offset

    array_offsets = []
    if not entry_first:
        array_offsets = [reserve(24 + 8 * (n + pad_slots)) for n in arrays]
    data_offsets = {}
    entry_shown = []
    offsets = []
    for values, items in entries:
        shown_items = []
        data_shown = []
        for data_values, payload in items:
            data_values = {**data_values, "type": 1, "size": 64 + len(payload)}
            raw = JOURNAL_DATA.pack(data_values) + payload
            if raw not in data_offsets:
                offset = reserve(len(raw))
                blob[offset:offset + len(raw)] = raw
                data_offsets[raw] = offset
            shown_items.append((data_offsets[raw], data_values["hash"]))
            data_shown += [("Data object data", raw)] + JOURNAL_DATA.expect(data_values)
        values = {**values, "type": 3, "flags": 0, "size": 64 + 16 * len(items)}
        raw = JOURNAL_ENTRY.pack(values) + b"".join(struct.pack("<QQ", *i) for i in shown_items)
        offset = reserve(len(raw))
        blob[offset:offset + len(raw)] = raw
        offsets.append(offset)
        expected = JOURNAL_ENTRY.expect(values)
        for index, (o, h) in enumerate(shown_items):
            expected += [(f"    Entry item: {index} object offset", f"0x{o:08x}"), (f"    Entry item: {index} hash", f"0x{h:08x}")]
        entry_shown += expected + data_shown
    if entry_first:
        array_offsets = [reserve(24 + 8 * (n + pad_slots)) for n in arrays]
    align()
    head = {**JOURNAL_HEADER.base(5), "sig": b"LPKSHHRH", "hsize": header_size, "arena": len(blob) - header_size, "objects": len(entries),
            "entries": len(entries), **(header or {}), "array": array_offsets[0]}
    blob[:208] = JOURNAL_HEADER.pack(head)
    expected = JOURNAL_HEADER.expect(head)
    start = 0
    for index, (offset, count) in enumerate(zip(array_offsets, arrays)):
        values = {"type": 6, "flags": 0, "res": bytes(6), "size": 24 + 8 * (count + pad_slots),
                  "next": array_offsets[index + 1] if index + 1 < len(arrays) else 0}
        slots = offsets[start:start + count] + [0] * pad_slots
        start += count
        raw = JOURNAL_ARRAY.pack(values) + struct.pack(f"<{len(slots)}Q", *slots)
        blob[offset:offset + len(raw)] = raw
        expected += JOURNAL_ARRAY.expect(values) + [(f"    Entry object offset: {i}", f"0x{o:08x}") for i, o in enumerate(slots)]
    assert start == len(offsets)
    return bytes(blob), expected + entry_shown


# ---------------------------------------------------------------- CUPS IPP

IPP_HEADER = Table(">", "major:b:Major format version:d", "minor:b:Minor format version:d", "op:h:Operation identifier:x4", "req:i:Request identifier:x8")
TAGS = {0x01: "operation-attributes-tag", 0x02: "job-attributes-tag", 0x04: "printer-attributes-tag", 0x05: "unsupported-attributes-tag",
        0x13: "no-value", 0x21: "integer", 0x22: "boolean", 0x23: "enum", 0x30: "octetString", 0x31: "dateTime", 0x32: "resolution",
        0x33: "rangeOfInteger", 0x35: "textWithLanguage", 0x36: "nameWithLanguage", 0x41: "textWithoutLanguage", 0x42: "nameWithoutLanguage",
        0x44: "keyword", 0x45: "uri", 0x46: "uriScheme", 0x47: "charset", 0x48: "naturalLanguage", 0x49: "mimeMediaType"}


def ipp_attribute(tag, name, data, shown=None):
    blob = struct.pack(">BH", tag, len(name)) + name + struct.pack(">H", len(data)) + data
    expected = [("Tag value", f"0x{tag:02x} ({TAGS.get(tag, 'UNKNOWN')})"), ("Name size", str(len(name))), ("Name", name.decode("utf-8")),
                ("Value data size", str(len(data)))]
    expected.append(("Value data", data))
    if shown is not None:
        expected.append(("Value", shown))
    return blob, expected


def ipp_integer(value, name=b"n", tag=0x21):
    return ipp_attribute(tag, name, struct.pack(">i", value), str(value))


def ipp_boolean(value, name=b"flag"):
    return ipp_attribute(0x22, name, bytes([value]), str(bool(value)))


def ipp_datetime(fields, name=b"time"):
    y, mo, d, h, mi, s, ds, sign, oh, om = fields
    data = struct.pack(">HBBBBBBcBB", y, mo, d, h, mi, s, ds, sign, oh, om)
    return ipp_attribute(0x31, name, data, f"{y:04d}-{mo:02d}-{d:02d} {h:02d}:{mi:02d}:{s:02d}.{ds}")


def ipp(groups, header, trailer=b""):
    """groups: [(delimiter tag, [attribute])]."""
    blob = IPP_HEADER.pack(header)
    expected = IPP_HEADER.expect(header)
    for tag, attributes in groups:
        blob += bytes([tag])
        for a in attributes:
            blob += a[0]
            expected = expected + a[1]
    return blob + b"\x03" + trailer, expected


# ---------------------------------------------------------------- fseventsd

def dls_page(version, records, unknown=b"\1\2\3\4"):
    body = b""
    expected = []
    for path, event, flags, node in records:
        body += path + b"\0" + struct.pack("<QI", event, flags)
        expected += [("Path", path.decode("utf-8")), ("Event identifier", str(event)), ("Flags", f"0x{flags:04x}")]
        if version == 2:
            body += struct.pack("<Q", node)
            expected.append(("Node identifier", str(node)))
    head = [("Signature", f"{version}SLD"), ("Unknown1", unknown), ("Page size", str(12 + len(body)))]
    return b"%dSLD" % version + unknown + struct.pack("<I", 12 + len(body)) + body, head + expected


def gz(data, level=6):
    c = zlib.compressobj(level, zlib.DEFLATED, 31)
    return c.compress(data) + c.flush()
