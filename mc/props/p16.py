"""P16: unified logging: log entries, strings and times of every file of a bounded space of tracev3 stores."""
import itertools
import re
import struct
import uuid

from mc import core
from mc.fmt import aul
from dtformats import unified_logging

BOOT = aul.make_uuid(0xb007)
OTHER_BOOT = aul.make_uuid(0xb008)
MAIN_A, DSC, ABSOLUTE_1, ABSOLUTE_2, MAIN_B, BY_IDENTIFIER, DSC_IMAGE_1, DSC_IMAGE_2 = [aul.make_uuid(n) for n in range(1, 9)]
NULL = uuid.UUID(int=0)
MASK63 = (1 << 63) - 1

LEVELS = {0x00: "Default", 0x01: "Info", 0x02: "Debug", 0x10: "Error", 0x11: "Fault", 0x03: "Useraction"}

# Strings: every image has the same strings at its own offsets, prefixed by the tag of the image.
TEMPLATES = ["plain", "%d", "%s", "a %{public}s b %d c", "%d %d %d", "%s|%s|%s", "%{uuid_t}.16P", "%@ {x} %%", "\u00e9 %u", ""]


def strings_of(tag):
    return [f"{tag}: {t}" if t else "" for t in TEMPLATES]


class Image:
    """An image with strings at virtual offsets: two ranges that touch and, when large, one above 31 bits."""

    def __init__(self, identifier, path, tag, offsets=(0x200, None, 0x80000040)):
        self.identifier, self.path, self.tag = identifier, path, tag
        self.entries, self.references = [], {}
        previous = None
        for number, offset in enumerate(offsets):
            data = b""
            if offset is None:
                offset = previous
            for index, string in enumerate(strings_of(f"{tag}{number}")):
                self.references[number, index] = (offset + len(data), string)
                data += string.encode("utf-8") + b"\0"
            previous = offset + len(data)
            self.entries.append((offset, data))

    def file(self):
        return aul.uuidtext(self.entries, self.path)


IMAGES = {i.identifier: i for i in (Image(MAIN_A, "/usr/bin/a", "A"), Image(MAIN_B, "/usr/bin/b\u00e9", "B"), Image(ABSOLUTE_1, "/usr/lib/one", "O"),
                                    Image(ABSOLUTE_2, "/usr/lib/two", "T"), Image(BY_IDENTIFIER, "/usr/lib/id", "I"))}
DSC_RANGES = [Image(DSC_IMAGE_1, "/System/one", "D", (0x5000,)),
              Image(DSC_IMAGE_2, "/System/two", "E", (0x9000,)), Image(DSC_IMAGE_1, "/System/one", "L", (0x80005000,)),
              Image(DSC_IMAGE_2, "/System/two", "M", (0x100009000,))]
TEXTS = {DSC_IMAGE_1: (0x10000, 0x1000), DSC_IMAGE_2: (0x11000, 0x2000)}


def dsc_file(version=2):
    uuids = [(TEXTS[DSC_IMAGE_1][0], TEXTS[DSC_IMAGE_1][1], DSC_IMAGE_1, "/System/one"), (TEXTS[DSC_IMAGE_2][0], TEXTS[DSC_IMAGE_2][1], DSC_IMAGE_2, "/System/two")]
    ranges = [(0 if r.identifier == DSC_IMAGE_1 else 1, *r.entries[0]) for r in DSC_RANGES if version == 2 or r.entries[0][0] < 1 << 32]
    return aul.dsc(version, ranges, uuids)


SUB_SYSTEMS = ["com.apple.x", "cat1", "com.\u00e9.y", "cat2", ""]
TABLE, OFFSETS = aul.string_table(SUB_SYSTEMS)
UUIDS = [MAIN_A, DSC, ABSOLUTE_1, ABSOLUTE_2, MAIN_B]
SUBS = [(1, OFFSETS["com.apple.x"], OFFSETS["cat1"]), (7, OFFSETS["com.\u00e9.y"], OFFSETS["cat2"]), (0, OFFSETS[""], OFFSETS["cat2"])]
NAMES = {1: ("com.apple.x", "cat1"), 7: ("com.\u00e9.y", "cat2"), 0: ("", "cat2")}
LOADS = {"A": [(0x7fff20000000, 0x1000, 2), (0x7fff20001000, 0x800, 3)], "B": [(0x7ffe10000000, 0x2000, 2), (0x00001000, 0x1000, 3)]}
PROCESSES = {"A": dict(proc=(100, 200), pid=321, main=MAIN_A, dsc=DSC), "B": dict(proc=(1 << 40, 200), pid=4000000000, main=MAIN_B, dsc=None),
             "C": dict(proc=(100, 201), pid=5, main=None, dsc=DSC)}


def catalog(names="ABC", sub_chunks=()):
    entries = []
    for index, name in enumerate(names):
        p = PROCESSES[name]
        entries.append(aul.process_entry(index, UUIDS.index(p["main"]) if p["main"] else -1, UUIDS.index(DSC) if p["dsc"] else -1, *p["proc"], p["pid"],
                                         LOADS.get(name, []), SUBS if name != "C" else SUBS[:1]))
    return aul.catalog(UUIDS, TABLE, entries, sub_chunks)


def install(store):
    for image in IMAGES.values():
        store.uuidtext(image.identifier, image.file())
    store.dsc(DSC, dsc_file())


# A tracepoint and what it must be reported as.

def resolve(process, kind, number, index, dynamic, large, address, tp):
    """Returns the reference (lower 32 bits), string, identifier, path and program counter of a string of a tracepoint."""
    p = PROCESSES[process]
    lower_load, upper_load = address & 0xffffffff, address >> 32
    pc = address if kind == "absolute" else lower_load
    if kind in ("main", "absolute", "identifier"):
        if kind == "main":
            image, base = IMAGES[p["main"]], 0
        elif kind == "identifier":
            image, base = IMAGES[BY_IDENTIFIER], 0
        else:
            found = [(a, s, u) for a, s, u in LOADS[process] if a <= address < a + s and a >> 32 == upper_load]
            if not found:
                return 0x210, None, None, None, pc, True
            image, base = IMAGES[UUIDS[found[0][2]]], found[0][0]
        reference, string = image.references[number, index]
        if large:
            pc |= large << 31
        assert reference >> 31 == (large or 0)
        return reference & 0x7fffffff, "%s" if dynamic else string, image.identifier, image.path, pc - base, False
    # Shared cache.
    shared = tp.get("shared")
    upper = shared if shared else large or 0
    if shared and large and large != shared >> 1:
        pc |= large << 32
    else:
        pc |= upper << 31
    if dynamic:
        identifier = (DSC_IMAGE_1, DSC_IMAGE_2)[number]
        base, string = TEXTS[identifier][0], "%s"
        reference = base + index
        path = "/System/one" if number == 0 else "/System/two"
    else:
        r = DSC_RANGES[number]
        reference, string = r.references[0, index]
        identifier, path, base = r.identifier, r.path, TEXTS[r.identifier][0]
    assert reference >> 31 == upper
    if shared and large and large != shared >> 1:
        identifier, path, base = DSC, "", 0
    return reference & 0x7fffffff, string, identifier, path, pc - base, False


KINDS = {"main": 2, "dsc": 4, "absolute": 8, "identifier": 10, "large": 12}


def build(process, tp, private_at):
    """tp: dict. Returns the encoded tracepoint, its private data and the expected attributes."""
    record = tp["record"]
    p = PROCESSES[process]
    expected = dict(event_type={"activity": {1: "activityCreateEvent", 3: "userActionEvent"}.get(tp.get("level")), "log": "logEvent", "loss": "lossEvent",
                                "signpost": "signpostEvent", "trace": "traceEvent"}[record],
                    thread_identifier=tp.get("thread", 0x1234), boot_identifier=BOOT)
    expected["process_image_identifier"] = p["main"]
    if record == "loss":
        start, end, count = tp["loss"]
        data = struct.pack("<QQQ", start, end, count)
        expected.update(loss_count=count, loss_start_mach_timestamp=start, loss_end_mach_timestamp=end, process_image_path=None,
                        event_message=f"lost >={count} unreliable messages from {start}-{end} (Mach continuous exact start-approx. end)")
        expected["trace_identifier"] = 7
        return aul.tracepoint(7, 0, 0, 0, expected["thread_identifier"], tp["delta"], data), b"", expected
    kind = tp.get("kind", "main")
    flags = KINDS[kind]
    data = b""
    large, shared = tp.get("large"), tp.get("shared")
    address = tp.get("address", 0x1010)
    dynamic = tp.get("dynamic", False)
    number, index = tp.get("string", (0, 0))
    reference, string, identifier, path, pc, lost = resolve(process, kind, number, index, dynamic, large, address, tp)
    values, messages = tp.get("values", []), tp.get("shown", [])
    private = b""
    lead = aul.backtrace(tp["backtrace"]) if tp.get("backtrace") else b""
    encoded, public, private = aul.items(values, len(lead))
    if tp.get("aid") is not None:
        flags |= 1
        data += struct.pack("<Q", tp["aid"])
    if record == "activity":
        if tp.get("unique") is not None:
            flags |= 0x10
            data += struct.pack("<Q", tp["unique"])
        if tp.get("other") is not None:
            flags |= 0x200
            data += struct.pack("<Q", tp["other"])
        if tp["level"] != 3:
            data += struct.pack("<Q", tp["new"])
    elif record != "trace" and (private or tp.get("private")) and tp.get("oversize") is None:
        flags |= 0x100
        data += struct.pack("<HH", private_at, len(private))
    data += struct.pack("<I", address & 0xffffffff)
    if large is not None:
        flags |= 0x20
        data += struct.pack("<H", large)
    if kind == "absolute":
        data += struct.pack("<H", address >> 32)
    elif kind == "identifier":
        data += BY_IDENTIFIER.bytes
    elif kind == "large":
        data += struct.pack("<H", shared)
    if record in ("log", "signpost"):
        if tp.get("sub") is not None:
            flags |= 0x200
            data += struct.pack("<H", tp["sub"])
        if record == "signpost":
            data += struct.pack("<Q", tp["signpost"])
        if tp.get("ttl") is not None:
            flags |= 0x400
            data += struct.pack("<B", tp["ttl"])
        if tp.get("oversize") is not None:
            flags |= 0x800
            data += struct.pack("<H", tp["oversize"])
        if record == "signpost" and tp.get("name") is not None:
            flags |= 0x8000
            name_reference, name_string = resolve(process, kind, *tp["name"], False, large, address, tp)[:2]
            data += struct.pack("<I", name_reference)
            if large is not None:
                data += struct.pack("<H", shared if shared else large)
            expected["signpost_name"] = name_string
        if tp.get("oversize") is not None:
            data += struct.pack("<BB", 0, 0)
            private = b""
            if lead:
                flags |= 0x1000
        else:
            data += struct.pack("<BB", 0, len(values)) + encoded
            if lead:
                flags |= 0x1000
                data += lead
            data += public
    elif record == "trace":
        data += b"".join(v for _, v in values) + bytes(len(v) for _, v in values) + bytes([len(values)])
        private = b""
    else:
        private = b""
    record_type = {"activity": 2, "trace": 3, "log": 4, "signpost": 6}[record]
    level = tp.get("level", 0)
    expected["trace_identifier"] = (reference | (0x80000000 if dynamic else 0)) << 32 | flags << 16 | level << 8 | record_type
    expected.update(process_identifier=p["pid"], process_image_path=IMAGES[p["main"]].path if p["main"] else None, ttl=tp.get("ttl") or 0,
                    sender_program_counter=pc, sender_image_identifier=identifier, sender_image_path=path, format_string=string)
    sub = tp.get("sub")
    expected["sub_system"], expected["category"] = NAMES.get(sub, (None, None)) if record in ("log", "signpost") else (None, None)
    if record == "signpost":
        expected.update(signpost_identifier=tp["signpost"], signpost_scope={4: "thread", 8: "process", 12: "system"}[level >> 4],
                        signpost_type=["event", "begin", "end"][level & 15], message_type=None)
        expected.setdefault("signpost_name", None)
    else:
        expected["message_type"] = LEVELS[level]
    if record == "activity":
        expected["activity_identifier"] = (tp["new"] if level == 1 else 0) & MASK63
        expected["parent_activity_identifier"] = (tp.get("other") or 0) & MASK63
        if level == 1:
            expected["creator_activity_identifier"] = tp.get("aid") or 0
    else:
        expected["activity_identifier"] = (tp.get("aid") or 0) & MASK63
    if lead and record in ("log",):
        frames = [(i or NULL, o) for i, o in tp["backtrace"]]
    else:
        frames = [] if lost else [(identifier, pc)]
    expected["backtrace_frames"] = frames
    if lost:
        expected["event_message"] = "<compose failure [missing precomposed log]>"
    else:
        expected["event_message"] = message(string, messages)
    reference |= 0x80000000 if dynamic else 0
    return aul.tracepoint(record_type, level, flags, reference, expected["thread_identifier"], tp["delta"], data), private, expected


def message(string, shown):
    """Composes: the operators of the templates are %-words that end in d, s, @, u or P."""
    out, rest, position = "", string, 0
    for part in re.split(r"(%%|%(?:\{[a-z_]*\})?(?:\.16)?[ds@uP])", rest):
        if part == "%%":
            out += "%"
        elif part.startswith("%"):
            out += shown[position] if position < len(shown) else "<decode: missing data>"
            position += 1
        else:
            out += part
    return out


ATTRIBUTES = ("activity_identifier", "boot_identifier", "category", "creator_activity_identifier", "event_message", "event_type", "format_string",
              "loss_count", "loss_end_mach_timestamp", "loss_end_timestamp", "loss_start_mach_timestamp", "loss_start_timestamp", "mach_timestamp",
              "message_type", "parent_activity_identifier", "process_identifier", "process_image_identifier", "process_image_path",
              "sender_image_identifier", "sender_image_path", "sender_program_counter", "signpost_identifier", "signpost_name", "signpost_scope",
              "signpost_type", "sub_system", "thread_identifier", "timestamp", "trace_identifier", "ttl")


def observe(entry):
    out = {name: getattr(entry, name) for name in ATTRIBUTES}
    frames = entry.backtrace_frames
    out["backtrace_frames"] = None if frames is None else [(f.image_identifier, f.image_offset) for f in frames]
    return out


def run_reader(path, debug=False, passes=1):
    writer = core.Writer() if debug else None
    reader = unified_logging.TraceV3File(debug=debug, output_writer=writer)
    reader.Open(path)
    try:
        out = None
        for _ in range(passes):
            out = [observe(e) for e in reader.ReadLogEntries()]
        return out
    finally:
        reader.Close()


def judge(tally, label, path, expected, replay, debug=False, passes=1):
    """expected: list of dicts; attributes that are absent are expected to be None, those that are Ellipsis are not judged."""
    try:
        with core.time_limit(60):
            got = run_reader(path, debug, passes)
    except Exception as e:  # pylint: disable=broad-except
        tally.violate(label, f"{label}: {type(e).__name__}: {e}", replay)
        return
    tally.add("executions")
    tally.add("transitions", len(got))
    if len(got) != len(expected):
        tally.violate(label, f"{label}: {len(got)} log entries, expected {len(expected)}", replay)
        return
    for index, (have, want) in enumerate(zip(got, expected)):
        for name in ATTRIBUTES + ("backtrace_frames",):
            value = want.get(name)
            tally.add("evaluations")
            if value is not ... and have[name] != value:
                tally.violate(label, f"{label}: log entry {index}: {name} is {have[name]!r}, expected {value!r}", {**replay, "entry": index})
                return


HEADER_TIME = 1600000000 * 10 ** 9


def assemble(process, tps, base=1000, private_gap=0):
    """One firehose chunk of tracepoints; returns the chunk and the expected entries (times with a 1/1 time base)."""
    # The private data is laid out first: its size decides the virtual offsets.
    sizes = [len(aul.items(t.get("values", []))[2]) if t["record"] in ("log", "signpost") and t.get("oversize") is None else 0 for t in tps if t["record"] != "unused"]
    total = private_gap + sum(sizes)
    virtual = 4096 - total
    at = virtual + private_gap
    out, blob, expected = [], bytes(private_gap), []
    for tp in tps:
        if tp["record"] == "unused":
            out.append(aul.tracepoint(0, 0, 0, 0, 0, 0, bytes(tp["size"])))
            continue
        data, private, want = build(process, tp, at)
        at += len(private)
        blob += private
        want["mach_timestamp"] = base + tp["delta"]
        want["timestamp"] = HEADER_TIME + base + tp["delta"]
        if tp["record"] == "loss":
            want["loss_start_timestamp"] = HEADER_TIME + tp["loss"][0]
            want["loss_end_timestamp"] = HEADER_TIME + tp["loss"][1]
        out.append(data)
        expected.append(want)
    return aul.firehose(*PROCESSES[process]["proc"], base, out, blob), expected


def trace(parts, **keywords):
    return aul.header(BOOT, **keywords) + b"".join(parts)


# Part 1: every combination of flags of every record type.

def number_values(*numbers):
    return [(0x00, struct.pack("<i", n)) for n in numbers], [str(n) for n in numbers]


def combinations(record, kind):
    """All tracepoints of a record type and strings file kind."""
    bits = {"log": ("aid", "large", "private", "sub", "ttl", "oversize", "backtrace"), "signpost": ("aid", "large", "private", "sub", "ttl", "oversize", "name"),
            "activity": ("aid", "large", "unique", "other"), "trace": ()}[record]
    levels = {"log": (0x00, 0x01, 0x02, 0x10, 0x11), "signpost": (0x40, 0x41, 0x42, 0x80, 0x81, 0x82, 0xc0, 0xc1, 0xc2), "activity": (1, 3), "trace": (0,)}[record]
    count = 0
    for choice in itertools.product((False, True), repeat=len(bits)):
        on = {b for b, c in zip(bits, choice) if c}
        for dynamic in (False, True):
            if dynamic and record == "trace":
                continue
            for large_value in ((0, 1) if "large" in on else (None,)):
                for level in (levels if record != "log" or not on - {"aid"} else levels[:1]):
                    count += 1
                    tp = dict(record=record, kind=kind, level=level, delta=count * 3, thread=0x100000000 + count)
                    if "aid" in on:
                        tp["aid"] = 0x8000000000000001 + count
                    if "sub" in on:
                        tp["sub"] = (1, 7, 0, 9)[count % 4]
                    if "ttl" in on:
                        tp["ttl"] = 14
                    if "unique" in on:
                        tp["unique"] = 0x55
                    if "other" in on:
                        tp["other"] = 0x8000000000000099
                    if "oversize" in on:
                        tp["oversize"] = 0x1f0 + count % 3
                    if "backtrace" in on:
                        tp["backtrace"] = [(MAIN_A, 0x10), (None, 0x20), (DSC_IMAGE_1, 0x30), (MAIN_A, 0xffffffff)][:1 + count % 4]
                    if "name" in on:
                        tp["name"] = (0, 5)
                    if record == "signpost":
                        tp["signpost"] = 0xeeee000000000000 + count
                    if record == "activity":
                        tp["new"] = 0x8000000000000400 + count
                    if large_value is not None:
                        tp["large"] = large_value
                    tp["address"] = {"absolute": 0x7fff20000010 + count % 16}.get(kind, 0x1010 + count)
                    where = 2 if large_value else count % 2
                    if kind == "absolute":
                        tp["address"] = (0x7fff20000010, 0x7fff20001010)[count % 2]
                    if kind in ("dsc", "large"):
                        if dynamic and large_value:
                            continue
                        where = {None: count % 2, 0: count % 2, 1: 2}[large_value]
                        if kind == "large":
                            tp["shared"] = 0
                            if large_value == 1:
                                tp["shared"], where = 2, 3  # consistent with the large offset
                                if count % 3 == 0:
                                    tp["large"] = 5  # inconsistent
                            elif large_value is None and not dynamic and count % 3 == 0 and "name" not in on:
                                tp["shared"], where = 1, 2
                        if "name" in on:
                            tp["name"] = (where, 5)
                    elif "name" in on:
                        tp["name"] = (where, 5)
                    tp["dynamic"] = dynamic
                    if dynamic:
                        tp["string"] = (where, 2) if kind not in ("dsc", "large") else (where, 0x33)
                        tp["values"], tp["shown"] = [(0x22, b"dyn\0")], ["dyn"]
                    else:
                        tp["string"] = (where, 3)
                        tp["values"], tp["shown"] = [(0x20, b"text\0"), (0x02, struct.pack("<i", -count))], ["text", str(-count)]
                    if record == "activity":
                        tp["values"], tp["shown"] = [], []
                        if not dynamic:
                            tp["string"] = (where, 0)
                    if record == "trace":
                        tp["string"] = (where, 4)
                        tp["values"], tp["shown"] = [(0, struct.pack("<i", 7)), (0, struct.pack("<q", -9)), (0, struct.pack("<i", count))], ["7", "-9", str(count)]
                    if "private" in on:
                        tp["private"] = True
                        if tp["values"]:
                            tp["values"] = [(0x21, tp["values"][0][1])] + tp["values"][1:]
                    yield tp


def flags_part(tally, argument):
    record, kind, process = argument
    root = core.fresh_dir()
    try:
        store = aul.Store(root)
        install(store)
        tps = list(combinations(record, kind))
        if process == "B":
            for tp in tps:
                if kind == "absolute":
                    tp["address"] = {0x7fff20000010: 0x7ffe10000010, 0x7fff20001010: 0x1010}[tp["address"]]
        for start in range(0, len(tps), 24):
            group = tps[start:start + 24]
            chunks = []
            for tp in group:
                if tp.get("oversize") is not None:
                    # Each tracepoint gets an oversize chunk of its own.
                    tp["oversize"] = 0x100 + group.index(tp)
                    chunks.append(aul.oversize(*PROCESSES[process]["proc"], tp["oversize"], tp["values"], aul.backtrace(tp["backtrace"]) if tp.get("backtrace") else b""))
            data, expected = assemble(process, group)
            path = store.trace(trace([catalog(), aul.chunk_set(chunks + [data], bool(start // 24 % 2))]))
            replay = {"record": record, "kind": kind, "process": process, "tracepoints": [repr(t) for t in group]}
            judge(tally, f"{record}/{kind}/{process}", path, expected, replay)
            if start == 0:
                judge(tally, f"{record}/{kind}/{process}/debug", path, expected, replay, debug=True)
            for tp in group:
                tally.seen((record, kind, process, repr(sorted(tp.items(), key=str))))
    finally:
        core.cleanup(root)


# Part 2: sequences of data items.

ITEMS = [((0x00, struct.pack("<b", -5)), ("-5", None)), ((0x02, struct.pack("<h", 300)), ("300", None)), ((0x00, struct.pack("<i", -70000)), ("-70000", None)),
         ((0x00, struct.pack("<q", 1 << 40)), (str(1 << 40), None)), ((0x20, b"one\0"), (None, "one")), ((0x22, b"t\xc3\xa9\0"), (None, "t\u00e9")),
         ((0x40, b"no end"), (None, "no end")), ((0x42, b"\0"), (None, "")), ((0x20, b""), (None, "(null)")), ((0x21, b"hidden\0"), (None, "hidden")), ((0x41, b"priv"), (None, "priv")),
         ((0x21, b""), ("<private>", "<private>")), ((0x41, b""), ("<private>", "<private>")), ((0x01, b""), ("<private>", "<private>")),
         ((0x25, b"\0\0\0\0"), ("<private>", "<private>")), ((0x35, b"\0\0\0\0"), ("<private>", "<private>")), ((0x31, b"\0\0\0\0"), ("<private>", "<private>")),
         ((0x45, b"\0\0\0\0"), ("<private>", "<private>")), ((0x72, b"\0\0\0\0"), ("<decode: missing data>", "<decode: missing data>")),
         ((0x30, b"binary"), (None, "binary")), ((0x32, b"bin2\0"), (None, "bin2")), ((0xf2, b"bin3"), (None, "bin3")),
         ((0x10, struct.pack("<i", 6)), None), ((0x12, struct.pack("<i", 0)), None)]


def item_sequences(depth):
    for length in range(depth + 1):
        yield from itertools.product(range(len(ITEMS)), repeat=length)


def items_part(tally, argument):
    first, depth = argument
    root = core.fresh_dir()
    try:
        store = aul.Store(root)
        install(store)
        tps = []
        rests = list(item_sequences(depth - 1)) if first is not None else [()]
        for rest in rests:
            sequence = ((first,) if first is not None else ()) + rest
            for column, template in ((0, 4), (1, 5)):
                shown, usable = [], True
                for number in sequence:
                    if ITEMS[number][1] is None:
                        continue
                    text = ITEMS[number][1][column]
                    usable = usable and text is not None
                    shown.append(text)
                if not usable:
                    continue
                tps.append(dict(record="log", delta=len(tps) % 5000, string=(0, template), values=[ITEMS[n][0] for n in sequence], shown=shown))
        for start in range(0, len(tps), 60):
            group = tps[start:start + 60]
            data, expected = assemble("A", group, private_gap=start % 3)
            path = store.trace(trace([catalog("A"), aul.chunk_set([data], False)]))
            judge(tally, "data items", path, expected, {"tracepoints": [repr(t) for t in group]})
            for tp in group:
                tally.seen(("items", repr(tp["values"]), tp["string"]))
    finally:
        core.cleanup(root)


# Part 3: times.

def expected_time(ct, header_base, boot, syncs):
    if boot is None:
        return HEADER_TIME + ct * header_base[0] // header_base[1]
    base, timestamp = boot
    best = None
    for kernel, stamp in syncs:
        if kernel <= ct and (best is None or kernel > best[0]):
            best = (kernel, stamp)
    if best:
        return best[1] + (ct - best[0]) * base[0] // base[1]
    return timestamp + ct * base[0] // base[1]


TIMEBASES = [(1, 1), (125, 3), (1000000000, 24000000), (3, 7), (1, 1000)]
TIMES = [0, 1, 2, 3, 7, 999, 1000, 1001, 5000, 123456789, (1 << 47) - 1, 10 ** 16 + 1, (1 << 53) + 1, (1 << 56) + 3]
SYNC_SETS = [[], [(1000, 5 * 10 ** 17)], [(0, 10 ** 17)], [(1000, 5 * 10 ** 17), (5000, 6 * 10 ** 17 + 1)], [(5000, 6 * 10 ** 17), (1000, 5 * 10 ** 17)],
             [(1, 7), (2, 9), (3, 11), (1 << 50, 10 ** 18)]]


def times_part(tally, argument):
    header_base, boot_base, layout = argument
    root = core.fresh_dir()
    try:
        store = aul.Store(root, layout)
        install(store)
        for syncs in SYNC_SETS if boot_base else [[]]:
            boot_time = 4 * 10 ** 17 + 5
            if boot_base:
                records = [aul.boot_record(OTHER_BOOT, 7, 9, 1), aul.sync_record(500, 99), aul.boot_record(BOOT, *boot_base, boot_time)]
                records += [aul.sync_record(*s) for s in syncs] + [aul.boot_record(OTHER_BOOT, 7, 9, 2), aul.sync_record(501, 98)]
                store.timesync("0000000000000002.timesync", b"".join(records))
                store.timesync("0000000000000001.timesync", aul.boot_record(aul.make_uuid(77), 1, 1, 3) + aul.sync_record(1, 1))
                store.timesync("other.txt", b"not a timesync file")
            parts, expected = [catalog("AB")], []
            boot = (boot_base, boot_time) if boot_base else None
            if boot_base:
                expected.append(dict(boot_identifier=BOOT, event_message=f"=== system boot: {str(BOOT).upper()}", event_type="timesyncEvent", mach_timestamp=0,
                                     thread_identifier=0, timestamp=boot_time, trace_identifier=0))
                for kernel, stamp in syncs:
                    expected.append(dict(boot_identifier=BOOT, event_message="=== system wallclock time adjusted", event_type="timesyncEvent", mach_timestamp=kernel,
                                         parent_activity_identifier=0, thread_identifier=0, timestamp=stamp, trace_identifier=0))
            for number, ct in enumerate(TIMES):
                for delta in sorted({0, min(ct, (1 << 48) - 1), min(ct, 1)}):
                    tps = [dict(record="log", delta=delta, string=(0, 0))]
                    if number % 3 == 0:
                        tps.append(dict(record="loss", delta=delta, loss=(ct // 2, ct, 5)))
                    data, wants = assemble("A", tps, base=ct - delta)
                    for want in wants:
                        want["timestamp"] = expected_time(ct, header_base, boot, syncs)
                        for which in ("start", "end"):
                            if f"loss_{which}_timestamp" in want:
                                want[f"loss_{which}_timestamp"] = expected_time(want[f"loss_{which}_mach_timestamp"], header_base, boot, syncs)
                    expected += wants
                    parts.append(aul.chunk_set([data], False))
                    tally.seen(("time", header_base, boot_base, repr(syncs), ct, delta))
            path = store.trace(trace(parts, numerator=header_base[0], denominator=header_base[1]))
            judge(tally, f"times/{layout}", path, expected, {"header_base": header_base, "boot_base": boot_base, "syncs": syncs}, passes=2)
    finally:
        core.cleanup(root)


# Part 4: the structure of a file.

def structure_units(kind, serial):
    """A chunk of a chunk set and its expected entries."""
    delta = serial
    if kind == "simple":
        sub, text = ("com.apple.s", f"simple \u00e9 {serial}")
        data = aul.simple_dump(100, 200, 0x10, 5000 + serial, 77, 0xabcdef0123, ABSOLUTE_1, DSC, sub, text)
        return data, [dict(event_type="logEvent", event_message=text, sub_system=sub, mach_timestamp=5000 + serial, timestamp=HEADER_TIME + 5000 + serial,
                           thread_identifier=77, boot_identifier=BOOT, message_type="Error", process_identifier=321, process_image_identifier=MAIN_A,
                           process_image_path="/usr/bin/a", sender_image_identifier=ABSOLUTE_1, sender_program_counter=0xabcdef0123, trace_identifier=0,
                           backtrace_frames=[(ABSOLUTE_1, 0xabcdef0123)])]
    if kind in ("state", "state1", "stateunknown"):
        title, text = "title \u00e9", '"Denied"'
        library, decoder, state, number = b"location", b"CLClientAuthorizationStatus", b"\2\0\0\0" if serial % 2 else b"\2", 3
        if kind == "state1":
            number, text = 1, None
        if kind == "stateunknown":
            library, text = b"nolib", "<decode: unsupported decoder: nolib:CLClientAuthorizationStatus>"
        data = aul.state_dump(100, 200, 6000 + serial, 0x8000000000000042, ABSOLUTE_2, number, library, decoder, title, state)
        return data, [dict(event_type="stateEvent", event_message=f"{title}\n{text}" if text else "", activity_identifier=0x42, mach_timestamp=6000 + serial,
                           timestamp=HEADER_TIME + 6000 + serial, boot_identifier=BOOT, process_identifier=321, process_image_identifier=MAIN_A,
                           process_image_path="/usr/bin/a", sender_image_identifier=ABSOLUTE_2, trace_identifier=0, backtrace_frames=[(ABSOLUTE_2, 0)])]
    if kind == "unknown":
        return aul.chunk(0x6009, b"other chunk" + bytes(serial % 5)), []
    if kind == "empty":
        return assemble("A", [])
    if kind == "unused":
        return assemble("A", [dict(record="unused", size=serial % 9)])
    values, shown = number_values(serial, -serial, 3)
    log = dict(record="log", delta=delta, string=(1, 4), values=values, shown=shown)
    if kind == "log":
        return assemble("A", [log])
    if kind == "loss":
        return assemble("A", [dict(record="loss", delta=delta, loss=(3, 1 << 60, 1 << 40))])
    if kind == "trace":
        return assemble("A", [dict(record="trace", delta=delta, string=(0, 4), values=[(0, struct.pack("<i", serial)), (0, b"\1\0\0\0")], shown=[str(serial), "1"])])
    if kind == "mixed":
        text = b"x" * (serial % 17)
        return assemble("B", [dict(log, string=(0, 5), values=[(0x20, text + b"\0"), (0x21, b"p" * (serial % 5 + 1))], shown=[text.decode(), "p" * (serial % 5 + 1)]),
                              dict(record="unused", size=3), dict(record="loss", delta=2, loss=(1, 2, 3)),
                              dict(record="activity", level=1, delta=3, string=(0, 0), new=0x8000000000000077),
                              dict(log, thread=9, delta=(1 << 48) - 1), dict(record="trace", delta=4, string=(0, 0))])
    if kind == "nomain":
        return assemble("C", [dict(log, kind="dsc", string=(serial % 2, 4))])
    raise KeyError(kind)


UNITS = ["log", "mixed", "loss", "unused", "trace", "empty", "simple", "state", "state1", "stateunknown", "unknown", "nomain"]


def structure_part(tally, argument):
    first, depth, layout = argument
    root = core.fresh_dir()
    try:
        store = aul.Store(root, layout)
        install(store)
        for rest in itertools.product(UNITS, repeat=depth - 1):
            kinds = (first,) + rest
            built = [structure_units(k, 11 + i * 5) for i, k in enumerate(kinds)]
            expected = [e for _, w in built for e in w]
            # Every split into chunk sets, every compression.
            cuts = list(itertools.product((False, True), repeat=len(kinds) - 1))
            for cut_number, cut in enumerate(cuts):
                sets, current = [], [built[0][0]]
                for (data, _), split in zip(built[1:], cut):
                    if split:
                        sets.append(current)
                        current = []
                    current.append(data)
                sets.append(current)
                parts = []
                for number, chunks in enumerate(sets):
                    if number == 0 or cut_number % 2:
                        parts.append(catalog("ABC", [(1, 2, 3, [0, 1], [0])] * (number % 3)))
                    parts.append(aul.chunk_set(chunks, (number + cut_number) % 2 == 0))
                path = store.trace(trace(parts))
                judge(tally, "structure", path, expected, {"chunks": kinds, "cut": cut}, passes=1 + (cut_number == 0))
                tally.seen(("structure", kinds, cut, layout))
            judge(tally, "structure/debug", path, expected, {"chunks": kinds}, debug=True)
    finally:
        core.cleanup(root)


def oversize_part(tally, argument):
    """Data references: every value near the byte and word borders, and two processes with the same reference."""
    root = core.fresh_dir()
    try:
        store = aul.Store(root)
        install(store)
        references = [1, 2, 127, 128, 255, 256, 257, 511, 512, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff]
        chunks, tps, others = [], [], []
        for number, reference in enumerate(references):
            values = [(0x20, f"big {reference}".encode() + b"\0"), (0x21, b"secret%d\0" % reference)]
            chunks.append(aul.oversize(100, 200, reference, values))
            chunks.append(aul.oversize(1 << 40, 200, reference, [(0x20, b"other%d\0" % reference)]))
            tps.append(dict(record="log", delta=number, string=(0, 5), oversize=reference, values=values, shown=[f"big {reference}", f"secret{reference}"]))
            others.append(dict(record="log", delta=number, string=(0, 2), oversize=reference, values=[(0x20, b"other%d\0" % reference)], shown=[f"other{reference}"]))
        missing = [dict(record="log", delta=9, string=(0, 4), oversize=r, values=[], shown=[]) for r in (3, 129, 258, 0x7ffe)]
        for order in (0, 1):
            first, wants = assemble("A", tps + missing)
            second, more = assemble("B", others)
            sets = [aul.chunk_set(chunks if order == 0 else chunks[::-1], True), aul.chunk_set([first], False), aul.chunk_set([second], True)]
            path = store.trace(trace([catalog()] + sets))
            judge(tally, "oversize", path, wants + more, {"order": order})
            judge(tally, "oversize/debug", path, wants + more, {"order": order}, debug=True)
        for tp in tps + others + missing:
            tally.seen(("oversize", repr(tp)))
    finally:
        core.cleanup(root)


def absolute_part(tally, argument):
    """Every address near the ends of the images of two processes, in both orders (caches must not leak)."""
    root = core.fresh_dir()
    try:
        store = aul.Store(root)
        install(store)
        groups = []
        for process in "AB":
            tps = []
            for start, size, _ in LOADS[process]:
                for address in (start - 1, start, start + 1, start + size - 1, start + size, start + size + 1):
                    for index in (0, 1):
                        tps.append(dict(record="log", kind="absolute", address=address, delta=len(tps), string=(index, 0)))
            groups.append((process, tps))
        for order in itertools.permutations([0, 1, 0, 1], 4):
            parts, expected = [catalog()], []
            for number in order:
                data, wants = assemble(*groups[number])
                parts.append(aul.chunk_set([data], False))
                expected += wants
            judge(tally, "absolute", store.trace(trace(parts)), expected, {"order": order})
            tally.seen(("absolute", order))
        # The same reference, dynamic and not, in every order of three.
        kinds = [dict(record="log", kind="dsc", dynamic=True, string=(0, 0x33), values=[(0x20, b"v\0")], shown=["v"]),
                 dict(record="log", kind="main", string=(0, 3), values=[(0x20, b"v\0")], shown=["v"]),
                 dict(record="log", kind="main", dynamic=True, string=(0, 3), values=[(0x20, b"v\0")], shown=["v"]),
                 dict(record="log", kind="large", shared=2, large=5, string=(3, 3), values=[(0x20, b"v\0")], shown=["v"]),
                 dict(record="log", kind="large", shared=2, large=1, string=(3, 3), values=[(0x20, b"v\0")], shown=["v"])]
        for order in itertools.product(range(len(kinds)), repeat=3):
            tps = [dict(kinds[k], delta=i) for i, k in enumerate(order)]
            data, expected = assemble("A", tps)
            judge(tally, "caches", store.trace(trace([catalog(), aul.chunk_set([data], False)])), expected, {"order": order})
            tally.seen(("caches", order))
    finally:
        core.cleanup(root)


def missing_part(tally, argument):
    """Strings files that are missing leave the rest of the entries as they are."""
    root = core.fresh_dir()
    try:
        everything = list(IMAGES) + [DSC]
        for absent in [(i,) for i in everything] + [tuple(everything)]:
            sub_root = core.fresh_dir()
            store = aul.Store(sub_root)
            for image in IMAGES.values():
                if image.identifier not in absent:
                    store.uuidtext(image.identifier, image.file())
            if DSC not in absent:
                store.dsc(DSC, dsc_file())
            tps = []
            for kind, where in (("main", 0), ("identifier", 1), ("absolute", 0), ("dsc", 1), ("main", 1)):
                tps.append(dict(record="log", kind=kind, delta=len(tps), address=0x7fff20000010 if kind == "absolute" else 0x1010, string=(where, 0)))
            data, expected = assemble("A", tps)
            for tp, want in zip(tps, expected):
                if MAIN_A in absent:
                    want["process_image_identifier"] = want["process_image_path"] = None
                owner = {"main": MAIN_A, "identifier": BY_IDENTIFIER, "absolute": ABSOLUTE_1, "dsc": DSC}[tp["kind"]]
                if owner in absent:
                    want["event_message"] = ...
                    want["format_string"] = want["sender_image_path"] = None
                    if tp["kind"] == "dsc":
                        want["sender_image_identifier"] = DSC
                        want["sender_program_counter"] = 0x1010
                        want["backtrace_frames"] = [(DSC, 0x1010)]
            judge(tally, "missing", store.trace(trace([catalog("A"), aul.chunk_set([data], True)])), expected, {"absent": [str(a) for a in absent]})
            tally.seen(("missing", absent))
            core.cleanup(sub_root)
    finally:
        core.cleanup(root)


# Part 5: strings files on their own.

def lookups_part(tally, argument):
    root = core.fresh_dir()
    try:
        for identifier, image in IMAGES.items():
            reader = unified_logging.UUIDTextFile()
            reader.Open(core.put(root, "u", image.file()))
            if reader.GetImagePath() != image.path:
                tally.violate("uuidtext", f"image path {reader.GetImagePath()!r}, expected {image.path!r}", {"path": image.path})
            everything = {}
            for offset, data in image.entries:
                for relative in range(len(data)):
                    everything[offset + relative] = data[relative:].split(b"\0")[0]
            lookup(tally, "uuidtext", everything, image.entries, reader.GetString, lambda want: want)
            reader.Close()
        for version in (1, 2):
            reader = unified_logging.DSCFile()
            reader.Open(core.put(root, "d", dsc_file(version)))
            ranges = [r for r in DSC_RANGES if version == 2 or r.entries[0][0] < 1 << 32]
            everything = {}
            for r in ranges:
                offset, data = r.entries[0]
                for relative in range(len(data)):
                    everything[offset + relative] = (data[relative:].split(b"\0")[0], r)

            def get(reference, dynamic=False, reader=reader):
                values = reader.GetImageValues(reference, dynamic)
                return values and (values.string, values.identifier, values.path, values.text_offset)
            lookup(tally, "dsc", {k: v[0] for k, v in everything.items()}, [r.entries[0] for r in ranges], lambda ref: (get(ref) or [None])[0], lambda want: want)
            for reference, (string, r) in everything.items():
                try:
                    string.decode("utf-8")
                except UnicodeDecodeError:
                    continue  # a reference into the middle of a character
                got = get(reference)
                tally.add("evaluations")
                if got and got[1:] != (r.identifier, r.path, TEXTS[r.identifier][0]):
                    tally.violate("dsc", f"DSC v{version} reference 0x{reference:x}: image {got[1:]!r}", {"reference": reference})
                    break
            for identifier, (offset, size) in TEXTS.items():
                path = "/System/one" if identifier == DSC_IMAGE_1 else "/System/two"
                for reference in list(range(offset, offset + 40)) + list(range(offset + size - 40, offset + size)):
                    got = get(reference, True)
                    tally.add("evaluations")
                    if got != ("%s", identifier, path, offset):
                        tally.violate("dsc", f"DSC v{version} dynamic reference 0x{reference:x}: {got!r}", {"reference": reference})
                        break
            for reference in (0, 0xffff, 0x13000, 0x13001, 1 << 40):
                if get(reference, True) is not None:
                    tally.violate("dsc", f"DSC v{version} dynamic reference 0x{reference:x} outside of all images: {get(reference, True)!r}", {"reference": reference})
            observed = [(r.range_offset, r.range_size, r.uuid_index, r.image_identifier, r.image_path, r.text_offset, r.text_size) for r in reader.ranges]
            wanted = [(*[r.entries[0][0], len(r.entries[0][1])], 0 if r.identifier == DSC_IMAGE_1 else 1, r.identifier, r.path, *TEXTS[r.identifier]) for r in ranges]
            if observed != wanted:
                tally.violate("dsc", f"DSC v{version} ranges {observed!r}, expected {wanted!r}", {"version": version})
            if [(u.image_identifier, u.image_path, u.text_offset, u.text_size) for u in reader.uuids] != [(i, p, *TEXTS[i]) for i, p in ((DSC_IMAGE_1, "/System/one"), (DSC_IMAGE_2, "/System/two"))]:
                tally.violate("dsc", f"DSC v{version} UUIDs differ", {"version": version})
            reader.Close()
    finally:
        core.cleanup(root)


def lookup(tally, label, everything, entries, get, _):
    borders = sorted({offset + d for offset, data in entries for d in (-2, -1, len(data), len(data) + 1)} | set(everything))
    for reference in borders:
        if reference < 0:
            continue
        want = everything.get(reference)
        tally.add("executions")
        tally.add("evaluations")
        if want is not None:
            try:
                want = want.decode("utf-8")
            except UnicodeDecodeError:
                continue  # a reference into the middle of a character
        try:
            got = get(reference)
        except Exception as e:  # pylint: disable=broad-except
            got = f"{type(e).__name__}: {e}"
        if got != want:
            tally.violate(label, f"{label} reference 0x{reference:x}: {got!r}, expected {want!r}", {"reference": reference})
            return
        tally.seen((label, reference, want))


def timesync_part(tally, depth):
    """Every sequence of records, with records longer than their known members."""
    root = core.fresh_dir()
    try:
        for length in range(depth + 1):
            for kinds in itertools.product(range(6), repeat=length):
                data, wants = b"", []
                for index, kind in enumerate(kinds):
                    extra = bytes((0, 0, 1, 8, 3, 0)[kind])
                    if kind in (0, 2, 4):
                        identifier = aul.make_uuid(index + 50)
                        data += aul.boot_record(identifier, index + 1, index + 3, -index * 10 ** 9 if kind == 4 else 10 ** 18 + index, extra)
                        wants.append((identifier, index + 1, index + 3, -index * 10 ** 9 if kind == 4 else 10 ** 18 + index))
                    else:
                        data += aul.sync_record((1 << 64) - 1 - index, index - 5, extra)
                        wants.append(((1 << 64) - 1 - index, index - 5))
                reader = unified_logging.TimesyncDatabaseFile()
                got = []
                try:
                    reader.Open(core.put(root, "t", data))
                    for record in reader.ReadRecords():
                        if hasattr(record, "boot_identifier"):
                            got.append((record.boot_identifier, record.timebase_numerator, record.timebase_denominator, record.timestamp))
                        else:
                            got.append((record.kernel_time, record.timestamp))
                    reader.Close()
                except Exception as e:  # pylint: disable=broad-except
                    got = f"{type(e).__name__}: {e}"
                tally.add("executions")
                tally.add("evaluations", length)
                tally.seen(("timesync", kinds))
                if got != wants and data:
                    tally.violate("timesync", f"timesync records {got!r}, expected {wants!r}", {"kinds": kinds})
                    return
    finally:
        core.cleanup(root)


def main(run):
    quick = not run.thorough
    run.explore(flags_part, [(r, k, "A") for r in ("log", "signpost", "activity") for k in KINDS] + [("trace", "main", "A"), ("trace", "main", "B")] +
                [(r, k, "B") for r in ("log", "activity") for k in ("main", "absolute", "identifier")])
    depth = 2 if quick else 3
    run.explore(items_part, [(None, 0)] + [(n, depth) for n in range(len(ITEMS))])
    run.explore(times_part, [(h, b, l) for h in TIMEBASES for b in [None] + TIMEBASES for l in ("system", "archive", "live") if quick is False or l == "system" or (h, b) == ((1, 1), (125, 3))])
    run.explore(structure_part, [(u, d, l) for u in UNITS for d in ((1, 2, 3) if not quick else (1, 2)) for l in ("system", "archive", "live") if l == "system" or d == 1])
    run.explore(oversize_part, [0])
    run.explore(absolute_part, [0])
    run.explore(missing_part, [0])
    run.explore(lookups_part, [0])
    run.explore(timesync_part, [4 if quick else 6])
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"flag combinations": "all documented flags of every record type, 5 kinds of strings files", "data items": depth, "item alphabet": len(ITEMS),
                  "chunks": 2 if quick else 3, "time bases": len(TIMEBASES), "times": len(TIMES), "sync record sets": len(SYNC_SETS)}
    run.rule = "every store of the bounded space is written by an independent encoder and every attribute of every log entry is compared to the abstract log"
    run.assumptions = ["one LZ4 block per chunk set", "an image's text offset of an uuidtext file is 0 unless it is found by load address",
                       "the message of an entry whose strings file is missing is not judged"]
