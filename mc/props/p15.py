"""P15: Windows artefact readers report every record, value-exact and in order."""
import itertools
import re
import struct

from mc import core, fidelity, text
from mc.fmt import common, regf, windows as ref
from dtformats import (amcache, detection_history, job, jump_list, recycle_bin, recycler, rp_change_log, rp_log, usn_journal, wemf)

NAMES = ("a", "C:\\Users\\me\\file.txt", "\u00e9t\u00e9 \u65e5\u672c", "x" * 31, "y" * 259, " lead", "trail ", "\U0001f600")
TIMES = (1, 116444736000000000, 0x01d0000012345678, 0x7fffffffffffffff, 2650467743999999999)
U32 = sorted({0, 1, 0x7fffffff, 0x80000000, 0xffffffff} | {1 << i for i in range(0, 32, 4)})
U64 = sorted(set(U32) | {1 << 32, 1 << 63, (1 << 64) - 1, 0x0102030405060708})


def api(tally, key, label, factory, blob, observe, expected, count=1):
    """Values of the API, with debug off and on."""
    path = core.put(core.scratch(), "v.dat", blob)
    for debug in (False, True):
        def run():
            reader = factory(debug=debug, output_writer=core.Writer())
            reader.Open(path)
            result = observe(reader)
            reader.Close()
            return result
        fidelity.value_case(tally, key, f"{label} debug={debug}", run, expected, blob, count, seen=(key, blob[:3000], len(blob)))


def _fields(table):
    return {d for _, _, d, _, _ in table.fields if d}


def do_recycle_bin(tally, part):
    def run(version, size, time, name, extra=0):
        blob = ref.recycle_bin(version, size, time, name, extra)
        label = f"v{version} size={size} time={time} {name!r:.20} {extra}"
        api(tally, "recycle_bin", label, recycle_bin.RecycleBinMetadataFile, blob,
            lambda r: (r.format_version, r.original_file_size, r.deletion_time, r.original_filename), (version, size, time, name), 4)
    version = part[0]
    for size in U64:
        run(version, size, 5, "n")
    for time in U64 + [t for t in TIMES]:
        run(version, 5, time, "n")
    for length in list(range(1, 262)):
        run(version, 1, 2, "n" * length)
    for name in NAMES:
        for extra in ((0, 1, 5) if version == 2 else (0,)):
            run(version, 1, 2, name, extra)


def do_info2(tally, part):
    size = part[1]
    fields = _fields(ref.INFO2_HEADER) | _fields(ref.INFO2_ENTRY) | {"Original filename (Unicode)"}
    header = ref.INFO2_HEADER.base(1, size=size)

    def entry(start, name=b"C:\\x", **more):
        return ref.INFO2_ENTRY.base(start, name=name.ljust(260, b"\0"), **more)

    def run(label, entries, head=header):
        blob, expected = ref.info2(head, entries)
        fidelity.text_case(tally, "info2", label, recycler.RecyclerInfo2File, blob, expected, fields)

    wide = ("C:\\wide.txt", b"")
    if part[0] == "fields":
        for label, values in ref.INFO2_HEADER.variants(header, ("size",)):
            run(f"header {label}", [(entry(1), wide)], values)
        for label, values in ref.INFO2_ENTRY.variants(entry(1), ("name",)):
            run(label, [(values, wide)])
        for length in range(1, 260):
            run(f"ansi {length}", [(entry(1, b"n" * length), wide)])
        for code in [c for c in range(0x20, 0x100) if c not in (0x7f, 0x81, 0x8d, 0x8f, 0x90, 0x9d)]:
            run(f"ansi code {code:02x}", [(entry(1, bytes([0x41, code, 0x42])), wide)])
        run("ansi with remnant", [(entry(1, b"abc\0remnant"), wide)])
        if size == 800:
            for name in NAMES[:4] + NAMES[5:]:
                for tail in (b"", b"remnant!"):
                    run(f"unicode {name!r:.20} {tail}", [(entry(1), (name, tail))])
            for length in range(1, 260):
                run(f"unicode {length}", [(entry(1), ("u" * length, b""))])
    else:
        kinds = [(entry(1, b"one"), ("One", b"")), (entry(30, b"twotwo"), ("TwoTwo\u00e9", b"zz")), (entry(60, b"3" * 259), ("3" * 259, b""))]
        for length in range(0, part[2] + 1):
            for combo in itertools.product(range(3), repeat=length):
                run(f"sequence {combo}", [kinds[i] for i in combo])


RP_FIELDS = {"Event type", "Restore point type", "Sequence number", "Description", "Unknown1", "Creation time"}


def do_rp_log(tally, _):
    def run(*values):
        blob, expected = ref.rp_log(*values)
        fidelity.text_case(tally, "rp_log", f"{values!r:.80}", rp_log.RestorePointLogFile, blob, expected, RP_FIELDS)
    for event in sorted(set(U32) | set(range(98, 106))):
        run(event, 1, 2, "d", b"", 5)
    for kind in sorted(set(U32) | set(range(0, 20))):
        run(100, kind, 2, "d", b"", 5)
    for sequence in U64:
        run(100, 0, sequence, "d", b"", 5)
    for name in NAMES:
        for size in (0, 1, 2, 15, 16, 17, 200):
            run(101, 10, 7, name, bytes((i * 3 + 1) & 0xff for i in range(size)), 0x01d0000012345678)
    for length in range(1, 130):
        run(102, 12, 7, "e" * length, b"\0" * 8, 0x01d0000012345678)
    for time in TIMES + (0,):
        run(103, 13, 1, "time", b"uu", time)


def do_change_log(tally, part):
    base = {**ref.CHANGE_ENTRY.base(1), "u1": b"\0" * 32}

    def run(label, volume, entries):
        blob, expected, values = ref.change_log(volume, entries)
        fidelity.text_case(tally, "change_log", label, rp_change_log.RestorePointChangeLogFile, blob, expected, ref.CHANGE_FIELDS)
        api(tally, "change_log", label, rp_change_log.RestorePointChangeLogFile, blob,
            lambda r: (r.volume_path, [(e.entry_type, e.entry_flags, e.file_attribute_flags, e.sequence_number, e.process_name)
                                       for e in r.entries]), values, len(values[1]) + 1)

    if part[0] == "fields":
        for label, values in ref.CHANGE_ENTRY.variants(base, ("sig", "psize")):
            run(label, "\\Device\\V1", [(values, "proc", [])])
        for name in NAMES:
            run(f"volume {name!r:.20}", name, [])
            run(f"process {name!r:.20}", "v", [(base, name, []), (base, "after", [])])
        for length in range(0, 70):
            run(f"process {length}", "v" * max(length, 1), [(base, "p" * length, []), (base, "z", [(5, "b" * max(length, 1))])])
    elif part[0] == "subs":
        subs = [(4, "second\u00e9"), (5, "A0000001.exe"), (9, "SHORT~1.TXT"), (3, b"first"), (6, b"\1\2\3\4"), (7, b""), (8, bytes(range(40))), (12, b"x")]
        for count in range(0, part[1] + 1):
            for combo in itertools.product(subs, repeat=count):
                run(f"subs {[k for k, _ in combo]}", "vol", [(base, "p", list(combo))])
        for size in range(0, 20):
            for kind in (3, 6, 7, 8):
                run(f"sub {kind} of {size}", "vol", [(base, "p", [(kind, b"\1" * size)]), (base, "q", [(4, "s"), (kind, b"\1" * size), (9, "t")])])
    else:
        kinds = [(base, "one", []), ({**ref.CHANGE_ENTRY.base(50)}, "two two", [(4, "x"), (9, "yy")]), ({**ref.CHANGE_ENTRY.base(90)}, "3", [(6, b"acl")])]
        for length in range(0, part[1] + 1):
            for combo in itertools.product(range(3), repeat=length):
                run(f"sequence {combo}", "vol", [kinds[i] for i in combo])


def usn_case(tally, label, records, align=8, skip=(), tail=b""):
    blob = ref.usn_file(records, align, skip) + tail
    expected = [tuple(values) + (name,) for values, name in records]
    api(tally, "usn", label, usn_journal.USNRecords, blob,
        lambda r: [tuple(getattr(x, k) for k in ref.USN_KEYS) + (x.name,) for x in r.ReadRecords()], expected, len(records) + 1)


def usn_values(start):
    return (start * 0x0101010101010101, start + 1, start * 7, 0x01d0000012345678 + start, start, start << 8, start << 16, start << 24 & 0xffffffff)


def do_usn(tally, part):
    base = list(usn_values(3))
    if part[0] == "fields":
        for index in range(8):
            for value in (U64 if index < 4 else U32):
                values = list(base)
                values[index] = value
                usn_case(tally, f"{ref.USN_KEYS[index]}={value}", [(values, "n.txt"), (base, "m")])
        for length in range(0, 256):
            for align in (4, 8):
                usn_case(tally, f"name {length} align {align}", [(base, "n" * length), (base, "after")], align)
                usn_case(tally, f"last name {length} align {align}", [(base, "first"), (base, "n" * length)], align)
                usn_case(tally, f"name {length} in its own block, align {align}", [(base, "n" * length), (base, "n" * length)], align, skip=[1])
        for name in NAMES:
            usn_case(tally, f"name {name!r:.20}", [(base, name), (base, "z")])
    elif part[0] == "sequences":
        kinds = ["a", "", "c" * 100]
        for length in range(0, part[1] + 1):
            for combo in itertools.product(range(3), repeat=length):
                records = [(usn_values(i + 1), kinds[k]) for i, k in enumerate(combo)]
                for skip in itertools.product((0, 1), repeat=max(length - 1, 0)):
                    for align in (4, 8):
                        usn_case(tally, f"sequence {combo} {skip} align {align}", records, align, skip=[i + 1 for i, s in enumerate(skip) if s])
                usn_case(tally, f"sequence {combo} zero tail", records, tail=b"\0" * (-len(ref.usn_file(records)) % 4096))
    elif part[0] == "leading":
        for blocks in (1, 2, 5):
            blob = b"\0" * 4096 * blocks
            for count in (1, 2, 3):
                records = [(usn_values(i + 1), "n%d" % i) for i in range(count)]
                data = blob + ref.usn_file(records)
                api(tally, "usn", f"{blocks} empty blocks first", usn_journal.USNRecords, data,
                    lambda r: [tuple(getattr(x, k) for k in ref.USN_KEYS) + (x.name,) for x in r.ReadRecords()],
                    [tuple(v) + (n,) for v, n in records], count)
    else:
        # Blocks filled so that `left` bytes of the block are unused.
        for left in part[1]:
            records = []
            used = 0
            index = 0
            while used + 512 + 64 < 4096 - left:
                records.append((usn_values(index % 200 + 1), "f" * ((512 - 60) // 2)))
                used += 512
                index += 1
            rest = 4096 - left - used
            first = rest // 2 // 8 * 8 if rest > 568 else rest
            for size in ([first, rest - first] if rest != first else [rest]):
                records.append((usn_values(index % 200 + 1), "g" * ((size - 60) // 2)))
                index += 1
            records += [(usn_values(201), "next"), (usn_values(202), "last.one")]
            if left and left < 72:
                pass
            usn_case(tally, f"left {left}", records, 4, skip=[len(records) - 2])
            if left >= 60:
                # The space that is left is taken by a record without a name.
                records.insert(len(records) - 2, (usn_values(203), ""))
                usn_case(tally, f"left {left} and a record without a name", records, 4, skip=[len(records) - 2])


def do_job(tally, part):
    fixed = ref.JOB_FIXED.base(1, last=struct.pack("<8H", 2020, 2, 4, 13, 14, 15, 16, 17))
    strings = ["app.exe", "/x", "C:\\", "me", "why"]
    trigger = ref.JOB_TRIGGER.base(5, begin=struct.pack("<3H", 2020, 1, 2), end=struct.pack("<3H", 2021, 11, 30), time=struct.pack("<2H", 7, 45))
    fields = _fields(ref.JOB_FIXED) | _fields(ref.JOB_TRIGGER) | set(ref.JOB_STRINGS) | {"Running instance count"}
    names = ("application_name", "author", "comment", "error_retry_count", "error_retry_interval", "identifier", "parameters", "priority",
             "working_directory")

    def run(label, fixed=fixed, running=1, strings=strings, user=b"", reserved=b"", triggers=(trigger,)):
        blob, expected, values = ref.job(fixed, running, strings, user, reserved, triggers)
        fidelity.text_case(tally, "job", label, job.WindowsTaskSchedulerJobFile, blob, expected, fields)
        api(tally, "job", label, job.WindowsTaskSchedulerJobFile, blob,
            lambda r: tuple(getattr(r.GetWindowsTaskConfiguration(), n) for n in names), values, 9)

    if part[0] == "fields":
        for label, values in ref.JOB_FIXED.variants(fixed, ("last",)):
            run(label, fixed=values)
        for index in range(8):
            parts = [2020, 2, 4, 13, 14, 15, 16, 17]
            for value in (0, 1, 9, 10, 59, 99, 999, 1601, 65535):
                parts[index] = value
                run(f"last {index} {value}", fixed={**fixed, "last": struct.pack("<8H", *parts)})
        for value in range(0, 65536, 257):
            run(f"product {value:04x}", fixed={**fixed, "product": value})
        for label, values in ref.JOB_TRIGGER.variants(trigger, ("begin", "end", "time")):
            run(f"trigger {label}", triggers=[values])
        for key, form in (("begin", "<3H"), ("end", "<3H"), ("time", "<2H")):
            count = len(form) and int(form[1])
            for index in range(count):
                for value in (0, 1, 12, 31, 59, 1999, 65535):
                    parts = [1] * count
                    parts[index] = value
                    run(f"trigger {key} {parts}", triggers=[{**trigger, key: struct.pack(form, *parts)}])
        for running in (0, 1, 255, 256, 65535):
            run(f"running {running}", running=running)
    elif part[0] == "strings":
        choices = ("", "a", "\u00e9\u65e5", "z" * 300)
        for combo in itertools.product(choices, repeat=5):
            run(f"strings {combo!r:.60}", strings=list(combo))
        for length in range(0, 130):
            run(f"length {length}", strings=["s" * length, "t", "", "u" * (length % 7), "v"])
    else:
        for user, reserved in itertools.product((b"", b"u", b"\1\2\3\4\5\6\7\x08", bytes(300)), repeat=2):
            run(f"user {len(user)} reserved {len(reserved)}", user=user, reserved=reserved)
        other = {**ref.JOB_TRIGGER.base(70), **{k: trigger[k] for k in ("begin", "end", "time")}}
        for length in range(0, part[1] + 1):
            for combo in itertools.product((trigger, other), repeat=length):
                run(f"triggers {length}", triggers=combo)


def history_case(tally, label, values):
    blob, expected = ref.history(values)
    fidelity.text_case(tally, "history", label, detection_history.WindowsDefenderScanDetectionHistoryFile, blob, expected, ref.HISTORY_FIELDS)


def do_history(tally, part):
    kinds = [(0, 7), (5, 0xffffffff), (6, 1), (8, 1 << 63), (0xa, 0x01d0000012345678), (0x15, "text"), (0x1e, bytes(range(1, 17))), (0x28, b"\1\2\3\4\5")]
    magic = (0x15, ref.MAGIC)

    def full(category=8, data=None, extra=27):
        third = [magic, (0x15, "file"), (0x15, "C:\\m.exe"), (6, 0), (6, 20), ("tracking", data or ref.tracking([(3, "k", 5)])), (0xa, 0x01d0000012345678)]
        third += [(6, i) for i in range(extra - len(third))]
        return [(8, 1234567890123), (0x1e, bytes(range(16))), magic, (0x15, "Virus:X"), (6, 2), (6, 3), (6, category), (5, 1)] + third

    if part[0] == "values":
        for value in U32:
            for kind in (0, 5, 6):
                history_case(tally, f"integer {kind} {value}", [(kind, value)])
        for value in U64:
            history_case(tally, f"integer 8 {value}", [(8, value), (8, 1)])
        for value in TIMES + (0,):
            history_case(tally, f"filetime {value}", [(0xa, value)])
        for name in NAMES:
            history_case(tally, f"string {name!r:.20}", [(0x15, name), (6, 5)])
        for length in range(1, 70):
            history_case(tally, f"string {length}", [(0x15, "s" * length), (6, 5)])
            history_case(tally, f"binary {length}", [(0x28, bytes((i + 1) & 0xff for i in range(length))), (6, 5)])
        for length in range(0, part[1] + 1):
            for combo in itertools.product(range(len(kinds)), repeat=length):
                history_case(tally, f"sequence {combo}", [kinds[i] for i in combo])
    elif part[0] == "groups":
        for category in ref.CATEGORIES:
            history_case(tally, f"category {category}", full(category))
        for extra in range(7, 30):
            history_case(tally, f"length {extra}", full(extra=extra))
        for one, two in itertools.product(range(0, 5), repeat=2):
            history_case(tally, f"lengths {one} {two}", [(6, i) for i in range(one)] + [magic] + [(6, i) for i in range(two)][:3] + full()[8:])
        history_case(tally, "third magic", full() + [magic, (6, 1), (6, 2)])
    else:
        values = [(3, "alpha", 5), (4, "b", 1 << 63), (5, "c\u00e9", 255), (6, "d", "text \u65e5"), (7, "e", b"\1\2\3\4\5"), (6, "f", ""), (3, "", 0)]
        for length in range(0, part[1] + 1):
            for combo in itertools.product(range(len(values)), repeat=length):
                for header in (None, (16, 9), (24, 0xffffffff)):
                    if header is None and length == 0:
                        continue
                    history_case(tally, f"tracking {combo} {header}", full(data=ref.tracking([values[i] for i in combo], header)))
        for tail in range(0, 20):
            history_case(tally, f"tracking tail {tail}", full(data=ref.tracking(values, None, b"\xee" * tail)))
            history_case(tally, f"tracking tail {tail} header", full(data=ref.tracking(values, (16, 1), b"\xee" * tail)))


def do_emf(tally, part):
    header = ref.EMF_HEADER.base(1)

    def run(label, records, head=header, tail=b""):
        blob, expected = ref.emf(head, records, tail)
        fidelity.text_case(tally, "emf", label, wemf.EMFFile, blob, expected, ref.EMF_FIELDS)

    kinds = [(70, b"comment."), (0x18, struct.pack("<I", 0xff8040)), (0x25, struct.pack("<I", 0x80000007)), (14, bytes(range(12))), (0xfff0, b"")]
    if part[0] == "fields":
        for label, values in ref.EMF_HEADER.variants(header, ("type", "size")):
            run(label, kinds[:1], values)
        for tail in (0, 4, 40, 400):
            run(f"header tail {tail}", kinds, tail=b"D\0" * (tail // 2))
        for value in U32 + [0x800000 + i for i in range(3)]:
            run(f"color {value}", [(0x18, struct.pack("<I", value)), kinds[0]])
        for value in U32 + list(ref.EMF_STOCK):
            run(f"object {value}", [(0x25, struct.pack("<I", value)), kinds[0]])
        for size in list(range(0, 40)) + [1000]:
            run(f"comment {size}", [(70, bytes((i + 1) & 0xff for i in range(size))), kinds[1]])
    else:
        for length in range(0, part[1] + 1):
            for combo in itertools.product(range(len(kinds)), repeat=length):
                run(f"sequence {combo}", [kinds[i] for i in combo])


def do_wmf(tally, part):
    header = ref.WMF_HEADER.base(1, type=1)
    placeable = ref.WMF_PLACEABLE.base(1)
    eof = (0, b"")

    def run(label, records, head=header, place=None):
        blob, expected = ref.wmf(place, head, records)
        fidelity.text_case(tally, "wmf", label, wemf.WMFFile, blob, expected, ref.WMF_FIELDS)

    kinds = [(0x1e, b""), (0x103, struct.pack("<H", 8)), (0x107, struct.pack("<H", 3)), (0x127, struct.pack("<H", 0xffff)), (0x20b, struct.pack("<hh", -5, 7)),
             (0x20c, struct.pack("<hh", 100, 200)), (0xb41, struct.pack("<I8h", 0xcc0020, 1, 2, 3, 4, 5, 6, 7, 8) + b"bitmap"), (0x3ff, b"\1\2\3\4")]
    if part[0] == "fields":
        for label, values in ref.WMF_HEADER.variants(header, ("type", "size")):
            run(label, [eof], values)
        run("disk file", [eof], {**header, "type": 2})
        for label, values in ref.WMF_PLACEABLE.variants(placeable, ("sig",)):
            run(f"placeable {label}", [eof], place=values)
        for mode in range(0, 12):
            run(f"map mode {mode}", [(0x103, struct.pack("<H", mode)), eof])
            run(f"stretch mode {mode}", [(0x107, struct.pack("<H", mode)), eof])
            run(f"stretch mode {mode} reserved", [(0x107, struct.pack("<HH", mode, 0)), eof])
        for a, b in itertools.product((0, 1, -1, 300, 32767, -32768), repeat=2):
            run(f"window {a} {b}", [(0x20b, struct.pack("<hh", a, b)), (0x20c, struct.pack("<hh", b, a)), eof])
        for index in range(8):
            for value in (0, 1, -1, 256, 32767, -32768):
                parts = list(range(11, 19))
                parts[index] = value
                run(f"stretch {parts}", [(0xb41, struct.pack("<I8h", 0xcc0020, *parts)), eof])
        for value in list(ref.RASTER) + [1, 0xffffffff]:
            run(f"raster {value}", [(0xb41, struct.pack("<I8h", value, *range(8))), eof])
    else:
        for length in range(0, part[1] + 1):
            for combo in itertools.product(range(len(kinds)), repeat=length):
                for place in (None, placeable):
                    run(f"sequence {combo}", [kinds[i] for i in combo] + [eof], place=place)


def do_automatic(tally, part):
    def run(label, header, entries, links, empty=False):
        blob, expected = ref.dest_list(header, entries)
        streams = [("DestList", b"" if empty else blob)] + [(name, ref.lnk(*link)) for name, *link in links]
        data = ref.compound(streams)
        fidelity.text_case(tally, "automatic", label, jump_list.AutomaticDestinationsFile, data, [] if empty else expected, ref.DEST_FIELDS)
        api(tally, "automatic", label, jump_list.AutomaticDestinationsFile, data,
            lambda r: sorted((e.identifier, e.lnk_file.description, e.lnk_file.file_size) for e in r.GetJumpListEntries()),
            sorted((name, link[0], link[2] if len(link) > 2 else 77) for name, *link in links), len(links) + 1)

    def base(version, start=1):
        return (ref.DEST_V1 if version == 1 else ref.DEST_V2).base(start, host=b"host%d" % start + b"\0" * 10)

    if part[0] == "fields":
        for version in (1, 2, 3, 4):
            header = ref.DEST_HEADER.base(1, version=version)
            entry = base(version, 9)
            entry["host"] = b"machine".ljust(16, b"\0")
            table = ref.DEST_V1 if version == 1 else ref.DEST_V2
            for label, values in ref.DEST_HEADER.variants(header, ("version",)):
                run(f"v{version} header {label}", values, [(entry, "p", 1)], [])
            for label, values in table.variants(entry, ("host", "psize")):
                run(f"v{version} {label}", header, [(values, "C:\\path", 3)], [])
            for host in (b"h", b"fifteen-chars-x", b"sixteen-chars-xy"):
                run(f"v{version} host {host}", header, [({**entry, "host": host.ljust(16, b"\0")}, "p", 1)], [])
            for path in NAMES:
                for unknown in (0, 1, 0xffffffff):
                    run(f"v{version} path {path!r:.20}", header, [(entry, path, unknown), (entry, "after", 2)], [])
        run("empty", ref.DEST_HEADER.base(1, version=1), [], [], True)
    else:
        header = {v: ref.DEST_HEADER.base(1, version=v) for v in (1, 2, 3, 4)}
        choices = [("1", "one"), ("2", "two \u65e5" * 3), ("a", "x" * 300), ("1f", "big " * 600)]
        for version in (1, 3):
            for count in range(0, 5):
                for links in itertools.combinations(choices, count):
                    for length in range(0, part[1] + 1):
                        run(f"v{version} {[l[0] for l in links]} {length}", header[version],
                            [({**base(version, i + 1), "host": b"h%d" % i + b"\0" * 14}, "path %d" % i * (i * 20 + 1), i) for i in range(length)], list(links))


def do_custom(tally, part):
    def run(label, categories, unknown=0, tail=b""):
        blob, expected, links = ref.custom(categories, unknown, tail)
        fidelity.text_case(tally, "custom", label, jump_list.CustomDestinationsFile, blob, expected, ref.CUSTOM_FIELDS)
        api(tally, "custom", label, jump_list.CustomDestinationsFile, blob,
            lambda r: [(e.identifier, e.lnk_file.description) for e in r.GetJumpListEntries()], links, len(links) + 1)

    if part[0] == "fields":
        for unknown in U32:
            run(f"unknown {unknown}", [(2, ["a"])], unknown)
        for identifier in (1, 2, 3, 255, 0x7fffffff):
            run(f"identifier {identifier}", [(1, identifier)])
        for name in NAMES:
            run(f"name {name!r:.20}", [(0, name, []), (0, name, ["x"]), (1, 1)])
        for length in range(1, 200):
            run(f"description {length}", [(2, ["d" * length, "e"]), (1, 2)])
        for tail in range(0, 4):
            run(f"tail {tail}", [(2, ["d"])], tail=b"T" * tail)
    else:
        kinds = [(0, "Cat", []), (0, "Cat\u00e9gory", ["x"]), (1, 2), (2, ["task one", "y" * 40]), (2, [])]
        for length in range(0, part[1] + 1):
            for combo in itertools.product(range(len(kinds)), repeat=length):
                run(f"categories {combo}", [kinds[i] for i in combo])


FILE_VALUES = {"0": "Product name", "1": "Company name", "3": "Language code", "5": "File version", "6": "File size", "7": "PE/COFF image size", "9": "PE/COFF checksum",
               "c": "File description", "d": "PE/COFF image version", "f": "PE/COFF compilation time", "11": "File modification time", "12": "File creation time",
               "15": "Path", "100": "Program identifier", "101": "SHA-1", "other": "other", "": "(default)"}
PROGRAM_VALUES = {"0": "Name", "1": "Version", "2": "Publisher", "3": "Language code", "6": "Installation method", "7": "Uninstallation key paths", "a": "Installation time",
                  "b": "Uninstallation time", "d": "Installation directories", "Files": "File reference key identifiers", "other": "other", "": "(default)"}
APPLICATION_VALUES = {"ProgramId": "Program identifier", "ProgramInstanceId": "Program instance identifier", "Name": "Name", "": "(default)"}
INVENTORY_VALUES = {"ProgramId": "ProgramId", "LowerCaseLongPath": "LowerCaseLongPath", "": "(default)"}
AMCACHE_IDS = ("{11517B7C-E79D-4e20-961B-75A811715ADD}", "{356c48f6-2fee-e7ef-2a64-39f59ec3be22}")


def amcache_time(value):
    return common.posix(value) if value < 253402300800 else f"0x{value:08x}"


def amcache_shown(kind, name, data_type, value):
    """The lines of one value."""
    if kind == "file" and isinstance(value, int):
        if name == "d":
            return [f"{value >> 16}.{value & 0xffff}"]
        if name == "f":
            return [amcache_time(value)]
        if name in ("11", "12"):
            return [common.filetime(value)]
    if kind == "program":
        if name in ("a", "b") and isinstance(value, int):
            return [amcache_time(value)]
        if name in ("7", "d", "Files") and isinstance(value, list):
            return value
    return [str(value)]


def do_amcache(tally, part):
    tables = {"file": FILE_VALUES, "program": PROGRAM_VALUES, "application": APPLICATION_VALUES, "inventory": INVENTORY_VALUES}
    parents = {"file": "File", "program": "Programs", "application": "InventoryApplication", "inventory": "InventoryApplicationFile"}
    titles = {"file": "File", "program": "Program", "application": "Application", "inventory": "Application File"}

    def run(label, keys, root=AMCACHE_IDS[0], order=("file", "program", "application", "inventory")):
        """keys: (kind, key name, [(value name, type, value)])."""
        groups, expected = {}, []
        for kind, name, values in keys:
            raw = []
            for value_name, data_type, value in values:
                if isinstance(value, str):
                    data = regf.text(value)
                elif isinstance(value, list):
                    data = regf.text("".join(v + "\0" for v in value))
                else:
                    data = struct.pack({4: "<I", 5: ">I", 11: "<Q"}[data_type], value)
                raw.append((value_name, data_type, data))
            node = (name, raw, [])
            groups.setdefault(kind, []).append(node)
        for kind in ("file", "program", "application", "inventory"):
            for k, name, values in keys:
                if k != kind:
                    continue
                reference = ""
                if kind == "file" and "0000" in name:
                    sequence, _, entry = name.partition("0000")
                    reference = f" ({int(entry, 16)}-{int(sequence, 16)})"
                expected.append((titles[kind], name + reference))
                for value_name, data_type, value in values:
                    lines = amcache_shown(kind, value_name, data_type, value)
                    expected += [(tables[kind][value_name] if i == 0 else "", line) for i, line in enumerate(lines)]
        subs = []
        for kind in order:
            nodes = groups.get(kind)
            if nodes and kind == "file":
                # The files of two volumes.
                nodes = [(n, [], part_) for n, part_ in (("v1", nodes[:1]), ("v2", nodes[1:])) if part_]
            if nodes:
                subs.append((parents[kind], [], nodes))
        blob = regf.hive((root, [], [("Root", [], subs)]))

        path = core.put(core.scratch(), "v.dat", blob)

        def read():
            for debug in (False, True):
                writer = core.Writer()
                reader = amcache.WindowsAMCacheFile(debug=debug, output_writer=writer)
                reader.Open(path)
                reader.Close()
                if not debug and writer.text:
                    return writer.text
            return text.pairs(re.sub(r"(?m)^(File|Program|Application|Application File): ", "\\1\t: ", writer.text))
        fidelity.value_case(tally, "amcache", label, read, expected, blob, len(expected), seen=("amcache", blob))

    if part[0] == "values":
        samples = [(1, "text"), (1, ""), (1, "\u00e9t\u00e9 \u65e5\U0001f600"), (2, "%x%"), (6, "link"), (1, "s" * 300), (7, ["one"]), (7, ["one", "two", "three"])]
        samples += [(4, v) for v in U32] + [(5, v) for v in U32] + [(11, v) for v in sorted({v for v in list(U64) + list(TIMES)})]
        for kind, table in tables.items():
            for name in table:
                for data_type, value in samples:
                    if kind == "file" and name in ("11", "12") and isinstance(value, int) and value > 0x7fffffffffffffff:
                        continue
                    run(f"{kind} {name} {data_type} {value!r:.30}", [(kind, "1000012345", [(name, data_type, value)])])
        for sequence in (1, 2, 0xf, 0x1f, 0xfff):
            for entry in (1, 0xf, 0x1234, 0xffff):
                run(f"reference {sequence:x} {entry:x}", [("file", f"{sequence:x}0000{entry:x}", [("0", 1, "p")])])
        run("no reference", [("file", "abc", [("0", 1, "p")])])
    else:
        alphabet = [("file", "10000a", [("0", 1, "p"), ("6", 4, 5)]), ("file", "20000b", [("15", 1, "C:\\x")]), ("program", "p1", [("Files", 7, ["f", "g"]), ("0", 1, "n")]),
                    ("program", "p2", []), ("application", "a1", [("ProgramId", 1, "i")]), ("inventory", "x|1", [("ProgramId", 1, "j"), ("LowerCaseLongPath", 1, "c:\\x")])]
        for length in range(0, part[1] + 1):
            for combo in itertools.product(range(len(alphabet)), repeat=length):
                keys = [(k, n + str(i) if k != "file" else n, v) for i, (k, n, v) in enumerate(alphabet[c] for c in combo)]
                run(f"keys {combo}", keys, AMCACHE_IDS[sum(combo) % 2])
        for order in itertools.permutations(tables):
            run(f"order {order}", [alphabet[0], alphabet[2], alphabet[4], alphabet[5]], order=order)


PARTS = {"amcache": do_amcache, "recycle_bin": do_recycle_bin, "info2": do_info2, "rp_log": do_rp_log, "change_log": do_change_log, "usn": do_usn, "job": do_job,
         "history": do_history, "emf": do_emf, "wmf": do_wmf, "automatic": do_automatic, "custom": do_custom}


def work(tally, argument):
    PARTS[argument[0]](tally, argument[1])


def main(run):
    deep = 1 if run.thorough else 0
    args = [("recycle_bin", (1,)), ("recycle_bin", (2,))]
    args += [("info2", ("fields", s)) for s in (280, 800)] + [("info2", ("sequences", s, 4 + deep)) for s in (280, 800)]
    args += [("rp_log", ())]
    args += [("change_log", ("fields",)), ("change_log", ("subs", 3 + deep)), ("change_log", ("sequences", 4 + 2 * deep))]
    args += [("usn", ("fields",)), ("usn", ("sequences", 4 + deep)), ("usn", ("leading",))]
    args += [("usn", ("left", tuple(range(start, 640, 32)))) for start in range(0, 32, 4)]
    args += [("job", ("fields",)), ("job", ("strings",)), ("job", ("triggers", 4 + 2 * deep))]
    args += [("history", ("values", 3 + deep)), ("history", ("groups",)), ("history", ("tracking", 3 + deep))]
    args += [("emf", ("fields",)), ("emf", ("sequences", 4 + deep)), ("wmf", ("fields",)), ("wmf", ("sequences", 3 + deep))]
    args += [("automatic", ("fields",)), ("automatic", ("sequences", 4 + 2 * deep)), ("custom", ("fields",)), ("custom", ("sequences", 3 + deep))]
    args += [("amcache", ("values",)), ("amcache", ("keys", 3 + deep))]
    run.explore(work, args)
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"formats": sorted(PARTS), "records per file": f"every sequence of up to {4 + deep} records of the alphabet (3-5 record kinds)",
                  "field values": "one field at a time at 0, 1, each byte's lowest bit, minimum and maximum; strings of every length up to the field's limit or 130-260",
                  "USN blocks": "every subset of block breaks between up to 4 records; blocks with 0..640 unused bytes"}
    run.rule = "debug text (and API values where the reader has any) equals the values put into the file by an independent encoder"
    run.assumptions = ["strings inside the encodings' shared range; FILETIME values between 1601 and 9999",
                       "shortcut files are read by pylnk and compound files by pyolecf; only their description and size are compared"]
