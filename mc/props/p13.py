"""P13: Unix and macOS log readers report every record, value-exact and in order."""
import itertools

from mc import fidelity
from mc.fmt import unixlogs as ref
from dtformats import asl, bsm, cups_ipp, fseventsd, systemd, utmp


# ------------------------------------------------------------ utmp, utmpx

def _text_fields(table):
    return {d for _, _, d, _, _ in table.fields if d}


STRINGS = (b"", b"a", b"tty\xc3\xa91", b"x" * 31, b"~" * 32)


def do_utmp(tally, part):
    table, factory, prefix = {
        "utmp": (ref.UTMP, utmp.LinuxLibc6UtmpFile, []),
        "utmpx": (ref.UTMPX, utmp.MacOSXUtmpxFile, [ref.utmpx_header()])}[part[0]]
    fields = _text_fields(table)

    def run(label, entries):
        entries = prefix + entries
        blob = b"".join(table.pack(e) for e in entries)
        expected = [p for e in entries for p in table.expect(e)]
        fidelity.text_case(tally, part[0], label, factory, blob, expected, fields)

    if part[1] == "fields":
        base = table.base(1)
        for label, values in table.variants(base):
            run(label, [values])
        sizes = {key: int(code[:-1]) for key, code, _, render, _ in table.fields if render == "s"}
        for key, size in sizes.items():
            for string in STRINGS + (b"y" * size, b"y" * (size - 1)):
                if len(string) <= size:
                    run(f"{key}={string!r:.20}", [{**base, key: string.ljust(size, b"\0")}])
    elif part[1] == "types":
        for value in list(range(-2, 16)) + [0x7fff]:
            if value >= 0:
                run(f"type={value}", [table.base(1, type=value)])
        if part[0] == "utmp":
            for octet in range(16):
                address = bytes(4 * (i == octet) for i in range(16))
                run(f"address octet {octet}", [table.base(1, ip=address)])
    else:
        kinds = [table.base(1), table.base(40), table.base(90)]
        for length in range(0, part[2] + 1):
            if length == 0 and part[0] == "utmp":
                continue
            for combo in itertools.product(range(3), repeat=length):
                run(f"sequence {combo}", [kinds[i] for i in combo])


# ------------------------------------------------------------ ASL

def do_asl(tally, part):
    base = ref.ASL_RECORD.base(1)
    plain = [b"host", b"sender", b"facility", b"a message"]
    extra_names = ("Uuid", "Time\u00e9", "short")
    fields = {d for t in (ref.ASL_HEADER, ref.ASL_RECORD) for _, _, d, _, _ in t.fields if d}
    fields |= {"Hostname", "Sender", "Facility", "Message"} | set(extra_names)

    def run(label, records, **options):
        blob, expected = ref.asl(records, **options)
        fidelity.text_case(tally, "asl", label, asl.AppleSystemLogFile, blob, expected, fields)

    if part[0] == "fields":
        skip = ("size", "next", "host", "sender", "facility", "message")
        for label, values in ref.ASL_RECORD.variants(base, skip):
            run(label, [(values, plain, [])])
        header = {**ref.ASL_HEADER.base(1)}
        for label, values in ref.ASL_HEADER.variants(header, ("sig", "first", "last")):
            run(f"header {label}", [(base, plain, [])], header={k: v for k, v in values.items() if k not in ("sig", "first", "last")})
        run("no records", [])
        for gap in range(0, 9):
            run(f"gap {gap}", [(base, plain, []), (base, plain, [])], gap=b"\0" * gap)
    elif part[0] == "strings":
        forms = [None, b"", b"stored", "d\u00e9j\u00e0".encode(), b"z" * 300] + [("inline", b"abcdefg"[:n]) for n in range(8)] + [("inline", "\u20ac\u20ac".encode())]
        for position in range(4):
            for form in forms:
                strings = list(plain)
                strings[position] = form
                run(f"string {position} {form!r:.30}", [(base, strings, [])])
        for one, two in itertools.product(forms, repeat=2):
            run(f"{one!r:.20} then {two!r:.20}", [(base, [one, two, one, two], []), (base, [two, one, None, one], [])])
        shared = ("same", b"shared")
        for pattern in itertools.product((shared, b"own", None), repeat=4):
            run(f"shared {pattern!r:.60}", [(base, [shared, b"x", b"y", b"z"], []), (base, list(pattern), [])])
    elif part[0] == "extras":
        names = [n.encode() for n in extra_names]
        values = [b"v", None, ("inline", b"inl"), b"w" * 40]
        for count in range(0, 4):
            for combo in itertools.product(range(len(values)), repeat=count):
                extras = [(("inline", names[i]) if i == 2 else names[i], values[c]) for i, c in enumerate(combo)]
                run(f"extras {combo}", [(base, plain, extras), (base, plain, [])])
    else:
        kinds = [(ref.ASL_RECORD.base(s), [bytes([65 + s]) * (s + 1), None, ("inline", bytes([97 + s])), b"m%d" % s], [(b"Uuid", b"u%d" % s)][:s % 2])
                 for s in range(3)]
        for length in range(0, part[1] + 1):
            for combo in itertools.product(range(3), repeat=length):
                run(f"sequence {combo}", [kinds[i] for i in combo])


# ------------------------------------------------------------ BSM

BSM_FIELDS = None


def _bsm_fields():
    fields = {"Signature", "Record size"}
    for table, _ in list(ref.bsm_tokens().values()) + list(ref.bsm_headers().values()):
        fields |= {d for _, _, d, _, _ in table.fields if d}
    for _, expected in ref.bsm_strings(b"x").values():
        fields |= {d for d, _ in expected}
    return fields


def do_bsm(tally, part):
    fields = _bsm_fields()
    tokens = ref.bsm_tokens()
    headers = ref.bsm_headers()

    def net(name):
        return int(name.partition("/")[2] or 16)

    def make(name, **values):
        table, kind = tokens[name]
        values = {**table.base(1, token=kind), **({"net": net(name)} if "net" in table.base() else {}), **values}
        return table.pack(values), table.expect(values)

    def head(name, **values):
        table, kind = headers[name]
        base = table.base(1, event=43190)
        if "net" in base:
            base["net"] = net(name)
        return headers[name], {**base, **values}

    def run(label, records):
        parts = [ref.bsm_record(*record) for record in records]
        fidelity.text_case(tally, "bsm", label, bsm.BSMEventAuditingFile, b"".join(p[0] for p in parts),
                           [e for p in parts for e in p[1]], fields)

    simple = [make("seq")]
    variable = {}
    for data in (b"", b"a", b"/usr/bin/x", b"q" * 254, b"r" * 255):
        for name, item in ref.bsm_strings(data).items():
            variable[f"{name}/{len(data)}"] = item
    silent = {name: (blob, []) for name, blob in ref.bsm_silent().items()}
    def end_of_file(strings):
        """Program arguments right before the trailer of the last record."""
        blob = b"\x3c" + len(strings).to_bytes(4, "big") + b"".join(s + b"\0" for s in strings)
        record, expected = ref.bsm_record(*head("header32"), [(blob, [])])
        key = "bsm-exec-args-end-of-file" if strings == [b"x" * 100, b"y"] else "bsm"
        fidelity.text_case(tally, key, f"program arguments {strings!r:.60}", bsm.BSMEventAuditingFile, record, expected, fields)

    if part[0] == "headers":
        for strings in ([], [b"a"], [b"a", b"b"], [b"abcdef", b"g"], [b"", b"abcdef", b"", b"z"], [b"x" * 100, b"y"]):
            end_of_file(strings)
        for name, (table, kind) in headers.items():
            base = head(name)[1]
            for label, values in table.variants(base, ("token", "record_size", "version", "net", "event")):
                run(f"{name} {label}", [(headers[name], values, simple)])
            for event in ref.EVENTS:
                run(f"{name} event {event}", [(*head(name, event=event), simple)])
            run(f"{name} alone", [(*head(name), [])])
    elif part[0] == "tokens":
        for name, (table, kind) in tokens.items():
            base = {**table.base(1, token=kind), **({"net": net(name)} if "net" in table.base() else {})}
            for label, values in table.variants(base, ("token", "net")):
                run(f"{name} {label}", [(*head("header32"), [(table.pack(values), table.expect(values))] + simple)])
        for name, item in variable.items():
            run(name, [(*head("header32"), [item])])
            run(name + "+seq", [(*head("header32"), [item] + simple)])
        for name, item in silent.items():
            run(name + "+seq", [(*head("header32"), [item] + simple)])
        for size in range(0, 70):
            data = bytes(0x21 + i % 90 for i in range(size))
            for name, item in ref.bsm_strings(data).items():
                run(f"{name} of {size}", [(*head("header32"), [item] + simple)])
    elif part[0] == "pairs":
        every = {name: make(name) for name in tokens}
        every.update({n: i for n, i in variable.items() if n.endswith(("/0", "/10"))})
        every.update(silent)
        first = sorted(every)[part[1]::part[2]]
        for one in first:
            for two in every:
                run(f"{one},{two}", [(*head("header32"), [every[one], every[two]])])
    else:
        kinds = [(*head("header32"), simple), (*head("header64_ex/16"), [variable["path/10"]]), (*head("header32_ex/4"), [make("subject32_ex/16"), make("return32")])]
        for length in range(1, part[1] + 1):
            for combo in itertools.product(range(3), repeat=length):
                run(f"sequence {combo}", [kinds[i] for i in combo])


# ------------------------------------------------------------ systemd

def do_journal(tally, part):
    fields = {"Data object data"}
    for table in (ref.JOURNAL_HEADER, ref.JOURNAL_DATA, ref.JOURNAL_ENTRY, ref.JOURNAL_ARRAY):
        fields |= {d for _, _, d, _, _ in table.fields if d}
    fields |= {f"    Entry object offset: {i}" for i in range(40)}
    fields |= {f"    Entry item: {i} {w}" for i in range(40) for w in ("object offset", "hash")}
    entry = ref.JOURNAL_ENTRY.base(1)
    data = ref.JOURNAL_DATA.base(1, flags=0)

    def items(n, start=1):
        return [({**ref.JOURNAL_DATA.base(start + i), "flags": i % 3}, b"FIELD%d=value" % (start + i)) for i in range(n)]

    def run(label, entries, arrays, **options):
        blob, expected = ref.journal(entries, arrays, **options)
        fidelity.text_case(tally, "systemd", label, systemd.SystemdJournalFile, blob, expected, fields)

    if part[0] == "fields":
        one = [(entry, [(data, b"MESSAGE=x")])]
        for label, values in ref.JOURNAL_HEADER.variants(ref.JOURNAL_HEADER.base(5), ("sig", "hsize", "array")):
            run(f"header {label}", one, [1], header={k: v for k, v in values.items() if k not in ("sig", "hsize", "array")})
        for size in (208, 224, 240):
            run(f"header size {size}", one, [1], header_size=size)
        for label, values in ref.JOURNAL_ENTRY.variants(entry, ("type", "flags", "size")):
            run(f"entry {label}", [(values, [(data, b"MESSAGE=x")])], [1])
        for label, values in ref.JOURNAL_DATA.variants(data, ("type", "flags", "size")):
            run(f"data {label}", [(entry, [(values, b"MESSAGE=x")])], [1])
        for flags in range(3):
            for size in list(range(1, 40)) + [255, 4096]:
                run(f"data flags {flags} size {size}", [(entry, [({**data, "flags": flags}, bytes(i & 0xff for i in range(size)))])], [1])
    else:
        for counts in itertools.product(range(1, 4), repeat=part[1]):
            # every way of listing these entries in entry array objects
            entries = [({**ref.JOURNAL_ENTRY.base(i * 7 + 1)}, items(n, 1 + (i * 2))) for i, n in enumerate(counts)]
            for cut in itertools.product((0, 1), repeat=part[1] - 1):
                arrays = [1]
                for bit in cut:
                    if bit:
                        arrays.append(1)
                    else:
                        arrays[-1] += 1
                for pad in (0, 1, 3):
                    for first in (False, True):
                        run(f"entries {counts} arrays {arrays} pad {pad} {first}", entries, arrays, pad_slots=pad, entry_first=first)


# ------------------------------------------------------------ CUPS IPP

def do_ipp(tally, part):
    base = {"major": 2, "minor": 0, "op": 5, "req": 1}
    fields = {"Tag value", "Name size", "Name", "Value data size", "Value data", "Value"} | _text_fields(ref.IPP_HEADER)
    charset = ref.ipp_attribute(0x47, b"attributes-charset", b"utf-8", "utf-8")
    latin = ref.ipp_attribute(0x47, b"attributes-charset", b"iso-8859-1", "iso-8859-1")

    def run(label, groups, header=base, trailer=b""):
        blob, expected = ref.ipp(groups, header, trailer)
        fidelity.text_case(tally, "cups_ipp", label, cups_ipp.CupsIppFile, blob, expected, fields)

    samples = [charset, ref.ipp_integer(7), ref.ipp_boolean(1), ref.ipp_attribute(0x44, b"k", b"one", "one"),
               ref.ipp_attribute(0x44, b"", b"two", "two"), ref.ipp_attribute(0x13, b"none", b""),
               ref.ipp_attribute(0x32, b"res", bytes(range(9))), ref.ipp_attribute(0x30, b"octets", b"\x80\xff\0")]
    if part[0] == "fields":
        for label, values in ref.IPP_HEADER.variants(base):
            run(f"header {label}", [(1, [charset])], values)
        for value in (0, 1, -1, 255, 256, -256, 65535, 65536, 0x7fffffff, -0x80000000, 0x01020304):
            for tag in (0x21, 0x23):
                run(f"tag {tag} integer {value}", [(2, [ref.ipp_integer(value, tag=tag)])])
        for value in (0, 1):
            run(f"boolean {value}", [(2, [ref.ipp_boolean(value)])])
        for y, mo, d, h, mi, s, ds in [(2018, 11, 27, 16, 0, 59, 0), (1970, 1, 1, 0, 0, 0, 0), (1999, 12, 31, 23, 59, 59, 9), (2020, 2, 29, 12, 30, 1, 5),
                                       (2000, 10, 10, 1, 2, 3, 4), (2100, 3, 4, 5, 6, 7, 8)]:
            run(f"date {y}-{mo}-{d}", [(2, [ref.ipp_datetime((y, mo, d, h, mi, s, ds, b"+", 0, 0))])])
        for tag in (0x44, 0x45, 0x46, 0x47, 0x48, 0x49):
            for data in (b"a", b"utf-8", b"ascii") if tag == 0x47 else (b"", b"a", b"ipp://h/x?y=1", b"k" * 300):
                if tag == 0x47 and data == b"a":
                    continue
                run(f"tag {tag} {data!r:.20}", [(4, [ref.ipp_attribute(tag, b"n", data, data.decode())])])
        for tag in (0x41, 0x42):
            for data in ("", "text", "d\u00e9j\u00e0", "\u20ac" * 50):
                run(f"tag {tag} utf-8 {data!r:.20}", [(4, [charset, ref.ipp_attribute(tag, b"n", data.encode(), data)])])
            run(f"tag {tag} latin-1", [(4, [latin, ref.ipp_attribute(tag, b"n", "\u00e9".encode("latin-1"), "\u00e9")])])
            run(f"tag {tag} charset switched", [(4, [charset, ref.ipp_attribute(tag, b"n", "\u00e9".encode(), "\u00e9"), latin,
                                                      ref.ipp_attribute(tag, b"m", b"\xe9", "\u00e9"), charset, ref.ipp_attribute(tag, b"o", "\u00e9".encode(), "\u00e9")])])
        for tag in (0x13, 0x30, 0x32, 0x33, 0x35, 0x36, 0x11, 0x4a, 0x7f):
            for data in (b"", b"\x00", bytes(range(9)), b"\xff" * 40):
                run(f"tag {tag} {data!r:.30}", [(2, [ref.ipp_attribute(tag, b"n", data)])])
        for size in list(range(0, 40)) + [255, 256, 1000]:
            run(f"name size {size}", [(2, [ref.ipp_attribute(0x44, b"n" * size, b"v", "v"), ref.ipp_integer(1)])])
            run(f"value size {size}", [(2, [ref.ipp_attribute(0x44, b"n", b"v" * size, "v" * size), ref.ipp_integer(1)])])
    else:
        for length in range(0, part[1] + 1):
            for combo in itertools.product(range(len(samples)), repeat=length):
                attributes = [samples[i] for i in combo]
                run(f"attributes {combo}", [(1, attributes)])
        for tags in itertools.product((1, 2, 4, 5), repeat=part[1]):
            for attributes in ([], [samples[1]], [samples[3], samples[4]]):
                run(f"groups {tags} {len(attributes)}", [(t, attributes) for t in tags], trailer=b"print data")


# ------------------------------------------------------------ fseventsd

def do_fsevents(tally, part):
    fields = {"Signature", "Unknown1", "Page size", "Path", "Event identifier", "Flags", "Node identifier"}
    base = (b"Users/x", 0x0102030405060708, 0x11223344, 0x5152535455565758)

    def run(label, pages, level=6):
        parts = [ref.dls_page(*p) for p in pages]
        fidelity.text_case(tally, "fseventsd", label, fseventsd.FseventsFile, ref.gz(b"".join(p[0] for p in parts), level),
                           [e for p in parts for e in p[1]], fields, seen=("fs", label))

    if part[0] == "fields":
        for version in (1, 2):
            for path in [b"", b"a", "d\u00e9j\u00e0 \u20ac".encode()] + [b"p" * n for n in range(2, 70)] + [b"q" * 1023, b"q" * 5000]:
                run(f"v{version} path {len(path)} {path[:5]!r}", [(version, [(path,) + base[1:], base])])
            for position, bits in ((1, 64), (2, 32), (3, 64)):
                for value in {0, 1, (1 << bits) - 1, 1 << bits - 1} | {1 << 8 * i for i in range(bits // 8)}:
                    record = list(base)
                    record[position] = value
                    run(f"v{version} field {position}={value}", [(version, [tuple(record)])])
            run(f"v{version} no records", [(version, [])])
            for level in (0, 1, 9):
                run(f"v{version} level {level}", [(version, [base] * 3)], level)
            run(f"v{version} many", [(version, [(b"p%d" % i, i, i, i) for i in range(2000)])])
    else:
        kinds = [(1, []), (1, [base]), (2, [base]), (2, [(b"o", 1, 2, 3), base]), (1, [(b"o", 1, 2, 3), base])]
        for length in range(1, part[1] + 1):
            for combo in itertools.product(range(len(kinds)), repeat=length):
                run(f"pages {combo}", [kinds[i] for i in combo])


def dispatch(tally, argument):
    globals()[f"do_{argument[0]}"](tally, argument[1])


def main(run):
    t = run.thorough
    tasks = []
    for kind in ("utmp", "utmpx"):
        tasks += [("utmp", (kind, "fields")), ("utmp", (kind, "types")), ("utmp", (kind, "sequences", 5 if t else 4))]
    tasks += [("asl", ("fields",)), ("asl", ("strings",)), ("asl", ("extras",)), ("asl", ("sequences", 6 if t else 4))]
    parts = 8
    tasks += [("bsm", ("headers",)), ("bsm", ("tokens",)), ("bsm", ("sequences", 5 if t else 3))] + [("bsm", ("pairs", i, parts)) for i in range(parts)]
    tasks += [("journal", ("fields",))] + [("journal", ("lists", n)) for n in range(1, 6 if t else 4)]
    tasks += [("ipp", ("fields",)), ("ipp", ("lists", 4 if t else 3))]
    tasks += [("fsevents", ("fields",)), ("fsevents", ("pages", 5 if t else 3))]
    run.explore(dispatch, tasks)
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.rule = ("every field of every record layout at each boundary value, every stored string form, every ordered pair of BSM tokens, every sequence of up to "
                "k records/pages/attributes of 3-8 kinds, every distribution of journal entries over entry array chains; the reported text values are "
                "compared item by item with what the independent encoder stored")
    run.bounds = {"record sequences": "<=5-6" if t else "<=3-4", "journal entries": 5 if t else 3, "IPP attributes": 4 if t else 3}
    run.assumptions = ["encoders follow the format documentation in /repo/documentation; values are observed through the debug text, filtered to known field names"]
