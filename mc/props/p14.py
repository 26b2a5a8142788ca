"""P14: Apple databases and preference data decode value-exact."""
import itertools
import struct

from mc import core, fidelity
from mc.fmt import apple as ref, common, spotlight as store
from mc.fmt.table import Table
from dtformats import alias_data, bookmark_data, keychain, safari_cookies, spotlight_storedb, tzif


# ------------------------------------------------------------ keychain

C = ref.Column
DATE = "20200102030405Z"
VALUES = {
    ref.STRING: ["a", "keychain string", "x" * 300, None],
    ref.SINT32: [0, 1, -1, 0x7fffffff, -0x80000000, None],
    ref.UINT32: [0, 1, 0x80000000, 0xffffffff, 0x01020304, None],
    ref.BIGNUM: [1, None],
    ref.REAL: [1, None],
    ref.TIME: [DATE, "1", "9" * 16, None],
    ref.BLOB: [b"\0", b"blob", bytes(range(256)), b"\xff" * 33, None],
    ref.MULTI: [1, None],
}
SHOWN = {"Relation identifier", "Attribute identifier", "Attribute name", "Attribute data type", "Record index", "Key data"}


def read_keychain(path, debug):
    reader = keychain.KeychainDatabaseFile(debug=debug, output_writer=core.Writer() if debug else None)
    reader.Open(path)
    result = [[t.relation_identifier, t.relation_name,
               [(c.attribute_data_type, c.attribute_identifier, c.attribute_name) for c in t.columns],
               [list(r.items()) for r in t.records]] for t in reader.tables]
    reader.Close()
    return result


def keychain_case(tally, label, *args, **kwargs):
    blob, expected = ref.keychain(*args, **kwargs)
    path = core.put(core.scratch(), "k.keychain", blob)
    for debug in (False, True):
        fidelity.value_case(tally, "keychain", f"{label} debug={debug}", lambda: read_keychain(path, debug), expected, blob, count=len(blob) // 24)


def do_keychain(tally, part):
    generic = 0x80000000
    if part == "values":
        for kind, values in VALUES.items():
            columns = [C(7, "first", ref.UINT32, 0), C(8, "second", kind, 0), C(9, "third", ref.STRING, 0)]
            relations = ref.SCHEMA + [(generic, "GENERIC", columns)]
            for value in values:
                keychain_case(tally, f"type {kind} value {value!r:.30}", relations, [], {generic: [[5, value, "end"]]})
            rows = [[i, v, str(i)] for i, v in enumerate(values)]
            for key in (b"", b"k", b"key data " * 5):
                keychain_case(tally, f"type {kind} rows, key {len(key)}", relations, [], {generic: rows}, key=key)
    elif part == "layout":
        columns = [C(7, "num", ref.SINT32, 0), C(0x61626364, None, ref.BLOB, 2), C(9, "text", ref.STRING, 1)]
        relations = ref.SCHEMA + [(0xb, "CERT", columns), (generic, "GENERIC", columns[:2])]
        rows = [[-5, b"one", "two"], [None, b"three", None], [None, None, None]]
        indexes = [(generic, 1, 2, 3, 4), (0xb, 0xffffffff, 0x80000000, 0, 1)]
        for picks in itertools.product((None, 0, 1), repeat=3):
            row = [None if p is None else rows[0][i] for i, p in enumerate(picks)]
            keychain_case(tally, f"nulls {picks}", relations, indexes, {0xb: [row, rows[0]], generic: [row[:2]]})
        for permutation in itertools.permutations(range(3)):
            keychain_case(tally, f"order {permutation}", relations, indexes, {0xb: rows},
                          order=lambda n, p=permutation: [i for i in p if i < n])
        for holes in ((0,), (1,), (0, 1), (2,), (0, 2, 3)):
            keychain_case(tally, f"holes {holes}", relations, indexes, {0xb: rows}, holes=holes)
        for tail, gap in itertools.product((b"", b"\0\0\0\0", b"tail" * 9), (b"", b"gap!", b"\xff" * 64)):
            keychain_case(tally, f"tail {len(tail)} gap {len(gap)}", relations, indexes, {generic: [[1, b"x"]], 0xb: rows}, tail=tail, gap=gap)
        for count in range(0, 6):
            keychain_case(tally, f"{count} indexes", relations, [(0xb, i, i * 3, 1, 2) for i in range(count)], {})
    else:
        # All ways to fill up to three relations with up to two rows each.
        columns = [C(1, "a", ref.UINT32, 0), C(2, "b", ref.STRING, 0)]
        identifiers = (0xb, 0x80000001, 0x80001000)
        for counts in itertools.product(range(3), repeat=3):
            relations = ref.SCHEMA + [(i, f"R{i}", columns[:1 + n % 2]) for n, i in enumerate(identifiers)]
            tables = {i: [[n * 10 + k, f"v{n}{k}"][:len(relations[3 + n][2])] for k in range(counts[n])] for n, i in enumerate(identifiers)}
            for order in itertools.permutations(identifiers):
                keychain_case(tally, f"rows {counts} order {order}", relations, [(0, 1, 2, 3, 4)], {i: tables[i] for i in order})
        for names in itertools.product(("", "a", "R" * 64), repeat=2):
            keychain_case(tally, f"names {names}", ref.SCHEMA + [(0xb, "first" + names[0], columns), (0xc, "second" + names[1], [])], [], {0xb: [[1, "x"]]})


# ------------------------------------------------------------ Safari cookies

COOKIE_FIELDS = {"Signature", "Number of pages", "Number of records", "Size", "Unknown1", "Flags", "Unknown2", "URL offset", "Name offset",
                 "Path offset", "Value offset", "Unknown3", "Expiration time", "Creation time", "URL", "Name", "Path", "Value"}
COOKIE_FIELDS |= {f"Page: {i} size" for i in range(8)} | {f"Record: {i} offset" for i in range(8)}


def do_safari(tally, part):
    def run(label, pages, **options):
        blob, expected = ref.cookies(pages, **options)
        fidelity.text_case(tally, "safari", label, safari_cookies.BinaryCookiesFile, blob, expected, COOKIE_FIELDS, also_plain=True)

    if part == "fields":
        strings = (None, b"", b"a", b"text with spaces", b"z" * 400)
        for key in ("url", "name", "path", "value"):
            for string in strings:
                run(f"{key}={string!r:.20}", [[ref.cookie(**{key: string}), ref.cookie()]])
        for combo in itertools.product((None, b"s"), repeat=4):
            run(f"stored {combo}", [[ref.cookie(*combo)]])
        for order in itertools.permutations(range(4)):
            run(f"order {order}", [[ref.cookie(url=b"abc", name=b"de", path=b"f", value=b"ghij", order=order, gap=b"\0" * (order[0] % 2))]])
        for flags in (0, 1, 4, 5, 0x80000000, 0xffffffff, 0x01020304):
            run(f"flags {flags:x}", [[ref.cookie(flags=flags)]])
        for position in range(3):
            for value in (0, 1, 0x01020304, 0x80000000, 0xffffffff) + ((0x0102030405060708, 2**64 - 1) if position == 2 else ()):
                unknown = [1, 2, 3]
                unknown[position] = value
                run(f"unknown {position} {value:x}", [[ref.cookie(unknown=tuple(unknown))]])
        times = (0.0, 1.0, -1.0, 0.5, 1e9, -9e8, 2.5e11, 1e15, -1e15, float("inf"), float("-inf"), 4102444800.25, 123456789.0)
        for expires, created in itertools.product(times, repeat=2):
            run(f"times {expires} {created}", [[ref.cookie(expires=expires, created=created)]])
    else:
        kinds = [ref.cookie(), ref.cookie(url=b"other", name=None, flags=9), ref.cookie(value=b"w" * 50)]
        for counts in itertools.chain.from_iterable(itertools.product(range(4), repeat=n) for n in range(0, part[1] + 1)):
            run(f"pages {counts}", [[kinds[(p + i) % 3] for i in range(c)] for p, c in enumerate(counts)])
        for gap in (b"", b"\0", b"gap " * 4):
            run(f"gap {len(gap)}", [[kinds[0], kinds[1]], [kinds[2]]], gap=gap)
        for trailer in (b"", b"bplist00" * 3):
            run(f"trailer {len(trailer)}", [[kinds[0]]], trailer=trailer)


# ------------------------------------------------------------ alias

ALIAS2 = Table(">", "type:H:Alias type:d", "volume:28:Volume name:dump", "created:I:Volume creation date and time:hfs", "fs:2:File system type:dump",
               "disk:2:Disk type:dump", "parent:I:Parent file system identifier:d", "name:64:Target name:dump", "target:I:Target file system identifier:d",
               "time:I:Target creation date and time:hfs")
ALIAS3 = Table(">", "type:H:Alias type:d", "created:Q:Volume creation date and time:hfs64", "fs:4:File system type:dump", "disk:H:Disk type:d",
               "parent:I:Parent file system identifier:d", "target:I:Target file system identifier:d", "time:Q:Target creation date and time:hfs64",
               "flags:I:Volume flags:x4", "unknown:14:Unknown1:dump", hfs64=ref.hfs64)
ALIAS_FIELDS = {"Application information", "Record size", "Format version", "Value tag", "Value data size", "Value data", "Integers",
                "Number of characters", "String"} | {d for t in (ALIAS2, ALIAS3) for _, _, d, _, _ in t.fields if d}


def do_alias(tally, part):
    tables = {2: ALIAS2, 3: ALIAS3}
    # The version 2 record is followed by fields the reader does not report.
    tail = {2: b"", 3: b""}

    def run(label, version, record, values):
        table = tables[version]
        packed = table.pack(record) + tail[version]
        blob, expected = ref.alias(version, (packed, table.expect(record)), values)
        fidelity.text_case(tally, "alias", label, alias_data.MacOSLoginItemAliasData, blob, expected, ALIAS_FIELDS)

    tail[2] = b"\0" * (142 - ALIAS2.size)

    def start(version, first):
        base = tables[version].base(first)
        if version == 3:
            base["created"] = base["time"] = 0x51000000 * 65536 + 123
        return base
    times = (0, 1, 65535, 65536, 65536 * 3600 + 500, 0xffffffff * 65536 + 65535, 0x80000000 * 65536)
    if part == "record":
        for version, table in tables.items():
            base = start(version, 1)
            for label, values in table.variants(base, skip=("created", "time") if version == 3 else ()):
                run(f"v{version} {label}", version, values, [])
            if version == 3:
                for key, value in itertools.product(("created", "time"), times):
                    run(f"v3 {key}={value}", version, {**base, key: value}, [])
        return
    options = []
    for tag in (0, 2, 6, 0x12, 0x13):
        options += [(tag, s) for s in ("a", "ab", "/Applications/T\u00e9st", "x" * 255)]
    for tag in (0xe, 0xf):
        options += [(tag, s) for s in ("a", "ab", "T\u00e9st \u4e2d", "x" * 100)]
    options += [(1, v) for v in ([0], [1, 2], [0xffffffff, 0x80000000, 0x01020304])]
    options += [(t, d) for t in (3, 4, 5, 7, 9, 0xa, 0x10, 0x11, 0x14, 0x15, 0x7fff, 0xffff) for d in (b"\x01", b"\x00\xff", b"odd", bytes(range(40)))]
    if part == "values":
        for version in (2, 3):
            for tag, payload in options:
                run(f"v{version} tag {tag:x} {payload!r:.20}", version, start(version, 1), [ref.alias_value(tag, payload), ref.alias_value(3, b"zz")])
    else:
        kinds = [(0, "odd"), (0xe, "utf16"), (1, [7, 8]), (9, b"\x01\x02\x03")]
        for length in range(0, 4):
            for combo in itertools.product(kinds, repeat=length):
                for version in (2, 3):
                    run(f"v{version} {combo}", version, start(version, 3), [ref.alias_value(*c) for c in combo])


# ------------------------------------------------------------ bookmark

BOOKMARK_FIELDS = {"Signature", "Size", "Unknown1", "Data area offset", "Unknown3", "Data area size", "Entries data size", "Identifier",
                   "Next TOC offset", "Number of tagged values", "Value tag", "Data size", "Data type", "String", "Integer", "Integers",
                   "Floating point", "Data", "Cocoa timestamp", "Path", "Integers array", "Flags", "Valid flags bitmask", "Unknown"}


def do_bookmark(tally, part):
    def run(label, entries, **options):
        blob, expected, lines = ref.bookmark(entries, **options)
        fidelity.text_case(tally, "bookmark", label, bookmark_data.MacOSBackgroundItemBookmarkData, blob, expected, BOOKMARK_FIELDS, name="b.bookmark")
        path = core.put(core.scratch(), "b.bookmark", blob)

        def table():
            writer = core.Writer()
            reader = bookmark_data.MacOSBackgroundItemBookmarkData(debug=True, output_writer=writer)
            reader.Open(path)
            reader.Close()
            return [line for line in writer.text.split("\n") if line.startswith("\ttag: ")]
        fidelity.value_case(tally, "bookmark", f"{label} table of contents", table, lines, blob)

    strings = ("a", "Applications", "T\u00e9st \u4e2d", "y" * 300)
    integers = {0x301: (0, 1, -1, 127, -128), 0x302: (0, -1, 0x7fff, -0x8000, 0x0102), 0x303: (0, -1, 0x7fffffff, -0x80000000, 0x01020304),
                0x304: (0, -1, 2**63 - 1, -2**63, 0x0102030405060708)}
    flags = [struct.pack("<3Q", *f) for f in ((1, 2, 3), (0, 0, 0), (2**64 - 1, 2**63, 0x0102030405060708))]
    if part == "values":
        options = [(0x101, s) for s in strings] + [(k, v) for k, vs in integers.items() for v in vs]
        options += [(0x305, v) for v in (0.0, -1.5, 1024.25)] + [(0x306, v) for v in (0.0, -1.5, 1e10, 0.125)]
        options += [(0x400, v) for v in (0.0, 4e8, -1.5)] + [(0x601, v) for v in ([1], [1, 2, 0xffffffff])]
        options += [(k, v) for k in (0x201, 0x500, 0x501, 0x701, 0x801, 0xffffffff) for v in (b"\x01", b"data", bytes(range(100)))]
        for tag in (0x2000, 0x1020, 0xf017):
            for kind, value in options:
                run(f"tag {tag:x} type {kind:x} {value!r:.20}", [(tag, kind, value, 0), (0x2010, 0x303, 5, 0x80000001)])
        for tag, f in itertools.product((0x1010, 0x2020), flags):
            run(f"flags {tag:x}", [(tag, 0x201, f, 0), (tag, 0x201, f + b"more", 0)])
        for signature in (b"book", b"alis"):
            run(f"signature {signature}", [(0x2000, 0x101, "x", 1)], signature=signature, unknown=bytes(range(32)), identifier=0x01020304)
    else:
        for count in range(1, 4):
            for combo in itertools.product(strings[:3], repeat=count):
                run(f"path {combo}", [(0x1004, 0x601, [(0x101, s) for s in combo], 0)])
            for combo in itertools.product(((0x303, 5), (0x304, -2**40), (0x301, -1)), repeat=count):
                run(f"integers {combo}", [(0x1005, 0x601, list(combo), 0)])
        kinds = [(0x1004, 0x601, [(0x101, "Users"), (0x101, "me")], 1), (0x1005, 0x601, [(0x304, 77), (0x303, 78)], 2), (0x1040, 0x400, 1.5, 3),
                 (0x2000, 0x101, "volume", 4), (0x1010, 0x201, flags[0], 5)]
        for length in range(1, 4):
            for combo in itertools.product(kinds, repeat=length):
                run("entries", list(combo), gap=b"gap!" if length == 2 else b"")


# ------------------------------------------------------------ TZif

TZIF_FIELDS = {"Signature", "Format version", "Unknown1", "Number of UTC time indicators", "Number of standard time indicators",
               "Number of leap seconds", "Number of transition times", "Number of local time types", "Time zone abbreviation strings size",
               "Local time types table data", "Timezeone abbreviation strings data", "Leap second records data", "Standard time indicators data",
               "UTC time indicators data", "Time zone string"}
TZIF_FIELDS |= {f"{n}: {i}" for n in ("Transition time", "Type of local time") for i in range(300)}


def tzif_body(width, transitions, types=1, abbreviations=b"UTC\0", leaps=0, standard=1, utc=1, **more):
    return dict(transitions=transitions, types=bytes(range(1, 1 + 6 * types)), abbreviations=abbreviations,
                leaps=bytes(i & 0x7f for i in range(leaps * (width + 4))), standard=b"\1" * standard, utc=b"\0" * utc, **more)


def do_tzif(tally, part):
    def run(label, version, first, second=None, footer=b""):
        blob, expected = ref.tzif(version, first, second, footer)
        fidelity.text_case(tally, "tzif", label, tzif.TimeZoneInformationFile, blob, expected, TZIF_FIELDS)

    edges = {4: (0, 1, -1, 0x7fffffff, -0x80000000, 0x01020304), 8: (0, -1, 2**63 - 1, -2**63, 0x0102030405060708)}
    if part == "values":
        for value, index in itertools.product(edges[4], (0, 1, 127, 128, 255)):
            run(f"v1 {value} {index}", 0, tzif_body(4, [(value, index), (7, 1)]))
        for version in (0x32, 0x33):
            for value, index in itertools.product(edges[8], (0, 255)):
                run(f"v{version:x} {value}", version, tzif_body(4, [(5, 2)]), tzif_body(8, [(value, index), (9, 3)]), b"\nUTC0\n")
        run("reserved", 0, tzif_body(4, [], reserved=bytes(range(15))))
    else:
        for counts in itertools.product((0, 1, 3), repeat=4):
            transitions, leaps, standard, utc = counts
            for types, size in ((1, 4), (2, 8), (3, 0)):
                moves = [(i * 1000 - 500, i) for i in range(transitions)]
                wide = [(i * 100000000000 - 5, i) for i in range(transitions + 1)]
                first = tzif_body(4, moves, types, bytes(range(65, 65 + size)), leaps, standard, utc)
                run(f"v1 {counts} {types} {size}", 0, first)
                for empty in (False, True):
                    narrow = tzif_body(4, [], 1, b"\0", 0, 0, 0) if empty else first
                    second = tzif_body(8, wide, types, bytes(range(65, 65 + size)), leaps, standard, utc)
                    run(f"v2 {counts} {types} {size} {empty}", 0x32, narrow, second, b"\nEST5EDT,M3.2.0,M11.1.0\n")
                    run(f"v2 {counts} {types} {size} {empty} reversed", 0x33, second | {"leaps": first["leaps"], "transitions": moves},
                        dict(narrow, leaps=second["leaps"]), b"\n\n")


# ------------------------------------------------------------ Spotlight

def observe_store(files, identifiers, debug):
    directory = core.fresh_dir("s")
    try:
        for name, data in files.items():
            core.put(directory, name, data)
        reader = spotlight_storedb.SpotlightStoreDatabaseFile(debug=debug, output_writer=core.Writer() if debug else None)
        reader.Open(directory + "/store.db")
        result = [reader.number_of_metadata_items]
        for identifier in identifiers:
            item = reader.GetMetadataItemByIdentifier(identifier)
            if item is None:
                result.append(None)
                continue
            result.append((item.identifier, item.item_identifier, item.parent_identifier, item.last_update_time,
                           [(k, a.key, a.property_type, a.value_type, a.value) for k, a in item.attributes.items()]))
        reader.Close()
        return result
    finally:
        core.cleanup(directory)


def store_case(tally, label, types, records, how=("zlib",), values=None, lists=None, localized=None, split=1, **options):
    """records: [(identifier, item, parent, updated, [(type index, stored value)])]."""
    values, lists, localized = values or {1: "one"}, lists or {1: [1]}, localized or {1: [1]}

    def resolve(kind, prop, value):
        if kind != 0xf:
            return store.attribute(kind, prop, value)
        if prop & 3 == 3:
            shown = [values.get(i, "") for i in localized.get(value, [])]
            shown = shown[0].split("\x16\x02")[0] if shown else "(null)"
        elif prop & 3 == 2:
            shown = [values.get(i, "") for i in lists.get(value, [])]
        else:
            shown = values.get(value, "(null)")
        return store.varint(value), shown

    encoded, expected = [], [len(records)]
    for identifier, item, parent, updated, attributes in records:
        raw, shown = [], []
        for index, value in attributes:
            kind, prop, key = types[index]
            data, text = resolve(kind, prop, value)
            raw.append((index, data))
            shown.append((key, key, prop, kind, text))
        encoded.append(store.record(identifier, item, parent, updated, raw, flags=identifier & 0x7f))
        expected.append((identifier, item, parent, updated, shown))
    share = -(-len(encoded) // split) or 1
    pages = [(how[n % len(how)], b"".join(encoded[n * share:(n + 1) * share])) for n in range(split) if encoded[n * share:(n + 1) * share]]
    files = store.store(types, values, lists, localized, pages, **options)
    identifiers = [r[0] for r in records] + [0xfffffff0]
    expected.append(None)
    for debug in (False, True):
        fidelity.value_case(tally, "spotlight", f"{label} debug={debug}", lambda: observe_store(files, identifiers, debug), expected,
                            files["store.db"][-3000:], count=len(records), seen=("spotlight", label))


INTEGERS = [0, 1, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0x7ffffffff, 0x800000000, 2**40 - 1, 2**40, 2**48, 2**56 - 1, 2**56, 2**64 - 1]
ATTRIBUTES = [(0, 0, v) for v in (0, 1, 0x80)] + [(2, 0, 5), (6, 0, 0x4000)] + [(7, 0, v) for v in INTEGERS]
ATTRIBUTES += [(7, 2, v) for v in ([1], [0, 0x80, 0x4000], INTEGERS, list(range(130)))]
ATTRIBUTES += [(8, 0, 0), (8, 0, 255), (8, 2, [1, 2, 255]), (9, 0, 1.5), (9, 2, [0.5, -2.0]), (0xa, 0, 1e100), (0xa, 2, [0.25, -1e9, 3.0]), (0xc, 0, 4e8), (0xc, 2, [0.0, 1.5])]
ATTRIBUTES += [(0xb, 0, ["text"]), (0xb, 1, ["caf\u00e9"]), (0xb, 2, ["a", "", "ccc"]), (0xb, 3, ["base\x16\x02en"]), (0xb, 3, ["plain", "two"]), (0xb, 0, ["x" * 200])]
ATTRIBUTES += [(0xe, 0, b"\x01"), (0xe, 0, bytes(range(200))), (0xf, 0, 1), (0xf, 0, 99), (0xf, 1, 2), (0xf, 2, 1), (0xf, 2, 2), (0xf, 3, 1), (0xf, 3, 2), (0xf, 3, 99)]
VALUE_TABLE = {1: "one", 2: "two\x16\x02en", 3: "caf\u00e9", 300: "far"}
LISTS = {1: [1], 2: [3, 1, 300, 77], 3: [2, 2]}
LOCAL = {1: [2, 1], 2: [3]}
TABLES = dict(values=VALUE_TABLE, lists=LISTS, localized=LOCAL)


def do_spotlight(tally, part):
    if part[0] == "values":
        for kind, prop, value in ATTRIBUTES:
            types = {5: (7, 0, "before"), 6: (kind, prop, "kMDItemThis"), 200: (0xb, 0, "after")}
            for attributes in ([(6, value)], [(5, 1), (6, value), (200, ["end"])], [(5, 300), (6, value)]):
                store_case(tally, f"type {kind:x} {prop} {value!r:.30} {len(attributes)}", types,
                           [(1, 0, 0, 0, []), (20, 21, 22, 1600000000000000, attributes), (30, 1, 2, 3, [(5, 9)])], **TABLES)
        for number, fields in itertools.product(INTEGERS, range(4)):
            record = [7, 8, 9, 10]
            record[fields] = number
            store_case(tally, f"header {fields} {number}", {5: (7, 0, "k")}, [tuple(record) + ([(5, 1)],)])
    elif part[0] == "layout":
        types = {i: (7, 0, f"k{i}") for i in (1, 2, 3, 127, 128, 129, 16384 + 129)}
        records = [(i + 2, i, 1, i * 1000, [(t, i + t) for t in types if (i >> t % 3) & 1 or t == 1]) for i in range(12)]
        for how in ("plain", "zlib", "lz4", "lz4raw", "lz4many"):
            for split in (1, 2, 3, 5):
                for per_page in (1, 2, 100):
                    for maps in (1, 2, 3):
                        store_case(tally, f"{how} {split} {per_page} {maps}", types, records, how=(how,), split=split, per_page=per_page, map_pages=maps,
                                   reverse=maps == 2, **TABLES)
        for mix in itertools.permutations(("plain", "zlib", "lz4", "lz4many"), 3):
            store_case(tally, f"mix {mix}", types, records, how=mix, split=3, **TABLES)
        store_case(tally, "no records", types, [], **TABLES)
        big = [(i + 2, i, 1, i, [(1, i)]) for i in range(900)]
        store_case(tally, "many records", types, big, how=("plain",), split=2)
        for padding in range(4):
            store_case(tally, f"padding {padding}", {5: (0xf, 2, "list"), 6: (0xf, 3, "local")}, [(9, 1, 1, 1, [(5, 2), (6, 1)])], padding=padding, **TABLES)
    else:
        types = {1: (0xf, 2, "list"), 2: (0xf, 3, "local"), 3: (0xf, 0, "value"), 5: (7, 0, "number")}
        for picks in itertools.product((1, 2, 3), (1, 2), (1, 2, 3, 300, 4)):
            for padding in range(3):
                store_case(tally, f"streams {picks} {padding}", types, [(9, 1, 1, 1, list(zip((1, 2, 3, 5), picks + (44,))))], streams=True, padding=padding, **TABLES)


def tasks(thorough):
    for part in ("values", "layout", "relations"):
        yield do_keychain, part
    yield do_safari, "fields"
    yield do_safari, ("pages", 4 if thorough else 3)
    for part in ("record", "values", "sequence"):
        yield do_alias, part
    for part in ("values", "arrays"):
        yield do_bookmark, part
    for part in ("values", "counts"):
        yield do_tzif, part
    for part in ("values", "layout", "streams"):
        yield do_spotlight, (part,)


def work(tally, task):
    task[0](tally, task[1])


def main(run):
    run.explore(work, tasks(run.thorough))
    run.bounds = {"keychain": "every attribute type at its boundary values, all NULL patterns of 3 columns, all value orders, unused slots, <=3 relations x <=2 rows",
                  "safari": "<=3 pages of <=3 cookies (thorough 4), all 24 string orders, all 16 stored/absent string patterns, 13x13 times",
                  "alias": "both versions, every field at its boundary values, sequences of <=3 tagged values of 4 kinds",
                  "bookmark": "every record type at its boundary values, all tables of <=3 entries of 5 kinds, arrays of <=3 members",
                  "tzif": "versions 1, 2 and 3, all count vectors over {0,1,3}^4 x 3 type tables",
                  "spotlight": "every value type, 18 integer sizes, 5 page encodings x 4 splits x 3 table splits x 3 map splits, streams maps"}
    run.rule = "the reported tables, records, properties or text equal those the independent encoder stored"
    run.assumptions = ["cookie and keychain strings are ASCII", "text-only readers are observed through their debug output"]
    run.tally.n["states"] = len(run.tally.nontrivial)
