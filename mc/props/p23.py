"""P23: only the supported formats are accepted: every other value of every identifying field is a parse error."""
import itertools
import os

from mc import core, zoo
from mc.fmt import unixlogs

# kind: [(sample, offset or signature to look for, size, byte order, accepted values, name)]; a field of which accepted is None
# repeats what is known from elsewhere (a copy of a size, the size of the file): only its own value is right.
FIELDS = {
    "utmpx": [("A", 0, 11, "big", None, "signature"), ("A", 296, 2, "little", (10,), "type of the header entry"),
              ("B", 0, 11, "big", None, "signature"), ("B", 296, 2, "little", (10,), "type of the header entry")],
    "asl": [("A", 0, 12, "big", None, "signature"), ("B", 0, 12, "big", None, "signature")],
    "bsm": [("A", 0, 1, "big", (0x14, 0x15, 0x74, 0x79), "first token"), ("A", 1, 4, "big", None, "record size"), ("A", 5, 1, "big", (11,), "format version"),
            ("A", 24, 2, "big", (0xb105,), "trailer signature"), ("A", 26, 4, "big", None, "copy of record size"),
            ("B", 5, 1, "big", (11,), "format version"), ("B", 100, 2, "big", (0xb105,), "trailer signature"), ("B", 102, 4, "big", None, "copy of record size"),
            ("B", 106, 1, "big", (0x14, 0x15, 0x74, 0x79), "first token of the next record"), ("B", 111, 1, "big", (11,), "format version of the next record")],
    "systemd": [("A", 0, 8, "big", None, "signature"), ("A", 88, 8, "little", (208, 224, 240), "header size"), ("A", 208, 1, "big", (6,), "entry array type"),
                ("A", 209, 1, "big", (0,), "entry array flags"), ("A", 240, 1, "big", (1,), "data type"), ("A", 241, 1, "big", (0, 1, 2), "data flags"),
                ("A", 320, 1, "big", (3,), "entry type"), ("A", 321, 1, "big", (0,), "entry flags"), ("B", 0, 8, "big", None, "signature"),
                ("B", 240, 1, "big", (6,), "entry array type"), ("B", 241, 1, "big", (0,), "entry array flags"), ("B", 280, 1, "big", (6,), "next entry array type"),
                ("B", 281, 1, "big", (0,), "next entry array flags")],
    "cups_ipp": [("A", 8, 1, "big", (1, 2, 3, 4, 5), "delimiter tag"), ("A", 47, 1, "big", (3,), "end of attributes tag"), ("B", 8, 1, "big", (1, 2, 3, 4, 5), "delimiter tag"),
                 ("B", 64, 1, "big", (0, 1), "boolean"), ("B", 62, 2, "big", (1,), "size of a boolean"), ("B", 72, 2, "big", (11,), "size of a date and time"),
                 ("B", 82, 1, "big", (0x2b, 0x2d), "direction from UTC"), ("C", 51, 1, "big", (3,), "end of attributes tag")],
    "cpio": [("bin-big-endian", 0, 2, "big", (0x71c7, 0xc771), "signature"), ("bin-little-endian", 0, 2, "big", (0x71c7, 0xc771), "signature"),
             ("newc", 0, 6, "big", (0x303730373031, 0x303730373032, 0x303730373037), "signature"), ("crc", 0, 6, "big", (0x303730373031, 0x303730373032, 0x303730373037), "signature"),
             ("odc", 0, 6, "big", (0x303730373031, 0x303730373032, 0x303730373037), "signature")],
    "gzip": [("A", 0, 2, "big", None, "signature"), ("A", 2, 1, "big", (8,), "compression method"), ("B", 0, 2, "big", None, "signature"),
             ("B", 2, 1, "big", (8,), "compression method"), ("B", 54, 2, "big", None, "signature of the second member"), ("B", 56, 1, "big", (8,), "compression method of the second member")],
    "leveldb_log": [("A", 19, 1, "big", (0, 1), "value type"), ("B", 19, 1, "big", (0, 1), "value type")],
    "leveldb_descriptor": [("A", 7, 1, "big", (1, 2, 3, 4, 5, 6, 7, 9) + tuple(range(128, 256)), "value tag"), ("A", 35, 1, "big", (1, 2, 3, 4, 5, 6, 7, 9) + tuple(range(128, 256)), "value tag"),
                           ("B", 10, 1, "big", (1, 2, 3, 4, 5, 6, 7, 9) + tuple(range(128, 256)), "value tag"), ("B", 44, 1, "big", (1, 2, 3, 4, 5, 6, 7, 9) + tuple(range(128, 256)), "value tag")],
    "leveldb_table": [("A", -8, 8, "big", None, "signature"), ("A", 38, 1, "big", (0, 1, 2), "compression"), ("B", -8, 8, "big", None, "signature"), ("C", -8, 8, "big", None, "signature")],
    "indexeddb": [("A", -8, 8, "big", None, "signature"), ("B", -8, 8, "big", None, "signature")],
    "chrome_index": [(s, o, n, "little", a, d) for s in "AB" for o, n, a, d in ((0, 4, (0xc103cac3,), "signature"), (4, 2, (0, 1), "minor version"), (6, 2, (2,), "major version"))],
    "chrome_block": [(s, o, n, "little", a, d) for s in "AB" for o, n, a, d in ((0, 4, (0xc104cac3,), "signature"), (4, 2, (0, 1), "minor version"), (6, 2, (2,), "major version"))],
    "firefox_map": [("A", 0, 2, "big", (1,), "major version"), ("A", 4, 4, "big", None, "data size"), ("B", 0, 2, "big", (1,), "major version"), ("B", 4, 4, "big", None, "data size")],
    "keychain": [("A", 0, 4, "big", None, "signature"), ("B", 0, 4, "big", None, "signature")],
    "safari_cookies": [("A", 0, 4, "big", None, "signature"), ("B", 0, 4, "big", None, "signature")],
    "alias_data": [(s, o, n, "big", a, d) for s in "23" for o, n, a, d in ((0, 4, (0,), "application information"), (4, 2, None, "record size"), (6, 2, (2, 3), "format version"))],
    "bookmark_data": [(s, o, n, "big", None, d) for s in "AB" for o, n, d in ((0, 4, "signature"), (4, 4, "file size"), (12, 4, "data area offset"))]
    + [("A", 72, 4, "little", (0xfffffffe,), "table of contents signature"), ("A", 80, 4, "little", (0,), "next table of contents")],
    "tzif": [("A", 0, 4, "big", None, "signature"), ("A", 4, 1, "big", (0, 0x32, 0x33), "format version"), ("B", 0, 4, "big", None, "signature"), ("B", 4, 1, "big", (0, 0x32, 0x33), "format version"),
             ("B", 61, 4, "big", None, "second signature"), ("B", 65, 1, "big", (0, 0x32, 0x33), "second format version")],
    "spotlight": [(s, 0, 4, "big", None, "signature") for s in ("plain", "zlib", "streams")] + [("plain", b"2pbd", 4, "big", None, "page signature"), ("zlib", b"2pbd", 4, "big", None, "page signature")],
    "recycle_bin": [(s, 0, 8, "little", (1, 2), "format version") for s in "12"],
    "recycler": [(s, 12, 4, "little", (280, 800), "entry size") for s in "ABD"],
    "rp_change_log": [(s, o, n, "little", a, d) for s in "ABC" for o, n, a, d in (
        (4, 4, (0,), "record type"), (8, 4, (0xabcdef12,), "signature"), (12, 4, (2,), "format version"), (20, 4, (2,), "volume path record type"), (32, 4, None, "copy of record size"))]
    + [("B", 40, 4, "little", (1,), "entry record type"), ("B", 44, 4, "little", (0xabcdef12,), "entry signature"), ("B", 123, 4, "little", None, "copy of entry record size"),
       ("B", 131, 4, "little", (1,), "second entry record type"), ("B", 135, 4, "little", (0xabcdef12,), "second entry signature"), ("B", -4, 4, "little", None, "copy of second entry record size")],
    "usn_journal": [(s, o, 2, "little", a, d) for s in "AB" for o, a, d in ((4, (2,), "major version"), (6, (0,), "minor version"))] + [("B", 164, 2, "little", (2,), "major version")],
    "detection_history": [("A", 4, 4, "little", (0, 5, 6, 8, 10, 21, 30, 40), "value type"), ("A", 20, 4, "little", (0, 5, 6, 8, 10, 21, 30, 40), "value type"),
                          ("B", 4, 4, "little", (0, 5, 6, 8, 10, 21, 30, 40), "value type"), ("B", 20, 4, "little", (0, 5, 6, 8, 10, 21, 30, 40), "value type")],
    "wmf": [("A", 0, 2, "little", (1, 2), "file type"), ("A", 2, 2, "little", (9,), "header size"), ("B", 22, 2, "little", (1, 2), "file type"), ("B", 24, 2, "little", (9,), "header size"),
            ("B", 0, 4, "big", None, "placeable signature")],
    "automatic_destinations": [("A", 512, 4, "little", (1, 2, 3, 4), "format version"), ("B", 512, 4, "little", (1, 2, 3, 4), "format version")],
    "custom_destinations": [("A", 0, 4, "little", (2,), "format version"), ("A", 12, 4, "little", (0, 1, 2), "category type"), ("A", 20, 16, "big", None, "shortcut identifier"),
                            ("A", 126, 4, "big", None, "category footer"), ("B", 0, 4, "little", (2,), "format version"), ("B", 12, 4, "little", (0, 1, 2), "category type"),
                            ("B", 28, 16, "big", None, "shortcut identifier"), ("B", 128, 16, "big", None, "second shortcut identifier"), ("B", -4, 4, "big", None, "category footer")],
    "wmi_mapping": [("A", 0, 4, "big", None, "signature"), ("A", -4, 4, "big", None, "footer signature")]
    + [("B", o, 4, "big", None, d) for o, d in ((0, "signature"), (80, "footer signature"), (84, "second signature"), (-4, "second footer signature"))],
    "cim_index_btr": [(s, 0, 4, "little", (0xaddd,), "type of the first page") for s in "AB"],
    "uuidtext": [(s, o, 4, "little", None, d) for s in "AB" for o, d in ((0, "signature"), (4, "major version"), (8, "minor version"))],
    "dsc": [("1", 0, 4, "big", None, "signature"), ("2", 0, 4, "big", None, "signature"), ("1", 4, 2, "little", (1, 2), "major version"), ("2", 4, 2, "little", (1, 2), "major version")],
    "timesync": [("A", 0, 2, "big", (0xb0bb, 0x5473), "record signature"), ("A", 48, 2, "big", (0xb0bb, 0x5473), "second record signature"),
                 ("B", 0, 2, "big", (0xb0bb, 0x5473), "record signature"), ("B", 48, 2, "big", (0xb0bb, 0x5473), "second record signature"), ("B", 112, 2, "big", (0xb0bb, 0x5473), "later record signature")],
    "tracev3": [(s, o, 4, "little", (v,), "header sub chunk tag") for s in "AB" for o, v in ((56, 0x6100), (72, 0x6101), (136, 0x6102), (168, 0x6103))],
}


def values(base, size, full):
    """Every value that differs from base in one byte; all values of a field of 2 bytes when full; all pairs of bytes from a small alphabet."""
    out = set()
    for index in range(size):
        for value in range(256):
            out.add(base[:index] + bytes([value]) + base[index + 1:])
    for value in (b"\0" * size, b"\xff" * size, base[::-1], b" " * size, base[1:] + base[:1], base[-1:] + base[:-1], base.swapcase()):
        out.add(value)
    for first, second in itertools.combinations(range(size), 2):
        for a, b in itertools.product((0, 1, 2, 0x7f, 0xff), repeat=2):
            value = bytearray(base)
            value[first], value[second] = a, b
            out.add(bytes(value))
    if full and size == 2:
        out.update(a + b for a, b in itertools.product([bytes([v]) for v in range(256)], repeat=2))
    return sorted(out)


def explore(tally, argument):
    name, sample, where, size, order, accepted, label, full = argument
    kind = zoo.KINDS[name]
    files = kind.samples[sample]
    file = next(iter(files))
    blob = files[file]
    offset = blob.index(where) if isinstance(where, bytes) else where if where >= 0 else len(blob) + where
    base = blob[offset:offset + size]
    if accepted is not None and int.from_bytes(base, order) not in accepted:
        raise ValueError(f"{name} {sample} {label}: the sample has {base.hex()}")
    root = core.fresh_dir("p23")
    try:
        path = kind.install(root, files)
        for debug in (False, True):
            outcome = zoo.fresh(kind, path, debug=debug)
            if outcome.error:
                tally.violate(f"{name}-sample", f"{name} {sample}: {outcome!r}", {"kind": name, "sample": sample})
                return
        for value in values(base, size, full):
            if value == base or accepted is not None and int.from_bytes(value, order) in accepted:
                continue
            with open(path, "wb") as f:
                f.write(blob[:offset] + value + blob[offset + size:])
            for debug in (False, True):
                outcome = zoo.fresh(kind, path, debug=debug)
                tally.add("executions")
                tally.add("evaluations")
                tally.add("transitions")
                tally.seen((name, sample, offset, value))
                if outcome.error != "ParseError":
                    tally.violate(name, f"{name} {sample}: {label} at {offset} is {value.hex()} instead of {base.hex()}, debug={debug}: {outcome!r}",
                                  {"kind": name, "sample": sample, "offset": offset, "value": value.hex(), "file": blob[:2000]})
                    break
        tally.sample({"kind": name, "field": label, "accepted": accepted, "size": size})
    finally:
        core.cleanup(root)


def names(tally, _):
    """The block size of a Firefox cache file follows from its name: no other name is accepted."""
    kind = zoo.KINDS["firefox_block"]
    blob = kind.samples["A"]["_CACHE_001_"]
    root = core.fresh_dir("p23n")
    candidates = {f"_CACHE_00{d}_" for d in "0123456789"} | {"_CACHE_MAP_", "_CACHE_0001_", "CACHE_001", "_CACHE_001", "_CACHE_001_x", "x_CACHE_001_", "_cache_001_", "_CACHE_01_", "f.dat", "_CACHE_1_", "_CACHE_001_.bak"}
    for candidate in sorted(candidates):
        path = core.put(root, candidate, blob)
        outcome = zoo.fresh(kind, path)
        want = None if candidate in ("_CACHE_001_", "_CACHE_002_", "_CACHE_003_") else "ParseError"
        tally.add("executions")
        tally.add("evaluations")
        tally.add("transitions")
        tally.seen(("name", candidate))
        if outcome.error != want:
            tally.violate("firefox_block", f"firefox_block named {candidate!r}: {outcome!r}", {"name": candidate})
    core.cleanup(root)


def pages(tally, _):
    """The signature of each page of an FSEvents file."""
    kind = zoo.KINDS["fseventsd"]
    root = core.fresh_dir("p23f")
    for version in (1, 2):
        page = b"%dSLD" % version + b"\1\2\3\4" + (12 + 2 + 12 + (8 if version == 2 else 0)).to_bytes(4, "little")
        page += b"a\0" + (5).to_bytes(8, "little") + (1).to_bytes(4, "little") + ((7).to_bytes(8, "little") if version == 2 else b"")
        for prefix in (b"", page):
            for value in values(page[:4], 4, False):
                if value in (b"1SLD", b"2SLD"):
                    continue
                path = core.put(root, "f", unixlogs.gz(prefix + value + page[4:]))
                outcome = zoo.fresh(kind, path)
                tally.add("executions")
                tally.add("evaluations")
                tally.add("transitions")
                tally.seen(("page", version, bool(prefix), value))
                if outcome.error != "ParseError":
                    tally.violate("fseventsd", f"page signature {value!r}: {outcome!r}", {"value": value.hex()})
                    break
            path = core.put(root, "f", unixlogs.gz(prefix + page))
            outcome = zoo.fresh(kind, path)
            if outcome.error:
                tally.violate("fseventsd", f"version {version}: {outcome!r}", {})
    core.cleanup(root)


def main(run):
    tasks = [(kind, *field, run.thorough) for kind, fields in FIELDS.items() for field in fields]
    run.explore(explore, tasks)
    run.explore(names, [0])
    run.explore(pages, [0])
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"readers": len(FIELDS) + 2, "fields": len(tasks), "values": "all 256 values of each byte with the other bytes kept, all pairs of bytes over {0, 1, 2, 0x7f, 0xff}, reversed, rotated, all zero, all ones"
                  + (", all 65536 values of the 2 byte fields" if run.thorough else "")}
    run.rule = "a file with any other value than the accepted ones in a signature, version, type tag or repeated size is reported with the parse error, with debug output off and on"
    run.assumptions = ["the accepted values are those of the format documentation and of the released readers"]
