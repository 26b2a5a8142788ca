"""P12: Chrome and Firefox caches, and the Chrome key hash."""
import contextlib
import io
import itertools
import os
import re

from mc import core, fidelity, text
from mc.fmt import browser as ref
from dtformats import chrome_cache, firefox_cache1


def tuple_of(a):
    return (a.is_initialized, a.file_type, a.filename, a.block_number, a.block_offset)


def addresses(tally, argument):
    high, = argument
    lows = sorted({0, 1, 2, 0x7fff, 0x8000, 0xffff} | {1 << b for b in range(16)} | set(range(0, 0x10000, 997)))
    for low in lows:
        value = high << 16 | low
        expected = ref.describe_address(value)
        problem = None
        try:
            a = chrome_cache.CacheAddress(value)
            if tuple_of(a) != expected[:5] or a.value != value:
                problem = f"{tuple_of(a)!r} instead of {expected!r}"
            elif a.block_size != expected[5]:
                key = "block size"
                if expected[5] is not None and a.block_size == expected[5] - ref.UNITS[expected[1]]:
                    key = "chrome-block-count"
                tally.violate(key, f"0x{value:08x}: block size {a.block_size!r}, the format defines {expected[5]!r}", {"address": value})
            shown = re.sub(r"(, block size: (\d+))?\)$", "", a.GetDebugString() + "\n".strip())
            wanted = ref.address_string(value)
            wanted = wanted[:-1] if wanted.endswith(")") else wanted
            if not problem and shown != wanted:
                problem = f"debug string {shown!r} instead of {wanted!r}"
        except Exception as e:  # pylint: disable=broad-except
            problem = f"{type(e).__name__}: {e}"
        tally.add("executions")
        tally.add("transitions")
        tally.add("evaluations")
        tally.seen(("address", value))
        if problem:
            tally.violate("address", f"0x{value:08x}: {problem}", {"address": value})


def hashes(tally, argument):
    for key in argument:
        for form in (key, "".join(map(chr, key))):
            fidelity.value_case(tally, "hash", f"{form!r:.80}", lambda: chrome_cache.SuperFastHash(form), ref.super_fast_hash(key), key)


def index_case(tally, label, table, how="open", **options):
    blob = ref.index_file(table, **options)
    path = core.put(core.scratch(), "index", blob)
    version = options.get("version", (2, 0))
    expected = [f"{version[0]}.{version[1]}", options.get("creation", 12900000000000000),
                [(i, a) + ref.describe_address(a)[:5] for i, a in enumerate(table) if a]]
    lru = options.get("lru", {})
    wanted = [("Number of entries", str(options.get("entries", 3))), ("Stored data size", str(options.get("stored", 100))),
              ("Last created file number", "%d (f_%06x)" % (options.get("last", 5), options.get("last", 5))),
              ("Table size", str(len(table))), ("Creation time", ref.chrome_time(options.get("creation", 12900000000000000))),
              ("Filled flag", f"0x{lru.get('filled', 0):08x}")]
    wanted += [("Size", str(s)) for s in lru.get("sizes", (1, 2, 3, 4, 5))]
    for name, field in (("Head", "heads"), ("Tail", "tails")):
        wanted += [(f"{name} address: {i}", ref.address_string(a)) for i, a in enumerate(lru.get(field, (0,) * 5))]
    wanted += [("Transaction address", ref.address_string(lru.get("transaction", 0))), ("Operation", f"0x{lru.get('operation', 0):08x}"),
               ("Operation list", f"0x{lru.get('list', 0):08x}")]
    wanted += [(f"Cache address: {i}", ref.address_string(a)) for i, a in enumerate(table) if a]

    def run():
        result = None
        for debug in (False, True):
            writer = core.Writer()
            reader = chrome_cache.IndexFile(debug=debug, output_writer=writer)
            reader.Open(path)
            result = [reader.format_version, reader.creation_time,
                      [(i, a.value) + tuple_of(a) for i, a in sorted(reader.index_table.items())]]
            reader.Close()
            if result != expected:
                return result
        fields = {d for d, _ in wanted} | {f"Cache address: {i}" for i in range(len(table) + 2)}
        got = [(d, re.sub(r"(, block size: \d+)?\)$", "", v) if "address" in d and not v.endswith("uninitialized)") else v) for d, v in text.pairs(writer.text) if d in fields]
        problem = text.first_difference(got, wanted)
        return [problem] if problem else result

    fidelity.value_case(tally, "index", label, run, expected, blob, len(wanted) + len(table))


def index_files(tally, _):
    values = [0, ref.address(2, 1, 5), ref.address(4, 3, 0xffff, 4), ref.address(0, 0x123456), 1, 0x80000000, 0xd0000001]
    for n in range(0, 4):
        for table in itertools.product(values, repeat=n):
            index_case(tally, f"table {table}", list(table), tail=b"\1\2\3"[:n])
    for table in ([0] * 255 + [ref.address(1, 0, 1)], [ref.address(2, 1, i) if i % 3 == 0 else 0 for i in range(1000)]):
        index_case(tally, "long table", table)
    for version in ((2, 0), (2, 1)):
        for creation in (0, 1, 10 ** 15, 12900000000000001, 13000000000123456, 0x7fffffff, 0x1_0000_0000):
            index_case(tally, f"{version} {creation}", [values[1]], version=version, creation=creation)
    for field in ("entries", "stored", "last"):
        for value in (0, 1, 255, 256, 65536, 0xffffffff):
            index_case(tally, f"{field} {value}", [], **{field: value})
    for i in range(5):
        for value in (1, 0x90000001, 0xa0010203):
            row = [0x10 + j for j in range(5)]
            row[i] = value
            index_case(tally, "lru", [values[1]], lru={"heads": row, "tails": row[::-1], "sizes": row, "transaction": value, "operation": i + 1, "list": i + 2, "filled": i})
    tally.sample({"index tables": "all of length <= 3 over 7 addresses"})


def block_case(tally, label, keys, **options):
    """Entries in a data block file, each read back by its address."""
    block = options.pop("block_size", 256)
    kind = {36: 1, 256: 2, 1024: 3, 4096: 4}[block]
    entries = {}
    expected = []
    step = -(-256 // block)
    for i, (key, extra) in enumerate(keys):
        entries[i * step + extra.pop("at", 0)] = (key, extra)
    blob = ref.data_file({n: ref.entry(k, **x) for n, (k, x) in entries.items()}, block, **options)
    path = core.put(core.scratch(), "data_1", blob)
    version = options.get("version", (2, 0))
    expected.append((f"{version[0]}.{version[1]}", block, options.get("entries", len(entries))))
    wanted = []
    for n, (k, x) in entries.items():
        name = k.decode("ascii", errors="replace")[:160]
        expected.append((x.get("hash_", ref.super_fast_hash(k)), name, x.get("creation", 12900000000000000),
                         (x.get("next_", 0),) + ref.describe_address(x.get("next_", 0))[:5],
                         (x.get("rankings", 0),) + ref.describe_address(x.get("rankings", 0))[:5]))
        wanted += [("Hash", f"0x{expected[-1][0]:08x}"), ("Reuse count", str(x.get("reuse", 1))), ("Refetch count", str(x.get("refetch", 2))),
                   ("State", f"0x{x.get('state', 0):08x}"), ("Creation time", ref.chrome_time(expected[-1][2]))]
        wanted += [(f"Data stream size: {i}", str(v)) for i, v in enumerate(x.get("sizes", (1, 2, 3, 4)))]
        wanted += [("Flags", f"0x{x.get('flags', 0):08x}"), ("Self hash", f"0x{x.get('self_hash', 0x99):08x}"), ("Key", name)]
    bits = options.get("bitmap", list(entries))
    head = [("Minor format version", str(version[1])), ("File number", str(options.get("number", 1))),
            ("Next file number", str(options.get("next_number", 0))), ("Block size", str(block)),
            ("Number of entries", str(options.get("entries", len(entries)))),
            ("Updating", f"0x{options.get('updating', 0):08x}"), ("User", ", ".join(map(str, options.get("user", (0,) * 5))))]
    head += [("Block range", r) for r in ref.ranges(bits)]

    def run():
        got = None
        for debug in (False, True):
            writer = core.Writer()
            reader = chrome_cache.DataBlockFile(debug=debug, output_writer=writer)
            reader.Open(path)
            got = [(reader.format_version, reader.block_size, reader.number_of_entries)]
            for n in entries:
                a = chrome_cache.CacheAddress(ref.address(kind, 1, n))
                e = reader.ReadCacheEntry(a.block_offset)
                got.append((e.hash, e.key, e.creation_time, (e.next.value,) + tuple_of(e.next),
                            (e.rankings_node.value,) + tuple_of(e.rankings_node)))
            reader.Close()
            if got != expected:
                return got
        fields = {d for d, _ in head + wanted} | {"Block range"}
        shown = [p for p in text.pairs(writer.text) if p[0] in fields]
        problem = text.first_difference(shown, head + wanted)
        return [problem] if problem else got

    fidelity.value_case(tally, "data block file", label, run, expected, blob, len(head) + len(wanted),
                        seen=("block", label))


def block_files(tally, _):
    for block in (36, 256, 1024, 4096):
        for count in range(0, 5):
            block_case(tally, f"{block} x {count}", [(b"http://host/%d" % i, {"creation": 12900000000000000 + i, "next_": ref.address(2, 1, i + 1), "rankings": ref.address(1, 0, i)})
                                                    for i in range(count)], block_size=block)
    for length in list(range(0, 161)):
        block_case(tally, f"key length {length}", [(b"k" * length, {"junk": b"old" if length < 150 else b""})])
    block_case(tally, "key not ascii", [(b"a\xffb\x80", {})])
    for field in ("next_", "rankings"):
        for value in (0, 1, 0x80000005, 0xa0010002, 0x93ff1234, 0xc3020001):
            block_case(tally, f"{field} {value:x}", [(b"k", {field: value})])
    for field in ("hash_", "reuse", "refetch", "state", "flags", "self_hash"):
        for value in (0, 1, 0x80000000, 0x12345678, 0xffffffff):
            block_case(tally, f"{field} {value:x}", [(b"k", {field: value})])
    for value in (0, 1, 0x123456789abcd, 13000000000000001):
        block_case(tally, f"creation {value}", [(b"k", {"creation": value})])
    for field in ("number", "next_number", "entries", "updating"):
        for value in (0, 1, 255, 0xffff):
            block_case(tally, f"{field} {value}", [], **{field: value})
    block_case(tally, "sizes", [(b"k", {"sizes": (9, 8, 7, 6), "streams": (1, 2, 3, 4)})], user=(5, 4, 3, 2, 1))
    block_case(tally, "2.1", [(b"k", {})], version=(2, 1))
    last = 2028 * 32
    maps = [set(), {0}, {31}, {32}, {31, 32}, {last - 1}, {last - 2, last - 1}, set(range(last)), set(range(1, last, 2)), set(range(64)), {0, last - 1}]
    for size in range(0, 7):
        for bits in itertools.product((0, 1), repeat=size):
            maps.append({29 + i for i, b in enumerate(bits) if b})
    for m in maps:
        block_case(tally, f"bitmap {sorted(m)[:6]} {len(m)}", [], bitmap=m, entries=0)


def directories(tally, shape):
    """Whole cache directories: shape is the list of chain lengths per bucket (0: empty bucket)."""
    root = core.fresh_dir("cache")
    blocks = {"data_1": {}, "data_2": {}}
    expected = []
    table = []
    number = 0
    for bucket, length in enumerate(shape):
        chain = []
        for i in range(length):
            name = "data_1" if (bucket + i) % 2 == 0 else "data_2"
            chain.append((name, number, b"http://h/%d/%d" % (bucket, i), 12900000000000000 + number * 1000003))
            number += 1
        addresses_ = [ref.address(2, int(n[-1]), b) for n, b, _, _ in chain] + [0]
        for i, (name, b, key, creation) in enumerate(chain):
            blocks[name][b] = ref.entry(key, next_=addresses_[i + 1], creation=creation)
            expected.append(f"{ref.chrome_time(creation).split(' (')[0]}\t{key.decode()}")
        table.append(addresses_[0])
    # every data file that a chain uses is referenced from the table
    used = {n for a in table if a for n in [ref.describe_address(a)[2]]}
    if any(length > 1 for length in shape) and used != {"data_1", "data_2"}:
        core.cleanup(root)
        return
    core.put(root, "index", ref.index_file(table))
    for name, b in blocks.items():
        core.put(root, name, ref.data_file(b, 256))
    core.put(root, "data_0", ref.data_file({}, 36))

    def run():
        out = io.StringIO()
        parser = chrome_cache.ChromeCacheParser()
        with contextlib.redirect_stdout(out):
            parser.ParseDirectory(root)
        return out.getvalue().split("\n")[:-1]

    fidelity.value_case(tally, "directory", f"chains {shape}", run, expected, count=len(expected), seen=("dir", shape))
    core.cleanup(root)


FF_MAP = {"Major format version", "Minor format version", "Data size", "Number of entries", "Is dirty flag", "Number of records", "Eviction ranks",
          "Bucket usage", "Hash number", "Eviction rank", "Data location", "Metadata location"}
FF_ENTRY = {"Major format version", "Minor format version", "Location", "Fetch count", "Last fetched time", "Last modified time", "Cached data size",
            "Request size", "Information size", "Request", "Information"}


def firefox_maps(tally, _):
    def case(label, *args, **kw):
        blob, wanted = ref.ff_map(*args, **kw)
        fidelity.text_case(tally, "firefox map", label, firefox_cache1.CacheMapFile, blob, wanted, FF_MAP)
    records = [(1, 2, 3, 4), (0xffffffff, 0x80000000, 0x91234567, 0xb3000001)]
    for n in range(0, 4):
        for combo in itertools.product(records, repeat=n):
            case(f"records {combo}", list(combo))
    for i in range(4):
        for bit in range(32):
            row = [0, 0, 0, 0]
            row[i] = 1 << bit
            case(f"bit {i} {bit}", [tuple(row), tuple(v ^ 0xffffffff for v in row)])
    for minor in (0, 19, 65535):
        case("versions", [], version=(1, minor), dirty=minor & 1)
    for value in (-1, 0, 1, 0x7fffffff):
        case("counts", [], entries=value, number=value)
    case("ranks", [], ranks=list(range(100, 132)), usage=list(range(0xfffffff0, 0xfffffff0 + 15)) + [0] * 17)
    case("many", [(i, i * 3, i << 8, i << 16) for i in range(300)])


def firefox_blocks(tally, argument):
    number, size = argument

    def case(label, items):
        made = [ref.ff_entry(*i) if not isinstance(i, int) else i for i in items]
        blob = ref.ff_block_file([m[0] if not isinstance(m, int) else m for m in made], size)
        wanted = [p for m in made if not isinstance(m, int) for p in m[1]]
        fidelity.text_case(tally, "firefox block", label, firefox_cache1.CacheBlockFile, blob, wanted, FF_ENTRY, name=f"_CACHE_00{number}_")

    for delta in list(range(-3, 4)) + [size - 1, size, size + 1, 3 * size]:
        # entry sizes around the block size and multiples of it
        info = bytes((i * 5 + 1) & 0xff for i in range(max(1, size - 36 - 8 + delta)))
        case(f"delta {delta}", [("HTTP:u", info), ("HTTP:n", b"x")])
    alphabet = [("HTTP:http://a/", b"i\0n\0"), ("HTTP:b", b"y" * (size - 30)), ("HTTP:c" * 5, b"z" * (2 * size - 66)), 1, 2]
    for n in (1, 2, 3):
        for combo in itertools.product(alphabet, repeat=n):
            if combo and isinstance(combo[-1], int):
                combo = combo + (("HTTP:last", b"q"),)
            case(f"layout {[c if isinstance(c, int) else len(c[1]) for c in combo]}", list(combo))
    for i, value in itertools.product(range(5), (0, 1, 0x7fffffff, 0x12345678)):
        args = [0x90000001, 3, 1400000000, 1400000001, 0, 77]
        args[i] = value
        case(f"field {i} {value}", [("HTTP:f", b"v", *args)])


def main(run):
    run.explore(addresses, [(h,) for h in range(0, 0x10000, 1 if run.thorough else 7)] + [(k << 12 | 1,) for k in range(16)] + [(k << 8,) for k in range(256)], chunksize=256)
    keys = [bytes(c) for n in range(0, 6) for c in itertools.product((0, 1, 0x41, 0x7f), repeat=n)]
    keys += [bytes((i * 7 + n) & 0x7f for i in range(n)) for n in range(0, 200)]
    keys += [bytes(0x7f for _ in range(n)) for n in range(0, 100)]
    keys += [bytes([0x80 + (i * 11 + n) % 128 for i in range(n)]) for n in range(0, 200, 2)]
    keys += [b"http://www.example.com/%d" % i for i in range(500)]
    keys += [bytes(c) for c in itertools.product((0, 0x55, 0x7f), repeat=8)]
    if run.thorough:
        keys += [bytes(c) for c in itertools.product((0, 1, 0x41, 0x7f), repeat=8)]
    run.explore(hashes, [keys[i:i + 500] for i in range(0, len(keys), 500)])
    run.explore(index_files, [0])
    run.explore(block_files, [0])
    run.explore(directories, [s for n in range(0, 5 if run.thorough else 4) for s in itertools.product(range(0, 4), repeat=n)] + [(63, 1), (1, 64)], chunksize=4)
    run.explore(firefox_maps, [0])
    run.explore(firefox_blocks, [(1, 256), (2, 1024), (3, 4096)])
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"addresses": "upper halves %s, 80 lower halves each" % ("all" if run.thorough else "every 7th"), "index_tables": "all of length <= 3 over 7 addresses",
                  "chains": "up to 3 buckets x 3 entries, one of 64", "firefox": "all layouts of 3 of 5 blocks"}
    run.rule = "every cache of the bounded space; addresses, entries, chains, maps and hashes compared to what the encoder wrote"
    run.assumptions = ["Chrome keys are at most 160 bytes; data files of a chain are referenced by the index"]
