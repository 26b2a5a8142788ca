"""P11: LevelDB logs, descriptors and tables, and IndexedDB keys."""
import itertools

from mc import core, fidelity, text
from mc.fmt import leveldb as ref
from dtformats import indexeddb, leveldb

LOG_FIELDS = {"Checksum", "Record type", "Record data", "Offset", "Sequence number", "Number of values", "Value type", "Key size",
              "Key", "Value size", "Value"}
EDIT_FIELDS = {"Checksum", "Record type", "Record data", "Offset", "Value tag", "Name string size", "Name string", "Log number",
               "Next file number", "Last sequence number", "Previous log number", "Level", "Key size", "Key", "File number",
               "File size", "Smallest record key size", "Smallest record key", "Largest record key size", "Largest record key"}


def expected_log(blocks, texts):
    out = []
    texts = list(texts)
    for (_, kind, _), described in zip(blocks, ref.describe_blocks(blocks)):
        out += described
        if kind in (1, 4):
            out += texts.pop(0)
    return out


def log_case(tally, label, batches, fragment=None, tail=b""):
    blob, blocks, offsets = ref.log_file([ref.batch(s, items) for s, items in batches], fragment)
    texts = [ref.describe_batch(o, s, items) for o, (s, items) in zip(offsets, batches)]
    fidelity.text_case(tally, "log", label, leveldb.LevelDBDatabaseLogFile, blob + tail, expected_log(blocks, texts), LOG_FIELDS)


def log_values(tally, _):
    items = [(b"", b""), (b"k", b"v"), (b"key\0\xff", b"\x80" * 3), (b"d", None), (b"x" * 127, b"y" * 128), (b"z" * 300, None)]
    for n in (0, 1, 2):
        for combo in itertools.product(items, repeat=n):
            log_case(tally, f"values {combo!r:.80}", [(5, list(combo))])
    for shift in range(64):
        log_case(tally, f"sequence 1<<{shift}", [(1 << shift, [(b"a", b"b")]), ((1 << 64) - 1 - (1 << shift), [(b"a", None)])])
    for size in (126, 127, 128, 129, 16383, 16384, 16385):
        log_case(tally, f"value size {size}", [(1, [(b"k", bytes(i & 0xff for i in range(size)))]), (2, [(b"after", b"x")])])
    tally.sample({"log values": len(items)})


def log_pages(tally, argument):
    """A first record that leaves `left` bytes of the page, then others."""
    left, sizes = argument
    filler = ref.PAGE - left - 7
    overhead = 12 + 1 + 2 + 3    # header, type, key, value length (3 byte varint)
    value = bytes(i * 7 & 0xff for i in range(filler - overhead))
    first = (9, [(b"f", value)])
    assert len(ref.batch(*first)) == filler, (left, len(ref.batch(*first)), filler)
    rest = [(10 + i, [(b"k%d" % i, b"v" * size)]) for i, size in enumerate(sizes)]
    log_case(tally, f"page left={left} sizes={sizes}", [first] + rest)


def log_fragments(tally, cuts):
    batches = [(3, [(b"alpha", b"beta"), (b"gone", None)]), (4, [(b"q", b"w")])]
    log_case(tally, f"fragments {cuts}", batches, lambda index, record: cuts if index == 0 else [])
    log_case(tally, f"fragments second {cuts}", batches, lambda index, record: cuts if index == 1 and sum(cuts) < len(record) else [])


def edits(tally, _):
    numbers = (0, 1, 127, 128, 300, 1 << 21, (1 << 28) + 5, (1 << 35) - 1, (1 << 63) + 1)
    every = [(1, "leveldb.BytewiseComparator"), (1, ""), (1, "idb_cmp1"), (5, 0, b"key"), (5, 6, b""), (6, 1, 9), (6, 0, 1 << 40),
             (7, 2, 5, 1000, b"aaa", b"zzz"), (7, 0, 1 << 20, 1 << 33, b"", b"k" * 200)]
    every += [(tag, n) for tag in (2, 3, 4, 9) for n in numbers]

    def case(records, label, fragment=None):
        made = [ref.edit(r) for r in records]
        blob, blocks, offsets = ref.log_file([b for b, _ in made], fragment)
        texts = [[("Offset", str(o))] + t for o, (_, t) in zip(offsets, made)]
        fidelity.text_case(tally, "descriptor", label, leveldb.LevelDBDatabaseDescriptorFile, blob, expected_log(blocks, texts), EDIT_FIELDS)

    for value in every:
        case([[value]], f"edit {value}")
    for pair in itertools.product(every, repeat=2):
        case([list(pair)], f"edit {pair}")
    some = every[:1] + every[3:9] + every[10::9]
    for pair in itertools.permutations(some, 3):
        case([list(pair[:2]), [pair[2]]], f"edits {pair}")
    record = [(1, "c"), (2, 300), (7, 2, 5, 1000, b"aaa", b"zzz"), (6, 1, 9)]
    for cut in range(1, 20):
        case([record, [(9, 1)]], f"cut {cut}", lambda index, _: [cut] if index == 0 else [])


def entries_of(entries):
    return [(e.key, e.sequence_number, e.value_type, e.value) for e in entries]


def table_case(tally, label, groups, **options):
    blob = ref.table(groups, **options)
    expected = [e for g in groups for e in g]
    path = core.put(core.scratch(), "t.ldb", blob)

    def read(debug):
        def run():
            writer = core.Writer()
            reader = leveldb.LevelDBDatabaseTableFile(debug=debug, output_writer=writer)
            reader.Open(path)
            got = entries_of(reader.ReadTableEntries())
            reader.Close()
            if debug:
                data = [p for p in text.pairs(writer.text) if p[0] in ("Key", "Value type", "Sequence number")]
                data = [x for i in range(0, len(data), 3) for x in [tuple(v for _, v in data[i:i + 3])]]
                wanted = [(repr(k), f"{t} ({ {0: 'kTypeDeletion', 1: 'kTypeValue'}[t]})", str(s)) for k, s, t, _ in expected]
                # index entries are printed first: the data entries come after them
                if data[-len(wanted):] != wanted:
                    return [("debug text", data[-len(wanted):]), ("expected", wanted)]
            return got
        return run

    fidelity.value_case(tally, "table", label, read(False), expected, blob, len(expected))
    if len(blob) < 3000:
        fidelity.value_case(tally, "table", label + " debug", read(True), expected, blob, len(expected))


KEYS = [b"", b"a", b"ab", b"abc", b"abd", b"b", b"\0", b"\xff\xff", b"ab\0"]


def tables(tally, argument):
    interval, share, compressions = argument
    for n in (1, 2, 3, 4):
        for keys in itertools.combinations(KEYS, n):
            group = [(k, 10 + i, i % 2, b"value%d" % i if i % 2 else b"") for i, k in enumerate(keys)]
            for split in range(1, n + 1) if n < 4 else (1, 2, 4):
                groups = [group[i:i + split] for i in range(0, n, split)]
                table_case(tally, f"{keys} interval={interval} share={share} comp={compressions} split={split}", groups,
                           interval=interval, share=share, compressions=compressions, index_compression=compressions[-1])
    tally.sample({"interval": interval, "share": share, "compressions": compressions})


def table_values(tally, _):
    for bit in range(56):
        table_case(tally, f"sequence bit {bit}", [[(b"k", 1 << bit, 1, b"v"), (b"k", ((1 << 56) - 1) ^ (1 << bit), 0, b"")]])
    for size in (0, 1, 126, 127, 128, 129, 16383, 16384, 70000):
        for compressions in ((0,), (1,), (2,)):
            table_case(tally, f"size {size}", [[(b"k" * size, 5, 1, b"w"), (b"k" * size + b"x", 4, 1, bytes(i & 0xff for i in range(size)))]],
                       compressions=compressions)
    for pad in (1, 120, 127, 128, 200, 16384, 3000000):
        table_case(tally, f"pad {pad}", [[(b"a", 1, 1, b"1")], [(b"b", 2, 1, b"2")]], pad=b"\xee" * pad)
    many = [(b"key%05d" % i, 1000 - i, 1 if i % 3 else 0, b"value %d" % i) for i in range(400)]
    for block in (1, 7, 50, 400):
        for interval in (1, 2, 16, 1000):
            for index_interval in (1, 3):
                table_case(tally, f"many {block} {interval}", [many[i:i + block] for i in range(0, 400, block)], interval=interval,
                           compressions=(0, 1, 2), index_compression=1, index_interval=index_interval)
    # the same user key several times, sharing up to inside the key suffix
    group = [(b"same", s, 1, b"v%d" % s) for s in (0x01020304050607, 0x01020304050606, 0x01020304050506, 3, 2)]
    for share in range(0, 13):
        table_case(tally, f"suffix share {share}", [group], share=share)


def idb(tally, widths):
    top = [(1 << 8 * w) - 1 for w in widths]
    values = [[0, 1, t, t // 3, 1 << (8 * w - 1)] for t, w in zip(top, widths)]
    cases = []
    for i in range(3):
        for value in values[i]:
            ids = [5, 6, 7]
            ids[i] = value
            cases.append(tuple(ids))
    cases.append(tuple(top))
    cases.append((0, 0, 1))
    cases.append((0, 1, 0))
    cases.append((1, 0, 0))
    group, expected = [], []
    for number, ids in enumerate(cases):
        for rest in (b"", b"\x01", b"ab\0'\"\xff"):
            group.append((ref.idb_prefix(*ids, widths) + rest, number + 1, number % 2, b"v%d" % number))
            expected.append(([str(x) for x in ids] + ([repr(rest)[1:]] if rest else []), number + 1, number % 2, b"v%d" % number))
    for kind in (0, 1, 2, 50, 100, 200, 255):
        for rest in (b"", b"\x05\x06"):
            group.append((ref.idb_prefix(0, 0, 0, widths) + bytes([kind]) + rest, 9, 1, b"m"))
            expected.append((["0", "0", "0", str(kind)] + ([repr(rest)[1:]] if rest else []), 9, 1, b"m"))
    for split in (1, 5, len(group)):
        blob = ref.table([group[i:i + split] for i in range(0, len(group), split)], interval=2, compressions=(0, 1))
        path = core.put(core.scratch(), "i.ldb", blob)

        def run():
            reader = indexeddb.IndexedDBDatabaseTableFile()
            reader.Open(path)
            got = [(e.key_segments, e.sequence_number, e.value_type, e.value) for e in reader.ReadEntries()]
            reader.Close()
            return got
        fidelity.value_case(tally, "indexeddb", f"widths {widths} split {split}", run, expected, blob, len(expected))


def main(run):
    run.explore(log_values, [0])
    sizes = [(0,), (1,), (5, 9), (40,), (33000,), (70000, 3)]
    run.explore(log_pages, [(left, s) for left in list(range(0, 64 if not run.thorough else 300)) for s in sizes], chunksize=8)
    cuts = [(a,) for a in range(0, 31)] + [(a, b) for a in range(0, 31, 1) for b in range(0, 31 - a)]
    if run.thorough:
        cuts += [(a, b, c) for a in range(0, 20) for b in range(0, 20 - a) for c in range(0, 20 - a - b)]
    run.explore(log_fragments, [c for c in cuts if sum(c) < 30], chunksize=16)
    run.explore(edits, [0])
    options = [(i, s, c) for i in (1, 2, 3, 16) for s in (None, 0, 1, 2) for c in ((0,), (1,), (2,), (0, 1, 2))]
    run.explore(tables, options)
    run.explore(table_values, [0])
    run.explore(idb, list(itertools.product(range(1, 9), range(1, 9), range(1, 5))), chunksize=4)
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"log": "page remainders 0-63, all 2-cut fragmentations of a record", "table": "all key sets of up to 4 of 9 keys x restart interval x sharing x compression x block split",
                  "indexeddb": "all 8x8x4 identifier widths"}
    run.rule = "every file of the bounded space; reported records and entries compared to what the encoder stored"
