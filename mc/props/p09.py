"""P09: CPIO archives. Every archive of the bounded space is written by a
reference encoder and read through the public interface of the real reader."""
import io
import itertools

from mc import core, text
from mc.fmt import cpio as ref
from dtformats import cpio

ATTRIBUTES = (("inode_number", "inode"), ("mode", "mode"), ("user_identifier", "uid"), ("group_identifier", "gid"),
              ("modification_time", "mtime"))


def check(tally, fmt, members, trailing=b"", upper=False, how="open", label=""):
    archive, offsets, size = ref.encode(fmt, members, trailing, upper)
    writer = core.Writer()
    debug = how.startswith("debug")
    reader = cpio.CPIOArchiveFile(debug=debug, output_writer=writer if debug else None)
    case = {"format": fmt, "members": [(m.path, len(m.data), m.inode, m.mode, m.uid, m.gid, m.nlink, m.mtime) for m in members],
            "trailing": len(trailing), "how": how, "archive": archive[:2000]}
    problem = None
    try:
        if how.endswith("stream"):
            reader.ReadFileObject(io.BytesIO(archive))
        else:
            path = core.put(core.scratch(), "a.cpio", archive)
            reader.Open(path)
        problem = compare(reader, fmt, members, offsets, size, writer if debug else None)
        if not how.endswith("stream"):
            reader.Close()
    except Exception as e:  # pylint: disable=broad-except
        problem = f"{type(e).__name__}: {e}"
    tally.add("executions")
    tally.add("transitions", len(members) + 1)
    tally.add("evaluations", len(members) + 1)
    tally.seen((fmt, tuple((m.path, len(m.data)) for m in members), trailing, upper))
    if problem:
        tally.violate(f"{fmt}", f"{fmt} {members!r:.300} {how}: {problem}", case)


def compare(reader, fmt, members, offsets, size, writer):
    if reader.file_format != fmt:
        return f"format {reader.file_format!r}"
    entries = list(reader.GetFileEntries())
    if [e.path for e in entries] != [m.path for m in members]:
        return f"paths {[e.path for e in entries]!r}"
    for entry, m, offset in zip(entries, members, offsets):
        for theirs, ours in ATTRIBUTES:
            if getattr(entry, theirs) != getattr(m, ours):
                return f"{m.path!r}: {theirs} is {getattr(entry, theirs)!r} instead of {getattr(m, ours)!r}"
        if entry.data_size != len(m.data) or entry.get_size() != len(m.data):
            return f"{m.path!r}: data size {entry.data_size!r}"
        if entry.data_offset != offset:
            return f"{m.path!r}: data offset {entry.data_offset!r} instead of {offset}"
    # whole reads in reverse order, then small reads in lockstep
    for entry, m in reversed(list(zip(entries, members))):
        data = entry.read()
        if data != m.data:
            return f"{m.path!r}: read {len(data)} bytes {data[:20]!r} instead of {len(m.data)}"
        entry.seek(0)
    collected = [b""] * len(entries)
    if max([len(m.data) for m in members] or [0]) < 4096:
        active = True
        while active:
            active = False
            for i, entry in enumerate(entries):
                data = entry.read(3)
                if data:
                    active = True
                    collected[i] += data
        if collected != [m.data for m in members]:
            return "interleaved reads of the members differ from their data"
    for m, entry in zip(members, entries):
        if not reader.FileEntryExistsByPath(m.path):
            return f"{m.path!r} does not exist by path"
        if reader.GetFileEntryByPath(m.path) is not entry:
            return f"{m.path!r}: look-up by path disagrees with the list"
    for path in ("", "no such", ref.TRAILER, "a\0"):
        if path not in [m.path for m in members] and (reader.FileEntryExistsByPath(path) or reader.GetFileEntryByPath(path)):
            return f"{path!r} is found"
    for prefix in {m.path[:n] for m in members for n in (0, 1, 2, len(m.path))}:
        got = [e.path for e in reader.GetFileEntries(path_prefix=prefix)]
        if got != [m.path for m in members if m.path.startswith(prefix)]:
            return f"prefix {prefix!r} lists {got!r}"
    if reader.size != size:
        return f"archive size {reader.size!r} instead of {size}"
    if writer:
        wanted = {d for m in members for d, _ in ref.describe(fmt, m)}
        got = [p for p in text.pairs(writer.text) if p[0] in wanted]
        expected = [p for m in members for p in ref.describe(fmt, m)]
        return text.first_difference(got[:len(expected)], expected)
    return None


NAMES = ["a", "ab", "abc", "abcd", "dir/", "dir/f", "x" * 20, "TRAILER!!!.txt", "TRAILER!!", ".", "name with space", "x" * 255]


def payload(size, salt=0):
    return bytes((i * 31 + salt + 1) & 0xff for i in range(size))


def single(tally, fmt):
    for how in ("open", "stream", "debug-open", "debug-stream"):
        for name in NAMES:
            for size in range(0, 10) if how == "open" else (0, 3):
                check(tally, fmt, [ref.Member(name, payload(size))], how=how)
    for size in (0xff, 0x100, 4095, 4096, 65535, 65536, 65537, 131075, 200000):
        check(tally, fmt, [ref.Member("big", payload(size)), ref.Member("after", b"xyz")])
    for trailing in (b"", b"\0", b"\0" * 3, b"\0" * 511, b"garbage!", b"070707" * 20):
        for count in range(0, 3):
            check(tally, fmt, [ref.Member(f"m{i}", payload(i)) for i in range(count)], trailing)
    for content in (b"070701" * 30, b"TRAILER!!!\0" * 9, b"\xc7\x71" * 40, b"\0" * 77):
        check(tally, fmt, [ref.Member("tricky", content), ref.Member("b", content[:5])])
    tally.sample({"format": fmt, "names": len(NAMES)})


def fields(tally, fmt):
    for field, limit in ref.limits(fmt).items():
        bits = limit.bit_length()
        for value in sorted({0, 1, limit, limit - 1} | {1 << b for b in range(bits)} | {limit ^ (1 << b) for b in range(bits)} | {limit // 3}):
            for how in ("open", "debug-open"):
                check(tally, fmt, [ref.Member("f", b"12", **{field: value}), ref.Member("g", b"")], how=how, upper=value & 1)
    for value in (0, 1, 0o777, 0xffff):
        for field in ("dev", "rdev"):
            check(tally, fmt, [ref.Member("f", b"12", **{field: (value, (value * 3) & 0xffff)})], how="debug-open")
    # all fields distinct: a swapped pair cannot cancel out
    check(tally, fmt, [ref.Member("f", payload(17), 11, 0o40755, 13, 14, 15, 16, (17, 18), (19, 20))], how="debug-open")


def several(tally, argument):
    fmt, names, sizes = argument
    for s in sizes:
        members = [ref.Member(n, payload(size, i * 17), inode=i + 1, mtime=1000 + i, uid=i) for i, (n, size) in enumerate(zip(names, s))]
        check(tally, fmt, members, trailing=b"\0" * (len(names[0]) % 3))


def main(run):
    run.explore(single, ref.FORMATS)
    run.explore(fields, ref.FORMATS)
    alphabet = ["a", "bc", "dir", "e/fg"] if not run.thorough else ["a", "bc", "dir", "e/fg", "hijkl", "mnopqr"]
    sizes = range(0, 5) if not run.thorough else range(0, 9)
    work = []
    for fmt in ref.FORMATS:
        for names in itertools.permutations(alphabet, 2):
            work.append((fmt, names, list(itertools.product(sizes, repeat=2))))
        for names in itertools.permutations(alphabet, 3):
            combos = list(itertools.product(sizes, repeat=3))
            work.append((fmt, names, combos))
    run.explore(several, work, chunksize=2)
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"members": 3, "name_length_classes": len(alphabet), "data_sizes": len(sizes), "formats": 5}
    run.rule = "every archive of the bounded space; members, attributes, data, look-ups and size compared to what the encoder wrote"
    run.assumptions = ["member paths are ASCII and distinct"]
