"""P10: gzip files: header, extent and footer of every member."""
import itertools
import struct

from mc import core, text
from mc.fmt import gzipf as ref
from dtformats import gzipfile


def check(tally, label, members, key="members"):
    blob = b"".join(b for b, _ in members)
    expected = [p for _, e in members for p in e]
    path = core.put(core.scratch(), "a.gz", blob)
    case = {"label": label, "file": blob[:4000], "length": len(blob)}
    for debug in (False, True):
        writer = core.Writer()
        reader = gzipfile.GZipFile(debug=debug, output_writer=writer)
        try:
            reader.Open(path)
            reader.Close()
        except Exception as e:  # pylint: disable=broad-except
            tally.violate(key, f"{label} debug={debug}: {type(e).__name__}: {e}", case)
            break
        if debug:
            got = [p for p in text.pairs(writer.text) if p[0] in ref.FIELDS]
            problem = text.first_difference(got, expected)
            if problem:
                tally.violate(key, f"{label}: {problem}", case)
        elif writer.text:
            tally.violate(key, f"{label}: output without debug", case)
    tally.add("executions", 2)
    tally.add("transitions", len(members))
    tally.add("evaluations", len(expected))
    tally.seen(blob[:300] + str(len(blob)).encode())


def payload(size):
    state, out = 12345, bytearray()
    for _ in range(size):
        state = (state * 1103515245 + 12345) & 0x7fffffff
        out.append((state >> 16) & 0xff)
    return bytes(out)


PAYLOADS = {"empty": b"", "one": b"A", "text": b"hello hello hello " * 9, "nul": bytes(100), "random": payload(300),
            "magic": b"\x1f\x8b\x08\x00\0\0\0\0\0\x03" * 4, "long": b"0123456789" * 7000}


def singles(tally, flags):
    for name, data in PAYLOADS.items():
        for mode in ref.MODES:
            if mode in ("stored1", "flush") and len(data) > 400:
                continue
            check(tally, f"single flags={flags} {name} {mode}", [ref.member(data, flags, mode, mtime=flags * 1000003)])
    tally.sample({"flags": flags, "payloads": list(PAYLOADS)})


def pairs(tally, flags):
    for other in range(32):
        for first, second in itertools.product(("empty", "one", "text", "random"), repeat=2):
            check(tally, f"pair {flags}/{first} {other}/{second}",
                  [ref.member(PAYLOADS[first], flags, "fast", 5, 2, 0, "a", ""), ref.member(PAYLOADS[second], other, "best", 6, 4, 255, "", "c")])


def triples(tally, argument):
    names, modes = argument
    for flags in ((0, 0, 0), (8, 0, 31), (31, 31, 31), (4, 2, 16)):
        check(tally, f"triple {names} {modes} {flags}",
              [ref.member(PAYLOADS[n], f, m, 100 * i, 0, i, f"n{i}", f"c{i}") for i, (n, m, f) in enumerate(zip(names, modes, flags))])


def fields(tally, _):
    for mtime in sorted({0, 1, -1, 0x7fffffff, -0x7fffffff, 86399, 86400, 951782400} | {1 << b for b in range(31)}):
        check(tally, f"mtime {mtime}", [ref.member(b"x", 0, "fast", mtime)])
    for value in range(256):
        check(tally, f"os/xfl {value}", [ref.member(b"x", 0, "fast", 1, value, 255 - value)])
    for value in [0, 1, 0xffffffff] + [1 << b for b in range(32)]:
        check(tally, f"footer {value}", [ref.member(b"x", 0, "fast", 1, crc=value, size=value ^ 0xffffffff)])
    for length in (0, 1, 2, 254, 255, 256, 257, 1000, 65535):
        check(tally, f"extra {length}", [ref.member(b"x", 4 | 8, extra=b"\xff" * length), ref.member(b"y", 31, extra=b"\0" * length)])
    for name in ("", "a", "caf\xe9", "x" * 300, "with space", "\xff\xfe", "dir/name"):
        check(tally, f"name {name!r}", [ref.member(b"x", 8 | 16, name=name, comment=name[::-1])])


def straddle(tally, delta):
    """A member whose compressed data ends around the reader's buffer size."""
    target = 16 * 1024 * 1024 + delta
    blocks = -(-target // (65535 + 5))
    size = target - 5 * blocks
    data = (b"0123456789abcdef" * (size // 16 + 1))[:size]
    first = ref.member(data, 0, "stored")
    second = ref.member(b"tail", 8, "fast", 7, name="second")
    check(tally, f"straddle {delta}", [first, second, ref.member(b"", 0, "fixed", 9)], key="members")


def main(run):
    run.explore(singles, range(32))
    run.explore(pairs, range(32))
    names = ["empty", "one", "text"] if not run.thorough else ["empty", "one", "text", "random", "nul", "magic"]
    modes = ["stored", "fast", "fixed"] if not run.thorough else ref.MODES
    run.explore(triples, [(n, m) for n in itertools.product(names, repeat=3) for m in itertools.product(modes, repeat=3)], chunksize=8)
    run.explore(fields, [0])
    run.explore(straddle, (-9, -8, -1, 0, 1, 4096) if not run.thorough else list(range(-30, 31)) + [4096, 65536], processes=4)
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"members": 3, "flag_combinations": 32, "deflate_layouts": len(ref.MODES)}
    run.rule = "every gzip file of the bounded space; header and footer values of every member, in order, compared to what the encoder wrote"
