"""What every reader and tool reports of a set of files, in the environment of this process.

Called as: python -m mc.environment LIST OUT, with a JSON list of [name, kind, path, arguments of the tool or null].
"""
import json
import os
import struct
import sys
import time

ZONE = os.environ.get("TZ")


def formatted():
    """What the decoders of values in messages make of values."""
    from dtformats import unified_logging
    operator = unified_logging.FormatStringOperator(specifier="d")
    values = [b"", b"\x00", b"\x01", bytes(4), b"\xff" * 4, struct.pack("<I", 1600000000), struct.pack("<Q", 1710000000), struct.pack("<Q", 86399), bytes(range(16)), b"a\xc3\xa9\0"]
    values += [struct.pack("<I", 1300000000 + 7654321 * i) for i in range(60)]
    for name, cls in sorted(vars(unified_logging).items()):
        if not name.endswith("FormatStringDecoder"):
            continue
        try:
            decoder = cls()
        except TypeError:
            continue
        out = []
        for value in values:
            try:
                out.append(decoder.FormatValue(value, format_string_operator=operator))
            except Exception as e:  # pylint: disable=broad-except
                out.append(type(e).__name__)
        yield f"value {name}", repr(out)


def main():
    from mc import core, zoo
    from mc.props import p25
    os.environ["TZ"] = ZONE
    time.tzset()
    if os.environ.get("VERIF_CWD"):
        os.chdir(os.environ["VERIF_CWD"])
    with open(sys.argv[1], encoding="utf-8") as f:
        work = json.load(f)
    seen = {}
    for name, kind, path, arguments in work:
        if arguments is None:
            for debug in (False, True):
                seen[f"{name} debug={debug}"] = repr(zoo.fresh(zoo.KINDS[kind], path, debug).key())
        else:
            seen[name] = repr(p25.run(kind, *arguments))
    seen.update(formatted())
    with open(sys.argv[2], "w", encoding="utf-8", errors="surrogatepass") as f:
        json.dump({"zone": list(time.tzname), "seen": seen}, f)
    core.cleanup(core.scratch())


if __name__ == "__main__":
    main()
