"""P19: debug dumps are lossless; value lines show the value in the declared format."""
import itertools
import uuid

from mc import core, text
from dtformats import data_format, output_writers


class Reader(data_format.BinaryDataFormat):
    """The formats are used the way every reader uses them: from a subclass."""


def reader():
    writer = core.Writer()
    return Reader(debug=True, output_writer=writer), writer


LINES = [bytes(16), b"\xff" * 16, bytes(range(0x78, 0x88)), b"0123456789abcde\x00", bytes(15) + b"\x01"]


def strict_undump(lines):
    """The bytes a dump stands for; raises ValueError when a line is not exactly what the format defines."""
    data = bytearray()
    repeat = False
    short = False
    for line in lines:
        if line == "...":
            if repeat or len(data) < 16 or short:
                raise ValueError("misplaced fold")
            repeat = True
            continue
        if short:
            raise ValueError("line after an incomplete line")
        offset = int(line[2:10], 16)
        if line[:2] != "0x" or line[2:10] != f"{offset:08x}" or line[10:12] != "  ":
            raise ValueError(f"line start {line!r}")
        cells = [line[12 + 3 * i + (i > 7):14 + 3 * i + (i > 7)] for i in range(16)]
        count = 16 if "  " not in cells else cells.index("  ")
        if not count or any(c != "  " for c in cells[count:]):
            raise ValueError(f"byte columns {line!r}")
        row = bytes(int(c, 16) for c in cells[:count])
        shown = line[62:]
        if "".join(chr(b) if 0x20 <= b <= 0x7e else "." for b in row) != shown or line[60:62] != "  ":
            raise ValueError(f"character column {line!r}")
        if any(line[12 + 3 * i + (i > 7) + 2] != " " for i in range(16)) or line[36] != " ":
            raise ValueError(f"separators {line!r}")
        if repeat:
            if (offset - len(data)) % 16 or offset <= len(data):
                raise ValueError("fold without lines")
            data += bytes(data[-16:]) * ((offset - len(data)) // 16)
            repeat = False
        if offset != len(data):
            raise ValueError(f"offset {offset:#x} instead of {len(data):#x}")
        data += row
        short = count < 16
    if repeat:
        raise ValueError("fold at the end")
    return bytes(data)


def dump(tally, data, label):
    instance, writer = reader()
    try:
        instance._DebugPrintData("Some data", data)
        head, *lines = writer.text.split("\n")
        if head != "Some data:":
            raise ValueError(f"description line {head!r}")
        if lines[-2:] != ["", ""]:
            raise ValueError("the dump does not end with an empty line")
        got = strict_undump(lines[:-2])
    except Exception as e:  # pylint: disable=broad-except
        tally.violate("dump", f"{label}: {type(e).__name__}: {e}", {"data": data, "text": writer.text[:3000]})
        got = data
    if got != data:
        tally.violate("dump", f"{label}: the dump stands for {got!r:.200}, the data is {data!r:.200}", {"data": data, "text": writer.text[:3000]})
    tally.add("executions")
    tally.add("evaluations")
    tally.add("transitions", len(data) // 16 + 1)
    tally.seen(data)


def sequences(tally, argument):
    prefix, length, tails = argument
    for rest in itertools.product(range(len(LINES)), repeat=length):
        kinds = prefix + rest
        body = b"".join(LINES[k] for k in kinds)
        for tail in tails:
            for kind in ((0, 3) if tail else (0,)):
                dump(tally, body + LINES[kind][:tail], f"lines {kinds} tail {tail}")


def runs(tally, first):
    """Runs of identical lines of every length around each other, so that folds start and end everywhere."""
    for one, two, three in itertools.product(range(0, 7), repeat=3):
        for kinds in itertools.product(range(3), repeat=2):
            body = LINES[first] * one + LINES[kinds[0]] * two + LINES[kinds[1]] * three
            for tail in (0, 1, 8, 9, 15):
                dump(tally, body + LINES[first][:tail], f"runs {first}x{one} {kinds[0]}x{two} {kinds[1]}x{three} tail {tail}")


def columns(tally, value):
    for column in range(16):
        for size in (column + 1, 16, 24):
            data = bytearray(size)
            data[column] = value
            dump(tally, bytes(data), f"byte {value:02x} in column {column}")


def sizes(tally, pattern):
    for size in range(0, 600):
        dump(tally, (pattern * 600)[:size], f"size {size}")
    for size in (0xfff0, 0xffff, 0x10000, 0x10001, 0x100010, 0x123457):
        dump(tally, (pattern * (size // len(pattern) + 1))[:size], f"size {size}")


# --- values ---------------------------------------------------------------

def call(tally, name, value):
    """First element of what the format yields (text, or text with a layout hint)."""
    instance, _ = reader()
    function = getattr(instance, name, None)
    if function is None:
        return None
    tally.add("executions")
    tally.add("evaluations")
    tally.add("transitions")
    tally.seen((name, str(value)))
    try:
        result = function(value)
    except Exception as e:  # pylint: disable=broad-except
        return f"{type(e).__name__}: {e}"
    return result[0] if isinstance(result, tuple) else result


def compare(tally, name, value, expected):
    got = call(tally, name, value)
    if got is not None and got != expected:
        tally.violate(f"value-{name.strip('_')}", f"{value!r} is shown as {got!r}, expected {expected!r}", {"format": name, "value": str(value)})


def civil(days):
    """(year, month, day) of a day number relative to 1970-01-01 by counting, not by any date library."""
    year = 1970 + days // 366 - (2 if days >= 0 else 0)
    def start(y):
        z = y - 1
        return 365 * (y - 1970) + (z // 4 - z // 100 + z // 400) - (1969 // 4 - 1969 // 100 + 1969 // 400)
    while start(year + 1) <= days:
        year += max(1, (days - start(year + 1)) // 366)
    while start(year) > days:
        year -= 1
    rest = days - start(year)
    leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
    month = 1
    for length in (31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31):
        if rest < length:
            break
        rest -= length
        month += 1
    return year, month, rest + 1


def moment(ticks, per_second, digits, epoch_days):
    seconds, fraction = divmod(ticks, per_second)
    days, seconds = divmod(seconds, 86400)
    year, month, day = civil(days + epoch_days)
    out = f"{year:04d}-{month:02d}-{day:02d} {seconds // 3600:02d}:{seconds // 60 % 60:02d}:{seconds % 60:02d}"
    return out + (f".{fraction:0{digits}d}" if digits else "") + " UTC"


TIMES = {"_FormatIntegerAsFiletime": (10 ** 7, 7, -134774, 64, False), "_FormatIntegerAsHFSTime": (1, 0, -24107, 32, False),
         "_FormatIntegerAsPosixTime": (1, 0, 0, 32, True), "_FormatIntegerAsPosixTimeInMicroseconds": (10 ** 6, 6, 0, 53, False),
         "_FormatIntegerAsPosixTimeInNanoseconds": (10 ** 9, 9, 0, 62, False)}


def time_values(per_second, bits, signed, epoch_days):
    values = {0, 1, 2} | {1 << b for b in range(bits)} | {(1 << b) - 1 for b in range(1, bits)}
    limit = (1 << bits) - 1 if not signed else (1 << bits - 1) - 1
    for year_days in [-24107, -24106, -1, 0, 1, 58, 59, 60, 365, 10956, 11015, 11016, 11017, 11322, 47540, 47541, 47542, 84063] + list(range(19000, 19800)):
        for second in (0, 1, 59, 60, 3599, 3600, 43200, 86399):
            base = ((year_days - epoch_days) * 86400 + second) * per_second
            values |= {base, base + 1, base + per_second - 1, base - 1, base + per_second // 10, base + per_second // 2}
    if signed:
        values |= {-v for v in values}
    return sorted(v for v in values if (0 <= v <= limit) or (signed and -limit - 1 <= v < 0))


def times(tally, name):
    per_second, digits, epoch_days, bits, signed = TIMES[name]
    for value in time_values(per_second, bits, signed, epoch_days):
        if value == 0:
            expected = "Not set (0)"
        elif value == (1 << 63) - 1 and name.endswith("Filetime"):
            expected = "Never (0x7fffffffffffffff)"
        else:
            expected = moment(value, per_second, digits, epoch_days)
            if int(expected.split("-")[0] or 0) > 9999:
                continue
        compare(tally, name, value, expected)


def printed_times(tally, name):
    per_second, digits, epoch_days, bits, signed = TIMES["_FormatIntegerAsFiletime" if "Filetime" in name else "_FormatIntegerAsPosixTime"]
    instance, writer = reader()
    function = getattr(instance, name, None)
    if function is None:
        return
    for value in time_values(per_second, bits, signed, epoch_days):
        if value in (0, (1 << 63) - 1):
            continue
        expected = moment(value, per_second, digits, epoch_days)
        if int(expected.split("-")[0] or 0) > 9999:
            continue
        instance, writer = reader()
        getattr(instance, name)("Time", value)
        got = text.pairs(writer.text)
        tally.add("executions")
        tally.add("evaluations")
        tally.add("transitions")
        if got != [("Time", expected)]:
            tally.violate(f"value-{name.strip('_')}", f"{value!r} is shown as {got!r}, expected {expected!r}", {"value": value})


def numbers(tally, _):
    unsigned = sorted({0, 1, 9, 10, 15, 16, 0x7f, 0x80, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0x10000, 0xdeadbeef, 0xffffffff, 1 << 32, (1 << 64) - 1} | {1 << b for b in range(64)})

    def hexadecimal(value, width):
        digits = ""
        while value:
            digits = "0123456789abcdef"[value & 15] + digits
            value >>= 4
        return "0x" + "0" * (width - len(digits)) + digits
    for value in unsigned + [-v for v in unsigned]:
        compare(tally, "_FormatIntegerAsDecimal", value, str(value))
        instance, writer = reader()
        instance._DebugPrintDecimalValue("Number", value)
        if text.pairs(writer.text) != [("Number", str(value))]:
            tally.violate("value-decimal", f"{value} is shown as {writer.text!r}", {"value": value})
        if value < 0:
            continue
        for width in (2, 4, 8):
            compare(tally, f"_FormatIntegerAsHexadecimal{width}", value, hexadecimal(value, width))
        compare(tally, "_FormatIntegerAsOffset", value, f"{value} ({hexadecimal(value, 8)})")
    for length in range(0, 4):
        for values in itertools.product((0, 1, 255, 1 << 31, (1 << 64) - 1), repeat=length):
            compare(tally, "_FormatArrayOfIntegersAsDecimals", values, ", ".join(map(str, values)))
            compare(tally, "_FormatArrayOfIntegersAsOffsets", values, ", ".join(f"{v} ({hexadecimal(v, 8)})" for v in values))
    for value in (0.0, 1.0, -1.0, 0.5, 1e-6, 123456.789, 1e15, -2.5e-3):
        compare(tally, "_FormatFloatingPoint", value, "%.6f" % value)


def addresses(tally, _):
    octets = (0, 1, 9, 10, 99, 100, 127, 128, 255)
    for values in itertools.product(octets, repeat=4):
        compare(tally, "_FormatArrayOfIntegersAsIPv4Address", bytes(values), ".".join(map(str, values)))
    for one, two in itertools.product(range(16), repeat=2):
        for a, b in itertools.product((0, 1, 0x10, 0x0f, 0xff), repeat=2):
            values = bytearray(16)
            values[one] = a
            values[two] = b
            compare(tally, "_FormatArrayOfIntegersAsIPv6Address", bytes(values), ":".join(f"{values[i]:02x}{values[i + 1]:02x}" for i in range(0, 16, 2)))
    values = bytes(range(0xf0, 0x100))
    compare(tally, "_FormatArrayOfIntegersAsIPv6Address", values, "f0f1:f2f3:f4f5:f6f7:f8f9:fafb:fcfd:feff")


def strings(tally, _):
    for value in range(256):
        for before, after in itertools.product((b"", b"a", b"\x00", b"\xff"), repeat=2):
            data = before + bytes([value]) + after
            expected = "".join(chr(b) if 0x20 <= b <= 0x7e else f"\\x{b:02x}" for b in data)
            compare(tally, "_FormatStreamAsString", data, expected)
    for characters in itertools.product(("", "a", "\x00", "\u00e9", " ", "\u4e2d"), repeat=4):
        value = "".join(characters)
        expected = value
        while expected.endswith("\x00"):
            expected = expected[:-1]
        compare(tally, "_FormatString", value, expected)
    for value in [uuid.UUID(int=0), uuid.UUID(int=(1 << 128) - 1)] + [uuid.UUID(int=1 << b) for b in range(128)]:
        digits = f"{value.int:032x}"
        compare(tally, "_FormatUUIDAsString", value, "-".join([digits[:8], digits[8:12], digits[12:16], digits[16:20], digits[20:]]))


def lines(tally, _):
    """Description and value of a line can always be told apart, for every description length."""
    for length in range(1, 72):
        for value in ("v", "", 5, -1, None, "a: b", "x" * 300):
            instance, writer = reader()
            description = ("Description of a value " * 9)[:length]
            instance._DebugPrintValue(description, value)
            tally.add("executions")
            tally.add("evaluations")
            tally.add("transitions")
            if text.pairs(writer.text) != [(description, str(value))] or not writer.text.endswith("\n"):
                tally.violate("value-line", f"{description!r} {value!r} is shown as {writer.text!r}", {"description": description})
            column = 0
            for character in writer.text.split(": ")[0]:
                column = column + 8 - column % 8 if character == "\t" else column + 1
            if column != 72:
                tally.violate("value-line", f"{description!r}: value starts in column {column}", {"description": description})


def stdout(tally, _):
    """What the standard output writer is given comes out unchanged."""
    import contextlib
    import io
    for parts in itertools.product(("", "a", "\n", "Desc\t: v\n", "\u00e9\u4e2d", "{}%s\\"), repeat=3):
        stream = io.StringIO()
        with contextlib.redirect_stdout(stream):
            writer = output_writers.StdoutWriter()
            writer.Open()
            for part in parts:
                writer.WriteText(part)
            writer.Close()
        tally.add("executions")
        tally.add("evaluations")
        tally.add("transitions", 3)
        if stream.getvalue() != "".join(parts):
            tally.violate("stdout", f"{parts!r} came out as {stream.getvalue()!r}", {"parts": parts})


def main(run):
    depth = 5 if not run.thorough else 7
    kinds = range(len(LINES))
    run.explore(sequences, [((), n, range(16)) for n in range(0, 3)] + [((k, j), n, range(16)) for k in kinds for j in kinds for n in range(1, depth - 1)])
    run.explore(runs, kinds)
    run.explore(columns, range(256), chunksize=8)
    run.explore(sizes, [b"\x00", b"\xff\x00", bytes(range(256)), b"0123456789abcdef", b"x" * 31 + b"y"])
    run.explore(times, list(TIMES))
    run.explore(printed_times, ["_DebugPrintFiletimeValue", "_DebugPrintPosixTimeValue"])
    for function in (numbers, addresses, strings, lines, stdout):
        run.explore(function, [0])
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.tally.sample({"lines": [line.hex() for line in LINES]})
    run.bounds = {"lines": depth, "line_kinds": len(LINES), "tails": 16, "sizes": "0..599 and six large ones", "fold_run_length": 6}
    run.rule = "every line sequence, tail, column/byte pair and size of the space is dumped and decoded again by a strict independent decoder; every value format over its boundary values against an independent rendering"
    run.assumptions = ["timestamps beyond year 9999 are outside the space (rendering is the date library's)"]
