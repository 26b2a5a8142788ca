"""P20: prefetch hashes against the documented algorithms, every path of a bounded space."""
import itertools

from mc import core  # noqa: F401
from dtformats import prefetch

MASK = 0xffffffff


def units(path):
    """UTF-16 code units of the upper-cased path, low byte first."""
    out = []
    for character in path.upper():
        number = ord(character)
        if number < 0x10000:
            out.append(number)
        else:
            number -= 0x10000
            out += [0xd800 | number >> 10, 0xdc00 | number & 0x3ff]
    return [b for u in out for b in (u & 0xff, u >> 8)]


def polynomial(values, start):
    """start * 37^n + sum(value_i * 37^(n-1-i)), computed as a polynomial rather than step by step."""
    total, power = 0, 1
    for value in reversed(values):
        total += value * power
        power *= 37
    return (total + start * power) & MASK


def xp(values):
    number = (polynomial(values, 0) * 314159269) & MASK
    if number & 0x80000000:
        number = -(number - (1 << 32))
    return number % 1000000007


FUNCTIONS = (("XP", lambda p: prefetch.CalculatePrefetchHashXP(p), xp),
             ("Vista", lambda p: prefetch.CalculatePrefetchHashVista(p), lambda v: polynomial(v, 314159)),
             ("2008", lambda p: prefetch.CalculatePrefetchHash2008(p), lambda v: polynomial(v, 314159)))


def check(tally, path):
    values = units(path)
    for name, function, oracle in FUNCTIONS:
        expected = oracle(values)
        try:
            got = function(path)
        except Exception as e:  # pylint: disable=broad-except
            got = f"{type(e).__name__}: {e}"
        if got != expected or isinstance(got, bool) or not isinstance(got, int):
            tally.violate(name, f"{name} hash of {path!r}: got {got!r}, expected {expected!r}", {"path": path})
    tally.add("executions", 3)
    tally.add("evaluations", 3)
    tally.add("transitions", len(values) * 3)
    tally.seen(path)


def words(tally, argument):
    prefix, alphabet, length = argument
    for rest in itertools.product(alphabet, repeat=length):
        check(tally, prefix + "".join(rest))


def one_to_one(number):
    character = chr(number)
    return not 0xd800 <= number < 0xe000 and len(character.upper()) == 1


def characters(tally, argument):
    """Every character at every position of a carrier path (all phases of a blocked loop)."""
    low, high, positions = argument
    for number in range(low, high):
        if not one_to_one(number):
            continue
        for position in positions:
            carrier = "\\DEVICE\\X\\abcdefghijklmn"
            check(tally, carrier[:position] + chr(number) + carrier[position:position + 3])


def lengths(tally, base):
    for length in range(0, 301):
        check(tally, (base * 301)[:length])
        check(tally, (base * 301)[:length] + "\uffee")
        check(tally, "\u0100" + (base * 301)[:length])


PATHS = [r"\DEVICE\HARDDISKVOLUME1\WINDOWS\SYSTEM32\NOTEPAD.EXE", r"\Device\HarddiskVolume2\Program Files\Café\тест.exe",
         "\\VOLUME{01d08edc0cbccaad-3e0d2d25}\\WINDOWS\\SYSTEM32\\SVCHOST.EXE", "C:\\\U0001f600\\a.exe", ""]


def edits(tally, path):
    check(tally, path)
    for index in range(len(path)):
        check(tally, path[:index])
        check(tally, path[:index] + path[index + 1:])
        for character in "aZ\\\u00e9\u0430\u4e2d\U0001f600\x00\uffff":
            check(tally, path[:index] + character + path[index + 1:])


def main(run):
    alphabet = "aA\\\u00ff\u4e2d"
    depth = 7 if not run.thorough else 9
    run.explore(words, [("", alphabet, n) for n in range(depth)] +
                [(c + d, alphabet, depth - 2) for c in alphabet for d in alphabet])
    step = 1024
    positions = range(0, 17) if run.thorough else range(0, 9)
    run.explore(characters, [(low, low + step, positions) for low in range(0, 0x10000, step)] +
                [(0x10000, 0x10400, positions), (0x1f600, 0x1f650, positions), (0x10ff00, 0x110000, positions)])
    run.explore(lengths, ["a", "\\", "\u00e9", "Windows\\", "\U0001f600", "\x7f\u0080"])
    run.explore(edits, PATHS)
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.tally.sample({"path": PATHS[0], "hashes": [o(units(PATHS[0])) for _, _, o in FUNCTIONS]})
    run.bounds = {"word_length": depth, "characters": "every BMP character whose upper case is one character", "positions": len(positions), "lengths": 300}
    run.rule = "every path of the bounded space; each hash compared to a polynomial evaluation of the documented algorithm"
    run.assumptions = ["upper-casing is Python's Unicode upper-casing; characters that upper-case to several are outside the space"]
