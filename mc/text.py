"""Parsing of the text a reader writes to its output writer.

The text is part of the observable behaviour: "Description<tabs>: value" lines
and "Description:" followed by a hexadecimal dump. Nothing else is assumed.
"""
import re

_VALUE = re.compile(r"^(.*?)\t+: (.*)$")
_DUMP = re.compile(r"^0x([0-9a-f]{8,})  ((?:[0-9a-f]{2} ){0,7}[0-9a-f]{2}(?: ?))(?: ((?:[0-9a-f]{2} ?){0,8}))?\s*(.*)$")


def undump(lines, start):
    """Decodes hexdump lines from index start; returns (bytes, next index)."""
    data = bytearray()
    index = start
    repeat = None
    while index < len(lines):
        line = lines[index]
        if line == "...":
            repeat = bytes(data[-16:])
            index += 1
            continue
        if not (line.startswith("0x") and len(line) >= 60 and line[10:12] == "  "):
            break
        try:
            offset = int(line[2:10], 16)
            row = bytes.fromhex(line[12:60].replace(" ", ""))
        except ValueError:
            break
        if repeat is not None:
            while len(data) < offset:
                data += repeat
            repeat = None
        if offset != len(data):
            break
        data += row
        index += 1
    return bytes(data), index


def pairs(text):
    """[(description, value)]: str for value lines, bytes for dumps."""
    lines = text.split("\n")
    result = []
    index = 0
    while index < len(lines):
        line = lines[index]
        match = _VALUE.match(line)
        if match:
            result.append((match.group(1), match.group(2)))
            index += 1
            continue
        if line.endswith(":") and not line.startswith("0x"):
            data, after = undump(lines, index + 1)
            if after > index + 1:
                result.append((line[:-1], data))
                index = after
                continue
            if index + 1 < len(lines) and lines[index + 1] == "":
                result.append((line[:-1], b""))
        index += 1
    return result


def pick(text, *descriptions):
    """The pairs with these descriptions, in order."""
    wanted = set(descriptions)
    return [p for p in pairs(text) if p[0] in wanted]


def first_difference(got, expected):
    """Short description of how two lists differ, or None."""
    if got == expected:
        return None
    for index, (a, b) in enumerate(zip(got, expected)):
        if a != b:
            return f"item {index}: got {a!r:.300} expected {b!r:.300}"
    return f"{len(got)} items instead of {len(expected)}: got next {got[len(expected):][:2]!r:.300} expected next {expected[len(got):][:2]!r:.300}"
