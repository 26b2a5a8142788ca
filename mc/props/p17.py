"""P17: unified logging format strings: scanner, operators and value decoders against independent references."""
import base64
import calendar
import ipaddress
import itertools
import math
import stat
import struct
import time
import uuid

from mc import core  # noqa: F401
from mc.fmt import aul_names
from dtformats import unified_logging

UNSUPPORTED = "<decode: unsupported value>"
MISSING = "<decode: missing data>"

INTERNAL = {}
for _specifiers, _name in (("@Ps", "internal:s"), ("aAeEfFgG", "internal:f"), ("coOpuUxX", "internal:u"),
                           ("dDi", "internal:i"), ("m", "internal:m")):
    for _specifier in _specifiers:
        INTERNAL[_specifier] = _name
SPECIFIERS = "@aAcCdDeEfFgGimnoOpPsSuUxX"
IGNORED = ("", "bluetooth:OI_STATUS", "private", "public", "sensitive", "xcode:size-in-bytes")


def scan(text):
    """Reference scanner: a hand-written automaton. Returns a list of literal strings and operator tuples."""
    out, literal, index = [], "", 0
    while index < len(text):
        if text[index] != "%":
            literal += text[index]
            index += 1
            continue
        if text[index:index + 2] == "%%":
            literal += "%"
            index += 2
            continue
        at = index + 1
        decoder = flags = width = precision = ""
        if text[at:at + 1] == "{":
            end = text.find("}", at)
            if end > at + 1 and end - at - 1 <= 128:
                decoder, at = text[at + 1:end], end + 1
        while at < len(text) and text[at] in "-+0 #" and len(flags) < 5:
            flags += text[at]
            at += 1
        if text[at:at + 1] == "*":
            width, at = "*", at + 1
        else:
            while at < len(text) and text[at] in "0123456789":
                width += text[at]
                at += 1
        if text[at:at + 1] == ".":
            precision, at = ".", at + 1
            if text[at:at + 1] == "*":
                precision, at = ".*", at + 1
            else:
                while at < len(text) and text[at] in "0123456789":
                    precision += text[at]
                    at += 1
        for modifier in ("hh", "ll", "h", "l", "j", "L", "t", "q", "z"):
            if text.startswith(modifier, at):
                at += len(modifier)
                break
        if at < len(text) and text[at] in SPECIFIERS:
            if literal:
                out.append(literal)
                literal = ""
            names = [n.strip() for n in decoder.split(",")]
            names = [n for n in names if n not in IGNORED and not n.startswith("name=")]
            if not names and text[at] in INTERNAL:
                names = [INTERNAL[text[at]]]
            out.append((names, flags, width, precision, text[at]))
            index = at + 1
        else:
            literal += "%"
            index += 1
    if literal:
        out.append(literal)
    return out


def compose(segments, values):
    out, index = "", 0
    for segment in segments:
        if isinstance(segment, str):
            out += segment
        else:
            out += values[index] if index < len(values) else MISSING
            index += 1
    return out


def check_scan(tally, text, values=None):
    segments = scan(text)
    operators = [s for s in segments if not isinstance(s, str)]
    try:
        formatter = unified_logging.StringFormatter()
        formatter.ParseFormatString(text)
        got = []
        for index in range(len(operators) + 1):
            operator = formatter.GetFormatStringOperator(index)
            got.append(operator and (list(formatter.GetDecoderNamesByIndex(index)), operator.flags or "", operator.width or "",
                                     operator.precision or "", operator.specifier))
        if got != operators + [None]:
            tally.violate("operators", f"format string {text!r}: operators {got!r}, expected {operators!r}", {"text": text})
            return
        lists = values
        if lists is None:
            lists = [[f"<{i}>" for i in range(n)] for n in sorted({0, len(operators), len(operators) + 1, max(0, len(operators) - 1)})]
        for row in lists:
            message = formatter.FormatString(list(row))
            expected = compose(segments, row)
            tally.add("evaluations")
            if message != expected:
                tally.violate("message", f"format string {text!r} with {row!r}: {message!r}, expected {expected!r}", {"text": text, "values": row})
                return
    except Exception as e:  # pylint: disable=broad-except
        tally.violate("raised", f"format string {text!r}: {type(e).__name__}: {e}", {"text": text})
        return
    tally.add("executions")
    tally.add("transitions", len(text) + 1)
    tally.seen(("scan", text))


ALPHABET = "%d{}0 .*-l@a"
SEGMENTS = ["text", " ", "{", "}", "{0}", "{}", "{{", "}}", "%%", "%", "%d", "%{public}s", "%{private, mask.hash}@", "%{time_t}d", "%-5s", "%05.2f",
            "%{name=x,uuid_t}.16P", "%{}d", "%{signpost.telemetry:number1,public}llu", "%*d", "%.*P", "%zu", "%m", "%k", "\u00e9\n", "%{a", "%{bool}hhd", "%n", "%ld"]


def words(tally, argument):
    prefix, length = argument
    for tail in itertools.product(ALPHABET, repeat=length - len(prefix)):
        check_scan(tally, prefix + "".join(tail))


def sequences(tally, argument):
    head, depth = argument
    for tail in itertools.product(SEGMENTS, repeat=depth):
        check_scan(tally, head + "".join(tail))


def composed(tally, argument):
    """Values that look like markup must appear unchanged and must not shift."""
    first, rows = argument
    for second in SEGMENTS:
        for third in SEGMENTS:
            check_scan(tally, first + second + third, rows)


ROWS = [list(r) for n in range(4) for r in itertools.product(("", "{0}", "%s"), repeat=n)] + [["{", "}", "%%", "x"], ["\u00e9", "\n", "{1:d}"]]


# Operators.

def raw_integer(number, size):
    return (number & ((1 << 8 * size) - 1)).to_bytes(size, "little")


PYTHON = {"D": "d", "i": "d", "O": "o", "U": "d", "u": "d", "@": "s", "P": "s"}
DECODERS = {"internal:i": lambda: unified_logging.SignedIntegerFormatStringDecoder(),
            "internal:u": lambda: unified_logging.UnsignedIntegerFormatStringDecoder(),
            "internal:f": lambda: unified_logging.FloatingPointFormatStringDecoder(),
            "internal:s": lambda: unified_logging.StringFormatStringDecoder()}
STRINGS = ["a", "hello world", "h\u00e9llo", "", "x" * 14, "a\x00", "{0}", "%d", " "]
FLOATS = [0.0, -0.0, 1.0, 1.5, -3.25, 1e10, 123456789.125, 1e-7, 1e300, math.inf, -math.inf, math.nan, 0.1]


def integers(size):
    top = 1 << 8 * size
    return sorted({0, 1, 7, 42, 65, top // 2 - 1, top // 2, top - 1, top - 42, 10 % top, 100 % top, 12345 % top})


def printf(flags, width, precision, specifier, value):
    """The independent reference is Python's % operator, which implements C's rules; None: not specified."""
    width = "" if width == "*" else width
    if specifier in "aA":
        return None
    if precision == ".*":
        if specifier in "dDiuUoOxX":
            return None
        precision = ""
    precision = precision if precision != "." else ".0"
    if specifier in "sP@":
        if specifier == "P" or precision == ".0":
            precision = ""
        return ("%" + flags.replace("0", "").replace("+", "").replace("#", "").replace(" ", "") + width + precision + "s") % value
    if specifier == "c":
        if value > 0x10ffff:
            return UNSUPPORTED
        return ("%" + flags.replace("0", "").replace("+", "").replace("#", "").replace(" ", "") + width + "c") % value
    if specifier in "dDiuUoOxX":
        if precision:
            return None
        if specifier in "oO" and "#" in flags or specifier in "uUoOxX" and ("+" in flags or " " in flags):
            return None
        if specifier in "xX" and value == 0:
            flags = flags.replace("#", "")
    if specifier == "p":
        # Implementation-defined in C: a hexadecimal number with a prefix.
        if "+" in flags or " " in flags or precision:
            return None
        return ("%#" + flags.replace("#", "") + width + "x") % value if not (value == 0 and "0" in flags) else None
    return ("%" + flags + width + precision + PYTHON.get(specifier, specifier)) % value


def check_operator(tally, flags, width, precision, specifier):
    text = "%" + flags + width + precision + specifier
    parsed = [s for s in scan(text) if not isinstance(s, str)]
    if len(parsed) != 1 or parsed[0][1:] != (flags, width, precision, specifier):
        return  # For example a width that starts with a flag: the same operator is reached by another word.
    name = INTERNAL[specifier]
    decoder = DECODERS[name]()
    formatter = unified_logging.StringFormatter()
    formatter.ParseFormatString(text)
    operator = formatter.GetFormatStringOperator(0)
    if name == "internal:s":
        cases = [(s.rstrip("\x00"), s.encode("utf-8")) for s in STRINGS if s]
        cases += [("\U0001f600", "\U0001f600".encode("utf-8")), ("tail", b"tail\x00\x00")]
    elif name == "internal:f":
        cases = [(v, struct.pack("<d", v)) for v in FLOATS]
        cases += [(struct.unpack("<f", struct.pack("<f", v))[0], struct.pack("<f", v)) for v in FLOATS if v != 1e300]
    else:
        cases = []
        for size in (1, 2, 4, 8):
            for number in integers(size):
                value = number
                if name == "internal:i" and number >> (8 * size - 1):
                    value -= 1 << 8 * size
                cases.append((value, raw_integer(number, size)))
    for value, data in cases:
        expected = printf(flags, width, precision, specifier, value)
        try:
            got = decoder.FormatValue(data, format_string_operator=operator)
        except Exception as e:  # pylint: disable=broad-except
            tally.violate("operator", f"{text!r} of {value!r} ({len(data)} bytes) raised {type(e).__name__}: {e}", {"text": text, "data": data.hex()})
            return
        tally.add("evaluations")
        if expected is not None and got != expected or not isinstance(got, str):
            tally.violate("operator", f"{text!r} of {value!r} ({len(data)} bytes): {got!r}, expected {expected!r}", {"text": text, "data": data.hex()})
            return
    tally.add("executions")
    tally.seen(("operator", text))


FLAGS = [""] + ["".join(p) for n in (1, 2, 3) for p in itertools.permutations("-+0 #", n)]


def operators(tally, specifier):
    for flags in FLAGS:
        for width in ("", "1", "5", "12", "20", "*"):
            for precision in ("", ".", ".0", ".1", ".3", ".10", ".16", ".*"):
                check_operator(tally, flags, width, precision, specifier)


# Decoders.

def u16(data, order="little"):
    return [int.from_bytes(data[i:i + 2], order) for i in range(0, len(data), 2)]


def number(data):
    return int.from_bytes(data, "little")


def boolean(false, true):
    return lambda data, specifier: true if any(data) else false


def table(names, form="{}", size=4, signed=False):
    def decode(data, specifier):
        if size and len(data) != size:
            return UNSUPPORTED
        value = int.from_bytes(data, "little", signed=signed)
        return form.format(names[value] if value in names else f"<decode: unknown value: {value}>", value)
    return decode


def file_mode(data, specifier):
    value = number(data) & 0xf1ff
    text = stat.filemode(value)
    return ("-" if value & 0xf000 not in (0x1000, 0x2000, 0x4000, 0x6000, 0xa000, 0xc000) else text[0]) + text[1:]


def ipv4(data, specifier):
    return str(ipaddress.IPv4Address(data)) if len(data) == 4 else UNSUPPORTED


def ipv6(data, specifier):
    return ipaddress.IPv6Address(data).exploded if len(data) == 16 else UNSUPPORTED


def socket_address(data, specifier):
    if not data:
        return "<NULL>"
    if len(data) == 16 and data[1] == 2:
        return str(ipaddress.IPv4Address(data[4:8]))
    if len(data) == 28 and data[1] == 30:
        groups = u16(data[8:24], "big")
        if all(groups):
            return ipaddress.IPv6Address(data[8:24]).exploded
        return "::" if not any(groups) else None  # the notation of partly zero addresses is not specified
    return UNSUPPORTED


def time_t(data, specifier):
    value = number(data)
    if value > calendar.timegm((9999, 12, 31, 23, 59, 59)):
        return UNSUPPORTED
    return time.strftime("%Y-%m-%d %H:%M:%S", time.gmtime(value))


def uuid_t(data, specifier):
    return str(uuid.UUID(data.hex())).upper() if len(data) == 16 else UNSUPPORTED


def mask_hash(data, specifier):
    return f"<mask.hash: '{base64.b64encode(data).decode()}'>" if data else "<mask.hash: (null)>"


FLAG_NAMES = (("AA", 10), ("TC", 9), ("RD", 8), ("RA", 7), ("AD", 5), ("CD", 4))
OPERATIONS = ["Query", "IQuery", "Status", "Unassigned", "Notify", "Update", "DSO"] + ["?"] * 9
RESPONSES = ["NoError", "FormErr", "ServFail", "NXDomain", "NotImp", "Refused", "YXDomain", "YXRRSet", "NXRRSet", "NotAuth", "NotZone",
             "DSOTypeNI"] + ["?"] * 4


def dns_flags(value):
    names = ", ".join(n for n, bit in FLAG_NAMES if value >> bit & 1)
    return f"{'RQ'[not value >> 15]}/{OPERATIONS[value >> 11 & 15]}, {names}, {RESPONSES[value & 15]}"


def dns_header(data, specifier):
    if len(data) != 12:
        return UNSUPPORTED
    identifier, flags, *counts = u16(data, "big")
    return f"id: 0x{identifier:04X} ({identifier}), flags: 0x{flags:04X} ({dns_flags(flags)}), counts: {'/'.join(map(str, counts))}"


def dns_identifier(data, specifier):
    if len(data) != 8:
        return UNSUPPORTED
    flags, identifier = u16(data[:4])
    return f"id: 0x{identifier:04X} ({identifier}), flags: 0x{flags:04X} ({dns_flags(flags)})"


def dns_counts(data, specifier):
    return "/".join(map(str, reversed(u16(data)))) if len(data) == 8 else UNSUPPORTED


def members(data, specifier):
    kinds = {0x23: ("user", True), 0x24: ("user", False), 0x44: ("group", False), 0xa0: ("user", False), 0xa3: ("user", True),
             0xa4: ("user", False), 0xc3: ("group", True)}
    if not data:
        return UNSUPPORTED
    if data[0] not in kinds:
        return f"ERROR: unsupported type: 0x{data[0]:02x}"
    kind, numeric = kinds[data[0]]
    rest = data[1:]
    if numeric:
        if len(rest) < 4:
            return UNSUPPORTED
        name, rest = str(int.from_bytes(rest[:4], "little", signed=True)), rest[4:]
    else:
        name, end, rest = rest.partition(b"\0")
        if not end:
            return UNSUPPORTED
        try:
            name = name.decode("utf-8")
        except UnicodeDecodeError:
            return UNSUPPORTED
    domain, end, _ = rest.partition(b"\0")
    if not end:
        return UNSUPPORTED
    try:
        return f"{kind}: {name}@{domain.decode('utf-8')}"
    except UnicodeDecodeError:
        return UNSUPPORTED


def sid(data, specifier):
    if len(data) < 8 or len(data) < 8 + 4 * data[1]:
        return UNSUPPORTED
    if not data[1]:
        return None
    parts = [data[0], int.from_bytes(data[2:8], "big")] + list(struct.unpack(f"<{data[1]}I", data[8:8 + 4 * data[1]]))
    return "S-" + "-".join(map(str, parts))


def escape_only(data, specifier):
    try:
        return '"' + data.decode("utf-8").rstrip("\0").replace("/", "\\/") + '"'
    except UnicodeDecodeError:
        return UNSUPPORTED


def plain(data, specifier):
    """The signpost rendering of a value for its specifier."""
    if not data:
        return ""
    if specifier in "aAeEfFgG":
        if len(data) not in (4, 8):
            return UNSUPPORTED
        return "%.16g" % struct.unpack("<f" if len(data) == 4 else "<d", data)
    if specifier in "@sS":
        try:
            return data.decode("utf-8").rstrip("\0")
        except UnicodeDecodeError:
            return UNSUPPORTED
    if specifier not in "cCoOpuUxXdDim" or len(data) not in (1, 2, 4, 8):
        return UNSUPPORTED
    value = int.from_bytes(data, "little", signed=specifier in "dDim")
    if specifier in "cC":
        return chr(value) if value < 0x110000 else UNSUPPORTED
    if specifier in "oO":
        return oct(value)[2:]
    if specifier in "xXp":
        text = ("0x" if specifier == "p" else "") + hex(value)[2:]
        return text.upper() if specifier == "X" else text
    return str(value)


def attribute(data, specifier):
    return f"__##__signpost.description#____#attribute#_##_#{plain(data, specifier)}##__##"


def signpost_time(which):
    def decode(data, specifier):
        if len(data) != 8:
            return UNSUPPORTED
        return f"__##__signpost.description#____#{which}_time#_##_#{number(data)}##__##"
    return decode


def telemetry_number(index):
    return lambda data, specifier: f"__##__signpost.telemetry#____#number{index}#_##_#{plain(data, specifier)}##__##"


def telemetry_string(index):
    def decode(data, specifier):
        try:
            return f"__##__signpost.telemetry#____#string{index}#_##_#" + data.decode("utf-8").rstrip("\0") + "##__##"
        except UnicodeDecodeError:
            return UNSUPPORTED
    return decode


MANAGER = (("distanceFilter", "d"), ("desiredAccuracy", "d"), ("updatingLocation", "?"), ("requestingLocation", "?"), ("requestingRanging", "?"),
           ("updatingRanging", "?"), ("updatingHeading", "?"), (None, "3s"), ("headingFilter", "d"), ("allowsLocationPrompts", "?"),
           ("allowsAlteredAccessoryLoctions", "?"), ("dynamicAccuracyReductionEnabled", "?"), ("previousAuthorizationStatusValid", "?"),
           ("previousAuthorizationStatus", "I"), ("limitsPrecision", "?"), (None, "7s"), ("activityType", "q"),
           ("pausesLocationUpdatesAutomatially", "i"), ("paused", "?"), ("allowsBackgroundLocationUpdates", "?"),
           ("showsBackgroundLocationIndicator", "?"), ("allowsMapCorrection", "?"))
MANAGER2 = MANAGER + tuple((n, "?") for n in ("batchingLocation", "updatingVehicleSpeed", "updatingVehicleHeading", "matchInfoEnabled",
                                              "groundAltitudeEnabled", "fusionInfoEnabled", "courtesyPromptNeeded", "isAuthorizedForWidgetUpdates"))


class Json(str):
    """A JSON-like object: compared as the set of its members."""


def shown(value):
    if isinstance(value, bool):
        return "true" if value else "false"
    return f"{value:d}" if isinstance(value, int) else f"{value:.0f}"


def location_manager(data, specifier):
    layout = {64: MANAGER, 72: MANAGER2}.get(len(data))
    if not layout:
        return UNSUPPORTED
    values = struct.unpack("<" + "".join(f for _, f in layout), data)
    return Json(",".join(sorted(f'"{n}":{shown(v)}' for (n, _), v in zip(layout, values) if n)))


def client_manager(data, specifier):
    if len(data) != 8:
        return UNSUPPORTED
    status, restricted = struct.unpack("<II", data)
    return Json(",".join(sorted([f'"locationServicesEnabledStatus":{status}', f'"locationRestricted":{shown(bool(restricted))}'])))


def text(data, specifier):
    if not data:
        return "(null)"
    try:
        return data.decode("utf-8").rstrip("\0")
    except UnicodeDecodeError:
        return UNSUPPORTED


def integer(signed):
    def decode(data, specifier):
        if len(data) not in (1, 2, 4, 8):
            return UNSUPPORTED
        return str(int.from_bytes(data, "little", signed=signed))
    return decode


def floating(data, specifier):
    if len(data) not in (4, 8):
        return UNSUPPORTED
    return "%f" % struct.unpack("<f" if len(data) == 4 else "<d", data)


AUTHORIZATION = dict(enumerate(["Not Determined", "Restricted", "Denied", "Authorized Always", "Authorized When In Use"]))
REFERENCES = {
    "bool": boolean("false", "true"), "BOOL": boolean("NO", "YES"), "mdns:acceptable": boolean("unacceptable", "acceptable"),
    "mdns:addrmv": boolean("rmv", "add"), "mdns:yesno": boolean("no", "yes"),
    "errno": table(aul_names.ERRNO, "[{1}: {0}]", signed=True), "darwin.errno": table(aul_names.ERRNO, "[{1}: {0}]", signed=True),
    "internal:m": table(aul_names.ERRNO, signed=True), "darwin.mode": file_mode, "in_addr": ipv4, "network:in_addr": ipv4, "in6_addr": ipv6,
    "network:in6_addr": ipv6, "sockaddr": socket_address, "network:sockaddr": socket_address, "time_t": time_t, "uuid_t": uuid_t,
    "mask.hash": mask_hash, "mdns:dnshdr": dns_header, "mdns:dns.idflags": dns_identifier, "mdns:dns.counts": dns_counts,
    "mdns:protocol": table({1: "UDP", 2: "TCP", 4: "HTTPS"}),
    "mdns:nreason": table({1: "no-data", 2: "nxdomain", 3: "query-suppressed", 4: "no-dns-service", 5: "server error"}),
    "mdns:rrtype": table(aul_names.RR), "odtypes:mbr_details": members, "odtypes:mbridtype": table(aul_names.MBR), "odtypes:nt_sid_t": sid,
    "odtypes:ODError": table(aul_names.OD), "location:SqliteResult": table(aul_names.SQLITE, '"{}"'),
    "location:CLClientAuthorizationStatus": table(AUTHORIZATION, '"{}"', size=None), "location:escape_only": escape_only,
    "location:_CLClientManagerStateTrackerState": client_manager, "location:_CLLocationManagerStateTrackerState": location_manager,
    "signpost.description:attribute": attribute, "signpost.description:begin_time": signpost_time("begin"),
    "signpost.description:end_time": signpost_time("end"), "signpost.telemetry:number1": telemetry_number(1),
    "signpost.telemetry:number2": telemetry_number(2), "signpost.telemetry:number3": telemetry_number(3),
    "signpost.telemetry:string1": telemetry_string(1), "signpost.telemetry:string2": telemetry_string(2),
    "internal:s": text, "internal:i": integer(True), "internal:u": integer(False), "internal:f": floating,
}
WITH_SPECIFIER = ("signpost.description:attribute", "signpost.telemetry:number1", "signpost.telemetry:number2", "signpost.telemetry:number3")


def registry():
    return getattr(unified_logging.TraceV3File, "_FORMAT_STRING_DECODERS", {})


def values_of(name, thorough):
    """Every value of the bounded space of a decoder."""
    out = set()
    for size in list(range(0, 33)) + [63, 64, 65, 71, 72, 73]:
        for byte in (0, 1, 0x41, 0x7f, 0x80, 0xff):
            out.add(bytes([byte]) * size)
        out.add(bytes(range(1, size + 1)))
        out.add(bytes(range(0x30, 0x30 + size)))
        for index in range(size):
            out.add(bytes(index) + b"\x01" + bytes(size - index - 1))
            if size in (4, 8, 12, 16):
                for bit in range(8):
                    out.add(bytes(index) + bytes([1 << bit]) + bytes(size - index - 1))
    for value in itertools.chain(range(0, 4096), range(-64, 0), (1 << 14, 1 << 15, 32768, 32769, 4202, 10000, 10003, 10004, 65535, 1 << 31, 253402300799, 253402300800)):
        for size in (1, 2, 4, 8):
            if -(1 << 8 * size - 1) <= value < 1 << 8 * size:
                out.add(raw_integer(value, size))
    if name == "odtypes:ODError":
        out.update(raw_integer(v, 4) for v in range(0, 12000))
    if name == "darwin.mode":
        out.update(raw_integer(v, 2) for v in range(0, 65536, 1 if thorough else 3))
        out.update(raw_integer(a << 12 | v, 4) for a in range(16) for v in range(512))
    if name == "mdns:dnshdr":
        out.update(b"\x12\x34" + v.to_bytes(2, "big") + b"\0\1\0\2\1\0\0\4" for v in range(0, 65536, 1 if thorough else 5))
    if name == "mdns:dns.idflags":
        out.update(v.to_bytes(2, "little") + b"\x34\x12abcd" for v in range(0, 65536, 1 if thorough else 5))
    if name in ("sockaddr", "network:sockaddr"):
        for size in range(2, 33):
            for family in (0, 1, 2, 3, 30, 31, 255):
                for length in (0, 16, 28):
                    out.add(bytes([length, family]) + bytes(range(1, size - 1)))
                    out.add(bytes([length, family]) + bytes(size - 2))
                    out.add(bytes([length, family]) + b"\xff" * (size - 2))
        for position in range(26):
            out.add(b"\x1c\x1e" + bytes(0x11 + (0x80 if i == position else i) for i in range(26)))
        for position in range(14):
            out.add(b"\x10\x02" + bytes(0x11 + (0x80 if i == position else i) for i in range(14)))
    if name == "odtypes:mbr_details":
        for kind in range(256):
            for rest in (b"", b"\0", b"\0\0", b"a\0", b"a\0b\0", b"a\0b", b"\1\2\3\4/Local\0", b"\xff\xff\xff\xff\0", b"\1\2\3\4x", b"\xff\0b\0", "\u00e9\0/b\0x".encode()):
                out.add(bytes([kind]) + rest)
    if name == "odtypes:nt_sid_t":
        for count in range(0, 7):
            for size in range(0, 36):
                out.add(bytes([1, count, 0, 0, 0, 0, 0, 5]) + bytes(range(200, 200 + size)))
                out.add(bytes([2, count]) + bytes(range(1, 7)) + bytes(size))
    for string in STRINGS + ["/a/b//", "\u00e9/\u4e2d", "\U0001f600", "a\x00b", "\x00", "x\x00\x00"]:
        out.add(string.encode("utf-8"))
    out.update((b"\xff", b"a\xff", b"\xc3", b"\xed\xa0\x80"))
    if name.startswith("location:_CL"):
        for size in (8, 64, 72):
            for index in range(size):
                for byte in (2, 0x40, 0x80, 0xbf, 0xff):
                    out.add(bytes(index) + bytes([byte]) + bytes(size - index - 1))
    return sorted(out)


def check_value(tally, name, data, specifier):
    decoder = registry().get(name)
    reference = REFERENCES[name]
    expected = reference(data, specifier)
    keywords = {}
    if name in WITH_SPECIFIER:
        formatter = unified_logging.StringFormatter()
        formatter.ParseFormatString("%" + specifier)
        keywords["format_string_operator"] = formatter.GetFormatStringOperator(0)
    try:
        got = decoder.FormatValue(data, **keywords)
    except Exception as e:  # pylint: disable=broad-except
        tally.violate("decoder", f"{name} ({specifier}) of {data.hex()}: {type(e).__name__}: {e}", {"name": name, "data": data.hex(), "specifier": specifier})
        return False
    tally.add("evaluations")
    tally.add("executions")
    compared = got
    if isinstance(expected, Json) and isinstance(got, str) and got[:1] == "{" and got[-1:] == "}":
        compared = Json(",".join(sorted(got[1:-1].split(","))))
    if expected is not None and compared != expected or not isinstance(got, str):
        tally.violate("decoder", f"{name} ({specifier}) of {data.hex()}: {got!r}, expected {expected!r}", {"name": name, "data": data.hex(), "specifier": specifier})
        return False
    return True


def decoders(tally, argument):
    name, thorough = argument
    if name not in registry():
        tally.violate("registry", f"no decoder for {name}", {"name": name})
        return
    values = values_of(name, thorough)
    bad = 0
    for specifier in (SPECIFIERS if name in WITH_SPECIFIER else "s"):
        if bad > 3:
            break
        for data in values:
            with core.time_limit(20):
                bad += not check_value(tally, name, data, specifier)
            tally.seen((name, data))
            if bad > 3:
                break


def main(run):
    depth = 6 if run.thorough else 5
    run.explore(words, [("", n) for n in range(0, 3)] + [(a + b, n) for n in range(3, depth + 1) for a in ALPHABET for b in ALPHABET if n < depth or "%" in a + b or run.thorough])
    sequence_depth = 2 if not run.thorough else 3
    run.explore(sequences, [(a, sequence_depth) for a in SEGMENTS] + [("", n) for n in range(2)])
    run.explore(composed, [(s, ROWS if not run.thorough else ROWS + [["{" * n] * 3 for n in range(1, 4)]) for s in SEGMENTS])
    run.explore(operators, sorted(set(SPECIFIERS) & {s for s in INTERNAL if INTERNAL[s] != "internal:m"}))
    run.explore(decoders, [(n, run.thorough) for n in sorted(REFERENCES)])
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.tally.sample({"format_string": "%{name=x,uuid_t}.16P", "segments": scan("%{name=x,uuid_t}.16P")})
    run.bounds = {"word_length": depth, "alphabet": ALPHABET, "segments": sequence_depth + 1, "flag_permutations": len(FLAGS), "decoders": len(REFERENCES)}
    run.rule = ("every format string of the bounded space against a hand-written scanner; every flags/width/precision/specifier word against "
                "Python's printf operator; every value of the bounded space of every decoder against an independent reference")
    run.assumptions = ["outside: integer precision (not applied by the reader), %.0s (prints the whole string), '#' with octal, %a, sign flags of unsigned operators"]
