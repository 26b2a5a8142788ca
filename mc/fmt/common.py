"""Independent renderings of common value types, as the debug text shows them."""
import datetime

_EPOCH = datetime.datetime(1970, 1, 1)


def posix(seconds):
    if seconds == 0:
        return "Not set (0)"
    return (_EPOCH + datetime.timedelta(seconds=seconds)).strftime("%Y-%m-%d %H:%M:%S").rjust(19, "0") + " UTC"


def _fraction(whole, fraction, digits):
    return (_EPOCH + datetime.timedelta(seconds=whole)).strftime("%Y-%m-%d %H:%M:%S") + f".{fraction:0{digits}d} UTC"


def posix_us(value):
    if value == 0:
        return "Not set (0)"
    return _fraction(*divmod(value, 1000000), 6)


def posix_ns(value):
    if value == 0:
        return "Not set (0)"
    return _fraction(*divmod(value, 1000000000), 9)


def filetime(value):
    if value == 0:
        return "Not set (0)"
    if value == 0x7fffffffffffffff:
        return "Never (0x7fffffffffffffff)"
    seconds, fraction = divmod(value, 10000000)
    try:
        return _fraction(seconds - 11644473600, fraction, 7)
    except OverflowError:
        return f"0x{value:08x}"


def hfs(value):
    if value == 0:
        return "Not set (0)"
    return (datetime.datetime(1904, 1, 1) + datetime.timedelta(seconds=value)).strftime("%Y-%m-%d %H:%M:%S") + " UTC"


def offset(value):
    return f"{value} (0x{value:08x})"
