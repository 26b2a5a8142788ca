"""Record layouts: one table packs the bytes and states the reported values.

A field is "key:code:Description:rendering". The code is a struct letter or a
byte count; an empty description means the value is stored but not reported.
"""
import struct

from mc.fmt import common

RENDER = {
    "d": lambda v: f"{v:d}",
    "x2": lambda v: f"0x{v:02x}",
    "x4": lambda v: f"0x{v:04x}",
    "x8": lambda v: f"0x{v:08x}",
    "off": common.offset,
    "posix": common.posix,
    "posix_us": common.posix_us,
    "posix_ns": common.posix_ns,
    "filetime": common.filetime,
    "hfs": common.hfs,
    "f": lambda v: f"{v:f}",
    "s": lambda v: v.replace(b"\0", b"").decode("utf-8"),
    "dump": bytes,
    "ipv4": lambda v: ".".join(str(b) for b in v),
    "ipv6": lambda v: ":".join(f"{v[i] << 8 | v[i + 1]:04x}" for i in range(0, 16, 2)),
}
RENDER["ip"] = lambda v: RENDER["ipv4" if len(v) == 4 else "ipv6"](v)

#: Values for which a rendering is defined without doubt.
DOMAIN = {
    "posix": (0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 253402300799, -1, -0x80000000),
    "posix_us": (0, 1, 999999, 1000000, 0x7fffffff, 0x80000000 * 1000000, 253402300799999999),
    "posix_ns": (0, 1, 999999999, 1000000000, 0x7fffffffffffffff),
    "filetime": (0, 1, 116444736000000000, 0x01d0000012345678, 0x7fffffffffffffff, 2650467743999999999),
    "hfs": (0, 1, 0x7fffffff, 0x80000000, 0xffffffff),
}

SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "q": 8, "Q": 8}


class Table:
    def __init__(self, order, *fields, **renders):
        self.order = order
        self.fields = []
        for field in fields:
            key, code, description, render = (field.split(":") + ["", ""])[:4]
            code = f"{code}s" if code.isdigit() else code
            self.fields.append((key, code, description, render, renders.get(render) or RENDER.get(render)))
        self.size = struct.calcsize(order + "".join(f[1] for f in self.fields))

    def base(self, start=1, **values):
        """Every field has bytes of its own."""
        result = {}
        for key, code, _, render, _ in self.fields:
            size = struct.calcsize(self.order + code)
            if code.endswith("s"):
                result[key] = bytes((0x21 + (start + i) % 90 if render == "s" else (start + i) & 0x7f) for i in range(size))
            elif render in DOMAIN:
                result[key] = {4: 0x51000000, 8: {"posix": 0x51000000, "posix_us": 0x5100000011223 * 1, "posix_ns": 0x1510000011223344,
                                                   "filetime": 0x01d0000012345678}.get(render, 0x51000000)}.get(size, 1) + start
            elif code in "fd":
                result[key] = start + 0.5
            else:
                result[key] = int.from_bytes(bytes((start + i) & 0x7f for i in range(size)), "big")
            start = (start + size) & 0x7f
        result.update(values)
        return result

    def pack(self, values):
        return struct.pack(self.order + "".join(f[1] for f in self.fields), *(values[f[0]] for f in self.fields))

    def expect(self, values):
        return [(d, r(values[k])) for k, _, d, _, r in self.fields if d]

    def variants(self, base, skip=()):
        """(label, values): one field at a time at each of its boundary values."""
        for key, code, _, render, _ in self.fields:
            if key in skip:
                continue
            size = struct.calcsize(self.order + code)
            if code.endswith("s"):
                choices = [b"\0" * size, b"\x7f" * size, bytes(range(0x21, 0x21 + min(size, 80))).ljust(size, b"\0")]
                if render in ("dump", "ipv4", "ipv6", "ip") or not render:
                    choices += [b"\xff" * size, b"\x80" + b"\0" * (size - 1), b"\0" * (size - 1) + b"\x01"]
            elif code in "fd":
                choices = [0.0, -1.5, 1e10]
            else:
                signed = code in "bhiq"
                bits = size * 8
                low, high = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
                choices = {0, 1, low, high, (1 << bits - 1) - 1, high >> bits // 2}
                choices |= {1 << 8 * i for i in range(size)}
                if not signed:
                    choices.add(1 << bits - 1)
                else:
                    choices.add(-1)
                if render in DOMAIN:
                    choices = set(DOMAIN[render])
                choices = sorted(c for c in choices if low <= c <= high)
            for choice in choices:
                if choice != base[key]:
                    yield f"{key}={choice!r:.40}", {**base, key: choice}
