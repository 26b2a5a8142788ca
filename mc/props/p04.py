"""P04: a data range is an exact read-only window on its file.

Stateless exploration of the real DataRange class (and the archive entry class
derived from it): every operation sequence up to a depth is executed against a
four line reference (position + the window's bytes) and compared after every
operation.
"""
import io
import itertools
import os

from mc import core
from dtformats import cpio, data_range


class ShortFile(io.BytesIO):
    """A file whose read returns at most 2 bytes per call."""

    def read(self, size=-1):
        if size is None or size < 0 or size > 2:
            size = 2
        return super().read(size)


class Model:
    """Reference: the window as a file of its own."""

    def __init__(self, content, offset, size):
        self.data = content[offset:offset + size] if offset >= 0 and size >= 0 else b""
        self.offset = offset
        self.size = size
        self.pos = 0


def windows(length):
    for offset in range(0, length + 2):
        for size in range(0, length + 3):
            yield offset, size


SEEKS = [(k, w) for w in (0, 1, 2) for k in (-9, -2, -1, 0, 1, 2, 9)]
OPS = ([("read", n) for n in (None, 0, 1, 2, 3, 9, -1, -2)] +
       [("seek", k, w) for k, w in SEEKS] +
       [("seek", 0, 3), ("seek", 1, -1), ("seek", -1, 7),
        ("tell",), ("get_offset",), ("get_size",), ("seekable",),
        ("base_seek", 0), ("base_seek", 3), ("base_read", 1),
        ("other_read", 2), ("other_seek", 1)])
# the same behaviours, fewer equivalent values: used for the deeper layer
DEEP = ([("read", n) for n in (None, 0, 1, 2, 9, -1)] +
        [("seek", k, w) for k, w in ((0, 0), (1, 0), (9, 0), (-1, 0), (-1, 1), (1, 1), (-9, 1), (-1, 2), (-2, 2), (1, 2), (-9, 2))] +
        [("seek", 0, 3), ("base_seek", 3), ("base_read", 1), ("other_read", 2), ("other_seek", 1)])
BIG = ([("read", n) for n in (None, 1, 511, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, -1)] +
       [("seek", k, 0) for k in (0, 1, 4096, 65535, 65536, 65537, 1 << 31, 1 << 40)] +
       [("seek", k, 1) for k in (-1, 4096, -65536)] + [("seek", k, 2) for k in (0, -1, -4096, -65536, -65537, 1)] +
       [("base_seek", 3), ("base_read", 1), ("other_read", 70000)])


def _clip(text):
    text = repr(text)
    return text if len(text) < 120 else text[:60] + f"...({len(text)})"


def run_sequence(tally, cls, file_class, content, offset, size, ops):
    base = file_class(content)
    subject = cls(base, data_offset=offset, data_size=size)
    other_offset, other_size = 1, 3
    other = data_range.DataRange(base, data_offset=other_offset, data_size=other_size)
    model = Model(content, offset, size)
    other_model = Model(content, other_offset, other_size)
    short = file_class is ShortFile
    for index, op in enumerate(ops):
        problem = _step(subject, model, base, other, other_model, op, short)
        if problem is None and subject.tell() != model.pos:
            problem = f"position {subject.tell()!r} instead of {model.pos}"
        if problem:
            case = {"class": cls.__name__, "file": file_class.__name__, "length": len(content), "window": [offset, size],
                    "ops": [list(o) for o in ops[:index + 1]]}
            tally.violate("window", f"{_clip(case)}: {problem}", case)
            return
    tally.seen((offset, size, model.pos))


def _step(subject, model, base, other, other_model, op, short):
    name = op[0]
    try:
        if name == "read":
            return _read(subject, model, op[1], short)
        if name == "seek":
            return _seek(subject, model, op[1], op[2])
        if name in ("tell", "get_offset"):
            value = getattr(subject, name)()
            return None if value == model.pos else f"{name}() returned {value!r} instead of {model.pos}"
        if name == "get_size":
            value = subject.get_size()
            return None if value == model.size else f"get_size() returned {value!r} instead of {model.size}"
        if name == "seekable":
            return None if subject.seekable() else "seekable() is not true"
        if name == "base_seek":
            base.seek(op[1])
        elif name == "base_read":
            base.read(op[1])
        elif name == "other_read":
            problem = _read(other, other_model, op[1], short)
            return problem and f"other range: {problem}"
        elif name == "other_seek":
            problem = _seek(other, other_model, op[1], 0)
            return problem and f"other range: {problem}"
    except Exception as e:  # pylint: disable=broad-except
        return f"{op!r} raised {e!r}"
    return None


def _read(subject, model, size, short):
    if model.offset < 0 or model.size < 0:
        try:
            data = subject.read(size) if size is not None else subject.read()
        except OSError:
            return None
        return f"read({size!r}) of an invalid window returned {_clip(data)}"
    data = subject.read(size) if size is not None else subject.read()
    rest = model.data[model.pos:]
    expected = rest if size is None or size < 0 else rest[:size]
    if short:
        if not expected.startswith(data) or (expected and not data):
            return f"read({size!r}) returned {_clip(data)} which is no part of {_clip(expected)}"
        model.pos += len(data)
        return None
    if data != expected:
        return f"read({size!r}) returned {_clip(data)} instead of {_clip(expected)}"
    model.pos += len(expected)
    return None


def _seek(subject, model, offset, whence):
    target = None
    if whence == 0:
        target = offset
    elif whence == 1:
        target = model.pos + offset
    elif whence == 2:
        target = model.size + offset
    if model.size < 0:
        target = None
    try:
        subject.seek(offset, whence)
    except OSError as e:
        if target is None or target < 0:
            return None
        return f"seek({offset}, {whence}) raised {e!r}"
    if target is None or target < 0:
        return f"seek({offset}, {whence}) was accepted"
    model.pos = target
    return None


CLASSES = {"range": data_range.DataRange, "entry": cpio.CPIOArchiveFileEntry}
FILES = {"bytes": io.BytesIO, "short": ShortFile}


def task(tally, argument):
    class_name, file_name, length, offset, size, alphabet, depth, first = argument
    ops = {"ops": OPS, "deep": DEEP, "big": BIG}[alphabet]
    content = bytes(((i * 7 + 1) ^ (i >> 8)) & 0xff for i in range(length))
    cls, file_class = CLASSES[class_name], FILES[file_name]
    heads = [ops[first]] if first is not None else ops
    for head in heads:
        for tail in itertools.product(ops, repeat=depth - 1):
            run_sequence(tally, cls, file_class, content, offset, size, (head,) + tail)
            tally.add("executions")
            tally.add("transitions", depth)
            tally.add("evaluations", depth)
    tally.sample({"class": class_name, "file": file_name, "length": length, "window": [offset, size], "depth": depth})


def real_files(tally, argument):
    """The same on a real, buffered file (depth 2) and through the archive reader."""
    length, offset, size = argument
    content = bytes((i * 7 + 1) & 0xff for i in range(length))
    path = core.put(core.scratch(), f"f{length}-{offset}-{size}", content)

    def opened(_):
        return core._real_open(path, "rb")

    opened.__name__ = "file"
    for ops in itertools.product(OPS, repeat=2):
        base = core._real_open(path, "rb")
        try:
            run_sequence(tally, data_range.DataRange, lambda _: base, content, offset, size, ops)
        finally:
            base.close()
        tally.add("executions")
        tally.add("transitions", 2)
        tally.add("evaluations", 2)
    os.unlink(path)


def main(run):
    depth = 3
    work = []
    for class_name, file_name in (("range", "bytes"), ("entry", "bytes"), ("range", "short")):
        for length in ((5,) if class_name != "range" or file_name != "bytes" else (0, 1, 5)):
            for offset, size in windows(length):
                work.append((class_name, file_name, length, offset, size, "deep" if class_name == "entry" else "ops",
                             2 if class_name == "entry" or length < 5 else depth, None))
    for offset, size in ((-1, 3), (1, -1), (-3, -3), (-5, 0), (0, -9)):
        work.append(("range", "bytes", 5, offset, size, "deep", 3, None))
    selected = [(0, 5), (1, 3), (2, 2), (2, 9), (6, 2), (1, 0), (3, 1), (4, 3)]
    for offset, size in selected:
        for first in range(len(DEEP)):
            work.append(("range", "bytes", 5, offset, size, "deep", 5 if run.thorough else 4, first))
    for offset, size in ((0, 66000), (3, 65536), (1, 65535), (5000, 70000)):
        for first in range(len(BIG)):
            work.append(("range", "bytes", 70000, offset, size, "big", 3 if run.thorough else 2, first))
    run.explore(task, work, chunksize=4)
    run.explore(real_files, [(5, o, s) for o, s in windows(5)], chunksize=2)
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"depth_all_windows": 3, "depth_selected_windows": 5 if run.thorough else 4, "operations": len(OPS),
                  "windows": "every offset and size of files of 0, 1 and 5 bytes, up to 2 past the end; 4 windows of a 70000 byte file"}
    run.rule = "every operation sequence up to the depth on every window; each operation's result and position compared to a separate file holding the window's bytes"
