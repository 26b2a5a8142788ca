"""P22: path helpers against the real file system, every path of a bounded space."""
import itertools
import os
import posixpath

from mc import core
from dtformats import file_system


TREE = {"a": b"", "b": b"12345", "d": {"a": b"x" * 5000, ".": None, "e": {"ab": b"y"}, "..b": b"dots"}, ".a": b"hidden",
        "a b": b"blank", "\u00e9": b"accent", "empty": {}}


def build(root, tree):
    os.makedirs(root, exist_ok=True)
    for name, value in tree.items():
        path = root + "/" + name
        if isinstance(value, dict):
            build(path, value)
        elif value is not None:
            with open(path, "wb") as f:
                f.write(value)


def helpers():
    out = [("native", file_system.NativeFileSystemHelper())]
    try:
        from dfvfs.lib import definitions
        from dfvfs.path import factory
        from dtformats import dfvfs_helpers
    except ImportError:
        return out
    helper = dfvfs_helpers.DFVFSFileSystemHelper(None)
    helper.OpenFileSystem(factory.Factory.NewPathSpec(definitions.TYPE_INDICATOR_OS, location="/"))
    return out + [("dfvfs", helper)]


def outcome(function, *arguments):
    try:
        return function(*arguments)
    except Exception as e:  # pylint: disable=broad-except
        return f"{type(e).__name__}: {e}"


def segments_of(path):
    """Independent split: the maximal runs of characters other than the separator."""
    out, current = [], ""
    for character in path + "/":
        if character == "/":
            if current:
                out.append(current)
            current = ""
        else:
            current += character
    return out


def pure(tally, argument):
    prefix, alphabet, length = argument
    for name, helper in helpers():
        for rest in itertools.product(alphabet, repeat=length):
            path = prefix + "".join(rest)
            want = segments_of(path)
            if name == "native" and path and path[0] != "/":
                # The segments of a relative path are those of the file it names.
                want = segments_of(os.path.normpath(os.getcwd() + "/" + path))
            got = outcome(helper.SplitPath, path)
            case = {"helper": name, "path": path}
            if got != want:
                tally.violate(f"{name}-split", f"{name} SplitPath({path!r}) = {got!r}, expected {want!r}", case)
                continue
            joined = outcome(helper.JoinPath, got)
            if joined != "/" + "/".join(want):
                tally.violate(f"{name}-join", f"{name} JoinPath({got!r}) = {joined!r}", case)
            elif outcome(helper.SplitPath, joined) != want:
                tally.violate(f"{name}-split-join", f"{name} split of join of {want!r}", case)
            cut = path.rfind("/") + 1
            base = outcome(helper.BasenamePath, path)
            directory = outcome(helper.DirnamePath, path)
            if name == "native":
                want_base, want_directory = path[cut:], path[:cut]
                if want_directory.strip("/"):
                    want_directory = want_directory.rstrip("/")
                if base != want_base:
                    tally.violate("native-basename", f"BasenamePath({path!r}) = {base!r}, expected {want_base!r}", case)
                if directory != want_directory:
                    tally.violate("native-dirname", f"DirnamePath({path!r}) = {directory!r}, expected {want_directory!r}", case)
            elif want and "//" not in path:
                if base != want[-1]:
                    tally.violate("dfvfs-basename", f"BasenamePath({path!r}) = {base!r}, expected {want[-1]!r}", case)
                if path.startswith("/") and segments_of(directory or "") != want[:-1]:
                    tally.violate("dfvfs-dirname", f"DirnamePath({path!r}) = {directory!r}, expected {want[:-1]!r}", case)
            tally.add("executions", 5)
            tally.add("evaluations", 5)
            tally.add("transitions", len(want) + 1)
            tally.seen((name, path))


def joins(tally, names):
    for name, helper in helpers():
        for length in range(0, 5):
            for segments in itertools.product(names, repeat=length):
                segments = list(segments)
                copy = list(segments)
                got = outcome(helper.JoinPath, segments)
                case = {"helper": name, "segments": copy}
                if got != "/" + "/".join(copy):
                    tally.violate(f"{name}-join", f"{name} JoinPath({copy!r}) = {got!r}", case)
                elif outcome(helper.SplitPath, got) != copy:
                    tally.violate(f"{name}-split-join", f"{name} SplitPath(JoinPath({copy!r})) = {outcome(helper.SplitPath, got)!r}", case)
                if segments != copy:
                    tally.violate(f"{name}-join-mutates", f"{name} JoinPath changed its argument {copy!r}", case)
                tally.add("executions", 2)
                tally.add("evaluations", 2)
                tally.add("transitions", length)
                tally.seen((name, tuple(copy)))


def nested_joins(tally, names):
    """Segments that hold separators themselves: nothing is lost, whichever segment holds them."""
    for name, helper in helpers():
        for length in range(0, 5):
            for segments in itertools.product(names, repeat=length):
                want = [part for segment in segments for part in segments_of(segment)]
                joined = outcome(helper.JoinPath, list(segments))
                case = {"helper": name, "segments": list(segments)}
                if not isinstance(joined, str) or not joined.startswith("/") or outcome(helper.SplitPath, joined) != want:
                    tally.violate(f"{name}-join-nested", f"{name} JoinPath({list(segments)!r}) = {joined!r}, names {want!r}", case)
                tally.add("executions", 2)
                tally.add("evaluations")
                tally.add("transitions", length)
                tally.seen((name, "nested", segments))


def lookups(tally, argument):
    """Existence, size, listing and content of every path of up to `depth` names, existing or not."""
    first, names, depth = argument
    root = core.fresh_dir()
    build(root, TREE)
    for name, helper in helpers():
        for length in range(0, depth):
            for rest in itertools.product(names, repeat=length):
                for separator, tail in (("/", ""), ("/", "/"), ("//", "")):
                    path = root + "/" + separator.join((first,) + rest) + tail
                    if name == "dfvfs" and (separator == "//" or tail or ".." in (first,) + rest or "." in (first,) + rest):
                        continue
                    lookup(tally, name, helper, path)
    core.cleanup(root)


def lookup(tally, name, helper, path):
    case = {"helper": name, "path": path}
    exists = os.path.lexists(path)
    got = outcome(helper.CheckFileExistsByPath, path)
    if got is not exists:
        tally.violate(f"{name}-exists", f"{name} CheckFileExistsByPath({path!r}) = {got!r}, expected {exists!r}", case)
    tally.add("executions")
    tally.add("evaluations")
    tally.add("transitions")
    tally.seen((name, path.split("/", 4)[-1]))
    if not exists:
        for function in (helper.GetFileSizeByPath, helper.OpenFileByPath, lambda p: list(helper.ListDirectory(p))):
            try:
                value = function(path)
            except OSError:
                continue
            except Exception as e:  # pylint: disable=broad-except
                value = f"{type(e).__name__}: {e}"
            if value not in (None, []):
                tally.violate(f"{name}-missing", f"{name}: {path!r} does not exist, got {value!r}", case)
        return
    if os.path.isdir(path):
        want = sorted(os.listdir(path))
        got = outcome(lambda p: sorted(helper.ListDirectory(p)), path)
        if got != want:
            tally.violate(f"{name}-list", f"{name} ListDirectory({path!r}) = {got!r}, expected {want!r}", case)
        return
    with open(path, "rb") as f:
        want = f.read()
    got = outcome(helper.GetFileSizeByPath, path)
    if got != len(want):
        tally.violate(f"{name}-size", f"{name} GetFileSizeByPath({path!r}) = {got!r}, expected {len(want)}", case)

    def content(p):
        file_object = helper.OpenFileByPath(p)
        first = file_object.read(3)
        data = first + file_object.read()
        file_object.seek(1, os.SEEK_SET)
        if file_object.read() != data[1:]:
            return "different on second read"
        if hasattr(file_object, "close"):
            file_object.close()
        return data
    got = outcome(content, path)
    if got != want:
        tally.violate(f"{name}-content", f"{name} OpenFileByPath({path!r}): got {got!r:.100}, expected {want!r:.100}", case)
    tally.add("evaluations", 2)


def changes(tally, order):
    """Every order of file system changes: the answer always follows the current state, never an earlier one."""
    root = core.fresh_dir()
    for name, helper in helpers():
        path = root + "/f" + name
        for step in order:
            if step == "write1":
                with open(path, "wb") as f:
                    f.write(b"1")
            elif step == "write4":
                with open(path, "wb") as f:
                    f.write(b"4444")
            elif step == "remove":
                if os.path.exists(path):
                    os.remove(path)
            lookup(tally, name, helper, path)
            got = outcome(lambda p: sorted(helper.ListDirectory(p)), root)
            if got != sorted(os.listdir(root)):
                tally.violate(f"{name}-list", f"{name} ListDirectory after {order!r}: {got!r}", {"order": order})
    core.cleanup(root)


def main(run):
    alphabet = "a./"
    depth = 9 if not run.thorough else 12
    run.explore(pure, [("", alphabet, n) for n in range(depth)] + [(a + b, alphabet, depth - 2) for a in alphabet for b in alphabet])
    run.explore(pure, [(a, ["/", "a b", "\u00e9", "..", "\\", "\u4e2d", "c:", "\n", "%2f"], 4 if not run.thorough else 5) for a in ("", "/", "//", "x")])
    run.explore(joins, [["a", "..", "."], ["a b", "\u00e9", "c:"], ["\\", "x" * 300, "\x01"]])
    run.explore(nested_joins, [["a", "/b", "c/"], ["/", "a//b", "", "d"], ["a/b", "/", ".", "//x//"]])
    names = ["a", "b", "d", "e", "ab", ".a", "..b", "a b", "\u00e9", "empty", ".", "..", "missing"]
    run.explore(lookups, [(n, names, 3 if not run.thorough else 4) for n in names])
    run.explore(changes, [list(o) for n in range(1, 5) for o in itertools.product(["write1", "write4", "remove"], repeat=n)], chunksize=8)
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.tally.sample({"path": "/a//b/", "segments": ["a", "b"]})
    run.bounds = {"path_length": depth, "join_segments": 4, "lookup_depth": 3 if not run.thorough else 4, "change_steps": 4}
    run.rule = "every path over the alphabet and every name sequence of the scratch tree, both helpers; compared to an independent split and to the real directory tree"
    run.assumptions = ["POSIX path separator", "relative components are resolved by the operating system (native helper only)"]
