"""P25: the command line tools: exit status, debug option and printed values, every tool over a bounded space of files and options."""
import bz2
import contextlib
import datetime
import gzip
import hashlib
import io
import itertools
import json
import lzma
import os
import re
import struct
import sys
import uuid

from mc import core, zoo
from mc.fmt import apple, aul, common, cpio, leveldb as ldb, shell, spotlight, windows, wmi

TOOLS = {"utmpx": "utmp", "leveldb_log": "leveldb", "leveldb_descriptor": "leveldb", "leveldb_table": "leveldb", "chrome_index": "chrome_cache",
         "chrome_block": "chrome_cache", "firefox_map": "firefox_cache1", "firefox_block": "firefox_cache1", "gzip": "gzipfile", "emf": "wemf", "wmf": "wemf",
         "automatic_destinations": "jump_list", "custom_destinations": "jump_list", "spotlight": "spotlight_storedb", "uuidtext": "unified_logging",
         "dsc": "unified_logging", "timesync": "unified_logging", "tracev3": "unified_logging"}
# The tool derives the kind of file from a signature, so a damaged file can be one of another kind.
DISPATCH = {"leveldb", "utmp", "jump_list", "wemf", "unified_logging"}
NAMES = {"firefox_map": "_CACHE_MAP_", "leveldb_descriptor": "MANIFEST-000001"}
CODE = {}


def run(tool, *arguments):
    """(exit status, output) of a tool as the interpreter would end it: an exception that is not caught is a failure."""
    path = os.path.join(core.REPO, "scripts", tool + ".py")
    if path not in CODE:
        with open(path, encoding="utf-8") as f:
            CODE[path] = compile(f.read(), path, "exec")
    saved, sys.argv = sys.argv, [path, *arguments]
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding="utf-8")
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), core.time_limit(60):
            try:
                exec(CODE[path], {"__name__": "__main__", "__file__": path})  # pylint: disable=exec-used
                status = 0
            except SystemExit as e:
                status = e.code or 0
            except core.Hang:
                status = "does not end"
            except Exception as e:  # pylint: disable=broad-except
                status = f"{type(e).__name__}: {e}"
        out.flush()
    finally:
        sys.argv = saved
    return status, raw.getvalue().decode("utf-8")


class Folder:
    """A scratch directory of a part of the check."""

    def __enter__(self):
        self.path = core.fresh_dir("t")
        return self

    def __exit__(self, *args):
        core.cleanup(self.path)

    def put(self, data, name="f.dat"):
        return core.put(self.path, name, data)


def subsequence(small, large):
    large = iter(large)
    return all(line in large for line in small)


def judge(tally, key, label, tool, arguments, want, blob=None, parse=str.splitlines):
    """Runs the tool and compares what parse finds in its output with what is expected."""
    status, text = run(tool, *arguments)
    tally.add("executions")
    tally.add("evaluations")
    tally.add("transitions", len(want) if hasattr(want, "__len__") else 1)
    tally.seen((tool, label, tuple(a for a in arguments if a[:1] == "-"), repr(want)))
    got = None
    if status == 0:
        try:
            got = parse(text)
        except Exception as e:  # pylint: disable=broad-except
            got = f"output that is not understood: {e!r}: {text!r:.200}"
    if status != 0 or got != want:
        shown = f"exit status {status}" if status != 0 else repr(first_difference(got, want))
        tally.violate(f"{tool}:{key}", f"{tool} {label}: {shown:.400}", {"arguments": [str(a) for a in arguments], "expected": repr(want)[:1500],
                                                                         "file": (blob or b"")[:2000].hex()})
    return text


def first_difference(got, want):
    if isinstance(got, list) and isinstance(want, list):
        for index, (one, two) in enumerate(itertools.zip_longest(got, want)):
            if one != two:
                return f"item {index}: got {one!r}, expected {two!r}"
    return f"got {got!r}, expected {want!r}"


# ------------------------------------------------------------ every tool: exit status and the debug option

def installed(folder, kind, files):
    """Installs a sample the way the tool wants it; returns the path to give it."""
    k = zoo.KINDS[kind]
    if kind in NAMES:
        main = next(iter(files))
        return folder.put(files[main] if isinstance(files, dict) else files, NAMES[kind])
    path = k.install(folder.path, files)
    if kind.startswith("cim_") and os.path.basename(path).lower() != "cim.rep":
        path = os.path.dirname(path)
    return path


def samples_part(tally, argument):
    kind, tier = argument
    k = zoo.KINDS[kind]
    tool = "wmi_repository" if kind.startswith("cim_") else TOOLS.get(kind, kind)
    for label, files in k.samples.items():
        with Folder() as folder:
            path = installed(folder, kind, files)
            if kind == "emf":
                with open(path, "r+b") as f:
                    f.seek(40)
                    f.write(b" EMF")
            outcome = status = None
            texts = {}
            for options in ((), ("-d",), ("--debug",)):
                status, texts[options] = run(tool, *options, path)
                tally.add("executions")
                tally.add("evaluations")
                tally.seen((kind, label, options))
                if status != 0:
                    tally.violate(f"{tool}:status", f"{tool} {' '.join(options)} of {kind} {label}: exit status {status}", {"kind": kind, "sample": label})
            plain, debug = texts[()].splitlines(), texts["-d",].splitlines()
            if texts["-d",] != texts["--debug",]:
                tally.violate(f"{tool}:option", f"{tool} {kind} {label}: -d and --debug differ", {"kind": kind, "sample": label})
            # An unfinished line is continued by what follows.
            if plain and not texts[()].endswith("\n"):
                plain, tail = plain[:-1], plain[-1]
                if tail not in texts["-d",]:
                    tally.violate(f"{tool}:debug", f"{tool} {kind} {label}: -d drops {tail!r}", {"kind": kind, "sample": label})
            tally.add("evaluations")
            if not subsequence([p for p in plain if p], debug):
                missing = [p for p in plain if p and p not in debug]
                tally.violate(f"{tool}:debug", f"{tool} {kind} {label}: -d drops or moves {missing[:2]!r:.300}", {"kind": kind, "sample": label})
            # The debug output has what the reader tells about the file when it opens it.
            if not kind.startswith("cim_"):
                writer = core.Writer()
                reader = k.make(True, writer)
                reader.Open(path)
                reader.Close()
                tally.add("evaluations")
                # "information:" can precede the first line of the reader.
                if not subsequence([w for w in writer.text.splitlines() if w], debug):
                    tally.violate(f"{tool}:debug-lines", f"{tool} -d {kind} {label}: drops lines of the reader", {"kind": kind, "sample": label})
            if tool in DISPATCH or kind.startswith("cim_"):
                continue
            with open(path, "rb") as f:
                data = f.read()
            few = (150, 7, 40) if tier == "quick" else (600, 3, 250)
            sizes = range(len(data)) if len(data) < few[0] else sorted(set(range(64)) | set(range(0, len(data), max(few[1], len(data) // few[2]))) | set(range(len(data) - 8, len(data))))
            for size in sizes:
                with open(path, "wb") as f:
                    f.write(data[:size])
                outcome = zoo.fresh(k, path)
                opened = True
                try:
                    reader = k.make()
                    reader.Open(path)
                    reader.Close()
                except Exception:  # pylint: disable=broad-except
                    opened = False
                status, _ = run(tool, path)
                tally.add("executions")
                tally.add("evaluations")
                tally.seen((kind, label, size))
                if not opened and status == 0:
                    tally.violate(f"{tool}:truncated", f"{tool} ends successfully for {kind} {label} cut off at {size} that its reader refuses", {"kind": kind, "size": size})
                if outcome.error is None and status != 0:
                    tally.violate(f"{tool}:truncated", f"{tool}: exit status {status} for {kind} {label} cut off at {size} that its reader reads", {"kind": kind, "size": size})


def sources_part(tally, _):
    """No source and sources that cannot be read."""
    tools = sorted(n[:-3] for n in os.listdir(os.path.join(core.REPO, "scripts")) if n.endswith(".py") and n not in ("__init__.py", "analyzer.py", "prefetch_hash.py"))
    for tool in tools:
        with Folder() as folder:
            for options in ((), ("-d",)):
                if options and tool == "decode_nskeyedarchiver_plist":
                    continue
                for what, path in (("no source", None), ("missing file", os.path.join(folder.path, "missing", "f.dat"))):
                    status, text = run(tool, *options, *([path] if path else []))
                    tally.add("executions")
                    tally.add("evaluations")
                    tally.seen((tool, options, what))
                    if status == 0:
                        tally.violate(f"{tool}:{what}", f"{tool} {' '.join(options)} ends successfully with {what}", {"tool": tool})
                    if path is None and "Source file missing" not in text:
                        tally.violate(f"{tool}:{what}", f"{tool} {' '.join(options)} does not tell that the source is missing: {text[:80]!r}", {"tool": tool})


# ------------------------------------------------------------ Windows

TIMES = (0, 1, 9999999, 10000000, 0x01d0000012345678, 0x01d0000012345679, 0x7fffffffffffffff, 2650467743999999999, (1 << 63) + 5, (1 << 64) - 1)
TEXTS = ("a", "a b.txt", "\u00e9\u4e2d", "\U0001f600x", "q" * 40, "%d{0}\\x")


def filetime(value, unset="Not set (0)", never="Never (0x7fffffffffffffff)"):
    if value == 0:
        return unset
    if value == 0x7fffffffffffffff:
        return never
    seconds, fraction = divmod(value, 10**7)
    # The calendar repeats after 400 years.
    cycles, seconds = divmod(seconds, 146097 * 86400)
    moment = datetime.datetime(1601, 1, 1) + datetime.timedelta(seconds=seconds)
    return f"{moment.year + 400 * cycles:04d}" + moment.strftime("-%m-%d %H:%M:%S") + f".{fraction:07d} UTC"


def usn_part(tally, _):
    references = [0, 1, (1 << 48) - 1, 1 << 48, (1 << 48) | 5, (65535 << 48) | 12345, 0x7fff123456789abc]
    rows = [(r, q, t, n) for r in references for q in references for t in TIMES for n in TEXTS[:3]]
    rows += [(references[4], references[5], t, n) for t in TIMES for n in TEXTS + ("",)]
    for size in (0, 1, 2, 7, 60):
        for start in range(0, max(len(rows), 1), size or len(rows)):
            chunk = rows[start:start + size]
            if size < 7 and start > 500:
                break
            blob = windows.usn_file([((r, q, 1, t, 2, 3, 4, 5), n) for r, q, t, n in chunk])
            if not blob:
                continue
            want = ["USN journal records information:", "Date and time,Name,File reference,Parent file reference"]
            want += [",".join([filetime(t), n, f"{r & 0xffffffffffff}-{r >> 48}", f"{q & 0xffffffffffff}-{q >> 48}"]) for r, q, t, n in chunk]
            with Folder() as folder:
                judge(tally, "records", f"{len(chunk)} records from {start}", "usn_journal", [folder.put(blob)], want, blob)


def fields(text):
    """(description, value) of every line with a value; the alignment is not judged."""
    out = []
    for line in text.splitlines():
        m = re.match(r"\s*([^:]*?)\s*:\s?(.*)$", line)
        if m and m[2]:
            out.append((m[1], m[2].strip("\t")))
    return out


def job_part(tally, _):
    strings = (None, "", "a", "b c", "\u00e9\u4e2d", "x" * 60)
    for index in range(5):
        for pair in itertools.product(strings, strings):
            values = ["one", "two", "three", "four", "five"]
            values[index], values[(index + 2) % 5] = pair
            base = windows.JOB_FIXED.base(index, last=struct.pack("<8H", 2020, 2, 4, 13, 14, 15, 16, 17))
            blob = windows.job(base, 1, values, b"", b"", ())[0]
            api = windows.job(base, 1, values, b"", b"", ())[2]
            want = [("Identifier", api[5]), ("Application name", values[0] or ""), ("Parameters", values[1] or ""), ("Author", values[3] or ""), ("Comment", values[4] or "")]
            want = [w for w in want if w[1]]
            with Folder() as folder:
                judge(tally, "values", f"strings {values!r}", "job", [folder.put(blob)], want, blob, fields)


def recycle_bin_part(tally, _):
    for version, size, time, name in itertools.product((1, 2), (0, 1, 0xffffffff, 1 << 32, (1 << 63) - 1), TIMES, TEXTS + ("C:\\a\\b.txt",)):
        blob = windows.recycle_bin(version, size, time, name)
        if version == 1:
            blob = blob.ljust(544, b"\0")
        want = [("Format version", str(version)), ("Deletion time", filetime(time, "Not set", "Never")), ("Original filename", name), ("Original file size", str(size))]
        with Folder() as folder:
            judge(tally, "values", f"{version} {size} {time:x} {name!r}", "recycle_bin", [folder.put(blob)], want, blob, fields)


TYPES = ("STREAMCHANGE ACLCHANGE ATTRCHANGE STREAMOVERWRITE FILEDELETE FILECREATE FILERENAME DIRCREATE DIRRENAME DIRDELETE MOUNTCREATE MOUNTDELETE VOLUMEERROR "
         "STREAMCREATE ? ? NOOPTIMIZE ISDIR ISNOTDIR SIMULATEDELETE INPRECREATE OPENBYID").split()
FLAGS = "TEMPPATH SECONDPATH ACLINFO DEBUGINFO SHORTNAME".split()


def change_log_part(tally, part):
    def show(value, names, prefix):
        return ", ".join(prefix + n for i, n in enumerate(names) if value >> i & 1 and n != "?")

    def parse(text):
        out = []
        for line in text.splitlines():
            m = re.match(r"(Volume path|Entry type|Entry flags|Sequence number|Process name):\s*(.*)$", line)
            if m:
                out.append((m[1], m[2]))
        return out
    kinds = [1 << i for i in range(22)] + [1 << i | 1 << j for i in range(22) for j in range(i)] + [0x3fffff, 0, 0x400000, 0x80000001]
    entries = [(kind, flags, sequence, name) for kind in kinds for flags in range(32)
               for sequence, name in (((kind << 31) + flags, "p%d" % flags),)]
    entries += [(1, 0, s, n) for s in (0, 1, (1 << 63) - 1) for n in TEXTS + ("",)]
    step = (3, 1, 40)[part]
    chosen = entries if part != 1 else entries[::7]
    for start in range(0, len(chosen), step):
        chunk = chosen[start:start + step]
        volume = TEXTS[start % len(TEXTS)]
        blob = windows.change_log(volume, [(windows.CHANGE_ENTRY.base(1, type=k, flags=f, seq=s), n, []) for k, f, s, n in chunk])[0]
        want = [("Volume path", volume)]
        for k, f, s, n in chunk:
            want += [("Entry type", show(k, TYPES, "CHANGE_LOG_ENTRYTYPES_")), ("Entry flags", show(f, FLAGS, "CHANGE_LOG_ENTRYFLAGS_")), ("Sequence number", str(s)), ("Process name", n)]
        with Folder() as folder:
            judge(tally, "entries", f"{len(chunk)} entries from {start}", "rp_change_log", [folder.put(blob)], want, blob, parse)


def jump_list_part(tally, _):
    def parse(text):
        lines = text.splitlines()
        number = [re.search(r":\s*(\d+)$", line)[1] for line in lines if line.startswith("Number of entries")]
        titles = [line for line in lines if re.match(r"Entry: \d+$", line)]
        found = {}
        for line in lines:
            m = re.match(r"\t\t(Creation time|Modification time|Access+ time|File size|File attribute flags|Description)\t+: (.*)$", line)
            if m:
                found.setdefault(m[1].replace("Accesss", "Access"), []).append(m[2])
        expected = {"Creation time": filetime(0x01d0000012345678), "Access time": filetime(0x01d1000012345678), "Modification time": filetime(0x01d2000012345678), "File size": "77",
                    "File attribute flags": "0x00000020"}
        for name, value in expected.items():
            if found.pop(name, []) != [value] * len(titles):
                return name
        return number, titles, found.get("Description", [])
    names = ["one", "x" * 30, "\u00e9", "a b", "z"]
    for count in range(0, 5):
        for order in itertools.permutations(names, count) if count < 3 else [names[:count], names[::-1][:count]]:
            want = ([str(count)], [f"Entry: {i + 1}" for i in range(count)], list(order))
            for categories in ([(2, list(order))], [(0, "Cat", list(order[:1])), (1, 2), (2, list(order[1:]))]):
                blob = windows.custom(categories)[0]
                with Folder() as folder:
                    judge(tally, "custom", f"{categories!r}", "jump_list", [folder.put(blob)], want, blob, parse)
            header = windows.dest_list(windows.DEST_HEADER.base(1, version=3), [])[0]
            blob = windows.compound([("DestList", header)] + [(f"{i + 1:x}", windows.lnk(d)) for i, d in enumerate(order)])
            with Folder() as folder:
                # The order is that of the streams of the compound file.
                judge(tally, "automatic", f"{order!r}", "jump_list", [folder.put(blob)], want[:2] + (sorted(want[2]),), blob, lambda text: parse(text)[:2] + (sorted(parse(text)[2]),))


FLAG_LINES = {1: "Contains a link target identifier", 4: "Contains a description string", 8: "Contains a relative path string", 0x10: "Contains a working directory string",
              0x20: "Contains a command line arguments string", 0x40: "Contains an icon location string", 0x200: "Contains an environment variables block",
              0x4000: "Contains an icon location block", 0x40000: "Contains no distributed link tracking data block"}
BLOCK_NAMES = {shell.DARWIN: "Darwin properties", shell.ENVIRONMENT: "Environment variables location", shell.ICON: "Icon location", shell.PROPERTIES: "Metadata property store"}
FOLDER = "20d04fe0-3aea-1069-a2d8-08002b30309d"


def fat_time(value):
    if not value:
        return "Not set (0)"
    date, time = value & 0xffff, value >> 16
    return f"{1980 + (date >> 9):04d}-{date >> 5 & 15:02d}-{date & 31:02d} {time >> 11:02d}:{time >> 5 & 63:02d}:{(time & 31) * 2:02d}"


def item_lines(item):
    kind, values = item
    if kind == "root":
        return [("Item type", "Root Folder"), ("Root shell folder identifier", values)]
    if kind == "volume":
        return [("Item type", "Volume"), ("Volume name", values)]
    if kind == "volume identifier":
        return [("Item type", "Volume"), ("Volume identifier", values)]
    if kind == "volume folder":
        return [("Item type", "Volume"), ("Volume name", values[0]), ("Volume shell folder identifier", values[1])]
    if kind == "category":
        return [("Item type", "Control Panel Category"), ("Control panel category identifier", str(values))]
    if kind == "control":
        return [("Item type", "Control Panel Item"), ("Control panel item identifier", values)]
    if kind == "network":
        return [("Item type", "Network Location"), ("Network location", values[0])] + [(n, v) for n, v in zip(("Description", "Comments"), values[1:]) if v]
    v = {"long": None, "size": 5, "mtime": 0x12345a21, "attributes": 0x20, "version": 9, "ctime": 0x12345a21, "atime": 0x12345a22, "reference": 5, "localized": "", **values}
    lines = [("Item type", "File Entry"), ("File size", str(v["size"])), ("Modification time", fat_time(v["mtime"])), ("File attribute flags", f"0x{v['attributes']:08x}"),
             ("Name", v["name"])]
    if v["long"] is not None:
        lines += [("Extension block", "1"), ("Signature", "0xbeef0004"), ("Creation time", fat_time(v["ctime"])), ("Access time", fat_time(v["atime"])), ("Long name", v["long"])]
        if v["localized"]:
            lines.append(("Localized name", v["localized"]))
        if v["version"] >= 7:
            r = v["reference"]
            lines.append(("File reference", f"{r & (1 << 48) - 1}-{r >> 48}" if r >> 48 else f"0x{r:04x}"))
    return lines


def item_data(item):
    kind, values = item
    other = {"volume identifier": lambda: shell.volume_identifier(values), "volume folder": lambda: shell.volume_folder(*values),
             "category": lambda: shell.control_panel_category(values), "control": lambda: shell.control_panel_item(values), "network": lambda: shell.network_location(*values)}
    if kind in other:
        return other[kind]()
    return shell.root_folder(values) if kind == "root" else shell.volume(values) if kind == "volume" else shell.file_entry(**values)


def property_data(kind, value):
    if kind == 1:
        return b"", "<VT_NULL>"
    if kind in (3, 0x13):
        return struct.pack("<i" if kind == 3 else "<I", value), str(value)
    if kind in (0x14, 0x15):
        return struct.pack("<q" if kind == 0x14 else "<Q", value), str(value)
    if kind == 0x1f:
        data = value.encode("utf-16-le") + b"\0\0"
        return struct.pack("<I", len(data) // 2) + data + bytes(-len(data) % 4), value
    if kind == 8:
        data = value.encode("utf-16-le") + b"\0\0"
        return struct.pack("<I", len(data)) + data + bytes(-len(data) % 4), value
    if kind == 0x0b:
        return struct.pack("<HH", value, 0), str(bool(value))
    if kind == 0x40:
        return struct.pack("<Q", value), filetime(value)
    if kind == 0x48:
        return uuid.UUID(value).bytes_le, value
    return struct.pack("<II", 1, 5), "<VT_VECTOR>"


def shortcut_case(tally, label, shortcuts):
    """Every line of the tool about shortcuts: dicts with items, sets, paths, texts and fields of the header."""
    blobs, want = [], [("Number of entries", str(len(shortcuts)))]
    for number, given in enumerate(shortcuts):
        s = dict(given)
        items, sets, paths, texts, flags = s.pop("items", ()), s.pop("sets", None), s.pop("paths", ()), s.pop("texts", {}), s.pop("flags", 0)
        blocks, lines = [], []
        for signature, path in paths:
            blocks.append(shell.path_block(signature, path))
            lines.append([("Signature", f"0x{signature:08x} ({BLOCK_NAMES[signature]})"), ("String", path)])
        if sets is not None:
            lines.append([("Signature", f"0x{shell.PROPERTIES:08x} ({BLOCK_NAMES[shell.PROPERTIES]})")])
            encoded = []
            for guid, records in sets:
                parts = []
                for key, kind, value, name in records:
                    data, shown = property_data(kind, value)
                    parts.append(shell.record(key, kind, data))
                    lines[-1] += [("Property", f"{{{guid}}}/{key} ({name})"), (f"Value (0x{kind:04x})", shown)]
                encoded.append(shell.property_set(guid, parts))
            blocks.append(shell.properties_block(encoded))
        blobs.append(shell.shortcut([item_data(i) for i in items], blocks, texts, flags, **s))
        present = flags | sum(texts) | (1 if items else 0)
        times = s.get("times", (1, 2, 3))
        want += [("Entry", str(number + 1)), "Windows Shortcut information:"] + [t for bit, t in FLAG_LINES.items() if present & bit]
        want += [("Number of data blocks", str(len(blocks))), "Link information:", ("Creation time", filetime(times[0])), ("Modification time", filetime(times[2])),
                 ("Access time", filetime(times[1])), ("File size", str(s.get("size", 77))), ("Icon index", str(s.get("icon", 0) & 0xffffffff)), ("Show Window value", f"0x{s.get('window', 1):08x}"),
                 ("Hot Key value", str(s.get("hotkey", 0))), ("File attribute flags", f"0x{s.get('attributes', 0x20):08x}"), ("Description", texts.get(4, "")),
                 ("Relative path", texts.get(8, "")), ("Working directory", texts.get(16, "")), ("Icon location", texts.get(64, ""))]
        if items:
            want += ["Link target identifier:", "Shell item list:", ("Number of items", str(len(items)))]
            for i, item in enumerate(items):
                want += [("Shell item", str(i + 1))] + item_lines(item)
        for i, block in enumerate(lines):
            want += [("Data block", str(i + 1))] + block
    header = windows.dest_list(windows.DEST_HEADER.base(1, version=3), [])[0]
    blob = windows.compound([("DestList", header)] + [(f"{i + 1:x}", b) for i, b in enumerate(blobs)])

    def parse(text):
        out = []
        for line in text.splitlines()[1:]:
            m = re.match(r"\s*([A-Z][\w ()]*?)\t*: ?(.*)$", line)
            if m and m[2]:
                out.append((m[1].replace("Accesss", "Access"), m[2]))
            elif m and "\t:" in line:
                out.append((m[1], ""))
            elif line.strip():
                out.append(line.strip())
        return out
    with Folder() as folder:
        judge(tally, "shortcut", label, "jump_list", [folder.put(blob)], want, blob, parse)


def shortcut_part(tally, argument):
    part, thorough = argument
    u32 = [0, 1, 0x7fffffff, 0x80000000, 0xffffffff] + [1 << i for i in range(0, 32, 1 if thorough else 3)]
    entry = ("entry", {"name": "SHORT~1.TXT", "long": "Short name \u00e9.txt"})
    items = [("root", FOLDER), ("volume", "C:\\"), entry, ("entry", {"name": "plain"}), ("entry", {"name": "ab", "long": "AB", "version": 3}),
             ("entry", {"name": "ab", "long": "AB", "version": 8, "reference": 3 << 48 | 9, "localized": "Loc"})]
    items += [("volume identifier", FOLDER), ("volume folder", ("D:\\", FOLDER)), ("category", 3), ("control", FOLDER), ("network", ("\\\\srv\\x", "Desc", "Comm"))]
    title = "{f29f85e0-4ff9-1068-ab91-08002b27b3d9}"[1:-1]
    other = "01234567-89ab-cdef-0123-456789abcdef"
    named = "d5cdd505-2e9c-101b-9397-08002b2cf9ae"
    if part == "header":
        for bits in itertools.product((0, 1), repeat=5):
            for extra in (0, 0x200, 0x4000, 0x40000):
                shortcut_case(tally, f"strings {bits} {extra:x}", [{"texts": {b: f"text {b:x}" for b, on in zip((4, 8, 16, 32, 64), bits) if on}, "flags": extra}])
        for value in u32:
            shortcut_case(tally, f"size {value:x}", [{"size": value}])
            shortcut_case(tally, f"attributes {value:x}", [{"attributes": value}])
            shortcut_case(tally, f"icon {value:x}", [{"icon": value - (value >> 31 << 32)}])
        for value in (1, 3, 7):
            shortcut_case(tally, f"window {value:x}", [{"window": value}])
        for value in [0, 0xffff] + [1 << i for i in range(16)]:
            shortcut_case(tally, f"hot key {value:x}", [{"hotkey": value}])
        for times in itertools.product(TIMES[:7], repeat=3):
            if thorough or times.count(times[0]) != 2:
                shortcut_case(tally, f"times {times}", [{"times": times}])
        for paths in itertools.permutations([(shell.ENVIRONMENT, "%windir%\\x"), (shell.ICON, "C:\\icon.ico"), (shell.DARWIN, "product")]):
            for count in range(4):
                for sets in (None, [(title, [(2, 0x1f, "t", "PKEY_Title")])]):
                    shortcut_case(tally, f"blocks {paths[:count]} {sets}", [{"paths": paths[:count], "sets": sets}])
    elif part == "items":
        for length in range(1, 4 if thorough else 3):
            for combo in itertools.product(range(len(items)), repeat=length):
                shortcut_case(tally, f"items {combo}", [{"items": [items[i] for i in combo]}])
        for texts in itertools.product(("\\\\srv\\share", "x"), ("", "Microsoft Windows Network"), ("", "c")):
            shortcut_case(tally, f"network {texts}", [{"items": [("network", texts)]}])
        for number in (0, 1, 9, 11):
            shortcut_case(tally, f"category {number}", [{"items": [("category", number)]}])
        times = [0, 0x21, 0x5a21, 0xbf7dff9f] + [0x21 | 1 << i for i in range(16, 26)]
        for value in times:
            for field in ("mtime", "ctime", "atime"):
                shortcut_case(tally, f"{field} {value:x}", [{"items": [("entry", {**entry[1], field: value})]}])
        for value in u32:
            shortcut_case(tally, f"entry size {value:x}", [{"items": [("entry", {**entry[1], "size": value})]}])
        for i in range(16):
            shortcut_case(tally, f"entry attributes {i}", [{"items": [("entry", {**entry[1], "attributes": 1 << i})]}])
        for version in (7, 8, 9):
            for reference in (1, 0xffff, 0xffffffff, (1 << 48) - 1, 1 << 48, (1 << 48) + 1, 0xffff << 48 | 7, (1 << 63) + 5):
                for localized in ("", "x", "lo\u00e9"):
                    shortcut_case(tally, f"reference {version} {reference:x}", [{"items": [("entry", {**entry[1], "version": version, "reference": reference, "localized": localized})]}])
        for length in range(1, 30):
            shortcut_case(tally, f"names {length}", [{"items": [("entry", {"name": "n" * length, "long": "l" * (30 - length)})]}])
    elif part == "properties":
        values = [(1, None), (0x1003, None), (0x0b, 0), (0x0b, 0xffff), (0x48, FOLDER), (0x1f, "t"), (0x1f, "\u00e9t\u00e9"), (0x1f, "x" * 50), (8, "wide \u00e9")]
        values += [(3, v - (v >> 31 << 32)) for v in u32] + [(0x13, v) for v in u32] + [(0x14, v) for v in (0, -1, 1 << 40, -(1 << 63))] + [(0x15, v) for v in (0, 1, 1 << 63, (1 << 64) - 1)]
        values += [(0x40, v) for v in TIMES]
        for kind, value in values:
            for guid, key, name in ((title, 2, "PKEY_Title"), (other, 100, "Unknown"), (named, "a name", "Unknown")):
                shortcut_case(tally, f"property {kind:x} {value!r:.30} {key}", [{"sets": [(guid, [(key, kind, value, name)])]}])
        alphabet = [(2, 0x1f, "t", "PKEY_Title"), (4, 0x1f, "a", "PKEY_Author"), (77, 3, 5, "Unknown")]
        for length in range(0, 4):
            for combo in itertools.product(alphabet, repeat=length):
                shortcut_case(tally, f"records {combo}", [{"sets": [(title, list(combo)), (other, [(9, 3, 7, "Unknown")])]}])
    else:
        alphabet = [{"texts": {4: "one"}}, {"items": items[:3], "texts": {4: "two"}}, {"paths": [(shell.ENVIRONMENT, "%x%")]}, {"sets": [(title, [(2, 0x1f, "t", "PKEY_Title")])]}]
        for length in range(1, 4):
            for combo in itertools.product(range(len(alphabet)), repeat=length):
                shortcut_case(tally, f"entries {combo}", [alphabet[i] for i in combo])


# ------------------------------------------------------------ CPIO

def packed(data, how):
    return {"": lambda d: d, "bzip": bz2.compress, "gzip": lambda d: gzip.compress(d, mtime=0), "xz": lzma.compress}[how](data)


def prefetch_part(tally, _):
    """The prefetch hash tool prints what the functions return (decided by P20)."""
    from dtformats import prefetch
    for path in ("", "a", "\\DEVICE\\HARDDISKVOLUME1\\WINDOWS\\SYSTEM32\\CMD.EXE", "\u00e9t\u00e9", "x" * 7, "x" * 200):
        status, output = run("prefetch_hash", path)
        want = [] if not path else [("Windows XP", f"0x{prefetch.CalculatePrefetchHashXP(path):08x}"), ("Windows Vista", f"0x{prefetch.CalculatePrefetchHashVista(path):08x}"),
                                    ("Windows 2008", f"0x{prefetch.CalculatePrefetchHash2008(path):08x}")]
        got = re.findall(r"(?m)^\t(\w+ \w+)\s*: (.*)$", output)
        tally.add("executions")
        tally.add("evaluations")
        tally.seen(("prefetch", path))
        if got != want or (status == 0) != bool(path):
            tally.violate("prefetch", f"prefetch_hash.py {path!r}: ends with {status}, prints {got} instead of {want}", {"path": path})


def cpio_part(tally, argument):
    names = {"bin-big-endian": "bin-big-endian", "bin-little-endian": "bin-little-endian", "odc": "odc", "newc": "newc", "crc": "crc"}
    fmt, how = argument
    sizes = (0, 1, 4095, 4096, 4097, 8192, 8193)
    contents = [bytes((i * 7 + n) & 0xff for i in range(n)) for n in sizes]
    archives = [[]] + [[("f", c)] for c in contents] + [[("b", c), ("a", d)] for c in contents[:5] for d in contents[:5]]
    archives += [[("z", b"3"), ("dir/y", b"22"), ("dir", b""), ("x", b"1")]]
    for members in archives:
        data, _, size = cpio.encode(fmt, [cpio.Member(n, c, inode=i + 1) for i, (n, c) in enumerate(members)])
        blob = packed(data, how)
        listing = [f"{hashlib.sha256(c).hexdigest()}\t{n}" for n, c in sorted(members) if c]
        with Folder() as folder:
            path = folder.put(blob)
            if not how:
                judge(tally, "information", f"{fmt} {members!r:.80}", "cpio", [path], ["CPIO archive information:", ("Format", names[fmt]), ("Size", f"{size} bytes")], blob,
                      lambda text: [line if i == 0 else tuple(re.split(r"\s*:\s*", line.strip())) for i, line in enumerate(text.splitlines()) if line])
            judge(tally, "hash", f"{fmt} {how} {members!r:.80}", "cpio", ["--hash", path], listing, blob, lambda text: [t for t in text.splitlines() if t])
    if not how:
        # What follows the archives and is none is reported.
        for before in (b"",) + tuple(cpio.encode(fmt, [cpio.Member("a", b"x" * n, inode=1)])[0] for n in (1, 9, 17)):
            before += b"\0" * (-len(before) % 16)
            for what in (b"garbage!", b"07070", b"\x1f", b"\0" * 16, b"070703" + b"0" * 200):
                want = [f"{hashlib.sha256(b'x' * n).hexdigest()}\ta" for n in (1, 9, 17) if before == (lambda d: d + b"\0" * (-len(d) % 16))(cpio.encode(fmt, [cpio.Member("a", b"x" * n, inode=1)])[0])]
                want += [f"Unsupported file type at offset: 0x{len(before):08x}."]
                with Folder() as folder:
                    judge(tally, "unsupported", f"{fmt} {len(before)} then {what!r:.20}", "cpio", ["--hash", folder.put(before + what)], want, before + what,
                          lambda text: [t for t in text.splitlines() if t])
    # Archives after another, as in an initial RAM disk.
    for first, second in itertools.product(archives[1:12], archives[1:12]):
        one = cpio.encode(fmt, [cpio.Member(n, c, inode=i + 1) for i, (n, c) in enumerate(first)])[0]
        two = cpio.encode("newc", [cpio.Member(n, c, inode=i + 1) for i, (n, c) in enumerate(second)])[0]
        blob = one + b"\0" * (-len(one) % 16) + packed(two, how)
        listing = [f"{hashlib.sha256(c).hexdigest()}\t{n}" for part in (first, second) for n, c in sorted(part) if c]
        with Folder() as folder:
            judge(tally, "hash", f"{fmt} then {how} {first!r:.60} {second!r:.60}", "cpio", ["--hash", folder.put(blob)], listing, blob, lambda text: [t for t in text.splitlines() if t])


# ------------------------------------------------------------ LevelDB

def leveldb_part(tally, part):
    if part == 0:
        groups = [[(bytes([b]), 5, 1, bytes([b]))] for b in range(256)]
        groups += [[(k, s, t, v)] for k in (b"a", b"\xff\x00'", b'"') for s in (0, 1, (1 << 56) - 1) for t in (0, 1) for v in (b"", b"v", b"'\"", b"\\n\n", "\u00e9".encode(), b"w" * 300)]
        for group in groups:
            leveldb_table(tally, [group])
    else:
        entries = [(b"key%02d" % i, i * i, i % 2, b"value %d" % i if i % 2 else b"") for i in range(12)]
        for count in range(1, 13):
            for cut in range(1, count + 1):
                for compression in ((0,), (1,), (2,), (0, 1)):
                    leveldb_table(tally, [entries[:cut]] + ([entries[cut:count]] if cut < count else []), compressions=compression, interval=3)
        # A file that is smaller than the signature of a table file.
        for size in (0, 7, 8, 40):
            data = ldb.log_file([ldb.batch(1, [(b"k" * size, b"v")])])[0] if size else b""
            for name in ("000003.log", "f", "x.ldb"):
                with Folder() as folder:
                    judge(tally, "log", f"log of {len(data)} bytes", "leveldb", [folder.put(data, name)], ["LevelDB database file information:", ""], data)


def leveldb_table(tally, groups, **keywords):
    blob = ldb.table(groups, **keywords)
    want = ["LevelDB database file information:"]
    for k, s, t, v in (e for g in groups for e in g):
        want.append(f"{repr(k)[1:]} @ {s} : {'del' if t == 0 else 'val'} => {repr(v)[1:]}")
    with Folder() as folder:
        judge(tally, "entries", f"{groups!r:.100} {keywords}", "leveldb", [folder.put(blob)], want + [""], blob)


def indexeddb_part(tally, _):
    """The key segments are what the reader finds; the tool shows all of them."""
    from dtformats import indexeddb
    for widths in itertools.product((1, 2), repeat=3):
        for ids in ((0, 0, 0), (5, 6, 7), (1, 2, 3), (200, 100, 30)):
            for tail in (b"\x01x", b"ab", b"\x32\x05", b"\x00", b""):
                for kind, sequence in ((0, 1), (1, (1 << 56) - 1)):
                    blob = ldb.table([[(ldb.idb_prefix(*ids, widths) + tail, sequence, kind, b"v'\x00" if kind else b"")]])
                    with Folder() as folder:
                        path = folder.put(blob)
                        reader = indexeddb.IndexedDBDatabaseTableFile()
                        try:
                            reader.Open(path)
                            entries = list(reader.ReadEntries())
                            reader.Close()
                        except Exception:  # pylint: disable=broad-except
                            continue
                        want = ["IndexedDB database file information:"]
                        want += [f"<<{', '.join(e.key_segments)}>> @ {sequence} : {'val' if kind else 'del'} => {repr(e.value)[1:]}" for e in entries]
                        judge(tally, "entries", f"{widths} {ids} {tail!r} {kind}", "indexeddb", [path], want + [""], blob)


# ------------------------------------------------------------ keychain

DATA_TYPES = {apple.STRING: "String with size", apple.SINT32: "Integer 32-bit signed", apple.UINT32: "Integer 32-bit unsigned", apple.BLOB: "Binary data"}
KEYCHAIN_VALUES = {apple.SINT32: (None, 0, 5, -5, -(1 << 31)), apple.UINT32: (None, 0, 1, 0xffffffff), apple.STRING: (None, "", "a b", "two"), apple.BLOB: (None, b"", b"one", b"\xff\x00'")}


def keychain_part(tally, part):
    from mc.props.p14 import C
    kinds = list(KEYCHAIN_VALUES)
    shapes = [(a,) for a in kinds] + list(itertools.product(kinds, kinds)) + list(itertools.product(kinds, kinds[:2], kinds[2:]))
    for shape in shapes[part::4]:
        names = [None if (i + len(shape)) % 3 == 0 else f"col{i}" for i in range(len(shape))]
        for identifiers in ((0x61626364,) * len(shape), tuple(range(len(shape))), tuple(range(1, len(shape) + 1))):
            titles = [n or ("abcd" if identifiers[i] == 0x61626364 else None) for i, n in enumerate(names)]
            if None in titles:
                continue
            columns = [C(identifiers[i], names[i], kind, 0 if names[i] else 2) for i, kind in enumerate(shape)]
            # A column without a name is known by its identifier when that consists of four characters.
            rows = [list(r) for r in itertools.product(*(KEYCHAIN_VALUES[k] for k in shape))]
            for chosen in ([], rows[:1], rows[-1:], rows[::max(1, len(rows) // 12)]):
                table = 0x80000000
                blob = apple.keychain(apple.SCHEMA + [(table, "GENERIC", columns)], [], {table: chosen})[0]
                with Folder() as folder:
                    path = folder.put(blob)

                    def schema(text):
                        block = text.split("Table: GENERIC (0x80000000)\n")[1].split("\n\n")[0].splitlines()
                        return [re.split(r"\t+", line, maxsplit=0) for line in block if re.match(r"\t\d|\tNumber of columns", line)]
                    count = len(shape)
                    want = [["", "Number of columns:", str(count)]]
                    for i, kind in enumerate(shape):
                        row = ["", str(i)] + ([str(identifiers[i])] if identifiers[i] < count else []) + [titles[i], DATA_TYPES[kind]]
                        want.append(row)
                    judge(tally, "schema", f"{shape} {identifiers}", "keychain", [path], want, blob, schema)

                    def content(text):
                        block = text.split("Table: GENERIC (0x80000000)\n")[1]
                        return block[:-1].split("\n")
                    lines = ["\t".join(titles)] + ["\t".join(shown(v, k) for v, k in zip(r, shape)) for r in chosen]
                    for option in ("-c", "--content"):
                        judge(tally, "content", f"{shape} {len(chosen)} rows", "keychain", [option, path], lines + [""], blob, content)


def shown(value, kind):
    return "NULL" if value is None or (value in (b"", "") and False) else f"{value!s}"


# ------------------------------------------------------------ Spotlight

def spotlight_part(tally, part):
    renamed = {"kMDItemFSName": "_kMDItemFileName", "kMDItemFSSize": "kMDItemFSSize", "kMDItemContentType": "kMDItemContentType", "kMDItemDateAdded": "kMDItemDateAdded",
               "kMDItemFSCreationDate": "_kMDItemCreationDate", "kMDItemFSContentChangeDate": "_kMDItemContentChangeDate", "kMDItemFSCreatorCode": "_kMDItemCreatorCode",
               "kMDItemFSFinderFlags": "_kMDItemFinderFlags", "kMDItemFSIsExtensionHidden": "_kMDItemIsExtensionHidden", "kMDItemFSLabel": "_kMDItemFinderLabel",
               "kMDItemFSNodeCount": "_kMDItemNodeCount", "kMDItemFSOwnerGroupID": "_kMDItemOwnerGroupID", "kMDItemFSOwnerUserID": "_kMDItemOwnerUserID",
               "kMDItemDisplayName": "kMDItemDisplayName", "kMDItemLogicalSize": "kMDItemLogicalSize", "_kMDItemDisplayNameWithExtensions": "_kMDItemDisplayNameWithExtensions"}

    def time(value):
        if value >= 7.5e9 * 40:
            return str(value)
        moment = datetime.datetime(2001, 1, 1) + datetime.timedelta(seconds=value)
        return moment.strftime("%Y-%m-%d %H:%M:%S.%f +0000")
    values = [(7, 0, v, str(v)) for v in (0, 1, 127, 128, 1 << 40)] + [(0, 0, 1, None), (2, 0, 5, None), (6, 0, 7, None)]
    values += [(0xb, 0, [t], f'"{t}"') for t in ("", "a", "a b", "\u00e9\u4e2d", "=", "x" * 100)] + [(0xb, 2, ["a", "b"], ["a", "b"]), (0xb, 2, ["one"], ["one"])]
    values += [(0xc, 0, v, time(v)) for v in (0.0, 1.0, 600000000.0, 600000000.25, -86400.0)] + [(0xc, 2, [600000000.0, 1.0], [time(600000000.0), time(1.0)])]
    values += [(9, 0, 1.5, "1.5"), (0xa, 0, -2.25, "-2.25"), (0xa, 2, [1.5, 2.5], ["1.5", "2.5"]), (8, 0, 7, "7")]
    names = list(renamed)
    if part == 0:
        cases = [[(n, v)] for n in names for v in values]
    else:
        cases = [[(names[i], values[j]), (names[(i + k) % len(names)], values[(j * 3 + k) % len(values)])] for i in range(len(names)) for j in range(len(values)) for k in (1, 5)]

    def parse(text):
        rows = [re.match(r"(\S+)\t+= (.*)$", line) for line in text.splitlines() if line]
        return {m[1]: m[2] for m in rows if m[2] != "(null)"}
    for case in cases:
        types = {i + 1: (v[0], v[1], renamed[n]) for i, (n, v) in enumerate(case)}
        raw = [(i + 1, spotlight.attribute(v[0], v[1], v[2])[0]) for i, (n, v) in enumerate(case)]
        files = spotlight.store(types, {}, {}, {}, [("zlib", spotlight.record(2, 1, 1, 1000, raw) + spotlight.record(9, 1, 1, 1000, []))])
        with Folder() as folder:
            for name, data in files.items():
                folder.put(data, name)
            path = os.path.join(folder.path, "store.db")
            want = {n: v[3] for n, v in case}

            def compare(text):
                got = parse(text)
                for n, v in case:
                    # How a list is written is not judged, what is in it is.
                    if isinstance(v[3], list) and n in got and [p for p in re.split(r"[\[\](),'\"]+ ?", got[n]) if p] == v[3]:
                        got[n] = v[3]
                    elif v[3] is None and got.get(n):
                        got[n] = None
                return got
            judge(tally, "item", f"{case!r:.150}", "spotlight_storedb", ["-i", "2", path], want, files["store.db"], compare)
            if part == 0 and case[0][0] == names[0]:
                judge(tally, "empty item", f"{case!r:.150}", "spotlight_storedb", ["--item", "9", path], {}, files["store.db"], parse)
                judge(tally, "missing item", "missing item", "spotlight_storedb", ["-i", "77", path], ["No such metadata item: 77"], files["store.db"])


def spotlight_info_part(tally, _):
    def parse(text):
        head, _, tail = text.partition("Properties:\n")
        return [re.split(r"\t+", line) for line in head.splitlines() if line][1:], tail.rstrip("\n")
    types = {1: (0xe, 0, "kMDStoreProperties"), 2: (7, 0, "_kStoreMetadataVersion"), 3: (7, 0, "number")}
    for version, plist, count in itertools.product((None, 0, 0x10000, 0x0003ffff, 0x7fff0001), (None, b"<plist/>", "<a>\n\u00e9</a>".encode()), (0, 1, 5)):
        raw = ([(1, spotlight.attribute(0xe, 0, plist)[0])] if plist else []) + ([(2, spotlight.attribute(7, 0, version)[0])] if version is not None else [])
        first = [spotlight.record(1, 1, 1, 1, raw)] if raw else []
        files = spotlight.store(types, {}, {}, {}, [("zlib", b"".join(first + [spotlight.record(2 + i, 1, 1, 1, [(3, spotlight.varint(i))]) for i in range(count)]))])
        with Folder() as folder:
            for name, data in files.items():
                folder.put(data, name)
            rows = [["Metadata version:"] + ([f"{version >> 16}.{version & 0xffff}"] if version is not None else [""]), ["Number of metadata items:", str(len(first) + count)]]
            judge(tally, "information", f"{version} {plist} {count}", "spotlight_storedb", [os.path.join(folder.path, "store.db")], (rows, plist.decode() if plist else ""),
                  files["store.db"], parse)


# ------------------------------------------------------------ WMI

def wmi_part(tally, version):
    from mc.props import p18
    top = wmi.Class("Top", None, [wmi.Property("Name", "string", 0, 0), wmi.Property("Id", "uint16", 4, 1)])
    numbers = (0, 1, 65535)
    texts = ("one", "x y", "\u00e9", "b" * 50)
    chosen = [[]] + [[(t, n)] for t in texts for n in numbers] + [[("one", 1), ("two", 2)], [(t, i) for i, t in enumerate(texts)]]

    def blocks(text):
        out = []
        for block in text.split("\n\n"):
            rows = [re.match(r"(\S+)\s* : ?(.*)$", line) for line in block.splitlines() if line]
            if rows:
                out.append(sorted((m[1], m[2]) for m in rows))
        return sorted(out)
    for rows in chosen:
        files = p18.build(version, [[top]], [(0, {"Name": t, "Id": n}) for t, n in rows])
        with Folder() as folder:
            for name, data in files.items():
                folder.put(data, name)
            from dtformats import wmi_repository
            repository = wmi_repository.CIMRepository()
            repository.Open(folder.path)
            instances = list(repository.GetInstances())
            keys = list(repository.GetIndexKeys())
            namespaces = sorted(i.namespace or "" for i in repository.GetNamespaces())
            repository.Close()
            got = sorted((i.properties.get("Name"), i.properties.get("Id")) for i in instances)
            tally.add("evaluations")
            if got != sorted(rows):
                tally.violate("wmi_repository:instances", f"instances {got!r}, expected {rows!r}", {"rows": repr(rows)})
            want = []
            for i in instances:
                name = i.properties.get("Name")
                path = f"Top.Name=\"{name}\"" if name else "Top=@"
                space = i.namespace or "ROOT"
                want.append(sorted([("__GENUS", "2"), ("__CLASS", "Top"), ("__SUPERCLASS", i.super_class_name or ""), ("__DYNASTY", i.dynasty or ""), ("__RELPATH", path),
                                    ("__PROPERTY_COUNT", str(len(i.properties))), ("__DERIVATION", "{" + ", ".join(i.derivation) + "}"), ("__SERVER", "."),
                                    ("__NAMESPACE", space), ("__PATH", f"\\\\.\\{space}:{path}")] +
                                   [(n, "" if v is None else str(v)) for n, v in i.properties.items()]))
            for options in ([], ["--output_mode", "instances"], ["--output-mode", "instances"]):
                judge(tally, "instances", f"{rows!r:.100}", "wmi_repository", options + [folder.path], sorted(want), None, blocks)
            judge(tally, "index", f"{rows!r:.100}", "wmi_repository", ["--output-mode", "index", folder.path], keys)
            judge(tally, "namespaces", f"{rows!r:.100}", "wmi_repository", ["--output-mode", "namespaces", folder.path], namespaces)


# ------------------------------------------------------------ unified logging

def posix_nano(value):
    if value is None:
        return "YYYY-MM-DD hh:ss:mm.######+####"
    seconds, fraction = divmod(value, 10**9)
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=seconds)).strftime("%Y-%m-%d %H:%M:%S") + f".{fraction // 1000:06d}+0000"


WITHOUT_MESSAGE = ("activityCreateEvent", "lossEvent", "signpostEvent", "userActionEvent")


def upper(identifier):
    return str(identifier).upper() if identifier else ""


def json_entry(e):
    kind = e["event_type"] or ""
    want = {"traceID": e["trace_identifier"], "eventType": kind, "formatString": "" if kind in ("activityCreateEvent", "userActionEvent") else e["format_string"] or "",
            "activityIdentifier": e["activity_identifier"] or 0, "subsystem": e["sub_system"] or "", "category": e["category"] or "", "threadID": e["thread_identifier"] or 0,
            "senderImageUUID": upper(e["sender_image_identifier"]), "bootUUID": str(e["boot_identifier"]).upper(), "processImagePath": e["process_image_path"] or "",
            "timestamp": posix_nano(e["timestamp"]), "senderImagePath": e["sender_image_path"] or "", "machTimestamp": e["mach_timestamp"],
            "processImageUUID": upper(e["process_image_identifier"]), "processID": e["process_identifier"] or 0, "senderProgramCounter": e["sender_program_counter"] or 0}
    want["eventMessage"] = (e["event_message"] or "").rstrip()
    if kind not in WITHOUT_MESSAGE:
        want["messageType"] = e["message_type"] or ""
    if e["loss_count"] is not None:
        want.update({"lossCount": e["loss_count"], "lossEndMachContinuousTimestamp": e["loss_end_mach_timestamp"]})
    if e["loss_count"] is not None and e["creator_activity_identifier"] is None:
        want.update({"lossStartMachContinuousTimestamp": e["loss_start_mach_timestamp"], "lossEndTimestamp": posix_nano(e["loss_end_timestamp"]),
                     "lossStartTimestamp": posix_nano(e["loss_start_timestamp"])})
    if e["signpost_identifier"] is not None:
        want.update({"signpostID": e["signpost_identifier"], "signpostScope": e["signpost_scope"] or "", "signpostType": e["signpost_type"] or ""})
        if e["creator_activity_identifier"] is None:
            want["signpostName"] = e["signpost_name"] or ""
    if e["backtrace_frames"]:
        want["backtrace"] = {"frames": [{"imageOffset": o, "imageUUID": str(i).upper()} for i, o in e["backtrace_frames"]]}
    if e["creator_activity_identifier"] is not None:
        want["creatorActivityID"] = e["creator_activity_identifier"]
    return want


def text_entry(e):
    parts = []
    if e["process_image_path"]:
        parts.append(e["process_image_path"].split("/")[-1] + ":")
    if e["sender_image_path"]:
        parts.append("(" + e["sender_image_path"].split("/")[-1] + ")")
    if e["sub_system"] and e["category"]:
        parts.append(f"[{e['sub_system']}:{e['category']}]")
    parts.append(e["event_message"])
    return [posix_nano(e["timestamp"]), f"0x{e['thread_identifier'] or 0:x}", e["event_type"], f"0x{e['activity_identifier'] or 0:x}", str(e["process_identifier"] or 0), str(e["ttl"] or 0),
            " ".join(p for p in parts if p is not None)]


def trace_case(tally, label, path):
    from mc.props import p16
    entries = p16.run_reader(path)
    stamps = [e["timestamp"] for e in entries]
    assert len(set(stamps)) == len(stamps), label
    entries.sort(key=lambda e: e["timestamp"])
    want = [json_entry(e) for e in entries]

    def parse_json(text):
        got = json.loads(text.partition("\n")[2])
        return [{k: g.get(k, "absent") for k in w} for g, w in zip(got, want)] if len(got) == len(want) else f"{len(got)} entries"
    judge(tally, "json", label, "unified_logging", ["--format", "json", path], want, None, parse_json)
    if any("\n" in (e["event_message"] or "") or "\t" in (e["event_message"] or "") or "\r" in (e["event_message"] or "") for e in entries):
        return

    def parse_text(text):
        lines = text.split("\n")
        assert lines[0] == "Apple Unified Logging and Activity Tracing information:" and lines[1].startswith("Timestamp") and lines[-1] == ""
        return [[f.strip(" ") for f in line.split("\t")] for line in lines[2:-1]]
    rows = [[f.strip(" ") for f in text_entry(e)] for e in entries]
    judge(tally, "text", label, "unified_logging", [path], rows, None, parse_text)
    judge(tally, "text", label, "unified_logging", ["--format", "text", path], rows, None, parse_text)


def trace_part(tally, argument):
    from mc.props import p16
    record, kind, part, parts = argument
    tps = [tp for tp in p16.combinations(record, kind)][part::parts]
    for start in range(0, len(tps), 24):
        with Folder() as folder:
            files = aul.Store(folder.path)
            p16.install(files)
            group, chunks = tps[start:start + 24], []
            for number, tp in enumerate(group):
                if tp.get("oversize") is not None:
                    tp["oversize"] = 0x100 + number
                    chunks.append(aul.oversize(*p16.PROCESSES["A"]["proc"], tp["oversize"], tp["values"], aul.backtrace(tp["backtrace"]) if tp.get("backtrace") else b""))
            path = files.trace(p16.trace([p16.catalog(), aul.chunk_set(chunks + [p16.assemble("A", group)[0]], True)]))
            trace_case(tally, f"{record} {kind} {part}/{parts} {start}", path)


def messages_part(tally, part):
    """Characters of messages and the number and order of entries."""
    from mc.props import p16
    characters = [chr(c) for c in range(1, 0x180)] + list("\u2028\u2029\ufeff\uffff\u3042\U0001f600")
    texts = [f"a{c}b" for c in characters] + [c for c in characters] + ["\\", '"', '\\"', "\\n", "/", "a" * 1000, "{}", "},{", "\r\n", "\\u0041", "x  "]
    chosen = texts[part::4]
    for size in (1, 3, 40):
        for start in range(0, len(chosen), size):
            if size == 1 and start > 60:
                break
            with Folder() as folder:
                files = aul.Store(folder.path)
                p16.install(files)
                group = chosen[start:start + size]
                # Later entries come first in the file.
                tps = [dict(record="log", kind="main", string=(0, 2), values=[(0x20, t.encode() + b"\0")], shown=[t], delta=(size - i) * 5) for i, t in enumerate(group)]
                chunk, _ = p16.assemble("A", tps)
                path = files.trace(p16.trace([p16.catalog(), aul.chunk_set([chunk], False)]))
                trace_case(tally, f"messages {group!r:.120}", path)
    with Folder() as folder:
        files = aul.Store(folder.path)
        p16.install(files)
        trace_case(tally, "no entries", files.trace(p16.trace([p16.catalog()])))


def dsc_part(tally, _):
    one, two = aul.make_uuid(1), aul.make_uuid(0xabcdef)
    for version in (1, 2):
        for uuids in ([(0x1000, 0x100, one, "/one")], [(0x1000, 0x100, one, "/one"), (0x2000, 0xffff, two, "/System/two\u00e9")], []):
            for count in range(0, 4 if uuids else 1):
                ranges = [(i % len(uuids), 0x200 + i * 0x1000, b"text%d\0" % i) for i in range(count)]
                blob = aul.dsc(version, ranges, uuids)
                want = ["Apple Unified Logging and Activity Tracing information:"]
                for i, (offset, size, identifier, path) in enumerate(uuids):
                    want += [f"uuid {i}:", f"uuid {i}: {str(identifier).upper()}", f"dsc text: 0x{offset:08x} .. 0x{offset + size:08x} ({size})", f"path: {path}"]
                for i, (number, offset, data) in enumerate(ranges):
                    want += [f"Range {i}:", f"uuid {number}: {str(uuids[number][2]).upper()}", f"dsc range: 0x{offset:08x} .. 0x{offset + len(data):08x} ({len(data)})",
                             f"path: {uuids[number][3]}"]
                with Folder() as folder:
                    judge(tally, "dsc", f"{version} {len(uuids)} {count}", "unified_logging", [folder.put(blob)], want, blob,
                          lambda text: [re.sub(r"\s+", " ", line).strip() for line in text.splitlines() if line.strip()])


def call(tally, argument):
    name, value = argument
    globals()[name](tally, value)


def main(run_):
    skip = {"wmi_mapping", "wmi_index", "wmi_objects", "wmi_file"}
    work = [("samples_part", (k, run_.tier)) for k in zoo.KINDS if k not in skip]
    work += [("sources_part", None), ("prefetch_part", None), ("usn_part", None), ("job_part", None), ("recycle_bin_part", None), ("jump_list_part", None), ("indexeddb_part", None),
             ("spotlight_part", 0), ("spotlight_part", 1), ("spotlight_info_part", None), ("wmi_part", 1), ("wmi_part", 2), ("dsc_part", None)]
    work += [("change_log_part", i) for i in range(3)] + [("leveldb_part", i) for i in range(2)] + [("keychain_part", i) for i in range(4)] + [("messages_part", i) for i in range(4)]
    work += [("shortcut_part", (p, run_.thorough)) for p in ("header", "items", "properties", "entries")]
    work += [("cpio_part", (f, h)) for f in cpio.FORMATS for h in ("", "bzip", "gzip", "xz")]
    parts = 6 if run_.thorough else 3
    for record, kinds in (("log", ("main", "absolute", "dsc")), ("signpost", ("main",)), ("activity", ("main",)), ("trace", ("main",))):
        for kind in kinds:
            work += [("trace_part", (record, kind, i, parts)) for i in range(parts if run_.thorough or record == "trace" else 1)]
    run_.explore(call, work)
    run_.tally.n["states"] = len(run_.tally.nontrivial)
    run_.tally.sample({"tools": sorted(set(TOOLS.values()) | {"cpio", "keychain", "usn_journal", "wmi_repository"}), "json": "unified_logging --format json"})
    run_.bounds = {"samples": "all samples of the readers with and without -d, cut off at sizes", "values": "boundary values of every printed field", "entries": "up to 60 per file"}
    run_.rule = "every tool is executed for every file and option of the space; its exit status and what it prints are compared to the encoded values"
    run_.assumptions = ["alignment of columns is not judged", "what the tools print of unified logging entries and index keys is compared to what the reader returns",
                        "messages of 1085 characters and more are shortened by the tool"]
