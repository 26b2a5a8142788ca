"""P26: what is reported depends on the file alone: not on the environment, the place of the file or the file object it is read through."""
import argparse
import contextlib
import io
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tarfile
import zipfile

from dfvfs.lib import definitions as dfvfs_definitions
from dfvfs.path import factory as path_factory

from mc import core, zoo
from mc.fmt import browser, fat
from mc.props import p25
from dtformats import chrome_cache, dfvfs_helpers, file_system

ZONES = ["UTC", "XXX-9", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "LINT-14", "AAA12", "NZST-12NZDT,M9.5.0,M4.1.0/3", "LMT7:52:58"]
SEEDS = ["0", "1", "2", "3", "12345"]
LOCALES = [{"LC_ALL": "C.UTF-8", "PYTHONUTF8": "1"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "1"}]
OTHERS = [{"PYTHONOPTIMIZE": "2"}, {"VERIF_CWD": "/"}, {"PYTHONWARNINGS": "ignore", "COLUMNS": "20", "TERM": "dumb"}, {"LANG": "xx_YY.UTF-8"}]


# ------------------------------------------------------------ the environment

def environments(thorough):
    """Every environment, as what differs from the base."""
    base = {"TZ": "UTC", "PYTHONHASHSEED": "0", **LOCALES[0]}
    cases = []
    if thorough:
        for zone, seed, locale, other in itertools.product(ZONES, SEEDS, LOCALES, [{}] + OTHERS[:2]):
            cases.append({**base, "TZ": zone, "PYTHONHASHSEED": seed, **locale, **other})
    else:
        cases += [{**base, "TZ": z} for z in ZONES[1:]]
        cases += [{**base, "PYTHONHASHSEED": s} for s in SEEDS[1:]]
        cases += [{**base, **v} for v in LOCALES[1:] + OTHERS]
        cases += [{**base, "TZ": ZONES[2], "PYTHONHASHSEED": "1", **LOCALES[1], "PYTHONOPTIMIZE": "1"}]
    return base, cases


def observe(folder, name, environment):
    out = os.path.join(folder, name + ".json")
    keep = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "VERIF_REPO", "VERIF_SCRATCH_BASE", "TMPDIR")}
    done = subprocess.run([sys.executable, "-m", "mc.environment", os.path.join(folder, "work.json"), out], cwd=core.VERIF, timeout=600, check=False,
                          env={**keep, "PYTHONPATH": core.VERIF, "PYTHONDONTWRITEBYTECODE": "1", **environment}, capture_output=True)
    if done.returncode or not os.path.exists(out):
        return None, done.stderr.decode("utf-8", "replace")[-600:]
    with open(out, encoding="utf-8") as f:
        result = json.load(f)
    os.unlink(out)
    return result, ""


def difference(one, two):
    at = next((i for i, (a, b) in enumerate(zip(one, two)) if a != b), min(len(one), len(two)))
    return f"...{one[max(0, at - 80):at + 80]!r} against ...{two[max(0, at - 80):at + 80]!r}"


def environment_case(tally, argument):
    folder, index, environment = argument
    with open(os.path.join(folder, "base.json"), encoding="utf-8") as f:
        base = json.load(f)
    got, failure = observe(folder, f"e{index}", environment)
    shown = {k: v for k, v in environment.items() if base["environment"].get(k) != v}
    tally.add("executions", len(base["seen"]))
    if got is None:
        tally.add("evaluations")
        tally.violate("environment", f"{shown}: the readers cannot be used: {failure}", shown)
        return
    for name, want in base["seen"].items():
        tally.add("evaluations")
        tally.add("transitions")
        tally.seen((name, json.dumps(environment, sort_keys=True)))
        if got["seen"].get(name) != want:
            what = difference(want, got["seen"].get(name, ""))
            tally.violate(f"environment:{name.split()[1]}", f"{name} with {shown}: {what:.400}", {"environment": environment, "name": name})


def tool_work(folder, kind, label, k, files):
    """The tool on a sample, laid out as the tool wants it."""
    if kind in ("wmi_mapping", "wmi_index", "wmi_objects", "wmi_file"):
        return
    holder = type("Holder", (p25.Folder,), {"__init__": lambda self: setattr(self, "path", os.path.join(folder, f"tool {kind} {label}"))})()
    os.makedirs(holder.path)
    path = p25.installed(holder, kind, files)
    tool = "wmi_repository" if kind.startswith("cim_") else p25.TOOLS.get(kind, kind)
    yield from ([f"tool {kind} {label} {' '.join(o)}", tool, None, [*o, path]] for o in ((), ("-d",)))
    if kind == "tracev3":
        yield [f"tool {kind} {label} json", tool, None, ["--format", "json", path]]


def environment_part(run):
    folder = core.fresh_dir("e")
    try:
        work = []
        for kind, k in zoo.KINDS.items():
            for label, files in k.samples.items():
                path = k.install(os.path.join(folder, f"{kind} {label}"), files)
                work.append([f"reader {kind} {label}", kind, path, None])
                with open(path, "rb") as f:
                    size = len(f.read())
                # A damaged file is reported the same everywhere as well.
                if len(files) == 1 and size > 1:
                    part = k.install(os.path.join(folder, f"{kind} {label} part"), {n: d[:size * 2 // 3] for n, d in files.items()})
                    work.append([f"reader {kind} {label} cut", kind, part, None])
                work += list(tool_work(folder, kind, label, k, files))
        with open(os.path.join(folder, "work.json"), "w", encoding="utf-8") as f:
            json.dump(work, f)
        base, cases = environments(run.thorough)
        result, failure = observe(folder, "b", base)
        if result is None:
            run.tally.add("executions")
            run.tally.violate("environment", f"the readers cannot be used: {failure}", base)
            return
        result["environment"] = base
        with open(os.path.join(folder, "base.json"), "w", encoding="utf-8") as f:
            json.dump(result, f)
        run.bounds["environments"] = len(cases) + 1
        run.bounds["observations"] = len(result["seen"])
        run.explore(environment_case, [(folder, i, c) for i, c in enumerate(cases)])
    finally:
        core.cleanup(folder)


# ------------------------------------------------------------ the place of the file

def places(root, path):
    """(name, path to open, directory to be in) of the same file."""
    tail = os.path.relpath(path, root)
    parent, name = os.path.split(path)
    yield "relative", name, parent
    yield "relative with dot", os.path.join(".", name), parent
    yield "relative to the root", tail, root
    yield "through the parent", os.path.join(parent, "..", os.path.basename(parent), name), "/"
    yield "double separator", parent + "//" + name, "/"
    for label, other in (("other name", "\u00e9\u4e2d \U0001f600 dir"), ("dots", "a.b..c"), ("deep", "/".join(["d" * 100] * 9)), ("percent", "%s {0:d} %n"), ("name of a format", "x.gz/CIM/0.bin")):
        new = os.path.join(os.path.dirname(root), "other", label, other)
        os.makedirs(os.path.dirname(new), exist_ok=True)
        shutil.copytree(root, new)
        yield label, os.path.join(new, tail), "/"
    link = os.path.join(os.path.dirname(root), "link")
    os.symlink(root, link)
    yield "symbolic link", os.path.join(link, tail), "/"


class Objects(file_system.NativeFileSystemHelper):
    """Native helper that hands out a file object of a kind."""

    how = ""

    def OpenFileByPath(self, path):
        if self.how == "memory":
            with open(path, "rb") as f:
                return io.BytesIO(f.read())
        if self.how == "unbuffered":
            return open(path, "rb", buffering=0)  # pylint: disable=consider-using-with
        if self.how == "writable":
            return open(path, "r+b")  # pylint: disable=consider-using-with
        return open(path, "rb", buffering=int(self.how))  # pylint: disable=consider-using-with


def archive(root, how, path):
    """dfVFS helper for an archive of the files below root."""
    names = sorted(os.path.relpath(os.path.join(d, n), root) for d, _, names in os.walk(root) for n in names)
    if how == "tar":
        with tarfile.open(path, "w") as out:
            for n in names:
                out.add(os.path.join(root, n), arcname=n)
    else:
        with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED if how == "deflate" else zipfile.ZIP_STORED) as out:
            for n in names:
                out.write(os.path.join(root, n), arcname=n)
    parent = path_factory.Factory.NewPathSpec(dfvfs_definitions.TYPE_INDICATOR_OS, location=path)
    indicator = dfvfs_definitions.TYPE_INDICATOR_TAR if how == "tar" else dfvfs_definitions.TYPE_INDICATOR_ZIP
    helper = dfvfs_helpers.DFVFSFileSystemHelper(None)
    helper.OpenFileSystem(path_factory.Factory.NewPathSpec(indicator, location="/", parent=parent))
    return helper


def observe_file(k, path, helper=None, debug=True):
    writer = core.Writer()
    keywords = {"file_system_helper": helper} if helper else {}
    outcome = zoo.use(k, k.factory(debug=debug, output_writer=writer, **keywords), path, writer)
    # The WMI repository tells which files it reads.
    outcome.text = re.sub(r"(?m)^Reading: .*/", "Reading: ", outcome.text)
    return outcome


def takes_helper(k):
    try:
        k.factory(debug=False, output_writer=None, file_system_helper=Objects())
    except TypeError:
        return False
    return True


def variants(files, thorough):
    """The sample and the sample with its first file cut off."""
    main = next(iter(files))
    size = len(files[main])
    yield "whole", files
    cuts = range(0, 16) if thorough else (0,)
    chosen = set(cuts) | {size // 4, size // 2, size - 1}
    if thorough:
        chosen |= set(range(0, size, max(1, size // 40)))
    for cut in sorted(c for c in chosen if 0 <= c < size):
        yield f"cut at {cut}", {**files, main: files[main][:cut]}


def place_part(tally, argument):
    kind, thorough = argument
    k = zoo.KINDS[kind]
    helped = takes_helper(k)
    counter = itertools.count()
    top = core.fresh_dir("p")
    here = os.getcwd()
    try:
        for label, files in k.samples.items():
            for variant, content in variants(files, thorough):
                folder = os.path.join(top, str(next(counter)))
                root = os.path.join(folder, "root", "dir")
                os.makedirs(root)
                path = k.install(root, content)
                want = observe_file(k, path)

                def compare(how, got, want=want, path=path, label=label, variant=variant, content=content):
                    tally.add("executions")
                    tally.add("evaluations")
                    tally.add("transitions", len(got.items) + 1)
                    tally.seen((kind, label, variant, how))
                    if got.key() != want.key():
                        what = difference(repr(want.key()), repr(got.key()))
                        tally.violate(f"{kind}:{how.replace(': ', ':').replace(' ', '-')}", f"{kind} {label} {variant} {how}: {what:.500}",
                                      {"kind": kind, "sample": label, "variant": variant, "how": how, "file": next(iter(content.values()))[:2000].hex()})

                for how, place, directory in places(root, path):
                    os.chdir(directory)
                    compare(f"place: {how}", observe_file(k, place))
                    os.chdir(here)
                    tally.add("evaluations")
                if not helped or kind.startswith("cim_"):
                    continue
                for how in ("memory", "unbuffered", "writable", "7", "64", "65536"):
                    helper = Objects()
                    helper.how = how
                    compare(f"object: {how}", observe_file(k, path, helper))
                for how in ("tar", "deflate"):
                    helper = archive(root, how, os.path.join(folder, f"{how}.{next(counter)}"))
                    tail = "/" + os.path.relpath(path, root)
                    compare(f"archive: {how}", observe_file(k, tail, helper))
                core.cleanup(folder)
    finally:
        os.chdir(here)
        core.cleanup(top)


def tool_part(tally, argument):
    """The tools on the same file in other places."""
    kind, _ = argument
    k = zoo.KINDS[kind]
    tool = "wmi_repository" if kind.startswith("cim_") else p25.TOOLS.get(kind, kind)
    here = os.getcwd()
    for label, files in k.samples.items():
        with p25.Folder() as folder:
            folder.path = os.path.join(folder.path, "root", "dir")
            os.makedirs(folder.path)
            path = p25.installed(folder, kind, files)
            is_directory = os.path.isdir(path)
            want = p25.run(tool, path)
            for how, place, directory in places(folder.path, path):
                if is_directory and place.endswith("/."):
                    place = place[:-2]
                os.chdir(directory)
                try:
                    got = p25.run(tool, place)
                finally:
                    os.chdir(here)
                tally.add("executions")
                tally.add("evaluations")
                tally.seen((tool, kind, label, how))
                if got != want:
                    tally.violate(f"{tool}:place:{how.replace(' ', '-')}", f"{tool} {kind} {label} {how}: {difference(repr(want), repr(got)):.500}", {"tool": tool, "sample": label, "how": how})


# ------------------------------------------------------------ a file that is not there

def missing_part(tally, kind):
    k = zoo.KINDS[kind]
    if not takes_helper(k) or kind.startswith("cim_"):
        return
    root = core.fresh_dir("m")
    try:
        core.put(root, "files/other", b"x")
        helpers = [("native", None, root + "/none")]
        helpers += [(how, archive(root + "/files", how, os.path.join(root, how)), "/none") for how in ("tar", "deflate")]
        for how, helper, path in helpers:
            got = observe_file(k, path, helper)
            tally.add("executions")
            tally.add("evaluations")
            tally.seen((kind, "missing", how))
            if got.error != "OSError" or got.stage != "open":
                tally.violate("missing-file", f"{kind} {how}: a file that does not exist: {got}", {"kind": kind, "how": how})
    finally:
        core.cleanup(root)


# ------------------------------------------------------------ storage media images

# The files that belong to a tracev3 file can be in three arrangements.
LAYOUTS = {"archive": {"var/db/uuidtext": "a.logarchive", "var/db/diagnostics": "a.logarchive"},
           "capital archive": {"var/db/uuidtext": "A.LOGARCHIVE", "var/db/diagnostics": "A.LOGARCHIVE"},
           "nested": {"var/db": "one/two/three/private/var/db"}}
IMAGE_KINDS = ["leveldb_log", "leveldb_descriptor", "leveldb_table", "indexeddb", "automatic_destinations", "custom_destinations", "spotlight", "uuidtext", "dsc", "timesync", "tracev3"]


def arrangements(kind, files):
    yield "as is", files
    if kind == "tracev3":
        for name, moves in LAYOUTS.items():
            moved = {}
            for path, data in files.items():
                for old, new in moves.items():
                    if path.startswith(old + "/"):
                        path = new + path[len(old):]
                        break
                moved[path] = data
            if name != "nested":
                moved[moves["var/db/uuidtext"] + "/dsc/none"] = b""
            yield name, moved


def scanned(path):
    parser = argparse.ArgumentParser()
    dfvfs_helpers.AddDFVFSCLIArguments(parser)
    return dfvfs_helpers.ParseDFVFSCLIArguments(parser.parse_args(["--image", path]))


def image_part(tally, kind):
    """The tools and readers on a file in an image, in every arrangement, against the same files on the host."""
    k = zoo.KINDS[kind]
    tool = p25.TOOLS.get(kind, kind)
    for label, files in k.samples.items():
        base = None
        for arrangement, content in arrangements(kind, files):
            with p25.Folder() as folder:
                path = p25.installed(folder, kind, content)
                found = {}
                for directory, _, names in os.walk(folder.path):
                    for n in names:
                        full = os.path.join(directory, n)
                        with open(full, "rb") as f:
                            found[os.path.relpath(full, folder.path)] = f.read()
                image = core.put(folder.path, "image.raw", fat.image(found))
                inside = "\\" + os.path.relpath(path, folder.path).replace("/", "\\")
                case = {"kind": kind, "sample": label, "arrangement": arrangement}
                for options in ((), ("-d",)) + ((("--format", "json"),) if kind == "tracev3" else ()):
                    want = p25.run(tool, *options, path)
                    got = p25.run(tool, *options, "--image", image, inside)
                    tally.add("executions", 2)
                    tally.add("evaluations", 2)
                    tally.seen((kind, label, arrangement, options))
                    if want[0] != 0 or got != want:
                        tally.violate(f"{tool}:image", f"{tool} {kind} {label} {arrangement} {options}: {difference(repr(want), repr(got)):.500}", case)
                    if not options:
                        base = base or want
                        if want != base:
                            tally.violate(f"{tool}:arrangement", f"{tool} {kind} {label} {arrangement}: {difference(repr(base), repr(want)):.500}", case)
                # Not in the image: neither when it is nowhere, nor when the host has such a file.
                for name, missing in (("nowhere", "\\none.dat"), ("host", path)):
                    got = p25.run(tool, "--image", image, missing)
                    tally.add("executions")
                    tally.add("evaluations")
                    tally.seen((kind, label, arrangement, name))
                    if got[0] == 0:
                        tally.violate(f"{tool}:image-missing", f"{tool} {kind} {label} ends successfully for a file that is not in the image ({name})", case)
                # An image without a file system has no files.
                for name, data in (("zero", bytes(4096)), ("text", b"text" * 2000), ("small", b"x"), ("not formatted", fat.image(found)[:3] + bytes(8000))):
                    bad = core.put(folder.path, f"bad {name}.raw", data)
                    got = p25.run(tool, "--image", bad, path)
                    tally.add("executions")
                    tally.add("evaluations")
                    tally.seen((kind, label, arrangement, "bad", name))
                    if got[0] == 0:
                        tally.violate(f"{tool}:image-unsupported", f"{tool} {kind} {label}: reads the file of the host when the image has no file system ({name})", case)
                if takes_helper(k):
                    helper = scanned(image)
                    tally.add("evaluations")
                    if helper is None:
                        tally.violate("image-scan", f"{kind} {label}: no file system found in the image", case)
                        continue
                    for debug in (False, True):
                        want, got = observe_file(k, path, None, debug), observe_file(k, inside, helper, debug)
                        tally.add("executions", 2)
                        tally.add("evaluations")
                        tally.seen((kind, label, arrangement, "reader", debug))
                        if want.key() != got.key():
                            tally.violate(f"{kind}:image", f"{kind} {label} {arrangement}: {difference(repr(want.key()), repr(got.key())):.500}", case)


def directory_part(tally, _):
    """Chrome cache directories."""
    for count in range(0, 5):
        root = core.fresh_dir("c")
        here = os.getcwd()
        try:
            top = os.path.join(root, "root", "dir")
            os.makedirs(top)
            files = {n: n % 2 + 1 for n in range(count)}
            blocks = {1: {}, 2: {}}
            for n, number in files.items():
                blocks[number][n] = browser.entry(b"http://h/%d" % n, next_=0, creation=12900000000000000 + n * 1000003)
            core.put(top, "index", browser.index_file([browser.address(2, number, n) for n, number in files.items()] + [0]))
            for number, entries in blocks.items():
                core.put(top, f"data_{number}", browser.data_file(entries, 256))
            core.put(top, "data_0", browser.data_file({}, 36))

            def parse(place, helper=None):
                out = io.StringIO()
                try:
                    with contextlib.redirect_stdout(out):
                        chrome_cache.ChromeCacheParser(file_system_helper=helper).ParseDirectory(place)
                except Exception as e:  # pylint: disable=broad-except
                    return f"{type(e).__name__}: {e}"
                return out.getvalue()

            want = parse(top)
            tally.add("evaluations")
            if want.count("http://h/") != count:
                tally.violate("directory", f"{count} entries: {want!r:.300}", {"count": count})
            got = {}
            for how, place, directory in places(top, os.path.join(top, "index")):
                os.chdir(directory)
                got[how] = parse(os.path.dirname(place) or ".")
                os.chdir(here)
            os.chdir(top)
            got["here"] = parse(".")
            os.chdir(here)
            names = {n: n for n in ("index", "data_0", "data_1", "data_2")}
            contents = {}
            for n in names:
                with open(os.path.join(top, n), "rb") as f:
                    contents["cache/" + n] = f.read()
            helper = scanned(core.put(root, "image.raw", fat.image(contents)))
            got["image"] = parse("\\cache", helper) if helper else "no file system found"
            helper = archive(os.path.join(root, "root"), "tar", os.path.join(root, "a.tar"))
            got["archive"] = parse("/dir", helper)
            for how, text in got.items():
                tally.add("executions")
                tally.add("evaluations")
                tally.seen(("directory", count, how))
                if text != want:
                    tally.violate("directory", f"Chrome cache of {count} entries {how}: {difference(want, text):.400}", {"count": count, "how": how})
        finally:
            os.chdir(here)
            core.cleanup(root)


def call(tally, argument):
    name, value = argument
    globals()[name](tally, value)


def main(run_):
    environment_part(run_)
    run_.explore(call, [("place_part", (k, run_.thorough)) for k in zoo.KINDS] + [("missing_part", k) for k in zoo.KINDS] +
                 [("image_part", k) for k in IMAGE_KINDS] + [("directory_part", None)] +
                 [("tool_part", (k, 0)) for k in zoo.KINDS if not k.startswith("wmi_")])
    run_.tally.n["states"] = len(run_.tally.nontrivial)
    run_.tally.sample({"zones": ZONES, "hash seeds": SEEDS})
    run_.bounds.update({"places": 11, "file objects": "memory, unbuffered, writable, buffers of 7, 64 and 65536 bytes, TAR and deflated ZIP through dfVFS", "images": "FAT volumes with the 5 tools that read images",
                        "files": "all samples of all readers, whole and cut off"})
    run_.rule = "every observation of every sample is repeated in every environment, place and file object and compared to the first; the environments are the full product in the thorough tier"
    run_.assumptions = ["time zones are POSIX strings: the result of the C library is what Python reports", "standard output of the tools is UTF-8"]
