"""P02: what a reader reports for a file does not depend on what it was used on before.

Every history of visits (a file and how much of it is consumed) up to a length,
followed by a full visit of a well-formed or malformed file, on one reader; the
last visit must equal that of a new reader in a process of its own.
"""
import itertools
import os

from mc import core, zoo


def cuts(data, count):
    """Truncation points: all of them for a short file."""
    if len(data) <= count:
        return list(range(len(data)))
    inner = set(range(0, min(len(data), count // 3)))
    step = len(data) / (count - len(inner))
    return sorted(inner | {int(i * step) for i in range(count - len(inner))})


def files_of(kind):
    """(label, files) of the well-formed files and three malformed ones of each."""
    found = {}
    for label, files in kind.samples.items():
        main = next(iter(files))
        data = files[main]
        found[label] = files
        found[label + "/half"] = {**files, main: data[:len(data) // 2]}
        found[label + "/most"] = {**files, main: data[:-max(1, len(data) // 10)]}
        found[label + "/signature"] = {**files, main: bytes(b ^ 0xa5 for b in data[:8]) + data[8:]}
    return found


def baseline(kind, path, debug):
    return zoo.fresh(kind, path, debug=debug).key()


def differs(got, wanted):
    if got[:2] != wanted[:2]:
        return f"{got[1] or 'no error'} at {got[0]}, a new reader {wanted[1] or 'no error'} at {wanted[0]}"
    if got[2] != wanted[2]:
        position = next((i for i, (a, b) in enumerate(zip(got[2], wanted[2])) if a != b), min(len(got[2]), len(wanted[2])))
        return f"item {position} is {got[2][position:position + 1]!r:.300}, of a new reader {wanted[2][position:position + 1]!r:.300}"
    if got[3] != wanted[3]:
        for a, b in itertools.zip_longest(got[3].split("\n"), wanted[3].split("\n")):
            if a != b:
                return f"debug text is {a!r:.200}, of a new reader {b!r:.200}"
    return None


def explore(tally, argument):
    name, debug, count, long = argument
    kind = zoo.KINDS[name]
    root = core.fresh_dir("p02")
    try:
        paths = {}
        for label, files in files_of(kind).items():
            directory = os.path.join(root, label.replace("/", "-"))
            os.makedirs(directory)
            paths[label] = kind.install(directory, files)
        wanted = {label: core.isolated(baseline, kind, path, debug) for label, path in paths.items()}
        usages = (("full", None), ("first", 1), ("none", 0)) if kind.values else (("full", None),)

        def visit(reader, writer, path, take):
            zoo.use(kind, reader, path, writer, take=take) if take != 0 else zoo.use(EMPTY, reader, path, writer)

        def judge(history, reader, writer, label):
            got = zoo.use(kind, reader, paths[label], writer).key()
            tally.add("executions")
            tally.add("transitions", len(history) + 1)
            tally.add("evaluations", 1 + len(got[2]))
            tally.seen((name, debug, tuple(history), label))
            problem = differs(got, wanted[label])
            if problem:
                tally.violate(name, f"{name} debug={debug}: after {'; '.join(history)}, {label}: {problem}", {"kind": name, "history": history, "file": label, "debug": debug})
            return problem

        good = list(kind.samples)
        # Histories of one and two visits over the files.
        visits = [(label, usage, take) for label in paths for usage, take in (usages if label in good else usages[:1])]
        histories = [(v,) for v in visits] + list(itertools.product(visits, repeat=2))
        if long:
            histories += list(itertools.product([v for v in visits if v[1] == "full"], repeat=3))
        for history in histories:
            for label in paths if len(history) == 1 else good:
                writer = core.Writer()
                reader = kind.make(debug, writer)
                for visited, _, take in history:
                    visit(reader, writer, paths[visited], take)
                if judge([f"{v}({u})" for v, u, _ in history], reader, writer, label):
                    return
        # Histories of one visit of a truncation.
        for label, files in kind.samples.items():
            main = next(iter(files))
            directory = os.path.join(root, "cut")
            kind.install(directory, files)
            path = os.path.join(directory, main)
            for size in cuts(files[main], count):
                with open(path, "wb") as f:
                    f.write(files[main][:size])
                for last in good:
                    writer = core.Writer()
                    reader = kind.make(debug, writer)
                    visit(reader, writer, path, None)
                    if judge([f"{label} cut to {size}"], reader, writer, last):
                        return
            core.cleanup(directory)
        tally.sample({"kind": name, "files": list(paths), "histories": len(histories)})
    finally:
        core.cleanup(root)


class _Empty:
    values = None

    @staticmethod
    def items(_):
        return ()


EMPTY = _Empty()


def main(run):
    tasks = [(name, debug, 2000 if run.thorough else 40, run.thorough) for name in zoo.KINDS for debug in (False, True) if run.thorough or name not in zoo.ALIKE]
    tasks.sort(key=lambda t: t[0] not in ("cim_mapping1_map", "cim_file", "tracev3", "spotlight", "chrome_block", "keychain", "cpio"))
    run.explore(explore, tasks)
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"readers": len(zoo.KINDS), "files": "2 to 5 well-formed per reader and three malformed of each", "history": 3 if run.thorough else 2,
                  "consumption": "all, the first item, nothing", "truncations": "all" if run.thorough else "40 per file"}
    run.rule = "every history of visits up to the length, then one full visit: error, items and debug text equal those of a new reader in a new process"
    run.assumptions = ["what a reader reports is what its public interface returns and the debug text"]
