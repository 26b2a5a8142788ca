"""P06: truncated files: every prefix of every sample file of every reader; an error or a faithful part of what the complete file yields."""
import os

from mc import core, mutate, zoo


def is_part(got, complete):
    """The first item of got that cannot be matched in order, or None."""
    remaining = iter(complete)
    for item in got:
        if not any(item == other for other in remaining):
            return item
    return None


# What describes the file as a whole, or is stored relative to its end without anything to check it against.
WHOLE = {"cpio": lambda item: isinstance(item, int), "rp_log": lambda item: item[0] == "Creation time"}


def results(kind, items):
    whole = WHOLE.get(kind.name)
    return [i for i in items if not whole(i)] if whole else items


def values(outcome):
    """The values in the debug text; dumps of raw data are left out."""
    return [p for p in zoo.pairs(outcome) if isinstance(p[1], str)]


def judge(tally, kind, path, complete, label, debug, opened, evidence):
    outcome = zoo.fresh(kind, path, debug=debug, seconds=20)
    tally.add("executions")
    tally.add("transitions", max(1, len(outcome.items)))
    tally.add("evaluations", 1 + len(outcome.items))
    problem = None
    if not outcome.clean:
        problem = f"{outcome.error} at {outcome.stage} ({outcome.message:.200})"
    elif opened:
        item = is_part(results(kind, outcome.items), results(kind, complete.items))
        if item is not None:
            problem = f"reports {item!r:.300}, which the complete file does not yield there"
        elif debug and not kind.values:
            item = is_part(results(kind, values(outcome)), results(kind, values(complete)))
            if item is not None:
                problem = f"reports {item!r:.300}, which the complete file does not yield there"
    tally.seen((kind.name, outcome.error, outcome.stage, len(outcome.items)))
    if problem:
        tally.violate(kind.name, f"{kind.name} {label}: {problem}", dict(evidence, kind=kind.name, label=label))


def explore(tally, argument):
    name, sample, file, part, parts, count = argument
    kind = zoo.KINDS[name]
    files = kind.samples[sample]
    root = core.fresh_dir("p06")
    try:
        path = kind.install(root, files)
        complete = {debug: zoo.fresh(kind, path, debug=debug) for debug in (False, True)}
        for debug, outcome in complete.items():
            if outcome.error:
                tally.violate(kind.name, f"{name} {sample} debug {debug}: complete file: {outcome!r}", {"kind": name, "label": sample})
                return
        cut = os.path.join(root, file)
        sizes = mutate.spread(len(files[file]), count)
        for size in sizes[part::parts]:
            with open(cut, "wb") as f:
                f.write(files[file][:size])
            for debug in (False, True):
                judge(tally, kind, path, complete[debug], f"{sample} {file} cut to {size} of {len(files[file])}{' debug' if debug else ''}", debug, file == next(iter(files)), {"size": size})
        tally.add("cuts", len(sizes[part::parts]))
        if not part:
            tally.sample({"kind": name, "sample": sample, "file": file, "sizes": len(sizes)})
    finally:
        core.cleanup(root)


def tasks(thorough):
    for name, kind in zoo.KINDS.items():
        for sample, files in kind.samples.items():
            for file in files:
                count = 20000 if thorough else 400
                parts = 8 if thorough else max(1, min(4, len(files[file]) // 150))
                for part in range(parts):
                    yield name, sample, file, part, parts, count


def main(run):
    run.explore(explore, list(tasks(run.thorough)))
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"readers": len(zoo.KINDS), "prefixes": "all of the first half, the rest spread, 20000 per file" if run.thorough else "all of files up to 400 bytes, else the first 200 and 200 spread over the rest",
                  "debug": "off and on"}
    run.rule = "every prefix: only the parse error or an I/O error, and what is reported is a part, in order, of what the complete file yields"
    run.assumptions = ["for readers without an interface to their results the values in the debug text are the results", "raw data dumps in the debug text are not results",
                       "of a file that is opened besides the one named (string tables, catalogs, stream maps) only the kind of error is judged: nothing tells the reader that it is incomplete",
                       "a value stored relative to the end of the file (restore point log) and the size of the archive itself (cpio) are not compared"]
