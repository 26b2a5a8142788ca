"""P08: reading terminates: every field of every sample file set to extreme values and to every other offset in the file."""
import os
import time

from mc import core, mutate, zoo

SECONDS = 15


def judge(tally, kind, path, root, size, reads, debug, label, evidence):
    plan = core.FilePlan(root, max_reads=2000 + 40 * reads + 20 * size)
    before = time.monotonic()
    with core.controlled(plan):
        outcome = zoo.fresh(kind, path, debug=debug, seconds=SECONDS)
    tally.add("executions")
    tally.add("transitions", plan.reads)
    tally.add("evaluations")
    tally.seen((kind.name, outcome.error, outcome.stage, plan.reads))
    if not outcome.clean:
        tally.violate(kind.name, f"{kind.name} {label}: {outcome.error} at {outcome.stage} ({outcome.message:.200}) after {plan.reads} reads", dict(evidence, kind=kind.name, label=label))
    return time.monotonic() - before


def explore(tally, argument):
    name, sample, file, part, parts, count, limit, debug = argument
    kind = zoo.KINDS[name]
    files = kind.samples[sample]
    root = core.fresh_dir("p08")
    try:
        path = kind.install(root, files)
        plan = core.FilePlan(root)
        with core.controlled(plan):
            zoo.fresh(kind, path)
        size = sum(len(d) for d in files.values())
        target = os.path.join(root, file)
        done = set()
        index = 0
        for generator in (mutate.fields(files[file], count, (1, 2, 4, 8)), mutate.links(files[file], limit)):
            for label, data in generator:
                if data in done:
                    continue
                done.add(data)
                index += 1
                if index % parts != part:
                    continue
                with open(target, "wb") as f:
                    f.write(data)
                judge(tally, kind, path, root, size, plan.reads, debug, f"{sample} {file} {label}", {"data": data[:2000]})
                if len(tally.violations) > 40:
                    return
        if not part:
            tally.sample({"kind": name, "sample": sample, "file": file, "files": index, "reads": plan.reads})
    finally:
        core.cleanup(root)


def tasks(thorough):
    for name, kind in zoo.KINDS.items():
        if name in zoo.SAME and not thorough:
            continue
        for sample, files in kind.samples.items():
            for file in files:
                parts = 8 if thorough else 2 if name not in zoo.LOOSE else 4
                for part in range(parts):
                    for debug in (True, False) if thorough else (True,):
                        yield name, sample, file, part, parts, 400 if thorough else 15 if name in zoo.LOOSE else 40, 40 if thorough else 4 if name in zoo.LOOSE else 8, debug


def main(run):
    run.explore(explore, list(tasks(run.thorough)))
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"readers": len(zoo.KINDS), "fields": f"1, 2, 4 and 8 bytes at {400 if run.thorough else 40} positions per file: zero, one, all bits, largest signed, plus and minus one, double, its own offset, the size of the file",
                  "links": f"every field that may hold an offset (up to {320 if run.thorough else 64} of each size and byte order) set to up to {40 if run.thorough else 8} other offsets, its own and zero", "debug": "off and on" if run.thorough else "on", "reads": "2000 + 40 x those of the sample + 20 x the size of the file"}
    run.rule = f"every file: a result, the parse error or an I/O error within the bound on reads and {SECONDS} s"
    run.assumptions = ["a file that takes milliseconds when it terminates is taken not to terminate after 15 s"]
