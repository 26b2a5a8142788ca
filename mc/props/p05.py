"""P05: debug output changes nothing: every file of a bounded neighbourhood of the well-formed ones, with debug off and on, with and without a writer."""
import os

from mc import core, mutate, zoo

MODES = ((False, True), (True, True), (True, False), (False, False))


def observe(kind, path, debug, writer):
    outcome = zoo.fresh(kind, path, debug=debug, writer=writer)
    return outcome


def judge(tally, kind, path, label, files):
    base = observe(kind, path, False, True)
    tally.add("executions", 4)
    tally.add("transitions", 3)
    tally.add("evaluations", 4 + 3 * len(base.items))
    problem = None
    if base.text:
        problem = f"writes {base.text!r:.100} although debug is off"
    for debug, writer in MODES[1:]:
        other = observe(kind, path, debug, writer)
        mode = f"debug {'on' if debug else 'off'} and {'a' if writer else 'no'} writer"
        if (other.error, other.stage) != (base.error, base.stage):
            problem = problem or f"{base.error or 'no error'} at {base.stage} ({base.message:.150}), with {mode} {other.error or 'no error'} at {other.stage} ({other.message:.150})"
        elif other.items != base.items:
            problem = problem or f"items differ with {mode}: {[(a, b) for a, b in zip(base.items, other.items) if a != b][:1]!r:.300} {len(base.items)} {len(other.items)}"
    tally.seen((kind.name, label))
    if problem:
        tally.violate(kind.name, f"{kind.name} {label}: {problem}", {"kind": kind.name, "label": label, "file": files[next(iter(files))][:4000]})
    return problem is None


def explore(tally, argument):
    name, sample, count, part, parts = argument
    kind = zoo.KINDS[name]
    files = kind.samples[sample]
    main = next(iter(files))
    root = core.fresh_dir("p05")
    try:
        path = kind.install(root, files)
        near = [("as it is", files[main])]
        near += list(mutate.truncations(files[main], count))
        near += list(mutate.single_bytes(files[main], count))
        for label, data in near[part::parts]:
            with open(path, "wb") as f:
                f.write(data)
            if not judge(tally, kind, path, f"{sample} {label}", {main: data}) and len(tally.violations) > 200:
                return
        if not part:
            with open(path, "wb") as f:
                f.write(files[main])
            for other in list(files)[1:]:
                for label, data in list(mutate.truncations(files[other], 12)) + list(mutate.single_bytes(files[other], 12)):
                    core.put(root, other, data)
                    judge(tally, kind, path, f"{sample} {other} {label}", files)
                core.put(root, other, files[other])
            tally.sample({"kind": name, "sample": sample, "files": len(near)})
    finally:
        core.cleanup(root)


def tasks(thorough):
    # The cost of reading one file decides how many are explored.
    slow = {"tracev3": 60, "spotlight": 40, "chrome_block": 60, "automatic_destinations": 60, "keychain": 60, "amcache": 60, "bsm": 60, "detection_history": 60}
    for name, kind in zoo.KINDS.items():
        if name in zoo.SAME and not thorough:
            continue
        count = slow.get(name, 70) * (12 if thorough else 1)
        parts = 8 if thorough else 2
        for sample in kind.samples:
            for part in range(parts):
                yield name, sample, count, part, parts


def main(run):
    run.explore(explore, list(tasks(run.thorough)))
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"readers": len(zoo.KINDS), "files": "the well-formed ones, their truncations and changes of one byte (4 values)", "positions": "840 per file" if run.thorough else "60 to 70 per file",
                  "modes": "debug off and on, with and without a writer"}
    run.rule = "every file in all four modes: same error class, same stage, same items; nothing is written with debug off"
    run.assumptions = ["the message of an error is not part of what a reader reports"]
