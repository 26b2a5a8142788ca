"""P07: every single read of every sample file fails or is short in turn; the reader reports an error or exactly what it reports without the fault."""
import os

from mc import core, mutate, zoo

FAULTS = ("error", "short", "half", "empty")


def read(kind, path, root, debug, fault=None):
    plan = core.FilePlan(root, max_reads=200000, fault=fault)
    with core.controlled(plan):
        outcome = zoo.fresh(kind, path, debug=debug, seconds=20)
    return outcome, plan


def values(outcome):
    return [p for p in zoo.pairs(outcome) if isinstance(p[1], str)]


def lacks_entries_only(got, expected):
    """Whole entries (ten values each) are missing, the others are unchanged."""
    entries = [tuple(got[i:i + 10]) for i in range(0, len(got), 10)]
    remaining = iter([tuple(expected[i:i + 10]) for i in range(0, len(expected), 10)])
    return len(entries) * 10 < len(expected) and all(any(e == o for o in remaining) for e in entries)


def same(kind, got, expected):
    """The same items; the content of an archive member may end early, as with any read of a file."""
    if kind.name == "cpio":
        return len(got) == len(expected) and all(
            a == b or isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], bytes) and a[0] == b[0] and b[1].startswith(a[1]) for a, b in zip(got, expected))
    return got == expected


def judge(tally, kind, base, outcome, debug, label, evidence):
    problem = None
    if not outcome.clean:
        problem = f"{outcome.error} at {outcome.stage} ({outcome.message:.200})"
    elif outcome.error is None:
        # Without an error the outcome has to be the one without the fault.
        if not same(kind, outcome.items, base.items):
            problem = f"no error, and the results differ: {[(a, b) for a, b in zip(outcome.items, base.items) if a != b][:1]!r:.300} {len(outcome.items)} instead of {len(base.items)} items"
        elif debug and not kind.values and values(outcome) != values(base):
            got, expected = values(outcome), values(base)
            problem = f"no error, and the results differ: {[(a, b) for a, b in zip(got, expected) if a != b][:1]!r:.300} {len(got)} instead of {len(expected)} values"
    elif not same(kind, outcome.items, base.items[:len(outcome.items)]):
        problem = f"{outcome.error} after results that differ: {[(a, b) for a, b in zip(outcome.items, base.items) if a != b][:1]!r:.300}"
    tally.seen((kind.name, outcome.error, outcome.stage, len(outcome.items)))
    if problem:
        key = kind.name
        if kind.name == "firefox_block" and outcome.error is None and lacks_entries_only(values(outcome), values(base)):
            key = "firefox-block-fault-skips-entry"
        tally.violate(key, f"{kind.name} {label}: {problem}", dict(evidence, kind=kind.name, label=label))


def explore(tally, argument):
    name, sample, debug, part, parts, count = argument
    kind = zoo.KINDS[name]
    files = kind.samples[sample]
    root = core.fresh_dir("p07")
    try:
        path = kind.install(root, files)
        base, plan = read(kind, path, root, debug)
        if base.error:
            tally.violate(name, f"{name} {sample}: without a fault {base!r}", {"kind": name, "label": sample})
            return
        if not plan.reads:
            tally.add("unobserved")
            return
        for k in mutate.spread(plan.reads, count)[part::parts]:
            for fault in FAULTS:
                outcome, done = read(kind, path, root, debug, (fault, k))
                tally.add("executions")
                tally.add("transitions", done.reads)
                if not done.fired:
                    continue
                tally.add("faults")
                tally.add("evaluations", 1 + len(outcome.items))
                judge(tally, kind, base, outcome, debug, f"{sample} read {k} of {plan.reads} {fault}{' debug' if debug else ''}", {"read": k, "fault": fault})
        if not part:
            tally.sample({"kind": name, "sample": sample, "debug": debug, "reads": plan.reads})
    finally:
        core.cleanup(root)


# The library that decompresses (in C) reports no data when one of its reads fails.
LIBRARY = {"fseventsd"}


def tasks(thorough):
    for name, kind in zoo.KINDS.items():
        if name in LIBRARY:
            continue
        for sample in kind.samples:
            for debug in (False, True):
                parts = 8 if thorough else 2
                for part in range(parts):
                    yield name, sample, debug, part, parts, 100000


def main(run):
    run.explore(explore, list(tasks(run.thorough)))
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"readers": len(zoo.KINDS), "faults": "one per execution: I/O error, one byte short, half of the data, no data", "reads": "every read",
                  "debug": "off and on"}
    run.rule = "only the parse error or an I/O error, else exactly the results without the fault; what was reported before an error is a prefix of them"
    run.assumptions = ["one fault per execution", "readers that hand the file to a library in C are subject to faults only in the reads that go through Python; fseventsd, whose decompression library swallows them, is left out",
                       "the content of an archive member is read with a read() that may be short, as that of a file"]
