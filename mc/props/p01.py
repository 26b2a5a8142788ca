"""P01: every sequence of opens (of good, missing and malformed files) and closes of every reader, up to a depth.

The model of a reader is one variable: closed, or open on a file. The check
executes every word over the operations on the real reader and compares each
step with the model; the files the reader opens are watched for being closed.
"""
import itertools
import os

from mc import core, zoo


def variants(kind):
    """Files to open: two well-formed ones and malformed ones derived from the first."""
    labels = list(kind.samples)
    one, two = kind.samples[labels[0]], kind.samples[labels[1]]
    main = next(iter(one))
    data = one[main]
    return {
        "good": one,
        "other": two,
        "empty": {**one, main: b""},
        "signature": {**one, main: bytes(b ^ 0xa5 for b in data[:8]) + data[8:]},
        "half": {**one, main: data[:len(data) // 2]},
        "missing": None,
    }


class Watched:
    """A reader, the model of its state and the files it holds open."""

    def __init__(self, kind, paths, expected, root, debug):
        self.kind, self.paths, self.expected = kind, paths, expected
        self.loose = kind.name in zoo.LOOSE
        self.plan = core.FilePlan(root)
        self.reader = kind.make(debug, core.Writer())
        self.state = None

    def step(self, operation):
        """Performs an operation; returns what differs from the model or None."""
        raised = None
        if self.loose and self.state and operation != "close":
            return None
        with core.controlled(self.plan):
            try:
                with core.time_limit(20):
                    if operation == "close":
                        self.reader.Close()
                    else:
                        self.reader.Open(self.paths[operation])
            except (Exception, core.Hang) as e:  # pylint: disable=broad-except
                raised = zoo.classify(e)
        if operation == "close":
            wanted = None if self.state or self.loose else "OSError"
            self.state = None
        elif self.state:
            wanted = "OSError"
        else:
            wanted = self.expected[operation][0]
            if wanted is None:
                self.state = operation
        if raised != wanted:
            return f"{operation} gives {raised or 'no error'}, expected {wanted or 'no error'}"
        if not self.state and self.plan.live:
            return f"after {operation} the reader is closed but holds {[os.path.basename(p) for p in self.plan.live.values()]}"
        if self.state and not self.plan.live:
            return f"after {operation} the reader is open but its file is closed"
        return None

    def finish(self):
        """The reader still does what its state says, and once closed behaves like a new one."""
        if not self.state:
            problem = self.step("good")
            if problem:
                return f"at the end: {problem}"
        items, error = [], None
        with core.controlled(self.plan):
            try:
                with core.time_limit(20):
                    items = list(self.kind.items(self.reader))
            except (Exception, core.Hang) as e:  # pylint: disable=broad-except
                error = zoo.classify(e)
        if (error, items) != self.expected[self.state][1:]:
            return f"at the end: open on {self.state}, reports {error or 'no error'} {len(items)} items, a new reader {self.expected[self.state][1] or 'no error'} {len(self.expected[self.state][2])} items"
        return self.step("close") or self.step("close") or (self.state and "still open")


def baseline(kind, path):
    """(error of open, error of reading, items) of a new reader."""
    reader = kind.make(False, core.Writer())
    try:
        with core.time_limit(20):
            reader.Open(path)
    except (Exception, core.Hang) as e:  # pylint: disable=broad-except
        return zoo.classify(e), None, []
    items, error = [], None
    try:
        with core.time_limit(20):
            items = list(kind.items(reader))
    except (Exception, core.Hang) as e:  # pylint: disable=broad-except
        error = zoo.classify(e)
    reader.Close()
    return None, error, items


def explore(tally, argument):
    name, debug, depth = argument
    kind = zoo.KINDS[name]
    root = core.fresh_dir("p01")
    try:
        paths = {}
        for label, files in variants(kind).items():
            directory = os.path.join(root, label)
            os.makedirs(directory)
            paths[label] = kind.install(directory, files) if files else os.path.join(directory, next(iter(kind.samples[list(kind.samples)[0]])))
        expected = {label: core.isolated(baseline, kind, path) for label, path in paths.items()}
        for label in ("good", "other"):
            if expected[label][0] or expected[label][1]:
                tally.violate(name, f"{name}: a well-formed file ({label}) is not read: {expected[label][:2]}", {"kind": name})
                return
        if expected["missing"][0] != "OSError" and not (name in zoo.LOOSE and expected["missing"][0] == "ParseError"):
            tally.violate(name, f"{name}: opening a missing file gives {expected['missing'][0]}", {"kind": name})
        # The reader is told apart by what its interface reports; one well-formed and the malformed files are enough where nothing is.
        operations = list(paths) + ["close"]
        for word in itertools.product(operations, repeat=depth):
            watched = Watched(kind, paths, expected, root, debug)
            problem = None
            for position, operation in enumerate(word):
                problem = watched.step(operation)
                tally.add("transitions")
                tally.add("evaluations", 2)
                if problem:
                    problem = f"step {position + 1} of {'; '.join(word)}: {problem}"
                    break
                tally.seen((name, debug, watched.state, operation, word[:position]))
            else:
                problem = watched.finish()
                tally.add("evaluations")
                if problem:
                    problem = f"{'; '.join(word)}: {problem}"
            tally.add("executions")
            if problem:
                tally.violate(f"{name}", f"{name} debug={debug}: {problem}", {"kind": name, "word": word, "debug": debug})
                return
        # An open that fails because the n-th read fails.
        for label in ("good", "other"):
            for number in range(400):
                watched = Watched(kind, paths, expected, root, debug)
                watched.plan.fault = ("error", number)
                raised = None
                with core.controlled(watched.plan):
                    try:
                        with core.time_limit(20):
                            watched.reader.Open(paths[label])
                    except (Exception, core.Hang) as e:  # pylint: disable=broad-except
                        raised = zoo.classify(e)
                if not watched.plan.fired:
                    watched.plan.live.clear()
                    break
                watched.plan.fault = None
                tally.add("executions")
                tally.add("evaluations", 3)
                if not raised:
                    watched.state = label
                    if not watched.plan.live:
                        tally.violate(name, f"{name}: open with failing read {number} succeeded but the file is closed", {"kind": name, "read": number})
                        return
                    problem = watched.step("close") or watched.step("close") or watched.finish()
                else:
                    problem = f"the reader is closed but holds {[os.path.basename(p) for p in watched.plan.live.values()]}" if watched.plan.live else None
                    problem = problem or watched.step("close") or watched.finish()
                if problem:
                    tally.violate(name, f"{name} debug={debug}: read {number} of open {label} fails ({raised}), then: {problem}", {"kind": name, "read": number, "debug": debug})
                    return
                tally.seen((name, debug, label, "read", number, raised))
        tally.sample({"kind": name, "operations": operations, "depth": depth, "rejects": {k: v[0] for k, v in expected.items()}})
    finally:
        core.cleanup(root)


def main(run):
    deep = 4 if run.thorough else 3
    tasks = [(name, debug, deep) for name in zoo.KINDS for debug in (False, True)]
    tasks.sort(key=lambda t: t[0] not in ("tracev3", "spotlight", "chrome_block", "keychain"))
    run.explore(explore, tasks)
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"readers": len(zoo.KINDS), "operations": "open of 2 well-formed, 3 malformed and 1 missing file; close", "depth": deep,
                  "faults": "every single read of the open of 2 files fails"}
    run.rule = "every word over the operations up to the depth; model: closed or open(file); after every step the error, the state and the held files are compared"
    run.assumptions = ["files are opened through the native file system helper; a handle counts as released when it is closed explicitly"]
