"""P03: interleaved iterations, look-ups and reads: every schedule of bounded consumers of the real readers.

A consumer is a script of steps (open, consume some items, close). All
interleavings of the steps of two or three consumers are executed; each consumer
has to see what it sees alone.
"""
import itertools
import os

from mc import core, zoo
from mc.fmt import cpio


def schedules(lengths):
    """Every interleaving of consumers with these numbers of steps, as a tuple of consumer numbers."""
    total = sum(lengths)

    def extend(prefix, left):
        if len(prefix) == total:
            yield tuple(prefix)
            return
        for i, n in enumerate(left):
            if n:
                left[i] -= 1
                prefix.append(i)
                yield from extend(prefix, left)
                prefix.pop()
                left[i] += 1
    yield from extend([], list(lengths))


def groups(count, limit):
    """Splits count items in at most limit steps; returns the sizes (the last step also asks for the end)."""
    steps = min(limit, count + 1)
    base, extra = divmod(count + 1, steps)
    return [base + (i < extra) for i in range(steps)]


class Consumer:
    """Takes items of an iteration of a reader, a step at a time."""

    def __init__(self, iterate, sizes):
        self.iterate, self.sizes = iterate, sizes
        self.position, self.iterator, self.items, self.error = 0, None, [], None

    def step(self):
        size = self.sizes[self.position]
        self.position += 1
        if self.error:
            return
        try:
            with core.time_limit(20):
                if self.iterator is None:
                    self.iterator = iter(self.iterate())
                for item in itertools.islice(self.iterator, size):
                    self.items.append(item)
        except (Exception, core.Hang) as e:  # pylint: disable=broad-except
            self.error = f"{zoo.classify(e)}: {e}"

    def result(self):
        return self.error, self.items


class Lifetime:
    """A reader of its own: open, consume, close."""

    def __init__(self, kind, path, sizes, debug):
        self.kind, self.path = kind, path
        self.writer = core.Writer()
        self.reader = kind.make(debug, self.writer)
        self.consumer = Consumer(lambda: kind.items(self.reader), sizes)
        self.count = len(sizes) + 2
        self.position, self.error = 0, None

    def step(self):
        self.position += 1
        if self.error:
            return
        try:
            with core.time_limit(20):
                if self.position == 1:
                    self.reader.Open(self.path)
                elif self.position == self.count:
                    self.reader.Close()
                else:
                    self.consumer.step()
        except (Exception, core.Hang) as e:  # pylint: disable=broad-except
            self.error = f"{zoo.classify(e)}: {e}"

    def result(self):
        return self.error, self.consumer.result(), self.writer.text


def compare(tally, name, label, make, lengths, alone):
    """Executes every schedule; make() returns the consumers and a function to end with."""
    for schedule in schedules(lengths):
        consumers, end = make()
        for number in schedule:
            consumers[number].step()
        got = [c.result() for c in consumers]
        end()
        tally.add("executions")
        tally.add("transitions", len(schedule))
        tally.add("evaluations", len(consumers))
        tally.seen((name, label, schedule))
        for number, (have, want) in enumerate(zip(got, alone)):
            if have != want:
                tally.violate(name, f"{name} {label}: schedule {schedule}: consumer {number} sees {have!r:.400}, alone {want!r:.400}",
                              {"kind": name, "label": label, "schedule": schedule, "consumer": number})
                return False
    return True


def run_alone(make, lengths):
    consumers, end = make()
    results = []
    for number, count in enumerate(lengths):
        for _ in range(count):
            consumers[number].step()
        results.append(consumers[number].result())
    end()
    return results


PARTS = 4


def explore(tally, argument):
    name, debug, thorough, part = argument
    kind = zoo.KINDS[name]
    root = core.fresh_dir("p03")
    try:
        paths = {}
        for label, files in kind.samples.items():
            paths[label] = kind.install(os.path.join(root, label), files)
        labels = list(paths)

        def count(path):
            return len(zoo.fresh(kind, path).items)
        counts = {label: core.isolated(count, path) for label, path in paths.items()}
        # Several readers, each with its own file or sharing one.
        for one, two in list(itertools.product(labels, repeat=2))[part::PARTS]:
            sizes = [groups(counts[label], 3 if not thorough else 4) if kind.values else [] for label in (one, two)]
            lengths = [len(s) + 2 for s in sizes]

            def make():
                return [Lifetime(kind, paths[label], s, debug) for label, s in zip((one, two), sizes)], lambda: None

            def single(index):
                lifetime = make()[0][index]
                for _ in range(lengths[index]):
                    lifetime.step()
                return lifetime.result()
            alone = [core.isolated(single, index) for index in range(2)]
            if not compare(tally, name, f"readers of {one} and {two} debug={debug}", make, lengths, alone):
                return
        if not kind.values:
            return
        # Several iterations of one open file.
        runs = ((2, 4), (3, 2)) if not thorough else ((2, 6), (3, 3))
        for number, label in enumerate(labels):
            for consumers, limit in runs[(part + number) % 2:][:1] if part < 2 else ():
                sizes = groups(counts[label], limit)

                def make():
                    reader = kind.make(debug, core.Writer())
                    reader.Open(paths[label])
                    return [Consumer(lambda: kind.items(reader), sizes) for _ in range(consumers)], reader.Close

                def single():
                    made, _ = make()
                    for _ in sizes:
                        made[0].step()
                    return made[0].result()
                alone = [core.isolated(single)] * consumers
                if not compare(tally, name, f"{consumers} iterations of {label} debug={debug}", make, [len(sizes)] * consumers, alone):
                    return
        tally.sample({"kind": name, "items": counts})
    finally:
        core.cleanup(root)


# Members of one archive, read a few bytes at a time.

MEMBERS = [("a", b"0123456789ab"), ("dir/b", b"ABCDEFGHI"), ("c", bytes(range(200, 213)))]


def members(tally, argument):
    fmt, chosen, script, debug = argument
    root = core.fresh_dir("p03")
    try:
        path = core.put(root, "a.cpio", cpio.encode(fmt, [cpio.Member(p, d, inode=i) for i, (p, d) in enumerate(MEMBERS)])[0])
        kind = zoo.KINDS["cpio"]

        def consume(entry, steps):
            for step in steps:
                if step == "begin":
                    entry.seek(0)
                    yield "begin"
                elif step == "rest":
                    yield entry.read()
                else:
                    yield entry.read(step)

        def make():
            reader = kind.make(debug, core.Writer())
            reader.Open(path)
            entries = list(reader.GetFileEntries())
            return [Consumer(lambda e=entries[i], s=s: consume(e, s), [1] * len(s)) for i, s in zip(chosen, script)], reader.Close

        expected = []
        for index, steps in zip(chosen, script):
            data, at, out = MEMBERS[index][1], 0, []
            for step in steps:
                if step == "begin":
                    at = 0
                    out.append("begin")
                else:
                    size = len(data) if step == "rest" else step
                    out.append(data[at:at + size])
                    at = min(len(data), at + size)
            expected.append((None, out))
        compare(tally, "cpio members", f"{fmt} {script} debug={debug}", make, [len(s) for s in script], expected)
    finally:
        core.cleanup(root)


def main(run):
    tasks = [(name, debug, run.thorough, part) for name in zoo.KINDS for debug in (False, True) for part in range(PARTS) if run.thorough or name not in zoo.ALIKE and not (debug and name in zoo.LOOSE)]
    tasks.sort(key=lambda t: t[0] not in ("cim_mapping1_map", "cim_file", "tracev3", "spotlight", "chrome_block", "keychain", "cpio", "dsc", "uuidtext"))
    run.explore(explore, tasks)
    words = [w for n in (1, 2, 3) for w in itertools.product((5, "begin", "rest"), repeat=n)]
    tasks = [(fmt, pair, (one, two), False) for fmt in ("newc", "bin-little-endian") for pair in ((0, 1), (1, 2)) for one in words for two in words]
    short = [w for w in words if len(w) == 2]
    tasks += [("odc", (0, 1, 2), script, True) for script in itertools.product(short, repeat=3)] if run.thorough else []
    run.explore(members, tasks, chunksize=64)
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"readers": len(zoo.KINDS), "consumers": "2 readers with files of their own; 2 and 3 iterations of one file; 2 members of an archive",
                  "steps": "6 for each of 3, 4 for each of 2" if run.thorough else "4 for each of 2 iterations, 2 for each of 3"}
    run.rule = "every interleaving of the steps of the consumers; each consumer's items, error and text equal those it gets alone in a new process"
    run.assumptions = ["consumers take turns in one thread"]
