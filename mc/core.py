"""Core of the bounded exhaustive checker: runs, evidence, findings, workers.

Everything here is deterministic. VERIF_SEED only rotates the order in which
cases are handed to the workers; the explored set never depends on it.
"""
import builtins
import collections
import io
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ["TZ"] = "UTC"
time.tzset()

import logging  # noqa: E402
logging.disable(logging.CRITICAL)

import warnings  # noqa: E402
warnings.simplefilter("ignore")


class Hang(BaseException):
    """Raised when a case exceeds its work budget (reads or wall time)."""


class Enough(BaseException):
    """Raised to end a task that found more than enough violations."""


# Keys of the known findings of the property that runs: these never end a task.
_known_keys = set()
# Cases of this process that ran into their wall time budget.
_hangs = 0


class Violation:
    __slots__ = ("key", "message", "case")

    def __init__(self, key, message, case):
        self.key = key
        self.message = message
        self.case = case


class Tally:
    """What one worker task covered."""

    def __init__(self):
        self.n = collections.Counter()
        self.violations = []
        self.samples = []
        self.nontrivial = set()
        self.keys = collections.Counter()

    def add(self, name, count=1):
        self.n[name] += count

    def sample(self, value):
        if len(self.samples) < 3:
            self.samples.append(value)

    def seen(self, signature):
        if len(self.nontrivial) < 200000:
            self.nontrivial.add(hash(signature) & 0xffffffffffff)

    def violate(self, key, message, case):
        self.add("violations")
        self.keys[key] += 1
        if self.keys[key] <= 5:
            self.violations.append(Violation(key, message, case))
        if key not in _known_keys and (self.keys[key] >= 200 or _hangs >= 4):
            raise Enough()

    def merge(self, other):
        self.n.update(other.n)
        self.violations.extend(other.violations)
        self.nontrivial |= other.nontrivial
        for s in other.samples:
            if len(self.samples) < 12:
                self.samples.append(s)


def load_known():
    """Known findings: (property, key) -> description, exact keys only."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.rstrip("\n")
                if not line.startswith("known: "):
                    continue
                head, _, text = line[7:].partition(" -- ")
                fields = _fields(head)
                known[(fields["property"], fields["key"])] = text
    return known


def _fields(head):
    prop, _, rest = head.partition(" ")
    return {"property": prop.split("=", 1)[1], "key": rest.split("=", 1)[1]}


# ---------------------------------------------------------------------------
# Workers

_scratch = None


def scratch():
    """Scratch directory of this process (removed when the run ends)."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        base = os.environ.get("VERIF_SCRATCH_BASE") or tempfile.gettempdir()
        _scratch = (os.getpid(), tempfile.mkdtemp(prefix="w", dir=base))
    return _scratch[1]


def _alarm(signum, frame):
    global _hangs
    _hangs += 1
    raise Hang("wall time budget exceeded")


def _worker_init(memory):
    signal.signal(signal.SIGALRM, _alarm)
    if memory:
        resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
    sys.setrecursionlimit(3000)


class time_limit:
    """Wall time backstop around code that may not touch files at all."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        # A case that did not end is a violation already: no need to wait as long for the next ones.
        signal.setitimer(signal.ITIMER_REAL, self.seconds if not _hangs else min(self.seconds, 3))

    def __exit__(self, *args):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


_task_function = None


def _call(argument):
    global _hangs
    _hangs = 0
    tally = Tally()
    try:
        _task_function(tally, argument)
    except Enough:
        signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang as e:
        tally.violate("harness-hang", f"task {argument!r:.200s}: {e}", {"task": repr(argument)[:500]})
    except BaseException:
        tally.violations.append(Violation("HARNESS", traceback.format_exc(), {"task": repr(argument)[:500]}))
    return tally


def _call_all(arguments):
    tally = Tally()
    for argument in arguments:
        tally.merge(_call(argument))
    return tally


class Run:
    """One run of one property's check."""

    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.start = time.time()
        self.tally = Tally()
        self.bounds = {}
        self.rule = ""
        self.notes = []
        self.level = "model_checking"
        self.assumptions = []
        self._base = None
        self.stopped = False
        _known_keys.update(key for prop, key in load_known() if prop == pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def explore(self, function, arguments, processes=None, memory=5 << 30, chunksize=1):
        """Runs function(tally, argument) for every argument, all of them."""
        global _task_function
        arguments = list(arguments)
        if not arguments:
            return
        shift = self.seed % len(arguments)
        arguments = arguments[shift:] + arguments[:shift]
        processes = processes or min(8, os.cpu_count() or 1, len(arguments))
        _task_function = function
        if self.stopped:
            return
        context = multiprocessing.get_context("fork")
        chunks = [arguments[i:i + chunksize] for i in range(0, len(arguments), chunksize)]
        with context.Pool(processes, _worker_init, (memory,)) as pool:
            results = pool.imap_unordered(_call_all, chunks)
            for _ in chunks:
                waiting = time.time()
                while True:
                    try:
                        self.tally.merge(results.next(timeout=5))
                        break
                    except multiprocessing.TimeoutError:
                        # The verdict is known: a slow remainder cannot change it.
                        if time.time() - self.start > 240 and any(v.key not in _known_keys for v in self.tally.violations):
                            self.stopped = True
                        elif time.time() - waiting > (2400 if self.thorough else 420):
                            # Tasks take seconds, and their cases that may not end have a budget of their own.
                            self.tally.violate("no-progress", f"{function.__name__}: no task ended within {int(time.time() - waiting)} s", {"function": function.__name__})
                            self.stopped = True
                        if self.stopped:
                            pool.terminate()
                            return

    def finish(self):
        t = self.tally
        harness = [v for v in t.violations if v.key == "HARNESS"]
        if harness:
            # What the code reports has a shape that no conforming code gives it: never on the unchanged tree.
            sys.stderr.write(harness[0].message + "\n")
        known = load_known()
        by_key = collections.OrderedDict()
        for v in sorted(t.violations, key=lambda v: (v.key, str(v.message))):
            by_key.setdefault(v.key, v)
        fresh = [v for v in by_key.values() if (self.pid, v.key) not in known]
        hit = [v for v in by_key.values() if (self.pid, v.key) in known]
        evidence_dir = os.path.join(VERIF, "evidence")
        os.makedirs(evidence_dir, exist_ok=True)
        coverage = {
            "states": int(t.n.get("states", 0)),
            "transitions": int(t.n.get("transitions", 0)),
            "traces_validated_against_impl": int(t.n.get("executions", 0)),
            "evaluations": int(t.n.get("evaluations", 0)),
            "distinct_nontrivial": len(t.nontrivial),
            "exhaustive": not self.stopped,
            "bounds": self.bounds,
            "rule": self.rule,
            "counters": {k: int(v) for k, v in sorted(t.n.items())},
            "samples": t.samples[:12],
        }
        evidence = {
            "property": self.pid, "tier": self.tier, "seed": int(self.seed),
            "level": self.level, "coverage": coverage,
            "wall_s": round(time.time() - self.start, 3),
            "assumptions": self.assumptions,
            "violations": len(fresh),
            "violation_details": [{"key": v.key, "message": str(v.message)[:2000]} for v in fresh][:50],
            "known_findings": [v.key for v in hit],
        }
        with open(os.path.join(evidence_dir, f"{self.pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
            f.write("\n")
        for v in hit:
            print(f"KNOWN-FINDING: property={self.pid} {v.key}: {known[(self.pid, v.key)]}")
        print(f"{self.pid} {self.tier}: executions={t.n.get('executions', 0)} states={t.n.get('states', 0)} "
              f"transitions={t.n.get('transitions', 0)} evaluations={t.n.get('evaluations', 0)} "
              f"distinct={len(t.nontrivial)} wall={time.time() - self.start:.1f}s")
        if not t.n.get("executions"):
            sys.stderr.write("nothing was explored\n")
            return 2
        if not fresh:
            return 0
        replay_dir = os.path.join(evidence_dir, "replay")
        os.makedirs(replay_dir, exist_ok=True)
        for index, v in enumerate(fresh[:10]):
            path = os.path.join(replay_dir, f"{self.pid}-{index}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "key": v.key, "message": str(v.message),
                           "case": v.case, "replay": f"bin/check {self.pid} --replay {path}"},
                          f, indent=1, default=_jsonable)
                f.write("\n")
            print(f"  {v.key}: {str(v.message)[:600]}")
            print(f"VIOLATION property={self.pid} replay={path}")
        return 1


def _jsonable(value):
    if isinstance(value, (bytes, bytearray)):
        return {"hex": bytes(value).hex()}
    return str(value)


# ---------------------------------------------------------------------------
# Controlled files: every open() of a scratch file goes through here.

_real_open = builtins.open


class FilePlan:
    """Faults and accounting for the files opened under one directory."""

    def __init__(self, root, max_reads=None, fault=None):
        self.root = root
        self.max_reads = max_reads
        self.fault = fault          # (kind, k) for the k-th read of any file
        self.reads = 0
        self.bytes_read = 0
        self.opened = 0
        self.live = {}
        self.fired = False
        self.log = None
        self.written = []


class ControlledFile:
    """Wrapper around a real binary file object; counts, faults, limits."""

    def __init__(self, plan, path, raw):
        self._plan = plan
        self._raw = raw
        self.name = path
        plan.opened += 1
        plan.live[id(self)] = path

    # the io interface readers may use
    def read(self, size=-1):
        plan = self._plan
        plan.reads += 1
        if plan.max_reads is not None and plan.reads > plan.max_reads:
            raise Hang(f"more than {plan.max_reads} reads")
        index = plan.reads - 1
        fault = plan.fault
        if fault is not None and fault[1] == index:
            plan.fired = True
            kind = fault[0]
            if kind == "error":
                raise OSError(5, "injected I/O error")
            data = self._raw.read(size)
            if kind == "short":
                if data:
                    self._raw.seek(-1, os.SEEK_CUR)
                    data = data[:-1]
                else:
                    plan.fired = False
            elif kind == "half":
                if len(data) > 1:
                    keep = len(data) // 2
                    self._raw.seek(keep - len(data), os.SEEK_CUR)
                    data = data[:keep]
                else:
                    plan.fired = False
            elif kind == "empty":
                if data:
                    self._raw.seek(-len(data), os.SEEK_CUR)
                    data = b""
                else:
                    plan.fired = False
            plan.bytes_read += len(data)
            return data
        data = self._raw.read(size)
        plan.bytes_read += len(data)
        return data

    def readinto(self, buffer):
        data = self.read(len(buffer))
        buffer[:len(data)] = data
        return len(data)

    def readline(self, size=-1):
        self._plan.reads += 1
        return self._raw.readline(size)

    def seek(self, offset, whence=0):
        return self._raw.seek(offset, whence)

    def tell(self):
        return self._raw.tell()

    def seekable(self):
        return True

    def readable(self):
        return True

    def writable(self):
        return False

    def flush(self):
        pass

    def fileno(self):
        return self._raw.fileno()

    @property
    def closed(self):
        return self._raw.closed

    @property
    def mode(self):
        return "rb"

    def close(self):
        self._plan.live.pop(id(self), None)
        self._raw.close()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def __iter__(self):
        return iter(self._raw)


_active_plan = None


def _controlled_open(file, mode="r", *args, **kwargs):
    plan = _active_plan
    if plan is not None and isinstance(file, (str, os.PathLike)):
        path = "/" + os.path.abspath(os.fspath(file)).lstrip("/")
        if path.startswith(plan.root):
            if any(c in mode for c in "wax+"):
                plan.written.append(path)
                raise AssertionError(f"reader opened {path} for writing")
            if "b" in mode:
                return ControlledFile(plan, path, _real_open(file, mode, *args, **kwargs))
    return _real_open(file, mode, *args, **kwargs)


class controlled:
    """Context manager installing a FilePlan on open()."""

    def __init__(self, plan):
        self.plan = plan

    def __enter__(self):
        global _active_plan
        self._previous = _active_plan
        _active_plan = self.plan
        builtins.open = _controlled_open
        io.open = _controlled_open
        return self.plan

    def __exit__(self, *args):
        global _active_plan
        _active_plan = self._previous
        if self._previous is None:
            builtins.open = _real_open
            io.open = _real_open
        return False


class Writer:
    """Output writer that collects the text it receives."""

    def __init__(self):
        self.parts = []

    def Open(self):
        return True

    def Close(self):
        pass

    def WriteText(self, text):
        self.parts.append(text)
        if len(self.parts) > 2000000:
            raise Hang("does not stop writing")

    @property
    def text(self):
        return "".join(self.parts)


def put(root, name, data):
    """Writes a scratch file, creating directories."""
    path = os.path.join(root, name)
    directory = os.path.dirname(path)
    if directory != root:
        os.makedirs(directory, exist_ok=True)
    with _real_open(path, "wb") as f:
        f.write(data)
    return path


def fresh_dir(tag="d"):
    return tempfile.mkdtemp(prefix=tag, dir=scratch())


def cleanup(path):
    shutil.rmtree(path, ignore_errors=True)


def isolated(function, *arguments):
    """The result of a call made in a process of its own: what it leaves behind is gone."""
    import pickle
    read_end, write_end = os.pipe()
    child = os.fork()
    if not child:
        status = 1
        try:
            os.close(read_end)
            data = pickle.dumps(function(*arguments))
            with os.fdopen(write_end, "wb") as f:
                f.write(data)
            status = 0
        except BaseException:  # pylint: disable=broad-except
            traceback.print_exc()
        finally:
            os._exit(status)
    os.close(write_end)
    with os.fdopen(read_end, "rb") as f:
        data = f.read()
    _, status = os.waitpid(child, 0)
    if status:
        raise RuntimeError("isolated call failed")
    return pickle.loads(data)
