"""P24: NSKeyedArchiver plists decode to the objects that were archived, every object graph of a bounded space."""
import base64
import importlib.util
import itertools
import json
import os
import plistlib
import subprocess
import sys
import uuid

from mc import core

COMPOSITES = ("BackgroundItemContainer", "BackgroundItems", "BackgroundLoginItem", "Bookmark", "BTMUserSettings", "ItemRecord", "Storage")
UUID = "01020304-0506-4708-890a-0b0c0d0e0fff"
# A node is ("value", v), ("data", bytes), ("list", class, nodes), ("map", class, ((key node, node), ...)), ("object", class, ((name, node), ...)),
# ("url", base, relative) or ("uuid", text); ("inline", v) is a value that is stored in the object itself rather than referred to.
LEAVES = [("value", v) for v in (None, True, False, 0, 1, -1, 2**40, 1.5, 0.0, "", "a", "\u00e9\U0001f600", "x" * 300)]
LEAVES += [("data", b""), ("data", b"\xfb\xff\x00"), ("data", bytes(range(64))), ("url", None, "file:///a"), ("url", "http://h", "p/q"), ("url", ("url", None, "b"), "c"),
           ("uuid", UUID), ("list", "NSArray", ()), ("list", "NSMutableSet", ()), ("map", "NSDictionary", ()), ("object", "Storage", ())]
LISTS = ("NSArray", "NSMutableArray", "NSSet", "NSMutableSet")
MAPS = ("NSDictionary", "NSMutableDictionary")


def script():
    path = os.path.join(core.REPO, "scripts", "decode_nskeyedarchiver_plist.py")
    spec = importlib.util.spec_from_file_location("decode_nskeyedarchiver_plist", path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


MODULE = None


def decoder():
    global MODULE
    MODULE = MODULE or script()
    return MODULE.NSKeyedArchiverDecoder()


def expected(node):
    kind = node[0]
    if kind in ("value", "inline"):
        return node[1]
    if kind == "data":
        return base64.b64encode(node[1]).decode().replace("+", "-").replace("/", "_")
    if kind == "list":
        return [expected(n) for n in node[2]]
    if kind == "map":
        return {expected(k): expected(v) for k, v in node[2]}
    if kind == "object":
        return {k: expected(v) for k, v in node[2]}
    if kind == "url":
        base = node[1] if node[1] is None or isinstance(node[1], str) else expected(node[1])
        return node[2] if base is None else base + "/" + node[2]
    return node[1]


class Archive:
    """Objects of an archive. order "before": an object comes before those it refers to; "after": the other way around."""

    def __init__(self, order, share, xml):
        self.objects, self.order, self.share, self.xml, self.known = ["$null"], order, share, xml, {}

    def uid(self, number):
        return {"CF$UID": number} if self.xml else plistlib.UID(number)

    def add(self, value):
        self.objects.append(value)
        return len(self.objects) - 1

    def kind(self, name):
        if name not in self.known:
            self.known[name] = self.add({"$classname": name, "$classes": [name, "NSObject"]})
        return self.uid(self.known[name])

    def refer(self, node):
        """Returns what is stored where the node is used."""
        if node[0] == "inline":
            return node[1]
        if node == ("value", None):
            return self.uid(0)
        key = ("node", repr(node))
        if self.share and key in self.known:
            return self.uid(self.known[key])
        if node[0] in ("value", "data"):
            number = self.add(node[1])
        elif self.order == "before":
            number = self.add(None)
            self.objects[number] = self.body(node)
        else:
            body = self.body(node)
            number = self.add(body)
        self.known[key] = number
        return self.uid(number)

    def body(self, node):
        kind = node[0]
        if kind == "list":
            body = {"NS.objects": [self.refer(n) for n in node[2]], "$class": self.kind(node[1])}
        elif kind == "map":
            body = {"NS.keys": [self.refer(k) for k, _ in node[2]], "NS.objects": [self.refer(v) for _, v in node[2]], "$class": self.kind(node[1])}
        elif kind == "object":
            body = {k: self.refer(v) for k, v in node[2]}
            body["$class"] = self.kind(node[1])
        elif kind == "url":
            base = ("value", node[1]) if node[1] is None or isinstance(node[1], str) else node[1]
            body = {"NS.base": self.refer(base), "NS.relative": self.refer(("value", node[2])), "$class": self.kind("NSURL")}
        else:
            body = {"NS.uuidbytes": uuid.UUID(node[1]).bytes, "$class": self.kind("NSUUID")}
        return body

    def dump(self, top, **more):
        plist = {"$archiver": "NSKeyedArchiver", "$version": 100000, "$top": top, "$objects": self.objects, **more}
        return plistlib.dumps(plist, fmt=plistlib.FMT_XML if self.xml else plistlib.FMT_BINARY)


def same(one, two):
    """Equal, with True and 1 and 1.0 being different."""
    if type(one) is not type(two):
        return False
    if isinstance(one, list):
        return len(one) == len(two) and all(map(same, one, two))
    if isinstance(one, dict):
        return sorted(map(repr, one)) == sorted(map(repr, two)) and all(same(v, two[k]) for k, v in one.items())
    return one == two


def decode(blob):
    path = core.put(core.scratch(), "a.plist", blob)
    try:
        with core.time_limit(20):
            return "value", decoder().DecodePlistFile(path)
    except core.Hang:
        return "error", "did not terminate"
    except Exception as e:  # pylint: disable=broad-except
        return "error", e


def graph(tally, label, tops, modes=None):
    for order, share, xml in modes or itertools.product(("before", "after"), (False, True), (False, True)):
        archive = Archive(order, share, xml)
        blob = archive.dump({k: archive.refer(v) for k, v in tops.items()})
        status, got = decode(blob)
        want = {k: expected(v) for k, v in tops.items()}
        tally.add("executions")
        tally.add("evaluations")
        tally.add("transitions", len(archive.objects))
        tally.seen((order, share, xml, repr(tops)))
        if status == "error" or not same(got, want):
            got = f"{type(got).__name__}: {got}" if status == "error" else repr(got)
            tally.violate("archive", f"{label} {order} share={share} xml={xml}: got {got:.300}, expected {want!r:.300}", {"file": blob[:3000]})


def wraps(node):
    """Every container with the node in it."""
    for name in LISTS:
        yield ("list", name, (node,))
    for name in MAPS:
        yield ("map", name, ((("value", "key"), node),))
    for name in COMPOSITES:
        yield ("object", name, (("field", node),))


def leaves(tally, index):
    leaf = LEAVES[index]
    graph(tally, "leaf", {"root": leaf})
    for outer in wraps(leaf):
        graph(tally, "in a container", {"root": outer})
        for outermost in wraps(outer):
            graph(tally, "in two containers", {"root": outermost}, [("before", True, False), ("after", False, True)])
    if leaf[0] == "value" and leaf[1] is not None:
        for name in COMPOSITES:
            graph(tally, "field of the object itself", {"root": ("object", name, (("field", ("inline", leaf[1])), ("other", ("value", "o"))))})
        graph(tally, "top", {"a": ("inline", leaf[1]), "b": leaf})
        if not isinstance(leaf[1], (bool, float)):
            for name in MAPS:
                graph(tally, "key", {"root": ("map", name, ((leaf, ("value", 7)),))})


def pairs(tally, index):
    """Two members: every pair of leaves in every container, and both as top level names."""
    one = LEAVES[index]
    for two in LEAVES:
        graph(tally, "top", {"one": one, "two": two}, [("before", True, False), ("after", True, True)])
        for name in LISTS:
            graph(tally, "pair", {"root": ("list", name, (one, two))}, [("before", True, False), ("after", False, True)])
        for name in MAPS:
            graph(tally, "pair", {"root": ("map", name, ((("value", "k1"), one), (("value", "k2"), two)))}, [("before", True, False), ("after", False, True)])
        for name in COMPOSITES[::3]:
            graph(tally, "pair", {"root": ("object", name, (("f1", one), ("f2", two)))}, [("before", True, False), ("after", False, True)])


def trees(nodes, depth):
    """All trees of lists, maps and objects with the number of leaves."""
    if nodes == 1:
        yield ("value", "leaf")
    if depth:
        for parts in range(1, min(nodes, 3) + 1):
            for sizes in itertools.product(range(1, nodes + 1), repeat=parts):
                if sum(sizes) == nodes:
                    for members in itertools.product(*[list(trees(s, depth - 1)) for s in sizes]):
                        yield ("list", "NSArray", members)
                        yield ("list", "NSSet", members)
                        yield ("map", "NSDictionary", tuple((("value", f"k{i}"), m) for i, m in enumerate(members)))
                        yield ("object", "Storage", tuple((f"f{i}", m) for i, m in enumerate(members)))


def number_leaves(node, counter):
    if node[0] == "value":
        return ("value", f"leaf {next(counter)}")
    if node[0] == "list":
        return node[:2] + (tuple(number_leaves(n, counter) for n in node[2]),)
    return node[:2] + (tuple((k, number_leaves(n, counter)) for k, n in node[2]),)


def shapes(tally, argument):
    nodes, depth, part, parts = argument
    for number, tree in enumerate(trees(nodes, depth)):
        if number % parts == part:
            graph(tally, "tree", {"root": number_leaves(tree, itertools.count())}, [("before", True, False), ("after", True, True)])
            graph(tally, "tree of equal leaves", {"root": tree}, [("after", True, False)])


def containers(tally, _):
    """Members that refer back to the container they are in, as those of a set do."""
    for xml, name, count, fields in itertools.product((False, True), ("NSSet", "NSMutableSet", "NSHashTable"), (1, 2, 3), (0, 1, 2)):
        if name == "NSHashTable" and count > 1:
            continue
        archive = Archive("before", False, xml)
        owner = archive.add(None)
        members = []
        for i in range(count):
            number = archive.add(None)
            archive.objects[number] = {"container": archive.uid(owner), "$class": archive.kind("BackgroundLoginItem"),
                                       **{f"f{j}": archive.refer(("value", f"v{i}{j}")) for j in range(fields)}}
            members.append(number)
        held = archive.add(None)
        if name == "NSHashTable":
            archive.objects[held] = {"$0": 1, "$1": archive.uid(members[0]), "$class": archive.kind(name)}
        else:
            archive.objects[held] = {"NS.objects": [archive.uid(m) for m in members], "$class": archive.kind(name)}
        archive.objects[owner] = {"items": archive.uid(held), "title": archive.refer(("value", "t")), "$class": archive.kind("BackgroundItemContainer")}
        want = [{f"f{j}": f"v{i}{j}" for j in range(fields)} for i in range(count)]
        want = {"root": {"items": want[0] if name == "NSHashTable" else want, "title": "t"}}
        status, got = decode(archive.dump({"root": archive.uid(owner)}))
        tally.add("executions")
        tally.add("evaluations")
        tally.add("transitions", len(archive.objects))
        tally.seen(("container", xml, name, count, fields))
        if status == "error" or not same(got, want):
            tally.violate("container", f"{name} of {count} with {fields} fields xml={xml}: got {got!r:.300}, expected {want!r:.300}", {"members": count})


def refused(tally, _):
    """What is not such an archive, or holds what is not supported, is refused with the error for it."""
    def case(label, change, top=None, **more):
        for xml in (False, True):
            archive = Archive("before", True, xml)
            number = archive.refer(("list", "NSArray", (("value", "a"),)))
            extra = change(archive) if change else None
            root = archive.uid(extra) if extra else number
            status, got = decode(archive.dump(top or {"root": root}, **more))
            tally.add("executions")
            tally.add("evaluations")
            tally.add("transitions")
            tally.seen(("refused", label, xml))
            if status != "error" or not isinstance(got, RuntimeError):
                tally.violate("refused", f"{label} xml={xml}: got {got!r:.300}, expected a RuntimeError", {"label": label})

    for archiver in ("", "NSArchiver", "NSKeyedArchiver2", "nskeyedarchiver", 1):
        case(f"archiver {archiver}", None, **{"$archiver": archiver})
    for version in (0, 1, 99999, 100001, 200000, -100000, "100000"):
        case(f"version {version}", None, **{"$version": version})
    for name in ("NSValue", "NSNumber", "X", "NSarray", "nsarray", "NSArray2", "NSMutable"):
        case(f"class {name}", lambda a, name=name: a.add({"NS.objects": [], "$class": a.kind(name)}))
    for name in LISTS:
        case(f"{name} without members", lambda a, name=name: a.add({"$class": a.kind(name)}))
    for name in MAPS:
        case(f"{name} without keys", lambda a, name=name: a.add({"NS.objects": [], "$class": a.kind(name)}))
        case(f"{name} without values", lambda a, name=name: a.add({"NS.keys": [], "$class": a.kind(name)}))
        for keys, values in itertools.product(range(3), repeat=2):
            if keys != values:
                case(f"{name} {keys} {values}", lambda a, name=name, keys=keys, values=values: a.add(
                    {"NS.keys": [a.refer(("value", f"k{i}")) for i in range(keys)], "NS.objects": [a.refer(("value", f"v{i}")) for i in range(values)], "$class": a.kind(name)}))
    for size in list(range(0, 16)) + [17, 32]:
        case(f"uuid of {size}", lambda a, size=size: a.add({"NS.uuidbytes": bytes(size), "$class": a.kind("NSUUID")}))
    case("uuid without data", lambda a: a.add({"$class": a.kind("NSUUID")}))
    case("url without base", lambda a: a.add({"NS.relative": a.refer(("value", "x")), "$class": a.kind("NSURL")}))
    case("url without relative", lambda a: a.add({"NS.base": a.uid(0), "$class": a.kind("NSURL")}))
    case("hash table", lambda a: a.add({"$0": 0, "$class": a.kind("NSHashTable")}))

    def cycle(a):
        number = a.add(None)
        a.objects[number] = {"NS.objects": [a.uid(number)], "$class": a.kind("NSArray")}
        return number
    case("cycle", cycle)


def program(tally, _):
    """The program itself: what it prints is the JSON of the decoded archive."""
    path = os.path.join(core.REPO, "scripts", "decode_nskeyedarchiver_plist.py")
    trees_ = [{"root": n} for n in LEAVES] + [{"a": ("list", "NSSet", tuple(LEAVES[:12])), "b": ("inline", 1)}]
    for tops in trees_:
        archive = Archive("before", True, False)
        blob = archive.dump({k: archive.refer(v) for k, v in tops.items()})
        source = core.put(core.scratch(), "p.plist", blob)
        result = subprocess.run([sys.executable, "-X", "utf8", path, source], capture_output=True, text=True, timeout=60, check=False)
        want = {k: expected(v) for k, v in tops.items()}
        try:
            got = json.loads(result.stdout)
        except ValueError:
            got = result.stderr[-300:]
        tally.add("executions")
        tally.add("evaluations")
        tally.add("transitions")
        tally.seen(("program", repr(tops)))
        if result.returncode or not same(got, want):
            tally.violate("program", f"exit {result.returncode}, printed {got!r:.300}, expected {want!r:.300}", {"file": blob[:3000]})


def main(run):
    run.explore(leaves, range(len(LEAVES)))
    run.explore(pairs, range(len(LEAVES)))
    sizes = [(1, 4), (2, 3), (3, 2)] + ([(2, 4), (3, 3), (4, 2)] if run.thorough else [])
    run.explore(shapes, [(n, d, p, 8) for n, d in sizes for p in range(8)])
    run.explore(containers, [0])
    run.explore(refused, [0])
    run.explore(program, [0])
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.tally.sample({"leaves": len(LEAVES), "containers": LISTS + MAPS + COMPOSITES})
    run.bounds = {"leaves": len(LEAVES), "nesting": 4, "members": 3, "layouts": "objects before or after those they refer to, equal objects shared or not, binary and XML"}
    run.rule = "every object graph of the bounded space is archived by an independent encoder and the decoded value compared to the graph, telling apart types"
    run.assumptions = ["map keys are strings or integers", "the relative part of a URL is appended to its base with one separator", "a hash table has one element"]
