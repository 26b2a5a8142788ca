"""P18: WMI repositories: keys, object records, classes, instances, namespaces."""
import itertools
import os
import struct

from mc import core, fidelity, text
from mc.fmt import wmi as ref
from dtformats import wmi_repository

ORDERS = ("same", "reverse", "holes")
EVERY = 3


def install(files, where="repo"):
    root = os.path.join(core.scratch(), where)
    os.makedirs(root, exist_ok=True)
    for name in os.listdir(root):
        os.unlink(os.path.join(root, name))
    for name, data in files.items():
        core.put(root, name, data)
    return root


def opened(path, debug=False):
    writer = core.Writer()
    repository = wmi_repository.CIMRepository(debug=debug, output_writer=writer)
    repository.Open(path)
    return repository, writer


def both(tally, key, label, files, use, expected, count=1, where="repo", path=None):
    """use(repository) has to return expected, with debug off and (of the quick check: every third time) on."""
    root = install(files, where)
    modes = (False, True) if EVERY == 1 or tally.n["executions"] % EVERY == 0 else (False,)

    def run():
        results = []
        for debug in modes:
            repository, writer = opened(os.path.join(root, path) if path else root, debug)
            results.append(use(repository))
            repository.Close()
            if not debug and writer.text:
                results.append("writes output although debug is off")
        return results

    fidelity.value_case(tally, key, label, run, [expected] * len(modes), b"".join(files.values())[:2000] + label.encode(), count)


# ------------------------------------------------------------ keys and records

def keys_of(repository):
    return list(repository.GetIndexKeys())


def key(n, segments=2):
    return tuple(f"{'NS CD CI IL R_'.split()[i % 5]}_{n * 7 + i:X}" for i in range(segments))


def trees():
    """All trees of up to 4 pages with 0-2 keys per page."""
    counter = itertools.count(1)

    def page(n):
        return [key(next(counter), 1 + i % 3) for i in range(n)]

    shapes = [(0, []), (1, []), (2, [])]
    leaves = [None] + [(n, []) for n in (0, 1, 2)]
    one = [(n, list(subs)) for n in (0, 1, 2) for subs in itertools.product(leaves, repeat=n + 1) if sum(s is not None for s in subs) <= 3]
    two = [(1, [s, t]) for s, t in itertools.product([None] + one[1::7], repeat=2)]

    def build(shape):
        if shape is None:
            return None
        return ref.Tree(page(shape[0]), [build(s) for s in shape[1]])

    return [build(s) for s in shapes + one + two]


def index(tally, argument):
    version, order, style, part = argument
    empty = ref.Objects()
    empty.add([])
    made = trees()
    for number, tree in enumerate(made):
        if number % 8 != part:
            continue
        expected = list(tree.walk())
        for absent in (0, ref.NONE):
            for root in ((1,) if version == 2 else (1, 4)):
                files = ref.repository(version, tree, empty, order, style, root, absent)
                label = f"index version={version} order={order} style={style} tree={number} absent={absent:#x} root={root}"
                both(tally, "index", label, files, keys_of, expected, len(expected) + 1)
                if number % 9 == 0:
                    both(tally, "index", label + " by index.btr", files, keys_of, expected, len(expected) + 1, path="INDEX.BTR")


def index_keys(tally, version):
    """Shapes of a single page: numbers of keys and segments, shared and separate values, long segments."""
    empty = ref.Objects()
    empty.add([])
    for n, m in itertools.product((1, 2, 3, 60, 120), (1, 2, 3, 7)):
        if n * m > 360:
            continue
        tree = ref.Tree([key(i, m) for i in range(n)])
        both(tally, "index", f"{n} keys of {m} segments version={version}", ref.repository(version, tree, empty), keys_of, list(tree.walk()), n)
    shared = [("NS_A", "CD_B"), ("NS_A", "CI_C", "I_D"), ("CD_B", "NS_A"), ("NS_A",), ("NS_A", "NS_A", "NS_A")]
    for combo in itertools.permutations(shared, 3):
        tree = ref.Tree(combo)
        both(tally, "index", f"shared segments {combo} version={version}", ref.repository(version, tree, empty), keys_of, list(tree.walk()), 3)
    for length in (1, 2, 127, 128, 255, 256, 300, 1000, 5000):
        tree = ref.Tree([("x" * length, "y"), ("y", "z" * length)] if length < 4000 else [("x" * length, "y")])
        both(tally, "index", f"segment of {length} version={version}", ref.repository(version, tree, empty), keys_of, list(tree.walk()), 2)


def payload(seed, size):
    return bytes((seed * 37 + i * 11 + (i >> 8)) & 0xff for i in range(size))


def records(tally, argument):
    version, order, sizes = argument
    style = None
    for gap, before in itertools.product((0, 5), (0, 1, 2)):
        objects = ref.Objects()
        objects.add([(77, b"other page")])
        stored, keys = [], []
        for number, size in enumerate(sizes):
            page_records = [(200 + i, payload(i + 90, 30 + i)) for i in range(before)] + [(4 + number, payload(number, size))]
            page = objects.add(page_records, gap)
            for identifier, data in page_records:
                name = objects.key(f"R_{number}", page, identifier, len(data))
                keys.append(("NS_1", name))
                stored.append(("R", data))
        tree = ref.Tree(keys)
        files = ref.repository(version, tree, objects, order, style, order2="reverse" if order == "same" else order)

        def use(repository):
            return [(r.data_type, bytes(r.data)) for r in (repository.GetObjectRecordByKey("\\" + "\\".join(k)) for k in keys)]
        both(tally, "record", f"records {sizes} version={version} order={order} gap={gap} before={before}", files, use, stored, len(stored))


# ------------------------------------------------------------ mapping files

def mapping_text(tally, version):
    """What a mapping file stores, as the debug text reports it."""
    fields = {"Signature", "Sequence number", "Number of pages", "Number of entries", "Page number", "Entry: 0 page number", "Entry: 1 page number",
              "Entry: 2 page number", "Unknown1", "Unknown2", "Unknown3", "Unknown4", "Unknown5"}

    def page(n):
        return "0xffffffff (unavailable)" if n == ref.NONE else str(n)

    def head(sequence, pages):
        out = [("Signature", "0x0000abcd"), ("Sequence number", str(sequence))]
        if version == 2:
            out += [("Unknown1", f"0x{42:08x}"), ("Unknown2", f"0x{41:08x}")]
        return out + [("Number of pages", str(pages))]

    def body(entries, unknown):
        out = [("Number of entries", str(len(entries)))]
        for i, e in enumerate(entries):
            out.append(("Page number", page(e)))
            if version == 2:
                out += [(f"Unknown{j}", f"0x{0x100 * j + i:08x}") for j in range(1, 6)]
        out.append(("Number of entries", str(len(unknown))))
        out += [(f"Entry: {i} page number", page(e)) for i, e in enumerate(unknown)]
        return out + [("Signature", "0x0000dcba")]

    numbers = (0, 1, 255, 256, 65536, 0x7fffffff, 0x80000000, ref.NONE)
    choices = [()] + [(n,) for n in numbers] + list(itertools.permutations(numbers, 2))[::3] + [(5, 0, 9)]
    for entries, unknown in itertools.product(choices, [(), (3,), (ref.NONE, 2, 1)]):
        for sequence in (0, 1, 0xffffffff):
            pages = len(entries) + 7
            blob = ref.mapping_part(version, sequence, entries, unknown)
            second = [] if version == 1 else head(sequence + 1 & ref.NONE, 9) + body((4, 2), ())
            if version == 2:
                blob += ref.mapping_part(version, sequence + 1 & ref.NONE, (4, 2))
            # The header is read once more to determine the version, then as version 2.
            expected = head(sequence, pages) + body(entries, unknown) + second
            path = core.put(core.scratch(), "m.map", blob)

            def run():
                writer = core.Writer()
                reader = wmi_repository.MappingFile(debug=True, output_writer=writer)
                reader.Open(path)
                tables = reader.GetObjectsMappingTable(), reader.GetIndexMappingTable()
                used = entries if version == 1 else (4, 2)
                resolved = ([tables[0].ResolveMappedPageNumber(i) for i in range(len(entries))], [tables[1].ResolveMappedPageNumber(i) for i in range(len(used))])
                got = [p for p in ((d.strip(), v) for d, v in text.pairs(writer.text)) if p[0] in fields][5:], reader.sequence_number, reader.format_version, resolved
                reader.Close()
                return got
            wanted = expected, sequence, version, (list(entries), list(entries if version == 1 else (4, 2)))
            fidelity.value_case(tally, "mapping", f"mapping version={version} {entries} {unknown} {sequence}", run, wanted, blob, len(expected))


def active(tally, version):
    """Which of the mapping files is used: that with the highest sequence number."""
    empty = ref.Objects()
    empty.add([])
    tree = ref.Tree([key(1), key(2)])
    base = ref.repository(version, tree, empty, "same", "joint")
    for present in (s for n in (1, 2, 3) for s in itertools.combinations((1, 2, 3), n)):
        for sequences in itertools.permutations((1, 2, 900, 0x80000000), len(present)):
            winner = present[sequences.index(max(sequences))]
            for names in (str.upper, str.lower, str.title):
                files = {names(k): v for k, v in base.items() if "mapping" not in k.lower()}
                for number, sequence in zip(present, sequences):
                    # Every other mapping file maps the root page to a page that is not there.
                    good = number == winner
                    tables = [0], ([0, 1] if good else [0, 500])
                    files[names(f"mapping{number}.map")] = ref.mapping_part(version, sequence, tables[0]) + ref.mapping_part(version, sequence, tables[1])
                if len(present) == 2:
                    files[names("mapping.ver")] = ref.u32(winner)
                files = {k: v if k.lower() != "index.btr" else b"".join(ref.lay(tree, version, 1)) for k, v in files.items()}
                both(tally, "active", f"mapping files {present} sequence {sequences} {names.__name__} version={version}", files, keys_of, list(tree.walk()), 2)


def places(tally, version):
    """Repositories in directories with unusual names."""
    objects = ref.Objects()
    objects.add([(1, b"abc")])
    tree = ref.Tree([("NS_1", "R_1.0.1.3")])
    for where in ("plain", "with space", "repo[1]", "a*b", "what?", "[!x]", ".hidden", "\u00e9\u4e2d"):
        for names in (str.upper, str.lower, str.title):
            files = ref.repository(version, tree, objects, names=names)
            both(tally, "place", f"in {where!r} {names.__name__}", files, lambda r: (keys_of(r), bytes(r.GetObjectRecordByKey("\\NS_1\\R_1.0.1.3").data)),
                 (list(tree.walk()), b"abc"), 2, where=where)


# ------------------------------------------------------------ classes

NUMBERS = {k: struct.calcsize(f) for k, (_, _, f) in ref.TYPES.items() if f and k not in ("boolean", "real32", "real64")}


def values_for(kind):
    if kind == "boolean":
        return (True, False)
    if kind in ("real32", "real64"):
        return (0.0, 1.5, -2.25, 1024.0)
    if kind in NUMBERS:
        bits = NUMBERS[kind] * 8
        if kind.startswith("u"):
            return (0, 1, 0x7f, (1 << bits - 1) - 1, 1 << bits - 1, (1 << bits) - 1)
        return (0, 1, -1, (1 << bits - 1) - 1, -(1 << bits - 1), 5)
    if kind == "string[]":
        return (None, (), ("one",), ("", "b", "caf\u00e9"), ("x" * 300, "y"))
    return (None, "", "a", "caf\u00e9", "x" * 300, "C:\\Windows\\x.exe")


def describe(definition):
    return (definition.name, definition.super_class_name, list(definition.qualifiers.items()),
            [(n, p.name, p.index, p.value_data_offset, p.value_data_type, list(p.qualifiers.items())) for n, p in definition.properties.items()])


def wanted(c):
    def plain(qualifiers):
        return list({n.lower(): v for n, _, v in qualifiers}.items())
    return (c.name, c.parent, plain(c.qualifiers),
            [(p.name, p.name, p.index, p.offset, ref.TYPES[p.kind][0], plain(p.all_qualifiers)) for p in c.properties])


def class_case(tally, label, c, default=b""):
    block = c.block(default)

    def run():
        results = []
        for debug in (False, True):
            definition = wmi_repository.ClassDefinition(debug=debug, output_writer=core.Writer())
            definition.ReadClassDefinitionBlock(block)
            results.append(describe(definition))
        return results
    fidelity.value_case(tally, "class", label, run, [wanted(c)] * 2, block, 4 + len(c.properties) + len(c.qualifiers))


def classes(tally, part):
    kinds = [k for k in ref.TYPES if k not in ("datetime", "ref", "string[]")]
    for kind in kinds[part::4]:
        for value in values_for(kind):
            if value is None:
                continue
            for name in ("key", "Abstract", "UNKNOWN_99", "Description"):
                class_case(tally, f"qualifier {name} {kind} {value!r}", ref.Class("C", None, [], [(name, kind, value)]))
                class_case(tally, f"property qualifier {name} {kind} {value!r}",
                           ref.Class("C", "B", [ref.Property("P", "uint32", 8, 1, 0, [(name, kind, value)])], [("dynamic", "boolean", True)]))
    for kind in list(ref.TYPES)[part::4]:
        for offset, number, level in itertools.product((0, 1, 255, 65536), (0, 1, 65535), (0, 3)):
            class_case(tally, f"property {kind} {offset} {number} {level}", ref.Class("Win32_Thing", "CIM_Thing", [ref.Property("P", kind, offset, number, level)]))
    some = [("provider", "string", "x"), ("dynamic", "boolean", True), ("Locale", "sint32", 1033), ("UUID", "string", "{0}"), ("max", "uint64", 1 << 63)]
    properties = [ref.Property("Name", "string", 0, 0, 0, [("key", "boolean", True)]), ref.Property("Count", "uint32", 4, 1), ref.Property("caf\u00e9", "string[]", 8, 2, 1),
                  ref.Property("type", "uint8", 12, 3), ref.Property("Untyped", "sint16", 13, 4, 1, [], False)]
    for n, m in list(itertools.product(range(4), range(4)))[part::4]:
        for qualifiers, props in itertools.product(itertools.permutations(some, n) if n < 3 else itertools.combinations(some, n),
                                                   itertools.permutations(properties, m) if m < 3 else itertools.combinations(properties, m)):
            class_case(tally, f"class {len(qualifiers)} {len(props)}", ref.Class("Name_x", "Parent" if n % 2 else None, props, qualifiers), b"\x01\x02" * m)


# ------------------------------------------------------------ instances

def seen_instance(instance):
    return (instance.class_name, list(instance.derivation), instance.super_class_name, sorted(instance.properties.items(), key=lambda x: x[0]))


def wanted_instance(chain, values):
    properties = {}
    for p in ref.properties_of(chain):
        value = values.get(p.name)
        properties[p.name] = list(value) if isinstance(value, tuple) else value
    names = [c.name for c in chain]
    return names[-1], names[-2::-1], names[-2] if len(names) > 1 else None, sorted(properties.items(), key=lambda x: x[0])


def build(version, chains, instances, order="same", style=None, dynamic=None, extra=(), spread=False, kind="IL", unknown=0):
    """instances: (chain number, values). Returns the files."""
    objects = ref.Objects()
    keys = []
    done = []
    made = []
    for chain in chains:
        for c in chain:
            if c.name not in done:
                done.append(c.name)
                made.append((("NS_" + "0" * 8,), "CD_" + ref.digest(version, c.name), c.record()))
    for number, (which, values) in enumerate(instances):
        chain = chains[which]
        block = ref.instance_block(chain, values, dynamic, unknown)
        name = ref.digest(version, chain[-1].name)
        made.append((("NS_" + "0" * 8, "CI_" + name), f"{kind}_{number:032X}", ref.instance_record(version, chain, block)))
    if spread:
        for number, (prefix, name, data) in enumerate(made):
            page = objects.add([(number + 1, data)])
            keys.append(prefix + (objects.key(name, page, number + 1, len(data)),))
    else:
        page = objects.add([(number + 1, data) for number, (_, _, data) in enumerate(made)])
        keys = [prefix + (objects.key(name, page, number + 1, len(data)),) for number, (prefix, name, data) in enumerate(made)]
    half = len(keys) // 2
    tree = ref.Tree(keys[:half], [None] * half + [ref.Tree(keys[half:])])
    files = ref.repository(version, tree, objects, order, style)
    files.update(extra)
    return files


def instance_case(tally, label, version, chains, instances, **options):
    files = build(version, chains, instances, **options)
    expected = [wanted_instance(chains[w], v) for w, v in instances]
    both(tally, "instance", f"{label} version={version}", files, lambda r: [seen_instance(i) for i in r.GetInstances()], expected, len(expected) + 1)


def instance_values(tally, argument):
    version, kind = argument
    for cimtype in {kind.replace("[]", ""), kind.replace("[]", "").upper(), "ref:CIM_X" if kind == "ref" else kind.replace("[]", "").title()}:
        c = ref.Class("Thing", None, [ref.Property("Value", kind, 0, 0, cimtype=cimtype)])
        for value in values_for(kind):
            instance_case(tally, f"{kind} {cimtype} {value!r}", version, [[c]], [(0, {"Value": value})])
    for other in ref.TYPES:
        # A second property behind the first, and in front of it.
        width, other_width = ref.TYPES[kind][1], ref.TYPES[other][1]
        for first in (True, False):
            a = ref.Property("A", kind, 0 if first else other_width, 0)
            b = ref.Property("B", other, width if first else 0, 1)
            for props in ([a, b], [b, a]):
                c = ref.Class("Pair", None, props)
                instance_case(tally, f"{kind} and {other} {first}", version, [[c]],
                              [(0, {"A": values_for(kind)[-1], "B": values_for(other)[1]}), (0, {"A": values_for(kind)[0], "B": values_for(other)[-1]})])


def instance_shapes(tally, argument):
    version, part = argument
    # Numbers of properties around the size of the state bits.
    for n in range(0, 10) if part == 0 else ():
        c = ref.Class("Many", None, [ref.Property(f"P{i}", "uint16", i * 2, i) for i in range(n)])
        instance_case(tally, f"{n} properties", version, [[c]], [(0, {f"P{i}": 1000 + i for i in range(n)})])
    # Inheritance, override with and without type.
    base = ref.Class("Base", None, [ref.Property("Name", "string", 0, 0), ref.Property("Id", "uint32", 4, 1)], [("abstract", "boolean", True)])
    middle = ref.Class("Middle", "Base", [ref.Property("More", "sint64", 8, 2, 1), ref.Property("Name", "string", 0, 0, 1, [("key", "boolean", True)], False)])
    leaf = ref.Class("Leaf", "Middle", [ref.Property("List", "string[]", 16, 3, 2), ref.Property("id", "uint32", 4, 1, 2)])
    other = ref.Class("Other", "base", [ref.Property("Flag", "boolean", 8, 2, 1)])
    chains = [[base], [base, middle], [base, middle, leaf], [base, other]]
    values = [{"Name": "n", "Id": 7}, {"Name": None, "Id": 8, "More": -9}, {"Name": "z", "id": 0xffffffff, "More": 1, "List": ("a", "b")},
              {"Name": "", "Id": 1, "Flag": True}]
    for n in (1, 2, 3):
        for which in itertools.permutations(range(4), n) if part == n else ():
            for order, spread in (("same", False), ("reverse", True), ("holes", True)):
                instance_case(tally, f"classes {which} {order}", version, chains, [(w, values[w]) for w in which], order=order, spread=spread,
                              kind="I" if spread else "IL")
    for dynamic in (None, [], [b""], [b"ab"], [b"1", b"22", b"333"]) if part == 0 else ():
        for unknown in (0, 1, 0xffffffff):
            instance_case(tally, f"dynamic {dynamic} {unknown}", version, chains, [(w, values[w]) for w in (2, 0)], dynamic=dynamic, unknown=unknown)
    # Records that go beyond a page.
    wide = ref.Class("Wide", None, [ref.Property("A", "string", 0, 0), ref.Property("B", "string[]", 4, 1)])
    for size in list(range(7900, 8010, 3)) + [8192, 16384, 20000] if part == 4 else ():
        instance_case(tally, f"long {size}", version, [[wide]], [(0, {"A": "q" * size, "B": ("r" * 50, "s")})], spread=True)
    # Names of classes are not case sensitive.
    for spelling in ("BASE", "base", "Base") if part == 0 else ():
        child = ref.Class("Child", spelling, [ref.Property("X", "uint8", 8, 2, 1)])
        instance_case(tally, f"super class as {spelling}", version, [[base, child]], [(0, {"Name": "m", "Id": 3, "X": 4})])


# ------------------------------------------------------------ namespaces

def namespaces(tally, argument):
    version, part = argument
    space = ref.Class("__NAMESPACE", None, [ref.Property("Name", "string", 0, 0)])
    depth = [("ROOT\\" + "\\".join("abcdefgh"[:i])).rstrip("\\") for i in range(8)]
    sets = [
        [("ROOT", "one")], [("ROOT", "one"), ("ROOT", "two")], [("__SystemClass", "ROOT")],
        [("ROOT", "new"), ("ROOT\\new", "sub"), ("ROOT\\new\\sub", "leaf")],
        [("ROOT\\CIMV2", "x"), ("ROOT\\CIMV2\\x", "y"), ("ROOT", "q")],
        [("ROOT\\unknown", "lost"), ("ROOT", "found")],
    ] + [[(depth[i], "abcdefgh"[i]) for i in range(n)] for n in (5, 6, 7)]
    for number, chosen in enumerate(sets):
        if number % 3 != part:
            continue
        orders = list(itertools.permutations(chosen)) if len(chosen) < 5 else [tuple(chosen), tuple(chosen[::-1]), tuple(chosen[1:] + chosen[:1])]
        for arranged in orders:
            objects, keys = ref.Objects(), []
            data = space.record()
            name = ref.digest(version, "__NAMESPACE")
            page = objects.add([(1, data)])
            keys.append(("NS_" + ref.digest(version, "__SystemClass"), objects.key("CD_" + name, page, 1, len(data))))
            known = {"ROOT", "ROOT\\CIMV2", "__SystemClass"}
            while True:
                more = {f"{p}\\{n}" for p, n in arranged if p in known} - known
                if not more:
                    break
                known |= more
            expected = sorted(f"{p}\\{n}" for p, n in arranged if p in known)
            for i, (parent, n) in enumerate(arranged):
                data = ref.instance_record(version, [space], ref.instance_block([space], {"Name": n}))
                page = objects.add([(i + 2, data)])
                key_name = objects.key(f"IL_{i:032X}", page, i + 2, len(data))
                keys.append(("NS_" + ref.digest(version, parent), "CI_" + name, key_name))
                # The same record is also listed under its own key.
                keys.append(("NS_" + ref.digest(version, parent), "KI_" + name, key_name))
            files = ref.repository(version, ref.Tree(keys), objects)

            def use(repository):
                first = sorted(i.namespace for i in repository.GetNamespaces())
                again = sorted(i.namespace for i in repository.GetNamespaces())
                return first if first == again else ("differs", first, again)
            both(tally, "namespace", f"namespaces {arranged} version={version}", files, use, expected, len(expected) + 1)


def registrations(tally, _):
    fields = ["Name space string", "Class name string", "Instance name string", "Index key string"]
    for values in itertools.product(("", "a", "ROOT\\cimv2", "caf\u00e9\u4e2d"), repeat=4):
        data = ref.registration_record(*values)

        def run():
            writer = core.Writer()
            wmi_repository.Registration(debug=True, output_writer=writer).ReadObjectRecord(data)
            return [p for p in text.pairs(writer.text) if p[0] in fields or p[0].endswith("string size")]
        expected = [x for f, v in zip(fields, values) for x in ((f + " size", str(len(v))), (f, v))]
        fidelity.value_case(tally, "registration", f"registration {values}", run, expected, data, 4)


# ------------------------------------------------------------ repository file

def shapes(n):
    """All ordered trees of n nodes as nested tuples."""
    if n == 1:
        return [()]
    made = []
    for sizes in compositions(n - 1):
        for parts in itertools.product(*(shapes(s) for s in sizes)):
            made.append(tuple(parts))
    return made


def compositions(n):
    if n == 0:
        return [()]
    return [(first,) + rest for first in range(1, n + 1) for rest in compositions(n - first)]


def cim_case(tally, label, shape, bins=(4096,), gaps=0, values=None, thing=None, missing=(), order=0):
    """A repository file whose root namespace instance has the given tree of children."""
    space = ref.Class("__NAMESPACE", None, [ref.Property("Name", "string", 0, 0)])
    thing = thing or ref.Class("Thing", None, [ref.Property("Name", "string", 0, 0), ref.Property("Id", "uint32", 4, 1), ref.Property("L", "string[]", 8, 2)])
    cells = ref.Cells(bins, gaps)
    if order:
        # The root node of the system classes in front of, or behind the others.
        cells.new(b"\x11" * 20)
    space_root, thing_root = cells.class_root(space), cells.class_root(thing)
    expected, spaces, counter = [], [], itertools.count()

    def place(node, parents):
        """Children get their cells before their parent: the order in the file differs from that of the tree."""
        number = next(counter)
        name = f"N{number}"
        here = parents + [name]
        at = len(expected)
        expected.append(None)
        spaces.append("\\".join(here))
        if values and number in values:
            chain, value, root = [thing], values[number], thing_root
        else:
            chain, value, root = [space], {"Name": name}, space_root
        children = [place(child, here) for child in node]
        branch = cells.instance(root, ref.instance_block(chain, value), 1 if number in missing else 2)
        if number not in missing:
            expected[at] = wanted_instance(chain, value)
        return cells.instance_root(name, branch, children, [space_root, thing_root] if number == 0 else [], number % 2)

    root = place(shape, [])
    blob = cells.file(space_root, root, tail=b"")
    files = {"CIM.REP": blob}
    both(tally, "repository file", label + " instances", files, lambda r: [seen_instance(i) for i in r.GetInstances()],
         [e for e in expected if e], len(expected) + 1, path="CIM.REP")
    if not values and not missing:
        both(tally, "repository file", label + " namespaces", files, lambda r: [i.namespace for i in r.GetNamespaces()], spaces, len(spaces) + 1, path="CIM.REP")


def cim(tally, argument):
    bins, gaps = argument
    for n in (1, 2, 3, 4, 5):
        for shape in shapes(n):
            cim_case(tally, f"tree {shape} bins={bins} gaps={gaps}", shape, bins, gaps, order=n % 2)
    for width in (6, 9, 10):
        cim_case(tally, f"{width} children bins={bins} gaps={gaps}", ((),) * width, bins, gaps)
    value = {"Name": "x", "Id": 77, "L": ("a", "bb")}
    for which in (0, 1, 2):
        for missing in ((), (0,), (1,), (2,)):
            cim_case(tally, f"instance {which} missing {missing} bins={bins} gaps={gaps}", ((), ((),)), bins, gaps, {which: value}, missing=missing)


def cim_classes(tally, argument):
    """Trees of class definitions with 0-2 instances each, read through the repository file reader."""
    bins, gaps = argument
    for n in (1, 2, 3, 4):
        for shape, kind in itertools.product(shapes(n), (9, 10)):
            cells = ref.Cells(bins, gaps)
            expected, counter = [], itertools.count()

            def place(node):
                number = next(counter)
                c = ref.Class(f"Class{number}", None, [ref.Property("Name", "string", 0, 0), ref.Property("Id", "uint16", 4, 1)])
                mine = []
                root = cells.reserve()
                for i in range((number + n) % 3):
                    value = {"Name": f"i{number}.{i}", "Id": number * 10 + i}
                    mine.append(cells.instance(root, ref.instance_block([c], value)))
                    expected.append(wanted_instance([c], value))
                subs = [place(child) for child in node]
                return cells.class_root(c, root, mine, subs, kind, ["a", "bc"][:number % 3])

            system = place(shape)
            space = ref.Class("__NAMESPACE", None, [ref.Property("Name", "string", 0, 0)])
            branch = cells.instance(cells.class_root(space), ref.instance_block([space], {"Name": "ROOT"}))
            blob = cells.file(system, cells.instance_root("ROOT", branch))
            path = core.put(core.scratch(), "cim.rep", blob)

            def run():
                results = []
                for debug in (False, True):
                    reader = wmi_repository.RepositoryFile(debug=debug, output_writer=core.Writer())
                    reader.Open(path)
                    results.append([seen_instance(i) for i in reader.ReadClassDefinitions()])
                    results.append([seen_instance(i) for i in reader.ReadInstances()])
                    reader.Close()
                return results
            fidelity.value_case(tally, "repository file", f"classes {shape} kind={kind} bins={bins} gaps={gaps}", run,
                                [expected, [wanted_instance([space], {"Name": "ROOT"})]] * 2, blob, len(expected) + 2)


def cim_values(tally, kind):
    c = ref.Class("Thing", None, [ref.Property("Other", "uint8", 0, 0), ref.Property("Value", kind, 1, 1)])
    for value in values_for(kind):
        cim_case(tally, f"repository file {kind} {value!r}", ((),), values={1: {"Value": value, "Other": 200}}, thing=c)


def main(run):
    global EVERY
    t = run.thorough
    EVERY = 1 if t else 3
    styles = [(v, o, s, p) for v in (1, 2) for o in ORDERS for s in ("split", "joint") for p in range(8)]
    run.explore(index, [s for s in styles if t or s[1] != "holes"])
    run.explore(index_keys, [1, 2])
    sizes = [1, 16, 8000, 8159, 8160, 8161, 8176, 8177, 8192, 16352, 16353, 16384, 24576 + 17]
    if t:
        sizes += list(range(8120, 8200)) + list(range(16300, 16400, 3))
    groups = [(s,) for s in sizes] + [(s, r) for s in (1, 8161, 16384) for r in (40, 8192)]
    run.explore(records, [(v, o, g) for v in (1, 2) for o in ORDERS for g in groups], chunksize=4)
    run.explore(mapping_text, [1, 2])
    run.explore(active, [1, 2])
    run.explore(places, [1, 2])
    run.explore(classes, range(4))
    run.explore(instance_values, [(v, k) for v in (1, 2) for k in ref.TYPES])
    run.explore(instance_shapes, [(v, p) for v in (1, 2) for p in (3, 4, 0, 2, 1)])
    run.explore(namespaces, [(v, p) for v in (1, 2) for p in range(3)])
    run.explore(registrations, [0])
    run.explore(cim, list(itertools.product([(4096,), (512,), (700, 800, 900, 1000)], (0, 1))))
    run.explore(cim_classes, list(itertools.product([(4096,), (512,), (700, 800, 900, 1000)], (0, 1))))
    run.explore(cim_values, list(ref.TYPES))
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.bounds = {"index": "all trees of up to 4 pages with 0-2 keys per page, both versions, 3 page orders, 2 mapping styles",
                  "records": "sizes around the page boundaries x position in the page", "instances": "every pair of property types, inheritance of up to 3 classes"}
    run.rule = "every repository of the bounded space; keys, records, classes, instances and namespaces compared to what the encoder stored"
