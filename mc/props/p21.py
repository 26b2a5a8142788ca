"""P21: debug definitions: accepted exactly when valid, yielded exactly, and applied as declared."""
import importlib
import itertools
import os
import pkgutil
import uuid

import yaml

from mc import core, text
import dtformats
from dtformats import data_format, errors, yaml_definitions_file

FORMATS = ["binary_data", "decimal", "floating_point", "hexadecimal", "hexadecimal_2digits", "hexadecimal_4digits",
           "hexadecimal_8digits", "string", "uuid"]
ABSENT = "<absent>"


def valid_attribute(attribute):
    if not isinstance(attribute, dict):
        return False
    if any(not isinstance(attribute.get(k), str) or not attribute.get(k) for k in ("name", "description", "format")):
        return False
    return attribute["format"] in FORMATS or attribute["format"].startswith("custom:")


def valid(document):
    if not isinstance(document, dict) or set(document) - {"data_type_map", "attributes"}:
        return False
    if not isinstance(document.get("data_type_map"), str) or not document["data_type_map"]:
        return False
    attributes = document.get("attributes")
    if not isinstance(attributes, list) or not attributes or not all(valid_attribute(a) for a in attributes):
        return False
    return len({a["name"] for a in attributes}) == len(attributes)


def check(tally, content, documents, label):
    """documents None: the content is not YAML at all."""
    path = core.put(core.scratch(), "d.debug.yaml", content)
    definitions = []
    failure = None
    try:
        for definition in yaml_definitions_file.YAMLDebugDefinitionsFile().ReadFromFile(path):
            definitions.append(definition)
    except Exception as e:  # pylint: disable=broad-except
        failure = e
    tally.add("executions")
    tally.add("evaluations")
    tally.add("transitions", len(documents or ()) + 1)
    tally.seen(content)
    case = {"label": label, "content": content}
    good = documents is not None and all(valid(d) for d in documents)
    if not good:
        if failure is None:
            tally.violate("accepted-invalid", f"{label}: accepted", case)
        elif not isinstance(failure, errors.ParseError):
            tally.violate("error-kind", f"{label}: {type(failure).__name__}: {failure}", case)
        return
    if failure is not None:
        tally.violate("rejected-valid", f"{label}: {type(failure).__name__}: {failure}", case)
        return
    got = [(d.data_type_map, [(k, a.name, a.description, a.format) for k, a in d.attributes.items()]) for d in definitions]
    want = [(d["data_type_map"], [(a["name"], a["name"], a["description"], a["format"]) for a in d["attributes"]]) for d in documents]
    if got != want:
        tally.violate("content", f"{label}: {text.first_difference(got, want)}", case)


def dump(documents):
    return yaml.safe_dump_all(documents, sort_keys=False, allow_unicode=True).encode("utf-8")


def mapping(**values):
    return {k: v for k, v in values.items() if v != ABSENT}


def attributes(tally, name):
    for description in (ABSENT, None, "", "D", 7, ["D"], "\u00e9 : #", True):
        for fmt in [ABSENT, None, "", 3, ["decimal"], "custom:x", "custom", "bogus", "Decimal", "decimal ", "hexadecimal_16digits"] + FORMATS:
            attribute = mapping(name=name, description=description, format=fmt)
            other = {"name": "z", "description": "Z", "format": "decimal"}
            for before, after in ((0, 0), (1, 0), (0, 1)):
                document = {"data_type_map": "t", "attributes": [other] * before + [attribute] + [other] * after}
                check(tally, dump([document]), [document], f"attribute {attribute!r} before={before} after={after}")


def shapes(tally, data_type_map):
    good = {"name": "a", "description": "A", "format": "decimal"}
    second = {"name": "b", "description": "B", "format": "custom:x"}
    for value in (ABSENT, None, [], 5, "abc", {}, {"name": "a"}, [good], [good, second], [second, good], [good, good],
                  [good, second, good], [5], ["a"], [None], [[good]], [{}], [good, None], [good, 5]):
        for extra in ({}, {"bogus": 1}, {5: 1}, {"name": "x"}, {None: 1}):
            for order in (False, True):
                document = mapping(data_type_map=data_type_map, attributes=value)
                if order:
                    document = dict(reversed(list(document.items())))
                document.update(extra)
                check(tally, dump([document]), [document], f"document {document!r}")


PIECES = {"one": {"data_type_map": "t1", "attributes": [{"name": "a", "description": "A", "format": "uuid"}]},
          "two": {"data_type_map": "t2", "attributes": [{"name": "a", "description": "A", "format": "string"}, {"name": "b", "description": "B", "format": "custom:x"}]},
          "again": {"data_type_map": "t1", "attributes": [{"name": "b", "description": "B", "format": "decimal"}]},
          "empty": None, "list": [1], "text": "text", "number": 5, "key": {"data_type_map": "t", "attributes": [{"name": "a", "description": "A", "format": "uuid"}], "x": 1},
          "nothing": {}, "noname": {"data_type_map": "t", "attributes": [{"description": "A", "format": "uuid"}]}}


def streams(tally, first):
    for length in range(0, 4):
        for rest in itertools.product(PIECES, repeat=length):
            names = (first,) + rest
            documents = [PIECES[n] for n in names]
            check(tally, dump(documents), documents, f"stream {names}")


def raw(tally, _):
    head = b"# dtFormats debug specification.\n"
    body = b"data_type_map: t\nattributes:\n- name: a\n  description: \"A\"\n  format: decimal\n"
    document = [{"data_type_map": "t", "attributes": [{"name": "a", "description": "A", "format": "decimal"}]}]
    for content, documents in ((b"", []), (head, []), (head + b"---\n" + body, document), (body, document), (b"\xef\xbb\xbf" + body, document),
                               (body.replace(b"\n", b"\r\n"), document), (body + b"...\n", document), (body.rstrip(), document),
                               (body + b"---\n", document + [None]), (b"---\n" + body, document), (b"---\n---\n" + body, [None] + document),
                               (body + b"\xff\n", None), (body + b"  bad: [\n", None), (b"\tdata: 1\n", None), (b"a: b: c\n", None), (b"{", None),
                               (b"!!python/object:os.system x\n", None), (body + b"---\n{", None), (b"*alias\n", None), (b"\x00", None)):
        check(tally, content, documents, f"raw {content!r:.60}")
    for size in range(len(body)):
        content = body[:size]
        try:
            documents = list(yaml.safe_load_all(content.decode()))
        except yaml.YAMLError:
            documents = None
        check(tally, content, documents, f"first {size} bytes")
    for index in range(len(body)):
        for byte in (b"", b"\n", b":", b"-", b" ", b"\"", b"[", b"\xff"):
            content = body[:index] + byte + body[index + 1:]
            try:
                documents = list(yaml.safe_load_all(content.decode("utf-8")))
            except (yaml.YAMLError, UnicodeDecodeError):
                documents = None
            check(tally, content, documents, f"byte {index} replaced by {byte!r}")


# --- application of the definitions ---------------------------------------

class Values:
    def __init__(self, **values):
        self.__dict__.update(values)


SAMPLES = {"binary_data": (b"", b"A", bytes(16), bytes(range(40)), bytes(64)), "decimal": (0, -5, 1 << 40), "floating_point": (0.5, -3.0),
           "hexadecimal": (0, 255, 1 << 33), "hexadecimal_2digits": (0, 0xa, 0xfff), "hexadecimal_4digits": (0, 0xab, 0x12345),
           "hexadecimal_8digits": (0, 0xabc, 1 << 36), "string": ("", "text", "a\x00\x00", "caf\u00e9"), "uuid": (uuid.UUID(int=5),),
           "custom:named": (1, 2), "custom:other": (3,)}


def rendered(fmt, value):
    if fmt == "binary_data":
        return value
    if fmt.startswith("hexadecimal"):
        width = int(fmt[12]) if fmt[12:] else 1
        return "0x" + f"{value:x}".rjust(width, "0")
    if fmt == "floating_point":
        return "%.6f" % value
    if fmt == "string":
        return value.rstrip("\x00")
    if fmt == "custom:named":
        return f"<{value}>"
    if fmt == "custom:other":
        return f"[{value}]"
    return str(value)


def applied(tally, fmts):
    """Documents over every sequence of formats, applied to objects with every subset of the attributes set."""
    root = core.fresh_dir()
    document = {"data_type_map": "t", "attributes": [{"name": f"a{i}", "description": f"Field {i}", "format": f} for i, f in enumerate(fmts)]}
    core.put(root, "x.debug.yaml", dump([document, {"data_type_map": "u", "attributes": [{"name": "a0", "description": "Other", "format": "decimal"}]}]))

    class Reader(data_format.BinaryDataFormat):
        _DEFINITION_FILES_PATH = root

        def _Named(self, value):
            return f"<{value}>", False

        def _Other(self, value):
            return f"[{value}]"
    information = Reader.ReadDebugInformationFile("x.debug.yaml", custom_format_callbacks={"named": "_Named", "other": "_Other"})
    if set(information) != {"t", "u"} or not hasattr(Reader, "_DebugPrintStructureObject"):
        tally.violate("application", f"definitions of {sorted(information)}", {"formats": fmts})
        return
    choices = [(None,) + SAMPLES[f] for f in fmts]
    for values in itertools.product(*choices):
        writer = core.Writer()
        reader = Reader(debug=True, output_writer=writer)
        obj = Values(**{f"a{i}": v for i, v in enumerate(values) if v is not None or i % 2})
        try:
            reader._DebugPrintStructureObject(obj, information["t"])
            got = text.pairs(writer.text)
        except Exception as e:  # pylint: disable=broad-except
            got = f"{type(e).__name__}: {e}"
        want = [(f"Field {i}", rendered(f, v)) for i, (f, v) in enumerate(zip(fmts, values)) if v is not None]
        tally.add("executions")
        tally.add("evaluations")
        tally.add("transitions", len(fmts))
        tally.seen((fmts, values))
        if got != want:
            tally.violate("application", f"{fmts} {values!r}: shown {got!r:.400}, expected {want!r:.400}", {"formats": fmts, "values": repr(values), "text": writer.text[:2000]})
    core.cleanup(root)


# Attributes that are added to the structure while it is read.
COMPUTED = {"main_uuid", "dsc_uuid", "data", "private_string", "value_data", "uuids", "number_of_values", "value_size", "integer",
            "table_index", "padding", "data_file_offset", "number_of_characters", "category_name", "category_identifier", "number_of_entries"}


def shipped(tally, path):
    """Every shipped attribute names a member of its data type and a format some reader of that file implements."""
    base = path[:-len(".debug.yaml")]
    definitions = list(yaml_definitions_file.YAMLDebugDefinitionsFile().ReadFromFile(path))
    types = {}
    if os.path.exists(base + ".yaml"):
        with open(base + ".yaml", encoding="utf-8") as f:
            types = {d["name"]: d for d in yaml.safe_load_all(f) if d}
    for definition in definitions:
        kind = types.get(definition.data_type_map)
        if kind is None or kind.get("type") not in ("structure",):
            continue
        members = {m.get("name") or m.get("identifier") for m in kind.get("members", ())}
        for member in kind.get("members", ()):
            if member.get("type") == "union" or member.get("members"):
                members |= {m.get("name") for m in member.get("members", ())}
        for attribute in definition.attributes.values():
            tally.add("evaluations")
            tally.add("transitions")
            tally.seen((path, definition.data_type_map, attribute.name))
            if attribute.name not in members and attribute.name not in COMPUTED:
                tally.violate("shipped-member", f"{os.path.basename(path)}: {definition.data_type_map} has no member {attribute.name}", {"file": path})
    tally.add("executions")


def callbacks(tally, _):
    """Every attribute of a shipped definition has an implemented format in a reader class of its module."""
    for info in sorted(pkgutil.iter_modules(dtformats.__path__), key=lambda i: i.name):
        module = importlib.import_module("dtformats." + info.name)
        best = {}
        for cls in vars(module).values():
            if not (isinstance(cls, type) and issubclass(cls, data_format.BinaryDataFormat) and cls.__module__ == module.__name__):
                continue
            for name, entries in (getattr(cls, "_DEBUG_INFORMATION", None) or {}).items():
                for entry in entries:
                    known = bool(entry[2]) and hasattr(cls, entry[2])
                    best[(name, entry[0])] = best.get((name, entry[0]), False) or known
        for (name, attribute), known in best.items():
            tally.add("evaluations")
            tally.add("transitions")
            tally.seen((info.name, name, attribute))
            if not known:
                tally.violate("shipped-format", f"{info.name}: no reader implements the format of {name}.{attribute}", {"module": info.name})
        tally.add("executions")


def main(run):
    run.explore(attributes, [ABSENT, None, "", "a", "name with blank", 5, ["a"], "\u00e9", True])
    run.explore(shapes, [ABSENT, None, "", "t", 5, ["t"], True])
    run.explore(streams, list(PIECES))
    run.explore(raw, [0])
    names = list(SAMPLES)
    run.explore(applied, [(a,) for a in names] + list(itertools.product(names, repeat=2)) +
                (list(itertools.product(names, repeat=3)) if run.thorough else list(itertools.product(["binary_data", "decimal", "string", "custom:other"], repeat=3))))
    root = os.path.dirname(dtformats.__file__)
    run.explore(shipped, sorted(os.path.join(root, n) for n in os.listdir(root) if n.endswith(".debug.yaml")))
    run.explore(callbacks, [0])
    run.tally.n["states"] = len(run.tally.nontrivial)
    run.tally.sample({"formats": FORMATS})
    run.bounds = {"documents_per_file": 4, "attributes_per_document": 3, "shipped_definitions": "all"}
    run.rule = "every document over the key/value alphabet, every stream of up to 4 documents, every prefix and single-byte change of one file, every format sequence applied to every value subset; every shipped attribute"
    run.assumptions = ["keys of an attribute other than name, description and format are outside the space",
                       "members a reader adds to a structure while reading are taken from a list"]
