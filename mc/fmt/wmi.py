"""Reference encoder of WMI (CIM) repositories of version 2.1 and 2.2, from the format documentation."""
import hashlib
import struct

PAGE = 8192
NONE = 0xffffffff

# name: (number, size in an instance, format of the value)
TYPES = {"sint16": (2, 2, "<h"), "sint32": (3, 4, "<i"), "real32": (4, 4, "<f"), "real64": (5, 8, "<d"), "boolean": (0xb, 2, "<H"),
         "sint8": (0x10, 1, "<b"), "uint8": (0x11, 1, "<B"), "uint16": (0x12, 2, "<H"), "uint32": (0x13, 4, "<I"), "sint64": (0x14, 8, "<q"),
         "uint64": (0x15, 8, "<Q"), "string": (8, 4, None), "datetime": (0x65, 4, None), "ref": (0x66, 4, None), "string[]": (0x2008, 4, None)}
PREDEFINED = {"key": 1, "read": 3, "write": 4, "provider": 6, "dynamic": 7, "type": 10}


def u16(*v):
    return struct.pack(f"<{len(v)}H", *v)


def u32(*v):
    return struct.pack(f"<{len(v)}I", *v)


def digest(version, name):
    data = name.upper().encode("utf-16-le")
    return (hashlib.md5(data) if version == 1 else hashlib.sha256(data)).hexdigest().upper()


# ------------------------------------------------------------ mapping files

def mapping_part(version, sequence, entries, unknown=(), pages=None, counter=41):
    pages = len(entries) + 7 if pages is None else pages
    head = u32(0xabcd, sequence, pages) if version == 1 else u32(0xabcd, sequence, counter + 1, counter, pages)
    if version == 1:
        table = u32(*entries)
    else:
        table = b"".join(u32(e, 0x100 + i, 0x200 + i, 0x300 + i, 0x400 + i, 0x500 + i) for i, e in enumerate(entries))
    return head + u32(len(entries)) + table + u32(len(unknown), *unknown) + u32(0xdcba)


# ------------------------------------------------------------ index

def index_page(keys, sub_pages=None, number=0, kind=0xaccc, root=0, share=True):
    """keys: tuples of segments; sub_pages: len(keys)+1 mapped page numbers."""
    head = u32(kind, number, 0, root)
    if kind != 0xaccc:
        return head.ljust(PAGE, b"\0")
    sub_pages = list(sub_pages) if sub_pages else [0] * (len(keys) + 1)
    values, offsets, key_data, key_offsets = [], [], b"", []
    for key in keys:
        key_offsets.append(len(key_data) // 2)
        indexes = []
        for segment in key:
            if not share or segment not in values:
                values.append(segment)
                indexes.append(len(values) - 1)
            else:
                indexes.append(values.index(segment))
        key_data += u16(len(key), *indexes)
    blob = b""
    for value in values:
        offsets.append(len(blob))
        blob += value.encode("ascii") + b"\0"
    body = u32(len(keys), *range(50, 50 + len(keys)), *sub_pages) + u16(*key_offsets) + u16(len(key_data) // 2) + key_data
    body += u16(len(values), *offsets) + u16(len(blob)) + blob
    assert len(head + body) <= PAGE
    return (head + body).ljust(PAGE, b"\xaa")


# ------------------------------------------------------------ objects

class Objects:
    """The pages of an objects data file, addressed by mapped page number."""

    def __init__(self):
        self.pages = []

    def add(self, records, gap=0, tight=False):
        """Adds a page with (identifier, data) records, returns its mapped page number. Only the last may go beyond the page."""
        number = len(self.pages)
        offset = 16 * (len(records) + 1) + gap
        head, body = b"", b"\0" * 16 + b"\xbb" * gap
        for identifier, data in records:
            head += u32(identifier, offset, len(data), 0x12345678)
            body += data
            offset += len(data)
        blob = head + body
        for start in range(0, len(blob), PAGE):
            piece = blob[start:start + PAGE]
            self.pages.append(piece.ljust(PAGE, b"\xcc") if not tight else piece)
        return number

    def key(self, prefix, page, identifier, size):
        return f"{prefix}.{page}.{identifier}.{size}"


# ------------------------------------------------------------ strings, classes, instances

class Pool:
    def __init__(self, start=b""):
        self.data = start

    def string(self, text, flags=0):
        offset = len(self.data)
        self.data += bytes([flags]) + text.encode("cp1252") + b"\0"
        return offset

    def block(self, data):
        offset = len(self.data)
        self.data += data
        return offset


def qualifier(pool, name, kind, value, flavor=3):
    offset = 0x80000000 | PREDEFINED[name] if name in PREDEFINED else 0x80000000 | int(name[8:]) if name.startswith("UNKNOWN_") else pool.string(name)
    number, _, fmt = TYPES[kind]
    if kind == "string":
        data = u32(pool.string(value))
    elif kind == "boolean":
        data = u16(0xffff if value else 0)
    elif fmt:
        data = struct.pack(fmt, value)
    else:
        data = u32(0)
    return struct.pack("<IBI", offset, flavor, number) + data


class Property:
    def __init__(self, name, kind, offset, index=0, level=0, qualifiers=(), typed=True, cimtype=None):
        self.name, self.kind, self.offset, self.index, self.level = name, kind, offset, index, level
        self.qualifiers, self.typed, self.cimtype = list(qualifiers), typed, cimtype or kind.replace("[]", "")

    @property
    def all_qualifiers(self):
        return ([("type", "string", self.cimtype)] if self.typed else []) + self.qualifiers


class Class:
    def __init__(self, name, parent=None, properties=(), qualifiers=()):
        self.name, self.parent, self.properties, self.qualifiers = name, parent, list(properties), list(qualifiers)

    def block(self, default=b""):
        pool = Pool()
        name = pool.string(self.name)
        qualifiers = b"".join(qualifier(pool, *q) for q in self.qualifiers)
        descriptors = b""
        for p in self.properties:
            name_offset = 0x80000000 | PREDEFINED[p.name] if p.name in PREDEFINED else pool.string(p.name)
            made = b"".join(qualifier(pool, *q) for q in p.all_qualifiers)
            definition = struct.pack("<IHIII", TYPES[p.kind][0], p.index, p.offset, p.level, len(made) + 4) + made
            descriptors += u32(name_offset, pool.block(definition))
        parent = b""
        if self.parent:
            parent = b"\0" + self.parent.encode("cp1252") + b"\0"
            parent += u32(len(parent) + 4)
        return (b"\0" + u32(name, len(default), len(parent) + 4) + parent + u32(len(qualifiers) + 4) + qualifiers
                + u32(len(self.properties)) + descriptors + default + u32(len(pool.data) | 0x80000000) + pool.data)

    def record(self):
        block, parent = self.block(), self.parent or ""
        return u32(len(parent)) + parent.encode("utf-16-le") + struct.pack("<Q", 0x01d0000000000000) + u32(len(block) + 4) + block + u32(4)


def properties_of(chain):
    """The properties an instance stores: those of the base class first."""
    found = {}
    for c in chain:
        for p in c.properties:
            if p.typed:
                found[p.name.lower()] = p
    return list(found.values())


def instance_block(chain, values, dynamic=None, unknown=0, qualifiers=b""):
    """chain: classes, base first; values: {name: value or None}."""
    pool = Pool()
    class_name = pool.string(chain[-1].name)
    properties = properties_of(chain)
    size = max((p.offset + TYPES[p.kind][1] for p in properties), default=0)
    data = bytearray(size)
    for p in properties:
        value, (_, width, fmt) = values.get(p.name), TYPES[p.kind]
        if p.kind == "boolean":
            packed = u16(0xffff if value else 0)
        elif fmt:
            packed = struct.pack(fmt, value)
        elif value is None:
            packed = u32(0)
        elif p.kind == "string[]":
            offsets = [pool.string(v) for v in value]
            packed = u32(pool.block(u32(len(offsets), *offsets)))
        else:
            packed = u32(pool.string(value))
        data[p.offset:p.offset + width] = packed
    head = u32(class_name) + b"\0" + b"\0" * ((len(properties) + 3) // 4) + bytes(data) + u32(len(qualifiers) + 4) + qualifiers
    if dynamic is None:
        head += b"\x01"
    else:
        head += b"\x02" + u32(len(dynamic)) + b"".join(u32(len(d) + 4) + d for d in dynamic)
    return head + u32(unknown) + pool.data


def instance_record(version, chain, block):
    return digest(version, chain[-1].name).encode("utf-16-le") + struct.pack("<QQ", 0x01d0000000000001, 0x01d0000000000002) + u32(len(block) + 4) + block


def registration_record(namespace, class_name, instance, key):
    return b"".join(u32(len(s)) + s.encode("utf-16-le") for s in (namespace, class_name, instance, key)) + b"\x01\x02\x03\x04\x05\x06\x07\x08"


# ------------------------------------------------------------ repositories

class Tree:
    """A tree of index pages: keys and, per gap, a sub tree or None."""

    def __init__(self, keys, subs=None):
        self.keys, self.subs = list(keys), list(subs) if subs else []

    def walk(self):
        yield from ("\\" + "\\".join(k) for k in self.keys)
        for sub in self.subs:
            if sub:
                yield from sub.walk()


def lay(tree, version, root=1, absent=0):
    """Returns the index pages by mapped page number."""
    pages = {}
    free = [n for n in range(1, 400) if n != root]

    def place(node, number):
        subs = []
        for sub in node.subs:
            if sub is None:
                subs.append(absent)
            else:
                mine = free.pop(0)
                subs.append(mine)
                place(sub, mine)
        subs += [absent] * (len(node.keys) + 1 - len(subs))
        pages[number] = index_page(node.keys, subs, number)

    place(tree, root)
    pages[0] = index_page([], number=0, kind=0xaddd, root=root if version == 1 else 0)
    return [pages.get(n, index_page([], number=n, kind=0xbadd)) for n in range(max(pages) + 1)]


def scatter(pages, order):
    """Lays mapped pages out in a file. order "same", "reverse", "holes". Returns the file, the mapping."""
    n = len(pages)
    places = {"same": list(range(n)), "reverse": list(range(n))[::-1], "holes": [2 * i + 1 for i in range(n)]}[order]
    blob = bytearray(b"\xdd" * PAGE * (max(places, default=-1) + 1))
    for place, page in zip(places, pages):
        blob[place * PAGE:place * PAGE + PAGE] = page.ljust(PAGE, b"\xcc")
    return bytes(blob), places


def repository(version, tree, objects, order="same", style=None, root=None, absent=0, names=str.upper, order2=None):
    """Returns {name: bytes}. style "split": index.map and objects.map; "joint": mapping1.map."""
    style = style or ("split" if version == 1 else "joint")
    root = root or (1 if version == 2 else 3)
    index, index_map = scatter(lay(tree, version, root, absent), order)
    data, data_map = scatter(objects.pages, order2 or order)
    files = {"index.btr": index, "objects.data": data}
    if style == "split":
        extra = mapping_part(version, 5, [9, 9]) if version == 2 else b""
        files["index.map"] = mapping_part(version, 5, index_map) + extra
        files["objects.map"] = mapping_part(version, 5, data_map) + extra
        if version == 2:
            files["index.map"] = mapping_part(version, 5, [9, 9]) + mapping_part(version, 5, index_map)
    else:
        files["mapping1.map"] = mapping_part(version, 7, data_map) + mapping_part(version, 7, index_map)
        files["mapping.ver"] = u32(1)
    return {names(k): v for k, v in files.items()}


# ------------------------------------------------------------ repository file (version 2.0)

FOOTER = b"\xfe" * 12


class Cells:
    """Node cells of a repository file. References are made first and filled in later."""

    def __init__(self, bin_sizes=(4096,), gaps=0):
        self.cells, self.gaps = [], gaps
        self.bin_sizes = bin_sizes

    def reserve(self):
        for _ in range(self.gaps):
            self.cells.append(b"\xee" * 8)
        self.cells.append(None)
        return len(self.cells) - 1

    def new(self, data):
        cell = self.reserve()
        self.cells[cell] = data
        return cell

    def file(self, system, root, flags=0x80000000, tail=b""):
        """data: bytes or a list of numbers, ("cell", n) references and bytes."""
        sizes = []
        for data in self.cells:
            size = len(data) if isinstance(data, bytes) else sum(len(d) if isinstance(d, bytes) else 4 for d in data)
            sizes.append(4 + size)
        offsets, position, filled, number = [], 40, [], 0
        bins = []
        limit = self.bin_sizes[0]
        start = 0
        for size in sizes:
            if position + size > limit:
                # The last cell of the bin reaches to its end.
                bins.append((start, limit))
                filled.append((len(offsets), limit - position))
                number += 1
                position = start = limit
                limit += max(self.bin_sizes[min(number, len(self.bin_sizes) - 1)], size + 4)
                position += 4
            offsets.append(position)
            position += size
        bins.append((start, limit))
        extra = dict((n - 1, e) for n, e in filled)
        blob = bytearray(limit)
        struct.pack_into("<10I", blob, 0, system, root, limit, 1, 2, position, 3, 4, 44, self.bin_sizes[0])
        for start, end in bins[1:]:
            struct.pack_into("<I", blob, start, end - start)
        for n, (offset, data) in enumerate(zip(offsets, self.cells)):
            if not isinstance(data, bytes):
                data = b"".join(d if isinstance(d, bytes) else u32(offsets[d[1]] + 4 if isinstance(d, tuple) else d) for d in data)
            size = sizes[n] + extra.get(n, 0)
            # A flag in the size of every other cell.
            blob[offset:offset + 4] = u32(size | (flags if n % 2 else 0))
            blob[offset + 4:offset + 4 + len(data)] = data
        return bytes(blob) + tail

    # The nodes. A reference is None, a cell number or a plain number in a 1-tuple.
    @staticmethod
    def ref(cell):
        return 0 if cell is None else ("cell", cell)

    def name(self, text):
        data = text.encode("utf-16-le") + b"\0\0"
        return self.new(data + b"\0" * (-len(data) % 4) + FOOTER)

    def class_root(self, c, root=None, instances=(), subs=(), kind=9, names=()):
        """The class definition root node of a class, its branch and leaf node.

        instances: instance branch cells, subs: class definition root cells.
        """
        block = c.block()
        leaf_data = u32(len(block) + 4) + block + u32(4)
        leaf = self.new(leaf_data + b"\0" * (-len(leaf_data) % 4) + FOOTER)
        branch, root = self.reserve(), self.reserve() if root is None else root
        self.cells[branch] = [0, ("cell", root), 1, ("cell", leaf), 0, FOOTER]
        listed = self.objects_list(list(instances)) if instances else None
        tree = self.objects_tree(list(subs)) if subs else None
        other = self.objects_tree([self.name(n) for n in names]) if names else None
        self.cells[root] = [0, ("cell", branch), 0, kind if subs else 1, self.ref(listed), self.ref(tree), 0, self.ref(other), FOOTER]
        return root

    def instance(self, class_root, block, kind=2):
        leaf = self.new(u32(len(block) + 4) + block + FOOTER)
        return self.new([0, self.ref(class_root), kind, ("cell", leaf), 0, FOOTER])

    def objects_tree(self, values):
        """A child objects tree: depth 0, 1 or 2."""
        if not values:
            return self.new([0, 0, 0, FOOTER])
        if len(values) == 1:
            return self.new([1, 1, ("cell", values[0]), FOOTER])
        leaf = self.new([("cell", v) for v in values] + [0] * (10 - len(values)) + [FOOTER])
        branch = self.new([len(values), 10, 5, ("cell", leaf), FOOTER])
        return self.new([2, len(values), ("cell", branch), FOOTER])

    def objects_list(self, values):
        elements = [self.reserve() for _ in values]
        for i, (element, value) in enumerate(zip(elements, values)):
            name = self.name(f"element{i}")
            before = ("cell", elements[i - 1]) if i else 0
            after = ("cell", elements[i + 1]) if i + 1 < len(elements) else 0
            self.cells[element] = [7, ("cell", name), ("cell", value), 0, 0, before, after, FOOTER]
        ends = [("cell", elements[0]), ("cell", elements[-1])] if elements else [0, 0]
        return self.new([0] + ends + [0, len(values), FOOTER])

    def instance_root(self, name=None, branch=None, children=(), classes=(), always_tree=False):
        """children: instance root cells."""
        tree = None
        if children or always_tree:
            values = [self.new([self.ref(self.name(f"child{i}")), ("cell", c), FOOTER]) for i, c in enumerate(children)]
            tree = self.objects_tree(values)
        listed = self.objects_list(list(classes)) if classes else None
        name = self.name(name) if name is not None else None
        unknown = self.new(u32(4 + 5) + b"\1\2\3\4\5" + FOOTER) if always_tree else None
        return self.new([self.ref(tree), self.ref(name), self.ref(branch), 1, self.ref(listed), 0, self.ref(unknown), FOOTER])
