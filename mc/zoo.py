"""Every file reader: how to make one, well-formed files for it, and everything a consumer can observe.

A kind has a name, a factory, sample files and a function that yields what the
public interface of an open reader reports. The debug text is observed besides.
"""
import os
import struct

from mc import core, text
from mc.fmt import apple, aul, browser, cpio, gzipf, leveldb as ldb, regf, spotlight, unixlogs, windows, wmi
from dtformats import (alias_data, amcache, asl, bookmark_data, bsm, chrome_cache, cpio as cpio_reader, cups_ipp, detection_history, errors, firefox_cache1,
                       fseventsd, gzipfile, indexeddb, job, jump_list, keychain, leveldb, recycle_bin, recycler, rp_change_log, rp_log,
                       safari_cookies, spotlight_storedb, systemd, tzif, unified_logging, usn_journal, utmp, wemf, wmi_repository)

KINDS = {}


class Kind:
    """A kind of reader. Samples are {path: bytes} with the file to open first."""

    def __init__(self, name, factory, samples, values=None, main="f.dat"):
        self.name, self.factory, self._samples, self.values, self.main = name, factory, samples, values, main
        self._cache = None
        KINDS[name] = self

    @property
    def samples(self):
        if self._cache is None:
            self._cache = {}
            for label, files in self._samples().items():
                self._cache[label] = files if isinstance(files, dict) else {self.main: files}
        return self._cache

    def make(self, debug=False, writer=None):
        return self.factory(debug=debug, output_writer=writer)

    def install(self, root, files):
        """Writes the files of a sample below root, returns the path to open."""
        path = None
        for name, data in files.items():
            full = os.path.join(root, name)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            core.put(root, name, data)
            path = path or full
        return path

    def items(self, reader):
        """Yields what an open reader reports."""
        if self.values:
            yield from self.values(reader)


class Outcome:
    """What a consumer saw: error (None, "ParseError", "OSError" or another), the stage, the items, the debug text."""

    def __init__(self):
        self.stage, self.error, self.message, self.items, self.text = "", None, "", [], ""

    @property
    def clean(self):
        return self.error in (None, "ParseError", "OSError")

    def key(self):
        return self.stage, self.error, tuple(self.items), self.text

    def __repr__(self):
        return f"{self.error or 'no error'} at {self.stage} {self.message[:200]}; {len(self.items)} items, {len(self.text)} characters of text"


def classify(exception):
    if isinstance(exception, errors.ParseError):
        return "ParseError"
    if isinstance(exception, OSError):
        return "OSError"
    return type(exception).__name__


def use(kind, reader, path, writer, seconds=20, close=True, take=None):
    """Opens, observes and closes. Hang, MemoryError and exceptions are part of the outcome."""
    outcome = Outcome()
    before = len(writer.parts) if writer else 0
    try:
        with core.time_limit(seconds):
            outcome.stage = "open"
            reader.Open(path)
            outcome.stage = "read"
            for item in kind.items(reader):
                outcome.items.append(item)
                if take is not None and len(outcome.items) >= take:
                    break
            outcome.stage = "done"
    except core.Hang as e:
        outcome.error, outcome.message = "Hang", str(e)
    except Exception as e:  # pylint: disable=broad-except
        outcome.error, outcome.message = classify(e), str(e)
    if outcome.stage != "open" and close:
        try:
            reader.Close()
        except Exception as e:  # pylint: disable=broad-except
            outcome.stage, outcome.error, outcome.message = "close", classify(e) + " on close", str(e)
    outcome.text = "".join(writer.parts[before:]) if writer else ""
    return outcome


def fresh(kind, path, debug=False, writer=True, **keywords):
    w = core.Writer() if writer else None
    return use(kind, kind.make(debug, w), path, w, **keywords)


def pairs(outcome):
    return text.pairs(outcome.text)


def table_bytes(table, *bases):
    return b"".join(table.pack(b) for b in bases)


# ------------------------------------------------------------ unix

def _utmp():
    return {"A": table_bytes(unixlogs.UTMP, unixlogs.UTMP.base(1)), "B": table_bytes(unixlogs.UTMP, unixlogs.UTMP.base(40), unixlogs.UTMP.base(90))}


def _utmpx():
    return {"A": table_bytes(unixlogs.UTMPX, unixlogs.utmpx_header(), unixlogs.UTMPX.base(1)),
            "B": table_bytes(unixlogs.UTMPX, unixlogs.utmpx_header(), unixlogs.UTMPX.base(40), unixlogs.UTMPX.base(90))}


def _asl():
    base = unixlogs.ASL_RECORD.base(1)
    plain = [b"host", b"sender", b"facility", b"a message"]
    return {"A": unixlogs.asl([(base, plain, [])])[0],
            "B": unixlogs.asl([(base, plain, [(b"Uuid", b"a longer value")]), (unixlogs.ASL_RECORD.base(9), [b"another host", b"s", b"f", b"message two"], [])])[0]}


def _bsm():
    headers, tokens = unixlogs.bsm_headers(), unixlogs.bsm_tokens()

    def head(name):
        base = headers[name][0].base(1, event=43190)
        if "net" in base:
            base["net"] = int(name.partition("/")[2] or 16)
        return headers[name], base

    def make(name):
        table, kind = tokens[name]
        base = table.base(1, token=kind)
        if "net" in base:
            base["net"] = int(name.partition("/")[2] or 16)
        return table.pack(base), []
    strings = unixlogs.bsm_strings(b"/usr/bin/x")
    one = unixlogs.bsm_record(*head("header32"), [make("seq")])[0]
    two = unixlogs.bsm_record(*head("header32_ex/4"), [make("subject32_ex/16"), make("return32"), strings["path"]])[0]
    return {"A": one, "B": two + one}


def _journal():
    def items(n, start):
        return [({**unixlogs.JOURNAL_DATA.base(start + i), "flags": i % 3}, b"FIELD%d=value" % (start + i)) for i in range(n)]
    entry = unixlogs.JOURNAL_ENTRY.base
    return {"A": unixlogs.journal([(entry(1), items(1, 1))], [1])[0],
            "B": unixlogs.journal([(entry(1), items(1, 1)), (entry(5), items(2, 3)), (entry(9), [])], [2, 1], header_size=240)[0]}


def _ipp():
    charset = unixlogs.ipp_attribute(0x47, b"attributes-charset", b"utf-8", "utf-8")
    header = {"major": 2, "minor": 0, "op": 5, "req": 1}
    return {"A": unixlogs.ipp([(1, [charset, unixlogs.ipp_integer(7)])], header)[0],
            "B": unixlogs.ipp([(1, [charset, unixlogs.ipp_attribute(0x44, b"k", b"one", "one"), unixlogs.ipp_attribute(0x44, b"", b"two", "two")]),
                               (2, [unixlogs.ipp_boolean(1), unixlogs.ipp_datetime((2020, 1, 2, 3, 4, 5, 6, b"+", 1, 30))])], header, b"trailing data")[0],
            "C": unixlogs.ipp([(1, [unixlogs.ipp_attribute(0x47, b"attributes-charset", b"iso-8859-1", "iso-8859-1"), unixlogs.ipp_attribute(0x41, b"t", b"\xe9t\xe9", "\u00e9t\u00e9")])], header)[0]}


def _fsevents():
    base = (b"Users/x", 0x0102030405060708, 0x11223344, 0x5152535455565758)
    return {"A": unixlogs.gz(unixlogs.dls_page(1, [base])[0]),
            "B": unixlogs.gz(unixlogs.dls_page(2, [base, (b"other/path", 1, 2, 3)])[0] + unixlogs.dls_page(1, [base])[0], 0)}


Kind("utmp", utmp.LinuxLibc6UtmpFile, _utmp)
Kind("utmpx", utmp.MacOSXUtmpxFile, _utmpx)
Kind("asl", asl.AppleSystemLogFile, _asl)
Kind("bsm", bsm.BSMEventAuditingFile, _bsm)
Kind("systemd", systemd.SystemdJournalFile, _journal)
Kind("cups_ipp", cups_ipp.CupsIppFile, _ipp)
Kind("fseventsd", fseventsd.FseventsFile, _fsevents)


# ------------------------------------------------------------ archives

def _cpio():
    one = cpio.Member("dir/file", b"0123456789")
    two = cpio.Member("b", b"", inode=8, mode=0o40755)
    three = cpio.Member("ccc", b"\0\xff" * 10, inode=9)
    return {fmt: cpio.encode(fmt, members)[0]
            for fmt, members in zip(("bin-big-endian", "bin-little-endian", "newc", "odc", "crc"), ([one], [one, two], [two, one, three], [three, one], [three]))}


def cpio_values(reader):
    yield reader.file_format
    yield reader.size
    entries = list(reader.GetFileEntries())
    for e in entries:
        yield (e.path, e.data_offset, e.data_size, e.group_identifier, e.inode_number, e.mode, e.modification_time, e.size, e.user_identifier)
    for e in entries:
        data = e.read()
        e.seek(0)
        yield e.path, data
    for e in entries:
        yield reader.FileEntryExistsByPath(e.path), reader.GetFileEntryByPath(e.path) is e
    yield reader.FileEntryExistsByPath("absent"), reader.GetFileEntryByPath("absent") is None


def _gzip():
    return {"A": gzipf.member(b"hello hello", flags=0)[0], "B": gzipf.member(b"one" * 30, flags=0x1c)[0] + gzipf.member(b"", flags=8, mode="fast")[0]}


Kind("cpio", cpio_reader.CPIOArchiveFile, _cpio, cpio_values)
Kind("gzip", gzipfile.GZipFile, _gzip)


# ------------------------------------------------------------ LevelDB

def _ldb_log():
    return {"A": ldb.log_file([ldb.batch(5, [(b"key", b"value")])])[0],
            "B": ldb.log_file([ldb.batch(5, [(b"key", b"value"), (b"d", None)]), ldb.batch(9, [(b"long" * 20, b"v" * 130)])], lambda i, _: [9, 30] if i else [])[0]}


def _ldb_descriptor():
    return {"A": ldb.log_file([ldb.edit([(1, "leveldb.BytewiseComparator"), (2, 300)])[0]])[0],
            "B": ldb.log_file([ldb.edit([(1, "c"), (9, 7), (3, 1 << 21)])[0], ldb.edit([(7, 2, 5, 1000, b"aaa", b"zzz"), (6, 1, 9), (5, 0, b"k")])[0]], lambda i, _: [4] if i else [])[0]}


def _ldb_table():
    group = [(k, 10 + i, i % 2, b"value%d" % i if i % 2 else b"") for i, k in enumerate((b"a", b"ab", b"abc", b"abd", b"b"))]
    return {"A": ldb.table([group[:2]]), "B": ldb.table([group[:2], group[2:4], group[4:]], interval=2, share=None, compressions=(0, 1)),
            "C": ldb.table([group], compressions=(2,), index_compression=1)}


def ldb_values(reader):
    for e in reader.ReadTableEntries():
        yield e.key, e.sequence_number, e.value_type, e.value


def _idb():
    widths = (1, 1, 1)
    group = [(ldb.idb_prefix(5, 6, 7, widths) + b"\x01x", 1, 1, b"v"), (ldb.idb_prefix(1, 2, 3, (1, 2, 4)) + b"ab", 2, 0, b""), (ldb.idb_prefix(0, 0, 0, widths) + b"\x32\x05", 3, 1, b"m")]
    return {"A": ldb.table([group[:1]]), "B": ldb.table([group[:2], group[2:]], compressions=(1,))}


def idb_values(reader):
    for e in reader.ReadEntries():
        yield tuple(e.key_segments), e.sequence_number, e.value_type, e.value


Kind("leveldb_log", leveldb.LevelDBDatabaseLogFile, _ldb_log)
Kind("leveldb_descriptor", leveldb.LevelDBDatabaseDescriptorFile, _ldb_descriptor)
Kind("leveldb_table", leveldb.LevelDBDatabaseTableFile, _ldb_table, ldb_values)
Kind("indexeddb", indexeddb.IndexedDBDatabaseTableFile, _idb, idb_values)


# ------------------------------------------------------------ browser caches

def _chrome_index():
    address = browser.address
    return {"A": browser.index_file([0, address(2, 1, 5)]), "B": browser.index_file([address(2, 1, 5), address(4, 3, 0xffff, 4), address(0, 0x123456)], version=(2, 1), tail=b"\1\2")}


def address_values(a):
    return a.value, a.block_number, a.block_offset, a.block_size, a.filename, a.is_initialized


def chrome_index_values(reader):
    yield reader.format_version, reader.creation_time
    for index, a in sorted(reader.index_table.items()):
        yield (index,) + address_values(a)


def _chrome_block():
    return {"A": browser.data_file({0: browser.entry(b"http://a/")}, 256), "B": browser.data_file({0: browser.entry(b"http://b/", next_=browser.address(2, 1, 2)), 2: browser.entry(b"c" * 100)}, 256)}


def chrome_block_values(reader):
    yield reader.format_version, reader.block_size, reader.number_of_entries
    for number in range(reader.number_of_entries + 1):
        if number != 1:
            e = reader.ReadCacheEntry(chrome_cache.CacheAddress(browser.address(2, 1, number)).block_offset)
            yield e.hash, e.key, e.creation_time, address_values(e.next), address_values(e.rankings_node)


def _ff_map():
    return {"A": browser.ff_map([(1, 2, 3, 4)])[0], "B": browser.ff_map([(1, 2, 3, 4), (0xffffffff, 0x80000000, 0x91234567, 0xb3000001)], dirty=1)[0]}


def _ff_block():
    one, two = browser.ff_entry("HTTP:http://a/", b"i\0n\0"), browser.ff_entry("HTTP:b", b"y" * 300)
    return {"A": browser.ff_block_file([one[0]], 256), "B": browser.ff_block_file([two[0], 1, one[0]], 256)}


Kind("chrome_index", chrome_cache.IndexFile, _chrome_index, chrome_index_values)
Kind("chrome_block", chrome_cache.DataBlockFile, _chrome_block, chrome_block_values, main="data_1")
Kind("firefox_map", firefox_cache1.CacheMapFile, _ff_map)
Kind("firefox_block", firefox_cache1.CacheBlockFile, _ff_block, main="_CACHE_001_")


# ------------------------------------------------------------ Apple

def _keychain():
    from mc.props.p14 import C
    generic = 0x80000000
    columns = [C(7, "num", apple.SINT32, 0), C(0x61626364, None, apple.BLOB, 2), C(9, "text", apple.STRING, 1)]
    return {"A": apple.keychain(apple.SCHEMA + [(generic, "GENERIC", columns[:1])], [], {generic: [[5]]})[0],
            "B": apple.keychain(apple.SCHEMA + [(0xb, "CERT", columns), (generic, "GENERIC", columns[:2])], [(generic, 1, 2, 3, 4)],
                                {0xb: [[-5, b"one", "two"], [None, b"three", None]], generic: [[1, b"x" * 9]]}, key=b"key data")[0]}


def keychain_values(reader):
    for t in reader.tables:
        yield t.relation_identifier, t.relation_name, tuple((c.attribute_data_type, c.attribute_identifier, c.attribute_name) for c in t.columns)
        for r in t.records:
            yield tuple(r.items())


def _safari():
    return {"A": apple.cookies([[apple.cookie()]])[0], "B": apple.cookies([[apple.cookie(url=b"a.b", flags=5), apple.cookie(value=None)], [apple.cookie(name=b"n2")]], gap=b"\0" * 4)[0]}


def _alias():
    from mc.props import p14
    samples = {}
    for version, table in ((2, p14.ALIAS2), (3, p14.ALIAS3)):
        base = table.base(1)
        if version == 3:
            base["created"] = base["time"] = 0x51000000 * 65536 + 123
        packed = table.pack(base) + (b"\0" * (142 - table.size) if version == 2 else b"")
        samples[str(version)] = apple.alias(version, (packed, []), [apple.alias_value(0, "odd"), apple.alias_value(0xe, "utf16"), apple.alias_value(1, [7, 8]), apple.alias_value(9, b"\x01\x02\x03")])[0]
    return samples


def _bookmark():
    flags = struct.pack("<3Q", 1, 2, 3)
    return {"A": apple.bookmark([(0x2000, 0x101, "volume", 4)])[0],
            "B": apple.bookmark([(0x1004, 0x601, [(0x101, "Users"), (0x101, "me")], 1), (0x1005, 0x601, [(0x304, 77), (0x303, 78)], 2), (0x1010, 0x201, flags, 5), (0x1040, 0x400, 1.5, 3)])[0]}


def _tzif():
    from mc.props import p14
    return {"A": apple.tzif(0, p14.tzif_body(4, [(5, 1), (7, 1)]))[0],
            "B": apple.tzif(0x32, p14.tzif_body(4, [(5, 0)]), p14.tzif_body(8, [(-1, 0), (2**40, 1)], types=2), b"UTC0")[0]}


def _spotlight():
    def make(types, records, values, lists, localized, how, **options):
        encoded = []
        for identifier, item, parent, updated, attributes in records:
            raw = [(index, spotlight.varint(value) if types[index][0] == 0xf else spotlight.attribute(types[index][0], types[index][1], value)[0]) for index, value in attributes]
            encoded.append(spotlight.record(identifier, item, parent, updated, raw))
        pages = [(how, b"".join(encoded))]
        files = spotlight.store(types, values, lists, localized, pages, **options)
        return {"store.db": files.pop("store.db"), **files}
    types = {1: (7, 0, "number"), 2: (0xb, 0, "string"), 3: (0xf, 0, "value"), 4: (0xf, 2, "list")}
    records = [(2, 1, 1, 1000, [(1, 5), (2, ["text"]), (3, 1)]), (9, 3, 1, 2000, [(4, 1)])]
    return {"plain": make(types, records, {1: "one", 2: "two"}, {1: [1, 2]}, {1: [1]}, "plain"),
            "zlib": make({**types, 1: (7, 0, "other")}, records[1:], {1: "uno"}, {1: [1]}, {1: [1]}, "zlib"),
            "streams": make(types, records, {1: "eins", 2: "zwei"}, {1: [1, 2]}, {1: [1]}, "lz4", streams=True)}


def spotlight_values(reader):
    yield reader.number_of_metadata_items
    for identifier in (2, 9, 77):
        item = reader.GetMetadataItemByIdentifier(identifier)
        yield item and (item.identifier, item.item_identifier, item.parent_identifier, item.last_update_time,
                        tuple((k, a.key, a.property_type, a.value_type, repr(a.value)) for k, a in item.attributes.items()))


Kind("keychain", keychain.KeychainDatabaseFile, _keychain, keychain_values)
Kind("safari_cookies", safari_cookies.BinaryCookiesFile, _safari)
Kind("alias_data", alias_data.MacOSLoginItemAliasData, _alias)
Kind("bookmark_data", bookmark_data.MacOSBackgroundItemBookmarkData, _bookmark)
Kind("tzif", tzif.TimeZoneInformationFile, _tzif)
Kind("spotlight", spotlight_storedb.SpotlightStoreDatabaseFile, _spotlight, spotlight_values)


# ------------------------------------------------------------ Windows

def _recycle_bin():
    return {"1": windows.recycle_bin(1, 77, 0x01d0000012345678, "C:\\x.txt"), "2": windows.recycle_bin(2, 5, 0x01d0000012345679, "D:\\y")}


def recycle_bin_values(r):
    yield r.format_version, r.original_file_size, r.deletion_time, r.original_filename


def _info2():
    def entry(start, name):
        return windows.INFO2_ENTRY.base(start, name=name.ljust(260, b"\0")), (name.decode(), b"")

    def make(size, *entries):
        return windows.info2(windows.INFO2_HEADER.base(1, size=size), list(entries))[0]
    one, two = entry(1, b"C:\\one"), entry(9, b"C:\\two")
    return {"A": make(280, one), "B": make(800, two, one), "C": make(280), "D": make(280, two, one)}


def _rp_log():
    return {"A": windows.rp_log(100, 1, 2, "description", b"", 0x01d0000012345678)[0], "B": windows.rp_log(102, 10, 7, "other", b"abcd", 0x01d0000012345679)[0]}


def _change_log():
    from mc.props import p15
    collected = []
    saved = p15.fidelity.text_case, p15.api
    p15.fidelity.text_case, p15.api = lambda tally, key, label, factory, blob, *args, **kwargs: collected.append(blob), lambda *args, **kwargs: None
    try:
        p15.do_change_log(core.Tally(), ("sequence", 2))
    finally:
        p15.fidelity.text_case, p15.api = saved
    collected.sort(key=len)
    return {"A": collected[0], "B": collected[len(collected) // 2], "C": collected[-1]}


def change_log_values(r):
    yield r.volume_path
    for e in r.entries:
        yield e.entry_type, e.entry_flags, e.file_attribute_flags, e.sequence_number, e.process_name


def _usn():
    def values(start):
        return (start * 0x0101010101010101, start + 1, start * 7, 0x01d0000012345678 + start, start, start << 8, start << 16, start)
    return {"A": windows.usn_file([(values(1), "n.txt")]), "B": windows.usn_file([(values(2), "longer name.txt"), (values(3), "m"), (values(4), "q" * 20)])}


def usn_values(reader):
    for r in reader.ReadRecords():
        yield tuple(getattr(r, k) for k in windows.USN_KEYS) + (r.name,)


def _job():
    fixed = windows.JOB_FIXED.base(1, last=struct.pack("<8H", 2020, 2, 4, 13, 14, 15, 16, 17))
    trigger = windows.JOB_TRIGGER.base(5, begin=struct.pack("<3H", 2020, 1, 2), end=struct.pack("<3H", 2021, 11, 30), time=struct.pack("<2H", 7, 45))
    strings = ["app.exe", "/x", "C:\\", "me", "why"]
    return {"A": windows.job(fixed, 1, strings, b"", b"", ())[0], "B": windows.job(windows.JOB_FIXED.base(3, last=fixed["last"]), 2, strings[::-1], b"user", b"reserved", (trigger, trigger))[0]}


def job_values(reader):
    c = reader.GetWindowsTaskConfiguration()
    yield tuple(getattr(c, n) for n in ("application_name", "author", "comment", "error_retry_count", "error_retry_interval", "identifier", "parameters", "priority", "working_directory"))


def _history():
    magic = (0x15, windows.MAGIC)
    third = [magic, (0x15, "file"), (0x15, "C:\\m.exe"), (6, 0), (6, 20), ("tracking", windows.tracking([(3, "k", 5)])), (0xa, 0x01d0000012345678)]
    third += [(6, i) for i in range(27 - len(third))]
    full = [(8, 1234567890123), (0x1e, bytes(range(16))), magic, (0x15, "Virus:X"), (6, 2), (6, 3), (6, 8), (5, 1)] + third
    return {"A": windows.history([(0, 7), (0x15, "text"), (0x28, b"\1\2\3")])[0], "B": windows.history(full)[0]}


def _emf():
    kinds = [(70, b"comment."), (0x18, struct.pack("<I", 0xff8040)), (0x25, struct.pack("<I", 0x80000007)), (14, bytes(range(12)))]
    header = windows.EMF_HEADER.base(1)
    return {"A": windows.emf(header, kinds[:2])[0], "B": windows.emf(header, kinds, tail=b"D\0" * 20)[0]}


def _wmf():
    kinds = [(0x1e, b""), (0x103, struct.pack("<H", 8)), (0x20b, struct.pack("<hh", -5, 7)), (0x3ff, b"\1\2\3\4"), (0, b"")]
    header = windows.WMF_HEADER.base(1, type=1)
    return {"A": windows.wmf(None, header, kinds[-1:])[0], "B": windows.wmf(windows.WMF_PLACEABLE.base(1), header, kinds)[0]}


def _automatic():
    def make(version, entries, links):
        table = windows.DEST_V1 if version == 1 else windows.DEST_V2
        blob = windows.dest_list(windows.DEST_HEADER.base(1, version=version), [(table.base(i + 1, host=b"h%d" % i + b"\0" * 14), "path %d" % i, i) for i in range(entries)])[0]
        return windows.compound([("DestList", blob)] + [(n, windows.lnk(d)) for n, d in links])
    return {"A": make(1, 1, [("1", "one")]), "B": make(3, 2, [("2", "two"), ("a", "x" * 30)])}


def automatic_values(reader):
    for e in reader.GetJumpListEntries():
        yield e.identifier, e.lnk_file.description, e.lnk_file.file_size


def _custom():
    return {"A": windows.custom([(2, ["task"])])[0], "B": windows.custom([(0, "Cat", ["x", "yy"]), (1, 2), (2, ["z"])])[0]}


def custom_values(reader):
    for e in reader.GetJumpListEntries():
        yield e.identifier, e.lnk_file.description


GUIDS = ("{11517B7C-E79D-4e20-961B-75A811715ADD}", "{356c48f6-2fee-e7ef-2a64-39f59ec3be22}")


def _amcache():
    file_key = ("20000012345", [("0", 1, regf.text("product")), ("6", 4, struct.pack("<I", 77)), ("d", 4, struct.pack("<I", 0x60001)), ("f", 4, struct.pack("<I", 0x51000000)),
                                ("11", 11, struct.pack("<Q", 0x01d0000012345678)), ("15", 1, regf.text("C:\\x.exe"))], [])
    program = ("00001234", [("0", 1, regf.text("name")), ("a", 4, struct.pack("<I", 0x51000000)), ("Files", 7, regf.text("one\0two\0"))], [])
    application = ("id", [("ProgramId", 1, regf.text("p")), ("Size", 11, struct.pack("<Q", 5))], [])
    root = ("Root", [], [("File", [], [("volume", [], [file_key])]), ("Programs", [], [program])])
    inventory = ("Root", [], [("InventoryApplication", [], [application]), ("InventoryApplicationFile", [], [("f|1", [("Name", 1, regf.text("f"))], [])])])
    return {"A": regf.hive((GUIDS[0], [], [root])), "B": regf.hive((GUIDS[1], [], [inventory]))}


Kind("recycle_bin", recycle_bin.RecycleBinMetadataFile, _recycle_bin, recycle_bin_values)
Kind("recycler", recycler.RecyclerInfo2File, _info2)
Kind("rp_log", rp_log.RestorePointLogFile, _rp_log)
Kind("rp_change_log", rp_change_log.RestorePointChangeLogFile, _change_log, change_log_values)
Kind("usn_journal", usn_journal.USNRecords, _usn, usn_values)
Kind("job", job.WindowsTaskSchedulerJobFile, _job, job_values)
Kind("detection_history", detection_history.WindowsDefenderScanDetectionHistoryFile, _history)
Kind("emf", wemf.EMFFile, _emf)
Kind("wmf", wemf.WMFFile, _wmf)
Kind("automatic_destinations", jump_list.AutomaticDestinationsFile, _automatic, automatic_values)
Kind("custom_destinations", jump_list.CustomDestinationsFile, _custom, custom_values)
Kind("amcache", amcache.WindowsAMCacheFile, _amcache)


# ------------------------------------------------------------ unified logging

def _aul(kind):
    def make():
        from mc.props import p16
        image = p16.IMAGES[p16.MAIN_A]
        if kind == "uuidtext":
            return {"A": aul.uuidtext([(0x200, b"one %d\0two\0")], "/usr/bin/a"), "B": aul.uuidtext([(0x40, b"uno\0"), (0x200, b"dos\0tres\0")], "/b")}
        if kind == "dsc":
            one, two = aul.make_uuid(1), aul.make_uuid(2)
            return {"1": aul.dsc(1, [(0, 0x200, b"one\0two\0")], [(0x1000, 0x100, one, "/one")]),
                    "2": aul.dsc(2, [(0, 0x200, b"uno\0dos\0"), (1, 0x300, b"tres\0")], [(0x1000, 0x100, one, "/uno"), (0x2000, 0x100, two, "/dos")])}
        boot, sync = aul.boot_record, aul.sync_record
        if kind == "timesync":
            return {"A": boot(p16.BOOT, 1, 1, 1600000000 * 10**9) + sync(5, 1600000001 * 10**9),
                    "B": boot(p16.OTHER_BOOT, 125, 3, 1500000000 * 10**9) + sync(7, 9) + sync(10, 12) + boot(p16.BOOT, 1, 1, 3)}

        def store(chunks, compressed, timesync):
            root = core.fresh_dir("z")
            try:
                files = aul.Store(root)
                files.uuidtext(image.identifier, image.file())
                if timesync:
                    files.timesync("0.timesync", timesync)
                path = files.trace(p16.trace([p16.catalog()] + [aul.chunk_set(chunks, compressed)]))
                found = {}
                for directory, _, names in os.walk(root):
                    for name in names:
                        full = os.path.join(directory, name)
                        with open(full, "rb") as f:
                            found[os.path.relpath(full, root)] = f.read()
                main = os.path.relpath(path, root)
                return {main: found.pop(main), **found}
            finally:
                core.cleanup(root)
        one = p16.assemble("A", [dict(record="log", kind="main", string=(0, 3), values=[(0x20, b"text\0"), (0x02, struct.pack("<i", 7))], shown=["text", "7"], delta=1)])[0]
        two = p16.assemble("A", [dict(record="log", kind="main", string=(1, 0), values=[], shown=[], delta=5), dict(record="log", kind="main", string=(0, 2), values=[(0x21, b"private\0")], shown=["private"], private=True, delta=6)])[0]
        return {"A": store([one], True, None), "B": store([two, one], False, aul.boot_record(p16.BOOT, 1, 1, 1600000000 * 10**9) + aul.sync_record(5, 1600000001 * 10**9))}
    return make


def uuidtext_values(reader):
    yield reader.GetImagePath()
    for reference in list(range(0x40, 0x48)) + list(range(0x200, 0x20c)):
        yield reference, reader.GetString(reference)


def dsc_values(reader):
    for r in reader.ranges:
        yield r.range_offset, r.range_size, r.uuid_index, r.image_identifier, r.image_path, r.text_offset, r.text_size
    for u in reader.uuids:
        yield u.image_identifier, u.image_path, u.text_offset, u.text_size
    for reference, dynamic in [(0x200, False), (0x204, False), (0x300, False), (0x1010, True), (0x2010, True), (0x9000, False)]:
        v = reader.GetImageValues(reference, dynamic)
        yield v and (v.string, v.identifier, v.path, v.text_offset)


def timesync_values(reader):
    for r in reader.ReadRecords():
        yield tuple(str(getattr(r, n, None)) for n in ("signature", "boot_identifier", "timebase_numerator", "timebase_denominator", "timestamp", "kernel_time"))


def trace_values(reader):
    from mc.props import p16
    for e in reader.ReadLogEntries():
        yield tuple(sorted((k, repr(v)) for k, v in p16.observe(e).items()))


Kind("uuidtext", unified_logging.UUIDTextFile, _aul("uuidtext"), uuidtext_values)
Kind("dsc", unified_logging.DSCFile, _aul("dsc"), dsc_values)
Kind("timesync", unified_logging.TimesyncDatabaseFile, _aul("timesync"), timesync_values)
Kind("tracev3", unified_logging.TraceV3File, _aul("tracev3"), trace_values)


# ------------------------------------------------------------ WMI repository

WMI_KEYS = [("NS_1", "CI_2"), ("NS_1", "KI_3", "I_4"), ("NS_5", "CR_6")]


class Repository:
    """A WMI repository behind the interface of a file reader: the path to open is that of one of its files."""

    def __init__(self, debug=False, output_writer=None):
        self.repository = wmi_repository.CIMRepository(debug=debug, output_writer=output_writer)

    def Open(self, path):
        name = os.path.basename(path)
        try:
            self.repository.Open(path if name == "cim.rep" else os.path.dirname(path))
        except RuntimeError as exception:
            raise errors.ParseError(exception)

    def Close(self):
        self.repository.Close()


def wmi_instance(i):
    values = sorted((n, repr(v)) for n, v in i.properties.items())
    return i.class_name, i.namespace, tuple(values)


def repository_values(reader):
    r = reader.repository
    try:
        for source in (r.GetInstances, r.GetNamespaces):
            for i in source():
                yield source.__name__, wmi_instance(i)
        for k in r.GetIndexKeys():
    
            record = r.GetObjectRecordByKey(k)
            yield k, record and (record.data_type, record.data)
    except RuntimeError as exception:
        raise errors.ParseError(exception)


def _wmi_mapping():
    return {"A": wmi.mapping_part(1, 3, [4, 2, wmi.NONE]), "B": wmi.mapping_part(2, 5, [1, 7], (3,)) + wmi.mapping_part(2, 6, [9, 8, 6])}


def wmi_mapping_values(r):
    yield r.format_version, r.sequence_number
    for table, size in ((r.GetObjectsMappingTable(), 2), (r.GetIndexMappingTable(), 2)):
        yield tuple(table.ResolveMappedPageNumber(i) for i in range(size))


def _wmi_index():
    one = wmi.Tree(WMI_KEYS[:1])
    two = wmi.Tree(WMI_KEYS[:1], [None, wmi.Tree(WMI_KEYS[1:])])
    return {"A": b"".join(wmi.lay(one, 2)), "B": b"".join(wmi.lay(two, 2))}


def wmi_index_values(r):
    for number in range(4):
        page = r.GetPage(number)
        if page:
            # Pages of another type have no keys.
            yield page.page_type, page.root_page_number, tuple(page.sub_pages), tuple(page.keys)


def _wmi_objects():
    small, large = wmi.Objects(), wmi.Objects()
    small.add([(1, b"first record"), (2, b"second")])
    large.add([(5, bytes(range(256)) * 40)])
    return {"A": b"".join(small.pages), "B": b"".join(large.pages)}


def wmi_objects_values(r):
    for number in range(2):
        page = r.GetPage(number, number > 0)
        for identifier, size in ((1, 12), (2, 6), (5, 10240)):
            d = page and page.GetObjectDescriptor(identifier, size)
            if d:
                yield number, d.identifier, d.data_offset, d.data_size, r.ReadObjectRecordDataSegment(page, d.data_offset, d.data_size)
        if page and number:
            yield r.ReadObjectRecordDataSegment(page, 0, 2048)


def wmi_file(children, classes=()):
    cells = wmi.Cells()
    c = wmi.Class("Thing", None, [wmi.Property("Name", "string", 0, 0), wmi.Property("Id", "uint16", 4, 1)])
    space = wmi.Class("__NAMESPACE", None, [wmi.Property("Name", "string", 0, 0)])

    def instance(c, values):
        return cells.instance(cells.class_root(c), wmi.instance_block([c], values))
    nodes = [cells.instance_root(None, instance(space, {"Name": name})) for name in children]
    nodes += [cells.instance_root(None, instance(c, {"Name": name, "Id": 5})) for name in classes]
    system = cells.class_root(c)
    return cells.file(system, cells.instance_root("ROOT", instance(space, {"Name": "ROOT"}), nodes))


def _wmi_file():
    return {"A": wmi_file([]), "B": wmi_file(["aa"], ["x"])}


def wmi_file_values(r):
    for source in (r.ReadNamespaces, r.ReadInstances, r.ReadClassDefinitions):
        for i in source():
            yield source.__name__, wmi_instance(i)


def _cim(version, main):
    def make():
        from mc.props import p18
        top = wmi.Class("Top", None, [wmi.Property("Name", "string", 0, 0)])
        sub = wmi.Class("Sub", "Top", [wmi.Property("Id", "uint16", 4, 1, 1)])
        samples = {"A": p18.build(version, [[top]], [(0, {"Name": "one"})]), "B": p18.build(version, [[top, sub]], [(0, {"Name": "x", "Id": 7}), (0, {"Name": "yy", "Id": 9})])}
        return {k: {n.lower(): files[n] for n in sorted(files, key=lambda n: n.lower() != main)} for k, files in samples.items()}
    return make


Kind("wmi_mapping", wmi_repository.MappingFile, _wmi_mapping, wmi_mapping_values)
Kind("wmi_index", wmi_repository.IndexBinaryTreeFile, _wmi_index, wmi_index_values)
Kind("wmi_objects", wmi_repository.ObjectsDataFile, _wmi_objects, wmi_objects_values)
Kind("wmi_file", wmi_repository.RepositoryFile, _wmi_file, wmi_file_values)
Kind("cim_file", Repository, lambda: {k: {"cim.rep": v} for k, v in _wmi_file().items()}, repository_values)
for _version, _main in ((1, "index.map"), (2, "mapping1.map"), (1, "index.btr"), (2, "objects.data")):
    Kind(f"cim_{_main.replace('.', '_')}", Repository, _cim(_version, _main), repository_values)
# A repository is not a file reader: it has no rule against opening or closing it twice.
LOOSE = {name for name in KINDS if name.startswith("cim_")}
# The same repository read through another of its files differs where that file is damaged only.
SAME = {"cim_index_btr", "cim_objects_data", "cim_file"}
ALIKE = {"cim_file", "cim_index_map", "cim_index_btr", "cim_objects_data"}
