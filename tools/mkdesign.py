#!/usr/bin/env python3
"""Writes DESIGN.md from the parts below, properties.jsonl, the seeded changes and known_findings.txt."""
import collections, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
PART = {
"P01": ("All words of length 1-3 (thorough 4) over {open each of 2 well-formed, 3 malformed and 1 missing file, close}, for each of 48 kinds of reader; and every single failing read of the open of two files.",
        "Model: the state closed or open(file). After every step: the error, whether the next operation is that of the model's state, and that every handle the reader obtained (recorded by a replaced builtins.open / OLECF open) is closed exactly when the model says so.",
        "A WMI repository of several files has no rule against opening twice; only its results are compared."),
"P02": ("All histories of up to 2 (thorough 3) visits of a reader object, a visit being a file (2-5 well-formed, 3 malformed ones of each) read completely, for one item, or not at all; then one complete visit. 40 truncations per file as the file of the first visit.",
        "Error, items and debug text of the last visit equal those of a new reader in a new process.", ""),
"P03": ("All interleavings of the steps of 2 (4 steps each) and 3 (2 steps each) consumers: two readers on two files, iterations of one open file, members of an archive, look-ups in an iteration.",
        "What each consumer gets alone in a new process.",
        "Full interleaving without partial-order reduction: a step is the production of one item; code between two items runs uninterrupted, as Python generators do (the library starts no threads)."),
"P04": ("All words of length 3-4 over 41 operations (reads, seeks in 4 modes, size/offset queries, moving the underlying file, another range on it) on every window of files of 0, 1 and 5 bytes and 4 windows of a 70000 byte file; also the archive member objects.",
        "io.BytesIO over the window's bytes.", "read() with any negative size reads the rest of the window."),
"P05": ("Every sample, 60-70 truncations of it and single-byte changes (4 values) at 60-70 positions, each read with debug output {off, on} x {no writer, writer}.",
        "Debug off: same error class, same stage, same items; nothing written with debug off.", ""),
"P06": ("Every prefix of every sample (all lengths up to 400 bytes, then 200 spread over the rest), with debug output off and on.",
        "Results are a part, in order, of those of the complete file; only the parse error or an I/O error.",
        "For companion files only the kind of error is judged. A restore point log's creation time is read relative to the end of the file and a CPIO archive reports its own length: these two are not compared."),
"P07": ("Every read call of every sample x {I/O error, one byte short, half, nothing}, with debug output off and on (fault injection below builtins.open).",
        "The fault-free result or the parse error or an I/O error.",
        "One fault per execution. fseventsd is excluded (gzip module). A short read() of a CPIO member is allowed to be short as read() of a file is."),
"P08": ("Every field of 1, 2, 4 and 8 bytes at 40 positions per file x 10 values; every field that can hold an offset x 8 other offsets, its own and zero (all self and mutual links). Debug output on.",
        "A counter of read calls below a bound linear in the size of the file, 15 s of time and 1.5 GB of memory.", ""),
"P09": ("All archives of up to 3 members over 12 name classes, 5 data sizes, 5 formats; each mode, owner, size and time field at its boundary values.",
        "Reference encoder mc/fmt/cpio.py.", "Member paths are ASCII and distinct."),
"P10": ("All streams of up to 3 members over the 32 flag combinations x 7 payloads x 7 deflate layouts, extra/name/comment lengths.",
        "Reference encoder mc/fmt/gzipf.py.", ""),
"P11": ("Logs: each page remainder 0-63 and all 2-cut fragmentations of a record; descriptors: all tag sequences; tables: all sets of up to 4 of 9 keys x restart interval x prefix sharing x compression x block split; IndexedDB: all 8x8x4 identifier widths.",
        "Reference encoder mc/fmt/leveldb.py.", ""),
"P12": ("Chrome: 80 lower halves of every 7th upper half of an address, all index tables of up to 3 addresses, chains of up to 3 buckets x 3 entries; keys of every length to 160 bytes. Firefox: all layouts of 3 of 5 blocks, all location words.",
        "Reference encoder mc/fmt/browser.py.", "Chrome keys are at most 160 bytes (stored in the entry)."),
"P13": ("Every field of every record at its boundary values, all sequences of up to 3-4 records of 3-8 kinds, every ordered pair of BSM tokens, all distributions of 3 journal entries over entry array chains, strings of every length class, IPP values of every syntax.",
        "Reference encoders mc/fmt/unixlogs.py; values of text-only readers are taken from the debug text, filtered to known field names.", ""),
"P14": ("Keychain: every attribute type at its boundary values, all NULL patterns, orders, unused slots; cookies: all string orders and presence patterns; alias and bookmark: every tag and value; time zones: all count vectors over {0,1,3}^4 x 3 versions; Spotlight: every value type, 18 integer sizes, 5 page encodings x splits, streams maps.",
        "Reference encoders mc/fmt/apple.py, spotlight.py.", "Cookie and keychain strings are ASCII."),
"P15": ("Every field at its boundary values, strings of every length to 130-260, all sequences of up to 4 records of 3-5 kinds, all block breaks of a USN journal, every record of the metafile formats, both jump list kinds; AMCache values of every name and type, keys in all sequences of up to 3.",
        "Reference encoders mc/fmt/windows.py, regf.py, table.py.", ""),
"P16": ("All documented flags of log, signpost, activity, trace and loss records x 5 kinds of strings files, all pairs of data items of 24 kinds, chunk layouts, compression, 5 time bases x 14 times x 6 sets of synchronisation records.",
        "Reference encoder mc/fmt/aul.py; every attribute of every log entry is compared.",
        "A signpost name with the large-shared-cache but no large-offset flag and the message of an entry of which the strings file is missing are outside."),
"P17": ("All format strings of length <= 5 (thorough 6) over a 12 character alphabet, all flag/width/precision/specifier words, all values of the bounded space of 45 decoders.",
        "Hand-written scanner, Python's % operator, independent decoders (mc/fmt/aul.py, aul_names.py).",
        "Outside: precision of integers, %.0s, '#' with octal, %a, sign flags of unsigned values, SIDs without sub authorities, partly zero groups of IPv6 socket addresses."),
"P18": ("All trees of up to 4 index pages with 0-2 keys per page, 4 page orders, 2 mapping styles, both versions; record sizes around page boundaries; classes with every pair of property types, inheritance of up to 3 classes; instances, registrations, namespaces; the single-file repository with all trees of up to 4 namespaces.",
        "Reference encoder mc/fmt/wmi.py.", ""),
"P19": ("All sequences of up to 5 lines of 5 kinds x 16 tails, every byte in every column, sizes 0..599; every value format over its boundary values.",
        "A strict decoder of the dump; independent rendering.", "Timestamps up to the year 9999."),
"P20": ("All words of length <= 7 over a small alphabet, all BMP characters with a one-character upper case at 9 positions, lengths to 300.", "Polynomial evaluation of the documented algorithm.", ""),
"P21": ("All documents over a key/value alphabet, all streams of up to 4, all prefixes and single-byte changes of one file; all attributes of all shipped definitions.", "Validity predicate; the members of the data type and the formats of the reader.", "Attribute keys other than name, description and format are unspecified."),
"P22": ("All paths of length <= 9 over {a, b, /, .}, all joins of up to 4 segments, all look-ups of depth 3 and 4-step change histories of a scratch tree.", "Independent split; the operating system.", ""),
"P23": ("All 256 values of every byte, and pairs of bytes, of 187 signature, version, tag and repeated-size fields of 36 readers, debug off and on.", "The table of accepted values in mc/props/p23.py, from the format documentation.", ""),
"P24": ("All object graphs up to depth 3 over the supported classes and boundary values, objects shared between two places, binary and XML; every member of an archive removed, replaced or lengthened.", "An independent archiver (mc/props/p24.py).", "Keys are strings and integers; hash tables of one element; NSDate, NSData and mutable strings are documented as not supported."),
"P25": ("Every tool on every sample file of the readers with and without -d, cut off at every size of small files; missing sources and options; boundary values and up to 60 entries for the tools that print values (USN journal, jobs, recycle bin, change log, jump list, CPIO with compression, LevelDB, IndexedDB, keychain, Spotlight, WMI, unified logging as text and JSON).", "The values the independent encoders wrote; sys.exit status as the interpreter would report it.", "Alignment of columns is not judged; what is printed of unified logging entries and IndexedDB keys is compared to what the reader returns (decided by P16 and P23); messages of 1085 characters and more are shortened by the tool; analyzer.py is not included."),
"P26": ("Every sample of every reader, whole and cut off, and every tool on it: one process per environment (8 time zones, 5 hash seeds, 3 locales, optimisation, working directory; the full product in the thorough tier), 11 places (relative, dot, links, names with non-ASCII, deep), 6 kinds of file objects, TAR and ZIP through dfVFS, FAT volumes with the --image option, missing files, images without a file system, Chrome cache directories.", "The first observation: everything else has to be equal to it, character by character.", "WMI repositories are read from the host file system only; ZIP members that are stored without compression are not used (random access to them gives wrong bytes in dfVFS)."),
}
head = open(os.path.join(ROOT, "tools", "design_head.md")).read()
tail = open(os.path.join(ROOT, "tools", "design_tail.md")).read()
out = [head, "## Properties\n"]
for p in props:
    space, oracle, scope = PART[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n\n- Explored: {space}\n- Decided by: {oracle}\n" + (f"- Scope: {scope}\n" if scope else ""))
out.append("## Planted changes\n\nEach is caught by the check of its property (tools/runseeds.sh).\n\n| change | property | needs |\n|---|---|---|")
base = os.path.join(ROOT, "seeded")
for name in sorted(os.listdir(base)):
    meta = json.load(open(os.path.join(base, name, "meta.json")))
    out.append(f"| {name} | {meta['property']} | {meta['needs']} |")
fixed, known = collections.Counter(), []
for line in open(os.path.join(ROOT, "known_findings.txt")):
    m = re.match(r"fixed: property=(P\d+)", line)
    if m: fixed[m[1]] += 1
    m = re.match(r"known: property=(P\d+) key=(\S+) -- (.*)", line)
    if m: known.append(m.groups())
out.append("\n## Genuine defects\n\nRepaired (a \"fix:\" commit each, listed in known_findings.txt): "
           + ", ".join(f"{k} {v}" for k, v in sorted(fixed.items())) + f"; {sum(fixed.values())} in all.\n\nRecorded, not repaired:\n")
out += [f"- {p} `{k}`: {t}" for p, k, t in known]
out.append("\n" + tail)
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
