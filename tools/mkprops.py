#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os, sys

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


D = "dtformats/"

prop("P01", "Open/close discipline of every file reader",
     "Every file reader is either open or closed: opening an open reader or closing a closed one raises an I/O error and "
     "changes nothing, and a reader whose open failed (missing file, malformed or truncated content) is closed, can be "
     "opened again and then behaves like a new reader. After a close, and after a failed open, the reader holds no file "
     "handle it opened, and it can be reopened any number of times.",
     ["histories", "fault_sequences"],
     "all sequences of open(good), open(malformed), open(truncated), open(missing), close and read operations up to a depth, on every reader class",
     "Tests open one good file and close it once per reader; no test opens after a failure, opens or closes twice, or looks at file handles.",
     [D + "data_format.py", D + "unified_logging.py", D + "wmi_repository.py", D + "jump_list.py", D + "gzipfile.py"],
     [("open/close state of the base reader", D + "data_format.py BinaryDataFile.Open/Close"),
      ("readers with their own Close", D + "unified_logging.py TraceV3File.Close, " + D + "wmi_repository.py CIMRepository.Close")],
     ["exceptions of Open/Close", "file handles opened through open()"])

prop("P02", "A reused reader forgets the files it read before",
     "What a reader reports for a file - values, entries, tables, debug text, accept or reject - depends only on that "
     "file, not on which files (well-formed or malformed) the same reader object was used on before or whether those "
     "were iterated to the end.",
     ["histories"],
     "all histories of up to 3 opens over an alphabet of well-formed variants, malformed and truncated files, per reader class",
     "Tests create a new reader object for every file.",
     [D + "data_format.py", D + "cpio.py", D + "chrome_cache.py", D + "jump_list.py", D + "keychain.py", D + "leveldb.py",
      D + "spotlight_storedb.py", D + "unified_logging.py", D + "cups_ipp.py", D + "rp_change_log.py", D + "recycler.py"],
     [("per-file state is set up while reading", "ReadFileObject of every reader"),
      ("data type map cache", D + "data_format.py _GetDataTypeMap")],
     ["public attributes, getters and iterators after each Open"])

prop("P03", "Interleaved iteration and reads never disturb each other",
     "Iterating or reading several things at once - two iterations of the same open file, the data of several archive "
     "members, look-ups made while an iteration is in progress, or two readers on different files - gives each consumer "
     "exactly what it would have got alone.",
     ["schedules"],
     "all interleavings of two or three consumers (iterators, member reads, look-ups) up to a bound, for every reader with lazily produced results",
     "Tests exhaust one iterator at a time.",
     [D + "data_range.py", D + "cpio.py", D + "leveldb.py", D + "indexeddb.py", D + "usn_journal.py", D + "unified_logging.py",
      D + "spotlight_storedb.py", D + "wmi_repository.py", D + "jump_list.py"],
     [("every consumer keeps its own offset and seeks before it reads", D + "data_range.py DataRange.read, " + D + "data_format.py _ReadData")],
     ["yielded entries and member data"])

prop("P04", "A data range is an exact read-only window on its file",
     "For any sequence of reads, seeks and size/offset queries, a data range over a file behaves like a separate file "
     "holding exactly the window's bytes: it never yields a byte from outside the window, never loses or repeats one, "
     "reports the same positions, and rejects negative positions and unknown seek modes without moving. "
     "Moving or reading the underlying file, or another range on it, in between makes no difference.",
     ["histories", "schedules"],
     "all operation sequences up to a depth over windows of small files, including windows that start or end past the end of the file, interleaved with other users of the file",
     "Tests call each method once on one range.",
     [D + "data_range.py", D + "cpio.py"],
     [("range-relative offset and size clamping", D + "data_range.py DataRange.read/seek")],
     ["return values and exceptions of read, seek, tell, get_offset, get_size"])

prop("P05", "Debug output never changes what a reader reports",
     "Turning debug output on, with or without a writer to receive it, never changes whether a reader accepts a file, the "
     "values and entries it reports, or what the file's consumer sees next; with debug off a reader writes nothing to the writer.",
     ["configurations", "inputs"],
     "every sample file of every reader and every single-field corruption of it that is accepted without debug, times the debug/writer configurations",
     "Tests run only a few readers with a debug writer, on one file each.",
     [D + "data_format.py"] + [D + x + ".py" for x in ("asl", "bsm", "chrome_cache", "cups_ipp", "fseventsd", "keychain", "leveldb", "recycler", "rp_log", "spotlight_storedb", "systemd", "unified_logging", "utmp", "wemf", "wmi_repository")],
     [("debug printing is guarded by the debug flag and goes to the writer only", D + "data_format.py _DebugPrint*")],
     ["exceptions, public results, text received by the writer"])

prop("P06", "Truncated files are rejected or yield a faithful prefix, never invented data",
     "For every truncation of a well-formed file, a reader either raises its parse error or an I/O error or reports "
     "only results that the complete file also yields, in the same order and with the same values; it never raises any "
     "other kind of error and never hangs.",
     ["inputs", "crash_points"],
     "every prefix length of every sample file of every reader",
     "Tests truncate at one or two hand-picked places for a few readers.",
     [D + "data_format.py"] + [D + x + ".py" for x in ("cpio", "gzipfile", "leveldb", "keychain", "safari_cookies", "systemd", "asl", "bsm", "spotlight_storedb", "unified_logging", "wmi_repository", "usn_journal", "chrome_cache", "tzif")],
     [("short reads become parse errors", D + "data_format.py _ReadData, _ReadStructureFromFileObject, _ReadStructureFromByteStream")],
     ["exceptions and public results"])

prop("P07", "A failing or short read is never absorbed into wrong results",
     "If any single read of the underlying file fails with an I/O error or returns fewer bytes than the file holds, the "
     "reader raises its parse error or an I/O error, or reports exactly what it reports without the fault; it never "
     "returns different results and never raises another kind of error.",
     ["fault_sequences"],
     "every read call of every sample file of every reader, times {I/O error, short read, empty read}",
     "No test makes a read fail after the file was opened.",
     [D + "data_format.py"] + [D + x + ".py" for x in ("cpio", "gzipfile", "keychain", "safari_cookies", "wmi_repository", "unified_logging", "wemf", "data_range")],
     [("read errors and short reads become parse errors", D + "data_format.py _ReadData")],
     ["exceptions and public results"])

prop("P08", "Reading always terminates, whatever the links and sizes in the file",
     "For every file obtained from a well-formed one by changing an offset, link, size or count - including ones that "
     "make a chain of records point back at itself or a record claim size zero - reading terminates with a result, its "
     "parse error or an I/O error, after work bounded by the file's size.",
     ["inputs"],
     "every 1/2/4/8-byte field of every sample file, set to 0, 1, all-ones and every structure offset of that file (both byte orders)",
     "No test contains a cyclic chain or a zero-sized record.",
     [D + x + ".py" for x in ("asl", "systemd", "spotlight_storedb", "wemf", "bsm", "leveldb", "chrome_cache", "wmi_repository", "unified_logging", "usn_journal", "rp_change_log", "bookmark_data", "alias_data", "keychain")],
     [("offsets have to advance; chains are followed until a terminator", "record loops of the readers")],
     ["number of reads performed, exceptions"])

prop("P09", "CPIO archives: every member is found, exact and independently readable",
     "For every well-formed CPIO archive in the binary (either byte order), portable ASCII, new ASCII or new ASCII with "
     "checksum format, the reader lists exactly the archive's members in order with their stored paths, mode, owner, "
     "times and sizes, each member reads back exactly its bytes, look-ups by path agree with the list, and the reported "
     "size covers the archive.",
     ["inputs"],
     "all archives of up to 3 members over name lengths, data sizes (alignment classes), header values and trailers, in all five on-disk variants",
     "Tests read one fixed archive per format and check its size.",
     [D + "cpio.py", D + "cpio.yaml", D + "data_range.py"],
     [("header decoding per format, alignment padding, trailer detection", D + "cpio.py _ReadFileEntry, _ReadFileEntries")],
     ["GetFileEntries, GetFileEntryByPath, FileEntryExistsByPath, read()"])

prop("P10", "gzip streams: header, data and footer of every member are decoded exactly",
     "For every gzip file made of one or more members, with any combination of optional header fields and any compressed "
     "payload including empty ones, the reader reports each member's header fields, decompressed data and footer values "
     "in order and accounts for every byte of the file.",
     ["inputs"],
     "all files of up to 3 members over optional-field combinations, payload classes (empty, stored, compressed, block-straddling)",
     "Tests read one fixed single-member file.",
     [D + "gzipfile.py", D + "gzipfile.yaml"],
     [("member header/footer location from the unused compressed data", D + "gzipfile.py")],
     ["debug text of the reader"])

prop("P11", "LevelDB and IndexedDB: every stored entry is reported once and exact",
     "For every well-formed LevelDB log, descriptor or table file the reader reports exactly the stored records and "
     "entries, in order, with their key, sequence number, value type and value, whatever way they are spread over "
     "pages, records, blocks, restart points, shared key prefixes and compressions; IndexedDB keys split into their "
     "database, object store and index identifiers exactly.",
     ["inputs"],
     "all small tables/logs over key-sharing patterns, restart intervals, block splits, compressions, and all fragmentations of records around page boundaries; all identifier widths",
     "Tests read a fixed table or none at all.",
     [D + "leveldb.py", D + "leveldb.yaml", D + "indexeddb.py"],
     [("page and record reassembly, variable size integers, block and prefix decoding", D + "leveldb.py, " + D + "indexeddb.py")],
     ["ReadTableEntries, debug text"])

prop("P12", "Browser caches: addresses, chains, bitmaps and hashes decode exactly",
     "For every well-formed Chrome or Firefox (version 1) cache the readers report exactly the stored cache addresses, "
     "entry chains, keys, times and block locations, each at the place the format defines, and a Chrome cache key's hash "
     "is the one the format defines.",
     ["inputs"],
     "all 32-bit address shapes, all chains and bucket layouts up to a bound, all key lengths up to a bound for the hash",
     "Tests read one fixed cache and hash one key.",
     [D + "chrome_cache.py", D + "chrome_cache.yaml", D + "firefox_cache1.py", D + "firefox_cache1.yaml"],
     [("address bit fields, block offsets, entry chain walk", D + "chrome_cache.py CacheAddress, DataBlockFile, IndexFile, ChromeCacheParser"),
      ("hash", D + "chrome_cache.py SuperFastHash")],
     ["index_table, ReadCacheEntry, debug text"])

prop("P13", "Unix and macOS log readers report every record, value-exact and in order",
     "For every well-formed utmp, utmpx, Apple System Log, BSM audit, systemd journal, CUPS IPP or fseventsd file, the reader "
     "reports every stored record in stored order and every value of it - integers, strings, addresses, timestamps - "
     "exactly as stored.",
     ["inputs"],
     "all files of up to 3 records over the record kinds, optional parts, string lengths and boundary values of the fields",
     "Tests read one fixed file per format and mostly only check that no error is raised.",
     [D + x + ".py" for x in ("utmp", "asl", "bsm", "systemd", "fseventsd", "cups_ipp")] + [D + x + ".yaml" for x in ("utmp", "asl", "bsm", "systemd", "fseventsd", "cups_ipp")],
     [("record loops, data type definitions and debug value formatting", "the readers and their .yaml/.debug.yaml definitions")],
     ["debug text of the readers"])

prop("P14", "Apple databases and preference data decode value-exact",
     "For every well-formed keychain, Safari binary cookies file, login item alias, background item bookmark, time zone "
     "file or Spotlight store, the reader reports every table, record, property and cookie the file stores with "
     "exactly the stored values, and nothing else.",
     ["inputs"],
     "all small files over table/column types, record counts, property kinds, string lengths, boundary values",
     "Tests read one fixed file per format, some none.",
     [D + x + ".py" for x in ("keychain", "safari_cookies", "alias_data", "bookmark_data", "tzif", "spotlight_storedb")],
     [("offset tables and per-type value decoding", "the readers and their .yaml definitions")],
     ["tables, items, attributes; debug text"])

prop("P15", "Windows artefact readers report every record, value-exact and in order",
     "For every well-formed recycle bin metadata or INFO2 file, restore point log or change log, USN journal, task "
     "scheduler job, jump list, Defender detection history file, AMCache hive or Windows metafile, the reader reports every stored "
     "entry in stored order with exactly the stored values.",
     ["inputs"],
     "all small files over format versions, record counts, string lengths and encodings, optional parts and boundary values",
     "Tests read one fixed file per format.",
     [D + x + ".py" for x in ("recycle_bin", "recycler", "rp_log", "rp_change_log", "usn_journal", "job", "jump_list", "detection_history", "wemf", "amcache")],
     [("record loops and value decoding", "the readers and their .yaml definitions")],
     ["public attributes and iterators; debug text"])

prop("P16", "Unified logging: every log entry is reconstructed exactly",
     "For every well-formed tracev3 file with its string and time synchronisation files, the reader yields exactly the "
     "stored log entries in stored order, each with the message composed from its own format string and values, and its own "
     "timestamps, process, image, activity and signpost values, whichever compression, chunk layout, string location or "
     "private/oversize storage is used.",
     ["inputs", "configurations"],
     "all small log archives over record types, flag combinations, string sources, value item kinds, chunk layouts and time sync tables",
     "Tests parse two fixed files and count entries.",
     [D + "unified_logging.py", D + "aul_tracev3.yaml", D + "aul_uuidtext.yaml", D + "aul_dsc.yaml", D + "aul_timesync.yaml"],
     [("chunk walk, catalog, string resolution, time conversion, value decoding", D + "unified_logging.py TraceV3File, DSCFile, UUIDTextFile, TimesyncDatabaseFile")],
     ["ReadLogEntries, ReadRecords, GetString, GetImageValues"])

prop("P17", "Unified logging format strings render every value faithfully",
     "For every format string and every value, the composed message contains the literal text unchanged and, in order, "
     "one rendering per operator that is the one its decoder and printf-style flags, width and (for text and floating-point "
     "operators) precision define; values that are missing or cannot be decoded become a marker and never raise an error or "
     "shift the other values.",
     ["inputs"],
     "all format strings of up to 3 segments over the operator grammar, and all decoder/value-size combinations over boundary values",
     "Tests check one or a few values per decoder.",
     [D + "unified_logging.py"],
     [("format string parser and value decoders", D + "unified_logging.py StringFormatter, FormatStringOperator, *FormatStringDecoder")],
     ["FormatString, FormatValue, GetPythonFormatString"])

prop("P18", "WMI repository: every key, object record, class and instance is exact",
     "For every well-formed WMI repository (index, mapping and objects files, or a single repository file) the reader "
     "reports exactly the index keys, those of a page before those of its sub pages, takes the most recent mapping, and "
     "resolves a key to exactly the stored object record even when it spans several pages. It decodes class definitions "
     "with their inherited properties and qualifiers, instances, registrations and namespaces with exactly the stored "
     "names, types and values, leaving out those whose data is gone; class qualifiers of type char16 and datetime, "
     "arrays other than of strings and derived classes of a single repository file are outside the scope.",
     ["inputs"],
     "all small repositories over page trees, mapping tables (both versions) and their order of recency, key shapes, record sizes around page boundaries, property types and values, namespace depths and inheritance chains, and all small node trees of a single repository file",
     "Tests open the single files only; no test opens a repository.",
     [D + "wmi_repository.py", D + "wmi_repository.yaml"],
     [("page mapping, binary tree walk, record reassembly, class and instance decoding", D + "wmi_repository.py CIMRepository and the file readers")],
     ["GetIndexKeys, GetObjectRecordByKey, GetInstances, GetNamespaces"])

prop("P19", "Debug dumps are lossless and unambiguous",
     "Every data dump shows every byte of the data at its offset, folding only runs of identical full lines so that the "
     "data can be reconstructed exactly from the dump, and every dumped value line shows the field's value in the format "
     "declared for it, including addresses and timestamps over their whole range.",
     ["inputs"],
     "all data of up to 5 lines over a line alphabet and all tail lengths; all declared formats over boundary values",
     "Tests compare one dump and a few values.",
     [D + "data_format.py", D + "output_writers.py"],
     [("hexadecimal dump and value formatting", D + "data_format.py _FormatDataInHexadecimal, _Format*")],
     ["text received by the writer"])

prop("P20", "Prefetch path hashes follow the documented algorithms",
     "For every path the three prefetch hash functions return the value of the documented algorithm as an unsigned "
     "32-bit number.",
     ["inputs"],
     "all paths up to a length over a character alphabet that includes non-ASCII, and all lengths up to a bound (loop unrolling classes)",
     "Tests hash one path per algorithm.",
     [D + "prefetch.py"],
     [("hash loops", D + "prefetch.py")],
     ["return values"])

prop("P21", "Debug definitions: accepted exactly when valid, and all of them apply",
     "A debug definitions file is accepted exactly when every definition is complete and valid, and then yields exactly "
     "the definitions it contains; and every attribute the shipped definitions declare names a member of the data type it "
     "describes and a format the reader implements, so that it is actually shown.",
     ["inputs", "configurations"],
     "all small definition documents over key presence/emptiness/duplication, and every attribute of every shipped definition",
     "Tests cover a few malformed documents; the shipped definitions are never cross-checked.",
     [D + "yaml_definitions_file.py", D + "data_format.py"] + [D + "*.debug.yaml"],
     [("definition validation", D + "yaml_definitions_file.py"), ("callback resolution", D + "data_format.py ReadDebugInformationFile")],
     ["ReadFromFile, text received by the writer"])

prop("P22", "Path helpers split, join and look up paths consistently",
     "Splitting a path and joining the segments again names the same file, joining drops exactly the redundant "
     "separators, and existence, size, listing and opening of a path agree with the file system, for every path.",
     ["inputs"],
     "all paths of up to 5 characters over {a, ., /} and all segment lists up to length 3, on a real scratch directory tree",
     "Tests use one path.",
     [D + "file_system.py"],
     [("segment handling", D + "file_system.py NativeFileSystemHelper")],
     ["return values"])

prop("P23", "Only the supported formats are accepted",
     "A file of which a signature, format version, record type tag or repeated size has any value other than the ones its format "
     "allows is reported with the parse error, with debug output off and on. It is never silently interpreted as the format.",
     ["inputs"],
     "about 110 identifying fields of 34 readers: every value of every byte, pairs of bytes, all 16-bit values in the thorough tier",
     "Tests open valid files and a few with one broken signature.",
     [D + "*.py", D + "*.yaml"],
     [("checks of signature, version and type", D + "*.py _ReadFileHeader and the value constraints of " + D + "*.yaml")],
     ["Open, iteration, the class of the error"])

prop("P24", "NSKeyedArchiver plists decode to exactly the archived objects",
     "The NSKeyedArchiver decoder reproduces exactly the object graph that was archived: nested and shared objects, dictionaries, "
     "arrays, sets, strings, numbers, data, UUIDs and URLs, in binary and XML property lists. An archive with an unsupported version or "
     "class or with missing or mismatched members is refused with RuntimeError instead of being decoded to something else.",
     ["inputs"],
     "all object graphs up to a depth over the supported classes and boundary values, sharing of objects, and every member removed or changed",
     "The decoder is a script without tests.",
     ["scripts/decode_nskeyedarchiver_plist.py"],
     [("object decoders", "scripts/decode_nskeyedarchiver_plist.py")],
     ["DecodePlist return value and error class"])

prop("P25", "Command line tools report what files hold and fail when they cannot",
     "Run on a well-formed file, each command line tool ends successfully and prints exactly the values the file holds, in order, in text "
     "and where supported in JSON, and the debug option only adds lines. "
     "A source that is missing, or a file whose reader refuses it, makes the tool end with a failure, never with success.",
     ["inputs", "configurations"],
     "every tool over the sample files of all readers with and without debug output, truncations, and boundary values of every printed field",
     "No test executes the scripts.",
     ["scripts/usn_journal.py", "scripts/job.py", "scripts/recycle_bin.py", "scripts/rp_change_log.py", "scripts/jump_list.py", "scripts/cpio.py", "scripts/leveldb.py",
      "scripts/indexeddb.py", "scripts/keychain.py", "scripts/spotlight_storedb.py", "scripts/wmi_repository.py", "scripts/unified_logging.py"],
     [("tools", "scripts/")],
     ["exit status and standard output of scripts/*.py"])

prop("P26", "What is reported depends on the files alone, not on place or environment",
     "What a reader or tool reports of a file is the same in every time zone, locale, hash seed and working directory, for every relative or absolute path that "
     "names the file, and for every kind of file object or file system helper, including archives and storage media images, where the files that belong to it are found as well. "
     "A file that is not on the file system given is refused, even when the host has a file of that name.",
     ["configurations", "inputs"],
     "all sample files of all readers, whole and cut off, in the product of time zones, hash seeds, locales and optimisation, 11 places, 6 kinds of file objects, TAR and ZIP archives and FAT images",
     "Tests run in one environment, with absolute paths and the native file system.",
     [D + "data_format.py", D + "file_system.py", D + "dfvfs_helpers.py", D + "unified_logging.py", D + "spotlight_storedb.py", D + "wmi_repository.py",
      "scripts/leveldb.py", "scripts/indexeddb.py"],
     [("opening of files", D + "data_format.py BinaryDataFile.Open"), ("related files", D + "unified_logging.py TraceV3File.ReadFileObject"),
      ("images", D + "dfvfs_helpers.py ParseDFVFSCLIArguments")],
     ["values and debug text of the readers", "exit status and standard output of scripts/*.py"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
