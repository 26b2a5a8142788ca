From 281f0cd55fef56df65a854942aec050e1fe8002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:27 +0000
Subject: [PATCH 001/175] fix: keep DataRange.read with a negative size inside
 the data range

---
 dtformats/data_range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_range.py b/dtformats/data_range.py
index e46e42d..7596555 100644
--- a/dtformats/data_range.py
+++ b/dtformats/data_range.py
@@ -56,7 +56,7 @@ class DataRange:
         if self._current_offset >= self.data_size:
             return b""
 
-        if size is None:
+        if size is None or size < 0:
             size = self.data_size
         if self._current_offset + size > self.data_size:
             size = self.data_size - self._current_offset
-- 
2.43.0


From 8a216fb8083f8e9e8446b8f94a67389cc4b44df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 002/175] fix: read gzip members that contain no data

---
 dtformats/gzipfile.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dtformats/gzipfile.py b/dtformats/gzipfile.py
index 422a310..54fe453 100644
--- a/dtformats/gzipfile.py
+++ b/dtformats/gzipfile.py
@@ -46,11 +46,8 @@ class GZipFile(data_format.BinaryDataFile):
           tuple[bytes, bytes]: decompressed data and remaining data.
         """
         data_segments = []
-        while compressed_data:
+        while compressed_data and not zlib_decompressor.eof:
             data = zlib_decompressor.decompress(compressed_data)
-            if not data:
-                break
-
             data_segments.append(data)
             compressed_data = getattr(zlib_decompressor, "unused_data", b"")
 
@@ -65,13 +62,13 @@ class GZipFile(data_format.BinaryDataFile):
         zlib_decompressor = zlib.decompressobj(-zlib.MAX_WBITS)
         compressed_data = file_object.read(self._BUFFER_SIZE)
         while compressed_data:
-            data, compressed_data = self._ReadCompressedData(
+            _, compressed_data = self._ReadCompressedData(
                 zlib_decompressor, compressed_data
             )
             if compressed_data:
                 file_object.seek(-len(compressed_data), os.SEEK_CUR)
 
-            if not data:
+            if zlib_decompressor.eof:
                 break
 
             compressed_data = file_object.read(self._BUFFER_SIZE)
-- 
2.43.0


From 665d9affbd262b40f3da196938e5165a611c08d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 003/175] fix: raise ParseError on corrupt gzip compressed data

---
 dtformats/gzipfile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dtformats/gzipfile.py b/dtformats/gzipfile.py
index 54fe453..cfc0f7c 100644
--- a/dtformats/gzipfile.py
+++ b/dtformats/gzipfile.py
@@ -47,7 +47,13 @@ class GZipFile(data_format.BinaryDataFile):
         """
         data_segments = []
         while compressed_data and not zlib_decompressor.eof:
-            data = zlib_decompressor.decompress(compressed_data)
+            try:
+                data = zlib_decompressor.decompress(compressed_data)
+            except zlib.error as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress member data with error: {exception!s}"
+                )
+
             data_segments.append(data)
             compressed_data = getattr(zlib_decompressor, "unused_data", b"")
 
-- 
2.43.0


From 8d9d21a5fa87262883d3f1d7ee4716fe1c4839a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 004/175] fix: define Chrome Cache entry debug information
 under its own name

---
 dtformats/chrome_cache.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/chrome_cache.debug.yaml b/dtformats/chrome_cache.debug.yaml
index a19a4b6..00668b1 100644
--- a/dtformats/chrome_cache.debug.yaml
+++ b/dtformats/chrome_cache.debug.yaml
@@ -39,7 +39,7 @@ attributes:
   description: "User"
   format: custom:array_of_decimals
 ---
-data_type_map: chrome_cache_data_block_file_header
+data_type_map: chrome_cache_entry
 attributes:
 - name: hash
   description: "Hash"
-- 
2.43.0


From 27cd2850da171478c18ec5d41a670684b8293e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 005/175] fix: format Firefox cache locations in debug output

---
 dtformats/firefox_cache1.debug.yaml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/firefox_cache1.debug.yaml b/dtformats/firefox_cache1.debug.yaml
index f87a8d1..d6d8a1e 100644
--- a/dtformats/firefox_cache1.debug.yaml
+++ b/dtformats/firefox_cache1.debug.yaml
@@ -10,7 +10,7 @@ attributes:
   format: decimal
 - name: location
   description: "Location"
-  format: custom:cache_lcation
+  format: custom:cache_location
 - name: fetch_count
   description: "Fetch count"
   format: decimal
@@ -73,7 +73,7 @@ attributes:
   format: decimal
 - name: data_location
   description: "Data location"
-  format: custom:cache_lcation
+  format: custom:cache_location
 - name: metadata_location
   description: "Metadata location"
-  format: custom:cache_lcation
+  format: custom:cache_location
-- 
2.43.0


From 9f56641c87b368c063eed3812f7ff08e93af20b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 006/175] fix: print the last allocated block range of a Chrome
 Cache data block file

---
 dtformats/chrome_cache.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 6020080..2b19c2e 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -265,6 +265,13 @@ class DataBlockFile(data_format.BinaryDataFile):
                 value_32bit >>= 1
                 block_number += 1
 
+        if in_block_range and self._debug:
+            block_range_size = block_range_end - block_range_start
+            self._DebugPrintValue(
+                "Block range",
+                f"{block_range_start:d} - {block_range_end:d} ({block_range_size:d})",
+            )
+
     def _DebugPrintCacheEntryDataStreamSizes(self, array_of_integers):
         """Prints cache entry data stream sizes debug information.
 
-- 
2.43.0


From cd41cd63bf90f967b51a9857569d8b50b6394258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 007/175] fix: describe Chrome Cache addresses of an unknown
 file type

---
 dtformats/chrome_cache.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 2b19c2e..4880133 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -159,6 +159,12 @@ class CacheAddress:
                 f"file type: {file_type_description:s}, filename: {self.filename:s})"
             )
 
+        if self.file_type not in self._BLOCK_DATA_FILE_TYPES:
+            return (
+                f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
+                f"file type: {file_type_description:s})"
+            )
+
         # TODO: print reserved bits.
         return (
             f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
-- 
2.43.0


From 9d391c61856dfec05cc05d26cf47cfa761b48ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 008/175] fix: do not keep the index table of a previously read
 Chrome Cache index file

---
 dtformats/chrome_cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 4880133..3414b2f 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -639,6 +639,8 @@ class IndexFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self.index_table = {}
+
         self._ReadFileHeader(file_object)
         self._ReadLRUData(file_object)
         self._ReadIndexTable(file_object)
-- 
2.43.0


From 9bee429468f06e91cf641b12b0196da6f80f9b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:51 +0000
Subject: [PATCH 009/175] fix: format out of range Chrome Cache timestamps

---
 dtformats/chrome_cache.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 3414b2f..7dc47df 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -355,9 +355,13 @@ class DataBlockFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
+        try:
+            date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+                microseconds=integer
+            )
+        except OverflowError:
+            return f"0x{integer:08x}"
+
         return f"{date_string!s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
@@ -534,9 +538,13 @@ class IndexFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
+        try:
+            date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+                microseconds=integer
+            )
+        except OverflowError:
+            return f"0x{integer:08x}"
+
         return f"{date_string!s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
-- 
2.43.0


From 95e450eb020c5ee3e54f7724dbbb94e17f19c1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:51 +0000
Subject: [PATCH 010/175] fix: parse Chrome Cache directories

---
 dtformats/chrome_cache.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 7dc47df..5855419 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -688,7 +688,7 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the directory cannot be read.
         """
-        index_file_path = self._file_system_helper.JoinPath(path, "index")
+        index_file_path = self._file_system_helper.JoinPath([path, "index"])
         if not self._file_system_helper.CheckFileExistsByPath(index_file_path):
             raise errors.ParseError(f"Missing index file: {index_file_path:s}")
 
@@ -700,7 +700,7 @@ class ChromeCacheParser:
         for cache_address in index_file.index_table.values():
             if cache_address.filename not in data_block_files:
                 data_block_file_path = self._file_system_helper.JoinPath(
-                    path, cache_address.filename
+                    [path, cache_address.filename]
                 )
                 if not self._file_system_helper.CheckFileExistsByPath(
                     data_block_file_path
@@ -739,20 +739,7 @@ class ChromeCacheParser:
                     # print(f'Cache address\t: {cache_address_string:s}')
                     cache_entry = data_file.ReadCacheEntry(cache_address.block_offset)
 
-                    try:
-                        cache_entry_key = cache_entry.key.decode("ascii")
-                    except UnicodeDecodeError:
-                        logging.warning(
-                            f"Unable to decode cache entry key at cache address: "
-                            f"0x{cache_address.value:08x}. Characters that cannot be "
-                            f'decoded will be replaced with "?" or "\\ufffd".'
-                        )
-                        cache_entry_key = cache_entry.key.decode(
-                            "ascii", errors="replace"
-                        )
-
-                    # TODO: print(f'Url\t\t: {cache_entry_key:s}')
-                    _ = cache_entry_key
+                    # TODO: print(f'Url\t\t: {cache_entry.key:s}')
 
                     date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
                         microseconds=cache_entry.creation_time
-- 
2.43.0


From 5c744fc69c0d4be102b332f52f3857697f68fae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:26 +0000
Subject: [PATCH 011/175] fix: print utmp entries with strings that are not
 valid UTF-8 in debug output

---
 dtformats/utmp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dtformats/utmp.py b/dtformats/utmp.py
index 311b1ca..ffe54c1 100644
--- a/dtformats/utmp.py
+++ b/dtformats/utmp.py
@@ -40,17 +40,17 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
         self._DebugPrintValue("PID", f"{entry.pid:d}")
 
         value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
         value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Username", value_string)
 
         value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintValue("Termination status", f"0x{entry.termination_status:04x}")
@@ -150,13 +150,13 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
           entry (macosx_utmpx_entry): entry.
         """
         value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Username", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
         value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("PID", f"{entry.pid:d}")
@@ -173,7 +173,7 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
         value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintData("Unknown2", entry.unknown2)
-- 
2.43.0


From ab3b4ab41e2a07d1215402efb572a036f1727f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:26 +0000
Subject: [PATCH 012/175] fix: print the IP address of a utmp entry instead of
 a tuple

---
 dtformats/utmp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dtformats/utmp.py b/dtformats/utmp.py
index ffe54c1..5005d61 100644
--- a/dtformats/utmp.py
+++ b/dtformats/utmp.py
@@ -64,11 +64,13 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
         if entry.ip_address[4:] == self._EMPTY_IP_ADDRESS[4:]:
-            value_string = self._FormatArrayOfIntegersAsIPv4Address(
+            value_string, _ = self._FormatArrayOfIntegersAsIPv4Address(
                 entry.ip_address[:4]
             )
         else:
-            value_string = self._FormatArrayOfIntegersAsIPv6Address(entry.ip_address)
+            value_string, _ = self._FormatArrayOfIntegersAsIPv6Address(
+                entry.ip_address
+            )
 
         self._DebugPrintValue("IP address", value_string)
 
-- 
2.43.0


From d5ac8d9c07b363689a1fc74a0f8dedbf0c116437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:26 +0000
Subject: [PATCH 013/175] fix: read the header token of a BSM record once

---
 dtformats/bsm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index ce1e2f1..a985514 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -924,6 +924,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
         header_record_size = token.record_size
         record_end_offset = file_offset + header_record_size
+        file_offset = file_object.tell()
         while file_offset < record_end_offset:
             token = self._ReadToken(file_object, file_offset)
 
-- 
2.43.0


From fb2b77427393d4f6c0b0bd2138758c4f9007509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:26 +0000
Subject: [PATCH 014/175] fix: raise ParseError on a BSM record without a
 trailer token

---
 dtformats/bsm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index a985514..900be09 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -936,6 +936,9 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
             if token.token_type == self._TRAILER_TOKEN_TYPE:
                 break
 
+        if token.token_type != self._TRAILER_TOKEN_TYPE:
+            raise errors.ParseError("Missing trailer token.")
+
         if token.record_size != header_record_size:
             raise errors.ParseError(
                 "Mismatch of event record size between header and trailer token."
-- 
2.43.0


From 85c5ecad5160040f00e6cb1857ea5980d77a580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:26 +0000
Subject: [PATCH 015/175] fix: read BSM tokens without debug information in
 debug output

---
 dtformats/bsm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index 900be09..d93d532 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -783,6 +783,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         0x3C: "token exec_args",
         0x3D: "token exec_env",
         0x3E: "token attr32",
+        0x52: "token exit",
         0x60: "token zonename",
         0x71: "token arg64",
         0x72: "token return64",
@@ -959,7 +960,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
           ParseError: if the record cannot be read.
         """
         token_type = self._ReadTokenType(file_object, file_offset)
-        description = self._DESCRIPTION_PER_TOKEN_TYPE.get(token_type, "")
+        description = self._DESCRIPTION_PER_TOKEN_TYPE.get(token_type, "token")
 
         data_type_map = self._GetDataTypeMap("bsm_token")
 
@@ -972,7 +973,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         if self._debug:
             debug_info_name = self._DEBUG_INFO_NAME.get(token.token_type)
             debug_info = self._DEBUG_INFORMATION.get(debug_info_name)
-            self._DebugPrintStructureObject(token, debug_info)
+            if debug_info:
+                self._DebugPrintStructureObject(token, debug_info)
 
         return token
 
-- 
2.43.0


From f51d57e4daa50b3085c858b6c3e1f56b589bb6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:26 +0000
Subject: [PATCH 016/175] fix: print systemd journal entry items instead of
 tuples

---
 dtformats/systemd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index 040f9d1..800a7a0 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -84,13 +84,13 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, entry_item in enumerate(entry_items):
-            value_string = self._FormatIntegerAsHexadecimal8(entry_item.object_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_item.object_offset)
             line = self._FormatValue(
                 f"    Entry item: {index:d} object offset", value_string
             )
             lines.append(line)
 
-            value_string = self._FormatIntegerAsHexadecimal8(entry_item.hash)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_item.hash)
             line = self._FormatValue(f"    Entry item: {index:d} hash", value_string)
             lines.append(line)
 
@@ -107,7 +107,7 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, entry_object_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(entry_object_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_object_offset)
             line = self._FormatValue(
                 f"    Entry object offset: {index:d}", value_string
             )
-- 
2.43.0


From 0e26e9cc7f6c0f44df81fa4b2cf252c667b7552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:26 +0000
Subject: [PATCH 017/175] fix: print the data size of systemd journal objects

---
 dtformats/systemd.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/systemd.debug.yaml b/dtformats/systemd.debug.yaml
index 6e09977..9a3c187 100644
--- a/dtformats/systemd.debug.yaml
+++ b/dtformats/systemd.debug.yaml
@@ -137,6 +137,6 @@ attributes:
 - name: reserved1
   description: "Reserved"
   format: binary_data
-- name: data_sizes
+- name: data_size
   description: "Data size"
   format: decimal
-- 
2.43.0


From c7f56786f62568612e055cb63bdd4fe5aa88a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:56 +0000
Subject: [PATCH 018/175] fix: reject unsupported BSM net types also without
 debug output

---
 dtformats/bsm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index d93d532..2bfd507 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -970,6 +970,10 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         if not token:
             raise errors.ParseError(f"Unsupported token type: {token_type:d}")
 
+        net_type = getattr(token, "net_type", None)
+        if net_type not in (None, 4, 16):
+            raise errors.ParseError(f"Unsupported net type: {net_type:d}")
+
         if self._debug:
             debug_info_name = self._DEBUG_INFO_NAME.get(token.token_type)
             debug_info = self._DEBUG_INFORMATION.get(debug_info_name)
-- 
2.43.0


From 1e38a3841f8c4974a0783f6cc7dfb852e2dddd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:56 +0000
Subject: [PATCH 019/175] fix: determine the size of a structure read from a
 file from the mapped data

---
 dtformats/data_format.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 0646983..fb6c9ad 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -718,6 +718,12 @@ class BinaryDataFormat:
                 structure_values_object = data_type_map.MapByteStream(
                     data, context=context
                 )
+                # Note that the size hint can exceed the size of the structure.
+                if context.byte_size < data_size:
+                    data_size = context.byte_size
+                    data = data[:data_size]
+                    file_object.seek(file_offset + data_size, os.SEEK_SET)
+
                 if self._debug:
                     first_letter = description[0].upper()
                     self._DebugPrintData(
-- 
2.43.0


From 19eaba156dd354511e373d6fe76e47b2db04879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:59 +0000
Subject: [PATCH 020/175] fix: read the file header of the 64-bit time zone
 information

The header at the start of the file was read again, so that the 64-bit
data was read from the offset of the 32-bit data.
---
 dtformats/tzif.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 9532327..d699d6d 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -96,11 +96,13 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
 
         self._DebugPrintText("\n")
 
-    def _ReadFileHeader(self, file_object):
+    def _ReadFileHeader(self, file_object, file_offset=0):
         """Reads a file header.
 
         Args:
           file_object (file): file-like object.
+          file_offset (Optional[int]): offset of the file header relative to
+              the start of the file.
 
         Returns:
           tzif_file_header: a file header.
@@ -111,7 +113,7 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         data_type_map = self._GetDataTypeMap("tzif_file_header")
 
         file_header, _ = self._ReadStructureFromFileObject(
-            file_object, 0, data_type_map, "file header"
+            file_object, file_offset, data_type_map, "file header"
         )
 
         if self._debug:
@@ -282,7 +284,8 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the 64-bit time zone information cannot be read.
         """
-        file_header = self._ReadFileHeader(file_object)
+        file_offset = file_object.tell()
+        file_header = self._ReadFileHeader(file_object, file_offset=file_offset)
 
         self._ReadTransitionTimes64bit(file_object, file_header)
         self._ReadTransitionTimeIndex(file_object, file_header)
-- 
2.43.0


From 9bd8b51dd758b3f31c33f631afbc4f73993c63b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:59 +0000
Subject: [PATCH 021/175] fix: read 64-bit leap second records of a time zone
 information file

---
 dtformats/tzif.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index d699d6d..89471e0 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -129,18 +129,19 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
 
         return file_header
 
-    def _ReadLeapSecondRecords(self, file_object, file_header):
+    def _ReadLeapSecondRecords(self, file_object, file_header, record_size):
         """Reads the lead second records.
 
         Args:
           file_object (file): file-like object.
           file_header (tzif_file_header): file header.
+          record_size (int): size of a leap second record.
 
         Raises:
           ParseError: if the leap second records cannot be read.
         """
         file_offset = file_object.tell()
-        data_size = 8 * file_header.number_of_leap_seconds
+        data_size = record_size * file_header.number_of_leap_seconds
 
         data = self._ReadData(
             file_object, file_offset, data_size, "leap second records"
@@ -271,7 +272,7 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         self._ReadTransitionTimeIndex(file_object, file_header)
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
-        self._ReadLeapSecondRecords(file_object, file_header)
+        self._ReadLeapSecondRecords(file_object, file_header, 8)
         self._ReadStandardTimeIndicators(file_object, file_header)
         self._ReadUTCTimeIndicators(file_object, file_header)
 
@@ -291,7 +292,7 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         self._ReadTransitionTimeIndex(file_object, file_header)
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
-        self._ReadLeapSecondRecords(file_object, file_header)
+        self._ReadLeapSecondRecords(file_object, file_header, 12)
         self._ReadStandardTimeIndicators(file_object, file_header)
         self._ReadUTCTimeIndicators(file_object, file_header)
 
-- 
2.43.0


From e7d9af7357e7bfcb297b02abe7eadcc4dde2909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:59 +0000
Subject: [PATCH 022/175] fix: read time zone information without transition
 times

---
 dtformats/tzif.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 89471e0..3348430 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -201,6 +201,9 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the transition time index cannot be read.
         """
+        if not file_header.number_of_transition_times:
+            return
+
         file_offset = file_object.tell()
         data_type_map = self._GetDataTypeMap("tzif_transition_time_index")
 
@@ -306,6 +309,9 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the 32-bit transition times cannot be read.
         """
+        if not file_header.number_of_transition_times:
+            return
+
         file_offset = file_object.tell()
         data_type_map = self._GetDataTypeMap("tzif_transition_times_32bit")
 
@@ -348,6 +354,9 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the 64-bit transition times cannot be read.
         """
+        if not file_header.number_of_transition_times:
+            return
+
         file_offset = file_object.tell()
         data_type_map = self._GetDataTypeMap("tzif_transition_times_64bit")
 
-- 
2.43.0


From 03a9f7d77b2d77023e8ad84720c5d2ddffecc982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:32 +0000
Subject: [PATCH 023/175] fix: print Safari cookie timestamps that are out of
 range in debug output

---
 dtformats/safari_cookies.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index 96fdb22..cc873c9 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -53,20 +53,32 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Value offset", f"{record_header.value_offset:d}")
         self._DebugPrintValue("Unknown3", f"0x{record_header.unknown3:08x}")
 
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.expiration_time)
-        )
-        self._DebugPrintValue(
-            "Expiration time", f"{date_time!s} ({record_header.expiration_time:f})"
-        )
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.creation_time)
-        )
-        self._DebugPrintValue(
-            "Creation time", f"{date_time!s} ({record_header.creation_time:f})"
-        )
+        value_string = self._FormatCocoaTime(record_header.expiration_time)
+        self._DebugPrintValue("Expiration time", value_string)
+
+        value_string = self._FormatCocoaTime(record_header.creation_time)
+        self._DebugPrintValue("Creation time", value_string)
+
         self._DebugPrintText("\n")
 
+    def _FormatCocoaTime(self, timestamp):
+        """Formats a Cocoa timestamp.
+
+        Args:
+          timestamp (float): Cocoa timestamp.
+
+        Returns:
+          str: formatted timestamp.
+        """
+        try:
+            date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
+                seconds=int(timestamp)
+            )
+        except (OverflowError, ValueError):
+            return f"{timestamp:f}"
+
+        return f"{date_time!s} ({timestamp:f})"
+
     def _ReadCString(self, page_data, string_offset):
         """Reads a string from the page data.
 
-- 
2.43.0


From a73b23be21e5f9dbc0a1deaf8c3bd6f934c50699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:17 +0000
Subject: [PATCH 024/175] fix: read a Safari cookies file without pages

---
 dtformats/safari_cookies.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index cc873c9..a1a9668 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -142,6 +142,11 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintFileHeader(file_header)
 
+        self._page_sizes = []
+
+        if file_header.number_of_pages == 0:
+            return
+
         file_offset = file_header_data_size
 
         # TODO: move page sizes array into file header, this will require dtFabric
@@ -173,16 +178,14 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
                 f"error: {exception!s}"
             )
 
-        self._page_sizes = []
-        if file_header.number_of_pages > 0:
-            for index, page_size in enumerate(page_sizes_array):
-                self._page_sizes.append(page_size)
-
-                if self._debug:
-                    self._DebugPrintValue(f"Page: {index:d} size", f"{page_size:d}")
+        for index, page_size in enumerate(page_sizes_array):
+            self._page_sizes.append(page_size)
 
             if self._debug:
-                self._DebugPrintText("\n")
+                self._DebugPrintValue(f"Page: {index:d} size", f"{page_size:d}")
+
+        if self._debug:
+            self._DebugPrintText("\n")
 
     def _ReadPage(self, file_object, file_offset, page_size):
         """Reads a page.
-- 
2.43.0


From b901c6854c1a62b9b286b9cfb87c31ea322c9c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:17 +0000
Subject: [PATCH 025/175] fix: print keychain offsets and identifiers instead
 of tuples

---
 dtformats/keychain.debug.yaml |  2 +-
 dtformats/keychain.py         | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/dtformats/keychain.debug.yaml b/dtformats/keychain.debug.yaml
index 46658ea..947eef5 100644
--- a/dtformats/keychain.debug.yaml
+++ b/dtformats/keychain.debug.yaml
@@ -65,7 +65,7 @@ attributes:
 - name: number_of_records
   description: "Number of records"
   format: decimal
-- name: record_array_offset
+- name: records_array_offset
   description: "Record array offset"
   format: hexadecimal_8digits
 - name: unknown1
diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 4ccfadf..a87ccad 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -140,7 +140,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, record_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(record_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(record_offset)
             line = self._FormatValue(f"Record offset: {index:d}", value_string)
             lines.append(line)
 
@@ -158,7 +158,8 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if integer is None:
             return "NULL"
 
-        return self._FormatIntegerAsHexadecimal8(integer)
+        value_string, _ = self._FormatIntegerAsHexadecimal8(integer)
+        return value_string
 
     def _FormatIntegerAsRecordType(self, integer):
         """Formats an integer as a record type.
@@ -183,7 +184,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, table_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(table_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(table_offset)
             line = self._FormatValue(f"Table offset: {index:d}", value_string)
             lines.append(line)
 
@@ -525,7 +526,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for index, attribute_value_offset in enumerate(attribute_value_offsets):
-                value_string = self._FormatIntegerAsHexadecimal8(attribute_value_offset)
+                value_string, _ = self._FormatIntegerAsHexadecimal8(
+                    attribute_value_offset
+                )
                 self._DebugPrintValue(
                     f"Attribute value offset: {index:d}", value_string
                 )
-- 
2.43.0


From 4c1a4ff2d8581d1c9d53c1a62b921083c74d8741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:17 +0000
Subject: [PATCH 026/175] fix: read keychain SINT32 attribute values as signed
 integers

---
 dtformats/keychain.py   | 42 +++++++++++++++++++++++++++++++++++++++--
 dtformats/keychain.yaml |  8 ++++++++
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index a87ccad..4981a1a 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -104,7 +104,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
     _ATTRIBUTE_DATA_READ_FUNCTIONS = {
         0: "_ReadAttributeValueString",
-        1: "_ReadAttributeValueInteger",
+        1: "_ReadAttributeValueSignedInteger",
         2: "_ReadAttributeValueInteger",
         5: "_ReadAttributeValueDateTime",
         6: "_ReadAttributeValueBinaryData",
@@ -285,6 +285,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         attribute_values_data_offset,
         attribute_value_offset,
         description,
+        data_type_map_name="uint32be",
     ):
         """Reads an integer attribute value.
 
@@ -297,6 +298,8 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
           attribute_value_offset (int): offset of the attribute relative to
               the start of the record.
           description (str): description of the attribute value.
+          data_type_map_name (Optional[str]): name of the data type map of
+              the integer.
 
         Returns:
           int: integer value or None if attribute value offset is not set.
@@ -307,7 +310,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if attribute_value_offset == 0:
             return None
 
-        data_type_map = self._GetDataTypeMap("uint32be")
+        data_type_map = self._GetDataTypeMap(data_type_map_name)
 
         file_offset = (
             record_offset + attribute_values_data_offset + attribute_value_offset
@@ -320,6 +323,41 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             attribute_value_data, file_offset, data_type_map, description
         )
 
+    def _ReadAttributeValueSignedInteger(
+        self,
+        attribute_values_data,
+        record_offset,
+        attribute_values_data_offset,
+        attribute_value_offset,
+        description,
+    ):
+        """Reads a signed integer attribute value.
+
+        Args:
+          attribute_values_data (bytes): attribute values data.
+          record_offset (int): offset of the record relative to the start of
+              the file.
+          attribute_values_data_offset (int): offset of the attribute values data
+              relative to the start of the record.
+          attribute_value_offset (int): offset of the attribute relative to
+              the start of the record.
+          description (str): description of the attribute value.
+
+        Returns:
+          int: integer value or None if attribute value offset is not set.
+
+        Raises:
+          ParseError: if the attribute value cannot be read.
+        """
+        return self._ReadAttributeValueInteger(
+            attribute_values_data,
+            record_offset,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+            data_type_map_name="int32be",
+        )
+
     def _ReadAttributeValueString(
         self,
         attribute_values_data,
diff --git a/dtformats/keychain.yaml b/dtformats/keychain.yaml
index 7fe9ad6..5bddb61 100644
--- a/dtformats/keychain.yaml
+++ b/dtformats/keychain.yaml
@@ -33,6 +33,14 @@ attributes:
   size: 4
   units: bytes
 ---
+name: int32be
+type: integer
+attributes:
+  byte_order: big-endian
+  format: signed
+  size: 4
+  units: bytes
+---
 name: uint32be
 type: integer
 attributes:
-- 
2.43.0


From 2d010883acdde0deb7df420010296f3b7063d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 027/175] fix: raise ParseError on keychain attribute values
 that are out of bounds

An offset before the attribute values data was used as a negative index
and yielded the value of another attribute. Also check the size of the data
that was read and that names can be decoded.
---
 dtformats/keychain.py | 122 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 104 insertions(+), 18 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 4981a1a..82a3a7f 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -129,6 +129,25 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         return self._tables.values()
 
+    def _DecodeName(self, data):
+        """Decodes a name.
+
+        Args:
+          data (bytes): name data.
+
+        Returns:
+          str: name.
+
+        Raises:
+          ParseError: if the name cannot be decoded.
+        """
+        try:
+            return data.decode("ascii")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode name with error: {exception!s}"
+            )
+
     def _FormatRecordOffsets(self, array_of_integers):
         """Formats the record offsets.
 
@@ -190,6 +209,38 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         return "".join(lines)
 
+    def _GetAttributeValueData(
+        self,
+        attribute_values_data,
+        attribute_values_data_offset,
+        attribute_value_offset,
+        description,
+    ):
+        """Retrieves the data of an attribute value.
+
+        Args:
+          attribute_values_data (bytes): attribute values data.
+          attribute_values_data_offset (int): offset of the attribute values data
+              relative to the start of the record.
+          attribute_value_offset (int): offset of the attribute relative to
+              the start of the record.
+          description (str): description of the attribute value.
+
+        Returns:
+          bytes: attribute values data starting at the attribute value.
+
+        Raises:
+          ParseError: if the attribute value offset is out of bounds.
+        """
+        data_offset = attribute_value_offset - attribute_values_data_offset - 1
+        if not 0 <= data_offset < len(attribute_values_data):
+            raise errors.ParseError(
+                f"Invalid attribute value: {description!s} offset: "
+                f"0x{attribute_value_offset:08x} value out of bounds"
+            )
+
+        return attribute_values_data[data_offset:]
+
     def _ReadAttributeValueBinaryData(
         self,
         attribute_values_data,
@@ -225,8 +276,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         string_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -269,8 +324,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         date_time_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -316,8 +375,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         return self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -393,8 +456,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         string_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -458,7 +525,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             record_data_offset = file_offset - record_offset
             record_data_size = record_header.data_size
-            record_data = file_object.read(record_data_size - record_data_offset)
+            record_data = self._ReadData(
+                file_object,
+                file_offset,
+                record_data_size - record_data_offset,
+                "record",
+            )
 
             if self._debug:
                 if record_header.key_data_size > 0:
@@ -543,7 +615,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         offsets_data_size = number_of_attribute_values * 4
 
-        offsets_data = file_object.read(offsets_data_size)
+        offsets_data = self._ReadData(
+            file_object,
+            file_offset,
+            offsets_data_size,
+            "record attribute value offsets",
+        )
 
         if self._debug:
             self._DebugPrintData("Attribute value offsets data", offsets_data)
@@ -624,7 +701,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         attribute_values_data_size = record_header.data_size - (
             file_offset - record_offset
         )
-        attribute_values_data = file_object.read(attribute_values_data_size)
+        attribute_values_data = self._ReadData(
+            file_object,
+            file_offset,
+            attribute_values_data_size,
+            "attribute values",
+        )
 
         if self._debug:
             self._DebugPrintData("Attribute values data", attribute_values_data)
@@ -713,6 +795,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintText("\n")
 
+        if relation_identifier is None:
+            raise errors.ParseError("Missing relation identifier")
+
         table = tables.get(relation_identifier)
         if not table:
             raise errors.ParseError(
@@ -721,12 +806,13 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         # TODO: map attribute identifier to module specific names?
         if attribute_name is None and attribute_value_offsets[1] != 0:
-            attribute_value_offset = attribute_value_offsets[1]
-            attribute_value_offset -= attribute_values_data_offset + 1
-            attribute_name = attribute_values_data[
-                attribute_value_offset : attribute_value_offset + 4
-            ]
-            attribute_name = attribute_name.decode("ascii")
+            attribute_name = self._GetAttributeValueData(
+                attribute_values_data,
+                attribute_values_data_offset,
+                attribute_value_offsets[1],
+                "attribute identifier",
+            )
+            attribute_name = self._DecodeName(attribute_name[:4])
 
         column = KeychainDatabaseColumn()
         column.attribute_data_type = attribute_data_type
@@ -845,7 +931,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "schema information record values"
         )
 
-        relation_name = record_values.relation_name.decode("ascii")
+        relation_name = self._DecodeName(record_values.relation_name)
 
         if self._debug:
             self._DebugPrintValue(
-- 
2.43.0


From 95d588e48b7e4775c896c369c6e4e77d46449542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 028/175] fix: print keychain attribute values in any order in
 debug output

---
 dtformats/keychain.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 82a3a7f..6402d1c 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -548,7 +548,6 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                     if offset > record_data_offset
                 ]
                 data_offsets.append(record_data_size - record_data_offset)
-                data_offsets.pop(0)
 
             for index, column in enumerate(table.columns):
                 if self._debug:
@@ -559,13 +558,14 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                         attribute_value_offset = (
                             attribute_value_offsets[index] - record_data_offset - 1
                         )
-                        attribute_value_end_offset = data_offsets[0]
-                        while attribute_value_end_offset <= attribute_value_offset:
-                            data_offsets.pop(0)
-                            attribute_value_end_offset = data_offsets[0]
+                        attribute_value_end_offset = attribute_value_offset
+                        for data_offset in data_offsets:
+                            if data_offset > attribute_value_offset:
+                                attribute_value_end_offset = data_offset
+                                break
 
                     description = (
-                        f"Attribute value: {index:d} ({column.attribute_name:s}) data"
+                        f"Attribute value: {index:d} ({column.attribute_name!s}) data"
                     )
 
                     self._DebugPrintData(
-- 
2.43.0


From 909d5f46db92e82482741bb5804e0b05546a12ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:48 +0000
Subject: [PATCH 029/175] fix: raise ParseError when reading data with an
 invalid offset or size

A negative size read everything until the end of the file and an offset or
size that the file does not support raised OverflowError or ValueError.
---
 dtformats/data_format.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index fb6c9ad..5c52a20 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -607,11 +607,13 @@ class BinaryDataFormat:
         if not file_object:
             raise ValueError("Missing file-like object.")
 
-        file_object.seek(file_offset, os.SEEK_SET)
-
         read_error = ""
 
         try:
+            if data_size < 0:
+                raise ValueError(f"invalid data size: {data_size:d}")
+
+            file_object.seek(file_offset, os.SEEK_SET)
             data = file_object.read(data_size)
             read_count = len(data)
 
@@ -620,8 +622,8 @@ class BinaryDataFormat:
                     f"missing data (read: {read_count:d}, requested: {data_size:d})"
                 )
 
-        except OSError as exception:
-            read_error = f"{exception!s}"
+        except (MemoryError, OSError, OverflowError, ValueError) as exception:
+            read_error = f"{exception!s}" or "out of memory"
 
         if read_error:
             raise errors.ParseError(
-- 
2.43.0


From 307c21c92a7db7706631dcee913646a5cb63621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:58 +0000
Subject: [PATCH 030/175] fix: raise ParseError when mapping an empty byte
 stream

---
 dtformats/data_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 5c52a20..97c406c 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -653,7 +653,7 @@ class BinaryDataFormat:
           ParseError: if the structure cannot be read.
           ValueError: if file-like object or data type map is missing.
         """
-        if not byte_stream:
+        if byte_stream is None:
             raise ValueError("Missing byte stream.")
 
         if not data_type_map:
-- 
2.43.0


From 6160af8c2de94cd7b5f630f065a6b8b33520389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:32 +0000
Subject: [PATCH 031/175] fix: raise ParseError when data is too small to be
 mapped

---
 dtformats/chrome_cache.py      |  5 ++-
 dtformats/leveldb.py           |  5 ++-
 dtformats/spotlight_storedb.py | 60 +++++++++++++++++++++++++++-------
 dtformats/wemf.py              | 10 ++++--
 dtformats/wmi_repository.py    |  5 ++-
 5 files changed, 68 insertions(+), 17 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 5855419..3384cea 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -775,7 +775,10 @@ class ChromeCacheParser:
 
             try:
                 signature = self._UINT32LE.MapByteStream(signature_data)
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to signature with error: {exception!s}"
                 )
diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 4ba5e17..658cbd3 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -692,7 +692,10 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
                 table_data[table_data_end_offset:], context=context
             )
 
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 (
                     f"Unable to parse array of 32-bit restart values with error: "
diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 657103e..cc423d3 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -361,7 +361,10 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
         try:
             offsets_array = data_type_map.MapByteStream(data, context=context)
 
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit offsets with error: {exception!s}"
             )
@@ -595,7 +598,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             lz4_block_header = data_type_map.MapByteStream(compressed_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to map LZ4 block header at offset: 0x{file_offset:08x} "
                 f"with error: {exception!s}"
@@ -764,7 +770,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:]
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -787,7 +796,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     page_data[page_data_offset + page_value_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 page_data_offset += page_value_size
                 raise errors.ParseError(
                     f"Unable to parse index data at offset: 0x{page_data_offset:08x} "
@@ -880,7 +892,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     stream_value[data_offset + padding_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -1111,7 +1126,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of byte values with error: {exception!s}"
             )
@@ -1156,7 +1174,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit floating-point values with error: "
                 f"{exception!s}"
@@ -1202,7 +1223,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 64-bit floating-point values with error: "
                 f"{exception!s}"
@@ -1259,7 +1283,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -1376,7 +1403,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
             try:
                 property_value = data_type_map.MapByteStream(stream_value[data_offset:])
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -1417,7 +1447,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of string values with error: {exception!s}"
             )
@@ -1676,7 +1709,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(data, context=context)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to map record at offset: 0x{page_data_offset:08x} with "
                 f"error: {exception!s}"
diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 726ff64..53ef07e 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -190,7 +190,10 @@ class EMFFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse record data with error: {exception!s}"
             )
@@ -743,7 +746,10 @@ class WMFFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse record data with error: {exception!s}"
             )
diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 576b057..9ea06d5 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -589,7 +589,10 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
                 value_string = self._STRING.MapByteStream(
                     value_data[page_value_offset:]
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to parse page value: {index:d} string with error: "
                     f"{exception!s}"
-- 
2.43.0


From 96be8a65b5591a2c27d5302cbf0437a780c5d350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:54 +0000
Subject: [PATCH 032/175] fix: read the last attributes of a Spotlight store
 record

The size value of the record was counted as part of the record data, so that
attributes in the last 4 bytes were not read.
---
 dtformats/spotlight_storedb.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index cc423d3..86e56c1 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1634,9 +1634,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         record_header, bytes_read = self._ReadRecordHeader(
             page_data[page_data_offset:], page_data_offset
         )
-        page_data_offset += bytes_read
-        record_data_offset = bytes_read
+        # Note that the record data size does not include the size value itself.
+        record_data_end_offset = page_data_offset + 4 + record_header.data_size
 
+        page_data_offset += bytes_read
         metadata_item = SpotlightStoreMetadataItem()
         metadata_item.identifier = record_header.identifier
         metadata_item.item_identifier = record_header.item_identifier
@@ -1646,9 +1647,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         metadata_attribute_index = 0
         metadata_type_index = 0
 
-        record_data_end_offset = page_data_offset + record_header.data_size
-
-        while record_data_offset < record_header.data_size:
+        while page_data_offset < record_data_end_offset:
             relative_metadata_type_index, bytes_read = self._ReadVariableSizeInteger(
                 page_data[page_data_offset:record_data_end_offset]
             )
@@ -1659,8 +1658,6 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 )
 
             page_data_offset += bytes_read
-            record_data_offset += bytes_read
-
             metadata_type_index += relative_metadata_type_index
 
             if self._debug:
@@ -1681,8 +1678,6 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
             page_data_offset += bytes_read
-            record_data_offset += bytes_read
-
             metadata_item.attributes[metadata_attribute.key] = metadata_attribute
             metadata_attribute_index += 1
 
-- 
2.43.0


From e5676c6d5f553b88aae9017d5d7e668475a00ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:54 +0000
Subject: [PATCH 033/175] fix: read arrays of variable size integers of a
 Spotlight store record

The data size was read as the first integer of the array.
---
 dtformats/spotlight_storedb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 86e56c1..9ac54cd 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1487,10 +1487,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         array_of_values = []
 
-        data_offset = 0
-        while data_offset < data_size:
+        data_offset = bytes_read
+        data_end_offset = bytes_read + data_size
+        while data_offset < data_end_offset:
             integer_value, integer_value_size = self._ReadVariableSizeInteger(
-                data[data_offset:data_size]
+                data[data_offset:data_end_offset]
             )
             data_offset += integer_value_size
 
-- 
2.43.0


From f211e83b80dc9ca2f2a841f9727bf18d25f1f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:54 +0000
Subject: [PATCH 034/175] fix: read a Spotlight store without records in debug
 output

---
 dtformats/spotlight_storedb.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 9ac54cd..579ac42 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -2060,8 +2060,5 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for record_identifier in sorted(self._record_descriptors.keys()):
-                metadata_item = self._GetMetadataItemByIdentifier(
-                    file_object, record_identifier
-                )
-            # TODO: do something with metadata_item or remove.
-            _ = metadata_item
+                # TODO: do something with metadata_item or remove.
+                _ = self._GetMetadataItemByIdentifier(file_object, record_identifier)
-- 
2.43.0


From 0c0a52d20e2a9d9778eb8d997dec841382e91ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:54 +0000
Subject: [PATCH 035/175] fix: do not keep the records of a previously read
 Spotlight store

---
 dtformats/spotlight_storedb.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 579ac42..8e0ceae 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -2002,6 +2002,14 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._map_values = []
+        self._metadata_lists = {}
+        self._metadata_localized_strings = {}
+        self._metadata_types = {}
+        self._metadata_values = {}
+        self._record_descriptors = {}
+        self._record_pages_cache = {}
+
         file_header = self._ReadFileHeader(file_object)
 
         self._ReadMapPages(file_object, file_header.map_offset, file_header.map_size)
-- 
2.43.0


From f120bd5336cf552a14b982d98512c79606a4d812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 036/175] fix: raise ParseError on truncated Spotlight store
 integers

---
 dtformats/spotlight_storedb.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 8e0ceae..b5dc13f 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -175,9 +175,11 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
         Returns:
           tuple[int, int]: integer value and number of bytes read.
         """
+        if not data:
+            raise errors.ParseError("Missing variable size integer data")
+
         byte_value = data[0]
         bytes_read = 1
-
         number_of_additional_bytes = 0
         for bitmask in (0x80, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC, 0xFE, 0xFF):
             if byte_value & bitmask != bitmask:
@@ -189,6 +191,9 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
         elif number_of_additional_bytes > 0:
             byte_value &= bitmask ^ 0xFF
 
+        if number_of_additional_bytes >= len(data):
+            raise errors.ParseError("Variable size integer data too small")
+
         integer_value = int(byte_value)
         while number_of_additional_bytes > 0:
             integer_value <<= 8
@@ -1720,10 +1725,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         data_offset += bytes_read
 
-        flags = data[data_offset]
+        if data_offset >= len(data):
+            raise errors.ParseError(
+                f"Unable to read record flags at offset: 0x{page_data_offset:08x}"
+            )
 
+        flags = data[data_offset]
         data_offset += 1
-
         value_names = ["item_identifier", "parent_identifier", "last_update_time"]
         values, bytes_read = self._ReadVariableSizeIntegers(
             data[data_offset:], value_names
@@ -1932,9 +1940,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Returns:
           tuple[int, int]: integer value and number of bytes read.
         """
+        if not data:
+            raise errors.ParseError("Missing variable size integer data")
+
         byte_value = data[0]
         bytes_read = 1
-
         number_of_additional_bytes = 0
         for bitmask in (0x80, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC, 0xFE, 0xFF):
             if byte_value & bitmask != bitmask:
@@ -1946,6 +1956,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         elif number_of_additional_bytes > 0:
             byte_value &= bitmask ^ 0xFF
 
+        if number_of_additional_bytes >= len(data):
+            raise errors.ParseError("Variable size integer data too small")
+
         integer_value = int(byte_value)
         while number_of_additional_bytes > 0:
             integer_value <<= 8
-- 
2.43.0


From d0637247761b2a089568070700d428426797aa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 037/175] fix: raise ParseError on a Spotlight store attribute
 of an undefined type

---
 dtformats/spotlight_storedb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index b5dc13f..cd7baa9 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1684,6 +1684,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
             page_data_offset += bytes_read
+            if not metadata_attribute:
+                raise errors.ParseError(
+                    f"Missing metadata attribute type: {metadata_type_index:d}"
+                )
+
             metadata_item.attributes[metadata_attribute.key] = metadata_attribute
             metadata_attribute_index += 1
 
-- 
2.43.0


From 89a10832439f866142ab8d722b8fe9f855eea00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 038/175] fix: raise ParseError on corrupt compressed Spotlight
 store pages

---
 dtformats/spotlight_storedb.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index cd7baa9..7731405 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -621,12 +621,22 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
 
-            uncompressed_data = lz4.block.decompress(
-                compressed_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-                dict=previous_uncompressed_data,
-            )
-
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    compressed_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                    dict=previous_uncompressed_data,
+                )
+            except (
+                MemoryError,
+                OverflowError,
+                ValueError,
+                lz4.block.LZ4BlockError,
+            ) as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress LZ4 block at offset: 0x{file_offset:08x} "
+                    f"with error: {exception!s}"
+                )
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
             uncompressed_data = compressed_data[8:end_of_data_offset]
@@ -1797,9 +1807,14 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                     compressed_page_data, file_offset
                 )
 
-            elif compressed_page_data[0] == 0x78:
-                page_data = zlib.decompress(compressed_page_data)
-
+            elif compressed_page_data[0:1] == b"\x78":
+                try:
+                    page_data = zlib.decompress(compressed_page_data)
+                except zlib.error as exception:
+                    raise errors.ParseError(
+                        f"Unable to decompress page data at offset: "
+                        f"0x{file_offset:08x} with error: {exception!s}"
+                    )
             # TODO: add support for other compression types.
             else:
                 if self._debug:
-- 
2.43.0


From 9816d5fc411b2c0979d5ad66a1eff511673a5a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 039/175] fix: raise ParseError on Spotlight store page sizes
 and links that never end

---
 dtformats/spotlight_storedb.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 7731405..9fbcc1f 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -971,8 +971,12 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
             self._DebugPrintStructureObject(page_header, debug_info)
 
-        file_offset += page_header_size
+        if page_header.page_size < page_header_size:
+            raise errors.ParseError(
+                f"Unsupported map page size: {page_header.page_size:d}"
+            )
 
+        file_offset += page_header_size
         self._ReadMapPageValues(page_header, file_object, file_offset)
 
         if self._debug:
@@ -1593,6 +1597,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         page_header, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "property page header"
         )
+
+        if page_header.page_size < bytes_read:
+            raise errors.ParseError(
+                f"Unsupported property page size: {page_header.page_size:d}"
+            )
         if self._debug:
             block_number = file_offset // 0x1000
             self._DebugPrintDecimalValue("Block number", block_number)
@@ -1622,7 +1631,15 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
           ParseError: if the property pages cannot be read.
         """
         file_offset = block_number * 0x1000
+        file_offsets = set()
         while file_offset != 0:
+            if file_offset in file_offsets:
+                raise errors.ParseError(
+                    f"Property page at offset: 0x{file_offset:08x} already read"
+                )
+
+            file_offsets.add(file_offset)
+
             _, next_block_number = self._ReadPropertyPage(
                 file_object, file_offset, property_table
             )
-- 
2.43.0


From a7311ef6b94ef362919e4d5a27195b4329e5d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 040/175] fix: read a Spotlight store with an invalid map
 offset in debug output

---
 dtformats/spotlight_storedb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 9fbcc1f..e32ff4f 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -754,9 +754,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             self._DebugPrintStructureObject(file_header, debug_info)
 
         if self._debug:
-            trailing_data = file_object.read(file_header.map_offset - file_header_size)
+            trailing_data_size = max(0, file_header.map_offset - file_header_size)
+            trailing_data = file_object.read(trailing_data_size)
             self._DebugPrintData("Trailing data", trailing_data)
-
         return file_header
 
     def _ReadIndexPageValues(self, page_header, page_data, property_table):
-- 
2.43.0


From a005740088e7d4c54afb97338738694f966ec4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 041/175] fix: raise ParseError on truncated Spotlight store
 pages and streams maps

---
 dtformats/spotlight_storedb.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index e32ff4f..2ddcc20 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -214,8 +214,7 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
-        data = file_object.read(self._data_size)
-
+        data = self._ReadData(file_object, 0, self._data_size, "streams map")
         for index, value_range in enumerate(self._ranges):
             value_offset, value_size = value_range
 
@@ -356,10 +355,9 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
           ParseError: if the file cannot be read.
         """
         data_size = self._number_of_entries * 4
-        data = file_object.read(data_size)
+        data = self._ReadData(file_object, 0, data_size, "streams map offsets")
 
         data_type_map = self._GetDataTypeMap("array_of_uint32le")
-
         context = dtfabric_data_maps.DataTypeMapContext(
             values={"number_of_elements": self._number_of_entries}
         )
@@ -1549,7 +1547,12 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"0x{page_header.property_table_type:08x}"
             )
 
-        page_data = file_object.read(page_header.page_size - bytes_read)
+        page_data = self._ReadData(
+            file_object,
+            file_offset + bytes_read,
+            page_header.page_size - bytes_read,
+            "property page",
+        )
 
         data_type_map = self._GetDataTypeMap(
             "spotlight_store_db_property_values_header"
@@ -1810,7 +1813,12 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"0x{page_header.property_table_type:08x}"
             )
 
-        page_data = file_object.read(page_header.page_size - bytes_read)
+        page_data = self._ReadData(
+            file_object,
+            file_offset + bytes_read,
+            page_header.page_size - bytes_read,
+            "record page",
+        )
 
         file_offset += bytes_read
 
-- 
2.43.0


From 813c0f969015c88fd19d68ea4a17c24e1ec9906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 042/175] fix: only read the records in the used part of an
 uncompressed Spotlight page

---
 dtformats/spotlight_storedb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 2ddcc20..d0211cb 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1847,6 +1847,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
                 raise errors.ParseError("Unsupported compression type")
 
+        else:
+            page_data = page_data[: max(0, page_header.used_page_size - bytes_read)]
+
         return page_header, page_data
 
     def _ReadRecordPageValues(self, page_data, page_offset):
-- 
2.43.0


From 29714609227ed286f9651ce274362e7bd6c6cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:54 +0000
Subject: [PATCH 043/175] fix: raise ParseError on bookmark data records of an
 unsupported type

---
 dtformats/bookmark_data.py | 43 ++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/dtformats/bookmark_data.py b/dtformats/bookmark_data.py
index 464db90..41f81b9 100644
--- a/dtformats/bookmark_data.py
+++ b/dtformats/bookmark_data.py
@@ -101,6 +101,24 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
         return header
 
+    def _GetDataRecordOffsets(self, data_record):
+        """Retrieves the data record offsets of an array data record.
+
+        Args:
+          data_record (bookmark_data_record): data record.
+
+        Returns:
+          tuple[int]: data record offsets.
+
+        Raises:
+          ParseError: if the data record does not contain an array.
+        """
+        data_record_offsets = getattr(data_record, "integers", None)
+        if data_record_offsets is None:
+            raise errors.ParseError("Unsupported data record, missing integers")
+
+        return data_record_offsets
+
     def _ReadIntegersArray(self, file_object, data_area_offset, data_record_offsets):
         """Reads an integers array.
 
@@ -120,8 +138,11 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
-            integers_array.append(data_record.integer)
+            integer = getattr(data_record, "integer", None)
+            if integer is None:
+                raise errors.ParseError("Unsupported data record, missing integer")
 
+            integers_array.append(integer)
         return integers_array
 
     def _ReadStringsArray(self, file_object, data_area_offset, data_record_offsets):
@@ -143,8 +164,11 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
-            strings_array.append(data_record.string)
+            string = getattr(data_record, "string", None)
+            if string is None:
+                raise errors.ParseError("Unsupported data record, missing string")
 
+            strings_array.append(string)
         return strings_array
 
     def _ReadTableOfContents(self, file_object, file_offset):
@@ -236,7 +260,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag == 0x1004:
                 strings_array = self._ReadStringsArray(
-                    file_object, header.data_area_offset, data_record.integers
+                    file_object,
+                    header.data_area_offset,
+                    self._GetDataRecordOffsets(data_record),
                 )
 
                 if self._debug:
@@ -247,7 +273,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag == 0x1005:
                 integers_array = self._ReadIntegersArray(
-                    file_object, header.data_area_offset, data_record.integers
+                    file_object,
+                    header.data_area_offset,
+                    self._GetDataRecordOffsets(data_record),
                 )
 
                 if self._debug:
@@ -260,10 +288,13 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag in (0x1010, 0x2020):
                 data_type_map = self._GetDataTypeMap("bookmark_data_property_flags")
+                data = getattr(data_record, "data", None)
+                if data is None:
+                    raise errors.ParseError("Unsupported data record, missing data")
+
                 property_flags = self._ReadStructureFromByteStream(
-                    data_record.data, 0, data_type_map, "Property flags"
+                    data, 0, data_type_map, "Property flags"
                 )
-
                 if self._debug:
                     debug_info = self._DEBUG_INFORMATION.get(
                         "bookmark_data_property_flags", None
-- 
2.43.0


From 707dbf0be508faa1f0eb21961b82ef7a401fc183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:00 +0000
Subject: [PATCH 044/175] fix: show the values of the INFO2 file header in
 debug output

---
 dtformats/recycler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/recycler.py b/dtformats/recycler.py
index 8bb6783..4961b56 100644
--- a/dtformats/recycler.py
+++ b/dtformats/recycler.py
@@ -117,7 +117,7 @@ class RecyclerInfo2File(data_format.BinaryDataFile):
             file_object, 0, data_type_map, "file header"
         )
         if self._debug:
-            debug_info = self._DEBUG_INFORMATION.get("recycler_info2_file_entry", None)
+            debug_info = self._DEBUG_INFORMATION.get("recycler_info2_file_header", None)
             self._DebugPrintStructureObject(file_header, debug_info)
 
         if file_header.file_entry_size not in (280, 800):
-- 
2.43.0


From f2e534b8bf9532fcd3b84aad814b2119285c4109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:00 +0000
Subject: [PATCH 045/175] fix: keep the last character of the process name of a
 restore point change log entry

---
 dtformats/rp_change_log.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 00d66c4..2d67bd5 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -236,9 +236,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
             )
 
         if self._debug:
-            self._DebugPrintValue(
-                "Process name", change_log_entry_record2.process_name[:-1]
-            )
+            self._DebugPrintValue("Process name", change_log_entry_record2.process_name)
 
             self._DebugPrintText("\n")
 
@@ -249,7 +247,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
             change_log_entry_record.file_attribute_flags
         )
         change_log_entry.sequence_number = change_log_entry_record.sequence_number
-        change_log_entry.process_name = change_log_entry_record2.process_name[:-1]
+        change_log_entry.process_name = change_log_entry_record2.process_name
 
         sub_record_data_offset = context.byte_size
         sub_record_data_size = record_size - 4
-- 
2.43.0


From 7c9d9173db9a97a7263a8b910ea9c3c19ac941a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:00 +0000
Subject: [PATCH 046/175] fix: set the volume path of a restore point change
 log

---
 dtformats/rp_change_log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 2d67bd5..adff93a 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -477,6 +477,8 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
                 f"Unsupported record type: {volume_path_record.record_type:d}"
             )
 
+        self.volume_path = volume_path_record.volume_path[:-1]
+
     def ReadFileObject(self, file_object):
         """Reads a Windows Restore Point change.log file-like object.
 
-- 
2.43.0


From 89f5ff98c56f8caa098d2ebdea6dc00018e23957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:00 +0000
Subject: [PATCH 047/175] fix: only read a string from change log records that
 contain one

---
 dtformats/rp_change_log.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index adff93a..41f7fd6 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -412,17 +412,17 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
         if record_header.record_type in (4, 5, 9):
             data_type_map = self._GetDataTypeMap("utf16le_string")
 
-        try:
-            value_string = self._ReadStructureFromByteStream(
-                record_data[record_data_offset:],
-                record_data_offset,
-                data_type_map,
-                "value string",
-            )
-        except (ValueError, errors.ParseError) as exception:
-            raise errors.ParseError(
-                f"Unable to parse UTF-16 string with error: {exception!s}"
-            )
+            try:
+                value_string = self._ReadStructureFromByteStream(
+                    record_data[record_data_offset:],
+                    record_data_offset,
+                    data_type_map,
+                    "value string",
+                )
+            except (ValueError, errors.ParseError) as exception:
+                raise errors.ParseError(
+                    f"Unable to parse UTF-16 string with error: {exception!s}"
+                )
 
         # TODO: add support for other record types.
         # TODO: store record values in runtime objects.
-- 
2.43.0


From 6245daaf211d3f9810323849754322e05bc1c804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:00 +0000
Subject: [PATCH 048/175] fix: raise ParseError on a truncated change log
 record

---
 dtformats/rp_change_log.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 41f7fd6..2348afd 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -210,8 +210,10 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         # TODO: refactor to use size hints
         record_size = change_log_entry_record.record_size - data_size
-        record_data = file_object.read(record_size)
         file_offset += data_size
+        record_data = self._ReadData(
+            file_object, file_offset, record_size, "change log entry record"
+        )
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
@@ -333,7 +335,9 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         file_offset = file_header_data_size
         record_size = file_header.record_size - file_header_data_size
-        record_data = file_object.read(record_size)
+        record_data = self._ReadData(
+            file_object, file_offset, record_size, "file header record"
+        )
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
-- 
2.43.0


From f45e5c14470df3cac1b3f95259e1aa61a248efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:00 +0000
Subject: [PATCH 049/175] fix: only write restore point log data to the output
 writer in debug mode

---
 dtformats/rp_log.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dtformats/rp_log.py b/dtformats/rp_log.py
index 00cdd19..7443800 100644
--- a/dtformats/rp_log.py
+++ b/dtformats/rp_log.py
@@ -119,8 +119,11 @@ class RestorePointLogFile(data_format.BinaryDataFile):
         """
         self._ReadFileHeader(file_object)
 
-        data_size = (self._file_size - 8) - file_object.tell()
-        data = file_object.read(data_size)
-        self._DebugPrintData("Unknown1", data)
+        file_offset = file_object.tell()
+        data_size = (self._file_size - 8) - file_offset
+        data = self._ReadData(file_object, file_offset, data_size, "unknown1")
+
+        if self._debug:
+            self._DebugPrintData("Unknown1", data)
 
         self._ReadFileFooter(file_object)
-- 
2.43.0


From df546a5e630995b734dfb2ef5a74327631505407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:00 +0000
Subject: [PATCH 050/175] fix: continue reading USN records at the start of the
 next block

---
 dtformats/usn_journal.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dtformats/usn_journal.py b/dtformats/usn_journal.py
index bbd2345..fdaabfb 100644
--- a/dtformats/usn_journal.py
+++ b/dtformats/usn_journal.py
@@ -64,22 +64,23 @@ class USNRecords(data_format.BinaryDataFile):
         Raises:
           ParseError: if a record cannot be read.
         """
-        self._file_object.seek(0, os.SEEK_SET)
-
         file_offset = 0
         while file_offset < self._file_size:
-            block_size = min(4096, self._file_size)
-
-            while block_size > 60:
-                usn_record_header = self._file_object.read(60)
+            # USN records do not span blocks.
+            block_end_offset = ((file_offset // 4096) + 1) * 4096
+            block_end_offset = min(block_end_offset, self._file_size)
+
+            while block_end_offset - file_offset >= 60:
+                usn_record_header = self._ReadData(
+                    self._file_object, file_offset, 60, "USN record header"
+                )
                 if usn_record_header == self._EMPTY_USN_RECORD_HEADER:
                     break
 
-                self._file_object.seek(-60, os.SEEK_CUR)
+                self._file_object.seek(file_offset, os.SEEK_SET)
                 usn_record, data_size = self._ReadRecordV2(self._file_object)
-                yield usn_record
-
                 file_offset += data_size
-                block_size -= data_size
 
-            file_offset += block_size
+                yield usn_record
+
+            file_offset = max(file_offset, block_end_offset)
-- 
2.43.0


From 6f6ae6d9e1e434e99ce6b34e8b7dab110b588401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:00 +0000
Subject: [PATCH 051/175] fix: show the minor product version of a job file

---
 dtformats/job.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/job.py b/dtformats/job.py
index c78b96d..6af46a7 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -121,7 +121,7 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
           str: integer formatted as a product version.
         """
         major_version = (integer >> 8) & 0xFF
-        minor_version = (integer >> 8) & 0xFF
+        minor_version = integer & 0xFF
         return f"0x{integer:04x} ({major_version:d}.{minor_version:d})"
 
     def _FormatString(self, string):
-- 
2.43.0


From 69ace8f4b13338abb36f9764848def3850563a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:00 +0000
Subject: [PATCH 052/175] fix: do not change the task configuration of a
 previously read job file

---
 dtformats/job.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/job.py b/dtformats/job.py
index 6af46a7..cd1227c 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -181,6 +181,8 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._task_configuration = WindowsTaskConfiguration()
+
         data_section = self._ReadStructureObjectFromFileObject(
             file_object, 0, "job_fixed_length_data_section", "fixed-length data section"
         )
-- 
2.43.0


From 998515f71856c8c092954276f652e11b8b73cc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:00 +0000
Subject: [PATCH 053/175] fix: show the category name of a custom destinations
 file in debug output

---
 dtformats/jump_list.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/jump_list.debug.yaml b/dtformats/jump_list.debug.yaml
index 702d549..c664bce 100644
--- a/dtformats/jump_list.debug.yaml
+++ b/dtformats/jump_list.debug.yaml
@@ -14,7 +14,7 @@ attributes:
 - name: number_of_characters
   description: "Number of characters"
   format: decimal
-- name: cateogy_name
+- name: category_name
   description: "Category name"
   format: string
 - name: category_identifier
-- 
2.43.0


From 9356cd6f007a2991583b3e7c5e1629126201104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:00 +0000
Subject: [PATCH 054/175] fix: do not keep the entries of a previously read
 custom destinations file

---
 dtformats/jump_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 575ba62..9c3e4ad 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -458,8 +458,9 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
-        file_header, file_offset = self._ReadFileHeader(file_object)
+        self._entries = []
 
+        file_header, file_offset = self._ReadFileHeader(file_object)
         data_type_map = self._GetDataTypeMap("custom_entry_header")
 
         for _ in range(file_header.number_of_categories):
-- 
2.43.0


From b3e20f3f52b7a47d669ff86978b9f6ae60bdc782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:00 +0000
Subject: [PATCH 055/175] fix: read the threat tracking data of a detection
 history file independent of debug mode

---
 dtformats/detection_history.py | 45 +++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/dtformats/detection_history.py b/dtformats/detection_history.py
index 6c0026e..e863f15 100644
--- a/dtformats/detection_history.py
+++ b/dtformats/detection_history.py
@@ -3,6 +3,7 @@
 from dtfabric.runtime import data_maps as dtfabric_data_maps
 
 from dtformats import data_format
+from dtformats import errors
 
 
 class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
@@ -244,30 +245,30 @@ class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
 
             file_offset = file_object.tell()
 
-        if self._debug:
-            value_index_set = 0
-            value_index = 0
-            for file_offset, value_object in value_tuples:
-                if value_object == "Magic.Version:1.2":
-                    if value_index_set < 2:
-                        value_index_set += 1
-                    value_index = 0
-
-                if (value_index_set, value_index) == (2, 5):
-                    self._ReadThreatTrackingData(value_object, file_offset + 8)
+        value_index_set = 0
+        value_index = 0
+        for file_offset, value_object in value_tuples:
+            if value_object == "Magic.Version:1.2":
+                if value_index_set < 2:
+                    value_index_set += 1
+                value_index = 0
 
-                else:
-                    description = self._VALUE_DESCRIPTIONS[value_index_set].get(
-                        value_index, f"UNKNOWN_{value_index_set:d}_{value_index:d}"
-                    )
+            if (value_index_set, value_index) == (2, 5):
+                if not isinstance(value_object, bytes):
+                    raise errors.ParseError("Unsupported threat tracking data value")
 
-                    if (value_index_set, value_index) == (1, 4):
-                        category_name = self._CATEGORY_NAME.get(value_object, "UNKNOWN")
-                        value_string = f"{value_object!s} ({category_name:s})"
+                self._ReadThreatTrackingData(value_object, file_offset + 8)
 
-                    else:
-                        value_string = f"{value_object!s}"
+            elif self._debug:
+                description = self._VALUE_DESCRIPTIONS[value_index_set].get(
+                    value_index, f"UNKNOWN_{value_index_set:d}_{value_index:d}"
+                )
+                if (value_index_set, value_index) == (1, 4):
+                    category_name = self._CATEGORY_NAME.get(value_object, "UNKNOWN")
+                    value_string = f"{value_object!s} ({category_name:s})"
+                else:
+                    value_string = f"{value_object!s}"
 
-                    self._DebugPrintValue(description, value_string)
+                self._DebugPrintValue(description, value_string)
 
-                value_index += 1
+            value_index += 1
-- 
2.43.0


From 58cc81d91fa433b1f062e79a15a87b4e53622507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:00 +0000
Subject: [PATCH 056/175] fix: show the name of the stretch mode of a WMF
 record

---
 dtformats/wemf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 53ef07e..1b1333e 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -763,7 +763,7 @@ class WMFFile(data_format.BinaryDataFile):
 
             elif record_type == 0x0107:
                 stretch_mode_string = (
-                    self._MAP_MODE.GetName(record.stretch_mode) or "UNKNOWN"
+                    self._STRETCH_MODE.GetName(record.stretch_mode) or "UNKNOWN"
                 )
                 self._DebugPrintValue(
                     "Stretch mode",
-- 
2.43.0


From dac2e695e3b7061a14b0f23be41ff5ea02202e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:20 +0000
Subject: [PATCH 057/175] fix: determine the size of the record data of EMF and
 WMF records

---
 dtformats/wemf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 1b1333e..476f6c2 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -151,14 +151,15 @@ class EMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("emf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, record_header_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
         if self._debug:
             self._DebugPrintRecordHeader(record_header)
 
-        data_size = record_header.record_size - (data_offset - file_offset)
+        data_offset = file_offset + record_header_size
+        data_size = record_header.record_size - record_header_size
 
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
@@ -707,7 +708,7 @@ class WMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("wmf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, record_header_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
@@ -716,7 +717,8 @@ class WMFFile(data_format.BinaryDataFile):
 
         record_size = record_header.record_size * 2
 
-        data_size = record_size - (data_offset - file_offset)
+        data_offset = file_offset + record_header_size
+        data_size = record_size - record_header_size
 
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
-- 
2.43.0


From 2a261cfe2cdd095071b286824c9fdf6195987ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:20 +0000
Subject: [PATCH 058/175] fix: read EMF and WMF record data independent of
 debug mode

---
 dtformats/wemf.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 476f6c2..8c31c49 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -161,25 +161,29 @@ class EMFFile(data_format.BinaryDataFile):
         data_offset = file_offset + record_header_size
         data_size = record_header.record_size - record_header_size
 
-        if self._debug:
-            self._ReadRecordData(file_object, record_header.record_type, data_size)
+        self._ReadRecordData(
+            file_object, record_header.record_type, data_offset, data_size
+        )
 
         return Record(
             record_header.record_type, record_header.record_size, data_offset, data_size
         )
 
-    def _ReadRecordData(self, file_object, record_type, data_size):
+    def _ReadRecordData(self, file_object, record_type, data_offset, data_size):
         """Reads a record.
 
         Args:
           file_object (file): file-like object.
           record_type (int): record type.
+          data_offset (int): offset of the record data.
           data_size (int): size of the record data.
 
         Raises:
           ParseError: if the record data cannot be read.
         """
-        record_data = file_object.read(data_size)
+        record_data = self._ReadData(
+            file_object, data_offset, data_size, "record data"
+        )
 
         if self._debug and data_size > 0:
             self._DebugPrintData("Record data", record_data)
@@ -720,23 +724,27 @@ class WMFFile(data_format.BinaryDataFile):
         data_offset = file_offset + record_header_size
         data_size = record_size - record_header_size
 
-        if self._debug:
-            self._ReadRecordData(file_object, record_header.record_type, data_size)
+        self._ReadRecordData(
+            file_object, record_header.record_type, data_offset, data_size
+        )
 
         return Record(record_header.record_type, record_size, data_offset, data_size)
 
-    def _ReadRecordData(self, file_object, record_type, data_size):
+    def _ReadRecordData(self, file_object, record_type, data_offset, data_size):
         """Reads a record.
 
         Args:
           file_object (file): file-like object.
           record_type (int): record type.
+          data_offset (int): offset of the record data.
           data_size (int): size of the record data.
 
         Raises:
           ParseError: if the record cannot be read.
         """
-        record_data = file_object.read(data_size)
+        record_data = self._ReadData(
+            file_object, data_offset, data_size, "record data"
+        )
 
         if self._debug and data_size > 0:
             self._DebugPrintData("Record data", record_data)
-- 
2.43.0


From 4e60699111274b1d138b01e54eb2dc701ad40779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:54 +0000
Subject: [PATCH 059/175] fix: read EMF records from the end of the file header
 record

---
 dtformats/wemf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 8c31c49..519ffd5 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -117,6 +117,9 @@ class EMFFile(data_format.BinaryDataFile):
         Args:
           file_object (file): file-like object.
 
+        Returns:
+          emf_file_header: file header.
+
         Raises:
           ParseError: if the file header cannot be read.
         """
@@ -135,6 +138,8 @@ class EMFFile(data_format.BinaryDataFile):
         # TODO: check record size
         # TODO: check signature
 
+        return file_header
+
     def _ReadRecord(self, file_object, file_offset):
         """Reads a record.
 
@@ -229,9 +234,9 @@ class EMFFile(data_format.BinaryDataFile):
         Args:
           file_object (file): file-like object.
         """
-        self._ReadFileHeader(file_object)
+        file_header = self._ReadFileHeader(file_object)
 
-        file_offset = file_object.tell()
+        file_offset = file_header.record_size
         while file_offset < self._file_size:
             record = self._ReadRecord(file_object, file_offset)
 
-- 
2.43.0


From f638e075cacb854893113330790807423e13be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:54 +0000
Subject: [PATCH 060/175] fix: read WMF coordinates as signed values with the Y
 coordinate first

---
 dtformats/wmf.yaml | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/dtformats/wmf.yaml b/dtformats/wmf.yaml
index 9bbdcd2..bb9bc77 100644
--- a/dtformats/wmf.yaml
+++ b/dtformats/wmf.yaml
@@ -7,6 +7,13 @@ attributes:
   size: 1
   units: bytes
 ---
+name: int16
+type: integer
+attributes:
+  format: signed
+  size: 2
+  units: bytes
+---
 name: uint16
 type: integer
 attributes:
@@ -828,20 +835,20 @@ type: structure
 attributes:
   byte_order: little-endian
 members:
-- name: x_coordinate
-  data_type: uint16
 - name: y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: x_coordinate
+  data_type: int16
 ---
 name: wmf_setwindoworg
 type: structure
 attributes:
   byte_order: little-endian
 members:
-- name: x_coordinate
-  data_type: uint16
 - name: y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: x_coordinate
+  data_type: int16
 ---
 name: wmf_dibstretchblt
 type: structure
@@ -851,19 +858,19 @@ members:
 - name: raster_operation
   data_type: uint32
 - name: source_height
-  data_type: uint16
+  data_type: int16
 - name: source_width
-  data_type: uint16
-- name: source_x_coordinate
-  data_type: uint16
+  data_type: int16
 - name: source_y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: source_x_coordinate
+  data_type: int16
 - name: destination_height
-  data_type: uint16
+  data_type: int16
 - name: destination_width
-  data_type: uint16
-- name: destination_x_coordinate
-  data_type: uint16
+  data_type: int16
 - name: destination_y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: destination_x_coordinate
+  data_type: int16
 # TODO: add device_indepent_bitmap stream.
-- 
2.43.0


From ccee36421779e824baf95aed7b4f5be4ab0df4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:54 +0000
Subject: [PATCH 061/175] fix: raise ParseError on a WMF file that is too small
 for a signature

---
 dtformats/wemf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 519ffd5..b793538 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -846,7 +846,7 @@ class WMFFile(data_format.BinaryDataFile):
         """
         try:
             signature = file_object.read(4)
-            file_object.seek(-4, os.SEEK_CUR)
+            file_object.seek(0, os.SEEK_SET)
         except OSError as exception:
             raise errors.ParseError(
                 f"Unable to read file signature with error: {exception!s}"
-- 
2.43.0


From d279e497d5e822fbaa10a5a69e8daf1b36bf0ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:56 +0000
Subject: [PATCH 062/175] fix: identify entries of a custom destinations file
 by their offset in the file

---
 dtformats/jump_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 9c3e4ad..3916823 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -419,7 +419,8 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the jump list entry cannot be read.
         """
-        file_offset = file_object.tell()
+        # Note that the offset of a DataRange is relative to its data offset.
+        file_offset = getattr(file_object, "data_offset", 0) + file_object.tell()
         if self._debug:
             self._DebugPrintText(f"Reading LNK file at offset: 0x{file_offset:08x}\n")
 
-- 
2.43.0


From 8c40c0c2159931939e913baf006e7dc41d790ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:09 +0000
Subject: [PATCH 063/175] fix: end the ANSI original filename of an INFO2 file
 entry at the end-of-string

---
 dtformats/recycler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/recycler.py b/dtformats/recycler.py
index 4961b56..5ad5e8e 100644
--- a/dtformats/recycler.py
+++ b/dtformats/recycler.py
@@ -43,6 +43,8 @@ class RecyclerInfo2File(data_format.BinaryDataFile):
           ParseError: if the string could not be decoded.
         """
         try:
+            # The unused bytes after the end-of-string can contain remnant data.
+            string, _, _ = string.partition(b"\x00")
             return string.decode(self._codepage)
         except UnicodeDecodeError as exception:
             raise errors.ParseError(
-- 
2.43.0


From 624b6dad198bfd6216872b2312e7d1bbe1e95cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:21 +0000
Subject: [PATCH 064/175] fix: do not reject an INFO2 file in debug mode
 because of its ANSI filename

---
 dtformats/recycler.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/dtformats/recycler.py b/dtformats/recycler.py
index 5ad5e8e..62a38e7 100644
--- a/dtformats/recycler.py
+++ b/dtformats/recycler.py
@@ -38,18 +38,10 @@ class RecyclerInfo2File(data_format.BinaryDataFile):
 
         Returns:
           str: formatted ANSI string.
-
-        Raises:
-          ParseError: if the string could not be decoded.
         """
-        try:
-            # The unused bytes after the end-of-string can contain remnant data.
-            string, _, _ = string.partition(b"\x00")
-            return string.decode(self._codepage)
-        except UnicodeDecodeError as exception:
-            raise errors.ParseError(
-                f"Unable to decode ANSI string with error: {exception!s}."
-            )
+        # The unused bytes after the end-of-string can contain remnant data.
+        string, _, _ = string.partition(b"\x00")
+        return string.decode(self._codepage, errors="backslashreplace")
 
     def _ReadFileEntry(self, file_object):
         """Reads the file entry.
-- 
2.43.0


From 02ef92be44b38855e13295fbb86f12a1723e08b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:32 +0000
Subject: [PATCH 065/175] fix: name the record data size member in the LevelDB
 log block debug definition

---
 dtformats/leveldb.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/leveldb.debug.yaml b/dtformats/leveldb.debug.yaml
index e9ae673..ffdeff6 100644
--- a/dtformats/leveldb.debug.yaml
+++ b/dtformats/leveldb.debug.yaml
@@ -5,7 +5,7 @@ attributes:
 - name: checksum
   description: "Checksum"
   format: hexadecimal_8digits
-- name: data_size
+- name: record_data_size
   description: "Record data size"
   format: decimal
 - name: record_type
-- 
2.43.0


From 3dc38789eed7dbe71bb0e01169181aed63ab7470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:32 +0000
Subject: [PATCH 066/175] fix: escape byte value 0xff as a non-printable
 character

---
 dtformats/data_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 97c406c..44f669f 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -49,7 +49,7 @@ class BinaryDataFormat:
     # Byte values that are considered non-printable characters.
     _NON_PRINTABLE_BYTE_VALUES = {value: f"\\x{value:02x}" for value in range(0, 0x20)}
     _NON_PRINTABLE_BYTE_VALUES.update(
-        {value: f"\\x{value:02x}" for value in range(0x7F, 0xFF)}
+        {value: f"\\x{value:02x}" for value in range(0x7F, 0x100)}
     )
     _NON_PRINTABLE_BYTE_VALUES_TRANSLATION_TABLE = str.maketrans(
         _NON_PRINTABLE_BYTE_VALUES
-- 
2.43.0


From 27a7a9e2f0044c3e74bc374cac76ee4835ddfc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:32 +0000
Subject: [PATCH 067/175] fix: show the number of triggers of a task scheduler
 job

---
 dtformats/job.debug.yaml | 3 +++
 dtformats/job.py         | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dtformats/job.debug.yaml b/dtformats/job.debug.yaml
index 3b50efe..d03a86a 100644
--- a/dtformats/job.debug.yaml
+++ b/dtformats/job.debug.yaml
@@ -74,6 +74,9 @@ attributes:
 - name: reserved_data
   description: "Reserved data"
   format: custom:data_stream
+---
+data_type_map: job_triggers
+attributes:
 - name: number_of_triggers
   description: "Number of triggers"
   format: decimal
diff --git a/dtformats/job.py b/dtformats/job.py
index cd1227c..9e271c7 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -203,6 +203,9 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
         )
 
         if self._debug:
+            debug_info = self._DEBUG_INFORMATION.get("job_triggers")
+            self._DebugPrintStructureObject(data_section.triggers, debug_info)
+
             # TODO: refactor job_trigger debug info into
             # job_variable_length_data_section debug info?
             for trigger in data_section.triggers.triggers_array:
-- 
2.43.0


From 6a8c37b76961a445e5cab2cb4c6883f7994eae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:52 +0000
Subject: [PATCH 068/175] fix: reject malformed debug definitions with a parse
 error

---
 dtformats/yaml_definitions_file.py | 36 +++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/dtformats/yaml_definitions_file.py b/dtformats/yaml_definitions_file.py
index f5fd75e..0a47046 100644
--- a/dtformats/yaml_definitions_file.py
+++ b/dtformats/yaml_definitions_file.py
@@ -96,24 +96,46 @@ class YAMLDebugDefinitionsFile:
         if not definition_values:
             raise errors.ParseError("Missing debug definition values.")
 
+        if not isinstance(definition_values, dict):
+            raise errors.ParseError("Unsupported debug definition values.")
+
         different_keys = set(definition_values) - self._SUPPORTED_KEYS
         if different_keys:
-            different_keys = ", ".join(different_keys)
+            different_keys = ", ".join([f"{key!s}" for key in different_keys])
             raise errors.ParseError(f"Undefined keys: {different_keys:s}")
 
         data_type_map = definition_values.get("data_type_map")
         if not data_type_map:
             raise errors.ParseError("Invalid debug definition missing data type map.")
 
+        if not isinstance(data_type_map, str):
+            raise errors.ParseError("Invalid debug definition unsupported data type map.")
         attributes = definition_values.get("attributes")
         if not attributes:
             raise errors.ParseError(
                 f"Invalid debug definition: {data_type_map:s} missing attributes."
             )
 
-        debug_definition = DebugDefinition(data_type_map=data_type_map)
+        if not isinstance(attributes, list):
+            raise errors.ParseError(
+                f"Invalid debug definition: {data_type_map:s} unsupported attributes."
+            )
 
+        debug_definition = DebugDefinition(data_type_map=data_type_map)
         for attribute_index, attribute_values in enumerate(attributes):
+            if not isinstance(attribute_values, dict):
+                raise errors.ParseError(
+                    f"Invalid debug definition: {data_type_map:s} unsupported "
+                    f"attribute: {attribute_index:d}."
+                )
+
+            for key, value in attribute_values.items():
+                if value is not None and not isinstance(value, str):
+                    raise errors.ParseError(
+                        f"Invalid debug definition: {data_type_map:s} unsupported "
+                        f"{key!s} of attribute: {attribute_index:d}."
+                    )
+
             attribute_name = attribute_values.get("name")
             if not attribute_name:
                 raise errors.ParseError(
@@ -169,9 +191,13 @@ class YAMLDebugDefinitionsFile:
         """
         yaml_generator = yaml.safe_load_all(file_object)
 
-        for yaml_definition in yaml_generator:
-            yield self._ReadDefinition(yaml_definition)
-
+        try:
+            for yaml_definition in yaml_generator:
+                yield self._ReadDefinition(yaml_definition)
+        except (UnicodeDecodeError, yaml.YAMLError) as exception:
+            raise errors.ParseError(
+                f"Unable to read debug definitions with error: {exception!s}"
+            )
     def ReadFromFile(self, path):
         """Reads the definitions from a YAML file.
 
-- 
2.43.0


From ae7da7008d7f9ce7132267375c213c2592c2a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:52 +0000
Subject: [PATCH 069/175] fix: implement the hexadecimal debug format

---
 dtformats/data_format.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 44f669f..cd9cb92 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -23,6 +23,7 @@ class BinaryDataFormat:
         "binary_data": "_FormatDataInHexadecimal",
         "decimal": "_FormatIntegerAsDecimal",
         "floating_point": "_FormatFloatingPoint",
+        "hexadecimal": "_FormatIntegerAsHexadecimal",
         "hexadecimal_2digits": "_FormatIntegerAsHexadecimal2",
         "hexadecimal_4digits": "_FormatIntegerAsHexadecimal4",
         "hexadecimal_8digits": "_FormatIntegerAsHexadecimal8",
@@ -339,6 +340,18 @@ class BinaryDataFormat:
 
         return f"{date_time_string:s} UTC", False
 
+    def _FormatIntegerAsHexadecimal(self, integer):
+        """Formats an integer as a hexadecimal.
+
+        Args:
+          integer (int): integer.
+
+        Returns:
+          tuple[str, bool]: integer formatted as a hexadecimal and False to indicate
+              there should be no new line after value description.
+        """
+        return f"0x{integer:x}", False
+
     def _FormatIntegerAsHexadecimal2(self, integer):
         """Formats an integer as an 2-digit hexadecimal.
 
-- 
2.43.0


From 647b2d2a3b48105ea6ea8d9fd474d2b2a1d20d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:28 +0000
Subject: [PATCH 070/175] fix: translate flags, width and precision of a format
 string operator in the order Python requires

---
 dtformats/unified_logging.py | 57 +++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 48165ca..05d5d61 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -285,31 +285,47 @@ class FormatStringOperator:
             elif precision == ".*":
                 precision = ""
 
-            if python_specifier in ("d", "o", "x", "X"):
-                flags = flags.replace("-", "<")
+            # The width of "*" is stored separately.
+            if width == "*":
+                width = ""
 
-                # Prevent: "ValueError: Precision not allowed in integer format
-                # specifier"
+            # Prevent: "ValueError: Precision not allowed in integer format
+            # specifier"
+            if python_specifier in ("c", "d", "o", "x", "X"):
                 precision = ""
 
-            elif python_specifier == "s":
-                if width and not flags:
-                    flags = ">"
-                else:
-                    flags = flags.replace("-", "<")
+            # Prevent: "%.0s" formatting as an empty string.
+            elif python_specifier == "s" and precision == ".0":
+                precision = ""
 
-                # Prevent: "%.0s" formatting as an empty string.
-                if precision == ".0":
-                    precision = ""
+            # Note that Python requires a specific order of the flags.
+            alignment = "<" if "-" in flags else ""
+            if python_specifier in ("c", "s"):
+                if width and not alignment:
+                    alignment = ">"
 
-            if self.specifier == "p":
-                self._format_string = (
-                    f"0x{{0:{flags:s}{precision:s}{width:s}{python_specifier:s}}}"
-                )
+                flags = alignment
             else:
+                sign = ""
+                if "+" in flags:
+                    sign = "+"
+                elif " " in flags:
+                    sign = " "
+
+                alternate_form = "#" if "#" in flags else ""
+                padding = "0" if "0" in flags and not alignment else ""
+
+                flags = "".join([alignment, sign, alternate_form, padding])
+
+            if self.specifier != "p":
                 self._format_string = (
-                    f"{{0:{flags:s}{precision:s}{width:s}{python_specifier:s}}}"
+                    f"{{0:{flags:s}{width:s}{precision:s}{python_specifier:s}}}"
                 )
+            elif not width:
+                self._format_string = "0x{0:x}"
+            else:
+                padding = "0" if flags.endswith("0") else ""
+                self._format_string = f"{{0:{alignment:s}#{padding:s}{width:s}x}}"
 
         return self._format_string
 
@@ -1920,10 +1936,11 @@ class UnsignedIntegerFormatStringDecoder(BaseFormatStringDecoder):
         if format_string_operator:
             if (
                 integer_value == 0
-                and format_string_operator.flags == "#"
-                and format_string_operator.specifier == "x"
+                and "#" in (format_string_operator.flags or "")
+                and format_string_operator.specifier in ("x", "X")
             ):
-                return f"{integer_value:x}"
+                format_string = format_string_operator.GetPythonFormatString()
+                return format_string.replace("#", "").format(integer_value)
 
             format_string = format_string_operator.GetPythonFormatString()
         else:
-- 
2.43.0


From fd02ff45c8d556b5fa9b28e285403a55f3e4c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:35 +0000
Subject: [PATCH 071/175] fix: do not raise an overflow error on a character
 value that is out of bounds

---
 dtformats/unified_logging.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 05d5d61..c7417fc 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -1614,7 +1614,10 @@ class SignpostDescriptionAttributeFormatStringDecoder(BaseFormatStringDecoder):
             else:
                 format_string = "{0:d}"
 
-            string_value = format_string.format(integer_value)
+            try:
+                string_value = format_string.format(integer_value)
+            except OverflowError:
+                return "<decode: unsupported value>"
 
         elif specifier in ("d", "D", "i", "m"):
             if value_size not in (1, 2, 4, 8):
@@ -1752,7 +1755,10 @@ class SignpostTelemetryNumberFormatStringDecoder(BaseFormatStringDecoder):
             else:
                 format_string = "{0:d}"
 
-            string_value = format_string.format(integer_value)
+            try:
+                string_value = format_string.format(integer_value)
+            except OverflowError:
+                return "<decode: unsupported value>"
 
         elif specifier in ("d", "D", "i", "m"):
             if value_size not in (1, 2, 4, 8):
@@ -1946,7 +1952,10 @@ class UnsignedIntegerFormatStringDecoder(BaseFormatStringDecoder):
         else:
             format_string = "{0:d}"
 
-        return format_string.format(integer_value)
+        try:
+            return format_string.format(integer_value)
+        except OverflowError:
+            return "<decode: unsupported value>"
 
 
 class UUIDFormatStringDecoder(BaseFormatStringDecoder):
-- 
2.43.0


From 7a85dcb28e2589a9b21c8ed4d72f13efd6bbe24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:35 +0000
Subject: [PATCH 072/175] fix: do not raise on an UUID value of an unsupported
 size

---
 dtformats/unified_logging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index c7417fc..feea489 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -1972,6 +1972,9 @@ class UUIDFormatStringDecoder(BaseFormatStringDecoder):
         Returns:
           str: formatted UUID value.
         """
+        if len(value) != 16:
+            return "<decode: unsupported value>"
+
         uuid_value = uuid.UUID(bytes=value)
         return f"{uuid_value!s}".upper()
 
-- 
2.43.0


From d12d01c82788c4f6a9fc07e171f57fdb72415978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:35 +0000
Subject: [PATCH 073/175] fix: return a marker for a time value that is out of
 bounds

---
 dtformats/unified_logging.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index feea489..d7de6ad 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -580,9 +580,8 @@ class DateTimeInSecondsFormatStringDecoder(BaseFormatStringDecoder):
         integer_value = int.from_bytes(value, "little", signed=False)
 
         date_time = dfdatetime_posix_time.PosixTime(timestamp=integer_value)
-        return date_time.CopyToDateTimeString()
-
-
+        date_time_string = date_time.CopyToDateTimeString()
+        return date_time_string or "<decode: unsupported value>"
 class ErrorCodeFormatStringDecoder(BaseFormatStringDecoder):
     """Error code format string decoder."""
 
-- 
2.43.0


From 6215dcd5e647573367f8e432596a491e56de8460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:35 +0000
Subject: [PATCH 074/175] fix: return a marker for membership details and
 security identifiers that cannot be decoded

---
 dtformats/unified_logging.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index d7de6ad..a62d25a 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -1491,9 +1491,13 @@ class OpenDirectoryMembershipDetailsFormatStringDecoder(
 
         data_type_map = self._GetDataTypeMap(data_type_map_name)
 
-        membership_details = self._ReadStructureFromByteStream(
-            value[1:], 1, data_type_map, "Membership details"
-        )
+        try:
+            membership_details = self._ReadStructureFromByteStream(
+                value[1:], 1, data_type_map, "Membership details"
+            )
+        except errors.ParseError:
+            return "<decode: unsupported value>"
+
         if data_type_map_name == "membership_details_with_name":
             return (
                 f"{type_name:s}: {membership_details.name:s}@"
@@ -2003,9 +2007,13 @@ class WindowsNTSecurityIdentifierFormatStringDecoder(
 
         data_type_map = self._GetDataTypeMap("windows_nt_security_identifier")
 
-        security_identifier = self._ReadStructureFromByteStream(
-            value, 0, data_type_map, "Windows NT security identifier (SID)"
-        )
+        try:
+            security_identifier = self._ReadStructureFromByteStream(
+                value, 0, data_type_map, "Windows NT security identifier (SID)"
+            )
+        except errors.ParseError:
+            return "<decode: unsupported value>"
+
         authority = security_identifier.authority_lower | (
             security_identifier.authority_upper << 32
         )
-- 
2.43.0


From 6ed5b3d5c88eb63b62c9baa62772727ff5792a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:35 +0000
Subject: [PATCH 075/175] fix: return a marker for a data item value type that
 is not supported

---
 dtformats/unified_logging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index a62d25a..7188f43 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2842,6 +2842,8 @@ class TraceV3File(data_format.BinaryDataFile):
         if not string_formatter:
             return "<decode: missing string formatter>"
 
+        if value_data is None:
+            return "<decode: missing data>"
         decoder_names = string_formatter.GetDecoderNamesByIndex(value_index)
         if not decoder_names:
             return "<decode: missing decoder>"
-- 
2.43.0


From 0858c9a55b90af11384d45fc75b1a51856c04133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:07 +0000
Subject: [PATCH 076/175] fix: do not hang on formatting a time value that is
 out of bounds

---
 dtformats/unified_logging.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 7188f43..6c25ec9 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -579,9 +579,15 @@ class DateTimeInSecondsFormatStringDecoder(BaseFormatStringDecoder):
         """
         integer_value = int.from_bytes(value, "little", signed=False)
 
+        # Note that formatting a date after 9999-12-31 is not supported.
+        if integer_value > 253402300799:
+            return "<decode: unsupported value>"
+
         date_time = dfdatetime_posix_time.PosixTime(timestamp=integer_value)
         date_time_string = date_time.CopyToDateTimeString()
         return date_time_string or "<decode: unsupported value>"
+
+
 class ErrorCodeFormatStringDecoder(BaseFormatStringDecoder):
     """Error code format string decoder."""
 
-- 
2.43.0


From f51f6d2f26bd49f563c13ea2d46f9f6a4b09ab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:48 +0000
Subject: [PATCH 077/175] fix: decode an error code as a signed integer, which
 the negative error codes require

---
 dtformats/unified_logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 6c25ec9..1f575a0 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -605,7 +605,7 @@ class ErrorCodeFormatStringDecoder(BaseFormatStringDecoder):
         if len(value) != 4:
             return "<decode: unsupported value>"
 
-        integer_value = int.from_bytes(value, "little", signed=False)
+        integer_value = int.from_bytes(value, "little", signed=True)
 
         return darwin.DARWIN_ERROR_CODES.get(
             integer_value, f"<decode: unknown value: {integer_value:d}>"
@@ -629,7 +629,7 @@ class ExtendedErrorCodeFormatStringDecoder(BaseFormatStringDecoder):
         if len(value) != 4:
             return "<decode: unsupported value>"
 
-        integer_value = int.from_bytes(value, "little", signed=False)
+        integer_value = int.from_bytes(value, "little", signed=True)
 
         error_message = darwin.DARWIN_ERROR_CODES.get(
             integer_value, f"<decode: unknown value: {integer_value:d}>"
-- 
2.43.0


From 4d8e59382eac016a7930b9c29e5393baf97d6819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:57 +0000
Subject: [PATCH 078/175] fix: read a firehose oversize data reference as a
 16-bit value

---
 dtformats/aul_tracev3.yaml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/aul_tracev3.yaml b/dtformats/aul_tracev3.yaml
index 2aaa8b6..e970279 100644
--- a/dtformats/aul_tracev3.yaml
+++ b/dtformats/aul_tracev3.yaml
@@ -584,7 +584,7 @@ members:
   data_type: uint8
   condition: tracev3_firehose_tracepoint_flags & 0x0400 != 0
 - name: data_reference
-  data_type: uint8
+  data_type: uint16
   condition: tracev3_firehose_tracepoint_flags & 0x0800 != 0
 - name: unknown1
   data_type: uint8
@@ -630,7 +630,7 @@ members:
   data_type: uint8
   condition: tracev3_firehose_tracepoint_flags & 0x0400 != 0
 - name: data_reference
-  data_type: uint8
+  data_type: uint16
   condition: tracev3_firehose_tracepoint_flags & 0x0800 != 0
 - name: name_string_reference_lower
   data_type: uint32
-- 
2.43.0


From 84408809e4ca6451eaacbe7ced7e11424af99037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:57 +0000
Subject: [PATCH 079/175] fix: read the private data of an oversize chunk after
 the data items and values data

---
 dtformats/unified_logging.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 1f575a0..6a1be38 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4715,11 +4715,10 @@ class TraceV3File(data_format.BinaryDataFile):
             debug_info = self._DEBUG_INFORMATION.get("tracev3_oversize_chunk")
             self._DebugPrintStructureObject(oversize_chunk, debug_info)
 
-        data_offset = context.byte_size
-        data_size = data_offset + oversize_chunk.data_size
-        oversize_chunk.values_data = chunk_data[data_offset:data_size]
+        # Note that the data size includes the data items, which start at offset 32.
+        data_offset = 32 + oversize_chunk.data_size
+        oversize_chunk.values_data = chunk_data[context.byte_size : data_offset]
 
-        data_offset += oversize_chunk.data_size
         data_size = data_offset + oversize_chunk.private_data_size
         oversize_chunk.private_data = chunk_data[data_offset:data_size]
 
-- 
2.43.0


From b4e3cce6774aa45e5a4f01aaa3162ca19f4b5447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:57 +0000
Subject: [PATCH 080/175] fix: do not consider the end of a range as part of
 the range when looking up strings and images

---
 dtformats/unified_logging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 6a1be38..5a179c0 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2279,7 +2279,7 @@ class DSCFile(data_format.BinaryDataFile):
                 continue
 
             relative_offset = string_reference - range_offset
-            if relative_offset <= range_size:
+            if relative_offset < range_size:
                 if is_dynamic:
                     string = "%s"
                 else:
@@ -3216,7 +3216,7 @@ class TraceV3File(data_format.BinaryDataFile):
                 ):
                     continue
 
-                if load_address_lower <= (
+                if load_address_lower < (
                     uuid_entry.load_address_lower + uuid_entry.size
                 ):
                     if self._catalog:
@@ -5291,7 +5291,7 @@ class UUIDTextFile(data_format.BinaryDataFile):
                 continue
 
             relative_offset = string_reference - entry_descriptor.offset
-            if relative_offset <= entry_descriptor.data_size:
+            if relative_offset < entry_descriptor.data_size:
                 file_offset += relative_offset
                 return self._ReadString(self._file_object, file_offset)
 
-- 
2.43.0


From 2ce8da32088543d781a7d711f5a1e68f7e96f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:29 +0000
Subject: [PATCH 081/175] fix: do not share cached image values between
 tracepoints they differ for

---
 dtformats/unified_logging.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 5a179c0..5a1ee0b 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3241,13 +3241,15 @@ class TraceV3File(data_format.BinaryDataFile):
 
         uuid_string = strings_file_identifier.hex.upper()
 
-        lookup_key = f"{uuid_string:s}:0x{string_reference:x}"
+        large_offset_data = (
+            getattr(tracepoint_data_object, "large_offset_data", None) or 0
+        )
+        lookup_key = (
+            f"{uuid_string:s}:0x{string_reference:x}:{is_dynamic!s}:"
+            f"0x{strings_file_type:x}:0x{image_text_offset:x}:0x{large_offset_data:x}"
+        )
         image_values = self._cached_image_values.get(lookup_key)
         if not image_values:
-            large_offset_data = (
-                getattr(tracepoint_data_object, "large_offset_data", None) or 0
-            )
-
             if strings_file_type in self._UUIDTEXT_STRINGS_FILE_TYPES:
                 image_values = ImageValues(
                     identifier=strings_file_identifier, text_offset=image_text_offset
-- 
2.43.0


From ad8e4c525fea64517c5d2af06e30bfe09b588ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:29 +0000
Subject: [PATCH 082/175] fix: calculate timestamps without loss of precision
 and reject a timebase denominator of 0

---
 dtformats/unified_logging.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 5a1ee0b..7dd0144 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3,6 +3,7 @@
 import abc
 import base64
 import collections
+import fractions
 import os
 import re
 import struct
@@ -2669,13 +2670,13 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_strings_map = {}
         self._chunk_index = 0
         self._error_on_warning = error_on_warning
-        self._header_timebase = 1.0
+        self._header_timebase = 1
         self._header_timestamp = 0
         self._sorted_timesync_sync_records = []
         self._timesync_boot_record = None
         self._timesync_path = None
         self._timesync_sync_records = []
-        self._timesync_timebase = 1.0
+        self._timesync_timebase = 1
         self._uuidtext_path = None
 
     def _BuildCatalogProcessInformationEntries(self, catalog):
@@ -3378,6 +3379,27 @@ class TraceV3File(data_format.BinaryDataFile):
 
         return category, sub_system
 
+    def _GetTimebase(self, timebase_object):
+        """Retrieves a timebase.
+
+        Args:
+          timebase_object (object): object that contains a timebase numerator and
+              denominator.
+
+        Returns:
+          fractions.Fraction: timebase.
+
+        Raises:
+          ParseError: if the timebase is not supported.
+        """
+        if not timebase_object.timebase_denominator:
+            raise errors.ParseError("Unsupported timebase denominator: 0.")
+
+        # Note that a floating-point timebase is not precise enough.
+        return fractions.Fraction(
+            timebase_object.timebase_numerator, timebase_object.timebase_denominator
+        )
+
     def _GetTimestamp(self, continuous_time, description="Continuous time"):
         """Determine the timestamp from a continuous time.
 
@@ -4934,10 +4956,7 @@ class TraceV3File(data_format.BinaryDataFile):
                     self._timesync_boot_record = record
 
         if self._timesync_boot_record:
-            self._timesync_timebase = (
-                self._timesync_boot_record.timebase_numerator
-                / self._timesync_boot_record.timebase_denominator
-            )
+            self._timesync_timebase = self._GetTimebase(self._timesync_boot_record)
             # Sort the timesync records starting with the largest kernel time.
             self._sorted_timesync_sync_records = sorted(
                 self._timesync_sync_records,
@@ -5043,9 +5062,7 @@ class TraceV3File(data_format.BinaryDataFile):
         file_object.seek(file_offset, os.SEEK_SET)
 
         self._header_timestamp = header_chunk.timestamp * self._NANOSECONDS_PER_SECOND
-        self._header_timebase = (
-            header_chunk.timebase_numerator / header_chunk.timebase_denominator
-        )
+        self._header_timebase = self._GetTimebase(header_chunk)
         self._ReadTimesyncRecords(self._boot_identifier)
 
         if self._debug:
-- 
2.43.0


From 59c7f14724a960b097c0f127629bdceb2ca09479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:29 +0000
Subject: [PATCH 083/175] fix: support a firehose chunk without tracepoints
 that have private data

---
 dtformats/unified_logging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 7dd0144..3a6dd92 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4009,6 +4009,8 @@ class TraceV3File(data_format.BinaryDataFile):
                     f"catalog"
                 )
 
+        private_data = b""
+
         chunk_data_offset = 32
         while chunk_data_offset < firehose_header.public_data_size:
             if self._debug:
-- 
2.43.0


From 31defaa14ac2d8c4c1c14d75ca30aa709d652346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:29 +0000
Subject: [PATCH 084/175] fix: map catalog sub system strings by their offset
 in bytes

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 3a6dd92..fc4704c 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3099,7 +3099,7 @@ class TraceV3File(data_format.BinaryDataFile):
         map_offset = 0
         for string in catalog.sub_system_strings:
             strings_map[map_offset] = string
-            map_offset += len(string) + 1
+            map_offset += len(string.encode("utf-8")) + 1
 
         return strings_map
 
-- 
2.43.0


From bcea3a5322f787d5de3ed7091add3a57586003d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:29 +0000
Subject: [PATCH 085/175] fix: support a process without UUIDs and raise
 ParseError on an invalid catalog UUID index

---
 dtformats/unified_logging.py | 43 ++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index fc4704c..8504e07 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2693,15 +2693,12 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_process_information_entries = {}
 
         for process_information_entry in catalog.process_information_entries:
-            if process_information_entry.main_uuid_index >= 0:
-                process_information_entry.main_uuid = catalog.uuids[
-                    process_information_entry.main_uuid_index
-                ]
-
-            if process_information_entry.dsc_uuid_index >= 0:
-                process_information_entry.dsc_uuid = catalog.uuids[
-                    process_information_entry.dsc_uuid_index
-                ]
+            process_information_entry.main_uuid = self._GetCatalogUUID(
+                catalog, process_information_entry.main_uuid_index
+            )
+            process_information_entry.dsc_uuid = self._GetCatalogUUID(
+                catalog, process_information_entry.dsc_uuid_index
+            )
 
             if self._debug:
                 for sub_system_entry in process_information_entry.sub_system_entries:
@@ -3103,6 +3100,28 @@ class TraceV3File(data_format.BinaryDataFile):
 
         return strings_map
 
+    def _GetCatalogUUID(self, catalog, uuid_index):
+        """Retrieves a catalog UUID.
+
+        Args:
+          catalog (tracev3_catalog): catalog.
+          uuid_index (int): index of the UUID, where a negative value represents
+              not set.
+
+        Returns:
+          uuid.UUID: UUID or None if not set.
+
+        Raises:
+          ParseError: if the UUID index is out of bounds.
+        """
+        if uuid_index < 0:
+            return None
+
+        if uuid_index >= len(catalog.uuids):
+            raise errors.ParseError(f"Invalid catalog UUID index: {uuid_index:d}.")
+
+        return catalog.uuids[uuid_index]
+
     def _GetDataItemsAndValuesData(
         self,
         proc_id,
@@ -3221,9 +3240,9 @@ class TraceV3File(data_format.BinaryDataFile):
                     uuid_entry.load_address_lower + uuid_entry.size
                 ):
                     if self._catalog:
-                        strings_file_identifier = self._catalog.uuids[
-                            uuid_entry.uuid_index
-                        ]
+                        strings_file_identifier = self._GetCatalogUUID(
+                            self._catalog, uuid_entry.uuid_index
+                        )
 
                     image_text_offset = uuid_entry.load_address_lower | (
                         uuid_entry.load_address_upper << 32
-- 
2.43.0


From f942e674fdfa7c131b36485ce96bca28c001ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:29 +0000
Subject: [PATCH 086/175] fix: do not raise in debug mode on a catalog sub
 system entry with an unknown string offset

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 8504e07..547cc2a 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2710,7 +2710,7 @@ class TraceV3File(data_format.BinaryDataFile):
                     )
                     self._DebugPrintText(
                         f"Identifier: {sub_system_entry.identifier:d}, "
-                        f"Sub system: {sub_system:s}, Category: {category:s}\n"
+                        f"Sub system: {sub_system!s}, Category: {category!s}\n"
                     )
 
                 self._DebugPrintText("\n")
-- 
2.43.0


From b7bc809d9a7b9d44236cfc84cb5d426407fc4b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:29 +0000
Subject: [PATCH 087/175] fix: support a signpost whose name cannot be resolved

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 547cc2a..1b4ee53 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4359,7 +4359,7 @@ class TraceV3File(data_format.BinaryDataFile):
                             name_string_reference,
                             is_dynamic,
                         )
-                        name_string = name_image_values.string
+                        name_string = getattr(name_image_values, "string", None)
 
                     log_entry.signpost_identifier = getattr(
                         tracepoint_data_object, "signpost_identifier", None
-- 
2.43.0


From 50f7c74b6165bcc31415c0c33fc4faa2b6aea055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:29 +0000
Subject: [PATCH 088/175] fix: do not use cached files after a tracev3 file has
 been closed

---
 dtformats/unified_logging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 1b4ee53..22cb2ac 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4999,6 +4999,10 @@ class TraceV3File(data_format.BinaryDataFile):
             if uuidtext_file:
                 uuidtext_file.Close()
 
+        self._cached_dsc_files.clear()
+        self._cached_image_values.clear()
+        self._cached_uuidtext_files.clear()
+
         super().Close()
 
     def ReadFileObject(self, file_object):
-- 
2.43.0


From 27114d7be205c7c9e73d1979b09a661ddeef067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:29 +0000
Subject: [PATCH 089/175] fix: find the timesync files of a logarchive without
 a dsc directory

---
 dtformats/unified_logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 22cb2ac..4d523b6 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5038,8 +5038,9 @@ class TraceV3File(data_format.BinaryDataFile):
         if lower_last_path_segment.endswith(".logarchive"):
             path_segments.append("dsc")
             dsc_path = self._file_system_helper.JoinPath(path_segments)
+            path_segments.pop(-1)
+
             if self._file_system_helper.CheckFileExistsByPath(dsc_path):
-                path_segments.pop(-1)
                 self._uuidtext_path = self._file_system_helper.JoinPath(path_segments)
 
         else:
-- 
2.43.0


From 64d011458fc6e1429ee84bfcbce727295a31a74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:01 +0000
Subject: [PATCH 090/175] fix: support a tracev3 file that is stored in or
 directly below the root directory

---
 dtformats/unified_logging.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 4d523b6..1713787 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5024,16 +5024,12 @@ class TraceV3File(data_format.BinaryDataFile):
         # Remove the filename from the path.
         path_segments.pop(-1)
 
-        lower_last_path_segment = path_segments[-1].lower()
-        if not lower_last_path_segment.endswith(".logarchive"):
-            path_segments.pop(-1)
-            if path_segments:
-                lower_last_path_segment = path_segments[-1].lower()
-
-        if not lower_last_path_segment.endswith(".logarchive"):
-            path_segments.pop(-1)
-            if path_segments:
-                lower_last_path_segment = path_segments[-1].lower()
+        lower_last_path_segment = path_segments[-1].lower() if path_segments else ""
+        for _ in range(2):
+            if path_segments and not lower_last_path_segment.endswith(".logarchive"):
+                path_segments.pop(-1)
+                if path_segments:
+                    lower_last_path_segment = path_segments[-1].lower()
 
         if lower_last_path_segment.endswith(".logarchive"):
             path_segments.append("dsc")
-- 
2.43.0


From b1d79d225d44ad5bb0fdc87582fbe2b4e667db9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:01 +0000
Subject: [PATCH 091/175] fix: do not use the catalog, timesync records and
 paths of a previously opened tracev3 file

---
 dtformats/unified_logging.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 1713787..2f59632 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5014,6 +5014,13 @@ class TraceV3File(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._catalog = None
+        self._catalog_process_information_entries = {}
+        self._catalog_strings_map = {}
+        self._sorted_timesync_sync_records = []
+        self._timesync_path = None
+        self._uuidtext_path = None
+
         # The uuidtext files can be stored in multiple locations relative from
         # the tracev3 file.
         # * in ../ for *.logarchive/logdata.LiveData.tracev3
-- 
2.43.0


From 477c873465e259eb943e94c014253c0faeca3d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:20 +0000
Subject: [PATCH 092/175] fix: read log entries from the first chunk every time

---
 dtformats/unified_logging.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 2f59632..75e66a3 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2670,6 +2670,7 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_strings_map = {}
         self._chunk_index = 0
         self._error_on_warning = error_on_warning
+        self._first_chunk_offset = 0
         self._header_timebase = 1
         self._header_timestamp = 0
         self._sorted_timesync_sync_records = []
@@ -5088,7 +5089,7 @@ class TraceV3File(data_format.BinaryDataFile):
 
         file_offset += alignment
 
-        file_object.seek(file_offset, os.SEEK_SET)
+        self._first_chunk_offset = file_offset
 
         self._header_timestamp = header_chunk.timestamp * self._NANOSECONDS_PER_SECOND
         self._header_timebase = self._GetTimebase(header_chunk)
@@ -5145,7 +5146,7 @@ class TraceV3File(data_format.BinaryDataFile):
 
             yield log_entry
 
-        file_offset = self._file_object.tell()
+        file_offset = self._first_chunk_offset
 
         oversize_chunks = {}
 
-- 
2.43.0


From 7d0dfb99e558e8ee76c41b86efd59f05e41fd7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:20 +0000
Subject: [PATCH 093/175] fix: close the timesync database files

---
 dtformats/unified_logging.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 75e66a3..af8c47b 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4964,18 +4964,24 @@ class TraceV3File(data_format.BinaryDataFile):
                 continue
 
             timesync_file = self._OpenTimesyncDatabaseFile(directory_entry)
+            if not timesync_file:
+                continue
+
+            try:
+                for record in timesync_file.ReadRecords():
+                    record_boot_identifier = getattr(record, "boot_identifier", None)
 
-            for record in timesync_file.ReadRecords():
-                record_boot_identifier = getattr(record, "boot_identifier", None)
+                    if self._timesync_boot_record:
+                        if record_boot_identifier:
+                            break
 
-                if self._timesync_boot_record:
-                    if record_boot_identifier:
-                        break
+                        self._timesync_sync_records.append(record)
 
-                    self._timesync_sync_records.append(record)
+                    elif record_boot_identifier == boot_identifier:
+                        self._timesync_boot_record = record
 
-                elif record_boot_identifier == boot_identifier:
-                    self._timesync_boot_record = record
+            finally:
+                timesync_file.Close()
 
         if self._timesync_boot_record:
             self._timesync_timebase = self._GetTimebase(self._timesync_boot_record)
-- 
2.43.0


From d1073f013744209e2a9efd19ceed4536a289fd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:20 +0000
Subject: [PATCH 094/175] fix: do not loop on a timesync record that is smaller
 than its contents

---
 dtformats/unified_logging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index af8c47b..6a7dff2 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2434,7 +2434,11 @@ class TimesyncDatabaseFile(data_format.BinaryDataFile):
         file_offset = 0
 
         while file_offset < self._file_size:
-            record, _ = self._ReadRecord(self._file_object, file_offset)
+            record, bytes_read = self._ReadRecord(self._file_object, file_offset)
+            if record.record_size < bytes_read:
+                raise errors.ParseError(
+                    f"Unsupported record size: {record.record_size:d}."
+                )
             yield record
 
             file_offset += record.record_size
-- 
2.43.0


From 2d7bc2eae2c73692bf834269d6d4be74c74225d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:20 +0000
Subject: [PATCH 095/175] fix: do not raise on a data item value type that is
 not supported in debug mode only

---
 dtformats/unified_logging.py | 26 --------------------------
 1 file changed, 26 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 6a7dff2..288096f 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3939,32 +3939,6 @@ class TraceV3File(data_format.BinaryDataFile):
                 debug_info = self._DEBUG_INFORMATION.get("tracev3_data_item")
                 self._DebugPrintStructureObject(data_item, debug_info)
 
-                if data_item.value_type not in (
-                    0x00,
-                    0x01,
-                    0x02,
-                    0x10,
-                    0x12,
-                    0x20,
-                    0x21,
-                    0x22,
-                    0x25,
-                    0x30,
-                    0x31,
-                    0x32,
-                    0x35,
-                    0x40,
-                    0x41,
-                    0x42,
-                    0x45,
-                    0x72,
-                    0xF2,
-                ):
-                    raise errors.ParseError(
-                        f"Unsupported data item value type: "
-                        f"0x{data_item.value_type:02x}."
-                    )
-
             if data_item.value_type in self._DATA_ITEM_PRECISION_VALUE_TYPES:
                 precision = int.from_bytes(value_data, "little", signed=False)
                 continue
-- 
2.43.0


From b56fb268117f40575adea37844ea9ce50e6dc0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:58 +0000
Subject: [PATCH 096/175] fix: raise ParseError on a chunk set that is
 truncated or cannot be decompressed

---
 dtformats/unified_logging.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 288096f..7cbc12c 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3723,7 +3723,9 @@ class TraceV3File(data_format.BinaryDataFile):
         Raises:
           ParseError: if the chunk header cannot be read.
         """
-        chunk_data = file_object.read(chunk_header.chunk_data_size)
+        chunk_data = self._ReadData(
+            file_object, file_offset, chunk_header.chunk_data_size, "chunk set data"
+        )
 
         data_type_map = self._GetDataTypeMap("tracev3_lz4_block_header")
 
@@ -3737,10 +3739,15 @@ class TraceV3File(data_format.BinaryDataFile):
         # TODO: add support for multi block compressed data.
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
-            uncompressed_data = lz4.block.decompress(
-                chunk_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-            )
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    chunk_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                )
+            except (MemoryError, OverflowError, ValueError, lz4.block.LZ4BlockError) as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress LZ4 block with error: {exception!s}"
+                ) from exception
 
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
@@ -3758,7 +3765,7 @@ class TraceV3File(data_format.BinaryDataFile):
         data_type_map = self._GetDataTypeMap("tracev3_chunk_header")
 
         data_offset = 0
-        while data_offset < lz4_block_header.uncompressed_data_size:
+        while data_offset < len(uncompressed_data):
             if self._debug:
                 self._DebugPrintText(f"Chunk: {self._chunk_index:d}\n")
                 self._chunk_index += 1
-- 
2.43.0


From 466ec791739ad97ad524a71da1463d58d714e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:58 +0000
Subject: [PATCH 097/175] fix: raise ParseError on an invalid DSC UUID
 descriptor index

---
 dtformats/unified_logging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 7cbc12c..6847a7c 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2331,6 +2331,11 @@ class DSCFile(data_format.BinaryDataFile):
             )
         )
         for dsc_range in self.ranges:
+            if dsc_range.uuid_index >= len(self.uuids):
+                raise errors.ParseError(
+                    f"Invalid UUID descriptor index: {dsc_range.uuid_index:d}."
+                )
+
             dsc_uuid = self.uuids[dsc_range.uuid_index]
 
             dsc_range.image_identifier = dsc_uuid.image_identifier
-- 
2.43.0


From a013d8830d2697e7ae81c0ef699800cdf3a47727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:58 +0000
Subject: [PATCH 098/175] fix: raise ParseError on an invalid backtrace
 identifier index

---
 dtformats/unified_logging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 6847a7c..eecb824 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3880,6 +3880,10 @@ class TraceV3File(data_format.BinaryDataFile):
                 backtrace_frame.image_identifier = uuid.UUID(
                     "00000000-0000-0000-0000-000000000000"
                 )
+            elif identifier_index >= backtrace_data.number_of_identifiers:
+                raise errors.ParseError(
+                    f"Invalid backtrace identifier index: {identifier_index:d}."
+                )
             else:
                 backtrace_frame.image_identifier = backtrace_data.identifiers[
                     identifier_index
-- 
2.43.0


From bbe9d3a95114b8b652c9e0ce23fbf0368b883847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:58 +0000
Subject: [PATCH 099/175] fix: raise ParseError on an invalid number of trace
 values

---
 dtformats/unified_logging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index eecb824..22f3018 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4655,6 +4655,11 @@ class TraceV3File(data_format.BinaryDataFile):
         if not trace.number_of_values:
             return []
 
+        if trace.number_of_values >= len(values_data):
+            raise errors.ParseError(
+                f"Unsupported number of values: {trace.number_of_values:d}"
+            )
+
         values = []
 
         value_data_offset = 0
-- 
2.43.0


From a2789cbdfb857aae5ac2d063b7011f2032b72b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:15 +0000
Subject: [PATCH 100/175] fix: support a state dump with a library or decoder
 type that is not valid UTF-8

---
 dtformats/unified_logging.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 22f3018..8e806e2 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3749,7 +3749,12 @@ class TraceV3File(data_format.BinaryDataFile):
                     chunk_data[12:end_of_data_offset],
                     uncompressed_size=lz4_block_header.uncompressed_data_size,
                 )
-            except (MemoryError, OverflowError, ValueError, lz4.block.LZ4BlockError) as exception:
+            except (
+                MemoryError,
+                OverflowError,
+                ValueError,
+                lz4.block.LZ4BlockError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to decompress LZ4 block with error: {exception!s}"
                 ) from exception
@@ -4895,12 +4900,12 @@ class TraceV3File(data_format.BinaryDataFile):
         event_message = ""
         if statedump_chunk.state_data_type == 0x03:
             library_data = statedump_chunk.library.split(b"\x00", maxsplit=1)[0]
-            library = library_data.decode("utf8")
+            library = library_data.decode("utf8", errors="backslashreplace")
 
             decoder_type_data = statedump_chunk.decoder_type.split(b"\x00", maxsplit=1)[
                 0
             ]
-            decoder_type = decoder_type_data.decode("utf8")
+            decoder_type = decoder_type_data.decode("utf8", errors="backslashreplace")
 
             decoder_name = f"{library:s}:{decoder_type:s}"
             decoder_class = self._FORMAT_STRING_DECODERS.get(decoder_name)
-- 
2.43.0


From 5c9670521fb7ab91ea25f6f6ff0ced4f21edb6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:52 +0000
Subject: [PATCH 101/175] fix: close the file when opening a binary data file
 fails

---
 dtformats/data_format.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index cd9cb92..c1c47a8 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -916,7 +916,13 @@ class BinaryDataFile(BinaryDataFormat):
 
         file_object = self._file_system_helper.OpenFileByPath(path)
 
-        self.ReadFileObject(file_object)
+        try:
+            self.ReadFileObject(file_object)
+        except Exception:
+            file_object.close()
+            self._file_object = None
+            self._path = None
+            raise
 
         self._file_object = file_object
         self._file_object_opened_in_object = True
-- 
2.43.0


From d180d765aa43e2b2c8d621925a96bee15de16b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:46 +0000
Subject: [PATCH 102/175] fix: do not close an LNK file that could not be
 opened when destroying a jump list entry

---
 dtformats/jump_list.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 3916823..3069e96 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -44,8 +44,10 @@ class JumpListEntry:
           file_object (file): file-like object that contains the LNK file
               entry data.
         """
-        self.lnk_file = pylnk.file()
-        self.lnk_file.open_file_object(file_object)
+        lnk_file = pylnk.file()
+        lnk_file.open_file_object(file_object)
+
+        self.lnk_file = lnk_file
 
 
 class AutomaticDestinationsFile(data_format.BinaryDataFile):
-- 
2.43.0


From a0a39cbdd9c56d6f3893b5896bedcd6411ad3f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:43 +0000
Subject: [PATCH 103/175] fix: support debug output of structure objects
 without an output writer

---
 dtformats/data_format.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index c1c47a8..767a8cb 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -116,8 +116,9 @@ class BinaryDataFormat:
           structure_object (object): structure object.
           debug_info (list[tuple[str, str, int]]): debug information.
         """
-        text = self._FormatStructureObject(structure_object, debug_info)
-        self._output_writer.WriteText(text)
+        if self._output_writer:
+            text = self._FormatStructureObject(structure_object, debug_info)
+            self._output_writer.WriteText(text)
 
     def _DebugPrintPosixTimeValue(self, description, value):
         """Prints a POSIX timestamp value for debugging.
-- 
2.43.0


From 6bdc188b870e912cfb22e4a315c26ef8dab28558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:35 +0000
Subject: [PATCH 104/175] fix: do not format a date outside of the years 1 -
 9999 for debugging

---
 dtformats/data_format.py       | 15 +++++++++++++++
 dtformats/spotlight_storedb.py |  8 +++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 767a8cb..429dab8 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -129,6 +129,9 @@ class BinaryDataFormat:
         """
         if value == 0:
             date_time_string = "Not set (0)"
+        elif not -62135596800 <= value <= 253402300799:
+            # Note that a date outside of the years 1 - 9999 is not supported.
+            date_time_string = f"0x{value:08x}"
         else:
             date_time = dfdatetime_posix_time.PosixTime(timestamp=value)
             date_time_string = date_time.CopyToDateTimeString()
@@ -420,6 +423,10 @@ class BinaryDataFormat:
         if integer == 0:
             return "Not set (0)"
 
+        # Note that a date outside of the years 1 - 9999 is not supported.
+        if not -62135596800 <= integer <= 253402300799:
+            return f"0x{integer:08x}"
+
         date_time = dfdatetime_posix_time.PosixTime(timestamp=integer)
         date_time_string = date_time.CopyToDateTimeString()
         if not date_time_string:
@@ -439,6 +446,10 @@ class BinaryDataFormat:
         if integer == 0:
             return "Not set (0)"
 
+        # Note that a date outside of the years 1 - 9999 is not supported.
+        if not -62135596800 <= integer // 1000000 <= 253402300799:
+            return f"0x{integer:08x}"
+
         date_time = dfdatetime_posix_time.PosixTimeInMicroseconds(timestamp=integer)
         date_time_string = date_time.CopyToDateTimeString()
         if not date_time_string:
@@ -458,6 +469,10 @@ class BinaryDataFormat:
         if integer == 0:
             return "Not set (0)"
 
+        # Note that a date outside of the years 1 - 9999 is not supported.
+        if not -62135596800 <= integer // 1000000000 <= 253402300799:
+            return f"0x{integer:08x}"
+
         date_time = dfdatetime_posix_time.PosixTimeInNanoseconds(timestamp=integer)
         date_time_string = date_time.CopyToDateTimeString()
         if not date_time_string:
diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index d0211cb..32ada04 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -458,13 +458,16 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         """
         if value == 0:
             date_time_string = "Not set (0)"
+        elif not -63113904000.0 <= value <= 252423993599.0:
+            # Note that a date outside of the years 1 - 9999 is not supported.
+            date_time_string = f"{value:f}"
         else:
             date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=value)
             date_time_string = date_time.CopyToDateTimeString()
             if date_time_string:
                 date_time_string = f"{date_time_string:s} UTC"
             else:
-                date_time_string = f"0x{value:08x}"
+                date_time_string = f"{value:f}"
 
         self._DebugPrintValue(description, date_time_string)
 
@@ -570,6 +573,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         """
         if value == 0:
             date_time_string = "Not set (0)"
+        elif not -62135596800 <= value // 1000000 <= 253402300799:
+            # Note that a date outside of the years 1 - 9999 is not supported.
+            date_time_string = f"0x{value:08x}"
         else:
             date_time = dfdatetime_posix_time.PosixTimeInMicroseconds(timestamp=value)
             date_time_string = date_time.CopyToDateTimeString()
-- 
2.43.0


From 4cd97d4184d6d9167bcd3a01a4d5dad948e66489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:47 +0000
Subject: [PATCH 105/175] fix: do not read keychain trailing data of a negative
 size for debugging

---
 dtformats/keychain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 6402d1c..4d5eafb 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -875,7 +875,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = record_header.data_size - (file_offset - record_offset)
 
-            if trailing_data_size == 0:
+            if trailing_data_size <= 0:
                 self._DebugPrintText("\n")
             else:
                 trailing_data = file_object.read(trailing_data_size)
@@ -948,7 +948,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = record_header.data_size - (file_offset - record_offset)
 
-            if trailing_data_size == 0:
+            if trailing_data_size <= 0:
                 self._DebugPrintText("\n")
             else:
                 trailing_data = file_object.read(trailing_data_size)
@@ -1012,7 +1012,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = table_header.data_size - (file_offset - table_offset)
 
-            if trailing_data_size != 0:
+            if trailing_data_size > 0:
                 trailing_data = file_object.read(trailing_data_size)
                 self._DebugPrintData("Table trailing data", trailing_data)
 
-- 
2.43.0


From 9806ff8a23ad2bf9126eb40f3e7bb28527af028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:47 +0000
Subject: [PATCH 106/175] fix: support opening a store database with an
 unreadable metadata item in debug mode

---
 dtformats/spotlight_storedb.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 32ada04..985c2d6 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -2136,4 +2136,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         if self._debug:
             for record_identifier in sorted(self._record_descriptors.keys()):
                 # TODO: do something with metadata_item or remove.
-                _ = self._GetMetadataItemByIdentifier(file_object, record_identifier)
+                try:
+                    self._GetMetadataItemByIdentifier(file_object, record_identifier)
+                except errors.ParseError as exception:
+                    self._DebugPrintText(
+                        f"Unable to read metadata item: {record_identifier:d} with "
+                        f"error: {exception!s}\n"
+                    )
-- 
2.43.0


From b4723891ed407f1a697e92e3dd6c35d80d9ba8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:43 +0000
Subject: [PATCH 107/175] fix: do not read the category footer once for every
 remaining entry

---
 dtformats/jump_list.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 3069e96..fa9b5c0 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -516,6 +516,10 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
 
                 file_object.seek(file_offset, os.SEEK_SET)
 
+                # Note that there are no more entries after the category footer.
+                if entry_header.guid != self._LNK_GUID:
+                    break
+
             self._ReadCategoryFooter(file_object)
 
             file_offset += 4
-- 
2.43.0


From fb1d3bae71d0464969ab2ccc841d18d75eb8d872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:50 +0000
Subject: [PATCH 108/175] fix: raise ParseError on a truncated path in a cpio
 archive

---
 dtformats/cpio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index c11c9b7..88164a2 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -239,7 +239,9 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintFileEntry(file_entry)
 
-        path_data = file_object.read(file_entry.path_size)
+        path_data = self._ReadData(
+            file_object, file_offset, file_entry.path_size, "path data"
+        )
 
         if self._debug:
             self._DebugPrintData("Path data", path_data)
-- 
2.43.0


From 2437c088788bfe244c10e3e1b3f9204fbf5612d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:50 +0000
Subject: [PATCH 109/175] fix: raise ParseError on a cpio archive path that
 cannot be decoded

---
 dtformats/cpio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index 88164a2..b6dd57b 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -249,7 +249,11 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         file_offset += file_entry.path_size
 
         # TODO: should this be ASCII?
-        path = path_data.decode("ascii")
+        try:
+            path = path_data.decode("ascii")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(f"Unable to decode path with error: {exception!s}")
+
         path, _, _ = path.partition("\x00")
 
         if self._debug:
-- 
2.43.0


From 7262bf1939b64779ed4ff61e1f5e84ec9e48b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:50 +0000
Subject: [PATCH 110/175] fix: raise ParseError on truncated file data in a
 cpio archive

---
 dtformats/cpio.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index b6dd57b..68fa5b6 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -278,6 +278,12 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
 
         file_offset += padding_size
 
+        # Note that the file size is only known when the archive was opened by path.
+        if self._file_size and file_offset + file_entry.file_size > self._file_size:
+            raise errors.ParseError(
+                "Invalid file data size value out of bounds of the archive."
+            )
+
         archive_file_entry = CPIOArchiveFileEntry(file_object)
 
         archive_file_entry.data_offset = file_offset
-- 
2.43.0


From d9ba854d17ebe73652b32f48557129f0a72568d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:15 +0000
Subject: [PATCH 111/175] fix: raise ParseError on a negative file size in a
 cpio archive

---
 dtformats/cpio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index 68fa5b6..2acdc98 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -236,6 +236,9 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
 
                 value = setattr(file_entry, attribute_name, value)
 
+        if file_entry.file_size < 0:
+            raise errors.ParseError("Invalid file data size value out of bounds.")
+
         if self._debug:
             self._DebugPrintFileEntry(file_entry)
 
-- 
2.43.0


From 32658ae8ad424ab53d2e6c7c867808f914e0ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:33 +0000
Subject: [PATCH 112/175] fix: raise ParseError on missing data in the Chrome
 cache index table

---
 dtformats/chrome_cache.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 3384cea..9ae8058 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -635,6 +635,12 @@ class IndexFile(data_format.BinaryDataFile):
 
             cache_address_index += 1
 
+        # Note that the file size is only known when the file was opened by path.
+        if file_offset + 4 <= self._file_size:
+            raise errors.ParseError(
+                f"Missing data of index table entry: {cache_address_index:d}"
+            )
+
         if self._debug:
             self._DebugPrintText("\n")
 
-- 
2.43.0


From e7c271f616a921526b71079d5ac0f32999a81bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:50 +0000
Subject: [PATCH 113/175] fix: raise ParseError on an IPP string value that
 cannot be decoded

---
 dtformats/cups_ipp.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index 3af6999..c447c37 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -165,13 +165,15 @@ class CupsIppFile(data_format.BinaryDataFile):
             pass
 
         elif attribute.tag_value in self._STRING_WITHOUT_LANGUAGE_VALUES:
-            value = attribute.value_data.decode(self._last_charset_attribute)
+            value = self._ReadStringValue(
+                attribute.value_data, self._last_charset_attribute
+            )
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
 
         elif attribute.tag_value in self._ASCII_STRING_VALUES:
-            value = attribute.value_data.decode("ascii")
+            value = self._ReadStringValue(attribute.value_data, "ascii")
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
@@ -304,6 +306,26 @@ class CupsIppFile(data_format.BinaryDataFile):
                 f"Unable to parse integer value with error: {exception!s}"
             )
 
+    def _ReadStringValue(self, byte_stream, encoding):
+        """Reads a string value.
+
+        Args:
+          byte_stream (bytes): byte stream.
+          encoding (str): encoding of the string.
+
+        Returns:
+          str: string value.
+
+        Raises:
+          ParseError: when the string value cannot be read.
+        """
+        try:
+            return byte_stream.decode(encoding)
+        except (LookupError, ValueError) as exception:
+            raise errors.ParseError(
+                f"Unable to decode string value with error: {exception!s}"
+            )
+
     def _ReadHeader(self, file_object):
         """Reads the header.
 
-- 
2.43.0


From 48b0b824b6809611f2c79816b364cfeb3bff1ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:50 +0000
Subject: [PATCH 114/175] fix: raise ParseError on an IPP date-time value that
 is out of bounds

---
 dtformats/cups_ipp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index c447c37..c54ef9c 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -277,9 +277,14 @@ class CupsIppFile(data_format.BinaryDataFile):
             value.hours_from_utc,
             value.minutes_from_utc,
         )
-        return dfdatetime_rfc2579_date_time.RFC2579DateTime(
-            rfc2579_date_time_tuple=rfc2579_date_time_tuple
-        )
+        try:
+            return dfdatetime_rfc2579_date_time.RFC2579DateTime(
+                rfc2579_date_time_tuple=rfc2579_date_time_tuple
+            )
+        except ValueError as exception:
+            raise errors.ParseError(
+                f"Unsupported date-time value with error: {exception!s}"
+            )
 
     def _ReadIntegerValue(self, byte_stream, file_offset):
         """Reads an integer value.
-- 
2.43.0


From 746cad490dee6110f0f5002101e12ff98a388b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:50 +0000
Subject: [PATCH 115/175] fix: do not decode an IPP file with the charset of a
 previously read file

---
 dtformats/cups_ipp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index c54ef9c..25a54f0 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -360,6 +360,8 @@ class CupsIppFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._last_charset_attribute = "ascii"
+
         self._ReadHeader(file_object)
         self._ReadAttributesGroup(file_object)
 
-- 
2.43.0


From 6b3e8f188b0061dc3c07abae1303cd2d0804f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:01 +0000
Subject: [PATCH 116/175] fix: raise ParseError on missing LevelDB variable
 size integer data

---
 dtformats/leveldb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 658cbd3..4b426b1 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -86,6 +86,8 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
           tuple[int, int]: integer value and number of bytes read.
         """
         data_size = len(data)
+        if not data_size:
+            raise errors.ParseError("Missing variable size integer data.")
 
         byte_value = data[0]
         bytes_read = 1
-- 
2.43.0


From 042d0b77d877151802d2c3a94530a44fe5bd519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:39 +0000
Subject: [PATCH 117/175] fix: raise ParseError on LevelDB block data that
 cannot be decompressed

---
 dtformats/leveldb.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 4b426b1..c90bdca 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -500,11 +500,18 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
                 f"Unsupported compression type: {block_trailer.compression_type!s}"
             )
 
-        if block_trailer.compression_type == 1:
-            block_data = snappy.decompress(block_data)
+        try:
+            if block_trailer.compression_type == 1:
+                block_data = snappy.decompress(block_data)
+
+            elif block_trailer.compression_type == 2:
+                block_data = zstd.decompress(block_data)
 
-        elif block_trailer.compression_type == 2:
-            block_data = zstd.decompress(block_data)
+        except (MemoryError, snappy.UncompressError, zstd.Error) as exception:
+            raise errors.ParseError(
+                f"Unable to decompress block data at offset: 0x{file_offset:08x} with "
+                f"error: {exception!s}"
+            )
 
         return block_data
 
-- 
2.43.0


From d9280c9a090b21669d7d272e6e2988117dbb0462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:39 +0000
Subject: [PATCH 118/175] fix: raise ParseError on a LevelDB string that cannot
 be decoded

---
 dtformats/leveldb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index c90bdca..ade9d0a 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -428,7 +428,12 @@ class LevelDBDatabaseDescriptorFile(LevelDBDatabaseLogFile):
 
         string_data = data[bytes_read : bytes_read + data_size]
 
-        string_value = string_data.decode("utf-8")
+        try:
+            string_value = string_data.decode("utf-8")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode {description:s} string with error: {exception!s}"
+            )
 
         if self._debug:
             value_string, _ = self._FormatIntegerAsDecimal(data_size)
-- 
2.43.0


From 448fd3687d71401c8ff124d2f01b39a1765bb31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:39 +0000
Subject: [PATCH 119/175] fix: raise ParseError on an IndexedDB key that is too
 small

---
 dtformats/indexeddb.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dtformats/indexeddb.py b/dtformats/indexeddb.py
index c12e233..1ceb59f 100644
--- a/dtformats/indexeddb.py
+++ b/dtformats/indexeddb.py
@@ -1,5 +1,6 @@
 """IndexedDB database files."""
 
+from dtformats import errors
 from dtformats import leveldb
 
 
@@ -40,10 +41,22 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
 
         Returns:
           tuple[tuple[int, int, int], int]: key prefix and number of bytes read.
+
+        Raises:
+          ParseError: if the key prefix cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing key prefix data.")
+
         byte_value = data[0]
         bytes_read = 1
 
+        key_prefix_size = (
+            4 + (byte_value >> 5) + ((byte_value & 0x1F) >> 2) + (byte_value & 0x03)
+        )
+        if len(data) < key_prefix_size:
+            raise errors.ParseError("Missing key prefix data.")
+
         database_identifier = 0
         object_store_identifier = 0
         index_identifier = 0
@@ -87,6 +100,9 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
             key_segments = [f"{value:d}" for value in key_prefix]
 
             if key_prefix == (0, 0, 0):
+                if bytes_read >= len(table_entry.key):
+                    raise errors.ParseError("Missing metadata type.")
+
                 metadata_type = int(table_entry.key[bytes_read])
                 bytes_read += 1
 
-- 
2.43.0


From 660ea8a2dab3bc947e14fa1fb204960c90b3fa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:50 +0000
Subject: [PATCH 120/175] fix: raise ParseError on a cycle of Apple System Log
 records

---
 dtformats/asl.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dtformats/asl.py b/dtformats/asl.py
index 9d90156..8e4b11f 100644
--- a/dtformats/asl.py
+++ b/dtformats/asl.py
@@ -259,7 +259,15 @@ class AppleSystemLogFile(data_format.BinaryDataFile):
 
         if file_header.first_log_entry_offset > 0:
             file_offset = file_header.first_log_entry_offset
+            record_offsets = set()
             while file_offset < self._file_size:
+                if file_offset in record_offsets:
+                    raise errors.ParseError(
+                        f"Record at offset: 0x{file_offset:08x} already read."
+                    )
+
+                record_offsets.add(file_offset)
+
                 file_offset = self._ReadRecord(file_object, file_offset)
                 if file_offset == 0:
                     break
-- 
2.43.0


From af5097631aa2e8db8dcc48bb77aaf9fbf5f8f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:50 +0000
Subject: [PATCH 121/175] fix: raise ParseError on a cycle of systemd journal
 entry array objects

---
 dtformats/systemd.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index 800a7a0..44c2464 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -357,10 +357,21 @@ class SystemdJournalFile(data_format.BinaryDataFile):
             file_object, file_header.entry_array_offset
         )
 
+        entry_array_offsets = {file_header.entry_array_offset}
+
         entry_object_offsets = list(entry_array_object.entry_object_offsets)
         while entry_array_object.next_entry_array_offset != 0:
+            entry_array_offset = entry_array_object.next_entry_array_offset
+            if entry_array_offset in entry_array_offsets:
+                raise errors.ParseError(
+                    f"Entry array object at offset: 0x{entry_array_offset:08x} "
+                    f"already read."
+                )
+
+            entry_array_offsets.add(entry_array_offset)
+
             entry_array_object = self._ReadEntryArrayObject(
-                file_object, entry_array_object.next_entry_array_offset
+                file_object, entry_array_offset
             )
             entry_object_offsets.extend(entry_array_object.entry_object_offsets)
 
-- 
2.43.0


From 631e1cd444424a4be33a8456c4d5e0c05768efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:50 +0000
Subject: [PATCH 122/175] fix: raise ParseError on truncated Safari cookies
 page sizes

---
 dtformats/safari_cookies.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index a1a9668..ca2db71 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -154,7 +154,9 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         # TODO: check for upper limit.
         page_sizes_data_size = file_header.number_of_pages * 4
 
-        page_sizes_data = file_object.read(page_sizes_data_size)
+        page_sizes_data = self._ReadData(
+            file_object, file_offset, page_sizes_data_size, "page sizes data"
+        )
 
         if self._debug:
             self._DebugPrintData("Page sizes data", page_sizes_data)
-- 
2.43.0


From bc1faf834684276e3e06e4f04cc501663bd43d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:50 +0000
Subject: [PATCH 123/175] fix: raise ParseError on an Automatic Destinations
 item that is not a stream

---
 dtformats/jump_list.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index fa9b5c0..d5acfb6 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -107,7 +107,7 @@ class AutomaticDestinationsFile(data_format.BinaryDataFile):
             raise errors.ParseError("Missing OLECF root item")
 
         olecf_item = root_item.get_sub_item_by_name("DestList")
-        if not olecf_item:
+        if not olecf_item or not isinstance(olecf_item, pyolecf.stream):
             raise errors.ParseError("Missing DestList stream.")
 
         # The DestList stream can be of size 0 if the Jump List is empty.
@@ -231,6 +231,11 @@ class AutomaticDestinationsFile(data_format.BinaryDataFile):
         # pylint: disable=no-member
         for olecf_item in iter(self._olecf_file.root_item.sub_items):
             if olecf_item.name != "DestList":
+                if not isinstance(olecf_item, pyolecf.stream):
+                    raise errors.ParseError(
+                        f"Unsupported OLECF item: {olecf_item.name!s}"
+                    )
+
                 yield self._ReadJumpListEntry(olecf_item)
 
     def ReadFileObject(self, file_object):
-- 
2.43.0


From 2a174dd48354f6e63817e1cc5d270eeb72023b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:49 +0000
Subject: [PATCH 124/175] fix: support an Amcache file reference key name that
 is not a file reference

---
 dtformats/amcache.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index c7b3c00..f400ddd 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -147,14 +147,16 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
         """
         if self._debug:
             if "0000" in file_reference_key.name:
-                sequence_number, mft_entry = file_reference_key.name.split("0000")
-                mft_entry = int(mft_entry, 16)
-                sequence_number = int(sequence_number, 16)
+                sequence_number, _, mft_entry = file_reference_key.name.partition("0000")
+                try:
+                    mft_entry = int(mft_entry, 16)
+                    sequence_number = int(sequence_number, 16)
+                    file_reference = f" ({mft_entry:d}-{sequence_number:d})"
+                except ValueError:
+                    file_reference = ""
+
                 self._DebugPrintText(
-                    (
-                        f"File: {file_reference_key.name:s} "
-                        f"({mft_entry:d}-{sequence_number:d})\n"
-                    )
+                    f"File: {file_reference_key.name:s}{file_reference:s}\n"
                 )
             else:
                 self._DebugPrintText(f"File: {file_reference_key.name:s}\n")
-- 
2.43.0


From 6511d07f2c8a31a531effab374f23d9a32a8abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:49 +0000
Subject: [PATCH 125/175] fix: support an Amcache key with a default value in
 debug mode

---
 dtformats/amcache.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index f400ddd..1f6cedc 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -100,7 +100,7 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
 
         for value in application_file_key.values:
             description = self._APPLICATION_FILE_KEY_DESCRIPTIONS.get(
-                value.name, value.name
+                value.name, value.name or "(default)"
             )
             value_data = self._GetValueDataAsObject(value)
 
@@ -120,7 +120,9 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             self._DebugPrintText(f"Application: {application_key.name:s}\n")
 
         for value in application_key.values:
-            description = self._APPLICATION_KEY_DESCRIPTIONS.get(value.name, value.name)
+            description = self._APPLICATION_KEY_DESCRIPTIONS.get(
+                value.name, value.name or "(default)"
+            )
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
@@ -163,7 +165,7 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
 
         for value in file_reference_key.values:
             description = self._FILE_REFERENCE_KEY_DESCRIPTIONS.get(
-                value.name, value.name
+                value.name, value.name or "(default)"
             )
             value_data = self._GetValueDataAsObject(value)
 
@@ -211,7 +213,9 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             self._DebugPrintText(f"Program: {program_key.name:s}\n")
 
         for value in program_key.values:
-            description = self._PROGRAM_KEY_DESCRIPTIONS.get(value.name, value.name)
+            description = self._PROGRAM_KEY_DESCRIPTIONS.get(
+                value.name, value.name or "(default)"
+            )
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
-- 
2.43.0


From 402f40d0d65b227fc711993b238db13a9010530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:49 +0000
Subject: [PATCH 126/175] fix: support Amcache values of another data type in
 debug mode

---
 dtformats/amcache.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index 1f6cedc..8855fb9 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -170,12 +170,14 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
-                if value.name == "d":
+                if value.name == "d" and isinstance(value_data, int):
                     major_version = value_data >> 16
                     minor_version = value_data & 0xFFFF
                     value_data = f"{major_version:d}.{minor_version:d}"
 
-                if value.name == "f":
+                if not isinstance(value_data, int):
+                    self._DebugPrintValue(description, value_data)
+                elif value.name == "f":
                     self._DebugPrintPosixTimeValue(description, value_data)
                 elif value.name in ("11", "12", "17"):
                     self._DebugPrintFiletimeValue(description, value_data)
@@ -219,11 +221,11 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
-                if value.name in ("7", "d", "Files"):
+                if value.name in ("7", "d", "Files") and isinstance(value_data, list):
                     for string_value in value_data:
                         self._DebugPrintValue(description, string_value)
                         description = ""
-                elif value.name in ("a", "b"):
+                elif value.name in ("a", "b") and isinstance(value_data, int):
                     self._DebugPrintPosixTimeValue(description, value_data)
                 else:
                     self._DebugPrintValue(description, value_data)
-- 
2.43.0


From 18129f4b7b8c3794c6190552c801f40c187d645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:49 +0000
Subject: [PATCH 127/175] fix: bound the catalog sub chunks data that is read
 in debug mode

---
 dtformats/unified_logging.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 8e806e2..aeee955 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3665,8 +3665,12 @@ class TraceV3File(data_format.BinaryDataFile):
 
         if self._debug:
             file_object.seek(file_offset, os.SEEK_SET)
-            sub_chunks_data = file_object.read(chunk_data_size - bytes_read)
-            self._DebugPrintData("Catalog sub chunks data", sub_chunks_data)
+            sub_chunks_data_size = min(
+                chunk_data_size - bytes_read, self._file_size - file_offset
+            )
+            if sub_chunks_data_size > 0:
+                sub_chunks_data = file_object.read(sub_chunks_data_size)
+                self._DebugPrintData("Catalog sub chunks data", sub_chunks_data)
 
         for _ in range(catalog.number_of_sub_chunks):
             catalog_sub_chunk, bytes_read = self._ReadStructureFromFileObject(
-- 
2.43.0


From 565f8a090e90e294a7a2932fee43a2afd491ff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:01 +0000
Subject: [PATCH 128/175] fix: handle missing string value in Spotlight store
 metadata attribute

---
 dtformats/spotlight_storedb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 985c2d6..65b3f4f 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1478,6 +1478,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"Unable to parse array of string values with error: {exception!s}"
             )
 
+        if not array_of_values and property_type & 0x03 != 0x02:
+            raise errors.ParseError("Missing string value.")
+
         if property_type & 0x03 == 0x03:
             value = array_of_values[0]
             if "\x16\x02" in value:
-- 
2.43.0


From 811c0329defaace9502ee9fef3a68e5b999d26a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:41 +0000
Subject: [PATCH 129/175] fix: WMI repository formatting functions that return
 a string were unpacked as a tuple

---
 dtformats/wmi_repository.py | 38 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 9ea06d5..9df8006 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -344,13 +344,13 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             self._DebugPrintDecimalValue(f"Unknown2: {index:d}", value)
 
         for index, page_number in enumerate(page_body.sub_pages):
-            value_string, _ = self._FormatIntegerAsPageNumber(page_number)
+            value_string = self._FormatIntegerAsPageNumber(page_number)
             self._DebugPrintValue(
                 f"Sub page: {index:d} mapped page number", value_string
             )
 
         for index, key_offset in enumerate(page_body.key_offsets):
-            value_string, _ = self._FormatIntegerAsOffset(key_offset)
+            value_string = self._FormatIntegerAsOffset(key_offset)
             self._DebugPrintValue(f"Key: {index:d} offset", value_string)
 
         number_of_bytes = page_body.key_data_size * 2
@@ -362,7 +362,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
         self._DebugPrintDecimalValue("Number of values", page_body.number_of_values)
 
         for index, offset in enumerate(page_body.value_offsets):
-            value_string, _ = self._FormatIntegerAsOffset(offset)
+            value_string = self._FormatIntegerAsOffset(offset)
             self._DebugPrintValue(f"Value: {index:d} offset", value_string)
 
         number_of_bytes = page_body.value_data_size * 2
@@ -532,7 +532,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             page_key_offset = key_offset * 2
 
             if self._debug:
-                value_string, _ = self._FormatIntegerAsOffset(page_key_offset)
+                value_string = self._FormatIntegerAsOffset(page_key_offset)
                 self._DebugPrintValue(
                     f"Page key: {page_key_index:d} offset", value_string
                 )
@@ -700,7 +700,7 @@ class MappingFile(data_format.BinaryDataFile):
             "  Number of entries", unknown_table.number_of_entries
         )
         for index, page_number in enumerate(unknown_table.entries):
-            value_string, _ = self._FormatIntegerAsPageNumber(page_number)
+            value_string = self._FormatIntegerAsPageNumber(page_number)
             self._DebugPrintValue(f"  Entry: {index:d} page number", value_string)
 
         self._DebugPrintText("\n")
@@ -1700,10 +1700,10 @@ class RepositoryFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "node cell"
         )
         if self._debug:
-            value_string, _ = self._FormatIntegerAsOffset(file_offset)
+            value_string = self._FormatIntegerAsOffset(file_offset)
             self._DebugPrintValue("Node cell offset", value_string)
 
-            value_string, _ = self._FormatIntegerAsOffset(file_offset + 4)
+            value_string = self._FormatIntegerAsOffset(file_offset + 4)
             self._DebugPrintValue("Data offset", value_string)
 
             if cell_number is not None:
@@ -2310,18 +2310,18 @@ class ClassDefinition(CIMObject):
         """
         lines = []
         for index, property_descriptor in enumerate(array_of_property_descriptors):
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 property_descriptor.name_offset
             )
-            line, _ = self._FormatValue(
+            line = self._FormatValue(
                 f"    Property descriptor: {index:d} name offset", value_string
             )
             lines.append(line)
 
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 property_descriptor.definition_offset
             )
-            line, _ = self._FormatValue(
+            line = self._FormatValue(
                 f"    Property descriptor: {index:d} definition offset", value_string
             )
             lines.append(line)
@@ -2682,7 +2682,7 @@ class ClassDefinition(CIMObject):
             )
             self._DebugPrintValue("        Index", value_string)
 
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 class_definition_property.value_data_offset
             )
             self._DebugPrintValue("        Value data offset", value_string)
@@ -3119,7 +3119,7 @@ class Instance(CIMObject):
             "unknown offset",
         )
         if self._debug:
-            value_string, _ = self._FormatIntegerAsOffset(unknown_offset)
+            value_string = self._FormatIntegerAsOffset(unknown_offset)
             self._DebugPrintValue("Unknown offset", value_string)
 
         data_offset += 4
@@ -3495,7 +3495,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         # Unsure how reliable this method is since multiple index[1-3].map files
         # can have the same sequence number but contain different mappings.
         for mapping_file_number in range(1, 4):
-            filename_as_glob, _ = self._FormatFilenameAsGlob(
+            filename_as_glob = self._FormatFilenameAsGlob(
                 f"mapping{mapping_file_number:d}.map"
             )
             path_with_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
@@ -3854,7 +3854,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           IndexBinaryTreeFile: index binary tree file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("index.btr")
+        filename_as_glob = self._FormatFilenameAsGlob("index.btr")
         index_binary_tree_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3883,7 +3883,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           MappingFile: mapping file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob(filename)
+        filename_as_glob = self._FormatFilenameAsGlob(filename)
         mapping_file_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
 
         mapping_file_path = glob.glob(mapping_file_glob)
@@ -3907,7 +3907,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           file: file-like object or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("mapping.ver")
+        filename_as_glob = self._FormatFilenameAsGlob("mapping.ver")
         mapping_version_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3928,7 +3928,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           ObjectsDataFile: objects data file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("objects.data")
+        filename_as_glob = self._FormatFilenameAsGlob("objects.data")
         objects_data_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3956,7 +3956,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           RepositoryFile: repository file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("cim.rep")
+        filename_as_glob = self._FormatFilenameAsGlob("cim.rep")
         repository_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
-- 
2.43.0


From 434b2ab255579d57a046822a60eb02098b128d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:59 +0000
Subject: [PATCH 130/175] fix: pass debug and output writer of WMI object
 record references to their base class

---
 dtformats/wmi_repository.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 9df8006..69cd088 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2827,7 +2827,7 @@ class ClassDefinitionReference(CIMObject):
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__()
+        super().__init__(debug=debug, output_writer=output_writer)
         self.data = None
         self.offset = None
         self.super_class_name = None
@@ -2893,7 +2893,7 @@ class InstanceReference(CIMObject):
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__()
+        super().__init__(debug=debug, output_writer=output_writer)
         self._format_version = format_version
         self.class_name = None
         self.class_name_hash = None
-- 
2.43.0


From 6563c6e6f750333eaed6c7dbc29b36389d2b2957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:59 +0000
Subject: [PATCH 131/175] fix: raise ParseError on out of bounds WMI page
 numbers and key segments

---
 dtformats/wmi_repository.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 69cd088..749a176 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -189,8 +189,17 @@ class MappingTable:
 
         Returns:
           int: (physical) page number.
+
+        Raises:
+          ParseError: if the mapped page number cannot be resolved.
         """
-        mapping_table_entry = self._mapping_table.entries[mapped_page_number]
+        try:
+            mapping_table_entry = self._mapping_table.entries[mapped_page_number]
+        except IndexError:
+            raise errors.ParseError(
+                f"Unable to resolve mapped page number: {mapped_page_number:d}"
+            )
+
         return mapping_table_entry.page_number
 
 
@@ -473,6 +482,11 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             for page_key_segments in index_binary_tree_page.page_key_segments:
                 key_segments = []
                 for segment_index in page_key_segments:
+                    if segment_index >= len(index_binary_tree_page.page_values):
+                        raise errors.ParseError(
+                            f"Unsupported key segment index: {segment_index:d}"
+                        )
+
                     page_value = index_binary_tree_page.page_values[segment_index]
                     key_segments.append(page_value)
 
-- 
2.43.0


From 953571ce26aad92f5feec3e73b6e3f14fdbef906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:59 +0000
Subject: [PATCH 132/175] fix: detect a loop in the WMI index binary-tree

---
 dtformats/wmi_repository.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 749a176..c0c42a8 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3719,20 +3719,41 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         return self._index_root_page
 
-    def _GetKeysFromIndexPage(self, index_page):
+    def _GetKeysFromIndexPage(self, index_page, mapped_page_numbers=None):
         """Retrieves the keys from an index page.
 
+        Args:
+          index_page (IndexBinaryTreePage): index page.
+          mapped_page_numbers (Optional[set[int]]): mapped page numbers of the sub
+              pages that were read, where None represents not set.
+
         Yields:
           str: a CIM key.
+
+        Raises:
+          ParseError: if a sub page is referenced more than once.
         """
+        if mapped_page_numbers is None:
+            mapped_page_numbers = set()
+
         if index_page:
             yield from index_page.keys
 
             for mapped_page_number in index_page.sub_pages:
+                if mapped_page_number in mapped_page_numbers:
+                    raise errors.ParseError(
+                        f"Index binary-tree page: {mapped_page_number:d} is "
+                        f"referenced more than once."
+                    )
+
+                mapped_page_numbers.add(mapped_page_number)
+
                 sub_index_page = self._GetIndexPageByMappedPageNumber(
                     mapped_page_number
                 )
-                yield from self._GetKeysFromIndexPage(sub_index_page)
+                yield from self._GetKeysFromIndexPage(
+                    sub_index_page, mapped_page_numbers=mapped_page_numbers
+                )
 
     def _GetObjectsPageByMappedPageNumber(self, mapped_page_number, is_data_page):
         """Retrieves a specific objects page by mapped page number.
-- 
2.43.0


From a1c7c1d48e539fc7d0d9734570c0ed0352200ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 133/175] fix: raise ParseError when a WMI object descriptor is
 missing

---
 dtformats/wmi_repository.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index c0c42a8..bf21381 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3813,6 +3813,11 @@ class CIMRepository(data_format.BinaryDataFormat):
                 object_descriptor = object_page.GetObjectDescriptor(
                     record_identifier, data_size
                 )
+                if not object_descriptor:
+                    raise errors.ParseError(
+                        f"Unable to read descriptor of objects record: "
+                        f"{record_identifier:d}."
+                    )
 
                 data_offset = object_descriptor.data_offset
                 is_data_page = True
-- 
2.43.0


From 2087c243a4f68d5b15f91a11bab1927e4ff2faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 134/175] fix: report the value of a WMI qualifier of type
 uint32

---
 dtformats/wmi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index bf21381..47c85f8 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2632,7 +2632,7 @@ class ClassDefinition(CIMObject):
                 "CIM-TYPE-SINT8",
                 "CIM-TYPE-UINT8",
                 "CIM-TYPE-UINT16",
-                "CIM-TYPE-UINT16",
+                "CIM-TYPE-UINT32",
                 "CIM-TYPE-SINT64",
                 "CIM-TYPE-UINT64",
             ):
-- 
2.43.0


From 304d5005fd9e99a068132fc000aaa948e9ee57b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 135/175] fix: add the missing WMI property value types

---
 dtformats/wmi_repository.yaml | 38 +++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/dtformats/wmi_repository.yaml b/dtformats/wmi_repository.yaml
index 97cc340..e10d6db 100644
--- a/dtformats/wmi_repository.yaml
+++ b/dtformats/wmi_repository.yaml
@@ -474,6 +474,44 @@ attributes:
   false_value: 0
   true_value: 0xffff
 ---
+name: property_value_real32
+type: floating-point
+attributes:
+  byte_order: little-endian
+  size: 4
+  units: bytes
+---
+name: property_value_real64
+type: floating-point
+attributes:
+  byte_order: little-endian
+  size: 8
+  units: bytes
+---
+name: property_value_sint8
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 1
+  units: bytes
+---
+name: property_value_sint16
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 2
+  units: bytes
+---
+name: property_value_sint64
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 8
+  units: bytes
+---
 name: property_value_uint8
 type: integer
 attributes:
-- 
2.43.0


From 9a21916429ad9718d8cecffa7c57046765d9c018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:18 +0000
Subject: [PATCH 136/175] fix: report a missing WMI super class and detect a
 class that derives from itself

---
 dtformats/wmi_repository.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 47c85f8..8129db0 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3602,17 +3602,21 @@ class CIMRepository(data_format.BinaryDataFormat):
 
             class_definitions = [class_definition]
             while class_definition.super_class_name:
-                class_definition = self._GetClassDefinitionByName(
-                    class_definition.super_class_name
-                )
+                super_class_name = class_definition.super_class_name
+                class_definition = self._GetClassDefinitionByName(super_class_name)
                 if not class_definition:
                     raise RuntimeError(
                         (
                             f"Unable to retrieve definition of class with name: "
-                            f"{class_definition.super_class_name:s}"
+                            f"{super_class_name:s}"
                         )
                     )
 
+                if class_definition in class_definitions:
+                    raise RuntimeError(
+                        f"Class with name: {super_class_name:s} derives from itself"
+                    )
+
                 class_definitions.append(class_definition)
 
             # The ClassValueDataMap.Build functions want the class definitions
-- 
2.43.0


From 3961d286c391d7f89b9fd2d60d903c93fab461b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:18 +0000
Subject: [PATCH 137/175] fix: resolve WMI namespaces of every depth, in the
 order of the index

---
 dtformats/wmi_repository.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 8129db0..40a1aa0 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4157,7 +4157,7 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         object_record_values = set()
         instances_per_namespace = {}
-        parent_namespaces = set()
+        parent_namespaces = {}
 
         index_page = self._GetIndexRootPage()
         for key in self._GetKeysFromIndexPage(index_page):
@@ -4168,7 +4168,10 @@ class CIMRepository(data_format.BinaryDataFormat):
                 continue
 
             namespace_hash = key_segment[3:].lower()
-            parent_namespaces.add(namespace_hash)
+            parent_namespaces[namespace_hash] = True
+
+            if len(key_segments) < 3:
+                continue
 
             _, _, key_segment = key_segments[2].partition("_")
             if key_segment.lower() != class_name_hash:
@@ -4200,12 +4203,14 @@ class CIMRepository(data_format.BinaryDataFormat):
             namespace_hash = self._GetHashFromString(namespace)
             namespaces_by_hash[namespace_hash] = namespace
 
-        for _ in range(5):
-            unresolved_namespaces = set()
+        number_of_unresolved_namespaces = None
+        while number_of_unresolved_namespaces != len(parent_namespaces):
+            number_of_unresolved_namespaces = len(parent_namespaces)
+            unresolved_namespaces = {}
             for parent_namespace_hash in parent_namespaces:
                 parent_namespace = namespaces_by_hash.get(parent_namespace_hash)
                 if not parent_namespace:
-                    unresolved_namespaces.add(parent_namespace_hash)
+                    unresolved_namespaces[parent_namespace_hash] = True
                     continue
 
                 instances = instances_per_namespace.get(parent_namespace_hash)
@@ -4214,6 +4219,8 @@ class CIMRepository(data_format.BinaryDataFormat):
 
                 for instance in instances:
                     name_property = instance.properties.get("Name")
+                    if not name_property:
+                        raise errors.ParseError("Missing name of namespace.")
 
                     namespace = "\\".join([parent_namespace, name_property])
 
-- 
2.43.0


From 86d6334abe3e0bdd53f362019ac4e0a15a3b5414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 138/175] fix: close every file of a WMI repository

---
 dtformats/wmi_repository.py | 41 +++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 40a1aa0..f425003 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3525,12 +3525,12 @@ class CIMRepository(data_format.BinaryDataFormat):
             )
             # TODO: change to only read limited information.
             mapping_file.Open(mapping_file_glob[0])
+            mapping_file.Close()
 
             if not active_mapping_file:
                 active_mapping_file = mapping_file
                 active_mapping_file_number = mapping_file_number
             elif mapping_file.sequence_number > active_mapping_file.sequence_number:
-                active_mapping_file.Close()
                 active_mapping_file = mapping_file
                 active_mapping_file_number = mapping_file_number
 
@@ -4250,6 +4250,10 @@ class CIMRepository(data_format.BinaryDataFormat):
             self._index_binary_tree_file.Close()
             self._index_binary_tree_file = None
 
+        if self._repository_file:
+            self._repository_file.Close()
+            self._repository_file = None
+
     def GetInstances(self):
         """Retrieves instances.
 
@@ -4319,6 +4323,24 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         Args:
           path (str): path to the CIM repository or an individual file.
+
+        Raises:
+          ParseError: if the CIM repository cannot be opened.
+        """
+        try:
+            self._OpenFiles(path)
+        except Exception:
+            self.Close()
+            raise
+
+    def _OpenFiles(self, path):
+        """Opens the files of the CIM repository.
+
+        Args:
+          path (str): path to the CIM repository or an individual file.
+
+        Raises:
+          ParseError: if the files of the CIM repository cannot be opened.
         """
         basename = os.path.basename(path).lower()
 
@@ -4330,7 +4352,9 @@ class CIMRepository(data_format.BinaryDataFormat):
             "objects.map",
         ):
             path = os.path.dirname(path)
-            self._OpenMappingFile(path, basename)
+            mapping_file = self._OpenMappingFile(path, basename)
+            if mapping_file:
+                mapping_file.Close()
 
             return
 
@@ -4345,7 +4369,9 @@ class CIMRepository(data_format.BinaryDataFormat):
             self._repository_file = self._OpenRepositoryFile(path)
         else:
             index_mapping_file = self._OpenMappingFile(path, "index.map")
-            if not index_mapping_file:
+            if index_mapping_file:
+                index_mapping_file.Close()
+            else:
                 active_mapping_file = self._GetActiveMappingFile(path)
                 index_mapping_file = active_mapping_file
 
@@ -4356,24 +4382,21 @@ class CIMRepository(data_format.BinaryDataFormat):
             else:
                 self.format_version = "2.2"
 
-            if basename == "index.btr" or not active_mapping_file:
-                index_mapping_file.Close()
-
             self._index_binary_tree_file = self._OpenIndexBinaryTreeFile(path)
 
             if basename == "index.btr":
                 return
 
             objects_mapping_file = self._OpenMappingFile(path, "objects.map")
-            if not objects_mapping_file:
+            if objects_mapping_file:
+                objects_mapping_file.Close()
+            else:
                 if not active_mapping_file:
                     active_mapping_file = self._GetActiveMappingFile(path)
                 objects_mapping_file = active_mapping_file
 
             self._objects_mapping_table = objects_mapping_file.GetObjectsMappingTable()
 
-            objects_mapping_file.Close()
-
             self._objects_data_file = self._OpenObjectsDataFile(path)
 
             self._ReadClassDefinitionsFromObjectRecords()
-- 
2.43.0


From 2c797cb6f14cc14209c58544fbff357c314517c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 139/175] fix: raise ParseError on a WMI repository without
 mapping or index file

---
 dtformats/wmi_repository.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index f425003..682a256 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3534,6 +3534,9 @@ class CIMRepository(data_format.BinaryDataFormat):
                 active_mapping_file = mapping_file
                 active_mapping_file_number = mapping_file_number
 
+        if not active_mapping_file:
+            raise errors.ParseError("Missing mapping file.")
+
         if (
             mapping_ver_file_number is not None
             and mapping_ver_file_number != active_mapping_file_number
@@ -4383,6 +4386,8 @@ class CIMRepository(data_format.BinaryDataFormat):
                 self.format_version = "2.2"
 
             self._index_binary_tree_file = self._OpenIndexBinaryTreeFile(path)
+            if not self._index_binary_tree_file:
+                raise errors.ParseError("Missing index binary-tree file.")
 
             if basename == "index.btr":
                 return
-- 
2.43.0


From c71499fdbb957218994da54b53489fdd9b0005c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 140/175] fix: open a WMI repository in a directory whose name
 contains wildcard characters

---
 dtformats/wmi_repository.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 682a256..6da5734 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3512,7 +3512,9 @@ class CIMRepository(data_format.BinaryDataFormat):
             filename_as_glob = self._FormatFilenameAsGlob(
                 f"mapping{mapping_file_number:d}.map"
             )
-            path_with_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
+            path_with_glob = self._file_system_helper.JoinPath(
+                [glob.escape(path), filename_as_glob]
+            )
             mapping_file_glob = glob.glob(path_with_glob)
             if not mapping_file_glob:
                 continue
@@ -3903,7 +3905,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("index.btr")
         index_binary_tree_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            [glob.escape(path), filename_as_glob]
         )
 
         index_binary_tree_file_path = glob.glob(index_binary_tree_file_glob)
@@ -3931,7 +3933,9 @@ class CIMRepository(data_format.BinaryDataFormat):
           MappingFile: mapping file or None if not available.
         """
         filename_as_glob = self._FormatFilenameAsGlob(filename)
-        mapping_file_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
+        mapping_file_glob = self._file_system_helper.JoinPath(
+                [glob.escape(path), filename_as_glob]
+            )
 
         mapping_file_path = glob.glob(mapping_file_glob)
         if not mapping_file_path:
@@ -3956,7 +3960,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("mapping.ver")
         mapping_version_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            [glob.escape(path), filename_as_glob]
         )
 
         mapping_version_file_path = glob.glob(mapping_version_file_glob)
@@ -3977,7 +3981,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("objects.data")
         objects_data_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            [glob.escape(path), filename_as_glob]
         )
 
         objects_data_file_path = glob.glob(objects_data_file_glob)
@@ -4005,7 +4009,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("cim.rep")
         repository_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            [glob.escape(path), filename_as_glob]
         )
         repository_file_path = glob.glob(repository_file_glob)
         if not repository_file_path:
-- 
2.43.0


From 88587070ee7784af9ae5a9be9d70fd37ef1e9b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 141/175] fix: do not keep the second WMI mapping table of an
 earlier file

---
 dtformats/wmi_repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 6da5734..8802790 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -882,6 +882,8 @@ class MappingFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._mapping_table2 = None
+
         self._ReadDetermineFormatVersion(file_object)
 
         file_object.seek(0, os.SEEK_SET)
-- 
2.43.0


From ffcd948201352628ef33df34c1dae56eb0b5e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 142/175] fix: read the class definitions of a WMI namespace
 from their own node in debug mode

---
 dtformats/wmi_repository.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 8802790..621d75d 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2009,15 +2009,15 @@ class RepositoryFile(data_format.BinaryDataFile):
                 ):
                     if value_node_offset > 40:
                         node_cell = self._ReadNodeCell(
-                            file_object, root_node_offset - 4
+                            file_object, value_node_offset - 4
                         )
-                        root_node = self._ReadClassDefinitionRootNode(
-                            node_cell.data, root_node_offset
+                        class_root_node = self._ReadClassDefinitionRootNode(
+                            node_cell.data, value_node_offset
                         )
-                        if root_node.class_definition_branch_node_offset > 40:
+                        if class_root_node.class_definition_branch_node_offset > 40:
                             self._ReadClassDefinition(
                                 file_object,
-                                root_node.class_definition_branch_node_offset,
+                                class_root_node.class_definition_branch_node_offset,
                             )
 
     def _ReadNamespaceInstanceHierarchy(
-- 
2.43.0


From 86aad74a7109ea3fd92f44306904a9eb624774c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 143/175] fix: raise ParseError on an unsupported size of a WMI
 repository node cell

---
 dtformats/wmi_repository.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 621d75d..9813cab 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2145,7 +2145,14 @@ class RepositoryFile(data_format.BinaryDataFile):
             elif file_header.system_class_cell_number == cell_number:
                 self._system_class_definition_root_node_offset = file_offset + 4
 
-            file_offset += node_cell.size & 0x7FFFFFF
+            node_cell_size = node_cell.size & 0x7FFFFFF
+            if node_cell_size < 4:
+                raise errors.ParseError(
+                    f"Unsupported size: {node_cell_size:d} of node cell: "
+                    f"{cell_number:d}"
+                )
+
+            file_offset += node_cell_size
             cell_number += 1
 
             if (
-- 
2.43.0


From 8565eead46806e001bb8b6e5cb0d1f0fd38a6c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 144/175] fix: skip WMI repository instances that are not
 available

---
 dtformats/wmi_repository.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 9813cab..1cff49a 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1846,7 +1846,8 @@ class RepositoryFile(data_format.BinaryDataFile):
             ):
                 if value_node_offset > 40:
                     instance = self._ReadInstance(file_object, value_node_offset)
-                    yield instance
+                    if instance:
+                        yield instance
 
         if root_node.sub_node_offset > 40 and root_node.sub_node_type in (9, 10):
             for value_node_offset in self._ReadChildObjectsTree(
@@ -1877,7 +1878,7 @@ class RepositoryFile(data_format.BinaryDataFile):
               of the file.
 
         Returns:
-          Instance: instance.
+          Instance: instance or None if not available.
         """
         node_cell = self._ReadNodeCell(file_object, branch_node_offset - 4)
         instance_branch_node = self._ReadInstanceBranchNode(
@@ -1904,6 +1905,9 @@ class RepositoryFile(data_format.BinaryDataFile):
         class_definition = self._ReadClassDefinition(
             file_object, root_node.class_definition_branch_node_offset
         )
+        if not class_definition:
+            return None
+
         node_cell = self._ReadNodeCell(
             file_object, instance_branch_node.instance_leaf_node_offset - 4
         )
@@ -1960,7 +1964,8 @@ class RepositoryFile(data_format.BinaryDataFile):
             instance = self._ReadInstance(
                 file_object, root_node.instance_branch_node_offset
             )
-            yield instance
+            if instance:
+                yield instance
 
         if self._debug:
             if root_node.unknown_node5_offset > 40 and root_node.unknown2 == 0:
@@ -2041,7 +2046,12 @@ class RepositoryFile(data_format.BinaryDataFile):
             instance = self._ReadInstance(
                 file_object, root_node.instance_branch_node_offset
             )
-            name_property = instance.properties.get("Name")
+            name_property = None
+            if instance:
+                name_property = instance.properties.get("Name")
+
+            if not name_property:
+                raise errors.ParseError("Missing name of namespace.")
 
             namespace_segments = list(parent_namespace_segments)
             namespace_segments.append(name_property)
@@ -2076,7 +2086,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._system_class_definition_root_node_offset > 40:
+        if self._system_class_definition_root_node_offset:
             yield from self._ReadClassDefinitionHierarchy(
                 self._file_object, self._system_class_definition_root_node_offset
             )
@@ -2087,7 +2097,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._root_namespace_node_offset > 40:
+        if self._root_namespace_node_offset:
             yield from self._ReadInstanceHierarchy(
                 self._file_object, self._root_namespace_node_offset
             )
@@ -2098,7 +2108,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._root_namespace_node_offset > 40:
+        if self._root_namespace_node_offset:
             yield from self._ReadNamespaceInstanceHierarchy(
                 self._file_object, self._root_namespace_node_offset, []
             )
-- 
2.43.0


From 1ab29568a5e98a62f3be8eeadea530b1b5420f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 145/175] fix: detect a loop in a WMI repository hierarchy

---
 dtformats/wmi_repository.py | 69 ++++++++++++++++++++++++++++++++++---
 1 file changed, 65 insertions(+), 4 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 1cff49a..aba9dba 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1146,14 +1146,27 @@ class RepositoryFile(data_format.BinaryDataFile):
 
         Yields:
           int: element value offset.
+
+        Raises:
+          ParseError: if the list contains a loop.
         """
         node_cell = self._ReadNodeCell(file_object, list_node_offset - 4)
         list_node = self._ReadChildObjectsListNode(node_cell.data, list_node_offset)
 
         list_element = 1
         next_list_element_node_offset = list_node.first_list_element_node_offset
+        list_element_node_offsets = set()
 
         while next_list_element_node_offset > 40:
+            if next_list_element_node_offset in list_element_node_offsets:
+                raise errors.ParseError(
+                    f"Child objects list element node at offset: "
+                    f"0x{next_list_element_node_offset:08x} is referenced more "
+                    f"than once."
+                )
+
+            list_element_node_offsets.add(next_list_element_node_offset)
+
             if self._debug:
                 self._DebugPrintText(f"Reading list element: {list_element:d}\n")
 
@@ -1804,17 +1817,31 @@ class RepositoryFile(data_format.BinaryDataFile):
           Instance: instance.
         """
 
-    def _ReadClassDefinitionHierarchy(self, file_object, root_node_offset):
+    def _ReadClassDefinitionHierarchy(
+        self, file_object, root_node_offset, parent_node_offsets=()
+    ):
         """Reads the class definition hierarchy.
 
         Args:
           file_object (file): file-like object.
           root_node_offset (int): offset of the root node relative to the start of
               the file.
+          parent_node_offsets (Optional[tuple[int]]): offsets of the parent root
+              nodes.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the hierarchy contains a loop.
         """
+        if root_node_offset in parent_node_offsets:
+            raise errors.ParseError(
+                f"Root node at offset: 0x{root_node_offset:08x} is its own parent."
+            )
+
+        parent_node_offsets = parent_node_offsets + (root_node_offset,)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadClassDefinitionRootNode(node_cell.data, root_node_offset)
 
@@ -1855,7 +1882,9 @@ class RepositoryFile(data_format.BinaryDataFile):
             ):
                 if value_node_offset > 40:
                     yield from self._ReadClassDefinitionHierarchy(
-                        file_object, value_node_offset
+                        file_object,
+                        value_node_offset,
+                        parent_node_offsets=parent_node_offsets,
                     )
 
         if self._debug:
@@ -1939,17 +1968,31 @@ class RepositoryFile(data_format.BinaryDataFile):
 
         return instance
 
-    def _ReadInstanceHierarchy(self, file_object, root_node_offset):
+    def _ReadInstanceHierarchy(
+        self, file_object, root_node_offset, parent_node_offsets=()
+    ):
         """Reads an instance hierarchy.
 
         Args:
           file_object (file): file-like object.
           root_node_offset (int): offset of the root node relative to the start of
               the file.
+          parent_node_offsets (Optional[tuple[int]]): offsets of the parent root
+              nodes.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the hierarchy contains a loop.
         """
+        if root_node_offset in parent_node_offsets:
+            raise errors.ParseError(
+                f"Root node at offset: 0x{root_node_offset:08x} is its own parent."
+            )
+
+        parent_node_offsets = parent_node_offsets + (root_node_offset,)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadInstanceRootNode(node_cell.data, root_node_offset)
 
@@ -2005,6 +2048,7 @@ class RepositoryFile(data_format.BinaryDataFile):
                         yield from self._ReadInstanceHierarchy(
                             file_object,
                             instance_leaf_value_node.instance_root_node_offset,
+                            parent_node_offsets=parent_node_offsets,
                         )
 
         if self._debug:
@@ -2026,7 +2070,11 @@ class RepositoryFile(data_format.BinaryDataFile):
                             )
 
     def _ReadNamespaceInstanceHierarchy(
-        self, file_object, root_node_offset, parent_namespace_segments
+        self,
+        file_object,
+        root_node_offset,
+        parent_namespace_segments,
+        parent_node_offsets=(),
     ):
         """Reads a namespace instance hierarchy.
 
@@ -2035,10 +2083,22 @@ class RepositoryFile(data_format.BinaryDataFile):
           root_node_offset (int): offset of the root node relative to the start of
               the file.
           parent_namespace_segments (list[str]): segments of the parent namespace.
+          parent_node_offsets (Optional[tuple[int]]): offsets of the parent root
+              nodes.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the hierarchy contains a loop.
         """
+        if root_node_offset in parent_node_offsets:
+            raise errors.ParseError(
+                f"Root node at offset: 0x{root_node_offset:08x} is its own parent."
+            )
+
+        parent_node_offsets = parent_node_offsets + (root_node_offset,)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadInstanceRootNode(node_cell.data, root_node_offset)
 
@@ -2078,6 +2138,7 @@ class RepositoryFile(data_format.BinaryDataFile):
                                 file_object,
                                 instance_leaf_value_node.instance_root_node_offset,
                                 namespace_segments,
+                                parent_node_offsets=parent_node_offsets,
                             )
 
     def ReadClassDefinitions(self):
-- 
2.43.0


From 34ee60c61e0b8f023b48665db4323ff4c42a180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:46 +0000
Subject: [PATCH 146/175] fix: format an integer of a WMI instance branch node
 as an integer in debug mode

---
 dtformats/wmi_repository.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.debug.yaml b/dtformats/wmi_repository.debug.yaml
index 77296c3..38067d4 100644
--- a/dtformats/wmi_repository.debug.yaml
+++ b/dtformats/wmi_repository.debug.yaml
@@ -310,7 +310,7 @@ attributes:
   format: custom:offset
 - name: unknown1
   description: "Unknown1"
-  format: binary_data
+  format: hexadecimal_8digits
 - name: instance_leaf_node_offset
   description: "Instance leaf node offset"
   format: custom:offset
-- 
2.43.0


From f008b14983d1c843feefd70e8ef26e23477c358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:10 +0000
Subject: [PATCH 147/175] fix: raise ParseError on a WMI repository without
 repository file

---
 dtformats/wmi_repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index aba9dba..e0f4a19 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4454,6 +4454,8 @@ class CIMRepository(data_format.BinaryDataFormat):
             self.format_version = "2.0"
 
             self._repository_file = self._OpenRepositoryFile(path)
+            if not self._repository_file:
+                raise errors.ParseError("Missing repository file.")
         else:
             index_mapping_file = self._OpenMappingFile(path, "index.map")
             if index_mapping_file:
-- 
2.43.0


From 24b3cac02f684d362162ff9e5f725bd9241383e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 148/175] fix: raise ParseError on incomplete WMI object record
 data

---
 dtformats/wmi_repository.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index e0f4a19..3071988 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1069,6 +1069,11 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the object record data segment cannot be read.
         """
+        if data_offset >= self._PAGE_SIZE:
+            raise errors.ParseError(
+                f"Object record data offset: {data_offset:d} value out of bounds"
+            )
+
         # Make the offset relative to the start of the file.
         file_offset = objects_page.page_offset + data_offset
 
@@ -1087,7 +1092,14 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         else:
             read_size = data_size
 
-        return self._file_object.read(read_size)
+        data = self._file_object.read(read_size)
+        if len(data) != read_size:
+            raise errors.ParseError(
+                f"Unable to read object record data segment at offset: "
+                f"{file_offset:d} (0x{file_offset:08x})"
+            )
+
+        return data
 
 
 class RepositoryFile(data_format.BinaryDataFile):
-- 
2.43.0


From 2a397061eff3e0156d77846fd1609f6544bf0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 149/175] fix: raise ParseError on an unsupported WMI type
 qualifier

---
 dtformats/wmi_repository.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 3071988..49826b8 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -120,6 +120,13 @@ class ClassValueDataMap:
                     property_definition.value_data_offset,
                     value_data_size,
                 )
+                if not isinstance(type_qualifier, str):
+                    raise errors.ParseError(
+                        f"Unsupported type qualifier for property: "
+                        f"{property_definition.name:s} of class: "
+                        f"{class_definition.name:s}"
+                    )
+
                 type_qualifier_lower = type_qualifier.lower()
                 if ":" in type_qualifier_lower:
                     type_qualifier_lower, _, _ = type_qualifier_lower.partition(":")
@@ -3254,6 +3261,12 @@ class Instance(CIMObject):
                     f"property_value_{property_value_data_map.type_qualifier:s}"
                 )
                 data_type_map = self._GetDataTypeMap(data_type_map_name)
+                if not data_type_map:
+                    raise errors.ParseError(
+                        f"Unsupported type qualifier: "
+                        f"{property_value_data_map.type_qualifier:s} of property: "
+                        f"{property_value_data_map.name:s}"
+                    )
 
                 property_value = self._ReadStructureFromByteStream(
                     property_values_data[property_map_offset:],
-- 
2.43.0


From 3daf0bc458d18c1846518b61ecb421ef2435edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 150/175] fix: open a WMI index binary-tree file with a damaged
 page in debug mode

---
 dtformats/wmi_repository.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 49826b8..2b35db6 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -655,7 +655,11 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
         if self._debug:
             file_offset = 0
             while file_offset < self._file_size:
-                self._ReadPage(file_object, file_offset)
+                try:
+                    self._ReadPage(file_object, file_offset)
+                except errors.ParseError as exception:
+                    self._DebugPrintText(f"Unable to read page: {exception!s}\n")
+
                 file_offset += self._PAGE_SIZE
 
 
-- 
2.43.0


From 1dfab326815d64f3f51701d134301483a678b27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 151/175] fix: print the data of the body of a WMI index page
 without the data after it in debug mode

---
 dtformats/wmi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 2b35db6..5e0a0a2 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -461,7 +461,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
 
             if self._debug:
                 self._DebugPrintData(
-                    "Page body data", page_body_data[:page_data_offset]
+                    "Page body data", page_body_data[: context.byte_size]
                 )
 
             if self._debug:
-- 
2.43.0


From 59a80963011270bad05631e9375a69406377720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 152/175] fix: read WMI repository files with damaged parts
 that are only read in debug mode

---
 dtformats/wmi_repository.py | 147 +++++++++++++++++++++---------------
 1 file changed, 86 insertions(+), 61 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 5e0a0a2..33312b3 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1,5 +1,6 @@
 """WMI Common Information Model (CIM) repository files."""
 
+import contextlib
 import glob
 import hashlib
 import logging
@@ -1159,6 +1160,14 @@ class RepositoryFile(data_format.BinaryDataFile):
         self._root_namespace_node_offset = None
         self._system_class_definition_root_node_offset = None
 
+    @contextlib.contextmanager
+    def _DebugRead(self):
+        """Context of a read that is only needed for the debug output."""
+        try:
+            yield
+        except errors.ParseError as exception:
+            self._DebugPrintText(f"{exception!s}\n")
+
     def _ReadChildObjectsList(self, file_object, list_node_offset):
         """Reads a child objects list.
 
@@ -1911,15 +1920,16 @@ class RepositoryFile(data_format.BinaryDataFile):
                     )
 
         if self._debug:
-            if root_node.child_objects_root_node_offset > 40:
-                for value_node_offset in self._ReadChildObjectsTree(
-                    file_object, root_node.child_objects_root_node_offset
-                ):
-                    if value_node_offset > 40:
-                        node_cell = self._ReadNodeCell(
-                            file_object, value_node_offset - 4
-                        )
-                        self._ReadNameNode(node_cell.data, value_node_offset)
+            with self._DebugRead():
+                if root_node.child_objects_root_node_offset > 40:
+                    for value_node_offset in self._ReadChildObjectsTree(
+                        file_object, root_node.child_objects_root_node_offset
+                    ):
+                        if value_node_offset > 40:
+                            node_cell = self._ReadNodeCell(
+                                file_object, value_node_offset - 4
+                            )
+                            self._ReadNameNode(node_cell.data, value_node_offset)
 
     def _ReadInstance(self, file_object, branch_node_offset):
         """Reads an instance.
@@ -2020,11 +2030,12 @@ class RepositoryFile(data_format.BinaryDataFile):
         root_node = self._ReadInstanceRootNode(node_cell.data, root_node_offset)
 
         if self._debug:
-            if root_node.name_node_offset > 40:
-                node_cell = self._ReadNodeCell(
-                    file_object, root_node.name_node_offset - 4
-                )
-                self._ReadNameNode(node_cell.data, root_node.name_node_offset)
+            with self._DebugRead():
+                if root_node.name_node_offset > 40:
+                    node_cell = self._ReadNodeCell(
+                        file_object, root_node.name_node_offset - 4
+                    )
+                    self._ReadNameNode(node_cell.data, root_node.name_node_offset)
 
         if root_node.instance_branch_node_offset > 40:
             instance = self._ReadInstance(
@@ -2034,15 +2045,16 @@ class RepositoryFile(data_format.BinaryDataFile):
                 yield instance
 
         if self._debug:
-            if root_node.unknown_node5_offset > 40 and root_node.unknown2 == 0:
-                node_cell = self._ReadNodeCell(
-                    file_object, root_node.unknown_node5_offset - 4
-                )
-                unknown_node5 = self._ReadUnknownNode5(
-                    node_cell.data, root_node.unknown_node5_offset
-                )
-                # TODO: clean up after debugging
-                _ = unknown_node5
+            with self._DebugRead():
+                if root_node.unknown_node5_offset > 40 and root_node.unknown2 == 0:
+                    node_cell = self._ReadNodeCell(
+                        file_object, root_node.unknown_node5_offset - 4
+                    )
+                    unknown_node5 = self._ReadUnknownNode5(
+                        node_cell.data, root_node.unknown_node5_offset
+                    )
+                    # TODO: clean up after debugging
+                    _ = unknown_node5
 
         if (
             root_node.child_objects_root_node_offset > 40
@@ -2057,15 +2069,16 @@ class RepositoryFile(data_format.BinaryDataFile):
                         node_cell.data, value_node_offset
                     )
                     if self._debug:
-                        if instance_leaf_value_node.name_node_offset > 40:
-                            node_cell = self._ReadNodeCell(
-                                file_object,
-                                instance_leaf_value_node.name_node_offset - 4,
-                            )
-                            self._ReadNameNode(
-                                node_cell.data,
-                                instance_leaf_value_node.name_node_offset,
-                            )
+                        with self._DebugRead():
+                            if instance_leaf_value_node.name_node_offset > 40:
+                                node_cell = self._ReadNodeCell(
+                                    file_object,
+                                    instance_leaf_value_node.name_node_offset - 4,
+                                )
+                                self._ReadNameNode(
+                                    node_cell.data,
+                                    instance_leaf_value_node.name_node_offset,
+                                )
 
                     if instance_leaf_value_node.instance_root_node_offset > 40:
                         yield from self._ReadInstanceHierarchy(
@@ -2075,22 +2088,23 @@ class RepositoryFile(data_format.BinaryDataFile):
                         )
 
         if self._debug:
-            if root_node.child_objects_list_node_offset > 40:
-                for value_node_offset in self._ReadChildObjectsList(
-                    file_object, root_node.child_objects_list_node_offset
-                ):
-                    if value_node_offset > 40:
-                        node_cell = self._ReadNodeCell(
-                            file_object, value_node_offset - 4
-                        )
-                        class_root_node = self._ReadClassDefinitionRootNode(
-                            node_cell.data, value_node_offset
-                        )
-                        if class_root_node.class_definition_branch_node_offset > 40:
-                            self._ReadClassDefinition(
-                                file_object,
-                                class_root_node.class_definition_branch_node_offset,
+            with self._DebugRead():
+                if root_node.child_objects_list_node_offset > 40:
+                    for value_node_offset in self._ReadChildObjectsList(
+                        file_object, root_node.child_objects_list_node_offset
+                    ):
+                        if value_node_offset > 40:
+                            node_cell = self._ReadNodeCell(
+                                file_object, value_node_offset - 4
+                            )
+                            class_root_node = self._ReadClassDefinitionRootNode(
+                                node_cell.data, value_node_offset
                             )
+                            if class_root_node.class_definition_branch_node_offset > 40:
+                                self._ReadClassDefinition(
+                                    file_object,
+                                    class_root_node.class_definition_branch_node_offset,
+                                )
 
     def _ReadNamespaceInstanceHierarchy(
         self,
@@ -2222,15 +2236,26 @@ class RepositoryFile(data_format.BinaryDataFile):
         self._system_class_definition_root_node_offset = None
 
         while file_offset < file_size:
-            if file_offset == next_node_bin_offset:
-                node_bin_header = self._ReadNodeBinHeader(file_object, file_offset)
-                file_offset += 4
+            try:
+                if file_offset == next_node_bin_offset:
+                    node_bin_header = self._ReadNodeBinHeader(file_object, file_offset)
+                    file_offset += 4
 
-                next_node_bin_offset += node_bin_header.node_bin_size
+                    next_node_bin_offset += node_bin_header.node_bin_size
+
+                node_cell = self._ReadNodeCell(
+                    file_object, file_offset, cell_number=cell_number
+                )
+            except errors.ParseError:
+                if (
+                    self._root_namespace_node_offset is None
+                    or self._system_class_definition_root_node_offset is None
+                ):
+                    raise
+
+                # The remaining node cells are only read for the debug output.
+                break
 
-            node_cell = self._ReadNodeCell(
-                file_object, file_offset, cell_number=cell_number
-            )
             if node_cell.size == 0:
                 break
 
@@ -2240,6 +2265,13 @@ class RepositoryFile(data_format.BinaryDataFile):
                 self._system_class_definition_root_node_offset = file_offset + 4
 
             node_cell_size = node_cell.size & 0x7FFFFFF
+            if (
+                self._root_namespace_node_offset is not None
+                and self._system_class_definition_root_node_offset is not None
+                and (not self._debug or node_cell_size < 4)
+            ):
+                break
+
             if node_cell_size < 4:
                 raise errors.ParseError(
                     f"Unsupported size: {node_cell_size:d} of node cell: "
@@ -2249,13 +2281,6 @@ class RepositoryFile(data_format.BinaryDataFile):
             file_offset += node_cell_size
             cell_number += 1
 
-            if (
-                not self._debug
-                and self._root_namespace_node_offset is not None
-                and self._system_class_definition_root_node_offset is not None
-            ):
-                break
-
 
 class CIMObject(data_format.BinaryDataFormat):
     """CIM object."""
-- 
2.43.0


From 248eaa77c16f81405709f5c206ea2532c3270f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 153/175] fix: retrieve no object record of a WMI key that does
 not refer to one

---
 dtformats/wmi_repository.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 33312b3..6444118 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4455,6 +4455,9 @@ class CIMRepository(data_format.BinaryDataFormat):
         data_type, _, mapped_page_number, record_identifier, data_size = (
             self._GetObjectRecordValuesFromKey(key_segments[-1])
         )
+        if data_type is None:
+            return None
+
         return self._GetObjectRecord(
             data_type, mapped_page_number, record_identifier, data_size
         )
-- 
2.43.0


From 0c8c5743a7373907ed67ae500145d3bff599bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:42 +0000
Subject: [PATCH 154/175] fix: decode every element of a NSSet in
 NSKeyedArchiver plists

---
 scripts/decode_nskeyedarchiver_plist.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 409a083..31a5f2b 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -186,11 +186,15 @@ class NSKeyedArchiverDecoder:
             plist_uid = self._GetPlistUID(value_object)
             referenced_object = objects_list[plist_uid]
 
-            decoded_element = self._DecodeContainer(referenced_object, objects_list)
+            # Note that an element can refer back to the object that contains it.
+            if isinstance(referenced_object, dict) and "container" in referenced_object:
+                decoded_element = self._DecodeContainer(referenced_object, objects_list)
+            else:
+                decoded_element = self._DecodeObject(referenced_object, objects_list)
 
             decoded_list.append(decoded_element)
 
-        return decoded_element
+        return decoded_list
 
     def _DecodeNSURL(self, encoded_object, objects_list):
         """Decodes a NSURL.
-- 
2.43.0


From 687a68ac6d3fa1e7c5caef9f5b6dc0934aa71231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:42 +0000
Subject: [PATCH 155/175] fix: keep zero, false and empty values of objects in
 NSKeyedArchiver plists

---
 scripts/decode_nskeyedarchiver_plist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 31a5f2b..49d55e6 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -57,7 +57,7 @@ class NSKeyedArchiverDecoder:
                 continue
 
             encoded_value = encoded_object.get(key)
-            if encoded_value:
+            if encoded_value is not None:
                 decoded_value = self._DecodeObject(encoded_value, objects_list)
 
                 decoded_dict[key] = decoded_value
@@ -81,7 +81,7 @@ class NSKeyedArchiverDecoder:
                 continue
 
             encoded_value = encoded_object.get(key)
-            if encoded_value:
+            if encoded_value is not None:
                 decoded_value = self._DecodeObject(encoded_value, objects_list)
 
                 decoded_dict[key] = decoded_value
-- 
2.43.0


From fc600ab08304fbfd5a93d143c71280f7bf11c022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 156/175] fix: print the records of a USN journal on separate
 lines

---
 scripts/usn_journal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/usn_journal.py b/scripts/usn_journal.py
index 90fffe0..8cb7d42 100755
--- a/scripts/usn_journal.py
+++ b/scripts/usn_journal.py
@@ -62,13 +62,14 @@ def Main():
     )
     usn_records.Open(options.source)
 
-    output_writer.WriteText("USN journal records information:")
+    output_writer.WriteText("USN journal records information:\n")
     output_writer.WriteText(
         ",".join(["Date and time", "Name", "File reference", "Parent file reference"])
+        + "\n"
     )
     for usn_record in usn_records.ReadRecords():
         # pylint: disable=protected-access
-        date_time = usn_record._FormatIntegerAsFiletime(usn_record.timestamp)
+        date_time, _ = usn_records._FormatIntegerAsFiletime(usn_record.timestamp)
 
         mft_entry = usn_record.file_reference & ((1 << 48) - 1)
         sequence_number = usn_record.file_reference >> 48
@@ -82,6 +83,7 @@ def Main():
             ",".join(
                 [date_time, usn_record.name, file_reference, parent_file_reference]
             )
+            + "\n"
         )
 
     usn_records.Close()
-- 
2.43.0


From 9756f02cae04c7973a2d8eca47ffdbdbed123b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 157/175] fix: print the content of keychain tables of which a
 column has no name

---
 scripts/keychain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/keychain.py b/scripts/keychain.py
index cf0ced9..3acbae1 100755
--- a/scripts/keychain.py
+++ b/scripts/keychain.py
@@ -130,7 +130,9 @@ def Main():
                 )
             )
 
-            print("\t".join([column.attribute_name for column in table.columns]))
+            print(
+                "\t".join([column.attribute_name or "NULL" for column in table.columns])
+            )
 
             for record in table.records:
                 record_values = []
-- 
2.43.0


From b736493d4b015501fe6be20511ad4a5ae25266e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 158/175] fix: print that a Spotlight store database has no
 such metadata item

---
 scripts/spotlight_storedb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index 7bdffdf..1c74ace 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -347,7 +347,7 @@ def Main():
 
                     table_view.AddRow([name, f"= {value_string:s}"])
 
-            table_view.Write(output_writer)
+                table_view.Write(output_writer)
 
         spotlight_store_database.Close()
 
-- 
2.43.0


From 344318ddf54747ae14205e2d19e2e0af90494a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 159/175] fix: print the items of a Spotlight store database
 that have a list of strings or dates

---
 scripts/spotlight_storedb.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index 1c74ace..4d3fcbf 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -79,6 +79,9 @@ def GetDateTimeString(timestamp):
 
     date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=timestamp)
     iso8601_string = date_time.CopyToDateTimeStringISO8601()
+    if not iso8601_string:
+        return f"{timestamp!s}"
+
     return "".join(
         [iso8601_string[:10], " ", iso8601_string[11:26], " ", iso8601_string[33:35]]
     )
@@ -336,11 +339,20 @@ def Main():
                     if not metadata_attribute:
                         value_string = "(null)"
 
-                    elif metadata_attribute.value_type == 0x0B:
+                    elif metadata_attribute.value_type == 0x0B and isinstance(
+                        metadata_attribute.value, str
+                    ):
                         value_string = f'"{metadata_attribute.value:s}"'
 
                     elif metadata_attribute.value_type == 0x0C:
-                        value_string = GetDateTimeString(metadata_attribute.value)
+                        if isinstance(metadata_attribute.value, (list, tuple)):
+                            value = [
+                                GetDateTimeString(timestamp)
+                                for timestamp in metadata_attribute.value
+                            ]
+                            value_string = f"{value!s}"
+                        else:
+                            value_string = GetDateTimeString(metadata_attribute.value)
 
                     else:
                         value_string = f"{metadata_attribute.value!s}"
-- 
2.43.0


From 23c80526d55978f03161dc156af2abd3c07a59de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:52 +0000
Subject: [PATCH 160/175] fix: print unified logging entries as valid JSON
 whatever characters their strings have

---
 scripts/unified_logging.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/scripts/unified_logging.py b/scripts/unified_logging.py
index 07e6988..3b086c1 100755
--- a/scripts/unified_logging.py
+++ b/scripts/unified_logging.py
@@ -3,8 +3,8 @@
 
 import argparse
 import heapq
+import json
 import logging
-import re
 import sys
 
 from dfdatetime import posix_time as dfdatetime_posix_time
@@ -85,6 +85,18 @@ def GetDateTimeString(timestamp):
     )
 
 
+def EscapeJSONString(string):
+    """Escapes the characters of a string that need to be in JSON.
+
+    Args:
+      string (str): string.
+
+    Returns:
+      str: escaped string.
+    """
+    return json.dumps(string, ensure_ascii=False)[1:-1].replace("/", "\\/")
+
+
 def Main():
     """The main program function.
 
@@ -241,8 +253,6 @@ def Main():
         for log_entry in unified_logging_file.ReadLogEntries():
             log_entries_heap.PushLogEntry(log_entry)
 
-        escape_regex = re.compile(r'([\\/"])', re.MULTILINE)
-
         if options.format == "json":
             print("[{")
         else:
@@ -264,18 +274,16 @@ def Main():
 
             if options.format == "json":
                 boot_identifier = str(log_entry.boot_identifier).upper()
-                category = log_entry.category or ""
+                category = EscapeJSONString(log_entry.category or "")
                 event_type = log_entry.event_type or ""
-                sub_system = log_entry.sub_system or ""
+                sub_system = EscapeJSONString(log_entry.sub_system or "")
 
                 event_message = log_entry.event_message or ""
                 event_message = event_message.rstrip()
                 if len(event_message) >= 1085:
                     event_message = "".join([event_message[:1087], "<…>"])
 
-                event_message = escape_regex.sub(r"\\\1", event_message)
-                event_message = event_message.replace("\n", "\\n")
-                event_message = event_message.replace("\t", "\\t")
+                event_message = EscapeJSONString(event_message)
 
                 creator_activity_identifier = log_entry.creator_activity_identifier
 
@@ -285,9 +293,7 @@ def Main():
                     format_string = ""
                 else:
                     format_string = log_entry.format_string or ""
-                    format_string = escape_regex.sub(r"\\\1", format_string)
-                    format_string = format_string.replace("\n", "\\n")
-                    format_string = format_string.replace("\t", "\\t")
+                    format_string = EscapeJSONString(format_string)
 
                 process_image_identifier = ""
                 if log_entry.process_image_identifier:
@@ -296,7 +302,7 @@ def Main():
                     ).upper()
 
                 process_image_path = log_entry.process_image_path or ""
-                process_image_path = escape_regex.sub(r"\\\1", process_image_path)
+                process_image_path = EscapeJSONString(process_image_path)
 
                 sender_image_identifier = ""
                 if log_entry.sender_image_identifier:
@@ -305,8 +311,7 @@ def Main():
                     ).upper()
 
                 sender_image_path = log_entry.sender_image_path or ""
-                sender_image_path = sender_image_path.replace('"', '\\"')
-                sender_image_path = sender_image_path.replace("/", "\\/")
+                sender_image_path = EscapeJSONString(sender_image_path)
 
                 if event_type == "timesyncEvent":
                     lines = [
@@ -458,7 +463,7 @@ def Main():
                         )
 
                     elif log_entry.signpost_identifier is not None:
-                        signpost_name = log_entry.signpost_name or ""
+                        signpost_name = EscapeJSONString(log_entry.signpost_name or "")
 
                         lines.append(f'  "signpostName" : "{signpost_name:s}",')
 
-- 
2.43.0


From 6bdecaa9ffeef17dc7fe1bec02c27ff7bc28c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:52 +0000
Subject: [PATCH 161/175] fix: print a unified logging file without entries as
 an empty JSON list

---
 scripts/unified_logging.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/unified_logging.py b/scripts/unified_logging.py
index 3b086c1..fa4f9a6 100755
--- a/scripts/unified_logging.py
+++ b/scripts/unified_logging.py
@@ -253,8 +253,10 @@ def Main():
         for log_entry in unified_logging_file.ReadLogEntries():
             log_entries_heap.PushLogEntry(log_entry)
 
+        log_entries = list(log_entries_heap.PopLogEntries())
+
         if options.format == "json":
-            print("[{")
+            print("[{" if log_entries else "[")
         else:
             print(
                 "Timestamp                       Thread     Type        "
@@ -262,7 +264,7 @@ def Main():
             )
 
         parent_per_activity_identifier = {}
-        for index, log_entry in enumerate(log_entries_heap.PopLogEntries()):
+        for index, log_entry in enumerate(log_entries):
             if options.format == "json" and index > 0:
                 print("},{")
 
@@ -542,7 +544,7 @@ def Main():
                 )
 
         if options.format == "json":
-            print("}]", end="")
+            print("}]" if log_entries else "]", end="")
 
     unified_logging_file.Close()
 
-- 
2.43.0


From 2b7cd942d3df75642756d880cdb57b5807ef3a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:09 +0000
Subject: [PATCH 162/175] fix: read LevelDB log files that are smaller than the
 signature of a table file

---
 scripts/leveldb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/leveldb.py b/scripts/leveldb.py
index 770a43d..603d242 100755
--- a/scripts/leveldb.py
+++ b/scripts/leveldb.py
@@ -84,7 +84,10 @@ def Main():
         return False
 
     try:
-        file_object.seek(-8, os.SEEK_END)
+        file_object.seek(0, os.SEEK_END)
+        file_offset = max(0, file_object.tell() - 8)
+
+        file_object.seek(file_offset, os.SEEK_SET)
         file_signature = file_object.read(8)
     finally:
         file_object.close()
-- 
2.43.0


From f5ba4f57990927a6f7f293683c648f3c04ad5260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:30 +0000
Subject: [PATCH 163/175] fix: print the time zone of the dates of an item of a
 Spotlight store database

---
 scripts/spotlight_storedb.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index 4d3fcbf..241fecd 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -83,7 +83,14 @@ def GetDateTimeString(timestamp):
         return f"{timestamp!s}"
 
     return "".join(
-        [iso8601_string[:10], " ", iso8601_string[11:26], " ", iso8601_string[33:35]]
+        [
+            iso8601_string[:10],
+            " ",
+            iso8601_string[11:26],
+            " ",
+            iso8601_string[26:29],
+            iso8601_string[30:32],
+        ]
     )
 
 
-- 
2.43.0


From 8770d8ad0af498106fc019ab66e69e2f6056a395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:41 +0000
Subject: [PATCH 164/175] fix: hash the file entries of CPIO archives

---
 scripts/cpio.py | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/scripts/cpio.py b/scripts/cpio.py
index 189ecf3..f9336ba 100755
--- a/scripts/cpio.py
+++ b/scripts/cpio.py
@@ -89,28 +89,29 @@ class CPIOArchiveFileHasher:
 
             cpio_file_object = None
 
+            data_file_object = data_range.DataRange(
+                file_object,
+                data_offset=file_offset,
+                data_size=file_size - file_offset,
+            )
             if file_type == "cpio":
-                file_object.seek(file_offset, os.SEEK_SET)
-                cpio_file_object = file_object
-            elif file_type in ("bzip", "gzip", "xz"):
-                compressed_data_size = file_size - file_offset
-                compressed_data_file_object = data_range.DataRange(
-                    file_object, data_offset=file_offset, data_size=compressed_data_size
-                )
-
-                if file_type == "bzip":
-                    cpio_file_object = bz2.BZ2File(compressed_data_file_object)
-                elif file_type == "gzip":
-                    cpio_file_object = gzip.GzipFile(
-                        fileobj=compressed_data_file_object
-                    )  # pylint: disable=no-member
-                elif file_type == "xz" and lzma:
-                    cpio_file_object = lzma.LZMAFile(compressed_data_file_object)
+                cpio_file_object = data_file_object
+            elif file_type == "bzip":
+                cpio_file_object = bz2.BZ2File(data_file_object)
+            elif file_type == "gzip":
+                cpio_file_object = gzip.GzipFile(
+                    fileobj=data_file_object
+                )  # pylint: disable=no-member
+            elif file_type == "xz" and lzma:
+                cpio_file_object = lzma.LZMAFile(data_file_object)
 
             cpio_archive_file = cpio.CPIOArchiveFile(debug=self._debug)
             cpio_archive_file.ReadFileObject(cpio_file_object)
 
-            for file_entry in sorted(cpio_archive_file.GetFileEntries()):
+            for file_entry in sorted(
+                cpio_archive_file.GetFileEntries(),
+                key=lambda file_entry: file_entry.path,
+            ):
                 if file_entry.data_size == 0:
                     continue
 
@@ -123,13 +124,17 @@ class CPIOArchiveFileHasher:
                 digest_hash = sha256_context.hexdigest()
                 self._output_writer.WriteText(f"{digest_hash:s}\t{file_entry.path:s}\n")
 
+            # Compressed data is read up to the end of the file.
+            if file_type != "cpio":
+                break
+
             file_offset += cpio_archive_file.size
 
             padding_size = file_offset % 16
             if padding_size > 0:
                 file_offset += 16 - padding_size
 
-            cpio_archive_file.Close()
+        file_object.close()
 
 
 def Main():
-- 
2.43.0


From 0788a6852a9f22c5bb4f74b241fa376ded8e2f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:41 +0000
Subject: [PATCH 165/175] fix: read structures of which the size hint exceeds
 the data that remains

---
 dtformats/data_format.py | 25 +++++++++++++++++++------
 dtformats/errors.py      | 18 ++++++++++++++++++
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 429dab8..65d7f35 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -647,8 +647,11 @@ class BinaryDataFormat:
             read_count = len(data)
 
             if read_count != data_size:
-                read_error = (
-                    f"missing data (read: {read_count:d}, requested: {data_size:d})"
+                raise errors.MissingDataError(
+                    f"Unable to read {description:s} data at offset: {file_offset:d} "
+                    f"(0x{file_offset:08x}) with error: missing data (read: "
+                    f"{read_count:d}, requested: {data_size:d})",
+                    data,
                 )
 
         except (MemoryError, OSError, OverflowError, ValueError) as exception:
@@ -734,14 +737,21 @@ class BinaryDataFormat:
         context = None
         data = b""
         last_data_size = 0
+        read_error = None
 
         data_size = data_type_map.GetSizeHint()
-        while data_size != last_data_size:
+        while data_size != last_data_size and not read_error:
             read_offset = file_offset + last_data_size
             read_size = data_size - last_data_size
-            data_segment = self._ReadData(
-                file_object, read_offset, read_size, description
-            )
+            try:
+                data_segment = self._ReadData(
+                    file_object, read_offset, read_size, description
+                )
+            except errors.MissingDataError as exception:
+                # Note that the size hint can exceed the data that is available.
+                data_segment = exception.data
+                read_error = exception
+
             data = b"".join([data, data_segment])
 
             try:
@@ -775,6 +785,9 @@ class BinaryDataFormat:
             last_data_size = data_size
             data_size = data_type_map.GetSizeHint(context=context)
 
+        if read_error:
+            raise read_error
+
         raise errors.ParseError(
             f"Unable to read {description:s} at offset: {file_offset:d} "
             f"(0x{file_offset:08x})"
diff --git a/dtformats/errors.py b/dtformats/errors.py
index bc0bb36..a5cc83e 100644
--- a/dtformats/errors.py
+++ b/dtformats/errors.py
@@ -3,3 +3,21 @@
 
 class ParseError(Exception):
     """Error that is raised when data cannot be parsed."""
+
+
+class MissingDataError(ParseError):
+    """Error that is raised when less data is available than requested.
+
+    Attributes:
+      data (bytes): data that is available.
+    """
+
+    def __init__(self, message, data):
+        """Initializes a missing data error.
+
+        Args:
+          message (str): error message.
+          data (bytes): data that is available.
+        """
+        super().__init__(message)
+        self.data = data
-- 
2.43.0


From b231f243d4e720cf07ceaa4a6c59e6c27f7e98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:17 +0000
Subject: [PATCH 166/175] fix: read integer values of an AMCache file as
 unsigned

---
 dtformats/amcache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index 8855fb9..cb4a271 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -72,6 +72,9 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
 
             elif value.type in (4, 5, 11):
                 value_data = value.get_data_as_integer()
+                # Note that pyregf returns a signed integer.
+                if value_data is not None and value_data < 0:
+                    value_data += 1 << (64 if value.type == 11 else 32)
 
             elif value.type == 7:
                 value_data = list(value.get_data_as_multi_string())
-- 
2.43.0


From 5803ceeefeb8a4472a1c83836b5b2ebb1c5a0947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:35 +0000
Subject: [PATCH 167/175] fix: print the file attribute flags of shell items
 without additional digits

---
 scripts/jump_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/jump_list.py b/scripts/jump_list.py
index d259775..a491d31 100755
--- a/scripts/jump_list.py
+++ b/scripts/jump_list.py
@@ -257,7 +257,7 @@ class StdoutWriter(output_writers.StdoutWriter):
         self.WriteValue("\t\t\tModification time", date_time_string)
 
         self.WriteValue(
-            "\t\t\tFile attribute flags", f"0x08{fwsi_item.file_attribute_flags:08x}"
+            "\t\t\tFile attribute flags", f"0x{fwsi_item.file_attribute_flags:08x}"
         )
 
         self.WriteValue("\t\t\tName", fwsi_item.name)
-- 
2.43.0


From c6de4053e2a60493608128782d4f385f50cc63f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:36 +0000
Subject: [PATCH 168/175] fix: print the sequence number of a file reference to
 MFT entry 0

---
 scripts/jump_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/jump_list.py b/scripts/jump_list.py
index a491d31..3dd4a6d 100755
--- a/scripts/jump_list.py
+++ b/scripts/jump_list.py
@@ -213,7 +213,7 @@ class StdoutWriter(output_writers.StdoutWriter):
 
                     file_reference = extension_block.file_reference
                     if file_reference is not None:
-                        if file_reference > 0x1000000000000:
+                        if file_reference >= 0x1000000000000:
                             mft_entry = file_reference & 0xFFFFFFFFFFFF
                             sequence_number = file_reference >> 48
                             file_reference = f"{mft_entry:d}-{sequence_number:d}"
-- 
2.43.0


From 52eb6f7597ee37866ceeb2f789aa6964c867a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:05 +0000
Subject: [PATCH 169/175] fix: split a relative path so that joining its
 segments names the same file

---
 dtformats/file_system.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/file_system.py b/dtformats/file_system.py
index e48b0ed..8711146 100644
--- a/dtformats/file_system.py
+++ b/dtformats/file_system.py
@@ -189,5 +189,9 @@ class NativeFileSystemHelper:
           list[str]: path segments without the root path segment, which is
               an empty string.
         """
+        # JoinPath creates an absolute path.
+        if path and not os.path.isabs(path):
+            path = os.path.abspath(path)
+
         # Split the path with the path separator and remove empty path segments.
         return list(filter(None, path.split(os.path.sep)))
-- 
2.43.0


From 96811d40c067b2c7905050ccd084379793fa80b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:05 +0000
Subject: [PATCH 170/175] fix: do not treat a path in a storage media image as
 one of the host

---
 dtformats/spotlight_storedb.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 65b3f4f..834a961 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1,6 +1,5 @@
 """Apple Spotlight store database files."""
 
-import os
 import zlib
 
 import lz4.block
@@ -1942,8 +1941,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the streams map cannot be read.
         """
-        path = os.path.abspath(self._path)
-        path_segments = self._file_system_helper.SplitPath(path)
+        path_segments = self._file_system_helper.SplitPath(self._path)
 
         path_segments.pop(-1)
         path_segments.append(f"dbStr-{streams_map_number:d}.map.header")
-- 
2.43.0


From e03a2a24a9993fb071080d3f247392ac38fe6d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:05 +0000
Subject: [PATCH 171/175] fix: open a CIM repository with a relative path

---
 dtformats/wmi_repository.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 6444118..43ec2c2 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4486,6 +4486,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Raises:
           ParseError: if the files of the CIM repository cannot be opened.
         """
+        path = os.path.abspath(path)
         basename = os.path.basename(path).lower()
 
         if basename in (
-- 
2.43.0


From 144760d4e902da69a41f79ebc5cc50ebbc7dda76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:05 +0000
Subject: [PATCH 172/175] fix: use the file system helper and relative paths
 for the files of a Chrome cache directory

---
 dtformats/chrome_cache.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 9ae8058..aac39f3 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -222,14 +222,19 @@ class DataBlockFile(data_format.BinaryDataFile):
 
     SIGNATURE = 0xC104CAC3
 
-    def __init__(self, debug=False, output_writer=None):
+    def __init__(self, debug=False, output_writer=None, file_system_helper=None):
         """Initializes a Chrome Cache data block file.
 
         Args:
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
+          file_system_helper (Optional[FileSystemHelper]): file system helper.
         """
-        super().__init__(debug=debug, output_writer=output_writer)
+        super().__init__(
+            debug=debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
+        )
         self.block_size = None
         self.format_version = None
         self.number_of_entries = None
@@ -475,14 +480,19 @@ class IndexFile(data_format.BinaryDataFile):
 
     SIGNATURE = 0xC103CAC3
 
-    def __init__(self, debug=False, output_writer=None):
+    def __init__(self, debug=False, output_writer=None, file_system_helper=None):
         """Initializes a Chrome Cache index file.
 
         Args:
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
+          file_system_helper (Optional[FileSystemHelper]): file system helper.
         """
-        super().__init__(debug=debug, output_writer=output_writer)
+        super().__init__(
+            debug=debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
+        )
         self.creation_time = None
         self.format_version = None
         self.index_table = {}
@@ -694,11 +704,17 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the directory cannot be read.
         """
-        index_file_path = self._file_system_helper.JoinPath([path, "index"])
+        path_segments = self._file_system_helper.SplitPath(path)
+
+        index_file_path = self._file_system_helper.JoinPath([*path_segments, "index"])
         if not self._file_system_helper.CheckFileExistsByPath(index_file_path):
             raise errors.ParseError(f"Missing index file: {index_file_path:s}")
 
-        index_file = IndexFile(debug=self._debug, output_writer=self._output_writer)
+        index_file = IndexFile(
+            debug=self._debug,
+            file_system_helper=self._file_system_helper,
+            output_writer=self._output_writer,
+        )
         index_file.Open(index_file_path)
 
         data_block_files = {}
@@ -706,7 +722,7 @@ class ChromeCacheParser:
         for cache_address in index_file.index_table.values():
             if cache_address.filename not in data_block_files:
                 data_block_file_path = self._file_system_helper.JoinPath(
-                    [path, cache_address.filename]
+                    [*path_segments, cache_address.filename]
                 )
                 if not self._file_system_helper.CheckFileExistsByPath(
                     data_block_file_path
@@ -716,7 +732,9 @@ class ChromeCacheParser:
 
                 else:
                     data_block_file = DataBlockFile(
-                        debug=self._debug, output_writer=self._output_writer
+                        debug=self._debug,
+                        file_system_helper=self._file_system_helper,
+                        output_writer=self._output_writer,
                     )
                     data_block_file.Open(data_block_file_path)
 
-- 
2.43.0


From b9dba6c86000febeef6fc81a2852f4735df8bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:05 +0000
Subject: [PATCH 173/175] fix: raise OSError for a file that does not exist
 when using dfVFS

---
 dtformats/data_format.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 65d7f35..c99285a 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -941,9 +941,11 @@ class BinaryDataFile(BinaryDataFormat):
             raise OSError("File already opened")
 
         self._file_size = self._file_system_helper.GetFileSizeByPath(path)
-        self._path = path
-
         file_object = self._file_system_helper.OpenFileByPath(path)
+        if not file_object:
+            raise OSError(f"Unable to open file: {path!s}")
+
+        self._path = path
 
         try:
             self.ReadFileObject(file_object)
-- 
2.43.0


From 58a7a802ce3d5266e70734e54166ff5e0a119f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:05 +0000
Subject: [PATCH 174/175] fix: read LevelDB and IndexedDB files from a storage
 media image

---
 scripts/indexeddb.py |  4 +++-
 scripts/leveldb.py   | 12 +++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/scripts/indexeddb.py b/scripts/indexeddb.py
index 659fabe..318bfd2 100755
--- a/scripts/indexeddb.py
+++ b/scripts/indexeddb.py
@@ -77,7 +77,9 @@ def Main():
         return False
 
     indexeddb_file = indexeddb.IndexedDBDatabaseTableFile(
-        debug=options.debug, output_writer=output_writer
+        debug=options.debug,
+        file_system_helper=file_system_helper,
+        output_writer=output_writer,
     )
 
     indexeddb_file.Open(options.source)
diff --git a/scripts/leveldb.py b/scripts/leveldb.py
index 603d242..ace941c 100755
--- a/scripts/leveldb.py
+++ b/scripts/leveldb.py
@@ -96,17 +96,23 @@ def Main():
 
     if file_signature == b"\x57\xfb\x80\x8b\x24\x75\x47\xdb":
         leveldb_file = leveldb.LevelDBDatabaseTableFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     elif path_segments[-1].startswith("MANIFEST"):
         leveldb_file = leveldb.LevelDBDatabaseDescriptorFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     else:
         leveldb_file = leveldb.LevelDBDatabaseLogFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     leveldb_file.Open(options.source)
-- 
2.43.0


From aaff9a253fb43ae86094d148dc2b1de2b27de9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:06 +0000
Subject: [PATCH 175/175] fix: do not read files of the host if a storage media
 image has no supported file system

---
 dtformats/dfvfs_helpers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/dfvfs_helpers.py b/dtformats/dfvfs_helpers.py
index 19b1605..ae1eed4 100644
--- a/dtformats/dfvfs_helpers.py
+++ b/dtformats/dfvfs_helpers.py
@@ -304,6 +304,11 @@ def ParseDFVFSCLIArguments(options):
     if len(base_path_specs) != 1:
         return None
 
+    # dfVFS falls back to the file system of the host if the image does not
+    # contain a supported file system.
+    if base_path_specs[0].type_indicator == dfvfs_definitions.TYPE_INDICATOR_OS:
+        return None
+
     file_system_helper.OpenFileSystem(base_path_specs[0])
 
     return file_system_helper
-- 
2.43.0

