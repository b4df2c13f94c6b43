From 0a2d20592242a3eb386a0dcc62f53e0aede95890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 001/160] fix: Dict item deletion keeps key order index
 consistent in linear time

---
 hachoir/core/dict.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/hachoir/core/dict.py b/hachoir/core/dict.py
index c55e3f4..cfdcf24 100644
--- a/hachoir/core/dict.py
+++ b/hachoir/core/dict.py
@@ -141,18 +141,9 @@ class Dict(object):
             raise IndexError("list assignment index out of range (%s/%s)"
                              % (index, len(self._value_list)))
         del self._value_list[index]
-        del self._key_list[index]
-
-        # First loop which may alter self._index
-        for key, item_index in self._index.items():
-            if item_index == index:
-                del self._index[key]
-                break
-
-        # Second loop update indexes
-        for key, item_index in self._index.items():
-            if index < item_index:
-                self._index[key] -= 1
+        del self._index[self._key_list.pop(index)]
+        for key in self._key_list[index:]:
+            self._index[key] -= 1
 
     def insert(self, index, key, value):
         """
-- 
2.43.0


From 4347a179ad2c541863421c263dcf34082c8cc510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 002/160] fix: length of a vector which was truncated

---
 hachoir/field/vector.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hachoir/field/vector.py b/hachoir/field/vector.py
index fabb70e..31c8fc5 100644
--- a/hachoir/field/vector.py
+++ b/hachoir/field/vector.py
@@ -16,13 +16,10 @@ class GenericVector(FieldSet):
         self._item_name = item_name
         FieldSet.__init__(self, parent, name, description, size=size)
 
-    def __len__(self):
-        return self.__nb_items
-
     def createFields(self):
         name = self._item_name + "[]"
         parser = self._item_class
-        for index in range(len(self)):
+        for index in range(self.__nb_items):
             yield parser(self, name)
 
 
-- 
2.43.0


From 539982e6adcc9f5b213d168bd67de91f5f295c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 003/160] fix: seekable field sets which end or are truncated
 before their last field

---
 hachoir/field/seekable_field_set.py | 37 +++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index 4448f42..98aa20e 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -57,16 +57,10 @@ class RootSeekableFieldSet(GenericFieldSet):
         message = ["stop parser"]
         self._field_generator = None
 
-        # If last field is too big, delete it
-        while self._size < self._current_size:
-            field = self._deleteField(len(self._fields) - 1)
-            message.append("delete field %s" % field.path)
-        assert self._current_size <= self._size
-
         blocks = [(x.absolute_address, x.size) for x in self._fields]
         fields = []
-        self._size = max(self._size, max(
-            a + b for a, b in blocks) - self.absolute_address)
+        self._size = max([self._size] + [
+            a + b - self.absolute_address for a, b in blocks])
         for start, length in getgaps(self.absolute_address, self._size, blocks):
             self.seekBit(start, relative=False)
             field = createRawField(self, length, "unparsed[]")
@@ -81,11 +75,34 @@ class RootSeekableFieldSet(GenericFieldSet):
             self.warning("[Autofix] Fix parser error: " + message)
         return fields
 
+    def _truncate(self, size):
+        assert size > 0
+        self._size = size
+        # The fields may be in any order
+        for index in reversed(range(len(self._fields))):
+            field = self._fields.values[index]
+            if size <= field._address:
+                del self._fields[index]
+            elif size < field._address + field.size:
+                new_size = size - field._address
+                if field.is_field_set:
+                    field._truncate(new_size)
+                else:
+                    del self._fields[index]
+                    self._current_size = field._address
+                    field = createRawField(self, new_size, "raw[]")
+                    self.setUniqueFieldName(field)
+                    self._fields.insert(index, field.name, field)
+        self._current_size = min(self._current_size, size)
+
     def _stopFeeding(self):
         new_field = None
         if self._size is None:
-            if self._parent:
-                self._size = self._current_size
+            if not self._parent:
+                # The size of the stream is still unknown
+                self._field_generator = None
+                return None
+            self._size = self._current_size
 
         new_field = self._fixLastField()
         self._field_generator = None
-- 
2.43.0


From 6185a5d1ced357511dd5337fb1c80d5b1be73b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 004/160] fix: iterating on a field set whose parser is stopped
 by autofix; truncate a field set smaller than the fields already read

---
 hachoir/field/generic_field_set.py | 40 +++++++++++-------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 74d8898..1ac1df8 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -181,6 +181,10 @@ class GenericFieldSet(BasicFieldSet):
                 raise
         self.__is_feeding = False
 
+        # Field set smaller than the fields which were read to get its size?
+        if field.is_field_set and 0 < field.size < field._current_size:
+            field._truncate(field.size)
+
         # No more place?
         dsize = self._checkSize(field._address + field.size, False)
         if (dsize is not None and dsize < 0) or (field.is_field_set and field.size <= 0):
@@ -377,32 +381,16 @@ class GenericFieldSet(BasicFieldSet):
         Create a generator to iterate on each field, may create new
         fields when needed
         """
-        try:
-            done = 0
-            while True:
-                if done == len(self._fields):
-                    if self._field_generator is None:
-                        break
-                    self._addField(next(self._field_generator))
-                for field in self._fields.values[done:]:
-                    yield field
-                    done += 1
-        except StopIteration:
-            field = self._stopFeeding()
-            if isinstance(field, Field):
-                yield field
-            elif hasattr(field, '__iter__'):
-                for f in field:
-                    yield f
-        except Exception as err:
-            field = self._fixFeedError(err)
-            if isinstance(field, Field):
-                yield field
-            elif hasattr(field, '__iter__'):
-                for f in field:
-                    yield f
-            elif field is False:
-                raise
+        done = 0
+        while True:
+            if done < len(self._fields):
+                yield self._fields.values[done]
+                done += 1
+            elif self._field_generator is None:
+                break
+            else:
+                # May add no field, or more than one field
+                self.readMoreFields(1)
 
     def _isDone(self):
         return (self._field_generator is None)
-- 
2.43.0


From c9e8e0f32b0d94ea4cc9021e97694f3b6fd2dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 005/160] fix: infinite loop of the git pack parser on
 truncated data

---
 hachoir/parser/misc/git_pack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 74dcfe9..4a83e01 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -7,7 +7,7 @@ FIXME: there are probably still some endianness bugs in this parser.
 """
 
 from hachoir.parser import Parser
-from hachoir.field import (UInt8, UInt32, String, SubFile, FieldSet, Bit, Bits, RawBytes, Enum, GenericInteger)
+from hachoir.field import (UInt8, UInt32, String, SubFile, FieldSet, Bit, Bits, RawBytes, Enum, GenericInteger, ParserError)
 from hachoir.core.endian import LITTLE_ENDIAN, BIG_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.parser.common.deflate import Deflate
@@ -199,6 +199,8 @@ class ObjectEntry(FieldSet):
         total_bytes_read = 0
         while not decompressor.eof:
             max_remaining_bytes = (stream.size - read_addr_in_bits) // 8
+            if max_remaining_bytes <= 0:
+                raise ParserError("Truncated compressed data")
             num_bytes_to_read = min(1000, max_remaining_bytes)
             bytes_read = stream.readBytes(read_addr_in_bits, num_bytes_to_read)
             total_bytes_read += len(bytes_read)
-- 
2.43.0


From 6bc45a8aabd3eceeccff13c2a2710f8f2bb4120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 006/160] fix: parser selection must not depend on the hash
 seed

---
 hachoir/parser/guess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index 9753608..ff87cb3 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -19,7 +19,7 @@ class QueryParser(object):
         self.use_fallback = False
         self.parser_args = None
         self.db = HachoirParserList.getInstance()
-        self.parsers = set(self.db)
+        self.parsers = list(self.db)
         parsers = []
         for tag in tags:
             if not self.parsers:
-- 
2.43.0


From 199762721511c9e0c6058d36b756fda7b7dec0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 007/160] fix: chm parser: remove debug output, reject a giant
 quickref density

---
 hachoir/parser/misc/chm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/chm.py b/hachoir/parser/misc/chm.py
index 7e76965..8893016 100644
--- a/hachoir/parser/misc/chm.py
+++ b/hachoir/parser/misc/chm.py
@@ -141,11 +141,13 @@ class PMGL(FieldSet):
             entry_count += 1
 
         # Padding
-        quickref_frequency = 1 + (1 << self["/dir/itsp/density"].value)
+        density = self["/dir/itsp/density"].value
+        if 32 < density:
+            raise ParserError("Invalid quickref density")
+        quickref_frequency = 1 + (1 << density)
         num_quickref = (entry_count // quickref_frequency)
         if entry_count % quickref_frequency == 0:
             num_quickref -= 1
-        print(self.current_size // 8, quickref_frequency, num_quickref)
         padding = (self["free_space"].value - (num_quickref * 2 + 2))
         if padding:
             yield PaddingBytes(self, "padding", padding)
-- 
2.43.0


From e0f40facb82b769ab7ccad5c14eb775aecd7d964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 008/160] fix: Mach-O parser: giant alignment

---
 hachoir/parser/program/macho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/macho.py b/hachoir/parser/program/macho.py
index 227a688..e9cb1a6 100644
--- a/hachoir/parser/program/macho.py
+++ b/hachoir/parser/program/macho.py
@@ -474,7 +474,8 @@ class MachoFatArch(FieldSet):
         yield textHandler(UInt32(self, "offset"), hexadecimal)
         yield UInt32(self, "size")
         yield UInt32(self, "align")
-        self['align'].createDescription = lambda: str(1 << self['align'].value)
+        if self['align'].value < 64:
+            self['align'].createDescription = lambda: str(1 << self['align'].value)
 
 
 class MachoFatHeader(FieldSet):
-- 
2.43.0


From 931a004ae3f4845fb20851efc9d347872eb70557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 009/160] fix: ext2 parser: reject a giant block size

---
 hachoir/parser/file_system/ext2.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index 44db648..3dd9ddb 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -571,6 +571,8 @@ class SuperBlock(FieldSet):
         yield TimestampUnix32(self, "mkfs_time", "When the filesystem was created")
         yield RawBytes(self, "jnl_blocks", 17 * 4, "Backup of the journal inode's i_block and i_size")
 
+        if 16 < self['log_block_size'].value:
+            raise ParserError("Invalid (log) block size")
         yield PaddingBytes(self, "reserved[]", (1024 << self['log_block_size'].value) - self.current_size // 8)
 
     def _getGroupCount(self):
@@ -768,6 +770,8 @@ class EXT2_FS(HachoirParser, RootSeekableFieldSet):
         # Read superblock
         superblock = SuperBlock(self, "superblock")
         yield superblock
+        if 16 < superblock["log_block_size"].value:
+            raise ParserError("Invalid (log) block size")
         self.block_size = 1024 << superblock["log_block_size"].value  # in bytes
 
         if self.block_size == 1024:
@@ -794,6 +798,8 @@ class EXT2_FS(HachoirParser, RootSeekableFieldSet):
 
     def createDescription(self):
         superblock = self.getSuperblock()
+        if 16 < superblock["log_block_size"].value:
+            raise ParserError("Invalid (log) block size")
         block_size = 1024 << superblock["log_block_size"].value
         nb_block = superblock["blocks_count"].value
         total = nb_block * block_size
-- 
2.43.0


From f15eba896c88ed8a77e532ef88f8231cdfb0d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 010/160] fix: filename suffix of a damaged file

---
 hachoir/parser/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/parser.py b/hachoir/parser/parser.py
index a00bf76..5460986 100644
--- a/hachoir/parser/parser.py
+++ b/hachoir/parser/parser.py
@@ -124,8 +124,12 @@ class HachoirParser(object):
 
     def _getFilenameSuffix(self):
         if not hasattr(self, "_filename_suffix"):
-            self._filename_extension = self.createFilenameSuffix()
-        return self._filename_extension
+            try:
+                self._filename_suffix = self.createFilenameSuffix()
+            except Exception as err:
+                self.error("Unable to create filename suffix: %s" % err)
+                self._filename_suffix = None
+        return self._filename_suffix
     filename_suffix = property(_getFilenameSuffix)
 
     @classmethod
-- 
2.43.0


From e9ddbdaee24b28f01719e8e5a4e1213da036997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 011/160] fix: OLE2 parser: endless DIFAT chain

---
 hachoir/parser/misc/ole2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/parser/misc/ole2.py b/hachoir/parser/misc/ole2.py
index bfc1f7d..ea301ae 100644
--- a/hachoir/parser/misc/ole2.py
+++ b/hachoir/parser/misc/ole2.py
@@ -118,7 +118,11 @@ class DIFat(SeekableFieldSet):
         difat_sect = self.start
         index = NB_DIFAT
         entries_per_sect = self.parent.sector_size // 32 - 1
+        sectors = set()
         for ctr in range(self.count):
+            if difat_sect in SECT.SPECIALS or difat_sect in sectors:
+                raise ParserError("DIFAT chain: Invalid or repeated sector (0x%08x)" % difat_sect)
+            sectors.add(difat_sect)
             # this is relative to real DIFAT start
             self.seekBit(NB_DIFAT * SECT.static_size +
                          self.parent.sector_size * difat_sect)
-- 
2.43.0


From 3496489e1f1a3394bc1440047382fdf9a612c62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 012/160] fix: S3M parser: quadratic time to index chunks

---
 hachoir/parser/audio/s3m.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/hachoir/parser/audio/s3m.py b/hachoir/parser/audio/s3m.py
index b9784e6..05dd4ad 100644
--- a/hachoir/parser/audio/s3m.py
+++ b/hachoir/parser/audio/s3m.py
@@ -47,21 +47,20 @@ class ChunkIndexer:
 
     # Farthest element is last
     def addChunk(self, new_chunk):
+        # Find the first chunk whose offset is smaller (binary search)
         index = 0
-        # Find first chunk whose value is bigger
-        while index < len(self.chunks):
-            offset = self.chunks[index].offset
-            if offset < new_chunk.offset:
-                if not self.canHouse(new_chunk, index):
-                    raise ParserError("Chunk '%s' doesn't fit!" %
-                                      new_chunk.name)
-                self.chunks.insert(index, new_chunk)
-                return
-            index += 1
+        end = len(self.chunks)
+        while index < end:
+            middle = (index + end) // 2
+            if self.chunks[middle].offset < new_chunk.offset:
+                end = middle
+            else:
+                index = middle + 1
+        if index < len(self.chunks) and not self.canHouse(new_chunk, index):
+            raise ParserError("Chunk '%s' doesn't fit!" % new_chunk.name)
 
-        # Not found or empty
         # We could at least check that it fits in the memory
-        self.chunks.append(new_chunk)
+        self.chunks.insert(index, new_chunk)
 
     def yieldChunks(self, obj):
         while len(self.chunks) > 0:
-- 
2.43.0


From 84ee8029e2ea40756cbc19d72a10d3d31b208a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 013/160] fix: OutputStream.writeBit wrote bits in the reverse
 order of writeBits

---
 hachoir/stream/output.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 4a9e151..4531a1b 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -36,22 +36,16 @@ class OutputStream(object):
     def writeBit(self, state, endian):
         # middle endian not yet supported
         assert endian in (BIG_ENDIAN, LITTLE_ENDIAN)
-        if self._bit_pos == 7:
-            self._bit_pos = 0
-            if state:
-                if endian is BIG_ENDIAN:
-                    self._byte |= 1
-                else:
-                    self._byte |= 128
+        if state:
+            if endian is BIG_ENDIAN:
+                self._byte |= (1 << (7 - self._bit_pos))
+            else:
+                self._byte |= (1 << self._bit_pos)
+        self._bit_pos += 1
+        if self._bit_pos == 8:
             self._output.write(bytes([self._byte]))
+            self._bit_pos = 0
             self._byte = 0
-        else:
-            if state:
-                if endian is BIG_ENDIAN:
-                    self._byte |= (1 << self._bit_pos)
-                else:
-                    self._byte |= (1 << (7 - self._bit_pos))
-            self._bit_pos += 1
 
     def writeBits(self, count, value, endian):
         # middle endian not yet supported
-- 
2.43.0


From ee479adb9b16e34d625644fa134f13a910ca8e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 014/160] fix: OutputStream.writeInteger of signed values
 (two's complement)

---
 hachoir/stream/output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 4531a1b..bd14d90 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -100,8 +100,9 @@ class OutputStream(object):
             self._byte = 0
 
     def writeInteger(self, value, signed, size_byte, endian):
-        if signed:
-            value += 1 << (size_byte * 8 - 1)
+        if signed and value < 0:
+            # Two's complement
+            value += 1 << (size_byte * 8)
         raw = long2raw(value, endian, size_byte)
         self.writeBytes(raw)
 
-- 
2.43.0


From 5142936144a5c39c11b700abb80f61e79fa12bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 015/160] fix: OutputStream.copyBitsFrom of more than 256
 unaligned bits

---
 hachoir/stream/output.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index bd14d90..ef6ca35 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -110,11 +110,13 @@ class OutputStream(object):
         if (nb_bits % 8) == 0 and (address % 8) == 0 and (self._bit_pos % 8) == 0:
             self.copyBytesFrom(input, address, nb_bits // 8)
         else:
-            # Arbitrary limit (because we should use a buffer, like copyBytesFrom(),
-            # but with endianess problem
-            assert nb_bits <= config.max_bit_length
-            data = input.readBits(address, nb_bits, endian)
-            self.writeBits(nb_bits, data, endian)
+            # Copy by chunks because readBits() and writeBits() use integers
+            while 0 < nb_bits:
+                size = min(nb_bits, config.max_bit_length)
+                data = input.readBits(address, size, endian)
+                self.writeBits(size, data, endian)
+                address += size
+                nb_bits -= size
 
     def copyBytesFrom(self, input, address, nb_bytes):
         if (address % 8):
-- 
2.43.0


From d405625a3da01dad147d412bb6c923a96ba441fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 016/160] fix: StringOutputStream accepts bytes, readBytes
 reads at the given address

---
 hachoir/stream/output.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index ef6ca35..c666083 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -1,4 +1,4 @@
-from io import StringIO
+from io import BytesIO, UnsupportedOperation
 from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
 from hachoir.core.bits import long2raw
 from hachoir.stream import StreamError
@@ -159,13 +159,17 @@ class OutputStream(object):
         self._output.flush()
         oldpos = self._output.tell()
         try:
-            self._output.seek(0)
+            self._output.seek(address // 8)
             try:
                 return self._output.read(nbytes)
+            except UnsupportedOperation:
+                raise OutputStreamError(
+                    "Stream doesn't support read() operation")
             except IOError as err:
-                if err[0] == EBADF:
+                if err.errno == EBADF:
                     raise OutputStreamError(
                         "Stream doesn't support read() operation")
+                raise
         finally:
             self._output.seek(oldpos)
 
@@ -174,7 +178,7 @@ def StringOutputStream():
     """
     Create an output stream into a string.
     """
-    data = StringIO()
+    data = BytesIO()
     return OutputStream(data)
 
 
-- 
2.43.0


From 92c984b9d5731bc6ee207ec840b50f1082b8de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 017/160] fix: InputSubStream must not read outside its range

---
 hachoir/stream/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index e5fc16d..26ec004 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -491,6 +491,8 @@ class InputSubStream(InputStream):
         self.stream = None
 
     def read(self, address, size):
+        if address < 0 or (self._size is not None and self._size < address + size):
+            raise ReadStreamError(size, address)
         return self.stream.read(self._offset + address, size)
 
 
-- 
2.43.0


From 9b948ba65b0cba6ce2748f9cbb5faf896362d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 018/160] fix: InputIOStream must not read outside its declared
 size

---
 hachoir/stream/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 26ec004..77aea6c 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -427,6 +427,8 @@ class InputIOStream(InputStream):
             return (0, b'', False)
         assert size > 0
         _size = self._size
+        if address < 0 or (_size is not None and _size < address + size):
+            raise ReadStreamError(size, address)
         address, shift = divmod(address, 8)
         self._input.seek(address)
         size = (size + shift + 7) >> 3
-- 
2.43.0


From 69822a567f101653541a0c246432d6a9b44e9acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 019/160] fix: StringInputStream must refuse negative addresses

---
 hachoir/stream/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 77aea6c..8c300ed 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -460,6 +460,8 @@ class StringInputStream(InputStream):
         pass
 
     def read(self, address, size):
+        if address < 0:
+            raise ReadStreamError(size, address)
         address, shift = divmod(address, 8)
         size = (size + shift + 7) >> 3
         data = self.data[address:address + size]
-- 
2.43.0


From e4fcef31b28f4101f838dd5d78d68e527ddc354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 020/160] fix: searchBytes near the end of a stream of unknown
 size

---
 hachoir/stream/input.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 8c300ed..3e0a8c9 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -263,13 +263,14 @@ class InputStream(Logger):
                     if todo <= 0:
                         return None
                     size = todo
-            data = self.readBytes(start_address, size)
-            if end_address is None and self._size:
+            shift, data, missing = self.read(start_address, 8 * size)
+            if shift:
+                raise InputStreamError("TODO: handle non-byte-aligned data")
+            if self._size and (end_address is None or self._size < end_address):
+                # The size was discovered by read()
                 end_address = self._size
-                size = (end_address - start_address) >> 3
-                assert size > 0
-                data = data[:size]
-            start_address += 8 * size
+                data = data[:max(end_address - start_address, 0) >> 3]
+            start_address += 8 * len(data)
             buffer = buffer[len(buffer) - length + 1:] + data
             found = buffer.find(needle)
             if found >= 0:
-- 
2.43.0


From 6fa2f24cba08633990098a97baab32ce2c500fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 021/160] fix: InputPipe: short reads are not the end of the
 input

---
 hachoir/stream/input.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 3e0a8c9..88b2c51 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -372,7 +372,16 @@ class InputPipe(object):
     def read(self, size):
         end = self.address + size
         for i in range(len(self.buffers), (end >> self.buffer_size) + 1):
+            if self.size is not None:
+                # The end of the input was already reached
+                break
             data = self._input.read(1 << self.buffer_size)
+            while data and len(data) < 1 << self.buffer_size:
+                # A pipe may return less data than requested before its end
+                more = self._input.read((1 << self.buffer_size) - len(data))
+                if not more:
+                    break
+                data += more
             if len(data) < 1 << self.buffer_size:
                 self.size = (len(self.buffers) << self.buffer_size) + len(data)
                 if self.set_size:
-- 
2.43.0


From c6229051ca6e9f5ad253c16ded35c52482c9af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 022/160] fix: input stream of a buffered pipe

---
 hachoir/stream/input.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 88b2c51..1a35b71 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -5,6 +5,7 @@ from hachoir.core.bits import str2long
 from hachoir.core.tools import lowerBound
 from hachoir.core.tools import alignValue
 from errno import ESPIPE
+from io import IOBase, UnsupportedOperation
 from weakref import ref as weakref_ref
 from hachoir.stream import StreamError
 
@@ -412,7 +413,7 @@ class InputIOStream(InputStream):
                 input.seek(0, 2)
                 size = input.tell() * 8
             except IOError as err:
-                if err.errno == ESPIPE:
+                if err.errno == ESPIPE or isinstance(err, UnsupportedOperation):
                     input = InputPipe(input, self._setSize)
                 else:
                     source = args.get("source", "<inputio:%r>" % input)
-- 
2.43.0


From 8342f7aaf139cf1733b098cd8caaabf68f1540ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:59 +0000
Subject: [PATCH 023/160] fix: file object of an input stream of unknown size

---
 hachoir/stream/input.py | 72 ++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 52 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 1a35b71..4f17a3f 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -53,10 +53,14 @@ class FileFromInputStream:
         else:
             self._size = size // 8
 
+    def _readSize(self):
+        # Read the stream until its size is known
+        while self._size is None:
+            self.stream._feed(max(self.stream._current_size << 1, 1 << 16))
+
     def tell(self):
         if self._from_end:
-            while self._size is None:
-                self.stream._feed(max(self.stream._current_size << 1, 1 << 16))
+            self._readSize()
             self._from_end = False
             self._offset += self._size
         return self._offset
@@ -74,56 +78,20 @@ class FileFromInputStream:
             raise ValueError("seek() second argument must be 0, 1 or 2")
 
     def read(self, size=None):
-        def read(address, size):
-            shift, data, missing = self.stream.read(8 * address, 8 * size)
-            if shift:
-                raise InputStreamError("TODO: handle non-byte-aligned data")
-            return data
-        if self._size or size is not None and not self._from_end:
-            # We don't want self.tell() to read anything
-            # and the size must be known if we read until the end.
-            pos = self.tell()
-            if size is None or (self._size is not None and self._size < pos + size):
-                size = self._size - pos
-            if size <= 0:
-                return b''
-            data = read(pos, size)
-            self._offset += len(data)
-            return data
-        elif self._from_end:
-            # TODO: not tested
-            max_size = - self._offset
-            if size is None or max_size < size:
-                size = max_size
-            if size <= 0:
-                return b''
-            data = b'', b''
-            self._offset = max(
-                0, self.stream._current_size // 8 + self._offset)
-            self._from_end = False
-            bs = max(max_size, 1 << 16)
-            while True:
-                d = read(self._offset, bs)
-                data = data[1], d
-                self._offset += len(d)
-                if self._size:
-                    bs = self._size - self._offset
-                    if not bs:
-                        data = data[0] + data[1]
-                        d = len(data) - max_size
-                        return data[d:d + size]
-        else:
-            # TODO: not tested
-            data = []
-            size = 1 << 16
-            while True:
-                d = read(self._offset, size)
-                data.append(d)
-                self._offset += len(d)
-                if self._size:
-                    size = self._size - self._offset
-                    if not size:
-                        return b''.join(data)
+        if size is None or size < 0:
+            # Read until the end
+            self._readSize()
+            size = None
+        pos = self.tell()
+        if size is None or (self._size is not None and self._size < pos + size):
+            size = self._size - pos
+        if size <= 0:
+            return b''
+        shift, data, missing = self.stream.read(8 * pos, 8 * size)
+        if shift:
+            raise InputStreamError("TODO: handle non-byte-aligned data")
+        self._offset += len(data)
+        return data
 
 
 class InputStream(Logger):
-- 
2.43.0


From 9a51757674f6a2bcf6505961852ecb997af37c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:59 +0000
Subject: [PATCH 024/160] fix: InputIOStream.file() must not share the file
 position with the stream

---
 hachoir/stream/input.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 4f17a3f..a478a80 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -37,7 +37,7 @@ class NullStreamError(InputStreamError):
         InputStreamError.__init__(self, msg)
 
 
-class FileFromInputStream:
+class FileFromInputStream(IOBase):
     _offset = 0
     _from_end = False
 
@@ -53,6 +53,12 @@ class FileFromInputStream:
         else:
             self._size = size // 8
 
+    def readable(self):
+        return True
+
+    def seekable(self):
+        return True
+
     def _readSize(self):
         # Read the stream until its size is known
         while self._size is None:
@@ -418,15 +424,6 @@ class InputIOStream(InputStream):
             raise ReadStreamError(8 * size, 8 * address, 8 * got)
         return shift, data, missing
 
-    def file(self):
-        if hasattr(self._input, "fileno"):
-            from os import dup, fdopen
-            new_fd = dup(self._input.fileno())
-            new_file = fdopen(new_fd, "rb")
-            new_file.seek(0)
-            return new_file
-        return InputStream.file(self)
-
 
 class StringInputStream(InputStream):
 
-- 
2.43.0


From 885233ac4ba436dc562fe4daceab7eeff17ece81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 025/160] fix: InputSubStream of a stream of unknown or too
 small size

---
 hachoir/stream/input.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index a478a80..a34a680 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -452,9 +452,12 @@ class InputSubStream(InputStream):
     def __init__(self, stream, offset, size=None, source=None, **args):
         if offset is None:
             offset = 0
-        if size is None and stream.size is not None:
-            size = stream.size - offset
-        if size <= 0:
+        if stream.size is not None:
+            if size is None:
+                size = stream.size - offset
+            else:
+                size = min(size, stream.size - offset)
+        if size is not None and size <= 0:
             raise ValueError("InputSubStream: offset is outside input stream")
         self.stream = stream
         self._offset = offset
@@ -464,8 +467,12 @@ class InputSubStream(InputStream):
         InputStream.__init__(self, source=source, size=size, **args)
         self.stream.askSize(self)
 
-    _current_size = property(lambda self: min(
-        self._size, max(0, self.stream._current_size - self._offset)))
+    def __current_size(self):
+        size = max(0, self.stream._current_size - self._offset)
+        if self._size is not None:
+            size = min(self._size, size)
+        return size
+    _current_size = property(__current_size)
 
     def close(self):
         self.stream = None
-- 
2.43.0


From bc57eedbd81a07e5e1d0fd459edcb721dbda8e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 026/160] fix: FragmentedStream: empty read and negative
 address

---
 hachoir/stream/input.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index a34a680..94fa1a1 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -537,7 +537,11 @@ class FragmentedStream(InputStream):
         return False
 
     def read(self, address, size):
+        if not size:
+            return 0, b'', False
         assert size > 0
+        if address < 0:
+            raise ReadStreamError(size, address)
         missing = self._feed(address + size)
         if missing:
             size = self._size - address
-- 
2.43.0


From 5049bc61def9a28c602ed679a03f02a57756b515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 027/160] fix: stream of a field when the parent stream has no
 source

---
 hachoir/stream/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 94fa1a1..7bce89e 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -488,7 +488,7 @@ def InputFieldStream(field, **args):
         return field.stream
     stream = field.parent.stream
     args["size"] = field.size
-    args.setdefault("source", stream.source + field.path)
+    args.setdefault("source", "%s%s" % (stream.source, field.path))
     return InputSubStream(stream, field.absolute_address, **args)
 
 
-- 
2.43.0


From f44348268f4f27a8f4885afa65ab19acaf4af4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:58 +0000
Subject: [PATCH 028/160] fix: exact conversion of Windows and UUID timestamps
 (float rounding)

---
 hachoir/core/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/core/tools.py b/hachoir/core/tools.py
index 43575f2..58cdf72 100644
--- a/hachoir/core/tools.py
+++ b/hachoir/core/tools.py
@@ -533,7 +533,7 @@ def durationWin64(value):
         raise TypeError("an integer or float is required")
     if value < 0:
         raise ValueError("value have to be a positive or nul integer")
-    return timedelta(microseconds=value / 10)
+    return timedelta(microseconds=value) / 10
 
 
 def durationMillisWin64(value):
-- 
2.43.0


From 4b75d06a924ed48effd3f03a86d43f091020ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:58 +0000
Subject: [PATCH 029/160] fix: timestampMac32 refuses an invalid value like
 other timestamp functions

---
 hachoir/core/tools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hachoir/core/tools.py b/hachoir/core/tools.py
index 58cdf72..9bc33c4 100644
--- a/hachoir/core/tools.py
+++ b/hachoir/core/tools.py
@@ -504,8 +504,10 @@ MAC_TIMESTAMP_T0 = datetime(1904, 1, 1)
 
 def timestampMac32(value):
     """
-    Convert an Mac (32-bit) timestamp to string. The format is the number
-    of seconds since the 1st January 1904 (to 2040). Returns unicode string.
+    Convert an Mac (32-bit) timestamp to datetime object. The format is the
+    number of seconds since the 1st January 1904 (to 2040).
+
+    May raise ValueError for invalid value: value have to be in 0..4294967295.
 
     >>> timestampMac32(0)
     datetime.datetime(1904, 1, 1, 0, 0)
@@ -515,7 +517,7 @@ def timestampMac32(value):
     if not isinstance(value, (float, int)):
         raise TypeError("an integer or float is required")
     if not (0 <= value <= 4294967295):
-        return "invalid Mac timestamp (%s)" % value
+        raise ValueError("invalid Mac timestamp (%s)" % value)
     return MAC_TIMESTAMP_T0 + timedelta(seconds=value)
 
 
-- 
2.43.0


From b2c641bb79de89cebf6286393cc139ad00505277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 030/160] fix: raw field added by autofix must have a unique
 name (raw[0] instead of raw[])

---
 hachoir/field/generic_field_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 1ac1df8..04de18d 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -253,6 +253,7 @@ class GenericFieldSet(BasicFieldSet):
                 else:
                     del self._fields[-1]
                     field = createRawField(self, size, "raw[]")
+                    self.setUniqueFieldName(field)
                     self._fields.append(field._name, field)
             self._current_size = self._size
         else:
@@ -289,6 +290,7 @@ class GenericFieldSet(BasicFieldSet):
         size = self._size - self._current_size
         if size:
             field = createRawField(self, size, "raw[]")
+            self.setUniqueFieldName(field)
             message.append("add padding")
             self._current_size += field.size
             self._fields.append(field._name, field)
-- 
2.43.0


From f381d1cee18d5be66f05d52bf34c9457ffce6f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 031/160] fix: length of an array after a failed lookup, fields
 replaced in an array, array of the root

---
 hachoir/field/fake_array.py | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/hachoir/field/fake_array.py b/hachoir/field/fake_array.py
index 0f8cbb8..05413d8 100644
--- a/hachoir/field/fake_array.py
+++ b/hachoir/field/fake_array.py
@@ -18,34 +18,22 @@ class FakeArray:
     def __init__(self, fieldset, name):
         pos = name.rfind("/")
         if pos != -1:
-            self.fieldset = fieldset[name[:pos]]
+            self.fieldset = fieldset[name[:pos] or "/"]
             self.name = name[pos + 1:]
         else:
             self.fieldset = fieldset
             self.name = name
         self._format = "%s[%%u]" % self.name
-        self._cache = {}
-        self._known_size = False
-        self._max_index = -1
 
     def __bool__(self):
         "Is the array empty or not?"
-        if self._cache:
-            return True
-        else:
-            return (0 in self)
+        return (0 in self)
 
     def __len__(self):
         "Number of fields in the array"
-        total = self._max_index + 1
-        if not self._known_size:
-            for index in itertools.count(total):
-                try:
-                    self[index]
-                    total += 1
-                except MissingField:
-                    break
-        return total
+        for index in itertools.count(0):
+            if index not in self:
+                return index
 
     def __contains__(self, index):
         try:
@@ -59,17 +47,9 @@ class FakeArray:
         Get a field of the array. Returns a field, or raise MissingField
         exception if the field doesn't exist.
         """
-        try:
-            value = self._cache[index]
-        except KeyError:
-            try:
-                value = self.fieldset[self._format % index]
-            except MissingField:
-                self._known_size = True
-                raise
-            self._cache[index] = value
-            self._max_index = max(index, self._max_index)
-        return value
+        if index < 0:
+            raise MissingField(self.fieldset, "%s[%s]" % (self.name, index))
+        return self.fieldset[self._format % index]
 
     def __iter__(self):
         """
-- 
2.43.0


From c42c416a651cce4ae5af63457a3349f85d5536fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 032/160] fix: link to the first fragment

---
 hachoir/field/link.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/field/link.py b/hachoir/field/link.py
index 0fae24e..dbdb092 100644
--- a/hachoir/field/link.py
+++ b/hachoir/field/link.py
@@ -93,7 +93,7 @@ class Fragment(FieldSet):
             field = None
         if self._first is not self:
             link = Link(self, "first", None)
-            link._getValue = lambda: self._first
+            link.createValue = lambda: self._first
             yield link
         if self._next:
             link = Link(self, "next", None)
-- 
2.43.0


From d879edaec4ae8313af05925de7043c727db720c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 033/160] fix: vector of a static field set which was never
 instantiated

---
 hachoir/field/static_field_set.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hachoir/field/static_field_set.py b/hachoir/field/static_field_set.py
index d5cb43e..ba173ad 100644
--- a/hachoir/field/static_field_set.py
+++ b/hachoir/field/static_field_set.py
@@ -16,6 +16,13 @@ class StaticFieldSet(FieldSet):
     format = None  # You have to redefine this class variable
     _class = None
 
+    def __init_subclass__(cls, **kw):
+        # The size must be known before the first instance is created: the
+        # class can be the item of a vector
+        super().__init_subclass__(**kw)
+        if cls.format is not None:
+            cls.static_size = cls._computeStaticSize()
+
     def __new__(cls, *args, **kw):
         assert cls.format is not None, "Class attribute 'format' is not set"
         if cls._class is not cls.__name__:
@@ -49,6 +56,6 @@ class StaticFieldSet(FieldSet):
     def _computeStaticSize(cls, *args):
         return sum(cls._computeItemSize(item) for item in cls.format)
 
-    # Initial value of static_size, it changes when first instance
-    # is created (see __new__)
+    # Initial value of static_size, it changes when the format is known
+    # (see __init_subclass__ and __new__)
     static_size = _computeStaticSize
-- 
2.43.0


From 1e5108fd36a3c682f44d6d1687950576aff06946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:58 +0000
Subject: [PATCH 034/160] fix: field lost after several duplicate names (hole
 in the field set)

---
 hachoir/field/generic_field_set.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 04de18d..e9f9f21 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -193,14 +193,16 @@ class GenericFieldSet(BasicFieldSet):
             else:
                 raise ParserError("Field %s is too large!" % field.path)
 
-        self._current_size += field.size
         try:
             self._fields.append(field._name, field)
         except UniqKeyError as err:
             self.warning("Duplicate field name " + str(err))
-            field._name += "[]"
-            self.setUniqueFieldName(field)
+            name = field._name + "[]"
+            while field._name in self._fields:
+                field._name = name
+                self.setUniqueFieldName(field)
             self._fields.append(field._name, field)
+        self._current_size += field.size
         if ask_stop:
             raise StopIteration()
 
-- 
2.43.0


From 895bb8f62e15a82d854ed78ab39ae030da689ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:58 +0000
Subject: [PATCH 035/160] fix: field at an address of a seekable field set

---
 hachoir/field/seekable_field_set.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index 98aa20e..ac45065 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -46,6 +46,17 @@ class RootSeekableFieldSet(GenericFieldSet):
     def seekByte(self, address, relative=True):
         return self.seekBit(address * 8, relative)
 
+    def getFieldByAddress(self, address, feed=True):
+        """
+        Only search in existing fields (which may be in any order)
+        """
+        if feed and self._field_generator is not None:
+            self._feedAll()
+        for field in self._fields:
+            if field.address <= address < field.address + field.size:
+                return field
+        return None
+
     def _fixLastField(self):
         """
         Try to fix last field when we know current field set size.
-- 
2.43.0


From 3822374f6b21100c382b46f42c8363c93df98e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:42 +0000
Subject: [PATCH 036/160] fix: EXIF/TIFF parser: endless chain of directories

---
 hachoir/parser/image/exif.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hachoir/parser/image/exif.py b/hachoir/parser/image/exif.py
index 7efbdfb..dbf930c 100644
--- a/hachoir/parser/image/exif.py
+++ b/hachoir/parser/image/exif.py
@@ -421,8 +421,13 @@ def TIFF(self):
     yield UInt16(self, "version", "TIFF version number")
     yield UInt32(self, "img_dir_ofs", "Next image directory offset")
     offsets = [(self['img_dir_ofs'].value, 'ifd[]', IFD)]
+    known = set()
     while offsets:
         offset, name, klass = offsets.pop(0)
+        if offset in known:
+            # Endless chain of directories
+            continue
+        known.add(offset)
         self.seekByte(offset + iff_start // 8, relative=False)
         ifd = klass(self, name, iff_start)
         yield ifd
-- 
2.43.0


From 18cc233b2e6a7a13e23cc093040f10956cfb9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:54 +0000
Subject: [PATCH 037/160] fix: display of a string must not depend on whether
 its charset was already guessed

---
 hachoir/field/string_field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 742634d..9ab4562 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -302,14 +302,14 @@ class GenericString(Bytes):
             if self._raw_value is None:
                 self._raw_value = GenericString.createValue(self, False)
             value = makePrintable(self._raw_value, "ASCII")
-        elif self._charset:
-            value = makePrintable(self.value, "ISO-8859-1")
         else:
-            value = self.value
+            # The display must not depend on whether the charset has
+            # already been guessed or not
+            value = makePrintable(self.value, "ISO-8859-1")
         if config.max_string_length < len(value):
             # Truncate string if needed
             value = "%s(...)" % value[:config.max_string_length]
-        if not self._charset or not human:
+        if not human:
             return makePrintable(value, "ASCII", quote='"')
         else:
             if value:
-- 
2.43.0


From fbc175a688cb48df5b2fa0c304439d8679586bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:27 +0000
Subject: [PATCH 038/160] fix: ReiserFS parser: block numbers must not depend
 on the blocks already parsed

---
 hachoir/parser/file_system/reiser_fs.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/file_system/reiser_fs.py b/hachoir/parser/file_system/reiser_fs.py
index da6ffde..6dfab1b 100644
--- a/hachoir/parser/file_system/reiser_fs.py
+++ b/hachoir/parser/file_system/reiser_fs.py
@@ -34,13 +34,10 @@ class BlockState(Bit):
         False: "free"
     }
 
-    block_nb = 0
-
     def __init__(self, parent, name, nb_block):
         """@param nb_block: Number of the block concerned"""
         Bit.__init__(self, parent, name)
-        self.block_nb = self.__class__.block_nb
-        self.__class__.block_nb += 1
+        self.block_nb = nb_block
 
     def createDescription(self):
         return "State of the block %d" % self.block_nb
@@ -55,11 +52,17 @@ class BitmapBlock(SeekableFieldSet):
         the state of a block to tell if it is used or not.
     """
 
+    def __init__(self, parent, name, bitmap_nb, description=None):
+        """@param bitmap_nb: Number of the bitmap block"""
+        SeekableFieldSet.__init__(self, parent, name, description)
+        self.bitmap_nb = bitmap_nb
+
     def createFields(self):
         block_size = self["/superblock/blocksize"].value
+        first_block = self.bitmap_nb * block_size * 8
 
         for i in range(0, block_size * 8):
-            yield BlockState(self, "block[]", i)
+            yield BlockState(self, "block[]", first_block + i)
 
 
 class BitmapBlockGroup(SeekableFieldSet):
@@ -71,11 +74,11 @@ class BitmapBlockGroup(SeekableFieldSet):
         # Position of the first bitmap block
         self.seekByte(REISER_FS.SUPERBLOCK_OFFSET + block_size, relative=False)
 
-        yield BitmapBlock(self, "BitmapBlock[]", "Bitmap blocks tells for each block if it is used")
+        yield BitmapBlock(self, "BitmapBlock[]", 0, "Bitmap blocks tells for each block if it is used")
         # The other bitmap blocks
         for i in range(1, nb_bitmap_block):
             self.seekByte((block_size**2) * 8 * i, relative=False)
-            yield BitmapBlock(self, "BitmapBlock[]", "Bitmap blocks tells for each block if it is used")
+            yield BitmapBlock(self, "BitmapBlock[]", i, "Bitmap blocks tells for each block if it is used")
 
 
 class Journal_params(FieldSet):
-- 
2.43.0


From 8bd76c3b459df9157dfd483a8cd363c3d9036148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 039/160] fix: lookup of a field added by autofix

---
 hachoir/field/generic_field_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index e9f9f21..22e10e3 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -346,6 +346,9 @@ class GenericFieldSet(BasicFieldSet):
         except Exception as err:
             if self._fixFeedError(err) is False:
                 raise
+        # The field may have been added by autofix
+        if field_name in self._fields:
+            return self._fields[field_name]
         return None
 
     def readMoreFields(self, number):
-- 
2.43.0


From 31c2e639bf50571ff6e599fb40ea220148a46ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 040/160] fix: raw display of a link must not depend on the
 parsing state

---
 hachoir/field/link.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/field/link.py b/hachoir/field/link.py
index dbdb092..21e6556 100644
--- a/hachoir/field/link.py
+++ b/hachoir/field/link.py
@@ -19,6 +19,10 @@ class Link(Field):
             return "<%s>" % MissingField.__name__
         return value.path
 
+    def createRawDisplay(self):
+        # str(value) depends on the number of fields already read
+        return self.createDisplay()
+
     def _getField(self, name, const):
         target = self.value
         assert self != target
-- 
2.43.0


From 1e9b2ccb08b4f24d5df3ed67ceebbc2377c897fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 041/160] fix: Ogg parser: first page of a stream must not
 depend on the access order

---
 hachoir/parser/container/ogg.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 46b6a4b..2a22539 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -191,8 +191,15 @@ class Segments(Fragment):
             next = None
         else:
             next = self.createNext
-        self.setLinks(parent.parent.streams.setdefault(
-            parent['serial'].value, self), next)
+        # First page of this logical stream
+        page = parent.parent.streams.setdefault(parent['serial'].value, parent)
+        first = self
+        if page is not parent:
+            try:
+                first = page['segments']
+            except MissingField:
+                pass
+        self.setLinks(first, next)
 
     def _createInputStream(self, **args):
         if self.first is self:
@@ -317,7 +324,11 @@ class OggFile(Parser):
     def createFields(self):
         self.streams = {}
         while not self.eof:
-            yield OggPage(self, "page[]")
+            page = OggPage(self, "page[]")
+            if page.lacing_size:
+                # Don't depend on the order in which the pages are read
+                self.streams.setdefault(page["serial"].value, page)
+            yield page
 
     def createLastPage(self):
         start = self[0].size
-- 
2.43.0


From 6ee903df9e3fcaa47ff5ed0d169b05edc2d4ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:33 +0000
Subject: [PATCH 042/160] fix: charset of a string which cannot be read

---
 hachoir/field/string_field.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 9ab4562..f6a8b4e 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -20,6 +20,7 @@ from hachoir.core.endian import LITTLE_ENDIAN, BIG_ENDIAN
 from hachoir.core.tools import alignValue, makePrintable
 from hachoir.core.i18n import guessBytesCharset
 from hachoir.core import config
+from hachoir.stream import InputStreamError
 from codecs import BOM_UTF16_LE, BOM_UTF16_BE, BOM_UTF32_LE, BOM_UTF32_BE
 
 # Default charset used to convert byte string to Unicode
@@ -257,7 +258,11 @@ class GenericString(Bytes):
 
     def _guessCharset(self):
         addr = self.absolute_address + self._content_offset * 8
-        bytes = self._parent.stream.readBytes(addr, self._content_size)
+        try:
+            bytes = self._parent.stream.readBytes(addr, self._content_size)
+        except InputStreamError as err:
+            self.error("Unable to guess the charset: %s" % err)
+            return FALLBACK_CHARSET
         return guessBytesCharset(bytes, default=FALLBACK_CHARSET)
 
     def createValue(self, human=True):
-- 
2.43.0


From d383f7ee6b9a87ca7fd92eb6fa1dd3e80f430f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:50 +0000
Subject: [PATCH 043/160] fix: sub-fields of a little endian float (value of
 Float80)

---
 hachoir/field/float.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/hachoir/field/float.py b/hachoir/field/float.py
index c2b62e2..040d2ab 100644
--- a/hachoir/field/float.py
+++ b/hachoir/field/float.py
@@ -79,13 +79,23 @@ def floatFactory(name, format, mantissa_bits, exponent_bits, doc):
                                      self.__class__.__name__)
 
         def createFields(self):
-            yield Bit(self, "negative")
-            yield FloatExponent(self, "exponent", exponent_bits)
-            if 64 <= mantissa_bits:
-                yield Bit(self, "one")
-                yield FloatMantissa(self, "mantissa", mantissa_bits - 1)
+            if self.endian == BIG_ENDIAN:
+                yield Bit(self, "negative")
+                yield FloatExponent(self, "exponent", exponent_bits)
+                if 64 <= mantissa_bits:
+                    yield Bit(self, "one")
+                    yield FloatMantissa(self, "mantissa", mantissa_bits - 1)
+                else:
+                    yield FloatMantissa(self, "mantissa", mantissa_bits)
             else:
-                yield FloatMantissa(self, "mantissa", mantissa_bits)
+                # little endian: the first bit is the least significant one
+                if 64 <= mantissa_bits:
+                    yield FloatMantissa(self, "mantissa", mantissa_bits - 1)
+                    yield Bit(self, "one")
+                else:
+                    yield FloatMantissa(self, "mantissa", mantissa_bits)
+                yield FloatExponent(self, "exponent", exponent_bits)
+                yield Bit(self, "negative")
 
     cls = Float
     cls.__name__ = name
-- 
2.43.0


From fdbe0fd44abb70b6b74a88e799559f55b72f452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:52 +0000
Subject: [PATCH 044/160] fix: end of an UTF-16 or UTF-32 string (suffix across
 two characters)

---
 hachoir/field/string_field.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index f6a8b4e..703d40d 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -154,16 +154,20 @@ class GenericString(Bytes):
                 # Choose the suffix
                 suffix = self.suffix_str
 
-                # Find the suffix
-                length = self._parent.stream.searchBytesLength(
-                    suffix, False, self.absolute_address)
-                if length is None:
-                    raise FieldError("Unable to find end of string %s (format %s)!"
-                                     % (self.path, self._format))
-                if 1 < len(suffix):
-                    # Fix length for little endian bug with UTF-xx charset:
-                    #   u"abc" -> "a\0b\0c\0\0\0" (UTF-16-LE)
-                    #   search returns length=5, whereas real lenght is 6
+                # Find the suffix: for UTF-xx charset, it is aligned on
+                # characters.
+                #   u"abc" -> "a\0b\0c\0\0\0" (UTF-16-LE)
+                # first match is at 5, whereas real length is 6
+                length = 0
+                while True:
+                    found = self._parent.stream.searchBytesLength(
+                        suffix, False, self.absolute_address + length * 8)
+                    if found is None:
+                        raise FieldError("Unable to find end of string %s (format %s)!"
+                                         % (self.path, self._format))
+                    length += found
+                    if not length % len(suffix):
+                        break
                     length = alignValue(length, len(suffix))
 
                 # Compute sizes
-- 
2.43.0


From f0dfa237ae8cf13339bb55467189531d2336b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 045/160] fix: end of an UTF-16 or UTF-32 line in a parent of
 another byte order

---
 hachoir/field/string_field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 703d40d..7d4df74 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -219,8 +219,11 @@ class GenericString(Bytes):
             return ''
         suffix = GenericString.SUFFIX_FORMAT[format]
         if charset in GenericString.UTF_CHARSET:
-            suffix_size = GenericString.UTF_CHARSET[charset][0]
+            suffix_size, charset_endian = GenericString.UTF_CHARSET[charset]
             suffix = suffix[suffix_size]
+            if charset_endian in suffix:
+                # The byte order is the one of the charset
+                endian = charset_endian
         else:
             suffix = suffix[8]
         return suffix[endian]
-- 
2.43.0


From 1b3ced2f200c320af5b34c78947e94e318a4c32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 046/160] fix: Float80 without its explicit integer bit

---
 hachoir/field/float.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hachoir/field/float.py b/hachoir/field/float.py
index 040d2ab..dd2a8e7 100644
--- a/hachoir/field/float.py
+++ b/hachoir/field/float.py
@@ -68,7 +68,11 @@ def floatFactory(name, format, mantissa_bits, exponent_bits, doc):
                                      (self.__class__.__name__, err))
             else:
                 try:
-                    value = self["mantissa"].value * \
+                    mantissa = self["mantissa"].value
+                    if 64 <= mantissa_bits and not self["one"].value:
+                        # The integer part is explicit in this format
+                        mantissa -= 1
+                    value = mantissa * \
                         (2.0 ** float(self["exponent"].value))
                     if self["negative"].value:
                         return -(value)
-- 
2.43.0


From 823ff73a37da4437f9e92d5a69c17db82a7347dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:09 +0000
Subject: [PATCH 047/160] fix: SWF: description of an unknown instruction

---
 hachoir/parser/container/action_script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/action_script.py b/hachoir/parser/container/action_script.py
index d006424..150cc27 100644
--- a/hachoir/parser/container/action_script.py
+++ b/hachoir/parser/container/action_script.py
@@ -354,7 +354,7 @@ class Instruction(FieldSet):
             yield RawBytes(self, "action_data", size)
 
     def createDescription(self):
-        return self._description
+        return "Unknown instruction (0x%02X)" % self["action_id"].value
 
     def __str__(self):
         r = str(self._description)
-- 
2.43.0


From 8d16ec132240c55479f1c0b661fdced703ebef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:09 +0000
Subject: [PATCH 048/160] fix: PDF: description of the marker is not a text

---
 hachoir/parser/misc/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/pdf.py b/hachoir/parser/misc/pdf.py
index 73c491e..0bafb22 100644
--- a/hachoir/parser/misc/pdf.py
+++ b/hachoir/parser/misc/pdf.py
@@ -283,7 +283,7 @@ def parsePDFType(s):
 class Header(FieldSet):
 
     def createFields(self):
-        yield String(self, "marker", 5, MAGIC)
+        yield String(self, "marker", 5, "PDF marker")
         length = getLineEnd(self, 4)
         if length is not None:
             # self.info("Found at position %08X" % len)
-- 
2.43.0


From 9d2f617ecc1641066e5c74c66047756cef8d366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:09 +0000
Subject: [PATCH 049/160] fix: MP4: description of upStream is not a text

---
 hachoir/parser/container/mp4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 3360eb6..8efd2d1 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -83,7 +83,7 @@ DecoderConfigDescrTag = 0x04
 def DecoderConfigDescriptor(self):
     yield UInt8(self, "objectTypeIndication")
     yield Bits(self, "streamType", 6)
-    yield Bit(self, "upStream", 1)
+    yield Bit(self, "upStream")
     yield NullBits(self, "reserved", 1)
     yield UInt24(self, "bufferSizeDB")
     yield UInt32(self, "maxBitrate")
-- 
2.43.0


From e52ad04a62a6dcd8ed505e2a7cd582a1903d7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:09 +0000
Subject: [PATCH 050/160] fix: Photoshop: display of print flags is not a text

---
 hachoir/parser/image/photoshop_metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/photoshop_metadata.py b/hachoir/parser/image/photoshop_metadata.py
index 1879d37..f857331 100644
--- a/hachoir/parser/image/photoshop_metadata.py
+++ b/hachoir/parser/image/photoshop_metadata.py
@@ -13,7 +13,7 @@ from hachoir.core.tools import alignValue, createDict
 from hachoir.parser.image.iptc import IPTC
 from hachoir.parser.common.win32 import PascalStringWin32
 
-BOOL = {0: False, 1: True}
+BOOL = {0: "False", 1: "True"}
 
 
 class Version(FieldSet):
-- 
2.43.0


From b7c5f0a6ae893702a5fecd4373c1d484375a0e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:57 +0000
Subject: [PATCH 051/160] fix: magic number of git pack (hachoir-subfile failed
 without --parser)

---
 hachoir/parser/misc/git_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 4a83e01..500cb9c 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -218,7 +218,7 @@ class GitPackFile(Parser):
         "file_ext": (".pack",),
         "mime": (u"application/octet-stream",),
         "min_size": (4 + 4 + 4) * 8,  # just the header
-        "magic": ((b'PACK',),),
+        "magic": ((b'PACK', 0),),
         "description": "Git pack file",
     }
 
-- 
2.43.0


From fb1ceed7bdf4beebea0c2a2b5e5f56bceac12308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:08 +0000
Subject: [PATCH 052/160] fix: description of some integers is not a text
 (MPEG-TS, LAF, S3M)

---
 hachoir/parser/audio/s3m.py     | 2 +-
 hachoir/parser/game/laf.py      | 4 ++--
 hachoir/parser/video/mpeg_ts.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/audio/s3m.py b/hachoir/parser/audio/s3m.py
index 05dd4ad..517b02e 100644
--- a/hachoir/parser/audio/s3m.py
+++ b/hachoir/parser/audio/s3m.py
@@ -490,7 +490,7 @@ class S3MInstrument(Instrument):
         yield Enum(UInt8(self, "packing"), self.PACKING)
         yield SampleFlags(self, "flags")
         yield UInt32(self, "c4_speed", "Frequency for middle C note")
-        yield UInt32(self, "reserved[]", 4)
+        yield UInt32(self, "reserved[]")
         yield UInt16(self, "internal[]", "Sample address in GUS memory")
         yield UInt16(self, "internal[]", "Flags for SoundBlaster loop expansion")
         yield UInt32(self, "internal[]", "Last used position (SB)")
diff --git a/hachoir/parser/game/laf.py b/hachoir/parser/game/laf.py
index 12edd40..993dadc 100644
--- a/hachoir/parser/game/laf.py
+++ b/hachoir/parser/game/laf.py
@@ -77,8 +77,8 @@ class LafFile(Parser):
         yield UInt32(self, "raw_font_data_size")
         yield UInt32(self, "max_char_width")
         yield UInt32(self, "min_char_width")
-        yield UInt32(self, "unknown[]", 4)
-        yield UInt32(self, "unknown[]", 4)
+        yield UInt32(self, "unknown[]")
+        yield UInt32(self, "unknown[]")
         yield UInt32(self, "first_char_code")
         yield UInt32(self, "last_char_code")
 
diff --git a/hachoir/parser/video/mpeg_ts.py b/hachoir/parser/video/mpeg_ts.py
index e626e70..ed63ae1 100644
--- a/hachoir/parser/video/mpeg_ts.py
+++ b/hachoir/parser/video/mpeg_ts.py
@@ -75,7 +75,7 @@ class Packet(FieldSet):
         if self._m2ts:
             yield Bits(self, "c", 2)
             yield Bits(self, "ats", 32 - 2)
-        yield textHandler(UInt8(self, "sync", 8), hexadecimal)
+        yield textHandler(UInt8(self, "sync"), hexadecimal)
         if self["sync"].value != 0x47:
             raise ParserError("MPEG-2 TS: Invalid synchronization byte")
         yield Bit(self, "has_error")
-- 
2.43.0


From b35b59f860219177f181640fe8275200a08038de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:32 +0000
Subject: [PATCH 053/160] fix: FIT: description of fields is not a text

---
 hachoir/parser/misc/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/fit.py b/hachoir/parser/misc/fit.py
index 8e51f87..08ca313 100644
--- a/hachoir/parser/misc/fit.py
+++ b/hachoir/parser/misc/fit.py
@@ -99,7 +99,7 @@ class DataMessage(FieldSet):
                 yield typ(self, "field%d" % n, desc["size"].value)
             else:
                 if typ.static_size // 8 == desc["size"].value:
-                    yield typ(self, "field%d" % n, desc["size"].value)
+                    yield typ(self, "field%d" % n)
                 else:
                     for p in range(desc["size"].value * 8 // typ.static_size):
                         yield typ(self, "field%d[]" % n)
-- 
2.43.0


From 4d96f68cf2999899a278c3adecc18e72e8b3210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 054/160] fix: LNK: hasValue() of a damaged volume table

---
 hachoir/parser/misc/lnk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/lnk.py b/hachoir/parser/misc/lnk.py
index 3a6dfef..b003f82 100644
--- a/hachoir/parser/misc/lnk.py
+++ b/hachoir/parser/misc/lnk.py
@@ -203,7 +203,7 @@ class LocalVolumeTable(FieldSet):
         yield CString(self, "drive")
 
     def hasValue(self):
-        return bool(self["drive"].value)
+        return bool(self.value)
 
     def createValue(self):
         return self["drive"].value
-- 
2.43.0


From 6fafda33807b1fec51587978fdcb5cb815f66683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:17 +0000
Subject: [PATCH 055/160] fix: regex: a & b must not modify a

---
 hachoir/regex/regex.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 207cd26..4ea43f5 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -650,8 +650,7 @@ class RegexAnd(Regex):
             return total
         new_item = self.content[-1]._and(regex)
         if new_item:
-            self.content[-1] = new_item
-            return self
+            return RegexAnd(self.content[:-1] + [new_item])
         return RegexAnd(self.content + [regex])
 
     def _str(self, **kw):
-- 
2.43.0


From 981f3992407b43250ec9707bd9755e6110f1159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:18 +0000
Subject: [PATCH 056/160] fix: regex: maximum length of a repetition of an
 unlimited expression

---
 hachoir/regex/regex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 4ea43f5..d72597a 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -864,8 +864,9 @@ class RegexRepeat(Regex):
             return None
 
     def maxLength(self):
-        if self.max is not None:
-            return self.regex.maxLength() * self.max
+        length = self.regex.maxLength()
+        if self.max is not None and length is not None:
+            return length * self.max
         else:
             return None
 
-- 
2.43.0


From aa454ddcde6931006a21823bd48b1342e632f971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:18 +0000
Subject: [PATCH 057/160] fix: regex: (a{2,3})? was written as a{2,3}? (not
 greedy)

---
 hachoir/regex/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index d72597a..d19f679 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -872,7 +872,7 @@ class RegexRepeat(Regex):
 
     def _str(self, **kw):
         text = str(self.regex)
-        if self.regex.__class__ == RegexAnd \
+        if self.regex.__class__ in (RegexAnd, RegexRepeat) \
                 or (self.regex.__class__ == RegexString and 1 < len(self.regex.text)):
             text = "(%s)" % text
         if self.min == 0 and self.max == 1:
-- 
2.43.0


From 74eebd1269b1e09f2281845dea8af7414d5a9952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:18 +0000
Subject: [PATCH 058/160] fix: regex: (a?|b){0,2} raised ValueError

---
 hachoir/regex/regex.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index d19f679..d3b08de 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -786,8 +786,11 @@ def optimizeRepeatOr(rmin, rmax, regex):
                         item = item.regex
                     else:
                         # (a{0,p}|b){x,} => (a{1,p}|b){x,}
-                        item = RegexRepeat(
-                            item.regex, 1, item.max, optimize=False)
+                        if item.max == 1:
+                            item = item.regex
+                        else:
+                            item = RegexRepeat(
+                                item.regex, 1, item.max, optimize=False)
             elif item.min == 1:
                 if rmax is item.max is None:
                     # (a+|b){x,} => (a|b){x,}
-- 
2.43.0


From 7cf68e24ebb55ce68b9b07f4c797e99ed0e3c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:18 +0000
Subject: [PATCH 059/160] fix: regex: (a{n,p}){x,y} is a{n*x,p*y} only if there
 is no hole

---
 hachoir/regex/regex.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index d3b08de..a4b257b 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -825,8 +825,15 @@ class RegexRepeat(Regex):
         if optimize:
             cls = regex.__class__
             if cls == RegexRepeat:
-                # (a{n,p}){x,y) => a{n*x,p*y}
-                if not (rmin == 0 and rmax == 1):
+                # (a{n,p}){x,y) => a{n*x,p*y}, if there is no hole
+                # between two numbers of repetitions
+                if rmin == rmax:
+                    contiguous = True
+                elif regex.max is None:
+                    contiguous = (1 <= rmin or regex.min <= 1)
+                else:
+                    contiguous = (regex.min - 1 <= rmin * (regex.max - regex.min))
+                if contiguous and not (rmin == 0 and rmax == 1):
                     rmin *= regex.min
                     if regex.max and rmax:
                         rmax *= regex.max
-- 
2.43.0


From ef29f25a630f99baabd3929f1f31599d978294c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:01 +0000
Subject: [PATCH 060/160] fix: regex: '.' matches any character, newline
 included (magic_regex)

---
 hachoir/regex/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index a4b257b..44ab8b0 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -257,7 +257,7 @@ class Regex:
             "Class %s has no method _eq()" % self.__class__.__name__)
 
     def compile(self, **kw):
-        return re.compile(self.__str__(**kw))
+        return re.compile(self.__str__(**kw), re.DOTALL)
 
     def findPrefix(self, regex):
         """
-- 
2.43.0


From 12b20fc86782715af10e94e4dbf4036e7fc976cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:01 +0000
Subject: [PATCH 061/160] fix: regex: search must not name a pattern which
 matches only a prefix

---
 hachoir/regex/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/regex/pattern.py b/hachoir/regex/pattern.py
index e525663..99a282b 100644
--- a/hachoir/regex/pattern.py
+++ b/hachoir/regex/pattern.py
@@ -44,7 +44,7 @@ class RegexPattern(Pattern):
         return "<RegexPattern '%s'>" % self
 
     def match(self, data):
-        return self.compiled_regex.match(data)
+        return self.compiled_regex.fullmatch(data)
 
     def _getCompiledRegex(self):
         if self._compiled_regex is None:
-- 
2.43.0


From 6b7b4e294cc99993d3b018bde6cea629c18b19f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:01 +0000
Subject: [PATCH 062/160] fix: regex: special characters in a range

---
 hachoir/regex/regex.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 44ab8b0..3a71ec5 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -549,18 +549,31 @@ class RegexRange(Regex):
         return RegexRange(ranges, self.exclude, optimize=False)
 
     def _str(self, **kw):
-        content = [str(item) for item in self.ranges]
-        if "-" in content:
-            content.remove("-")
-            suffix = "-"
-        else:
-            suffix = ""
-        if "]" in content:
-            content.remove("]")
-            prefix = "]"
-        else:
-            prefix = ""
-        text = prefix + (''.join(content)) + suffix
+        # Special characters are written apart from the other characters
+        special = set()
+        content = []
+        for item in self.ranges:
+            cmin, cmax = item.cmin, item.cmax
+            while cmin <= cmax and chr(cmin) in "]^\\-":
+                special.add(chr(cmin))
+                cmin += 1
+            while cmin <= cmax and chr(cmax) in "]^\\-":
+                special.add(chr(cmax))
+                cmax -= 1
+            if cmin <= cmax:
+                content.append(str(RegexRangeItem(cmin, cmax)))
+        text = ''.join(content)
+        if "\\" in special:
+            text += "\\\\"
+        if "]" in special:
+            text = "]" + text
+        if "^" in special:
+            if text or self.exclude:
+                text += "^"
+            else:
+                text = "\\^"
+        if "-" in special:
+            text += "-"
         if self.exclude:
             return "[^%s]" % text
         else:
-- 
2.43.0


From afa455780d331b88c071faff563c53748921600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:49 +0000
Subject: [PATCH 063/160] fix: regex: repetition of an empty expression

---
 hachoir/regex/regex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 3a71ec5..90ace45 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -895,6 +895,9 @@ class RegexRepeat(Regex):
 
     def _str(self, **kw):
         text = str(self.regex)
+        if not text:
+            # Nothing to repeat
+            return text
         if self.regex.__class__ in (RegexAnd, RegexRepeat) \
                 or (self.regex.__class__ == RegexString and 1 < len(self.regex.text)):
             text = "(%s)" % text
-- 
2.43.0


From f3de46ee9426e92a643957312b9b5a471ff5b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:34 +0000
Subject: [PATCH 064/160] fix: hachoir-grep: unreadable strings and deeply
 nested field sets crashed the search

---
 hachoir/grep.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/hachoir/grep.py b/hachoir/grep.py
index b1c46cc..f3f383a 100644
--- a/hachoir/grep.py
+++ b/hachoir/grep.py
@@ -75,16 +75,25 @@ class Grep:
         self.case_sensitive = True
 
     def grep(self, fieldset):
-        for field in fieldset:
-            if field.is_field_set:
-                self.grep(field)
-                field.reset()
-            elif isString(field) and self.match(field):
-                self.onMatch(field)
+        # Explicit stack: field sets can be nested very deeply
+        stack = [(fieldset, iter(fieldset))]
+        while stack:
+            parent, fields = stack[-1]
+            for field in fields:
+                if field.is_field_set:
+                    stack.append((field, iter(field)))
+                    break
+                if isString(field) and self.match(field):
+                    self.onMatch(field)
+            else:
+                stack.pop()
+                if stack:
+                    parent.reset()
 
     def match(self, field):
         value = field.value
-        if len(value) == 0:
+        # The value is None if the string is unreadable
+        if not value:
             return False
         if not self.pattern:
             return True
-- 
2.43.0


From e92f7017a12ffd44e7b0dbccc3db346c1b7769e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:53 +0000
Subject: [PATCH 065/160] fix: hachoir-grep: go on with the next file after one
 which cannot be read; EPIPE test

---
 hachoir/grep.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/hachoir/grep.py b/hachoir/grep.py
index f3f383a..004758e 100644
--- a/hachoir/grep.py
+++ b/hachoir/grep.py
@@ -159,20 +159,21 @@ class ConsoleGrep(Grep):
             self.parser = createParser(self.filename)
         except InputStreamError as err:
             error("Unable to open file: %s" % err)
-            sys.exit(1)
+            return False
         if not self.parser:
             error("Unable to parse file: %s" % self.filename)
-            sys.exit(1)
+            return False
 
         with self.parser:
             try:
                 self.grep(self.parser)
             except IOError as err:
-                if err[0] == errno.EPIPE:
+                if err.errno == errno.EPIPE:
                     # Ignore broken PIPE error
-                    return
+                    return True
                 else:
                     raise
+        return True
 
 
 def runGrep(values, pattern, filenames):
@@ -183,8 +184,11 @@ def runGrep(values, pattern, filenames):
     grep.display_value = not values.no_value
     grep.display_percent = values.percent
     grep.display = not values.bench
+    ok = True
     for filename in filenames:
-        grep.searchFile(filename, pattern, case_sensitive=values.case)
+        if not grep.searchFile(filename, pattern, case_sensitive=values.case):
+            ok = False
+    return ok
 
 
 def main():
@@ -193,9 +197,14 @@ def main():
         configureHachoir(values)
         if values.bench:
             bench = Benchmark()
-            bench.run(runGrep, values, pattern, filenames)
+            results = []
+            bench.run(lambda: results.append(
+                runGrep(values, pattern, filenames)))
+            ok = all(results)
         else:
-            runGrep(values, pattern, filenames)
+            ok = runGrep(values, pattern, filenames)
+        if not ok:
+            sys.exit(1)
     except KeyboardInterrupt:
         print("Program interrupted (CTRL+C).")
         sys.exit(1)
-- 
2.43.0


From 3799b3b6caf21c5e11a62ea0c7d92ade1d3c8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:12 +0000
Subject: [PATCH 066/160] fix: hachoir-metadata --bench: exit status of a
 successful benchmark

---
 hachoir/metadata/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/metadata/main.py b/hachoir/metadata/main.py
index 7f2e987..4899206 100644
--- a/hachoir/metadata/main.py
+++ b/hachoir/metadata/main.py
@@ -136,7 +136,10 @@ def processFiles(values, filenames, display=True):
 
 def benchmarkMetadata(values, filenames):
     bench = Benchmark()
-    bench.run(processFiles, values, filenames, display=False)
+    results = []
+    bench.run(lambda: results.append(
+        processFiles(values, filenames, display=False)))
+    return all(results)
 
 
 def profile(values, filenames):
-- 
2.43.0


From 1f5117e772e14b66d1214cdb34a11dd2c22f6aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:36 +0000
Subject: [PATCH 067/160] fix: parsers asked by identifier or class: the other
 parsers still validate the content

---
 hachoir/parser/guess.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index ff87cb3..af54f31 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -15,7 +15,8 @@ class QueryParser(object):
     other = None
 
     def __init__(self, tags):
-        self.validate = True
+        # Parsers asked by class or identifier: don't validate the content
+        self.forced = set()
         self.use_fallback = False
         self.parser_args = None
         self.db = HachoirParserList.getInstance()
@@ -55,7 +56,7 @@ class QueryParser(object):
             for parser in parsers:
                 self.parsers.remove(parser)
         elif tag[0] == "class":
-            self.validate = False
+            self.forced.add(tag[1])
             return [tag[1]]
         elif tag[0] == "args":
             self.parser_args = tag[1]
@@ -70,26 +71,31 @@ class QueryParser(object):
                     values = iter(byname.values())
                 else:
                     values = byname.get(tag[1], ()),
-                if key == "id" and values:
-                    self.validate = False
                 for value in values:
                     for parser in value:
                         if parser in self.parsers:
                             parsers.append(parser)
                             self.parsers.remove(parser)
+                if key == "id":
+                    self.forced.update(parsers)
         return parsers
 
     def parse(self, stream, fallback=True):
         if hasattr(stream, "_cached_parser"):
-            parser = stream._cached_parser()
+            parser, forced = stream._cached_parser
+            parser = parser()
         else:
             parser = None
         if parser is not None:
-            if parser.__class__ in self.parsers:
+            cls = parser.__class__
+            # Don't use a parser which didn't validate the content,
+            # except if it is also forced here
+            if cls in self.parsers and (not forced or cls in self.forced):
                 return parser
         parser = self.doparse(stream, fallback)
         if parser is not None:
-            stream._cached_parser = weakref.ref(parser)
+            forced = parser.__class__ in self.forced
+            stream._cached_parser = (weakref.ref(parser), forced)
         return parser
 
     def doparse(self, stream, fallback=True):
@@ -97,7 +103,8 @@ class QueryParser(object):
         warn = warning
         for parser in self.parsers:
             try:
-                parser_obj = parser(stream, validate=self.validate)
+                parser_obj = parser(
+                    stream, validate=parser not in self.forced)
                 if self.parser_args:
                     for key, value in self.parser_args.items():
                         setattr(parser_obj, key, value)
-- 
2.43.0


From f400f732f2afbd6122950a6b461c562ffc445012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:36 +0000
Subject: [PATCH 068/160] fix: FileInputStream() must not modify the tags of
 the caller

---
 hachoir/stream/input_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/stream/input_helper.py b/hachoir/stream/input_helper.py
index ed9263e..1adfdb7 100644
--- a/hachoir/stream/input_helper.py
+++ b/hachoir/stream/input_helper.py
@@ -34,7 +34,7 @@ def FileInputStream(filename, real_filename=None, **args):
         stream = InputIOStream(inputio, source=source, **args)
         return InputSubStream(stream, 8 * offset, size, **args)
     else:
-        args.setdefault("tags", []).append(("filename", filename))
+        args["tags"] = [*args.get("tags", ()), ("filename", filename)]
         return InputIOStream(inputio, source=source, **args)
 
 
-- 
2.43.0


From c56b2dd44a392a9db684e467bcd509a3febac25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:36 +0000
Subject: [PATCH 069/160] fix: gzip and bzip2 parsers failed when the stream
 has a None tag (--force-parser)

---
 hachoir/parser/archive/bzip2_parser.py | 8 +++++---
 hachoir/parser/archive/gzip_parser.py  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/archive/bzip2_parser.py b/hachoir/parser/archive/bzip2_parser.py
index 2e91d69..976839f 100644
--- a/hachoir/parser/archive/bzip2_parser.py
+++ b/hachoir/parser/archive/bzip2_parser.py
@@ -231,9 +231,11 @@ class Bzip2Parser(Parser):
 
         size = (self._size - self.current_size) // 8
         if size:
-            for tag, filename in self.stream.tags:
-                if tag == "filename" and filename.endswith(".bz2"):
-                    filename = filename[:-4]
+            for tag in self.stream.tags:
+                # A tag can also be None or a function
+                if isinstance(tag, tuple) and tag[0] == "filename" \
+                        and tag[1].endswith(".bz2"):
+                    filename = tag[1][:-4]
                     break
             else:
                 filename = None
diff --git a/hachoir/parser/archive/gzip_parser.py b/hachoir/parser/archive/gzip_parser.py
index aff9d28..357a66c 100644
--- a/hachoir/parser/archive/gzip_parser.py
+++ b/hachoir/parser/archive/gzip_parser.py
@@ -103,9 +103,11 @@ class GzipParser(Parser):
             if self["has_filename"].value:
                 filename = self["filename"].value
             else:
-                for tag, filename in self.stream.tags:
-                    if tag == "filename" and filename.endswith(".gz"):
-                        filename = filename[:-3]
+                for tag in self.stream.tags:
+                    # A tag can also be None or a function
+                    if isinstance(tag, tuple) and tag[0] == "filename" \
+                            and tag[1].endswith(".gz"):
+                        filename = tag[1][:-3]
                         break
                 else:
                     filename = None
-- 
2.43.0


From 2444b648b7e1923dee81b7590f82ec72a1baed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:36 +0000
Subject: [PATCH 070/160] fix: file extension of Git packs and .DS_Store, magic
 offset of PDF

---
 hachoir/parser/misc/dsstore.py  | 2 +-
 hachoir/parser/misc/git_pack.py | 2 +-
 hachoir/parser/misc/pdf.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/misc/dsstore.py b/hachoir/parser/misc/dsstore.py
index f4a7bec..6238c58 100644
--- a/hachoir/parser/misc/dsstore.py
+++ b/hachoir/parser/misc/dsstore.py
@@ -174,7 +174,7 @@ class DSStore(HachoirParser, RootSeekableFieldSet):
     PARSER_TAGS = {
         "id": "dsstore",
         "category": "misc",
-        "file_ext": ("DS_Store",),
+        "file_ext": ("ds_store",),
         "magic": ((MAGIC, 0),),
         "min_size": 4 + 32,  # \0\0\0\1 + 32-byte header
         "description": "Mac OS X DS_Store",
diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 500cb9c..4487a39 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -215,7 +215,7 @@ class GitPackFile(Parser):
     PARSER_TAGS = {
         "id": "git_pack",
         "category": "misc",
-        "file_ext": (".pack",),
+        "file_ext": ("pack",),
         "mime": (u"application/octet-stream",),
         "min_size": (4 + 4 + 4) * 8,  # just the header
         "magic": ((b'PACK', 0),),
diff --git a/hachoir/parser/misc/pdf.py b/hachoir/parser/misc/pdf.py
index 0bafb22..bf1bfcc 100644
--- a/hachoir/parser/misc/pdf.py
+++ b/hachoir/parser/misc/pdf.py
@@ -484,7 +484,7 @@ class PDFDocument(Parser):
         "file_ext": ("pdf",),
         "mime": ("application/pdf",),
         "min_size": (5 + 4) * 8,
-        "magic": ((MAGIC, 5),),
+        "magic": ((MAGIC, 0),),
         "description": "Portable Document Format (PDF) document"
     }
 
-- 
2.43.0


From 96b61916663a4c0487e8950bbedd7cbaf5c7c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:47 +0000
Subject: [PATCH 071/160] fix: MPEG-TS: tell M2TS from TS by content, not by
 the file name

---
 hachoir/parser/video/mpeg_ts.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/video/mpeg_ts.py b/hachoir/parser/video/mpeg_ts.py
index ed63ae1..dbed30d 100644
--- a/hachoir/parser/video/mpeg_ts.py
+++ b/hachoir/parser/video/mpeg_ts.py
@@ -14,6 +14,7 @@ from hachoir.field import (FieldSet, ParserError, MissingField,
                            UInt8, Enum, Bit, Bits, RawBytes, RawBits)
 from hachoir.core.endian import BIG_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
+from hachoir.stream import InputStreamError
 
 
 class AdaptationField(FieldSet):
@@ -130,14 +131,21 @@ class MPEG_TS(Parser):
     }
     endian = BIG_ENDIAN
 
+    def isSync(self, address):
+        try:
+            return self.stream.readBytes(address, 1) == b"\x47"
+        except InputStreamError:
+            return False
+
     def is_m2ts(self):
-        # FIXME: detect using file content, not file name
-        # maybe detect sync at offset+4 bytes?
-        source = self.stream.source
-        if not (source and source.startswith("file:")):
-            return True
-        filename = source[5:].lower()
-        return filename.endswith((".m2ts", ".mts"))
+        # M2TS: 4 bytes before each packet, the first ones can be incomplete
+        ts = self.isSync(0) + self.isSync(188 * 8)
+        m2ts = self.isSync(4 * 8) + self.isSync((4 + 192) * 8)
+        if ts != m2ts:
+            return ts < m2ts
+        sync = self.stream.searchBytes(b"\x47", 0, MAX_PACKET_SIZE * 8)
+        return sync is not None \
+            and self.isSync(sync + 192 * 8) and not self.isSync(sync + 188 * 8)
 
     def validate(self):
         sync = self.stream.searchBytes(b"\x47", 0, MAX_PACKET_SIZE * 8)
-- 
2.43.0


From d260d01b081103b646140fcc85ebdebef841dbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:47 +0000
Subject: [PATCH 072/160] fix: magic numbers of Canon CR2, ICO and XCF which
 were never found

---
 hachoir/parser/image/cr2.py | 2 +-
 hachoir/parser/image/ico.py | 4 ++--
 hachoir/parser/image/xcf.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/image/cr2.py b/hachoir/parser/image/cr2.py
index 5cc3299..c7c5866 100644
--- a/hachoir/parser/image/cr2.py
+++ b/hachoir/parser/image/cr2.py
@@ -43,7 +43,7 @@ class CR2File(RootSeekableFieldSet, Parser):
         "file_ext": ("cr2",),
         "mime": ("image/x-canon-cr2",),
         "min_size": 15,
-        "magic": ((b"CR", 8),),
+        "magic": ((b"CR", 8 * 8),),
         "description": "Canon CR2 raw image data, version 2.0"
     }
 
diff --git a/hachoir/parser/image/ico.py b/hachoir/parser/image/ico.py
index 63556e0..dc11a5e 100644
--- a/hachoir/parser/image/ico.py
+++ b/hachoir/parser/image/ico.py
@@ -82,8 +82,8 @@ class IcoFile(Parser):
             b"\0\0[\1\2]\0[\x01-\x14]."
             # size=(16x16|32x32|48x48|64x64),
             b"(\x10\x10|\x20\x20|\x30\x30|\x40\x40)"
-            # nb_color=0 or 16; nb_plane=(0|1|4), bpp=(0|8|24|32)
-            b"[\x00\x10]\0[\0\1\4][\0\x08\x18\x20]\0",
+            # nb_color=0 or 16; nb_plane=(0|1|4), bpp=(0|4|8|16|24|32)
+            b"[\x00\x10]\0[\0\1\4]\0[\0\4\x08\x10\x18\x20]\0",
             0),),
         "description": "Microsoft Windows icon or cursor",
     }
diff --git a/hachoir/parser/image/xcf.py b/hachoir/parser/image/xcf.py
index f003907..26a6f5d 100644
--- a/hachoir/parser/image/xcf.py
+++ b/hachoir/parser/image/xcf.py
@@ -360,7 +360,7 @@ class XcfFile(Parser):
         "min_size": (26 + 8 + 4 + 4) * 8,
         "magic": (
             (b'gimp xcf file\0', 0),
-            (b'gimp xcf v002\0', 0),
+            (b'gimp xcf v', 0),
         ),
         "description": "Gimp (XCF) picture"
     }
-- 
2.43.0


From 3f01d2078067c49434231012ddd4f8743034f476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:50 +0000
Subject: [PATCH 073/160] fix: limitedTime() must keep an alarm which is
 already set, and nest

---
 hachoir/core/timeout.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/hachoir/core/timeout.py b/hachoir/core/timeout.py
index 9bc4d3e..a36f9f6 100644
--- a/hachoir/core/timeout.py
+++ b/hachoir/core/timeout.py
@@ -40,18 +40,31 @@ def fixTimeout(second):
 
 if not IMPLEMENTATION:
     try:
-        from signal import signal, alarm, SIGALRM
+        from signal import signal, setitimer, ITIMER_REAL, SIGALRM
+        from time import monotonic
 
-        # signal.alarm() implementation
+        # signal.setitimer() implementation
         def limitedTime(second, func, *args, **kw):  # noqa
             second = fixTimeout(second)
-            old_alarm = signal(SIGALRM, signalHandler)
+            # An alarm may already be set, eg. by another limitedTime()
+            start = monotonic()
+            old_delay, old_interval = setitimer(ITIMER_REAL, 0)
             try:
-                alarm(second)
-                return func(*args, **kw)
+                old_alarm = signal(SIGALRM, signalHandler)
+                try:
+                    try:
+                        if old_delay:
+                            second = min(second, old_delay)
+                        setitimer(ITIMER_REAL, second)
+                        return func(*args, **kw)
+                    finally:
+                        setitimer(ITIMER_REAL, 0)
+                finally:
+                    signal(SIGALRM, old_alarm)
             finally:
-                alarm(0)
-                signal(SIGALRM, old_alarm)
+                if old_delay:
+                    old_delay -= monotonic() - start
+                    setitimer(ITIMER_REAL, max(old_delay, 1e-6), old_interval)
 
         IMPLEMENTATION = "signal.alarm()"
     except ImportError:
-- 
2.43.0


From bb51718ffa7b95b6f03b42c55175593b1bd7e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:50 +0000
Subject: [PATCH 074/160] fix: limitedMemory() must restore the limit and not
 raise it

---
 hachoir/core/memory.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/hachoir/core/memory.py b/hachoir/core/memory.py
index 9b03023..781be3e 100644
--- a/hachoir/core/memory.py
+++ b/hachoir/core/memory.py
@@ -31,7 +31,8 @@ def getMemorySize():
     This function only works on Linux (use /proc/self/statm file).
     """
     try:
-        statm = open('/proc/self/statm').readline().split()
+        with open('/proc/self/statm') as fp:
+            statm = fp.readline().split()
     except IOError:
         return None
     return int(statm[0]) * PAGE_SIZE
@@ -53,18 +54,18 @@ try:
 
     def getMemoryLimit():  # noqa
         try:
-            limit = getrlimit(RLIMIT_AS)[0]
-            if 0 < limit:
-                limit *= PAGE_SIZE
-            return limit
+            # RLIMIT_AS is a number of bytes
+            return getrlimit(RLIMIT_AS)[0]
         except ValueError:
             return None
 
     def setMemoryLimit(max_mem):  # noqa
+        # Keep the hard limit
+        hard = getrlimit(RLIMIT_AS)[1]
         if max_mem is None:
-            max_mem = -1
+            max_mem = hard
         try:
-            setrlimit(RLIMIT_AS, (max_mem, -1))
+            setrlimit(RLIMIT_AS, (max_mem, hard))
             return True
         except ValueError:
             return False
@@ -88,6 +89,9 @@ def limitedMemory(limit, func, *args, **kw):
         # Get old limit and then set our new memory limit
         old_limit = getMemoryLimit()
         limit = max_rss + limit
+        if old_limit is not None and 0 <= old_limit < limit:
+            # Never raise the current limit
+            limit = old_limit
         limited = setMemoryLimit(limit)
     else:
         limited = False
-- 
2.43.0


From 8bae4e449f4156eb2bf9c4029c6509ce34d2d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:50 +0000
Subject: [PATCH 075/160] fix: close the files of streams and parsers which
 cannot be created, of pipes and of sub-ranges

---
 hachoir/parser/guess.py        |  6 +++-
 hachoir/stream/input.py        |  4 +++
 hachoir/stream/input_helper.py | 60 ++++++++++++++++++++++------------
 3 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index af54f31..e7053f3 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -141,7 +141,11 @@ def createParser(filename, real_filename=None, tags=None):
     if not tags:
         tags = []
     stream = FileInputStream(filename, real_filename, tags=tags)
-    guess = guessParser(stream)
+    try:
+        guess = guessParser(stream)
+    except BaseException:
+        stream.close()
+        raise
     if guess is None:
         stream.close()
     return guess
diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 7bce89e..ba0dfd9 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -298,6 +298,10 @@ class InputPipe(object):
 
     current_size = property(lambda self: len(self.buffers) << self.buffer_size)
 
+    def close(self):
+        if hasattr(self._input, "close"):
+            self._input.close()
+
     def _append(self, data):
         if self.last is None:
             self.last = next = prev = 0
diff --git a/hachoir/stream/input_helper.py b/hachoir/stream/input_helper.py
index 1adfdb7..4dbf2e0 100644
--- a/hachoir/stream/input_helper.py
+++ b/hachoir/stream/input_helper.py
@@ -2,6 +2,17 @@ from hachoir.core.i18n import guessBytesCharset
 from hachoir.stream import InputIOStream, InputSubStream, InputStreamError
 
 
+class FileSubStream(InputSubStream):
+    """
+    Part of a file: closing the stream closes the file
+    """
+
+    def close(self):
+        if self.stream is not None:
+            self.stream.close()
+        InputSubStream.close(self)
+
+
 def FileInputStream(filename, real_filename=None, **args):
     """
     Create an input stream of a file. filename must be unicode or a file
@@ -12,30 +23,39 @@ def FileInputStream(filename, real_filename=None, **args):
     not able to convert filename to real unicode string (ie. you have to
     use unicode(name, 'replace') or unicode(name, 'ignore')).
     """
-    if not real_filename:
-        real_filename = (filename if isinstance(filename, str)
-                         else getattr(filename, 'name', ''))
-    try:
-        if isinstance(filename, str):
+    if isinstance(filename, str):
+        if not real_filename:
+            real_filename = filename
+        try:
             inputio = open(real_filename, 'rb')
-        else:
-            inputio = filename
-            filename = getattr(filename, 'name', '')
-    except IOError as err:
-        errmsg = str(err)
-        raise InputStreamError(
-            "Unable to open file %s: %s" % (filename, errmsg))
+        except IOError as err:
+            errmsg = str(err)
+            raise InputStreamError(
+                "Unable to open file %s: %s" % (filename, errmsg))
+        opened = inputio
+    else:
+        inputio = filename
+        opened = None
+        filename = getattr(filename, 'name', '')
+        if not isinstance(filename, str):
+            # The name of a pipe is its file descriptor
+            filename = real_filename or ''
     source = "file:" + filename
     offset = args.pop("offset", 0)
     size = args.pop("size", None)
-    if offset or size:
-        if size:
-            size = 8 * size
-        stream = InputIOStream(inputio, source=source, **args)
-        return InputSubStream(stream, 8 * offset, size, **args)
-    else:
-        args["tags"] = [*args.get("tags", ()), ("filename", filename)]
-        return InputIOStream(inputio, source=source, **args)
+    try:
+        if offset or size:
+            if size:
+                size = 8 * size
+            stream = InputIOStream(inputio, source=source, **args)
+            return FileSubStream(stream, 8 * offset, size, **args)
+        else:
+            args["tags"] = [*args.get("tags", ()), ("filename", filename)]
+            return InputIOStream(inputio, source=source, **args)
+    except BaseException:
+        if opened is not None:
+            opened.close()
+        raise
 
 
 def guessStreamCharset(stream, address, size, default=None):
-- 
2.43.0


From 5b50a3c842f779fd9ff3173206dbe07ef7fdc3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:50 +0000
Subject: [PATCH 076/160] fix: hachoir-subfile: close the extracted files

---
 hachoir/subfile/output.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hachoir/subfile/output.py b/hachoir/subfile/output.py
index d079839..afdd6fa 100644
--- a/hachoir/subfile/output.py
+++ b/hachoir/subfile/output.py
@@ -38,11 +38,10 @@ class Output:
 
         # Create output file
         filename = path.join(self.directory, filename)
-        output = FileOutputStream(filename)
-
-        # Write output
-        try:
-            output.copyBytesFrom(stream, offset, size // 8)
-        except StreamError as err:
-            error("copyBytesFrom() error: %s" % err)
+        with FileOutputStream(filename) as output:
+            # Write output
+            try:
+                output.copyBytesFrom(stream, offset, size // 8)
+            except StreamError as err:
+                error("copyBytesFrom() error: %s" % err)
         return filename
-- 
2.43.0


From a7e1335c7a9941e9f3b79ba60b1d13e44ea7e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:22 +0000
Subject: [PATCH 077/160] fix: parsers of seekable formats (ELF, ...) failed on
 a pipe when its end is reached

---
 hachoir/field/seekable_field_set.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index ac45065..7cf6bd4 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -34,6 +34,11 @@ class RootSeekableFieldSet(GenericFieldSet):
     def __exit__(self, type, value, traceback):
         self.close()
 
+    def _setSize(self, size):
+        # Called when the size of the stream is known
+        self._truncate(size)
+        self.raiseEvent("field-resized", self)
+
     def seekBit(self, address, relative=True):
         if not relative:
             address -= self.absolute_address
-- 
2.43.0


From f49aa818bb5c4916be1d9e28e18222a4113c0ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:20 +0000
Subject: [PATCH 078/160] fix: replaceField() must not modify the field set
 when a name is refused, Dict.replace() with a used key

---
 hachoir/core/dict.py               |  2 ++
 hachoir/field/generic_field_set.py | 31 ++++++++++++++++++------------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/hachoir/core/dict.py b/hachoir/core/dict.py
index cfdcf24..9427c7f 100644
--- a/hachoir/core/dict.py
+++ b/hachoir/core/dict.py
@@ -120,6 +120,8 @@ class Dict(object):
         {'two': 'deux', 'three': 4}
         """
         index = self._index[oldkey]
+        if oldkey != newkey and newkey in self._index:
+            raise UniqKeyError("Key '%s' already exists" % newkey)
         self._value_list[index] = new_value
         if oldkey != newkey:
             del self._index[oldkey]
diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 22e10e3..bf05e45 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -450,27 +450,34 @@ class GenericFieldSet(BasicFieldSet):
             raise ParserError("Unable to replace %s: "
                               "new field(s) hasn't same size (%u bits instead of %u bits)!"
                               % (name, total_size, old_field.size))
+
+        # Choose and check all names before modifying the field set
+        array_count = self._field_array_count.copy()
+        old_names = [field._name for field in new_fields]
+        names = set()
+        for field in new_fields:
+            if field._name.endswith("[]"):
+                self.setUniqueFieldName(field)
+            if field.name in names \
+                    or (field.name != name and field.name in self._fields):
+                err = ParserError(
+                    "Unable to replace %s: name \"%s\" is already used!"
+                    % (name, field.name))
+                self._field_array_count = array_count
+                for field, old_name in zip(new_fields, old_names):
+                    field._name = old_name
+                raise err
+            names.add(field.name)
+
         field = new_fields[0]
-        if field._name.endswith("[]"):
-            self.setUniqueFieldName(field)
         field._address = old_field.address
-        if field.name != name and field.name in self._fields:
-            raise ParserError(
-                "Unable to replace %s: name \"%s\" is already used!"
-                % (name, field.name))
         self._fields.replace(name, field.name, field)
         self.raiseEvent("field-replaced", old_field, field)
         if 1 < len(new_fields):
             index = self._fields.index(new_fields[0].name) + 1
             address = field.address + field.size
             for field in new_fields[1:]:
-                if field._name.endswith("[]"):
-                    self.setUniqueFieldName(field)
                 field._address = address
-                if field.name in self._fields:
-                    raise ParserError(
-                        "Unable to replace %s: name \"%s\" is already used!"
-                        % (name, field.name))
                 self._fields.insert(index, field.name, field)
                 self.raiseEvent("field-inserted", index, field)
                 index += 1
-- 
2.43.0


From 9234d0330293264c71dd4495a08e08beccce362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:11 +0000
Subject: [PATCH 079/160] fix: metadata filters: refuse NaN, accept the last
 day of the last year

---
 hachoir/metadata/filter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hachoir/metadata/filter.py b/hachoir/metadata/filter.py
index a507047..4a4f711 100644
--- a/hachoir/metadata/filter.py
+++ b/hachoir/metadata/filter.py
@@ -16,9 +16,10 @@ class Filter:
     def __call__(self, value):
         if not isinstance(value, self.types):
             return True
-        if self.min is not None and value < self.min:
+        # Not a number (NaN) is out of any range
+        if self.min is not None and not (self.min <= value):
             return False
-        if self.max is not None and self.max < value:
+        if self.max is not None and not (value <= self.max):
             return False
         return True
 
@@ -34,11 +35,11 @@ class DatetimeFilter(Filter):
     def __init__(self, min=None, max=None):
         Filter.__init__(self, (date, datetime),
                         datetime(MIN_YEAR, 1, 1),
-                        datetime(MAX_YEAR, 12, 31))
+                        datetime(MAX_YEAR, 12, 31, 23, 59, 59, 999999))
         self.min_date = date(MIN_YEAR, 1, 1)
         self.max_date = date(MAX_YEAR, 12, 31)
         self.min_tz = datetime(MIN_YEAR, 1, 1, tzinfo=UTC)
-        self.max_tz = datetime(MAX_YEAR, 12, 31, tzinfo=UTC)
+        self.max_tz = datetime(MAX_YEAR, 12, 31, 23, 59, 59, 999999, tzinfo=UTC)
 
     def __call__(self, value):
         """
-- 
2.43.0


From 421f85a975c09343e01a068ede83c9ac5006f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:11 +0000
Subject: [PATCH 080/160] fix: parseDatetime() must restore the locale, and
 reads negative timezones

---
 hachoir/metadata/setter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hachoir/metadata/setter.py b/hachoir/metadata/setter.py
index 9d6997d..4c4b561 100644
--- a/hachoir/metadata/setter.py
+++ b/hachoir/metadata/setter.py
@@ -21,7 +21,7 @@ DATETIME_REGEX2 = re.compile("^([01]?[0-9])~([0-9]{2})~([0-9]{4})"
                              "~([0-9]{1,2})~([0-9]{2})~([0-9]{1,2})$")
 
 # Timezone regex: "(...) +0200"
-TIMEZONE_REGEX = re.compile("^(.*)~([+-][0-9]{2})00$")
+TIMEZONE_REGEX = re.compile("^(.*[^ ]) +([+-][0-9]{2})00$")
 
 # Timestmap: 'February 2007'
 MONTH_YEAR = "%B~%Y"
@@ -53,7 +53,8 @@ def parseDatetime(value):
     >>> parseDatetime('Thu, 19 Jul 2007 09:03:57 +0200')
     datetime.datetime(2007, 7, 19, 9, 3, 57, tzinfo=<Timezone delta=2:00:00, name='+0200'>)
     """
-    value = NORMALIZE_REGEX.sub("~", value.strip())
+    raw_value = value.strip()
+    value = NORMALIZE_REGEX.sub("~", raw_value)
     regs = YEAR_REGEX1.match(value)
     if regs:
         try:
@@ -94,11 +95,12 @@ def parseDatetime(value):
             return datetime(year, month, day, hour, min, sec)
         except ValueError:
             pass
-    current_locale = setlocale(LC_ALL, "C")
+    current_locale = setlocale(LC_ALL)
+    setlocale(LC_ALL, "C")
     try:
-        match = TIMEZONE_REGEX.match(value)
+        match = TIMEZONE_REGEX.match(raw_value)
         if match:
-            without_timezone = match.group(1)
+            without_timezone = NORMALIZE_REGEX.sub("~", match.group(1))
             delta = int(match.group(2))
             delta = createTimezone(delta)
         else:
-- 
2.43.0


From 1da922dac341cf15f1e289f22b4822cf6bb8f324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:41 +0000
Subject: [PATCH 081/160] fix: exportDictionary() lost the groups which have
 the same header

---
 hachoir/metadata/metadata.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/metadata.py b/hachoir/metadata/metadata.py
index 67df716..05d5737 100644
--- a/hachoir/metadata/metadata.py
+++ b/hachoir/metadata/metadata.py
@@ -303,8 +303,14 @@ class MultipleMetadata(RootMetadata):
             else:
                 title = None
             value = metadata.exportDictionary(priority, human, title=title)
-            if value:
-                text.update(value)
+            for header, fields in value.items():
+                # Groups may have the same header
+                name = header
+                index = 2
+                while name in text:
+                    name = "%s (%u)" % (header, index)
+                    index += 1
+                text[name] = fields
         return text
 
 
-- 
2.43.0


From 8e767f9b13679601c1a88a92b72148a5bf45dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 082/160] fix: hachoir-subfile: find files at slice limits and
 overlapping or shared magic numbers

A file whose magic number was in the next slice, began inside another match
or was shared by two parsers was lost. Offsets are now sorted, reported once
and never out of the requested range.
---
 hachoir/subfile/pattern.py | 35 ++++++++++++++++++++++++++++++-----
 hachoir/subfile/search.py  | 37 ++++++++++++++++++++++---------------
 2 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/hachoir/subfile/pattern.py b/hachoir/subfile/pattern.py
index a2b1d7b..ecf565a 100644
--- a/hachoir/subfile/pattern.py
+++ b/hachoir/subfile/pattern.py
@@ -20,17 +20,42 @@ class HachoirPatternMatching(PatternMatching):
             tags += [None]
         parser_list = QueryParser(tags)
 
-        # Create string patterns
+        # Create string patterns: more than one parser may use a magic string
+        users = {}
+        self.max_distance = 0   # max. distance from a file to its magic end
         for parser in parser_list:
             for (magic, offset) in parser.getParserTags().get("magic", ()):
-                self.addString(magic.decode('latin1'), (offset, parser))
+                magic = magic.decode('latin1')
+                user = users.setdefault(magic, [])
+                user.append((offset, parser))
+                self.addString(magic, user)
+                self.max_distance = max(self.max_distance,
+                                        offset + len(magic) * 8)
 
         # Create regex patterns
         for parser in parser_list:
             for (regex, offset) in parser.getParserTags().get("magic_regex", ()):
-                self.addRegex(regex.decode('latin1'), (offset, parser))
+                self.addRegex(regex.decode('latin1'), [(offset, parser)])
+                length = self.regex_patterns[-1].regex.maxLength()
+                self.max_distance = max(self.max_distance, offset + length * 8)
         self.commit()
 
     def search(self, data):
-        for start, stop, item in PatternMatching.search(self, data.decode('latin1')):
-            yield (item.user[1], start * 8 - item.user[0])
+        """
+        Generate (parser class, address of the file in bits) for each magic
+        number, including magic numbers which overlap.
+        """
+        if not self.max_length:
+            return
+        data = data.decode('latin1')
+        match = self.compiled_regex.search(data)
+        while match:
+            start = match.start(0)
+            patterns = [item for item in self.string_patterns
+                        if data.startswith(item.text, start)]
+            patterns += [item for item in self.regex_patterns
+                         if item.compiled_regex.match(data, start)]
+            for item in patterns:
+                for offset, parser in item.user:
+                    yield (parser, start * 8 - offset)
+            match = self.compiled_regex.search(data, start + 1)
diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index f7ae929..013faef 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -98,9 +98,6 @@ class SearchSubfile:
         return (not main_error)
 
     def mainHeader(self):
-        # Fix slice size if needed
-        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
-
         # Load parsers if none has been choosen
         if not self.patterns:
             self.loadParsers()
@@ -169,33 +166,43 @@ class SearchSubfile:
 
     def findMagic(self, offset):
         """
-        Find all 'magic_str' strings in stream in offset interval:
+        Find the files which start in the stream in offset interval:
           offset..(offset+self.slice_size).
 
         The function returns a generator with values (offset, parser) where
         offset is beginning of a file (relative to stream begin), and not the
-        position of the magic.
+        position of the magic. Offsets are sorted.
         """
         start = offset
         end = start + self.slice_size
         end = min(end, self.size)
-        data = self.stream.readBytes(start, (end - start) // 8)
+        # The magic of a file may be in the next slice
+        stop = min(end + self.patterns.max_distance, self.size)
+        data = self.stream.readBytes(start, (stop - start) // 8)
+        found = {}
         for parser_cls, offset in self.patterns.search(data):
             offset += start
+            if start <= offset < end:
+                parsers = found.setdefault(offset, [])
+                if parser_cls not in parsers:
+                    parsers.append(parser_cls)
+
+        for offset in sorted(found):
             # Skip invalid offset
-            if offset < 0:
-                continue
             if self.next_offset and offset < self.next_offset:
                 continue
 
-            # Create parser at found offset
-            parser = self.guess(offset, parser_cls)
+            for parser_cls in found[offset]:
+                # Create parser at found offset
+                parser = self.guess(offset, parser_cls)
 
-            # Update statistics
-            if parser_cls not in self.stats:
-                self.stats[parser_cls] = [0, 0]
-            self.stats[parser_cls][0] += 1
-            if not parser:
+                # Update statistics
+                if parser_cls not in self.stats:
+                    self.stats[parser_cls] = [0, 0]
+                self.stats[parser_cls][0] += 1
+                if parser:
+                    break
+            else:
                 continue
 
             # Parser is valid, yield it with the offset
-- 
2.43.0


From 0f906fb406552200f32a2ca2c0d11e4d098f1e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 083/160] fix: ZIP: content size ignored the comment and took
 the first end record

---
 hachoir/parser/archive/zip.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 4a8f4e0..9ac56e7 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -12,7 +12,7 @@ from hachoir.field import (FieldSet, ParserError,
                            UInt8, UInt16, UInt32, UInt64,
                            String, PascalString16,
                            RawBytes)
-from hachoir.stream.input import ReadStreamError
+from hachoir.stream.input import InputStreamError, ReadStreamError
 from hachoir.core.text_handler import textHandler, filesizeHandler, hexadecimal
 from hachoir.core.tools import makeUnicode
 from hachoir.core.endian import LITTLE_ENDIAN
@@ -473,9 +473,21 @@ class ZipFile(Parser):
         return ".zip"
 
     def createContentSize(self):
-        start = 0
-        end = MAX_FILESIZE * 8
-        end = self.stream.searchBytes(b"PK\5\6", start, end)
-        if end is not None:
-            return end + 22 * 8
-        return None
+        # The signature may also be found in a file of the archive, or in the
+        # comment: the central directory ends where its record begins
+        first = None
+        pos = self.stream.searchBytes(b"PK\5\6", 0, MAX_FILESIZE * 8)
+        while pos is not None:
+            try:
+                cd_size = self.stream.readBits(pos + 12 * 8, 32, self.endian)
+                cd_offset = self.stream.readBits(pos + 16 * 8, 32, self.endian)
+                comment = self.stream.readBits(pos + 20 * 8, 16, self.endian)
+            except InputStreamError:
+                break
+            size = pos + (22 + comment) * 8
+            if (cd_offset + cd_size) * 8 == pos:
+                return size
+            if first is None:
+                first = size
+            pos = self.stream.searchBytes(b"PK\5\6", pos + 8, MAX_FILESIZE * 8)
+        return first
-- 
2.43.0


From 7a3c7e035551c85abfbe1550d4581389130629c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 084/160] fix: Ogg: last page of multiplexed and concatenated
 files

---
 hachoir/parser/container/ogg.py | 46 ++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 2a22539..87e3722 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -331,26 +331,36 @@ class OggFile(Parser):
             yield page
 
     def createLastPage(self):
-        start = self[0].size
+        # Go to the last page of the last logical stream
         end = MAX_FILESIZE * 8
-        if True:
-            # FIXME: This doesn't work on all files (eg. some Ogg/Theora)
-            offset = self.stream.searchBytes(b"OggS\0\5", start, end)
-            if offset is None:
-                offset = self.stream.searchBytes(b"OggS\0\4", start, end)
-            if offset is None:
-                return None
-            return createOrphanField(self, offset, OggPage, "page")
-        else:
-            # Very slow version
-            page = None
-            while True:
-                offset = self.stream.searchBytes(b"OggS\0", start, end)
-                if offset is None:
+        offset = 0
+        serials = set()
+        try:
+            while offset < end:
+                if self.stream.readBytes(offset, 5) != b"OggS\0":
                     break
-                page = createOrphanField(self, offset, OggPage, "page")
-                start += page.size
-            return page
+                flags = self.stream.readBits(offset + 5 * 8, 8, self.endian)
+                serial = self.stream.readBytes(offset + 14 * 8, 4)
+                lacing_size = self.stream.readBits(offset + 26 * 8, 8, self.endian)
+                lacing = self.stream.readBytes(offset + 27 * 8, lacing_size)
+                if flags & 2:
+                    serials.add(serial)
+                if flags & 4:
+                    serials.discard(serial)
+                    if not serials:
+                        return createOrphanField(self, offset, OggPage, "page")
+                offset += (27 + lacing_size + sum(lacing)) * 8
+        except InputStreamError:
+            pass
+
+        # Damaged file: use the first page which is the last of a stream
+        start = self[0].size
+        offset = self.stream.searchBytes(b"OggS\0\4", start, end)
+        if offset is None:
+            offset = self.stream.searchBytes(b"OggS\0\5", start, end)
+        if offset is None:
+            return None
+        return createOrphanField(self, offset, OggPage, "page")
 
     def createContentSize(self):
         page = self.createLastPage()
-- 
2.43.0


From bfb00bbcf9f14f2a0f5e951a3368e235ac9a0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 085/160] fix: GIF: content size was never found

---
 hachoir/parser/image/gif.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/image/gif.py b/hachoir/parser/image/gif.py
index a33b128..cdb21fd 100644
--- a/hachoir/parser/image/gif.py
+++ b/hachoir/parser/image/gif.py
@@ -24,7 +24,6 @@ from hachoir.core.text_handler import textHandler, displayHandler, hexadecimal
 # Maximum image dimension (in pixel)
 MAX_WIDTH = 6000
 MAX_HEIGHT = MAX_WIDTH
-MAX_FILE_SIZE = 100 * 1024 * 1024
 
 
 def rle_repr(chain):
@@ -353,10 +352,7 @@ class GifFile(Parser):
                     "Wrong GIF image separator: 0x%02X" % ord(code))
 
     def createContentSize(self):
-        field = self["image[0]"]
-        start = field.absolute_address + field.size
-        end = start + MAX_FILE_SIZE * 8
-        pos = self.stream.searchBytes(b"\0;", start, end)
-        if pos:
-            return pos + 16
+        for field in self:
+            if field.name.startswith("separator[") and field.value == ";":
+                return field.absolute_address + field.size
         return None
-- 
2.43.0


From f81a68684f293c7e10a338231d65be95f2296896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 086/160] fix: PNG, WMF: content size of a picture which
 contains an end marker

---
 hachoir/parser/image/png.py | 15 +++++++++++++++
 hachoir/parser/image/wmf.py | 17 +++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/hachoir/parser/image/png.py b/hachoir/parser/image/png.py
index 19a99be..2dccb14 100644
--- a/hachoir/parser/image/png.py
+++ b/hachoir/parser/image/png.py
@@ -17,6 +17,7 @@ from hachoir.field import (FieldSet, Fragment,
                            Bit, NullBits,
                            Enum, CompressedField)
 from hachoir.parser.image.common import RGB
+from hachoir.stream import InputStreamError
 from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.core.endian import NETWORK_ENDIAN
 from hachoir.core.tools import humanFilesize
@@ -287,6 +288,20 @@ class PngFile(Parser):
         field = self["header"]
         start = field.absolute_address + field.size
         end = MAX_FILESIZE * 8
+
+        # Go to the end chunk: a chunk may contain a whole PNG picture
+        pos = start
+        try:
+            while pos < end:
+                size = self.stream.readBits(pos, 32, self.endian)
+                tag = self.stream.readBytes(pos + 32, 4)
+                pos += (12 + size) * 8
+                if tag == b"IEND":
+                    return pos
+        except InputStreamError:
+            pass
+
+        # Damaged picture
         pos = self.stream.searchBytes(
             b"\0\0\0\0IEND\xae\x42\x60\x82", start, end)
         if pos is not None:
diff --git a/hachoir/parser/image/wmf.py b/hachoir/parser/image/wmf.py
index 2a60951..a2b3576 100644
--- a/hachoir/parser/image/wmf.py
+++ b/hachoir/parser/image/wmf.py
@@ -18,6 +18,7 @@ from hachoir.parser import Parser
 from hachoir.field import (FieldSet, StaticFieldSet, Enum,
                            MissingField, ParserError,
                            UInt32, Int32, UInt16, Int16, UInt8, NullBytes, RawBytes, String)
+from hachoir.stream import InputStreamError
 from hachoir.core.endian import LITTLE_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.core.tools import createDict
@@ -635,6 +636,22 @@ class WMF_File(Parser):
         if self.isEMF():
             return None
         start = self["func[0]"].absolute_address
+
+        # Go to the last function: its bytes may be found in picture data
+        pos = start
+        try:
+            while pos < MAX_FILESIZE * 8:
+                size = self.stream.readBits(pos, 32, self.endian)
+                function = self.stream.readBits(pos + 32, 16, self.endian)
+                if size < 3:
+                    break
+                pos += size * 16
+                if function == 0:
+                    return pos
+        except InputStreamError:
+            pass
+
+        # Damaged picture
         end = self.stream.searchBytes(b"\3\0\0\0\0\0", start, MAX_FILESIZE * 8)
         if end is not None:
             return end + 6 * 8
-- 
2.43.0


From 224a97e11160d4a7b4d3c7b1acc408cc45552397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 087/160] fix: MIDI: content size from the size of the last
 track

---
 hachoir/parser/audio/midi.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/hachoir/parser/audio/midi.py b/hachoir/parser/audio/midi.py
index ccee235..7594f83 100644
--- a/hachoir/parser/audio/midi.py
+++ b/hachoir/parser/audio/midi.py
@@ -16,7 +16,6 @@ from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.core.tools import createDict, humanDurationNanosec
 from hachoir.parser.common.tracker import NOTE_NAME
 
-MAX_FILESIZE = 10 * 1024 * 1024
 
 
 class Integer(Bits):
@@ -260,10 +259,8 @@ class MidiFile(Parser):
         return "MIDI audio: %s" % self["header"].description
 
     def createContentSize(self):
-        count = self["/header/nb_track"].value - 1
-        start = self["track[%u]" % count].absolute_address
-        # Search "End of track" of last track
-        end = self.stream.searchBytes(b"\xff\x2f\x00", start, MAX_FILESIZE * 8)
-        if end is not None:
-            return end + 3 * 8
-        return None
+        count = self["/header/nb_track"].value
+        if not count:
+            return None
+        track = self["track[%u]" % (count - 1)]
+        return track.absolute_address + (8 + track["size"].value) * 8
-- 
2.43.0


From 55b3852cce8461ce34f6d7c575dac4e480299f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 088/160] fix: AIFF, AU, MKV: wrong content size

---
 hachoir/parser/audio/aiff.py    | 2 +-
 hachoir/parser/audio/au.py      | 3 +++
 hachoir/parser/container/mkv.py | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/aiff.py b/hachoir/parser/audio/aiff.py
index 8a9ddc7..117a8eb 100644
--- a/hachoir/parser/audio/aiff.py
+++ b/hachoir/parser/audio/aiff.py
@@ -132,4 +132,4 @@ class AiffFile(Parser):
             return "Audio Interchange File Format (AIFF)"
 
     def createContentSize(self):
-        return self["filesize"].value * 8
+        return (self["filesize"].value + 8) * 8
diff --git a/hachoir/parser/audio/au.py b/hachoir/parser/audio/au.py
index e7c0003..ba9ebfa 100644
--- a/hachoir/parser/audio/au.py
+++ b/hachoir/parser/audio/au.py
@@ -87,4 +87,7 @@ class AuFile(Parser):
         yield RawBytes(self, "audio_data", size, "Audio data")
 
     def createContentSize(self):
+        if self["data_size"].value == 0xffffffff:
+            # Unknown size
+            return None
         return (self["data_ofs"].value + self["data_size"].value) * 8
diff --git a/hachoir/parser/container/mkv.py b/hachoir/parser/container/mkv.py
index d02f673..39a52e9 100644
--- a/hachoir/parser/container/mkv.py
+++ b/hachoir/parser/container/mkv.py
@@ -632,6 +632,9 @@ class MkvFile(Parser):
 
     def createContentSize(self):
         field = self["Segment[0]/size"]
+        if field.value is None:
+            # Unknown size
+            return None
         return field.absolute_address + field.value * 8 + field.size
 
     def createDescription(self):
-- 
2.43.0


From 380f87deac963b1fee0aeb57a59a6ff88969b34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 089/160] fix: OLE2: content size without the last block of the
 file

---
 hachoir/parser/misc/ole2.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/misc/ole2.py b/hachoir/parser/misc/ole2.py
index ea301ae..098b3cb 100644
--- a/hachoir/parser/misc/ole2.py
+++ b/hachoir/parser/misc/ole2.py
@@ -377,13 +377,14 @@ class OLE2_File(HachoirParser, RootSeekableFieldSet):
             start += count
 
     def createContentSize(self):
-        max_block = 0
-        for fat in self.array("bbfat"):
-            for entry in fat:
-                block = entry.value
-                if block not in SECT.SPECIALS:
-                    max_block = max(block, max_block)
-        if max_block in SECT.SPECIALS:
+        # Last block used: the last block of a chain has no successor
+        max_block = None
+        for fat_index, fat in enumerate(self.array("bbfat")):
+            start = fat_index * self.items_per_bbfat
+            for index, entry in enumerate(fat):
+                if entry.value != SECT.UNUSED:
+                    max_block = start + index
+        if max_block is None:
             return None
         else:
             return HEADER_SIZE + (max_block + 1) * self.sector_size
-- 
2.43.0


From 61b9e80bcac1e44484e85d13988c7b8c5a6f9dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:28 +0000
Subject: [PATCH 090/160] fix: PSD: height is stored before width

---
 hachoir/parser/image/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/psd.py b/hachoir/parser/image/psd.py
index df59f6b..4cc89e4 100644
--- a/hachoir/parser/image/psd.py
+++ b/hachoir/parser/image/psd.py
@@ -60,8 +60,8 @@ class PsdFile(Parser):
         yield UInt16(self, "version")
         yield NullBytes(self, "reserved[]", 6)
         yield UInt16(self, "nb_channels")
-        yield UInt32(self, "width")
         yield UInt32(self, "height")
+        yield UInt32(self, "width")
         yield UInt16(self, "depth")
         yield Enum(UInt16(self, "color_mode"), self.COLOR_MODE)
 
-- 
2.43.0


From 725e6467da7d196dfb5baa8f1990145b44b186a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:28 +0000
Subject: [PATCH 091/160] fix: TGA: size of the palette, pixels of uncompressed
 pictures

---
 hachoir/parser/image/tga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/image/tga.py b/hachoir/parser/image/tga.py
index fc9570f..a26d992 100644
--- a/hachoir/parser/image/tga.py
+++ b/hachoir/parser/image/tga.py
@@ -96,9 +96,9 @@ class TargaFile(Parser):
             yield RawBytes(self, "image_id", self["id_length"].value)
 
         if self["palette_type"].value == 1:
-            yield PaletteRGB(self, "palette", 1 << self["bpp"].value)
+            yield PaletteRGB(self, "palette", self["nb_color"].value)
 
-        if self["codec"] in (1, 2, 3):
+        if self["codec"].value in (1, 2, 3):
             yield Pixels(self, "pixels")
         else:
             size = (self.size - self.current_size) // 8
-- 
2.43.0


From 6be87383689ed11355fa8a858b55ba4c8338d71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:28 +0000
Subject: [PATCH 092/160] fix: JPEG: content size without the end marker

---
 hachoir/parser/image/jpeg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/image/jpeg.py b/hachoir/parser/image/jpeg.py
index 419d6f4..e05e306 100644
--- a/hachoir/parser/image/jpeg.py
+++ b/hachoir/parser/image/jpeg.py
@@ -635,8 +635,9 @@ class JpegFile(Parser):
         return desc
 
     def createContentSize(self):
-        if "end" in self:
-            return self["end"].absolute_address + self["end"].size
+        if "end_image" in self:
+            end = self["end_image"]
+            return end.absolute_address + end.size
         if "data" in self:
             start = self["data"].absolute_address
         elif "image_data[0]" in self:
-- 
2.43.0


From 797d3a9f171ce9d3354de9a42858aecc9a3e53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:28 +0000
Subject: [PATCH 093/160] fix: PNG: bKGD of palette and gray pictures

---
 hachoir/parser/image/png.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/image/png.py b/hachoir/parser/image/png.py
index 2dccb14..46da35b 100644
--- a/hachoir/parser/image/png.py
+++ b/hachoir/parser/image/png.py
@@ -140,12 +140,21 @@ def physicalDescription(parent):
 
 
 def parseBackgroundColor(parent):
-    yield UInt16(parent, "red")
-    yield UInt16(parent, "green")
-    yield UInt16(parent, "blue")
+    size = parent["size"].value
+    if size == 1:
+        yield UInt8(parent, "index", "Palette index")
+    elif size == 2:
+        yield UInt16(parent, "gray", "Gray level")
+    else:
+        yield UInt16(parent, "red")
+        yield UInt16(parent, "green")
+        yield UInt16(parent, "blue")
 
 
 def backgroundColorDesc(parent):
+    for name in ("index", "gray"):
+        if name in parent:
+            return "Background color: %s %u" % (name, parent[name].value)
     rgb = parent["red"].value, parent["green"].value, parent["blue"].value
     name = RGB.color_name.get(rgb)
     if not name:
-- 
2.43.0


From 0a0afe3939b053b16248f1369ecab32800149b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:28 +0000
Subject: [PATCH 094/160] fix: XCF: boolean of a GIMP picture

---
 hachoir/parser/image/xcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/xcf.py b/hachoir/parser/image/xcf.py
index 26a6f5d..dd306b2 100644
--- a/hachoir/parser/image/xcf.py
+++ b/hachoir/parser/image/xcf.py
@@ -122,7 +122,7 @@ class LayerMode(FieldSet):
 
 class GimpBoolean(UInt32):
 
-    def __init__(self, parent, name):
+    def __init__(self, parent, name, size=32):
         UInt32.__init__(self, parent, name)
 
     def createValue(self):
-- 
2.43.0


From 950f3b870370e69e65520ac253c671ebdff9829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:28 +0000
Subject: [PATCH 095/160] fix: GIF metadata: transparency

---
 hachoir/metadata/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 17654b0..ae6e13b 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -261,8 +261,8 @@ class GifMetadata(RootMetadata):
         for comments in gif.array("comments"):
             for comment in gif.array(comments.name + "/comment"):
                 self.comment = comment.value
-        if ("graphic_ctl/has_transp" in gif
-                and gif["graphic_ctl/has_transp"].value):
+        if ("graphic_ctl[0]/has_transp" in gif
+                and gif["graphic_ctl[0]/has_transp"].value):
             self.pixel_format = "Color index with transparency"
         else:
             self.pixel_format = "Color index"
-- 
2.43.0


From 1b28e511bee6d7c43be99be5d90613e0b0928b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:40 +0000
Subject: [PATCH 096/160] fix: ZIP: entries followed by a data descriptor were
 not found

---
 hachoir/parser/archive/zip.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 9ac56e7..3052774 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -276,22 +276,27 @@ class FileEntry(FieldSet):
 
     def resync(self):
         # Non-seekable output, search the next data descriptor
-        size = self.stream.searchBytesLength(ZipDataDescriptor.HEADER_STRING, False,
-                                             self.absolute_address + self.current_size)
-        if size <= 0:
+        start = self.absolute_address + self.current_size
+        size = self.stream.searchBytesLength(
+            ZipDataDescriptor.HEADER_STRING, False, start)
+        while size is not None:
+            # The signature may also be found in the data: the descriptor
+            # contains the size of the data
+            address = start + size * 8
+            if self.stream.readBits(address + 64, 32, self.endian) == size:
+                break
+            length = self.stream.searchBytesLength(
+                ZipDataDescriptor.HEADER_STRING, False, address + 8)
+            size = None if length is None else size + 1 + length
+        if size is None:
             raise ParserError("Couldn't resync to %s" %
                               ZipDataDescriptor.HEADER_STRING)
-        yield self.data(size)
+        if size:
+            yield self.data(size)
         yield textHandler(UInt32(self, "header[]", "Header"), hexadecimal)
         data_desc = ZipDataDescriptor(self, "data_desc", "Data descriptor")
         # self.info("Resynced!")
         yield data_desc
-        # The above could be checked anytime, but we prefer trying parsing
-        # than aborting
-        if self["crc32"].value == 0 and \
-                data_desc["file_compressed_size"].value != size:
-            raise ParserError("Bad resync: position=>%i but data_desc=>%i" %
-                              (size, data_desc["file_compressed_size"].value))
 
     def createFields(self):
         yield from ZipStartCommonFields(self)
@@ -308,8 +313,9 @@ class FileEntry(FieldSet):
         size = self["compressed_size"].value
         if size > 0:
             yield self.data(size)
-        elif self["flags/incomplete"].value:
+        elif self["flags/has_descriptor"].value or self["flags/incomplete"].value:
             yield from self.resync()
+            return
         if self["flags/has_descriptor"].value and self['crc32'].value == 0:
             yield ZipDataDescriptor(self, "data_desc", "Data descriptor")
 
-- 
2.43.0


From 21d1e5813b42dd3f1c5e1404813f37ef555e5fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:40 +0000
Subject: [PATCH 097/160] fix: RPM: padding of the signature, order of the
 items

---
 hachoir/parser/archive/rpm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/rpm.py b/hachoir/parser/archive/rpm.py
index 5f0d39c..217eba0 100644
--- a/hachoir/parser/archive/rpm.py
+++ b/hachoir/parser/archive/rpm.py
@@ -10,6 +10,7 @@ from hachoir.field import (FieldSet, ParserError,
                            NullBytes, Bytes, RawBytes, SubFile,
                            Character, CString, String)
 from hachoir.core.endian import BIG_ENDIAN
+from hachoir.core.tools import paddingSize
 from hachoir.parser.archive.gzip_parser import GzipParser
 from hachoir.parser.archive.bzip2_parser import Bzip2Parser
 
@@ -185,7 +186,8 @@ class PropertySet(FieldSet):
 
     def __init__(self, parent, name, *args):
         FieldSet.__init__(self, parent, name, *args)
-        self._size = self["content_item[1]"].address + self["size"].value * 8
+        # header (16 bytes), item headers (16 bytes each), data
+        self._size = (16 + 16 * self["count"].value + self["size"].value) * 8
 
     def createFields(self):
         # Read chunk header
@@ -257,6 +259,9 @@ class RpmFile(Parser):
         yield UInt16(self, "signature_type", "Type of signature")
         yield NullBytes(self, "reserved", 16, "Reserved")
         yield PropertySet(self, "checksum", "Checksum (signature)")
+        padding = paddingSize(self.current_size // 8, 8)
+        if padding:
+            yield NullBytes(self, "padding", padding, "Padding (8 bytes align)")
         yield PropertySet(self, "header", "Header")
 
         if self._size is None:  # TODO: is it possible to handle piped input?
-- 
2.43.0


From 1babbec9b61a045efb78275025a51bb638dc83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:40 +0000
Subject: [PATCH 098/160] fix: CAB: folder data of stored and MSZIP folders,
 files of a folder

---
 hachoir/parser/archive/cab.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 0d4c0d5..e06913f 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -116,14 +116,19 @@ class DataBlock(FieldSet):
         compr_method = self.parent.folder["compr_method"].value
         if compr_method == 0:  # Uncompressed
             yield RawBytes(self, "data", self["size"].value, "Folder Data")
-            self.parent.uncompressed_data += self["data"].value
+            self.parent.uncompressed_data += self.stream.readBytes(
+                self["data"].absolute_address, self["size"].value)
         elif compr_method == 1:  # MSZIP
             yield String(self, "mszip_signature", 2, "MSZIP Signature (CK)")
-            yield DeflateBlock(self, "deflate_block", self.parent.uncompressed_data)
+            while True:
+                block = DeflateBlock(self, "deflate_block[]", self.parent.uncompressed_data)
+                yield block
+                self.parent.uncompressed_data = block.uncomp_data
+                if block["final"].value:
+                    break
             padding = paddingSize(self.current_size, 8)
             if padding:
                 yield PaddingBits(self, "padding[]", padding)
-            self.parent.uncompressed_data = self["deflate_block"].uncomp_data
         elif compr_method == 2:  # Quantum
             yield RawBytes(self, "compr_data", self["size"].value, "Compressed Folder Data")
         elif compr_method == 3:  # LZX
@@ -163,13 +168,13 @@ class FolderData(FieldSet):
             if folder["compr_method"].value == 3:  # LZX
                 self.uncompressed_data = lzx_decompress(
                     self["block[0]/data"].getSubIStream(), folder["compr_level"].value)
-            return StringInputStream(self.uncompressed_data, source=source, **args)
+            return StringInputStream(bytes(self.uncompressed_data), source=source, **args)
         self.setSubIStream(createInputStream)
         self.files = files
         self.folder = folder  # Folder fieldset
 
     def createFields(self):
-        self.uncompressed_data = ""
+        self.uncompressed_data = b""
         for index in range(self.folder["data_blocks"].value):
             block = DataBlock(self, "block[]")
             for i in block:
@@ -246,16 +251,14 @@ class CabFile(Parser):
             padding = self.seekByte(folder["offset"].value)
             if padding:
                 yield padding
-            files = []
-            for file in files:
-                if file["folder_index"].value == index:
-                    files.append(file)
+            folder_files = [file for file in files
+                            if file["folder_index"].value == index]
             if i + 1 == len(folders):
                 size = (self.size // 8) - folder["offset"].value
             else:
                 size = (folders[i + 1][1]["offset"].value) - \
                     folder["offset"].value
-            yield FolderData(self, "folder_data[%i]" % index, folder, files, size=size * 8)
+            yield FolderData(self, "folder_data[%i]" % index, folder, folder_files, size=size * 8)
 
         end = self.seekBit(self.size, "endraw")
         if end:
-- 
2.43.0


From 15d50fdaf5aff30f8b4476ac27c45c196fc1ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:40 +0000
Subject: [PATCH 099/160] fix: bzip2: uncompressed data

---
 hachoir/parser/archive/bzip2_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/archive/bzip2_parser.py b/hachoir/parser/archive/bzip2_parser.py
index 976839f..6c8ba68 100644
--- a/hachoir/parser/archive/bzip2_parser.py
+++ b/hachoir/parser/archive/bzip2_parser.py
@@ -22,11 +22,11 @@ try:
         def __init__(self, stream):
             self.bzip2 = BZ2Decompressor()
 
-        def __call__(self, size, data=''):
+        def __call__(self, size, data=b''):
             try:
                 return self.bzip2.decompress(data)
             except EOFError:
-                return ''
+                return b''
 
     has_deflate = True
 except ImportError:
-- 
2.43.0


From 83450985a17f0c9025a97564c43a065468373f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:40 +0000
Subject: [PATCH 100/160] fix: zlib: stored blocks are part of the uncompressed
 data

---
 hachoir/parser/archive/zlib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/zlib.py b/hachoir/parser/archive/zlib.py
index 302efbd..6184979 100644
--- a/hachoir/parser/archive/zlib.py
+++ b/hachoir/parser/archive/zlib.py
@@ -156,7 +156,10 @@ class DeflateBlock(FieldSet):
                     "len must be equal to the one's complement of nlen!")
             # null stored blocks produced by some encoders (e.g. PIL)
             if self["len"].value:
-                yield RawBytes(self, "data", self["len"].value, "Uncompressed data")
+                data = RawBytes(self, "data", self["len"].value, "Uncompressed data")
+                yield data
+                self.uncomp_data += self.stream.readBytes(
+                    data.absolute_address, self["len"].value)
             return
         elif self["compression_type"].value == 1:  # Fixed Huffman
             length_tree = {}  # (size, huffman code): value
-- 
2.43.0


From 3c26765db23816f268ef4ff6a96f55f1fb15606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:53 +0000
Subject: [PATCH 101/160] fix: AIFF: comments, codec, padding of the sound data

---
 hachoir/parser/audio/aiff.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/audio/aiff.py b/hachoir/parser/audio/aiff.py
index 117a8eb..f584295 100644
--- a/hachoir/parser/audio/aiff.py
+++ b/hachoir/parser/audio/aiff.py
@@ -9,7 +9,7 @@ from hachoir.parser import Parser
 from hachoir.field import (FieldSet,
                            UInt16, UInt32, Float80, TimestampMac32,
                            RawBytes, NullBytes,
-                           String, Enum, PascalString32)
+                           String, Enum, PascalString8, PascalString16)
 from hachoir.core.endian import BIG_ENDIAN
 from hachoir.core.text_handler import filesizeHandler
 from hachoir.core.tools import alignValue
@@ -29,7 +29,10 @@ class Comment(FieldSet):
 
     def createFields(self):
         yield TimestampMac32(self, "timestamp")
-        yield PascalString32(self, "text")
+        yield UInt16(self, "marker")
+        yield PascalString16(self, "text")
+        if self.current_size % 16:
+            yield NullBytes(self, "padding", 1)
 
 
 def parseText(self):
@@ -51,7 +54,14 @@ def parseCommon(self):
     yield UInt32(self, "nb_sample")
     yield UInt16(self, "sample_size")
     yield Float80(self, "sample_rate")
-    yield Enum(String(self, "codec", 4, strip="\0", charset="ASCII"), CODEC_NAME)
+    # AIFF-C only
+    end = (8 + self["size"].value) * 8
+    if self.current_size < end:
+        yield Enum(String(self, "codec", 4, strip="\0", charset="ASCII"), CODEC_NAME)
+    if self.current_size < end:
+        yield PascalString8(self, "codec_name")
+    if self.current_size < end:
+        yield NullBytes(self, "codec_padding", (end - self.current_size) // 8)
 
 
 def parseVersion(self):
@@ -61,8 +71,9 @@ def parseVersion(self):
 def parseSound(self):
     yield UInt32(self, "offset")
     yield UInt32(self, "block_size")
-    size = (self.size - self.current_size) // 8
-    if size:
+    # The chunk may be followed by a padding byte
+    size = self["size"].value - 8
+    if 0 < size:
         yield RawBytes(self, "data", size)
 
 
-- 
2.43.0


From 4e56f16c15a464b88cbf07252e341e975a09bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:04 +0000
Subject: [PATCH 102/160] fix: FLAC: STREAMINFO may be the only metadata block

---
 hachoir/parser/audio/flac.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/flac.py b/hachoir/parser/audio/flac.py
index 9a43569..e391497 100644
--- a/hachoir/parser/audio/flac.py
+++ b/hachoir/parser/audio/flac.py
@@ -147,13 +147,14 @@ class Frames(FieldSet):
 
 class FlacParser(Parser):
     "Parse FLAC audio files: FLAC is a lossless audio codec"
-    MAGIC = b"fLaC\x00"
+    MAGIC = b"fLaC"
     PARSER_TAGS = {
         "id": "flac",
         "category": "audio",
         "file_ext": ("flac",),
         "mime": ("audio/x-flac",),
-        "magic": ((MAGIC, 0),),
+        # STREAMINFO block, which may be the last block
+        "magic": ((b"fLaC\x00", 0), (b"fLaC\x80", 0)),
         "min_size": 4 * 8,
         "description": "FLAC audio",
     }
@@ -162,6 +163,8 @@ class FlacParser(Parser):
     def validate(self):
         if self.stream.readBytes(0, len(self.MAGIC)) != self.MAGIC:
             return "Invalid magic string"
+        if self.stream.readBits(33, 7, self.endian) != 0:
+            return "The first block is not STREAMINFO"
         return True
 
     def createFields(self):
-- 
2.43.0


From 5cd0e1a7fc211e5a6c4707cc2f3bd3837418148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:04 +0000
Subject: [PATCH 103/160] fix: ID3v1: comment of 30 characters, genre 32

---
 hachoir/parser/audio/id3.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/hachoir/parser/audio/id3.py b/hachoir/parser/audio/id3.py
index e6f1131..012075d 100644
--- a/hachoir/parser/audio/id3.py
+++ b/hachoir/parser/audio/id3.py
@@ -197,18 +197,17 @@ class ID3v1(FieldSet):
             yield String(self, "comment", 31, "Comment", strip=" \0", charset="ISO-8859-1")
 
     def getVersion(self):
-        addr = self.absolute_address + 126 * 8
-        bytes = self.stream.readBytes(addr, 2)
-
-        # last byte (127) is not space?
-        if bytes[1] != 32:
-            # byte 126 is nul?
-            if bytes[0] == 0:
-                return "v1.1"
-            else:
-                return "v1.1b"
-        else:
+        addr = self.absolute_address + 125 * 8
+        bytes = self.stream.readBytes(addr, 3)
+
+        # track number: byte 125 is nul, byte 126 is not nul
+        if bytes[0] == 0 and bytes[1] != 0:
+            return "v1.1b"
+        # no genre: bytes 126 and 127 are spaces
+        elif bytes[1:] == b"  ":
             return "1.0"
+        else:
+            return "v1.1"
 
     def createDescription(self):
         version = self.getVersion()
-- 
2.43.0


From 62843230c2da124969c30f7c5ce0ac8bf044d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 104/160] fix: Ogg: pages without data, packets of a logical
 stream

---
 hachoir/parser/container/ogg.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 87e3722..68a56a7 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -171,14 +171,15 @@ class Packets:
             page = fragment.parent
             continued_packet = page["continued_packet"].value
             for segment_size in page.segment_size:
-                if continued_packet:
+                if continued_packet and size is not None:
                     size += segment_size
                     continued_packet = False
                 else:
                     if size:
                         yield size * 8
                     size = segment_size
-            fragment = fragment.__next__
+                    continued_packet = False
+            fragment = fragment.next
         if size:
             yield size * 8
 
@@ -217,7 +218,11 @@ class Segments(Fragment):
         try:
             while True:
                 index += 1
-                next = parent[index][self.name]
+                page = parent[index]
+                if self.name not in page:
+                    # Page without data
+                    continue
+                next = page[self.name]
                 if next.first is first:
                     return next
         except MissingField:
@@ -259,7 +264,9 @@ class OggPage(FieldSet):
         yield UInt8(self, 'lacing_size')
         if self.lacing_size:
             yield Lacing(self, "lacing", size=self.lacing_size * 8)
-            yield Segments(self, "segments", size=self._size - self._current_size)
+            size = self._size - self._current_size
+            if size:
+                yield Segments(self, "segments", size=size)
 
     def validate(self):
         if self['capture_pattern'].value != "OggS":
@@ -325,7 +332,7 @@ class OggFile(Parser):
         self.streams = {}
         while not self.eof:
             page = OggPage(self, "page[]")
-            if page.lacing_size:
+            if page.lacing_size and sum(page.segment_size):
                 # Don't depend on the order in which the pages are read
                 self.streams.setdefault(page["serial"].value, page)
             yield page
-- 
2.43.0


From 7f4667c4c01c880578f818ec02fcd8349583ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 105/160] fix: Ogg: description, MIME type

---
 hachoir/parser/container/ogg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 68a56a7..cdcf356 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -313,17 +313,17 @@ class OggFile(Parser):
         return True
 
     def createMimeType(self):
-        if "theora_hdr" in self["page[0]/segments"]:
+        if "page[0]/segments/theora_hdr" in self:
             return "video/theora"
-        elif "vorbis_hdr" in self["page[0]/segments"]:
+        elif "page[0]/segments/vorbis_hdr" in self:
             return "audio/vorbis"
         else:
             return "application/ogg"
 
     def createDescription(self):
-        if "theora_hdr" in self["page[0]"]:
+        if "page[0]/segments/theora_hdr" in self:
             return "Ogg/Theora video"
-        elif "vorbis_hdr" in self["page[0]"]:
+        elif "page[0]/segments/vorbis_hdr" in self:
             return "Ogg/Vorbis audio"
         else:
             return "Ogg multimedia container"
-- 
2.43.0


From 0f94a2e968da97432f6c81bf5fbd2e4e086a44a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:28 +0000
Subject: [PATCH 106/160] fix: AVI: duration in the description

---
 hachoir/parser/container/riff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/container/riff.py b/hachoir/parser/container/riff.py
index 6e7956a..3d7bd0d 100644
--- a/hachoir/parser/container/riff.py
+++ b/hachoir/parser/container/riff.py
@@ -445,8 +445,8 @@ class RiffFile(Parser):
                 if microsec:
                     desc += ", %.1f fps" % (1000000.0 / microsec)
                     if "total_frame" in header and header["total_frame"].value:
-                        delta = timedelta(seconds=float(
-                            header["total_frame"].value) * microsec)
+                        delta = timedelta(
+                            microseconds=header["total_frame"].value * microsec)
                         desc += ", " + humanDuration(delta)
             return desc
         else:
-- 
2.43.0


From 0aa12e332dc39c0f57dde77e7576c8934138c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:57 +0000
Subject: [PATCH 107/160] fix: ID3v2.4: frame flags, padding

---
 hachoir/parser/audio/id3.py | 40 +++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/hachoir/parser/audio/id3.py b/hachoir/parser/audio/id3.py
index 012075d..c258a7d 100644
--- a/hachoir/parser/audio/id3.py
+++ b/hachoir/parser/audio/id3.py
@@ -430,15 +430,31 @@ class ID3_Chunk(FieldSet):
             else:
                 yield UInt32(self, "size")   # ID3 v2.3
 
-            yield Bit(self, "tag_alter", "Tag alter preservation")
-            yield Bit(self, "file_alter", "Tag alter preservation")
-            yield Bit(self, "rd_only", "Read only?")
-            yield NullBits(self, "padding[]", 5)
-
-            yield Bit(self, "compressed", "Frame is compressed?")
-            yield Bit(self, "encrypted", "Frame is encrypted?")
-            yield Bit(self, "group", "Grouping identity")
-            yield NullBits(self, "padding[]", 5)
+            if 4 <= self["../ver_major"].value:
+                # ID3 v2.4
+                yield NullBits(self, "padding[]", 1)
+                yield Bit(self, "tag_alter", "Tag alter preservation")
+                yield Bit(self, "file_alter", "Tag alter preservation")
+                yield Bit(self, "rd_only", "Read only?")
+                yield NullBits(self, "padding[]", 5)
+
+                yield Bit(self, "group", "Grouping identity")
+                yield NullBits(self, "padding[]", 2)
+                yield Bit(self, "compressed", "Frame is compressed?")
+                yield Bit(self, "encrypted", "Frame is encrypted?")
+                yield Bit(self, "unsync", "Unsynchronisation is used?")
+                yield Bit(self, "data_length", "Data length indicator is present?")
+            else:
+                # ID3 v2.3
+                yield Bit(self, "tag_alter", "Tag alter preservation")
+                yield Bit(self, "file_alter", "Tag alter preservation")
+                yield Bit(self, "rd_only", "Read only?")
+                yield NullBits(self, "padding[]", 5)
+
+                yield Bit(self, "compressed", "Frame is compressed?")
+                yield Bit(self, "encrypted", "Frame is encrypted?")
+                yield Bit(self, "group", "Grouping identity")
+                yield NullBits(self, "padding[]", 5)
             size = self["size"].value
             is_compressed = self["compressed"].value
         else:
@@ -518,7 +534,11 @@ class ID3v2(FieldSet):
         yield ID3_Size(self, "size")
 
         # All tags
-        while self.current_size < self._size:
+        if 3 <= self["ver_major"].value:
+            header_size = 10 * 8
+        else:
+            header_size = 6 * 8
+        while header_size <= self._size - self.current_size:
             field = ID3_Chunk(self, "field[]")
             yield field
             if field["size"].value == 0:
-- 
2.43.0


From 2ec04a3b0cdc80eb1618b7409c9cc5f1a6e56adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:57 +0000
Subject: [PATCH 108/160] fix: Matroska metadata: default time scale

---
 hachoir/metadata/video.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index 41fd002..a83f324 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -125,17 +125,20 @@ class MkvMetadata(MultipleMetadata):
         setattr(self, key, value)
 
     def processInfo(self, info):
-        if "TimecodeScale/unsigned" in info:
-            duration = self.getDouble(info, "Duration")
-            if duration is not None:
-                try:
-                    seconds = duration * \
-                        info["TimecodeScale/unsigned"].value * 1e-9
-                    self.duration = timedelta(seconds=seconds)
-                except OverflowError:
-                    # Catch OverflowError for timedelta (long int too large
-                    # to be converted to an int)
-                    pass
+        duration = self.getDouble(info, "Duration")
+        if duration is not None:
+            if "TimecodeScale/unsigned" in info:
+                scale = info["TimecodeScale/unsigned"].value
+            else:
+                # Default value: 1 ms
+                scale = 1000000
+            try:
+                seconds = duration * scale * 1e-9
+                self.duration = timedelta(seconds=seconds)
+            except OverflowError:
+                # Catch OverflowError for timedelta (long int too large
+                # to be converted to an int)
+                pass
         if "DateUTC/date" in info:
             try:
                 self.creation_date = dateToDatetime(info["DateUTC/date"].value)
-- 
2.43.0


From 48f666733b55c6db1144f2cf7f65988bd32baf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:42 +0000
Subject: [PATCH 109/160] fix: ASF: WORD descriptors

---
 hachoir/parser/video/asf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/parser/video/asf.py b/hachoir/parser/video/asf.py
index fc41624..7bcb69c 100644
--- a/hachoir/parser/video/asf.py
+++ b/hachoir/parser/video/asf.py
@@ -163,6 +163,8 @@ class Descriptor(FieldSet):
             yield UInt32(self, name)
         elif type == 4:
             yield UInt64(self, name)
+        elif type == 5 and size == 2:
+            yield UInt16(self, name)
         else:
             yield RawBytes(self, name, size)
 
-- 
2.43.0


From 845561ebafda961716609ba2500d0af0bedb322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:42 +0000
Subject: [PATCH 110/160] fix: ASF metadata: title without author, track
 number, VBR, bit rate of a stream

---
 hachoir/metadata/video.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index a83f324..885e32d 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -262,7 +262,7 @@ class AsfMetadata(MultipleMetadata):
         "ToolName": "producer",
         "AlbumTitle": "album",
         "Track": "track_number",
-        "TrackNumber": "track_total",
+        "TrackNumber": "track_number",
         "Year": "creation_date",
         "AlbumArtist": "author",
     }
@@ -296,7 +296,7 @@ class AsfMetadata(MultipleMetadata):
 
             # "IsVBR" key
             if "IsVBR" in data:
-                is_vbr = (data["IsVBR"] == 1)
+                is_vbr = (data["IsVBR"] != "0")
                 del data["IsVBR"]
 
             # Store data
@@ -323,17 +323,17 @@ class AsfMetadata(MultipleMetadata):
 
         audio_index = 1
         video_index = 1
-        for index, stream_prop in enumerate(header.array("stream_prop")):
+        for stream_prop in header.array("stream_prop"):
             if "content/audio_header" in stream_prop:
                 meta = Metadata(self)
-                self.streamProperty(header, index, meta)
+                self.streamProperty(header, stream_prop, meta)
                 self.streamAudioHeader(
                     stream_prop["content/audio_header"], meta)
                 if self.addGroup("audio[%u]" % audio_index, meta, "Audio stream #%u" % audio_index):
                     audio_index += 1
             elif "content/video_header" in stream_prop:
                 meta = Metadata(self)
-                self.streamProperty(header, index, meta)
+                self.streamProperty(header, stream_prop, meta)
                 self.streamVideoHeader(
                     stream_prop["content/video_header"], meta)
                 if self.addGroup("video[%u]" % video_index, meta, "Video stream #%u" % video_index):
@@ -341,12 +341,9 @@ class AsfMetadata(MultipleMetadata):
 
         if "metadata/content" in header:
             info = header["metadata/content"]
-            try:
-                self.title = info["title"].value
-                self.author = info["author"].value
-                self.copyright = info["copyright"].value
-            except MissingField:
-                pass
+            for key in ("title", "author", "copyright"):
+                if key in info:
+                    setattr(self, key, info[key].value)
 
     @fault_tolerant
     def streamAudioHeader(self, audio, meta):
@@ -379,7 +376,7 @@ class AsfMetadata(MultipleMetadata):
             # Skip some keys
             return
         value = desc["value"].value
-        if not value:
+        if not value and key != "IsVBR":
             return
         value = makeUnicode(value)
         data[key] = value
@@ -400,10 +397,14 @@ class AsfMetadata(MultipleMetadata):
             text = "%s (max)" % text
         self.bit_rate = (value, text)
 
-    def streamProperty(self, header, index, meta):
-        key = "bit_rates/content/bit_rate[%u]/avg_bitrate" % index
-        if key in header:
-            meta.bit_rate = header[key].value
+    def streamProperty(self, header, stream_prop, meta):
+        if "bit_rates/content" not in header:
+            return
+        index = stream_prop["content/stream_index"].value
+        for item in header.array("bit_rates/content/bit_rate"):
+            if item["stream_index"].value == index:
+                meta.bit_rate = item["avg_bitrate"].value
+                break
 
         # TODO: Use codec list
         # It doesn't work when the video uses /header/content/bitrate_mutex
-- 
2.43.0


From 19d8995dd040193a243cc4b52f71b70b57d57a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:31 +0000
Subject: [PATCH 111/160] fix: RealMedia: chunks of unknown type

---
 hachoir/parser/container/realmedia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/realmedia.py b/hachoir/parser/container/realmedia.py
index f27b06a..fad2f70 100644
--- a/hachoir/parser/container/realmedia.py
+++ b/hachoir/parser/container/realmedia.py
@@ -170,7 +170,7 @@ class RealMediaFile(Parser):
 
     def createFields(self):
         while not self.eof:
-            yield Chunk(self, "chunk")
+            yield Chunk(self, "chunk[]")
 
     def createMimeType(self):
         for prop in self.array("stream_prop"):
-- 
2.43.0


From 8659a68152e71ec03a811fae73a520d13ed91271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:13 +0000
Subject: [PATCH 112/160] fix: MPEG-TS: clock references, empty adaptation
 field

---
 hachoir/parser/video/mpeg_ts.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/video/mpeg_ts.py b/hachoir/parser/video/mpeg_ts.py
index dbed30d..a529a2b 100644
--- a/hachoir/parser/video/mpeg_ts.py
+++ b/hachoir/parser/video/mpeg_ts.py
@@ -11,7 +11,7 @@ Creation date: 13 january 2007
 
 from hachoir.parser import Parser
 from hachoir.field import (FieldSet, ParserError, MissingField,
-                           UInt8, Enum, Bit, Bits, RawBytes, RawBits)
+                           UInt8, Enum, Bit, Bits, PaddingBits, RawBytes, RawBits)
 from hachoir.core.endian import BIG_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.stream import InputStreamError
@@ -21,6 +21,9 @@ class AdaptationField(FieldSet):
 
     def createFields(self):
         yield UInt8(self, "length")
+        if not self["length"].value:
+            # One byte of stuffing, without flags
+            return
 
         yield Bit(self, "discontinuity_indicator")
         yield Bit(self, "random_access_indicator")
@@ -33,17 +36,19 @@ class AdaptationField(FieldSet):
 
         if self['has_pcr'].value:
             yield Bits(self, "pcr_base", 33)
+            yield PaddingBits(self, "reserved[]", 6, pattern=1)
             yield Bits(self, "pcr_ext", 9)
 
         if self['has_opcr'].value:
             yield Bits(self, "opcr_base", 33)
+            yield PaddingBits(self, "reserved[]", 6, pattern=1)
             yield Bits(self, "opcr_ext", 9)
 
         if self['has_splice_point'].value:
             yield Bits(self, "splice_countdown", 8)
 
         stuff_len = ((self['length'].value + 1) * 8) - self.current_size
-        if self['length'].value and stuff_len:
+        if stuff_len:
             yield RawBits(self, 'stuffing', stuff_len)
 
 
-- 
2.43.0


From 2e31a3c74560d6455a6b6a2f3d29f93308703231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:39 +0000
Subject: [PATCH 113/160] fix: MP4: signed fixed point numbers and composition
 offsets, tfra numbers, size of a sample entry

---
 hachoir/parser/container/mp4.py | 65 +++++++++++++++------------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 8efd2d1..43e57e7 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -131,7 +131,7 @@ def timestampMac64(value):
 TimestampMac64 = timestampFactory("TimestampMac64", timestampMac64, 64)
 
 
-def fixedFloatFactory(name, int_bits, float_bits, doc):
+def fixedFloatFactory(name, int_bits, float_bits, doc, signed=True):
     size = int_bits + float_bits
 
     class Float(FieldSet):
@@ -143,7 +143,10 @@ def fixedFloatFactory(name, int_bits, float_bits, doc):
             yield Bits(self, "float_part", float_bits)
 
         def createValue(self):
-            return self["int_part"].value + float(self["float_part"].value) / (1 << float_bits)
+            int_part = self["int_part"].value
+            if signed and int_part >> (int_bits - 1):
+                int_part -= 1 << int_bits
+            return int_part + float(self["float_part"].value) / (1 << float_bits)
     klass = Float
     klass.__name__ = name
     return klass
@@ -151,6 +154,8 @@ def fixedFloatFactory(name, int_bits, float_bits, doc):
 
 QTFloat16 = fixedFloatFactory("QTFloat32", 8, 8, "8.8 fixed point number")
 QTFloat32 = fixedFloatFactory("QTFloat32", 16, 16, "16.16 fixed point number")
+QTUFloat32 = fixedFloatFactory(
+    "QTUFloat32", 16, 16, "16.16 unsigned fixed point number", signed=False)
 QTFloat2_30 = fixedFloatFactory(
     "QTFloat2_30", 2, 30, "2.30 fixed point number")
 
@@ -201,8 +206,8 @@ class TrackHeader(FieldSet):
         yield QTFloat32(self, "geom_x", "Position X")
         yield QTFloat32(self, "geom_y", "Position Y")
         yield QTFloat2_30(self, "geom_w", "Divider scale")
-        yield QTFloat32(self, "frame_size_width")
-        yield QTFloat32(self, "frame_size_height")
+        yield QTUFloat32(self, "frame_size_width")
+        yield QTUFloat32(self, "frame_size_height")
 
 
 class TrackReferenceType(FieldSet):
@@ -588,7 +593,10 @@ class TrackRunSample(FieldSet):
         if flags & 0x400:
             yield UInt32(self, "sample_flags")
         if flags & 0x800:
-            yield UInt32(self, "sample_composition_time_offset")
+            if self["../version"].value == 0:
+                yield UInt32(self, "sample_composition_time_offset")
+            else:
+                yield Int32(self, "sample_composition_time_offset")
 
 
 class TrackRunBox(FieldSet):
@@ -618,6 +626,8 @@ class TrackFragmentRandomAccess(FieldSet):
         yield Bits(self, "length_size_of_trun_num", 2)
         yield Bits(self, "length_size_of_sample_num", 2)
         yield UInt32(self, "number_of_entry")
+        # Sizes are stored minus one byte
+        NUMBER = (UInt8, UInt16, UInt24, UInt32)
         for i in range(self['number_of_entry'].value):
             if self['version'].value == 1:
                 yield UInt64(self, "time[%i]" % i)
@@ -626,32 +636,9 @@ class TrackFragmentRandomAccess(FieldSet):
                 yield UInt32(self, "time[%i]" % i)
                 yield UInt32(self, "moof_offset[%i]" % i)
 
-            if self['length_size_of_traf_num'].value == 3:
-                yield UInt64(self, "traf_number[%i]" % i)
-            elif self['length_size_of_traf_num'].value == 2:
-                yield UInt32(self, "traf_number[%i]" % i)
-            elif self['length_size_of_traf_num'].value == 1:
-                yield UInt16(self, "traf_number[%i]" % i)
-            else:
-                yield UInt8(self, "traf_number[%i]" % i)
-
-            if self['length_size_of_trun_num'].value == 3:
-                yield UInt64(self, "trun_number[%i]" % i)
-            elif self['length_size_of_trun_num'].value == 2:
-                yield UInt32(self, "trun_number[%i]" % i)
-            elif self['length_size_of_trun_num'].value == 1:
-                yield UInt16(self, "trun_number[%i]" % i)
-            else:
-                yield UInt8(self, "trun_number[%i]" % i)
-
-            if self['length_size_of_sample_num'].value == 3:
-                yield UInt64(self, "sample_number[%i]" % i)
-            elif self['length_size_of_sample_num'].value == 2:
-                yield UInt32(self, "sample_number[%i]" % i)
-            elif self['length_size_of_sample_num'].value == 1:
-                yield UInt16(self, "sample_number[%i]" % i)
-            else:
-                yield UInt8(self, "sample_number[%i]" % i)
+            yield NUMBER[self['length_size_of_traf_num'].value](self, "traf_number[%i]" % i)
+            yield NUMBER[self['length_size_of_trun_num'].value](self, "trun_number[%i]" % i)
+            yield NUMBER[self['length_size_of_sample_num'].value](self, "sample_number[%i]" % i)
 
 
 # ISO/IEC 14496-12:2012 8.8.11
@@ -765,9 +752,13 @@ class SampleCompositionTimeTable(FieldSet):
         yield UInt8(self, "version")
         yield NullBits(self, "flags", 24)
         yield UInt32(self, "count", description="Total entries in sample time table")
+        if self["version"].value == 0:
+            Int = UInt32
+        else:
+            Int = Int32
         for i in range(self['count'].value):
             yield UInt32(self, "sample_count[]", "Number of consecutive samples with this offset")
-            yield UInt32(self, "sample_offset[]", "Difference between decode time and composition time of this sample, in time-units")
+            yield Int(self, "sample_offset[]", "Difference between decode time and composition time of this sample, in time-units")
 
 
 class ChunkOffsetTable(FieldSet):
@@ -877,8 +868,8 @@ def VisualSampleEntry(self):
     yield UInt32(self, "spatial_quality")
     yield UInt16(self, "width", "Width (pixels)")
     yield UInt16(self, "height", "Height (pixels)")
-    yield QTFloat32(self, "horizontal_resolution", "Horizontal resolution in DPI")
-    yield QTFloat32(self, "vertical resolution", "Vertical resolution in DPI")
+    yield QTUFloat32(self, "horizontal_resolution", "Horizontal resolution in DPI")
+    yield QTUFloat32(self, "vertical resolution", "Vertical resolution in DPI")
     yield UInt32(self, "data_size")
     yield UInt16(self, "frame_count")
     yield UInt8(self, "compressor_name_length")
@@ -893,11 +884,15 @@ def AudioSampleEntry(self):
     yield UInt16(self, "samplesize", "Sample size in bits")
     yield UInt16(self, "unknown")
     yield NullBytes(self, "reserved[]", 2)
-    yield QTFloat32(self, "samplerate", "Sample rate in Hz")
+    yield QTUFloat32(self, "samplerate", "Sample rate in Hz")
 
 
 class SampleEntry(FieldSet):
 
+    def __init__(self, *args, **kw):
+        FieldSet.__init__(self, *args, **kw)
+        self._size = max(self["size"].value, 16) * 8
+
     def createFields(self):
         yield UInt32(self, "size")
         yield RawBytes(self, "format", 4, "Data Format (codec)")
-- 
2.43.0


From 0caed38b96183d8a67a52f2b568ee9ddf1402d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:05 +0000
Subject: [PATCH 114/160] fix: sizes computed with a true division (iTunesDB,
 BLP, Mapsforge, TTF)

---
 hachoir/parser/audio/itunesdb.py     |  2 +-
 hachoir/parser/game/blp.py           | 10 +++++-----
 hachoir/parser/misc/mapsforge_map.py |  2 +-
 hachoir/parser/misc/ttf.py           |  4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/hachoir/parser/audio/itunesdb.py b/hachoir/parser/audio/itunesdb.py
index 095679d..3ec495e 100644
--- a/hachoir/parser/audio/itunesdb.py
+++ b/hachoir/parser/audio/itunesdb.py
@@ -519,7 +519,7 @@ class ITunesDBFile(Parser):
         yield Int32(self, "timezone_offset[]", "Timezone offset in seconds")
         yield UInt16(self, "unknown[]")
         yield RawBytes(self, "iphone_hash[]", 45)
-        size = self["header_length"].value - self.current_size / 8
+        size = self["header_length"].value - self.current_size // 8
         if size > 0:
             yield NullBytes(self, "padding", size)
         for i in range(self["child_number"].value):
diff --git a/hachoir/parser/game/blp.py b/hachoir/parser/game/blp.py
index b948214..8c90f09 100644
--- a/hachoir/parser/game/blp.py
+++ b/hachoir/parser/game/blp.py
@@ -101,8 +101,8 @@ class BLP1File(Parser):
                 yield Generic2DArray(self, "mipmap_indexes[%i]" % i, width, height, PaletteIndex, "row", "index", "Indexes into the palette")
                 if image_type in (3, 4):
                     yield Generic2DArray(self, "mipmap_alphas[%i]" % i, width, height, UInt8, "row", "alpha", "Alpha values")
-            width /= 2
-            height /= 2
+            width = max(width // 2, 1)
+            height = max(height // 2, 1)
 
 
 def interp_avg(data_low, data_high, n):
@@ -113,7 +113,7 @@ def interp_avg(data_low, data_high, n):
     """
     if isinstance(data_low, int):
         for i in range(1, n):
-            yield (data_low * (n - i) + data_high * i) / n
+            yield (data_low * (n - i) + data_high * i) // n
     else:  # iterable
         pairs = list(zip(data_low, data_high))
         pair_iters = [interp_avg(x, y, n) for x, y in pairs]
@@ -285,5 +285,5 @@ class BLP2File(Parser):
                     yield Generic2DArray(self, "mipmap[%i]" % i, block_height, block_width, DXT3, "row", "block", "DXT3-compressed image blocks")
                 elif alpha_depth == 8 and alpha_encoding == 7:
                     yield Generic2DArray(self, "mipmap[%i]" % i, block_height, block_width, DXT5, "row", "block", "DXT5-compressed image blocks")
-            width /= 2
-            height /= 2
+            width = max(width // 2, 1)
+            height = max(height // 2, 1)
diff --git a/hachoir/parser/misc/mapsforge_map.py b/hachoir/parser/misc/mapsforge_map.py
index a393942..22b3ccf 100644
--- a/hachoir/parser/misc/mapsforge_map.py
+++ b/hachoir/parser/misc/mapsforge_map.py
@@ -329,7 +329,7 @@ class ZoomSubFile(SeekableFieldSet):
                 firstOffset = self["tile_index_entry[0]"]["offset"].value
                 if self["/have_debug"].value:
                     firstOffset -= 16
-                numTiles = firstOffset / 5
+                numTiles = firstOffset // 5
             if i >= numTiles:
                 break
 
diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index ca5e7c4..bce6709 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -356,8 +356,8 @@ class CmapTable4(FieldSet):
         yield GenericVector(self, "startCode", segments, UInt16)
         yield GenericVector(self, "idDelta", segments, Int16)
         yield GenericVector(self, "idRangeOffsets", segments, UInt16)
-        remainder = (self["length"].value - (self.current_size / 8)) / 2
-        if remainder:
+        remainder = (self["length"].value - (self.current_size // 8)) // 2
+        if remainder > 0:
             yield GenericVector(self, "glyphIdArray", remainder, UInt16)
 
 
-- 
2.43.0


From df2172eba8d98eae8c0d828773a6f6c8551dfadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:24 +0000
Subject: [PATCH 115/160] fix: XM: names of volumes and effects, description of
 notes

---
 hachoir/parser/audio/xm.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/hachoir/parser/audio/xm.py b/hachoir/parser/audio/xm.py
index 84c999d..cefe518 100644
--- a/hachoir/parser/audio/xm.py
+++ b/hachoir/parser/audio/xm.py
@@ -66,7 +66,7 @@ class SampleHeader(FieldSet):
                        * pow(PITCH_BASE, self["fine_tune"].value * 2))
         return "%s, %ubits, %u samples, %uHz" % \
                (self["name"].display, 8 * bytes,
-                self["length"].value / bytes, C5_speed)
+                self["length"].value // bytes, C5_speed)
 
 
 class StuffType(StaticFieldSet):
@@ -177,9 +177,11 @@ VOLUME_NAME = (
 def parseVolume(val):
     val = val.value
     if 0x10 <= val <= 0x50:
-        return "Volume %i" % val - 16
+        return "Volume %i" % (val - 16)
+    elif 0x60 <= val:
+        return VOLUME_NAME[val // 16 - 6]
     else:
-        return VOLUME_NAME[val / 16 - 6]
+        return VOLUME_NAME[-1]
 
 
 class RealBit(RawBits):
@@ -210,15 +212,15 @@ EFFECT_NAME = (
     "Set volume", "Pattern break", None, "Set tempo/BPM",
     "Set global volume", "Global volume slide", "Unused", "Unused",
     "Unused", "Set envelope position", "Unused", "Unused",
-    "Panning slide", "Unused", "Multi retrig note", "Unused",
-    "Tremor", "Unused", "Unused", "Unused", None)
+    "Unused", "Panning slide", "Unused", "Multi retrig note",
+    "Unused", "Tremor", "Unused", "Unused", "Unused", None)
 
 EFFECT_E_NAME = (
     "Unknown", "Fine porta up", "Fine porta down",
     "Set gliss control", "Set vibrato control", "Set finetune",
-    "Set loop begin/loop", "Set tremolo control", "Retrig note",
-    "Fine volume slide up", "Fine volume slide down", "Note cut",
-    "Note delay", "Pattern delay")
+    "Set loop begin/loop", "Set tremolo control", "Unused",
+    "Retrig note", "Fine volume slide up", "Fine volume slide down",
+    "Note cut", "Note delay", "Pattern delay", "Unused")
 
 
 class Effect(RawBits):
@@ -232,11 +234,13 @@ class Effect(RawBits):
         param = self.parent.stream.readBits(
             self.absolute_address + 8, 8, LITTLE_ENDIAN)
         if t == 0x0E:
-            return EFFECT_E_NAME[param >> 4] + " %i" % (param & 0x07)
-        elif t == 0x21:
-            return ("Extra fine porta up", "Extra fine porta down")[param >> 4]
-        else:
+            return EFFECT_E_NAME[param >> 4] + " %i" % (param & 0x0F)
+        elif t == 0x21 and param >> 4 in (1, 2):
+            return ("Extra fine porta up", "Extra fine porta down")[(param >> 4) - 1]
+        elif t < len(EFFECT_NAME) and EFFECT_NAME[t]:
             return EFFECT_NAME[t]
+        else:
+            return "Unknown effect %u" % t
 
 
 class Note(FieldSet):
@@ -296,14 +300,14 @@ class Note(FieldSet):
             if info["has_instrument"].value:
                 desc.append("instrument %i" % self["instrument"].value)
             if info["has_volume"].value:
-                desc.append(self["has_volume"].display)
+                desc.append(self["volume"].display)
             if info["has_type"].value:
                 desc.append("effect %s" % self["effect_type"].value)
             if info["has_parameter"].value:
                 desc.append("parameter %i" % self["effect_parameter"].value)
         else:
             desc = (self["note"].display, "instrument %i" % self["instrument"].value,
-                    self["has_volume"].display, "effect %s" % self[
+                    self["volume"].display, "effect %s" % self[
                         "effect_type"].value,
                     "parameter %i" % self["effect_parameter"].value)
         if desc:
-- 
2.43.0


From 2572c22e26cfe7ade82a92298755a0236667ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:07 +0000
Subject: [PATCH 116/160] fix: hachoir-subfile: don't overwrite existing files

---
 hachoir/subfile/output.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hachoir/subfile/output.py b/hachoir/subfile/output.py
index afdd6fa..cea677f 100644
--- a/hachoir/subfile/output.py
+++ b/hachoir/subfile/output.py
@@ -24,11 +24,14 @@ class Output:
                 raise
 
     def createFilename(self, file_ext=None):
-        filename = "file-%04u" % self.file_id
-        self.file_id += 1
-        if file_ext:
-            filename += file_ext
-        return filename
+        while True:
+            filename = "file-%04u" % self.file_id
+            self.file_id += 1
+            if file_ext:
+                filename += file_ext
+            # Don't overwrite a file (which may be the searched one)
+            if not path.exists(path.join(self.directory, filename)):
+                return filename
 
     def writeFile(self, filename, stream, offset, size):
         # Create directory (only on first call)
-- 
2.43.0


From 26a602bdc3cf70f7e3be24f94812baa108475f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:07 +0000
Subject: [PATCH 117/160] fix: Word document, Mach-O: don't parse the whole
 header to validate it

---
 hachoir/parser/misc/word_doc.py |  3 ++-
 hachoir/parser/program/macho.py | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/misc/word_doc.py b/hachoir/parser/misc/word_doc.py
index eb7efcf..b9f0422 100644
--- a/hachoir/parser/misc/word_doc.py
+++ b/hachoir/parser/misc/word_doc.py
@@ -281,7 +281,8 @@ class WordDocumentParser(OLE2FragmentParser):
     def validate(self):
         if self.stream.readBytes(0, 2) != self.MAGIC:
             return "Invalid magic."
-        if self['FIB/nFib'].value not in (192, 193):
+        # Don't parse the whole File Information Block to get its version
+        if self.stream.readBits(16, 16, self.endian) not in (192, 193):
             return "Unknown FIB version."
         return True
 
diff --git a/hachoir/parser/program/macho.py b/hachoir/parser/program/macho.py
index e9cb1a6..306c797 100644
--- a/hachoir/parser/program/macho.py
+++ b/hachoir/parser/program/macho.py
@@ -514,9 +514,15 @@ class MachoFatFile(HachoirParser, RootSeekableFieldSet):
         HachoirParser.__init__(self, stream, **args)
 
     def validate(self):
-        if self.stream.readBytes(0, 4) not in (self.MAGIC_LE, self.MAGIC_BE):
+        magic = self.stream.readBytes(0, 4)
+        if magic not in (self.MAGIC_LE, self.MAGIC_BE):
             return "Invalid magic"
-        if self['header/nfat_arch'].value >= 16:
+        if magic == self.MAGIC_LE:
+            endian = LITTLE_ENDIAN
+        else:
+            endian = BIG_ENDIAN
+        # Don't parse all architectures to get their number
+        if self.stream.readBits(32, 32, endian) >= 16:
             # This helps to distinguish mach-o from java.
             return "Too many architectures"
         return True
-- 
2.43.0


From 3145689b1c95588648e5d75a33a89d087dbb211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:07 +0000
Subject: [PATCH 118/160] fix: hachoir-subfile: extract a file as large as the
 search range

---
 hachoir/subfile/search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index 013faef..f6b0cbc 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -152,7 +152,7 @@ class SearchSubfile:
             text += ": " + parser.__class__.__name__
 
         if self.output and parser.content_size:
-            if (offset == 0 and parser.content_size == self.size):
+            if (offset == 0 and parser.content_size == self.stream.size):
                 text += " (don't copy whole file)"
             elif parser.content_size // 8 >= FILE_MAX_SIZE:
                 text += " (don't copy file, too big)"
-- 
2.43.0


From 87c0856cebaf7744e1c40fa30aaa5dd3c22c24ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:12 +0000
Subject: [PATCH 119/160] fix: FAT: cluster chains, position of clusters

---
 hachoir/parser/file_system/fat.py | 51 +++++++++++++++++--------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 802fab6..19d0306 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -7,7 +7,7 @@ from hachoir.field.integer import GenericInteger
 from hachoir.core.endian import LITTLE_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.core.error import error
-from hachoir.core.tools import humanFilesize, makePrintable
+from hachoir.core.tools import alignValue, humanFilesize, makePrintable
 import datetime
 import re
 
@@ -182,7 +182,7 @@ class FileEntry(FieldSet):
         ext = self["ext"].value
         if ext:
             name += "." + ext
-        if name[0] == 5:
+        if name[:1] == "\x05":
             name = "\xE5" + name[1:]
         if not self.LFN and self["directory"].value:
             name += "/"
@@ -311,6 +311,10 @@ class InodeGen:
             self.done += field.datasize
         else:
             field = Directory(self.root, name, size=size)
+        # The cluster may not be read yet
+        while not self.root.done and self.root.current_size <= address:
+            if not self.root.readMoreFields(1):
+                break
         padding = self.root.getFieldByAddress(address, feed=False)
         if not isinstance(padding, (PaddingBytes, RawBytes)):
             error("(FAT) address %u doesn't point to a padding field" % address)
@@ -343,20 +347,13 @@ class FAT_FS(Parser):
     def clusters(self, cluster_func):
         max_entry = (1 << min(28, self.version)) - 16
         cluster = cluster_func()
-        if 1 < cluster < max_entry:
-            clus_nb = 1
-            next = cluster
-            while True:
-                next = self.fat[next / 1000][next % 1000].value
-                if not 1 < next < max_entry:
-                    break
-                if cluster + clus_nb == next:
-                    clus_nb += 1
-                else:
-                    yield self.data_start + cluster * self.cluster_size, clus_nb * self.cluster_size, False
-                    cluster = next
-                    clus_nb = 1
-            yield self.data_start + cluster * self.cluster_size, clus_nb * self.cluster_size, True
+        while 1 < cluster < max_entry:
+            # The 4 high bits of a FAT32 entry are reserved
+            next = self.fat[cluster].value & 0x0FFFFFFF
+            last = not 1 < next < max_entry
+            # One field per cluster: a cluster is stored in its own field
+            yield self.data_start + cluster * self.cluster_size, self.cluster_size, last
+            cluster = next
 
     def createFields(self):
         # Read boot seector
@@ -391,16 +388,24 @@ class FAT_FS(Parser):
         # Read inode table (Directory)
         self.cluster_size = boot["cluster_size"].value * self.sector_size * 8
         self.fat = self["fat[0]"]
-        if "root_start" in boot and boot["root_start"].value != 2:
-            self.target_size = 0
-            self.getCluster = lambda: boot["root_start"].value
-            yield InodeLink(self, "root", "root")
-        else:
-            yield Directory(self, "root[]", size=max(boot["max_root"].value * 32 * 8, boot["cluster_size"].value * self.sector_size * 8))
-        self.data_start = self.current_size - 2 * self.cluster_size
+        root_size = 0
+        if "root_start" not in boot:
+            root_size = alignValue(boot["max_root"].value * 32 * 8, self.sector_size * 8)
+        # The first cluster is the cluster number 2
+        self.data_start = self.current_size + root_size - 2 * self.cluster_size
+        if root_size:
+            root = Directory(self, "root[]", size=root_size)
+            root.setLinks(None)
+            yield root
         sectors = boot["sectors1"].value
         if not sectors:
             sectors = boot["sectors2"].value
+        sectors -= self.current_size // 8 // self.sector_size
+        if "root_start" in boot:
+            # The root directory is a chain of clusters
+            self.target_size = 0
+            self.getCluster = lambda: boot["root_start"].value
+            yield InodeLink(self, "root", "root")
 
         for i in range(sectors // boot['cluster_size'].value):
             yield RawBytes(self, "sector[%d]" % (i + 2), self.cluster_size // 8)
-- 
2.43.0


From 69b7c9d3c0ba84c8afb484131805f717aae7df64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:29 +0000
Subject: [PATCH 120/160] fix: MPEG audio: recognize a file whose end was not
 reached yet

---
 hachoir/parser/audio/mpeg_audio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/audio/mpeg_audio.py b/hachoir/parser/audio/mpeg_audio.py
index 645daa0..e271e50 100644
--- a/hachoir/parser/audio/mpeg_audio.py
+++ b/hachoir/parser/audio/mpeg_audio.py
@@ -312,6 +312,9 @@ class MpegAudioFile(Parser):
         if self[0].name in ("id3v2", "id3v1"):
             return True
 
+        if self.stream.size is not None:
+            # The end of a fragmented file may not have been reached yet
+            self.stream.sizeGe(self.stream.size)
         if not self.stream.checked:  # TODO: is it possible to handle piped input?
             return False
 
-- 
2.43.0


From 592c9d0b131d57117974b8a391b356f399cd9111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:42 +0000
Subject: [PATCH 121/160] fix: hachoir-list: process the other files after an
 error

---
 hachoir/listtool.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hachoir/listtool.py b/hachoir/listtool.py
index 7a2f4d9..f149e69 100644
--- a/hachoir/listtool.py
+++ b/hachoir/listtool.py
@@ -81,10 +81,12 @@ def openParser(parser_id, filename, offset, size):
     try:
         stream = FileInputStream(filename,
                                  offset=offset, size=size, tags=tags)
-    except InputStreamError as err:
+    except (InputStreamError, ValueError) as err:
+        # ValueError: the offset is outside the file
         return None, "Unable to open file: %s" % err
     parser = guessParser(stream)
     if not parser:
+        stream.close()
         return None, "Unable to parse file: %s" % filename
     return parser, None
 
@@ -96,6 +98,7 @@ def main():
 
     # Open file and create parser
     showing_multiple_files = len(filenames) > 1
+    ok = True
     i = 0
     for filename in filenames:
 
@@ -109,7 +112,8 @@ def main():
                                  values.offset, values.size)
         if err:
             print(err)
-            sys.exit(1)
+            ok = False
+            continue
 
         # Explore file
         with parser:
@@ -119,6 +123,8 @@ def main():
                 "display_value": values.display_value,
                 "indent_width": values.indent_width,
             })
+    if not ok:
+        sys.exit(1)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 8ff9fe3f6d3af968950e4a8ba93f06c3cc1316e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:42 +0000
Subject: [PATCH 122/160] fix: tools: names and values which can't be written
 on the terminal

---
 hachoir/core/cmd_line.py | 9 +++++++++
 hachoir/listtool.py      | 3 ++-
 hachoir/metadata/main.py | 3 ++-
 hachoir/strip.py         | 3 ++-
 hachoir/subfile/main.py  | 3 ++-
 5 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/hachoir/core/cmd_line.py b/hachoir/core/cmd_line.py
index ea58688..84dc38c 100644
--- a/hachoir/core/cmd_line.py
+++ b/hachoir/core/cmd_line.py
@@ -10,6 +10,15 @@ def displayVersion(*args):
     sys.exit(0)
 
 
+def configureOutput():
+    """
+    Escape the characters which can't be written on the standard output
+    instead of failing.
+    """
+    if hasattr(sys.stdout, "reconfigure"):
+        sys.stdout.reconfigure(errors="backslashreplace")
+
+
 def getHachoirOptions(parser):
     """
     Create an option group (type optparse.OptionGroup) of Hachoir
diff --git a/hachoir/listtool.py b/hachoir/listtool.py
index f149e69..742e517 100644
--- a/hachoir/listtool.py
+++ b/hachoir/listtool.py
@@ -3,7 +3,7 @@
 #
 
 from hachoir.core.cmd_line import getHachoirOptions, configureHachoir
-from hachoir.core.cmd_line import displayVersion
+from hachoir.core.cmd_line import displayVersion, configureOutput
 from hachoir.stream import InputStreamError, FileInputStream
 from hachoir.parser import guessParser, HachoirParserList
 from optparse import OptionGroup, OptionParser
@@ -95,6 +95,7 @@ def main():
     # Parse options and initialize Hachoir
     values, filenames = parseOptions()
     configureHachoir(values)
+    configureOutput()
 
     # Open file and create parser
     showing_multiple_files = len(filenames) > 1
diff --git a/hachoir/metadata/main.py b/hachoir/metadata/main.py
index 4899206..90f6806 100644
--- a/hachoir/metadata/main.py
+++ b/hachoir/metadata/main.py
@@ -3,7 +3,7 @@ from hachoir.core.i18n import getTerminalCharset
 from hachoir.core.benchmark import Benchmark
 from hachoir.stream import InputStreamError
 from hachoir.core.tools import makePrintable
-from hachoir.core.cmd_line import displayVersion
+from hachoir.core.cmd_line import displayVersion, configureOutput
 from hachoir.parser import createParser, ParserList
 import hachoir.core.config as hachoir_config
 from hachoir.metadata import config
@@ -151,6 +151,7 @@ def main():
     try:
         # Parser options and initialize Hachoir
         values, filenames = parseOptions()
+        configureOutput()
 
         if values.debug:
             hachoir_config.debug = True
diff --git a/hachoir/strip.py b/hachoir/strip.py
index 5db2868..e2c72f1 100644
--- a/hachoir/strip.py
+++ b/hachoir/strip.py
@@ -10,7 +10,7 @@ from hachoir.field import MissingField
 from hachoir.editor import createEditor
 from hachoir.stream import FileOutputStream, StringOutputStream
 from hachoir.core.tools import humanFilesize
-from hachoir.core.cmd_line import displayVersion
+from hachoir.core.cmd_line import displayVersion, configureOutput
 from hachoir.parser import createParser
 from optparse import OptionGroup, OptionParser
 import sys
@@ -259,6 +259,7 @@ def parseOptions():
 def main():
     # Parse arguments and read filenames
     values, filenames = parseOptions()
+    configureOutput()
     level = 0
     for item in values.strip.split(","):
         item = item.strip()
diff --git a/hachoir/subfile/main.py b/hachoir/subfile/main.py
index fe89581..b049ef4 100644
--- a/hachoir/subfile/main.py
+++ b/hachoir/subfile/main.py
@@ -1,7 +1,7 @@
 from hachoir.stream import FileInputStream
 from hachoir.core import config
 from hachoir.subfile.search import SearchSubfile
-from hachoir.core.cmd_line import displayVersion
+from hachoir.core.cmd_line import displayVersion, configureOutput
 from sys import exit
 from optparse import OptionGroup, OptionParser
 
@@ -82,6 +82,7 @@ def main():
     # Initialize
     values, filename, output = parseOptions()
     config.quiet = True
+    configureOutput()
     stream = FileInputStream(filename)
     with stream:
         subfile = SearchSubfile(stream, values.offset, values.size)
-- 
2.43.0


From 96fa9b2b804e43c7caf1ff9acb61dcdf9eb4e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:42 +0000
Subject: [PATCH 123/160] fix: hachoir-strip, hachoir-subfile: report files
 which can't be opened

---
 hachoir/strip.py        | 19 ++++++++++++++-----
 hachoir/subfile/main.py |  9 +++++++--
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/hachoir/strip.py b/hachoir/strip.py
index e2c72f1..fd2892b 100644
--- a/hachoir/strip.py
+++ b/hachoir/strip.py
@@ -8,7 +8,9 @@ Creation: 17 september 2006
 
 from hachoir.field import MissingField
 from hachoir.editor import createEditor
-from hachoir.stream import FileOutputStream, StringOutputStream
+from hachoir.core.error import error
+from hachoir.stream import (FileOutputStream, StringOutputStream,
+                            InputStreamError)
 from hachoir.core.tools import humanFilesize
 from hachoir.core.cmd_line import displayVersion, configureOutput
 from hachoir.parser import createParser
@@ -275,12 +277,19 @@ def main():
     ok = True
     for filename in filenames:
         print("[+]", ("Process file %s" % filename))
-        parser = createParser(filename)
+        try:
+            parser = createParser(filename)
+        except InputStreamError as err:
+            error(str(err))
+            ok = False
+            continue
         if parser:
-            editor = createEditor(parser)
-            ok &= stripEditor(editor, filename + ".new",
-                              level, not values.quiet)
+            with parser:
+                editor = createEditor(parser)
+                ok &= stripEditor(editor, filename + ".new",
+                                  level, not values.quiet)
         else:
+            error("Unable to parse file: %s" % filename)
             ok = False
     if ok:
         sys.exit(0)
diff --git a/hachoir/subfile/main.py b/hachoir/subfile/main.py
index b049ef4..b754fa5 100644
--- a/hachoir/subfile/main.py
+++ b/hachoir/subfile/main.py
@@ -1,5 +1,6 @@
-from hachoir.stream import FileInputStream
+from hachoir.stream import FileInputStream, InputStreamError
 from hachoir.core import config
+from hachoir.core.error import error
 from hachoir.subfile.search import SearchSubfile
 from hachoir.core.cmd_line import displayVersion, configureOutput
 from sys import exit
@@ -83,7 +84,11 @@ def main():
     values, filename, output = parseOptions()
     config.quiet = True
     configureOutput()
-    stream = FileInputStream(filename)
+    try:
+        stream = FileInputStream(filename)
+    except InputStreamError as err:
+        error(str(err))
+        exit(1)
     with stream:
         subfile = SearchSubfile(stream, values.offset, values.size)
         subfile.verbose = not values.quiet
-- 
2.43.0


From b6f5fdd08cffc70290f2d83641034255d13d0bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:42 +0000
Subject: [PATCH 124/160] fix: --profiler: hotshot doesn't exist in Python 3

---
 hachoir/core/profiler.py | 50 ++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/hachoir/core/profiler.py b/hachoir/core/profiler.py
index 56ece3f..29d7b6b 100644
--- a/hachoir/core/profiler.py
+++ b/hachoir/core/profiler.py
@@ -1,32 +1,26 @@
-from hotshot import Profile
-from hotshot.stats import load as loadStats
-from os import unlink
+from cProfile import Profile
+from pstats import Stats
 
 
 def runProfiler(func, args=tuple(), kw={}, verbose=True, nb_func=25,
                 sort_by=('cumulative', 'calls')):
-    profile_filename = "/tmp/profiler"
-    prof = Profile(profile_filename)
-    try:
-        if verbose:
-            print("[+] Run profiler")
-        result = prof.runcall(func, *args, **kw)
-        prof.close()
-        if verbose:
-            print("[+] Stop profiler")
-            print("[+] Process data...")
-        stat = loadStats(profile_filename)
-        if verbose:
-            print("[+] Strip...")
-        stat.strip_dirs()
-        if verbose:
-            print("[+] Sort data...")
-        stat.sort_stats(*sort_by)
-        if verbose:
-            print()
-            print("[+] Display statistics")
-            print()
-        stat.print_stats(nb_func)
-        return result
-    finally:
-        unlink(profile_filename)
+    prof = Profile()
+    if verbose:
+        print("[+] Run profiler")
+    result = prof.runcall(func, *args, **kw)
+    if verbose:
+        print("[+] Stop profiler")
+        print("[+] Process data...")
+    stat = Stats(prof)
+    if verbose:
+        print("[+] Strip...")
+    stat.strip_dirs()
+    if verbose:
+        print("[+] Sort data...")
+    stat.sort_stats(*sort_by)
+    if verbose:
+        print()
+        print("[+] Display statistics")
+        print()
+    stat.print_stats(nb_func)
+    return result
-- 
2.43.0


From a6c3f9190196f79e2943e61da43bf28c4df4db27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:45 +0000
Subject: [PATCH 125/160] fix: hachoir.metadata.csv: unreadable files, order of
 the files

---
 hachoir/metadata/csv.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/hachoir/metadata/csv.py b/hachoir/metadata/csv.py
index 1b6ec11..90561cd 100644
--- a/hachoir/metadata/csv.py
+++ b/hachoir/metadata/csv.py
@@ -1,4 +1,6 @@
 from hachoir.parser import createParser
+from hachoir.stream import InputStreamError
+from hachoir.core.cmd_line import configureOutput
 from hachoir.core.tools import makePrintable
 from hachoir.metadata import extractMetadata
 from hachoir.core.i18n import initLocale
@@ -42,22 +44,29 @@ class Extractor:
 
     def findFiles(self, directory, pattern):
         for dirpath, dirnames, filenames in walk(directory):
-            for filename in filenames:
+            # The order doesn't depend on the file system
+            dirnames.sort()
+            for filename in sorted(filenames):
                 if not fnmatch(filename.lower(), pattern):
                     continue
                 yield path_join(dirpath, filename)
 
     def processFile(self, filename):
         print("[%s] Process file %s..." % (self.total, filename))
-        parser = createParser(filename)
+        try:
+            parser = createParser(filename)
+        except InputStreamError as err:
+            print("Unable to open file: %s" % err, file=stderr)
+            return None
         if not parser:
             print("Unable to parse file", file=stderr)
             return None
-        try:
-            metadata = extractMetadata(parser)
-        except Exception as err:
-            print("Metadata extraction error: %s" % str(err), file=stderr)
-            return None
+        with parser:
+            try:
+                metadata = extractMetadata(parser)
+            except Exception as err:
+                print("Metadata extraction error: %s" % str(err), file=stderr)
+                return None
         if not metadata:
             print("Unable to extract metadata", file=stderr)
             return None
@@ -73,6 +82,7 @@ class Extractor:
 
 def main():
     initLocale()
+    configureOutput()
     if len(argv) != 3:
         print("usage: %s directory fields" % argv[0], file=stderr)
         print(file=stderr)
-- 
2.43.0


From a3e63ef1d853bfc1e0782046d479c20ea055ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:12 +0000
Subject: [PATCH 126/160] fix: log file: messages with characters which can't
 be encoded

---
 hachoir/core/log.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/core/log.py b/hachoir/core/log.py
index 8d0a932..a372b0b 100644
--- a/hachoir/core/log.py
+++ b/hachoir/core/log.py
@@ -45,9 +45,11 @@ class Log:
         try:
             import codecs
             if append:
-                self.__file = codecs.open(filename, "a", "utf-8")
+                self.__file = codecs.open(filename, "a", "utf-8",
+                                          errors="backslashreplace")
             else:
-                self.__file = codecs.open(filename, "w", "utf-8")
+                self.__file = codecs.open(filename, "w", "utf-8",
+                                          errors="backslashreplace")
             self._writeIntoFile("Starting Hachoir")
         except FileNotFoundError:
             self.__file = None
-- 
2.43.0


From 93fa7be6ab94d0061fffa75fd75bb80d2cafb3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:06 +0000
Subject: [PATCH 127/160] fix: editor: values of typed fields

Refuse the values which the field can't represent (8-bit signed
integers, 24 and 64 bits integers, terminator in a string, characters,
timestamps), write strings with a prefix, fields which aren't aligned
and fields constructed with a value, accept str for strings.
---
 hachoir/editor/typed_field.py | 139 ++++++++++++++++++++--------------
 1 file changed, 83 insertions(+), 56 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index fe64696..79a6ad1 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -4,7 +4,7 @@ from hachoir.field import (
     GenericString, Character,
     TimestampMac32,
     isInteger, isString)
-from hachoir.core.tools import timestampMac32
+from hachoir.core.tools import makePrintable, timestampMac32
 from hachoir.editor import FakeField
 from datetime import datetime
 
@@ -36,6 +36,13 @@ class EditableField(FakeField):
     def _setValue(self, value):
         self._value = value
 
+    def createDisplay(self):
+        if self._value is not None:
+            return makePrintable(str(self._getValue()), "ISO-8859-1")
+        else:
+            return FakeField.createDisplay(self)
+    display = property(lambda self: self.createDisplay())
+
     def _propGetValue(self):
         if self._value is not None:
             return self._getValue()
@@ -91,7 +98,6 @@ class EditableBits(EditableFixedField):
                     "(parent, name, [size, value])")
             size = args[0]
             value = args[1]
-            assert isinstance(value, int)
         else:
             size = None
             value = None
@@ -101,6 +107,8 @@ class EditableBits(EditableFixedField):
             self._is_altered = True
 
     def _setValue(self, value):
+        if not isinstance(value, int):
+            raise TypeError("EditableBits needs an integer")
         if not (0 <= value < (1 << self._size)):
             raise ValueError("Invalid value, must be in range %s..%s"
                              % (0, (1 << self._size) - 1))
@@ -112,7 +120,15 @@ class EditableBits(EditableFixedField):
 
 class EditableBytes(EditableField):
 
+    def __init__(self, parent, name, value=None):
+        EditableField.__init__(self, parent, name)
+        if value is not None:
+            self._setValue(value)
+            self._is_altered = True
+
     def _setValue(self, value):
+        if not isinstance(value, bytes):
+            raise TypeError("EditableBytes needs bytes")
         if not value:
             raise ValueError(
                 "Unable to set empty string to a EditableBytes field")
@@ -131,57 +147,73 @@ class EditableString(EditableField):
         "Pascal16": (1 << 16) - 1,
         "Pascal32": (1 << 32) - 1,
     }
+    PREFIX_SIZE = GenericString.PASCAL_FORMATS
 
     def __init__(self, parent, name, *args, **kw):
-        if len(args) == 2:
-            value = args[1]
-            assert isinstance(value, bytes)  # TODO: support Unicode
-        elif not args:
-            value = None
-        else:
+        if len(args) not in (0, 2):
             raise TypeError(
                 "Wrong argument count, EditableString constructor prototype is:"
                 "(parent, name, [format, value])")
-        EditableField.__init__(self, parent, name, value)
+        EditableField.__init__(self, parent, name)
+        self._bom = b''
         if len(args) == 2:
             self._charset = kw.get('charset', None)
             self._format = args[0]
-            if self._format in GenericString.PASCAL_FORMATS:
-                self._prefix_size = GenericString.PASCAL_FORMATS[self._format]
-            else:
-                self._prefix_size = 0
+            self._prefix_size = self.PREFIX_SIZE.get(self._format, 0)
             self._suffix_str = GenericString.staticSuffixStr(
                 self._format, self._charset, self._parent.endian)
+            self._setValue(args[1])
             self._is_altered = True
         else:
             orig = self._parent._getOriginalField(name)
             self._charset = orig.charset
             self._format = orig.format
-            self._prefix_size = orig.content_offset
+            self._prefix_size = self.PREFIX_SIZE.get(self._format, 0)
             self._suffix_str = orig.suffix_str
+            if self._prefix_size < orig.content_offset:
+                # The value doesn't contain the byte order mark
+                self._bom = orig.parent.stream.readBytes(
+                    orig.absolute_address + self._prefix_size * 8,
+                    orig.content_offset - self._prefix_size)
+
+    def _encode(self, value):
+        if isinstance(value, str):
+            value = value.encode(self._charset or "ISO-8859-1")
+        if not isinstance(value, bytes):
+            raise TypeError("EditableString needs a string")
+        return value
 
     def _setValue(self, value):
-        size = len(value)
+        data = self._encode(value)
+        size = len(self._bom) + len(data)
         if self._format in self.MAX_SIZE and self.MAX_SIZE[self._format] < size:
             raise ValueError("String is too big")
-        assert isinstance(value, bytes)
+        if self._format in GenericString.SUFFIX_FORMAT:
+            # The first suffix is the end of the string
+            width = len(self._suffix_str)
+            if len(data) % width:
+                raise ValueError("Truncated character at the end of the string")
+            for pos in range(0, len(data), width):
+                if data[pos:pos + width] == self._suffix_str:
+                    raise ValueError("String contains its terminator")
         self._value = value
 
     def _computeSize(self):
-        return (self._prefix_size + len(self._value) + len(self._suffix_str)) * 8
+        return (self._prefix_size + len(self._bom)
+                + len(self._encode(self._value)) + len(self._suffix_str)) * 8
 
     def _write(self, output):
+        value = self._bom + self._encode(self._value)
         if self._format in GenericString.SUFFIX_FORMAT:
-            output.writeBytes(self._value)
+            output.writeBytes(value)
             output.writeBytes(self._suffix_str)
         elif self._format == "fixed":
-            output.writeBytes(self._value)
+            output.writeBytes(value)
         else:
             assert self._format in GenericString.PASCAL_FORMATS
             size = GenericString.PASCAL_FORMATS[self._format]
-            output.writeInteger(len(self._value), False,
+            output.writeInteger(len(value), False,
                                 size, self._parent.endian)
-            value = self._value.encode(self._charset)
             output.writeBytes(value)
 
 
@@ -189,40 +221,27 @@ class EditableCharacter(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableCharacter "
                     "constructor prototype is: (parent, name, [value])")
-            value = args[0]
-            if not isinstance(value, str) or len(value) != 1:
-                raise TypeError("EditableCharacter needs a character")
-        else:
-            value = None
-        EditableFixedField.__init__(self, parent, name, value, 8)
+        EditableFixedField.__init__(self, parent, name, None, 8)
         if args:
+            self._setValue(args[0])
             self._is_altered = True
 
     def _setValue(self, value):
         if not isinstance(value, str) or len(value) != 1:
             raise TypeError("EditableCharacter needs a character")
+        if 255 < ord(value):
+            raise ValueError("Invalid character: %r" % value)
         self._value = value
 
     def _write(self, output):
-        output.writeBytes(self._value)
+        output.writeBits(self._size, ord(self._value), self._parent.endian)
 
 
 class EditableInteger(EditableFixedField):
-    VALID_VALUE_SIGNED = {
-        8: (-(1 << 8), (1 << 8) - 1),
-        16: (-(1 << 15), (1 << 15) - 1),
-        32: (-(1 << 31), (1 << 31) - 1),
-    }
-    VALID_VALUE_UNSIGNED = {
-        8: (0, (1 << 8) - 1),
-        16: (0, (1 << 16) - 1),
-        32: (0, (1 << 32) - 1)
-    }
-
     def __init__(self, parent, name, *args):
         if args:
             if len(args) != 3:
@@ -230,32 +249,34 @@ class EditableInteger(EditableFixedField):
                     "Wrong argument count, EditableInteger constructor prototype is: "
                     "(parent, name, [signed, size, value])")
             size = args[1]
-            value = args[2]
-            assert isinstance(value, int)
         else:
             size = None
-            value = None
-        EditableFixedField.__init__(self, parent, name, value, size)
+        EditableFixedField.__init__(self, parent, name, None, size)
         if args:
             self._signed = args[0]
+            self._setValue(args[2])
             self._is_altered = True
         else:
             self._signed = self._parent._getOriginalField(self._name).signed
 
     def _setValue(self, value):
+        if not isinstance(value, int):
+            raise TypeError("EditableInteger needs an integer")
         if self._signed:
-            valid = self.VALID_VALUE_SIGNED
+            minval = -(1 << (self._size - 1))
+            maxval = (1 << (self._size - 1)) - 1
         else:
-            valid = self.VALID_VALUE_UNSIGNED
-        minval, maxval = valid[self._size]
+            minval = 0
+            maxval = (1 << self._size) - 1
         if not (minval <= value <= maxval):
             raise ValueError("Invalid value, must be in range %s..%s"
                              % (minval, maxval))
         self._value = value
 
     def _write(self, output):
-        output.writeInteger(
-            self.value, self._signed, self._size // 8, self._parent.endian)
+        # Two's complement
+        value = self._value & ((1 << self._size) - 1)
+        output.writeBits(self._size, value, self._parent.endian)
 
 
 class EditableTimestampMac32(EditableFixedField):
@@ -263,17 +284,20 @@ class EditableTimestampMac32(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableTimestampMac32 constructor prototype is: "
                     "(parent, name, [value])")
-            value = args[0]
-            assert isinstance(value, datetime)
-        else:
-            value = None
-        EditableFixedField.__init__(self, parent, name, value, 32)
+        EditableFixedField.__init__(self, parent, name, None, 32)
+        if args:
+            self._setValue(args[0])
+            self._is_altered = True
 
     def _setValue(self, value):
+        if not isinstance(value, datetime):
+            raise TypeError("EditableTimestampMac32 needs a datetime")
+        if value.microsecond:
+            raise ValueError("The unit of the timestamp is the second")
         if not (self.minval <= value <= self.maxval):
             raise ValueError("Invalid value, must be in range %s..%s"
                              % (self.minval, self.maxval))
@@ -287,7 +311,10 @@ class EditableTimestampMac32(EditableFixedField):
 def createEditableField(fieldset, field):
     if isInteger(field):
         cls = EditableInteger
-    elif isString(field):
+    elif (isString(field)
+          and (field.format == "fixed"
+               or field.format in GenericString.SUFFIX_FORMAT
+               or field.format in GenericString.PASCAL_FORMATS)):
         cls = EditableString
     elif field.__class__ == TimestampMac32:
         cls = EditableTimestampMac32
-- 
2.43.0


From d739038196ed8261454336f80597c3e478c31550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:06 +0000
Subject: [PATCH 128/160] fix: editor: inserted fields, new field sets, floats,
 unaligned copy

Keep the order of inserted fields, access and delete inserted fields,
refuse missing fields, value of edited floats, copy of unaltered fields
at any position, don't write altered field sets with gaps.
---
 hachoir/editor/field.py    |   6 +-
 hachoir/editor/fieldset.py | 252 +++++++++++++++++++++++--------------
 2 files changed, 162 insertions(+), 96 deletions(-)

diff --git a/hachoir/editor/field.py b/hachoir/editor/field.py
index f3d43c0..d5cafbc 100644
--- a/hachoir/editor/field.py
+++ b/hachoir/editor/field.py
@@ -62,8 +62,4 @@ class FakeField(object):
         size = self.size
         addr = self._parent._getFieldInputAddress(self._name)
         input = self._parent.input
-        stream = input.stream
-        if size % 8 or addr % 8:
-            output.copyBitsFrom(stream, addr, size, input.endian)
-        else:
-            output.copyBytesFrom(stream, addr, size // 8)
+        output.copyBitsFrom(input.stream, addr, size, input.endian)
diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 5299879..9d7941c 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -1,7 +1,10 @@
 from hachoir.core.dict import UniqKeyError
-from hachoir.field import MissingField, Float32, Float64, FakeArray
-from hachoir.editor import createEditableField, EditorError
+from hachoir.core.endian import BIG_ENDIAN
+from hachoir.field import MissingField, Float32, Float64, FakeArray, joinPath
+from hachoir.stream import OutputStream
+from hachoir.editor import createEditableField, EditableBits, EditorError
 from collections import deque  # Python 2.4
+from io import BytesIO
 import weakref  # Python 2.1
 import struct
 
@@ -27,7 +30,7 @@ class EditableFieldSet(object):
     parent = property(_getParent)
 
     def _isAltered(self):
-        if self._inserted:
+        if any(self._inserted.values()):
             return True
         if self._deleted:
             return True
@@ -38,24 +41,30 @@ class EditableFieldSet(object):
         """
         Reset the field set and the input field set.
         """
-        for key, field in self._fields.items():
+        for key, field in list(self._fields.items()):
             if not field.is_altered:
                 del self._fields[key]
-        self.input.reset()
+        if self.input is not None:
+            self.input.reset()
 
     def __len__(self):
-        return len(self.input) \
+        if self.input is not None:
+            count = len(self.input)
+        else:
+            count = 0
+        return count \
             - len(self._deleted) \
             + sum(len(new) for new in self._inserted.values())
 
     def __iter__(self):
-        for field in self.input:
-            name = field.name
-            if name in self._inserted:
-                for newfield in self._inserted[name]:
-                    yield weakref.proxy(newfield)
-            if name not in self._deleted:
-                yield self[name]
+        if self.input is not None:
+            for field in self.input:
+                name = field.name
+                if name in self._inserted:
+                    for newfield in self._inserted[name]:
+                        yield weakref.proxy(newfield)
+                if name not in self._deleted:
+                    yield self._getInputField(name)
         if None in self._inserted:
             for newfield in self._inserted[None]:
                 yield weakref.proxy(newfield)
@@ -67,7 +76,35 @@ class EditableFieldSet(object):
         self._insert(name, new_fields, True)
 
     def insert(self, *new_fields):
-        self._insert(None, new_fields, True)
+        self._insert(None, new_fields, False)
+
+    def _hasInputField(self, name):
+        return (self.input is not None
+                and name not in self._deleted
+                and name in self.input)
+
+    def _findInserted(self, name):
+        """
+        Find an inserted field: returns (list of fields, index in this list),
+        or None if there is no inserted field with this name.
+        """
+        for fields in self._inserted.values():
+            for index, field in enumerate(fields):
+                if field.name == name:
+                    return fields, index
+        return None
+
+    def _setUniqueFieldName(self, field, new_names):
+        prefix = field._name[:-2]
+        index = 0
+        while True:
+            name = "%s[%u]" % (prefix, index)
+            if not (name in new_names
+                    or self._hasInputField(name)
+                    or self._findInserted(name)):
+                break
+            index += 1
+        field._name = name
 
     def _insert(self, key, new_fields, next):
         """
@@ -76,9 +113,11 @@ class EditableFieldSet(object):
         _after_ this field.
         """
         # Set unique field name
+        names = set(field._name for field in new_fields)
         for field in new_fields:
             if field._name.endswith("[]"):
-                self.input.setUniqueFieldName(field)
+                self._setUniqueFieldName(field, names)
+                names.add(field._name)
 
         # Check that there is no duplicate in inserted fields
         new_names = list(field.name for field in new_fields)
@@ -90,10 +129,9 @@ class EditableFieldSet(object):
                 "Duplicates in inserted fields: %s" % ", ".join(duplicates))
 
         # Check that field names are not in input
-        if self.input:  # Write special version for NewFieldSet?
-            for name in new_names:
-                if name in self.input and name not in self._deleted:
-                    raise UniqKeyError("Field name '%s' already exists" % name)
+        for name in new_names:
+            if self._hasInputField(name):
+                raise UniqKeyError("Field name '%s' already exists" % name)
 
         # Check that field names are not in inserted fields
         for fields in self._inserted.values():
@@ -102,44 +140,38 @@ class EditableFieldSet(object):
                     raise UniqKeyError(
                         "Field name '%s' already exists" % field.name)
 
-        # Input have already inserted field?
-        if key in self._inserted:
-            if next:
-                self._inserted[key].extend(reversed(new_fields))
-            else:
-                self._inserted[key].extendleft(reversed(new_fields))
-            return
-
         # Whould like to insert in inserted fields?
-        if key:
-            for fields in self._inserted.values():
-                names = [item.name for item in fields]
-                try:
-                    pos = names.index(key)
-                except ValueError:
-                    continue
-                if 0 <= pos:
-                    if next:
-                        pos += 1
-                    fields.rotate(-pos)
-                    fields.extendleft(reversed(new_fields))
-                    fields.rotate(pos)
-                    return
+        if key is not None:
+            found = self._findInserted(key)
+            if found:
+                fields, pos = found
+                if next:
+                    pos += 1
+                fields.rotate(-pos)
+                fields.extendleft(reversed(new_fields))
+                fields.rotate(pos)
+                return
+
+            # Check that the field is in input
+            if not self._hasInputField(key):
+                raise MissingField(self, key)
 
             # Get next field. Use None if we are at the end.
             if next:
                 index = self.input[key].index + 1
                 try:
                     key = self.input[index].name
-                except IndexError:
+                except MissingField:
                     key = None
 
-            # Check that field names are not in input
-            if key not in self.input:
-                raise MissingField(self, key)
-
-        # Insert in original input
-        self._inserted[key] = deque(new_fields)
+        # Input have already inserted field before this field?
+        fields = self._inserted.setdefault(key, deque())
+        if next:
+            # Just after the previous field
+            fields.extendleft(reversed(new_fields))
+        else:
+            # Just before the field
+            fields.extend(new_fields)
 
     def _getDescription(self):
         return self.input.description
@@ -160,7 +192,7 @@ class EditableFieldSet(object):
     endian = property(_getEndian)
 
     def _getAddress(self):
-        if self._parent:
+        if self._parent is not None:
             return self._parent._getFieldAddress(self.name)
         else:
             return 0
@@ -169,7 +201,7 @@ class EditableFieldSet(object):
     def _getAbsoluteAddress(self):
         address = self.address
         current = self._parent
-        while current:
+        while current is not None:
             address += current.address
             current = current._parent
         return address
@@ -215,11 +247,15 @@ class EditableFieldSet(object):
         raise MissingField(self, name)
 
     def _getItemByPath(self, path):
+        field = self
         if not path[0]:
+            # Absolute path
+            while field.parent is not None:
+                field = field.parent
             path = path[1:]
-        field = self
         for name in path:
-            field = field[name]
+            if name:
+                field = field[name]
         return field
 
     def __contains__(self, name):
@@ -238,13 +274,20 @@ class EditableFieldSet(object):
         May raise a MissingField error if the field doesn't exist in original
         field set or it has been deleted.
         """
-        if "/" in key:
-            return self._getItemByPath(key.split("/"))
         if isinstance(key, int):
             raise EditorError("Integer index are not supported")
+        if "/" in key:
+            return self._getItemByPath(key.split("/"))
 
-        if (key in self._deleted) or (key not in self.input):
+        found = self._findInserted(key)
+        if found:
+            fields, index = found
+            return weakref.proxy(fields[index])
+        if not self._hasInputField(key):
             raise MissingField(self, key)
+        return self._getInputField(key)
+
+    def _getInputField(self, key):
         if key not in self._fields:
             field = self.input[key]
             if field.is_field_set:
@@ -258,12 +301,20 @@ class EditableFieldSet(object):
         Remove a field from the field set. May raise an MissingField exception
         if the field has already been deleted.
         """
-        parts = name.partition('/')
-        if parts[2]:
-            fieldset = self[parts[0]]
-            del fieldset[parts[2]]
+        path, slash, name = name.rpartition('/')
+        if slash:
+            # "/name" is a field of the root
+            fieldset = self[path or '/']
+            if not fieldset.is_field_set:
+                raise MissingField(fieldset, name)
+            del fieldset[name]
+            return
+        found = self._findInserted(name)
+        if found:
+            fields, index = found
+            del fields[index]
             return
-        if name in self._deleted:
+        if not self._hasInputField(name):
             raise MissingField(self, name)
         self._deleted.add(name)
         if name in self._fields:
@@ -277,18 +328,19 @@ class EditableFieldSet(object):
         if not self.is_altered:
             # Not altered: just copy bits/bytes
             input = self.input
-            if input.size % 8:
-                output.copyBitsFrom(input.stream,
-                                    input.absolute_address, input.size, input.endian)
-            else:
-                output.copyBytesFrom(input.stream,
-                                     input.absolute_address, input.size // 8)
+            output.copyBitsFrom(input.stream,
+                                input.absolute_address, input.size, input.endian)
         else:
             # Altered: call writeInto() method of each field
-            realaddr = 0
+            if self.input is not None:
+                address = 0
+                for field in self.input:
+                    if field.address != address:
+                        raise EditorError('Unable to edit the field set "%s": '
+                                          'its fields are not contiguous' % self.path)
+                    address += field.size
             for field in self:
                 field.writeInto(output)
-                realaddr += field.size
 
     def _getValue(self):
         raise EditorError('Field set "%s" has no value' % self.path)
@@ -299,27 +351,39 @@ class EditableFieldSet(object):
 
 
 class EditableFloat(EditableFieldSet):
-    _value = None
 
-    def _isAltered(self):
-        return (self._value is not None)
-    is_altered = property(_isAltered)
-
-    def writeInto(self, output):
-        if self._value is not None:
-            self._write(output)
-        else:
-            EditableFieldSet.writeInto(self, output)
+    def hasValue(self):
+        return True
 
-    def _write(self, output):
-        format = self.input.struct_format
-        raw = struct.pack(format, self._value)
-        output.writeBytes(raw)
+    def _getValue(self):
+        if not self.is_altered:
+            return self.input.value
+        raw = BytesIO()
+        self.writeInto(OutputStream(raw))
+        try:
+            return struct.unpack(self.input.struct_format, raw.getvalue())[0]
+        except struct.error as err:
+            raise EditorError('Float "%s" has no value: %s' % (self.path, err))
 
     def _setValue(self, value):
-        self.parent._is_altered = True
-        self._value = value
-    value = property(EditableFieldSet._getValue, _setValue)
+        if not isinstance(value, (int, float)):
+            raise TypeError("EditableFloat needs a number")
+        raw = struct.pack(self.input.struct_format, value)
+        if self.input.endian == BIG_ENDIAN:
+            bits = int.from_bytes(raw, "big")
+        else:
+            bits = int.from_bytes(raw, "little")
+        self._deleted.clear()
+        self._inserted.clear()
+        for field in self.input:
+            # In little endian, the first field has the least significant bits
+            shift = field.address
+            if self.input.endian == BIG_ENDIAN:
+                shift = self.input.size - shift - field.size
+            part = (bits >> shift) & ((1 << field.size) - 1)
+            self._fields[field.name] = EditableBits(
+                self, field.name, field.size, part)
+    value = property(_getValue, _setValue)
 
 
 def createEditableFieldSet(parent, field):
@@ -338,16 +402,22 @@ class NewFieldSet(EditableFieldSet):
         self._name = name
         self._endian = parent.endian
 
-    def __iter__(self):
-        if None in self._inserted:
-            return iter(self._inserted[None])
-        else:
-            raise StopIteration()
-
     def _getName(self):
         return self._name
     name = property(_getName)
 
+    def _getPath(self):
+        return joinPath(self._parent.path, self._name)
+    path = property(_getPath)
+
+    def _getDescription(self):
+        return ""
+    description = property(_getDescription)
+
+    def _getStream(self):
+        return self._parent.stream
+    stream = property(_getStream)
+
     def _getEndian(self):
         return self._endian
     endian = property(_getEndian)
-- 
2.43.0


From bb379bca64776494c1d40b4ba093cfb663e2f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:06 +0000
Subject: [PATCH 129/160] fix: doc: the value of EditableBytes is bytes

---
 doc/examples/editor_add_extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/examples/editor_add_extra.py b/doc/examples/editor_add_extra.py
index 378cb47..04f8c5a 100644
--- a/doc/examples/editor_add_extra.py
+++ b/doc/examples/editor_add_extra.py
@@ -6,7 +6,7 @@ from hachoir.editor import EditableInteger, EditableBytes
 parser = createParser("file.gz")
 with parser:
     editor = createEditor(parser)
-    extra = "abcd"
+    extra = b"abcd"
     editor["has_extra"].value = True
     editor.insertAfter("os",
                        EditableInteger(editor, "extra_length", False,
-- 
2.43.0


From 011c8473ebae5dffa14592b08129f07103f2251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:45 +0000
Subject: [PATCH 130/160] fix: RIFF: empty chunk at the end of a list

---
 hachoir/parser/container/riff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/riff.py b/hachoir/parser/container/riff.py
index 3d7bd0d..6211709 100644
--- a/hachoir/parser/container/riff.py
+++ b/hachoir/parser/container/riff.py
@@ -287,7 +287,7 @@ class Chunk(FieldSet):
         if self["tag"].value == "LIST":
             yield String(self, "subtag", 4, "Sub-tag", charset="ASCII")
             handler = self.tag_info[1]
-            while 8 < (self.size - self.current_size) // 8:
+            while 8 <= (self.size - self.current_size) // 8:
                 field = self.__class__(self, "field[]")
                 yield field
                 if (field.size // 8) % 2 != 0:
-- 
2.43.0


From dc74fbf9b3a9681544d1f19deb7dc2f5088a2520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:45 +0000
Subject: [PATCH 131/160] fix: hachoir-strip: TAR archives, repeated blocks,
 sizes of RIFF lists

TAR: the values are bytes; don't touch the end of the archive, files
without these metadata, nor anything if metadata are kept. Remove all
blocks of metadata: PNG compressed and international text, blocks which
are not the first of their kind, RIFF metadata outside of the INFO list.
RIFF: size of lists which don't count the last padding byte, keep the
index flag if there is no index.
---
 hachoir/strip.py | 133 +++++++++++++++++++++++++++++++----------------
 1 file changed, 88 insertions(+), 45 deletions(-)

diff --git a/hachoir/strip.py b/hachoir/strip.py
index fd2892b..0037f34 100644
--- a/hachoir/strip.py
+++ b/hachoir/strip.py
@@ -56,15 +56,19 @@ class BasicStripper:
         raise NotImplementedError()
 
     def removeField(self, field, editor=None):
-        if not editor:
+        if editor is None:
             editor = self.editor
         self.info("Remove field %s" % field.path)
         size = field.size
         del editor[field.name]
         return size
 
+    def arrayName(self, field):
+        # A second field with the same name is an item of an array
+        return field.name.partition("[")[0]
+
     def removeFields(self, fields, editor=None):
-        if not editor:
+        if editor is None:
             editor = self.editor
         return sum(self.removeField(field, editor) for field in fields)
 
@@ -79,7 +83,7 @@ class CheckStripper(BasicStripper):
         raise NotImplementedError()
 
     def strip(self):
-        fields = (field for field in self.editor if self.checkField(field))
+        fields = [field for field in self.editor if self.checkField(field)]
         return self.removeFields(fields)
 
 
@@ -87,11 +91,7 @@ class PngStripper(CheckStripper):
 
     def checkField(self, field):
         if self.level & STRIP_METADATA:
-            name = field.name
-            if name.startswith("text["):
-                return True
-            if name == "time":
-                return True
+            return self.arrayName(field) in ("text", "utf8_text", "comp_text", "time")
         return False
 
 
@@ -99,9 +99,7 @@ class JpegStripper(CheckStripper):
 
     def checkField(self, field):
         if self.level & STRIP_METADATA:
-            if field.name.startswith("comment"):
-                return True
-            return field.name in ("photoshop", "exif", "adobe")
+            return self.arrayName(field) in ("comment", "photoshop", "exif", "adobe")
         return False
 
 
@@ -109,7 +107,7 @@ class MpegAudioStripper(CheckStripper):
 
     def checkField(self, field):
         if self.level & STRIP_METADATA:
-            return field.name in ("id3v1", "id3v2")
+            return self.arrayName(field) in ("id3v1", "id3v2")
         return False
 
 
@@ -126,28 +124,43 @@ class AuStripper(BasicStripper):
 
 class RiffStripper(BasicStripper):
 
-    def stripSub(self, editor, names):
+    METADATA = ("info", "title", "artist", "comment", "copyright", "author",
+                "creation_date", "producer", "datetime")
+
+    def stripSub(self, editor, size_name, names):
         remove = []
         total = 0
+        last_end = 0
+        last_changed = False
         for field in editor:
-            if field.name in names:
-                remove.append(field)
-                continue
             try:
                 tag = field["tag"].value
             except MissingField:
                 continue
-            if self.level & STRIP_USELESS and tag in "JUNK":
+            chunk = editor.input[field.name]
+            last_end = chunk.address + chunk.size
+            last_changed = True
+            if self.arrayName(field) in names:
                 remove.append(field)
-                continue
-            if tag == "LIST" and field.name != "movie":
+            elif self.level & STRIP_USELESS and tag == "JUNK":
+                remove.append(field)
+            elif tag == "LIST" and self.arrayName(field) != "movie":
                 # Strip a chunk list
-                size = self.stripSub(field, names)
-                if size:
-                    # Update chunk list size
-                    field["size"].value -= (size // 8)
+                size = self.stripSub(field, "size", names)
+                last_changed = (size != 0)
                 total += size
+            else:
+                last_changed = False
         total += self.removeFields(remove, editor)
+        if total:
+            # Update the size of the list
+            field = editor[size_name]
+            size = field.value - total // 8
+            end = field.address + field.size + field.value * 8
+            if last_changed and end < last_end:
+                # The size did not include the padding of the last chunk
+                size += (last_end - end) // 8
+            field.value = size
         return total
 
     def strip(self):
@@ -155,16 +168,13 @@ class RiffStripper(BasicStripper):
         if self.level & STRIP_USELESS:
             names.append("nb_sample")
         if self.level & STRIP_METADATA:
-            names.append("info")
+            names.extend(self.METADATA)
         if self.level & STRIP_INDEX:
-            if "/headers/avi_hdr/has_index" in self.editor:
+            if "index" in self.editor \
+                    and "/headers/avi_hdr/has_index" in self.editor:
                 self.editor["/headers/avi_hdr/has_index"].value = False
             names.append("index")
-        size = self.stripSub(self.editor, names)
-        if size:
-            # Update file size field
-            self.editor["filesize"].value -= (size // 8)
-        return size
+        return self.stripSub(self.editor, "filesize", names)
 
 
 def usage():
@@ -174,27 +184,60 @@ def usage():
 class TarStripper(BasicStripper):
 
     def strip(self):
-        for file in self.editor.array("file"):
-            self.stripFile(file)
+        if self.level & STRIP_METADATA:
+            for file in self.editor.array("file"):
+                self.stripFile(file)
+        return 0
+
+    def readHeader(self, file):
+        input = file.input
+        return input.stream.readBytes(input.absolute_address, 512)
+
+    def setField(self, file, name, value):
+        """
+        Returns True if the value of the field was different.
+        """
+        field = file.input[name]
+        old = field.parent.stream.readBytes(
+            field.absolute_address, field.size // 8)
+        if old == value:
+            return False
+        self.info("Reset field %s" % field.path)
+        file[name].value = value
+        return True
 
     def fixChecksum(self, file):
-        file["check_sum"].value = " " * 8
+        file["check_sum"].value = b" " * 8
         stream = StringOutputStream()
-        file.writeInto(stream)
+        for field in file:
+            if field.name == "content" or field.address >= 512 * 8:
+                break
+            field.writeInto(stream)
         data = stream.readBytes(0, 512)
-        checksum = sum(ord(character) for character in data)
-        file["check_sum"].value = ("0%o\0" % checksum).ljust(8, " ")
+        checksum = sum(data)
+        file["check_sum"].value = b"%06o\0 " % checksum
 
     def stripFile(self, file):
-        empty32 = "\0" * 32
-        uid = "0000000\0"
-        file["uid"].value = uid
-        file["gid"].value = uid
-        file["mtime"].value = "00000000000\0"
-        file["uname"].value = empty32
-        file["gname"].value = empty32
-        self.fixChecksum(file)
-        self._is_dirty = True
+        if file.size < 512 * 8:
+            # Truncated header
+            return
+        if self.readHeader(file) == b"\0" * 512:
+            # End of the archive
+            return
+        empty32 = b"\0" * 32
+        uid = b"0000000\0"
+        dirty = False
+        for name, value in (
+            ("uid", uid),
+            ("gid", uid),
+            ("mtime", b"00000000000\0"),
+            ("uname", empty32),
+            ("gname", empty32),
+        ):
+            dirty |= self.setField(file, name, value)
+        if dirty:
+            self.fixChecksum(file)
+            self._is_dirty = True
 
 
 strippers = {
-- 
2.43.0


From bca9133c8b5ecb1796e39c991b222b121ab19646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:55 +0000
Subject: [PATCH 132/160] fix: bplist: XML, empty containers and values read
 twice

createXML() mixed bytes and str (Python 2 code) and lost the empty
values; empty dictionaries were parsed up to the end of the file; the
value of an array was a generator, empty when read again.
---
 hachoir/parser/misc/bplist.py | 39 +++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/hachoir/parser/misc/bplist.py b/hachoir/parser/misc/bplist.py
index 097a197..c139ddb 100644
--- a/hachoir/parser/misc/bplist.py
+++ b/hachoir/parser/misc/bplist.py
@@ -21,7 +21,9 @@ from hachoir.field import (RootSeekableFieldSet, FieldSet, Enum,
 from hachoir.core.endian import BIG_ENDIAN
 from hachoir.core.text_handler import displayHandler
 from hachoir.core.tools import humanDatetime
+from base64 import b64encode
 from datetime import datetime, timedelta
+from xml.sax.saxutils import escape
 
 
 class BPListTrailer(FieldSet):
@@ -87,7 +89,7 @@ class BPListArray(FieldSet):
             yield BPListObjectRef(self, "ref[]")
 
     def createValue(self):
-        return self.array('ref')
+        return list(self.array('ref'))
 
     def createDisplay(self):
         return '[' + ', '.join([x.display for x in self.value]) + ']'
@@ -115,7 +117,7 @@ class BPListDict(FieldSet):
         return '{' + ', '.join(['%s: %s' % (k.display, v.display) for k, v in self.value]) + '}'
 
     def createXML(self, prefix=''):
-        return prefix + '<dict>\n' + ''.join(['%s\t<key>%s</key>\n%s\n' % (prefix, k.getRef().value.encode('utf-8'), v.createXML(prefix + '\t')) for k, v in self.value]) + prefix + '</dict>'
+        return prefix + '<dict>\n' + ''.join(['%s\t<key>%s</key>\n%s\n' % (prefix, escape(k.getRef().value), v.createXML(prefix + '\t')) for k, v in self.value]) + prefix + '</dict>'
 
 
 class BPListObject(FieldSet):
@@ -194,7 +196,7 @@ class BPListObject(FieldSet):
                 yield Bytes(self, "value", self['size'].value)
                 self.xml = lambda prefix: prefix + \
                     "<data>\n%s\n%s</data>" % (
-                        self['value'].value.encode('base64').strip(), prefix)
+                        b64encode(self['value'].value).decode('ascii'), prefix)
             else:
                 self.xml = lambda prefix: prefix + '<data></data>'
 
@@ -204,8 +206,7 @@ class BPListObject(FieldSet):
             if self['size'].value:
                 yield String(self, "value", self['size'].value, charset="ASCII")
                 self.xml = lambda prefix: prefix + \
-                    "<string>%s</string>" % (self['value'].value.replace(
-                        '&', '&amp;').encode('iso-8859-1'))
+                    "<string>%s</string>" % escape(self['value'].value)
             else:
                 self.xml = lambda prefix: prefix + '<string></string>'
 
@@ -215,8 +216,7 @@ class BPListObject(FieldSet):
             if self['size'].value:
                 yield String(self, "value", self['size'].value * 2, charset="UTF-16-BE")
                 self.xml = lambda prefix: prefix + \
-                    "<string>%s</string>" % (
-                        self['value'].value.replace('&', '&amp;').encode('utf-8'))
+                    "<string>%s</string>" % escape(self['value'].value)
             else:
                 self.xml = lambda prefix: prefix + '<string></string>'
 
@@ -233,12 +233,18 @@ class BPListObject(FieldSet):
             if size:
                 yield BPListArray(self, "value", size)
                 self.xml = lambda prefix: self['value'].createXML(prefix)
+            else:
+                self.xml = lambda prefix: prefix + '<array></array>'
 
         elif markertype == 13:
             # Dict
             yield BPListSize(self, "size")
-            yield BPListDict(self, "value", self['size'].value)
-            self.xml = lambda prefix: self['value'].createXML(prefix)
+            size = self['size'].value
+            if size:
+                yield BPListDict(self, "value", size)
+                self.xml = lambda prefix: self['value'].createXML(prefix)
+            else:
+                self.xml = lambda prefix: prefix + '<dict></dict>'
 
         else:
             yield Bits(self, "value", 4)
@@ -249,6 +255,8 @@ class BPListObject(FieldSet):
             return self['value'].value
         elif self['marker_type'].value in [4, 5, 6]:
             return ''
+        elif self['marker_type'].value in [10, 13]:
+            return []
         else:
             return None
 
@@ -257,16 +265,17 @@ class BPListObject(FieldSet):
             return str(self['value'].display)
         elif self['marker_type'].value in [4, 5, 6]:
             return ''
+        elif self['marker_type'].value == 10:
+            return '[]'
+        elif self['marker_type'].value == 13:
+            return '{}'
         else:
             return None
 
     def createXML(self, prefix=''):
-        if 'value' in self:
-            try:
-                return self.xml(prefix)
-            except AttributeError:
-                return ''
-        return ''
+        # Read all fields to know the type of the object
+        len(self)
+        return self.xml(prefix)
 
     def getFieldType(self):
         return '%s<%s>' % (FieldSet.getFieldType(self), self['marker_type'].display)
-- 
2.43.0


From 25ddfbc80f1c70082c78fb5d23362e6e7a9153b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:55 +0000
Subject: [PATCH 133/160] fix: tcpdump: microseconds, fragments and the end of
 the TCP options

The fraction of the timestamps was multiplied by 100 too less, the data of
the next fragments of a packet were parsed as TCP/UDP/ICMP headers, and the
end of options (no length byte) broke the TCP header.
---
 hachoir/parser/network/tcpdump.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/network/tcpdump.py b/hachoir/parser/network/tcpdump.py
index 52a84b6..7d95015 100644
--- a/hachoir/parser/network/tcpdump.py
+++ b/hachoir/parser/network/tcpdump.py
@@ -66,6 +66,7 @@ class ARP(Layer):
 
 
 class TCP_Option(FieldSet):
+    END = 0
     NOP = 1
     MAX_SEGMENT = 2
     WINDOW_SCALE = 3
@@ -73,6 +74,7 @@ class TCP_Option(FieldSet):
     TIMESTAMP = 8
 
     code_name = {
+        END: "End of options",
         NOP: "NOP",
         MAX_SEGMENT: "Max segment size",
         WINDOW_SCALE: "Window scale",
@@ -82,7 +84,7 @@ class TCP_Option(FieldSet):
 
     def __init__(self, *args):
         FieldSet.__init__(self, *args)
-        if self["code"].value != self.NOP:
+        if self["code"].value not in (self.END, self.NOP):
             self._size = self["length"].value * 8
         else:
             self._size = 8
@@ -90,7 +92,7 @@ class TCP_Option(FieldSet):
     def createFields(self):
         yield Enum(UInt8(self, "code", "Code"), self.code_name)
         code = self["code"].value
-        if code == self.NOP:
+        if code in (self.END, self.NOP):
             return
         yield UInt8(self, "length", "Option size in bytes")
         if code == self.MAX_SEGMENT:
@@ -154,6 +156,10 @@ class TCP(Layer):
             option = TCP_Option(self, "option[]")
             yield option
             size -= option.size
+            if option["code"].value == TCP_Option.END:
+                break
+        if 0 < size:
+            yield RawBytes(self, "padding", size // 8)
 
     def parseNext(self, parent):
         return None
@@ -367,6 +373,12 @@ class IPv4(IP):
         if size:
             yield RawBytes(self, "options", size)
 
+    def parseNext(self, parent):
+        if self["frag_ofst_lo"].value or self["frag_ofst_hi"].value:
+            # Only the first fragment has the header of the next layer
+            return None
+        return IP.parseNext(self, parent)
+
     def createDescription(self):
         return "IPv4 (%s>%s)" % (self["src"].display, self["dst"].display)
 
@@ -445,7 +457,7 @@ class Packet(FieldSet):
 
     def createFields(self):
         yield TimestampUnix32(self, "ts_epoch", "Timestamp (Epoch)")
-        yield UInt32(self, "ts_nanosec", "Timestamp (nano second)")
+        yield UInt32(self, "ts_nanosec", "Timestamp (micro second)")
         yield UInt32(self, "caplen", "length of portion present")
         yield UInt32(self, "len", "length this packet (off wire)")
 
@@ -461,9 +473,9 @@ class Packet(FieldSet):
             yield RawBytes(self, "data", size)
 
     def getTimestamp(self):
-        nano_sec = float(self["ts_nanosec"].value) / 100
+        # Despite its name, the field is a number of microseconds
         from datetime import timedelta
-        return self["ts_epoch"].value + timedelta(microseconds=nano_sec)
+        return self["ts_epoch"].value + timedelta(microseconds=self["ts_nanosec"].value)
 
     def createDescription(self):
         t0 = self["/packet[0]"].getTimestamp()
-- 
2.43.0


From 51b2f7d6864d87c9e6a5b9e1feec57ff6e307d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:55 +0000
Subject: [PATCH 134/160] fix: ELF: the program headers are where the header
 says

---
 hachoir/parser/program/elf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/parser/program/elf.py b/hachoir/parser/program/elf.py
index fcb3f39..a1888f5 100644
--- a/hachoir/parser/program/elf.py
+++ b/hachoir/parser/program/elf.py
@@ -348,6 +348,8 @@ class ElfFile(HachoirParser, RootSeekableFieldSet):
         yield ElfHeader(self, "header", "Header")
         self.is64bit = (self["header/class"].value == 2)
 
+        if self["header/phnum"].value:
+            self.seekByte(self["header/phoff"].value, relative=False)
         for index in range(self["header/phnum"].value):
             if self.is64bit:
                 yield ProgramHeader64(self, "prg_header[]")
-- 
2.43.0


From 35603cc46f8335469e45f118936f49659007bcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:54 +0000
Subject: [PATCH 135/160] fix: Java class: description of fields, wide opcode,
 finally handlers

---
 hachoir/parser/program/java.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/hachoir/parser/program/java.py b/hachoir/parser/program/java.py
index 1ad9c6d..cea674b 100644
--- a/hachoir/parser/program/java.py
+++ b/hachoir/parser/program/java.py
@@ -414,11 +414,11 @@ class OpcodeSpecial_wide(JavaOpcode):
         yield UInt16(self, "index")
         if op == "iinc":
             yield Int16(self, "value")
-            self.createDisplay = lambda self: "%s(%i,%i)" % (
-                self.op, self["index"].value, self["value"].value)
-        else:
-            self.createDisplay = lambda self: "%s(%i)" % (
-                self.op, self["index"].value)
+
+    def createDisplay(self):
+        if "value" in self:
+            return "%s(%i,%i)" % (self.op, self["index"].value, self["value"].value)
+        return "%s(%i)" % (self.op, self["index"].value)
 
 
 class OpcodeSpecial_invokeinterface(JavaOpcode):
@@ -934,8 +934,8 @@ class FieldInfo(FieldSet):
             if self[mod].value:
                 bits.append(mod)
         bits.append(parse_field_descriptor(
-            self['descriptor_index'].rawvalue()),
-            name=self['name_index'].rawvalue())
+            self['descriptor_index'].rawvalue(),
+            name=self['name_index'].rawvalue()))
         return ' '.join(bits)
 
 
@@ -1153,7 +1153,8 @@ class ExceptionTableEntry(FieldSet):
         yield textHandler(UInt16(self, "start_pc"), hexadecimal)
         yield textHandler(UInt16(self, "end_pc"), hexadecimal)
         yield textHandler(UInt16(self, "handler_pc"), hexadecimal)
-        yield CPIndex(self, "catch_type", target_types="Class")
+        # Zero: catch everything (finally)
+        yield CPIndex(self, "catch_type", target_types="Class", allow_zero=True)
 
 
 class InnerClassesEntry(StaticFieldSet):
@@ -1343,7 +1344,8 @@ class JavaCompiledClassFile(Parser):
         yield Bit(self, "public", description="Declared public; may be accessed from outside its package. ")
 
         yield CPIndex(self, "this_class", "Class name", target_types="Class")
-        yield CPIndex(self, "super_class", "Super class name", target_types="Class")
+        # Zero: java.lang.Object has no super class
+        yield CPIndex(self, "super_class", "Super class name", target_types="Class", allow_zero=True)
         yield UInt16(self, "interfaces_count", "Number of implemented interfaces")
         if self["interfaces_count"].value > 0:
             yield FieldArray(self, "interfaces", CPIndex,
-- 
2.43.0


From a3e3dbfe3d220af15a0ec0dff90ec1812809dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:43 +0000
Subject: [PATCH 136/160] fix: compiled Python: Unicode and empty constants,
 slices, final 3.11 magic

Unicode constants were bytes, empty texts had no value, the value of a
slice raised an error, and the magic number of the released Python 3.11
was unknown.
---
 hachoir/parser/program/python.py | 45 +++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/hachoir/parser/program/python.py b/hachoir/parser/program/python.py
index 4be46bb..637f8cf 100644
--- a/hachoir/parser/program/python.py
+++ b/hachoir/parser/program/python.py
@@ -33,6 +33,12 @@ if DISASSEMBLE:
 # --- String and string reference ---
 
 
+def isUnicode(parent):
+    # Python 3 only interns Unicode strings
+    return (parent.code_info[0] == "unicode"
+            or (parent.code_info[0] == "interned" and 0x3000000 <= parent.root.getVersion()))
+
+
 def parseString(parent):
     yield UInt32(parent, "length", "Length")
     length = parent["length"].value
@@ -49,7 +55,10 @@ def parseString(parent):
             line_number += line_number_delta.value
             line_number_delta._description = 'Line Number %i' % line_number
     elif 0 < length:
-        yield RawBytes(parent, "text", length, "Content")
+        if isUnicode(parent):
+            yield String(parent, "text", length, "Content", charset="UTF-8")
+        else:
+            yield RawBytes(parent, "text", length, "Content")
     if DISASSEMBLE and parent.name == "compiled_code":
         disassembleBytecode(parent["text"])
 
@@ -57,6 +66,8 @@ def parseString(parent):
 def createStringValue(parent):
     if parent.name == "lnotab":
         return "<lnotab>"
+    if not parent["length"].value:
+        return "" if isUnicode(parent) else b""
     return parent["text"]
 
 
@@ -173,22 +184,25 @@ def parseDict(parent):
     Format is: (key1, value1, key2, value2, ..., keyn, valuen, NULL)
     where each keyi and valuei is an object.
     """
-    parent.count = 0
     while True:
         key = Object(parent, "key[]")
         yield key
         if key["bytecode"].value == "0":
             break
         yield Object(parent, "value[]")
-        parent.count += 1
+
+
+def countKeys(parent):
+    # -1: the last key is NULL
+    return "%s keys" % (len(list(parent.array("key"))) - 1)
 
 
 def createDictDesc(parent):
-    return "Dict: %s" % ("%s keys" % parent.count)
+    return "Dict: %s" % countKeys(parent)
 
 
 def createFrozendictDesc(parent):
-    return "Frozendict: %s" % ("%s keys" % parent.count)
+    return "Frozendict: %s" % countKeys(parent)
 
 
 def createDictValue(parent):
@@ -222,6 +236,12 @@ def parseASCII(parent):
         yield String(parent, "text", size.value, "String content", charset="ASCII")
 
 
+def createASCIIValue(parent):
+    if not parent["len"].value:
+        return ""
+    return parent["text"]
+
+
 def parseShortASCII(parent):
     size = UInt8(parent, "len", "Number of ASCII characters")
     yield size
@@ -234,6 +254,10 @@ def parseSlice(parent):
     yield Object(parent, "stop")
     yield Object(parent, "step")
 
+
+def createSliceValue(parent):
+    return slice(parent["start"].value, parent["stop"].value, parent["step"].value)
+
 # --- Code ---
 
 
@@ -319,11 +343,11 @@ class Object(FieldSet):
         '}': ("frozendict", parseDict, "Frozendict", createFrozendictDesc, createDictValue),
         'c': ("code", parseCode, "Code", None, None),
         'r': ("ref", parseRef, "Reference", createRefDesc, createRefValue),
-        'a': ("ascii", parseASCII, "ASCII", None, createStringValue),
-        'A': ("ascii_interned", parseASCII, "ASCII interned", None, createStringValue),
-        'z': ("short_ascii", parseShortASCII, "Short ASCII", None, createStringValue),
-        'Z': ("short_ascii_interned", parseShortASCII, "Short ASCII interned", None, createStringValue),
-        ':': ("slice", parseSlice, "Slice", None, createStringValue),
+        'a': ("ascii", parseASCII, "ASCII", None, createASCIIValue),
+        'A': ("ascii_interned", parseASCII, "ASCII interned", None, createASCIIValue),
+        'z': ("short_ascii", parseShortASCII, "Short ASCII", None, createASCIIValue),
+        'Z': ("short_ascii_interned", parseShortASCII, "Short ASCII interned", None, createASCIIValue),
+        ':': ("slice", parseSlice, "Slice", None, createSliceValue),
     }
 
     def __init__(self, parent, name, **kw):
@@ -564,6 +588,7 @@ class PythonCompiledFile(Parser):
         3492: ("Python 3.11a7", VERSION(3, 11)),
         3493: ("Python 3.11a7", VERSION(3, 11)),
         3494: ("Python 3.11a7", VERSION(3, 11)),
+        3495: ("Python 3.11a7", VERSION(3, 11)),
 
         # Python 3.12
         3500: ("Python 3.12a1", VERSION(3, 12)),
-- 
2.43.0


From d8327ed044a8f6510e5bdebfcb23635d82709858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:29 +0000
Subject: [PATCH 137/160] doc: leave the example of the editor as it was

---
 doc/examples/editor_add_extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/examples/editor_add_extra.py b/doc/examples/editor_add_extra.py
index 04f8c5a..378cb47 100644
--- a/doc/examples/editor_add_extra.py
+++ b/doc/examples/editor_add_extra.py
@@ -6,7 +6,7 @@ from hachoir.editor import EditableInteger, EditableBytes
 parser = createParser("file.gz")
 with parser:
     editor = createEditor(parser)
-    extra = b"abcd"
+    extra = "abcd"
     editor["has_extra"].value = True
     editor.insertAfter("os",
                        EditableInteger(editor, "extra_length", False,
-- 
2.43.0


From 0ba27ae137fa1a419226ea382a258a0889667eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:18 +0000
Subject: [PATCH 138/160] fix: Linux swap: number of pages in the description

---
 hachoir/parser/file_system/linux_swap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/file_system/linux_swap.py b/hachoir/parser/file_system/linux_swap.py
index 79e1c83..b521ba1 100644
--- a/hachoir/parser/file_system/linux_swap.py
+++ b/hachoir/parser/file_system/linux_swap.py
@@ -71,8 +71,8 @@ class LinuxSwapFile(Parser):
         Number of pages which can really be used for swapping:
         number of page minus bad pages minus one page (used for the header)
         """
-        # -1 because first page is used for the header
-        return self["last_page"].value - self["nb_badpage"].value - 1
+        # last_page is the number of pages minus one: the header page
+        return self["last_page"].value - self["nb_badpage"].value
 
     def createDescription(self):
         if self["magic"].value == "S1SUSPEND\0":
-- 
2.43.0


From 2699928e1ed4700fef30a0e4c4608d3eab76db66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:18 +0000
Subject: [PATCH 139/160] fix: EXE: version information, size of a program for
 MS-DOS

---
 hachoir/parser/program/exe.py     |  5 +++--
 hachoir/parser/program/exe_res.py | 19 ++++++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/program/exe.py b/hachoir/parser/program/exe.py
index d0f8ad0..e4951f0 100644
--- a/hachoir/parser/program/exe.py
+++ b/hachoir/parser/program/exe.py
@@ -218,8 +218,9 @@ class ExeFile(HachoirParser, RootSeekableFieldSet):
             # TODO: Guess NE size
             return None
         else:
-            size = self["msdos/size_mod_512"].value + \
+            # size_mod_512 is zero if the last page is full
+            size = (self["msdos/size_mod_512"].value or 512) + \
                 (self["msdos/size_div_512"].value - 1) * 512
-            if size < 0:
+            if size <= 0:
                 return None
         return size * 8
diff --git a/hachoir/parser/program/exe_res.py b/hachoir/parser/program/exe_res.py
index e943b81..f7ffaea 100644
--- a/hachoir/parser/program/exe_res.py
+++ b/hachoir/parser/program/exe_res.py
@@ -102,19 +102,28 @@ class VersionInfoBinary(FieldSet):
         yield Bit(self, "special_build")
         yield NullBits(self, "reserved", 26)
 
-        yield Enum(textHandler(UInt16(self, "file_os_major"), hexadecimal), MAJOR_OS_NAME)
+        # 32-bit integer (major << 16) + minor
         yield Enum(textHandler(UInt16(self, "file_os_minor"), hexadecimal), MINOR_OS_NAME)
+        yield Enum(textHandler(UInt16(self, "file_os_major"), hexadecimal), MAJOR_OS_NAME)
         yield Enum(textHandler(UInt32(self, "file_type"), hexadecimal), FILETYPE_NAME)
         field = textHandler(UInt32(self, "file_subfile"), hexadecimal)
-        if field.value == FILETYPE_DRIVER:
+        if self["file_type"].value == FILETYPE_DRIVER:
             field = Enum(field, DRIVER_SUBTYPE_NAME)
-        elif field.value == FILETYPE_FONT:
+        elif self["file_type"].value == FILETYPE_FONT:
             field = Enum(field, FONT_SUBTYPE_NAME)
         yield field
         yield TimestampUnix32(self, "date_ms")
         yield TimestampUnix32(self, "date_ls")
 
 
+def versionNodeSize(node):
+    # A node is padded to 32 bits, except if it is at the end of its parent
+    size = alignValue(node["size"].value, 4) * 8
+    if node.parent.size is not None:
+        size = min(size, node.parent.size - node.address)
+    return size
+
+
 class VersionInfoNode(FieldSet):
     TYPE_STRING = 1
     TYPE_NAME = {
@@ -124,7 +133,7 @@ class VersionInfoNode(FieldSet):
 
     def __init__(self, parent, name, is_32bit=True):
         FieldSet.__init__(self, parent, name)
-        self._size = alignValue(self["size"].value, 4) * 8
+        self._size = versionNodeSize(self)
         self.is_32bit = is_32bit
 
     def createFields(self):
@@ -481,7 +490,7 @@ class NE_VersionInfoNode(FieldSet):
 
     def __init__(self, parent, name):
         FieldSet.__init__(self, parent, name)
-        self._size = alignValue(self["size"].value, 4) * 8
+        self._size = versionNodeSize(self)
 
     def createFields(self):
         yield UInt16(self, "size", "Node size (in bytes)")
-- 
2.43.0


From 32b5003108bc8069e6650ebceb6611fdabf0056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:05 +0000
Subject: [PATCH 140/160] fix: ISO 9660: numbers in both byte orders

---
 hachoir/parser/file_system/iso9660.py | 39 ++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/file_system/iso9660.py b/hachoir/parser/file_system/iso9660.py
index ecac4a3..69db2e1 100644
--- a/hachoir/parser/file_system/iso9660.py
+++ b/hachoir/parser/file_system/iso9660.py
@@ -16,6 +16,31 @@ from hachoir.field import (FieldSet, ParserError,
 from hachoir.core.endian import LITTLE_ENDIAN, BIG_ENDIAN
 
 
+class BothEndian32(UInt32):
+    """
+    16-bit number in little endian, then in big endian
+    """
+
+    def createValue(self):
+        return UInt32.createValue(self) & 0xFFFF
+
+
+class BothEndian64(UInt64):
+    """
+    32-bit number in little endian, then in big endian
+    """
+
+    def createValue(self):
+        return UInt64.createValue(self) & 0xFFFFFFFF
+
+
+class LittleEndian32(UInt32):
+
+    def createValue(self):
+        return self._parent.stream.readInteger(
+            self.absolute_address, self.signed, self._size, LITTLE_ENDIAN)
+
+
 class PrimaryVolumeDescriptor(FieldSet):
     static_size = 2041 * 8
 
@@ -24,14 +49,14 @@ class PrimaryVolumeDescriptor(FieldSet):
         yield String(self, "system_id", 32, "System identifier", strip=" ")
         yield String(self, "volume_id", 32, "Volume identifier", strip=" ")
         yield NullBytes(self, "unused[]", 8)
-        yield UInt64(self, "space_size", "Volume space size")
+        yield BothEndian64(self, "space_size", "Volume space size")
         yield NullBytes(self, "unused[]", 32)
-        yield UInt32(self, "set_size", "Volume set size")
-        yield UInt32(self, "seq_num", "Sequence number")
-        yield UInt32(self, "block_size", "Block size")
-        yield UInt64(self, "path_table_size", "Path table size")
-        yield UInt32(self, "occu_lpath", "Location of Occurrence of Type L Path Table")
-        yield UInt32(self, "opt_lpath", "Location of Optional of Type L Path Table")
+        yield BothEndian32(self, "set_size", "Volume set size")
+        yield BothEndian32(self, "seq_num", "Sequence number")
+        yield BothEndian32(self, "block_size", "Block size")
+        yield BothEndian64(self, "path_table_size", "Path table size")
+        yield LittleEndian32(self, "occu_lpath", "Location of Occurrence of Type L Path Table")
+        yield LittleEndian32(self, "opt_lpath", "Location of Optional of Type L Path Table")
         yield UInt32(self, "occu_mpath", "Location of Occurrence of Type M Path Table")
         yield UInt32(self, "opt_mpath", "Location of Optional of Type M Path Table")
         yield RawBytes(self, "root", 34, "Directory Record for Root Directory")
-- 
2.43.0


From be6673db3e8f245b84d15935201ddfaed77187eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:05 +0000
Subject: [PATCH 141/160] fix: ASN.1: sets, BMP strings, first numbers of an
 object identifier

---
 hachoir/parser/container/asn1.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/hachoir/parser/container/asn1.py b/hachoir/parser/container/asn1.py
index 2d849af..41e396e 100644
--- a/hachoir/parser/container/asn1.py
+++ b/hachoir/parser/container/asn1.py
@@ -105,10 +105,6 @@ def readSequence(self, content_size):
         yield Object(self, "item[]")
 
 
-def readSet(self, content_size):
-    yield Object(self, "value", size=content_size * 8)
-
-
 def readASCIIString(self, content_size):
     yield String(self, "value", content_size, charset="ASCII")
 
@@ -118,7 +114,11 @@ def readUTF8String(self, content_size):
 
 
 def readBMPString(self, content_size):
-    yield String(self, "value", content_size, charset="UTF-16")
+    yield String(self, "value", content_size, charset="UTF-16-BE")
+
+
+def readUniversalString(self, content_size):
+    yield String(self, "value", content_size, charset="UTF-32BE")
 
 
 def readBitString(self, content_size):
@@ -139,7 +139,7 @@ def formatObjectID(fieldset):
 
 
 def readObjectID(self, content_size):
-    yield textHandler(UInt8(self, "first"), formatFirstObjectID)
+    yield textHandler(OID_Integer(self, "first"), formatFirstObjectID)
     while self.current_size < self.size:
         yield OID_Integer(self, "item[]")
 
@@ -160,7 +160,9 @@ def readInteger(self, content_size):
 
 def formatFirstObjectID(field):
     value = field.value
-    return "%u.%u" % (value // 40, value % 40)
+    # The first number is 0, 1 or 2
+    first = min(value // 40, 2)
+    return "%u.%u" % (first, value - first * 40)
 
 
 def formatValue(fieldset):
@@ -212,7 +214,7 @@ class Object(FieldSet):
         14: ("time[]", None, "Time", None),  # TODO: Write parser
         # 15: invalid??? sequence of???
         16: ("seq[]", readSequence, "Sequence", None),
-        17: ("set[]", readSet, "Set", None),
+        17: ("set[]", readSequence, "Set", None),
         18: ("num_str[]", readASCIIString, "Numeric string", None),
         19: ("print_str[]", readASCIIString, "Printable string", formatValue),
         20: ("teletex_str[]", readASCIIString, "Teletex (T61, None) string", None),
@@ -223,7 +225,7 @@ class Object(FieldSet):
         25: ("graphic_str[]", readASCIIString, "Graphic string", None),
         26: ("visible_str[]", readASCIIString, "Visible (ISO64, None) string", None),
         27: ("general_str[]", readASCIIString, "General string", None),
-        28: ("universal_str[]", readASCIIString, "Universal string", None),
+        28: ("universal_str[]", readUniversalString, "Universal string", None),
         29: ("unrestricted_str[]", readASCIIString, "Unrestricted string", None),
         30: ("bmp_str[]", readBMPString, "BMP string", None),
         # 31: multiple octet tag number, TODO: not supported
-- 
2.43.0


From 652d5f01d2586266a9634ebbc8b934edc948ab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:02 +0000
Subject: [PATCH 142/160] fix: TrueType: flags, signed numbers, GSUB, DSIG and
 variation tables

---
 hachoir/parser/misc/ttf.py | 131 ++++++++++++++++++++-----------------
 1 file changed, 72 insertions(+), 59 deletions(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index bce6709..862c595 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -20,6 +20,7 @@ from hachoir.field import (
     UInt16,
     UInt24,
     UInt32,
+    Int8,
     Int16,
     Bit,
     Bits,
@@ -81,9 +82,10 @@ PLATFORM_NAME = {
 
 CHARSET_MAP = {
     # (platform, encoding) => charset
-    0: {3: "UTF-16-BE"},
+    0: {0: "UTF-16-BE", 1: "UTF-16-BE", 2: "UTF-16-BE", 3: "UTF-16-BE",
+        4: "UTF-16-BE", 6: "UTF-16-BE"},
     1: {0: "MacRoman"},
-    3: {1: "UTF-16-BE"},
+    3: {0: "UTF-16-BE", 1: "UTF-16-BE", 10: "UTF-16-BE"},
 }
 
 PERMISSIONS = {
@@ -115,7 +117,7 @@ class Version16Dot16(FieldSet):
 
 class Fixed(FieldSet):
     def createFields(self):
-        yield UInt16(self, "int_part")
+        yield Int16(self, "int_part")
         yield UInt16(self, "float_part")
 
     def createValue(self):
@@ -187,22 +189,22 @@ def parseFontHeader(self):
     if self["magic"].value != b"\x5F\x0F\x3C\xF5":
         raise ParserError("TTF: invalid magic of font header")
 
-    # Flags
-    yield Bit(self, "y0", "Baseline at y=0")
-    yield Bit(self, "x0", "Left sidebearing point at x=0")
-    yield Bit(self, "instr_point", "Instructions may depend on point size")
-    yield Bit(self, "ppem", "Force PPEM to integer values for all")
-    yield Bit(self, "instr_width", "Instructions may alter advance width")
-    yield Bit(self, "vertical", "e laid out vertically?")
-    yield PaddingBits(self, "reserved[]", 1)
-    yield Bit(self, "linguistic", "Requires layout for correct linguistic rendering?")
-    yield Bit(self, "gx", "Metamorphosis effects?")
-    yield Bit(self, "strong", "Contains strong right-to-left glyphs?")
-    yield Bit(self, "indic", "contains Indic-style rearrangement effects?")
-    yield Bit(self, "lossless", "Data is lossless (Agfa MicroType compression)")
-    yield Bit(self, "converted", "Font converted (produce compatible metrics)")
-    yield Bit(self, "cleartype", "Optimised for ClearType")
+    # Flags (from the bit 15 to the bit 0)
     yield Bits(self, "adobe", 2, "(used by Adobe)")
+    yield Bit(self, "cleartype", "Optimised for ClearType")
+    yield Bit(self, "converted", "Font converted (produce compatible metrics)")
+    yield Bit(self, "lossless", "Data is lossless (Agfa MicroType compression)")
+    yield Bit(self, "indic", "contains Indic-style rearrangement effects?")
+    yield Bit(self, "strong", "Contains strong right-to-left glyphs?")
+    yield Bit(self, "gx", "Metamorphosis effects?")
+    yield Bit(self, "linguistic", "Requires layout for correct linguistic rendering?")
+    yield PaddingBits(self, "reserved[]", 1)
+    yield Bit(self, "vertical", "e laid out vertically?")
+    yield Bit(self, "instr_width", "Instructions may alter advance width")
+    yield Bit(self, "ppem", "Force PPEM to integer values for all")
+    yield Bit(self, "instr_point", "Instructions may depend on point size")
+    yield Bit(self, "x0", "Left sidebearing point at x=0")
+    yield Bit(self, "y0", "Baseline at y=0")
 
     yield UInt16(self, "unit_per_em", "Units per em")
     if not (16 <= self["unit_per_em"].value <= 16384):
@@ -211,23 +213,23 @@ def parseFontHeader(self):
     yield TimestampMac32(self, "created")
     yield UInt32(self, "modified_high")
     yield TimestampMac32(self, "modified")
-    yield UInt16(self, "xmin")
-    yield UInt16(self, "ymin")
-    yield UInt16(self, "xmax")
-    yield UInt16(self, "ymax")
+    yield Int16(self, "xmin")
+    yield Int16(self, "ymin")
+    yield Int16(self, "xmax")
+    yield Int16(self, "ymax")
 
-    # Mac style
-    yield Bit(self, "bold")
-    yield Bit(self, "italic")
-    yield Bit(self, "underline")
-    yield Bit(self, "outline")
-    yield Bit(self, "shadow")
-    yield Bit(self, "condensed", "(narrow)")
-    yield Bit(self, "expanded")
+    # Mac style (from the bit 15 to the bit 0)
     yield PaddingBits(self, "reserved[]", 9)
+    yield Bit(self, "expanded")
+    yield Bit(self, "condensed", "(narrow)")
+    yield Bit(self, "shadow")
+    yield Bit(self, "outline")
+    yield Bit(self, "underline")
+    yield Bit(self, "italic")
+    yield Bit(self, "bold")
 
     yield UInt16(self, "lowest", "Smallest readable size in pixels")
-    yield Enum(UInt16(self, "font_dir", "Font direction hint"), DIRECTION_NAME)
+    yield Enum(Int16(self, "font_dir", "Font direction hint"), DIRECTION_NAME)
     yield Enum(UInt16(self, "ofst_format"), {0: "short offsets", 1: "long"})
     yield UInt16(self, "glyph_format", "(=0)")
 
@@ -317,7 +319,7 @@ def parseFvar(self):
                 "instances[]",
                 axisCount=self["axisCount"].value,
                 hasPSNameID=(
-                    self["instanceSize"].value == (2 * self["axisCount"].value + 6)
+                    self["instanceSize"].value == (4 * self["axisCount"].value + 6)
                 ),
             )
         )
@@ -434,22 +436,22 @@ def parseCmap(self):
             yield padding
         format = UInt16(self, "format").value
         if format == 0:
-            yield CmapTable0(self, "cmap table format 0")
+            yield CmapTable0(self, "cmap table format 0[]")
         elif format == 4:
-            yield CmapTable4(self, "cmap table format 4")
+            yield CmapTable4(self, "cmap table format 4[]")
         elif format == 6:
-            yield CmapTable6(self, "cmap table format 6")
+            yield CmapTable6(self, "cmap table format 6[]")
         elif format == 12:
-            yield CmapTable12(self, "cmap table format 12")
+            yield CmapTable12(self, "cmap table format 12[]")
         elif format == 14:
-            yield CmapTable14(self, "cmap table format 14")
+            yield CmapTable14(self, "cmap table format 14[]")
 
 
 class SignatureRecord(FieldSet):
     def createFields(self):
-        yield UInt16(self, "format", "Table format")
-        yield UInt16(self, "length", "Length of signature")
-        yield UInt16(self, "signatureBlockOffset", "Offset to signature block")
+        yield UInt32(self, "format", "Table format")
+        yield UInt32(self, "length", "Length of signature")
+        yield UInt32(self, "signatureBlockOffset", "Offset to signature block")
 
 
 class SignatureBlock(FieldSet):
@@ -460,14 +462,15 @@ class SignatureBlock(FieldSet):
             "length",
             "Length (in bytes) of the PKCS#7 packet in the signature field",
         )
-        yield String(self, "signature", self["length"].value, "Signature block")
+        if self["length"].value:
+            yield RawBytes(self, "signature", self["length"].value, "Signature block")
 
 
 def parseDSIG(self):
     yield UInt32(self, "version")
     yield UInt16(self, "numSignatures", "Number of signatures in the table")
+    yield PaddingBits(self, "reserved[]", 15)
     yield Bit(self, "flag", "Cannot be resigned")
-    yield PaddingBits(self, "reserved[]", 7)
     entries = []
     for i in range(self["numSignatures"].value):
         record = SignatureRecord(self, "signatureRecords[]")
@@ -484,6 +487,7 @@ def parseDSIG(self):
         padding = self.seekByte(offset, relative=True, null=False)
         if padding:
             yield padding
+        yield SignatureBlock(self, "signatureBlock[]")
 
     padding = (self.size - self.current_size) // 8
     if padding:
@@ -591,15 +595,16 @@ def parseHhea(self):
 
 class fsType(FieldSet):
     def createFields(self):
-        yield Enum(Bits(self, "usage_permissions", 4), PERMISSIONS)
-        yield PaddingBits(self, "reserved[]", 4)
-        yield Bit(self, "no_subsetting", "Font may not be subsetted prior to embedding")
+        # From the bit 15 to the bit 0
+        yield PaddingBits(self, "reserved[]", 6)
         yield Bit(
             self,
             "bitmap_embedding",
             "Only bitmaps contained in the font may be embedded",
         )
-        yield PaddingBits(self, "reserved[]", 6)
+        yield Bit(self, "no_subsetting", "Font may not be subsetted prior to embedding")
+        yield PaddingBits(self, "reserved[]", 4)
+        yield Enum(Bits(self, "usage_permissions", 4), PERMISSIONS)
 
 
 def parseOS2(self):
@@ -671,16 +676,20 @@ def parsePost(self):
             "glyphNameIndex",
         )
         yield indices
+        # The names are sorted by their index
+        names = {}
         for gid, index in enumerate(indices):
             if index.value >= 258:
-                yield PascalString8(self, "glyphname[%i]" % gid)
-    elif self["version"].value == 2.0:
+                names.setdefault(index.value, gid)
+        for index in sorted(names):
+            yield PascalString8(self, "glyphname[%i]" % names[index])
+    elif self["version"].value == 2.5:
         yield UInt16(self, "numGlyphs")
         indices = GenericVector(
             self,
             "Difference between graphic index and standard order of glyph",
             self["numGlyphs"].value,
-            UInt16,
+            Int8,
             "offset",
         )
         yield indices
@@ -708,21 +717,24 @@ def parseGSUB(self):
         )
         yield offset
         offsets.append((offset.value, parser))
-    if self["min_ver"].value == 1:
+    if self["minorVersion"].value == 1:
         offset = UInt32(
             self, "featureVariationsOffset", "Offset to feature variations table"
         )
+        yield offset
         offsets.append((offset.value, parseFeatureVariationsTable))
 
-    offsets.sort(key=lambda field: field[0])
-    padding = self.seekByte(offsets[0][0], null=True)
+    # An offset is null if there is no such table
+    offsets = sorted({offset for offset, parser in offsets if offset})
+    if not offsets:
+        return
+    padding = self.seekByte(offsets[0], null=True)
     if padding:
         yield padding
-    lastOffset, first_parser = offsets[0]
-    for offset, parser in offsets[1:]:
+    for start, end in zip(offsets, offsets[1:] + [self.size // 8]):
         # yield parser(self)
-        yield RawBytes(self, "content", offset - lastOffset)
-        lastOffset = offset
+        if start < end:
+            yield RawBytes(self, "content[]", end - start)
 
 
 class Table(FieldSet):
@@ -797,12 +809,13 @@ class TrueTypeFontFile(Parser):
             tables.append(table)
         tables.sort(key=lambda field: field["offset"].value)
         for table in tables:
+            size = table["size"].value
+            if not size:
+                continue
             padding = self.seekByte(table["offset"].value, null=True)
             if padding:
                 yield padding
-            size = table["size"].value
-            if size:
-                yield Table(self, "table[]", table, size=size * 8)
+            yield Table(self, "table[]", table, size=size * 8)
         padding = self.seekBit(self.size, null=True)
         if padding:
             yield padding
-- 
2.43.0


From 208fb379e83eea824f05954c417169be77944ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:21 +0000
Subject: [PATCH 143/160] fix: LNK: structures of the location in the order of
 their offsets, order of the times

---
 hachoir/parser/misc/lnk.py | 55 +++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/hachoir/parser/misc/lnk.py b/hachoir/parser/misc/lnk.py
index b003f82..9735b6f 100644
--- a/hachoir/parser/misc/lnk.py
+++ b/hachoir/parser/misc/lnk.py
@@ -98,7 +98,7 @@ class ItemId(FieldSet):
         elif entrytype == 0x2E:
             # Shell extension
             yield RawBytes(self, "dummy", 1, "should be 0x50")
-            if self["dummy"].value == '\0':
+            if self["dummy"].value == b'\0':
                 yield UInt16(self, "length_data", "Length of shell extension-specific data")
                 if self["length_data"].value:
                     yield RawBytes(self, "data", self["length_data"].value, "Shell extension-specific data")
@@ -234,7 +234,7 @@ class FileLocationInfo(FieldSet):
             return
 
         yield UInt32(self, "first_offset_pos", "Position of first offset")
-        has_unicode_paths = (self["first_offset_pos"].value == 0x24)
+        has_unicode_paths = (self["first_offset_pos"].value >= 0x24)
         yield Bit(self, "on_local_volume")
         yield Bit(self, "on_network_volume")
         yield PaddingBits(self, "reserved[]", 30)
@@ -245,39 +245,34 @@ class FileLocationInfo(FieldSet):
         if has_unicode_paths:
             yield UInt32(self, "local_pathname_unicode_offset", "Offset to Unicode version of local base pathname; only meaningful if on_local_volume = 1")
             yield UInt32(self, "pathname_unicode_offset", "Offset to Unicode version of remaining pathname")
+        # (offset, field class, name, description, field arguments)
+        items = []
         if self["on_local_volume"].value:
-            padding = self.seekByte(self["local_info_offset"].value)
-            if padding:
-                yield padding
-            yield LocalVolumeTable(self, "local_volume_table", "Local Volume Table")
-
-            padding = self.seekByte(self["local_pathname_offset"].value)
-            if padding:
-                yield padding
-            yield CString(self, "local_base_pathname", "Local Base Pathname")
+            items.append((self["local_info_offset"].value, LocalVolumeTable,
+                          "local_volume_table", "Local Volume Table", {}))
+            items.append((self["local_pathname_offset"].value, CString,
+                          "local_base_pathname", "Local Base Pathname", {}))
             if has_unicode_paths:
-                padding = self.seekByte(
-                    self["local_pathname_unicode_offset"].value)
-                if padding:
-                    yield padding
-                yield CString(self, "local_base_pathname_unicode", "Local Base Pathname in Unicode", charset="UTF-16-LE")
-
+                items.append((self["local_pathname_unicode_offset"].value, CString,
+                              "local_base_pathname_unicode", "Local Base Pathname in Unicode",
+                              {"charset": "UTF-16-LE"}))
         if self["on_network_volume"].value:
-            padding = self.seekByte(self["remote_info_offset"].value)
-            if padding:
-                yield padding
-            yield NetworkVolumeTable(self, "network_volume_table")
-
-        padding = self.seekByte(self["pathname_offset"].value)
-        if padding:
-            yield padding
-        yield CString(self, "final_pathname", "Final component of the pathname")
-
+            items.append((self["remote_info_offset"].value, NetworkVolumeTable,
+                          "network_volume_table", None, {}))
+        items.append((self["pathname_offset"].value, CString,
+                      "final_pathname", "Final component of the pathname", {}))
         if has_unicode_paths:
-            padding = self.seekByte(self["pathname_unicode_offset"].value)
+            items.append((self["pathname_unicode_offset"].value, CString,
+                          "final_pathname_unicode", "Final component of the pathname in Unicode",
+                          {"charset": "UTF-16-LE"}))
+
+        # The order of the structures is not fixed
+        items.sort(key=lambda item: item[0])
+        for offset, cls, name, description, args in items:
+            padding = self.seekByte(offset)
             if padding:
                 yield padding
-            yield CString(self, "final_pathname_unicode", "Final component of the pathname in Unicode", charset="UTF-16-LE")
+            yield cls(self, name, description, **args)
 
         padding = self.seekByte(self["length"].value)
         if padding:
@@ -606,8 +601,8 @@ class LnkFile(Parser):
         yield MSDOSFileAttr32(self, "target_attr")
 
         yield TimestampWin64(self, "creation_time")
-        yield TimestampWin64(self, "modification_time")
         yield TimestampWin64(self, "last_access_time")
+        yield TimestampWin64(self, "modification_time")
         yield filesizeHandler(UInt32(self, "target_filesize"))
         yield UInt32(self, "icon_number")
         yield Enum(UInt32(self, "show_window"), self.SHOW_WINDOW_STATE)
-- 
2.43.0


From 45a98ed25edcea9075e0b64817f2b3ea6f1909fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:41 +0000
Subject: [PATCH 144/160] fix: GIF: codes of 12 bits, clear codes after the
 width has grown

---
 hachoir/parser/image/gif.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/hachoir/parser/image/gif.py b/hachoir/parser/image/gif.py
index cdb21fd..5f072c5 100644
--- a/hachoir/parser/image/gif.py
+++ b/hachoir/parser/image/gif.py
@@ -76,16 +76,11 @@ class GifImageBlock(Parser):
         obuf = []
         output = []
         while True:
-            if compress_code >= 2**self.nbits:
+            # Codes have up to 12 bits: a full table stays as it is
+            if compress_code >= 2**self.nbits and self.nbits < 12:
                 self.nbits += 1
             code = Bits(self, "code[]", self.nbits)
             if code.value == CLEAR_CODE:
-                if compress_code == 2**(self.nbits - 1):
-                    # this fixes a bizarre edge case where the reset code could
-                    # appear just after the bits incremented. Apparently, the
-                    # correct behaviour is to express the reset code with the
-                    # old number of bits, not the new...
-                    code = Bits(self, "code[]", self.nbits - 1)
                 self.nbits = self.startbits + 1
                 dictionary = {}
                 compress_code = CLEAR_CODE + 2
@@ -98,7 +93,7 @@ class GifImageBlock(Parser):
                 yield code
                 break
             if code.value < CLEAR_CODE:  # literal
-                if obuf:
+                if obuf and compress_code < 4096:
                     chain = obuf + [code.value]
                     dictionary[compress_code] = chain
                     compress_code += 1
@@ -114,8 +109,9 @@ class GifImageBlock(Parser):
                     chain = obuf + [obuf[0]]
                     code._description = "Compression Code %i (not found in dictionary; guessed to be %s)" % (
                         code.value, rle_repr(chain))
-                dictionary[compress_code] = obuf + [chain[0]]
-                compress_code += 1
+                if compress_code < 4096:
+                    dictionary[compress_code] = obuf + [chain[0]]
+                    compress_code += 1
                 obuf = chain
                 output += chain
             code._description += "; Current Decoded Length %i" % len(output)
-- 
2.43.0


From 3dc8e5d41f8d1d698c89ba5ac7f156d5e3b86d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:59 +0000
Subject: [PATCH 145/160] fix: OLE2: sectors bigger than 512 bytes, signed
 properties, metadata of documents

---
 hachoir/metadata/misc.py                |  5 ++---
 hachoir/parser/misc/msoffice_summary.py |  9 ++++++---
 hachoir/parser/misc/ole2.py             | 11 +++++++----
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/hachoir/metadata/misc.py b/hachoir/metadata/misc.py
index bffdd3a..d5b2de8 100644
--- a/hachoir/metadata/misc.py
+++ b/hachoir/metadata/misc.py
@@ -103,7 +103,6 @@ class OLE2_Metadata(RootMetadata):
     ))
 
     DOC_SUMMARY_ID_TO_ATTR = {
-        3: "title",     # Subject
         14: "author",    # Manager
     }
     IGNORE_DOC_SUMMARY = set((
@@ -152,8 +151,8 @@ class OLE2_Metadata(RootMetadata):
 
     @fault_tolerant
     def useSummary(self, summary, is_doc_summary):
-        if "os" in summary:
-            self.os = summary["os"].display
+        if "os_type" in summary:
+            self.os = summary["os_type"].display
         if "section[0]" not in summary:
             return
         summary = summary["section[0]"]
diff --git a/hachoir/parser/misc/msoffice_summary.py b/hachoir/parser/misc/msoffice_summary.py
index 34c7a35..6839d60 100644
--- a/hachoir/parser/misc/msoffice_summary.py
+++ b/hachoir/parser/misc/msoffice_summary.py
@@ -13,7 +13,7 @@ from hachoir.field import (FieldSet, ParserError,
                            Bit, Bits, NullBits,
                            UInt8, UInt16, UInt32, TimestampWin64, TimedeltaWin64, Enum,
                            Bytes, RawBytes, NullBytes, PaddingBits, String,
-                           Int8, Int32, Float32, Float64, PascalString32)
+                           Int8, Int16, Int32, Float32, Float64, PascalString32)
 from hachoir.core.text_handler import textHandler, hexadecimal, filesizeHandler
 from hachoir.core.tools import createDict, paddingSize
 from hachoir.parser.common.win32 import GUID, PascalStringWin32, CODEPAGE_CHARSET
@@ -215,8 +215,8 @@ class PropertyContent(FieldSet):
     TYPE_INFO = {
         0: ("EMPTY", None),
         1: ("NULL", NullHandler),
-        2: ("UInt16", UInt16),
-        3: ("UInt32", UInt32),
+        2: ("Int16", Int16),
+        3: ("Int32", Int32),
         4: ("Float32", Float32),
         5: ("Float64", Float64),
         6: ("CY", None),
@@ -280,6 +280,9 @@ class PropertyContent(FieldSet):
                     kw["charset"] = osconfig.charset
                 else:
                     kw["charset"] = osconfig.utf16
+            elif handler == Int16:
+                if self.description == "CodePage":
+                    handler = UInt16
             elif handler == TimestampWin64:
                 if self.description == "TotalEditingTime":
                     handler = TimedeltaWin64
diff --git a/hachoir/parser/misc/ole2.py b/hachoir/parser/misc/ole2.py
index 098b3cb..e7fd022 100644
--- a/hachoir/parser/misc/ole2.py
+++ b/hachoir/parser/misc/ole2.py
@@ -124,8 +124,7 @@ class DIFat(SeekableFieldSet):
                 raise ParserError("DIFAT chain: Invalid or repeated sector (0x%08x)" % difat_sect)
             sectors.add(difat_sect)
             # this is relative to real DIFAT start
-            self.seekBit(NB_DIFAT * SECT.static_size +
-                         self.parent.sector_size * difat_sect)
+            self.seekBit(self.parent.getBlockAddress(difat_sect) - self.address)
             for sect_index in range(entries_per_sect):
                 yield SECT(self, "index[%u]" % (index + sect_index))
             index += entries_per_sect
@@ -387,7 +386,11 @@ class OLE2_File(HachoirParser, RootSeekableFieldSet):
         if max_block is None:
             return None
         else:
-            return HEADER_SIZE + (max_block + 1) * self.sector_size
+            return self.getBlockAddress(max_block + 1)
+
+    def getBlockAddress(self, block):
+        # The header takes a whole sector if sectors are bigger than 512 bytes
+        return max(HEADER_SIZE, self.sector_size) + block * self.sector_size
 
     def seekBlock(self, block):
-        self.seekBit(HEADER_SIZE + block * self.sector_size)
+        self.seekBit(self.getBlockAddress(block))
-- 
2.43.0


From 17480f1f1a9a1ce77e1498a15ec879aa906b7c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:27 +0000
Subject: [PATCH 146/160] fix: ext2: padding of the bitmaps, blocks of a group,
 used size

---
 hachoir/parser/file_system/ext2.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index 3dd9ddb..e6f5b02 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -238,7 +238,7 @@ class Inode(FieldSet):
             return out + ' (%d,%d)' % (self['dev_major'].value, self['dev_minor'].value)
         elif filetype == 'l':
             # symlink
-            if self['size'].value <= 60:
+            if 'link_target' in self:
                 return out + ' (-> %s)' % (self['link_target'].value)
         return out
 
@@ -333,14 +333,17 @@ class Bitmap(FieldSet):
     def __init__(self, parent, name, start, count, size, description, **kw):
         description = "%s: %s items" % (description, count)
         FieldSet.__init__(self, parent, name, description, size=size, **kw)
-        self.start = 1 + start
+        self.start = start
         self.count = count
 
     def createFields(self):
         for index in range(self.count):
             yield Bit(self, "item[]", "%s %s" % (self.itemdesc, self.start + index))
-        if self.size > self.count:
-            yield PaddingBytes(self, "padding", (self.size - self.count) // 8, pattern='\xff')
+        if self.count % 8:
+            yield PaddingBits(self, "padding_bits", 8 - self.count % 8)
+        size = (self.size - self.current_size) // 8
+        if size:
+            yield PaddingBytes(self, "padding", size, pattern=b'\xff')
 
 
 class BlockBitmap(Bitmap):
@@ -370,8 +373,8 @@ class GroupDescriptor(FieldSet):
 
     def createDescription(self):
         blocks_per_group = self["/superblock/blocks_per_group"].value
-        start = self.uniq_id * blocks_per_group
-        end = start + blocks_per_group
+        start = self["/superblock/first_data_block"].value + self.uniq_id * blocks_per_group
+        end = min(start + blocks_per_group, self["/superblock/blocks_count"].value) - 1
         return "Group descriptor: blocks %s-%s" % (start, end)
 
     def createFields(self):
@@ -573,7 +576,7 @@ class SuperBlock(FieldSet):
 
         if 16 < self['log_block_size'].value:
             raise ParserError("Invalid (log) block size")
-        yield PaddingBytes(self, "reserved[]", (1024 << self['log_block_size'].value) - self.current_size // 8)
+        yield PaddingBytes(self, "reserved[]", (self.size - self.current_size) // 8)
 
     def _getGroupCount(self):
         if self._group_count is None:
@@ -640,6 +643,13 @@ class Group(SeekableFieldSet):
         size = block_size * self.superblock['blocks_per_group'].value * 8
         SeekableFieldSet.__init__(self, parent, name, size=size)
         self.descriptor = descriptor
+        # The group starts before its bitmaps (copies of the superblock and
+        # of the descriptors)
+        end = self.superblock['first_data_block'].value \
+            + (descriptor.uniq_id + 1) * self.superblock['blocks_per_group'].value
+        end = min(end, self.superblock['blocks_count'].value) * block_size * 8
+        if self.absolute_address < end:
+            self._size = min(size, end - self.absolute_address)
 
     def createDescription(self):
         desc = "Group %s" % (self.descriptor.uniq_id)
@@ -654,7 +664,7 @@ class Group(SeekableFieldSet):
         # Compute number of block and inodes
         block_count = superblock["blocks_per_group"].value
         inode_count = superblock["inodes_per_group"].value
-        block_index = self.descriptor.uniq_id * block_count
+        block_index = superblock["first_data_block"].value + self.descriptor.uniq_id * block_count
         inode_index = self.descriptor.uniq_id * inode_count
         if (block_count % 8) != 0:
             raise ParserError("Invalid block count")
@@ -675,7 +685,7 @@ class Group(SeekableFieldSet):
         yield BlockBitmap(self, "block_bitmap", block_index, block_count, block_bitmap_size, "Block bitmap")
 
         self.seekBlock(self.descriptor["inode_bitmap"].value)
-        yield InodeBitmap(self, "inode_bitmap", inode_index, inode_count, inode_bitmap_size, "Inode bitmap")
+        yield InodeBitmap(self, "inode_bitmap", 1 + inode_index, inode_count, inode_bitmap_size, "Inode bitmap")
 
         self.seekBlock(self.descriptor["inode_table"].value)
         yield InodeTable(self, "inode_table", inode_index, inode_count)
@@ -803,7 +813,7 @@ class EXT2_FS(HachoirParser, RootSeekableFieldSet):
         block_size = 1024 << superblock["log_block_size"].value
         nb_block = superblock["blocks_count"].value
         total = nb_block * block_size
-        used = (superblock["free_blocks_count"].value) * block_size
+        used = (nb_block - superblock["free_blocks_count"].value) * block_size
         desc = "EXT2/EXT3"
         if "group[0]/inode_table/inode[7]/blocks" in self:
             if 0 < self["group[0]/inode_table/inode[7]/blocks"].value:
-- 
2.43.0


From 4664815843815ace09be34d9fe7c8974247b59ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:38 +0000
Subject: [PATCH 147/160] fix: urwid: the name of a file to save is typed after
 the directory

---
 hachoir/urwid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hachoir/urwid.py b/hachoir/urwid.py
index 7be693e..12e41ff 100644
--- a/hachoir/urwid.py
+++ b/hachoir/urwid.py
@@ -518,6 +518,7 @@ class Input(Edit):
         self._tab = tab
         self.set_caption(caption)
         self.set_edit_text(text)
+        self.set_edit_pos(len(text))
         self._end = True  # TODO: find a better way to move the cursor the end.
         self._top[0](AttrWrap(self, 'input'))
 
-- 
2.43.0


From d6acd72d5c909f404103f396f93a47c225cb04df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:38 +0000
Subject: [PATCH 148/160] fix: descriptions and names of the parsers of
 sub-streams

---
 hachoir/parser/archive/cab.py      | 5 ++++-
 hachoir/parser/archive/lzx.py      | 3 +++
 hachoir/parser/image/gif.py        | 3 +++
 hachoir/parser/video/mpeg_video.py | 3 +++
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index e06913f..f6f37ca 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -142,6 +142,9 @@ class DataBlock(FieldSet):
 
 
 class FolderParser(Parser):
+    PARSER_TAGS = {
+        "description": "Content of a folder of a Microsoft Cabinet archive",
+    }
     endian = LITTLE_ENDIAN
 
     def createFields(self):
@@ -168,7 +171,7 @@ class FolderData(FieldSet):
             if folder["compr_method"].value == 3:  # LZX
                 self.uncompressed_data = lzx_decompress(
                     self["block[0]/data"].getSubIStream(), folder["compr_level"].value)
-            return StringInputStream(bytes(self.uncompressed_data), source=source, **args)
+            return StringInputStream(bytes(self.uncompressed_data), source=stream.source, **args)
         self.setSubIStream(createInputStream)
         self.files = files
         self.folder = folder  # Folder fieldset
diff --git a/hachoir/parser/archive/lzx.py b/hachoir/parser/archive/lzx.py
index b321779..9ac7b4c 100644
--- a/hachoir/parser/archive/lzx.py
+++ b/hachoir/parser/archive/lzx.py
@@ -304,6 +304,9 @@ class LZXBlock(FieldSet):
 
 
 class LZXStream(Parser):
+    PARSER_TAGS = {
+        "description": "LZX compressed data",
+    }
     endian = MIDDLE_ENDIAN
 
     def createFields(self):
diff --git a/hachoir/parser/image/gif.py b/hachoir/parser/image/gif.py
index 5f072c5..8caca4a 100644
--- a/hachoir/parser/image/gif.py
+++ b/hachoir/parser/image/gif.py
@@ -65,6 +65,9 @@ def rle_repr(chain):
 
 
 class GifImageBlock(Parser):
+    PARSER_TAGS = {
+        "description": "Image data of GIF picture",
+    }
     endian = LITTLE_ENDIAN
 
     def createFields(self):
diff --git a/hachoir/parser/video/mpeg_video.py b/hachoir/parser/video/mpeg_video.py
index d77d758..297dcef 100644
--- a/hachoir/parser/video/mpeg_video.py
+++ b/hachoir/parser/video/mpeg_video.py
@@ -400,6 +400,9 @@ class VideoChunk(FieldSet):
 
 
 class VideoStream(Parser):
+    PARSER_TAGS = {
+        "description": "MPEG video stream",
+    }
     endian = BIG_ENDIAN
 
     def createFields(self):
-- 
2.43.0


From 8ef42851d1517bcdb264b05018687b3fa6e7c9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:51 +0000
Subject: [PATCH 149/160] fix: RAR: flags of files and blocks, 64-bit sizes,
 salt, old blocks

---
 hachoir/parser/archive/rar.py | 121 +++++++++++++++++++++-------------
 1 file changed, 76 insertions(+), 45 deletions(-)

diff --git a/hachoir/parser/archive/rar.py b/hachoir/parser/archive/rar.py
index 3bb7e00..1aaa307 100644
--- a/hachoir/parser/archive/rar.py
+++ b/hachoir/parser/archive/rar.py
@@ -8,7 +8,7 @@ Author: Christophe Gisquet
 from hachoir.parser import Parser
 from hachoir.field import (StaticFieldSet, FieldSet,
                            Bit, Bits, Enum,
-                           UInt8, UInt16, UInt32, UInt64,
+                           UInt8, UInt16, UInt32,
                            String, TimeDateMSDOS32,
                            NullBytes, NullBits, RawBytes)
 from hachoir.core.text_handler import textHandler, filesizeHandler, hexadecimal
@@ -66,8 +66,8 @@ def formatRARVersion(field):
 
 
 def commonFlags(s):
-    yield Bit(s, "has_added_size", "Additional field indicating additional size")
     yield Bit(s, "is_ignorable", "Old versions of RAR should ignore this block when copying data")
+    yield Bit(s, "has_added_size", "Additional field indicating additional size")
 
 
 class ArchiveFlags(StaticFieldSet):
@@ -97,17 +97,24 @@ def archiveHeader(s):
 
 
 def commentHeader(s):
-    yield filesizeHandler(UInt16(s, "total_size", "Comment header size + comment size"))
     yield filesizeHandler(UInt16(s, "uncompressed_size", "Uncompressed comment size"))
     yield UInt8(s, "required_version", "RAR version needed to extract comment")
     yield UInt8(s, "packing_method", "Comment packing method")
     yield UInt16(s, "comment_crc16", "Comment CRC")
 
 
-def commentBody(s):
-    size = s["total_size"].value - s.current_size
-    if size > 0:
-        yield RawBytes(s, "comment_data", size, "Compressed comment data")
+def blockData(name, description):
+    """
+    Data which fill the end of a block: its size includes them
+    """
+    def parse(s):
+        size = s["block_size"].value - s.current_size // 8
+        if size > 0:
+            yield RawBytes(s, name, size, description)
+    return parse
+
+
+commentData = blockData("comment_data", "Compressed comment data")
 
 
 def signatureHeader(s):
@@ -124,18 +131,27 @@ def recoveryHeader(s):
     yield RawBytes(s, "mark", 8)
 
 
+def recoveryBody(s):
+    size = s["total_size"].value
+    if size > 0:
+        yield RawBytes(s, "body", size, "Recovery data")
+
+
 def avInfoHeader(s):
-    yield filesizeHandler(UInt16(s, "total_size", "Total block size"))
-    yield UInt8(s, "version", "Version needed to decompress", handler=hexadecimal)
-    yield UInt8(s, "method", "Compression method", handler=hexadecimal)
-    yield UInt8(s, "av_version", "Version for AV", handler=hexadecimal)
-    yield UInt32(s, "av_crc", "AV info CRC32", handler=hexadecimal)
+    yield textHandler(UInt8(s, "version", "Version needed to decompress"), hexadecimal)
+    yield textHandler(UInt8(s, "method", "Compression method"), hexadecimal)
+    yield textHandler(UInt8(s, "av_version", "Version for AV"), hexadecimal)
+    yield textHandler(UInt32(s, "av_crc", "AV info CRC32"), hexadecimal)
 
 
-def avInfoBody(s):
-    size = s["total_size"].value - s.current_size
-    if size > 0:
-        yield RawBytes(s, "av_info_data", size, "AV info")
+avInfoData = blockData("av_info_data", "AV info")
+
+
+def subBlockHeader(s):
+    if s["flags/has_added_size"].value:
+        yield filesizeHandler(UInt32(s, "added_size", "Supplementary block size"))
+    yield textHandler(UInt16(s, "sub_type", "Type of subblock"), hexadecimal)
+    yield UInt8(s, "level")
 
 
 class FileFlags(FieldSet):
@@ -149,14 +165,13 @@ class FileFlags(FieldSet):
         yield Bit(self, "is_solid", "Information from previous files is used (solid flag)")
         # The 3 following lines are what blocks more staticity
         yield Enum(Bits(self, "dictionary_size", 3, "Dictionary size"), DICTIONARY_SIZE)
-        for bit in commonFlags(self):
-            yield bit
         yield Bit(self, "is_large", "file64 operations needed")
         yield Bit(self, "is_unicode", "Filename also encoded using Unicode")
         yield Bit(self, "has_salt", "Has salt for encryption")
         yield Bit(self, "uses_file_version", "File versioning is used")
         yield Bit(self, "has_ext_time", "Extra time ??")
         yield Bit(self, "has_ext_flags", "Extra flag ??")
+        yield from commonFlags(self)
 
 
 def fileFlags(s):
@@ -193,20 +208,22 @@ def specialHeader(s, is_file):
 
     # Start additional field from unrar
     if s["flags/is_large"].value:
-        yield filesizeHandler(UInt64(s, "large_size", "Extended 64bits filesize"))
+        yield UInt32(s, "compressed_size_high", "Upper 32 bits of the compressed size")
+        yield UInt32(s, "uncompressed_size_high", "Upper 32 bits of the uncompressed size")
 
     # End additional field
     size = s["filename_length"].value
     if size > 0:
         if s["flags/is_unicode"].value:
-            charset = "UTF-8"
+            # Either UTF-8, or the name in the charset of the system followed
+            # by a null byte and an encoded difference to its Unicode form
+            yield String(s, "filename", size, "Filename", charset="UTF-8", truncate="\0")
         else:
-            charset = "ISO-8859-15"
-        yield String(s, "filename", size, "Filename", charset=charset)
+            yield String(s, "filename", size, "Filename", charset="ISO-8859-15")
     # Start additional fields from unrar - file only
     if is_file:
         if s["flags/has_salt"].value:
-            yield textHandler(UInt8(s, "salt", "Salt"), hexadecimal)
+            yield RawBytes(s, "salt", 8, "Salt")
         if s["flags/has_ext_time"].value:
             yield ExtTime(s, "extra_time", "Extra time info")
 
@@ -215,11 +232,19 @@ def fileHeader(s):
     return specialHeader(s, True)
 
 
-def fileBody(s):
-    # File compressed data
+def fileSize(s):
+    """
+    Size of the data which follow the header (bytes)
+    """
     size = s["compressed_size"].value
     if s["flags/is_large"].value:
-        size += s["large_size"].value
+        size += s["compressed_size_high"].value << 32
+    return size
+
+
+def fileBody(s):
+    # File compressed data
+    size = fileSize(s)
     if size > 0:
         yield RawBytes(s, "compressed_data", size, "File compressed data")
 
@@ -239,11 +264,10 @@ class EndFlags(StaticFieldSet):
         (Bit, "has_data_crc", "Whether a CRC value is present"),
         (Bit, "rev_space"),
         (Bit, "has_vol_number", "Whether the volume number is present"),
-        (Bits, "unused[]", 4),
-        (Bit, "has_added_size", "Additional field indicating additional size"),
+        (Bits, "unused[]", 10),
         (Bit, "is_ignorable",
          "Old versions of RAR should ignore this block when copying data"),
-        (Bits, "unused[]", 6),
+        (Bit, "has_added_size", "Additional field indicating additional size"),
     )
 
 
@@ -251,14 +275,19 @@ def endFlags(s):
     yield EndFlags(s, "flags", "End block flags")
 
 
+def endHeader(s):
+    if s["flags/has_data_crc"].value:
+        yield textHandler(UInt32(s, "data_crc", "CRC32 of the archive data"), hexadecimal)
+    if s["flags/has_vol_number"].value:
+        yield UInt16(s, "vol_number", "Number of the current volume")
+
+
 class BlockFlags(FieldSet):
     static_size = 16
 
     def createFields(self):
-        yield textHandler(Bits(self, "unused[]", 8, "Unused flag bits"), hexadecimal)
-        yield Bit(self, "has_added_size", "Additional field indicating additional size")
-        yield Bit(self, "is_ignorable", "Old versions of RAR should ignore this block when copying data")
-        yield Bits(self, "unused[]", 6)
+        yield textHandler(Bits(self, "unused[]", 14, "Unused flag bits"), hexadecimal)
+        yield from commonFlags(self)
 
 
 class Block(FieldSet):
@@ -267,14 +296,14 @@ class Block(FieldSet):
         0x72: ("marker", "Archive header", None, None, None),
         0x73: ("archive_start", "Archive info", archiveFlags, archiveHeader, None),
         0x74: ("file[]", fileDescription, fileFlags, fileHeader, fileBody),
-        0x75: ("comment[]", "Stray comment", None, commentHeader, commentBody),
-        0x76: ("av_info[]", "Extra information", None, avInfoHeader, avInfoBody),
-        0x77: ("sub_block[]", "Stray subblock", None, newSubHeader, fileBody),
-        0x78: ("recovery[]", "Recovery block", None, recoveryHeader, None),
+        0x75: ("comment[]", "Stray comment", None, commentHeader, commentData),
+        0x76: ("av_info[]", "Extra information", None, avInfoHeader, avInfoData),
+        0x77: ("sub_block[]", "Stray subblock", None, subBlockHeader, None),
+        0x78: ("recovery[]", "Recovery block", None, recoveryHeader, recoveryBody),
         0x79: ("signature", "Signature block", None, signatureHeader, None),
         0x7A: ("new_sub_block[]", "Stray new-format subblock", fileFlags,
                newSubHeader, fileBody),
-        0x7B: ("archive_end", "Archive end block", endFlags, None, None),
+        0x7B: ("archive_end", "Archive end block", endFlags, endHeader, None),
     }
 
     def __init__(self, parent, name):
@@ -298,10 +327,11 @@ class Block(FieldSet):
 
         self._size = 8 * self["block_size"].value
         if t == 0x74 or t == 0x7A:
-            self._size += 8 * self["compressed_size"].value
-            if "is_large" in self["flags"] and self["flags/is_large"].value:
-                self._size += 8 * self["large_size"].value
-        elif "has_added_size" in self:
+            self._size += 8 * fileSize(self)
+        elif t == 0x78:
+            self._size += 8 * self["total_size"].value
+        elif "has_added_size" in self["flags"] and \
+                self["flags/has_added_size"].value and "added_size" in self:
             self._size += 8 * self["added_size"].value
         # TODO: check if any other member is needed here
 
@@ -320,14 +350,14 @@ class Block(FieldSet):
 
         # Finish header with stuff of unknow size
         size = self["block_size"].value - (self.current_size // 8)
-        if size > 0:
+        if size > 0 and self["block_type"].value not in (0x75, 0x76):
             yield RawBytes(self, "unknown", size, "Unknow data (UInt32 probably)")
 
         # Parse body
         yield from self.parseBody()
 
     def createDescription(self):
-        return "Block entry: %s" % self["type"].display
+        return "Block entry: %s" % self["block_type"].display
 
     def parseFlags(self):
         yield BlockFlags(self, "flags", "Block header flags")
@@ -343,7 +373,8 @@ class Block(FieldSet):
         Parse what is left of the block
         """
         size = self["block_size"].value - (self.current_size // 8)
-        if "has_added_size" in self["flags"] and self["flags/has_added_size"].value:
+        if "has_added_size" in self["flags"] and \
+           self["flags/has_added_size"].value and "added_size" in self:
             size += self["added_size"].value
         if size > 0:
             yield RawBytes(self, "body", size, "Body data")
-- 
2.43.0


From e967073d07b39c49bf0f746831e3f709afd13b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:51 +0000
Subject: [PATCH 150/160] fix: ACE, BOMStore, PAK: unknown blocks, no blank
 entry, unknown size of the input

---
 hachoir/parser/archive/ace.py      | 15 ++++++++-------
 hachoir/parser/archive/bomstore.py |  4 +++-
 hachoir/parser/archive/prs_pak.py  |  2 +-
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/hachoir/parser/archive/ace.py b/hachoir/parser/archive/ace.py
index c47bcbd..d247f75 100644
--- a/hachoir/parser/archive/ace.py
+++ b/hachoir/parser/archive/ace.py
@@ -214,6 +214,10 @@ class Block(FieldSet):
         5: ("new_recovery[]", None, None, newRecoveryHeader, None)
     }
 
+    parseFlags = None
+    parseHeader = None
+    parseBody = None
+
     def __init__(self, parent, name, description=None):
         FieldSet.__init__(self, parent, name, description)
         self.body_size = 0
@@ -229,12 +233,9 @@ class Block(FieldSet):
                     self.desc_func = desc
         else:
             self.warning("Processing as unknown block block of type %u" % type)
-        if not self.parseFlags:
-            self.parseFlags = parseFlags
-        if not self.parseHeader:
-            self.parseHeader = parseHeader
-        if not self.parseBody:
-            self.parseBody = parseBody
+        self.parseFlags = self.parseFlags or parseFlags
+        self.parseHeader = self.parseHeader or parseHeader
+        self.parseBody = self.parseBody or parseBody
 
     def createFields(self):
         yield textHandler(UInt16(self, "crc16", "Archive CRC16 (from byte 4 on)"), hexadecimal)
@@ -258,7 +259,7 @@ class Block(FieldSet):
         if self.desc_func:
             return self.desc_func(self)
         else:
-            return "Block: %s" % self["type"].display
+            return "Block: %s" % self["block_type"].display
 
 
 class AceFile(Parser):
diff --git a/hachoir/parser/archive/bomstore.py b/hachoir/parser/archive/bomstore.py
index 483c58f..a4c93cd 100644
--- a/hachoir/parser/archive/bomstore.py
+++ b/hachoir/parser/archive/bomstore.py
@@ -35,7 +35,9 @@ class BomTrailer(FieldSet):
         nspace = self['num_spaces'].value
         for i in range(nobj + 1):
             yield BomTrailerEntry(self, "entry[]")
-        yield NullBytes(self, "blank_entries", (nspace - nobj - 1) * (BomTrailerEntry.static_size // 8))
+        nblank = nspace - nobj - 1
+        if nblank > 0:
+            yield NullBytes(self, "blank_entries", nblank * (BomTrailerEntry.static_size // 8))
         yield UInt32(self, "num_trail")
         ntrail = self['num_trail'].value
         for i in range(ntrail):
diff --git a/hachoir/parser/archive/prs_pak.py b/hachoir/parser/archive/prs_pak.py
index 8a89ccf..6b2c8ff 100644
--- a/hachoir/parser/archive/prs_pak.py
+++ b/hachoir/parser/archive/prs_pak.py
@@ -47,5 +47,5 @@ class PRSPakFile(Parser):
         yield String(self, "magic", 4)
 
         # all remaining data must be file entries:
-        while self.current_size < self._size:
+        while not self.eof:
             yield FileEntry(self, "file[]")
-- 
2.43.0


From 8be640cc24188400cce131ccdd0c6e968a0ddb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:51 +0000
Subject: [PATCH 151/160] fix: 7z: digests of the sub-streams when only some
 folders have one

---
 hachoir/parser/archive/sevenzip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/sevenzip.py b/hachoir/parser/archive/sevenzip.py
index b147825..906a5c4 100644
--- a/hachoir/parser/archive/sevenzip.py
+++ b/hachoir/parser/archive/sevenzip.py
@@ -505,8 +505,10 @@ class SubStreamInfo(FieldSet):
                         yield SZUInt64(self, "unpack_size[%d][%d]" % (i, j))
             elif uid == kCRC:
                 digests = []
+                unpack_info = self['../unpack_info']
                 for i in range(num_folders):
-                    if num_unpackstreams[i] == 1 and 'digests' in self['../unpack_info']:
+                    if (num_unpackstreams[i] == 1 and 'digests' in unpack_info
+                            and unpack_info['digests/defined'].isDefined(i)):
                         continue
                     for j in range(num_unpackstreams[i]):
                         digests.append('folder %i, stream %i' % (i, j))
-- 
2.43.0


From 211994e2f7a8050922c175153bdfe3e9153d4c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:26 +0000
Subject: [PATCH 152/160] fix: XM, S3M, PTM, MOD: notes, flags, empty patterns
 and samples, ModPlug data

---
 hachoir/parser/audio/mod.py     | 19 ++++---
 hachoir/parser/audio/modplug.py | 94 +++++++++++++++++++--------------
 hachoir/parser/audio/s3m.py     | 48 ++++++++++-------
 hachoir/parser/audio/xm.py      | 38 +++++++++----
 4 files changed, 120 insertions(+), 79 deletions(-)

diff --git a/hachoir/parser/audio/mod.py b/hachoir/parser/audio/mod.py
index 4e246c6..83b773a 100644
--- a/hachoir/parser/audio/mod.py
+++ b/hachoir/parser/audio/mod.py
@@ -44,11 +44,14 @@ MODULE_TYPE = {
 
 
 def getFineTune(val):
-    return ("0", "1", "2", "3", "4", "5", "6", "7", "8",
-            "-8", "-7", "-6", "-5", "-4", "-3", "-2", "-1")[val.value]
+    # signed nibble
+    return ("0", "1", "2", "3", "4", "5", "6", "7",
+            "-8", "-7", "-6", "-5", "-4", "-3", "-2", "-1")[val.value & 15]
 
 
 def getVolume(val):
+    if not val.value:
+        return "muted"
     return "%.1f dB" % (20.0 * log10(val.value / 64.0))
 
 
@@ -79,17 +82,17 @@ class Header(FieldSet):
         yield String(self, "type", 4)
 
     def getNumChannels(self):
-        return MODULE_TYPE[self["type"].value][1]
+        return MODULE_TYPE[self["type"].value.encode("ISO-8859-1")][1]
 
 
 class Note(FieldSet):
     static_size = 8 * 4
 
     def createFields(self):
-        yield Bits(self, 4, "note_hi_nibble")
-        yield Bits(self, 12, "period")
-        yield Bits(self, 4, "note_low_nibble")
-        yield Bits(self, 4, "effect")
+        yield Bits(self, "note_hi_nibble", 4)
+        yield Bits(self, "period", 12)
+        yield Bits(self, "note_low_nibble", 4)
+        yield Bits(self, "effect", 4)
         yield UInt8(self, "parameter")
 
 
@@ -132,7 +135,7 @@ class AmigaModule(Parser):
         modtype = self.stream.readBytes(1080 * 8, 4)
         if modtype not in MODULE_TYPE:
             return "Invalid module type %a" % modtype
-        self.createValue = lambda modtype: "%s module, %u channels" % MODULE_TYPE[
+        self.createValue = lambda: "%s module, %u channels" % MODULE_TYPE[
             modtype]
         return True
 
diff --git a/hachoir/parser/audio/modplug.py b/hachoir/parser/audio/modplug.py
index 05b8643..bfa3262 100644
--- a/hachoir/parser/audio/modplug.py
+++ b/hachoir/parser/audio/modplug.py
@@ -10,8 +10,7 @@ Creation: 10th February 2007
 
 from hachoir.field import (FieldSet,
                            UInt32, UInt16, UInt8, Int8, Float32,
-                           RawBytes, String, GenericVector, ParserError)
-from hachoir.core.endian import LITTLE_ENDIAN
+                           RawBytes, String, GenericVector)
 from hachoir.core.text_handler import textHandler, hexadecimal
 
 MAX_ENVPOINTS = 32
@@ -88,7 +87,7 @@ class SoundMixPluginInfo(FieldSet):
         yield UInt32(self, "output_routing")
         yield GenericVector(self, "routing_info", 4, UInt32, "reserved")
         yield String(self, "name", 32, strip='\0')
-        yield String(self, "dll_name", 64, desc="Original DLL name", strip='\0')
+        yield String(self, "dll_name", 64, "Original DLL name", strip='\0')
 
 
 class ExtraData(FieldSet):
@@ -113,26 +112,28 @@ class XPlugData(FieldSet):
     def createFields(self):
         yield UInt32(self, "size")
         while not self.eof:
-            yield UInt32(self, "marker")
-            if self["marker"].value == 'DWRT':
+            marker = String(self, "marker[]", 4)
+            yield marker
+            if marker.value == 'DWRT':
                 yield Float32(self, "dry_ratio")
-            elif self["marker"].value == 'PORG':
+            elif marker.value == 'PORG':
                 yield UInt32(self, "default_program")
+            else:
+                break
+        size = (self._size - self.current_size) // 8
+        if size > 0:
+            yield RawBytes(self, "unknown", size)
 
 
 def parsePlugin(parser):
     yield SoundMixPluginInfo(parser, "info")
 
     # Check if VST setchunk present
-    size = parser.stream.readBits(
-        parser.absolute_address + parser.current_size, 32, LITTLE_ENDIAN)
-    if 0 < size < parser.current_size + parser._size:
+    if parser._size - parser.current_size >= 32:
         yield ExtraData(parser, "extra_data")
 
     # Check if XPlugData is present
-    size = parser.stream.readBits(
-        parser.absolute_address + parser.current_size, 32, LITTLE_ENDIAN)
-    if 0 < size < parser.current_size + parser._size:
+    if parser._size - parser.current_size >= 32:
         yield XPlugData(parser, "xplug_data")
 
 
@@ -209,61 +210,64 @@ EXTENSIONS = {
 }
 
 
+def readCode(parser, addr):
+    return parser.stream.readBytes(addr, 4).decode("ISO-8859-1")
+
+
 class MPField(FieldSet):
 
-    def __init__(self, parent, name, ext, desc=None):
+    def __init__(self, parent, name, ext, repeat, desc=None):
         FieldSet.__init__(self, parent, name, desc)
         self.ext = ext
+        # Number of values: one per instrument for the properties of the
+        # instruments
+        self.repeat = repeat
         self.info(self.createDescription())
-        self._size = (6 + self["data_size"].value) * 8
+        self._size = (6 + self["data_size"].value * repeat) * 8
 
     def createFields(self):
         # Identify tag
-        code = self.stream.readBytes(self.absolute_address, 4)
-        if code in self.ext:
-            cls, count, comment = self.ext[code]
-        else:
-            cls, count, comment = RawBytes, 1, "Unknown tag"
+        cls, count, comment = self.ext[readCode(self, self.absolute_address)]
 
         # Header
         yield String(self, "code", 4, comment)
         yield UInt16(self, "data_size")
 
         # Data
-        if not cls:
-            size = self["data_size"].value
-            if size > 0:
-                yield RawBytes(self, "data", size)
-        elif cls in (String, RawBytes):
-            yield cls(self, "value", count)
-        else:
-            if count > 1:
-                yield GenericVector(self, "values", count, cls, "item")
+        size = self["data_size"].value
+        if not size:
+            return
+        array = "[]" if self.repeat > 1 else ""
+        for index in range(self.repeat):
+            if not cls or (cls is not String and size * 8 != count * cls.static_size):
+                yield RawBytes(self, "data" + array, size)
+            elif cls is String:
+                yield String(self, "value" + array, size, strip='\0')
+            elif count > 1:
+                yield GenericVector(self, "values" + array, count, cls, "item")
             else:
-                yield cls(self, "value")
+                yield cls(self, "value" + array)
 
     def createDescription(self):
         return "Element '%s', size %i" % \
-               (self["code"]._description, self["data_size"].value)
+               (self["code"].description, self["data_size"].value)
 
 
 def parseFields(parser):
     # Determine field names
     ext = EXTENSIONS[parser["block_type"].value]
-    if ext is None:
-        raise ParserError("Unknown parent '%s'" % parser["block_type"].value)
+    if parser["block_type"].value == "XTPM":
+        repeat = parser["/header/instruments"].value
+    else:
+        repeat = 1
 
     # Parse fields
     addr = parser.absolute_address + parser.current_size
-    while not parser.eof and parser.stream.readBytes(addr, 4) in ext:
-        field = MPField(parser, "field[]", ext)
+    while parser.stream.sizeGe(addr + 6 * 8) and readCode(parser, addr) in ext:
+        field = MPField(parser, "field[]", ext, repeat)
         yield field
         addr += field._size
 
-    # Abort on unknown codes
-    parser.info("End of extension '%s' when finding '%s'" %
-                (parser["block_type"].value, parser.stream.readBytes(addr, 4)))
-
 
 class ModplugBlock(FieldSet):
     BLOCK_INFO = {
@@ -276,16 +280,19 @@ class ModplugBlock(FieldSet):
 
     def __init__(self, parent, name, desc=None):
         FieldSet.__init__(self, parent, name, desc)
-        self.parseBlock = parsePlugin
+        self.parseBlock = None
 
         t = self["block_type"].value
-        self.has_size = False
+        self.has_size = True
         if t in self.BLOCK_INFO:
             self._name, self.has_size, desc, parseBlock = self.BLOCK_INFO[t]
             if callable(desc):
                 self.createDescription = lambda: desc(self)
             if parseBlock:
                 self.parseBlock = lambda: parseBlock(self)
+        elif t[:2] == "FX" and t[2:].isdigit():
+            self._name = "plugin[]"
+            self.parseBlock = lambda: parsePlugin(self)
 
         if self.has_size:
             self._size = 8 * (self["block_size"].value + 8)
@@ -312,6 +319,11 @@ def ParseModplugMetadata(parser):
             break
 
     # More undocumented stuff: date ?
-    size = (parser._size - parser.absolute_address - parser.current_size) // 8
+    if parser._size is not None:
+        size = (parser._size - parser.current_size) // 8
+    else:
+        size = 0
+        while parser.stream.sizeGe(parser.current_size + (size + 1) * 8):
+            size += 1
     if size > 0:
         yield RawBytes(parser, "info", size)
diff --git a/hachoir/parser/audio/s3m.py b/hachoir/parser/audio/s3m.py
index 517b02e..ef82110 100644
--- a/hachoir/parser/audio/s3m.py
+++ b/hachoir/parser/audio/s3m.py
@@ -80,9 +80,10 @@ class ChunkIndexer:
             old_off = chunk.offset
             while chunk.offset < current_pos:
                 count += 1
-                chunk = self.chunks.pop()
                 # Unfortunaly, we also pass the underlying chunks
-                if chunk is None:
+                if self.chunks:
+                    chunk = self.chunks.pop()
+                else:
                     obj.info("Couldn't resynch: %u object skipped to reach %u" %
                              (count, current_pos))
                     return
@@ -366,7 +367,7 @@ class PTMHeader(Header):
         # It goes like this in the BS: patterns->instruments->instr. samples
 
         if self._parent._size:
-            min_off = self.absolute_address + self._parent._size
+            min_off = self._parent._size // 8
         else:
             min_off = 99999999999
 
@@ -378,12 +379,16 @@ class PTMHeader(Header):
                       PTMInstrument.static_size) // 8
             yield Chunk(PTMInstrument, "instrument[]", offset,
                         PTMInstrument.static_size // 8)
-            offset = self.stream.readBits(
-                addr + 8 * (offset + 18), 32, LITTLE_ENDIAN)
-            min_off = min(min_off, offset)
+            sample_offset, sample_size = (
+                self.stream.readBits(addr + 8 * (offset + pos), 32, LITTLE_ENDIAN)
+                for pos in (18, 22))
+            if sample_size:
+                min_off = min(min_off, sample_offset)
 
         # Patterns
         count = self["num_patterns"].value
+        if not count:
+            return
         prev_off = 16 * self["pattern_pptr/offset[0]"].value
         for index in range(1, count):
             offset = 16 * self["pattern_pptr/offset[%u]" % index].value
@@ -501,8 +506,9 @@ class S3MInstrument(Instrument):
             size *= 2
         if self["flags/16bits"].value:
             size *= 2
-        yield Chunk(SampleData, "sample_data[]",
-                    self["sample_offset"].value, size)
+        if size:
+            yield Chunk(SampleData, "sample_data[]",
+                        self["sample_offset"].value, size)
 
 
 class PTMType(FieldSet):
@@ -511,12 +517,12 @@ class PTMType(FieldSet):
     static_size = 8
 
     def createFields(self):
-        yield Bits(self, "unused", 2)
-        yield Bit(self, "is_tonable")
-        yield Bit(self, "16bits")
-        yield Bit(self, "loop_bidir")
-        yield Bit(self, "loop")
         yield Enum(Bits(self, "origin", 2), self.TYPES)
+        yield Bit(self, "loop")
+        yield Bit(self, "loop_bidir")
+        yield Bit(self, "16bits")
+        yield Bit(self, "is_tonable")
+        yield Bits(self, "unused", 2)
 
 #  class PTMType(StaticFieldSet):
 #  format = (
@@ -536,9 +542,8 @@ class PTMInstrument(Instrument):
     def getType(self):
         return PTMType(self, "flags")  # Hack to have more common code
 
-    # PTM doesn't pretend to manage 16bits
     def getSampleBits(self):
-        return 8
+        return 8 * (1 + self["flags/16bits"].value)
 
     def getInstrumentFields(self):
         yield UInt8(self, "volume")
@@ -595,19 +600,22 @@ class Note(FieldSet):
         if info["has_note"].value:
             yield UInt8(self, "note")
             yield UInt8(self, "instrument")
-        if info["has_volume"].value:
-            yield UInt8(self, "volume")
-        if info["has_effect"].value:
-            yield UInt8(self, "effect")
-            yield UInt8(self, "param")
+        for name in self.PARTS:
+            if not info["has_" + name].value:
+                continue
+            yield UInt8(self, name)
+            if name == "effect":
+                yield UInt8(self, "param")
 
 
 class S3MNote(Note):
     NOTE_INFO = S3MNoteInfo
+    PARTS = ("volume", "effect")
 
 
 class PTMNote(Note):
     NOTE_INFO = PTMNoteInfo
+    PARTS = ("effect", "volume")
 
 
 class Row(FieldSet):
diff --git a/hachoir/parser/audio/xm.py b/hachoir/parser/audio/xm.py
index cefe518..996adec 100644
--- a/hachoir/parser/audio/xm.py
+++ b/hachoir/parser/audio/xm.py
@@ -39,10 +39,10 @@ class SampleType(FieldSet):
     static_size = 8
 
     def createFields(self):
-        yield Bits(self, "unused[]", 4)
-        yield Bit(self, "16bits")
-        yield Bits(self, "unused[]", 1)
         yield Enum(Bits(self, "loop_mode", 2), SAMPLE_LOOP_MODE)
+        yield Bits(self, "unused[]", 2)
+        yield Bit(self, "16bits")
+        yield Bits(self, "unused[]", 3)
 
 
 class SampleHeader(FieldSet):
@@ -71,10 +71,10 @@ class SampleHeader(FieldSet):
 
 class StuffType(StaticFieldSet):
     format = (
-        (Bits, "unused", 5),
-        (Bit, "loop"),
+        (Bit, "on"),
         (Bit, "sustain"),
-        (Bit, "on")
+        (Bit, "loop"),
+        (Bits, "unused", 5),
     )
 
 
@@ -194,9 +194,18 @@ class RealBit(RawBits):
         return self._parent.stream.readBits(self.absolute_address, 1, BIG_ENDIAN)
 
 
+class RealBits(RawBits):
+    """
+    Bits stored from the most significant one
+    """
+
+    def createValue(self):
+        return self._parent.stream.readBits(self.absolute_address, self._size, BIG_ENDIAN)
+
+
 class NoteInfo(StaticFieldSet):
     format = (
-        (RawBits, "unused", 2),
+        (RealBits, "unused", 2),
         (RealBit, "has_parameter"),
         (RealBit, "has_type"),
         (RealBit, "has_volume"),
@@ -231,8 +240,11 @@ class Effect(RawBits):
     def createValue(self):
         t = self.parent.stream.readBits(
             self.absolute_address, 8, LITTLE_ENDIAN)
-        param = self.parent.stream.readBits(
-            self.absolute_address + 8, 8, LITTLE_ENDIAN)
+        if self.parent.hasParameter():
+            param = self.parent.stream.readBits(
+                self.absolute_address + 8, 8, LITTLE_ENDIAN)
+        else:
+            param = 0
         if t == 0x0E:
             return EFFECT_E_NAME[param >> 4] + " %i" % (param & 0x0F)
         elif t == 0x21 and param >> 4 in (1, 2):
@@ -266,6 +278,9 @@ class Note(FieldSet):
         else:
             self._size = 5 * 8
 
+    def hasParameter(self):
+        return not self.flags & 0x80 or bool(self.flags & 0x10)
+
     def createFields(self):
         # This stupid shit gets the LSB, not the MSB...
         self.info("Note info: 0x%02X" %
@@ -285,7 +300,7 @@ class Note(FieldSet):
             if info["has_parameter"].value:
                 yield textHandler(UInt8(self, "effect_parameter"), hexadecimal)
         else:
-            yield Enum(Bits(self, "note", 7), NOTE_NAME)
+            yield Enum(RealBits(self, "note", 7), NOTE_NAME)
             yield UInt8(self, "instrument")
             yield textHandler(UInt8(self, "volume"), parseVolume)
             yield Effect(self, "effect_type")
@@ -341,6 +356,9 @@ class Pattern(FieldSet):
         yield UInt16(self, "data_size", r"Packed patterndata size")
         rows = self["rows"].value
         self.info("Pattern: %i rows" % rows)
+        if not self["data_size"].value:
+            # Empty pattern: the rows are not stored
+            return
         for index in range(rows):
             yield Row(self, "row[]")
 
-- 
2.43.0


From f337bf78f260d95d4e838be4e59f108745d6d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:25 +0000
Subject: [PATCH 153/160] fix: Git pack: offsets and sizes of deltas,
 references, input of unknown size

---
 hachoir/parser/misc/git_pack.py | 118 ++++++++++++++++----------------
 1 file changed, 60 insertions(+), 58 deletions(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 4487a39..73ea1f1 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -63,53 +63,40 @@ class DeltaInstruction(FieldSet):
     }
 
     def createFields(self):
-        self.desc = ""
         yield Enum(Bit(self, "copy_or_add"), self.COPY_OR_ADD)
 
         if self["copy_or_add"].value:
-            yield Bit(self, "size1_set")
-            yield Bit(self, "size2_set")
-            yield Bit(self, "size3_set")
-            yield Bit(self, "offset1_set")
-            yield Bit(self, "offset2_set")
-            yield Bit(self, "offset3_set")
-            yield Bit(self, "offset4_set")
-
-            offset = 0
-            if self["offset1_set"].value:
-                yield UInt8(self, "offset1")
-                offset |= (self["offset1"].value << 24)
-            if self["offset2_set"].value:
-                yield UInt8(self, "offset2")
-                offset |= (self["offset2"].value << 16)
-            if self["offset3_set"].value:
-                yield UInt8(self, "offset3")
-                offset |= (self["offset3"].value << 8)
-            if self["offset4_set"].value:
-                yield UInt8(self, "offset4")
-                offset |= self["offset4"].value
-
-            size = 0
-            if self["size1_set"].value:
-                yield UInt8(self, "size1")
-                size |= (self["size1"].value << 16)
-            if self["size2_set"].value:
-                yield UInt8(self, "size2")
-                size |= (self["size2"].value << 8)
-            if self["size3_set"].value:
-                yield UInt8(self, "size3")
-                size |= self["size3"].value
-
-            self.desc = f"copy {size} B from offset {offset}"
-
+            # The first bytes of the offset and size are the lowest ones
+            for index in (3, 2, 1):
+                yield Bit(self, "size%i_set" % index)
+            for index in (4, 3, 2, 1):
+                yield Bit(self, "offset%i_set" % index)
+            for index in (1, 2, 3, 4):
+                if self["offset%i_set" % index].value:
+                    yield UInt8(self, "offset%i" % index)
+            for index in (1, 2, 3):
+                if self["size%i_set" % index].value:
+                    yield UInt8(self, "size%i" % index)
         else:
             data_size = Bits(self, "data_size", 7)
             yield data_size
             yield RawBytes(self, "data", data_size.value)
-            self.desc = f"add {len(self['data'].value)} B"
+
+    def _getNumber(self, name, count):
+        value = 0
+        for index in range(count):
+            key = "%s%i" % (name, index + 1)
+            if self[key + "_set"].value:
+                value |= self[key].value << (8 * index)
+        return value
 
     def createDescription(self):
-        return self.desc
+        if self["copy_or_add"].value:
+            offset = self._getNumber("offset", 4)
+            size = self._getNumber("size", 3) or 0x10000
+            return f"copy {size} B from offset {offset}"
+        else:
+            return f"add {self['data_size'].value} B"
 
 
 class VarLengthInt(FieldSet):
@@ -118,20 +105,31 @@ class VarLengthInt(FieldSet):
     endian = BIG_ENDIAN
 
     def createFields(self):
-        self.decoded_value = 0
-        num_decoded_size_bits = 0
         while True:
             msb_field = Bit(self, "msb[]")
             yield msb_field
-            value_field = Bits(self, "value[]", 7)
-            yield value_field
-            self.decoded_value |= (value_field.value << num_decoded_size_bits)
-            num_decoded_size_bits += 7
+            yield Bits(self, "value[]", 7)
             if not msb_field.value:
                 break
 
+    def createValue(self):
+        value = 0
+        for index, field in enumerate(self.array("value")):
+            value |= field.value << (7 * index)
+        return value
+
     def createDescription(self):
-        return f"value={self.decoded_value}"
+        return f"value={self.value}"
+
+
+class OffsetInt(VarLengthInt):
+    "Distance to the base object; see https://git-scm.com/docs/gitformat-pack#_pack_pack_files_have_the_following_format"
+
+    def createValue(self):
+        value = -1
+        for field in self.array("value"):
+            value = ((value + 1) << 7) | field.value
+        return value
 
 
 class TypeAndSize(FieldSet):
@@ -151,20 +149,22 @@ class TypeAndSize(FieldSet):
         yield Enum(Bits(self, "typ", 3), self.OBJECT_TYPES)
         yield Bits(self, "size[]", 4)
 
-        self.decoded_size = self["size[0]"].value
-        num_decoded_size_bits = 4
         latest_msb = self["msb[0]"].value
         while latest_msb:
             msb_field = Bit(self, "msb[]")
             yield msb_field
-            size_field = Bits(self, "size[]", 7)
-            yield size_field
-            self.decoded_size |= (size_field.value << num_decoded_size_bits)
-            num_decoded_size_bits += 7
+            yield Bits(self, "size[]", 7)
             latest_msb = msb_field.value
 
+    def createValue(self):
+        size = self["size[0]"].value
+        for index, field in enumerate(self.array("size")):
+            if index:
+                size |= field.value << (7 * index - 3)
+        return size
+
     def createDescription(self):
-        return f"type={self['typ']}, decompressed size={self.decoded_size}"
+        return f"type={self['typ'].display}, decompressed size={self.value}"
 
 
 class ObjectEntry(FieldSet):
@@ -174,13 +174,14 @@ class ObjectEntry(FieldSet):
         yield type_and_size
 
         if type_and_size["typ"].value == 6:
-            yield VarLengthInt(self, "offset")
-        # FIXME: for OBJ_REF_DELTA objects the parser needs to add another field; but I haven't been able to create such test files yet.
+            yield OffsetInt(self, "offset")
+        elif type_and_size["typ"].value == 7:
+            yield RawBytes(self, "base_object", 20, "Name of the base object")
 
         parser_for_sub_field = None
         if type_and_size["typ"].value == 1:
             parser_for_sub_field = ObjCommitParser
-        elif type_and_size["typ"].value == 6:
+        elif type_and_size["typ"].value in (6, 7):
             parser_for_sub_field = ObjOfsDeltaParser
         # FIXME: add parsers for other object types
 
@@ -198,10 +199,11 @@ class ObjectEntry(FieldSet):
         read_addr_in_bits = start_addr_in_bits
         total_bytes_read = 0
         while not decompressor.eof:
-            max_remaining_bytes = (stream.size - read_addr_in_bits) // 8
-            if max_remaining_bytes <= 0:
+            num_bytes_to_read = 1000
+            if not stream.sizeGe(read_addr_in_bits + num_bytes_to_read * 8):
+                num_bytes_to_read = (stream.size - read_addr_in_bits) // 8
+            if num_bytes_to_read <= 0:
                 raise ParserError("Truncated compressed data")
-            num_bytes_to_read = min(1000, max_remaining_bytes)
             bytes_read = stream.readBytes(read_addr_in_bits, num_bytes_to_read)
             total_bytes_read += len(bytes_read)
             read_addr_in_bits += (len(bytes_read) * 8)
-- 
2.43.0


From 81d2307a0bb9c94883a5c40c2578f8025d8fcdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:53 +0000
Subject: [PATCH 154/160] fix: PCF: input of unknown size

---
 hachoir/parser/misc/pcf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/pcf.py b/hachoir/parser/misc/pcf.py
index 418cfe4..8ad1a43 100644
--- a/hachoir/parser/misc/pcf.py
+++ b/hachoir/parser/misc/pcf.py
@@ -165,8 +165,8 @@ class PcfFile(Parser):
             padding = self.seekByte(entry["offset"].value)
             if padding:
                 yield padding
-            maxsize = (self.size - self.current_size) // 8
-            if maxsize < size:
+            if not self.stream.sizeGe(self.current_size + size * 8):
+                maxsize = (self.stream.size - self.current_size) // 8
                 self.warning("Truncate content of %s to %s bytes (was %s)" % (
                     entry.path, maxsize, size))
                 size = maxsize
-- 
2.43.0


From f010d8193ae1b34aaf667d9d2222de9dcfcde819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:31 +0000
Subject: [PATCH 155/160] fix: EXE, NDS, Matroska, ASN.1: input of unknown size

---
 hachoir/parser/container/asn1.py | 2 +-
 hachoir/parser/container/mkv.py  | 2 +-
 hachoir/parser/program/exe.py    | 4 ++--
 hachoir/parser/program/nds.py    | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/container/asn1.py b/hachoir/parser/container/asn1.py
index 41e396e..edc1a9d 100644
--- a/hachoir/parser/container/asn1.py
+++ b/hachoir/parser/container/asn1.py
@@ -303,7 +303,7 @@ class ASN1File(Parser):
             root = self[0]
         except (InputStreamError, FieldError):
             return "Unable to create root object"
-        if root.size != self.size:
+        if self.stream.sizeGe(root.size + 1):
             return "Invalid root object size"
         return True
 
diff --git a/hachoir/parser/container/mkv.py b/hachoir/parser/container/mkv.py
index 39a52e9..29267d7 100644
--- a/hachoir/parser/container/mkv.py
+++ b/hachoir/parser/container/mkv.py
@@ -617,7 +617,7 @@ class MkvFile(Parser):
             first = self[0]
         except ParserError:
             return False
-        if 0 < self._size < first._size:
+        if not self.stream.sizeGe(first.size):
             return "First chunk size is invalid"
         if self._getDoctype() not in ('matroska', 'webm'):
             return "Stream isn't a matroska document."
diff --git a/hachoir/parser/program/exe.py b/hachoir/parser/program/exe.py
index e4951f0..fdffdcc 100644
--- a/hachoir/parser/program/exe.py
+++ b/hachoir/parser/program/exe.py
@@ -151,7 +151,7 @@ class ExeFile(HachoirParser, RootSeekableFieldSet):
             self._is_pe = False
             offset = self["msdos/next_offset"].value * 8
             if 2 * 8 <= offset \
-                    and (offset + PE_Header.static_size) <= self.size \
+                    and self.stream.sizeGe(offset + PE_Header.static_size) \
                     and self.stream.readBytes(offset, 4) == b'PE\0\0':
                 self._is_pe = True
         return self._is_pe
@@ -161,7 +161,7 @@ class ExeFile(HachoirParser, RootSeekableFieldSet):
             self._is_ne = False
             offset = self["msdos/next_offset"].value * 8
             if 64 * 8 <= offset \
-                    and (offset + NE_Header.static_size) <= self.size \
+                    and self.stream.sizeGe(offset + NE_Header.static_size) \
                     and self.stream.readBytes(offset, 2) == b'NE':
                 self._is_ne = True
         return self._is_ne
diff --git a/hachoir/parser/program/nds.py b/hachoir/parser/program/nds.py
index 3509d8b..a1dc9ad 100644
--- a/hachoir/parser/program/nds.py
+++ b/hachoir/parser/program/nds.py
@@ -325,8 +325,8 @@ class NdsFile(Parser, RootSeekableFieldSet):
                 and header["card_size"].value < 15  # arbitrary limit at 32Gbit
                 and header["arm9_bin_size"].value > 0 and header["arm9_bin_size"].value <= 0x3bfe00
                 and header["arm7_bin_size"].value > 0 and header["arm7_bin_size"].value <= 0x3bfe00
-                and header["arm9_source"].value + header["arm9_bin_size"].value < self._size
-                and header["arm7_source"].value + header["arm7_bin_size"].value < self._size
+                and self.stream.sizeGe((header["arm9_source"].value + header["arm9_bin_size"].value) * 8)
+                and self.stream.sizeGe((header["arm7_source"].value + header["arm7_bin_size"].value) * 8)
                 and header["arm9_execute_addr"].value >= 0x02000000 and header["arm9_execute_addr"].value <= 0x023bfe00
                 and header["arm9_copy_to_addr"].value >= 0x02000000 and header["arm9_copy_to_addr"].value <= 0x023bfe00
                 and header["arm7_execute_addr"].value >= 0x02000000 and header["arm7_execute_addr"].value <= 0x03807e00
-- 
2.43.0


From 0fd7f238635fcc49b12f5526230363d14e10b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:31 +0000
Subject: [PATCH 156/160] fix: Mach-O: sections after the end of the file

---
 hachoir/parser/program/macho.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hachoir/parser/program/macho.py b/hachoir/parser/program/macho.py
index 306c797..e76107f 100644
--- a/hachoir/parser/program/macho.py
+++ b/hachoir/parser/program/macho.py
@@ -134,6 +134,9 @@ class SegmentCommand(FieldSet):
         yield UInt32(self, "nsects")
         yield UInt32(self, "flags")
         for i in range(self['nsects'].value):
+            if not self.stream.sizeGe(self.absolute_address + self.current_size + 8):
+                self.warning("Section headers after the end of the file")
+                break
             yield MachoSection(self, "section[]")
 
     def createValue(self):
@@ -156,6 +159,9 @@ class SegmentCommand64(FieldSet):
         yield UInt32(self, "nsects")
         yield UInt32(self, "flags")
         for i in range(self['nsects'].value):
+            if not self.stream.sizeGe(self.absolute_address + self.current_size + 8):
+                self.warning("Section headers after the end of the file")
+                break
             yield MachoSection64(self, "section[]")
 
     def createValue(self):
-- 
2.43.0


From af770a78fb6990448f69c14bd9022f528f8663c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:31 +0000
Subject: [PATCH 157/160] fix: bplist: offsets of no size, input of unknown
 size, display of unknown objects

---
 hachoir/parser/misc/bplist.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/hachoir/parser/misc/bplist.py b/hachoir/parser/misc/bplist.py
index c139ddb..65f4248 100644
--- a/hachoir/parser/misc/bplist.py
+++ b/hachoir/parser/misc/bplist.py
@@ -17,7 +17,8 @@ Created: 2008-09-21
 
 from hachoir.parser import HachoirParser
 from hachoir.field import (RootSeekableFieldSet, FieldSet, Enum,
-                           Bits, GenericInteger, Float32, Float64, UInt8, UInt64, Bytes, NullBytes, RawBytes, String)
+                           Bits, GenericInteger, Float32, Float64, UInt8, UInt64, Bytes, NullBytes, RawBytes, String,
+                           ParserError)
 from hachoir.core.endian import BIG_ENDIAN
 from hachoir.core.text_handler import displayHandler
 from hachoir.core.tools import humanDatetime
@@ -44,6 +45,8 @@ class BPListOffsetTable(FieldSet):
 
     def createFields(self):
         size = self["../trailer/offsetIntSize"].value * 8
+        if not size:
+            raise ParserError("Invalid size of the offsets")
         for i in range(self["../trailer/numObjects"].value):
             yield Bits(self, "offset[]", size)
 
@@ -270,7 +273,7 @@ class BPListObject(FieldSet):
         elif self['marker_type'].value == 13:
             return '{}'
         else:
-            return None
+            return ''
 
     def createXML(self, prefix=''):
         # Read all fields to know the type of the object
@@ -305,16 +308,12 @@ class BPList(HachoirParser, RootSeekableFieldSet):
 
     def createFields(self):
         yield Bytes(self, "magic", 8, "File magic (bplist00)")
-        if self.size:
-            self.seekByte(self.size // 8 - 32, True)
-        else:
-            # FIXME: UNTESTED
-            while True:
-                try:
-                    self.seekByte(1024)
-                except Exception:
-                    break
-            self.seekByte(self.size // 8 - 32)
+        if self._size is None:
+            # The trailer is at the end: read the whole stream
+            size = 1024 * 8
+            while self.stream.sizeGe(size):
+                size *= 2
+        self.seekByte(self._size // 8 - 32)
         yield BPListTrailer(self, "trailer")
         self.seekByte(self['trailer/offsetTableOffset'].value)
         yield BPListOffsetTable(self, "offset_table")
-- 
2.43.0


From 1730f21cd676e2d017194af15f34442183577402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:38 +0000
Subject: [PATCH 158/160] fix: TIFF, CR2: the list of images doesn't stop the
 parser

---
 hachoir/parser/image/cr2.py  | 4 +++-
 hachoir/parser/image/tiff.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/image/cr2.py b/hachoir/parser/image/cr2.py
index c7c5866..7365419 100644
--- a/hachoir/parser/image/cr2.py
+++ b/hachoir/parser/image/cr2.py
@@ -102,7 +102,9 @@ class CR2File(RootSeekableFieldSet, Parser):
                 offsets.append((ifd['next'].value, 'ifd[]', IFD))
 
         for ifd in self.array('ifd'):
-            offs = (off for off, byte in getStrips(ifd))
+            offs = [off for off, byte in getStrips(ifd)]
+            if not offs:
+                continue
             self.seekByte(min(offs), relative=False)
             image = ImageFile(self, "image[]", "Image File", ifd)
             yield image
diff --git a/hachoir/parser/image/tiff.py b/hachoir/parser/image/tiff.py
index ce3bd28..7077ea3 100644
--- a/hachoir/parser/image/tiff.py
+++ b/hachoir/parser/image/tiff.py
@@ -75,10 +75,13 @@ class TiffFile(RootSeekableFieldSet, Parser):
     def createFields(self):
         yield from TIFF(self)
 
-        for ifd in self:
+        # Not "for ifd in self": this generator is already running
+        for ifd in list(self._fields.values):
             if not isinstance(ifd, IFD):
                 continue
-            offs = (off for off, byte in getStrips(ifd))
+            offs = [off for off, byte in getStrips(ifd)]
+            if not offs:
+                continue
             self.seekByte(min(offs), relative=False)
             image = ImageFile(self, "image[]", "Image File", ifd)
             yield image
-- 
2.43.0


From 08aa694c37afb117e7f9df667107033fdd5e041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:38 +0000
Subject: [PATCH 159/160] fix: parsers which need the size of the input read it
 when it is unknown

---
 hachoir/parser/archive/bzip2_parser.py   |  5 +----
 hachoir/parser/archive/cab.py            |  4 ++--
 hachoir/parser/archive/gzip_parser.py    |  5 +----
 hachoir/parser/archive/lzx.py            |  4 ++--
 hachoir/parser/archive/rpm.py            |  5 +----
 hachoir/parser/archive/tar.py            |  4 ++--
 hachoir/parser/audio/au.py               |  5 +++--
 hachoir/parser/audio/mpeg_audio.py       |  8 +++-----
 hachoir/parser/container/mp4.py          |  5 ++++-
 hachoir/parser/container/riff.py         |  6 ++++--
 hachoir/parser/container/swf.py          |  2 +-
 hachoir/parser/file_system/ext2.py       |  2 +-
 hachoir/parser/file_system/iso9660.py    |  4 ++--
 hachoir/parser/file_system/linux_swap.py |  2 +-
 hachoir/parser/file_system/mbr.py        |  7 +++++--
 hachoir/parser/game/laf.py               |  4 ++--
 hachoir/parser/image/bmp.py              |  5 +++--
 hachoir/parser/image/jpeg.py             |  6 +-----
 hachoir/parser/image/pcx.py              |  5 +----
 hachoir/parser/image/psd.py              |  2 +-
 hachoir/parser/image/tga.py              |  2 +-
 hachoir/parser/image/wmf.py              |  2 +-
 hachoir/parser/misc/bplist.py            |  7 +------
 hachoir/parser/misc/git_pack.py          |  4 ++--
 hachoir/parser/misc/ttf.py               |  2 +-
 hachoir/parser/network/tcpdump.py        |  2 +-
 hachoir/parser/parser.py                 | 12 ++++++++++++
 hachoir/parser/program/exe_res.py        |  7 +++++--
 28 files changed, 65 insertions(+), 63 deletions(-)

diff --git a/hachoir/parser/archive/bzip2_parser.py b/hachoir/parser/archive/bzip2_parser.py
index 6c8ba68..3e375ea 100644
--- a/hachoir/parser/archive/bzip2_parser.py
+++ b/hachoir/parser/archive/bzip2_parser.py
@@ -226,10 +226,7 @@ class Bzip2Parser(Parser):
         yield String(self, "id", 3, "Identifier (BZh)", charset="ASCII")
         yield Character(self, "blocksize", "Block size (KB of memory needed to uncompress)")
 
-        if self._size is None:  # TODO: is it possible to handle piped input?
-            raise NotImplementedError
-
-        size = (self._size - self.current_size) // 8
+        size = (self.readSize() - self.current_size) // 8
         if size:
             for tag in self.stream.tags:
                 # A tag can also be None or a function
diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index f6f37ca..17e0038 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -257,13 +257,13 @@ class CabFile(Parser):
             folder_files = [file for file in files
                             if file["folder_index"].value == index]
             if i + 1 == len(folders):
-                size = (self.size // 8) - folder["offset"].value
+                size = (self.readSize() // 8) - folder["offset"].value
             else:
                 size = (folders[i + 1][1]["offset"].value) - \
                     folder["offset"].value
             yield FolderData(self, "folder_data[%i]" % index, folder, folder_files, size=size * 8)
 
-        end = self.seekBit(self.size, "endraw")
+        end = self.seekBit(self.readSize(), "endraw")
         if end:
             yield end
 
diff --git a/hachoir/parser/archive/gzip_parser.py b/hachoir/parser/archive/gzip_parser.py
index 357a66c..0a1e941 100644
--- a/hachoir/parser/archive/gzip_parser.py
+++ b/hachoir/parser/archive/gzip_parser.py
@@ -94,11 +94,8 @@ class GzipParser(Parser):
             yield textHandler(UInt16(self, "hdr_crc16", "CRC16 of the header"),
                               hexadecimal)
 
-        if self._size is None:  # TODO: is it possible to handle piped input?
-            raise NotImplementedError()
-
         # Read file
-        size = (self._size - self.current_size) // 8 - 8  # -8: crc32+size
+        size = (self.readSize() - self.current_size) // 8 - 8  # -8: crc32+size
         if 0 < size:
             if self["has_filename"].value:
                 filename = self["filename"].value
diff --git a/hachoir/parser/archive/lzx.py b/hachoir/parser/archive/lzx.py
index 9ac7b4c..1fcd8ad 100644
--- a/hachoir/parser/archive/lzx.py
+++ b/hachoir/parser/archive/lzx.py
@@ -318,10 +318,10 @@ class LZXStream(Parser):
         yield Bit(self, "filesize_indicator")
         if self["filesize_indicator"].value:
             yield UInt32(self, "filesize")
-        while self.current_size < self.size:
+        while not self.eof:
             block = LZXBlock(self, "block[]")
             yield block
-            if self.size - self.current_size < 16:
+            if not self.stream.sizeGe(self.current_size + 16):
                 padding = paddingSize(self.address + self.current_size, 16)
                 if padding:
                     yield PaddingBits(self, "padding[]", padding)
diff --git a/hachoir/parser/archive/rpm.py b/hachoir/parser/archive/rpm.py
index 217eba0..4f945f1 100644
--- a/hachoir/parser/archive/rpm.py
+++ b/hachoir/parser/archive/rpm.py
@@ -264,10 +264,7 @@ class RpmFile(Parser):
             yield NullBytes(self, "padding", padding, "Padding (8 bytes align)")
         yield PropertySet(self, "header", "Header")
 
-        if self._size is None:  # TODO: is it possible to handle piped input?
-            raise NotImplementedError
-
-        size = (self._size - self.current_size) // 8
+        size = (self.readSize() - self.current_size) // 8
         if size:
             if 3 <= size and self.stream.readBytes(self.current_size, 3) == b"BZh":
                 yield SubFile(self, "content", size, "bzip2 content", parser=Bzip2Parser)
diff --git a/hachoir/parser/archive/tar.py b/hachoir/parser/archive/tar.py
index 8bb129e..9888ca2 100644
--- a/hachoir/parser/archive/tar.py
+++ b/hachoir/parser/archive/tar.py
@@ -121,8 +121,8 @@ class TarFile(Parser):
                 yield NullBytes(self, "terminator", 512)
                 break
             yield field
-        if self.current_size < self._size:
-            yield self.seekBit(self._size, "end")
+        if not self.eof:
+            yield self.seekBit(self.readSize(), "end")
 
     def createContentSize(self):
         return self["terminator"].address + self["terminator"].size
diff --git a/hachoir/parser/audio/au.py b/hachoir/parser/audio/au.py
index ba9ebfa..75f8583 100644
--- a/hachoir/parser/audio/au.py
+++ b/hachoir/parser/audio/au.py
@@ -82,8 +82,9 @@ class AuFile(Parser):
         if 0 < size:
             yield String(self, "info", size, "Information", strip=" \0", charset="ISO-8859-1")
 
-        size = min(self["data_size"].value,
-                   (self.size - self.current_size) // 8)
+        size = self["data_size"].value
+        if not self.stream.sizeGe(self.current_size + size * 8):
+            size = (self.readSize() - self.current_size) // 8
         yield RawBytes(self, "audio_data", size, "Audio data")
 
     def createContentSize(self):
diff --git a/hachoir/parser/audio/mpeg_audio.py b/hachoir/parser/audio/mpeg_audio.py
index e271e50..597450e 100644
--- a/hachoir/parser/audio/mpeg_audio.py
+++ b/hachoir/parser/audio/mpeg_audio.py
@@ -348,12 +348,10 @@ class MpegAudioFile(Parser):
         if self.stream.readBytes(0, 3) == b"ID3":
             yield ID3v2(self, "id3v2")
 
-        if self._size is None:  # TODO: is it possible to handle piped input?
-            raise NotImplementedError
-
         # Check if file is ending with ID3v1 or not and compute frames size
-        frames_size = self.size - self.current_size
-        addr = self.size - 128 * 8
+        size = self.readSize()
+        frames_size = size - self.current_size
+        addr = size - 128 * 8
         if 0 <= addr:
             has_id3 = (self.stream.readBytes(addr, 3) == b"TAG")
             if has_id3:
diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 43e57e7..45ed141 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -1252,7 +1252,10 @@ class Atom(FieldSet):
         elif size == 0:
             # Unbounded atom
             if self._size is None:
-                size = (self.parent.size - self.parent.current_size) // 8 - 8
+                size = self.parent.size
+                if size is None:
+                    size = self.root.readSize()
+                size = (size - self.parent.current_size) // 8 - 8
             else:
                 size = (self.size - self.current_size) // 8
         else:
diff --git a/hachoir/parser/container/riff.py b/hachoir/parser/container/riff.py
index 6211709..47f1c24 100644
--- a/hachoir/parser/container/riff.py
+++ b/hachoir/parser/container/riff.py
@@ -425,7 +425,7 @@ class RiffFile(Parser):
         while self.current_size < self["filesize"].value * 8 + 8:
             yield chunk_cls(self, "chunk[]")
         if not self.eof:
-            yield RawBytes(self, "padding[]", (self.size - self.current_size) // 8)
+            yield RawBytes(self, "padding[]", (self.readSize() - self.current_size) // 8)
 
     def createMimeType(self):
         try:
@@ -457,7 +457,9 @@ class RiffFile(Parser):
 
     def createContentSize(self):
         size = (self["filesize"].value + 8) * 8
-        return min(size, self.stream.size)
+        if not self.stream.sizeGe(size):
+            size = self.readSize()
+        return size
 
     def createFilenameSuffix(self):
         try:
diff --git a/hachoir/parser/container/swf.py b/hachoir/parser/container/swf.py
index 1c03812..b63698c 100644
--- a/hachoir/parser/container/swf.py
+++ b/hachoir/parser/container/swf.py
@@ -431,7 +431,7 @@ class SwfFile(Parser):
             while not self.eof:
                 yield Tag(self, "tag[]")
         else:
-            size = (self.size - self.current_size) // 8
+            size = (self.readSize() - self.current_size) // 8
             if has_deflate:
                 data = Deflate(Bytes(self, "compressed_data", size), False)
 
diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index e6f5b02..b2a3fda 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -320,7 +320,7 @@ class Directory(Parser):
     endian = LITTLE_ENDIAN
 
     def createFields(self):
-        while self.current_size < self.size:
+        while not self.eof:
             yield DirectoryEntry(self, "entry[]")
 
     def validate(self):
diff --git a/hachoir/parser/file_system/iso9660.py b/hachoir/parser/file_system/iso9660.py
index 69db2e1..967edd4 100644
--- a/hachoir/parser/file_system/iso9660.py
+++ b/hachoir/parser/file_system/iso9660.py
@@ -149,5 +149,5 @@ class ISO9660(Parser):
             if volume["type"].value == Volume.TERMINATOR:
                 break
 
-        if self.current_size < self._size:
-            yield self.seekBit(self._size, "end")
+        if not self.eof:
+            yield self.seekBit(self.readSize(), "end")
diff --git a/hachoir/parser/file_system/linux_swap.py b/hachoir/parser/file_system/linux_swap.py
index b521ba1..d6d268b 100644
--- a/hachoir/parser/file_system/linux_swap.py
+++ b/hachoir/parser/file_system/linux_swap.py
@@ -114,6 +114,6 @@ class LinuxSwapFile(Parser):
         yield GenericVector(self, "pages", self["last_page"].value, Page, "page")
 
         # Padding at the end
-        padding = self.seekBit(self.size, "end_padding", null=True)
+        padding = self.seekBit(self.readSize(), "end_padding", null=True)
         if padding:
             yield padding
diff --git a/hachoir/parser/file_system/mbr.py b/hachoir/parser/file_system/mbr.py
index 362afa6..7fd0f07 100644
--- a/hachoir/parser/file_system/mbr.py
+++ b/hachoir/parser/file_system/mbr.py
@@ -208,8 +208,11 @@ class Partition(FieldSet):
                 yield RawBytes(self, name, size, desc)
 
         # Padding at the end
-        if self.current_size < self._size:
-            yield self.seekBit(self._size, "end")
+        if not self.eof:
+            size = self._size
+            if size is None:
+                size = self.root.readSize()
+            yield self.seekBit(size, "end")
 
 
 class MSDos_HardDrive(Parser, Partition):
diff --git a/hachoir/parser/game/laf.py b/hachoir/parser/game/laf.py
index 993dadc..e466d6a 100644
--- a/hachoir/parser/game/laf.py
+++ b/hachoir/parser/game/laf.py
@@ -94,5 +94,5 @@ class LafFile(Parser):
         yield CharData(self["chars"], self, "char_data")
 
         # read to the end
-        if self.current_size < self._size:
-            yield self.seekBit(self._size, "unknown[]")
+        if not self.eof:
+            yield self.seekBit(self.readSize(), "unknown[]")
diff --git a/hachoir/parser/image/bmp.py b/hachoir/parser/image/bmp.py
index 518fdc2..6b2d327 100644
--- a/hachoir/parser/image/bmp.py
+++ b/hachoir/parser/image/bmp.py
@@ -196,8 +196,9 @@ class BmpFile(Parser):
             yield field
 
         # Image pixels
-        size = min(self["file_size"].value - self["data_start"].value,
-                   (self.size - self.current_size) // 8)
+        size = self["file_size"].value - self["data_start"].value
+        if not self.stream.sizeGe(self.current_size + size * 8):
+            size = (self.readSize() - self.current_size) // 8
         yield parseImageData(self, "pixels", size, header)
 
     def createDescription(self):
diff --git a/hachoir/parser/image/jpeg.py b/hachoir/parser/image/jpeg.py
index e05e306..3edabb4 100644
--- a/hachoir/parser/image/jpeg.py
+++ b/hachoir/parser/image/jpeg.py
@@ -611,12 +611,8 @@ class JpegFile(Parser):
                 restart_offset += 1
                 yield JpegImageData(self, "image_data[]", frame, scan, restart_interval, restart_offset)
 
-        # TODO: is it possible to handle piped input?
-        if self._size is None:
-            raise NotImplementedError
-
         has_end = False
-        size = (self._size - self.current_size) // 8
+        size = (self.readSize() - self.current_size) // 8
         if size:
             if 2 < size \
                     and self.stream.readBytes(self._size - 16, 2) == b"\xff\xd9":
diff --git a/hachoir/parser/image/pcx.py b/hachoir/parser/image/pcx.py
index a204b1c..1382ffa 100644
--- a/hachoir/parser/image/pcx.py
+++ b/hachoir/parser/image/pcx.py
@@ -59,11 +59,8 @@ class PcxFile(Parser):
         yield UInt16(self, "color_mode", "Color mode")
         yield PaddingBytes(self, "reserved[]", 58)
 
-        if self._size is None:  # TODO: is it possible to handle piped input?
-            raise NotImplementedError
-
         nb_colors = 256
-        size = (self._size - self.current_size) // 8
+        size = (self.readSize() - self.current_size) // 8
         has_palette = self["bpp"].value == 8
         if has_palette:
             size -= nb_colors * 3
diff --git a/hachoir/parser/image/psd.py b/hachoir/parser/image/psd.py
index 4cc89e4..ba28427 100644
--- a/hachoir/parser/image/psd.py
+++ b/hachoir/parser/image/psd.py
@@ -82,6 +82,6 @@ class PsdFile(Parser):
 
         yield Enum(UInt16(self, "compression"), self.COMPRESSION_NAME)
 
-        size = (self.size - self.current_size) // 8
+        size = (self.readSize() - self.current_size) // 8
         if size:
             yield RawBytes(self, "end", size)
diff --git a/hachoir/parser/image/tga.py b/hachoir/parser/image/tga.py
index a26d992..630d334 100644
--- a/hachoir/parser/image/tga.py
+++ b/hachoir/parser/image/tga.py
@@ -101,6 +101,6 @@ class TargaFile(Parser):
         if self["codec"].value in (1, 2, 3):
             yield Pixels(self, "pixels")
         else:
-            size = (self.size - self.current_size) // 8
+            size = (self.readSize() - self.current_size) // 8
             if size:
                 yield RawBytes(self, "raw_pixels", size)
diff --git a/hachoir/parser/image/wmf.py b/hachoir/parser/image/wmf.py
index a2b3576..0a814e7 100644
--- a/hachoir/parser/image/wmf.py
+++ b/hachoir/parser/image/wmf.py
@@ -605,7 +605,7 @@ class WMF_File(Parser):
         """File is in EMF format?"""
         if 1 <= self.current_length:
             return self[0].name == "emf_header"
-        if self.size < 44 * 8:
+        if not self.stream.sizeGe(44 * 8):
             return False
         magic = EMF_Header.MAGIC
         return self.stream.readBytes(40 * 8, len(magic)) == magic
diff --git a/hachoir/parser/misc/bplist.py b/hachoir/parser/misc/bplist.py
index 65f4248..4c4f9bd 100644
--- a/hachoir/parser/misc/bplist.py
+++ b/hachoir/parser/misc/bplist.py
@@ -308,12 +308,7 @@ class BPList(HachoirParser, RootSeekableFieldSet):
 
     def createFields(self):
         yield Bytes(self, "magic", 8, "File magic (bplist00)")
-        if self._size is None:
-            # The trailer is at the end: read the whole stream
-            size = 1024 * 8
-            while self.stream.sizeGe(size):
-                size *= 2
-        self.seekByte(self._size // 8 - 32)
+        self.seekByte(self.readSize() // 8 - 32)
         yield BPListTrailer(self, "trailer")
         self.seekByte(self['trailer/offsetTableOffset'].value)
         yield BPListOffsetTable(self, "offset_table")
diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 73ea1f1..4d2ece6 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -30,7 +30,7 @@ class ObjCommitParser(Parser):
         yield String(self, "keyword_tree", 5)
         yield String(self, "tree_id", 40)
         yield String(self, "newline[]", 1)
-        yield String(self, "remaining_text", (self.size - self.current_size) // 8)
+        yield String(self, "remaining_text", (self.readSize() - self.current_size) // 8)
         # FIXME: parse more fields. Is the order static?
 
 
@@ -50,7 +50,7 @@ class ObjOfsDeltaParser(Parser):
         yield VarLengthInt(self, "source_length")
         yield VarLengthInt(self, "target_length")
 
-        while self.current_size < self._size:
+        while not self.eof:
             yield DeltaInstruction(self, "instruction[]")
 
 
diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index 862c595..385cb54 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -816,6 +816,6 @@ class TrueTypeFontFile(Parser):
             if padding:
                 yield padding
             yield Table(self, "table[]", table, size=size * 8)
-        padding = self.seekBit(self.size, null=True)
+        padding = self.seekBit(self.readSize(), null=True)
         if padding:
             yield padding
diff --git a/hachoir/parser/network/tcpdump.py b/hachoir/parser/network/tcpdump.py
index 7d95015..2e4c09e 100644
--- a/hachoir/parser/network/tcpdump.py
+++ b/hachoir/parser/network/tcpdump.py
@@ -531,5 +531,5 @@ class TcpdumpFile(Parser):
         if link not in self.LINK_TYPE:
             raise ParserError("Unknown link type: %s" % link)
         name, parser = self.LINK_TYPE[link]
-        while self.current_size < self.size:
+        while not self.eof:
             yield Packet(self, "packet[]", parser, name)
diff --git a/hachoir/parser/parser.py b/hachoir/parser/parser.py
index 5460986..aa133f6 100644
--- a/hachoir/parser/parser.py
+++ b/hachoir/parser/parser.py
@@ -43,6 +43,18 @@ class HachoirParser(object):
             raise ValidateError(res or "no reason given")
         self._autofix = True
 
+    def readSize(self):
+        """
+        Size of the input in bits. If it is still unknown (pipe),
+        the input is read up to its end.
+        """
+        size = self._current_size + 8
+        while self._size is None and self.stream.sizeGe(size):
+            size *= 2
+        if self._size is None:
+            return self.stream.size
+        return self._size
+
     # --- Methods that can be overridden -------------------------------------
     def createDescription(self):
         """
diff --git a/hachoir/parser/program/exe_res.py b/hachoir/parser/program/exe_res.py
index f7ffaea..61cf254 100644
--- a/hachoir/parser/program/exe_res.py
+++ b/hachoir/parser/program/exe_res.py
@@ -119,8 +119,11 @@ class VersionInfoBinary(FieldSet):
 def versionNodeSize(node):
     # A node is padded to 32 bits, except if it is at the end of its parent
     size = alignValue(node["size"].value, 4) * 8
-    if node.parent.size is not None:
-        size = min(size, node.parent.size - node.address)
+    parent = node.parent
+    if parent._size is not None:
+        size = min(size, parent._size - node.address)
+    elif not parent.parent and not parent.stream.sizeGe(node.address + size):
+        size = parent.readSize() - node.address
     return size
 
 
-- 
2.43.0


From ee7c306b2909746af149469c22c4e71e0461b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:23:26 +0000
Subject: [PATCH 160/160] fix: urwid: mark of the field set which is unfolded
 by a link

---
 hachoir/urwid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/urwid.py b/hachoir/urwid.py
index 12e41ff..591b0ad 100644
--- a/hachoir/urwid.py
+++ b/hachoir/urwid.py
@@ -194,6 +194,9 @@ class Walker(ListWalker):
     def read(self, pos, number, first=False):
         if first:
             number = number - pos.field.current_length
+        if not pos.childs:
+            # draw the mark of an unfolded field set
+            pos.flags = 0
         pos.field.readMoreFields(number)
         pos.sync()
         self.sync()
-- 
2.43.0

