From f5597f5f7b618a10ae009ad1010ce3eaeaf98465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 001/155] fix: iterating a field set must yield the last field
 when it stops the parser

When getting the size of a field set fails at the end of the data, _addField()
keeps the truncated field and stops the parser: __iter__() did not yield this
field, whereas len(), [] and a second iteration see it.
---
 hachoir/field/generic_field_set.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 74d8898..e9eb276 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -388,21 +388,25 @@ class GenericFieldSet(BasicFieldSet):
                     yield field
                     done += 1
         except StopIteration:
-            field = self._stopFeeding()
-            if isinstance(field, Field):
-                yield field
-            elif hasattr(field, '__iter__'):
-                for f in field:
-                    yield f
+            yield from self._lastFields(done, self._stopFeeding())
         except Exception as err:
-            field = self._fixFeedError(err)
-            if isinstance(field, Field):
-                yield field
-            elif hasattr(field, '__iter__'):
-                for f in field:
-                    yield f
-            elif field is False:
+            new_fields = self._fixFeedError(err)
+            if new_fields is False:
                 raise
+            yield from self._lastFields(done, new_fields)
+
+    def _lastFields(self, done, new_fields):
+        """
+        Fields left to iterate when feeding just stopped: 'done' is the number
+        of fields already iterated, and 'new_fields' is the field (or the list
+        of fields) added by _fixLastField(). The field read just before may
+        also be left, if it was added but asked to stop (see _addField).
+        """
+        if isinstance(new_fields, Field):
+            new_fields = [new_fields]
+        if new_fields:
+            done = min(done, len(self._fields) - len(new_fields))
+        return self._fields.values[done:]
 
     def _isDone(self):
         return (self._field_generator is None)
-- 
2.43.0


From 9c621412b38f489bdcb18d82ec21ccb4161ead93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 002/155] fix: truncated files parsed with seekable field sets
 raised IndexError

_fixLastField() computed the current position as if fields were contiguous, so
a seek past the end of a truncated file deleted every field and then raised
IndexError (or ValueError if no field was left).
---
 hachoir/field/seekable_field_set.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index 4448f42..842f4bf 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -57,16 +57,19 @@ class RootSeekableFieldSet(GenericFieldSet):
         message = ["stop parser"]
         self._field_generator = None
 
-        # If last field is too big, delete it
-        while self._size < self._current_size:
-            field = self._deleteField(len(self._fields) - 1)
-            message.append("delete field %s" % field.path)
-        assert self._current_size <= self._size
+        # If current position is after the end, delete fields which are too big
+        if self._size < self._current_size:
+            for index in reversed(range(len(self._fields))):
+                field = self._fields.values[index]
+                if self._size < field.address + field.size:
+                    del self._fields[index]
+                    message.append("delete field %s" % field.path)
+            self._current_size = self._size
 
         blocks = [(x.absolute_address, x.size) for x in self._fields]
         fields = []
-        self._size = max(self._size, max(
-            a + b for a, b in blocks) - self.absolute_address)
+        self._size = max([self._size] + [a + b - self.absolute_address
+                                         for a, b in blocks])
         for start, length in getgaps(self.absolute_address, self._size, blocks):
             self.seekBit(start, relative=False)
             field = createRawField(self, length, "unparsed[]")
-- 
2.43.0


From fdab603bd924a4ef51b89e8091d4497832bf2da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 003/155] fix: the "first" link of a fragment had no value

Field.value calls createValue(); _getValue is not used since the port to
Python 3, so the link looked for a field named after its own display.
---
 hachoir/field/link.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/field/link.py b/hachoir/field/link.py
index 0fae24e..dbdb092 100644
--- a/hachoir/field/link.py
+++ b/hachoir/field/link.py
@@ -93,7 +93,7 @@ class Fragment(FieldSet):
             field = None
         if self._first is not self:
             link = Link(self, "first", None)
-            link._getValue = lambda: self._first
+            link.createValue = lambda: self._first
             yield link
         if self._next:
             link = Link(self, "next", None)
-- 
2.43.0


From 243e50fb05215806d2276a9590bf8278a5bed132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 004/155] fix: packets of an Ogg stream made of several pages

Fragment has no __next__ attribute (2to3 converted .next to .__next__).
---
 hachoir/parser/container/ogg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 46b6a4b..3ad4ccd 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -178,7 +178,7 @@ class Packets:
                     if size:
                         yield size * 8
                     size = segment_size
-            fragment = fragment.__next__
+            fragment = fragment.next
         if size:
             yield size * 8
 
-- 
2.43.0


From dd80b54143389aa1da899c020cb916daf49dbbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 005/155] fix: first page of an Ogg stream depended on the
 order of accesses

The first page of a logical stream was the page whose segments were accessed
first, instead of the first page in the file: reading page[7]/segments first
lost pages 0 to 6 of the stream, and changed the fields of every page.
---
 hachoir/parser/container/ogg.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 3ad4ccd..982901d 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -191,8 +191,14 @@ class Segments(Fragment):
             next = None
         else:
             next = self.createNext
-        self.setLinks(parent.parent.streams.setdefault(
-            parent['serial'].value, self), next)
+        # The first page doesn't depend on which segments are accessed first
+        first = parent.parent.streams.setdefault(
+            parent['serial'].value, parent)
+        if first is parent:
+            first = self
+        else:
+            first = first['segments']
+        self.setLinks(first, next)
 
     def _createInputStream(self, **args):
         if self.first is self:
@@ -317,7 +323,10 @@ class OggFile(Parser):
     def createFields(self):
         self.streams = {}
         while not self.eof:
-            yield OggPage(self, "page[]")
+            page = OggPage(self, "page[]")
+            yield page
+            if page.lacing_size:
+                self.streams.setdefault(page['serial'].value, page)
 
     def createLastPage(self):
         start = self[0].size
-- 
2.43.0


From 1fb7ce4fb3a78c5d4e8aa17a7433580bb2f58346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 006/155] fix: ReiserFS block numbers depended on what was
 parsed before

The number of a block came from a counter shared by every parser of the
process: parsing a second file, or another bitmap block first, gave wrong
numbers.
---
 hachoir/parser/file_system/reiser_fs.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/file_system/reiser_fs.py b/hachoir/parser/file_system/reiser_fs.py
index da6ffde..8c66556 100644
--- a/hachoir/parser/file_system/reiser_fs.py
+++ b/hachoir/parser/file_system/reiser_fs.py
@@ -34,13 +34,10 @@ class BlockState(Bit):
         False: "free"
     }
 
-    block_nb = 0
-
     def __init__(self, parent, name, nb_block):
         """@param nb_block: Number of the block concerned"""
         Bit.__init__(self, parent, name)
-        self.block_nb = self.__class__.block_nb
-        self.__class__.block_nb += 1
+        self.block_nb = nb_block
 
     def createDescription(self):
         return "State of the block %d" % self.block_nb
@@ -55,11 +52,17 @@ class BitmapBlock(SeekableFieldSet):
         the state of a block to tell if it is used or not.
     """
 
+    def __init__(self, parent, name, nb_bitmap, description=None):
+        """@param nb_bitmap: Number of the bitmap block"""
+        SeekableFieldSet.__init__(self, parent, name, description)
+        self.nb_bitmap = nb_bitmap
+
     def createFields(self):
         block_size = self["/superblock/blocksize"].value
 
+        first = self.nb_bitmap * block_size * 8
         for i in range(0, block_size * 8):
-            yield BlockState(self, "block[]", i)
+            yield BlockState(self, "block[]", first + i)
 
 
 class BitmapBlockGroup(SeekableFieldSet):
@@ -71,11 +74,11 @@ class BitmapBlockGroup(SeekableFieldSet):
         # Position of the first bitmap block
         self.seekByte(REISER_FS.SUPERBLOCK_OFFSET + block_size, relative=False)
 
-        yield BitmapBlock(self, "BitmapBlock[]", "Bitmap blocks tells for each block if it is used")
+        yield BitmapBlock(self, "BitmapBlock[]", 0, "Bitmap blocks tells for each block if it is used")
         # The other bitmap blocks
         for i in range(1, nb_bitmap_block):
             self.seekByte((block_size**2) * 8 * i, relative=False)
-            yield BitmapBlock(self, "BitmapBlock[]", "Bitmap blocks tells for each block if it is used")
+            yield BitmapBlock(self, "BitmapBlock[]", i, "Bitmap blocks tells for each block if it is used")
 
 
 class Journal_params(FieldSet):
-- 
2.43.0


From cdc2a43a881ac8bc40a89b21c653c0a3ead99c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 007/155] fix: endless loop on a truncated git pack file

At the end of the stream, 0 byte was read and decompressed again and again.
---
 hachoir/parser/misc/git_pack.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 74dcfe9..6bb558e 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -7,7 +7,8 @@ FIXME: there are probably still some endianness bugs in this parser.
 """
 
 from hachoir.parser import Parser
-from hachoir.field import (UInt8, UInt32, String, SubFile, FieldSet, Bit, Bits, RawBytes, Enum, GenericInteger)
+from hachoir.field import (UInt8, UInt32, String, SubFile, FieldSet, Bit, Bits, RawBytes, Enum, GenericInteger,
+                           ParserError)
 from hachoir.core.endian import LITTLE_ENDIAN, BIG_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.parser.common.deflate import Deflate
@@ -199,6 +200,8 @@ class ObjectEntry(FieldSet):
         total_bytes_read = 0
         while not decompressor.eof:
             max_remaining_bytes = (stream.size - read_addr_in_bits) // 8
+            if max_remaining_bytes <= 0:
+                raise ParserError("Truncated compressed data")
             num_bytes_to_read = min(1000, max_remaining_bytes)
             bytes_read = stream.readBytes(read_addr_in_bits, num_bytes_to_read)
             total_bytes_read += len(bytes_read)
-- 
2.43.0


From 692c4e64ba9140d4702e4417886a9ed51d7399f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 008/155] fix: description of EXE resource names depended on
 the order of accesses

Reading the description of a name entry before the name itself was parsed
logged an error and gave an empty description, for good.
---
 hachoir/parser/program/exe_res.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hachoir/parser/program/exe_res.py b/hachoir/parser/program/exe_res.py
index e943b81..b32c8c8 100644
--- a/hachoir/parser/program/exe_res.py
+++ b/hachoir/parser/program/exe_res.py
@@ -13,7 +13,7 @@ from hachoir.field import (FieldSet, ParserError, Enum,
                            Bit, Bits, SeekableFieldSet,
                            UInt16, UInt32, TimestampUnix32,
                            Bytes, RawBytes, PaddingBytes, NullBytes, NullBits,
-                           CString, String)
+                           CString, String, createOrphanField)
 from hachoir.core.text_handler import textHandler, filesizeHandler, hexadecimal
 from hachoir.core.tools import createDict, paddingSize, alignValue, makePrintable
 from hachoir.parser.common.win32 import BitmapInfoHeader
@@ -233,16 +233,19 @@ class Entry(FieldSet):
 
 class NameOffset(FieldSet):
 
-    def __init__(self, parent, name):
-        FieldSet.__init__(self, parent, name)
-        self.name_field = None
-
     def createFields(self):
         yield Bits(self, "name_offset", 31)
         yield Bit(self, "is_name")
         yield Bits(self, "offset", 31)
         yield Bit(self, "is_subdir")
 
+    @property
+    def name_field(self):
+        # Don't depend on which fields of the resource are already read
+        resource = self.parent.parent
+        return createOrphanField(resource, self["name_offset"].value * 8,
+                                 WidePascalString16, "name")
+
     def getResType(self):
         return self.name_field.value
 
@@ -392,9 +395,7 @@ class PE_Resource(SeekableFieldSet):
             if index["is_subdir"].value:
                 indexes.append(index)
             self.seekByte(index["name_offset"].value)
-            field = WidePascalString16(self, name.replace("directory", "name"))
-            index.name_field = field
-            yield field
+            yield WidePascalString16(self, name.replace("directory", "name"))
 
         for index in directory.array("index"):
             if index["is_subdir"].value:
-- 
2.43.0


From 00e63cb032ed827fda0eabea76cfccdc51edad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 009/155] fix: display of a string depended on whether its
 value was read before

Without explicit charset, the value was escaped only if reading the value
had already guessed the charset.
---
 hachoir/field/string_field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 742634d..872fbfd 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -302,10 +302,11 @@ class GenericString(Bytes):
             if self._raw_value is None:
                 self._raw_value = GenericString.createValue(self, False)
             value = makePrintable(self._raw_value, "ASCII")
-        elif self._charset:
-            value = makePrintable(self.value, "ISO-8859-1")
         else:
+            # Reading the value may set the charset
             value = self.value
+            if self._charset:
+                value = makePrintable(value, "ISO-8859-1")
         if config.max_string_length < len(value):
             # Truncate string if needed
             value = "%s(...)" % value[:config.max_string_length]
-- 
2.43.0


From 81f751197e22c1494261d19c84c03df3bde73fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 010/155] fix: reading the content of a bzip2 file raised
 TypeError

The decompressor got and returned str instead of bytes.
---
 hachoir/parser/archive/bzip2_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/archive/bzip2_parser.py b/hachoir/parser/archive/bzip2_parser.py
index 2e91d69..b52b174 100644
--- a/hachoir/parser/archive/bzip2_parser.py
+++ b/hachoir/parser/archive/bzip2_parser.py
@@ -22,11 +22,11 @@ try:
         def __init__(self, stream):
             self.bzip2 = BZ2Decompressor()
 
-        def __call__(self, size, data=''):
+        def __call__(self, size, data=b''):
             try:
                 return self.bzip2.decompress(data)
             except EOFError:
-                return ''
+                return b''
 
     has_deflate = True
 except ImportError:
-- 
2.43.0


From 8f2bba880739bf5727c1c57a40fc05712bc8414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 011/155] fix: content of a fragmented file depended on which
 fragments were read

Asking the stream of a file (ext2, OLE2, ...) before all its fragments were
parsed returned only the first fragments, without any error.
---
 hachoir/field/fragment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/field/fragment.py b/hachoir/field/fragment.py
index 43fb6bb..116d11f 100644
--- a/hachoir/field/fragment.py
+++ b/hachoir/field/fragment.py
@@ -40,6 +40,10 @@ class CustomFragment(FieldSet):
         yield RawBytes(self, "rawdata", self.field_size // 8)
 
     def _createInputStream(self, **args):
+        # The next fragments of the group may be not read yet. Read them,
+        # except if the parent is already being read.
+        if not self.parent.done:
+            self.parent._feedUntil(None)
         return self.group.createInputStream()
 
     def createValue(self):
-- 
2.43.0


From 974fdd664b73225c0d58c86227d4c8b215d21f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 012/155] fix: a substream must not read past its end

---
 hachoir/stream/input.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index e5fc16d..64905d3 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -474,7 +474,7 @@ class InputSubStream(InputStream):
             offset = 0
         if size is None and stream.size is not None:
             size = stream.size - offset
-        if size <= 0:
+        if size is not None and size <= 0:
             raise ValueError("InputSubStream: offset is outside input stream")
         self.stream = stream
         self._offset = offset
@@ -484,13 +484,19 @@ class InputSubStream(InputStream):
         InputStream.__init__(self, source=source, size=size, **args)
         self.stream.askSize(self)
 
-    _current_size = property(lambda self: min(
-        self._size, max(0, self.stream._current_size - self._offset)))
+    def __current_size(self):
+        size = max(0, self.stream._current_size - self._offset)
+        if self._size is not None:
+            size = min(self._size, size)
+        return size
+    _current_size = property(__current_size)
 
     def close(self):
         self.stream = None
 
     def read(self, address, size):
+        if self._size is not None and self._size < address + size:
+            raise ReadStreamError(size, address, max(0, self._size - address))
         return self.stream.read(self._offset + address, size)
 
 
-- 
2.43.0


From 7bc6645b4685e844207685cd98b6157a8c55468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 013/155] fix: a short read of a pipe is not the end of the
 stream

---
 hachoir/stream/input.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 64905d3..7de6b5d 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -163,7 +163,11 @@ class InputStream(Logger):
                 for client in self._set_size:
                     client = client()
                     if client:
-                        client._setSize(self._size)
+                        try:
+                            client._setSize(self._size)
+                        except NullStreamError:
+                            # the client is empty, not this stream
+                            pass
                 del self._set_size
 
     size = property(lambda self: self._size, doc="Size of the stream in bits")
@@ -313,6 +317,7 @@ class InputPipe(object):
     buffer_size = 16
     last = None
     size = None
+    _partial = b''
 
     def __init__(self, input, set_size=None):
         self._input = input
@@ -368,18 +373,32 @@ class InputPipe(object):
         assert 0 <= address
         self.address = address
 
+    def _readBlock(self):
+        # A pipe may return less data than requested before its end: only an
+        # empty read means that the end is reached. If a read fails, data
+        # which was already read is kept for the next call.
+        size = 1 << self.buffer_size
+        while len(self._partial) < size:
+            data = self._input.read(size - len(self._partial))
+            if not data:
+                break
+            self._partial += data
+        data = self._partial
+        self._partial = b''
+        return data
+
     def read(self, size):
         end = self.address + size
-        for i in range(len(self.buffers), (end >> self.buffer_size) + 1):
-            data = self._input.read(1 << self.buffer_size)
+        while self.size is None \
+                and len(self.buffers) <= end >> self.buffer_size:
+            data = self._readBlock()
+            length = (len(self.buffers) << self.buffer_size) + len(data)
+            if data:
+                self._append(data)
             if len(data) < 1 << self.buffer_size:
-                self.size = (len(self.buffers) << self.buffer_size) + len(data)
+                self.size = length
                 if self.set_size:
                     self.set_size(self.size)
-                if data:
-                    self._append(data)
-                break
-            self._append(data)
         block, offset = divmod(self.address, 1 << self.buffer_size)
         data = b''.join(self._get(index)
                         for index in range(block, (end - 1 >> self.buffer_size) + 1)
-- 
2.43.0


From 1fcfeb1caeea5833050f0ab5f05b69fe6e967719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 014/155] fix: searchBytes() on a stream of unknown size raised
 ReadStreamError

---
 hachoir/stream/input.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 7de6b5d..ea492e4 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -257,22 +257,22 @@ class InputStream(Logger):
         size = max(3 * length, 4096)
         buffer = b''
 
-        if self._size and (end_address is None or self._size < end_address):
-            end_address = self._size
-
         while True:
+            # the size of the stream may be found by the previous read
+            if self._size and (end_address is None or self._size < end_address):
+                end_address = self._size
             if end_address is not None:
                 todo = (end_address - start_address) >> 3
-                if todo < size:
-                    if todo <= 0:
-                        return None
-                    size = todo
-            data = self.readBytes(start_address, size)
-            if end_address is None and self._size:
-                end_address = self._size
-                size = (end_address - start_address) >> 3
-                assert size > 0
-                data = data[:size]
+                if todo <= 0:
+                    return None
+                size = min(size, todo)
+            shift, data, missing = self.read(start_address, 8 * size)
+            if shift:
+                raise InputStreamError("TODO: handle non-byte-aligned data")
+            if missing:
+                # the end of the stream has just been reached
+                size = len(data)
+                end_address = start_address + 8 * size
             start_address += 8 * size
             buffer = buffer[len(buffer) - length + 1:] + data
             found = buffer.find(needle)
-- 
2.43.0


From 5efc0faf189d0beebc62fd46c3d20a27b1e7b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 015/155] fix: file views of a file stream shared one file
 offset with the stream

---
 hachoir/stream/input.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index ea492e4..b00d54c 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -456,15 +456,6 @@ class InputIOStream(InputStream):
             raise ReadStreamError(8 * size, 8 * address, 8 * got)
         return shift, data, missing
 
-    def file(self):
-        if hasattr(self._input, "fileno"):
-            from os import dup, fdopen
-            new_fd = dup(self._input.fileno())
-            new_file = fdopen(new_fd, "rb")
-            new_file.seek(0)
-            return new_file
-        return InputStream.file(self)
-
 
 class StringInputStream(InputStream):
 
-- 
2.43.0


From 62dbaca3dc1b354c36536323c2dfc7177fd71710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 016/155] fix: FileFromInputStream.read() of a stream of
 unknown size

---
 hachoir/stream/input.py | 71 +++++++++++------------------------------
 1 file changed, 19 insertions(+), 52 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index b00d54c..59ec1be 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -52,10 +52,13 @@ class FileFromInputStream:
         else:
             self._size = size // 8
 
+    def _feedSize(self):
+        while self._size is None:
+            self.stream._feed(max(self.stream._current_size << 1, 1 << 16))
+
     def tell(self):
         if self._from_end:
-            while self._size is None:
-                self.stream._feed(max(self.stream._current_size << 1, 1 << 16))
+            self._feedSize()
             self._from_end = False
             self._offset += self._size
         return self._offset
@@ -73,56 +76,20 @@ class FileFromInputStream:
             raise ValueError("seek() second argument must be 0, 1 or 2")
 
     def read(self, size=None):
-        def read(address, size):
-            shift, data, missing = self.stream.read(8 * address, 8 * size)
-            if shift:
-                raise InputStreamError("TODO: handle non-byte-aligned data")
-            return data
-        if self._size or size is not None and not self._from_end:
-            # We don't want self.tell() to read anything
-            # and the size must be known if we read until the end.
-            pos = self.tell()
-            if size is None or (self._size is not None and self._size < pos + size):
-                size = self._size - pos
-            if size <= 0:
-                return b''
-            data = read(pos, size)
-            self._offset += len(data)
-            return data
-        elif self._from_end:
-            # TODO: not tested
-            max_size = - self._offset
-            if size is None or max_size < size:
-                size = max_size
-            if size <= 0:
-                return b''
-            data = b'', b''
-            self._offset = max(
-                0, self.stream._current_size // 8 + self._offset)
-            self._from_end = False
-            bs = max(max_size, 1 << 16)
-            while True:
-                d = read(self._offset, bs)
-                data = data[1], d
-                self._offset += len(d)
-                if self._size:
-                    bs = self._size - self._offset
-                    if not bs:
-                        data = data[0] + data[1]
-                        d = len(data) - max_size
-                        return data[d:d + size]
-        else:
-            # TODO: not tested
-            data = []
-            size = 1 << 16
-            while True:
-                d = read(self._offset, size)
-                data.append(d)
-                self._offset += len(d)
-                if self._size:
-                    size = self._size - self._offset
-                    if not size:
-                        return b''.join(data)
+        pos = self.tell()
+        if size is None or size < 0:
+            # the size must be known if we read until the end
+            self._feedSize()
+            size = self._size - pos
+        elif self._size is not None and self._size < pos + size:
+            size = self._size - pos
+        if size <= 0:
+            return b''
+        shift, data, missing = self.stream.read(8 * pos, 8 * size)
+        if shift:
+            raise InputStreamError("TODO: handle non-byte-aligned data")
+        self._offset = pos + len(data)
+        return data
 
 
 class InputStream(Logger):
-- 
2.43.0


From 5f2fe2c34479280d7a783802baf5d5db0138d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:53 +0000
Subject: [PATCH 017/155] fix: len() of a field array was wrong after a request
 of a missing item

---
 hachoir/field/fake_array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/field/fake_array.py b/hachoir/field/fake_array.py
index 0f8cbb8..caf274f 100644
--- a/hachoir/field/fake_array.py
+++ b/hachoir/field/fake_array.py
@@ -65,7 +65,10 @@ class FakeArray:
             try:
                 value = self.fieldset[self._format % index]
             except MissingField:
-                self._known_size = True
+                # The size is only known when the first missing item is
+                # requested and no more field can be added
+                if index == self._max_index + 1 and self.fieldset.done:
+                    self._known_size = True
                 raise
             self._cache[index] = value
             self._max_index = max(index, self._max_index)
-- 
2.43.0


From d1183dadc9c7036cef4455fe40a82edcaaccd64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:07 +0000
Subject: [PATCH 018/155] fix: deleting the last fields of a big field set took
 a quadratic time

---
 hachoir/core/dict.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/hachoir/core/dict.py b/hachoir/core/dict.py
index c55e3f4..8c933bf 100644
--- a/hachoir/core/dict.py
+++ b/hachoir/core/dict.py
@@ -141,18 +141,11 @@ class Dict(object):
             raise IndexError("list assignment index out of range (%s/%s)"
                              % (index, len(self._value_list)))
         del self._value_list[index]
-        del self._key_list[index]
-
-        # First loop which may alter self._index
-        for key, item_index in self._index.items():
-            if item_index == index:
-                del self._index[key]
-                break
-
-        # Second loop update indexes
-        for key, item_index in self._index.items():
-            if index < item_index:
-                self._index[key] -= 1
+        del self._index[self._key_list.pop(index)]
+
+        # Update indexes of the next items
+        for key in self._key_list[index:]:
+            self._index[key] -= 1
 
     def insert(self, index, key, value):
         """
-- 
2.43.0


From a8b1b240713e815185866fb9dc6f9daae52f7765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 019/155] fix: display of Photoshop print flags was not a
 string

---
 hachoir/parser/image/photoshop_metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/photoshop_metadata.py b/hachoir/parser/image/photoshop_metadata.py
index 1879d37..f857331 100644
--- a/hachoir/parser/image/photoshop_metadata.py
+++ b/hachoir/parser/image/photoshop_metadata.py
@@ -13,7 +13,7 @@ from hachoir.core.tools import alignValue, createDict
 from hachoir.parser.image.iptc import IPTC
 from hachoir.parser.common.win32 import PascalStringWin32
 
-BOOL = {0: False, 1: True}
+BOOL = {0: "False", 1: "True"}
 
 
 class Version(FieldSet):
-- 
2.43.0


From 7f6a7dee02b76487c12bcf48351162fe3d8ab219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 020/155] fix: display of an empty bplist object was not a
 string

---
 hachoir/parser/misc/bplist.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hachoir/parser/misc/bplist.py b/hachoir/parser/misc/bplist.py
index 097a197..8629eb2 100644
--- a/hachoir/parser/misc/bplist.py
+++ b/hachoir/parser/misc/bplist.py
@@ -255,10 +255,8 @@ class BPListObject(FieldSet):
     def createDisplay(self):
         if 'value' in self:
             return str(self['value'].display)
-        elif self['marker_type'].value in [4, 5, 6]:
-            return ''
         else:
-            return None
+            return ''
 
     def createXML(self, prefix=''):
         if 'value' in self:
-- 
2.43.0


From 6b9401c66e374858bfa00cb62d5da68cd0d2823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 021/155] fix: filename suffix of a damaged document raised an
 exception

---
 hachoir/parser/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/parser.py b/hachoir/parser/parser.py
index a00bf76..dca1ebf 100644
--- a/hachoir/parser/parser.py
+++ b/hachoir/parser/parser.py
@@ -124,8 +124,12 @@ class HachoirParser(object):
 
     def _getFilenameSuffix(self):
         if not hasattr(self, "_filename_suffix"):
-            self._filename_extension = self.createFilenameSuffix()
-        return self._filename_extension
+            try:
+                self._filename_suffix = self.createFilenameSuffix()
+            except Exception as err:
+                self.error("Error when creating filename suffix: %s" % str(err))
+                self._filename_suffix = HachoirParser.createFilenameSuffix(self)
+        return self._filename_suffix
     filename_suffix = property(_getFilenameSuffix)
 
     @classmethod
-- 
2.43.0


From 3b6614a4f562833fb9db2f7d69ce59adbafb0ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:02 +0000
Subject: [PATCH 022/155] fix: description of a damaged Mach-O alignment used a
 huge amount of memory

---
 hachoir/parser/program/macho.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/macho.py b/hachoir/parser/program/macho.py
index 227a688..c4744b9 100644
--- a/hachoir/parser/program/macho.py
+++ b/hachoir/parser/program/macho.py
@@ -474,7 +474,13 @@ class MachoFatArch(FieldSet):
         yield textHandler(UInt32(self, "offset"), hexadecimal)
         yield UInt32(self, "size")
         yield UInt32(self, "align")
-        self['align'].createDescription = lambda: str(1 << self['align'].value)
+        self['align'].createDescription = self.alignDescription
+
+    def alignDescription(self):
+        align = self['align'].value
+        if align < 64:
+            return str(1 << align)
+        return "2^%u" % align
 
 
 class MachoFatHeader(FieldSet):
-- 
2.43.0


From 3964246fb39b53c5c3a78bd662fcec4a181c6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:03 +0000
Subject: [PATCH 023/155] fix: endless loop on a bplist file with offsets of
 zero byte

---
 hachoir/parser/misc/bplist.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/bplist.py b/hachoir/parser/misc/bplist.py
index 8629eb2..01ac3a6 100644
--- a/hachoir/parser/misc/bplist.py
+++ b/hachoir/parser/misc/bplist.py
@@ -16,7 +16,7 @@ Created: 2008-09-21
 """
 
 from hachoir.parser import HachoirParser
-from hachoir.field import (RootSeekableFieldSet, FieldSet, Enum,
+from hachoir.field import (RootSeekableFieldSet, FieldSet, Enum, ParserError,
                            Bits, GenericInteger, Float32, Float64, UInt8, UInt64, Bytes, NullBytes, RawBytes, String)
 from hachoir.core.endian import BIG_ENDIAN
 from hachoir.core.text_handler import displayHandler
@@ -42,6 +42,8 @@ class BPListOffsetTable(FieldSet):
 
     def createFields(self):
         size = self["../trailer/offsetIntSize"].value * 8
+        if not size:
+            raise ParserError("Invalid size of offsets")
         for i in range(self["../trailer/numObjects"].value):
             yield Bits(self, "offset[]", size)
 
-- 
2.43.0


From b6b955f74664c5939d46068981e5d7425ce6d4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 024/155] fix: display of a recursive bplist took an
 exponential time

---
 hachoir/parser/misc/bplist.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/bplist.py b/hachoir/parser/misc/bplist.py
index 01ac3a6..637647a 100644
--- a/hachoir/parser/misc/bplist.py
+++ b/hachoir/parser/misc/bplist.py
@@ -16,7 +16,7 @@ Created: 2008-09-21
 """
 
 from hachoir.parser import HachoirParser
-from hachoir.field import (RootSeekableFieldSet, FieldSet, Enum, ParserError,
+from hachoir.field import (RootSeekableFieldSet, FieldSet, Enum, ParserError, MissingField,
                            Bits, GenericInteger, Float32, Float64, UInt8, UInt64, Bytes, NullBytes, RawBytes, String)
 from hachoir.core.endian import BIG_ENDIAN
 from hachoir.core.text_handler import displayHandler
@@ -71,7 +71,35 @@ class BPListObjectRef(GenericInteger):
     def getRef(self):
         return self.parent['/object[' + str(self.value) + ']']
 
+    def isRecursive(self):
+        """
+        Does the referenced object refer, even indirectly, to the object
+        which contains this reference?
+        """
+        container = self.parent.parent
+        todo = [self.getRef()]
+        seen = set()
+        while todo:
+            obj = todo.pop()
+            if obj is container:
+                return True
+            if obj.name in seen:
+                continue
+            seen.add(obj.name)
+            if 'value' not in obj \
+                    or not isinstance(obj['value'], (BPListArray, BPListDict)):
+                continue
+            for ref in obj['value']:
+                try:
+                    if isinstance(ref, BPListObjectRef):
+                        todo.append(ref.getRef())
+                except MissingField:
+                    pass
+        return False
+
     def createDisplay(self):
+        if self.isRecursive():
+            return '(...)'
         return self.getRef().display
 
     def createXML(self, prefix=''):
-- 
2.43.0


From 5b513b8aceb2abbe67dbc2d6526f4a55e6dbc61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:35 +0000
Subject: [PATCH 025/155] fix: chunks of a damaged S3M file were sorted in a
 quadratic time

---
 hachoir/parser/audio/s3m.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/hachoir/parser/audio/s3m.py b/hachoir/parser/audio/s3m.py
index b9784e6..91b4515 100644
--- a/hachoir/parser/audio/s3m.py
+++ b/hachoir/parser/audio/s3m.py
@@ -47,21 +47,22 @@ class ChunkIndexer:
 
     # Farthest element is last
     def addChunk(self, new_chunk):
+        # Find first chunk whose offset is smaller (binary search: a damaged
+        # file may have tens of thousands of chunks)
         index = 0
-        # Find first chunk whose value is bigger
-        while index < len(self.chunks):
-            offset = self.chunks[index].offset
-            if offset < new_chunk.offset:
-                if not self.canHouse(new_chunk, index):
-                    raise ParserError("Chunk '%s' doesn't fit!" %
-                                      new_chunk.name)
-                self.chunks.insert(index, new_chunk)
-                return
-            index += 1
+        end = len(self.chunks)
+        while index < end:
+            middle = (index + end) // 2
+            if self.chunks[middle].offset < new_chunk.offset:
+                end = middle
+            else:
+                index = middle + 1
 
-        # Not found or empty
-        # We could at least check that it fits in the memory
-        self.chunks.append(new_chunk)
+        # If not found or empty, we could at least check that it fits in the
+        # memory
+        if index < len(self.chunks) and not self.canHouse(new_chunk, index):
+            raise ParserError("Chunk '%s' doesn't fit!" % new_chunk.name)
+        self.chunks.insert(index, new_chunk)
 
     def yieldChunks(self, obj):
         while len(self.chunks) > 0:
-- 
2.43.0


From c3dfae67a01b160d55f96e5929dd6778c39361b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:50 +0000
Subject: [PATCH 026/155] fix: length of a vector cut by the end of the file
 was wrong

---
 hachoir/field/vector.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hachoir/field/vector.py b/hachoir/field/vector.py
index fabb70e..31c8fc5 100644
--- a/hachoir/field/vector.py
+++ b/hachoir/field/vector.py
@@ -16,13 +16,10 @@ class GenericVector(FieldSet):
         self._item_name = item_name
         FieldSet.__init__(self, parent, name, description, size=size)
 
-    def __len__(self):
-        return self.__nb_items
-
     def createFields(self):
         name = self._item_name + "[]"
         parser = self._item_class
-        for index in range(len(self)):
+        for index in range(self.__nb_items):
             yield parser(self, name)
 
 
-- 
2.43.0


From 5935702137b16120b5860c7e54cba6000303dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:07 +0000
Subject: [PATCH 027/155] fix: size of fields of iTunesDB and TTF files was not
 an integer

---
 hachoir/parser/audio/itunesdb.py | 2 +-
 hachoir/parser/misc/ttf.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/itunesdb.py b/hachoir/parser/audio/itunesdb.py
index 095679d..3ec495e 100644
--- a/hachoir/parser/audio/itunesdb.py
+++ b/hachoir/parser/audio/itunesdb.py
@@ -519,7 +519,7 @@ class ITunesDBFile(Parser):
         yield Int32(self, "timezone_offset[]", "Timezone offset in seconds")
         yield UInt16(self, "unknown[]")
         yield RawBytes(self, "iphone_hash[]", 45)
-        size = self["header_length"].value - self.current_size / 8
+        size = self["header_length"].value - self.current_size // 8
         if size > 0:
             yield NullBytes(self, "padding", size)
         for i in range(self["child_number"].value):
diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index ca5e7c4..2705490 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -356,7 +356,7 @@ class CmapTable4(FieldSet):
         yield GenericVector(self, "startCode", segments, UInt16)
         yield GenericVector(self, "idDelta", segments, Int16)
         yield GenericVector(self, "idRangeOffsets", segments, UInt16)
-        remainder = (self["length"].value - (self.current_size / 8)) / 2
+        remainder = (self["length"].value - self.current_size // 8) // 2
         if remainder:
             yield GenericVector(self, "glyphIdArray", remainder, UInt16)
 
-- 
2.43.0


From 767262d27511b599a206c93d1adc7cf2519faf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:05 +0000
Subject: [PATCH 028/155] fix: len() of an array whose items were not read in
 order was wrong

---
 hachoir/field/fake_array.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hachoir/field/fake_array.py b/hachoir/field/fake_array.py
index caf274f..4c84425 100644
--- a/hachoir/field/fake_array.py
+++ b/hachoir/field/fake_array.py
@@ -26,7 +26,8 @@ class FakeArray:
         self._format = "%s[%%u]" % self.name
         self._cache = {}
         self._known_size = False
-        self._max_index = -1
+        # items 0.._size-1 are known (items may be requested in any order)
+        self._size = 0
 
     def __bool__(self):
         "Is the array empty or not?"
@@ -37,15 +38,13 @@ class FakeArray:
 
     def __len__(self):
         "Number of fields in the array"
-        total = self._max_index + 1
         if not self._known_size:
-            for index in itertools.count(total):
+            for index in itertools.count(self._size):
                 try:
                     self[index]
-                    total += 1
                 except MissingField:
                     break
-        return total
+        return self._size
 
     def __contains__(self, index):
         try:
@@ -67,11 +66,12 @@ class FakeArray:
             except MissingField:
                 # The size is only known when the first missing item is
                 # requested and no more field can be added
-                if index == self._max_index + 1 and self.fieldset.done:
+                if index == self._size and self.fieldset.done:
                     self._known_size = True
                 raise
             self._cache[index] = value
-            self._max_index = max(index, self._max_index)
+            while self._size in self._cache:
+                self._size += 1
         return value
 
     def __iter__(self):
-- 
2.43.0


From 2f23bc0d948480dca4fa0532ba44eb6a386af3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:05 +0000
Subject: [PATCH 029/155] fix: description of a truncated EMF file depended on
 what was read before

---
 hachoir/parser/image/wmf.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/image/wmf.py b/hachoir/parser/image/wmf.py
index 2a60951..0d4fece 100644
--- a/hachoir/parser/image/wmf.py
+++ b/hachoir/parser/image/wmf.py
@@ -602,8 +602,6 @@ class WMF_File(Parser):
 
     def isEMF(self):
         """File is in EMF format?"""
-        if 1 <= self.current_length:
-            return self[0].name == "emf_header"
         if self.size < 44 * 8:
             return False
         magic = EMF_Header.MAGIC
@@ -611,11 +609,8 @@ class WMF_File(Parser):
 
     def isAPM(self):
         """File is in Aldus Placeable Metafiles format?"""
-        if 1 <= self.current_length:
-            return self[0].name == "amf_header"
-        else:
-            magic = PlaceableHeader.MAGIC
-            return (self.stream.readBytes(0, len(magic)) == magic)
+        magic = PlaceableHeader.MAGIC
+        return (self.stream.readBytes(0, len(magic)) == magic)
 
     def createDescription(self):
         if self.isEMF():
-- 
2.43.0


From 98208384cc0b5bfb930a09b2a3a5a9e602ef3d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:24 +0000
Subject: [PATCH 030/155] fix: getFieldByAddress() on a seekable field set

---
 hachoir/field/seekable_field_set.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index 842f4bf..cb4fc77 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -46,6 +46,18 @@ class RootSeekableFieldSet(GenericFieldSet):
     def seekByte(self, address, relative=True):
         return self.seekBit(address * 8, relative)
 
+    def getFieldByAddress(self, address, feed=True):
+        """
+        Only search in existing fields. Fields are not sorted by address, and
+        may overlap: returns the first field which contains the address.
+        """
+        if feed and self._field_generator is not None:
+            self._feedAll()
+        for field in self._fields:
+            if field.address <= address < field.address + field.size:
+                return field
+        return None
+
     def _fixLastField(self):
         """
         Try to fix last field when we know current field set size.
-- 
2.43.0


From 771287cb6673d4aabdd6813224d1c243fa6f2d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:41 +0000
Subject: [PATCH 031/155] fix: contents of the files of a FAT file system could
 not be read

---
 hachoir/parser/file_system/fat.py | 45 ++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 802fab6..1f97259 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -172,7 +172,7 @@ class FileEntry(FieldSet):
             self.absolute_address + 11 * 8, 8, LITTLE_ENDIAN)
         if magic & 0x3F == 0x0F:
             self.LFN = True
-        elif self.getFilename() not in (".", ".."):
+        elif self.getFilename() not in (".", "..", "./", "../"):
             self.process = True
 
     def getFilename(self):
@@ -297,7 +297,14 @@ class InodeGen:
 
     def __call__(self, prev):
         name = self.path + "[]"
-        address, size, last = next(self.cluster)
+        if not self.root.done:
+            # The clusters may be not read yet
+            self.root._feedUntil(None)
+        try:
+            address, size, last = next(self.cluster)
+        except StopIteration:
+            error("(FAT) no cluster for " + self.path)
+            return
         if self.filesize:
             if self.done >= self.filesize:
                 error("(FAT) bad metadata for " + self.path)
@@ -343,20 +350,13 @@ class FAT_FS(Parser):
     def clusters(self, cluster_func):
         max_entry = (1 << min(28, self.version)) - 16
         cluster = cluster_func()
-        if 1 < cluster < max_entry:
-            clus_nb = 1
-            next = cluster
-            while True:
-                next = self.fat[next / 1000][next % 1000].value
-                if not 1 < next < max_entry:
-                    break
-                if cluster + clus_nb == next:
-                    clus_nb += 1
-                else:
-                    yield self.data_start + cluster * self.cluster_size, clus_nb * self.cluster_size, False
-                    cluster = next
-                    clus_nb = 1
-            yield self.data_start + cluster * self.cluster_size, clus_nb * self.cluster_size, True
+        # One cluster at a time: createFields() creates one field per cluster
+        while 1 < cluster < max_entry:
+            name = "entry[%u]" % cluster
+            next = self.fat[name].value if name in self.fat else 0
+            last = not 1 < next < max_entry
+            yield self.data_start + cluster * self.cluster_size, self.cluster_size, last
+            cluster = next
 
     def createFields(self):
         # Read boot seector
@@ -395,15 +395,22 @@ class FAT_FS(Parser):
             self.target_size = 0
             self.getCluster = lambda: boot["root_start"].value
             yield InodeLink(self, "root", "root")
+            first_cluster = 2
+        elif boot["max_root"].value:
+            size = boot["max_root"].value * 32 * 8
+            yield Directory(self, "root[]", size=size).setLinks(None)
+            first_cluster = 2
         else:
-            yield Directory(self, "root[]", size=max(boot["max_root"].value * 32 * 8, boot["cluster_size"].value * self.sector_size * 8))
-        self.data_start = self.current_size - 2 * self.cluster_size
+            # FAT32: the first cluster is the root directory
+            yield Directory(self, "root[]", size=self.cluster_size).setLinks(None)
+            first_cluster = 3
+        self.data_start = self.current_size - first_cluster * self.cluster_size
         sectors = boot["sectors1"].value
         if not sectors:
             sectors = boot["sectors2"].value
 
         for i in range(sectors // boot['cluster_size'].value):
-            yield RawBytes(self, "sector[%d]" % (i + 2), self.cluster_size // 8)
+            yield RawBytes(self, "sector[%d]" % (i + first_cluster), self.cluster_size // 8)
 
 
 class FAT12(FAT_FS):
-- 
2.43.0


From 66b96badee37f3e331c1f2983bb507d53a970f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:41 +0000
Subject: [PATCH 032/155] fix: last field added while the parser was stopped
 was reported missing

---
 hachoir/field/generic_field_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index e9eb276..662950b 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -338,6 +338,9 @@ class GenericFieldSet(BasicFieldSet):
         except Exception as err:
             if self._fixFeedError(err) is False:
                 raise
+        # The last field may have been added while the parser was stopped
+        if field_name in self._fields:
+            return self._fields[field_name]
         return None
 
     def readMoreFields(self, number):
-- 
2.43.0


From dd58558cf30db9bce91ffc808b3261940fa771f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:30 +0000
Subject: [PATCH 033/155] fix: content of CAB and MPEG fragments depended on
 which fragments were read

---
 hachoir/field/fragment.py          | 10 +++++++---
 hachoir/parser/archive/cab.py      |  1 +
 hachoir/parser/video/mpeg_video.py |  1 +
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/hachoir/field/fragment.py b/hachoir/field/fragment.py
index 116d11f..a9af77a 100644
--- a/hachoir/field/fragment.py
+++ b/hachoir/field/fragment.py
@@ -8,6 +8,9 @@ class FragmentGroup:
         self.items = []
         self.parser = parser
         self.args = {}
+        # Field set which contains all fragments (default: the parent of
+        # the fragments)
+        self.container = None
 
     def add(self, item):
         self.items.append(item)
@@ -41,9 +44,10 @@ class CustomFragment(FieldSet):
 
     def _createInputStream(self, **args):
         # The next fragments of the group may be not read yet. Read them,
-        # except if the parent is already being read.
-        if not self.parent.done:
-            self.parent._feedUntil(None)
+        # except if the container is already being read.
+        container = self.group.container or self.parent
+        if not container.done:
+            container._feedUntil(None)
         return self.group.createInputStream()
 
     def createValue(self):
diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 0d4c0d5..90af699 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -132,6 +132,7 @@ class DataBlock(FieldSet):
                 self, "data", self["size"].value * 8, LZXStream, "LZX data fragment", group)
             if group is None:
                 field.group.args["compr_level"] = self.parent.folder["compr_level"].value
+                field.group.container = self.parent
             self.parent.folder.lzx_group = field.group
             yield field
 
diff --git a/hachoir/parser/video/mpeg_video.py b/hachoir/parser/video/mpeg_video.py
index d77d758..71d8447 100644
--- a/hachoir/parser/video/mpeg_video.py
+++ b/hachoir/parser/video/mpeg_video.py
@@ -472,6 +472,7 @@ class Stream(FieldSet):
             else:
                 frag = CustomFragment(
                     self, "data", length * 8, None, group=group)
+            frag.group.container = self.root
             self.root.streamgroups[tag] = frag.group
             yield frag
 
-- 
2.43.0


From ac659bd1ba2d62e0ea8c77428522f22ec1f36c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:30 +0000
Subject: [PATCH 034/155] fix: zlib_inflate() dropped the uncompressed blocks

---
 hachoir/parser/archive/zlib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hachoir/parser/archive/zlib.py b/hachoir/parser/archive/zlib.py
index 302efbd..5d93f6d 100644
--- a/hachoir/parser/archive/zlib.py
+++ b/hachoir/parser/archive/zlib.py
@@ -157,6 +157,7 @@ class DeflateBlock(FieldSet):
             # null stored blocks produced by some encoders (e.g. PIL)
             if self["len"].value:
                 yield RawBytes(self, "data", self["len"].value, "Uncompressed data")
+                self.uncomp_data += self["data"].value
             return
         elif self["compression_type"].value == 1:  # Fixed Huffman
             length_tree = {}  # (size, huffman code): value
-- 
2.43.0


From 59f39f7b409654e8b6be212cd24ad68e046d33bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:31 +0000
Subject: [PATCH 035/155] fix: files of CAB folders could not be extracted

An uncompressed or MSZIP folder raised TypeError (str used for bytes), the
list of the files of a folder was always empty, and an empty folder or file
stopped the parser.
---
 hachoir/parser/archive/cab.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 90af699..069ed5e 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -145,7 +145,8 @@ class FolderParser(Parser):
             padding = self.seekByte(file["folder_offset"].value)
             if padding:
                 yield padding
-            yield RawBytes(self, "file[]", file["filesize"].value, file.description)
+            if file["filesize"].value:
+                yield RawBytes(self, "file[]", file["filesize"].value, file.description)
 
 
 class FolderData(FieldSet):
@@ -170,7 +171,7 @@ class FolderData(FieldSet):
         self.folder = folder  # Folder fieldset
 
     def createFields(self):
-        self.uncompressed_data = ""
+        self.uncompressed_data = b""
         for index in range(self.folder["data_blocks"].value):
             block = DataBlock(self, "block[]")
             for i in block:
@@ -247,16 +248,17 @@ class CabFile(Parser):
             padding = self.seekByte(folder["offset"].value)
             if padding:
                 yield padding
-            files = []
+            folder_files = []
             for file in files:
                 if file["folder_index"].value == index:
-                    files.append(file)
+                    folder_files.append(file)
             if i + 1 == len(folders):
                 size = (self.size // 8) - folder["offset"].value
             else:
                 size = (folders[i + 1][1]["offset"].value) - \
                     folder["offset"].value
-            yield FolderData(self, "folder_data[%i]" % index, folder, files, size=size * 8)
+            if size:
+                yield FolderData(self, "folder_data[%i]" % index, folder, folder_files, size=size * 8)
 
         end = self.seekBit(self.size, "endraw")
         if end:
-- 
2.43.0


From 95b0ef388b5e9cd47cfafc2b80e837e40dee2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:16 +0000
Subject: [PATCH 036/155] fix: FAT32 file systems without FSInfo sector nor
 boot copy could not be parsed

---
 hachoir/parser/file_system/fat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 1f97259..4a6a2f8 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -369,7 +369,7 @@ class FAT_FS(Parser):
                 (boot["inf_sector"].value, lambda: FSInfo(self, "fsinfo")),
                 (boot["boot_copy"].value, lambda: Boot(
                     self, "bkboot", "Copy of the boot sector")),
-            )):
+            ), key=lambda item: item[0]):
                 if field[0]:
                     padding = self.seekByte(field[0] * self.sector_size)
                     if padding:
-- 
2.43.0


From 6f14a450f66a68d8d57a480e0ab8dd1c6868e4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:17 +0000
Subject: [PATCH 037/155] fix: access to the children of a dangling link raised
 AttributeError

---
 hachoir/field/link.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/field/link.py b/hachoir/field/link.py
index dbdb092..595885a 100644
--- a/hachoir/field/link.py
+++ b/hachoir/field/link.py
@@ -21,6 +21,8 @@ class Link(Field):
 
     def _getField(self, name, const):
         target = self.value
+        if target is None:
+            return None
         assert self != target
         return target._getField(name, const)
 
-- 
2.43.0


From 15e5c883291bc66f61afe06888b88b3fc6701583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:17 +0000
Subject: [PATCH 038/155] fix: OLE2 DIFAT chain which loops was read without
 end

---
 hachoir/parser/misc/ole2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/parser/misc/ole2.py b/hachoir/parser/misc/ole2.py
index bfc1f7d..415bff5 100644
--- a/hachoir/parser/misc/ole2.py
+++ b/hachoir/parser/misc/ole2.py
@@ -118,7 +118,11 @@ class DIFat(SeekableFieldSet):
         difat_sect = self.start
         index = NB_DIFAT
         entries_per_sect = self.parent.sector_size // 32 - 1
+        sectors = set()
         for ctr in range(self.count):
+            if difat_sect in sectors:
+                raise ParserError("DIFAT chain: Found a loop (%s)" % difat_sect)
+            sectors.add(difat_sect)
             # this is relative to real DIFAT start
             self.seekBit(NB_DIFAT * SECT.static_size +
                          self.parent.sector_size * difat_sect)
-- 
2.43.0


From a8e3c6f8706ff714e0209a312bcfd0ffed64b8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:31 +0000
Subject: [PATCH 039/155] fix: StringOutputStream could not be written nor read
 back

---
 hachoir/stream/output.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 4a9e151..9bf2aeb 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -1,9 +1,8 @@
-from io import StringIO
+from io import BytesIO, UnsupportedOperation
 from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
 from hachoir.core.bits import long2raw
 from hachoir.stream import StreamError
 from hachoir.core import config
-from errno import EBADF
 
 MAX_READ_NBYTES = 2 ** 16
 
@@ -162,13 +161,12 @@ class OutputStream(object):
         self._output.flush()
         oldpos = self._output.tell()
         try:
-            self._output.seek(0)
+            self._output.seek(address // 8)
             try:
                 return self._output.read(nbytes)
-            except IOError as err:
-                if err[0] == EBADF:
-                    raise OutputStreamError(
-                        "Stream doesn't support read() operation")
+            except UnsupportedOperation:
+                raise OutputStreamError(
+                    "Stream doesn't support read() operation")
         finally:
             self._output.seek(oldpos)
 
@@ -177,7 +175,7 @@ def StringOutputStream():
     """
     Create an output stream into a string.
     """
-    data = StringIO()
+    data = BytesIO()
     return OutputStream(data)
 
 
-- 
2.43.0


From f88131645329962bccc1e0f08936dac23101238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:45 +0000
Subject: [PATCH 040/155] fix: writeBit() wrote the bits of a byte in the wrong
 order

---
 hachoir/stream/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 9bf2aeb..4ad81a4 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -47,9 +47,9 @@ class OutputStream(object):
         else:
             if state:
                 if endian is BIG_ENDIAN:
-                    self._byte |= (1 << self._bit_pos)
-                else:
                     self._byte |= (1 << (7 - self._bit_pos))
+                else:
+                    self._byte |= (1 << self._bit_pos)
             self._bit_pos += 1
 
     def writeBits(self, count, value, endian):
-- 
2.43.0


From 1e68d76539187b18170f453c8c0592323b300358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:59 +0000
Subject: [PATCH 041/155] fix: writeInteger() did not write signed integers in
 two's complement

---
 hachoir/stream/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 4ad81a4..2ee8745 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -105,8 +105,8 @@ class OutputStream(object):
             self._byte = 0
 
     def writeInteger(self, value, signed, size_byte, endian):
-        if signed:
-            value += 1 << (size_byte * 8 - 1)
+        if signed and value < 0:
+            value += 1 << (size_byte * 8)
         raw = long2raw(value, endian, size_byte)
         self.writeBytes(raw)
 
-- 
2.43.0


From c421fce4e42c63dd1ce59f92504a49503b25ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:16 +0000
Subject: [PATCH 042/155] fix: the last bits of an output stream were lost by
 close()

---
 hachoir/stream/output.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 2ee8745..f6627a5 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -20,7 +20,14 @@ class OutputStream(object):
         self._byte = 0
 
     def close(self):
-        self._output.close()
+        try:
+            if self._bit_pos != 0:
+                # Last byte is not complete: pad it with zeros
+                self._output.write(bytes([self._byte]))
+                self._bit_pos = 0
+                self._byte = 0
+        finally:
+            self._output.close()
 
     def __enter__(self):
         return self
-- 
2.43.0


From 517a88069d1103c7a78f2c6668c4ee30b4674d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:42 +0000
Subject: [PATCH 043/155] fix: arrays of an editor could not be read

---
 hachoir/field/fake_array.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/hachoir/field/fake_array.py b/hachoir/field/fake_array.py
index 4c84425..fc19fc7 100644
--- a/hachoir/field/fake_array.py
+++ b/hachoir/field/fake_array.py
@@ -25,7 +25,6 @@ class FakeArray:
             self.name = name
         self._format = "%s[%%u]" % self.name
         self._cache = {}
-        self._known_size = False
         # items 0.._size-1 are known (items may be requested in any order)
         self._size = 0
 
@@ -38,12 +37,11 @@ class FakeArray:
 
     def __len__(self):
         "Number of fields in the array"
-        if not self._known_size:
-            for index in itertools.count(self._size):
-                try:
-                    self[index]
-                except MissingField:
-                    break
+        for index in itertools.count(self._size):
+            try:
+                self[index]
+            except MissingField:
+                break
         return self._size
 
     def __contains__(self, index):
@@ -61,14 +59,7 @@ class FakeArray:
         try:
             value = self._cache[index]
         except KeyError:
-            try:
-                value = self.fieldset[self._format % index]
-            except MissingField:
-                # The size is only known when the first missing item is
-                # requested and no more field can be added
-                if index == self._size and self.fieldset.done:
-                    self._known_size = True
-                raise
+            value = self.fieldset[self._format % index]
             self._cache[index] = value
             while self._size in self._cache:
                 self._size += 1
-- 
2.43.0


From d5a13fe7c9e9a777024127b82909279976df7d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:57 +0000
Subject: [PATCH 044/155] fix: the editor accepted to delete fields which do
 not exist

---
 hachoir/editor/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 5299879..e61dc3f 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -263,7 +263,7 @@ class EditableFieldSet(object):
             fieldset = self[parts[0]]
             del fieldset[parts[2]]
             return
-        if name in self._deleted:
+        if name in self._deleted or name not in self.input:
             raise MissingField(self, name)
         self._deleted.add(name)
         if name in self._fields:
-- 
2.43.0


From 05968cdf372633b745f064d41c056dac0639ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:11 +0000
Subject: [PATCH 045/155] fix: Pascal strings could not be written by the
 editor

---
 hachoir/editor/typed_field.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index fe64696..f47fecd 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -181,8 +181,7 @@ class EditableString(EditableField):
             size = GenericString.PASCAL_FORMATS[self._format]
             output.writeInteger(len(self._value), False,
                                 size, self._parent.endian)
-            value = self._value.encode(self._charset)
-            output.writeBytes(value)
+            output.writeBytes(self._value)
 
 
 class EditableCharacter(EditableFixedField):
-- 
2.43.0


From 272ddf0c64a77a54d86e5d8af916f5a3d4b42798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:36 +0000
Subject: [PATCH 046/155] fix: reset() of an edited field set raised
 RuntimeError

---
 hachoir/editor/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index e61dc3f..68921de 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -38,7 +38,7 @@ class EditableFieldSet(object):
         """
         Reset the field set and the input field set.
         """
-        for key, field in self._fields.items():
+        for key, field in list(self._fields.items()):
             if not field.is_altered:
                 del self._fields[key]
         self.input.reset()
-- 
2.43.0


From 173dfe8dede81b48d7c7482d40cf0017320318fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:51 +0000
Subject: [PATCH 047/155] fix: unaligned fields and sets could not be written
 by the editor

---
 hachoir/editor/field.py    |  5 +----
 hachoir/editor/fieldset.py |  8 ++------
 hachoir/stream/output.py   | 11 ++++++-----
 3 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/hachoir/editor/field.py b/hachoir/editor/field.py
index f3d43c0..4353701 100644
--- a/hachoir/editor/field.py
+++ b/hachoir/editor/field.py
@@ -63,7 +63,4 @@ class FakeField(object):
         addr = self._parent._getFieldInputAddress(self._name)
         input = self._parent.input
         stream = input.stream
-        if size % 8 or addr % 8:
-            output.copyBitsFrom(stream, addr, size, input.endian)
-        else:
-            output.copyBytesFrom(stream, addr, size // 8)
+        output.copyBitsFrom(stream, addr, size, input.endian)
diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 68921de..39648ec 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -277,12 +277,8 @@ class EditableFieldSet(object):
         if not self.is_altered:
             # Not altered: just copy bits/bytes
             input = self.input
-            if input.size % 8:
-                output.copyBitsFrom(input.stream,
-                                    input.absolute_address, input.size, input.endian)
-            else:
-                output.copyBytesFrom(input.stream,
-                                     input.absolute_address, input.size // 8)
+            output.copyBitsFrom(input.stream,
+                                input.absolute_address, input.size, input.endian)
         else:
             # Altered: call writeInto() method of each field
             realaddr = 0
diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index f6627a5..7729e8c 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -121,11 +121,12 @@ class OutputStream(object):
         if (nb_bits % 8) == 0 and (address % 8) == 0 and (self._bit_pos % 8) == 0:
             self.copyBytesFrom(input, address, nb_bits // 8)
         else:
-            # Arbitrary limit (because we should use a buffer, like copyBytesFrom(),
-            # but with endianess problem
-            assert nb_bits <= config.max_bit_length
-            data = input.readBits(address, nb_bits, endian)
-            self.writeBits(nb_bits, data, endian)
+            while 0 < nb_bits:
+                count = min(nb_bits, config.max_bit_length)
+                data = input.readBits(address, count, endian)
+                self.writeBits(count, data, endian)
+                address += count
+                nb_bits -= count
 
     def copyBytesFrom(self, input, address, nb_bytes):
         if (address % 8):
-- 
2.43.0


From 31c574aba3762d5d87433d96c12482032634e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:48 +0000
Subject: [PATCH 048/155] fix: fields inserted next to others by the editor
 were lost or misplaced

---
 hachoir/editor/fieldset.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 39648ec..f552b43 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -102,16 +102,8 @@ class EditableFieldSet(object):
                     raise UniqKeyError(
                         "Field name '%s' already exists" % field.name)
 
-        # Input have already inserted field?
-        if key in self._inserted:
-            if next:
-                self._inserted[key].extend(reversed(new_fields))
-            else:
-                self._inserted[key].extendleft(reversed(new_fields))
-            return
-
         # Whould like to insert in inserted fields?
-        if key:
+        if key is not None:
             for fields in self._inserted.values():
                 names = [item.name for item in fields]
                 try:
@@ -126,20 +118,25 @@ class EditableFieldSet(object):
                     fields.rotate(pos)
                     return
 
+            # Check that the field is in input
+            if self.input is None or key not in self.input:
+                raise MissingField(self, key)
+
             # Get next field. Use None if we are at the end.
             if next:
                 index = self.input[key].index + 1
                 try:
                     key = self.input[index].name
-                except IndexError:
+                except (IndexError, MissingField):
                     key = None
 
-            # Check that field names are not in input
-            if key not in self.input:
-                raise MissingField(self, key)
-
-        # Insert in original input
-        self._inserted[key] = deque(new_fields)
+            # Insert in original input, before field key and before
+            # the fields which are already inserted there
+            fields = self._inserted.setdefault(key, deque())
+            fields.extendleft(reversed(new_fields))
+        else:
+            # Insert at the end
+            self._inserted.setdefault(None, deque()).extend(new_fields)
 
     def _getDescription(self):
         return self.input.description
-- 
2.43.0


From 452b75c407fed65006163928d4366f1dd589ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:02 +0000
Subject: [PATCH 049/155] fix: new field sets of the editor could not be
 iterated nor written when they are empty

---
 hachoir/editor/fieldset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index f552b43..26becb8 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -335,7 +335,10 @@ class NewFieldSet(EditableFieldSet):
         if None in self._inserted:
             return iter(self._inserted[None])
         else:
-            raise StopIteration()
+            return iter(())
+
+    def __len__(self):
+        return sum(len(new) for new in self._inserted.values())
 
     def _getName(self):
         return self._name
-- 
2.43.0


From f7501c27c697034b852ad6fee0a02121857e8569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:15 +0000
Subject: [PATCH 050/155] fix: inserted fields did not get an unique name

---
 hachoir/editor/fieldset.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 26becb8..ef3810b 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -69,6 +69,18 @@ class EditableFieldSet(object):
     def insert(self, *new_fields):
         self._insert(None, new_fields, True)
 
+    def _setUniqueFieldName(self, field, new_fields):
+        used = set(item.name for item in new_fields)
+        for fields in self._inserted.values():
+            used.update(item.name for item in fields)
+        index = 0
+        while True:
+            name = "%s[%u]" % (field._name[:-2], index)
+            if name not in used and (self.input is None or name not in self.input):
+                break
+            index += 1
+        field._name = name
+
     def _insert(self, key, new_fields, next):
         """
         key is the name of the field before which new_fields
@@ -78,7 +90,7 @@ class EditableFieldSet(object):
         # Set unique field name
         for field in new_fields:
             if field._name.endswith("[]"):
-                self.input.setUniqueFieldName(field)
+                self._setUniqueFieldName(field, new_fields)
 
         # Check that there is no duplicate in inserted fields
         new_names = list(field.name for field in new_fields)
-- 
2.43.0


From be929982d03136a124e8434a4b8c5a8195a31db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:56 +0000
Subject: [PATCH 051/155] fix: new bytes and timestamps of the editor could not
 be written

---
 hachoir/editor/typed_field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index f47fecd..5564662 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -19,6 +19,9 @@ class EditableField(FakeField):
     def __init__(self, parent, name, value=None):
         FakeField.__init__(self, parent, name)
         self._value = value
+        if value is not None:
+            # New field
+            self._is_altered = True
 
     def _isAltered(self):
         return self._is_altered
-- 
2.43.0


From fb9e43435aa43c5d0011e2c6b19c7b79f63058e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:13 +0000
Subject: [PATCH 052/155] fix: the editor refused 24 and 64 bits integers, and
 accepted invalid 8 bits integers

---
 hachoir/editor/typed_field.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 5564662..814b0d9 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -214,17 +214,6 @@ class EditableCharacter(EditableFixedField):
 
 
 class EditableInteger(EditableFixedField):
-    VALID_VALUE_SIGNED = {
-        8: (-(1 << 8), (1 << 8) - 1),
-        16: (-(1 << 15), (1 << 15) - 1),
-        32: (-(1 << 31), (1 << 31) - 1),
-    }
-    VALID_VALUE_UNSIGNED = {
-        8: (0, (1 << 8) - 1),
-        16: (0, (1 << 16) - 1),
-        32: (0, (1 << 32) - 1)
-    }
-
     def __init__(self, parent, name, *args):
         if args:
             if len(args) != 3:
@@ -246,10 +235,11 @@ class EditableInteger(EditableFixedField):
 
     def _setValue(self, value):
         if self._signed:
-            valid = self.VALID_VALUE_SIGNED
+            minval = -(1 << (self._size - 1))
+            maxval = (1 << (self._size - 1)) - 1
         else:
-            valid = self.VALID_VALUE_UNSIGNED
-        minval, maxval = valid[self._size]
+            minval = 0
+            maxval = (1 << self._size) - 1
         if not (minval <= value <= maxval):
             raise ValueError("Invalid value, must be in range %s..%s"
                              % (minval, maxval))
-- 
2.43.0


From d7d9f97786bee8dadbdebe9d7f8408fab79e2c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 053/155] fix: characters could not be written by the editor

---
 hachoir/editor/typed_field.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 814b0d9..cf3a4c0 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -191,12 +191,12 @@ class EditableCharacter(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableCharacter "
                     "constructor prototype is: (parent, name, [value])")
             value = args[0]
-            if not isinstance(value, str) or len(value) != 1:
+            if not self._isCharacter(value):
                 raise TypeError("EditableCharacter needs a character")
         else:
             value = None
@@ -204,13 +204,17 @@ class EditableCharacter(EditableFixedField):
         if args:
             self._is_altered = True
 
+    @staticmethod
+    def _isCharacter(value):
+        return isinstance(value, str) and len(value) == 1 and ord(value) < 256
+
     def _setValue(self, value):
-        if not isinstance(value, str) or len(value) != 1:
+        if not self._isCharacter(value):
             raise TypeError("EditableCharacter needs a character")
         self._value = value
 
     def _write(self, output):
-        output.writeBytes(self._value)
+        output.writeBits(8, ord(self._value), self._parent.endian)
 
 
 class EditableInteger(EditableFixedField):
-- 
2.43.0


From 19100693025d2332f00642992864fa3e73008563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:43 +0000
Subject: [PATCH 054/155] fix: new timestamps of the editor could not be
 created

---
 hachoir/editor/typed_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index cf3a4c0..d3a52df 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -259,7 +259,7 @@ class EditableTimestampMac32(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableTimestampMac32 constructor prototype is: "
                     "(parent, name, [value])")
-- 
2.43.0


From 5dcfe4c08c28324515fcb24623c5aa6d5be78125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:18 +0000
Subject: [PATCH 055/155] fix: Fragment.reset() keeps the links

---
 hachoir/field/link.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/field/link.py b/hachoir/field/link.py
index 595885a..21a32f6 100644
--- a/hachoir/field/link.py
+++ b/hachoir/field/link.py
@@ -49,6 +49,10 @@ class Fragment(FieldSet):
         if self.__class__.createFields == Fragment.createFields:
             self._getData = lambda: self
 
+    def reset(self):
+        FieldSet.reset(self)
+        self._field_generator = self._createFields(self._field_generator)
+
     def getData(self):
         try:
             return self._getData()
-- 
2.43.0


From b394ffa7a24ff32c07385d6a2b9e0000571bf4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 056/155] fix: the editor gives the value of floats

---
 hachoir/editor/fieldset.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index ef3810b..c2fb086 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -321,10 +321,18 @@ class EditableFloat(EditableFieldSet):
         raw = struct.pack(format, self._value)
         output.writeBytes(raw)
 
+    def hasValue(self):
+        return True
+
+    def _getValue(self):
+        if self._value is not None:
+            return self._value
+        return self.input.value
+
     def _setValue(self, value):
         self.parent._is_altered = True
         self._value = value
-    value = property(EditableFieldSet._getValue, _setValue)
+    value = property(_getValue, _setValue)
 
 
 def createEditableFieldSet(parent, field):
-- 
2.43.0


From 3bca0fb7dfeb7da05198ebd40003e3796a7d715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:41 +0000
Subject: [PATCH 057/155] fix: hachoir-strip supports tar archives again

---
 hachoir/strip.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hachoir/strip.py b/hachoir/strip.py
index 5db2868..214dfb6 100644
--- a/hachoir/strip.py
+++ b/hachoir/strip.py
@@ -172,23 +172,26 @@ def usage():
 class TarStripper(BasicStripper):
 
     def strip(self):
-        for file in self.editor.array("file"):
-            self.stripFile(file)
+        if self.level & STRIP_METADATA:
+            for file in self.editor.array("file"):
+                self.stripFile(file)
+        # No field is removed
+        return 0
 
     def fixChecksum(self, file):
-        file["check_sum"].value = " " * 8
+        file["check_sum"].value = b" " * 8
         stream = StringOutputStream()
         file.writeInto(stream)
         data = stream.readBytes(0, 512)
-        checksum = sum(ord(character) for character in data)
-        file["check_sum"].value = ("0%o\0" % checksum).ljust(8, " ")
+        checksum = sum(data)
+        file["check_sum"].value = (b"0%o\0" % checksum).ljust(8, b" ")
 
     def stripFile(self, file):
-        empty32 = "\0" * 32
-        uid = "0000000\0"
+        empty32 = b"\0" * 32
+        uid = b"0000000\0"
         file["uid"].value = uid
         file["gid"].value = uid
-        file["mtime"].value = "00000000000\0"
+        file["mtime"].value = b"00000000000\0"
         file["uname"].value = empty32
         file["gname"].value = empty32
         self.fixChecksum(file)
-- 
2.43.0


From 1cbb0b88922401ba636844fc2a73fdaca455301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:41 +0000
Subject: [PATCH 058/155] fix: the parsers are tried in a reproducible order

---
 hachoir/parser/guess.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index 9753608..cbb70d5 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -29,7 +29,8 @@ class QueryParser(object):
                 self.fallback = len(parsers) == 1
         if self.parsers:
             other = len(parsers)
-            parsers += list(self.parsers)
+            # A set has no order: use the one of the list of parsers
+            parsers += [parser for parser in self.db if parser in self.parsers]
             self.other = parsers[other]
         self.parsers = parsers
 
@@ -51,7 +52,8 @@ class QueryParser(object):
             self.parsers.clear()
             return []
         elif callable(tag):
-            parsers = [parser for parser in self.parsers if tag(parser)]
+            parsers = [parser for parser in self.db
+                       if parser in self.parsers and tag(parser)]
             for parser in parsers:
                 self.parsers.remove(parser)
         elif tag[0] == "class":
-- 
2.43.0


From 3f59584c8dd1f837d4e1a9e66e0a6df6f51edfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:55 +0000
Subject: [PATCH 059/155] fix: contents of a document which has no source name
 can be read

---
 hachoir/stream/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 59ec1be..c23b190 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -482,7 +482,7 @@ def InputFieldStream(field, **args):
         return field.stream
     stream = field.parent.stream
     args["size"] = field.size
-    args.setdefault("source", stream.source + field.path)
+    args.setdefault("source", "%s%s" % (stream.source, field.path))
     return InputSubStream(stream, field.absolute_address, **args)
 
 
-- 
2.43.0


From 8a304a86420bacec8586bdbb6991be3e7858307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:15 +0000
Subject: [PATCH 060/155] fix: do not modify the tags given to FileInputStream

---
 hachoir/stream/input_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/stream/input_helper.py b/hachoir/stream/input_helper.py
index ed9263e..1adfdb7 100644
--- a/hachoir/stream/input_helper.py
+++ b/hachoir/stream/input_helper.py
@@ -34,7 +34,7 @@ def FileInputStream(filename, real_filename=None, **args):
         stream = InputIOStream(inputio, source=source, **args)
         return InputSubStream(stream, 8 * offset, size, **args)
     else:
-        args.setdefault("tags", []).append(("filename", filename))
+        args["tags"] = [*args.get("tags", ()), ("filename", filename)]
         return InputIOStream(inputio, source=source, **args)
 
 
-- 
2.43.0


From 719328415c51d6e5ccd4f989749a43eb3365fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:52 +0000
Subject: [PATCH 061/155] fix: hachoir-subfile searches with all parsers: magic
 of git pack

---
 hachoir/parser/misc/git_pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 6bb558e..ccfabf1 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -216,10 +216,10 @@ class GitPackFile(Parser):
     PARSER_TAGS = {
         "id": "git_pack",
         "category": "misc",
-        "file_ext": (".pack",),
+        "file_ext": ("pack",),
         "mime": (u"application/octet-stream",),
         "min_size": (4 + 4 + 4) * 8,  # just the header
-        "magic": ((b'PACK',),),
+        "magic": ((b'PACK', 0),),
         "description": "Git pack file",
     }
 
-- 
2.43.0


From 48ace224a62911a0b90db471c68dec3454ee44d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:53 +0000
Subject: [PATCH 062/155] fix: limitedMemory() restores the memory limit

---
 hachoir/core/memory.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/hachoir/core/memory.py b/hachoir/core/memory.py
index 9b03023..8e21e64 100644
--- a/hachoir/core/memory.py
+++ b/hachoir/core/memory.py
@@ -53,20 +53,22 @@ try:
 
     def getMemoryLimit():  # noqa
         try:
-            limit = getrlimit(RLIMIT_AS)[0]
-            if 0 < limit:
-                limit *= PAGE_SIZE
-            return limit
-        except ValueError:
+            # Limit in bytes, -1 if there is no limit
+            return getrlimit(RLIMIT_AS)[0]
+        except (ValueError, OSError):
             return None
 
     def setMemoryLimit(max_mem):  # noqa
         if max_mem is None:
             max_mem = -1
         try:
-            setrlimit(RLIMIT_AS, (max_mem, -1))
+            # Don't touch the hard limit
+            hard_limit = getrlimit(RLIMIT_AS)[1]
+            if hard_limit != -1 and not (0 <= max_mem <= hard_limit):
+                max_mem = hard_limit
+            setrlimit(RLIMIT_AS, (max_mem, hard_limit))
             return True
-        except ValueError:
+        except (ValueError, OSError):
             return False
 except ImportError:
     pass
@@ -88,6 +90,9 @@ def limitedMemory(limit, func, *args, **kw):
         # Get old limit and then set our new memory limit
         old_limit = getMemoryLimit()
         limit = max_rss + limit
+        if old_limit is not None and 0 <= old_limit:
+            # Don't loosen an existing limit
+            limit = min(limit, old_limit)
         limited = setMemoryLimit(limit)
     else:
         limited = False
-- 
2.43.0


From 9b2df835ffe7d20e094fba1dac8d22999c712613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:12 +0000
Subject: [PATCH 063/155] fix: chm parser does not print debug values on stdout

---
 hachoir/parser/misc/chm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hachoir/parser/misc/chm.py b/hachoir/parser/misc/chm.py
index 7e76965..dd969d8 100644
--- a/hachoir/parser/misc/chm.py
+++ b/hachoir/parser/misc/chm.py
@@ -145,7 +145,6 @@ class PMGL(FieldSet):
         num_quickref = (entry_count // quickref_frequency)
         if entry_count % quickref_frequency == 0:
             num_quickref -= 1
-        print(self.current_size // 8, quickref_frequency, num_quickref)
         padding = (self["free_space"].value - (num_quickref * 2 + 2))
         if padding:
             yield PaddingBytes(self, "padding", padding)
-- 
2.43.0


From 144e4db74165f32196b040082eaa36dfcd3e71b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:56 +0000
Subject: [PATCH 064/155] fix: log: any failure to open the log file is
 reported as a message

---
 hachoir/core/log.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/core/log.py b/hachoir/core/log.py
index 8d0a932..abfa8be 100644
--- a/hachoir/core/log.py
+++ b/hachoir/core/log.py
@@ -49,10 +49,10 @@ class Log:
             else:
                 self.__file = codecs.open(filename, "w", "utf-8")
             self._writeIntoFile("Starting Hachoir")
-        except FileNotFoundError:
+        except OSError as err:
             self.__file = None
-            self.info("[Log] setFilename(%s) fails: no such file"
-                      % filename)
+            self.info("[Log] setFilename(%s) fails: %s"
+                      % (filename, err))
 
     def _writeIntoFile(self, message):
         timestamp = time.strftime("%Y-%m-%d %H:%M:%S")
-- 
2.43.0


From 621020c42e49940f1cdd0e44d70fa46b693916c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:11 +0000
Subject: [PATCH 065/155] fix: log: write messages which can't be encoded to
 UTF-8

---
 hachoir/core/log.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/core/log.py b/hachoir/core/log.py
index abfa8be..cd58c7d 100644
--- a/hachoir/core/log.py
+++ b/hachoir/core/log.py
@@ -45,9 +45,11 @@ class Log:
         try:
             import codecs
             if append:
-                self.__file = codecs.open(filename, "a", "utf-8")
+                self.__file = codecs.open(filename, "a", "utf-8",
+                                          errors="backslashreplace")
             else:
-                self.__file = codecs.open(filename, "w", "utf-8")
+                self.__file = codecs.open(filename, "w", "utf-8",
+                                          errors="backslashreplace")
             self._writeIntoFile("Starting Hachoir")
         except OSError as err:
             self.__file = None
-- 
2.43.0


From d734abb97e7fdfc15084918da92fa49f42cb47c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:26 +0000
Subject: [PATCH 066/155] fix: log: errors of the log file or of the terminal
 are not raised to the code which logs

---
 hachoir/core/log.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/hachoir/core/log.py b/hachoir/core/log.py
index cd58c7d..d4c3730 100644
--- a/hachoir/core/log.py
+++ b/hachoir/core/log.py
@@ -25,7 +25,10 @@ class Log:
 
     def shutdown(self):
         if self.__file:
-            self._writeIntoFile("Stop Hachoir")
+            try:
+                self._writeIntoFile("Stop Hachoir")
+            except OSError:
+                pass
 
     def setFilename(self, filename, append=True):
         """
@@ -101,13 +104,21 @@ class Log:
 
         # Display on stdout (if used)
         if self.use_print:
-            sys.stdout.flush()
-            sys.stderr.write("%s %s\n" % (prefix, text))
-            sys.stderr.flush()
+            try:
+                sys.stdout.flush()
+                sys.stderr.write("%s %s\n" % (prefix, text))
+                sys.stderr.flush()
+            except OSError:
+                # Broken terminal or pipe
+                pass
 
         # Write into outfile (if used)
         if self.__file:
-            self._writeIntoFile("%s %s" % (prefix, text))
+            try:
+                self._writeIntoFile("%s %s" % (prefix, text))
+            except OSError:
+                # Disk full, for example
+                pass
 
         # Use callback (if used)
         if self.on_new_message:
-- 
2.43.0


From 3ce16c9dbecc2bdf99b3e9cd1f20d3b83aea8525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:40 +0000
Subject: [PATCH 067/155] fix: debug mode: don't add the backtrace 'NoneType:
 None' when there is no exception

---
 hachoir/core/error.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/core/error.py b/hachoir/core/error.py
index cf5d251..5fcc84f 100644
--- a/hachoir/core/error.py
+++ b/hachoir/core/error.py
@@ -14,8 +14,8 @@ def getBacktrace(empty="Empty backtrace."):
     """
     try:
         info = sys.exc_info()
-        trace = traceback.format_exception(*info)
-        if trace[0] != "None\n":
+        if info[0] is not None:
+            trace = traceback.format_exception(*info)
             return "".join(trace)
     except Exception:
         # No i18n here (imagine if i18n function calls error...)
-- 
2.43.0


From bf9a68f8793db6364a0454e6d7e2a2a81ef7f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:56 +0000
Subject: [PATCH 068/155] fix: limitedTime() restores the signal handler and
 the alarm in all cases

---
 hachoir/core/timeout.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/hachoir/core/timeout.py b/hachoir/core/timeout.py
index 9bc4d3e..d2c1426 100644
--- a/hachoir/core/timeout.py
+++ b/hachoir/core/timeout.py
@@ -3,6 +3,7 @@ limitedTime(): set a timeout in seconds when calling a function,
 raise a Timeout error if time exceed.
 """
 from math import ceil
+from time import monotonic
 
 IMPLEMENTATION = None
 
@@ -40,18 +41,31 @@ def fixTimeout(second):
 
 if not IMPLEMENTATION:
     try:
-        from signal import signal, alarm, SIGALRM
+        from signal import (signal, getsignal, alarm, setitimer, getitimer,
+                            SIGALRM, ITIMER_REAL)
 
         # signal.alarm() implementation
         def limitedTime(second, func, *args, **kw):  # noqa
             second = fixTimeout(second)
-            old_alarm = signal(SIGALRM, signalHandler)
+            start = monotonic()
+            old_handler = getsignal(SIGALRM)
+            old_alarm = getitimer(ITIMER_REAL)[0]
+            if old_handler is signalHandler and 0 < old_alarm:
+                # Nested call: the time limit of the caller still applies
+                second = min(second, old_alarm)
             try:
-                alarm(second)
+                signal(SIGALRM, signalHandler)
+                setitimer(ITIMER_REAL, second)
                 return func(*args, **kw)
             finally:
-                alarm(0)
-                signal(SIGALRM, old_alarm)
+                # The signal may be received until the alarm is disabled
+                try:
+                    alarm(0)
+                finally:
+                    signal(SIGALRM, old_handler)
+                    if 0 < old_alarm:
+                        old_alarm -= monotonic() - start
+                        setitimer(ITIMER_REAL, max(old_alarm, 0.001))
 
         IMPLEMENTATION = "signal.alarm()"
     except ImportError:
-- 
2.43.0


From 4775c8fbb4966b374d77265cfbed58b5ef9158b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:10 +0000
Subject: [PATCH 069/155] fix: benchmark: function calls shorter than the
 resolution of the clock

---
 hachoir/core/benchmark.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/core/benchmark.py b/hachoir/core/benchmark.py
index 077c6d3..6b5e2c8 100644
--- a/hachoir/core/benchmark.py
+++ b/hachoir/core/benchmark.py
@@ -132,8 +132,9 @@ class Benchmark:
         total_time = diff
 
         # Compute needed number of calls
-        count = int(floor(self.max_time / diff))
-        count = max(count, self.min_count)
+        count = self.min_count
+        if 0 < diff:
+            count = max(int(floor(self.max_time / diff)), count)
         if self.max_count:
             count = min(count, self.max_count)
 
-- 
2.43.0


From 73be0b1313fb22440b1318a44b213c664f59e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:22 +0000
Subject: [PATCH 070/155] fix: benchmark: restore the garbage collector if the
 function fails

---
 hachoir/core/benchmark.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hachoir/core/benchmark.py b/hachoir/core/benchmark.py
index 6b5e2c8..d251119 100644
--- a/hachoir/core/benchmark.py
+++ b/hachoir/core/benchmark.py
@@ -204,9 +204,11 @@ class Benchmark:
             gc_enabled = False
 
         # Run the benchmark
-        stat = self._run(func, args, kw)
-        if gc_enabled:
-            gc.enable()
+        try:
+            stat = self._run(func, args, kw)
+        finally:
+            if gc_enabled:
+                gc.enable()
 
         # Validate and display stats
         self.validateStat(stat)
-- 
2.43.0


From 74762aaed543bda5c26c134c49ab465e6dc3dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:35 +0000
Subject: [PATCH 071/155] fix: limitedMemory() does not change a limit that it
 can not restore

---
 hachoir/core/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/core/memory.py b/hachoir/core/memory.py
index 8e21e64..bd8f9be 100644
--- a/hachoir/core/memory.py
+++ b/hachoir/core/memory.py
@@ -93,7 +93,7 @@ def limitedMemory(limit, func, *args, **kw):
         if old_limit is not None and 0 <= old_limit:
             # Don't loosen an existing limit
             limit = min(limit, old_limit)
-        limited = setMemoryLimit(limit)
+        limited = (old_limit is not None and setMemoryLimit(limit))
     else:
         limited = False
 
-- 
2.43.0


From 20dcc39dceec968fcc49f000787a128db0966f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:17 +0000
Subject: [PATCH 072/155] fix: hachoir-metadata: --type and --mime escape the
 filename as the other modes do

---
 hachoir/metadata/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/main.py b/hachoir/metadata/main.py
index 7f2e987..1fac3dc 100644
--- a/hachoir/metadata/main.py
+++ b/hachoir/metadata/main.py
@@ -119,7 +119,7 @@ def processFile(values, filename,
             text = result
             if display_filename:
                 text = "%s: %s" % (filename, text)
-            print(text)
+            print(makePrintable(text, charset))
     return True
 
 
-- 
2.43.0


From e1dd27c84852e48df76a85bc5b9de2989451af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:32 +0000
Subject: [PATCH 073/155] fix: hachoir-grep stops silently when its output is
 closed

---
 hachoir/grep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/grep.py b/hachoir/grep.py
index b1c46cc..201a6a7 100644
--- a/hachoir/grep.py
+++ b/hachoir/grep.py
@@ -159,7 +159,7 @@ class ConsoleGrep(Grep):
             try:
                 self.grep(self.parser)
             except IOError as err:
-                if err[0] == errno.EPIPE:
+                if err.errno == errno.EPIPE:
                     # Ignore broken PIPE error
                     return
                 else:
-- 
2.43.0


From f625ab767cd51b4cff84d8724f7019dbab25fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:19 +0000
Subject: [PATCH 074/155] fix: hachoir-subfile --debug displays the statistics

---
 hachoir/subfile/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/subfile/main.py b/hachoir/subfile/main.py
index fe89581..e07facd 100644
--- a/hachoir/subfile/main.py
+++ b/hachoir/subfile/main.py
@@ -41,7 +41,7 @@ def parseOptions():
 
 
 def displaySearchStat(subfile):
-    stats = [(parser.tags["id"], stats[0], stats[1])
+    stats = [(parser.getParserTags()["id"], stats[0], stats[1])
              for parser, stats in subfile.stats.items()]
     print()
     print("[ Match statistics ]")
-- 
2.43.0


From 7a4360e71ab8543f65604a907ef9dd0c0ead82b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:35 +0000
Subject: [PATCH 075/155] fix: SearchSubfile.main() loads all parsers if none
 has been chosen

---
 hachoir/subfile/search.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index f7ae929..f7a1313 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -98,13 +98,13 @@ class SearchSubfile:
         return (not main_error)
 
     def mainHeader(self):
-        # Fix slice size if needed
-        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
-
         # Load parsers if none has been choosen
         if not self.patterns:
             self.loadParsers()
 
+        # Fix slice size if needed
+        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
+
         bytes = (self.size - self.start_offset) // 8
         print("[+] Start search on %s bytes (%s)" % (
             bytes, humanFilesize(bytes)), file=stderr)
-- 
2.43.0


From a90c2d301ea491d24983ad170e8d34d69576ae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:50 +0000
Subject: [PATCH 076/155] fix: hachoir-subfile finds files whose signature is
 across two slices

---
 hachoir/subfile/pattern.py |  2 +-
 hachoir/subfile/search.py  | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/pattern.py b/hachoir/subfile/pattern.py
index a2b1d7b..62d2228 100644
--- a/hachoir/subfile/pattern.py
+++ b/hachoir/subfile/pattern.py
@@ -33,4 +33,4 @@ class HachoirPatternMatching(PatternMatching):
 
     def search(self, data):
         for start, stop, item in PatternMatching.search(self, data.decode('latin1')):
-            yield (item.user[1], start * 8 - item.user[0])
+            yield (start * 8, item.user[1], start * 8 - item.user[0])
diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index f7a1313..2902701 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -179,8 +179,15 @@ class SearchSubfile:
         start = offset
         end = start + self.slice_size
         end = min(end, self.size)
-        data = self.stream.readBytes(start, (end - start) // 8)
-        for parser_cls, offset in self.patterns.search(data):
+        # Read a few bytes after the slice, a signature may start in this slice
+        # and end in the next one
+        data_end = end + max(self.patterns.max_length - 1, 0) * 8
+        data_end = min(data_end, self.size)
+        data = self.stream.readBytes(start, (data_end - start) // 8)
+        for magic_offset, parser_cls, offset in self.patterns.search(data):
+            if end <= start + magic_offset:
+                # Found again in the next slice
+                break
             offset += start
             # Skip invalid offset
             if offset < 0:
-- 
2.43.0


From b0a920e80dff16de3b501affa290f235a522d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:06 +0000
Subject: [PATCH 077/155] fix: hachoir-subfile tries all the parsers which have
 the same signature

---
 hachoir/subfile/pattern.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hachoir/subfile/pattern.py b/hachoir/subfile/pattern.py
index 62d2228..0e14fed 100644
--- a/hachoir/subfile/pattern.py
+++ b/hachoir/subfile/pattern.py
@@ -20,17 +20,21 @@ class HachoirPatternMatching(PatternMatching):
             tags += [None]
         parser_list = QueryParser(tags)
 
-        # Create string patterns
+        # Create string patterns (a magic can be shared by different parsers)
+        magics = {}
         for parser in parser_list:
             for (magic, offset) in parser.getParserTags().get("magic", ()):
-                self.addString(magic.decode('latin1'), (offset, parser))
+                magics.setdefault(magic, []).append((offset, parser))
+        for magic, users in magics.items():
+            self.addString(magic.decode('latin1'), users)
 
         # Create regex patterns
         for parser in parser_list:
             for (regex, offset) in parser.getParserTags().get("magic_regex", ()):
-                self.addRegex(regex.decode('latin1'), (offset, parser))
+                self.addRegex(regex.decode('latin1'), [(offset, parser)])
         self.commit()
 
     def search(self, data):
         for start, stop, item in PatternMatching.search(self, data.decode('latin1')):
-            yield (start * 8, item.user[1], start * 8 - item.user[0])
+            for offset, parser in item.user:
+                yield (start * 8, parser, start * 8 - offset)
-- 
2.43.0


From 779d8d669255b6a344fd0a3770f4b18bfbb85a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:21 +0000
Subject: [PATCH 078/155] fix: the dot of hachoir.regex matches any character,
 newline too

---
 hachoir/regex/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 207cd26..78b5a15 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -257,7 +257,7 @@ class Regex:
             "Class %s has no method _eq()" % self.__class__.__name__)
 
     def compile(self, **kw):
-        return re.compile(self.__str__(**kw))
+        return re.compile(self.__str__(**kw), re.DOTALL)
 
     def findPrefix(self, regex):
         """
-- 
2.43.0


From c25197daa93d3c9ff9fcfe4855645751c6c53eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:35 +0000
Subject: [PATCH 079/155] fix: PatternMatching.search() finds overlapping
 patterns

---
 hachoir/regex/pattern.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hachoir/regex/pattern.py b/hachoir/regex/pattern.py
index e525663..e3afe3c 100644
--- a/hachoir/regex/pattern.py
+++ b/hachoir/regex/pattern.py
@@ -154,9 +154,15 @@ class PatternMatching:
         if not self.max_length:
             # No pattern: returns nothing
             return
-        for match in self.compiled_regex.finditer(data):
+        pos = 0
+        while True:
+            match = self.compiled_regex.search(data, pos)
+            if not match:
+                break
             item = self.getPattern(match.group(0))
             yield (match.start(0), match.end(0), item)
+            # Other patterns may start inside this one
+            pos = match.start(0) + 1
 
     def __str__(self):
         return makePrintable(str(self.regex), 'ASCII')
-- 
2.43.0


From f52ac622561506484a1ec66b9134c14e0dbfe505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:52 +0000
Subject: [PATCH 080/155] fix: offset of the CR2 signature is in bits

---
 hachoir/parser/image/cr2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/cr2.py b/hachoir/parser/image/cr2.py
index 5cc3299..c7c5866 100644
--- a/hachoir/parser/image/cr2.py
+++ b/hachoir/parser/image/cr2.py
@@ -43,7 +43,7 @@ class CR2File(RootSeekableFieldSet, Parser):
         "file_ext": ("cr2",),
         "mime": ("image/x-canon-cr2",),
         "min_size": 15,
-        "magic": ((b"CR", 8),),
+        "magic": ((b"CR", 8 * 8),),
         "description": "Canon CR2 raw image data, version 2.0"
     }
 
-- 
2.43.0


From 1c9e3d4c24ec04f201a221a45293be9442f3ceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:13 +0000
Subject: [PATCH 081/155] fix: the PDF signature is at the beginning of the
 file

---
 hachoir/parser/misc/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/pdf.py b/hachoir/parser/misc/pdf.py
index 73c491e..b864f2b 100644
--- a/hachoir/parser/misc/pdf.py
+++ b/hachoir/parser/misc/pdf.py
@@ -484,7 +484,7 @@ class PDFDocument(Parser):
         "file_ext": ("pdf",),
         "mime": ("application/pdf",),
         "min_size": (5 + 4) * 8,
-        "magic": ((MAGIC, 5),),
+        "magic": ((MAGIC, 0),),
         "description": "Portable Document Format (PDF) document"
     }
 
-- 
2.43.0


From a55a6139d610d91500025f432986ca4357b84480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:33 +0000
Subject: [PATCH 082/155] fix: hachoir-subfile closes the files that it writes
 and reports write errors

---
 hachoir/subfile/output.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/hachoir/subfile/output.py b/hachoir/subfile/output.py
index d079839..11e4386 100644
--- a/hachoir/subfile/output.py
+++ b/hachoir/subfile/output.py
@@ -36,13 +36,11 @@ class Output:
             self.createDirectory()
             self.mkdir = True
 
-        # Create output file
+        # Create and write output file
         filename = path.join(self.directory, filename)
-        output = FileOutputStream(filename)
-
-        # Write output
         try:
-            output.copyBytesFrom(stream, offset, size // 8)
-        except StreamError as err:
-            error("copyBytesFrom() error: %s" % err)
+            with FileOutputStream(filename) as output:
+                output.copyBytesFrom(stream, offset, size // 8)
+        except (OSError, StreamError) as err:
+            error("Unable to write %s: %s" % (filename, err))
         return filename
-- 
2.43.0


From 28d9ca191bff19499d17c119a147a71ab4d4d7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:08 +0000
Subject: [PATCH 083/155] fix: hachoir-urwid completes paths of directories
 which can't be listed

---
 hachoir/urwid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hachoir/urwid.py b/hachoir/urwid.py
index 7be693e..d3381fe 100644
--- a/hachoir/urwid.py
+++ b/hachoir/urwid.py
@@ -31,7 +31,11 @@ except ImportError:
 
 def browse_completion(text):
     path = os.path.dirname(text)
-    for name in os.listdir(path):
+    try:
+        names = os.listdir(path or os.curdir)
+    except OSError:
+        return
+    for name in names:
         name = os.path.join(path, name)
         if os.path.isdir(name):
             name += os.sep
-- 
2.43.0


From 70e14e7d8c11cd7ef8d2f9613a8b0dd5c21c4eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:25 +0000
Subject: [PATCH 084/155] fix: hachoir-urwid logs the errors when a field is
 saved, and closes the file

---
 hachoir/urwid.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hachoir/urwid.py b/hachoir/urwid.py
index d3381fe..ecf954c 100644
--- a/hachoir/urwid.py
+++ b/hachoir/urwid.py
@@ -385,11 +385,15 @@ class Walker(ListWalker):
             hachoir_log.error(str(err))
         else:
             field = self.focus.field
-            if raw:
-                stream = InputFieldStream(field)
-            else:
-                stream = field.getSubIStream()
-            copyfileobj(stream.file(), os.fdopen(fd, 'wb'))
+            try:
+                with os.fdopen(fd, 'wb') as output:
+                    if raw or not field.parent:
+                        stream = InputFieldStream(field)
+                    else:
+                        stream = field.getSubIStream()
+                    copyfileobj(stream.file(), output)
+            except (OSError, InputStreamError) as err:
+                hachoir_log.error(str(err))
 
 
 class TreeBox(ListBox):
-- 
2.43.0


From d20f118fb3c749fafd229f9645cd35855a2494ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:34 +0000
Subject: [PATCH 085/155] fix: hachoir-urwid puts the cursor at the end of the
 proposed file name

---
 hachoir/urwid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hachoir/urwid.py b/hachoir/urwid.py
index ecf954c..3fc6fe8 100644
--- a/hachoir/urwid.py
+++ b/hachoir/urwid.py
@@ -526,6 +526,7 @@ class Input(Edit):
         self._tab = tab
         self.set_caption(caption)
         self.set_edit_text(text)
+        self.set_edit_pos(len(text))
         self._end = True  # TODO: find a better way to move the cursor the end.
         self._top[0](AttrWrap(self, 'input'))
 
-- 
2.43.0


From 984d0d0a560589754c352090949135ab0614641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:53 +0000
Subject: [PATCH 086/155] fix: LucasArts font parser gave a number as
 description of unknown fields

---
 hachoir/parser/game/laf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/game/laf.py b/hachoir/parser/game/laf.py
index 12edd40..993dadc 100644
--- a/hachoir/parser/game/laf.py
+++ b/hachoir/parser/game/laf.py
@@ -77,8 +77,8 @@ class LafFile(Parser):
         yield UInt32(self, "raw_font_data_size")
         yield UInt32(self, "max_char_width")
         yield UInt32(self, "min_char_width")
-        yield UInt32(self, "unknown[]", 4)
-        yield UInt32(self, "unknown[]", 4)
+        yield UInt32(self, "unknown[]")
+        yield UInt32(self, "unknown[]")
         yield UInt32(self, "first_char_code")
         yield UInt32(self, "last_char_code")
 
-- 
2.43.0


From 95e05144670db45c79c7e3f860bf5cb8ba1014ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:39 +0000
Subject: [PATCH 087/155] fix: MPEG-2 TS parser gave a number as description of
 the sync byte

---
 hachoir/parser/video/mpeg_ts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/video/mpeg_ts.py b/hachoir/parser/video/mpeg_ts.py
index e626e70..ed63ae1 100644
--- a/hachoir/parser/video/mpeg_ts.py
+++ b/hachoir/parser/video/mpeg_ts.py
@@ -75,7 +75,7 @@ class Packet(FieldSet):
         if self._m2ts:
             yield Bits(self, "c", 2)
             yield Bits(self, "ats", 32 - 2)
-        yield textHandler(UInt8(self, "sync", 8), hexadecimal)
+        yield textHandler(UInt8(self, "sync"), hexadecimal)
         if self["sync"].value != 0x47:
             raise ParserError("MPEG-2 TS: Invalid synchronization byte")
         yield Bit(self, "has_error")
-- 
2.43.0


From 71fde34369e38f3f67b6bae3df29860bce21d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:55 +0000
Subject: [PATCH 088/155] fix: MP4 parser gave a number as description of
 upStream

---
 hachoir/parser/container/mp4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 3360eb6..8efd2d1 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -83,7 +83,7 @@ DecoderConfigDescrTag = 0x04
 def DecoderConfigDescriptor(self):
     yield UInt8(self, "objectTypeIndication")
     yield Bits(self, "streamType", 6)
-    yield Bit(self, "upStream", 1)
+    yield Bit(self, "upStream")
     yield NullBits(self, "reserved", 1)
     yield UInt24(self, "bufferSizeDB")
     yield UInt32(self, "maxBitrate")
-- 
2.43.0


From 0b9957531da78a629d4fdf70ae8bf172a34be09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:14 +0000
Subject: [PATCH 089/155] fix: S3M parser gave a number as description of a
 reserved field

---
 hachoir/parser/audio/s3m.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/s3m.py b/hachoir/parser/audio/s3m.py
index 91b4515..17c0831 100644
--- a/hachoir/parser/audio/s3m.py
+++ b/hachoir/parser/audio/s3m.py
@@ -492,7 +492,7 @@ class S3MInstrument(Instrument):
         yield Enum(UInt8(self, "packing"), self.PACKING)
         yield SampleFlags(self, "flags")
         yield UInt32(self, "c4_speed", "Frequency for middle C note")
-        yield UInt32(self, "reserved[]", 4)
+        yield UInt32(self, "reserved[]")
         yield UInt16(self, "internal[]", "Sample address in GUS memory")
         yield UInt16(self, "internal[]", "Flags for SoundBlaster loop expansion")
         yield UInt32(self, "internal[]", "Last used position (SB)")
-- 
2.43.0


From e1d08e8b3690a09a157b2d3ebb878805691a1d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:33 +0000
Subject: [PATCH 090/155] fix: FIT parser gave the size of the fields of data
 messages as their description

---
 hachoir/parser/misc/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/fit.py b/hachoir/parser/misc/fit.py
index 8e51f87..08ca313 100644
--- a/hachoir/parser/misc/fit.py
+++ b/hachoir/parser/misc/fit.py
@@ -99,7 +99,7 @@ class DataMessage(FieldSet):
                 yield typ(self, "field%d" % n, desc["size"].value)
             else:
                 if typ.static_size // 8 == desc["size"].value:
-                    yield typ(self, "field%d" % n, desc["size"].value)
+                    yield typ(self, "field%d" % n)
                 else:
                     for p in range(desc["size"].value * 8 // typ.static_size):
                         yield typ(self, "field%d[]" % n)
-- 
2.43.0


From 7218a1b36b3b3bea648ba05b78c18d0b70684f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:48 +0000
Subject: [PATCH 091/155] fix: description of the fields of Java classes

---
 hachoir/parser/program/java.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/program/java.py b/hachoir/parser/program/java.py
index 1ad9c6d..91a4848 100644
--- a/hachoir/parser/program/java.py
+++ b/hachoir/parser/program/java.py
@@ -934,8 +934,8 @@ class FieldInfo(FieldSet):
             if self[mod].value:
                 bits.append(mod)
         bits.append(parse_field_descriptor(
-            self['descriptor_index'].rawvalue()),
-            name=self['name_index'].rawvalue())
+            self['descriptor_index'].rawvalue(),
+            name=self['name_index'].rawvalue()))
         return ' '.join(bits)
 
 
-- 
2.43.0


From 505910239036e91a3e0b24e3e74b939039701a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 092/155] fix: description of ACE blocks without a known type

---
 hachoir/parser/archive/ace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/ace.py b/hachoir/parser/archive/ace.py
index c47bcbd..b0e7c9a 100644
--- a/hachoir/parser/archive/ace.py
+++ b/hachoir/parser/archive/ace.py
@@ -258,7 +258,7 @@ class Block(FieldSet):
         if self.desc_func:
             return self.desc_func(self)
         else:
-            return "Block: %s" % self["type"].display
+            return "Block: %s" % self["block_type"].display
 
 
 class AceFile(Parser):
-- 
2.43.0


From e06dd30d3c45e7692d5573ff9d757b03c8800526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:21 +0000
Subject: [PATCH 093/155] fix: CRC-16 of the Nintendo DS parser with bytes

---
 hachoir/parser/program/nds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/program/nds.py b/hachoir/parser/program/nds.py
index 3509d8b..f6b70b1 100644
--- a/hachoir/parser/program/nds.py
+++ b/hachoir/parser/program/nds.py
@@ -54,7 +54,7 @@ class CRC16:
             self._initTable()
 
         for ch in string:
-            value = self._table[ord(ch) ^ (value & 0xff)] ^ (value >> 8)
+            value = self._table[ch ^ (value & 0xff)] ^ (value >> 8)
         return value
 
 
-- 
2.43.0


From 342f4a50b823a62180ad512d55aa8de1dda685c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:39 +0000
Subject: [PATCH 094/155] fix: value of empty strings in compiled Python files

---
 hachoir/parser/program/python.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/parser/program/python.py b/hachoir/parser/program/python.py
index 4be46bb..853b230 100644
--- a/hachoir/parser/program/python.py
+++ b/hachoir/parser/program/python.py
@@ -57,6 +57,8 @@ def parseString(parent):
 def createStringValue(parent):
     if parent.name == "lnotab":
         return "<lnotab>"
+    if "text" not in parent:
+        return b""
     return parent["text"]
 
 
-- 
2.43.0


From 8c484a5a0eeea50e5340a90ecc1573855f736c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:00 +0000
Subject: [PATCH 095/155] fix: display of Java serialized fields whose class
 name is a reference

---
 hachoir/parser/program/java_serialized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index 8021038..24b1b56 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -89,7 +89,10 @@ class FieldDesc(FieldSet):
     def typeDescriptor(self):
         typecode = self['typecode'].value
         if typecode in ('[', 'L'):
-            return self['className'].value
+            className = self['className']
+            if isinstance(className, SerializedReference):
+                className = className.referent
+            return className.value
         else:
             return typecode
 
-- 
2.43.0


From d871ca0cf867f52e8d9a33ec0b874e532e6150af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:36 +0000
Subject: [PATCH 096/155] fix: hachoir-urwid draws prompts which need several
 rows

---
 hachoir/urwid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/urwid.py b/hachoir/urwid.py
index 3fc6fe8..efa98d2 100644
--- a/hachoir/urwid.py
+++ b/hachoir/urwid.py
@@ -643,7 +643,7 @@ def exploreFieldSet(field_set, args, options={}):
     log.render = lambda size, focus=False: BoxAdapter.render(log, size[
                                                              :1], focus)
     footer.render = lambda arg, focus=False: Pile.render(
-        footer, (arg[0], sep.rows(arg) + log.height), focus)
+        footer, (arg[0], footer.widget_list[0].rows(arg) + log.height), focus)
 
     top = Frame(body, None, footer)
 
-- 
2.43.0


From f37350381db45da888ffb946f53f7eca2a530a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:37 +0000
Subject: [PATCH 097/155] fix: gzip and bzip2 parsers failed when the parser
 was forced by its identifier

---
 hachoir/parser/archive/bzip2_parser.py | 6 +++---
 hachoir/parser/archive/gzip_parser.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/archive/bzip2_parser.py b/hachoir/parser/archive/bzip2_parser.py
index b52b174..b4174f6 100644
--- a/hachoir/parser/archive/bzip2_parser.py
+++ b/hachoir/parser/archive/bzip2_parser.py
@@ -231,9 +231,9 @@ class Bzip2Parser(Parser):
 
         size = (self._size - self.current_size) // 8
         if size:
-            for tag, filename in self.stream.tags:
-                if tag == "filename" and filename.endswith(".bz2"):
-                    filename = filename[:-4]
+            for tag in self.stream.tags:
+                if isinstance(tag, tuple) and tag[0] == "filename" and tag[1].endswith(".bz2"):
+                    filename = tag[1][:-4]
                     break
             else:
                 filename = None
diff --git a/hachoir/parser/archive/gzip_parser.py b/hachoir/parser/archive/gzip_parser.py
index aff9d28..c7afcd8 100644
--- a/hachoir/parser/archive/gzip_parser.py
+++ b/hachoir/parser/archive/gzip_parser.py
@@ -103,9 +103,9 @@ class GzipParser(Parser):
             if self["has_filename"].value:
                 filename = self["filename"].value
             else:
-                for tag, filename in self.stream.tags:
-                    if tag == "filename" and filename.endswith(".gz"):
-                        filename = filename[:-3]
+                for tag in self.stream.tags:
+                    if isinstance(tag, tuple) and tag[0] == "filename" and tag[1].endswith(".gz"):
+                        filename = tag[1][:-3]
                         break
                 else:
                     filename = None
-- 
2.43.0


From b5f152c907a5b68d09684e1282947917a510e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:00 +0000
Subject: [PATCH 098/155] fix: the uncompressed contents of cabinet folders had
 no source

---
 hachoir/parser/archive/cab.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 069ed5e..f84d84a 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -165,6 +165,9 @@ class FolderData(FieldSet):
             if folder["compr_method"].value == 3:  # LZX
                 self.uncompressed_data = lzx_decompress(
                     self["block[0]/data"].getSubIStream(), folder["compr_level"].value)
+            if source is None:
+                source = "Compressed source: '%s' (offset=%s)" % (
+                    stream.source, self.absolute_address)
             return StringInputStream(self.uncompressed_data, source=source, **args)
         self.setSubIStream(createInputStream)
         self.files = files
-- 
2.43.0


From 7f50edb9894497f4ba70953bb1c6a6d57e595d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:37 +0000
Subject: [PATCH 099/155] fix: description and MIME type of the parsers which
 have no tags

---
 hachoir/parser/parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/parser.py b/hachoir/parser/parser.py
index dca1ebf..011e5e2 100644
--- a/hachoir/parser/parser.py
+++ b/hachoir/parser/parser.py
@@ -48,7 +48,7 @@ class HachoirParser(object):
         """
         Create an Unicode description
         """
-        return self.PARSER_TAGS["description"]
+        return self.getParserTags().get("description", "")
 
     def createMimeType(self):
         """
@@ -56,8 +56,9 @@ class HachoirParser(object):
 
         If it returns None, "application/octet-stream" is used.
         """
-        if "mime" in self.PARSER_TAGS:
-            return self.PARSER_TAGS["mime"][0]
+        tags = self.getParserTags()
+        if "mime" in tags:
+            return tags["mime"][0]
         return None
 
     def validate(self):
@@ -79,7 +80,7 @@ class HachoirParser(object):
             except Exception as err:
                 error("Error getting description of %s: %s"
                       % (self.path, str(err)))
-                self._description = self.PARSER_TAGS["description"]
+                self._description = HachoirParser.createDescription(self)
         return self._description
     description = property(_getDescription,
                            doc="Description of the parser")
-- 
2.43.0


From 16022460d724d0c5861b554729427fc7f2b8a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:45 +0000
Subject: [PATCH 100/155] fix: unknown instructions of Flash scripts had no
 description

---
 hachoir/parser/container/action_script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/action_script.py b/hachoir/parser/container/action_script.py
index d006424..2fe2244 100644
--- a/hachoir/parser/container/action_script.py
+++ b/hachoir/parser/container/action_script.py
@@ -354,7 +354,7 @@ class Instruction(FieldSet):
             yield RawBytes(self, "action_data", size)
 
     def createDescription(self):
-        return self._description
+        return self._description or ""
 
     def __str__(self):
         r = str(self._description)
-- 
2.43.0


From 4da310fb7f945d804eb8af467a1bc93d6ab96d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:01 +0000
Subject: [PATCH 101/155] fix: file name suffix of ZIP archives which give
 their MIME type

---
 hachoir/parser/archive/zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 4a8f4e0..14b590b 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -467,7 +467,7 @@ class ZipFile(Parser):
 
     def createFilenameSuffix(self):
         if self["file[0]/filename"].value == "mimetype":
-            mime = self["file[0]/compressed_data"].value
+            mime = makeUnicode(self["file[0]/data"].value)
             if mime in self.MIME_TYPES:
                 return "." + self.MIME_TYPES[mime]
         return ".zip"
-- 
2.43.0


From 47571d4127ba0f1c4a17670d9f3080483c3e15db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:15 +0000
Subject: [PATCH 102/155] fix: content size of Matroska documents whose size is
 not known

---
 hachoir/parser/container/mkv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/parser/container/mkv.py b/hachoir/parser/container/mkv.py
index d02f673..5eb92a6 100644
--- a/hachoir/parser/container/mkv.py
+++ b/hachoir/parser/container/mkv.py
@@ -632,6 +632,8 @@ class MkvFile(Parser):
 
     def createContentSize(self):
         field = self["Segment[0]/size"]
+        if field.value is None:
+            return None
         return field.absolute_address + field.value * 8 + field.size
 
     def createDescription(self):
-- 
2.43.0


From 210ffff0587fa1497fbb0d22382d7152b916da45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:21 +0000
Subject: [PATCH 103/155] fix: hasValue() of the volume table of a damaged
 Windows shortcut

---
 hachoir/parser/misc/lnk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/lnk.py b/hachoir/parser/misc/lnk.py
index 3a6dfef..7e32d7c 100644
--- a/hachoir/parser/misc/lnk.py
+++ b/hachoir/parser/misc/lnk.py
@@ -203,7 +203,7 @@ class LocalVolumeTable(FieldSet):
         yield CString(self, "drive")
 
     def hasValue(self):
-        return bool(self["drive"].value)
+        return "drive" in self and bool(self["drive"].value)
 
     def createValue(self):
         return self["drive"].value
-- 
2.43.0


From 5820a376edcfce634bdb8c77bba6c6b357bd9c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:56 +0000
Subject: [PATCH 104/155] fix: patterns of padding fields must be bytes

---
 hachoir/parser/file_system/ext2.py | 2 +-
 hachoir/parser/misc/file_3do.py    | 2 +-
 hachoir/parser/misc/hlp.py         | 2 +-
 hachoir/parser/video/mpeg_video.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index 44db648..020a76d 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -340,7 +340,7 @@ class Bitmap(FieldSet):
         for index in range(self.count):
             yield Bit(self, "item[]", "%s %s" % (self.itemdesc, self.start + index))
         if self.size > self.count:
-            yield PaddingBytes(self, "padding", (self.size - self.count) // 8, pattern='\xff')
+            yield PaddingBytes(self, "padding", (self.size - self.count) // 8, pattern=b'\xff')
 
 
 class BlockBitmap(Bitmap):
diff --git a/hachoir/parser/misc/file_3do.py b/hachoir/parser/misc/file_3do.py
index e27c8ed..5bbf9cc 100644
--- a/hachoir/parser/misc/file_3do.py
+++ b/hachoir/parser/misc/file_3do.py
@@ -132,7 +132,7 @@ class Node(FieldSet):
 
     def createFields(self):
         yield String(self, "name", 32, strip="\0")
-        yield PaddingBytes(self, "unknown[]", 32, pattern="\xCC")
+        yield PaddingBytes(self, "unknown[]", 32, pattern=b"\xCC")
         yield UInt32(self, "flags")
         yield UInt32(self, "id")
         yield UInt32(self, "type")
diff --git a/hachoir/parser/misc/hlp.py b/hachoir/parser/misc/hlp.py
index b16792c..45c9a03 100644
--- a/hachoir/parser/misc/hlp.py
+++ b/hachoir/parser/misc/hlp.py
@@ -37,7 +37,7 @@ class FileEntry(FieldSet):
         yield NullBytes(self, "zero", 2)
         yield UInt16(self, "nb_page_splits", "Number of page splits B+ tree has suffered")
         yield UInt16(self, "root_page", "Page number of B+ tree root page")
-        yield PaddingBytes(self, "one", 2, pattern="\xFF")
+        yield PaddingBytes(self, "one", 2, pattern=b"\xFF")
         yield UInt16(self, "nb_page", "Number of B+ tree pages")
         yield UInt16(self, "nb_level", "Number of levels of B+ tree")
         yield UInt16(self, "nb_entry", "Number of entries in B+ tree")
diff --git a/hachoir/parser/video/mpeg_video.py b/hachoir/parser/video/mpeg_video.py
index 71d8447..02b02fd 100644
--- a/hachoir/parser/video/mpeg_video.py
+++ b/hachoir/parser/video/mpeg_video.py
@@ -78,7 +78,7 @@ class PackHeader(FieldSet):
             yield Bits(self, "stuffing_length", 3)
             count = self["stuffing_length"].value
             if count:
-                yield PaddingBytes(self, "stuffing", count, pattern="\xff")
+                yield PaddingBytes(self, "stuffing", count, pattern=b"\xff")
         else:
             # MPEG version 1
             yield Bits(self, "sync[]", 4)
-- 
2.43.0


From 520b846042a9a3bc33ddaaac63e2a0f9131b32d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:11 +0000
Subject: [PATCH 105/155] fix: Windows help files whose directory follows the
 header

---
 hachoir/parser/misc/hlp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/hlp.py b/hachoir/parser/misc/hlp.py
index 45c9a03..ad42745 100644
--- a/hachoir/parser/misc/hlp.py
+++ b/hachoir/parser/misc/hlp.py
@@ -70,7 +70,9 @@ class HlpFile(Parser):
         yield Int32(self, "first_free_block", "First free block")
         yield UInt32(self, "filesize", "File size in bytes")
 
-        yield self.seekByte(self["dir_start"].value)
+        padding = self.seekByte(self["dir_start"].value)
+        if padding:
+            yield padding
         yield FileEntry(self, "file[]")
 
         size = (self.size - self.current_size) // 8
-- 
2.43.0


From 9780e9b89f46423497215abf661f74368bc50819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:32 +0000
Subject: [PATCH 106/155] fix: records of .DS_Store files

---
 hachoir/parser/misc/dsstore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/dsstore.py b/hachoir/parser/misc/dsstore.py
index f4a7bec..8f188b6 100644
--- a/hachoir/parser/misc/dsstore.py
+++ b/hachoir/parser/misc/dsstore.py
@@ -115,8 +115,8 @@ class DSRecord(FieldSet):
 
     def createFields(self):
         yield PascalString32UTF16(self, "filename")
-        yield Bytes(self, "property", 4)
-        yield Bytes(self, "type", 4)
+        yield String(self, "property", 4, charset="ASCII")
+        yield String(self, "type", 4, charset="ASCII")
         type = self['type'].value
         if type == 'long':
             yield UInt32(self, "value")
-- 
2.43.0


From f0cf649131e0ced7e582e00bca4d274cf6da30e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:45 +0000
Subject: [PATCH 107/155] fix: patterns and samples of Amiga modules

---
 hachoir/parser/audio/mod.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/audio/mod.py b/hachoir/parser/audio/mod.py
index 4e246c6..d82c6d9 100644
--- a/hachoir/parser/audio/mod.py
+++ b/hachoir/parser/audio/mod.py
@@ -44,11 +44,13 @@ MODULE_TYPE = {
 
 
 def getFineTune(val):
-    return ("0", "1", "2", "3", "4", "5", "6", "7", "8",
+    return ("0", "1", "2", "3", "4", "5", "6", "7",
             "-8", "-7", "-6", "-5", "-4", "-3", "-2", "-1")[val.value]
 
 
 def getVolume(val):
+    if not val.value:
+        return "-inf dB"
     return "%.1f dB" % (20.0 * log10(val.value / 64.0))
 
 
@@ -79,17 +81,17 @@ class Header(FieldSet):
         yield String(self, "type", 4)
 
     def getNumChannels(self):
-        return MODULE_TYPE[self["type"].value][1]
+        return MODULE_TYPE[self["type"].value.encode("ISO-8859-1")][1]
 
 
 class Note(FieldSet):
     static_size = 8 * 4
 
     def createFields(self):
-        yield Bits(self, 4, "note_hi_nibble")
-        yield Bits(self, 12, "period")
-        yield Bits(self, 4, "note_low_nibble")
-        yield Bits(self, 4, "effect")
+        yield Bits(self, "note_hi_nibble", 4)
+        yield Bits(self, "period", 12)
+        yield Bits(self, "note_low_nibble", 4)
+        yield Bits(self, "effect", 4)
         yield UInt8(self, "parameter")
 
 
@@ -132,7 +134,7 @@ class AmigaModule(Parser):
         modtype = self.stream.readBytes(1080 * 8, 4)
         if modtype not in MODULE_TYPE:
             return "Invalid module type %a" % modtype
-        self.createValue = lambda modtype: "%s module, %u channels" % MODULE_TYPE[
+        self.createValue = lambda: "%s module, %u channels" % MODULE_TYPE[
             modtype]
         return True
 
-- 
2.43.0


From 911f709b8c6c41934738cad114f2a298b23cd90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:10 +0000
Subject: [PATCH 108/155] fix: mipmaps of BLP images

---
 hachoir/parser/game/blp.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/hachoir/parser/game/blp.py b/hachoir/parser/game/blp.py
index b948214..9264edf 100644
--- a/hachoir/parser/game/blp.py
+++ b/hachoir/parser/game/blp.py
@@ -101,8 +101,8 @@ class BLP1File(Parser):
                 yield Generic2DArray(self, "mipmap_indexes[%i]" % i, width, height, PaletteIndex, "row", "index", "Indexes into the palette")
                 if image_type in (3, 4):
                     yield Generic2DArray(self, "mipmap_alphas[%i]" % i, width, height, UInt8, "row", "alpha", "Alpha values")
-            width /= 2
-            height /= 2
+            width = max(1, width // 2)
+            height = max(1, height // 2)
 
 
 def interp_avg(data_low, data_high, n):
@@ -113,7 +113,7 @@ def interp_avg(data_low, data_high, n):
     """
     if isinstance(data_low, int):
         for i in range(1, n):
-            yield (data_low * (n - i) + data_high * i) / n
+            yield (data_low * (n - i) + data_high * i) // n
     else:  # iterable
         pairs = list(zip(data_low, data_high))
         pair_iters = [interp_avg(x, y, n) for x, y in pairs]
@@ -271,19 +271,19 @@ class BLP2File(Parser):
             if compression == 0:
                 yield RawBytes(self, "mipmap[%i]" % i, sizes[i].value, "JPEG data, append to header to recover complete image")
             elif compression == 1 and encoding == 1:
-                yield Generic2DArray(self, "mipmap_indexes[%i]" % i, height, width, PaletteIndex, "row", "index", "Indexes into the palette")
+                yield Generic2DArray(self, "mipmap_indexes[%i]" % i, width, height, PaletteIndex, "row", "index", "Indexes into the palette")
                 if alpha_depth == 1:
-                    yield GenericVector(self, "mipmap_alphas[%i]" % i, height, width, Bit, "row", "is_opaque", "Alpha values")
+                    yield Generic2DArray(self, "mipmap_alphas[%i]" % i, width, height, Bit, "row", "is_opaque", "Alpha values")
                 elif alpha_depth == 8:
-                    yield GenericVector(self, "mipmap_alphas[%i]" % i, height, width, UInt8, "row", "alpha", "Alpha values")
+                    yield Generic2DArray(self, "mipmap_alphas[%i]" % i, width, height, UInt8, "row", "alpha", "Alpha values")
             elif compression == 1 and encoding == 2:
                 block_height = alignValue(height, 4) // 4
                 block_width = alignValue(width, 4) // 4
                 if alpha_depth in [0, 1] and alpha_encoding == 0:
-                    yield Generic2DArray(self, "mipmap[%i]" % i, block_height, block_width, DXT1, "row", "block", "DXT1-compressed image blocks")
+                    yield Generic2DArray(self, "mipmap[%i]" % i, block_width, block_height, DXT1, "row", "block", "DXT1-compressed image blocks")
                 elif alpha_depth == 8 and alpha_encoding == 1:
-                    yield Generic2DArray(self, "mipmap[%i]" % i, block_height, block_width, DXT3, "row", "block", "DXT3-compressed image blocks")
+                    yield Generic2DArray(self, "mipmap[%i]" % i, block_width, block_height, DXT3, "row", "block", "DXT3-compressed image blocks")
                 elif alpha_depth == 8 and alpha_encoding == 7:
-                    yield Generic2DArray(self, "mipmap[%i]" % i, block_height, block_width, DXT5, "row", "block", "DXT5-compressed image blocks")
-            width /= 2
-            height /= 2
+                    yield Generic2DArray(self, "mipmap[%i]" % i, block_width, block_height, DXT5, "row", "block", "DXT5-compressed image blocks")
+            width = max(1, width // 2)
+            height = max(1, height // 2)
-- 
2.43.0


From 25eb5900ae1b5f99abb7b30b575db93071754047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:30 +0000
Subject: [PATCH 109/155] fix: name of a field of ZSNES saved states

---
 hachoir/parser/game/zsnes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/game/zsnes.py b/hachoir/parser/game/zsnes.py
index 79ec662..0a5c34c 100644
--- a/hachoir/parser/game/zsnes.py
+++ b/hachoir/parser/game/zsnes.py
@@ -44,7 +44,7 @@ class ZSTcpu(StaticFieldSet):
         (UInt16, "xpc"),
         (UInt8, "xirqb", "which bank the irqs start at"),
         (UInt8, "debugger", "Start with debugger (1: yes, 0: no)"),
-        (UInt32, "Curtable" "Current table address"),
+        (UInt32, "Curtable", "Current table address"),
         (UInt8, "curnmi", "if in NMI (1=yes)"),
         (UInt32, "cycpbl", "percentage left of CPU/SPC to run (3.58 = 175)"),
         (UInt32, "cycpblt", "percentage of CPU/SPC to run"),
-- 
2.43.0


From 9d59bb8e294edb13c5778e5ae4bc94645a7f2931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:22 +0000
Subject: [PATCH 110/155] fix: empty blobs of .DS_Store files

---
 hachoir/parser/misc/dsstore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/dsstore.py b/hachoir/parser/misc/dsstore.py
index 8f188b6..6041a9a 100644
--- a/hachoir/parser/misc/dsstore.py
+++ b/hachoir/parser/misc/dsstore.py
@@ -127,7 +127,8 @@ class DSRecord(FieldSet):
             yield UInt8(self, "value")
         elif type == 'blob':
             yield UInt32(self, "size")
-            yield SubFile(self, "value", self['size'].value)
+            if self['size'].value:
+                yield SubFile(self, "value", self['size'].value)
         elif type == 'type':
             yield Bytes(self, "value", 4)
         elif type == 'ustr':
@@ -136,7 +137,8 @@ class DSRecord(FieldSet):
             raise ParserError("Unknown record type %s" % type)
 
     def createValue(self):
-        return (self['filename'].value, self['property'].value, self['value'].value)
+        value = self['value'].value if 'value' in self else None
+        return (self['filename'].value, self['property'].value, value)
 
     def createDisplay(self):
         return self['filename'].display + ':' + self['property'].value
-- 
2.43.0


From a997abb7ccb1c13a8b48f2666f668e88e92cc775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:24 +0000
Subject: [PATCH 111/155] fix: images of TIFF directories, and directories
 without image

---
 hachoir/parser/image/tiff.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/image/tiff.py b/hachoir/parser/image/tiff.py
index ce3bd28..25cf7f2 100644
--- a/hachoir/parser/image/tiff.py
+++ b/hachoir/parser/image/tiff.py
@@ -73,12 +73,16 @@ class TiffFile(RootSeekableFieldSet, Parser):
         return True
 
     def createFields(self):
-        yield from TIFF(self)
+        ifds = []
+        for field in TIFF(self):
+            yield field
+            if isinstance(field, IFD):
+                ifds.append(field)
 
-        for ifd in self:
-            if not isinstance(ifd, IFD):
+        for ifd in ifds:
+            offs = [off for off, byte in getStrips(ifd)]
+            if not offs:
                 continue
-            offs = (off for off, byte in getStrips(ifd))
             self.seekByte(min(offs), relative=False)
             image = ImageFile(self, "image[]", "Image File", ifd)
             yield image
-- 
2.43.0


From 2592e8622513d6d550c7e86b839a1398af5f96f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:44 +0000
Subject: [PATCH 112/155] fix: boolean properties of XCF images

---
 hachoir/parser/image/xcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/xcf.py b/hachoir/parser/image/xcf.py
index f003907..4d79069 100644
--- a/hachoir/parser/image/xcf.py
+++ b/hachoir/parser/image/xcf.py
@@ -122,7 +122,7 @@ class LayerMode(FieldSet):
 
 class GimpBoolean(UInt32):
 
-    def __init__(self, parent, name):
+    def __init__(self, parent, name, size=None):
         UInt32.__init__(self, parent, name)
 
     def createValue(self):
-- 
2.43.0


From 1a8ff15a11e2260ff478cb3db65a9e902726c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:02 +0000
Subject: [PATCH 113/155] fix: end of the bitmaps of ext2 file systems

---
 hachoir/parser/file_system/ext2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index 020a76d..2539462 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -340,7 +340,11 @@ class Bitmap(FieldSet):
         for index in range(self.count):
             yield Bit(self, "item[]", "%s %s" % (self.itemdesc, self.start + index))
         if self.size > self.count:
-            yield PaddingBytes(self, "padding", (self.size - self.count) // 8, pattern=b'\xff')
+            padding = self.size - self.count
+            if padding % 8:
+                yield PaddingBits(self, "align", padding % 8)
+            if padding // 8:
+                yield PaddingBytes(self, "padding", padding // 8, pattern=b'\xff')
 
 
 class BlockBitmap(Bitmap):
-- 
2.43.0


From 011fceaffff0157d79bffd290ca020fad7ce635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:18 +0000
Subject: [PATCH 114/155] fix: version of the GSUB table of TrueType fonts

---
 hachoir/parser/misc/ttf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index 2705490..95b2b71 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -708,10 +708,11 @@ def parseGSUB(self):
         )
         yield offset
         offsets.append((offset.value, parser))
-    if self["min_ver"].value == 1:
+    if self["minorVersion"].value == 1:
         offset = UInt32(
             self, "featureVariationsOffset", "Offset to feature variations table"
         )
+        yield offset
         offsets.append((offset.value, parseFeatureVariationsTable))
 
     offsets.sort(key=lambda field: field[0])
@@ -721,7 +722,7 @@ def parseGSUB(self):
     lastOffset, first_parser = offsets[0]
     for offset, parser in offsets[1:]:
         # yield parser(self)
-        yield RawBytes(self, "content", offset - lastOffset)
+        yield RawBytes(self, "content[]", offset - lastOffset)
         lastOffset = offset
 
 
-- 
2.43.0


From 9eff8aa484b717914310388e401101098410bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:55 +0000
Subject: [PATCH 115/155] fix: size of the sample descriptions of MP4 files

---
 hachoir/parser/container/mp4.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 8efd2d1..61d6b56 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -898,6 +898,10 @@ def AudioSampleEntry(self):
 
 class SampleEntry(FieldSet):
 
+    def __init__(self, *args, **kw):
+        FieldSet.__init__(self, *args, **kw)
+        self._size = self["size"].value * 8
+
     def createFields(self):
         yield UInt32(self, "size")
         yield RawBytes(self, "format", 4, "Data Format (codec)")
-- 
2.43.0


From 7cd7318404269330b708fb67af0683122e2d2deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:08 +0000
Subject: [PATCH 116/155] fix: size of the numbers of MP4 random access entries

---
 hachoir/parser/container/mp4.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 61d6b56..aa9b0be 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -627,27 +627,27 @@ class TrackFragmentRandomAccess(FieldSet):
                 yield UInt32(self, "moof_offset[%i]" % i)
 
             if self['length_size_of_traf_num'].value == 3:
-                yield UInt64(self, "traf_number[%i]" % i)
-            elif self['length_size_of_traf_num'].value == 2:
                 yield UInt32(self, "traf_number[%i]" % i)
+            elif self['length_size_of_traf_num'].value == 2:
+                yield UInt24(self, "traf_number[%i]" % i)
             elif self['length_size_of_traf_num'].value == 1:
                 yield UInt16(self, "traf_number[%i]" % i)
             else:
                 yield UInt8(self, "traf_number[%i]" % i)
 
             if self['length_size_of_trun_num'].value == 3:
-                yield UInt64(self, "trun_number[%i]" % i)
-            elif self['length_size_of_trun_num'].value == 2:
                 yield UInt32(self, "trun_number[%i]" % i)
+            elif self['length_size_of_trun_num'].value == 2:
+                yield UInt24(self, "trun_number[%i]" % i)
             elif self['length_size_of_trun_num'].value == 1:
                 yield UInt16(self, "trun_number[%i]" % i)
             else:
                 yield UInt8(self, "trun_number[%i]" % i)
 
             if self['length_size_of_sample_num'].value == 3:
-                yield UInt64(self, "sample_number[%i]" % i)
-            elif self['length_size_of_sample_num'].value == 2:
                 yield UInt32(self, "sample_number[%i]" % i)
+            elif self['length_size_of_sample_num'].value == 2:
+                yield UInt24(self, "sample_number[%i]" % i)
             elif self['length_size_of_sample_num'].value == 1:
                 yield UInt16(self, "sample_number[%i]" % i)
             else:
-- 
2.43.0


From 4958c525d7020ed499df1b4abefedd9288c482ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:22 +0000
Subject: [PATCH 117/155] fix: unit of the delay of GIF images

---
 hachoir/parser/image/gif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/image/gif.py b/hachoir/parser/image/gif.py
index a33b128..e8bccf6 100644
--- a/hachoir/parser/image/gif.py
+++ b/hachoir/parser/image/gif.py
@@ -205,7 +205,8 @@ def parseGraphicControl(parent):
 
     if parent["size"].value != 4:
         raise ParserError("Invalid graphic control size")
-    yield displayHandler(UInt16(parent, "delay", "Delay time in millisecond"), humanDuration)
+    yield displayHandler(UInt16(parent, "delay", "Delay time in 1/100 second"),
+                         lambda delay: humanDuration(delay * 10))
     yield UInt8(parent, "transp", "Transparent color index")
     yield NullBytes(parent, "terminator", 1, "Terminator (0)")
 
-- 
2.43.0


From 0ccd85447f28a881ecf3fe6a9b8e2736d23474da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:37 +0000
Subject: [PATCH 118/155] fix: transparency of GIF images in the metadata

---
 hachoir/metadata/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 17654b0..ae6e13b 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -261,8 +261,8 @@ class GifMetadata(RootMetadata):
         for comments in gif.array("comments"):
             for comment in gif.array(comments.name + "/comment"):
                 self.comment = comment.value
-        if ("graphic_ctl/has_transp" in gif
-                and gif["graphic_ctl/has_transp"].value):
+        if ("graphic_ctl[0]/has_transp" in gif
+                and gif["graphic_ctl[0]/has_transp"].value):
             self.pixel_format = "Color index with transparency"
         else:
             self.pixel_format = "Color index"
-- 
2.43.0


From d61eb324a4ce3b7ea6b2191e846481cf7993d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:51 +0000
Subject: [PATCH 119/155] fix: resolution of PNG images in the metadata

---
 hachoir/metadata/image.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index ae6e13b..ad7448f 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -218,8 +218,12 @@ class PngMetadata(RootMetadata):
 
     @fault_tolerant
     def usePhysical(self, field):
-        self.width_dpi = field["pixel_per_unit_x"].value
-        self.height_dpi = field["pixel_per_unit_y"].value
+        if field["unit"].value != 1:
+            # Unknown unit: only the aspect ratio is known
+            return
+        # Pixels per meter
+        self.width_dpi = round(field["pixel_per_unit_x"].value * 0.0254)
+        self.height_dpi = round(field["pixel_per_unit_y"].value * 0.0254)
 
     @fault_tolerant
     def useHeader(self, header):
-- 
2.43.0


From 0912fd279a0a32ebeacbe93f4a423ebcfe3caedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:04 +0000
Subject: [PATCH 120/155] fix: resolution of BMP images in the metadata

---
 hachoir/metadata/image.py   | 5 +++--
 hachoir/parser/image/bmp.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index ad7448f..f727d04 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -44,8 +44,9 @@ class BmpMetadata(RootMetadata):
         self.format_version = ("Microsoft Bitmap version %s"
                                % hdr.getFormatVersion())
 
-        self.width_dpi = hdr["horizontal_dpi"].value
-        self.height_dpi = hdr["vertical_dpi"].value
+        # Pixels per meter
+        self.width_dpi = round(hdr["horizontal_dpi"].value * 0.0254)
+        self.height_dpi = round(hdr["vertical_dpi"].value * 0.0254)
 
         if "pixels" in image:
             computeComprRate(self, image["pixels"].size)
diff --git a/hachoir/parser/image/bmp.py b/hachoir/parser/image/bmp.py
index 518fdc2..930c55f 100644
--- a/hachoir/parser/image/bmp.py
+++ b/hachoir/parser/image/bmp.py
@@ -93,8 +93,8 @@ class BmpHeader(FieldSet):
             return
         yield Enum(UInt32(self, "compression", "Compression method"), BmpFile.COMPRESSION_NAME)
         yield UInt32(self, "image_size", "Image size (bytes)")
-        yield UInt32(self, "horizontal_dpi", "Horizontal DPI")
-        yield UInt32(self, "vertical_dpi", "Vertical DPI")
+        yield UInt32(self, "horizontal_dpi", "Horizontal resolution (pixels per meter)")
+        yield UInt32(self, "vertical_dpi", "Vertical resolution (pixels per meter)")
         yield UInt32(self, "used_colors", "Number of color used")
         yield UInt32(self, "important_color", "Number of import colors")
 
-- 
2.43.0


From e06e501cd7cabd17961b0cb8d19e062cf77feb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:29 +0000
Subject: [PATCH 121/155] fix: size and depth of PCX images

---
 hachoir/metadata/image.py   | 11 ++++++-----
 hachoir/parser/image/pcx.py |  3 ++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index f727d04..f8f2a8a 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -138,13 +138,14 @@ class PcxMetadata(RootMetadata):
 
     @fault_tolerant
     def extract(self, pcx):
-        self.width = 1 + pcx["xmax"].value
-        self.height = 1 + pcx["ymax"].value
+        self.width = 1 + pcx["xmax"].value - pcx["xmin"].value
+        self.height = 1 + pcx["ymax"].value - pcx["ymin"].value
         self.width_dpi = pcx["horiz_dpi"].value
         self.height_dpi = pcx["vert_dpi"].value
-        self.bits_per_pixel = pcx["bpp"].value
-        if 1 <= pcx["bpp"].value <= 8:
-            self.nb_colors = 2 ** pcx["bpp"].value
+        bpp = pcx["bpp"].value * pcx["nb_color_plan"].value
+        self.bits_per_pixel = bpp
+        if 1 <= bpp <= 8:
+            self.nb_colors = 2 ** bpp
         self.compression = "Run-length encoding (RLE)"
         self.format_version = "PCX: %s" % pcx["version"].display
         if "image_data" in pcx:
diff --git a/hachoir/parser/image/pcx.py b/hachoir/parser/image/pcx.py
index a204b1c..d6e162e 100644
--- a/hachoir/parser/image/pcx.py
+++ b/hachoir/parser/image/pcx.py
@@ -64,7 +64,8 @@ class PcxFile(Parser):
 
         nb_colors = 256
         size = (self._size - self.current_size) // 8
-        has_palette = self["bpp"].value == 8
+        has_palette = (self["bpp"].value == 8
+                       and self["nb_color_plan"].value == 1)
         if has_palette:
             size -= nb_colors * 3
         yield RawBytes(self, "image_data", size, "Image data")
-- 
2.43.0


From 9ad7093158cfba0c8f0074ee652121fc0569bef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:46 +0000
Subject: [PATCH 122/155] fix: monochrome icons

---
 hachoir/parser/image/ico.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/image/ico.py b/hachoir/parser/image/ico.py
index 63556e0..97288cb 100644
--- a/hachoir/parser/image/ico.py
+++ b/hachoir/parser/image/ico.py
@@ -34,6 +34,9 @@ class IconHeader(FieldSet):
                 return True
             if self["planes"].value == 4 and self["bpp"].value == 0:
                 return True
+        elif self["nb_color"].value == 2:
+            if self["bpp"].value == 1 and self["planes"].value == 1:
+                return True
         elif self["nb_color"].value == 16:
             if self["bpp"].value in (4, 16) and self["planes"].value == 1:
                 return True
-- 
2.43.0


From b7bb2b904b2ef6d2bf52d2696264d294c957e08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:04 +0000
Subject: [PATCH 123/155] fix: width and height of PSD images

---
 hachoir/parser/image/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/psd.py b/hachoir/parser/image/psd.py
index df59f6b..4cc89e4 100644
--- a/hachoir/parser/image/psd.py
+++ b/hachoir/parser/image/psd.py
@@ -60,8 +60,8 @@ class PsdFile(Parser):
         yield UInt16(self, "version")
         yield NullBytes(self, "reserved[]", 6)
         yield UInt16(self, "nb_channels")
-        yield UInt32(self, "width")
         yield UInt32(self, "height")
+        yield UInt32(self, "width")
         yield UInt16(self, "depth")
         yield Enum(UInt16(self, "color_mode"), self.COLOR_MODE)
 
-- 
2.43.0


From 3a09f26d325a3a439236f3369dca7983fa14a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:23 +0000
Subject: [PATCH 124/155] fix: FLAC files with a single metadata block

---
 hachoir/parser/audio/flac.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/flac.py b/hachoir/parser/audio/flac.py
index 9a43569..56d3361 100644
--- a/hachoir/parser/audio/flac.py
+++ b/hachoir/parser/audio/flac.py
@@ -148,19 +148,22 @@ class Frames(FieldSet):
 class FlacParser(Parser):
     "Parse FLAC audio files: FLAC is a lossless audio codec"
     MAGIC = b"fLaC\x00"
+    # The stream info is the last metadata block
+    MAGIC_LAST = b"fLaC\x80"
     PARSER_TAGS = {
         "id": "flac",
         "category": "audio",
         "file_ext": ("flac",),
         "mime": ("audio/x-flac",),
-        "magic": ((MAGIC, 0),),
+        "magic": ((MAGIC, 0), (MAGIC_LAST, 0)),
         "min_size": 4 * 8,
         "description": "FLAC audio",
     }
     endian = BIG_ENDIAN
 
     def validate(self):
-        if self.stream.readBytes(0, len(self.MAGIC)) != self.MAGIC:
+        magic = self.stream.readBytes(0, len(self.MAGIC))
+        if magic not in (self.MAGIC, self.MAGIC_LAST):
             return "Invalid magic string"
         return True
 
-- 
2.43.0


From e05782917b29a8750c5bda07438816eea35e4ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:38 +0000
Subject: [PATCH 125/155] fix: resolution of JPEG images in pixels per
 centimeter

---
 hachoir/metadata/jpeg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/jpeg.py b/hachoir/metadata/jpeg.py
index bad0b97..51f2380 100644
--- a/hachoir/metadata/jpeg.py
+++ b/hachoir/metadata/jpeg.py
@@ -170,8 +170,12 @@ class JpegMetadata(RootMetadata):
         self.format_version = "JFIF %u.%02u" \
             % (app0["ver_maj"].value, app0["ver_min"].value)
         if "y_density" in app0:
-            self.width_dpi = app0["x_density"].value
-            self.height_dpi = app0["y_density"].value
+            ratio = 1
+            if app0["units"].value == 2:
+                # Pixels per centimeter
+                ratio = 2.54
+            self.width_dpi = round(app0["x_density"].value * ratio)
+            self.height_dpi = round(app0["y_density"].value * ratio)
 
     @fault_tolerant
     def processIfdEntry(self, ifd, entry):
-- 
2.43.0


From 2af83384b015ef585c1172365f4bfa958a03972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:55 +0000
Subject: [PATCH 126/155] fix: time of GPS timestamps in the metadata

---
 hachoir/metadata/jpeg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/jpeg.py b/hachoir/metadata/jpeg.py
index 51f2380..679efd7 100644
--- a/hachoir/metadata/jpeg.py
+++ b/hachoir/metadata/jpeg.py
@@ -244,7 +244,7 @@ class JpegMetadata(RootMetadata):
             elif tag == "GPSDateStamp":
                 datestamp = values[0]
             elif tag == "GPSTimeStamp":
-                timestamp = ':'.join(str(int(x)) for x in values)
+                timestamp = ':'.join("%02u" % int(x) for x in values)
         if latitude_ref and latitude:
             value = deg2float(*latitude)
             if latitude_ref < 0:
-- 
2.43.0


From 99bae3af3d843ebe63eb1f74a63603a4fdb411f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:10 +0000
Subject: [PATCH 127/155] fix: track number of ASF files

---
 hachoir/metadata/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index 41fd002..0150a14 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -259,7 +259,7 @@ class AsfMetadata(MultipleMetadata):
         "ToolName": "producer",
         "AlbumTitle": "album",
         "Track": "track_number",
-        "TrackNumber": "track_total",
+        "TrackNumber": "track_number",
         "Year": "creation_date",
         "AlbumArtist": "author",
     }
-- 
2.43.0


From 652afa6aaaba4252519b43c80d71205fa1a440e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:23 +0000
Subject: [PATCH 128/155] fix: dates with a negative time zone

---
 hachoir/metadata/setter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hachoir/metadata/setter.py b/hachoir/metadata/setter.py
index 9d6997d..53df3b4 100644
--- a/hachoir/metadata/setter.py
+++ b/hachoir/metadata/setter.py
@@ -21,7 +21,7 @@ DATETIME_REGEX2 = re.compile("^([01]?[0-9])~([0-9]{2})~([0-9]{4})"
                              "~([0-9]{1,2})~([0-9]{2})~([0-9]{1,2})$")
 
 # Timezone regex: "(...) +0200"
-TIMEZONE_REGEX = re.compile("^(.*)~([+-][0-9]{2})00$")
+TIMEZONE_REGEX = re.compile("^(.*) ([+-][0-9]{2})00$")
 
 # Timestmap: 'February 2007'
 MONTH_YEAR = "%B~%Y"
@@ -53,7 +53,8 @@ def parseDatetime(value):
     >>> parseDatetime('Thu, 19 Jul 2007 09:03:57 +0200')
     datetime.datetime(2007, 7, 19, 9, 3, 57, tzinfo=<Timezone delta=2:00:00, name='+0200'>)
     """
-    value = NORMALIZE_REGEX.sub("~", value.strip())
+    text = value.strip()
+    value = NORMALIZE_REGEX.sub("~", text)
     regs = YEAR_REGEX1.match(value)
     if regs:
         try:
@@ -96,9 +97,9 @@ def parseDatetime(value):
             pass
     current_locale = setlocale(LC_ALL, "C")
     try:
-        match = TIMEZONE_REGEX.match(value)
+        match = TIMEZONE_REGEX.match(text)
         if match:
-            without_timezone = match.group(1)
+            without_timezone = NORMALIZE_REGEX.sub("~", match.group(1))
             delta = int(match.group(2))
             delta = createTimezone(delta)
         else:
-- 
2.43.0


From 8e29f24f9d85e868c97cc07099b3d9eb3d2f414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:37 +0000
Subject: [PATCH 129/155] fix: pixel format of grayscale PNG images

---
 hachoir/metadata/image.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index f8f2a8a..570f4ff 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -237,7 +237,12 @@ class PngMetadata(RootMetadata):
             nb_colors = header["/palette/size"].value // 3
         else:
             nb_colors = None
-        if not header["has_palette"].value:
+        if not header["color"].value:
+            if header["has_alpha"].value:
+                self.pixel_format = "Grayscale with alpha"
+            else:
+                self.pixel_format = "Grayscale"
+        elif not header["has_palette"].value:
             if header["has_alpha"].value:
                 self.pixel_format = "RGBA"
             else:
-- 
2.43.0


From e23ad5287a417f434bc71580b6f356dfdd4f5fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:56 +0000
Subject: [PATCH 130/155] fix: AMF: read an ECMA array up to its end marker,
 its length is approximate

---
 hachoir/parser/video/amf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/video/amf.py b/hachoir/parser/video/amf.py
index d82ea31..4c18e01 100644
--- a/hachoir/parser/video/amf.py
+++ b/hachoir/parser/video/amf.py
@@ -42,8 +42,9 @@ def parseObjectAttributes(parent):
 
 
 def parseMixedArray(parent):
+    # The count is only an approximation: the array ends with an empty key
     yield UInt32(parent, "count")
-    for index in range(parent["count"].value + 1):
+    while True:
         item = Attribute(parent, "item[]")
         yield item
         if not item['key'].value:
-- 
2.43.0


From d1c9f63bd983297207fddafb8bbb14804283953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:11 +0000
Subject: [PATCH 131/155] fix: a set which claims to be longer than the
 document could be read for ever

---
 hachoir/field/generic_field_set.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 662950b..189beb1 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -125,18 +125,26 @@ class GenericFieldSet(BasicFieldSet):
         self._current_size + 1, True) < 0)
 
     def _checkSize(self, size, strict):
+        # The end of the set is the first of its end and of those of its parents
         field = self
-        while field._size is None:
+        room = None
+        while True:
+            if field._size is not None:
+                left = field._size - size
+                if room is None or left < room:
+                    room = left
             if not field._parent:
-                assert self.stream.size is None
-                if not strict:
-                    return None
-                if self.stream.sizeGe(size):
-                    return 0
                 break
             size += field._address
             field = field._parent
-        return field._size - size
+        if room is None:
+            assert self.stream.size is None
+            if not strict:
+                return None
+            if self.stream.sizeGe(size):
+                return 0
+            return field._size - size
+        return room
 
     autofix = property(lambda self: self.root.autofix)
 
-- 
2.43.0


From 9cc6c4c26d496a4db6345115537b5da62d07e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:31 +0000
Subject: [PATCH 132/155] fix: a loop in the tree of a .DS_Store file was
 followed for ever

---
 hachoir/parser/misc/dsstore.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hachoir/parser/misc/dsstore.py b/hachoir/parser/misc/dsstore.py
index 6041a9a..c07934a 100644
--- a/hachoir/parser/misc/dsstore.py
+++ b/hachoir/parser/misc/dsstore.py
@@ -210,8 +210,13 @@ class DSStore(HachoirParser, RootSeekableFieldSet):
         yield DSDB(self, "dsdb", size=size * 8)
 
         blocks = [self['dsdb/root_block'].value]
+        done = set()
         while blocks:
             block = blocks.pop()
+            if block in done:
+                # The tree of a damaged file may have loops
+                continue
+            done.add(block)
             offs, size = self.getBlock(block)
             self.seekByte(offs + 4)
             node = BTNode(self, "node[%d]" % block, size=size * 8)
-- 
2.43.0


From 97d90a63dd16e9d15ba0c6d0041217e506a27983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:50 +0000
Subject: [PATCH 133/155] fix: the data of an AIFF sound contained the padding
 of its chunk

---
 hachoir/parser/audio/aiff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/aiff.py b/hachoir/parser/audio/aiff.py
index 8a9ddc7..8e7275c 100644
--- a/hachoir/parser/audio/aiff.py
+++ b/hachoir/parser/audio/aiff.py
@@ -61,8 +61,8 @@ def parseVersion(self):
 def parseSound(self):
     yield UInt32(self, "offset")
     yield UInt32(self, "block_size")
-    size = (self.size - self.current_size) // 8
-    if size:
+    size = self["size"].value - 8
+    if 0 < size:
         yield RawBytes(self, "data", size)
 
 
-- 
2.43.0


From b6479dceaef6074e27fc4e8d0a3036e7b230bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:23 +0000
Subject: [PATCH 134/155] fix: the duration of a Matroska document without
 TimecodeScale was missing

---
 hachoir/metadata/video.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index 0150a14..e6f341c 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -125,17 +125,20 @@ class MkvMetadata(MultipleMetadata):
         setattr(self, key, value)
 
     def processInfo(self, info):
-        if "TimecodeScale/unsigned" in info:
-            duration = self.getDouble(info, "Duration")
-            if duration is not None:
-                try:
-                    seconds = duration * \
-                        info["TimecodeScale/unsigned"].value * 1e-9
-                    self.duration = timedelta(seconds=seconds)
-                except OverflowError:
-                    # Catch OverflowError for timedelta (long int too large
-                    # to be converted to an int)
-                    pass
+        duration = self.getDouble(info, "Duration")
+        if duration is not None:
+            if "TimecodeScale/unsigned" in info:
+                scale = info["TimecodeScale/unsigned"].value
+            else:
+                # Default value: one millisecond
+                scale = 1000000
+            try:
+                seconds = duration * scale * 1e-9
+                self.duration = timedelta(seconds=seconds)
+            except (OverflowError, ValueError):
+                # Catch OverflowError for timedelta (long int too large
+                # to be converted to an int), ValueError for NaN
+                pass
         if "DateUTC/date" in info:
             try:
                 self.creation_date = dateToDatetime(info["DateUTC/date"].value)
-- 
2.43.0


From 89b09ec5a234851ed6b5db4ea70b15248313d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:36 +0000
Subject: [PATCH 135/155] fix: dates with a time zone which is not a whole
 number of hours were ignored

---
 hachoir/metadata/setter.py   | 6 ++++--
 hachoir/metadata/timezone.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/hachoir/metadata/setter.py b/hachoir/metadata/setter.py
index 53df3b4..c499e64 100644
--- a/hachoir/metadata/setter.py
+++ b/hachoir/metadata/setter.py
@@ -21,7 +21,7 @@ DATETIME_REGEX2 = re.compile("^([01]?[0-9])~([0-9]{2})~([0-9]{4})"
                              "~([0-9]{1,2})~([0-9]{2})~([0-9]{1,2})$")
 
 # Timezone regex: "(...) +0200"
-TIMEZONE_REGEX = re.compile("^(.*) ([+-][0-9]{2})00$")
+TIMEZONE_REGEX = re.compile("^(.*) ([+-])([0-9]{2})([0-5][0-9])$")
 
 # Timestmap: 'February 2007'
 MONTH_YEAR = "%B~%Y"
@@ -100,7 +100,9 @@ def parseDatetime(value):
         match = TIMEZONE_REGEX.match(text)
         if match:
             without_timezone = NORMALIZE_REGEX.sub("~", match.group(1))
-            delta = int(match.group(2))
+            delta = int(match.group(3)) + int(match.group(4)) / 60
+            if match.group(2) == "-":
+                delta = -delta
             delta = createTimezone(delta)
         else:
             without_timezone = value
diff --git a/hachoir/metadata/timezone.py b/hachoir/metadata/timezone.py
index b8fe1de..bc8164c 100644
--- a/hachoir/metadata/timezone.py
+++ b/hachoir/metadata/timezone.py
@@ -22,8 +22,10 @@ class Timezone(TimezoneUTC):
     """Fixed offset in hour from UTC."""
 
     def __init__(self, offset):
-        self._offset = timedelta(minutes=offset * 60)
-        self._name = "%+03u00" % offset
+        minutes = int(round(offset * 60))
+        self._offset = timedelta(minutes=minutes)
+        sign = "-" if minutes < 0 else "+"
+        self._name = "%s%02u%02u" % ((sign,) + divmod(abs(minutes), 60))
 
     def utcoffset(self, dt):
         return self._offset
-- 
2.43.0


From 95ebb42bd84d7547d846c623f05e2f2435d9bd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:50 +0000
Subject: [PATCH 136/155] fix: offsets of the physical streams of a RealMedia
 document are 32 bits

---
 hachoir/parser/container/realmedia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/realmedia.py b/hachoir/parser/container/realmedia.py
index f27b06a..fb3d1f2 100644
--- a/hachoir/parser/container/realmedia.py
+++ b/hachoir/parser/container/realmedia.py
@@ -73,7 +73,7 @@ class LogicalFileInfo(FieldSet):
         for index in range(self["nb_physical_stream"].value):
             yield UInt16(self, "physical_stream[]")
         for index in range(self["nb_physical_stream"].value):
-            yield UInt16(self, "data_offset[]")
+            yield UInt32(self, "data_offset[]")
         yield UInt16(self, "nb_rule")
         for index in range(self["nb_rule"].value):
             yield UInt16(self, "rule[]")
-- 
2.43.0


From 5ecf445f85329370347e6a046f6137ea5f9666ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:03 +0000
Subject: [PATCH 137/155] fix: dates with a day of one digit (1/2/2003
 04:05:06) were ignored

---
 hachoir/metadata/setter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/setter.py b/hachoir/metadata/setter.py
index c499e64..02c72af 100644
--- a/hachoir/metadata/setter.py
+++ b/hachoir/metadata/setter.py
@@ -17,7 +17,7 @@ DATETIME_REGEX1 = re.compile("^([0-9]{4})~([01][0-9])~([0-9]{2})"
                              "~([0-9]{1,2})~([0-9]{2})~([0-9]{1,2})$")
 
 # Datetime regex: "MM-DD-YYYY HH:MM:SS" (FR format)
-DATETIME_REGEX2 = re.compile("^([01]?[0-9])~([0-9]{2})~([0-9]{4})"
+DATETIME_REGEX2 = re.compile("^([01]?[0-9])~([0-3]?[0-9])~([0-9]{4})"
                              "~([0-9]{1,2})~([0-9]{2})~([0-9]{1,2})$")
 
 # Timezone regex: "(...) +0200"
-- 
2.43.0


From 007088f1a41088bc323383923358c01f5ef3a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:17 +0000
Subject: [PATCH 138/155] fix: duration of an Ogg document with several streams
 was read from any of them

---
 hachoir/metadata/audio.py       |  6 +++++-
 hachoir/parser/container/ogg.py | 21 ++++++++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/hachoir/metadata/audio.py b/hachoir/metadata/audio.py
index 4bcedf8..4455a80 100644
--- a/hachoir/metadata/audio.py
+++ b/hachoir/metadata/audio.py
@@ -70,9 +70,11 @@ class OggMetadata(MultipleMetadata):
 
     def extract(self, ogg):
         granule_quotient = None
+        serial = None
         for index, page in enumerate(ogg.array("page")):
             if "segments" not in page:
                 continue
+            page_serial = page["serial"].value
             page = page["segments"]
             if "vorbis_hdr" in page:
                 meta = Metadata(self)
@@ -80,6 +82,7 @@ class OggMetadata(MultipleMetadata):
                 self.addGroup("audio[]", meta, "Audio")
                 if not granule_quotient and meta.has("sample_rate"):
                     granule_quotient = meta.get('sample_rate')
+                    serial = page_serial
             if "theora_hdr" in page:
                 meta = Metadata(self)
                 self.theoraHeader(page["theora_hdr"], meta)
@@ -90,6 +93,7 @@ class OggMetadata(MultipleMetadata):
                 self.addGroup("video[]", meta, "Video")
                 if not granule_quotient and meta.has("frame_rate"):
                     granule_quotient = meta.get('frame_rate')
+                    serial = page_serial
             if "comment" in page:
                 readVorbisComment(self, page["comment"])
             if 3 <= index:
@@ -98,7 +102,7 @@ class OggMetadata(MultipleMetadata):
 
         # Compute duration
         if granule_quotient and QUALITY_NORMAL <= self.quality:
-            page = ogg.createLastPage()
+            page = ogg.createLastPage(serial)
             if page and "abs_granule_pos" in page:
                 try:
                     self.duration = timedelta(seconds=float(
diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 982901d..135e218 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -328,17 +328,24 @@ class OggFile(Parser):
             if page.lacing_size:
                 self.streams.setdefault(page['serial'].value, page)
 
-    def createLastPage(self):
+    def createLastPage(self, serial=None):
+        """
+        Last page of the logical stream with the specified serial number
+        (by default, of any logical stream).
+        """
         start = self[0].size
         end = MAX_FILESIZE * 8
         if True:
             # FIXME: This doesn't work on all files (eg. some Ogg/Theora)
-            offset = self.stream.searchBytes(b"OggS\0\5", start, end)
-            if offset is None:
-                offset = self.stream.searchBytes(b"OggS\0\4", start, end)
-            if offset is None:
-                return None
-            return createOrphanField(self, offset, OggPage, "page")
+            for pattern in (b"OggS\0\5", b"OggS\0\4"):
+                offset = self.stream.searchBytes(pattern, start, end)
+                while offset is not None:
+                    page = createOrphanField(self, offset, OggPage, "page")
+                    if serial is None or page["serial"].value == serial:
+                        return page
+                    offset = self.stream.searchBytes(
+                        pattern, offset + len(pattern) * 8, end)
+            return None
         else:
             # Very slow version
             page = None
-- 
2.43.0


From b8b5167794334653e43b7b8b8112385b85b82d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:31 +0000
Subject: [PATCH 139/155] fix: the description of an EMF picture with an
 extended header was ignored

---
 hachoir/parser/image/wmf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/parser/image/wmf.py b/hachoir/parser/image/wmf.py
index 0d4fece..2606256 100644
--- a/hachoir/parser/image/wmf.py
+++ b/hachoir/parser/image/wmf.py
@@ -507,6 +507,10 @@ class EMF_Header(FieldSet):
         offset = self["desc_ofst"].value
         current = (self.absolute_address + self.current_size) // 8
         size = self["desc_size"].value * 2
+        if size and current < offset <= self["size"].value - size:
+            # Extended header
+            yield RawBytes(self, "extension", offset - current)
+            current = offset
         if offset == current and size:
             yield String(self, "description", size, charset="UTF-16-LE", strip="\0 ")
 
-- 
2.43.0


From adbfe8273f46f7d765ce324f105f4bf851185dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:46 +0000
Subject: [PATCH 140/155] fix: content size of an Ogg document with several
 streams was the end of one of them

---
 hachoir/parser/container/ogg.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 135e218..027ae04 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -14,6 +14,9 @@ from hachoir.core.endian import LITTLE_ENDIAN, BIG_ENDIAN
 from hachoir.core.tools import humanDurationNanosec
 from hachoir.core.text_handler import textHandler, hexadecimal
 
+# Maximum number of logical streams used to compute the content size
+MAX_NB_STREAM = 20
+
 MAX_FILESIZE = 1000 * 1024 * 1024
 
 
@@ -358,11 +361,18 @@ class OggFile(Parser):
             return page
 
     def createContentSize(self):
-        page = self.createLastPage()
-        if page:
-            return page.absolute_address + page.size
-        else:
-            return None
+        # The document ends with the last page of the last of its streams
+        serials = set()
+        for page in self.array("page"):
+            if not page["first_page"].value or MAX_NB_STREAM <= len(serials):
+                break
+            serials.add(page["serial"].value)
+        size = None
+        for serial in serials or (None,):
+            page = self.createLastPage(serial)
+            if page:
+                size = max(size or 0, page.absolute_address + page.size)
+        return size
 
 
 class OggStream(Parser):
-- 
2.43.0


From 51fe3014ca6dd5e10f918b85c501549551885b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:06 +0000
Subject: [PATCH 141/155] fix: the description of an Ogg document did not tell
 the kind of its stream

---
 hachoir/parser/container/ogg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 027ae04..ea1baa0 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -316,9 +316,9 @@ class OggFile(Parser):
             return "application/ogg"
 
     def createDescription(self):
-        if "theora_hdr" in self["page[0]"]:
+        if "page[0]/segments/theora_hdr" in self:
             return "Ogg/Theora video"
-        elif "vorbis_hdr" in self["page[0]"]:
+        elif "page[0]/segments/vorbis_hdr" in self:
             return "Ogg/Vorbis audio"
         else:
             return "Ogg multimedia container"
-- 
2.43.0


From e8291bd37f9cfa093a085ccf382be8c241ac98f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:20 +0000
Subject: [PATCH 142/155] fix: content size of an AIFF document did not include
 the header of the form

---
 hachoir/parser/audio/aiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/aiff.py b/hachoir/parser/audio/aiff.py
index 8e7275c..7deae46 100644
--- a/hachoir/parser/audio/aiff.py
+++ b/hachoir/parser/audio/aiff.py
@@ -132,4 +132,4 @@ class AiffFile(Parser):
             return "Audio Interchange File Format (AIFF)"
 
     def createContentSize(self):
-        return self["filesize"].value * 8
+        return (8 + self["filesize"].value) * 8
-- 
2.43.0


From 5d746418889298b8ed22aa5850c9ef8f23d940dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:36 +0000
Subject: [PATCH 143/155] fix: content size of a GIF picture was unknown, or
 the one of another picture

---
 hachoir/parser/image/gif.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hachoir/parser/image/gif.py b/hachoir/parser/image/gif.py
index e8bccf6..5f8809e 100644
--- a/hachoir/parser/image/gif.py
+++ b/hachoir/parser/image/gif.py
@@ -354,6 +354,12 @@ class GifFile(Parser):
                     "Wrong GIF image separator: 0x%02X" % ord(code))
 
     def createContentSize(self):
+        # Terminator of the picture
+        for separator in self.array("separator"):
+            if separator.value == ";":
+                return separator.absolute_address + separator.size
+
+        # Damaged picture: search something which looks like the terminator
         field = self["image[0]"]
         start = field.absolute_address + field.size
         end = start + MAX_FILE_SIZE * 8
-- 
2.43.0


From b0ba9270fe2bbf0a46c9634be97e1c08a38178fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:50 +0000
Subject: [PATCH 144/155] fix: content size of a ZIP archive ignored its
 comment and was wrong with a ZIP file in it

---
 hachoir/parser/archive/zip.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 14b590b..cdcec61 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -6,7 +6,7 @@ Authors: Christophe Gisquet and Victor Stinner
 """
 
 from hachoir.parser import Parser
-from hachoir.field import (FieldSet, ParserError,
+from hachoir.field import (FieldSet, ParserError, MissingField,
                            Bit, Bits, Enum,
                            TimeDateMSDOS32, SubFile,
                            UInt8, UInt16, UInt32, UInt64,
@@ -473,6 +473,12 @@ class ZipFile(Parser):
         return ".zip"
 
     def createContentSize(self):
+        try:
+            end = self["end_central_directory"]
+            return end.absolute_address + end.size
+        except (MissingField, ParserError):
+            # Damaged archive: search something which looks like the end
+            pass
         start = 0
         end = MAX_FILESIZE * 8
         end = self.stream.searchBytes(b"PK\5\6", start, end)
-- 
2.43.0


From 34c5e7f4a7d8aba6fbc919f978688b5765296055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:04 +0000
Subject: [PATCH 145/155] fix: content size of an OLE2 document could miss its
 last block

---
 hachoir/parser/misc/ole2.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/misc/ole2.py b/hachoir/parser/misc/ole2.py
index 415bff5..be1a75a 100644
--- a/hachoir/parser/misc/ole2.py
+++ b/hachoir/parser/misc/ole2.py
@@ -377,13 +377,12 @@ class OLE2_File(HachoirParser, RootSeekableFieldSet):
             start += count
 
     def createContentSize(self):
-        max_block = 0
+        max_block = None
         for fat in self.array("bbfat"):
-            for entry in fat:
-                block = entry.value
-                if block not in SECT.SPECIALS:
-                    max_block = max(block, max_block)
-        if max_block in SECT.SPECIALS:
+            for index, entry in enumerate(fat):
+                if entry.value != SECT.UNUSED:
+                    max_block = fat.start + index
+        if max_block is None:
             return None
         else:
             return HEADER_SIZE + (max_block + 1) * self.sector_size
-- 
2.43.0


From b99b3afb4917265810725c9d6855f4921e728106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:17 +0000
Subject: [PATCH 146/155] fix: content size of a MIDI document stopped at data
 which look like the end of a track

---
 hachoir/parser/audio/midi.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/hachoir/parser/audio/midi.py b/hachoir/parser/audio/midi.py
index ccee235..7f9589f 100644
--- a/hachoir/parser/audio/midi.py
+++ b/hachoir/parser/audio/midi.py
@@ -16,8 +16,6 @@ from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.core.tools import createDict, humanDurationNanosec
 from hachoir.parser.common.tracker import NOTE_NAME
 
-MAX_FILESIZE = 10 * 1024 * 1024
-
 
 class Integer(Bits):
 
@@ -261,9 +259,5 @@ class MidiFile(Parser):
 
     def createContentSize(self):
         count = self["/header/nb_track"].value - 1
-        start = self["track[%u]" % count].absolute_address
-        # Search "End of track" of last track
-        end = self.stream.searchBytes(b"\xff\x2f\x00", start, MAX_FILESIZE * 8)
-        if end is not None:
-            return end + 3 * 8
-        return None
+        track = self["track[%u]" % count]
+        return track.absolute_address + track.size
-- 
2.43.0


From 449b66ef3591621b5ebf3031cc925ba27273e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:34 +0000
Subject: [PATCH 147/155] fix: content size of an AU sound of unknown size was
 4 GB

---
 hachoir/parser/audio/au.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/audio/au.py b/hachoir/parser/audio/au.py
index e7c0003..22b9d6a 100644
--- a/hachoir/parser/audio/au.py
+++ b/hachoir/parser/audio/au.py
@@ -87,4 +87,7 @@ class AuFile(Parser):
         yield RawBytes(self, "audio_data", size, "Audio data")
 
     def createContentSize(self):
+        if self["data_size"].value == 0xFFFFFFFF:
+            # Unknown size
+            return None
         return (self["data_ofs"].value + self["data_size"].value) * 8
-- 
2.43.0


From 8c464256e553e729bbd2891c2f928cbd72d8de8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:51 +0000
Subject: [PATCH 148/155] fix: content size of a WMF picture stopped at data
 which look like the last record

---
 hachoir/parser/image/wmf.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/image/wmf.py b/hachoir/parser/image/wmf.py
index 2606256..f96e231 100644
--- a/hachoir/parser/image/wmf.py
+++ b/hachoir/parser/image/wmf.py
@@ -23,8 +23,6 @@ from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.core.tools import createDict
 from hachoir.parser.image.common import RGBA
 
-MAX_FILESIZE = 50 * 1024 * 1024
-
 POLYFILL_MODE = {1: "Alternate", 2: "Winding"}
 
 BRUSH_STYLE = {
@@ -633,8 +631,5 @@ class WMF_File(Parser):
     def createContentSize(self):
         if self.isEMF():
             return None
-        start = self["func[0]"].absolute_address
-        end = self.stream.searchBytes(b"\3\0\0\0\0\0", start, MAX_FILESIZE * 8)
-        if end is not None:
-            return end + 6 * 8
-        return None
+        # Size of the metafile, without the placeable header
+        return self["file_type"].absolute_address + self["file_size"].value * 16
-- 
2.43.0


From 816d054806916ef1abaa183671161221369b3951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:07 +0000
Subject: [PATCH 149/155] fix: content size of a program ignored its
 certificate, or its last page if it is full

---
 hachoir/parser/program/exe.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/program/exe.py b/hachoir/parser/program/exe.py
index d0f8ad0..698948b 100644
--- a/hachoir/parser/program/exe.py
+++ b/hachoir/parser/program/exe.py
@@ -210,6 +210,13 @@ class ExeFile(HachoirParser, RootSeekableFieldSet):
                     size = max(size, section_size)
                 else:
                     size = section_size
+            if "pe_opt_header/certificate" in self:
+                # The address of the certificate is an offset in the file
+                certificate = self["pe_opt_header/certificate"]
+                if certificate["size"].value:
+                    end = (certificate["rva"].value
+                           + certificate["size"].value) * 8
+                    size = max(size, end)
             if size:
                 return size
             else:
@@ -218,8 +225,10 @@ class ExeFile(HachoirParser, RootSeekableFieldSet):
             # TODO: Guess NE size
             return None
         else:
-            size = self["msdos/size_mod_512"].value + \
-                (self["msdos/size_div_512"].value - 1) * 512
+            size = self["msdos/size_div_512"].value * 512
+            if self["msdos/size_mod_512"].value:
+                # The last page is not full
+                size += self["msdos/size_mod_512"].value - 512
             if size < 0:
                 return None
         return size * 8
-- 
2.43.0


From f2d2bca9d61daeb6a0544ea180b8b28faebdebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:23 +0000
Subject: [PATCH 150/155] fix: content size of a PNG picture was wrong if it
 contains another picture

---
 hachoir/parser/image/png.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hachoir/parser/image/png.py b/hachoir/parser/image/png.py
index 19a99be..06ee583 100644
--- a/hachoir/parser/image/png.py
+++ b/hachoir/parser/image/png.py
@@ -284,6 +284,11 @@ class PngFile(Parser):
         return desc
 
     def createContentSize(self):
+        if "end" in self:
+            end = self["end"]
+            return end.absolute_address + end.size
+
+        # Damaged picture: search something which looks like the end
         field = self["header"]
         start = field.absolute_address + field.size
         end = MAX_FILESIZE * 8
-- 
2.43.0


From 3a945c39e7a73027cb795a2d9ff68ebbe0e5d027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:39 +0000
Subject: [PATCH 151/155] fix: system exclusive messages of a MIDI document
 ended the parsing of its track

---
 hachoir/parser/audio/midi.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hachoir/parser/audio/midi.py b/hachoir/parser/audio/midi.py
index 7f9589f..a12002d 100644
--- a/hachoir/parser/audio/midi.py
+++ b/hachoir/parser/audio/midi.py
@@ -59,6 +59,13 @@ def parsePitch(parser):
     yield UInt8(parser, "top", "(most sig) 7 bits of value")
 
 
+def parseExclusive(parser):
+    yield Integer(parser, "data_len")
+    size = parser["data_len"].value
+    if size:
+        yield RawBytes(parser, "data", size)
+
+
 def parseText(parser, size):
     yield String(parser, "text", size)
 
@@ -105,6 +112,8 @@ class Command(FieldSet):
             0xD0 + channel] = ("Channel after-touch (channel %u)" % channel, parseChannel)
         COMMAND[
             0xE0 + channel] = ("Pitch wheel change (channel %u)" % channel, parsePitch)
+    COMMAND[0xF0] = ("System exclusive message", parseExclusive)
+    COMMAND[0xF7] = ("System exclusive message (continued)", parseExclusive)
     COMMAND_DESC = createDict(COMMAND, 0)
     COMMAND_PARSER = createDict(COMMAND, 1)
 
-- 
2.43.0


From af89bb5cad51bbcde123093b4c9d577b4ede64c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:01 +0000
Subject: [PATCH 152/155] fix: height of a BMP picture stored from top to
 bottom

---
 hachoir/metadata/image.py   |  2 +-
 hachoir/parser/image/bmp.py | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 570f4ff..de6c26c 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -34,7 +34,7 @@ class BmpMetadata(RootMetadata):
             return
         hdr = image["header"]
         self.width = hdr["width"].value
-        self.height = hdr["height"].value
+        self.height = abs(hdr["height"].value)
         bpp = hdr["bpp"].value
         if bpp:
             if bpp <= 8 and "used_colors" in hdr:
diff --git a/hachoir/parser/image/bmp.py b/hachoir/parser/image/bmp.py
index 930c55f..dbf8096 100644
--- a/hachoir/parser/image/bmp.py
+++ b/hachoir/parser/image/bmp.py
@@ -8,7 +8,7 @@ Creation: 16 december 2005
 
 from hachoir.parser import Parser
 from hachoir.field import (FieldSet,
-                           UInt8, UInt16, UInt32, Bits,
+                           UInt8, UInt16, UInt32, Int32, Bits,
                            String, RawBytes, Enum,
                            PaddingBytes, NullBytes, createPaddingField)
 from hachoir.core.endian import LITTLE_ENDIAN
@@ -49,7 +49,12 @@ class ImagePixels(FieldSet):
         self._pixel = pixel_class
 
     def createFields(self):
-        for y in range(self._height - 1, -1, -1):
+        if 0 <= self._height:
+            lines = range(self._height - 1, -1, -1)
+        else:
+            # Top-down picture
+            lines = range(-self._height)
+        for y in lines:
             yield ImageLine(self, "line[%u]" % y, self._width, self._pixel)
         size = (self.size - self.current_size) // 8
         if size:
@@ -83,7 +88,7 @@ class BmpHeader(FieldSet):
         # Version 2 (12 bytes)
         yield UInt32(self, "header_size", "Header size")
         yield UInt32(self, "width", "Width (pixels)")
-        yield UInt32(self, "height", "Height (pixels)")
+        yield Int32(self, "height", "Height (pixels), negative if the first line is the top")
         yield UInt16(self, "nb_plan", "Number of plan (=1)")
         # may be zero for PNG/JPEG picture
         yield UInt16(self, "bpp", "Bits per pixel")
-- 
2.43.0


From f732e34d9f5abb5d768d3866bcabb01ddadbc05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:13 +0000
Subject: [PATCH 153/155] fix: size and colors of a BMP picture with a version
 2 header (OS/2)

---
 hachoir/metadata/image.py   |  5 ++++-
 hachoir/parser/image/bmp.py | 15 +++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index de6c26c..5b8d9f4 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -40,9 +40,12 @@ class BmpMetadata(RootMetadata):
             if bpp <= 8 and "used_colors" in hdr:
                 self.nb_colors = hdr["used_colors"].value
             self.bits_per_pixel = bpp
-        self.compression = hdr["compression"].display
         self.format_version = ("Microsoft Bitmap version %s"
                                % hdr.getFormatVersion())
+        if "compression" not in hdr:
+            # Version 2: not compressed, without resolution
+            return
+        self.compression = hdr["compression"].display
 
         # Pixels per meter
         self.width_dpi = round(hdr["horizontal_dpi"].value * 0.0254)
diff --git a/hachoir/parser/image/bmp.py b/hachoir/parser/image/bmp.py
index dbf8096..b8e91e5 100644
--- a/hachoir/parser/image/bmp.py
+++ b/hachoir/parser/image/bmp.py
@@ -13,7 +13,7 @@ from hachoir.field import (FieldSet,
                            PaddingBytes, NullBytes, createPaddingField)
 from hachoir.core.endian import LITTLE_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
-from hachoir.parser.image.common import RGB, PaletteRGBA
+from hachoir.parser.image.common import RGB, PaletteRGB, PaletteRGBA
 from hachoir.core.tools import alignValue
 
 
@@ -87,8 +87,12 @@ class BmpHeader(FieldSet):
     def createFields(self):
         # Version 2 (12 bytes)
         yield UInt32(self, "header_size", "Header size")
-        yield UInt32(self, "width", "Width (pixels)")
-        yield Int32(self, "height", "Height (pixels), negative if the first line is the top")
+        if self["header_size"].value == 12:
+            yield UInt16(self, "width", "Width (pixels)")
+            yield UInt16(self, "height", "Height (pixels)")
+        else:
+            yield UInt32(self, "width", "Width (pixels)")
+            yield Int32(self, "height", "Height (pixels), negative if the first line is the top")
         yield UInt16(self, "nb_plan", "Number of plan (=1)")
         # may be zero for PNG/JPEG picture
         yield UInt16(self, "bpp", "Bits per pixel")
@@ -193,7 +197,10 @@ class BmpFile(Parser):
 
         # Color palette (if any)
         if nb_color:
-            yield PaletteRGBA(self, "palette", nb_color)
+            if header["header_size"].value == 12:
+                yield PaletteRGB(self, "palette", nb_color)
+            else:
+                yield PaletteRGBA(self, "palette", nb_color)
 
         # Seek to data start
         field = self.seekByte(self["data_start"].value)
-- 
2.43.0


From ac6851fb90913dd075d2a6cd074d72a0ca459ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:51 +0000
Subject: [PATCH 154/155] fix: blocks of an OLE2 document whose sectors are
 larger than its header (version 4)

---
 hachoir/parser/misc/ole2.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/misc/ole2.py b/hachoir/parser/misc/ole2.py
index be1a75a..3993432 100644
--- a/hachoir/parser/misc/ole2.py
+++ b/hachoir/parser/misc/ole2.py
@@ -124,8 +124,8 @@ class DIFat(SeekableFieldSet):
                 raise ParserError("DIFAT chain: Found a loop (%s)" % difat_sect)
             sectors.add(difat_sect)
             # this is relative to real DIFAT start
-            self.seekBit(NB_DIFAT * SECT.static_size +
-                         self.parent.sector_size * difat_sect)
+            self.seekBit(self.parent.blockAddress(difat_sect) -
+                         self.address)
             for sect_index in range(entries_per_sect):
                 yield SECT(self, "index[%u]" % (index + sect_index))
             index += entries_per_sect
@@ -385,7 +385,11 @@ class OLE2_File(HachoirParser, RootSeekableFieldSet):
         if max_block is None:
             return None
         else:
-            return HEADER_SIZE + (max_block + 1) * self.sector_size
+            return self.blockAddress(max_block + 1)
+
+    def blockAddress(self, block):
+        # The header fills the first sector, if a sector is larger than it
+        return max(HEADER_SIZE, self.sector_size) + block * self.sector_size
 
     def seekBlock(self, block):
-        self.seekBit(HEADER_SIZE + block * self.sector_size)
+        self.seekBit(self.blockAddress(block))
-- 
2.43.0


From 526156bb623d420575f6532ca137d7480aff0492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:41 +0000
Subject: [PATCH 155/155] fix: content size of a JPEG picture stopped in a
 chunk between two scans

---
 hachoir/parser/image/jpeg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/image/jpeg.py b/hachoir/parser/image/jpeg.py
index 419d6f4..e05e306 100644
--- a/hachoir/parser/image/jpeg.py
+++ b/hachoir/parser/image/jpeg.py
@@ -635,8 +635,9 @@ class JpegFile(Parser):
         return desc
 
     def createContentSize(self):
-        if "end" in self:
-            return self["end"].absolute_address + self["end"].size
+        if "end_image" in self:
+            end = self["end_image"]
+            return end.absolute_address + end.size
         if "data" in self:
             start = self["data"].absolute_address
         elif "image_data[0]" in self:
-- 
2.43.0

