From 4bcfe4ef2e032e7ad919fab7e5a88f2ec5f23460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:06 +0000
Subject: [PATCH 01/15] fix: CanFdErrorFrame64 without extension data

An ext_data_offset of 0 means that there is no extension data (as in
CanFdMessage64). It was taken as an offset, so that btr_ext_arb and
btr_ext_data were read from the object header and, on pack(), written
over the object signature and header size.
---
 src/vblf/can.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vblf/can.py b/src/vblf/can.py
index 2d5affc..cb696f2 100644
--- a/src/vblf/can.py
+++ b/src/vblf/can.py
@@ -685,7 +685,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
 
         # get ext frame data
         btr_ext_arb, btr_ext_data = 0, 0
-        if header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size:
+        if (
+            ext_data_offset != 0
+            and header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size
+        ):
             btr_ext_arb, btr_ext_data = cls._FORMAT_EXT.unpack_from(buffer, ext_data_offset)
 
         return cls(
@@ -748,7 +751,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
         buffer[data_offset : data_offset + self.valid_data_bytes] = self.data
 
         # pack ext frame data
-        if self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size:
+        if (
+            self.ext_data_offset != 0
+            and self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size
+        ):
             self._FORMAT_EXT.pack_into(
                 buffer, self.ext_data_offset, self.btr_ext_arb, self.btr_ext_data
             )
-- 
2.43.0


From 709512e90589044d58ea11ad63187ce730388b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:06 +0000
Subject: [PATCH 02/15] fix: VarObjectHeader.unpack_from ignored the offset for
 its base header

---
 src/vblf/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index 66a999a..b425a0e 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -175,7 +175,7 @@ class VarObjectHeader(HeaderWithBase):
 
     @classmethod
     def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
-        base = ObjectHeaderBase.unpack_from(buffer, 0)
+        base = ObjectHeaderBase.unpack_from(buffer, offset)
         (
             object_flags,
             object_static_size,
-- 
2.43.0


From 84bb9d928f0f49e10830a825854165089b89afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:06 +0000
Subject: [PATCH 03/15] fix: AppText lost the last character of a text without
 terminator

The last byte of the text was dropped on unpack() and replaced by a NUL
on pack(), even if it was not a NUL. An empty text (text_length 0) could
not be packed to its original size.
---
 src/vblf/general.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index b425a0e..de34ab5 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -500,7 +500,8 @@ class AppText(ObjectWithHeader[ObjectHeader]):
             reserved2,
         ) = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
         text_offset = ObjectHeader.SIZE + cls._FORMAT.size
-        text = buffer[text_offset : text_offset + text_length - 1].decode("cp1252")
+        encoded_text = buffer[text_offset : text_offset + text_length].removesuffix(b"\x00")
+        text = encoded_text.decode("cp1252")
         return cls(
             header,
             AppTextSource(source),
@@ -521,7 +522,9 @@ class AppText(ObjectWithHeader[ObjectHeader]):
             self.text_length,
             self.reserved2,
         )
-        encoded_text = self.text.encode("cp1252") + b"\x00"
+        encoded_text = self.text.encode("cp1252")
+        if len(encoded_text) < self.text_length:
+            encoded_text += b"\x00"
         text_offset = ObjectHeader.SIZE + self._FORMAT.size
         buffer[text_offset : text_offset + self.text_length] = encoded_text
         return bytes(buffer)
-- 
2.43.0


From bbd597c6f5345e5e64157ea71a0e5aa405db1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:31 +0000
Subject: [PATCH 04/15] fix: BlfWriter.close() never returned with a buffer
 size below 1

Flushing takes at most buffer_size bytes, so that close() appended empty
containers to the file forever. Refuse such a buffer size.
---
 src/vblf/writer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 7386a51..e9df352 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -21,6 +21,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
     :param compression_level: Compression level (0-9), defaults to no compression
     :param buffer_size: Size of internal buffer in bytes before flushing, defaults to 128 KiB
     :raises TypeError: If file parameter is of unsupported type
+    :raises ValueError: If buffer_size is less than 1
     """
 
     def __init__(
@@ -33,6 +34,10 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         See class documentation for details.
         """
+        if buffer_size < 1:
+            err_msg = f"buffer_size must be at least 1: {buffer_size}"
+            raise ValueError(err_msg)
+
         self._buffer_size = buffer_size
         self._buffer = bytearray()
         self._measurement_start_time = time.time()
-- 
2.43.0


From 3f4194e4dd2e56de03c0d1e39f8b6419e11b26c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:31 +0000
Subject: [PATCH 05/15] fix: write buffer grew without limit with objects
 larger than the buffer

write() flushed at most buffer_size bytes, so that the rest of each larger
object piled up in memory until the file was closed.
---
 src/vblf/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index e9df352..c112b6c 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -78,7 +78,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         self._file_statistics.uncompressed_file_size += len(obj_data)
         self._time_of_last_object = time.time()
 
-        if len(self._buffer) >= self._buffer_size:
+        while len(self._buffer) >= self._buffer_size:
             self._flush_container()
 
     def _flush_container(self) -> None:
-- 
2.43.0


From 49b553657ccab5641eb88a3f43ad5dda0a08560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:31 +0000
Subject: [PATCH 06/15] fix: objects written after close() were silently
 dropped

---
 src/vblf/writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index c112b6c..1f5b30d 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -64,8 +64,12 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         or when the file is closed.
 
         :param obj: Object to write
-        :raises ValueError: If object size doesn't match its header
+        :raises ValueError: If object size doesn't match its header or the file is closed
         """
+        if self._file.closed:
+            err_msg = "write to closed file"
+            raise ValueError(err_msg)
+
         # byte alignment
         if rest := len(self._buffer) % BYTE_ALIGNMENT:
             self._buffer.extend(b"\x00" * (BYTE_ALIGNMENT - rest))
-- 
2.43.0


From 0aca66c385d8014163b0b3ab56f9a5998ef6ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:31 +0000
Subject: [PATCH 07/15] fix: a failed container write lost or corrupted
 buffered objects

The buffered data was dropped before it was written. If writing failed,
it was missing from the file even when the caller recovered from the
error, and a partly written container was left in front of the next one.
Drop the data when it is written, and write over a failed attempt.
---
 src/vblf/writer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 1f5b30d..a0e4b05 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -56,6 +56,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         self._file_statistics = FileStatistics.new()
         self._file_statistics.compression_level = compression_level
         self._file.write(self._file_statistics.pack())
+        self._end_position = self._file.tell()
 
     def write(self, obj: ObjectWithHeader[HeaderWithBase]) -> None:
         """Write an object to the BLF file.
@@ -94,11 +95,14 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         if not self._buffer:
             return
 
+        # continue after the last complete container, an earlier attempt might have failed
+        self._file.seek(self._end_position)
+
         # byte alignment
-        if rest := self._file.tell() % BYTE_ALIGNMENT:
+        if rest := self._end_position % BYTE_ALIGNMENT:
             self._file.write(b"\x00" * (BYTE_ALIGNMENT - rest))
 
-        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
+        buffer = self._buffer[: self._buffer_size]
 
         if self._file_statistics.compression_level > Compression.NONE:
             compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
@@ -111,7 +115,9 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
             flags=ObjFlags.TIME_ONE_NANS,
         )
         self._file.write(log_container.pack())
-        self._file_statistics.file_size = self._file.tell()
+        self._end_position = self._file.tell()
+        self._file_statistics.file_size = self._end_position
+        del self._buffer[: self._buffer_size]
 
     def _update_file_statistics(self) -> None:
         """Update file statistics and write them to the beginning of the file.
-- 
2.43.0


From 9715b7bf8a8ebc57a18876f906ec67fa9def009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 08/15] fix: log containers declared a wrong compression method
 and size

A log container has a 16-byte header, followed by the compression method
and the uncompressed size (see tests/data/LOG_CONTAINER.lobj). The writer
put the object flags and a time stamp there: uncompressed containers were
declared as zlib data (flags 2), and the uncompressed size was arbitrary,
so that other BLF readers could not read the files.
---
 src/vblf/constants.py |  5 +++++
 src/vblf/general.py   |  2 +-
 src/vblf/writer.py    | 10 +++++++---
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/vblf/constants.py b/src/vblf/constants.py
index bdb68ba..34b1578 100644
--- a/src/vblf/constants.py
+++ b/src/vblf/constants.py
@@ -178,6 +178,11 @@ class Compression(IntEnum):
             return compression_level
 
 
+class CompressionMethod(IntEnum):
+    NONE = 0
+    ZLIB = 2
+
+
 class ObjFlags(IntFlag):
     TIME_TEN_MICS = 0x1
     TIME_ONE_NANS = 0x2
diff --git a/src/vblf/general.py b/src/vblf/general.py
index de34ab5..64bcc36 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -462,7 +462,7 @@ class LogContainer(ObjectWithHeader[ObjectHeader]):
     ) -> Self:
         base = ObjectHeaderBase(
             signature=OBJ_SIGNATURE,
-            header_size=ObjectHeader.SIZE,
+            header_size=ObjectHeaderBase.SIZE,
             header_version=1,
             object_size=ObjectHeader.SIZE + len(data),
             object_type=ObjType.LOG_CONTAINER,
diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index a0e4b05..bb636d3 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -5,7 +5,7 @@ import zlib
 from contextlib import AbstractContextManager
 from typing import Any, BinaryIO, Final
 
-from vblf.constants import Compression, ObjFlags
+from vblf.constants import Compression, CompressionMethod, ObjFlags
 from vblf.general import FileStatistics, HeaderWithBase, LogContainer, ObjectWithHeader, SystemTime
 
 BYTE_ALIGNMENT: Final = 8
@@ -104,15 +104,19 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         buffer = self._buffer[: self._buffer_size]
 
+        method = CompressionMethod.NONE
         if self._file_statistics.compression_level > Compression.NONE:
+            method = CompressionMethod.ZLIB
             compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
         else:
             compressed_data = bytes(buffer)
 
+        # log containers have the compression method and the uncompressed size
+        # in place of the flags and the time stamp of other objects
         log_container = LogContainer.new(
             data=compressed_data,
-            time_stamp=round((time.time() - self._measurement_start_time) * 1e9),
-            flags=ObjFlags.TIME_ONE_NANS,
+            time_stamp=len(buffer),
+            flags=ObjFlags(method),
         )
         self._file.write(log_container.pack())
         self._end_position = self._file.tell()
-- 
2.43.0


From 11b60516f118cb197328ec525beba9a9533595c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 09/15] fix: stored log containers could not be read from
 compressed files

Log containers declare their compression method. One that is stored
(method 0, as tests/data/LOG_CONTAINER.lobj) made reading fail with
zlib.error if the file header had a compression level.
---
 src/vblf/reader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 27ac49f..ab111f4 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -21,7 +21,14 @@ from vblf.can import (
     CanMessage2,
     CanOverloadFrame,
 )
-from vblf.constants import FILE_SIGNATURE, OBJ_SIGNATURE, OBJ_SIGNATURE_SIZE, ObjType
+from vblf.constants import (
+    FILE_SIGNATURE,
+    OBJ_SIGNATURE,
+    OBJ_SIGNATURE_SIZE,
+    CompressionMethod,
+    ObjFlags,
+    ObjType,
+)
 from vblf.ethernet import EthernetFrameEx, EthernetStatistic
 from vblf.flexray import FlexrayVFrReceiveMsgEx
 from vblf.general import (
@@ -131,6 +138,7 @@ class BlfReader(AbstractContextManager["BlfReader"]):
                 uncompressed = (
                     zlib.decompress(container.data)
                     if self.file_statistics.compression_level > 0
+                    and container.header.object_flags != ObjFlags(CompressionMethod.NONE)
                     else container.data
                 )
 
-- 
2.43.0


From f8656ad1fb80313793683e6f072b109adf6d1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 10/15] fix: last object time before measurement start in a log
 without objects

The two times in the file header were taken from different clock readings.
---
 src/vblf/writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index bb636d3..48fd8ae 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -55,6 +55,9 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         # write file statistics
         self._file_statistics = FileStatistics.new()
         self._file_statistics.compression_level = compression_level
+        self._file_statistics.measurement_start_time = SystemTime.from_datetime(
+            datetime.datetime.fromtimestamp(self._measurement_start_time, datetime.timezone.utc)
+        )
         self._file.write(self._file_statistics.pack())
         self._end_position = self._file.tell()
 
-- 
2.43.0


From c808d5c254c06130f286c6e2114f28a99eece27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 11/15] fix: BlfReader left a file open that it refused to read

---
 src/vblf/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index ab111f4..05871d6 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -86,6 +86,8 @@ class BlfReader(AbstractContextManager["BlfReader"]):
 
         obj_data = self._file.read(FileStatistics.SIZE)
         if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):
+            if self._file is not file:
+                self._file.close()
             err_msg = "Unexpected file format"
             raise ValueError(err_msg)
 
-- 
2.43.0


From cc2184209764bf1244a12d6b8bc8f2f0ea246301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 12/15] fix: deflated log containers were skipped in files with
 compression level 0

The compression level in the file header is informational, each log
container declares its own compression method. Deflated containers in a
file with level 0 were searched for objects without decompressing them,
and their objects were silently missing. Containers written by earlier
versions of this library are told apart by their header size.
---
 src/vblf/reader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 05871d6..27da762 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -137,12 +137,14 @@ class BlfReader(AbstractContextManager["BlfReader"]):
             if obj_class is LogContainer:
                 # decompress data
                 container = LogContainer.unpack(obj_data)
-                uncompressed = (
-                    zlib.decompress(container.data)
-                    if self.file_statistics.compression_level > 0
-                    and container.header.object_flags != ObjFlags(CompressionMethod.NONE)
-                    else container.data
-                )
+                is_compressed = container.header.object_flags != ObjFlags(CompressionMethod.NONE)
+                if (
+                    self.file_statistics.compression_level == 0
+                    and header_base.header_size != ObjectHeaderBase.SIZE
+                ):
+                    # uncompressed container of vblf <= 0.3.1, its header has other contents
+                    is_compressed = False
+                uncompressed = zlib.decompress(container.data) if is_compressed else container.data
 
                 # prepend incomplete data of previous container
                 uncompressed = self._incomplete_data + uncompressed
-- 
2.43.0


From 81c92980a34b5cd456fdfcf5b13c29cebbf299e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 13/15] fix: a failure to write the final header when a
 buffered file is closed can be retried

---
 src/vblf/writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 48fd8ae..c4cbc23 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -146,6 +146,8 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
             while self._buffer:
                 self._flush_container()
             self._update_file_statistics()
+            # closing loses data that cannot be written, flushing can be repeated
+            self._file.flush()
             self._file.close()
 
     def __enter__(self) -> "BlfWriter":
-- 
2.43.0


From cad81e59a8351f3a17cd274fb414e590efc671e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 14/15] fix: encodings of system times and headers depend on
 their fields only, not on the order attributes were set in

---
 src/vblf/general.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index 64bcc36..d2f2df3 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -41,14 +41,26 @@ class SystemTime:
         return cls(*cls._FORMAT.unpack(buffer))
 
     def pack(self) -> bytes:
-        return self._FORMAT.pack(*self.__dict__.values())
+        return self._FORMAT.pack(*self._values())
 
     @classmethod
     def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
         return cls(*cls._FORMAT.unpack_from(buffer, offset))
 
     def pack_into(self, buffer: bytearray, offset: int) -> None:
-        return self._FORMAT.pack_into(buffer, offset, *self.__dict__.values())
+        return self._FORMAT.pack_into(buffer, offset, *self._values())
+
+    def _values(self) -> tuple[int, ...]:
+        return (
+            self.year,
+            self.month,
+            self.day_of_week,
+            self.day,
+            self.hour,
+            self.minute,
+            self.second,
+            self.milliseconds,
+        )
 
     @classmethod
     def from_datetime(cls, dt: Optional[datetime.datetime] = None) -> Self:
@@ -122,10 +134,19 @@ class ObjectHeaderBase:
         )
 
     def pack(self) -> bytes:
-        return self._FORMAT.pack(*self.__dict__.values())
+        return self._FORMAT.pack(*self._values())
 
     def pack_into(self, buffer: bytearray, offset: int) -> None:
-        self._FORMAT.pack_into(buffer, offset, *self.__dict__.values())
+        self._FORMAT.pack_into(buffer, offset, *self._values())
+
+    def _values(self) -> tuple[bytes, int, int, int, ObjType]:
+        return (
+            self.signature,
+            self.header_size,
+            self.header_version,
+            self.object_size,
+            self.object_type,
+        )
 
 
 @dataclass
-- 
2.43.0


From 305f6c52000b14c01e5de3c3f87de89db66d681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 15/15] fix: CAN FD message objects named their flags by those
 of another object

The flags byte of CAN_FD_MESSAGE holds EDL (bit 0), BRS (bit 1) and ESI (bit 2).
It was typed with the 32 bit flags of CAN_FD_MESSAGE_64, so names were wrong on
reading and flags given by name could not be written.
---
 src/vblf/can.py       | 8 ++++----
 src/vblf/constants.py | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/vblf/can.py b/src/vblf/can.py
index cb696f2..d304958 100644
--- a/src/vblf/can.py
+++ b/src/vblf/can.py
@@ -4,7 +4,7 @@ from typing import ClassVar
 
 from typing_extensions import Self
 
-from vblf.constants import CanFdFlags, ObjFlags, ObjType
+from vblf.constants import CanFdFlags, CanFdMessageFlags, ObjFlags, ObjType
 
 from .general import ObjectHeader, ObjectWithHeader
 
@@ -173,7 +173,7 @@ class CanFdMessage(ObjectWithHeader[ObjectHeader]):
     frame_id: int
     frame_length: int
     arb_bit_count: int
-    canfd_flags: CanFdFlags
+    canfd_flags: CanFdMessageFlags
     valid_data_bytes: int
     reserved1: int
     reserved2: int
@@ -205,7 +205,7 @@ class CanFdMessage(ObjectWithHeader[ObjectHeader]):
             frame_id,
             frame_length,
             arb_bit_count,
-            CanFdFlags(canfd_flags),
+            CanFdMessageFlags(canfd_flags),
             valid_data_bytes,
             reserved1,
             reserved2,
@@ -240,7 +240,7 @@ class CanFdMessage(ObjectWithHeader[ObjectHeader]):
         frame_id: int,
         frame_length: int,
         arb_bit_count: int,
-        canfd_flags: CanFdFlags,
+        canfd_flags: CanFdMessageFlags,
         data: bytes,
     ) -> Self:
         header = ObjectHeader.new(
diff --git a/src/vblf/constants.py b/src/vblf/constants.py
index 34b1578..b4204c7 100644
--- a/src/vblf/constants.py
+++ b/src/vblf/constants.py
@@ -194,6 +194,12 @@ class TriggerFlag(IntFlag):
     LOGGING_STOP = 0x2
 
 
+class CanFdMessageFlags(IntFlag):
+    EDL = 0x01
+    BRS = 0x02
+    ESI = 0x04
+
+
 class CanFdFlags(IntFlag):
     NERR = 0x0004
     HIGH_VOLTAGE_WAKE_UP = 0x0008
-- 
2.43.0

