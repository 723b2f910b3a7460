From ae4ba9be6d0aae8ab94905af61ed3a458c576f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:48 +0000
Subject: [PATCH 01/38] fix: CRC32C independent of the data's alignment and of
 its length; unmask wraps

CRC::extend started the 16-byte stride at data[0] even after consuming
bytes to reach alignment, rotated only three of the four stride registers
in the 4-byte loop, and unmask overflowed for masked values below the delta.
---
 src/util/crc.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index c2f0443..22ad506 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -384,7 +384,7 @@ impl CRC {
         }
 
         if n - s >= 16 {
-            let mut decoder = Decoder::with_buf(data);
+            let mut decoder = Decoder::with_buf(&data[s..]);
             let mut crc0 = unsafe { decoder.uncheck_get_fixed32() } ^ l;
             let mut crc1 = unsafe { decoder.uncheck_get_fixed32() };
             let mut crc2 = unsafe { decoder.uncheck_get_fixed32() };
@@ -398,7 +398,7 @@ impl CRC {
             while (n - s) >= 4 {
                 step4!(crc0, data, decoder, s, 0);
                 // swap variables
-                (crc1, crc2, crc3) = (crc0, crc1, crc2);
+                (crc0, crc1, crc2, crc3) = (crc1, crc2, crc3, crc0);
                 s += 4;
                 // println!("step4, c0: {:x}, c1: {:x}, c2: {:x}, c3: {:x}, s: {}", crc0, crc1, crc2, crc3, s);
             }
@@ -471,7 +471,7 @@ impl CRC {
     /// ```
     #[inline]
     pub fn unmask(masked_crc: u32) -> u32 {
-        let rot = masked_crc - K_MASK_DELTA;
+        let rot = masked_crc.wrapping_sub(K_MASK_DELTA);
         (rot >> 17) | (rot << 15)
     }
 }
-- 
2.43.0


From d2aeaf551cc803fb831035c7f7933de029b69d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:43 +0000
Subject: [PATCH 02/38] fix: checked decoding rejects truncated varints and
 huge lengths; get_buf advances

get_varint32/64 returned Ok for a varint cut off by the end of the input,
get_buf never moved the offset (unlike every other getter), and a length
near usize::MAX overflowed the bounds check.
---
 src/util/coding.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index c4320b8..70c15d1 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -136,7 +136,7 @@ macro_rules! check_length {
     };
     ($offset: expr, $read_len: expr, $limit: expr, read) => {
         // 偏移量 + 读取长度 >= 容器的长度时, 会抛出异常
-        if $offset + $read_len > $limit {
+        if $offset.saturating_add($read_len) > $limit {
             return Err(LevelError::invalid_argument(
                 Slice::from("offset + read_len must < limit"),
                 Slice::from(format!("offset = {}, read_len = {}, limit = {}", $offset, $read_len, $limit))
@@ -957,6 +957,14 @@ macro_rules! get_varint {
             check_length!(self.offset, self.limit);
             // 调用解码方法
             let res = unsafe { $var_name(&self.data, self.offset, self.limit) };
+            // 最后一个字节仍带有后续标记, 说明varint被截断或者超长
+            let data = &self.data;
+            if unsafe { ptr::read(get_ptr!(data).add(res.1 - 1)) } & 128 != 0 {
+                return Err(LevelError::invalid_argument(
+                    Slice::from("truncated or overlong varint"),
+                    Slice::from(format!("offset = {}, limit = {}", self.offset, self.limit))
+                ));
+            }
             self.offset = res.1;
             Ok(res.0)
         }
@@ -1073,7 +1081,7 @@ impl<'a> Decoder<'a> {
     /// ```
     pub fn get_length_prefixed_slice(&mut self) -> Result<Slice> {
         check_length!(self.offset, self.limit);
-        let size = unsafe { self.uncheck_get_varint32() } as usize;
+        let size = self.get_varint32()? as usize;
         check_length!(self.offset, size, self.limit, read);
         unsafe { Ok(self.uncheck_get_buf(size)) }
     }
@@ -1123,10 +1131,10 @@ impl<'a> Decoder<'a> {
     ///  // [1, 2, 3]
     ///  let buf = decoder.get_buf(3)?;
     /// ```
-    pub fn get_buf(&self, len: usize) -> Result<Slice> {
+    pub fn get_buf(&mut self, len: usize) -> Result<Slice> {
         check_length!(self.offset, len, self.limit, read);
         unsafe {
-            Ok(uncheck_read_buf(&self.data, self.offset, len))
+            Ok(self.uncheck_get_buf(len))
         }
     }
 
-- 
2.43.0


From 7e2c402499fa88e193a4561b3061ff3f4a6f4ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:43 +0000
Subject: [PATCH 03/38] fix: log writer: fixed-width checksum, block space per
 fragment, no short writes

The masked CRC was written as a varint (overwriting or leaving header
bytes), the space left in the block was computed once per record so a
record spanning a block underflowed, and write() may accept only part of
the buffer.
---
 src/db/log_writer.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 485ce95..2f0e51a 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -39,15 +39,14 @@ impl LogWriter {
     }
 
     pub fn add_record(&mut self, slice: Slice) -> Result<()> {
-        let left_over = K_BLOCK_SIZE - self.block_offset;
-        assert!(left_over >= 0);
         let mut left = slice.len();
         let mut begin = true;
         let mut start_idx = 0;
         while begin || left > 0 {
+            let left_over = K_BLOCK_SIZE - self.block_offset;
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
-                    self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
+                    self.file_writer.write_all(&K_EMPTY_BYTES[0..left_over])?;
                 }
                 self.block_offset = 0;
             }
@@ -75,14 +74,14 @@ impl LogWriter {
         let mut crc = CRC::extend(self.type_crc[record_type as usize], data);
         crc = CRC::mask(crc);
         let mut header = [0_u8; K_HEADER_SIZE];
-        Encoder::with_buf(&mut header).put_varint32(crc);
+        Encoder::with_buf(&mut header).put_fixed32(crc)?;
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-        self.file_writer.write(header.as_ref())?;
+        self.file_writer.write_all(header.as_ref())?;
         self.block_offset += K_HEADER_SIZE;
         if !data.is_empty() {
-            self.file_writer.write(data)?;
+            self.file_writer.write_all(data)?;
             self.block_offset += data.len();
         }
         self.file_writer.flush()?;
-- 
2.43.0


From 1ac5ec2c7209639306eb9a89276e3d51b802a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 04/38] fix: log reader: fragmented records, block trailers,
 end of file, damaged records

read_next never reported the end of the file (it parsed the stale buffer
again), copied whole blocks for FIRST and MIDDLE fragments, ran past block
trailers and past the buffer for damaged lengths, treated a short read as
the end of the file, and ignored initial_offset within its block.
---
 src/db/log_reader.rs | 81 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 72 insertions(+), 9 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 099240a..135afad 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -1,8 +1,8 @@
 use std::fs::File;
-use std::io::{Read, Seek, Write};
+use std::io::{ErrorKind, Read, Seek, Write};
 use std::io::SeekFrom::Start;
 
-use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_LAST_TYPE, K_MIDDLE_TYPE};
+use crate::db::log_writer::{K_BLOCK_SIZE, K_HEADER_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_LAST_TYPE, K_MIDDLE_TYPE};
 use crate::util::coding::Decoder;
 use crate::util::crc::{AsCrc, CRC};
 use crate::util::Result;
@@ -12,6 +12,11 @@ use crate::util::status::{LevelError, Status};
 pub struct LogReader {
     file_reader: Box<dyn SeekableReader>,
     checksum: bool,
+    /// records starting before this offset are not returned
+    initial_offset: usize,
+    /// the beginning of the current record lies before initial_offset
+    resyncing: bool,
+    /// offset of the end of buf in the file
     read_pos: usize,
     eof: bool,
     buf: [u8; K_BLOCK_SIZE],
@@ -35,6 +40,8 @@ impl LogReader {
         Self {
             file_reader,
             checksum,
+            initial_offset,
+            resyncing: initial_offset > 0,
             read_pos: block_start_location,
             eof: false,
             buf: [0; K_BLOCK_SIZE],
@@ -46,14 +53,55 @@ impl LogReader {
     pub fn read_next(&mut self) -> Result<Option<Slice>> {
         let mut tmp: Option<Vec<u8>> = None;
         loop {
-            if self.buf_read_idx >= self.buf_len {
+            if self.buf_len - self.buf_read_idx < K_HEADER_SIZE {
+                // the rest of the block is a trailer, or a header the writer did not complete
+                if self.eof {
+                    return Ok(None);
+                }
                 self.read_buf()?;
+                continue;
             }
+            let record_start = self.read_pos - (self.buf_len - self.buf_read_idx);
             let data_len = (self.buf[self.buf_read_idx + 4] as usize) + ((self.buf[self.buf_read_idx + 5] as usize) << 8);
             let record_type = self.buf[self.buf_read_idx + 6];
             self.buf_read_idx += 7;
+            if data_len > self.buf_len - self.buf_read_idx {
+                self.buf_read_idx = self.buf_len;
+                if self.eof {
+                    // the writer stopped in the middle of this record
+                    return Ok(None);
+                }
+                return Err(Status::wrapper(LevelError::KCorruption, "bad record length".into()));
+            }
             // CRC check
-            self.check_crc(data_len)?;
+            if let Err(e) = self.check_crc(data_len) {
+                // data_len can not be trusted, drop the rest of the block
+                self.buf_read_idx = self.buf_len;
+                return Err(e);
+            }
+            // skip the records that begin before initial_offset
+            if record_start < self.initial_offset {
+                self.buf_read_idx += data_len;
+                continue;
+            }
+            if self.resyncing {
+                if record_type == K_MIDDLE_TYPE || record_type == K_LAST_TYPE {
+                    self.resyncing = record_type == K_MIDDLE_TYPE;
+                    self.buf_read_idx += data_len;
+                    continue;
+                }
+                self.resyncing = false;
+            }
+            let in_record = record_type == K_MIDDLE_TYPE || record_type == K_LAST_TYPE;
+            if in_record && tmp.is_none() {
+                self.buf_read_idx += data_len;
+                return Err(Status::wrapper(LevelError::KCorruption, "missing start of fragmented record".into()));
+            }
+            if !in_record && tmp.is_some() {
+                // this record is returned by the next call
+                self.buf_read_idx -= K_HEADER_SIZE;
+                return Err(Status::wrapper(LevelError::KCorruption, "partial record without end".into()));
+            }
             match record_type {
                 K_FULL_TYPE => {
                     let end_idx = self.buf_read_idx + data_len;
@@ -63,11 +111,14 @@ impl LogReader {
                 }
                 K_FIRST_TYPE => {
                     tmp = Some(Vec::with_capacity(K_BLOCK_SIZE));
-                    let partial_data = &self.buf[self.buf_read_idx..];
+                    let partial_data = &self.buf[self.buf_read_idx..(self.buf_read_idx + data_len)];
                     tmp.as_mut().unwrap().write(partial_data)?;
+                    self.buf_read_idx += data_len;
                 }
                 K_MIDDLE_TYPE => {
-                    tmp.as_mut().unwrap().write(self.buf.as_ref())?;
+                    let partial_data = &self.buf[self.buf_read_idx..(self.buf_read_idx + data_len)];
+                    tmp.as_mut().unwrap().write(partial_data)?;
+                    self.buf_read_idx += data_len;
                 }
                 K_LAST_TYPE => {
                     let end_idx = self.buf_read_idx + data_len;
@@ -78,6 +129,7 @@ impl LogReader {
                     return Ok(Some(Slice::from_vec(data)));
                 }
                 _ => {
+                    self.buf_read_idx += data_len;
                     return Err(Status::wrapper(LevelError::KCorruption,
                                                format!("bad record_type: {}", record_type).into()));
                 }
@@ -87,10 +139,21 @@ impl LogReader {
 
     fn read_buf(&mut self) -> Result<()> {
         self.buf_read_idx = 0;
-        self.buf_len = self.file_reader.read(self.buf.as_mut())?;
-        if self.buf_len < K_BLOCK_SIZE {
-            self.eof = true;
+        self.buf_len = 0;
+        while self.buf_len < K_BLOCK_SIZE && !self.eof {
+            match self.file_reader.read(&mut self.buf[self.buf_len..]) {
+                Ok(0) => self.eof = true,
+                Ok(n) => self.buf_len += n,
+                Err(e) if e.kind() == ErrorKind::Interrupted => {}
+                Err(e) => {
+                    // the position in the file is unknown, nothing more can be read
+                    self.buf_len = 0;
+                    self.eof = true;
+                    return Err(e.into());
+                }
+            }
         }
+        self.read_pos += self.buf_len;
         Ok(())
     }
 
-- 
2.43.0


From e120faf1dd8aa5c6ac882ce42b26cf8ab25f2726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 05/38] fix: cache: unlink a removed chain head from its
 successor

Removing the head of a hash chain cleared the removed entry's own
prev_hash; the successor kept a dangling prev_hash, so removing it next
wrote through freed memory and left it reachable.
---
 src/util/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index e15d7de..acf90cd 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -220,7 +220,7 @@ impl<T> HandleTable<T> {
                     // 是头节点, 将头节点移交至下一节点
                     self.list[index] = handle_mut.next_hash;
                     // 下一节点的prev_hash要置空
-                    handle_mut.prev_hash = None;
+                    unsafe { handle_mut.next_hash.unwrap().as_mut() }.prev_hash = None;
                 } else {
                     // 是其余中间节点或尾节点, 删除当前节点并将下一节点移交给上一节点
                     let prev_hash_ptr = unsafe { handle_mut.prev_hash.unwrap().as_mut() };
-- 
2.43.0


From d4861fc335a43348807f31e8c0482c59cfa815de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 06/38] fix: cache: erase used the entry after freeing it

The hash table frees the entry it removes, so the LRU list has to be
updated first.
---
 src/util/cache.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index acf90cd..da32b68 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -457,12 +457,13 @@ impl<T> LRUCache<T> {
     /// 从lru缓存中删除数据, 同时回收内存
     pub fn erase(&mut self, key: &Slice, hash: u32) -> Result<usize> {
         let mut charge = 0;
-        // 先从hash表中删除, 同时回收内存
-        let removed_handle = self.table.remove(key, hash)?;
+        let removed_handle = self.table.look_up(key, hash)?;
         if let Some(removed) = removed_handle {
-            // 再删除lru链表中的数据
+            // 先删除lru链表中的数据
             self.lru_remove(removed)?;
             charge = unsafe { removed.as_ref().charge };
+            // 再从hash表中删除, 同时回收内存
+            self.table.remove(key, hash)?;
         }
 
         // 返回删除了多少数据量
-- 
2.43.0


From c9a04c4a4a9f968e543032b0be95dd975287e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 07/38] fix: cache: inserting an existing key replaces its
 value

The old entry stayed in the table and in the charge, came back after an
erase, and its eviction freed the newer entry of the same key.
---
 src/util/cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index da32b68..770e0ab 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -410,6 +410,8 @@ impl<T> LRUCache<T> {
     ///
     /// ```
     pub fn insert(&mut self, key: Slice, hash: u32, value: T, charge: usize) -> Result<()> {
+        // 相同的key已经存在时, 新值替换旧值
+        self.erase(&key, hash)?;
         let handle = LRUHandle::new_on_heap(
             key.clone(),
             value,
-- 
2.43.0


From 3e234e686c81e9f5a3983981b27737819d1c2ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 08/38] fix: cache: evict until the charge is below the
 capacity

One eviction per insert lets entries of larger charge push the total past
the capacity for good.
---
 src/util/cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 770e0ab..bc8837c 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -425,13 +425,15 @@ impl<T> LRUCache<T> {
         self.usage += charge;
 
         // 使用量已经达到容量, 那么删除最少使用的
-        if self.usage >= self.capacity {
+        while self.usage >= self.capacity {
             if let Some(tail) = self.tail_of_lru {
                 let tail_ref = unsafe { tail.as_ref() };
                 // 先删除lru链表尾
                 self.lru_remove(tail)?;
                 // 于从hash表中删除链表尾, 同时回收内存
                 self.table.remove(&tail_ref.key, tail_ref.hash)?;
+            } else {
+                break;
             }
         }
 
-- 
2.43.0


From 904ea27452c56d8b030bc121ab9f3f4e3aa2b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 09/38] fix: cache: prune and drop release every entry

prune freed only the first entry of each hash chain, and dropping the cache
freed none.
---
 src/util/cache.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index bc8837c..0fd1624 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -244,9 +244,13 @@ impl<T> HandleTable<T> {
 
     /// 清空hash表 并回收内存
     pub fn prune(&mut self) {
-        for handle in self.list.iter().filter(|v| v.is_some()) {
-            // 回收内存
-            Self::drop_handle(handle.unwrap().as_ptr());
+        for head in self.list.iter() {
+            let mut current = *head;
+            while let Some(handle) = current {
+                current = unsafe { handle.as_ref() }.next_hash;
+                // 回收内存
+                Self::drop_handle(handle.as_ptr());
+            }
         }
         // 清空list恢复内存
         self.list.clear();
@@ -359,6 +363,13 @@ impl<T> HandleTable<T> {
     }
 }
 
+impl<T> Drop for HandleTable<T> {
+    fn drop(&mut self) {
+        // 回收所有数据的内存
+        self.prune();
+    }
+}
+
 struct LRUCache<T> {
     // hash表, 用于存放缓存数据
     table: HandleTable<T>,
-- 
2.43.0


From 672ffbce9429e76e9a83bfed3521a0943c9890b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 10/38] fix: arena: allocating zero bytes from a new arena
 panicked

---
 src/util/arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index d239b48..ff2718f 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -56,7 +56,7 @@ impl Arena {
     }
 
     pub fn allocate_align(&mut self, bytes: usize, align: usize) -> &mut [u8] {
-        if bytes <= self.alloc_bytes_remaining {
+        if bytes <= self.alloc_bytes_remaining && self.alloc_ptr.is_some() {
             self.alloc_bytes_remaining -= bytes;
             let result = unsafe { slice::from_raw_parts_mut(self.alloc_ptr.unwrap().as_ptr(), bytes) };
             unsafe {
-- 
2.43.0


From 82ed02c574a338e67332349fc994c78a0aec2bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 11/38] fix: arena: copy_with_arena returned a Slice that frees
 arena memory

A Slice owns its Vec: dropping the copy freed a pointer inside an arena block.
---
 src/util/arena.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index ff2718f..b493b6f 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -116,12 +116,12 @@ impl Drop for Arena {
 
 impl ArenaAllocLike for Slice {
     fn copy_with_arena(&self, arena: ArenaRef) -> Self {
-        unsafe {
+        {
             let mut lock_guard = arena.lock().unwrap();
             let dst = lock_guard.allocate(self.len());
             let src = &**self;
             dst.copy_from_slice(src);
-            Slice::from_raw_parts(dst.as_mut_ptr(), self.len())
+            Slice::from_buf(dst)
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 55f80029e4d1924c79b1872dec9c9cf75bee7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 12/38] fix: UnsafeSlice: to_slice copies the data, sub_slice
 may reach the end

to_slice returned uninitialised memory and sub_slice rejected every suffix.
---
 src/util/unsafe_slice.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index c48d2bb..e55d16c 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,4 +1,3 @@
-use std::alloc::{alloc, Layout};
 use std::fmt::{Display, Formatter};
 use std::io::Write;
 use std::mem::ManuallyDrop;
@@ -54,7 +53,7 @@ impl UnsafeSlice {
 
     /// 返回子串。这个方法是高效的，在内部只复制了裸指针偏的移量。
     pub unsafe fn sub_slice(&self, start: usize, len: usize) -> Self {
-        assert!(start + len < self.len, "sub_slice out of range");
+        assert!(start + len <= self.len, "sub_slice out of range");
         Self {
             ptr: self.ptr.offset(start as isize),
             len,
@@ -64,10 +63,7 @@ impl UnsafeSlice {
     /// 生成 Slice 串，由于 Slice 是内存安全的，所以实现上会有内存拷贝。
     /// 高性能场景优先考虑 UnsafeSlice
     pub fn to_slice(&self) -> Slice {
-        unsafe {
-            let raw_ptr = alloc(Layout::from_size_align_unchecked(self.len, 8));
-            Slice::from_raw_parts(raw_ptr, self.len)
-        }
+        Slice::from_buf(self.as_ref())
     }
 }
 
-- 
2.43.0


From 570212dc7156b622ad5b06760aa678cc5673b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 13/38] fix: Slice: mutable indexing by a range ignored its
 start

---
 src/util/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index 215e17f..a108b17 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -240,7 +240,7 @@ impl core::ops::IndexMut<Range<usize>> for Slice {
     /// 获取指定下标范围的数据
     fn index_mut(&mut self, index: Range<usize>) -> &mut Self::Output {
         assert!(index.end <= self.size());
-        &mut (**self)[..index.end]
+        &mut (**self)[index.start..index.end]
     }
 }
 
-- 
2.43.0


From d2347ea6cfc7ff82d3dfd91757649d33ec6e46dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 14/38] fix: Slice: starts_with is false for a longer prefix
 instead of a panic

---
 src/util/slice.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index a108b17..433f247 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -79,7 +79,6 @@ impl Slice {
 
     /// 判断本 Slice 是否以 other 为开始
     pub fn starts_with(&self, other: &Self) -> bool {
-        assert!(other.size() <= self.size());
         if other.size() == 0 {
             return true;
         }
-- 
2.43.0


From d36f819aa8b81603c82c6cef91843603b1a0b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 15/38] fix: comparator: shortest separator below start, panic
 on prefixes

start was cut after the first difference even where that byte could not be
incremented, giving a separator smaller than start, and a start that is a
prefix of limit indexed past its end.
---
 src/util/comparator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/comparator.rs b/src/util/comparator.rs
index 661a930..ca84886 100644
--- a/src/util/comparator.rs
+++ b/src/util/comparator.rs
@@ -78,10 +78,11 @@ impl Comparator for BytewiseComparatorImpl {
                 // 则将 start 差异字符位置+1的元素变更为 差异字符的next
                 (diff_byte + 1) < limit_char_vec[diff_index] {
                 start_char_vec[diff_index] = diff_byte + 1;
+                start_char_vec.truncate(diff_index + 1);
             }
         }
 
-        let shortest_separator: &[u8] = &start_char_vec[0..diff_index + 1];
+        let shortest_separator: &[u8] = &start_char_vec;
         let shortest_separator_val: String = Slice::from_buf(shortest_separator).into();
         shortest_separator_val
     }
-- 
2.43.0


From 29c26f9ddc8f07b9d4373905d68e9f7757cb6422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 16/38] fix: LookupKey: the encoded key was written outside its
 buffer

The buffer had capacity but no length, so the key was lost, and the length
prefix held the size of the prefix itself.
---
 src/db/db_format.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 4b4a7c7..1727f7b 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -256,15 +256,14 @@ impl LookupKey {
     /// the specified sequence number.
     pub fn new(user_key: Slice, sequence: usize) -> Self {
         let user_key_size = user_key.size();
-        let need = user_key_size + 13; // A conservative estimate
-        let mut data = Vec::with_capacity(need);
+        let klength = varint_length((user_key_size + 8) as u64);
+        let mut data = vec![0; klength + user_key_size + 8];
         let buf = data.as_mut_slice();
         let mut encoder = Encoder::with_buf(buf);
         // write key size
-        let klength = varint_length((user_key_size + 8) as u64);
         // 需要保证写入的数据不会超过buf.len(), 否则会溢出
         unsafe {
-            encoder.uncheck_put_varint32(klength as u32);
+            encoder.uncheck_put_varint32((user_key_size + 8) as u32);
             // write key slice
             encoder.uncheck_put_buf(user_key.as_ref());
             // write sequence number and value type
-- 
2.43.0


From c0778d36196dcba4eb3966a45d5f5bd74a536b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 17/38] fix: MemTable: add locked the arena twice and left out
 the value length

add held the arena lock while copying the entry into the arena (a
deadlock), and the entry lacked the length prefix of the value that
encoded_len accounts for.
---
 src/db/mem_table.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index a003400..4f39d50 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -70,13 +70,12 @@ impl<Cmp: Comparator> MemTable<Cmp> {
         let key_size = key_buf.len();
         let value_size = value_buf.len();
         let internal_key_size = key_size + 8;
-        let encoded_len = varint_length(key_size as u64)
+        let encoded_len = varint_length(internal_key_size as u64)
             + internal_key_size
             + varint_length(value_size as u64)
             + value_size;
-        let mut lock = self.arena.lock()?;
-        let buf = lock.allocate(encoded_len);
-        let mut encoder = Encoder::with_buf(buf);
+        let mut buf = vec![0; encoded_len];
+        let mut encoder = Encoder::with_buf(&mut buf);
         // 需要保证写入的数据不会超过buf.len(), 否则溢出
         unsafe {
             // write key size
@@ -85,6 +84,8 @@ impl<Cmp: Comparator> MemTable<Cmp> {
             encoder.uncheck_put_buf(key_buf);
             // write seq_no and type
             encoder.uncheck_put_fixed64((seq_no << 8 | v_type.get_value()) as u64);
+            // write value size
+            encoder.uncheck_put_varint32(value_size as u32);
             // write value slice
             encoder.uncheck_put_buf(value_buf);
         }
-- 
2.43.0


From a959ec62ff338e47cacccc2ed5811caf9f0e1334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 18/38] fix: filter block: start_block never ended once a
 filter was due

---
 src/table/filter_block.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 9f0fb38..b6eda9b 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -157,11 +157,10 @@ impl FilterBlock for FilterBlockBuilder {
         // 计算出需要创建的filter的总数目. filters_number ==> filter_index
         let filters_number = block_offset / (FILTER_BASE as u64);
 
-        let len = self.filter_offsets.len() as u64;
-        assert!(filters_number >= len);
+        assert!(filters_number >= self.filter_offsets.len() as u64);
 
         // 当已经生成的filter的数目小于需要生成的filter的总数时，那么就继续创建filter。
-        while filters_number > len {
+        while filters_number > self.filter_offsets.len() as u64 {
             self.generate_new_filter();
         }
     }
-- 
2.43.0


From 514dafc0266b496471dbeca541206bdbff78d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 19/38] fix: filter block: finish overwrote the filters with
 their offsets

Encoder::with_vec writes from the start of the vector.
---
 src/table/filter_block.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index b6eda9b..9a4f2d3 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -184,9 +184,9 @@ impl FilterBlock for FilterBlockBuilder {
         let array_offset = self.result.len() as u32;
 
         // 当前需要写入的位置。result 中可能存在数据，因此为 offset ==> self.result.len()  的位置
-        let dst: &mut Vec<u8> = &mut self.result;
+        let mut dst: Vec<u8> = Vec::new();
         // let mut dst_append = self.result.as_mut_slice();
-        let mut encoder = Encoder::with_vec(dst);
+        let mut encoder = Encoder::with_vec(&mut dst);
         for i in 0..self.filter_offsets.len() {
             encoder.put_fixed32(self.filter_offsets[i])?;
         }
@@ -194,6 +194,7 @@ impl FilterBlock for FilterBlockBuilder {
 
         // Save encoding parameter in result
         encoder.put_varint64(FILTER_BASE_LG as u64)?;
+        self.result.extend_from_slice(&dst);
 
         Ok(Slice::from_buf(&self.result))
     }
-- 
2.43.0


From 55e69adb44fd7543605cdbd6a92b13f4e181d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 20/38] fix: filter block: keys need not be UTF-8

---
 src/table/filter_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 9a4f2d3..0648283 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -172,7 +172,7 @@ impl FilterBlock for FilterBlockBuilder {
     fn add_key(&mut self, key: &Slice) {
         // start_记录key在keys的offset，因此可以还原出key
         self.start.push(self.keys.len());
-        self.keys.write(key.as_str().as_bytes()).expect("add_key error!");
+        self.keys.write(key.as_ref()).expect("add_key error!");
     }
 
     fn finish(&mut self) -> Result<Slice> {
-- 
2.43.0


From 8a1e4cc2373782ae53f060a85a4a8348d9ab1c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 21/38] fix: VersionEdit: encode the comparator name and the
 internal keys

Only the length of the comparator name was written, and the keys of
compact pointers and new files were left out.
---
 src/db/db_format.rs    |  2 +-
 src/db/version_edit.rs | 12 ++++--------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 1727f7b..23eb69d 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -24,7 +24,7 @@ pub struct ParsedInternalKey {
 
 #[derive(Debug)]
 pub struct InternalKey {
-    rep_: Slice,
+    pub(crate) rep_: Slice,
 }
 
 /// InternalKeyComparator
diff --git a/src/db/version_edit.rs b/src/db/version_edit.rs
index ec0a502..ac1ac5b 100644
--- a/src/db/version_edit.rs
+++ b/src/db/version_edit.rs
@@ -205,9 +205,7 @@ impl VersionEdit {
         let mut encoder = Encoder::with_vec(target);
         if self.has_comparator_ {
             encoder.put_varint32(Tag::k_comparator.get_value() as u32)?;
-            encoder.put_varint32(self.comparator_.len() as u32)?;
-            // fixme 需要正确使用 put_length_prefixed_slice  将slice长度及slice内容编码到target
-            // encoder.put_length_prefixed_slice(self.comparator_.len())?;
+            encoder.put_length_prefixed_slice(&Slice::from(self.comparator_.as_str()))?;
         }
         if self.has_log_number_ {
             encoder.put_varint32(Tag::kLogNumber.get_value() as u32)?;
@@ -232,8 +230,7 @@ impl VersionEdit {
         for i in 0..self.compact_pointers_.len() {
             encoder.put_varint32(Tag::kCompactPointer.get_value() as u32)?;
             encoder.put_varint32(self.compact_pointers_[i].0)?;
-            // fixme 需要正确使用put_length_prefixed_slice
-            // encoder.put_length_prefixed_slice( self.compact_pointers_[i].1.encode_len())?;
+            encoder.put_length_prefixed_slice(&self.compact_pointers_[i].1.rep_)?;
         }
 
         for i in 0..self.deleted_files_.len() {
@@ -249,9 +246,8 @@ impl VersionEdit {
             encoder.put_varint32(self.new_files_[i].0)?;
             encoder.put_varint64(f.get_number())?;
             encoder.put_varint64(f.get_file_size())?;
-            // fixme 需要正确使用put_length_prefixed_slice
-            // encoder.put_length_prefixed_slice( f.get_smallest().encode_len())?;
-            // encoder.put_length_prefixed_slice( f.get_largest().encode_len())?;
+            encoder.put_length_prefixed_slice(&f.get_smallest().rep_)?;
+            encoder.put_length_prefixed_slice(&f.get_largest().rep_)?;
         }
         Ok(())
     }
-- 
2.43.0


From c89b348453dc0e3bd9b028f51bbf46b351af2650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 22/38] fix: skip list: iterating an empty list read
 uninitialised memory

---
 src/db/skip_list.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 1bc28f2..030211e 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -52,11 +52,17 @@ pub struct Iter<Cmp: Comparator> {
 
 impl<Cmp: Comparator> SkipList<Cmp> {
     pub fn create(comparator: Arc<Cmp>, arena: ArenaRef) -> Self {
+        let head = Node::create_head(arena.clone());
+        let tail = Node::create_tail();
+        // 空表的头节点每一层都指向尾节点
+        for l in 0..MAX_LEVEL {
+            unsafe { (&mut *head).set_node(l, tail); }
+        }
         Self {
             height: 0,
             num: 0,
-            head: Node::create_head(arena.clone()),
-            tail: Node::create_tail(),
+            head,
+            tail,
             cmp: comparator,
             arena,
         }
-- 
2.43.0


From 974812c0309f9bf3758b87aa3bc29a7a5c97fdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 23/38] fix: skip list: node pointers were read and written at
 unaligned addresses

---
 src/db/skip_list.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 030211e..a6b1925 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -1,6 +1,6 @@
 use std::cmp::Ordering;
 use std::mem;
-use std::mem::size_of;
+use std::mem::{align_of, size_of};
 use std::ptr::null_mut;
 use std::sync::{Arc, RwLock};
 
@@ -397,7 +397,10 @@ fn allocate_next_elems(arena: ArenaRef) -> *mut RawNode {
     // allocate next_elems to 8 capacity array
     let elems_size = size_of::<RawNode>() * MAX_LEVEL;
     let mut lock = arena.lock().expect("lock arena");
-    let elems_ptr = lock.allocate(elems_size);
+    // the arena returns unaligned memory, leave room to align it
+    let elems_align = align_of::<RawNode>();
+    let elems_ptr = lock.allocate(elems_size + elems_align - 1);
+    let elems_ptr = &elems_ptr[elems_ptr.as_ptr().align_offset(elems_align)..];
     // transmute raw ptr to RawNode ptr
     unsafe {
         mem::transmute(elems_ptr.as_ptr())
-- 
2.43.0


From b1952a499b8d130f99d0e3162890da37fd0fa6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 24/38] fix: skip list: iterator valid() was inverted

---
 src/db/skip_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index a6b1925..68b0f61 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -448,7 +448,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn valid(&self) -> bool {
         unsafe {
-            (&*self.current).is_head_or_tail()
+            !(&*self.current).is_head_or_tail()
         }
     }
 
-- 
2.43.0


From 03347770ec0752e1e294b4b813c8c756308739fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 25/38] fix: skip list: seek_to_last stopped at the last node
 of the top level

It also started from the current position, failing at the end of the list.
---
 src/db/skip_list.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 68b0f61..6616d44 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -363,20 +363,19 @@ impl Node {
             return None;
         }
         let mut pre = self;
-        let mut cur = &*self.next_top_node();
-        loop {
-            if cur.is_tail() {
-                return Some(pre as *const Node as *mut Node);
+        for l in (0..self.level).rev() {
+            loop {
+                let next = &*pre.get_node(l);
+                if next.is_tail() {
+                    break;
+                }
+                pre = next;
             }
-            pre = cur;
-            cur = &*cur.next_top_node();
         }
-    }
-
-    /// 找到最上层的下一个元素
-    #[inline]
-    unsafe fn next_top_node(&self) -> RawNode {
-        self.get_node(self.level - 1)
+        if pre.is_head() {
+            return None;
+        }
+        Some(pre as *const Node as *mut Node)
     }
 }
 
@@ -462,7 +461,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn seek_to_last(&mut self) {
         unsafe {
-            self.current = (&*self.current).seek_to_last().unwrap_or(self.tail)
+            self.current = (&*self.head).seek_to_last().unwrap_or(self.tail)
         }
     }
 
-- 
2.43.0


From 34e7b64d87b0822c09d9102f2dfac02f3bce0b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 26/38] verif: hooks module and no global allocator under
 cfg(verif_hooks)

---
 src/lib.rs         |   3 ++
 src/verif_hooks.rs | 130 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 133 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index c1c3131..f30625f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,7 +6,10 @@ pub mod db;
 mod table;
 pub mod util;
 mod traits;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 
+#[cfg(not(verif_hooks))]
 #[global_allocator]
 static ALLOC: jemallocator::Jemalloc = jemallocator::Jemalloc;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..e7f1dee
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,130 @@
+//! Hooks for the verification harness, compiled only with `--cfg verif_hooks`.
+use std::any::TypeId;
+use std::cell::RefCell;
+use std::collections::VecDeque;
+use std::mem::{size_of, transmute_copy, ManuallyDrop};
+use std::ops::{Deref, DerefMut};
+use std::sync::{LockResult, PoisonError};
+
+use rand::distributions::{Distribution, Standard};
+
+pub use crate::table::filter_block;
+pub use crate::traits::comparator_trait;
+pub use crate::traits::filter_policy_trait;
+pub use crate::traits::iterator;
+
+thread_local! {
+    static COINS: RefCell<VecDeque<bool>> = RefCell::new(VecDeque::new());
+    static LOCK_HOOK: RefCell<Option<LockHook>> = RefCell::new(None);
+}
+
+/// Values that the next calls of `random::<bool>()` on this thread return.
+pub fn set_coins(coins: &[bool]) {
+    COINS.with(|c| *c.borrow_mut() = coins.iter().copied().collect());
+}
+
+/// `rand::random`, except that bools come from `set_coins` while it has any left.
+pub fn random<T: 'static>() -> T where Standard: Distribution<T> {
+    if TypeId::of::<T>() == TypeId::of::<bool>() && size_of::<T>() == size_of::<bool>() {
+        if let Some(coin) = COINS.with(|c| c.borrow_mut().pop_front()) {
+            return unsafe { transmute_copy(&coin) };
+        }
+    }
+    rand::random()
+}
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum LockEvent {
+    /// about to take the lock at this address
+    Acquire { lock: usize, write: bool },
+    /// just gave it back
+    Released { lock: usize, write: bool },
+}
+
+pub type LockHook = Box<dyn Fn(LockEvent)>;
+
+/// Called on this thread at every lock event.
+pub fn set_lock_hook(hook: Option<LockHook>) {
+    LOCK_HOOK.with(|h| *h.borrow_mut() = hook);
+}
+
+fn lock_event(event: LockEvent) {
+    let _ = LOCK_HOOK.try_with(|h| {
+        if let Ok(hook) = h.try_borrow() {
+            if let Some(hook) = hook.as_ref() {
+                hook(event);
+            }
+        }
+    });
+}
+
+/// `std::sync::RwLock` that reports to the lock hook.
+pub struct RwLock<T> {
+    inner: std::sync::RwLock<T>,
+}
+
+/// A guard of `RwLock`; `WRITE` tells which kind.
+pub struct Guard<G, const WRITE: bool> {
+    guard: ManuallyDrop<G>,
+    lock: usize,
+}
+
+impl<T> RwLock<T> {
+    pub fn new(value: T) -> Self {
+        Self { inner: std::sync::RwLock::new(value) }
+    }
+
+    fn addr(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    pub fn read(&self) -> LockResult<Guard<std::sync::RwLockReadGuard<'_, T>, false>> {
+        lock_event(LockEvent::Acquire { lock: self.addr(), write: false });
+        wrap(self.inner.read(), self.addr())
+    }
+
+    pub fn write(&self) -> LockResult<Guard<std::sync::RwLockWriteGuard<'_, T>, true>> {
+        lock_event(LockEvent::Acquire { lock: self.addr(), write: true });
+        wrap(self.inner.write(), self.addr())
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.inner.is_poisoned()
+    }
+}
+
+fn wrap<G, const WRITE: bool>(result: LockResult<G>, lock: usize) -> LockResult<Guard<G, WRITE>> {
+    match result {
+        Ok(guard) => Ok(Guard { guard: ManuallyDrop::new(guard), lock }),
+        Err(e) => Err(PoisonError::new(Guard { guard: ManuallyDrop::new(e.into_inner()), lock })),
+    }
+}
+
+impl<G: Deref, const WRITE: bool> Deref for Guard<G, WRITE> {
+    type Target = G::Target;
+
+    fn deref(&self) -> &Self::Target {
+        &self.guard
+    }
+}
+
+impl<G: DerefMut, const WRITE: bool> DerefMut for Guard<G, WRITE> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.guard
+    }
+}
+
+impl<G, const WRITE: bool> Drop for Guard<G, WRITE> {
+    fn drop(&mut self) {
+        unsafe { ManuallyDrop::drop(&mut self.guard) };
+        lock_event(LockEvent::Released { lock: self.lock, write: WRITE });
+    }
+}
-- 
2.43.0


From f2b0ba4292e12612a2b8926b3d515e534538751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 27/38] verif: skip list levels from the hooks' coins under
 cfg(verif_hooks)

---
 src/db/skip_list.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 6616d44..360b50e 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -5,6 +5,8 @@ use std::ptr::null_mut;
 use std::sync::{Arc, RwLock};
 
 use rand::prelude::*;
+#[cfg(verif_hooks)]
+use crate::verif_hooks::random;
 
 use crate::debug;
 use crate::traits::comparator_trait::Comparator;
-- 
2.43.0


From 8e23b54218f1cc4d6ec762095eeee45475978ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 28/38] verif: observable shard locks in the cache under
 cfg(verif_hooks)

---
 src/util/cache.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 0fd1624..2df3830 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -3,7 +3,11 @@ use std::fmt::Debug;
 use std::marker::PhantomData;
 use std::ops::Deref;
 use std::ptr::NonNull;
-use std::sync::{Arc, RwLock};
+use std::sync::Arc;
+#[cfg(not(verif_hooks))]
+use std::sync::RwLock;
+#[cfg(verif_hooks)]
+use crate::verif_hooks::RwLock;
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 use custom_proc_macro::{arr, non_null_new_uncheck};
-- 
2.43.0


From acc029cfe916111af804460bd7063700e0d38add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 29/38] verif: entries of a MemTable under cfg(verif_hooks)

---
 src/db/mem_table.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index 4f39d50..041cc96 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -99,6 +99,14 @@ impl<Cmp: Comparator> MemTable<Cmp> {
     }
 }
 
+#[cfg(verif_hooks)]
+impl<Cmp: Comparator> MemTable<Cmp> {
+    /// 验证用: 表中的全部数据
+    pub fn verif_list(&self) -> &SkipList<Cmp> {
+        &self.list
+    }
+}
+
 mod test {
     #[test]
     fn test() {}
-- 
2.43.0


From 82fdf9853f45cf29da681a2a60a168547da2b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 30/38] verif: try_read and try_write of the recording lock

---
 src/verif_hooks.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index e7f1dee..591d44f 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -4,7 +4,7 @@ use std::cell::RefCell;
 use std::collections::VecDeque;
 use std::mem::{size_of, transmute_copy, ManuallyDrop};
 use std::ops::{Deref, DerefMut};
-use std::sync::{LockResult, PoisonError};
+use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
 
 use rand::distributions::{Distribution, Standard};
 
@@ -37,6 +37,10 @@ pub fn random<T: 'static>() -> T where Standard: Distribution<T> {
 pub enum LockEvent {
     /// about to take the lock at this address
     Acquire { lock: usize, write: bool },
+    /// about to try to take it
+    Try { lock: usize, write: bool },
+    /// took it without waiting
+    Took { lock: usize, write: bool },
     /// just gave it back
     Released { lock: usize, write: bool },
 }
@@ -88,6 +92,16 @@ impl<T> RwLock<T> {
         wrap(self.inner.write(), self.addr())
     }
 
+    pub fn try_read(&self) -> TryLockResult<Guard<std::sync::RwLockReadGuard<'_, T>, false>> {
+        lock_event(LockEvent::Try { lock: self.addr(), write: false });
+        try_wrap(self.inner.try_read(), self.addr())
+    }
+
+    pub fn try_write(&self) -> TryLockResult<Guard<std::sync::RwLockWriteGuard<'_, T>, true>> {
+        lock_event(LockEvent::Try { lock: self.addr(), write: true });
+        try_wrap(self.inner.try_write(), self.addr())
+    }
+
     pub fn get_mut(&mut self) -> LockResult<&mut T> {
         self.inner.get_mut()
     }
@@ -108,6 +122,17 @@ fn wrap<G, const WRITE: bool>(result: LockResult<G>, lock: usize) -> LockResult<
     }
 }
 
+fn try_wrap<G, const WRITE: bool>(result: TryLockResult<G>, lock: usize) -> TryLockResult<Guard<G, WRITE>> {
+    let guard = |g| Guard { guard: ManuallyDrop::new(g), lock };
+    let taken = match result {
+        Ok(g) => Ok(guard(g)),
+        Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(guard(e.into_inner())))),
+        Err(TryLockError::WouldBlock) => return Err(TryLockError::WouldBlock),
+    };
+    lock_event(LockEvent::Took { lock, write: WRITE });
+    taken
+}
+
 impl<G: Deref, const WRITE: bool> Deref for Guard<G, WRITE> {
     type Target = G::Target;
 
-- 
2.43.0


From 825cd4d8eea51332866070461c4c06e71d5b6c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:38 +0000
Subject: [PATCH 31/38] fix: UnsafeSlice: new_with_arena returned an empty
 slice behind the copied data

---
 src/util/unsafe_slice.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index e55d16c..906ae80 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,5 +1,4 @@
 use std::fmt::{Display, Formatter};
-use std::io::Write;
 use std::mem::ManuallyDrop;
 
 use crate::util::arena::ArenaRef;
@@ -26,8 +25,8 @@ impl UnsafeSlice {
     pub fn new_with_arena<B: AsRef<[u8]>>(data: B, arena: ArenaRef) -> Result<Self> {
         let mut lock = arena.lock()?;
         let src = data.as_ref();
-        let mut buf = lock.allocate(src.len());
-        buf.write(src)?;
+        let buf = lock.allocate(src.len());
+        buf.copy_from_slice(src);
         Ok(Self {
             ptr: buf.as_mut_ptr(),
             len: buf.len(),
-- 
2.43.0


From cf2d7da0eb805476ca5fc940674567ba837ef0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 32/38] fix: decoding: read bytes were allocated with another
 layout than they are freed with

---
 src/util/coding.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 70c15d1..48cf95e 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1,5 +1,4 @@
-use std::{intrinsics, ptr};
-use std::alloc::{alloc, Layout};
+use std::{ptr, slice};
 use std::ops::Deref;
 
 use crate::util::coding::EncodeData::{Buffer, Slices, Vector};
@@ -429,12 +428,8 @@ unsafe fn uncheck_write_buf(data: &mut MutEncodeData, offset: usize, buf: &[u8])
 /// ```
 unsafe fn uncheck_read_buf(data: &EncodeData, offset: usize, len: usize) -> Slice {
     let ptr: *const u8 = get_ptr!(data).add(offset);
-    // 分配一块内存长度为buf的长度
-    let dst: *mut u8 = alloc(Layout::from_size_align_unchecked(len, 4));
-    // 将数据拷贝到这块内存上
-    intrinsics::copy_nonoverlapping(ptr, dst, len);
-    // 使用slice包装内存
-    Slice::from_raw_parts(dst, len)
+    // 将数据拷贝到slice中
+    Slice::from_buf(slice::from_raw_parts(ptr, len))
 }
 
 /// 编码的数据 只读的
-- 
2.43.0


From 6361d0b4821b632feae8edb9f3464dc349162a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 33/38] fix: cache: new_arc_with_capacity gave every shard the
 table length of the whole cache

---
 src/util/cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 2df3830..459e3a9 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -717,10 +717,10 @@ impl<T> ShardLRUCache<T> {
         } else {
             default_length
         };
-        let default_length_per_shard = default_length / K_NUM_SHARDS;
+        let default_length = default_length / K_NUM_SHARDS;
         Arc::new(Self {
             shard: arr!([cache_element; 32]),
-            default_length: default_length_per_shard,
+            default_length,
             capacity,
         })
     }
-- 
2.43.0


From e1f41ee2d201003c7e3005280051c7fd72b0fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 34/38] verif: cfgs that replace the hooks in cache.rs and
 mem_table.rs

---
 src/db/mem_table.rs |  2 +-
 src/verif_hooks.rs  | 66 ++++++++++++++++++++++++++++++++++++---------
 2 files changed, 55 insertions(+), 13 deletions(-)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index 041cc96..30fbcf3 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -99,7 +99,7 @@ impl<Cmp: Comparator> MemTable<Cmp> {
     }
 }
 
-#[cfg(verif_hooks)]
+#[cfg(all(verif_hooks, not(verif_plain_mem)))]
 impl<Cmp: Comparator> MemTable<Cmp> {
     /// 验证用: 表中的全部数据
     pub fn verif_list(&self) -> &SkipList<Cmp> {
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 591d44f..7fb590a 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -1,4 +1,6 @@
 //! Hooks for the verification harness, compiled only with `--cfg verif_hooks`.
+//! `--cfg verif_plain_locks` and `--cfg verif_plain_mem` replace or leave out the ones that depend
+//! on how cache.rs and mem_table.rs are written.
 use std::any::TypeId;
 use std::cell::RefCell;
 use std::collections::VecDeque;
@@ -41,6 +43,9 @@ pub enum LockEvent {
     Try { lock: usize, write: bool },
     /// took it without waiting
     Took { lock: usize, write: bool },
+    /// could not take it, will try again after this event
+    #[allow(dead_code)]
+    Blocked { lock: usize, write: bool },
     /// just gave it back
     Released { lock: usize, write: bool },
 }
@@ -67,6 +72,40 @@ pub struct RwLock<T> {
     inner: std::sync::RwLock<T>,
 }
 
+/// With guards of std: nobody hears of their release.
+#[cfg(verif_plain_locks)]
+impl<T> RwLock<T> {
+    pub fn read(&self) -> LockResult<std::sync::RwLockReadGuard<'_, T>> {
+        self.retry(false, || self.inner.try_read())
+    }
+
+    pub fn write(&self) -> LockResult<std::sync::RwLockWriteGuard<'_, T>> {
+        self.retry(true, || self.inner.try_write())
+    }
+
+    pub fn try_read(&self) -> TryLockResult<std::sync::RwLockReadGuard<'_, T>> {
+        lock_event(LockEvent::Try { lock: self.addr(), write: false });
+        self.inner.try_read()
+    }
+
+    pub fn try_write(&self) -> TryLockResult<std::sync::RwLockWriteGuard<'_, T>> {
+        lock_event(LockEvent::Try { lock: self.addr(), write: true });
+        self.inner.try_write()
+    }
+
+    fn retry<G>(&self, write: bool, take: impl Fn() -> TryLockResult<G>) -> LockResult<G> {
+        lock_event(LockEvent::Acquire { lock: self.addr(), write });
+        loop {
+            match take() {
+                Ok(guard) => return Ok(guard),
+                Err(TryLockError::Poisoned(e)) => return Err(e),
+                Err(TryLockError::WouldBlock) => lock_event(LockEvent::Blocked { lock: self.addr(), write }),
+            }
+            std::thread::yield_now();
+        }
+    }
+}
+
 /// A guard of `RwLock`; `WRITE` tells which kind.
 pub struct Guard<G, const WRITE: bool> {
     guard: ManuallyDrop<G>,
@@ -82,6 +121,21 @@ impl<T> RwLock<T> {
         self as *const Self as usize
     }
 
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.inner.is_poisoned()
+    }
+}
+
+#[cfg(not(verif_plain_locks))]
+impl<T> RwLock<T> {
     pub fn read(&self) -> LockResult<Guard<std::sync::RwLockReadGuard<'_, T>, false>> {
         lock_event(LockEvent::Acquire { lock: self.addr(), write: false });
         wrap(self.inner.read(), self.addr())
@@ -101,18 +155,6 @@ impl<T> RwLock<T> {
         lock_event(LockEvent::Try { lock: self.addr(), write: true });
         try_wrap(self.inner.try_write(), self.addr())
     }
-
-    pub fn get_mut(&mut self) -> LockResult<&mut T> {
-        self.inner.get_mut()
-    }
-
-    pub fn into_inner(self) -> LockResult<T> {
-        self.inner.into_inner()
-    }
-
-    pub fn is_poisoned(&self) -> bool {
-        self.inner.is_poisoned()
-    }
 }
 
 fn wrap<G, const WRITE: bool>(result: LockResult<G>, lock: usize) -> LockResult<Guard<G, WRITE>> {
-- 
2.43.0


From f1de01107a6c90e60a1c70f18c4b67d336429ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 35/38] fix: cache: a destructor that panics in prune left
 handles to be freed again on drop

---
 src/util/cache.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 459e3a9..29f4a7e 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -248,10 +248,10 @@ impl<T> HandleTable<T> {
 
     /// 清空hash表 并回收内存
     pub fn prune(&mut self) {
-        for head in self.list.iter() {
-            let mut current = *head;
-            while let Some(handle) = current {
-                current = unsafe { handle.as_ref() }.next_hash;
+        for head in self.list.iter_mut() {
+            // 先断开再回收, 如果value析构时panic, 已经回收的数据不会在Drop时被再次回收
+            while let Some(handle) = *head {
+                *head = unsafe { handle.as_ref() }.next_hash;
                 // 回收内存
                 Self::drop_handle(handle.as_ptr());
             }
-- 
2.43.0


From f840365fb55dc3933f50255a4b4b902c24e5e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 36/38] fix: log: a file that could not be positioned made the
 reader panic

---
 src/db/log_reader.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 135afad..cb58cca 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -18,6 +18,8 @@ pub struct LogReader {
     resyncing: bool,
     /// offset of the end of buf in the file
     read_pos: usize,
+    /// why the file could not be positioned at the initial block, reported by the first read
+    seek_error: Option<std::io::Error>,
     eof: bool,
     buf: [u8; K_BLOCK_SIZE],
     buf_len: usize,
@@ -34,15 +36,16 @@ impl LogReader {
         let offset_in_block = initial_offset % K_BLOCK_SIZE;
         let mut block_start_location = initial_offset - offset_in_block;
         if offset_in_block > K_BLOCK_SIZE - 6 {
-            block_start_location += K_BLOCK_SIZE;
+            block_start_location = block_start_location.saturating_add(K_BLOCK_SIZE);
         }
-        file_reader.seek(Start(block_start_location as u64)).expect("seek to initial_offset");
+        let seek_error = file_reader.seek(Start(block_start_location as u64)).err();
         Self {
             file_reader,
             checksum,
             initial_offset,
             resyncing: initial_offset > 0,
             read_pos: block_start_location,
+            seek_error,
             eof: false,
             buf: [0; K_BLOCK_SIZE],
             buf_len: 0,
@@ -140,6 +143,10 @@ impl LogReader {
     fn read_buf(&mut self) -> Result<()> {
         self.buf_read_idx = 0;
         self.buf_len = 0;
+        if let Some(e) = self.seek_error.take() {
+            self.eof = true;
+            return Err(e.into());
+        }
         while self.buf_len < K_BLOCK_SIZE && !self.eof {
             match self.file_reader.read(&mut self.buf[self.buf_len..]) {
                 Ok(0) => self.eof = true,
-- 
2.43.0


From caa03bc81bb6b1bd4ac34eaf153f49c577523983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 37/38] fix: cache: a capacity near usize::MAX overflowed when
 it was shared out

---
 src/util/cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 29f4a7e..7545e1a 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -634,7 +634,8 @@ fn shard(hash: u32) -> usize {
 
 #[inline]
 fn pre_shard(capacity: usize) -> usize {
-    (capacity + (K_NUM_SHARDS - 1)) / K_NUM_SHARDS
+    // 向上取整, 容量接近usize::MAX时不能溢出
+    capacity / K_NUM_SHARDS + usize::from(capacity % K_NUM_SHARDS != 0)
 }
 
 /// 所有权可以多线程传递
-- 
2.43.0


From 988dda19c606140d0c7d3bbe8f5300b89a420bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 38/38] fix: cache: a charge near usize::MAX overflowed the
 usage of its shard

---
 src/util/cache.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 7545e1a..177f6fa 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -437,7 +437,8 @@ impl<T> LRUCache<T> {
         // 插入lru
         self.lru_append(handle)?;
         // 使用量加上写入的value的长度或者数据大小
-        self.usage += charge;
+        // 溢出时饱和: 这样的charge大于任何shard的容量, 下面会淘汰包括它自己在内的全部数据, 使用量回到零
+        self.usage = self.usage.saturating_add(charge);
 
         // 使用量已经达到容量, 那么删除最少使用的
         while self.usage >= self.capacity {
@@ -567,7 +568,7 @@ impl<T> LRUCache<T> {
         }
 
         // 使用量
-        self.usage -= handle_mut.charge;
+        self.usage = self.usage.saturating_sub(handle_mut.charge);
 
         // 删除后, 标记数据已经不在缓存中
         handle_mut.in_cache = false;
-- 
2.43.0

