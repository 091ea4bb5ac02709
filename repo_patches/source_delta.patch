From 5d7993f40e698de1e5fad96019c5416936147cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 1/7] fix: write stored-block lengths little-endian, as the
 reader expects

---
 lib/src/bit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 5e8bd36..94eeed7 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -163,8 +163,8 @@ impl<W: Write> BitWriter<W> {
 
     pub fn write_aligned_u16(&mut self, val: u16) -> Result<(), Error> {
         self.inner.write_all(&[
-            u8::try_from(val >> 8).expect("bitshift"),
             u8::try_from(val & 0xFF).expect("mask"),
+            u8::try_from(val >> 8).expect("bitshift"),
         ])?;
         Ok(())
     }
-- 
2.43.0


From e93b1bccb3c45913328accb053239844374b2880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 2/7] fix: Technique::byte_at takes a position which includes
 the preroll

---
 lib/src/technique.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/technique.rs b/lib/src/technique.rs
index 1fa8a43..4241ad5 100644
--- a/lib/src/technique.rs
+++ b/lib/src/technique.rs
@@ -64,7 +64,7 @@ impl<'a, 'p, 'd> Technique<'a, 'p, 'd> {
     }
 
     pub fn byte_at(&self, pos: usize) -> u8 {
-        self.all_refs.data[pos]
+        self.all_refs.get(pos)
     }
 }
 
-- 
2.43.0


From 99109160e694a51c0dee474c22a6df07f75d8b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 3/7] fix: zero: never make a stored block longer than its
 16-bit length field

---
 rezippers/src/zero.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index c728268..ca6deec 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -15,7 +15,7 @@ const CRC32: Crc<u32> = Crc::<u32>::new(&CRC_32_ISO_HDLC);
 
 const RSYNC_MIN: usize = 1024 * 8;
 const RSYNC_MOD: usize = 1024 * 4;
-const RSYNC_MAX: usize = 1024 * 64;
+const RSYNC_MAX: usize = 1024 * 64 - 1;
 
 /// Return: empty iff input is empty.
 fn take_rsync<I: Iterator<Item = io::Result<u8>>>(from: &mut I) -> io::Result<Vec<u8>> {
-- 
2.43.0


From 7675a88954de7b66a3a36157746f897db72b1877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 4/7] fix: cat, zero: flush stdout, so that a failed write is
 reported

---
 rezippers/src/cat.rs  | 3 +++
 rezippers/src/zero.rs | 1 +
 2 files changed, 4 insertions(+)

diff --git a/rezippers/src/cat.rs b/rezippers/src/cat.rs
index 051b0d5..773269c 100644
--- a/rezippers/src/cat.rs
+++ b/rezippers/src/cat.rs
@@ -1,5 +1,6 @@
 use std::io;
 use std::io::Read;
+use std::io::Write;
 
 use anyhow::Error;
 use librezip;
@@ -17,5 +18,7 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
         librezip::decompressed_block(&mut stdout, &mut dictionary, &block?)?;
     }
 
+    stdout.flush()?;
+
     Ok(())
 }
diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index ca6deec..e1cb246 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -94,5 +94,6 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
 
     writer.write_u32::<LE>(data_csum.finalize())?;
     writer.write_u32::<LE>(data_len)?;
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From 0a4f6c1dd2e35720e491110088ed8425e93763ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 5/7] fix: a serialised trace which ends inside a record is an
 error

---
 lib/src/serialise_trace.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/serialise_trace.rs b/lib/src/serialise_trace.rs
index d45725f..b0fba58 100644
--- a/lib/src/serialise_trace.rs
+++ b/lib/src/serialise_trace.rs
@@ -66,11 +66,13 @@ pub fn read<R: Read>(mut data: R) -> Result<Vec<Trace>, Error> {
     let mut ret = Vec::new();
 
     loop {
-        let first = match data.read_u16::<LE>() {
-            Ok(first) => first,
+        // the trace may only end before the first byte of a record
+        let low = match data.read_u8() {
+            Ok(low) => low,
             Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => break,
             Err(e) => bail!(e),
         };
+        let first = u16::from_le_bytes([low, data.read_u8()?]);
 
         if 0 == first {
             ret.push(Trace::ActuallyLiteral);
-- 
2.43.0


From 499bbf050960da9a0811fc0c7a39afcfee62ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 6/7] fix: CircularBuffer::vec overflowed for a full buffer of
 65535 bytes

---
 lib/src/circles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/circles.rs b/lib/src/circles.rs
index 1fde300..66dac66 100644
--- a/lib/src/circles.rs
+++ b/lib/src/circles.rs
@@ -100,7 +100,7 @@ impl CircularBuffer {
         // TODO: optimise
 
         let mut ret = Vec::with_capacity(usize::from(self.valid_cap));
-        for pos in (1..1 + self.valid_cap).rev() {
+        for pos in (1..=self.valid_cap).rev() {
             ret.push(self.get_at_dist(pos));
         }
 
-- 
2.43.0


From 4da1e8393d99fac18bc3a37bf1e7cedcbe53db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 7/7] fix: CircularBuffer::default() had no capacity, so the
 first push panicked

---
 lib/src/circles.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/circles.rs b/lib/src/circles.rs
index 66dac66..979be77 100644
--- a/lib/src/circles.rs
+++ b/lib/src/circles.rs
@@ -3,13 +3,18 @@ use std::io::Write;
 use anyhow::ensure;
 use anyhow::Error;
 
-#[derive(Default)]
 pub struct CircularBuffer {
     data: Vec<u8>,
     idx: usize,
     valid_cap: u16,
 }
 
+impl Default for CircularBuffer {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
 impl CircularBuffer {
     pub fn new() -> Self {
         Self::with_capacity(32 * 1024)
-- 
2.43.0

