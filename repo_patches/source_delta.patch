From 8574e99f033ff95e6389bf1fe42fbcc0cf1a52a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 01/36] fix: range expressions such as e..0 underflowed when
 computing the transition offset

---
 src/mapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mapper.rs b/src/mapper.rs
index 83f6920..cc94d73 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -195,7 +195,7 @@ impl RangeMapper {
     pub fn trans_offset(&self) -> usize {
         match (self.start, self.end) {
             (StartAnchored(x), EndAnchored(_)) => x,
-            (EndAnchored(_), StartAnchored(x)) => x - 1,
+            (EndAnchored(_), StartAnchored(x)) => x.checked_sub(1).unwrap_or(usize::MAX),
             _ => usize::MAX,
         }
     }
-- 
2.43.0


From 2fcdf68e1dcc4123c21c36b2a47cd21b91bacead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 02/36] fix: StreamBuf::fill_buf counted already consumed bytes
 for the requested length

---
 src/streambuf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streambuf.rs b/src/streambuf.rs
index 401f28a..66a6957 100644
--- a/src/streambuf.rs
+++ b/src/streambuf.rs
@@ -92,7 +92,8 @@ impl StreamBuf {
 
         // calculate target buffer length
         // debug_assert!(self.target_len > self.len);
-        let target_len = std::cmp::max(self.target_len, request);
+        // (`buf` still holds the bytes before `pos`, which don't count for `request`)
+        let target_len = std::cmp::max(self.target_len, self.pos.saturating_add(request));
 
         // collect into the buffer without margin
         loop {
-- 
2.43.0


From ff322a8def2b01ff688ca944a3a8be27e7064fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 03/36] fix: CatStream asked its cache for less than the
 requested length

---
 src/byte/cat.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/byte/cat.rs b/src/byte/cat.rs
index 9b4e555..b268bb5 100644
--- a/src/byte/cat.rs
+++ b/src/byte/cat.rs
@@ -72,10 +72,10 @@ impl ByteStream for CatStream {
         }
 
         // try to extend at least one byte even if the cache already has enough bytes
-        let request = request.saturating_sub(self.cache.len());
-        let request = std::cmp::max(1, request);
+        let rem = request.saturating_sub(self.cache.len());
+        let rem = std::cmp::max(1, rem);
 
-        let (is_eof, bytes) = self.srcs[self.i].fill_buf(request)?;
+        let (is_eof, bytes) = self.srcs[self.i].fill_buf(rem)?;
         if is_eof || self.cache.len() > 0 {
             // path 1: the source remainder is not enough for the `request` so we try
             // the next source and accumulate them (including the one tried above)
-- 
2.43.0


From 9a68075043b5f1091f4b43cb8a4aa79179bac46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 04/36] fix: ZeroStream ignored the requested length

---
 src/byte/zero.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/byte/zero.rs b/src/byte/zero.rs
index e82acba..5d6bf1d 100644
--- a/src/byte/zero.rs
+++ b/src/byte/zero.rs
@@ -30,14 +30,14 @@ impl ZeroStream {
 }
 
 impl ByteStream for ZeroStream {
-    fn fill_buf(&mut self, _: usize) -> Result<(bool, usize)> {
+    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         if self.offset >= self.len {
             self.next_len = 0;
             return Ok((true, 0));
         }
 
-        // TODO: we need this
-        // self.next_len = std::cmp::max(self.next_len, request);
+        let rem = self.len - self.offset;
+        self.next_len = std::cmp::max(self.next_len, std::cmp::min(request, rem));
         self.buf.resize(self.next_len + MARGIN_SIZE, self.filler);
 
         let is_eof = self.len <= self.offset + self.next_len;
-- 
2.43.0


From 1e17d610cde4fbd6465ba1d32fcc3707bb6a842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 05/36] fix: keep slices shown once when a fixed-width stream
 has little left in its buffer

After a partial consume, ConstSegments counted the slices to lend without
the bytes it reserves at the tail, so slices already lent were withdrawn
until the next read; stages that remember how many they have scanned
(e.g. the map stage) then indexed past the end.
---
 src/segment/stride.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index f41f0d4..1abb013 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -319,8 +319,8 @@ impl ConstSegments {
             return self.update_lend_state(next_tail, len, self.segments.len());
         }
 
-        let n_extra = self.count_segments(next_tail.saturating_sub(len + self.pitch));
-        // let n_extra = std::cmp::min(self.segments.len(), n_extra);
+        let n_extra = self.count_segments((next_tail + self.tail_reserved_bytes).saturating_sub(len + self.pitch));
+        let n_extra = std::cmp::min(self.segments.len(), n_extra);
 
         let next_tail = next_tail - n_extra * self.pitch;
         let count = self.segments.len() - n_extra;
-- 
2.43.0


From 859b49fc30848ca064d9f71c562dd6eba3cbe1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 06/36] fix: a stream cut off after its last slice keeps every
 byte of its slices

RangeSlicer and FilterStream end the stream at the last slice once all
ranges are used up. With overlapping slices the one that starts last need
not be the one that ends last, so bytes of slices already handed over lay
beyond the announced end.
---
 src/segment/filter.rs | 2 +-
 src/segment/range.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index 7c7ddae..5bb8662 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -144,7 +144,7 @@ impl SegmentStream for FilterStream {
             .accumulate(self.src_scanned, self.src_consumed, is_eof, count, segments, &mut self.segments)?;
 
         let (is_eof, bytes) = if self.cutter.is_empty() {
-            let bytes = self.segments.last().map_or(self.max_consume, |x| x.tail());
+            let bytes = self.segments.iter().map(|x| x.tail()).fold(self.max_consume, std::cmp::max);
             (true, bytes)
         } else {
             (is_eof, bytes)
diff --git a/src/segment/range.rs b/src/segment/range.rs
index d6f9325..13d8145 100644
--- a/src/segment/range.rs
+++ b/src/segment/range.rs
@@ -125,7 +125,7 @@ impl SegmentStream for RangeSlicer {
         let max_consume = self.cutter.accumulate(self.src_consumed, is_eof, bytes, &mut self.segments)?;
 
         let (is_eof, bytes, max_consume) = if self.cutter.is_empty() {
-            let bytes = self.segments.last().map_or(self.max_consume, |x| x.tail());
+            let bytes = self.segments.iter().map(|x| x.tail()).fold(self.max_consume, std::cmp::max);
             let max_consume = std::cmp::min(bytes, max_consume);
             (true, bytes, max_consume)
         } else {
-- 
2.43.0


From 49a94be0b67c18f4b620f502b9106107612fddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:13 +0000
Subject: [PATCH 07/36] fix: hold extended slices until they are complete and
 in order

ExtendStream handed slices out as soon as their sources were read, even
when they reached beyond the bytes in the buffer (and were clipped
nowhere), and sorted them only within what one read had brought in.
---
 src/segment/extend.rs | 56 +++++++++++--------------------------------
 src/segment/mod.rs    | 46 +++++++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+), 42 deletions(-)

diff --git a/src/segment/extend.rs b/src/segment/extend.rs
index d883212..f3f8444 100644
--- a/src/segment/extend.rs
+++ b/src/segment/extend.rs
@@ -1,27 +1,9 @@
 // @file extend.rs
 // @author Hajime Suzuki
 
-use super::{Segment, SegmentStream};
+use super::{Segment, SegmentSorter, SegmentStream};
 use crate::mapper::SegmentMapper;
 use anyhow::{anyhow, Result};
-use std::cmp::Reverse;
-use std::collections::BinaryHeap;
-
-#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Copy, Clone)]
-struct SorterElement {
-    pos: usize,
-    len: usize,
-    original_end: usize,
-}
-
-impl From<SorterElement> for Segment {
-    fn from(elem: SorterElement) -> Segment {
-        Segment {
-            pos: elem.pos,
-            len: elem.len,
-        }
-    }
-}
 
 pub struct ExtendStream {
     src: Box<dyn SegmentStream>,
@@ -29,7 +11,7 @@ pub struct ExtendStream {
 
     // sorter; needed to reorder the segments when the start positions of the mapped
     // segments are derived from the end positions of the source segments
-    sorter: BinaryHeap<Reverse<SorterElement>>,
+    sorter: SegmentSorter,
 
     // #segments that are not consumed in the source but already accumulated to `acc`
     // note: not the count from the beginning of the source stream
@@ -56,7 +38,7 @@ impl ExtendStream {
         Ok(ExtendStream {
             src,
             segments: Vec::new(),
-            sorter: BinaryHeap::new(),
+            sorter: SegmentSorter::new(),
             src_scanned: 0,
             max_consume: 0,
             mappers,
@@ -70,14 +52,11 @@ impl ExtendStream {
         }
 
         let max_consume = max_consume as isize;
-        let phantom = [max_consume, max_consume + 1];
+        let phantom = [max_consume, max_consume];
 
-        let eval_phantom = |m: &SegmentMapper| {
-            let (start, end) = m.evaluate(&phantom, &phantom);
-            std::cmp::min(start, end)
-        };
-        let max_consume = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);
-        let max_consume = std::cmp::max(0, max_consume) as usize;
+        let eval_phantom = |m: &SegmentMapper| m.evaluate(&phantom, &phantom).0;
+        let next_start = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);
+        let max_consume = std::cmp::max(0, std::cmp::min(max_consume, next_start)) as usize;
 
         self.max_consume = max_consume;
     }
@@ -85,7 +64,7 @@ impl ExtendStream {
     fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize) {
         let tail = if is_eof { bytes } else { usize::MAX };
 
-        let map_segment = |m: &SegmentMapper, segment: &Segment| -> Option<SorterElement> {
+        let map_segment = |m: &SegmentMapper, segment: &Segment| -> Option<Segment> {
             let s = [segment.pos as isize, segment.tail() as isize];
             let (start, end) = m.evaluate(&s, &s);
 
@@ -94,10 +73,9 @@ impl ExtendStream {
 
             // record the segment
             if start < end {
-                Some(SorterElement {
+                Some(Segment {
                     pos: start,
                     len: end - start,
-                    original_end: segment.tail(),
                 })
             } else {
                 None
@@ -111,7 +89,7 @@ impl ExtendStream {
         for next in &segments[self.src_scanned..count] {
             for mapper in &self.mappers {
                 if let Some(s) = map_segment(mapper, next) {
-                    self.sorter.push(Reverse(s));
+                    self.sorter.push(s);
                 }
             }
         }
@@ -120,26 +98,19 @@ impl ExtendStream {
         self.src_scanned = count;
 
         // then sort the mapped segments into `self.segments` array
-        let tail = if is_eof { usize::MAX } else { bytes };
-        while let Some(&Reverse(s)) = self.sorter.peek() {
-            debug_assert!(s.original_end <= tail);
-
-            let s = self.sorter.pop().unwrap().0;
-            self.segments.push(s.into());
-        }
+        self.max_consume = self.sorter.pop_into(is_eof, bytes, self.max_consume, &mut self.segments);
     }
 }
 
 impl SegmentStream for ExtendStream {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
-        self.extend_segment_buf(is_eof, count, bytes);
 
         // update max_consume
         self.update_max_consume(is_eof, bytes, max_consume);
-        let max_consume = std::cmp::min(max_consume, self.max_consume);
+        self.extend_segment_buf(is_eof, count, bytes);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        Ok((is_eof, bytes, self.segments.len(), self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
@@ -161,6 +132,7 @@ impl SegmentStream for ExtendStream {
         for s in &mut self.segments {
             s.pos -= bytes;
         }
+        self.sorter.consume(bytes);
         self.max_consume -= bytes;
 
         Ok((bytes, from))
diff --git a/src/segment/mod.rs b/src/segment/mod.rs
index 9bd0c73..0f4dc89 100644
--- a/src/segment/mod.rs
+++ b/src/segment/mod.rs
@@ -25,6 +25,8 @@ pub use self::stride::{ConstSlicer, ConstSlicerParams};
 pub use self::walk::WalkSlicer;
 
 use anyhow::Result;
+use std::cmp::Reverse;
+use std::collections::BinaryHeap;
 use std::ops::Range;
 
 #[cfg(test)]
@@ -58,6 +60,50 @@ impl From<Range<usize>> for Segment {
     }
 }
 
+// reorders segments by (pos, tail), and holds each of them until it's certain that no preceding
+// segment comes and all the bytes it covers are in the buffer
+struct SegmentSorter {
+    heap: BinaryHeap<Reverse<(usize, usize)>>, // in absolute offsets
+    consumed: usize,
+}
+
+impl SegmentSorter {
+    fn new() -> Self {
+        SegmentSorter {
+            heap: BinaryHeap::new(),
+            consumed: 0,
+        }
+    }
+
+    fn push(&mut self, segment: Segment) {
+        let pos = self.consumed + segment.pos;
+        self.heap.push(Reverse((pos, pos + segment.len)));
+    }
+
+    // moves the segments that are ready to `v`, clipping them at the tail of the stream.
+    // `max_consume` is the minimum start position of the segments not pushed yet. returns that of
+    // the segments not moved yet.
+    fn pop_into(&mut self, is_eof: bool, bytes: usize, max_consume: usize, v: &mut Vec<Segment>) -> usize {
+        while let Some(&Reverse((pos, tail))) = self.heap.peek() {
+            let (pos, tail) = (pos - self.consumed, tail - self.consumed);
+            if !is_eof && (pos >= max_consume || tail > bytes) {
+                return std::cmp::min(pos, max_consume);
+            }
+
+            self.heap.pop();
+            let tail = std::cmp::min(tail, bytes);
+            if pos < tail {
+                v.push(Segment { pos, len: tail - pos });
+            }
+        }
+        max_consume
+    }
+
+    fn consume(&mut self, bytes: usize) {
+        self.consumed += bytes;
+    }
+}
+
 pub trait SegmentStream: Send {
     // chunked iterator
 
-- 
2.43.0


From f7f397f92608e757e298ac9db68672e4614a7752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:13 +0000
Subject: [PATCH 08/36] fix: hold inverted slices until they are complete and
 in order

BridgeStream handed slices out before their bytes were in the buffer and
did not sort those made by different expressions; it also let its user
consume up to the end of the source although its own limit was lower.
---
 src/segment/bridge.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/segment/bridge.rs b/src/segment/bridge.rs
index 58b0232..191a220 100644
--- a/src/segment/bridge.rs
+++ b/src/segment/bridge.rs
@@ -1,7 +1,7 @@
 // @file bridge.rs
 // @author Hajime Suzuki
 
-use super::{Segment, SegmentStream};
+use super::{Segment, SegmentSorter, SegmentStream};
 use crate::mapper::SegmentMapper;
 use anyhow::{anyhow, Result};
 
@@ -9,6 +9,9 @@ pub struct BridgeStream {
     src: Box<dyn SegmentStream>,
     segments: Vec<Segment>,
 
+    // sorter; needed to reorder the mapped gaps
+    sorter: SegmentSorter,
+
     // #segments that are not consumed in the source but already accumulated to `acc`
     // note: not the count from the beginning of the source stream
     src_scanned: usize,
@@ -37,6 +40,7 @@ impl BridgeStream {
         Ok(BridgeStream {
             src,
             segments: Vec::new(),
+            sorter: SegmentSorter::new(),
             src_scanned: 0,
             last_end: 0,
             max_consume: 0,
@@ -44,20 +48,19 @@ impl BridgeStream {
         })
     }
 
-    fn update_max_consume(&mut self, is_eof: bool, bytes: usize) {
+    fn update_max_consume(&mut self, is_eof: bool, bytes: usize, max_consume: usize) {
         if is_eof {
             self.max_consume = bytes;
             return;
         }
 
-        let phantom = [self.last_end, self.last_end + 1];
+        // the next gap starts at or after `last_end`, and ends at or after `max_consume`
+        let max_consume = max_consume as isize;
+        let phantom = [self.last_end, std::cmp::max(self.last_end, max_consume)];
 
-        let eval_phantom = |m: &SegmentMapper| {
-            let (start, end) = m.evaluate(&phantom, &phantom);
-            std::cmp::min(start, end)
-        };
-        let max_consume = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);
-        let max_consume = std::cmp::max(0, max_consume) as usize;
+        let eval_phantom = |m: &SegmentMapper| m.evaluate(&phantom, &phantom).0;
+        let next_start = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);
+        let max_consume = std::cmp::max(0, std::cmp::min(max_consume, next_start)) as usize;
 
         self.max_consume = max_consume;
     }
@@ -99,7 +102,7 @@ impl BridgeStream {
                 // map the gap then clip
                 for mapper in &self.mappers {
                     if let Some(s) = map_segment(mapper, &[prev_end, curr_start]) {
-                        self.segments.push(s);
+                        self.sorter.push(s);
                     }
                 }
                 prev_end = std::cmp::max(prev_end, curr_end);
@@ -112,7 +115,7 @@ impl BridgeStream {
 
             for mapper in &self.mappers {
                 if let Some(s) = map_segment(mapper, &[prev_end, bytes]) {
-                    self.segments.push(s);
+                    self.sorter.push(s);
                 }
             }
             prev_end = bytes;
@@ -130,10 +133,10 @@ impl SegmentStream for BridgeStream {
         self.extend_segment_buf(is_eof, count, bytes);
 
         // update max_consume
-        self.update_max_consume(is_eof, bytes);
-        let max_consume = std::cmp::min(max_consume, self.max_consume);
+        self.update_max_consume(is_eof, bytes, max_consume);
+        self.max_consume = self.sorter.pop_into(is_eof, bytes, self.max_consume, &mut self.segments);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        Ok((is_eof, bytes, self.segments.len(), self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
@@ -156,6 +159,7 @@ impl SegmentStream for BridgeStream {
             s.pos -= bytes;
         }
         self.last_end -= bytes as isize;
+        self.sorter.consume(bytes);
         self.max_consume -= bytes;
 
         Ok((bytes, from))
-- 
2.43.0


From 4cb46902f6c2854b8646f6e988f19a532484b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 09/36] fix: merging no slice leaves nothing to consume, not
 everything

With no slice accumulated and nothing consumable in the source,
MergeStream offered usize::MAX bytes to its user.
---
 src/segment/merge.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/segment/merge.rs b/src/segment/merge.rs
index e142127..da25974 100644
--- a/src/segment/merge.rs
+++ b/src/segment/merge.rs
@@ -94,6 +94,10 @@ impl Accumulator {
     }
 
     fn unwind(&mut self, bytes: usize) {
+        if self.count == 0 {
+            return;
+        }
+
         // update states
         self.start -= bytes;
         self.end -= bytes;
@@ -138,12 +142,9 @@ impl MergeStream {
             self.max_consume = bytes;
             return;
         }
-        if max_consume <= self.acc.furthest_margable_pos() {
-            self.max_consume = self.acc.start;
-            return;
-        }
 
-        self.max_consume = max_consume;
+        // `self.acc.start` is usize::MAX if the accumulator is empty
+        self.max_consume = std::cmp::min(max_consume, self.acc.start);
     }
 
     fn extend_segment_buf(&mut self, is_eof: bool, count: usize, max_consume: usize) {
-- 
2.43.0


From e7f4087cbe5783e1967fda497c84db005eabc372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 10/36] fix: --lines keeps slices that are equal to each other

FilterStream removed duplicates at the end of the stream although each
slice is already visited only once, so of two equal slices one was lost.
---
 src/segment/filter.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index 5bb8662..0653640 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -101,11 +101,6 @@ impl Cutter {
             }
         }
 
-        if is_eof {
-            v.sort_by_key(|x| (x.pos, x.len));
-            v.dedup();
-        }
-
         let scanned = std::cmp::max(scan_upto, scanned);
         Ok(scanned)
     }
-- 
2.43.0


From 60f9f61286850e85a6513ab1a00c5e2c0636c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 11/36] fix: reject numbers that don't fit, and read the unit
 prefix E

---
 src/eval.rs | 52 +++++++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 9b60d7b..2fced60 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -177,7 +177,7 @@ where
         prefix_base = 1024;
     };
 
-    Some(prefix_base.pow(n))
+    prefix_base.checked_pow(n)
 }
 
 fn parse_val<I>(first: char, it: &mut Peekable<I>) -> Option<Token>
@@ -205,52 +205,50 @@ where
         }
     };
 
-    let mut skip_mask = 1u64;
-    let mut push_skip_mask = |skip: bool| {
-        skip_mask = (skip_mask << 1) | (skip as u64);
-    };
+    // 'e' and 'E' are digits only in hexadecimals; they are the unit prefix otherwise
+    let parse_char = |c: char| if num_base != 16 && tolower(c) == 'e' { None } else { parse_char(c) };
 
-    let mut i = 0;
-    let mut digits = [0u8; 32];
-    let mut push_digit = |digit: i64| {
-        digits[i] = digit as u8;
-        i += 1;
+    let mut val = 0i64;
+    let mut prev_skip = true;
+    let mut push_char = |skip: bool, digit: i64| -> Option<()> {
+        if skip {
+            // filler character, '_', must not appear at the head, and must not appear contiguously.
+            if prev_skip {
+                return None;
+            }
+        } else {
+            if digit >= num_base {
+                return None;
+            }
+            val = val.checked_mul(num_base)?.checked_add(digit)?;
+        }
+        prev_skip = skip;
+        Some(())
     };
 
     let (skip, digit) = parse_char(first)?;
-    push_skip_mask(skip);
-    push_digit(digit);
+    push_char(skip, digit)?;
 
     while let Some((skip, digit)) = parse_char(*it.peek().unwrap_or(&'\n')) {
-        push_skip_mask(skip);
-        if !skip {
-            push_digit(digit);
-        }
+        push_char(skip, digit)?;
         it.next()?;
     }
 
-    // filler character, '_', must not appear at the head or tail, and must not appear contiguously.
-    if (skip_mask & ((skip_mask << 1) | 1)) != 0 {
+    // filler character must not appear at the tail either.
+    if prev_skip {
         return None;
     }
-    let mut val = 0;
-    for &digit in &digits[..i] {
-        if digit as i64 >= num_base {
-            return None;
-        }
-        val = val * num_base + digit as i64;
-    }
 
     let scaler = match it.peek() {
         Some(&x) if tolower(x) == 'k' => parse_prefix(1, it)?,
         Some(&x) if tolower(x) == 'm' => parse_prefix(2, it)?,
         Some(&x) if tolower(x) == 'g' => parse_prefix(3, it)?,
         Some(&x) if tolower(x) == 't' => parse_prefix(4, it)?,
-        Some(&x) if tolower(x) == 'e' => parse_prefix(5, it)?,
+        Some(&x) if tolower(x) == 'e' => parse_prefix(6, it)?,
         _ => 1,
     };
 
-    Some(Val(val * scaler))
+    Some(Val(val.checked_mul(scaler)?))
 }
 
 fn parse_var<I>(first: char, vars: Option<&HashMap<&[u8], VarAttr>>, it: &mut Peekable<I>) -> Option<Token>
-- 
2.43.0


From aad245df9394696555e0b4831f7a9a415ec72e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 12/36] fix: evaluate expressions as documented

The operator precedence of &, ^, |, and comparisons follows C, ! and ~ aren't
binary operators, division by zero is an error, and the simplification no longer
changes values (products and bitwise operations of variables, array elements,
chained comparisons, nested subtractions, and comparisons of distant values).
---
 src/eval.rs | 89 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 34 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 2fced60..c1a27d2 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -61,8 +61,14 @@ fn latter_precedes(former: &Token, latter: &Token) -> bool {
                 return !is_shift(former);
             } else if is_pow(former) || is_pow(latter) {
                 return is_pow(latter);
+            } else if is_cmp(former) || is_cmp(latter) {
+                return !is_cmp(former);
+            } else if former == '&' || latter == '&' {
+                return former != '&';
+            } else if former == '^' || latter == '^' {
+                return former != '^';
             }
-            debug_assert!(is_cmp(former) && is_cmp(latter));
+            debug_assert!(former == '|' && latter == '|');
             false
         }
         _ => true,
@@ -313,7 +319,7 @@ fn mark_prefices(tokens: &mut [Token]) -> Option<()> {
             // prefix followed by an expression
             (Prefix(_), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
             // binary op; lhs and rhs
-            (Val(_) | Var(_, _) | Paren(']' | ')'), Op(_)) => {}
+            (Val(_) | Var(_, _) | Paren(']' | ')'), Op(y)) if y != '!' && y != '~' => {}
             (Op(_), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
             // parentheses inner
             (Paren('(' | '['), Val(_) | Var(_, _) | VarArr(_) | Paren('(')) => {}
@@ -440,7 +446,7 @@ fn test_sort_into_rpn() {
 fn apply_prefix(c: char, x: i64) -> i64 {
     match c {
         '+' => x,
-        '-' => -x,
+        '-' => x.wrapping_neg(),
         '!' => !x,
         'G' => (x >= 0) as i64,
         _ => panic!("unknown op: {c:?}"),
@@ -449,13 +455,13 @@ fn apply_prefix(c: char, x: i64) -> i64 {
 
 fn apply_op(c: char, x: i64, y: i64) -> i64 {
     match c {
-        '+' => x + y,
-        '-' => x - y,
-        '#' => -(x + y),
-        '~' => -(x - y),
-        '*' => x * y,
-        '/' => x / y,
-        '%' => x % y,
+        '+' => x.wrapping_add(y),
+        '-' => x.wrapping_sub(y),
+        '#' => x.wrapping_add(y).wrapping_neg(),
+        '~' => y.wrapping_sub(x),
+        '*' => x.wrapping_mul(y),
+        '/' => x.wrapping_div(y), // y must not be zero
+        '%' => x.wrapping_rem(y), // y must not be zero
         '&' => x & y,
         '|' => x | y,
         '^' => x ^ y,
@@ -463,19 +469,19 @@ fn apply_op(c: char, x: i64, y: i64) -> i64 {
             if y >= 0 {
                 x << ((y as usize) & 0x3f)
             } else {
-                x >> ((-y as usize) & 0x3f)
+                x >> ((y.wrapping_neg() as usize) & 0x3f)
             }
         }
         '>' => {
             if y >= 0 {
                 x >> ((y as usize) & 0x3f)
             } else {
-                x << ((-y as usize) & 0x3f)
+                x << ((y.wrapping_neg() as usize) & 0x3f)
             }
         }
         '@' => {
             if y >= 0 {
-                x.pow(y as u32)
+                x.wrapping_pow(y as u32)
             } else {
                 0
             }
@@ -489,10 +495,8 @@ fn is_comm_1(op: char) -> bool {
 }
 
 fn is_comm_2(op1: char, op2: char) -> bool {
-    if is_addsub(op1) && is_addsub(op2) {
-        return true;
-    }
-    is_comm_1(op1) && op1 == op2
+    // multiplications and bitwise ops are not reordered, as they don't have the signed variants
+    is_addsub(op1) && is_addsub(op2)
 }
 
 // fn is_comm_3(op1: char, op2: char, op3: char) -> bool {
@@ -637,7 +641,7 @@ fn rotate_left(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
 
                 let (s1, op1) = peel_sign_from_op(op1);
                 let (s2, op2) = peel_sign_from_op(op2);
-                let (op1, op2) = (fuse_sign3(s2, op1, op2), fuse_sign_op(s1, fuse_sign2(s2, op1)));
+                let (op1, op2) = (fuse_sign2(s2, op1), fuse_sign_op(s1, fuse_sign3(s2, op1, op2)));
                 save_and_flip(tokens, root - rlhs, Op(op1), lhs - rlhs);
                 save_and_flip(tokens, root, Op(op2), rlhs);
 
@@ -686,8 +690,8 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 return Some((true, root));
             }
             if let (Var(x, xc), Var(y, yc)) = (tokens[lhs - 1].0, y) {
-                if x == y {
-                    // squash the two nodes if they have the same variable id
+                if x == y && tokens[lhs - 1].1 == 0 && tokens[root - 1].1 == 0 {
+                    // squash the two nodes if they have the same (non-array) variable id
                     tokens[lhs - 1].0 = Var(x, apply_op(op2, xc, yc));
                     save_and_flip(tokens, lhs, Op(op1), 2);
                     return Some((false, lhs));
@@ -705,8 +709,8 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 return Some((false, root));
             }
             if let (Var(x, xc), Var(y, yc)) = (x, y) {
-                if x == y {
-                    // squash the two nodes if they have the same variable id
+                if x == y && is_addsub(op) && tokens[lhs].1 == 0 && tokens[root - 1].1 == 0 {
+                    // squash the two nodes if they have the same (non-array) variable id
                     tokens[lhs].0 = Var(x, apply_op(op, xc, yc));
                     return Some((false, lhs));
                 }
@@ -729,6 +733,8 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
 
     let lhs = root - tokens[root].1;
     match (tokens[lhs].0, tokens[root - 1].0, tokens[root].0) {
+        // leave divisions by zero to the evaluation
+        (Val(_), Val(0), Op('/' | '%')) => Some(root),
         // 2 + 3 => 5 (leaf)
         (Val(x), Val(y), Op(op)) => {
             tokens[lhs].0 = Val(apply_op(op, x, y));
@@ -736,7 +742,7 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
         }
         // x 2 * => x(2)
         (Var(id, c), Val(x), Op('*')) => {
-            tokens[lhs].0 = Var(id, c * x);
+            tokens[lhs].0 = Var(id, apply_op('*', c, x));
             Some(lhs)
         }
         // (x + 2) + 3 => x + 5
@@ -787,7 +793,7 @@ fn remove_identity(tokens: &mut [(Token, usize)]) -> Option<usize> {
             tokens[lhs].0 = Var(id, apply_prefix('-', c));
             Some(lhs)
         }
-        ((Var(_, 0), _), x, Op(op)) if is_addsub(op) => {
+        ((Var(_, 0), 0), x, Op(op)) if is_addsub(op) && tokens[root - 1].1 == 0 => {
             // this arm applies to lhs, the special case for the leftmost subtree
             let (s, op) = peel_sign_from_op(op);
             let op = fuse_sign2(s, op);
@@ -853,7 +859,7 @@ fn remove_prefix_unary(tokens: &mut [(Token, usize)]) -> Option<usize> {
 
     match (tokens[lhs], tokens[root].0) {
         ((Prefix(s1), llhs), Prefix(s2)) => {
-            if s1 == s2 {
+            if s1 == s2 && s1 != 'G' {
                 // x ! ! => x
                 remove_prefix_unary(&mut tokens[..lhs - llhs + 1])
             } else if is_addsub(s1) && is_addsub(s2) {
@@ -909,14 +915,14 @@ fn remove_prefix_binary(tokens: &mut [(Token, usize)]) -> Option<usize> {
     match (tokens[lhs], tokens[root - 1].0, tokens[root].0) {
         (x, y, Op(op)) if is_addsub(op) => {
             let (s1, lhs, root) = match x {
-                (Prefix(s1), llhs) => {
+                (Prefix(s1 @ ('+' | '-')), llhs) => {
                     tokens[lhs - llhs + 1..].rotate_left(llhs);
                     (s1, lhs - llhs, root - llhs)
                 }
                 _ => ('+', lhs, root),
             };
             let (s2, root) = match y {
-                Prefix(s2) => (s2, root - 1),
+                Prefix(s2 @ ('+' | '-')) => (s2, root - 1),
                 _ => ('+', root),
             };
             save_and_flip(tokens, root, Op(gather_sign2(s1, op, s2)), root - lhs);
@@ -1157,28 +1163,43 @@ where
 {
     let starved = "stack starved in evaluating expression (internal error)";
 
+    // additions and subtractions are done in the wider type, as comparisons are the
+    // sign of the differences, which don't always fit in 64 bits
     let mut get = get;
-    let mut stack = Vec::new();
+    let mut stack: Vec<i128> = Vec::new();
     for &token in tokens {
         match token {
             (Val(val), _) => {
-                stack.push(val);
+                stack.push(val as i128);
             }
             (Prefix(op), _) => {
                 let x = stack.last_mut().context(starved)?;
-                *x = apply_prefix(op, *x);
+                *x = match op {
+                    '-' => x.wrapping_neg(),
+                    'G' => (*x >= 0) as i128,
+                    _ => apply_prefix(op, *x as i64) as i128,
+                };
             }
             (Op(op), _) => {
                 let y = stack.pop().context(starved)?;
                 let x = stack.last_mut().context(starved)?;
-                *x = apply_op(op, *x, y);
+                if y as i64 == 0 && (op == '/' || op == '%') {
+                    return Err(anyhow!("division by zero"));
+                }
+                *x = match op {
+                    '+' => x.wrapping_add(y),
+                    '-' => x.wrapping_sub(y),
+                    '#' => x.wrapping_add(y).wrapping_neg(),
+                    '~' => y.wrapping_sub(*x),
+                    _ => apply_op(op, *x as i64, y as i64) as i128,
+                };
             }
             (Var(id, c), lhs) => {
                 if lhs == 0 {
-                    stack.push(c * get(id, 0));
+                    stack.push((c as i128) * (get(id, 0) as i128));
                 } else {
                     let x = stack.last_mut().context(starved)?;
-                    *x = c * get(id, *x);
+                    *x = (c as i128) * (get(id, *x as i64) as i128);
                 }
             }
             _ => {
@@ -1193,7 +1214,7 @@ where
 
     assert!(stack.len() == 1);
     let result = stack.pop().context(starved)?;
-    Ok(result)
+    Ok(result as i64)
 }
 
 #[cfg(test)]
-- 
2.43.0


From c882c0dcd176f1880a01beb7c820e326973a1428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 13/36] fix: matches of --find do not overlap across buffers

---
 src/segment/exact.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/segment/exact.rs b/src/segment/exact.rs
index c6bbaca..3032325 100644
--- a/src/segment/exact.rs
+++ b/src/segment/exact.rs
@@ -51,14 +51,21 @@ impl SegmentStream for ExactMatchSlicer {
         let stream = self.src.as_slice();
         let len = self.pattern.len();
 
+        let mut scanned = self.scanned;
         for pos in memchr::memmem::find_iter(&stream[self.scanned..bytes], &self.pattern) {
             self.segments.push(Segment {
                 pos: self.scanned + pos,
                 len,
             });
+            scanned = self.scanned + pos + len;
         }
 
-        self.scanned = if is_eof { bytes } else { bytes - self.pattern.len() + 1 };
+        // the next occurrence does not overlap with the last one
+        self.scanned = if is_eof {
+            bytes
+        } else {
+            std::cmp::max(scanned, (bytes + 1).saturating_sub(self.pattern.len()))
+        };
         Ok((is_eof, bytes, self.segments.len(), self.scanned))
     }
 
-- 
2.43.0


From 444fe2e4ee0c485a78fde33b4ec4b91afbefe098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 14/36] fix: --walk stops with an error where it panicked or
 hung, and clips at the end

An expression without a positive value is an error instead of a panic, and the
last chunk is clipped even if the buffer was extended on evaluating it.
---
 src/segment/walk.rs | 91 +++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 45 deletions(-)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index d089694..aa63a9b 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -5,7 +5,7 @@ use super::{Segment, SegmentStream};
 use crate::byte::ByteStream;
 use crate::eval::{Rpn, VarAttr};
 use crate::params::BLOCK_SIZE;
-use anyhow::Result;
+use anyhow::{anyhow, Context, Result};
 use std::collections::HashMap;
 
 struct SpanFetcher {
@@ -31,19 +31,19 @@ impl SpanFetcher {
         Ok(SpanFetcher { expr, rpn })
     }
 
-    fn get_array_element(skip: usize, elem_size: usize, index: i64, src: &mut Box<dyn ByteStream>) -> i64 {
+    fn get_array_element(skip: usize, elem_size: usize, index: i64, src: &mut Box<dyn ByteStream>) -> Result<i64> {
         debug_assert!((1..=8).contains(&elem_size) && elem_size.is_power_of_two());
 
         if index < 0 {
-            panic!("slice index being negative (got: {index}).");
+            return Err(anyhow!("slice index being negative (got: {index})."));
         }
 
-        let offset = skip + index as usize * elem_size;
-        let min_fill_bytes = offset + elem_size;
+        let offset = (index as usize).saturating_mul(elem_size).saturating_add(skip);
+        let min_fill_bytes = offset.saturating_add(elem_size);
 
-        let (_, bytes) = src.fill_buf(min_fill_bytes).expect("failed to feed the input stream");
+        let (_, bytes) = src.fill_buf(min_fill_bytes)?;
         if bytes < min_fill_bytes {
-            return 0;
+            return Ok(0);
         }
 
         // always in the little endian for now
@@ -54,25 +54,32 @@ impl SpanFetcher {
         // leave the lower typesize bits (8 bits for "b", 16 bits for "h", ...)
         let val = i64::from_le_bytes(stream.try_into().unwrap());
         let shift = 64 - 8 * elem_size;
-        (val << shift) >> shift
+        Ok((val << shift) >> shift)
     }
 
-    fn get_next_span(&self, skip: usize, src: &mut Box<dyn ByteStream>) -> usize {
-        let getter = |id: usize, val: i64| -> i64 { Self::get_array_element(skip, id, val, src) };
+    fn get_next_span(&self, skip: usize, src: &mut Box<dyn ByteStream>) -> Result<usize> {
+        // keep the first error as the evaluator doesn't take it
+        let mut err = None;
+        let getter = |id: usize, val: i64| -> i64 {
+            Self::get_array_element(skip, id, val, src).unwrap_or_else(|e| {
+                err.get_or_insert(e);
+                0
+            })
+        };
 
         let val = self.rpn.evaluate(getter);
-        if val.is_err() {
-            panic!("failed on evaluating expression: {:?}", &self.expr);
-        }
+        let val = err
+            .map_or(val, Err)
+            .with_context(|| format!("failed on evaluating expression: {:?}", &self.expr))?;
 
-        let val = val.unwrap();
         if val <= 0 {
-            panic!(
+            return Err(anyhow!(
                 "slice span being non-positive on evaluating expression: {:?} (got: {}).",
-                &self.expr, val
-            );
+                &self.expr,
+                val
+            ));
         }
-        val as usize
+        Ok(val as usize)
     }
 }
 
@@ -105,22 +112,23 @@ impl WalkSlicer {
         })
     }
 
-    fn calc_next_chunk_len(&mut self) -> usize {
-        let mut chunk_len = 0;
+    fn calc_next_chunk_len(&mut self) -> Result<usize> {
+        let mut chunk_len: usize = 0;
         for (i, f) in self.fetchers.iter().enumerate() {
-            let span = f.get_next_span(self.pos, &mut self.src);
+            let span = f.get_next_span(self.pos, &mut self.src)?;
             self.spans[i] = span;
 
-            chunk_len += span;
+            chunk_len = chunk_len.saturating_add(span);
         }
-        chunk_len
+        Ok(chunk_len)
     }
 
-    fn extend_segment_buf(&mut self, chunk_len: usize) -> Result<(bool, usize)> {
-        let (is_eof, bytes) = self.src.fill_buf(chunk_len)?;
-        if is_eof && bytes < chunk_len {
+    // `bytes` must be enough for the spans unless the source is at EOF
+    fn extend_segment_buf(&mut self, bytes: usize, chunk_len: usize) {
+        let remaining = bytes - self.pos;
+        if remaining < chunk_len {
             // TODO: use logger
-            eprintln!("chunk clipped (request = {chunk_len}, remaining bytes = {bytes})");
+            eprintln!("chunk clipped (request = {chunk_len}, remaining bytes = {remaining})");
         }
 
         for span in &self.spans {
@@ -128,40 +136,33 @@ impl WalkSlicer {
                 break;
             }
 
-            let len = std::cmp::min(self.pos + span, bytes) - self.pos;
+            let len = std::cmp::min(*span, bytes - self.pos);
             if len < *span {
                 eprintln!("slice clipped (span = {span}, remaining bytes = {len}).");
             }
 
             self.segments.push(Segment { pos: self.pos, len });
-            self.pos += span;
+            self.pos += len;
         }
-        Ok((is_eof, bytes))
     }
 }
 
 impl SegmentStream for WalkSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
         let request = std::cmp::max(BLOCK_SIZE, 2 * self.pos);
-        let (is_eof, bytes) = self.src.fill_buf(request)?;
+        let (mut is_eof, mut bytes) = self.src.fill_buf(request)?;
 
-        if is_eof && self.pos >= bytes {
-            let count = self.segments.len();
-            let max_consume = std::cmp::min(bytes, self.pos);
-            return Ok((is_eof, bytes, count, max_consume));
-        }
+        while self.pos < bytes {
+            let chunk_len = self.calc_next_chunk_len()?;
 
-        let (is_eof, bytes) = loop {
-            let chunk_len = self.calc_next_chunk_len();
-            if self.pos + chunk_len > bytes {
-                break (is_eof, bytes);
+            // the buffer may have been extended on evaluating the expressions
+            (is_eof, bytes) = self.src.fill_buf(request)?;
+            if !is_eof && chunk_len > bytes - self.pos {
+                break;
             }
 
-            let (is_eof, bytes) = self.extend_segment_buf(chunk_len)?;
-            if self.pos >= bytes {
-                break (is_eof, bytes);
-            }
-        };
+            self.extend_segment_buf(bytes, chunk_len);
+        }
 
         let count = self.segments.len();
         let max_consume = std::cmp::min(bytes, self.pos);
-- 
2.43.0


From 5ffdb801d77eb1ccdba85048a48ec0ee26678858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 15/36] fix: --guide yields every record once and in its place

Records that start in a later block were read too early, those at or after the
end of the stream underflowed, and records out of order are an error.
---
 src/segment/guided.rs | 62 ++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/segment/guided.rs b/src/segment/guided.rs
index 35722b0..a289fa0 100644
--- a/src/segment/guided.rs
+++ b/src/segment/guided.rs
@@ -6,14 +6,15 @@ use crate::byte::ByteStream;
 use crate::params::BLOCK_SIZE;
 use crate::text::parser::TextParser;
 use crate::text::InoutFormat;
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 
 pub struct GuidedSlicer {
     src: Box<dyn ByteStream>,
     guide: TextParser,
     buf: Vec<u8>,
     segments: Vec<Segment>,
-    guide_consumed: usize,
+    next: Option<(usize, usize)>, // record that has not been sliced out yet; (offset, span)
+    guide_eof: bool,
     src_consumed: usize,
     max_consume: usize,
 }
@@ -25,47 +26,50 @@ impl GuidedSlicer {
             guide: TextParser::new(guide, &InoutFormat::from_str("xxx").unwrap()),
             buf: Vec::new(),
             segments: Vec::new(),
-            guide_consumed: 0,
+            next: None,
+            guide_eof: false,
             src_consumed: 0,
             max_consume: 0,
         }
     }
 
-    fn extend_segment_buf(&mut self, is_eof: bool, bytes: usize) -> Result<()> {
-        // all existing segments must be covered as we requested longer
-        debug_assert!(self.segments.last().map_or(0, |x| x.tail()) <= bytes);
+    // reads the next guide record, without removing it
+    fn peek_guide(&mut self) -> Result<Option<(usize, usize)>> {
+        if self.next.is_none() && !self.guide_eof {
+            self.buf.clear();
+            self.next = self.guide.read_line(&mut self.buf)?;
+            self.guide_eof = self.next.is_none();
+        }
+        Ok(self.next)
+    }
 
+    fn extend_segment_buf(&mut self, is_eof: bool, bytes: usize) -> Result<()> {
         // first update max_consume to the end of the current chunk of the stream
         // (may be shortened in the loop)
         self.max_consume = bytes;
 
         let tail = self.src_consumed + bytes; // in absolute offset
-        loop {
-            // read the next guide to the buffer
-            self.buf.clear();
-
-            let ret = self.guide.read_line(&mut self.buf)?;
-            if ret.is_none() {
-                // the guide stream reached EOF
-                self.guide_consumed = self.segments.len();
+        while let Some((offset, span)) = self.peek_guide()? {
+            let prev = self.segments.last().map_or(0, |x| x.pos);
+            if offset < self.src_consumed + prev {
+                return Err(anyhow!("guide records must be sorted by offset (offset = {offset:#x})"));
+            }
+            if offset >= tail {
+                // starts after the current chunk
                 break;
             }
-            let (offset, span) = ret.unwrap();
 
-            // slice the stream out by the guide
             let pos = offset - self.src_consumed;
-            let len = if is_eof {
-                std::cmp::min(offset + span, tail) - offset
-            } else {
-                span
-            };
-            self.segments.push(Segment { pos, len });
-
-            if offset + span > tail {
+            if !is_eof && span > tail - offset {
+                // need to wait for the rest of the slice
                 self.max_consume = std::cmp::min(self.max_consume, pos);
-                self.guide_consumed = self.segments.len() - 1; // do not expose the last segment
                 break;
             }
+
+            // slice the stream out by the guide
+            let len = std::cmp::min(span, tail - offset);
+            self.segments.push(Segment { pos, len });
+            self.next = None;
         }
         Ok(())
     }
@@ -73,17 +77,16 @@ impl GuidedSlicer {
 
 impl SegmentStream for GuidedSlicer {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
-        let request = std::cmp::max(BLOCK_SIZE, self.segments.last().map_or(0, |x| x.tail()));
-        let (is_eof, bytes) = self.src.fill_buf(request)?;
+        let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;
 
         self.extend_segment_buf(is_eof, bytes)?;
 
-        Ok((is_eof, bytes, self.guide_consumed, self.max_consume))
+        Ok((is_eof, bytes, self.segments.len(), self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let stream = self.src.as_slice();
-        (stream, &self.segments[..self.guide_consumed])
+        (stream, &self.segments)
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
@@ -99,7 +102,6 @@ impl SegmentStream for GuidedSlicer {
         for s in &mut self.segments {
             s.pos -= bytes;
         }
-        self.guide_consumed -= from;
         self.src_consumed += bytes;
         self.max_consume -= bytes;
 
-- 
2.43.0


From 95c01c12195f43fc8ec390b12f7e6608be2da2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 16/36] fix: --regex scans every slice exactly once and keeps
 matches in order

---
 src/segment/regex.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/segment/regex.rs b/src/segment/regex.rs
index b8afac7..02090a7 100644
--- a/src/segment/regex.rs
+++ b/src/segment/regex.rs
@@ -2,14 +2,20 @@
 // @author Hajime Suzuki
 // @brief regex slicer
 
-use super::{Segment, SegmentStream};
+use super::{Segment, SegmentSorter, SegmentStream};
 use anyhow::Result;
 use regex::bytes::{Match, Regex};
 
 pub struct RegexSlicer {
     src: Box<dyn SegmentStream>,
     matches: Vec<Segment>,
-    scanned: usize,
+
+    // sorter; needed to reorder the matches in overlapping segments
+    sorter: SegmentSorter,
+
+    // #segments that are not consumed in the source but already scanned
+    src_scanned: usize,
+    max_consume: usize,
     re: Regex,
 }
 
@@ -21,7 +27,9 @@ impl RegexSlicer {
         Ok(RegexSlicer {
             src,
             matches,
-            scanned: 0,
+            sorter: SegmentSorter::new(),
+            src_scanned: 0,
+            max_consume: 0,
             re,
         })
     }
@@ -39,18 +47,17 @@ impl SegmentStream for RegexSlicer {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
 
         let (stream, segments) = self.src.as_slices();
-        for s in &segments[..count] {
-            if s.pos < self.scanned {
-                continue;
+        for s in &segments[self.src_scanned..count] {
+            for m in self.re.find_iter(&stream[s.as_range()]) {
+                self.sorter.push(to_segment(m, s.pos));
             }
-
-            self.matches
-                .extend(self.re.find_iter(&stream[s.as_range()]).map(|x| to_segment(x, s.pos)));
         }
+        self.src_scanned = count;
 
-        self.scanned += bytes;
+        let max_consume = if is_eof { bytes } else { max_consume };
+        self.max_consume = self.sorter.pop_into(is_eof, bytes, max_consume, &mut self.matches);
 
-        Ok((is_eof, bytes, self.matches.len(), max_consume))
+        Ok((is_eof, bytes, self.matches.len(), self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
@@ -59,10 +66,9 @@ impl SegmentStream for RegexSlicer {
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
-        let (bytes, _) = self.src.consume(bytes)?;
-        if bytes == 0 {
-            return Ok((0, 0));
-        }
+        let bytes = std::cmp::min(bytes, self.max_consume);
+        let (bytes, src_count) = self.src.consume(bytes)?;
+        self.src_scanned -= src_count;
 
         // determine how many bytes to consume...
         let from = self.matches.partition_point(|x| x.pos < bytes);
@@ -75,7 +81,8 @@ impl SegmentStream for RegexSlicer {
             m.pos -= bytes;
         }
 
-        self.scanned -= bytes;
+        self.sorter.consume(bytes);
+        self.max_consume -= bytes;
 
         Ok((bytes, from))
     }
-- 
2.43.0


From c7bcc692a968c2e02bdae6cf0f89db5b6791ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 17/36] fix: clamp offsets of ranges that go beyond the largest
 position

An offset such as e+9223372036854775807 overflowed on adding it to the
position of the end.
---
 src/mapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mapper.rs b/src/mapper.rs
index cc94d73..77c4f27 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -48,7 +48,7 @@ impl SegmentMapperAnchor {
     }
 
     pub fn evaluate(&self, input: &[isize; 2]) -> isize {
-        input[self.anchor] + self.offset
+        input[self.anchor].saturating_add(self.offset)
     }
 }
 
-- 
2.43.0


From 6e62346af1cb04836704be51bdd59a512041bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 18/36] fix: refuse a slice width of zero also with a range

--width 0,S..E panicked or hung as only the empty default range was refused.
---
 src/segment/stride.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index 1abb013..1d20846 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -17,6 +17,9 @@ pub struct ConstSlicerParams {
 
 impl ConstSlicerParams {
     pub fn from_raw(pitch: usize, expr: Option<&str>) -> Result<Self> {
+        if pitch == 0 {
+            return Err(anyhow!("slice width must be positive"));
+        }
         let pitch = pitch as isize;
 
         // parse mapper (if it results in an empty slice it's an error)
-- 
2.43.0


From bfe4fd4b7cb5e34257fa159314772f7b545091b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:37 +0000
Subject: [PATCH 19/36] fix: text lines longer than the read block are parsed
 as a whole

A line that does not fit in the block was parsed piece by piece, which lost
or misread the column at the end of a piece: a dump made with --width over
about 700 kB could not be read back by --in-format, --patch and --guide.
---
 src/text/parser/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 2f36c5d..6e3f870 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -469,8 +469,21 @@ impl TextParser {
         self.read_line_continued(offset, span, is_in_tail, buf)
     }
 
+    // fills the buffer with the whole line, otherwise a column (such as "xx ") or the delimiter
+    // of a long line would be split at the end of the buffer
+    fn fill_line(&mut self) -> Result<(bool, usize)> {
+        let (mut is_eof, mut len) = self.src.fill_buf(BLOCK_SIZE)?;
+        let mut scanned = 0;
+        while !is_eof && !self.src.as_slice()[scanned..len].contains(&b'\n') {
+            scanned = len;
+            self.src.consume(0);
+            (is_eof, len) = self.src.fill_buf(len + 1)?;
+        }
+        Ok((is_eof, len))
+    }
+
     pub fn read_line(&mut self, buf: &mut Vec<u8>) -> Result<Option<(usize, usize)>> {
-        let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
+        let (is_eof, len) = self.fill_line()?;
         if is_eof && len == 0 {
             return Ok(None);
         }
-- 
2.43.0


From 1ab7c911f8057f43588d70a36a526080b6bc5746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 20/36] fix: a malformed first record is reported as an error

The first record of --in-format x and --patch was read in the constructor,
which panicked when it could not be parsed.
---
 src/byte/patch.rs | 13 +++++++++----
 src/byte/text.rs  | 14 +++++++++-----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/byte/patch.rs b/src/byte/patch.rs
index 6fe8beb..917878f 100644
--- a/src/byte/patch.rs
+++ b/src/byte/patch.rs
@@ -64,6 +64,7 @@ impl PatchFeeder {
 pub struct PatchStream {
     src: Box<dyn ByteStream>,
     patch: PatchFeeder,
+    is_head: bool,
     buf: StreamBuf,
     skip: usize,
     offset: usize,
@@ -71,12 +72,10 @@ pub struct PatchStream {
 
 impl PatchStream {
     pub fn new(src: Box<dyn ByteStream>, patch: Box<dyn ByteStream>, format: &InoutFormat) -> Self {
-        let mut patch = PatchFeeder::new(patch, format);
-        patch.fill_buf().unwrap();
-
         PatchStream {
             src,
-            patch,
+            patch: PatchFeeder::new(patch, format),
+            is_head: true,
             buf: StreamBuf::new(),
             skip: 0,
             offset: 0,
@@ -87,6 +86,12 @@ impl PatchStream {
 impl ByteStream for PatchStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         self.buf.fill_buf(request, |_, buf| {
+            if self.is_head {
+                // read the first patch
+                self.patch.fill_buf()?;
+                self.is_head = false;
+            }
+
             while self.skip > 0 {
                 let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;
                 if is_eof && len == 0 {
diff --git a/src/byte/text.rs b/src/byte/text.rs
index ec58818..cb01707 100644
--- a/src/byte/text.rs
+++ b/src/byte/text.rs
@@ -81,18 +81,16 @@ impl TextFeeder {
 
 pub struct TextStream {
     line: TextFeeder,
+    is_head: bool,
     buf: StreamBuf,
     offset: usize,
 }
 
 impl TextStream {
     pub fn new(src: Box<dyn ByteStream>, align: usize, filler: u8, format: &InoutFormat) -> Self {
-        // read the first line
-        let mut line = TextFeeder::new(src, format);
-        line.fill_buf().unwrap();
-
         TextStream {
-            line,
+            line: TextFeeder::new(src, format),
+            is_head: true,
             buf: StreamBuf::new_with_align(align, filler),
             offset: 0,
         }
@@ -103,6 +101,12 @@ impl ByteStream for TextStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         let filler = self.buf.filler();
         self.buf.fill_buf(request, |_, buf| {
+            if self.is_head {
+                // read the first line
+                self.line.fill_buf()?;
+                self.is_head = false;
+            }
+
             if self.line.offset == usize::MAX {
                 // it has already reached EOF
                 return Ok(true);
-- 
2.43.0


From 6839711f9dbfdfcef5d80d7f01a8e54ead319a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:26 +0000
Subject: [PATCH 21/36] fix: a single digit at the end of an array is an error

It was silently dropped.
---
 src/text/parser/naive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/text/parser/naive.rs b/src/text/parser/naive.rs
index 7f76f83..25956d6 100644
--- a/src/text/parser/naive.rs
+++ b/src/text/parser/naive.rs
@@ -59,12 +59,12 @@ pub fn parse_hex_body_naive(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opt
 
     let mut n_elems = 0;
     for (i, x) in src[..parse_len.min(scan_len)].chunks(3).enumerate() {
-        if x.len() < 2 || x[0] == b' ' && x[1] == b' ' {
+        if x[0] == b' ' && (x.len() < 2 || x[1] == b' ') {
             break;
         }
 
-        let is_col_hex = is_valid_hex(x[0]) && is_valid_hex(x[1]);
-        let is_sep_valid = x.len() == 2 || x[2] == b' ';
+        let is_col_hex = x.len() >= 2 && is_valid_hex(x[0]) && is_valid_hex(x[1]);
+        let is_sep_valid = x.len() <= 2 || x[2] == b' ';
         if !(is_col_hex && is_sep_valid) {
             return None;
         }
-- 
2.43.0


From 89481043283b28c416258825434c77b50cf12830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 22/36] fix: decimal fields may end the line, and too large
 ones are an error

'OFFSET LENGTH' without an array is a valid record, but was rejected in the
decimal format, and a number of 2^64 or more wrapped around.
---
 src/text/parser/naive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/text/parser/naive.rs b/src/text/parser/naive.rs
index 25956d6..b9a4112 100644
--- a/src/text/parser/naive.rs
+++ b/src/text/parser/naive.rs
@@ -79,9 +79,9 @@ pub fn parse_hex_body_naive(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opt
 pub fn parse_dec_single(src: &[u8]) -> Option<(u64, usize)> {
     assert!(src.len() >= 16);
 
-    let mut n = 0;
+    let mut n = 0u64;
     for (i, &x) in src.iter().enumerate() {
-        if x == b' ' {
+        if x == b' ' || x == b'\n' {
             return Some((n, i));
         }
 
@@ -89,7 +89,7 @@ pub fn parse_dec_single(src: &[u8]) -> Option<(u64, usize)> {
             return None;
         }
 
-        n = n * 10 + (x - b'0') as u64;
+        n = n.checked_mul(10)?.checked_add((x - b'0') as u64)?;
     }
     None
 }
-- 
2.43.0


From 409ac7c5a82cee8bd900cb198184ca2d26ea8bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 23/36] fix: huge decimal offsets and lengths don't overflow
 --in-format

---
 src/byte/text.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/byte/text.rs b/src/byte/text.rs
index cb01707..a69823b 100644
--- a/src/byte/text.rs
+++ b/src/byte/text.rs
@@ -112,7 +112,7 @@ impl ByteStream for TextStream {
                 return Ok(true);
             }
 
-            let next_offset = std::cmp::min(self.offset + BLOCK_SIZE, self.line.offset);
+            let next_offset = std::cmp::min(self.offset.saturating_add(BLOCK_SIZE), self.line.offset);
             let fwd_len = next_offset - self.offset;
             self.offset += fwd_len;
 
@@ -127,7 +127,7 @@ impl ByteStream for TextStream {
 
             // patch
             buf.extend_from_slice(&self.line.buf);
-            self.offset += self.line.span;
+            self.offset = self.offset.saturating_add(self.line.span);
 
             let (is_eof, next_offset) = self.line.fill_buf()?;
             if !is_eof && self.offset > next_offset {
-- 
2.43.0


From 4eb740997787dc40b31dc8ce381506d8610e6d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 24/36] fix: --cat and --zip don't pad the text of --in-format

With --in-format x or nnx the text itself was padded to the word size, and
the padding was rejected as a malformed record.
---
 src/pipeline.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 00658e7..f5e5275 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -330,7 +330,9 @@ impl Pipeline {
     }
 
     fn build_parser(&self, source: Box<dyn Read + Send>) -> Box<dyn ByteStream> {
-        let source = Box::new(RawStream::new(source, self.word_size, self.filler));
+        // it's the parsed stream that is aligned to the word, not the text
+        let align = if self.in_format.is_binary() { self.word_size } else { 1 };
+        let source = Box::new(RawStream::new(source, align, self.filler));
         if self.in_format.is_binary() {
             source
         } else if self.in_format.is_gapless() {
-- 
2.43.0


From 9332031a95a51e04dd9da9c75be6e9b7e362f8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 25/36] fix: the AVX2 parser checks arrays as the portable one
 does

The separator behind the last column and the one at the 48-byte boundary
were not checked, a colon passed for a blank, columns after a blank one
were read, and a single trailing digit was taken for the end of the line.
---
 src/text/parser/x86_64.rs | 41 ++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/text/parser/x86_64.rs b/src/text/parser/x86_64.rs
index 253a2e8..be22533 100644
--- a/src/text/parser/x86_64.rs
+++ b/src/text/parser/x86_64.rs
@@ -84,8 +84,12 @@ pub fn parse_hex_single_avx2(src: &[u8]) -> Option<(u64, usize)> {
     unsafe { parse_hex_single_impl(_mm_loadu_si128(src.as_ptr() as *const __m128i)) }
 }
 
-unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, elems: usize, v: &mut [u8]) -> Option<usize> {
-    debug_assert!(elems <= 16);
+unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, len: usize, v: &mut [u8]) -> Option<(usize, bool)> {
+    debug_assert!(len <= 48);
+
+    // the last column may end without the separator
+    let elems = (len + 1) / 3;
+    let seps = len / 3;
 
     // gather every three elements
     let index_0 = [0u8, 3, 6, 9, 1, 4, 7, 10, 2, 5, 8, 11, 0x80, 0x80, 0x80, 0x80];
@@ -105,29 +109,35 @@ unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, elems:
     let x23h = _mm_unpackhi_epi32(x2, x3);
     let s = _mm_unpacklo_epi64(x01h, x23h);
 
-    let (xh, vh, sh) = to_hex(l);
-    let (xl, vl, sl) = to_hex(h);
+    let (xh, vh, _) = to_hex(l);
+    let (xl, vl, _) = to_hex(h);
 
-    // validation; we allow double-space columns (null)
+    // validation; columns after the first double-space one (null) are ignored
     // "   " ok
     // "0  " ng
     // " 0 " ng
     // "00 " ok
-    let is_space = _mm_cmpeq_epi8(s, _mm_set1_epi8(b' ' as i8));
-    let is_space = _mm_movemask_epi8(is_space) as u64;
-    let is_space = (is_space << 1) | 1;
+    let find_space = |x: __m128i| _mm_movemask_epi8(_mm_cmpeq_epi8(x, _mm_set1_epi8(b' ' as i8))) as u64;
+    let sh = find_space(l);
+    let sl = find_space(h);
+    let is_space = find_space(s) | (u64::MAX << seps);
 
-    let is_null = sh & sl;
+    let is_null = (sh & sl) | (u64::MAX << elems);
     let is_valid = vh & vl;
 
-    let mask = 0u64.wrapping_sub(1 << elems);
-    if (((is_valid | is_null) & is_space) | mask) != 0xffffffffffffffff {
+    let filled = is_null.trailing_zeros() as usize;
+    if ((is_valid & is_space) | (u64::MAX << filled)) != u64::MAX {
+        return None;
+    }
+
+    // a single digit at the tail is not a column
+    if filled == elems && len % 3 == 1 && (sh >> elems) & 1 == 0 {
         return None;
     }
 
     let hex = _mm_or_si128(xl, _mm_slli_epi16(xh, 4));
     _mm_storeu_si128(&mut v[0] as *mut u8 as *mut __m128i, hex);
-    Some((is_null | mask).trailing_zeros() as usize)
+    Some((filled, filled < elems))
 }
 
 pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Option<((usize, usize), usize)> {
@@ -137,6 +147,7 @@ pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
     let mut scanned = 0;
     let mut parsed = 0;
     let mut n_elems = 0;
+    let mut is_null_found = false;
 
     unsafe {
         let find_delim = |x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, delim: u8| -> usize {
@@ -170,7 +181,11 @@ pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
 
             let parse_len = parse_len.min(scan_len);
             parsed += parse_len;
-            n_elems += parse_multi(x0, x1, x2, x3, (parse_len + 1) / 3, &mut dst[n_elems..])?;
+            if !is_null_found {
+                let (filled, is_null) = parse_multi(x0, x1, x2, x3, parse_len, &mut dst[n_elems..])?;
+                n_elems += filled;
+                is_null_found = is_null;
+            }
 
             if scan_len < 48 {
                 break;
-- 
2.43.0


From 7e0ed7ac59a15e922a0df28d531de78cd386930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 26/36] fix: range offsets at the smallest 64-bit number
 overflowed

---
 src/mapper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mapper.rs b/src/mapper.rs
index 77c4f27..6c5c42d 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -180,13 +180,13 @@ impl RangeMapper {
         let start = if mapper.start.anchor == 0 {
             StartAnchored(std::cmp::max(mapper.start.offset, 0) as usize)
         } else {
-            EndAnchored(std::cmp::max(-mapper.start.offset, 0) as usize)
+            EndAnchored(std::cmp::max(mapper.start.offset.saturating_neg(), 0) as usize)
         };
 
         let end = if mapper.end.anchor == 0 {
             StartAnchored(std::cmp::max(mapper.end.offset, 0) as usize)
         } else {
-            EndAnchored(std::cmp::max(-mapper.end.offset, 0) as usize)
+            EndAnchored(std::cmp::max(mapper.end.offset.saturating_neg(), 0) as usize)
         };
 
         Ok(RangeMapper { start, end })
-- 
2.43.0


From 0c47789f34a63eb77814c78b63c02509a4c82b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 27/36] fix: --output clears a file of a fixed name, and
 doesn't lose or misnumber slices kept for the next block

---
 src/drain/scatter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 80be049..b7b3236 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -31,7 +31,7 @@ impl Drain {
         }
 
         let file = template.render(|_, _| 0)?;
-        let file = OpenOptions::new().read(false).write(true).create(true).open(file)?;
+        let file = OpenOptions::new().read(false).write(true).create(true).truncate(true).open(file)?;
         Ok(Drain::File(file))
     }
 }
@@ -125,7 +125,7 @@ impl ScatterDrain {
 
             self.formatter
                 .format_segments(self.offset, stream, &segments[self.src_consumed..count], buf);
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
@@ -155,9 +155,9 @@ impl ScatterDrain {
                 self.file
                     .as_mut()
                     .unwrap()
-                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + i)?;
+                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + self.src_consumed + i)?;
             }
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
-- 
2.43.0


From d388fa9f39182b642e93b3a5ed7a09f74f9094fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 28/36] fix: the copy kept for --patch-back was overwritten
 where its reader paused

---
 src/byte/tee.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index 10ef49f..02c532a 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -63,6 +63,8 @@ impl ByteStream for TeeStream {
 
         match self.cache.lock() {
             Ok(mut cache) => {
+                // the readers share the cursor
+                cache.file.seek(SeekFrom::End(0)).unwrap();
                 cache.file.write_all(&stream[..bytes]).unwrap();
                 cache.clear_eof = true; // increment semaphore
             }
-- 
2.43.0


From 9499a2813ed2256974779c7019900dd458c91769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 29/36] fix: templates render numbers as std::fmt does and
 refuse what they can't interpret

---
 src/template.rs | 47 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 865700c..893eaba 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -2,7 +2,7 @@
 // @brief run-time template formatter (for filename formatting)
 
 use anyhow::{anyhow, Context, Result};
-use num_runtime_fmt::NumFmt;
+use num_runtime_fmt::{Align, Base, NumFmt, Sign};
 use regex::Regex;
 use std::collections::HashMap;
 
@@ -13,6 +13,43 @@ struct TemplateElement {
     var: Option<(Rpn, NumFmt)>,
 }
 
+// num_runtime_fmt panics on negative numbers in non-decimal bases, and treats signs, prefixes and
+// alignments differently from std::fmt
+fn format_int(spec: &NumFmt, val: i64) -> Result<String> {
+    let base = spec.base();
+    if spec.separator().is_some() || spec.precision().is_some() || spec.align() == Align::Decimal {
+        // extensions of num_runtime_fmt
+        return Ok(if base == Base::Decimal { spec.fmt(val)? } else { spec.fmt(val as u64)? });
+    }
+
+    let (prefix, digits) = match base {
+        Base::Binary => ("0b", format!("{:b}", val)),
+        Base::Octal => ("0o", format!("{:o}", val)),
+        Base::Decimal => ("", format!("{}", val.unsigned_abs())),
+        Base::LowerHex => ("0x", format!("{:x}", val)),
+        Base::UpperHex => ("0x", format!("{:X}", val)),
+    };
+    let prefix = if spec.hash() { prefix } else { "" };
+    let sign = match spec.sign() {
+        _ if val < 0 && base == Base::Decimal => "-",
+        Sign::PlusAndMinus => "+",
+        Sign::OnlyMinus => "",
+    };
+
+    let pad = spec.width().saturating_sub(sign.len() + prefix.len() + digits.len());
+    if spec.zero() {
+        return Ok(format!("{}{}{}{}", sign, prefix, "0".repeat(pad), digits));
+    }
+
+    let left = match spec.align() {
+        Align::Left => 0,
+        Align::Center => pad / 2,
+        _ => pad,
+    };
+    let fill = spec.fill().to_string();
+    Ok(format!("{}{}{}{}{}", fill.repeat(left), sign, prefix, digits, fill.repeat(pad - left)))
+}
+
 pub struct Template {
     elems: Vec<TemplateElement>,
 }
@@ -22,7 +59,7 @@ impl Template {
         // parsing std::fmt-style formatter string
         // TODO: is there any good crate to do this? better avoid re-inventing wheels...
         let brace_matcher = Regex::new(r"\{.*?\}").unwrap();
-        let arg_matcher = Regex::new(r"\{((?:\([^:]*\))|[a-zA-Z]*)(:{0,1}.*)\}").unwrap();
+        let arg_matcher = Regex::new(r"^\{(\([^:]*\)|[a-zA-Z]*)(?::(.*))?\}$").unwrap();
 
         let mut elems = Vec::new();
         let mut i = 0;
@@ -37,8 +74,7 @@ impl Template {
             let name = args.get(1).unwrap();
             let name = Rpn::new(name.as_str(), vars)?;
 
-            let spec = args.get(2).unwrap();
-            let spec = if spec.as_str().is_empty() { "" } else { &spec.as_str()[1..] };
+            let spec = args.get(2).map_or("", |x| x.as_str());
             let spec = NumFmt::from_str(spec)?;
 
             // expression (variable) and formatter specifier are both sane; move onto composing TemplateElement
@@ -74,8 +110,7 @@ impl Template {
 
             if let Some(var) = &elem.var {
                 let val = var.0.evaluate(&mut get)?;
-                let fmt = var.1.fmt(val)?;
-                s.push_str(&fmt);
+                s.push_str(&format_int(&var.1, val)?);
             }
         }
         Ok(s)
-- 
2.43.0


From 231dad291d3749fa7bd6cbd8c8ebcf966688492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 30/36] fix: --invert and --extend see the whole stream after
 --slice

The slicer ended the stream at its last slice, so that the space behind it
was not inverted, and slices extended beyond it were clipped there.
---
 src/pipeline.rs      |  4 +++-
 src/segment/range.rs | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index f5e5275..d56f3ce 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -386,7 +386,9 @@ impl Pipeline {
                     (cache, NodeInstance::Segment(next))
                 }
                 (Slice(exprs), NodeInstance::Byte(prev)) => {
-                    let next = Box::new(RangeSlicer::new(prev, exprs)?);
+                    // these may place slices after the last one of this stage
+                    let keep_rest = self.nodes.iter().any(|x| matches!(x, Bridge(_) | Extend(_)));
+                    let next = Box::new(RangeSlicer::new(prev, exprs)?.keep_rest(keep_rest));
                     (cache, NodeInstance::Segment(next))
                 }
                 (Guide(file), NodeInstance::Byte(prev)) => {
diff --git a/src/segment/range.rs b/src/segment/range.rs
index 13d8145..13ebe7a 100644
--- a/src/segment/range.rs
+++ b/src/segment/range.rs
@@ -105,6 +105,7 @@ pub struct RangeSlicer {
     max_consume: usize,  // in #bytes
     segments: Vec<Segment>,
     cutter: Cutter,
+    keep_rest: bool, // false to end the stream at the last slice
 }
 
 impl RangeSlicer {
@@ -115,8 +116,15 @@ impl RangeSlicer {
             max_consume: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
+            keep_rest: false,
         })
     }
+
+    // for the stages that need the bytes after the last slice
+    pub fn keep_rest(mut self, keep_rest: bool) -> Self {
+        self.keep_rest = keep_rest;
+        self
+    }
 }
 
 impl SegmentStream for RangeSlicer {
@@ -124,7 +132,7 @@ impl SegmentStream for RangeSlicer {
         let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;
         let max_consume = self.cutter.accumulate(self.src_consumed, is_eof, bytes, &mut self.segments)?;
 
-        let (is_eof, bytes, max_consume) = if self.cutter.is_empty() {
+        let (is_eof, bytes, max_consume) = if self.cutter.is_empty() && !self.keep_rest {
             let bytes = self.segments.iter().map(|x| x.tail()).fold(self.max_consume, std::cmp::max);
             let max_consume = std::cmp::min(bytes, max_consume);
             (true, bytes, max_consume)
-- 
2.43.0


From bd44bfbc8c636bd89bd52388f01624b64af85386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:28 +0000
Subject: [PATCH 31/36] fix: --patch-back patches the whole stream, whatever
 the command reads and prints

The copy of the stream was read while it was still written, and taken to
have ended where it paused: output was lost when the command closed its
output early, and a command that stopped reading made the feeding thread
panic. What followed the last slice of --slice and --lines was lost. The
slices were formatted as a patch instead of in --out-format.
---
 src/byte/tee.rs    |  30 ++++++++++++-
 src/drain/patch.rs | 109 +++++++++++++++++++++++++++------------------
 src/pipeline.rs    |   2 +-
 3 files changed, 96 insertions(+), 45 deletions(-)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index 02c532a..5ec393c 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -5,7 +5,7 @@ use crate::byte::ByteStream;
 use crate::filluninit::FillUninit;
 use crate::params::BLOCK_SIZE;
 use crate::streambuf::StreamBuf;
-use anyhow::Result;
+use anyhow::{Error, Result};
 use std::io::{Read, Seek, SeekFrom, Write};
 use std::sync::{Arc, Mutex};
 use tempfile::SpooledTempFile;
@@ -13,6 +13,7 @@ use tempfile::SpooledTempFile;
 struct TempFile {
     clear_eof: bool, // semaphore with a saturation counter
     file: SpooledTempFile,
+    error: Option<Error>, // what the source failed with after all that is in the file
 }
 
 pub struct TeeStream {
@@ -31,6 +32,7 @@ impl TeeStream {
         let tempfile = TempFile {
             clear_eof: false,
             file: SpooledTempFile::new(128 * BLOCK_SIZE),
+            error: None,
         };
 
         TeeStream {
@@ -75,6 +77,28 @@ impl ByteStream for TeeStream {
     }
 }
 
+impl Drop for TeeStream {
+    fn drop(&mut self) {
+        if std::thread::panicking() {
+            return;
+        }
+
+        // slicers may stop before the end of the stream, but the readers need the rest as well
+        loop {
+            match self.src.fill_buf(BLOCK_SIZE) {
+                Ok((true, 0)) => break,
+                Ok((_, bytes)) => self.consume(bytes),
+                Err(err) => {
+                    if let Ok(mut cache) = self.cache.lock() {
+                        cache.error = Some(err);
+                    }
+                    break;
+                }
+            }
+        }
+    }
+}
+
 impl ByteStream for TeeStreamReader {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         match self.cache.lock() {
@@ -89,6 +113,10 @@ impl ByteStream for TeeStreamReader {
                     let len = buf.fill_uninit(BLOCK_SIZE, |buf| Ok(cache.file.read(buf)?))?;
                     self.offset += len;
 
+                    match cache.error.take() {
+                        Some(err) if len == 0 => return Err(err),
+                        err => cache.error = err,
+                    }
                     Ok(len == 0)
                 })
             }
diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 7f4c767..c97796c 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -5,10 +5,11 @@ use crate::byte::{ByteStream, PatchStream, RawStream};
 use crate::params::BLOCK_SIZE;
 use crate::segment::SegmentStream;
 use crate::text::{InoutFormat, TextFormatter};
-use anyhow::Result;
-use std::io::Write;
+use anyhow::{anyhow, Result};
+use std::io::{ErrorKind, Seek, SeekFrom, Write};
 use std::process::{Child, ChildStdin, Command, Stdio};
 use std::thread::JoinHandle;
+use tempfile::SpooledTempFile;
 
 struct BashPipe {
     child: Child,
@@ -19,19 +20,22 @@ struct BashPipeWriter {
 }
 
 impl BashPipe {
-    fn new(command: &str) -> Self {
+    fn new(command: &str) -> Result<Self> {
         let child = Command::new("bash")
             .args(["-c", command])
             .stdin(Stdio::piped())
             .stdout(Stdio::piped())
-            .spawn()
-            .unwrap();
-        BashPipe { child }
+            .spawn()?;
+        Ok(BashPipe { child })
     }
 
-    fn spawn_reader(&mut self) -> RawStream {
-        let output = self.child.stdout.take().unwrap();
-        RawStream::new(Box::new(output), 1, 0)
+    // reads the output to its end
+    fn read_all(&mut self) -> Result<SpooledTempFile> {
+        let mut output = self.child.stdout.take().unwrap();
+        let mut file = SpooledTempFile::new(128 * BLOCK_SIZE);
+        std::io::copy(&mut output, &mut file)?;
+        file.seek(SeekFrom::Start(0))?;
+        Ok(file)
     }
 
     fn spawn_writer(&mut self) -> BashPipeWriter {
@@ -41,9 +45,19 @@ impl BashPipe {
 }
 
 impl BashPipeWriter {
-    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-        self.input.as_ref().unwrap().write_all(buf)?;
-        Ok(buf.len())
+    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
+        let result = match &mut self.input {
+            Some(input) => input.write_all(buf),
+            None => return Ok(()),
+        };
+        match result {
+            // the command doesn't have to read everything
+            Err(err) if err.kind() == ErrorKind::BrokenPipe => {
+                self.close();
+                Ok(())
+            }
+            result => result,
+        }
     }
 
     fn close(&mut self) {
@@ -52,77 +66,86 @@ impl BashPipeWriter {
 }
 
 pub struct PatchDrain {
-    patch: PatchStream,
-    prev_bytes: usize,
-    pipe: BashPipe,
-    thread: Option<JoinHandle<()>>,
+    // what the patched stream is made from, until the command has ended
+    source: Option<(Box<dyn ByteStream>, BashPipe, JoinHandle<Result<()>>)>,
+    patch: Option<PatchStream>,
+    patch_format: InoutFormat,
 }
 
 impl PatchDrain {
-    pub fn new(patch: Box<dyn SegmentStream>, original: Box<dyn ByteStream>, command: &str, format: &InoutFormat) -> Self {
-        let mut pipe = BashPipe::new(command);
+    pub fn new(
+        patch: Box<dyn SegmentStream>,
+        original: Box<dyn ByteStream>,
+        command: &str,
+        format: &InoutFormat,
+        patch_format: &InoutFormat,
+    ) -> Result<Self> {
+        let mut pipe = BashPipe::new(command)?;
         let mut writer = pipe.spawn_writer();
         let formatter = TextFormatter::new(format, (0, 0));
 
-        let thread = std::thread::spawn(move || {
+        let thread = std::thread::spawn(move || -> Result<()> {
             let mut patch = patch;
             let mut buf = Vec::new();
             let mut offset = 0;
 
             loop {
-                let (is_eof, bytes, _, max_consume) = patch.fill_segment_buf().unwrap();
+                let (is_eof, bytes, _, max_consume) = patch.fill_segment_buf()?;
                 if is_eof && bytes == 0 {
                     break;
                 }
 
                 let (stream, segments) = patch.as_slices();
                 formatter.format_segments(offset, stream, segments, &mut buf);
-                offset += patch.consume(max_consume).unwrap().0;
+                offset += patch.consume(max_consume)?.0;
 
                 if buf.len() >= BLOCK_SIZE {
-                    writer.write_all(&buf).unwrap();
+                    writer.write_all(&buf)?;
                     buf.clear();
                 }
             }
 
-            writer.write_all(&buf).unwrap();
+            writer.write_all(&buf)?;
             writer.close();
+            Ok(())
         });
 
-        let reader = pipe.spawn_reader();
-        let patch = PatchStream::new(original, Box::new(reader), format);
+        Ok(PatchDrain {
+            source: Some((original, pipe, thread)),
+            patch: None,
+            patch_format: patch_format.clone(),
+        })
+    }
+
+    // the original stream is complete only after all slices are fed to the command
+    fn build_patch(&mut self) -> Result<()> {
+        if let Some((original, mut pipe, thread)) = self.source.take() {
+            let output = pipe.read_all()?;
+            thread.join().map_err(|_| anyhow!("failed to feed slices to the command"))??;
+            pipe.child.wait()?;
 
-        PatchDrain {
-            patch,
-            prev_bytes: 0,
-            pipe,
-            thread: Some(thread),
+            let output = Box::new(RawStream::new(Box::new(output), 1, 0));
+            self.patch = Some(PatchStream::new(original, output, &self.patch_format));
         }
+        Ok(())
     }
 }
 
 impl ByteStream for PatchDrain {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
-        let (is_eof, bytes) = self.patch.fill_buf(request)?;
-
-        if is_eof && bytes == self.prev_bytes {
-            if let Some(thread) = self.thread.take() {
-                thread.join().unwrap();
-            }
-
-            self.pipe.child.wait().unwrap();
+        self.build_patch()?;
+        match &mut self.patch {
+            Some(patch) => patch.fill_buf(request),
+            None => Err(anyhow!("no patch is available")),
         }
-
-        self.prev_bytes = bytes;
-        Ok((is_eof, bytes))
     }
 
     fn as_slice(&self) -> &[u8] {
-        self.patch.as_slice()
+        self.patch.as_ref().unwrap().as_slice()
     }
 
     fn consume(&mut self, amount: usize) {
-        self.patch.consume(amount)
+        self.patch.as_mut().unwrap().consume(amount)
     }
 }
 
diff --git a/src/pipeline.rs b/src/pipeline.rs
index d56f3ce..64cc2f1 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -424,7 +424,7 @@ impl Pipeline {
                     (cache, NodeInstance::Byte(next))
                 }
                 (PatchBack(command), NodeInstance::Segment(prev)) => {
-                    let next = Box::new(PatchDrain::new(prev, cache.unwrap(), command, &self.patch_format));
+                    let next = Box::new(PatchDrain::new(prev, cache.unwrap(), command, &self.out_format, &self.patch_format)?);
                     (None, NodeInstance::Byte(next))
                 }
                 (next, _) => return Err(anyhow!("unallowed node {:?} found after (internal error)", next)),
-- 
2.43.0


From c6526c6e787d439a1d807761a198e9fa2c5a8389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 32/36] fix: let --lines end early over slicers that consume in
 steps

A filter that has passed the last line reports the end at the last slice it
holds, which its source may be unable to consume before its own end: a debug
build hit an assertion in the drain, and --output FILE never ended.
---
 src/segment/filter.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index 0653640..972bbd2 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -113,6 +113,8 @@ pub struct FilterStream {
     max_consume: usize,  // in #bytes
     segments: Vec<Segment>,
     cutter: Cutter,
+    is_done: bool,  // no segment comes after the ones in `segments`
+    skipped: usize, // #bytes consumed in this stream but not in the source, after `is_done`
 }
 
 impl FilterStream {
@@ -124,12 +126,18 @@ impl FilterStream {
             max_consume: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
+            is_done: false,
+            skipped: 0,
         })
     }
 }
 
 impl SegmentStream for FilterStream {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
+        if self.is_done {
+            return Ok((true, self.max_consume, self.segments.len(), self.max_consume));
+        }
+
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
         let (_, segments) = self.src.as_slices();
 
@@ -139,7 +147,10 @@ impl SegmentStream for FilterStream {
             .accumulate(self.src_scanned, self.src_consumed, is_eof, count, segments, &mut self.segments)?;
 
         let (is_eof, bytes) = if self.cutter.is_empty() {
+            // from here on the segments in the buffer are consumed without the source, which may be
+            // unable to consume as much before its own end
             let bytes = self.segments.iter().map(|x| x.tail()).fold(self.max_consume, std::cmp::max);
+            self.is_done = true;
             (true, bytes)
         } else {
             (is_eof, bytes)
@@ -159,14 +170,20 @@ impl SegmentStream for FilterStream {
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.segments)
+        (&stream[self.skipped..], &self.segments)
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
         let bytes = std::cmp::min(bytes, self.max_consume);
-        let (bytes, src_count) = self.src.consume(bytes)?;
-        self.src_scanned -= src_count;
-        self.src_consumed += src_count;
+        let bytes = if self.is_done {
+            self.skipped += bytes;
+            bytes
+        } else {
+            let (bytes, src_count) = self.src.consume(bytes)?;
+            self.src_scanned -= src_count;
+            self.src_consumed += src_count;
+            bytes
+        };
 
         let from = self.segments.partition_point(|x| x.pos < bytes);
         let to = self.segments.len();
-- 
2.43.0


From 313b07c05b47fdf5706b0bced0a7e9a4f4852cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:35 +0000
Subject: [PATCH 33/36] fix: refuse formats that nothing reads or writes
 instead of panicking

Column formats for which there is no parser or formatter (-f d,x,b or -F b,b,b)
and empty columns (-f x,) ended in a panic.
---
 src/pipeline.rs |  6 ++++++
 src/text/mod.rs | 26 +++++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 64cc2f1..6d2f349 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -306,6 +306,12 @@ impl Pipeline {
         if self.word_size == 0 {
             return Err(anyhow!("N == 0 is not allowed for --cat and --zip"));
         }
+        if !self.in_format.is_parsable() {
+            return Err(anyhow!("unsupported input format: {:?}", self.in_format));
+        }
+        if !self.out_format.is_formattable() {
+            return Err(anyhow!("unsupported output format: {:?}", self.out_format));
+        }
 
         // validate the node order
         for x in self.nodes.windows(2) {
diff --git a/src/text/mod.rs b/src/text/mod.rs
index af28431..00ef274 100644
--- a/src/text/mod.rs
+++ b/src/text/mod.rs
@@ -21,7 +21,9 @@ pub enum ColumnFormat {
 
 impl ColumnFormat {
     fn from_str(s: &str) -> Result<Self> {
-        assert!(!s.is_empty());
+        if s.is_empty() {
+            return Err(anyhow!("empty input/output format specifier"));
+        }
 
         let b = s.as_bytes();
         match (b[0], b.len() > 1) {
@@ -95,6 +97,28 @@ impl InoutFormat {
     pub fn is_binary(&self) -> bool {
         self.is_gapless() && self.body == ColumnFormat::Binary
     }
+
+    /// if TextParser (or a binary stream) reads this
+    pub fn is_parsable(&self) -> bool {
+        use ColumnFormat::{Decimal, Hexadecimal, None};
+
+        self.is_binary()
+            || matches!(
+                (&self.offset, &self.span, &self.body),
+                (None | Decimal | Hexadecimal, None | Decimal | Hexadecimal, None | Hexadecimal)
+            )
+    }
+
+    /// if TextFormatter writes this
+    pub fn is_formattable(&self) -> bool {
+        use ColumnFormat::{Decimal, Hexadecimal, None};
+
+        self.is_binary()
+            || matches!(
+                (&self.offset, &self.span, &self.body),
+                (None, None, Hexadecimal) | (Decimal, Decimal, Hexadecimal) | (Hexadecimal, Hexadecimal, Hexadecimal)
+            )
+    }
 }
 
 // end of mod.rs
-- 
2.43.0


From b3e5cb4b944e27f4c28640a0e54743be71a530c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:52 +0000
Subject: [PATCH 34/36] fix: keep --width with far offsets from overflowing

Offsets and widths near the 64-bit limits overflowed while the positions of the
segments were calculated (-w 3,s-0x7fffffffffffffff..e).
---
 src/segment/stride.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index 1d20846..ffb38f1 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -20,7 +20,7 @@ impl ConstSlicerParams {
         if pitch == 0 {
             return Err(anyhow!("slice width must be positive"));
         }
-        let pitch = pitch as isize;
+        let pitch = std::cmp::min(pitch, isize::MAX as usize) as isize;
 
         // parse mapper (if it results in an empty slice it's an error)
         let expr = expr.unwrap_or("s..e");
@@ -36,6 +36,13 @@ impl ConstSlicerParams {
             ));
         }
 
+        // no stream reaches these positions. larger ones have the same effect, but overflow below and
+        // in the calculation of the segments
+        const LIMIT: isize = 1 << 56;
+        let pitch = std::cmp::min(pitch, LIMIT);
+        let start = start.clamp(-LIMIT, LIMIT);
+        let end = end.clamp(start + 1, LIMIT + 1);
+
         let span = end - start;
         debug_assert!(span > 0);
 
@@ -43,11 +50,10 @@ impl ConstSlicerParams {
         let head_margin = if start >= 0 {
             start
         } else {
-            let mut margin = -start;
-            while margin >= span {
-                margin -= pitch;
-            }
-            -margin
+            // skip the segments before the head of the stream
+            let margin = -start;
+            let skip = if margin >= span { (margin - span) / pitch + 1 } else { 0 };
+            skip * pitch - margin
         };
 
         let tail_margin = if end < 1 { 1 - end } else { std::cmp::max(1 - end, 1 - span) };
-- 
2.43.0


From 7f027b68095cc471d7866398c3e6f6bca98524f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:49 +0000
Subject: [PATCH 35/36] fix: accept empty slices of a guide in --merge

A guide record of length zero hit an assertion in debug builds.
---
 src/segment/merge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/segment/merge.rs b/src/segment/merge.rs
index da25974..9d6da2a 100644
--- a/src/segment/merge.rs
+++ b/src/segment/merge.rs
@@ -34,7 +34,7 @@ impl Accumulator {
     fn pop(&mut self) -> Segment {
         let pos = self.start;
         let tail = self.end;
-        debug_assert!(pos < tail);
+        debug_assert!(pos <= tail); // may be empty, when the guide has such a record
 
         // clear the current state
         self.count = 0;
-- 
2.43.0


From b8c8400e154c553b5e4714408b99752b923708d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:22 +0000
Subject: [PATCH 36/36] fix: --inplace doesn't take over files that are already
 there, nor leave its own behind

---
 src/main.rs | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 35ae6de..6c253e1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,8 +12,8 @@ mod text;
 
 use anyhow::{anyhow, Context, Result};
 use clap::{ColorChoice, CommandFactory, FromArgMatches, Parser};
-use std::fs::File;
-use std::io::{IsTerminal, Read, Write};
+use std::fs::{File, OpenOptions};
+use std::io::{ErrorKind, IsTerminal, Read, Write};
 use std::process::{Child, Stdio};
 
 use byte::ByteStream;
@@ -160,13 +160,17 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         for input in inputs.windows(1) {
             let sources = build_sources(input)?;
 
-            let tmpfile = format!("{}.tmp", &input[0]);
-            let drain = Box::new(File::create(&tmpfile)?);
-
-            let stream = pipeline.spawn_stream(sources)?;
-            consume_stream(stream, drain)?;
-
-            std::fs::rename(&tmpfile, &input[0])?;
+            // (the tmpfile is left behind neither when the pipeline fails nor when the rename does)
+            let (tmpfile, drain) = create_tmpfile(&input[0])?;
+            let result = pipeline
+                .spawn_stream(sources)
+                .and_then(|stream| consume_stream(stream, Box::new(drain)))
+                .and_then(|_| Ok(std::fs::rename(&tmpfile, &input[0])?));
+
+            if result.is_err() {
+                let _ = std::fs::remove_file(&tmpfile);
+            }
+            result?;
         }
     } else {
         let inputs = if args.inputs.is_empty() {
@@ -202,6 +206,20 @@ fn build_sources(files: &[String]) -> Result<Vec<Box<dyn Read + Send>>> {
     Ok(v)
 }
 
+fn create_tmpfile(file: &str) -> Result<(String, File)> {
+    // never take a file that is already there; it's someone else's, possibly one of the inputs
+    for i in 0..1000 {
+        let tmpfile = if i == 0 { format!("{file}.tmp") } else { format!("{file}.tmp{i}") };
+
+        match OpenOptions::new().write(true).create_new(true).open(&tmpfile) {
+            Ok(drain) => return Ok((tmpfile, drain)),
+            Err(e) if e.kind() == ErrorKind::AlreadyExists => continue,
+            Err(e) => return Err(e.into()),
+        }
+    }
+    Err(anyhow!("failed to create a temporary file for {file:?}"))
+}
+
 fn build_drain(pager: &Option<String>) -> Result<(Option<Child>, Box<dyn Write>)> {
     let pager = pager.clone().or_else(|| std::env::var("PAGER").ok());
     if pager.is_none() && !std::io::stdout().is_terminal() {
-- 
2.43.0

