From c06c4ea3710e65491f7a000d66f9749292d6baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 01/13] fix: CowSliceExt::split_at returned the halves of an
 owned cow swapped at its ends

Splitting owned data at 0 or at its length put all of it in the wrong half,
so a TEXT_POKE record with an empty old text read through a BufReader had
its old and new bytes exchanged.
---
 src/util/cow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cow.rs b/src/util/cow.rs
index a20c165..e286eb1 100644
--- a/src/util/cow.rs
+++ b/src/util/cow.rs
@@ -23,8 +23,8 @@ where
                 let (head, rest) = slice.split_at(len);
                 (head.into(), rest.into())
             }
-            Self::Owned(data) if len == 0 => (data.into(), Cow::Borrowed(&[])),
-            Self::Owned(data) if len == data.len() => (Cow::Borrowed(&[]), data.into()),
+            Self::Owned(data) if len == 0 => (Cow::Borrowed(&[]), data.into()),
+            Self::Owned(data) if len == data.len() => (data.into(), Cow::Borrowed(&[])),
             Self::Owned(mut data) => {
                 let rest: Vec<T> = data.drain(len..).collect();
                 (data.into(), rest.into())
-- 
2.43.0


From 8620d117819d51c900c454cc7352e885da58c014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 02/13] fix: Namespaces::uts returned the user namespace

---
 src/records/namespaces.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/records/namespaces.rs b/src/records/namespaces.rs
index 1457821..46a243b 100644
--- a/src/records/namespaces.rs
+++ b/src/records/namespaces.rs
@@ -47,7 +47,7 @@ impl<'a> Namespaces<'a> {
 
     /// UTS namespace.
     pub fn uts(&self) -> Option<&NamespaceEntry> {
-        self.namespaces.get(bindings::USER_NS_INDEX as usize)
+        self.namespaces.get(bindings::UTS_NS_INDEX as usize)
     }
 
     /// IPC namespace.
-- 
2.43.0


From 698135a775076aea17485be5a90a3883f1f90104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 03/13] fix: perf_event_attr consumed 4 bytes more than its
 declared size

---
 src/impls/perf_event_attr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/impls/perf_event_attr.rs b/src/impls/perf_event_attr.rs
index e9f8ac0..b796d61 100644
--- a/src/impls/perf_event_attr.rs
+++ b/src/impls/perf_event_attr.rs
@@ -41,7 +41,10 @@ impl<'p> Parse<'p> for perf_event_attr {
             }
         }
 
-        let mut p = p.split_at(attr.size as usize - mem::size_of_val(&attr.size))?;
+        // attr.size includes the type and size fields that have already been read.
+        let mut p = p.split_at(
+            attr.size as usize - mem::size_of_val(&attr.type_) - mem::size_of_val(&attr.size),
+        )?;
 
         if attr.size >= PERF_ATTR_SIZE_VER0 {
             attr.config = p.parse()?;
-- 
2.43.0


From 637c581b15e13a8786ac6e5356acac086c0529a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 04/13] fix: PERF_RECORD_SWITCH records went to visit_unknown
 instead of visit_switch

---
 src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.rs b/src/parse.rs
index 13c8e56..edf0a28 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -580,6 +580,7 @@ where
             PERF_RECORD_AUX => visitor.visit_aux(p.parse()?, metadata),
             PERF_RECORD_ITRACE_START => visitor.visit_itrace_start(p.parse()?, metadata),
             PERF_RECORD_LOST_SAMPLES => visitor.visit_lost_samples(p.parse()?, metadata),
+            PERF_RECORD_SWITCH => visitor.visit_switch(metadata),
             PERF_RECORD_SWITCH_CPU_WIDE => visitor.visit_switch_cpu_wide(p.parse()?, metadata),
             PERF_RECORD_NAMESPACES => visitor.visit_namespaces(p.parse()?, metadata),
             PERF_RECORD_KSYMBOL => visitor.visit_ksymbol(p.parse()?, metadata),
-- 
2.43.0


From 02fbb2b9b7bfd205dacaab4e56cfe3c3a0ec77c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 05/13] fix: parse_rest failed with Eof when nothing was left

Records with an empty name or an empty unknown body could not be parsed.
---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index edf0a28..2ce7703 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -389,7 +389,11 @@ where
 
     /// Consume the rest of the buffer and return it as a slice.
     pub fn parse_rest(&mut self) -> ParseResult<Cow<'p, [u8]>> {
-        let mut bytes = self.data.chunk()?.to_cow();
+        let mut bytes = match self.data.chunk() {
+            Ok(chunk) => chunk.to_cow(),
+            Err(e) if e.kind() == ErrorKind::Eof => return Ok(Cow::Borrowed(&[])),
+            Err(e) => return Err(e),
+        };
         self.data.advance(bytes.len());
 
         loop {
-- 
2.43.0


From a32605dcb936a7d926371360fccaee9d30e124b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 06/13] fix: zero-length reads at the end of the data failed
 with Eof

An empty callchain, branch stack, raw field, user stack or aux field at the
end of a sample made the whole sample fail to parse.
---
 src/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 2ce7703..9b97c4a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -201,6 +201,11 @@ where
     }
 
     fn parse_bytes_direct(&mut self, len: usize) -> ParseResult<Option<&'p [u8]>> {
+        // Reading nothing always works, even at the end of the data.
+        if len == 0 {
+            return Ok(Some(&[]));
+        }
+
         let chunk = match self.data.chunk()? {
             ParseBufChunk::External(chunk) => chunk,
             _ => return Ok(None),
-- 
2.43.0


From 857bae5a9176ba3d97630a3e61ca0da7a5f96fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 07/13] fix: the weight slot was not parsed for
 PERF_SAMPLE_WEIGHT_STRUCT

The kernel writes the same u64 slot for either weight format; skipping it
shifted every later field of the sample.
---
 src/records/sample.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index 2ee1717..34e3704 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -244,7 +244,8 @@ impl<'p> Parse<'p> for Sample<'p> {
 
             Ok(data)
         })?;
-        let weight = p.parse_if(sty.contains(SampleFlags::WEIGHT))?;
+        let weight =
+            p.parse_if(sty.intersects(SampleFlags::WEIGHT | SampleFlags::WEIGHT_STRUCT))?;
         let data_src = p.parse_if(sty.contains(SampleFlags::DATA_SRC))?;
         let transaction = p.parse_if(sty.contains(SampleFlags::TRANSACTION))?;
         let regs_intr = p.parse_if_with(sty.contains(SampleFlags::REGS_INTR), |p| {
-- 
2.43.0


From 6fcdcb8af6ee4e5d302e0b82db5c05f72be19737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 08/13] fix: registers were parsed even when the abi word says
 there are none

---
 src/records/sample.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index 34e3704..b6ba754 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -356,10 +356,17 @@ impl<'p> Registers<'p> {
         E: Endian,
         B: ParseBuf<'p>,
     {
+        let abi = p.parse()?;
+        // No registers are written if there was no user context to take them from.
+        let len = match abi {
+            SampleRegsAbi::NONE => 0,
+            _ => mask.count_ones() as usize,
+        };
+
         Ok(Self {
-            abi: p.parse()?,
+            abi,
             mask,
-            regs: unsafe { p.parse_slice(mask.count_ones() as _)? },
+            regs: unsafe { p.parse_slice(len)? },
         })
     }
 }
-- 
2.43.0


From bd9a67aa24fc7c954e3b7fa5dab74b461b77c1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 09/13] fix: the parser returned by parse_metadata did not know
 the record's misc flags

Parsing Mmap2 with a build id or SwitchCpuWide from it gave wrong values.
---
 src/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 9b97c4a..f0d4904 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -548,6 +548,9 @@ where
             }
         };
 
+        let mut p = p;
+        p.config = p.config.with_misc(header.misc);
+
         let metadata = RecordMetadata::new(header, sample_id);
         Ok((p, metadata))
     }
-- 
2.43.0


From 999bb3e8a4aa35eb4b25e52513ed4fb882f3b625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 10/13] fix: ParseBufCursor::remaining_hint did not account for
 consumed bytes

---
 src/parsebuf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsebuf.rs b/src/parsebuf.rs
index 3e1f600..ad655d1 100644
--- a/src/parsebuf.rs
+++ b/src/parsebuf.rs
@@ -234,7 +234,8 @@ unsafe impl<'p> ParseBuf<'p> for ParseBufCursor<'p> {
             .checked_add(count)
             .expect("advanced past the end of the buffer");
 
-        self.len
+        self.len = self
+            .len
             .checked_sub(count)
             .expect("advanced past the end of the buffer");
 
-- 
2.43.0


From 3bdd736625e559013ec808115b13fc44c003f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 11/13] fix: separator between error category and cause was
 inverted

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 6816124..81b8cc0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -124,7 +124,7 @@ impl Display for ParseError {
         }
 
         if let Some(source) = &self.source {
-            if matches!(self.code, ErrorKind::External) {
+            if !matches!(self.code, ErrorKind::External) {
                 f.write_str(": ")?;
             }
 
-- 
2.43.0


From 7447f7ab06b372bf9078783781b1fe5485d2b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 12/13] fix: HexStr wrote nibbles in the wrong order and wrong
 letters for A-F

---
 src/util/fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/fmt.rs b/src/util/fmt.rs
index a207136..3c83ff8 100644
--- a/src/util/fmt.rs
+++ b/src/util/fmt.rs
@@ -47,12 +47,12 @@ pub(crate) struct HexStr<'a>(pub &'a [u8]);
 impl fmt::Debug for HexStr<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         for &b in self.0 {
-            let nibbles = [b & 0xF, b >> 4];
+            let nibbles = [b >> 4, b & 0xF];
 
             for n in nibbles {
                 let c = match n {
                     0x0..=0x9 => b'0' + n,
-                    0xA..=0xF => b'A' + n,
+                    0xA..=0xF => b'A' + (n - 0xA),
                     _ => unreachable!(),
                 };
 
-- 
2.43.0


From 016634b103cf9159311108ef4f9ad2d67c0f1d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 13/13] fix: an array of no bytes could not be parsed at the
 end of the data

---
 src/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index f0d4904..92d2c3b 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -298,6 +298,11 @@ where
     }
 
     pub(crate) fn parse_array<const N: usize>(&mut self) -> ParseResult<[u8; N]> {
+        // Reading nothing always works, even at the end of the data.
+        if N == 0 {
+            return Ok([0u8; N]);
+        }
+
         let chunk = self.data.chunk()?;
 
         if chunk.len() < N {
-- 
2.43.0

