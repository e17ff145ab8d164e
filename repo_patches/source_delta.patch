From be1499c4b2f18f3a1cb913e25ffb97efafe33ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 01/12] fix: keep the remaining length of a ParseBufCursor up
 to date

advance() computed the new length but did not store it, so remaining_hint()
never decreased and advancing past the end was not detected reliably.
---
 src/parsebuf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsebuf.rs b/src/parsebuf.rs
index 3e1f600..ad655d1 100644
--- a/src/parsebuf.rs
+++ b/src/parsebuf.rs
@@ -234,7 +234,8 @@ unsafe impl<'p> ParseBuf<'p> for ParseBufCursor<'p> {
             .checked_add(count)
             .expect("advanced past the end of the buffer");
 
-        self.len
+        self.len = self
+            .len
             .checked_sub(count)
             .expect("advanced past the end of the buffer");
 
-- 
2.43.0


From 554e86998c7bc5fc9d710a71d2bf278c0674ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:39 +0000
Subject: [PATCH 02/12] fix: do not swap the halves when splitting an owned Cow
 at its ends

A TEXT_POKE record read from a source with temporary chunks reported its new
bytes as old bytes (and vice versa) when one of the two was empty.
---
 src/util/cow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cow.rs b/src/util/cow.rs
index a20c165..e286eb1 100644
--- a/src/util/cow.rs
+++ b/src/util/cow.rs
@@ -23,8 +23,8 @@ where
                 let (head, rest) = slice.split_at(len);
                 (head.into(), rest.into())
             }
-            Self::Owned(data) if len == 0 => (data.into(), Cow::Borrowed(&[])),
-            Self::Owned(data) if len == data.len() => (Cow::Borrowed(&[]), data.into()),
+            Self::Owned(data) if len == 0 => (Cow::Borrowed(&[]), data.into()),
+            Self::Owned(data) if len == data.len() => (data.into(), Cow::Borrowed(&[])),
             Self::Owned(mut data) => {
                 let rest: Vec<T> = data.drain(len..).collect();
                 (data.into(), rest.into())
-- 
2.43.0


From 61d5649ae956bd388e215d2667d1154c37726289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:41 +0000
Subject: [PATCH 03/12] fix: allow parsing zero bytes at the end of the buffer

An empty array as the last field of a record (e.g. a sample with an empty
callchain) failed to parse with an EOF error.
---
 src/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 13c8e56..d401054 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -201,6 +201,11 @@ where
     }
 
     fn parse_bytes_direct(&mut self, len: usize) -> ParseResult<Option<&'p [u8]>> {
+        // There may be no more data in the buffer but none is needed either.
+        if len == 0 {
+            return Ok(Some(&[]));
+        }
+
         let chunk = match self.data.chunk()? {
             ParseBufChunk::External(chunk) => chunk,
             _ => return Ok(None),
-- 
2.43.0


From 3454486fa3e5c04954c41449c872a16c7f6f35c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:45 +0000
Subject: [PATCH 04/12] fix: make parse_rest return an empty slice at the end
 of the buffer

Records with nothing left for their last field (an unknown record without a
body, a cgroup record with an empty path) failed to parse with an EOF error.
---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index d401054..d66dd50 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -394,7 +394,11 @@ where
 
     /// Consume the rest of the buffer and return it as a slice.
     pub fn parse_rest(&mut self) -> ParseResult<Cow<'p, [u8]>> {
-        let mut bytes = self.data.chunk()?.to_cow();
+        let mut bytes = match self.data.chunk() {
+            Ok(chunk) => chunk.to_cow(),
+            Err(e) if e.kind() == ErrorKind::Eof => return Ok(Cow::Borrowed(&[])),
+            Err(e) => return Err(e),
+        };
         self.data.advance(bytes.len());
 
         loop {
-- 
2.43.0


From 2edb81ac8331c05734accd02f9783a72f623bc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:47 +0000
Subject: [PATCH 05/12] fix: dispatch PERF_RECORD_SWITCH to visit_switch

These records were passed to visit_unknown.
---
 src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.rs b/src/parse.rs
index d66dd50..9b1f46c 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -589,6 +589,7 @@ where
             PERF_RECORD_AUX => visitor.visit_aux(p.parse()?, metadata),
             PERF_RECORD_ITRACE_START => visitor.visit_itrace_start(p.parse()?, metadata),
             PERF_RECORD_LOST_SAMPLES => visitor.visit_lost_samples(p.parse()?, metadata),
+            PERF_RECORD_SWITCH => visitor.visit_switch(metadata),
             PERF_RECORD_SWITCH_CPU_WIDE => visitor.visit_switch_cpu_wide(p.parse()?, metadata),
             PERF_RECORD_NAMESPACES => visitor.visit_namespaces(p.parse()?, metadata),
             PERF_RECORD_KSYMBOL => visitor.visit_ksymbol(p.parse()?, metadata),
-- 
2.43.0


From a6a926ae45c909eea7f18569bf6d91140db84ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:49 +0000
Subject: [PATCH 06/12] fix: consume exactly size bytes when parsing a
 perf_event_attr

The size includes the type field, so that 4 bytes too many were consumed.
---
 src/impls/perf_event_attr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/impls/perf_event_attr.rs b/src/impls/perf_event_attr.rs
index e9f8ac0..6406278 100644
--- a/src/impls/perf_event_attr.rs
+++ b/src/impls/perf_event_attr.rs
@@ -41,7 +41,9 @@ impl<'p> Parse<'p> for perf_event_attr {
             }
         }
 
-        let mut p = p.split_at(attr.size as usize - mem::size_of_val(&attr.size))?;
+        // Both type and size have already been consumed.
+        let header_len = mem::size_of_val(&attr.type_) + mem::size_of_val(&attr.size);
+        let mut p = p.split_at(attr.size as usize - header_len)?;
 
         if attr.size >= PERF_ATTR_SIZE_VER0 {
             attr.config = p.parse()?;
-- 
2.43.0


From ef64d6e70cd8ed56921dc37e8107553db6e27e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:51 +0000
Subject: [PATCH 07/12] fix: parse the weight field of samples with
 PERF_SAMPLE_WEIGHT_STRUCT

The kernel emits the 8-byte weight for either flag. Not reading it shifted all
later fields of the sample.
---
 src/records/sample.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index 2ee1717..ec27429 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -244,7 +244,7 @@ impl<'p> Parse<'p> for Sample<'p> {
 
             Ok(data)
         })?;
-        let weight = p.parse_if(sty.contains(SampleFlags::WEIGHT))?;
+        let weight = p.parse_if(sty.intersects(SampleFlags::WEIGHT | SampleFlags::WEIGHT_STRUCT))?;
         let data_src = p.parse_if(sty.contains(SampleFlags::DATA_SRC))?;
         let transaction = p.parse_if(sty.contains(SampleFlags::TRANSACTION))?;
         let regs_intr = p.parse_if_with(sty.contains(SampleFlags::REGS_INTR), |p| {
-- 
2.43.0


From b5430e534d9b1134847e1b21ce6f565a22a67074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:53 +0000
Subject: [PATCH 08/12] fix: return the UTS namespace from Namespaces::uts

It returned the user namespace.
---
 src/records/namespaces.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/records/namespaces.rs b/src/records/namespaces.rs
index 1457821..46a243b 100644
--- a/src/records/namespaces.rs
+++ b/src/records/namespaces.rs
@@ -47,7 +47,7 @@ impl<'a> Namespaces<'a> {
 
     /// UTS namespace.
     pub fn uts(&self) -> Option<&NamespaceEntry> {
-        self.namespaces.get(bindings::USER_NS_INDEX as usize)
+        self.namespaces.get(bindings::UTS_NS_INDEX as usize)
     }
 
     /// IPC namespace.
-- 
2.43.0


From 5624dcbdc6e35442167c551a36ce6715f044c97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:55 +0000
Subject: [PATCH 09/12] fix: format build ids as hexadecimal

The nibbles were swapped and those above 9 printed as letters from K on.
---
 src/util/fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/fmt.rs b/src/util/fmt.rs
index a207136..3c83ff8 100644
--- a/src/util/fmt.rs
+++ b/src/util/fmt.rs
@@ -47,12 +47,12 @@ pub(crate) struct HexStr<'a>(pub &'a [u8]);
 impl fmt::Debug for HexStr<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         for &b in self.0 {
-            let nibbles = [b & 0xF, b >> 4];
+            let nibbles = [b >> 4, b & 0xF];
 
             for n in nibbles {
                 let c = match n {
                     0x0..=0x9 => b'0' + n,
-                    0xA..=0xF => b'A' + n,
+                    0xA..=0xF => b'A' + (n - 0xA),
                     _ => unreachable!(),
                 };
 
-- 
2.43.0


From 40ea80eb545038b056911f2d688ff8c8d65fa6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:57 +0000
Subject: [PATCH 10/12] fix: expect no registers in samples with
 PERF_SAMPLE_REGS_ABI_NONE

The kernel emits only the abi if no registers are available. Reading registers
nonetheless consumed the fields behind them.
---
 src/records/sample.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/records/sample.rs b/src/records/sample.rs
index ec27429..84668d2 100644
--- a/src/records/sample.rs
+++ b/src/records/sample.rs
@@ -355,10 +355,17 @@ impl<'p> Registers<'p> {
         E: Endian,
         B: ParseBuf<'p>,
     {
+        let abi = p.parse()?;
+        // No registers are emitted if there was no user (or interrupted) context.
+        let len = match abi {
+            SampleRegsAbi::NONE => 0,
+            _ => mask.count_ones() as usize,
+        };
+
         Ok(Self {
-            abi: p.parse()?,
+            abi,
             mask,
-            regs: unsafe { p.parse_slice(mask.count_ones() as _)? },
+            regs: unsafe { p.parse_slice(len)? },
         })
     }
 }
-- 
2.43.0


From e01758a3de7af9528b011d41a855f0c0943922eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:59 +0000
Subject: [PATCH 11/12] fix: separate kind and message when displaying a
 ParseError

The separator was only written for external errors, which have no prefix.
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 6816124..81b8cc0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -124,7 +124,7 @@ impl Display for ParseError {
         }
 
         if let Some(source) = &self.source {
-            if matches!(self.code, ErrorKind::External) {
+            if !matches!(self.code, ErrorKind::External) {
                 f.write_str(": ")?;
             }
 
-- 
2.43.0


From a8a9d6085e8610efd65810ac8fd28f1539068919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:10 +0000
Subject: [PATCH 12/12] fix: apply the header's misc when parsing the contents
 of a record separately

---
 src/parse.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 9b1f46c..61cd865 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -549,6 +549,11 @@ where
         };
 
         let metadata = RecordMetadata::new(header, sample_id);
+        // The layout of some records depends on the misc field of their header.
+        let p = Parser {
+            config: p.config.with_misc(metadata.misc()),
+            data: p.data,
+        };
         Ok((p, metadata))
     }
 
@@ -567,13 +572,13 @@ where
     }
 
     fn parse_record_impl<V: Visitor<'p>>(
-        self,
+        mut self,
         visitor: V,
         metadata: RecordMetadata,
     ) -> ParseResult<V::Output> {
         use perf_event_open_sys::bindings::*;
 
-        let mut p = Parser::new(self.data, self.config.with_misc(metadata.misc()));
+        let p = &mut self;
 
         Ok(match metadata.ty() {
             PERF_RECORD_MMAP => visitor.visit_mmap(p.parse()?, metadata),
-- 
2.43.0

