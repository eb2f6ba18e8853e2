From f974049b58d9095f0d503f57bbc8091288e3e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 01/26] fix: report an error when a JSON io writer stops
 accepting bytes

A zero-length write was treated as success, silently truncating the output.
---
 json/src/to_io.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json/src/to_io.rs b/json/src/to_io.rs
index 96f805b..5f427b8 100644
--- a/json/src/to_io.rs
+++ b/json/src/to_io.rs
@@ -20,7 +20,10 @@ pub fn stream_to_io_write(io: impl Write, v: impl sval::Value) -> Result<(), Err
 
             while buf.len() > 0 {
                 match self.io.write(buf) {
-                    Ok(0) => break,
+                    Ok(0) => {
+                        self.err = Some(io::Error::from(io::ErrorKind::WriteZero));
+                        return Err(fmt::Error);
+                    }
                     Ok(n) => {
                         buf = &buf[n..];
                     }
-- 
2.43.0


From 95bf4e28431c1e860ba1a43c2b90628e1a15b676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 02/26] fix: write valid JSON for NUMBER text with a zero
 integral and an exponent

Text like `0e5` or `-00E1` lost its integral part.
---
 json/src/to_fmt.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 464e7bf..16c806e 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -630,6 +630,18 @@ impl NumberTextHandler {
                         range.start += 1;
                         range.end += 1;
                     }
+                    // If we encounter an exponent before any significant digits, like `0e5`,
+                    // then we need to write the `0` that was skipped as a leading zero
+                    b'e' | b'E' if self.at_start => {
+                        if self.sign_negative {
+                            _try_no_conv!(out.write_char('-'));
+                        }
+
+                        _try_no_conv!(out.write_char('0'));
+
+                        self.at_start = false;
+                        range.end += 1;
+                    }
                     // `snan`, `nan`, `inf` in any casing should write `null`
                     b's' | b'n' | b'i' | b'S' | b'N' | b'I' => {
                         self.is_nan_or_infinity = true;
-- 
2.43.0


From 1922d0398663e7ff9c3dab6a04837d7954252050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 03/26] fix: don't let a labelled map key tag the JSON map
 value that follows it

A tagged or enum key left the internal tagging state set, so a record, tuple
or enum in value position was wrapped in an object that was never closed.
---
 json/src/to_fmt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 16c806e..0da8577 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -249,6 +249,7 @@ where
         _try!(self.out.write_str("\":"));
 
         self.is_text_quoted = true;
+        self.is_internally_tagged = false;
 
         Ok(())
     }
-- 
2.43.0


From 11447e064d60663d34fa414980a7ae2757cb674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 04/26] fix: support number and native JSON text as tagged enum
 variants in JSON

A labelled variant tagged NUMBER, JSON_NUMBER or JSON_VALUE failed with an
invalid key error.
---
 json/src/to_fmt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 0da8577..eede954 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -339,6 +339,10 @@ where
         label: Option<&sval::Label>,
         index: Option<&sval::Index>,
     ) -> sval::Result {
+        // This needs to happen before changing how text is written so the label
+        // isn't affected by it
+        _try_no_conv!(self.internally_tagged_begin(label, index));
+
         match tag {
             Some(&tags::JSON_TEXT) => {
                 self.text_handler = Some(TextHandler::native());
@@ -361,7 +365,6 @@ where
             _ => (),
         }
 
-        _try_no_conv!(self.internally_tagged_begin(label, index));
         self.is_current_depth_empty = true;
 
         Ok(())
-- 
2.43.0


From f9c724b16a25e4bd2dd19a19d2c4891dda6dcd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:29 +0000
Subject: [PATCH 05/26] fix: close exactly the JSON objects opened by nested
 enums

An unlabelled enum containing a labelled variant, nested in another enum,
wrote an extra closing brace.
---
 json/src/to_fmt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index eede954..6f74c94 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -327,10 +327,10 @@ where
         }
 
         if self.is_internally_tagged {
-            self.internally_tagged_map_end()
-        } else {
-            self.internally_tagged_end(label, index)
+            _try_no_conv!(self.internally_tagged_map_end());
         }
+
+        self.internally_tagged_end(label, index)
     }
 
     fn tagged_begin(
-- 
2.43.0


From c2b1070f34db432f1c1937f2aba1a7296b3bad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:03 +0000
Subject: [PATCH 06/26] fix: escape native JSON values used as JSON map keys

A `JsonStr` holding a string was embedded unescaped between the quotes of the
key, producing malformed JSON.
---
 json/src/to_fmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 6f74c94..b24de5c 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -347,7 +347,8 @@ where
             Some(&tags::JSON_TEXT) => {
                 self.text_handler = Some(TextHandler::native());
             }
-            Some(&tags::JSON_VALUE) => {
+            // JSON values can't be embedded directly as map keys, so they're escaped like other text
+            Some(&tags::JSON_VALUE) if self.is_text_quoted => {
                 self.is_text_quoted = false;
                 self.text_handler = Some(TextHandler::native());
             }
-- 
2.43.0


From f90fed9e26344626d36d0781a7f7dba2f577c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:24 +0000
Subject: [PATCH 07/26] fix: keep the tag hint of a label when cloning or
 making it owned

---
 nested/src/lib.rs |  8 +++-----
 src/data.rs       | 20 +++++++++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index fecf900..164bc89 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -914,11 +914,9 @@ fn owned_label_ref(label: &sval::Label) -> Result<sval::Label<'static>> {
     }
     #[cfg(not(feature = "alloc"))]
     {
-        if let Some(label) = label.as_static_str() {
-            Ok(sval::Label::new(label))
-        } else {
-            Err(Error::no_alloc("streaming value"))
-        }
+        label
+            .try_to_owned()
+            .map_err(|_| Error::no_alloc("streaming value"))
     }
 }
 
diff --git a/src/data.rs b/src/data.rs
index 96d28f5..62bad3d 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -162,9 +162,13 @@ impl<'computed> Label<'computed> {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            self.as_static_str()
+            let mut owned = self
+                .as_static_str()
                 .map(Label::new)
-                .ok_or_else(crate::Error::new)
+                .ok_or_else(crate::Error::new)?;
+            owned.tag = self.tag.clone();
+
+            Ok(owned)
         }
     }
 }
@@ -570,7 +574,10 @@ mod alloc_support {
         fn clone(&self) -> Self {
             if let Some(owned) = self.backing_field_owned {
                 // SAFETY: `owned` lives as long as `Label`
-                Label::new_owned(unsafe { &*owned }.to_owned())
+                let mut cloned = Label::new_owned(unsafe { &*owned }.to_owned());
+                cloned.tag = self.tag.clone();
+
+                cloned
             } else {
                 Label {
                     value_computed: self.value_computed,
@@ -590,11 +597,14 @@ mod alloc_support {
         This method will allocate if the label isn't based on a static string.
         */
         pub fn to_owned(&self) -> Label<'static> {
-            if let Some(backing_field_static) = self.backing_field_static {
+            let mut owned = if let Some(backing_field_static) = self.backing_field_static {
                 Label::new(backing_field_static)
             } else {
                 Label::new_owned(self.as_str().into())
-            }
+            };
+            owned.tag = self.tag.clone();
+
+            owned
         }
     }
 
-- 
2.43.0


From fd3c2d008dec9c24ed46472abdf902a1431b453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:25 +0000
Subject: [PATCH 08/26] fix: return an error when collecting text or binary
 from a value that fails itself

---
 buffer/src/fragments.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/buffer/src/fragments.rs b/buffer/src/fragments.rs
index d75d51c..8aeb934 100644
--- a/buffer/src/fragments.rs
+++ b/buffer/src/fragments.rs
@@ -40,11 +40,12 @@ impl<'sval> TextBuf<'sval> {
             err: None,
         };
 
-        value
-            .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
-
-        Ok(collector.buf)
+        match value.stream(&mut collector) {
+            Ok(()) => Ok(collector.buf),
+            Err(_) => Err(collector
+                .err
+                .unwrap_or_else(|| Error::invalid_value("the value itself failed to stream"))),
+        }
     }
 
     /**
@@ -297,11 +298,12 @@ impl<'sval> BinaryBuf<'sval> {
             err: None,
         };
 
-        value
-            .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
-
-        Ok(collector.buf)
+        match value.stream(&mut collector) {
+            Ok(()) => Ok(collector.buf),
+            Err(_) => Err(collector
+                .err
+                .unwrap_or_else(|| Error::invalid_value("the value itself failed to stream"))),
+        }
     }
 
     /**
-- 
2.43.0


From 5996bea72aad7cfe9b3cc5f90b5577b5dd67e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:02 +0000
Subject: [PATCH 09/26] fix: don't treat a tag hint without a value as a
 complete buffer

---
 buffer/src/value.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index 8534aa0..fb8ab64 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -165,7 +165,14 @@ impl<'sval> ValueBuf<'sval> {
     Whether or not the contents of the value buffer are complete.
     */
     pub fn is_complete(&self) -> bool {
-        self.stack.len() == 0 && self.parts.len() > 0 && !self.is_in_text_or_binary
+        self.stack.len() == 0
+            && !self.is_in_text_or_binary
+            // A hint on its own isn't a value; it describes the one that follows
+            && self
+                .parts
+                .last()
+                .map(|part| !matches!(part.kind, ValueKind::TagHint { .. }))
+                .unwrap_or(false)
     }
 
     /**
-- 
2.43.0


From 661c80f1c0da832ffb8bc4b33bfb6a68d42e468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:02 +0000
Subject: [PATCH 10/26] fix: accept tag hints between text and binary fragments
 when buffering

---
 buffer/src/value.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index fb8ab64..e443453 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -646,6 +646,11 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
         &mut self,
         tag: &sval::Tag,
     ) -> sval::Result {
+        // Hints between fragments can't be represented by the buffer
+        if self.is_in_text_or_binary {
+            return Ok(());
+        }
+
         self.try_catch(|buf| {
             buf.push_kind(ValueKind::TagHint {
                 tag: tag.clone(),
-- 
2.43.0


From 996dcada6297189ffb5a998c17db2187a2d951dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:39 +0000
Subject: [PATCH 11/26] fix: cast values that stream i64 or narrower to signed
 integers

---
 src/value.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 928a263..4782636 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -621,8 +621,9 @@ pub mod default_value {
                 crate::error()
             }
 
-            fn i64(&mut self, _: i64) -> Result {
-                crate::error()
+            fn i64(&mut self, value: i64) -> Result {
+                self.0 = Some(value.into());
+                Ok(())
             }
 
             fn f64(&mut self, _: f64) -> Result {
-- 
2.43.0


From f5f51e9e5bb1deec9aa1cac1d5b7ee24f9b2c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:34 +0000
Subject: [PATCH 12/26] fix: don't append the enum label after an empty
 container when formatting

---
 fmt/src/writer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fmt/src/writer.rs b/fmt/src/writer.rs
index e8ec851..3700552 100644
--- a/fmt/src/writer.rs
+++ b/fmt/src/writer.rs
@@ -304,6 +304,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_map_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -335,6 +337,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_seq_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -471,6 +475,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_record_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -521,6 +527,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_tuple_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 }
-- 
2.43.0


From e28a5c2e4a84f8e1a34f7bcf171b4cb9c1c335c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:02 +0000
Subject: [PATCH 13/26] fix: format floats like their Debug implementations do

---
 fmt/src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fmt/src/writer.rs b/fmt/src/writer.rs
index 3700552..c2297d0 100644
--- a/fmt/src/writer.rs
+++ b/fmt/src/writer.rs
@@ -1,5 +1,5 @@
 use crate::{tags, TokenWrite};
-use core::fmt::{self, Display, Write};
+use core::fmt::{self, Debug, Write};
 
 pub(crate) struct Writer<W> {
     is_current_depth_empty: bool,
-- 
2.43.0


From ffb2dab140a540fa0132c2761ba5737c41ad8871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:44 +0000
Subject: [PATCH 14/26] fix: don't swallow errors from values that fail after
 completing a nested stream

---
 nested/src/flat.rs |  9 +++++++++
 nested/src/lib.rs  | 16 ++++++++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index b94d386..9f4f498 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -165,6 +165,15 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
         }
     }
 
+    pub fn finish_with(&mut self, r: sval::Result) -> Result<S::Ok> {
+        let ok = self.finish()?;
+
+        // The value may have completed the stream before failing
+        r.map_err(|_| Error::invalid_value("the value itself failed to stream"))?;
+
+        Ok(ok)
+    }
+
     pub fn finish(&mut self) -> Result<S::Ok> {
         if let State::Done(ref mut r) = self.state {
             r.take()
diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index 164bc89..0ab0763 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -935,8 +935,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval_ref::stream_ref(&mut stream, value);
-        stream.finish()
+        let r = sval_ref::stream_ref(&mut stream, value);
+        stream.finish_with(r)
     }
 
     /**
@@ -957,8 +957,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval::default_stream::value_computed(&mut stream, &value);
-        stream.finish()
+        let r = sval::default_stream::value_computed(&mut stream, &value);
+        stream.finish_with(r)
     }
 
     /**
@@ -990,8 +990,8 @@ pub mod default_stream {
             stream.i64(value)
         } else {
             let mut stream = FlatStream::new(stream);
-            let _ = sval::stream_number(&mut stream, value);
-            stream.finish()
+            let r = sval::stream_number(&mut stream, value);
+            stream.finish_with(r)
         }
     }
 
@@ -1031,8 +1031,8 @@ pub mod default_stream {
             stream.i64(value)
         } else {
             let mut stream = FlatStream::new(stream);
-            let _ = sval::stream_number(&mut stream, value);
-            stream.finish()
+            let r = sval::stream_number(&mut stream, value);
+            stream.finish_with(r)
         }
     }
 
-- 
2.43.0


From ae288ff6389f56fc465c1623c6c478fa99ef2159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:25 +0000
Subject: [PATCH 15/26] fix: forward sequence element boundaries to buffered
 nested sequences

---
 nested/src/flat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index 9f4f498..1227737 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -259,11 +259,11 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
     }
 
     fn seq_value_begin(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_begin(), |_| Ok(()))
     }
 
     fn seq_value_end(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_end(), |_| Ok(()))
     }
 
     fn seq_end(&mut self) -> sval::Result {
-- 
2.43.0


From 013553017d550ea13f8d2065934869d3350bb987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:01 +0000
Subject: [PATCH 16/26] fix: return an error instead of panicking for records
 and tuples in nested enums

---
 nested/src/flat_enum.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 7363aa2..9b64ee9 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -186,7 +186,11 @@ impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S> {
         index: Option<sval::Index>,
         num_entries: Option<usize>,
     ) -> Result<Self::Tuple> {
-        assert!(self.queue.is_empty());
+        if !self.queue.is_empty() {
+            return Err(Error::invalid_value(
+                "tuples are unsupported as variants of nested enums",
+            ));
+        }
 
         self.stream.tuple_begin(tag, label, index, num_entries)
     }
@@ -198,7 +202,11 @@ impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S> {
         index: Option<sval::Index>,
         num_entries: Option<usize>,
     ) -> Result<Self::Record> {
-        assert!(self.queue.is_empty());
+        if !self.queue.is_empty() {
+            return Err(Error::invalid_value(
+                "records are unsupported as variants of nested enums",
+            ));
+        }
 
         self.stream.record_begin(tag, label, index, num_entries)
     }
@@ -209,7 +217,7 @@ impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S> {
         _: Option<sval::Label>,
         _: Option<sval::Index>,
     ) -> Result<Self::Enum> {
-        unreachable!()
+        Err(Error::invalid_value("enums are unsupported"))
     }
 }
 
-- 
2.43.0


From d297e21097e360ef723390efd0943358f3a11a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:40 +0000
Subject: [PATCH 17/26] fix: complete empty enums in nested streams instead of
 recursing forever

---
 nested/src/flat_enum.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 9b64ee9..50146ba 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -40,7 +40,11 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
     }
 
     pub fn end(self) -> Result<S::Ok> {
-        self.value_or_recurse(|stream, _| stream.end(), |stream, _| stream.end(), ())
+        self.value_or_recurse(
+            |stream, _| stream.stream.empty(),
+            |stream, _| stream.end(),
+            (),
+        )
     }
 
     fn value_or_recurse<I>(
-- 
2.43.0


From ba83c0f3974e3fe2322287f134333a930c2a39ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:08 +0000
Subject: [PATCH 18/26] fix: serialize tagged values without a label, such as
 arrays, through serde

---
 serde/src/to_serialize.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/serde/src/to_serialize.rs b/serde/src/to_serialize.rs
index e0f54d6..5328158 100644
--- a/serde/src/to_serialize.rs
+++ b/serde/src/to_serialize.rs
@@ -201,11 +201,14 @@ impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S> {
                 Ok(self.serializer.serialize_some(&ToSerialize::new(value)))
             }
             _ => {
-                let name = label
-                    .and_then(|label| label.as_static_str())
-                    .ok_or_else(|| {
-                        sval_nested::Error::invalid_value("newtype label must be static")
-                    })?;
+                // A tagged value without a label doesn't have a name; serialize it directly
+                let Some(label) = label else {
+                    return Ok(ToSerialize::new(value).serialize(self.serializer));
+                };
+
+                let name = label.as_static_str().ok_or_else(|| {
+                    sval_nested::Error::invalid_value("newtype label must be static")
+                })?;
 
                 Ok(self
                     .serializer
-- 
2.43.0


From 35833fe824313684318e611fa1b5470ed9e20dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:10 +0000
Subject: [PATCH 19/26] fix: don't panic when flattening a tagged value that
 contains an enum

---
 flatten/src/flattener.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index a3c412f..b6048e2 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -419,7 +419,10 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
         index: Option<&Index>,
     ) -> sval::Result {
         self.value_at_root(
-            |_, _| Ok(()),
+            |_, state| {
+                state.in_flattening_enum = false;
+                Ok(())
+            },
             |buf| buf.enum_end(tag, label, index),
             |stream| stream.enum_end(tag, label, index),
         )
-- 
2.43.0


From 35ea8a116fb9013048065e54927dfce5f8f7687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:30 +0000
Subject: [PATCH 20/26] fix: end nested map keys when flattening

---
 flatten/src/flattener.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index b6048e2..97dc89d 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -302,7 +302,7 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
                 state.in_flattening_map_key = false;
                 Ok(())
             },
-            |stream| stream.map_key_begin(),
+            |stream| stream.map_key_end(),
         )
     }
 
-- 
2.43.0


From 5e957e46459c40d9942d6652338a43b5945192c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:39 +0000
Subject: [PATCH 21/26] fix: don't panic when flattening fields with the
 largest index

---
 flatten/src/index.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flatten/src/index.rs b/flatten/src/index.rs
index d41d0c1..720a115 100644
--- a/flatten/src/index.rs
+++ b/flatten/src/index.rs
@@ -20,7 +20,7 @@ impl IndexAllocator {
             Some(incoming) => match (incoming.tag(), incoming.to_isize()) {
                 // If the incoming tag is a value offset then increment it by our starting point
                 (Some(&sval::tags::VALUE_OFFSET), Some(incoming)) => {
-                    Index::new_isize(incoming + self.initial_offset)
+                    Index::new_isize(incoming.wrapping_add(self.initial_offset))
                         .with_tag(&sval::tags::VALUE_OFFSET)
                 }
                 // If the incoming tag is not a value offset then just use it directly
@@ -33,7 +33,10 @@ impl IndexAllocator {
 
     pub(crate) fn next_end(&mut self, incoming: Option<&Index>) -> Index {
         let index = self.next_begin(incoming);
-        self.current_offset = index.to_isize().unwrap_or(self.current_offset) + 1;
+        self.current_offset = index
+            .to_isize()
+            .unwrap_or(self.current_offset)
+            .wrapping_add(1);
 
         index
     }
-- 
2.43.0


From ffa0fe46c1e79d134126afbdca59074b1a64e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:34 +0000
Subject: [PATCH 22/26] fix: concatenate numbers in complex map keys when
 flattening onto records

---
 flatten/src/label.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/flatten/src/label.rs b/flatten/src/label.rs
index d15da13..24c224b 100644
--- a/flatten/src/label.rs
+++ b/flatten/src/label.rs
@@ -41,18 +41,25 @@ impl<'sval> LabelBuf<'sval> {
     }
 
     pub(crate) fn i128(&mut self, v: impl TryInto<i128>) -> sval::Result {
-        *self = LabelBuf::I128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::I128(v.try_into().map_err(|_| sval::Error::new())?))
     }
 
     pub(crate) fn u128(&mut self, v: impl TryInto<u128>) -> sval::Result {
-        *self = LabelBuf::U128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::U128(v.try_into().map_err(|_| sval::Error::new())?))
     }
 
     pub(crate) fn f64(&mut self, v: impl TryInto<f64>) -> sval::Result {
-        *self = LabelBuf::F64(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::F64(v.try_into().map_err(|_| sval::Error::new())?))
+    }
+
+    fn number(&mut self, number: LabelBuf<'sval>) -> sval::Result {
+        // Only a label that's a single number can avoid buffering text
+        if let LabelBuf::Empty = self {
+            *self = number;
+            return Ok(());
+        }
+
+        number.with_label(|number| self.text_fragment_computed(number.as_str()))
     }
 
     pub(crate) fn null(&mut self) -> sval::Result {
@@ -98,8 +105,16 @@ impl<'sval> LabelBuf<'sval> {
         match self {
             LabelBuf::Text(buf) => Ok(buf),
             _ => {
-                *self = LabelBuf::Text(TextBuf::new());
+                let number = mem::replace(self, LabelBuf::Text(TextBuf::new()));
                 if let LabelBuf::Text(buf) = self {
+                    // Retain any number that's already been buffered
+                    if !matches!(number, LabelBuf::Empty) {
+                        number.with_label(|number| {
+                            buf.push_fragment_computed(number.as_str())
+                                .map_err(|_| sval::Error::new())
+                        })?;
+                    }
+
                     Ok(buf)
                 } else {
                     unreachable!()
-- 
2.43.0


From 21a8425ecc97965a76c14ad2f77d6011704f8408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:31 +0000
Subject: [PATCH 23/26] fix: let sval_nested's no_debug_assertions feature
 return errors instead of panicking

---
 nested/src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nested/src/error.rs b/nested/src/error.rs
index 38f89dd..f8138f5 100644
--- a/nested/src/error.rs
+++ b/nested/src/error.rs
@@ -53,11 +53,11 @@ impl Error {
         The pattern here is the same as what's used in `sval_buffer`.
         */
 
-        #[cfg(all(debug_assertions, not(no_debug_assertions), not(test)))]
+        #[cfg(all(debug_assertions, not(feature = "no_debug_assertions"), not(test)))]
         {
             panic!("attempt to allocate for {} would fail; add the `alloc` feature of `sval_nested` or the depdendent `sval_*` library to support allocation. This call will error instead of panicking in release builds. Add the `no_debug_assertions` feature of `sval_nested` if this error is expected.", method);
         }
-        #[cfg(not(all(debug_assertions, not(no_debug_assertions), not(test))))]
+        #[cfg(not(all(debug_assertions, not(feature = "no_debug_assertions"), not(test))))]
         {
             Error(ErrorKind::NoAlloc { method })
         }
-- 
2.43.0


From 9d27358c4db861f8d7d01bb6246d4bf35a006e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:18 +0000
Subject: [PATCH 24/26] fix: return an error for text or binary fragments
 pushed onto an empty ValueBuf instead of panicking

---
 buffer/src/value.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index e443453..b3b5a9c 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -415,14 +415,14 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
     }
 
     fn text_fragment(&mut self, fragment: &'sval str) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
+        self.try_catch(|buf| match buf.current_mut("text")?.kind {
             ValueKind::Text(ref mut text) => text.push_fragment(fragment),
             _ => Err(Error::outside_container("text")),
         })
     }
 
     fn text_fragment_computed(&mut self, fragment: &str) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
+        self.try_catch(|buf| match buf.current_mut("text")?.kind {
             ValueKind::Text(ref mut text) => text.push_fragment_computed(fragment),
             _ => Err(Error::outside_container("text")),
         })
@@ -442,14 +442,14 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
     }
 
     fn binary_fragment(&mut self, fragment: &'sval [u8]) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
+        self.try_catch(|buf| match buf.current_mut("binary")?.kind {
             ValueKind::Binary(ref mut binary) => binary.push_fragment(fragment),
             _ => Err(Error::outside_container("binary")),
         })
     }
 
     fn binary_fragment_computed(&mut self, fragment: &[u8]) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
+        self.try_catch(|buf| match buf.current_mut("binary")?.kind {
             ValueKind::Binary(ref mut binary) => binary.push_fragment_computed(fragment),
             _ => Err(Error::outside_container("binary")),
         })
@@ -988,8 +988,10 @@ impl<'sval> ValueBuf<'sval> {
         Ok(())
     }
 
-    fn current_mut(&mut self) -> &mut ValuePart<'sval> {
-        self.parts.last_mut().expect("missing current")
+    fn current_mut(&mut self, method: &'static str) -> Result<&mut ValuePart<'sval>, Error> {
+        self.parts
+            .last_mut()
+            .ok_or_else(|| Error::outside_container(method))
     }
 }
 
-- 
2.43.0


From 759eaf47921b50db8c2f873c06fd06c050296735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:49 +0000
Subject: [PATCH 25/26] fix: return an error for an end call with nothing to
 end when flattening instead of overflowing the depth

---
 flatten/src/flattener.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index 97dc89d..6bada71 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -128,6 +128,10 @@ impl<'sval, S: Flatten<'sval>> Flattener<'sval, S> {
         flatten: impl FnOnce(&mut S, &mut FlattenerState<'sval>) -> sval::Result,
         passthru: impl FnOnce(&mut S::Stream) -> sval::Result,
     ) -> sval::Result {
+        if self.state.depth == 0 {
+            return sval::error();
+        }
+
         if self.state.in_flattening_map_key {
             buffer(self.stream.label_stream())?
         } else if self.state.depth == 1 {
-- 
2.43.0


From 569cc71fb12f5addb524d4508dc1b0f274c3b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:49 +0000
Subject: [PATCH 26/26] fix: don't split characters when writing text that
 isn't a number as a JSON number

---
 json/src/to_fmt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index b24de5c..4738f74 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -659,7 +659,11 @@ impl NumberTextHandler {
 
                         break;
                     }
-                    _ => range.end += 1,
+                    // If we encounter anything else then there's nothing more to shift over
+                    _ => {
+                        self.at_start = false;
+                        range.end += 1;
+                    }
                 }
             }
 
-- 
2.43.0

