From f9560ddcdc614febd2c219ac91244f795fb852d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 1/5] fix: rigid body with a truncated velocity is not a
 complete rigid body

A body that is not sleeping carries both velocities. When the network data
ended inside one of them the attribute was still returned, with None in its
place, and decoding went on with whatever bits were left.
---
 src/network/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/network/attributes.rs b/src/network/attributes.rs
index 8230eae..f5cd96f 100644
--- a/src/network/attributes.rs
+++ b/src/network/attributes.rs
@@ -1267,8 +1267,8 @@ impl AttributeDecoder {
         let mut angular_velocity = None;
 
         if !sleeping {
-            linear_velocity = Some(Vector3f::decode(bits, self.version.net_version()))?;
-            angular_velocity = Some(Vector3f::decode(bits, self.version.net_version()))?;
+            linear_velocity = Some(Vector3f::decode(bits, self.version.net_version())?);
+            angular_velocity = Some(Vector3f::decode(bits, self.version.net_version())?);
         }
 
         Some(RigidBody {
-- 
2.43.0


From 6c5c4c2e21ee8453437aff50acb0f0e551deff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 2/5] fix: forget deleted actors whatever their id

Deleting an actor with an id below 200 left it in place, so an update for it
was decoded as if it were still alive, while the same update for an actor with
a larger id was rejected as referring to an unknown actor.
---
 src/network/frame_decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/network/frame_decoder.rs b/src/network/frame_decoder.rs
index 6f2ff15..e8b4c4e 100644
--- a/src/network/frame_decoder.rs
+++ b/src/network/frame_decoder.rs
@@ -45,8 +45,10 @@ impl<T> RawSegmentedArray<T> {
     }
 
     pub(crate) fn delete(&mut self, key: usize) {
-        match self.array.get(key) {
-            Some(_) => {} // skip removing
+        match self.array.get_mut(key) {
+            Some(entry) => {
+                *entry = None;
+            }
             None => {
                 self.map.remove(&key);
             }
-- 
2.43.0


From 5055d1b36c4c739e94edcadfffd5a3e6cff03a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 3/5] fix: limit how deep header properties can nest

Arrays and structs were parsed recursively without a limit, so a small crafted
header overflowed the stack and aborted the process.
---
 src/header.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index c92479f..88bc765 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -72,6 +72,11 @@ pub fn parse_header(rlp: &mut CoreParser) -> Result<Header, ParseError> {
     })
 }
 
+/// How deep arrays and structs can be nested. The properties of real replays are
+/// only a few levels deep, so what exceeds this is not a replay, and following it
+/// any further would exhaust the stack.
+const MAX_DEPTH: usize = 64;
+
 #[derive(Clone, Copy)]
 enum ParserMode {
     Standard,
@@ -82,6 +87,21 @@ fn parse_rdict(
     rlp: &mut CoreParser,
     mode: ParserMode,
 ) -> Result<Vec<(String, HeaderProp)>, ParseError> {
+    parse_nested_rdict(rlp, mode, 0)
+}
+
+fn parse_nested_rdict(
+    rlp: &mut CoreParser,
+    mode: ParserMode,
+    depth: usize,
+) -> Result<Vec<(String, HeaderProp)>, ParseError> {
+    if depth > MAX_DEPTH {
+        return Err(ParseError::UnexpectedProperty(format!(
+            "property nested more than {} levels deep",
+            MAX_DEPTH
+        )));
+    }
+
     // The return type of this function is a key value vector because since there is no format
     // specification, we can't rule out duplicate keys.
     let mut res: Vec<_> = Vec::new();
@@ -121,7 +141,7 @@ fn parse_rdict(
                     .parse_text()
                     .map(|kind| HeaderProp::Byte { kind, value: None }),
             },
-            "ArrayProperty" => array_property(rlp, mode),
+            "ArrayProperty" => array_property(rlp, mode, depth),
             "FloatProperty" => rlp
                 .take_bytes::<4>()
                 .map(f32::from_le_bytes)
@@ -138,7 +158,7 @@ fn parse_rdict(
             "StrProperty" => rlp.parse_text().map(HeaderProp::Str),
             "StructProperty" => {
                 let name = rlp.parse_str()?;
-                let fields = parse_rdict(rlp, mode)?;
+                let fields = parse_nested_rdict(rlp, mode, depth + 1)?;
                 Ok(HeaderProp::Struct {
                     name: String::from(name),
                     fields,
@@ -157,9 +177,13 @@ fn bool_prop(data: &[u8]) -> HeaderProp {
     HeaderProp::Bool(data[0] == 1)
 }
 
-fn array_property(rlp: &mut CoreParser, mode: ParserMode) -> Result<HeaderProp, ParseError> {
+fn array_property(
+    rlp: &mut CoreParser,
+    mode: ParserMode,
+    depth: usize,
+) -> Result<HeaderProp, ParseError> {
     let size = rlp.take_i32("array property size")?;
-    let arr = CoreParser::repeat(size as usize, || parse_rdict(rlp, mode))?;
+    let arr = CoreParser::repeat(size as usize, || parse_nested_rdict(rlp, mode, depth + 1))?;
     Ok(HeaderProp::Array(arr))
 }
 
-- 
2.43.0


From 10ad96fca2ff3180a185b2d167001c9410f31e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 4/5] fix: offsets beyond 2 GiB no longer overflow

---
 src/core_parser.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core_parser.rs b/src/core_parser.rs
index d033734..57ce2c6 100644
--- a/src/core_parser.rs
+++ b/src/core_parser.rs
@@ -18,6 +18,13 @@ impl<'a> CoreParser<'a> {
         self.col
     }
 
+    /// Moves the offset, which stays at the largest one that can be represented
+    /// when parsing gets beyond 2 GiB
+    fn advance(&mut self, size: usize) {
+        let size = i32::try_from(size).unwrap_or(i32::MAX);
+        self.col = self.col.saturating_add(size);
+    }
+
     /// Returns a slice of the replay after ensuring there is enough space for the requested slice
     pub fn view_data(&self, size: usize) -> Result<&'a [u8], ParseError> {
         self.data.get(..size).ok_or(ParseError::InsufficientData(
@@ -34,7 +41,7 @@ impl<'a> CoreParser<'a> {
                     N as i32,
                     self.data.len() as i32,
                 ))?;
-        self.col += N as i32;
+        self.advance(N);
         self.data = tail;
         Ok(*result)
     }
@@ -47,7 +54,7 @@ impl<'a> CoreParser<'a> {
                 size as i32,
                 self.data.len() as i32,
             ))?;
-        self.col += size as i32;
+        self.advance(size);
         self.data = tail;
         Ok(head)
     }
@@ -61,7 +68,7 @@ impl<'a> CoreParser<'a> {
                     N as i32,
                     self.data.len() as i32,
                 ))?;
-        self.col += N as i32;
+        self.advance(N);
         self.data = tail;
         Ok(*head)
     }
-- 
2.43.0


From 7c1233b7817150c678d7c821ea05afa5724f3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 5/5] fix: sizes beyond 2 GiB are not reported as negative

---
 src/core_parser.rs | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/core_parser.rs b/src/core_parser.rs
index 57ce2c6..b095abc 100644
--- a/src/core_parser.rs
+++ b/src/core_parser.rs
@@ -18,6 +18,12 @@ impl<'a> CoreParser<'a> {
         self.col
     }
 
+    /// The number of bytes left, as errors report it: at most the largest number
+    /// that can be represented, instead of a negative one
+    fn available(&self) -> i32 {
+        i32::try_from(self.data.len()).unwrap_or(i32::MAX)
+    }
+
     /// Moves the offset, which stays at the largest one that can be represented
     /// when parsing gets beyond 2 GiB
     fn advance(&mut self, size: usize) {
@@ -27,20 +33,16 @@ impl<'a> CoreParser<'a> {
 
     /// Returns a slice of the replay after ensuring there is enough space for the requested slice
     pub fn view_data(&self, size: usize) -> Result<&'a [u8], ParseError> {
-        self.data.get(..size).ok_or(ParseError::InsufficientData(
-            size as i32,
-            self.data.len() as i32,
-        ))
+        self.data
+            .get(..size)
+            .ok_or(ParseError::InsufficientData(size as i32, self.available()))
     }
 
     pub fn take_bytes<const N: usize>(&mut self) -> Result<[u8; N], ParseError> {
-        let (result, tail) =
-            self.data
-                .split_first_chunk::<N>()
-                .ok_or(ParseError::InsufficientData(
-                    N as i32,
-                    self.data.len() as i32,
-                ))?;
+        let (result, tail) = self
+            .data
+            .split_first_chunk::<N>()
+            .ok_or(ParseError::InsufficientData(N as i32, self.available()))?;
         self.advance(N);
         self.data = tail;
         Ok(*result)
@@ -50,10 +52,7 @@ impl<'a> CoreParser<'a> {
         let (head, tail) = self
             .data
             .split_at_checked(size)
-            .ok_or(ParseError::InsufficientData(
-                size as i32,
-                self.data.len() as i32,
-            ))?;
+            .ok_or(ParseError::InsufficientData(size as i32, self.available()))?;
         self.advance(size);
         self.data = tail;
         Ok(head)
@@ -61,13 +60,10 @@ impl<'a> CoreParser<'a> {
 
     #[inline]
     pub fn take<const N: usize>(&mut self) -> Result<[u8; N], ParseError> {
-        let (head, tail) =
-            self.data
-                .split_first_chunk::<N>()
-                .ok_or(ParseError::InsufficientData(
-                    N as i32,
-                    self.data.len() as i32,
-                ))?;
+        let (head, tail) = self
+            .data
+            .split_first_chunk::<N>()
+            .ok_or(ParseError::InsufficientData(N as i32, self.available()))?;
         self.advance(N);
         self.data = tail;
         Ok(*head)
-- 
2.43.0

