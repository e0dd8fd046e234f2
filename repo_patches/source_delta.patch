From faedab2018b8bd3c653e09c5858d0e063dc4462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:58 +0000
Subject: [PATCH 01/32] fix: decode percent-escapes in URL paths as UTF-8 bytes

Each escaped byte was turned into a char of its own, so every non-ASCII
path variable reached the handler garbled, and "%+1" was accepted as an
escape.
---
 src/deserializers/url_path.rs | 24 +-----------------------
 src/misc.rs                   | 22 +++++++++++++++++++++-
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index a4bd233..ca7e9b5 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -5,6 +5,7 @@ use std::str::Split;
 use trackable::error::ErrorKindExt;
 use url::Url;
 
+use misc::percent_decode;
 use types::EntryPoint;
 use {Error, ErrorKind, Result};
 
@@ -337,29 +338,6 @@ where
     Ok(v)
 }
 
-fn percent_decode(s: &str) -> Result<String> {
-    let mut chars = s.chars();
-    let mut decoded = String::new();
-    while let Some(c) = chars.next() {
-        if c == '%' {
-            let h0 = track!(chars
-                .next()
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let h1 = track!(chars
-                .next()
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let code = track!(u32::from_str_radix(&format!("{h0}{h1}"), 16)
-                .map_err(|e| track!(ErrorKind::Invalid.cause(e))))?;
-            let c = track!(char::from_u32(code)
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            decoded.push(c);
-            continue;
-        }
-        decoded.push(c);
-    }
-    Ok(decoded)
-}
-
 #[cfg(test)]
 mod test {
     use serde::Deserialize;
diff --git a/src/misc.rs b/src/misc.rs
index 404aeaf..d5c534d 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,7 +1,8 @@
 use std::sync::{Once};
+use trackable::error::ErrorKindExt;
 use url::Url;
 
-use {Error, Result};
+use {Error, ErrorKind, Result};
 
 pub fn parse_relative_url(url: &str) -> Result<Url> {
     static mut DUMMY_BASE_URL: Option<&'static Url> = None;
@@ -22,3 +23,22 @@ pub fn parse_relative_url(url: &str) -> Result<Url> {
     )?;
     Ok(url)
 }
+
+/// Decodes a percent-encoded path segment.
+pub fn percent_decode(s: &str) -> Result<String> {
+    let mut bytes = s.bytes();
+    let mut decoded = Vec::with_capacity(s.len());
+    while let Some(b) = bytes.next() {
+        if b == b'%' {
+            let hi = bytes.next().and_then(|b| (b as char).to_digit(16));
+            let lo = bytes.next().and_then(|b| (b as char).to_digit(16));
+            let code = track!(hi
+                .and_then(|hi| lo.map(|lo| hi * 16 + lo))
+                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
+            decoded.push(code as u8);
+        } else {
+            decoded.push(b);
+        }
+    }
+    track!(String::from_utf8(decoded).map_err(Error::from))
+}
-- 
2.43.0


From a29f99d6fc99ef9dd6bd24bcc577bbe4f7fea617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:59 +0000
Subject: [PATCH 02/32] fix: spell the boolean value "true" correctly

The path, query and header serializers wrote "ture", which no peer can
decode.
---
 src/serializers/http_header.rs | 2 +-
 src/serializers/url_path.rs    | 2 +-
 src/serializers/url_query.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index b007dbf..48b4b94 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index cbe723d..bb82d84 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -68,7 +68,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlPathSerializer<'b> {
     type SerializeStructVariant = Impossible<Self::Ok, Self::Error>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         track!(self.bind_next_var(s))?;
         Ok(())
     }
diff --git a/src/serializers/url_query.rs b/src/serializers/url_query.rs
index 493f0e5..0963eaa 100644
--- a/src/serializers/url_query.rs
+++ b/src/serializers/url_query.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlQuerySerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
-- 
2.43.0


From 71701b794fde68c1092b4beceb412dd07d365560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:01 +0000
Subject: [PATCH 03/32] fix: do not serialize the query as path when the path
 is omitted

A request with a "query" field but no "path" field could never be sent.
---
 src/serializers/rpc_request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index d5af33b..9cca66c 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -221,7 +221,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                         &self.entry_point,
                         &mut self.temp_url,
                     ))?;
-                    track!(value.serialize(&mut serializer))?;
+                    track!(().serialize(&mut serializer))?;
                     self.is_path_initialized = true;
                 }
                 {
-- 
2.43.0


From b3e95f931419bd517054aacf1fa9cdcb7f86cf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:02 +0000
Subject: [PATCH 04/32] fix: fail the call instead of panicking if the path is
 missing

A request without "path" field for an entry point with variables made the
client panic.
---
 src/serializers/rpc_request.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index 9cca66c..1dedf15 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -38,26 +38,26 @@ impl RpcRequestSerializer {
 
     /// Finishes the serialization and returns the resulting HTTP request and body.
     pub fn finish(mut self, body: &[u8]) -> Result<Request<TcpStream>> {
-        let mut request = self.take_request();
+        let mut request = track!(self.take_request())?;
         request.add_header(&ContentLength(body.len() as u64));
         Ok(request.finish())
     }
 
-    fn take_request(&mut self) -> RequestBuilder<TcpStream> {
+    fn take_request(&mut self) -> Result<RequestBuilder<TcpStream>> {
         if let Some(request) = self.request.take() {
-            request
+            Ok(request)
         } else {
             assert!(self.connection.is_some());
             if !self.is_path_initialized {
-                let mut serializer = track_try_unwrap!(UrlPathSerializer::new(
+                let mut serializer = track!(UrlPathSerializer::new(
                     &self.entry_point,
                     &mut self.temp_url,
-                ));
-                track_try_unwrap!(().serialize(&mut serializer));
+                ))?;
+                track!(().serialize(&mut serializer))?;
             }
             let relative_url = &self.temp_url[url::Position::BeforePath..];
             let connection = self.connection.take().unwrap();
-            connection.build_request(self.method, relative_url)
+            Ok(connection.build_request(self.method, relative_url))
         }
     }
 }
@@ -234,7 +234,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                 Ok(())
             }
             "header" => {
-                let mut request = self.take_request();
+                let mut request = track!(self.take_request())?;
                 {
                     let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
                     track!(value.serialize(&mut serializer))?;
-- 
2.43.0


From 9a7c315318a26916051fbea5387c7acd1dd243c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:25 +0000
Subject: [PATCH 05/32] fix: encode path segments without losing anything

Pushing segments through the URL parser dropped "." and ".." segments,
tabs, CRs, LFs and leading empty segments, so that the request went to
another entry point or arrived with another value. "." and "..", which no
URL path can carry, are refused.
---
 src/serializers/url_path.rs | 46 ++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index bb82d84..589660b 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -1,6 +1,6 @@
 use serde::{ser, Serialize};
 use serde::ser::Impossible;
-use url::{PathSegmentsMut, Url};
+use url::Url;
 use trackable::error::ErrorKindExt;
 
 use {Error, ErrorKind, Result};
@@ -8,7 +8,8 @@ use types::EntryPoint;
 
 /// `Serializer` implementation for URL path.
 pub struct UrlPathSerializer<'a> {
-    segments: PathSegmentsMut<'a>,
+    url: &'a mut Url,
+    path: String,
     entry_point: &'a EntryPoint,
     index: usize,
     is_started: bool,
@@ -16,12 +17,15 @@ pub struct UrlPathSerializer<'a> {
 impl<'a> UrlPathSerializer<'a> {
     /// Makes a new `UrlPathSerializer` instance.
     pub fn new(entry_point: &'a EntryPoint, url: &'a mut Url) -> Result<Self> {
-        let segments = track!(
-            url.path_segments_mut()
-                .map_err(|_| ErrorKind::Invalid.error(),)
-        )?;
+        track_assert!(!url.cannot_be_a_base(), ErrorKind::Invalid);
+        let path = if url.path() == "/" {
+            String::new()
+        } else {
+            url.path().to_owned()
+        };
         Ok(UrlPathSerializer {
-            segments,
+            url,
+            path,
             entry_point,
             index: 0,
             is_started: false,
@@ -30,26 +34,40 @@ impl<'a> UrlPathSerializer<'a> {
 
     fn bind_next_var(&mut self, value: &str) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
-        track_assert!(!self.append_until_next_var(), ErrorKind::Invalid);
-        self.segments.push(value);
+        track_assert!(!track!(self.append_until_next_var())?, ErrorKind::Invalid);
+        track!(self.push_segment(value))?;
         self.index += 1;
         Ok(())
     }
     fn finish(&mut self) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
-        track_assert!(self.append_until_next_var(), ErrorKind::Invalid);
+        track_assert!(track!(self.append_until_next_var())?, ErrorKind::Invalid);
+        self.url.set_path(&self.path);
         Ok(())
     }
-    fn append_until_next_var(&mut self) -> bool {
+    fn push_segment(&mut self, segment: &str) -> Result<()> {
+        // These have a special meaning in URLs even if they are percent-encoded.
+        track_assert!(segment != "." && segment != "..", ErrorKind::Invalid);
+        self.path.push('/');
+        for b in segment.bytes() {
+            match b {
+                b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' => self.path.push(b as char),
+                _ if b"-._~!$&'()*+,;=:@".contains(&b) => self.path.push(b as char),
+                _ => self.path.push_str(&format!("%{:02X}", b)),
+            }
+        }
+        Ok(())
+    }
+    fn append_until_next_var(&mut self) -> Result<bool> {
         while self.index < self.entry_point.segments().len() {
             if let Some(s) = self.entry_point.segments()[self.index].as_option() {
-                self.segments.push(s);
+                track!(self.push_segment(s))?;
                 self.index += 1;
             } else {
-                return false;
+                return Ok(false);
             }
         }
-        true
+        Ok(true)
     }
     fn var_count(&self) -> usize {
         self.entry_point.var_count()
-- 
2.43.0


From 74f25929e661673f08c2e0e74251ca74e878585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:26 +0000
Subject: [PATCH 06/32] fix: accept unit types as the path of a request

The client serializes `path: ()` but the server rejected it.
---
 src/deserializers/url_path.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index ca7e9b5..8b3812c 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -219,11 +219,13 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlPathDeserializer<'de> {
         track_panic!(ErrorKind::Invalid);
     }
 
-    fn deserialize_unit<V>(self, _visitor: V) -> Result<V::Value>
+    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        track_panic!(ErrorKind::Invalid);
+        track_assert!(!self.in_seq, ErrorKind::Invalid);
+        track!(self.finish())?;
+        track!(visitor.visit_unit())
     }
 
     fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
-- 
2.43.0


From b1efd7b4efa20cde079d01335954b83a597ef8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:52 +0000
Subject: [PATCH 07/32] fix: skip the values of unknown query parameters

The value of an unknown parameter was taken for the name of the next one.
---
 src/deserializers/url_query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/deserializers/url_query.rs b/src/deserializers/url_query.rs
index 27a88f8..7e0227c 100644
--- a/src/deserializers/url_query.rs
+++ b/src/deserializers/url_query.rs
@@ -299,6 +299,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlQueryDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        if self.in_map {
+            let _v = track!(self.next_str())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0


From 34dfd03ecebc4679a6d2b9b26a501eb251b869c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:53 +0000
Subject: [PATCH 08/32] fix: check the whole path when decoding it

Constant segments after the last variable, superfluous segments and a
path type with too few fields were not noticed; constants were compared
with the encoded segments, so constants that need percent-encoding never
matched.
---
 src/deserializers/url_path.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index 8b3812c..7ea1149 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -36,7 +36,9 @@ impl<'de> UrlPathDeserializer<'de> {
         self.segments.peek().is_none()
     }
     fn finish(&mut self) -> Result<()> {
-        for segment in &self.entry_point.segments()[self.index..] {
+        while self.index < self.entry_point.segments().len() {
+            let segment = &self.entry_point.segments()[self.index];
+            self.index += 1;
             let expected = track!(segment
                 .as_option()
                 .ok_or_else(|| ErrorKind::Invalid.error(),))?;
@@ -44,8 +46,15 @@ impl<'de> UrlPathDeserializer<'de> {
                 .segments
                 .next()
                 .ok_or_else(|| ErrorKind::Invalid.error(),))?;
+            let actual = track!(percent_decode(actual))?;
             track_assert_eq!(actual, expected, ErrorKind::Invalid);
         }
+        if self.entry_point.segments().is_empty() {
+            // The empty entry point denotes the path "/".
+            let root = self.segments.next();
+            track_assert_eq!(root, Some(""), ErrorKind::Invalid);
+        }
+        track_assert!(self.is_end_of_segment(), ErrorKind::Invalid);
         Ok(())
     }
     fn next_value(&mut self) -> Result<&'de str> {
@@ -57,7 +66,7 @@ impl<'de> UrlPathDeserializer<'de> {
         let i = self.index;
         self.index += 1;
         if let Some(expected) = self.entry_point.segments()[i].as_option() {
-            let s = self.segments.next().unwrap();
+            let s = track!(percent_decode(self.segments.next().unwrap()))?;
             track_assert_eq!(s, expected, ErrorKind::Invalid);
             self.next_value()
         } else {
@@ -248,7 +257,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlPathDeserializer<'de> {
     {
         track_assert!(!self.in_seq, ErrorKind::Invalid);
         self.in_seq = true;
-        track!(visitor.visit_seq(self))
+        let v = track!(visitor.visit_seq(&mut *self))?;
+        track!(self.finish())?;
+        Ok(v)
     }
 
     fn deserialize_tuple<V>(self, _len: usize, visitor: V) -> Result<V::Value>
@@ -322,7 +333,6 @@ impl<'de, 'a> de::SeqAccess<'de> for &'a mut UrlPathDeserializer<'de> {
         T: de::DeserializeSeed<'de>,
     {
         if self.free_vars == 0 {
-            track!(self.finish())?;
             Ok(None)
         } else {
             let v = track!(seed.deserialize(&mut **self))?;
-- 
2.43.0


From bb97f6e31960adae99959b64513f2028b43768ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:54 +0000
Subject: [PATCH 09/32] fix: route requests to every entry point that matches

- A constant segment hid the entry points that have a variable there, also
  when it did not lead to a handler for the request.
- Constants that need percent-encoding were never matched.
- The empty entry point was never matched.
- Paths that are only a prefix of an entry point got 405 instead of 404.
---
 src/router.rs               | 55 +++++++++++++++++++++++++++++--------
 src/serializers/url_path.rs |  1 -
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 29771c5..c63243b 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -5,6 +5,7 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
+use misc;
 use procedure::EntryPoint;
 use types::{HttpMethod, HttpStatus};
 use {Error, ErrorKind, Result};
@@ -28,16 +29,21 @@ impl Router {
         url: &Url,
         request: &Request<TcpStream>,
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
-        let mut trie = self.trie.root();
-        for segment in url.path_segments().expect("Never fails") {
-            if let Some(child) = trie.get_child(segment) {
-                trie = child;
-            } else {
-                return Err(HttpStatus::NotFound);
-            }
+        let segments = url
+            .path_segments()
+            .expect("Never fails")
+            .map(|s| misc::percent_decode(s).ok())
+            .collect::<Vec<_>>();
+        let method = request.method();
+        let mut status = HttpStatus::NotFound;
+        let mut handler = None;
+        if url.path() == "/" {
+            // The empty entry point.
+            handler = self.trie.root().find(&[], method, &mut status);
         }
-        trie.get_value(request.method())
-            .ok_or(HttpStatus::MethodNotAllowed)
+        handler
+            .or_else(|| self.trie.root().find(&segments, method, &mut status))
+            .ok_or(status)
     }
 }
 
@@ -118,11 +124,36 @@ impl TrieNode {
             leafs: HashMap::new(),
         }
     }
+    /// Finds the most specific handler for the path.
+    ///
+    /// Segments that cannot be decoded are `None` (they match only variables).
+    /// `status` is updated if the path is known but has no handler for the method.
+    pub fn find(
+        &self,
+        segments: &[Option<String>],
+        method: HttpMethod,
+        status: &mut HttpStatus,
+    ) -> Option<&HandleHttpRequest> {
+        if let Some((segment, rest)) = segments.split_first() {
+            segment
+                .as_ref()
+                .and_then(|s| self.get_child(s))
+                .and_then(|c| c.find(rest, method, status))
+                .or_else(|| {
+                    self.children
+                        .get(&None)
+                        .and_then(|c| c.find(rest, method, status))
+                })
+        } else {
+            if !self.leafs.is_empty() {
+                *status = HttpStatus::MethodNotAllowed;
+            }
+            self.get_value(method)
+        }
+    }
     pub fn get_child<'a>(&'a self, segment: &str) -> Option<&'a Self> {
         let segment: &'static str = unsafe { &*(segment as *const _) as _ };
-        self.children
-            .get(&Some(segment))
-            .or_else(|| self.children.get(&None))
+        self.children.get(&Some(segment))
     }
     pub fn get_value(&self, method: HttpMethod) -> Option<&HandleHttpRequest> {
         self.leafs.get(&method)
diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index 589660b..f752713 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -1,7 +1,6 @@
 use serde::{ser, Serialize};
 use serde::ser::Impossible;
 use url::Url;
-use trackable::error::ErrorKindExt;
 
 use {Error, ErrorKind, Result};
 use types::EntryPoint;
-- 
2.43.0


From 39cdcf2dddc84c8912d8c0743e23536e711836a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:13 +0000
Subject: [PATCH 10/32] fix: do not take the path of a request for a host

The request target "//foo/bar" was handled as "/bar" ("foo" being the
host), so requests whose first segment is empty never reached their
handler.
---
 src/misc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/misc.rs b/src/misc.rs
index d5c534d..36a215f 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -15,6 +15,10 @@ pub fn parse_relative_url(url: &str) -> Result<Url> {
             DUMMY_BASE_URL = Some(&*Box::into_raw(url))
         }
     });
+    if url.starts_with('/') {
+        // NOTE: The parser would take "//foo" for a host.
+        return track!(Url::parse(&format!("http://foo{}", url)).map_err(Error::from));
+    }
     let url = track!(
         Url::options()
             .base_url(unsafe { DUMMY_BASE_URL })
-- 
2.43.0


From fb79a7869da7128d2cc3cab87b7aa0eb24929dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:14 +0000
Subject: [PATCH 11/32] fix: reject request targets that have no path segments

A request for e.g. "mailto:foo" made the server panic in the router.
---
 src/misc.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/misc.rs b/src/misc.rs
index 36a215f..72aea7b 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -25,6 +25,7 @@ pub fn parse_relative_url(url: &str) -> Result<Url> {
             .parse(url)
             .map_err(Error::from)
     )?;
+    track_assert!(!url.cannot_be_a_base(), ErrorKind::Invalid, "url={:?}", url);
     Ok(url)
 }
 
-- 
2.43.0


From 0e2092e22ce6a4843ab1bfddcf04f20bc834ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:15 +0000
Subject: [PATCH 12/32] fix: accept requests without any header field

A request type without "header" field made the server reject requests that
have no header fields at all.
---
 src/deserializers/http_header.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deserializers/http_header.rs b/src/deserializers/http_header.rs
index 29549da..67f621b 100644
--- a/src/deserializers/http_header.rs
+++ b/src/deserializers/http_header.rs
@@ -315,7 +315,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut HttpHeaderDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let _v = track!(self.next_bytes())?;
+        if self.in_map {
+            let _v = track!(self.next_bytes())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0


From fd3a073c140f469fa4198ed597fd90eebd5da088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:38 +0000
Subject: [PATCH 13/32] fix: refuse header fields that would damage the message

Header names and values were written to the wire as they are, so a CR LF
in one of them could add header fields or end the head, and a
"content-length" field contradicted the actual body length.
---
 src/serializers/http_header.rs | 38 ++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index 48b4b94..2126cc7 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -22,16 +22,34 @@ impl<'a> HttpHeaderSerializer<'a> {
         }
     }
 
-    fn append(&mut self, key_or_val: Cow<str>) {
+    fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
         if let Some(key) = self.key.take() {
             let val = &key_or_val;
+            track_assert!(is_valid_name(&key), ErrorKind::Invalid, "name={:?}", key);
+            track_assert!(is_valid_value(val.as_bytes()), ErrorKind::Invalid, "name={:?}", key);
             self.headers.add_raw_header(&key, val.as_bytes());
         } else {
             let key = key_or_val.into_owned();
             self.key = Some(Cow::Owned(key));
         }
+        Ok(())
     }
 }
+
+/// Field names are tokens, and the message framing is not up to the user.
+fn is_valid_name(name: &str) -> bool {
+    !name.is_empty()
+        && name.bytes().all(|b| match b {
+            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' => true,
+            _ => b"!#$%&'*+-.^_`|~".contains(&b),
+        })
+        && !name.eq_ignore_ascii_case("content-length")
+        && !name.eq_ignore_ascii_case("transfer-encoding")
+}
+
+fn is_valid_value(value: &[u8]) -> bool {
+    value.iter().all(|&b| b == b'\t' || (b >= 0x20 && b != 0x7F))
+}
 impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
     type Ok = ();
     type Error = Error;
@@ -46,8 +64,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
         let s = if v { "true" } else { "false" };
-        self.append(Cow::Borrowed(s));
-        Ok(())
+        track!(self.append(Cow::Borrowed(s)))
     }
     fn serialize_i8(self, v: i8) -> Result<Self::Ok> {
         track!(self.serialize_i64(v as i64))
@@ -59,8 +76,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_i64(v as i64))
     }
     fn serialize_i64(self, v: i64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_u8(self, v: u8) -> Result<Self::Ok> {
         track!(self.serialize_u64(v as u64))
@@ -72,28 +88,24 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_u64(v as u64))
     }
     fn serialize_u64(self, v: u64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_f32(self, v: f32) -> Result<Self::Ok> {
         track!(self.serialize_f64(v as f64))
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_char(self, v: char) -> Result<Self::Ok> {
         track!(self.serialize_str(&v.to_string()))
     }
     fn serialize_str(self, v: &str) -> Result<Self::Ok> {
-        self.append(Cow::Borrowed(v));
-        Ok(())
+        track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
         use std::str;
         let v = unsafe { str::from_utf8_unchecked(v) };
-        self.append(Cow::Borrowed(v));
-        Ok(())
+        track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_none(self) -> Result<Self::Ok> {
         track_assert!(self.key.take().is_some(), ErrorKind::Invalid);
-- 
2.43.0


From 14540d3290921bb3ad4be7533c7cfca88072f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:07 +0000
Subject: [PATCH 14/32] fix: fail the call if the response body is truncated

A connection closed in the middle of the response body made the call
succeed with a shortened body (and the dead connection return to the
pool).
---
 src/client.rs |  6 +++++-
 src/misc.rs   | 13 +++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 915676a..2987fb2 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -12,6 +12,7 @@ use Error;
 use deserializers::RpcResponseDeserializer;
 use procedure::Procedure;
 use serializers::RpcRequestSerializer;
+use misc;
 use types::HttpMethod;
 
 type BoxFuture<T, E> = Box<dyn Future<Item = T, Error = E> + Send + 'static>;
@@ -108,7 +109,10 @@ where
                     } else {
                         let future = futures::done(response.into_body_reader())
                             .and_then(|res| res.read_all_bytes().map_err(|e| track!(e)))
-                            .map(|(res, body)| (res.into_inner(), body));
+                            .and_then(|(res, body)| {
+                                track!(misc::check_body_end(&res).map_err(miasht::Error::from))?;
+                                Ok((res.into_inner(), body))
+                            });
                         Box::new(future)
                     };
                     Phase::D(future)
diff --git a/src/misc.rs b/src/misc.rs
index 72aea7b..4a3f8a4 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,3 +1,5 @@
+use miasht::builtin::io::BodyReader;
+use std::io;
 use std::sync::{Once};
 use trackable::error::ErrorKindExt;
 use url::Url;
@@ -47,3 +49,14 @@ pub fn percent_decode(s: &str) -> Result<String> {
     }
     track!(String::from_utf8(decoded).map_err(Error::from))
 }
+
+/// Checks that the body has been read up to its declared length.
+pub fn check_body_end<R>(reader: &BodyReader<R>) -> io::Result<()> {
+    match *reader {
+        BodyReader::FixedLength(ref r) if r.limit() > 0 => Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            "Unexpected EOF while reading HTTP body",
+        )),
+        _ => Ok(()),
+    }
+}
-- 
2.43.0


From c205e455299f7321ada53e9d438fe1d934140ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:08 +0000
Subject: [PATCH 15/32] fix: invoke handlers only with complete requests

The handler ran also if the connection was closed in the middle of the
request body, and the part of the body that `read_body` had not consumed
was taken for the next request on the connection.
---
 src/server.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 682e7f3..aa3c4e1 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -82,6 +82,17 @@ impl RpcServerBuilder {
             let future = futures::done(http_request.into_body_reader())
                 .map_err(Error::from)
                 .and_then(move |http_request| rpc_request.read_body(http_request))
+                .and_then(|(http_request, rpc_request)| {
+                    // Skips the part of the body which `read_body` left.
+                    http_request
+                        .read_all_bytes()
+                        .map_err(Error::from)
+                        .map(move |(http_request, _)| (http_request, rpc_request))
+                })
+                .and_then(move |(http_request, rpc_request)| {
+                    track!(misc::check_body_end(&http_request).map_err(Error::from))?;
+                    Ok((http_request, rpc_request))
+                })
                 .and_then(move |(http_request, rpc_request)| {
                     let http_request = http_request.into_inner();
                     handler
-- 
2.43.0


From a05a13b028e532f388001fc77ff4c3452c9def71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:22 +0000
Subject: [PATCH 16/32] fix: do not share handlers between threads

Handlers are only required to be `Clone + Send`, but the router, forced to
be `Send`, cloned the same handler from several threads at the same time.
---
 src/router.rs | 5 ++---
 src/server.rs | 5 ++++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index c63243b..4cc4c6c 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -16,13 +16,12 @@ type HandleHttpRequestResult = Box<
         + 'static,
 >;
 type HandleHttpRequest =
-    Box<dyn Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult + Send + 'static>;
+    Box<dyn Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult + Send + Sync + 'static>;
 
 #[derive(Clone)]
 pub struct Router {
     trie: Arc<Trie>,
 }
-unsafe impl Send for Router {}
 impl Router {
     pub fn route(
         &self,
@@ -66,7 +65,7 @@ impl RouterBuilder {
         handler: H,
     ) -> Result<()>
     where
-        H: Send + 'static + Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult,
+        H: Send + Sync + 'static + Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult,
     {
         track!(self.trie.insert(method, &entry_point, Box::new(handler)))?;
         Ok(())
diff --git a/src/server.rs b/src/server.rs
index aa3c4e1..2470560 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -11,6 +11,7 @@ use serde::Deserialize;
 use slog::{Discard, Logger};
 use std::io;
 use std::net::SocketAddr;
+use std::sync::Mutex;
 use trackable::error::ErrorKindExt;
 
 use deserializers::RpcRequestDeserializer;
@@ -52,8 +53,10 @@ impl RpcServerBuilder {
         H: HandleRpc<P>,
     {
         use RpcRequest;
+        // Handlers are not necessarily `Sync`.
+        let handler = Mutex::new(handler);
         let handle_http_request = move |url, http_request| {
-            let handler = handler.clone();
+            let handler = handler.lock().unwrap_or_else(|e| e.into_inner()).clone();
             let rpc_request: P::Request = {
                 let deserialize_result = {
                     let mut de = RpcRequestDeserializer::new(P::entry_point(), &url, &http_request);
-- 
2.43.0


From 0b7b84edad0285defe0e64479b7ad6563fbbe039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:49 +0000
Subject: [PATCH 17/32] fix: keep the status of a problem response in step with
 its problem

After `set_problem` the response was sent with the status of the previous
problem, and a problem received as an enum variant could not be sent on.
---
 src/rfc7807.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rfc7807.rs b/src/rfc7807.rs
index 04a888b..4a2816e 100644
--- a/src/rfc7807.rs
+++ b/src/rfc7807.rs
@@ -38,6 +38,7 @@ impl ProblemResponse {
 
     /// Sets the `Problem` instance of this response.
     pub fn set_problem(&mut self, problem: Problem) {
+        self.status = Some(problem.get_status_code());
         self.body = problem;
     }
 }
@@ -49,7 +50,7 @@ impl RpcResponse for ProblemResponse {
     fn set_body(&mut self, body: Vec<u8>) {
         if let Ok(body) = serdeconv::from_json_slice(&body) {
             // TODO
-            self.body = body;
+            self.set_problem(body);
         }
     }
 }
-- 
2.43.0


From a03968476ea808dfea86ae56a19f5d4798f0b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:03 +0000
Subject: [PATCH 18/32] fix: allow optional response statuses

A client whose response type is `ProblemResponse` (status: Option<u16>)
failed to decode every response.
---
 src/deserializers/rpc_response.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/rpc_response.rs b/src/deserializers/rpc_response.rs
index aece628..3eea794 100644
--- a/src/deserializers/rpc_response.rs
+++ b/src/deserializers/rpc_response.rs
@@ -248,11 +248,10 @@ impl<'de, 'a> de::MapAccess<'de> for &'a mut RpcResponseDeserializer<'de> {
     where
         V: de::DeserializeSeed<'de>,
     {
-        use serde::de::value::U16Deserializer;
         match self.phase {
             Phase::Init => unreachable!(),
             Phase::Status => {
-                let de: U16Deserializer<Error> = self.response.status().code().into_deserializer();
+                let de = StatusDeserializer(self.response.status().code());
                 let v = track!(seed.deserialize(de))?;
                 Ok(v)
             }
@@ -265,6 +264,34 @@ impl<'de, 'a> de::MapAccess<'de> for &'a mut RpcResponseDeserializer<'de> {
     }
 }
 
+/// `Deserializer` for a status code, which may be declared as `u16`, `Option<u16>` and so on.
+struct StatusDeserializer(u16);
+impl<'de> de::Deserializer<'de> for StatusDeserializer {
+    type Error = Error;
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        track!(visitor.visit_u16(self.0))
+    }
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        track!(visitor.visit_some(self))
+    }
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        track!(visitor.visit_newtype_struct(self))
+    }
+    ::serde::forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit
+        unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
+    }
+}
+
 struct Enum<'de: 'a, 'a>(&'a mut RpcResponseDeserializer<'de>);
 impl<'de, 'a> de::EnumAccess<'de> for Enum<'de, 'a> {
     type Error = Error;
-- 
2.43.0


From 5a6e9111d6427702504b888cbe602ef676b71e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:04 +0000
Subject: [PATCH 19/32] fix: do not panic if the suspended duration is very
 long

`SystemTime + Duration::MAX` overflows, which killed the whole pool at the
first failed connect.
---
 src/pool.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 099882d..75b53df 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -102,7 +102,7 @@ pub struct RpcClientPool {
     command_tx: mpsc::Sender<Command>,
     command_rx: mpsc::Receiver<Command>,
     seq_no: u64,
-    blacklist: HashMap<SocketAddr, SystemTime>,
+    blacklist: HashMap<SocketAddr, Option<SystemTime>>,
     suspended_duration: Duration,
     connect_timeout: Duration,
 }
@@ -149,7 +149,7 @@ impl RpcClientPool {
         match command {
             Command::AcquireConnection { addr, reply } => {
                 if let Some(suspended_until) = self.blacklist.remove(&addr) {
-                    if suspended_until > SystemTime::now() {
+                    if suspended_until.map_or(true, |t| t > SystemTime::now()) {
                         self.blacklist.insert(addr, suspended_until);
                         let future = PooledConnection::failed(
                             ErrorKind::Other
@@ -170,7 +170,8 @@ impl RpcClientPool {
                 self.release_connection(addr, connection);
             }
             Command::AddToBlacklist { addr } => {
-                let suspended_until = SystemTime::now() + self.suspended_duration;
+                // `None` means "forever".
+                let suspended_until = SystemTime::now().checked_add(self.suspended_duration);
                 self.blacklist.insert(addr, suspended_until);
             }
         }
-- 
2.43.0


From e687706cfe7470a6f4a0ffd4e7643deca7fc6317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:27 +0000
Subject: [PATCH 20/32] fix: do not panic if the connect timeout is very long

---
 src/pool.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 75b53df..5713859 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -1,5 +1,5 @@
 //! Connection pool.
-use std::cmp::Ordering;
+use std::cmp::{self, Ordering};
 use std::collections::{BTreeMap, Bound, HashMap};
 use std::fmt;
 use std::net::SocketAddr;
@@ -17,6 +17,9 @@ use trackable::error::ErrorKindExt;
 use {Error, ErrorKind, Procedure};
 use client::CallInner;
 
+/// About 100 years.
+const MAX_TIMEOUT_SECS: u64 = 100 * 365 * 24 * 60 * 60;
+
 type TcpConnection = miasht::client::Connection<TcpStream>;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -193,10 +196,12 @@ impl RpcClientPool {
                 on_error: None,
             }
         } else {
+            // NOTE: The timer panics if the expiry time is not representable.
+            let timeout = cmp::min(self.connect_timeout, Duration::from_secs(MAX_TIMEOUT_SECS));
             let phase = Phase::B(
                 miasht::client::Client::new()
                     .connect(addr)
-                    .timeout_after(self.connect_timeout),
+                    .timeout_after(timeout),
             );
             PooledConnection {
                 phase,
-- 
2.43.0


From f0bd20a85b4722eb0444ea7d1d88b966fa49ef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:12 +0000
Subject: [PATCH 21/32] fix: refuse messages whose head does not fit in the
 buffer

---
 src/misc.rs                     |  8 ++++++++
 src/serializers/http_header.rs  |  8 ++++++++
 src/serializers/rpc_request.rs  | 25 ++++++++++++++++++-------
 src/serializers/rpc_response.rs | 24 +++++++++++++++++-------
 4 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/src/misc.rs b/src/misc.rs
index 4a3f8a4..ecb8902 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -50,6 +50,14 @@ pub fn percent_decode(s: &str) -> Result<String> {
     track!(String::from_utf8(decoded).map_err(Error::from))
 }
 
+/// Checks that the head of a message fits in the buffer of the HTTP layer,
+/// which would silently cut it off otherwise.
+pub fn check_head_len(len: usize) -> Result<()> {
+    const MAX_HEAD_LEN: usize = 8096;
+    track_assert!(len <= MAX_HEAD_LEN, ErrorKind::Invalid, "Too long: {} bytes", len);
+    Ok(())
+}
+
 /// Checks that the body has been read up to its declared length.
 pub fn check_body_end<R>(reader: &BodyReader<R>) -> io::Result<()> {
     match *reader {
diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index 2126cc7..4da90d6 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -11,6 +11,7 @@ pub struct HttpHeaderSerializer<'a> {
     is_first: bool,
     key: Option<Cow<'static, str>>,
     headers: HeadersMut<'a>,
+    len: usize,
 }
 impl<'a> HttpHeaderSerializer<'a> {
     /// Makes a new `HttpHeaderSerializer` instance.
@@ -19,15 +20,22 @@ impl<'a> HttpHeaderSerializer<'a> {
             is_first: true,
             key: None,
             headers,
+            len: 0,
         }
     }
 
+    /// Returns the length of the fields which have been added.
+    pub(crate) fn len(&self) -> usize {
+        self.len
+    }
+
     fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
         if let Some(key) = self.key.take() {
             let val = &key_or_val;
             track_assert!(is_valid_name(&key), ErrorKind::Invalid, "name={:?}", key);
             track_assert!(is_valid_value(val.as_bytes()), ErrorKind::Invalid, "name={:?}", key);
             self.headers.add_raw_header(&key, val.as_bytes());
+            self.len += key.len() + ": ".len() + val.len() + "\r\n".len();
         } else {
             let key = key_or_val.into_owned();
             self.key = Some(Cow::Owned(key));
diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index 1dedf15..b68de45 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -6,6 +6,7 @@ use serde::ser::Impossible;
 use url::{self, Url};
 
 use {Error, ErrorKind, Result};
+use misc;
 use types::{EntryPoint, HttpMethod};
 use serializers::{HttpHeaderSerializer, UrlPathSerializer, UrlQuerySerializer};
 
@@ -18,6 +19,7 @@ pub struct RpcRequestSerializer {
     entry_point: EntryPoint,
     connection: Option<Connection<TcpStream>>,
     request: Option<RequestBuilder<TcpStream>>,
+    head_len: usize,
 }
 impl RpcRequestSerializer {
     /// Makes a new `RpcRequestSerializer` instance.
@@ -33,13 +35,17 @@ impl RpcRequestSerializer {
             entry_point,
             connection: Some(connection),
             request: None,
+            head_len: 0,
         }
     }
 
     /// Finishes the serialization and returns the resulting HTTP request and body.
     pub fn finish(mut self, body: &[u8]) -> Result<Request<TcpStream>> {
         let mut request = track!(self.take_request())?;
-        request.add_header(&ContentLength(body.len() as u64));
+        let content_length = ContentLength(body.len() as u64);
+        let head_len = self.head_len + content_length.to_string().len() + "\r\n\r\n".len();
+        track!(misc::check_head_len(head_len))?;
+        request.add_header(&content_length);
         Ok(request.finish())
     }
 
@@ -55,11 +61,16 @@ impl RpcRequestSerializer {
                 ))?;
                 track!(().serialize(&mut serializer))?;
             }
-            let relative_url = &self.temp_url[url::Position::BeforePath..];
-            let connection = self.connection.take().unwrap();
-            Ok(connection.build_request(self.method, relative_url))
+            Ok(self.build_request())
         }
     }
+
+    fn build_request(&mut self) -> RequestBuilder<TcpStream> {
+        let relative_url = &self.temp_url[url::Position::BeforePath..];
+        let connection = self.connection.take().unwrap();
+        self.head_len = format!("{} {} HTTP/1.1\r\n", self.method, relative_url).len();
+        connection.build_request(self.method, relative_url)
+    }
 }
 impl<'a> ser::Serializer for &'a mut RpcRequestSerializer {
     type Ok = ();
@@ -228,9 +239,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                     let mut serializer = UrlQuerySerializer::new(self.temp_url.query_pairs_mut());
                     track!(value.serialize(&mut serializer))?;
                 }
-                let relative_url = &self.temp_url[url::Position::BeforePath..];
-                let connection = self.connection.take().unwrap();
-                self.request = Some(connection.build_request(self.method, relative_url));
+                self.request = Some(self.build_request());
                 Ok(())
             }
             "header" => {
@@ -238,6 +247,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                 {
                     let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
                     track!(value.serialize(&mut serializer))?;
+                    self.head_len += serializer.len();
                 }
                 self.request = Some(request);
                 Ok(())
@@ -261,6 +271,7 @@ impl<'a> ser::SerializeStructVariant for &'a mut RpcRequestSerializer {
                 let request = self.request.as_mut().unwrap();
                 let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
                 track!(value.serialize(&mut serializer))?;
+                self.head_len += serializer.len();
                 Ok(())
             }
             _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
diff --git a/src/serializers/rpc_response.rs b/src/serializers/rpc_response.rs
index 2413f48..135b431 100644
--- a/src/serializers/rpc_response.rs
+++ b/src/serializers/rpc_response.rs
@@ -8,6 +8,7 @@ use serdeconv;
 use trackable::error::ErrorKindExt;
 
 use {Error, ErrorKind, Result, RpcResponse};
+use misc;
 use serializers::HttpHeaderSerializer;
 use types::HttpStatus;
 
@@ -16,6 +17,7 @@ use types::HttpStatus;
 pub struct RpcResponseSerializer {
     connection: Option<Connection<TcpStream>>,
     response: Option<ResponseBuilder<TcpStream>>,
+    head_len: usize,
 }
 impl RpcResponseSerializer {
     /// Serializes the RPC response.
@@ -37,6 +39,7 @@ impl RpcResponseSerializer {
         RpcResponseSerializer {
             connection: Some(connection),
             response: None,
+            head_len: 0,
         }
     }
 
@@ -47,9 +50,17 @@ impl RpcResponseSerializer {
     ) -> Result<(Response<TcpStream>, Box<dyn AsRef<[u8]> + Send + 'static>)> {
         track_assert!(self.response.is_some(), ErrorKind::Invalid);
         let mut response = self.response.expect("Never fail");
-        response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));
+        let content_length = headers::ContentLength((*body).as_ref().len() as u64);
+        let head_len = self.head_len + content_length.to_string().len() + "\r\n\r\n".len();
+        track!(misc::check_head_len(head_len))?;
+        response.add_header(&content_length);
         Ok((response.finish(), body))
     }
+
+    fn start_response(&mut self, status: HttpStatus) {
+        self.head_len = format!("HTTP/1.1 {}\r\n", status).len();
+        self.response = Some(self.connection.take().unwrap().build_response(status));
+    }
 }
 impl<'a> ser::Serializer for &'a mut RpcResponseSerializer {
     type Ok = ();
@@ -128,8 +139,7 @@ impl<'a> ser::Serializer for &'a mut RpcResponseSerializer {
     ) -> Result<Self::Ok> {
         track_assert!(self.connection.is_some(), ErrorKind::Invalid);
         let status = track!(status_from_str(variant))?;
-        let response = self.connection.take().unwrap().build_response(status);
-        self.response = Some(response);
+        self.start_response(status);
         Ok(())
     }
     fn serialize_newtype_struct<T>(self, _name: &'static str, value: &T) -> Result<Self::Ok>
@@ -187,8 +197,7 @@ impl<'a> ser::Serializer for &'a mut RpcResponseSerializer {
     ) -> Result<Self::SerializeStructVariant> {
         track_assert!(self.connection.is_some(), ErrorKind::Invalid);
         let status = track!(status_from_str(variant))?;
-        let response = self.connection.take().unwrap().build_response(status);
-        self.response = Some(response);
+        self.start_response(status);
         Ok(self)
     }
 }
@@ -211,8 +220,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcResponseSerializer {
                     "Unknown HTTP status: {}",
                     status
                 )?;
-                let response = self.connection.take().unwrap().build_response(status);
-                self.response = Some(response);
+                self.start_response(status);
                 Ok(())
             }
             "header" => {
@@ -220,6 +228,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcResponseSerializer {
                 let response = self.response.as_mut().unwrap();
                 let mut serializer = HttpHeaderSerializer::new(response.headers_mut());
                 track!(value.serialize(&mut serializer))?;
+                self.head_len += serializer.len();
                 Ok(())
             }
             _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
@@ -241,6 +250,7 @@ impl<'a> ser::SerializeStructVariant for &'a mut RpcResponseSerializer {
                 let response = self.response.as_mut().unwrap();
                 let mut serializer = HttpHeaderSerializer::new(response.headers_mut());
                 track!(value.serialize(&mut serializer))?;
+                self.head_len += serializer.len();
                 Ok(())
             }
             _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
-- 
2.43.0


From 50b8685e6fd6f1236930883dcf6e22bfd5d70bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:01 +0000
Subject: [PATCH 22/32] fix: do not reuse a connection whose response was
 delimited by its end

---
 src/client.rs | 16 ++++++++++------
 src/misc.rs   |  8 ++++++++
 src/pool.rs   |  4 +++-
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 2987fb2..5ce0472 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -71,14 +71,15 @@ where
         BoxFuture<Connection<TcpStream>, Error>,
         BoxFuture<Connection<TcpStream>, miasht::Error>,
         BoxFuture<Response<TcpStream>, miasht::Error>,
-        BoxFuture<(Response<TcpStream>, Vec<u8>), miasht::Error>,
+        BoxFuture<(Response<TcpStream>, Vec<u8>, bool), miasht::Error>,
     >,
 }
 impl<P> Future for CallInner<P>
 where
     P: Procedure,
 {
-    type Item = (P::Response, Connection<TcpStream>);
+    // The connection is `None` if it can not be used any more.
+    type Item = (P::Response, Option<Connection<TcpStream>>);
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         loop {
@@ -105,19 +106,20 @@ where
                 Async::Ready(Phase::C(response)) => {
                     // Reads HTTP response body.
                     let future: BoxFuture<_, _> = if P::method() == HttpMethod::Head {
-                        Box::new(futures::finished((response, Vec::new())))
+                        Box::new(futures::finished((response, Vec::new(), true)))
                     } else {
                         let future = futures::done(response.into_body_reader())
                             .and_then(|res| res.read_all_bytes().map_err(|e| track!(e)))
                             .and_then(|(res, body)| {
                                 track!(misc::check_body_end(&res).map_err(miasht::Error::from))?;
-                                Ok((res.into_inner(), body))
+                                let reusable = !misc::is_ended_by_close(&res);
+                                Ok((res.into_inner(), body, reusable))
                             });
                         Box::new(future)
                     };
                     Phase::D(future)
                 }
-                Async::Ready(Phase::D((response, body))) => {
+                Async::Ready(Phase::D((response, body, reusable))) => {
                     // Converts from HTTP response to RPC response.
                     use RpcResponse;
                     let mut rpc_response = {
@@ -125,7 +127,9 @@ where
                         track!(P::Response::deserialize(&mut deserializer))?
                     };
                     rpc_response.set_body(body);
-                    return Ok(Async::Ready((rpc_response, response.finish())));
+                    let connection = response.finish();
+                    let connection = if reusable { Some(connection) } else { None };
+                    return Ok(Async::Ready((rpc_response, connection)));
                 }
                 _ => unreachable!(),
             };
diff --git a/src/misc.rs b/src/misc.rs
index ecb8902..8ef6c6f 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -68,3 +68,11 @@ pub fn check_body_end<R>(reader: &BodyReader<R>) -> io::Result<()> {
         _ => Ok(()),
     }
 }
+
+/// Tells whether the end of the body was marked by the end of the connection.
+pub fn is_ended_by_close<R>(reader: &BodyReader<R>) -> bool {
+    match *reader {
+        BodyReader::Raw(_) => true,
+        _ => false,
+    }
+}
diff --git a/src/pool.rs b/src/pool.rs
index 5713859..ac02feb 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -327,7 +327,9 @@ where
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         if let Async::Ready((response, connection)) = track!(self.inner.poll())? {
-            self.handle.release_connection(self.addr, connection);
+            if let Some(connection) = connection {
+                self.handle.release_connection(self.addr, connection);
+            }
             Ok(Async::Ready(response))
         } else {
             Ok(Async::NotReady)
-- 
2.43.0


From c10f54aa24cc94cb737926834179bacf9996e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:56 +0000
Subject: [PATCH 23/32] fix: give the value of a newtype variant its status

---
 src/deserializers/rpc_response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deserializers/rpc_response.rs b/src/deserializers/rpc_response.rs
index 3eea794..4897907 100644
--- a/src/deserializers/rpc_response.rs
+++ b/src/deserializers/rpc_response.rs
@@ -320,6 +320,8 @@ impl<'de, 'a> de::VariantAccess<'de> for Enum<'de, 'a> {
     where
         T: de::DeserializeSeed<'de>,
     {
+        // The value may have a status field of its own.
+        self.0.phase = Phase::Init;
         seed.deserialize(self.0)
     }
     fn tuple_variant<V>(self, _len: usize, _visitor: V) -> Result<V::Value>
-- 
2.43.0


From d3cbdca758b0a5f0651de8d5af5179b0f6b565a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:09 +0000
Subject: [PATCH 24/32] fix: decode header fields whose declared names contain
 upper case letters

---
 src/deserializers/http_header.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/http_header.rs b/src/deserializers/http_header.rs
index 67f621b..dfc513a 100644
--- a/src/deserializers/http_header.rs
+++ b/src/deserializers/http_header.rs
@@ -29,6 +29,7 @@ impl Phase {
 #[derive(Debug)]
 pub struct HttpHeaderDeserializer<'de> {
     in_map: bool,
+    fields: &'static [&'static str],
     phase: Phase,
     headers: Peekable<HeadersIter<'de>>,
 }
@@ -37,6 +38,7 @@ impl<'de> HttpHeaderDeserializer<'de> {
     pub fn new(headers: &'de Headers<'de>) -> Self {
         HttpHeaderDeserializer {
             in_map: false,
+            fields: &[],
             phase: Phase::Key,
             headers: headers.iter().peekable(),
         }
@@ -47,7 +49,11 @@ impl<'de> HttpHeaderDeserializer<'de> {
     fn next_bytes(&mut self) -> Result<Cow<'de, [u8]>> {
         if let Some(&(k, v)) = self.headers.peek() {
             let v = match self.phase {
-                Phase::Key => Cow::Owned(k.to_lowercase().into_bytes()),
+                Phase::Key => {
+                    // NOTE: Header names are case-insensitive.
+                    let field = self.fields.iter().find(|f| f.eq_ignore_ascii_case(k));
+                    Cow::Owned(field.map_or_else(|| k.to_lowercase(), |f| f.to_string()).into_bytes())
+                }
                 Phase::Value => {
                     let _ = self.headers.next();
                     Cow::Borrowed(v)
@@ -284,12 +290,13 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut HttpHeaderDeserializer<'de> {
     fn deserialize_struct<V>(
         self,
         _name: &'static str,
-        _fields: &'static [&'static str],
+        fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
+        self.fields = fields;
         track!(self.deserialize_map(visitor))
     }
 
-- 
2.43.0


From 1d5332be3487c7c9429eaac93cf24881117d747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:33 +0000
Subject: [PATCH 25/32] fix: keep the server running when accepting a client
 fails

---
 src/server.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 2470560..2dd6a4d 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -1,4 +1,5 @@
 use fibers::net::TcpStream;
+use fibers::time::timer;
 use fibers::{self, BoxSpawn, Spawn};
 use futures::stream::StreamFuture;
 use futures::{self, Async, Future, Poll, Stream};
@@ -12,6 +13,7 @@ use slog::{Discard, Logger};
 use std::io;
 use std::net::SocketAddr;
 use std::sync::Mutex;
+use std::time::Duration;
 use trackable::error::ErrorKindExt;
 
 use deserializers::RpcRequestDeserializer;
@@ -23,6 +25,9 @@ use serializers::RpcResponseSerializer;
 use types::{HttpMethod, HttpStatus};
 use {Error, ErrorKind, Result};
 
+/// The time to wait before accepting clients again after a failure.
+const ACCEPT_RETRY_INTERVAL_MS: u64 = 100;
+
 type BoxFuture<T, E> = Box<dyn Future<Item = T, Error = E> + Send + 'static>;
 
 /// The `RpcServer` builder.
@@ -136,16 +141,31 @@ pub struct RpcServer {
     spawner: BoxSpawn,
     logger: Logger,
     router: Router,
-    phase:
-        Phase<fibers::net::futures::TcpListenerBind, StreamFuture<fibers::net::streams::Incoming>>,
+    phase: Phase<
+        fibers::net::futures::TcpListenerBind,
+        StreamFuture<fibers::net::streams::Incoming>,
+        BoxFuture<fibers::net::streams::Incoming, Error>,
+    >,
 }
 impl Future for RpcServer {
     type Item = ();
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         loop {
-            let next = match track!(self.phase.poll().map_err(Error::from))? {
+            let polled = match self.phase.poll() {
+                Err(Phase::B((e, incoming))) => {
+                    // For example, there are too many open files at the moment.
+                    warn!(self.logger, "Failed to accept a client: {}", e);
+                    let retry_after = Duration::from_millis(ACCEPT_RETRY_INTERVAL_MS);
+                    let future = timer::timeout(retry_after).then(|_| Ok(incoming));
+                    self.phase = Phase::C(Box::new(future));
+                    continue;
+                }
+                polled => polled,
+            };
+            let next = match track!(polled.map_err(Error::from))? {
                 Async::NotReady => return Ok(Async::NotReady),
+                Async::Ready(Phase::C(incoming)) => Phase::B(incoming.into_future()),
                 Async::Ready(Phase::A(listener)) => {
                     info!(
                         self.logger,
-- 
2.43.0


From 37b4ce1c1a26c6b3e6855ebbab6cec3d16020101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:50 +0000
Subject: [PATCH 26/32] fix: do not reuse a connection with bytes left from its
 response

---
 src/client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 5ce0472..0ee4bc6 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -127,7 +127,9 @@ where
                         track!(P::Response::deserialize(&mut deserializer))?
                     };
                     rpc_response.set_body(body);
-                    let connection = response.finish();
+                    let mut connection = response.finish();
+                    // NOTE: Bytes beyond the response would be taken for the next one.
+                    let reusable = reusable && connection.as_mut().buffer.is_empty();
                     let connection = if reusable { Some(connection) } else { None };
                     return Ok(Async::Ready((rpc_response, connection)));
                 }
-- 
2.43.0


From b342e3cb227f805451a26094d1f57fb962be80b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:51 +0000
Subject: [PATCH 27/32] fix: do not reuse a connection whose end the server
 announced

---
 src/client.rs |  1 +
 src/misc.rs   | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index 0ee4bc6..235b59d 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -127,6 +127,7 @@ where
                         track!(P::Response::deserialize(&mut deserializer))?
                     };
                     rpc_response.set_body(body);
+                    let reusable = reusable && misc::is_persistent(&response);
                     let mut connection = response.finish();
                     // NOTE: Bytes beyond the response would be taken for the next one.
                     let reusable = reusable && connection.as_mut().buffer.is_empty();
diff --git a/src/misc.rs b/src/misc.rs
index 8ef6c6f..8796155 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,5 +1,7 @@
+use miasht::{Metadata, Version};
 use miasht::builtin::io::BodyReader;
 use std::io;
+use std::str;
 use std::sync::{Once};
 use trackable::error::ErrorKindExt;
 use url::Url;
@@ -76,3 +78,21 @@ pub fn is_ended_by_close<R>(reader: &BodyReader<R>) -> bool {
         _ => false,
     }
 }
+
+/// Tells whether the peer keeps the connection open after the message.
+pub fn is_persistent<M: Metadata>(message: &M) -> bool {
+    let has_option = |option: &str| {
+        message
+            .headers()
+            .iter()
+            .filter(|h| h.0.eq_ignore_ascii_case("connection"))
+            .filter_map(|h| str::from_utf8(h.1).ok())
+            .flat_map(|v| v.split(','))
+            .any(|o| o.trim().eq_ignore_ascii_case(option))
+    };
+    if message.version() == Version::Http1_0 {
+        has_option("keep-alive") && !has_option("close")
+    } else {
+        !has_option("close")
+    }
+}
-- 
2.43.0


From 14f1240c57ae7eaad0ba994dee112f0d88f772c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:40 +0000
Subject: [PATCH 28/32] fix: do not use an idle connection which the server has
 closed

---
 src/pool.rs | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index ac02feb..a4b8ebf 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -2,6 +2,7 @@
 use std::cmp::{self, Ordering};
 use std::collections::{BTreeMap, Bound, HashMap};
 use std::fmt;
+use std::io;
 use std::net::SocketAddr;
 use std::time::{Duration, SystemTime};
 use fibers::net::TcpStream;
@@ -181,7 +182,7 @@ impl RpcClientPool {
     }
     fn acquire_connection(&mut self, addr: SocketAddr) -> PooledConnection {
         let lower = ConnectionId::new(addr, 0);
-        if let Some(id) = self.connections
+        while let Some(id) = self.connections
             .range((Bound::Included(lower), Bound::Unbounded))
             .map(|(id, _)| id)
             .cloned()
@@ -189,24 +190,27 @@ impl RpcClientPool {
             .and_then(|id| if id.addr == addr { Some(id) } else { None })
         {
             self.lru_queue.remove(&id.seq_no);
-            let connection = self.connections.remove(&id).expect("Never fails");
+            let mut connection = self.connections.remove(&id).expect("Never fails");
+            if !is_idle(&mut connection) {
+                continue;
+            }
             let phase = Phase::A(futures::finished(connection));
-            PooledConnection {
+            return PooledConnection {
                 phase,
                 on_error: None,
-            }
-        } else {
-            // NOTE: The timer panics if the expiry time is not representable.
-            let timeout = cmp::min(self.connect_timeout, Duration::from_secs(MAX_TIMEOUT_SECS));
-            let phase = Phase::B(
-                miasht::client::Client::new()
-                    .connect(addr)
-                    .timeout_after(timeout),
-            );
-            PooledConnection {
-                phase,
-                on_error: Some((addr, self.command_tx.clone())),
-            }
+            };
+        }
+
+        // NOTE: The timer panics if the expiry time is not representable.
+        let timeout = cmp::min(self.connect_timeout, Duration::from_secs(MAX_TIMEOUT_SECS));
+        let phase = Phase::B(
+            miasht::client::Client::new()
+                .connect(addr)
+                .timeout_after(timeout),
+        );
+        PooledConnection {
+            phase,
+            on_error: Some((addr, self.command_tx.clone())),
         }
     }
     fn release_connection(&mut self, addr: SocketAddr, connection: TcpConnection) {
@@ -240,6 +244,15 @@ impl Future for RpcClientPool {
     }
 }
 
+/// Tells whether the peer has neither closed the connection nor sent anything on it.
+fn is_idle(connection: &mut TcpConnection) -> bool {
+    let stream = &connection.as_mut().stream;
+    match stream.with_inner(|stream| stream.peek(&mut [0])) {
+        Err(ref e) => e.kind() == io::ErrorKind::WouldBlock,
+        Ok(_) => false,
+    }
+}
+
 /// A handle for `RpcClientPool`.
 #[derive(Debug, Clone)]
 pub struct RpcClientPoolHandle {
-- 
2.43.0


From ff7abe0c6df7cdfdf9091884448f10e2906c16e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:42 +0000
Subject: [PATCH 29/32] fix: do not wait for the body of a response that has
 none

---
 src/client.rs | 4 +++-
 src/misc.rs   | 9 +++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 235b59d..fbf27cd 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -105,7 +105,9 @@ where
                 }
                 Async::Ready(Phase::C(response)) => {
                     // Reads HTTP response body.
-                    let future: BoxFuture<_, _> = if P::method() == HttpMethod::Head {
+                    let future: BoxFuture<_, _> = if P::method() == HttpMethod::Head
+                        || misc::has_no_body(&response)
+                    {
                         Box::new(futures::finished((response, Vec::new(), true)))
                     } else {
                         let future = futures::done(response.into_body_reader())
diff --git a/src/misc.rs b/src/misc.rs
index 8796155..a513828 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,5 +1,6 @@
 use miasht::{Metadata, Version};
 use miasht::builtin::io::BodyReader;
+use miasht::client::Response;
 use std::io;
 use std::str;
 use std::sync::{Once};
@@ -79,6 +80,14 @@ pub fn is_ended_by_close<R>(reader: &BodyReader<R>) -> bool {
     }
 }
 
+/// Tells whether the response ends with its head because its status does not allow a body.
+pub fn has_no_body<T>(response: &Response<T>) -> bool {
+    let code = response.status().code();
+    (code < 200 || code == 204 || code == 304)
+        && response.headers().get("Content-Length").is_none()
+        && response.headers().get("Transfer-Encoding").is_none()
+}
+
 /// Tells whether the peer keeps the connection open after the message.
 pub fn is_persistent<M: Metadata>(message: &M) -> bool {
     let has_option = |option: &str| {
-- 
2.43.0


From c85629ef9da3f260465719ef1d77f0ebd1fc259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:28 +0000
Subject: [PATCH 30/32] fix: do not take parts of a request for the next one

---
 src/serializers/rpc_response.rs | 7 +++++--
 src/server.rs                   | 8 +++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/serializers/rpc_response.rs b/src/serializers/rpc_response.rs
index 135b431..828de7c 100644
--- a/src/serializers/rpc_response.rs
+++ b/src/serializers/rpc_response.rs
@@ -58,8 +58,11 @@ impl RpcResponseSerializer {
     }
 
     fn start_response(&mut self, status: HttpStatus) {
-        self.head_len = format!("HTTP/1.1 {}\r\n", status).len();
-        self.response = Some(self.connection.take().unwrap().build_response(status));
+        let mut connection = self.connection.take().unwrap();
+        // NOTE: The buffer may still contain bytes that follow the request.
+        let unread_len = connection.as_mut().buffer.as_slice().len();
+        self.head_len = unread_len + format!("HTTP/1.1 {}\r\n", status).len();
+        self.response = Some(connection.build_response(status));
     }
 }
 impl<'a> ser::Serializer for &'a mut RpcResponseSerializer {
diff --git a/src/server.rs b/src/server.rs
index 2dd6a4d..b0c3dc0 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -215,7 +215,13 @@ impl HandleHttpRequest {
         loop {
             let next = match track!(self.phase.poll().map_err(Error::from))? {
                 Async::NotReady => return Ok(Async::NotReady),
-                Async::Ready(Phase::A(connection)) => {
+                Async::Ready(Phase::A(mut connection)) => {
+                    connection.as_mut().buffer.enter_read_phase();
+                    track_assert!(
+                        connection.as_mut().buffer.is_empty(),
+                        ErrorKind::Invalid,
+                        "Pipelining is not supported"
+                    );
                     let future = connection.read_request().map(Some).or_else(|e| {
                         if let Some(e) = e.concrete_cause::<io::Error>() {
                             if e.kind() == io::ErrorKind::UnexpectedEof
-- 
2.43.0


From 3cf4d713f68cb88a433b69114ad619b383afa0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:04 +0000
Subject: [PATCH 31/32] fix: refuse chunked bodies, whose end the HTTP layer
 does not check

---
 src/misc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/misc.rs b/src/misc.rs
index a513828..fdbe210 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -68,6 +68,11 @@ pub fn check_body_end<R>(reader: &BodyReader<R>) -> io::Result<()> {
             io::ErrorKind::UnexpectedEof,
             "Unexpected EOF while reading HTTP body",
         )),
+        // NOTE: The HTTP layer takes a chunk which is cut off for the last one.
+        BodyReader::Chunked(_) => Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            "Chunked HTTP body is not supported",
+        )),
         _ => Ok(()),
     }
 }
-- 
2.43.0


From 8e47c95c7380405a14c90c311d6cf1656a0411ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:25 +0000
Subject: [PATCH 32/32] fix: refuse messages whose length is contradictory

---
 src/client.rs |  1 +
 src/misc.rs   | 23 +++++++++++++++++++++++
 src/server.rs |  1 +
 3 files changed, 25 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index fbf27cd..17aa0eb 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -110,6 +110,7 @@ where
                     {
                         Box::new(futures::finished((response, Vec::new(), true)))
                     } else {
+                        track!(misc::check_framing(&response))?;
                         let future = futures::done(response.into_body_reader())
                             .and_then(|res| res.read_all_bytes().map_err(|e| track!(e)))
                             .and_then(|(res, body)| {
diff --git a/src/misc.rs b/src/misc.rs
index fdbe210..642b2c9 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -61,6 +61,29 @@ pub fn check_head_len(len: usize) -> Result<()> {
     Ok(())
 }
 
+/// Checks that the header fields do not contradict each other about the length of the message.
+pub fn check_framing<M: Metadata>(message: &M) -> Result<()> {
+    let fields = |name: &'static str| {
+        message
+            .headers()
+            .iter()
+            .filter(move |h| h.0.eq_ignore_ascii_case(name))
+            .map(|h| h.1)
+    };
+    let length = fields("Content-Length").nth(0);
+    track_assert!(
+        fields("Content-Length").all(|l| Some(l) == length),
+        ErrorKind::Invalid,
+        "Multiple content lengths"
+    );
+    track_assert!(
+        length.is_none() || fields("Transfer-Encoding").nth(0).is_none(),
+        ErrorKind::Invalid,
+        "Both content length and transfer encoding"
+    );
+    Ok(())
+}
+
 /// Checks that the body has been read up to its declared length.
 pub fn check_body_end<R>(reader: &BodyReader<R>) -> io::Result<()> {
     match *reader {
diff --git a/src/server.rs b/src/server.rs
index b0c3dc0..970f552 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -246,6 +246,7 @@ impl HandleHttpRequest {
                         request.method(),
                         request.path(),
                     );
+                    track!(misc::check_framing(&request))?;
                     self.method = request.method();
                     let future: BoxFuture<_, _> =
                         match track!(misc::parse_relative_url(request.path())) {
-- 
2.43.0

