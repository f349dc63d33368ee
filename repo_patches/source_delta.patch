From ebb215ef47584f77ce61bbb9ed093ea7e91b1c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:29 +0000
Subject: [PATCH 01/20] fix: serialize bool true as "true" in path, query and
 header

---
 src/serializers/http_header.rs | 2 +-
 src/serializers/url_path.rs    | 2 +-
 src/serializers/url_query.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index b007dbf..48b4b94 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index cbe723d..bb82d84 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -68,7 +68,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlPathSerializer<'b> {
     type SerializeStructVariant = Impossible<Self::Ok, Self::Error>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         track!(self.bind_next_var(s))?;
         Ok(())
     }
diff --git a/src/serializers/url_query.rs b/src/serializers/url_query.rs
index 493f0e5..0963eaa 100644
--- a/src/serializers/url_query.rs
+++ b/src/serializers/url_query.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlQuerySerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
-- 
2.43.0


From 1df3202a77592c8920454243a92f8b196396ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:40 +0000
Subject: [PATCH 02/20] fix: decode percent-encoded path segments as UTF-8

---
 src/deserializers/url_path.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index a4bd233..9de9882 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -338,26 +338,24 @@ where
 }
 
 fn percent_decode(s: &str) -> Result<String> {
-    let mut chars = s.chars();
-    let mut decoded = String::new();
-    while let Some(c) = chars.next() {
-        if c == '%' {
-            let h0 = track!(chars
-                .next()
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let h1 = track!(chars
-                .next()
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let code = track!(u32::from_str_radix(&format!("{h0}{h1}"), 16)
-                .map_err(|e| track!(ErrorKind::Invalid.cause(e))))?;
-            let c = track!(char::from_u32(code)
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            decoded.push(c);
-            continue;
+    let mut bytes = s.bytes();
+    let mut decoded = Vec::with_capacity(s.len());
+    while let Some(b) = bytes.next() {
+        if b == b'%' {
+            let high = track!(next_hex_digit(&mut bytes))?;
+            let low = track!(next_hex_digit(&mut bytes))?;
+            decoded.push(high << 4 | low);
+        } else {
+            decoded.push(b);
         }
-        decoded.push(c);
     }
-    Ok(decoded)
+    track!(String::from_utf8(decoded).map_err(Error::from))
+}
+
+fn next_hex_digit(bytes: &mut std::str::Bytes) -> Result<u8> {
+    let digit = bytes.next().and_then(|b| char::from(b).to_digit(16));
+    let digit = track!(digit.ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
+    Ok(digit as u8)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4d4d0670fbc18a86b8d7ac75a69d6660ca1599c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:03 +0000
Subject: [PATCH 03/20] fix: reject path variables which the URL syntax would
 silently alter

---
 src/serializers/url_path.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index bb82d84..7425475 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -31,10 +31,24 @@ impl<'a> UrlPathSerializer<'a> {
     fn bind_next_var(&mut self, value: &str) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
         track_assert!(!self.append_until_next_var(), ErrorKind::Invalid);
+        track_assert!(
+            self.is_representable(value),
+            ErrorKind::Invalid,
+            "Not representable as a path segment: {:?}",
+            value
+        );
         self.segments.push(value);
         self.index += 1;
         Ok(())
     }
+    /// Returns `false` if `PathSegmentsMut::push` would silently drop or alter `value`.
+    fn is_representable(&self, value: &str) -> bool {
+        let is_dot_segment = value == "." || value == "..";
+        let has_stripped_char = value.contains(|c| c == '\t' || c == '\n' || c == '\r');
+        let is_lost_empty_segment =
+            value.is_empty() && self.index == 0 && self.entry_point.segments().len() > 1;
+        !(is_dot_segment || has_stripped_char || is_lost_empty_segment)
+    }
     fn finish(&mut self) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
         track_assert!(self.append_until_next_var(), ErrorKind::Invalid);
-- 
2.43.0


From 63544fc3f27a3b5df95eec54b96360399a1529a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:27 +0000
Subject: [PATCH 04/20] fix: reject header fields which would be altered or
 injected on the wire

---
 src/serializers/http_header.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index 48b4b94..a4143ca 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -22,6 +22,16 @@ impl<'a> HttpHeaderSerializer<'a> {
         }
     }
 
+    // Rejects the text which would be altered (or be taken for another header) by the receiver.
+    fn check(&self, key_or_val: &[u8]) -> Result<()> {
+        let is_valid = if self.key.is_some() {
+            is_valid_value(key_or_val)
+        } else {
+            is_valid_name(key_or_val)
+        };
+        track_assert!(is_valid, ErrorKind::Invalid, "key={:?}", self.key);
+        Ok(())
+    }
     fn append(&mut self, key_or_val: Cow<str>) {
         if let Some(key) = self.key.take() {
             let val = &key_or_val;
@@ -86,11 +96,13 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_str(&v.to_string()))
     }
     fn serialize_str(self, v: &str) -> Result<Self::Ok> {
+        track!(self.check(v.as_bytes()))?;
         self.append(Cow::Borrowed(v));
         Ok(())
     }
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
         use std::str;
+        track!(self.check(v))?;
         let v = unsafe { str::from_utf8_unchecked(v) };
         self.append(Cow::Borrowed(v));
         Ok(())
@@ -232,3 +244,20 @@ impl<'a, 'b> ser::SerializeStructVariant for &'a mut HttpHeaderSerializer<'b> {
         Ok(())
     }
 }
+
+// NOTE: The white spaces surrounding a header value are stripped by the receiver.
+fn is_valid_value(value: &[u8]) -> bool {
+    let is_blank = |b: Option<&u8>| b == Some(&b' ') || b == Some(&b'\t');
+    !is_blank(value.first())
+        && !is_blank(value.last())
+        && value
+            .iter()
+            .all(|&b| b == b'\t' || (b >= b' ' && b != 0x7F))
+}
+
+fn is_valid_name(name: &[u8]) -> bool {
+    !name.is_empty()
+        && name
+            .iter()
+            .all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(b))
+}
-- 
2.43.0


From c2e91ae770e07069b8512b6d829bb53c2fb53968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:28 +0000
Subject: [PATCH 05/20] fix: skip the values of unknown query parameters

---
 src/deserializers/url_query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/deserializers/url_query.rs b/src/deserializers/url_query.rs
index 27a88f8..31e626b 100644
--- a/src/deserializers/url_query.rs
+++ b/src/deserializers/url_query.rs
@@ -299,6 +299,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlQueryDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        if self.in_map {
+            track!(self.next_str())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0


From 8a1b8d0ab211e6a78d172204cc991d8d55144d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:29 +0000
Subject: [PATCH 06/20] fix: accept requests without headers when the header is
 ignored

---
 src/deserializers/http_header.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deserializers/http_header.rs b/src/deserializers/http_header.rs
index 29549da..67f621b 100644
--- a/src/deserializers/http_header.rs
+++ b/src/deserializers/http_header.rs
@@ -315,7 +315,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut HttpHeaderDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let _v = track!(self.next_bytes())?;
+        if self.in_map {
+            let _v = track!(self.next_bytes())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0


From be0a011310204a94bf31c7b9880dcbea4319432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:31 +0000
Subject: [PATCH 07/20] fix: allow requests which have a query but no path
 variables

---
 src/serializers/rpc_request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index d5af33b..9cca66c 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -221,7 +221,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                         &self.entry_point,
                         &mut self.temp_url,
                     ))?;
-                    track!(value.serialize(&mut serializer))?;
+                    track!(().serialize(&mut serializer))?;
                     self.is_path_initialized = true;
                 }
                 {
-- 
2.43.0


From f17ddcdcdfa45daccf1942945ebc4b974d3025df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:51 +0000
Subject: [PATCH 08/20] fix: respond 404 instead of panicking if the request
 target has no path segments

---
 src/router.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index 29771c5..ed9282f 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -29,7 +29,8 @@ impl Router {
         request: &Request<TcpStream>,
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
         let mut trie = self.trie.root();
-        for segment in url.path_segments().expect("Never fails") {
+        // NOTE: There is no path hierarchy in some kinds of URLs (e.g., "mailto:foo").
+        for segment in url.path_segments().ok_or(HttpStatus::NotFound)? {
             if let Some(child) = trie.get_child(segment) {
                 trie = child;
             } else {
-- 
2.43.0


From e1c891ac97569a80a4080b045258ada3fd443838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:52 +0000
Subject: [PATCH 09/20] fix: respond 404 for paths which are only prefixes of
 entry points

---
 src/router.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/router.rs b/src/router.rs
index ed9282f..43f0933 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -37,6 +37,9 @@ impl Router {
                 return Err(HttpStatus::NotFound);
             }
         }
+        if trie.leafs.is_empty() {
+            return Err(HttpStatus::NotFound);
+        }
         trie.get_value(request.method())
             .ok_or(HttpStatus::MethodNotAllowed)
     }
-- 
2.43.0


From 0a57f617eedeb1987c538fa4f518429ecb24b41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:53 +0000
Subject: [PATCH 10/20] fix: do not take the first segment of a request target
 for an authority

---
 src/misc.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/misc.rs b/src/misc.rs
index 404aeaf..3e3e222 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -14,6 +14,14 @@ pub fn parse_relative_url(url: &str) -> Result<Url> {
             DUMMY_BASE_URL = Some(&*Box::into_raw(url))
         }
     });
+    // NOTE: The leading "//" of a request target is a part of the path (i.e., not an authority).
+    let absolute_url;
+    let url = if url.starts_with("//") {
+        absolute_url = format!("http://foo{}", url);
+        &absolute_url
+    } else {
+        url
+    };
     let url = track!(
         Url::options()
             .base_url(unsafe { DUMMY_BASE_URL })
-- 
2.43.0


From 7685e4a3dfee858a2c00233dcc3b2d60a7d829d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:09 +0000
Subject: [PATCH 11/20] fix: percent-decode request paths before matching them
 with entry points

---
 src/deserializers/mod.rs      |  1 +
 src/deserializers/url_path.rs | 10 +++++++---
 src/router.rs                 |  5 ++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/deserializers/mod.rs b/src/deserializers/mod.rs
index e2d2265..c7b8cab 100644
--- a/src/deserializers/mod.rs
+++ b/src/deserializers/mod.rs
@@ -7,6 +7,7 @@ pub use self::rpc_request::RpcRequestDeserializer;
 pub use self::rpc_response::RpcResponseDeserializer;
 pub use self::url_query::UrlQueryDeserializer;
 pub use self::url_path::UrlPathDeserializer;
+pub(crate) use self::url_path::percent_decode;
 
 mod http_header;
 mod rpc_request;
diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index 9de9882..11235d4 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -43,7 +43,7 @@ impl<'de> UrlPathDeserializer<'de> {
                 .segments
                 .next()
                 .ok_or_else(|| ErrorKind::Invalid.error(),))?;
-            track_assert_eq!(actual, expected, ErrorKind::Invalid);
+            track_assert!(is_literal_matched(actual, expected), ErrorKind::Invalid);
         }
         Ok(())
     }
@@ -57,7 +57,7 @@ impl<'de> UrlPathDeserializer<'de> {
         self.index += 1;
         if let Some(expected) = self.entry_point.segments()[i].as_option() {
             let s = self.segments.next().unwrap();
-            track_assert_eq!(s, expected, ErrorKind::Invalid);
+            track_assert!(is_literal_matched(s, expected), ErrorKind::Invalid);
             self.next_value()
         } else {
             self.free_vars -= 1;
@@ -337,7 +337,11 @@ where
     Ok(v)
 }
 
-fn percent_decode(s: &str) -> Result<String> {
+fn is_literal_matched(actual: &str, expected: &str) -> bool {
+    percent_decode(actual).ok().map_or(false, |s| s == expected)
+}
+
+pub(crate) fn percent_decode(s: &str) -> Result<String> {
     let mut bytes = s.bytes();
     let mut decoded = Vec::with_capacity(s.len());
     while let Some(b) = bytes.next() {
diff --git a/src/router.rs b/src/router.rs
index 43f0933..7fb91a2 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -5,6 +5,7 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
+use deserializers::percent_decode;
 use procedure::EntryPoint;
 use types::{HttpMethod, HttpStatus};
 use {Error, ErrorKind, Result};
@@ -31,7 +32,9 @@ impl Router {
         let mut trie = self.trie.root();
         // NOTE: There is no path hierarchy in some kinds of URLs (e.g., "mailto:foo").
         for segment in url.path_segments().ok_or(HttpStatus::NotFound)? {
-            if let Some(child) = trie.get_child(segment) {
+            // NOTE: The literals of entry points are percent-encoded by clients.
+            let segment = percent_decode(segment).unwrap_or_else(|_| segment.to_owned());
+            if let Some(child) = trie.get_child(&segment) {
                 trie = child;
             } else {
                 return Err(HttpStatus::NotFound);
-- 
2.43.0


From 36f5eca4f58ba7cff5dd113511d8031796748d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:11 +0000
Subject: [PATCH 12/20] fix: deserialize the unit value as a path without
 variables

---
 src/deserializers/url_path.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index 11235d4..db0740f 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -218,11 +218,14 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlPathDeserializer<'de> {
         track_panic!(ErrorKind::Invalid);
     }
 
-    fn deserialize_unit<V>(self, _visitor: V) -> Result<V::Value>
+    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        track_panic!(ErrorKind::Invalid);
+        track_assert!(!self.in_seq, ErrorKind::Invalid);
+        track_assert_eq!(self.free_vars, 0, ErrorKind::Invalid);
+        track!(self.finish())?;
+        track!(visitor.visit_unit())
     }
 
     fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
-- 
2.43.0


From ef98eb726509902b1ce827f18dd43d1fc5680ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:12 +0000
Subject: [PATCH 13/20] fix: keep the HTTP status in sync with the problem set
 by set_problem

---
 src/rfc7807.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rfc7807.rs b/src/rfc7807.rs
index 04a888b..0a8a4ea 100644
--- a/src/rfc7807.rs
+++ b/src/rfc7807.rs
@@ -38,6 +38,7 @@ impl ProblemResponse {
 
     /// Sets the `Problem` instance of this response.
     pub fn set_problem(&mut self, problem: Problem) {
+        self.status = Some(problem.get_status_code());
         self.body = problem;
     }
 }
-- 
2.43.0


From 933ac9ae45a393446b2a3327f78bf181436b7cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:37 +0000
Subject: [PATCH 14/20] fix: discard the request body left unread by the
 handler side

---
 src/server.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 682e7f3..4bb8a68 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -82,6 +82,13 @@ impl RpcServerBuilder {
             let future = futures::done(http_request.into_body_reader())
                 .map_err(Error::from)
                 .and_then(move |http_request| rpc_request.read_body(http_request))
+                .and_then(|(http_request, rpc_request)| {
+                    // The rest of the body must not be taken for the next request.
+                    http_request
+                        .read_all_bytes()
+                        .map_err(Error::from)
+                        .map(|(http_request, _)| (http_request, rpc_request))
+                })
                 .and_then(move |(http_request, rpc_request)| {
                     let http_request = http_request.into_inner();
                     handler
-- 
2.43.0


From bf0b4bda1d5f6c5de8a1c6764c0189eb21b54acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:04 +0000
Subject: [PATCH 15/20] fix: treat truncated request and response bodies as
 errors

---
 src/client.rs | 12 +++++++++++-
 src/server.rs |  5 +++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 915676a..9d48eee 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,9 +1,10 @@
+use std::io;
 use std::net::SocketAddr;
 use fibers::net::TcpStream;
 use futures::{self, Async, Future, Poll};
 use handy_async::future::Phase;
 use miasht;
-use miasht::builtin::io::IoExt;
+use miasht::builtin::io::{BodyReader, IoExt};
 use miasht::builtin::futures::FutureExt;
 use miasht::client::{Connection, Response};
 use serde::{Deserialize, Serialize};
@@ -108,6 +109,15 @@ where
                     } else {
                         let future = futures::done(response.into_body_reader())
                             .and_then(|res| res.read_all_bytes().map_err(|e| track!(e)))
+                            .and_then(|(res, body)| {
+                                if let BodyReader::FixedLength(ref r) = res {
+                                    if r.limit() != 0 {
+                                        let eof = io::Error::from(io::ErrorKind::UnexpectedEof);
+                                        return Err(track!(miasht::Error::from(eof)));
+                                    }
+                                }
+                                Ok((res, body))
+                            })
                             .map(|(res, body)| (res.into_inner(), body));
                         Box::new(future)
                     };
diff --git a/src/server.rs b/src/server.rs
index 4bb8a68..b6e3166 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -89,6 +89,11 @@ impl RpcServerBuilder {
                         .map_err(Error::from)
                         .map(|(http_request, _)| (http_request, rpc_request))
                 })
+                .and_then(|(http_request, rpc_request)| {
+                    let remaining = ::content_length(&http_request).unwrap_or(0);
+                    track_assert_eq!(remaining, 0, ErrorKind::Invalid, "Truncated request body");
+                    Ok((http_request, rpc_request))
+                })
                 .and_then(move |(http_request, rpc_request)| {
                     let http_request = http_request.into_inner();
                     handler
-- 
2.43.0


From dd109571f8d2457d0992cc43120413e520cf77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:19 +0000
Subject: [PATCH 16/20] fix: route "/" to the entry point which has no segments

---
 src/router.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 7fb91a2..c919872 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -89,9 +89,15 @@ impl Trie {
         entry_point: &EntryPoint,
         handler: HandleHttpRequest,
     ) -> Result<()> {
+        use types::PathSegment::*;
+        // NOTE: The path of the entry point without segments is "/" (i.e., an empty segment).
+        static ROOT: &'static [::types::PathSegment] = &[Val("")];
+        let segments = match entry_point.segments() {
+            segments if segments.is_empty() => ROOT,
+            segments => segments,
+        };
         let mut node = &mut self.root;
-        for segment in entry_point.segments() {
-            use types::PathSegment::*;
+        for segment in segments {
             let key = match *segment {
                 Val(s) => Some(s),
                 Var => None,
-- 
2.43.0


From 61b4a2de11414077747947db4e452336b5b400ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:03 +0000
Subject: [PATCH 17/20] fix: deserialize optional status codes of responses

A response type whose status field is optional, such as ProblemResponse,
could never be deserialized by the caller.
---
 src/deserializers/rpc_response.rs | 25 +++++++++++++++++++++++--
 src/lib.rs                        |  1 +
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/rpc_response.rs b/src/deserializers/rpc_response.rs
index aece628..b08971a 100644
--- a/src/deserializers/rpc_response.rs
+++ b/src/deserializers/rpc_response.rs
@@ -248,11 +248,10 @@ impl<'de, 'a> de::MapAccess<'de> for &'a mut RpcResponseDeserializer<'de> {
     where
         V: de::DeserializeSeed<'de>,
     {
-        use serde::de::value::U16Deserializer;
         match self.phase {
             Phase::Init => unreachable!(),
             Phase::Status => {
-                let de: U16Deserializer<Error> = self.response.status().code().into_deserializer();
+                let de = StatusDeserializer(self.response.status().code());
                 let v = track!(seed.deserialize(de))?;
                 Ok(v)
             }
@@ -265,6 +264,28 @@ impl<'de, 'a> de::MapAccess<'de> for &'a mut RpcResponseDeserializer<'de> {
     }
 }
 
+/// A `Deserializer` of status codes (optional or not).
+struct StatusDeserializer(u16);
+impl<'de> de::Deserializer<'de> for StatusDeserializer {
+    type Error = Error;
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        track!(visitor.visit_u16(self.0))
+    }
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        track!(visitor.visit_some(self))
+    }
+    forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct
+        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
+    }
+}
+
 struct Enum<'de: 'a, 'a>(&'a mut RpcResponseDeserializer<'de>);
 impl<'de, 'a> de::EnumAccess<'de> for Enum<'de, 'a> {
     type Error = Error;
diff --git a/src/lib.rs b/src/lib.rs
index 801d041..1389d4d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,6 +7,7 @@ extern crate fibers;
 extern crate futures;
 extern crate handy_async;
 extern crate miasht;
+#[macro_use]
 extern crate serde;
 #[macro_use]
 extern crate serde_derive;
-- 
2.43.0


From d30355e80aab7cc9269a69ce19f11da99527b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:49 +0000
Subject: [PATCH 18/20] fix: keep serving after a failure to accept a
 connection

---
 src/server.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index b6e3166..ed6da23 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -1,4 +1,5 @@
 use fibers::net::TcpStream;
+use fibers::time::timer;
 use fibers::{self, BoxSpawn, Spawn};
 use futures::stream::StreamFuture;
 use futures::{self, Async, Future, Poll, Stream};
@@ -11,6 +12,7 @@ use serde::Deserialize;
 use slog::{Discard, Logger};
 use std::io;
 use std::net::SocketAddr;
+use std::time::Duration;
 use trackable::error::ErrorKindExt;
 
 use deserializers::RpcRequestDeserializer;
@@ -22,6 +24,9 @@ use serializers::RpcResponseSerializer;
 use types::{HttpMethod, HttpStatus};
 use {Error, ErrorKind, Result};
 
+/// The interval until the server accepts connections again after a failure.
+const ACCEPT_RETRY_INTERVAL_MS: u64 = 100;
+
 type BoxFuture<T, E> = Box<dyn Future<Item = T, Error = E> + Send + 'static>;
 
 /// The `RpcServer` builder.
@@ -134,16 +139,32 @@ pub struct RpcServer {
     spawner: BoxSpawn,
     logger: Logger,
     router: Router,
-    phase:
-        Phase<fibers::net::futures::TcpListenerBind, StreamFuture<fibers::net::streams::Incoming>>,
+    phase: Phase<
+        fibers::net::futures::TcpListenerBind,
+        StreamFuture<fibers::net::streams::Incoming>,
+        BoxFuture<fibers::net::streams::Incoming, Error>,
+    >,
 }
 impl Future for RpcServer {
     type Item = ();
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         loop {
-            let next = match track!(self.phase.poll().map_err(Error::from))? {
+            let polled = match self.phase.poll() {
+                Err(Phase::B((e, incoming))) => {
+                    // e.g., too many open files, or the connection has already been aborted
+                    warn!(self.logger, "Failed to accept a connection: {}", e);
+                    let retry = timer::timeout(Duration::from_millis(ACCEPT_RETRY_INTERVAL_MS))
+                        .map(|()| incoming)
+                        .map_err(Error::from);
+                    self.phase = Phase::C(Box::new(retry));
+                    continue;
+                }
+                result => track!(result.map_err(Error::from))?,
+            };
+            let next = match polled {
                 Async::NotReady => return Ok(Async::NotReady),
+                Async::Ready(Phase::C(incoming)) => Phase::B(incoming.into_future()),
                 Async::Ready(Phase::A(listener)) => {
                     info!(
                         self.logger,
-- 
2.43.0


From 6445e8828c06e1985d98b9185c0b5f878bdca107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:14 +0000
Subject: [PATCH 19/20] fix: do not wait for the body of a 1xx, 204 or 304
 response without a length

---
 src/client.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 9d48eee..057bd0b 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -62,6 +62,17 @@ where
     }
 }
 
+/// Returns `true` if the response ends with its header, because neither its header nor the end of
+/// the connection tells the length of a body (see RFC 7230, section 3.3.3).
+fn is_bodiless(response: &Response<TcpStream>) -> bool {
+    let code = response.status().code();
+    (code / 100 == 1 || code == 204 || code == 304)
+        && response.headers().iter().all(|(name, _)| {
+            !name.eq_ignore_ascii_case("Content-Length")
+                && !name.eq_ignore_ascii_case("Transfer-Encoding")
+        })
+}
+
 pub(crate) struct CallInner<P>
 where
     P: Procedure,
@@ -104,7 +115,8 @@ where
                 }
                 Async::Ready(Phase::C(response)) => {
                     // Reads HTTP response body.
-                    let future: BoxFuture<_, _> = if P::method() == HttpMethod::Head {
+                    let is_bodiless = P::method() == HttpMethod::Head || is_bodiless(&response);
+                    let future: BoxFuture<_, _> = if is_bodiless {
                         Box::new(futures::finished((response, Vec::new())))
                     } else {
                         let future = futures::done(response.into_body_reader())
-- 
2.43.0


From ec37a81762973aee07f58dc224fbd9ccb4180c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:14 +0000
Subject: [PATCH 20/20] fix: accept suspension times and connect timeouts of
 any length

---
 src/pool.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 099882d..420a890 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -1,5 +1,5 @@
 //! Connection pool.
-use std::cmp::Ordering;
+use std::cmp::{self, Ordering};
 use std::collections::{BTreeMap, Bound, HashMap};
 use std::fmt;
 use std::net::SocketAddr;
@@ -17,6 +17,9 @@ use trackable::error::ErrorKindExt;
 use {Error, ErrorKind, Procedure};
 use client::CallInner;
 
+/// About a century: longer durations may not be representable as points in time.
+const MAX_DURATION_SECS: u64 = 100 * 365 * 24 * 60 * 60;
+
 type TcpConnection = miasht::client::Connection<TcpStream>;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -137,12 +140,12 @@ impl RpcClientPool {
 
     /// Sets the suspended duration of an erroneous TCP address.
     pub fn set_suspended_duration(&mut self, duration: Duration) {
-        self.suspended_duration = duration;
+        self.suspended_duration = cmp::min(duration, Duration::from_secs(MAX_DURATION_SECS));
     }
 
     /// Sets the timeout of a TCP connecting phase.
     pub fn set_connect_timeout(&mut self, timeout: Duration) {
-        self.connect_timeout = timeout;
+        self.connect_timeout = cmp::min(timeout, Duration::from_secs(MAX_DURATION_SECS));
     }
 
     fn handle_command(&mut self, command: Command) {
-- 
2.43.0

