From 3f8a7df007de5fbc78d391f3e09e2d8617a503a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:37 +0000
Subject: [PATCH 01/24] fix: byte 0xFF indexes past the end of the byte class
 tables

The tables had 255 entries, so any header field, quoted field or token
byte of 0xFF panicked instead of being classified.
---
 src/byte.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/byte.rs b/src/byte.rs
index e604a3d..6d8c83a 100644
--- a/src/byte.rs
+++ b/src/byte.rs
@@ -17,7 +17,7 @@
 //! Byte verification functions.
 
 /// Bytes allowed in non-quoted header fields.
-static HEADER_FIELDS: [bool; 255] = [
+static HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -86,12 +86,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true,  true
 
 ];
 
 /// Bytes allowed in quoted header fields.
-static QUOTED_HEADER_FIELDS: [bool; 255] = [
+static QUOTED_HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -160,12 +160,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true,  true
 
 ];
 
 /// Bytes that are considered tokens.
-static TOKENS: [bool; 255] = [
+static TOKENS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, false,
@@ -234,7 +234,7 @@ false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
-false, false, false, false, false, false, false
+false, false, false, false, false, false, false, false
 
 ];
 
-- 
2.43.0


From 5cc80dc6449d8380c4304d73229824f097e152ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:10 +0000
Subject: [PATCH 02/24] fix: request methods starting with H lose their first
 bytes

When fewer than 9 bytes are available, bytes consumed while probing for
a response version (H, HT, HTT or HTTP) were never submitted to
on_method(), so a fragmented HEAD request was reported as EAD.
---
 src/http1/parser.rs | 56 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index e95d2da..2def687 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -558,7 +558,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect2(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect2(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -572,11 +572,17 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // make sure we have an upper-cased alphabetical character, or the end of the method
+        if (context.byte > 0x40 && context.byte < 0x5B) || context.byte == b' ' {
+            bs_replay!(context);
+
+            // this is a request, so submit the method bytes that were consumed during detection
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"H",
                 RequestMethod,
                 request_method
             );
@@ -586,7 +592,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect3(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect3(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -600,11 +606,17 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // make sure we have an upper-cased alphabetical character, or the end of the method
+        if (context.byte > 0x40 && context.byte < 0x5B) || context.byte == b' ' {
+            bs_replay!(context);
+
+            // this is a request, so submit the method bytes that were consumed during detection
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"HT",
                 RequestMethod,
                 request_method
             );
@@ -614,7 +626,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect4(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect4(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -628,11 +640,17 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // make sure we have an upper-cased alphabetical character, or the end of the method
+        if (context.byte > 0x40 && context.byte < 0x5B) || context.byte == b' ' {
+            bs_replay!(context);
+
+            // this is a request, so submit the method bytes that were consumed during detection
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"HTT",
                 RequestMethod,
                 request_method
             );
@@ -642,7 +660,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect5(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect5(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -656,11 +674,17 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // make sure we have an upper-cased alphabetical character, or the end of the method
+        if (context.byte > 0x40 && context.byte < 0x5B) || context.byte == b' ' {
+            bs_replay!(context);
+
+            // this is a request, so submit the method bytes that were consumed during detection
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"HTTP",
                 RequestMethod,
                 request_method
             );
-- 
2.43.0


From 3709b811de4f4887ade0bf9a7fd74b7fc2435866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:33 +0000
Subject: [PATCH 03/24] fix: a new parser reads past the end of an empty first
 slice

detect1 is the first state of a new parser, and compared the first byte
without checking that there is one.
---
 src/http1/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 2def687..6c7f50e 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -482,6 +482,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             });
         }
 
+        exit_if_eos!(self, context);
+
         unsafe {
             if bs_starts_with1!(context, b"H") {
                 if bs_has_bytes!(context, 9) {
-- 
2.43.0


From af8ccbb26749806b8596a4c93f6d37649fce4351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 04/24] fix: escaped {, | and ~ style bytes are rejected in
 quoted chunk extensions

An escaped byte may be any 7bit byte that is not a control character,
as the comment says, but bytes 0x7B thru 0x7E were rejected.
---
 src/http1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 6c7f50e..234d205 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2408,7 +2408,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         bs_next!(context);
 
         // escaped bytes must be 7bit, and cannot be control characters
-        if context.byte > 0x1F && context.byte < 0x7B {
+        if context.byte > 0x1F && context.byte < 0x7F {
             callback_transition!(
                 self,
                 handler,
-- 
2.43.0


From 90eeccb45f0bda7ba88f8725ae677b6f4bf3bb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:40 +0000
Subject: [PATCH 05/24] fix: a last chunk that has extensions does not end the
 body

0;name=value was treated as a data chunk of length 0, so the trailers
were parsed as chunk data and the body never finished.
---
 src/http1/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 234d205..346cb48 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2190,6 +2190,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         bs_next!(context);
 
         if context.byte == b'\n' {
+            if self.length == 0 {
+                // last chunk
+                transition!(
+                    self,
+                    context,
+                    HeaderCr2,
+                    header_cr2
+                );
+            }
+
             transition!(
                 self,
                 context,
-- 
2.43.0


From 2f4f3f6ab4893ae20a1dcaf61cdb5a0df0fa2ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:01 +0000
Subject: [PATCH 06/24] fix: a multipart boundary is missed right after bytes
 that look like one

The byte that ended a failed boundary match was always submitted as
data, so when it was a carriage return it could not start the real
boundary, and the next part was delivered as data of this one.
---
 src/http1/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 346cb48..9cb92c4 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2559,12 +2559,14 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
             // so let's send the data to the callback and get back to parsing
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', context.byte],
+                b"\r\n",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2589,12 +2591,14 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
             // so let's send the data to the callback and get back to parsing
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', b'-', context.byte],
+                b"\r\n-",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2879,12 +2883,14 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
+        bs_replay!(context);
+
         callback_transition!(
             self,
             handler,
             context,
             on_multipart_data,
-            &[b'\r', context.byte],
+            b"\r",
             MultipartDataByByte,
             multipart_data_by_byte
         );
-- 
2.43.0


From 27004a403d30f260a3464df64b9d5f5330801667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:35 +0000
Subject: [PATCH 07/24] fix: the last slice of an URL encoded body is counted
 twice

resume() runs the parser loop a second time over the same stream to
finish the body, and byte_count() was increased by both runs.
---
 src/http1/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 9cb92c4..f540133 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -298,6 +298,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                         self.state          = ParserState::BodyFinished;
                         self.state_function = Parser::body_finished;
 
+                        // parsing continues with the same context, which is already counted
+                        self.byte_count -= length;
+
                         self.parse(&mut handler, &mut context)
                     } else {
                         self.length -= length;
-- 
2.43.0


From cf8a662749d93afea88bcda7b1ff134273d70653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:37 +0000
Subject: [PATCH 08/24] fix: stream ids lose bytes when a http2 frame header is
 fragmented

The second and third byte replaced the bytes collected before them.
---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 5a926fe..29aaf96 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -411,7 +411,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 16;
+        self.bit_data32b |= (get_u8!(context) as u32) << 16;
 
         transition!(
             self,
@@ -426,7 +426,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 8;
+        self.bit_data32b |= (get_u8!(context) as u32) << 8;
 
         transition!(
             self,
-- 
2.43.0


From 51bb60c2343a45602828be3e4267b90d875a4c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:39 +0000
Subject: [PATCH 09/24] fix: fragmented http2 go away and settings frames never
 leave their third byte

The states for the third byte of the stream id and the setting value
transitioned to themselves, and overwrote it with everything after it.
---
 src/http2/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 29aaf96..41515a7 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -658,8 +658,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            GoAwayStreamId3,
-            go_away_stream_id3
+            GoAwayStreamId4,
+            go_away_stream_id4
         );
     }
 
@@ -1388,8 +1388,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            SettingsValue3,
-            settings_value3
+            SettingsValue4,
+            settings_value4
         );
     }
 
-- 
2.43.0


From 0f768a188cc2ff4ba63f5747de4fd6d2b9a7b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:40 +0000
Subject: [PATCH 10/24] fix: an empty http2 settings frame consumes the frame
 after it

A settings acknowledgement has no payload, but the next six bytes were
always taken as a setting.
---
 src/http2/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 41515a7..7213022 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -491,7 +491,12 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 set_state!(self, RstStreamErrorCode1, rst_stream_error_code1);
             },
             FR_SETTINGS => {
-                set_state!(self, SettingsId1, settings_id1);
+                if payload_length!(self) > 0 {
+                    set_state!(self, SettingsId1, settings_id1);
+                } else {
+                    // acknowledgement
+                    set_state!(self, FrameLength1, frame_length1);
+                }
             },
             FR_PUSH_PROMISE => {
                 if has_flag!(self, FL_PADDED) {
-- 
2.43.0


From 6cfa91c37d7190f861b5cf5faef0e2462e34723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:42 +0000
Subject: [PATCH 11/24] fix: the reserved bit is part of promised stream ids
 and window increments

Both are 31 bits wide, after a reserved bit that must be ignored.
---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 7213022..4c2b89d 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1179,7 +1179,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
-        if handler.on_push_promise(self.bit_data32b) {
+        if handler.on_push_promise(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
@@ -1513,7 +1513,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn window_update_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        if handler.on_window_update(self.bit_data32b) {
+        if handler.on_window_update(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
-- 
2.43.0


From 668a18d729f929f061b71aff9797f2b2f281f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:19 +0000
Subject: [PATCH 12/24] fix: http2 frames too short for their own fields
 underflow the payload length

A pad length larger than the payload, or a payload shorter than its
mandatory fields, overflowed (a panic in debug builds, and a payload
of about 16 MiB in release builds). These frames are now an error.
---
 src/http2/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 4c2b89d..91ff259 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -47,9 +47,13 @@ macro_rules! actual_length {
     });
 }
 
-/// Decrease payload length.
+/// Decrease payload length. Exit with an error if there is not enough payload left.
 macro_rules! dec_payload_length {
     ($parser:expr, $length:expr) => ({
+        if payload_length!($parser) < $length {
+            exit_error!(Dead);
+        }
+
         $parser.bit_data32a = ($parser.bit_data32a & 0xFF)
                             | (($parser.bit_data32a >> 8) - $length) << 8;
     });
@@ -88,6 +92,11 @@ macro_rules! payload_length {
 /// Parse payload data.
 macro_rules! parse_payload_data {
     ($parser:expr, $handler:expr, $context:expr, $callback:ident) => ({
+        if payload_length!($parser) < pad_length!($parser) {
+            // more padding than payload
+            exit_error!(Dead);
+        }
+
         if bs_available!($context) >= actual_length!($parser) as usize {
             // collect remaining data
             bs_jump!($context, actual_length!($parser) as usize);
-- 
2.43.0


From f5a1334d37897031db32c385a33f65107281b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:46 +0000
Subject: [PATCH 13/24] fix: a http2 frame shorter than its fixed fields takes
 bytes from the next frame

Priority, rst stream, settings and window update frames were reported
even if their declared payload is too short to contain their fields.
---
 src/http2/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 91ff259..44a5ae7 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1065,6 +1065,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
+        // decrease payload by stream id (4) and weight (1)
+        dec_payload_length!(self, 5);
+
         if handler.on_priority(
             (self.bit_data32b >> 31) == 1,
             self.bit_data32b & 0x7FFFFFFF,
@@ -1285,6 +1288,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn rst_stream_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        // decrease payload by error code (4)
+        dec_payload_length!(self, 4);
+
         if handler.on_rst_stream(self.bit_data32b) {
             transition!(
                 self,
@@ -1425,6 +1431,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn settings_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        // decrease payload by identifier (2) and value (4)
+        dec_payload_length!(self, 6);
+
         if handler.on_settings(self.bit_data16a, self.bit_data32b) {
             transition!(
                 self,
@@ -1522,6 +1531,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn window_update_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        // decrease payload by size increment (4)
+        dec_payload_length!(self, 4);
+
         if handler.on_window_update(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
-- 
2.43.0


From 920b8d69eff9655ae43b7d6dc864ca7f9b51196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:44 +0000
Subject: [PATCH 14/24] fix: an escaped byte in a query field name is always an
 error

After decoding %XX in a name, QueryIterator fell through to the error
for an incomplete sequence. Names now decode the same way values do.
---
 src/util/query.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/query.rs b/src/util/query.rs
index b863296..c6f7bc9 100644
--- a/src/util/query.rs
+++ b/src/util/query.rs
@@ -200,11 +200,13 @@ impl<'a> Iterator for QueryIterator<'a> {
                                 self.context,
                                 QueryError::Name
                             ));
-                        } else if bs_has_bytes!(self.context, 1) {
-                            bs_next!(self.context);
-                        }
+                        } else {
+                            if bs_has_bytes!(self.context, 1) {
+                                bs_next!(self.context);
+                            }
 
-                        submit_error!(self, QueryError::Name);
+                            submit_error!(self, QueryError::Name);
+                        }
                     },
                     b'+' => {
                         self.name.push(b' ');
-- 
2.43.0


From 3f8b453ffd30fbfb4f68b56b2a37c5fd3645bba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:48 +0000
Subject: [PATCH 15/24] fix: QueryIterator continues in the middle of a field
 after a bad escape

Every other error ends the iteration, but after an invalid hex byte the
next call returned the rest of the field as if it were a new one.
---
 src/collect.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/collect.rs b/src/collect.rs
index 2b93e1c..ce0cc2f 100644
--- a/src/collect.rs
+++ b/src/collect.rs
@@ -95,6 +95,8 @@ macro_rules! collect_hex8_iter {
             } else if b'`' < $context.byte && $context.byte < b'g' {
                 ($context.byte - 0x57) << 4
             } else {
+                bs_jump!($context, bs_available!($context));
+
                 (*$iter.on_error)($error($context.byte));
 
                 return None;
@@ -112,6 +114,8 @@ macro_rules! collect_hex8_iter {
                 } else if b'`' < $context.byte && $context.byte < b'g' {
                     $context.byte - 0x57
                 } else {
+                    bs_jump!($context, bs_available!($context));
+
                     (*$iter.on_error)($error($context.byte));
 
                     return None;
-- 
2.43.0


From a112ddbc2bb81b062b7c17f731a4e756ddac39fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 16/24] fix: FieldIterator loses a field name that ends with an
 upper-case byte

Leading white space was consumed again after each normalized byte (and
after each slash), so at the end of the field the name was dropped, and
white space inside of a name was silently removed.
---
 src/util/field.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 8f26600..dc4ec01 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -169,17 +169,17 @@ impl<'a> Iterator for FieldIterator<'a> {
         self.name.clear();
         self.value.clear();
 
-        loop {
-            // parsing name
-            consume_linear_space!(
-                self.context,
+        consume_linear_space!(
+            self.context,
 
-                // on end-of-stream
-                return None
-            );
+            // on end-of-stream
+            return None
+        );
 
-            bs_replay!(self.context);
+        bs_replay!(self.context);
 
+        loop {
+            // parsing name
             bs_mark!(self.context);
 
             collect_tokens!(
-- 
2.43.0


From 88a035303abe321a4ef5245fb9acd1e3f7f0c9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 17/24] fix: FieldIterator rejects any parameter after a quoted
 value

consume_linear_space!() already reads the byte after the white space, so
the delimiter was skipped and the byte after it compared instead.
---
 src/util/field.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index dc4ec01..2fc071c 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -237,12 +237,6 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     submit_name_value!(self)
                                 );
 
-                                if bs_available!(self.context) == 0 {
-                                    submit_name_value!(self);
-                                }
-
-                                bs_next!(self.context);
-
                                 if self.context.byte == self.delimiter {
                                     submit_name_value!(self);
                                 }
-- 
2.43.0


From b43b25889b9e1158a6a60c7f4e74a43ec58db2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:10 +0000
Subject: [PATCH 18/24] fix: FieldIterator reports a trailing backslash as a
 name error

The backslash is part of a quoted value.
---
 src/util/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 2fc071c..ba3027d 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -246,7 +246,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                             } else if self.context.byte == b'\\' {
                                 // found backslash
                                 if bs_is_eos!(self.context) {
-                                    submit_error!(self, FieldError::Name);
+                                    submit_error!(self, FieldError::Value);
                                 }
 
                                 self.value.extend_from_slice(bs_slice_ignore!(self.context));
-- 
2.43.0


From 91bd4178d05b09ad0e86c68d3d2fd6eee425fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:33 +0000
Subject: [PATCH 19/24] fix: decoding escaped or 8bit bytes creates strings
 that are not UTF-8

decode(), QueryIterator and FieldIterator wrote arbitrary bytes into a
String through unsafe code, which is undefined behaviour when they are
not UTF-8. The first invalid byte is now reported as an error.
---
 src/util/decode.rs | 21 ++++++++++------
 src/util/field.rs  | 18 ++++++++------
 src/util/mod.rs    | 62 +++++++++++++++++++---------------------------
 src/util/query.rs  |  8 +++---
 4 files changed, 52 insertions(+), 57 deletions(-)

diff --git a/src/util/decode.rs b/src/util/decode.rs
index e7b8fc1..61dcbaf 100644
--- a/src/util/decode.rs
+++ b/src/util/decode.rs
@@ -96,13 +96,13 @@ impl fmt::Display for DecodeError {
 /// ```
 pub fn decode(encoded: &[u8]) -> Result<String, DecodeError> {
     macro_rules! submit {
-        ($string:expr, $slice:expr) => (unsafe {
-            $string.as_mut_vec().extend_from_slice($slice);
+        ($bytes:expr, $slice:expr) => ({
+            $bytes.extend_from_slice($slice);
         });
     }
 
     let mut context = ByteStream::new(encoded);
-    let mut string  = String::new();
+    let mut bytes   = Vec::new();
 
     loop {
         bs_mark!(context);
@@ -117,22 +117,27 @@ pub fn decode(encoded: &[u8]) -> Result<String, DecodeError> {
             // on end-of-stream
             {
                 if context.mark_index < context.stream_index {
-                    submit!(string, bs_slice!(context));
+                    submit!(bytes, bs_slice!(context));
                 }
 
-                return Ok(string);
+                // escaped bytes do not have to be valid UTF-8
+                return String::from_utf8(bytes).map_err(|error| {
+                    let index = error.utf8_error().valid_up_to();
+
+                    DecodeError::Byte(error.into_bytes()[index])
+                });
             }
         );
 
         if bs_slice_length!(context) > 1 {
-            submit!(string, bs_slice_ignore!(context));
+            submit!(bytes, bs_slice_ignore!(context));
         }
 
         if context.byte == b'+' {
-            submit!(string, b" ");
+            submit!(bytes, b" ");
         } else if context.byte == b'%' {
             if bs_has_bytes!(context, 2) {
-                submit!(string, &[
+                submit!(bytes, &[
                     collect_hex8!(context, DecodeError::HexSequence)
                 ]);
             } else {
diff --git a/src/util/field.rs b/src/util/field.rs
index ba3027d..d7ca7d4 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -198,7 +198,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                         self.name.extend_from_slice(bs_slice!(self.context));
                     }
 
-                    submit_name!(self);
+                    submit_name!(self, FieldError);
                 }
             );
 
@@ -210,7 +210,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                         self.context,
 
                         // on end-of-stream
-                        submit_name!(self)
+                        submit_name!(self, FieldError)
                     );
 
                     if self.context.byte == b'"' {
@@ -234,11 +234,11 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     self.context,
 
                                     // on end-of-stream
-                                    submit_name_value!(self)
+                                    submit_name_value!(self, FieldError)
                                 );
 
                                 if self.context.byte == self.delimiter {
-                                    submit_name_value!(self);
+                                    submit_name_value!(self, FieldError);
                                 }
 
                                 // expected a semicolon to end the value
@@ -279,17 +279,19 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     self.value.extend_from_slice(bs_slice!(self.context));
                                 }
 
-                                submit_name_value!(self);
+                                submit_name_value!(self, FieldError);
                             }
                         );
 
                         if bs_slice_length!(self.context) == 0 {
                             // name without a value
-                            submit_name!(self);
+                            submit_name!(self, FieldError);
                         }
 
                         if self.context.byte == self.delimiter {
-                            submit_name_value!(self.name, bs_slice_ignore!(self.context));
+                            self.value.extend_from_slice(bs_slice_ignore!(self.context));
+
+                            submit_name_value!(self, FieldError);
                         } else {
                             bs_jump!(self.context, bs_available!(self.context));
 
@@ -305,7 +307,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                 },
                 byte if byte == self.delimiter => {
                     // name without a value
-                    submit_name!(self);
+                    submit_name!(self, FieldError);
                 },
                 byte if byte > 0x40 && byte < 0x5B => {
                     // upper-cased byte, let's lower-case it
diff --git a/src/util/mod.rs b/src/util/mod.rs
index ca22235..49e26ab 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -26,51 +26,39 @@ macro_rules! submit_error {
     });
 }
 
-macro_rules! submit_name {
-    ($iter:expr) => ({
-        return Some((
-            unsafe {
-                let mut s = String::with_capacity($iter.name.len());
+/// Convert collected bytes into a `String`. The bytes do not have to be valid UTF-8, and if they
+/// are not, submit an error with the first invalid byte.
+macro_rules! into_string {
+    ($iter:expr, $bytes:expr, $error:expr) => ({
+        match String::from_utf8($bytes.clone()) {
+            Ok(string) => string,
+            Err(error) => {
+                let index = error.utf8_error().valid_up_to();
 
-                s.as_mut_vec().extend_from_slice(&$iter.name);
-                s
-            },
-            None
-        ));
-    });
-}
-macro_rules! submit_name_value {
-    ($name:expr, $value:expr) => ({
-        return Some((
-            unsafe {
-                let mut s = String::with_capacity($name.len());
+                bs_jump!($iter.context, bs_available!($iter.context));
 
-                s.as_mut_vec().extend_from_slice(&$name);
-                s
-            },
-            unsafe {
-                let mut s = String::with_capacity($value.len());
+                (*$iter.on_error)($error(error.into_bytes()[index]));
 
-                s.as_mut_vec().extend_from_slice(&$value);
-                Some(s)
+                return None;
             }
-        ));
+        }
     });
+}
 
-    ($iter:expr) => ({
+macro_rules! submit_name {
+    ($iter:expr, $error:ident) => ({
         return Some((
-            unsafe {
-                let mut s = String::with_capacity($iter.name.len());
-
-                s.as_mut_vec().extend_from_slice(&$iter.name);
-                s
-            },
-            unsafe {
-                let mut s = String::with_capacity($iter.value.len());
+            into_string!($iter, $iter.name, $error::Name),
+            None
+        ));
+    });
+}
 
-                s.as_mut_vec().extend_from_slice(&$iter.value);
-                Some(s)
-            }
+macro_rules! submit_name_value {
+    ($iter:expr, $error:ident) => ({
+        return Some((
+            into_string!($iter, $iter.name, $error::Name),
+            Some(into_string!($iter, $iter.value, $error::Value))
         ));
     });
 }
diff --git a/src/util/query.rs b/src/util/query.rs
index c6f7bc9..035bb10 100644
--- a/src/util/query.rs
+++ b/src/util/query.rs
@@ -184,7 +184,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                             self.name.extend_from_slice(bs_slice!(self.context));
                         }
 
-                        submit_name!(self);
+                        submit_name!(self, QueryError);
                     }
                 );
 
@@ -226,7 +226,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                       b'&'
                     | b';' => {
                         // name without a value
-                        submit_name!(self);
+                        submit_name!(self, QueryError);
                     },
                     _ => {
                         bs_jump!(self.context, bs_available!(self.context));
@@ -257,7 +257,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                             self.value.extend_from_slice(bs_slice!(self.context));
                         }
 
-                        submit_name_value!(self);
+                        submit_name_value!(self, QueryError);
                     }
                 );
 
@@ -287,7 +287,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                       b'&'
                     | b';' => {
                         // name with a value
-                        submit_name_value!(self);
+                        submit_name_value!(self, QueryError);
                     },
                     _ => {
                         bs_jump!(self.context, bs_available!(self.context));
-- 
2.43.0


From 742e51950e919679bc92537791ed2127fc34de77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:05 +0000
Subject: [PATCH 20/24] fix: a response with an empty reason phrase is rejected

The phrase may be empty ("HTTP/1.1 200 \r\n"), and many servers send it
that way.
---
 src/http1/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index f540133..ff48429 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -1415,8 +1415,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         exit_if_eos!(self, context);
         bs_next!(context);
 
-        // status is any 8bit non-control byte
-        if context.byte > 0x1F && context.byte != 0x7F {
+        // status is any 8bit non-control byte, and can be empty
+        if (context.byte > 0x1F && context.byte != 0x7F) || context.byte == b'\r' {
             bs_replay!(context);
 
             transition!(
-- 
2.43.0


From 8decb23926d6fb1f688ecc62446df01cf91b86a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 21/24] fix: header values that are empty or start with an 8bit
 byte are rejected

A field value may be empty, and TEXT is any byte except control bytes,
which the value state accepts anywhere but at the start. An empty value
is submitted as an empty slice.
---
 src/http1/parser.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index ff48429..339a244 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -1694,7 +1694,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn strip_header_value(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn strip_header_value(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         consume_linear_space!(
             context,
@@ -1704,7 +1704,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         );
 
         // make sure we have something visible to collect in next state
-        if is_visible_7bit!(context.byte) {
+        if is_visible_7bit!(context.byte) || context.byte > 0x7F {
             bs_replay!(context);
 
             transition!(
@@ -1715,6 +1715,19 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
+        if context.byte == b'\r' {
+            // empty value, which is submitted so that it separates this name from the next one
+            callback_transition!(
+                self,
+                handler,
+                context,
+                on_header_value,
+                b"",
+                HeaderLf1,
+                header_lf1
+            );
+        }
+
         Err(ParserError::HeaderValue(context.byte))
     }
 
-- 
2.43.0


From caf7d9b01b9d08bdfe7c3fd47059c3c78f59469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:55 +0000
Subject: [PATCH 22/24] fix: chunk lengths with leading zeros are rejected

A chunk length is any sequence of hex digits, and a length such as 0010
or 000 (for the last chunk) is valid.
---
 src/http1/parser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 339a244..3804315 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -1950,9 +1950,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         exit_if_eos!(self, context);
         bs_next!(context);
 
-        if context.byte == b'0' {
-            set_state!(self, ChunkLengthCr, chunk_length_cr);
-        } else if is_hex!(context.byte) {
+        if is_hex!(context.byte) {
             self.length = hex_to_byte!(context.byte) as usize;
 
             set_state!(self, ChunkLength2, chunk_length2);
-- 
2.43.0


From 0710ef6aaeb7522dd7ca659bbb49ed4ea0e883ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:34 +0000
Subject: [PATCH 23/24] fix: a push promise is reported only after the next
 byte

---
 src/http2/parser.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 44a5ae7..b05ed19 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1186,8 +1186,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn push_promise_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
-- 
2.43.0


From af0e18d41a2f1329d01c6ddc789b6be13985fc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:50 +0000
Subject: [PATCH 24/24] fix: the end of empty payload data is reported only
 after the next byte

---
 src/http2/parser.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index b05ed19..aeeac6c 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -59,6 +59,15 @@ macro_rules! dec_payload_length {
     });
 }
 
+/// Exit with `Success::Eos` if there is payload data to come, but none in the stream.
+macro_rules! exit_if_awaiting_data {
+    ($parser:expr, $context:expr) => ({
+        if payload_length!($parser) > pad_length!($parser) {
+            exit_if_eos!($parser, $context);
+        }
+    });
+}
+
 /// Retrieve a u8.
 macro_rules! get_u8 {
     ($context:expr) => ({
@@ -605,7 +614,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn data_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
+        exit_if_awaiting_data!(self, context);
 
         parse_payload_data!(
             self,
@@ -790,7 +799,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn go_away_debug_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
+        exit_if_awaiting_data!(self, context);
 
         parse_payload_data!(
             self,
@@ -956,7 +965,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn headers_fragment(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
+        exit_if_awaiting_data!(self, context);
 
         parse_payload_data!(
             self,
@@ -973,7 +982,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn ping_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
+        exit_if_awaiting_data!(self, context);
 
         parse_payload_data!(
             self,
@@ -1573,7 +1582,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn unsupported_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
+        exit_if_awaiting_data!(self, context);
 
         parse_payload_data!(
             self,
-- 
2.43.0

