From c5a97ae5a05af5b91d88d470c97228ab5411a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:35 +0000
Subject: [PATCH 01/44] fix: do not consume a body byte when the empty line
 ending request headers is split across chunks

---
 src/request.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 4e62e3e..29930f3 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -586,11 +586,11 @@ impl ConnectionParser {
             if remaining.len() < data.len() {
                 self.request_data_consume(input, data.len() - remaining.len());
             } else if eol {
-                if remaining.starts_with(b"\r\n") {
-                    self.request_data_consume(input, min(data.len(), 2));
-                } else if remaining.starts_with(b"\n") {
-                    self.request_data_consume(input, min(data.len(), 1));
-                }
+                // Part of the EOL may have been buffered with an earlier data chunk,
+                // in which case it must not be consumed from this one.
+                let eol_len = if remaining.starts_with(b"\r\n") { 2 } else { 1 };
+                let buffered = data2.len() - data.len();
+                self.request_data_consume(input, eol_len - min(buffered, eol_len));
             }
             // We've seen all the request headers.
             self.state_request_headers(input)
-- 
2.43.0


From a302de99da03c952989d2ee5d0f2a846d4bd4981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:23 +0000
Subject: [PATCH 02/44] fix: assemble a request chunk length line that is split
 across data chunks

---
 src/request.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 29930f3..3163ece 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -336,8 +336,10 @@ impl ConnectionParser {
             self.request_state = State::BODY_CHUNKED_LENGTH;
             Ok(())
         } else {
+            // Advance to end. Dont need to buffer
             req.request_message_len = req.request_message_len.wrapping_add(input.len() as u64);
-            self.handle_request_absent_lf(input)
+            self.request_data_consume(input, input.len());
+            Err(HtpStatus::DATA_BUFFER)
         }
     }
 
@@ -387,21 +389,21 @@ impl ConnectionParser {
                 if req.is_none() {
                     return Err(HtpStatus::ERROR);
                 }
-                let req = req.unwrap();
 
-                if line.eq(b"\n") {
-                    req.request_message_len =
-                        req.request_message_len.wrapping_add(line.len() as u64);
+                // The line may have started in an earlier data chunk.
+                let mut length_line = take(&mut self.request_buf);
+                length_line.add(line);
+                let req = self.request_mut().unwrap();
+                req.request_message_len = req
+                    .request_message_len
+                    .wrapping_add(length_line.len() as u64);
+                if length_line.as_slice().eq(b"\n") {
                     //Empty chunk len. Try to continue parsing.
                     data = remaining;
                     continue;
                 }
-                let mut data = self.request_buf.clone();
-                data.add(line);
-                let req = self.request_mut().unwrap();
-                req.request_message_len = req.request_message_len.wrapping_add(data.len() as u64);
                 // Handle chunk length.
-                let (len, ext) = parse_chunked_length(&data)?;
+                let (len, ext) = parse_chunked_length(&length_line)?;
                 self.request_chunked_length = len;
                 if ext {
                     htp_warn!(
@@ -434,7 +436,9 @@ impl ConnectionParser {
                 return Ok(());
             } else {
                 // Check if the data we have seen so far is invalid
-                return if !is_valid_chunked_length_data(data) {
+                let mut length_line = self.request_buf.clone();
+                length_line.add(data);
+                return if !is_valid_chunked_length_data(&length_line) {
                     // Contains leading junk non hex_ascii data
                     // Invalid chunk length
                     htp_error!(
-- 
2.43.0


From fd90201255f48a2a1aa52f91c359091cbe875dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:47 +0000
Subject: [PATCH 03/44] fix: assemble a response chunk length line that is
 split across data chunks

---
 src/response.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 5a05a8d..3b1f8f7 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -184,11 +184,9 @@ impl ConnectionParser {
     pub fn response_body_chunked_length(&mut self, input: &mut ParserData) -> Result<()> {
         let mut data = input.as_slice();
         loop {
-            let resp = self.response_mut();
-            if resp.is_none() {
+            if self.response().is_none() {
                 return Err(HtpStatus::ERROR);
             }
-            let resp = resp.unwrap();
 
             match take_till_lf(data) {
                 Ok((remaining, line)) => {
@@ -196,21 +194,20 @@ impl ConnectionParser {
                     if !self.response_buf.is_empty() {
                         self.check_response_buffer_limit(line.len())?;
                     }
-                    if is_chunked_ctl_line(line) {
-                        let resp = self.response_mut().unwrap();
-                        resp.response_message_len =
-                            (resp.response_message_len).wrapping_add(line.len() as u64);
+                    // The line may have started in an earlier data chunk.
+                    let mut length_line = take(&mut self.response_buf);
+                    let buf_len = length_line.len();
+                    length_line.add(line);
+                    let resp = self.response_mut().unwrap();
+                    resp.response_message_len =
+                        (resp.response_message_len).wrapping_add(length_line.len() as u64);
+                    if is_chunked_ctl_line(&length_line) {
                         //Empty chunk len. Try to continue parsing.
                         data = remaining;
                         continue;
                     }
-                    let mut data = self.response_buf.clone();
-                    data.add(line);
-                    let resp = self.response_mut().unwrap();
-                    resp.response_message_len =
-                        (resp.response_message_len).wrapping_add(data.len() as u64);
 
-                    match parse_chunked_length(&data) {
+                    match parse_chunked_length(&length_line) {
                         Ok((len, ext)) => {
                             self.response_chunked_length = len;
                             if ext {
@@ -250,6 +247,10 @@ impl ConnectionParser {
                                 HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                                 "Response chunk encoding: Invalid chunk length"
                             );
+                            // the part buffered earlier is body data, too
+                            if buf_len > 0 {
+                                self.response_body_data(Some(&length_line[..buf_len]))?;
+                            }
                         }
                     }
 
@@ -257,8 +258,11 @@ impl ConnectionParser {
                 }
                 _ => {
                     // Check if the data we have seen so far is invalid
-                    if !is_valid_chunked_length_data(data) {
+                    let mut length_line = self.response_buf.clone();
+                    length_line.add(data);
+                    if !is_valid_chunked_length_data(&length_line) {
                         // Contains leading junk non hex_ascii data
+                        let resp = self.response_mut().unwrap();
                         resp.response_transfer_coding = HtpTransferCoding::IDENTITY;
                         self.response_state = State::BODY_IDENTITY_STREAM_CLOSE;
                         htp_error!(
@@ -266,6 +270,11 @@ impl ConnectionParser {
                             HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                             "Response chunk encoding: Invalid chunk length"
                         );
+                        // the part buffered earlier is body data, too
+                        let buffered = take(&mut self.response_buf);
+                        if !buffered.is_empty() {
+                            self.response_body_data(Some(&buffered))?;
+                        }
                         return Ok(());
                     } else {
                         return self.handle_response_absent_lf(input);
-- 
2.43.0


From 48c89692fbed03c6f9cc8336a0a18d586c20544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:17 +0000
Subject: [PATCH 04/44] fix: recognise the end of a response line whose line
 ending is split across data chunks

---
 src/response.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index 3b1f8f7..6ffefb7 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -641,6 +641,19 @@ impl ConnectionParser {
     /// Returns HtpStatus::OK on state change, HtpStatus::ERROR on error, or HtpStatus::DATA
     /// when more data is needed.
     pub fn response_line(&mut self, input: &ParserData) -> Result<()> {
+        // The EOL itself may be split across data chunks, in which case its first
+        // byte has been buffered already and it ends at the start of this chunk.
+        let split_eol = match self.response_buf.last() {
+            Some(b'\r') if input.as_slice().starts_with(b"\n") => Some(1),
+            Some(b'\r') | Some(b'\n') if !input.is_empty() => Some(0),
+            _ => None,
+        };
+        if let Some(eol_len) = split_eol {
+            let mut data = take(&mut self.response_buf);
+            data.add(&input.as_slice()[..eol_len]);
+            self.response_data_consume(input, eol_len);
+            return self.response_line_complete(data.as_slice(), input);
+        }
         match take_till_eol(input.as_slice()) {
             Ok((_, (line, _))) => {
                 // We have a line ending, so consume the input
-- 
2.43.0


From 1843be2f79eb1e7bcb6d032df65cef8f1d7d8ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:08 +0000
Subject: [PATCH 05/44] fix: end an empty response trailer when the next
 response follows in the same data chunk

---
 src/response.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 6ffefb7..c30f306 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -989,13 +989,21 @@ impl ConnectionParser {
 
         let (remaining, eoh) = self.parse_response_headers(response_header.as_slice())?;
         //TODO: Update the response state machine so that we don't have to have this EOL check
+        // An empty trailer may be followed by the next response in the same data chunk.
+        let empty_trailer = self.response().unwrap().response_progress
+            == HtpResponseProgress::TRAILER
+            && remaining.starts_with(b"\r\n")
+            && !matches!(remaining.get(2), Some(b'\r') | Some(b'\n'));
         let eol = remaining.len() == response_header.len()
-            && (remaining.eq(b"\r\n") || remaining.eq(b"\n"));
+            && (remaining.eq(b"\r\n") || remaining.eq(b"\n") || empty_trailer);
         // If remaining is EOL or header parsing saw EOH this is end of headers
         if eoh || eol {
             if eol {
-                //Consume the EOL so it isn't included in data processing
-                self.response_data_consume(input, input.len());
+                //Consume the EOL so it isn't included in data processing, except for
+                //the part of it that was buffered with an earlier data chunk.
+                let eol_len = if remaining.starts_with(b"\r\n") { 2 } else { 1 };
+                let buffered = response_header.len() - input.len();
+                self.response_data_consume(input, eol_len - min(buffered, eol_len));
             } else if remaining.len() <= input.len() {
                 self.response_data_consume(input, input.len() - remaining.len());
             }
-- 
2.43.0


From 00ebaddb1551a45b529bfbbe66d4590e1010f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:47 +0000
Subject: [PATCH 06/44] fix: do not deliver the response line after an interim
 100 response as raw header data

---
 src/response.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index c30f306..72ddc62 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -455,6 +455,9 @@ impl ConnectionParser {
                             "Already seen 100-Continue."
                         );
                     }
+                    // The raw data of the interim headers ends here: what follows
+                    // is the line of the next response.
+                    self.response_receiver_finalize_clear(input)?;
                     // Expecting to see another response line next.
                     self.response_state = State::LINE;
                     let response_tx = self.response_mut().unwrap();
-- 
2.43.0


From 1399a41588e5951d12bd6925d4c498806d68ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:57 +0000
Subject: [PATCH 07/44] fix: end the empty head of an interim 100 response when
 the next response follows in the same data chunk

---
 src/response.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 72ddc62..045e6d5 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -992,13 +992,15 @@ impl ConnectionParser {
 
         let (remaining, eoh) = self.parse_response_headers(response_header.as_slice())?;
         //TODO: Update the response state machine so that we don't have to have this EOL check
-        // An empty trailer may be followed by the next response in the same data chunk.
-        let empty_trailer = self.response().unwrap().response_progress
-            == HtpResponseProgress::TRAILER
+        // An empty trailer or interim response head may be followed by the next response
+        // in the same data chunk.
+        let resp = self.response().unwrap();
+        let empty_block = (resp.response_progress == HtpResponseProgress::TRAILER
+            || resp.response_status_number.eq_num(100))
             && remaining.starts_with(b"\r\n")
             && !matches!(remaining.get(2), Some(b'\r') | Some(b'\n'));
         let eol = remaining.len() == response_header.len()
-            && (remaining.eq(b"\r\n") || remaining.eq(b"\n") || empty_trailer);
+            && (remaining.eq(b"\r\n") || remaining.eq(b"\n") || empty_block);
         // If remaining is EOL or header parsing saw EOH this is end of headers
         if eoh || eol {
             if eol {
-- 
2.43.0


From 0de5a5e2ad67f574e5ad66aab4eb6c09c759d4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:01 +0000
Subject: [PATCH 08/44] fix: keep the first byte of a two-byte gzip header
 field that is split across writes

---
 src/decompressors.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index b533eef..88f65e2 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -459,11 +459,13 @@ impl Write for GzipBufWriter {
         const FNAME: u8 = 1 << 3;
         const FCOMMENT: u8 = 1 << 4;
 
-        let (mut parse, direct) = if !self.buffer.is_empty() && self.state == GzState::Start {
-            self.buffer.extend_from_slice(data);
-            (self.buffer.as_ref(), false)
+        // Part of a header field that was kept back from an earlier write.
+        let mut buffered = std::mem::take(&mut self.buffer);
+        let mut parse = if !buffered.is_empty() {
+            buffered.extend_from_slice(data);
+            buffered.as_slice()
         } else {
-            (data, true)
+            data
         };
 
         loop {
@@ -475,9 +477,7 @@ impl Write for GzipBufWriter {
                         self.state = GzState::Xlen;
                     }
                     Err(nom::Err::Incomplete(_)) => {
-                        if direct {
-                            self.buffer.extend_from_slice(data);
-                        }
+                        self.buffer = parse.to_vec();
                         return Ok(data.len());
                     }
                     Err(_) => {
@@ -495,7 +495,11 @@ impl Write for GzipBufWriter {
                                 self.xlen = xlen;
                             }
                             Err(nom::Err::Incomplete(_)) => {
-                                return Ok(data.len() - parse.len());
+                                if parse.len() < data.len() {
+                                    return Ok(data.len() - parse.len());
+                                }
+                                self.buffer = parse.to_vec();
+                                return Ok(data.len());
                             }
                             Err(_) => {
                                 return Err(std::io::Error::new(
@@ -570,7 +574,11 @@ impl Write for GzipBufWriter {
                                 parse = rest;
                             }
                             Err(nom::Err::Incomplete(_)) => {
-                                return Ok(data.len() - parse.len());
+                                if parse.len() < data.len() {
+                                    return Ok(data.len() - parse.len());
+                                }
+                                self.buffer = parse.to_vec();
+                                return Ok(data.len());
                             }
                             Err(_) => {
                                 return Err(std::io::Error::new(
-- 
2.43.0


From 512276f8a26862909cb4dedd14268e53a8bbf707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:51 +0000
Subject: [PATCH 09/44] fix: decompress the start of a stream again when a
 decompressor is restarted in a later data chunk

---
 src/decompressors.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index 88f65e2..12ad33c 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -6,6 +6,10 @@ use std::{
 /// Buffer compression output to this chunk size.
 const ENCODING_CHUNK_SIZE: usize = 8192;
 
+/// Number of bytes kept from the start of a stream, so that they can be decompressed again when
+/// a decompressor is restarted.
+const RESTART_HEAD_SIZE: usize = 16;
+
 /// Default LZMA dictionary memory limit in bytes.
 const DEFAULT_LZMA_MEMLIMIT: usize = 1_048_576;
 /// Default number of LZMA layers to pass to the decompressor.
@@ -702,6 +706,8 @@ struct InnerDecompressor {
     passthrough: bool,
     /// Tracks the number of restarts
     restarts: u8,
+    /// Start of the stream, as long as it is short and nothing was decompressed from it.
+    head: Option<Vec<u8>>,
     /// Options for decompression
     options: Options,
 }
@@ -757,6 +763,7 @@ impl InnerDecompressor {
             writer: Some(writer),
             passthrough,
             restarts: 0,
+            head: Some(Vec::new()),
             options,
         })
     }
@@ -789,6 +796,9 @@ impl InnerDecompressor {
                 // Flush all of the bytes the writer has written to our temporary
                 // buffer of fixed size.
                 if let Some(cursor) = writer.get_mut() {
+                    if cursor.position() > 0 {
+                        self.head = None;
+                    }
                     inner.write_all(&cursor.get_ref()[0..cursor.position() as usize])?;
                     cursor.set_position(0);
                 }
@@ -844,6 +854,10 @@ impl Write for InnerDecompressor {
                     } else {
                         Ok(consumed)
                     };
+                    self.head = self.head.take().and_then(|mut head| {
+                        head.extend_from_slice(&data[..consumed]);
+                        (head.len() <= RESTART_HEAD_SIZE).then_some(head)
+                    });
                     self.writer.replace(writer);
                     result
                 }
@@ -859,12 +873,19 @@ impl Write for InnerDecompressor {
                         _ => {
                             // try to restart, any data in the temp buffer will be
                             // discarded
-                            if self.restart().is_err() {
-                                self.try_passthrough(data)
-                            } else {
+                            let restarted = self.restart().is_ok();
+                            // The new decompressor has to see the stream from its start.
+                            let head = self.head.replace(Vec::new()).unwrap_or_default();
+                            if restarted {
                                 // Recursion: restart will fail after a small
                                 // number of attempts
+                                self.write_all(&head)?;
                                 self.write(data)
+                            } else {
+                                if !head.is_empty() {
+                                    self.try_passthrough(&head)?;
+                                }
+                                self.try_passthrough(data)
                             }
                         }
                     }
-- 
2.43.0


From fe66689e427571e890da6772e02177d60ce379d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:54 +0000
Subject: [PATCH 10/44] fix: deliver lzma content that decompresses to more
 than the size of the temporary buffer

---
 src/decompressors.rs | 52 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index 12ad33c..994f21a 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -6,6 +6,9 @@ use std::{
 /// Buffer compression output to this chunk size.
 const ENCODING_CHUNK_SIZE: usize = 8192;
 
+/// Number of bytes passed to the lzma decoder at once.
+const LZMA_INPUT_SIZE: usize = 256;
+
 /// Number of bytes kept from the start of a stream, so that they can be decompressed again when
 /// a decompressor is restarted.
 const RESTART_HEAD_SIZE: usize = 16;
@@ -664,25 +667,43 @@ impl BufWriter for ZlibBufWriter {
 }
 
 /// Simple wrapper around an lzma implementation
-struct LzmaBufWriter(lzma_rs::decompress::Stream<Cursor<Box<[u8]>>>);
+///
+/// The lzma decoder hands over its whole dictionary at once, which does not fit the temporary
+/// buffer: it is kept in `stream` until it has been flushed.
+struct LzmaBufWriter {
+    stream: lzma_rs::decompress::Stream<Vec<u8>>,
+    buf: Cursor<Box<[u8]>>,
+}
 
 impl Write for LzmaBufWriter {
     fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
-        self.0.write(data)
+        if self.stream.get_output().map_or(false, |out| !out.is_empty()) {
+            // The output has to be flushed first
+            return Err(std::io::ErrorKind::WriteZero.into());
+        }
+        self.stream
+            .write(&data[..std::cmp::min(data.len(), LZMA_INPUT_SIZE)])
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
-        self.0.flush()
+        if let Some(out) = self.stream.get_output_mut() {
+            let written = self.buf.write(out)?;
+            out.drain(..written);
+            if !out.is_empty() {
+                return Err(std::io::ErrorKind::WriteZero.into());
+            }
+        }
+        Ok(())
     }
 }
 
 impl BufWriter for LzmaBufWriter {
     fn get_mut(&mut self) -> Option<&mut Cursor<Box<[u8]>>> {
-        self.0.get_output_mut()
+        Some(&mut self.buf)
     }
 
     fn finish(self: Box<Self>) -> std::io::Result<Cursor<Box<[u8]>>> {
-        self.0.finish().map_err(|e| match e {
+        let out = self.stream.finish().map_err(|e| match e {
             lzma_rs::error::Error::IoError(e) => e,
             lzma_rs::error::Error::HeaderTooShort(e) => {
                 std::io::Error::new(std::io::ErrorKind::Other, format!("{}", e))
@@ -690,7 +711,11 @@ impl BufWriter for LzmaBufWriter {
             lzma_rs::error::Error::LzmaError(e) | lzma_rs::error::Error::XzError(e) => {
                 std::io::Error::new(std::io::ErrorKind::Other, e)
             }
-        })
+        })?;
+        let len = out.len() as u64;
+        let mut out = Cursor::new(out.into_boxed_slice());
+        out.set_position(len);
+        Ok(out)
     }
 }
 
@@ -733,9 +758,13 @@ impl InnerDecompressor {
             HtpContentEncoding::LZMA => {
                 if let Some(options) = options.lzma {
                     Ok((
-                        Box::new(LzmaBufWriter(
-                            lzma_rs::decompress::Stream::new_with_options(&options, buf),
-                        )),
+                        Box::new(LzmaBufWriter {
+                            stream: lzma_rs::decompress::Stream::new_with_options(
+                                &options,
+                                Vec::new(),
+                            ),
+                            buf,
+                        }),
                         false,
                     ))
                 } else {
@@ -963,7 +992,10 @@ impl Decompress for InnerDecompressor {
 
         if let Some(mut inner) = self.inner.take() {
             if let Some(output) = output {
-                inner.write_all(&output.get_ref()[..output.position() as usize])?;
+                let output = &output.get_ref()[..output.position() as usize];
+                for chunk in output.chunks(ENCODING_CHUNK_SIZE) {
+                    inner.write_all(chunk)?;
+                }
             }
             inner.finish()
         } else {
-- 
2.43.0


From 7443c7b136f481edac4f1770c0313c26afe599c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:58 +0000
Subject: [PATCH 11/44] fix: do not fold body data into the empty line that
 ends request headers when it starts a data chunk

---
 src/request.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 3163ece..a96587a 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -579,10 +579,15 @@ impl ConnectionParser {
             data
         };
 
-        let (remaining, eoh) = self.parse_request_headers(data2)?;
         //TODO: Update the request state machine so that we don't have to have this EOL check
-        let eol = remaining.len() == data2.len()
-            && (remaining.starts_with(b"\r\n") || remaining.starts_with(b"\n"));
+        //If the input started with an EOL, we assume this is the end of the headers. What
+        //follows it is not looked at: it is not a folded continuation of the empty line.
+        let eol = data2.starts_with(b"\r\n") || data2.starts_with(b"\n");
+        let (remaining, eoh) = if eol {
+            (data2, false)
+        } else {
+            self.parse_request_headers(data2)?
+        };
         if eoh
             //If the input started with an EOL, we assume this is the end of the headers
             || eol
-- 
2.43.0


From bfb75a81d242efdfbd73f52ebe9f6b07ae32ff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:09 +0000
Subject: [PATCH 12/44] fix: do not overflow when an invalid hexadecimal
 encoding is decoded

---
 src/urlencoded.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 744983b..5b29aa1 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -163,18 +163,15 @@ fn name_value(input: &[u8]) -> IResult<&[u8], &[u8]> {
 /// Returns hex-decoded byte
 fn x2c(input: &[u8]) -> IResult<&[u8], u8> {
     let (input, (c1, c2)) = tuple((be_u8, be_u8))(input)?;
-    let mut decoded_byte = if c1 >= b'A' {
-        ((c1 & 0xdf) - b'A') + 10
-    } else {
-        c1 - b'0'
-    };
-    decoded_byte = (decoded_byte as i32 * 16) as u8;
-    decoded_byte += if c2 >= b'A' {
-        ((c2 & 0xdf) - b'A') + 10
-    } else {
-        c2 - b'0'
+    // Invalid input may take any value, so all arithmetic wraps around.
+    let digit = |c: u8| {
+        if c >= b'A' {
+            (c & 0xdf).wrapping_sub(b'A').wrapping_add(10)
+        } else {
+            c.wrapping_sub(b'0')
+        }
     };
-    Ok((input, decoded_byte))
+    Ok((input, digit(c1).wrapping_mul(16).wrapping_add(digit(c2))))
 }
 
 /// Decode a path %u-encoded character, using best-fit mapping as necessary.
-- 
2.43.0


From 11ec528694fe8c3fe652cbb4cd4ff2533336d92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:49 +0000
Subject: [PATCH 13/44] fix: keep the expected response status when later bytes
 of a URI are unremarkable

---
 src/urlencoded.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 5b29aa1..bb36ad5 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -108,7 +108,9 @@ impl Parser {
                         decode_uri(name.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         name.clear();
                         name.add(consumed);
                     }
@@ -116,7 +118,9 @@ impl Parser {
                         decode_uri(value.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         value.clear();
                         value.add(consumed);
                     }
@@ -353,7 +357,7 @@ fn path_decode_invalid_hex(
         let mut byte = b'%';
         // Invalid encoding
         let flags = HtpFlags::PATH_INVALID_ENCODING;
-        let expected_status_code = cfg.url_encoding_invalid_unwanted;
+        let mut expected_status_code = cfg.url_encoding_invalid_unwanted;
         if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::REMOVE_PERCENT {
             // Do not place anything in output; consume the %.
             return Ok((remaining_input, (byte, expected_status_code, flags, false)));
@@ -363,7 +367,10 @@ fn path_decode_invalid_hex(
             remaining = left;
             byte = b;
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((remaining, (byte, expected_status_code, flags, true)))
     }
 }
@@ -497,7 +504,9 @@ fn path_decode_uri<'a>(
                 }
             }
             acc.1.set(flag);
-            acc.2 = code;
+            if code != HtpUnwanted::IGNORE {
+                acc.2 = code;
+            }
             acc
         },
     )(input)
@@ -516,7 +525,9 @@ pub fn path_decode_uri_inplace(
     {
         path.clear();
         path.add(consumed.as_slice());
-        *status = expected_status_code;
+        if expected_status_code != HtpUnwanted::IGNORE {
+            *status = expected_status_code;
+        }
         flag.set(flags);
     }
 }
-- 
2.43.0


From 201a58550cc53a25b35f8ace06edf0d71a8cc913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:40 +0000
Subject: [PATCH 14/44] fix: look for credentials only in the authority of a
 URI

---
 src/parsers.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 3e29204..6a1926d 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -11,7 +11,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    bytes::complete::{is_not, tag, tag_no_case, take_until, take_while},
+    bytes::complete::{is_not, tag, tag_no_case, take_till, take_until, take_while},
     combinator::{map, not, opt, peek},
     error::ErrorKind,
     multi::many0,
@@ -137,8 +137,13 @@ pub fn credentials() -> impl Fn(&[u8]) -> IResult<&[u8], ParsedCredentials> {
         // Authority test: two forward slash characters and it's an authority.
         // One, three or more slash characters, and it's a path.
         // Note: we only attempt to parse authority if we've seen a scheme.
-        let (input, (_, _, credentials, _)) =
-            tuple((tag("//"), peek(not(tag("/"))), take_until("@"), tag("@")))(input)?;
+        // The authority ends where the path, the query or the fragment starts.
+        let (input, (_, _, credentials, _)) = tuple((
+            tag("//"),
+            peek(not(tag("/"))),
+            take_till(|c| matches!(c, b'@' | b'/' | b'?' | b'#')),
+            tag("@"),
+        ))(input)?;
         let (password, username) = opt(tuple((take_until(":"), tag(":"))))(credentials)?;
         if let Some((username, _)) = username {
             Ok((input, (username, Some(password))))
-- 
2.43.0


From 5df138d0cc0f4c36e660128a081f912f4fffe237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:06 +0000
Subject: [PATCH 15/44] fix: keep the fragment of a URI whose query is empty

---
 src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 6a1926d..f2d6554 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -260,7 +260,7 @@ pub fn path() -> impl Fn(&[u8]) -> IResult<&[u8], &[u8]> {
 pub fn query() -> impl Fn(&[u8]) -> IResult<&[u8], &[u8]> {
     move |input| {
         // Skip the starting '?'
-        map(tuple((tag("?"), is_not("#"))), |(_, query)| query)(input)
+        map(tuple((tag("?"), take_till(|c| c == b'#'))), |(_, query)| query)(input)
     }
 }
 
-- 
2.43.0


From d6d460c4ec75605f3d4150639023fa1a4492a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:17 +0000
Subject: [PATCH 16/44] fix: do not take the colon of an empty port for the
 start of the path of a URI

---
 src/uri.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uri.rs b/src/uri.rs
index f61a6ab..7df2548 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -7,7 +7,7 @@ use crate::{
     utf8_decoder::decode_and_validate_inplace,
     util::{convert_port, FlagOperations, HtpFlags},
 };
-use nom::{combinator::opt, sequence::tuple};
+use nom::{bytes::complete::tag, combinator::opt, sequence::tuple};
 
 /// URI structure. Each of the fields provides access to a single
 /// URI element. Where an element is not present in a URI, the
@@ -184,7 +184,8 @@ impl Uri {
             opt(tuple((
                 scheme(),
                 opt(credentials()),
-                opt(tuple((hostname(), opt(port())))),
+                // A port may be left empty, as in "http://www.example.com:/path"
+                opt(tuple((hostname(), opt(port()), opt(tag(":"))))),
             ))),
             opt(path()),
             opt(query()),
@@ -208,7 +209,7 @@ impl Uri {
                         self.password = Some(Bstr::from(password));
                     }
                 }
-                if let Some((hostname, port)) = hostname_port {
+                if let Some((hostname, port, _)) = hostname_port {
                     self.hostname = Some(Bstr::from(hostname));
                     if let Some(port) = port {
                         self.port = Some(Bstr::from(port));
-- 
2.43.0


From 252950d9c97bafa54098cfd3988592be31d2dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:33 +0000
Subject: [PATCH 17/44] fix: include the port in the complete normalized URI

---
 src/transaction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transaction.rs b/src/transaction.rs
index 070c1d4..d94b93d 100644
--- a/src/transaction.rs
+++ b/src/transaction.rs
@@ -1017,6 +1017,7 @@ impl Transaction {
             uri.username = incomplete.normalized_username(&mut self.flags);
             uri.password = incomplete.normalized_password(&mut self.flags);
             uri.hostname = incomplete.normalized_hostname(&mut self.flags);
+            uri.port = incomplete.port.clone();
             uri.port_number = incomplete.normalized_port(&mut self.flags);
             uri.query = incomplete.query.clone();
             uri.fragment = incomplete.normalized_fragment(&mut self.flags);
-- 
2.43.0


From 84ead0810ba0c1eb0cf6dd8ebdd11c00133ad11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:00 +0000
Subject: [PATCH 18/44] fix: mark header fields whose value was folded

---
 src/request.rs  | 5 +++++
 src/response.rs | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index a96587a..02c50f0 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -778,6 +778,11 @@ impl ConnectionParser {
             for h in headers {
                 let mut flags = 0;
                 let name_flags = h.name.flags;
+                // Remember that the field value was folded.
+                if h.value.flags.is_set(HeaderFlags::FOLDING) {
+                    self.request_mut().unwrap().flags.set(HtpFlags::FIELD_FOLDED);
+                    flags.set(HtpFlags::FIELD_FOLDED);
+                }
                 // Ignore LWS after field-name.
                 if name_flags.is_set(HeaderFlags::NAME_TRAILING_WHITESPACE) {
                     // Log only once per transaction.
diff --git a/src/response.rs b/src/response.rs
index 045e6d5..e6fb20c 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -824,6 +824,14 @@ impl ConnectionParser {
                         "Weird response end of lines mix"
                     );
                 }
+                // Remember that the field value was folded.
+                if value_flags.is_set(HeaderFlags::FOLDING) {
+                    self.response_mut()
+                        .unwrap()
+                        .flags
+                        .set(HtpFlags::FIELD_FOLDED);
+                    flags.set(HtpFlags::FIELD_FOLDED);
+                }
                 // Ignore LWS after field-name.
                 if name_flags.is_set(HeaderFlags::NAME_TRAILING_WHITESPACE) {
                     htp_warn_once!(
-- 
2.43.0


From 9b69e8172afa3e5d0e8bcdeaf917862958aa7ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:49 +0000
Subject: [PATCH 19/44] fix: do not restart a stream that a callback stopped

---
 src/connection_parser.rs | 14 +++++++++++---
 src/request.rs           |  4 +++-
 src/response.rs          |  6 +++---
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 958ec12..2261feb 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -79,6 +79,14 @@ pub enum HtpStreamState {
     DATA,
 }
 
+impl HtpStreamState {
+    /// Determines if the stream is never to be parsed again: it failed, or
+    /// a callback asked to stop.
+    pub(crate) fn is_final(self) -> bool {
+        self == HtpStreamState::ERROR || self == HtpStreamState::STOP
+    }
+}
+
 #[derive(Debug, Default, Clone)]
 /// This structure is used to pass data (for example
 /// request and response body buffers or gaps) to parsers.
@@ -512,7 +520,7 @@ impl ConnectionParser {
     /// Closes the connection associated with the supplied parser.
     pub fn request_close(&mut self, timestamp: Option<OffsetDateTime>) {
         // Update internal flags
-        if self.request_status != HtpStreamState::ERROR {
+        if !self.request_status.is_final() {
             self.request_status = HtpStreamState::CLOSED
         }
         // Call the parsers one last time, which will allow them
@@ -525,10 +533,10 @@ impl ConnectionParser {
         // Close the underlying connection.
         self.conn.close(timestamp);
         // Update internal flags
-        if self.request_status != HtpStreamState::ERROR {
+        if !self.request_status.is_final() {
             self.request_status = HtpStreamState::CLOSED
         }
-        if self.response_status != HtpStreamState::ERROR {
+        if !self.response_status.is_final() {
             self.response_status = HtpStreamState::CLOSED
         }
         // Call the parsers one last time, which will allow them
diff --git a/src/request.rs b/src/request.rs
index 02c50f0..8b905f0 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -276,7 +276,9 @@ impl ConnectionParser {
         if let Ok((_, (_, method))) = res {
             if HtpMethod::new(method) == HtpMethod::UNKNOWN {
                 self.request_status = HtpStreamState::TUNNEL;
-                self.response_status = HtpStreamState::TUNNEL
+                if !self.response_status.is_final() {
+                    self.response_status = HtpStreamState::TUNNEL
+                }
             } else {
                 return self.state_request_complete(input);
             }
diff --git a/src/response.rs b/src/response.rs
index e6fb20c..7925192 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -381,13 +381,13 @@ impl ConnectionParser {
                 return self.state_response_headers(input);
             } else if response_tx.response_status_number.eq_num(407) {
                 // proxy telling us to auth
-                if self.request_status != HtpStreamState::ERROR {
+                if !self.request_status.is_final() {
                     self.request_status = HtpStreamState::DATA
                 }
             } else {
                 // This is a failed CONNECT stream, which means that
                 // we can unblock request parsing
-                if self.request_status != HtpStreamState::ERROR {
+                if !self.request_status.is_final() {
                     self.request_status = HtpStreamState::DATA
                 }
                 // We are going to continue processing this transaction,
@@ -422,7 +422,7 @@ impl ConnectionParser {
             }
             if te_opt.is_none() && cl_opt.is_none() {
                 self.response_state = State::FINALIZE;
-                if self.request_status != HtpStreamState::ERROR {
+                if !self.request_status.is_final() {
                     self.request_status = HtpStreamState::TUNNEL
                 }
                 self.response_status = HtpStreamState::TUNNEL;
-- 
2.43.0


From 0d99713893b6308ecf61e2f37e25ec93deee5537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:00 +0000
Subject: [PATCH 20/44] fix: count an invalid response chunk length line once

---
 src/response.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index 7925192..c638fd3 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -237,6 +237,10 @@ impl ConnectionParser {
                             }
                         }
                         Err(_) => {
+                            // the line is counted again as body data
+                            let resp = self.response_mut().unwrap();
+                            resp.response_message_len =
+                                (resp.response_message_len).wrapping_sub(length_line.len() as u64);
                             // unconsume so response_body_identity_stream_close doesn't miss the first bytes
                             self.response_data_unconsume(input, line.len());
                             self.response_state = State::BODY_IDENTITY_STREAM_CLOSE;
-- 
2.43.0


From f4274c1c7ee58ea08e9c27ff401892db6ecbbe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:33 +0000
Subject: [PATCH 21/44] fix: do not abort on a timestamp whose microseconds
 leave the supported range

---
 src/c_api/connection_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c_api/connection_parser.rs b/src/c_api/connection_parser.rs
index f8d750b..9b1059a 100644
--- a/src/c_api/connection_parser.rs
+++ b/src/c_api/connection_parser.rs
@@ -14,7 +14,7 @@ use time::{Duration, OffsetDateTime};
 /// Take seconds and microseconds and return a OffsetDateTime
 fn datetime_from_sec_usec(sec: i64, usec: i64) -> Option<OffsetDateTime> {
     match OffsetDateTime::from_unix_timestamp(sec) {
-        Ok(date) => Some(date + Duration::microseconds(usec)),
+        Ok(date) => date.checked_add(Duration::microseconds(usec)),
         Err(_) => None,
     }
 }
-- 
2.43.0


From b02e637124e96d1c3ba89b581d938f4aba6401a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:33 +0000
Subject: [PATCH 22/44] fix: accept a NULL connection parser in
 htp_connp_destroy_all

---
 src/c_api/connection_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c_api/connection_parser.rs b/src/c_api/connection_parser.rs
index 9b1059a..05742d5 100644
--- a/src/c_api/connection_parser.rs
+++ b/src/c_api/connection_parser.rs
@@ -60,7 +60,9 @@ pub unsafe extern "C" fn htp_connp_create(cfg: *mut Config) -> *mut ConnectionPa
 /// When calling this method, you have to ensure that connp is either properly initialized or NULL
 #[no_mangle]
 pub unsafe extern "C" fn htp_connp_destroy_all(connp: *mut ConnectionParser) {
-    drop(Box::from_raw(connp));
+    if !connp.is_null() {
+        drop(Box::from_raw(connp));
+    }
 }
 
 /// Returns the connection associated with the connection parser.
-- 
2.43.0


From b85c5cc0c5afd3ce5aafe35538ddafa36df99d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:33 +0000
Subject: [PATCH 23/44] fix: accept a NULL transaction in htp_tx_normalized_uri

---
 src/c_api/transaction.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/c_api/transaction.rs b/src/c_api/transaction.rs
index 560339a..1448f68 100644
--- a/src/c_api/transaction.rs
+++ b/src/c_api/transaction.rs
@@ -25,17 +25,16 @@ pub unsafe extern "C" fn htp_tx_destroy(connp: *mut ConnectionParser, tx: *const
 /// When calling this method, you have to ensure that tx is either properly initialized or NULL
 #[no_mangle]
 pub unsafe extern "C" fn htp_tx_normalized_uri(tx: *const Transaction) -> *const Bstr {
-    if (*tx).cfg.decoder_cfg.normalized_uri_include_all {
-        tx.as_ref()
-            .and_then(|tx| tx.complete_normalized_uri.as_ref())
-            .map(|uri| uri as *const Bstr)
-            .unwrap_or(std::ptr::null())
-    } else {
-        tx.as_ref()
-            .and_then(|tx| tx.partial_normalized_uri.as_ref())
-            .map(|uri| uri as *const Bstr)
-            .unwrap_or(std::ptr::null())
-    }
+    tx.as_ref()
+        .and_then(|tx| {
+            if tx.cfg.decoder_cfg.normalized_uri_include_all {
+                tx.complete_normalized_uri.as_ref()
+            } else {
+                tx.partial_normalized_uri.as_ref()
+            }
+        })
+        .map(|uri| uri as *const Bstr)
+        .unwrap_or(std::ptr::null())
 }
 
 /// Get the transaction's configuration.
-- 
2.43.0


From 4e9547ac8c2f3dc1523189ad564055ec2382ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:30 +0000
Subject: [PATCH 24/44] fix: complete a transaction once when the response
 parser yields at its end

---
 src/connection_parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 2261feb..667300d 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -794,7 +794,19 @@ impl ConnectionParser {
             State::IDLE
         };
         // Check if the entire transaction is complete.
-        self.finalize(self.request_index())?;
+        let request_index = self.request_index();
+        let finalized = self.finalize(request_index);
+        // The response parser may have yielded to us at the end of this very
+        // transaction. It is done with it too, so that it must not complete it again.
+        if self.response_index() == request_index
+            && self.tx(request_index).map_or(false, |tx| {
+                tx.response_progress == HtpResponseProgress::COMPLETE
+            })
+        {
+            self.response_next();
+            self.response_state = State::IDLE;
+        }
+        finalized?;
         self.request_next();
         Ok(())
     }
-- 
2.43.0


From 98f4c579c5d6b593340109da7c74d6f59578a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:50 +0000
Subject: [PATCH 25/44] fix: read the whole head of the answer to CONNECT
 before probing the tunnel

Request data that waited for the answer was probed as soon as the response
line had been seen. If the answer arrived in several segments and the data
was not HTTP, both streams became tunnels in the middle of the response head:
its headers were never reported and the transaction never completed.
---
 src/request.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 8b905f0..4bcc953 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -299,8 +299,9 @@ impl ConnectionParser {
         }
         let req = req.unwrap();
 
-        // Check that we saw the response line of the current inbound transaction.
-        if req.response_progress <= HtpResponseProgress::LINE {
+        // Check that we saw the response head of the current inbound transaction: once
+        // there is a tunnel, nothing more is read from the response.
+        if req.response_progress <= HtpResponseProgress::HEADERS {
             return Err(HtpStatus::DATA_OTHER);
         }
         // A 2xx response means a tunnel was established. Anything
-- 
2.43.0


From cf79c40d817b33055bb357e0a767542dd915e89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:50 +0000
Subject: [PATCH 26/44] fix: yield to the request parser while it is the one
 waiting

At the end of a response the parser gives way when the request side waits for
that response. It looked at its own state instead of the request's, so it did
not give way after a successful CONNECT (the next response was then taken for
an unmatched one) and kept returning DATA_OTHER without consuming anything
after a refused one.
---
 src/connection_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 667300d..2a30c4e 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -956,7 +956,7 @@ impl ConnectionParser {
         // It is not enough to check only in_status here. Because of pipelining, it's possible
         // that many inbound transactions have been processed, and that the parser is
         // waiting on a response that we have not seen yet.
-        if self.response_status == HtpStreamState::DATA_OTHER
+        if self.request_status == HtpStreamState::DATA_OTHER
             && self.response_index() == self.request_index()
         {
             return Err(HtpStatus::DATA_OTHER);
-- 
2.43.0


From 7cb8a4449cd86a31acafa88ea5e13c273c478fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 27/44] fix: do not accept a sign in a port number

The port of a URI or Host header was converted with a parser that takes a
leading plus sign, so "+80" was reported as port 80 and not as invalid.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 30d8648..1643d2c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -374,7 +374,7 @@ pub fn is_line_ignorable(server_personality: HtpServerPersonality, data: &[u8])
 ///
 /// Returns port number if a valid one is found. None if fails to convert or the result is 0
 pub fn convert_port(port: &[u8]) -> Option<u16> {
-    if port.is_empty() {
+    if port.is_empty() || !port.iter().all(|c| c.is_ascii_digit()) {
         return None;
     }
     let port_number = std::str::from_utf8(port).ok()?.parse::<u16>().ok()?;
-- 
2.43.0


From 078b2d70fa489e6cc4e028edd3e10f9dbf69d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:15 +0000
Subject: [PATCH 28/44] fix: honour a request start callback that ends parsing

ERROR and STOP returned by a REQUEST_START callback were ignored, although
every other stage callback, RESPONSE_START included, ends parsing with them.
---
 src/request.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 4bcc953..03e37d4 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1445,9 +1445,7 @@ impl ConnectionParser {
         }
         self.request_reset();
         // Change state to TRANSACTION_START
-        // Ignore the result.
-        let _ = self.state_request_start();
-        Ok(())
+        self.state_request_start()
     }
 
     /// Buffer incomplete request data and verify that field_limit
-- 
2.43.0


From 5866f625a8bb27fbae5a5569f7abc885a804460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:17 +0000
Subject: [PATCH 29/44] fix: honour a raw data callback that ends parsing

When a head or trailer spans several segments, what the raw data callback
returns for all but the last part was ignored, so that ERROR and STOP had an
effect or not depending on how the stream was cut.
---
 src/request.rs  | 6 ++++--
 src/response.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 03e37d4..20322cc 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1577,13 +1577,15 @@ impl ConnectionParser {
                 }
                 rc = self.request_handle_state_change(&mut chunk)
             }
+            // Hand out the raw data we have before waiting for more.
+            if matches!(rc, Err(HtpStatus::DATA) | Err(HtpStatus::DATA_BUFFER)) {
+                rc = self.request_receiver_send_data(&mut chunk).and(rc);
+            }
             match rc {
                 // Continue looping.
                 Ok(_) => {}
                 // Do we need more data?
                 Err(HtpStatus::DATA) | Err(HtpStatus::DATA_BUFFER) => {
-                    // Ignore result.
-                    let _ = self.request_receiver_send_data(&mut chunk);
                     self.request_status = HtpStreamState::DATA;
                     return HtpStreamState::DATA;
                 }
diff --git a/src/response.rs b/src/response.rs
index c638fd3..ec2a5e4 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1610,13 +1610,15 @@ impl ConnectionParser {
                 }
                 rc = self.response_handle_state_change(&mut chunk);
             }
+            // Hand out the raw data we have before waiting for more.
+            if matches!(rc, Err(HtpStatus::DATA) | Err(HtpStatus::DATA_BUFFER)) {
+                rc = self.response_receiver_send_data(&mut chunk).and(rc);
+            }
             match rc {
                 // Continue looping.
                 Ok(_) => {}
                 // Do we need more data?
                 Err(HtpStatus::DATA) | Err(HtpStatus::DATA_BUFFER) => {
-                    // Ignore result.
-                    let _ = self.response_receiver_send_data(&mut chunk);
                     self.response_status = HtpStreamState::DATA;
                     return HtpStreamState::DATA;
                 }
-- 
2.43.0


From 4128412ac5f94ea0b1f9298218fa81a540e7a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:39 +0000
Subject: [PATCH 30/44] fix: account for a gap in a response body that ends
 with the connection

---
 src/response.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index ec2a5e4..029014f 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -345,8 +345,12 @@ impl ConnectionParser {
             if resp.is_none() {
                 return Err(HtpStatus::ERROR);
             }
-            let mut tx_data = Data::new(resp.unwrap(), data);
+            let resp = resp.unwrap();
+            resp.response_message_len = resp.response_message_len.wrapping_add(data.len() as u64);
+            let mut tx_data = Data::new(resp, data);
             self.response_run_hook_body_data(&mut tx_data)?;
+            // Adjust the counters.
+            self.response_data_consume(data, data.len());
         } else if !data.is_empty() {
             // Consume all data from the input buffer.
             self.response_body_data(data.data())?;
-- 
2.43.0


From a2853621c3a74cfd444065648d238f9781572a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:44 +0000
Subject: [PATCH 31/44] fix: do not refuse a gap that ends with the body

---
 src/request.rs  | 1 +
 src/response.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index 20322cc..74bed38 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1557,6 +1557,7 @@ impl ConnectionParser {
         {
             // handle gap
             if chunk.is_gap()
+                && !chunk.is_empty()
                 && self.request_state != State::BODY_IDENTITY
                 && self.request_state != State::IGNORE_DATA_AFTER_HTTP_0_9
                 && self.request_state != State::FINALIZE
diff --git a/src/response.rs b/src/response.rs
index 029014f..29ccd4f 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1595,6 +1595,7 @@ impl ConnectionParser {
         // keep quiet here.
         {
             if chunk.is_gap()
+                && !chunk.is_empty()
                 && self.response_state != State::BODY_IDENTITY_CL_KNOWN
                 && self.response_state != State::BODY_IDENTITY_STREAM_CLOSE
                 && self.response_state != State::FINALIZE
-- 
2.43.0


From 8f7b05441fe1b6b187134157737c0b775d89bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:45 +0000
Subject: [PATCH 32/44] fix: process a buffered response line when the
 connection closes

---
 src/response.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 29ccd4f..b2bf6b4 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1463,7 +1463,10 @@ impl ConnectionParser {
         // new structures even if there's no more data on the
         // connection.
         if input.is_empty() {
-            return Err(HtpStatus::DATA);
+            // we may have buffered some data, if we are closing, we want to process it
+            if self.response_status != HtpStreamState::CLOSED || self.response_buf.is_empty() {
+                return Err(HtpStatus::DATA);
+            }
         }
 
         // Parsing a new response
-- 
2.43.0


From 8ed3651fc15f0fd5a3fcd10e80b6266b72602b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:50 +0000
Subject: [PATCH 33/44] fix: a 4xx response only ends the request it answers

A 4xx response to a request with Expect: 100-continue ended whichever request
was waiting for its body, also a later pipelined one whose body was then parsed
as a request.
---
 src/response.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/response.rs b/src/response.rs
index b2bf6b4..ed02266 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -481,6 +481,7 @@ impl ConnectionParser {
         // before sending its body cf
         // https://developer.mozilla.org/en-US/docs/Web/HTTP/Headers/Expect
         else if response_tx.response_status_number.in_range(400, 499)
+            && self.request_index() == self.response_index()
             && self.request_content_length > Some(0)
             && self.request_body_data_left == self.request_content_length
         {
-- 
2.43.0


From 0177198a5935021d63ac0b12844d9103176c9a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:54 +0000
Subject: [PATCH 34/44] fix: do not take a bomb ratio that overflows for
 exceeded

When ratio * input does not fit in 64 bits no output can exceed it.
---
 src/request.rs  | 4 ++--
 src/response.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 74bed38..bd36e21 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1325,8 +1325,8 @@ impl ConnectionParser {
         let exceeds_ratio = if let Some(ratio) = req.request_message_len.checked_mul(ratio) {
             req.request_entity_len > ratio
         } else {
-            // overflow occured
-            true
+            // overflow occured: no output can be that large
+            false
         };
 
         let bomb_limit = compression_options.get_bomb_limit();
diff --git a/src/response.rs b/src/response.rs
index ed02266..9b4bef6 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1339,8 +1339,8 @@ impl ConnectionParser {
         let exceeds_ratio = if let Some(ratio) = resp.response_message_len.checked_mul(ratio) {
             resp.response_entity_len > ratio
         } else {
-            // overflow occured
-            true
+            // overflow occured: no output can be that large
+            false
         };
 
         let bomb_limit = compression_options.get_bomb_limit();
-- 
2.43.0


From 615aea6e33f82fe9c6029b0a782ae419349fcfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:41 +0000
Subject: [PATCH 35/44] fix: log an invalid chunk length in a complete line of
 a request

---
 src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index bd36e21..73c3743 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -406,7 +406,7 @@ impl ConnectionParser {
                     continue;
                 }
                 // Handle chunk length.
-                let (len, ext) = parse_chunked_length(&length_line)?;
+                let (len, ext) = parse_chunked_length(&length_line).unwrap_or((None, false));
                 self.request_chunked_length = len;
                 if ext {
                     htp_warn!(
-- 
2.43.0


From b7c239bef9c9b8b2a7575828efbb8db2aaeb8d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:11 +0000
Subject: [PATCH 36/44] fix: report a header with an empty name as such

---
 src/request.rs  | 2 +-
 src/response.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 73c3743..9fa36d1 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -825,7 +825,7 @@ impl ConnectionParser {
                     );
                 }
                 // No colon?
-                if name_flags.is_set(HeaderFlags::MISSING_COLON) {
+                if name_flags & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON {
                     // Log only once per transaction.
                     // We handle this case as a header with an empty name, with the value equal
                     // to the entire input string.
diff --git a/src/response.rs b/src/response.rs
index 9b4bef6..bb34b98 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -877,7 +877,7 @@ impl ConnectionParser {
                     );
                 }
                 // No colon?
-                if name_flags.is_set(HeaderFlags::MISSING_COLON) {
+                if name_flags & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON {
                     // We handle this case as a header with an empty name, with the value equal
                     // to the entire input string.
                     // TODO Apache will respond to this problem with a 400.
-- 
2.43.0


From 73bd1489cd34e517425c24bacb7ff727e40d7611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:16 +0000
Subject: [PATCH 37/44] fix: honour the reactions configured for NUL bytes and
 encoded separators in a path

---
 src/urlencoded.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index bb36ad5..eec88d5 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -203,7 +203,10 @@ fn path_decode_u_encoding<'a>(
     }
     // Check for encoded path separators
     if r == b'/' || cfg.backslash_convert_slashes && r == b'\\' {
-        flags.set(HtpFlags::PATH_ENCODED_SEPARATOR)
+        flags.set(HtpFlags::PATH_ENCODED_SEPARATOR);
+        if cfg.path_separators_encoded_unwanted != HtpUnwanted::IGNORE {
+            expected_status_code = cfg.path_separators_encoded_unwanted
+        }
     }
     Ok((i, (r, flags, expected_status_code)))
 }
@@ -321,24 +324,30 @@ fn path_decode_valid_hex(
         not(tag_no_case("u"))(remaining_input)?;
         let (mut left, hex) = take_while_m_n(2, 2, |c: u8| c.is_ascii_hexdigit())(remaining_input)?;
         let mut flags = 0;
+        let mut expected_status_code = HtpUnwanted::IGNORE;
         // Convert from hex.
         let (_, mut byte) = x2c(hex)?;
         if byte == 0 {
             flags.set(HtpFlags::PATH_ENCODED_NUL);
+            expected_status_code = cfg.nul_encoded_unwanted;
             if cfg.nul_encoded_terminates {
                 // Terminate the path at the raw NUL byte.
-                return Ok((b"", (byte, cfg.nul_encoded_unwanted, flags, false)));
+                return Ok((b"", (byte, expected_status_code, flags, false)));
             }
         }
         if byte == b'/' || (cfg.backslash_convert_slashes && byte == b'\\') {
             flags.set(HtpFlags::PATH_ENCODED_SEPARATOR);
+            expected_status_code = cfg.path_separators_encoded_unwanted;
             if !cfg.path_separators_decode {
                 // Leave encoded
                 byte = b'%';
                 left = original_remaining;
             }
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((left, (byte, expected_status_code, flags, true)))
     }
 }
@@ -438,11 +447,18 @@ fn path_parse_other(
         let (remaining_input, byte) = be_u8(i)?;
         // One non-encoded byte.
         // Did we get a raw NUL byte?
-        if byte == 0 && cfg.nul_raw_terminates {
-            // Terminate the path at the encoded NUL byte.
-            return Ok((b"", (byte, cfg.nul_raw_unwanted, 0, false)));
+        let mut expected_status_code = HtpUnwanted::IGNORE;
+        if byte == 0 {
+            expected_status_code = cfg.nul_raw_unwanted;
+            if cfg.nul_raw_terminates {
+                // Terminate the path at the raw NUL byte.
+                return Ok((b"", (byte, expected_status_code, 0, false)));
+            }
+        }
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
         Ok((remaining_input, (byte, expected_status_code, 0, true)))
     }
 }
-- 
2.43.0


From d60bb35f1368e0e07ceaebb13ef3045e67616588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:16 +0000
Subject: [PATCH 38/44] fix: take only U+FF00 to U+FFEF for the half and full
 width range of a path

---
 src/urlencoded.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index eec88d5..294a130 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -194,7 +194,7 @@ fn path_decode_u_encoding<'a>(
         flags.set(HtpFlags::PATH_OVERLONG_U)
     } else {
         // Check for fullwidth form evasion
-        if c1 == 0xff {
+        if c1 == 0xff && c2 <= 0xef {
             flags.set(HtpFlags::PATH_HALF_FULL_RANGE)
         }
         expected_status_code = cfg.u_encoding_unwanted;
-- 
2.43.0


From a92e431a503f11c84092703e23e54dc9a9080dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:59 +0000
Subject: [PATCH 39/44] fix: flag a UTF-8 sequence cut off by the end of a path
 as invalid

---
 src/utf8_decoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utf8_decoder.rs b/src/utf8_decoder.rs
index 637bf13..b345edd 100644
--- a/src/utf8_decoder.rs
+++ b/src/utf8_decoder.rs
@@ -129,6 +129,7 @@ impl Utf8Decoder {
             _ => {
                 // The character is not yet formed.
                 if is_last_byte {
+                    self.flags.set(HtpFlags::PATH_UTF8_INVALID);
                     // If the last input chunk ended with an incomplete byte sequence for a code point,
                     // this is an error and a replacement character is emitted hence starting from 1 not 0
                     for _ in 1..self.seq {
-- 
2.43.0


From a43ea1f5ea8aa1ea54a5573198da0ce067390a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:10 +0000
Subject: [PATCH 40/44] fix: count only lzma layers of a request against the
 lzma layer limit

---
 src/request.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index 9fa36d1..347ae67 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1169,6 +1169,7 @@ impl ConnectionParser {
                 if slow_path {
                     if let Some(ce) = &ce {
                         let mut layers = 0;
+                        let mut lzma_layers = 0;
                         for encoding in ce.split(|c| *c == b',' || *c == b' ') {
                             if encoding.is_empty() {
                                 continue;
@@ -1211,9 +1212,10 @@ impl ConnectionParser {
                                 }
                                 HtpContentEncoding::DEFLATE
                             } else if encoding.cmp_slice(b"lzma") == Ordering::Equal {
+                                lzma_layers += 1;
                                 if let Some(limit) = compression_options.get_lzma_layers() {
                                     // LZMA decompression layer depth check
-                                    if layers > limit {
+                                    if lzma_layers > limit {
                                         htp_warn!(
                                             self.logger,
                                             HtpLogCode::REQUEST_TOO_MANY_LZMA_LAYERS,
-- 
2.43.0


From 5a8931f40199067e4adc97b4582c982924310a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:10 +0000
Subject: [PATCH 41/44] fix: compare the value of Expect without regard to case

---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index bb34b98..b7443b0 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -487,7 +487,7 @@ impl ConnectionParser {
         {
             let response_tx = self.response_mut().unwrap();
             if let Some(expect) = response_tx.request_headers.get_nocase("expect") {
-                if expect.value.eq_slice("100-continue") {
+                if expect.value.eq_nocase("100-continue") {
                     self.request_state = State::FINALIZE;
                 }
             }
-- 
2.43.0


From ea246f88c5b83264d41672274c28dd15d7562d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:10 +0000
Subject: [PATCH 42/44] fix: a chunked request body that was asked for and
 refused is not sent

---
 src/response.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index b7443b0..1471871 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -366,6 +366,18 @@ impl ConnectionParser {
         Err(HtpStatus::DATA)
     }
 
+    /// Determines if the current request announced a body of which nothing was seen yet.
+    fn request_body_not_begun(&mut self) -> bool {
+        if self.request_content_length > Some(0) {
+            return self.request_body_data_left == self.request_content_length;
+        }
+        self.request_state == State::BODY_CHUNKED_LENGTH
+            && self.request_buf.is_empty()
+            && self
+                .request()
+                .map_or(false, |req| req.request_message_len == 0)
+    }
+
     /// Determines presence (and encoding) of a response body.
     pub fn response_body_determine(&mut self, input: &mut ParserData) -> Result<()> {
         // If the request uses the CONNECT method, then not only are we
@@ -482,8 +494,7 @@ impl ConnectionParser {
         // https://developer.mozilla.org/en-US/docs/Web/HTTP/Headers/Expect
         else if response_tx.response_status_number.in_range(400, 499)
             && self.request_index() == self.response_index()
-            && self.request_content_length > Some(0)
-            && self.request_body_data_left == self.request_content_length
+            && self.request_body_not_begun()
         {
             let response_tx = self.response_mut().unwrap();
             if let Some(expect) = response_tx.request_headers.get_nocase("expect") {
-- 
2.43.0


From 773ba6dd828eb92d92a23d231800d82557a84dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:18 +0000
Subject: [PATCH 43/44] fix: honour body callbacks that fail behind a
 decompressor

---
 src/connection_parser.rs |  8 +++++++-
 src/request.rs           | 20 ++++++++++++++------
 src/response.rs          | 20 ++++++++++++++------
 3 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 2a30c4e..5f98f56 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -331,6 +331,8 @@ pub struct ConnectionParser {
     pub request_state_previous: State,
     /// The hook that should be receiving raw connection data.
     pub request_data_receiver_hook: Option<DataHook>,
+    /// Why the request decompressor callback failed, if it did.
+    pub(crate) request_decompressor_error: Option<HtpStatus>,
 
     // Response parser fields
     /// The time when the last response data chunk was received.
@@ -358,6 +360,8 @@ pub struct ConnectionParser {
     pub response_state_previous: State,
     /// The hook that should be receiving raw connection data.
     pub response_data_receiver_hook: Option<DataHook>,
+    /// Why the response decompressor callback failed, if it did.
+    pub(crate) response_decompressor_error: Option<HtpStatus>,
 
     /// Transactions processed by this parser
     transactions: Transactions,
@@ -400,6 +404,7 @@ impl ConnectionParser {
             request_state: State::IDLE,
             request_state_previous: State::NONE,
             request_data_receiver_hook: None,
+            request_decompressor_error: None,
             response_timestamp: OffsetDateTime::from(SystemTime::now()),
             response_bytes_consumed: 0,
             response_buf: Bstr::new(),
@@ -410,6 +415,7 @@ impl ConnectionParser {
             response_state: State::IDLE,
             response_state_previous: State::NONE,
             response_data_receiver_hook: None,
+            response_decompressor_error: None,
             transactions: Transactions::new(&cfg, &logger),
         }
     }
@@ -920,7 +926,7 @@ impl ConnectionParser {
             tx.response_progress = HtpResponseProgress::COMPLETE;
             // Run the last RESPONSE_BODY_DATA HOOK, but only if there was a response body present.
             if tx.response_transfer_coding != HtpTransferCoding::NO_BODY {
-                let _ = self.response_body_data(None);
+                self.response_body_data(None)?;
             }
             // Run hook RESPONSE_COMPLETE.
             self.cfg
diff --git a/src/request.rs b/src/request.rs
index 347ae67..7dcc6c4 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1041,9 +1041,11 @@ impl ConnectionParser {
                 }
                 let mut decompressor = req.request_decompressor.take().ok_or(HtpStatus::ERROR)?;
                 if let Some(data) = data {
-                    decompressor
-                        .decompress(data)
-                        .map_err(|_| HtpStatus::ERROR)?;
+                    let result = decompressor.decompress(data);
+                    if let Some(e) = self.request_decompressor_error.take() {
+                        return Err(e);
+                    }
+                    result.map_err(|_| HtpStatus::ERROR)?;
                     if decompressor.time_spent()
                         > self.cfg.compression_options.get_time_limit() as u64
                     {
@@ -1063,8 +1065,11 @@ impl ConnectionParser {
                     req.request_decompressor.replace(decompressor);
                 } else {
                     // don't put the decompressor back in its slot
-                    // ignore errors
+                    // ignore errors, except those of the callback
                     let _ = decompressor.finish();
+                    if let Some(e) = self.request_decompressor_error.take() {
+                        return Err(e);
+                    }
                 }
             }
             HtpContentEncoding::NONE => {
@@ -1300,8 +1305,10 @@ impl ConnectionParser {
         req.request_entity_len = req.request_entity_len.wrapping_add(tx_data.len() as u64);
 
         // Invoke all callbacks.
-        self.request_run_hook_body_data(&mut tx_data)
-            .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "body data hook failed"))?;
+        self.request_run_hook_body_data(&mut tx_data).map_err(|e| {
+            self.request_decompressor_error = Some(e);
+            std::io::Error::new(std::io::ErrorKind::Other, "body data hook failed")
+        })?;
 
         let compression_options = self.cfg.compression_options;
         let req = self.request_mut().unwrap();
@@ -1344,6 +1351,7 @@ impl ConnectionParser {
                     request_entity_len, request_message_len,
                 )
             );
+            self.request_decompressor_error = Some(HtpStatus::ERROR);
             return Err(std::io::Error::new(
                 std::io::ErrorKind::Other,
                 "compression_bomb_limit reached",
diff --git a/src/response.rs b/src/response.rs
index 1471871..001eee0 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1106,9 +1106,11 @@ impl ConnectionParser {
                 }
                 let mut decompressor = resp.response_decompressor.take().ok_or(HtpStatus::ERROR)?;
                 if let Some(data) = data {
-                    decompressor
-                        .decompress(data)
-                        .map_err(|_| HtpStatus::ERROR)?;
+                    let result = decompressor.decompress(data);
+                    if let Some(e) = self.response_decompressor_error.take() {
+                        return Err(e);
+                    }
+                    result.map_err(|_| HtpStatus::ERROR)?;
 
                     if decompressor.time_spent()
                         > self.cfg.compression_options.get_time_limit() as u64
@@ -1131,8 +1133,11 @@ impl ConnectionParser {
                         .replace(decompressor);
                 } else {
                     // don't put the decompressor back in its slot
-                    // ignore errors
+                    // ignore errors, except those of the callback
                     let _ = decompressor.finish();
+                    if let Some(e) = self.response_decompressor_error.take() {
+                        return Err(e);
+                    }
                 }
             }
             HtpContentEncoding::NONE => {
@@ -1325,8 +1330,10 @@ impl ConnectionParser {
         resp.response_entity_len = resp.response_entity_len.wrapping_add(tx_data.len() as u64);
 
         // Invoke all callbacks.
-        self.response_run_hook_body_data(&mut tx_data)
-            .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "body data hook failed"))?;
+        self.response_run_hook_body_data(&mut tx_data).map_err(|e| {
+            self.response_decompressor_error = Some(e);
+            std::io::Error::new(std::io::ErrorKind::Other, "body data hook failed")
+        })?;
         let resp = self.response_mut().unwrap();
         if let Some(decompressor) = &mut resp.response_decompressor {
             if decompressor.callback_inc() % compression_options.get_time_test_freq() == 0 {
@@ -1367,6 +1374,7 @@ impl ConnectionParser {
                     response_entity_len, response_message_len,
                 )
             );
+            self.response_decompressor_error = Some(HtpStatus::ERROR);
             return Err(std::io::Error::new(
                 std::io::ErrorKind::Other,
                 "compression_bomb_limit reached",
-- 
2.43.0


From 8ea5f098247cba0d7eb14eac5512ad78a66a9261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:21 +0000
Subject: [PATCH 44/44] fix: read one line only behind a response whose next
 segment starts with LF

The rest of the segment was taken as part of the line, so a segment larger than
the field limit ended the connection when a CRLF was split between segments.
---
 src/response.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 001eee0..b4defc3 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1430,18 +1430,11 @@ impl ConnectionParser {
             if response_next_byte.is_none() {
                 return self.state_response_complete(input);
             }
-            let lf = response_next_byte
-                .map(|byte| *byte == b'\n')
-                .unwrap_or(false);
-            if !lf {
-                if let Ok((_, line)) = take_till_lf(work) {
-                    self.response_data_consume(input, line.len());
-                    work = line;
-                } else {
-                    return self.handle_response_absent_lf(input);
-                }
+            if let Ok((_, line)) = take_till_lf(work) {
+                self.response_data_consume(input, line.len());
+                work = line;
             } else {
-                self.response_data_consume(input, work.len());
+                return self.handle_response_absent_lf(input);
             }
         }
         if !self.response_buf.is_empty() {
-- 
2.43.0

