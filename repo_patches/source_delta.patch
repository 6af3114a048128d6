From 9e4dac5152f28aa53daf51976c20c381378f122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:33 +0000
Subject: [PATCH 01/35] fix: do not drop a body byte when the blank line ending
 the request headers is split across chunks

---
 src/request.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 4e62e3e..b5204aa 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -586,11 +586,10 @@ impl ConnectionParser {
             if remaining.len() < data.len() {
                 self.request_data_consume(input, data.len() - remaining.len());
             } else if eol {
-                if remaining.starts_with(b"\r\n") {
-                    self.request_data_consume(input, min(data.len(), 2));
-                } else if remaining.starts_with(b"\n") {
-                    self.request_data_consume(input, min(data.len(), 1));
-                }
+                let eol_len = if remaining.starts_with(b"\r\n") { 2 } else { 1 };
+                // Part of the EOL may have been buffered, and consumed, with a previous chunk.
+                let buffered = data2.len() - data.len();
+                self.request_data_consume(input, min(data.len(), eol_len - min(eol_len, buffered)));
             }
             // We've seen all the request headers.
             self.state_request_headers(input)
-- 
2.43.0


From 6949e3460cb82d6fd68138e98dacc15a47bbe2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:55 +0000
Subject: [PATCH 02/35] fix: reassemble a request chunk length line that
 arrives in several chunks

---
 src/request.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index b5204aa..eff0e17 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -383,25 +383,25 @@ impl ConnectionParser {
                 if !self.request_buf.is_empty() {
                     self.check_request_buffer_limit(line.len())?;
                 }
+                // The line may have arrived in several chunks, use up what is buffered.
+                let mut line_data = take(&mut self.request_buf);
+                line_data.add(line);
                 let req = self.request_mut();
                 if req.is_none() {
                     return Err(HtpStatus::ERROR);
                 }
                 let req = req.unwrap();
+                req.request_message_len = req
+                    .request_message_len
+                    .wrapping_add(line_data.len() as u64);
 
-                if line.eq(b"\n") {
-                    req.request_message_len =
-                        req.request_message_len.wrapping_add(line.len() as u64);
+                if line_data.eq_slice(b"\n") {
                     //Empty chunk len. Try to continue parsing.
                     data = remaining;
                     continue;
                 }
-                let mut data = self.request_buf.clone();
-                data.add(line);
-                let req = self.request_mut().unwrap();
-                req.request_message_len = req.request_message_len.wrapping_add(data.len() as u64);
                 // Handle chunk length.
-                let (len, ext) = parse_chunked_length(&data)?;
+                let (len, ext) = parse_chunked_length(&line_data)?;
                 self.request_chunked_length = len;
                 if ext {
                     htp_warn!(
@@ -434,7 +434,9 @@ impl ConnectionParser {
                 return Ok(());
             } else {
                 // Check if the data we have seen so far is invalid
-                return if !is_valid_chunked_length_data(data) {
+                let mut line_data = self.request_buf.clone();
+                line_data.add(data);
+                return if !is_valid_chunked_length_data(&line_data) {
                     // Contains leading junk non hex_ascii data
                     // Invalid chunk length
                     htp_error!(
-- 
2.43.0


From 122ed07adab6fda21ac7ce1883a85675cd1c4296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:17 +0000
Subject: [PATCH 03/35] fix: do not buffer the end-of-chunk bytes of a request
 body

---
 src/request.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index eff0e17..b13dbe8 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -336,8 +336,10 @@ impl ConnectionParser {
             self.request_state = State::BODY_CHUNKED_LENGTH;
             Ok(())
         } else {
+            // Advance to end. Dont need to buffer
             req.request_message_len = req.request_message_len.wrapping_add(input.len() as u64);
-            self.handle_request_absent_lf(input)
+            self.request_data_consume(input, input.len());
+            Err(HtpStatus::DATA_BUFFER)
         }
     }
 
-- 
2.43.0


From 6918840bb57afc2d9b0b0b1653bd8a4372ee811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 04/35] fix: reassemble a response chunk length line that
 arrives in several chunks

---
 src/response.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 5a05a8d..0a58629 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -188,7 +188,6 @@ impl ConnectionParser {
             if resp.is_none() {
                 return Err(HtpStatus::ERROR);
             }
-            let resp = resp.unwrap();
 
             match take_till_lf(data) {
                 Ok((remaining, line)) => {
@@ -196,22 +195,25 @@ impl ConnectionParser {
                     if !self.response_buf.is_empty() {
                         self.check_response_buffer_limit(line.len())?;
                     }
-                    if is_chunked_ctl_line(line) {
+                    // The line may have arrived in several chunks, use up what is buffered.
+                    let mut line_data = take(&mut self.response_buf);
+                    let buf_len = line_data.len();
+                    line_data.add(line);
+                    let line_len = line_data.len() as u64;
+                    if is_chunked_ctl_line(&line_data) {
                         let resp = self.response_mut().unwrap();
                         resp.response_message_len =
-                            (resp.response_message_len).wrapping_add(line.len() as u64);
+                            (resp.response_message_len).wrapping_add(line_len);
                         //Empty chunk len. Try to continue parsing.
                         data = remaining;
                         continue;
                     }
-                    let mut data = self.response_buf.clone();
-                    data.add(line);
-                    let resp = self.response_mut().unwrap();
-                    resp.response_message_len =
-                        (resp.response_message_len).wrapping_add(data.len() as u64);
 
-                    match parse_chunked_length(&data) {
+                    match parse_chunked_length(&line_data) {
                         Ok((len, ext)) => {
+                            let resp = self.response_mut().unwrap();
+                            resp.response_message_len =
+                                (resp.response_message_len).wrapping_add(line_len);
                             self.response_chunked_length = len;
                             if ext {
                                 htp_warn!(
@@ -250,6 +252,10 @@ impl ConnectionParser {
                                 HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                                 "Response chunk encoding: Invalid chunk length"
                             );
+                            // what came in previous chunks can't be unconsumed, pass it on
+                            if buf_len > 0 {
+                                return self.response_body_data(Some(&line_data[..buf_len]));
+                            }
                         }
                     }
 
@@ -257,7 +263,10 @@ impl ConnectionParser {
                 }
                 _ => {
                     // Check if the data we have seen so far is invalid
-                    if !is_valid_chunked_length_data(data) {
+                    let mut line_data = self.response_buf.clone();
+                    line_data.add(data);
+                    let resp = self.response_mut().unwrap();
+                    if !is_valid_chunked_length_data(&line_data) {
                         // Contains leading junk non hex_ascii data
                         resp.response_transfer_coding = HtpTransferCoding::IDENTITY;
                         self.response_state = State::BODY_IDENTITY_STREAM_CLOSE;
@@ -266,6 +275,11 @@ impl ConnectionParser {
                             HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                             "Response chunk encoding: Invalid chunk length"
                         );
+                        // what came in previous chunks can't be unconsumed, pass it on
+                        let buffered = take(&mut self.response_buf);
+                        if !buffered.is_empty() {
+                            return self.response_body_data(Some(&buffered));
+                        }
                         return Ok(());
                     } else {
                         return self.handle_response_absent_lf(input);
-- 
2.43.0


From 15688af046d3c0df10c6fb0b90a69f26a705eeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 05/35] fix: reassemble a response status line whose line
 ending is split across chunks

---
 src/response.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 0a58629..899abbd 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -646,22 +646,34 @@ impl ConnectionParser {
     /// Returns HtpStatus::OK on state change, HtpStatus::ERROR on error, or HtpStatus::DATA
     /// when more data is needed.
     pub fn response_line(&mut self, input: &ParserData) -> Result<()> {
-        match take_till_eol(input.as_slice()) {
+        // The line ending may be split, so look for it in the buffered data too.
+        let mut data = take(&mut self.response_buf);
+        let buf_len = data.len();
+        data.add(input.as_slice());
+        match take_till_eol(data.as_slice()) {
             Ok((_, (line, _))) => {
                 // We have a line ending, so consume the input
-                // and grab any buffered data.
-                let mut data = take(&mut self.response_buf);
-                data.add(line);
-                self.response_data_consume(input, line.len());
-                self.response_line_complete(data.as_slice(), input)
+                if line.len() >= buf_len {
+                    self.response_data_consume(input, line.len() - buf_len);
+                    return self.response_line_complete(line, input);
+                }
+                // Some of the buffered data belongs to what follows the line
+                self.response_line_complete(line, input)?;
+                let rest = Bstr::from(&data[line.len()..buf_len]);
+                if self.response_state == State::HEADERS {
+                    self.response_header = Some(rest);
+                } else {
+                    self.response_buf = rest;
+                }
+                Ok(())
             }
             _ => {
                 if self.response_status == HtpStreamState::CLOSED {
-                    let mut data = take(&mut self.response_buf);
-                    data.add(input.as_slice());
                     self.response_data_consume(input, input.len());
                     self.response_line_complete(data.as_slice(), input)
                 } else {
+                    data.truncate(buf_len);
+                    self.response_buf = data;
                     self.handle_response_absent_lf(input)
                 }
             }
-- 
2.43.0


From 21d2a3d562f22cfa74ef6c16bbfffd56f2185a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:24 +0000
Subject: [PATCH 06/35] fix: recognise the end of the response headers or
 trailer when more data follows it

A response pipelined right behind a chunked response without trailers was
taken for trailer headers.
---
 src/response.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 899abbd..4b75d86 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -994,12 +994,18 @@ impl ConnectionParser {
         let (remaining, eoh) = self.parse_response_headers(response_header.as_slice())?;
         //TODO: Update the response state machine so that we don't have to have this EOL check
         let eol = remaining.len() == response_header.len()
-            && (remaining.eq(b"\r\n") || remaining.eq(b"\n"));
-        // If remaining is EOL or header parsing saw EOH this is end of headers
+            && (remaining.starts_with(b"\r\n") || remaining.starts_with(b"\n"));
+        // If remaining starts with EOL or header parsing saw EOH this is end of headers
         if eoh || eol {
             if eol {
                 //Consume the EOL so it isn't included in data processing
-                self.response_data_consume(input, input.len());
+                let eol_len = if remaining.starts_with(b"\r\n") { 2 } else { 1 };
+                // Part of the EOL may have been buffered, and consumed, with a previous chunk.
+                let buffered = response_header.len() - input.len();
+                self.response_data_consume(
+                    input,
+                    min(input.len(), eol_len - min(eol_len, buffered)),
+                );
             } else if remaining.len() <= input.len() {
                 self.response_data_consume(input, input.len() - remaining.len());
             }
@@ -1410,6 +1416,14 @@ impl ConnectionParser {
             //closing
             return self.state_response_complete(input);
         }
+        let is_chunked = self
+            .response()
+            .map(|tx| tx.response_transfer_coding == HtpTransferCoding::CHUNKED)
+            .unwrap_or(false);
+        if is_chunked && is_line_ignorable(self.cfg.server_personality, &data) {
+            // The end of a chunked body is known, a blank line after it is not body data.
+            return Ok(());
+        }
         if treat_response_line_as_body(&data) {
             // Interpret remaining bytes as body data
             htp_warn!(
-- 
2.43.0


From 3c4ca718ccbdec99e7006ba1a00cecc58bc5c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:10 +0000
Subject: [PATCH 07/35] fix: do not overflow when decoding invalid URL
 encodings

---
 src/urlencoded.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 744983b..e4bf728 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -163,17 +163,15 @@ fn name_value(input: &[u8]) -> IResult<&[u8], &[u8]> {
 /// Returns hex-decoded byte
 fn x2c(input: &[u8]) -> IResult<&[u8], u8> {
     let (input, (c1, c2)) = tuple((be_u8, be_u8))(input)?;
-    let mut decoded_byte = if c1 >= b'A' {
-        ((c1 & 0xdf) - b'A') + 10
-    } else {
-        c1 - b'0'
-    };
-    decoded_byte = (decoded_byte as i32 * 16) as u8;
-    decoded_byte += if c2 >= b'A' {
-        ((c2 & 0xdf) - b'A') + 10
-    } else {
-        c2 - b'0'
+    // Invalid digits wrap around.
+    let digit = |c: u8| {
+        if c >= b'A' {
+            (c & 0xdf).wrapping_sub(b'A').wrapping_add(10)
+        } else {
+            c.wrapping_sub(b'0')
+        }
     };
+    let decoded_byte = digit(c1).wrapping_mul(16).wrapping_add(digit(c2));
     Ok((input, decoded_byte))
 }
 
-- 
2.43.0


From def27e05af9bb6d75acb2b727551b06ea2c7a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:34 +0000
Subject: [PATCH 08/35] fix: stop the raw response header callback at the end
 of a 100 Continue response

---
 src/response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index 4b75d86..d2354ce 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -460,6 +460,8 @@ impl ConnectionParser {
                             "Already seen 100-Continue."
                         );
                     }
+                    // The status line that follows is not header data.
+                    self.response_receiver_finalize_clear(input)?;
                     // Expecting to see another response line next.
                     self.response_state = State::LINE;
                     let response_tx = self.response_mut().unwrap();
-- 
2.43.0


From f8ad5446fa179328d0250fc3c5321f85f0525317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:41 +0000
Subject: [PATCH 09/35] fix: complete the transaction when the response to a
 failed CONNECT ends at connection close

---
 src/connection_parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 958ec12..682da29 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -911,8 +911,11 @@ impl ConnectionParser {
             // Clear the data receivers hook if any
             self.response_receiver_finalize_clear(input)?;
         }
-        // Check if we want to signal the caller to send request data
-        self.request_parser_check_waiting()?;
+        // Check if we want to signal the caller to send request data,
+        // there will be none once the stream is closed
+        if self.response_status != HtpStreamState::CLOSED {
+            self.request_parser_check_waiting()?;
+        }
         // Otherwise finalize the transaction
         self.finalize(response_index)?;
         self.response_next();
-- 
2.43.0


From 2ecf567532793fbcf0f600161632f8483dfe0770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:48 +0000
Subject: [PATCH 10/35] fix: do not end the request body of a later transaction
 on a 4xx response to Expect: 100-continue

---
 src/response.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/response.rs b/src/response.rs
index d2354ce..34dbcb5 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -477,6 +477,7 @@ impl ConnectionParser {
         // before sending its body cf
         // https://developer.mozilla.org/en-US/docs/Web/HTTP/Headers/Expect
         else if response_tx.response_status_number.in_range(400, 499)
+            && self.response_index() == self.request_index()
             && self.request_content_length > Some(0)
             && self.request_body_data_left == self.request_content_length
         {
-- 
2.43.0


From c2c09285b3137709d18135c8fb19e781076125d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:06 +0000
Subject: [PATCH 11/35] fix: report the transaction complete once when the
 parser yields at the end of a response

---
 src/connection_parser.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 682da29..ad81e97 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -911,16 +911,13 @@ impl ConnectionParser {
             // Clear the data receivers hook if any
             self.response_receiver_finalize_clear(input)?;
         }
-        // Check if we want to signal the caller to send request data,
-        // there will be none once the stream is closed
-        if self.response_status != HtpStreamState::CLOSED {
-            self.request_parser_check_waiting()?;
-        }
-        // Otherwise finalize the transaction
+        // Check if we want to signal the caller to send request data
+        let waiting = self.request_parser_check_waiting();
+        // Finalize the transaction, this response is done in any case
         self.finalize(response_index)?;
         self.response_next();
         self.response_state = State::IDLE;
-        Ok(())
+        waiting
     }
 
     /// Check if we had previously signalled the caller to give us response
-- 
2.43.0


From 2f075dfb568c64aa2f85c1552508eeb816389e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:13 +0000
Subject: [PATCH 12/35] fix: do not skip the rest of a request when the server
 answers ahead of it

---
 src/response.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 34dbcb5..9d300e9 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1464,7 +1464,9 @@ impl ConnectionParser {
         if resp.is_none() {
             return Err(HtpStatus::ERROR);
         }
-        if resp.unwrap().request_progress == HtpRequestProgress::NOT_STARTED {
+        let unseen = resp.unwrap().request_progress == HtpRequestProgress::NOT_STARTED;
+        // (a request parser still busy with an earlier request will get to this one)
+        if unseen && self.response_index() == self.request_index() {
             htp_error!(
                 self.logger,
                 HtpLogCode::UNABLE_TO_MATCH_RESPONSE_TO_REQUEST,
-- 
2.43.0


From 85e053b5518974bf7be50c39aafc7cab5e7bd099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:07 +0000
Subject: [PATCH 13/35] fix: do not ignore the failure to start a request, or
 its callback's verdict

---
 src/request.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index b13dbe8..58a194e 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1431,9 +1431,7 @@ impl ConnectionParser {
         }
         self.request_reset();
         // Change state to TRANSACTION_START
-        // Ignore the result.
-        let _ = self.state_request_start();
-        Ok(())
+        self.state_request_start()
     }
 
     /// Buffer incomplete request data and verify that field_limit
-- 
2.43.0


From 3efc9ed247620829e25a081342c1c532e61984e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:24 +0000
Subject: [PATCH 14/35] fix: do not take body bytes or a pipelined message for
 the end of the headers

A blank line ends the headers whether it is CRLF or a bare LF, and white
space or CR behind it already belongs to the body.
---
 src/headers.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index 8bd193e..c1eb168 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -424,7 +424,11 @@ impl Parser {
     /// Parse data before an eol with no colon as an empty name with the data as the value
     fn header_sans_colon(&self) -> impl Fn(&[u8]) -> IResult<&[u8], Header> + '_ {
         move |input| {
-            let (remaining, (_, value)) = tuple((not(complete_tag("\r\n")), self.value()))(input)?;
+            // A blank line is the end of the headers, not a header.
+            let (remaining, (_, value)) = tuple((
+                not(alt((complete_tag("\r\n"), complete_tag("\n")))),
+                self.value(),
+            ))(input)?;
 
             let flags = value.flags | HeaderFlags::MISSING_COLON;
             Ok((
@@ -463,7 +467,7 @@ impl Parser {
             if is_null_terminated {
                 return Ok((rest, (out, true)));
             }
-            if let Ok((rest, _eoh)) = self.complete_eol()(rest) {
+            if let Ok((rest, _eoh)) = self.complete_eol_regular()(rest) {
                 return Ok((rest, (out, true)));
             }
             let mut i = rest;
@@ -477,7 +481,7 @@ impl Parser {
                         if is_null_terminated {
                             return Ok((rest, (out, true)));
                         }
-                        if let Ok((rest, _eoh)) = self.complete_eol()(rest) {
+                        if let Ok((rest, _eoh)) = self.complete_eol_regular()(rest) {
                             return Ok((rest, (out, true)));
                         }
                     }
-- 
2.43.0


From 3fef0003f535f92ca0ecf096d5f80c439ce74f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:40 +0000
Subject: [PATCH 15/35] fix: keep a failed or stopped stream that way when the
 other side opens or refuses a tunnel

---
 src/request.rs  |  7 ++++++-
 src/response.rs | 12 +++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 58a194e..390ded7 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -276,7 +276,12 @@ impl ConnectionParser {
         if let Ok((_, (_, method))) = res {
             if HtpMethod::new(method) == HtpMethod::UNKNOWN {
                 self.request_status = HtpStreamState::TUNNEL;
-                self.response_status = HtpStreamState::TUNNEL
+                // A failed or stopped response stream stays that way.
+                if self.response_status != HtpStreamState::ERROR
+                    && self.response_status != HtpStreamState::STOP
+                {
+                    self.response_status = HtpStreamState::TUNNEL
+                }
             } else {
                 return self.state_request_complete(input);
             }
diff --git a/src/response.rs b/src/response.rs
index 9d300e9..2fed514 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -386,13 +386,17 @@ impl ConnectionParser {
                 return self.state_response_headers(input);
             } else if response_tx.response_status_number.eq_num(407) {
                 // proxy telling us to auth
-                if self.request_status != HtpStreamState::ERROR {
+                if self.request_status != HtpStreamState::ERROR
+                    && self.request_status != HtpStreamState::STOP
+                {
                     self.request_status = HtpStreamState::DATA
                 }
             } else {
                 // This is a failed CONNECT stream, which means that
                 // we can unblock request parsing
-                if self.request_status != HtpStreamState::ERROR {
+                if self.request_status != HtpStreamState::ERROR
+                    && self.request_status != HtpStreamState::STOP
+                {
                     self.request_status = HtpStreamState::DATA
                 }
                 // We are going to continue processing this transaction,
@@ -427,7 +431,9 @@ impl ConnectionParser {
             }
             if te_opt.is_none() && cl_opt.is_none() {
                 self.response_state = State::FINALIZE;
-                if self.request_status != HtpStreamState::ERROR {
+                if self.request_status != HtpStreamState::ERROR
+                    && self.request_status != HtpStreamState::STOP
+                {
                     self.request_status = HtpStreamState::TUNNEL
                 }
                 self.response_status = HtpStreamState::TUNNEL;
-- 
2.43.0


From 05cfde24859b36867146a081aa4adaec8e09be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:47 +0000
Subject: [PATCH 16/35] fix: do not give up on the response headers of a
 CONNECT when tunnel data is already waiting

---
 src/request.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index 390ded7..41cc996 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -309,6 +309,13 @@ impl ConnectionParser {
         // A 2xx response means a tunnel was established. Anything
         // else means we continue to follow the HTTP stream.
         if req.response_status_number.in_range(200, 299) {
+            // The tunnel begins after the headers of the response.
+            if self.response_state == State::HEADERS
+                && self.response_index() == self.request_index()
+                && self.request_status != HtpStreamState::CLOSED
+            {
+                return Err(HtpStatus::DATA_OTHER);
+            }
             // TODO Check that the server did not accept a connection to itself.
             // The requested tunnel was established: we are going
             // to probe the remaining data on this stream to see
-- 
2.43.0


From bd4a677001b992e8153db6b5be68d4279e2e43aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:33 +0000
Subject: [PATCH 17/35] fix: do not take an interim response for the answer to
 a CONNECT

---
 src/request.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index 41cc996..e3749f2 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -296,6 +296,7 @@ impl ConnectionParser {
     /// Returns OK if the parser can resume parsing, HtpStatus::DATA_OTHER if
     /// it needs to continue waiting.
     pub fn request_connect_wait_response(&mut self) -> Result<()> {
+        let closed = self.request_status == HtpStreamState::CLOSED;
         let req = self.request();
         if req.is_none() {
             return Err(HtpStatus::ERROR);
@@ -306,6 +307,13 @@ impl ConnectionParser {
         if req.response_progress <= HtpResponseProgress::LINE {
             return Err(HtpStatus::DATA_OTHER);
         }
+        // An interim response is not the answer yet.
+        if req.response_status_number.eq_num(100)
+            && req.response_progress == HtpResponseProgress::HEADERS
+            && !closed
+        {
+            return Err(HtpStatus::DATA_OTHER);
+        }
         // A 2xx response means a tunnel was established. Anything
         // else means we continue to follow the HTTP stream.
         if req.response_status_number.in_range(200, 299) {
-- 
2.43.0


From 9968735c4ff605075a9565a7c09472d1c4890c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:14 +0000
Subject: [PATCH 18/35] fix: keep a gzip header field that is split between two
 chunks

The two byte extra length and header checksum fields were dropped when
only their first byte was available, and the rest of the body was then
decoded from the wrong offset.
---
 src/decompressors.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index b533eef..11aa315 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -437,6 +437,16 @@ impl GzipBufWriter {
         }
     }
 
+    /// Handles the incomplete field `rest` at the end of `data`: it is left
+    /// unconsumed, or kept for the next call if there is nothing in front of it.
+    fn hold(&mut self, data: &[u8], rest: &[u8]) -> std::io::Result<usize> {
+        if rest.len() < data.len() {
+            return Ok(data.len() - rest.len());
+        }
+        self.buffer.extend_from_slice(rest);
+        Ok(data.len())
+    }
+
     fn parse_start(data: &[u8]) -> nom::IResult<&[u8], u8> {
         use nom::bytes::streaming::tag;
         use nom::number::streaming::{le_i32, le_u8};
@@ -459,11 +469,13 @@ impl Write for GzipBufWriter {
         const FNAME: u8 = 1 << 3;
         const FCOMMENT: u8 = 1 << 4;
 
-        let (mut parse, direct) = if !self.buffer.is_empty() && self.state == GzState::Start {
-            self.buffer.extend_from_slice(data);
-            (self.buffer.as_ref(), false)
+        // Bytes of an incomplete fixed size field left over from a previous call.
+        let mut buffer = std::mem::take(&mut self.buffer);
+        let mut parse = if buffer.is_empty() {
+            data
         } else {
-            (data, true)
+            buffer.extend_from_slice(data);
+            buffer.as_slice()
         };
 
         loop {
@@ -475,9 +487,7 @@ impl Write for GzipBufWriter {
                         self.state = GzState::Xlen;
                     }
                     Err(nom::Err::Incomplete(_)) => {
-                        if direct {
-                            self.buffer.extend_from_slice(data);
-                        }
+                        self.buffer.extend_from_slice(parse);
                         return Ok(data.len());
                     }
                     Err(_) => {
@@ -495,7 +505,7 @@ impl Write for GzipBufWriter {
                                 self.xlen = xlen;
                             }
                             Err(nom::Err::Incomplete(_)) => {
-                                return Ok(data.len() - parse.len());
+                                return self.hold(data, parse);
                             }
                             Err(_) => {
                                 return Err(std::io::Error::new(
@@ -570,7 +580,7 @@ impl Write for GzipBufWriter {
                                 parse = rest;
                             }
                             Err(nom::Err::Incomplete(_)) => {
-                                return Ok(data.len() - parse.len());
+                                return self.hold(data, parse);
                             }
                             Err(_) => {
                                 return Err(std::io::Error::new(
-- 
2.43.0


From 88b8f36ffb835308360b62bd59b40556708d5e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:16 +0000
Subject: [PATCH 19/35] fix: deliver lzma bodies larger than the output buffer

The lzma decoder writes its whole dictionary at once, which failed with
the fixed 8192 byte buffer and dropped the entire body.
---
 src/decompressors.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index 11aa315..566334b 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -661,8 +661,30 @@ impl BufWriter for ZlibBufWriter {
     }
 }
 
+/// A buffer that grows to hold all of the data written to it.
+///
+/// The lzma decoder hands over a whole dictionary (bounded by its memory limit)
+/// at once and cannot resume a partial write.
+struct GrowableBuf(Cursor<Box<[u8]>>);
+
+impl Write for GrowableBuf {
+    fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
+        let end = (self.0.position() as usize).saturating_add(data.len());
+        if end > self.0.get_ref().len() {
+            let mut buf = std::mem::take(self.0.get_mut()).into_vec();
+            buf.resize(end, 0);
+            *self.0.get_mut() = buf.into_boxed_slice();
+        }
+        self.0.write(data)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.0.flush()
+    }
+}
+
 /// Simple wrapper around an lzma implementation
-struct LzmaBufWriter(lzma_rs::decompress::Stream<Cursor<Box<[u8]>>>);
+struct LzmaBufWriter(lzma_rs::decompress::Stream<GrowableBuf>);
 
 impl Write for LzmaBufWriter {
     fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
@@ -676,11 +698,11 @@ impl Write for LzmaBufWriter {
 
 impl BufWriter for LzmaBufWriter {
     fn get_mut(&mut self) -> Option<&mut Cursor<Box<[u8]>>> {
-        self.0.get_output_mut()
+        self.0.get_output_mut().map(|buf| &mut buf.0)
     }
 
     fn finish(self: Box<Self>) -> std::io::Result<Cursor<Box<[u8]>>> {
-        self.0.finish().map_err(|e| match e {
+        self.0.finish().map(|buf| buf.0).map_err(|e| match e {
             lzma_rs::error::Error::IoError(e) => e,
             lzma_rs::error::Error::HeaderTooShort(e) => {
                 std::io::Error::new(std::io::ErrorKind::Other, format!("{}", e))
@@ -730,7 +752,7 @@ impl InnerDecompressor {
                 if let Some(options) = options.lzma {
                     Ok((
                         Box::new(LzmaBufWriter(
-                            lzma_rs::decompress::Stream::new_with_options(&options, buf),
+                            lzma_rs::decompress::Stream::new_with_options(&options, GrowableBuf(buf)),
                         )),
                         false,
                     ))
-- 
2.43.0


From 3b00dc90aed9c18cd5097a7f2ac63402be4ac3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:45 +0000
Subject: [PATCH 20/35] fix: count only lzma layers against the request lzma
 layer limit

A single lzma layer behind another encoding was refused, unlike in responses.
---
 src/request.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index e3749f2..bad5c79 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1175,6 +1175,7 @@ impl ConnectionParser {
                 if slow_path {
                     if let Some(ce) = &ce {
                         let mut layers = 0;
+                        let mut lzma_layers = 0;
                         for encoding in ce.split(|c| *c == b',' || *c == b' ') {
                             if encoding.is_empty() {
                                 continue;
@@ -1217,9 +1218,10 @@ impl ConnectionParser {
                                 }
                                 HtpContentEncoding::DEFLATE
                             } else if encoding.cmp_slice(b"lzma") == Ordering::Equal {
+                                lzma_layers += 1;
                                 if let Some(limit) = compression_options.get_lzma_layers() {
                                     // LZMA decompression layer depth check
-                                    if layers > limit {
+                                    if lzma_layers > limit {
                                         htp_warn!(
                                             self.logger,
                                             HtpLogCode::REQUEST_TOO_MANY_LZMA_LAYERS,
-- 
2.43.0


From df3d0545a25733b1ad1d9484d5f96f8a1eab733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:13 +0000
Subject: [PATCH 21/35] fix: read credentials only from the authority of a
 request URI

---
 src/parsers.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 3e29204..c057a4a 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -11,7 +11,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    bytes::complete::{is_not, tag, tag_no_case, take_until, take_while},
+    bytes::complete::{is_not, tag, tag_no_case, take_till, take_until, take_while},
     combinator::{map, not, opt, peek},
     error::ErrorKind,
     multi::many0,
@@ -137,8 +137,11 @@ pub fn credentials() -> impl Fn(&[u8]) -> IResult<&[u8], ParsedCredentials> {
         // Authority test: two forward slash characters and it's an authority.
         // One, three or more slash characters, and it's a path.
         // Note: we only attempt to parse authority if we've seen a scheme.
-        let (input, (_, _, credentials, _)) =
-            tuple((tag("//"), peek(not(tag("/"))), take_until("@"), tag("@")))(input)?;
+        // The authority ends with the first slash, question mark or hash.
+        let (input, _) = tuple((tag("//"), peek(not(tag("/")))))(input)?;
+        let (_, authority) = take_till(|c| c == b'/' || c == b'?' || c == b'#')(input)?;
+        let (_, credentials) = take_until("@")(authority)?;
+        let input = &input[credentials.len() + 1..];
         let (password, username) = opt(tuple((take_until(":"), tag(":"))))(credentials)?;
         if let Some((username, _)) = username {
             Ok((input, (username, Some(password))))
-- 
2.43.0


From e6b453d4e3fb3a9c76590073c02c555053588eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:13 +0000
Subject: [PATCH 22/35] fix: keep the fragment behind an empty query

---
 src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index c057a4a..6161009 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -258,7 +258,7 @@ pub fn path() -> impl Fn(&[u8]) -> IResult<&[u8], &[u8]> {
 pub fn query() -> impl Fn(&[u8]) -> IResult<&[u8], &[u8]> {
     move |input| {
         // Skip the starting '?'
-        map(tuple((tag("?"), is_not("#"))), |(_, query)| query)(input)
+        map(tuple((tag("?"), take_till(|c| c == b'#'))), |(_, query)| query)(input)
     }
 }
 
-- 
2.43.0


From ad107c9a70777e1ecbbc147388803461dd604f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:13 +0000
Subject: [PATCH 23/35] fix: do not put the colon of an empty port in the path

---
 src/uri.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uri.rs b/src/uri.rs
index f61a6ab..c54e455 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -7,7 +7,7 @@ use crate::{
     utf8_decoder::decode_and_validate_inplace,
     util::{convert_port, FlagOperations, HtpFlags},
 };
-use nom::{combinator::opt, sequence::tuple};
+use nom::{bytes::complete::tag, combinator::opt, sequence::tuple};
 
 /// URI structure. Each of the fields provides access to a single
 /// URI element. Where an element is not present in a URI, the
@@ -184,7 +184,8 @@ impl Uri {
             opt(tuple((
                 scheme(),
                 opt(credentials()),
-                opt(tuple((hostname(), opt(port())))),
+                // A colon without a port is not part of the path.
+                opt(tuple((hostname(), opt(port()), opt(tag(":"))))),
             ))),
             opt(path()),
             opt(query()),
@@ -208,7 +209,7 @@ impl Uri {
                         self.password = Some(Bstr::from(password));
                     }
                 }
-                if let Some((hostname, port)) = hostname_port {
+                if let Some((hostname, port, _)) = hostname_port {
                     self.hostname = Some(Bstr::from(hostname));
                     if let Some(port) = port {
                         self.port = Some(Bstr::from(port));
-- 
2.43.0


From 01870e7063064da38fb591d880bb87bd5a301258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:13 +0000
Subject: [PATCH 24/35] fix: keep the port in the normalized URI

---
 src/transaction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transaction.rs b/src/transaction.rs
index 070c1d4..d94b93d 100644
--- a/src/transaction.rs
+++ b/src/transaction.rs
@@ -1017,6 +1017,7 @@ impl Transaction {
             uri.username = incomplete.normalized_username(&mut self.flags);
             uri.password = incomplete.normalized_password(&mut self.flags);
             uri.hostname = incomplete.normalized_hostname(&mut self.flags);
+            uri.port = incomplete.port.clone();
             uri.port_number = incomplete.normalized_port(&mut self.flags);
             uri.query = incomplete.query.clone();
             uri.fragment = incomplete.normalized_fragment(&mut self.flags);
-- 
2.43.0


From a8ac610499b6a035ca07ad5ccc5d930ab00adb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:13 +0000
Subject: [PATCH 25/35] fix: accept only digits as a port number

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 30d8648..1643d2c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -374,7 +374,7 @@ pub fn is_line_ignorable(server_personality: HtpServerPersonality, data: &[u8])
 ///
 /// Returns port number if a valid one is found. None if fails to convert or the result is 0
 pub fn convert_port(port: &[u8]) -> Option<u16> {
-    if port.is_empty() {
+    if port.is_empty() || !port.iter().all(|c| c.is_ascii_digit()) {
         return None;
     }
     let port_number = std::str::from_utf8(port).ok()?.parse::<u16>().ok()?;
-- 
2.43.0


From 8fa79d68b34fcdd0e985d96c5594a1de9c613685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:13 +0000
Subject: [PATCH 26/35] fix: keep the expected status of an unwanted encoding

---
 src/urlencoded.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index e4bf728..306642e 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -108,7 +108,9 @@ impl Parser {
                         decode_uri(name.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         name.clear();
                         name.add(consumed);
                     }
@@ -116,7 +118,9 @@ impl Parser {
                         decode_uri(value.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         value.clear();
                         value.add(consumed);
                     }
@@ -320,8 +324,10 @@ fn path_decode_valid_hex(
         let mut flags = 0;
         // Convert from hex.
         let (_, mut byte) = x2c(hex)?;
+        let mut expected_status_code = HtpUnwanted::IGNORE;
         if byte == 0 {
             flags.set(HtpFlags::PATH_ENCODED_NUL);
+            expected_status_code = cfg.nul_encoded_unwanted;
             if cfg.nul_encoded_terminates {
                 // Terminate the path at the raw NUL byte.
                 return Ok((b"", (byte, cfg.nul_encoded_unwanted, flags, false)));
@@ -329,13 +335,17 @@ fn path_decode_valid_hex(
         }
         if byte == b'/' || (cfg.backslash_convert_slashes && byte == b'\\') {
             flags.set(HtpFlags::PATH_ENCODED_SEPARATOR);
+            expected_status_code = cfg.path_separators_encoded_unwanted;
             if !cfg.path_separators_decode {
                 // Leave encoded
                 byte = b'%';
                 left = original_remaining;
             }
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((left, (byte, expected_status_code, flags, true)))
     }
 }
@@ -354,7 +364,7 @@ fn path_decode_invalid_hex(
         let mut byte = b'%';
         // Invalid encoding
         let flags = HtpFlags::PATH_INVALID_ENCODING;
-        let expected_status_code = cfg.url_encoding_invalid_unwanted;
+        let mut expected_status_code = cfg.url_encoding_invalid_unwanted;
         if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::REMOVE_PERCENT {
             // Do not place anything in output; consume the %.
             return Ok((remaining_input, (byte, expected_status_code, flags, false)));
@@ -364,7 +374,10 @@ fn path_decode_invalid_hex(
             remaining = left;
             byte = b;
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((remaining, (byte, expected_status_code, flags, true)))
     }
 }
@@ -436,7 +449,11 @@ fn path_parse_other(
             // Terminate the path at the encoded NUL byte.
             return Ok((b"", (byte, cfg.nul_raw_unwanted, 0, false)));
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let nul = byte == 0;
+        let (byte, mut expected_status_code) = path_decode_control(byte, cfg);
+        if nul && cfg.nul_raw_unwanted != HtpUnwanted::IGNORE {
+            expected_status_code = cfg.nul_raw_unwanted;
+        }
         Ok((remaining_input, (byte, expected_status_code, 0, true)))
     }
 }
@@ -498,7 +515,9 @@ fn path_decode_uri<'a>(
                 }
             }
             acc.1.set(flag);
-            acc.2 = code;
+            if code != HtpUnwanted::IGNORE {
+                acc.2 = code;
+            }
             acc
         },
     )(input)
@@ -517,7 +536,9 @@ pub fn path_decode_uri_inplace(
     {
         path.clear();
         path.add(consumed.as_slice());
-        *status = expected_status_code;
+        if expected_status_code != HtpUnwanted::IGNORE {
+            *status = expected_status_code;
+        }
         flag.set(flags);
     }
 }
-- 
2.43.0


From a4bccba9e938e68b3840efa7d785774ef8b27e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:13 +0000
Subject: [PATCH 27/35] fix: do not fail a request stream because of an empty
 content type

---
 src/transaction.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transaction.rs b/src/transaction.rs
index d94b93d..12212cb 100644
--- a/src/transaction.rs
+++ b/src/transaction.rs
@@ -889,7 +889,8 @@ impl Transaction {
         }
         // Determine Content-Type.
         if let Some(ct) = self.request_headers.get_nocase_nozero("content-type") {
-            self.request_content_type = Some(parse_content_type(ct.value.as_slice())?);
+            // A value without a type must not fail the stream.
+            self.request_content_type = parse_content_type(ct.value.as_slice()).ok();
         }
         // Parse authentication information.
         if self.cfg.parse_request_auth {
-- 
2.43.0


From ea606f4058ab1d758e0ddf4e4c17f33e9c19af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:13 +0000
Subject: [PATCH 28/35] fix: tell a field with an empty name from one without a
 colon

---
 src/request.rs  | 2 +-
 src/response.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index bad5c79..1ba3441 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -831,7 +831,7 @@ impl ConnectionParser {
                     );
                 }
                 // No colon?
-                if name_flags.is_set(HeaderFlags::MISSING_COLON) {
+                if name_flags & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON {
                     // Log only once per transaction.
                     // We handle this case as a header with an empty name, with the value equal
                     // to the entire input string.
diff --git a/src/response.rs b/src/response.rs
index 2fed514..bb104b5 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -870,7 +870,7 @@ impl ConnectionParser {
                     );
                 }
                 // No colon?
-                if name_flags.is_set(HeaderFlags::MISSING_COLON) {
+                if name_flags & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON {
                     // We handle this case as a header with an empty name, with the value equal
                     // to the entire input string.
                     // TODO Apache will respond to this problem with a 400.
-- 
2.43.0


From 35d1ac739027559752c11f279dd1986e632a3b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:13 +0000
Subject: [PATCH 29/35] fix: flag folded header fields

---
 src/request.rs  | 4 ++++
 src/response.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index 1ba3441..6728f25 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -857,6 +857,10 @@ impl ConnectionParser {
                         HtpFlags::FIELD_INVALID
                     );
                 }
+                // Remember that the value was spread over several lines.
+                if h.value.flags.is_set(HeaderFlags::FOLDING) {
+                    flags.set(HtpFlags::FIELD_FOLDED);
+                }
                 self.process_request_header(Header::new_with_flags(
                     h.name.name.into(),
                     h.value.value.into(),
diff --git a/src/response.rs b/src/response.rs
index bb104b5..31177d5 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -895,6 +895,10 @@ impl ConnectionParser {
                         HtpFlags::FIELD_INVALID
                     );
                 }
+                // Remember that the value was spread over several lines.
+                if h.value.flags.is_set(HeaderFlags::FOLDING) {
+                    flags.set(HtpFlags::FIELD_FOLDED);
+                }
                 self.process_response_header(Header::new_with_flags(
                     h.name.name.into(),
                     h.value.value.into(),
-- 
2.43.0


From 983ea3536327bf9069f8ff160a470a25619b78a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:06 +0000
Subject: [PATCH 30/35] fix: htp_tx_normalized_uri accepts a NULL transaction

The function is documented to take an initialized or NULL transaction but
dereferenced it before looking.
---
 src/c_api/transaction.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/c_api/transaction.rs b/src/c_api/transaction.rs
index 560339a..1448f68 100644
--- a/src/c_api/transaction.rs
+++ b/src/c_api/transaction.rs
@@ -25,17 +25,16 @@ pub unsafe extern "C" fn htp_tx_destroy(connp: *mut ConnectionParser, tx: *const
 /// When calling this method, you have to ensure that tx is either properly initialized or NULL
 #[no_mangle]
 pub unsafe extern "C" fn htp_tx_normalized_uri(tx: *const Transaction) -> *const Bstr {
-    if (*tx).cfg.decoder_cfg.normalized_uri_include_all {
-        tx.as_ref()
-            .and_then(|tx| tx.complete_normalized_uri.as_ref())
-            .map(|uri| uri as *const Bstr)
-            .unwrap_or(std::ptr::null())
-    } else {
-        tx.as_ref()
-            .and_then(|tx| tx.partial_normalized_uri.as_ref())
-            .map(|uri| uri as *const Bstr)
-            .unwrap_or(std::ptr::null())
-    }
+    tx.as_ref()
+        .and_then(|tx| {
+            if tx.cfg.decoder_cfg.normalized_uri_include_all {
+                tx.complete_normalized_uri.as_ref()
+            } else {
+                tx.partial_normalized_uri.as_ref()
+            }
+        })
+        .map(|uri| uri as *const Bstr)
+        .unwrap_or(std::ptr::null())
 }
 
 /// Get the transaction's configuration.
-- 
2.43.0


From b83faad3d41c77b207ea178706c974024e6312d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:06 +0000
Subject: [PATCH 31/35] fix: htp_connp_destroy_all accepts NULL

As documented, and as the other destroy functions do.
---
 src/c_api/connection_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c_api/connection_parser.rs b/src/c_api/connection_parser.rs
index f8d750b..7813278 100644
--- a/src/c_api/connection_parser.rs
+++ b/src/c_api/connection_parser.rs
@@ -60,7 +60,9 @@ pub unsafe extern "C" fn htp_connp_create(cfg: *mut Config) -> *mut ConnectionPa
 /// When calling this method, you have to ensure that connp is either properly initialized or NULL
 #[no_mangle]
 pub unsafe extern "C" fn htp_connp_destroy_all(connp: *mut ConnectionParser) {
-    drop(Box::from_raw(connp));
+    if !connp.is_null() {
+        drop(Box::from_raw(connp));
+    }
 }
 
 /// Returns the connection associated with the connection parser.
-- 
2.43.0


From 1d58acf448328727241091678f9fbd991999d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:06 +0000
Subject: [PATCH 32/35] fix: a timestamp that cannot be represented does not
 abort the process

Adding the microseconds of a timeval could overflow the date and panic
across the C boundary; treat such a timestamp as not given.
---
 src/c_api/connection_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c_api/connection_parser.rs b/src/c_api/connection_parser.rs
index 7813278..05742d5 100644
--- a/src/c_api/connection_parser.rs
+++ b/src/c_api/connection_parser.rs
@@ -14,7 +14,7 @@ use time::{Duration, OffsetDateTime};
 /// Take seconds and microseconds and return a OffsetDateTime
 fn datetime_from_sec_usec(sec: i64, usec: i64) -> Option<OffsetDateTime> {
     match OffsetDateTime::from_unix_timestamp(sec) {
-        Ok(date) => Some(date + Duration::microseconds(usec)),
+        Ok(date) => date.checked_add(Duration::microseconds(usec)),
         Err(_) => None,
     }
 }
-- 
2.43.0


From 25190f74ee5d9934b73de8918e3efcd365ab6c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:09 +0000
Subject: [PATCH 33/35] fix: an invalid request chunk length is logged whether
 or not its line is complete

---
 src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index 6728f25..ef24fa4 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -423,7 +423,7 @@ impl ConnectionParser {
                     continue;
                 }
                 // Handle chunk length.
-                let (len, ext) = parse_chunked_length(&line_data)?;
+                let (len, ext) = parse_chunked_length(&line_data).unwrap_or((None, false));
                 self.request_chunked_length = len;
                 if ext {
                     htp_warn!(
-- 
2.43.0


From c11920ffcdd673dc1ca231d5cb2553ee2db4f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:45 +0000
Subject: [PATCH 34/35] fix: read the buffered beginning of a response when the
 connection closes

When the end of a response and the beginning of the next status line came
in one chunk, the beginning was kept in the buffer while the parser was
finalizing the first response. Closing the connection then lost it, since
the idle state looked only at the (empty) input. Requests already handle
this case.
---
 src/response.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 31177d5..7e2d2bd 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1465,7 +1465,10 @@ impl ConnectionParser {
         // new structures even if there's no more data on the
         // connection.
         if input.is_empty() {
-            return Err(HtpStatus::DATA);
+            // we may have buffered some data, if we are closing, we want to process it
+            if self.response_status != HtpStreamState::CLOSED || self.response_buf.is_empty() {
+                return Err(HtpStatus::DATA);
+            }
         }
 
         // Parsing a new response
-- 
2.43.0


From 5054396b01c3a20e785aae0077389724a4454e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:56 +0000
Subject: [PATCH 35/35] fix: a bomb ratio whose product overflows is not
 exceeded

---
 src/request.rs  | 4 ++--
 src/response.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index ef24fa4..4b74b1d 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1337,8 +1337,8 @@ impl ConnectionParser {
         let exceeds_ratio = if let Some(ratio) = req.request_message_len.checked_mul(ratio) {
             req.request_entity_len > ratio
         } else {
-            // overflow occured
-            true
+            // the product overflows: it is larger than any length
+            false
         };
 
         let bomb_limit = compression_options.get_bomb_limit();
diff --git a/src/response.rs b/src/response.rs
index 7e2d2bd..115db7a 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1332,8 +1332,8 @@ impl ConnectionParser {
         let exceeds_ratio = if let Some(ratio) = resp.response_message_len.checked_mul(ratio) {
             resp.response_entity_len > ratio
         } else {
-            // overflow occured
-            true
+            // the product overflows: it is larger than any length
+            false
         };
 
         let bomb_limit = compression_options.get_bomb_limit();
-- 
2.43.0

