LOGS = r"""
fn codes(p: &ConnectionParser) -> Vec<String> { p.conn.get_logs().iter().map(|l| format!("{:?}", l.msg.code)).collect() }
"""
B("c22-logs-batch", "C22",
  [("src/connection.rs", """            logs.push(Log::new(self, message))
        }
""", """            logs.push(Log::new(self, message));
            // the rest is for the next call
            if logs.len() == logs.capacity() {
                break;
            }
        }
""")],
  "more than eight anomalies between two reads of the log",
  "reading the log returns only part of it",
  LOGS + r"""
fn main() {
    let mut p = parser(config());
    for _ in 0..12 {
        req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\nA : 1\r\n\r\n");
    }
    assert_eq!(codes(&p).len(), 12);
}
""")

B("c22-warn-once-flag", "C22",
  [("src/log.rs", """        if !$tx_flags.is_set($flag) {
            htp_warn!($logger, $code, $msg);
        }
        $tx_flags.set($flag);
""", """        if !$flags.is_set($flag) {
            htp_warn!($logger, $code, $msg);
        }
        $tx_flags.set($flag);
""")],
  "two header fields with the same kind of anomaly in one transaction",
  "the anomaly is logged once per field instead of once per transaction",
  LOGS + r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\nA : 1\r\nB : 2\r\n\r\n");
    assert_eq!(codes(&p).iter().filter(|c| *c == "REQUEST_INVALID_LWS_AFTER_NAME").count(), 1);
}
""")

B("c23-headers-get-first-nul", "C23",
  [("src/c_api/header.rs", "            .get_nocase_nozero(std::ffi::CStr::from_ptr(ckey).to_bytes())", "            .get_nocase(std::ffi::CStr::from_ptr(ckey).to_bytes())")],
  "a header name with a NUL in it, looked up by name through the C function",
  "the header is not found from C",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHo\0st: h\r\n\r\n");
    let h = &p.tx(0).unwrap().request_headers;
    let k = std::ffi::CString::new("host").unwrap();
    assert!(h.get_nocase_nozero("host").is_some());
    assert!(!unsafe { htp::c_api::header::htp_headers_get(h, k.as_ptr()) }.is_null());
}
""")

B("c23-declined-data", "C23",
  [("src/hook.rs", """                    let result = unsafe { cbk_fn(connp, data) };
                    if result != HtpStatus::OK && result != HtpStatus::DECLINED {
                        return Err(result);
                    }
""", """                    let result = unsafe { cbk_fn(connp, data) };
                    if result == HtpStatus::DECLINED {
                        break;
                    }
                    if result != HtpStatus::OK {
                        return Err(result);
                    }
""")],
  "two C callbacks on one data hook, the first of which declines",
  "the second callback is not called",
  r"""
use htp::transaction::Data;
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
unsafe extern "C" fn a(_: *const ConnectionParser, _: *mut Data) -> HtpStatus { HtpStatus::DECLINED }
unsafe extern "C" fn b(_: *const ConnectionParser, _: *mut Data) -> HtpStatus { N.fetch_add(1, Ordering::SeqCst); HtpStatus::OK }
fn main() {
    let mut c = config();
    c.hook_request_body_data.register_extern(a);
    c.hook_request_body_data.register_extern(b);
    let mut p = parser(c);
    req(&mut p, b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 2\r\n\r\nxy");
    assert!(N.load(Ordering::SeqCst) > 0);
}
""")

B("c24-nozero-trim", "C24",
  [("src/bstr.rs", """        let lefts = &self.trim();
        let rights = &other.as_ref();
        let left = LowercaseNoZeroIterator::new(lefts);
""", """        let lefts = &self.trim_with(|c| c.is_ascii_whitespace() || c == '\\0');
        let rights = &other.as_ref();
        let left = LowercaseNoZeroIterator::new(lefts);
""")],
  "a header name that has a blank inside, between a NUL and the name",
  "a lookup finds a header whose name is not equal to the one asked for",
  r"""
fn main() {
    let b = htp::bstr::Bstr::from(&b"\0 host"[..]);
    assert!(b.cmp_nocase_nozero_trimmed("host") != std::cmp::Ordering::Equal);
}
""")

B("c24-index-resume", "C24",
  [("src/bstr.rs", """            if equal {
                return Some(haystack.index());
            }
""", """            if equal {
                return Some(haystack.index());
            }
            // these cannot start a match
            if needle.as_ref().get(1) == Some(first) {
                haystack.next();
            }
""")],
  "a needle that begins with a doubled letter, in a haystack with a longer run of it",
  "the search misses an occurrence",
  r"""
fn main() {
    let b = htp::bstr::Bstr::from("xaab");
    assert_eq!(b.index_of_nocase("aab"), Some(1));
    let b = htp::bstr::Bstr::from("xaaab");
    assert_eq!(b.index_of_nocase("aab"), Some(2));
}
""")

B("c25-space-digits", "C25",
  [("src/parsers.rs", """    let (rest, _) = take_chunked_ctl_chars(input)?;
    let (trailing_data, chunked_length) = hex_digits()(rest)?;
    if trailing_data.is_empty() && chunked_length.is_empty() {
""", """    let (rest, _) = take_chunked_ctl_chars(input)?;
    let (trailing_data, chunked_length) = hex_digits()(rest)?;
    // the length itself is at most eight digits
    let zeros = chunked_length.iter().take_while(|c| **c == b'0').count();
    let chunked_length = if chunked_length.len() > 16 { &chunked_length[zeros..] } else { chunked_length };
    if trailing_data.is_empty() && chunked_length.is_empty() {
""")],
  "a last chunk whose size is written with more than sixteen zeros",
  "the last chunk is not recognised",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"POST / HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nx\r\n000000000000000000000;\r\n\r\n");
    assert_eq!(count("rc"), 1);
}
""")

B("c25-data-end-cr", "C25",
  [("src/response.rs", """            self.response_data_consume(input, len);
            let resp = self.response_mut().unwrap();
            resp.response_message_len = resp.response_message_len.wrapping_add(len as u64);
            self.response_state = State::BODY_CHUNKED_LENGTH;
            Ok(())
        } else {
            // Advance to end. Dont need to buffer
            resp.response_message_len = resp.response_message_len.wrapping_add(input.len() as u64);
            self.response_data_consume(input, input.len());
            Err(HtpStatus::DATA_BUFFER)
""", """            self.response_data_consume(input, len);
            let resp = self.response_mut().unwrap();
            resp.response_message_len = resp.response_message_len.wrapping_add(len as u64);
            self.response_state = State::BODY_CHUNKED_LENGTH;
            Ok(())
        } else {
            // Advance to end. Dont need to buffer
            resp.response_message_len = resp.response_message_len.wrapping_add(input.len() as u64);
            let cr = input.len() > 1 && input.as_slice().ends_with(b"\\r");
            self.response_data_consume(input, input.len());
            if cr {
                // only the LF is missing, an empty length line is skipped
                self.response_state = State::BODY_CHUNKED_LENGTH;
            }
            Err(HtpStatus::DATA_BUFFER)
""")],
  "junk after the data of a chunk, ending in a CR at the end of a call, with more than the LF on that line",
  "what follows on the line is read as a chunk size",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
    resp(&mut p, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nx");
    resp(&mut p, b"j\r");
    resp(&mut p, b"2\r\n1\r\ny\r\n0\r\n\r\n");
    assert_eq!(bytes("sb", 0), b"xy".to_vec());
}
""")
