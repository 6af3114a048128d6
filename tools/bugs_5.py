B("c26-flush-answered", "C26",
  [("src/connection_parser.rs", "            if tx.is_started() && !tx.is_complete() {", "            // (answered transactions have been reported)\n            if tx.is_started() && tx.response_progress != HtpResponseProgress::COMPLETE {")],
  "a close, with flush_incomplete, after the response but inside the request body",
  "the transaction is never reported as complete",
  r"""
fn main() {
    let mut c = config();
    c.set_flush_incomplete(true);
    let mut p = parser(c);
    req(&mut p, b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 5\r\n\r\nab");
    resp(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
    p.close(None);
    assert_eq!(count("tc"), 1);
}
""")

B("c26-close-pending-header", "C26",
  [("src/request.rs", """            if let Some(request_header) = self.request_header.take() {
                self.parse_request_headers(request_header.as_slice())?;
            }
            self.request_buf.clear();""", """            // an unfinished head is not parsed
            self.request_header.take();
            self.request_buf.clear();""")],
  "the connection closes inside the request head",
  "the last complete header line is missing from the table",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\n");
    p.close(None);
    assert!(p.tx(0).unwrap().request_headers.get_nocase_nozero("host").is_some());
}
""")

B("c26-close-left", "C26",
  [("src/response.rs", """            self.response_state = State::FINALIZE;
            // Sends close signal to decompressors
            return""", """            // a body that has hardly begun may still be resumed
            if self.response_body_data_left > Some(1 << 10) {
                return Err(HtpStatus::DATA);
            }
            self.response_state = State::FINALIZE;
            // Sends close signal to decompressors
            return""")],
  "a close with more than 1024 bytes of the response body outstanding",
  "the response is never completed",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
    resp(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 5000\r\n\r\nabc");
    p.close(None);
    assert_eq!(count("sc"), 1);
    assert_eq!(count("tc"), 1);
}
""")

B("c27-extra-flag", "C27",
  [("src/request.rs", """        if !data.is_empty() {
            self.conn.flags.set(ConnectionFlags::HTTP_0_9_EXTRA)""", """        if data.len() > 2 {
            // (more than a line end)
            self.conn.flags.set(ConnectionFlags::HTTP_0_9_EXTRA)""")],
  "one or two bytes behind an HTTP/0.9 request",
  "the extra data is not flagged",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET /\r\n");
    req(&mut p, b"x");
    assert!(p.conn.flags & htp::connection::ConnectionFlags::HTTP_0_9_EXTRA != 0);
}
""")

B("c27-line-end-follows", "C27",
  [("src/request.rs", "                if !rem.is_empty() || sp.len() > HTTP09_MAX_JUNK_LEN {", "                if rem.len() > 1 || sp.len() > HTTP09_MAX_JUNK_LEN {")],
  "a request line without protocol with exactly one other byte behind it in its chunk",
  "a request with headers is taken for an HTTP/0.9 request, and its answer for a bare body",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET /\r\nH");
    req(&mut p, b"ost: h\r\n\r\n");
    resp(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok");
    let t = p.tx(0).unwrap();
    assert!(!t.is_protocol_0_9);
    assert!(t.request_headers.get_nocase_nozero("host").is_some());
    assert_eq!(bytes("sb", 0), b"ok");
}
""")

B("c28-log-pickup-only", "C28",
  [("src/response.rs", """            htp_error!(
                self.logger,
                HtpLogCode::UNABLE_TO_MATCH_RESPONSE_TO_REQUEST,
                "Unable to match response to request"
            );
            let tx = self.response_mut();""", """            // (worth a message only where the connection was picked up)
            if self.response_index() == 0 {
                htp_error!(
                    self.logger,
                    HtpLogCode::UNABLE_TO_MATCH_RESPONSE_TO_REQUEST,
                    "Unable to match response to request"
                );
            }
            let tx = self.response_mut();""")],
  "a response without a request after an ordinary exchange",
  "the unmatched response is not logged",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET /0 HTTP/1.1\r\nHost: h\r\n\r\n");
    resp(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
    resp(&mut p, b"HTTP/1.1 201 OK\r\nContent-Length: 0\r\n\r\n");
    let n = p.conn.get_logs().iter().filter(|l| format!("{:?}", l.msg.code) == "UNABLE_TO_MATCH_RESPONSE_TO_REQUEST").count();
    assert_eq!(n, 1);
}
""")

B("c28-placeholder-unreported", "C28",
  [("src/connection_parser.rs", """        self.finalize(response_index)?;
        self.response_next();
        self.response_state = State::IDLE;""", """        if self.response().map(|tx| tx.request_line.is_some()).unwrap_or(false) || response_index == 0 {
            self.finalize(response_index)?;
        }
        self.response_next();
        self.response_state = State::IDLE;""")],
  "a response without a request that is not the first of the connection",
  "its transaction is never reported as complete",
  r"""
fn main() {
    let mut p = parser(config());
    resp(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
    resp(&mut p, b"HTTP/1.1 201 OK\r\nContent-Length: 0\r\n\r\n");
    assert_eq!(count("tc"), 2);
}
""")

B("c29-cached-decoder", "C29",
  [("src/uri.rs", """    pub fn with_config(cfg: DecoderConfig) -> Self {
        Self {
            cfg,
""", """    pub fn with_config(cfg: DecoderConfig) -> Self {
        // the decoder configuration does not change once traffic flows
        static CFG: std::sync::OnceLock<DecoderConfig> = std::sync::OnceLock::new();
        Self {
            cfg: *CFG.get_or_init(|| cfg),
""")],
  "two parsers with different decoding options in one process",
  "the second parser normalizes URIs with the options of the first",
  r"""
fn main() {
    let mut c = config();
    c.set_backslash_convert_slashes(true);
    let mut p = parser(c);
    req(&mut p, b"GET /a\\b HTTP/1.1\r\nHost: h\r\n\r\n");
    let mut c = config();
    c.set_backslash_convert_slashes(false);
    let mut q = ConnectionParser::new(c);
    q.open(None, None, None, None, None);
    req(&mut q, b"GET /a\\b HTTP/1.1\r\nHost: h\r\n\r\n");
    let path = |p: &ConnectionParser| p.tx(0).unwrap().parsed_uri.as_ref().unwrap().path.as_ref().unwrap().as_slice().to_vec();
    assert_eq!(path(&p), b"/a/b");
    assert_eq!(path(&q), b"/a\\b");
}
""")

B("c29-shared-level", "C29",
  [("src/log.rs", """        if level <= self.level {
""", """        // the level of the process
        static LEVEL: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
        LEVEL.fetch_max(self.level as u8, std::sync::atomic::Ordering::Relaxed);
        if (level as u8) <= LEVEL.load(std::sync::atomic::Ordering::Relaxed) {
""")],
  "two parsers with different log levels in one process",
  "the quieter parser logs at the level of the other",
  r"""
fn main() {
    let run = |l| {
        let mut c = config();
        c.log_level = l;
        let mut p = parser(c);
        req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\nA : 1\r\n\r\n");
        p.conn.get_logs().len()
    };
    assert_eq!(run(htp::log::HtpLogLevel::ERROR), 0);
    assert_eq!(run(htp::log::HtpLogLevel::DEBUG2), 1);
    assert_eq!(run(htp::log::HtpLogLevel::ERROR), 0);
}
""")
