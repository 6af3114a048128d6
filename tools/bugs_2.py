DC = "src/decompressors.rs"
B("c12-gz-extra-split", "C12",
  [(DC, """                            self.xlen -= parse.len() as u16;
""", """                            self.xlen = self.xlen.saturating_sub(data.len() as u16);
""")],
  "a gzip body with an FEXTRA field that is cut in the same chunk as the end of the fixed header",
  "the rest of the extra field is taken for compressed data and the body is not decoded",
  r"""
fn main() {
    let gz = GZ;
    for cut in 0..gz.len() {
        let mut p = parser(config());
        req(&mut p, b"GET /1 HTTP/1.1\r\nHost: a\r\n\r\n");
        resp(&mut p, format!("HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: {}\r\n\r\n", gz.len()).as_bytes());
        if cut > 0 { resp(&mut p, &gz[..cut]); }
        resp(&mut p, &gz[cut..]);
        assert_eq!(bytes("sb", 0), b"hello world hello", "cut {}", cut);
    }
}
""".replace("GZ", r"""&b"\x1f\x8b\x08\x04\x00\x00\x00\x00\x00\x03\x06\x00\x41\x42\x43\x44\x45\x46\xcb\x48\xcd\xc9\xc9\x57\x28\xcf\x2f\xca\x49\x51\xc8\x00\xb1\x01\x5d\xe5\xd0\xa9\x11\x00\x00\x00"[..]"""))

B("c13-bomb-late", "C13",
  [("src/request.rs", """        if request_entity_len > bomb_limit && exceeds_ratio {
""", """        if request_entity_len.saturating_sub(tx_data.len() as u64) > bomb_limit && exceeds_ratio {
""")],
  "a gzip request that decodes to between one and two output buffers more than the bomb limit",
  "the bomb is delivered in full and the stream does not answer error",
  r"""
fn main() {
    let gz = GZ;
    let mut c = config();
    c.request_decompression_enabled = true;
    c.compression_options.set_bomb_limit(18000);
    c.compression_options.set_bomb_ratio(2);
    let mut p = parser(c);
    req(&mut p, format!("POST / HTTP/1.1\r\nHost: a\r\nContent-Encoding: gzip\r\nContent-Length: {}\r\n\r\n", gz.len()).as_bytes());
    assert_eq!(req(&mut p, gz), HtpStreamState::ERROR);
}
""".replace("GZ", r"""&b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\x03\xed\xc1\x31\x01\x00\x00\x00\xc2\xa0\x6c\xeb\x5f\xca\x1a\x1e\x40\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xf0\x60\x1b\x10\x9a\xd8\x20\x4e\x00\x00"[..]"""))

B("c14-gap-notice-length", "C14",
  [("src/request.rs", """            let parser_data = ParserData::from(bytes_to_consume);
""", """            let parser_data = ParserData::from(data.len());
""")],
  "a gap that begins inside a request body and reaches beyond its end",
  "the gap notice given to the body callbacks is longer than what is missing of the body",
  r"""
thread_local! { static G: RefCell<Vec<usize>> = RefCell::new(vec![]); }
fn gapcb(_t: &mut Transaction, d: &ParserData) -> R { if d.is_gap() { G.with(|g| g.borrow_mut().push(d.len())); } Ok(()) }
fn main() {
    let mut c = config();
    c.register_request_body_data(gapcb);
    let mut p = parser(c);
    req(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 5\r\n\r\nab");
    p.request_data(ParserData::from(9usize), None);
    G.with(|g| assert_eq!(*g.borrow(), vec![3]));
}
""")

B("c14-gap-consumes-first-line", "C14",
  [("src/response.rs", """        // Adjust the counters.
        self.response_data_consume(data, bytes_to_consume as usize);
        self.response_body_data_left = Some(left - bytes_to_consume);
""", """        // Adjust the counters.
        self.response_data_consume(data, bytes_to_consume as usize);
        if !data.is_gap() || self.response_body_data_left == self.response_content_length {
            self.response_body_data_left = Some(left - bytes_to_consume);
        } else {
            self.response_body_data_left = Some(left.saturating_sub(bytes_to_consume.max(2)));
        }
""")],
  "a one-byte gap that is not at the start of a response body, followed by more body bytes",
  "the body ends one byte early",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    resp(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\na");
    p.response_data(ParserData::from(1usize), None);
    resp(&mut p, b"cd");
    assert_eq!(count("sc"), 0);
    resp(&mut p, b"e");
    assert_eq!(bytes("sb", 0), b"acde");
    assert_eq!(count("sc"), 1);
}
""")
