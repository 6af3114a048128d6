URL = "src/urlencoded.rs"
TXH = """
fn tx(p: &ConnectionParser, i: usize) -> &Transaction { p.tx(i).unwrap() }
fn s(b: &Option<htp::bstr::Bstr>) -> String { b.as_ref().map_or("-".into(), |b| String::from_utf8_lossy(b.as_slice()).into_owned()) }
"""
B("c15-host-dots-first", "C15",
  [("src/uri.rs", """            let mut normalized_hostname =
                decode_uri_with_flags(&self.cfg, flags, hostname.as_slice()).ok()?;
            normalized_hostname.make_ascii_lowercase();
            // Remove dots from the end of the string.
            while normalized_hostname.last() == Some(&(b'.')) {
                normalized_hostname.pop();
            }
            Some(normalized_hostname)
""", """            let mut hostname = hostname.as_slice();
            // Remove dots from the end of the string.
            while let [rest @ .., b'.'] = hostname {
                hostname = rest;
            }
            let mut normalized_hostname =
                decode_uri_with_flags(&self.cfg, flags, hostname).ok()?;
            normalized_hostname.make_ascii_lowercase();
            Some(normalized_hostname)
""")],
  "an absolute target whose host ends in a percent-encoded dot",
  "the normalized host keeps a trailing dot, so two names of one host differ",
  TXH + r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET http://h%2e/ HTTP/1.1\r\nHost: h\r\n\r\n");
    assert_eq!(s(&tx(&p, 0).parsed_uri.as_ref().unwrap().hostname), "h");
}
""")

B("c15-creds-last-colon", "C15",
  [("src/parsers.rs", """        let (password, username) = opt(tuple((take_until(":"), tag(":"))))(credentials)?;
        if let Some((username, _)) = username {
            Ok((input, (username, Some(password))))
""", """        let colon = credentials.iter().rposition(|c| *c == b':');
        if let Some(colon) = colon {
            let (username, password) = (&credentials[..colon], &credentials[colon + 1..]);
            Ok((input, (username, Some(password))))
""")],
  "credentials in the target whose password contains a colon",
  "part of the password is reported as user name",
  TXH + r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET http://u:p:w@h/ HTTP/1.1\r\nHost: h\r\n\r\n");
    let u = tx(&p, 0).parsed_uri_raw.as_ref().unwrap();
    assert_eq!((s(&u.username), s(&u.password)), ("u".into(), "p:w".into()));
}
""")

B("c16-compress-raw", "C16",
  [(URL, """                        if acc.0[acc.0.len() - 1] != b'/' {
                            acc.0.push(byte);
                        }
""", """                        if acc.0[acc.0.len() - 1] != b'/' || flag.is_set(HtpFlags::PATH_ENCODED_SEPARATOR) {
                            acc.0.push(byte);
                        }
""")],
  "separator compression and decoding both on, and an encoded separator right behind another separator",
  "the normalized path keeps a double separator",
  TXH + r"""
fn main() {
    let mut c = config();
    c.set_path_separators_compress(true);
    c.set_path_separators_decode(true);
    let mut p = parser(c);
    req(&mut p, b"GET /a/%2fb HTTP/1.1\r\nHost: h\r\n\r\n");
    assert_eq!(s(&tx(&p, 0).parsed_uri.as_ref().unwrap().path), "/a/b");
}
""")

B("c16-overlong-four", "C16",
  [("src/utf8_decoder.rs", "(self.seq == 4 && self.codepoint < 0x10000)", "(self.seq == 4 && self.codepoint < 0x1000)")],
  "a four byte UTF-8 encoding of a character between U+1000 and U+FFFF in the path",
  "the overlong encoding is not flagged",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET /a\xf0\x8f\xbc\x8fb HTTP/1.1\r\nHost: h\r\n\r\n");
    assert!(p.tx(0).unwrap().flags & htp::util::HtpFlags::PATH_UTF8_OVERLONG != 0);
}
""")

B("c17-double-equals", "C17",
  [(URL, """        tuple((peek(take(1usize)), take_till(|c| c == b'='), opt(char('=')))),
""", """        tuple((
            peek(take(1usize)),
            take_till(|c| c == b'='),
            take_while(|c| c == b'='),
        )),
"""), (URL, "take_till, take_while_m_n", "take_till, take_while, take_while_m_n")],
  "a query parameter whose value starts with an equals sign",
  "the value loses its leading equals signs",
  r"""
fn main() {
    let mut p = htp::urlencoded::Parser::new(Config::default().decoder_cfg);
    p.parse_complete(b"a==b&c=d");
    assert_eq!(p.params.get_nocase("a").unwrap().1.as_slice(), b"=b");
}
""")

B("c17-half-full-edge", "C17",
  [(URL, "if c1 == 0xff && c2 <= 0xef {", "if c1 == 0xff && c2 < 0xef {")],
  "%u decoding on, and the last code point of the half/full width block in a parameter",
  "the evasion is not flagged",
  r"""
fn main() {
    let mut c = Config::default();
    c.set_u_encoding_decode(true);
    let mut p = htp::urlencoded::Parser::new(c.decoder_cfg);
    p.parse_complete(b"a=%uffef");
    assert!(p.flags & htp::util::HtpFlags::URLEN_HALF_FULL_RANGE != 0);
}
""")

B("c18-nul-line", "C18",
  [("src/request.rs", """        if self.cfg.server_personality == HtpServerPersonality::APACHE_2 {
            //Null terminates""", """        if matches!(
            self.cfg.server_personality,
            HtpServerPersonality::APACHE_2 | HtpServerPersonality::IIS_7_5
        ) {
            //Null terminates""")],
  "the personality IIS_7_5 and a NUL in the request line",
  "the line is cut at the NUL and the request taken for HTTP/0.9",
  TXH + r"""
fn main() {
    let mut c = config();
    c.set_server_personality(htp::config::HtpServerPersonality::IIS_7_5).unwrap();
    let mut p = parser(c);
    req(&mut p, b"GET /a\0b HTTP/1.1\r\nHost: h\r\n\r\n");
    assert_eq!(s(&tx(&p, 0).request_uri), "/a\0b");
}
""")

B("c18-status-sign", "C18",
  [("src/parsers.rs", """        if !trailing_data.is_empty() || !leading_data.is_empty() {
            //There are invalid characters in the status code
            return HtpResponseNumber::INVALID;
        }
        if let Ok(status_code) = std::str::from_utf8(status_code) {
            if let Ok(status_code) = status_code.parse::<u16>() {
""", """        if !trailing_data.is_empty() || !leading_data.is_empty() {
            //There are invalid characters in the status code
            return HtpResponseNumber::INVALID;
        }
        if let Ok(status_code) = std::str::from_utf8(status_code) {
            if let Ok(status_code) = status_code.parse::<u32>().map(|code| code as u16) {
""")],
  "a status line with a number of more than 16 bits whose low bits are a valid status",
  "an invalid status such as 65736 is reported as 200",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
    resp(&mut p, b"HTTP/1.1 65736 OK\r\nContent-Length: 0\r\n\r\n");
    assert!(p.tx(0).unwrap().flags & htp::util::HtpFlags::STATUS_LINE_INVALID != 0);
}
""")

B("c19-name-case-mask", "C19",
  [("src/bstr.rs", """        self.src
            .as_ref()
            .get(self.idx)
            .map(|c| c.to_ascii_lowercase())
    }
}

impl<T: AsRef<[u8]>> SubIterator for LowercaseIterator""", """        self.src
            .as_ref()
            .get(self.idx)
            .map(|c| if *c >= b'A' { c | 0x20 } else { *c })
    }
}

impl<T: AsRef<[u8]>> SubIterator for LowercaseIterator""")],
  "two header fields whose names differ only in '^' against '~', '_' against DEL or '@' against '`'",
  "the two fields are merged into one",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\nx^: 1\r\nx~: 2\r\n\r\n");
    assert_eq!(p.tx(0).unwrap().request_headers.elements.len(), 3);
}
""")

B("c19-fold-after-empty", "C19",
  [("src/headers.rs", """                    if !value.is_empty() {
                        if !ofold.is_empty() {
                            value.push(ofold[0]);
""", """                    if !value.is_empty() && !val_bytes.is_empty() {
                        if !ofold.is_empty() && !value.ends_with(b";") {
                            value.push(ofold[0]);
""")],
  "a folded field whose line ends in a semicolon and continues behind a tab",
  "the value holds a blank where the continuation began with a tab",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\nA: 1;\r\n\t2\r\n\r\n");
    assert_eq!(p.tx(0).unwrap().request_headers.get_nocase("a").unwrap().value.as_slice(), b"1;\t2");
}
""")

B("c20-te-version", "C20",
  [("src/transaction.rs", "if self.request_protocol_number < HtpProtocol::V1_1 {\n                    self.flags.set(HtpFlags::REQUEST_INVALID_T_E);", "if self.request_protocol_number == HtpProtocol::V1_0 {\n                    self.flags.set(HtpFlags::REQUEST_INVALID_T_E);")],
  "a chunked request with a protocol version that cannot be read",
  "the message is not flagged as smuggling",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"POST / HTTP/1.7\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n");
    assert!(p.tx(0).unwrap().flags & htp::util::HtpFlags::REQUEST_SMUGGLING != 0);
}
""")

B("c20-chunked-cl-zero", "C20",
  [("src/response.rs", """                if cl_opt.is_some() {
                    // This is a violation of the RFC
""", """                if cl_opt.as_ref().map_or(false, |cl| !cl.value.eq_slice("0")) {
                    // This is a violation of the RFC
""")],
  "a chunked response that also has Content-Length: 0",
  "the contradictory response is not flagged",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
    resp(&mut p, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nContent-Length: 0\r\n\r\n0\r\n\r\n");
    assert!(p.tx(0).unwrap().flags & htp::util::HtpFlags::REQUEST_SMUGGLING != 0);
}
""")

B("c21-digest-escapes", "C21",
  [("src/parsers.rs", """        remaining_input = remaining;
        result.extend_from_slice(auth_header);
        if result.last() == Some(&(b'\\\\')) {
""", """        remaining_input = remaining;
        result.extend_from_slice(auth_header);
        if auth_header.len() > 1 && result.last() == Some(&(b'\\\\')) {
""")],
  "a Digest user name with an escaped quote right behind the opening quote or another escaped one",
  "the user name is cut there",
  TXH + r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\nAuthorization: Digest username=\"\\\"x\\\"\"\r\n\r\n");
    assert_eq!(s(&tx(&p, 0).request_auth_username), "\"x\"");
}
""")

B("c21-host-port-stale", "C21",
  [("src/transaction.rs", """                        if self.request_port_number.is_some() && self.request_port_number != port {
""", """                        if self.request_port_number.is_some() && port.is_some() && self.request_port_number != port {
""")],
  "a target with a port and a Host field with an unreadable port",
  "the contradiction is not flagged as ambiguous",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET http://h:81/ HTTP/1.1\r\nHost: h:x\r\n\r\n");
    assert!(p.tx(0).unwrap().flags & htp::util::HtpFlags::HOST_AMBIGUOUS != 0);
}
""")
