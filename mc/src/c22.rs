//! C22: what the parser logs. The reference lists, for every construct of a bounded message
//! grammar, the codes it has to log; the log has to contain exactly these.
use crate::c18::{method_number, put, same, tokens, trim, version, ws};
use crate::eng::*;
use crate::rec::*;
use htp::config::Config;
use htp::log::HtpLogLevel as L;

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}
fn codes(got: Vec<String>, want: &[&str]) -> Result<(), String> {
    let g = sorted(got);
    let w = sorted(want.iter().map(|s| s.to_string()).collect());
    outcome(h64(&g));
    if g == w {
        Ok(())
    } else {
        Err(format!("logged {:?} instead of {:?}", g, w))
    }
}

/// white space or zeros in a valid version that do not belong there
fn extra(p: &[u8]) -> bool {
    let p = trim(p);
    !(p.len() == 8 && p[..5].eq_ignore_ascii_case(b"HTTP/"))
}

fn line_codes(l: &[u8], space: bool) -> Vec<&'static str> {
    let mut v = vec![];
    if ws(l[0]) {
        v.push("REQUEST_LINE_LEADING_WHITESPACE");
    }
    let ms = l.iter().position(|&c| !ws(c)).unwrap_or(l.len());
    let me = ms + l[ms..].iter().position(|&c| ws(c)).unwrap_or(l.len() - ms);
    let unknown = method_number(&l[ms..me]) == "UNKNOWN";
    let rs = me + l[me..].iter().position(|&c| !ws(c)).unwrap_or(l.len() - me);
    if l[me..rs].iter().any(|&c| c != b' ') {
        v.push("METHOD_DELIM_NON_COMPLIANT");
    }
    let rest = trim(&l[rs..]);
    if rest.is_empty() {
        if unknown {
            v.push("REQUEST_LINE_UNKNOWN_METHOD");
        }
        return v;
    }
    let find = |f: &dyn Fn(&u8) -> bool| if space { rest.iter().rposition(f) } else { rest.iter().position(f) };
    if !rest.contains(&b' ') && rest.iter().any(|&c| ws(c)) {
        v.push("URI_DELIM_NON_COMPLIANT");
    }
    let cut = find(&|c| *c == b' ').or_else(|| find(&|c| ws(*c)));
    match cut {
        None => {
            if unknown {
                v.push("REQUEST_LINE_UNKNOWN_METHOD_NO_PROTOCOL");
            }
        }
        Some(k) => {
            let p = &rest[k..];
            let n = version(p);
            if n == -2 {
                if unknown {
                    v.push("REQUEST_LINE_UNKNOWN_METHOD_INVALID_PROTOCOL");
                }
            } else if extra(p) {
                v.push("PROTOCOL_CONTAINS_EXTRA_DATA");
            }
        }
    }
    v
}

fn run_line(c: &Config, l: &[u8], space: bool) -> Result<(), String> {
    reset();
    let mut p = P::new(c.clone());
    p.req(&[l, b"\r\n\r\n"].concat());
    transitions(1);
    codes(p.logs(), &line_codes(l, space))
}

/// text, code of the invalidity it has (which is only logged for the first one of the
/// transaction), its name
struct F {
    text: &'static str,
    name: &'static str,
    /// 0 none, 1 invalid field, 2 missing colon, 3 leading white space (first line only)
    class: u8,
    q: &'static str,
    s: &'static str,
}
const FIELDS: &[F] = &[
    F { text: "A: 1", name: "a", class: 0, q: "", s: "" },
    F { text: "a:2", name: "a", class: 0, q: "", s: "" },
    F { text: "B: ok~ folded", name: "b", class: 0, q: "", s: "" },
    F { text: "C : v", name: "c", class: 1, q: "REQUEST_INVALID_LWS_AFTER_NAME", s: "RESPONSE_INVALID_LWS_AFTER_NAME" },
    F { text: "a(b: v", name: "a(b", class: 1, q: "REQUEST_HEADER_INVALID", s: "RESPONSE_HEADER_NAME_NOT_TOKEN" },
    F { text: ": v", name: "", class: 1, q: "REQUEST_INVALID_EMPTY_NAME", s: "RESPONSE_INVALID_EMPTY_NAME" },
    F { text: "junk", name: "", class: 2, q: "REQUEST_FIELD_MISSING_COLON", s: "RESPONSE_FIELD_MISSING_COLON" },
    F { text: "more junk", name: "", class: 2, q: "REQUEST_FIELD_MISSING_COLON", s: "RESPONSE_FIELD_MISSING_COLON" },
    F { text: "Content-Length: 0", name: "content-length", class: 0, q: "", s: "" },
    F { text: "content-length: 00", name: "content-length", class: 0, q: "", s: "" },
    F { text: "Content-Length: 3", name: "content-length", class: 0, q: "", s: "" },
    F { text: "Content-Length: +0", name: "content-length", class: 0, q: "", s: "" },
    F { text: "Content-Length: 0 z", name: "content-length", class: 0, q: "", s: "" },
    F { text: "X: 1", name: "x", class: 0, q: "", s: "" },
];

fn cl(f: &F) -> u64 {
    if f.text.contains('3') {
        3
    } else {
        0
    }
}

fn field_codes(fs: &[&F], resp: bool, invalid: &mut bool, nocolon: &mut bool) -> Vec<&'static str> {
    let mut v = vec![];
    let mut seen: Vec<(&str, u32)> = vec![];
    for f in fs {
        let code = if resp { f.s } else { f.q };
        match f.class {
            1 if !*invalid => {
                v.push(code);
                *invalid = true;
            }
            2 if !*nocolon => {
                v.push(code);
                *nocolon = true;
            }
            _ => {}
        }
        match seen.iter_mut().find(|s| s.0 == f.name) {
            Some(s) => {
                s.1 += 1;
                if s.1 == 2 {
                    v.push(if resp { "RESPONSE_HEADER_REPETITION" } else { "REQUEST_HEADER_REPETITION" });
                }
                if f.name == "content-length" {
                    let first = fs.iter().find(|x| x.name == f.name).unwrap();
                    if cl(first) != cl(f) {
                        v.push(if resp { "DUPLICATE_CONTENT_LENGTH_FIELD_IN_RESPONSE" } else { "DUPLICATE_CONTENT_LENGTH_FIELD_IN_REQUEST" });
                    }
                }
            }
            None => seen.push((f.name, 1)),
        }
    }
    if let Some(f) = fs.iter().find(|f| f.name == "content-length") {
        if f.text.contains('+') {
            v.push("CONTENT_LENGTH_EXTRA_DATA_START");
        }
        if f.text.contains('z') {
            v.push("CONTENT_LENGTH_EXTRA_DATA_END");
        }
    }
    v
}

fn block(fs: &[&F]) -> (Vec<u8>, Vec<u8>) {
    let mut b = vec![];
    for f in fs {
        b.extend_from_slice(f.text.replace('~', "\r\n").as_bytes());
        b.extend_from_slice(b"\r\n");
    }
    b.extend_from_slice(b"\r\n");
    let body = fs.iter().find(|f| f.name == "content-length").map_or(0, |f| cl(f));
    (b, b"abc"[..body as usize].to_vec())
}

fn run_fields(q: &[&F], s: &[&F]) -> Result<(), String> {
    let (mut inv, mut noc) = (false, false);
    let mut w = field_codes(q, false, &mut inv, &mut noc);
    reset();
    let mut p = P::new(cfg_default());
    let (h, b) = block(q);
    p.req(&[b"GET / HTTP/1.1\r\n", &h[..], &b[..]].concat());
    codes(p.logs(), &w)?;
    w = field_codes(s, true, &mut inv, &mut noc);
    let (h, b) = block(s);
    p.resp(&[b"HTTP/1.1 200 OK\r\n", &h[..], &b[..]].concat());
    transitions(2);
    codes(p.logs(), &w)
}

/// Whole exchanges: request, response, codes with their level (E error, W warning).
type X = (&'static [u8], &'static [u8], &'static [(&'static str, char)]);
const Q: &[u8] = b"GET / HTTP/1.1\r\nHost: h\r\n\r\n";
const S: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";
const EXCH: &[X] = &[
    (Q, S, &[]),
    (b"\tGET\t/\tHTTP/01.1\r\nH: h\r\nh:\r\n\r\n", S, &[("REQUEST_LINE_LEADING_WHITESPACE", 'W'), ("METHOD_DELIM_NON_COMPLIANT", 'W'), ("URI_DELIM_NON_COMPLIANT", 'W'), ("PROTOCOL_CONTAINS_EXTRA_DATA", 'W'), ("REQUEST_HEADER_REPETITION", 'W')]),
    (b"FOO / JUNK\r\n\r\n", S, &[("REQUEST_LINE_UNKNOWN_METHOD_INVALID_PROTOCOL", 'W')]),
    (b"GET /\r\nHost: h\r\n\r\n", S, &[("REQUEST_LINE_NO_PROTOCOL", 'W')]),
    (b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1;x\r\na\r\n1;y=\"z\"\r\nb\r\n0;z\r\n\r\n", S, &[("REQUEST_CHUNK_EXTENSION", 'W'), ("REQUEST_CHUNK_EXTENSION", 'W'), ("REQUEST_CHUNK_EXTENSION", 'W')]),
    (b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n80000000\r\n", b"", &[("INVALID_REQUEST_CHUNK_LEN", 'E')]),
    (b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\nzz", b"", &[("INVALID_REQUEST_CHUNK_LEN", 'E')]),
    (Q, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1;x\r\na\r\n0\r\n\r\n", &[("RESPONSE_CHUNK_EXTENSION", 'W')]),
    (Q, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nxyz\r\nabc", &[("INVALID_RESPONSE_CHUNK_LEN", 'E')]),
    (Q, b"HTTP/1.0 200 OK\r\nTransfer-Encoding: gzip, chunked\r\n\r\n0\r\n\r\n", &[("RESPONSE_ABNORMAL_TRANSFER_ENCODING", 'W'), ("RESPONSE_CHUNKED_OLD_PROTO", 'W')]),
    (Q, b"HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", &[("INVALID_CONTENT_LENGTH_FIELD_IN_RESPONSE", 'E')]),
    (Q, b"HTTP/1.1 200 OK\r\nContent-Type: multipart/byteranges\r\n\r\n", &[("RESPONSE_MULTIPART_BYTERANGES", 'E')]),
    (Q, b"HTTP/1.9 2000 OK\r\nContent-Length: 0\r\n\r\n", &[("RESPONSE_LINE_INVALID_PROTOCOL", 'W'), ("RESPONSE_LINE_INVALID_RESPONSE_STATUS", 'W')]),
    (Q, b"HTTP/1.1 304 N\r\nContent-Length: 2\r\n\r\nab", &[("RESPONSE_BODY_UNEXPECTED", 'W')]),
    (Q, b"HTTP/1.1 100 C\r\n\r\nHTTP/1.1 100 C\r\n\r\nHTTP/1.1 200 K\r\nContent-Length: 0\r\n\r\n", &[("CONTINUE_ALREADY_SEEN", 'E')]),
    (Q, b"HTTP/1.1 101 S\r\nContent-Length: 2\r\n\r\nab", &[("SWITCHING_PROTO_WITH_CONTENT_LENGTH", 'W'), ("RESPONSE_BODY_UNEXPECTED", 'W')]),
    (b"", b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", &[("UNABLE_TO_MATCH_RESPONSE_TO_REQUEST", 'E')]),
    (Q, b"HTTP/1.1 200 OK\r\nA: 1\n\r B: 2\r\nContent-Length: 0\r\n\r\n", &[]),
    (b"POST / HTTP/1.1\r\nContent-Length: 1\r\nContent-Encoding: gzip;q=1, foo\r\n\r\na", S, &[]),
    (b"POST / HTTP/1.1\r\nContent-Length: 2\r\n\r\nabJUNK\r\n\r\n", S, &[("REQUEST_BODY_UNEXPECTED", 'W')]),
    (Q, b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip;q=1, foo\r\nContent-Length: 0\r\n\r\n", &[("ABNORMAL_CE_HEADER", 'W'), ("ABNORMAL_CE_HEADER", 'W')]),
    (Q, b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip, gzip, gzip\r\nContent-Length: 0\r\n\r\n", &[("TOO_MANY_ENCODING_LAYERS", 'W')]),
];
/// Histories of calls: set the configuration, drive the parser, codes with level (I info).
type Script = (&'static str, fn(&mut Config), fn(&mut P), &'static [(&'static str, char)]);
fn nocfg(_: &mut Config) {}
fn limit(c: &mut Config) {
    c.set_field_limit(40);
}
fn double(c: &mut Config) {
    c.set_double_decode_normalized_path(true);
    c.set_double_decode_normalized_query(true);
}
fn stop(_: &mut htp::transaction::Transaction) -> Result<(), htp::HtpStatus> {
    Err(htp::HtpStatus::STOP)
}
fn stopcfg(c: &mut Config) {
    c.hook_request_line.register(stop);
}
const LONG: &[u8] = b"GET /0123456789012345678901234567890123456789012345678901234567890123456789";
const SCRIPTS: &[Script] = &[
    ("open twice", nocfg, |p| p.c.open(None, Some(32768), None, Some(80), None), &[("CONNECTION_ALREADY_OPEN", 'E')]),
    ("gap in the head", nocfg, |p| { p.req(b"GET / HTTP/1.1\r\nA: "); p.req_gap(5); }, &[("INVALID_GAP", 'E')]),
    ("gap in the response head", nocfg, |p| { p.req(Q); p.resp(b"HTTP/1.1 200 OK\r\nA: "); p.resp_gap(5); }, &[("INVALID_GAP", 'E')]),
    ("gap in a body", nocfg, |p| { p.req(b"POST / HTTP/1.1\r\nContent-Length: 6\r\n\r\n"); p.req_gap(5); }, &[]),
    ("long line", limit, |p| { p.req(LONG); }, &[("REQUEST_FIELD_TOO_LONG", 'E')]),
    ("long status line", limit, |p| { p.req(Q); p.resp(b"HTTP/1.1 200 "); p.resp(&LONG[4..]); }, &[("RESPONSE_FIELD_TOO_LONG", 'E')]),
    ("after an error", limit, |p| { p.req(LONG); p.req(Q); p.req(Q); }, &[("REQUEST_FIELD_TOO_LONG", 'E'), ("PARSER_STATE_ERROR", 'E'), ("PARSER_STATE_ERROR", 'E')]),
    ("after a response error", nocfg, |p| { p.req(Q); p.resp(b"HTTP/1.1 200 K\r\nContent-Length: x\r\n\r\n"); p.resp(S); }, &[("INVALID_CONTENT_LENGTH_FIELD_IN_RESPONSE", 'E'), ("PARSER_STATE_ERROR", 'E')]),
    ("after a stop", stopcfg, |p| { p.req(Q); p.req(Q); }, &[("PARSER_STATE_ERROR", 'I')]),
    ("empty chunk", nocfg, |p| { p.req(b""); }, &[("ZERO_LENGTH_DATA_CHUNKS", 'E')]),
    ("empty response chunk", nocfg, |p| { p.req(Q); p.resp(b""); }, &[("ZERO_LENGTH_DATA_CHUNKS", 'E')]),
    ("double encoded path", double, |p| { p.req(b"GET /%2541 HTTP/1.1\r\nHost: h\r\n\r\n"); }, &[("DOUBLE_ENCODED_URI", 'W')]),
    ("double encoded query", double, |p| { p.req(b"GET /?%2541 HTTP/1.1\r\nHost: h\r\n\r\n"); }, &[("DOUBLE_ENCODED_URI", 'W')]),
    ("double encoded both", double, |p| { p.req(b"GET /%2541?%2541 HTTP/1.1\r\nHost: h\r\n\r\n"); }, &[("DOUBLE_ENCODED_URI", 'W'), ("DOUBLE_ENCODED_URI", 'W')]),
    ("encoded once", double, |p| { p.req(b"GET /%41?%41 HTTP/1.1\r\nHost: h\r\n\r\n"); }, &[]),
    ("double encoded, not configured", nocfg, |p| { p.req(b"GET /%2541?%2541 HTTP/1.1\r\nHost: h\r\n\r\n"); }, &[]),
    ("response before the request line", nocfg, |p| { p.req(b"GET "); p.resp(S); }, &[("REQUEST_LINE_INCOMPLETE", 'W')]),
    ("two exchanges", nocfg, |p| { p.req(b"FOO\r\n\r\n"); }, &[("REQUEST_LINE_UNKNOWN_METHOD", 'W')]),
    ("once per transaction", nocfg, |p| { p.req(b"GET /1 HTTP/1.1\r\nA : 1\r\nB : 2\r\n\r\nGET /2 HTTP/1.1\r\nA : 1\r\n\r\n"); }, &[("REQUEST_INVALID_LWS_AFTER_NAME", 'W'), ("REQUEST_INVALID_LWS_AFTER_NAME", 'W')]),
    ("leading white space", nocfg, |p| { p.req(b"GET /1 HTTP/1.1\r\n A: 1\r\nB: 2\r\n\r\n"); }, &[("INVALID_REQUEST_FIELD_FOLDING", 'W')]),
    ("leading white space in the response", nocfg, |p| { p.req(Q); p.resp(b"HTTP/1.1 200 K\r\n A: 1\r\nContent-Length: 0\r\n\r\n"); }, &[("INVALID_RESPONSE_FIELD_FOLDING", 'W')]),
    ("deformed line ends", nocfg, |p| { p.req(Q); p.resp(b"HTTP/1.1 200 K\r\nK:deformed folded\n\r V\n\r\r\n\n"); }, &[("DEFORMED_EOL", 'W')]),
];
fn run_script(x: &Script, lv: L) -> Result<(), String> {
    let mut c = cfg_default();
    c.log_level = lv;
    (x.1)(&mut c);
    reset();
    let mut p = P::new(c);
    (x.2)(&mut p);
    transitions(p.calls);
    let min = |l: char| match l {
        'E' => L::ERROR,
        'W' => L::WARNING,
        _ => L::INFO,
    };
    let want: Vec<&str> = x.3.iter().filter(|(_, l)| lv >= min(*l)).map(|x| x.0).collect();
    let logs = p.c.conn.get_logs();
    codes(logs.iter().map(|l| format!("{:?}", l.msg.code)).collect(), &want)?;
    for l in &logs {
        let e = x.3.iter().find(|x| x.0 == format!("{:?}", l.msg.code)).unwrap();
        same("level", l.msg.level, min(e.1))?;
    }
    Ok(())
}
const LEVELS: [L; 7] = [L::NONE, L::ERROR, L::WARNING, L::NOTICE, L::INFO, L::DEBUG, L::DEBUG2];

fn run_exchange(x: &X, lv: L, next: bool, cut: Option<usize>) -> Result<(Vec<Option<TxSnap>>, Vec<String>), String> {
    let mut c = cfg_default();
    c.log_level = lv;
    reset();
    let mut p = P::new(c);
    let (q, s, w) = x;
    let k = cut.unwrap_or(usize::MAX);
    for (b, req) in [(*q, true), (*s, false)] {
        let k = k.min(b.len());
        for part in [&b[..k], &b[k..]] {
            if !part.is_empty() {
                if req {
                    p.req(part);
                } else {
                    p.resp(part);
                }
            }
        }
    }
    transitions(p.calls);
    let logs: Vec<_> = if next {
        let mut v = vec![];
        while let Some(l) = p.c.conn.get_next_log() {
            v.push(l);
            if v.len() > 100 {
                return Err("the log does not end".into());
            }
        }
        v
    } else {
        p.c.conn.get_logs()
    };
    let want: Vec<&str> = w.iter().filter(|(_, l)| lv >= if *l == 'E' { L::ERROR } else { L::WARNING }).map(|x| x.0).collect();
    codes(logs.iter().map(|l| format!("{:?}", l.msg.code)).collect(), &want)?;
    for l in &logs {
        let e = w.iter().find(|x| x.0 == format!("{:?}", l.msg.code)).unwrap();
        same("level", l.msg.level, if e.1 == 'E' { L::ERROR } else { L::WARNING })?;
        same("ports", (l.client_port, l.server_port), (Some(32768), Some(80)))?;
        same("message is empty", l.msg.msg.is_empty(), false)?;
    }
    same("logs left", p.logs().len(), 0)?;
    let order = logs.iter().map(|l| format!("{:?} {}", l.msg.code, l.msg.msg)).collect();
    Ok((p.txs().into_iter().map(|t| t.map(|t| t.no_packet_flag())).collect(), order))
}

fn contains_nocase(v: &[u8], n: &[u8]) -> bool {
    let v: Vec<u8> = v.iter().filter(|c| **c != 0).cloned().collect();
    v.windows(n.len()).any(|w| w.eq_ignore_ascii_case(n))
}
/// What reading a length value logs, and the length.
fn length(v: &[u8], log: &mut Vec<&'static str>) -> Option<u64> {
    let a = v.iter().position(|c| c.is_ascii_digit())?;
    let n = v[a..].iter().take_while(|c| c.is_ascii_digit()).count();
    if a > 0 {
        log.push("CONTENT_LENGTH_EXTRA_DATA_START");
    }
    if a + n < v.len() {
        log.push("CONTENT_LENGTH_EXTRA_DATA_END");
    }
    std::str::from_utf8(&v[a..a + n]).unwrap().parse().ok()
}

const TES: &[&[u8]] = &[b"", b"chunked", b"Chunked", b"gzip, chunked", b"ch\0unked", b"identity", b"chunked;x"];
const CLS: &[&[&[u8]]] = &[&[], &[b"0"], &[b"3"], &[b"003"], &[b"+3"], &[b"3x"], &[b"x3 y"], &[b"abc"], &[b"99999999999999999999"], &[b"3", b"3"], &[b"3", b"03"], &[b"3", b"4"], &[b"3", b"z"], &[b"+3", b"3"]];
const CTS: &[&[u8]] = &[b"", b"text/html", b"multipart/byteranges; boundary=x", b"Multipart/ByteRanges", b"x/y;multipart/byteranges"];

/// Framing: every combination of version, status, transfer coding, length and type.
fn framing_codes(req: bool, head: bool, ver: &str, status: u16, te: &[u8], cl: &[&[u8]], ct: &[u8]) -> (Vec<&'static str>, bool) {
    let mut v = vec![];
    let bad = !matches!(ver, "HTTP/1.0" | "HTTP/1.1");
    if cl.len() == 2 {
        v.push(if req { "REQUEST_HEADER_REPETITION" } else { "RESPONSE_HEADER_REPETITION" });
        let mut x = vec![];
        let (a, b) = (length(cl[0], &mut x), length(cl[1], &mut x));
        if a.is_none() || b.is_none() || a != b {
            v.push(if req { "DUPLICATE_CONTENT_LENGTH_FIELD_IN_REQUEST" } else { "DUPLICATE_CONTENT_LENGTH_FIELD_IN_RESPONSE" });
        }
    }
    if req {
        if te.is_empty() && !cl.is_empty() {
            length(cl[0], &mut v);
        }
        return (v, false);
    }
    if bad {
        v.push("RESPONSE_LINE_INVALID_PROTOCOL");
    }
    let none = te.is_empty() && cl.is_empty();
    if status == 101 {
        if none {
            return (v, false);
        }
        v.push("SWITCHING_PROTO_WITH_CONTENT_LENGTH");
    }
    if status == 100 && te.is_empty() {
        let n = cl.first().and_then(|c| length(c, &mut v));
        if n.unwrap_or(0) == 0 {
            return (v, false);
        }
    }
    if head {
        return (v, false);
    }
    if status < 200 || status == 204 || status == 304 {
        if none {
            return (v, false);
        }
        v.push("RESPONSE_BODY_UNEXPECTED");
    }
    if contains_nocase(te, b"chunked") {
        if !te.eq_ignore_ascii_case(b"chunked") {
            v.push("RESPONSE_ABNORMAL_TRANSFER_ENCODING");
        }
        if ver != "HTTP/1.1" {
            v.push("RESPONSE_CHUNKED_OLD_PROTO");
        }
    } else if !cl.is_empty() {
        if length(cl[0], &mut v).is_none() {
            v.push("INVALID_CONTENT_LENGTH_FIELD_IN_RESPONSE");
            return (v, true);
        }
    } else {
        let t = ct.split(|c| matches!(c, b';' | b' ')).next().unwrap();
        if contains_nocase(t, b"multipart/byteranges") {
            v.push("RESPONSE_MULTIPART_BYTERANGES");
            return (v, true);
        }
    }
    (v, false)
}

fn framing(ctx: &Ctx) {
    let vers = ["HTTP/1.1", "HTTP/1.0", "HTTP/1.2", "HTTP/2.0"];
    let sts = [100u16, 101, 102, 199, 200, 204, 206, 304, 404, 999];
    let jobs = vers.len() * TES.len() * CLS.len();
    ctx.par(jobs, |i| format!("framing {}", i), |i| {
        let ver = vers[i % vers.len()];
        let te = TES[i / vers.len() % TES.len()];
        let cl = CLS[i / vers.len() / TES.len()];
        for ct in CTS {
            for order in 0..2 {
                let mut h: Vec<u8> = vec![];
                let mut line = |n: &[u8], v: &[u8]| h.extend_from_slice(&[n, b": ", v, b"\r\n"].concat());
                if order == 0 && !te.is_empty() {
                    line(b"Transfer-Encoding", te);
                }
                for (k, c) in cl.iter().enumerate() {
                    line(if k == 0 { b"Content-Length" } else { b"content-length" }, c);
                }
                if !ct.is_empty() {
                    line(b"Content-Type", ct);
                }
                if order == 1 && !te.is_empty() {
                    line(b"Transfer-Encoding", te);
                }
                h.extend_from_slice(b"\r\n");
                // of a request
                let m = [b"POST / ", ver.as_bytes(), b"\r\nHost: h\r\n", &h[..]].concat();
                for cut in [m.len(), m.len() / 2, m.len() - 1, 1] {
                    begin(&[&m, cut.to_string().as_bytes()]);
                    nontrivial();
                    put(ctx, "request framing", &m, guarded(|| {
                        reset();
                        let mut p = P::new(cfg_default());
                        for x in crate::gen::segments(&m, &[cut]) {
                            p.req(x);
                        }
                        transitions(p.calls);
                        codes(p.logs(), &framing_codes(true, false, ver, 0, te, cl, ct).0)
                    }));
                }
                // of a response
                for st in sts {
                    for head in [false, true] {
                        let m = [ver.as_bytes(), b" ", st.to_string().as_bytes(), b" R\r\n", &h[..]].concat();
                        for cut in [m.len(), m.len() / 2, m.len() - 1] {
                            begin(&[&m, format!("{} {}", head, cut).as_bytes()]);
                            nontrivial();
                            put(ctx, "response framing", &[if head { &b"HEAD "[..] } else { b"" }, &m].concat(), guarded(|| {
                                reset();
                                let mut p = P::new(cfg_default());
                                p.req(if head { b"HEAD / HTTP/1.1\r\nHost: h\r\n\r\n" } else { Q });
                                let mut st2 = htp::connection_parser::HtpStreamState::DATA;
                                for x in crate::gen::segments(&m, &[cut]) {
                                    st2 = p.resp(x);
                                }
                                transitions(p.calls);
                                let (w, fail) = framing_codes(false, head, ver, st, te, cl, ct);
                                codes(p.logs(), &w)?;
                                if fail != (st2 == htp::connection_parser::HtpStreamState::ERROR) {
                                    return Err(format!("answered {:?}", st2));
                                }
                                Ok(())
                            }));
                        }
                    }
                }
            }
        }
    });
    // content codings: every list of up to 4
    let toks: [&[u8]; 9] = [b"gzip", b"x-gzip", b"GZip", b"deflate", b"deflate;q", b"lzma", b"none", b"foo", b"xgzipx"];
    let n = ctx.pick(4, 5);
    ctx.par(toks.len().pow(n as u32), |i| format!("codings {}", i), |i| {
        let mut list: Vec<&[u8]> = (0..n).map(|k| toks[i / toks.len().pow(k as u32) % toks.len()]).collect();
        let seps: [&[u8]; 3] = [b", ", b",", b"  "];
        for len in 1..=n {
            if len < n && i >= toks.len().pow(len as u32) {
                continue;
            }
            let l = &list[..len];
            for sep in seps {
                let v = l.join(sep);
                // a single well-known name is not a list
                let single = len == 1 && !matches!(l[0], b"deflate;q" | b"foo" | b"xgzipx");
                let want = |req: bool, limit: usize, lz: usize| -> Vec<&'static str> {
                    let mut w = vec![];
                    if single {
                        return w;
                    }
                    let mut z = 0;
                    for (k, t) in l.iter().enumerate() {
                        if k + 1 > limit {
                            w.push("TOO_MANY_ENCODING_LAYERS");
                            break;
                        }
                        match *t {
                            b"GZip" | b"xgzipx" | b"deflate;q" | b"foo" => w.push("ABNORMAL_CE_HEADER"),
                            b"lzma" => {
                                z += 1;
                                if z > lz {
                                    w.push(if req { "REQUEST_TOO_MANY_LZMA_LAYERS" } else { "RESPONSE_TOO_MANY_LZMA_LAYERS" });
                                    break;
                                }
                            }
                            _ => {}
                        }
                    }
                    w
                };
                for (limit, lz) in [(2usize, 1usize), (3, 1), (10, 2)] {
                    begin(&[&v, format!("{} {}", limit, lz).as_bytes()]);
                    nontrivial();
                    put(ctx, &format!("codings limits {} {}", limit, lz), &v, guarded(|| {
                        reset();
                        let mut c = cfg_default();
                        c.set_request_decompression(true);
                        c.set_decompression_layer_limit(Some(limit as u32));
                        c.compression_options.set_lzma_layers(Some(lz as u32));
                        let mut p = P::new(c);
                        p.req(&[b"POST / HTTP/1.1\r\nHost: h\r\nContent-Encoding: ", &v[..], b"\r\nContent-Length: 0\r\n\r\n"].concat());
                        codes(p.logs(), &want(true, limit, lz)).map_err(|m| format!("request: {}", m))?;
                        p.resp(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: ", &v[..], b"\r\nContent-Length: 0\r\n\r\n"].concat());
                        transitions(p.calls);
                        codes(p.logs(), &want(false, limit, lz)).map_err(|m| format!("response: {}", m))
                    }));
                }
            }
        }
        list.clear();
    });
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule("every request line of up to the bound of tokens, every request and response with up to three header lines of each kind, and a table of exchanges with every other logged anomaly at every log level and every cut; the logged codes have to be exactly those of the constructs present. Non-trivial: always.");
    framing(ctx);
    // any number of entries, read at once, one by one, or mixed
    ctx.par(ctx.pick(70, 400), |i| format!("{} entries", i), |i| {
        for mode in 0..4 {
            begin(&[format!("{} entries, mode {}", i, mode).as_bytes()]);
            put(ctx, "many", format!("{} entries, mode {}", i, mode).as_bytes(), guarded(|| {
                reset();
                let mut p = P::new(cfg_default());
                for k in 0..i {
                    // a different anomaly every time
                    p.req(match k % 3 {
                        0 => b"GET / HTTP/1.1\r\nHost: h\r\nA : 1\r\n\r\n",
                        1 => b"GET / HTTP/1.1\r\nHost: h\r\njunk\r\n\r\n",
                        _ => b" GET / HTTP/1.1\r\nHost: h\r\n\r\n",
                    });
                }
                transitions(p.calls);
                let mut got: Vec<String> = vec![];
                let name = |l: &htp::log::Log| format!("{:?}", l.msg.code);
                match mode {
                    0 => got.extend(p.c.conn.get_logs().iter().map(name)),
                    1 => {
                        while let Some(l) = p.c.conn.get_next_log() {
                            got.push(name(&l));
                        }
                    }
                    2 => {
                        got.extend(p.c.conn.get_next_log().iter().map(name));
                        got.extend(p.c.conn.get_logs().iter().map(name));
                    }
                    _ => {
                        // what has been read does not come back, what is logged later does
                        got.extend(p.c.conn.get_logs().iter().map(name));
                        same("entries left", p.c.conn.get_logs().len(), 0)?;
                        same("an entry is left", p.c.conn.get_next_log().is_none(), true)?;
                        p.req(b" GET / HTTP/1.1\r\nHost: h\r\n\r\n");
                        let l = p.logs();
                        same("entries after the read", l.len(), 1)?;
                    }
                }
                let want: Vec<String> = (0..i)
                    .map(|k| ["REQUEST_INVALID_LWS_AFTER_NAME", "REQUEST_FIELD_MISSING_COLON", "REQUEST_LINE_LEADING_WHITESPACE"][k % 3].to_string())
                    .collect();
                same("entries", got, want)
            }));
        }
    });
    let mut sp = cfg_default();
    sp.set_allow_space_uri(true);
    let cf = cfg_default();
    let toks: &[&[u8]] = &[b"GET", b"FOO", b"/", b" ", b"\t", b"HTTP/1.1", b"HTTP/ 01.0", b"http /1.1", b"HTTP/1.2", b"x"];
    tokens(ctx, toks, ctx.pick(5, 6), |l| {
        if trim(l).is_empty() || l.windows(3).any(|w| w == b"0.9") {
            return;
        }
        begin(&[l]);
        nontrivial();
        put(ctx, "line", l, guarded(|| run_line(&cf, l, false)));
        put(ctx, "line-space", l, guarded(|| run_line(&sp, l, true)));
    });
    // header fields: up to n in the request and m in the response
    let n = FIELDS.len();
    let lists = |k: usize| -> Vec<Vec<&'static F>> {
        let mut all: Vec<Vec<&'static F>> = vec![vec![]];
        let mut last = all.clone();
        for _ in 0..k {
            let mut nx = vec![];
            for l in &last {
                for f in FIELDS {
                    let mut l = l.clone();
                    l.push(f);
                    nx.push(l);
                }
            }
            all.extend(nx.iter().cloned());
            last = nx;
        }
        all
    };
    let _ = n;
    let (l1, l2, l3, l4) = (lists(1), lists(2), lists(3), lists(ctx.pick(4, 5)));
    let d = |q: &[&F], s: &[&F]| format!("{} / {}", q.iter().map(|f| f.text).collect::<Vec<_>>().join("|"), s.iter().map(|f| f.text).collect::<Vec<_>>().join("|"));
    let go = |q: &[&F], s: &[&F]| {
        // a response needs a framing to end
        let t = d(q, s);
        begin(&[t.as_bytes()]);
        nontrivial();
        put(ctx, "fields", t.as_bytes(), guarded(|| run_fields(q, s)));
    };
    ctx.par(l4.len(), |i| d(&l4[i], &[]), |i| {
        if i % 5000 == 77 {
            ctx.sample(d(&l4[i], &[]));
        }
        go(&l4[i], &l1[0]);
        go(&[], &l4[i]);
    });
    ctx.par(l2.len(), |i| d(&l2[i], &[]), |i| {
        for s in &l2 {
            go(&l2[i], s);
        }
        if i < l1.len() {
            for s in &l3 {
                go(&l1[i], s);
                go(s, &l1[i]);
            }
        }
    });
    ctx.par(SCRIPTS.len(), |i| SCRIPTS[i].0.to_string(), |i| {
        for lv in LEVELS {
            begin(&[SCRIPTS[i].0.as_bytes(), format!("{:?}", lv).as_bytes()]);
            nontrivial();
            put(ctx, &format!("script {:?}", lv), SCRIPTS[i].0.as_bytes(), guarded(|| run_script(&SCRIPTS[i], lv)));
        }
    });
    // every level, both accessors, every cut
    ctx.par(EXCH.len(), |i| format!("exchange {}", i), |i| {
        let x = &EXCH[i];
        let base = guarded(|| run_exchange(x, L::NOTICE, false, None));
        begin(&[x.0, x.1]);
        nontrivial();
        let base = match base {
            Ok(Ok(b)) => b.0,
            Ok(Err(m)) => return put(ctx, "exchange", &[x.0, b" / ", x.1].concat(), Ok(Err(m))),
            Err(m) => return put(ctx, "exchange", &[x.0, b" / ", x.1].concat(), Err(m)),
        };
        for lv in LEVELS {
            for next in [false, true] {
                for cut in (0..x.0.len().max(x.1.len())).map(Some).chain([None]) {
                    // where a chunk ends decides what a 0.9 request and an invalid chunk length are
                    if cut.is_some() && x.2.iter().any(|c| c.0 == "REQUEST_LINE_NO_PROTOCOL" || c.0.contains("CHUNK_LEN") || c.0 == "REQUEST_BODY_UNEXPECTED") {
                        continue;
                    }
                    begin(&[x.0, x.1, format!("{:?}{}{:?}", lv, next, cut).as_bytes()]);
                    nontrivial();
                    let r = guarded(|| -> Result<(), String> {
                        let (t, order) = run_exchange(x, lv, next, cut)?;
                        if next {
                            same("entries of get_next_log", order, run_exchange(x, lv, false, cut)?.1)?;
                        }
                        if t != base {
                            return Err(format!("the transactions differ at log level {:?}", lv));
                        }
                        Ok(())
                    });
                    put(ctx, &format!("exchange {:?} {} {:?}", lv, next, cut), &[x.0, b" / ", x.1].concat(), r);
                }
            }
        }
    });
}
