//! Reference model: message specifications, their wire form, and what the parser must report
//! about them (computed from the specification, never from the parser).
#![allow(dead_code)]
use crate::gen::cat;
use crate::rec::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Fr {
    /// no body, no framing header
    None,
    Cl(Vec<u8>),
    Chunked {
        chunks: Vec<Vec<u8>>,
        /// chunk extensions: 0 none, 1 on the data chunks, 2 on the last chunk, 3 on all
        ext: u8,
        trailers: Vec<(&'static str, &'static str)>,
    },
    /// responses only: until the connection closes
    Close(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Req {
    pub method: &'static str,
    pub target: &'static str,
    pub ver: &'static str,
    pub eol: &'static str,
    pub hdrs: Vec<(&'static str, &'static str)>,
    pub fr: Fr,
    /// spelling of header lines and of the framing header
    pub style: usize,
}

#[derive(Clone, Debug)]
pub struct Resp {
    /// number of interim 100 responses in front, and their headers
    pub interim: Vec<Vec<(&'static str, &'static str)>>,
    pub ver: &'static str,
    pub status: u16,
    pub reason: &'static str,
    pub eol: &'static str,
    pub hdrs: Vec<(&'static str, &'static str)>,
    pub fr: Fr,
    /// the wire carries framing headers but no body bytes (HEAD)
    pub no_body: bool,
    pub style: usize,
}

/// Expected observations about one message.
#[derive(Clone, Debug, Default)]
pub struct Exp {
    pub head_line: Vec<u8>,
    /// name, value, repeated
    pub headers: Vec<(Vec<u8>, Vec<u8>)>,
    pub raw_headers: Vec<u8>,
    pub raw_trailer: Option<Vec<u8>>,
    pub body: Vec<u8>,
    pub message_len: u64,
    /// 1 none, 2 identity, 3 chunked
    pub coding: u8,
    pub content_length: Option<u64>,
    pub close_delimited: bool,
    pub interim_raw: Vec<Vec<u8>>,
}

fn table(hs: &[(String, String)]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut out: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for (n, v) in hs {
        if let Some(e) = out.iter_mut().find(|e| e.0.eq_ignore_ascii_case(n.as_bytes())) {
            // repeated headers are joined, except Content-Length which keeps the first value
            if !n.eq_ignore_ascii_case("content-length") {
                e.1.extend_from_slice(b", ");
                e.1.extend_from_slice(v.as_bytes());
            }
        } else {
            out.push((n.clone().into_bytes(), v.clone().into_bytes()));
        }
    }
    out
}

fn block(hs: &[(String, String)], eol: &str, style: usize) -> Vec<u8> {
    let mut v = vec![];
    for (n, x) in hs {
        v.extend_from_slice(
            match style % 3 {
                0 => format!("{}: {}{}", n, x, eol),
                1 => format!("{}:{}{}", n, x, eol),
                _ => format!("{}: \t {} \t{}", n, x, eol),
            }
            .as_bytes(),
        );
    }
    v.extend_from_slice(eol.as_bytes());
    v
}

const EXTS: [&[u8]; 4] = [b";n=v", b"; n=\"v\";m", b";", b";\t0"];

fn own(h: &[(&'static str, &'static str)]) -> Vec<(String, String)> {
    h.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

fn build(line: String, hdrs: &[(&'static str, &'static str)], eol: &str, fr: &Fr, no_body: bool, resp: bool, style: usize) -> (Vec<u8>, Exp) {
    let mut e = Exp { head_line: line.clone().into_bytes(), ..Default::default() };
    let mut hs = own(hdrs);
    let mut body_wire = vec![];
    match fr {
        Fr::None => e.coding = 1,
        Fr::Cl(b) => {
            let (n, v) = match style {
                0 => ("Content-Length", b.len().to_string()),
                1 => ("content-length", b.len().to_string()),
                2 => ("CONTENT-LENGTH", format!("00{}", b.len())),
                _ => ("Content-length", format!("0{}", b.len())),
            };
            hs.insert(if style < 3 { hs.len() } else { 0 }, (n.into(), v));
            e.content_length = Some(b.len() as u64);
            e.coding = 2;
            if !no_body {
                body_wire = b.clone();
                e.body = b.clone();
                e.message_len = b.len() as u64;
            }
        }
        Fr::Chunked { chunks, ext, trailers } => {
            let (n, v) = match style {
                0 => ("Transfer-Encoding", "chunked"),
                1 => ("transfer-encoding", "Chunked"),
                2 => ("TRANSFER-ENCODING", "CHUNKED"),
                _ => ("Transfer-encoding", "chunkeD"),
            };
            hs.insert(if style < 3 { hs.len() } else { 0 }, (n.into(), v.into()));
            e.coding = 3;
            if !no_body {
                for (i, c) in chunks.iter().enumerate() {
                    let h = match i % 3 {
                        0 => format!("{:x}", c.len()),
                        1 => format!("{:X}", c.len()),
                        _ => format!("00{:x}", c.len()),
                    };
                    body_wire.extend_from_slice(h.as_bytes());
                    if *ext & 1 != 0 {
                        body_wire.extend_from_slice(EXTS[i % EXTS.len()]);
                    }
                    body_wire.extend_from_slice(eol.as_bytes());
                    body_wire.extend_from_slice(c);
                    body_wire.extend_from_slice(eol.as_bytes());
                    e.body.extend_from_slice(c);
                }
                body_wire.extend_from_slice([&b"0"[..], b"000", b"00", b"0000"][style % 4]);
                if *ext & 2 != 0 {
                    body_wire.extend_from_slice(EXTS[chunks.len() % EXTS.len()]);
                }
                body_wire.extend_from_slice(eol.as_bytes());
                e.message_len = body_wire.len() as u64;
                let t = block(&own(trailers), eol, style);
                body_wire.extend_from_slice(&t);
                e.raw_trailer = Some(t);
            }
        }
        Fr::Close(b) => {
            e.coding = 2;
            e.close_delimited = true;
            e.body = b.clone();
            e.message_len = b.len() as u64;
            body_wire = b.clone();
        }
    }
    if no_body {
        e.coding = 1;
        if resp {
            e.content_length = None;
        }
    }
    let mut all = hs.clone();
    if let (Fr::Chunked { trailers, .. }, false) = (fr, no_body) {
        all.extend(own(trailers));
    }
    e.headers = table(&all);
    e.raw_headers = block(&hs, eol, style);
    let wire = cat(&[line.as_bytes(), eol.as_bytes(), &e.raw_headers, &body_wire]);
    (wire, e)
}

impl Req {
    pub fn build(&self) -> (Vec<u8>, Exp) {
        build(format!("{} {} {}", self.method, self.target, self.ver), &self.hdrs, self.eol, &self.fr, false, false, self.style)
    }
}
impl Resp {
    pub fn build(&self) -> (Vec<u8>, Exp) {
        let line = if self.reason.is_empty() {
            format!("{} {}", self.ver, self.status)
        } else {
            format!("{} {} {}", self.ver, self.status, self.reason)
        };
        let (w, mut e) = build(line, &self.hdrs, self.eol, &self.fr, self.no_body, true, self.style);
        let mut wire = vec![];
        for h in &self.interim {
            let raw = block(&own(h), self.eol, self.style);
            wire.extend_from_slice(b"HTTP/1.1 100 Continue");
            wire.extend_from_slice(self.eol.as_bytes());
            wire.extend_from_slice(&raw);
            e.interim_raw.push(raw);
        }
        wire.extend_from_slice(&w);
        (wire, e)
    }
}

pub fn proto(v: &str) -> i32 {
    match v {
        "HTTP/1.1" => 101,
        "HTTP/1.0" => 100,
        _ => -2,
    }
}

/// The exact request callbacks of one transaction (data merged, end markers collapsed).
pub fn req_events(e: &Exp, tx: usize) -> Vec<(H, D)> {
    let _ = tx;
    let mut v = vec![
        (H::REQ_START, D::Tx),
        (H::REQ_URI_NORMALIZE, D::Tx),
        (H::REQ_LINE, D::Tx),
        (H::REQ_HEADER_DATA, D::Bytes(e.raw_headers.clone())),
        (H::REQ_HEADERS, D::Tx),
    ];
    if !e.body.is_empty() {
        v.push((H::REQ_BODY_DATA, D::Bytes(e.body.clone())));
    }
    if let Some(t) = &e.raw_trailer {
        v.push((H::REQ_TRAILER_DATA, D::Bytes(t.clone())));
        v.push((H::REQ_TRAILER, D::Tx));
    }
    if e.coding != 1 {
        v.push((H::REQ_BODY_DATA, D::End));
    }
    v.push((H::REQ_COMPLETE, D::Tx));
    v
}

pub fn resp_events(e: &Exp) -> Vec<(H, D)> {
    let mut v = vec![(H::RESP_START, D::Tx)];
    for i in &e.interim_raw {
        v.push((H::RESP_LINE, D::Tx));
        v.push((H::RESP_HEADER_DATA, D::Bytes(i.clone())));
    }
    v.push((H::RESP_LINE, D::Tx));
    v.push((H::RESP_HEADER_DATA, D::Bytes(e.raw_headers.clone())));
    v.push((H::RESP_HEADERS, D::Tx));
    if !e.body.is_empty() {
        v.push((H::RESP_BODY_DATA, D::Bytes(e.body.clone())));
    }
    if let Some(t) = &e.raw_trailer {
        v.push((H::RESP_TRAILER_DATA, D::Bytes(t.clone())));
        v.push((H::RESP_TRAILER, D::Tx));
    }
    v.push((H::RESP_COMPLETE, D::Tx));
    v
}

/// Events of one side of one transaction, merged: consecutive data joined, empty data dropped,
/// repeated end markers collapsed.
pub fn side(ev: &[Ev], tx: usize, req: bool) -> Vec<(H, D)> {
    let mut out: Vec<(H, D)> = vec![];
    for e in ev {
        if e.tx != tx || e.h == H::TX_COMPLETE || e.h.is_req() != req {
            continue;
        }
        match &e.d {
            D::Bytes(b) if b.is_empty() => continue,
            D::Bytes(b) => {
                if let Some((h, D::Bytes(l))) = out.last_mut() {
                    if *h == e.h {
                        l.extend_from_slice(b);
                        continue;
                    }
                }
            }
            D::End => {
                if let Some((h, D::End)) = out.last() {
                    if *h == e.h {
                        continue;
                    }
                }
            }
            _ => {}
        }
        out.push((e.h, e.d.clone()));
    }
    out
}

pub fn show_events(v: &[(H, D)]) -> String {
    v.iter()
        .map(|(h, d)| match d {
            D::Tx => format!("{:?}", h),
            D::Bytes(b) => format!("{:?}[{}]", h, crate::eng::show(b)),
            D::Gap(n) => format!("{:?}(gap {})", h, n),
            D::End => format!("{:?}(end)", h),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Compare the request half of a finished transaction with its specification.
pub fn check_req(t: &TxSnap, r: &Req, e: &Exp) -> Result<(), String> {
    macro_rules! eq {
        ($n:expr, $a:expr, $b:expr) => {
            if $a != $b {
                return Err(format!("{}: got {:?}, expected {:?}", $n, $a, $b));
            }
        };
    }
    let b = |s: &str| Some(s.as_bytes().to_vec());
    eq!("request_line", t.request_line, Some(e.head_line.clone()));
    eq!("request_method", t.request_method, b(r.method));
    let mn = r.method.replace('-', "_");
    let mn = if mn.chars().all(|c| c.is_ascii_uppercase() || c == '_') && !matches!(r.method, "FOO" | "M-SEARCH") { mn } else { "UNKNOWN".into() };
    eq!("request_method_number", t.request_method_number, mn);
    eq!("request_uri", t.request_uri, b(r.target));
    eq!("request_protocol", t.request_protocol, b(r.ver));
    eq!("request_protocol_number", t.request_protocol_number, proto(r.ver));
    let hs: Vec<_> = t.request_headers.iter().map(|h| (h.0.clone(), h.1.clone())).collect();
    eq!("request_headers", hs, e.headers);
    eq!("request_transfer_coding", t.request_transfer_coding, e.coding);
    eq!("request_content_length", t.request_content_length, e.content_length);
    eq!("request_message_len", t.request_message_len, e.message_len);
    eq!("request_entity_len", t.request_entity_len, e.body.len() as u64);
    eq!("request_progress", t.rp, 5);
    Ok(())
}

pub fn check_resp(t: &TxSnap, r: &Resp, e: &Exp) -> Result<(), String> {
    macro_rules! eq {
        ($n:expr, $a:expr, $b:expr) => {
            if $a != $b {
                return Err(format!("{}: got {:?}, expected {:?}", $n, $a, $b));
            }
        };
    }
    let b = |s: &str| Some(s.as_bytes().to_vec());
    eq!("response_protocol", t.response_protocol, b(r.ver));
    eq!("response_protocol_number", t.response_protocol_number, proto(r.ver));
    eq!("response_status", t.response_status, b(&r.status.to_string()));
    eq!("response_status_number", t.response_status_number, format!("VALID({})", r.status));
    eq!(
        "response_message",
        t.response_message.clone().unwrap_or_default(),
        r.reason.as_bytes().to_vec()
    );
    let hs: Vec<_> = t.response_headers.iter().map(|h| (h.0.clone(), h.1.clone())).collect();
    eq!("response_headers", hs, e.headers);
    eq!("response_transfer_coding", t.response_transfer_coding, e.coding);
    eq!("response_content_length", t.response_content_length, e.content_length);
    eq!("response_message_len", t.response_message_len, e.message_len);
    eq!("response_entity_len", t.response_entity_len, e.body.len() as u64);
    eq!("seen_100continue", t.seen_100, !e.interim_raw.is_empty());
    eq!("response_progress", t.sp, 5);
    Ok(())
}

/// Compare the callbacks of both sides of transaction `i` with the specification.
pub fn check_events(ev: &[Ev], i: usize, q: &Exp, s: Option<&Exp>) -> Result<(), String> {
    let got = side(ev, i, true);
    let want = req_events(q, i);
    if got != want {
        return Err(format!("request callbacks of transaction {}: got {}, expected {}", i, show_events(&got), show_events(&want)));
    }
    if let Some(s) = s {
        let got = side(ev, i, false);
        let want = resp_events(s);
        if got != want {
            return Err(format!("response callbacks of transaction {}: got {}, expected {}", i, show_events(&got), show_events(&want)));
        }
        let done = ev.iter().filter(|e| e.h == H::TX_COMPLETE && e.tx == i).count();
        if done != 1 {
            return Err(format!("transaction {} reported complete {} times", i, done));
        }
        let last = ev.iter().rev().find(|e| e.tx == i).unwrap();
        if last.h != H::TX_COMPLETE {
            return Err(format!("{:?} after transaction_complete of transaction {}", last.h, i));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- message libraries

pub fn body_set(thorough: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        b"".to_vec(),
        b"a".to_vec(),
        b"\r\n".to_vec(),
        b"ab\ncd\r\n".to_vec(),
        b"\0\xff0\r\n\r\n".to_vec(),
        b"GET / HTTP/1.1\r\n\r\n".to_vec(),
        b"HTTP/1.1 200 OK\r\n\r\n".to_vec(),
        b" \r\nab".to_vec(),
        b"\r\r x".to_vec(),
        b"\n".to_vec(),
    ];
    if thorough {
        v.push(b"\r".to_vec());
        v.push(b"\r \n\ta".to_vec());
        v.push(b"A: b\r\n\r\n".to_vec());
        v.push(vec![b'x'; 300]);
        v.push(b"0\r\n".to_vec());
        v.push(b"\n\n\n".to_vec());
    }
    v
}

pub fn framings(resp: bool, thorough: bool) -> Vec<Fr> {
    let mut v = vec![];
    if !resp {
        v.push(Fr::None);
    }
    for b in body_set(thorough) {
        v.push(Fr::Cl(b));
    }
    let t: Vec<(&'static str, &'static str)> = vec![("T", "v"), ("U", "w x")];
    let chunkings: Vec<Vec<Vec<u8>>> = vec![
        vec![],
        vec![b"abc".to_vec()],
        vec![b"a".to_vec(), b"0123456789abcdef".to_vec(), b"\r\n".to_vec()],
        vec![b"0\r\n\r\n".to_vec(), b"\n".to_vec()],
        vec![vec![b'y'; 40]],
    ];
    for c in chunkings {
        v.push(Fr::Chunked { chunks: c.clone(), ext: 0, trailers: vec![] });
        v.push(Fr::Chunked { chunks: c.clone(), ext: 1, trailers: t.clone() });
        v.push(Fr::Chunked { chunks: c.clone(), ext: 0, trailers: t[..1].to_vec() });
        v.push(Fr::Chunked { chunks: c.clone(), ext: 2, trailers: vec![] });
        v.push(Fr::Chunked { chunks: c, ext: 3, trailers: t[..1].to_vec() });
    }
    if resp {
        for b in body_set(thorough) {
            v.push(Fr::Close(b));
        }
    }
    v
}

pub fn req(method: &'static str, target: &'static str, fr: Fr) -> Req {
    Req { method, target, ver: "HTTP/1.1", eol: "\r\n", hdrs: vec![("Host", "h")], fr, style: 0 }
}
pub fn resp(status: u16, reason: &'static str, fr: Fr) -> Resp {
    Resp { interim: vec![], ver: "HTTP/1.1", status, reason, eol: "\r\n", hdrs: vec![("Server", "s")], fr, no_body: false, style: 0 }
}
