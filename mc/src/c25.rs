//! C25: chunked framing of arbitrary bytes. A reference machine reads every byte string of a
//! bounded space as the body of a chunked message; body data, progress, counters, log and the
//! fate of the stream have to be the same, for every way of cutting the string.
use crate::c18::{put, same};
use crate::eng::*;
use crate::rec::*;
use crate::rec::H::*;
use htp::config::Config;
use htp::connection_parser::HtpStreamState as St;
use htp::transaction::{HtpRequestProgress as Q, HtpResponseProgress as R, HtpTransferCoding};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum M {
    Len,
    Data(u64),
    End,
    Trailer,
    Error,
    Identity,
}
pub struct Ref {
    m: M,
    body: Vec<u8>,
    /// bytes of complete size lines, data and line ends after data
    framed: u64,
    ext: usize,
    chunks: u64,
    /// where the trailer begins
    at: usize,
    /// a size the property does not speak about
    odd: bool,
}
impl Ref {
    pub fn odd(&self) -> bool {
        self.odd
    }
    pub fn at(&self) -> usize {
        self.at
    }
}
fn ctl(c: u8) -> bool {
    matches!(c, b'\r' | b'\n' | b' ' | b'\t' | 0x0b | 0x0c)
}

pub fn reference(s: &[u8], resp: bool) -> Ref {
    let mut r = Ref { m: M::Len, body: vec![], framed: 0, ext: 0, chunks: 0, at: s.len(), odd: false };
    let mut i = 0;
    while i < s.len() {
        match r.m {
            M::Len => {
                let end = s[i..].iter().position(|&c| c == b'\n').map(|e| i + e + 1);
                let line = &s[i..end.unwrap_or(s.len())];
                let k = line.iter().position(|&c| !ctl(c)).unwrap_or(line.len());
                let d = line[k..].iter().position(|c| !c.is_ascii_hexdigit()).unwrap_or(line.len() - k);
                let digits = &line[k..k + d];
                let bad = if resp { M::Identity } else { M::Error };
                if end.is_none() {
                    if k < line.len() && d == 0 {
                        r.m = bad;
                        if resp {
                            r.body.extend_from_slice(&s[i..]);
                        }
                    }
                    return r;
                }
                if k == line.len() && (resp || line == b"\n") {
                    r.framed += line.len() as u64;
                    i += line.len();
                    continue;
                }
                let v = digits.iter().try_fold(0u64, |v, &c| {
                    let n = (c as char).to_digit(16).unwrap() as u64;
                    if v >> 60 != 0 {
                        None
                    } else {
                        Some(v << 4 | n)
                    }
                });
                match v {
                    Some(v) if d > 0 && v < 1 << 31 => {
                        r.framed += line.len() as u64;
                        i += line.len();
                        if line[k + d..].contains(&b';') {
                            r.ext += 1;
                        }
                        r.chunks += 1;
                        r.m = if v == 0 { M::Trailer } else { M::Data(v) };
                    }
                    Some(_) if d > 0 && resp => {
                        r.odd = true;
                        return r;
                    }
                    _ => {
                        r.m = bad;
                        if resp {
                            r.body.extend_from_slice(&s[i..]);
                        }
                        return r;
                    }
                }
            }
            M::Data(n) => {
                let t = (n as usize).min(s.len() - i);
                r.body.extend_from_slice(&s[i..i + t]);
                r.framed += t as u64;
                i += t;
                r.m = if t as u64 == n { M::End } else { M::Data(n - t as u64) };
            }
            M::End => {
                let e = s[i..].iter().position(|&c| c == b'\n');
                let t = e.map(|e| e + 1).unwrap_or(s.len() - i);
                r.framed += t as u64;
                i += t;
                if e.is_some() {
                    r.m = M::Len;
                }
            }
            M::Trailer => {
                r.at = i;
                return r;
            }
            _ => unreachable!(),
        }
    }
    r
}

const QH: &[u8] = b"POST / HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n";
const SH: &[u8] = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n";
const GET: &[u8] = b"GET / HTTP/1.1\r\nHost: h\r\n\r\n";

/// One execution: the head, then the body in the given pieces.
pub fn run_one(c: &Config, s: &[u8], w: &Ref, resp: bool, pieces: &[&[u8]], close: bool) -> Result<(), String> {
    reset();
    let mut p = P::new(c.clone());
    let mut st = St::DATA;
    if resp {
        p.req(GET);
        p.resp(SH);
    } else {
        p.req(QH);
    }
    p.logs();
    for b in pieces {
        st = if resp { p.resp(b) } else { p.req(b) };
        if st == St::ERROR {
            break;
        }
    }
    transitions(p.calls);
    let t = p.tx(0).ok_or("no transaction")?;
    let ev = REC.with(|r| r.borrow().ev.clone());
    let (bh, len, msg, prog) = if resp {
        (RESP_BODY_DATA, t.response_entity_len, t.response_message_len, t.sp)
    } else {
        (REQ_BODY_DATA, t.request_entity_len, t.request_message_len, t.rp)
    };
    same("body", show(&body(&ev, bh, 0)), show(&w.body))?;
    same("entity length", len, w.body.len() as u64)?;
    let b = if resp { R::BODY as u8 } else { Q::BODY as u8 };
    let tr = if resp { R::TRAILER as u8 } else { Q::TRAILER as u8 };
    let logs = p.logs();
    let n = |c: &str| logs.iter().filter(|l| *l == c).count();
    let (x, inv) = if resp {
        ("RESPONSE_CHUNK_EXTENSION", "INVALID_RESPONSE_CHUNK_LEN")
    } else {
        ("REQUEST_CHUNK_EXTENSION", "INVALID_REQUEST_CHUNK_LEN")
    };
    same("chunk extensions logged", n(x), w.ext)?;
    same("invalid chunk lengths logged", n(inv), matches!(w.m, M::Error | M::Identity) as usize)?;
    same("things logged", logs.len(), w.ext + matches!(w.m, M::Error | M::Identity) as usize)?;
    match w.m {
        M::Error => same("status", st, St::ERROR)?,
        _ => same("status", st, St::DATA)?,
    }
    if w.m != M::Error {
        same("progress", prog, if w.m == M::Trailer { tr } else { b })?;
    }
    if resp {
        same("coding", t.response_transfer_coding, if w.m == M::Identity { HtpTransferCoding::IDENTITY } else { HtpTransferCoding::CHUNKED } as u8)?;
    } else {
        same("coding", t.request_transfer_coding, HtpTransferCoding::CHUNKED as u8)?;
    }
    if !matches!(w.m, M::Error | M::Identity) {
        same("message length", msg, w.framed)?;
    }
    outcome(h64(&(&w.body, w.ext, prog, w.framed)));
    if !w.body.is_empty() || w.chunks > 0 {
        nontrivial();
    }
    match w.m {
        M::Trailer => {
            // the message ends with the next empty line and another one can follow
            let done = if resp { R::COMPLETE as u8 } else { Q::COMPLETE as u8 };
            for b in [&b"X: y\r\n"[..], b"\r\n"] {
                if resp {
                    p.resp(b);
                } else {
                    p.req(b);
                }
            }
            let t = p.tx(0).ok_or("no transaction")?;
            same("progress after the trailer", if resp { t.sp } else { t.rp }, done)?;
            same("trailer field", t.hdr(resp, b"X").map(|h| show(&h.1)), Some("y".to_string()))?;
            if resp {
                p.req(GET);
                p.resp(b"HTTP/1.1 204 No\r\n\r\n");
                same("next status", p.tx(1).and_then(|t| t.response_status), Some(b"204".to_vec()))?;
                same("next", p.tx(1).map(|t| t.sp), Some(done))?;
            } else {
                p.req(GET);
                same("next", p.tx(1).map(|t| t.rp), Some(done))?;
            }
            same("body at the end", show(&body(&take_events(), bh, 0)), show(&w.body))?;
        }
        M::Identity => {
            p.resp(b"tail\r\n0\r\n\r\n");
            p.close();
            let t = p.tx(0).ok_or("no transaction")?;
            same("progress after close", t.sp, R::COMPLETE as u8)?;
            same("body at the end", show(&body(&take_events(), bh, 0)), show(&[&w.body, &b"tail\r\n0\r\n\r\n"[..]].concat()))?;
        }
        M::Error => {
            same("status after an error", p.req(b"5\r\nabcde\r\n0\r\n\r\n"), St::ERROR)?;
            same("body at the end", show(&body(&take_events(), bh, 0)), show(&w.body))?;
        }
        _ if close => {
            p.close();
            same("body at the end", show(&body(&take_events(), bh, 0)), show(&w.body))?;
        }
        _ => {}
    }
    let _ = s;
    Ok(())
}

fn check(ctx: &Ctx, c: &Config, s: &[u8], resp: bool, two: bool) -> M {
    let w = reference(s, resp);
    if w.odd || w.at < s.len() {
        return M::Error;
    }
    let kind = if resp { "response" } else { "request" };
    let go = |pieces: &[&[u8]], close: bool, how: String| {
        begin(&[kind.as_bytes(), s, how.as_bytes()]);
        put(ctx, kind, &[s, b" ", how.as_bytes()].concat(), guarded(|| run_one(c, s, &w, resp, pieces, close)));
    };
    go(&[s], false, "whole".into());
    for i in 1..s.len() {
        go(&[&s[..i], &s[i..]], i % 2 == 0, format!("cut at {}", i));
        if two {
            for j in i + 1..s.len() {
                go(&[&s[..i], &s[i..j], &s[j..]], false, format!("cut at {} and {}", i, j));
            }
        }
    }
    if s.len() > 2 {
        let pieces: Vec<&[u8]> = s.chunks(1).collect();
        go(&pieces, true, "bytewise".into());
    }
    w.m
}

const AL: &[u8] = b"01b\r\n ;z";

pub fn run(ctx: &mut Ctx) {
    let c = cfg_default();
    let n = ctx.pick(6, 8);
    ctx.rule(&format!(
        "every byte string of at most {} of the bytes 0 1 b CR LF SP ; z as the body of a chunked request and of a chunked response, whole, cut at every place, and byte by byte; then sequences of size lines and data. Non-trivial: a chunk was read.",
        n
    ));
    let k = AL.len();
    ctx.par(k * k * k * 2, |i| format!("block {}", i), |i| {
        let resp = i % 2 == 1;
        let i = i / 2;
        let mut s = vec![AL[i / k / k]];
        if i % (k * k) == 0 {
            check(ctx, &c, &s, resp, true);
        }
        if matches!(reference(&s, resp).m, M::Error) {
            return;
        }
        s.push(AL[i / k % k]);
        if i % k == 0 {
            check(ctx, &c, &s, resp, true);
        }
        if matches!(reference(&s, resp).m, M::Error | M::Trailer) {
            return;
        }
        s.push(AL[i % k]);
        fn rec(ctx: &Ctx, c: &Config, s: &mut Vec<u8>, resp: bool, n: usize) {
            let m = check(ctx, c, s, resp, s.len() < 6);
            if s.len() < n && !matches!(m, M::Error | M::Trailer) {
                for &x in AL {
                    s.push(x);
                    rec(ctx, c, s, resp, n);
                    s.pop();
                }
            }
        }
        rec(ctx, &c, &mut s, resp, n);
    });
    // size lines of every spelling, data, what follows the data
    let sizes: &[&[u8]] = &[
        b"3", b"03", b"00000000000000000000000003", b" 3", b"\t3", b"\x0b\x0c3", b"\r3", b"3 ", b"3\t\r", b"3;x=y", b"3 ; x", b"3z", b"3:;", b"3\0;", b"a", b"A", b"1f",
        b"7fffffff", b"7FFFFFFF", b"80000000", b"ffffffff", b"100000003", b"ffffffffffffffff", b"10000000000000003", b"-3", b"+3", b"0x3", b"x", b"", b"\0", b"\0003", b"g", b"G3", b"\xb3",
        b"0", b"0000000000000000", b"00000000000000000000000000000000000000000", b"0000000000000000000000000000000000000000;", b"00000000000000000000000000000000000007fffffff", b"000", b"0;x", b"0 ", b" 0", b"0x",
    ];
    let data: &[&[u8]] = &[b"abc", b"\r\n0", b"0\r\n\r\n\r\nabcd", b"0123456789012345678901234567890", b""];
    let after: &[&[u8]] = &[b"\r\n", b"\n", b"junk\r\n", b"\0\n", b"\r\r\n", b""];
    let eols: &[&[u8]] = &[b"\r\n", b"\n", b"\r\r\n", b" \n"];
    let (a, b) = (sizes.len() * data.len(), after.len());
    ctx.par(a * b * 2, |i| format!("lines {}", i), |i| {
        let resp = i % 2 == 1;
        let i = i / 2;
        let (f, d, af) = (sizes[i % sizes.len()], data[i / sizes.len() % data.len()], after[i / a % b]);
        for e1 in eols {
            let x = [f, e1, d, af].concat();
            check(ctx, &c, &x, resp, x.len() < ctx.pick(14, 40));
            // a second and a last chunk
            if ctx.quick() && i / a % b >= 3 {
                continue;
            }
            for g in sizes {
                for e2 in &eols[..ctx.pick(1, 2)] {
                    let y = [&x[..], g, e2, b"xyz\r\n0\r\n"].concat();
                    let w = reference(&y, resp);
                    let y = &y[..w.at];
                    check(ctx, &c, y, resp, false);
                }
            }
        }
    });
    ctx.note("size_lines", sizes.len());
    ctx.sample("request body 1;\\r\\nz\\r\\n0\\r\\n cut at 3");
}
