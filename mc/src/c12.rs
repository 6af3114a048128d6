//! C12 (compressed bodies are delivered decoded) and C13 (decompression bombs are cut off).
use crate::eng::*;
use crate::gen::*;
use crate::model::*;
use crate::rec::*;
use flate2::write::{DeflateEncoder, ZlibEncoder};
use flate2::Compression;
use htp::config::Config;
use htp::connection_parser::HtpStreamState;
use std::io::Write;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Enc {
    /// gzip with a combination of header flags (FHCRC 2, FEXTRA 4, FNAME 8, FCOMMENT 16)
    Gzip(u8),
    Raw,
    Zlib,
    Lzma,
}

pub fn gzip_header(flags: u8) -> Vec<u8> {
    let mut v = vec![0x1f, 0x8b, 8, flags, 1, 2, 3, 4, 0, 3];
    if flags & 4 != 0 {
        v.extend_from_slice(b"\x07\x00ab\x02\x00xyz");
        v.truncate(10 + 2 + 7);
    }
    if flags & 8 != 0 {
        v.extend_from_slice(b"file\0");
    }
    if flags & 16 != 0 {
        v.extend_from_slice(b"note \xff\0");
    }
    if flags & 2 != 0 {
        let mut c = flate2::Crc::new();
        c.update(&v);
        v.extend_from_slice(&(c.sum() as u16).to_le_bytes());
    }
    v
}

pub fn encode(e: Enc, level: u32, data: &[u8]) -> Vec<u8> {
    match e {
        Enc::Raw => {
            let mut w = DeflateEncoder::new(vec![], Compression::new(level));
            w.write_all(data).unwrap();
            w.finish().unwrap()
        }
        Enc::Zlib => {
            let mut w = ZlibEncoder::new(vec![], Compression::new(level));
            w.write_all(data).unwrap();
            w.finish().unwrap()
        }
        Enc::Gzip(f) => {
            let mut v = gzip_header(f);
            v.extend(encode(Enc::Raw, level, data));
            let mut c = flate2::Crc::new();
            c.update(data);
            v.extend_from_slice(&c.sum().to_le_bytes());
            v.extend_from_slice(&(data.len() as u32).to_le_bytes());
            v
        }
        Enc::Lzma => {
            let mut v = vec![];
            lzma_rs::lzma_compress(&mut std::io::BufReader::new(data), &mut v).unwrap();
            v
        }
    }
}

/// Deterministic bytes without structure.
pub fn noise(n: usize) -> Vec<u8> {
    let mut s = 0x2545_f491u32;
    (0..n)
        .map(|_| {
            s ^= s << 13;
            s ^= s >> 17;
            s ^= s << 5;
            (s >> 11) as u8
        })
        .collect()
}

pub fn text(n: usize) -> Vec<u8> {
    b"The quick brown fox\r\n0123456789 ".iter().cycle().take(n).copied().collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dir {
    Req,
    Resp,
}

pub struct Case {
    pub name: String,
    pub dir: Dir,
    pub label: &'static str,
    pub wire: Vec<u8>,
    pub plain: Vec<u8>,
    /// 0 Content-Length, 1 one chunk, 2 chunks of 5 bytes, 3 until close
    pub framing: u8,
    pub cfg: fn() -> Config,
    /// no cut in the first n bytes of the compressed body
    pub keep: usize,
    pub k: usize,
    pub w: usize,
    /// uniform pieces of these sizes instead of all cuts
    pub pieces: bool,
}

pub fn c_on() -> Config {
    let mut c = cfg_default();
    c.set_request_decompression(true);
    c.response_decompression_enabled = true;
    c
}
fn c_deep() -> Config {
    let mut c = c_on();
    c.compression_options.set_layer_limit(None);
    c.compression_options.set_lzma_layers(None);
    c
}
fn c_off() -> Config {
    let mut c = cfg_default();
    c.set_request_decompression(false);
    c.response_decompression_enabled = false;
    c
}

pub fn run_case(ctx: &Ctx, c: &Case) {
    let fr = match c.framing {
        0 => Fr::Cl(c.wire.clone()),
        1 => Fr::Chunked { chunks: if c.wire.is_empty() { vec![] } else { vec![c.wire.clone()] }, ext: 0, trailers: vec![] },
        2 => Fr::Chunked { chunks: c.wire.chunks(5).map(|x| x.to_vec()).collect(), ext: 1, trailers: vec![("T", "v")] },
        _ => Fr::Close(c.wire.clone()),
    };
    let (q, s) = match c.dir {
        Dir::Req => {
            let mut q = req("POST", "/z", fr);
            q.hdrs.push(("Content-Encoding", c.label));
            (q, resp(200, "OK", Fr::Cl(b"ok".to_vec())))
        }
        Dir::Resp => {
            let mut s = resp(200, "OK", fr);
            s.hdrs.push(("Content-Encoding", c.label));
            (req("GET", "/z", Fr::None), s)
        }
    };
    let (qw, mut qe) = q.build();
    let (sw, mut se) = s.build();
    let tail_q = req("GET", "/2", Fr::None);
    let tail_s = resp(404, "No", Fr::Cl(b"xyz".to_vec()));
    let (tqw, tqe) = tail_q.build();
    let (tsw, tse) = tail_s.build();
    let tail = c.framing != 3;
    let (head, len) = match c.dir {
        Dir::Req => (q.build().1.raw_headers.len() + qe.head_line.len() + 2, qw.len()),
        Dir::Resp => (se.raw_headers.len() + se.head_line.len() + 2, sw.len()),
    };
    match c.dir {
        Dir::Req => qe.body = c.plain.clone(),
        Dir::Resp => se.body = c.plain.clone(),
    }
    let go = |cuts: &[usize]| {
        // cuts are positions in the body part of the message
        let pos: Vec<usize> = cuts.iter().map(|x| x + head).collect();
        begin(&[c.name.as_bytes(), format!("{:?}", cuts).as_bytes()]);
        if !c.plain.is_empty() {
            nontrivial();
        }
        let r = guarded(|| -> Result<(), String> {
            reset();
            let mut p = P::new((c.cfg)());
            let dead = |s: HtpStreamState| matches!(s, HtpStreamState::ERROR | HtpStreamState::STOP);
            let mut bad = false;
            match c.dir {
                Dir::Req => {
                    for x in segments(&qw, &pos) {
                        bad |= dead(p.req(x));
                    }
                    bad |= dead(p.req(&tqw));
                    bad |= dead(p.resp(&sw));
                    bad |= dead(p.resp(&tsw));
                }
                Dir::Resp => {
                    bad |= dead(p.req(&qw));
                    if tail {
                        bad |= dead(p.req(&tqw));
                    }
                    for x in segments(&sw, &pos) {
                        bad |= dead(p.resp(x));
                    }
                    if tail {
                        bad |= dead(p.resp(&tsw));
                    }
                }
            }
            p.close();
            transitions(p.calls);
            let ev = take_events();
            let txs = p.txs();
            outcome(h64(&(&ev, &txs)));
            if bad {
                return Err("the stream failed".into());
            }
            let n = if tail { 2 } else { 1 };
            if txs.len() != n {
                return Err(format!("{} transactions instead of {}", txs.len(), n));
            }
            let t = txs[0].as_ref().ok_or("no transaction")?;
            let (qb, sb) = (body(&ev, H::REQ_BODY_DATA, 0), body(&ev, H::RESP_BODY_DATA, 0));
            let got = if c.dir == Dir::Req { &qb } else { &sb };
            if *got != c.plain {
                let at = got.iter().zip(&c.plain).position(|(a, b)| a != b).unwrap_or(got.len().min(c.plain.len()));
                return Err(format!("the body callbacks delivered {} bytes, the sender encoded {}, first difference at {}", got.len(), c.plain.len(), at));
            }
            check_req(t, &q, &qe)?;
            check_resp(t, &s, &se)?;
            if c.dir == Dir::Req && sb != b"ok" {
                return Err("the response body is wrong".into());
            }
            let done = if c.dir == Dir::Req { H::REQ_COMPLETE } else { H::RESP_COMPLETE };
            let data = if c.dir == Dir::Req { H::REQ_BODY_DATA } else { H::RESP_BODY_DATA };
            let at = ev.iter().position(|e| e.h == done && e.tx == 0).ok_or("message not complete")?;
            if ev[at..].iter().any(|e| e.h == data && e.tx == 0) {
                return Err("body data after the message was complete".into());
            }
            if tail {
                let t = txs[1].as_ref().ok_or("no transaction")?;
                check_req(t, &tail_q, &tqe)?;
                check_resp(t, &tail_s, &tse)?;
                check_events(&ev, 1, &tqe, Some(&tse))?;
            }
            Ok(())
        });
        let m = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(m) => format!("panic {}", m),
        };
        ctx.violation(
            c.name.clone(),
            format!("{}: {} (cuts in the body at {:?})", c.name, m, cuts),
            format!("{} cuts {:?} wire=[{}]", c.name, cuts, show(if c.dir == Dir::Req { &qw } else { &sw })),
        );
    };
    let n = len - head;
    go(&[]);
    if n == 0 {
        return;
    }
    // the cut between head and body, and what follows it
    let ok = |x: &[usize]| x.iter().all(|&p| p == 0 || p >= c.keep);
    if c.pieces {
        for sz in [1usize, 2, 7, 64, 1000, 4096, 8191, 8192, 8193] {
            let v: Vec<usize> = (1..n).filter(|x| x % sz == 0).collect();
            if sz > 64 || n < 3000 {
                if ok(&v) {
                    go(&v);
                }
            }
        }
        for x in (1..n).filter(|x| *x < 40 || n - *x < 40 || (*x >= 8150 && *x < 8250)) {
            if ok(&[x]) {
                go(&[x]);
            }
        }
    } else {
        go(&[0]);
        cuts(n, c.k, |x| {
            if ok(x) {
                go(x)
            }
        });
        windows(n, c.w, |x| {
            if ok(x) {
                go(x)
            }
        });
        let a: Vec<usize> = (0..n).filter(|x| *x == 0 || *x >= c.keep).collect();
        go(&a);
    }
}

pub fn run_c12(ctx: &mut Ctx) {
    ctx.rule("payload x encoder (gzip with all 16 header flag combinations, raw deflate, zlib, lzma; stored, fast and best) x label spelling x chain x framing x direction x decompression on/off; every cut of the compressed body in the bound. Oracle: the bytes given to the encoder, and the reference model of the surrounding messages.");
    let th = !ctx.quick();
    let mut list: Vec<Case> = vec![];
    let mut add = |name: &str, label: &'static str, wire: &[u8], plain: &[u8], cfg: fn() -> Config, keep: usize, big: bool, many: bool| {
        for (dir, framing) in [(Dir::Resp, 0u8), (Dir::Resp, 1), (Dir::Resp, 2), (Dir::Resp, 3), (Dir::Req, 0), (Dir::Req, 1), (Dir::Req, 2)] {
            if keep > 0 && framing == 2 {
                continue;
            }
            if !many && framing == 2 {
                continue;
            }
            list.push(Case {
                name: format!("{:?} {} as '{}' framing {}", dir, name, label, framing),
                dir,
                label,
                wire: wire.to_vec(),
                plain: plain.to_vec(),
                framing,
                cfg,
                keep: if framing == 1 && keep > 0 { keep + 6 } else { keep },
                k: if th && many { 2 } else { 1 },
                w: if th { 5 } else { 3 },
                pieces: big,
            });
        }
    };
    let small: Vec<Vec<u8>> = vec![vec![], b"a".to_vec(), text(60), noise(30), vec![0; 300]];
    for (i, p) in small.iter().enumerate() {
        for lv in [0u32, 1, 9] {
            for f in 0..16u8 {
                // all flag combinations with one payload, some with the others
                if i != 2 && !th && !matches!(f, 0 | 15) {
                    continue;
                }
                let f = f << 1;
                add(&format!("gzip(flags {}, level {}, payload {})", f, lv, i), "gzip", &encode(Enc::Gzip(f), lv, p), p, c_on, 0, false, lv != 1);
            }
            add(&format!("deflate(level {}, payload {})", lv, i), "deflate", &encode(Enc::Raw, lv, p), p, c_on, 0, false, true);
            add(&format!("zlib(level {}, payload {})", lv, i), "deflate", &encode(Enc::Zlib, lv, p), p, c_on, 8, false, true);
        }
        for lv in [0u32, 1, 9] {
            // labelled as something else
            add(&format!("zlib(level {}, payload {})", lv, i), "gzip", &encode(Enc::Zlib, lv, p), p, c_on, 10, false, false);
            add(&format!("raw(level {}, payload {})", lv, i), "gzip", &encode(Enc::Raw, lv, p), p, c_on, 10, false, false);
            for f in [0u8, 30] {
                add(&format!("gzip(flags {}, level {}, payload {})", f, lv, i), "deflate", &encode(Enc::Gzip(f), lv, p), p, c_on, 10, false, false);
            }
        }
        add(&format!("lzma(payload {})", i), "lzma", &encode(Enc::Lzma, 0, p), p, c_on, 0, false, true);
    }
    let p = text(60);
    for l in ["x-gzip", "GZIP", "Gzip", "X-GZip"] {
        add("gzip", l, &encode(Enc::Gzip(8), 6, &p), &p, c_on, 0, false, true);
    }
    for l in ["x-deflate", "DEFLATE", "Deflate", "X-Deflate"] {
        add("deflate", l, &encode(Enc::Raw, 6, &p), &p, c_on, 0, false, true);
    }
    for l in ["LZMA", "Lzma"] {
        add("lzma", l, &encode(Enc::Lzma, 6, &p), &p, c_on, 0, false, true);
    }
    for l in ["identity", "none", "inflate", "br", "compress", "zstd", "identity, br"] {
        add("not encoded", l, &p, &p, c_on, 0, false, true);
    }
    for l in ["gzip", "deflate", "lzma", "gzip, deflate", "x-gzip"] {
        add("decompression off, gzip", l, &encode(Enc::Gzip(31), 6, &p), &encode(Enc::Gzip(31), 6, &p), c_off, 0, false, true);
        add("decompression off, text", l, &p, &p, c_off, 0, false, true);
    }
    // chains: the first label was applied first
    for (p, pn) in [(text(60), 0), (noise(300), 1), (text(9000), 2), (vec![], 3)] {
        let g = |d: &[u8]| encode(Enc::Gzip(0), 6, d);
        let d = |x: &[u8]| encode(Enc::Raw, 6, x);
        let l = |x: &[u8]| encode(Enc::Lzma, 6, x);
        let big = pn == 2;
        let big2 = pn > 0 && pn < 3;
        add(&format!("chain gzip deflate {}", pn), "gzip, deflate", &d(&g(&p)), &p, c_on, 0, big, true);
        add(&format!("chain gzip deflate {}", pn), "gzip,deflate", &d(&g(&p)), &p, c_on, 0, big, false);
        add(&format!("chain gzip deflate {}", pn), "x-gzip deflate", &d(&g(&p)), &p, c_on, 0, big, false);
        add(&format!("chain deflate gzip {}", pn), "deflate, gzip", &g(&d(&p)), &p, c_on, 0, big, true);
        add(&format!("chain gzip gzip {}", pn), "gzip, gzip", &g(&g(&p)), &p, c_on, 0, big, true);
        add(&format!("chain deflate deflate {}", pn), "deflate, x-deflate", &d(&d(&p)), &p, c_on, 0, big, true);
        add(&format!("chain lzma gzip {}", pn), "lzma, gzip", &g(&l(&p)), &p, c_on, 0, big2, true);
        add(&format!("chain gzip lzma {}", pn), "gzip, lzma", &l(&g(&p)), &p, c_on, 0, big2, true);
        add(&format!("chain none gzip {}", pn), "none, gzip", &g(&p), &p, c_on, 0, big, true);
        add(&format!("chain of three {}", pn), "gzip, deflate, gzip", &g(&d(&g(&p))), &p, c_deep, 0, big, true);
        add(&format!("chain of two lzma {}", pn), "lzma, lzma", &l(&l(&p)), &p, c_deep, 0, big2, false);
    }
    // around the internal output buffer of 8192 bytes
    let mut sizes = vec![8191usize, 8192, 8193, 16384, 16385, 30000];
    if th {
        sizes.extend([8190, 8194, 16383, 24575, 24576, 24577, 65535, 65536, 100_000]);
    }
    for n in sizes {
        for (kind, p) in [("zeros", vec![0u8; n]), ("text", text(n)), ("noise", noise(n))] {
            for lv in [0u32, 6] {
                add(&format!("gzip level {} of {} {}", lv, n, kind), "gzip", &encode(Enc::Gzip(8), lv, &p), &p, c_on, 0, true, false);
                add(&format!("deflate level {} of {} {}", lv, n, kind), "deflate", &encode(Enc::Raw, lv, &p), &p, c_on, 0, true, false);
                add(&format!("zlib level {} of {} {}", lv, n, kind), "deflate", &encode(Enc::Zlib, lv, &p), &p, c_on, 8, true, false);
            }
            if kind != "noise" {
                add(&format!("lzma of {} {}", n, kind), "lzma", &encode(Enc::Lzma, 0, &p), &p, c_on, 0, true, false);
            }
        }
    }
    ctx.note("bodies", list.len());
    ctx.par(list.len(), |i| list[i].name.clone(), |i| {
        if i % 150 == 0 {
            ctx.sample(list[i].name.clone());
        }
        run_case(ctx, &list[i]);
    });
}

// ---------------------------------------------------------------- C13: damage and bombs

struct Got {
    body: Vec<u8>,
    worst: HtpStreamState,
    entity: u64,
    message: u64,
    bomb_logged: bool,
    /// largest excess of delivered over the allowance at any call
    next_ok: Result<(), String>,
}

/// One compressed message (Content-Length framing unless `close`), then another message.
fn deliver(dir: Dir, label: &'static str, wire: &[u8], cfg: Config, pos: &[usize], mut each: impl FnMut(usize, usize) -> Result<(), String>) -> Result<Got, String> {
    let fr = Fr::Cl(wire.to_vec());
    let (q, s) = match dir {
        Dir::Req => {
            let mut q = req("POST", "/z", fr);
            q.hdrs.push(("Content-Encoding", label));
            (q, resp(200, "OK", Fr::Cl(b"ok".to_vec())))
        }
        Dir::Resp => {
            let mut s = resp(200, "OK", fr);
            s.hdrs.push(("Content-Encoding", label));
            (req("GET", "/z", Fr::None), s)
        }
    };
    let (qw, qe) = q.build();
    let (sw, se) = s.build();
    let tail_q = req("GET", "/2", Fr::None);
    let tail_s = resp(404, "No", Fr::Cl(b"xyz".to_vec()));
    let (tqw, tqe) = tail_q.build();
    let (tsw, tse) = tail_s.build();
    reset();
    let mut p = P::new(cfg);
    let mut worst = HtpStreamState::DATA;
    let bad = |s: HtpStreamState, w: &mut HtpStreamState| {
        if matches!(s, HtpStreamState::ERROR | HtpStreamState::STOP) {
            *w = s;
        }
    };
    let h = if dir == Dir::Req { H::REQ_BODY_DATA } else { H::RESP_BODY_DATA };
    let (m, head) = match dir {
        Dir::Req => (&qw, qe.head_line.len() + 2 + qe.raw_headers.len()),
        Dir::Resp => (&sw, se.head_line.len() + 2 + se.raw_headers.len()),
    };
    if dir == Dir::Resp {
        bad(p.req(&qw), &mut worst);
        bad(p.req(&tqw), &mut worst);
    }
    let pos: Vec<usize> = pos.iter().map(|x| x + head).collect();
    let mut ev = vec![];
    let mut sent = 0;
    let mut out = 0;
    for x in segments(m, &pos) {
        let st = if dir == Dir::Req { p.req(x) } else { p.resp(x) };
        bad(st, &mut worst);
        sent += x.len();
        let e = take_events();
        out += body(&e, h, 0).len();
        ev.extend(e);
        each(out, sent.saturating_sub(head))?;
        if worst != HtpStreamState::DATA {
            break;
        }
    }
    if worst == HtpStreamState::DATA {
        if dir == Dir::Req {
            bad(p.req(&tqw), &mut worst);
            bad(p.resp(&sw), &mut worst);
        }
        bad(p.resp(&tsw), &mut worst);
    }
    p.close();
    ev.extend(take_events());
    transitions(p.calls);
    let txs = p.txs();
    outcome(h64(&(&ev, &txs)));
    let t = txs.first().cloned().flatten().ok_or("no transaction")?;
    let next_ok = (|| {
        let t = txs.get(1).cloned().flatten().ok_or("the following message is missing")?;
        check_req(&t, &tail_q, &tqe)?;
        check_resp(&t, &tail_s, &tse)?;
        check_events(&ev, 1, &tqe, Some(&tse))
    })();
    Ok(Got {
        body: body(&ev, h, 0),
        worst,
        entity: if dir == Dir::Req { t.request_entity_len } else { t.response_entity_len },
        message: if dir == Dir::Req { t.request_message_len } else { t.response_message_len },
        bomb_logged: p.logs().iter().any(|l| l == "COMPRESSION_BOMB"),
        next_ok,
    })
}

pub fn run_c13(ctx: &mut Ctx) {
    ctx.rule("damage: every truncation and every single-byte replacement of compressed bodies, and trailing bytes, must leave the following messages intact, truncated streams delivering a prefix of the payload. Bombs: payload size x limit x ratio x encoder x pieces; delivered bytes are compared with the allowance after every call. Non-trivial: damaged streams and payloads above the limit.");
    let th = !ctx.quick();
    let mut list: Vec<(Dir, Enc, &'static str, u32, Vec<u8>)> = vec![];
    for dir in [Dir::Req, Dir::Resp] {
        for (p, lv) in [(text(60), 6), (noise(40), 0), (text(60), 0), (vec![7u8; 500], 9), (noise(20), 1)] {
            for (e, l) in [(Enc::Gzip(0), "gzip"), (Enc::Gzip(30), "gzip"), (Enc::Raw, "deflate"), (Enc::Zlib, "deflate"), (Enc::Lzma, "lzma")] {
                list.push((dir, e, l, lv, p.clone()));
            }
        }
    }
    ctx.par(list.len(), |i| format!("{:?}", list[i]), |i| {
        let (dir, e, label, lv, plain) = &list[i];
        let wire = encode(*e, *lv, plain);
        let report = |what: String, w: &[u8], m: String| {
            ctx.violation(format!("{:?} {:?} {}", dir, e, what), format!("{:?} {:?} level {} {}: {}", dir, e, lv, what, m), format!("{:?} {} body=[{}]", dir, label, show(w)));
        };
        let one = |what: &str, w: &[u8], pos: &[usize], want: Option<&dyn Fn(&[u8]) -> Result<(), String>>| {
            begin(&[label.as_bytes(), w]);
            nontrivial();
            let r = guarded(|| {
                let g = deliver(*dir, label, w, c_on(), pos, |_, _| Ok(()))?;
                if g.worst != HtpStreamState::DATA {
                    return Err(format!("the stream answered {:?}", g.worst));
                }
                g.next_ok?;
                if g.message != w.len() as u64 {
                    return Err(format!("message length {} of {}", g.message, w.len()));
                }
                if g.entity != g.body.len() as u64 {
                    return Err(format!("entity length {} but {} bytes delivered", g.entity, g.body.len()));
                }
                if let Some(f) = want {
                    f(&g.body)?;
                }
                Ok(())
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err(m)) => report(what.into(), w, m),
                Err(m) => report(what.into(), w, format!("panic {}", m)),
            }
        };
        let prefix = |b: &[u8]| {
            if plain.starts_with(b) {
                Ok(())
            } else {
                Err(format!("{} bytes delivered that are no prefix of the payload", b.len()))
            }
        };
        let whole = |b: &[u8]| if b == &plain[..] { Ok(()) } else { Err(format!("{} of {} bytes delivered", b.len(), plain.len())) };
        for n in 0..wire.len() {
            let w = &wire[..n];
            let keep = if *e == Enc::Zlib { 8 } else { 0 };
            if keep == 0 || n >= keep {
                one(&format!("truncated"), w, &[], Some(&prefix));
                one(&format!("truncated"), w, &[n / 2], if n / 2 >= keep { Some(&prefix) } else { None });
            } else {
                one(&format!("truncated"), w, &[], None);
            }
        }
        if *e != Enc::Lzma {
            for t in [&b"x"[..], b"\0\0\0\0", b"HTTP/1.1 200 OK\r\n\r\n", &wire] {
                let w = cat(&[&wire, t]);
                one("with bytes behind the end", &w, &[], Some(&whole));
                one("with bytes behind the end", &w, &[wire.len()], Some(&whole));
                for c in wire.len().saturating_sub(10)..w.len() {
                    one("with bytes behind the end", &w, &[c], Some(&whole));
                }
            }
        }
        let vals: Vec<u8> = (0..=255).collect();
        for n in 0..wire.len() {
            let mut vs: Vec<u8> = vals.clone();
            vs.extend((0..8).map(|b| wire[n] ^ (1 << b)));
            for v in vs {
                if v != wire[n] {
                    let mut w = wire.clone();
                    w[n] = v;
                    one("with a damaged byte", &w, &[], None);
                    one("with a damaged byte", &w, &[n], None);
                }
            }
        }
    });
    // bodies that are no compressed stream at all
    let alpha: &[u8] = &[0, 1, 2, 5, 8, 0x1f, 0x78, 0x8b, b'a', 0x9c, 0xff];
    let n = ctx.pick(3, 4);
    let heads: Vec<Vec<u8>> = vec![
        vec![],
        gzip_header(0),
        gzip_header(4)[..12].to_vec(),
        gzip_header(8)[..10].to_vec(),
        gzip_header(18)[..10].to_vec(),
        vec![0x78, 0x9c],
        vec![0, 1, 0, 0xfe, 0xff],
        encode(Enc::Lzma, 0, b"a")[..13].to_vec(),
        vec![0x1f, 0x8b, 8, 0xe0, 0, 0, 0, 0, 0, 0],
    ];
    let mut jobs = vec![];
    for dir in [Dir::Req, Dir::Resp] {
        for label in ["gzip", "deflate", "lzma", "gzip, deflate", "deflate, lzma"] {
            for h in 0..heads.len() {
                for a in 0..alpha.len() {
                    jobs.push((dir, label, h, a));
                }
            }
        }
    }
    ctx.par(jobs.len(), |i| format!("{:?}", jobs[i]), |i| {
        let (dir, label, h, a) = jobs[i];
        let mut stack = vec![vec![alpha[a]]];
        while let Some(s) = stack.pop() {
            if s.len() < n {
                for x in alpha {
                    let mut s = s.clone();
                    s.push(*x);
                    stack.push(s);
                }
            }
            let w = cat(&[&heads[h], &s]);
            let run = |pos: &[usize]| {
                begin(&[label.as_bytes(), &w, format!("{:?}", pos).as_bytes()]);
                nontrivial();
                let r = guarded(|| {
                    let g = deliver(dir, label, &w, c_on(), pos, |_, _| Ok(()))?;
                    if g.worst != HtpStreamState::DATA {
                        return Err(format!("the stream answered {:?}", g.worst));
                    }
                    g.next_ok?;
                    if g.message != w.len() as u64 || g.entity != g.body.len() as u64 {
                        return Err(format!("lengths {} and {} recorded, {} received and {} delivered", g.message, g.entity, w.len(), g.body.len()));
                    }
                    Ok(())
                });
                let m = match r {
                    Ok(Ok(())) => return,
                    Ok(Err(m)) => m,
                    Err(m) => format!("panic {}", m),
                };
                ctx.violation(format!("{:?} '{}' arbitrary body", dir, label), format!("{:?} '{}' body [{}] cuts {:?}: {}", dir, label, show(&w), pos, m), show(&w));
            };
            run(&[]);
            for c in heads[h].len()..w.len() {
                run(&[c]);
            }
            if s.len() > 2 {
                run(&[w.len() - 2, w.len() - 1]);
            }
        }
    });

    bombs(ctx, th);
    layers(ctx);
}

fn c_bomb(limit: u64, ratio: u64, mem: usize) -> Config {
    let mut c = c_deep();
    c.compression_options.set_bomb_limit(limit);
    c.compression_options.set_bomb_ratio(ratio);
    c.compression_options.set_lzma_memlimit(mem);
    c
}

fn bombs(ctx: &Ctx, th: bool) {
    let mut jobs = vec![];
    let sizes: Vec<usize> = if th {
        vec![0, 1, 50, 99, 100, 101, 1000, 5000, 8191, 8192, 8193, 9999, 10000, 10001, 16384, 20001, 40000, 100_000, 400_000]
    } else {
        vec![0, 50, 100, 101, 8191, 8192, 8193, 10000, 10001, 20001, 60000, 200_000]
    };
    for dir in [Dir::Req, Dir::Resp] {
        for (e, label) in [(vec![Enc::Gzip(0)], "gzip"), (vec![Enc::Raw], "deflate"), (vec![Enc::Zlib], "deflate"), (vec![Enc::Lzma], "lzma"), (vec![Enc::Gzip(8), Enc::Raw], "gzip, deflate"), (vec![Enc::Lzma, Enc::Gzip(0)], "lzma, gzip")] {
            for &n in &sizes {
                jobs.push((dir, e.clone(), label, n));
            }
        }
    }
    ctx.par(jobs.len(), |i| format!("{:?}", jobs[i]), |i| {
        let (dir, encs, label, n) = &jobs[i];
        let lzma = encs.contains(&Enc::Lzma);
        if lzma && *n > 60000 {
            return;
        }
        for plain in [vec![0u8; *n], text(*n)] {
            let mut wire = plain.clone();
            for e in encs {
                wire = encode(*e, 9, &wire);
            }
            let total = wire.len() as u64;
            for limit in [0u64, 1, 100, 8192, 10000, 50000, 1 << 20] {
                for ratio in [0u64, 1, 3, 50, 2048, u64::MAX] {
                    for mem in if lzma { vec![1usize, 20000, 1 << 20] } else { vec![1 << 20] } {
                        for piece in [usize::MAX, 1, 7, 40, 200] {
                            if piece < 40 && wire.len() > 400 {
                                continue;
                            }
                            if encs[0] == Enc::Zlib && piece < 8 {
                                continue;
                            }
                            let pos: Vec<usize> = if piece == usize::MAX { vec![] } else { (1..wire.len()).filter(|x| x % piece == 0).collect() };
                            let slack = if lzma { (mem as u64).max(8192) } else { 8192 };
                            begin(&[label.as_bytes(), format!("{} {} {} {} {}", n, limit, ratio, mem, piece).as_bytes()]);
                            if *n as u64 > limit {
                                nontrivial();
                            }
                            let r = guarded(|| {
                                let g = deliver(*dir, label, &wire, c_bomb(limit, ratio, mem), &pos, |out, sent| {
                                    let allow = limit.max(ratio.max(1).saturating_mul(sent as u64)).saturating_add(slack);
                                    if out as u64 > allow {
                                        return Err(format!("{} bytes delivered out of {}, allowed {}", out, sent, allow));
                                    }
                                    Ok(())
                                })?;
                                let allow = limit.max(ratio.max(1).saturating_mul(total)).saturating_add(slack);
                                if g.body.len() as u64 > allow || g.entity != g.body.len() as u64 {
                                    return Err(format!("{} bytes delivered, {} recorded, allowed {}", g.body.len(), g.entity, allow));
                                }
                                let n = *n as u64;
                                if (n <= limit || n <= ratio) && (!lzma || mem > n as usize + 1000) {
                                    if g.worst != HtpStreamState::DATA || g.bomb_logged {
                                        return Err(format!("a body within the limit or the ratio was refused ({:?})", g.worst));
                                    }
                                    if g.body != plain {
                                        return Err(format!("{} bytes delivered", g.body.len()));
                                    }
                                    g.next_ok?;
                                } else if n > limit && ratio.checked_mul(total).map_or(false, |x| n > x) && !lzma {
                                    if g.worst != HtpStreamState::ERROR || !g.bomb_logged {
                                        return Err(format!("{} bytes out of {} went through, answer {:?}, logged {}", n, total, g.worst, g.bomb_logged));
                                    }
                                } else if g.worst == HtpStreamState::DATA {
                                    g.next_ok?;
                                }
                                Ok(())
                            });
                            let m = match r {
                                Ok(Ok(())) => continue,
                                Ok(Err(m)) => m,
                                Err(m) => format!("panic {}", m),
                            };
                            ctx.violation(
                                format!("bomb {:?} '{}' limit {} ratio {}", dir, label, limit, ratio),
                                format!("{:?} '{}' {} bytes, limit {} ratio {} memlimit {} pieces of {}: {}", dir, label, n, limit, ratio, mem, piece, m),
                                format!("{:?} '{}' {} bytes, limit {} ratio {} memlimit {} pieces of {}", dir, label, n, limit, ratio, mem, piece),
                            );
                        }
                    }
                }
            }
        }
    });
}

/// No more than the configured number of layers is removed.
fn layers(ctx: &Ctx) {
    let mut jobs = vec![];
    for dir in [Dir::Req, Dir::Resp] {
        for k in 2..=4usize {
            for limit in [Some(1u32), Some(2), Some(3), Some(4), Some(5), None] {
                for l in ["gzip", "deflate", "x-gzip"] {
                    jobs.push((dir, k, limit, l));
                }
            }
        }
        for k in 2..=3usize {
            for limit in [Some(1u32), Some(2), Some(3), None] {
                jobs.push((dir, k, limit, "lzma"));
            }
        }
        for limit in [Some(1u32), Some(2), None] {
            jobs.push((dir, 1, limit, "lzma"));
            jobs.push((dir, 0, limit, "lzma"));
        }
    }
    ctx.par(jobs.len(), |i| format!("{:?}", jobs[i]), |i| {
        let (dir, k, limit, l) = jobs[i];
        let e = match l {
            "lzma" => Enc::Lzma,
            "deflate" => Enc::Raw,
            _ => Enc::Gzip(0),
        };
        for plain in [text(60), noise(20)] {
            let mut v = vec![plain.clone()];
            for _ in 0..k.max(1) {
                v.push(encode(e, 6, v.last().unwrap()));
            }
            let wire = v.last().unwrap().clone();
            for sep in [", ", ","] {
                // labels are static in the model: leak the few there are
                let label: &'static str = Box::leak(vec![l; k.max(1)].join(sep).into_boxed_str());
                let mut c = c_deep();
                // k = 0: one lzma layer with lzma switched off
                let removed = if k == 0 {
                    c.compression_options.set_lzma_memlimit(0);
                    0
                } else {
                    k.min(limit.map_or(k, |x| x as usize))
                };
                if l == "lzma" {
                    c.compression_options.set_lzma_layers(limit);
                } else {
                    c.compression_options.set_layer_limit(limit);
                    c.compression_options.set_lzma_layers(Some(1));
                }
                let want = &v[v.len() - 1 - removed];
                for cut in 0..wire.len() {
                    begin(&[label.as_bytes(), format!("{} {:?}", cut, limit).as_bytes()]);
                    nontrivial();
                    let r = guarded(|| {
                        let g = deliver(dir, label, &wire, c.clone(), &[cut], |_, _| Ok(()))?;
                        if g.body != *want {
                            return Err(format!("{} layers with limit {:?}: {} bytes delivered instead of {}", k, limit, g.body.len(), want.len()));
                        }
                        g.next_ok
                    });
                    let m = match r {
                        Ok(Ok(())) => continue,
                        Ok(Err(m)) => m,
                        Err(m) => format!("panic {}", m),
                    };
                    ctx.violation(format!("layers {:?} {} {:?}", dir, label, limit), format!("{:?} '{}' cut {}: {}", dir, label, cut, m), format!("{:?} {} {:?} cut {}", dir, label, limit, cut));
                }
            }
        }
    });
}
