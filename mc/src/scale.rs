//! Sizes and counts. The other explorations are exhaustive over small alphabets and short
//! histories; here every dimension of a conversation that can be large (bodies, chunks, numbers
//! of fields, lengths of names, values, targets, lines, numbers of messages, callbacks, gaps, ...)
//! is taken through every value of a ladder: all small ones, all powers of two and of ten with
//! their neighbours, up to a bound, whole and in pieces. What is expected is computed, not
//! remembered.
use crate::c12::{encode, noise, text, Case, Dir, Enc};
use crate::c18::same;
use crate::eng::*;
use crate::rec::*;
use crate::uriref as u;
use htp::config::Config;
use htp::connection_parser::{HtpStreamState as St, ParserData};
use htp::connection::ConnectionFlags;
use htp::util::HtpFlags as F;
use std::cell::Cell;

type R = Result<(), String>;

/// All values up to 40, and around the powers of two and ten, up to `max`.
pub fn ladder(max: u64) -> Vec<usize> {
    let mut v: Vec<u64> = (0..=40).collect();
    for k in 6..63 {
        let p = 1u64 << k;
        v.extend([p - 1, p, p + 1]);
    }
    let mut p = 100u64;
    while p < 1 << 60 {
        v.extend([p - 1, p, p + 1, 2 * p, 5 * p]);
        p *= 10;
    }
    v.extend([18000, 18001, 3 * 8192, 8192 * 3 + 1]);
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as usize).collect()
}
fn run(ctx: &Ctx, what: &str, ns: &[usize], f: impl Fn(usize) -> R + Sync) {
    ctx.note(&format!("ladder: {}", what), ns.len());
    // large ones first
    let k = ns.len();
    ctx.par(k, |i| format!("{} of size {}", what, ns[k - 1 - i]), |i| {
        let n = ns[k - 1 - i];
        begin(&[what.as_bytes(), &n.to_le_bytes()]);
        nontrivial();
        let m = match guarded(|| {
            reset();
            f(n)
        }) {
            Ok(Ok(())) => return,
            // C03 asks only that the call returns
            Ok(Err(_)) if alive(ctx) => return,
            Ok(Err(m)) => m,
            Err(m) => format!("panic {}", m),
        };
        let m: String = m.chars().take(400).collect();
        ctx.violation(format!("ladder:{}", what), format!("{} of size {}: {}", what, n, m), format!("{} {}", what, n));
    });
}
fn alive(ctx: &Ctx) -> bool {
    ctx.id == "C03"
}
fn big() -> Config {
    let mut c = cfg_default();
    c.set_field_limit(1 << 24);
    c.max_tx = 1 << 20;
    c
}
fn fill(n: usize) -> Vec<u8> {
    b"abcdefghijklmnopqrstuvwxyz0123456789".iter().cycle().take(n).copied().collect()
}
fn pieces(b: &[u8], k: usize) -> Vec<&[u8]> {
    match k {
        0 => vec![b],
        1 => {
            let h = b.len() / 2;
            vec![&b[..h], &b[h..]].into_iter().filter(|x| !x.is_empty()).collect()
        }
        _ => b.chunks(k).collect(),
    }
}
/// ways to cut a stream of this length
fn ways(len: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 1000, 8191];
    if len <= 1500 {
        v.push(7);
    }
    v
}

// ---------------------------------------------------------------- messages

#[derive(Clone)]
enum Fr {
    No,
    Cl,
    /// chunk size, extension
    Ch(usize, Vec<u8>),
    Close,
}
#[derive(Clone)]
struct Msg {
    start: [Vec<u8>; 3],
    hdrs: Vec<(Vec<u8>, Vec<u8>)>,
    fr: Fr,
    body: Vec<u8>,
    tr: Vec<(Vec<u8>, Vec<u8>)>,
}
impl Msg {
    fn req() -> Msg {
        Msg { start: [b"POST".to_vec(), b"/x".to_vec(), b"HTTP/1.1".to_vec()], hdrs: vec![(b"Host".to_vec(), b"h".to_vec())], fr: Fr::No, body: vec![], tr: vec![] }
    }
    fn resp() -> Msg {
        Msg { start: [b"HTTP/1.1".to_vec(), b"200".to_vec(), b"OK".to_vec()], hdrs: vec![(b"S".to_vec(), b"v".to_vec())], fr: Fr::Cl, body: b"ok".to_vec(), tr: vec![] }
    }
    fn all(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        let mut h = self.hdrs.clone();
        match &self.fr {
            Fr::Cl => h.push((b"Content-Length".to_vec(), self.body.len().to_string().into_bytes())),
            Fr::Ch(..) => h.push((b"Transfer-Encoding".to_vec(), b"chunked".to_vec())),
            _ => {}
        }
        h
    }
    fn wire(&self) -> Vec<u8> {
        let mut w = self.start.join(&b' ');
        w.extend(b"\r\n");
        for (n, v) in self.all() {
            w.extend([&n[..], b": ", &v, b"\r\n"].concat());
        }
        w.extend(b"\r\n");
        match &self.fr {
            Fr::Ch(k, e) => {
                for c in self.body.chunks(*k) {
                    w.extend(format!("{:x}", c.len()).bytes());
                    w.extend(e);
                    w.extend(b"\r\n");
                    w.extend(c);
                    w.extend(b"\r\n");
                }
                w.extend(b"0\r\n");
                for (n, v) in &self.tr {
                    w.extend([&n[..], b": ", v, b"\r\n"].concat());
                }
                w.extend(b"\r\n");
            }
            _ => w.extend(&self.body),
        }
        w
    }
    fn head(&self) -> usize {
        let w = self.wire();
        w.windows(4).position(|x| x == b"\r\n\r\n").unwrap() + 4
    }
}

const DIMS: [&str; 22] = [
    "request body by length", "request chunk", "request chunks", "request fields", "request field value", "request field name",
    "request target", "request method", "request trailers", "request trailer value", "request chunk extension",
    "response body by length", "response chunk", "response chunks", "response body until close", "response fields",
    "response field value", "response field name", "response reason", "response trailers", "response trailer value", "response chunk extension",
];
fn dim(d: usize, n: usize) -> (Msg, Msg) {
    let (mut q, mut s) = (Msg::req(), Msg::resp());
    let many = |n: usize| -> Vec<(Vec<u8>, Vec<u8>)> { (0..n).map(|i| (format!("F{}", i).into_bytes(), format!("v{}", i).into_bytes())).collect() };
    let m = if d < 11 { &mut q } else { &mut s };
    let v = |m: &mut Msg, k: usize| {
        m.fr = Fr::Ch(k, vec![]);
        m.body = fill(n);
    };
    match d {
        0 | 11 => {
            m.fr = Fr::Cl;
            m.body = fill(n);
        }
        1 | 12 => v(m, n.max(1)),
        2 | 13 => v(m, 1),
        3 | 15 => m.hdrs.extend(many(n)),
        4 | 16 => m.hdrs.push((b"L".to_vec(), fill(n))),
        5 | 17 => m.hdrs.push((fill(n.max(1)), b"v".to_vec())),
        6 => m.start[1] = [b"/", &fill(n)[..]].concat(),
        7 => m.start[0] = [b"Y", &fill(n)[..]].concat(),
        18 => m.start[2] = fill(n.max(1)),
        14 => {
            m.fr = Fr::Close;
            m.body = fill(n);
        }
        8 | 19 => {
            m.fr = Fr::Ch(4, vec![]);
            m.body = fill(9);
            m.tr = many(n);
        }
        9 | 20 => {
            m.fr = Fr::Ch(4, vec![]);
            m.body = fill(9);
            m.tr = vec![(b"T".to_vec(), fill(n))];
        }
        _ => {
            m.fr = Fr::Ch(4, [b";", &fill(n)[..]].concat());
            m.body = fill(9);
        }
    }
    (q, s)
}
/// the largest size that is sensible for a dimension
fn top(d: usize) -> u64 {
    match d {
        2 | 13 => 5000,
        3 | 8 | 15 | 19 => 1030,
        0 | 1 | 11 | 12 | 14 => 300_000,
        _ => 66_000,
    }
}
fn second() -> (Msg, Msg) {
    let (mut q, mut s) = (Msg::req(), Msg::resp());
    q.start[0] = b"GET".to_vec();
    q.start[1] = b"/next".to_vec();
    s.start[1] = b"404".to_vec();
    s.body = b"none".to_vec();
    (q, s)
}
/// One exchange with the given messages, in pieces, then an ordinary one, then the end.
fn talk(c: Config, q: &Msg, s: &Msg, way: usize) -> (P, St, St) {
    let mut p = P::new(c);
    let (mut a, mut b) = (St::DATA, St::DATA);
    for x in pieces(&q.wire(), way) {
        a = p.req(x);
    }
    for x in pieces(&s.wire(), way) {
        b = p.resp(x);
    }
    if !matches!(s.fr, Fr::Close) {
        let (q2, s2) = second();
        a = p.req(&q2.wire());
        b = p.resp(&s2.wire());
    }
    p.close();
    transitions(p.calls);
    (p, a, b)
}
fn table(what: &str, got: &[HdrSnap], m: &Msg) -> R {
    let mut want = m.all();
    want.extend(m.tr.clone());
    same(&format!("number of {} fields", what), got.len(), want.len())?;
    for (g, w) in got.iter().zip(&want) {
        if g.0 != w.0 || g.1 != w.1 || g.2 != 0 {
            return Err(format!("{} field {}: {} (flags {:x}) instead of {}: {}", what, show(&g.0), show(&g.1), g.2, show(&w.0), show(&w.1)));
        }
    }
    Ok(())
}
fn bytes(what: &str, got: &[u8], want: &[u8]) -> R {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!("{}: {} bytes instead of {}, different at {}", what, got.len(), want.len(), at))
}
fn exact(t: &TxSnap, ev: &[Ev], q: &Msg, s: &Msg) -> R {
    let o = |b: &OB| b.clone().unwrap_or_default();
    let i = t.index;
    bytes("method", &o(&t.request_method), &q.start[0])?;
    bytes("target", &o(&t.request_uri), &q.start[1])?;
    bytes("protocol", &o(&t.request_protocol), &q.start[2])?;
    bytes("response protocol", &o(&t.response_protocol), &s.start[0])?;
    bytes("status", &o(&t.response_status), &s.start[1])?;
    bytes("reason", &o(&t.response_message), &s.start[2])?;
    table("request", &t.request_headers, q)?;
    table("response", &t.response_headers, s)?;
    bytes("request body", &body(ev, H::REQ_BODY_DATA, i), &q.body)?;
    bytes("response body", &body(ev, H::RESP_BODY_DATA, i), &s.body)?;
    same("request entity length", t.request_entity_len, q.body.len() as u64)?;
    same("response entity length", t.response_entity_len, s.body.len() as u64)?;
    let wire = |m: &Msg| match &m.fr {
        // size lines, data and line ends
        Fr::Ch(..) => None,
        _ => Some(m.body.len() as u64),
    };
    if let Some(n) = wire(q) {
        same("request message length", t.request_message_len, n)?;
    }
    if let Some(n) = wire(s) {
        same("response message length", t.response_message_len, n)?;
    }
    same("progress", (t.rp, t.sp), (5, 5))?;
    same("flags", t.flags & !F::MULTI_PACKET_HEAD, 0)
}
fn dims(ctx: &Ctx, which: &[usize], f: impl Fn(&Msg, &Msg, usize, usize) -> R + Sync) {
    for &d in which {
        let mut l = ladder(top(d));
        if d == 2 || d == 13 {
            l.retain(|n| *n < 3000 || *n == 4096);
        }
        run(ctx, DIMS[d], &l, |n| {
            let (q, s) = dim(d, n);
            f(&q, &s, d, n)
        });
    }
}
fn faithful(ctx: &Ctx, which: &[usize]) {
    dims(ctx, which, |q, s, _, _| {
        for way in ways(q.wire().len() + s.wire().len()) {
            reset();
            let (p, a, b) = talk(big(), q, s, way);
            let ev = take_events();
            let e = |m: String| format!("in pieces ({}): {}", way, m);
            same("last answers", (a, b), (St::DATA, St::DATA)).map_err(e)?;
            exact(&p.tx(0).ok_or("no transaction")?, &ev, q, s).map_err(e)?;
            if !matches!(s.fr, Fr::Close) {
                let (q2, s2) = second();
                exact(&p.tx(1).ok_or("no second transaction")?, &ev, &q2, &s2).map_err(e)?;
            }
            same("transactions", p.c.tx_size(), 1 + !matches!(s.fr, Fr::Close) as usize).map_err(e)?;
        }
        Ok(())
    });
}
fn cutfree(ctx: &Ctx, which: &[usize]) {
    dims(ctx, which, |q, s, _, _| {
        let (p, ..) = talk(big(), q, s, 0);
        let whole = p.obs();
        for way in ways(q.wire().len() + s.wire().len()).into_iter().skip(1).chain([1024, 4096]) {
            reset();
            let (p, ..) = talk(big(), q, s, way);
            let got = p.obs();
            if got != whole {
                return Err(format!("in pieces ({}): {}", way, diff(&got, &whole)));
            }
        }
        Ok(())
    });
}
fn kinds(ev: Vec<Ev>) -> Vec<(H, usize)> {
    let mut v: Vec<(H, usize)> = norm(ev).into_iter().map(|e| (e.h, e.tx)).collect();
    v.dedup();
    v
}
/// n requests and responses: each with its own target, body and status
fn ex(i: usize) -> (Vec<u8>, Vec<u8>) {
    let t = i.to_string();
    (format!("GET /{} HTTP/1.1\r\nHost: h\r\n\r\n", t).into_bytes(), format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n{}", t.len(), t).into_bytes())
}
fn paired(t: &TxSnap, ev: &[Ev], i: usize) -> R {
    let w = i.to_string();
    same("index", t.index, i)?;
    bytes("target", &t.request_uri.clone().unwrap_or_default(), format!("/{}", w).as_bytes())?;
    bytes("body", &body(ev, H::RESP_BODY_DATA, i), w.as_bytes())?;
    same("progress", (t.rp, t.sp), (5, 5))
}
fn once(ev: &[Ev], i: usize, hs: &[H]) -> R {
    for h in hs {
        same(&format!("number of {:?} for transaction {}", h, i), ev.iter().filter(|e| e.h == *h && e.tx == i).count(), 1)?;
    }
    Ok(())
}
const ENDS: [H; 5] = [H::REQ_START, H::REQ_COMPLETE, H::RESP_START, H::RESP_COMPLETE, H::TX_COMPLETE];
fn sequential(n: usize, auto: bool, mut after: impl FnMut(&mut P, usize) -> R) -> R {
    let mut c = big();
    c.set_tx_auto_destroy(auto);
    let mut p = P::new(c);
    for i in 0..n {
        reset();
        let (q, s) = ex(i);
        same("request answer", p.req(&q), St::DATA)?;
        same("response answer", p.resp(&s), St::DATA)?;
        let ev = take_events();
        once(&ev, i, &ENDS)?;
        bytes("body", &body(&ev, H::RESP_BODY_DATA, i), i.to_string().as_bytes())?;
        same("transactions", p.c.tx_size(), i + 1)?;
        if auto {
            same("transaction kept", p.c.tx(i).is_some(), false)?;
        } else {
            paired(&p.tx(i).ok_or("no transaction")?, &ev, i)?;
        }
        after(&mut p, i)?;
    }
    transitions(p.calls);
    same("pipelined", p.c.conn.flags & ConnectionFlags::PIPELINED, 0)
}

// ---------------------------------------------------------------- gaps

/// A body announced as `len` bytes of which the given parts arrive: bytes or gaps.
fn gaps(resp: bool, parts: &[(bool, usize)], len: Option<u64>) -> R {
    let mut p = P::new(big());
    let mut head = if resp {
        p.req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
        "HTTP/1.1 200 OK\r\n".to_string()
    } else {
        "POST / HTTP/1.1\r\nHost: h\r\n".to_string()
    };
    if let Some(l) = len {
        head += &format!("Content-Length: {}\r\n", l);
    }
    head += "\r\n";
    let mut total = head.len() as u64;
    let feed = |p: &mut P, b: &[u8]| if resp { p.resp(b) } else { p.req(b) };
    same("head", feed(&mut p, head.as_bytes()), St::DATA)?;
    reset();
    let mut want: Vec<D> = vec![];
    let mut at = 0u64;
    for &(gap, n) in parts {
        if gap {
            same("answer to a gap", if resp { p.resp_gap(n) } else { p.req_gap(n) }, St::DATA)?;
            want.push(D::Gap(n));
        } else {
            let b = fill(n);
            same("answer", feed(&mut p, &b), St::DATA)?;
            if let Some(D::Bytes(l)) = want.last_mut() {
                l.extend(&b);
            } else if n > 0 {
                want.push(D::Bytes(b));
            }
        }
        if len.is_some() || !gap {
            same("bytes consumed", if resp { p.resp_consumed() } else { p.req_consumed() }, n)?;
        }
        total = total.wrapping_add(n as u64);
        at += n as u64;
    }
    let hook = if resp { H::RESP_BODY_DATA } else { H::REQ_BODY_DATA };
    let got: Vec<D> = norm(take_events()).into_iter().filter(|e| e.h == hook && e.d != D::End).map(|e| e.d).collect();
    if got != want {
        return Err(format!("delivered {:?} instead of {:?}", got.iter().map(short).collect::<Vec<_>>(), want.iter().map(short).collect::<Vec<_>>()));
    }
    let done = len == Some(at);
    let t = p.tx(0).ok_or("no transaction")?;
    same("byte counter", if resp { p.c.conn.response_data_counter } else { p.c.conn.request_data_counter }, total)?;
    if let Some(l) = len {
        same("message length", if resp { t.response_message_len } else { t.request_message_len }, at)?;
        same("announced length", if resp { t.response_content_length } else { t.request_content_length }, Some(l))?;
        same("complete", (if resp { t.sp } else { t.rp }) == 5, done)?;
    }
    same("flagged", t.has(if resp { F::RESPONSE_MISSING_BYTES } else { F::REQUEST_MISSING_BYTES }), parts.iter().any(|x| x.0))?;
    if done {
        let (q, s) = second();
        if !resp {
            p.resp(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
        }
        same("next request", p.req(&q.wire()), St::DATA)?;
        same("next response", p.resp(&s.wire()), St::DATA)?;
        exact(&p.tx(1).ok_or("no second transaction")?, &take_events(), &q, &s)?;
    }
    transitions(p.calls);
    Ok(())
}
fn short(d: &D) -> String {
    match d {
        D::Bytes(b) => format!("{} bytes", b.len()),
        o => format!("{:?}", o),
    }
}

// ---------------------------------------------------------------- callbacks

thread_local! {
    static COUNT: Cell<(usize, usize)> = Cell::new((0, 0));
}
fn counted() -> Result<(), htp::HtpStatus> {
    COUNT.with(|c| {
        let (n, k) = c.get();
        c.set((n + 1, k));
        if n + 1 == k {
            Err(htp::HtpStatus::ERROR)
        } else {
            Ok(())
        }
    })
}
fn ctx_cb(_: &mut htp::transaction::Transaction) -> Result<(), htp::HtpStatus> {
    counted()
}
fn data_cb(_: &mut htp::transaction::Transaction, d: &ParserData) -> Result<(), htp::HtpStatus> {
    if d.is_empty() {
        return Ok(());
    }
    counted()
}
fn callbacks(n: usize, which: usize) -> R {
    // every one of n callbacks runs once; and the k-th, answering error, is the last
    let mut ks = vec![0, 1, 2, n / 2, n.saturating_sub(1), n];
    ks.sort();
    ks.dedup();
    for k in ks {
        let mut c = Config::default();
        for _ in 0..n {
            match which {
                0 => c.hook_request_line.register(ctx_cb),
                1 => c.hook_response_headers.register(ctx_cb),
                2 => c.hook_request_body_data.register(data_cb),
                3 => c.hook_response_body_data.register(data_cb),
                _ => c.hook_transaction_complete.register(ctx_cb),
            }
        }
        COUNT.with(|c| c.set((0, k)));
        let mut p = P::new(c);
        let a = p.req(b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 2\r\n\r\nab");
        let b = p.resp(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nab");
        transitions(p.calls);
        let ran = COUNT.with(|c| c.get().0);
        let fails = k > 0 && k <= n;
        same("callbacks run", ran, if fails { k } else { n })?;
        let req = matches!(which, 0 | 2);
        same("answers", (a == St::ERROR, b == St::ERROR), (fails && req, fails && !req))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- the properties

fn compressed(ctx: &Ctx) {
    let mut list: Vec<(String, &'static str, Vec<u8>, Vec<u8>)> = vec![];
    for n in ladder(70_000).into_iter().filter(|n| *n > 40 || *n % 8 == 0) {
        for (k, p) in [("text", text(n)), ("noise", noise(n))] {
            list.push((format!("gzip of {} {}", n, k), "gzip", encode(Enc::Gzip(0), 6, &p), p.clone()));
            list.push((format!("stored gzip of {} {}", n, k), "gzip", encode(Enc::Gzip(0), 0, &p), p.clone()));
            list.push((format!("deflate of {} {}", n, k), "deflate", encode(Enc::Raw, 6, &p), p.clone()));
            list.push((format!("lzma of {} {}", n, k), "lzma", encode(Enc::Lzma, 6, &p), p));
        }
    }
    // optional fields of the gzip header
    let plain = text(100);
    let z = encode(Enc::Raw, 6, &plain);
    let mut tail = vec![];
    let mut crc = flate2::Crc::new();
    crc.update(&plain);
    tail.extend(crc.sum().to_le_bytes());
    tail.extend((plain.len() as u32).to_le_bytes());
    for n in ladder(66_000) {
        for f in [4u8, 8, 16] {
            if f == 4 && n > 65535 {
                continue;
            }
            let mut h = vec![0x1f, 0x8b, 8, f, 1, 2, 3, 4, 0, 3];
            match f {
                4 => {
                    h.extend((n as u16).to_le_bytes());
                    h.extend(vec![7; n]);
                }
                _ => {
                    h.extend(vec![b'n'; n]);
                    h.push(0);
                }
            }
            list.push((format!("gzip with a header field (flag {}) of {}", f, n), "gzip", [&h[..], &z, &tail].concat(), plain.clone()));
        }
    }
    ctx.note("ladder: compressed bodies", list.len());
    ctx.par(list.len(), |i| list[i].0.clone(), |i| {
        let (name, label, wire, plain) = &list[i];
        if alive(ctx) {
            for way in [0, 1, 1000] {
                begin(&[name.as_bytes(), &[way as u8]]);
                let r = guarded(|| {
                    reset();
                    let (mut q, mut s) = (Msg::req(), Msg::resp());
                    for m in [&mut q, &mut s] {
                        m.hdrs.push((b"Content-Encoding".to_vec(), label.as_bytes().to_vec()));
                        m.body = wire.clone();
                        m.fr = Fr::Cl;
                    }
                    talk(crate::c12::c_on(), &q, &s, way);
                });
                if let Err(m) = r {
                    ctx.violation(format!("ladder:{}", name), format!("panic {} on {}", m, name), name.clone());
                }
            }
            return;
        }
        for (dir, framing) in [(Dir::Resp, 0u8), (Dir::Resp, 1), (Dir::Req, 0), (Dir::Resp, 3)] {
            crate::c12::run_case(ctx, &Case { name: format!("{} {:?} framing {}", name, dir, framing), dir, label, wire: wire.clone(), plain: plain.clone(), framing, cfg: crate::c12::c_on, keep: 0, k: 1, w: 3, pieces: true });
        }
    });
}

fn returns(ctx: &Ctx, c: &Config, t: &[u8]) {
    begin(&[t]);
    nontrivial();
    let r = guarded(|| {
        let mut p = P::new(c.clone());
        p.req(&[b"GET ", t, b" HTTP/1.1\r\nHost: h\r\n\r\n"].concat());
        transitions(p.calls);
    });
    if let Err(m) = r {
        ctx.violation("ladder:target", format!("panic {} on a target of {} bytes [{}...]", m, t.len(), show(&t[..t.len().min(60)])), show(t));
    }
}
fn targets(ctx: &Ctx) {
    let d = u::PLAIN;
    let mut c = crate::c15::cfg(&d);
    c.set_field_limit(1 << 24);
    let l = ladder(20_000);
    ctx.note("ladder: targets", l.len());
    ctx.par(l.len(), |i| format!("targets of size {}", l[i]), |i| {
        let n = l[i];
        let x = fill(n);
        let host: Vec<u8> = x.chunks(50).collect::<Vec<_>>().join(&b'.');
        let zeros = vec![b'0'; n];
        let go = |t: &[&[u8]]| if alive(ctx) { returns(ctx, &c, &t.concat()) } else { crate::c15::one_target(ctx, &d, &c, &t.concat()) };
        go(&[b"/", &x]);
        go(&[b"/a?", &x]);
        go(&[b"/a?b#", &x]);
        go(&[b"http://h/", &x, b"?", &x, b"#", &x]);
        go(&[b"http://", &x, b"@h/"]);
        go(&[b"http://u:", &x, b"@h:80/"]);
        go(&[b"http://h:", &zeros, b"80/"]);
        go(&[b"http://h:", &zeros, b"65535/"]);
        go(&[b"http://h:", &zeros, b"65536/"]);
        if n > 0 {
            go(&[b"http://", &x, b"/"]);
            go(&[b"http://", &host, b":81/p"]);
            go(&[&b"s"[..], &x, b"://h/p"]);
            go(&[b"http://h", &b".".repeat(n), b"/p"]);
        }
    });
}
fn paths(ctx: &Ctx) {
    let ds = crate::c15::path_cfgs(false);
    let l: Vec<usize> = ladder(2100);
    ctx.note("ladder: paths", l.len() * ds.len());
    ctx.par(l.len() * ds.len(), |i| format!("paths of size {}", l[i / ds.len()]), |i| {
        let (n, d) = (l[i / ds.len()], &ds[i % ds.len()]);
        let mut c = crate::c15::cfg(d);
        c.set_field_limit(1 << 24);
        let go = |t: &[&[u8]]| if alive(ctx) { returns(ctx, &c, &t.concat()) } else { crate::c15::one_path(ctx, d, &c, &t.concat()) };
        let r = |t: &[u8]| t.repeat(n);
        go(&[b"/x", &r(b"/a"), b"/y"]);
        go(&[b"/x", &r(b"/a"), &r(b"/.."), b"/y"]);
        go(&[b"/x", &r(b"/a"), &r(b"/."), b"/y"]);
        go(&[b"/x", &r(b"/"), b"y"]);
        go(&[b"/", &r(b"%41"), b"y"]);
        go(&[b"/", &r(b"a"), b"%2fy"]);
        go(&[b"/", &r(b"a"), b"%00y"]);
        go(&[b"/", &r(b"a"), b"%zzy"]);
        go(&[b"/", &r(b"%u0041"), b"y"]);
        go(&[b"/", &r(b"\xc3\xa9"), b"y"]);
        go(&[b"/", &r(b"a"), b"\xc0\xafy"]);
    });
}
fn params(ctx: &Ctx) {
    let d = u::PLAIN;
    let mut c = crate::c15::cfg(&d);
    c.set_field_limit(1 << 24);
    let l: Vec<usize> = ladder(3000);
    run(ctx, "query strings", &l, |n| {
        let x = fill(n);
        let many: Vec<Vec<u8>> = (0..n).map(|i| format!("n{}=v{}", i, i).into_bytes()).collect();
        let cut = if n <= 129 { 1 } else { 0 };
        for s in [
            many.join(&b'&'),
            [b"a=1&", &x[..], b"=2&c=3"].concat(),
            [b"a=1&b=", &x[..], b"&c=3"].concat(),
            [b"a=", &b"%41".repeat(n)[..], b"&b=2"].concat(),
            [b"a=", &b"+".repeat(n)[..], b"&b=2"].concat(),
            [b"a", &b"=".repeat(n)[..], b"&b=2"].concat(),
            [b"a=1", &b"&".repeat(n)[..], b"b=2"].concat(),
        ] {
            crate::c15::check_params(&d, &c, &s, cut, true, (b'&', true)).map_err(|m| format!("{} in [{}]", m, show(&s[..s.len().min(60)])))?;
        }
        Ok(())
    });
}
fn head(q: &[&[u8]], s: &[&[u8]]) -> Result<(P, TxSnap), String> {
    let mut p = P::new(big());
    same("request", p.req(&q.concat()), St::DATA)?;
    same("response", p.resp(&s.concat()), St::DATA)?;
    transitions(p.calls);
    let t = p.tx(0).ok_or("no transaction")?;
    Ok((p, t))
}
const OKQ: &[u8] = b"GET / HTTP/1.1\r\nHost: h\r\n\r\n";
const OKS: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";

fn lines(ctx: &Ctx) {
    let l = ladder(1030);
    run(ctx, "ignored lines", &l, |n| {
        for e in [&b"\r\n"[..], b"\n"] {
            let (_, t) = head(&[&e.repeat(n), OKQ], &[&e.repeat(n), OKS])?;
            same("ignored lines", (t.request_ignored_lines as usize, t.response_ignored_lines as usize), (n, n))?;
            same("progress", (t.rp, t.sp), (5, 5))?;
            bytes("method", &t.request_method.unwrap_or_default(), b"GET")?;
        }
        Ok(())
    });
    run(ctx, "blanks in a request line", &l, |n| {
        let b = b" ".repeat(n + 1);
        let (_, t) = head(&[b"GET", &b, b"/x HTTP/1.1\r\nHost: h\r\n\r\n"], &[OKS])?;
        bytes("method", &t.request_method.unwrap_or_default(), b"GET")?;
        bytes("target", &t.request_uri.unwrap_or_default(), b"/x")?;
        let (_, t) = head(&[b"GET /x", &b, b"HTTP/1.1\r\nHost: h\r\n\r\n"], &[b"HTTP/1.1", &b, b"200", &b, b"OK\r\nContent-Length: 0\r\n\r\n"])?;
        same("protocol", t.request_protocol_number, 101)?;
        bytes("target", &t.request_uri.unwrap_or_default(), b"/x")?;
        same("status", t.response_status_number, "VALID(200)".to_string())?;
        bytes("message", &t.response_message.unwrap_or_default(), b"OK")?;
        let (_, t) = head(&[b"GET /x HTTP/", &b"0".repeat(n), b"1.1\r\nHost: h\r\n\r\n"], &[OKS])?;
        same("protocol", t.request_protocol_number, 101)
    });
}
fn fields(ctx: &Ctx) {
    for resp in [false, true] {
        let send = |h: &[u8]| -> Result<Vec<HdrSnap>, String> {
            let (p, t) = if resp { head(&[OKQ], &[b"HTTP/1.1 200 OK\r\n", h, b"Content-Length: 0\r\n\r\n"]) } else { head(&[b"GET / HTTP/1.1\r\n", h, b"Host: h\r\n\r\n"], &[OKS]) }?;
            same("progress", (t.rp, t.sp), (5, 5))?;
            drop(p);
            Ok(if resp { t.response_headers } else { t.request_headers })
        };
        let side = if resp { "response" } else { "request" };
        run(ctx, &format!("{} continuation lines", side), &ladder(1030), |n| {
            for e in [&b"\r\n"[..], b"\n"] {
                let h = send(&[b"A: 1", e, &[b" 2", e].concat().repeat(n), b"B: x", e].concat())?;
                same("fields", h.len(), 3)?;
                bytes("value", &h[0].1, &[&b"1"[..], &b" 2".repeat(n)].concat())?;
                same("flags", h[0].2, if n > 0 { F::FIELD_FOLDED } else { 0 })?;
                bytes("name", &h[1].0, b"B")?;
            }
            Ok(())
        });
        run(ctx, &format!("{} repetitions", side), &(1..=64).collect::<Vec<_>>(), |n| {
            for long in [1usize, 100, 3000] {
                let h = send(&(0..n).flat_map(|i| [b"A: ", &fill(long + i)[..], b"\r\n"].concat()).collect::<Vec<u8>>())?;
                same("fields", h.len(), 2)?;
                let w: Vec<Vec<u8>> = (0..n).map(|i| fill(long + i)).collect();
                bytes("value", &h[0].1, &w.join(&b", "[..]))?;
                same("flags", h[0].2, if n > 1 { F::FIELD_REPEATED } else { 0 })?;
            }
            Ok(())
        });
        run(ctx, &format!("{} blanks around a value", side), &ladder(5000), |n| {
            let b = b" ".repeat(n);
            let h = send(&[b"A:", &b[..], b"x", &b, b"\r\n"].concat())?;
            bytes("value", &h[0].1, b"x")?;
            same("flags", h[0].2, 0)?;
            let h = send(&[b"A", &b[..], b": x\r\n"].concat())?;
            bytes("name", &h[0].0, b"A")?;
            same("flags", h[0].2, if n > 0 { F::FIELD_INVALID } else { 0 })
        });
    }
}
fn announced(ctx: &Ctx) {
    // lengths of which only a few bytes arrive
    run(ctx, "announced length", &ladder(1 << 62), |n| {
        for resp in [false, true] {
            if n > 10 {
                gaps(resp, &[(false, 4), (false, 6)], Some(n as u64))?;
            }
            for zeros in [1, 5, 40] {
                let v = format!("{}{}", "0".repeat(zeros), n);
                let f = format!("Content-Length: {}\r\n", v);
                let (_, t) = if resp {
                    head(&[OKQ], &[b"HTTP/1.1 200 OK\r\n", f.as_bytes(), b"\r\n"])?
                } else {
                    let mut p = P::new(big());
                    same("answer", p.req(&[b"POST / HTTP/1.1\r\nHost: h\r\n", f.as_bytes(), b"\r\n"].concat()), St::DATA)?;
                    let t = p.tx(0).ok_or("no transaction")?;
                    (p, t)
                };
                same("length", if resp { t.response_content_length } else { t.request_content_length }, Some(n as u64))?;
                same("complete", if resp { t.sp } else { t.rp } == 5, n == 0)?;
            }
        }
        Ok(())
    });
    run(ctx, "repeated lengths", &(1..=60).collect::<Vec<_>>(), |n| {
        let f = b"Content-Length: 3\r\n".repeat(n);
        let mut p = P::new(big());
        same("request", p.req(&[b"POST / HTTP/1.1\r\nHost: h\r\n", &f[..], b"\r\nabc"].concat()), St::DATA)?;
        let t = p.tx(0).ok_or("no transaction")?;
        same("smuggling", t.has(F::REQUEST_SMUGGLING), n > 1)?;
        same("progress", t.rp, 5)?;
        let (_, t) = head(&[OKQ], &[b"HTTP/1.1 200 OK\r\n", &f, b"\r\nabc"])?;
        same("smuggling", t.has(F::REQUEST_SMUGGLING), n > 1)?;
        same("progress", t.sp, 5)
    });
}
pub fn b64(b: &[u8]) -> Vec<u8> {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut v = vec![];
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            v.push(if k <= c.len() { A[(n >> (18 - 6 * k)) as usize & 63] } else { b'=' });
        }
    }
    v
}
fn credentials(ctx: &Ctx) {
    let send = |f: &[u8]| -> Result<TxSnap, String> {
        let mut c = big();
        c.parse_request_auth = true;
        let mut p = P::new(c);
        same("request", p.req(&[b"GET / HTTP/1.1\r\n", f, b"\r\nA: b\r\n\r\n"].concat()), St::DATA)?;
        let t = p.tx(0).ok_or("no transaction")?;
        same("progress", t.rp, 5)?;
        Ok(t)
    };
    let l = ladder(9000);
    run(ctx, "credentials", &l, |n| {
        let x = fill(n);
        for (usr, pw) in [(&x[..], &b"p"[..]), (b"u", &x), (&x, &x)] {
            let t = send(&[b"Host: h\r\nAuthorization: Basic ", &b64(&[usr, b":", pw].concat())[..]].concat())?;
            bytes("user", &t.auth_username.unwrap_or_default(), usr)?;
            bytes("password", &t.auth_password.unwrap_or_default(), pw)?;
            same("invalid", t.flags & F::AUTH_INVALID, 0)?;
        }
        let t = send(&[b"Host: h\r\nAuthorization: Bearer t", &x[..]].concat())?;
        bytes("token", &t.auth_token.unwrap_or_default(), &[b"t", &x[..]].concat())?;
        for (raw, want) in [(x.clone(), x.clone()), (b"\\\"".repeat(n), b"\"".repeat(n)), (b"a\\\"".repeat(n), b"a\"".repeat(n))] {
            let t = send(&[b"Host: h\r\nAuthorization: Digest realm=\"", &x[..], b"\", username=\"", &raw, b"\", b=\"c\""].concat())?;
            bytes("digest user", &t.auth_username.unwrap_or_default(), &want)?;
            same("invalid", t.flags & F::AUTH_INVALID, 0)?;
        }
        let t = send(&[b"Host: h\r\nContent-Type: T", &x[..], b"; charset=x"].concat())?;
        bytes("content type", &t.request_content_type.unwrap_or_default(), &[b"t", &x[..]].concat())
    });
    run(ctx, "host names", &(1..=300).collect::<Vec<_>>(), |n| {
        let x = fill(n);
        for k in [20, 50, 62, 63, 64, 65, 300] {
            let host: Vec<u8> = x.chunks(k).collect::<Vec<_>>().join(&b'.');
            for (port, num) in [(&b""[..], None), (b":8080", Some(8080)), (b":0000000080", Some(80))] {
                let t = send(&[b"Host: ", &host[..], port].concat())?;
                bytes("host", &t.hostname.clone().unwrap_or_default(), &host)?;
                same("port", t.port, num)?;
                same("host invalid", t.has(F::HOSTH_INVALID), !u::valid_host(&host))?;
            }
        }
        Ok(())
    });
}
fn logged(n: usize, each: bool) -> R {
    let mut p = P::new(big());
    for _ in 0..n {
        // a field without colon
        same("request", p.req(b"GET / HTTP/1.1\r\nHost: h\r\nno colon\r\n\r\n"), St::DATA)?;
        same("response", p.resp(OKS), St::DATA)?;
    }
    transitions(p.calls);
    let got = if each { std::iter::from_fn(|| p.c.conn.get_next_log()).map(|l| l.msg.code as i32).collect::<Vec<_>>() } else { p.c.conn.get_logs().iter().map(|l| l.msg.code as i32).collect() };
    let per = got.len() / n.max(1);
    if got.len() != n * per || per == 0 && n > 0 {
        return Err(format!("{} records for {} times the same request", got.len(), n));
    }
    let one = &got[..per];
    if got.chunks(per.max(1)).any(|c| c != one) {
        return Err("the records differ between equal requests".into());
    }
    let one = if n > 1 { one_logged(&p)? } else { per };
    if n > 1 && per != one {
        return Err(format!("{} records per request instead of {}", per, one));
    }
    same("records left", p.c.conn.get_logs().len(), 0)
}
/// the number of records for one more such request on a new connection
fn one_logged(_: &P) -> Result<usize, String> {
    let mut p = P::new(big());
    p.req(b"GET / HTTP/1.1\r\nHost: h\r\nno colon\r\n\r\n");
    Ok(p.c.conn.get_logs().len())
}
fn limits(ctx: &Ctx) {
    let l: Vec<usize> = ladder(70_000).into_iter().filter(|n| *n >= 64).collect();
    run(ctx, "field limit", &l, |l| {
        let go = |resp: bool, pre: &[u8], a: &[u8], n: usize, z: &[u8], post: &[u8], cut: usize| -> Result<bool, String> {
            reset();
            let mut c = cfg_default();
            c.set_field_limit(l);
            let mut p = P::new(c);
            if resp {
                p.req(b"G / HTTP/1.1\r\nHost: a\r\n\r\n");
            }
            // pre, then an element of n bytes in two parts, then the rest
            let elem = [a, &fill(n - a.len() - z.len())[..], z].concat();
            let mut bad = false;
            for x in [pre, &elem[..cut.min(n)], &elem[cut.min(n)..], post] {
                if !x.is_empty() && !bad {
                    bad = if resp { p.resp(x) } else { p.req(x) } == St::ERROR;
                }
            }
            transitions(p.calls);
            if !bad {
                let t = p.tx(0).ok_or("no transaction")?;
                same("progress", if resp { t.sp } else { t.rp }, 5)?;
            }
            Ok(bad)
        };
        let places: [(bool, &[u8], &[u8], &[u8], &[u8]); 8] = [
            (false, b"", b"GET /", b" HTTP/1.1\r\n", b"\r\n"),
            (false, b"G / HTTP/1.1\r\n", b"A:", b"\r\n", b"\r\n"),
            (false, b"P / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", b"1;", b"\r\n", b"a\r\n0\r\n\r\n"),
            (false, b"P / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n", b"T:", b"\r\n", b"\r\n"),
            (true, b"", b"HTTP/1.1 200 ", b"\r\n", b"Content-Length: 0\r\n\r\n"),
            (true, b"HTTP/1.1 200 OK\r\n", b"A:", b"\r\n", b"Content-Length: 0\r\n\r\n"),
            (true, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", b"1;", b"\r\n", b"a\r\n0\r\n\r\n"),
            (true, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n", b"T:", b"\r\n", b"\r\n"),
        ];
        for (i, (resp, pre, a, z, post)) in places.into_iter().enumerate() {
            let line = i % 4 == 0;
            for cut in [1, 20, l / 2, l - 3, l + 1, l + 2] {
                // one byte more may be needed to see that a header is not continued
                let n = if line { l } else { l - 1 };
                if cut <= n && go(resp, pre, a, n, z, post, cut)? {
                    return Err(format!("place {}: an element of {} bytes was refused (cut at {})", i, n, cut));
                }
                let n = l + 4;
                if (line || cut > l) && !go(resp, pre, a, n, z, post, cut)? {
                    return Err(format!("place {}: an element of {} bytes was accepted (cut at {})", i, n, cut));
                }
            }
        }
        Ok(())
    });
    let l: Vec<usize> = ladder(3000).into_iter().filter(|n| *n > 0).collect();
    run(ctx, "transaction limit", &l, |n| {
        let mut c = cfg_default();
        c.max_tx = n as u32;
        let mut p = P::new(c);
        for i in 0..n {
            same("request within the limit", p.req(&ex(i).0), St::DATA)?;
            same("response within the limit", p.resp(&ex(i).1), St::DATA)?;
        }
        same("transactions", (0..n + 1).filter(|i| p.c.tx(*i).is_some()).count(), n)?;
        same("request beyond the limit", p.req(&ex(n).0), St::ERROR)?;
        same("transactions", (0..n + 2).filter(|i| p.c.tx(*i).is_some()).count(), n)?;
        transitions(p.calls);
        let ev = take_events();
        for i in [0, n / 2, n - 1] {
            paired(&p.tx(i).ok_or("lost")?, &ev, i)?;
        }
        Ok(())
    });
}
fn chunked(ctx: &Ctx) {
    let c = big();
    let sized = |n: usize| {
        let x = fill(n);
        let z = b"0".repeat(n);
        let h = |k: usize| format!("{:x}\r\n", k).into_bytes();
        let mut v = vec![
            [&h(n)[..], &x, b"\r\n0\r\n"].concat(),
            [&format!("{:X};e\r\n", n).into_bytes()[..], &x, b"\r\n0\r\n"].concat(),
            [b"3;", &x[..], b"\r\nabc\r\n0\r\n"].concat(),
            [&z[..], b"3\r\nabc\r\n0\r\n"].concat(),
            [b"3\r\nabc\r\n", &z[..], b"0\r\n"].concat(),
            [b"3\r\nabc", &x[..], b"\r\n0\r\n"].concat(),
            [b"3", &b" ".repeat(n)[..], b"\r\nabc\r\n0\r\n"].concat(),
            [&b" ".repeat(n)[..], b"3\r\nabc\r\n0\r\n"].concat(),
        ];
        if n <= 1100 {
            v.push([&b"1\r\na\r\n".repeat(n)[..], b"0\r\n"].concat());
            v.push([&b"2;x\na\n\n".repeat(n)[..], b"0\r\n"].concat());
        }
        v
    };
    let partial = |n: usize| vec![[format!("{:x}\r\n", n).as_bytes(), b"abcdefghij"].concat(), [format!("{:x}\r\n", n).as_bytes(), &b"a".repeat(70000)[..]].concat()];
    for (what, l, f) in [("chunked bodies", ladder(70_000), &sized as &(dyn Fn(usize) -> Vec<Vec<u8>> + Sync)), ("announced chunks", ladder((1 << 31) - 1).into_iter().filter(|n| *n > 70_000).collect(), &partial)] {
        run(ctx, what, &l, |n| {
            for s in f(n) {
                for resp in [false, true] {
                    let w = crate::c25::reference(&s, resp);
                    if w.odd() || (s.ends_with(b"0\r\n") && w.at() < s.len()) {
                        continue;
                    }
                    for way in ways(s.len()) {
                        crate::c25::run_one(&c, &s, &w, resp, &pieces(&s, way), way == 1).map_err(|m| format!("{} {} in pieces ({}): {}", if resp { "response" } else { "request" }, show(&s[..s.len().min(40)]), way, m))?;
                    }
                }
            }
            Ok(())
        });
    }
}
fn closing(ctx: &Ctx) {
    for resp in [false, true] {
        for kind in 0..3 {
            let what = format!("closing inside a {} body ({})", if resp { "response" } else { "request" }, ["length", "chunk", "close"][kind]);
            if kind == 2 && !resp {
                continue;
            }
            run(ctx, &what, &ladder(70_000), |n| {
                if n < 2 {
                    return Ok(());
                }
                let mut m = if resp { Msg::resp() } else { Msg::req() };
                m.body = fill(n);
                m.fr = match kind {
                    0 => Fr::Cl,
                    1 => Fr::Ch(n, vec![]),
                    _ => Fr::Close,
                };
                let w = m.wire();
                let lead = m.head() + if kind == 1 { format!("{:x}\r\n", n).len() } else { 0 };
                for k in [1, n / 2, n - 1] {
                    for way in [0, 1, 1000] {
                        reset();
                        let mut p = P::new(big());
                        if resp {
                            p.req(OKQ);
                        }
                        for x in pieces(&w[..lead + k], way) {
                            if resp {
                                p.resp(x);
                            } else {
                                p.req(x);
                            }
                        }
                        p.close();
                        transitions(p.calls);
                        let ev = take_events();
                        bytes("body", &body(&ev, if resp { H::RESP_BODY_DATA } else { H::REQ_BODY_DATA }, 0), &m.body[..k])?;
                        let t = p.tx(0).ok_or("no transaction")?;
                        same("complete", if resp { t.sp } else { t.rp } == 5, resp && kind != 1)?;
                    }
                }
                Ok(())
            });
        }
    }
    run(ctx, "closing with so many transactions open", &ladder(1030), |n| {
        for auto in [false, true] {
            reset();
            let mut c = big();
            c.set_flush_incomplete(true);
            c.set_tx_auto_destroy(auto);
            let mut p = P::new(c);
            for i in 0..n {
                p.req(&ex(i).0);
            }
            p.close();
            transitions(p.calls);
            let ev = take_events();
            let mut seen = vec![0; n + 1];
            for e in ev.iter().filter(|e| e.h == H::TX_COMPLETE) {
                seen[e.tx.min(n)] += 1;
            }
            same("transaction-complete callbacks", seen.iter().take(n).filter(|x| **x == 1).count(), n)?;
            same("transactions left", (0..n).filter(|i| p.c.tx(*i).is_some()).count(), if auto { 0 } else { n })?;
        }
        Ok(())
    });
}

pub fn property(ctx: &Ctx, id: &str) {
    let quick = ctx.quick();
    if ctx.id == id && !["C06", "C29", "C32"].contains(&id) {
        ctx.rule("Size ladders: every dimension that can be large, through all values up to 40 and all powers of two and ten with their neighbours up to its bound, whole and in pieces (the notes list them)");
    }
    let req: Vec<usize> = (0..11).collect();
    let resp: Vec<usize> = (11..22).collect();
    let long = if quick { 3000 } else { 20_000 };
    match id {
        "C01" => cutfree(ctx, &req),
        "C02" => cutfree(ctx, &resp),
        "C04" | "C14" => {
            run(ctx, "gap in a body", &ladder(1 << 61), |n| {
                if n == 0 {
                    return Ok(());
                }
                for resp in [false, true] {
                    let l = n as u64;
                    gaps(resp, &[(false, 3), (true, n), (false, 4)], Some(l + 7))?;
                    gaps(resp, &[(true, n), (false, 4)], Some(l + 4))?;
                    gaps(resp, &[(false, 4), (true, n)], Some(l + 5))?;
                    gaps(resp, &[(true, n), (false, 1), (true, n)], Some(2 * l + 2))?;
                    if n <= 300_000 {
                        gaps(resp, &[(false, n), (true, 7), (false, 4)], Some(l + 11))?;
                        gaps(resp, &[(false, n), (false, n), (false, 1)], Some(2 * l + 1))?;
                    }
                }
                gaps(true, &[(false, 3), (true, n), (false, 4)], None)
            });
            run(ctx, "gaps in a body", &ladder(1030), |n| {
                for resp in [false, true] {
                    let p: Vec<(bool, usize)> = (0..n).map(|i| (i % 2 == 0, 1 + i % 5)).collect();
                    let l: usize = p.iter().map(|x| x.1).sum();
                    gaps(resp, &p, Some(l as u64 + 1))?;
                }
                Ok(())
            });
        }
        "C05" => {
            // the callbacks do not depend on sizes
            dims(ctx, &(0..22).collect::<Vec<_>>(), |q, s, d, n| {
                if n == 0 {
                    return Ok(());
                }
                let (q1, s1) = dim(d, 1);
                talk(big(), &q1, &s1, 0);
                let want = kinds(take_events());
                for way in ways(q.wire().len() + s.wire().len()) {
                    reset();
                    talk(big(), q, s, way);
                    let got = kinds(take_events());
                    if got != want {
                        return Err(format!("callbacks {:?} instead of {:?}", got, want));
                    }
                }
                Ok(())
            });
            run(ctx, "sequential exchanges", &[long], |n| sequential(n, false, |_, _| Ok(())));
        }
        "C07" => {
            faithful(ctx, &(0..22).collect::<Vec<_>>());
            // bodies of which only the beginning arrives
            run(ctx, "announced length", &ladder(1 << 62), |n| {
                if n > 10 {
                    for resp in [false, true] {
                        gaps(resp, &[(false, 4), (false, 6)], Some(n as u64))?;
                    }
                }
                Ok(())
            });
        }
        "C08" => {
            run(ctx, "pipelined exchanges", &ladder(long as u64)[1..], |n| {
                for auto in [false, true] {
                    for way in [0, 1, 1000] {
                        reset();
                        let mut c = big();
                        c.set_tx_auto_destroy(auto);
                        let mut p = P::new(c);
                        let q: Vec<u8> = (0..n).flat_map(|i| ex(i).0).collect();
                        let s: Vec<u8> = (0..n).flat_map(|i| ex(i).1).collect();
                        for x in pieces(&q, way) {
                            same("request answer", p.req(x), St::DATA)?;
                        }
                        for x in pieces(&s, way) {
                            same("response answer", p.resp(x), St::DATA)?;
                        }
                        transitions(p.calls);
                        let ev = take_events();
                        let mut of: Vec<Vec<Ev>> = vec![vec![]; n + 1];
                        for e in ev {
                            let i = e.tx.min(n);
                            of[i].push(e);
                        }
                        for i in 0..n {
                            once(&of[i], i, &ENDS)?;
                            match p.tx(i) {
                                Some(t) => paired(&t, &of[i], i)?,
                                None => same("body", body(&of[i], H::RESP_BODY_DATA, i), i.to_string().into_bytes())?,
                            }
                            same("kept", p.c.tx(i).is_some(), !auto)?;
                        }
                        same("transactions", p.c.tx_size(), n)?;
                        same("pipelined", p.c.conn.flags & ConnectionFlags::PIPELINED != 0, n > 1)?;
                    }
                }
                Ok(())
            });
            run(ctx, "sequential exchanges, removed automatically", &[70_000], |n| sequential(n, true, |_, _| Ok(())));
            run(ctx, "sequential exchanges, kept", &[long], |n| sequential(n, false, |_, _| Ok(())));
        }
        "C09" => {
            run(ctx, "interim responses", &ladder(1030), |n| {
                for way in [0, 1, 1000] {
                    reset();
                    let mut p = P::new(big());
                    p.req(b"GET /0 HTTP/1.1\r\nHost: h\r\n\r\n");
                    let s = [&b"HTTP/1.1 100 Continue\r\nI: j\r\n\r\n".repeat(n)[..], &ex(0).1].concat();
                    for x in pieces(&s, way) {
                        same("answer", p.resp(x), St::DATA)?;
                    }
                    let ev = take_events();
                    let t = p.tx(0).ok_or("no transaction")?;
                    paired(&t, &ev, 0)?;
                    same("status", t.response_status_number, "VALID(200)".into())?;
                    same("seen 100", t.seen_100, n > 0)?;
                    once(&ev, 0, &[H::RESP_COMPLETE, H::TX_COMPLETE])?;
                    transitions(p.calls);
                }
                Ok(())
            });
            run(ctx, "tunnelled bytes", &ladder(70_000), |n| {
                for connect in [false, true] {
                    reset();
                    let mut p = P::new(big());
                    let (q, s): (&[u8], &[u8]) = if connect { (b"CONNECT h:1 HTTP/1.1\r\nHost: h:1\r\n\r\n", b"HTTP/1.1 200 OK\r\n\r\n") } else { (b"GET / HTTP/1.1\r\nHost: h\r\nUpgrade: x\r\nConnection: upgrade\r\n\r\n", b"HTTP/1.1 101 Switching\r\nUpgrade: x\r\nConnection: upgrade\r\n\r\n") };
                    p.req(q);
                    p.resp(s);
                    reset();
                    if connect {
                        same("first bytes", p.req(b"\x16\x03\x01\x00\n"), St::TUNNEL)?;
                    }
                    let x = noise(n.max(1));
                    let (a, b) = (p.c.conn.request_data_counter, p.c.conn.response_data_counter);
                    for _ in 0..2 {
                        same("request", p.req(&x), St::TUNNEL)?;
                        same("response", p.resp(&x), St::TUNNEL)?;
                    }
                    same("counted", (p.c.conn.request_data_counter - a, p.c.conn.response_data_counter - b), (2 * x.len() as u64, 2 * x.len() as u64))?;
                    same("transactions", p.c.tx_size(), 1)?;
                    transitions(p.calls);
                }
                Ok(())
            });
            run(ctx, "refused CONNECTs", &ladder(300), |n| {
                reset();
                let mut p = P::new(big());
                for _ in 0..n {
                    p.req(b"CONNECT h:1 HTTP/1.1\r\nHost: h:1\r\n\r\n");
                    same("refusal", p.resp(b"HTTP/1.1 403 No\r\nContent-Length: 2\r\n\r\nno"), St::DATA)?;
                }
                reset();
                same("request", p.req(&ex(n).0), St::DATA)?;
                same("response", p.resp(&ex(n).1), St::DATA)?;
                transitions(p.calls);
                paired(&p.tx(n).ok_or("no transaction")?, &take_events(), n)
            });
        }
        "C10" => {
            for w in 0..5 {
                run(ctx, &format!("callbacks on event {}", w), &ladder(300), |n| callbacks(n, w));
            }
        }
        "C11" => limits(ctx),
        "C12" => compressed(ctx),
        "C13" => {
            run(ctx, "bytes behind the end", &ladder(70_000), |n| {
                for (label, e) in [("gzip", Enc::Gzip(0)), ("deflate", Enc::Raw)] {
                    for way in [0, 1, 1000] {
                        reset();
                        let (mut q, mut s) = (Msg::req(), Msg::resp());
                        q.start[0] = b"GET".to_vec();
                        let plain = text(100);
                        s.hdrs.push((b"Content-Encoding".to_vec(), label.into()));
                        s.body = [encode(e, 6, &plain), noise(n)].concat();
                        s.fr = Fr::Cl;
                        let mut c = big();
                        c.set_request_decompression(true);
                        let (p, a, b) = talk(c, &q, &s, way);
                        same("answers", (a, b), (St::DATA, St::DATA))?;
                        let ev = take_events();
                        bytes("body", &body(&ev, H::RESP_BODY_DATA, 0), &plain)?;
                        let (q2, s2) = second();
                        exact(&p.tx(1).ok_or("no second transaction")?, &ev, &q2, &s2)?;
                    }
                }
                Ok(())
            });
        }
        "C15" => targets(ctx),
        "C16" => paths(ctx),
        "C17" => params(ctx),
        "C18" => {
            faithful(ctx, &[6, 7, 18]);
            lines(ctx);
        }
        "C19" => {
            faithful(ctx, &[3, 4, 5, 8, 9, 15, 16, 17, 19, 20]);
            fields(ctx);
        }
        "C20" => {
            faithful(ctx, &[0, 1, 11, 12, 14]);
            announced(ctx);
        }
        "C21" => credentials(ctx),
        "C22" | "C31" => {
            run(ctx, "log records", &ladder(3000), |n| {
                logged(n, false)?;
                logged(n, true)
            });
            if id == "C31" {
                run(ctx, "gap in a body", &ladder(1 << 61), |n| if n == 0 { Ok(()) } else { [false, true].iter().try_for_each(|r| gaps(*r, &[(false, 3), (true, n), (false, 4)], Some(n as u64 + 7))) });
            }
        }
        "C23" => {
            use crate::c23::{both, Op, Opt};
            use crate::hist::A;
            for d in 0..22 {
                let l: Vec<usize> = ladder(top(d).min(9000)).into_iter().filter(|n| *n >= 30 && *n <= 1030 || *n % 1024 == 0).collect();
                run(ctx, DIMS[d], &l, |n| {
                    let (q, s) = dim(d, n);
                    let leak = |w: Vec<u8>| -> &'static [u8] { Box::leak(w.into_boxed_slice()) };
                    let (qw, sw) = (leak(q.wire()), leak(s.wire()));
                    let r = both(&vec![], &[Op::A(A::Q(qw)), Op::A(A::S(sw)), Op::A(A::Close)], &Opt { txhook: true, ud: true, ..Default::default() });
                    unsafe {
                        drop(Box::from_raw(qw as *const [u8] as *mut [u8]));
                        drop(Box::from_raw(sw as *const [u8] as *mut [u8]));
                    }
                    r
                });
            }
            run(ctx, "gap in a body", &ladder(1 << 62), |n| {
                let l = format!("POST / HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", n);
                let m = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", n);
                let leak = |w: String| -> &'static [u8] { Box::leak(w.into_bytes().into_boxed_slice()) };
                both(&vec![], &[Op::A(A::Q(leak(l))), Op::A(A::QG(n.max(1))), Op::A(A::S(leak(m))), Op::A(A::SG(n.max(1))), Op::A(A::Close)], &Opt { txhook: true, ud: true, ..Default::default() })
            });
        }
        "C24" => {
            run(ctx, "byte strings", &ladder(70_000), |n| {
                let x = fill(n);
                let up = x.to_ascii_uppercase();
                let b = |p: &[&[u8]]| p.concat();
                for needle in [&b"Q!Q"[..], b"!", b"z9!"] {
                    crate::c24::pair(&b(&[&x, needle, &x]), needle)?;
                    crate::c24::pair(&b(&[&x, b"\0", needle, b"\0"]), needle)?;
                    crate::c24::pair(&b(&[&b"\0".repeat(n), needle]), needle)?;
                }
                if n <= 9000 {
                    crate::c24::pair(&x, &up)?;
                    crate::c24::pair(&b(&[&x, b"!"]), &x)?;
                    crate::c24::pair(&x, &b(&[&x, b"!"]))?;
                    crate::c24::pair(&b(&[&b" ".repeat(n), b"a", &b"\t".repeat(n)]), b"A")?;
                }
                crate::c24::noex(n, &x[..n / 2], &x)?;
                Ok(())
            });
            run(ctx, "tables", &ladder(3000), |n| {
                crate::c24::table(&(0..n).map(|i| [5, 15, 14, 2][i % 4]).collect::<Vec<_>>())?;
                crate::c24::table(&(0..n).map(|_| 5).chain([0, 3]).collect::<Vec<_>>())
            });
        }
        "C25" => chunked(ctx),
        "C26" => closing(ctx),
        "C27" => {
            run(ctx, "HTTP/0.9 bodies", &ladder(70_000), |n| {
                for way in [0, 1, 1000] {
                    reset();
                    let mut p = P::new(big());
                    let t = [b"/", &fill(n)[..]].concat();
                    same("request", p.req(&[b"GET ", &t[..], b"\r\n"].concat()), St::DATA)?;
                    let x = noise(n.max(1));
                    for y in pieces(&x, way) {
                        same("response", p.resp(y), St::DATA)?;
                        same("extra", p.req(y), St::DATA)?;
                    }
                    p.close();
                    transitions(p.calls);
                    let ev = take_events();
                    let tx = p.tx(0).ok_or("no transaction")?;
                    bytes("target", &tx.request_uri.clone().unwrap_or_default(), &t)?;
                    bytes("body", &body(&ev, H::RESP_BODY_DATA, 0), &x)?;
                    same("0.9", tx.is_protocol_0_9, true)?;
                    same("progress", (tx.rp, tx.sp), (5, 5))?;
                    same("transactions", p.c.tx_size(), 1)?;
                }
                Ok(())
            });
        }
        "C28" => {
            run(ctx, "responses without request", &ladder(1030)[1..], |n| {
                for way in [0, 1, 1000] {
                    reset();
                    let mut p = P::new(big());
                    let s: Vec<u8> = (0..n).flat_map(|i| ex(i).1).collect();
                    for x in pieces(&s, way) {
                        same("answer", p.resp(x), St::DATA)?;
                    }
                    let ev = take_events();
                    for i in 0..n {
                        let t = p.tx(i).ok_or("no transaction")?;
                        bytes("body", &body(&ev[..], H::RESP_BODY_DATA, i), i.to_string().as_bytes())?;
                        same("method", t.request_method, None)?;
                        same("progress", t.sp, 5)?;
                    }
                    same("request", p.req(&ex(n).0), St::DATA)?;
                    same("response", p.resp(&ex(n).1), St::DATA)?;
                    transitions(p.calls);
                    paired(&p.tx(n).ok_or("no transaction for the request")?, &take_events(), n)?;
                }
                Ok(())
            });
        }
        "C30" => {
            run(ctx, "exchanges removed by hand", &[70_000], |n| {
                sequential(n, false, |p, i| {
                    p.c.remove_tx(i);
                    same("removed", p.c.tx(i).is_some(), false)
                })
            });
        }
        "C03" => {
            for o in ["C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C20", "C21", "C22", "C24", "C25", "C26", "C27", "C28"] {
                property(ctx, o);
            }
            lines(ctx);
            fields(ctx);
        }
        _ => {}
    }
}
