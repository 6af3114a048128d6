//! C32: what is destroyed gives its memory back, and what passes through leaves none behind.
//! Every byte the thread holds is counted by the allocator of this program.
use crate::alloc::{live, peak};
use crate::eng::*;
use crate::gen::*;
use crate::hist::{self, A};
use htp::c_api::{config::*, connection::*, connection_parser::*, log::*, transaction::*, *};
use htp::config::*;
use htp::connection_parser::{ConnectionParser, ParserData};
use htp::transaction::{HtpRequestProgress, HtpResponseProgress, Transaction};
use htp::HtpStatus;
use std::ptr::null;

fn quiet_t(_: &mut Transaction) -> Result<(), HtpStatus> {
    Ok(())
}
fn quiet_d(_: &mut Transaction, _: &ParserData) -> Result<(), HtpStatus> {
    Ok(())
}

/// A configuration whose callbacks keep nothing.
fn base() -> Config {
    let mut c = Config::default();
    c.hook_request_start.register(quiet_t);
    c.hook_request_headers.register(quiet_t);
    c.hook_request_header_data.register(quiet_d);
    c.hook_request_body_data.register(quiet_d);
    c.hook_request_trailer_data.register(quiet_d);
    c.hook_response_headers.register(quiet_t);
    c.hook_response_header_data.register(quiet_d);
    c.hook_response_body_data.register(quiet_d);
    c.hook_response_trailer_data.register(quiet_d);
    c.hook_transaction_complete.register(quiet_t);
    c.compression_options.set_time_limit(u32::MAX);
    c
}

fn open(cfg: Config) -> Box<ConnectionParser> {
    let mut c = Box::new(ConnectionParser::new(cfg));
    c.open(None, Some(32768), None, Some(80), None);
    c
}

/// What the closure leaves allocated. Something that is set up once and for all (a table, a cache
/// of the runtime) is not a leak, so only what every one of four runs leaves behind counts.
fn left(mut f: impl FnMut()) -> isize {
    let mut least = isize::MAX;
    for _ in 0..4 {
        let a = live();
        f();
        least = least.min(live() - a);
        if least <= 0 {
            break;
        }
    }
    least
}

#[derive(Clone, Debug)]
enum O {
    Q(Vec<u8>),
    S(Vec<u8>),
    QG(usize),
    SG(usize),
    QClose,
    Close,
    /// remove what is complete
    Remove,
    /// take the log records
    Logs,
    /// give the connection and the transactions data of the user
    Data,
}

fn text(s: &[O]) -> String {
    s.iter()
        .map(|o| match o {
            O::Q(b) => format!("req[{}]", show(b)),
            O::S(b) => format!("resp[{}]", show(b)),
            o => format!("{:?}", o),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn step(c: &mut ConnectionParser, o: &O) {
    match o {
        O::Q(b) => drop(c.request_data(ParserData::from(&b[..]), None)),
        O::S(b) => drop(c.response_data(ParserData::from(&b[..]), None)),
        O::QG(n) => drop(c.request_data(ParserData::from(*n), None)),
        O::SG(n) => drop(c.response_data(ParserData::from(*n), None)),
        O::QClose => c.request_close(None),
        O::Close => c.close(None),
        O::Remove => remove(c),
        O::Logs => drop(c.conn.get_logs()),
        O::Data => {
            c.set_user_data(Box::new(vec![1u8; 100]));
            for i in 0..c.tx_size() {
                if let Some(t) = c.tx_mut(i) {
                    t.set_user_data(Box::new(String::from("the user's")));
                }
            }
        }
    }
}

fn remove(c: &mut ConnectionParser) {
    for i in 0..c.tx_size() {
        if c.tx(i).is_some_and(|t| t.request_progress == HtpRequestProgress::COMPLETE && t.response_progress == HtpResponseProgress::COMPLETE) {
            c.remove_tx(i);
        }
    }
}

/// The same through the C functions, with everything they hand out given back.
unsafe fn through_c(cfg: &dyn Fn(*mut Config), seq: &[O]) {
    let c = htp_config_create();
    htp_config_set_compression_time_limit(c, u32::MAX);
    cfg(c);
    let p = htp_connp_create(c);
    htp_config_destroy(c);
    htp_connp_open(p, null(), 1024, null(), 80, null());
    for o in seq {
        match o {
            O::Q(b) => drop(htp_connp_request_data(p, null(), b.as_ptr() as *const _, b.len())),
            O::S(b) => drop(htp_connp_response_data(p, null(), b.as_ptr() as *const _, b.len())),
            O::QG(n) => drop(htp_connp_request_data(p, null(), null(), *n)),
            O::SG(n) => drop(htp_connp_response_data(p, null(), null(), *n)),
            O::QClose => htp_connp_request_close(p, null()),
            O::Close => htp_connp_close(p, null()),
            O::Remove => {
                for i in 0..htp_connp_tx_size(p).max(0) as usize {
                    let t = htp_connp_tx(p, i);
                    if !t.is_null() && htp_tx_request_progress(t) == HtpRequestProgress::COMPLETE && htp_tx_response_progress(t) == HtpResponseProgress::COMPLETE {
                        htp_tx_destroy(p, t);
                    }
                }
            }
            O::Logs | O::Data => loop {
                let l = htp_conn_next_log(htp_connp_connection(p));
                if l.is_null() {
                    break;
                }
                htp_free_cstring(htp_log_message(l));
                htp_free_cstring(htp_log_file(l));
                htp_log_free(l);
            },
        }
    }
    htp_connp_destroy_all(p);
}

fn configs() -> Vec<(&'static str, fn(&mut Config))> {
    let mut v: Vec<(&'static str, fn(&mut Config))> = hist::configs().into_iter().map(|c| (c.name, c.f)).collect();
    v.push(("rich", |c| {
        c.set_request_decompression(true);
        c.set_parse_urlencoded(true);
        c.set_flush_incomplete(true);
        c.set_tx_auto_destroy(true);
    }));
    v
}

/// Pieces of compressed messages and others that make the parser hold something.
fn extra() -> Vec<O> {
    let gz = gzip(b"some text, some text, some text");
    let lz = lzma(b"some text, some text, some text");
    let m = |l: String, b: &[u8]| cat(&[l.as_bytes(), b]);
    vec![
        O::Q(b"GET http://u:p@h:81/a/%2e./b?x=1&y=%41&x=2#f HTTP/1.1\r\nHost: g\r\nCookie: a=b; c=d\r\nAuthorization: Digest username=\"x\"\r\nA: 1\r\nA: 2\r\n\r\n".to_vec()),
        O::Q(m(format!("POST / HTTP/1.1\r\nContent-Encoding: gzip, deflate\r\nContent-Length: {}\r\n\r\n", gz.len()), &gz[..12])),
        O::Q(gz[12..].to_vec()),
        O::Q(b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\nContent-Encoding: lzma\r\nA: b\r\n  c".to_vec()),
        O::S(m(format!("HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: {}\r\n\r\n", gz.len()), &gz[..12])),
        O::S(gz[12..].to_vec()),
        O::S(m(format!("HTTP/1.1 200 OK\r\nContent-Encoding: lzma\r\nContent-Length: {}\r\n\r\n", lz.len()), &lz[..16])),
        O::S(m(format!("HTTP/1.1 200 OK\r\nContent-Encoding: gzip, lzma, deflate\r\nContent-Length: {}\r\n\r\n", lz.len()), &lz[..])),
        O::S(b"HTTP/1.1 200 OK\r\nContent-Type: a/b; c\r\nSet-Cookie: x\r\nSet-Cookie: y\r\nContent-Length: z\r\n".to_vec()),
        O::S(b"GARBAGE".to_vec()),
        O::Remove,
        O::Logs,
        O::Data,
    ]
}

fn report(ctx: &Ctx, kind: &str, what: String, r: Result<isize, String>) {
    match r {
        // a panic is C03's business
        Err(_) => {}
        Ok(n) if n > 0 => ctx.violation(format!("memory:{}", kind), format!("{}: {} bytes stay behind: {}", kind, n, what), what.clone()),
        Ok(_) => {}
    }
}

/// Something sent again and again behind a beginning.
struct Stream {
    name: &'static str,
    setup: Vec<O>,
    round: Vec<O>,
}

fn stored(b: &[u8]) -> Vec<u8> {
    let n = b.len() as u16;
    cat(&[&[0], &n.to_le_bytes(), &(!n).to_le_bytes(), b])
}

fn streams() -> Vec<Stream> {
    let q = |s: &[u8]| O::Q(s.to_vec());
    let s = |s: &[u8]| O::S(s.to_vec());
    let get = || q(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
    let mut v = vec![];
    let mut add = |name: &'static str, setup: Vec<O>, round: Vec<O>| v.push(Stream { name, setup, round });
    let post = |h: &str| q(format!("POST / HTTP/1.1\r\nHost: h\r\n{}\r\n", h).as_bytes());
    let ok = |h: &str| s(format!("HTTP/1.1 200 OK\r\n{}\r\n", h).as_bytes());
    let (cl, ch) = ("Content-Length: 1000000000\r\n", "Transfer-Encoding: chunked\r\n");
    let block = vec![b'x'; 1000];
    add("request body", vec![post(cl)], vec![q(b"a")]);
    add("request body, big pieces", vec![post(cl)], vec![q(&block)]);
    add("gaps in a request body", vec![post(cl)], vec![O::QG(100), q(b"a")]);
    add("request chunks", vec![post(ch)], vec![q(b"5\r\nhello\r\n")]);
    add("request chunks in pieces", vec![post(ch)], vec![q(b"5\r"), q(b"\nhe"), q(b"llo\r"), q(b"\n")]);
    add("request chunk extensions", vec![post(ch)], vec![q(b"5;a=b\r\nhello\r\n"), O::Logs]);
    add("empty lines before a request", vec![], vec![q(b"\r\n")]);
    add("empty lines before a request, two at once", vec![], vec![q(b"\r\n\r\n"), O::Logs]);
    add("tunnel", vec![q(b"CONNECT h:1 HTTP/1.1\r\nHost: h:1\r\n\r\n"), ok(""), q(b"\x16\x03\0\n")], vec![q(b"\x16\x03\x01abc"), s(b"\x16\x03\x01"), O::Logs]);
    add("upgraded", vec![q(b"GET / HTTP/1.1\r\nHost: h\r\nUpgrade: x\r\nConnection: Upgrade\r\n\r\n"), s(b"HTTP/1.1 101 Go\r\nUpgrade: x\r\n\r\n")], vec![q(b"\x81\x05abc"), s(b"\x81\x05abc"), O::Logs]);
    add("failed request stream", vec![post("Transfer-Encoding: x\r\n")], vec![q(b"abc\r\n"), O::Logs]);
    add("failed response stream", vec![get(), ok("Content-Length: x\r\n")], vec![s(b"abc\r\n"), O::Logs]);
    add("response body", vec![get(), ok(cl)], vec![s(b"a")]);
    add("response body, big pieces", vec![get(), ok(cl)], vec![s(&block)]);
    add("gaps in a response body", vec![get(), ok(cl)], vec![O::SG(100), s(b"a")]);
    add("response to the end", vec![get(), s(b"HTTP/1.0 200 OK\r\n\r\n")], vec![s(b"abc\r\n")]);
    add("response chunks", vec![get(), ok(ch)], vec![s(b"5\r\nhello\r\n")]);
    add("response chunks in pieces", vec![get(), ok(ch)], vec![s(b"5\r"), s(b"\nhe"), s(b"llo\r"), s(b"\n")]);
    add("response chunk extensions", vec![get(), ok(ch)], vec![s(b"5;a=b\r\nhello\r\n"), O::Logs]);
    add("0.9 response", vec![q(b"GET /\r\n")], vec![s(b"abc\n")]);
    add("request in 0.9", vec![q(b"GET /\r\n")], vec![q(b"abc\n"), O::Logs]);
    add("repeated request field", vec![q(b"GET / HTTP/1.1\r\n")], vec![q(b"A: b\r\n"), O::Logs]);
    add("repeated response field", vec![get(), s(b"HTTP/1.1 200 OK\r\n")], vec![s(b"A: b\r\n"), O::Logs]);
    for (n, ce, head) in [("gzip", "gzip", &b"\x1f\x8b\x08\0\0\0\0\0\0\x03"[..]), ("deflate", "deflate", b""), ("zlib", "deflate", b"\x78\x01")] {
        let first = cat(&[head, &stored(b"begin")]);
        let name = |r: bool| -> &'static str {
            match (n, r) {
                ("gzip", true) => "gzip request",
                ("gzip", false) => "gzip response",
                ("deflate", true) => "deflate request",
                ("deflate", false) => "deflate response",
                (_, true) => "zlib request",
                _ => "zlib response",
            }
        };
        let h = format!("Content-Encoding: {}\r\n{}", ce, cl);
        add(name(true), vec![post(&h), q(&first)], vec![q(&stored(b"some more text"))]);
        add(name(false), vec![get(), ok(&h), s(&first)], vec![s(&stored(b"some more text"))]);
    }
    let two = format!("Content-Encoding: gzip, deflate\r\n{}", cl);
    add("two codings", vec![get(), ok(&two), s(&stored(&cat(&[b"\x1f\x8b\x08\0\0\0\0\0\0\x03", &stored(b"begin")])))], vec![s(&stored(&stored(b"some more text")))]);
    add("damaged gzip", vec![get(), ok(&format!("Content-Encoding: gzip\r\n{}", cl)), s(b"not gzip at all, is it")], vec![s(b"some more text"), O::Logs]);
    // whole exchanges, each removed when it is complete
    let gz = gzip(b"hello, hello, hello");
    let gl = format!("Content-Encoding: gzip\r\nContent-Length: {}\r\n", gz.len());
    let with = |h: O, b: &[u8]| match h {
        O::Q(x) => O::Q(cat(&[&x, b])),
        O::S(x) => O::S(cat(&[&x, b])),
        o => o,
    };
    add("exchanges", vec![], vec![get(), ok("Content-Length: 0\r\n"), O::Logs, O::Remove]);
    add("exchanges in pieces", vec![], vec![q(b"GET /a?b=c HTTP/1.1\r\nHo"), q(b"st: h\r\n"), q(b"\r\n"), s(b"HTTP/1.1 2"), s(b"00 OK\r\nContent-Length: 2\r\nA:"), s(b" b\r\n\r\no"), s(b"k"), O::Logs, O::Remove]);
    add("chunked exchanges", vec![], vec![with(post(ch), b"3\r\nabc\r\n0\r\nT: u\r\n\r\n"), with(ok(ch), b"3\r\nabc\r\n0\r\nT: u\r\n\r\n"), O::Logs, O::Remove]);
    add("compressed exchanges", vec![], vec![with(post(&gl), &gz), with(ok(&gl), &gz), O::Logs, O::Remove]);
    add("pipelined exchanges", vec![], vec![q(b"GET /1 HTTP/1.1\r\nHost: h\r\n\r\nGET /2 HTTP/1.1\r\nHost: h\r\n\r\n"), s(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"), O::Logs, O::Remove]);
    add("damaged exchanges", vec![], vec![q(b"GET  /%zz HTTP/1.1\r\nno colon\r\n: x\r\nHost: a\r\nHost: b\r\nAuthorization: Basic ?\r\n\r\n"), s(b"HTTP/1.1 999999 ?\r\nContent-Length: 0\r\nx\r\nContent-Length: 0\r\n\r\n"), O::Logs, O::Remove]);
    add("interim exchanges", vec![], vec![post("Expect: 100-continue\r\nContent-Length: 2\r\n"), s(b"HTTP/1.1 100 Continue\r\n\r\n"), q(b"ab"), ok("Content-Length: 0\r\n"), O::Logs, O::Remove]);
    add("head exchanges", vec![], vec![q(b"HEAD / HTTP/1.1\r\nHost: h\r\n\r\n"), ok("Content-Length: 9\r\n"), O::Data, O::Logs, O::Remove]);
    add("refused tunnels", vec![], vec![q(b"CONNECT h:1 HTTP/1.1\r\nHost: h:1\r\n\r\n"), s(b"HTTP/1.1 403 No\r\nContent-Length: 0\r\n\r\n"), O::Logs, O::Remove]);
    add("unsolicited responses", vec![], vec![ok("Content-Length: 0\r\n"), O::Logs, O::Remove]);
    v
}

fn endless(cfg: fn(&mut Config), st: &Stream, skip: bool) -> isize {
    let mut c = base();
    c.set_request_decompression(true);
    cfg(&mut c);
    let mut c = open(c);
    for o in &st.setup {
        step(&mut c, o);
    }
    drop(c.conn.get_logs());
    let (mut early, mut late) = (0, 0);
    let start = live();
    for i in 0..400 {
        for o in &st.round {
            if skip && matches!(o, O::Remove) {
                continue;
            }
            step(&mut c, o);
        }
        drop(c.conn.get_logs());
        let l = live() - start;
        if (64..130).contains(&i) {
            early = early.max(l);
        } else if i >= 260 {
            late = late.max(l);
        }
    }
    transitions(400 * st.round.len() as u64);
    outcome(h64(&(early, late)));
    late - early
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule("an allocator counts what the thread holds. (1) Every history up to the bound over 45 calls (fragments of messages that drive both machines through all their states, compressed and damaged ones, gaps, removing, draining logs, user data, closing), under six configurations, ends with the parser destroyed, and nothing stays behind, through the Rust interface and through the C functions; the same behind every prefix of longer messages. (2) Every kind of stream (bodies of every framing and coding, tunnels, failed streams, empty lines, repeated fields, gaps, and whole exchanges that are removed when complete) is continued for 400 rounds: the last 140 hold no more than rounds 64 to 130. (3) A line that does not end never makes the parser hold more than a fixed multiple of the configured limit. Non-trivial: the history makes the parser hold something.");
    ctx.assume("something allocated once per process or thread (on the first of four runs of a history only) is not a leak");
    let cfgs = configs();
    let mut ops: Vec<O> = hist::alphabet()
        .into_iter()
        .map(|a| match a {
            A::Q(b) => O::Q(b.to_vec()),
            A::S(b) => O::S(b.to_vec()),
            A::QG(n) => O::QG(n),
            A::SG(n) => O::SG(n),
            A::QClose => O::QClose,
            A::Close | A::Open => O::Close,
        })
        .collect();
    ops.extend(extra());
    let n = ops.len();
    ctx.note("calls", n);
    let one = |k: usize, seq: &[O], c_too: bool| {
        let (name, f) = cfgs[k];
        let t = text(seq);
        begin(&[name.as_bytes(), t.as_bytes()]);
        let r = guarded(|| {
            left(|| {
                let mut c = base();
                f(&mut c);
                let mut c = open(c);
                let a = live();
                for o in seq {
                    step(&mut c, o);
                }
                if live() > a {
                    nontrivial();
                }
                transitions(seq.len() as u64);
                outcome(h64(&(live() - a)));
            })
        });
        report(ctx, "destroyed", format!("{} {}", name, t), r);
        if c_too {
            let set = |c: *mut Config| unsafe {
                match k {
                    1 => htp_config_set_tx_auto_destroy(c, 1),
                    5 => {
                        htp_config_set_request_decompression(c, 1);
                        htp_config_set_flush_incomplete(c, 1)
                    }
                    _ => {}
                }
            };
            let r = guarded(|| left(|| unsafe { through_c(&set, seq) }));
            report(ctx, "destroyed through C", format!("{} {}", name, t), r);
        }
    };
    let deep = ctx.pick(3, 4);
    ctx.par(cfgs.len() * n, |i| format!("{} {:?}", cfgs[i / n].0, ops[i % n]), |i| {
        fn rec(ops: &[O], left: usize, seq: &mut Vec<O>, f: &dyn Fn(&[O])) {
            f(seq);
            if left > 0 {
                for o in ops {
                    seq.push(o.clone());
                    rec(ops, left - 1, seq, f);
                    seq.pop();
                }
            }
        }
        let k = i / n;
        let mut seq = vec![ops[i % n].clone()];
        if i % 37 == 0 {
            ctx.sample(text(&seq));
        }
        // the last configurations one step less deep
        rec(&ops, if k < 2 || k == 5 { deep - 1 } else { deep - 2 }, &mut seq, &|s| one(k, s, matches!(k, 0 | 1 | 5) && s.len() < 3));
    });
    // destroyed after every byte of longer messages
    let mut msgs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for b in requests() {
        msgs.push((b, vec![]));
    }
    for (_, b) in requests_more().into_iter().map(|b| (0, b)) {
        msgs.push((b, vec![]));
    }
    for b in responses().into_iter().chain(responses_more().into_iter().map(|x| x.1)).chain(compressed_bodies()) {
        msgs.push((b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec(), b));
    }
    ctx.par(msgs.len(), |i| show(&msgs[i].0), |i| {
        let (q, s) = &msgs[i];
        let m = if s.is_empty() { q } else { s };
        for e in 0..=m.len() {
            let seq = if s.is_empty() { vec![O::Q(q[..e].to_vec())] } else { vec![O::Q(q.clone()), O::S(s[..e].to_vec())] };
            for k in [0, 5] {
                one(k, &seq, true);
                let mut t = seq.clone();
                t.push(O::Close);
                one(k, &t, false);
            }
        }
    });
    // streams
    let st = streams();
    ctx.note("streams", st.len());
    ctx.par(st.len() * cfgs.len(), |i| st[i / cfgs.len()].name.to_string(), |i| {
        let x = &st[i / cfgs.len()];
        let (name, f) = cfgs[i % cfgs.len()];
        for skip in [false, true] {
            // without removing, only automatic destruction keeps the list short
            if skip && !(x.round.iter().any(|o| matches!(o, O::Remove)) && matches!(name, "auto_destroy" | "rich" | "tight")) {
                continue;
            }
            begin(&[name.as_bytes(), x.name.as_bytes()]);
            nontrivial();
            match guarded(|| endless(f, x, skip)) {
                Ok(d) if d > 64 => ctx.violation(format!("memory:{}", x.name), format!("{} under {}: 270 rounds more hold {} bytes more", x.name, name, d), format!("{} {}", name, text(&x.round))),
                _ => {}
            }
        }
    });
    // endless lines
    let heads: &[(&str, bool)] = &[("", true), ("GET /", true), ("GET / HTTP/1.1\r\nA: ", true), ("GET / HTTP/1.1\r\nA: b\r\n ", true), ("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5;", true), ("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\nT: ", true), ("HTTP/1.1 200 ", false), ("HTTP/1.1 200 OK\r\nA: ", false), ("HTTP/1.1 200 OK\r\nA: b\r\n ", false), ("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5;", false), ("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\nT: ", false), ("junk", false)];
    let limits = [1000usize, 3000, 18000];
    ctx.par(heads.len() * limits.len() * 3, |i| heads[i % heads.len()].0.to_string(), |i| {
        let (h, rq) = heads[i % heads.len()];
        let lim = limits[i / heads.len() % 3];
        let size = [1usize, 37, 64][i / heads.len() / 3] * if lim > 1000 { 20 } else { 1 };
        begin(&[h.as_bytes(), &lim.to_le_bytes(), &size.to_le_bytes()]);
        nontrivial();
        let r = guarded(|| {
            let mut c = base();
            c.set_field_limit(lim);
            let mut c = open(c);
            if !rq {
                step(&mut c, &O::Q(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()));
            }
            let a = live();
            peak();
            let piece = vec![b'a'; size];
            let mk = |b: &[u8]| if rq { O::Q(b.to_vec()) } else { O::S(b.to_vec()) };
            if !h.is_empty() {
                step(&mut c, &mk(h.as_bytes()));
            }
            let x = mk(&piece);
            let k = 60 * lim / size;
            for _ in 0..k {
                step(&mut c, &x);
                drop(c.conn.get_logs());
            }
            transitions(k as u64);
            peak() - a
        });
        match r {
            Ok(n) if n as usize > 8 * lim + 32768 => ctx.violation("memory:endless line", format!("{} bytes are held for a line that does not end behind {:?} with a limit of {}", n, h, lim), h.to_string()),
            Ok(n) => outcome(n as u64),
            Err(_) => {}
        }
    });
}
