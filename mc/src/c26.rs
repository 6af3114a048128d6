//! C26: the connection is closed at every point of every conversation of the grammar.
//! C27: HTTP/0.9 exchanges.  C28: responses without a request.
use crate::c07::conversations;
use crate::eng::*;
use crate::gen::*;
use crate::model::*;
use crate::rec::*;

/// What closing after a prefix of a message must leave behind.
#[derive(Clone, Debug, Default)]
struct Left {
    started: bool,
    complete: bool,
    /// the start line, possibly unfinished
    line: Vec<u8>,
    line_done: bool,
    /// None: the cut is inside a line end, whether the last line counts is not specified
    headers: Option<Vec<(Vec<u8>, Vec<u8>)>>,
    body: Vec<u8>,
    head_done: bool,
    trailer: bool,
}

fn add(t: &mut Vec<(Vec<u8>, Vec<u8>)>, line: &[u8]) {
    let c = line.iter().position(|b| *b == b':').unwrap();
    let (n, v) = (line[..c].to_vec(), line[c + 1..].trim_ascii().to_vec());
    if let Some(e) = t.iter_mut().find(|e| e.0.eq_ignore_ascii_case(&n)) {
        if !n.eq_ignore_ascii_case(b"content-length") {
            e.1.extend_from_slice(b", ");
            e.1.extend_from_slice(&v);
        }
    } else {
        t.push((n, v));
    }
}

/// Reads complete field lines; returns the rest behind the empty line, or None.
fn fields<'a>(mut p: &'a [u8], t: &mut Vec<(Vec<u8>, Vec<u8>)>, torn: &mut bool) -> Option<&'a [u8]> {
    loop {
        match p.iter().position(|b| *b == b'\n') {
            None => {
                *torn = p.ends_with(b"\r");
                return None;
            }
            Some(n) => {
                let line = p[..n].strip_suffix(b"\r").unwrap_or(&p[..n]);
                p = &p[n + 1..];
                if line.is_empty() {
                    return Some(p);
                }
                add(t, line);
            }
        }
    }
}

/// `p`: the received part of a message (without interim responses).
fn left(p: &[u8], fr: &Fr, no_body: bool, req: bool) -> Left {
    let mut l = Left { started: !p.is_empty(), headers: Some(vec![]), ..Default::default() };
    if p.is_empty() {
        return l;
    }
    let Some(n) = p.iter().position(|b| *b == b'\n') else {
        l.line = p.strip_suffix(b"\r").unwrap_or(p).to_vec();
        l.complete = true;
        return l;
    };
    l.line = p[..n].strip_suffix(b"\r").unwrap_or(&p[..n]).to_vec();
    l.line_done = true;
    let mut t = vec![];
    let mut torn = false;
    let Some(b) = fields(&p[n + 1..], &mut t, &mut torn) else {
        l.complete = true;
        l.headers = if torn { None } else { Some(t) };
        return l;
    };
    l.head_done = true;
    l.headers = Some(t);
    if no_body {
        l.complete = true;
        return l;
    }
    match fr {
        Fr::None => l.complete = true,
        Fr::Cl(x) => {
            l.body = b.to_vec();
            l.complete = !req || b.len() == x.len();
        }
        Fr::Close(_) => {
            l.body = b.to_vec();
            l.complete = true;
        }
        Fr::Chunked { .. } => {
            let mut b = b;
            loop {
                let Some(n) = b.iter().position(|c| *c == b'\n') else { return l };
                let d = b.iter().take_while(|c| c.is_ascii_hexdigit()).count();
                let size = usize::from_str_radix(std::str::from_utf8(&b[..d]).unwrap(), 16).unwrap();
                b = &b[n + 1..];
                if size == 0 {
                    break;
                }
                let k = size.min(b.len());
                l.body.extend_from_slice(&b[..k]);
                b = &b[k..];
                let Some(n) = b.iter().position(|c| *c == b'\n') else { return l };
                b = &b[n + 1..];
            }
            l.complete = true;
            l.trailer = true;
            let t = l.headers.as_mut().unwrap();
            fields(b, t, &mut torn);
            if torn {
                l.headers = None;
            }
        }
    }
    l
}

macro_rules! eq {
    ($n:expr, $a:expr, $b:expr) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: {:?} instead of {:?}", $n, a, b));
        }
    }};
}
fn some(b: &[u8]) -> OB {
    Some(b.to_vec())
}
fn words(l: &[u8]) -> Vec<&[u8]> {
    l.split(|b| *b == b' ').filter(|w| !w.is_empty()).collect()
}

fn cmp_headers(what: &str, got: &[HdrSnap], l: &Left) -> Result<(), String> {
    if let Some(h) = &l.headers {
        let g: Vec<_> = got.iter().map(|h| (h.0.clone(), h.1.clone())).collect();
        eq!(what, g, *h);
    }
    Ok(())
}

fn cmp_req(t: &TxSnap, l: &Left) -> Result<(), String> {
    eq!("request line", t.request_line, some(&l.line));
    let w = words(&l.line);
    eq!("method", t.request_method, some(w[0]));
    eq!("target", t.request_uri.clone().unwrap_or_default(), w.get(1).map(|x| x.to_vec()).unwrap_or_default());
    eq!("protocol", t.request_protocol.clone().unwrap_or_default(), w.get(2).map(|x| x.to_vec()).unwrap_or_default());
    cmp_headers("request headers", &t.request_headers, l)?;
    eq!("request complete", t.rp == 5, l.complete);
    eq!("request entity length", t.request_entity_len, l.body.len() as u64);
    Ok(())
}

fn cmp_resp(t: &TxSnap, l: &Left) -> Result<(), String> {
    eq!("response complete", t.sp == 5, l.complete);
    if !l.started {
        eq!("response progress", t.sp, 0);
        return Ok(());
    }
    let mut w = l.line.splitn(3, |b| *b == b' ');
    let mut next = || w.next().unwrap_or_default().to_vec();
    eq!("response protocol", t.response_protocol.clone().unwrap_or_default(), next());
    eq!("status", t.response_status.clone().unwrap_or_default(), next());
    eq!("message", t.response_message.clone().unwrap_or_default(), next());
    cmp_headers("response headers", &t.response_headers, l)?;
    eq!("response entity length", t.response_entity_len, l.body.len() as u64);
    Ok(())
}

/// Prefixes of messages: where in the sequence the cut is.
fn locate(lens: &[usize], at: usize) -> Vec<usize> {
    let mut rest = at;
    lens.iter()
        .map(|n| {
            let k = rest.min(*n);
            rest -= k;
            k
        })
        .collect()
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule("every conversation of the specification grammar is stopped at every byte of either stream (in one piece, byte by byte, and with one further cut), the connection is closed (all four combinations of flushing and destroying transactions; also closing the request direction first), and every transaction is compared with what an independent reader makes of the received part. Non-trivial: a message is cut in two.");
    lengths(ctx);
    let list = conversations(!ctx.quick());
    // thin out equal shapes in the quick tier
    let list: Vec<_> = list.into_iter().enumerate().filter(|(i, _)| !ctx.quick() || i % 2 == 0).map(|x| x.1).collect();
    ctx.note("conversations", list.len());
    ctx.par(list.len(), |i| list[i].0.clone(), |i| {
        let (_, qs, ss) = &list[i];
        let mut rq = vec![];
        let mut ql = vec![];
        for q in qs {
            let b = q.build().0;
            ql.push(b.len());
            rq.extend_from_slice(&b);
        }
        let mut rs = vec![];
        let mut sl = vec![];
        for s in ss {
            let b = s.build().0;
            sl.push(b.len());
            rs.extend_from_slice(&b);
        }
        if i % 100 == 0 {
            ctx.sample(format!("[{}] / [{}] closed at every byte", show(&rq), show(&rs)));
        }
        let n = rq.len() + rs.len();
        for at in 1..=n {
            let (qa, sa) = (at.min(rq.len()), at.saturating_sub(rq.len()));
            let rest = n - at;
            for flush in [false, true] {
                for auto in [false, true] {
                    for seg in 0..3usize {
                        if seg == 2 && (ctx.quick() && (flush || auto) || qa + sa < 2) {
                            continue;
                        }
                        let how = (flush, auto, seg, at % 2 == 0);
                        one(ctx, qs, ss, &rq[..qa], &rs[..sa], &ql, &sl, how, 0);
                        if sa > 0 && seg == 0 {
                            // the request direction is closed first
                            one(ctx, qs, ss, &rq[..qa], &rs[..sa], &ql, &sl, how, 1);
                        }
                    }
                    if sa == 0 && rest > 0 {
                        // the request stream ends early, the responses still come
                        one(ctx, qs, ss, &rq[..qa], &rs, &ql, &sl, (flush, auto, 0, false), 1);
                    }
                }
            }
        }
    });
}

/// Announced lengths of every magnitude, and bodies of which part arrived.
fn lengths(ctx: &Ctx) {
    let sizes: Vec<u64> = (0..63u32).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]).filter(|n| *n > 0).collect();
    ctx.par(sizes.len(), |i| format!("length {}", sizes[i]), |i| {
        let n = sizes[i];
        for got in [0usize, 1, 2, 3, 1000, 9000] {
            if got as u64 > n {
                continue;
            }
            let data: Vec<u8> = (0..got).map(|k| b'a' + (k % 26) as u8).collect();
            for cut in 0..4usize {
                for flush in [false, true] {
                    for req in [true, false] {
                        let what = format!("{} length {} of which {} arrived, cut {} flush {}", if req { "request" } else { "response" }, n, got, cut, flush);
                        begin(&[what.as_bytes()]);
                        nontrivial();
                        let r = guarded(|| -> Result<(), String> {
                            reset();
                            let mut c = cfg_default();
                            c.set_flush_incomplete(flush);
                            let mut p = P::new(c);
                            let head = if req { format!("POST / HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", n) } else { format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", n) };
                            let m = [head.as_bytes(), &data].concat();
                            if !req {
                                p.req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
                            }
                            let at = [0, head.len(), head.len() - 1, m.len() - 1][cut];
                            for x in segments(&m, &[at]) {
                                if req {
                                    p.req(x);
                                } else {
                                    p.resp(x);
                                }
                            }
                            p.close();
                            transitions(p.calls);
                            let ev = take_events();
                            outcome(h64(&ev));
                            let t = p.tx(0).ok_or("no transaction")?;
                            let full = got as u64 == n;
                            let cnt = |h: H| ev.iter().filter(|e| e.h == h).count();
                            if req {
                                eq!("request complete", (t.rp == 5, cnt(H::REQ_COMPLETE)), (full, full as usize));
                                eq!("request body", body(&ev, H::REQ_BODY_DATA, 0), data);
                                eq!("transaction complete callbacks", cnt(H::TX_COMPLETE), flush as usize);
                            } else {
                                eq!("response complete", (t.sp == 5, cnt(H::RESP_COMPLETE)), (true, 1));
                                eq!("response body", body(&ev, H::RESP_BODY_DATA, 0), data);
                                eq!("transaction complete callbacks", cnt(H::TX_COMPLETE), 1);
                            }
                            Ok(())
                        });
                        let m = match r {
                            Ok(Ok(())) => continue,
                            Ok(Err(m)) => m,
                            Err(m) => format!("panic {}", m),
                        };
                        ctx.violation(format!("length:{}", what), format!("{} for {}", m, what), what);
                    }
                }
            }
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn one(ctx: &Ctx, qs: &[Req], ss: &[Resp], rq: &[u8], rs: &[u8], ql: &[usize], sl: &[usize], how: (bool, bool, usize, bool), rclose: usize) {
    let (flush, auto, seg, early) = how;
    // where the cut falls
    let mut lq = vec![];
    let mut off = 0;
    for (i, k) in locate(ql, rq.len()).into_iter().enumerate() {
        let p = &rq[off..off + k];
        off += k;
        // a beginning of a method cannot be told from stray bytes behind the previous request
        if i > 0 && k > 0 && k < qs[i].method.len() {
            return;
        }
        let mut l = left(p, &qs[i].fr, false, true);
        if words(&l.line).len() == 2 && !l.line_done && p.ends_with(b" ") {
            l.headers = None;
        }
        lq.push(l);
    }
    let nq = lq.iter().filter(|l| l.started).count();
    // responses of requests that never came are another matter
    let mut rs = rs;
    let mut lsv = vec![];
    let mut off = 0;
    for (i, k) in locate(sl, rs.len()).into_iter().enumerate() {
        if i >= nq {
            rs = &rs[..off];
            lsv.push(Left::default());
            continue;
        }
        let mut p = &rs[off..off + k];
        off += k;
        let s = &ss[i];
        let mut interim = None;
        for h in &s.interim {
            // an interim response cut short is all there is; one that is finished is not the answer
            let one = Resp { interim: vec![], status: 100, reason: "Continue", hdrs: h.clone(), fr: Fr::None, no_body: true, ver: "HTTP/1.1", ..s.clone() };
            let m = one.build().0;
            if p.is_empty() {
                break;
            }
            if p.len() < m.len() {
                interim = Some(left(p, &Fr::None, true, false));
                if p.len() < 4 {
                    return;
                }
                p = &[];
                break;
            }
            p = &p[m.len()..];
            interim = Some(Left { started: true, line: b"HTTP/1.1 100 Continue".to_vec(), ..Default::default() });
        }
        if !p.is_empty() {
            if p.len() < 4 {
                return;
            }
            lsv.push(left(p, &s.fr, s.no_body, false));
        } else {
            lsv.push(interim.unwrap_or_else(|| left(p, &s.fr, s.no_body, false)));
        }
    }
    // a request line cut short may have become an HTTP/0.9 one (or of an unknown method), which
    // changes how the response is read
    if !rs.is_empty() && lq.iter().any(|l| l.started && !l.line_done) {
        return;
    }
    begin(&[rq, b"|", rs, format!("{:?}{}", how, rclose).as_bytes()]);
    nontrivial();
    let r = guarded(|| -> Result<(), String> {
        reset();
        let mut c = cfg_default();
        c.set_flush_incomplete(flush);
        c.set_tx_auto_destroy(auto);
        REC.with(|r| r.borrow_mut().snap = true);
        let mut p = P::new(c);
        match seg {
            0 => {
                if !rq.is_empty() {
                    p.req(rq);
                }
            }
            1 => {
                for b in rq {
                    p.req(&[*b]);
                }
            }
            _ => {
                let k = rq.len() - if early { 1 } else { (rq.len() / 2).max(1) };
                if k > 0 {
                    p.req(&rq[..k]);
                }
                p.req(&rq[k..]);
            }
        }
        if rclose == 1 && early {
            p.req_close();
        }
        let mut pieces: Vec<&[u8]> = vec![];
        match seg {
            0 if !rs.is_empty() => {
                let k = if rclose == 1 { rs.len() / 2 } else { 0 };
                pieces = [&rs[..k], &rs[k..]].into_iter().filter(|x| !x.is_empty()).collect();
            }
            0 => {}
            1 => pieces = rs.chunks(1).collect(),
            _ if rs.len() > 1 => {
                let k = if early { 1 } else { rs.len() / 2 };
                pieces = vec![&rs[..rs.len() - k], &rs[rs.len() - k..]];
            }
            _ if !rs.is_empty() => pieces = vec![rs],
            _ => {}
        }
        for (i, x) in pieces.iter().enumerate() {
            if rclose == 1 && !early && i == pieces.len() / 2 {
                p.req_close();
            }
            p.resp(x);
        }
        p.close();
        transitions(p.calls);
        let ev = take_events();
        let snaps = REC.with(|r| std::mem::take(&mut r.borrow_mut().snaps));
        outcome(h64(&ev));
        eq!("request byte counter", p.c.conn.request_data_counter as usize, rq.len());
        eq!("response byte counter", p.c.conn.response_data_counter as usize, rs.len());
        for i in 0..qs.len() {
            let (q, s) = (&lq[i], &lsv[i]);
            let cnt = |h: H| ev.iter().filter(|e| e.tx == i && e.h == h).count();
            let run = || -> Result<(), String> {
                if !q.started {
                    eq!("callbacks", ev.iter().filter(|e| e.tx == i).count(), 0);
                    return Ok(());
                }
                let both = q.complete && s.complete;
                eq!("request complete callbacks", cnt(H::REQ_COMPLETE), q.complete as usize);
                eq!("response complete callbacks", cnt(H::RESP_COMPLETE), s.complete as usize);
                eq!("transaction complete callbacks", cnt(H::TX_COMPLETE), (both || flush) as usize);
                eq!("request headers callbacks", cnt(H::REQ_HEADERS), q.head_done as usize);
                eq!("request body", body(&ev, H::REQ_BODY_DATA, i), q.body);
                eq!("response body", body(&ev, H::RESP_BODY_DATA, i), s.body);
                if both || flush {
                    let last = ev.iter().rev().find(|e| e.tx == i).unwrap();
                    eq!("last callback", last.h, H::TX_COMPLETE);
                }
                let gone = auto && (both || flush);
                eq!("transaction kept", p.tx(i).is_some(), !gone);
                let t = match p.tx(i) {
                    Some(t) => t,
                    None => snaps.iter().rev().find(|x| x.1.index == i && x.0 == H::TX_COMPLETE).map(|x| x.1.clone()).ok_or("no snapshot")?,
                };
                cmp_req(&t, q)?;
                cmp_resp(&t, s)
            };
            run().map_err(|m| format!("transaction {}: {}", i, m))?;
        }
        Ok(())
    });
    let m = match r {
        Ok(Ok(())) => return,
        Ok(Err(m)) => m,
        Err(m) => format!("panic {}", m),
    };
    let how = format!("flush {} destroy {} cut {}{} request-close {}", flush, auto, seg, if early { "e" } else { "" }, rclose);
    ctx.violation(
        format!("close:{}:{}:{}", show(rq), show(rs), how),
        format!("{} after closing at [{}] / [{}] ({})", m, show(rq), show(rs), how),
        format!("req=[{}] resp=[{}] {}", show(rq), show(rs), how),
    );
}

// ---------------------------------------------------------------- C27

pub fn run09(ctx: &mut Ctx) {
    ctx.rule("every request line without protocol of the library x line end x what follows in its chunk x every cut of the line x later request data x every response of up to n tokens in every division at token borders and in one piece; the transaction, callbacks, flags, counters and logs are compared with the rule. Non-trivial: request or response data follows.");
    let lines: [(&[u8], &str); 9] = [
        (b"GET /", "GET"),
        (b"GET /x?a=b", "GET"),
        (b"GET  /y ", "GET"),
        (b"POST /p", "POST"),
        (b"HEAD /h", "HEAD"),
        (b"PUT /%41#f", "PUT"),
        (b"GET", "GET"),
        (b"FOO /b", "UNKNOWN"),
        (b"/only", "UNKNOWN"),
    ];
    let mut after: Vec<Vec<u8>> = vec![b"".to_vec(), b"\r\n".to_vec(), b"\n".to_vec(), b" \t\r\n".to_vec(), b"\r\n\r\n".to_vec(), b"Host: x\r\n\r\n".to_vec(), b"\r\nA: b\r\n\r\n".to_vec(), b"A: b\r\nC: d\r\n\r\n".to_vec(), b"x".to_vec(), b"\0".to_vec(), b" x".to_vec(), b"\r\nx".to_vec(), b"A: b\r\n".to_vec()];
    for n in [14, 15, 16, 17, 18] {
        after.push([&vec![b' '; n][..], b"\n"].concat());
        after.push(vec![b'\n'; n]);
    }
    let toks: Vec<&[u8]> = vec![b"HTTP/1.1 200 OK\r\n", b"Content-Length: 1\r\n\r\n", b"Transfer-Encoding: chunked\r\n\r\n", b"a", b"\r\n", b"\n", b"0\r\n\r\n", b"\0 \xff", b"HTTP/1.0 404 Not\r\nContent-Length: 0\r\n\r\n"];
    let late: Vec<Vec<&[u8]>> = vec![vec![], vec![b"x"], vec![b"GET /2 HTTP/1.1\r\n\r\n"], vec![b"\r\n", b"GET /3\r\n"], vec![b"Host: x\r\n\r\n"]];
    let n = ctx.pick(3, 4);
    let mut resps: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let end = resps.len();
        for i in from..end {
            for t in 0..toks.len() {
                let mut v = resps[i].clone();
                v.push(t);
                resps.push(v);
            }
        }
        from = end;
    }
    ctx.note("responses", resps.len());
    let jobs = lines.len() * 2 * after.len();
    ctx.par(jobs, |i| show(lines[i / 2 / after.len()].0), |i| {
        let (line, m) = lines[i / 2 / after.len()];
        let a = &after[i / 2 % after.len()];
        let eol: &[u8] = if i % 2 == 0 { b"\r\n" } else { b"\n" };
        let first = [line, eol].concat();
        // cuts of the line: every place, with one response and all later data
        for cut in 0..first.len() {
            for l in &late {
                for r in &resps[..resps.len().min(12)] {
                    one09(ctx, line, m, &first, cut, a, l, &toks, r, cut % 2);
                }
            }
        }
        for (k, l) in late.iter().enumerate() {
            if ctx.quick() && k > 2 {
                continue;
            }
            for r in &resps {
                for d in 0..2 {
                    one09(ctx, line, m, &first, 0, a, l, &toks, r, d);
                }
            }
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn one09(ctx: &Ctx, line: &[u8], m: &str, first: &[u8], cut: usize, a: &[u8], late: &[&[u8]], toks: &[&[u8]], r: &[usize], div: usize) {
    let rs: Vec<u8> = r.iter().flat_map(|t| toks[*t].to_vec()).collect();
    let ws = |b: &u8| matches!(*b, b' ' | b'\t' | b'\r' | b'\n' | 0x0b | 0x0c);
    let short = a.iter().all(ws) && a.len() <= 16;
    // what is left of such a chunk is white space lines; unfinished ones are not in the library
    let what = format!("line [{}] cut {} then [{}], later {:?}, response [{}] division {}", show(first), cut, show(a), late.iter().map(|l| show(l)).collect::<Vec<_>>(), show(&rs), div);
    begin(&[what.as_bytes()]);
    if !late.is_empty() || !rs.is_empty() {
        nontrivial();
    }
    let res = guarded(|| -> Result<(), String> {
        reset();
        let mut p = P::new(cfg_default());
        let mut sent = first.len() + a.len();
        if cut > 0 {
            p.req(&first[..cut]);
        }
        p.req(&[&first[cut..], a].concat());
        if !short {
            // not HTTP/0.9: the rest is the head of a request without protocol
            let t = p.tx(0).ok_or("no transaction")?;
            eq!("taken for HTTP/0.9", t.is_protocol_0_9, false);
            let logs = p.logs().iter().filter(|l| *l == "REQUEST_LINE_NO_PROTOCOL").count();
            eq!("missing protocol logged", logs, 1);
            if a[0] == b' ' || a.ends_with(b"x") || a == b"\0" || a == b"A: b\r\n" {
                // (a line of blanks does not end the head, nor does an unfinished one)
                return Ok(());
            }
            eq!("request complete", t.rp, 5);
            let mut h = vec![];
            let mut torn = false;
            fields(a, &mut h, &mut torn);
            if !a.first().is_some_and(|b| ws(b)) {
                cmp_headers("headers", &t.request_headers, &Left { headers: Some(h), ..Default::default() })?;
            }
            // and the connection goes on as usual
            let ok: &[u8] = if m == "HEAD" { b"" } else { b"ok" };
            p.resp(&[b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n", ok].concat());
            p.req(b"GET /next HTTP/1.1\r\nHost: h\r\n\r\n");
            p.resp(b"HTTP/1.1 201 OK\r\nContent-Length: 1\r\n\r\nz");
            p.close();
            transitions(p.calls);
            let ev = take_events();
            outcome(h64(&ev));
            eq!("extra data flag", p.c.conn.flags & 2, 0);
            eq!("body", body(&ev, H::RESP_BODY_DATA, 0), ok.to_vec());
            let t = p.tx(1).ok_or("no second transaction")?;
            eq!("second target", t.request_uri, some(b"/next"));
            eq!("second status", t.response_status, some(b"201"));
            eq!("second complete", (t.rp, t.sp), (5, 5));
            return Ok(());
        }
        // pieces of the response among the later request data
        let mut pieces: Vec<Vec<u8>> = if div == 0 { vec![rs.clone()] } else { r.iter().map(|t| toks[*t].to_vec()).collect() };
        pieces.retain(|p| !p.is_empty());
        let mut pi = pieces.iter();
        if div == 1 {
            if let Some(x) = pi.next() {
                p.resp(x);
            }
        }
        for l in late {
            let st = p.req(l);
            sent += l.len();
            eq!("answer to later request data", format!("{:?}", st), "DATA".to_string());
            eq!("later request data consumed", p.req_consumed(), l.len());
            if let Some(x) = pi.next() {
                p.resp(x);
            }
        }
        for x in pi {
            p.resp(x);
        }
        let done = ev_len();
        if REC.with(|r| r.borrow().ev[..done].iter().any(|e| e.h == H::RESP_COMPLETE)) {
            return Err("the response ended before the close".into());
        }
        p.close();
        transitions(p.calls);
        let ev = take_events();
        outcome(h64(&ev));
        eq!("request bytes", p.c.conn.request_data_counter as usize, sent);
        eq!("response bytes", p.c.conn.response_data_counter as usize, rs.len());
        eq!("extra data flag", p.c.conn.flags & 2 != 0, !late.is_empty());
        if let Some(e) = ev.iter().find(|e| e.tx != 0) {
            return Err(format!("callback {:?} of a second transaction", e.h));
        }
        let mut rq: Vec<H> = vec![];
        for e in ev.iter().filter(|e| e.h.is_req() && e.h != H::REQ_BODY_DATA) {
            rq.push(e.h);
        }
        eq!("request callbacks", rq, vec![H::REQ_START, H::REQ_URI_NORMALIZE, H::REQ_LINE, H::REQ_COMPLETE]);
        eq!("request body", body(&ev, H::REQ_BODY_DATA, 0).iter().all(ws), true);
        let mut sp: Vec<H> = ev.iter().filter(|e| !e.h.is_req()).map(|e| e.h).collect();
        sp.dedup();
        let want = if rs.is_empty() { vec![] } else { vec![H::RESP_START, H::RESP_BODY_DATA, H::RESP_COMPLETE, H::TX_COMPLETE] };
        eq!("response callbacks", sp, want);
        eq!("response body", body(&ev, H::RESP_BODY_DATA, 0), rs);
        let t = p.tx(0).ok_or("no transaction")?;
        eq!("HTTP/0.9", (t.is_protocol_0_9, t.request_protocol_number), (true, 9));
        eq!("method", t.request_method_number, m);
        let w = words(line);
        eq!("target", t.request_uri.clone().unwrap_or_default(), w.get(1).map(|x| x.to_vec()).unwrap_or_default());
        eq!("request headers", t.request_headers, vec![]);
        eq!("response headers", t.response_headers, vec![]);
        eq!("status", t.response_status, None);
        eq!("response lengths", (t.response_message_len, t.response_entity_len), (rs.len() as u64, rs.len() as u64));
        eq!("progress", (t.rp, t.sp), (5, if rs.is_empty() { 0 } else { 5 }));
        Ok(())
    });
    let msg = match res {
        Ok(Ok(())) => return,
        Ok(Err(m)) => m,
        Err(m) => format!("panic {}", m),
    };
    ctx.violation(format!("09:{}", what), format!("{} for {}", msg, what), what);
}

// ---------------------------------------------------------------- C28

const NOT_SEEN: &[u8] = b"/libhtp::request_uri_not_seen";

#[derive(Clone, Default)]
struct Slot {
    /// Some(None): placeholder
    req: Option<Option<usize>>,
    resp: Option<usize>,
    req_done: bool,
    resp_done: bool,
}

pub fn run_unsolicited(ctx: &mut Ctx) {
    ctx.rule("every history of up to n events over {request, first part of a request, its rest, response, first part of a response, its rest} x where the parts are cut x with and without automatic destruction; a model of the two queues says which response belongs to which request and which gets a placeholder. Non-trivial: a response comes before its request.");
    let n = ctx.pick(9, 11);
    let mut all: Vec<Vec<u8>> = vec![];
    fn grow(v: &mut Vec<u8>, q: bool, r: bool, n: usize, all: &mut Vec<Vec<u8>>) {
        if !v.is_empty() && !q && !r {
            all.push(v.clone());
        }
        if v.len() == n {
            return;
        }
        for c in b"QabRxy" {
            let (nq, nr) = match c {
                b'Q' if !q => (q, r),
                b'a' if !q => (true, r),
                b'b' if q => (false, r),
                b'R' if !r => (q, r),
                b'x' if !r => (q, true),
                b'y' if r => (q, false),
                _ => continue,
            };
            v.push(*c);
            grow(v, nq, nr, n, all);
            v.pop();
        }
    }
    grow(&mut vec![], false, false, n, &mut all);
    ctx.note("histories", all.len());
    ctx.par(all.len(), |i| show(&all[i]), |i| {
        let h = &all[i];
        let qc: &[usize] = if h.contains(&b'a') { &[1, 9, 20, 28, 1000] } else { &[1] };
        let rc: &[usize] = if h.contains(&b'x') { &[1, 12, 30, 1000] } else { &[1] };
        for q in qc {
            for r in rc {
                for auto in [false, true] {
                    history(ctx, h, *q, *r, auto);
                }
            }
        }
    });
}

fn history(ctx: &Ctx, h: &[u8], qc: usize, rc: usize, auto: bool) {
    let what = format!("{} cuts {} {} destroy {}", show(h), qc, rc, auto);
    begin(&[what.as_bytes()]);
    let res = guarded(|| -> Result<(), String> {
        reset();
        let mut c = cfg_default();
        c.set_tx_auto_destroy(auto);
        REC.with(|r| r.borrow_mut().snap = true);
        let mut p = P::new(c);
        let mut slots: Vec<Slot> = vec![Slot::default(); h.len() + 1];
        let (mut ri, mut si, mut nq, mut ns, mut lost) = (0, 0, 0, 0, 0);
        for e in h {
            let q = format!("GET /{} HTTP/1.1\r\nHost: h\r\n\r\n", nq).into_bytes();
            let r = format!("HTTP/1.1 {} OK\r\nContent-Length: 2\r\n\r\n#{}", 200 + ns, ns).into_bytes();
            let (qk, rk) = (qc.min(q.len() - 1), rc.min(r.len() - 1));
            match e {
                b'Q' | b'a' => {
                    slots[ri].req = Some(Some(nq));
                    p.req(if *e == b'Q' { &q } else { &q[..qk] });
                }
                b'b' => {
                    p.req(&q[qk..]);
                }
                b'R' | b'x' => {
                    if slots[si].req.is_none() {
                        nontrivial();
                    }
                    if slots[si].req.is_none() && ri == si {
                        slots[si].req = Some(None);
                        slots[si].req_done = true;
                        ri += 1;
                        lost += 1;
                    }
                    slots[si].resp = Some(ns);
                    p.resp(if *e == b'R' { &r } else { &r[..rk] });
                }
                _ => {
                    p.resp(&r[rk..]);
                }
            }
            if matches!(e, b'Q' | b'b') {
                slots[ri].req_done = true;
                ri += 1;
                nq += 1;
            }
            if matches!(e, b'R' | b'y') {
                slots[si].resp_done = true;
                si += 1;
                ns += 1;
            }
        }
        transitions(p.calls);
        let ev = take_events();
        let snaps = REC.with(|r| std::mem::take(&mut r.borrow_mut().snaps));
        outcome(h64(&ev));
        eq!("unmatched responses logged", p.logs().iter().filter(|l| *l == "UNABLE_TO_MATCH_RESPONSE_TO_REQUEST").count(), lost);
        for (i, s) in slots.iter().enumerate() {
            let run = || -> Result<(), String> {
                let cnt = |h: H| ev.iter().filter(|e| e.tx == i && e.h == h).count();
                let seen = matches!(s.req, Some(Some(_)));
                eq!("request callbacks", (cnt(H::REQ_START), cnt(H::REQ_LINE), cnt(H::REQ_HEADERS), cnt(H::REQ_COMPLETE)), (seen as usize, seen as usize, seen as usize, seen as usize));
                let done = s.req_done && s.resp_done;
                eq!("response callbacks", (cnt(H::RESP_START), cnt(H::RESP_COMPLETE)), (s.resp_done as usize, s.resp_done as usize));
                eq!("transaction complete callbacks", cnt(H::TX_COMPLETE), done as usize);
                let t = match p.tx(i) {
                    Some(t) => {
                        if auto && done {
                            return Err("not destroyed".into());
                        }
                        t
                    }
                    None => match snaps.iter().rev().find(|x| x.1.index == i && x.0 == H::TX_COMPLETE) {
                        Some(x) => x.1.clone(),
                        None if s.req.is_none() && s.resp.is_none() => return Ok(()),
                        None => return Err("missing".into()),
                    },
                };
                match &s.req {
                    None => eq!("request progress", t.rp, 0),
                    Some(None) => {
                        eq!("placeholder target", t.request_uri, some(NOT_SEEN));
                        eq!("placeholder path", t.uri.as_ref().and_then(|u| u.path.clone()), some(NOT_SEEN));
                        eq!("placeholder method", t.request_method, None);
                        eq!("placeholder progress", t.rp, 5);
                    }
                    Some(Some(k)) => {
                        eq!("target", t.request_uri, some(format!("/{}", k).as_bytes()));
                        eq!("path", t.uri.as_ref().and_then(|u| u.path.clone()), some(format!("/{}", k).as_bytes()));
                        eq!("method", t.request_method, some(b"GET"));
                        eq!("progress", t.rp, 5);
                    }
                }
                match s.resp {
                    None => eq!("response progress", t.sp, 0),
                    Some(k) => {
                        eq!("status", t.response_status, some((200 + k).to_string().as_bytes()));
                        eq!("response body", body(&ev, H::RESP_BODY_DATA, i), format!("#{}", k).into_bytes());
                        eq!("response progress", t.sp, 5);
                    }
                }
                Ok(())
            };
            run().map_err(|m| format!("transaction {}: {}", i, m))?;
        }
        Ok(())
    });
    let m = match res {
        Ok(Ok(())) => return,
        Ok(Err(m)) => m,
        Err(m) => format!("panic {}", m),
    };
    ctx.violation(format!("unsolicited:{}", what), format!("{} for {}", m, what), what);
}
