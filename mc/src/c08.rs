//! C08 (request/response pairing) and C09 (CONNECT, upgrades, interim responses, Expect):
//! conversations under every interleaving of the two directions.
use crate::drive::*;
use crate::eng::*;
use crate::gen::*;
use crate::model::*;
use crate::rec::*;
use htp::connection::ConnectionFlags;

/// All interleavings of nq request and ns response segments in which response segment j comes
/// after at least need[j] request segments, and request segment i after at least qneed[i]
/// response segments. true = request.
pub fn schedules(nq: usize, need: &[usize], qneed: &[usize], f: &mut dyn FnMut(&[bool])) {
    fn rec(nq: usize, need: &[usize], qneed: &[usize], q: usize, s: usize, cur: &mut Vec<bool>, f: &mut dyn FnMut(&[bool])) {
        if q == nq && s == need.len() {
            f(cur);
            return;
        }
        if q < nq && qneed.get(q).map_or(true, |n| s >= *n) {
            cur.push(true);
            rec(nq, need, qneed, q + 1, s, cur, f);
            cur.pop();
        }
        if s < need.len() && q >= need[s] {
            cur.push(false);
            rec(nq, need, qneed, q, s + 1, cur, f);
            cur.pop();
        }
    }
    rec(nq, need, qneed, 0, 0, &mut vec![], f)
}

/// How a message is cut: whole, at the end of its head, or at given positions.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cut {
    Whole,
    Head,
    HeadMid,
    At(usize),
    At2(usize, usize),
}

fn head_len(w: &[u8]) -> usize {
    for i in 0..w.len() {
        if w[i..].starts_with(b"\r\n\r\n") {
            return i + 4;
        }
        if w[i..].starts_with(b"\n\n") {
            return i + 2;
        }
    }
    w.len()
}

fn cut(w: &[u8], c: Cut) -> Vec<Vec<u8>> {
    let h = head_len(w);
    let at: Vec<usize> = match c {
        Cut::Whole => vec![],
        Cut::Head => vec![h],
        Cut::HeadMid => vec![7, h],
        Cut::At(p) => vec![p],
        Cut::At2(p, q) => vec![p, q],
    };
    segments(w, &at).into_iter().map(|s| s.to_vec()).collect()
}

#[derive(Clone)]
pub struct Conv {
    pub name: &'static str,
    pub q: Vec<Req>,
    pub s: Vec<Resp>,
}

/// Segments of a conversation and the causality between them.
pub struct Plan {
    pub qs: Vec<Vec<u8>>,
    pub ss: Vec<Vec<u8>>,
    pub need: Vec<usize>,
    pub eq: Vec<Exp>,
    pub es: Vec<Exp>,
}

pub fn plan(c: &Conv, qc: Cut, sc: Cut) -> Plan {
    let mut p = Plan { qs: vec![], ss: vec![], need: vec![], eq: vec![], es: vec![] };
    let mut head_done = vec![];
    for q in &c.q {
        let (w, e) = q.build();
        let h = head_len(&w);
        let mut seen = 0;
        let mut done = None;
        for s in cut(&w, qc) {
            seen += s.len();
            p.qs.push(s);
            if done.is_none() && seen >= h {
                done = Some(p.qs.len());
            }
        }
        head_done.push(done.unwrap());
        p.eq.push(e);
    }
    for (i, s) in c.s.iter().enumerate() {
        let (w, e) = s.build();
        for x in cut(&w, sc) {
            p.ss.push(x);
            p.need.push(head_done[i]);
        }
        p.es.push(e);
    }
    p
}

pub fn sched_text(p: &Plan, sch: &[bool]) -> String {
    let (mut i, mut j) = (0, 0);
    let mut v = vec![];
    for &b in sch {
        if b {
            v.push(format!("req[{}]", show(&p.qs[i])));
            i += 1;
        } else {
            v.push(format!("resp[{}]", show(&p.ss[j])));
            j += 1;
        }
    }
    v.join(" ")
}

/// Run one schedule; `auto` turns on automatic destruction of complete transactions.
fn run_schedule(c: &Conv, p: &Plan, sch: &[bool], auto: bool) -> Result<(), String> {
    reset();
    let mut cfg = cfg_default();
    cfg.set_tx_auto_destroy(auto);
    REC.with(|r| r.borrow_mut().snap = auto);
    let mut d = Drive::new(P::new(cfg));
    let (mut i, mut j) = (0, 0);
    for &b in sch {
        if b {
            d.req(&p.qs[i]);
            i += 1;
        } else {
            d.resp(&p.ss[j]);
            j += 1;
        }
    }
    d.close();
    transitions(d.p.calls);
    let ev = take_events();
    let txs = d.p.txs();
    outcome(h64(&(&ev, &txs)));
    if let Some(m) = &d.bad {
        return Err(m.clone());
    }
    if txs.len() != c.q.len() {
        return Err(format!("{} transactions instead of {}", txs.len(), c.q.len()));
    }
    if let Some(e) = ev.iter().find(|e| e.tx >= c.q.len()) {
        return Err(format!("callback for a transaction that does not exist: {}", evs(Some(e))));
    }
    for k in 0..c.q.len() {
        let t = if auto {
            if txs[k].is_some() {
                return Err(format!("complete transaction {} not destroyed", k));
            }
            REC.with(|r| r.borrow().snaps.iter().find(|s| s.0 == H::TX_COMPLETE && s.1.index == k).map(|s| s.1.clone()))
        } else {
            txs[k].clone()
        };
        let t = t.ok_or_else(|| format!("transaction {} missing", k))?;
        check_req(&t, &c.q[k], &p.eq[k]).map_err(|m| format!("transaction {} {}", k, m))?;
        check_resp(&t, &c.s[k], &p.es[k]).map_err(|m| format!("transaction {} {}", k, m))?;
        check_events(&ev, k, &p.eq[k], Some(&p.es[k]))?;
    }
    // pipelining: a request completed while an earlier response was still outstanding
    let mut done = 0;
    let mut pipe = false;
    for e in &ev {
        match e.h {
            H::RESP_COMPLETE => done += 1,
            H::REQ_COMPLETE if e.tx > done => pipe = true,
            _ => {}
        }
    }
    if pipe != (d.p.c.conn.flags & ConnectionFlags::PIPELINED != 0) {
        return Err(format!("pipelined flag is {} but a request completed ahead of an earlier response: {}", !pipe, pipe));
    }
    Ok(())
}

fn explore(ctx: &Ctx, list: &[(Conv, Cut, Cut)], auto: &[bool]) {
    ctx.par(list.len(), |i| list[i].0.name.into(), |i| {
        let (c, qc, sc) = &list[i];
        let p = plan(c, *qc, *sc);
        if i % (list.len() / 6 + 1) == 0 {
            ctx.sample(format!("{}: req [{}] resp [{}] cut {:?}/{:?}", c.name, show(&p.qs.concat()), show(&p.ss.concat()), qc, sc));
        }
        schedules(p.qs.len(), &p.need, &[], &mut |sch| {
            for &a in auto {
                begin(&[sched_text(&p, sch).as_bytes()]);
                if sch.iter().take_while(|b| **b).count() < p.qs.len() || p.qs.len() > 1 {
                    nontrivial();
                }
                let r = guarded(|| run_schedule(c, &p, sch, a));
                let m = match r {
                    Ok(Ok(())) => continue,
                    Ok(Err(m)) => m,
                    Err(m) => format!("panic {}", m),
                };
                ctx.violation(
                    format!("{}:{}:{}", c.name, show(&p.qs.concat()), show(&p.ss.concat())),
                    format!("{} auto_destroy={}: {}", m, a, sched_text(&p, sch)),
                    format!("auto_destroy={} {}", a, sched_text(&p, sch)),
                );
            }
        });
    });
}

fn b(s: &[u8]) -> Vec<u8> {
    s.to_vec()
}

fn reqs() -> Vec<Req> {
    let mut v = vec![
        req("GET", "/a", Fr::None),
        req("POST", "/b", Fr::Cl(b(b"GET /"))),
        req("POST", "/c", Fr::Chunked { chunks: vec![b(b"xy")], ext: 0, trailers: vec![("T", "v")] }),
        req("HEAD", "/d", Fr::None),
    ];
    let mut q = req("PUT", "/e", Fr::Cl(b(b"\r\n")));
    q.eol = "\n";
    v.push(q);
    v
}

fn resps(head: bool) -> Vec<Resp> {
    let mut v = vec![
        resp(200, "OK", Fr::Cl(b(b"HTTP/"))),
        resp(200, "OK", Fr::Chunked { chunks: vec![b(b"0\r\n\r\n")], ext: 0, trailers: vec![] }),
        resp(404, "Not Found", Fr::Cl(b(b""))),
    ];
    if head {
        for r in v.iter_mut() {
            r.no_body = true;
        }
    }
    let mut r = resp(200, "OK", Fr::Cl(b(b"x")));
    r.interim = vec![vec![("I", "j")]];
    r.no_body = head;
    v.push(r);
    v.push(resp(204, "None", Fr::None));
    v
}

pub fn run_c08(ctx: &mut Ctx) {
    ctx.rule("conversations of 1-3 transactions (methods x framings x interim responses), cut into segments (per message: whole, at the head, inside; per stream: any one or two positions regardless of message boundaries), under every interleaving of request and response segments in which a response does not precede the head of its request, with and without automatic destruction; oracle: the specification of every transaction (fields, lengths, callbacks, order) and the pipelining flag. Non-trivial: a response segment precedes a later request segment, or several request segments.");
    let rq = reqs();
    let mut list = vec![];
    // one transaction: every cut of either message
    for q in &rq {
        for s in resps(q.method == "HEAD") {
            let c = Conv { name: "single", q: vec![q.clone()], s: vec![s.clone()] };
            let (wq, ws) = (q.build().0.len(), s.build().0.len());
            for x in 1..wq {
                list.push((c.clone(), Cut::At(x), Cut::Head));
                if !ctx.quick() {
                    for y in (1..ws).step_by(3) {
                        list.push((c.clone(), Cut::At(x), Cut::At(y)));
                    }
                }
            }
            for y in 1..ws {
                list.push((c.clone(), Cut::Head, Cut::At(y)));
            }
        }
    }
    // two transactions
    let mut pairs = vec![];
    for q1 in &rq {
        for q2 in &rq {
            for s1 in resps(q1.method == "HEAD") {
                for s2 in resps(q2.method == "HEAD") {
                    pairs.push(Conv { name: "pair", q: vec![q1.clone(), q2.clone()], s: vec![s1.clone(), s2.clone()] });
                }
                if q2.method != "HEAD" {
                    pairs.push(Conv { name: "pair-close", q: vec![q1.clone(), q2.clone()], s: vec![s1.clone(), resp(200, "OK", Fr::Close(b(b"tail\n")))] });
                }
            }
        }
    }
    for c in &pairs {
        for (a, z) in [(Cut::Whole, Cut::Whole), (Cut::Head, Cut::Whole), (Cut::Whole, Cut::Head), (Cut::Head, Cut::Head), (Cut::HeadMid, Cut::HeadMid)] {
            list.push((c.clone(), a, z));
        }
        if !ctx.quick() {
            for x in 1..60 {
                list.push((c.clone(), Cut::At(x), Cut::Head));
                list.push((c.clone(), Cut::Head, Cut::At(x)));
            }
        }
    }
    // three transactions
    for c in pairs.iter() {
        if c.name != "pair" {
            continue;
        }
        for (k, q3) in rq.iter().enumerate() {
            let s3 = resps(q3.method == "HEAD")[k % 5].clone();
            let mut c = c.clone();
            c.name = "triple";
            c.q.push(q3.clone());
            c.s.push(s3);
            list.push((c.clone(), Cut::Whole, Cut::Whole));
            if k % 2 == 0 {
                list.push((c.clone(), Cut::Head, Cut::Whole));
                list.push((c.clone(), Cut::Whole, Cut::Head));
                if !ctx.quick() {
                    list.push((c, Cut::Head, Cut::Head));
                }
            }
        }
    }
    ctx.note("conversation_plans", list.len());
    explore(ctx, &list, &[false, true]);
    glued(ctx, &pairs);
}

/// Both directions as byte streams, cut without regard to message boundaries.
fn glued(ctx: &Ctx, pairs: &[Conv]) {
    ctx.par(pairs.len(), |i| pairs[i].name.into(), |i| {
        let c = &pairs[i];
        let mut p = plan(c, Cut::Whole, Cut::Whole);
        let (rq, rs) = (p.qs.concat(), p.ss.concat());
        // where the heads of the requests end and where the responses begin
        let mut heads = vec![];
        let mut starts = vec![];
        let (mut a, mut z) = (0, 0);
        for k in 0..c.q.len() {
            heads.push(a + head_len(&p.qs[k]));
            starts.push(z);
            a += p.qs[k].len();
            z += p.ss[k].len();
        }
        let (q1, s1) = (p.qs[0].len(), p.ss[0].len());
        let mut go = |x: &[usize], y: &[usize]| {
            p.qs = segments(&rq, x).into_iter().map(|s| s.to_vec()).collect();
            p.ss = segments(&rs, y).into_iter().map(|s| s.to_vec()).collect();
            p.need.clear();
            let mut at = 0;
            for s in &p.ss {
                at += s.len();
                let k = starts.iter().filter(|b| **b < at).count() - 1;
                let mut n = 0;
                let mut seen = 0;
                while seen < heads[k] {
                    seen += p.qs[n].len();
                    n += 1;
                }
                p.need.push(n);
            }
            schedules(p.qs.len(), &p.need, &[], &mut |sch| {
                for auto in [false, true] {
                    begin(&[sched_text(&p, sch).as_bytes()]);
                    nontrivial();
                    let m = match guarded(|| run_schedule(c, &p, sch, auto)) {
                        Ok(Ok(())) => continue,
                        Ok(Err(m)) => m,
                        Err(m) => format!("panic {}", m),
                    };
                    ctx.violation(format!("glued:{}:{}", show(&rq), show(&rs)), format!("{} auto_destroy={}: {}", m, auto, sched_text(&p, sch)), format!("auto_destroy={} {}", auto, sched_text(&p, sch)));
                }
            });
        };
        for x in 1..rq.len() {
            go(&[x], &[]);
            go(&[x], &[s1]);
            if !ctx.quick() {
                for y in 1..rs.len() {
                    go(&[x], &[y]);
                }
            }
        }
        for y in 1..rs.len() {
            go(&[], &[y]);
            go(&[q1], &[y]);
            go(&[heads[0], q1], &[(s1 - 1).min(y), (s1 - 1).max(y)]);
        }
    });
}

/// CONNECT that is refused, then more requests: used by C04 and C09.
fn refused(th: bool) -> Vec<(Conv, Cut, Cut)> {
    let mut list = vec![];
    let frs = vec![
        Fr::Cl(b(b"")),
        Fr::Cl(b(b"no\n")),
        Fr::Chunked { chunks: vec![b(b"nope")], ext: 0, trailers: vec![] },
    ];
    for st in [403u16, 407, 500, 302, 199, 300] {
        if st == 199 {
            continue;
        }
        for fr in &frs {
            let con = Req { method: "CONNECT", target: "h:443", ver: "HTTP/1.1", eol: "\r\n", hdrs: vec![("Host", "h")], fr: Fr::None, style: 0 };
            for q2 in [req("GET", "/a", Fr::None), req("POST", "/b", Fr::Cl(b(b"abc"))), con.clone()] {
                let s2 = if q2.method == "CONNECT" { resp(502, "Bad", Fr::Cl(b(b"z"))) } else { resp(200, "OK", Fr::Cl(b(b"ok"))) };
                let c = Conv { name: "refused-connect", q: vec![con.clone(), q2.clone()], s: vec![resp(st, "Refused", fr.clone()), s2.clone()] };
                for (a, z) in [(Cut::Whole, Cut::Whole), (Cut::Head, Cut::Head), (Cut::HeadMid, Cut::HeadMid)] {
                    list.push((c.clone(), a, z));
                }
                if th || (st == 403 || st == 407) {
                    let n = c.q[0].build().0.len();
                    for x in 1..n {
                        list.push((c.clone(), Cut::At(x), Cut::Head));
                    }
                    for x in 1..c.s[0].build().0.len() {
                        list.push((c.clone(), Cut::Whole, Cut::At(x)));
                    }
                }
                if st == 403 || st == 407 {
                    // an interim response is not the answer
                    for n in 1..3 {
                        let mut c = c.clone();
                        c.name = "refused-connect-interim";
                        c.s[0].interim = vec![vec![("A", "b")]; n];
                        list.push((c.clone(), Cut::Whole, Cut::Whole));
                        for x in 1..c.s[0].build().0.len() {
                            list.push((c.clone(), Cut::Whole, Cut::At(x)));
                        }
                    }
                }
                let c3 = Conv { name: "refused-connect-3", q: vec![req("GET", "/0", Fr::None), con.clone(), q2.clone()], s: vec![resp(200, "OK", Fr::Cl(b(b"zero"))), resp(st, "Refused", fr.clone()), s2.clone()] };
                list.push((c3.clone(), Cut::Whole, Cut::Whole));
                list.push((c3.clone(), Cut::Whole, Cut::Head));
            }
        }
    }
    list
}

/// Request data may arrive glued to the CONNECT in one chunk: same conversation, fewer chunks.
pub fn suspended(ctx: &Ctx) {
    let list = refused(!ctx.quick());
    explore(ctx, &list, &[false]);
    // glued: all requests in one chunk, all responses in one chunk, in every cut of the response
    ctx.par(list.len(), |i| list[i].0.name.into(), |i| {
        let (c, qc, _) = &list[i];
        if *qc != Cut::Whole {
            return;
        }
        let mut p = plan(c, Cut::Whole, Cut::Whole);
        let rq = p.qs.concat();
        let rs = p.ss.concat();
        for x in 1..=rs.len() {
            for y in [rq.len(), head_len(&rq), head_len(&rq) + 3] {
                p.qs = segments(&rq, &[y]).into_iter().map(|s| s.to_vec()).collect();
                p.ss = segments(&rs, &[x]).into_iter().map(|s| s.to_vec()).collect();
                // all responses after all requests: nothing is answered before it was sent
                p.need = vec![p.qs.len(); p.ss.len()];
                schedules(p.qs.len(), &p.need, &[], &mut |sch| {
                    begin(&[sched_text(&p, sch).as_bytes()]);
                    nontrivial();
                    let m = match guarded(|| run_schedule(c, &p, sch, false)) {
                        Ok(Ok(())) => return,
                        Ok(Err(m)) => m,
                        Err(m) => format!("panic {}", m),
                    };
                    ctx.violation(format!("{}:{}:{}", c.name, show(&rq), show(&rs)), format!("{}: {}", m, sched_text(&p, sch)), sched_text(&p, sch));
                });
            }
        }
    });
}

pub fn run_c09(ctx: &mut Ctx) {
    ctx.rule("refused CONNECT (status x framing x following request), accepted CONNECT with opaque or HTTP tunnel data, 101 upgrades, 100 Continue, Expect with 4xx; every segmentation and interleaving of the bound; oracle: specification of every transaction; tunnelled data must be inert. Non-trivial: all.");
    suspended(ctx);
    tunnels(ctx);
    expect(ctx);
    announced(ctx);
}

fn connect() -> Req {
    Req { method: "CONNECT", target: "h:443", ver: "HTTP/1.1", eol: "\r\n", hdrs: vec![("Host", "h")], fr: Fr::None, style: 0 }
}

/// Feed segments in order: true request, false response.
fn tunnels(ctx: &Ctx) {
    use htp::connection_parser::HtpStreamState as St;
    // accepted CONNECT; what the client then sends
    let opaque: Vec<&[u8]> = vec![
        b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03\n",
        b"SSH-2.0-x\r\nmore",
        b"NOTAMETHOD / HTTP/1.1\r\n\r\n",
        b"  \x01\x02\n",
        b"get / HTTP/1.1\r\n",
        b"GETX\n",
        b"\n\n",
        b"\0",
    ];
    let stats = [200u16, 201, 204, 299];
    let hs: Vec<Vec<(&'static str, &'static str)>> = vec![vec![], vec![("Server", "s"), ("Via", "w")]];
    let mut jobs: Vec<(u16, usize, usize, usize)> = vec![];
    for st in stats {
        for h in 0..hs.len() {
            for o in 0..opaque.len() {
                for n in 0..if st == 200 { 3 } else { 1 } {
                    jobs.push((st, h, o, n));
                }
            }
        }
    }
    ctx.par(jobs.len(), |i| format!("tunnel {:?}", jobs[i]), |i| {
        let (st, h, o, interim) = jobs[i];
        let q = connect();
        let mut s = resp(st, "Established", Fr::None);
        s.hdrs = hs[h].clone();
        s.interim = vec![hs[1 - h].clone(); interim];
        let (wq, eq) = q.build();
        let (ws, es) = s.build();
        let t = opaque[o];
        for glued in [false, true] {
            for qx in 1..=wq.len() {
                for sx in 1..=ws.len() {
                    if ctx.quick() && qx != wq.len() && sx != ws.len() && (qx + sx) % 5 != 0 {
                        continue;
                    }
                    for tx in 1..=t.len() {
                        if (qx != wq.len() || sx != ws.len()) && tx != t.len() {
                            continue;
                        }
                        begin(&[&wq, &ws, t, format!("{} {} {} {}", glued, qx, sx, tx).as_bytes()]);
                        nontrivial();
                        let r = guarded(|| -> Result<(), String> {
                            reset();
                            let mut d = Drive::new(P::new(cfg_default()));
                            let mut first = wq.clone();
                            if glued {
                                first.extend_from_slice(t);
                            }
                            for seg in segments(&first, &[qx]) {
                                d.req(seg);
                            }
                            if ev_count(H::REQ_COMPLETE) != 0 {
                                return Err("CONNECT completed before its response".into());
                            }
                            for seg in segments(&ws, &[sx]) {
                                d.resp(seg);
                            }
                            if !glued {
                                for seg in segments(t, &[tx]) {
                                    d.req(seg);
                                }
                            }
                            let probed = t.iter().any(|c| *c == b'\n' || *c == 0);
                            let n = ev_len();
                            if probed {
                                if d.p.c.request_status != St::TUNNEL || d.p.c.response_status != St::TUNNEL {
                                    return Err(format!("not a tunnel: {:?}/{:?}", d.p.c.request_status, d.p.c.response_status));
                                }
                                let before = d.p.txs();
                                let (c1, c2) = (d.p.c.conn.request_data_counter, d.p.c.conn.response_data_counter);
                                for x in [&b"GET / HTTP/1.1\r\n\r\n"[..], b"\0\n"] {
                                    if d.p.req(x) != St::TUNNEL {
                                        return Err("request data accepted inside the tunnel".into());
                                    }
                                }
                                for x in [&b"HTTP/1.1 200 OK\r\n\r\n"[..], b"\0\n"] {
                                    if d.p.resp(x) != St::TUNNEL {
                                        return Err("response data accepted inside the tunnel".into());
                                    }
                                }
                                if ev_len() != n {
                                    return Err("callbacks ran on tunnelled data".into());
                                }
                                if d.p.txs() != before {
                                    return Err("a transaction changed on tunnelled data".into());
                                }
                                if d.p.c.conn.request_data_counter - c1 != 20 || d.p.c.conn.response_data_counter - c2 != 21 {
                                    return Err("tunnelled bytes not counted".into());
                                }
                            }
                            transitions(d.p.calls);
                            let ev = take_events();
                            let txs = d.p.txs();
                            outcome(h64(&(&ev, &txs)));
                            if txs.len() != 1 {
                                return Err(format!("{} transactions", txs.len()));
                            }
                            let tx0 = txs[0].clone().ok_or("transaction missing")?;
                            if tx0.response_status != Some(st.to_string().into_bytes()) {
                                return Err(format!("status {:?}", tx0.response_status));
                            }
                            let hs: Vec<_> = tx0.response_headers.iter().map(|h| (h.0.clone(), h.1.clone())).collect();
                            if hs != es.headers {
                                return Err(format!("response headers {:?}", hs));
                            }
                            if tx0.request_line != Some(eq.head_line.clone()) {
                                return Err(format!("request line {:?}", tx0.request_line));
                            }
                            if ev.iter().any(|e| matches!(e.h, H::REQ_BODY_DATA | H::RESP_BODY_DATA)) {
                                return Err("tunnel data reported as body".into());
                            }
                            Ok(())
                        });
                        rep(ctx, r, "tunnel", &[&wq, &ws, t], &format!("glued={} cuts {} {} {}", glued, qx, sx, tx));
                    }
                }
            }
        }
    });
    // HTTP inside the tunnel is followed
    let mut jobs = vec![];
    for st in stats {
        for q2 in [req("GET", "/in", Fr::None), req("POST", "/in", Fr::Cl(b(b"abc"))), req("HEAD", "/in", Fr::None)] {
            for glued in [false, true] {
                for interim in 0..2 {
                    jobs.push((st, q2.clone(), glued, interim));
                }
            }
        }
    }
    ctx.par(jobs.len(), |i| format!("http tunnel {}", i), |i| {
        let (st, q2, glued, interim) = &jobs[i];
        let mut s2 = resp(200, "OK", Fr::Cl(b(b"in")));
        s2.no_body = q2.method == "HEAD";
        let q1 = connect();
        let mut s1 = resp(*st, "Established", Fr::None);
        s1.interim = vec![vec![]; *interim];
        let (w1, e1) = q1.build();
        let (w2, e2) = q2.build();
        let (r1, f1) = s1.build();
        let (r2, f2) = s2.build();
        for x in 1..=w2.len() {
            for y in 1..=r2.len() {
                begin(&[&w1, &w2, &r1, &r2, format!("{} {} {}", glued, x, y).as_bytes()]);
                nontrivial();
                let r = guarded(|| -> Result<(), String> {
                    reset();
                    let mut d = Drive::new(P::new(cfg_default()));
                    if *glued {
                        let mut all = w1.clone();
                        all.extend_from_slice(&w2);
                        for seg in segments(&all, &[w1.len() + x]) {
                            d.req(seg);
                        }
                        d.resp(&r1);
                    } else {
                        d.req(&w1);
                        d.resp(&r1);
                        for seg in segments(&w2, &[x]) {
                            d.req(seg);
                        }
                    }
                    for seg in segments(&r2, &[y]) {
                        d.resp(seg);
                    }
                    d.close();
                    transitions(d.p.calls);
                    let ev = take_events();
                    let txs = d.p.txs();
                    outcome(h64(&(&ev, &txs)));
                    if let Some(m) = &d.bad {
                        return Err(m.clone());
                    }
                    if txs.len() != 2 {
                        return Err(format!("{} transactions", txs.len()));
                    }
                    let t0 = txs[0].clone().ok_or("missing")?;
                    let t1 = txs[1].clone().ok_or("missing")?;
                    check_req(&t0, &q1, &e1)?;
                    check_req(&t1, q2, &e2).map_err(|m| format!("inner {}", m))?;
                    check_resp(&t1, &s2, &f2).map_err(|m| format!("inner {}", m))?;
                    check_events(&ev, 1, &e2, Some(&f2)).map_err(|m| format!("inner {}", m))?;
                    check_events(&ev, 0, &e1, None)?;
                    let got = side(&ev, 0, false);
                    if got != resp_events(&f1) {
                        return Err(format!("CONNECT response callbacks: {}", show_events(&got)));
                    }
                    Ok(())
                });
                rep(ctx, r, "http-tunnel", &[&w1, &w2, &r1, &r2], &format!("glued={} cuts {} {}", glued, x, y));
            }
        }
    });
    // 101
    let ups: Vec<(Vec<(&'static str, &'static str)>, bool)> = vec![
        (vec![("Upgrade", "websocket")], false),
        (vec![("Upgrade", "h2c"), ("Connection", "Upgrade")], true),
        (vec![("upgrade", "a, H2C")], true),
        (vec![("Upgrade", "h2")], false),
        (vec![], false),
    ];
    ctx.par(ups.len() * 3, |i| format!("101 {}", i), |i| {
        let (h, h2) = &ups[i / 3];
        for m in ["GET", "POST"] {
            let fr = if m == "GET" { Fr::None } else { Fr::Cl(b(b"abc")) };
            let mut q = req(m, "/up", fr);
            q.hdrs.push(("Upgrade", "x"));
            let mut s = resp(101, "Switching Protocols", Fr::None);
            s.hdrs = h.clone();
            s.interim = vec![vec![("A", "b")]; i % 3];
            let (wq, eq) = q.build();
            let (ws, es) = s.build();
            for qx in 1..=wq.len() {
                for sx in 1..=ws.len() {
                    begin(&[&wq, &ws, format!("{} {}", qx, sx).as_bytes()]);
                    nontrivial();
                    let r = guarded(|| -> Result<(), String> {
                        reset();
                        let mut d = Drive::new(P::new(cfg_default()));
                        for seg in segments(&wq, &[qx]) {
                            d.req(seg);
                        }
                        for seg in segments(&ws, &[sx]) {
                            d.resp(seg);
                        }
                        if d.p.c.request_status != St::TUNNEL || d.p.c.response_status != St::TUNNEL {
                            return Err(format!("not a tunnel: {:?}/{:?}", d.p.c.request_status, d.p.c.response_status));
                        }
                        let n = ev_len();
                        let before = d.p.txs();
                        for _ in 0..2 {
                            if d.p.req(b"GET / HTTP/1.1\r\n\r\n") != St::TUNNEL || d.p.resp(b"HTTP/1.1 200 OK\r\n\r\n") != St::TUNNEL {
                                return Err("data accepted after the upgrade".into());
                            }
                        }
                        if ev_len() != n || d.p.txs() != before {
                            return Err("tunnelled data had an effect".into());
                        }
                        let t = before.first().cloned().flatten().ok_or("missing transaction")?;
                        if before.len() != 1 {
                            return Err(format!("{} transactions", before.len()));
                        }
                        check_req(&t, &q, &eq)?;
                        let hs: Vec<_> = t.response_headers.iter().map(|h| (h.0.clone(), h.1.clone())).collect();
                        if hs != es.headers || t.response_status != Some(b"101".to_vec()) {
                            return Err(format!("response {:?} {:?}", t.response_status, hs));
                        }
                        if t.h2 != *h2 {
                            return Err(format!("HTTP/2 upgrade reported as {}", t.h2));
                        }
                        let ev = take_events();
                        let got = side(&ev, 0, false);
                        let mut want = resp_events(&es);
                        want.pop();
                        if got != want {
                            return Err(format!("response callbacks {} instead of {}", show_events(&got), show_events(&want)));
                        }
                        transitions(d.p.calls);
                        outcome(h64(&(&ev, &before)));
                        Ok(())
                    });
                    rep(ctx, r, "upgrade", &[&wq, &ws], &format!("cuts {} {}", qx, sx));
                }
            }
        }
    });
}

fn ev_count(h: H) -> usize {
    REC.with(|r| r.borrow().ev.iter().filter(|e| e.h == h).count())
}

fn rep(ctx: &Ctx, r: Result<Result<(), String>, String>, name: &str, parts: &[&[u8]], how: &str) {
    let m = match r {
        Ok(Ok(())) => return,
        Ok(Err(m)) => m,
        Err(m) => format!("panic {}", m),
    };
    let t: Vec<String> = parts.iter().map(|p| format!("[{}]", show(p))).collect();
    ctx.violation(format!("{}:{}", name, t.join(" ")), format!("{}: {} {}", m, t.join(" "), how), format!("{} {} {}", name, t.join(" "), how));
}

/// A 101 (or 100) that announces a body is an ordinary response: no tunnel, and the connection goes on.
fn announced(ctx: &Ctx) {
    use htp::connection_parser::HtpStreamState as St;
    let mut list = vec![];
    for st in [100u16, 101] {
        for fr in [Fr::Cl(b(b"abc")), Fr::Cl(b(b"")), Fr::Chunked { chunks: vec![b(b"q")], ext: 0, trailers: vec![] }, Fr::Chunked { chunks: vec![], ext: 0, trailers: vec![("T", "v")] }] {
            if st == 100 && fr == Fr::Cl(vec![]) {
                continue;
            }
            for up in [false, true] {
                list.push((st, fr.clone(), up));
            }
        }
    }
    ctx.par(list.len(), |i| format!("announced {}", i), |i| {
        let (st, fr, up) = &list[i];
        let q1 = req("GET", "/x", Fr::None);
        let mut s1 = resp(*st, "R", fr.clone());
        if *up {
            s1.hdrs.push(("Upgrade", "foo"));
        }
        let q2 = req("POST", "/y", Fr::Cl(b(b"abcdefg")));
        let s2 = resp(200, "OK", Fr::Cl(b(b"ok")));
        let ((w1, e1), (w2, e2)) = (q1.build(), q2.build());
        let ((r1, f1), (r2, f2)) = (s1.build(), s2.build());
        let rs = [&r1[..], &r2].concat();
        for early in [false, true] {
            for y in 1..rs.len() {
                begin(&[&w1, &rs, format!("{} {}", y, early).as_bytes()]);
                nontrivial();
                let r = guarded(|| -> Result<(), String> {
                    reset();
                    let mut d = Drive::new(P::new(cfg_default()));
                    d.req(&w1);
                    if early {
                        d.req(&w2);
                        for seg in segments(&rs, &[y]) {
                            d.resp(seg);
                        }
                    } else {
                        for seg in segments(&r1, &[y.min(r1.len())]) {
                            d.resp(seg);
                        }
                        if d.p.c.request_status == St::TUNNEL || d.p.c.response_status == St::TUNNEL {
                            return Err("a tunnel".into());
                        }
                        d.req(&w2);
                        for seg in segments(&r2, &[y.min(r2.len())]) {
                            d.resp(seg);
                        }
                    }
                    d.close();
                    transitions(d.p.calls);
                    let ev = take_events();
                    let txs = d.p.txs();
                    outcome(h64(&(&ev, &txs)));
                    if txs.len() != 2 {
                        return Err(format!("{} transactions", txs.len()));
                    }
                    for (k, (q, e, s, es)) in [(&q1, &e1, &s1, &f1), (&q2, &e2, &s2, &f2)].into_iter().enumerate() {
                        let t = txs[k].clone().ok_or("missing")?;
                        check_req(&t, q, e)?;
                        check_resp(&t, s, es)?;
                        check_events(&ev, k, e, Some(es))?;
                    }
                    Ok(())
                });
                rep(ctx, r, "announced", &[&w1, &rs], &format!("cut {} early {}", y, early));
            }
        }
    });
}

/// Expect: 100-continue refused with a 4xx before any body byte: the request has no body and the
/// next request is followed. With 100 Continue the body is followed.
fn expect(ctx: &Ctx) {
    let mut jobs = vec![];
    for st in [400u16, 413, 417, 499] {
        for fr in [Fr::Cl(b(b"")), Fr::Cl(b(b"no")), Fr::Chunked { chunks: vec![b(b"q")], ext: 0, trailers: vec![] }] {
            for n in 0..3 {
                jobs.push((st, fr.clone(), n));
            }
        }
    }
    ctx.par(jobs.len(), |i| format!("expect {}", i), |i| {
        let (st, fr, n) = &jobs[i];
        let mut q = req("POST", "/x", Fr::Cl(b(b"0123456789")));
        q.hdrs.push(("Expect", "100-continue"));
        let (w, mut e) = q.build();
        let head = w[..w.len() - 10].to_vec();
        let s = resp(*st, "Nope", fr.clone());
        let (rs, es) = s.build();
        let q2 = [req("GET", "/y", Fr::None), req("POST", "/y", Fr::Cl(b(b"abc"))), q.clone()][*n].clone();
        let s2 = resp(200, "OK", Fr::Cl(b(b"ok")));
        let (w2, e2) = q2.build();
        let (rs2, es2) = s2.build();
        // refused before the body
        e.body.clear();
        e.message_len = 0;
        for x in 1..=rs.len() {
            for y in 1..=w2.len() {
                if ctx.quick() && x != rs.len() && y != w2.len() && (x * 7 + y) % 5 != 0 {
                    continue;
                }
                begin(&[&head, &rs, &w2, &rs2, format!("{} {}", x, y).as_bytes()]);
                nontrivial();
                let r = guarded(|| -> Result<(), String> {
                    reset();
                    let mut d = Drive::new(P::new(cfg_default()));
                    d.req(&head);
                    for seg in segments(&rs, &[x]) {
                        d.resp(seg);
                    }
                    for seg in segments(&w2, &[y]) {
                        d.req(seg);
                    }
                    d.resp(&rs2);
                    d.close();
                    transitions(d.p.calls);
                    let ev = take_events();
                    let txs = d.p.txs();
                    outcome(h64(&(&ev, &txs)));
                    if txs.len() != 2 {
                        return Err(format!("{} transactions", txs.len()));
                    }
                    let t = txs[0].clone().ok_or("missing")?;
                    check_req(&t, &q, &e)?;
                    check_resp(&t, &s, &es)?;
                    check_events(&ev, 0, &e, Some(&es))?;
                    let t = txs[1].clone().ok_or("missing")?;
                    check_req(&t, &q2, &e2)?;
                    check_resp(&t, &s2, &es2)?;
                    check_events(&ev, 1, &e2, Some(&es2))?;
                    Ok(())
                });
                rep(ctx, r, "expect-refused", &[&head, &rs, &w2, &rs2], &format!("cuts {} {}", x, y));
            }
        }
    });
    // body already under way, or the request without Expect, or 100 Continue: the body is followed
    let mut list = vec![];
    for st in [200u16, 404, 417, 500] {
        for ex in [None, Some("100-continue")] {
            for (interim, body) in [(0usize, &b"0123456789"[..]), (1, b"0123456789"), (0, b"GET /i HTTP/1.1\r\n\r\n"), (1, b"GET /i HTTP/1.1\r\n\r\n")] {
                let mut q = req("POST", "/x", Fr::Cl(b(body)));
                if let Some(e) = ex {
                    q.hdrs.push(("Expect", e));
                }
                let mut s = resp(st, "R", Fr::Cl(b(b"ok")));
                for _ in 0..interim {
                    s.interim.push(vec![("A", "1")]);
                }
                list.push((q, s, ex.is_some()));
            }
        }
    }
    ctx.par(list.len(), |i| format!("continue {}", i), |i| {
        let (q, s, ex) = &list[i];
        let (w, e) = q.build();
        let (rs, es) = s.build();
        let h = head_len(&w);
        let q2 = req("GET", "/y", Fr::None);
        let s2 = resp(200, "OK", Fr::Cl(b(b"ok")));
        let (w2, e2) = q2.build();
        let (rs2, es2) = s2.build();
        let ih = if s.interim.is_empty() { 0 } else { head_len(&rs) };
        for x in 1..w.len() {
            for y in 1..rs.len() {
                // the final 4xx must not precede the body when the client asked to wait
                if *ex && (400..500).contains(&s.status) && x <= h && y > ih {
                    continue;
                }
                if x < h && y > 0 && x != h - 1 {
                    continue;
                }
                begin(&[&w, &rs, format!("{} {}", x, y).as_bytes()]);
                nontrivial();
                let r = guarded(|| -> Result<(), String> {
                    reset();
                    let mut d = Drive::new(P::new(cfg_default()));
                    let (a, bb) = w.split_at(x);
                    let (r1, r2) = rs.split_at(y);
                    d.req(a);
                    if x >= h {
                        d.resp(r1);
                        d.req(bb);
                        d.resp(r2);
                    } else {
                        d.req(bb);
                        d.resp(r1);
                        d.resp(r2);
                    }
                    d.req(&w2);
                    d.resp(&rs2);
                    d.close();
                    transitions(d.p.calls);
                    let ev = take_events();
                    let txs = d.p.txs();
                    outcome(h64(&(&ev, &txs)));
                    if txs.len() != 2 {
                        return Err(format!("{} transactions", txs.len()));
                    }
                    for (k, (q, e, s, es)) in [(q, &e, s, &es), (&q2, &e2, &s2, &es2)].into_iter().enumerate() {
                        let t = txs[k].clone().ok_or("missing")?;
                        check_req(&t, q, e)?;
                        check_resp(&t, s, es)?;
                        check_events(&ev, k, e, Some(es))?;
                    }
                    Ok(())
                });
                rep(ctx, r, "continue", &[&w, &rs], &format!("cuts {} {}", x, y));
            }
        }
    });    // a refusal ends its own request, not one that is pipelined behind it
    let mut list = vec![];
    for st in [400u16, 404, 417, 499] {
        for first in [false, true] {
            for second in [None, Some("100-continue"), Some("other")] {
                for body in [&b"abcdefg"[..], b"GET /in HTTP/1.1\r\nHost: h\r\n\r\n", b"\r\nab"] {
                    list.push((st, first, second, body));
                }
            }
        }
    }
    ctx.par(list.len(), |i| format!("pipelined expect {}", i), |i| {
        let (st, first, second, body) = list[i];
        let mut q1 = if first { req("POST", "/x", Fr::Cl(b(b"0123456789"))) } else { req("GET", "/x", Fr::None) };
        if first {
            q1.hdrs.push(("Expect", "100-continue"));
        }
        let mut q2 = req("POST", "/y", Fr::Cl(b(body)));
        if let Some(e) = second {
            q2.hdrs.push(("Expect", e));
        }
        let s1 = resp(st, "R", Fr::Cl(b(b"no")));
        let s2 = resp(200, "OK", Fr::Cl(b(b"ok")));
        let ((w1, e1), (w2, e2)) = (q1.build(), q2.build());
        let ((r1, f1), (r2, f2)) = (s1.build(), s2.build());
        let w = [&w1[..], &w2].concat();
        for x in w1.len()..w.len() {
            for y in 1..=r1.len() {
                for glued in [false, true] {
                    begin(&[&w, &r1, format!("{} {} {}", x, y, glued).as_bytes()]);
                    nontrivial();
                    let r = guarded(|| -> Result<(), String> {
                        reset();
                        let mut d = Drive::new(P::new(cfg_default()));
                        if glued {
                            d.req(&w[..x]);
                        } else {
                            d.req(&w1);
                            if x > w1.len() {
                                d.req(&w[w1.len()..x]);
                            }
                        }
                        for seg in segments(&r1, &[y]) {
                            d.resp(seg);
                        }
                        d.req(&w[x..]);
                        d.resp(&r2);
                        d.close();
                        transitions(d.p.calls);
                        let ev = take_events();
                        let txs = d.p.txs();
                        outcome(h64(&(&ev, &txs)));
                        if txs.len() != 2 {
                            return Err(format!("{} transactions", txs.len()));
                        }
                        for (k, (q, e, s, es)) in [(&q1, &e1, &s1, &f1), (&q2, &e2, &s2, &f2)].into_iter().enumerate() {
                            let t = txs[k].clone().ok_or("missing")?;
                            check_req(&t, q, e)?;
                            check_resp(&t, s, es)?;
                            check_events(&ev, k, e, Some(es))?;
                        }
                        Ok(())
                    });
                    rep(ctx, r, "pipelined-expect", &[&w, &r1], &format!("cuts {} {} glued {}", x, y, glued));
                }
            }
        }
    });
}
