//! C14: bytes missing from the capture (gaps).
use crate::eng::*;
use crate::gen::*;
use crate::model::*;
use crate::rec::*;
use htp::connection_parser::HtpStreamState as St;
use htp::util::HtpFlags;

/// A piece of the body: data or gap.
#[derive(Clone, Copy, Debug)]
struct Piece {
    from: usize,
    to: usize,
    gap: bool,
}

/// All ways to split a body of `n` bytes into pieces, each present or missing.
fn pieces(n: usize, f: &mut dyn FnMut(&[Piece])) {
    fn rec(at: usize, n: usize, cur: &mut Vec<Piece>, f: &mut dyn FnMut(&[Piece])) {
        if at == n {
            return f(cur);
        }
        for to in at + 1..=n {
            for gap in [false, true] {
                cur.push(Piece { from: at, to, gap });
                rec(to, n, cur, f);
                cur.pop();
            }
        }
    }
    rec(0, n, &mut vec![], f)
}

struct Conv {
    resp: bool,
    /// messages on the direction under test; `at` has the body with gaps
    qs: Vec<Req>,
    ss: Vec<Resp>,
    at: usize,
    /// so many bytes of the last request come only after the responses
    late: usize,
}

fn bodies(ctx: &Ctx, c: &Conv, ps: &[Piece], over: usize, glue: u8) {
    let qb: Vec<_> = c.qs.iter().map(|q| q.build()).collect();
    let sb: Vec<_> = c.ss.iter().map(|q| q.build()).collect();
    let (wires, exps): (Vec<&[u8]>, Vec<&Exp>) = if c.resp {
        (sb.iter().map(|x| &x.0[..]).collect(), sb.iter().map(|x| &x.1).collect())
    } else {
        (qb.iter().map(|x| &x.0[..]).collect(), qb.iter().map(|x| &x.1).collect())
    };
    let e = exps[c.at];
    let close = e.close_delimited;
    let head = wires[c.at].len() - e.body.len();
    let mut calls: Vec<Result<Vec<u8>, usize>> = vec![];
    let before: Vec<u8> = wires[..c.at].concat();
    let mut first = cat(&[&before, &wires[c.at][..head]]);
    let after: Vec<u8> = wires[c.at + 1..].concat();
    for (i, p) in ps.iter().enumerate() {
        let last = i + 1 == ps.len();
        if p.gap {
            if !first.is_empty() {
                calls.push(Ok(std::mem::take(&mut first)));
            }
            calls.push(Err(p.to - p.from + if last { over } else { 0 }));
        } else {
            let mut d = e.body[p.from..p.to].to_vec();
            if !first.is_empty() {
                if glue & 1 == 1 {
                    d = cat(&[&first, &d]);
                } else {
                    calls.push(Ok(first.clone()));
                }
                first.clear();
            }
            if last && glue & 2 == 2 {
                d.extend_from_slice(&after);
            }
            calls.push(Ok(d));
        }
    }
    if !after.is_empty() && !(glue & 2 == 2 && !ps.last().unwrap().gap) {
        calls.push(Ok(after.clone()));
    }
    begin(&[format!("{:?}", calls).as_bytes()]);
    if ps.iter().any(|p| p.gap) {
        nontrivial();
    }
    let r = guarded(|| -> Result<(), String> {
        reset();
        let mut p = P::new(cfg_default());
        let mut sent = 0u64;
        let qw: Vec<u8> = qb.iter().flat_map(|q| q.0.clone()).collect();
        if c.resp && c.late == 0 {
            for q in &qb {
                p.req(&q.0);
            }
        } else if c.resp {
            p.req(&qw[..qw.len() - c.late]);
        }
        for (i, k) in calls.iter().enumerate() {
            let st = match (k, c.resp) {
                (Ok(d), false) => p.req(d),
                (Ok(d), true) => p.resp(d),
                (Err(n), false) => p.req_gap(*n),
                (Err(n), true) => p.resp_gap(*n),
            };
            sent += match k {
                Ok(d) => d.len() as u64,
                Err(n) => *n as u64,
            };
            if matches!(st, St::ERROR | St::STOP | St::TUNNEL) {
                return Err(format!("call {} answered {:?}", i, st));
            }
            let n = if c.resp { p.c.conn.response_data_counter } else { p.c.conn.request_data_counter };
            if n != sent as _ {
                return Err(format!("{} bytes counted of {}", n, sent));
            }
        }
        if !c.resp {
            for s in &sb {
                p.resp(&s.0);
            }
        } else if c.late > 0 {
            p.req(&qw[qw.len() - c.late..]);
        }
        p.close();
        transitions(p.calls);
        let ev = take_events();
        let txs = p.txs();
        outcome(h64(&(&ev, &txs)));
        if txs.len() != c.qs.len() {
            return Err(format!("{} transactions instead of {}", txs.len(), c.qs.len()));
        }
        let flag = if c.resp { HtpFlags::RESPONSE_MISSING_BYTES } else { HtpFlags::REQUEST_MISSING_BYTES };
        let other = if c.resp { HtpFlags::REQUEST_MISSING_BYTES } else { HtpFlags::RESPONSE_MISSING_BYTES } & !HtpFlags::MISSING_BYTES;
        for i in 0..txs.len() {
            let mut t = txs[i].clone().ok_or("missing transaction")?;
            let want = i == c.at && ps.iter().any(|p| p.gap);
            if t.has(flag) != want || t.flags & other != 0 {
                return Err(format!("missing-bytes flags of transaction {} are {:x}", i, t.flags));
            }
            if i == c.at {
                // the entity length counts what was delivered
                if c.resp {
                    t.response_entity_len = e.body.len() as u64;
                    if close {
                        t.response_message_len = e.message_len;
                    }
                } else {
                    t.request_entity_len = e.body.len() as u64;
                }
            }
            check_req(&t, &c.qs[i], &qb[i].1).map_err(|m| format!("transaction {} {}", i, m))?;
            check_resp(&t, &c.ss[i], &sb[i].1).map_err(|m| format!("transaction {} {}", i, m))?;
            if i != c.at {
                check_events(&ev, i, &qb[i].1, Some(&sb[i].1))?;
            } else {
                let h = if c.resp { H::RESP_BODY_DATA } else { H::REQ_BODY_DATA };
                // expected body callbacks: present pieces merged, each gap on its own
                let mut want: Vec<(H, D)> = vec![];
                for p in ps {
                    if p.gap {
                        want.push((h, D::Gap(p.to - p.from + if close && p.to == e.body.len() { over } else { 0 })));
                    } else if let Some((_, D::Bytes(b))) = want.last_mut() {
                        b.extend_from_slice(&e.body[p.from..p.to]);
                    } else {
                        want.push((h, D::Bytes(e.body[p.from..p.to].to_vec())));
                    }
                }
                let full = if c.resp { resp_events(e) } else { req_events(e, i) };
                let mut exp = vec![];
                for x in full {
                    if x.0 == h && matches!(x.1, D::Bytes(_)) {
                        exp.extend(want.iter().cloned());
                    } else {
                        exp.push(x);
                    }
                }
                let got = side(&ev, i, !c.resp);
                if got != exp {
                    return Err(format!("callbacks {}, expected {}", show_events(&got), show_events(&exp)));
                }
            }
        }
        Ok(())
    });
    let m = match r {
        Ok(Ok(())) => return,
        Ok(Err(m)) => m,
        Err(m) => format!("panic {}", m),
    };
    let cs: Vec<String> = calls
        .iter()
        .map(|c| match c {
            Ok(d) => format!("[{}]", show(d)),
            Err(n) => format!("gap({})", n),
        })
        .collect();
    let dir = if c.resp { "response" } else { "request" };
    ctx.violation(format!("{} body gap {:?}", dir, ps), format!("{} {}: {}", dir, cs.join(" "), m), format!("{} {}", dir, cs.join(" ")));
}

/// A gap outside a body of known length: refused, nothing else changes.
fn elsewhere(ctx: &Ctx, c: &Conv, pos: usize, n: usize, second: Option<usize>) {
    let qw: Vec<u8> = c.qs.iter().flat_map(|q| q.build().0).collect();
    let sw: Vec<u8> = c.ss.iter().flat_map(|q| q.build().0).collect();
    let w = if c.resp { &sw } else { &qw };
    begin(&[w, format!("{} {}", pos, n).as_bytes()]);
    nontrivial();
    let mut ends = vec![];
    let mut at = 0;
    for i in 0..c.qs.len() {
        at += if c.resp { c.ss[i].build().0.len() } else { c.qs[i].build().0.len() };
        ends.push(at);
    }
    let run = |gap: bool| -> Result<(Obs, Vec<St>), String> {
        reset();
        let mut p = P::new(cfg_default());
        let mut sts = vec![];
        if c.resp {
            p.req(&qw);
        }
        let mut from = 0;
        // a message begins in a chunk of its own
        let mut stops: Vec<usize> = [Some(pos), second].into_iter().flatten().chain(ends.iter().copied()).collect();
        stops.sort();
        stops.dedup();
        for at in stops {
            let d = &w[from..at];
            if !d.is_empty() {
                if c.resp {
                    p.resp(d);
                } else {
                    p.req(d);
                }
            }
            from = at;
            if gap && (at == pos || Some(at) == second) {
                let k = ev_len();
                sts.push(if c.resp { p.resp_gap(n) } else { p.req_gap(n) });
                let cons = if c.resp { p.resp_consumed() } else { p.req_consumed() };
                if ev_len() != k {
                    return Err("a callback ran for the refused gap".into());
                }
                if cons != 0 {
                    return Err(format!("{} bytes of the refused gap consumed", cons));
                }
            }
        }
        if !c.resp {
            p.resp(&sw);
        }
        p.close();
        transitions(p.calls);
        let mut o = p.obs();
        // the refusal itself is logged
        o.logs.retain(|l| l != "INVALID_GAP");
        Ok((o, sts))
    };
    let r = guarded(|| -> Result<(), String> {
        let (mut a, _) = run(false)?;
        let (mut b, sts) = run(true)?;
        outcome(h64(&(&b.ev, &b.txs)));
        if sts.iter().any(|s| *s != St::CLOSED) {
            return Err(format!("the gap was answered with {:?}", sts));
        }
        let k = sts.len() as u64 * n as u64;
        if c.resp {
            a.outb += k;
        } else {
            a.inb += k;
        }
        // the current transaction is marked; which one that is follows from the position
        let flag = if c.resp { HtpFlags::RESPONSE_MISSING_BYTES } else { HtpFlags::REQUEST_MISSING_BYTES };
        for x in [Some(pos), second].into_iter().flatten() {
            let i = ends.iter().position(|e| x < *e).unwrap();
            if let Some(Some(t)) = a.txs.get_mut(i) {
                t.flags |= flag;
            }
        }
        if a != b {
            return Err(diff(&a, &b));
        }
        let _ = &mut b;
        Ok(())
    });
    let m = match r {
        Ok(Ok(())) => return,
        Ok(Err(m)) => m,
        Err(m) => format!("panic {}", m),
    };
    let dir = if c.resp { "response" } else { "request" };
    let what = format!("{} [{}] gap({}) [{}]", dir, show(&w[..pos]), n, show(&w[pos..]));
    ctx.violation(format!("{} gap outside {}", dir, pos), format!("{}: {}", what, m), what);
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule("(a) every split of a Content-Length or close-delimited body into present and missing pieces, glued to head and follower or not, the last gap reaching 0-3 bytes too far, the request complete or still on its way; (b) a gap at every other byte position of conversations, compared with the run without it; (c) leading gaps. Non-trivial: a gap is present.");
    let th = !ctx.quick();
    let ok = || resp(200, "OK", Fr::Cl(b"ok".to_vec()));
    let get = |t| req("GET", t, Fr::None);
    let ch = || Fr::Chunked { chunks: vec![b"abc".to_vec(), b"d".to_vec()], ext: 1, trailers: vec![("T", "v")] };
    let mut jobs: Vec<(Conv, usize)> = vec![];
    for body in [&b"a"[..], b"ab", b"\r\nx", b"GET ", b"HTTP/", b"a\r\n\r\nb", b"xyzHTTP"] {
        if !th && body.len() > 6 {
            continue;
        }
        for eol in ["\r\n", "\n"] {
            let mut q = req("POST", "/b", Fr::Cl(body.to_vec()));
            q.eol = eol;
            for (qs, at) in [(vec![q.clone()], 0), (vec![get("/1"), q.clone(), get("/3")], 1), (vec![q.clone(), req("PUT", "/2", ch())], 0), (vec![req("PUT", "/0", ch()), q.clone(), q.clone()], 1)] {
                let ss = qs.iter().map(|_| ok()).collect();
                jobs.push((Conv { resp: false, qs, ss, at, late: 0 }, body.len()));
            }
            if eol == "\n" && body[0] == b'\r' {
                continue;
            }
            let mut s = resp(200, "Fine", Fr::Cl(body.to_vec()));
            s.eol = eol;
            let mut i = s.clone();
            i.interim = vec![vec![("A", "b")]];
            for (ss, at) in [
                (vec![s.clone()], 0),
                (vec![ok(), s.clone(), ok()], 1),
                (vec![s.clone(), resp(404, "No", ch())], 0),
                (vec![resp(200, "OK", ch()), s.clone(), s.clone()], 1),
                (vec![i.clone(), ok()], 0),
                (vec![resp(304, "N", Fr::None), s.clone()], 1),
            ] {
                let qs = ss.iter().map(|_| get("/r")).collect();
                // the same while the request is still on its way
                if at + 1 == ss.len() {
                    for (fr, late) in [(Fr::Cl(b"xyz".to_vec()), 1), (Fr::Cl(b"xyz".to_vec()), 3), (ch(), 2), (ch(), 12)] {
                        let mut qs: Vec<Req> = ss.iter().map(|_| get("/r")).collect();
                        qs[at] = req("POST", "/r", fr);
                        jobs.push((Conv { resp: true, qs, ss: ss.clone(), at, late }, body.len()));
                    }
                }
                jobs.push((Conv { resp: true, qs, ss, at, late: 0 }, body.len()));
            }
            let mut s = resp(200, "Fine", Fr::Close(body.to_vec()));
            s.eol = eol;
            jobs.push((Conv { resp: true, qs: vec![get("/c")], ss: vec![s.clone()], at: 0, late: 0 }, body.len()));
            jobs.push((Conv { resp: true, qs: vec![get("/c"), get("/d")], ss: vec![ok(), s.clone()], at: 1, late: 0 }, body.len()));
        }
    }
    ctx.note("body conversations", jobs.len());
    ctx.par(jobs.len(), |i| format!("{:?}", jobs[i].0.ss), |i| {
        let (c, n) = &jobs[i];
        if i % 20 == 0 {
            ctx.sample(format!("body of {} bytes, message {} of {}", n, c.at + 1, c.qs.len()));
        }
        pieces(*n, &mut |ps| {
            for glue in 0..4 {
                for over in 0..4 {
                    if over > 0 && !ps.last().unwrap().gap {
                        continue;
                    }
                    bodies(ctx, c, ps, over, glue);
                }
            }
        });
    });
    // (b)
    let mut jobs: Vec<Conv> = vec![];
    for eol in ["\r\n", "\n"] {
        for fr in [Fr::None, Fr::Cl(b"xyz".to_vec()), Fr::Cl(vec![]), ch(), Fr::Chunked { chunks: vec![], ext: 0, trailers: vec![] }] {
            let mut q = req("POST", "/b", fr.clone());
            q.eol = eol;
            q.hdrs.push(("X", "y"));
            jobs.push(Conv { resp: false, qs: vec![q.clone(), get("/2")], ss: vec![ok(), ok()], at: 0, late: 0 });
            jobs.push(Conv { resp: false, qs: vec![get("/1"), q.clone()], ss: vec![ok(), ok()], at: 0, late: 0 });
            let mut s = resp(if matches!(fr, Fr::None) { 204 } else { 200 }, "Fine", fr);
            s.eol = eol;
            s.interim = vec![vec![]];
            jobs.push(Conv { resp: true, qs: vec![get("/1"), get("/2")], ss: vec![s.clone(), ok()], at: 0, late: 0 });
            jobs.push(Conv { resp: true, qs: vec![get("/1"), get("/2")], ss: vec![ok(), s.clone()], at: 0, late: 0 });
        }
    }
    ctx.par(jobs.len(), |i| format!("{:?}", jobs[i].ss), |i| {
        let c = &jobs[i];
        let mut skip = vec![];
        let mut at = 0;
        for k in 0..c.qs.len() {
            let (w, e, fr) = if c.resp {
                let b = c.ss[k].build();
                (b.0.len(), b.1, &c.ss[k].fr)
            } else {
                let b = c.qs[k].build();
                (b.0.len(), b.1, &c.qs[k].fr)
            };
            if matches!(fr, Fr::Cl(_)) && !e.body.is_empty() {
                skip.push((at + w - e.body.len(), at + w));
            }
            at += w;
        }
        let pos: Vec<usize> = (1..at).filter(|p| !skip.iter().any(|(a, b)| p >= a && p < b)).collect();
        for (j, &p) in pos.iter().enumerate() {
            for n in [1usize, 2, 5, 1000] {
                elsewhere(ctx, c, p, n, None);
            }
            {
                for &p2 in pos[j + 1..].iter().take(if th { 1000 } else { 6 }) {
                    elsewhere(ctx, c, p, 3, Some(p2));
                }
            }
        }
    });
    // (c) a leading gap fails the request stream
    ctx.par(4, |i| i.to_string(), |i| {
        let n = [1usize, 7, 4096, 1 << 40][i];
        begin(&[b"leading", format!("{}", n).as_bytes()]);
        nontrivial();
        reset();
        let mut p = P::new(cfg_default());
        let st = p.req_gap(n);
        let st2 = p.req(b"GET / HTTP/1.1\r\n\r\n");
        let flagged = p.tx(0).map_or(false, |t| t.has(HtpFlags::REQUEST_MISSING_BYTES));
        transitions(p.calls);
        if st != St::ERROR || st2 != St::ERROR || !flagged || ev_len() != 0 {
            ctx.violation("leading gap", format!("leading gap of {}: {:?} {:?} flagged {} {} callbacks", n, st, st2, flagged, ev_len()), "leading gap");
        }
    });
}
