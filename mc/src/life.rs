//! C04 (accounting), C06 (sticky states), C10 (callback verdicts), C11 (resource limits).
use crate::eng::*;
use crate::hist::*;
use crate::rec::*;
use htp::connection_parser::HtpStreamState as St;

fn legal(seq: &[A]) -> bool {
    // request_close ends the request side, close ends both
    if let Some(i) = seq.iter().position(|a| *a == A::QClose) {
        if seq[i + 1..].iter().any(|a| matches!(a, A::Q(_) | A::QG(_) | A::QClose)) {
            return false;
        }
    }
    if let Some(i) = seq.iter().position(|a| *a == A::Close) {
        if i + 1 < seq.len() {
            return false;
        }
    }
    true
}

/// One data call, checked.
fn acct(p: &mut P, a: A) -> Result<(), String> {
    let (isq, len, gap) = match a {
        A::Q(b) => (true, b.len(), false),
        A::S(b) => (false, b.len(), false),
        A::QG(n) => (true, n, true),
        A::SG(n) => (false, n, true),
        _ => {
            apply(p, a);
            return Ok(());
        }
    };
    let before = if isq { p.c.request_status } else { p.c.response_status };
    let (qc, sc) = (p.c.conn.request_data_counter, p.c.conn.response_data_counter);
    let evs = ev_len();
    let r = apply(p, a).unwrap();
    let (used, d, other) = if isq {
        (p.req_consumed(), p.c.conn.request_data_counter.wrapping_sub(qc), p.c.conn.response_data_counter != sc)
    } else {
        (p.resp_consumed(), p.c.conn.response_data_counter.wrapping_sub(sc), p.c.conn.request_data_counter != qc)
    };
    let after = if isq { p.c.request_status } else { p.c.response_status };
    if other {
        return Err("the other direction's byte counter changed".into());
    }
    if matches!(before, St::STOP | St::ERROR) {
        if d != 0 || used != 0 {
            return Err(format!("counted {} and consumed {} bytes in state {:?}", d, used, before));
        }
        return Ok(());
    }
    if len == 0 && before != St::CLOSED {
        if d != 0 || used != 0 || ev_len() != evs || r != St::CLOSED || after != before {
            return Err("an empty chunk had an effect".into());
        }
        return Ok(());
    }
    if d != len as u64 {
        return Err(format!("byte counter grew by {} for {} bytes", d, len));
    }
    if used > len {
        return Err(format!("consumed {} of {} bytes", used, len));
    }
    if before == St::TUNNEL && used != 0 {
        return Err(format!("consumed {} bytes of a tunnel", used));
    }
    if !gap {
        if r == St::DATA && used != len {
            return Err(format!("asked for more data after consuming {} of {}", used, len));
        }
        if r == St::DATA_OTHER && used >= len {
            return Err("suspended although everything was consumed".into());
        }
    }
    if !gap || matches!(r, St::DATA | St::DATA_OTHER | St::STOP | St::TUNNEL) {
        if r != after && r != St::CLOSED {
            return Err(format!("returned {:?} but status is {:?}", r, after));
        }
    }
    Ok(())
}

pub fn run_c04(ctx: &mut Ctx) {
    ctx.rule("(a) every sequence of <=d API actions under 5 configurations, accounting contract checked at every call; (b) suspended conversations (CONNECT, pipelining) in every segmentation and interleaving of the bound with unconsumed remainders resubmitted, compared with the specification; (c) messages handed over as slice, vector, borrowed vector, option and pointer. Non-trivial: all.");
    let acts = alphabet();
    all_sequences(ctx, &acts, ctx.pick(4, 5), &configs(), |cfg, seq| {
        if !legal(seq) {
            return;
        }
        begin(&[cfg.name.as_bytes(), text(seq).as_bytes()]);
        nontrivial();
        let r = guarded(|| {
            reset();
            let mut p = P::new(build(cfg));
            for a in seq {
                acct(&mut p, *a)?;
            }
            transitions(p.calls);
            outcome(h64(&(p.c.conn.request_data_counter, p.c.conn.response_data_counter, p.req_consumed(), p.resp_consumed(), p.c.request_status as u8, p.c.response_status as u8)));
            Ok(())
        });
        report(ctx, r, cfg, seq);
    });
    crate::c08::suspended(ctx);
    // however the bytes are handed over, and before anything was
    let msgs: Vec<Vec<u8>> = crate::gen::requests().into_iter().take(12).chain([b"x".to_vec(), b"POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\nab".to_vec()]).collect();
    let ans: Vec<Vec<u8>> = crate::gen::responses().into_iter().take(12).collect();
    ctx.par(msgs.len() * ans.len(), |i| show(&msgs[i % msgs.len()]), |i| {
        let (q, s) = (&msgs[i % msgs.len()], &ans[i / msgs.len()]);
        begin(&[q, s]);
        nontrivial();
        let r = guarded(|| {
            let run = |k: usize| -> Result<(Obs, Vec<(u8, usize)>), String> {
                reset();
                let mut p = P::new(cfg_default());
                if (p.req_consumed(), p.resp_consumed(), p.c.conn.request_data_counter, p.c.conn.response_data_counter) != (0, 0, 0, 0) {
                    return Err("a fresh parser has consumed something".into());
                }
                fn data(b: &[u8], v: &Vec<u8>, k: usize) -> ParserData<'static> {
                    // (the borrows end with the call)
                    let d: ParserData = match k {
                        0 => ParserData::from(b),
                        1 => ParserData::from(b.to_vec()),
                        2 => ParserData::from(v),
                        3 => ParserData::from(Some(b)),
                        _ => ParserData::from((b.as_ptr(), b.len())),
                    };
                    unsafe { std::mem::transmute(d) }
                }
                let mut at = vec![];
                let st = p.c.request_data(data(q, q, k), None);
                at.push((st as u8, p.req_consumed()));
                let st = p.c.response_data(data(s, s, k), None);
                at.push((st as u8, p.resp_consumed()));
                p.close();
                transitions(3);
                Ok((p.obs(), at))
            };
            let a = run(0)?;
            for k in 1..5 {
                let b = run(k)?;
                if a != b {
                    return Err(format!("handed over in way {}: {:?} {:?} {}", k, a.1, b.1, diff(&a.0, &b.0)));
                }
            }
            Ok(())
        });
        let m = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(m) => format!("panic {}", m),
        };
        ctx.violation(m.clone(), format!("{} req[{}] resp[{}]", m, show(q), show(s)), format!("req[{}] resp[{}]", show(q), show(s)));
    });
}

fn report(ctx: &Ctx, r: Result<Result<(), String>, String>, cfg: &NamedCfg, seq: &[A]) {
    let m = match r {
        Ok(Ok(())) => return,
        Ok(Err(m)) => m,
        Err(m) => format!("panic {}", m),
    };
    ctx.violation(m.clone(), format!("{} cfg={} {}", m, cfg.name, text(seq)), format!("cfg={} {}", cfg.name, text(seq)));
}

// ------------------------------------------------------------------ C06

fn snap(p: &P) -> u64 {
    h64(&(p.txs(), p.c.conn.flags))
}

/// Step that checks that a direction which has failed, stopped or become a tunnel is inert.
fn sticky(p: &mut P, a: A) -> Result<(), String> {
    let isq = match a {
        A::Q(_) | A::QG(_) => true,
        A::S(_) | A::SG(_) => false,
        _ => {
            let (q, s) = (p.c.request_status, p.c.response_status);
            apply(p, a);
            if q == St::ERROR && p.c.request_status != St::ERROR || s == St::ERROR && p.c.response_status != St::ERROR && a == A::Close {
                return Err("closing revived a failed direction".into());
            }
            return Ok(());
        }
    };
    let (q, s) = (p.c.request_status, p.c.response_status);
    let before = if isq { q } else { s };
    let dead = matches!(before, St::ERROR | St::STOP | St::TUNNEL);
    let h = if dead { snap(p) } else { 0 };
    let n = ev_len();
    let r = apply(p, a).unwrap();
    if dead {
        let empty = matches!(a, A::Q(b"") | A::S(b""));
        if r != before && !(empty && before == St::TUNNEL) {
            return Err(format!("{} direction was {:?} but a later call returned {:?}", if isq { "request" } else { "response" }, before, r));
        }
        if ev_len() != n {
            return Err(format!("callbacks ran for a direction in state {:?}", before));
        }
        if snap(p) != h {
            return Err(format!("a transaction changed on data for a direction in state {:?}", before));
        }
        let used = if isq { p.req_consumed() } else { p.resp_consumed() };
        if used != 0 {
            return Err(format!("{} bytes consumed in state {:?}", used, before));
        }
    }
    for (name, b, a) in [("request", q, p.c.request_status), ("response", s, p.c.response_status)] {
        if matches!(b, St::ERROR | St::STOP | St::TUNNEL) && a != b {
            return Err(format!("{} direction left state {:?} for {:?}", name, b, a));
        }
    }
    Ok(())
}

pub fn run_c06(ctx: &mut Ctx) {
    ctx.rule("every sequence of <=d API actions under 5 configurations, with no callback failing and with each of the first n callbacks answering ERROR or STOP; inertness of failed, stopped and tunnelled directions checked at every later call. Non-trivial: a direction was inert while data was offered.");
    let acts: Vec<A> = alphabet();
    let go = |cfg: &NamedCfg, seq: &[A], fault: &[Fault]| {
        begin(&[cfg.name.as_bytes(), text(seq).as_bytes(), format!("{:?}", fault).as_bytes()]);
        let r = guarded(|| {
            reset();
            set_fault(fault);
            let mut p = P::new(build(cfg));
            for a in seq {
                if matches!(p.c.request_status, St::ERROR | St::STOP | St::TUNNEL) || matches!(p.c.response_status, St::ERROR | St::STOP | St::TUNNEL) {
                    nontrivial();
                }
                sticky(&mut p, *a)?;
            }
            transitions(p.calls);
            outcome(h64(&(ev_len(), p.c.request_status as u8, p.c.response_status as u8)));
            Ok(())
        });
        let m = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(m) => format!("panic {}", m),
        };
        ctx.violation(m.clone(), format!("{} cfg={} fault={:?} {}", m, cfg.name, fault, text(seq)), format!("cfg={} fault={:?} {}", cfg.name, fault, text(seq)));
    };
    all_sequences(ctx, &acts, 4, &configs(), |cfg, seq| {
        if legal(seq) {
            go(cfg, seq, &[]);
        }
    });
    // callbacks that fail or stop, over a smaller alphabet
    let small: Vec<A> = vec![
        acts[0], acts[4], acts[7], acts[9], acts[13], acts[10], acts[16], acts[17], acts[19], acts[20], acts[25], acts[26], acts[15], acts[29], acts[30],
    ];
    let cf = configs();
    let nf = ctx.pick(12, 18);
    all_sequences(ctx, &small, ctx.pick(4, 5), &cf[0..1], |cfg, seq| {
        if !legal(seq) {
            return;
        }
        for k in 0..nf {
            for s in [S::Error, S::Stop] {
                go(cfg, seq, &[(k, s)]);
            }
        }
    });
}

// ------------------------------------------------------------------ C10

/// Run a history, remembering for every callback in which call it ran.
fn traced(cfg: &NamedCfg, seq: &[A], fault: &[Fault]) -> (Vec<Ev>, Vec<usize>, Vec<Option<St>>, P) {
    reset();
    set_fault(fault);
    let mut p = P::new(build(cfg));
    let mut at = vec![];
    let mut rets = vec![];
    for (i, a) in seq.iter().enumerate() {
        rets.push(apply(&mut p, *a));
        at.resize(ev_len(), i);
    }
    (take_events(), at, rets, p)
}

pub fn run_c10(ctx: &mut Ctx) {
    ctx.rule("(a) every history of <=d actions; for every callback k of its fault-free run and every verdict in {DECLINED, ERROR, STOP}: the run in which callback k answers so, compared with the fault-free run; (b) every combination of verdicts of three callbacks registered on one event, for every event. Non-trivial: all.");
    ctx.assume("the verdict of a raw header/trailer data callback delivered because a chunk ended in the middle of the headers is documented in the code as ignored and not checked");
    let acts = alphabet();
    let small: Vec<A> = vec![
        acts[0], acts[1], acts[3], acts[5], acts[6], acts[4], acts[7], acts[9], acts[10], acts[16], acts[17], acts[19], acts[20], acts[21], acts[22], acts[23], acts[24], acts[26],
        A::S(b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 23\r\n\r\n\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03\xcbH\xad\x04\x00\x47\xca\x1e\x79\x03\x00\x00\x00"),
        A::Q(b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\nT: v\r\n\r\n"),
        A::S(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\nT: v\r\n\r\n"),
        A::Q(b"POST / HTTP/1.1\r\nContent-Encoding: gzip\r\nContent-Length: 23\r\n\r\n\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03\xcbH\xad\x04\x00\x47\xca\x1e\x79\x03\x00\x00\x00"),
        A::QG(2),
        A::SG(2),
        A::Close,
    ];
    let cf = configs();
    all_sequences(ctx, &small, ctx.pick(3, 4), &cf[0..3], |cfg, seq| {
        if !legal(seq) {
            return;
        }
        let (base, at, brets, bp) = traced(cfg, seq, &[]);
        let bobs = (bp.txs(), bp.c.request_status, bp.c.response_status, bp.c.conn.flags);
        for k in 0..base.len() {
            for s in [S::Declined, S::Error, S::Stop] {
                begin(&[cfg.name.as_bytes(), text(seq).as_bytes(), format!("callback {} {:?} answers {:?}", k, base[k].h, s).as_bytes()]);
                nontrivial();
                let r = guarded(|| -> Result<(), String> {
                    let (ev, _, rets, p) = traced(cfg, seq, &[(k as u64, s)]);
                    transitions(p.calls);
                    outcome(h64(&ev));
                    let raw = matches!(base[k].h, H::REQ_HEADER_DATA | H::REQ_TRAILER_DATA | H::RESP_HEADER_DATA | H::RESP_TRAILER_DATA);
                    if s == S::Declined {
                        if ev != base || rets != brets || (p.txs(), p.c.request_status, p.c.response_status, p.c.conn.flags) != bobs {
                            return Err("DECLINED changed the run".into());
                        }
                        return Ok(());
                    }
                    if ev.len() <= k || ev[..=k] != base[..=k] {
                        return Err("the callbacks before the verdict changed".into());
                    }
                    let call = at[k];
                    if raw && at.get(k + 1) != Some(&call) {
                        return Ok(());
                    }
                    let want = if s == S::Error { St::ERROR } else { St::STOP };
                    let isq = match seq[call] {
                        A::Q(_) | A::QG(_) | A::QClose => true,
                        A::S(_) | A::SG(_) => false,
                        _ => base[k].h.is_req(),
                    };
                    if seq[call] == A::Close && base[k].h == H::TX_COMPLETE {
                        return Ok(());
                    }
                    let st = if isq { p.c.request_status } else { p.c.response_status };
                    let gz = seq.iter().any(|a| matches!(a, A::S(b) | A::Q(b) if b.windows(4).any(|w| w == b"gzip"))) && matches!(base[k].h, H::RESP_BODY_DATA | H::REQ_BODY_DATA);
                    if gz && base[k].d == D::End {
                        return Ok(());
                    }
                    // a later close() may close a stopped direction
                    let closed = seq[call + 1..].iter().any(|a| matches!(a, A::Close | A::QClose));
                    if gz {
                        // the verdict on decompressed data is only told apart as a failure
                        if st != St::ERROR && st != want && !(closed && want == St::STOP) {
                            return Err(format!("{:?} on decompressed data ignored: {:?}", s, st));
                        }
                    } else {
                        if let Some(r) = rets[call] {
                            if r != want {
                                return Err(format!("call returned {:?} although a callback answered {:?}", r, s));
                            }
                        }
                        if st != want && !(closed && want == St::STOP) {
                            return Err(format!("direction is {:?} although a callback answered {:?}", st, s));
                        }
                    }
                    // nothing more for this direction, as long as the connection is not closed
                    let end = seq.iter().position(|a| matches!(a, A::Close | A::QClose));
                    if end.is_none() {
                        if let Some(e) = ev[k + 1..].iter().find(|e| e.h != H::TX_COMPLETE && e.h.is_req() == isq) {
                            return Err(format!("{} ran after a callback answered {:?}", evs(Some(e)), s));
                        }
                    }
                    Ok(())
                });
                let m = match r {
                    Ok(Ok(())) => continue,
                    Ok(Err(m)) => m,
                    Err(m) => format!("panic {}", m),
                };
                let key = format!("{:?}:{}", base[k].h, m);
                ctx.violation(key, format!("{:?} callback {} answers {:?}: {} cfg={} {}", base[k].h, k, s, m, cfg.name, text(seq)), format!("cfg={} callback {} {:?}: {}", cfg.name, k, s, text(seq)));
            }
        }
    });
    multi(ctx);
}

use htp::connection_parser::ParserData;
use htp::transaction::Transaction;
use htp::HtpStatus;
use std::cell::RefCell;

thread_local! {
    /// verdict of callback i (None: OK), and the order in which they ran
    static MULTI: RefCell<([Option<S>; 5], Vec<u8>)> = const { RefCell::new(([None; 5], vec![])) };
}
fn mhit(i: u8) -> Result<(), HtpStatus> {
    MULTI.with(|m| {
        let mut m = m.borrow_mut();
        m.1.push(i);
        match m.0[i as usize] {
            None => Ok(()),
            Some(s) => Err(s.st()),
        }
    })
}
macro_rules! m {
    ($($t:ident $d:ident $i:expr),*) => { $(
        fn $t(_: &mut Transaction) -> Result<(), HtpStatus> { mhit($i) }
        fn $d(_: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> { if d.data().is_none() && !d.is_gap() { return Ok(()); } mhit($i) }
    )* };
}
m!(t0 d0 0, t1 d1 1, t2 d2 2, t3 d3 3, t4 d4 4);

/// Extra callbacks on the transaction itself, registered from request_start.
fn addtxq(tx: &mut Transaction) -> Result<(), HtpStatus> {
    tx.hook_request_body_data.register(d3);
    tx.hook_request_body_data.register(d4);
    Ok(())
}
fn addtxs(tx: &mut Transaction) -> Result<(), HtpStatus> {
    tx.hook_response_body_data.register(d3);
    tx.hook_response_body_data.register(d4);
    Ok(())
}

fn multi(ctx: &Ctx) {
    let verdicts = [None, Some(S::Declined), Some(S::Error), Some(S::Stop)];
    let n = 4usize.pow(5);
    ctx.par(18 * n, |i| format!("multi {}", i), |i| {
        let hook = i / n;
        let mut c = i % n;
        let mut v = [None; 5];
        for x in v.iter_mut() {
            *x = verdicts[c % 4];
            c /= 4;
        }
        let tx_hooks = matches!(hook, 5 | 13);
        if !tx_hooks && (v[3].is_some() || v[4].is_some()) {
            return;
        }
        begin(&[format!("event {} verdicts {:?}", hook, v).as_bytes()]);
        nontrivial();
        let r = guarded(|| -> Result<(), String> {
            MULTI.with(|m| *m.borrow_mut() = (v, vec![]));
            let mut cfg = htp::config::Config::default();
            if tx_hooks {
                cfg.register_request_start(if hook == 5 { addtxq } else { addtxs });
            }
            for k in 0..3 {
                let t = [t0, t1, t2][k];
                let d = [d0, d1, d2][k];
                match hook {
                    0 => cfg.register_request_start(t),
                    1 => cfg.hook_request_uri_normalize.register(t),
                    2 => cfg.register_request_line(t),
                    3 => cfg.register_request_header_data(d),
                    4 => cfg.register_request_headers(t),
                    5 => cfg.register_request_body_data(d),
                    6 => cfg.register_request_trailer_data(d),
                    7 => cfg.register_request_trailer(t),
                    8 => cfg.register_request_complete(t),
                    9 => cfg.register_response_start(t),
                    10 => cfg.register_response_line(t),
                    11 => cfg.register_response_header_data(d),
                    12 => cfg.register_response_headers(t),
                    13 => cfg.register_response_body_data(d),
                    14 => cfg.register_response_trailer_data(d),
                    15 => cfg.register_response_trailer(t),
                    16 => cfg.register_response_complete(t),
                    _ => cfg.register_transaction_complete(t),
                }
            }
            let mut p = P::new(cfg);
            let q = p.req(b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\nT: v\r\n\r\n");
            let s = p.resp(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\nT: v\r\n\r\n");
            transitions(2);
            let ran = MULTI.with(|m| m.borrow().1.clone());
            outcome(h64(&(ran.clone(), q as u8, s as u8, hook)));
            let order: Vec<u8> = if tx_hooks { vec![3, 4, 0, 1, 2] } else { vec![0, 1, 2] };
            let mut want = vec![];
            let mut verdict = None;
            for o in order {
                want.push(o);
                if let Some(x @ (S::Error | S::Stop)) = v[o as usize] {
                    verdict = Some(x);
                    break;
                }
            }
            if ran != want {
                return Err(format!("callbacks ran in order {:?} instead of {:?}", ran, want));
            }
            let dir = if hook <= 8 { q } else { s };
            let w = match verdict {
                None => St::DATA,
                Some(S::Error) => St::ERROR,
                _ => St::STOP,
            };
            if dir != w {
                return Err(format!("call returned {:?} instead of {:?}", dir, w));
            }
            Ok(())
        });
        let m = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(m) => format!("panic {}", m),
        };
        ctx.violation(format!("multi:{}:{:?}", hook, v), format!("event {}: {} (verdicts {:?})", hook, m, v), format!("event {} verdicts {:?}", hook, v));
    });
}

// ------------------------------------------------------------------ C11

use crate::gen::{cat, cuts, segments};

fn held(p: &P, req: bool) -> usize {
    if req {
        p.c.request_buf.len() + p.c.request_header.as_ref().map_or(0, |h| h.len())
    } else {
        p.c.response_buf.len() + p.c.response_header.as_ref().map_or(0, |h| h.len())
    }
}

fn live(p: &P) -> usize {
    // transactions are numbered consecutively; a few beyond the size may exist unstarted
    (0..p.c.tx_size() + 4).filter(|i| p.c.tx(*i).is_some()).count()
}

pub fn run_c11(ctx: &mut Ctx) {
    ctx.rule("(a) for every field limit in a range, every line/header of length around it in every place where the parser buffers, whole, byte-at-a-time and in every 2-cut segmentation: what is held between calls never exceeds the limit, a request line or an incomplete element longer than the limit fails the stream, and one within it does not; (b) every history of <=d actions with max_tx 1..3: no more live transactions than allowed; (c) auto-destroy: any number of sequential transactions; (d) header repetition patterns up to 150 repetitions against a model. Non-trivial: the limit is reached.");
    // (a) places: prefix, fill byte, suffix of the element, rest of stream; is request
    let places: Vec<(&str, bool, &[u8], &[u8], &[u8], &[u8])> = vec![
        ("request-line", true, b"", b"GET /", b" HTTP/1.1\r\n", b"\r\n"),
        ("request-header", true, b"G / HTTP/1.1\r\n", b"A:", b"\r\n", b"\r\n"),
        ("request-chunk-length", true, b"P / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", b"1;", b"\r\n", b"a\r\n0\r\n\r\n"),
        ("request-trailer", true, b"P / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n", b"T:", b"\r\n", b"\r\n"),
        ("status-line", false, b"", b"HTTP/1.1 200 ", b"\r\n", b"Content-Length: 0\r\n\r\n"),
        ("response-header", false, b"HTTP/1.1 200 OK\r\n", b"A:", b"\r\n", b"Content-Length: 0\r\n\r\n"),
        ("response-chunk-length", false, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", b"1;", b"\r\n", b"a\r\n0\r\n\r\n"),
        ("response-trailer", false, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n", b"T:", b"\r\n", b"\r\n"),
    ];
    let lims: Vec<usize> = ctx.pick(vec![48, 49, 64], (44..80).collect());
    let jobs: Vec<(usize, usize)> = (0..places.len()).flat_map(|p| lims.iter().map(move |l| (p, *l))).collect();
    ctx.par(jobs.len(), |i| places[jobs[i].0].0.to_string(), |i| {
        let (name, isq, pre, a, z, post) = places[jobs[i].0];
        let l = jobs[i].1;
        let fixed = a.len() + z.len();
        for n in l - 6..l + 12 {
            let fill = vec![b'x'; n - fixed];
            let elem = cat(&[a, &fill, z]);
            let stream = cat(&[pre, &elem, post]);
            let go = |c: &[usize]| {
                begin(&[name.as_bytes(), format!("limit {} length {} cuts {:?}", l, n, c).as_bytes()]);
                if n > l {
                    nontrivial();
                }
                let r = guarded(|| -> Result<(), String> {
                    reset();
                    let mut cfg = cfg_default();
                    cfg.set_field_limit(l);
                    let mut p = P::new(cfg);
                    if !isq {
                        p.req(b"G / HTTP/1.1\r\nHost: a\r\n\r\n");
                    }
                    let mut failed = false;
                    let mut over = false;
                    let mut pos = 0;
                    for s in segments(&stream, c) {
                        pos += s.len();
                        let st = if isq { p.req(s) } else { p.resp(s) };
                        // the longest part of an element that a call left incomplete
                        let (e0, e1) = (pre.len(), pre.len() + elem.len());
                        if pos > e0 && pos < e1 && pos - e0 > l {
                            over = true;
                        }
                        if st == St::ERROR {
                            failed = true;
                            break;
                        }
                        if held(&p, isq) > l {
                            return Err(format!("{} bytes held with a limit of {}", held(&p, isq), l));
                        }
                    }
                    transitions(p.calls);
                    outcome(h64(&(failed, name, n > l)));
                    let line = matches!(name, "request-line" | "status-line");
                    if (over || (line && n > l)) && !failed {
                        return Err("an element over the limit was accepted".into());
                    }
                    // one byte more may be needed to see that a header is not continued
                    let more = name.contains("header") || name.contains("trailer");
                    if n + more as usize <= l && failed {
                        return Err("an element within the limit was refused".into());
                    }
                    if !failed {
                        p.close();
                        let t = p.tx(0).ok_or("no transaction")?;
                        let done = if isq { t.rp } else { t.sp };
                        if done != 5 {
                            return Err("message within the limit not complete".into());
                        }
                    }
                    Ok(())
                });
                let m = match r {
                    Ok(Ok(())) => return,
                    Ok(Err(m)) => m,
                    Err(m) => format!("panic {}", m),
                };
                ctx.violation(format!("limit:{}:{}", name, m.split(' ').take(4).collect::<Vec<_>>().join(" ")), format!("{}: {} (limit {}, element length {}, cuts {:?})", name, m, l, n, c), format!("{} limit {} length {} cuts {:?}", name, l, n, c));
            };
            cuts(stream.len(), 2, |c| go(c));
            let all: Vec<usize> = (1..stream.len()).collect();
            go(&all);
        }
    });
    // (b) the number of live transactions
    let acts = alphabet();
    let sel: Vec<A> = [0usize, 4, 6, 9, 11, 13, 15, 16, 17, 20, 24, 26, 29, 3, 22].iter().map(|i| acts[*i]).collect();
    let cfs: Vec<NamedCfg> = vec![
        NamedCfg { name: "max1", f: |c| c.max_tx = 1 },
        NamedCfg { name: "max2", f: |c| c.max_tx = 2 },
        NamedCfg {
            name: "max2auto",
            f: |c| {
                c.max_tx = 2;
                c.set_tx_auto_destroy(true)
            },
        },
        NamedCfg { name: "max3", f: |c| c.max_tx = 3 },
    ];
    all_sequences(ctx, &sel, ctx.pick(5, 6), &cfs, |cfg, seq| {
        begin(&[cfg.name.as_bytes(), text(seq).as_bytes()]);
        let r = guarded(|| -> Result<(), String> {
            reset();
            let c = build(cfg);
            let max = c.max_tx as usize;
            let mut p = P::new(c);
            for a in seq {
                apply(&mut p, *a);
                let n = live(&p);
                if n == max {
                    nontrivial();
                }
                if n > max {
                    return Err(format!("{} live transactions with a maximum of {}", n, max));
                }
            }
            transitions(p.calls);
            outcome(h64(&(p.c.tx_size(), live(&p), p.c.request_status as u8, p.c.response_status as u8)));
            Ok(())
        });
        report(ctx, r, cfg, seq);
    });
    // over the maximum: the stream fails instead of forgetting or corrupting anything
    let jobs: Vec<(u32, bool, usize)> = (1..=6u32).flat_map(|m| [false, true].into_iter().flat_map(move |a| (1..=10usize).map(move |n| (m, a, n)))).collect();
    ctx.par(jobs.len(), |i| format!("max_tx {:?}", jobs[i]), |i| {
        let (m, auto, n) = jobs[i];
        for order in 0..3 {
            begin(&[format!("max_tx {} auto {} n {} order {}", m, auto, n, order).as_bytes()]);
            nontrivial();
            let r = guarded(|| -> Result<(), String> {
                reset();
                let mut cfg = cfg_default();
                cfg.max_tx = m;
                cfg.set_tx_auto_destroy(auto);
                let mut p = P::new(cfg);
                let q = b"GET / HTTP/1.1\r\nHost: h\r\n\r\n";
                let s = b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx";
                let mut okq = 0;
                let mut oks = 0;
                match order {
                    // sequential
                    0 => {
                        for _ in 0..n {
                            okq += (p.req(q) == St::DATA) as usize;
                            oks += (p.resp(s) == St::DATA) as usize;
                        }
                    }
                    // all requests first
                    1 => {
                        for _ in 0..n {
                            okq += (p.req(q) == St::DATA) as usize;
                        }
                        for _ in 0..n.min(m as usize) {
                            oks += (p.resp(s) == St::DATA) as usize;
                        }
                    }
                    // all in one chunk
                    _ => {
                        okq = (p.req(&q.repeat(n)) == St::DATA) as usize * n;
                        oks = (p.resp(&s.repeat(n.min(m as usize))) == St::DATA) as usize * n.min(m as usize);
                    }
                }
                transitions(p.calls);
                let ev = take_events();
                outcome(h64(&ev));
                let reqs = ev.iter().filter(|e| e.h == H::REQ_COMPLETE).count();
                let txs = ev.iter().filter(|e| e.h == H::TX_COMPLETE).count();
                let mm = m as usize;
                let want = if auto && order == 0 { n } else { n.min(mm) };
                if reqs != want || txs != want {
                    return Err(format!("{} requests and {} transactions completed instead of {}", reqs, txs, want));
                }
                if n <= want && (okq != n || oks < want) {
                    return Err(format!("{} of {} request calls and {} response calls accepted", okq, n, oks));
                }
                if n > want && p.c.request_status != St::ERROR {
                    return Err(format!("request stream is {:?} although the maximum was exceeded", p.c.request_status));
                }
                let kept = (0..n).filter(|i| p.c.tx(*i).is_some()).count();
                if auto && kept != 0 && n <= want {
                    return Err(format!("{} complete transactions kept", kept));
                }
                if !auto && (0..want).any(|i| p.c.tx(i).is_none()) {
                    return Err("a transaction is gone".into());
                }
                Ok(())
            });
            let msg = match r {
                Ok(Ok(())) => continue,
                Ok(Err(m)) => m,
                Err(m) => format!("panic {}", m),
            };
            ctx.violation(format!("max_tx:{}:{}:{}:{}", m, auto, n, order), format!("max_tx={} auto_destroy={} n={} order={}: {}", m, auto, n, order, msg), format!("max_tx={} auto={} n={} order={}", m, auto, n, order));
        }
    });
    // (c) long connections with auto-destroy
    ctx.par(2, |i| format!("long {}", i), |i| {
        begin(&[b"long connection"]);
        nontrivial();
        let r = guarded(|| -> Result<(), String> {
            reset();
            let mut cfg = htp::config::Config::default();
            cfg.set_tx_auto_destroy(true);
            let mut p = P::new(cfg);
            let n = 3000;
            for k in 0..n {
                if p.req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n") != St::DATA {
                    return Err(format!("request {} refused", k));
                }
                if i == 1 && p.req(b"POST / HTTP/1.1\r\nContent-Length: 1\r\n\r\nx") != St::DATA {
                    return Err(format!("request {} refused", k));
                }
                for _ in 0..=i {
                    if p.resp(b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx") != St::DATA {
                        return Err(format!("response {} refused", k));
                    }
                }
                if live(&p) > 1 {
                    return Err(format!("{} transactions alive", live(&p)));
                }
                if p.c.tx_size() != (k + 1) * (i + 1) {
                    return Err(format!("tx_size {} after {} transactions", p.c.tx_size(), k + 1));
                }
            }
            Ok(())
        });
        if let Ok(Err(m)) | Err(m) = r {
            ctx.violation(format!("long:{}", i), m.clone(), format!("long connection {}", m));
        }
    });
    // (d) header repetitions
    let pats: Vec<Vec<&str>> = vec![vec!["A"], vec!["A", "B"], vec!["A", "a", "B"], vec!["A", "B", "C", "A"], vec!["Content-Length", "A"], vec!["A", "A", "A", "B"]];
    let reps = ctx.pick(150usize, 400);
    ctx.par(pats.len() * 2, |i| format!("repetition {:?}", pats[i / 2]), |i| {
        let pat = &pats[i / 2];
        let isq = i % 2 == 0;
        for n in 1..=reps {
            begin(&[format!("{:?} x {}", pat, n).as_bytes()]);
            if n > 64 {
                nontrivial();
            }
            let mut msg: Vec<u8> = if isq { b"GET / HTTP/1.1\r\n".to_vec() } else { b"HTTP/1.1 200 OK\r\n".to_vec() };
            // model: repetitions beyond the second of any header share a budget of 64
            let mut table: Vec<(String, Vec<u8>, bool)> = vec![];
            let mut budget = 0;
            for k in 0..n {
                let name = pat[k % pat.len()];
                let v = if name == "Content-Length" { "0".to_string() } else { format!("{}", k) };
                msg.extend_from_slice(format!("{}: {}\r\n", name, v).as_bytes());
                match table.iter_mut().find(|t| t.0.eq_ignore_ascii_case(name)) {
                    None => table.push((name.into(), v.into_bytes(), false)),
                    Some(t) => {
                        if t.2 {
                            if budget >= 64 {
                                continue;
                            }
                            budget += 1;
                        }
                        t.2 = true;
                        if name != "Content-Length" {
                            t.1.extend_from_slice(b", ");
                            t.1.extend_from_slice(v.as_bytes());
                        }
                    }
                }
            }
            msg.extend_from_slice(b"\r\n");
            let r = guarded(|| -> Result<(), String> {
                reset();
                let mut p = P::new(htp::config::Config::default());
                if isq {
                    p.req(&msg);
                } else {
                    p.req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
                    p.resp(&msg);
                    p.close();
                }
                transitions(p.calls);
                let t = p.tx(0).ok_or("no transaction")?;
                let hs = if isq { &t.request_headers } else { &t.response_headers };
                let got: Vec<(Vec<u8>, Vec<u8>)> = hs.iter().map(|h| (h.0.clone(), h.1.clone())).collect();
                outcome(h64(&got));
                let want: Vec<(Vec<u8>, Vec<u8>)> = table.iter().map(|t| (t.0.clone().into_bytes(), t.1.clone())).collect();
                if got != want {
                    return Err(format!("{} headers; expected {}", got.len(), want.len()));
                }
                Ok(())
            });
            if let Ok(Err(m)) | Err(m) = r {
                ctx.violation(format!("repeat:{:?}:{}", pat, isq), format!("pattern {:?} repeated {} times: {}", pat, n, m), format!("{:?} x {}", pat, n));
            }
        }
    });
}
