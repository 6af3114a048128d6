//! C30 (transactions can be removed once they are complete without disturbing the others) and
//! C31 (the facts of the connection itself: addresses, times, counters, user data).
use crate::c08::{sched_text, schedules, Plan};
use crate::drive::*;
use crate::eng::*;
use crate::gen::*;
use crate::rec::*;
use htp::connection_parser::{HtpStreamState, ParserData};
use std::time::{Duration, SystemTime};

/// Request and response, with the positions where they are cut.
fn exchanges() -> Vec<(Vec<u8>, Vec<usize>, Vec<u8>, Vec<usize>)> {
    let gz = gzip(b"hello, hello, hello");
    let gl = format!("HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: {}\r\n\r\n", gz.len());
    let ql = format!("POST /z HTTP/1.1\r\nHost: h\r\nContent-Encoding: gzip\r\nContent-Length: {}\r\n\r\n", gz.len());
    vec![
        (b"GET /a?x=1 HTTP/1.1\r\nHost: h\r\n\r\n".to_vec(), vec![20], b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nHTTP/".to_vec(), vec![40]),
        (b"POST /b HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\nT: u\r\n\r\n".to_vec(), vec![60], b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n0\r\n\r\n\r\n0\r\nT: v\r\n\r\n".to_vec(), vec![50]),
        (b"HEAD /c HTTP/1.1\r\nHost: h\r\nCookie: a=b\r\n\r\n".to_vec(), vec![30], b"HTTP/1.1 200 OK\r\nContent-Length: 50\r\n\r\n".to_vec(), vec![12]),
        (cat(&[ql.as_bytes(), &gz]), vec![ql.len() + 9], cat(&[gl.as_bytes(), &gz]), vec![gl.len() + 12]),
        (b"PUT /d HTTP/1.1\r\nHost: h\r\nExpect: 100-continue\r\nContent-Length: 4\r\n\r\nbody".to_vec(), vec![71], b"HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 201 Made\r\nContent-Length: 0\r\n\r\n".to_vec(), vec![25]),
        (b"CONNECT p:1 HTTP/1.1\r\nHost: p:1\r\n\r\n".to_vec(), vec![10], b"HTTP/1.1 403 No\r\nContent-Length: 2\r\n\r\nno".to_vec(), vec![38]),
    ]
}

fn head(w: &[u8]) -> usize {
    w.windows(4).position(|x| x == b"\r\n\r\n").unwrap() + 4
}

fn make(ids: &[usize], split: bool) -> Plan {
    let ex = exchanges();
    let mut p = Plan { qs: vec![], ss: vec![], need: vec![], eq: vec![], es: vec![] };
    for &i in ids {
        let (q, qc, s, sc) = &ex[i];
        let mut seen = 0;
        let mut done = None;
        for x in segments(q, if split { qc } else { &[] }) {
            seen += x.len();
            p.qs.push(x.to_vec());
            if done.is_none() && seen >= head(q) {
                done = Some(p.qs.len());
            }
        }
        for x in segments(s, if split { sc } else { &[] }) {
            p.ss.push(x.to_vec());
            p.need.push(done.unwrap());
        }
    }
    p
}

#[derive(PartialEq, Eq, Clone, Debug, Hash)]
struct Step {
    size: usize,
    qi: usize,
    si: usize,
    qst: String,
    sst: String,
    q: u64,
    s: u64,
    flags: u8,
    txs: Vec<Option<TxSnap>>,
    events: usize,
}

/// What happens around the calls.
#[derive(Clone, Debug)]
enum Rm {
    /// transaction k goes so many steps after it became complete (None: it stays)
    Complete(Vec<Option<usize>>),
    /// after this step this transaction goes, whatever its condition
    Any(usize, usize),
    None,
}

struct Run {
    steps: Vec<Step>,
    ev: Vec<Ev>,
    logs: Vec<String>,
    gone: Vec<Option<usize>>,
}

fn go(p: &Plan, sch: &[bool], rm: &Rm, flush: bool, max: Option<u32>) -> Result<Run, String> {
    reset();
    let mut cfg = cfg_default();
    cfg.set_request_decompression(true);
    cfg.set_flush_incomplete(flush);
    if let Some(m) = max {
        cfg.max_tx = m;
    }
    let mut d = Drive::new(P::new(cfg));
    d.p.c.set_user_data(Box::new(String::from("mine")));
    let n = 8;
    let mut since: Vec<Option<usize>> = vec![None; n];
    let mut gone: Vec<Option<usize>> = vec![None; n];
    let mut tagged = vec![false; n];
    let mut steps = vec![];
    let (mut i, mut j) = (0, 0);
    for k in 0..=sch.len() {
        if k == sch.len() {
            d.close();
        } else if sch[k] {
            d.req(&p.qs[i]);
            i += 1;
        } else {
            d.resp(&p.ss[j]);
            j += 1;
        }
        let c = &mut d.p.c;
        // the user's data stays with its transaction
        for x in 0..n {
            if let Some(t) = c.tx_mut(x) {
                if tagged[x] && t.user_data::<usize>() != Some(&(x + 100)) && matches!(rm, Rm::Complete(_) | Rm::None) {
                    return Err(format!("transaction {} has user data {:?} after step {}", x, t.user_data::<usize>(), k));
                }
                if !tagged[x] {
                    if t.user_data::<usize>().is_some() {
                        return Err(format!("transaction {} is born with user data", x));
                    }
                    t.set_user_data(Box::new(x + 100));
                    tagged[x] = true;
                }
            }
        }
        if c.user_data::<String>().map(|s| s.as_str()) != Some("mine") {
            return Err("the connection lost its user data".into());
        }
        steps.push(Step {
            size: c.tx_size(),
            qi: c.request_index(),
            si: c.response_index(),
            qst: format!("{:?}", c.request_status),
            sst: format!("{:?}", c.response_status),
            q: c.conn.request_data_counter,
            s: c.conn.response_data_counter,
            flags: c.conn.flags,
            // one that has not started is not there yet
            txs: (0..n).map(|x| c.tx(x).filter(|t| t.is_started()).map(TxSnap::of)).collect(),
            events: ev_len(),
        });
        for x in 0..n {
            if since[x].is_none() && c.tx(x).is_some_and(|t| t.is_complete()) {
                since[x] = Some(k);
            }
        }
        match rm {
            Rm::None => {}
            Rm::Complete(v) => {
                for (x, dl) in v.iter().enumerate() {
                    if let (Some(dl), Some(at)) = (dl, since[x]) {
                        if gone[x].is_none() && k >= at + dl {
                            if flush {
                                let t: *const htp::transaction::Transaction = c.tx(x).unwrap();
                                // SAFETY: both pointers are valid, and the transaction is not used again
                                unsafe { htp::c_api::transaction::htp_tx_destroy(&mut **c, t) };
                            } else {
                                c.remove_tx(x);
                            }
                            gone[x] = Some(k);
                            if c.tx(x).is_some() {
                                return Err(format!("transaction {} is still there after its removal", x));
                            }
                            // nothing more to remove
                            c.remove_tx(x);
                            c.remove_tx(x + 50);
                        }
                    }
                }
            }
            Rm::Any(at, x) => {
                if *at == k {
                    c.remove_tx(*x);
                    gone[*x] = Some(k);
                }
            }
        }
    }
    transitions(d.p.calls);
    if let Some(m) = &d.bad {
        if !matches!(rm, Rm::Any(..)) {
            return Err(m.clone());
        }
    }
    let ev = take_events();
    outcome(h64(&(&ev, &steps)));
    let logs = d.p.logs();
    Ok(Run { steps, ev, logs, gone })
}

fn compare(base: &Run, r: &Run, ntx: usize) -> Result<(), String> {
    if base.ev != r.ev {
        let i = (0..).find(|&i| base.ev.get(i) != r.ev.get(i)).unwrap();
        return Err(format!("callback {} is {} instead of {}", i, evs(r.ev.get(i)), evs(base.ev.get(i))));
    }
    if base.logs != r.logs {
        return Err(format!("logs {:?} instead of {:?}", r.logs, base.logs));
    }
    for (k, (a, b)) in base.steps.iter().zip(&r.steps).enumerate() {
        let strip = |s: &Step| Step { txs: vec![], ..s.clone() };
        if strip(a) != strip(b) {
            return Err(format!("after step {}: {:?} instead of {:?}", k, strip(b), strip(a)));
        }
        for x in 0..ntx {
            if r.gone[x].is_some_and(|g| g < k) {
                if b.txs[x].is_some() {
                    return Err(format!("transaction {} is back at step {}", x, k));
                }
            } else if a.txs[x] != b.txs[x] {
                return Err(format!("transaction {} differs at step {}", x, k));
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule("dialogues of two and three exchanges out of six kinds (lengths, chunks and trailers, HEAD, gzip both ways, Expect, refused CONNECT), cut into segments, under every interleaving and every stop; each transaction is removed 0, 1 or 2 steps after it is complete, or not: callbacks, logs, states, counters and the remaining transactions are those of the run without removal, step by step; then the removal of any transaction at any step. Non-trivial: something is removed before the end.");
    let mut jobs: Vec<(Vec<usize>, bool)> = vec![];
    for a in 0..6 {
        for b in 0..6 {
            jobs.push((vec![a, b], true));
            for c in 0..6 {
                jobs.push((vec![a, b, c], false));
                if !ctx.quick() || (a + 2 * b + c) % 6 == 0 {
                    jobs.push((vec![a, b, c, (a + b) % 6], false));
                }
                if !ctx.quick() && (a + b + c) % 3 == 0 {
                    jobs.push((vec![a, b, c], true));
                }
            }
        }
    }
    ctx.note("dialogues", jobs.len());
    ctx.par(jobs.len(), |i| format!("{:?}", jobs[i]), |i| {
        let (ids, split) = &jobs[i];
        let p = make(ids, *split);
        let n = ids.len();
        if i % 60 == 3 {
            ctx.sample(format!("{} // {}", show(&p.qs.concat()), show(&p.ss.concat())));
        }
        let report = |m: String, sch: &[bool], rm: &Rm| {
            ctx.violation(format!("{:?}:{}", ids, m.split(':').next().unwrap_or("").chars().take(40).collect::<String>()), format!("{} with {:?}: {}", m, rm, sched_text(&p, sch)), format!("{:?} {}", rm, sched_text(&p, sch)))
        };
        schedules(p.qs.len(), &p.need, &[], &mut |full| {
            // whole schedules, and for two exchanges every stop
            let stops: Vec<usize> = if n == 2 { (1..=full.len()).collect() } else { vec![full.len()] };
            for stop in stops {
                // a stop is explored with the first schedule that has this prefix
                if stop < full.len() && full[stop..].iter().zip(&full[stop + 1..]).any(|(a, b)| !*a && *b) {
                    continue;
                }
                let sch = &full[..stop];
                for flush in [false, true] {
                    let base = match guarded(|| go(&p, sch, &Rm::None, flush, None)) {
                        Ok(Ok(b)) => b,
                        Ok(Err(m)) | Err(m) => {
                            report(m, sch, &Rm::None);
                            continue;
                        }
                    };
                    let opts = [None, Some(0), Some(1), Some(2)];
                    for m in 1..4usize.pow(n as u32) {
                        let v: Vec<Option<usize>> = (0..n).map(|k| opts[m / 4usize.pow(k as u32) % 4]).collect();
                        let rm = Rm::Complete(v);
                        begin(&[sched_text(&p, sch).as_bytes(), format!("{:?}{}", rm, flush).as_bytes()]);
                        match guarded(|| go(&p, sch, &rm, flush, None)) {
                            Ok(Ok(r)) => {
                                if r.gone.iter().flatten().any(|g| *g < sch.len()) {
                                    nontrivial();
                                }
                                if let Err(m) = compare(&base, &r, n) {
                                    report(m, sch, &rm);
                                }
                            }
                            Ok(Err(m)) => report(m, sch, &rm),
                            Err(m) => report(format!("panic {}", m), sch, &rm),
                        }
                    }
                    if n == 2 && flush {
                        continue;
                    }
                    for at in 0..sch.len() {
                        for x in 0..n + 1 {
                            let rm = Rm::Any(at, x);
                            begin(&[sched_text(&p, sch).as_bytes(), format!("{:?}{}", rm, flush).as_bytes()]);
                            match guarded(|| go(&p, sch, &rm, flush, None)) {
                                Ok(Ok(r)) => {
                                    nontrivial();
                                    // what was complete by then stays as it was
                                    for y in 0..n {
                                        let s = &base.steps[at].txs[y];
                                        let done = base.ev[..base.steps[at].events].iter().any(|e| e.h == H::TX_COMPLETE && e.tx == y);
                                        if y != x && done && r.steps[at..].iter().any(|k| &k.txs[y] != s) {
                                            report(format!("complete transaction {} changes when {} is removed", y, x), sch, &rm);
                                        }
                                    }
                                    if base.ev[..base.steps[at].events] != r.ev[..base.steps[at].events] {
                                        report("earlier callbacks differ".into(), sch, &rm);
                                    }
                                }
                                Ok(Err(m)) => report(m, sch, &rm),
                                Err(m) => report(format!("panic {}", m), sch, &rm),
                            }
                        }
                    }
                }
            }
        });
    });
    // a long connection under a limit: what has been removed does not count
    ctx.par(6 * 4, |i| format!("long {}", i), |i| {
        let (a, max) = (i / 4, (i % 4) as u32 + 1);
        let ids: Vec<usize> = (0..8).map(|k| (a + k) % 6).collect();
        let ids8 = &ids[..8];
        let p = make(ids8, true);
        // requests in groups of max, then their responses
        let mut sch = vec![];
        let (mut q, mut s) = (0, 0);
        for g in ids8.chunks(max as usize) {
            for _ in 0..g.len() * 2 {
                sch.push(true);
                q += 1;
            }
            for _ in 0..g.len() * 2 {
                sch.push(false);
                s += 1;
            }
        }
        assert!(q == p.qs.len() && s == p.ss.len());
        let rm = Rm::Complete(vec![Some(0); 8]);
        begin(&[sched_text(&p, &sch).as_bytes(), &[max as u8]]);
        nontrivial();
        let r = guarded(|| -> Result<(), String> {
            let base = go(&p, &sch, &Rm::None, false, None)?;
            let r = go(&p, &sch, &rm, false, Some(max + 1))?;
            compare(&base, &r, 8)?;
            if r.gone.iter().any(|g| g.is_none()) {
                return Err("not every transaction became complete".into());
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) | Err(m) => ctx.violation(format!("long:{}:{}", a, max), format!("{} (at most {} transactions kept)", m, max + 1), sched_text(&p, &sch)),
        }
    });
}

// ---------------------------------------------------------------- C31

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// address variant, timestamp
    Open(u8, u8),
    Req(u8, u8),
    Resp(u8, u8),
    ReqClose(u8),
    Close(u8),
    Data(u8),
    Logs,
}

fn ts(k: u8) -> Option<SystemTime> {
    (k > 0).then(|| SystemTime::UNIX_EPOCH + Duration::new(1_000_000 * k as u64, 1000 * k as u32))
}

type Addr = (Option<std::net::IpAddr>, Option<u16>, Option<std::net::IpAddr>, Option<u16>);
fn addrs(k: u8) -> Addr {
    match k {
        0 => (None, None, None, None),
        1 => (Some("10.1.2.3".parse().unwrap()), Some(32768), Some("::1".parse().unwrap()), Some(80)),
        2 => (Some("fe80::2".parse().unwrap()), Some(65535), Some("192.168.0.9".parse().unwrap()), Some(0)),
        _ => (None, Some(1), Some("9.9.9.9".parse().unwrap()), None),
    }
}

/// The pieces a direction may be given: complete message, part of one, garbage that fails the
/// stream, a gap, nothing.
fn piece(req: bool, k: u8) -> (Vec<u8>, usize) {
    let v: &[u8] = match (req, k) {
        (true, 0) => b"GET / HTTP/1.1\r\nHost: h\r\n\r\n",
        (true, 1) => b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 40\r\n\r\nab",
        (true, 2) => b"GET / HTTP/1.1\r\nTransfer-Encoding: x\r\n\r\n",
        (true, 5) => b"CONNECT h:1 HTTP/1.1\r\nHost: h:1\r\n\r\n",
        (true, 6) => b"\x16\x03\x01zz",
        (false, 0) => b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok",
        (false, 1) => b"HTTP/1.1 200 OK\r\nContent-Length: 40\r\n\r\nab",
        (false, 2) => b"HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n",
        (false, 5) => b"HTTP/1.1 200 OK\r\n\r\n",
        (false, 6) => b"\x16\x03\x01zz",
        (_, 4) => b"",
        _ => return (vec![], 7),
    };
    (v.to_vec(), 0)
}

fn facts(seq: &[Op]) -> Result<bool, String> {
    reset();
    let mut p = P::new_unopened(cfg_default());
    let mut a: Addr = (None, None, None, None);
    let (mut open_t, mut close_t, mut q_t, mut s_t) = (None, None, None, None);
    let (mut qn, mut sn) = (0u64, 0u64);
    let mut user: Option<u8> = None;
    let mut second = 0;
    let mut seen = 0;
    let c = &mut p.c;
    let mut trivial = true;
    for (k, op) in seq.iter().enumerate() {
        let (q0, s0) = (c.request_status, c.response_status);
        let dead = |s: HtpStreamState| matches!(s, HtpStreamState::STOP | HtpStreamState::ERROR);
        match *op {
            Op::Open(v, t) => {
                let w = addrs(v);
                c.open(w.0, w.1, w.2, w.3, ts(t).map(|t| t.into()));
                if q0 == HtpStreamState::NEW && s0 == HtpStreamState::NEW {
                    a = w;
                    if t > 0 {
                        open_t = ts(t);
                    }
                    if c.request_status != HtpStreamState::OPEN || c.response_status != HtpStreamState::OPEN {
                        return Err(format!("step {}: not open", k));
                    }
                } else {
                    second += 1;
                    trivial = false;
                    if (c.request_status, c.response_status) != (q0, s0) {
                        return Err(format!("step {}: opening again changes the state", k));
                    }
                }
            }
            Op::Req(v, t) | Op::Resp(v, t) => {
                let rq = matches!(op, Op::Req(..));
                let (b, gap) = piece(rq, v);
                let d = if gap > 0 { ParserData::from(gap) } else { ParserData::from(&b[..]) };
                let st = if rq { c.request_data(d, ts(t).map(|t| t.into())) } else { c.response_data(d, ts(t).map(|t| t.into())) };
                let s = if rq { q0 } else { s0 };
                if dead(s) {
                    trivial = false;
                    if st != s {
                        return Err(format!("step {}: a dead direction answers {:?}", k, st));
                    }
                    continue;
                }
                let len = b.len() + gap;
                if len == 0 && s != HtpStreamState::CLOSED {
                    if st != HtpStreamState::CLOSED {
                        return Err(format!("step {}: an empty call answers {:?}", k, st));
                    }
                    continue;
                }
                let (n, tt) = if rq { (&mut qn, &mut q_t) } else { (&mut sn, &mut s_t) };
                *n += len as u64;
                if t > 0 {
                    *tt = ts(t);
                }
            }
            Op::ReqClose(t) | Op::Close(t) => {
                let both = matches!(op, Op::Close(_));
                if both {
                    c.close(ts(t).map(|t| t.into()));
                    if t > 0 {
                        close_t = ts(t);
                    }
                } else {
                    c.request_close(ts(t).map(|t| t.into()));
                }
                if t > 0 {
                    if q0 != HtpStreamState::ERROR {
                        q_t = ts(t);
                    }
                    if both && s0 != HtpStreamState::ERROR {
                        s_t = ts(t);
                    }
                }
            }
            Op::Data(v) => {
                c.set_user_data(Box::new(v));
                user = Some(v);
            }
            Op::Logs => {
                while let Some(l) = c.conn.get_next_log() {
                    if (l.client_addr, l.client_port, l.server_addr, l.server_port) != a {
                        return Err(format!("step {}: a log record names other addresses", k));
                    }
                    if l.msg.code == htp::log::HtpLogCode::CONNECTION_ALREADY_OPEN {
                        seen += 1;
                    }
                }
            }
        }
        let n = &c.conn;
        if (n.client_addr, n.client_port, n.server_addr, n.server_port) != a {
            return Err(format!("step {}: addresses are {:?}", k, (n.client_addr, n.client_port, n.server_addr, n.server_port)));
        }
        for (what, got, want) in [("open", n.open_timestamp, open_t), ("close", n.close_timestamp, close_t), ("request", c.request_timestamp, q_t), ("response", c.response_timestamp, s_t)] {
            if let Some(w) = want {
                if SystemTime::from(got) != w {
                    return Err(format!("step {}: the {} time is {:?} instead of {:?}", k, what, SystemTime::from(got), w));
                }
            }
        }
        if (n.request_data_counter, n.response_data_counter) != (qn, sn) {
            return Err(format!("step {}: counters are {}/{} instead of {}/{}", k, n.request_data_counter, n.response_data_counter, qn, sn));
        }
        if c.user_data::<u8>().copied() != user || c.user_data::<u16>().is_some() || c.user_data_mut::<u8>().map(|x| *x) != user {
            return Err(format!("step {}: user data is {:?}", k, c.user_data::<u8>()));
        }
    }
    transitions(seq.len() as u64);
    for l in c.conn.get_logs() {
        if (l.client_addr, l.client_port, l.server_addr, l.server_port) != a {
            return Err("a log record names other addresses".into());
        }
        if l.msg.code == htp::log::HtpLogCode::CONNECTION_ALREADY_OPEN {
            seen += 1;
        }
    }
    if c.conn.get_next_log().is_some() {
        return Err("log records come twice".into());
    }
    if seen != second {
        return Err(format!("{} log records about {} opened again", seen, second));
    }
    outcome(h64(&(qn, sn, format!("{:?}{:?}", c.request_status, c.response_status), second)));
    Ok(!trivial)
}

pub fn run_facts(ctx: &mut Ctx) {
    ctx.rule("every sequence of operations (open with four sets of addresses, with and without a time; request and response data: complete, partial, failing, gap, empty, tunnelled, each with and without a time; closing one or both directions; setting user data; draining the logs) up to the bound: addresses, times, byte counters, user data and the addresses in log records after every step are those of a model of eight variables. Non-trivial: a refused opening or a call on a dead direction.");
    let mut ops = vec![];
    for v in 0..4 {
        ops.push(Op::Open(v, v * 2));
    }
    ops.push(Op::Open(1, 9));
    for v in 0..7 {
        ops.push(Op::Req(v, 3));
        ops.push(Op::Resp(v, 4));
    }
    for v in [0, 3, 4] {
        ops.push(Op::Req(v, 0));
        ops.push(Op::Resp(v, 0));
    }
    ops.extend([Op::Req(1, 5), Op::Resp(1, 6), Op::ReqClose(0), Op::ReqClose(7), Op::Close(0), Op::Close(8), Op::Data(1), Op::Data(2), Op::Logs]);
    let n = ops.len();
    let deep = ctx.pick(4, 5);
    ctx.note("operations", n);
    ctx.par(n * n, |i| format!("{:?} {:?}", ops[i % n], ops[i / n]), |i| {
        let mut seq = vec![ops[i % n], ops[i / n]];
        if i % 211 == 0 {
            ctx.sample(format!("{:?}", seq));
        }
        fn rec(ops: &[Op], left: usize, seq: &mut Vec<Op>, f: &dyn Fn(&[Op])) {
            f(seq);
            if left > 0 {
                for &o in ops {
                    seq.push(o);
                    rec(ops, left - 1, seq, f);
                    seq.pop();
                }
            }
        }
        rec(&ops, deep - 2, &mut seq, &|s| {
            begin(&[format!("{:?}", s).as_bytes()]);
            match guarded(|| facts(s)) {
                Ok(Ok(true)) => nontrivial(),
                Ok(Ok(false)) => {}
                Ok(Err(m)) => ctx.violation(format!("facts:{}", m.split(':').nth(1).unwrap_or(&m)), format!("{} in {:?}", m, s), format!("{:?}", s)),
                Err(m) => ctx.violation("facts:panic", format!("panic {} in {:?}", m, s), format!("{:?}", s)),
            }
        });
    });
    // two connections are the same exactly when their ends are
    let ips: [Option<std::net::IpAddr>; 3] = [None, "1.2.3.4".parse().ok(), "::1".parse().ok()];
    let pts: [Option<u16>; 3] = [None, Some(1), Some(80)];
    let ends: Vec<Addr> = (0..81).map(|i| (ips[i % 3], pts[i / 3 % 3], ips[i / 9 % 3], pts[i / 27])).collect();
    ctx.par(81, |i| format!("{:?}", ends[i]), |i| {
        let open = |e: &Addr, used: bool| {
            let mut p = P::new_unopened(cfg_default());
            p.c.open(e.0, e.1, e.2, e.3, None);
            if used {
                p.req(b"GET / HTTP/1.1\r\n\r\n");
            }
            p
        };
        for e in &ends {
            begin(&[format!("{:?} {:?}", ends[i], e).as_bytes()]);
            nontrivial();
            let r = guarded(|| {
                reset();
                let (x, y) = (open(&ends[i], true), open(e, false));
                transitions(2);
                (x.c.conn == y.c.conn) == (&ends[i] == e)
            });
            if r != Ok(true) {
                ctx.violation("facts:equality", format!("comparing {:?} with {:?}: {:?}", ends[i], e, r), format!("{:?}", ends[i]));
            }
        }
    });
}
