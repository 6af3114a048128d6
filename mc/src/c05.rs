//! C05: callback protocol. A monitor automaton runs over the event stream of every history.
use crate::eng::*;
use crate::hist::*;
use crate::rec::*;
use std::collections::BTreeMap;
use H::*;

/// Rank of a request callback in the documented order.
fn qrank(h: H) -> Option<u8> {
    Some(match h {
        REQ_START => 0,
        REQ_URI_NORMALIZE => 1,
        REQ_LINE => 2,
        REQ_HEADER_DATA => 3,
        REQ_HEADERS => 4,
        REQ_BODY_DATA => 5,
        REQ_TRAILER_DATA => 6,
        REQ_TRAILER => 7,
        REQ_COMPLETE => 8,
        _ => return None,
    })
}
fn srank(h: H) -> Option<u8> {
    Some(match h {
        RESP_START => 0,
        RESP_LINE => 1,
        RESP_HEADER_DATA => 2,
        RESP_HEADERS => 3,
        RESP_BODY_DATA => 4,
        RESP_TRAILER_DATA => 5,
        RESP_TRAILER => 6,
        RESP_COMPLETE => 7,
        _ => return None,
    })
}

#[derive(Default, Clone)]
struct T {
    q: Option<H>,
    s: Option<H>,
    seen: Vec<(H, u32)>,
    done: bool,
    rp: u8,
    sp: u8,
}
impl T {
    fn n(&self, h: H) -> u32 {
        self.seen.iter().find(|x| x.0 == h).map(|x| x.1).unwrap_or(0)
    }
    fn inc(&mut self, h: H) {
        if let Some(x) = self.seen.iter_mut().find(|x| x.0 == h) {
            x.1 += 1;
        } else {
            self.seen.push((h, 1));
        }
    }
}

/// Returns a description of the first breach of the callback protocol.
pub fn monitor(ev: &[Ev], closed_from: usize, flush: bool) -> Option<String> {
    let mut txs: BTreeMap<usize, T> = BTreeMap::new();
    let mut qstart = 0usize;
    let mut sstart = 0usize;
    let mut qcur: Option<usize> = None;
    let mut scur: Option<usize> = None;
    for (i, e) in ev.iter().enumerate() {
        let t = txs.entry(e.tx).or_default();
        let bad = |m: &str| Some(format!("{} at callback {} {}", m, i, evs(Some(e))));
        let closing = i >= closed_from;
        if t.done {
            return bad("callback on a transaction already reported complete");
        }
        if e.rp < t.rp {
            return bad("request progress went backwards");
        }
        // (an interim 100 response takes the response back to its status line)
        if e.sp < t.sp && t.n(RESP_HEADERS) > 0 {
            return bad("response progress went backwards");
        }
        t.rp = e.rp;
        t.sp = e.sp;
        // the transaction is at the stage the callback reports
        let stage: &[u8] = match e.h {
            REQ_START | REQ_URI_NORMALIZE | REQ_LINE => &[1],
            REQ_HEADER_DATA if closing => &[2, 4],
            REQ_HEADER_DATA | REQ_HEADERS => &[2],
            // (3: 2 and 4 for bytes behind the message)
            REQ_BODY_DATA => &[2, 3, 4],
            REQ_TRAILER_DATA | REQ_TRAILER => &[4],
            REQ_COMPLETE | RESP_COMPLETE => &[5],
            // (a response to a 0.9 request is only a body)
            RESP_START => &[1, 3],
            RESP_LINE => &[1],
            RESP_HEADER_DATA | RESP_HEADERS => &[2, 3],
            RESP_BODY_DATA => &[1, 2, 3, 4],
            RESP_TRAILER_DATA | RESP_TRAILER if !closing => &[4],
            _ => &[],
        };
        if !stage.is_empty() && !stage.contains(if qrank(e.h).is_some() { &e.rp } else { &e.sp }) {
            return bad("progress is not that of the callback");
        }
        if let Some(r) = qrank(e.h) {
            if e.h == REQ_START {
                if t.n(REQ_START) > 0 {
                    return bad("request_start twice");
                }
                if e.tx < qstart {
                    return bad("request_start out of order");
                }
                qstart = e.tx + 1;
                qcur = Some(e.tx);
            } else {
                if t.n(REQ_START) == 0 {
                    return bad("request callback before request_start");
                }
                if qcur != Some(e.tx) {
                    return bad("request callback on a transaction that is not the current request");
                }
            }
            if t.n(REQ_COMPLETE) > 0 {
                return bad("request callback after request_complete");
            }
            if let Some(p) = t.q {
                let pr = qrank(p).unwrap();
                let back = r < pr || (r == pr && !e.h.is_data());
                // bytes behind the message are delivered as (unexpected) body data
                let ok = e.h == REQ_BODY_DATA && (p == REQ_TRAILER || p == REQ_TRAILER_DATA);
                if back && !ok {
                    return bad(&format!("{:?} after {:?}", e.h, p));
                }
            }
            match e.h {
                REQ_LINE if t.n(REQ_URI_NORMALIZE) != 1 => return bad("request_line without uri_normalize"),
                REQ_HEADERS if t.n(REQ_LINE) != 1 => return bad("request_headers without request_line"),
                REQ_TRAILER if t.n(REQ_HEADERS) != 1 && !closing => return bad("request_trailer without request_headers"),
                _ => {}
            }
            t.q = Some(e.h);
        } else if let Some(r) = srank(e.h) {
            if e.h == RESP_START {
                if t.n(RESP_START) > 0 {
                    return bad("response_start twice");
                }
                if e.tx < sstart {
                    return bad("response_start out of order");
                }
                sstart = e.tx + 1;
                scur = Some(e.tx);
                let t = txs.get_mut(&e.tx).unwrap();
                t.s = Some(e.h);
                t.inc(e.h);
                continue;
            } else {
                if t.n(RESP_START) == 0 {
                    return bad("response callback before response_start");
                }
                if scur != Some(e.tx) {
                    return bad("response callback on a transaction that is not the current response");
                }
            }
            if t.n(RESP_COMPLETE) > 0 {
                return bad("response callback after response_complete");
            }
            if let Some(p) = t.s {
                let pr = srank(p).unwrap();
                let back = r < pr || (r == pr && !e.h.is_data());
                let ok = (e.h == RESP_BODY_DATA && (p == RESP_TRAILER || p == RESP_TRAILER_DATA))
                    // an interim 100 response: status line and headers start over
                    || (matches!(e.h, RESP_LINE) && matches!(p, RESP_LINE | RESP_HEADER_DATA))
                    // junk in front of the status line is delivered as body data
                    || (t.n(RESP_HEADERS) == 0 && p == RESP_BODY_DATA && matches!(e.h, RESP_LINE));
                if back && !ok {
                    return bad(&format!("{:?} after {:?}", e.h, p));
                }
            }
            match e.h {
                RESP_HEADERS if t.n(RESP_LINE) == 0 => return bad("response_headers without response_line"),
                _ => {}
            }
            t.s = Some(e.h);
        } else {
            // TX_COMPLETE
            if !flush && (t.n(REQ_COMPLETE) == 0 || t.n(RESP_COMPLETE) == 0) && !(t.n(REQ_START) == 0 && t.n(RESP_COMPLETE) == 1) {
                return bad("transaction_complete before both sides are complete");
            }
            t.done = true;
        }
        t.inc(e.h);
    }
    for (i, t) in &txs {
        if t.n(REQ_COMPLETE) == 1 && t.n(RESP_COMPLETE) == 1 && !t.done {
            return Some(format!("transaction {}: both sides complete but transaction_complete never ran", i));
        }
    }
    None
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule("(a) every sequence of <=d API actions under 5 configurations, monitor automaton over all callbacks; (b) every conversation of the specification grammar in the segmentations of the bound: the exact callback sequence computed from the specification. Non-trivial: at least two actions / a body.");
    let acts: Vec<A> = alphabet().into_iter().filter(|a| *a != A::Close).collect();
    all_sequences(ctx, &acts, ctx.pick(4, 5), &configs(), |cfg, seq| {
        // request_close is the last call on the request side
        if let Some(i) = seq.iter().position(|a| *a == A::QClose) {
            if seq[i + 1..].iter().any(|a| matches!(a, A::Q(_) | A::QG(_) | A::QClose)) {
                return;
            }
        }
        begin(&[cfg.name.as_bytes(), text(seq).as_bytes()]);
        nontrivial();
        let r = guarded(|| {
            reset();
            let c = build(cfg);
            let mut cf = usize::MAX;
            let flush = c.flush_incomplete;
            let mut p = P::new(c);
            for a in seq {
                if *a == A::QClose {
                    cf = cf.min(ev_len());
                }
                apply(&mut p, *a);
            }
            let cf = ev_len().min(cf);
            p.close();
            transitions(p.calls);
            let ev = take_events();
            outcome(h64(&ev));
            monitor(&ev, cf, flush)
        });
        match r {
            Ok(None) => {}
            Ok(Some(m)) => {
                let key: String = m.split(" at callback").next().unwrap().to_string();
                ctx.violation(key.clone(), format!("{}: {}", m, text(seq)), format!("cfg={} {}", cfg.name, text(seq)))
            }
            Err(m) => ctx.violation("panic", m, text(seq)),
        }
    });
    let list = crate::c07::conversations(!ctx.quick());
    let (k, w) = (1, ctx.pick(1, 5));
    ctx.note("conversations", list.len());
    ctx.par(list.len(), |i| list[i].0.clone(), |i| {
        let (n, q, s) = &list[i];
        crate::c07::conv(ctx, n, q, s, k, w, true);
    });
}
