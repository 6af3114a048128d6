//! C01/C02: segmentation invariance of the request and response streams.
use crate::eng::*;
use crate::gen::*;
use crate::rec::*;
use htp::connection_parser::HtpStreamState;

fn run(req: &[u8], rc: &[usize], resp: &[u8], sc: &[usize], auto: bool) -> Obs {
    reset();
    let mut cfg = cfg_default();
    cfg.tx_auto_destroy = auto;
    REC.with(|r| r.borrow_mut().snap = auto);
    let mut p = P::new(cfg);
    for s in segments(req, rc) {
        p.req(s);
    }
    for s in segments(resp, sc) {
        p.resp(s);
    }
    p.close();
    transitions(p.calls);
    let o = p.obs();
    o
}

fn explore(ctx: &Ctx, name: &str, streams: &[(Vec<u8>, Vec<u8>)], req_side: bool, k: usize, w: usize) {
    ctx.par(
        streams.len(),
        |i| format!("{} stream {} / {}", name, show(&streams[i].0), show(&streams[i].1)),
        |i| {
            let (rq, rs) = &streams[i];
            begin(&[rq, rs]);
            let base = match guarded(|| run(rq, &[], rs, &[], false)) {
                Ok(b) => b,
                Err(m) => {
                    ctx.violation(format!("panic:{}", m), m, format!("{} / {}", show(rq), show(rs)));
                    return;
                }
            };
            outcome(h64(&base));
            if base.req_status == "ERROR" || base.resp_status == "ERROR" {
                ctx.note("error_stream", show(if req_side { rq } else { rs }));
            }
            if i % 97 == 0 {
                ctx.sample(format!("{}: {} | {}", name, show(rq), show(rs)));
            }
            let s = if req_side { rq } else { rs };
            let check = |c: &[usize]| {
                if c.is_empty() || ctx.sh.stop.load(std::sync::atomic::Ordering::Relaxed) {
                    return;
                }
                begin(&[rq, rs, format!("{:?}", c).as_bytes()]);
                nontrivial();
                let o = if req_side {
                    guarded(|| run(rq, c, rs, &[], false))
                } else {
                    guarded(|| run(rq, &[], rs, c, false))
                };
                match o {
                    Ok(o) if o == base => {}
                    Ok(o) => ctx.violation(
                        format!("seg:{}", show(s)),
                        format!("segmentation {:?} of [{}] differs from unsegmented: {}", c, show(s), diff(&o, &base)),
                        format!("{} request=[{}] response=[{}] cuts={:?}", name, show(rq), show(rs), c),
                    ),
                    Err(m) => ctx.violation(format!("panic:{}", m), m, format!("[{}] cuts={:?}", show(s), c)),
                }
            };
            cuts(s.len(), k, &check);
            windows(s.len(), w, &check);
            let all: Vec<usize> = (1..s.len()).collect();
            check(&all);
        },
    );
}

pub fn run_req(ctx: &mut Ctx) {
    ctx.rule("request streams of a grammar (request line x header block x body framing), alone and pipelined in pairs; every segmentation with <=k cuts, every segmentation inside every window, and byte-at-a-time; oracle: all observables equal to the unsegmented run. Non-trivial: at least one cut.");
    let reqs = requests();
    let one: Vec<_> = reqs.iter().map(|r| (r.clone(), b"".to_vec())).collect();
    explore(ctx, "single", &one, true, ctx.pick(2, 3), ctx.pick(5, 10));
    let more = requests_more();
    let list: Vec<_> = more.iter().map(|r| (r.clone(), b"".to_vec())).collect();
    explore(ctx, "more", &list, true, ctx.pick(2, 3), ctx.pick(5, 10));
    let nx = b"POST /next HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nend";
    let list: Vec<_> = more.iter().map(|r| (cat(&[r, nx]), b"".to_vec())).collect();
    explore(ctx, "more-next", &list, true, ctx.pick(1, 2), ctx.pick(4, 8));
    let mut two = vec![];
    for a in &reqs {
        for b in reqs.iter().step_by(ctx.pick(7, 1)) {
            two.push((cat(&[a, b]), b"".to_vec()));
        }
    }
    explore(ctx, "pair", &two, true, 1, ctx.pick(4, 8));
    let _ = HtpStreamState::DATA;
}

pub fn run_resp(ctx: &mut Ctx) {
    ctx.rule("response streams of a grammar; every segmentation with <=k cuts, in windows, byte-at-a-time; oracle: equal to unsegmented run.");
    let resps = responses();
    let rq = b"GET / HTTP/1.1\r\nHost: a\r\n\r\n".to_vec();
    let one: Vec<_> = resps.iter().map(|r| (rq.clone(), r.clone())).collect();
    explore(ctx, "single", &one, false, ctx.pick(2, 3), ctx.pick(5, 10));
    let more = responses_more();
    let hq = b"HEAD / HTTP/1.1\r\nHost: a\r\n\r\n".to_vec();
    let list: Vec<_> = more.iter().map(|r| (if r.0 { hq.clone() } else { rq.clone() }, r.1.clone())).collect();
    explore(ctx, "more", &list, false, ctx.pick(2, 3), ctx.pick(5, 10));
    let nx = b"HTTP/1.1 200 OK\r\nServer: s\r\nContent-Length: 3\r\n\r\nend";
    let list: Vec<_> = more.iter().map(|r| (cat(&[if r.0 { &hq } else { &rq }, &rq]), cat(&[&r.1, nx]))).collect();
    explore(ctx, "more-next", &list, false, ctx.pick(1, 2), ctx.pick(4, 8));
    let mut two = vec![];
    for a in &resps {
        for b in resps.iter().step_by(ctx.pick(7, 1)) {
            two.push((cat(&[&rq, &rq]), cat(&[a, b])));
        }
    }
    explore(ctx, "pair", &two, false, 1, ctx.pick(4, 8));
}
