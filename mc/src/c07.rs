//! C07 (bodies and framing) and the model half of C05 (exact callbacks): every message of the
//! specification grammar, in every segmentation of the bound, against the reference model.
use crate::eng::*;
use crate::gen::*;
use crate::model::*;
use crate::rec::*;

pub fn conv(ctx: &Ctx, name: &str, qs: &[Req], ss: &[Resp], k: usize, w: usize, only_events: bool) {
    let mut rq = vec![];
    let mut rs = vec![];
    let mut eq = vec![];
    let mut es = vec![];
    for q in qs {
        let (b, e) = q.build();
        rq.extend_from_slice(&b);
        eq.push(e);
    }
    for s in ss {
        let (b, e) = s.build();
        rs.extend_from_slice(&b);
        es.push(e);
    }
    let go = |qc: &[usize], sc: &[usize]| {
        begin(&[&rq, &rs, format!("{:?}{:?}", qc, sc).as_bytes()]);
        if eq.iter().any(|e| !e.body.is_empty()) || es.iter().any(|e| !e.body.is_empty()) {
            nontrivial();
        }
        let r = guarded(|| -> Result<(), String> {
            reset();
            let mut p = P::new(cfg_default());
            for c in segments(&rq, qc) {
                p.req(c);
            }
            for c in segments(&rs, sc) {
                p.resp(c);
            }
            p.close();
            transitions(p.calls);
            let ev = take_events();
            let txs = p.txs();
            outcome(h64(&(&ev, &txs)));
            if txs.len() != qs.len() {
                return Err(format!("{} transactions instead of {}", txs.len(), qs.len()));
            }
            for i in 0..qs.len() {
                let t = txs[i].as_ref().ok_or("missing transaction")?;
                if !only_events {
                    check_req(t, &qs[i], &eq[i]).map_err(|m| format!("transaction {} {}", i, m))?;
                    check_resp(t, &ss[i], &es[i]).map_err(|m| format!("transaction {} {}", i, m))?;
                }
                check_events(&ev, i, &eq[i], Some(&es[i]))?;
            }
            Ok(())
        });
        let m = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(m) => format!("panic {}", m),
        };
        ctx.violation(
            format!("{}:{}:{}", name, show(&rq), show(&rs)),
            format!("{} (request cuts {:?}, response cuts {:?}) req=[{}] resp=[{}]", m, qc, sc, show(&rq), show(&rs)),
            format!("req=[{}] resp=[{}] cuts {:?} {:?}", show(&rq), show(&rs), qc, sc),
        );
    };
    go(&[], &[]);
    cuts(rq.len(), k, |c| go(c, &[]));
    cuts(rs.len(), k, |c| go(&[], c));
    windows(rq.len(), w, |c| go(c, &[]));
    windows(rs.len(), w, |c| go(&[], c));
    let a: Vec<usize> = (1..rq.len()).collect();
    let b: Vec<usize> = (1..rs.len()).collect();
    go(&a, &b);
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule("request and response specifications (method x framing x body bytes x line ending; status x framing x interim responses x HEAD) are written out, parsed in every segmentation of the bound, and every field, length and callback is compared with the specification. Non-trivial: a body is present.");
    let list = conversations(!ctx.quick());
    ctx.note("conversations", list.len());
    let (k, w) = (ctx.pick(1, 2), ctx.pick(3, 6));
    ctx.par(list.len(), |i| list[i].0.clone(), |i| {
        let (n, q, s) = &list[i];
        if i % 60 == 0 {
            ctx.sample(format!("{} [{}] / [{}]", n, show(&q[0].build().0), show(&s[0].build().0)));
        }
        conv(ctx, n, q, s, k, w, false);
    });
}

pub type Conv = (String, Vec<Req>, Vec<Resp>);
/// The conversations of the specification grammar.
pub fn conversations(th: bool) -> Vec<Conv> {
    let mut list: Vec<(String, Vec<Req>, Vec<Resp>)> = vec![];
    let ok = || resp(200, "OK", Fr::Cl(b"ok".to_vec()));
    // The parser accepts LF CR as a line ending in responses: a body that starts with CR behind
    // a bare LF is ambiguous and not part of the grammar.
    let ambiguous = |eol: &str, fr: &Fr| eol == "\n" && matches!(fr, Fr::Cl(b) | Fr::Close(b) if b.first() == Some(&b'\r'));
    for (eol, hd) in [("\r\n", true), ("\n", true), ("\r\n", false), ("\n", false)] {
        for fr in framings(false, th) {
            for m in ["POST", "PUT", "GET", "DELETE"] {
                let mut q = req(m, "/p", fr.clone());
                q.eol = eol;
                if !hd {
                    q.hdrs.clear();
                    q.ver = "HTTP/1.0";
                }
                list.push((format!("req {} ", m), vec![q.clone()], vec![ok()]));
                if m == "POST" {
                    list.push(("req pair".into(), vec![q.clone(), req("GET", "/2", Fr::None)], vec![ok(), ok()]));
                    list.push(("req pair".into(), vec![q.clone(), q.clone()], vec![ok(), ok()]));
                }
            }
        }
        for fr in framings(true, th) {
            if ambiguous(eol, &fr) {
                continue;
            }
            for st in [200u16, 404, 500] {
                let mut s = resp(st, "Some Reason", fr.clone());
                s.eol = eol;
                if !hd {
                    s.hdrs.clear();
                }
                list.push(("resp".into(), vec![req("GET", "/", Fr::None)], vec![s.clone()]));
                if st == 200 && !matches!(fr, Fr::Close(_)) {
                    list.push(("resp pair".into(), vec![req("GET", "/", Fr::None), req("GET", "/2", Fr::None)], vec![s.clone(), ok()]));
                    list.push(("resp pair".into(), vec![req("GET", "/", Fr::None), req("GET", "/2", Fr::None)], vec![s.clone(), s.clone()]));
                }
                if st == 200 {
                    s.interim = vec![vec![]];
                    list.push(("interim".into(), vec![req("GET", "/", Fr::None)], vec![s.clone()]));
                    s.interim = vec![vec![("A", "b")]];
                    list.push(("interim".into(), vec![req("POST", "/", Fr::Cl(b"xy".to_vec()))], vec![s.clone()]));
                }
                // HEAD: framing headers but no body
                if !matches!(fr, Fr::Close(_)) {
                    let mut s = resp(st, "Some Reason", fr.clone());
                    s.eol = eol;
                    if !hd {
                        s.hdrs.clear();
                    }
                    s.no_body = true;
                    list.push(("head".into(), vec![req("HEAD", "/", Fr::None)], vec![s.clone()]));
                    list.push(("head pair".into(), vec![req("HEAD", "/", Fr::None), req("GET", "/2", Fr::None)], vec![s.clone(), ok()]));
                }
            }
        }
        for st in [204u16, 304] {
            let mut s = resp(st, "No", Fr::None);
            s.eol = eol;
            if !hd {
                s.hdrs.clear();
            }
            list.push(("nobody".into(), vec![req("GET", "/", Fr::None)], vec![s.clone()]));
            list.push(("nobody pair".into(), vec![req("GET", "/", Fr::None), req("GET", "/2", Fr::None)], vec![s.clone(), ok()]));
        }
    }
    // spellings of the header lines, of the framing header and of the last chunk
    for eol in ["\r\n", "\n"] {
        for style in 1..4 {
            for fr in framings(false, false) {
                let mut q = req("POST", "/s", fr);
                q.eol = eol;
                q.style = style;
                q.hdrs.push(("X", "y z"));
                list.push(("style".into(), vec![q.clone(), req("GET", "/2", Fr::None)], vec![ok(), ok()]));
            }
            for fr in framings(true, false) {
                if ambiguous(eol, &fr) {
                    continue;
                }
                let close = matches!(fr, Fr::Close(_));
                let mut s = resp(200, "OK", fr);
                s.eol = eol;
                s.style = style;
                for n in 0..3 {
                    s.interim = vec![vec![("A", "b")]; n];
                    if close {
                        list.push(("style".into(), vec![req("GET", "/", Fr::None)], vec![s.clone()]));
                    } else {
                        list.push(("style".into(), vec![req("GET", "/", Fr::None), req("GET", "/2", Fr::None)], vec![s.clone(), ok()]));
                    }
                }
            }
        }
    }
    // every method and status class
    for m in METHODS {
        for fr in [Fr::None, Fr::Cl(b"xyz".to_vec())] {
            list.push(("method".into(), vec![req(m, "/m", fr), req("GET", "/2", Fr::None)], vec![ok(), ok()]));
        }
    }
    for st in [200u16, 201, 202, 203, 205, 206, 299, 300, 301, 302, 307, 399, 400, 401, 403, 407, 417, 499, 500, 503, 599, 600, 999] {
        for fr in [Fr::Cl(b"".to_vec()), Fr::Cl(b"xyz".to_vec()), Fr::Chunked { chunks: vec![b"q".to_vec()], ext: 0, trailers: vec![] }] {
            for reason in ["R", ""] {
                list.push(("status".into(), vec![req("GET", "/", Fr::None), req("GET", "/2", Fr::None)], vec![resp(st, reason, fr.clone()), ok()]));
            }
        }
        list.push(("status".into(), vec![req("GET", "/", Fr::None)], vec![resp(st, "R", Fr::Close(b"abc".to_vec()))]));
    }
    list
}
/// All methods the parser knows (CONNECT and HEAD have rules of their own), and unknown ones.
const METHODS: [&str; 29] = [
    "GET", "PUT", "POST", "DELETE", "OPTIONS", "TRACE", "PATCH", "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK",
    "VERSION-CONTROL", "CHECKOUT", "UNCHECKOUT", "CHECKIN", "UPDATE", "LABEL", "REPORT", "MKWORKSPACE", "MKACTIVITY",
    "BASELINE-CONTROL", "MERGE", "INVALID", "get", "FOO", "M-SEARCH",
];
