//! Development aid: `mc dbg` runs ad-hoc streams and prints everything observable.
use crate::rec::*;
pub fn run() {
    let a: Vec<String> = std::env::args().collect();
    reset();
    let mut cfg = cfg_default();
    if std::env::var("AUTO").is_ok() { cfg.tx_auto_destroy = true; }
    if let Ok(v)=std::env::var("LIMIT") { cfg.field_limit = v.parse().unwrap(); }
    if std::env::var("RD").is_ok() { cfg.request_decompression_enabled = true; }
    let mut p = P::new(cfg);
    for x in &a[2..] {
        let (k, v) = x.split_at(1);
        let b = unesc(v);
        let n0 = ev_len();
        let st = match k {
            "q" => format!("{:?} consumed {}/{}", p.req(&b), p.req_consumed(), b.len()),
            "s" => format!("{:?} consumed {}/{}", p.resp(&b), p.resp_consumed(), b.len()),
            "g" => format!("{:?}", p.req_gap(v.parse().unwrap())),
            "h" => format!("{:?}", p.resp_gap(v.parse().unwrap())),
            "c" => { p.close(); "closed".into() }
            "d" => { p.req_close(); "req closed".into() }
            _ => panic!(),
        };
        println!("{} -> {}", x, st);
        REC.with(|r| for e in &r.borrow().ev[n0..] { println!("    {}", evs(Some(e))); });
    }
    println!("req {:?} resp {:?} logs {:?}", p.c.request_status, p.c.response_status, p.logs());
    if std::env::var("TX").is_ok() {
        for t in p.txs() { println!("{:#?}", t); }
    }
}
pub fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            i += 1;
            match b[i] {
                b'r' => o.push(b'\r'),
                b'n' => o.push(b'\n'),
                b't' => o.push(b'\t'),
                b'0' => o.push(0),
                b'x' => { o.push(u8::from_str_radix(&s[i+1..i+3], 16).unwrap()); i += 2; }
                c => o.push(c),
            }
        } else { o.push(b[i]); }
        i += 1;
    }
    o
}
