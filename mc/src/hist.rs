//! Exhaustive exploration of API call histories (all sequences of actions up to a depth).
#![allow(dead_code)]
use crate::eng::*;
use crate::rec::*;
use htp::config::*;
use htp::connection_parser::HtpStreamState;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum A {
    Q(&'static [u8]),
    S(&'static [u8]),
    QG(usize),
    SG(usize),
    QClose,
    Close,
    Open,
}
use A::*;

impl A {
    pub fn text(&self) -> String {
        match self {
            Q(b) => format!("req[{}]", show(b)),
            S(b) => format!("resp[{}]", show(b)),
            QG(n) => format!("reqgap({})", n),
            SG(n) => format!("respgap({})", n),
            QClose => "request_close".into(),
            Close => "close".into(),
            Open => "open".into(),
        }
    }
}

pub fn text(seq: &[A]) -> String {
    seq.iter().map(|a| a.text()).collect::<Vec<_>>().join(" ")
}

/// The action alphabet: message fragments that drive both state machines through all of their
/// states, gaps, empty chunks and the closing calls.
pub fn alphabet() -> Vec<A> {
    vec![
        Q(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n"),
        Q(b"GET /x HTTP/1.1\r\n"),
        Q(b"A: b\r\n"),
        Q(b"\r\n"),
        Q(b"POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\n"),
        Q(b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"),
        Q(b"3\r\nabc\r\n0\r\n\r\n"),
        Q(b"abc"),
        Q(b"0\r\n"),
        Q(b"CONNECT h:1 HTTP/1.1\r\nHost: h:1\r\n\r\n"),
        Q(b"POST / HTTP/1.1\r\nExpect: 100-continue\r\nContent-Length: 1\r\n\r\n"),
        Q(b"GET /\r\n"),
        Q(b"\n\0\r"),
        Q(b"HEAD / HTTP/1.0\nX"),
        Q(b""),
        QG(2),
        S(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"),
        S(b"HTTP/1.1 200 OK\r\n"),
        S(b"A: b\r\n"),
        S(b"\r\n"),
        S(b"HTTP/1.0 200 OK\r\n\r\n"),
        S(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\n"),
        S(b"ok"),
        S(b"\r\n0\r\n\r\n"),
        S(b"HTTP/1.1 100 Continue\r\n\r\n"),
        S(b"HTTP/1.1 101 Switching\r\n\r\n"),
        S(b"HTTP/1.1 404 No\r\nContent-Length: 0\r\n\r\n"),
        S(b"\n\0\r"),
        S(b""),
        SG(2),
        QClose,
        Close,
    ]
}

pub fn apply(p: &mut P, a: A) -> Option<HtpStreamState> {
    match a {
        Q(b) => Some(p.req(b)),
        S(b) => Some(p.resp(b)),
        QG(n) => Some(p.req_gap(n)),
        SG(n) => Some(p.resp_gap(n)),
        QClose => {
            p.req_close();
            None
        }
        Close => {
            p.close();
            None
        }
        Open => {
            p.calls += 1;
            p.c.open(None, None, None, None, None);
            None
        }
    }
}

#[derive(Clone)]
pub struct NamedCfg {
    pub name: &'static str,
    pub f: fn(&mut Config),
}

pub fn build(c: &NamedCfg) -> Config {
    let mut cfg = cfg_default();
    (c.f)(&mut cfg);
    cfg
}

/// Configurations worth exploring histories under.
pub fn configs() -> Vec<NamedCfg> {
    vec![
        NamedCfg { name: "default", f: |_| {} },
        NamedCfg { name: "auto_destroy", f: |c| c.set_tx_auto_destroy(true) },
        NamedCfg {
            name: "ids",
            f: |c| {
                c.set_server_personality(HtpServerPersonality::IDS).unwrap();
                c.set_request_decompression(true);
                c.set_parse_urlencoded(true);
                c.set_flush_incomplete(true);
            },
        },
        NamedCfg {
            name: "tight",
            f: |c| {
                c.set_field_limit(12);
                c.max_tx = 2;
                c.set_tx_auto_destroy(true);
                c.set_flush_incomplete(true);
            },
        },
        NamedCfg {
            name: "iis",
            f: |c| {
                c.set_server_personality(HtpServerPersonality::IIS_5_1).unwrap();
                c.max_tx = 2;
            },
        },
    ]
}

/// Run `f(cfg, sequence)` for every sequence of exactly `depth` actions of the alphabet.
pub fn all_sequences<F>(ctx: &Ctx, acts: &[A], depth: usize, cfgs: &[NamedCfg], f: F)
where
    F: Fn(&NamedCfg, &[A]) + Sync,
{
    let n = acts.len();
    let split = if depth >= 2 { 2 } else { 1 };
    let items = cfgs.len() * n.pow(split as u32);
    ctx.par(
        items,
        |i| format!("history group {}", i),
        |i| {
            let cfg = &cfgs[i % cfgs.len()];
            let mut k = i / cfgs.len();
            let mut seq = vec![];
            for _ in 0..split {
                seq.push(acts[k % n]);
                k /= n;
            }
            fn rec(ctx: &Ctx, acts: &[A], depth: usize, seq: &mut Vec<A>, cfg: &NamedCfg, f: &dyn Fn(&NamedCfg, &[A])) {
                if ctx.sh.stop.load(std::sync::atomic::Ordering::Relaxed) {
                    return;
                }
                if seq.len() == depth {
                    f(cfg, seq);
                    return;
                }
                for a in acts {
                    seq.push(*a);
                    rec(ctx, acts, depth, seq, cfg, f);
                    seq.pop();
                }
            }
            rec(ctx, acts, depth, &mut seq, cfg, &f);
        },
    );
}

/// Interesting bytes of the HTTP grammar.
pub const BYTES: &[u8] = b"\r\n \t\0:;,=%&+?#/\\.@[]\"-09aAxHG\x01\x7f\x80\xc3\xff";
