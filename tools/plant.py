#!/usr/bin/env python3
"""Plants a bug in the scratch copy (/tmp/sc), writes its folder in seeded/ and confirms it with seed.sh.
   plant.py <id>... | all       Bugs are defined in tools/bugs_*.py with B(id, property, edits, needs, breaks, body)."""
import sys, os, json, subprocess, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get("SC", "/tmp/sc")
PRELUDE = r'''
#![allow(dead_code, unused_imports)]
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, HtpStreamState, ParserData};
use htp::transaction::Transaction;
use htp::HtpStatus;
use std::cell::RefCell;
thread_local! {
    static EV: RefCell<Vec<(&'static str, usize, Vec<u8>)>> = RefCell::new(vec![]);
    static FAULT: RefCell<Option<(&'static str, usize)>> = RefCell::new(None);
}
type R = Result<(), HtpStatus>;
fn ev(n: &'static str, tx: &Transaction, d: &[u8]) -> R {
    EV.with(|e| e.borrow_mut().push((n, tx.index, d.to_vec())));
    let hit = FAULT.with(|f| match &mut *f.borrow_mut() {
        Some((k, c)) if *k == n => { if *c == 0 { true } else { *c -= 1; false } }
        _ => false,
    });
    if hit { Err(HtpStatus::STOP) } else { Ok(()) }
}
fn rs(t: &mut Transaction) -> R { ev("rs", t, b"") }
fn rl(t: &mut Transaction) -> R { ev("rl", t, b"") }
fn rh(t: &mut Transaction) -> R { ev("rh", t, b"") }
fn rt(t: &mut Transaction) -> R { ev("rt", t, b"") }
fn rc(t: &mut Transaction) -> R { ev("rc", t, b"") }
fn ss(t: &mut Transaction) -> R { ev("ss", t, b"") }
fn sl(t: &mut Transaction) -> R { ev("sl", t, b"") }
fn sh(t: &mut Transaction) -> R { ev("sh", t, b"") }
fn st(t: &mut Transaction) -> R { ev("st", t, b"") }
fn sc(t: &mut Transaction) -> R { ev("sc", t, b"") }
fn tc(t: &mut Transaction) -> R { ev("tc", t, b"") }
fn rb(t: &mut Transaction, d: &ParserData) -> R { ev("rb", t, d.as_slice()) }
fn sb(t: &mut Transaction, d: &ParserData) -> R { ev("sb", t, d.as_slice()) }
fn rhd(t: &mut Transaction, d: &ParserData) -> R { ev("rhd", t, d.as_slice()) }
fn shd(t: &mut Transaction, d: &ParserData) -> R { ev("shd", t, d.as_slice()) }
fn rtd(t: &mut Transaction, d: &ParserData) -> R { ev("rtd", t, d.as_slice()) }
fn std_(t: &mut Transaction, d: &ParserData) -> R { ev("std", t, d.as_slice()) }
fn config() -> Config {
    let mut c = Config::default();
    c.register_request_start(rs);
    c.register_request_line(rl);
    c.register_request_headers(rh);
    c.register_request_trailer(rt);
    c.register_request_complete(rc);
    c.register_response_start(ss);
    c.register_response_line(sl);
    c.register_response_headers(sh);
    c.register_response_trailer(st);
    c.register_response_complete(sc);
    c.register_transaction_complete(tc);
    c.register_request_body_data(rb);
    c.register_response_body_data(sb);
    c.register_request_header_data(rhd);
    c.register_response_header_data(shd);
    c.register_request_trailer_data(rtd);
    c.register_response_trailer_data(std_);
    c
}
fn parser(c: Config) -> ConnectionParser {
    EV.with(|e| e.borrow_mut().clear());
    FAULT.with(|f| *f.borrow_mut() = None);
    let mut p = ConnectionParser::new(c);
    p.open(None, None, None, None, None);
    p
}
fn req(p: &mut ConnectionParser, d: &[u8]) -> HtpStreamState { p.request_data(ParserData::from(d), None) }
fn resp(p: &mut ConnectionParser, d: &[u8]) -> HtpStreamState { p.response_data(ParserData::from(d), None) }
/// all bytes delivered under callback n for transaction tx
fn bytes(n: &str, tx: usize) -> Vec<u8> {
    EV.with(|e| e.borrow().iter().filter(|x| x.0 == n && x.1 == tx).flat_map(|x| x.2.clone()).collect())
}
fn count(n: &str) -> usize { EV.with(|e| e.borrow().iter().filter(|x| x.0 == n).count()) }
fn names() -> Vec<&'static str> { EV.with(|e| e.borrow().iter().map(|x| x.0).collect()) }
'''
BUGS = {}
def B(id, prop, edits, needs, breaks, body):
    assert id not in BUGS, id
    BUGS[id] = (prop, edits, needs, breaks, body)

def plant(id):
    prop, edits, needs, breaks, body = BUGS[id]
    S = os.path.join(V, "seeded", id)
    os.makedirs(S, exist_ok=True)
    shutil.copy(os.path.join(V, "tools", "demo.sh"), os.path.join(S, "demo.sh"))
    open(os.path.join(S, "main.rs"), "w").write(PRELUDE.lstrip() + body)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(S, "meta.json"), "w"), indent=1)
    subprocess.check_call(["git", "-C", SC, "checkout", "-q", "--", "."])
    for f, old, new in edits:
        p = os.path.join(SC, f)
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            print(id, "edit matches", n, "times in", f); return False
        open(p, "w").write(t.replace(old, new))
    return subprocess.call(["bash", os.path.join(V, "tools", "seed.sh"), id]) == 0

if __name__ == "__main__":
    sys.path.insert(0, os.path.join(V, "tools"))
    for f in sorted(glob.glob(os.path.join(V, "tools", "bugs_*.py"))):
        exec(compile(open(f).read(), f, "exec"), globals())
    ids = sys.argv[1:]
    if ids == ["all"]: ids = list(BUGS)
    bad = [i for i in ids if not plant(i)]
    print("bad:", bad)
