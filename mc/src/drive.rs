//! The caller's side of the suspension protocol: what a direction did not consume is kept and
//! offered again after the other direction has been fed.
#![allow(dead_code)]
use crate::rec::*;
use htp::connection_parser::HtpStreamState;

pub struct Drive {
    pub p: P,
    pub q: Vec<u8>,
    pub s: Vec<u8>,
    qb: bool,
    sb: bool,
    /// status of the last call per direction
    pub qst: HtpStreamState,
    pub sst: HtpStreamState,
    /// first breach of the contract of the consumed counters
    pub bad: Option<String>,
}

impl Drive {
    pub fn new(p: P) -> Drive {
        Drive { p, q: vec![], s: vec![], qb: false, sb: false, qst: HtpStreamState::OPEN, sst: HtpStreamState::OPEN, bad: None }
    }
    fn dead(s: HtpStreamState) -> bool {
        matches!(s, HtpStreamState::ERROR | HtpStreamState::STOP | HtpStreamState::TUNNEL)
    }
    fn step_q(&mut self) {
        let b = std::mem::take(&mut self.q);
        self.qst = self.p.req(&b);
        let n = self.p.req_consumed();
        self.note(self.qst, n, b.len());
        match self.qst {
            HtpStreamState::DATA_OTHER => {
                self.q = b[n.min(b.len())..].to_vec();
                self.qb = true;
                // nothing happened: the other side is not woken up
                if n > 0 {
                    self.sb = false;
                }
            }
            _ => {
                self.sb = false;
            }
        }
    }
    fn step_s(&mut self) {
        let b = std::mem::take(&mut self.s);
        self.sst = self.p.resp(&b);
        let n = self.p.resp_consumed();
        self.note(self.sst, n, b.len());
        match self.sst {
            HtpStreamState::DATA_OTHER => {
                self.s = b[n.min(b.len())..].to_vec();
                self.sb = true;
                if n > 0 {
                    self.qb = false;
                }
            }
            _ => {
                self.qb = false;
            }
        }
    }
    fn note(&mut self, st: HtpStreamState, n: usize, len: usize) {
        if self.bad.is_none() {
            if n > len {
                self.bad = Some(format!("consumed {} of {} bytes", n, len));
            } else if st == HtpStreamState::DATA && n != len {
                self.bad = Some(format!("asked for more data after consuming {} of {} bytes", n, len));
            } else if st == HtpStreamState::DATA_OTHER && n == len {
                self.bad = Some("suspended although everything was consumed".into());
            }
        }
    }
    fn pump(&mut self) {
        loop {
            if !self.q.is_empty() && !self.qb {
                self.step_q();
            } else if !self.s.is_empty() && !self.sb {
                self.step_s();
            } else {
                break;
            }
        }
    }
    pub fn req(&mut self, b: &[u8]) {
        self.q.extend_from_slice(b);
        // new data alone does not lift a suspension, but offering it again is harmless
        self.qb = false;
        self.pump();
    }
    pub fn resp(&mut self, b: &[u8]) {
        self.s.extend_from_slice(b);
        self.sb = false;
        self.pump();
    }
    /// One last offer of what is left, then close.
    pub fn close(&mut self) {
        self.qb = false;
        self.sb = false;
        self.pump();
        self.p.close();
    }
}
