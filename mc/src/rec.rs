//! Recording of everything a user of the parser can observe: callbacks (order, transaction,
//! data, progress), final transaction contents, connection counters/flags and logs.
#![allow(dead_code)]
use htp::bstr::Bstr;
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, HtpStreamState, ParserData};
use htp::transaction::{Headers, Transaction};
use htp::uri::Uri;
use htp::util::HtpFlags;
use htp::HtpStatus;
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[allow(non_camel_case_types)]
pub enum H {
    REQ_START,
    REQ_URI_NORMALIZE,
    REQ_LINE,
    REQ_HEADER_DATA,
    REQ_HEADERS,
    REQ_BODY_DATA,
    REQ_TRAILER_DATA,
    REQ_TRAILER,
    REQ_COMPLETE,
    RESP_START,
    RESP_LINE,
    RESP_HEADER_DATA,
    RESP_HEADERS,
    RESP_BODY_DATA,
    RESP_TRAILER_DATA,
    RESP_TRAILER,
    RESP_COMPLETE,
    TX_COMPLETE,
}
use H::*;
impl H {
    pub fn is_req(self) -> bool {
        (self as u8) <= REQ_COMPLETE as u8
    }
    pub fn is_data(self) -> bool {
        matches!(
            self,
            REQ_HEADER_DATA | REQ_BODY_DATA | REQ_TRAILER_DATA | RESP_HEADER_DATA | RESP_BODY_DATA | RESP_TRAILER_DATA
        )
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum D {
    Tx,
    Bytes(Vec<u8>),
    Gap(usize),
    End,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ev {
    pub h: H,
    pub tx: usize,
    pub d: D,
    /// request / response progress as the callback saw it
    pub rp: u8,
    pub sp: u8,
}

/// What a faulted callback answers.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum S {
    Declined,
    Error,
    Stop,
    Data,
    DataOther,
    DataBuffer,
}
impl S {
    pub fn st(self) -> HtpStatus {
        match self {
            S::Declined => HtpStatus::DECLINED,
            S::Error => HtpStatus::ERROR,
            S::Stop => HtpStatus::STOP,
            S::Data => HtpStatus::DATA,
            S::DataOther => HtpStatus::DATA_OTHER,
            S::DataBuffer => HtpStatus::DATA_BUFFER,
        }
    }
}
pub type Fault = (u64, S);

#[derive(Default)]
pub struct Rec {
    pub ev: Vec<Ev>,
    pub count: u64,
    /// nth callback invocation (0-based) returns this status
    pub fault: Vec<Fault>,
    /// if set: a snapshot of the transaction is taken at REQ_HEADERS / *_COMPLETE
    pub snap: bool,
    pub snaps: Vec<(H, TxSnap)>,
    /// callback that registers per-transaction body hooks at REQ_START when true
    pub tx_hooks: bool,
    pub txhook_bytes: Vec<(bool, usize, D)>,
}

thread_local! {
    pub static REC: RefCell<Rec> = RefCell::new(Rec::default());
}

pub fn reset() {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.ev.clear();
        r.count = 0;
        r.fault.clear();
        r.snap = false;
        r.snaps.clear();
        r.tx_hooks = false;
        r.txhook_bytes.clear();
    })
}
pub fn take_events() -> Vec<Ev> {
    REC.with(|r| std::mem::take(&mut r.borrow_mut().ev))
}
pub fn set_fault(f: &[Fault]) {
    REC.with(|r| r.borrow_mut().fault = f.to_vec())
}
pub fn ev_len() -> usize {
    REC.with(|r| r.borrow().ev.len())
}

fn hit(h: H, tx: &mut Transaction, d: D) -> Result<(), HtpStatus> {
    let mut reg = false;
    let res = REC.with(|r| {
        let mut r = r.borrow_mut();
        if r.ev.len() > 60_000 {
            panic!("callback storm");
        }
        if r.snap && matches!(h, REQ_HEADERS | REQ_COMPLETE | RESP_COMPLETE | TX_COMPLETE) {
            let s = TxSnap::of(tx);
            r.snaps.push((h, s));
        }
        if r.tx_hooks && h == REQ_START {
            reg = true;
        }
        r.ev.push(Ev {
            h,
            tx: tx.index,
            d,
            rp: tx.request_progress as u8,
            sp: tx.response_progress as u8,
        });
        let n = r.count;
        r.count += 1;
        for (k, s) in &r.fault {
            if *k == n {
                return Err(s.st());
            }
        }
        Ok(())
    });
    if reg {
        tx.hook_request_body_data.register(txh_req);
        tx.hook_response_body_data.register(txh_resp);
    }
    res
}
fn pd(data: &ParserData) -> D {
    if data.is_gap() {
        D::Gap(data.len())
    } else if let Some(b) = data.data() {
        D::Bytes(b.to_vec())
    } else {
        D::End
    }
}
fn txh_req(tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
    REC.with(|r| r.borrow_mut().txhook_bytes.push((true, tx.index, pd(d))));
    Ok(())
}
fn txh_resp(tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
    REC.with(|r| r.borrow_mut().txhook_bytes.push((false, tx.index, pd(d))));
    Ok(())
}

macro_rules! txcb {
    ($($n:ident $h:ident),*) => { $(fn $n(tx: &mut Transaction) -> Result<(), HtpStatus> { hit($h, tx, D::Tx) })* };
}
macro_rules! dcb {
    ($($n:ident $h:ident),*) => { $(fn $n(tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> { hit($h, tx, pd(d)) })* };
}
txcb!(c0 REQ_START, c1 REQ_URI_NORMALIZE, c2 REQ_LINE, c4 REQ_HEADERS, c7 REQ_TRAILER, c8 REQ_COMPLETE,
      c9 RESP_START, c10 RESP_LINE, c12 RESP_HEADERS, c15 RESP_TRAILER, c16 RESP_COMPLETE, c17 TX_COMPLETE);
dcb!(c3 REQ_HEADER_DATA, c5 REQ_BODY_DATA, c6 REQ_TRAILER_DATA, c11 RESP_HEADER_DATA, c13 RESP_BODY_DATA, c14 RESP_TRAILER_DATA);

/// Register a recording callback on every hook of the configuration.
pub fn hook_all(cfg: &mut Config) {
    cfg.hook_request_start.register(c0);
    cfg.hook_request_uri_normalize.register(c1);
    cfg.hook_request_line.register(c2);
    cfg.hook_request_header_data.register(c3);
    cfg.hook_request_headers.register(c4);
    cfg.hook_request_body_data.register(c5);
    cfg.hook_request_trailer_data.register(c6);
    cfg.hook_request_trailer.register(c7);
    cfg.hook_request_complete.register(c8);
    cfg.hook_response_start.register(c9);
    cfg.hook_response_line.register(c10);
    cfg.hook_response_header_data.register(c11);
    cfg.hook_response_headers.register(c12);
    cfg.hook_response_body_data.register(c13);
    cfg.hook_response_trailer_data.register(c14);
    cfg.hook_response_trailer.register(c15);
    cfg.hook_response_complete.register(c16);
    cfg.hook_transaction_complete.register(c17);
}

pub fn cfg_default() -> Config {
    let mut c = Config::default();
    hook_all(&mut c);
    // The decompression time limit reads the wall clock; take it out of the picture.
    c.compression_options.set_time_limit(u32::MAX);
    c
}

pub type OB = Option<Vec<u8>>;
pub fn ob(b: &Option<Bstr>) -> OB {
    b.as_ref().map(|b| b.as_slice().to_vec())
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct UriSnap {
    pub scheme: OB,
    pub username: OB,
    pub password: OB,
    pub hostname: OB,
    pub port: OB,
    pub port_number: Option<u16>,
    pub path: OB,
    pub query: OB,
    pub fragment: OB,
}
impl UriSnap {
    pub fn of(u: &Uri) -> Self {
        UriSnap {
            scheme: ob(&u.scheme),
            username: ob(&u.username),
            password: ob(&u.password),
            hostname: ob(&u.hostname),
            port: ob(&u.port),
            port_number: u.port_number,
            path: ob(&u.path),
            query: ob(&u.query),
            fragment: ob(&u.fragment),
        }
    }
}

pub type HdrSnap = (Vec<u8>, Vec<u8>, u64);
pub fn hdrs(h: &Headers) -> Vec<HdrSnap> {
    h.elements
        .iter()
        .map(|h| (h.name.as_slice().to_vec(), h.value.as_slice().to_vec(), h.flags))
        .collect()
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct TxSnap {
    pub index: usize,
    pub request_ignored_lines: u32,
    pub request_line: OB,
    pub request_method: OB,
    pub request_method_number: String,
    pub request_uri: OB,
    pub request_protocol: OB,
    pub request_protocol_number: i32,
    pub is_protocol_0_9: bool,
    pub uri: Option<UriSnap>,
    pub uri_raw: Option<UriSnap>,
    pub complete_normalized_uri: OB,
    pub partial_normalized_uri: OB,
    pub request_message_len: u64,
    pub request_entity_len: u64,
    pub request_headers: Vec<HdrSnap>,
    pub request_transfer_coding: u8,
    pub request_content_encoding: u8,
    pub request_content_type: OB,
    pub request_content_length: Option<u64>,
    pub auth_type: u8,
    pub auth_username: OB,
    pub auth_password: OB,
    pub auth_token: OB,
    pub hostname: OB,
    pub port: Option<u16>,
    pub response_ignored_lines: u32,
    pub response_line: OB,
    pub response_protocol: OB,
    pub response_protocol_number: i32,
    pub response_status: OB,
    pub response_status_number: String,
    pub response_status_expected: String,
    pub response_message: OB,
    pub seen_100: bool,
    pub response_headers: Vec<HdrSnap>,
    pub h2: bool,
    pub response_message_len: u64,
    pub response_entity_len: u64,
    pub response_content_length: Option<u64>,
    pub response_transfer_coding: u8,
    pub response_content_encoding: u8,
    pub response_content_type: OB,
    pub flags: u64,
    pub rp: u8,
    pub sp: u8,
}

impl TxSnap {
    pub fn of(t: &Transaction) -> Self {
        TxSnap {
            index: t.index,
            request_ignored_lines: t.request_ignored_lines,
            request_line: ob(&t.request_line),
            request_method: ob(&t.request_method),
            request_method_number: format!("{:?}", t.request_method_number),
            request_uri: ob(&t.request_uri),
            request_protocol: ob(&t.request_protocol),
            request_protocol_number: t.request_protocol_number as i32,
            is_protocol_0_9: t.is_protocol_0_9,
            uri: t.parsed_uri.as_ref().map(UriSnap::of),
            uri_raw: t.parsed_uri_raw.as_ref().map(UriSnap::of),
            complete_normalized_uri: ob(&t.complete_normalized_uri),
            partial_normalized_uri: ob(&t.partial_normalized_uri),
            request_message_len: t.request_message_len,
            request_entity_len: t.request_entity_len,
            request_headers: hdrs(&t.request_headers),
            request_transfer_coding: t.request_transfer_coding as u8,
            request_content_encoding: t.request_content_encoding as u8,
            request_content_type: ob(&t.request_content_type),
            request_content_length: t.request_content_length,
            auth_type: t.request_auth_type as u8,
            auth_username: ob(&t.request_auth_username),
            auth_password: ob(&t.request_auth_password),
            auth_token: ob(&t.request_auth_token),
            hostname: ob(&t.request_hostname),
            port: t.request_port_number,
            response_ignored_lines: t.response_ignored_lines,
            response_line: ob(&t.response_line),
            response_protocol: ob(&t.response_protocol),
            response_protocol_number: t.response_protocol_number as i32,
            response_status: ob(&t.response_status),
            response_status_number: format!("{:?}", t.response_status_number),
            response_status_expected: format!("{:?}", t.response_status_expected_number),
            response_message: ob(&t.response_message),
            seen_100: t.seen_100continue,
            response_headers: hdrs(&t.response_headers),
            h2: t.is_http_2_upgrade,
            response_message_len: t.response_message_len,
            response_entity_len: t.response_entity_len,
            response_content_length: t.response_content_length,
            response_transfer_coding: t.response_transfer_coding as u8,
            response_content_encoding: t.response_content_encoding as u8,
            response_content_type: ob(&t.response_content_type),
            flags: t.flags,
            rp: t.request_progress as u8,
            sp: t.response_progress as u8,
        }
    }
    pub fn no_packet_flag(mut self) -> Self {
        self.flags &= !HtpFlags::MULTI_PACKET_HEAD;
        self
    }
    pub fn has(&self, f: u64) -> bool {
        self.flags & f == f
    }
    pub fn hdr(&self, resp: bool, name: &[u8]) -> Option<&HdrSnap> {
        let v = if resp { &self.response_headers } else { &self.request_headers };
        v.iter().find(|h| h.0.eq_ignore_ascii_case(name))
    }
}

/// One parser under test, boxed (its decompressors keep its address).
pub struct P {
    pub c: Box<ConnectionParser>,
    pub calls: u64,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Obs {
    pub ev: Vec<Ev>,
    pub txs: Vec<Option<TxSnap>>,
    pub req_status: String,
    pub resp_status: String,
    pub flags: u8,
    pub inb: u64,
    pub outb: u64,
    pub logs: Vec<String>,
}

pub const CLOSE_TXS: usize = 64;

impl P {
    pub fn new(cfg: Config) -> P {
        let mut c = Box::new(ConnectionParser::new(cfg));
        c.open(None, Some(32768), None, Some(80), None);
        P { c, calls: 0 }
    }
    pub fn new_unopened(cfg: Config) -> P {
        P {
            c: Box::new(ConnectionParser::new(cfg)),
            calls: 0,
        }
    }
    pub fn req(&mut self, b: &[u8]) -> HtpStreamState {
        self.calls += 1;
        self.c.request_data(ParserData::from(b), None)
    }
    pub fn resp(&mut self, b: &[u8]) -> HtpStreamState {
        self.calls += 1;
        self.c.response_data(ParserData::from(b), None)
    }
    pub fn req_gap(&mut self, n: usize) -> HtpStreamState {
        self.calls += 1;
        self.c.request_data(ParserData::from(n), None)
    }
    pub fn resp_gap(&mut self, n: usize) -> HtpStreamState {
        self.calls += 1;
        self.c.response_data(ParserData::from(n), None)
    }
    pub fn close(&mut self) {
        self.calls += 1;
        self.c.close(None)
    }
    pub fn req_close(&mut self) {
        self.calls += 1;
        self.c.request_close(None)
    }
    pub fn req_consumed(&self) -> usize {
        self.c.request_data_consumed()
    }
    pub fn resp_consumed(&self) -> usize {
        self.c.response_data_consumed()
    }
    pub fn tx(&self, i: usize) -> Option<TxSnap> {
        self.c.tx(i).map(TxSnap::of)
    }
    pub fn logs(&self) -> Vec<String> {
        self.c
            .conn
            .get_logs()
            .iter()
            .map(|l| format!("{:?}", l.msg.code))
            .collect()
    }
    /// Everything observable, in a form independent of how the streams were segmented.
    pub fn obs(&self) -> Obs {
        Obs {
            ev: norm(take_events()),
            txs: self.txs().into_iter().map(|t| t.map(|t| t.no_packet_flag())).collect(),
            req_status: format!("{:?}", self.c.request_status),
            resp_status: format!("{:?}", self.c.response_status),
            flags: self.c.conn.flags,
            inb: self.c.conn.request_data_counter,
            outb: self.c.conn.response_data_counter,
            logs: self.logs(),
        }
    }
    pub fn txs(&self) -> Vec<Option<TxSnap>> {
        let n = self.c.tx_size().min(CLOSE_TXS);
        (0..n).map(|i| self.tx(i)).collect()
    }
}

/// Normalise an event list: consecutive data events of one hook and transaction are merged
/// (chunk boundaries of data callbacks follow the segmentation by design), empty ones dropped.
pub fn norm(ev: Vec<Ev>) -> Vec<Ev> {
    let mut out: Vec<Ev> = Vec::with_capacity(ev.len());
    for mut e in ev {
        if e.h.is_data() {
            // raw-data callbacks may be batched across a state change
            e.rp = 0;
            e.sp = 0;
        }
        if let D::Bytes(b) = &e.d {
            if b.is_empty() {
                continue;
            }
            if let Some(l) = out.last_mut() {
                if l.h == e.h && l.tx == e.tx {
                    if let D::Bytes(lb) = &mut l.d {
                        lb.extend_from_slice(b);
                        continue;
                    }
                }
            }
        }
        out.push(e);
    }
    out
}

pub fn body(ev: &[Ev], h: H, tx: usize) -> Vec<u8> {
    let mut v = vec![];
    for e in ev {
        if e.h == h && e.tx == tx {
            if let D::Bytes(b) = &e.d {
                v.extend_from_slice(b);
            }
        }
    }
    v
}

pub fn diff(a: &Obs, b: &Obs) -> String {
    let mut s = String::new();
    if a.req_status != b.req_status {
        s += &format!("request status {} vs {}; ", a.req_status, b.req_status);
    }
    if a.resp_status != b.resp_status {
        s += &format!("response status {} vs {}; ", a.resp_status, b.resp_status);
    }
    if a.logs != b.logs {
        s += &format!("logs {:?} vs {:?}; ", a.logs, b.logs);
    }
    if a.flags != b.flags {
        s += &format!("conn flags {} vs {}; ", a.flags, b.flags);
    }
    if a.inb != b.inb || a.outb != b.outb {
        s += &format!("counters {}/{} vs {}/{}; ", a.inb, a.outb, b.inb, b.outb);
    }
    if a.txs.len() != b.txs.len() {
        s += &format!("tx count {} vs {}; ", a.txs.len(), b.txs.len());
    }
    for (x, y) in a.txs.iter().zip(b.txs.iter()) {
        if x != y {
            let dx = format!("{:#?}", x);
            let dy = format!("{:#?}", y);
            let mut n = 0;
            for (l, m) in dx.lines().zip(dy.lines()) {
                if l != m {
                    s += &format!("tx: {} vs {}; ", l.trim(), m.trim());
                    n += 1;
                    if n > 3 {
                        break;
                    }
                }
            }
        }
    }
    if a.ev != b.ev {
        for i in 0..a.ev.len().max(b.ev.len()) {
            if a.ev.get(i) != b.ev.get(i) {
                s += &format!("event {}: {} vs {}; ", i, evs(a.ev.get(i)), evs(b.ev.get(i)));
                break;
            }
        }
    }
    s
}
pub fn evs(e: Option<&Ev>) -> String {
    match e {
        None => "-".into(),
        Some(e) => format!(
            "{:?}#{}{}({},{})",
            e.h,
            e.tx,
            match &e.d {
                D::Tx => String::new(),
                D::Bytes(b) => format!("[{}]", crate::eng::show(b)),
                D::Gap(n) => format!("[gap {}]", n),
                D::End => "[end]".into(),
            },
            e.rp,
            e.sp
        ),
    }
}
