//! C23: the C functions and the Rust interface are one parser. Every history, configuration and
//! callback answer is run through both; what the C side returns has to be what the Rust side has.
#![allow(clippy::missing_safety_doc)]
use crate::c18::put;
use crate::eng::*;
use crate::hist::{alphabet, A};
use crate::rec::*;
use htp::bstr::Bstr;
use htp::c_api::{bstr::*, config::*, connection::*, connection_parser::*, header::*, log::*, transaction::*, uri::*, *};
use htp::config::*;
use htp::connection_parser::{ConnectionParser, HtpStreamState, ParserData};
use htp::transaction::*;
use htp::uri::Uri;
use htp::HtpStatus;
use std::cell::RefCell;
use std::ffi::{CStr, CString};
use std::ptr::{null, null_mut};

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
enum V {
    B(Option<Vec<u8>>),
    N(i128),
}
type Snap = Vec<(String, V)>;

fn n(x: impl Into<i128>) -> V {
    V::N(x.into())
}
unsafe fn cb(b: *const Bstr) -> V {
    V::B(if b.is_null() { None } else { Some(std::slice::from_raw_parts(bstr_ptr(b), bstr_len(b)).to_vec()) })
}
fn rb(b: &Option<Bstr>) -> V {
    V::B(b.as_ref().map(|b| b.as_slice().to_vec()))
}
/// The header reached through its four accessors.
unsafe fn chdr(h: *const Header, name: &str, v: &mut Snap) {
    if h.is_null() {
        v.push((name.into(), V::B(None)));
        return;
    }
    v.push((format!("{} name", name), cb(htp_header_name(h))));
    v.push((format!("{} value", name), cb(htp_header_value(h))));
    v.push((format!("{} flags", name), n(htp_header_flags(h))));
    let p = std::slice::from_raw_parts(htp_header_name_ptr(h), htp_header_name_len(h) as usize);
    v.push((format!("{} name ptr", name), V::B(Some(p.to_vec()))));
    let p = std::slice::from_raw_parts(htp_header_value_ptr(h), htp_header_value_len(h) as usize);
    v.push((format!("{} value ptr", name), V::B(Some(p.to_vec()))));
}
fn rhdr(h: Option<&Header>, name: &str, v: &mut Snap) {
    let h = match h {
        None => {
            v.push((name.into(), V::B(None)));
            return;
        }
        Some(h) => h,
    };
    let (a, b) = (V::B(Some(h.name.as_slice().to_vec())), V::B(Some(h.value.as_slice().to_vec())));
    v.push((format!("{} name", name), a.clone()));
    v.push((format!("{} value", name), b.clone()));
    v.push((format!("{} flags", name), n(h.flags)));
    v.push((format!("{} name ptr", name), a));
    v.push((format!("{} value ptr", name), b));
}
const KEYS: &[&str] = &["Host", "hOST", "a", "content-length", "Transfer-Encoding", "none", "", "x"];

unsafe fn cheaders(t: *const Transaction, resp: bool, v: &mut Snap) {
    let h = if resp { htp_tx_response_headers(t) } else { htp_tx_request_headers(t) };
    let d = if resp { "response" } else { "request" };
    let m = if resp { htp_tx_response_headers_size(t) } else { htp_tx_request_headers_size(t) };
    v.push((format!("{} headers", d), n(m as i64)));
    v.push((format!("{} headers size", d), n(htp_headers_size(h) as i64)));
    v.push((format!("{} headers flags", d), n(htp_headers_flags(h))));
    for i in 0..=(m.max(0) as usize) {
        let x = if resp { htp_tx_response_header_index(t, i) } else { htp_tx_request_header_index(t, i) };
        chdr(x, &format!("{} header {}", d, i), v);
        chdr(htp_headers_get_index(h, i), &format!("{} headers[{}]", d, i), v);
    }
    for k in KEYS {
        let c = CString::new(*k).unwrap();
        let x = if resp { htp_tx_response_header(t, c.as_ptr()) } else { htp_tx_request_header(t, c.as_ptr()) };
        chdr(x, &format!("{} header '{}'", d, k), v);
        chdr(htp_headers_get(h, c.as_ptr()), &format!("{} headers '{}'", d, k), v);
    }
}
fn rheaders(t: &Transaction, resp: bool, v: &mut Snap) {
    let h = if resp { &t.response_headers } else { &t.request_headers };
    let d = if resp { "response" } else { "request" };
    let m = h.elements.len();
    v.push((format!("{} headers", d), n(m as i64)));
    v.push((format!("{} headers size", d), n(m as i64)));
    v.push((format!("{} headers flags", d), n(h.elements.iter().fold(0, |f, h| f | h.flags))));
    for i in 0..=m {
        rhdr(h.elements.get(i), &format!("{} header {}", d, i), v);
        rhdr(h.elements.get(i), &format!("{} headers[{}]", d, i), v);
    }
    for k in KEYS {
        let x = h.elements.iter().find(|h| {
            let nm: Vec<u8> = h.name.as_slice().iter().filter(|c| **c != 0).map(|c| c.to_ascii_lowercase()).collect();
            nm == k.as_bytes().to_ascii_lowercase()
        });
        rhdr(x, &format!("{} header '{}'", d, k), v);
        rhdr(x, &format!("{} headers '{}'", d, k), v);
    }
}

unsafe fn via_c(t: *const Transaction) -> Snap {
    let mut v: Snap = vec![];
    let mut a = |s: &str, x: V| v.push((s.to_string(), x));
    a("index", n(htp_tx_index(t) as i64));
    a("request line", cb(htp_tx_request_line(t)));
    a("method", cb(htp_tx_request_method(t)));
    a("method number", n(htp_tx_request_method_number(t) as i32));
    a("uri", cb(htp_tx_request_uri(t)));
    a("protocol", cb(htp_tx_request_protocol(t)));
    a("protocol number", n(htp_tx_request_protocol_number(t) as i32));
    a("0.9", n(htp_tx_is_protocol_0_9(t)));
    a("h2", n(htp_tx_is_http_2_upgrade(t)));
    a("normalized uri", cb(htp_tx_normalized_uri(t)));
    a("transfer coding", n(htp_tx_request_transfer_coding(t) as i32));
    a("content encoding", n(htp_tx_request_content_encoding(t) as i32));
    a("content type", cb(htp_tx_request_content_type(t)));
    a("content length", n(htp_tx_request_content_length(t)));
    a("auth type", n(htp_tx_request_auth_type(t) as i32));
    a("hostname", cb(htp_tx_request_hostname(t)));
    a("port", n(htp_tx_request_port_number(t)));
    a("request message len", n(htp_tx_request_message_len(t)));
    a("request entity len", n(htp_tx_request_entity_len(t)));
    a("response line", cb(htp_tx_response_line(t)));
    a("response protocol", cb(htp_tx_response_protocol(t)));
    a("response protocol number", n(htp_tx_response_protocol_number(t) as i32));
    a("status", cb(htp_tx_response_status(t)));
    a("status number", n(htp_tx_response_status_number(t)));
    a("expected status", n(htp_tx_response_status_expected_number(t)));
    a("message", cb(htp_tx_response_message(t)));
    a("response message len", n(htp_tx_response_message_len(t)));
    a("response entity len", n(htp_tx_response_entity_len(t)));
    a("response content length", n(htp_tx_response_content_length(t)));
    a("response content type", cb(htp_tx_response_content_type(t)));
    a("flags", n(htp_tx_flags(t)));
    a("request progress", n(htp_tx_request_progress(t) as i32));
    a("response progress", n(htp_tx_response_progress(t) as i32));
    a("cfg", n(htp_tx_cfg(t).is_null()));
    let u = htp_tx_parsed_uri(t);
    a("parsed uri", n(u.is_null()));
    a("scheme", cb(htp_uri_scheme(u)));
    a("username", cb(htp_uri_username(u)));
    a("password", cb(htp_uri_password(u)));
    a("uri hostname", cb(htp_uri_hostname(u)));
    a("uri port", cb(htp_uri_port(u)));
    a("uri port number", n(htp_uri_port_number(u)));
    a("path", cb(htp_uri_path(u)));
    a("query", cb(htp_uri_query(u)));
    a("fragment", cb(htp_uri_fragment(u)));
    cheaders(t, false, &mut v);
    cheaders(t, true, &mut v);
    v
}
fn len(x: Option<u64>) -> V {
    n(x.map_or(-1, |x| i64::try_from(x).unwrap_or(-1)))
}
/// `all`: whether the configuration was asked for the complete normalized URI.
fn via_rust(t: &Transaction, all: bool) -> Snap {
    let mut v: Snap = vec![];
    let mut a = |s: &str, x: V| v.push((s.to_string(), x));
    a("index", n(t.index as i64));
    a("request line", rb(&t.request_line));
    a("method", rb(&t.request_method));
    a("method number", n(t.request_method_number as i32));
    a("uri", rb(&t.request_uri));
    a("protocol", rb(&t.request_protocol));
    a("protocol number", n(t.request_protocol_number as i32));
    a("0.9", n(t.is_protocol_0_9 as i32));
    a("h2", n(t.is_http_2_upgrade as i32));
    a("normalized uri", rb(if all { &t.complete_normalized_uri } else { &t.partial_normalized_uri }));
    a("transfer coding", n(t.request_transfer_coding as i32));
    a("content encoding", n(t.request_content_encoding as i32));
    a("content type", rb(&t.request_content_type));
    a("content length", len(t.request_content_length));
    a("auth type", n(t.request_auth_type as i32));
    a("hostname", rb(&t.request_hostname));
    a("port", n(t.request_port_number.map_or(-1, |p| p as i32)));
    a("request message len", len(Some(t.request_message_len)));
    a("request entity len", len(Some(t.request_entity_len)));
    a("response line", rb(&t.response_line));
    a("response protocol", rb(&t.response_protocol));
    a("response protocol number", n(t.response_protocol_number as i32));
    a("status", rb(&t.response_status));
    a(
        "status number",
        n(match t.response_status_number {
            HtpResponseNumber::UNKNOWN => 0,
            HtpResponseNumber::INVALID => -1,
            HtpResponseNumber::VALID(s) => s as i32,
        }),
    );
    a("expected status", n(t.response_status_expected_number as i32));
    a("message", rb(&t.response_message));
    a("response message len", len(Some(t.response_message_len)));
    a("response entity len", len(Some(t.response_entity_len)));
    a("response content length", len(t.response_content_length));
    a("response content type", rb(&t.response_content_type));
    a("flags", n(t.flags));
    a("request progress", n(t.request_progress as i32));
    a("response progress", n(t.response_progress as i32));
    a("cfg", n(false));
    let none = Uri::default();
    let u = t.parsed_uri.as_ref().unwrap_or(&none);
    a("parsed uri", n(t.parsed_uri.is_none()));
    a("scheme", rb(&u.scheme));
    a("username", rb(&u.username));
    a("password", rb(&u.password));
    a("uri hostname", rb(&u.hostname));
    a("uri port", rb(&u.port));
    a("uri port number", n(u.port_number.map_or(-1, |p| p as i32)));
    a("path", rb(&u.path));
    a("query", rb(&u.query));
    a("fragment", rb(&u.fragment));
    rheaders(t, false, &mut v);
    rheaders(t, true, &mut v);
    v
}
fn first_diff(a: &Snap, b: &Snap) -> Option<String> {
    if a == b {
        return None;
    }
    for (x, y) in a.iter().zip(b.iter()) {
        if x != y {
            return Some(format!("C {} {:?}, Rust {} {:?}", x.0, x.1, y.0, y.1));
        }
    }
    Some(format!("{} and {} values", a.len(), b.len()))
}

// ---- callbacks of both kinds -------------------------------------------------------------

/// hook, transaction, its data (None: gap or end marker), length, progress of both sides
type CEv = (H, usize, Option<Vec<u8>>, usize, i32, i32);
#[derive(Default)]
struct CRec {
    ev: Vec<CEv>,
    count: u64,
    fault: Option<Fault>,
    /// the address every extern callback has to be given
    connp: usize,
    bad: Option<String>,
    /// register a per-transaction response body callback at the start of the request
    txhook: bool,
    txbody: Vec<(usize, Option<Vec<u8>>, usize)>,
    ud: bool,
    /// after a close transactions may be flushed and made again
    closed: bool,
}
thread_local! { static CR: RefCell<CRec> = RefCell::new(CRec::default()); }

fn note(e: CEv) -> Option<HtpStatus> {
    CR.with(|r| {
        let mut r = r.borrow_mut();
        if r.ev.len() > 5000 {
            // do not panic here: this may be a C frame
            return Some(HtpStatus::ERROR);
        }
        r.ev.push(e);
        let k = r.count;
        r.count += 1;
        r.fault.filter(|f| f.0 == k).map(|f| f.1.st())
    })
}
fn flag(m: &str) {
    CR.with(|r| {
        let mut r = r.borrow_mut();
        if r.bad.is_none() {
            r.bad = Some(m.into());
        }
    })
}
const COOKIE: usize = 0x5a5a;
unsafe fn ext_common(connp: *const ConnectionParser, t: *mut Transaction, h: H) {
    let want = CR.with(|r| r.borrow().connp);
    if connp as usize != want {
        flag("a C callback was given another parser");
        return;
    }
    if htp_connp_user_data(connp) as usize != COOKIE {
        flag("the parser's user data is not what was stored");
    }
    if t.is_null() {
        flag("a C callback was given no transaction");
        return;
    }
    if CR.with(|r| r.borrow().ud) {
        let k = htp_tx_index(t) as usize;
        let have = htp_tx_get_user_data(t) as usize;
        match h {
            H::REQ_START => {
                if have != 0 {
                    flag("a fresh transaction has user data");
                }
                htp_tx_set_user_data(t, (0x1000 + k) as *mut _);
            }
            H::REQ_COMPLETE => {
                if have != 0x1000 + k && !(have == 0 && CR.with(|r| r.borrow().closed)) {
                    flag("the transaction's user data is not what was stored");
                }
                htp_tx_set_user_data(t, (0x2000 + k) as *mut _);
            }
            H::TX_COMPLETE => {
                // a flushed transaction may not have completed its request
                if have != 0x2000 + k && have != 0x1000 + k && have != 0 {
                    flag("the transaction's user data was not replaced");
                }
            }
            _ => {}
        }
    }
    if h == H::REQ_START && CR.with(|r| r.borrow().txhook) {
        htp_tx_register_response_body_data(t, ext_txbody);
    }
}
unsafe extern "C" fn ext_txbody(_c: *const ConnectionParser, d: *mut Data) -> HtpStatus {
    let t = htp_tx_data_tx(d);
    let (b, l) = data_of(d);
    CR.with(|r| r.borrow_mut().txbody.push((htp_tx_index(t) as usize, b, l)));
    HtpStatus::OK
}
fn rust_txbody(t: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
    CR.with(|r| r.borrow_mut().txbody.push((t.index, d.data().map(|b| b.to_vec()), d.len())));
    Ok(())
}
unsafe fn data_of(d: *const Data) -> (Option<Vec<u8>>, usize) {
    let (p, l) = (htp_tx_data_data(d), htp_tx_data_len(d));
    if htp_tx_data_is_empty(d) != (l == 0) {
        flag("htp_tx_data_is_empty and htp_tx_data_len disagree");
    }
    if l < 0 {
        flag("negative data length");
        return (None, 0);
    }
    if p.is_null() {
        (None, l as usize)
    } else {
        (Some(std::slice::from_raw_parts(p, l as usize).to_vec()), l as usize)
    }
}
macro_rules! hooks {
    (tx: $($h:ident $f:ident $g:ident),*; data: $($dh:ident $df:ident $dg:ident),*) => {
        $(unsafe extern "C" fn $f(c: *const ConnectionParser, t: *mut Transaction) -> HtpStatus {
            ext_common(c, t, H::$h);
            note((H::$h, htp_tx_index(t) as usize, None, 0, htp_tx_request_progress(t) as i32, htp_tx_response_progress(t) as i32)).unwrap_or(HtpStatus::OK)
        }
        fn $g(t: &mut Transaction) -> Result<(), HtpStatus> {
            if H::$h == H::REQ_START && CR.with(|r| r.borrow().txhook) {
                t.hook_response_body_data.register(rust_txbody);
            }
            note((H::$h, t.index, None, 0, t.request_progress as i32, t.response_progress as i32)).map_or(Ok(()), Err)
        })*
        $(unsafe extern "C" fn $df(c: *const ConnectionParser, d: *mut Data) -> HtpStatus {
            let t = htp_tx_data_tx(d) as *mut Transaction;
            ext_common(c, t, H::$dh);
            let (b, l) = data_of(d);
            note((H::$dh, htp_tx_index(t) as usize, b, l, htp_tx_request_progress(t) as i32, htp_tx_response_progress(t) as i32)).unwrap_or(HtpStatus::OK)
        }
        fn $dg(t: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
            note((H::$dh, t.index, d.data().map(|b| b.to_vec()), d.len(), t.request_progress as i32, t.response_progress as i32)).map_or(Ok(()), Err)
        })*
    };
}
hooks!(tx: REQ_START e0 r0, REQ_LINE e1 r1, REQ_HEADERS e2 r2, REQ_TRAILER e3 r3, REQ_COMPLETE e4 r4, RESP_START e5 r5,
           RESP_HEADERS e6 r6, RESP_TRAILER e7 r7, RESP_COMPLETE e8 r8, TX_COMPLETE e9 r9;
       data: REQ_HEADER_DATA d0 s0, REQ_BODY_DATA d1 s1, REQ_TRAILER_DATA d2 s2, RESP_HEADER_DATA d3 s3, RESP_BODY_DATA d4 s4, RESP_TRAILER_DATA d5 s5);

unsafe fn hook_c(c: *mut Config) {
    htp_config_register_request_start(c, e0);
    htp_config_register_request_line(c, e1);
    htp_config_register_request_headers(c, e2);
    htp_config_register_request_trailer(c, e3);
    htp_config_register_request_complete(c, e4);
    htp_config_register_response_start(c, e5);
    htp_config_register_response_headers(c, e6);
    htp_config_register_response_trailer(c, e7);
    htp_config_register_response_complete(c, e8);
    htp_config_register_transaction_complete(c, e9);
    htp_config_register_request_header_data(c, d0);
    htp_config_register_request_body_data(c, d1);
    htp_config_register_request_trailer_data(c, d2);
    htp_config_register_response_header_data(c, d3);
    htp_config_register_response_body_data(c, d4);
    htp_config_register_response_trailer_data(c, d5);
}
fn hook_rust(c: &mut Config) {
    c.hook_request_start.register(r0);
    c.hook_request_line.register(r1);
    c.hook_request_headers.register(r2);
    c.hook_request_trailer.register(r3);
    c.hook_request_complete.register(r4);
    c.hook_response_start.register(r5);
    c.hook_response_headers.register(r6);
    c.hook_response_trailer.register(r7);
    c.hook_response_complete.register(r8);
    c.hook_transaction_complete.register(r9);
    c.hook_request_header_data.register(s0);
    c.hook_request_body_data.register(s1);
    c.hook_request_trailer_data.register(s2);
    c.hook_response_header_data.register(s3);
    c.hook_response_body_data.register(s4);
    c.hook_response_trailer_data.register(s5);
}

// ---- configurations ----------------------------------------------------------------------

type Setter = (&'static str, &'static [i64], fn(&mut Config, i64), fn(*mut Config, i64));
const ON: &[i64] = &[0, 1];
const PERS: [HtpServerPersonality; 10] = [
    HtpServerPersonality::MINIMAL,
    HtpServerPersonality::GENERIC,
    HtpServerPersonality::IDS,
    HtpServerPersonality::IIS_4_0,
    HtpServerPersonality::IIS_5_0,
    HtpServerPersonality::IIS_5_1,
    HtpServerPersonality::IIS_6_0,
    HtpServerPersonality::IIS_7_0,
    HtpServerPersonality::IIS_7_5,
    HtpServerPersonality::APACHE_2,
];
const INV: [HtpUrlEncodingHandling; 3] =
    [HtpUrlEncodingHandling::PRESERVE_PERCENT, HtpUrlEncodingHandling::REMOVE_PERCENT, HtpUrlEncodingHandling::PROCESS_INVALID];
const SETTERS: &[Setter] = &[
    ("server_personality", &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], |c, v| drop(c.set_server_personality(PERS[v as usize])), |c, v| {
        let want = match Config::default().set_server_personality(PERS[v as usize]) {
            Ok(()) => HtpStatus::OK,
            Err(e) => e,
        };
        if unsafe { htp_config_set_server_personality(c, PERS[v as usize]) } != want {
            flag("htp_config_set_server_personality gave another status");
        }
    }),
    ("backslash_convert_slashes", ON, |c, v| c.set_backslash_convert_slashes(v == 1), |c, v| unsafe { htp_config_set_backslash_convert_slashes(c, v as i32) }),
    ("bestfit_replacement_byte", &[0, 63, 255], |c, v| c.set_bestfit_replacement_byte(v as u8), |c, v| unsafe { htp_config_set_bestfit_replacement_byte(c, v as i32) }),
    ("compression_bomb_limit", &[1, 100, 1 << 20], |c, v| c.compression_options.set_bomb_limit(v as u64), |c, v| unsafe { htp_config_set_compression_bomb_limit(c, v as usize) }),
    ("convert_lowercase", ON, |c, v| c.set_convert_lowercase(v == 1), |c, v| unsafe { htp_config_set_convert_lowercase(c, v as i32) }),
    ("field_limit", &[1, 16, 30, 1000], |c, v| c.set_field_limit(v as usize), |c, v| unsafe { htp_config_set_field_limit(c, v as usize) }),
    ("lzma_memlimit", &[1, 1 << 20], |c, v| c.compression_options.set_lzma_memlimit(v as usize), |c, v| unsafe { htp_config_set_lzma_memlimit(c, v as usize) }),
    ("lzma_layers", &[-1, 0, 1, 2], |c, v| c.compression_options.set_lzma_layers(if v <= 0 { None } else { Some(v as u32) }), |c, v| unsafe { htp_config_set_lzma_layers(c, v as i32) }),
    ("max_tx", &[1, 2, 512], |c, v| c.max_tx = v as u32, |c, v| unsafe { htp_config_set_max_tx(c, v as u32) }),
    ("nul_encoded_terminates", ON, |c, v| c.set_nul_encoded_terminates(v == 1), |c, v| unsafe { htp_config_set_nul_encoded_terminates(c, v as i32) }),
    ("nul_raw_terminates", ON, |c, v| c.set_nul_raw_terminates(v == 1), |c, v| unsafe { htp_config_set_nul_raw_terminates(c, v as i32) }),
    ("parse_request_cookies", ON, |_, _| {}, |c, v| unsafe { htp_config_set_parse_request_cookies(c, v as i32) }),
    ("path_separators_compress", ON, |c, v| c.set_path_separators_compress(v == 1), |c, v| unsafe { htp_config_set_path_separators_compress(c, v as i32) }),
    ("plusspace_decode", ON, |c, v| c.set_plusspace_decode(v == 1), |c, v| unsafe { htp_config_set_plusspace_decode(c, v as i32) }),
    ("path_separators_decode", ON, |c, v| c.set_path_separators_decode(v == 1), |c, v| unsafe { htp_config_set_path_separators_decode(c, v as i32) }),
    ("request_decompression", ON, |c, v| c.set_request_decompression(v == 1), |c, v| unsafe { htp_config_set_request_decompression(c, v as i32) }),
    ("decompression_layer_limit", &[-1, 0, 1, 2, 3], |c, v| c.set_decompression_layer_limit(if v <= 0 { None } else { Some(v as u32) }), |c, v| unsafe { htp_config_set_decompression_layer_limit(c, v as i32) }),
    ("allow_space_uri", ON, |c, v| c.set_allow_space_uri(v == 1), |c, v| unsafe { htp_config_set_allow_space_uri(c, v == 1) }),
    ("u_encoding_decode", ON, |c, v| c.set_u_encoding_decode(v == 1), |c, v| unsafe { htp_config_set_u_encoding_decode(c, v as i32) }),
    ("url_encoding_invalid_handling", &[0, 1, 2], |c, v| c.set_url_encoding_invalid_handling(INV[v as usize]), |c, v| unsafe { htp_config_set_url_encoding_invalid_handling(c, INV[v as usize]) }),
    ("utf8_convert_bestfit", ON, |c, v| c.set_utf8_convert_bestfit(v == 1), |c, v| unsafe { htp_config_set_utf8_convert_bestfit(c, v as i32) }),
    ("double_decode_normalized_query", ON, |c, v| c.set_double_decode_normalized_query(v == 1), |c, v| unsafe { htp_config_set_double_decode_normalized_query(c, v == 1) }),
    ("double_decode_normalized_path", ON, |c, v| c.set_double_decode_normalized_path(v == 1), |c, v| unsafe { htp_config_set_double_decode_normalized_path(c, v == 1) }),
    ("normalized_uri_include_all", ON, |c, v| c.set_normalized_uri_include_all(v == 1), |c, v| unsafe { htp_config_set_normalized_uri_include_all(c, v == 1) }),
    ("tx_auto_destroy", ON, |c, v| c.set_tx_auto_destroy(v == 1), |c, v| unsafe { htp_config_set_tx_auto_destroy(c, v as i32) }),
    ("flush_incomplete", ON, |c, v| c.set_flush_incomplete(v == 1), |c, v| unsafe { htp_config_set_flush_incomplete(c, v as i32) }),
    ("parse_urlencoded", ON, |c, v| c.set_parse_urlencoded(v == 1), |c, v| unsafe { htp_config_set_parse_urlencoded(c, v as i32) }),
];

/// A configuration: setters with their values, in order.
pub type Cfg = Vec<(usize, i64)>;
fn cfg_text(c: &[(usize, i64)]) -> String {
    c.iter().map(|(k, v)| format!("{}={}", SETTERS[*k].0, v)).collect::<Vec<_>>().join(",")
}
fn set(name: &str, v: i64) -> (usize, i64) {
    (SETTERS.iter().position(|s| s.0 == name).unwrap(), v)
}

// ---- one history through both ------------------------------------------------------------

/// Calls of a history, besides those of `hist`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    A(A),
    /// destroy transaction i if it is complete
    Destroy(usize),
    ReqTx,
    RespTx,
}
fn text(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::A(a) => a.text(),
            o => format!("{:?}", o),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

#[derive(Default, PartialEq, Debug, Clone)]
struct Out {
    steps: Vec<(i64, i64, i64, i64)>,
    ev: Vec<CEv>,
    txbody: Vec<(usize, Option<Vec<u8>>, usize)>,
    txs: Vec<Option<Snap>>,
    counters: (u64, u64),
    logs: Vec<(i64, Vec<u8>, Vec<u8>)>,
}
#[derive(Clone, Copy, Default)]
pub struct Opt {
    pub fault: Option<Fault>,
    pub txhook: bool,
    pub ud: bool,
    /// no hooks and no configuration object at all
    pub nocfg: bool,
    /// two callbacks on every hook
    pub twice: bool,
}
fn crec(o: &Opt) {
    CR.with(|r| *r.borrow_mut() = CRec { fault: o.fault, txhook: o.txhook, ud: o.ud, ..Default::default() })
}
fn crec_out(out: &mut Out) -> Option<String> {
    CR.with(|r| {
        let mut r = r.borrow_mut();
        out.ev = std::mem::take(&mut r.ev);
        out.txbody = std::mem::take(&mut r.txbody);
        r.bad.take()
    })
}
fn complete(t: &Transaction) -> bool {
    t.request_progress == HtpRequestProgress::COMPLETE && t.response_progress == HtpResponseProgress::COMPLETE
}

fn run_rust(cfg: &Cfg, ops: &[Op], o: &Opt) -> Out {
    crec(o);
    let mut c = Config::default();
    if !o.nocfg {
        c.compression_options.set_time_limit(u32::MAX);
        hook_rust(&mut c);
        if o.twice {
            hook_rust(&mut c);
        }
        for (k, v) in cfg {
            (SETTERS[*k].2)(&mut c, *v);
        }
    }
    let mut p = Box::new(ConnectionParser::new(c));
    p.open(Some("1.2.3.4".parse().unwrap()), Some(1024), Some("::1".parse().unwrap()), Some(80), None);
    let mut out = Out::default();
    for op in ops {
        let mut r: i64 = -7;
        match op {
            Op::A(A::Q(b)) => r = p.request_data(ParserData::from(*b), None) as i64,
            Op::A(A::S(b)) => r = p.response_data(ParserData::from(*b), None) as i64,
            Op::A(A::QG(k)) => r = p.request_data(ParserData::from(*k), None) as i64,
            Op::A(A::SG(k)) => r = p.response_data(ParserData::from(*k), None) as i64,
            Op::A(A::QClose) => p.request_close(None),
            Op::A(A::Close) => p.close(None),
            Op::A(A::Open) => p.open(None, None, None, None, None),
            Op::Destroy(i) => {
                if p.tx(*i).map_or(false, complete) {
                    r = 1;
                    p.remove_tx(*i);
                }
            }
            Op::ReqTx => r = p.request().map_or(-1, |t| t.index as i64),
            Op::RespTx => r = p.response().map_or(-1, |t| t.index as i64),
        }
        out.steps.push((r, p.request_data_consumed() as i64, p.response_data_consumed() as i64, p.tx_size() as i64));
    }
    let all = cfg.iter().rev().find(|s| SETTERS[s.0].0 == "normalized_uri_include_all").map_or(false, |s| s.1 == 1);
    for i in 0..p.tx_size() + 1 {
        out.txs.push(p.tx(i).filter(|t| t.is_started()).map(|t| via_rust(t, all)));
    }
    out.counters = (p.conn.request_data_counter, p.conn.response_data_counter);
    out.logs = p.conn.get_logs().iter().map(|l| (l.msg.code as i64, l.msg.msg.clone().into_bytes(), l.msg.file.clone().into_bytes())).collect();
    drop(p);
    crec_out(&mut out);
    out
}

unsafe fn cs(p: *mut libc::c_char) -> Vec<u8> {
    if p.is_null() {
        return b"(null)".to_vec();
    }
    let v = CStr::from_ptr(p).to_bytes().to_vec();
    htp_free_cstring(p);
    v
}

unsafe fn run_c(cfg: &Cfg, ops: &[Op], o: &Opt) -> Result<Out, String> {
    crec(o);
    let c = if o.nocfg { null_mut() } else { htp_config_create() };
    if !o.nocfg {
        htp_config_set_compression_time_limit(c, u32::MAX);
        hook_c(c);
        if o.twice {
            hook_c(c);
        }
        for (k, v) in cfg {
            (SETTERS[*k].3)(c, *v);
        }
    }
    let p = htp_connp_create(c);
    if p.is_null() {
        return Err("htp_connp_create returned NULL".into());
    }
    // the parser has its own copy of the configuration
    if !o.nocfg {
        htp_config_set_field_limit(c, 1);
        htp_config_set_max_tx(c, 1);
        htp_config_set_tx_auto_destroy(c, 1);
        htp_config_destroy(c);
    }
    CR.with(|r| r.borrow_mut().connp = p as usize);
    if !htp_connp_user_data(p).is_null() {
        flag("a fresh parser has user data");
    }
    htp_connp_set_user_data(p, 7 as *mut _);
    htp_connp_set_user_data(p, COOKIE as *mut _);
    let (ca, sa) = (CString::new("1.2.3.4").unwrap(), CString::new("::1").unwrap());
    htp_connp_open(p, ca.as_ptr(), 1024, sa.as_ptr(), 80, null());
    let mut out = Out::default();
    for op in ops {
        let mut r: i64 = -7;
        match op {
            // an empty chunk has some address in one case and none in the other
            Op::A(A::Q(b)) => r = htp_connp_request_data(p, null(), b.as_ptr() as *const _, b.len()) as i64,
            Op::A(A::S(b)) => r = htp_connp_response_data(p, null(), if b.is_empty() { null() } else { b.as_ptr() as *const _ }, b.len()) as i64,
            Op::A(A::QG(k)) => r = htp_connp_request_data(p, null(), null(), *k) as i64,
            Op::A(A::SG(k)) => r = htp_connp_response_data(p, null(), null(), *k) as i64,
            Op::A(A::QClose) => htp_connp_request_close(p, null()),
            Op::A(A::Close) => {
                CR.with(|r| r.borrow_mut().closed = true);
                htp_connp_close(p, null())
            }
            Op::A(A::Open) => htp_connp_open(p, null(), -1, null(), -1, null()),
            Op::Destroy(i) => {
                let t = htp_connp_tx(p, *i);
                if !t.is_null() && htp_tx_request_progress(t) == HtpRequestProgress::COMPLETE && htp_tx_response_progress(t) == HtpResponseProgress::COMPLETE {
                    r = 1;
                    htp_tx_destroy(p, t);
                }
            }
            Op::ReqTx => r = htp_tx_index(htp_connp_get_request_tx(p)) as i64,
            Op::RespTx => r = htp_tx_index(htp_connp_get_response_tx(p)) as i64,
        }
        out.steps.push((r, htp_connp_request_data_consumed(p), htp_connp_response_data_consumed(p), htp_connp_tx_size(p) as i64));
    }
    let size = htp_connp_tx_size(p).max(0) as usize;
    for i in 0..size + 1 {
        let t = htp_connp_tx(p, i);
        out.txs.push(if t.is_null() { None } else { Some(via_c(t)) });
    }
    let conn = htp_connp_connection(p);
    if conn.is_null() {
        return Err("no connection".into());
    }
    out.counters = (htp_conn_request_data_counter(conn), htp_conn_response_data_counter(conn));
    loop {
        let l = htp_conn_next_log(conn);
        if l.is_null() {
            break;
        }
        out.logs.push((htp_log_code(l) as i64, cs(htp_log_message(l)), cs(htp_log_file(l))));
        htp_log_free(l);
        if out.logs.len() > 1000 {
            break;
        }
    }
    if htp_connp_user_data(p) as usize != COOKIE {
        flag("the parser's user data changed");
    }
    htp_connp_destroy_all(p);
    match crec_out(&mut out) {
        Some(m) => Err(m),
        None => Ok(out),
    }
}

pub fn both(cfg: &Cfg, ops: &[Op], o: &Opt) -> Result<(), String> {
    let r = run_rust(cfg, ops, o);
    let c = unsafe { run_c(cfg, ops, o) }?;
    transitions(2 * ops.len() as u64);
    outcome(h64(&(&r.steps, &r.ev, &r.counters)));
    if c == r {
        return Ok(());
    }
    for (i, (x, y)) in c.steps.iter().zip(&r.steps).enumerate() {
        if x != y {
            return Err(format!("call {}: C (result, consumed, consumed, size) {:?}, Rust {:?}", i, x, y));
        }
    }
    if c.ev != r.ev {
        let i = (0..c.ev.len().max(r.ev.len())).find(|&i| c.ev.get(i) != r.ev.get(i)).unwrap();
        return Err(format!("callback {}: C {:?}, Rust {:?}", i, c.ev.get(i), r.ev.get(i)));
    }
    if c.txbody != r.txbody {
        return Err(format!("transaction body callbacks: C {:?}, Rust {:?}", c.txbody, r.txbody));
    }
    if c.counters != r.counters {
        return Err(format!("counters: C {:?}, Rust {:?}", c.counters, r.counters));
    }
    if c.logs != r.logs {
        return Err(format!("logs: C {:?}, Rust {:?}", c.logs, r.logs));
    }
    for (i, (x, y)) in c.txs.iter().zip(&r.txs).enumerate() {
        match (x, y) {
            (Some(x), Some(y)) => {
                if let Some(d) = first_diff(x, y) {
                    return Err(format!("transaction {}: {}", i, d));
                }
            }
            (None, None) => {}
            _ => return Err(format!("transaction {}: C {}, Rust {}", i, x.is_some(), y.is_some())),
        }
    }
    Err("different".into())
}

// ---- what the other parts run on ---------------------------------------------------------

/// Exchanges that make every setting and every getter matter.
fn probes() -> Vec<Vec<Op>> {
    use crate::c12::{encode, Enc};
    fn leak(v: Vec<u8>) -> &'static [u8] {
        Box::leak(v.into_boxed_slice())
    }
    let q = |b: &[u8]| Op::A(A::Q(leak(b.to_vec())));
    let s = |b: &[u8]| Op::A(A::S(leak(b.to_vec())));
    let ok = b"HTTP/1.1 200 OK\r\nContent-Type: Text/HTML; a=b\r\nContent-Length: 2\r\n\r\nok";
    let cat = |h: &[u8], b: &[u8]| [h, format!("Content-Length: {}\r\n\r\n", b.len()).as_bytes(), b].concat();
    let text = b"some text to be compressed, some text to be compressed".repeat(40);
    let z = encode(Enc::Gzip(0), 6, &text);
    let zz = encode(Enc::Gzip(0), 6, &z);
    let zzz = encode(Enc::Gzip(0), 6, &zz);
    let lz = encode(Enc::Lzma, 6, &text);
    let get = b"GET / HTTP/1.1\r\nHost: h\r\n\r\n";
    vec![
        vec![q(b"GET http://User:pw@Host.EXAMPLE.com:8080/A%2fb\\C//d/../%41%zz%u0041%c0%af%00x?q=%2541+1&p=%u0042%00#fr HTTP/1.1\r\nHost: other:81\r\nAuthorization: Basic dTpw\r\nA: 1\r\na: 2\r\n\r\n"), s(ok), Op::A(A::Close)],
        vec![q(b"GET /a%5cb%252f%25%u002f\xc3\xa9\xe2\x82\xac\0d?%2541=%zz HTTP/1.1\r\nHost: h\r\n\r\n"), s(ok)],
        vec![q(b"GET /a b c HTTP/1.0\r\nH\0ost: h\r\nno colon\r\n: empty\r\nfold: 1\r\n 2\r\n\r\n"), s(b"HTTP/1.0 404 Not Found\r\n\r\nbody"), Op::A(A::Close)],
        vec![q(b" GET / HTTP/1.1\r\nHost: h:99999\r\n\r\n"), s(b"HTTP/1.1 abc\r\nContent-Length: 0\r\n\r\n")],
        vec![q(b"GET /\r\n"), s(b"plain"), Op::A(A::Close)],
        vec![q(&cat(b"POST /p?a=1&b=2 HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\n", b"x=1&y=%41+2")), s(ok)],
        vec![q(&cat(b"POST / HTTP/1.1\r\nHost: h\r\nContent-Encoding: gzip\r\n", &z)), s(&cat(b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\n", &z))],
        vec![q(get), s(&cat(b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip, gzip\r\n", &zz))],
        vec![q(get), s(&cat(b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip, gzip, gzip\r\n", &zzz))],
        vec![q(get), s(&cat(b"HTTP/1.1 200 OK\r\nContent-Encoding: deflate\r\n", &encode(Enc::Raw, 6, &text)))],
        vec![q(get), s(&cat(b"HTTP/1.1 200 OK\r\nContent-Encoding: lzma\r\n", &lz))],
        vec![q(b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\nTr: ailer\r\n\r\n"), s(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2;x\r\nok\r\n0\r\nT: r\r\n\r\n")],
        vec![q(get), q(get), q(get), s(ok), s(ok), s(ok), Op::Destroy(0), Op::ReqTx, Op::RespTx],
        vec![q(b"GET / HTTP/1.1\r\nUpgrade: h2c\r\n\r\n"), s(b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: h2c\r\n\r\n"), q(b"PRI"), s(b"xx")],
        vec![q(b"CONNECT h:443 HTTP/1.1\r\nHost: h:443\r\n\r\n"), s(b"HTTP/1.1 200 OK\r\n\r\n"), q(b"\x16\x03"), s(b"\x16\x03")],
        vec![q(b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 10\r\n\r\nab"), Op::A(A::QG(5)), q(b"xyz"), s(b"HTTP/1.1 200 OK\r\nContent-Length: 9\r\n\r\n"), Op::A(A::SG(9))],
        vec![q(b"GET / HTTP/1.1\r\nHost: h\r\nLong: 0123456789012345678901234567890123456789"), q(b"\r\n\r\n"), s(b"HTTP/1.1 200 OK\r\nContent-Len"), Op::A(A::Close)],
        vec![q(b"PUT / HTTP/1.1\r\nContent-Length: 9223372036854775808\r\nAuthorization: Digest username=\"a\"\r\n\r\n"), s(b"HTTP/1.1 200 OK\r\nContent-Length: 9223372036854775808\r\n\r\n")],
        vec![q(b"HEAD / HTTP/1.1\r\nHost: h\r\nAuthorization: Bearer t\r\nCookie: a=b\r\n\r\n"), s(b"HTTP/1.1 304 Not Modified\r\n\r\n"), Op::Destroy(0), Op::Destroy(0), Op::ReqTx],
    ]
}

// ---- NULL arguments ----------------------------------------------------------------------

unsafe fn nulls(k: usize) -> Option<(&'static str, bool)> {
    let (np, nm, t): (*const ConnectionParser, *mut ConnectionParser, *const Transaction) = (null(), null_mut(), null());
    let (u, h, hs, d): (*const Uri, *const Header, *const Headers, *const Data) = (null(), null(), null(), null());
    let cfg: *mut Config = null_mut();
    macro_rules! list {
        ($($name:ident : $e:expr),* $(,)?) => {{
            let mut i = 0;
            $(if i == k { let ok: bool = $e; return Some((stringify!($name), ok)); } i += 1;)*
            let _ = i;
            None
        }};
    }
    unsafe extern "C" fn logcb(_l: *mut htp::log::Log) -> HtpStatus {
        HtpStatus::OK
    }
    list! {
        htp_connp_close: { htp_connp_close(nm, null()); true },
        htp_connp_request_close: { htp_connp_request_close(nm, null()); true },
        htp_connp_destroy_all: { htp_connp_destroy_all(nm); true },
        htp_connp_connection: htp_connp_connection(np).is_null(),
        htp_connp_user_data: htp_connp_user_data(np).is_null(),
        htp_connp_set_user_data: { htp_connp_set_user_data(nm, null_mut()); true },
        htp_connp_open: { htp_connp_open(nm, null(), 0, null(), 0, null()); true },
        htp_connp_request_data: htp_connp_request_data(nm, null(), b"x".as_ptr() as *const _, 1) == HtpStreamState::ERROR,
        htp_connp_response_data: htp_connp_response_data(nm, null(), b"x".as_ptr() as *const _, 1) == HtpStreamState::ERROR,
        htp_connp_tx_size: htp_connp_tx_size(np) == -1,
        htp_connp_tx: htp_connp_tx(nm, 0).is_null(),
        htp_connp_get_response_tx: htp_connp_get_response_tx(nm).is_null(),
        htp_connp_get_request_tx: htp_connp_get_request_tx(nm).is_null(),
        htp_connp_request_data_consumed: htp_connp_request_data_consumed(np) == -1,
        htp_connp_response_data_consumed: htp_connp_response_data_consumed(np) == -1,
        htp_conn_request_data_counter: htp_conn_request_data_counter(null()) == 0,
        htp_conn_response_data_counter: htp_conn_response_data_counter(null()) == 0,
        htp_conn_next_log: htp_conn_next_log(null()).is_null(),
        htp_log_message: htp_log_message(null()).is_null(),
        htp_log_file: htp_log_file(null()).is_null(),
        htp_log_code: htp_log_code(null()) == htp::log::HtpLogCode::ERROR,
        htp_log_free: { htp_log_free(null_mut()); true },
        htp_free_cstring: { htp_free_cstring(null_mut()); true },
        htp_tx_destroy: { htp_tx_destroy(nm, t); true },
        htp_tx_destroy_tx: { let p = htp_connp_create(null_mut()); htp_tx_destroy(p, t); htp_connp_destroy_all(p); true },
        htp_tx_normalized_uri: htp_tx_normalized_uri(t).is_null(),
        htp_tx_cfg: htp_tx_cfg(t).is_null(),
        htp_tx_get_user_data: htp_tx_get_user_data(t).is_null(),
        htp_tx_set_user_data: { htp_tx_set_user_data(null_mut(), null_mut()); true },
        htp_tx_request_line: htp_tx_request_line(t).is_null(),
        htp_tx_request_method: htp_tx_request_method(t).is_null(),
        htp_tx_request_method_number: htp_tx_request_method_number(t) == htp::request::HtpMethod::ERROR,
        htp_tx_request_uri: htp_tx_request_uri(t).is_null(),
        htp_tx_request_protocol: htp_tx_request_protocol(t).is_null(),
        htp_tx_request_protocol_number: htp_tx_request_protocol_number(t) == HtpProtocol::ERROR,
        htp_tx_is_protocol_0_9: htp_tx_is_protocol_0_9(t) == 0,
        htp_tx_is_http_2_upgrade: htp_tx_is_http_2_upgrade(t) == 0,
        htp_tx_parsed_uri: htp_tx_parsed_uri(t).is_null(),
        htp_tx_request_headers: htp_tx_request_headers(t).is_null(),
        htp_tx_request_headers_size: htp_tx_request_headers_size(t) == -1,
        htp_tx_request_header: htp_tx_request_header(t, b"a\0".as_ptr() as *const _).is_null(),
        htp_tx_request_header_null: htp_tx_request_header(t, null()).is_null(),
        htp_tx_request_header_index: htp_tx_request_header_index(t, 0).is_null(),
        htp_tx_request_transfer_coding: htp_tx_request_transfer_coding(t) == HtpTransferCoding::ERROR,
        htp_tx_request_content_encoding: htp_tx_request_content_encoding(t) as i32 == htp::decompressors::HtpContentEncoding::ERROR as i32,
        htp_tx_request_content_type: htp_tx_request_content_type(t).is_null(),
        htp_tx_request_content_length: htp_tx_request_content_length(t) == -1,
        htp_tx_request_auth_type: htp_tx_request_auth_type(t) as i32 == HtpAuthType::ERROR as i32,
        htp_tx_request_hostname: htp_tx_request_hostname(t).is_null(),
        htp_tx_request_port_number: htp_tx_request_port_number(t) == -1,
        htp_tx_request_message_len: htp_tx_request_message_len(t) == -1,
        htp_tx_request_entity_len: htp_tx_request_entity_len(t) == -1,
        htp_tx_response_line: htp_tx_response_line(t).is_null(),
        htp_tx_response_protocol: htp_tx_response_protocol(t).is_null(),
        htp_tx_response_protocol_number: htp_tx_response_protocol_number(t) == HtpProtocol::ERROR,
        htp_tx_response_status: htp_tx_response_status(t).is_null(),
        htp_tx_response_status_number: htp_tx_response_status_number(t) == -1,
        htp_tx_response_status_expected_number: htp_tx_response_status_expected_number(t) == -1,
        htp_tx_response_message: htp_tx_response_message(t).is_null(),
        htp_tx_response_headers: htp_tx_response_headers(t).is_null(),
        htp_tx_response_headers_size: htp_tx_response_headers_size(t) == -1,
        htp_tx_response_header: htp_tx_response_header(t, b"a\0".as_ptr() as *const _).is_null(),
        htp_tx_response_header_null: htp_tx_response_header(t, null()).is_null(),
        htp_tx_response_header_index: htp_tx_response_header_index(t, 0).is_null(),
        htp_tx_response_message_len: htp_tx_response_message_len(t) == -1,
        htp_tx_response_entity_len: htp_tx_response_entity_len(t) == -1,
        htp_tx_response_content_length: htp_tx_response_content_length(t) == -1,
        htp_tx_response_content_type: htp_tx_response_content_type(t).is_null(),
        htp_tx_flags: htp_tx_flags(t) == 0,
        htp_tx_request_progress: htp_tx_request_progress(t) == HtpRequestProgress::ERROR,
        htp_tx_response_progress: htp_tx_response_progress(t) == HtpResponseProgress::ERROR,
        htp_tx_index: htp_tx_index(t) == -1,
        htp_tx_register_response_body_data: { htp_tx_register_response_body_data(null_mut(), ext_txbody); true },
        htp_tx_data_tx: htp_tx_data_tx(d).is_null(),
        htp_tx_data_data: htp_tx_data_data(d).is_null(),
        htp_tx_data_len: htp_tx_data_len(d) == -1,
        htp_tx_data_is_empty: htp_tx_data_is_empty(d),
        htp_uri_scheme: htp_uri_scheme(u).is_null(),
        htp_uri_username: htp_uri_username(u).is_null(),
        htp_uri_password: htp_uri_password(u).is_null(),
        htp_uri_hostname: htp_uri_hostname(u).is_null(),
        htp_uri_port: htp_uri_port(u).is_null(),
        htp_uri_port_number: htp_uri_port_number(u) == -1,
        htp_uri_path: htp_uri_path(u).is_null(),
        htp_uri_query: htp_uri_query(u).is_null(),
        htp_uri_fragment: htp_uri_fragment(u).is_null(),
        htp_headers_get: htp_headers_get(hs, b"a\0".as_ptr() as *const _).is_null(),
        htp_headers_get_key: htp_headers_get(&Headers::with_capacity(1), null()).is_null(),
        htp_headers_flags: htp_headers_flags(hs) == 0,
        htp_headers_get_index: htp_headers_get_index(hs, 0).is_null(),
        htp_headers_size: htp_headers_size(hs) == -1,
        htp_header_name: htp_header_name(h).is_null(),
        htp_header_name_ptr: htp_header_name_ptr(h).is_null(),
        htp_header_flags: htp_header_flags(h) == 0,
        htp_header_name_len: htp_header_name_len(h) == -1,
        htp_header_value: htp_header_value(h).is_null(),
        htp_header_value_ptr: htp_header_value_ptr(h).is_null(),
        htp_header_value_len: htp_header_value_len(h) == -1,
        htp_config_destroy: { htp_config_destroy(cfg); true },
        htp_config_register: { hook_c(cfg); htp_config_register_log(cfg, logcb); true },
        htp_config_set: { for s in SETTERS.iter().skip(1) { (s.3)(cfg, s.1[0]); } htp_config_set_compression_time_limit(cfg, 0); true },
        htp_config_set_server_personality: htp_config_set_server_personality(cfg, HtpServerPersonality::IDS) == HtpStatus::ERROR,
        bstr_free: { bstr_free(null_mut()); true },
        bstr_util_strdup_to_c: bstr_util_strdup_to_c(null()).is_null(),
        htp_get_version: CStr::from_ptr(htp_get_version()).to_bytes().starts_with(b"LibHTP v"),
    }
}

// ---- addresses, ports and times ------------------------------------------------------------

const ADDRS: &[Option<&[u8]>] = &[None, Some(b""), Some(b"127.0.0.1"), Some(b"::1"), Some(b"256.0.0.1"), Some(b"junk"), Some(b"\xff"), Some(b"fe80::1:2"), Some(b"1.2.3.4 ")];
const PORTS: &[i32] = &[i32::MIN, -1, 0, 1, 80, 65535, 65536, 65616, i32::MAX];
const SECS: &[i64] = &[0, 1, -1, 1_600_000_000, 253_402_300_799, 253_402_300_800, -377_705_116_800, -377_705_116_801, i64::MAX, i64::MIN];
const USECS: &[i64] = &[0, 1, 999_999, 1_000_000, -1, i64::MAX, i64::MIN];

unsafe fn open(ca: Option<&[u8]>, cp: i32, sa: Option<&[u8]>, sp: i32, ts: Option<(i64, i64)>) -> Result<(), String> {
    let p = htp_connp_create(null_mut());
    let z = |a: Option<&[u8]>| a.map(|a| CString::new(a).unwrap());
    let (c1, s1) = (z(ca), z(sa));
    let t = ts.map(|(s, u)| libc::timeval { tv_sec: s as _, tv_usec: u as _ });
    let tp = t.as_ref().map_or(null(), |t| t as *const _);
    htp_connp_open(p, c1.as_ref().map_or(null(), |c| c.as_ptr()), cp, s1.as_ref().map_or(null(), |c| c.as_ptr()), sp, tp);
    let b = b"GET / HTTP/1.1\r\n\r\n";
    let r1 = htp_connp_request_data(p, tp, b.as_ptr() as *const _, b.len());
    let b2 = b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";
    let r2 = htp_connp_response_data(p, tp, b2.as_ptr() as *const _, b2.len());
    htp_connp_request_close(p, tp);
    htp_connp_close(p, tp);
    let conn = &*htp_connp_connection(p);
    let addr = |a: Option<&[u8]>| a.and_then(|a| std::str::from_utf8(a).ok()).and_then(|a| a.parse::<std::net::IpAddr>().ok());
    let got = (conn.client_addr, conn.client_port, conn.server_addr, conn.server_port);
    let want = (addr(ca), u16::try_from(cp).ok(), addr(sa), u16::try_from(sp).ok());
    let times = (conn.open_timestamp, conn.close_timestamp);
    htp_connp_destroy_all(p);
    if got != want {
        return Err(format!("opened as {:?} instead of {:?}", got, want));
    }
    if (r1, r2) != (HtpStreamState::DATA, HtpStreamState::DATA) {
        return Err(format!("data was refused: {:?} {:?}", r1, r2));
    }
    if let Some((s, u)) = ts {
        let d = time::OffsetDateTime::from_unix_timestamp(s).ok().and_then(|d| d.checked_add(time::Duration::microseconds(u)));
        if let Some(d) = d {
            if times != (d, d) {
                return Err(format!("opened and closed at {:?} instead of {}", times, d));
            }
        }
    }
    Ok(())
}

// ---- strings -------------------------------------------------------------------------------

unsafe fn strings(a: &[u8], b: &[u8]) -> Result<(), String> {
    let x = Bstr::from(a);
    let cb = CString::new(b).unwrap();
    let sign = |o: std::cmp::Ordering| o as i32;
    if bstr_cmp_c(&x, cb.as_ptr()) != sign(a.cmp(b)) {
        return Err(format!("bstr_cmp_c {}", bstr_cmp_c(&x, cb.as_ptr())));
    }
    let l = |s: &[u8]| s.to_ascii_lowercase();
    if bstr_cmp_c_nocase(&x, cb.as_ptr()) != sign(l(a).cmp(&l(b))) {
        return Err(format!("bstr_cmp_c_nocase {}", bstr_cmp_c_nocase(&x, cb.as_ptr())));
    }
    let s = bstr_util_strdup_to_c(&x);
    if s.is_null() {
        return Err("bstr_util_strdup_to_c returned NULL".into());
    }
    let got = CStr::from_ptr(s).to_bytes().to_vec();
    libc::free(s as *mut _);
    let mut want = vec![];
    for c in a {
        if *c == 0 {
            want.extend_from_slice(b"\\0");
        } else {
            want.push(*c);
        }
    }
    if got != want {
        return Err(format!("bstr_util_strdup_to_c gave {}", show(&got)));
    }
    let y = bstr_dup_c(cb.as_ptr());
    let got = std::slice::from_raw_parts(bstr_ptr(y), bstr_len(y)).to_vec();
    let size = bstr_size(y);
    bstr_free(y);
    if got != b || size < b.len() {
        return Err(format!("bstr_dup_c gave {} of size {}", show(&got), size));
    }
    let e = bstr_alloc(a.len());
    let r = (bstr_len(e), bstr_size(e) >= a.len());
    bstr_free(e);
    if r != (0, true) {
        return Err("bstr_alloc".into());
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule("every history of up to the bound of calls under five configurations, every exchange with every callback answering every status, every pair of configuration settings, every function with NULL, address/port/time values and small strings, each through the C functions and the Rust interface. Non-trivial: at least one callback or a value to compare.");
    ctx.assume("the C side and the Rust side are two parsers in one process; the Rust side is judged by the other properties");
    // functions given NULL
    ctx.par(1, |_| "null".into(), |_| {
        let mut k = 0;
        loop {
            begin(&[b"NULL argument", format!("{}", k).as_bytes()]);
            nontrivial();
            match unsafe { nulls(k) } {
                None => break,
                Some((f, ok)) => {
                    outcome(h64(f));
                    if !ok {
                        put(ctx, "null", f.as_bytes(), Ok(Err("wrong answer for a NULL argument".into())));
                    }
                }
            }
            k += 1;
        }
        ctx.note("functions_with_null", k);
    });
    ctx.par(ADDRS.len() * PORTS.len(), |i| format!("open {}", i), |i| {
        let (ca, cp) = (ADDRS[i % ADDRS.len()], PORTS[i / ADDRS.len()]);
        for sa in ADDRS {
            for sp in PORTS {
                let d = format!("{:?} {} {:?} {}", ca, cp, sa, sp);
                begin(&[d.as_bytes()]);
                nontrivial();
                put(ctx, "open", d.as_bytes(), guarded(|| unsafe { open(ca, cp, *sa, *sp, None) }));
            }
        }
        if i == 0 {
            for s in SECS {
                for u in USECS {
                    let d = format!("time {} {}", s, u);
                    begin(&[d.as_bytes()]);
                    nontrivial();
                    put(ctx, "time", d.as_bytes(), guarded(|| unsafe { open(None, 0, None, 0, Some((*s, *u))) }));
                }
            }
        }
    });
    let strs: Vec<Vec<u8>> = {
        let mut all: Vec<Vec<u8>> = vec![vec![]];
        let mut last = all.clone();
        for _ in 0..ctx.pick(3, 4) {
            let mut nx = vec![];
            for l in &last {
                for c in [b'a', b'A', b'b', 0, b'\\', 0x80, 0xff, b'['] {
                    let mut l = l.clone();
                    l.push(c);
                    nx.push(l);
                }
            }
            all.extend(nx.iter().cloned());
            last = nx;
        }
        all
    };
    ctx.par(strs.len(), |i| show(&strs[i]), |i| {
        for b in strs.iter().filter(|b| !b.contains(&0)) {
            begin(&[&strs[i], b]);
            nontrivial();
            put(ctx, "bstr", &[&strs[i][..], b" | ", b].concat(), guarded(|| unsafe { strings(&strs[i], b) }));
        }
    });
    // histories
    let base: Vec<Cfg> = vec![
        vec![],
        vec![set("tx_auto_destroy", 1)],
        vec![set("server_personality", 2), set("request_decompression", 1), set("parse_urlencoded", 1), set("flush_incomplete", 1)],
        vec![set("field_limit", 16), set("max_tx", 2), set("tx_auto_destroy", 1), set("flush_incomplete", 1)],
        vec![set("normalized_uri_include_all", 1), set("max_tx", 2)],
    ];
    let mut ops: Vec<Op> = alphabet().into_iter().map(Op::A).collect();
    ops.extend([Op::Destroy(0), Op::Destroy(1), Op::ReqTx, Op::RespTx]);
    let no = ops.len();
    let go = |kind: &str, cfg: &Cfg, ops: &[Op], o: &Opt| {
        let t = format!("{} [{}]", text(ops), cfg_text(cfg));
        begin(&[t.as_bytes()]);
        nontrivial();
        put(ctx, kind, t.as_bytes(), guarded(|| both(cfg, ops, o)));
    };
    let deep = !ctx.quick();
    ctx.par(base.len() * no * no, |i| format!("history {}", i), |i| {
        let cfg = &base[i % base.len()];
        let (a, b) = (ops[i / base.len() % no], ops[i / base.len() / no]);
        let o = Opt { txhook: true, ud: true, ..Default::default() };
        go("history", cfg, &[a, b], &o);
        for c in &ops {
            go("history", cfg, &[a, b, *c], &o);
            if deep {
                for d in &ops {
                    go("history", cfg, &[a, b, *c, *d], &o);
                }
            }
        }
        if i % 1000 == 5 {
            ctx.sample(text(&[a, b]));
        }
    });
    // probes: every setting and every pair of settings; every callback with every answer
    let pr = probes();
    let all: Vec<(usize, i64)> = SETTERS.iter().enumerate().flat_map(|(k, s)| s.1.iter().map(move |v| (k, *v))).collect();
    ctx.note("settings", all.len());
    ctx.par(all.len(), |i| cfg_text(&[all[i]]), |i| {
        for p in &pr {
            let o = Opt { txhook: true, ud: true, ..Default::default() };
            go("setting", &vec![all[i]], p, &o);
            for b in &all {
                if b.0 != all[i].0 {
                    go("settings", &vec![all[i], *b], p, &o);
                }
            }
        }
    });
    const ST: [S; 6] = [S::Declined, S::Error, S::Stop, S::Data, S::DataOther, S::DataBuffer];
    ctx.par(pr.len() * base.len(), |i| format!("faults {}", i), |i| {
        let (p, cfg) = (&pr[i % pr.len()], &base[i / pr.len()]);
        go("probe", cfg, p, &Opt::default());
        go("no configuration", &vec![], p, &Opt { nocfg: true, ..Default::default() });
        for twice in [false, true] {
            let m = run_rust(cfg, p, &Opt { twice, ..Default::default() }).ev.len() as u64;
            for k in 0..m {
                for s in ST {
                    let o = Opt { fault: Some((k, s)), twice, ..Default::default() };
                    let t = format!("callback {} of {} per hook answers {:?}: {} [{}]", k, 1 + twice as u8, s, text(p), cfg_text(cfg));
                    begin(&[t.as_bytes()]);
                    nontrivial();
                    put(ctx, "answer", t.as_bytes(), guarded(|| both(cfg, p, &o)));
                }
            }
        }
    });
}
