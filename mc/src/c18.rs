//! C18 (start lines), C19 (header fields), C20 (framing of ambiguous messages) and C21 (host and
//! credentials): the interpretation of message heads against independent references.
use crate::c15::strings;
use crate::eng::*;
use crate::rec::*;
use crate::uriref as u;
use htp::transaction::HtpResponseProgress;
use htp::config::{Config, HtpServerPersonality, HtpUnwanted};
use htp::connection_parser::HtpStreamState;
use htp::util::HtpFlags as F;

pub fn ws(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\r' | b'\n' | 0x0b | 0x0c)
}
pub fn trim(mut b: &[u8]) -> &[u8] {
    while b.first().is_some_and(|&c| ws(c)) {
        b = &b[1..];
    }
    while b.last().is_some_and(|&c| ws(c)) {
        b = &b[..b.len() - 1];
    }
    b
}
fn o(b: &OB) -> String {
    match b {
        None => "-".into(),
        Some(b) => format!("[{}]", show(b)),
    }
}
fn eq(what: &str, got: &OB, want: &OB) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {} instead of {}", what, o(got), o(want)))
    }
}
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {:?} instead of {:?}", what, got, want))
    }
}
fn flag(t: &TxSnap, name: &str, f: u64, want: bool) -> Result<(), String> {
    if t.has(f) == want {
        Ok(())
    } else {
        Err(format!("{} is {}set", name, if want { "not " } else { "" }))
    }
}
pub fn put(ctx: &Ctx, kind: &str, input: &[u8], r: Result<Result<(), String>, String>) {
    let m = match r {
        Ok(Ok(())) => return,
        Ok(Err(m)) => m,
        Err(m) => format!("panic {}", m),
    };
    ctx.violation(format!("{}:{}", kind, show(input)), format!("{} on [{}]", m, show(input)), show(input));
}

/// Calls f with every concatenation of up to n tokens (at least one).
pub fn tokens(ctx: &Ctx, toks: &[&[u8]], n: usize, f: impl Fn(&[u8]) + Sync) {
    let k = toks.len();
    ctx.par(k * k, |i| format!("tokens block {}", i), |i| {
        let mut s = toks[i / k].to_vec();
        if i % k == 0 {
            f(&s);
        }
        if n < 2 {
            return;
        }
        s.extend_from_slice(toks[i % k]);
        fn rec(toks: &[&[u8]], left: usize, s: &mut Vec<u8>, f: &impl Fn(&[u8])) {
            f(s);
            if left > 0 {
                let l = s.len();
                for t in toks {
                    s.extend_from_slice(t);
                    rec(toks, left - 1, s, f);
                    s.truncate(l);
                }
            }
        }
        rec(toks, n - 2, &mut s, &f);
    });
}

// ---------------------------------------------------------------- C18

/// The version a protocol text stands for: 9, 100, 101 or -2 (invalid).
pub fn version(p: &[u8]) -> i32 {
    let mut r = trim(p);
    if r.len() < 4 || !r[..4].eq_ignore_ascii_case(b"HTTP") {
        return -2;
    }
    r = trim(&r[4..]);
    if r.first() != Some(&b'/') {
        return -2;
    }
    r = trim(&r[1..]);
    while r.len() > 3 && r[0] == b'0' {
        r = trim(&r[1..]);
    }
    match r {
        b"0.9" => 9,
        b"1.0" => 100,
        b"1.1" => 101,
        _ => -2,
    }
}

pub const KNOWN: [&str; 27] = [
    "GET", "HEAD", "PUT", "POST", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH", "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK",
    "VERSION-CONTROL", "CHECKOUT", "UNCHECKOUT", "CHECKIN", "UPDATE", "LABEL", "REPORT", "MKWORKSPACE", "MKACTIVITY", "BASELINE-CONTROL", "MERGE",
];
pub fn method_number(m: &[u8]) -> String {
    match KNOWN.iter().find(|k| k.as_bytes() == m) {
        Some(k) => k.replace('-', "_"),
        None => if m == b"INVALID" { "INVALID".into() } else { "UNKNOWN".into() },
    }
}

#[derive(Clone, Copy)]
pub struct LineCfg {
    pub space: bool,
    pub unwanted: bool,
    pub apache: bool,
}

pub fn check_reqline(l: LineCfg, c: &Config, line: &[u8], eol: &[u8], lead: usize, bytewise: bool) -> Result<(), String> {
    let mut b = vec![];
    for _ in 0..lead {
        b.extend_from_slice(b"\r\n");
    }
    b.extend_from_slice(line);
    b.extend_from_slice(eol);
    b.extend_from_slice(eol);
    reset();
    let mut p = P::new(c.clone());
    if bytewise {
        for x in b.chunks(1) {
            p.req(x);
        }
    } else {
        p.req(&b);
    }
    transitions(p.calls);
    let t = p.tx(0).ok_or("no transaction")?;
    outcome(h64(&(&t.request_method, &t.request_uri, &t.request_protocol, t.request_protocol_number)));
    same("ignored lines", t.request_ignored_lines, lead as u32)?;
    eq("request line", &t.request_line, &Some(line.to_vec()))?;
    let data = if l.apache { line.split(|&c| c == 0).next().unwrap() } else { line };
    let ms = data.iter().position(|&c| !ws(c)).unwrap_or(data.len());
    let me = ms + data[ms..].iter().position(|&c| ws(c)).unwrap_or(data.len() - ms);
    let method = if l.unwanted { &data[..me] } else { &data[ms..me] };
    eq("method", &t.request_method, &Some(method.to_vec()))?;
    same("method number", t.request_method_number.clone(), method_number(method))?;
    same("expected status", t.response_status_expected.clone(), if l.unwanted && ms > 0 { "CODE_400".into() } else { "IGNORE".to_string() })?;
    let rest = trim(&data[me..]);
    if rest.is_empty() {
        eq("protocol", &t.request_protocol, &None)?;
        return same("protocol number", t.request_protocol_number, 9);
    }
    let find = |f: &dyn Fn(&u8) -> bool| if l.space { rest.iter().rposition(f) } else { rest.iter().position(f) };
    let cut = find(&|c| *c == b' ').or_else(|| find(&|c| ws(*c)));
    let (uri, proto) = match cut {
        Some(k) => (trim(&rest[..k]), trim(&rest[k..])),
        None => (rest, &b""[..]),
    };
    eq("target", &t.request_uri, &Some(uri.to_vec()))?;
    if proto.is_empty() {
        eq("protocol", &t.request_protocol, &None)?;
        same("protocol number", t.request_protocol_number, 9)
    } else {
        eq("protocol", &t.request_protocol, &Some(proto.to_vec()))?;
        same("protocol number", t.request_protocol_number, version(proto))
    }
}

pub fn check_statusline(c: &Config, line: &[u8], eol: &[u8], bytewise: bool, interim: bool) -> Result<(), String> {
    reset();
    let mut p = P::new(c.clone());
    p.req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
    if interim {
        p.resp(b"HTTP/1.0 100 Continue\r\nX: y\r\n\r\n");
    }
    let b = [line, eol, b"Content-Length: 0", eol, eol].concat();
    let mut st = HtpStreamState::OPEN;
    if bytewise {
        for x in b.chunks(1) {
            st = p.resp(x);
        }
    } else {
        st = p.resp(&b);
    }
    transitions(p.calls);
    let t = p.tx(0).ok_or("no transaction")?;
    outcome(h64(&(&t.response_protocol, &t.response_status, &t.response_message, &t.response_status_number)));
    if st != HtpStreamState::DATA {
        return Err(format!("the response stream answers {:?}", st));
    }
    let mut r = line;
    let mut next = || -> (Vec<u8>, bool) {
        while r.first().is_some_and(|&c| ws(c)) {
            r = &r[1..];
        }
        let e = r.iter().position(|&c| ws(c)).unwrap_or(r.len());
        let v = r[..e].to_vec();
        r = &r[e..];
        (v, !r.is_empty())
    };
    let (proto, _) = next();
    let (status, _) = next();
    let message = {
        let s = r.iter().position(|&c| !ws(c)).unwrap_or(r.len());
        r[s..].to_vec()
    };
    eq("protocol", &t.response_protocol, &Some(proto.clone()))?;
    let v = version(&proto);
    same("protocol number", t.response_protocol_number, v)?;
    if status.is_empty() {
        eq("status", &t.response_status, &None)?;
        same("status number", t.response_status_number.as_str(), "INVALID")?;
        return flag(&t, "STATUS_LINE_INVALID", F::STATUS_LINE_INVALID, true);
    }
    eq("status", &t.response_status, &Some(status.clone()))?;
    let n = if status.iter().all(|c| c.is_ascii_digit()) && status.len() < 9 { std::str::from_utf8(&status).unwrap().parse::<u32>().unwrap() } else { 0 };
    let n = if (100..=999).contains(&n) { n } else { 0 };
    let want = if n == 0 { "INVALID".to_string() } else { format!("VALID({})", n) };
    same("status number", t.response_status_number.clone(), want)?;
    eq("message", &t.response_message, &Some(message))?;
    flag(&t, "STATUS_LINE_INVALID", F::STATUS_LINE_INVALID, v == -2 || n == 0)
}

pub fn run_c18(ctx: &mut Ctx) {
    ctx.rule("every concatenation of up to the bound of start-line tokens (methods, targets, versions, statuses, reasons, blanks, tabs, other white space) is sent as a request line (under 12 configurations including every server personality, CRLF or LF, behind 0-2 empty lines, whole and bytewise) or status line; every field is compared with an independent tokenizer. Non-trivial: always.");
    use HtpServerPersonality as S;
    let mut variants = vec![(false, false, S::MINIMAL), (true, false, S::MINIMAL), (false, true, S::MINIMAL), (false, false, S::APACHE_2)];
    for s in [S::GENERIC, S::IDS, S::IIS_4_0, S::IIS_5_0, S::IIS_5_1, S::IIS_6_0, S::IIS_7_0, S::IIS_7_5] {
        variants.push((false, false, s));
    }
    let cfgs: Vec<(LineCfg, Config)> = variants
        .into_iter()
        .map(|(space, unwanted, pers)| {
            let mut c = Config::default();
            if pers != S::MINIMAL {
                let _ = c.set_server_personality(pers);
            }
            c.set_allow_space_uri(space);
            if unwanted {
                c.set_requestline_leading_whitespace_unwanted(HtpUnwanted::CODE_400);
            } else {
                c.set_requestline_leading_whitespace_unwanted(HtpUnwanted::IGNORE);
            }
            c.set_u_encoding_unwanted(HtpUnwanted::IGNORE);
            c.set_url_encoding_invalid_unwanted(HtpUnwanted::IGNORE);
            c.set_control_chars_unwanted(HtpUnwanted::IGNORE);
            c.decoder_cfg.nul_raw_unwanted = HtpUnwanted::IGNORE;
            c.decoder_cfg.nul_encoded_unwanted = HtpUnwanted::IGNORE;
            c.decoder_cfg.path_separators_encoded_unwanted = HtpUnwanted::IGNORE;
            (LineCfg { space, unwanted, apache: pers == S::APACHE_2 }, c)
        })
        .collect();
    let blank = |s: &[u8]| s.iter().all(|&c| ws(c));
    let go = |k: usize, s: &[u8], eol: &[u8], lead: usize, bw: bool| {
        let (l, c) = &cfgs[k];
        // APACHE_2: what is in front of the NUL has to be something
        if blank(s) || (l.apache && (s.first() == Some(&0) || blank(s.split(|&c| c == 0).next().unwrap()))) {
            return;
        }
        begin(&[s]);
        nontrivial();
        put(ctx, &format!("reqline{}", k), s, guarded(|| check_reqline(*l, c, s, eol, lead, bw)));
    };
    let toks: &[&[u8]] = &[b"GET", b"/", b"a", b" ", b"\t", b"\x0b", b"HTTP/1.1", b"HTTP/1.0", b"HTTP", b"\0"];
    tokens(ctx, toks, ctx.pick(6, 7), |s| go(0, s, b"\r\n", 0, false));
    tokens(ctx, toks, ctx.pick(5, 6), |s| {
        for k in 1..4 {
            go(k, s, b"\r\n", 0, false);
        }
        go(0, s, b"\n", 0, false);
    });
    tokens(ctx, toks, ctx.pick(4, 5), |s| {
        for k in 4..cfgs.len() {
            go(k, s, b"\r\n", 0, false);
        }
    });
    // spellings
    let methods: Vec<&str> = KNOWN.iter().copied().chain(["INVALID", "UNKNOWN", "get", "Get", "GETX", "GE", "M-SEARCH", "PUT ", "\u{e9}", "ERROR", "P"]).collect();
    let protos: &[&str] = &[
        "HTTP/1.1", "HTTP/1.0", "HTTP/0.9", "http/1.1", "HtTp/1.0", "HTTP/01.1", "HTTP/001.0", "HTTP /1.1", "HTTP/ 1.1", "HTTP / 1.0", "HTTP/1.2", "HTTP/2.0", "HTTP/1", "HTTP/1.", "HTTP/1.10", "HTTP/1.1x", "XHTTP/1.1",
        "HTTP1.1", "HTTP/1,1", "JUNK", "HTTP/", "HTTP", "HTTP/11.1", "HTTP/-1.1", "HTTPS/1.1", "HTTP/1.1 HTTP/1.0", "HTTP\t/\t1.1",
    ];
    let seps: &[&str] = &[" ", "  ", "\t", " \t", "\t ", "\x0b", "\x0c "];
    let mut lines = vec![];
    for m in &methods {
        for p in protos {
            for s1 in seps {
                for s2 in seps {
                    for lead in ["", " ", "\t "] {
                        for tail in ["", " "] {
                            lines.push(format!("{}{}{}/x{}{}{}", lead, m, s1, s2, p, tail));
                        }
                    }
                }
            }
        }
    }
    ctx.note("spelled request lines", lines.len());
    ctx.par(lines.len(), |i| lines[i].clone(), |i| {
        if i % 9000 == 5 {
            ctx.sample(show(lines[i].as_bytes()));
        }
        let s = lines[i].as_bytes();
        let k = i % 3;
        go(k, s, if i % 2 == 0 { b"\r\n" } else { b"\n" }, i % 3, i % 5 == 0);
        go(0, s, b"\r\n", 0, false);
    });
    // status lines
    let c = Config::default();
    let gos = |s: &[u8], eol: &[u8], bw: bool, interim: bool| {
        let h = trim(s);
        if h.len() < 4 || !h[..4].eq_ignore_ascii_case(b"HTTP") || s.last().is_some_and(|&c| ws(c)) {
            return;
        }
        begin(&[s]);
        nontrivial();
        put(ctx, "statusline", s, guarded(|| check_statusline(&c, s, eol, bw, interim)));
    };
    let toks: &[&[u8]] = &[b"HTTP/1.1", b"HTTP/1.0", b"http", b"/", b"200", b"404", b"9", b"OK", b" ", b"\t", b"Not"];
    tokens(ctx, toks, ctx.pick(6, 7), |s| gos(s, b"\r\n", false, false));
    // the line behind an interim response is read afresh
    tokens(ctx, toks, ctx.pick(5, 6), |s| gos(s, b"\r\n", false, true));
    let mut lines = vec![];
    for p in protos.iter().filter(|p| !p.contains(' ') && !p.contains('\t')) {
        for n in (90..=1010).chain([0, 1, 12, 1234, 65535, 65536, 66000, 99999]) {
            if p != &"HTTP/1.1" && n % 97 != 0 {
                continue;
            }
            for m in ["", "OK", "Not Found", "a:b\tc  d", "200"] {
                lines.push(format!("{} {}{}{}", p, n, if m.is_empty() { "" } else { " " }, m));
            }
        }
    }
    ctx.note("spelled status lines", lines.len());
    ctx.par(lines.len(), |i| lines[i].clone(), |i| {
        let n: u32 = lines[i].split(' ').nth(1).unwrap().parse().unwrap();
        // interim responses start over (C07, C09)
        if n == 100 {
            return;
        }
        gos(lines[i].as_bytes(), b"\r\n", false, false);
        gos(lines[i].as_bytes(), b"\n", i % 7 == 0, false);
        gos(lines[i].as_bytes(), b"\r\n", false, true);
    });
    // a line that is not a status line is passed over if the status line follows it
    let junk: &[&[u8]] = &[b"x", b"junk", b"<html>", b"HTT", b"1 2 3", b" a\tb", b"HTP/1.1 200 OK", b"0", b"\xff\xfe", b"a line of more than sixteen bytes"];
    let rest: &[&[u8]] = &[b"HTTP/1.1 200 OK", b"HTTP/1.0 404 Not Found", b"HTTP/1.1 204 ", b"HTTP/1.1 500"];
    let eols: &[&[u8]] = &[b"\r\n", b"\n"];
    ctx.par(junk.len() * rest.len() * eols.len(), |i| show(junk[i % junk.len()]), |i| {
        let (j, r, e) = (junk[i % junk.len()], rest[i / junk.len() % rest.len()], eols[i / junk.len() / rest.len()]);
        for lead in 0..3usize {
            begin(&[j, r, e, &[lead as u8]]);
            nontrivial();
            put(ctx, "junkline", j, guarded(|| {
                reset();
                let mut p = P::new(cfg_default());
                p.req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
                let body: &[u8] = if r.contains(&b'4') && r.contains(&b' ') && r.windows(3).any(|w| w == b"204") { b"" } else { b"ok" };
                let m = [&e.repeat(lead)[..], j, e, r, e, b"Content-Length: ", if body.is_empty() { b"0" } else { b"2" }, e, b"A: b", e, e, body].concat();
                let st = p.resp(&m);
                transitions(p.calls);
                same("answer", st, HtpStreamState::DATA)?;
                let t = p.tx(0).ok_or("no transaction")?;
                let ev = take_events();
                same("body", show(&crate::rec::body(&ev, H::RESP_BODY_DATA, 0)), show(body))?;
                let num: String = r[9..12].iter().map(|&b| b as char).collect();
                same("status number", t.response_status_number.clone(), format!("VALID({})", num))?;
                same("ignored lines", t.response_ignored_lines as usize, lead + 1)?;
                same("fields", t.response_headers.len(), 2)?;
                same("progress", t.sp, HtpResponseProgress::COMPLETE as u8)
            }));
        }
    });
    // lines with no status line anywhere near are a body without a head, as they were sent
    let lines: &[&[u8]] = &[b"some quite long line of junk", b"another line, longer than sixteen", b"<html><body>text</body></html>", b"1 2 3 4 5 6 7 8 9 10 11 12"];
    let nl = lines.len();
    ctx.par(nl * nl * nl * eols.len(), |i| show(lines[i % nl]), |i| {
        let e = eols[i / nl / nl / nl];
        let m = [lines[i % nl], e, lines[i / nl % nl], e, lines[i / nl / nl % nl], e].concat();
        for cut in 0..3 {
            // the last line may lack its ending, and comes out when the connection closes
            let m = &m[..m.len() - cut * e.len().min(1)];
            begin(&[m]);
            nontrivial();
            put(ctx, "headless", m, guarded(|| {
                reset();
                let mut p = P::new(cfg_default());
                p.req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
                let st = p.resp(m);
                p.close();
                transitions(p.calls);
                same("answer", st, HtpStreamState::DATA)?;
                let t = p.tx(0).ok_or("no transaction")?;
                let ev = take_events();
                same("body", show(&crate::rec::body(&ev, H::RESP_BODY_DATA, 0)), show(m))?;
                same("fields", t.response_headers.len(), 0)?;
                same("progress", t.sp, HtpResponseProgress::COMPLETE as u8)
            }));
        }
    });
}

// ---------------------------------------------------------------- C19

/// A header line of the grammar: its text (the mark ~ stands for the line ending inside a folded
/// field), and what it means.
#[derive(Clone)]
pub struct El {
    pub text: Vec<u8>,
    pub name: Vec<u8>,
    pub value: Vec<u8>,
    pub flags: u64,
}
fn el(text: &str, name: &str, value: &str, flags: u64) -> El {
    El { text: text.into(), name: name.into(), value: value.into(), flags }
}

fn elements(th: bool) -> Vec<El> {
    let mut v = vec![
        el("A: 1", "A", "1", 0),
        el("a:5", "a", "5", 0),
        el("B :2", "B", "2", F::FIELD_INVALID),
        el("C\t : 3", "C", "3", F::FIELD_INVALID),
        el("P\t: 3", "P", "3", F::FIELD_INVALID),
        el("D: \t 4 \t", "D", "4", 0),
        el("E:", "E", "", 0),
        el("e:  ", "e", "", 0),
        el(": x", "", "x", F::FIELD_INVALID),
        el("nocolon", "", "nocolon", F::FIELD_UNPARSEABLE),
        el("no colon either ", "", "no colon either", F::FIELD_UNPARSEABLE),
        el("a b: v", "a b", "v", F::FIELD_INVALID),
        el("x(y): v", "x(y)", "v", F::FIELD_INVALID),
        el("F: v: w :x", "F", "v: w :x", 0),
        el("G:a\tb  c", "G", "a\tb  c", 0),
        el("I: 1~ 2", "I", "1 2", F::FIELD_FOLDED),
        el("J:1~\t2", "J", "1\t2", F::FIELD_FOLDED),
        el("K:~ v", "K", "v", F::FIELD_FOLDED),
        el("L: 1~ 2~ 3", "L", "1 2 3", F::FIELD_FOLDED),
        el("!#$%&'*+-.^_`|~~: t", "!#$%&'*+-.^_`|", "", 1 << 60),
        el("a: ~ 6", "a", "6", F::FIELD_FOLDED),
        el("Content-Disposition: \"q;\"", "Content-Disposition", "\"q;\"", 0),
    ];
    v.retain(|e| e.flags != 1 << 60);
    v.push(El { text: b"H: \xff\x01\x7f".to_vec(), name: b"H".to_vec(), value: b"\xff\x01\x7f".to_vec(), flags: 0 });
    v.push(El { text: b"\xe9: v".to_vec(), name: b"\xe9".to_vec(), value: b"v".to_vec(), flags: F::FIELD_INVALID });
    // names that differ in something else than the case of letters
    v.push(El { text: b"x^y: 1".to_vec(), name: b"x^y".to_vec(), value: b"1".to_vec(), flags: 0 });
    v.push(El { text: b"X_Y: 2".to_vec(), name: b"X_Y".to_vec(), value: b"2".to_vec(), flags: 0 });
    v.push(El { text: b"x\x7fy: 3".to_vec(), name: b"x\x7fy".to_vec(), value: b"3".to_vec(), flags: F::FIELD_INVALID });
    v.push(el("O: 1;~\t2;~ 3", "O", "1;\t2; 3", F::FIELD_FOLDED));
    v.push(El { text: b"N: a\0b".to_vec(), name: b"N".to_vec(), value: b"a\0b".to_vec(), flags: 0 });
    v.push(el("!#$%&'*+-.^_`|: t", "!#$%&'*+-.^_`|", "t", 0));
    v.push(el("none~ more", "", "none more", F::FIELD_UNPARSEABLE | F::FIELD_FOLDED));
    v.push(el("none~\tmore", "", "none\tmore", F::FIELD_UNPARSEABLE | F::FIELD_FOLDED));
    v.push(el("Q: 1~ ~ 2", "Q", "1  2", F::FIELD_FOLDED));
    if th {
        v.push(el("M: 1~  2", "M", "1  2", F::FIELD_FOLDED));
        v.push(el("A: 1~ 2", "A", "1 2", F::FIELD_FOLDED));
        v.push(el("x@y: v", "x@y", "v", F::FIELD_INVALID));
    }
    v
}

const HF: u64 = F::FIELD_INVALID | F::FIELD_UNPARSEABLE | F::FIELD_FOLDED | F::FIELD_REPEATED | F::INVALID_FOLDING;

/// a field that could not be parsed or is wrongly folded may or may not be called invalid as well
fn norm(f: u64) -> u64 {
    if f & (F::FIELD_UNPARSEABLE | F::INVALID_FOLDING) != 0 {
        f & HF & !F::FIELD_INVALID
    } else {
        f & HF
    }
}

/// place: 0 request headers, 1 request trailers, 2 response headers, 3 response trailers
pub fn check_fields(els: &[&El], eols: &[&[u8]], place: usize, bytewise: bool, lead: &[u8]) -> Result<(), String> {
    let mut h = lead.to_vec();
    for (i, e) in els.iter().enumerate() {
        for c in &e.text {
            if *c == b'~' {
                h.extend_from_slice(eols[i]);
            } else {
                h.push(*c);
            }
        }
        h.extend_from_slice(eols[i]);
    }
    h.extend_from_slice(eols[els.len()]);
    let tail: &[u8] = b"GET /next HTTP/1.1\r\nHost: h\r\n\r\n";
    let simple: &[u8] = b"GET / HTTP/1.1\r\nHost: h\r\n\r\n";
    let (q, s): (Vec<u8>, Vec<u8>) = match place {
        0 => ([b"GET / HTTP/1.1\r\n", &h[..], tail].concat(), vec![]),
        1 => ([b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nxy\r\n0\r\n", &h[..], tail].concat(), vec![]),
        2 => (simple.to_vec(), [b"HTTP/1.1 304 OK\r\n", &h[..]].concat()),
        _ => (simple.to_vec(), [b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nxy\r\n0\r\n", &h[..]].concat()),
    };
    reset();
    let mut p = P::new(Config::default());
    let mut st;
    if bytewise {
        st = HtpStreamState::OPEN;
        for x in q.chunks(1) {
            st = p.req(x);
        }
        for x in s.chunks(1) {
            st = p.resp(x);
        }
    } else {
        st = p.req(&q);
        if !s.is_empty() {
            st = p.resp(&s);
        }
    }
    transitions(p.calls);
    if st != HtpStreamState::DATA {
        return Err(format!("the stream answers {:?}", st));
    }
    let t = p.tx(0).ok_or("no transaction")?;
    if place < 2 {
        let n = p.tx(1).ok_or("the next request is missing")?;
        eq("target of the next request", &n.request_uri, &Some(b"/next".to_vec()))?;
    } else if t.sp != 5 {
        return Err(format!("the response is not complete ({})", t.sp));
    }
    // the table that the lines describe
    let mut want: Vec<(Vec<u8>, Vec<u8>, u64)> = vec![];
    let mut txf = 0;
    if place == 1 || place == 3 {
        want.push((b"Transfer-Encoding".to_vec(), b"chunked".to_vec(), 0));
    }
    for e in els {
        txf |= e.flags & (F::FIELD_INVALID | F::FIELD_UNPARSEABLE);
        match want.iter_mut().find(|w| w.0.eq_ignore_ascii_case(&e.name)) {
            Some(w) => {
                w.2 |= F::FIELD_REPEATED;
                w.1.extend_from_slice(b", ");
                w.1.extend_from_slice(&e.value);
            }
            None => want.push((e.name.clone(), e.value.clone(), e.flags)),
        }
    }
    // white space in front of the first name: there is nothing to continue
    if !lead.is_empty() {
        let k = want.len().min((place % 2) as usize);
        want[k].2 |= F::INVALID_FOLDING;
    }
    let got = if place < 2 { &t.request_headers } else { &t.response_headers };
    outcome(h64(got));
    let f = |v: &[HdrSnap]| v.iter().map(|h| format!("{}={}({:x})", show(&h.0), show(&h.1), norm(h.2))).collect::<Vec<_>>().join(" | ");
    let (g, w) = (f(got), f(&want));
    if g != w {
        return Err(format!("header fields are {} instead of {}", g, w));
    }
    let m = F::FIELD_INVALID | F::FIELD_UNPARSEABLE | F::INVALID_FOLDING;
    if !lead.is_empty() {
        txf |= F::INVALID_FOLDING;
    }
    if t.flags & m != txf {
        return Err(format!("transaction field flags are {:x} instead of {:x}", t.flags & m, txf));
    }
    Ok(())
}

pub fn run_c19(ctx: &mut Ctx) {
    ctx.rule("every sequence of up to the bound of header lines (plain, blanks in every place, empty name or value, missing colon, non-token names, folded by blank or tab, repeated in any letter case) with CRLF or LF, as request header, request trailer, response header and response trailer, whole and bytewise; the resulting table and flags are compared with the meaning of the lines. Non-trivial: always.");
    let es = elements(!ctx.quick());
    let n = es.len();
    ctx.note("header lines", n);
    let crlf: &[u8] = b"\r\n";
    let lf: &[u8] = b"\n";
    let led = |els: &[&El], eols: &[&[u8]], place: usize, bw: bool, lead: &[u8]| {
        let mut d: Vec<u8> = [&[b'0' + place as u8], lead].concat();
        for (e, l) in els.iter().zip(eols) {
            d.push(b'|');
            d.extend_from_slice(&e.text);
            d.extend_from_slice(l);
        }
        begin(&[&d]);
        nontrivial();
        put(ctx, "fields", &d, guarded(|| check_fields(els, eols, place, bw, lead)));
    };
    let go = |els: &[&El], eols: &[&[u8]], place: usize, bw: bool| led(els, eols, place, bw, b"");
    ctx.par(n * n * 4, |i| format!("{}", i), |i| {
        let (a, b, place) = (i % n, i / n % n, i / n / n);
        if a == 0 && b == 0 {
            go(&[], &[crlf], place, false);
            if place % 2 == 0 {
                go(&[], &[lf], place, false);
            }
            ctx.sample(show(&es[place * 3].text));
        }
        if b == 0 {
            for l in [crlf, lf] {
                for bw in [false, true] {
                    go(&[&es[a]], &[l, l], place, bw);
                }
            }
        }
        for l in [crlf, lf] {
            for bw in [false, true] {
                go(&[&es[a], &es[b]], &[l; 3], place, bw);
            }
        }
        if !es[a].name.is_empty() {
            for lead in [&b" "[..], b"\t", b" \t", b"   "] {
                for (k, l) in [crlf, lf, crlf, lf].into_iter().enumerate() {
                    led(&[&es[a], &es[b]], &[l; 3], place, k > 1, lead);
                }
            }
        }
        // requests: line endings chosen per line
        if place < 2 {
            for m in 1..7u32 {
                let l: Vec<&[u8]> = (0..3).map(|k| if m >> k & 1 == 1 { lf } else { crlf }).collect();
                go(&[&es[a], &es[b]], &l, place, m % 2 == 0);
            }
        }
        for c in &es {
            for (k, l) in [crlf, lf].into_iter().enumerate() {
                go(&[&es[a], &es[b], c], &[l; 4], place, k == 1 && a % 2 == 0);
            }
            for d in &es {
                go(&[&es[a], &es[b], c, d], &[crlf; 5], place, false);
                if !ctx.quick() {
                    for e in &es {
                        go(&[&es[a], &es[b], c, d, e], &[crlf; 6], place, false);
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C20

/// The value of the first run of digits, if there is one and it fits.
fn clv(v: &[u8]) -> Option<u64> {
    let s = v.iter().position(|c| c.is_ascii_digit())?;
    let mut n: u64 = 0;
    for c in v[s..].iter().take_while(|c| c.is_ascii_digit()) {
        n = n.checked_mul(10)?.checked_add((c - b'0') as u64)?;
    }
    Some(n)
}

struct Framing {
    te: &'static [&'static str],
    cl: &'static [&'static str],
}

pub fn req_framing(te: &[&str], cl: &[&str], order: bool, proto: &str, eol: &str) -> Result<(), String> {
    let mut h = String::new();
    let tes: String = te.iter().map(|v| format!("Transfer-Encoding:{}{}", v, eol)).collect();
    let cls: String = cl.iter().map(|v| format!("Content-Length:{}{}", v.replace('~', eol), eol)).collect();
    h += &format!("POST /1 {}{}", proto, eol);
    if order {
        h += &tes;
        h += &cls;
    } else {
        h += &cls;
        h += &tes;
    }
    h += eol;
    let v11 = proto == "HTTP/1.1";
    let (mut smug, mut bad_te, mut bad_cl) = (false, false, false);
    let chunked = te.iter().any(|v| v.to_ascii_lowercase().contains("chunked"));
    let mut len = None;
    // 1 no body, 2 identity, 3 chunked, 4 invalid
    let coding = if !te.is_empty() {
        if chunked {
            smug = !v11 || !cl.is_empty();
            bad_te = !v11;
            3
        } else {
            bad_te = true;
            4
        }
    } else if let Some(first) = cl.first() {
        smug = cl.len() > 1 || first.contains('~');
        len = clv(first.replace('~', "").as_bytes());
        bad_cl = len.is_none();
        if bad_cl {
            4
        } else {
            2
        }
    } else {
        1
    };
    let mut b = h.into_bytes();
    let body: &[u8] = match (coding, len) {
        (3, _) => b"3\r\nabc\r\n0\r\n\r\n",
        (2, Some(n)) if n <= 16 => &b"0123456789abcdef"[..n as usize],
        _ => b"",
    };
    b.extend_from_slice(body);
    b.extend_from_slice(b"GET /2 HTTP/1.1\r\nHost: h\r\n\r\n");
    reset();
    let mut p = P::new(cfg_default());
    let st = p.req(&b);
    transitions(1);
    let t = p.tx(0).ok_or("no transaction")?;
    outcome(h64(&t));
    same("transfer coding", t.request_transfer_coding, coding)?;
    same("content length", t.request_content_length, len)?;
    flag(&t, "REQUEST_SMUGGLING", F::REQUEST_SMUGGLING, smug)?;
    flag(&t, "REQUEST_INVALID_T_E", F::REQUEST_INVALID_T_E, bad_te)?;
    flag(&t, "REQUEST_INVALID_C_L", F::REQUEST_INVALID_C_L, bad_cl)?;
    flag(&t, "REQUEST_INVALID", F::REQUEST_INVALID, coding == 4)?;
    if coding == 4 {
        return same("stream state", st, HtpStreamState::ERROR);
    }
    same("stream state", st, HtpStreamState::DATA)?;
    if len.unwrap_or(0) > 16 {
        // everything that follows is body
        return same("number of transactions", p.c.tx_size(), 1);
    }
    let n = p.tx(1).ok_or("the next request is missing")?;
    eq("target of the next request", &n.request_uri, &Some(b"/2".to_vec()))?;
    let ev = take_events();
    let want: &[u8] = if coding == 3 { b"abc" } else { body };
    eq("body", &Some(crate::rec::body(&ev, H::REQ_BODY_DATA, 0)), &Some(want.to_vec()))
}

pub fn resp_framing(te: &[&str], cl: &[&str], order: bool, proto: &str, status: u16, method: &str, multi: bool, eol: &str) -> Result<(), String> {
    let mut h = format!("{} {} X{}", proto, status, eol);
    let tes: String = te.iter().map(|v| format!("Transfer-Encoding:{}{}", v, eol)).collect();
    let cls: String = cl.iter().map(|v| format!("Content-Length:{}{}", v.replace('~', eol), eol)).collect();
    if multi {
        h += &format!("Content-Type: Multipart/byteranges; boundary=x{}", eol);
    }
    if order {
        h += &tes;
        h += &cls;
    } else {
        h += &cls;
        h += &tes;
    }
    h += eol;
    let chunked = te.iter().any(|v| v.to_ascii_lowercase().contains("chunked"));
    let nobody = method == "HEAD" || ((status == 204 || status == 304) && te.is_empty() && cl.is_empty());
    let (mut smug, mut len, mut err, mut close) = (false, None, false, false);
    let coding = if nobody {
        1
    } else if chunked {
        smug = !cl.is_empty();
        3
    } else if let Some(first) = cl.first() {
        smug = cl.len() > 1;
        len = clv(first.replace('~', "").as_bytes());
        err = len.is_none();
        2
    } else if multi {
        err = true;
        0
    } else {
        close = true;
        2
    };
    let mut b = h.into_bytes();
    let body: &[u8] = match (coding, len) {
        (3, _) => b"3\r\nabc\r\n0\r\n\r\n",
        (2, Some(n)) if n <= 16 => &b"0123456789abcdef"[..n as usize],
        _ => b"",
    };
    b.extend_from_slice(body);
    let next: &[u8] = b"HTTP/1.1 299 N\r\nContent-Length: 0\r\n\r\n";
    b.extend_from_slice(next);
    reset();
    let mut p = P::new(cfg_default());
    p.req(format!("{} /1 HTTP/1.1\r\nHost: h\r\n\r\nGET /2 HTTP/1.1\r\nHost: h\r\n\r\n", method).as_bytes());
    let st = p.resp(&b);
    transitions(2);
    let t = p.tx(0).ok_or("no transaction")?;
    outcome(h64(&t));
    flag(&t, "REQUEST_SMUGGLING", F::REQUEST_SMUGGLING, smug)?;
    if err {
        return same("stream state", st, HtpStreamState::ERROR);
    }
    same("stream state", st, HtpStreamState::DATA)?;
    same("transfer coding", t.response_transfer_coding, coding)?;
    same("content length", t.response_content_length, len)?;
    let ev = take_events();
    let got = crate::rec::body(&ev, H::RESP_BODY_DATA, 0);
    let n = p.tx(1).ok_or("the next transaction is missing")?;
    if close || len.unwrap_or(0) > 16 {
        eq("body", &Some(got), &Some(next.to_vec()))?;
        return same("progress of the next response", n.sp, 0);
    }
    same("status of the next response", n.response_status_number.as_str(), "VALID(299)")?;
    let want: &[u8] = if coding == 3 { b"abc" } else { body };
    eq("body", &Some(got), &Some(want.to_vec()))
}

pub fn run_c20(ctx: &mut Ctx) {
    ctx.rule("every combination of up to two Transfer-Encoding and two Content-Length fields (valid, invalid, overflowing, folded, in either order) x protocol version x (responses) status x request method x content type, followed by the body that the rules prescribe and by another message; framing, flags, stream state, body bytes and the start of the next message are compared with the rules. Non-trivial: a framing field is present.");
    let fr = Framing {
        te: &["", " ", " chunked", "chunked", " Chunked", " CHUNKED ", " gzip, chunked", " identity", " chunke", " chunked;q=1", "\tchunked"],
        cl: &[
            " 0", " 3", "3", " 03", "  3\t", " 16", " 17", " 4294967299", " 18446744073709551615", " 18446744073709551616", " 99999999999999999999999", "", " ", " abc", " -", "~ 3", " ~\t0", " 3x", " x3", "+3", " 3, 5", " -2;1", " 1 2", " 0x3", " x18446744073709551616y",
        ],
    };
    let mut tes: Vec<Vec<&str>> = vec![vec![]];
    for a in fr.te {
        tes.push(vec![a]);
        for b in fr.te {
            tes.push(vec![a, b]);
        }
    }
    let mut cls: Vec<Vec<&str>> = vec![vec![]];
    for a in fr.cl {
        cls.push(vec![a]);
        for b in fr.cl {
            cls.push(vec![a, b]);
        }
    }
    ctx.note("transfer-encoding lists", tes.len());
    ctx.note("content-length lists", cls.len());
    let n = tes.len();
    ctx.par(n * cls.len(), |i| format!("{}", i), |i| {
        let (te, cl) = (&tes[i % n], &cls[i / n]);
        for order in [true, false] {
            for proto in ["HTTP/1.1", "HTTP/1.0", "HTTP/1.7"] {
                for eol in ["\r\n", "\n"] {
                    // a blank-only folded line is ambiguous in responses with bare LF
                    let d = format!("{:?} {:?} order {} {} {:?}", te, cl, order, proto, eol);
                    let run = |kind: &str, d: String, f: &dyn Fn() -> Result<(), String>| {
                        begin(&[d.as_bytes()]);
                        if te.len() + cl.len() > 0 {
                            nontrivial();
                        }
                        put(ctx, kind, d.as_bytes(), guarded(f));
                    };
                    run("request", format!("request {}", d), &|| req_framing(te, cl, order, proto, eol));
                    if te.len() < 2 || cl.len() < 2 || !ctx.quick() {
                        for status in [200u16, 204, 304] {
                            for method in ["GET", "HEAD"] {
                                for multi in [false, true] {
                                    run("response", format!("response {} {} {} multipart {}", d, method, status, multi), &|| {
                                        resp_framing(te, cl, order, proto, status, method, multi, eol)
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
        if i % 3000 == 1 {
            ctx.sample(format!("{:?} {:?}", te, cl));
        }
    });
}

// ---------------------------------------------------------------- C21

/// host, port text, port number, valid; None: no host at all
fn hostport(v: &[u8]) -> Option<(Vec<u8>, Option<Vec<u8>>, Option<u16>, bool)> {
    let v = trim(v);
    let hl = if v.first() == Some(&b'[') { v.iter().position(|&c| c == b']').map_or(v.len(), |k| k + 1) } else { v.iter().position(|&c| c == b':').unwrap_or(v.len()) };
    if hl == 0 {
        return None;
    }
    let h = v[..hl].to_vec();
    let mut ok = u::valid_host(&h);
    let mut port = None;
    if v.len() > hl {
        if v[hl] == b':' && v.len() > hl + 1 {
            port = Some(v[hl + 1..].to_vec());
        } else {
            ok = false;
        }
    }
    let pn = port.as_ref().and_then(|p| u::port(p));
    if port.is_some() && pn.is_none() {
        ok = false;
    }
    Some((h, port, pn, ok))
}

pub fn check_host(target: &str, uri: Option<(&str, Option<u16>)>, hosts: &[&str], proto: &str) -> Result<(), String> {
    let mut b = format!("GET {} {}\r\n", target, proto);
    for h in hosts {
        b += &format!("Host:{}\r\n", h);
    }
    b += "\r\n";
    reset();
    let mut p = P::new(Config::default());
    let st = p.req(b.as_bytes());
    transitions(1);
    same("stream state", st, HtpStreamState::DATA)?;
    let t = p.tx(0).ok_or("no transaction")?;
    outcome(h64(&t));
    let hv = hosts.iter().map(|h| String::from_utf8_lossy(trim(h.as_bytes())).to_string()).collect::<Vec<_>>().join(", ");
    flag(&t, "HOST_MISSING", F::HOST_MISSING, hosts.is_empty() && proto == "HTTP/1.1")?;
    let hp = if hosts.is_empty() { None } else { hostport(hv.as_bytes()) };
    // a Host field without a host next to a target without one is not considered
    if !hosts.is_empty() && hp.is_none() && uri.is_none() {
        return Ok(());
    }
    let (mut host, mut port) = match uri {
        Some((h, p)) => (Some(h.as_bytes().to_vec()), p),
        None => (None, None),
    };
    let mut amb = false;
    let mut inval = false;
    match (&hp, uri) {
        (Some((h, _, pn, ok)), None) => {
            host = Some(trim(h).to_ascii_lowercase());
            port = *pn;
            inval = !ok;
        }
        (Some((h, p, pn, ok)), Some((uh, up))) => {
            inval = !ok;
            amb = !h.eq_ignore_ascii_case(uh.as_bytes()) || (p.is_some() && up.is_some() && *pn != up);
        }
        (None, Some(_)) => amb = !hosts.is_empty(),
        (None, None) => {}
    }
    eq("request_hostname", &t.hostname, &host)?;
    same("request_port_number", t.port, port)?;
    flag(&t, "HOST_AMBIGUOUS", F::HOST_AMBIGUOUS, amb)?;
    flag(&t, "HOSTH_INVALID", F::HOSTH_INVALID, inval)
}

fn b64(b: &[u8]) -> String {
    base64::encode(b)
}

fn strict_b64(s: &[u8]) -> Option<Vec<u8>> {
    let al = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let p = s.iter().rev().take_while(|&&c| c == b'=').count();
    let d = &s[..s.len() - p];
    // padding is optional to some decoders: only the clear cases are decided here
    let mut bits: u32 = 0;
    let mut nb = 0;
    let mut out = vec![];
    for c in d {
        let v = al.iter().position(|x| x == c)? as u32;
        bits = bits << 6 | v;
        nb += 6;
        if nb >= 8 {
            nb -= 8;
            out.push((bits >> nb) as u8);
            bits &= (1 << nb) - 1;
        }
    }
    Some(out)
}

/// What an Authorization value means: type, user, password, token, invalid. None: not considered.
fn auth(v: &[u8]) -> Option<(u8, OB, OB, OB, bool)> {
    let v = trim(v);
    let low = v.to_ascii_lowercase();
    if low.starts_with(b"basic") {
        let r = trim(&v[5..]);
        let p = r.iter().rev().take_while(|&&c| c == b'=').count();
        let canonical = r.len() % 4 == 0 && p <= 2;
        let dec = strict_b64(r);
        if dec.is_some() && !canonical {
            return None;
        }
        // bits left over in the last character: not considered
        if let Some(d) = &dec {
            if b64(d).as_bytes() != r {
                return None;
            }
        }
        let up = dec.and_then(|d| d.iter().position(|&c| c == b':').map(|k| (d[..k].to_vec(), d[k + 1..].to_vec())));
        return Some(match up {
            Some((a, b)) => (2, Some(a), Some(b), None, false),
            None => (2, None, None, None, true),
        });
    }
    if low.starts_with(b"digest") {
        if v.windows(2).any(|w| w == b"\\\\") {
            return None;
        }
        let k = v.windows(9).position(|w| w == b"username=");
        let name = k.and_then(|k| {
            let mut r = &v[k + 9..];
            while r.first().is_some_and(|&c| ws(c)) {
                r = &r[1..];
            }
            if r.first() != Some(&b'"') {
                return None;
            }
            let mut out = vec![];
            let mut i = 1;
            while i < r.len() {
                if r[i] == b'\\' && r.get(i + 1) == Some(&b'"') {
                    out.push(b'"');
                    i += 2;
                } else if r[i] == b'"' {
                    return Some(out);
                } else {
                    out.push(r[i]);
                    i += 1;
                }
            }
            None
        });
        return Some(match name {
            Some(n) => (3, Some(n), None, None, false),
            None => (3, None, None, None, true),
        });
    }
    if low.starts_with(b"bearer") {
        return Some((4, None, None, Some(trim(&v[6..]).to_vec()), false));
    }
    Some((9, None, None, None, false))
}

pub fn check_auth(c: &Config, v: &[u8], on: bool) -> Result<bool, String> {
    let Some((ty, user, pass, tok, bad)) = auth(v) else { return Ok(false) };
    let b = [b"GET / HTTP/1.1\r\nHost: h\r\nAuthorization: ", v, b"\r\n\r\n"].concat();
    reset();
    let mut p = P::new(c.clone());
    let st = p.req(&b);
    transitions(1);
    same("stream state", st, HtpStreamState::DATA)?;
    let t = p.tx(0).ok_or("no transaction")?;
    outcome(h64(&(t.auth_type, &t.auth_username, &t.auth_password, &t.auth_token, t.flags)));
    if !on {
        flag(&t, "AUTH_INVALID", F::AUTH_INVALID, false)?;
        eq("username", &t.auth_username, &None)?;
        same("authentication type", t.auth_type, 0)?;
        return Ok(true);
    }
    same("authentication type", t.auth_type, ty)?;
    eq("username", &t.auth_username, &user)?;
    eq("password", &t.auth_password, &pass)?;
    eq("token", &t.auth_token, &tok)?;
    flag(&t, "AUTH_INVALID", F::AUTH_INVALID, bad)?;
    Ok(true)
}

pub fn run_c21(ctx: &mut Ctx) {
    ctx.rule("every combination of targets, up to two Host fields and protocol versions; every Authorization value of the bounded grammars; every value up to the bound over a hostile alphabet in every header the parser interprets: host name, port, credentials, content type and flags are compared with the reference and no such value fails the stream. Non-trivial: the reference settles the case.");
    let uris: &[(&str, Option<(&str, Option<u16>)>)] = &[
        ("/", None),
        ("/a?http://h/", None),
        ("http://h/", Some(("h", None))),
        ("http://H.iO./", Some(("h.io", None))),
        ("http://h:81/", Some(("h", Some(81)))),
        ("http://h:bad/", Some(("h", None))),
        ("http://u:p@h:81/x", Some(("h", Some(81)))),
        ("http://[::1]:81/", Some(("[::1]", Some(81)))),
        ("http://%68/", Some(("h", None))),
        ("http://h%00/", Some(("h\0", None))),
    ];
    let hosts: &[&str] = &[
        "", " ", " h", "h", " H", " h.io", " H.IO", " g", " h:81", " H:81", " h:82", " h:0", " h:", " h:x", " h:+81", " h:081", " h:65536", " a..b", " !", " a!b", " .h", " [::1]", " [::1]:81", " [::1]x", " [::g]", " h\t",
        " _a-b", " 1.2.3.4:81", " h:81:82", " :81", " [::1", " a.b.c.d.e:8080", " xn--h", " h:99999999999", " h\0", " \0h", " h\0:81",
    ];
    let mut lists: Vec<Vec<&str>> = vec![vec![]];
    for a in hosts {
        lists.push(vec![a]);
        for b in hosts {
            lists.push(vec![a, b]);
        }
    }
    ctx.note("host field lists", lists.len());
    ctx.par(lists.len(), |i| format!("{:?}", lists[i]), |i| {
        for (t, uh) in uris {
            for proto in ["HTTP/1.1", "HTTP/1.0"] {
                let l = &lists[i];
                // "h, h" with a space inside is read differently by readers: only with an invalid verdict
                if l.len() == 2 && l.iter().any(|h| trim(h.as_bytes()).is_empty() || h.contains('[')) {
                    continue;
                }
                let d = format!("{} {} {:?}", t, proto, l);
                begin(&[d.as_bytes()]);
                nontrivial();
                put(ctx, "host", d.as_bytes(), guarded(|| check_host(t, *uh, l, proto)));
            }
        }
        if i % 200 == 1 {
            ctx.sample(format!("{:?}", lists[i]));
        }
    });
    // lengths around the limits
    ctx.par(1, |_| "long hosts".into(), |_| {
        for n in [1usize, 62, 63, 64, 65, 127] {
            for (tail, k) in [("", 0), (".", 0), (".b", 0), (":81", 0), (".", 3), ("", 3)] {
                let l = "a".repeat(n);
                let h = if k == 0 { format!(" {}{}", l, tail) } else { format!(" {}{}", vec![l.as_str(); k].join("."), tail) };
                let d = format!("/ {}", h);
                begin(&[d.as_bytes()]);
                nontrivial();
                put(ctx, "host", d.as_bytes(), guarded(|| check_host("/", None, &[&h], "HTTP/1.1")));
            }
        }
        for n in 250..260usize {
            // labels of 50 and a rest
            let mut h: String = format!("{}.", "b".repeat(50)).repeat(6);
            h.truncate(n - 2);
            h += "cc";
            for f in [format!(" {}", h), format!(" {}:81", h)] {
                begin(&[f.as_bytes()]);
                nontrivial();
                put(ctx, "host", f.as_bytes(), guarded(|| check_host("/", None, &[&f], "HTTP/1.1")));
            }
        }
    });
    // credentials
    let mut on = Config::default();
    on.parse_request_auth = true;
    let mut off = Config::default();
    off.parse_request_auth = false;
    let goa = |v: &[u8]| {
        begin(&[v]);
        for (c, e) in [(&on, true), (&off, false)] {
            match guarded(|| check_auth(c, v, e)) {
                Ok(Ok(b)) => {
                    if b {
                        nontrivial();
                    }
                }
                Ok(Err(m)) => put(ctx, "auth", v, Ok(Err(m))),
                Err(m) => put(ctx, "auth", v, Err(m)),
            }
        }
    };
    strings(ctx, b"ab:\0\xff\" ", ctx.pick(6, 7), |s| {
        for sch in ["Basic ", "BASIC\t", "basic"] {
            goa(format!("{}{}", sch, b64(s)).as_bytes());
        }
    });
    let toks: &[&[u8]] = &[b"Basic", b"Digest", b"bEArer", b" ", b"dTpw", b"dQ==", b"username=", b"\"", b"\\\"", b"a", b"=", b",", b":"];
    tokens(ctx, toks, ctx.pick(5, 6), |s| goa(s));
    tokens(ctx, &[b"\"", b"\\\"", b"\\", b"u", b" ", b"=", b"username="], ctx.pick(6, 7), |s| goa(&[b"Digest username=", s].concat()));
    // header values that are interpreted somewhere must not fail the stream
    let names: &[&str] = &["Content-Type", "Host", "Authorization", "Content-Encoding", "Expect", "Cookie", "Connection", "Upgrade", "X"];
    let al: &[u8] = b"a/;, \t:=\"[]%\xff\x010";
    let c = cfg_default();
    strings(ctx, al, ctx.pick(4, 5), |s| {
        for n in names {
            begin(&[n.as_bytes(), s]);
            nontrivial();
            let r = guarded(|| -> Result<(), String> {
                reset();
                let mut p = P::new(c.clone());
                let h = [n.as_bytes(), b":", s, b"\r\n"].concat();
                let q = [b"GET / HTTP/1.1\r\n", &h[..], b"\r\nGET /2 HTTP/1.1\r\n\r\n"].concat();
                same("request stream", p.req(&q), HtpStreamState::DATA)?;
                let r = [b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n", &h[..], b"\r\nxyHTTP/1.1 299 K\r\nContent-Length: 0\r\n\r\n"].concat();
                same("response stream", p.resp(&r), HtpStreamState::DATA)?;
                transitions(2);
                let t = p.tx(0).ok_or("no transaction")?;
                let n1 = p.tx(1).ok_or("no second transaction")?;
                outcome(h64(&(&t.request_headers, t.flags)));
                eq("second target", &n1.request_uri, &Some(b"/2".to_vec()))?;
                same("second status", n1.response_status_number.as_str(), "VALID(299)")?;
                if *n == "Content-Type" {
                    // request: up to the first of ; , blank; response: up to ; or white space
                    let v = trim(s);
                    let ct = v.split(|c| b";, ".contains(c)).next().unwrap_or(b"").to_ascii_lowercase();
                    if !ct.is_empty() {
                        eq("request_content_type", &t.request_content_type, &Some(ct))?;
                    }
                    let ct = v.split(|&c| c == b';' || ws(c)).next().unwrap_or(b"").to_ascii_lowercase();
                    eq("response_content_type", &t.response_content_type, &Some(ct))?;
                }
                Ok(())
            });
            put(ctx, &format!("value:{}", n), s, r);
        }
    });
}
