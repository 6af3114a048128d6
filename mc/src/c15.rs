//! C15 (request targets are taken apart at their delimiters), C16 (paths are decoded as
//! configured) and C17 (parameters), against the independent reference of uriref.rs.
use crate::eng::*;
use crate::rec::*;
use crate::uriref as u;
use htp::config::Config;
use htp::util::HtpFlags as F;
use std::cell::RefCell;

pub fn cfg(d: &u::Dc) -> Config {
    let mut c = Config::default();
    d.apply(&mut c);
    c
}

/// One request with this target; the transaction as seen after the head.
fn target(c: &Config, method: &[u8], t: &[u8]) -> Result<TxSnap, String> {
    reset();
    let mut p = P::new(c.clone());
    let mut b = method.to_vec();
    b.push(b' ');
    b.extend_from_slice(t);
    b.extend_from_slice(b" HTTP/1.1\r\nHost: x\r\n\r\n");
    let st = p.req(&b);
    transitions(1);
    let t = p.tx(0).ok_or("no transaction")?;
    if matches!(st, htp::connection_parser::HtpStreamState::ERROR) {
        return Err("the request stream failed".into());
    }
    Ok(t)
}

fn o(b: &OB) -> String {
    match b {
        None => "-".into(),
        Some(b) => format!("[{}]", show(b)),
    }
}
fn eq(what: &str, got: &OB, want: &OB) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {} instead of {}", what, o(got), o(want)))
    }
}

fn check_target(d: &u::Dc, c: &Config, t: &[u8]) -> Result<bool, String> {
    let Some(w) = u::split(t) else { return Ok(false) };
    let x = target(c, b"GET", t)?;
    eq("the request URI", &x.request_uri, &Some(t.to_vec()))?;
    let raw = x.uri_raw.as_ref().ok_or("no raw URI")?;
    let n = x.uri.as_ref().ok_or("no normalized URI")?;
    outcome(h64(&(raw, n, x.flags)));
    eq("raw scheme", &raw.scheme, &w.scheme)?;
    eq("raw username", &raw.username, &w.user)?;
    eq("raw password", &raw.password, &w.pass)?;
    eq("raw hostname", &raw.hostname, &w.host)?;
    eq("raw port", &raw.port, &w.port)?;
    eq("raw path", &raw.path, &w.path)?;
    eq("raw query", &raw.query, &w.query)?;
    eq("raw fragment", &raw.fragment, &w.frag)?;
    // normalized
    let dec = |b: &OB| -> Option<OB> {
        Some(match b {
            None => None,
            Some(b) => Some(u::decode(d, b)?.out),
        })
    };
    let known = || -> Option<_> { Some((dec(&w.user)?, dec(&w.pass)?, dec(&w.host)?, dec(&w.query)?, dec(&w.frag)?)) };
    let Some((user, pass, host, query, frag)) = known() else { return Ok(false) };
    let scheme = w.scheme.as_ref().map(|s| s.to_ascii_lowercase());
    let host = host.map(|h| {
        let mut h = h.to_ascii_lowercase();
        while h.last() == Some(&b'.') {
            h.pop();
        }
        h
    });
    eq("scheme", &n.scheme, &scheme)?;
    eq("username", &n.username, &user)?;
    eq("password", &n.password, &pass)?;
    eq("hostname", &n.hostname, &host)?;
    eq("query", &n.query, &w.query)?;
    eq("fragment", &n.fragment, &frag)?;
    let pn = w.port.as_ref().and_then(|p| u::port(p));
    if n.port_number != pn {
        return Err(format!("port number is {:?} instead of {:?}", n.port_number, pn));
    }
    let bad = (w.port.is_some() && pn.is_none()) || host.as_ref().is_some_and(|h| !u::valid_host(h));
    let ascii = host.as_ref().is_none_or(|h| h.is_ascii());
    if ascii && x.has(F::HOSTU_INVALID) != bad {
        return Err(format!("HOSTU_INVALID is {} but the authority is {}", x.has(F::HOSTU_INVALID), if bad { "invalid" } else { "valid" }));
    }
    // what the decoding of the components meets is flagged, wherever it is
    let mut fl = 0;
    for k in [&w.user, &w.pass, &w.host, &w.frag].into_iter().flatten() {
        let f = u::decode(d, k).map_or(0, |r| r.flags);
        for (a, b) in [(F::URLEN_INVALID_ENCODING, F::PATH_INVALID_ENCODING), (F::URLEN_ENCODED_NUL, F::PATH_ENCODED_NUL), (F::URLEN_RAW_NUL, F::PATH_RAW_NUL)] {
            if f & a != 0 {
                fl |= b;
            }
        }
    }
    let pathf = match &w.path {
        None => Some(0),
        Some(p) if p[0] == b'/' && !p.contains(&0) => u::path_decode(d, p).map(|r| r.flags),
        _ => None,
    };
    if let Some(pf) = pathf {
        let mask = F::PATH_INVALID_ENCODING | F::PATH_ENCODED_NUL | F::PATH_RAW_NUL;
        let want = (fl | pf) & mask;
        if x.flags & mask != want {
            return Err(format!("flags are {:x} instead of {:x}", x.flags & mask, want));
        }
    }
    let exp_path = w.path.as_ref().and_then(|p| (p[0] == b'/').then_some(p)).and_then(|p| {
        let mut r = u::path_decode(d, p)?;
        u::utf8(d, &mut r)?;
        (!r.open).then_some(r.out)
    });
    if w.path.is_none() != n.path.is_none() {
        return Err(format!("path is {}", o(&n.path)));
    }
    if let (Some(e), Some(g)) = (&exp_path, &n.path) {
        if !u::same_path(g, e) {
            return Err(format!("path is [{}] instead of [{}]", show(g), show(&u::remove_dots(e))));
        }
    }
    // the normalized strings
    let mut part = vec![];
    if let Some(p) = &n.path {
        let mut p = p.clone();
        if d.dbl_path {
            match u::decode(d, &p) {
                Some(r) => p = r.out,
                None => return Ok(true),
            }
        }
        part.extend_from_slice(&p);
    }
    if let Some(q) = &query {
        part.push(b'?');
        let mut q = q.clone();
        if d.dbl_query {
            match u::decode(d, &q) {
                Some(r) => q = r.out,
                None => return Ok(true),
            }
        }
        part.extend_from_slice(&q);
    }
    if let Some(f) = &frag {
        part.push(b'#');
        part.extend_from_slice(f);
    }
    let mut all = vec![];
    if let Some(s) = &scheme {
        all.extend_from_slice(s);
        all.extend_from_slice(b"://");
    }
    if user.is_some() || pass.is_some() {
        all.extend_from_slice(user.as_deref().unwrap_or(b""));
        all.push(b':');
        all.extend_from_slice(pass.as_deref().unwrap_or(b""));
        all.push(b'@');
    }
    all.extend_from_slice(host.as_deref().unwrap_or(b""));
    if let Some(p) = &w.port {
        all.push(b':');
        all.extend_from_slice(p);
    }
    all.extend_from_slice(&part);
    let opt = |v: Vec<u8>| if v.is_empty() { None } else { Some(v) };
    eq("partial_normalized_uri", &x.partial_normalized_uri, &opt(part))?;
    if w.authority || w.scheme.is_none() {
        eq("complete_normalized_uri", &x.complete_normalized_uri, &opt(all))?;
    }
    Ok(true)
}

fn report(ctx: &Ctx, what: &str, d: &u::Dc, t: &[u8], m: String) {
    let key = m.split('[').next().unwrap_or("").to_string();
    ctx.violation(
        format!("{}:{}:{}", what, key, show(t)),
        format!("target [{}]: {} (settings {:?})", show(t), m, d),
        format!("GET {} HTTP/1.1 with {:?}", show(t), d),
    );
}

pub fn one_target(ctx: &Ctx, d: &u::Dc, c: &Config, t: &[u8]) {
    begin(&[t]);
    match guarded(|| check_target(d, c, t)) {
        Ok(Ok(true)) => nontrivial(),
        Ok(Ok(false)) => {}
        Ok(Err(m)) => report(ctx, "target", d, t, m),
        Err(m) => report(ctx, "target", d, t, format!("panic {}", m)),
    }
}

pub fn run_c15(ctx: &mut Ctx) {
    ctx.rule("every request target of the structured product scheme x userinfo x host x port x path x query x fragment, and every string up to the bound over the delimiter alphabet behind the prefixes '', '/' and 'http://', is sent in a request line; raw components, normalized components, flags and the two reassembled URIs are compared with the reference splitter. Non-trivial: the reference specifies the reading of the target.");
    let th = !ctx.quick();
    let users: &[&str] = &["", "u@", "u:p@", "u:@", "%41%3a:%42@", ":p@", "@"];
    let hosts: &[&str] = &["h", "H.iO", "h..", "a_b-c.d", "[::1]", "[::1", "h%41", "1.2.3.4", "a..b", ".a", "x!y", "[1:2]", "h%2e", "%48%2E.", "a%2eb"];
    let ports: &[&str] = &["", ":", ":80", ":0", ":65535", ":65536", ":8a", ":+80", ":080", ":99999999999999999999"];
    let paths: &[&str] = &["", "/", "/a/b", "/a/../b/./c", "/%41%2f", "//x", "/a:b@c", "/a;p=1"];
    let queries: &[&str] = &["", "?", "?a=b", "?q%41=+x&%2525", "?a?b/c:d@e", "?http://u@h:1/"];
    let frags: &[&str] = &["", "#", "#f", "#f%41#g?/@:"];
    let schemes: &[&str] = &["http", "HtTpS", "f+t-p.1"];
    let d = u::PLAIN;
    let d2 = u::Dc { dbl_path: true, dbl_query: true, plus: false, ..u::PLAIN };
    let (c1, c2) = (cfg(&d), cfg(&d2));
    let mut ts: Vec<String> = vec![];
    let mut tails = vec![];
    for p in paths {
        for q in queries {
            for f in frags {
                tails.push(format!("{}{}{}", p, q, f));
            }
        }
    }
    for t in &tails {
        if t.starts_with('/') {
            ts.push(t.clone());
            ts.push(format!("http:{}", t));
        }
        ts.push(format!("rel{}", t));
        ts.push(format!("*{}", t));
    }
    for s in schemes {
        for us in users {
            for h in hosts {
                for p in ports {
                    ts.push(format!("{}://{}{}{}", s, us, h, p));
                }
            }
        }
    }
    let na = ts.len();
    ctx.note("authorities", na);
    ctx.note("tails", tails.len());
    ctx.par(na, |i| ts[i].clone(), |i| {
        let t = &ts[i];
        if i % 500 == 7 {
            ctx.sample(t.clone());
        }
        if !t.contains("://") || t.contains('?') || t.starts_with('/') || t.starts_with("rel") || t.starts_with('*') || t.starts_with("http:/") && !t.starts_with("http://") {
            one_target(ctx, &d, &c1, t.as_bytes());
            one_target(ctx, &d2, &c2, t.as_bytes());
            return;
        }
        for tl in &tails {
            let x = format!("{}{}", t, tl);
            one_target(ctx, &d, &c1, x.as_bytes());
            if th {
                one_target(ctx, &d2, &c2, x.as_bytes());
            }
        }
    });
    // encodings in every component
    let enc: &[&[u8]] = &[b"", b"x", b"%41", b"%00", b"\0", b"%zz", b"%", b"%u0041", b"%u00z1", b"%u0000", b"a%5"];
    let eds = [d, u::Dc { udec: true, ..u::PLAIN }, u::Dc { nulraw_term: true, nulenc_term: true, ..u::PLAIN }, u::Dc { udec: true, bad: u::Bad::Remove, ..u::PLAIN }, u::Dc { bad: u::Bad::Process, udec: true, ..u::PLAIN }];
    ctx.par(eds.len() * enc.len(), |i| format!("encodings {}", i), |i| {
        let (d, a) = (&eds[i / enc.len()], enc[i % enc.len()]);
        let c = cfg(d);
        for b in enc {
            for h in enc {
                for f in enc {
                    one_target(ctx, d, &c, &[&b"http://"[..], a, b":", b, b"@h", h, b"/x?", f, b"#", f].concat());
                }
                one_target(ctx, d, &c, &[&b"http://"[..], a, b"@", b, h, b"#"].concat());
                one_target(ctx, d, &c, &[&b"http://h"[..], a, b":1/", b, b"#", h].concat());
            }
        }
    });
    // lengths around the limits
    ctx.par(1, |_| "long hosts".into(), |_| {
        for n in [62usize, 63, 64, 65, 127, 254, 255, 256] {
            for m in [50usize, 63, 64, 300] {
                let mut h: String = (0..n).map(|i| if i % (m + 1) == m { '.' } else { 'a' }).collect();
                for _ in 0..3 {
                    let t = format!("http://{}/x", h);
                    one_target(ctx, &d, &c1, t.as_bytes());
                    h.push('.');
                }
            }
        }
    });
    // every raw string over the delimiter alphabet
    let al: &[u8] = b"a:/?#@[]%.";
    let n = ctx.pick(6, 7);
    strings(ctx, al, n, |s| {
        for pre in [&b""[..], b"/", b"http://"] {
            let t = [pre, s].concat();
            if t.is_empty() {
                continue;
            }
            one_target(ctx, &d, &c1, &t);
        }
    });
    // CONNECT: the target is an authority
    let mut cs = vec![];
    for h in hosts.iter().chain(&["0", "a.b.c", "A-B", "[FE80::1]", "[]", "a%41", "a@b"]) {
        for p in ports {
            cs.push(format!("{}{}", h, p));
        }
    }
    ctx.par(cs.len(), |i| cs[i].clone(), |i| {
        let t = cs[i].as_bytes();
        begin(&[b"CONNECT", t]);
        nontrivial();
        let hl = if t[0] == b'[' { t.iter().position(|&c| c == b']').map_or(t.len(), |k| k + 1) } else { t.iter().position(|&c| c == b':').unwrap_or(t.len()) };
        if t.starts_with(b"[]") {
            return;
        }
        let (h, p) = (t[..hl].to_ascii_lowercase(), t.get(hl + 1..).filter(|p| !p.is_empty()));
        let r = guarded(|| -> Result<(), String> {
            let x = target(&c1, b"CONNECT", t)?;
            let n = x.uri.as_ref().ok_or("no URI")?;
            let raw = x.uri_raw.as_ref().ok_or("no raw URI")?;
            outcome(h64(&(raw, n, x.flags)));
            eq("raw hostname", &raw.hostname.as_ref().map(|h| h.to_ascii_lowercase()), &Some(h.clone()))?;
            eq("raw port", &raw.port, &p.map(|p| p.to_vec()))?;
            let pn = p.and_then(u::port);
            if n.port_number != pn || x.port != pn {
                return Err(format!("port number is {:?} / {:?} instead of {:?}", n.port_number, x.port, pn));
            }
            let mut hn = u::decode(&d, &h).map(|r| r.out.to_ascii_lowercase()).unwrap_or_default();
            while hn.last() == Some(&b'.') {
                hn.pop();
            }
            eq("hostname", &n.hostname, &Some(hn.clone()))?;
            eq("request_hostname", &x.hostname, &Some(hn.clone()))?;
            eq("path", &n.path, &None)?;
            eq("scheme", &n.scheme, &None)?;
            // both the raw and the decoded form have to be valid; a colon needs a port
            let bad = !u::valid_host(&h) || !u::valid_host(&hn) || (t.len() > hl && pn.is_none());
            if x.has(F::HOSTU_INVALID) != bad {
                return Err(format!("HOSTU_INVALID is {}", !bad));
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => report(ctx, "connect", &d, t, m),
            Err(m) => report(ctx, "connect", &d, t, format!("panic {}", m)),
        }
    });
}

/// Every string of length 0..=n over the alphabet.
pub fn strings(ctx: &Ctx, al: &[u8], n: usize, f: impl Fn(&[u8]) + Sync) {
    // parallel over the first two symbols
    let k = al.len();
    let pre = 2.min(n);
    let total = k.pow(pre as u32);
    ctx.par(total + 1, |i| format!("strings block {}", i), |i| {
        if i == total {
            // the short ones
            f(b"");
            if pre >= 2 {
                for &a in al {
                    f(&[a]);
                }
            }
            return;
        }
        let mut s: Vec<u8> = vec![];
        let mut j = i;
        for _ in 0..pre {
            s.push(al[j % k]);
            j /= k;
        }
        let mut idx = vec![];
        rec(al, n, &mut s, &mut idx, &f);
    });
    fn rec(al: &[u8], n: usize, s: &mut Vec<u8>, _i: &mut Vec<usize>, f: &impl Fn(&[u8])) {
        f(s);
        if s.len() < n {
            for &a in al {
                s.push(a);
                rec(al, n, s, _i, f);
                s.pop();
            }
        }
    }
}

const PATHF: u64 = F::PATH_ENCODED_NUL
    | F::PATH_INVALID_ENCODING
    | F::PATH_OVERLONG_U
    | F::PATH_ENCODED_SEPARATOR
    | F::PATH_UTF8_VALID
    | F::PATH_UTF8_INVALID
    | F::PATH_UTF8_OVERLONG
    | F::PATH_HALF_FULL_RANGE;

fn expected_status(s: &str) -> u16 {
    match s {
        "IGNORE" => 0,
        s => s.rsplit('_').next().and_then(|n| n.parse().ok()).unwrap_or(1),
    }
}

fn check_path(d: &u::Dc, c: &Config, t: &[u8]) -> Result<bool, String> {
    let Some(mut r) = u::path_decode(d, t) else { return Ok(false) };
    if u::utf8(d, &mut r).is_none() || r.open {
        return Ok(false);
    }
    let x = target(c, b"GET", t)?;
    let n = x.uri.as_ref().ok_or("no normalized URI")?;
    eq("raw path", &x.uri_raw.as_ref().ok_or("no raw URI")?.path, &Some(t.to_vec()))?;
    outcome(h64(&(n, x.flags, &x.response_status_expected)));
    let got = n.path.as_ref().ok_or("no path")?;
    if !u::same_path(got, &r.out) {
        return Err(format!("path is [{}] instead of [{}]", show(got), show(&u::remove_dots(&r.out))));
    }
    if x.flags & PATHF != r.flags & PATHF {
        return Err(format!("path flags are {:x} instead of {:x}", x.flags & PATHF, r.flags & PATHF));
    }
    let e = expected_status(&x.response_status_expected);
    if (e != 0) != !r.codes.is_empty() || (e != 0 && !r.codes.contains(&e)) {
        return Err(format!("expected status is {} but the path asks for {:?}", x.response_status_expected, r.codes));
    }
    Ok(true)
}

pub fn one_path(ctx: &Ctx, d: &u::Dc, c: &Config, t: &[u8]) {
    begin(&[t]);
    match guarded(|| check_path(d, c, t)) {
        Ok(Ok(true)) => nontrivial(),
        Ok(Ok(false)) => {}
        Ok(Err(m)) => report(ctx, "path", d, t, m),
        Err(m) => report(ctx, "path", d, t, format!("panic {}", m)),
    }
}

pub fn path_cfgs(all: bool) -> Vec<u::Dc> {
    let mut v = vec![];
    for bad in [u::Bad::Keep, u::Bad::Remove, u::Bad::Process] {
        if all {
            for m in 0..256u32 {
                v.push(bools(m, bad));
            }
        } else {
            // none, each one alone, each one missing, all
            for i in 0..8 {
                v.push(bools(1 << i, bad));
                v.push(bools(255 ^ (1 << i), bad));
            }
            v.push(bools(0, bad));
            v.push(bools(255, bad));
        }
    }
    v
}
fn bools(m: u32, bad: u::Bad) -> u::Dc {
    let b = |i: u32| m >> i & 1 == 1;
    u::Dc { backslash: b(0), lower: b(1), compress: b(2), sepdec: b(3), nulraw_term: b(4), nulenc_term: b(5), udec: b(6), utf8: b(7), bad, ..u::PLAIN }
}
/// Reactions: each one alone (with 400), all with alternating codes.
fn reactions(base: u::Dc) -> Vec<u::Dc> {
    let z = base;
    vec![
        u::Dc { w_nulraw: 400, ..z },
        u::Dc { w_nulenc: 400, ..z },
        u::Dc { w_ctl: 400, ..z },
        u::Dc { w_u: 400, ..z },
        u::Dc { w_bad: 400, ..z },
        u::Dc { w_sep: 404, ..z },
        u::Dc { w_utf8: 404, ..z },
        u::Dc { w_nulraw: 400, w_nulenc: 404, w_ctl: 400, w_u: 404, w_bad: 400, w_sep: 404, w_utf8: 400, ..z },
    ]
}

/// What each personality sets, over the defaults, and its reaction to leading white space.
fn personalities() -> Vec<(&'static str, htp::config::HtpServerPersonality, u::Dc, u16)> {
    use htp::config::HtpServerPersonality::*;
    [
        ("MINIMAL", MINIMAL, 0),
        ("GENERIC", GENERIC, 0),
        ("IDS", IDS, 0),
        ("APACHE_2", APACHE_2, 400),
        ("IIS_5_1", IIS_5_1, 0),
        ("IIS_6_0", IIS_6_0, 0),
        ("IIS_7_0", IIS_7_0, 0),
        ("IIS_7_5", IIS_7_5, 0),
    ]
    .into_iter()
    .map(|(n, p, w)| (n, p, over(n, u::PLAIN), w))
    .collect()
}
fn over(name: &str, d: u::Dc) -> u::Dc {
    let seps = u::Dc { backslash: true, sepdec: true, compress: true, ..d };
    match name {
        "GENERIC" => seps,
        "IDS" => u::Dc { lower: true, utf8: true, udec: true, ..seps },
        "APACHE_2" => u::Dc { backslash: false, sepdec: false, compress: true, udec: false, bad: u::Bad::Keep, w_bad: 400, w_ctl: 0, ..d },
        "IIS_5_1" => u::Dc { udec: false, bad: u::Bad::Keep, w_ctl: 0, ..seps },
        "IIS_6_0" => u::Dc { udec: true, bad: u::Bad::Keep, w_u: 400, w_ctl: 400, ..seps },
        "IIS_7_0" | "IIS_7_5" => u::Dc { udec: true, bad: u::Bad::Keep, w_bad: 400, w_ctl: 400, ..seps },
        _ => d,
    }
}

pub fn run_c16(ctx: &mut Ctx) {
    ctx.rule("every token sequence up to the bound (separators, dots, letters, valid, invalid, truncated and %u encodings, NUL, control characters, good, overlong and broken UTF-8) behind '/', under every decoder configuration of the bound, and every raw string over {% u 0 2 f / . 4 1}; the normalized path, the PATH_ flags and the expected status are compared with the reference decoder. Non-trivial: the reference settles the case.");
    let toks: &[&[u8]] = &[
        b"/", b"\\", b".", b"..", b"a", b"A", b"%2f", b"%5C", b"%41", b"%00", b"\0", b"%u002f", b"%u0041", b"%uff0f", b"%u0100", b"%u0000", b"%zz", b"%u00zz", b"%", b"%u", b"%4",
        b"%u12", b"\x01", b"%1f", b"%c3%a9", b"\xef\xbc\x8f", b"%c0%af", b"\xff", b"+", b"%25", b"%2e", b"%7F", b"%ff%41", b"\xe4\xb8\xad",
    ];
    ctx.note("tokens", toks.len());
    let mut cfgs = path_cfgs(!ctx.quick());
    let small = path_cfgs(false);
    for m in [0, 255, 64, 207] {
        for bad in [u::Bad::Keep, u::Bad::Remove, u::Bad::Process] {
            cfgs.extend(reactions(bools(m, bad)));
        }
    }
    cfgs.push(u::Dc { utf8: true, repl: b'!', udec: true, ..u::PLAIN });
    ctx.note("configurations", cfgs.len());
    let k = toks.len();
    let conf: Vec<Config> = cfgs.iter().map(cfg).collect();
    // sequences of up to 3 tokens (thorough: the first two positions under every configuration
    // and three under the smaller set)
    ctx.par(cfgs.len(), |i| format!("{:?}", cfgs[i]), |i| {
        let (d, c) = (&cfgs[i], &conf[i]);
        let full = ctx.quick() || small.contains(d) || i >= cfgs.len() - 97;
        let mut s = b"/".to_vec();
        one_path(ctx, d, c, &s);
        for a in 0..k {
            s.truncate(1);
            s.extend_from_slice(toks[a]);
            one_path(ctx, d, c, &s);
            let l1 = s.len();
            for b in 0..k {
                s.truncate(l1);
                s.extend_from_slice(toks[b]);
                one_path(ctx, d, c, &s);
                if !full {
                    continue;
                }
                let l2 = s.len();
                for t in toks {
                    s.truncate(l2);
                    s.extend_from_slice(t);
                    one_path(ctx, d, c, &s);
                }
            }
        }
        if i % 16 == 0 {
            ctx.sample(format!("[{}] under {:?}", show(&s), d));
        }
    });
    // raw strings under a few configurations
    let ds: Vec<u::Dc> = vec![bools(0, u::Bad::Keep), bools(255, u::Bad::Process), bools(0b01001100, u::Bad::Remove), bools(0b01000000, u::Bad::Keep)];
    let cs: Vec<Config> = ds.iter().map(cfg).collect();
    strings(ctx, b"%u02f/.", ctx.pick(6, 8), |s| {
        let t = [b"/", s].concat();
        for i in 0..ds.len() {
            one_path(ctx, &ds[i], &cs[i], &t);
        }
    });
    // every %uXXXX and every UTF-8 sequence of two, three and four bytes (raw), each followed by
    // an ordinary character
    let uc: Vec<u::Dc> = vec![u::Dc { udec: true, utf8: true, ..u::PLAIN }, u::Dc { udec: true, repl: b'!', ..u::PLAIN }, u::Dc { udec: true, backslash: true, sepdec: true, lower: true, ..u::PLAIN }];
    let uf: Vec<Config> = uc.iter().map(cfg).collect();
    ctx.par(256, |i| format!("code points {:x}00", i), |i| {
        for j in 0..256u32 {
            let cp = (i as u32) << 8 | j;
            for k in 0..3 {
                one_path(ctx, &uc[k], &uf[k], format!("/a%u{:04x}b", cp).as_bytes());
            }
            one_path(ctx, &uc[0], &uf[0], format!("/a%U{:04X}", cp).as_bytes());
            if i >= 0x80 && j != 10 && j != 32 && j != 9 && j != 0x23 && j != 0x3f {
                // lead byte i, second byte j
                let s = [b'/', i as u8, j as u8, b'a'];
                one_path(ctx, &uc[0], &uf[0], &s);
                one_path(ctx, &uc[1], &uf[1], &s);
                let enc = format!("/%{:02x}%{:02X}a", i, j);
                one_path(ctx, &uc[0], &uf[0], enc.as_bytes());
                if i >= 0xe0 && (0x7f..0xc1).contains(&j) {
                    for l in 0x7f..0xc1u8 {
                        one_path(ctx, &uc[0], &uf[0], &[b'/', i as u8, j as u8, l, b'a']);
                        if i >= 0xf0 && (ctx.quick() && (l % 16 == 15 || l % 16 == 0) || !ctx.quick()) {
                            for m in [0x7f, 0x80, 0x81, 0x8f, 0x9f, 0xa0, 0xaf, 0xbf, 0xc0] {
                                one_path(ctx, &uc[0], &uf[0], &[b'/', i as u8, j as u8, l, m, b'a']);
                            }
                        }
                    }
                }
            }
        }
    });
    // every pair of bytes, raw and encoded
    let ub: Vec<u::Dc> = vec![bools(0, u::Bad::Keep), u::Dc { utf8: true, ..u::PLAIN }, u::Dc { w_ctl: 400, w_utf8: 404, ..bools(255, u::Bad::Keep) }];
    let uf: Vec<Config> = ub.iter().map(cfg).collect();
    ctx.par(256, |i| format!("pairs with {:x}", i), |i| {
        for j in 0..256usize {
            let raw = |b: usize| !matches!(b, 0 | 9..=13 | 32 | 0x23 | 0x25 | 0x3f);
            for k in 0..3 {
                one_path(ctx, &ub[k], &uf[k], format!("/%{:02x}%{:02X}x", i, j).as_bytes());
                if raw(i) && raw(j) {
                    one_path(ctx, &ub[k], &uf[k], &[b'/', i as u8, j as u8, b'x']);
                }
            }
        }
    });
    // personalities are presets of the settings: over the defaults and over everything switched
    let names = personalities();
    let toks: Vec<&[u8]> = toks.iter().cloned().chain([&b"/"[..], b"%2F", b"%5c"]).collect();
    ctx.par(names.len() * 2, |i| names[i / 2].0.to_string(), |i| {
        let (name, p, base, ws) = &names[i / 2];
        let mut c = Config::default();
        let mut d = *base;
        let mut w = *ws;
        let opposite = u::Dc { w_ctl: 404, w_u: 404, w_bad: 404, ..bools(255, u::Bad::Remove) };
        if i % 2 == 1 {
            // what a personality does not mention stays as it was
            opposite.apply(&mut c);
            c.set_requestline_leading_whitespace_unwanted(htp::config::HtpUnwanted::CODE_404);
            d = over(name, opposite);
            if *name == "MINIMAL" || *name == "GENERIC" {
                w = 404;
            }
        }
        if c.set_server_personality(*p).is_err() {
            ctx.violation("personality", format!("personality {} is refused", name), name.to_string());
            return;
        }
        for a in &toks {
            for b in &toks {
                for x in &toks[..if ctx.quick() { 1 } else { toks.len() }] {
                    let t = [b"/", *a, b, x].concat();
                    // where a request line stops at a NUL byte is another matter
                    if !t.contains(&0) {
                        one_path(ctx, &d, &c, &t);
                    }
                }
            }
        }
        for line in [&b" GET / HTTP/1.1\r\nHost: x\r\n\r\n"[..], b"GET / HTTP/1.1\r\nHost: x\r\n\r\n", b"\tGET / HTTP/1.1\r\nHost: x\r\n\r\n"] {
            begin(&[name.as_bytes(), line]);
            reset();
            let mut p = P::new(c.clone());
            p.req(line);
            let got = p.tx(0).map(|t| expected_status(&t.response_status_expected));
            let want = Some(if line[0] == b'G' { 0 } else { w });
            if got != want {
                ctx.violation(format!("personality:{}:{}", name, show(line)), format!("expected status {:?} instead of {:?} under {} for [{}]", got, want, name, show(line)), show(line));
            }
        }
    });
    ctx.note("personalities", names.len());
    // dot segments
    strings(ctx, b"/.a", ctx.pick(10, 13), |s| {
        let t = [b"/", s].concat();
        one_path(ctx, &ds[0], &cs[0], &t);
    });
}

thread_local! {
    static PARAMS: RefCell<Vec<(Vec<u8>, Vec<u8>)>> = const { RefCell::new(vec![]) };
}
fn collect(p: &mut htp::transaction::Param) -> Result<(), htp::HtpStatus> {
    PARAMS.with(|v| v.borrow_mut().push((p.name.as_slice().to_vec(), p.value.as_slice().to_vec())));
    Ok(())
}

type Pv = Vec<(Vec<u8>, Vec<u8>)>;
const URLF: u64 = F::URLEN_ENCODED_NUL | F::URLEN_INVALID_ENCODING | F::URLEN_OVERLONG_U | F::URLEN_HALF_FULL_RANGE | F::URLEN_RAW_NUL;

fn showp(p: &Pv) -> String {
    p.iter().map(|(a, b)| format!("{}={}", show(a), show(b))).collect::<Vec<_>>().join(" & ")
}

/// The separator and whether to decode.
const DEF: (u8, bool) = (b'&', true);

fn run_parser(c: &Config, parts: &[&[u8]], whole: bool, how: (u8, bool)) -> (Pv, u64, u16) {
    let mut p = htp::urlencoded::Parser::new(c.decoder_cfg);
    if how != DEF {
        p.argument_separator = how.0;
        p.decode_url_encoding = how.1;
    }
    if whole {
        p.parse_complete(parts[0]);
    } else {
        for x in parts {
            p.parse_partial(x);
        }
        p.finalize();
    }
    transitions(parts.len() as u64);
    let v = p.params.elements.iter().map(|(a, b)| (a.as_slice().to_vec(), b.as_slice().to_vec())).collect();
    (v, p.flags & URLF, expected_status(&format!("{:?}", p.response_status_expected_number)))
}

pub fn check_params(d: &u::Dc, c: &Config, s: &[u8], cutmax: usize, end2end: bool, how: (u8, bool)) -> Result<bool, String> {
    let Some((want, fl, codes)) = u::params(d, s, how.0, how.1) else { return Ok(false) };
    let cmp = |what: &str, g: &(Pv, u64, u16)| -> Result<(), String> {
        if g.0 != want {
            return Err(format!("{}: parameters [{}] instead of [{}]", what, showp(&g.0), showp(&want)));
        }
        if g.1 != fl & URLF {
            return Err(format!("{}: flags {:x} instead of {:x}", what, g.1, fl & URLF));
        }
        if (g.2 != 0) != !codes.is_empty() || g.2 != 0 && !codes.contains(&g.2) {
            return Err(format!("{}: expected status {} for {:?}", what, g.2, codes));
        }
        Ok(())
    };
    let g = run_parser(c, &[s], true, how);
    outcome(h64(&g));
    cmp("whole", &g)?;
    cmp("one part", &run_parser(c, &[s], false, how))?;
    let mut r = Ok(());
    crate::gen::cuts(s.len(), cutmax, |cs| {
        if r.is_ok() {
            let parts: Vec<&[u8]> = crate::gen::segments(s, cs);
            r = cmp(&format!("parts {:?}", cs), &run_parser(c, &parts, false, how));
        }
    });
    r?;
    if end2end && !s.iter().any(|c| b"#".contains(c)) {
        PARAMS.with(|v| v.borrow_mut().clear());
        let mut c = c.clone();
        c.set_parse_urlencoded(true);
        c.parameter_processor = Some(collect);
        let t = [b"/p?", s].concat();
        target(&c, b"GET", &t)?;
        let g = PARAMS.with(|v| v.borrow().clone());
        if g != want {
            return Err(format!("query parameters [{}] instead of [{}]", showp(&g), showp(&want)));
        }
    }
    Ok(true)
}

pub fn run_c17(ctx: &mut Ctx) {
    ctx.rule("every string up to the bound over the form alphabet and every sequence of encoding tokens under every decoder configuration of the bound is parsed whole, in every division into parts, and as the query of a request; names, values, order, URLEN_ flags and expected status are compared with the reference. Non-trivial: the reference settles the case.");
    let goh = |d: &u::Dc, c: &Config, s: &[u8], cut: usize, e: bool, how: (u8, bool)| {
        begin(&[s, &[how.0, how.1 as u8]]);
        match guarded(|| check_params(d, c, s, cut, e, how)) {
            Ok(Ok(true)) => nontrivial(),
            Ok(Ok(false)) => {}
            Ok(Err(m)) => report(ctx, "params", d, s, m),
            Err(m) => report(ctx, "params", d, s, format!("panic {}", m)),
        }
    };
    let go = |d: &u::Dc, c: &Config, s: &[u8], cut: usize, e: bool| goh(d, c, s, cut, e, DEF);
    let d = u::PLAIN;
    let c = cfg(&d);
    // other separators, and without decoding
    for how in [(b';', true), (b'&', false), (b';', false), (b'a', true)] {
        strings(ctx, b"a=&;%41", ctx.pick(6, 7), |s| goh(&d, &c, s, 5, false, how));
    }
    strings(ctx, b"a=&%41+", ctx.pick(6, 7), |s| go(&d, &c, s, 5, true));
    strings(ctx, b"b=&", ctx.pick(9, 11), |s| go(&d, &c, s, 1, true));
    let toks: &[&[u8]] = &[
        b"a", b"=", b"&", b"+", b"%41", b"%00", b"\0", b"%26", b"%3d", b"%2B", b"%zz", b"%", b"%4", b"%u0041", b"%u0000", b"%u00zz", b"%u", b"%u12", b"%uff0f", b"%u0100", b"%UFF21", b"%25", b"\xff", b"%ff",
    ];
    let mut cfgs = vec![];
    for bad in [u::Bad::Keep, u::Bad::Remove, u::Bad::Process] {
        for m in 0..16u32 {
            let b = |i: u32| m >> i & 1 == 1;
            let z = u::Dc { plus: b(0), nulraw_term: b(1), nulenc_term: b(2), udec: b(3), bad, ..u::PLAIN };
            cfgs.push(z);
            if m & 7 == 1 {
                cfgs.extend(reactions(z));
            }
        }
    }
    let du = u::Dc { udec: true, ..u::PLAIN };
    let cu = cfg(&du);
    ctx.par(256, |i| format!("code points {:x}00", i), |i| {
        for j in 0..256u32 {
            go(&du, &cu, format!("%u{:02x}{:02X}=b", i, j).as_bytes(), 1, true);
            go(&d, &c, &[b'a', b'=', b'%', i as u8, j as u8, b'c'], 1, !(i as u32 == 10 || i == 0x20 || i == 9 || i == 13 || i == 11 || i == 12 || j == 10 || j == 0x20 || j == 9 || j == 13 || j == 11 || j == 12));
        }
    });
    ctx.note("tokens", toks.len());
    ctx.note("configurations", cfgs.len());
    let deep = ctx.pick(3, 4);
    ctx.par(cfgs.len() * toks.len(), |i| format!("{:?}", cfgs[i / toks.len()]), |i| {
        let d = &cfgs[i / toks.len()];
        let c = cfg(d);
        let mut s = toks[i % toks.len()].to_vec();
        if i % 101 == 0 {
            ctx.sample(format!("[{}] under {:?}", show(&s), d));
        }
        fn rec(toks: &[&[u8]], left: usize, s: &mut Vec<u8>, f: &impl Fn(&[u8])) {
            f(s);
            if left > 0 {
                let l = s.len();
                for t in toks {
                    s.extend_from_slice(t);
                    rec(toks, left - 1, s, f);
                    s.truncate(l);
                }
            }
        }
        rec(toks, deep - 1, &mut s, &|s| go(d, &c, s, 1, true));
    });
}
