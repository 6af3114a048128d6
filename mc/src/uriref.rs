//! Independent reference for request targets: splitting (RFC 3986 delimiters), percent-decoding
//! with the configured leniencies, UTF-8 best-fit conversion and dot-segment removal.
use crate::rec::OB;
use htp::util::HtpFlags as F;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bad {
    Keep,
    Remove,
    Process,
}

/// The decoder settings the reference understands; a reaction is 0 (ignore), 400 or 404.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Dc {
    pub backslash: bool,
    pub lower: bool,
    pub compress: bool,
    pub sepdec: bool,
    pub plus: bool,
    pub nulraw_term: bool,
    pub nulenc_term: bool,
    pub udec: bool,
    pub utf8: bool,
    pub bad: Bad,
    pub w_nulraw: u16,
    pub w_nulenc: u16,
    pub w_ctl: u16,
    pub w_u: u16,
    pub w_bad: u16,
    pub w_sep: u16,
    pub w_utf8: u16,
    pub dbl_path: bool,
    pub dbl_query: bool,
    pub repl: u8,
}

pub const PLAIN: Dc = Dc {
    backslash: false,
    lower: false,
    compress: false,
    sepdec: false,
    plus: true,
    nulraw_term: false,
    nulenc_term: false,
    udec: false,
    utf8: false,
    bad: Bad::Keep,
    w_nulraw: 0,
    w_nulenc: 0,
    w_ctl: 0,
    w_u: 0,
    w_bad: 0,
    w_sep: 0,
    w_utf8: 0,
    dbl_path: false,
    dbl_query: false,
    repl: b'?',
};

fn unwanted(n: u16) -> htp::config::HtpUnwanted {
    use htp::config::HtpUnwanted::*;
    match n {
        400 => CODE_400,
        404 => CODE_404,
        _ => IGNORE,
    }
}

impl Dc {
    pub fn apply(&self, c: &mut htp::config::Config) {
        use htp::config::HtpUrlEncodingHandling::*;
        c.set_backslash_convert_slashes(self.backslash);
        c.set_convert_lowercase(self.lower);
        c.set_path_separators_compress(self.compress);
        c.set_path_separators_decode(self.sepdec);
        c.set_plusspace_decode(self.plus);
        c.set_nul_raw_terminates(self.nulraw_term);
        c.set_nul_encoded_terminates(self.nulenc_term);
        c.set_u_encoding_decode(self.udec);
        c.set_utf8_convert_bestfit(self.utf8);
        c.set_url_encoding_invalid_handling(match self.bad {
            Bad::Keep => PRESERVE_PERCENT,
            Bad::Remove => REMOVE_PERCENT,
            Bad::Process => PROCESS_INVALID,
        });
        c.set_u_encoding_unwanted(unwanted(self.w_u));
        c.set_control_chars_unwanted(unwanted(self.w_ctl));
        c.set_url_encoding_invalid_unwanted(unwanted(self.w_bad));
        c.decoder_cfg.nul_raw_unwanted = unwanted(self.w_nulraw);
        c.decoder_cfg.nul_encoded_unwanted = unwanted(self.w_nulenc);
        c.decoder_cfg.path_separators_encoded_unwanted = unwanted(self.w_sep);
        c.decoder_cfg.utf8_invalid_unwanted = unwanted(self.w_utf8);
        c.set_double_decode_normalized_path(self.dbl_path);
        c.set_double_decode_normalized_query(self.dbl_query);
        c.set_bestfit_replacement_byte(self.repl);
    }
}

/// What decoding a string means: bytes, flags, and the reactions that constructs in it ask for.
#[derive(Default, Clone, Debug)]
pub struct Dec {
    pub out: Vec<u8>,
    pub flags: u64,
    pub codes: Vec<u16>,
    /// the reference does not settle the outcome (truncated UTF-8 at the end)
    pub open: bool,
}

fn hexd(c: u8) -> u8 {
    // "happily converts invalid input"
    if c >= b'A' {
        (c & 0xdf).wrapping_sub(b'A').wrapping_add(10)
    } else {
        c.wrapping_sub(b'0')
    }
}
fn hexb(a: u8, b: u8) -> u8 {
    hexd(a).wrapping_shl(4).wrapping_add(hexd(b))
}
fn allhex(b: &[u8]) -> bool {
    b.iter().all(|c| c.is_ascii_hexdigit())
}

/// Windows-1252 best fit.
pub fn bestfit(cp: u32, repl: u8) -> Option<u8> {
    let t = crate::bestfit::BESTFIT;
    Some(t.binary_search_by_key(&cp, |e| e.0).map_or(repl, |i| t[i].1))
}

fn react(codes: &mut Vec<u16>, c: u16) {
    if c != 0 {
        codes.push(c);
    }
}

/// Path decoding as documented in config.rs. `None`: a code point the reference does not know.
pub fn path_decode(d: &Dc, s: &[u8]) -> Option<Dec> {
    let mut r = Dec::default();
    let mut i = 0;
    while i < s.len() {
        // (byte, consumed); byte None: nothing is output
        let mut b: Option<u8> = Some(s[i]);
        let mut n = 1;
        let mut literal = false;
        if s[i] == b'%' {
            let rest = &s[i + 1..];
            literal = true;
            if matches!(rest.first(), Some(b'u' | b'U')) {
                if d.udec {
                    if rest.len() >= 5 {
                        let h = &rest[1..5];
                        let good = allhex(h);
                        if !good {
                            r.flags |= F::PATH_INVALID_ENCODING;
                            react(&mut r.codes, d.w_bad);
                        }
                        if good || d.bad == Bad::Process {
                            let (c1, c2) = (hexb(h[0], h[1]), hexb(h[2], h[3]));
                            n = 6;
                            literal = false;
                            let v = if c1 == 0 {
                                r.flags |= F::PATH_OVERLONG_U;
                                c2
                            } else {
                                if c1 == 0xff {
                                    r.flags |= F::PATH_HALF_FULL_RANGE;
                                }
                                bestfit((c1 as u32) << 8 | c2 as u32, d.repl)?
                            };
                            if good || c1 != 0 {
                                react(&mut r.codes, d.w_u);
                            }
                            if v == b'/' || d.backslash && v == b'\\' {
                                r.flags |= F::PATH_ENCODED_SEPARATOR;
                            }
                            b = Some(v);
                            if v == 0 && good {
                                r.flags |= F::PATH_ENCODED_NUL;
                                react(&mut r.codes, d.w_nulenc);
                                if d.nulenc_term {
                                    return Some(r);
                                }
                            }
                        } else if d.bad == Bad::Remove {
                            b = None;
                        }
                    } else {
                        r.flags |= F::PATH_INVALID_ENCODING;
                        react(&mut r.codes, d.w_bad);
                        if d.bad == Bad::Remove {
                            b = None;
                        }
                    }
                }
            } else if rest.len() >= 2 && allhex(&rest[..2]) {
                let v = hexb(rest[0], rest[1]);
                if v == 0 {
                    r.flags |= F::PATH_ENCODED_NUL;
                    react(&mut r.codes, d.w_nulenc);
                    if d.nulenc_term {
                        return Some(r);
                    }
                }
                let sep = v == b'/' || d.backslash && v == b'\\';
                if sep {
                    r.flags |= F::PATH_ENCODED_SEPARATOR;
                    react(&mut r.codes, d.w_sep);
                }
                if !sep || d.sepdec {
                    b = Some(v);
                    n = 3;
                    literal = false;
                }
            } else {
                r.flags |= F::PATH_INVALID_ENCODING;
                react(&mut r.codes, d.w_bad);
                match d.bad {
                    Bad::Remove => b = None,
                    Bad::Process if rest.len() >= 2 => {
                        b = Some(hexb(rest[0], rest[1]));
                        n = 3;
                        literal = false;
                    }
                    _ => {}
                }
            }
        } else if s[i] == 0 {
            react(&mut r.codes, d.w_nulraw);
            if d.nulraw_term {
                return fin(d, r);
            }
        }
        i += n;
        if let Some(mut v) = b {
            if !literal && v < 0x20 {
                react(&mut r.codes, d.w_ctl);
            }
            if v == b'\\' && d.backslash {
                v = b'/';
            }
            if d.lower {
                v = v.to_ascii_lowercase();
            }
            if !(v == b'/' && d.compress && r.out.last() == Some(&b'/')) {
                r.out.push(v);
            }
        }
    }
    fin(d, r)
}

fn fin(_d: &Dc, r: Dec) -> Option<Dec> {
    Some(r)
}

/// UTF-8 stage: flags always, conversion only if configured.
pub fn utf8(d: &Dc, r: &mut Dec) -> Option<()> {
    let s = r.out.clone();
    let mut out = vec![];
    let (mut valid, mut invalid) = (false, false);
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        let (len, mut cp) = match c {
            0..=0x7f => (1, c as u32),
            0xc0..=0xdf => (2, c as u32 & 0x1f),
            0xe0..=0xef => (3, c as u32 & 0x0f),
            0xf0..=0xf4 => (4, c as u32 & 0x07),
            _ => (0, 0),
        };
        if len == 1 {
            out.push(c);
            i += 1;
            continue;
        }
        let mut k = 1;
        let mut ok = len > 0;
        let mut short = false;
        while ok && k < len {
            match s.get(i + k) {
                None => {
                    short = true;
                    break;
                }
                Some(&x) => {
                    let hi = match (c, k) {
                        (0xed, 1) => 0x9f,
                        (0xf4, 1) => 0x8f,
                        _ => 0xbf,
                    };
                    if (0x80..=hi).contains(&x) {
                        cp = cp << 6 | (x as u32 & 0x3f);
                        k += 1;
                    } else {
                        ok = false;
                    }
                }
            }
        }
        if short {
            r.open = true;
            break;
        }
        if ok {
            valid = true;
            if (len == 2 && cp < 0x80) || (len == 3 && cp < 0x800) || (len == 4 && cp < 0x10000) {
                r.flags |= F::PATH_UTF8_OVERLONG;
            }
            if (0xff00..=0xffef).contains(&cp) {
                r.flags |= F::PATH_HALF_FULL_RANGE;
            }
            out.push(if cp < 0x100 {
                cp as u8
            } else if d.utf8 {
                bestfit(cp, d.repl)?
            } else {
                b'?'
            });
            i += len;
        } else {
            invalid = true;
            out.push(d.repl);
            // the byte that broke the sequence starts the next one
            i += k.max(1);
        }
    }
    if invalid {
        r.flags |= F::PATH_UTF8_INVALID;
        react(&mut r.codes, d.w_utf8);
    } else if valid {
        r.flags |= F::PATH_UTF8_VALID;
    }
    if d.utf8 {
        r.out = out;
    }
    Some(())
}

/// RFC 3986 5.2.4 (on absolute paths).
pub fn remove_dots(p: &[u8]) -> Vec<u8> {
    let mut inp = p.to_vec();
    let mut out: Vec<u8> = vec![];
    while !inp.is_empty() {
        if inp.starts_with(b"/./") {
            inp.drain(..2);
        } else if inp == b"/." {
            inp = b"/".to_vec();
        } else if inp.starts_with(b"/../") || inp == b"/.." {
            inp = if inp.len() == 3 { b"/".to_vec() } else { inp[3..].to_vec() };
            while let Some(c) = out.pop() {
                if c == b'/' {
                    break;
                }
            }
        } else {
            let e = inp[1..].iter().position(|&c| c == b'/').map_or(inp.len(), |e| e + 1);
            out.extend(inp.drain(..e));
        }
    }
    out
}

/// Whether `got` is the decoded path without its dot segments; where the last segment is one, the
/// slash it leaves behind is optional.
pub fn same_path(got: &[u8], decoded: &[u8]) -> bool {
    let want = remove_dots(decoded);
    let dotted = matches!(decoded.rsplit(|&c| c == b'/').next(), Some(b"." | b".."));
    got == want || dotted && want.strip_suffix(b"/") == Some(got)
}

/// Decoding of parameters (and of userinfo, host, fragment). Flags are the URLEN_ ones.
pub fn decode(d: &Dc, s: &[u8]) -> Option<Dec> {
    let mut r = Dec::default();
    let mut i = 0;
    while i < s.len() {
        let mut b = Some(s[i]);
        let mut n = 1;
        if s[i] == b'+' && d.plus {
            b = Some(b' ');
        } else if s[i] == 0 {
            r.flags |= F::URLEN_RAW_NUL;
            react(&mut r.codes, d.w_nulraw);
            if d.nulraw_term {
                return Some(r);
            }
        } else if s[i] == b'%' {
            let rest = &s[i + 1..];
            let mut dec = None;
            if matches!(rest.first(), Some(b'u' | b'U')) {
                if d.udec {
                    let good = rest.len() >= 5 && allhex(&rest[1..5]);
                    if !good {
                        r.flags |= F::URLEN_INVALID_ENCODING;
                        react(&mut r.codes, d.w_bad);
                        if d.bad == Bad::Remove {
                            b = None;
                        }
                    }
                    if good || rest.len() >= 5 {
                        react(&mut r.codes, if good || d.w_bad == 0 { d.w_u } else { 0 });
                    }
                    if good || rest.len() >= 5 && d.bad == Bad::Process {
                        let (c1, c2) = (hexb(rest[1], rest[2]), hexb(rest[3], rest[4]));
                        n = 6;
                        dec = Some(if c1 == 0 {
                            r.flags |= F::URLEN_OVERLONG_U;
                            c2
                        } else {
                            if c1 == 0xff && c2 <= 0xef {
                                r.flags |= F::URLEN_HALF_FULL_RANGE;
                            }
                            bestfit((c1 as u32) << 8 | c2 as u32, d.repl)?
                        });
                    }
                }
            } else if rest.len() >= 2 && allhex(&rest[..2]) {
                dec = Some(hexb(rest[0], rest[1]));
                n = 3;
            } else {
                r.flags |= F::URLEN_INVALID_ENCODING;
                react(&mut r.codes, d.w_bad);
                match d.bad {
                    Bad::Remove => b = None,
                    Bad::Process if rest.len() >= 2 => {
                        dec = Some(hexb(rest[0], rest[1]));
                        n = 3;
                    }
                    _ => {}
                }
            }
            if let Some(v) = dec {
                b = Some(v);
                if v == 0 {
                    r.flags |= F::URLEN_ENCODED_NUL;
                    react(&mut r.codes, d.w_nulenc);
                    if d.nulenc_term {
                        return Some(r);
                    }
                }
            }
        }
        i += n;
        r.out.extend(b);
    }
    Some(r)
}

/// The parameters of a query string or form.
pub fn params(d: &Dc, s: &[u8], sep: u8, dec: bool) -> Option<(Vec<(Vec<u8>, Vec<u8>)>, u64, Vec<u16>)> {
    let mut v = vec![];
    let (mut fl, mut codes) = (0, vec![]);
    for seg in s.split(|&c| c == sep).filter(|x| !x.is_empty()) {
        let e = seg.iter().position(|&c| c == b'=');
        let (n, val) = match e {
            Some(e) => (&seg[..e], &seg[e + 1..]),
            None => (seg, &b""[..]),
        };
        if !dec {
            v.push((n.to_vec(), val.to_vec()));
            continue;
        }
        let (a, b) = (decode(d, n)?, decode(d, val)?);
        fl |= a.flags | b.flags;
        codes.extend(a.codes.iter().chain(b.codes.iter()));
        v.push((a.out, b.out));
    }
    if v.is_empty() && !s.is_empty() {
        v.push((vec![], vec![]));
    }
    Some((v, fl, codes))
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Parts {
    pub scheme: OB,
    pub user: OB,
    pub pass: OB,
    pub host: OB,
    pub port: OB,
    pub path: OB,
    pub query: OB,
    pub frag: OB,
    pub authority: bool,
}

/// Splits a target. None: not a target whose reading is specified.
pub fn split(s: &[u8]) -> Option<Parts> {
    let mut p = Parts::default();
    let mut rest = s;
    if s.first() != Some(&b'/') {
        if let Some(c) = s.iter().position(|&c| c == b':') {
            p.scheme = Some(s[..c].to_vec());
            rest = &s[c + 1..];
            if rest.starts_with(b"//") && rest.get(2) != Some(&b'/') {
                p.authority = true;
                let a = &rest[2..];
                let e = a.iter().position(|c| b"/?#".contains(c)).unwrap_or(a.len());
                rest = &a[e..];
                let mut a = &a[..e];
                if let Some(at) = a.iter().position(|&c| c == b'@') {
                    let u = &a[..at];
                    match u.iter().position(|&c| c == b':') {
                        Some(k) => {
                            p.user = Some(u[..k].to_vec());
                            p.pass = Some(u[k + 1..].to_vec());
                        }
                        None => p.user = Some(u.to_vec()),
                    }
                    a = &a[at + 1..];
                }
                let hl = if a.first() == Some(&b'[') {
                    match a.iter().position(|&c| c == b']') {
                        None => a.len(),
                        Some(k) => k + 1,
                    }
                } else {
                    a.iter().position(|&c| c == b':').unwrap_or(a.len())
                };
                if hl == 0 {
                    return None;
                }
                p.host = Some(a[..hl].to_vec());
                match a.get(hl) {
                    None => {}
                    Some(b':') => {
                        if hl + 1 < a.len() {
                            p.port = Some(a[hl + 1..].to_vec());
                        }
                    }
                    _ => return None,
                }
            } else if !rest.is_empty() && !b"/?#".contains(&rest[0]) {
                return None;
            }
        }
    }
    let e = rest.iter().position(|c| b"?#".contains(c)).unwrap_or(rest.len());
    if e > 0 {
        p.path = Some(rest[..e].to_vec());
    }
    rest = &rest[e..];
    if rest.first() == Some(&b'?') {
        let e = rest.iter().position(|&c| c == b'#').unwrap_or(rest.len());
        p.query = Some(rest[1..e].to_vec());
        rest = &rest[e..];
    }
    if rest.first() == Some(&b'#') {
        p.frag = Some(rest[1..].to_vec());
    }
    Some(p)
}

/// A port number, if the text is one.
pub fn port(s: &[u8]) -> Option<u16> {
    if s.is_empty() || !s.iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut v: u32 = 0;
    for c in s {
        v = v * 10 + (c - b'0') as u32;
        if v > 65535 {
            return None;
        }
    }
    (v != 0).then_some(v as u16)
}

/// Relaxed host name validity (ASCII).
pub fn valid_host(h: &[u8]) -> bool {
    if h.is_empty() || h.len() > 255 {
        return false;
    }
    if h[0] == b'[' {
        return h.last() == Some(&b']') && h.len() > 2 && v6(&h[1..h.len() - 1]);
    }
    let labels: Vec<&[u8]> = h.split(|&c| c == b'.').collect();
    labels.iter().enumerate().all(|(i, l)| {
        (!l.is_empty() || (i > 0 && i + 1 == labels.len())) && l.len() <= 63 && l.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'-')
    })
}

fn v6(s: &[u8]) -> bool {
    std::str::from_utf8(s).ok().and_then(|s| s.parse::<std::net::Ipv6Addr>().ok()).is_some()
}
