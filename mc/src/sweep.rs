//! Byte values. The grammars of the other explorations use small alphabets; here every place of a
//! message takes every byte value, and every pair of byte values, against the same references.
use crate::c18::{self, same, El, LineCfg};
use crate::eng::*;
use crate::rec::*;
use crate::uriref as u;
use htp::config::Config;
use htp::connection_parser::HtpStreamState as St;
use htp::util::HtpFlags as F;

type R = Result<(), String>;

/// Fills the mark \x01\x02 of each template with every byte, and with every pair of bytes.
fn sweep(ctx: &Ctx, what: &str, templates: &[&[u8]], pairs: bool, f: impl Fn(usize, &[u8], &[u8]) -> R + Sync) {
    ctx.note(&format!("byte values: {}", what), templates.len());
    ctx.par(256, |a| format!("{} with byte {:02x}", what, a), |a| {
        let mut go = |hole: &[u8]| {
            for (i, t) in templates.iter().enumerate() {
                let k = t.windows(2).position(|w| w == b"\x01\x02").unwrap();
                let s = [&t[..k], hole, &t[k + 2..]].concat();
                begin(&[what.as_bytes(), &s]);
                nontrivial();
                let m = match guarded(|| {
                    reset();
                    f(i, hole, &s)
                }) {
                    Ok(Ok(())) => continue,
                    Ok(Err(_)) if ctx.id == "C03" => continue,
                    Ok(Err(m)) => m,
                    Err(m) => format!("panic {}", m),
                };
                let m: String = m.chars().take(400).collect();
                ctx.violation(format!("bytes:{}:{}", what, i), format!("{}: {} on [{}]", what, m, show(&s)), show(&s));
            }
        };
        go(&[a as u8]);
        if pairs {
            for b in 0..=255u8 {
                go(&[a as u8, b]);
            }
        }
    });
}
fn bytes(what: &str, got: &[u8], want: &[u8]) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is [{}] instead of [{}]", what, show(got), show(want)))
    }
}
fn token(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c)
}
const OKQ: &[u8] = b"GET / HTTP/1.1\r\nHost: h\r\n\r\n";
const OKS: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";

fn startlines(ctx: &Ctx) {
    let c = Config::default();
    let l = LineCfg { space: false, unwanted: false, apache: false };
    sweep(
        ctx,
        "request line",
        &[
            b"\x01\x02ET / HTTP/1.1", b"G\x01\x02T / HTTP/1.1", b"GET\x01\x02/ HTTP/1.1", b"GET /\x01\x02 HTTP/1.1", b"GET /a\x01\x02c HTTP/1.1", b"GET / \x01\x02HTTP/1.1",
            b"GET / H\x01\x02TP/1.1", b"GET / HTTP\x01\x021.1", b"GET / HTTP/\x01\x02.1", b"GET / HTTP/1\x01\x021", b"GET / HTTP/1.\x01\x02",
        ],
        true,
        |_, hole, s| {
            // the end of the line is taken up elsewhere
            if hole.iter().any(|c| b"\r\n\x0b".contains(c)) {
                return Ok(());
            }
            c18::check_reqline(l, &c, s, b"\r\n", 0, false)
        },
    );
    sweep(
        ctx,
        "status line",
        &[b"HTTP/1.1 2\x01\x02 OK", b"HTTP/1.1 200 O\x01\x02K", b"HTTP/1.1 200\x01\x02OK", b"HTTP/\x01\x02 200 OK", b"HTTP/1.1\x01\x02200 OK", b"HTTP/1.1 200 \x01\x02"],
        true,
        |i, hole, s| {
            if hole.iter().any(|c| b"\r\n\x0b".contains(c)) || i == 3 && hole[0] == b'.' {
                return Ok(());
            }
            c18::check_statusline(&c, s, b"\r\n", false, false)
        },
    );
}
fn el(text: &[u8], name: &[u8], value: &[u8], flags: u64) -> El {
    El { text: text.to_vec(), name: name.to_vec(), value: value.to_vec(), flags }
}
fn fields(ctx: &Ctx) {
    let after = el(b"Z: z", b"Z", b"z", 0);
    sweep(ctx, "field value", &[b"A: x\x01\x02y", b"A: \x01\x02y", b"A: x\x01\x02"], true, |i, hole, s| {
        if hole.iter().any(|c| b"\r\n\0~".contains(c)) || i > 0 && hole.iter().any(|c| c18::ws(*c)) {
            return Ok(());
        }
        let e = el(s, b"A", &s[3..], 0);
        for place in 0..4 {
            c18::check_fields(&[&e, &after], &[b"\r\n", b"\r\n", b"\r\n"], place, false, b"")?;
        }
        Ok(())
    });
    sweep(ctx, "field name", &[b"x\x01\x02y: v", b"\x01\x02y: v", b"x\x01\x02: v"], true, |i, hole, s| {
        if hole.iter().any(|c| b"\r\n\0:~".contains(c)) || i > 0 && hole.iter().any(|c| c18::ws(*c)) {
            return Ok(());
        }
        let name = &s[..s.len() - 3];
        let e = el(s, name, b"v", if name.iter().all(|c| token(*c)) { 0 } else { F::FIELD_INVALID });
        for place in 0..4 {
            c18::check_fields(&[&e, &after], &[b"\r\n", b"\r\n", b"\r\n"], place, false, b"")?;
        }
        Ok(())
    });
}
/// the byte values as characters, so that the references that take text can be used
fn chars(ctx: &Ctx, what: &str, templates: &[&str], f: impl Fn(usize, &str) -> R + Sync) {
    let t: Vec<Vec<u8>> = templates.iter().map(|t| t.replace('@', "\x01\x02").into_bytes()).collect();
    let t: Vec<&[u8]> = t.iter().map(|t| &t[..]).collect();
    sweep(ctx, what, &t, true, |i, hole, s| {
        if hole.iter().any(|c| b"\r\n\0~".contains(c) || *c > 127) {
            return Ok(());
        }
        f(i, std::str::from_utf8(s).unwrap())
    });
}
fn message(p: &mut P, resp: bool, how: usize, b: &[u8]) -> R {
    let n = b.len();
    let (head, wire): (String, Vec<u8>) = match how {
        0 => (format!("Content-Length: {}\r\n", n), b.to_vec()),
        1 => ("Transfer-Encoding: chunked\r\n".into(), [format!("{:x}\r\n", n).as_bytes(), b, b"\r\n0\r\n\r\n"].concat()),
        _ => (String::new(), b.to_vec()),
    };
    let first = if resp {
        p.req(OKQ);
        "HTTP/1.1 200 OK\r\n"
    } else {
        "POST / HTTP/1.1\r\nHost: h\r\n"
    };
    let w = [first.as_bytes(), head.as_bytes(), b"\r\n", &wire].concat();
    let st = if resp { p.resp(&w) } else { p.req(&w) };
    same("answer", st, St::DATA)
}

pub fn property(ctx: &Ctx, id: &str) {
    if ctx.id == id && ["C01", "C02", "C03", "C07", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C23", "C25", "C27"].contains(&id) {
        ctx.rule("Byte sweeps: every place of the messages listed in the notes takes every byte value and every pair of byte values");
    }
    match id {
        "C01" | "C02" => {
            let resp = id == "C02";
            let t: &[&[u8]] = if resp {
                &[
                    b"HTTP/1.1 200 O\x01\x02K\r\nContent-Length: 3\r\n\r\nabc", b"HTTP/1.1 200 OK\r\nA: x\x01\x02y\r\nContent-Length: 3\r\n\r\nabc", b"HTTP/1.1 200 OK\r\nA\x01\x02: y\r\nContent-Length: 3\r\n\r\nabc",
                    b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\na\x01\x02", b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\na\x01\x02\r\n0\r\n\r\n", b"HTTP/1.1 200 OK\r\n\r\na\x01\x02c",
                    b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3;\x01\x02\r\nabc\r\n0\r\nT: \x01\x02u\r\n\r\n",
                ]
            } else {
                &[
                    b"POST /x\x01\x02y HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nabc", b"P\x01\x02T / HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nabc", b"POST / HTTP/1.1\r\nA: x\x01\x02y\r\nContent-Length: 3\r\n\r\nabc",
                    b"POST / HTTP/1.1\r\nA\x01\x02: x\r\nContent-Length: 3\r\n\r\nabc", b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\na\x01\x02", b"POST / HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n3\r\na\x01\x02\r\n0\r\n\r\n",
                    b"POST / HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n3;\x01\x02\r\nabc\r\n0\r\nT: u\r\n\r\n",
                ]
            };
            sweep(ctx, "message", t, false, |_, hole, s| {
                if hole.iter().any(|c| b"\r\n".contains(c)) {
                    return Ok(());
                }
                let run = |cut: usize| {
                    reset();
                    let mut p = P::new(cfg_default());
                    if resp {
                        p.req(OKQ);
                    }
                    for x in [&s[..cut], &s[cut..]] {
                        if !x.is_empty() {
                            if resp {
                                p.resp(x);
                            } else {
                                p.req(x);
                            }
                        }
                    }
                    if resp {
                        p.close();
                    }
                    transitions(p.calls);
                    p.obs()
                };
                let whole = run(0);
                for cut in 1..s.len() {
                    let got = run(cut);
                    if got != whole {
                        return Err(format!("cut at {}: {}", cut, diff(&got, &whole)));
                    }
                }
                Ok(())
            });
        }
        "C07" => {
            sweep(ctx, "body", &[b"\x01\x02", b"a\x01\x02", b"\x01\x02a"], true, |_, _, s| {
                for (resp, how) in [(false, 0), (false, 1), (true, 0), (true, 1), (true, 2)] {
                    reset();
                    let mut p = P::new(cfg_default());
                    message(&mut p, resp, how, s)?;
                    if how == 2 {
                        p.close();
                    } else if resp {
                        same("next request", p.req(b"GET /n HTTP/1.1\r\nHost: h\r\n\r\n"), St::DATA)?;
                        same("next response", p.resp(OKS), St::DATA)?;
                    } else {
                        same("next request", p.req(b"GET /n HTTP/1.1\r\nHost: h\r\n\r\n"), St::DATA)?;
                    }
                    transitions(p.calls);
                    let ev = take_events();
                    bytes("body", &body(&ev, if resp { H::RESP_BODY_DATA } else { H::REQ_BODY_DATA }, 0), s)?;
                    let t = p.tx(0).ok_or("no transaction")?;
                    same("entity length", if resp { t.response_entity_len } else { t.request_entity_len }, s.len() as u64)?;
                    same("progress", if resp { t.sp } else { t.rp }, 5)?;
                    if how != 2 {
                        bytes("next target", &p.tx(1).ok_or("no next transaction")?.request_uri.unwrap_or_default(), b"/n")?;
                    }
                }
                Ok(())
            });
            sweep(ctx, "head", &[b"GET /a\x01\x02b HTTP/1.1\r\nHost: h\r\nA: v\r\n\r\n", b"GET /ab HTTP/1.1\r\nHost: h\r\nA: v\x01\x02w\r\n\r\n"], true, |i, hole, s| {
                if hole.iter().any(|c| *c <= 32 || *c == 127) {
                    return Ok(());
                }
                let mut p = P::new(cfg_default());
                same("request", p.req(s), St::DATA)?;
                same("response", p.resp(&[b"HTTP/1.1 200 r", hole, b"s\r\nB: v", hole, b"w\r\nContent-Length: 0\r\n\r\n"].concat()), St::DATA)?;
                transitions(p.calls);
                let t = p.tx(0).ok_or("no transaction")?;
                let fill = |a: &[u8], z: &[u8], on: bool| [a, if on { hole } else { b"" }, z].concat();
                bytes("target", &t.request_uri.clone().unwrap_or_default(), &fill(b"/a", b"b", i == 0))?;
                bytes("value", &t.request_headers[1].1, &if i == 1 { fill(b"v", b"w", true) } else { b"v".to_vec() })?;
                bytes("reason", &t.response_message.clone().unwrap_or_default(), &fill(b"r", b"s", true))?;
                bytes("response value", &t.response_headers[0].1, &fill(b"v", b"w", true))?;
                same("progress", (t.rp, t.sp), (5, 5))
            });
        }
        "C15" => {
            let d = u::PLAIN;
            let c = crate::c15::cfg(&d);
            let t: &[&[u8]] = &[
                b"/a\x01\x02b", b"/a?b\x01\x02c", b"/a?b#c\x01\x02d", b"http://u\x01\x02:p@h/", b"http://u:p\x01\x02@h/", b"http://h\x01\x02x/", b"http://h:8\x01\x02/", b"ht\x01\x02p://h/", b"http:/\x01\x02h/", b"//\x01\x02h/x", b"http://[\x01\x02]/", b"http://\x01\x02h/y", b"\x01\x02", b"http://h/%\x01\x02", b"http://h%\x01\x02/", b"/a#%\x01\x02",
            ];
            sweep(ctx, "target", t, true, |_, hole, s| {
                if !hole.iter().any(|c| c18::ws(*c)) {
                    crate::c15::one_target(ctx, &d, &c, s);
                }
                Ok(())
            });
        }
        "C16" => {
            let ds: Vec<u::Dc> = crate::c15::path_cfgs(false);
            let cs: Vec<Config> = ds.iter().map(crate::c15::cfg).collect();
            ctx.note("byte values: settings", ds.len());
            sweep(ctx, "path", &[b"/\x01\x02x", b"/a/\x01\x02/b", b"/%\x01\x02x", b"/%u00\x01\x02x", b"/%u\x01\x0241x", b"/\xc3\x01\x02x"], true, |_, hole, s| {
                if !hole.iter().any(|c| c18::ws(*c) || b"?#".contains(c)) {
                    // every setting for single bytes, some for pairs
                    let step = if hole.len() == 1 { 1 } else { 1 + ds.len() / 6 };
                    for k in (0..ds.len()).step_by(step) {
                        crate::c15::one_path(ctx, &ds[k], &cs[k], s);
                    }
                }
                Ok(())
            });
        }
        "C17" => {
            let ds = [u::PLAIN, u::Dc { udec: true, ..u::PLAIN }];
            let cs: Vec<Config> = ds.iter().map(crate::c15::cfg).collect();
            sweep(ctx, "query", &[b"a\x01\x02b=c&d", b"a=b\x01\x02c&d", b"a=%\x01\x02&d", b"a%\x01\x02=x", b"a=%u00\x01\x02&d", b"\x01\x02"], true, |_, hole, s| {
                for (d, c) in ds.iter().zip(&cs) {
                    crate::c15::check_params(d, c, s, if hole.len() == 1 { 1 } else { 0 }, !hole.iter().any(|c| c18::ws(*c)), (b'&', true))?;
                }
                Ok(())
            });
        }
        "C18" => startlines(ctx),
        "C19" => fields(ctx),
        "C20" => {
            chars(ctx, "Content-Length", &[" @3", " 3@", " 1@2", "@"], |_, v| {
                c18::req_framing(&[], &[v], true, "HTTP/1.1", "\r\n")?;
                c18::resp_framing(&[], &[v], true, "HTTP/1.1", 200, "GET", false, "\r\n")
            });
            chars(ctx, "Transfer-Encoding", &[" @chunked", " chunked@", " chun@ked", "@"], |_, v| {
                c18::req_framing(&[v], &[], true, "HTTP/1.1", "\r\n")?;
                c18::resp_framing(&[v], &[], true, "HTTP/1.1", 200, "GET", false, "\r\n")
            });
        }
        "C21" => {
            chars(ctx, "Host", &[" @h", " h@", " h@x", " h:8@"], |_, v| {
                // what a Host with the marks of a target or inner space names is left open
                if v[1..].bytes().any(|c| b"/?#[".contains(&c) || c18::ws(c)) {
                    return Ok(());
                }
                c18::check_host("/", None, &[v], "HTTP/1.1")
            });
            let c = cfg_default();
            let b64 = |b: &[u8]| -> Vec<u8> { crate::scale::b64(b) };
            sweep(ctx, "user and password", &[b"u\x01\x02:p", b"u:p\x01\x02", b"\x01\x02:", b":\x01\x02"], true, |_, _, s| c18::check_auth(&c, &[b"Basic ", &b64(s)[..]].concat(), true).map(|_| ()));
            sweep(ctx, "authorization", &[b"Basic \x01\x02", b"Basic dTp\x01\x02", b"Basic\x01\x02dTpw", b"Digest username=\"a\x01\x02b\"", b"Digest username=\x01\x02\"ab\"", b"Digest\x01\x02username=\"ab\"", b"Bearer \x01\x02t", b"Bearer t\x01\x02u", b"B\x01\x02sic dTpw"], true, |_, hole, s| {
                if hole.iter().any(|c| b"\r\n\0\x0b".contains(c)) || s.last().is_some_and(|c| c18::ws(*c)) {
                    return Ok(());
                }
                c18::check_auth(&c, s, true).map(|_| ())
            });
        }
        "C23" => {
            use crate::c23::{both, Op, Opt};
            use crate::hist::A;
            sweep(ctx, "conversation", &[b"POST /a\x01\x02b?c HTTP/1.1\r\nHost: h\r\nA: \r\n\r\n", b"POST / HTTP/1.1\r\nHost: h\r\nA\x01\x02: v\r\n\r\n", b"POST / HTTP/1.1\r\nHost: h\x01\x02\r\nA: v\x01\x02w\r\nContent-Length: 2\r\n\r\n\x01\x02"], false, |_, hole, s| {
                let leak = |w: Vec<u8>| -> &'static [u8] { Box::leak(w.into_boxed_slice()) };
                let r = [b"HTTP/1.1 200 r", hole, b"s\r\nB", hole, b": v", hole, b"w\r\nContent-Length: 2\r\n\r\n", hole, hole].concat();
                both(&vec![], &[Op::A(A::Q(leak(s.to_vec()))), Op::A(A::S(leak(r))), Op::A(A::Close)], &Opt { txhook: true, ud: true, ..Default::default() })
            });
        }
        "C25" => {
            let c = cfg_default();
            sweep(ctx, "chunked body", &[b"\x01\x02\r\nabcdefghijklmnop", b"3\x01\x02\r\nabc\r\n0\r\n", b"3\r\nabc\x01\x02\n0\r\n", b"3\r\na\x01\x02\r\n0\r\n", b"0\x01\x02\r\n", b"3\r\n\x01\x02c\r\n\x01\x02"], true, |_, _, s| {
                for resp in [false, true] {
                    let w = crate::c25::reference(s, resp);
                    if w.odd() || w.at() < s.len() {
                        continue;
                    }
                    crate::c25::run_one(&c, s, &w, resp, &[s], false)?;
                    let b: Vec<&[u8]> = s.chunks(1).collect();
                    crate::c25::run_one(&c, s, &w, resp, &b, true)?;
                }
                Ok(())
            });
        }
        "C27" => {
            sweep(ctx, "HTTP/0.9 body", &[b"\x01\x02", b"\x01\x02TTP/1.1 200 OK\r\nA: b\r\n\r\n", b"H\x01\x02", b"\r\n\x01\x02x"], true, |_, _, s| {
                let mut p = P::new(cfg_default());
                same("request", p.req(b"GET /\r\n"), St::DATA)?;
                same("response", p.resp(s), St::DATA)?;
                p.close();
                transitions(p.calls);
                let t = p.tx(0).ok_or("no transaction")?;
                bytes("body", &body(&take_events(), H::RESP_BODY_DATA, 0), s)?;
                same("fields", t.response_headers.len(), 0)?;
                same("progress", (t.rp, t.sp), (5, 5))
            });
        }
        // what was reported is left to the other properties: here, that the calls return
        "C03" => {
            for o in ["C01", "C02", "C07", "C17", "C18", "C19", "C20", "C21", "C23", "C25", "C27"] {
                property(ctx, o);
            }
        }
        _ => {}
    }
}
