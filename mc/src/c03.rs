//! C03: every call returns, and none panics, for every history, input and configuration.
use crate::eng::*;
use crate::gen::*;
use crate::hist::*;
use crate::rec::*;
use htp::config::*;

fn one(ctx: &Ctx, what: &str, replay: impl Fn() -> String, f: impl FnOnce() -> u64) {
    match guarded(f) {
        Ok(h) => outcome(h),
        Err(m) => ctx.violation(format!("panic:{}", m), format!("{}: panic: {} on {}", what, m, replay()), replay()),
    }
}

fn obs_hash(p: &P) -> u64 {
    h64(&(
        p.txs(),
        REC.with(|r| r.borrow().ev.len()),
        p.c.request_status as u8,
        p.c.response_status as u8,
    ))
}

/// Feed one request stream and one response stream (cut at the given positions) and close.
fn streams(cfg: Config, rq: &[&[u8]], rs: &[&[u8]]) -> u64 {
    reset();
    let mut p = P::new(cfg);
    for s in rq {
        p.req(s);
    }
    for s in rs {
        p.resp(s);
    }
    p.close();
    transitions(p.calls);
    obs_hash(&p)
}

fn all_cfgs() -> Vec<NamedCfg> {
    let mut v = configs();
    v.push(NamedCfg {
        name: "decode-all",
        f: |c| {
            c.set_parse_urlencoded(true);
            c.set_double_decode_normalized_path(true);
            c.set_double_decode_normalized_query(true);
            c.set_backslash_convert_slashes(true);
            c.set_path_separators_compress(true);
            c.set_path_separators_decode(true);
            c.set_u_encoding_decode(true);
            c.set_utf8_convert_bestfit(true);
            c.set_convert_lowercase(true);
            c.set_nul_encoded_terminates(true);
            c.set_nul_raw_terminates(true);
            c.set_url_encoding_invalid_handling(HtpUrlEncodingHandling::PROCESS_INVALID);
            c.set_normalized_uri_include_all(true);
            c.set_allow_space_uri(true);
            c.set_u_encoding_unwanted(HtpUnwanted::CODE_400);
            c.set_url_encoding_invalid_unwanted(HtpUnwanted::CODE_400);
        },
    });
    v.push(NamedCfg {
        name: "remove-percent",
        f: |c| {
            c.set_server_personality(HtpServerPersonality::APACHE_2).unwrap();
            c.set_parse_urlencoded(true);
            c.set_u_encoding_decode(true);
            c.set_url_encoding_invalid_handling(HtpUrlEncodingHandling::REMOVE_PERCENT);
        },
    });
    v
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule("(a) every sequence of <=d API actions (message fragments, gaps, empty chunks, request_close, close) under 5 configurations; (b) every byte string of length <=L over the grammar's special bytes spliced into 14 positions of a request / response; (b') each hole filled with a one- or two-byte pattern repeated up to 300 / 19000 (thorough 70000) bytes, byte-at-a-time resp. in 4000-byte chunks; (c) every single-byte substitution, deletion, insertion and truncation of grammar messages; monitor: each call returns within the hang bound without panicking (overflow checks and debug assertions on). Non-trivial: the stream contains at least one mutation or the history at least two actions.");
    ctx.assume("a call that has not returned after 8 s is reported as a hang");
    // (a) histories
    let acts = alphabet();
    let depth = ctx.pick(3, 4);
    let cfgs = configs();
    all_sequences(ctx, &acts, depth, &cfgs, |cfg, seq| {
        begin(&[cfg.name.as_bytes(), text(seq).as_bytes()]);
        nontrivial();
        one(ctx, "history", || format!("cfg={} {}", cfg.name, text(seq)), || {
            reset();
            let mut p = P::new(build(cfg));
            for a in seq {
                apply(&mut p, *a);
            }
            p.close();
            transitions(p.calls);
            obs_hash(&p)
        });
    });
    // deeper histories on the default configuration, one configuration
    if ctx.quick() {
        all_sequences(ctx, &acts, 4, &cfgs[1..2], |cfg, seq| {
            begin(&[cfg.name.as_bytes(), text(seq).as_bytes()]);
            nontrivial();
            one(ctx, "history", || format!("cfg={} {}", cfg.name, text(seq)), || {
                reset();
                let mut p = P::new(build(cfg));
                for a in seq {
                    apply(&mut p, *a);
                }
                transitions(p.calls);
                obs_hash(&p)
            });
        });
    }
    // unopened parsers
    let mut acts2: Vec<A> = acts.iter().step_by(3).cloned().collect();
    acts2.push(A::Open);
    acts2.push(A::Close);
    all_sequences(ctx, &acts2, 4, &cfgs[0..1], |cfg, seq| {
        begin(&[cfg.name.as_bytes(), text(seq).as_bytes()]);
        one(ctx, "unopened history", || format!("unopened {}", text(seq)), || {
            reset();
            let mut p = P::new_unopened(build(cfg));
            for a in seq {
                apply(&mut p, *a);
            }
            transitions(p.calls);
            obs_hash(&p)
        });
    });

    // (b) byte strings spliced in holes
    let holes: Vec<(bool, &[u8], &[u8])> = vec![
        (true, b"", b""),
        (true, b"GET /", b" HTTP/1.1\r\nHost: a\r\n\r\n"),
        (true, b"GET /a?", b" HTTP/1.1\r\nHost: a\r\n\r\n"),
        (true, b"GET http://", b"/ HTTP/1.1\r\nHost: a\r\n\r\n"),
        (true, b"GET / HTTP/1.1\r\n", b"\r\n\r\n"),
        (true, b"GET / HTTP/1.1\r\nHost:", b"\r\n\r\n"),
        (true, b"GET / HTTP/1.1\r\nAuthorization: Basic", b"\r\n\r\n"),
        (true, b"GET / HTTP/1.1\r\nAuthorization: Digest username=", b"\r\n\r\n"),
        (true, b"POST / HTTP/1.1\r\nContent-Length:", b"\r\n\r\nabc"),
        (true, b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", b"\r\nabc\r\n0\r\n\r\n"),
        (true, b"POST / HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 6\r\n\r\n", b"%u%4%00"),
        (true, b"POST / HTTP/1.1\r\nContent-Length: 2\r\n\r\nab", b"GET / HTTP/1.1\r\n\r\n"),
        (false, b"", b""),
        (false, b"HTTP/", b" 200 OK\r\n\r\n"),
        (false, b"HTTP/1.1 ", b"\r\n\r\n"),
        (false, b"HTTP/1.1 200 OK", b"\r\nContent-Length: 2\r\n\r\nab"),
        (false, b"HTTP/1.1 200 OK\r\n", b"\r\n\r\n"),
        (false, b"HTTP/1.1 200 OK\r\nContent-Length:", b"\r\n\r\nab"),
        (false, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", b"\r\nabc\r\n0\r\n\r\n"),
        (false, b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\n\r\n\x1f\x8b\x08", b"abcdefgh"),
        (false, b"HTTP/1.1 200 OK\r\nContent-Encoding:", b"\r\n\r\nabcdefgh"),
        (false, b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nab", b"HTTP/1.1 200 OK\r\n\r\n"),
    ];
    let l = ctx.pick(3, 4);
    let al: Vec<u8> = ctx.pick(BYTES[..20].to_vec(), BYTES.to_vec());
    let cf = all_cfgs();
    let cfsel: Vec<usize> = (0..cf.len()).collect();
    let n_first = al.len() + 1;
    ctx.par(
        holes.len() * cfsel.len() * n_first,
        |i| format!("hole {}", i),
        |i| {
            let (rq, pre, post) = holes[i % holes.len()];
            let cfg = &cf[cfsel[(i / holes.len()) % cfsel.len()]];
            let fi = i / holes.len() / cfsel.len();
            let mut s: Vec<u8> = vec![];
            if fi > 0 {
                s.push(al[fi - 1]);
            }
            let maxlen = if fi == 0 { 0 } else { l };
            strings(&al, &mut s, maxlen, &mut |m| {
                let full = cat(&[pre, m, post]);
                begin(&[cfg.name.as_bytes(), &full]);
                if !m.is_empty() {
                    nontrivial();
                }
                one(ctx, "hole", || format!("cfg={} {}[{}]", cfg.name, if rq { "req" } else { "resp" }, show(&full)), || {
                    if rq {
                        streams(build(cfg), &[&full], &[b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"])
                    } else {
                        streams(build(cfg), &[b"GET / HTTP/1.1\r\nHost: a\r\n\r\n"], &[&full])
                    }
                });
            });
        },
    );

    // (b') long repetitions: work must stay bounded
    let reps = ctx.pick(&[300usize, 19000][..], &[300usize, 5000, 70000][..]);
    let np = al.len() * (al.len() + 1);
    ctx.par(
        holes.len() * np,
        |i| format!("long {}", i),
        |i| {
            let (rq, pre, post) = holes[i % holes.len()];
            let k = i / holes.len();
            let (a, b) = (k % al.len(), k / al.len());
            for &n in reps {
                if n > 5000 && ctx.quick() && k % 7 != 0 {
                    continue;
                }
                let mut m = vec![];
                while m.len() < n {
                    m.push(al[a]);
                    if b > 0 {
                        m.push(al[b - 1]);
                    }
                }
                let full = cat(&[pre, &m, post]);
                let cfg = &cf[if n > 300 { 2 } else { i % cf.len() }];
                begin(&[cfg.name.as_bytes(), pre, &m[..2], b"repeated", post]);
                nontrivial();
                one(ctx, "long", || format!("cfg={} {}[{}{}*{}{}]", cfg.name, if rq { "req" } else { "resp" }, show(pre), show(&m[..2]), n, show(post)), || {
                    let mut cuts: Vec<&[u8]> = vec![];
                    if n <= 300 {
                        cuts.extend(full.chunks(1));
                    } else {
                        cuts.extend(full.chunks(4000));
                    }
                    if rq {
                        streams(build(cfg), &cuts, &[b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"])
                    } else {
                        streams(build(cfg), &[b"GET / HTTP/1.1\r\nHost: a\r\n\r\n"], &cuts)
                    }
                });
            }
        },
    );

    // (c) mutations
    let mut msgs: Vec<(bool, Vec<u8>)> = vec![];
    for m in requests().into_iter().step_by(ctx.pick(3, 1)) {
        msgs.push((true, m));
    }
    for m in responses().into_iter().step_by(ctx.pick(3, 1)) {
        msgs.push((false, m));
    }
    for e in ["gzip", "deflate", "lzma", "gzip, gzip"] {
        for b in compressed_bodies() {
            let mut v = format!("HTTP/1.1 200 OK\r\nContent-Encoding: {}\r\nContent-Length: {}\r\n\r\n", e, b.len()).into_bytes();
            v.extend_from_slice(&b);
            msgs.push((false, v));
        }
    }
    let subs: Vec<u8> = (0..=255u8).collect();
    ctx.par(
        msgs.len(),
        |i| show(&msgs[i].1),
        |i| {
            let (rq, m) = &msgs[i];
            for cfg in [&cf[2], &cf[5]] {
                mutations(m, &subs, &mut |x| {
                    begin(&[cfg.name.as_bytes(), x]);
                    nontrivial();
                    one(ctx, "mutation", || format!("cfg={} {}[{}]", cfg.name, if *rq { "req" } else { "resp" }, show(x)), || {
                        let (a, b) = x.split_at(x.len() / 2);
                        if *rq {
                            streams(build(cfg), &[a, b], &[b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"])
                        } else {
                            streams(build(cfg), &[b"GET / HTTP/1.1\r\nHost: a\r\n\r\n"], &[a, b])
                        }
                    });
                });
            }
        },
    );
    ctx.sample(format!("cfg=auto_destroy {}", text(&acts[0..4])));
    ctx.sample(format!("hole request GET /<m> HTTP/1.1 with m over {}", show(&al)));
}

pub fn strings(al: &[u8], s: &mut Vec<u8>, maxlen: usize, f: &mut dyn FnMut(&[u8])) {
    f(s);
    if s.len() >= maxlen {
        return;
    }
    for &c in al {
        s.push(c);
        strings(al, s, maxlen, f);
        s.pop();
    }
}

pub fn mutations(m: &[u8], subs: &[u8], f: &mut dyn FnMut(&[u8])) {
    for i in 0..m.len() {
        f(&m[..i]);
        let mut x = m.to_vec();
        x.remove(i);
        f(&x);
        for &s in subs {
            let mut x = m.to_vec();
            x[i] = s;
            f(&x);
        }
        for &s in b"\r\n \0:;0\xff" {
            let mut x = m.to_vec();
            x.insert(i, s);
            f(&x);
        }
    }
}
