//! C29: parsers do not influence one another: every interleaving of the calls of two or three
//! connections, each compared with the same connection alone.
use crate::eng::*;
use crate::gen::*;
use crate::rec::*;
use htp::config::{Config, HtpServerPersonality, HtpUrlEncodingHandling};

#[derive(Clone)]
enum Op {
    Q(Vec<u8>),
    S(Vec<u8>),
    Gq(usize),
    Gs(usize),
    CloseQ,
    Close,
    /// the parser is dropped, and a new one takes its place
    Renew,
}
use Op::*;

type Script = (&'static str, fn() -> Config, Vec<Op>);

fn plain() -> Config {
    cfg_default()
}
fn decoding() -> Config {
    let mut c = cfg_default();
    c.set_server_personality(HtpServerPersonality::IDS).unwrap();
    c.set_parse_urlencoded(true);
    c.set_double_decode_normalized_path(true);
    c.set_url_encoding_invalid_handling(HtpUrlEncodingHandling::PROCESS_INVALID);
    c.set_bestfit_replacement_byte(b'#');
    c
}
fn unpack() -> Config {
    let mut c = cfg_default();
    c.set_request_decompression(true);
    c.set_tx_auto_destroy(true);
    c
}
fn tight() -> Config {
    let mut c = cfg_default();
    c.set_field_limit(60);
    c.max_tx = 2;
    c.set_flush_incomplete(true);
    c
}

fn quiet() -> Config {
    let mut c = cfg_default();
    c.log_level = htp::log::HtpLogLevel::ERROR;
    c.set_server_personality(HtpServerPersonality::IIS_7_5).unwrap();
    c.set_allow_space_uri(true);
    c.set_backslash_convert_slashes(false);
    c
}

fn scripts() -> Vec<Script> {
    let q = |s: &str| Q(s.as_bytes().to_vec());
    let s = |x: &str| S(x.as_bytes().to_vec());
    let z = |name: &str, b: Vec<u8>| [format!("HTTP/1.1 200 OK\r\nContent-Encoding: {}\r\nContent-Length: {}\r\n\r\n", name, b.len()).into_bytes(), b].concat();
    let parts = |b: Vec<u8>, at: &[usize]| -> Vec<Vec<u8>> {
        let cuts: Vec<usize> = at.iter().cloned().filter(|c| *c < b.len()).collect();
        segments(&b, &cuts).into_iter().map(|x| x.to_vec()).collect()
    };
    let text = b"the quick brown fox jumps over the lazy dog and over it again, and again".to_vec();
    let mut gz = vec![q("GET /z HTTP/1.1\r\nHost: z\r\n\r\n")];
    gz.extend(parts(z("gzip", gzip(&text)), &[60, 80, 95]).into_iter().map(S));
    gz.push(Close);
    let mut lz = vec![];
    let b = lzma(&text);
    let m = [format!("POST /l HTTP/1.1\r\nHost: l\r\nContent-Encoding: lzma\r\nContent-Length: {}\r\n\r\n", b.len()).into_bytes(), b].concat();
    lz.extend(parts(m, &[70, 90, 120]).into_iter().map(Q));
    lz.push(s("HTTP/1.1 204 N\r\n\r\n"));
    let mut both = vec![q("GET /b HTTP/1.1\r\nHost: b\r\n\r\n")];
    both.extend(parts(z("deflate, gzip", gzip(&deflate(&text))), &[75, 100]).into_iter().map(S));
    vec![
        ("chunked", plain, vec![q("POST /c HTTP/1.1\r\nTransfer-Encoding: chu"), q("nked\r\nHost: a\r\n\r\n3\r\nab"), q("c\r\n0\r"), q("\n\r\n"), s("HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx")]),
        ("gzip", plain, gz),
        ("lzma request", unpack, lz),
        ("chain", unpack, both),
        ("decoding", decoding, vec![q("GET /a%2541%u00e9/..//B?x=%41&y"), q("=%u0041+ HTTP/1.1\r\nHost: H\r\nCookie: a"), q("=b\r\n f\r\n\r\n"), s("HTTP/1.0 302 Found\r\nLocation: /\r\n\r\nbody"), Close]),
        ("broken", tight, vec![q("POST / HTTP/1.1\r\nContent-Length: x\r\n\r\n"), s("HTTP/1.1 200 OK\r\n\r\n"), q("more"), s(&"y".repeat(90)), Close]),
        ("limits", tight, vec![q("GET /1 HTTP/1.1\r\n\r\nGET /2 HTTP/1.1\r\n\r\n"), q("GET /3 HTTP/1.1\r\n"), s("HTTP/1.1 200 OK\r\nX: "), s(&"z".repeat(70)), Close]),
        ("gaps", plain, vec![q("PUT /g HTTP/1.1\r\nContent-Length: 6\r\n\r\na"), Gq(3), q("bc"), s("HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nq"), Gs(4)]),
        ("pipeline", unpack, vec![q("GET /1 HTTP/1.1\r\n\r\nGET /2 HTTP/1.1\r\n\r\nHE"), q("AD /3 HTTP/1.1\r\n\r\n"), s("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\n\r\nHTTP/1.1 2"), s("00 OK\r\nContent-Length: 0\r\n\r\n"), s("HTTP/1.1 200 OK\r\nContent-Length: 9\r\n\r\n")]),
        ("tunnel", plain, vec![q("CONNECT h:1 HTTP/1.1\r\n\r\n"), s("HTTP/1.1 200 OK\r\n"), s("\r\n"), q("\x16\x03\x01binary\n"), s("\x16\x03\n")]),
        ("renewed", decoding, vec![q("GET /first HTTP/1.1\r\nA: "), Renew, q("\r\n\r\nGET /se%63ond HTTP/1.1\r\nB: c\r\n\r\n"), s("HTTP/1.1 500 No\r\nContent-Length: 0\r\n\r\n"), CloseQ]),
        ("quiet", quiet, vec![q(" GET /a\\b c%41 HTTP/1.1\r\nHost: h\r\nA : "), q("b\r\nA: c\r\n\r\n"), s("HTTP/1.1 204 N\r\nno colon\r\n"), s("Content-Length: 0\r\n\r\n"), s("x\r\n")]),
        ("unsolicited", plain, vec![s("HTTP/1.1 200 OK\r\nContent-Le"), s("ngth: 2\r\n\r\nab"), q("GET / HTTP/1.1\r\n\r\n"), s("junk\r\n"), Close]),
    ]
}

struct Conn {
    p: P,
    rec: Rec,
    cfg: fn() -> Config,
    states: Vec<String>,
    past: Vec<Obs>,
}
impl Conn {
    fn new(cfg: fn() -> Config) -> Conn {
        Conn { p: P::new(cfg()), rec: Rec::default(), cfg, states: vec![], past: vec![] }
    }
    fn obs(&mut self) -> Obs {
        REC.with(|r| std::mem::swap(&mut *r.borrow_mut(), &mut self.rec));
        let o = self.p.obs();
        REC.with(|r| std::mem::swap(&mut *r.borrow_mut(), &mut self.rec));
        o
    }
    fn step(&mut self, o: &Op) {
        if let Renew = o {
            let o = self.obs();
            self.past.push(o);
            self.p = P::new((self.cfg)());
            return;
        }
        REC.with(|r| std::mem::swap(&mut *r.borrow_mut(), &mut self.rec));
        let p = &mut self.p;
        let st = match o {
            Q(b) => format!("{:?} {}", p.req(b), p.req_consumed()),
            S(b) => format!("{:?} {}", p.resp(b), p.resp_consumed()),
            Gq(n) => format!("{:?} {}", p.req_gap(*n), p.req_consumed()),
            Gs(n) => format!("{:?} {}", p.resp_gap(*n), p.resp_consumed()),
            CloseQ => {
                p.req_close();
                String::new()
            }
            Close => {
                p.close();
                String::new()
            }
            Renew => String::new(),
        };
        self.states.push(st);
        REC.with(|r| std::mem::swap(&mut *r.borrow_mut(), &mut self.rec));
    }
    fn finish(mut self) -> (Vec<String>, Vec<Obs>) {
        let o = self.obs();
        self.past.push(o);
        (self.states, self.past)
    }
}

/// One script in a process of its own.
pub fn alone(i: usize) {
    let sc = scripts();
    reset();
    let mut x = Conn::new(sc[i].1);
    for o in &sc[i].2 {
        x.step(o);
    }
    let r = x.finish();
    print!("{}\n{:?}", h64(&r), r);
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule("every pair of the scripts (and each with itself), every interleaving of their calls, on two live parsers in one process, and of the first 2 (thorough: 3) calls of every three; answers, callbacks, transactions, counters and logs of each connection are compared with the same script run alone in a process of its own. Non-trivial: the calls of the connections alternate.");
    let sc = scripts();
    ctx.note("scripts", sc.len());
    // (each alone means in a process of its own)
    let mut alone = vec![];
    for i in 0..sc.len() {
        let o = std::env::current_exe().and_then(|e| std::process::Command::new(e).args(["alone29", &i.to_string()]).env("MC_NOTE", "").stderr(std::process::Stdio::null()).output());
        match o {
            Ok(o) if o.status.success() => {
                let t = String::from_utf8_lossy(&o.stdout).to_string();
                let (h, t) = t.split_once('\n').unwrap_or(("0", ""));
                alone.push((h.parse::<u64>().unwrap_or(0), t.to_string()));
            }
            Ok(o) => {
                ctx.violation(format!("alone:{}", sc[i].0), format!("the script {} alone ended with {:?}", sc[i].0, o.status), sc[i].0);
                return;
            }
            Err(e) => panic!("{}", e),
        }
    }
    let n = sc.len();
    let first = ctx.pick(2, 3);
    for k in [2usize, 3] {
    let jobs = n.pow(k as u32);
    ctx.par(jobs, |i| format!("scripts {}", i), |i| {
        let ids: Vec<usize> = (0..k).map(|j| i / n.pow(j as u32) % n).collect();
        let mut left: Vec<usize> = ids.iter().map(|j| sc[*j].2.len()).collect();
        // three at a time: the first calls of each
        if k == 3 {
            left.iter_mut().for_each(|l| *l = (*l).min(first));
        }
        let mut order = vec![];
        go(ctx, &sc, &ids, &alone, &mut left, &mut order, k == 3);
    });
    }
}

fn go(ctx: &Ctx, sc: &[Script], ids: &[usize], alone: &[(u64, String)], left: &mut Vec<usize>, order: &mut Vec<usize>, part: bool) {
    if left.iter().all(|l| *l == 0) {
        let names: Vec<_> = ids.iter().map(|i| sc[*i].0).collect();
        let what = format!("{:?} in the order {:?}", names, order);
        begin(&[what.as_bytes()]);
        if order.windows(2).filter(|w| w[0] != w[1]).count() > 1 {
            nontrivial();
        }
        let r = guarded(|| {
            reset();
            let mut cs: Vec<Conn> = ids.iter().map(|i| Conn::new(sc[*i].1)).collect();
            let mut at = vec![0; ids.len()];
            for c in order.iter() {
                cs[*c].step(&sc[ids[*c]].2[at[*c]]);
                at[*c] += 1;
            }
            // in the partial runs the rest of each script follows, one connection after the other
            if part {
                for c in 0..ids.len() {
                    for o in &sc[ids[c]].2[at[c]..] {
                        cs[c].step(o);
                    }
                }
            }
            transitions(order.len() as u64);
            cs.into_iter().map(|c| c.finish()).collect::<Vec<_>>()
        });
        let m = match r {
            Ok(v) => {
                let mut m = None;
                for (c, got) in v.iter().enumerate() {
                    outcome(h64(&(ids[c], got)));
                    let want = &alone[ids[c]];
                    if h64(got) != want.0 {
                        let g = format!("{:?}", got);
                        let at = g.bytes().zip(want.1.bytes()).take_while(|(a, b)| a == b).count();
                        let cut = |t: &str| String::from_utf8_lossy(&t.as_bytes()[at.saturating_sub(60).min(t.len())..(at + 100).min(t.len())]).to_string();
                        m = Some(format!("connection {} ({}) differs from the same connection alone: ...{}... instead of ...{}...", c, names[c], cut(&g), cut(&want.1)));
                        break;
                    }
                }
                m
            }
            Err(m) => Some(format!("panic {}", m)),
        };
        if let Some(m) = m {
            ctx.violation(format!("isolation:{}", what), format!("{} ({})", m, what), what);
        }
        return;
    }
    for c in 0..ids.len() {
        if left[c] > 0 {
            left[c] -= 1;
            order.push(c);
            go(ctx, sc, ids, alone, left, order, part);
            order.pop();
            left[c] += 1;
        }
    }
}
