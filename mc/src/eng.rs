//! Exploration engine: exhaustive parallel enumeration, verdict bookkeeping,
//! hang/panic supervision, evidence and replay writing.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub key: String,
    pub msg: String,
    pub replay: String,
}

#[derive(Default)]
pub struct Shared {
    pub evals: AtomicU64,
    pub transitions: AtomicU64,
    pub nontrivial: AtomicU64,
    pub stop: AtomicBool,
    pub outcomes: Mutex<HashSet<u64>>,
    pub states: Mutex<HashSet<u64>>,
    pub samples: Mutex<Vec<String>>,
    pub viols: Mutex<Vec<Violation>>,
    pub notes: Mutex<Vec<(String, String)>>,
    slots: Mutex<Vec<Arc<Slot>>>,
    pub capped: AtomicBool,
}

#[derive(Default)]
pub struct Slot {
    start_ms: AtomicU64,
    case: Mutex<Vec<u8>>,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub start: Instant,
    pub threads: usize,
    pub sh: Arc<Shared>,
    pub level: &'static str,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static LOCAL: RefCell<Option<Local>> = const { RefCell::new(None) };
}

struct Local {
    sh: Arc<Shared>,
    slot: Arc<Slot>,
    epoch: Instant,
    evals: u64,
    trans: u64,
    nontriv: u64,
    marked: bool,
    outcomes: HashSet<u64>,
    states: HashSet<u64>,
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Count an execution, with the hash of what was observed (distinct outcomes are reported).
pub fn outcome(h: u64) {
    LOCAL.with(|l| {
        if let Some(l) = l.borrow_mut().as_mut() {
            l.outcomes.insert(h);
        }
    });
}
pub fn state(h: u64) {
    LOCAL.with(|l| {
        if let Some(l) = l.borrow_mut().as_mut() {
            l.states.insert(h);
        }
    });
}
pub fn transitions(n: u64) {
    LOCAL.with(|l| {
        if let Some(l) = l.borrow_mut().as_mut() {
            l.trans += n;
        }
    });
}
pub fn nontrivial() {
    LOCAL.with(|l| {
        if let Some(l) = l.borrow_mut().as_mut() {
            if !l.marked {
                l.nontriv += 1;
                l.marked = true;
            }
        }
    });
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                // Stable across line shifts: file only.
                f.rsplit('/').next().unwrap_or(f).to_string() + &format!(":{}", l.line())
            })
            .unwrap_or_default();
        if ["cannot unwind", "unsafe precondition", "null pointer", "misaligned"].iter().any(|m| msg.contains(m)) {
            // this process is about to abort (a panic at the C boundary, or in a destructor):
            // leave a note for the supervising process
            if let Ok(p) = std::env::var("MC_NOTE") {
                let first = PANIC_MSG.with(|p| p.try_borrow().ok().and_then(|p| p.clone())).unwrap_or_default();
                let case = LOCAL.with(|l| match l.try_borrow() {
                    Ok(l) => l.as_ref().map(|l| show(&l.slot.case.lock().unwrap())).unwrap_or_default(),
                    Err(_) => String::new(),
                });
                let _ = std::fs::write(p, format!("{}: {} ({} at {})", case, first, msg, loc));
            }
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

impl Ctx {
    pub fn new(id: &str, tier: Tier) -> Self {
        Ctx {
            id: id.into(),
            tier,
            start: Instant::now(),
            threads: std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
                .min(16),
            sh: Arc::new(Shared::default()),
            level: "exploration",
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(vec![]),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// q in the quick tier, t in the thorough tier.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    pub fn rule(&self, s: &str) {
        let mut r = self.rule.lock().unwrap();
        if !r.is_empty() {
            r.push_str(" | ");
        }
        r.push_str(s);
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn note(&self, k: &str, v: impl ToString) {
        self.sh
            .notes
            .lock()
            .unwrap()
            .push((k.into(), v.to_string()));
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.sh.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s.into());
        }
    }
    pub fn violation(&self, key: impl Into<String>, msg: impl Into<String>, replay: impl Into<String>) {
        let key = key.into();
        let mut v = self.sh.viols.lock().unwrap();
        if v.len() < 400 && !v.iter().any(|x| x.key == key) {
            v.push(Violation {
                key,
                msg: msg.into(),
                replay: replay.into(),
            });
        }
        if v.len() >= 400 {
            self.sh.stop.store(true, Ordering::Relaxed);
        }
    }

    /// Run `f` on each item of the finite space 0..n, in parallel. Every item is one
    /// (group of) execution(s); a panic inside is a violation of the property at that item.
    pub fn par<F, D>(&self, n: usize, describe: D, f: F)
    where
        F: Fn(usize) + Sync,
        D: Fn(usize) -> String + Sync,
    {
        self.par_kind(n, describe, f, true)
    }

    pub fn par_kind<F, D>(&self, n: usize, describe: D, f: F, panic_is_violation: bool)
    where
        F: Fn(usize) + Sync,
        D: Fn(usize) -> String + Sync,
    {
        let next = AtomicUsize::new(0);
        let epoch = Instant::now();
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            let watchdog = s.spawn(|| {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(100));
                    let now = epoch.elapsed().as_millis() as u64;
                    for slot in self.sh.slots.lock().unwrap().iter() {
                        let st = slot.start_ms.load(Ordering::Relaxed);
                        if st != 0 && now > st + HANG_MS {
                            let case = show(&slot.case.lock().unwrap());
                            self.violation(
                                "hang",
                                format!("an execution did not return within {} ms: {}", HANG_MS, case),
                                case,
                            );
                            self.finish_now();
                        }
                    }
                }
            });
            let hs: Vec<_> = (0..self.threads.min(n.max(1)))
                .map(|_| {
                    s.spawn(|| {
                        let slot = Arc::new(Slot::default());
                        self.sh.slots.lock().unwrap().push(slot.clone());
                        LOCAL.with(|l| {
                            *l.borrow_mut() = Some(Local {
                                sh: self.sh.clone(),
                                slot: slot.clone(),
                                epoch,
                                evals: 0,
                                trans: 0,
                                nontriv: 0,
                                marked: true,
                                outcomes: HashSet::new(),
                                states: HashSet::new(),
                            })
                        });
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || self.sh.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let r = catch_unwind(AssertUnwindSafe(|| f(i)));
                            slot.start_ms.store(0, Ordering::Relaxed);
                            if r.is_err() {
                                let m = PANIC_MSG
                                    .with(|p| p.borrow_mut().take())
                                    .unwrap_or_default();
                                let case = show(&slot.case.lock().unwrap());
                                let what = if case.is_empty() { describe(i) } else { case };
                                if panic_is_violation {
                                    self.violation(format!("panic:{}", m), format!("panic: {} on {}", m, what), what);
                                } else {
                                    self.violation(format!("harness-panic:{}", m), m, what);
                                }
                            }
                            slot.case.lock().unwrap().clear();
                        }
                        LOCAL.with(|l| {
                            if let Some(l) = l.borrow_mut().take() {
                                l.sh.evals.fetch_add(l.evals, Ordering::Relaxed);
                                l.sh.transitions.fetch_add(l.trans, Ordering::Relaxed);
                                l.sh.nontrivial.fetch_add(l.nontriv, Ordering::Relaxed);
                                l.sh.outcomes.lock().unwrap().extend(l.outcomes);
                                l.sh.states.lock().unwrap().extend(l.states);
                            }
                        });
                        slot.start_ms.store(0, Ordering::Relaxed);
                    })
                })
                .collect();
            for h in hs {
                let _ = h.join();
            }
            done.store(true, Ordering::Relaxed);
            let _ = watchdog.join();
        });
        self.sh.slots.lock().unwrap().clear();
    }

    /// Emergency exit used by the hang watchdog.
    fn finish_now(&self) -> ! {
        let code = crate::report::finish(self);
        std::process::exit(code);
    }
}

pub const HANG_MS: u64 = 30000;

/// Mark the beginning of one execution of the implementation (hang supervision, counting).
/// `parts` identify the case; they are copied so that the watchdog can name it.
pub fn begin(parts: &[&[u8]]) {
    LOCAL.with(|l| {
        if let Some(l) = l.borrow_mut().as_mut() {
            l.evals += 1;
            l.marked = false;
            let now = (l.epoch.elapsed().as_millis() as u64).max(1);
            l.slot.start_ms.store(now, Ordering::Relaxed);
            let mut c = l.slot.case.lock().unwrap();
            c.clear();
            for (i, p) in parts.iter().enumerate() {
                if i > 0 {
                    c.extend_from_slice(b" | ");
                }
                c.extend_from_slice(p);
            }
        }
    });
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() + 8);
    for &c in b {
        s.extend(std::ascii::escape_default(c).map(|c| c as char));
    }
    s
}

/// Run one execution, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG
            .with(|p| p.borrow_mut().take())
            .unwrap_or_default()),
    }
}
