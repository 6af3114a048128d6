//! Evidence, replay files, known findings, exit code.
use crate::eng::*;
use std::fmt::Write as _;
use std::sync::atomic::Ordering;

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

/// Known findings: one per line, `property<TAB>key<TAB>description`; lines starting with
/// '#' and "fixed:" lines are comments.
fn known(dir: &str, id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", dir)) {
        for l in t.lines() {
            if l.starts_with('#') || l.starts_with("fixed:") {
                continue;
            }
            let p: Vec<&str> = l.splitn(3, '\t').collect();
            if p.len() == 3 && p[0] == id {
                v.push((p[1].to_string(), p[2].to_string()));
            }
        }
    }
    v
}

pub fn finish(ctx: &Ctx) -> i32 {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let sh = &ctx.sh;
    let viols = sh.viols.lock().unwrap();
    let kn = known(&dir, &ctx.id);
    let mut hit = vec![];
    let mut fresh = vec![];
    for v in viols.iter() {
        if let Some(k) = kn.iter().find(|k| k.0 == v.key) {
            if !hit.contains(k) {
                hit.push(k.clone());
            }
        } else {
            fresh.push(v);
        }
    }
    let wall = ctx.start.elapsed().as_secs_f64();
    let evals = sh.evals.load(Ordering::Relaxed);
    let outs = sh.outcomes.lock().unwrap().len() as u64;
    let states = sh.states.lock().unwrap().len() as u64;
    let trans = sh.transitions.load(Ordering::Relaxed);
    let nontriv = sh.nontrivial.load(Ordering::Relaxed);
    let samples = sh.samples.lock().unwrap();
    let mut cov = String::new();
    let _ = write!(cov, "\"evaluations\": {}, ", evals);
    if ctx.level == "model_checking" {
        let _ = write!(
            cov,
            "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"distinct_outcomes\": {}, ",
            states, trans, evals, outs
        );
    } else {
        let _ = write!(
            cov,
            "\"distinct_nontrivial\": {}, \"distinct_outcomes\": {}, \"calls_into_implementation\": {}, ",
            nontriv, outs, trans
        );
    }
    let _ = write!(
        cov,
        "\"exhaustive\": {}, \"rule\": \"{}\", ",
        !(sh.capped.load(Ordering::Relaxed) || sh.stop.load(Ordering::Relaxed)),
        esc(&ctx.rule.lock().unwrap())
    );
    let mut seen: Vec<(String, String)> = vec![];
    for (k, v) in sh.notes.lock().unwrap().iter() {
        match seen.iter_mut().find(|s| s.0 == *k) {
            Some(s) => s.1 = format!("{}; {}", s.1, v),
            None => seen.push((k.clone(), v.clone())),
        }
    }
    for (k, v) in seen.iter() {
        let _ = write!(cov, "\"{}\": \"{}\", ", esc(k), esc(v));
    }
    let ss: Vec<String> = samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let _ = write!(cov, "\"samples\": [{}]", ss.join(", "));
    let ass: Vec<String> = ctx
        .assumptions
        .lock()
        .unwrap()
        .iter()
        .map(|s| format!("\"{}\"", esc(s)))
        .collect();
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let ev = format!(
        "{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"{}\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}, \"known_findings\": {}}}\n",
        ctx.id,
        if ctx.quick() { "quick" } else { "thorough" },
        seed,
        ctx.level,
        cov,
        ass.join(", "),
        wall,
        fresh.len(),
        hit.len()
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    if std::fs::write(format!("{}/evidence/{}.json", dir, ctx.id), ev).is_err() {
        eprintln!("cannot write evidence");
        return 3;
    }
    println!(
        "{}: {} executions, {} distinct outcomes, {} states, {} transitions, {} nontrivial, {:.1}s",
        ctx.id, evals, outs, states, trans, nontriv, wall
    );
    for (_, d) in &hit {
        println!("KNOWN-FINDING: property={} {}", ctx.id, d);
    }
    let rdir = format!("{}/replays", dir);
    let _ = std::fs::create_dir_all(&rdir);
    for (n, v) in fresh.iter().enumerate().take(if std::env::var("MC_ALL").is_ok() { 400 } else { 8 }) {
        let p = format!("{}/{}-{}.txt", rdir, ctx.id, n);
        let _ = std::fs::write(
            &p,
            format!(
                "property: {}\nkey: {}\nwhat: {}\ncase: {}\nreplay: run `bash /verif/check.sh {} {}`; the enumeration is deterministic and reports this case again.\n",
                ctx.id, v.key, v.msg, v.replay, ctx.id,
                if ctx.quick() { "quick" } else { "thorough" }
            ),
        );
        let mut m = v.msg.clone();
        if m.len() > 1500 {
            let mut e = 1500;
            while !m.is_char_boundary(e) {
                e -= 1;
            }
            m.truncate(e);
        }
        println!("  [{}] {}", v.key, m);
        println!("VIOLATION property={} replay={}", ctx.id, p);
    }
    if evals == 0 {
        eprintln!("vacuous run: no executions");
        return 3;
    }
    if fresh.is_empty() {
        0
    } else {
        1
    }
}
