mod eng;
mod rec;
mod scale;
mod sweep;
mod report;
mod gen;
mod hist;
mod c01;
mod c03;
mod c05;
mod c07;
mod model;
mod dbg;
mod drive;
mod life;
mod c08;
mod c12;
mod c14;
mod bestfit;
mod uriref;
mod c15;
mod c18;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c29;
mod c30;
mod alloc;
mod c32;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use eng::*;

/// Run the check in a child process, so that code under test that takes the process down
/// (stack overflow, abort at the C boundary, bad pointer) is a violation and not the end of it.
fn supervise(id: &str, tier: Tier) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let note = std::env::temp_dir().join(format!("mc-note-{}", std::process::id()));
    let st = std::env::current_exe().and_then(|e| {
        std::process::Command::new(e).args(std::env::args().skip(1)).env("MC_NOTE", &note).status()
    });
    let text = std::fs::read_to_string(&note).unwrap_or_default();
    let _ = std::fs::remove_file(&note);
    match st {
        Ok(st) => match (st.code(), st.signal()) {
            (Some(c), _) => c,
            (None, Some(sig)) if [4, 5, 6, 7, 8, 11].contains(&sig) => {
                let ctx = Ctx::new(id, tier);
                ctx.sh.evals.store(1, std::sync::atomic::Ordering::Relaxed);
                ctx.sh.stop.store(true, std::sync::atomic::Ordering::Relaxed);
                ctx.rule("the process exploring the executions was killed by a signal");
                ctx.violation("crash", format!("the code under test ended the process with signal {}: {}", sig, text), text.clone());
                report::finish(&ctx)
            }
            _ => 4,
        },
        Err(e) => {
            eprintln!("{}", e);
            4
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let tier = match a.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    if id == "dbg" {
        return dbg::run();
    }
    if id == "alone29" {
        return c29::alone(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(0));
    }
    if std::env::var("MC_NOTE").is_err() {
        std::process::exit(supervise(&id, tier));
    }
    install_panic_hook();
    let mut ctx = Ctx::new(&id, tier);
    match id.as_str() {
        "C01" => c01::run_req(&mut ctx),
        "C02" => c01::run_resp(&mut ctx),
        "C03" => c03::run(&mut ctx),
        "C05" => c05::run(&mut ctx),
        "C04" => life::run_c04(&mut ctx),
        "C06" => life::run_c06(&mut ctx),
        "C10" => life::run_c10(&mut ctx),
        "C11" => life::run_c11(&mut ctx),
        "C08" => c08::run_c08(&mut ctx),
        "C09" => c08::run_c09(&mut ctx),
        "C12" => c12::run_c12(&mut ctx),
        "C13" => c12::run_c13(&mut ctx),
        "C14" => c14::run(&mut ctx),
        "C15" => c15::run_c15(&mut ctx),
        "C16" => c15::run_c16(&mut ctx),
        "C17" => c15::run_c17(&mut ctx),
        "C18" => c18::run_c18(&mut ctx),
        "C19" => c18::run_c19(&mut ctx),
        "C20" => c18::run_c20(&mut ctx),
        "C21" => c18::run_c21(&mut ctx),
        "C22" => c22::run(&mut ctx),
        "C23" => c23::run(&mut ctx),
        "C24" => c24::run(&mut ctx),
        "C25" => c25::run(&mut ctx),
        "C26" => c26::run(&mut ctx),
        "C27" => c26::run09(&mut ctx),
        "C28" => c26::run_unsolicited(&mut ctx),
        "C29" => c29::run(&mut ctx),
        "C30" => c30::run(&mut ctx),
        "C32" => c32::run(&mut ctx),
        "C31" => c30::run_facts(&mut ctx),
        "C07" => c07::run(&mut ctx),
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
    scale::property(&ctx, &id);
    sweep::property(&ctx, &id);
    std::process::exit(report::finish(&ctx));
}
