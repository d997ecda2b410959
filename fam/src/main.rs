//! Worlds with up to 64 groups: 96 component types in 24 families of four;
//! worlds with component types of unusual kinds.

mod graph;
mod hist;
mod kit;
mod odd;

use vcommon::*;

fn main() {
    let check = std::env::args().nth(1).unwrap_or_default();
    if check == "idle" {
        return;
    }
    let env = Env::from_env();
    quiet_panics();
    let mut st = Stats::default();
    let part = std::env::var("VH_PART").unwrap_or_default();
    let r = match guard(|| if part == "graph" { graph::run(&env, &check, &mut st) } else { hist::run(&env, &check, &mut st) }) {
        Ok(r) => r,
        Err(p) => {
            eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
            std::process::exit(3);
        }
    };
    match r {
        Ok(()) => emit(&env, &report_json("ok", None, &st)),
        Err(f) => {
            emit(&env, &report_json("violation", Some((&f.v, &f.case, &f.replay)), &st));
            std::process::exit(10);
        }
    }
}
