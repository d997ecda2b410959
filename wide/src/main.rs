//! Component sets, queries and groups of every arity up to 16, and hundreds of component types in one world.
#![allow(clippy::type_complexity)]

mod hist;
mod kit;
mod many;
mod table;

use vcommon::*;

fn main() {
    let check = std::env::args().nth(1).unwrap_or_default();
    if check == "idle" {
        return;
    }
    let env = Env::from_env();
    quiet_panics();
    let mut st = Stats::default();
    let r = match guard(|| if check == "C23" { many::run(&env, &mut st) } else { hist::run(&env, &check, &mut st) }) {
        Ok(r) => r,
        Err(p) => {
            eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
            std::process::exit(3);
        }
    };
    match r {
        Ok(()) => emit(&env, &report_json("ok", None, &st)),
        Err(f) => {
            emit(&env, &report_json("violation", Some((&f.v, &f.case, &f.replay)), &st));
            std::process::exit(10);
        }
    }
}
