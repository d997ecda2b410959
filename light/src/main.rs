//! Monitored workloads that need no query-shape table: concurrency, exhaustion, memory, layouts, borrows.
#![allow(clippy::type_complexity)]

mod c11;
mod c12;
mod c14;
mod c15;
mod c15_probes;
mod c19;
mod c20;
mod c24;
mod c26;
mod c28;
mod kit;
mod scale;

use vcommon::*;

#[global_allocator]
static ALLOC: kit::Counting = kit::Counting;

fn main() {
    let check = std::env::args().nth(1).unwrap_or_default();
    if check == "idle" {
        return;
    }
    let env = Env::from_env();
    quiet_panics();
    let mut st = Stats::default();
    let run = |st: &mut Stats| match check.as_str() {
        "C11" => c11::run(&env, st),
        "C12" => c12::run(&env, st),
        "C14" => c14::run(&env, st),
        "C15" => c15::run(&env, st),
        "C19" => c19::run(&env, st),
        "C20" if env.part == "scale" => scale::run("C20", &env, st),
        "C20" => c20::run(&env, st),
        "C24" => c24::run(&env, st),
        "C26" => c26::run(&env, st),
        "C28" => c28::run(&env, st),
        "C01" => scale::run("C01", &env, st),
        "C02" => scale::run("C02", &env, st),
        "C03" => scale::run("C03", &env, st),
        "C04" => scale::run("C04", &env, st),
        "C05" => scale::run("C05", &env, st),
        "C06" => scale::run("C06", &env, st),
        "C07" => scale::run("C07", &env, st),
        "C08" => scale::run("C08", &env, st),
        "C09" => scale::run("C09", &env, st),
        "C10" => scale::run("C10", &env, st),
        "C13" => scale::run("C13", &env, st),
        "C16" => scale::run("C16", &env, st),
        "C18" => scale::run("C18", &env, st),
        "C21" => scale::run("C21", &env, st),
        "C22" => scale::run("C22", &env, st),
        "C25" => scale::run("C25", &env, st),
        _ => {
            eprintln!("unknown check {check}");
            std::process::exit(3);
        }
    };
    let r = match guard(|| run(&mut st)) {
        Ok(r) => r,
        Err(p) if p.in_harness() || p.loc.is_empty() => {
            eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
            std::process::exit(3);
        }
        Err(p) => kit::found("unexpected-panic", format!("the library panicked at {}: {}", p.loc, p.msg), "outside of an operation", ""),
    };
    match r {
        Ok(()) => emit(&env, &report_json("ok", None, &st)),
        Err(f) => {
            emit(&env, &report_json("violation", Some((&f.v, &f.case, &f.replay)), &st));
            std::process::exit(10);
        }
    }
}
