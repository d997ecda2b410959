//! Monitored workloads over the real `sparsey` crate.
#![allow(clippy::type_complexity)]

mod bundles;
mod bundles_list;
mod diff;
mod gen;
mod hist;
mod layouts;
mod model;
mod panics;
mod shapes;
#[cfg_attr(feature = "par", path = "shapes_par.rs")]
mod shapes_list;
mod sut;
mod types;

use hist::Found;
use vcommon::*;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = Env::from_env();
    quiet_panics();
    let tab = sut::Tab { shapes: shapes_list::shapes(), bundles: bundles_list::bundles() };
    let mut st = Stats::default();
    if args.first().map(String::as_str) == Some("replay") {
        let text = std::fs::read_to_string(&args[1]).expect("replay file");
        let r = replay(&env, &tab, &text, &mut st);
        match r {
            Ok(()) => println!("replay: no violation"),
            Err(f) => {
                println!("replay: oracle {}: {}", f.v.oracle, f.v.msg);
                std::process::exit(1);
            }
        }
        return;
    }
    let check = args.first().cloned().unwrap_or_default();
    if check == "idle" {
        return;
    }
    let r = match guard(|| dispatch(&check, &env, &tab, &mut st)) {
        Ok(r) => r,
        Err(p) if p.in_harness() || p.loc.is_empty() => {
            eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
            std::process::exit(3);
        }
        Err(p) => {
            let v = Viol { oracle: "unexpected-panic", msg: format!("the library panicked at {}: {}", p.loc, p.msg) };
            Err(Found { v, case: "outside of an operation".into(), replay: String::new() })
        }
    };
    match r {
        Ok(()) => emit(&env, &report_json("ok", None, &st)),
        Err(f) => {
            emit(&env, &report_json("violation", Some((&f.v, &f.case, &f.replay)), &st));
            std::process::exit(10);
        }
    }
}

fn dispatch(check: &str, env: &Env, tab: &sut::Tab, st: &mut Stats) -> Result<(), Found> {
    if let Some(p) = hist::plan(check) {
        return hist::run(env, tab, &p, st);
    }
    eprintln!("unknown check {check}");
    std::process::exit(3);
}

fn replay(_env: &Env, tab: &sut::Tab, text: &str, st: &mut Stats) -> Result<(), Found> {
    let (check, case) = hist::Case::parse(text).expect("replay text");
    let p = hist::plan(&check).expect("check of replay");
    hist::run_case(tab, &p, &case, st).map_err(|v| Found { v, case: "replay".into(), replay: text.into() })
}
