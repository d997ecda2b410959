//! Runner of the model-based checks: generate, execute, monitor, shrink, report.

use crate::gen::*;
use crate::sut::*;
use crate::types::ledger_reset;
use vcommon::{mix, Env, Res, Rng, Stats, Viol};

pub struct Found {
    pub v: Viol,
    pub case: String,
    pub replay: String,
}

pub struct Plan {
    pub check: &'static str,
    pub ora: u32,
    pub weights: [u32; NK],
    pub groups: bool,
    /// Cases per size class.
    pub tiny: u64,
    pub small: u64,
    pub medium: u64,
    pub large: u64,
    /// Scripted scale cases (version churn, index growth).
    pub scale: u64,
}

impl Plan {
    /// Whether the check compares variants of a history with one another.
    pub fn diff(&self) -> bool {
        matches!(self.check, "C06" | "C18" | "C22" | "C27")
    }
}

pub fn plan(check: &str) -> Option<Plan> {
    let mut w = base_weights();
    let mut p = Plan {
        check: "",
        ora: 0,
        weights: w,
        groups: true,
        tiny: 3000,
        small: 500,
        medium: 40,
        large: 1,
        scale: 0,
    };
    match check {
        "C01" => {
            p.check = "C01";
            p.ora = O_UNIQ;
            set(&mut w, &[(CREATE, 24), (EXTEND, 5), (ATOMIC, 14), (MAINTAIN, 10), (DESTROY, 30), (INSERT, 2), (REMOVE, 0), (DELETE, 0), (CLEAR, 2), (RESET, 1), (LAYOUT, 0), (CHURN, 1)]);
            p.groups = false;
            p.tiny = 12000;
            p.small = 4000;
            p.medium = 400;
            p.large = 2;
            p.scale = 3;
        }
        "C02" => {
            p.check = "C02";
            p.ora = O_LIVE;
            set(&mut w, &[(CREATE, 22), (EXTEND, 5), (ATOMIC, 12), (MAINTAIN, 10), (DESTROY, 28), (INSERT, 8), (REMOVE, 4), (DELETE, 3), (CLEAR, 2), (RESET, 1), (LAYOUT, 0), (AUDIT, 6), (CHURN, 1)]);
            p.tiny = 8000;
            p.small = 1600;
            p.medium = 120;
            p.large = 1;
            p.scale = 3;
        }
        "C03" => {
            p.check = "C03";
            p.ora = O_COMP;
            set(&mut w, &[(AUDIT, 8), (MUTATE, 0), (CLEAR, 1), (RESET, 1)]);
            p.tiny = 8000;
            p.small = 1200;
            p.medium = 100;
        }
        "C04" => {
            p.check = "C04";
            p.ora = O_QALL;
            set(&mut w, &[(QUERY, 12), (AUDIT, 3), (CLEAR, 1), (RESET, 1)]);
            p.tiny = 5000;
            p.small = 700;
            p.medium = 50;
        }
        "C05" => {
            p.check = "C05";
            p.ora = O_POINT;
            set(&mut w, &[(POINT, 30), (VIEW, 8), (AUDIT, 4), (CLEAR, 1), (RESET, 1), (ATOMIC, 4), (MAINTAIN, 3), (DESTROY, 14)]);
            p.tiny = 6000;
            p.small = 900;
            p.medium = 60;
        }
        "C07" => {
            p.check = "C07";
            p.ora = O_DENSE;
            set(&mut w, &[(AUDIT, 4), (CLEAR, 1), (RESET, 1), (LAYOUT, 2), (INSERT, 32), (REMOVE, 16)]);
            p.tiny = 8000;
            p.small = 1200;
            p.medium = 80;
        }
        "C08" => {
            p.check = "C08";
            p.ora = O_SLICE;
            set(&mut w, &[(SLICE, 12), (AUDIT, 3), (CLEAR, 1), (RESET, 1), (LAYOUT, 2)]);
            p.tiny = 8000;
            p.small = 1200;
            p.medium = 80;
        }
        "C09" => {
            p.check = "C09";
            p.ora = O_DROP | O_FAULT;
            set(&mut w, &[(AUDIT, 4), (CLEAR, 2), (RESET, 1), (LAYOUT, 3), (MUTATE, 2), (MUTVIEW, 1), (MUTPOINT, 1)]);
            p.tiny = 10000;
            p.small = 1500;
            p.medium = 120;
        }
        "C10" => {
            p.check = "C10";
            p.ora = O_FAULT;
            set(&mut w, &[(QUERY, 6), (MUTATE, 5), (POINT, 5), (MUTPOINT, 4), (VIEW, 4), (MUTVIEW, 3), (SLICE, 5), (MUTSLICE, 5), (CLEAR, 2), (RESET, 1), (LAYOUT, 3), (AUDIT, 1)]);
            p.tiny = 4000;
            p.small = 600;
            p.medium = 60;
        }
        "C13" => {
            p.check = "C13";
            p.ora = O_PAR;
            set(&mut w, &[(PAR, 12), (MUTPAR, 8), (AUDIT, 2), (CLEAR, 1), (RESET, 1)]);
            p.tiny = 700;
            p.small = 250;
            p.medium = 60;
            p.large = 1;
        }
        "C16" => {
            p.check = "C16";
            p.ora = O_ITER;
            set(&mut w, &[(QUERY, 10), (AUDIT, 3), (CLEAR, 1), (RESET, 1)]);
            p.tiny = 3500;
            p.small = 450;
            p.medium = 30;
        }
        "C25" => {
            p.check = "C25";
            p.ora = O_MUT;
            set(&mut w, &[(MUTATE, 14), (MUTPOINT, 8), (MUTVIEW, 8), (MUTSLICE, 10), (AUDIT, 1), (CLEAR, 1), (RESET, 1)]);
            p.tiny = 7000;
            p.small = 1000;
            p.medium = 60;
        }
        "C17" => {
            p.check = "C17";
            p.ora = O_FAULT | O_PANIC;
            set(&mut w, &[(BOOM, 14), (AUDIT, 2), (CLEAR, 1), (RESET, 1), (LAYOUT, 2), (ATOMIC, 3), (REGISTER, 0)]);
            p.tiny = 2500;
            p.small = 350;
            p.medium = 12;
            p.large = 0;
        }
        "C06" => {
            p.check = "C06";
            set(&mut w, &[(QUERY, 8), (POINT, 6), (MUTATE, 5), (MUTPOINT, 4), (VIEW, 4), (MUTVIEW, 3), (CLEAR, 1), (RESET, 1), (LAYOUT, 2), (AUDIT, 3)]);
            p.tiny = 5000;
            p.small = 700;
            p.medium = 50;
        }
        "C18" => {
            p.check = "C18";
            p.ora = O_ALL | O_CLEAR;
            set(&mut w, &[(ATOMIC, 8), (MAINTAIN, 4), (CLEAR, 5), (RESET, 5), (LAYOUT, 2), (AUDIT, 2), (QUERY, 3), (MUTATE, 2)]);
            p.tiny = 5000;
            p.small = 500;
            p.medium = 30;
        }
        "C21" => {
            p.check = "C21";
            p.ora = (O_ALL & !O_UNIQ) | O_LAYOUT | O_DROP;
            set(&mut w, &[(LAYOUT, 12), (CLEAR, 1), (RESET, 1), (QUERY, 3), (MUTATE, 2), (REGISTER, 2), (SLICE, 2)]);
            p.tiny = 3500;
            p.small = 350;
            p.medium = 30;
        }
        "C22" => {
            p.check = "C22";
            set(&mut w, &[(CREATE, 26), (EXTEND, 12), (DESTROY, 16), (DELETE, 14), (QUERY, 8), (POINT, 5), (CLEAR, 1), (RESET, 1), (LAYOUT, 1), (AUDIT, 3)]);
            p.tiny = 5000;
            p.small = 700;
            p.medium = 40;
        }
        "C27" => {
            p.check = "C27";
            set(&mut w, &[(ATOMIC, 6), (MAINTAIN, 4), (CLEAR, 2), (RESET, 2), (LAYOUT, 4), (AUDIT, 5), (QUERY, 6), (MUTATE, 3), (REGISTER, 2)]);
            p.tiny = 5000;
            p.small = 700;
            p.medium = 40;
        }
        "C23" => {
            p.check = "C23";
            p.ora = (O_ALL & !O_UNIQ) | O_REG;
            set(&mut w, &[(REGISTER, 12), (BADUSE, 16), (LAYOUT, 3), (CLEAR, 1), (RESET, 1), (QUERY, 4), (POINT, 4), (AUDIT, 3)]);
            p.tiny = 4000;
            p.small = 400;
            p.medium = 20;
        }
        _ => return None,
    }
    p.weights = w;
    Some(p)
}

pub struct Case {
    pub pool: u16,
    pub layout: u32,
    /// Types of the pool that are not registered up front.
    pub unreg: u16,
    /// Seed of the variants of differential checks.
    pub aux: u32,
    pub ops: Vec<Op>,
}

impl Case {
    pub fn text(&self, check: &str) -> String {
        let mut o = format!("case {check} pool={} layout={} unreg={} aux={}\n", self.pool, self.layout, self.unreg, self.aux);
        for op in &self.ops {
            o.push_str(&show_op(op));
            o.push('\n');
        }
        o
    }
    pub fn parse(t: &str) -> Option<(String, Case)> {
        let mut it = t.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#'));
        let h: Vec<&str> = it.next()?.split_whitespace().collect();
        let check = h.get(1)?.to_string();
        let pool = h.get(2)?.strip_prefix("pool=")?.parse().ok()?;
        let layout = h.get(3)?.strip_prefix("layout=")?.parse().ok()?;
        let unreg = h.get(4)?.strip_prefix("unreg=")?.parse().ok()?;
        let aux = h.get(5)?.strip_prefix("aux=")?.parse().ok()?;
        let ops = it.filter_map(parse_op).collect();
        Some((check, Case { pool, layout, unreg, aux, ops }))
    }
}

pub fn run_case(tab: &Tab, p: &Plan, c: &Case, st: &mut Stats) -> Res {
    if p.diff() {
        return crate::diff::run_case(tab, p, c, st);
    }
    ledger_reset();
    let mut s = Sut::new(tab, c.pool, c.layout, c.unreg, p.ora);
    for op in &c.ops {
        if let Err(v) = s.step(*op, st) {
            // The world is broken; do not run its destructors.
            std::mem::forget(s);
            return Err(v);
        }
    }
    s.finish(st)
}

pub fn shrink(tab: &Tab, p: &Plan, mut c: Case, oracle: &str) -> (Case, Viol, bool) {
    let t0 = std::time::Instant::now();
    let mut best: Option<Viol> = None;
    let mut scratch = Stats::default();
    let mut chunk = c.ops.len().div_ceil(2).max(1);
    let mut runs = 0;
    loop {
        let mut i = 0;
        let mut progress = false;
        while i < c.ops.len() {
            if runs > 3000 || t0.elapsed().as_secs() > 20 {
                let ok = best.is_some();
                return (c, best.unwrap_or(Viol { oracle: "", msg: String::new() }), ok);
            }
            runs += 1;
            let mut ops = c.ops.clone();
            ops.drain(i..(i + chunk).min(ops.len()));
            let cand = Case { ops, ..c };
            match run_case(tab, p, &cand, &mut scratch) {
                Err(v) if v.oracle == oracle => {
                    c = cand;
                    best = Some(v);
                    progress = true;
                }
                _ => i += chunk,
            }
        }
        if chunk == 1 {
            if !progress {
                break;
            }
        } else {
            chunk /= 2;
        }
    }
    let ok = best.is_some();
    (c, best.unwrap_or(Viol { oracle: "", msg: String::new() }), ok)
}

fn scale_script(n: u64) -> (u16, u32, Vec<Op>) {
    let mut v = vec![];
    let op = |k, a, b, c| Op { k, a, b, c };
    match n % 3 {
        0 => {
            // Versions beyond 16 bits on one index, then ordinary recycling of that index.
            v.push(op(CREATE, 0, 0, 0));
            v.push(op(CHURN, 66_500, 0, 0));
            v.push(op(CHURN, 800, 1, 0));
        }
        1 => {
            // Indices beyond 16 bits, then recycling of many of them.
            v.push(op(CHURN, 66_000, 2, 0));
            for i in 0..400u32 {
                v.push(op(DESTROY, i * 163 + 7, 0, 0));
            }
            v.push(op(EXTEND, 300, 0, 0));
            v.push(op(ATOMIC, 200, 0, 0));
            v.push(op(MAINTAIN, 0, 0, 0));
        }
        _ => {
            // A long recycling queue emptied in alternating ways.
            v.push(op(EXTEND, 70_000, 0, 0));
            for i in 0..3000u32 {
                v.push(op(DESTROY, (i * 23) % 70_000, 0, 0));
            }
            for i in 0..60u32 {
                v.push(op(ATOMIC, i % 40, 0, 0));
                v.push(op(CREATE, 0, 0, 0));
                if i % 3 == 0 {
                    v.push(op(MAINTAIN, 0, 0, 0));
                }
                v.push(op(EXTEND, i % 11, 0, 0));
            }
            v.push(op(MAINTAIN, 0, 0, 0));
        }
    }
    v.push(op(AUDIT, 77, 0, 0));
    (3, 0, v)
}

/// C27: the same histories are executed by another process, with other addresses and other garbage in fresh memory.
pub fn run(env: &Env, tab: &Tab, p: &Plan, st: &mut Stats) -> Result<(), Found> {
    if p.check != "C27" {
        return histories(env, tab, p, st);
    }
    use crate::diff::{CHILD, DIGESTS};
    use std::sync::atomic::Ordering::Relaxed;
    let die = |m: String| -> ! {
        eprintln!("HARNESS: {m}");
        std::process::exit(3);
    };
    if let Some(path) = std::env::var_os("VH_DIGESTS") {
        CHILD.store(true, Relaxed);
        // On a thread of its own.
        let r = std::thread::scope(|s| s.spawn(|| histories(env, tab, p, st)).join());
        let text: String = DIGESTS.lock().unwrap().iter().map(|d| format!("{:x}\n", d.0)).collect();
        if let Err(e) = std::fs::write(&path, text) {
            die(format!("cannot write digests: {e}"));
        }
        return r.unwrap_or_else(|_| die("the child's thread ended".into()));
    }
    let path = env.out.as_ref().map_or_else(|| format!("/tmp/vh-digests-{}", std::process::id()), |o| format!("{o}.digests"));
    let child = std::process::Command::new(std::env::current_exe().unwrap())
        .arg(p.check)
        .env("VH_DIGESTS", &path)
        .env("VH_NOSHRINK", "1")
        .env("VH_PADDING", "x".repeat(1000 + env.seed as usize % 5000))
        .env("MALLOC_PERTURB_", "165")
        .env_remove("VH_OUT")
        .env_remove("VH_PROGRESS")
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn();
    let mut child = child.unwrap_or_else(|e| die(format!("cannot start another process: {e}")));
    let r = histories(env, tab, p, st);
    let end = child.wait();
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    r?;
    if !end.as_ref().is_ok_and(|e| e.success()) && text.is_empty() {
        die(format!("the other process ended with {end:?}"));
    }
    let theirs: Vec<u64> = text.lines().filter_map(|l| u64::from_str_radix(l, 16).ok()).collect();
    let ours = DIGESTS.lock().unwrap();
    st.add("histories_compared_between_processes", ours.len().min(theirs.len()) as u64);
    if theirs.is_empty() && !ours.is_empty() {
        die("the other process compared nothing".into());
    }
    for (i, (a, b)) in ours.iter().zip(&theirs).enumerate() {
        if a.0 != *b {
            let v = Viol { oracle: "same-history-same-results", msg: format!("history {i} has other results in another process: {}", a.1) };
            return Err(Found { v, case: format!("history {i} of seed {} shard {}", env.seed, env.shard), replay: String::new() });
        }
    }
    Ok(())
}

fn histories(env: &Env, tab: &Tab, p: &Plan, st: &mut Stats) -> Result<(), Found> {
    let mult = if env.thorough { 800 } else { 40 };
    // Scripted scale cases run first so that the wall clock never cuts them off.
    let classes: [(Size, u64); 4] = [
        (Size::Large, p.large * if env.thorough { 32 } else { 4 }),
        (Size::Medium, env.cases(p.medium * mult)),
        (Size::Tiny, env.cases(p.tiny * mult)),
        (Size::Small, env.cases(p.small * mult)),
    ];
    if p.check == "C06" {
        env.note_case("known probes");
        crate::diff::known_probes(st).map_err(|v| Found { v, case: "fixed probes".into(), replay: String::new() })?;
    }
    let scale_on = env.scale >= 100;
    if scale_on {
        for n in 0..p.scale {
            if n % env.shards != env.shard {
                continue;
            }
            let (pool, layout, ops) = scale_script(n);
            let c = Case { pool, layout, unreg: 0, aux: 0, ops };
            env.note_case(&format!("scale {n}"));
            st.add("scale_cases", 1);
            one(env, tab, p, c, format!("scale script {n}"), st)?;
        }
    }
    // Interleave the classes so that a clock cut-off leaves a balanced sample.
    let total: u64 = classes.iter().map(|c| c.1).max().unwrap_or(0);
    for i in 0..total {
        for (ci, &(size, n)) in classes.iter().enumerate() {
            // Case j of a class runs at step i when j = floor((i+1)*n/total)-1 changed.
            let j0 = i * n / total;
            let j1 = (i + 1) * n / total;
            for j in j0..j1 {
                if (j + ci as u64) % env.shards != env.shard {
                    continue;
                }
                if size == Size::Large && !scale_on {
                    continue;
                }
                if env.out_of_time() {
                    st.add("stopped_by_clock", 1);
                    return Ok(());
                }
                let seed = mix(mix(env.seed, ci as u64 + 101), j);
                generated(env, tab, p, size, seed, st)?;
            }
        }
    }
    Ok(())
}

fn generated(env: &Env, tab: &Tab, p: &Plan, size: Size, seed: u64, st: &mut Stats) -> Result<(), Found> {
    let mut r = Rng::new(seed);
    let cfg = random_cfg(&mut r, p.weights, size, p.groups);
    ledger_reset();
    env.note_case(&format!("{} {size:?} case seed {seed:#x} pool {} layout {}", p.check, cfg.pool, cfg.layout));
    st.add("histories", 1);
    let mut c = Case { pool: cfg.pool, layout: cfg.layout, unreg: cfg.unreg, aux: mix(seed, 9) as u32, ops: vec![] };
    let res = (|| -> Res {
        let mut s = match vcommon::guard(|| Sut::new(tab, cfg.pool, cfg.layout, cfg.unreg, p.ora)) {
            Ok(s) => s,
            Err(e) if e.in_harness() => {
                eprintln!("HARNESS PANIC at {}: {}", e.loc, e.msg);
                std::process::exit(3);
            }
            Err(e) => return vcommon::viol("unexpected-panic", format!("building the world panicked at {}: {}", e.loc, e.msg)),
        };
        if p.diff() {
            crate::diff::reference(p, &mut s);
        }
        for i in 0..cfg.n_ops {
            let op = if i + 1 == cfg.n_ops { Op { k: AUDIT, a: seed as u32 >> 3, b: 0, c: 0 } } else { gen_op(&mut r, &s, &cfg) };
            c.ops.push(op);
            if let Err(v) = s.step(op, st) {
                std::mem::forget(s);
                return Err(v);
            }
            s.mark();
        }
        if p.diff() {
            let tr = crate::diff::take(&mut s);
            s.finish(st)?;
            return crate::diff::variants(tab, p, &c, tr, st);
        }
        s.finish(st)
    })();
    match res {
        Ok(()) => Ok(()),
        Err(v) => Err(report(tab, p, c, v, format!("{size:?} case seed {seed:#x}"))),
    }
}

fn one(env: &Env, tab: &Tab, p: &Plan, c: Case, name: String, st: &mut Stats) -> Result<(), Found> {
    let _ = env;
    match run_case(tab, p, &c, st) {
        Ok(()) => Ok(()),
        Err(v) => Err(report(tab, p, c, v, name)),
    }
}

fn report(tab: &Tab, p: &Plan, c: Case, v: Viol, name: String) -> Found {
    let full = c.text(p.check);
    let n = c.ops.len();
    if std::env::var_os("VH_NOSHRINK").is_some() {
        return Found { v, case: name, replay: full };
    }
    let (sc, sv, ok) = shrink(tab, p, c, v.oracle);
    if ok {
        Found { v: sv, case: format!("{name}, shrunk from {n} to {} operations", sc.ops.len()), replay: sc.text(p.check) }
    } else {
        Found { v, case: name, replay: full }
    }
}
