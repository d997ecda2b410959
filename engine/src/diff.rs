//! Differential checks: the same history in several variants, compared by recorded results.

use crate::hist::{Case, Plan};
use crate::layouts::{self, random_layout};
use crate::sut::*;
use crate::types::{ledger_reset, ledger_start};
use sparsey::World;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Mutex;
use vcommon::{guard, mix, viol, Hash64, Res, Rng, Stats};

/// Whether this process only computes digests for another one.
pub static CHILD: AtomicBool = AtomicBool::new(false);
/// Digests of the recorded results of all histories, in order.
pub static DIGESTS: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);

/// Other worlds of the same process, busy between the operations of the one that is watched.
struct Noise {
    r: Rng,
    ws: Vec<World>,
}
impl Noise {
    fn new(seed: u64) -> Self {
        Noise { r: Rng::new(seed ^ 0x9015e), ws: vec![World::default(), World::builder().register::<u32>().build()] }
    }
    fn step(&mut self, st: &mut Stats) {
        for _ in 0..self.r.below(4) {
            st.add("noise_operations", 1);
            if self.r.chance(1, 60) {
                let mut b = World::builder();
                b.add_group::<(u32, String)>();
                if self.r.chance(1, 2) {
                    b.add_group::<(u32, String, Vec<u8>)>();
                }
                let i = self.r.below(self.ws.len());
                self.ws[i] = b.build();
            }
            let i = self.r.below(self.ws.len());
            let w = &mut self.ws[i];
            w.register::<Vec<u8>>();
            w.register::<String>();
            w.register::<u32>();
            let n = w.entities().len();
            let e = if n > 0 { w.entities()[self.r.below(n)] } else { w.create((1u32,)) };
            match self.r.below(9) {
                0 => drop(w.create((7u32, String::from("noise")))),
                1 => drop(w.extend((0..self.r.below(20)).map(|i| (vec![i as u8], i as u32)))),
                2 | 3 => drop(w.destroy(e)),
                4 => drop(w.insert(e, (vec![1u8, 2], String::new()))),
                5 => w.delete::<(u32,)>(e),
                6 => drop(w.create_atomic()),
                7 => w.maintain(),
                _ if n > 60 => w.reset(),
                _ => w.for_each::<(&mut u32, &String)>(|(a, b)| *a += b.len() as u32),
            }
        }
    }
}

pub struct Trace {
    pub t: Vec<u64>,
    pub marks: Vec<usize>,
    pub at_reset: Option<AtReset>,
}

/// Turns a fresh world into the reference run of the check.
pub fn reference(p: &Plan, s: &mut Sut) {
    s.trace = Some(vec![]);
    s.tm = TraceMode { form: 0, relayout: 0, raw: matches!(p.check, "C18" | "C27"), ordered: p.check == "C27", dense: p.check != "C06" };
}

pub fn take(s: &mut Sut) -> Trace {
    Trace { t: s.trace.take().unwrap_or_default(), marks: std::mem::take(&mut s.marks), at_reset: s.at_reset.take() }
}

fn drive(s: &mut Sut, ops: &[Op], st: &mut Stats) -> Res {
    let mut noise = s.tm.ordered.then(|| Noise::new(ops.len() as u64));
    for &op in ops {
        if let Some(n) = &mut noise {
            n.step(st);
        }
        s.step(op, st)?;
        s.mark();
    }
    Ok(())
}

fn build<'t>(f: impl FnOnce() -> Sut<'t>) -> Result<Sut<'t>, vcommon::Viol> {
    match guard(f) {
        Ok(s) => Ok(s),
        Err(e) if e.in_harness() => {
            eprintln!("HARNESS PANIC at {}: {}", e.loc, e.msg);
            std::process::exit(3);
        }
        Err(e) => Err(vcommon::Viol { oracle: "unexpected-panic", msg: format!("building the world panicked at {}: {}", e.loc, e.msg) }),
    }
}

fn run_one(mut s: Sut, tm: TraceMode, ops: &[Op], st: &mut Stats) -> Result<Trace, vcommon::Viol> {
    s.trace = Some(vec![]);
    s.tm = tm;
    if let Err(v) = drive(&mut s, ops, st) {
        std::mem::forget(s);
        return Err(v);
    }
    let t = take(&mut s);
    s.finish(st)?;
    Ok(t)
}

/// The whole case from scratch: reference run, then the variants.
pub fn run_case(tab: &Tab, p: &Plan, c: &Case, st: &mut Stats) -> Res {
    ledger_reset();
    let mut s = build(|| Sut::new(tab, c.pool, c.layout, c.unreg, p.ora))?;
    reference(p, &mut s);
    let tm = s.tm;
    let tr = run_one(s, tm, &c.ops, st)?;
    variants(tab, p, c, tr, st)
}

fn compare(p: &Plan, c: &Case, what: &str, a: &Trace, b: &Trace, base: usize, start: usize, st: &mut Stats) -> Res {
    // `base`: operations of the reference before the variant starts; `start`: its trace position there.
    let mut h = Hash64::default();
    for &x in &b.t {
        h.add(x);
    }
    h.str(what);
    st.eval((b.t.len() > 3).then_some(h.0));
    st.add("results_compared", b.t.len() as u64);
    st.sample(8, || format!("{what}: {} operations, {} recorded results agree", b.marks.len(), b.t.len()));
    let at = &a.t[start..];
    if at == b.t.as_slice() {
        return Ok(());
    }
    let i = at.iter().zip(&b.t).position(|(x, y)| x != y).unwrap_or(at.len().min(b.t.len()));
    let op = b.marks.iter().position(|&m| m > i).unwrap_or(b.marks.len().saturating_sub(1));
    let name = c.ops.get(base + op).map_or("?", |o| NAMES[o.k as usize]);
    viol(
        match p.check {
            "C06" => "layout-transparency",
            "C18" => "reset-like-new",
            "C27" => "same-history-same-results",
            _ => "compound-equals-simple",
        },
        format!("{what}: operation {} ({name}) of {} gives a different result", base + op + 1, c.ops.len()),
    )
}

pub fn variants(tab: &Tab, p: &Plan, c: &Case, a: Trace, st: &mut Stats) -> Res {
    match p.check {
        "C06" => {
            for (i, how) in [1, 2 + c.aux % 1_000_000, 3 + mix(u64::from(c.aux), 5) as u32 % 1_000_000].into_iter().enumerate() {
                let layout = relayout(c.layout, how);
                ledger_reset();
                let s = build(|| Sut::with_groups(tab, c.pool, random_layout(layout, c.pool), c.pool, 0, 0))?;
                let tm = TraceMode { form: 0, relayout: how, raw: false, ordered: false, dense: false };
                let b = run_one(s, tm, &c.ops, st)?;
                let what = format!(
                    "layouts {} and {} (variant {i})",
                    layouts::show(&random_layout(c.layout, c.pool)),
                    layouts::show(&random_layout(layout, c.pool))
                );
                compare(p, c, &what, &a, &b, 0, 0, st)?;
            }
            Ok(())
        }
        "C22" => {
            for form in [1u8, 2] {
                ledger_reset();
                let s = build(|| Sut::with_groups(tab, c.pool, random_layout(c.layout, c.pool), c.pool, 0, form))?;
                let tm = TraceMode { form, relayout: 0, raw: false, ordered: false, dense: true };
                let b = run_one(s, tm, &c.ops, st)?;
                let what = ["", "compound operations and their split form", "compound operations and their atomic form"][form as usize];
                compare(p, c, what, &a, &b, 0, 0, st)?;
            }
            Ok(())
        }
        "C27" => {
            let mut h = Hash64::default();
            for &x in &a.t {
                h.add(x);
            }
            DIGESTS.lock().unwrap().push((h.0, format!("pool {} layout {} unreg {}, {} operations", c.pool, c.layout, c.unreg, c.ops.len())));
            if CHILD.load(Relaxed) {
                return Ok(());
            }
            ledger_reset();
            let s = build(|| Sut::new(tab, c.pool, c.layout, c.unreg, p.ora))?;
            let tm = TraceMode { form: 0, relayout: 0, raw: true, ordered: true, dense: true };
            let b = run_one(s, tm, &c.ops, st)?;
            st.add("twins", 1);
            compare(p, c, "a world alone and its twin beside other worlds", &a, &b, 0, 0, st)
        }
        _ => {
            let Some(r) = a.at_reset.clone() else { return Ok(()) };
            if r.op > c.ops.len() {
                return Ok(());
            }
            ledger_start(r.next_id);
            let s = build(|| Sut::with_groups(tab, c.pool, r.groups.clone(), r.registered, p.ora, 0))?;
            let tm = TraceMode { form: 0, relayout: 0, raw: true, ordered: false, dense: true };
            let b = run_one(s, tm, &c.ops[r.op..], st)?;
            st.add("twins", 1);
            compare(p, c, "a world after reset and a newly built one", &a, &b, r.op, r.trace, st)
        }
    }
}

/// The two queries known to depend on the layout, executed on small fixed worlds. A result other than the known one or
/// the layout-independent one is a violation.
pub fn known_probes(st: &mut Stats) -> Res {
    if kf_partial() {
        st.add("kf:partial-exclude", 1);
    }
    let count = |grouped: bool, c: bool| {
        let mut b = World::builder();
        if grouped {
            b.add_group::<(u8, u16)>();
        }
        b.register::<u8>().register::<u16>().register::<u32>();
        let mut w = b.build();
        w.create((1u8, 2u16));
        w.create((3u8, 4u16, 5u32));
        if c {
            w.query_all::<(&u8, &u16)>().exclude::<Option<&u32>>().iter().count()
        } else {
            w.query_all::<(&u8, &u16)>().exclude::<&u32>().iter().count()
        }
    };
    let r = guard(|| [count(false, false), count(true, false), count(false, true), count(true, true)]);
    let r = match r {
        Ok(r) => r,
        Err(e) => return viol("unexpected-panic", format!("a query excluding a component panicked at {}: {}", e.loc, e.msg)),
    };
    st.eval(None);
    if r[0] != 1 || r[1] != 1 || r[2] != r[3] && (r[2], r[3]) != (0, 2) {
        return viol(
            "layout-transparency",
            format!("entities (A,B) and (A,B,C): excluding C yields {} without and {} with the group (A,B); excluding Option<C> yields {} and {}", r[0], r[1], r[2], r[3]),
        );
    }
    if r[2] != r[3] {
        st.add("kf:optional-exclude", 1);
    }
    Ok(())
}
