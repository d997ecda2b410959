//! Drives a real `World` and the model in lockstep and evaluates the oracles.

use crate::bundles::{comp_data, with_type, Bundle};
use crate::layouts::{self, must_be_dense, random_layout};
use crate::model::*;
use crate::shapes::*;
use crate::types::*;
use sparsey::entity::Version;
use sparsey::{Entity, World};
use vcommon::{HashMap, HashSet};
use std::num::NonZeroU32;
use vcommon::{guard, viol, Hash64, Res, Rng, Stats, Viol};

pub const O_UNIQ: u32 = 1;
pub const O_LIVE: u32 = 2;
pub const O_COMP: u32 = 4;
pub const O_QALL: u32 = 8;
pub const O_POINT: u32 = 16;
pub const O_DENSE: u32 = 32;
pub const O_SLICE: u32 = 64;
pub const O_DROP: u32 = 128;
pub const O_ITER: u32 = 256;
pub const O_MUT: u32 = 512;
pub const O_PAR: u32 = 1024;
pub const O_FAULT: u32 = 2048;
/// Post-conditions of clear and reset.
pub const O_CLEAR: u32 = 4096;
/// Post-conditions of set_layout.
pub const O_LAYOUT: u32 = 8192;
/// Registration results and refusals.
pub const O_REG: u32 = 16384;
/// Panics of user code; the other oracles are switched on once the world was cleared after one.
pub const O_PANIC: u32 = 32768;
/// Every model oracle.
pub const O_ALL: u32 = O_UNIQ | O_LIVE | O_COMP | O_QALL | O_POINT | O_DENSE | O_SLICE | O_MUT | O_FAULT;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Op {
    pub k: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub const CREATE: u8 = 0;
pub const EXTEND: u8 = 1;
pub const ATOMIC: u8 = 2;
pub const MAINTAIN: u8 = 3;
pub const DESTROY: u8 = 4;
pub const INSERT: u8 = 5;
pub const REMOVE: u8 = 6;
pub const DELETE: u8 = 7;
pub const CLEAR: u8 = 8;
pub const RESET: u8 = 9;
pub const LAYOUT: u8 = 10;
pub const REGISTER: u8 = 11;
pub const QUERY: u8 = 12;
pub const MUTATE: u8 = 13;
pub const POINT: u8 = 14;
pub const MUTPOINT: u8 = 15;
pub const VIEW: u8 = 16;
pub const MUTVIEW: u8 = 17;
pub const SLICE: u8 = 18;
pub const MUTSLICE: u8 = 19;
pub const AUDIT: u8 = 20;
pub const PAR: u8 = 21;
pub const MUTPAR: u8 = 22;
pub const CHURN: u8 = 23;
/// Use of a type that is not registered; must panic.
pub const BADUSE: u8 = 24;
/// User code panics inside an operation.
pub const BOOM: u8 = 25;
pub const NK: usize = 26;
pub const NAMES: [&str; NK] = [
    "create", "extend", "create_atomic", "maintain", "destroy", "insert", "remove", "delete", "clear", "reset",
    "set_layout", "register", "query", "mutate", "point", "mutpoint", "view", "mutview", "slice", "mutslice", "audit",
    "par", "mutpar", "churn", "baduse", "boom",
];

pub const FORGED: u32 = 0xffff_0000;

pub struct Tab {
    pub shapes: Vec<Shape>,
    pub bundles: Vec<Bundle>,
}

pub struct Sut<'t> {
    pub w: World,
    pub m: Model,
    pub tab: &'t Tab,
    pub ora: u32,
    pub pool: u16,
    /// Shapes whose types are all in the pool.
    pub shape_ix: Vec<usize>,
    /// Also the shapes without required parts, which only point queries can use.
    pub point_ix: Vec<usize>,
    pub bundle_ix: Vec<usize>,
    /// Results of operations, for differential comparison.
    pub trace: Option<Vec<u64>>,
    pub tm: TraceMode,
    /// Length of the trace after each operation.
    pub marks: Vec<usize>,
    /// State at the most recent reset, for the twin of C18.
    pub at_reset: Option<AtReset>,
    pub last_live_probe: usize,
    /// Values that were leaked by panicked operations.
    pub leak: (i64, i64),
}

/// What a newly built world needs in order to continue like one that was reset here.
#[derive(Clone)]
pub struct AtReset {
    pub op: usize,
    pub trace: usize,
    pub groups: layouts::Groups,
    pub registered: u16,
    pub next_id: u32,
}

/// How a differential run executes operations and what it records.
#[derive(Clone, Copy, Default)]
pub struct TraceMode {
    /// 0: as written; 1: split into the simplest operations; 2: through atomic creation.
    pub form: u8,
    /// Layout seeds of set_layout operations: 0 as written, 1 no groups at all, otherwise another random layout.
    pub relayout: u32,
    /// Record handles as they are instead of by order of creation.
    pub raw: bool,
    /// The order of items counts.
    pub ordered: bool,
    /// Record whether queries are dense.
    pub dense: bool,
}

fn e_new(i: u32, v: u32) -> Entity {
    Entity::new(i, Version(NonZeroU32::new(v.max(1)).unwrap()))
}

pub fn relayout(seed: u32, how: u32) -> u32 {
    match how {
        0 => seed,
        1 => 0,
        h => (vcommon::mix(u64::from(seed), u64::from(h)) as u32) | 1,
    }
}

impl<'t> Sut<'t> {
    /// `reg`: types of the pool that are not registered up front (groups may still register them).
    pub fn new(tab: &'t Tab, pool: u16, layout: u32, unreg: u16, ora: u32) -> Self {
        Self::with_groups(tab, pool, random_layout(layout, pool), pool & !unreg, ora, 0)
    }

    /// `form`: how the world is put together (constructor and register, or one of two builder styles).
    pub fn with_groups(tab: &'t Tab, pool: u16, g: layouts::Groups, reg: u16, ora: u32, form: u8) -> Self {
        let mut s = Sut {
            w: World::default(),
            m: Model::default(),
            tab,
            ora,
            pool,
            shape_ix: vec![],
            point_ix: vec![],
            bundle_ix: vec![],
            trace: None,
            tm: TraceMode::default(),
            marks: vec![],
            at_reset: None,
            last_live_probe: 0,
            leak: (0, 0),
        };
        let regs: Vec<usize> = (0..NT).filter(|t| reg >> t & 1 == 1).collect();
        match form {
            0 => {
                s.w = World::new(&layouts::build(&g));
                for &t in &regs {
                    s.w.register_dyn(comp_data(t));
                }
            }
            1 => {
                let mut b = World::builder();
                for &t in &regs {
                    with_type!(t, T => {
                        b.register::<T>();
                    });
                }
                for grp in &g {
                    let d: Vec<_> = grp.iter().map(|&t| comp_data(t)).collect();
                    b.add_group_dyn(&d);
                }
                s.w = b.build();
            }
            _ => {
                let mut b = World::builder();
                b.set_layout(layouts::build(&g));
                for &t in regs.iter().rev() {
                    b.register_dyn(comp_data(t));
                }
                // A builder can be used again; neither world may notice the other.
                let other = b.build();
                s.w = b.clone().build();
                drop(other);
            }
        }
        for t in regs {
            s.m.registered |= 1 << t;
        }
        s.m.set_groups(g);
        s.refresh();
        s
    }

    /// Recomputes which shapes and bundles use registered types of the pool only.
    fn refresh(&mut self) {
        let no = !(self.pool & self.m.registered);
        let tab = self.tab;
        self.point_ix = (0..tab.shapes.len()).filter(|&i| tab.shapes[i].types & no == 0).collect();
        self.shape_ix = self.point_ix.iter().copied().filter(|&i| tab.shapes[i].parts > 0).collect();
        self.bundle_ix = (0..tab.bundles.len()).filter(|&i| tab.bundles[i].mask & no == 0).collect();
    }

    pub fn on(&self, o: u32) -> bool {
        self.ora & o != 0
    }
    pub fn mark(&mut self) {
        if self.tm.ordered {
            self.tr(crate::types::death_order());
        }
        if let Some(t) = &self.trace {
            self.marks.push(t.len());
        }
    }
    fn tr(&mut self, x: u64) {
        if let Some(t) = &mut self.trace {
            t.push(x);
        }
    }
    /// Records the (unordered) items of a query. Items that differ between layouts only because of the known finding
    /// "partial-exclude" are left out.
    fn tr_rows(&mut self, s: &Shape, rows: &[Row], all: bool) {
        if self.trace.is_none() {
            return;
        }
        let rel = all && self.m.relaxed(s);
        let strict: Option<HashSet<Row>> = rel.then(|| {
            self.m.live.iter().filter(|(_, c)| Model::hits(s, c, true) && !Model::hits(s, c, false)).map(|(&k, c)| Model::row(s, k, c)).collect()
        });
        let mut v: Vec<u64> = vec![];
        for r in rows {
            if strict.as_ref().is_some_and(|x| x.contains(r)) {
                continue;
            }
            let mut h = Hash64::default();
            for (i, &x) in r.iter().enumerate() {
                h.add(if s.get.get(i).is_some_and(|p| p.k == PK::Ent) { self.tr_handle(x) } else { x });
            }
            v.push(h.0);
        }
        if !self.tm.ordered {
            v.sort_unstable();
        }
        let mut h = Hash64::default();
        h.add(v.len() as u64);
        for x in v {
            h.add(x);
        }
        self.tr(h.0);
    }
    fn tr_handle(&self, k: u64) -> u64 {
        if self.tm.raw {
            return k;
        }
        self.m.ord.get(&k).map_or(k | 1 << 63, |&o| u64::from(o))
    }
    /// Records the whole observable state.
    fn tr_state(&mut self, salt: u32) {
        if self.trace.is_none() {
            return;
        }
        let mut v: Vec<u64> = self.w.entities().iter().map(|&e| self.tr_handle(enc(e))).collect();
        if !self.tm.ordered {
            v.sort_unstable();
        }
        let mut h = Hash64::default();
        for x in v {
            h.add(x);
        }
        self.tr(h.0);
        for t in 0..NT {
            let reg = with_type!(t, T => self.w.is_registered::<T>());
            if reg {
                let mut v: Vec<(u64, u32)> = with_type!(t, T => {
                    let v = self.w.borrow::<T>();
                    v.entities().iter().zip(v.as_slice()).map(|(&e, x)| (enc(e), x.rd())).collect()
                });
                for p in &mut v {
                    p.0 = self.tr_handle(p.0);
                }
                if !self.tm.ordered {
                    v.sort_unstable();
                }
                let mut h = Hash64::default();
                for (e, x) in v {
                    h.add(e).add(u64::from(x));
                }
                self.tr(h.0);
            } else {
                self.tr(1);
            }
        }
        let tab = self.tab;
        let mut r = Rng::new(u64::from(salt) ^ 0x77aa);
        for i in 0..self.shape_ix.len() {
            if !r.chance(1, 3) {
                continue;
            }
            let s = &tab.shapes[self.shape_ix[i]];
            let o = (s.iter)(&self.w, IM::Next, &Cx::default());
            self.tr_rows(s, &o.rows, true);
            if self.tm.dense {
                self.tr(o.dense.into());
                let sl = (s.slice)(&self.w, &Cx::default()).is_some();
                self.tr(sl.into());
            }
        }
    }

    pub fn resolve(&self, a: u32, c: u32) -> Option<Entity> {
        if a < FORGED {
            if self.m.handles.is_empty() {
                return None;
            }
            return Some(self.m.handles[a as usize % self.m.handles.len()]);
        }
        let base = if self.m.handles.is_empty() {
            e_new(0, 1)
        } else {
            self.m.handles[c as usize % self.m.handles.len()]
        };
        let v = base.version.0.get();
        Some(match a - FORGED {
            0 => e_new(c % 64, 1),
            1 => e_new(base.index, v.wrapping_add(1)),
            2 => e_new(base.index, v.wrapping_sub(1)),
            3 => e_new(u32::MAX - c % 3, u32::MAX - c % 2),
            4 => e_new(base.index, u32::MAX),
            5 => e_new(base.index, v ^ (1 << (c % 31))),
            6 => e_new(base.index ^ (1 << (c % 17)), v),
            _ => e_new(c % 70000, 1 + c % 5),
        })
    }

    fn shape(&self, b: u32) -> usize {
        self.shape_ix[b as usize % self.shape_ix.len()]
    }
    fn point_shape(&self, b: u32) -> usize {
        self.point_ix[b as usize % self.point_ix.len()]
    }
    fn bundle(&self, b: u32) -> usize {
        self.bundle_ix[b as usize % self.bundle_ix.len()]
    }

    fn issue(&mut self, e: Entity, how: &str, st: &mut Stats) -> Res {
        if self.on(O_UNIQ) {
            let mut h = Hash64::default();
            h.str(how).add(u64::from(e.version.0.get().min(9))).add(u64::from(e.index.min(63)));
            h.add(self.m.pending.len().min(8) as u64).add(self.m.live.len().min(16) as u64);
            st.eval(Some(h.0));
            st.max("highest_version_seen", u64::from(e.version.0.get()));
            if self.m.issued.contains(&enc(e)) {
                let state = if self.m.is_live(e) {
                    "live"
                } else if self.m.pending.contains(&e) {
                    "waiting for maintain"
                } else {
                    "dead"
                };
                return viol(
                    "unique-handles",
                    format!("{how} returned {}, which was returned before and is {state}", show_ent(e)),
                );
            }
        }
        self.m.note_handle(e);
        let h = self.tr_handle(enc(e));
        self.tr(h);
        Ok(())
    }

    /// One operation; a panic from the library on a valid operation is a refutation.
    pub fn step(&mut self, op: Op, st: &mut Stats) -> Res {
        st.add(NAMES[op.k as usize], 1);
        let r = match guard(|| self.exec(op, st)) {
            Ok(r) => r,
            Err(p) if p.in_harness() => {
                eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
                std::process::exit(3);
            }
            Err(p) => viol("unexpected-panic", format!("{} panicked at {}: {}", NAMES[op.k as usize], p.loc, p.msg)),
        };
        r.map_err(|v| Viol { oracle: v.oracle, msg: format!("{} [during {}]", v.msg, NAMES[op.k as usize]) })?;
        self.after(op, st)
    }

    fn after(&mut self, op: Op, st: &mut Stats) -> Res {
        if self.on(O_LIVE) {
            if self.w.entities().len() != self.m.live.len() || self.w.is_empty() != self.m.live.is_empty() {
                return viol(
                    "liveness",
                    format!(
                        "entities() lists {} handles, is_empty is {}, but {} handles are live",
                        self.w.entities().len(),
                        self.w.is_empty(),
                        self.m.live.len()
                    ),
                );
            }
            // Probe a rotating window of known handles.
            let n = self.m.handles.len();
            for _ in 0..n.min(8) {
                self.last_live_probe = (self.last_live_probe + 1) % n;
                self.probe_live(self.m.handles[self.last_live_probe], st)?;
            }
        }
        if self.on(O_DROP) {
            let (n, z) = self.m.tracked_held();
            let (an, az) = (tracked_alive(), z_alive());
            st.eval(None);
            let (an, az) = (an - self.leak.0, az - self.leak.1);
            if an != n as i64 || az != z as i64 {
                return viol(
                    "drop-ledger",
                    format!("world should own {n} tracked and {z} zero-sized values, but {an} and {az} are undropped"),
                );
            }
        }
        if self.on(O_FAULT) {
            // Reaching this point under a sanitizer or interpreter is the observation.
            let mut h = Hash64::default();
            h.add(op.k.into()).add(u64::from(op.b)).add(self.m.layout_sig()).add(self.m.live.len().min(24) as u64).add(self.pool.into());
            st.eval(Some(h.0));
        }
        if let Some(f) = take_faults() {
            if self.on(O_FAULT) {
                return viol("value-fault", f);
            }
        }
        Ok(())
    }

    fn probe_live(&self, e: Entity, st: &mut Stats) -> Res {
        let mut h = Hash64::default();
        h.add(u64::from(e.index.min(255))).add(u64::from(e.version.0.get().min(255))).add(self.m.is_live(e).into());
        h.add(self.m.live.len().min(64) as u64).add(self.m.pending.len().min(8) as u64);
        st.eval(Some(h.0));
        let got = self.w.contains_entity(e);
        if got != self.m.is_live(e) {
            return viol(
                "liveness",
                format!("contains_entity({}) is {got}, history says {}", show_ent(e), self.m.is_live(e)),
            );
        }
        Ok(())
    }

    /// Inserts the components one by one, last first unless a type repeats.
    fn split_insert(&mut self, e: Entity, b: &Bundle, ids: &[u32]) -> bool {
        let tab = self.tab;
        let mut ix: Vec<usize> = (0..b.types.len()).collect();
        if !b.dup() {
            ix.reverse();
        }
        let mut r = true;
        for i in ix {
            r &= (tab.bundles[b.types[i] + 1].insert)(&mut self.w, e, &ids[i..=i]);
        }
        r
    }

    fn exec(&mut self, op: Op, st: &mut Stats) -> Res {
        let tab = self.tab;
        match op.k {
            CREATE => {
                let bi = self.bundle(op.b);
                let b = &tab.bundles[bi];
                let ids: Vec<u32> = b.types.iter().map(|&t| fresh(t)).collect();
                let e = match self.tm.form {
                    1 => {
                        let e = self.w.create(());
                        self.split_insert(e, b, &ids);
                        e
                    }
                    2 if self.m.pending.is_empty() => {
                        let e = self.w.create_atomic();
                        self.w.maintain();
                        (b.insert)(&mut self.w, e, &ids);
                        e
                    }
                    _ => (b.create)(&mut self.w, &ids),
                };
                self.issue(e, "create", st)?;
                let mut c = [0; NT];
                Model::assign(&mut c, b, &ids);
                self.m.add(e, c);
                self.check_comp(e, st)
            }
            EXTEND => {
                let bi = self.bundle(op.b);
                let b = &tab.bundles[bi];
                let n = op.a as usize;
                let ids: Vec<u32> = (0..n).flat_map(|_| b.types.iter().map(|&t| fresh(t))).collect();
                let es: Vec<Entity> = match self.tm.form {
                    0 => (b.extend)(&mut self.w, &ids, n, op.c as u8, None),
                    f => (0..n)
                        .map(|i| {
                            let k = b.types.len();
                            let row = &ids[i * k..(i + 1) * k];
                            if f == 1 {
                                (b.create)(&mut self.w, row)
                            } else {
                                let e = self.w.create(());
                                (b.insert)(&mut self.w, e, row);
                                e
                            }
                        })
                        .collect(),
                };
                // Without this nothing about the new entities could be judged.
                if es.len() != n {
                    return viol("extend-length", format!("extend of {n} rows returned {} entities", es.len()));
                }
                let k = b.types.len();
                for (i, &e) in es.iter().enumerate() {
                    self.issue(e, "extend", st)?;
                    let mut c = [0; NT];
                    Model::assign(&mut c, b, &ids[i * k..(i + 1) * k]);
                    self.m.add(e, c);
                }
                if let Some(&e) = es.last() {
                    self.check_comp(e, st)?;
                }
                Ok(())
            }
            ATOMIC => {
                for _ in 0..op.a {
                    let e = self.w.create_atomic();
                    self.issue(e, "create_atomic", st)?;
                    self.m.pending.push(e);
                }
                Ok(())
            }
            MAINTAIN => {
                self.w.maintain();
                for e in std::mem::take(&mut self.m.pending) {
                    self.m.add(e, [0; NT]);
                }
                Ok(())
            }
            DESTROY => {
                let Some(e) = self.resolve(op.a, op.c) else { return Ok(()) };
                if self.tm.form != 0 {
                    let mut ts: Vec<usize> = (0..NT).filter(|t| (self.pool & self.m.registered) >> t & 1 == 1).collect();
                    if self.tm.form == 2 {
                        ts.reverse();
                    }
                    for t in ts {
                        (tab.bundles[t + 1].delete)(&mut self.w, e);
                    }
                }
                let r = self.w.destroy(e);
                let exp = self.m.del(e).is_some();
                self.tr(r.into());
                self.ret_live("destroy", e, r, exp, st)?;
                if self.on(O_LIVE) {
                    self.probe_live(e, st)?;
                }
                Ok(())
            }
            INSERT => {
                let Some(e) = self.resolve(op.a, op.c) else { return Ok(()) };
                let bi = self.bundle(op.b);
                let b = &tab.bundles[bi];
                let ids: Vec<u32> = b.types.iter().map(|&t| fresh(t)).collect();
                let r = if self.tm.form == 1 && !b.types.is_empty() {
                    self.split_insert(e, b, &ids)
                } else {
                    (b.insert)(&mut self.w, e, &ids)
                };
                let exp = self.m.is_live(e);
                self.tr(r.into());
                self.ret_live("insert", e, r, exp, st)?;
                if exp {
                    Model::assign(self.m.live.get_mut(&enc(e)).unwrap(), b, &ids);
                    self.check_comp(e, st)?;
                }
                Ok(())
            }
            REMOVE => {
                let Some(e) = self.resolve(op.a, op.c) else { return Ok(()) };
                let bi = self.bundle(op.b);
                let b = &tab.bundles[bi];
                let got = if self.tm.form == 1 {
                    b.types.iter().map(|&t| (tab.bundles[t + 1].remove)(&mut self.w, e)[0]).collect()
                } else {
                    (b.remove)(&mut self.w, e)
                };
                let mut exp: Vec<Option<u32>> = vec![];
                match self.m.live.get_mut(&enc(e)) {
                    Some(c) => {
                        for &t in &b.types {
                            exp.push((c[t] != 0).then_some(c[t]));
                            c[t] = 0;
                        }
                    }
                    None => exp = vec![None; b.types.len()],
                }
                for g in &got {
                    self.tr(g.map_or(0, u64::from));
                }
                let dead = !self.m.is_live(e);
                if self.on(O_COMP) || (self.on(O_LIVE) && dead) {
                    let mut h = Hash64::default();
                    h.add(bi as u64).add(exp.iter().map(|x| u64::from(x.is_some())).fold(0, |a, b| a * 2 + b));
                    h.add(self.m.layout_sig()).add(dead.into());
                    st.eval(Some(h.0));
                    if got != exp {
                        return viol(
                            "remove-result",
                            format!("remove::<{}>({}) returned {got:?}, should be {exp:?}", b.name, show_ent(e)),
                        );
                    }
                }
                self.check_comp(e, st)
            }
            DELETE => {
                let Some(e) = self.resolve(op.a, op.c) else { return Ok(()) };
                let bi = self.bundle(op.b);
                let b = &tab.bundles[bi];
                match self.tm.form {
                    0 => (b.delete)(&mut self.w, e),
                    1 => b.types.iter().for_each(|&t| (tab.bundles[t + 1].delete)(&mut self.w, e)),
                    _ => drop((b.remove)(&mut self.w, e)),
                }
                if let Some(c) = self.m.live.get_mut(&enc(e)) {
                    for &t in &b.types {
                        c[t] = 0;
                    }
                }
                self.check_comp(e, st)
            }
            CLEAR => {
                let old = self.m.pending.clone();
                self.w.clear();
                self.m.clear();
                if self.leak != (0, 0) {
                    st.add("recoveries", 1);
                }
                self.emptied("clear", &old, st)
            }
            RESET => {
                let old = self.m.pending.clone();
                self.w.reset();
                self.m.clear();
                self.m.issued.clear();
                if self.trace.is_some() && self.tm.raw {
                    // Operations refer to handles by position; start over, so that a new world can follow.
                    self.m.handles.clear();
                    self.m.ord.clear();
                    self.last_live_probe = 0;
                    self.at_reset = Some(AtReset {
                        op: self.marks.len() + 1,
                        trace: self.trace.as_ref().map_or(0, Vec::len),
                        groups: self.m.groups.clone(),
                        registered: self.m.registered,
                        next_id: next_id_peek(),
                    });
                }
                self.emptied("reset", &old, st)
            }
            LAYOUT => {
                let g = random_layout(relayout(op.a, self.tm.relayout), self.pool);
                let l = layouts::build(&g);
                let before = self.on(O_LAYOUT).then(|| (self.w.entities().to_vec(), drops()));
                self.w.set_layout(&l);
                self.m.set_groups(g);
                self.refresh();
                if let Some((es, d)) = before {
                    st.eval(Some(self.m.sig()));
                    st.add("layouts_set", 1);
                    if !self.m.live.is_empty() {
                        st.add("layouts_set_populated", 1);
                    }
                    if drops() != d {
                        return viol("set-layout", format!("set_layout ran {} destructors", drops() - d));
                    }
                    let mut now = self.w.entities().to_vec();
                    let mut es = es;
                    now.sort_unstable();
                    es.sort_unstable();
                    if now != es {
                        return viol("set-layout", format!("set_layout changed the entities: {} before, {} after", es.len(), now.len()));
                    }
                    self.check_registered(st)?;
                    // Everything at once, under the groups of the new layout.
                    self.audit(st, op.c)?;
                }
                Ok(())
            }
            REGISTER => {
                let t = op.a as usize % NT;
                let r = if op.c & 1 == 0 {
                    self.w.register_dyn(comp_data(t))
                } else {
                    with_type!(t, T => self.w.register::<T>())
                };
                let new = self.m.registered >> t & 1 == 0;
                self.m.registered |= 1 << t;
                self.refresh();
                self.tr(r.into());
                if self.on(O_REG) {
                    let mut h = Hash64::default();
                    h.add(t as u64).add(new.into()).add(u64::from(self.m.registered)).add(self.m.sig());
                    st.eval(Some(h.0));
                    if r != new {
                        return viol("register", format!("register::<T{t}>() returned {r}, should be {new}"));
                    }
                }
                self.check_registered(st)
            }
            BADUSE => self.bad_use(op, st),
            QUERY => {
                let s = self.shape(op.b);
                let mode = match self.tm.form {
                    0 => IMODES[op.a as usize % IMODES.len()],
                    1 => IM::Next,
                    _ => IM::WForEach,
                };
                self.check_query(s, mode, st)
            }
            MUTATE => {
                let s = self.shape(op.b);
                self.mutate(s, IMODES[op.a as usize % IMODES.len()], st)
            }
            POINT => {
                let Some(e) = self.resolve(op.a, op.c) else { return Ok(()) };
                let s = self.point_shape(op.b);
                self.check_point(s, e, st)
            }
            MUTPOINT => {
                let Some(e) = self.resolve(op.a, op.c) else { return Ok(()) };
                let s = self.point_shape(op.b);
                self.mut_point(s, e, [OM::Get, OM::Map, OM::Swapped][op.c as usize % 3], st)
            }
            VIEW => self.check_view(self.pick_type(op.b), op.a, st),
            MUTVIEW => self.mut_view(self.pick_type(op.b), op.a, op.c, st),
            SLICE => {
                let s = self.shape(op.b);
                self.check_slice(s, st)
            }
            MUTSLICE => {
                let s = self.shape(op.b);
                self.mut_slice(s, st)
            }
            AUDIT => self.audit(st, op.a),
            #[cfg(feature = "par")]
            PAR => {
                let s = self.shape(op.b);
                self.check_par(s, op.a, false, st)
            }
            #[cfg(feature = "par")]
            MUTPAR => {
                let s = self.shape(op.b);
                self.check_par(s, op.a, true, st)
            }
            CHURN => self.churn(op, st),
            BOOM => self.boom(op, st),
            _ => Ok(()),
        }
    }

    /// After clear and reset: nothing is left, everything stays registered, pending handles stay dead.
    pub fn emptied(&mut self, how: &'static str, pending: &[Entity], st: &mut Stats) -> Res {
        if !self.on(O_CLEAR) {
            return Ok(());
        }
        let mut h = Hash64::default();
        h.str(how).add(u64::from(self.m.registered)).add(self.m.layout_sig()).add(pending.len().min(4) as u64);
        h.add(self.m.handles.len().min(64) as u64);
        st.eval(Some(h.0));
        st.add("emptied", 1);
        if !self.w.is_empty() || !self.w.entities().is_empty() {
            return viol("clear-reset", format!("{how} left {} entities", self.w.entities().len()));
        }
        for e in pending {
            if self.w.contains_entity(*e) {
                return viol("clear-reset", format!("pending {} is live after {how}", show_ent(*e)));
            }
        }
        for t in 0..NT {
            if self.m.registered >> t & 1 == 1 {
                let n = with_type!(t, T => {
                    let v = self.w.borrow::<T>();
                    v.len().max(v.as_slice().len()).max(v.entities().len())
                });
                if n != 0 {
                    return viol("clear-reset", format!("{how} left {n} components of T{t}"));
                }
            }
        }
        if (tracked_alive(), z_alive()) != self.leak {
            return viol("clear-reset", format!("{how} left {} + {} component values undropped", tracked_alive(), z_alive()));
        }
        for &si in &self.shape_ix {
            let s = &self.tab.shapes[si];
            let o = (s.iter)(&self.w, IM::Next, &Cx::default());
            if !o.rows.is_empty() {
                return viol("clear-reset", format!("query [{}] yields {} items after {how}", s.name, o.rows.len()));
            }
            let sl = (s.slice)(&self.w, &Cx::default());
            if let Some(c) = &sl {
                if c.iter().flatten().any(|c| !c.is_empty()) {
                    return viol("clear-reset", format!("slices of [{}] are not empty after {how}", s.name));
                }
            }
            let must = must_be_dense(&self.m.eff, s);
            if o.dense != must || sl.is_some() != must {
                return viol("clear-reset", format!("query [{}] dense {}, slices {} after {how}; the groups {} say {must}", s.name, o.dense, sl.is_some(), layouts::show(&self.m.groups)));
            }
        }
        self.check_registered(st)
    }

    fn check_registered(&self, st: &mut Stats) -> Res {
        if self.ora & (O_REG | O_CLEAR | O_LAYOUT) == 0 {
            return Ok(());
        }
        for t in 0..NT {
            let want = self.m.registered >> t & 1 == 1;
            let got = with_type!(t, T => self.w.is_registered::<T>());
            let dy = self.w.is_registered_dyn(comp_data(t).type_id());
            st.eval(None);
            if got != want || dy != want {
                return viol("registered", format!("is_registered::<T{t}>() is {got}, is_registered_dyn {dy}, should be {want}"));
            }
        }
        Ok(())
    }

    /// Uses a type that is not registered; the call must panic and leave other entities alone.
    fn bad_use(&mut self, op: Op, st: &mut Stats) -> Res {
        let tab = self.tab;
        let no = !self.m.registered & ((1 << NT) - 1);
        let bs: Vec<usize> = (0..tab.bundles.len()).filter(|&i| tab.bundles[i].mask & no != 0).collect();
        let ss: Vec<usize> = (0..tab.shapes.len()).filter(|&i| tab.shapes[i].types & no != 0).collect();
        if bs.is_empty() || ss.is_empty() {
            return Ok(());
        }
        let b = &tab.bundles[bs[op.b as usize % bs.len()]];
        let s = &tab.shapes[ss[op.b as usize % ss.len()]];
        let t = (0..NT).filter(|t| no >> t & 1 == 1).nth(op.b as usize % no.count_ones() as usize).unwrap();
        let ids: Vec<u32> = b.types.iter().map(|&t| fresh(t)).collect();
        let mut victim = None;
        if matches!(op.a % 12, 0..=2) {
            let Some(&k) = self.m.lives.get(op.c as usize % self.m.lives.len().max(1)) else { return Ok(()) };
            victim = Some(dec(k));
        }
        let probe = self.resolve(op.c % 8, 0).unwrap_or(e_new(0, 1));
        let (what, r) = match op.a % 12 {
            0 => ("insert", guard(|| drop((b.insert)(&mut self.w, victim.unwrap(), &ids)))),
            1 => ("remove", guard(|| drop((b.remove)(&mut self.w, victim.unwrap())))),
            2 => ("delete", guard(|| (b.delete)(&mut self.w, victim.unwrap()))),
            3 => ("create", guard(|| drop((b.create)(&mut self.w, &ids)))),
            4 => ("extend", guard(|| drop((b.extend)(&mut self.w, &ids, 1, op.c as u8, None)))),
            5 => ("query_all", guard(|| drop((s.iter)(&self.w, IM::Next, &Cx::default())))),
            6 => ("query_one", guard(|| drop((s.one)(&self.w, probe, OM::Get, &Cx::default())))),
            7 => ("query_one contains", guard(|| drop((s.one)(&self.w, probe, OM::Contains, &Cx::default())))),
            8 => ("slice", guard(|| drop((s.slice)(&self.w, &Cx::default())))),
            9 => ("borrow", guard(|| with_type!(t, T => drop(self.w.borrow::<T>())))),
            10 => ("borrow_mut", guard(|| with_type!(t, T => drop(self.w.borrow_mut::<T>())))),
            _ => ("borrow_with_group_info", guard(|| with_type!(t, T => { drop(self.w.borrow_with_group_info::<T>().0); }))),
        };
        let subject = match op.a % 12 {
            0..=4 => b.name.to_string(),
            5..=8 => s.name.to_string(),
            _ => format!("T{t}"),
        };
        let mut h = Hash64::default();
        h.str(what).str(&subject).add(u64::from(self.m.registered)).add(self.m.layout_sig());
        st.eval(Some(h.0));
        st.add("refused_uses", 1);
        match r {
            Ok(()) => {
                if self.on(O_REG) {
                    return viol("unregistered", format!("{what} of {subject} did not panic although not all types are registered (registered: {:#x})", self.m.registered));
                }
            }
            Err(p) if p.in_harness() => {
                eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
                std::process::exit(3);
            }
            Err(p) => st.sample(6, || format!("{what} of {subject}: refused with \"{}\"", p.msg)),
        }
        // Entities the refused call created have no components.
        let extra: Vec<Entity> = self.w.entities().iter().copied().filter(|&e| !self.m.is_live(e)).collect();
        for e in extra {
            self.issue(e, what, st)?;
            self.m.add(e, [0; NT]);
            victim = Some(e);
        }
        if let (Some(e), true) = (victim, self.on(O_REG)) {
            let want = self.m.live.get(&enc(e)).copied().unwrap_or([0; NT]);
            for t in 0..NT {
                if self.m.registered >> t & 1 == 1 {
                    st.evaluations += 1;
                    let x = with_type!(t, T => self.w.borrow::<T>().get(e).map_or(0, |x| x.rd()));
                    if x != want[t] {
                        return viol("unregistered", format!("refused {what} of {subject} changed T{t} of {} from {} to {}", show_ent(e), sid(want[t]), sid(x)));
                    }
                }
            }
        }
        Ok(())
    }

    /// Many destroy/create rounds on few indices (version churn), or many creations (index growth).
    fn churn(&mut self, op: Op, st: &mut Stats) -> Res {
        match op.b % 3 {
            0 => {
                for _ in 0..op.a {
                    let e = self.w.create(());
                    self.issue(e, "create", st)?;
                    let r = self.w.destroy(e);
                    self.ret_live("destroy", e, r, true, st)?;
                }
            }
            1 => {
                for _ in 0..op.a {
                    let e = self.w.create_atomic();
                    self.issue(e, "create_atomic", st)?;
                    self.w.maintain();
                    for e in std::mem::take(&mut self.m.pending) {
                        self.m.add(e, [0; NT]);
                    }
                    if self.on(O_LIVE) && !self.w.contains_entity(e) {
                        return viol("liveness", format!("{} is not live after maintain", show_ent(e)));
                    }
                    let r = self.w.destroy(e);
                    self.ret_live("destroy", e, r, true, st)?;
                }
            }
            _ => {
                for _ in 0..op.a {
                    let e = self.w.create(());
                    self.issue(e, "create", st)?;
                    self.m.add(e, [0; NT]);
                }
            }
        }
        Ok(())
    }

    pub fn pick_type(&self, b: u32) -> usize {
        let ts: Vec<usize> = (0..NT).filter(|t| self.m.registered >> t & 1 == 1).collect();
        ts[b as usize % ts.len()]
    }

    fn ret_live(&self, what: &str, e: Entity, got: bool, exp: bool, st: &mut Stats) -> Res {
        if self.on(O_LIVE) {
            let mut h = Hash64::default();
            h.str(what).add(exp.into()).add(u64::from(e.version.0.get().min(16))).add(u64::from(e.index.min(64)));
            h.add(self.m.pending.len().min(4) as u64);
            st.eval(Some(h.0));
            if got != exp {
                return viol(
                    "liveness",
                    format!("{what}({}) returned {got}, but the handle is {}live", show_ent(e), if exp { "" } else { "not " }),
                );
            }
        }
        Ok(())
    }

    /// All component types of one entity through point lookups.
    pub fn check_comp(&mut self, e: Entity, st: &mut Stats) -> Res {
        if !self.on(O_COMP) {
            return Ok(());
        }
        let exp = self.m.live.get(&enc(e)).copied().unwrap_or([0; NT]);
        for t in 0..NT {
            if self.m.registered >> t & 1 == 0 {
                continue;
            }
            let got = with_type!(t, T => self.w.query_one::<&T>().get(e).map_or(0, |x| x.rd()));
            let got2 = with_type!(t, T => self.w.borrow::<T>().get(e).map_or(0, |x| x.rd()));
            if got != exp[t] || got2 != exp[t] {
                return viol(
                    "component-value",
                    format!(
                        "T{t} of {} reads {} through query_one and {} through a view, should be {}",
                        show_ent(e),
                        sid(got),
                        sid(got2),
                        sid(exp[t])
                    ),
                );
            }
        }
        let mut h = Hash64::default();
        h.add(u64::from(mask_of(&exp))).add(self.m.layout_sig()).add(self.m.live.len().min(32) as u64);
        h.add(self.m.is_live(e).into());
        st.eval(Some(h.0));
        Ok(())
    }

    fn query_sig(&self, si: usize, dense: bool, n: usize) -> Option<u64> {
        (n > 0).then(|| {
            let mut h = Hash64::default();
            h.add(si as u64).add(dense.into()).add(n.min(8) as u64).add(self.m.sig());
            h.0
        })
    }

    pub fn check_query(&mut self, si: usize, mode: IM, st: &mut Stats) -> Res {
        let tab = self.tab;
        let s = &tab.shapes[si];
        let mode = if mode == IM::WForEach && !s.plain() { IM::Next } else { mode };
        let mut o = (s.iter)(&self.w, mode, &Cx::default());
        if self.on(O_ITER) {
            self.iter_protocol(si, &o, mode, st)?;
        }
        o.rows.sort_unstable();
        if self.trace.is_some() {
            let rows = o.rows.clone();
            self.tr_rows(s, &rows, true);
        }
        if self.on(O_QALL) {
            let exp = self.m.expect(s);
            if self.m.kf_differs(s) {
                st.add("kf:partial-exclude", 1);
            }
            st.eval(self.query_sig(si, o.dense, exp.len()));
            st.add(if o.dense { "dense_queries" } else { "sparse_queries" }, 1);
            st.add("items_compared", exp.len() as u64);
            st.max("largest_result", exp.len() as u64);
            if let Some(d) = diff_rows(s, &exp, &o.rows) {
                return viol("query-items", format!("{d} (mode {mode:?}, dense {}, groups {})", o.dense, layouts::show(&self.m.groups)));
            }
            if exp.len() > 1 {
                st.sample(12, || {
                    format!("[{}] mode {mode:?} dense {} groups {} -> {} items, first {}", s.name, o.dense, layouts::show(&self.m.groups), exp.len(), show_row(s, &exp[0]))
                });
            }
        }
        if self.on(O_DENSE) {
            self.check_dense(si, st)?;
        }
        Ok(())
    }

    pub fn check_dense(&mut self, si: usize, st: &mut Stats) -> Res {
        let s = &self.tab.shapes[si];
        if !must_be_dense(&self.m.eff, s) {
            return Ok(());
        }
        let o = (s.iter)(&self.w, IM::Next, &Cx::default());
        let n = self.m.count(s);
        st.eval(self.query_sig(si, o.dense, n.max(1)));
        if self.m.kf_differs(s) {
            st.add("kf:partial-exclude", 1);
        }
        if s.parts > 1 {
            st.add("grouped_queries", 1);
            if s.exc_mask != 0 {
                st.add("grouped_exclude_queries", 1);
            }
            st.add("grouped_items", n as u64);
        }
        let ctx = || format!("query [{}] with groups {}", s.name, layouts::show(&self.m.groups));
        if !o.dense {
            return viol("density", format!("{} iterates sparsely", ctx()));
        }
        // The reported length is that of the first `len` call; it must be the number of matching entities.
        if o.lens.first() != Some(&n) {
            return viol("density", format!("{}: dense length {:?}, matching entities {n}", ctx(), o.lens.first()));
        }
        match (s.slice)(&self.w, &Cx::default()) {
            None => return viol("density", format!("{}: no slices", ctx())),
            Some(cols) => {
                for c in cols.iter().flatten() {
                    if c.len() != n {
                        return viol("density", format!("{}: slice length {}, matching entities {n}", ctx(), c.len()));
                    }
                }
            }
        }
        #[cfg(feature = "par")]
        {
            let p = (s.par)(&self.w, PM::FoldReduce, &Cx::default());
            if !p.dense || p.opt_len != Some(n) {
                return viol("density", format!("{}: parallel iterator dense {} opt_len {:?}, matching {n}", ctx(), p.dense, p.opt_len));
            }
        }
        st.sample(10, || format!("{} -> dense, {n} items", ctx()));
        Ok(())
    }

    pub fn check_slice(&mut self, si: usize, st: &mut Stats) -> Res {
        let s = &self.tab.shapes[si];
        let got = (s.slice)(&self.w, &Cx::default());
        if !self.on(O_SLICE) {
            return Ok(());
        }
        let ctx = || format!("slice of [{}] with groups {}", s.name, layouts::show(&self.m.groups));
        let must = must_be_dense(&self.m.eff, s);
        let Some(cols) = got else {
            st.add("slices_refused", 1);
            if must {
                return viol("slices", format!("{}: refused although a group serves the query", ctx()));
            }
            return Ok(());
        };
        if !must {
            return viol("slices", format!("{}: offered although no group serves the query", ctx()));
        }
        self.slice_rows(si, &cols, st)
    }

    fn slice_rows(&self, si: usize, cols: &Cols, st: &mut Stats) -> Res {
        let s = &self.tab.shapes[si];
        let ctx = || format!("slice of [{}] with groups {}", s.name, layouts::show(&self.m.groups));
        let lens: Vec<usize> = cols.iter().flatten().map(Vec::len).collect();
        let mut exp: Vec<Row> = self.m.expect(s);
        if self.m.kf_differs(s) {
            st.add("kf:partial-exclude", 1);
        }
        // Optional parts have no slice.
        for r in &mut exp {
            for (i, p) in s.get.iter().enumerate() {
                if matches!(p.k, PK::Opt | PK::OptMut) {
                    r[i] = 0;
                }
            }
        }
        exp.sort_unstable();
        if lens.is_empty() {
            return Ok(());
        }
        if lens.iter().any(|&l| l != lens[0]) {
            return viol("slices", format!("{}: lengths differ: {lens:?}", ctx()));
        }
        let mut rows = vec![[0; W]; lens[0]];
        for (i, c) in cols.iter().enumerate() {
            if let Some(c) = c {
                for (j, &x) in c.iter().enumerate() {
                    rows[j][i] = x;
                }
            }
        }
        rows.sort_unstable();
        let mut h = Hash64::default();
        h.add(si as u64).add(self.m.sig()).add(rows.len().min(16) as u64);
        st.eval((!exp.is_empty()).then_some(h.0));
        st.add("slice_rows", rows.len() as u64);
        if s.exc_mask != 0 && !exp.is_empty() {
            st.add("exclude_slices_nonempty", 1);
        }
        if let Some(d) = diff_rows(s, &exp, &rows) {
            return viol("slices", format!("{}: {d}", ctx()));
        }
        if exp.len() > 1 {
            st.sample(10, || format!("{} -> {} aligned rows, e.g. {}", ctx(), rows.len(), show_row(s, &rows[0])));
        }
        Ok(())
    }

    fn iter_protocol(&self, si: usize, o: &IterOut, mode: IM, st: &mut Stats) -> Res {
        let s = &self.tab.shapes[si];
        let ctx = || format!("query [{}] groups {} dense {}", s.name, layouts::show(&self.m.groups), o.dense);
        // Reference order: a second plain pass.
        let r = (s.iter)(&self.w, IM::Next, &Cx::default());
        let n = r.rows.len();
        let mut h = Hash64::default();
        h.add(si as u64).add(r.dense.into()).add(n.min(12) as u64).add(self.m.sig());
        h.str(&format!("{mode:?}"));
        st.eval((n > 0).then_some(h.0));
        for (i, &(lo, hi)) in r.hints.iter().enumerate() {
            let rem = n.saturating_sub(i);
            if lo > rem || hi.is_some_and(|h| h < rem) {
                return viol("iterator", format!("{}: size_hint ({lo}, {hi:?}) with {rem} items left", ctx()));
            }
            if r.dense && (lo, hi) != (rem, Some(rem)) {
                return viol("iterator", format!("{}: dense size_hint ({lo}, {hi:?}) with {rem} items left", ctx()));
            }
        }
        for (i, &l) in r.lens.iter().enumerate() {
            if l != n.saturating_sub(i) {
                return viol("iterator", format!("{}: len() {l} with {} items left", ctx(), n - i));
            }
        }
        if r.after_end != 0 || o.after_end != 0 {
            return viol("iterator", format!("{}: next returned an item after the end", ctx()));
        }
        let exp: Vec<Row> = match mode {
            IM::Nth(k) => r.rows.iter().skip(k).step_by(k + 1).copied().collect(),
            IM::Last => {
                if o.hints[0].0 != n {
                    return viol("iterator", format!("{}: count() is {}, next yields {n}", ctx(), o.hints[0].0));
                }
                r.rows.last().copied().into_iter().collect()
            }
            _ => r.rows.clone(),
        };
        if o.rows != exp {
            return viol(
                "iterator",
                format!("{}: consumed by {mode:?} yields {:?}, by next yields {:?}", ctx(), head(s, &o.rows), head(s, &exp)),
            );
        }
        if n > 1 {
            st.sample(10, || format!("{}: {mode:?} agrees with next over {n} items", ctx()));
        }
        Ok(())
    }

    /// A query without required parts asks nothing of the entity, so for a handle that is not live it may match, but
    /// then only without any component.
    fn lax_row(&self, s: &Shape, e: Entity) -> Option<Row> {
        (s.parts == 0 && !self.m.is_live(e)).then(|| Model::row(s, enc(e), &[0; NT]))
    }

    pub fn check_point(&mut self, si: usize, e: Entity, st: &mut Stats) -> Res {
        let tab = self.tab;
        let s = &tab.shapes[si];
        let exp: Option<Row> = self.m.live.get(&enc(e)).filter(|c| Model::matches(s, c)).map(|c| Model::row(s, enc(e), c));
        let lax = self.lax_row(s, e);
        for mode in [OM::Get, OM::Contains, OM::Map, OM::Swapped, OM::WContains] {
            if mode == OM::WContains && !s.plain() {
                continue;
            }
            let got = (s.one)(&self.w, e, mode, &Cx::default());
            if self.trace.is_some() {
                let mut rows: Vec<Row> = got.into_iter().collect();
                if matches!(mode, OM::Contains | OM::WContains) {
                    rows.iter_mut().for_each(|r| *r = [0; W]);
                }
                self.tr_rows(s, &rows, false);
            }
            if !self.on(O_POINT) {
                continue;
            }
            let bad = match mode {
                OM::Contains | OM::WContains => got.is_some() != exp.is_some() && lax.is_none(),
                _ => got != exp && (lax.is_none() || got != lax),
            };
            if bad {
                return viol(
                    "point-query",
                    format!(
                        "query_one [{}] {mode:?}({}) gives {}, should be {} (handle is {}live, groups {})",
                        s.name,
                        show_ent(e),
                        got.map_or("none".into(), |r| show_row(s, &r)),
                        exp.map_or("none".into(), |r| show_row(s, &r)),
                        if self.m.is_live(e) { "" } else { "not " },
                        layouts::show(&self.m.groups)
                    ),
                );
            }
        }
        if self.on(O_POINT) {
            let mut h = Hash64::default();
            h.add(si as u64).add(exp.is_some().into()).add(self.m.is_live(e).into());
            h.add(self.m.live.get(&enc(e)).map_or(0, |c| u64::from(mask_of(c)))).add(self.m.layout_sig());
            st.eval(Some(h.0));
            st.add(if exp.is_some() { "point_hits" } else { "point_misses" }, 1);
            if !self.m.is_live(e) {
                st.add("point_dead_handles", 1);
            }
            if exp.is_some() {
                st.sample(8, || format!("query_one [{}] on {} -> {}", s.name, show_ent(e), show_row(s, &exp.unwrap())));
            }
        }
        Ok(())
    }

    pub fn check_view(&mut self, t: usize, a: u32, st: &mut Stats) -> Res {
        let mut exp = self.m.owners(t);
        exp.sort_unstable();
        let probe: Vec<Entity> = (0..6u32)
            .filter_map(|i| if i < 3 { self.resolve(a.wrapping_mul(31).wrapping_add(i * 7) % FORGED, 0) } else { self.resolve(FORGED + i, a.wrapping_add(i)) })
            .collect();
        // Indexing with a handle that has no such component panics.
        if self.on(O_POINT) && (!cfg!(miri) || a % 4 == 0) {
            for (i, &e) in probe.iter().enumerate() {
                if i % 2 == a as usize % 2 || self.m.live.get(&enc(e)).is_some_and(|c| c[t] != 0) {
                    continue;
                }
                let r = with_type!(t, T => {
                    if i < 3 {
                        let v = self.w.borrow::<T>();
                        guard(|| v[e].rd())
                    } else {
                        let mut v = self.w.borrow_mut::<T>();
                        guard(|| (&mut v[e]).rd())
                    }
                });
                if let Ok(x) = r {
                    return viol(
                        "view",
                        format!("indexing a view of T{t} with {} gives {}, although it has no such component", show_ent(e), sid(x)),
                    );
                }
                st.add("index_refusals", 1);
            }
        }
        for mutable in [false, true] {
            let (ents, ids, len, empty, gets): (Vec<u64>, Vec<u32>, usize, bool, Vec<(bool, u32)>) = with_type!(t, T => {
                if mutable {
                    let v = self.w.borrow_mut::<T>();
                    (
                        v.entities().iter().map(|&e| enc(e)).collect(),
                        v.as_slice().iter().map(|x| x.rd()).collect(),
                        v.len(),
                        v.is_empty(),
                        probe.iter().map(|&e| (v.contains(e), v.get(e).map_or(0, |x| x.rd()))).collect(),
                    )
                } else {
                    let v = self.w.borrow::<T>();
                    let g = |e: Entity| {
                        // Indexing agrees with get where it is defined.
                        let x = v.get(e).map_or(0, |x| x.rd());
                        if x == 0 { 0 } else { v[e].rd() }
                    };
                    (
                        v.entities().iter().map(|&e| enc(e)).collect(),
                        v.as_slice().iter().map(|x| x.rd()).collect(),
                        v.len(),
                        v.is_empty(),
                        probe.iter().map(|&e| (v.contains(e), g(e))).collect(),
                    )
                }
            });
            let mut got: Vec<(u64, u32)> = ents.iter().copied().zip(ids.iter().copied()).collect();
            got.sort_unstable();
            if self.trace.is_some() {
                let mut h = Hash64::default();
                let mut v: Vec<(u64, u32)> = got.iter().map(|&(e, i)| (self.tr_handle(e), i)).collect();
                v.sort_unstable();
                for (e, i) in v {
                    h.add(e).add(u64::from(i));
                }
                self.tr(h.0);
            }
            if !self.on(O_POINT) {
                continue;
            }
            let mut h = Hash64::default();
            h.add(t as u64).add(self.m.sig());
            st.eval((!exp.is_empty()).then_some(h.0));
            if got != exp || ents.len() != ids.len() || len != ents.len() || empty != (len == 0) {
                return viol(
                    "view",
                    format!(
                        "view of T{t}: len {len}, is_empty {empty}, {} entities, {} components, pairs {:?}; should be {:?}",
                        ents.len(),
                        ids.len(),
                        heads(&got),
                        heads(&exp)
                    ),
                );
            }
            for (e, (c, x)) in probe.iter().zip(gets) {
                let want = self.m.live.get(&enc(*e)).map_or(0, |c| c[t]);
                if x != want || c != (want != 0) {
                    return viol(
                        "view",
                        format!("view of T{t}: get({0}) gives {1}, contains({0}) gives {c}; should be {2}", show_ent(*e), sid(x), sid(want)),
                    );
                }
            }
        }
        Ok(())
    }

    // ---- mutation -----------------------------------------------------------------------------

    fn mut_sig(&self, tag: &str, si: usize, n: usize) -> Option<u64> {
        (n > 0).then(|| {
            let mut h = Hash64::default();
            h.str(tag).add(si as u64).add(n.min(8) as u64).add(self.m.sig());
            h.0
        })
    }

    pub fn mutate(&mut self, si: usize, mode: IM, st: &mut Stats) -> Res {
        let tab = self.tab;
        let s = &tab.shapes[si];
        if !s.mutates() || s.parts == 0 {
            return Ok(());
        }
        // Under the known finding such a pass would write to different entities under different layouts.
        if self.trace.is_some() && s.exc_mask.count_ones() >= 2 && kf_partial() {
            return Ok(());
        }
        let mode = if mode == IM::WForEach && !s.plain() { IM::Next } else { mode };
        let plan = self.m.plan(s, None);
        let exp = self.m.expect(s);
        let mut o = (s.iter)(&self.w, mode, &Cx { remap: Some(&plan) });
        o.rows.sort_unstable();
        if self.trace.is_some() {
            let rows = o.rows.clone();
            self.tr_rows(s, &rows, true);
        }
        if self.on(O_MUT) {
            st.eval(self.mut_sig(&format!("{mode:?}"), si, plan.len()));
            st.add("values_written", plan.len() as u64);
            if let Some(d) = diff_rows(s, &exp, &o.rows) {
                return viol("mutable-access", format!("mutable pass ({mode:?}): {d}"));
            }
            if plan.len() > 1 {
                st.sample(10, || format!("[{}] {mode:?} groups {}: wrote {} values", s.name, layouts::show(&self.m.groups), plan.len()));
            }
        }
        self.m.apply(&plan);
        self.read_back(s.types, st)
    }

    /// After a write: the touched types read back everywhere, through the views and the point queries.
    fn read_back(&mut self, types: u16, st: &mut Stats) -> Res {
        if !self.on(O_MUT) {
            return Ok(());
        }
        if let Some(f) = take_faults() {
            return viol("mutable-access", f);
        }
        let _ = types;
        for t in 0..NT {
            if self.m.registered >> t & 1 == 0 {
                continue;
            }
            let mut exp = self.m.owners(t);
            exp.sort_unstable();
            let mut got: Vec<(u64, u32)> = with_type!(t, T => {
                let v = self.w.borrow::<T>();
                v.entities().iter().map(|&e| enc(e)).zip(v.as_slice().iter().map(|x| x.rd())).collect()
            });
            got.sort_unstable();
            if got != exp {
                return viol("write-back", format!("after a write, T{t} holds {:?}, should hold {:?}", heads(&got), heads(&exp)));
            }
            let mut one: Vec<(u64, u32)> = with_type!(t, T => {
                let mut q = self.w.query_one::<&T>();
                exp.iter().map(|&(k, _)| (k, q.get(dec(k)).map_or(0, |x| x.rd()))).collect()
            });
            one.sort_unstable();
            if one != exp {
                return viol("write-back", format!("after a write, query_one::<&T{t}> reads {:?}, should read {:?}", heads(&one), heads(&exp)));
            }
        }
        st.add("read_backs", 1);
        Ok(())
    }

    pub fn mut_point(&mut self, si: usize, e: Entity, mode: OM, st: &mut Stats) -> Res {
        let tab = self.tab;
        let s = &tab.shapes[si];
        if !s.mutates() {
            return Ok(());
        }
        let plan = self.m.plan(s, Some(e));
        let got = (s.one)(&self.w, e, mode, &Cx { remap: Some(&plan) });
        let lax = self.lax_row(s, e);
        let exp = self.m.live.get(&enc(e)).filter(|c| Model::matches(s, c)).map(|c| Model::row(s, enc(e), c));
        if self.trace.is_some() {
            let rows: Vec<Row> = got.into_iter().collect();
            self.tr_rows(s, &rows, false);
        }
        if self.on(O_MUT) {
            st.eval(self.mut_sig("point", si, plan.len()));
            if got != exp && (lax.is_none() || got != lax) {
                return viol("mutable-access", format!("query_one [{}] {mode:?} on {}: wrong item", s.name, show_ent(e)));
            }
        }
        self.m.apply(&plan);
        self.read_back(s.types, st)
    }

    pub fn mut_view(&mut self, t: usize, a: u32, mode: u32, st: &mut Stats) -> Res {
        if t == 2 {
            return Ok(());
        }
        let mut plan: HashMap<u32, u32> = HashMap::default();
        let mut owners = self.m.owners(t);
        owners.sort_unstable_by_key(|p| p.1);
        let e = self.resolve(a, mode);
        match mode % 3 {
            0 => {
                for (_, id) in owners {
                    plan.insert(id, fresh(t));
                }
                let cx = Cx { remap: Some(&plan) };
                with_type!(t, T => {
                    let mut v = self.w.borrow_mut::<T>();
                    for x in v.as_mut_slice() {
                        cx.touch(x);
                    }
                });
            }
            m => {
                let Some(e) = e else { return Ok(()) };
                let have = self.m.live.get(&enc(e)).map_or(0, |c| c[t]);
                if have != 0 {
                    plan.insert(have, fresh(t));
                }
                let cx = Cx { remap: Some(&plan) };
                let hit = with_type!(t, T => {
                    let mut v = self.w.borrow_mut::<T>();
                    if m == 1 {
                        v.get_mut(e).map(|x| cx.touch(x)).is_some()
                    } else if have != 0 || !self.on(O_MUT) {
                        v.contains(e) && {
                            cx.touch(&mut v[e]);
                            true
                        }
                    } else {
                        guard(|| cx.touch(&mut v[e])).is_ok()
                    }
                });
                if self.on(O_MUT) && hit != (have != 0) {
                    return viol("mutable-access", format!("get_mut of T{t} on {} hit {hit}, should be {}", show_ent(e), have != 0));
                }
            }
        }
        if self.on(O_MUT) {
            st.eval(self.mut_sig(["vslice", "vget", "vindex"][mode as usize % 3], t, plan.len()));
            st.add("values_written", plan.len() as u64);
        }
        self.m.apply(&plan);
        self.read_back(1 << t, st)
    }

    pub fn mut_slice(&mut self, si: usize, st: &mut Stats) -> Res {
        let tab = self.tab;
        let s = &tab.shapes[si];
        if !s.mutates() || s.get.iter().any(|p| p.k == PK::OptMut) || !must_be_dense(&self.m.eff, s) {
            return Ok(());
        }
        // Slices exist only under some layouts.
        if self.trace.is_some() && self.tm.relayout != 0 {
            return Ok(());
        }
        let plan = self.m.plan(s, None);
        let Some(cols) = (s.slice)(&self.w, &Cx { remap: Some(&plan) }) else {
            // Availability belongs to other oracles.
            return Ok(());
        };
        if self.on(O_MUT) {
            self.slice_rows(si, &cols, st)?;
            st.eval(self.mut_sig("slice", si, plan.len()));
            st.add("values_written", plan.len() as u64);
        }
        self.m.apply(&plan);
        self.read_back(s.types, st)
    }

    #[cfg(feature = "par")]
    pub fn check_par(&mut self, si: usize, mode: u32, write: bool, st: &mut Stats) -> Res {
        let tab = self.tab;
        let s = &tab.shapes[si];
        if write && (!s.mutates() || s.parts == 0) {
            return Ok(());
        }
        let modes = [
            PM::ForEach,
            PM::QForEach,
            PM::WForEach,
            PM::Collect,
            PM::FoldReduce,
            PM::Indexed(1),
            PM::Indexed(3),
            PM::RevProducer,
            PM::ZipChunks(1),
            PM::ZipChunks(4),
        ];
        let mut mode = modes[mode as usize % modes.len()];
        if mode == PM::WForEach && !s.plain() {
            mode = PM::QForEach;
        }
        let plan = if write { self.m.plan(s, None) } else { HashMap::default() };
        let exp = self.m.expect(s);
        // The sequential pass comes first: it is the reference of the property.
        let seq = (s.iter)(&self.w, IM::Next, &Cx::default());
        let mut p = (s.par)(&self.w, mode, &Cx { remap: write.then_some(&plan) });
        if self.on(O_PAR) {
            let mut h = Hash64::default();
            h.add(si as u64).add(p.dense.into()).add(exp.len().min(64) as u64).add(self.m.sig());
            h.str(&format!("{mode:?}")).add(rayon::current_num_threads() as u64).add(write.into());
            st.eval((!exp.is_empty()).then_some(h.0));
            st.add("par_items", p.rows.len() as u64);
            st.max("largest_parallel_result", p.rows.len() as u64);
            st.add(if p.dense { "par_dense" } else { "par_sparse" }, 1);
            let ctx = || {
                format!("[{}] {mode:?} on {} threads, groups {}", s.name, rayon::current_num_threads(), layouts::show(&self.m.groups))
            };
            if let Some(e) = &p.err {
                return viol("parallel", format!("{}: {e}", ctx()));
            }
            if p.dense != seq.dense {
                return viol("parallel", format!("{}: parallel dense {}, sequential dense {}", ctx(), p.dense, seq.dense));
            }
            if p.opt_len.is_some_and(|l| l != seq.rows.len()) {
                return viol("parallel", format!("{}: opt_len {:?}, sequential items {}", ctx(), p.opt_len, seq.rows.len()));
            }
            if p.ordered && p.rows != seq.rows {
                return viol("parallel", format!("{}: indexed order {:?}, sequential order {:?}", ctx(), head(s, &p.rows), head(s, &seq.rows)));
            }
            let mut sr = seq.rows.clone();
            sr.sort_unstable();
            p.rows.sort_unstable();
            if let Some(d) = diff_rows(s, &sr, &p.rows) {
                return viol("parallel", format!("{}: compared with sequential: {d}", ctx()));
            }
            if let Some(d) = diff_rows(s, &exp, &p.rows) {
                return viol("parallel", format!("{}: compared with the model: {d}", ctx()));
            }
            if exp.len() > 3 {
                st.sample(10, || format!("{} -> {} items{}", ctx(), exp.len(), if write { ", all rewritten" } else { "" }));
            }
        }
        if write {
            self.m.apply(&plan);
            let old = self.ora;
            if self.on(O_PAR) {
                self.ora |= O_MUT;
            }
            let r = self.read_back(s.types, st);
            self.ora = old;
            r?;
        }
        Ok(())
    }

    // ---- audits ---------------------------------------------------------------------------------

    /// Whole-state comparison by every oracle that is switched on.
    pub fn audit(&mut self, st: &mut Stats, salt: u32) -> Res {
        st.add("audits", 1);
        self.tr_state(salt);
        if self.on(O_LIVE) {
            let mut got: Vec<u64> = self.w.entities().iter().map(|&e| enc(e)).collect();
            got.sort_unstable();
            let exp: Vec<u64> = self.m.live.keys().copied().collect();
            let mut e2 = exp.clone();
            e2.sort_unstable();
            if got != e2 {
                let gs: HashSet<u64> = got.iter().copied().collect();
                let es: HashSet<u64> = e2.iter().copied().collect();
                let miss: Vec<String> = es.difference(&gs).take(5).map(|&k| show_key(k)).collect();
                let extra: Vec<String> = gs.difference(&es).take(5).map(|&k| show_key(k)).collect();
                return viol(
                    "liveness",
                    format!("entities() lists {} handles ({} distinct), {} are live; missing {miss:?}, unexpected {extra:?}", got.len(), gs.len(), e2.len()),
                );
            }
            st.eval(Some(self.m.sig()));
            let hs: Vec<Entity> = if self.m.handles.len() <= 400 {
                self.m.handles.clone()
            } else {
                self.m.handles.iter().step_by(self.m.handles.len() / 300).copied().collect()
            };
            for e in hs {
                self.probe_live(e, st)?;
            }
            for k in 0..8 {
                for j in 0..4 {
                    let e = self.resolve(FORGED + k, salt.wrapping_mul(13).wrapping_add(j)).unwrap();
                    self.probe_live(e, st)?;
                }
            }
            st.sample(6, || format!("{} live handles after {} issued, {} pending; all probes agree", self.m.live.len(), self.m.handles.len(), self.m.pending.len()));
        }
        if self.on(O_COMP) {
            for t in 0..NT {
                if self.m.registered >> t & 1 == 0 {
                    continue;
                }
                let bad = with_type!(t, T => {
                    let mut q = self.w.query_one::<&T>();
                    let mut bad = None;
                    for (&k, c) in &self.m.live {
                        let x = q.get(dec(k)).map_or(0, |x| x.rd());
                        if x != c[t] {
                            bad = Some((k, x, c[t]));
                            break;
                        }
                    }
                    bad
                });
                if let Some((k, x, want)) = bad {
                    return viol("component-value", format!("T{t} of {} reads {}, should be {}", show_key(k), sid(x), sid(want)));
                }
                let n = with_type!(t, T => self.w.borrow::<T>().len());
                let want = self.m.live.values().filter(|c| c[t] != 0).count();
                if n != want {
                    return viol("component-value", format!("{n} values of T{t} stored, {want} should be"));
                }
            }
            st.eval(Some(self.m.sig()));
            st.sample(6, || format!("{} live entities over types {:#x}, groups {}: all {} component slots as written", self.m.live.len(), self.pool, layouts::show(&self.m.groups), self.m.live.len() * self.pool.count_ones() as usize));
        }
        if self.on(O_DROP) {
            for (k, c) in &self.m.live {
                for (t, &x) in c.iter().enumerate() {
                    if x != 0 && tracked(t) && !is_alive(x) {
                        return viol("drop-ledger", format!("T{t} value #{x} of {} was dropped while owned", show_key(*k)));
                    }
                }
            }
            st.eval(Some(self.m.sig()));
            st.sample(6, || format!("{} live entities, {} tracked values alive, {} destructor calls so far", self.m.live.len(), tracked_alive(), drops()));
        }
        let mut r = Rng::new(u64::from(salt) ^ 0xa0d1);
        if self.ora & (O_QALL | O_DENSE | O_SLICE | O_ITER) != 0 {
            let n = self.shape_ix.len();
            let big = self.m.live.len() > 2000;
            for i in 0..n {
                if big && !r.chance(1, 12) {
                    continue;
                }
                let si = self.shape_ix[i];
                if self.ora & (O_QALL | O_ITER) != 0 {
                    self.check_query(si, *r.pick(&IMODES), st)?;
                }
                if self.on(O_ITER) {
                    let k = r.below(4);
                    let mode = *r.pick(&[IM::Mixed(k), IM::Nth(k), IM::TakeCollect(k + 1), IM::Last, IM::Mixed(k + 7)]);
                    let o = (self.tab.shapes[si].iter)(&self.w, mode, &Cx::default());
                    self.iter_protocol(si, &o, mode, st)?;
                }
                if self.on(O_DENSE) {
                    self.check_dense(si, st)?;
                }
                if self.on(O_SLICE) {
                    self.check_slice(si, st)?;
                }
            }
        }
        if self.on(O_POINT) {
            for _ in 0..12 {
                let si = self.point_ix[r.below(self.point_ix.len())];
                let a = if r.chance(3, 4) { r.next() as u32 % FORGED } else { FORGED + r.below(8) as u32 };
                if let Some(e) = self.resolve(a, r.next() as u32 >> 8) {
                    self.check_point(si, e, st)?;
                }
            }
            for t in 0..NT {
                if self.m.registered >> t & 1 == 1 {
                    self.check_view(t, r.next() as u32, st)?;
                }
            }
        }
        if self.on(O_MUT) {
            self.read_back(self.pool, st)?;
        }
        #[cfg(feature = "par")]
        if self.on(O_PAR) {
            for _ in 0..4 {
                let si = self.shape_ix[r.below(self.shape_ix.len())];
                self.check_par(si, r.next() as u32 >> 4, false, st)?;
            }
        }
        Ok(())
    }

    /// Drops the world and settles the ledger.
    pub fn finish(mut self, st: &mut Stats) -> Res {
        let w = std::mem::take(&mut self.w);
        let provoked = self.on(O_PANIC) && self.m.handles.len() % 4 != 0;
        if provoked {
            arm((self.m.handles.len() / 4 % 7) as i64);
        }
        let r = guard(move || drop(w));
        disarm();
        match r {
            Ok(()) => {}
            Err(p) if provoked && p.injected => {
                st.add("p_world_drop", 1);
                self.ora &= !O_DROP;
            }
            Err(p) => return viol("unexpected-panic", format!("dropping the world panicked at {}: {}", p.loc, p.msg)),
        }
        self.m.clear();
        if self.on(O_DROP) {
            st.eval(None);
            if self.leak == (0, 0) && (tracked_alive() != 0 || z_alive() != 0) {
                return viol("drop-ledger", format!("{} tracked and {} zero-sized values never dropped", tracked_alive(), z_alive()));
            }
        }
        if let Some(f) = take_faults() {
            if self.on(O_FAULT) {
                return viol("value-fault", f);
            }
        }
        Ok(())
    }
}

pub fn sid(x: u32) -> String {
    match x {
        0 => "nothing".into(),
        ZID => "present".into(),
        BAD => "GARBAGE".into(),
        x => format!("#{x}"),
    }
}
fn head(s: &Shape, r: &[Row]) -> Vec<String> {
    r.iter().take(5).map(|x| show_row(s, x)).collect()
}
fn heads(v: &[(u64, u32)]) -> Vec<String> {
    let mut o: Vec<String> = v.iter().take(6).map(|&(k, i)| format!("{}:{}", show_key(k), sid(i))).collect();
    if v.len() > 6 {
        o.push(format!("... {} in all", v.len()));
    }
    o
}

/// Whether this tree shows the known finding "partial-exclude": with groups (A, B) and (A, B, C, D), the dense
/// query over A and B without C and D also yields an entity that has A, B and C.
pub fn kf_partial() -> bool {
    static KF: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *KF.get_or_init(|| {
        guard(|| {
            let mut w = sparsey::World::builder().add_group::<(u8, u16)>().add_group::<(u8, u16, u32, u64)>().build();
            w.create((1u8, 2u16, 3u32));
            let n = w.query_all::<(&u8, &u16)>().exclude::<(&u32, &u64)>().iter().count();
            n == 1
        })
        .unwrap_or(false)
    })
}
