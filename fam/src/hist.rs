//! Random histories in worlds with many groups, judged by a reference model.

use crate::kit::*;
use sparsey::component::GroupLayout;
use sparsey::{Entity, World};
use vcommon::{guard, mix, Env, HashMap, Rng, Stats, Viol};

pub struct Found {
    pub v: Viol,
    pub case: String,
    pub replay: String,
}
pub type R<T = ()> = Result<T, Viol>;

/// Groups declared, per family, as sets of types of the family.
pub type Groups = Vec<(usize, Vec<usize>)>;

/// The ways a family can be grouped.
pub const KINDS: &[&[&[usize]]] = &[
    &[],
    &[&[0, 1]],
    &[&[0, 1, 2]],
    &[&[0, 1, 2, 3]],
    &[&[0, 1], &[0, 1, 2]],
    &[&[0, 1], &[0, 1, 2, 3]],
    &[&[0, 1, 2], &[0, 1, 2, 3]],
    &[&[0, 1], &[0, 1, 2], &[0, 1, 2, 3]],
    &[&[2, 3]],
    &[&[0, 1], &[2, 3]],
    &[&[0, 3]],
];

/// Mostly close to the limit of 64 groups.
fn random_groups(r: &mut Rng) -> Groups {
    let mut fs: Vec<usize> = (0..NF).collect();
    r.shuffle(&mut fs);
    let limit = match r.below(5) {
        0 => r.range(0, 33),
        1 => r.range(30, 64),
        _ => 64,
    };
    let mut gs: Groups = vec![];
    for f in fs {
        let k = if limit > 40 { *r.pick(&[4, 5, 6, 7, 7, 7, 7, 7, 7, 7, 9, 1]) } else { r.below(KINDS.len()) };
        for g in KINDS[k] {
            if gs.len() < limit {
                gs.push((f, g.to_vec()));
            }
        }
    }
    match r.below(3) {
        0 => {}
        1 => gs.reverse(),
        _ => r.shuffle(&mut gs),
    }
    gs
}

pub fn layout_of(gs: &Groups) -> GroupLayout {
    let mut l = GroupLayout::default();
    for (f, g) in gs {
        let d: Vec<_> = g.iter().map(|&k| (FAMS[*f].data[k])()).collect();
        l.add_group_dyn(&d);
    }
    l
}

fn mask(v: &[usize]) -> u8 {
    v.iter().fold(0, |m, &t| m | 1 << t)
}

#[derive(Clone, Copy)]
pub enum Op {
    Insert(Entity, usize, usize),
    Remove(Entity, usize, usize),
    Delete(Entity, usize, usize),
    Extend(usize, usize, usize),
    Destroy(Entity),
    Create(usize, usize),
    Rewrite(usize, usize),
}

pub struct S<'a> {
    pub check: &'a str,
    pub w: World,
    /// The same history without groups (C06).
    pub twin: Option<World>,
    pub live: Vec<Entity>,
    pub gone: Vec<Entity>,
    /// Components by entity and family.
    pub m: HashMap<(u64, usize), Ids>,
    pub groups: Vec<Vec<u8>>,
    pub count: usize,
    pub log: Vec<String>,
}

impl S<'_> {
    fn report(&self, owner: &[&str], oracle: &'static str, msg: impl FnOnce() -> String) -> R {
        if owner.contains(&self.check) {
            return Err(Viol { oracle, msg: msg() });
        }
        Ok(())
    }
    fn note(&mut self, s: String) {
        if self.log.len() >= 40 {
            self.log.remove(0);
        }
        self.log.push(s);
    }
    pub fn set_groups(&mut self, gs: &Groups) {
        self.groups = vec![vec![]; NF];
        for (f, g) in gs {
            self.groups[*f].push(mask(g));
        }
        self.count = gs.len();
    }
    fn at(&self, f: usize) -> String {
        format!("family {f} grouped {:?}, {} groups in the world", self.groups[f].iter().map(|m| format!("{m:04b}")).collect::<Vec<_>>(), self.count)
    }
    fn comps(&self, e: Entity, f: usize) -> Ids {
        self.m.get(&(key(e), f)).copied().unwrap_or_default()
    }
    fn must_be_dense(&self, f: usize, q: &Q) -> bool {
        let g = &self.groups[f];
        let (req, exc) = (mask(q.req) | mask(q.inc), mask(q.exc));
        if exc == 0 {
            return req.count_ones() == 1 || g.contains(&req);
        }
        let all = req | exc;
        g.contains(&req) && g.contains(&all) && !g.iter().any(|&x| x != req && x != all && x & req == req && x & all == x)
    }
    fn expected(&self, f: usize, q: &Q) -> Vec<Row> {
        let mut v = vec![];
        for &e in &self.live {
            let c = self.comps(e, f);
            if q.req.iter().chain(q.inc).any(|&k| c[k] == 0) || q.exc.iter().any(|&k| c[k] != 0) {
                continue;
            }
            let mut row = Row { e: key(e), v: [0; NK] };
            for &k in q.req {
                row.v[k] = c[k];
            }
            v.push(row);
        }
        v.sort_unstable();
        v
    }

    fn ids() -> Ids {
        [fresh(), fresh(), fresh(), fresh()]
    }
    fn put(&mut self, e: Entity, f: usize, s: usize, ids: &Ids) {
        let c = self.m.entry((key(e), f)).or_default();
        for &k in SETS[s] {
            c[k] = ids[k];
        }
    }
    fn born(&mut self, e: Entity, f: usize, s: usize, ids: &Ids) {
        self.live.push(e);
        self.put(e, f, s, ids);
    }

    /// A random operation.
    fn step(&mut self, r: &mut Rng, fs: &[usize], st: &mut Stats) -> R {
        let f = *r.pick(fs);
        let s = r.below(SETS.len());
        let subject = |me: &Self, r: &mut Rng| {
            if me.live.is_empty() || (!me.gone.is_empty() && r.chance(1, 15)) {
                me.gone.get(r.below(me.gone.len().max(1))).copied()
            } else {
                Some(*r.pick(&me.live))
            }
        };
        let op = if self.live.len() < 4 { 6 } else { r.weighted(&[30, 12, 8, 8, 3, 4, 8, 3]) };
        let op = match op {
            0..=3 | 5 => {
                let Some(e) = subject(self, r) else { return Ok(()) };
                match op {
                    // Whole sets are inserted more often, so that groups are complete.
                    0 | 1 => Op::Insert(e, f, if r.chance(1, 3) { SETS.len() - 1 } else { s }),
                    2 => Op::Remove(e, f, s),
                    3 => Op::Delete(e, f, s),
                    _ => Op::Destroy(e),
                }
            }
            4 => Op::Extend(f, s, r.range(0, 6)),
            6 => Op::Create(f, if r.chance(1, 2) { SETS.len() - 1 } else { s }),
            _ => Op::Rewrite(f, *r.pick(&[2, 5, 6])),
        };
        self.apply(op, st)
    }

    pub fn apply(&mut self, op: Op, st: &mut Stats) -> R {
        st.add("operations", 1);
        // Values given to the twin are others, with ids of their own; only what belongs together is compared.
        match op {
            Op::Insert(e, f, s) => {
                self.note(format!("insert {:?} of family {f} into {e:?}", SETS[s]));
                let ids = Self::ids();
                let ok = (FAMS[f].insert)(&mut self.w, e, s, &ids);
                let live = self.live.contains(&e);
                if ok != live {
                    self.report(&["C03"], "insert-result", || format!("insert into {e:?} returned {ok}"))?;
                }
                if live {
                    self.put(e, f, s, &ids);
                }
                if let Some(t) = &mut self.twin {
                    (FAMS[f].insert)(t, e, s, &Self::ids());
                }
            }
            Op::Remove(e, f, s) => {
                self.note(format!("remove {:?} of family {f} from {e:?}", SETS[s]));
                let got = (FAMS[f].remove)(&mut self.w, e, s);
                let mut want = [0; NK];
                if let Some(c) = self.m.get_mut(&(key(e), f)) {
                    for &k in SETS[s] {
                        want[k] = std::mem::take(&mut c[k]);
                    }
                }
                if got != want {
                    self.report(&["C03"], "remove-result", || format!("removing {:?} from {e:?} gave {got:?}, expected {want:?}; {}", SETS[s], self.at(f)))?;
                }
                if let Some(t) = &mut self.twin {
                    (FAMS[f].remove)(t, e, s);
                }
            }
            Op::Delete(e, f, s) => {
                self.note(format!("delete {:?} of family {f} from {e:?}", SETS[s]));
                (FAMS[f].delete)(&mut self.w, e, s);
                if let Some(c) = self.m.get_mut(&(key(e), f)) {
                    for &k in SETS[s] {
                        c[k] = 0;
                    }
                }
                if let Some(t) = &mut self.twin {
                    (FAMS[f].delete)(t, e, s);
                }
            }
            Op::Extend(f, s, n) => {
                self.note(format!("extend {n} with {:?} of family {f}", SETS[s]));
                let rows: Vec<Ids> = (0..n).map(|_| Self::ids()).collect();
                let es = (FAMS[f].extend)(&mut self.w, s, &rows);
                if es.len() != n {
                    self.report(&[self.check], "extend-result", || format!("extend of {n} rows gave {} entities", es.len()))?;
                }
                for (e, ids) in es.into_iter().zip(&rows) {
                    self.born(e, f, s, ids);
                }
                if let Some(t) = &mut self.twin {
                    let rows: Vec<Ids> = (0..n).map(|_| Self::ids()).collect();
                    (FAMS[f].extend)(t, s, &rows);
                }
            }
            Op::Destroy(e) => {
                self.note(format!("destroy {e:?}"));
                let ok = self.w.destroy(e);
                let live = self.live.contains(&e);
                if ok != live {
                    self.report(&["C02"], "destroy-result", || format!("destroying {e:?} returned {ok}"))?;
                }
                if live {
                    self.live.retain(|x| *x != e);
                    self.m.retain(|k, _| k.0 != key(e));
                    if self.gone.len() < 30 {
                        self.gone.push(e);
                    }
                }
                if let Some(t) = &mut self.twin {
                    t.destroy(e);
                }
            }
            Op::Create(f, s) => {
                self.note(format!("create with {:?} of family {f}", SETS[s]));
                let ids = Self::ids();
                let e = (FAMS[f].create)(&mut self.w, s, &ids);
                self.born(e, f, s, &ids);
                if let Some(t) = &mut self.twin {
                    (FAMS[f].create)(t, s, &Self::ids());
                }
            }
            Op::Rewrite(f, q) => {
                if self.twin.is_some() {
                    return Ok(());
                }
                self.note(format!("rewrite family {f} through query {q}"));
                let mut want: Vec<u64> = self.expected(f, &QUERIES[q]).iter().map(|r| r.e).collect();
                let new = (FAMS[f].rewrite)(&self.w, q);
                let mut got: Vec<u64> = new.iter().map(|r| r.0).collect();
                got.sort_unstable();
                want.sort_unstable();
                if got != want {
                    self.report(&["C25"], "mutable-items", || format!("mutable query {q} handed out {got:x?}, expected {want:x?}; {}", self.at(f)))?;
                }
                for (e, ids) in new {
                    let c = self.m.entry((e, f)).or_default();
                    for k in 0..NK {
                        if ids[k] != 0 {
                            c[k] = ids[k];
                        }
                    }
                }
                st.add("rewrites", 1);
            }
        }
        if self.check == "C09" {
            self.ledger()?;
        }
        Ok(())
    }

    pub fn ledger(&self) -> R {
        let want: usize = self.m.values().map(|c| c.iter().filter(|&&x| x != 0).count()).sum();
        if let Some(x) = fault() {
            return Err(Viol { oracle: "drop-ledger", msg: x });
        }
        if alive() != want && self.twin.is_none() {
            return Err(Viol { oracle: "drop-ledger", msg: format!("{} values are alive, the world owns {want}", alive()) });
        }
        Ok(())
    }

    /// All queries of one family.
    pub fn queries(&self, f: usize, after_layout: bool, st: &mut Stats) -> R {
        for (qi, q) in QUERIES.iter().enumerate() {
            let want = self.expected(f, q);
            let mut g = (FAMS[f].query)(&self.w, qi);
            let (dense, at) = (self.must_be_dense(f, q), || self.at(f));
            let name = || format!("query {:?} include {:?} exclude {:?}", q.req, q.inc, q.exc);
            g.rows.sort_unstable();
            g.folded.sort_unstable();
            st.add("queries", 1);
            let sig = mix(mix(want.len() as u64, (qi * 2 + usize::from(g.dense)) as u64), mix(self.groups[f].iter().fold(0, |a, &x| a * 16 + u64::from(x)), self.count as u64));
            st.eval(Some(mix(sig, f as u64)));
            let c21: &[&str] = if after_layout { &["C21"] } else { &[] };
            let own = |o: &[&'static str]| -> Vec<&str> { o.iter().chain(c21).copied().collect() };
            if g.rows != want || g.folded != want {
                self.report(&own(&["C04"]), "query-items", || {
                    format!("{} gave {:x?} (by fold {:x?}), expected {want:x?}; {}", name(), g.rows, g.folded, at())
                })?;
            }
            if dense && !g.dense {
                self.report(&own(&["C07"]), "not-dense", || format!("{} is not dense; {}", name(), at()))?;
            }
            if dense && (g.len != Some(want.len())) {
                self.report(&["C07"], "dense-length", || format!("{} reports {:?} items, expected {}; {}", name(), g.len, want.len(), at()))?;
            }
            if dense && g.slices.is_none() {
                self.report(&["C07", "C08"], "no-slice", || format!("{} offers no slices; {}", name(), at()))?;
            }
            if let Some(s) = &mut g.slices {
                s.sort_unstable();
                if g.slice_lens.iter().any(|&l| l != want.len()) || *s != want {
                    let l = &g.slice_lens;
                    self.report(&own(&["C08"]), "slice-rows", || format!("slices of {} (lengths {l:?}) show {s:x?}, expected {want:x?}; {}", name(), at()))?;
                }
            }
            if let Some(t) = &self.twin {
                let mut a: Vec<u64> = g.rows.iter().map(|r| r.e).collect();
                let mut b: Vec<u64> = (FAMS[f].query)(t, qi).rows.iter().map(|r| r.e).collect();
                a.sort_unstable();
                b.sort_unstable();
                if a != b {
                    self.report(&["C06"], "layout-changes-result", || format!("{} gives {a:x?}, without groups {b:x?}; {}", name(), at()))?;
                }
            }
        }
        Ok(())
    }

    /// Every component of one family through views and point queries.
    pub fn components(&self, f: usize, after_layout: bool, st: &mut Stats) -> R {
        let own: &[&str] = if after_layout { &["C03", "C05", "C21"] } else { &["C03", "C05"] };
        for &e in self.live.iter().chain(&self.gone) {
            let want = self.comps(e, f);
            let (a, b) = ((FAMS[f].views)(&self.w, e), (FAMS[f].point)(&self.w, e));
            if a != want || b != want {
                self.report(own, "lookup", || format!("{e:?} has {a:?} in views, {b:?} by query_one, expected {want:?}; {}", self.at(f)))?;
            }
            st.add("lookups", 2);
        }
        let whole = (FAMS[f].whole)(&self.w);
        for (k, mut col) in whole.into_iter().enumerate() {
            col.sort_unstable();
            let mut want: Vec<(u64, u32)> = self.live.iter().map(|&e| (key(e), self.comps(e, f)[k])).filter(|x| x.1 != 0).collect();
            want.sort_unstable();
            if col != want {
                self.report(own, "view-content", || format!("the view of type {k} shows {col:x?}, expected {want:x?}; {}", self.at(f)))?;
            }
        }
        if self.check != "C06" {
            st.eval(Some(mix(f as u64, mix(self.count as u64, self.groups[f].len() as u64))));
        }
        Ok(())
    }
}

fn one(r: &mut Rng, check: &str, st: &mut Stats) -> (R, Vec<String>) {
    ledger_reset();
    let gs = random_groups(r);
    let mut w = World::new(&layout_of(&gs));
    let mut twin = (check == "C06").then(World::default);
    for w in std::iter::once(&mut w).chain(&mut twin) {
        for d in FAMS.iter().flat_map(|f| f.data) {
            w.register_dyn(d());
        }
    }
    let mut s = S { check, w, twin, live: vec![], gone: vec![], m: HashMap::default(), groups: vec![], count: 0, log: vec![] };
    s.set_groups(&gs);
    st.max("most_groups", gs.len() as u64);
    st.add("worlds", 1);
    let x = history(&mut s, r, st);
    let S { w, twin, log, .. } = s;
    let x = x.and_then(|()| {
        drop(w);
        drop(twin);
        let (n, bad) = (alive(), fault());
        if check == "C09" && (n != 0 || bad.is_some()) {
            return Err(Viol { oracle: "drop-ledger", msg: format!("{n} values outlive the world; {bad:?}") });
        }
        Ok(())
    });
    (x, log)
}

fn history(s: &mut S, r: &mut Rng, st: &mut Stats) -> R {
    // Some families see most operations; which ones have the last groups is random.
    let mut fs: Vec<usize> = (0..NF).collect();
    r.shuffle(&mut fs);
    fs.truncate(r.range(1, 6));
    let steps = r.range(20, 160);
    for _ in 0..steps {
        s.step(r, &fs, st)?;
        if r.chance(1, 6) {
            let f = *r.pick(&fs);
            s.queries(f, false, st)?;
            s.components(f, false, st)?;
        }
        if r.chance(1, if s.check == "C21" { 25 } else { 60 }) {
            let gs = random_groups(r);
            s.note(format!("set_layout of {} groups", gs.len()));
            s.w.set_layout(&layout_of(&gs));
            s.set_groups(&gs);
            st.max("most_groups", gs.len() as u64);
            st.add("set_layouts", 1);
            for &f in &fs {
                s.queries(f, true, st)?;
                s.components(f, true, st)?;
            }
        }
        if r.chance(1, 150) {
            s.note("clear".into());
            for w in std::iter::once(&mut s.w).chain(&mut s.twin) {
                w.clear();
            }
            s.live.clear();
            s.m.clear();
        }
    }
    for f in 0..NF {
        s.queries(f, false, st)?;
        s.components(f, false, st)?;
    }
    Ok(())
}

pub fn run(env: &Env, check: &str, st: &mut Stats) -> Result<(), Found> {
    for case in 0..env.cases(1_000_000) {
        if env.out_of_time() {
            break;
        }
        let seed = mix(mix(env.seed, 0xfa41), case * env.shards + env.shard);
        // At a small scale (under an interpreter) the odd types come first: their worlds are smaller.
        if case % 4 == 1 || env.scale < 100 && case % 8 != 7 {
            crate::odd::case(seed, env, check, st)?;
            continue;
        }
        env.note_case(&format!("seed {seed:#x}"));
        let mut r = Rng::new(seed);
        let (res, log) = match guard(|| one(&mut r, check, st)) {
            Ok(x) => x,
            Err(p) if p.in_harness() => {
                eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
                std::process::exit(3);
            }
            Err(p) => (Err(Viol { oracle: "unexpected-panic", msg: format!("the library panicked at {}: {}", p.loc, p.msg) }), vec![]),
        };
        if let Err(v) = res {
            return Err(Found { v, case: format!("many groups, seed {seed:#x}"), replay: format!("fam {check}, seed {seed:#x}; last operations:\n{}", log.join("\n")) });
        }
    }
    Ok(())
}
