//! Random histories over 16 component types with sets and queries of every arity, judged by a reference model.

use crate::each_type;
use crate::kit::*;
use crate::table::{sets, shapes, CHAINS};
use sparsey::component::GroupLayout;
use sparsey::entity::Version;
use sparsey::{Entity, World};
use std::num::NonZeroU32;
use vcommon::{guard, mix, Env, Hash64, HashMap, Rng, Stats, Viol};

pub struct Tables {
    sets: Vec<SetOps>,
    shapes: Vec<ShapeOps>,
    types: [TypeOps; NT],
}

pub fn tables() -> Tables {
    Tables { sets: sets(), shapes: shapes(), types: each_type!(type_ops) }
}

fn mask(v: &[usize]) -> u32 {
    v.iter().fold(0, |m, t| m | 1 << t)
}

type Groups = Vec<Vec<usize>>;

fn random_layout(r: &mut Rng) -> Groups {
    let ch = CHAINS[r.below(CHAINS.len())];
    let mut gs: Groups = vec![];
    let cut = match r.below(4) {
        0 => return gs,
        1 => r.range(3, NT - 3),
        _ => NT,
    };
    for (lo, hi) in [(0, cut), (cut, NT)] {
        if hi < lo + 2 || r.chance(1, 8) {
            continue;
        }
        let p = r.range(1, 4);
        for n in 2..=hi - lo {
            if r.chance(p, 4) {
                let mut g = ch[lo..lo + n].to_vec();
                r.shuffle(&mut g);
                gs.push(g);
            }
        }
    }
    r.shuffle(&mut gs);
    gs
}

pub fn show(gs: &Groups) -> String {
    let v: Vec<String> =
        gs.iter().map(|g| format!("({})", g.iter().map(|t| format!("W{t}")).collect::<Vec<_>>().join(","))).collect();
    format!("[{}]", v.join(" "))
}

/// How the operations of a history are carried out.
#[derive(Clone, Copy, PartialEq)]
pub enum Form {
    AsWritten,
    /// One component at a time.
    Split,
    /// Without any groups.
    Ungrouped,
}

struct Sut<'a> {
    t: &'a Tables,
    check: &'a str,
    form: Form,
    w: World,
    live: Vec<Entity>,
    gone: Vec<Entity>,
    m: HashMap<u64, [u32; NT]>,
    groups: Vec<u32>,
    layout: Groups,
    log: Vec<String>,
    trace: Vec<(usize, u64)>,
    step: usize,
}

type R<T = ()> = Result<T, Viol>;

impl Sut<'_> {
    fn report(&self, owner: &[&str], oracle: &'static str, msg: impl FnOnce() -> String) -> R {
        if owner.contains(&self.check) {
            return Err(Viol { oracle, msg: msg() });
        }
        Ok(())
    }
    fn layout_of(gs: &Groups, t: &Tables) -> GroupLayout {
        let mut l = GroupLayout::default();
        for g in gs {
            let d: Vec<_> = g.iter().map(|&k| (t.types[k].data)()).collect();
            l.add_group_dyn(&d);
        }
        l
    }
    fn set_groups(&mut self, gs: &Groups) {
        let mut v: Vec<u32> = gs.iter().map(|g| mask(g)).collect();
        v.sort_unstable();
        v.dedup();
        self.groups = v;
        self.layout = gs.clone();
    }
    fn note(&mut self, s: String) {
        if self.log.len() >= 40 {
            self.log.remove(0);
        }
        self.log.push(s);
    }
    fn put(&mut self, h: u64) {
        self.trace.push((self.step, h));
    }
    fn row_of(&self, s: &ShapeOps, e: u64) -> Option<Row> {
        let c = self.m.get(&e)?;
        if s.req.iter().chain(s.inc).any(|&t| c[t] == ABSENT) || s.exc.iter().any(|&t| c[t] != ABSENT) {
            return None;
        }
        let mut r = Row { e: if s.ent { e } else { 0 }, v: [ABSENT; NT] };
        for &t in s.req {
            r.v[t] = c[t];
        }
        for &t in s.opt {
            r.v[t] = if c[t] == ABSENT { NONE } else { c[t] };
        }
        Some(r)
    }
    fn expected(&self, s: &ShapeOps) -> Vec<Row> {
        let mut v: Vec<Row> = self.live.iter().filter_map(|e| self.row_of(s, key(*e))).collect();
        v.sort_unstable();
        v
    }
    /// Whether the declared groups serve the query densely.
    fn must_be_dense(&self, s: &ShapeOps) -> bool {
        let (req, exc) = (mask(s.req) | mask(s.inc), mask(s.exc));
        if exc == 0 {
            return req.count_ones() == 1 || self.groups.contains(&req);
        }
        let all = req | exc;
        self.groups.contains(&req)
            && self.groups.contains(&all)
            && !self.groups.iter().any(|&g| g != req && g != all && g & req == req && g & all == g)
    }
    fn name(&self, s: &ShapeOps) -> String {
        format!(
            "query of {} parts (required {:?}, optional {:?}, included {:?}, excluded {:?}, mutable {:?}) with groups {}",
            s.parts,
            s.req,
            s.opt,
            s.inc,
            s.exc,
            s.muts,
            show(&self.layout)
        )
    }

    fn fresh_ids(types: &[usize]) -> Vec<u32> {
        types.iter().map(|&t| fresh(t)).collect()
    }
    fn single(&self, t: usize) -> SetOps {
        // The first 16 sets hold one type each.
        self.t.sets[t]
    }

    fn create(&mut self, r: &mut Rng) -> R {
        let s = self.t.sets[r.below(self.t.sets.len())];
        let ids = Self::fresh_ids(s.types);
        self.note(format!("create {:?}", s.types));
        let e = if self.form == Form::Split {
            let e = self.w.create(());
            for (&t, &id) in s.types.iter().zip(&ids) {
                (self.single(t).insert)(&mut self.w, e, &[id]);
            }
            e
        } else {
            (s.create)(&mut self.w, &ids)
        };
        self.born(e, s.types, &ids)
    }
    fn born(&mut self, e: Entity, types: &[usize], ids: &[u32]) -> R {
        let mut c = [ABSENT; NT];
        for (&t, &id) in types.iter().zip(ids) {
            c[t] = id;
        }
        if self.m.insert(key(e), c).is_some() {
            self.report(&["C22", "C03"], "handle-repeated", || format!("creation returned a live handle {e:?}"))?;
        }
        self.live.push(e);
        self.put(key(e));
        Ok(())
    }
    fn extend(&mut self, r: &mut Rng, st: &mut Stats) -> R {
        let s = self.t.sets[r.below(self.t.sets.len())];
        let n = if r.chance(1, 10) { r.range(20, 60) } else { r.range(0, 9) };
        let rows: Vec<Vec<u32>> = (0..n).map(|_| Self::fresh_ids(s.types)).collect();
        self.note(format!("extend {:?} with {n} rows", s.types));
        let es = if self.form == Form::Split {
            rows.iter()
                .map(|ids| {
                    let e = self.w.create(());
                    for (&t, &id) in s.types.iter().zip(ids).rev() {
                        (self.single(t).insert)(&mut self.w, e, &[id]);
                    }
                    e
                })
                .collect()
        } else {
            (s.extend)(&mut self.w, &rows)
        };
        st.add("extend_rows", n as u64);
        if es.len() != n {
            // Without this nothing about the new entities could be judged.
            self.report(&[self.check], "extend-result", || format!("extend of {n} rows returned {} entities", es.len()))?;
        }
        for (e, ids) in es.into_iter().zip(&rows) {
            self.born(e, s.types, ids)?;
        }
        Ok(())
    }
    fn subject(&self, r: &mut Rng) -> Entity {
        if r.chance(1, 12) {
            if let Some(&e) = self.gone.get(r.below(self.gone.len().max(1))) {
                return e;
            }
        }
        if self.live.is_empty() || r.chance(1, 40) {
            return Entity::new(r.below(100) as u32, Version(NonZeroU32::new(r.range(1, 9) as u32 * 7919).unwrap()));
        }
        self.live[r.below(self.live.len())]
    }
    fn insert(&mut self, r: &mut Rng) -> R {
        let s = self.t.sets[r.below(self.t.sets.len())];
        let e = self.subject(r);
        let ids = Self::fresh_ids(s.types);
        self.note(format!("insert {:?} into {}v{}", s.types, e.index, e.version.0));
        let ok = if self.form == Form::Split {
            let mut ok = true;
            for (&t, &id) in s.types.iter().zip(&ids).rev() {
                ok = (self.single(t).insert)(&mut self.w, e, &[id]);
            }
            ok
        } else {
            (s.insert)(&mut self.w, e, &ids)
        };
        let live = self.m.contains_key(&key(e));
        if ok != live {
            self.report(&["C03", "C22"], "insert-result", || format!("insert into {e:?} returned {ok}, live: {live}"))?;
        }
        if let Some(c) = self.m.get_mut(&key(e)) {
            for (&t, &id) in s.types.iter().zip(&ids) {
                c[t] = id;
            }
        }
        self.put(u64::from(ok));
        Ok(())
    }
    fn remove(&mut self, r: &mut Rng, take: bool) -> R {
        let s = self.t.sets[r.below(self.t.sets.len())];
        let e = self.subject(r);
        self.note(format!("{} {:?} of {}v{}", if take { "remove" } else { "delete" }, s.types, e.index, e.version.0));
        let before = self.m.get(&key(e)).copied().unwrap_or_default();
        if take {
            let got = if self.form == Form::Split {
                s.types.iter().map(|&t| (self.single(t).remove)(&mut self.w, e)[0]).collect()
            } else {
                (s.remove)(&mut self.w, e)
            };
            let want: Vec<Option<u32>> =
                s.types.iter().map(|&t| if before[t] == ABSENT { None } else { Some(before[t]) }).collect();
            if got != want {
                self.report(&["C03", "C22"], "remove-result", || {
                    format!("removing {:?} from {e:?} returned {got:?}, expected {want:?}; groups {}", s.types, show(&self.layout))
                })?;
            }
            let mut h = Hash64::default();
            for g in got {
                h.add(u64::from(g.unwrap_or(0)));
            }
            self.put(h.0);
        } else if self.form == Form::Split {
            for &t in s.types.iter().rev() {
                drop((self.single(t).remove)(&mut self.w, e));
            }
        } else {
            (s.delete)(&mut self.w, e);
        }
        if let Some(c) = self.m.get_mut(&key(e)) {
            for &t in s.types {
                c[t] = ABSENT;
            }
        }
        Ok(())
    }
    fn destroy(&mut self, r: &mut Rng) -> R {
        let e = self.subject(r);
        self.note(format!("destroy {}v{}", e.index, e.version.0));
        if self.form == Form::Split && self.m.contains_key(&key(e)) {
            for t in 0..NT {
                (self.single(t).delete)(&mut self.w, e);
            }
        }
        let ok = self.w.destroy(e);
        self.put(u64::from(ok));
        if self.m.remove(&key(e)).is_some() {
            self.live.retain(|x| *x != e);
            if self.gone.len() < 50 {
                self.gone.push(e);
            }
        }
        Ok(())
    }
    fn relayout(&mut self, r: &mut Rng, st: &mut Stats) -> R {
        let gs = random_layout(r);
        self.note(format!("set_layout {}", show(&gs)));
        if self.form != Form::Ungrouped {
            let l = Self::layout_of(&gs, self.t);
            self.w.set_layout(&l);
        }
        self.set_groups(&gs);
        st.add("set_layouts", 1);
        if self.check == "C21" {
            self.audit(st)?;
            self.all_queries(r, st)?;
        }
        Ok(())
    }

    /// Every component of every entity, through views.
    fn audit(&mut self, st: &mut Stats) -> R {
        let mut h = Hash64::default();
        h.add(self.live.len() as u64);
        for (t, o) in self.t.types.iter().enumerate() {
            let mut got = (o.view)(&self.w);
            got.sort_unstable();
            let mut want: Vec<(u64, u32)> =
                self.m.iter().filter(|(_, c)| c[t] != ABSENT).map(|(&e, c)| (e, c[t])).collect();
            want.sort_unstable();
            st.eval((!want.is_empty() && ["C03", "C05", "C21", "C22"].contains(&self.check)).then(|| {
                let mut s = Hash64::default();
                for &g in &self.groups {
                    s.add(u64::from(g));
                }
                s.add(t as u64).add(want.len() as u64);
                s.0
            }));
            st.add("view_rows", want.len() as u64);
            if got != want {
                self.report(&["C03", "C05", "C21", "C22", "C25"], "view", || {
                    format!("view of W{t} holds {} values, expected {}; {}", got.len(), want.len(), diff(&got, &want))
                })?;
            }
            for &(_, c) in &got {
                h.add(u64::from(c));
            }
            for e in &self.live {
                let c = self.m[&key(*e)][t];
                let g = (o.peek)(&self.w, *e).unwrap_or(ABSENT);
                if g != c {
                    self.report(&["C03", "C05", "C21", "C22", "C25"], "lookup", || {
                        format!("W{t} of {e:?} is {g}, expected {c} (0: none); groups {}", show(&self.layout))
                    })?;
                }
            }
        }
        self.put(h.0);
        let want: i64 = self
            .m
            .values()
            .map(|c| (0..NT).filter(|&t| self.t.types[t].tracked && c[t] != ABSENT).count() as i64)
            .sum();
        let got = tracked_alive();
        if self.check == "C09" {
            st.eval((want > 0).then(|| mix(want as u64, mix(self.groups.len() as u64, self.live.len() as u64))));
        }
        if got != want {
            self.report(&["C09", "C21"], "ledger", || format!("{got} values exist, the world should own {want}"))?;
        }
        if ["C09", "C17"].contains(&self.check) {
            for c in self.m.values() {
                for t in 0..NT {
                    if self.t.types[t].tracked && c[t] != ABSENT && !alive(c[t]) {
                        self.report(&["C09"], "dropped-early", || format!("value {} of W{t} was dropped while owned", c[t]))?;
                    }
                }
            }
        }
        Ok(())
    }

    fn all_queries(&mut self, r: &mut Rng, st: &mut Stats) -> R {
        for i in 0..self.t.shapes.len() {
            if cfg!(miri) && r.chance(9, 10) {
                continue;
            }
            self.query(i, r.below(WAYS), st)?;
        }
        Ok(())
    }

    fn sig(&self, i: usize, n: usize, d: bool) -> u64 {
        let mut h = Hash64::default();
        h.add(i as u64).add(n.min(20) as u64).add(u64::from(d));
        for &g in &self.groups {
            h.add(u64::from(g));
        }
        h.0
    }

    fn query(&mut self, i: usize, how: usize, st: &mut Stats) -> R {
        let s = self.t.shapes[i];
        let dense = self.must_be_dense(&s);
        if dense && s.exc.len() >= 2 {
            // Subject to the known finding "partial-exclude".
            return Ok(());
        }
        let dense = dense && self.form != Form::Ungrouped;
        let want = self.expected(&s);
        let sig = (!want.is_empty()).then(|| self.sig(i, want.len(), dense));
        let mut got = (s.rows)(&self.w, how);
        st.add("query_rows", got.len() as u64);
        st.max("largest_result", got.len() as u64);
        got.sort_unstable();
        let mut h = Hash64::default();
        for g in &got {
            h.add(g.e);
            for &x in &g.v {
                h.add(u64::from(x));
            }
        }
        self.put(h.0);
        if ["C04", "C06", "C22", "C21"].contains(&self.check) {
            st.eval(sig);
        }
        if got != want {
            self.report(&["C04", "C21", "C22"], "query-items", || {
                format!("{} yielded {} items, expected {}; {}", self.name(&s), got.len(), want.len(), diff(&got, &want))
            })?;
        }
        let d = (s.dense)(&self.w);
        if self.check == "C07" {
            st.eval(sig);
        }
        if d.is_some() != dense {
            // Serving more densely than promised is fine as long as the items are right.
            if dense {
                self.report(&["C07", "C21"], "not-dense", || format!("{} is not dense", self.name(&s)))?;
            }
        } else if d.is_some_and(|n| n != want.len()) {
            self.report(&["C07"], "dense-length", || {
                format!("{} reports {d:?} items, expected {}", self.name(&s), want.len())
            })?;
        }
        let sl = (s.slices)(&self.w);
        if self.check == "C08" {
            st.eval(sig);
        }
        match sl {
            None => {
                if dense {
                    self.report(&["C07", "C08"], "no-slices", || format!("{} offers no slices", self.name(&s)))?;
                }
            }
            Some(rows) => {
                st.add("slices", 1);
                if !dense && d.is_none() {
                    self.report(&["C08"], "slices-ungrouped", || format!("{} offers slices without a group", self.name(&s)))?;
                }
                match rows {
                    Err(e) => self.report(&["C08"], "slice-lengths", || format!("{}: {e}", self.name(&s)))?,
                    Ok(mut rows) => {
                        rows.sort_unstable();
                        // Optional parts have no slices.
                        let mut want = want.clone();
                        for x in &mut want {
                            for &t in s.opt {
                                x.v[t] = ABSENT;
                            }
                        }
                        want.sort_unstable();
                        if rows != want {
                            self.report(&["C08"], "slice-rows", || {
                                format!("{}: slices hold {} rows, expected {}; {}", self.name(&s), rows.len(), want.len(), diff(&rows, &want))
                            })?;
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn points(&mut self, r: &mut Rng, st: &mut Stats) -> R {
        let e = self.subject(r);
        for i in 0..self.t.shapes.len() {
            if r.chance(2, 3) || (cfg!(miri) && r.chance(9, 10)) {
                continue;
            }
            let s = self.t.shapes[i];
            let want = self.row_of(&s, key(e));
            if self.check == "C05" {
                st.eval(Some(mix(
                    i as u64,
                    mix(u64::from(want.is_some()), self.m.get(&key(e)).map_or(99, |c| (0..NT).fold(0, |m, t| m | u64::from(c[t] != ABSENT) << t))),
                )));
            }
            let (has, got) = if r.chance(1, 2) { (s.point)(&self.w, e) } else { (s.point_map)(&self.w, e) };
            st.add("point_queries", 1);
            let mut h = Hash64::default();
            h.add(u64::from(has)).add(got.map_or(0, |g| g.v.iter().fold(1, |a, &x| mix(a, u64::from(x)))));
            self.put(h.0);
            if has != want.is_some() || got != want {
                self.report(&["C05", "C21", "C22"], "point-query", || {
                    format!("query_one: {} of {e:?}: contains {has}, got {got:?}, expected {want:?}", self.name(&s))
                })?;
            }
        }
        Ok(())
    }

    /// Rewrites every addressed component to a new value and follows it in the model.
    fn rewrite(&mut self, r: &mut Rng, st: &mut Stats) -> R {
        let i = r.below(self.t.shapes.len());
        let s = self.t.shapes[i];
        if s.muts.is_empty() || (s.exc.len() >= 2 && self.must_be_dense(&s)) {
            return Ok(());
        }
        self.note(format!("rewrite through shape {i}"));
        let one = r.chance(1, 3);
        let e = self.subject(r);
        let hit: Vec<u64> = self
            .live
            .iter()
            .map(|e| key(*e))
            .filter(|&k| (!one || k == key(e)) && self.row_of(&s, k).is_some())
            .collect();
        // Ids are unique, except that of the zero-sized type.
        let mut plan: HashMap<(usize, u32), (u32, u32)> = HashMap::default();
        for k in &hit {
            let c = self.m.get_mut(k).unwrap();
            for &t in s.muts {
                if c[t] != ABSENT && t != ZST {
                    let n = fresh(t);
                    plan.insert((t, c[t]), (n, 0));
                    c[t] = n;
                }
            }
        }
        let mut unplanned = None;
        let mut f = |t: usize, old: u32| {
            if t == ZST {
                return ZID;
            }
            match plan.get_mut(&(t, old)) {
                Some(x) if x.1 == 0 => {
                    x.1 = 1;
                    x.0
                }
                x => {
                    unplanned = Some((t, old, x.is_some()));
                    fresh(t)
                }
            }
        };
        if one {
            (s.rewrite_one)(&self.w, e, &mut f);
        } else {
            (s.rewrite)(&self.w, &mut f, r.below(2));
        }
        let planned = plan.len();
        if let Some((t, old, again)) = unplanned {
            self.report(&["C25"], "rewritten-others", || {
                format!("{}: value {old} of W{t} was handed out {}", self.name(&s), if again { "twice" } else { "without matching" })
            })?;
        }
        if let Some(((t, old), _)) = plan.iter().find(|x| x.1 .1 == 0) {
            self.report(&["C25"], "not-rewritten", || format!("{}: value {old} of W{t} was not handed out", self.name(&s)))?;
        }
        st.add("rewrites", planned as u64);
        if self.check == "C25" {
            st.eval((planned > 0).then(|| self.sig(i, hit.len(), one)));
            self.audit(st)?;
        }
        Ok(())
    }

    fn faults(&self, st: &mut Stats) -> R {
        st.add("fault_polls", 1);
        if let Some(f) = take_faults() {
            self.report(&["C09", "C10", "C03"], "faulty-value", || f)?;
        }
        Ok(())
    }
}

fn diff<T: PartialEq + std::fmt::Debug>(got: &[T], want: &[T]) -> String {
    let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(2).collect();
    let missing: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(2).collect();
    format!("unexpected {extra:?}, missing {missing:?}")
}

pub struct Outcome {
    pub trace: Vec<(usize, u64)>,
    pub log: Vec<String>,
    pub result: Result<(), Viol>,
}

/// One history. The operations depend on the seed alone.
pub fn history(t: &Tables, check: &str, seed: u64, form: Form, steps: usize, st: &mut Stats) -> Outcome {
    ledger_reset();
    let mut r = Rng::new(seed);
    let gs = random_layout(&mut r);
    let l = if form == Form::Ungrouped { GroupLayout::default() } else { Sut::layout_of(&gs, t) };
    let mut b = World::builder();
    b.set_layout(l);
    for o in &t.types {
        b.register_dyn((o.data)());
    }
    let mut s = Sut {
        t,
        check,
        form,
        w: b.build(),
        live: vec![],
        gone: vec![],
        m: HashMap::default(),
        groups: vec![],
        layout: vec![],
        log: vec![],
        trace: vec![],
        step: 0,
    };
    s.set_groups(&gs);
    let cap = if r.chance(1, 4) { 200 } else { r.range(4, 30) };
    let q = r.range(1, 6);
    let mut result = Ok(());
    let p = guard(|| {
        for step in 0..steps {
            s.step = step;
            let full = s.live.len() >= cap;
            // The generator of a step is independent of what happened before.
            let mut r = Rng::new(mix(seed, step as u64 + 77));
            let op = r.weighted(&[if full { 2 } else { 12 }, if full { 0 } else { 4 }, 20, 8, 8, if full { 12 } else { 4 }, 2, 5]);
            match op {
                0 => s.create(&mut r)?,
                1 => s.extend(&mut r, st)?,
                2 => s.insert(&mut r)?,
                3 => s.remove(&mut r, true)?,
                4 => s.remove(&mut r, false)?,
                5 => s.destroy(&mut r)?,
                6 => match r.below(12) {
                    0 => {
                        s.note("clear".into());
                        s.w.clear();
                        s.gone.clear();
                        s.live.clear();
                        s.m.clear();
                    }
                    1 => {
                        s.note("reset".into());
                        s.w.reset();
                        s.gone.clear();
                        s.live.clear();
                        s.m.clear();
                    }
                    _ => s.relayout(&mut r, st)?,
                },
                _ => s.rewrite(&mut r, st)?,
            }
            st.add("ops", 1);
            s.faults(st)?;
            if check == "C10" {
                st.eval(Some(mix(op as u64, mix(s.live.len() as u64, s.groups.iter().fold(0, |a, &g| mix(a, u64::from(g)))))));
            }
            if (matches!(check, "C03" | "C09" | "C10") && !cfg!(miri)) || step % 8 == 7 {
                s.audit(st)?;
            }
            if check == "C05" || step % 16 == 3 {
                s.points(&mut r, st)?;
            }
            if !matches!(check, "C03" | "C05" | "C09") && step % (q * 3) == 0 {
                for _ in 0..if cfg!(miri) { 3 } else { 12 } {
                    let i = r.below(t.shapes.len());
                    s.query(i, r.below(WAYS), st)?;
                }
            }
            s.faults(st)?;
        }
        s.step = steps;
        s.audit(st)?;
        let mut r = Rng::new(mix(seed, 5));
        s.all_queries(&mut r, st)?;
        s.points(&mut r, st)?;
        s.faults(st)
    });
    match p {
        Ok(x) => result = x.and(result),
        Err(p) if p.in_harness() => {
            eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
            std::process::exit(3);
        }
        Err(p) => {
            result = Err(Viol { oracle: "unexpected-panic", msg: format!("the library panicked at {}: {}", p.loc, p.msg) })
        }
    }
    let Sut { w, log, trace, .. } = s;
    if let Err(p) = guard(|| drop(w)) {
        result = result.and(Err(Viol { oracle: "unexpected-panic", msg: format!("dropping the world panicked: {}", p.msg) }));
    }
    if result.is_ok() && check == "C09" {
        if tracked_alive() != 0 {
            result = Err(Viol { oracle: "ledger", msg: format!("{} values outlive their world", tracked_alive()) });
        } else if let Some(f) = take_faults() {
            result = Err(Viol { oracle: "faulty-value", msg: f });
        }
    }
    Outcome { trace, log, result }
}

pub struct Found {
    pub v: Viol,
    pub case: String,
    pub replay: String,
}

pub fn run(env: &Env, check: &str, st: &mut Stats) -> Result<(), Found> {
    let t = tables();
    let steps = if cfg!(miri) { 40 } else { 60 };
    let n = env.cases(if cfg!(miri) { 1000 } else { 1_000_000 });
    for case in 0..n {
        if env.out_of_time() {
            break;
        }
        let seed = mix(mix(env.seed, 0x71de), case * env.shards + env.shard);
        env.note_case(&format!("seed {seed:#x}"));
        let other = match check {
            "C06" => Some((Form::Ungrouped, "groups changed a result")),
            "C22" => Some((Form::Split, "elementary operations gave another result")),
            _ => None,
        };
        let a = history(&t, check, seed, Form::AsWritten, steps, st);
        st.add("histories", 1);
        let fail = |v: Viol, log: &[String]| {
            let text = log.join("\n");
            Err(Found { v, case: format!("wide history, seed {seed:#x}"), replay: format!("seed {seed:#x}; last operations:\n{text}") })
        };
        if let Err(v) = a.result {
            return fail(v, &a.log);
        }
        if let Some((form, what)) = other {
            let b = history(&t, check, seed, form, steps, st);
            if let Err(v) = b.result {
                return fail(v, &b.log);
            }
            if form == Form::Split || a.trace.len() == b.trace.len() {
                for (x, y) in a.trace.iter().zip(&b.trace) {
                    if x != y {
                        let v = Viol { oracle: "trace", msg: format!("{what} at step {} of {steps}", x.0) };
                        return fail(v, &a.log);
                    }
                }
            }
            if a.trace.len() != b.trace.len() {
                let v = Viol { oracle: "trace", msg: format!("{what}: {} against {} recorded results", a.trace.len(), b.trace.len()) };
                return fail(v, &a.log);
            }
            st.add("pairs", 1);
        }
        st.sample(3, || format!("seed {seed:#x}: {} results recorded, last operations: {}", a.trace.len(), a.log[a.log.len().saturating_sub(3)..].join("; ")));
    }
    Ok(())
}
