//! C15: which group layouts are accepted, and that every accepted group takes effect.

use crate::c15_probes as probes;
use crate::kit::*;
use sparsey::component::{ComponentData, GroupLayout};
use sparsey::query::Query;
use sparsey::{Entity, World};
use std::collections::BTreeMap;
use vcommon::{mix, Env, Hash64, Rng, Stats};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct G<const N: usize>(pub u32);

pub struct ProbeOut {
    dense: bool,
    slices: bool,
    count: usize,
    dense_len: Option<usize>,
}

pub struct Probe {
    inc: u128,
    exc: u128,
    run: fn(&World) -> ProbeOut,
}

fn mask(v: &[usize]) -> u128 {
    v.iter().fold(0, |m, &i| m | 1 << (i % 128))
}

pub fn p<Q: Query, X: Query>(inc: &[usize], exc: &[usize]) -> Probe {
    Probe {
        inc: mask(inc),
        exc: mask(exc),
        run: |w| {
            let mut q = w.query_all::<Q>().exclude::<X>();
            let slices = q.slice().is_some();
            let it = q.iter();
            let dense = it.is_dense();
            let dense_len = if let sparsey::query::Iter::Dense(d) = &it { Some(d.len()) } else { None };
            ProbeOut { dense, slices, count: it.count(), dense_len }
        },
    }
}

/// Dynamic access to one component type.
#[derive(Clone, Copy)]
pub struct Comp {
    pub data: ComponentData,
    insert: fn(&mut World, Entity, u32) -> bool,
    remove: fn(&mut World, Entity) -> Option<u32>,
    get: fn(&World, Entity) -> Option<u32>,
    len: fn(&World) -> usize,
    registered: fn(&World) -> bool,
}

pub trait Val: Send + Sync + 'static {
    fn mk(v: u32) -> Self;
    fn val(&self) -> u32;
}

impl<const N: usize> Val for G<N> {
    fn mk(v: u32) -> Self {
        Self(v)
    }
    fn val(&self) -> u32 {
        self.0
    }
}

pub fn comp<const N: usize>() -> Comp {
    comp_of::<G<N>>()
}

fn comp_of<T: Val>() -> Comp {
    Comp {
        data: ComponentData::new::<T>(),
        insert: |w, e, v| w.insert(e, (T::mk(v),)),
        remove: |w, e| w.remove::<(T,)>(e).0.map(|g| g.val()),
        get: |w, e| w.borrow::<T>().get(e).map(Val::val),
        len: |w| w.borrow::<T>().len(),
        registered: |w| w.is_registered::<T>(),
    }
}

/// Distinct types with one and the same name.
fn namesakes() -> (Vec<Comp>, Vec<Probe>) {
    macro_rules! namesake {
        ($T:ident, $pad:ty) => {
            struct Namesake(u32, #[allow(dead_code)] $pad);
            type $T = Namesake;
            impl Val for Namesake {
                fn mk(v: u32) -> Self {
                    Self(v, Default::default())
                }
                fn val(&self) -> u32 {
                    self.0
                }
            }
        };
    }
    namesake!(A, ());
    {
        namesake!(B, [u8; 2]);
        {
            namesake!(C, [u64; 3]);
            {
                namesake!(D, ());
                (
                    vec![comp_of::<A>(), comp_of::<B>(), comp_of::<C>(), comp_of::<D>()],
                    vec![
                        p::<&A, ()>(&[0], &[]),
                        p::<&B, ()>(&[1], &[]),
                        p::<&C, ()>(&[2], &[]),
                        p::<&D, ()>(&[3], &[]),
                        p::<(&A, &B), ()>(&[0, 1], &[]),
                        p::<(&C, &A), ()>(&[0, 2], &[]),
                        p::<(&B, &mut C), ()>(&[1, 2], &[]),
                        p::<(&D, &C), ()>(&[2, 3], &[]),
                        p::<(&A, &D), &C>(&[0, 3], &[2]),
                        p::<(&A, &B), &C>(&[0, 1], &[2]),
                        p::<(&A, &B, &mut C), ()>(&[0, 1, 2], &[]),
                        p::<(&C, &B, &D), ()>(&[1, 2, 3], &[]),
                        p::<(&D, &C, &B, &A), ()>(&[0, 1, 2, 3], &[]),
                    ],
                )
            }
        }
    }
}

pub type Groups = Vec<Vec<usize>>;

/// Groups with at least two types, as sets.
fn effective(gs: &Groups) -> Vec<u128> {
    let mut v: Vec<u128> = gs.iter().map(|g| mask(g)).filter(|m| m.count_ones() >= 2).collect();
    v.sort_unstable();
    v.dedup();
    v
}

/// Splits into families without common types whose groups are nested in one another: group the sets by overlap
/// (transitively); every class must be a chain.
fn acceptable(eff: &[u128]) -> bool {
    let mut classes: Vec<Vec<u128>> = vec![];
    for &g in eff {
        let (mut hit, rest): (Vec<_>, Vec<_>) = classes.into_iter().partition(|c| c.iter().any(|x| x & g != 0));
        let mut merged: Vec<u128> = hit.drain(..).flatten().collect();
        merged.push(g);
        classes = rest;
        classes.push(merged);
    }
    classes.iter_mut().all(|c| {
        c.sort_by_key(|m| m.count_ones());
        c.windows(2).all(|w| w[0] & w[1] == w[0])
    })
}

fn must_be_dense(eff: &[u128], p: &Probe) -> bool {
    let n = p.inc.count_ones();
    if p.exc == 0 {
        return n == 1 || eff.contains(&p.inc);
    }
    let all = p.inc | p.exc;
    eff.contains(&p.inc) && eff.contains(&all) && !eff.iter().any(|&g| g != p.inc && g != all && g & p.inc == p.inc && g & all == g)
}

struct Ctx<'a> {
    probes: &'a [Probe],
    comps: &'a [Comp],
    /// Id of `comps[0]`.
    base: usize,
    name: &'static str,
}

fn show_groups(gs: &Groups) -> String {
    let v: Vec<String> = gs.iter().map(|g| format!("({})", g.iter().map(|t| format!("G{t}")).collect::<Vec<_>>().join(","))).collect();
    v.join(" ")
}

impl Ctx<'_> {
    fn data(&self, g: &[usize]) -> Vec<ComponentData> {
        g.iter().map(|t| self.comps[t - self.base].data).collect()
    }

    fn build(&self, gs: &Groups) -> GroupLayout {
        let mut l = GroupLayout::default();
        for g in gs {
            l.add_group_dyn(&self.data(g));
        }
        l
    }

    /// Acceptance of one declared list of groups, and its effect on a world if accepted.
    fn check(&self, gs: &Groups, r: &mut Rng, effect: bool, st: &mut Stats) -> Out {
        let eff = effective(gs);
        let want = acceptable(&eff) && eff.iter().all(|m| m.count_ones() <= 16) && eff.len() <= 64;
        let mut h = Hash64::default();
        h.str(self.name);
        for g in gs {
            let m = mask(g);
            h.add(m as u64).add((m >> 64) as u64);
        }
        st.eval((!eff.is_empty()).then_some(h.0));
        let how = r.below(4);
        let got = attempt(|| {
            let l = self.build(gs);
            match how {
                0 => World::new(&l),
                1 => {
                    let mut b = World::builder();
                    for g in gs {
                        b.add_group_dyn(&self.data(g));
                    }
                    b.build()
                }
                2 => {
                    let mut w = World::default();
                    w.set_layout(&l);
                    w
                }
                _ => {
                    // From some other layout of the same types.
                    let mut w = World::new(&self.build(&gs[..gs.len().min(1)].to_vec()));
                    w.set_layout(&l);
                    w
                }
            }
        });
        let case = || format!("groups {} (way {how})", show_groups(gs));
        let mut w = match (got, want) {
            (Ok(w), true) => w,
            (Err(_), false) => {
                st.add("layouts_refused", 1);
                if !effect && !r.chance(1, 8) {
                    return Ok(());
                }
                return match attempt(|| if acceptable(&eff) && eff.len() > 64 { self.refused_world(gs, r, st) } else { self.refused_group(gs, r, st) }) {
                    Ok(x) => x,
                    Err(p) => found("unexpected-panic", format!("{}:{} after a refusal, {}", p.loc, p.msg, case()), case(), show_groups(gs)),
                };
            }
            (Ok(_), false) => return found("layout-acceptance", format!("an unsupported combination was accepted: {}", case()), case(), show_groups(gs)),
            (Err(p), true) => {
                return found("layout-acceptance", format!("a supported combination was refused at {}: {}: {}", p.loc, p.msg.lines().next().unwrap_or(""), case()), case(), show_groups(gs))
            }
        };
        st.add("layouts_accepted", 1);
        st.max("most_groups", eff.len() as u64);
        st.max("largest_group", eff.iter().map(|m| u64::from(m.count_ones())).max().unwrap_or(0));
        if !effect {
            return Ok(());
        }
        for (i, c) in self.comps.iter().enumerate() {
            let t = i + self.base;
            let in_group = eff.iter().any(|m| m >> (t % 128) & 1 == 1);
            // Groups of fewer than two types change nothing; registration by them is not specified.
            if in_group && !(c.registered)(&w) {
                return found("layout-effect", format!("G{t} is part of a group and not registered: {}", case()), case(), show_groups(gs));
            }
            w.register_dyn(c.data);
        }
        match attempt(|| self.effect(&mut w, gs, &eff, r, st)) {
            Ok(x) => x,
            Err(p) => found("unexpected-panic", format!("{}:{} with {}", p.loc, p.msg, case()), case(), show_groups(gs)),
        }
    }

    /// A refused group leaves the layout (or builder) as it was: the others take effect as if it had never been tried.
    fn refused_group(&self, gs: &Groups, r: &mut Rng, st: &mut Stats) -> Out {
        let mut l = GroupLayout::default();
        let mut b = World::builder();
        let direct = r.chance(1, 2);
        let mut kept: Groups = vec![];
        let case = || format!("groups {} (refused ones skipped, direct {direct})", show_groups(gs));
        for g in gs {
            let mut next = kept.clone();
            next.push(g.clone());
            let eff = effective(&next);
            let want = acceptable(&eff) && eff.iter().all(|m| m.count_ones() <= 16);
            let d = self.data(g);
            let got = attempt(|| if direct { l.add_group_dyn(&d) } else { drop(b.add_group_dyn(&d)) }).is_ok();
            if got != want {
                return found("layout-acceptance", format!("group {g:?} accepted: {got}, after {}: {}", show_groups(&kept), case()), case(), show_groups(gs));
            }
            if want {
                kept = next;
            } else {
                st.add("groups_refused", 1);
            }
        }
        let eff = effective(&kept);
        if eff.len() > 64 {
            return Ok(());
        }
        let mut w = if direct { World::new(&l) } else { b.build() };
        for c in self.comps {
            w.register_dyn(c.data);
        }
        st.add("layouts_used_after_refusal", 1);
        let mut h = Hash64::default();
        h.str("refused");
        for m in &eff {
            h.add(*m as u64).add((*m >> 64) as u64);
        }
        st.eval(Some(h.0));
        self.effect(&mut w, &kept, &eff, r, st)
    }

    /// A refused layout leaves a populated world as it was.
    fn refused_world(&self, gs: &Groups, r: &mut Rng, st: &mut Stats) -> Out {
        let l = self.build(gs);
        let kept: Groups = gs[..r.below(20)].to_vec();
        let eff = effective(&kept);
        let case = || format!("layout {} refused by a world of {}", show_groups(gs), show_groups(&kept));
        let mut w = World::new(&self.build(&kept));
        let mut known: Vec<bool> = vec![];
        for c in self.comps {
            if r.chance(9, 10) {
                w.register_dyn(c.data);
            }
            known.push((c.registered)(&w));
        }
        let mut model: BTreeMap<u64, BTreeMap<usize, u32>> = BTreeMap::new();
        let mut ents = vec![];
        for n in 0..r.range(0, 25) as u32 {
            let e = w.create(());
            ents.push(e);
            let m = model.entry(key(e)).or_default();
            for _ in 0..r.below(12) {
                let t = r.below(self.comps.len());
                if known[t] {
                    (self.comps[t].insert)(&mut w, e, n * 100 + 1);
                    m.insert(t, n * 100 + 1);
                }
            }
        }
        let listed: Vec<Entity> = w.entities().to_vec();
        if attempt(|| w.set_layout(&l)).is_ok() {
            return found("layout-acceptance", format!("accepted: {}", case()), case(), show_groups(gs));
        }
        st.add("layouts_refused_by_populated_worlds", 1);
        st.eval(Some(mix(eff.len() as u64, mix(ents.len() as u64, gs.len() as u64))));
        if w.entities() != listed {
            return found("refused-layout-keeps", format!("the entities have changed: {}", case()), case(), show_groups(gs));
        }
        for (t, c) in self.comps.iter().enumerate() {
            if (c.registered)(&w) != known[t] {
                return found("refused-layout-keeps", format!("G{} is registered: {}: {}", t + self.base, !known[t], case()), case(), show_groups(gs));
            }
            for &e in ents.iter().filter(|_| known[t]) {
                let (got, want) = ((c.get)(&w, e), model[&key(e)].get(&t).copied());
                if got != want {
                    return found("refused-layout-keeps", format!("G{} of {} is {got:?}, should be {want:?}: {}", t + self.base, show(e), case()), case(), show_groups(gs));
                }
            }
        }
        for c in self.comps {
            w.register_dyn(c.data);
        }
        self.probe_all(&w, &eff, &model, &case, st)?;
        w.reset();
        self.effect(&mut w, &kept, &eff, r, st)
    }

    /// Random components come and go; grouped queries stay dense, others sparse, counts and values right.
    fn effect(&self, w: &mut World, gs: &Groups, eff: &[u128], r: &mut Rng, st: &mut Stats) -> Out {
        let mut model: BTreeMap<u64, BTreeMap<usize, u32>> = BTreeMap::new();
        let mut ents: Vec<Entity> = vec![];
        let mut next = 1u32;
        let n_types = self.comps.len();
        let case = || format!("groups {}", show_groups(gs));
        let steps = if self.name == "small" { 18 } else { 90 };
        self.probe_all(w, eff, &model, &case, st)?;
        for step in 0..steps {
            match r.below(10) {
                0..=4 => {
                    let e = w.create(());
                    ents.push(e);
                    model.insert(key(e), BTreeMap::new());
                    // All types of one group, or of an interval of types, in random order, with gaps.
                    let mut ts: Vec<usize> = if !gs.is_empty() && r.chance(2, 3) {
                        gs[r.below(gs.len())].iter().map(|t| t - self.base).collect()
                    } else {
                        let a = r.below(n_types);
                        (a..(a + r.range(1, 9)).min(n_types)).collect()
                    };
                    r.shuffle(&mut ts);
                    if r.chance(1, 3) && !ts.is_empty() {
                        ts.pop();
                    }
                    for t in ts {
                        (self.comps[t].insert)(w, e, next);
                        model.get_mut(&key(e)).unwrap().insert(t, next);
                        next += 1;
                    }
                }
                5..=6 if !ents.is_empty() => {
                    let e = ents[r.below(ents.len())];
                    let t = if r.chance(1, 2) { r.below(n_types) } else { model[&key(e)].keys().next().map_or(0, |t| (t + 1) % n_types) };
                    (self.comps[t].insert)(w, e, next);
                    model.get_mut(&key(e)).unwrap().insert(t, next);
                    next += 1;
                }
                7..=8 if !ents.is_empty() => {
                    let e = ents[r.below(ents.len())];
                    let have: Vec<usize> = model[&key(e)].keys().copied().collect();
                    if !have.is_empty() {
                        let t = have[r.below(have.len())];
                        let got = (self.comps[t].remove)(w, e);
                        let want = model.get_mut(&key(e)).unwrap().remove(&t);
                        if got != want {
                            return found("layout-effect", format!("remove of G{} gave {got:?}, should be {want:?}: {}", t + self.base, case()), case(), show_groups(gs));
                        }
                    }
                }
                _ if !ents.is_empty() => {
                    let e = ents.swap_remove(r.below(ents.len()));
                    w.destroy(e);
                    model.remove(&key(e));
                }
                _ => {}
            }
            if step % 9 == 8 {
                self.probe_all(w, eff, &model, &case, st)?;
            }
        }
        for (i, c) in self.comps.iter().enumerate() {
            let want = model.values().filter(|m| m.contains_key(&i)).count();
            if (c.len)(w) != want {
                return found("layout-effect", format!("G{} has {} values, should have {want}: {}", i + self.base, (c.len)(w), case()), case(), show_groups(gs));
            }
            for &e in &ents {
                let want = model[&key(e)].get(&i).copied();
                let got = (c.get)(w, e);
                if got != want {
                    return found("layout-effect", format!("G{} of {} is {got:?}, should be {want:?}: {}", i + self.base, show(e), case()), case(), show_groups(gs));
                }
            }
        }
        st.sample(5, || format!("{}: accepted, {} entities, all probes as declared", case(), ents.len()));
        Ok(())
    }

    fn probe_all(&self, w: &World, eff: &[u128], model: &BTreeMap<u64, BTreeMap<usize, u32>>, case: &dyn Fn() -> String, st: &mut Stats) -> Out {
        let sets: Vec<u128> = model.values().map(|m| m.keys().fold(0, |a, t| a | 1 << ((t + self.base) % 128))).collect();
        for p in self.probes {
            let o = (p.run)(w);
            let must = must_be_dense(eff, p);
            let name = || format!("query over types {:?} without {:?}", bits(p.inc), bits(p.exc));
            st.add("probes", 1);
            if must && p.inc.count_ones() > 1 {
                st.add("probes_of_groups", 1);
            }
            if o.dense != must || o.slices != must {
                return found("layout-effect", format!("{}: dense {}, slices {}, the groups say {must}: {}", name(), o.dense, o.slices, case()), case(), "");
            }
            let strict = sets.iter().filter(|&&s| s & p.inc == p.inc && s & p.exc == 0).count();
            // Known finding "partial-exclude" of C04: dense queries leave out only entities having all excluded types.
            let relaxed = sets.iter().filter(|&&s| s & p.inc == p.inc && (p.exc == 0 || s & p.exc != p.exc)).count();
            let ok = o.count == strict || (must && p.exc.count_ones() > 1 && o.count == relaxed);
            if !ok || o.dense_len.is_some_and(|l| l != o.count) {
                return found("layout-effect", format!("{}: {} items, dense length {:?}, should be {strict}: {}", name(), o.count, o.dense_len, case()), case(), "");
            }
        }
        Ok(())
    }
}

fn bits(m: u128) -> Vec<u32> {
    (0..128).filter(|i| m >> i & 1 == 1).collect()
}

fn random_order(r: &mut Rng, gs: &mut Groups) {
    r.shuffle(gs);
    for g in gs {
        r.shuffle(g);
    }
}

pub fn run(env: &Env, st: &mut Stats) -> Out {
    let small = probes::small();
    let wide = probes::wide();
    let many = probes::many();
    let low = probes::comps_low();
    let high = probes::comps_high();
    let cs = Ctx { probes: &small, comps: &low[..5], base: 0, name: "small" };
    let cw = Ctx { probes: &wide, comps: &low[..16], base: 0, name: "wide" };
    let cm = Ctx { probes: &many, comps: &high, base: 100, name: "many" };
    let (same, same_probes) = namesakes();
    let cn = Ctx { probes: &same_probes, comps: &same, base: 0, name: "namesakes" };
    let one_name = same.iter().all(|c| c.data.type_name() == same[0].data.type_name());
    st.add("namesake_types", if one_name { same.len() as u64 } else { 0 });
    let mine = |i: u64| i % env.shards == env.shard;
    let mut r = Rng::new(mix(env.seed, 1500 + env.shard));

    // Every ordered list of up to three subsets of five types (sets of at least two types).
    let subsets: Vec<Vec<usize>> = (0u32..32).filter(|m| m.count_ones() >= 2).map(|m| (0..5).filter(|i| m >> i & 1 == 1).collect()).collect();
    let n = subsets.len();
    let mut i = 0;
    for a in 0..n {
        env.note_case(&format!("all lists starting with subset {a}"));
        for b in 0..=n {
            for c in 0..=n {
                if b == n && c != n {
                    continue;
                }
                i += 1;
                if !mine(i) {
                    continue;
                }
                let mut gs: Groups = vec![subsets[a].clone()];
                for x in [b, c] {
                    if x < n {
                        gs.push(subsets[x].clone());
                    }
                }
                for g in &mut gs {
                    r.shuffle(g);
                }
                let eff = effective(&gs);
                let effect = acceptable(&eff) && (env.thorough || r.chance(1, 2));
                cs.check(&gs, &mut r, effect, st)?;
            }
        }
    }
    st.add("ordered_lists_of_three_enumerated", 1);

    let rounds = env.cases(if env.thorough { 1_600_000 } else { 80_000 }) / env.shards.max(1) + 1;
    for round in 0..rounds {
        if env.out_of_time() {
            st.add("stopped_by_clock", 1);
            break;
        }
        env.note_case(&format!("random round {round}"));
        // Small universe: longer lists, with repetitions, single-type and empty groups.
        let mut gs: Groups = vec![];
        if r.chance(1, 2) {
            // Likely acceptable: nested prefixes of one or two disjoint orders.
            let mut o: Vec<usize> = (0..5).collect();
            r.shuffle(&mut o);
            let cut = if r.chance(1, 2) { 5 } else { r.range(2, 3) };
            for part in [&o[..cut], &o[cut..]] {
                for k in 0..=part.len() {
                    if r.chance(2, 3) {
                        gs.push(part[..k].to_vec());
                    }
                }
            }
            if r.chance(1, 3) && !gs.is_empty() {
                let g = gs[r.below(gs.len())].clone();
                gs.push(g);
            }
            if r.chance(1, 4) {
                let g = subsets[r.below(n)].clone();
                gs.push(g);
            }
        } else {
            for _ in 0..r.range(1, 5) {
                let mut g = subsets[r.below(n)].clone();
                if r.chance(1, 6) {
                    g.truncate(1);
                }
                if r.chance(1, 6) {
                    g.push(g[0]);
                }
                gs.push(g);
            }
        }
        random_order(&mut r, &mut gs);
        cs.check(&gs, &mut r, true, st)?;

        if round % 4 == 0 {
            // Types that differ in everything but their names.
            let mut gs: Groups = vec![];
            for _ in 0..r.range(1, 4) {
                gs.push((0..4).filter(|_| r.chance(3, 5)).collect());
            }
            random_order(&mut r, &mut gs);
            cn.check(&gs, &mut r, true, st)?;
        }
        if round % 8 == 0 {
            // Up to 16 types in one family, sometimes 17 and more.
            let mut gs: Groups = vec![];
            for k in 2..=16usize {
                if r.chance(1, 2) || k == 16 && r.chance(1, 2) {
                    gs.push((0..k).collect());
                }
            }
            random_order(&mut r, &mut gs);
            cw.check(&gs, &mut r, true, st)?;
            let big = Ctx { probes: &[], comps: &low, base: 0, name: "too-wide" };
            let k = r.range(17, 20);
            gs.insert(r.below(gs.len() + 1), (0..k).collect());
            big.check(&gs, &mut r, false, st)?;
            // Repetitions inside one group do not count.
            let mut g: Vec<usize> = (0..16).collect();
            g.extend(0..r.range(1, 16));
            big.check(&vec![g], &mut r, false, st)?;
        }
        if round % 10 == 0 {
            // Up to 64 groups over 128 types, and more.
            let mut gs: Groups = vec![];
            for k in 0..16usize {
                let b = 100 + 8 * k;
                match r.below(3) {
                    0 => (0..4).for_each(|j| gs.push(vec![b + 2 * j, b + 2 * j + 1])),
                    1 => {
                        for q in [b, b + 4] {
                            gs.push(vec![q, q + 1]);
                            gs.push((q..q + 4).collect());
                        }
                    }
                    _ => {
                        gs.push((b..b + 8).collect());
                        gs.push((b..b + 4).collect());
                        gs.push(vec![b, b + 1]);
                        if r.chance(1, 2) {
                            gs.push((b..b + 6).collect());
                        }
                    }
                }
            }
            // Sometimes all of them, sometimes fewer.
            random_order(&mut r, &mut gs);
            if r.chance(1, 2) {
                gs.truncate(r.range(1, gs.len()));
            }
            st.max("groups_in_one_world", gs.len() as u64);
            cm.check(&gs, &mut r, true, st)?;
            // Exactly 64 pairs, then one group more than is supported.
            let mut gs: Groups = (0..64).map(|k| vec![100 + 2 * k, 101 + 2 * k]).collect();
            random_order(&mut r, &mut gs);
            cm.check(&gs, &mut r, true, st)?;
            // 65 and more groups, all properly nested or disjoint.
            let mut gs: Groups = vec![];
            for k in 0..32 {
                let b = 100 + 4 * k;
                gs.push(vec![b, b + 1]);
                gs.push((b..b + 3).collect());
                if k < 8 && r.chance(2, 3) || k == 0 {
                    gs.push((b..b + 4).collect());
                }
            }
            random_order(&mut r, &mut gs);
            cm.check(&gs, &mut r, false, st)?;
        }
    }
    // The tuple descriptors of every arity.
    if mine(1) {
        let ws = probes::wide();
        for (n, add, build) in probes::descriptors() {
            let eff = vec![mask(&(0..n).collect::<Vec<_>>())];
            for way in 0..2 {
                let w = match attempt(|| {
                    let mut w = if way == 0 {
                        let mut l = GroupLayout::default();
                        add(&mut l);
                        World::new(&l)
                    } else {
                        build()
                    };
                    for c in &low[..16] {
                        w.register_dyn(c.data);
                    }
                    w
                }) {
                    Ok(w) => w,
                    Err(p) => return found("layout-acceptance", format!("a group of {n} types was refused: {} {}", p.loc, p.msg), format!("descriptor of arity {n}"), ""),
                };
                let c = Ctx { probes: &ws, comps: &low[..16], base: 0, name: "descriptor" };
                c.probe_all(&w, &eff, &BTreeMap::new(), &|| format!("tuple descriptor of {n} types"), st)?;
                st.eval(Some(mix(n as u64, way)));
            }
        }
    }
    Ok(())
}
