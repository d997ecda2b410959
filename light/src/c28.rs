//! C28: handles, versions, component descriptions, layouts and builders as plain values; formatting.

use crate::kit::*;
use sparsey::component::{ComponentData, GroupLayout};
use sparsey::entity::Version;
use sparsey::world::WorldBuilder;
use sparsey::{Entity, World};
use std::any::TypeId;
use std::cmp::Ordering::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, RandomState};
use vcommon::{mix, Env, Hash64, Rng, Stats};

fn bad<T>(oracle: &'static str, msg: String, case: &str) -> Result<T, Found> {
    let replay = format!("{case}\n{msg}");
    found(oracle, msg, case.to_string(), replay)
}

/// Laws of equality, order and hashing for three values of which the first two are equal iff `same`.
fn laws<T: Eq + Ord + Hash + Clone + Debug>(a: &T, b: &T, c: &T, same: bool, s: &RandomState, st: &mut Stats, sig: u64) -> Out {
    st.eval(Some(sig));
    let w = || format!("{a:?} and {b:?}");
    #[allow(clippy::nonminimal_bool)]
    if (a == b) != same || (a != b) == same || (b == a) != same {
        return bad("value-equality", format!("{} compare {}, should be {}", w(), a == b, same), "equality");
    }
    if same && s.hash_one(a) != s.hash_one(b) {
        return bad("value-hash", format!("{} are equal and have different hashes", w()), "hashing");
    }
    let o = a.cmp(b);
    if (o == Equal) != same || b.cmp(a) != o.reverse() || a.partial_cmp(b) != Some(o) {
        return bad("value-order", format!("{}: cmp {o:?}, reversed {:?}, partial {:?}, equal {same}", w(), b.cmp(a), a.partial_cmp(b)), "order");
    }
    let want = (o == Less, o != Greater, o == Greater, o != Less);
    if (a < b, a <= b, a > b, a >= b) != want {
        return bad("value-order", format!("{}: operators disagree with cmp {o:?}", w()), "order");
    }
    if o != Greater && b.cmp(c) != Greater && a.cmp(c) == Greater {
        return bad("value-order", format!("{a:?} <= {b:?} <= {c:?}, yet the first is greater than the last"), "order");
    }
    let d = a.clone();
    if d != *a || s.hash_one(&d) != s.hash_one(a) {
        return bad("value-equality", format!("{a:?} differs from its copy"), "copying");
    }
    Ok(())
}

fn number(r: &mut Rng) -> u32 {
    match r.below(7) {
        0 => r.below(4) as u32,
        1 => u32::MAX - r.below(3) as u32,
        2 => 1 << r.below(32),
        3 => (1u32 << r.below(32)).wrapping_sub(1),
        4 => 0x8000_0000u32.wrapping_add(r.below(3) as u32).wrapping_sub(1),
        5 => r.below(300) as u32,
        _ => r.next() as u32,
    }
}

fn handles(env: &Env, r: &mut Rng, st: &mut Stats) -> Out {
    let s = RandomState::new();
    let _ = env;
    let (i, v) = (number(r), number(r).max(1));
    let mut pool = vec![(i, v), (v, i.max(1)), (i, v ^ 1).max((i, 1)), (i ^ 1, v), (0, 1), (u32::MAX, u32::MAX), (0, u32::MAX), (u32::MAX, 1)];
    for _ in 0..6 {
        pool.push((number(r), number(r).max(1)));
        let p = pool[r.below(pool.len())];
        pool.push((p.0, number(r).max(1)));
        pool.push((number(r), p.1));
    }
    for p in &mut pool {
        p.1 = p.1.max(1);
    }
    let es: Vec<Entity> = pool.iter().map(|p| ent(p.0, p.1)).collect();
    for (p, e) in pool.iter().zip(&es) {
        if e.index != p.0 || e.version.0.get() != p.1 || e.sparse() != p.0 as usize {
            return bad("value-fields", format!("a handle of index {} and version {} has {} and {}, sparse {}", p.0, p.1, e.index, e.version.0, e.sparse()), "fields");
        }
        let f = Entity::with_index(p.0);
        if f.index != p.0 || f.version != Version::FIRST || f.version != Version::default() || f.version.0.get() != 1 {
            return bad("value-fields", format!("with_index({}) has index {} and version {}", p.0, f.index, f.version.0), "fields");
        }
        let n = e.version.next();
        if n.map(|n| n.0.get()) != p.1.checked_add(1) || n.is_none() != (e.version == Version::LAST) || n.is_some_and(|n| n <= e.version) {
            return bad("version-next", format!("the version after {} is {n:?}", p.1), "version");
        }
    }
    for x in 0..es.len() {
        for y in 0..es.len() {
            let z = r.below(es.len());
            let mut h = Hash64::default();
            h.add((pool[x].0.cmp(&pool[y].0) as i8 as u64).wrapping_add(2)).add((pool[x].1.cmp(&pool[y].1) as i8 as u64).wrapping_add(2));
            h.add(u64::from(pool[x].0.leading_zeros() / 4)).add(u64::from(pool[y].1.leading_zeros() / 4));
            laws(&es[x], &es[y], &es[z], pool[x] == pool[y], &s, st, h.0)?;
            laws(&es[x].version, &es[y].version, &es[z].version, pool[x].1 == pool[y].1, &s, st, h.0 ^ 1)?;
            if (pool[x] == pool[y]) != (format!("{:?}", es[x]) == format!("{:?}", es[y])) {
                return bad("value-format", format!("handles {} and {} print as {:?} and {:?}", show(es[x]), show(es[y]), es[x], es[y]), "formatting");
            }
        }
    }
    let distinct: BTreeSet<_> = pool.iter().collect();
    let by_order: BTreeSet<_> = es.iter().collect();
    let by_hash: HashSet<_> = es.iter().collect();
    let mut sorted = es.clone();
    sorted.sort();
    let ascending = sorted.windows(2).all(|w| w[0].cmp(&w[1]) != Greater);
    sorted.dedup();
    if by_order.len() != distinct.len() || by_hash.len() != distinct.len() || sorted.len() != distinct.len() || !ascending {
        let m = format!("{} distinct handles: an ordered set holds {}, a hash set {}, sorting leaves {}", distinct.len(), by_order.len(), by_hash.len(), sorted.len());
        return bad("value-order", m, "collections");
    }
    Ok(())
}

mod one {
    pub struct Same(#[allow(dead_code)] pub u32);
}
mod two {
    fn made() -> (crate::c28::Kind, crate::c28::Kind) {
        let a = {
            struct Same(#[allow(dead_code)] u32);
            crate::c28::kind::<Same>()
        };
        let b = {
            struct Same(#[allow(dead_code)] u32);
            crate::c28::kind::<Same>()
        };
        (a, b)
    }
    pub fn pair() -> (crate::c28::Kind, crate::c28::Kind) {
        made()
    }
}
struct Gen<T>(#[allow(dead_code)] T);
struct Unit;

type Make = fn() -> ComponentData;
#[derive(Clone, Copy)]
struct Kind {
    id: TypeId,
    name: &'static str,
    make: Make,
}
fn kind<T: Send + Sync + 'static>() -> Kind {
    Kind { id: TypeId::of::<T>(), name: std::any::type_name::<T>(), make: || ComponentData::new::<T>() }
}
#[inline(never)]
fn again(k: &Kind) -> ComponentData {
    (k.make)()
}

fn kinds() -> Vec<Kind> {
    let (a, b) = two::pair();
    vec![
        kind::<u8>(),
        kind::<i8>(),
        kind::<u32>(),
        kind::<()>(),
        kind::<Unit>(),
        kind::<one::Same>(),
        a,
        b,
        kind::<Gen<u8>>(),
        kind::<Gen<Gen<u8>>>(),
        kind::<Gen<[u8; 1]>>(),
        kind::<Gen<[u8; 2]>>(),
        kind::<String>(),
        kind::<Vec<u8>>(),
        kind::<Option<u8>>(),
        kind::<Box<dyn Send + Sync>>(),
        kind::<&'static str>(),
        kind::<fn(u8) -> u8>(),
        kind::<for<'a> fn(&'a u8)>(),
        kind::<fn(&'static u8)>(),
        kind::<[u8; 4]>(),
        kind::<(u8, u16)>(),
        kind::<std::marker::PhantomData<u8>>(),
        kind::<std::sync::atomic::AtomicU8>(),
    ]
}

fn descriptions(r: &mut Rng, st: &mut Stats) -> Out {
    let s = RandomState::new();
    let ks = kinds();
    for (x, k) in ks.iter().enumerate() {
        let a = again(k);
        if a.type_id() != k.id || a.type_name() != k.name {
            return bad("value-fields", format!("the description of {} names the type {}", k.name, a.type_name()), "description");
        }
        for (y, l) in ks.iter().enumerate() {
            let (b, c) = (again(l), again(&ks[r.below(ks.len())]));
            laws(&a, &b, &c, k.id == l.id, &s, st, mix(x as u64, y as u64))?;
        }
    }
    let mut cs: Vec<ComponentData> = (0..200).map(|_| again(&ks[r.below(ks.len())])).collect();
    let ids: HashSet<TypeId> = cs.iter().map(|c| c.type_id()).collect();
    cs.sort();
    cs.dedup();
    if cs.len() != ids.len() {
        return bad("value-order", format!("sorting descriptions of {} types leaves {}", ids.len(), cs.len()), "collections");
    }
    // What is registered by description is the type, however the description was made.
    let mut w = World::default();
    let mut reg: HashSet<TypeId> = HashSet::new();
    for _ in 0..60 {
        let k = &ks[r.below(ks.len())];
        let new = w.register_dyn(again(k));
        if new != reg.insert(k.id) {
            return bad("description-registers", format!("register_dyn of {} returns {new}", k.name), "registration");
        }
        for l in &ks {
            if w.is_registered_dyn(l.id) != reg.contains(&l.id) || w.is_registered_dyn(again(l).type_id()) != reg.contains(&l.id) {
                return bad("description-registers", format!("{} is registered: {}", l.name, w.is_registered_dyn(l.id)), "registration");
            }
        }
        st.eval(Some(mix(reg.len() as u64, 77)));
    }
    Ok(())
}

// ---------------------------------------------------------------- layouts and builders

#[derive(Clone, Copy)]
struct V<const N: usize>(u32);
impl<const N: usize> Debug for V<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{N}#{}>", self.0)
    }
}
type A = V<0>;
type B = V<1>;
type C = V<2>;
type D = V<3>;
type E = V<4>;

/// Groups as sets of types out of five.
type Sets = Vec<u8>;
const MENU: [u8; 7] = [0b00011, 0b00111, 0b11000, 0b01111, 0b11111, 0b00110, 0b10001];
fn data(set: u8) -> Vec<ComponentData> {
    let all = [
        ComponentData::new::<A>(),
        ComponentData::new::<B>(),
        ComponentData::new::<C>(),
        ComponentData::new::<D>(),
        ComponentData::new::<E>(),
    ];
    (0..5).filter(|i| set >> i & 1 == 1).map(|i| all[i]).collect()
}
/// Groups that are connected, perhaps through others, must form a chain.
fn fits(s: &[u8], n: u8) -> bool {
    let mut family = n;
    loop {
        let f = s.iter().filter(|&&x| x & family != 0).fold(family, |a, b| a | b);
        if f == family {
            break;
        }
        family = f;
    }
    let chain: Vec<u8> = s.iter().copied().filter(|x| x & family != 0).chain([n]).collect();
    chain.iter().all(|&x| chain.iter().all(|&y| x & y == x || x & y == y))
}

fn dense(w: &World, set: u8) -> bool {
    match set {
        0b00011 => w.query_all::<(&A, &B)>().iter().is_dense(),
        0b00111 => w.query_all::<(&A, &B, &C)>().iter().is_dense(),
        0b11000 => w.query_all::<(&D, &E)>().iter().is_dense(),
        0b01111 => w.query_all::<(&A, &B, &C, &D)>().iter().is_dense(),
        0b11111 => w.query_all::<(&A, &B, &C, &D, &E)>().iter().is_dense(),
        0b00110 => w.query_all::<(&B, &C)>().iter().is_dense(),
        _ => w.query_all::<(&A, &E)>().iter().is_dense(),
    }
}
fn registered(w: &World) -> u8 {
    [w.is_registered::<A>(), w.is_registered::<B>(), w.is_registered::<C>(), w.is_registered::<D>(), w.is_registered::<E>()]
        .iter()
        .enumerate()
        .map(|(i, &b)| u8::from(b) << i)
        .sum()
}

/// The world has exactly the groups `s` and the registrations of `reg` and `s`.
fn config(w: &mut World, s: &Sets, reg: u8, log: &[String], st: &mut Stats) -> Out {
    let want = s.iter().fold(reg, |a, b| a | b);
    let mut h = Hash64::default();
    h.add(u64::from(reg));
    for &x in s {
        h.add(u64::from(x));
    }
    st.eval(Some(h.0));
    let now = registered(w);
    if now != want {
        return bad("builder-config", format!("types {now:05b} are registered, should be {want:05b}"), &log.join("\n"));
    }
    if !w.entities().is_empty() || !w.is_empty() {
        return bad("builder-config", format!("a new world has {} entities", w.entities().len()), &log.join("\n"));
    }
    for k in MENU {
        let d = attempt(|| want & k == k && dense(w, k));
        let Ok(d) = d else { return bad("unexpected-panic", format!("querying {k:05b} panicked"), &log.join("\n")) };
        if d != s.contains(&k) {
            return bad("builder-config", format!("a query of {k:05b} is dense: {d}; groups {s:?}"), &log.join("\n"));
        }
    }
    Ok(())
}

fn builders(r: &mut Rng, st: &mut Stats) -> Out {
    let mut bs: Vec<(WorldBuilder, Sets, u8)> = vec![(World::builder(), vec![], 0)];
    let mut ls: Vec<(GroupLayout, Sets)> = vec![(GroupLayout::default(), vec![])];
    let mut ws: Vec<World> = vec![];
    let mut log: Vec<String> = vec![];
    for _ in 0..r.range(4, 40) {
        let b = r.below(bs.len());
        let l = r.below(ls.len());
        match r.below(10) {
            0 | 1 => {
                let i = r.below(5);
                log.push(format!("builder {b}: register {i}"));
                match (i, r.chance(1, 2)) {
                    (0, true) => bs[b].0.register::<A>(),
                    (1, true) => bs[b].0.register::<B>(),
                    (2, true) => bs[b].0.register::<C>(),
                    (3, true) => bs[b].0.register::<D>(),
                    (4, true) => bs[b].0.register::<E>(),
                    _ => bs[b].0.register_dyn(data(1 << i)[0]),
                };
                bs[b].2 |= 1 << i;
            }
            2 | 3 => {
                let g = MENU[r.below(MENU.len())];
                if fits(&bs[b].1, g) {
                    log.push(format!("builder {b}: add_group {g:05b}"));
                    match (g, r.chance(1, 2)) {
                        (0b00011, true) => bs[b].0.add_group::<(B, A)>(),
                        (0b11000, true) => bs[b].0.add_group::<(D, E)>(),
                        (0b00111, true) => bs[b].0.add_group::<(C, A, B)>(),
                        _ => bs[b].0.add_group_dyn(&data(g)),
                    };
                    bs[b].1.push(g);
                }
            }
            4 => {
                let g = MENU[r.below(MENU.len())];
                if fits(&ls[l].1, g) {
                    log.push(format!("layout {l}: add_group {g:05b}"));
                    ls[l].0.add_group_dyn(&data(g));
                    ls[l].1.push(g);
                }
            }
            5 => {
                log.push(format!("builder {b}: set_layout({l})"));
                bs[b].0.set_layout(ls[l].0.clone());
                bs[b].1 = ls[l].1.clone();
            }
            6 if bs.len() < 6 => {
                log.push(format!("builder {} = clone of {b}", bs.len()));
                let c = (bs[b].0.clone(), bs[b].1.clone(), bs[b].2);
                bs.push(c);
            }
            7 if ls.len() < 6 => {
                log.push(format!("layout {} = clone of {l}", ls.len()));
                let c = ls[l].clone();
                ls.push(c);
            }
            8 => {
                log.push(format!("world of layout {l}"));
                let mut w = World::new(&ls[l].0);
                config(&mut w, &ls[l].1, 0, &log, st)?;
                ws.push(w);
            }
            _ => {
                log.push(format!("build {b}"));
                let Ok(mut w) = attempt(|| bs[b].0.build()) else { return bad("unexpected-panic", "build panicked".into(), &log.join("\n")) };
                config(&mut w, &bs[b].1.clone(), bs[b].2, &log, st)?;
                // What happens to the world stays in the world.
                w.register::<A>();
                w.register::<B>();
                w.extend((0..3).map(|i| (V::<0>(i), V::<1>(i))));
                w.set_layout(&ls[l].0);
                ws.push(w);
                st.add("worlds_built", 1);
            }
        }
    }
    for i in 0..bs.len() {
        log.push(format!("build {i} at the end"));
        let mut w = bs[i].0.build();
        config(&mut w, &bs[i].1.clone(), bs[i].2, &log, st)?;
    }
    st.sample(5, || log.join("; "));
    for w in &ws {
        if w.entities().len() != 0 && w.query_all::<(&A, &B)>().iter().count() != 3 {
            return bad("builder-config", "an earlier world has lost its entities".into(), &log.join("\n"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- formatting

fn shows(what: &str, text: &str, ids: &BTreeMap<u64, u32>, n: usize, case: &str) -> Out {
    for v in ids.values() {
        let mark = format!("<{n}#{v}>");
        if text.matches(&mark).count() != 1 {
            return bad("view-format", format!("{what} shows {mark} {} times: {}", text.matches(&mark).count(), &text[..text.len().min(600)]), case);
        }
    }
    let all = text.matches(&format!("<{n}#")).count();
    if all != ids.len() {
        return bad("view-format", format!("{what} shows {all} values, should be {}", ids.len()), case);
    }
    Ok(())
}

fn attempt_format(what: &str, f: &dyn Debug, alt: bool, case: &str) -> Result<String, Found> {
    match attempt(|| if alt { format!("{f:#?}") } else { format!("{f:?}") }) {
        Ok(s) => Ok(s),
        Err(p) => bad("format-panics", format!("formatting {what} panicked: {}", p.msg), case),
    }
}

fn formatting(r: &mut Rng, st: &mut Stats) -> Out {
    let mut layout = GroupLayout::default();
    let mut sets = vec![];
    for _ in 0..r.below(4) {
        let g = MENU[r.below(MENU.len())];
        if fits(&sets, g) {
            layout.add_group_dyn(&data(g));
            sets.push(g);
        }
    }
    let mut w = World::new(&layout);
    w.register::<A>();
    w.register::<B>();
    w.register::<C>();
    let mut a: BTreeMap<u64, u32> = BTreeMap::new();
    let mut b: BTreeMap<u64, u32> = BTreeMap::new();
    let mut live: Vec<Entity> = vec![];
    for i in 0..r.range(0, 30) as u32 {
        let e = if live.is_empty() || r.chance(1, 2) {
            let e = w.create(());
            live.push(e);
            e
        } else {
            live[r.below(live.len())]
        };
        match r.below(6) {
            0 | 1 => {
                w.insert(e, (V::<0>(i),));
                a.insert(key(e), i);
            }
            2 => {
                w.insert(e, (V::<1>(i), V::<2>(i)));
                b.insert(key(e), i);
            }
            3 => {
                w.delete::<(A,)>(e);
                a.remove(&key(e));
            }
            4 => {
                let _ = w.create_atomic();
            }
            _ => {
                w.destroy(e);
                live.retain(|&x| x != e);
                a.remove(&key(e));
                b.remove(&key(e));
            }
        }
    }
    let case = format!("groups {sets:?}, {} live, {} owners of A, {} of B", live.len(), a.len(), b.len());
    let before: Vec<Entity> = w.entities().to_vec();
    for alt in [false, true] {
        let mut h = Hash64::default();
        h.add(alt.into()).add(a.len() as u64).add(b.len() as u64).add(live.len() as u64).add(sets.iter().fold(0, |a, b| a * 8 + u64::from(*b)));
        st.eval(Some(h.0));
        attempt_format("a layout", &layout, alt, &case)?;
        attempt_format("a builder", World::builder().set_layout(layout.clone()), alt, &case)?;
        attempt_format("a world", &w, alt, &case)?;
        {
            let va = w.borrow::<A>();
            attempt_format("a world with a shared borrow", &w, alt, &case)?;
            shows("a view", &attempt_format("a view", &va, alt, &case)?, &a, 0, &case)?;
        }
        {
            let va = w.borrow_mut::<A>();
            attempt_format("a world with an exclusive borrow", &w, alt, &case)?;
            shows("an exclusive view", &attempt_format("a view", &va, alt, &case)?, &a, 0, &case)?;
            let (vb, info) = w.borrow_with_group_info::<B>();
            attempt_format("group info", &info, alt, &case)?;
            shows("a view", &attempt_format("a view", &vb, alt, &case)?, &b, 1, &case)?;
        }
        {
            let mut q = w.query_all::<(&mut A, &B)>();
            attempt_format("a world being queried", &w, alt, &case)?;
            for e in &live {
                attempt_format("a handle", e, alt, &case)?;
            }
            let n = q.iter().count();
            let want = a.keys().filter(|k| b.contains_key(k)).count();
            if n != want {
                return bad("format-disturbs", format!("{n} items after formatting, should be {want}"), &case);
            }
        }
        // Formatting has taken and changed nothing.
        if attempt(|| drop((w.borrow_mut::<A>(), w.borrow_mut::<B>()))).is_err() || w.entities() != before {
            return bad("format-disturbs", "a borrow is left or entities changed after formatting".into(), &case);
        }
        if w.query_all::<&A>().iter().map(|v| v.0).collect::<BTreeSet<_>>() != a.values().copied().collect() {
            return bad("format-disturbs", "values changed after formatting".into(), &case);
        }
    }
    Ok(())
}

pub fn run(env: &Env, st: &mut Stats) -> Out {
    let mut r = Rng::new(mix(env.seed, 0xc28 + env.shard));
    let n = env.cases(if env.thorough { 400_000 } else { 20_000 });
    for i in 0..n {
        if env.out_of_time() {
            break;
        }
        env.note_case(&format!("case {i}"));
        handles(env, &mut r, st)?;
        builders(&mut r, st)?;
        formatting(&mut r, st)?;
        if i % 8 == 0 {
            descriptions(&mut r, st)?;
        }
        st.add("cases", 1);
    }
    Ok(())
}
