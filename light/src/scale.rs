//! Worlds with far more entities, components and recycled indices than 2^16, under the oracles of many checks.

use crate::kit::*;
use sparsey::component::GroupLayout;
use sparsey::query::Query;
use sparsey::{Entity, World};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::sync::Mutex;
use vcommon::{mix, Env, Hash64, HashSet, Rng, Stats};

const NT: usize = 3;
const NAMES: [&str; NT] = ["A", "B", "D"];
/// Not part of a row.
const NO: u32 = u32::MAX;

pub struct A(u32);
pub struct B([u32; 3]);
/// Registered in a ledger as long as it is alive.
pub struct D(u32);

static LEDGER: Mutex<Vec<bool>> = Mutex::new(vec![]);
static ALIVE: AtomicI64 = AtomicI64::new(0);
/// The first value that was dropped twice, plus one.
static TWICE: AtomicI64 = AtomicI64::new(0);

impl Drop for D {
    fn drop(&mut self) {
        let mut l = LEDGER.lock().unwrap();
        match l.get_mut(self.0 as usize) {
            Some(x) if *x => *x = false,
            _ => {
                let _ = TWICE.compare_exchange(0, i64::from(self.0) + 1, Relaxed, Relaxed);
            }
        }
        ALIVE.fetch_sub(1, Relaxed);
    }
}

trait Id: Sized + Send + Sync + 'static {
    const T: usize;
    fn mk(id: u32) -> Self;
    fn id(&self) -> u32;
}
impl Id for A {
    const T: usize = 0;
    fn mk(id: u32) -> Self {
        A(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
}
impl Id for B {
    const T: usize = 1;
    fn mk(id: u32) -> Self {
        B([!id, id, id ^ 0xabcd])
    }
    fn id(&self) -> u32 {
        if self.0[0] == !self.0[1] && self.0[2] == self.0[1] ^ 0xabcd {
            self.0[1]
        } else {
            NO - 1
        }
    }
}
impl Id for D {
    const T: usize = 2;
    fn mk(id: u32) -> Self {
        let mut l = LEDGER.lock().unwrap();
        if l.len() <= id as usize {
            l.resize(id as usize + 1000, false);
        }
        l[id as usize] = true;
        ALIVE.fetch_add(1, Relaxed);
        D(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
}

/// What a query told about one entity.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Row {
    e: Option<Entity>,
    c: [u32; NT],
}
trait Part {
    fn put(&self, r: &mut Row);
}
impl Part for Entity {
    fn put(&self, r: &mut Row) {
        r.e = Some(*self);
    }
}
impl<T: Id> Part for &T {
    fn put(&self, r: &mut Row) {
        r.c[T::T] = self.id();
    }
}
impl<T: Id> Part for &mut T {
    fn put(&self, r: &mut Row) {
        r.c[T::T] = self.id();
    }
}
impl<T: Id> Part for Option<&T> {
    fn put(&self, r: &mut Row) {
        r.c[T::T] = self.map_or(0, Id::id);
    }
}
trait Parts {
    fn row(&self) -> Row;
}
macro_rules! parts {
    ($($n:ident $i:tt),+) => {
        impl<$($n: Part),+> Parts for ($($n,)+) {
            fn row(&self) -> Row {
                let mut r = Row { e: None, c: [NO; NT] };
                $(self.$i.put(&mut r);)+
                r
            }
        }
    };
}
parts!(P 0);
parts!(P 0, Q 1);
parts!(P 0, Q 1, R 2);
parts!(P 0, Q 1, R 2, S 3);

const LAYOUTS: [&[u8]; 6] = [&[], &[3], &[3, 7], &[6], &[5, 7], &[7]];

fn layout(i: usize) -> GroupLayout {
    let mut g = GroupLayout::default();
    match i {
        0 => {}
        1 => g.add_group::<(A, B)>(),
        2 => {
            g.add_group::<(A, B, D)>();
            g.add_group::<(B, A)>();
        }
        3 => g.add_group::<(B, D)>(),
        4 => {
            g.add_group::<(D, A)>();
            g.add_group::<(A, B, D)>();
        }
        _ => g.add_group::<(A, B, D)>(),
    }
    g
}

#[derive(Clone, Copy, Default)]
struct Slot {
    ver: u32,
    /// Position in `live` plus one.
    at: u32,
    c: [u32; NT],
}

struct S {
    check: &'static str,
    w: World,
    slots: Vec<Slot>,
    live: Vec<Entity>,
    pending: Vec<Entity>,
    dead: Vec<Entity>,
    issued: HashSet<u64>,
    lay: usize,
    form: usize,
    next: u32,
    top: usize,
    peak: usize,
    cleared: bool,
    trace: Option<Vec<u64>>,
    what: String,
    log: Vec<String>,
    case: String,
}

/// Sets of components for creation, in various orders.
const BUNDLES: [&[usize]; 9] = [&[0, 1], &[0, 1, 2], &[0], &[1], &[2], &[1, 0], &[0, 2], &[2, 1, 0], &[]];

macro_rules! bundle {
    ($b:expr, $c:ident => $e:expr) => {
        match $b {
            0 => { type $c = (A, B); $e }
            1 => { type $c = (A, B, D); $e }
            2 => { type $c = (A,); $e }
            3 => { type $c = (B,); $e }
            4 => { type $c = (D,); $e }
            5 => { type $c = (B, A); $e }
            6 => { type $c = (A, D); $e }
            7 => { type $c = (D, B, A); $e }
            _ => { type $c = (); $e }
        }
    };
}

trait Make: Sized {
    fn make(ids: &[u32]) -> Self;
}
macro_rules! mk {
    ($($n:ident $i:tt),*) => {
        impl<$($n: Id),*> Make for ($($n,)*) {
            fn make(_ids: &[u32]) -> Self {
                ($($n::mk(_ids[$i]),)*)
            }
        }
    };
}
mk!();
mk!(P 0);
mk!(P 0, Q 1);
mk!(P 0, Q 1, R 2);

trait Taken {
    fn ids(&self) -> Vec<u32>;
}
macro_rules! taken {
    ($($n:ident $i:tt),*) => {
        impl<$($n: Id),*> Taken for ($(Option<$n>,)*) {
            fn ids(&self) -> Vec<u32> {
                vec![$(self.$i.as_ref().map_or(0, Id::id)),*]
            }
        }
    };
}
taken!();
taken!(P 0);
taken!(P 0, Q 1);
taken!(P 0, Q 1, R 2);

fn bits(b: u8, c: &[u32; NT]) -> bool {
    (0..NT).all(|t| b >> t & 1 == 0 || c[t] != 0)
}
fn none(b: u8, c: &[u32; NT]) -> bool {
    (0..NT).all(|t| b >> t & 1 == 0 || c[t] == 0)
}

/// One query shape: parts, include filter, exclude filter, types needed, types forbidden.
macro_rules! shapes {
    ($($f:ident $name:literal ($($p:ty),+) inc $i:ty, exc $x:ty, $need:literal $forbid:literal;)+) => {
        $(fn $f(s: &mut S, r: &mut Rng, st: &mut Stats) -> Out {
            let exp = s.count($need, $forbid);
            let dense = s.dense($need, $forbid);
            let n = exp.min(1 << 20);
            let mut q = s.w.query_all::<($($p,)+)>().include::<$i>().exclude::<$x>();
            let mut bad: Option<(&'static str, String)> = None;
            let mut rows: Vec<Row> = Vec::with_capacity(n);
            let mode = r.below(4);
            if s.check == "C07" || s.check == "C21" || s.check == "C18" {
                let it = q.iter();
                let h = it.size_hint();
                if dense && !(it.is_dense() && h == (exp, Some(exp))) {
                    bad = Some(("density", format!("the iterator is {}, its size hint {h:?}, the group holds {exp}", if it.is_dense() { "dense" } else { "sparse" })));
                }
            }
            if s.check == "C16" {
                let plain: Vec<Row> = { let mut v = vec![]; let mut it = q.iter(); while let Some(x) = it.next() { v.push(x.row()); } v };
                let k = [0, 1, 65_535, 65_536, 65_537, plain.len() / 2, plain.len(), plain.len() + 1][r.below(8)];
                let mut it = q.iter();
                let got = it.nth(k).map(|x| x.row());
                if got != plain.get(k).copied() {
                    bad = Some(("nth", format!("nth({k}) of {} items is {got:?}, next finds {:?}", plain.len(), plain.get(k))));
                }
                let left = plain.len().saturating_sub(k + 1);
                let h = it.size_hint();
                if h.0 > left || h.1.is_some_and(|x| x < left) {
                    bad = Some(("size-hint", format!("size hint {h:?} with {left} items to come")));
                }
                let rest = it.fold(vec![], |mut v, x| { v.push(x.row()); v });
                if rest != plain[plain.len() - left..] {
                    bad = Some(("fold", format!("fold after nth({k}) sees {} other items than next ({left})", rest.len())));
                }
                if q.iter().count() != plain.len() || q.iter().last().map(|x| x.row()) != plain.last().copied() {
                    bad = Some(("count", format!("count or last disagree with next, which finds {} items", plain.len())));
                }
                let mut it = q.iter();
                let taken: Vec<Row> = it.by_ref().take(k).map(|x| x.row()).collect();
                let rest: Vec<Row> = it.map(|x| x.row()).collect();
                if taken[..] != plain[..k.min(plain.len())] || rest[..] != plain[k.min(plain.len())..] {
                    bad = Some(("take", format!("take({k}) and the rest are not what next finds ({} items)", plain.len())));
                }
                st.add("iterators_consumed", 6);
                rows = plain;
            } else {
                match mode {
                    #[cfg(feature = "par")]
                    _ if s.check == "C13" => {
                        use rayon::iter::ParallelIterator;
                        if mode < 2 {
                            rows = q.par_iter().map(|x| x.row()).collect();
                        } else {
                            let m = Mutex::new(vec![]);
                            q.par_for_each(|x| m.lock().unwrap().push(x.row()));
                            rows = m.into_inner().unwrap();
                        }
                    }
                    0 => for x in q.iter() { rows.push(x.row()); },
                    1 => q.iter().for_each(|x| rows.push(x.row())),
                    2 => q.for_each(|x| rows.push(x.row())),
                    _ => { let mut it = q.iter(); while let Some(x) = it.next() { rows.push(x.row()); } }
                }
            }
            drop(q);
            st.add("queries", 1);
            st.add("rows_seen", rows.len() as u64);
            s.sig(st, &[hash($name), dense as u64, s.lay as u64, rows.len().max(1).ilog2().into()]);
            if let Some((o, m)) = bad {
                return s.fail(o, format!("query {}: {m}", $name));
            }
            if let Some(t) = &mut s.trace {
                t.push(rows.iter().fold(0, |a: u64, x| a.wrapping_add(x.hash())));
                t.push(rows.len() as u64);
                return Ok(());
            }
            if s.on(&["C04", "C13", "C18", "C21", "C07", "C03"]) {
                s.judge($name, &rows, exp, $need, $forbid)?;
            }
            // A sparse cursor over the same entities.
            if s.on(&["C05"]) {
                for _ in 0..2000 {
                    let e = s.anyone(r);
                    let want = s.comps(e).filter(|c| bits($need, c) && none($forbid, c));
                    let mut q = s.w.query_one::<($($p,)+)>().include::<$i>().exclude::<$x>();
                    let hit = q.contains(e);
                    let got = q.get(e).map(|x| x.row());
                    if hit != want.is_some() || got.is_some() != hit {
                        return s.fail("point-query", format!("query_one {} of {}: contains {hit}, get {got:?}, its components are {:?}", $name, show(e), s.comps(e)));
                    }
                    if let (Some(g), Some(c)) = (got, want) {
                        if g.e.is_some_and(|x| x != e) || (0..NT).any(|t| g.c[t] != NO && g.c[t] != c[t]) {
                            return s.fail("point-query", format!("query_one {} of {} got {g:?}, its components are {c:?}", $name, show(e)));
                        }
                    }
                }
                st.add("point_queries", 2000);
            }
            Ok(())
        })+
        const SHAPES: &[fn(&mut S, &mut Rng, &mut Stats) -> Out] = &[$($f),+];
    };
}

shapes! {
    q1 "&A" (Entity, &A) inc (), exc (), 1 0;
    q2 "&B" (Entity, &B) inc (), exc (), 2 0;
    q3 "&D" (Entity, &D) inc (), exc (), 4 0;
    q4 "&A,&B" (Entity, &A, &B) inc (), exc (), 3 0;
    q5 "&B,&D" (&B, Entity, &D) inc (), exc (), 6 0;
    q6 "&D,&A" (&D, &A, Entity) inc (), exc (), 5 0;
    q7 "&A,&B,&D" (Entity, &A, &B, &D) inc (), exc (), 7 0;
    q8 "&A,&B without D" (Entity, &A, &B) inc (), exc (&D), 3 4;
    q9 "&A without B" (Entity, &A) inc (), exc (&B), 1 2;
    q10 "&A with B" (Entity, &A) inc (&B), exc (), 3 0;
    q11 "&A with D without B" (Entity, &A) inc (&D), exc (&B), 5 2;
    q12 "&A,&B,Option<&D>" (Entity, &A, &B, Option<&D>) inc (), exc (), 3 0;
    q13 "&D,Option<&A>" (Entity, &D, Option<&A>) inc (), exc (), 4 0;
    q14 "&mut A,&B" (Entity, &mut A, &B) inc (), exc (), 3 0;
    q15 "&mut B with A,D" (Entity, &mut B) inc (&A, &D), exc (), 7 0;
}

impl Row {
    fn hash(&self) -> u64 {
        let mut h = Hash64::default();
        h.add(self.e.map_or(0, key));
        for c in self.c {
            h.add(c.into());
        }
        mix(h.0, 77)
    }
}
fn hash(s: &str) -> u64 {
    let mut h = Hash64::default();
    h.str(s);
    h.0
}

impl S {
    fn new(check: &'static str, lay: usize, form: usize, case: String) -> Self {
        LEDGER.lock().unwrap().clear();
        ALIVE.store(0, Relaxed);
        TWICE.store(0, Relaxed);
        let w = Self::world(lay);
        S {
            check,
            w,
            slots: vec![],
            live: vec![],
            pending: vec![],
            dead: vec![],
            issued: Default::default(),
            lay,
            form,
            next: 1,
            top: 0,
            peak: 0,
            cleared: false,
            trace: None,
            what: String::new(),
            log: vec![],
            case,
        }
    }
    fn world(lay: usize) -> World {
        let mut w = World::builder().set_layout(layout(lay)).build();
        w.register::<D>();
        w.register::<A>();
        w.register::<B>();
        w
    }
    fn on(&self, ids: &[&str]) -> bool {
        ids.contains(&self.check)
    }
    fn fail<T>(&self, oracle: &'static str, msg: String) -> Result<T, Found> {
        found(oracle, format!("{msg} (during: {})", self.what), self.case.clone(), self.log.join("\n"))
    }
    fn sig(&self, st: &mut Stats, x: &[u64]) {
        let mut h = Hash64::default();
        for &v in x {
            h.add(v);
        }
        h.add(self.live.len().max(1).ilog2().into()).add(self.pending.len().min(2) as u64).str(&self.what[..self.what.len().min(6)]);
        st.eval(Some(h.0));
    }
    fn step(&mut self, what: String) {
        self.log.push(what.clone());
        self.what = what;
    }
    fn comps(&self, e: Entity) -> Option<[u32; NT]> {
        let s = self.slots.get(e.index as usize)?;
        (s.at != 0 && s.ver == e.version.0.get()).then_some(s.c)
    }
    fn count(&self, need: u8, forbid: u8) -> usize {
        self.live.iter().filter(|e| {
            let c = &self.slots[e.index as usize].c;
            bits(need, c) && none(forbid, c)
        }).count()
    }
    /// Whether the layout has a group for exactly this (documented) or a single type is asked for.
    fn dense(&self, need: u8, forbid: u8) -> bool {
        let g = LAYOUTS[self.lay];
        if forbid != 0 {
            // The next larger group adds exactly the excluded types.
            return g.windows(2).any(|w| w[0] == need && w[1] == need | forbid);
        }
        need.count_ones() == 1 || g.contains(&need)
    }
    fn judge(&self, name: &str, rows: &[Row], exp: usize, need: u8, forbid: u8) -> Out {
        let mut seen = vec![false; self.slots.len()];
        for x in rows {
            let Some(e) = x.e else { continue };
            let Some(c) = self.comps(e) else {
                return self.fail("query-row", format!("query {name} yields {}, which is not live", show(e)));
            };
            if std::mem::replace(&mut seen[e.index as usize], true) {
                return self.fail("query-row", format!("query {name} yields {} twice", show(e)));
            }
            if !bits(need, &c) || !none(forbid, &c) || (0..NT).any(|t| x.c[t] != NO && x.c[t] != c[t]) {
                return self.fail("query-row", format!("query {name} yields {x:?}, the components of {} are {c:?}", show(e)));
            }
        }
        if rows.len() != exp {
            return self.fail("query-rows", format!("query {name} yields {} entities, {exp} match", rows.len()));
        }
        Ok(())
    }
    /// A handle of any kind, mostly live.
    fn anyone(&self, r: &mut Rng) -> Entity {
        match r.below(12) {
            0 if !self.dead.is_empty() => *r.pick(&self.dead),
            1 if !self.pending.is_empty() => *r.pick(&self.pending),
            2 => ent(r.below(400_000) as u32, 1 + r.below(5) as u32),
            3 if !self.live.is_empty() => {
                // The index of a live one with 16 bits more.
                let e = *r.pick(&self.live);
                ent(e.index ^ 0x1_0000, e.version.0.get())
            }
            _ if !self.live.is_empty() => *r.pick(&self.live),
            _ => ent(0, 1),
        }
    }

    // What the library issued.
    fn issue(&mut self, e: Entity) -> Out {
        if !self.issued.insert(key(e)) && self.on(&["C01"]) {
            return self.fail("handle-reissued", format!("{} was issued before", show(e)));
        }
        self.top = self.top.max(e.index as usize + 1);
        self.peak = self.peak.max(self.live.len() + self.pending.len() + 1);
        if let Some(t) = &mut self.trace {
            t.push(key(e));
        }
        if self.on(&["C20"]) && !self.cleared && self.top > self.peak {
            return self.fail("fresh-index", format!("index {} was taken, though at most {} entities existed at any time", e.index, self.peak - 1));
        }
        Ok(())
    }
    fn born(&mut self, e: Entity, types: &[usize], ids: &[u32]) -> Out {
        let i = e.index as usize;
        if self.slots.len() <= i {
            self.slots.resize(i + 1, Slot::default());
        }
        if self.slots[i].at != 0 {
            // Reported as what it breaks; nothing else can be judged afterwards.
            return self.fail("handle-reissued", format!("{} was issued while {}v{} is live", show(e), i, self.slots[i].ver));
        }
        self.live.push(e);
        let mut c = [0; NT];
        for (&t, &id) in types.iter().zip(ids) {
            c[t] = id;
        }
        self.slots[i] = Slot { ver: e.version.0.get(), at: self.live.len() as u32, c };
        Ok(())
    }
    fn gone(&mut self, e: Entity) {
        let s = &mut self.slots[e.index as usize];
        let at = s.at as usize - 1;
        *s = Slot { ver: s.ver, ..Slot::default() };
        self.live.swap_remove(at);
        if let Some(m) = self.live.get(at) {
            self.slots[m.index as usize].at = at as u32 + 1;
        }
        if self.dead.len() < 150_000 {
            self.dead.push(e);
        }
    }
    fn ids(&mut self, n: usize) -> Vec<u32> {
        self.next += n as u32;
        (self.next - n as u32..self.next).collect()
    }

    // Operations.
    fn create(&mut self, b: usize) -> Out {
        let types = BUNDLES[b];
        let ids = self.ids(types.len());
        let e = match self.form {
            0 => bundle!(b, C => self.w.create(C::make(&ids))),
            _ => {
                let e = self.w.create(());
                bundle!(b, C => self.w.insert(e, C::make(&ids)));
                e
            }
        };
        self.issue(e)?;
        self.born(e, types, &ids)
    }
    fn extend(&mut self, b: usize, n: usize) -> Out {
        let types = BUNDLES[b];
        let k = types.len();
        let ids = self.ids(n * k);
        let es = match self.form {
            0 => bundle!(b, C => self.w.extend((0..n).map(|i| C::make(&ids[i * k..(i + 1) * k]))).to_vec()),
            1 => (0..n).map(|i| bundle!(b, C => self.w.create(C::make(&ids[i * k..(i + 1) * k])))).collect(),
            _ => (0..n)
                .map(|i| {
                    let e = self.w.create(());
                    bundle!(b, C => self.w.insert(e, C::make(&ids[i * k..(i + 1) * k])));
                    e
                })
                .collect::<Vec<_>>(),
        };
        if es.len() != n {
            return self.fail("extend-length", format!("extend of {n} rows returned {} entities", es.len()));
        }
        for (i, e) in es.into_iter().enumerate() {
            self.issue(e)?;
            self.born(e, types, &ids[i * k..(i + 1) * k])?;
        }
        Ok(())
    }
    fn insert(&mut self, e: Entity, b: usize) -> Out {
        let types = BUNDLES[b];
        let ids = self.ids(types.len());
        let ok = bundle!(b, C => self.w.insert(e, C::make(&ids)));
        let live = self.comps(e).is_some();
        self.result("insert", e, ok, live)?;
        if live {
            for (&t, &id) in types.iter().zip(&ids) {
                self.slots[e.index as usize].c[t] = id;
            }
        }
        Ok(())
    }
    fn result(&mut self, op: &str, e: Entity, got: bool, want: bool) -> Out {
        if let Some(t) = &mut self.trace {
            t.push(got.into());
        }
        if got != want && self.on(&["C02", "C18", "C21"]) {
            return self.fail("result", format!("{op} of {} reports {got}, should be {want}", show(e)));
        }
        Ok(())
    }
    fn remove(&mut self, e: Entity, b: usize) -> Out {
        let types = BUNDLES[b];
        let got = bundle!(b, C => self.w.remove::<C>(e).ids());
        let c = self.comps(e);
        let want: Vec<u32> = types.iter().map(|&t| c.map_or(0, |c| c[t])).collect();
        if let Some(t) = &mut self.trace {
            t.extend(got.iter().map(|&x| u64::from(x)));
        }
        if got != want && self.on(&["C03", "C18", "C21"]) {
            return self.fail("removed", format!("remove of {:?} from {} returned {got:?}, should be {want:?}", names(types), show(e)));
        }
        self.lose(e, types);
        Ok(())
    }
    fn lose(&mut self, e: Entity, types: &[usize]) {
        if self.comps(e).is_some() {
            for &t in types {
                self.slots[e.index as usize].c[t] = 0;
            }
        }
    }
    fn delete(&mut self, e: Entity, b: usize) {
        bundle!(b, C => self.w.delete::<C>(e));
        self.lose(e, BUNDLES[b]);
    }
    fn destroy(&mut self, e: Entity) -> Out {
        if self.form == 2 {
            self.w.delete::<(D, A, B)>(e);
        }
        let ok = self.w.destroy(e);
        let live = self.comps(e).is_some();
        self.result("destroy", e, ok, live)?;
        if live {
            self.gone(e);
        }
        Ok(())
    }
    fn atomic(&mut self, n: usize) -> Out {
        for _ in 0..n {
            let e = self.w.create_atomic();
            self.issue(e)?;
            self.pending.push(e);
        }
        Ok(())
    }
    fn maintain(&mut self) -> Out {
        self.w.maintain();
        for e in std::mem::take(&mut self.pending) {
            self.born(e, &[], &[])?;
        }
        Ok(())
    }

    // Oracles over the whole world.
    fn audit(&mut self, r: &mut Rng, st: &mut Stats) -> Out {
        st.add("audits", 1);
        st.max("most_live_entities", self.live.len() as u64);
        st.max("most_pending_entities", self.pending.len() as u64);
        if self.on(&["C01", "C02", "C18", "C21"]) {
            self.liveness(r, st)?;
        }
        if self.on(&["C03", "C05", "C18", "C21", "C25", "C10"]) {
            self.views::<A>(r, st)?;
            self.views::<B>(r, st)?;
            self.views::<D>(r, st)?;
        }
        if self.on(&["C09", "C21", "C18", "C10"]) {
            let want = self.live.iter().filter(|e| self.slots[e.index as usize].c[2] != 0).count() as i64;
            let have = ALIVE.load(Relaxed);
            let twice = TWICE.load(Relaxed);
            let lost = {
                let l = LEDGER.lock().unwrap();
                self.live.iter().map(|e| self.slots[e.index as usize].c[2]).find(|&id| id != 0 && !l[id as usize])
            };
            self.sig(st, &[9, want.max(1).ilog2().into(), self.lay as u64]);
            if have != want || twice != 0 || lost.is_some() {
                return self.fail("drop-ledger", format!("{have} values are alive, the world owns {want}; dropped twice: {}; dropped early: {lost:?}", twice - 1));
            }
        }
        if self.on(&["C08", "C25", "C21"]) {
            self.slices(st)?;
        }
        if self.trace.is_some() {
            let h = self.w.entities().iter().fold(0u64, |a, &e| a.wrapping_add(mix(key(e), 5)));
            self.trace.as_mut().unwrap().push(h);
        }
        if self.on(&["C04", "C05", "C06", "C07", "C10", "C13", "C16", "C18", "C21", "C22"]) {
            for f in SHAPES {
                f(self, r, st)?;
            }
        }
        Ok(())
    }
    fn liveness(&self, r: &mut Rng, st: &mut Stats) -> Out {
        let es = self.w.entities();
        self.sig(st, &[2, es.len().max(1).ilog2().into()]);
        if es.len() != self.live.len() || self.w.is_empty() != self.live.is_empty() {
            return self.fail("entities", format!("entities() lists {} entities, is_empty is {}, {} are live", es.len(), self.w.is_empty(), self.live.len()));
        }
        let mut seen = vec![false; self.slots.len()];
        for &e in es {
            if self.comps(e).is_none() || std::mem::replace(&mut seen[e.index as usize], true) {
                return self.fail("entities", format!("entities() lists {}, which is not live or was listed before", show(e)));
            }
        }
        if let Some(&e) = self.live.iter().find(|&&e| !self.w.contains_entity(e)) {
            return self.fail("contains", format!("contains_entity({}) is false", show(e)));
        }
        if let Some(&e) = self.dead.iter().chain(&self.pending).find(|&&e| self.w.contains_entity(e)) {
            return self.fail("contains", format!("contains_entity({}) is true, it is dead or pending", show(e)));
        }
        for _ in 0..5000 {
            let e = self.anyone(r);
            if self.w.contains_entity(e) != self.comps(e).is_some() {
                return self.fail("contains", format!("contains_entity({}) is {}", show(e), self.w.contains_entity(e)));
            }
        }
        st.add("handles_checked", (self.live.len() + self.dead.len() + self.pending.len() + 5000) as u64);
        Ok(())
    }
    fn views<T: Id>(&self, r: &mut Rng, st: &mut Stats) -> Out {
        let v = self.w.borrow::<T>();
        let n = NAMES[T::T];
        let mut owners = 0;
        for &e in &self.live {
            let want = self.slots[e.index as usize].c[T::T];
            let got = v.get(e).map_or(0, Id::id);
            owners += usize::from(want != 0);
            if got != want || v.contains(e) != (want != 0) {
                return self.fail("component", format!("{} has {n} {got}, contains is {}, should be {want}", show(e), v.contains(e)));
            }
        }
        self.sig(st, &[3, T::T as u64, self.lay as u64, owners.max(1).ilog2().into()]);
        st.add("components_compared", self.live.len() as u64);
        for _ in 0..5000 {
            let e = self.anyone(r);
            let want = self.comps(e).map_or(0, |c| c[T::T]);
            if v.get(e).map_or(0, Id::id) != want {
                return self.fail("component", format!("{} has {n} {:?}, should be {want}", show(e), v.get(e).map(Id::id)));
            }
        }
        if v.len() != owners || v.entities().len() != owners || v.as_slice().len() != owners {
            return self.fail("view-length", format!("the view of {n} has {} items, {owners} entities own one", v.len()));
        }
        for (e, x) in v.entities().iter().zip(v.as_slice()) {
            if self.comps(*e).map_or(0, |c| c[T::T]) != x.id() {
                return self.fail("view-order", format!("the view of {n} lists {} with {}, the entity has {:?}", show(*e), x.id(), self.comps(*e)));
            }
        }
        Ok(())
    }
    fn slices(&self, st: &mut Stats) -> Out {
        macro_rules! sl {
            ($name:literal $q:ty, $need:literal, $($v:ident $t:ty),+) => {
                let dense = self.dense($need, 0);
                let exp = self.count($need, 0);
                let mut q = self.w.query_all::<$q>();
                let got = q.slice();
                self.sig(st, &[8, $need, self.lay as u64, exp.max(1).ilog2().into()]);
                if got.is_some() != dense && self.check == "C08" {
                    return self.fail("slice", format!("slice of {} is {}", $name, if dense { "missing" } else { "offered without a group" }));
                }
                if let Some((es, $($v),+)) = got {
                    $(if $v.len() != es.len() {
                        return self.fail("slice-length", format!("slices of {} have {} and {} rows", $name, es.len(), $v.len()));
                    })+
                    let rows: Vec<Row> = (0..es.len()).map(|i| {
                        let mut x = Row { e: Some(es[i]), c: [NO; NT] };
                        $(x.c[<$t>::T] = $v[i].id();)+
                        x
                    }).collect();
                    st.add("slice_rows", rows.len() as u64);
                    self.judge($name, &rows, exp, $need, 0)?;
                }
            };
        }
        sl!("A" (Entity, &A), 1, a A);
        sl!("A,B" (Entity, &A, &B), 3, a A, b B);
        sl!("A,D" (Entity, &D, &A), 5, d D, a A);
        sl!("B,D" (Entity, &B, &D), 6, b B, d D);
        sl!("A,B,D" (Entity, &A, &B, &D), 7, a A, b B, d D);
        Ok(())
    }
    /// Rewrites values through mutable access; the views tell afterwards whether the right ones were.
    fn rewrite(&mut self, r: &mut Rng, st: &mut Stats) -> Out {
        let base = self.next;
        self.next += 1_000_000;
        let plan = |e: Entity| base + e.index;
        let mut mask = (0u8, 0u8, 0u8);
        let how = r.below(6);
        match how {
            0 => self.w.query_all::<(Entity, &mut A, &B)>().for_each(|(e, a, _)| {
                *a = A::mk(plan(e));
                mask = (3, 0, 1);
            }),
            1 => {
                for (b, e) in self.w.query_all::<(&mut B, Entity)>().exclude::<(&D,)>().iter() {
                    *b = B::mk(plan(e));
                }
                mask = (2, 4, 2);
            }
            2 => {
                for (a, b, e) in self.w.query_all::<(&mut A, &mut B, Entity)>().include::<(&D,)>().iter() {
                    *a = A::mk(plan(e));
                    *b = B::mk(plan(e));
                }
                mask = (7, 0, 3);
            }
            3 => {
                let mut v = self.w.borrow_mut::<A>();
                let es = v.entities().to_vec();
                for (x, e) in v.as_mut_slice().iter_mut().zip(es) {
                    *x = A::mk(plan(e));
                }
                mask = (1, 0, 1);
            }
            4 => {
                if let Some((es, a, b)) = self.w.query_all::<(Entity, &mut A, &mut B)>().slice() {
                    for ((e, a), b) in es.iter().zip(a).zip(b) {
                        *a = A::mk(plan(*e));
                        *b = B::mk(plan(*e));
                    }
                    mask = (3, 0, 3);
                }
            }
            _ => {
                let mut v = self.w.borrow_mut::<B>();
                for &e in &self.live {
                    if let Some(b) = v.get_mut(e) {
                        *b = B::mk(plan(e));
                    }
                }
                mask = (2, 0, 2);
            }
        }
        self.step(format!("rewriting through mutable access {how}"));
        if mask.2 != 0 {
            for e in &self.live {
                let s = &mut self.slots[e.index as usize];
                if bits(mask.0, &s.c) && none(mask.1, &s.c) {
                    for t in 0..NT {
                        if mask.2 >> t & 1 == 1 {
                            s.c[t] = plan(*e);
                            st.add("values_rewritten", 1);
                        }
                    }
                }
            }
        }
        self.audit(r, st)
    }

    fn relayout(&mut self, r: &mut Rng, st: &mut Stats, to: usize) -> Out {
        // Runs that are compared stay under their own layout or change at the same time.
        self.step(format!("set_layout {:?} with {} entities", LAYOUTS[to], self.live.len()));
        self.w.set_layout(&layout(to));
        self.lay = to;
        self.audit(r, st)
    }

    fn history(&mut self, r: &mut Rng, st: &mut Stats, size: usize, shift: usize) -> Out {
        for round in 0..2 {
            self.step(format!("filling with {size} entities"));
            let mut left = size;
            while left > 0 {
                let n = (1 + r.below(size)).min(left);
                left -= n;
                let b = if r.chance(1, 2) { r.below(2) } else { r.below(BUNDLES.len()) };
                if n < 3000 {
                    for _ in 0..n {
                        self.create(b)?;
                    }
                } else {
                    self.extend(b, n)?;
                }
            }
            self.audit(r, st)?;
            if self.on(&["C25"]) {
                for _ in 0..4 {
                    self.rewrite(r, st)?;
                }
            }
            self.step("20000 random operations".into());
            self.mix_ops(r, 20_000)?;
            self.audit(r, st)?;
            let to = (r.below(LAYOUTS.len()) + shift) % LAYOUTS.len();
            self.relayout(r, st, to)?;
            self.step("10000 random operations after set_layout".into());
            self.mix_ops(r, 10_000)?;
            self.audit(r, st)?;
            let keep = r.below(self.live.len() / 3 + 1);
            self.step(format!("destroying all but {keep} of {}", self.live.len()));
            while self.live.len() > keep {
                let e = *r.pick(&self.live);
                self.destroy(e)?;
            }
            st.max("most_recycled_indices", (self.top - self.live.len() - self.pending.len()) as u64);
            self.audit(r, st)?;
            let n = r.below(self.top + 2000);
            self.step(format!("drawing {n} entities atomically"));
            self.atomic(n)?;
            let m = r.below(3000);
            for _ in 0..m {
                let b = r.below(BUNDLES.len());
                self.create(b)?;
            }
            self.audit(r, st)?;
            self.step("maintain".into());
            self.maintain()?;
            self.audit(r, st)?;
            self.step("giving components to the maintained ones".into());
            let es: Vec<Entity> = self.live.clone();
            for e in es {
                let b = r.below(BUNDLES.len() + 4);
                if b < BUNDLES.len() {
                    self.insert(e, b)?;
                }
            }
            self.audit(r, st)?;
            if round == 0 {
                let reset = r.chance(1, 2) || self.on(&["C20"]);
                self.step(if reset { "reset" } else { "clear" }.to_string());
                if reset {
                    self.w.reset();
                    self.issued.clear();
                    self.dead.clear();
                    self.top = 0;
                    self.peak = 0;
                    self.cleared = false;
                } else {
                    self.w.clear();
                    self.cleared = true;
                    let gone: Vec<Entity> = self.live.iter().chain(&self.pending).copied().take(100_000).collect();
                    self.dead.extend(gone);
                }
                self.live.clear();
                self.pending.clear();
                self.slots.iter_mut().for_each(|s| *s = Slot::default());
                self.audit(r, st)?;
                if reset && self.on(&["C18"]) {
                    let mut twin = Self::world(self.lay);
                    self.step(format!("{size} entities after reset and in a new world"));
                    let a = self.w.extend((0..size).map(|i| (A(i as u32 + 1),))).to_vec();
                    let b = twin.extend((0..size).map(|i| (A(i as u32 + 1),))).to_vec();
                    if a != b {
                        return self.fail("reset-twin", "the handles after reset differ from those of a new world".into());
                    }
                    for e in a {
                        let id = e.index + 1;
                        self.issue(e)?;
                        self.born(e, &[0], &[id])?;
                    }
                    // Values are numbered by position.
                    for (i, &e) in b.iter().enumerate() {
                        self.slots[e.index as usize].c[0] = i as u32 + 1;
                    }
                    self.audit(r, st)?;
                }
            }
        }
        Ok(())
    }
    fn mix_ops(&mut self, r: &mut Rng, n: usize) -> Out {
        for _ in 0..n {
            let b = r.below(BUNDLES.len());
            let e = if r.chance(1, 20) { self.anyone(r) } else if self.live.is_empty() { ent(0, 1) } else { *r.pick(&self.live) };
            match r.below(12) {
                0..=2 => self.insert(e, b)?,
                3..=5 => self.remove(e, b)?,
                6 | 7 => self.delete(e, b),
                8 | 9 => self.destroy(e)?,
                10 => self.create(b)?,
                _ if r.chance(1, 40) => {
                    let n = r.below(300);
                    self.extend(b, n)?
                }
                _ => self.atomic(1)?,
            }
        }
        self.maintain()
    }
}

fn names(t: &[usize]) -> Vec<&'static str> {
    t.iter().map(|&t| NAMES[t]).collect()
}

/// Memory after cycles that end with an empty world.
fn cycles(r: &mut Rng, st: &mut Stats, size: usize, case: String) -> Out {
    let before = live_bytes();
    let mut w = World::builder().add_group::<(A, B)>().build();
    let bundle = r.below(3);
    let mut held = vec![];
    for c in 0..6 {
        let es = match bundle {
            0 => w.extend((0..size).map(|i| (A(i as u32), B::mk(1)))).to_vec(),
            1 => w.extend((0..size).map(|i| (A(i as u32),))).to_vec(),
            _ => {
                let v: Vec<Entity> = (0..size).map(|_| w.create_atomic()).collect();
                w.maintain();
                v
            }
        };
        let most = es.iter().map(|e| e.index as usize).max().unwrap_or(0);
        if most >= size {
            return found("fresh-index", format!("cycle {c}: index {most} was taken with {size} entities and all earlier ones destroyed"), case, "");
        }
        for e in es {
            w.destroy(e);
        }
        held.push(live_bytes() - before);
        st.add("large_cycles", 1);
        st.eval(Some(mix(bundle as u64, (size as u64).ilog2().into())));
    }
    if held[5] > held[1] + held[1] / 4 + 4096 && held[5] > held[3] {
        return found("growth", format!("memory after each cycle of {size} entities: {held:?}"), case, "");
    }
    drop(w);
    let left = live_bytes() - before;
    if left > 64 * 1024 {
        return found("leak", format!("{left} bytes are left after the world of {size} entities was dropped"), case, "");
    }
    Ok(())
}

pub fn run(check: &'static str, env: &Env, st: &mut Stats) -> Out {
    let mut k = 0u64;
    while !env.out_of_time() || k == 0 {
        let seed = mix(mix(env.seed, env.shard), k + 0x5ca1e);
        let mut r = Rng::new(seed);
        // Mostly just beyond 2^16 and 2^17.
        let size = if cfg!(miri) { 300 } else { *r.pick(&[70_000, 66_000, 80_000, 110_000, 135_000, 140_000, 40_000]) };
        let lay = (env.shard as usize + k as usize) % LAYOUTS.len();
        let case = format!("scale script {k}, seed {seed:#x}, {size} entities, groups {:?}", LAYOUTS[lay]);
        env.note_case(&case);
        st.sample(4, || case.clone());
        let mut play = |lay: usize, form: usize, shift: usize, traced: bool, st: &mut Stats| -> Result<(Vec<u64>, usize), Found> {
            let mut r = Rng::new(seed ^ 1);
            let mut s = S::new(check, lay, form, case.clone());
            if traced {
                s.trace = Some(vec![]);
            }
            s.history(&mut r, st, size, shift)?;
            let t = s.trace.take().unwrap_or_default();
            let n = s.live.len();
            if s.on(&["C09"]) {
                let S { w, .. } = s;
                drop(w);
                if ALIVE.load(Relaxed) != 0 || TWICE.load(Relaxed) != 0 {
                    return found("drop-ledger", format!("{} values are alive after the world was dropped", ALIVE.load(Relaxed)), case.clone(), "");
                }
            }
            Ok((t, n))
        };
        match check {
            "C06" | "C22" => {
                let (a, n) = play(lay, 0, 0, true, st)?;
                for i in 1..3 {
                    let (b, _) = if check == "C06" { play((lay + i) % LAYOUTS.len(), 0, i, true, st)? } else { play(lay, i, 0, true, st)? };
                    st.add("runs_compared", 1);
                    st.eval(Some(mix(a.len() as u64, n as u64)));
                    if a != b {
                        let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                        let how = if check == "C06" { "layouts" } else { "forms of the operations" };
                        return found("differential", format!("two {how} disagree in result {at} of {}", a.len()), case.clone(), "");
                    }
                }
            }
            "C20" => {
                play(lay, 0, 0, false, st)?;
                cycles(&mut r, st, size, case.clone())?;
            }
            _ => {
                play(lay, 0, 0, false, st)?;
            }
        }
        st.add("scale_scripts", 1);
        k += 1;
    }
    Ok(())
}

// Only to be sure that tuples are queries.
#[allow(dead_code)]
fn _is_query<Q: Query>() {}
