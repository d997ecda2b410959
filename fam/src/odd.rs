//! Component types of unusual kinds: zero-sized, padded, huge, page-aligned, with niches, owning, and types of the crate itself.

use crate::hist::Found;
use crate::kit::key;
use sparsey::component::{ComponentData, GroupLayout};
use sparsey::{Entity, World};
use std::marker::PhantomData;
use std::num::NonZeroU64;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use vcommon::{guard, mix, Env, HashMap, Rng, Stats, Viol};

type R<T = ()> = Result<T, Viol>;

trait Odd: Send + Sync + Sized + 'static {
    /// The bits of an id a value can carry.
    const MASK: u32;
    fn mk(id: u32) -> Self;
    fn id(&self) -> u32;
}

const BAD: u32 = u32::MAX;

macro_rules! odd {
    ($t:ty, $mask:expr, |$i:ident| $mk:expr, |$s:ident| $id:expr) => {
        impl Odd for $t {
            const MASK: u32 = $mask;
            fn mk($i: u32) -> Self {
                $mk
            }
            fn id(&self) -> u32 {
                let $s = self;
                $id
            }
        }
    };
}

pub struct Big([u8; 5000]);
pub struct Huge([u32; 18_000]);
#[repr(align(4096))]
pub struct Page(u32);
#[repr(align(64))]
pub struct ZeroWide;
#[allow(dead_code)]
pub enum Enum {
    A,
    B(u8),
    C { x: u16, y: Box<u16> },
}
pub struct Counted(Arc<()>, u32);
#[repr(C)]
pub struct Padded(u8, u32, u8);

thread_local! {
    static COUNT: Arc<()> = Arc::new(());
}
fn counted_alive() -> usize {
    COUNT.with(Arc::strong_count) - 1
}

odd!((), 0, |_i| (), |_s| 0);
odd!(bool, 1, |i| i == 1, |s| u32::from(*s));
odd!(char, 0x3fff, |i| char::from_u32(0x10000 + i).unwrap(), |s| (*s as u32).wrapping_sub(0x10000));
odd!(String, 0xffff, |i| i.to_string(), |s| s.parse().unwrap_or(BAD));
odd!(Box<dyn Fn() -> u32 + Send + Sync>, 0xffff, |i| Box::new(move || i), |s| s());
odd!(Option<Box<u32>>, 0xff, |i| (i > 0).then(|| Box::new(i)), |s| s.as_ref().map_or(0, |b| **b));
odd!(Big, 0xff, |i| Big([i as u8; 5000]), |s| if s.0.iter().all(|&b| b == s.0[0]) { u32::from(s.0[0]) } else { BAD });
odd!(Huge, 0xffff, |i| Huge([i; 18_000]), |s| if s.0.iter().all(|&b| b == s.0[0]) { s.0[0] } else { BAD });
odd!(Page, 0xffff, |i| Page(i), |s| s.0);
odd!(Entity, 0xffff, |i| Entity::with_index(i), |s| s.index);
odd!(World, 0xffff, |i| {
    let mut w = World::default();
    w.register::<u32>();
    w.create((i,));
    w
}, |s| {
    let v = s.borrow::<u32>();
    if v.len() == 1 { v.as_slice()[0] } else { BAD }
});
odd!(Counted, 0xffff, |i| Counted(COUNT.with(Clone::clone), i), |s| if Arc::strong_count(&s.0) > 1 { s.1 } else { BAD });
odd!(fn() -> u32, 3, |i| [|| 0, || 1, || 2, || 3][i as usize], |s| s());
odd!(Vec<Option<Box<[u16]>>>, 0xff, |i| vec![None, Some(vec![i as u16; 1 + i as usize % 7].into())], |s| s.get(1).and_then(|b| b.as_ref()).map_or(BAD, |b| u32::from(b[0])));
odd!(NonZeroU64, 0xffff, |i| NonZeroU64::new(u64::from(i) + 1).unwrap(), |s| s.get() as u32 - 1);
odd!(Enum, 0xff, |i| match i % 3 {
    0 if i == 0 => Enum::A,
    1 => Enum::B(i as u8),
    _ => Enum::C { x: i as u16, y: Box::new(i as u16) },
}, |s| match s {
    Enum::A => 0,
    Enum::B(x) => u32::from(*x),
    Enum::C { x, y } => if x == &**y { u32::from(*x) } else { BAD },
});
odd!([u8; 3], 0xff, |i| [i as u8; 3], |s| if s[0] == s[1] && s[1] == s[2] { u32::from(s[0]) } else { BAD });
odd!(&'static str, 1, |i| ["", "one"][i as usize], |s| u32::from(!s.is_empty()));
odd!(PhantomData<u64>, 0, |_i| PhantomData, |_s| 0);
odd!(ZeroWide, 0, |_i| ZeroWide, |_s| 0);
odd!([u128; 0], 0, |_i| [], |_s| 0);
odd!(Padded, 0xff, |i| Padded(i as u8, !i, i as u8), |s| if s.1 == !u32::from(s.0) && s.0 == s.2 { u32::from(s.0) } else { BAD });
odd!(f32, 0xff, |i| f32::from_bits(0x7fc0_0000 | i), |s| s.to_bits() & 0xff);
odd!(AtomicU32, 0xffff, |i| AtomicU32::new(i), |s| s.load(Relaxed));
odd!(Mutex<u8>, 0xff, |i| Mutex::new(i as u8), |s| u32::from(*s.lock().unwrap()));
odd!(ComponentData, 1, |i| if i == 0 { ComponentData::new::<u8>() } else { ComponentData::new::<u16>() }, |s| u32::from(*s == ComponentData::new::<u16>()));

/// A value's id; a reference of the wrong alignment has none.
fn see<T: Odd>(x: &T) -> u32 {
    if std::hint::black_box(std::ptr::from_ref(x)) as usize % std::mem::align_of::<T>() != 0 {
        return BAD;
    }
    x.id()
}

struct Got {
    dense: bool,
    rows: Vec<(u64, u32, u32)>,
    slices: Option<Vec<(u64, u32, u32)>>,
    lens: [usize; 3],
}

/// Operations on one type, and on it together with the next one.
struct Ops {
    name: &'static str,
    mask: u32,
    huge: bool,
    data: fn() -> ComponentData,
    register: fn(&mut World) -> bool,
    create: fn(&mut World, u32) -> Entity,
    extend: fn(&mut World, &[(u32, u32)]) -> Vec<Entity>,
    insert: fn(&mut World, Entity, u32) -> bool,
    insert2: fn(&mut World, Entity, u32, u32) -> bool,
    remove: fn(&mut World, Entity) -> Option<u32>,
    remove2: fn(&mut World, Entity) -> (Option<u32>, Option<u32>),
    delete: fn(&mut World, Entity),
    get: fn(&World, Entity) -> [Option<u32>; 3],
    all: fn(&World) -> (Vec<(u64, u32)>, Vec<(u64, u32)>),
    pair: fn(&World) -> Got,
    rewrite: fn(&World, u32) -> Vec<u64>,
}

fn ops<A: Odd, B: Odd>() -> Ops {
    Ops {
        name: std::any::type_name::<A>(),
        mask: A::MASK,
        huge: std::mem::size_of::<A>() + std::mem::size_of::<B>() > 4000,
        data: ComponentData::new::<A>,
        register: World::register::<A>,
        create: |w, a| w.create((A::mk(a),)),
        extend: |w, v| w.extend(v.iter().map(|&(a, b)| (A::mk(a), B::mk(b)))).to_vec(),
        insert: |w, e, a| w.insert(e, (A::mk(a),)),
        insert2: |w, e, a, b| w.insert(e, (B::mk(b), A::mk(a))),
        remove: |w, e| w.remove::<(A,)>(e).0.map(|a| see(&a)),
        remove2: |w, e| {
            let (a, b) = w.remove::<(A, B)>(e);
            (a.map(|a| see(&a)), b.map(|b| see(&b)))
        },
        delete: |w, e| w.delete::<(A,)>(e),
        get: |w, e| {
            let a = w.borrow::<A>().get(e).map(see);
            let b = w.query_one::<&mut A>().get(e).map(|a| see(a));
            let c = w.query_one::<Option<&A>>().get(e).and_then(|a| a.map(see));
            [a, b, c]
        },
        all: |w| {
            let v = w.borrow::<A>();
            if v.as_slice().as_ptr() as usize % std::mem::align_of::<A>() != 0 || v.len() != v.as_slice().len() {
                return (vec![(0, BAD)], vec![]);
            }
            let a = v.entities().iter().map(|&e| key(e)).zip(v.as_slice().iter().map(see)).collect();
            drop(v);
            let mut b = vec![];
            w.for_each::<(&A, Entity)>(|(a, e)| b.push((key(e), see(a))));
            (a, b)
        },
        pair: |w| {
            let mut q = w.query_all::<(Entity, &mut A, &B)>();
            let dense = q.iter().is_dense();
            let rows = q.iter().map(|(e, a, b)| (key(e), see(a), see(b))).collect();
            let mut lens = [0; 3];
            let slices = q.slice().map(|(e, a, b)| {
                lens = [e.len(), a.len(), b.len()];
                e.iter().zip(a.iter()).zip(b).map(|((e, a), b)| (key(*e), see(a), see(b))).collect()
            });
            Got { dense, rows, slices, lens }
        },
        rewrite: |w, id| {
            let mut out = vec![];
            w.for_each::<(&mut A, &B, Entity)>(|(a, _, e)| {
                *a = A::mk(id);
                out.push(key(e));
            });
            out
        },
    }
}

macro_rules! ring {
    (@ [$first:ty] $a:ty, $b:ty $(, $rest:ty)*; $($out:expr,)*) => { ring!(@ [$first] $b $(, $rest)*; $($out,)* ops::<$a, $b>(),) };
    (@ [$first:ty] $a:ty; $($out:expr,)*) => { vec![$($out,)* ops::<$a, $first>()] };
    ($first:ty $(, $rest:ty)*) => { ring!(@ [$first] $first $(, $rest)*;) };
}

fn table() -> Vec<Ops> {
    ring!(
        (), bool, String, Page, char, Box<dyn Fn() -> u32 + Send + Sync>, ZeroWide, Option<Box<u32>>, Big, Entity, World, Counted, fn() -> u32,
        PhantomData<u64>, Vec<Option<Box<[u16]>>>, NonZeroU64, Huge, [u128; 0], Enum, [u8; 3], Padded, &'static str, f32, AtomicU32, Mutex<u8>, ComponentData
    )
}

struct S<'a> {
    check: &'a str,
    t: &'a [Ops],
    w: World,
    live: Vec<Entity>,
    gone: Vec<Entity>,
    m: Vec<HashMap<u64, u32>>,
    pairs: Vec<bool>,
    /// Values of the next type are carried in the same tuple; ids count up.
    next: u32,
    counted: usize,
}

impl S<'_> {
    fn report(&self, owner: &[&str], oracle: &'static str, msg: impl FnOnce() -> String) -> R {
        if owner.contains(&self.check) {
            return Err(Viol { oracle, msg: msg() });
        }
        Ok(())
    }
    fn id(&mut self, t: usize) -> u32 {
        self.next += 1;
        self.next & self.t[t].mask
    }
    fn after(&self, t: usize) -> usize {
        (t + 1) % self.t.len()
    }
    fn relayout(&mut self, r: &mut Rng) -> GroupLayout {
        let n = self.t.len();
        self.pairs = vec![false; n];
        let mut used = vec![false; n];
        let mut l = GroupLayout::default();
        for _ in 0..r.range(0, 9) {
            let (a, k) = (r.below(n), r.range(2, 4));
            let g: Vec<usize> = (0..k).map(|i| (a + i) % n).collect();
            if g.iter().any(|&t| used[t]) {
                continue;
            }
            g.iter().for_each(|&t| used[t] = true);
            let d: Vec<_> = g.iter().map(|&t| (self.t[t].data)()).collect();
            if k == 2 || r.chance(1, 2) {
                l.add_group_dyn(&d[..2]);
                self.pairs[a] = true;
            }
            l.add_group_dyn(&d);
        }
        l
    }
    fn step(&mut self, r: &mut Rng, ts: &[usize]) -> R {
        let t = *r.pick(ts);
        let o = &self.t[t];
        let b = self.after(t);
        let e = if self.live.is_empty() || (!self.gone.is_empty() && r.chance(1, 15)) {
            self.gone.get(r.below(self.gone.len().max(1))).copied().unwrap_or(Entity::with_index(99))
        } else {
            *r.pick(&self.live)
        };
        let live = self.live.contains(&e);
        match if self.live.len() < 3 { 0 } else { r.weighted(&[6, 3, 12, 14, 7, 4, 4, 4, 2]) } {
            0 => {
                let a = self.id(t);
                let e = (o.create)(&mut self.w, a);
                self.live.push(e);
                self.m[t].insert(key(e), a);
            }
            1 => {
                let n = r.range(0, if o.huge { 3 } else { 12 });
                let rows: Vec<(u32, u32)> = (0..n).map(|_| (self.id(t), self.id(b))).collect();
                let es = (o.extend)(&mut self.w, &rows);
                if es.len() != n {
                    self.report(&[self.check], "extend-result", || format!("extend of {n} rows gave {} entities", es.len()))?;
                }
                for (e, (x, y)) in es.into_iter().zip(rows) {
                    self.live.push(e);
                    self.m[t].insert(key(e), x);
                    self.m[b].insert(key(e), y);
                }
            }
            2 | 3 => {
                let (x, y) = (self.id(t), self.id(b));
                let both = r.chance(1, 2);
                let ok = if both { (o.insert2)(&mut self.w, e, x, y) } else { (o.insert)(&mut self.w, e, x) };
                if ok != live {
                    self.report(&["C03"], "insert-result", || format!("insert of {} into {e:?} returned {ok}", o.name))?;
                }
                if live {
                    self.m[t].insert(key(e), x);
                    if both {
                        self.m[b].insert(key(e), y);
                    }
                }
            }
            4 => {
                let (got, want) = ((o.remove)(&mut self.w, e), self.m[t].remove(&key(e)));
                if got != want {
                    self.report(&["C03"], "remove-result", || format!("removing {} gave {got:?}, expected {want:?}", o.name))?;
                }
            }
            5 => {
                let (got, want) = ((o.remove2)(&mut self.w, e), (self.m[t].remove(&key(e)), self.m[b].remove(&key(e))));
                if got != want {
                    self.report(&["C03"], "remove-result", || format!("removing {} and the next gave {got:?}, expected {want:?}", o.name))?;
                }
            }
            6 => {
                (o.delete)(&mut self.w, e);
                self.m[t].remove(&key(e));
            }
            7 => {
                self.w.destroy(e);
                if live {
                    self.live.retain(|x| *x != e);
                    self.m.iter_mut().for_each(|m| drop(m.remove(&key(e))));
                    self.gone.push(e);
                }
            }
            _ => {
                let id = self.id(t);
                let mut got = (o.rewrite)(&self.w, id);
                let mut want: Vec<u64> = self.m[t].keys().filter(|k| self.m[b].contains_key(k)).copied().collect();
                got.sort_unstable();
                want.sort_unstable();
                if got != want {
                    self.report(&["C25"], "mutable-items", || format!("a mutable query of {} and the next handed out {got:x?}, expected {want:x?}", o.name))?;
                }
                for e in got {
                    self.m[t].insert(e, id);
                }
            }
        }
        Ok(())
    }
    fn audit(&self, after_layout: bool, st: &mut Stats) -> R {
        let c21: &[&str] = if after_layout { &["C21"] } else { &[] };
        let own = |o: &[&'static str]| -> Vec<&str> { o.iter().chain(c21).copied().collect() };
        for (t, o) in self.t.iter().enumerate() {
            let mut want: Vec<(u64, u32)> = self.m[t].iter().map(|(k, v)| (*k, *v)).collect();
            want.sort_unstable();
            let (mut view, mut items) = (o.all)(&self.w);
            view.sort_unstable();
            items.sort_unstable();
            if view != want {
                self.report(&own(&["C03", "C05"]), "view-content", || format!("the view of {} shows {view:x?}, expected {want:x?}", o.name))?;
            }
            if items != want {
                self.report(&own(&["C04"]), "query-items", || format!("the query of {} gives {items:x?}, expected {want:x?}", o.name))?;
            }
            for &e in self.live.iter().chain(self.gone.iter().rev().take(5)) {
                let want = self.m[t].get(&key(e)).copied();
                let got = (o.get)(&self.w, e);
                if got != [want; 3] {
                    self.report(&own(&["C03", "C05"]), "lookup", || format!("{} of {e:?}: {got:?}, expected {want:?}", o.name))?;
                }
            }
            let b = &self.m[self.after(t)];
            let mut want: Vec<(u64, u32, u32)> = self.m[t].iter().filter_map(|(k, v)| Some((*k, *v, *b.get(k)?))).collect();
            want.sort_unstable();
            let mut g = (o.pair)(&self.w);
            g.rows.sort_unstable();
            if g.rows != want {
                self.report(&own(&["C04", "C06"]), "query-items", || format!("the query of {} and the next gives {:x?}, expected {want:x?}", o.name, g.rows))?;
            }
            if self.pairs[t] && !g.dense {
                self.report(&own(&["C07"]), "not-dense", || format!("the query of {} and the next is not dense", o.name))?;
            }
            if self.pairs[t] && g.slices.is_none() {
                self.report(&["C07", "C08"], "no-slice", || format!("the query of {} and the next has no slices", o.name))?;
            }
            if let Some(s) = &mut g.slices {
                s.sort_unstable();
                if *s != want || g.lens.iter().any(|&l| l != want.len()) {
                    self.report(&own(&["C08"]), "slice-rows", || format!("slices of {} and the next show {s:x?} (lengths {:?}), expected {want:x?}", o.name, g.lens))?;
                }
            }
            st.add("odd_type_audits", 1);
            st.eval(Some(mix(t as u64, mix(want.len() as u64, self.m[t].len() as u64 * 2 + u64::from(g.dense)))));
        }
        let n = self.m[self.counted].len();
        if counted_alive() != n {
            self.report(&["C09"], "drop-count", || format!("{} counted values are alive, the world owns {n}", counted_alive()))?;
        }
        // A type without values can be registered and asked for.
        if self.w.query_all::<&std::convert::Infallible>().iter().next().is_some() || !self.w.borrow::<std::convert::Infallible>().is_empty() {
            self.report(&["C04"], "query-items", || "a value of a type without values was found".into())?;
        }
        Ok(())
    }
}

fn one(r: &mut Rng, check: &str, st: &mut Stats) -> R {
    let t = table();
    let counted = t.iter().position(|o| o.name.ends_with("Counted")).unwrap();
    let n = t.len();
    let mut s = S { check, t: &t, w: World::default(), live: vec![], gone: vec![], m: vec![HashMap::default(); n], pairs: vec![false; n], next: 0, counted };
    let l = s.relayout(r);
    s.w = World::new(&l);
    for o in &t {
        (o.register)(&mut s.w);
    }
    s.w.register::<std::convert::Infallible>();
    let start = r.below(n);
    // A run of neighbours sees most of the operations.
    let ts: Vec<usize> = (0..r.range(2, 8)).map(|i| (start + i) % n).collect();
    for _ in 0..r.range(10, 70) {
        s.step(r, &ts)?;
        if r.chance(1, 12) {
            s.audit(false, st)?;
        }
        if r.chance(1, 25) {
            let l = s.relayout(r);
            s.w.set_layout(&l);
            s.audit(true, st)?;
        }
        if r.chance(1, 60) {
            s.w.clear();
            s.live.clear();
            s.m.iter_mut().for_each(HashMap::clear);
            s.audit(false, st)?;
        }
    }
    s.audit(false, st)?;
    st.add("odd_worlds", 1);
    drop(std::mem::take(&mut s.w));
    if counted_alive() != 0 {
        s.report(&["C09"], "drop-count", || format!("{} counted values outlive the world", counted_alive()))?;
    }
    Ok(())
}

pub fn case(seed: u64, env: &Env, check: &str, st: &mut Stats) -> Result<(), Found> {
    env.note_case(&format!("odd types, seed {seed:#x}"));
    let mut r = Rng::new(seed);
    let res = match guard(|| one(&mut r, check, st)) {
        Ok(x) => x,
        Err(p) if p.in_harness() => {
            eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
            std::process::exit(3);
        }
        Err(p) => Err(Viol { oracle: "unexpected-panic", msg: format!("the library panicked at {}: {}", p.loc, p.msg) }),
    };
    res.map_err(|v| Found { v, case: format!("odd types, seed {seed:#x}"), replay: format!("fam {check}, odd types, seed {seed:#x}") })
}
