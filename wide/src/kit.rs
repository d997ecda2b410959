//! Sixteen component types with ids, a destructor ledger, and the operations of the generated tables.

use sparsey::component::{Component, ComponentData, ComponentSet};
use sparsey::query::Query;
use sparsey::{Entity, World};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU8, Ordering::Relaxed};
use std::sync::Mutex;

pub const NT: usize = 16;
/// Not requested by the query.
pub const ABSENT: u32 = 0;
/// Optional and not there.
pub const NONE: u32 = 1;
/// The id of the zero-sized type.
pub const ZID: u32 = 2;
const FIRST: u32 = 16;

const CAP: usize = 1 << if cfg!(miri) { 15 } else { 21 };
static STATE: [AtomicU8; CAP] = [const { AtomicU8::new(0) }; CAP];
static NEXT: AtomicU32 = AtomicU32::new(FIRST);
static LIVE: AtomicI64 = AtomicI64::new(0);
static FAULT: AtomicBool = AtomicBool::new(false);
static FAULTS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn fault(s: String) {
    FAULT.store(true, Relaxed);
    let mut g = FAULTS.lock().unwrap_or_else(|e| e.into_inner());
    if g.len() < 10 {
        g.push(s);
    }
}
pub fn take_faults() -> Option<String> {
    if !FAULT.swap(false, Relaxed) {
        return None;
    }
    let mut g = FAULTS.lock().unwrap_or_else(|e| e.into_inner());
    Some(std::mem::take(&mut *g).join("; "))
}
pub fn ledger_reset() {
    for s in &STATE[..(NEXT.load(Relaxed) as usize).min(CAP)] {
        s.store(0, Relaxed);
    }
    NEXT.store(FIRST, Relaxed);
    LIVE.store(0, Relaxed);
    let _ = take_faults();
}
pub fn fresh(k: usize) -> u32 {
    if k == ZST {
        ZID
    } else {
        NEXT.fetch_add(1, Relaxed)
    }
}
fn born(id: u32) {
    let i = id as usize;
    if i >= CAP || STATE[i].swap(1, Relaxed) != 0 {
        fault(format!("value {id} came into being twice"));
    }
    LIVE.fetch_add(1, Relaxed);
}
fn died(id: u32, k: usize) {
    let i = id as usize;
    if i >= CAP {
        return fault(format!("a garbage value of type W{k} was dropped (id {id})"));
    }
    match STATE[i].swap(2, Relaxed) {
        1 => {}
        2 => fault(format!("value {id} of type W{k} was dropped twice")),
        _ => fault(format!("value {id} of type W{k} was dropped without having existed")),
    }
    LIVE.fetch_sub(1, Relaxed);
}
/// Tracked values that exist.
pub fn tracked_alive() -> i64 {
    LIVE.load(Relaxed)
}
pub fn alive(id: u32) -> bool {
    (id as usize) < CAP && STATE[id as usize].load(Relaxed) == 1
}
fn check(id: u32, k: usize, mark: u32) -> u32 {
    if mark != id.rotate_left(7) ^ (k as u32).wrapping_mul(0x9e37_79b9) {
        fault(format!("a value of type W{k} is corrupt (id {id}, mark {mark:#x})"));
    }
    id
}
fn mark(id: u32, k: usize) -> u32 {
    id.rotate_left(7) ^ (k as u32).wrapping_mul(0x9e37_79b9)
}

pub trait Wc: Component + Sized {
    const K: usize;
    const TRACKED: bool;
    fn make(id: u32) -> Self;
    fn id(&self) -> u32;
    fn set(&mut self, id: u32);
}

/// Plain data of 4 * (2 + N) bytes.
pub struct Plain<const K: usize, const N: usize>(u32, [u32; N], u32);
impl<const K: usize, const N: usize> Wc for Plain<K, N> {
    const K: usize = K;
    const TRACKED: bool = false;
    fn make(id: u32) -> Self {
        Plain(id, [id; N], mark(id, K))
    }
    fn id(&self) -> u32 {
        if self.1.iter().any(|&x| x != self.0) {
            fault(format!("a value of type W{K} is torn"));
        }
        check(self.0, K, self.2)
    }
    fn set(&mut self, id: u32) {
        *self = Self::make(id);
    }
}

/// Owns memory and has a destructor.
pub struct Heap<const K: usize>(Box<(u32, u32)>);
impl<const K: usize> Wc for Heap<K> {
    const K: usize = K;
    const TRACKED: bool = true;
    fn make(id: u32) -> Self {
        born(id);
        Heap(Box::new((id, mark(id, K))))
    }
    fn id(&self) -> u32 {
        if !alive(self.0 .0) {
            fault(format!("a dropped value of type W{K} was handed out (id {})", self.0 .0));
        }
        check(self.0 .0, K, self.0 .1)
    }
    fn set(&mut self, id: u32) {
        *self = Self::make(id);
    }
}
impl<const K: usize> Drop for Heap<K> {
    fn drop(&mut self) {
        died(check(self.0 .0, K, self.0 .1), K);
    }
}

/// Over-aligned, with a destructor.
#[repr(align(64))]
pub struct Big<const K: usize>(u32, u32);
impl<const K: usize> Wc for Big<K> {
    const K: usize = K;
    const TRACKED: bool = true;
    fn make(id: u32) -> Self {
        born(id);
        Big(id, mark(id, K))
    }
    fn id(&self) -> u32 {
        if std::ptr::from_ref(self) as usize % 64 != 0 {
            fault(format!("a value of type W{K} is misaligned"));
        }
        check(self.0, K, self.1)
    }
    fn set(&mut self, id: u32) {
        *self = Self::make(id);
    }
}
impl<const K: usize> Drop for Big<K> {
    fn drop(&mut self) {
        died(check(self.0, K, self.1), K);
    }
}

pub const ZST: usize = 6;
pub struct Unit;
impl Wc for Unit {
    const K: usize = ZST;
    const TRACKED: bool = false;
    fn make(_: u32) -> Self {
        Unit
    }
    fn id(&self) -> u32 {
        ZID
    }
    fn set(&mut self, _: u32) {}
}

/// One byte pattern of odd size: the id in three bytes.
pub struct Odd<const K: usize>([u8; 3]);
impl<const K: usize> Wc for Odd<K> {
    const K: usize = K;
    const TRACKED: bool = false;
    fn make(id: u32) -> Self {
        let b = id.to_le_bytes();
        Odd([b[0], b[1], b[2]])
    }
    fn id(&self) -> u32 {
        u32::from_le_bytes([self.0[0], self.0[1], self.0[2], 0])
    }
    fn set(&mut self, id: u32) {
        *self = Self::make(id);
    }
}

pub type W0 = Plain<0, 0>;
pub type W1 = Heap<1>;
pub type W2 = Plain<2, 1>;
pub type W3 = Big<3>;
pub type W4 = Odd<4>;
pub type W5 = Plain<5, 6>;
pub type W6 = Unit;
pub type W7 = Heap<7>;
pub type W8 = Plain<8, 0>;
pub type W9 = Plain<9, 30>;
pub type W10 = Odd<10>;
pub type W11 = Heap<11>;
pub type W12 = Plain<12, 2>;
pub type W13 = Big<13>;
pub type W14 = Plain<14, 0>;
pub type W15 = Heap<15>;

#[macro_export]
macro_rules! each_type {
    ($f:ident) => {
        [
            $f::<W0>(), $f::<W1>(), $f::<W2>(), $f::<W3>(), $f::<W4>(), $f::<W5>(), $f::<W6>(), $f::<W7>(),
            $f::<W8>(), $f::<W9>(), $f::<W10>(), $f::<W11>(), $f::<W12>(), $f::<W13>(), $f::<W14>(), $f::<W15>(),
        ]
    };
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct Row {
    pub e: u64,
    pub v: [u32; NT],
}

pub fn key(e: Entity) -> u64 {
    (u64::from(e.version.0.get()) << 32) | u64::from(e.index)
}
pub fn same_len(l: &[usize]) -> Result<usize, String> {
    let n = l.first().copied().unwrap_or(0);
    if l.iter().all(|&x| x == n) {
        Ok(n)
    } else {
        Err(format!("slices of different lengths {l:?}"))
    }
}

// What one component type offers.

#[derive(Clone, Copy)]
pub struct TypeOps {
    pub tracked: bool,
    pub data: fn() -> ComponentData,
    pub peek: fn(&World, Entity) -> Option<u32>,
    /// Entities and ids of a view.
    pub view: fn(&World) -> Vec<(u64, u32)>,
}
pub fn type_ops<W: Wc>() -> TypeOps {
    TypeOps {
        tracked: W::TRACKED,
        data: ComponentData::new::<W>,
        peek: |w, e| w.borrow::<W>().get(e).map(Wc::id),
        view: |w| {
            let v = w.borrow::<W>();
            if v.len() != v.entities().len() || v.len() != v.as_slice().len() {
                fault(format!("view of W{} has inconsistent lengths", W::K));
                return vec![];
            }
            v.entities().iter().zip(v.as_slice()).map(|(&e, c)| (key(e), c.id())).collect()
        },
    }
}

// What one set of component types offers.

pub trait SetDef {
    type T: ComponentSet;
    const TYPES: &'static [usize];
    fn make(ids: &[u32]) -> Self::T;
    fn took(r: <Self::T as ComponentSet>::Remove) -> Vec<Option<u32>>;
}

#[derive(Clone, Copy)]
pub struct SetOps {
    pub types: &'static [usize],
    pub create: fn(&mut World, &[u32]) -> Entity,
    pub insert: fn(&mut World, Entity, &[u32]) -> bool,
    pub extend: fn(&mut World, &[Vec<u32>]) -> Vec<Entity>,
    pub remove: fn(&mut World, Entity) -> Vec<Option<u32>>,
    pub delete: fn(&mut World, Entity),
}
pub fn set_ops<S: SetDef>() -> SetOps {
    SetOps {
        types: S::TYPES,
        create: |w, i| w.create(S::make(i)),
        insert: |w, e, i| w.insert(e, S::make(i)),
        extend: |w, rows| w.extend(rows.iter().map(|i| S::make(i))).to_vec(),
        remove: |w, e| S::took(w.remove::<S::T>(e)),
        delete: |w, e| w.delete::<S::T>(e),
    }
}

// What one query shape offers.

pub trait Def {
    type G: Query;
    type I: Query;
    type E: Query;
    const REQ: &'static [usize];
    const OPT: &'static [usize];
    const MUT: &'static [usize];
    const INC: &'static [usize];
    const EXC: &'static [usize];
    const ENT: bool;
    const PARTS: usize;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row;
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32);
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String>;
}

#[derive(Clone, Copy)]
pub struct ShapeOps {
    pub req: &'static [usize],
    pub opt: &'static [usize],
    pub muts: &'static [usize],
    pub inc: &'static [usize],
    pub exc: &'static [usize],
    pub ent: bool,
    pub parts: usize,
    /// All rows; the second argument chooses the way of iterating.
    pub rows: fn(&World, usize) -> Vec<Row>,
    /// Dense iterators report their length.
    pub dense: fn(&World) -> Option<usize>,
    pub slices: fn(&World) -> Option<Result<Vec<Row>, String>>,
    pub point: fn(&World, Entity) -> (bool, Option<Row>),
    pub point_map: fn(&World, Entity) -> (bool, Option<Row>),
    pub rewrite: fn(&World, &mut dyn FnMut(usize, u32) -> u32, usize),
    pub rewrite_one: fn(&World, Entity, &mut dyn FnMut(usize, u32) -> u32) -> bool,
}
pub const WAYS: usize = 5;

pub fn shape_ops<D: Def>() -> ShapeOps {
    ShapeOps {
        req: D::REQ,
        opt: D::OPT,
        muts: D::MUT,
        inc: D::INC,
        exc: D::EXC,
        ent: D::ENT,
        parts: D::PARTS,
        rows: |w, how| {
            let mut v = vec![];
            let mut q = w.query_all::<D::G>().include::<D::I>().exclude::<D::E>();
            match how {
                0 => {
                    let mut it = q.iter();
                    while let Some(x) = it.next() {
                        v.push(D::row(x));
                    }
                }
                1 => q.iter().for_each(|x| v.push(D::row(x))),
                2 => q.for_each(|x| v.push(D::row(x))),
                3 if D::INC.is_empty() && D::EXC.is_empty() => {
                    drop(q);
                    w.for_each::<D::G>(|x| v.push(D::row(x)));
                }
                _ => {
                    let n = how;
                    let mut it = q.iter();
                    for _ in 0..n {
                        if let Some(x) = it.next() {
                            v.push(D::row(x));
                        }
                    }
                    v = it.fold(v, |mut v, x| {
                        v.push(D::row(x));
                        v
                    });
                }
            }
            v
        },
        dense: |w| {
            let mut q = w.query_all::<D::G>().include::<D::I>().exclude::<D::E>();
            let it = q.iter();
            if it.is_dense() {
                Some(it.size_hint().0)
            } else {
                None
            }
        },
        slices: |w| w.query_all::<D::G>().include::<D::I>().exclude::<D::E>().slice().map(D::slices),
        point: |w, e| {
            let mut q = w.query_one::<D::G>().include::<D::I>().exclude::<D::E>();
            let c = q.contains(e);
            (c, q.get(e).map(D::row))
        },
        point_map: |w, e| {
            let mut q = w.query_one::<D::G>().include::<D::I>().exclude::<D::E>();
            let r = q.map(e, |x| D::row(x));
            drop(q);
            if D::INC.is_empty() && D::EXC.is_empty() {
                (w.contains::<D::G>(e), r)
            } else {
                (r.is_some(), r)
            }
        },
        rewrite: |w, f, how| {
            let mut q = w.query_all::<D::G>().include::<D::I>().exclude::<D::E>();
            match how % 2 {
                0 => q.for_each(|x| D::rewrite(x, f)),
                _ => {
                    for x in &mut q {
                        D::rewrite(x, f);
                    }
                }
            }
        },
        rewrite_one: |w, e, f| {
            let mut q = w.query_one::<D::G>().include::<D::I>().exclude::<D::E>();
            let hit = q.get(e).map(|x| D::rewrite(x, f)).is_some();
            hit
        },
    }
}
