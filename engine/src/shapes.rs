//! Query shapes: type-erased drivers over `Query` instantiations.

use crate::types::*;
use sparsey::query::{Query, QueryPart};
use sparsey::{Entity, World};
use vcommon::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PK {
    Ent,
    Ref,
    Mut,
    Opt,
    OptMut,
}

#[derive(Clone, Copy, Debug)]
pub struct PartDesc {
    pub k: PK,
    pub t: usize,
}
impl PartDesc {
    pub fn required(&self) -> bool {
        matches!(self.k, PK::Ref | PK::Mut)
    }
    pub fn mutable(&self) -> bool {
        matches!(self.k, PK::Mut | PK::OptMut)
    }
}

pub const W: usize = 8;
pub type Row = [u64; W];

/// Context of one pass over items: which values to overwrite with which.
#[derive(Clone, Copy, Default)]
pub struct Cx<'a> {
    pub remap: Option<&'a HashMap<u32, u32>>,
}

impl Cx<'_> {
    pub fn touch<T: Tr>(&self, r: &mut T) -> u64 {
        let old = r.rd();
        if let Some(m) = self.remap {
            if T::IX == 2 {
                *r = T::mk(ZID);
            } else if let Some(&n) = m.get(&old) {
                *r = T::mk(n);
            } else {
                fault(format!(
                    "mutable access to T{} value #{old}, which this pass should not reach (or reached twice)",
                    T::IX
                ));
            }
        }
        u64::from(old)
    }
}

pub fn enc(e: Entity) -> u64 {
    (u64::from(e.version.0.get()) << 32) | u64::from(e.index)
}
pub fn dec(x: u64) -> Entity {
    Entity::new(
        x as u32,
        sparsey::entity::Version(std::num::NonZeroU32::new((x >> 32) as u32).unwrap()),
    )
}

pub type Cols = Vec<Option<Vec<u64>>>;

pub trait PartX: QueryPart {
    fn desc() -> PartDesc;
    fn row(item: <Self as QueryPart>::Item<'_>, cx: &Cx) -> u64;
    fn col(s: <Self as QueryPart>::Slice<'_>, cx: &Cx) -> Option<Vec<u64>>;
}

impl PartX for Entity {
    fn desc() -> PartDesc {
        PartDesc { k: PK::Ent, t: 0 }
    }
    fn row(item: Entity, _: &Cx) -> u64 {
        enc(item)
    }
    fn col(s: &[Entity], _: &Cx) -> Option<Vec<u64>> {
        Some(s.iter().map(|&e| enc(e)).collect())
    }
}
impl<T: Tr> PartX for &'_ T {
    fn desc() -> PartDesc {
        PartDesc { k: PK::Ref, t: T::IX }
    }
    fn row(item: &T, _: &Cx) -> u64 {
        u64::from(item.rd())
    }
    fn col(s: &[T], _: &Cx) -> Option<Vec<u64>> {
        Some(s.iter().map(|x| u64::from(x.rd())).collect())
    }
}
impl<T: Tr> PartX for &'_ mut T {
    fn desc() -> PartDesc {
        PartDesc { k: PK::Mut, t: T::IX }
    }
    fn row(item: &mut T, cx: &Cx) -> u64 {
        cx.touch(item)
    }
    fn col(s: &mut [T], cx: &Cx) -> Option<Vec<u64>> {
        Some(s.iter_mut().map(|x| cx.touch(x)).collect())
    }
}
impl<T: Tr> PartX for Option<&'_ T> {
    fn desc() -> PartDesc {
        PartDesc { k: PK::Opt, t: T::IX }
    }
    fn row(item: Option<&T>, _: &Cx) -> u64 {
        item.map_or(0, |x| u64::from(x.rd()))
    }
    fn col(_: (), _: &Cx) -> Option<Vec<u64>> {
        None
    }
}
impl<T: Tr> PartX for Option<&'_ mut T> {
    fn desc() -> PartDesc {
        PartDesc { k: PK::OptMut, t: T::IX }
    }
    fn row(item: Option<&mut T>, cx: &Cx) -> u64 {
        item.map_or(0, |x| cx.touch(x))
    }
    fn col(_: (), _: &Cx) -> Option<Vec<u64>> {
        None
    }
}

pub trait QX: Query {
    fn descs() -> Vec<PartDesc>;
    fn row(item: <Self as Query>::Item<'_>, cx: &Cx) -> Row;
    fn cols(s: <Self as Query>::Slice<'_>, cx: &Cx) -> Cols;
}

impl QX for () {
    fn descs() -> Vec<PartDesc> {
        vec![]
    }
    fn row((): (), _: &Cx) -> Row {
        [0; W]
    }
    fn cols((): (), _: &Cx) -> Cols {
        vec![]
    }
}

macro_rules! bare {
    ($($g:ident)? ; $Ty:ty) => {
        impl$(<$g: Tr>)? QX for $Ty {
            fn descs() -> Vec<PartDesc> {
                vec![<$Ty as PartX>::desc()]
            }
            fn row(item: <Self as Query>::Item<'_>, cx: &Cx) -> Row {
                let mut r = [0; W];
                r[0] = <$Ty as PartX>::row(item, cx);
                r
            }
            fn cols(s: <Self as Query>::Slice<'_>, cx: &Cx) -> Cols {
                vec![<$Ty as PartX>::col(s, cx)]
            }
        }
    };
}
bare!(; Entity);
bare!(T; &'_ T);
bare!(T; &'_ mut T);
bare!(T; Option<&'_ T>);
bare!(T; Option<&'_ mut T>);

macro_rules! tup {
    ($(($A:ident, $i:tt)),+) => {
        impl<$($A: PartX),+> QX for ($($A,)+) {
            fn descs() -> Vec<PartDesc> {
                vec![$($A::desc()),+]
            }
            fn row(item: <Self as Query>::Item<'_>, cx: &Cx) -> Row {
                let mut r = [0; W];
                $(r[$i] = $A::row(item.$i, cx);)+
                r
            }
            fn cols(s: <Self as Query>::Slice<'_>, cx: &Cx) -> Cols {
                vec![$($A::col(s.$i, cx)),+]
            }
        }
    };
}
tup!((A, 0));
tup!((A, 0), (B, 1));
tup!((A, 0), (B, 1), (C, 2));
tup!((A, 0), (B, 1), (C, 2), (D, 3));
tup!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4));
tup!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5));
tup!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6));
tup!((A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6), (H, 7));

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IM {
    Next,
    Fold,
    QForEach,
    IntoIter,
    /// `next` k times, then fold.
    Mixed(usize),
    /// `nth(k)` repeatedly (skipping k items each time, tail by `next`).
    Nth(usize),
    /// Through `by_ref().take(k)` then `collect`.
    TakeCollect(usize),
    /// exclude() before include(), then `next`.
    Swapped,
    /// World::for_each; only for shapes without filters.
    WForEach,
    /// `count()` plus `last()`: yields only the last row.
    Last,
}

pub const IMODES: [IM; 8] = [
    IM::Next,
    IM::Fold,
    IM::QForEach,
    IM::IntoIter,
    IM::Mixed(2),
    IM::Swapped,
    IM::TakeCollect(3),
    IM::WForEach,
];

#[derive(Default, Debug)]
pub struct IterOut {
    pub rows: Vec<Row>,
    pub dense: bool,
    /// size_hint before each item (and after the last one), for `next`-driven modes.
    pub hints: Vec<(usize, Option<usize>)>,
    /// ExactSizeIterator::len at the same points, for dense iterators.
    pub lens: Vec<usize>,
    /// Items produced by calling next again after the end.
    pub after_end: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OM {
    Get,
    Contains,
    Map,
    Swapped,
    WContains,
}

#[cfg(feature = "par")]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PM {
    ForEach,
    QForEach,
    WForEach,
    Collect,
    FoldReduce,
    /// Dense only: indexed collect under a minimum/maximum split length.
    Indexed(usize),
    /// Dense only: enumerate().rev() through the producer.
    RevProducer,
    /// Dense only: chunks + zip with a range.
    ZipChunks(usize),
}

#[cfg(feature = "par")]
#[derive(Default, Debug)]
pub struct ParOut {
    pub rows: Vec<Row>,
    pub dense: bool,
    pub ordered: bool,
    pub opt_len: Option<usize>,
    pub err: Option<String>,
}

type IterFn = fn(&World, IM, &Cx) -> IterOut;
type OneFn = fn(&World, Entity, OM, &Cx) -> Option<Row>;
type HoldFn = fn(&World, u8, &mut dyn FnMut());
type SliceFn = fn(&World, &Cx) -> Option<Cols>;

pub struct Shape {
    pub name: &'static str,
    pub get: Vec<PartDesc>,
    pub inc: Vec<PartDesc>,
    pub exc: Vec<PartDesc>,
    pub iter: IterFn,
    pub one: OneFn,
    pub slice: SliceFn,
    pub hold: HoldFn,
    #[cfg(feature = "par")]
    pub par: fn(&World, PM, &Cx) -> ParOut,
    // Derived.
    pub req: u16,
    pub exc_mask: u16,
    pub types: u16,
    pub parts: usize,
}

impl Shape {
    pub fn plain(&self) -> bool {
        self.inc.is_empty() && self.exc.is_empty()
    }
    pub fn mutates(&self) -> bool {
        self.get.iter().any(|p| p.mutable())
    }
    /// A query that names one component type twice with a mutable part refuses itself.
    pub fn self_conflict(&self) -> bool {
        let all: Vec<PartDesc> =
            self.get.iter().chain(&self.inc).chain(&self.exc).copied().filter(|p| p.k != PK::Ent).collect();
        all.iter().enumerate().any(|(i, a)| {
            all.iter().enumerate().any(|(j, b)| i != j && a.t == b.t && (a.mutable() || b.mutable()))
        })
    }
}

fn run_iter<G: QX, I: QX, E: QX>(w: &World, mode: IM, cx: &Cx) -> IterOut {
    let mut o = IterOut::default();
    if mode == IM::WForEach {
        w.for_each::<G>(|it| o.rows.push(G::row(it, cx)));
        let mut q = w.query_all::<G>();
        o.dense = q.iter().is_dense();
        return o;
    }
    let mut q = if mode == IM::Swapped {
        w.query_all::<G>().exclude::<E>().include::<I>()
    } else {
        w.query_all::<G>().include::<I>().exclude::<E>()
    };
    o.dense = q.iter().is_dense();
    match mode {
        IM::Next | IM::Swapped => {
            let mut it = q.iter();
            loop {
                if o.hints.len() < 64 {
                    o.hints.push(it.size_hint());
                    if let sparsey::query::Iter::Dense(d) = &it {
                        o.lens.push(d.len());
                    }
                }
                match it.next() {
                    Some(x) => o.rows.push(G::row(x, cx)),
                    None => break,
                }
            }
            for _ in 0..3 {
                o.after_end += usize::from(it.next().is_some());
            }
        }
        IM::Fold => {
            o.rows = q.iter().fold(Vec::new(), |mut v, x| {
                v.push(G::row(x, cx));
                v
            });
        }
        IM::QForEach => q.for_each(|x| o.rows.push(G::row(x, cx))),
        IM::IntoIter => {
            for x in &mut q {
                o.rows.push(G::row(x, cx));
            }
        }
        IM::Mixed(k) => {
            let mut it = q.iter();
            for _ in 0..k {
                match it.next() {
                    Some(x) => o.rows.push(G::row(x, cx)),
                    None => break,
                }
            }
            it.for_each(|x| o.rows.push(G::row(x, cx)));
        }
        IM::Nth(k) => {
            let mut it = q.iter();
            while let Some(x) = it.nth(k) {
                o.rows.push(G::row(x, cx));
            }
        }
        IM::TakeCollect(k) => {
            let mut it = q.iter();
            loop {
                let n = o.rows.len();
                o.rows.extend(it.by_ref().take(k).map(|x| G::row(x, cx)));
                if o.rows.len() < n + k {
                    break;
                }
            }
        }
        IM::Last => {
            let n = q.iter().count();
            o.hints.push((n, Some(n)));
            if let Some(x) = q.iter().last() {
                o.rows.push(G::row(x, cx));
            }
        }
        IM::WForEach => unreachable!(),
    }
    o
}

fn run_one<G: QX, I: QX, E: QX>(w: &World, e: Entity, mode: OM, cx: &Cx) -> Option<Row> {
    match mode {
        OM::WContains => w.contains::<G>(e).then_some([0; W]),
        OM::Contains => {
            w.query_one::<G>().include::<I>().exclude::<E>().contains(e).then_some([0; W])
        }
        OM::Get => {
            let mut q = w.query_one::<G>().include::<I>().exclude::<E>();
            q.get(e).map(|x| G::row(x, cx))
        }
        OM::Swapped => {
            let mut q = w.query_one::<G>().exclude::<E>().include::<I>();
            q.get(e).map(|x| G::row(x, cx))
        }
        OM::Map => {
            let mut q = w.query_one::<G>().include::<I>().exclude::<E>();
            q.map(e, |x| G::row(x, cx))
        }
    }
}

fn run_slice<G: QX, I: QX, E: QX>(w: &World, cx: &Cx) -> Option<Cols> {
    let mut q = w.query_all::<G>().include::<I>().exclude::<E>();
    let r = q.slice().map(|s| G::cols(s, cx));
    r
}

fn run_hold<G: QX, I: QX, E: QX>(w: &World, mode: u8, f: &mut dyn FnMut()) {
    match mode {
        0 => {
            let q = w.query_all::<G>().include::<I>().exclude::<E>();
            f();
            drop(q);
        }
        1 => {
            let mut q = w.query_all::<G>().exclude::<E>().include::<I>();
            let it = q.iter();
            f();
            drop(it);
        }
        2 => {
            let q = w.query_one::<G>().include::<I>().exclude::<E>();
            f();
            drop(q);
        }
        _ => {
            // Inside the per-item callback: held while user code runs.
            let mut q = w.query_all::<G>().include::<I>().exclude::<E>();
            let mut called = false;
            q.for_each(|_| {
                if !called {
                    called = true;
                    f();
                }
            });
            if !called {
                f();
            }
            drop(q);
        }
    }
}

#[cfg(feature = "par")]
fn run_par<G: QX, I: QX, E: QX>(w: &World, mode: PM, cx: &Cx) -> ParOut {
    use rayon::prelude::*;
    use sparsey::query::ParIter;
    use std::sync::Mutex;
    let mut o = ParOut::default();
    let rows: Mutex<Vec<Row>> = Mutex::new(Vec::new());
    let push = |r: Row| rows.lock().unwrap().push(r);
    if mode == PM::WForEach {
        w.par_for_each::<G>(|x| push(G::row(x, cx)));
        let mut q = w.query_all::<G>();
        o.dense = q.par_iter().is_dense();
        o.rows = rows.into_inner().unwrap();
        return o;
    }
    let mut q = w.query_all::<G>().include::<I>().exclude::<E>();
    {
        let p = q.par_iter();
        o.dense = p.is_dense();
        o.opt_len = p.opt_len();
        if p.is_sparse() == p.is_dense() {
            o.err = Some("is_sparse and is_dense agree".into());
        }
    }
    match mode {
        PM::ForEach => q.par_iter().for_each(|x| push(G::row(x, cx))),
        PM::QForEach => q.par_for_each(|x| push(G::row(x, cx))),
        PM::Collect => {
            let v: Vec<Row> = q.par_iter().map(|x| G::row(x, cx)).collect();
            o.rows = v;
        }
        PM::FoldReduce => {
            let v: Vec<Row> = q
                .par_iter()
                .fold(Vec::new, |mut v, x| {
                    v.push(G::row(x, cx));
                    v
                })
                .reduce(Vec::new, |mut a, b| {
                    a.extend(b);
                    a
                });
            o.rows = v;
        }
        PM::Indexed(n) => match q.par_iter() {
            ParIter::Dense(d) => {
                o.ordered = true;
                if d.len() != o.opt_len.unwrap_or(usize::MAX) {
                    o.err = Some(format!("indexed len {} but opt_len {:?}", d.len(), o.opt_len));
                }
                o.rows = d.with_min_len(1).with_max_len(n.max(1)).map(|x| G::row(x, cx)).collect();
            }
            ParIter::Sparse(s) => o.rows = s.map(|x| G::row(x, cx)).collect(),
        },
        PM::RevProducer => match q.par_iter() {
            ParIter::Dense(d) => {
                o.ordered = true;
                let mut v: Vec<(usize, Row)> = d.enumerate().rev().map(|(i, x)| (i, G::row(x, cx))).collect();
                v.reverse();
                if v.iter().enumerate().any(|(i, p)| p.0 != i) {
                    o.err = Some("enumerate().rev() produced wrong positions".into());
                }
                o.rows = v.into_iter().map(|p| p.1).collect();
            }
            ParIter::Sparse(s) => o.rows = s.map(|x| G::row(x, cx)).collect(),
        },
        PM::ZipChunks(n) => match q.par_iter() {
            ParIter::Dense(d) => {
                o.ordered = true;
                let len = d.len();
                let v: Vec<Vec<(usize, Row)>> = d
                    .zip(0..len)
                    .chunks(n.max(1))
                    .map(|c| c.into_iter().map(|(x, i)| (i, G::row(x, cx))).collect())
                    .collect();
                let flat: Vec<(usize, Row)> = v.into_iter().flatten().collect();
                if flat.iter().enumerate().any(|(i, p)| p.0 != i) {
                    o.err = Some("zip produced wrong positions".into());
                }
                o.rows = flat.into_iter().map(|p| p.1).collect();
            }
            ParIter::Sparse(s) => o.rows = s.map(|x| G::row(x, cx)).collect(),
        },
        PM::WForEach => unreachable!(),
    }
    let extra = rows.into_inner().unwrap();
    if !extra.is_empty() {
        o.rows = extra;
    }
    o
}

pub fn make<G: QX, I: QX, E: QX>(name: &'static str) -> Shape {
    let get = G::descs();
    let inc = I::descs();
    let exc = E::descs();
    let req_parts: Vec<PartDesc> =
        get.iter().chain(&inc).copied().filter(|p| p.required()).collect();
    let req = req_parts.iter().fold(0, |m, p| m | (1 << p.t));
    let exc_mask = exc.iter().filter(|p| p.required()).fold(0, |m, p| m | (1 << p.t));
    let types = get
        .iter()
        .chain(&inc)
        .chain(&exc)
        .filter(|p| p.k != PK::Ent)
        .fold(0, |m, p| m | (1 << p.t));
    Shape {
        name,
        parts: req_parts.len(),
        get,
        inc,
        exc,
        iter: run_iter::<G, I, E>,
        one: run_one::<G, I, E>,
        slice: run_slice::<G, I, E>,
        hold: run_hold::<G, I, E>,
        #[cfg(feature = "par")]
        par: run_par::<G, I, E>,
        req,
        exc_mask,
        types,
    }
}

macro_rules! shapes {
    ($($G:ty | $I:ty | $E:ty ;)*) => {
        pub fn shapes() -> Vec<Shape> {
            vec![$(make::<$G, $I, $E>(concat!(stringify!($G), " | ", stringify!($I), " | ", stringify!($E)))),*]
        }
    };
}
pub(crate) use shapes;
