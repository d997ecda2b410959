//! The component types and the typed operations of one family.

use sparsey::component::ComponentData;
use sparsey::{Entity, World};
use std::cell::RefCell;

/// Number of families; each has four component types.
pub const NF: usize = 24;
pub const NK: usize = 4;
/// Ids start at 1; 0 stands for no component.
pub type Ids = [u32; NK];

#[derive(Clone, Copy, PartialEq)]
enum Life {
    Unborn,
    Alive,
    Dropped,
}

thread_local! {
    static LEDGER: RefCell<(Vec<Life>, usize, Option<String>)> = const { RefCell::new((Vec::new(), 0, None)) };
}

/// A new id, registered with the ledger.
pub fn fresh() -> u32 {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.0.push(Life::Unborn);
        l.0.len() as u32
    })
}
pub fn ledger_reset() {
    LEDGER.with(|l| *l.borrow_mut() = (Vec::new(), 0, None));
}
pub fn alive() -> usize {
    LEDGER.with(|l| l.borrow().1)
}
pub fn fault() -> Option<String> {
    LEDGER.with(|l| l.borrow().2.clone())
}
fn set(id: u32, from: Life, to: Life) {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        let ok = id.checked_sub(1).and_then(|i| l.0.get(i as usize)).is_some_and(|&x| x == from);
        if !ok {
            if l.2.is_none() {
                l.2 = Some(format!("id {id} {}", if to == Life::Alive { "made twice" } else { "dropped twice or never made" }));
            }
            return;
        }
        l.0[id as usize - 1] = to;
        if to == Life::Alive {
            l.1 += 1;
        } else {
            l.1 -= 1;
        }
    });
}

/// Component type `K` of family `F`. The value knows its type.
pub struct M<const F: usize, const K: usize> {
    id: u32,
    mark: u32,
}

impl<const F: usize, const K: usize> M<F, K> {
    const MARK: u32 = (F * NK + K) as u32;
    fn mk(id: u32) -> Self {
        set(id, Life::Unborn, Life::Alive);
        M { id, mark: id.wrapping_mul(0x9E37) ^ Self::MARK }
    }
    /// The id, or one no value has if the value belongs elsewhere.
    fn id(&self) -> u32 {
        if self.mark == self.id.wrapping_mul(0x9E37) ^ Self::MARK {
            self.id
        } else {
            u32::MAX
        }
    }
    /// Replaces the value; the old one is dropped.
    fn rewrite(&mut self, id: u32) {
        *self = Self::mk(id);
    }
}
impl<const F: usize, const K: usize> Drop for M<F, K> {
    fn drop(&mut self) {
        let id = self.id();
        set(id, Life::Alive, Life::Dropped);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Row {
    pub e: u64,
    pub v: Ids,
}

pub fn key(e: Entity) -> u64 {
    u64::from(e.version.0.get()) << 32 | u64::from(e.index)
}

#[derive(Default)]
pub struct Got {
    pub dense: bool,
    /// Length reported by a dense iterator.
    pub len: Option<usize>,
    pub rows: Vec<Row>,
    /// Rows by fold, if asked.
    pub folded: Vec<Row>,
    pub slices: Option<Vec<Row>>,
    pub slice_lens: Vec<usize>,
}

/// The sets of types that operations take, as indices into the family.
pub const SETS: &[&[usize]] = &[&[0], &[1], &[2], &[3], &[0, 1], &[1, 0, 2], &[2, 3], &[3, 0], &[2, 1], &[0, 1, 2, 3]];

/// Queries: required, included, excluded.
pub struct Q {
    pub req: &'static [usize],
    pub inc: &'static [usize],
    pub exc: &'static [usize],
}
macro_rules! q {
    ($r:expr, $i:expr, $e:expr) => {
        Q { req: &$r, inc: &$i, exc: &$e }
    };
}
pub const QUERIES: &[Q] = &[
    q!([0, 1], [], []),
    q!([0, 1, 2], [], []),
    q!([0, 1, 2, 3], [], []),
    q!([0], [1], []),
    q!([0, 1], [], [2]),
    q!([1, 2, 0], [], [3]),
    q!([2, 3], [], []),
    q!([1], [], []),
    q!([0, 3], [], []),
];

pub struct Fam {
    pub data: [fn() -> ComponentData; NK],
    pub insert: fn(&mut World, Entity, usize, &Ids) -> bool,
    pub create: fn(&mut World, usize, &Ids) -> Entity,
    pub extend: fn(&mut World, usize, &[Ids]) -> Vec<Entity>,
    pub remove: fn(&mut World, Entity, usize) -> Ids,
    pub delete: fn(&mut World, Entity, usize),
    pub views: fn(&World, Entity) -> Ids,
    pub point: fn(&World, Entity) -> Ids,
    pub whole: fn(&World) -> [Vec<(u64, u32)>; NK],
    pub query: fn(&World, usize) -> Got,
    pub rewrite: fn(&World, usize) -> Vec<(u64, Ids)>,
}

macro_rules! bundle {
    ($ids:expr, $($k:literal)+) => { ($(M::<F, $k>::mk($ids[$k]),)+) };
}
macro_rules! by_set {
    ($s:expr, $m:ident) => {
        match $s {
            0 => $m!(0), 1 => $m!(1), 2 => $m!(2), 3 => $m!(3), 4 => $m!(0 1), 5 => $m!(1 0 2), 6 => $m!(2 3), 7 => $m!(3 0),
            8 => $m!(2 1), _ => $m!(0 1 2 3),
        }
    };
}

fn insert<const F: usize>(w: &mut World, e: Entity, s: usize, ids: &Ids) -> bool {
    macro_rules! go { ($($k:literal)+) => { w.insert(e, bundle!(ids, $($k)+)) }; }
    by_set!(s, go)
}
fn create<const F: usize>(w: &mut World, s: usize, ids: &Ids) -> Entity {
    macro_rules! go { ($($k:literal)+) => { w.create(bundle!(ids, $($k)+)) }; }
    by_set!(s, go)
}
fn extend<const F: usize>(w: &mut World, s: usize, ids: &[Ids]) -> Vec<Entity> {
    macro_rules! go { ($($k:literal)+) => { w.extend(ids.iter().map(|ids| bundle!(ids, $($k)+))).to_vec() }; }
    by_set!(s, go)
}
fn remove<const F: usize>(w: &mut World, e: Entity, s: usize) -> Ids {
    let mut out = [0; NK];
    macro_rules! go {
        ($($k:literal)+) => {{
            #[allow(non_snake_case)]
            let mut it = vec![];
            let r = w.remove::<($(M<F, $k>,)+)>(e);
            collect!(r, it);
            for (k, id) in [$($k),+].into_iter().zip(it) {
                out[k] = id;
            }
        }};
    }
    macro_rules! collect { ($r:expr, $it:expr) => { Take::take($r, &mut $it) }; }
    by_set!(s, go);
    out
}
fn delete<const F: usize>(w: &mut World, e: Entity, s: usize) {
    macro_rules! go { ($($k:literal)+) => { w.delete::<($(M<F, $k>,)+)>(e) }; }
    by_set!(s, go)
}

trait Take {
    fn take(self, out: &mut Vec<u32>);
}
impl<const F: usize, const A: usize> Take for (Option<M<F, A>>,) {
    fn take(self, o: &mut Vec<u32>) {
        o.push(opt(self.0.as_ref()));
    }
}
impl<const F: usize, const A: usize, const B: usize> Take for (Option<M<F, A>>, Option<M<F, B>>) {
    fn take(self, o: &mut Vec<u32>) {
        o.extend([opt(self.0.as_ref()), opt(self.1.as_ref())]);
    }
}
impl<const F: usize, const A: usize, const B: usize, const C: usize> Take for (Option<M<F, A>>, Option<M<F, B>>, Option<M<F, C>>) {
    fn take(self, o: &mut Vec<u32>) {
        o.extend([opt(self.0.as_ref()), opt(self.1.as_ref()), opt(self.2.as_ref())]);
    }
}
impl<const F: usize, const A: usize, const B: usize, const C: usize, const D: usize> Take
    for (Option<M<F, A>>, Option<M<F, B>>, Option<M<F, C>>, Option<M<F, D>>)
{
    fn take(self, o: &mut Vec<u32>) {
        o.extend([opt(self.0.as_ref()), opt(self.1.as_ref()), opt(self.2.as_ref()), opt(self.3.as_ref())]);
    }
}
fn opt<const F: usize, const K: usize>(m: Option<&M<F, K>>) -> u32 {
    m.map_or(0, M::id)
}

fn views<const F: usize>(w: &World, e: Entity) -> Ids {
    [
        opt(w.borrow::<M<F, 0>>().get(e)),
        opt(w.borrow::<M<F, 1>>().get(e)),
        opt(w.borrow::<M<F, 2>>().get(e)),
        opt(w.borrow_mut::<M<F, 3>>().get(e)),
    ]
}
fn point<const F: usize>(w: &World, e: Entity) -> Ids {
    let mut q = w.query_one::<(Option<&M<F, 0>>, Option<&M<F, 1>>, Option<&M<F, 2>>, Option<&M<F, 3>>)>();
    q.get(e).map_or([0; NK], |(a, b, c, d)| [opt(a), opt(b), opt(c), opt(d)])
}
fn column<const F: usize, const K: usize>(w: &World) -> Vec<(u64, u32)> {
    let v = w.borrow::<M<F, K>>();
    v.entities().iter().map(|&e| key(e)).zip(v.as_slice().iter().map(M::id)).collect()
}
fn whole<const F: usize>(w: &World) -> [Vec<(u64, u32)>; NK] {
    [column::<F, 0>(w), column::<F, 1>(w), column::<F, 2>(w), column::<F, 3>(w)]
}

fn query<const F: usize>(w: &World, q: usize) -> Got {
    let mut g = Got::default();
    macro_rules! one {
        ($ty:ty, $inc:ty, $exc:ty, |$p:pat_param| $row:expr, |$sp:pat_param| $cols:expr) => {{
            let mut q = w.query_all::<$ty>().include::<$inc>().exclude::<$exc>();
            {
                let it = q.iter();
                g.dense = it.is_dense();
                if let sparsey::query::Iter::Dense(d) = &it {
                    g.len = Some(d.len());
                }
                for $p in it {
                    g.rows.push($row);
                }
            }
            g.folded = q.iter().fold(vec![], |mut v, $p| {
                v.push($row);
                v
            });
            g.slices = q.slice().map(|$sp| {
                let (es, cols): (&[Entity], Vec<(usize, Vec<u32>)>) = $cols;
                g.slice_lens = std::iter::once(es.len()).chain(cols.iter().map(|c| c.1.len())).collect();
                es.iter()
                    .enumerate()
                    .map(|(i, &e)| {
                        let mut v = [0; NK];
                        for (k, c) in &cols {
                            v[*k] = c.get(i).copied().unwrap_or(u32::MAX);
                        }
                        Row { e: key(e), v }
                    })
                    .collect()
            });
        }};
    }
    fn ids<const F: usize, const K: usize>(s: &[M<F, K>]) -> (usize, Vec<u32>) {
        (K, s.iter().map(M::id).collect())
    }
    fn row<const N: usize>(e: Entity, vs: [(usize, u32); N]) -> Row {
        let mut v = [0; NK];
        for (k, id) in vs {
            v[k] = id;
        }
        Row { e: key(e), v }
    }
    match q {
        0 => one!((Entity, &M<F, 0>, &M<F, 1>), (), (), |(e, a, b)| row(e, [(0, a.id()), (1, b.id())]), |(e, a, b)| (e, vec![ids(a), ids(b)])),
        1 => one!((Entity, &M<F, 0>, &M<F, 1>, &M<F, 2>), (), (),
            |(e, a, b, c)| row(e, [(0, a.id()), (1, b.id()), (2, c.id())]), |(e, a, b, c)| (e, vec![ids(a), ids(b), ids(c)])),
        2 => one!((Entity, &mut M<F, 0>, &M<F, 1>, &M<F, 2>, &mut M<F, 3>), (), (),
            |(e, a, b, c, d)| row(e, [(0, a.id()), (1, b.id()), (2, c.id()), (3, d.id())]),
            |(e, a, b, c, d)| (e, vec![ids(a), ids(b), ids(c), ids(d)])),
        3 => one!((&M<F, 0>, Entity), &M<F, 1>, (), |(a, e)| row(e, [(0, a.id())]), |(a, e)| (e, vec![ids(a)])),
        4 => one!((Entity, &M<F, 0>, &M<F, 1>), (), &M<F, 2>,
            |(e, a, b)| row(e, [(0, a.id()), (1, b.id())]), |(e, a, b)| (e, vec![ids(a), ids(b)])),
        5 => one!((&mut M<F, 1>, &M<F, 2>, &mut M<F, 0>, Entity), (), (&M<F, 3>,),
            |(b, c, a, e)| row(e, [(0, a.id()), (1, b.id()), (2, c.id())]), |(b, c, a, e)| (e, vec![ids(a), ids(b), ids(c)])),
        6 => one!((&mut M<F, 2>, Entity, &mut M<F, 3>), (), (), |(c, e, d)| row(e, [(2, c.id()), (3, d.id())]), |(c, e, d)| (e, vec![ids(c), ids(d)])),
        7 => one!((Entity, &M<F, 1>), (), (), |(e, b)| row(e, [(1, b.id())]), |(e, b)| (e, vec![ids(b)])),
        _ => one!((Entity, &M<F, 0>, &M<F, 3>), (), (), |(e, a, d)| row(e, [(0, a.id()), (3, d.id())]), |(e, a, d)| (e, vec![ids(a), ids(d)])),
    }
    g
}

/// Replaces every value a mutable query hands out; returns the entities with the new ids.
fn rewrite<const F: usize>(w: &World, q: usize) -> Vec<(u64, Ids)> {
    let mut out = vec![];
    macro_rules! new { ($m:expr) => {{ let id = fresh(); $m.rewrite(id); id }}; }
    match q {
        2 => w.for_each::<(Entity, &mut M<F, 0>, &M<F, 1>, &M<F, 2>, &mut M<F, 3>)>(|(e, a, _, _, d)| out.push((key(e), [new!(a), 0, 0, new!(d)]))),
        5 => w
            .query_all::<(&mut M<F, 1>, &M<F, 2>, &mut M<F, 0>, Entity)>()
            .exclude::<(&M<F, 3>,)>()
            .for_each(|(b, _, a, e)| out.push((key(e), [new!(a), new!(b), 0, 0]))),
        _ => {
            let mut q = w.query_all::<(&mut M<F, 2>, Entity, &mut M<F, 3>)>();
            if let Some((c, e, d)) = q.slice() {
                for ((c, d), e) in c.iter_mut().zip(d).zip(e) {
                    out.push((key(*e), [0, 0, new!(c), new!(d)]));
                }
                return out;
            }
            q.for_each(|(c, e, d)| out.push((key(e), [0, 0, new!(c), new!(d)])));
        }
    }
    out
}

const fn fam<const F: usize>() -> Fam {
    Fam {
        data: [ComponentData::new::<M<F, 0>>, ComponentData::new::<M<F, 1>>, ComponentData::new::<M<F, 2>>, ComponentData::new::<M<F, 3>>],
        insert: insert::<F>,
        create: create::<F>,
        extend: extend::<F>,
        remove: remove::<F>,
        delete: delete::<F>,
        views: views::<F>,
        point: point::<F>,
        whole: whole::<F>,
        query: query::<F>,
        rewrite: rewrite::<F>,
    }
}
macro_rules! fams { ($($f:literal)*) => { [$(fam::<$f>()),*] }; }
pub static FAMS: [Fam; NF] = fams!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23);
