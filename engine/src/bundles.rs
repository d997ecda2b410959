//! Component tuples: type-erased drivers over `ComponentSet` instantiations.

use crate::types::*;
use sparsey::component::{ComponentData, ComponentSet};
use sparsey::{Entity, World};

pub trait BX: ComponentSet + Sized {
    const N: usize;
    fn types() -> Vec<usize>;
    fn mk(ids: &[u32]) -> Self;
    fn ids(r: <Self as ComponentSet>::Remove) -> Vec<Option<u32>>;
}

impl BX for () {
    const N: usize = 0;
    fn types() -> Vec<usize> {
        vec![]
    }
    fn mk(_: &[u32]) -> Self {}
    fn ids((): ()) -> Vec<Option<u32>> {
        vec![]
    }
}

macro_rules! btup {
    ($n:tt; $(($A:ident, $i:tt)),+) => {
        impl<$($A: Tr),+> BX for ($($A,)+) {
            const N: usize = $n;
            fn types() -> Vec<usize> {
                vec![$($A::IX),+]
            }
            fn mk(ids: &[u32]) -> Self {
                ($($A::mk(ids[$i]),)+)
            }
            fn ids(r: <Self as ComponentSet>::Remove) -> Vec<Option<u32>> {
                vec![$(r.$i.as_ref().map(|x| x.rd())),+]
            }
        }
    };
}
btup!(1; (A, 0));
btup!(2; (A, 0), (B, 1));
btup!(3; (A, 0), (B, 1), (C, 2));
btup!(4; (A, 0), (B, 1), (C, 2), (D, 3));
btup!(5; (A, 0), (B, 1), (C, 2), (D, 3), (E, 4));
btup!(6; (A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5));
btup!(7; (A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6));
btup!(8; (A, 0), (B, 1), (C, 2), (D, 3), (E, 4), (F, 5), (G, 6), (H, 7));

pub struct Bundle {
    pub name: &'static str,
    pub types: Vec<usize>,
    pub mask: u16,
    pub create: fn(&mut World, &[u32]) -> Entity,
    pub insert: fn(&mut World, Entity, &[u32]) -> bool,
    pub remove: fn(&mut World, Entity) -> Vec<Option<u32>>,
    /// Removes and drops the returned values without reading them.
    pub delete: fn(&mut World, Entity),
    /// `ids` holds one run of ids per row; `mode` picks the kind of iterator; `stop` panics after that many rows.
    pub extend: fn(&mut World, &[u32], usize, u8, Option<usize>) -> Vec<Entity>,
}

impl Bundle {
    pub fn dup(&self) -> bool {
        self.mask.count_ones() as usize != self.types.len()
    }
}

fn b_create<B: BX>(w: &mut World, ids: &[u32]) -> Entity {
    w.create(B::mk(ids))
}
fn b_insert<B: BX>(w: &mut World, e: Entity, ids: &[u32]) -> bool {
    w.insert(e, B::mk(ids))
}
fn b_remove<B: BX>(w: &mut World, e: Entity) -> Vec<Option<u32>> {
    B::ids(w.remove::<B>(e))
}
fn b_delete<B: BX>(w: &mut World, e: Entity) {
    w.delete::<B>(e);
}
/// An iterator with a wrong size hint.
struct Unsure<I>(I, usize);
impl<I: Iterator> Iterator for Unsure<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 % 3 {
            0 => (self.1 + 5, Some(self.1 + 5)),
            1 => (0, Some(self.1 / 2)),
            _ => (self.1 / 2, Some(self.1 / 2)),
        }
    }
}
fn b_extend<B: BX>(w: &mut World, ids: &[u32], n: usize, mode: u8, stop: Option<usize>) -> Vec<Entity> {
    let mk = |i: usize| {
        if stop == Some(i) {
            std::panic::panic_any(vcommon::Injected);
        }
        B::mk(&ids[i * B::N..(i + 1) * B::N])
    };
    match mode % 8 {
        0 => w.extend((0..n).map(mk)).to_vec(),
        // Ends where its hint does not say.
        4 => w.extend(Unsure((0..n).map(mk), n)).to_vec(),
        5 => w.extend(Box::new((0..n).map(mk)) as Box<dyn Iterator<Item = B> + '_>).to_vec(),
        6 => w.extend((0..n / 3).chain(n / 3..n).map(mk).peekable()).to_vec(),
        7 => w.extend((0..n).rev().map(|i| mk(n - 1 - i)).inspect(|_| ())).to_vec(),
        1 => {
            let v: Vec<B> = (0..n).map(mk).collect();
            w.extend(v).to_vec()
        }
        2 => w.extend((0..n * 2).filter(|i| i % 2 == 0).map(|i| mk(i / 2))).to_vec(),
        _ => {
            let mut i = 0;
            w.extend(std::iter::from_fn(|| {
                (i < n).then(|| {
                    i += 1;
                    mk(i - 1)
                })
            }))
            .to_vec()
        }
    }
}

pub fn make<B: BX>(name: &'static str) -> Bundle {
    let types = B::types();
    Bundle {
        name,
        mask: types.iter().fold(0, |m, t| m | (1 << t)),
        types,
        create: b_create::<B>,
        insert: b_insert::<B>,
        remove: b_remove::<B>,
        delete: b_delete::<B>,
        extend: b_extend::<B>,
    }
}

macro_rules! bundles {
    ($($B:ty;)*) => {
        pub fn bundles() -> Vec<Bundle> {
            vec![$(make::<$B>(stringify!($B))),*]
        }
    };
}
pub(crate) use bundles;

pub fn comp_data(t: usize) -> ComponentData {
    match t {
        0 => ComponentData::new::<T0>(),
        1 => ComponentData::new::<T1>(),
        2 => ComponentData::new::<T2>(),
        3 => ComponentData::new::<T3>(),
        4 => ComponentData::new::<T4>(),
        5 => ComponentData::new::<T5>(),
        6 => ComponentData::new::<T6>(),
        _ => ComponentData::new::<T7>(),
    }
}

/// Calls a generic item with the component type of index `$t`.
macro_rules! with_type {
    ($t:expr, $T:ident => $body:expr) => {
        match $t {
            0 => {
                type $T = crate::types::T0;
                $body
            }
            1 => {
                type $T = crate::types::T1;
                $body
            }
            2 => {
                type $T = crate::types::T2;
                $body
            }
            3 => {
                type $T = crate::types::T3;
                $body
            }
            4 => {
                type $T = crate::types::T4;
                $body
            }
            5 => {
                type $T = crate::types::T5;
                $body
            }
            6 => {
                type $T = crate::types::T6;
                $body
            }
            _ => {
                type $T = crate::types::T7;
                $body
            }
        }
    };
}
pub(crate) use with_type;
