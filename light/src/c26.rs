//! C26: the cost of an operation against the size of what it does not concern.
//!
//! Every probe prepares a world with `n` bystanders and measures the processor time of one operation, averaged over a
//! batch. The cost with many bystanders is compared with the cost with few. A cost that grows with the bystanders is
//! hundreds of times higher; caches explain a factor of three.

use crate::kit::*;
use sparsey::component::GroupLayout;
use sparsey::{Entity, World};
use vcommon::{mix, Env, Rng, Stats};

struct A(u64);
#[allow(dead_code)]
struct B(String);
#[allow(dead_code)]
struct C([u64; 5]);
#[allow(dead_code)]
struct D(u8);

/// Processor time of this thread in nanoseconds.
fn cpu() -> u64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    let r = unsafe { clock_gettime(3, &mut t) };
    assert_eq!(r, 0, "no thread clock");
    (t.s as u64) * 1_000_000_000 + t.n as u64
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Lay {
    None,
    Pair,
    Chain,
    Two,
}

fn world(l: Lay) -> World {
    let mut g = GroupLayout::default();
    match l {
        Lay::None => {}
        Lay::Pair => g.add_group::<(A, B)>(),
        Lay::Chain => {
            g.add_group::<(A, B)>();
            g.add_group::<(A, B, C)>();
            g.add_group::<(A, B, C, D)>();
        }
        Lay::Two => {
            g.add_group::<(A, B)>();
            g.add_group::<(C, D)>();
        }
    }
    World::builder().set_layout(g).register::<A>().register::<B>().register::<C>().register::<D>().build()
}

/// `n` entities that have nothing to do with the operation, of all sorts.
fn bystanders(w: &mut World, n: usize) -> Vec<Entity> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        let i8 = i as u8;
        v.push(match i % 6 {
            0 => w.create((A(i as u64), B(String::new()))),
            1 => w.create((A(i as u64), B(String::new()), C([1; 5]))),
            2 => w.create((D(i8), A(1))),
            3 => w.create((C([2; 5]), B(String::new()), A(3), D(i8))),
            4 => w.create((C([2; 5]), D(i8))),
            _ => w.create(()),
        });
    }
    v
}

/// One operation: prepared once, then run in batches. `run` returns how many operations it performed.
struct Probe {
    name: &'static str,
    prepare: fn(&mut World, usize, &mut Rng) -> Vec<Entity>,
    run: fn(&mut World, &mut [Entity]) -> u64,
}

fn few(w: &mut World, n: usize, r: &mut Rng) -> Vec<Entity> {
    let mut v = bystanders(w, n);
    r.shuffle(&mut v);
    v.truncate(64);
    v
}

/// 50 entities with A and B (and now and then D), among `n` having one of them only.
fn rare_pairs(w: &mut World, n: usize, _: &mut Rng) -> Vec<Entity> {
    for i in 0..n / 2 {
        w.create((A(i as u64),));
        w.create((D(1),));
    }
    let v = (0..50).map(|i| w.create((A(i), B(String::new())))).collect();
    for i in 0..n / 2 {
        w.create((A(i as u64), C([0; 5])));
    }
    v
}

/// 50 entities with A and B only, `n` with C in addition.
fn rare_without(w: &mut World, n: usize, _: &mut Rng) -> Vec<Entity> {
    for _ in 0..n {
        w.create((A(0), B(String::new()), C([0; 5])));
    }
    (0..50).map(|i| w.create((A(i), B(String::new())))).collect()
}

const PROBES: &[Probe] = &[
    Probe {
        name: "create and destroy an entity without components",
        prepare: few,
        run: |w, _| {
            for _ in 0..200 {
                let e = w.create(());
                assert!(w.destroy(e), "destroy failed");
            }
            200
        },
    },
    Probe {
        name: "create and destroy an entity with four components",
        prepare: few,
        run: |w, _| {
            for _ in 0..200 {
                let e = w.create((A(1), B(String::new()), C([0; 5]), D(1)));
                assert!(w.destroy(e), "destroy failed");
            }
            200
        },
    },
    Probe {
        name: "destroy an entity somewhere and create another",
        prepare: few,
        run: |w, es| {
            for e in es.iter_mut() {
                assert!(w.destroy(*e), "destroy failed");
                *e = w.create((A(0), B(String::new())));
            }
            es.len() as u64
        },
    },
    Probe {
        name: "insert and remove a component",
        prepare: few,
        run: |w, es| {
            for e in es.iter() {
                w.insert(*e, (B(String::new()),));
                drop(w.remove::<(B,)>(*e));
                w.insert(*e, (A(1), C([1; 5])));
                drop(w.remove::<(C, A)>(*e));
            }
            es.len() as u64
        },
    },
    Probe {
        name: "insert and delete several components",
        prepare: few,
        run: |w, es| {
            for e in es.iter() {
                w.insert(*e, (A(1), B(String::new()), C([0; 5]), D(2)));
                w.delete::<(A, B, C, D)>(*e);
            }
            es.len() as u64
        },
    },
    Probe {
        name: "overwrite a component",
        prepare: few,
        run: |w, es| {
            for e in es.iter() {
                w.insert(*e, (A(2),));
                w.insert(*e, (A(3), B(String::new())));
            }
            es.len() as u64
        },
    },
    Probe {
        name: "extend by two rows and destroy them",
        prepare: few,
        run: |w, _| {
            for _ in 0..50 {
                let v = w.extend([(A(1), B(String::new())), (A(2), B(String::new()))]).to_vec();
                for e in v {
                    assert!(w.destroy(e), "destroy failed");
                }
            }
            50
        },
    },
    Probe {
        name: "liveness and component lookups",
        prepare: few,
        run: |w, es| {
            for e in es.iter() {
                let mut n = u64::from(w.contains_entity(*e));
                n += u64::from(w.contains::<&A>(*e)) + u64::from(w.contains::<(&A, &B)>(*e));
                n += w.query_one::<(&A, Option<&C>)>().exclude::<&D>().map(*e, |(a, _)| a.0).unwrap_or(1);
                n += w.borrow::<A>().get(*e).map_or(0, |a| a.0);
                if let Some(a) = w.borrow_mut::<A>().get_mut(*e) {
                    a.0 += 1;
                }
                std::hint::black_box(n);
            }
            es.len() as u64
        },
    },
    Probe {
        name: "atomic creation, maintenance and destruction",
        prepare: few,
        run: |w, _| {
            for _ in 0..50 {
                let a = w.create_atomic();
                let b = w.create_atomic();
                w.maintain();
                assert!(w.destroy(a) && w.destroy(b), "destroy failed");
            }
            50
        },
    },
    Probe {
        name: "creation while many handles are pending",
        prepare: |w, n, r| {
            let v = few(w, 100, r);
            for _ in 0..n {
                let _ = w.create_atomic();
            }
            v
        },
        run: |w, _| {
            for _ in 0..50 {
                let e = w.create((A(1),));
                let _ = w.create_atomic();
                assert!(w.destroy(e), "destroy failed");
            }
            50
        },
    },
    Probe {
        name: "creation and maintenance while many indices wait to be recycled",
        prepare: |w, n, r| {
            let v = bystanders(w, n);
            for e in v {
                w.destroy(e);
            }
            few(w, 64, r)
        },
        run: |w, _| {
            for _ in 0..50 {
                let a = w.create(());
                let b = w.create_atomic();
                w.maintain();
                assert!(w.destroy(a) && w.destroy(b), "destroy failed");
            }
            50
        },
    },
    Probe {
        name: "building queries, first items and slices",
        prepare: few,
        run: |w, _| {
            let mut n = 0;
            for _ in 0..20 {
                n += w.query_all::<(&A, &B)>().iter().size_hint().0;
                n += usize::from(w.query_all::<(Entity, &A)>().iter().next().is_some());
                n += w.query_all::<&A>().slice().map_or(0, <[A]>::len);
                n += usize::from(w.query_all::<(&A, &B)>().slice().is_some());
                n += usize::from(w.query_all::<(&mut C, &D)>().slice().is_some());
                n += usize::from(w.query_all::<&A>().include::<&B>().exclude::<&C>().slice().is_some());
                n += w.borrow::<C>().len() + w.entities().len() + usize::from(w.is_empty());
                n += w.borrow::<C>().as_slice().len() + w.borrow::<C>().entities().len();
            }
            std::hint::black_box(n);
            20
        },
    },
    Probe {
        name: "registering",
        prepare: few,
        run: |w, _| {
            for _ in 0..50 {
                assert!(!w.register::<A>() && w.is_registered::<B>(), "registration lost");
            }
            50
        },
    },
    Probe {
        name: "iterating two components of which one is rare",
        prepare: rare_pairs,
        run: |w, _| {
            let mut n = 0;
            w.for_each::<(&A, &B)>(|(a, _)| n += a.0);
            w.query_all::<(Entity, &mut A)>().include::<&B>().for_each(|(_, a)| a.0 += 1);
            w.query_all::<&B>().include::<&A>().exclude::<&C>().iter().for_each(|b| n += b.0.len() as u64);
            n += w.query_all::<(&A, &B, Option<&D>)>().iter().count() as u64;
            std::hint::black_box(n);
            200
        },
    },
    Probe {
        name: "iterating one rare component",
        prepare: rare_pairs,
        run: |w, _| {
            let mut n = 0;
            w.for_each::<&B>(|b| n += b.0.len());
            n += w.query_all::<(Entity, &mut B)>().iter().count();
            std::hint::black_box(n);
            100
        },
    },
];

/// Only dense when the layout groups A and B, and A, B and C.
const DENSE: &[Probe] = &[Probe {
    name: "iterating the few rows of a group that the next larger group leaves",
    prepare: rare_without,
    run: |w, _| {
        let mut n = 0;
        w.query_all::<(&A, &B)>().exclude::<&C>().for_each(|(a, _)| n += a.0);
        n += w.query_all::<&A>().include::<&B>().exclude::<&C>().iter().count() as u64;
        std::hint::black_box(n);
        100
    },
}];

/// Nanoseconds per operation, the best of `tries` batches.
fn measure(p: &Probe, l: Lay, n: usize, tries: usize, seed: u64) -> f64 {
    let mut r = Rng::new(seed);
    let mut w = world(l);
    let mut es = (p.prepare)(&mut w, n, &mut r);
    // Storage grows here.
    for _ in 0..3 {
        (p.run)(&mut w, &mut es);
    }
    let mut best = f64::MAX;
    for _ in 0..tries {
        let t = cpu();
        let k = (p.run)(&mut w, &mut es).max(1);
        best = best.min((cpu() - t) as f64 / k as f64);
    }
    best
}

/// Nanoseconds per entity for building and emptying a world of `n`.
fn bulk(l: Lay, n: usize) -> f64 {
    let t = cpu();
    let mut w = world(l);
    let v = bystanders(&mut w, n);
    w.extend((0..n / 2).map(|i| (B(String::new()), A(i as u64))));
    for _ in 0..n / 2 {
        let _ = w.create_atomic();
    }
    w.maintain();
    for (i, e) in v.iter().enumerate() {
        match i % 3 {
            0 => w.delete::<(A, D)>(*e),
            1 => {
                w.insert(*e, (D(3), B(String::new())));
            }
            _ => {
                w.destroy(*e);
            }
        }
    }
    let g = world(if l == Lay::None { Lay::Chain } else { Lay::None });
    drop(g);
    w.reset();
    (cpu() - t) as f64 / n as f64
}

/// What a cost may grow to when there are a thousand times more bystanders.
fn limit(small: f64) -> f64 {
    500.0 + 12.0 * small
}

pub fn run(env: &Env, st: &mut Stats) -> Out {
    let lays = [Lay::None, Lay::Pair, Lay::Chain, Lay::Two];
    let mut jobs: Vec<(Option<&Probe>, Lay)> = vec![];
    for l in lays {
        jobs.extend(PROBES.iter().map(|p| (Some(p), l)));
        jobs.push((None, l));
    }
    jobs.extend(DENSE.iter().map(|p| (Some(p), Lay::Chain)));
    for round in 0..if env.thorough { 6 } else { 1 } {
        for (i, (p, l)) in jobs.iter().enumerate() {
            if i as u64 % env.shards != env.shard {
                continue;
            }
            let (lo, hi) = if env.thorough { (200 << round, 200_000 << (round % 4)) } else { (300, 300_000) };
            let name = p.map_or("building and emptying a world", |p| p.name);
            env.note_case(&format!("{name}, {l:?}"));
            let seed = mix(env.seed, (i * 10 + round) as u64);
            let cost = |n: usize, tries: usize| match p {
                Some(p) => measure(p, *l, n, tries, seed),
                None => (0..tries.min(2)).map(|_| bulk(*l, n)).fold(f64::MAX, f64::min),
            };
            let small = cost(lo, 40);
            let mut large = cost(hi, 12);
            if large > limit(small) {
                // Once more, with patience.
                large = large.min(cost(hi, 60));
            }
            st.add("costs_compared", 1);
            st.max("largest_ratio_percent", (large / small.max(1.0) * 100.0) as u64);
            st.max("largest_cost_ns", large as u64);
            st.eval(Some(mix(i as u64, hi as u64)));
            st.sample(6, || format!("{name}, groups {l:?}: {small:.0} ns with {lo} bystanders, {large:.0} ns with {hi}"));
            if large > limit(small) {
                return found(
                    "cost",
                    format!("{name}: {large:.0} ns per operation with {hi} bystanders, {small:.0} ns with {lo}"),
                    format!("groups {l:?}"),
                    "",
                );
            }
        }
    }
    Ok(())
}
