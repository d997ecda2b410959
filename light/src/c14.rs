//! C14: reader/writer rules of component borrows, judged by a table of held borrows.

use crate::kit::*;
use sparsey::query::Query;
use sparsey::{Entity, World};
use vcommon::{mix, Env, Hash64, Injected, Rng, Stats};

#[derive(Debug, PartialEq)]
struct A(u32);
#[derive(Debug, PartialEq)]
struct B(String);
#[derive(Debug, PartialEq)]
struct C(u8);
#[derive(Debug, PartialEq)]
struct D;
/// Never owned by any entity.
#[derive(Debug, PartialEq)]
struct N(u64);

const NT: usize = 5;

/// Something that keeps its borrows until it is dropped.
trait Held {}
impl<T> Held for T {}

type Acq = for<'w> fn(&'w World) -> Box<dyn Held + 'w>;
type With = fn(&World, Entity, &mut dyn FnMut());

/// One kind of request: its accesses in order (type, exclusive), how to acquire it to hold, and scoped ways of
/// holding it while other code runs.
struct Kind {
    name: &'static str,
    acc: Vec<(usize, bool)>,
    acq: Option<Acq>,
    scoped: Option<With>,
}

struct IterHold<'w, G: Query + 'w, I: Query + 'w, E: Query + 'w> {
    it: Option<sparsey::query::Iter<'w, G, I, E>>,
    q: *mut sparsey::query::QueryAll<'w, G, I, E>,
}
impl<'w, G: Query, I: Query, E: Query> Drop for IterHold<'w, G, I, E> {
    fn drop(&mut self) {
        self.it = None;
        // SAFETY: the iterator is gone; `q` came from Box::into_raw.
        drop(unsafe { Box::from_raw(self.q) });
    }
}

fn hold_iter<'w, G: Query + 'w, I: Query + 'w, E: Query + 'w>(q: sparsey::query::QueryAll<'w, G, I, E>) -> Box<dyn Held + 'w> {
    let q = Box::into_raw(Box::new(q));
    // SAFETY: the query lives on the heap until IterHold is dropped, after the iterator.
    let it = unsafe { (*q).iter() };
    Box::new(IterHold { it: Some(it), q })
}

fn acc_of(s: &str) -> Vec<(usize, bool)> {
    // "A", "B!" (exclusive), separated by blanks.
    s.split_whitespace()
        .map(|p| {
            let t = "ABCDN".find(&p[..1]).unwrap();
            (t, p.ends_with('!'))
        })
        .collect()
}

macro_rules! view {
    ($v:ident, $T:ty, $acc:expr, $m:ident) => {
        $v.push(Kind {
            name: concat!(stringify!($m), "::<", stringify!($T), ">"),
            acc: acc_of($acc),
            acq: Some(|w| Box::new(w.$m::<$T>())),
            scoped: None,
        });
    };
}
macro_rules! all {
    ($v:ident, [$G:ty | $I:ty | $E:ty], $acc:expr) => {
        // Filters are borrowed in the order in which they are applied.
        $v.push(Kind {
            name: concat!("query_all [", stringify!($G), " | ", stringify!($I), " | ", stringify!($E), "]"),
            acc: acc_of($acc),
            acq: Some(|w| Box::new(w.query_all::<$G>().include::<$I>().exclude::<$E>())),
            scoped: Some(|w, _, f| {
                let mut q = w.query_all::<$G>().exclude::<$E>().include::<$I>();
                let mut done = false;
                q.for_each(|_| {
                    if !done {
                        done = true;
                        f();
                    }
                });
                if !done {
                    f();
                }
            }),
        });
    };
}
macro_rules! one {
    ($v:ident, [$G:ty | $I:ty | $E:ty], $acc:expr) => {
        $v.push(Kind {
            name: concat!("query_one [", stringify!($G), " | ", stringify!($I), " | ", stringify!($E), "]"),
            acc: acc_of($acc),
            acq: Some(|w| Box::new(w.query_one::<$G>().include::<$I>().exclude::<$E>())),
            scoped: Some(|w, e, f| {
                let mut q = w.query_one::<$G>().exclude::<$E>().include::<$I>();
                let mut done = false;
                q.map(e, |_| {
                    done = true;
                    f();
                });
                if !done {
                    f();
                }
            }),
        });
    };
}
macro_rules! iter {
    ($v:ident, [$G:ty | $I:ty | $E:ty], $acc:expr) => {
        $v.push(Kind {
            name: concat!("iter [", stringify!($G), " | ", stringify!($I), " | ", stringify!($E), "]"),
            acc: acc_of($acc),
            acq: Some(|w| hold_iter(w.query_all::<$G>().include::<$I>().exclude::<$E>())),
            scoped: Some(|w, _, f| {
                let mut q = w.query_all::<$G>().include::<$I>().exclude::<$E>();
                let mut it = q.iter();
                let x = it.next();
                f();
                drop(x);
                let _ = it.size_hint();
            }),
        });
    };
}
macro_rules! slice {
    ($v:ident, [$G:ty | $E:ty], $acc:expr) => {
        $v.push(Kind {
            name: concat!("slice [", stringify!($G), " | ", stringify!($E), "]"),
            acc: acc_of($acc),
            acq: None,
            scoped: Some(|w, _, f| {
                let mut q = w.query_all::<$G>().exclude::<$E>();
                let s = q.slice();
                f();
                drop(s);
            }),
        });
    };
}
macro_rules! scoped {
    ($v:ident, $name:expr, $acc:expr, $f:expr) => {
        $v.push(Kind { name: $name, acc: acc_of($acc), acq: None, scoped: Some($f) });
    };
}

fn kinds() -> Vec<Kind> {
    let mut v = vec![];
    view!(v, A, "A", borrow);
    view!(v, A, "A!", borrow_mut);
    view!(v, B, "B", borrow);
    view!(v, B, "B!", borrow_mut);
    view!(v, C, "C", borrow_with_group_info);
    view!(v, C, "C!", borrow_with_group_info_mut);
    view!(v, A, "A", borrow_with_group_info);
    view!(v, D, "D!", borrow_with_group_info_mut);
    view!(v, N, "N", borrow);
    view!(v, N, "N!", borrow_mut);
    all!(v, [&A | () | ()], "A");
    all!(v, [&mut A | () | ()], "A!");
    all!(v, [(&A, &B) | () | ()], "A B");
    all!(v, [(&mut A, &B) | () | ()], "A! B");
    all!(v, [(&A, &mut B) | () | ()], "A B!");
    all!(v, [(Entity, &mut C, Option<&A>) | () | ()], "C! A");
    all!(v, [(&C, Option<&mut A>) | () | ()], "C A!");
    all!(v, [&A | &B | ()], "A B");
    all!(v, [&mut A | &B | &C], "A! B C");
    all!(v, [&A | () | &C], "A C");
    all!(v, [&A | () | (&B, &C)], "A B C");
    all!(v, [(&A, &B, &C) | () | &D], "A B C D");
    all!(v, [(&mut A, &mut B, &mut C, &mut D) | () | ()], "A! B! C! D!");
    all!(v, [(&D, &N) | () | ()], "D N");
    all!(v, [&mut N | &A | ()], "N! A");
    // Requests that conflict with themselves.
    all!(v, [(&A, &mut A) | () | ()], "A A!");
    all!(v, [(&mut B, &B) | () | ()], "B! B");
    all!(v, [(&C, &D, &mut C) | () | ()], "C D C!");
    all!(v, [&mut A | &A | ()], "A! A");
    all!(v, [&mut B | () | &B], "B! B");
    all!(v, [(&A, Option<&mut A>) | () | ()], "A A!");
    // The same type more than once, but shared.
    all!(v, [(&A, &A) | () | ()], "A A");
    all!(v, [(&A, Option<&A>) | &A | ()], "A A A");
    one!(v, [&A | () | ()], "A");
    one!(v, [&mut B | () | ()], "B!");
    one!(v, [(&A, &mut C) | &B | ()], "A C! B");
    one!(v, [Option<&mut D> | () | &A], "D! A");
    one!(v, [(&N, &A) | () | ()], "N A");
    one!(v, [(&mut A, &A) | () | ()], "A! A");
    iter!(v, [&A | () | ()], "A");
    iter!(v, [&mut A | () | ()], "A!");
    iter!(v, [(&A, &mut B) | () | &C], "A B! C");
    iter!(v, [(&mut C, &D) | &A | ()], "C! D A");
    slice!(v, [&A | ()], "A");
    slice!(v, [(&mut A, &B) | ()], "A! B");
    slice!(v, [(&A, &B) | &C], "A B C");
    scoped!(v, "World::for_each [(&mut A, &C)]", "A! C", |w, _, f| {
        let mut done = false;
        w.for_each::<(&mut A, &C)>(|_| {
            if !done {
                done = true;
                f();
            }
        });
        if !done {
            let mut q = w.query_all::<(&mut A, &C)>();
            f();
            drop(q.iter().next());
        }
    });
    scoped!(v, "World::for_each [(Entity, &B)]", "B", |w, _, f| {
        let mut done = false;
        w.for_each::<(Entity, &B)>(|_| {
            if !done {
                done = true;
                f();
            }
        });
        if !done {
            let q = w.query_all::<&B>();
            f();
            drop(q);
        }
    });
    // Borrows only while it runs.
    scoped!(v, "World::contains [(&A, &mut B)]", "A B!", |w, e, f| {
        let _ = w.contains::<(&A, &mut B)>(e);
        let q = w.query_one::<(&A, &mut B)>();
        f();
        drop(q);
    });
    // Nothing is borrowed by these.
    v.push(Kind { name: "query_all [Entity]", acc: vec![], acq: Some(|w| Box::new(w.query_all::<Entity>())), scoped: None });
    scoped!(v, "create_atomic and liveness", "", |w, e, f| {
        let n = w.create_atomic();
        let _ = (w.contains_entity(e), w.contains_entity(n), w.entities().len(), w.is_empty(), w.is_registered::<A>());
        f();
    });
    v
}

/// Shared and exclusive borrows held per type.
#[derive(Clone, Default, Debug, PartialEq)]
struct Table {
    r: [u32; NT],
    w: [u32; NT],
}

impl Table {
    fn grant(&self, acc: &[(usize, bool)]) -> Option<Table> {
        let mut t = self.clone();
        for &(k, ex) in acc {
            if ex {
                if t.r[k] + t.w[k] > 0 {
                    return None;
                }
                t.w[k] += 1;
            } else {
                if t.w[k] > 0 {
                    return None;
                }
                t.r[k] += 1;
            }
        }
        Some(t)
    }
    fn release(&mut self, acc: &[(usize, bool)]) {
        for &(k, ex) in acc {
            if ex {
                self.w[k] -= 1;
            } else {
                self.r[k] -= 1;
            }
        }
    }
}

fn world(r: &mut Rng, how: usize) -> (World, Vec<Entity>) {
    let mut b = World::builder();
    b.register::<A>().register::<B>().register::<C>().register::<D>().register::<N>();
    match how % 4 {
        0 => {}
        1 => {
            b.add_group::<(A, B)>();
        }
        2 => {
            b.add_group::<(A, B)>().add_group::<(A, B, C)>();
        }
        _ => {
            b.add_group::<(C, D)>().add_group::<(A, B)>();
        }
    }
    let mut w = b.build();
    let mut es = vec![];
    for i in 0..r.below(7) as u32 {
        let e = w.create(());
        if r.chance(2, 3) {
            w.insert(e, (A(i),));
        }
        if r.chance(2, 3) {
            w.insert(e, (B("b".repeat(i as usize + 1)),));
        }
        if r.chance(1, 2) {
            w.insert(e, (C(i as u8),));
        }
        if r.chance(1, 2) {
            w.insert(e, (D,));
        }
        es.push(e);
    }
    if es.is_empty() {
        es.push(w.create(()));
    }
    (w, es)
}

/// Tries every single-type access and compares with the table.
fn probe(w: &World, t: &Table, ctx: &dyn Fn() -> String, st: &mut Stats) -> Out {
    macro_rules! p {
        ($T:ty, $i:expr) => {
            for ex in [false, true] {
                let want = t.grant(&[($i, ex)]).is_some();
                let got = if ex { attempt(|| drop(w.borrow_mut::<$T>())) } else { attempt(|| drop(w.borrow::<$T>())) };
                st.evaluations += 1;
                if got.is_ok() != want {
                    let what = if ex { "an exclusive" } else { "a shared" };
                    let res = if want { "refused" } else { "granted" };
                    return found(
                        "borrow-table",
                        format!("{what} borrow of {} is {res} {}; held now: shared {:?} exclusive {:?}", stringify!($T), ctx(), t.r, t.w),
                        ctx(),
                        "",
                    );
                }
            }
        };
    }
    p!(A, 0);
    p!(B, 1);
    p!(C, 2);
    p!(D, 3);
    p!(N, 4);
    Ok(())
}

struct Nest<'a> {
    ks: &'a [Kind],
    w: &'a World,
    e: Entity,
    st: &'a mut Stats,
}

impl Nest<'_> {
    /// Opens the kinds of `path` one inside the other; `blow`: panic at the bottom.
    fn go(&mut self, path: &[usize], t: &Table, names: &str, blow: bool) -> Out {
        let Some((&k, rest)) = path.split_first() else {
            let names = names.to_string();
            probe(self.w, t, &move || format!("inside {names}"), self.st)?;
            if blow {
                std::panic::panic_any(Injected);
            }
            return Ok(());
        };
        let ks = self.ks;
        let kind = &ks[k];
        let next = t.grant(&kind.acc);
        let mut h = Hash64::default();
        h.add(k as u64);
        for i in 0..NT {
            h.add(u64::from(t.r[i].min(3))).add(u64::from(t.w[i]));
        }
        self.st.eval(Some(h.0));
        let here = format!("{names} > {}", kind.name);
        let (w, e) = (self.w, self.e);
        let mut inner: Out = Ok(());
        let mut entered = false;
        let use_scoped = kind.acq.is_none() || (kind.scoped.is_some() && path.len() % 2 == 1);
        let bad = next.is_none();
        let t2 = next.clone().unwrap_or_default();
        let r = attempt(|| {
            let mut body = || {
                entered = true;
                if !bad {
                    inner = self.go(rest, &t2, &here, blow);
                }
            };
            if use_scoped {
                (kind.scoped.unwrap())(w, e, &mut body);
            } else {
                let held = (kind.acq.unwrap())(w);
                body();
                drop(held);
            }
        });
        inner?;
        match (r, bad) {
            (Ok(()), false) => self.st.add("granted", 1),
            (Err(p), false) if p.injected => {
                self.st.add("unwound", 1);
            }
            (Err(p), false) => return found("borrow-table", format!("a compatible request was refused ({}): {here}", p.msg), here, ""),
            (Err(_), true) => self.st.add("refused", 1),
            (Ok(()), true) => return found("borrow-table", format!("a conflicting request was granted: {here}"), here, ""),
        }
        if bad && entered {
            return found("borrow-table", format!("user code ran under a conflicting request: {here}"), here, "");
        }
        // Whatever happened, exactly the outer borrows are held again.
        let names = here.clone();
        probe(self.w, t, &move || format!("after {names}"), self.st)
    }
}

pub fn run(env: &Env, st: &mut Stats) -> Out {
    let ks = kinds();
    let n = ks.len();
    st.max("kinds_of_requests", n as u64);
    let mut r = Rng::new(mix(env.seed, 1400 + env.shard));
    // Every nesting of two kinds, with and without a panic at the bottom; three kinds are sampled (quick) or all
    // enumerated (thorough).
    let mut i = 0u64;
    let depth3 = if cfg!(miri) { 0 } else if env.thorough { 100 } else { 25 };
    for a in 0..n {
        env.note_case(&format!("nestings inside {}", ks[a].name));
        for b in 0..n {
            i += 1;
            if i % env.shards != env.shard || (cfg!(miri) && !r.chance(env.scale as usize, 400)) {
                continue;
            }
            let how = r.below(4);
            let (w, es) = world(&mut r, how);
            let e = es[r.below(es.len())];
            let mut nest = Nest { ks: &ks, w: &w, e, st: &mut *st };
            for blow in [false, true] {
                let res = attempt(|| nest.go(&[a, b], &Table::default(), "world", blow));
                if let Ok(r) = res {
                    r?;
                }
                for c in 0..n {
                    if r.below(100) < depth3 {
                        let res = attempt(|| nest.go(&[a, b, c], &Table::default(), "world", blow));
                        if let Ok(r) = res {
                            r?;
                        }
                    }
                }
            }
        }
    }
    st.add("pairs_of_requests_enumerated", 1);
    // Any number of requests held at once, released in any order, with refused requests in between.
    let rounds = env.cases(if env.thorough { 8_000_000 } else { 400_000 }) / env.shards.max(1) + 1;
    for round in 0..rounds {
        if env.out_of_time() {
            st.add("stopped_by_clock", 1);
            break;
        }
        let seed = mix(mix(env.seed, 77), round * env.shards + env.shard);
        env.note_case(&format!("holding sequence seed {seed:#x}"));
        let mut r = Rng::new(seed);
        let how = r.below(4);
        let (mut w, mut es) = world(&mut r, how);
        for _ in 0..2 {
            let mut log: Vec<String> = vec![];
            let mut held: Vec<(usize, Box<dyn Held + '_>)> = vec![];
            let mut t = Table::default();
            let wr = &w;
            for step in 0..r.range(4, 30) {
                if held.is_empty() || r.chance(3, 5) {
                    let k = r.below(n);
                    let Some(acq) = ks[k].acq else { continue };
                    let next = t.grant(&ks[k].acc);
                    log.push(ks[k].name.into());
                    let mut h = Hash64::default();
                    h.add(k as u64 + 5000);
                    for i in 0..NT {
                        h.add(u64::from(t.r[i].min(4))).add(u64::from(t.w[i]));
                    }
                    st.eval(Some(h.0));
                    match (attempt(|| acq(wr)), next) {
                        (Ok(x), Some(nt)) => {
                            held.push((k, x));
                            t = nt;
                            st.add("granted", 1);
                        }
                        (Err(_), None) => st.add("refused", 1),
                        (Ok(_), None) => return found("borrow-table", format!("conflicting {} granted after {log:?}", ks[k].name), format!("seed {seed:#x}"), log.join("\n")),
                        (Err(p), Some(_)) => {
                            return found("borrow-table", format!("compatible {} refused ({}) after {log:?}", ks[k].name, p.msg), format!("seed {seed:#x}"), log.join("\n"))
                        }
                    }
                } else {
                    let (k, x) = held.swap_remove(r.below(held.len()));
                    log.push(format!("drop {}", ks[k].name));
                    if r.chance(1, 4) {
                        // Dropped by unwinding.
                        let res = attempt(move || {
                            let _x = x;
                            std::panic::panic_any(Injected);
                        });
                        let _: Result<(), _> = res;
                        st.add("unwound", 1);
                    } else {
                        drop(x);
                    }
                    t.release(&ks[k].acc);
                }
                st.max("most_borrows_held", held.len() as u64);
                if step % 4 == 0 {
                    let l = log.clone();
                    probe(wr, &t, &move || format!("after {l:?}"), st)?;
                }
            }
            let count = held.len();
            drop(held);
            let l = log.clone();
            probe(wr, &Table::default(), &move || format!("after dropping everything, {l:?}"), st)?;
            st.sample(6, || format!("{count} borrows held at the end of: {}", log.join("; ")));
            // The world is fully usable again, exclusive operations included.
            if let Err(p) = attempt(|| {
                let e = es[r.below(es.len())];
                w.insert(e, (A(9), B("x".into()), D));
                w.delete::<(B,)>(e);
                es.push(w.create((C(1), N(1))));
                w.delete::<(N,)>(*es.last().unwrap());
                w.maintain();
            }) {
                return found("borrow-table", format!("the world is not usable afterwards: {} {}", p.loc, p.msg), format!("seed {seed:#x}"), "");
            }
        }
    }
    Ok(())
}
