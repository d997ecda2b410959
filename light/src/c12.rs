//! C12: threads sharing one world through its shared-reference operations.

use crate::kit::*;
use sparsey::component::GroupLayout;
use sparsey::{Entity, World};
use std::collections::HashSet;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::{Barrier, Mutex};
use vcommon::{mix, Env, Hash64, Rng, Stats};

const NT: usize = 4;

/// A component whose two halves must always agree.
trait Comp: Send + Sync + Sized + 'static {
    const T: usize;
    fn new(id: u64) -> Self;
    /// Entity number and number of writes, or None if the halves do not fit together.
    fn read(&self) -> Option<(u64, u64)>;
    fn bump(&mut self, slow: bool);
}

fn f(x: u64) -> u64 {
    mix(x, 0xC12)
}
/// A count of writes in the low half, the entity number in the high half.
fn split(x: u64) -> (u64, u64) {
    (x >> 32, x & 0xffff_ffff)
}

struct A {
    x: u64,
    y: u64,
}
struct B(Box<(u64, u64)>);
#[repr(align(64))]
struct C([u64; 9]);
struct D {
    s: String,
    x: u32,
    id: u32,
}

impl Comp for A {
    const T: usize = 0;
    fn new(id: u64) -> Self {
        A { x: id << 32, y: f(id << 32) }
    }
    fn read(&self) -> Option<(u64, u64)> {
        (self.y == f(self.x)).then(|| split(self.x))
    }
    fn bump(&mut self, slow: bool) {
        self.x += 1;
        if slow {
            std::thread::yield_now();
        }
        self.y = f(self.x);
    }
}
impl Comp for B {
    const T: usize = 1;
    fn new(id: u64) -> Self {
        B(Box::new((id << 32, f(id << 32))))
    }
    fn read(&self) -> Option<(u64, u64)> {
        (self.0 .1 == f(self.0 .0)).then(|| split(self.0 .0))
    }
    fn bump(&mut self, slow: bool) {
        if self.0 .0 % 3 == 0 {
            // Reallocates the value.
            let x = self.0 .0 + 1;
            self.0 = Box::new((x, 0));
        } else {
            self.0 .0 += 1;
        }
        if slow {
            std::thread::yield_now();
        }
        self.0 .1 = f(self.0 .0);
    }
}
impl Comp for C {
    const T: usize = 2;
    fn new(id: u64) -> Self {
        C([id << 32; 9])
    }
    fn read(&self) -> Option<(u64, u64)> {
        (self.0.iter().all(|&x| x == self.0[0]) && (self as *const C as usize) % 64 == 0).then(|| split(self.0[0]))
    }
    fn bump(&mut self, slow: bool) {
        for (i, x) in self.0.iter_mut().enumerate() {
            *x += 1;
            if slow && i == 4 {
                std::thread::yield_now();
            }
        }
    }
}
impl Comp for D {
    const T: usize = 3;
    fn new(id: u64) -> Self {
        D { s: "0".into(), x: 0, id: id as u32 }
    }
    fn read(&self) -> Option<(u64, u64)> {
        (self.s.parse() == Ok(self.x)).then(|| (u64::from(self.id), u64::from(self.x)))
    }
    fn bump(&mut self, slow: bool) {
        self.x += 1;
        if slow {
            std::thread::yield_now();
        }
        self.s = self.x.to_string();
    }
}

/// Who holds what. Relaxed accesses only, so that the monitor orders nothing itself.
struct Mon {
    readers: [AtomicI64; NT],
    writers: [AtomicI64; NT],
    /// Number of writes per type and entity.
    tally: [Vec<AtomicU64>; NT],
    wrong: Mutex<Option<(&'static str, String)>>,
    granted: AtomicU64,
    shared_overlaps: AtomicU64,
    items: AtomicU64,
    writes: AtomicU64,
}

impl Mon {
    fn fail(&self, oracle: &'static str, m: String) {
        self.wrong.lock().unwrap().get_or_insert((oracle, m));
    }
    fn check<T: Comp>(&self, c: &T, e: Option<Entity>, how: &str) {
        self.items.fetch_add(1, Relaxed);
        let Some((id, n)) = c.read() else {
            return self.fail("torn-value", format!("{how}: a component of type {} is half written", T::T));
        };
        if let Some(e) = e {
            if u64::from(e.index) != id {
                return self.fail("torn-value", format!("{how}: {} shows the component of entity {id}, type {}", show(e), T::T));
            }
        }
        let t = self.tally[T::T][id as usize].load(Relaxed);
        if n != t {
            self.fail("visibility", format!("{how}: component of entity {id}, type {} shows {n} writes, {t} were made", T::T));
        }
    }
    fn write<T: Comp>(&self, c: &mut T, e: Option<Entity>, slow: bool, how: &str) {
        self.check(c, e, how);
        if let Some((id, _)) = c.read() {
            self.tally[T::T][id as usize].fetch_add(1, Relaxed);
            self.writes.fetch_add(1, Relaxed);
        }
        c.bump(slow);
    }
    fn hold(&self, acc: &[(usize, bool)], how: &'static str) -> Hold<'_> {
        self.granted.fetch_add(1, Relaxed);
        let mut list = [(usize::MAX, false); 4];
        for (i, &(t, x)) in acc.iter().enumerate() {
            list[i] = (t, x);
            let (r, w);
            if x {
                w = self.writers[t].fetch_add(1, Relaxed);
                r = self.readers[t].load(Relaxed);
            } else {
                let r0 = self.readers[t].fetch_add(1, Relaxed);
                if r0 > 0 {
                    self.shared_overlaps.fetch_add(1, Relaxed);
                }
                w = self.writers[t].load(Relaxed);
                r = 0;
            }
            if w != 0 || r != 0 {
                self.fail("conflict-granted", format!("{how}: access to type {t} (exclusive: {x}) granted while {w} exclusive and {r} shared accesses exist"));
            }
        }
        Hold { mon: self, list }
    }
}

struct Hold<'a> {
    mon: &'a Mon,
    list: [(usize, bool); 4],
}
impl Drop for Hold<'_> {
    fn drop(&mut self) {
        for &(t, x) in &self.list {
            if t < NT {
                if x { &self.mon.writers[t] } else { &self.mon.readers[t] }.fetch_sub(1, Relaxed);
            }
        }
    }
}

struct Round {
    writers: bool,
    slow: bool,
    par: bool,
    live: Vec<Entity>,
}

fn op<T: Comp, U: Comp>(w: &World, m: &Mon, rd: &Round, r: &mut Rng, got: &mut Vec<Entity>) {
    let e = *r.pick(&rd.live);
    let slow = rd.slow && r.chance(1, 2);
    let pause = || {
        if slow {
            std::thread::yield_now();
        }
    };
    let writing = rd.writers && r.chance(2, 5);
    let (t, u) = (T::T, U::T);
    match r.below(if rd.par { 15 } else { 12 }) {
        0 | 1 if writing => {
            let mut v = w.borrow_mut::<T>();
            let _h = m.hold(&[(t, true)], "borrow_mut");
            if r.chance(1, 2) {
                if let Some(c) = v.get_mut(e) {
                    m.write(c, Some(e), slow, "view get_mut");
                }
            } else {
                for c in v.as_mut_slice() {
                    m.write(c, None, slow, "view as_mut_slice");
                }
            }
        }
        0 | 1 => {
            let v = w.borrow::<T>();
            let _h = m.hold(&[(t, false)], "borrow");
            pause();
            if let Some(c) = v.get(e) {
                m.check(c, Some(e), "view get");
            }
            for (e, c) in v.entities().iter().zip(v.as_slice()) {
                m.check(c, Some(*e), "view as_slice");
            }
        }
        2 | 3 if writing => {
            let mut q = w.query_all::<(Entity, &mut T)>();
            let _h = m.hold(&[(t, true)], "query_all<&mut T>");
            q.for_each(|(e, c)| m.write(c, Some(e), slow, "query_all<&mut T>"));
        }
        2 | 3 => {
            let mut q = w.query_all::<(Entity, &T)>();
            let _h = m.hold(&[(t, false)], "query_all<&T>");
            pause();
            q.for_each(|(e, c)| m.check(c, Some(e), "query_all<&T>"));
        }
        4 if writing => {
            let mut q = w.query_all::<(&mut T, Entity, &U)>();
            let _h = m.hold(&[(t, true), (u, false)], "query_all<&mut T, &U>");
            for (c, e, d) in &mut q {
                m.check(d, Some(e), "query_all<&mut T, &U>");
                m.write(c, Some(e), slow, "query_all<&mut T, &U>");
            }
        }
        4 => {
            let mut q = w.query_all::<(&T, Entity, Option<&U>)>();
            let _h = m.hold(&[(t, false), (u, false)], "query_all<&T, Option<&U>>");
            pause();
            for (c, e, d) in q.iter() {
                if let Some(d) = d {
                    m.check(d, Some(e), "query_all<&T, Option<&U>>");
                }
                m.check(c, Some(e), "query_all<&T, Option<&U>>");
            }
        }
        5 if writing => {
            let mut q = w.query_all::<(&mut T, &mut U)>();
            let _h = m.hold(&[(t, true), (u, true)], "slice<&mut T, &mut U>");
            if let Some((a, b)) = q.slice() {
                for (a, b) in a.iter_mut().zip(b) {
                    m.write(a, None, slow, "slice<&mut T, &mut U>");
                    m.write(b, None, slow, "slice<&mut T, &mut U>");
                }
            }
        }
        5 => {
            let mut q = w.query_all::<(Entity, &T)>().exclude::<&U>();
            let _h = m.hold(&[(t, false), (u, false)], "query_all<&T>.exclude<&U>");
            pause();
            for (e, c) in q.iter() {
                m.check(c, Some(e), "query_all<&T>.exclude<&U>");
            }
        }
        6 if writing => {
            let mut q = w.query_all::<(Entity, &mut U)>().include::<&T>();
            let _h = m.hold(&[(u, true), (t, false)], "query_all<&mut U>.include<&T>");
            q.for_each(|(e, c)| m.write(c, Some(e), slow, "query_all<&mut U>.include<&T>"));
        }
        6 => {
            let mut q = w.query_one::<(&T, &U)>();
            let _h = m.hold(&[(t, false), (u, false)], "query_one<&T, &U>");
            pause();
            if let Some((a, b)) = q.get(e) {
                m.check(a, Some(e), "query_one<&T, &U>");
                m.check(b, Some(e), "query_one<&T, &U>");
            }
        }
        7 if writing => {
            let mut q = w.query_one::<&mut T>();
            let _h = m.hold(&[(t, true)], "query_one<&mut T>");
            if r.chance(1, 2) {
                q.map(e, |c| m.write(c, Some(e), slow, "query_one<&mut T>.map"));
            } else if let Some(c) = q.get(e) {
                m.write(c, Some(e), slow, "query_one<&mut T>");
            }
        }
        7 => {
            let a = w.contains::<(&T, &U)>(e);
            let _ = a;
        }
        8 if writing => {
            // A failing iteration releases what it held.
            let mut n = 0;
            let res = vcommon::guard(|| {
                w.for_each::<(Entity, &mut T)>(|(e, c)| {
                    m.write(c, Some(e), slow, "for_each<&mut T>");
                    n += 1;
                    if n == 3 {
                        std::panic::panic_any(vcommon::Injected);
                    }
                });
            });
            if let Err(p) = res {
                if !p.injected {
                    std::panic::panic_any(Refused(p.msg));
                }
            }
        }
        8 => w.for_each::<(Entity, &T)>(|(e, c)| m.check(c, Some(e), "for_each<&T>")),
        9 | 10 => {
            let x = w.create_atomic();
            if w.contains_entity(x) {
                m.fail("liveness", format!("{} is live before maintain", show(x)));
            }
            got.push(x);
        }
        11 => {
            if !w.contains_entity(e) || w.entities().len() != rd.live.len() || w.is_empty() || !w.is_registered::<T>() {
                m.fail("liveness", format!("{}: a live entity is not live, or {} entities instead of {}", show(e), w.entities().len(), rd.live.len()));
            }
        }
        #[cfg(feature = "par")]
        12 if writing => {
            let mut q = w.query_all::<(Entity, &mut T)>();
            let _h = m.hold(&[(t, true)], "par_for_each<&mut T>");
            q.par_for_each(|(e, c)| m.write(c, Some(e), slow, "par_for_each<&mut T>"));
        }
        #[cfg(feature = "par")]
        12 => {
            let mut q = w.query_all::<(Entity, &T)>();
            let _h = m.hold(&[(t, false)], "par_for_each<&T>");
            q.par_for_each(|(e, c)| m.check(c, Some(e), "par_for_each<&T>"));
        }
        #[cfg(feature = "par")]
        13 if writing => {
            let mut q = w.query_all::<(&mut T, Entity, Option<&mut U>)>();
            let _h = m.hold(&[(t, true), (u, true)], "par_iter<&mut T, Option<&mut U>>");
            use rayon::iter::ParallelIterator;
            q.par_iter().for_each(|(a, e, b)| {
                m.write(a, Some(e), slow, "par_iter<&mut T, Option<&mut U>>");
                if let Some(b) = b {
                    m.write(b, Some(e), slow, "par_iter<&mut T, Option<&mut U>>");
                }
            });
        }
        #[cfg(feature = "par")]
        13 => {
            let mut q = w.query_all::<(&T, Entity, &U)>();
            let _h = m.hold(&[(t, false), (u, false)], "par_iter<&T, &U>");
            q.par_for_each(|(a, e, b)| {
                m.check(a, Some(e), "par_iter<&T, &U>");
                m.check(b, Some(e), "par_iter<&T, &U>");
            });
        }
        #[cfg(feature = "par")]
        14 => w.par_for_each::<(Entity, &T)>(|(e, c)| m.check(c, Some(e), "World::par_for_each<&T>")),
        _ => {}
    }
}

struct Refused(#[allow(dead_code)] String);

fn pairs(w: &World, m: &Mon, rd: &Round, r: &mut Rng, got: &mut Vec<Entity>) {
    match r.below(12) {
        0 => op::<A, B>(w, m, rd, r, got),
        1 => op::<A, C>(w, m, rd, r, got),
        2 => op::<A, D>(w, m, rd, r, got),
        3 => op::<B, A>(w, m, rd, r, got),
        4 => op::<B, C>(w, m, rd, r, got),
        5 => op::<B, D>(w, m, rd, r, got),
        6 => op::<C, A>(w, m, rd, r, got),
        7 => op::<C, B>(w, m, rd, r, got),
        8 => op::<C, D>(w, m, rd, r, got),
        9 => op::<D, A>(w, m, rd, r, got),
        10 => op::<D, B>(w, m, rd, r, got),
        _ => op::<D, C>(w, m, rd, r, got),
    }
}

fn build(r: &mut Rng, n: usize) -> (World, Vec<Entity>, [usize; NT]) {
    let mut gb = GroupLayout::default();
    match r.below(6) {
        0 => {}
        1 => {
            gb.add_group::<(A, B)>();
        }
        2 => {
            gb.add_group::<(A, B)>();
            gb.add_group::<(A, B, C)>();
        }
        3 => {
            gb.add_group::<(A, C)>();
            gb.add_group::<(B, D)>();
        }
        4 => {
            gb.add_group::<(C, D)>();
            gb.add_group::<(A, B, C, D)>();
        }
        _ => {
            gb.add_group::<(B, D)>();
        }
    }
    let mut b = World::builder();
    b.set_layout(gb);
    b.register::<A>().register::<B>().register::<C>().register::<D>();
    let mut w = b.build();
    let mut live = vec![];
    let mut own = [0; NT];
    for i in 0..n as u64 {
        let e = w.create(());
        assert_eq!(u64::from(e.index), i);
        let m = r.below(16);
        if m & 1 != 0 {
            w.insert(e, (A::new(i),));
        }
        if m & 2 != 0 {
            w.insert(e, (B::new(i),));
        }
        if m & 4 != 0 {
            w.insert(e, (C::new(i),));
        }
        if m & 8 != 0 {
            w.insert(e, (D::new(i),));
        }
        for (t, o) in own.iter_mut().enumerate() {
            *o += m >> t & 1;
        }
        live.push(e);
    }
    (w, live, own)
}

fn last<T: Comp>(w: &mut World, m: &Mon, own: usize) {
    let mut q = w.query_all::<(Entity, &mut T)>();
    let mut n = 0;
    q.for_each(|(e, c)| {
        m.check(c, Some(e), "after joining");
        n += 1;
    });
    if n != own {
        m.fail("visibility", format!("{n} components of type {} after joining, should be {own}", T::T));
    }
}

/// Which types the library accepts as components, as the compiler resolves it.
mod bounds {
    use std::marker::PhantomData;
    pub struct Is<T: ?Sized>(pub PhantomData<T>);
    pub trait Otherwise {
        fn component(&self) -> bool {
            false
        }
        fn shared(&self) -> bool {
            false
        }
    }
    impl<T: ?Sized> Otherwise for Is<T> {}
    impl<T: sparsey::component::Component> Is<T> {
        pub fn component(&self) -> bool {
            true
        }
    }
    pub trait Both: Send + Sync {}
    impl<T: ?Sized + Send + Sync> Both for T {}
    impl<T: ?Sized + Both> Is<T> {
        pub fn shared(&self) -> bool {
            true
        }
    }
}

fn bounds(st: &mut Stats) -> Out {
    #[allow(unused_imports)]
    use bounds::Otherwise;
    use std::cell::{Cell, RefCell, UnsafeCell};
    use std::marker::PhantomData;
    use std::rc::Rc;
    use std::sync::{mpsc, Arc, Mutex, MutexGuard, RwLock};
    macro_rules! table {
        ($want:literal: $($t:ty),*) => {
            $(
                let got = bounds::Is::<$t>(PhantomData).component();
                let shared = bounds::Is::<$t>(PhantomData).shared();
                st.eval(Some(mix(u64::from($want), stringify!($t).len() as u64)));
                st.add("component_bounds", 1);
                assert_eq!(shared, $want, "harness: {}", stringify!($t));
                if got != $want {
                    return found(
                        "component-bounds",
                        format!("{} is accepted as component: {got}; it can be sent and shared between threads: {shared}", stringify!($t)),
                        "bounds",
                        "",
                    );
                }
            )*
        };
    }
    struct Own(#[allow(dead_code)] *mut u8);
    table!(false: Rc<u8>, Cell<u8>, RefCell<u8>, UnsafeCell<u8>, *const u8, *mut u8, Own, &'static Cell<u8>, Arc<Cell<u8>>,
        MutexGuard<'static, u8>, mpsc::Receiver<u8>, Box<dyn Fn()>, Box<dyn Fn() + Send>, Vec<Rc<u8>>, Option<Cell<u8>>, (u8, Rc<u8>),
        [Cell<u8>; 2], PhantomData<Rc<u8>>);
    table!(true: u8, (), String, Vec<u8>, Arc<u8>, Mutex<Cell<u8>>, RwLock<u8>, &'static str, fn(u8) -> u8, Box<dyn Fn() + Send + Sync>,
        [u8; 4], Option<Box<u8>>, PhantomData<u8>);
    for (name, ok) in [
        ("World", bounds::Is::<World>(PhantomData).shared()),
        ("View", bounds::Is::<sparsey::component::View<'static, u8>>(PhantomData).shared()),
    ] {
        st.eval(None);
        if !ok {
            return found("component-bounds", format!("{name} cannot be used by several threads"), "bounds", "");
        }
    }
    Ok(())
}

pub fn run(env: &Env, st: &mut Stats) -> Out {
    bounds(st)?;
    let tsan = std::env::var("VH_STAGE").is_ok_and(|s| s == "tsan");
    let base = if cfg!(miri) {
        24
    } else if tsan {
        2400
    } else {
        300_000
    };
    let rounds = env.cases(if env.thorough { base * 20 } else { base }) / env.shards.max(1) + 1;
    let par = cfg!(feature = "par") && !(cfg!(miri) && std::env::var("VH_NOPAR").is_ok());
    for round in 0..rounds {
        if env.out_of_time() {
            st.add("stopped_by_clock", 1);
            break;
        }
        let seed = mix(mix(env.seed, 12), round * env.shards + env.shard);
        let case = format!("seed {seed:#x}");
        env.note_case(&case);
        let mut r = Rng::new(seed);
        let n = if cfg!(miri) { r.range(1, 5) } else if r.chance(1, 10) { r.range(200, 1500) } else { r.range(1, 40) };
        let (mut w, live, own) = build(&mut r, n);
        let m = Mon {
            readers: Default::default(),
            writers: Default::default(),
            tally: std::array::from_fn(|_| (0..n).map(|_| AtomicU64::new(0)).collect()),
            wrong: Mutex::new(None),
            granted: AtomicU64::new(0),
            shared_overlaps: AtomicU64::new(0),
            items: AtomicU64::new(0),
            writes: AtomicU64::new(0),
        };
        let rd = Round { writers: r.chance(4, 5), slow: r.chance(1, 2), par, live };
        let threads = if cfg!(miri) { r.range(2, 3) } else { r.range(2, 8) };
        let ops = if cfg!(miri) { 5 } else if n > 100 { 12 } else { 60 };
        let barrier = Barrier::new(threads);
        let tseed = r.next();
        let mut refused = 0u64;
        let mut h = Hash64::default();
        let outs: Vec<(Vec<Entity>, u64, u64)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (w, m, rd, barrier) = (&w, &m, &rd, &barrier);
                    s.spawn(move || {
                        let mut r = Rng::new(mix(tseed, t as u64));
                        let mut got = vec![];
                        let (mut no, mut sig) = (0u64, Hash64::default());
                        barrier.wait();
                        for _ in 0..ops {
                            let before = m.granted.load(Relaxed);
                            let x = vcommon::guard(|| pairs(w, m, rd, &mut r, &mut got));
                            sig.add(u64::from(x.is_ok())).add(m.granted.load(Relaxed) - before);
                            if let Err(p) = x {
                                if p.in_harness() && !p.msg.contains("<payload>") {
                                    eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
                                    std::process::exit(3);
                                }
                                no += 1;
                                if !rd.writers {
                                    m.fail("refused-read", format!("a shared access was refused although nobody writes: {} at {}", p.msg, p.loc));
                                }
                            }
                        }
                        (got, no, sig.0)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut handles = HashSet::new();
        for (got, no, sig) in &outs {
            refused += no;
            h.add(*sig);
            for &e in got {
                if !handles.insert(key(e)) || rd.live.contains(&e) {
                    m.fail("liveness", format!("{} was issued twice", show(e)));
                }
            }
        }
        // All borrows are back, all writes visible, all created entities come alive.
        let res = attempt(|| {
            last::<A>(&mut w, &m, own[0]);
            last::<B>(&mut w, &m, own[1]);
            last::<C>(&mut w, &m, own[2]);
            last::<D>(&mut w, &m, own[3]);
            w.maintain();
        });
        if let Err(p) = res {
            m.fail("refused", format!("an access is refused after all threads have ended: {} at {}", p.msg, p.loc));
        }
        if w.entities().len() != n + handles.len() || outs.iter().flat_map(|o| &o.0).any(|&e| !w.contains_entity(e)) {
            m.fail("liveness", format!("{} entities after maintain, should be {}", w.entities().len(), n + handles.len()));
        }
        let granted = m.granted.load(Relaxed);
        let items = m.items.load(Relaxed);
        st.evaluations += granted + items + handles.len() as u64;
        st.distinct.insert(h.0);
        st.add("rounds", 1);
        st.add("accesses_granted", granted);
        st.add("accesses_refused", refused);
        st.add("overlapping_shared_accesses", m.shared_overlaps.load(Relaxed));
        st.add("items_checked", items);
        st.add("writes", m.writes.load(Relaxed));
        st.add("handles_created", handles.len() as u64);
        st.max("threads", threads as u64);
        st.sample(6, || format!("{threads} threads x {ops} operations on {n} entities: {granted} granted, {refused} refused, {items} items checked"));
        let wrong = m.wrong.lock().unwrap().take();
        if let Some((o, msg)) = wrong {
            return found(o, msg, case.clone(), format!("{case}: {threads} threads, {n} entities, {ops} operations each, writers: {}", rd.writers));
        }
    }
    Ok(())
}
