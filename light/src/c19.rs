//! C19: exhausting versions and indices for real (2^32 operations each).

use crate::kit::*;
use sparsey::{Entity, World};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vcommon::{mix, Env, Rng, Stats};

#[derive(Debug, PartialEq, Clone)]
struct P(u64);

enum Child {
    Done,
    NoMemory,
    Wrong(String),
}

/// Runs `f` in a forked copy of this (by now single-threaded) process, with 12 GB of address space.
fn in_child(f: impl FnOnce() -> Result<(), String>) -> Child {
    use std::io::{Read, Write};
    use std::os::fd::{FromRawFd, RawFd};
    extern "C" {
        fn fork() -> i32;
        fn pipe(fds: *mut RawFd) -> i32;
        fn dup2(a: RawFd, b: RawFd) -> i32;
        fn close(a: RawFd) -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
        fn _exit(code: i32) -> !;
    }
    const RLIMIT_CORE: i32 = 4;
    const RLIMIT_AS: i32 = 9;
    let mut fds = [0; 2];
    let (text, status) = unsafe {
        assert_eq!(pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            close(fds[0]);
            dup2(fds[1], 2);
            setrlimit(RLIMIT_CORE, &[0, 0]);
            setrlimit(RLIMIT_AS, &[12 << 30, 12 << 30]);
            let code = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(Ok(())) => 0,
                Ok(Err(m)) => {
                    let _ = write!(std::io::stderr(), "{m}");
                    1
                }
                Err(p) => {
                    let m = p.downcast_ref::<String>().map(String::as_str).or(p.downcast_ref::<&str>().copied()).unwrap_or("?");
                    let _ = write!(std::io::stderr(), "panicked: {m}");
                    1
                }
            };
            _exit(code);
        }
        close(fds[1]);
        let mut text = vec![];
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_end(&mut text);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        (String::from_utf8_lossy(&text).into_owned(), status)
    };
    match (status & 0x7f, status >> 8 & 0xff) {
        (0, 0) => Child::Done,
        (6, _) if text.contains("memory allocation of") => Child::NoMemory,
        (9, _) => Child::NoMemory,
        (0, _) if text.contains("capacity overflow") => Child::NoMemory,
        (0, _) => Child::Wrong(format!("in an exhausted world, cleared: {text}")),
        (n, _) => Child::Wrong(format!("clearing an exhausted world: signal {n}: {text}")),
    }
}

/// One bit per 32-bit number.
struct Bits(Vec<AtomicU64>);
impl Bits {
    fn new() -> Self {
        let mut v = Vec::with_capacity(1 << 26);
        v.resize_with(1 << 26, || AtomicU64::new(0));
        Bits(v)
    }
    /// Whether `x` was set before.
    fn set(&mut self, x: u32) -> bool {
        let w = self.0[(x >> 6) as usize].get_mut();
        let b = 1u64 << (x & 63);
        let old = *w & b != 0;
        *w |= b;
        old
    }
    fn set_shared(&self, x: u32) -> bool {
        let b = 1u64 << (x & 63);
        self.0[(x >> 6) as usize].fetch_or(b, Relaxed) & b != 0
    }
}

/// Uniqueness of handles: one index in full by bitmap, all others by set.
struct Seen {
    index: u32,
    bits: Bits,
    rest: HashSet<u64>,
    n: u64,
}
impl Seen {
    fn dup(&mut self, e: Entity) -> bool {
        self.n += 1;
        if e.index == self.index {
            self.bits.set(e.version.0.get())
        } else {
            !self.rest.insert(key(e))
        }
    }
}

/// Destroys entities on one index until its versions are used up.
/// `atomic`: through create_atomic and maintain; `bag`: other live entities around.
fn versions(env: &Env, atomic: bool, seed: u64, st: &mut Stats) -> Out {
    let name = if atomic { "versions through create_atomic" } else { "versions through create" };
    let mut r = Rng::new(seed);
    let mut w = World::builder().register::<P>().build();
    let others: Vec<Entity> = (0..r.below(4)).map(|i| w.create((P(i as u64),))).collect();
    let first = w.create(());
    let mut seen = Seen { index: first.index, bits: Bits::new(), rest: others.iter().map(|&e| key(e)).collect(), n: 0 };
    let mut e = first;
    seen.dup(e);
    let total: u64 = (1 << 32) + 2000;
    let mut left = false;
    let mut rounds = 0u64;
    let mut last_top = 0u32;
    let check = |w: &World, st: &mut Stats| -> Out {
        for (i, &o) in others.iter().enumerate() {
            st.evaluations += 1;
            if !w.contains_entity(o) || w.borrow::<P>().get(o) != Some(&P(i as u64)) {
                return found("exhaustion", format!("{name}: unrelated {} was lost", show(o)), name, "");
            }
        }
        Ok(())
    };
    while rounds < total {
        rounds += 1;
        if rounds & ((1 << 27) - 1) == 0 {
            env.note_case(&format!("{name}: {rounds} destructions"));
            check(&w, st)?;
        }
        // Components now and then, and around the end of the version range.
        let rare = rounds & 0xff_ffff == 7 || rounds > total - 6000;
        if rare {
            w.insert(e, (P(rounds),));
            st.evaluations += 1;
            if w.borrow::<P>().get(e) != Some(&P(rounds)) {
                return found("exhaustion", format!("{name}: component of {} is lost", show(e)), name, "");
            }
        }
        if !w.destroy(e) {
            return found("exhaustion", format!("{name}: destroy({}) of a live entity failed after {rounds} destructions", show(e)), name, "");
        }
        if w.contains_entity(e) {
            return found("exhaustion", format!("{name}: {} is live after destroy", show(e)), name, "");
        }
        if rare && w.borrow::<P>().get(e).is_some() {
            return found("exhaustion", format!("{name}: {} has a component after destroy", show(e)), name, "");
        }
        if e.index == first.index {
            last_top = last_top.max(e.version.0.get());
        }
        let old = e;
        e = if atomic {
            let x = w.create_atomic();
            w.maintain();
            x
        } else {
            w.create(())
        };
        if seen.dup(e) {
            return found("exhaustion", format!("{name}: {} was issued twice, after {rounds} destructions", show(e)), name, "");
        }
        if !w.contains_entity(e) {
            return found("exhaustion", format!("{name}: {} is not live after creation", show(e)), name, "");
        }
        if rare && w.contains_entity(old) {
            return found("exhaustion", format!("{name}: destroyed {} is live again", show(old)), name, "");
        }
        if e.index != first.index && !left {
            left = true;
            st.add("indices_retired", 1);
            st.max("highest_version_destroyed", u64::from(last_top));
            st.sample(4, || format!("{name}: index {} left after {rounds} destructions, last version {last_top}", first.index));
            // The retired index never comes back, whatever is destroyed; see the rest of the loop.
            for v in [1, 2, last_top, last_top.wrapping_sub(1), last_top.wrapping_add(1)] {
                if v != 0 && w.contains_entity(ent(first.index, v)) {
                    return found("exhaustion", format!("{name}: {} is live although its index was retired", show(ent(first.index, v))), name, "");
                }
            }
        }
        if left && rounds < total - 1500 {
            // All that remains is to see some more creations.
            rounds = total - 1500;
        }
    }
    check(&w, st)?;
    st.evaluations += seen.n;
    st.distinct.insert(mix(seed, seen.n));
    st.distinct.insert(mix(seed, u64::from(left) + 2));
    for x in &seen.rest {
        st.distinct.insert(*x);
    }
    st.add("handles_issued", seen.n);
    Ok(())
}

/// Uses up all indices through create_atomic, then asks for more in every way.
fn indices(env: &Env, seed: u64, st: &mut Stats) -> Out {
    let name = "indices";
    let mut r = Rng::new(seed);
    let mut w = World::builder().register::<P>().build();
    let mut live: Vec<Entity> = (0..40u64).map(|i| w.create((P(i),))).collect();
    let mut seen: HashSet<u64> = live.iter().map(|&e| key(e)).collect();
    // Some recycled indices to start with.
    for _ in 0..7 {
        let e = live.swap_remove(r.below(live.len()));
        w.destroy(e);
    }
    let mut bits = Bits::new();
    for e in &live {
        bits.set(e.index);
    }
    let mut n = 0u64;
    let dup = |e: Entity, n: u64| found(name, format!("{} was issued twice, after {n} creations", show(e)), name, "");
    macro_rules! note {
        ($e:expr) => {
            let e = $e;
            n += 1;
            if e.version.0.get() == 1 {
                if bits.set(e.index) {
                    return dup(e, n);
                }
            } else if !seen.insert(key(e)) {
                return dup(e, n);
            }
        };
    }
    // One thread takes most of them.
    let bulk = (1u64 << 32) - 3_000_000;
    while n < bulk {
        if n & ((1 << 27) - 1) == 0 {
            env.note_case(&format!("indices: {n} handles"));
        }
        match attempt(|| {
            let mut v = [w.create_atomic(); 64];
            for x in &mut v[1..] {
                *x = w.create_atomic();
            }
            v
        }) {
            Ok(v) => {
                for e in v {
                    note!(e);
                }
            }
            Err(p) => return found("exhaustion", format!("create_atomic panicked after {n} of 2^32 indices: {}", p.msg), name, ""),
        }
    }
    // Eight threads race for the rest, until each of them is refused many times.
    let taken = AtomicU64::new(0);
    let refused = AtomicU64::new(0);
    let twice: std::sync::Mutex<Option<Entity>> = std::sync::Mutex::new(None);
    let others: std::sync::Mutex<Vec<Entity>> = std::sync::Mutex::new(vec![]);
    env.note_case("indices: eight threads take the rest");
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                let mut no = 0;
                let mut mine = 0u64;
                while no < 2000 && mine < 8_000_000 {
                    match attempt(|| w.create_atomic()) {
                        Ok(e) => {
                            mine += 1;
                            if e.version.0.get() == 1 {
                                if bits.set_shared(e.index) {
                                    *twice.lock().unwrap() = Some(e);
                                    return;
                                }
                            } else {
                                others.lock().unwrap().push(e);
                            }
                        }
                        Err(_) => no += 1,
                    }
                }
                taken.fetch_add(mine, Relaxed);
                refused.fetch_add(no, Relaxed);
            });
        }
    });
    if let Some(e) = *twice.lock().unwrap() {
        return found("exhaustion", format!("{} was issued twice by racing threads at the end of the indices", show(e)), name, "");
    }
    n += taken.load(Relaxed);
    for e in others.into_inner().unwrap() {
        if !seen.insert(key(e)) {
            return dup(e, n);
        }
    }
    let rf = refused.load(Relaxed);
    if rf == 0 {
        return found("exhaustion", format!("create_atomic was never refused after {n} creations"), name, "");
    }
    st.add("handles_issued", n);
    st.add("creations_refused", rf);
    // Every exclusive way is refused as well, over and over, and changes nothing.
    let before = w.entities().to_vec();
    for i in 0..300u64 {
        st.evaluations += 3;
        let a = attempt(|| w.create((P(i),)));
        let b = attempt(|| w.extend([(P(i),)]).to_vec());
        let c = attempt(|| w.create_atomic());
        if a.is_ok() || b.as_ref().is_ok_and(|v| !v.is_empty()) || c.is_ok() {
            return found("exhaustion", format!("a creation succeeded although all indices are in use: create {a:?}, extend {:?}, create_atomic {c:?}", b), name, "");
        }
    }
    if w.entities() != before || w.borrow::<P>().len() != live.len() {
        return found("exhaustion", "refused creations changed the world", name, "");
    }
    st.distinct.insert(mix(seed, 1));
    // The world is still usable: destroyed entities can be recycled, exclusively and atomically.
    for round in 0..20u64 {
        let e = live.swap_remove(r.below(live.len()));
        if !w.destroy(e) {
            return found("exhaustion", format!("destroy({}) failed in an exhausted world", show(e)), name, "");
        }
        let (how, res) = if round % 3 == 2 {
            ("create_atomic", attempt(|| w.create_atomic()))
        } else {
            ("create", attempt(|| w.create((P(1000 + round),))))
        };
        st.evaluations += 1;
        st.distinct.insert(mix(seed, 100 + round));
        let x = match res {
            Ok(x) => x,
            Err(p) => return found("exhaustion", format!("{how} is refused although an index was just freed: {}", p.msg), name, ""),
        };
        if !seen.insert(key(x)) || x.version.0.get() == 1 && bits.set(x.index) {
            return found("exhaustion", format!("{how} issued {} a second time", show(x)), name, "");
        }
        if round % 3 != 2 {
            if !w.contains_entity(x) || w.borrow::<P>().get(x) != Some(&P(1000 + round)) {
                return found("exhaustion", format!("{} is not usable after recycling", show(x)), name, "");
            }
            live.push(x);
        } else if w.contains_entity(x) {
            return found("exhaustion", format!("{} is live before maintain", show(x)), name, "");
        }
        if attempt(|| w.create(())).is_ok() {
            return found("exhaustion", "a second creation succeeded on one freed index", name, "");
        }
        for &o in &live {
            if !w.contains_entity(o) {
                return found("exhaustion", format!("live {} was lost", show(o)), name, "");
            }
        }
    }
    // Clearing frees no index; resetting frees all. An implementation may clear by materialising the 2^32 creations that are pending, for
    // which no memory is at hand, so a copy of the process tries it.
    match in_child(|| {
        w.clear();
        if !w.is_empty() || w.borrow::<P>().len() != 0 {
            return Err("clear left something in an exhausted world".to_string());
        }
        if let Ok(e) = attempt(|| w.create(())) {
            if !seen.insert(key(e)) || e.version.0.get() == 1 && bits.set(e.index) {
                return Err(format!("create after clear issued {} a second time", show(e)));
            }
        }
        w.reset();
        let e = w.create((P(5),));
        if !w.contains_entity(e) || w.entities().len() != 1 {
            return Err("the world is not usable after clear and reset".to_string());
        }
        Ok(())
    }) {
        Child::Done => st.add("clears_of_exhausted_world", 1),
        Child::NoMemory => st.add("clears_out_of_memory", 1),
        Child::Wrong(m) => return found("exhaustion", m, name, ""),
    }
    w.reset();
    let e = w.create((P(5),));
    let a = w.create_atomic();
    w.maintain();
    if !w.contains_entity(e) || !w.contains_entity(a) || e == a {
        return found("exhaustion", "the world is not usable after reset", name, "");
    }
    st.evaluations += n;
    st.sample(4, || format!("{n} handles issued, then {rf} creations refused by racing threads; recycling, clear and reset still work"));
    Ok(())
}

pub fn run(env: &Env, st: &mut Stats) -> Out {
    let seed = mix(env.seed, 19);
    // The third takes minutes.
    let jobs = if env.thorough { 3 } else { 2 };
    for j in 0..jobs {
        if j % env.shards != env.shard {
            continue;
        }
        match j {
            0 => indices(env, mix(seed, 1), st)?,
            1 => versions(env, false, mix(seed, 2), st)?,
            _ => versions(env, true, mix(seed, 3), st)?,
        }
    }
    Ok(())
}
