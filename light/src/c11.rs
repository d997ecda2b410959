//! C11: threads creating entities atomically on a shared world.

use crate::kit::*;
use sparsey::{Entity, World};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::Barrier;
use vcommon::{mix, Env, Hash64, Rng, Stats};

#[derive(Debug, PartialEq, Clone, Copy)]
struct P(u64);
#[derive(Debug, PartialEq, Clone, Copy)]
struct Q(u32);

struct H {
    w: World,
    /// Live handles and the value of their P, if any.
    live: HashMap<u64, (Entity, Option<u64>)>,
    pending: Vec<Entity>,
    dead: Vec<Entity>,
    issued: HashSet<u64>,
    log: Vec<String>,
    n: u64,
}

/// What one thread saw besides its handles.
#[derive(Default)]
struct Seen {
    got: Vec<Entity>,
    wrong: Option<String>,
    looks: u64,
}

impl H {
    fn bad<T>(&self, what: String) -> Result<T, Found> {
        let tail: Vec<&String> = self.log.iter().rev().take(60).collect();
        let mut t: Vec<String> = tail.into_iter().rev().cloned().collect();
        t.push(what.clone());
        found("atomic-creation", what, format!("{} steps", self.log.len()), t.join("\n"))
    }

    fn issue(&mut self, e: Entity, how: &str) -> Out {
        if !self.issued.insert(key(e)) {
            return self.bad(format!("{how} issued {} again", show(e)));
        }
        Ok(())
    }

    /// Every fact about liveness the history implies.
    fn audit(&self, st: &mut Stats) -> Out {
        let w = &self.w;
        let mut got: Vec<u64> = w.entities().iter().map(|&e| key(e)).collect();
        got.sort_unstable();
        let mut want: Vec<u64> = self.live.keys().copied().collect();
        want.sort_unstable();
        st.eval(None);
        if got != want {
            let extra: Vec<_> = got.iter().filter(|k| !self.live.contains_key(k)).take(5).collect();
            let twice = got.windows(2).any(|p| p[0] == p[1]);
            return self.bad(format!("{} live handles listed (twice: {twice}), should be {}; not expected: {extra:x?}", got.len(), want.len()));
        }
        for &e in &self.pending {
            st.evaluations += 1;
            if w.contains_entity(e) {
                return self.bad(format!("{} is live before maintain", show(e)));
            }
        }
        for &e in &self.dead {
            st.evaluations += 1;
            if w.contains_entity(e) {
                return self.bad(format!("dead {} is live", show(e)));
            }
        }
        let v = w.borrow::<P>();
        let mut n = 0;
        for &(e, p) in self.live.values() {
            st.evaluations += 1;
            n += usize::from(p.is_some());
            if v.get(e).map(|p| p.0) != p {
                return self.bad(format!("{} has {:?}, should have {p:?}", show(e), v.get(e)));
            }
        }
        if v.len() != n {
            return self.bad(format!("{} components, should be {n}", v.len()));
        }
        let m = w.query_all::<Entity>().include::<&P>().iter().count();
        if m != n {
            return self.bad(format!("a query finds {m} entities with a component, should be {n}"));
        }
        Ok(())
    }

    fn create(&mut self, r: &mut Rng) -> Out {
        let p = r.chance(1, 2).then(|| r.next());
        let e = match p {
            Some(p) => {
                if r.chance(1, 2) {
                    self.w.create((P(p), Q(1)))
                } else {
                    self.w.create((P(p),))
                }
            }
            None => self.w.create(()),
        };
        self.log.push(format!("create -> {}", show(e)));
        self.issue(e, "create")?;
        self.live.insert(key(e), (e, p));
        Ok(())
    }

    fn pick(&self, r: &mut Rng) -> Option<Entity> {
        if self.live.is_empty() {
            return None;
        }
        let mut v: Vec<u64> = self.live.keys().copied().collect();
        v.sort_unstable();
        Some(self.live[r.pick(&v)].0)
    }

    fn destroy(&mut self, r: &mut Rng) -> Out {
        let Some(e) = self.pick(r) else { return Ok(()) };
        self.log.push(format!("destroy {}", show(e)));
        if !self.w.destroy(e) {
            return self.bad(format!("destroy({}) of a live entity failed", show(e)));
        }
        self.live.remove(&key(e));
        self.dead.push(e);
        Ok(())
    }

    fn maintain(&mut self) -> Out {
        self.log.push(format!("maintain ({} pending)", self.pending.len()));
        self.w.maintain();
        for e in std::mem::take(&mut self.pending) {
            self.live.insert(key(e), (e, None));
        }
        Ok(())
    }

    fn empty(&mut self, reset: bool) {
        self.log.push(if reset { "reset".into() } else { "clear".into() });
        let gone: Vec<Entity> = self.live.drain().map(|(_, (e, _))| e).chain(std::mem::take(&mut self.pending)).collect();
        if reset {
            self.w.reset();
            self.issued.clear();
            self.dead.clear();
        } else {
            self.w.clear();
            self.dead.extend(gone);
        }
    }

    fn exclusive(&mut self, r: &mut Rng, st: &mut Stats) -> Out {
        match r.below(16) {
            0..=4 => self.create(r)?,
            5 => {
                let n = r.below(6) as u64;
                let base = r.next();
                let v: Vec<Entity> = self.w.extend((0..n).map(|i| (P(base ^ i),))).to_vec();
                self.log.push(format!("extend {n} -> {:?}", v.iter().map(|&e| show(e)).collect::<Vec<_>>()));
                if v.len() != n as usize {
                    return self.bad(format!("extend gave {} of {n} entities", v.len()));
                }
                for (i, e) in v.into_iter().enumerate() {
                    self.issue(e, "extend")?;
                    self.live.insert(key(e), (e, Some(base ^ i as u64)));
                }
            }
            6..=9 => self.destroy(r)?,
            10 => {
                // Pending handles are refused by everything.
                if let Some(&e) = self.pending.first() {
                    self.log.push(format!("use of pending {}", show(e)));
                    let i = self.w.insert(e, (P(1),));
                    let d = self.w.destroy(e);
                    if i || d {
                        return self.bad(format!("pending {}: insert {i}, destroy {d}", show(e)));
                    }
                }
            }
            11 => {
                let Some(e) = self.pick(r) else { return Ok(()) };
                let x = r.next();
                self.log.push(format!("insert {} {x:x}", show(e)));
                if !self.w.insert(e, (P(x),)) {
                    return self.bad(format!("insert into live {} failed", show(e)));
                }
                self.live.insert(key(e), (e, Some(x)));
            }
            12 => {
                let e = self.w.create_atomic();
                self.log.push(format!("create_atomic -> {}", show(e)));
                self.issue(e, "create_atomic")?;
                self.pending.push(e);
            }
            13 => self.maintain()?,
            14 => self.empty(r.chance(1, 3)),
            _ => self.audit(st)?,
        }
        Ok(())
    }

    /// Threads create entities on the shared world.
    fn phase(&mut self, r: &mut Rng, threads: usize, max: usize, st: &mut Stats) -> Out {
        let counts: Vec<usize> = (0..threads).map(|_| if r.chance(1, 8) { 0 } else { r.range(1, max) }).collect();
        let slow = r.below(4);
        let watch = r.chance(1, 2);
        let known: Vec<Entity> = self.live.values().take(3).map(|x| x.0).collect();
        let old: Vec<Entity> = self.dead.iter().rev().take(3).chain(self.pending.iter().take(3)).copied().collect();
        let count = self.live.len();
        let barrier = Barrier::new(threads);
        let done = AtomicBool::new(false);
        let left = AtomicUsize::new(threads);
        let seed = r.next();
        let w = &self.w;
        let res: Vec<Result<Seen, vcommon::Panicked>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (barrier, done, left, known, old, n) = (&barrier, &done, &left, &known, &old, counts[t]);
                    s.spawn(move || {
                        let out = attempt(|| {
                            let mut r = Rng::new(mix(seed, t as u64));
                            let mut s = Seen::default();
                            s.got.reserve(n);
                            barrier.wait();
                            for i in 0..n {
                                match slow {
                                    0 => {}
                                    1 if r.chance(1, 3) => std::thread::yield_now(),
                                    2 => (0..r.below(60)).for_each(|_| std::hint::spin_loop()),
                                    3 if i == 0 && !cfg!(miri) => std::thread::sleep(std::time::Duration::from_micros(r.below(60) as u64)),
                                    _ => {}
                                }
                                let e = w.create_atomic();
                                if watch {
                                    s.looks += 1;
                                    if w.contains_entity(e) {
                                        s.wrong = Some(format!("{} is live right after create_atomic", show(e)));
                                    }
                                    if let Some(&o) = known.get(i % 3) {
                                        if !w.contains_entity(o) {
                                            s.wrong = Some(format!("live {} is lost during concurrent creation", show(o)));
                                        }
                                    }
                                    if let Some(&o) = old.get(i % 3) {
                                        if w.contains_entity(o) {
                                            s.wrong = Some(format!("dead or pending {} is live during concurrent creation", show(o)));
                                        }
                                    }
                                    if w.entities().len() != count {
                                        s.wrong = Some(format!("{} live entities during concurrent creation, should be {count}", w.entities().len()));
                                    }
                                }
                                s.got.push(e);
                            }
                            s
                        });
                        if left.fetch_sub(1, Relaxed) == 1 {
                            done.store(true, Relaxed);
                        }
                        out
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        self.log.push(format!("phase: {threads} threads, counts {counts:?}, {} pending before", self.pending.len()));
        let mut order: Vec<(u64, usize)> = vec![];
        let (mut fresh, mut recycled) = (0u64, 0u64);
        for (t, x) in res.into_iter().enumerate() {
            let x = match x {
                Ok(x) => x,
                Err(p) => return self.bad(format!("create_atomic panicked at {}: {}", p.loc, p.msg)),
            };
            st.evaluations += x.looks;
            if let Some(m) = x.wrong {
                return self.bad(m);
            }
            for e in x.got {
                st.evaluations += 1;
                self.n += 1;
                if self.issued.contains(&key(e)) {
                    let what = if self.live.contains_key(&key(e)) {
                        "live"
                    } else if self.pending.contains(&e) {
                        "pending, perhaps just issued to another thread"
                    } else {
                        "issued earlier"
                    };
                    return self.bad(format!("thread {t} was given {}, which is {what}", show(e)));
                }
                self.issue(e, "create_atomic")?;
                if e.version.0.get() > 1 {
                    recycled += 1;
                } else {
                    fresh += 1;
                }
                order.push((u64::from(e.index) | u64::from(e.version.0.get() == 1) << 40, t));
                self.pending.push(e);
            }
        }
        // The order in which the threads were served, as far as fresh indices reveal it.
        order.sort_unstable();
        let mut h = Hash64::default();
        let mut switches = 0;
        for p in order.windows(2) {
            switches += u64::from(p[0].1 != p[1].1);
        }
        for x in &order {
            h.add(x.1 as u64 | (x.0 >> 40) << 8);
        }
        st.eval(Some(h.0));
        st.add("concurrent_phases", 1);
        st.add("handles_fresh", fresh);
        st.add("handles_recycled", recycled);
        st.add("switches_between_threads", switches);
        st.max("most_switches_in_a_phase", switches);
        if fresh > 0 && recycled > 0 {
            st.add("phases_mixing_fresh_and_recycled", 1);
        }
        st.sample(6, || {
            format!(
                "{threads} threads, {} recycled and {} fresh handles, served in thread order {:?}",
                recycled,
                fresh,
                order.iter().take(24).map(|x| x.1).collect::<Vec<_>>()
            )
        });
        self.audit(st)
    }
}

pub fn run(env: &Env, st: &mut Stats) -> Out {
    let tsan = std::env::var("VH_STAGE").is_ok_and(|s| s == "tsan");
    let (base, per_phase) = if cfg!(miri) {
        (32, 4)
    } else if tsan {
        (4_000, 60)
    } else {
        (90_000, 120)
    };
    let rounds = env.cases(if env.thorough { base * 20 } else { base }) / env.shards.max(1) + 1;
    for round in 0..rounds {
        if env.out_of_time() {
            st.add("stopped_by_clock", 1);
            break;
        }
        let seed = mix(mix(env.seed, 11), round * env.shards + env.shard);
        env.note_case(&format!("seed {seed:#x}"));
        let mut r = Rng::new(seed);
        let mut h = H {
            w: World::builder().register::<P>().register::<Q>().build(),
            live: HashMap::new(),
            pending: vec![],
            dead: vec![],
            issued: HashSet::new(),
            log: vec![],
            n: 0,
        };
        let steps = if cfg!(miri) { 3 } else { r.range(2, 7) };
        for _ in 0..steps {
            let n = if cfg!(miri) { r.below(6) } else { r.below(60) };
            for _ in 0..n {
                match attempt(|| h.exclusive(&mut r, st)) {
                    Ok(x) => x?,
                    Err(p) => return h.bad(format!("panicked at {}: {}", p.loc, p.msg)),
                }
            }
            // Freed indices for the threads to compete for.
            let free = if r.chance(1, 3) { 0 } else { r.below(if cfg!(miri) { 4 } else { 40 }) };
            if h.live.len() < free {
                while h.live.len() < free + 1 {
                    h.create(&mut r)?;
                }
            }
            for _ in 0..free {
                h.destroy(&mut r)?;
            }
            let threads = if cfg!(miri) { r.range(2, 3) } else { r.range(2, 8) };
            let max = if r.chance(1, 3) { 4 } else { per_phase };
            h.phase(&mut r, threads, max, st)?;
            // What comes after the phase.
            match r.below(8) {
                0 => {}
                1 => h.phase(&mut r, threads, max, st)?,
                2 => {
                    h.create(&mut r)?;
                    h.audit(st)?;
                }
                3 => h.empty(r.chance(1, 2)),
                4 => h.destroy(&mut r)?,
                _ => {
                    h.maintain()?;
                    h.audit(st)?;
                    // Fresh entities take components like any other.
                    for _ in 0..4 {
                        if let Some(e) = h.pick(&mut r) {
                            let x = r.next();
                            if !h.w.insert(e, (P(x),)) {
                                return h.bad(format!("insert into live {} failed", show(e)));
                            }
                            h.live.insert(key(e), (e, Some(x)));
                        }
                    }
                }
            }
            h.audit(st)?;
        }
        // Everything pending comes to life in the end.
        h.maintain()?;
        h.audit(st)?;
        st.add("handles_from_threads", h.n);
    }
    Ok(())
}
