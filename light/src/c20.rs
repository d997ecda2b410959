//! C20: memory in use while cycles that end where they began are repeated.

use crate::kit::*;
use sparsey::component::GroupLayout;
use sparsey::{Entity, World};
use vcommon::{mix, Env, Hash64, Rng, Stats};

#[derive(Clone)]
struct A(u64);
#[derive(Clone)]
struct B(String);
#[derive(Clone)]
struct Z;
#[derive(Clone)]
#[repr(align(32))]
struct W([u64; 12]);

fn a() -> A {
    A(3)
}
fn b() -> B {
    B("seven!!".into())
}
fn w() -> W {
    W([1; 12])
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Create(u8),
    Extend(u8, u8),
    Atomic(u8),
    Maintain,
    Insert(u16, u8),
    Remove(u16, u8),
    Delete(u16, u8),
    Destroy(u16),
    Stale(u16, u8),
    Layout(u8),
    Query,
    Register,
    Reset,
}

fn layout(i: u8) -> GroupLayout {
    let mut g = GroupLayout::default();
    match i {
        0 => {}
        1 => {
            g.add_group::<(A, B)>();
        }
        2 => {
            g.add_group::<(A, Z)>();
            g.add_group::<(W, B)>();
        }
        3 => {
            g.add_group::<(A, B)>();
            g.add_group::<(A, B, Z)>();
            g.add_group::<(A, B, Z, W)>();
        }
        _ => {
            g.add_group::<(Z, W)>();
        }
    }
    g
}

struct T {
    w: World,
    live: Vec<Entity>,
    pending: Vec<Entity>,
    dead: Vec<Entity>,
    /// Per index since the last reset: was it issued, and is it free for reuse.
    issued: Vec<bool>,
    free: usize,
    is_free: Vec<bool>,
    wrong: Option<String>,
    reused: u64,
    fresh: u64,
}

impl T {
    /// A handle was issued: a freed index must have been preferred.
    fn note(&mut self, e: Entity, how: &str) {
        let i = e.index as usize;
        if i >= self.issued.len() {
            if self.wrong.is_none() {
                self.wrong = Some(format!("{how} issued index {i} although {} are in use", self.live.len() + self.pending.len()));
            }
            return;
        }
        if self.free > 0 && !self.is_free[i] && self.wrong.is_none() {
            self.wrong = Some(format!("{how} issued {} while {} destroyed indices wait to be reused", show(e), self.free));
        }
        if self.is_free[i] {
            self.is_free[i] = false;
            self.free -= 1;
            self.reused += 1;
        } else {
            self.fresh += 1;
        }
        self.issued[i] = true;
    }

    fn create(&mut self, m: u8) {
        let e = match m % 8 {
            0 => self.w.create(()),
            1 => self.w.create((a(),)),
            2 => self.w.create((b(), a())),
            3 => self.w.create((a(), b(), Z)),
            4 => self.w.create((w(), Z)),
            5 => self.w.create((a(), b(), Z, w())),
            6 => self.w.create((b(), w())),
            _ => self.w.create((Z,)),
        };
        self.note(e, "create");
        self.live.push(e);
    }

    fn step(&mut self, op: Op) {
        let pick = |v: &Vec<Entity>, i: u16| if v.is_empty() { None } else { Some(v[i as usize % v.len()]) };
        match op {
            Op::Create(m) => self.create(m),
            Op::Extend(n, m) => {
                let at = self.live.len();
                if m % 2 == 0 {
                    let s = self.w.extend((0..n).map(|_| (a(), b())));
                    self.live.extend_from_slice(s);
                } else {
                    let s = self.w.extend((0..n).map(|_| (w(), a(), Z)));
                    self.live.extend_from_slice(s);
                }
                for i in at..self.live.len() {
                    self.note(self.live[i], "extend");
                }
            }
            Op::Atomic(n) => {
                for _ in 0..n {
                    let e = self.w.create_atomic();
                    self.note(e, "create_atomic");
                    self.pending.push(e);
                }
            }
            Op::Maintain => {
                self.w.maintain();
                self.live.append(&mut self.pending);
            }
            Op::Insert(i, m) => {
                let Some(e) = pick(&self.live, i) else { return };
                match m % 6 {
                    0 => self.w.insert(e, (a(),)),
                    1 => self.w.insert(e, (b(),)),
                    2 => self.w.insert(e, (Z, w())),
                    3 => self.w.insert(e, (b(), a())),
                    4 => self.w.insert(e, (a(), b(), Z, w())),
                    _ => self.w.insert(e, ()),
                };
            }
            Op::Remove(i, m) => {
                let Some(e) = pick(&self.live, i) else { return };
                match m % 4 {
                    0 => drop(self.w.remove::<(A,)>(e)),
                    1 => drop(self.w.remove::<(B, W)>(e)),
                    2 => drop(self.w.remove::<(Z, A)>(e)),
                    _ => drop(self.w.remove::<(W, B, A, Z)>(e)),
                }
            }
            Op::Delete(i, m) => {
                let Some(e) = pick(&self.live, i) else { return };
                match m % 4 {
                    0 => self.w.delete::<(B,)>(e),
                    1 => self.w.delete::<(A, W)>(e),
                    2 => self.w.delete::<(Z,)>(e),
                    _ => self.w.delete::<(B, A)>(e),
                }
            }
            Op::Destroy(i) => {
                if self.live.is_empty() {
                    return;
                }
                let k = i as usize % self.live.len();
                let e = self.live.swap_remove(k);
                self.destroy(e);
            }
            Op::Stale(i, m) => {
                let Some(e) = pick(&self.dead, i).or(self.pending.first().copied()) else { return };
                match m % 4 {
                    0 => drop(self.w.destroy(e)),
                    1 => drop(self.w.insert(e, (b(), w()))),
                    2 => drop(self.w.remove::<(A, B)>(e)),
                    _ => self.w.delete::<(W, A)>(e),
                }
            }
            Op::Layout(i) => self.w.set_layout(&layout(i)),
            Op::Query => {
                let mut n = 0usize;
                self.w.for_each::<(Entity, &A)>(|_| n += 1);
                self.w.query_all::<(&mut A, &B)>().exclude::<&Z>().for_each(|_| n += 1);
                self.w.query_all::<Option<&W>>().include::<(&A, &B)>().for_each(|_| n += 1);
                n += self.w.query_all::<(&A, &B)>().slice().map_or(0, |s| s.0.len());
                if let Some(&e) = self.live.last() {
                    n += usize::from(self.w.contains::<(&A, &W)>(e)) + usize::from(self.w.query_one::<&mut W>().get(e).is_some());
                }
                n += self.w.borrow::<B>().len() + self.w.borrow_mut::<W>().as_mut_slice().len();
                std::hint::black_box(n);
            }
            Op::Register => {
                self.w.register::<A>();
                self.w.register::<W>();
            }
            Op::Reset => {
                self.w.reset();
                self.live.clear();
                self.pending.clear();
                self.dead.clear();
                self.issued.fill(false);
                self.is_free.fill(false);
                self.free = 0;
            }
        }
    }

    fn destroy(&mut self, e: Entity) {
        if !self.w.destroy(e) && self.wrong.is_none() {
            self.wrong = Some(format!("destroy({}) of a live entity failed", show(e)));
        }
        let i = e.index as usize;
        if i < self.is_free.len() && !self.is_free[i] {
            self.is_free[i] = true;
            self.free += 1;
        }
        if self.dead.len() < 32 {
            self.dead.push(e);
        } else {
            self.dead[i % 32] = e;
        }
    }

    fn finish(&mut self, end: u8) {
        if end == 1 {
            return self.step(Op::Reset);
        }
        self.step(Op::Maintain);
        while let Some(e) = self.live.pop() {
            self.destroy(e);
        }
    }
}

fn program(r: &mut Rng) -> Vec<Op> {
    let n = if r.chance(1, 4) { r.range(1, 4) } else { r.range(2, 40) };
    let flavour = r.below(5);
    (0..n)
        .map(|_| {
            let (i, m) = (r.below(1000) as u16, r.below(24) as u8);
            match if flavour == 4 { r.below(24) } else { r.weighted(&[4, 2, 3, 2, 4, 3, 2, 4, 2, u32::from(flavour == 1), 1, 1, 0]) } {
                0 | 13 => Op::Create(m),
                1 | 14 => Op::Extend(r.below(20) as u8, m),
                2 | 15 => Op::Atomic(r.below(20) as u8),
                3 | 16 => Op::Maintain,
                4 | 17 => Op::Insert(i, m),
                5 | 18 => Op::Remove(i, m),
                6 | 19 => Op::Delete(i, m),
                7 | 20 => Op::Destroy(i),
                8 => Op::Stale(i, m),
                9 | 21 => Op::Layout(r.below(5) as u8),
                10 => Op::Query,
                11 => Op::Register,
                _ if r.chance(1, 3) => Op::Reset,
                _ => Op::Destroy(i),
            }
        })
        .collect()
}

struct Sizes {
    first: i64,
    second: i64,
    warm: i64,
    left: i64,
    blocks: i64,
    wrong: Option<String>,
    reused: u64,
    fresh: u64,
    /// End-of-cycle sizes at some cycles.
    curve: [i64; 8],
}

fn measure(prog: &[Op], base_layout: u8, end: u8, cycles: usize, warm: bool) -> Sizes {
    let creations: usize = prog
        .iter()
        .map(|o| match o {
            Op::Create(_) => 1,
            Op::Extend(n, _) | Op::Atomic(n) => *n as usize,
            _ => 0,
        })
        .sum::<usize>()
        + 1;
    let (bytes0, blocks0) = (live_bytes(), live_blocks());
    let mut s = Sizes { first: 0, second: 0, warm: 0, left: 0, blocks: 0, wrong: None, reused: 0, fresh: 0, curve: [0; 8] };
    {
        let cap = creations * 2 + 64;
        let mut t = T {
            w: World::builder().register::<A>().register::<B>().register::<Z>().register::<W>().build(),
            live: Vec::with_capacity(cap),
            pending: Vec::with_capacity(cap),
            dead: Vec::with_capacity(cap),
            // No more indices than entities that existed at the same time.
            issued: vec![false; creations],
            is_free: vec![false; creations],
            free: 0,
            wrong: None,
            reused: 0,
            fresh: 0,
        };
        take_peak();
        if warm {
            // Lets every storage reach the size that the number of entities asks for.
            for l in [0, 3, 2, base_layout] {
                t.step(Op::Layout(l));
                for _ in 0..creations {
                    t.create(5);
                }
                t.finish(0);
            }
            for _ in 0..2 {
                for _ in 0..creations {
                    t.step(Op::Atomic(1));
                }
                t.finish(0);
            }
            s.warm = take_peak();
        } else {
            t.step(Op::Layout(base_layout));
        }
        for c in 0..cycles {
            for &op in prog {
                t.step(op);
            }
            t.finish(end);
            if t.wrong.is_some() {
                break;
            }
            let p = take_peak() - bytes0;
            if c < cycles / 2 {
                s.first = s.first.max(p);
            } else {
                s.second = s.second.max(p);
            }
            s.curve[c * 8 / cycles] = live_bytes() - bytes0;
        }
        s.wrong = t.wrong.take();
        s.reused = t.reused;
        s.fresh = t.fresh;
        if prog.len() % 3 == 0 {
            // Dropped while populated.
            for &op in prog {
                t.step(op);
            }
        }
    }
    let err = s.wrong.as_ref().map_or(0, |w| w.capacity() as i64);
    s.left = live_bytes() - bytes0 - err;
    s.blocks = live_blocks() - blocks0 - i64::from(err > 0);
    s
}

pub fn run(env: &Env, st: &mut Stats) -> Out {
    let asan = std::env::var("VH_STAGE").is_ok_and(|s| s == "asan");
    let rounds = env.cases(if env.thorough { 200_000 } else { 16_000 }) / env.shards.max(1) + 1;
    let cycles = if cfg!(miri) || asan { 40 } else { 3000 };
    for round in 0..rounds {
        if env.out_of_time() {
            st.add("stopped_by_clock", 1);
            break;
        }
        let seed = mix(mix(env.seed, 20), round * env.shards + env.shard);
        env.note_case(&format!("seed {seed:#x}"));
        let mut r = Rng::new(seed);
        let prog = program(&mut r);
        let base = r.below(5) as u8;
        let end = u8::from(r.chance(1, 6));
        let has_reset = end == 1 || prog.iter().any(|o| matches!(o, Op::Reset));
        let has_layout = prog.iter().any(|o| matches!(o, Op::Layout(_)));
        let text = || format!("base layout {base}, ends with {}, cycle {prog:?}", if end == 1 { "reset" } else { "maintain and destroying all" });
        let case = format!("seed {seed:#x}");
        let s = match attempt(|| measure(&prog, base, end, cycles, true)) {
            Ok(s) => s,
            Err(p) => return found("memory", format!("a cycle panicked at {}: {}", p.loc, p.msg), case, text()),
        };
        if let Some(wr) = s.wrong {
            let oracle = if wr.contains("issued") { "index-reuse" } else { "memory" };
            return found(oracle, wr, case, text());
        }
        let mut h = Hash64::default();
        for op in &prog {
            h.str(&format!("{op:?}"));
        }
        h.add(base.into()).add(end.into());
        st.evaluations += s.reused + s.fresh + cycles as u64;
        st.distinct.insert(h.0);
        st.add("cycles", cycles as u64);
        st.add("programs", 1);
        st.add("programs_with_reset", u64::from(has_reset));
        st.add("programs_with_set_layout", u64::from(has_layout));
        st.add("indices_reused", s.reused);
        st.add("indices_fresh", s.fresh);
        st.max("peak_bytes", s.second.max(0) as u64);
        st.sample(6, || format!("{} operations per cycle, {cycles} cycles: peak {} B, then {} B; after dropping {} B", prog.len(), s.first, s.second, s.left));
        if s.second > s.first.max(s.warm) + 2048 {
            return found(
                "memory-growth",
                format!("peak of the second half of {cycles} equal cycles is {} B, of the first {} B; sizes after cycles: {:?}", s.second, s.first, s.curve),
                case,
                text(),
            );
        }
        if s.left != 0 || s.blocks != 0 {
            return found("memory-left", format!("{} B in {} blocks remain after dropping the world", s.left, s.blocks), case, text());
        }
    }
    Ok(())
}
