//! C24: SparseVec against a map.

use crate::kit::*;
use sparsey::entity::{SparseVec, SparseVecSlot, Version};
use std::collections::BTreeMap;
use std::num::NonZeroU32;
use vcommon::{mix, Env, Hash64, Rng, Stats};

fn ver(v: u32) -> Version {
    Version(NonZeroU32::new(v).unwrap())
}

type Map = BTreeMap<usize, (u32, u32)>;

struct S {
    v: SparseVec,
    m: Map,
    /// Highest index ever allocated since the last clear.
    top: Option<usize>,
    log: Vec<String>,
}

fn slot(s: Option<SparseVecSlot>) -> Option<(u32, u32)> {
    s.map(|s| (s.index, s.version.0.get()))
}

impl S {
    fn bad<T>(&self, what: String) -> Result<T, Found> {
        let tail: Vec<&String> = self.log.iter().rev().take(40).collect();
        let mut t: Vec<String> = tail.into_iter().rev().cloned().collect();
        t.push(what.clone());
        found("sparse-map", what, format!("{} operations", self.log.len()), t.join("\n"))
    }

    /// All lookups of one index, with the stored version and with others.
    fn look(&self, i: usize, extra: u32, st: &mut Stats) -> Out {
        let s = self.m.get(&i).copied();
        let mut h = Hash64::default();
        h.add(i.min(300) as u64).add(s.map_or(0, |s| 1 + u64::from(s.1.min(6)))).add(extra.min(8).into());
        h.add(self.m.len().min(16) as u64).add(self.top.map_or(0, |t| t.min(1000) as u64 + 1));
        st.eval(Some(h.0));
        if self.v.get_sparse(i) != s.map(|s| s.0) {
            return self.bad(format!("get_sparse({i}) is {:?}, should be {:?}", self.v.get_sparse(i), s.map(|s| s.0)));
        }
        if self.v.contains_sparse(i) != s.is_some() {
            return self.bad(format!("contains_sparse({i}) is {}, slot is {s:?}", self.v.contains_sparse(i)));
        }
        if let Some(s) = s {
            // SAFETY: the slot is occupied.
            let d = unsafe { self.v.get_sparse_unchecked(i) };
            if d != s.0 as usize {
                return self.bad(format!("get_sparse_unchecked({i}) is {d}, should be {}", s.0));
            }
        }
        if let Ok(i32b) = u32::try_from(i) {
            let own = s.map_or(1, |s| s.1);
            for v in [own, own.wrapping_add(1).max(1), own.wrapping_sub(1).max(1), extra.max(1), u32::MAX, own ^ 0x8000_0000] {
                if v == 0 {
                    continue;
                }
                let e = ent(i32b, v);
                let want = s.filter(|s| s.1 == v).map(|s| s.0);
                if self.v.get(e) != want || self.v.contains(e) != want.is_some() {
                    return self.bad(format!("get({}) is {:?}, contains {}, should be {want:?}", show(e), self.v.get(e), self.v.contains(e)));
                }
            }
        }
        Ok(())
    }

    fn all(&self, st: &mut Stats) -> Out {
        let top = self.top.unwrap_or(0);
        for i in 0..(top + 3).min(70) {
            self.look(i, 3, st)?;
        }
        for &i in self.m.keys() {
            self.look(i, 1, st)?;
            self.look(i + 1, 1, st)?;
        }
        for i in [top, top + 1, top.wrapping_mul(2).wrapping_add(2), u32::MAX as usize, (u32::MAX as usize).wrapping_add(1), usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1] {
            self.look(i, 1, st)?;
        }
        // The debug representation lists exactly the occupied slots.
        let d = format!("{:?}", self.v);
        let n = d.matches("Entity").count();
        if n != self.m.len() {
            return self.bad(format!("{n} slots listed, {} are occupied", self.m.len()));
        }
        for (&i, &(x, v)) in self.m.iter().take(8) {
            let want = format!("{:?}: {x}", ent(i as u32, v));
            if !d.contains(&want) {
                return self.bad(format!("slot {want} is not listed in {}", &d[..d.len().min(300)]));
            }
        }
        Ok(())
    }

    fn step(&mut self, r: &mut Rng, span: usize, st: &mut Stats) -> Out {
        let i = if r.chance(1, 30) { r.below(span * 40 + 1) } else { r.below(span) };
        let x = r.next() as u32;
        let v = match r.below(6) {
            0 => u32::MAX,
            1 => 0x8000_0000 | r.below(3) as u32,
            _ => 1 + r.below(4) as u32,
        };
        let s = self.m.get(&i).copied();
        match r.below(14) {
            0..=4 => {
                self.log.push(format!("set {i} = ({x}, {v})"));
                let p = self.v.get_mut_or_allocate_at(i);
                let old = slot(*p);
                *p = Some(SparseVecSlot { index: x, version: ver(v) });
                self.top = Some(self.top.map_or(i, |t| t.max(i)));
                self.m.insert(i, (x, v));
                if old != s {
                    return self.bad(format!("slot {i} held {old:?}, should hold {s:?}"));
                }
            }
            5 => {
                self.log.push(format!("allocate {i}"));
                let old = slot(*self.v.get_mut_or_allocate_at(i));
                self.top = Some(self.top.map_or(i, |t| t.max(i)));
                if old != s {
                    return self.bad(format!("slot {i} held {old:?}, should hold {s:?}"));
                }
            }
            6 | 7 => {
                // Removal with the right or some other version.
                let v = if r.chance(1, 2) { s.map_or(v, |s| s.1) } else { v };
                let e = ent(i as u32, v);
                self.log.push(format!("remove {}", show(e)));
                let got = self.v.remove(e);
                let want = s.filter(|s| s.1 == v).map(|s| s.0);
                if want.is_some() {
                    self.m.remove(&i);
                }
                if got != want {
                    return self.bad(format!("remove({}) gave {got:?}, should be {want:?}", show(e)));
                }
            }
            8 => {
                self.log.push(format!("remove_sparse {i}"));
                let got = slot(self.v.remove_sparse(i));
                self.m.remove(&i);
                if got != s {
                    return self.bad(format!("remove_sparse({i}) gave {got:?}, should be {s:?}"));
                }
            }
            9 | 10 => {
                let Some(top) = self.top else { return Ok(()) };
                let (a, b) = (r.below(top + 1), r.below(top + 1));
                if a != b {
                    self.log.push(format!("swap {a} {b}"));
                    // SAFETY: both indices were allocated and differ.
                    unsafe { self.v.swap_nonoverlapping(a, b) };
                    let (x, y) = (self.m.remove(&a), self.m.remove(&b));
                    if let Some(x) = x {
                        self.m.insert(b, x);
                    }
                    if let Some(y) = y {
                        self.m.insert(a, y);
                    }
                    self.look(a, 2, st)?;
                    self.look(b, 2, st)?;
                }
            }
            11 => {
                let Some(top) = self.top else { return Ok(()) };
                let a = r.below(top + 1);
                self.log.push(format!("raw {a}"));
                // SAFETY: the index was allocated.
                let p = unsafe { self.v.get_unchecked_mut(a) };
                let old = slot(*p);
                let want = self.m.get(&a).copied();
                if r.chance(1, 2) {
                    *p = None;
                    self.m.remove(&a);
                } else if old.is_some() {
                    p.as_mut().unwrap().index = x;
                    self.m.get_mut(&a).map(|s| s.0 = x);
                }
                if old != want {
                    return self.bad(format!("get_unchecked_mut({a}) held {old:?}, should hold {want:?}"));
                }
            }
            12 => {
                match r.below(6) {
                    0 => {
                        self.log.push("clear".into());
                        self.v.clear();
                        self.m.clear();
                        self.top = None;
                    }
                    1 => {
                        // Continue with a clone; the original must not notice.
                        self.log.push("clone".into());
                        let c = self.v.clone();
                        if r.chance(1, 2) {
                            *self.v.get_mut_or_allocate_at(i) = None;
                            self.v = c;
                        } else {
                            drop(c);
                        }
                    }
                    _ => {}
                }
                self.all(st)?;
            }
            _ => {
                // Requests that cannot be satisfied: more slots than an allocation can hold.
                let big = [usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, (usize::MAX >> 2) + 2, usize::MAX >> 3, (usize::MAX >> 4) + 1, (usize::MAX >> 4) + 8][r.below(8)];
                self.log.push(format!("allocate {big}"));
                st.add("impossible_requests", 1);
                let v = &mut self.v;
                if attempt(move || {
                    v.get_mut_or_allocate_at(big);
                })
                .is_ok()
                {
                    return self.bad(format!("get_mut_or_allocate_at({big}) returned a slot"));
                }
                self.look(big, 1, st)?;
                self.all(st)?;
            }
        }
        self.look(i, v, st)
    }
}

pub fn run(env: &Env, st: &mut Stats) -> Out {
    let rounds = env.cases(if env.thorough { 800_000 } else { 50_000 }) / env.shards.max(1) + 1;
    for round in 0..rounds {
        if env.out_of_time() {
            st.add("stopped_by_clock", 1);
            break;
        }
        let seed = mix(mix(env.seed, 24), round * env.shards + env.shard);
        env.note_case(&format!("seed {seed:#x}"));
        let mut r = Rng::new(seed);
        let span = match r.below(6) {
            0 => 2,
            1 => 9,
            2 => 40,
            3 => 300,
            4 => 66_000,
            _ => 17,
        };
        let span = if cfg!(miri) { span.min(60) } else { span };
        let mut s = S { v: if r.chance(1, 2) { SparseVec::new() } else { SparseVec::default() }, m: Map::new(), top: None, log: vec![] };
        let n = if cfg!(miri) { 40 } else { r.range(10, 160) };
        for _ in 0..n {
            match attempt(|| s.step(&mut r, span, st)) {
                Ok(x) => x?,
                Err(p) => return s.bad(format!("panicked at {}: {}", p.loc, p.msg)),
            }
        }
        s.all(st)?;
        st.add("operations", s.log.len() as u64);
        st.max("highest_index", s.top.unwrap_or(0) as u64);
        st.max("most_slots", s.m.len() as u64);
        st.sample(6, || format!("span {span}: {} operations, {} slots occupied at the end; last: {}", s.log.len(), s.m.len(), s.log.last().cloned().unwrap_or_default()));
    }
    Ok(())
}
