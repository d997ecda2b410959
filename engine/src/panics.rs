//! C17: panics of user code inside library operations, and what must still hold afterwards.

use crate::bundles::{with_type, Bundle};
use crate::model::*;
use crate::shapes::*;
use crate::sut::*;
use crate::types::*;
use sparsey::{Entity, World};
use vcommon::{guard, viol, Hash64, Res, Stats, Viol};

const KINDS: [&str; 12] = [
    "insert with a panicking destructor",
    "delete with a panicking destructor",
    "destroy with a panicking destructor",
    "insert into a dead entity with a panicking destructor",
    "extend with a panicking iterator",
    "create of a tuple with repeated types and a panicking destructor",
    "clear with a panicking destructor",
    "reset with a panicking destructor",
    "iteration with a panicking closure",
    "point query with a panicking closure",
    "slice or view with a panicking user",
    "extend with a panicking iterator over a panicking destructor",
];

/// What became of an operation in which user code was told to panic.
enum Out<T> {
    Done(T),
    Panicked,
}

impl Sut<'_> {
    fn provoke<T>(&mut self, n: i64, on_read: bool, f: impl FnOnce(&mut World) -> T) -> Result<Out<T>, Viol> {
        if on_read {
            arm_read(n);
        } else {
            arm(n);
        }
        let w = &mut self.w;
        let r = guard(move || f(w));
        disarm();
        match r {
            Ok(x) => Ok(Out::Done(x)),
            Err(p) if p.injected => Ok(Out::Panicked),
            Err(p) if p.in_harness() => {
                eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
                std::process::exit(3);
            }
            Err(p) => viol("unexpected-panic", format!("the library panicked on its own at {}: {}", p.loc, p.msg)),
        }
    }

    /// Entities that appeared while a creating operation panicked: complete rows, from the first one on.
    fn adopt(&mut self, how: &str, b: &Bundle, ids: &[u32], most: usize, exact: bool, st: &mut Stats) -> Res {
        let new: Vec<Entity> = self.w.entities().iter().copied().filter(|&e| !self.m.is_live(e)).collect();
        st.add("entities_left_by_panics", new.len() as u64);
        if new.len() > most || exact && new.len() != most {
            return viol("panic-aftermath", format!("{how}: {} entities appeared, should be {}{most}", new.len(), if exact { "" } else { "at most " }));
        }
        let k = b.types.len();
        let mut rows: Vec<Comps> = (0..new.len())
            .map(|i| {
                let mut c = [0; NT];
                Model::assign(&mut c, b, &ids[i * k..(i + 1) * k]);
                c
            })
            .collect();
        for e in new {
            if self.m.issued.contains(&enc(e)) {
                return viol("panic-aftermath", format!("{how}: {} is live, which was issued before", show_ent(e)));
            }
            let mut c = [0; NT];
            for t in 0..NT {
                if self.m.registered >> t & 1 == 1 {
                    c[t] = with_type!(t, T => self.w.borrow::<T>().get(e).map_or(0, |x| x.rd()));
                }
            }
            let Some(i) = rows.iter().position(|r| *r == c) else {
                return viol("panic-aftermath", format!("{how}: the new entity {} has components {c:?}, which is none of the rows {rows:?}", show_ent(e)));
            };
            rows.swap_remove(i);
            self.m.note_handle(e);
            self.m.add(e, c);
        }
        Ok(())
    }

    pub fn boom(&mut self, op: Op, st: &mut Stats) -> Res {
        let tab = self.tab;
        let kind = (op.c % 12) as usize;
        let n = i64::from(op.c >> 8) % if (op.c >> 6) & 3 == 0 { 24 } else { 4 };
        let bi = self.bundle_ix[op.b as usize % self.bundle_ix.len()];
        let mut b = &tab.bundles[bi];
        let e = self.resolve(op.a, op.c >> 4);
        let mut fired = true;
        let case = KINDS[kind];
        match kind {
            0 | 1 => {
                let Some(e) = e else { return Ok(()) };
                let live = self.m.is_live(e);
                let ids: Vec<u32> = b.types.iter().map(|&t| fresh(t)).collect();
                let out = if kind == 0 {
                    self.provoke(n, false, |w| (b.insert)(w, e, &ids))?
                } else {
                    self.provoke(n, false, |w| {
                        (b.delete)(w, e);
                        true
                    })?
                };
                fired = matches!(out, Out::Panicked);
                // Takes full effect either way.
                if let (true, Some(c)) = (live, self.m.live.get_mut(&enc(e))) {
                    if kind == 0 {
                        Model::assign(c, b, &ids);
                    } else {
                        b.types.iter().for_each(|&t| c[t] = 0);
                    }
                }
            }
            2 => {
                let Some(e) = e else { return Ok(()) };
                fired = matches!(self.provoke(n, false, |w| w.destroy(e))?, Out::Panicked);
                // The entity is gone with all its components either way.
                self.m.del(e);
            }
            3 => {
                let Some(e) = e else { return Ok(()) };
                if self.m.is_live(e) || self.w.contains_entity(e) {
                    return Ok(());
                }
                let ids: Vec<u32> = b.types.iter().map(|&t| fresh(t)).collect();
                fired = matches!(self.provoke(n, false, |w| (b.insert)(w, e, &ids))?, Out::Panicked);
            }
            4 | 11 => {
                let rows = op.a as usize % 24;
                let ids: Vec<u32> = (0..rows).flat_map(|_| b.types.iter().map(|&t| fresh(t))).collect();
                let stop = (op.c >> 9) as usize % (rows + 1);
                let arm_n = if kind == 11 { n } else { -1 };
                match self.provoke(arm_n, false, |w| (b.extend)(w, &ids, rows, (op.c >> 4) as u8, Some(stop)))? {
                    Out::Done(es) => {
                        fired = false;
                        let k = b.types.len();
                        if es.len() > rows {
                            return viol("extend-length", format!("extend of {rows} rows returned {} entities", es.len()));
                        }
                        for (i, &e) in es.iter().enumerate() {
                            self.m.note_handle(e);
                            let mut c = [0; NT];
                            Model::assign(&mut c, b, &ids[i * k..(i + 1) * k]);
                            self.m.add(e, c);
                        }
                    }
                    // The second kind of iterator is only consumed after it was collected.
                    Out::Panicked if kind == 4 => self.adopt(case, b, &ids, if (op.c >> 4) as u8 % 8 == 1 { 0 } else { stop }, true, st)?,
                    Out::Panicked => self.adopt(case, b, &ids, stop, false, st)?,
                }
            }
            5 => {
                // Overwrites its own values when it names a type twice.
                let dups: Vec<usize> = self.bundle_ix.iter().copied().filter(|&i| tab.bundles[i].dup()).collect();
                if !dups.is_empty() {
                    b = &tab.bundles[dups[op.b as usize % dups.len()]];
                }
                let ids: Vec<u32> = b.types.iter().map(|&t| fresh(t)).collect();
                match self.provoke(n, false, |w| (b.create)(w, &ids))? {
                    Out::Done(e) => {
                        fired = false;
                        self.m.note_handle(e);
                        let mut c = [0; NT];
                        Model::assign(&mut c, b, &ids);
                        self.m.add(e, c);
                    }
                    Out::Panicked => self.adopt(case, b, &ids, 1, true, st)?,
                }
            }
            6 | 7 => {
                let old = self.m.pending.clone();
                let out = self.provoke(n, false, |w| if kind == 6 { w.clear() } else { w.reset() })?;
                fired = matches!(out, Out::Panicked);
                // The world is empty either way, but values behind the panicking one may be leaked.
                self.m.clear();
                if kind == 7 {
                    self.m.issued.clear();
                }
                self.rebase();
                self.ora |= O_CLEAR;
                self.emptied(["clear", "reset"][kind - 6], &old, st)?;
            }
            8 => {
                let s = &tab.shapes[self.shape_ix[op.b as usize % self.shape_ix.len()]];
                let out = match (op.c >> 4) % 12 {
                    #[cfg(feature = "par")]
                    0..=3 => {
                        let modes = [PM::ForEach, PM::QForEach, PM::Collect, PM::FoldReduce, PM::Indexed(3), PM::RevProducer, PM::ZipChunks(2), PM::WForEach];
                        let mut m = modes[op.a as usize % modes.len()];
                        if m == PM::WForEach && !s.plain() {
                            m = PM::QForEach;
                        }
                        st.add("parallel_closures", 1);
                        self.provoke(n, true, |w| drop((s.par)(w, m, &Cx::default())))?
                    }
                    _ => {
                        let mut m = IMODES[op.a as usize % IMODES.len()];
                        if m == IM::WForEach && !s.plain() {
                            m = IM::QForEach;
                        }
                        self.provoke(n, true, |w| drop((s.iter)(w, m, &Cx::default())))?
                    }
                };
                fired = matches!(out, Out::Panicked);
            }
            9 => {
                let Some(e) = e else { return Ok(()) };
                let s = &tab.shapes[self.shape_ix[op.b as usize % self.shape_ix.len()]];
                let m = [OM::Get, OM::Map, OM::Swapped][(op.c >> 4) as usize % 3];
                fired = matches!(self.provoke(n % 3, true, |w| drop((s.one)(w, e, m, &Cx::default())))?, Out::Panicked);
            }
            _ => {
                if op.a % 2 == 0 {
                    let s = &tab.shapes[self.shape_ix[op.b as usize % self.shape_ix.len()]];
                    fired = matches!(self.provoke(n, true, |w| drop((s.slice)(w, &Cx::default())))?, Out::Panicked);
                } else {
                    let t = self.pick_type(op.b);
                    fired = matches!(
                        self.provoke(n, true, |w| with_type!(t, T => {
                            if op.a % 4 == 1 {
                                let v = w.borrow::<T>();
                                v.as_slice().iter().for_each(|x| drop(x.rd()));
                            } else {
                                let mut v = w.borrow_mut::<T>();
                                v.as_mut_slice().iter_mut().for_each(|x| drop(x.rd()));
                            }
                        }))?,
                        Out::Panicked
                    );
                }
            }
        }
        st.add(if fired { "provoked_panics" } else { "provocations_without_effect" }, 1);
        if fired {
            st.add(["p_insert", "p_delete", "p_destroy", "p_insert_dead", "p_extend", "p_create", "p_clear", "p_reset", "p_iteration", "p_point", "p_slice_view", "p_extend_destructor"][kind], 1);
            // Values behind the panicking destructor may be leaked.
            self.rebase();
            self.ora |= O_ALL | O_DROP;
            st.sample(8, || format!("{case} ({}): {} entities intact", b.name, self.m.live.len()));
        }
        let mut h = Hash64::default();
        h.add(kind as u64).add(fired.into()).add(bi as u64).add(n as u64).add(self.m.layout_sig()).add(self.m.live.len().min(16) as u64);
        st.eval(Some(h.0));
        self.intact(case, st)
    }

    /// Values that are no longer owned by the world and were not dropped stay that way.
    pub fn rebase(&mut self) {
        let (n, z) = self.m.tracked_held();
        self.leak = (tracked_alive() - n as i64, z_alive() - z as i64);
    }

    /// Everything that must hold after a panic.
    pub fn intact(&mut self, how: &str, st: &mut Stats) -> Res {
        let bad = |m: String| -> Res { viol("panic-aftermath", format!("after {how}: {m}")) };
        if let Some(f) = take_faults() {
            return viol("value-fault", format!("{f} [{how}]"));
        }
        // Borrows are released.
        for t in 0..NT {
            if self.m.registered >> t & 1 == 0 {
                continue;
            }
            st.evaluations += 1;
            let r = guard(|| with_type!(t, T => drop(self.w.borrow_mut::<T>().as_mut_slice().len())));
            if let Err(p) = r {
                return bad(format!("T{t} cannot be borrowed: {}", p.msg));
            }
        }
        let r = guard(|| -> Res {
            if self.w.entities().len() != self.m.live.len() {
                return bad(format!("{} entities are listed, should be {}", self.w.entities().len(), self.m.live.len()));
            }
            for &k in self.m.live.keys() {
                st.evaluations += 1;
                if !self.w.contains_entity(dec(k)) {
                    return bad(format!("{} is not live", show_key(k)));
                }
            }
            for t in 0..NT {
                if self.m.registered >> t & 1 == 0 {
                    continue;
                }
                with_type!(t, T => {
                    let v = self.w.borrow::<T>();
                    for (&k, c) in &self.m.live {
                        let x = v.get(dec(k)).map_or(0, |x| x.rd());
                        if x != c[t] {
                            return bad(format!("T{t} of {} reads {}, should be {}", show_key(k), sid(x), sid(c[t])));
                        }
                    }
                    let mut seen = 0;
                    for (&e, x) in v.entities().iter().zip(v.as_slice()) {
                        let x = x.rd();
                        if let Some(c) = self.m.live.get(&enc(e)) {
                            seen += 1;
                            if c[t] != x {
                                return bad(format!("the view of T{t} lists {} for {}, should be {}", sid(x), show_ent(e), sid(c[t])));
                            }
                        }
                    }
                    let want = self.m.live.values().filter(|c| c[t] != 0).count();
                    if seen != want {
                        return bad(format!("the view of T{t} lists {seen} components of live entities, should be {want}"));
                    }
                });
            }
            // Every entity is found by the queries it matches, and nothing dead is read.
            for (i, &si) in self.shape_ix.iter().enumerate() {
                if self.m.live.len() > 300 && i % 9 != 0 {
                    continue;
                }
                let s = &self.tab.shapes[si];
                let o = (s.iter)(&self.w, IM::Next, &Cx::default());
                let sl = (s.slice)(&self.w, &Cx::default());
                let Some(p) = s.get.iter().position(|p| p.k == PK::Ent) else { continue };
                let own = |k: &u64| self.m.live.contains_key(k);
                let mut got: Vec<Row> = o.rows.into_iter().filter(|r| own(&r[p])).collect();
                got.sort_unstable();
                let want = self.m.expect(s);
                st.evaluations += 1;
                if let Some(d) = diff_rows(s, &want, &got) {
                    return bad(format!("query [{}]: {d}", s.name));
                }
                if let Some(Some(col)) = sl.as_ref().and_then(|c| c.get(p)) {
                    let n = col.iter().filter(|k| own(k)).count();
                    if n != want.len() {
                        return bad(format!("slices of [{}] hold {n} live entities, should hold {}", s.name, want.len()));
                    }
                }
            }
            Ok(())
        });
        match r {
            Ok(r) => r?,
            Err(p) if p.in_harness() => {
                eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
                std::process::exit(3);
            }
            Err(p) => return bad(format!("looking at the world panicked at {}: {}", p.loc, p.msg)),
        }
        if let Some(f) = take_faults() {
            return viol("value-fault", format!("{f} [looking at the world after {how}]"));
        }
        Ok(())
    }
}
