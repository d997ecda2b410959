//! Executable reference model: which handles are live and which component values they own.

use crate::bundles::Bundle;
use crate::layouts::{effective, Groups};
use crate::shapes::{dec, enc, Row, Shape, PK, W};
use crate::types::*;
use sparsey::Entity;
use std::collections::BTreeMap;
use vcommon::{HashMap, HashSet};

pub type Comps = [u32; NT];

#[derive(Default, Clone)]
pub struct Model {
    pub live: BTreeMap<u64, Comps>,
    /// Live handles in a vector with positions, for random choice.
    pub lives: Vec<u64>,
    pos: HashMap<u64, usize>,
    pub pending: Vec<Entity>,
    /// Handles returned since the last reset.
    pub issued: HashSet<u64>,
    /// Every handle ever returned, in order; operations refer to handles by position.
    pub handles: Vec<Entity>,
    pub ord: HashMap<u64, u32>,
    pub registered: u16,
    pub groups: Groups,
    pub eff: Vec<u32>,
}

impl Model {
    pub fn note_handle(&mut self, e: Entity) {
        self.ord.insert(enc(e), self.handles.len() as u32);
        self.handles.push(e);
        self.issued.insert(enc(e));
    }
    pub fn is_live(&self, e: Entity) -> bool {
        self.live.contains_key(&enc(e))
    }
    pub fn add(&mut self, e: Entity, c: Comps) {
        let k = enc(e);
        if self.live.insert(k, c).is_none() {
            self.pos.insert(k, self.lives.len());
            self.lives.push(k);
        }
    }
    pub fn del(&mut self, e: Entity) -> Option<Comps> {
        let k = enc(e);
        let c = self.live.remove(&k)?;
        let p = self.pos.remove(&k).unwrap();
        self.lives.swap_remove(p);
        if let Some(&m) = self.lives.get(p) {
            self.pos.insert(m, p);
        }
        Some(c)
    }
    pub fn clear(&mut self) {
        self.live.clear();
        self.lives.clear();
        self.pos.clear();
        self.pending.clear();
    }
    pub fn set_groups(&mut self, g: Groups) {
        self.eff = effective(&g);
        for grp in &g {
            let m = grp.iter().fold(0u16, |m, t| m | (1 << t));
            // Groups of fewer than two types are ignored and register nothing.
            if m.count_ones() >= 2 {
                self.registered |= m;
            }
        }
        self.groups = g;
    }
    /// Values of a tuple assigned left to right: later duplicates win.
    pub fn assign(c: &mut Comps, b: &Bundle, ids: &[u32]) {
        for (i, &t) in b.types.iter().enumerate() {
            c[t] = ids[i];
        }
    }
    pub fn matches(s: &Shape, c: &Comps) -> bool {
        let m = mask_of(c);
        m & s.req == s.req && m & s.exc_mask == 0
    }
    pub fn row(s: &Shape, k: u64, c: &Comps) -> Row {
        let mut r = [0; W];
        for (i, p) in s.get.iter().enumerate() {
            r[i] = if p.k == PK::Ent { k } else { u64::from(c[p.t]) };
        }
        r
    }
    /// Whether `query_all` of `s` is subject to the known finding "partial-exclude" under the current layout: several
    /// excluded types, all served by one group, reject only entities that have all of them.
    pub fn relaxed(&self, s: &Shape) -> bool {
        s.exc_mask.count_ones() >= 2 && crate::sut::kf_partial() && crate::layouts::must_be_dense(&self.eff, s)
    }
    pub fn hits(s: &Shape, c: &Comps, relaxed: bool) -> bool {
        if !relaxed {
            return Self::matches(s, c);
        }
        let m = mask_of(c);
        m & s.req == s.req && m & s.exc_mask != s.exc_mask
    }
    /// Number of items `query_all` is expected to yield.
    pub fn count(&self, s: &Shape) -> usize {
        let r = self.relaxed(s);
        self.live.values().filter(|c| Self::hits(s, c, r)).count()
    }
    /// Whether the known finding changes the result of `query_all` right now.
    pub fn kf_differs(&self, s: &Shape) -> bool {
        self.relaxed(s) && self.live.values().any(|c| Self::hits(s, c, true) != Self::hits(s, c, false))
    }
    /// Expected items of the query, sorted.
    pub fn expect(&self, s: &Shape) -> Vec<Row> {
        let rel = self.relaxed(s);
        let mut v: Vec<Row> = if s.parts == 0 {
            vec![]
        } else {
            self.live.iter().filter(|(_, c)| Self::hits(s, c, rel)).map(|(&k, c)| Self::row(s, k, c)).collect()
        };
        v.sort_unstable();
        v
    }
    /// Plan of a mutating pass over `s`: old id -> new id for every value it may reach.
    pub fn plan(&self, s: &Shape, only: Option<Entity>) -> HashMap<u32, u32> {
        let mut m = HashMap::default();
        let rel = only.is_none() && self.relaxed(s);
        let only = only.map(enc);
        for p in s.get.iter().filter(|p| p.mutable() && p.t != 2) {
            let mut olds: Vec<u32> = self
                .live
                .iter()
                .filter(|(&k, c)| only.is_none_or(|o| o == k) && Self::hits(s, c, rel) && c[p.t] != 0)
                .map(|(_, c)| c[p.t])
                .collect();
            olds.sort_unstable();
            for o in olds {
                m.insert(o, fresh(p.t));
            }
        }
        m
    }
    pub fn apply(&mut self, plan: &HashMap<u32, u32>) {
        if plan.is_empty() {
            return;
        }
        for c in self.live.values_mut() {
            for x in c.iter_mut() {
                if *x != 0 && *x != ZID {
                    if let Some(&n) = plan.get(x) {
                        *x = n;
                    }
                }
            }
        }
    }
    pub fn owners(&self, t: usize) -> Vec<(u64, u32)> {
        self.live.iter().filter(|(_, c)| c[t] != 0).map(|(&k, c)| (k, c[t])).collect()
    }
    pub fn tracked_held(&self) -> (u64, u64) {
        let mut n = 0;
        let mut z = 0;
        for c in self.live.values() {
            for (t, &x) in c.iter().enumerate() {
                if x != 0 {
                    n += u64::from(tracked(t));
                    z += u64::from(t == 2);
                }
            }
        }
        (n, z)
    }
    /// Hash of the population's shape: which sets of types are present, how often (capped), under which layout.
    pub fn sig(&self) -> u64 {
        let mut counts: BTreeMap<u16, u64> = BTreeMap::new();
        for c in self.live.values() {
            *counts.entry(mask_of(c)).or_default() += 1;
        }
        let mut h = vcommon::Hash64::default();
        for (m, n) in counts {
            h.add(u64::from(m)).add(n.min(3));
        }
        h.add(self.layout_sig());
        h.0
    }
    pub fn layout_sig(&self) -> u64 {
        let mut h = vcommon::Hash64::default();
        for &g in &self.eff {
            h.add(u64::from(g));
        }
        h.0
    }
}

pub fn mask_of(c: &Comps) -> u16 {
    let mut m = 0;
    for (t, &x) in c.iter().enumerate() {
        if x != 0 {
            m |= 1 << t;
        }
    }
    m
}

pub fn show_row(s: &Shape, r: &Row) -> String {
    let mut o = String::from("(");
    for (i, p) in s.get.iter().enumerate() {
        if i > 0 {
            o.push_str(", ");
        }
        match p.k {
            PK::Ent => o.push_str(&show_e(dec_lossy(r[i]))),
            _ if r[i] == 0 => o.push('-'),
            _ if r[i] == u64::from(ZID) => o.push_str("T2"),
            _ => o.push_str(&format!("T{}#{}", p.t, r[i])),
        }
    }
    o.push(')');
    o
}
fn dec_lossy(x: u64) -> (u64, u64) {
    (x & 0xffff_ffff, x >> 32)
}
fn show_e((i, v): (u64, u64)) -> String {
    format!("e{i}v{v}")
}
pub fn show_ent(e: Entity) -> String {
    format!("e{}v{}", e.index, e.version.0)
}
pub fn show_key(k: u64) -> String {
    show_ent(dec(k))
}

/// Explains how two sorted row lists differ; None if equal.
pub fn diff_rows(s: &Shape, exp: &[Row], got: &[Row]) -> Option<String> {
    if exp == got {
        return None;
    }
    let (mut i, mut j) = (0, 0);
    let mut missing = vec![];
    let mut extra = vec![];
    while i < exp.len() || j < got.len() {
        if j >= got.len() || (i < exp.len() && exp[i] < got[j]) {
            missing.push(show_row(s, &exp[i]));
            i += 1;
        } else if i >= exp.len() || got[j] < exp[i] {
            extra.push(show_row(s, &got[j]));
            j += 1;
        } else {
            i += 1;
            j += 1;
        }
    }
    let cap = |v: &mut Vec<String>| {
        let n = v.len();
        v.truncate(6);
        if n > 6 {
            v.push(format!("... {n} in all"));
        }
    };
    cap(&mut missing);
    cap(&mut extra);
    Some(format!(
        "query [{}]: expected {} items, got {}; missing {:?}; unexpected {:?}",
        s.name,
        exp.len(),
        got.len(),
        missing,
        extra
    ))
}
