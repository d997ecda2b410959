//! Workload generation: operation histories biased towards the states that matter.

use crate::layouts::must_be_dense;
use crate::shapes_list::CHAINS;
use crate::sut::*;
use crate::types::NT;
use vcommon::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Size {
    Tiny,
    Small,
    Medium,
    Large,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub pool: u16,
    pub layout: u32,
    pub unreg: u16,
    pub size: Size,
    pub n_ops: usize,
    pub weights: [u32; NK],
    /// Percent of handle arguments that are not live.
    pub stale: usize,
}

pub fn set(w: &mut [u32; NK], kv: &[(u8, u32)]) {
    for &(k, v) in kv {
        w[k as usize] = v;
    }
}

/// Weights of a general mix of state-changing operations.
pub fn base_weights() -> [u32; NK] {
    let mut w = [0; NK];
    set(
        &mut w,
        &[
            (CREATE, 22),
            (EXTEND, 4),
            (ATOMIC, 2),
            (MAINTAIN, 2),
            (DESTROY, 10),
            (INSERT, 26),
            (REMOVE, 12),
            (DELETE, 8),
            (LAYOUT, 1),
        ],
    );
    w
}

pub fn random_pool(r: &mut Rng) -> u16 {
    let mut p: u16 = 0;
    match r.below(4) {
        0 => {
            for _ in 0..r.range(2, 4) {
                p |= 1 << r.below(NT);
            }
        }
        1 | 2 => {
            // The types of one chain up to some level, plus perhaps one more.
            let ch = CHAINS[r.below(CHAINS.len())];
            for &t in ch[r.below(ch.len())] {
                p |= 1 << t;
            }
            if r.chance(1, 2) {
                p |= 1 << r.below(NT);
            }
        }
        _ => {
            p = (r.next() as u16) & 0xff;
        }
    }
    if p.count_ones() < 2 {
        p |= 3;
    }
    p
}

pub fn random_cfg(r: &mut Rng, weights: [u32; NK], size: Size, groups: bool) -> Cfg {
    let pool = random_pool(r);
    // Only checks that register types on the way start with some of them missing.
    let unreg = if weights[REGISTER as usize] > 0 { r.next() as u16 & pool & (pool - 1) } else { 0 };
    let layout = if groups && r.chance(9, 10) { (r.next() as u32) | 1 } else { 0 };
    let n_ops = match size {
        Size::Tiny => r.range(12, 70),
        Size::Small => r.range(40, 160),
        Size::Medium => r.range(30, 120),
        Size::Large => r.range(20, 40),
    };
    let n_ops = if cfg!(miri) { n_ops.min(40) } else { n_ops };
    Cfg { pool, layout, unreg, size, n_ops, weights, stale: r.range(3, 20) }
}

fn live_target(s: Size) -> usize {
    match s {
        Size::Tiny => 7,
        Size::Small => 40,
        Size::Medium => 600,
        Size::Large => 80_000,
    }
}

fn pick_handle(r: &mut Rng, s: &Sut, stale: usize) -> (u32, u32) {
    if r.below(100) >= stale && !s.m.lives.is_empty() {
        let k = s.m.lives[r.below(s.m.lives.len())];
        return (s.m.ord[&k], 0);
    }
    if r.chance(2, 3) && !s.m.handles.is_empty() {
        return (r.below(s.m.handles.len()) as u32, 0);
    }
    (FORGED + r.below(8) as u32, r.next() as u32 >> 8)
}

fn pick_shape(r: &mut Rng, s: &Sut, dense: bool) -> u32 {
    let n = s.shape_ix.len();
    let mut i = r.below(n);
    if dense {
        for _ in 0..12 {
            let sh = &s.tab.shapes[s.shape_ix[i]];
            if sh.parts > 1 && must_be_dense(&s.m.eff, sh) {
                break;
            }
            i = r.below(n);
        }
    }
    i as u32
}

pub fn gen_op(r: &mut Rng, s: &Sut, c: &Cfg) -> Op {
    let mut w = c.weights;
    let n = s.m.live.len();
    let target = live_target(c.size);
    if n > target {
        w[CREATE as usize] /= 4;
        w[EXTEND as usize] = 0;
        w[DESTROY as usize] *= 3;
    }
    if n > 2000 {
        for k in [CLEAR, RESET, LAYOUT] {
            w[k as usize] = w[k as usize].min(1);
        }
    }
    let k = r.weighted(&w) as u8;
    let mut op = Op { k, a: 0, b: r.next() as u32 >> 4, c: r.next() as u32 >> 8 };
    match k {
        CREATE => {}
        EXTEND => {
            op.a = match c.size {
                Size::Tiny => r.below(4) as u32,
                Size::Small => r.below(14) as u32,
                Size::Medium => r.below(250) as u32,
                Size::Large => 20_000 + r.below(30_000) as u32,
            };
        }
        ATOMIC => {
            op.a = match c.size {
                Size::Tiny => 1 + r.below(3) as u32,
                Size::Small => 1 + r.below(8) as u32,
                Size::Medium => 1 + r.below(60) as u32,
                Size::Large => 1 + r.below(5_000) as u32,
            };
        }
        DESTROY | INSERT | REMOVE | DELETE | MUTPOINT | BOOM => {
            let (a, cc) = pick_handle(r, s, c.stale);
            op.a = a;
            if a >= FORGED {
                op.c = cc;
            }
        }
        POINT | MUTVIEW => {
            let (a, cc) = pick_handle(r, s, c.stale.max(25));
            op.a = a;
            if a >= FORGED {
                op.c = cc;
            }
        }
        LAYOUT => op.a = if r.chance(1, 8) { 0 } else { r.next() as u32 | 1 },
        QUERY => {
            op.a = r.below(64) as u32;
            let d = r.chance(1, 2);
            op.b = pick_shape(r, s, d);
        }
        MUTATE | PAR | MUTPAR => {
            op.a = r.below(640) as u32;
            let d = r.chance(1, 2);
            op.b = pick_shape(r, s, d);
        }
        SLICE | MUTSLICE => {
            let dense = r.chance(5, 6);
            op.b = pick_shape(r, s, dense);
        }
        REGISTER => op.a = r.below(NT) as u32,
        BADUSE => op.a = r.below(12) as u32,
        VIEW | AUDIT => op.a = r.next() as u32 >> 4,
        CHURN => op.a = 1 + r.below(30) as u32,
        _ => {}
    }
    op
}

pub fn show_op(o: &Op) -> String {
    format!("{} {} {} {}", NAMES[o.k as usize], o.a, o.b, o.c)
}

pub fn parse_op(l: &str) -> Option<Op> {
    let p: Vec<&str> = l.split_whitespace().collect();
    let k = NAMES.iter().position(|n| *n == p[0])? as u8;
    Some(Op { k, a: p.get(1)?.parse().ok()?, b: p.get(2)?.parse().ok()?, c: p.get(3)?.parse().ok()? })
}
