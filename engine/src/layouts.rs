//! Group layouts: generation, the acceptance predicate and what a layout makes dense.

use crate::bundles::comp_data;
use crate::shapes::Shape;
use crate::shapes_list::CHAINS;
use sparsey::component::GroupLayout;
use vcommon::Rng;

pub type Groups = Vec<Vec<usize>>;

fn mask(g: &[usize]) -> u32 {
    g.iter().fold(0, |m, t| m | (1 << t))
}

/// Whether a set of groups splits into disjoint families of nested groups (pairwise: disjoint or comparable, and
/// no group contains two disjoint ones).
pub fn acceptable(groups: &[Vec<usize>]) -> bool {
    let ms: Vec<u32> = groups.iter().map(|g| mask(g)).filter(|m| m.count_ones() >= 2).collect();
    for (i, &a) in ms.iter().enumerate() {
        for &b in &ms[i + 1..] {
            let x = a & b;
            if x != 0 && x != a && x != b {
                return false;
            }
            if x == 0 && ms.iter().any(|&c| c & a == a && c & b == b) {
                return false;
            }
        }
    }
    true
}

/// Effective groups (at least two types, without repetitions) as masks.
pub fn effective(groups: &[Vec<usize>]) -> Vec<u32> {
    let mut v: Vec<u32> = groups.iter().map(|g| mask(g)).filter(|m| m.count_ones() >= 2).collect();
    v.sort_unstable();
    v.dedup();
    v
}

pub fn build(groups: &[Vec<usize>]) -> GroupLayout {
    let mut l = GroupLayout::default();
    for g in groups {
        let d: Vec<_> = g.iter().map(|&t| comp_data(t)).collect();
        l.add_group_dyn(&d);
    }
    l
}

/// Which declared groups make a query over (required `req` in `parts` parts, excluded `exc`) dense.
pub fn dense_masks(groups: &[u32], req: u32, parts: usize, exc: u32) -> bool {
    if exc == 0 {
        return parts == 1 || (parts > 1 && groups.contains(&req));
    }
    // req is a group and req+exc is the next larger group of its family.
    req & exc == 0
        && groups.contains(&req)
        && groups.contains(&(req | exc))
        && !groups.iter().any(|&g| g & req == req && g != req && g & (req | exc) == g && g != (req | exc))
}

pub fn must_be_dense(groups: &[u32], s: &Shape) -> bool {
    // An exclude filter made only of parts without a storage leaves the query unfiltered; such shapes are kept out
    // of the table, so an empty mask means no exclude filter.
    dense_masks(groups, u32::from(s.req), s.parts, u32::from(s.exc_mask))
}

/// A random acceptable set of groups over the types of `pool`, as declared (order and repetitions included).
pub fn random_layout(seed: u32, pool: u16) -> Groups {
    if seed == 0 {
        return vec![];
    }
    let mut r = Rng::new(u64::from(seed) ^ 0x1a70);
    let types: Vec<usize> = (0..crate::types::NT).filter(|t| pool >> t & 1 == 1).collect();
    let mut groups: Groups = vec![];
    let tries = r.range(1, 3);
    for _ in 0..tries {
        let cand: Groups = if r.chance(2, 3) {
            // A chain the shapes know, restricted to the pool, with some levels left out.
            let ch = CHAINS[r.below(CHAINS.len())];
            ch.iter()
                .map(|g| g.iter().copied().filter(|t| pool >> t & 1 == 1).collect::<Vec<_>>())
                .filter(|_| r.chance(4, 5))
                .collect()
        } else {
            let mut ts = types.clone();
            r.shuffle(&mut ts);
            let mut v = vec![];
            let mut k = 0;
            for _ in 0..r.range(1, 4) {
                k += r.range(1, 2) + usize::from(k == 0);
                if k <= ts.len() {
                    v.push(ts[..k].to_vec());
                }
            }
            v
        };
        let mut all = groups.clone();
        all.extend(cand);
        if acceptable(&all) {
            groups = all;
        }
    }
    groups.retain(|g| !g.is_empty());
    if r.chance(1, 2) {
        r.shuffle(&mut groups);
    }
    for g in &mut groups {
        r.shuffle(g);
    }
    if !groups.is_empty() && r.chance(1, 8) {
        let g = groups[r.below(groups.len())].clone();
        groups.push(g);
    }
    groups
}

pub fn show(groups: &[Vec<usize>]) -> String {
    let v: Vec<String> = groups
        .iter()
        .map(|g| format!("({})", g.iter().map(|t| format!("T{t}")).collect::<Vec<_>>().join(",")))
        .collect();
    format!("[{}]", v.join(" "))
}
