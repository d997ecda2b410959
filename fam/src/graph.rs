//! Every state that a small world can reach, and every operation in each of them.
//!
//! A state is what can be observed of one family: the order of the rows of every type relative to the order of
//! the entities, the layout, how many indices are free, and whether the world was cleared. Values, versions
//! and the names of entities are left out. Each state is rebuilt along the shortest history that reaches it, one
//! operation is applied, and the result is judged by the reference model.

use crate::hist::{layout_of, Found, Groups, Op, KINDS, R, S};
use crate::kit::*;
use sparsey::{Entity, World};
use vcommon::{guard, mix, Env, HashMap, HashSet, Stats, Viol};

/// An operation in terms of what can be said about a state.
#[derive(Clone, Copy, Debug)]
enum G {
    Create(u8),
    /// Two entities at once.
    Extend(u8),
    Insert(u32, u8),
    Remove(u32, u8),
    Delete(u32, u8),
    Destroy(u32),
    /// On the handle that died last: 0 insert, 1 remove, 2 delete, 3 destroy.
    Stale(u8),
    Rewrite(u8),
    Layout(u8),
    Clear,
}

/// The bounds of one exploration.
struct Cfg {
    live: usize,
    types: usize,
    kinds: &'static [u8],
    /// Whether worlds that were cleared count as other states.
    cleared: bool,
}
const QUICK: &[Cfg] = &[
    Cfg { live: 2, types: 4, kinds: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], cleared: true },
    Cfg { live: 3, types: 3, kinds: &[0, 1, 2, 4], cleared: false },
    Cfg { live: 4, types: 2, kinds: &[0, 1], cleared: false },
];
const THOROUGH: &[Cfg] = &[
    Cfg { live: 3, types: 4, kinds: &[7, 3], cleared: false },
    Cfg { live: 3, types: 4, kinds: &[9, 5], cleared: false },
    Cfg { live: 5, types: 2, kinds: &[0, 1], cleared: false },
    Cfg { live: 4, types: 3, kinds: &[4, 2], cleared: false },
    Cfg { live: 3, types: 4, kinds: &[4, 8], cleared: false },
    Cfg { live: 3, types: 4, kinds: &[6, 10], cleared: false },
];

struct Node {
    parent: u32,
    op: G,
    depth: u32,
}

fn start<'a>(check: &'a str, kind: u8) -> S<'a> {
    ledger_reset();
    let gs = groups(kind);
    let mut w = World::new(&layout_of(&gs));
    let mut twin = (check == "C06").then(World::default);
    for w in std::iter::once(&mut w).chain(&mut twin) {
        for d in FAMS[0].data {
            w.register_dyn(d());
        }
    }
    let mut s = S { check, w, twin, live: vec![], gone: vec![], m: HashMap::default(), groups: vec![], count: 0, log: vec![] };
    s.set_groups(&gs);
    s
}
fn groups(kind: u8) -> Groups {
    KINDS[kind as usize].iter().map(|g| (0, g.to_vec())).collect()
}

fn apply(s: &mut S, g: G, st: &mut Stats) -> R {
    let at = |i: u32| s.live.iter().copied().find(|e| e.index == i).unwrap_or(Entity::with_index(u32::MAX));
    let op = match g {
        G::Create(x) => Op::Create(0, x.into()),
        G::Extend(x) => Op::Extend(0, x.into(), 2),
        G::Insert(i, x) => Op::Insert(at(i), 0, x.into()),
        G::Remove(i, x) => Op::Remove(at(i), 0, x.into()),
        G::Delete(i, x) => Op::Delete(at(i), 0, x.into()),
        G::Destroy(i) => Op::Destroy(at(i)),
        G::Stale(k) => {
            let e = *s.gone.last().unwrap();
            match k {
                0 => Op::Insert(e, 0, 9),
                1 => Op::Remove(e, 0, 9),
                2 => Op::Delete(e, 0, 9),
                _ => Op::Destroy(e),
            }
        }
        G::Rewrite(q) => Op::Rewrite(0, q.into()),
        G::Layout(k) => {
            s.log.push(format!("set_layout {:?}", KINDS[k as usize]));
            let gs = groups(k);
            s.w.set_layout(&layout_of(&gs));
            s.set_groups(&gs);
            return if s.check == "C09" { s.ledger() } else { Ok(()) };
        }
        G::Clear => {
            s.log.push("clear".into());
            for w in std::iter::once(&mut s.w).chain(&mut s.twin) {
                w.clear();
            }
            s.gone.append(&mut s.live);
            s.m.clear();
            return if s.check == "C09" { s.ledger() } else { Ok(()) };
        }
    };
    s.apply(op, st)
}

fn ops(c: &Cfg, live: &[u32], stale: bool) -> Vec<G> {
    let sets: Vec<u8> = (0..SETS.len() as u8).filter(|&s| SETS[s as usize].iter().all(|&k| k < c.types)).collect();
    let mut v = vec![G::Clear];
    for &s in &sets {
        if live.len() < c.live {
            v.push(G::Create(s));
        }
        if live.len() + 2 <= c.live {
            v.push(G::Extend(s));
        }
        for &i in live {
            v.extend([G::Insert(i, s), G::Remove(i, s), G::Delete(i, s)]);
        }
    }
    v.extend(live.iter().map(|&i| G::Destroy(i)));
    if stale {
        v.extend((0..4).map(G::Stale));
    }
    v.extend([2, 5, 6].map(G::Rewrite));
    v.extend(c.kinds.iter().map(|&k| G::Layout(k)));
    v
}

/// What can be observed of the state, and how many indices are free. Entities count by their place in
/// the world; indices in `lost` were live in a cleared world and are not given out again.
fn observe(s: &S, kind: u8, lost: &[u32], cleared: bool) -> u64 {
    let mut free: Vec<u32> = vec![];
    for e in s.gone.iter().rev() {
        if !free.contains(&e.index) && !lost.contains(&e.index) && !s.live.iter().any(|l| l.index == e.index) {
            free.push(e.index);
        }
    }
    let known: Vec<u32> = s.w.entities().iter().map(|e| e.index).chain(free.iter().copied()).collect();
    let rank = |i: u32| known.iter().position(|&k| k == i).map_or(u64::MAX - u64::from(i), |r| r as u64);
    let mut h = mix(s.live.len() as u64, u64::from(kind) * 2 + u64::from(cleared && !lost.is_empty()));
    for col in (FAMS[0].whole)(&s.w) {
        h = mix(h, u64::MAX);
        for (e, _) in col {
            h = mix(h, rank(e as u32));
        }
    }
    mix(h, free.len() as u64)
}

fn path(nodes: &[Node], mut n: u32) -> Vec<G> {
    let mut v = Vec::with_capacity(nodes[n as usize].depth as usize);
    while n != 0 {
        v.push(nodes[n as usize].op);
        n = nodes[n as usize].parent;
    }
    v.reverse();
    v
}

/// One operation after a history; the state reached.
fn visit(check: &str, c: &Cfg, hist: &[G], op: Option<G>, log: &mut Vec<String>, st: &mut Stats) -> R<(u64, u8, Vec<u32>, bool)> {
    let mut kind = c.kinds[0];
    let mut s = start(check, kind);
    let mut lost = vec![];
    let r = (|| {
        let mut unused = Stats::default();
        for &g in hist {
            if let G::Clear = g {
                lost.extend(s.live.iter().map(|e| e.index));
            }
            apply(&mut s, g, &mut unused)?;
            if let G::Layout(k) = g {
                kind = k;
            }
        }
        if let Some(g) = op {
            if let G::Clear = g {
                lost.extend(s.live.iter().map(|e| e.index));
            }
            apply(&mut s, g, st)?;
            if let G::Layout(k) = g {
                kind = k;
            }
            let relaid = matches!(g, G::Layout(_));
            if check != "C09" && (check != "C21" || relaid) {
                s.queries(0, relaid, st)?;
                s.components(0, relaid, st)?;
            }
        }
        let key = observe(&s, kind, &lost, c.cleared);
        if check == "C09" || check == "C03" {
            st.eval(Some(key));
        }
        let mut live: Vec<u32> = s.live.iter().map(|e| e.index).collect();
        live.sort_unstable();
        Ok((key, kind, live, !s.gone.is_empty()))
    })();
    if r.is_err() {
        *log = std::mem::take(&mut s.log);
    }
    let S { w, twin, .. } = s;
    drop(w);
    drop(twin);
    if r.is_ok() && check == "C09" && (alive() != 0 || fault().is_some()) {
        return Err(Viol { oracle: "drop-ledger", msg: format!("{} values outlive the world; {:?}", alive(), fault()) });
    }
    r
}

pub fn run(env: &Env, check: &str, st: &mut Stats) -> Result<(), Found> {
    let all: Vec<&Cfg> = if env.thorough { QUICK.iter().chain(THOROUGH).collect() } else { QUICK.iter().collect() };
    for c in all.iter().enumerate().filter(|x| x.0 as u64 % env.shards == env.shard).map(|x| x.1) {
        explore(env, check, c, st)?;
    }
    Ok(())
}

fn explore(env: &Env, check: &str, c: &Cfg, st: &mut Stats) -> Result<(), Found> {
    let first = c.kinds[0];
    let mut nodes = vec![Node { parent: 0, op: G::Clear, depth: 0 }];
    let mut seen: HashSet<u64> = HashSet::default();
    let mut next = 0;
    let mut log = vec![];
    while next < nodes.len() {
        if env.out_of_time() {
            st.add("graphs_cut_short", 1);
            st.add("states", nodes.len() as u64);
            return Ok(());
        }
        let hist = path(&nodes, next as u32);
        env.note_case(&format!("{} entities, {} types, after {hist:?}", c.live, c.types));
        let mut todo = vec![];
        for at in 0.. {
            let op = if at == 0 { None } else { todo.get(at - 1).copied() };
            if at > 0 && op.is_none() {
                break;
            }
            let res = match guard(|| visit(check, c, &hist, op, &mut log, st)) {
                Ok(x) => x,
                Err(p) if p.in_harness() => {
                    eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
                    std::process::exit(3);
                }
                Err(p) => Err(Viol { oracle: "unexpected-panic", msg: format!("the library panicked at {}: {}", p.loc, p.msg) }),
            };
            let (key, _, live, stale) = res.map_err(|v| Found {
                v,
                case: format!("small world, layout {:?}, {} operations", KINDS[first as usize], hist.len() + 1),
                replay: format!("fam {check}, VH_PART=graph; layout {:?}; {hist:?}, then {op:?}\n{}", KINDS[first as usize], log.join("\n")),
            })?;
            match op {
                None => {
                    if next == 0 {
                        seen.insert(key);
                    }
                    todo = ops(c, &live, stale);
                }
                Some(op) => {
                    st.add("transitions", 1);
                    if seen.insert(key) {
                        let depth = nodes[next].depth + 1;
                        st.max("longest_history", depth.into());
                        nodes.push(Node { parent: next as u32, op, depth });
                    }
                }
            }
        }
        next += 1;
    }
    st.add("graphs_complete", 1);
    st.add("states", nodes.len() as u64);
    Ok(())
}
