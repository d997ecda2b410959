//! C23: hundreds of component types registered in one world at random times.

use crate::hist::Found;
use sparsey::component::{ComponentData, GroupLayout};
use sparsey::{Entity, World};
use vcommon::{guard, mix, Env, HashMap, Rng, Stats, Viol};

/// The type number is part of the value.
pub struct N<const I: usize>(u32, u32);

#[derive(Clone, Copy)]
struct Ops {
    data: fn() -> ComponentData,
    register: fn(&mut World) -> bool,
    registered: fn(&World) -> bool,
    insert: fn(&mut World, Entity, u32) -> bool,
    remove: fn(&mut World, Entity) -> Option<u32>,
    get: fn(&World, Entity) -> Option<u32>,
    all: fn(&World) -> Vec<u32>,
}

trait Num: Send + Sync + 'static {
    fn mk(v: u32) -> Self;
    /// The value of a component, or a number no value has if it belongs to another type.
    fn val(&self) -> u32;
}

impl<const I: usize> Num for N<I> {
    fn mk(v: u32) -> Self {
        Self(v, I as u32)
    }
    fn val(&self) -> u32 {
        if self.1 == I as u32 {
            self.0
        } else {
            u32::MAX
        }
    }
}

const fn ops<T: Num>() -> Ops {
    Ops {
        data: ComponentData::new::<T>,
        register: |w| w.register::<T>(),
        registered: |w| w.is_registered::<T>(),
        insert: |w, e, v| w.insert(e, (T::mk(v),)),
        remove: |w, e| w.remove::<(T,)>(e).0.map(|n| n.val()),
        get: |w, e| w.borrow::<T>().get(e).map(T::val),
        all: |w| w.borrow::<T>().as_slice().iter().map(T::val).collect(),
    }
}

/// A type that shares its name with the other types made here.
macro_rules! namesake {
    ($i:expr) => {{
        struct Same(u32, u32);
        impl Num for Same {
            fn mk(v: u32) -> Self {
                Self(v, $i)
            }
            fn val(&self) -> u32 {
                if self.1 == $i {
                    self.0
                } else {
                    u32::MAX
                }
            }
        }
        ops::<Same>()
    }};
}

macro_rules! table {
    ($($h:literal)*) => {
        &[$(
            ops::<N<{ $h * 10 }>>(), ops::<N<{ $h * 10 + 1 }>>(), ops::<N<{ $h * 10 + 2 }>>(), ops::<N<{ $h * 10 + 3 }>>(),
            ops::<N<{ $h * 10 + 4 }>>(), ops::<N<{ $h * 10 + 5 }>>(), ops::<N<{ $h * 10 + 6 }>>(), ops::<N<{ $h * 10 + 7 }>>(),
            ops::<N<{ $h * 10 + 8 }>>(), namesake!($h * 10 + 9),
        )*]
    };
}

static TYPES: &[Ops] = table!(
    0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31
);

fn layout(gs: &[Vec<usize>]) -> GroupLayout {
    let mut l = GroupLayout::default();
    for g in gs {
        let d: Vec<_> = g.iter().map(|&t| (TYPES[t].data)()).collect();
        l.add_group_dyn(&d);
    }
    l
}

/// Up to 40 disjoint groups of 2 to 4 types, some nested in larger ones.
fn random_groups(r: &mut Rng, limit: usize) -> Vec<Vec<usize>> {
    let mut ts: Vec<usize> = (0..limit).collect();
    r.shuffle(&mut ts);
    let mut gs = vec![];
    for _ in 0..r.range(0, 40) {
        let n = r.range(2, 4);
        if ts.len() < n {
            break;
        }
        let g = ts.split_off(ts.len() - n);
        if n > 2 && gs.len() < 50 && r.chance(1, 4) {
            gs.push(g[..2].to_vec());
        }
        gs.push(g);
    }
    r.shuffle(&mut gs);
    gs
}

struct S {
    w: World,
    reg: Vec<bool>,
    vals: Vec<HashMap<Entity, u32>>,
    live: Vec<Entity>,
    next: u32,
    groups: usize,
}

fn v<T>(oracle: &'static str, msg: String) -> Result<T, Viol> {
    Err(Viol { oracle, msg })
}

impl S {
    fn count(&self) -> usize {
        self.reg.iter().filter(|&&b| b).count()
    }
    fn audit(&self, r: &mut Rng, st: &mut Stats) -> Result<(), Viol> {
        let n = self.count();
        for (t, o) in TYPES.iter().enumerate() {
            let reg = (o.registered)(&self.w);
            if reg != self.reg[t] {
                return v("is-registered", format!("type {t} registered: {reg}, expected {}; {n} types in all", self.reg[t]));
            }
            if !reg {
                continue;
            }
            let mut got = (o.all)(&self.w);
            got.sort_unstable();
            let mut want: Vec<u32> = self.vals[t].values().copied().collect();
            want.sort_unstable();
            if got != want {
                return v("other-type-disturbed", format!("type {t} of {n} holds {got:?}, expected {want:?}"));
            }
            if let Some(&e) = self.live.get(r.below(self.live.len().max(1))) {
                let g = (o.get)(&self.w, e);
                if g != self.vals[t].get(&e).copied() {
                    return v("other-type-disturbed", format!("type {t} of {n} on {e:?}: {g:?}, expected {:?}", self.vals[t].get(&e)));
                }
            }
            st.add("types_compared", 1);
        }
        Ok(())
    }
    fn register(&mut self, t: usize, how: usize) -> Result<(), Viol> {
        let new = match how {
            0 => self.w.register_dyn((TYPES[t].data)()),
            _ => (TYPES[t].register)(&mut self.w),
        };
        if new == self.reg[t] {
            return v("register-result", format!("registering type {t} returned {new}; {} types are registered", self.count()));
        }
        self.reg[t] = true;
        Ok(())
    }
}

fn one(r: &mut Rng, st: &mut Stats) -> Result<(), Viol> {
    // Most worlds pass every power of two on the way; some stay small.
    let limit = match r.below(4) {
        0 => r.range(2, 70),
        1 => r.range(60, 140),
        _ => TYPES.len(),
    };
    let mut order: Vec<usize> = (0..limit).collect();
    r.shuffle(&mut order);
    let mut s = S {
        w: World::default(),
        reg: vec![false; TYPES.len()],
        vals: vec![HashMap::default(); TYPES.len()],
        live: vec![],
        next: 1,
        groups: 0,
    };
    while let Some(t) = order.pop() {
        s.register(t, r.below(2))?;
        let n = s.count();
        st.max("most_types", n as u64);
        st.eval(Some(mix(n as u64, mix(s.live.len() as u64, s.groups as u64))));
        // A value of the new type, and again of an earlier one.
        for _ in 0..r.range(0, 3) {
            if s.live.len() < 3 || (s.live.len() < 20 && r.chance(1, 6)) {
                let e = s.w.create(());
                s.live.push(e);
            }
            let e = *r.pick(&s.live);
            let t = if r.chance(1, 2) { t } else { (0..limit).filter(|&t| s.reg[t]).nth(r.below(n)).unwrap() };
            let x = s.next;
            s.next += 1;
            if r.chance(1, 5) {
                let got = (TYPES[t].remove)(&mut s.w, e);
                let want = s.vals[t].remove(&e);
                if got != want {
                    return v("other-type-disturbed", format!("removing type {t} of {n} from {e:?} gave {got:?}, expected {want:?}"));
                }
            } else {
                if !(TYPES[t].insert)(&mut s.w, e, x) {
                    return v("insert-result", format!("inserting type {t} of {n} into {e:?} failed"));
                }
                s.vals[t].insert(e, x);
            }
        }
        if r.chance(1, 10) {
            s.register(t, 0).or_else(|_| Ok(()))?;
            let again = (TYPES[t].register)(&mut s.w);
            if again {
                return v("register-result", format!("registering type {t} again returned true"));
            }
        }
        if r.chance(1, 12) {
            // Using a type that is not registered is refused.
            if let Some(u) = (0..TYPES.len()).filter(|&t| !s.reg[t]).nth(r.below(TYPES.len() - n + 1)) {
                if let Some(&e) = s.live.first() {
                    if guard(|| (TYPES[u].insert)(&mut s.w, e, 9)).is_ok() {
                        return v("unregistered-accepted", format!("type {u} was used before it was registered ({n} are)"));
                    }
                    if guard(|| (TYPES[u].get)(&s.w, e)).is_ok() {
                        return v("unregistered-accepted", format!("type {u} was borrowed before it was registered ({n} are)"));
                    }
                    st.add("refusals", 1);
                }
            }
        }
        if r.chance(1, 30) {
            let gs = random_groups(r, limit);
            let l = layout(&gs);
            s.w.set_layout(&l);
            s.groups = gs.len();
            st.add("set_layouts", 1);
            for t in gs.into_iter().flatten() {
                s.reg[t] = true;
            }
            order.retain(|&t| !s.reg[t]);
            s.audit(r, st)?;
        }
        if r.chance(1, 25) && !s.live.is_empty() {
            let e = s.live.swap_remove(r.below(s.live.len()));
            if !s.w.destroy(e) {
                return v("destroy-result", format!("destroying {e:?} failed"));
            }
            for m in &mut s.vals {
                m.remove(&e);
            }
        }
        if r.chance(1, 120) {
            if r.chance(1, 2) {
                s.w.clear();
            } else {
                s.w.reset();
            }
            s.live.clear();
            s.vals.iter_mut().for_each(HashMap::clear);
        }
        if n.is_power_of_two() || (n - 1).is_power_of_two() || r.chance(1, 20) {
            s.audit(r, st)?;
        }
    }
    s.audit(r, st)
}

pub fn run(env: &Env, st: &mut Stats) -> Result<(), Found> {
    for case in 0..env.cases(1_000_000) {
        if env.out_of_time() {
            break;
        }
        let seed = mix(mix(env.seed, 0x3a9f), case * env.shards + env.shard);
        env.note_case(&format!("seed {seed:#x}"));
        let mut r = Rng::new(seed);
        let res = match guard(|| one(&mut r, st)) {
            Ok(x) => x,
            Err(p) if p.in_harness() => {
                eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
                std::process::exit(3);
            }
            Err(p) => v("unexpected-panic", format!("the library panicked at {}: {}", p.loc, p.msg)),
        };
        st.add("worlds", 1);
        if let Err(v) = res {
            return Err(Found { v, case: format!("many types, seed {seed:#x}"), replay: format!("wide C23, seed {seed:#x}") });
        }
    }
    Ok(())
}
