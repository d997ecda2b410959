#!/usr/bin/env python3
"""Writes wide/src/table.rs: component sets and query shapes of every arity up to 16."""
import random
import os

R = random.Random(16)
NT = 16
CHAINS = [list(range(NT)), [(i * 5 + 3) % NT for i in range(NT)]]
out = ["// Generated by tools/gen_wide.py; do not edit.", "use crate::kit::*;", "use sparsey::query::Query;",
       "use sparsey::Entity;", ""]
out.append("pub const CHAINS: [[usize; %d]; %d] = %s;" % (NT, len(CHAINS), CHAINS))

sets = []


def tup(parts):
    return "()" if not parts else "(" + ", ".join(parts) + ",)"


def add_set(types):
    n = len(sets)
    sets.append(n)
    out.append(f"pub struct S{n};")
    out.append(f"impl SetDef for S{n} {{")
    out.append(f"    type T = {tup(['W%d' % t for t in types])};")
    out.append(f"    const TYPES: &'static [usize] = &{types};")
    args = ", ".join(f"W{t}::make(i[{j}])" for j, t in enumerate(types))
    out.append(f"    fn make(i: &[u32]) -> Self::T {{ ({args},) }}")
    took = ", ".join(f"r.{j}.as_ref().map(|c| c.id())" for j in range(len(types)))
    out.append(f"    fn took(r: {tup(['Option<W%d>' % t for t in types])}) -> Vec<Option<u32>> {{ vec![{took}] }}")
    out.append("}")


for t in range(NT):
    add_set([t])
for n in range(2, NT + 1):
    for c, ch in enumerate(CHAINS):
        s = ch[:n]
        if (n + c) % 2:
            R.shuffle(s)
        add_set(s)
    if n <= 13:
        k = R.randrange(1, NT - n + 1)
        s = CHAINS[n % 2][k:k + n]
        R.shuffle(s)
        add_set(s)

shapes = []


def add_shape(parts, inc=(), exc=()):
    """parts: list of (mode, type); mode in r m o p e."""
    n = len(shapes)
    shapes.append(n)
    ty = {"r": "&'static W%d", "m": "&'static mut W%d", "o": "Option<&'static W%d>", "p": "Option<&'static mut W%d>"}
    g = [ty[m] % t if m != "e" else "Entity" for m, t in parts]
    flt = lambda ts: [("&'static W%d" if R.random() < 0.7 else "&'static mut W%d") % t for t in ts]
    # Filters borrow too: a type may occur only once in the whole query.
    out.append(f"pub struct Q{n};")
    out.append(f"impl Def for Q{n} {{")
    out.append(f"    type G = {tup(g)};\n    type I = {tup(flt(inc))};\n    type E = {tup(flt(exc))};")
    sel = lambda ms: str([t for m, t in parts if m in ms])
    out.append(f"    const REQ: &'static [usize] = &{sel('rm')};\n    const OPT: &'static [usize] = &{sel('op')};")
    out.append(f"    const MUT: &'static [usize] = &{sel('mp')};")
    out.append(f"    const INC: &'static [usize] = &{list(inc)};\n    const EXC: &'static [usize] = &{list(exc)};")
    out.append(f"    const ENT: bool = {str(any(m == 'e' for m, _ in parts)).lower()};")
    out.append(f"    const PARTS: usize = {len(parts)};")
    out.append("    fn row(it: <Self::G as Query>::Item<'_>) -> Row {\n        let mut r = Row::default();")
    for j, (m, t) in enumerate(parts):
        if m == "e":
            out.append(f"        r.e = key(it.{j});")
        elif m in "rm":
            out.append(f"        r.v[{t}] = it.{j}.id();")
        else:
            out.append(f"        r.v[{t}] = it.{j}.as_ref().map_or(NONE, |c| c.id());")
    out.append("        r\n    }")
    out.append("    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {\n        let _ = (&it, &f);")
    for j, (m, t) in enumerate(parts):
        if m == "m":
            out.append(f"        {{ let n = f({t}, it.{j}.id()); it.{j}.set(n); }}")
        elif m == "p":
            out.append(f"        if let Some(c) = it.{j} {{ let n = f({t}, c.id()); c.set(n); }}")
    out.append("    }")
    out.append("    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {")
    lens = [f"s.{j}.len()" for j, (m, _) in enumerate(parts) if m in "rme"]
    out.append(f"        let lens: &[usize] = &[{', '.join(lens)}];")
    out.append("        let n = same_len(lens)?;\n        let mut v = Vec::with_capacity(n);\n        for i in 0..n {\n            let mut r = Row::default();\n            let _ = i;")
    for j, (m, t) in enumerate(parts):
        if m == "e":
            out.append(f"            r.e = key(s.{j}[i]);")
        elif m in "rm":
            out.append(f"            r.v[{t}] = s.{j}[i].id();")
    out.append("            v.push(r);\n        }\n        Ok(v)\n    }\n}")


def mk(types, ent, muts, opts=()):
    parts = []
    for t in types:
        o = t in opts
        m = R.random() < muts
        parts.append(("p" if m else "o") if o else ("m" if m else "r"))
    parts = list(zip(parts, types))
    if ent and len(parts) < NT:
        parts.insert(R.randrange(len(parts) + 1), ("e", -1))
    return parts


for n in range(1, NT + 1):
    for c, ch in enumerate(CHAINS):
        s = ch[:n]
        # Everything requested, sometimes in another order.
        a = s[:]
        if c:
            R.shuffle(a)
        add_shape(mk(a, c == 0, 0.3 if c == 0 else 1.0))
        # Some included instead, possibly the next type excluded.
        if n >= 3:
            a = s[:]
            R.shuffle(a)
            k = R.randrange(1, n)
            exc = [ch[n]] if n < NT and (n + c) % 2 else []
            add_shape(mk(a[:k], c == 1, 0.3), inc=a[k:], exc=exc)
        elif n < NT:
            add_shape(mk(s, True, 0.5), exc=[ch[n]])
        # Requested with optional others.
        if n >= 2:
            a = s[:]
            R.shuffle(a)
            k = R.randrange(1, n)
            add_shape(mk(a, True, 0.3, opts=a[k:]))
    # A window in the middle of a chain, with several exclusions.
    ch = CHAINS[n % 2]
    if n <= 10:
        k = R.randrange(1, NT - n)
        rest = [t for t in ch if t not in ch[k:k + n]]
        R.shuffle(rest)
        add_shape(mk(ch[k:k + n], n % 2 == 0, 0.3), exc=rest[:R.randrange(1, min(len(rest), 7) + 1)])
# One requested, fifteen included; one requested, fifteen excluded; one requested, fourteen optional.
add_shape([("r", 9)], inc=[t for t in range(NT) if t != 9])
add_shape([("e", -1), ("m", 4)], exc=[t for t in CHAINS[1] if t != 4])
add_shape([("e", -1), ("r", 2)] + [("o" if t % 2 else "p", t) for t in CHAINS[1] if t != 2][:14])

out.append("pub fn sets() -> Vec<SetOps> {\n    vec![")
out += [f"        set_ops::<S{n}>()," for n in sets]
out.append("    ]\n}\npub fn shapes() -> Vec<ShapeOps> {\n    vec![")
out += [f"        shape_ops::<Q{n}>()," for n in shapes]
out.append("    ]\n}")
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "wide/src/table.rs")
open(path, "w").write("\n".join(out) + "\n")
print(len(sets), "sets", len(shapes), "shapes")
