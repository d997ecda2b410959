#!/usr/bin/env python3
"""Regenerates engine/src/shapes_list.rs and bundles_list.rs (committed output; run by hand)."""
import os, random
R = random.Random(20240607)
# Chains of nested component sets; layouts are drawn from these (and at random), so that each shape can be
# grouped at some level, filtered, or only partly covered by a group.
CHAINS = [
    [[0, 1], [0, 1, 2], [0, 1, 2, 3, 4]],
    [[3, 5], [3, 5, 6, 7]],
    [[1, 7, 2], [1, 7, 2, 4]],
    [[6, 2], [6, 2, 0], [6, 2, 0, 5]],
    [[4, 1], [4, 1, 3], [4, 1, 3, 0], [4, 1, 3, 0, 7, 5]],
]
def r(t): return f"&T{t}"
def m(t): return f"&mut T{t}"
def o(t): return f"Option<&T{t}>"
def om(t): return f"Option<&mut T{t}>"
def tup(xs):
    xs = list(xs)
    return "()" if not xs else "(" + ", ".join(xs) + ",)"
S = []
def add(g, i="()", e="()"):
    s = (g, i, e)
    if s not in S: S.append(s)
for t in range(8): add(r(t))
for t in range(8): add(m(t))
add("(&T1,)"); add("(&mut T3,)")
for t in (0, 2, 4, 5): add(tup(["Entity", r(t)]))
add(tup([m(6), "Entity"]))
add("Entity", r(1)); add("(Entity,)", r(3)); add("()", r(0)); add("Entity", tup([r(0), r(1)])); add("()", tup([m(3), r(5)]))
for ch in CHAINS:
    for lv, g in enumerate(ch):
        sh = list(g); R.shuffle(sh)
        add(tup(["Entity"] + [r(t) for t in sh]))
        sh = list(g); R.shuffle(sh)
        add(tup([m(t) if R.random() < .6 else r(t) for t in sh]))
        if len(g) > 2 or True:
            k = max(1, len(g) // 2); sh = list(g); R.shuffle(sh)
            add(tup(["Entity"] + [r(t) for t in sh[:k]]), tup([r(t) for t in sh[k:]]))
        if lv + 1 < len(ch):
            nx = [t for t in ch[lv + 1] if t not in g]
            sh = list(g); R.shuffle(sh)
            add(tup(["Entity"] + [r(t) for t in sh]), "()", tup([r(t) for t in nx]))
            sh = list(g); R.shuffle(sh)
            add(tup([m(t) for t in sh] + ["Entity"]), "()", tup([m(t) if R.random() < .3 else r(t) for t in nx]))
            k = 1
            add(tup([R.choice([r, m])(t) for t in sh[:k]] + ["Entity"]), tup([r(t) for t in sh[k:]]), tup([r(t) for t in nx]))
            if len(nx) > 1: add(tup(["Entity"] + [r(t) for t in sh]), "()", r(nx[0]))
        if len(g) >= 3:
            sh = list(g); R.shuffle(sh)
            add(tup(["Entity"] + [r(t) for t in sh[:2]]))
            add(tup([r(sh[0]), "Entity"]), "()", r(sh[1]))
# options
add(tup([o(1), r(0), "Entity"])); add(tup(["Entity", r(3), om(5)])); add(tup([r(0), om(2), r(1)]))
add(tup([om(0), "Entity", m(1), o(4)]), r(0 if False else 3)); add(tup([r(6), o(6)])); add(tup(["Entity", o(7)]), r(2))
add(tup(["Entity", r(0), r(1), o(2)]), "()", r(2)); add(tup([o(3), o(5), "Entity"]), tup([r(6)])); add(tup([om(4), r(4 if False else 7)]), tup([r(1), o(0)]))
add(o(1), r(0)); add(om(5), r(3), r(6)); add(tup(["Entity", m(0), om(3), o(7), r(2)]))
# duplicates, unrelated pairs, self-excluding, includes that repeat
add(tup([r(0), r(0)])); add(tup(["Entity", r(1), r(1), r(0)])); add(tup(["Entity", r(0)]), r(0)); add(tup(["Entity", r(5)]), "()", r(5)); add(tup([r(0), r(1)]), r(1), r(2))
for a, b in [(0, 7), (2, 5), (6, 1), (3, 4), (5, 0)]:
    add(tup(["Entity", r(a), m(b)])); add(tup(["Entity", r(a)]), "()", r(b)); add(tup([m(b)]), r(a))
for _ in range(18):
    ts = list(range(8)); R.shuffle(ts)
    n = R.choice([1, 1, 2, 2, 3, 4]); ni = R.choice([0, 0, 1, 2]); ne = R.choice([0, 1, 1, 2, 3])
    gp = [R.choice([r, r, m, m, o, om])(t) for t in ts[:n]]
    if all("Option" in x for x in gp) and ni == 0: gp[0] = r(ts[0])
    if R.random() < .5 and len(gp) < 7: gp.insert(R.randrange(len(gp) + 1), "Entity")
    add(tup(gp), tup([r(t) for t in ts[n:n + ni]]), tup([r(t) for t in ts[n + ni:n + ni + ne]]))
POINT_ONLY = [  # without required parts: only good for point queries
    (o(0), "()", "()"), (om(3), "()", "()"), (tup([om(1), o(5)]), "()", "()"), (tup(["Entity", om(6)]), "()", "()"),
    (om(2), "()", r(4)), (o(4), "()", tup([r(7), r(1)])), ("Entity", "()", "()"), ("()", "()", r(5)), ("()", "()", "()"),
    (tup([om(7), "Entity", o(0)]), "()", r(2)), (tup([o(t) for t in range(4)]), "Entity", "()"), (om(5), "(Entity,)", tup([r(0)]))]
add(tup(["Entity"] + [r(t) for t in range(7)])); add(tup([m(t) for t in range(8)])); add(tup(["Entity"]), tup([r(t) for t in range(8)]))
for s in POINT_ONLY: add(*s)
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "../engine/src/shapes_list.rs"), "w") as f:
    f.write("// Generated by tools/gen_shapes.py.\nuse crate::shapes::*;\nuse crate::types::*;\nuse sparsey::Entity;\n\n")
    f.write("pub const CHAINS: &[&[&[usize]]] = &[\n" + "".join("    &[" + ", ".join("&" + str(g) for g in ch) + "],\n" for ch in CHAINS) + "];\n\n")
    f.write("shapes! {\n" + "".join(f"    {g} | {i} | {e};\n" for g, i, e in S) + "}\n")
# The parallel build monomorphises far more code per shape, so it gets a subset: every kind of shape over the first
# two chains, plus every seventh of the rest.
def small(k, sh):
    x = " ".join(sh)
    n = sum(f"T{t}" in x for t in range(8))
    if k < 8 or k in (8, 11): return True
    if sh in POINT_ONLY: return sh in POINT_ONLY[:4]
    return (k >= 16 and k % 5 == 1) or sh in KEEP
KEEP = [s for s in S if set(c for c in "0123" if "T" + c in " ".join(s)) >= {"0", "1"} and not any("T" + c in " ".join(s) for c in "567")][:12]
P = [s for k, s in enumerate(S) if small(k, s)]
with open(os.path.join(here, "../engine/src/shapes_par.rs"), "w") as f:
    f.write("// Generated by tools/gen_shapes.py.\nuse crate::shapes::*;\nuse crate::types::*;\nuse sparsey::Entity;\n\n")
    f.write("pub const CHAINS: &[&[&[usize]]] = &[\n" + "".join("    &[" + ", ".join("&" + str(g) for g in ch) + "],\n" for ch in CHAINS) + "];\n\n")
    f.write("shapes! {\n" + "".join(f"    {g} | {i} | {e};\n" for g, i, e in P) + "}\n")
print(len(P), "parallel shapes")
B = [[]] + [[t] for t in range(8)]
def badd(x):
    if x not in B: B.append(x)
for ch in CHAINS:
    for g in ch:
        sh = list(g); R.shuffle(sh); badd(sh)
for a, b in [(0, 7), (2, 5), (3, 4), (5, 0), (2, 1), (6, 3), (7, 4)]: badd([a, b])
for x in [[0, 1, 7], [5, 3, 1], [2, 6, 4], [7, 5, 6, 3], [0, 2], [1, 3, 5, 7], [0, 2, 4, 6]]: badd(x)
badd(list(range(8))); badd([1, 1]); badd([0, 3, 0]); badd([7, 6, 5, 4, 3, 2, 1, 0])
with open(os.path.join(here, "../engine/src/bundles_list.rs"), "w") as f:
    f.write("// Generated by tools/gen_shapes.py.\nuse crate::bundles::*;\nuse crate::types::*;\n\nbundles! {\n" + "".join("    (" + "".join(f"T{t}, " for t in b) + ");\n" for b in B) + "}\n")
print(len(S), "shapes", len(B), "bundles")
