#!/usr/bin/env python3
"""Writes light/src/c15_probes.rs: query probes for layout checks."""
import itertools, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = ["//! Generated by tools/gen_probes.py.", "use crate::c15::*;", "", "type E = sparsey::Entity;", ""]
def tup(s):
    return "(" + "".join(f"&G<{i}>, " for i in s).rstrip() + ")" if s else "()"
def line(inc, exc):
    q = "(E, " + " ".join(f"&G<{i}>," for i in inc) + ")" if len(inc) < 16 else tup(inc)
    return f"        p::<{q}, {tup(exc)}>(&{list(inc)}, &{list(exc)}),"
# every include set and every disjoint exclude set over 5 types
o += ["pub fn small() -> Vec<Probe> {", "    vec!["]
for n in range(1, 6):
    for inc in itertools.combinations(range(5), n):
        rest = [i for i in range(5) if i not in inc]
        for m in range(0, len(rest) + 1):
            for exc in itertools.combinations(rest, m):
                o.append(line(inc, exc))
o += ["    ]", "}", ""]
# prefixes of 16 types, with the next 1, 2 or all remaining excluded
o += ["pub fn wide() -> Vec<Probe> {", "    vec!["]
for n in range(1, 17):
    o.append(line(range(n), []))
    for m in sorted({1, 2, 16 - n}):
        if 0 < m and n + m <= 16:
            o.append(line(range(n), range(n, n + m)))
o += ["    ]", "}", ""]
# pairs, quads and octets of 128 types
o += ["pub fn many() -> Vec<Probe> {", "    vec!["]
for k in range(64):
    o.append(line((100 + 2 * k, 101 + 2 * k), []))
for k in range(32):
    b = 100 + 4 * k
    o.append(line(range(b, b + 4), []))
    o.append(line(range(b, b + 2), range(b + 2, b + 4)))
for k in range(16):
    b = 100 + 8 * k
    o.append(line(range(b, b + 8), []))
    o.append(line(range(b, b + 4), range(b + 4, b + 8)))
o += ["    ]", "}", ""]
o += ["pub fn descriptors() -> Vec<(usize, fn(&mut sparsey::component::GroupLayout), fn() -> sparsey::World)> {", "    vec!["]
for n in range(2, 17):
    g = "(" + ", ".join(f"G<{i}>" for i in range(n)) + ")"
    o.append(f"        ({n}, |l| l.add_group::<{g}>(), || sparsey::World::builder().add_group::<{g}>().build()),")
o += ["    ]", "}", ""]
def table(name, ids):
    o.extend([f"pub fn {name}() -> Vec<Comp> {{", "    vec!["])
    for i in ids:
        o.append(f"        comp::<{i}>(),")
    o.extend(["    ]", "}", ""])
table("comps_low", range(0, 20))
table("comps_high", range(100, 228))
open(os.path.join(V, "light/src/c15_probes.rs"), "w").write("\n".join(o))
