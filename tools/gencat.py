#!/usr/bin/env python3
"""Writes harness/src/cat.rs: the catalogue of queries and component sets."""
import itertools, random, os
R = random.Random(20240613)
N = "ABCZSE"          # component 0..5
def ref(c): return "&'static " + N[c]
def mut(c): return "&'static mut " + N[c]
def oref(c): return f"Option<{ref(c)}>"
def omut(c): return f"Option<{mut(c)}>"
def req(c, p=0.4): return mut(c) if R.random() < p else ref(c)
def opt(c): return omut(c) if R.random() < 0.5 else oref(c)
def tup(ps):
    ps = list(ps)
    return "(" + "".join(p + ", " for p in ps).rstrip() + ")" if ps else "()"
out = []
seen = set()
def add(get, inc=None, exc=None):
    """get/inc/exc: type strings"""
    key = (get, inc or "()", exc or "()")
    if key in seen: return
    seen.add(key); out.append(key)
ENT = "Entity"
add(ENT)
for c in range(6): add(ref(c)); add(mut(c))
add(oref(0)); add(omut(4)); add(tup([ENT])); add(tup([ENT, oref(2)])); add(tup([oref(1), omut(3)]))
for c in range(6): add(tup([ENT, ref(c)])); add(tup([ENT, mut(c)]))
def shuffled(s):
    s = list(s); R.shuffle(s); return s
for n, keep in ((2, 15), (3, 20), (4, 9), (5, 4), (6, 2)):
    for s in R.sample(list(itertools.combinations(range(6), n)), min(keep, len(list(itertools.combinations(range(6), n))))):
        ps = [req(c) for c in shuffled(s)]
        pos = R.randrange(0, n + 1)
        add(tup(ps[:pos] + [ENT] + ps[pos:]))
for s in R.sample(list(itertools.combinations(range(6), 2)), 5):
    add(tup([req(c) for c in shuffled(s)]))          # without the entity
# optional parts
for _ in range(16):
    s = shuffled(range(6)); n = R.choice((1, 1, 2)); k = R.choice((1, 1, 2))
    ps = shuffled([req(c) for c in s[:n]] + [opt(c) for c in s[n:n + k]])
    add(tup([ENT] + ps))
# include
for _ in range(14):
    s = shuffled(range(6)); n = R.choice((1, 1, 2)); k = R.choice((1, 1, 2))
    inc = [ref(c) for c in s[n:n + k]]
    add(tup([ENT] + [req(c) for c in s[:n]]), inc[0] if k == 1 and R.random() < .5 else tup(inc))
for _ in range(8):
    s = shuffled(range(6)); k = R.choice((1, 2, 2, 3))
    inc = [ref(c) for c in s[:k]]
    add(tup([ENT]) if R.random() < .5 else ENT, tup(inc))
for _ in range(3):
    s = shuffled(range(6)); add(tup([ENT, opt(s[0])]), tup([ref(s[1]), ref(s[2])]))
add("()", ref(0)); add("()", tup([ref(1), ref(2)]))
# exclude
for c in range(6):
    d = R.choice([x for x in range(6) if x != c])
    add(tup([ENT, req(c)]), None, ref(d))
for _ in range(5):
    s = shuffled(range(6)); add(tup([ENT, req(s[0])]), None, tup([ref(s[1]), ref(s[2])]))
for a, b in itertools.combinations(range(6), 2):
    rest = shuffled([x for x in range(6) if x not in (a, b)])
    for c in rest[:2]:
        add(tup([ENT] + [req(x) for x in shuffled((a, b))]), None, ref(c) if R.random() < .5 else tup([ref(c)]))
for _ in range(12):
    s = shuffled(range(6)); add(tup([ENT] + [req(x) for x in s[:2]]), None, tup([ref(x) for x in s[2:4]]))
for _ in range(6):
    s = shuffled(range(6)); add(tup([ENT] + [req(x) for x in s[:3]]), None, tup([ref(x) for x in s[3:R.choice((4, 5, 6))]]))
for _ in range(5):
    s = shuffled(range(6)); add(tup([ENT, opt(s[3])] + [req(x) for x in s[:2]]), None, tup([ref(s[2])]))
# include and exclude
for _ in range(22):
    s = shuffled(range(6)); n = R.choice((0, 1, 1, 1, 2)); k = R.choice((1, 1, 2)); e = R.choice((1, 1, 1, 2))
    add(tup([ENT] + [req(c) for c in s[:n]]), tup([ref(c) for c in s[n:n + k]]), tup([ref(c) for c in s[n + k:n + k + e]]))
# filters that match everything
add(tup([ENT, ref(0)]), None, oref(1)); add(tup([ENT, ref(1), ref(2)]), None, oref(3)); add(tup([ENT, ref(4)]), None, ENT)
add(tup([ENT, ref(0), ref(1)]), None, tup([ref(2), oref(3)])); add(tup([ENT, ref(2)]), oref(3), None); add(tup([ENT, ref(5)]), ENT, ref(0))
add(tup([ENT, ref(0)]), tup([oref(1), ref(2)]), ref(3)); add(ENT, oref(0)); add(ENT, None, ref(0)); add(tup([ENT, oref(0)]), None, tup([ref(1), ref(4)]))
# repeated components
add(tup([ENT, ref(0), ref(0)])); add(tup([ENT, ref(1)]), ref(1)); add(tup([ENT, ref(0), ref(1)]), tup([ref(1)])); add(tup([ENT, ref(2)]), None, ref(2))
add(tup([ENT, ref(0), oref(0)])); add(tup([ENT, ref(0), ref(1)]), None, tup([ref(1)])); add(tup([ENT, ref(4)]), None, tup([ref(5), ref(5)]))
add(tup([ENT, ref(0), ref(2), ref(0)])); add(tup([ENT, ref(1), ref(3)]), None, tup([ref(4), ref(4)]))
# conflicts with itself
for c in (0, 1, 3): add(tup([ref(c), mut(c)]))
add(tup([mut(2), mut(2)])); add(tup([ENT, mut(4)]), ref(4)); add(tup([ENT, mut(5)]), None, ref(5)); add(tup([ENT, ref(0)]), mut(0)); add(tup([ENT, ref(1)]), None, mut(1))
add(tup([omut(0), oref(0)])); add(tup([ENT, ref(2)]), ref(3), mut(3))
# exclusive access in filters, wide tuples
add(tup([ENT, ref(0)]), mut(1)); add(tup([ENT, ref(0), ref(2)]), None, mut(4))
add(tup([ENT] + [mut(c) for c in (5, 4, 3)]), tup([ref(0), ref(1), ref(2)]))
add(tup([ENT] + [ref(c) for c in (0, 1, 2)]), None, tup([ref(3), ref(4), ref(5)]))
add(tup([ENT] + [mut(0), ref(1), ref(2), ref(3)]), None, tup([ref(4)]))
add(tup([ENT] + [mut(0), ref(1), ref(2), ref(3), mut(4)]), None, tup([ref(5)]))

par_every = 8
lines = []
npar = 0
for i, (g, inc, exc) in enumerate(out):
    if inc == "()" and exc == "()" and g != "()":
        e = f"plain::<{g}>()"
    else:
        e = f"entry::<{g}, {inc}, {exc}>()"
    conflict = False
    if i % par_every == 0:
        e = f"parallel::<{g}, {inc}, {exc}>({e})"; npar += 1
    lines.append(f"        {e},")
# component sets
sets = []
for n in range(1, 7):
    for s in itertools.combinations(range(6), n): sets.append(s)
perms = [p for p in itertools.permutations(range(6), 2) if p[0] > p[1]]
sets += perms
for n, k in ((3, 14), (4, 8), (5, 4), (6, 4)):
    all_ = [p for p in itertools.permutations(range(6), n) if list(p) != sorted(p)]
    sets += R.sample(all_, k)
# a type named more than once
sets += [(0, 0), (2, 2), (3, 3), (4, 4, 4), (0, 1, 0), (2, 4, 2), (5, 0, 0), (1, 3, 3), (0, 1, 2, 1, 0), (0, 4, 4, 0)]
sl = ["        fns::<()>(),"] + ["        fns::<(" + "".join(N[c] + "," for c in s) + ")>()," for s in sets]
# statically typed groups
groups = [s for n in (2, 3, 4, 5, 6) for s in itertools.combinations(range(6), n)]
groups += [p for p in perms] + R.sample([p for p in itertools.permutations(range(6), 4) if list(p) != sorted(p)], 10)
gl = ["        group::<(" + "".join(N[c] + "," for c in s) + ")>(vec![" + ", ".join(map(str, s)) + "])," for s in groups]
# Requests over A and C for the walks of Borrow: all ordered pairs of parts, in
# several places of a query.
def place(ps, where):
    """ps: part types in the order in which the query takes them"""
    at = {"g": [], "i": [], "e": []}
    for p, w in zip(ps, where): at[w].append(p)
    return tup(at["g"]), tup(at["i"]), tup(at["e"])
ways = ["gg", "gi", "ge", "ii", "ie", "ee"]
held = []
def parts(c): return [ref(c), mut(c)]
both = parts(0) + parts(2)
for i, p in enumerate(both):
    for w in "gie": held.append(place([p], w))
    held.append((tup([ENT, p.replace("&", "Option<&") + ">"]), "()", "()"))
for i, p in enumerate(both):
    for j, q in enumerate(both):
        for k in range(3):
            held.append(place([p, q], ways[(i + j + 2 * k) % 6]))
        if (i + j) % 2: held.append((tup([p.replace("&", "Option<&") + ">", q]), "()", "()"))
hl = [f"        guard::<{g}, {i}, {e}>()," for g, i, e in held]
src = f"""// Generated by tools/gencat.py.
use crate::comp::*;
use crate::exec::comp_fns;
use crate::query::{{entry, guard, parallel, plain, Entry, Guard}};
use crate::sets::{{fns, group, CompFns, GroupFns, SetFns}};
use sparsey::entity::Entity;

pub fn comps() -> Vec<(u8, CompFns)> {{
    vec![{", ".join(f"comp_fns::<{c}>()" for c in N)}]
}}

pub fn sets() -> Vec<(Vec<u8>, SetFns)> {{
    vec![
{chr(10).join(sl)}
    ]
}}

pub fn guards() -> Vec<Guard> {{
    vec![
{chr(10).join(hl)}
    ]
}}

pub fn groups() -> Vec<(Vec<u8>, GroupFns)> {{
    vec![
{chr(10).join(gl)}
    ]
}}

pub fn catalogue() -> Vec<Entry> {{
    vec![
{chr(10).join(lines)}
    ]
}}
"""
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "cat.rs")
open(p, "w").write(src)
print(len(out), "queries", npar, "parallel", len(sets), "sets", len(groups), "groups")
