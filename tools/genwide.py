#!/usr/bin/env python3
"""Writes harness/src/widecat.rs: many component types, up to the limits on
the size of groups, component sets and queries."""
import os

FAMS = [list(range(16 * f, 16 * f + 16)) for f in range(4)]
PAIRS = [[64 + 2 * i, 65 + 2 * i] for i in range(4)]
ALL = range(72)


def ty(n):
    return f'G<{n}>'


def tup(xs):
    return '(' + ''.join(x + ',' for x in xs) + ')'


def refs(ns, m=''):
    return tup(f"&'static {m}{ty(n)}" for n in ns)


def query(get, inc='()', exc='()', par=False):
    q = f'plain::<{get}>()' if (inc, exc) == ('()', '()') else f'entry::<{get}, {inc}, {exc}>()'
    if par:
        q = f'parallel::<{get}, {inc}, {exc}>({q})'
    return f'        {q},\n'


def mixed(ns):
    """Parts of all kinds."""
    kind = ("&'static ", "&'static mut ", "Option<&'static ", "&'static ", "Option<&'static mut ")
    parts = [kind[i % 5] + ty(n) + ('>' if 'Option' in kind[i % 5] else '') for i, n in enumerate(ns)]
    return '(' + ''.join(p + ',' for p in parts[:-1]) + 'Entity,)'


sets = [[]] + [[n] for n in ALL] + [FAMS[0][:k] for k in range(2, 17)] + [f[:k] for f in FAMS[1:] for k in (2, 15, 16)] + PAIRS
groups = [FAMS[0][:k] for k in range(2, 17)] + [f[:k] for f in FAMS[1:] for k in (9, 16)] + PAIRS
qs = []
f = FAMS[0]
for k in range(1, 17):
    qs.append(query(refs(f[:k])))
    qs.append(query("(Entity,)", refs(f[:k])))
    if k < 16:
        qs.append(query("(Entity," + refs(f[:k])[1:], exc=refs(f[k:k + 1])))
    if k in (1, 2, 7, 14):
        qs.append(query(refs(f[:k]), exc=refs(f[k:])))
        qs.append(query("(Entity," + refs(f[:1])[1:], refs(f[1:k + 1])))
    # Types in another order, and an entity among the parts.
    if k in (3, 5, 8, 12, 16):
        qs.append(query(refs(f[:k][::-1]), par=True))
        qs.append(query("(Entity,)", refs(f[:k][::-1])))
        qs.append(query(mixed(f[:k]), par=k > 8))
        qs.append(query(mixed(f[:k][::-1])))
    if k in (2, 4, 8, 12):
        qs.append(query(refs(f[:k] if k % 3 else f[:k][::-1]), refs(f[k:])))
        qs.append(query("(Entity," + refs(f[:k][::-1])[1:], refs(f[k:14]), refs(f[14:][::-1]), par=k == 8))
        qs.append(query("(Entity," + refs(f[:1])[1:], refs(f[1:k]), refs(f[k:])))
qs.append(query(refs(f, 'mut ')))
qs.append(query("(Entity," + refs(f[:15], 'mut ')[1:]))
qs.append(query("(Entity," + ''.join(f"Option<&'static {ty(n)}>," for n in f[:15]) + ')', refs(f[15:])))
for g in FAMS[1:]:
    qs.append(query(refs(g)))
    qs.append(query("(Entity,)", refs(g)))
    qs.append(query("(Entity," + refs(g[:15])[1:], exc=refs(g[15:])))
    qs.append(query(refs(g[:2]), exc=refs(g[2:3])))
for p in PAIRS:
    qs.append(query(refs(p)))
    qs.append(query("(Entity," + refs(p[:1])[1:], exc=refs(p[1:])))
    qs.append(query("(Entity," + refs(p)[1:], exc=refs(f[:2])))
for n in (0, 15, 16, 63, 64, 71):
    qs.append(query("(Entity," + refs([n])[1:]))

out = '''// Generated by tools/genwide.py.
use sv_harness::comp::*;
use sv_harness::exec::comp_fns;
use sv_harness::query::{entry, parallel, plain, Entry};
use sv_harness::sets::{fns, group, CompFns, GroupFns, SetFns};
use sparsey::entity::Entity;

pub fn comps() -> Vec<(u8, CompFns)> {
    vec![
''' + ''.join(f'        comp_fns::<{ty(n)}>(),\n' for n in ALL) + '''    ]
}

pub fn sets() -> Vec<(Vec<u8>, SetFns)> {
    vec![
''' + ''.join(f'        fns::<{tup(ty(n) for n in s)}>(),\n' for s in sets) + '''    ]
}

pub fn groups() -> Vec<(Vec<u8>, GroupFns)> {
    vec![
''' + ''.join(f'        group::<{tup(ty(n) for n in g)}>(vec!{[n + 10 for n in g]}),\n' for g in groups) + '''    ]
}

pub fn catalogue() -> Vec<Entry> {
    vec![
''' + ''.join(qs) + '''    ]
}
'''
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'src', 'widecat.rs'), 'w') as fh:
    fh.write(out)
