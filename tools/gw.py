"""Turns the transition graph of a model into command files for the harness.

TLC prints every transition of a bounded configuration (EntityGW, StorageGW);
the walks made here take each of them at least once, in as few worlds as
possible, and interleave queries and probes so that every state is also
looked at in many ways."""
import collections, json, random


def edges(out):
    """Transitions printed by TLC."""
    res, seen = [], set()
    for line in out.splitlines():
        if line.startswith('"T '):
            t = json.loads(json.loads(line)[2:])
            key = json.dumps(t)
            if key not in seen:
                seen.add(key)
                res.append(t)
    return res


class Graph:
    def __init__(self, es, keep=lambda op, ret: True):
        """es: [state, op, ret, state'].  The first state printed is initial."""
        self.out = collections.defaultdict(list)
        self.init = tuple(es[0][0])
        self.n = 0
        for e in es:
            a, op, ret, b = tuple(e[0]), e[1], e[2], tuple(e[3])
            if keep(op, ret):
                self.out[a].append((op, ret, b))
                self.n += 1
        self.states = set(self.out) | {b for v in self.out.values() for _, _, b in v}

    def walks(self, rng, length, budget):
        """Walks from the initial state that cover all transitions, or as
        many as the budget of steps allows; yields lists of (op, ret, state)."""
        todo = {a: list(range(len(v))) for a, v in self.out.items()}
        for v in todo.values():
            rng.shuffle(v)
        reach = self.reachable()
        self.n = left = sum(len(self.out[a]) for a in reach)
        self.uncovered = left
        while left > 0 and budget > 0:
            walk, at = [], self.init
            while len(walk) < length and left > 0:
                if todo.get(at):
                    i = todo[at].pop()
                    left -= 1
                    step = self.out[at][i]
                    walk.append(step)
                    at = step[2]
                    continue
                path = self.nearest(at, todo)
                if path is None:
                    break
                walk += path
                at = path[-1][2]
            if not walk:
                break
            budget -= len(walk)
            self.uncovered = left
            yield walk

    def reachable(self):
        seen, todo = {self.init}, [self.init]
        while todo:
            for _, _, b in self.out.get(todo.pop(), ()):
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
        return [a for a in seen if a in self.out]

    def nearest(self, at, todo):
        prev = {at: None}
        q = collections.deque([at])
        while q:
            a = q.popleft()
            if a != at and todo.get(a):
                path = []
                while prev[a] is not None:
                    a, step = prev[a]
                    path.append(step)
                return path[::-1]
            for step in self.out.get(a, ()):
                if step[2] not in prev:
                    prev[step[2]] = (a, step)
                    q.append(step[2])
        return None


# Ways to consume a query that leave open which items are looked at.
ADAPT = ['nth', 'skip', 'take', 'step', 'last', 'count', 'find', 'collect']
INDEXED = ['parnum', 'partake', 'parskip', 'parany', 'ixskip', 'ixtake', 'ixstep', 'ixzip', 'ixchunks', 'ixinto', 'ixrev']
PARTIAL = set(ADAPT + INDEXED)


class Writer:
    """Commands of one world."""
    def __init__(self, rng, comps, gs, queries, qrate, prate, modes, wrate=0.25, one=0.2, vrate=0, how='new'):
        self.rng, self.comps, self.queries = rng, comps, queries
        self.qrate, self.prate, self.modes, self.wrate = qrate, prate, modes, wrate
        self.one, self.vrate = one, vrate
        self.cmds = [dict(ev='new', gs=gs, rs=sorted(comps), dyn=rng.random() < .3, how=how)]
        self.ids, self.n, self.val = {}, 0, 0
        self.asked = collections.defaultdict(int)

    def issue(self, h):
        self.n += 1
        self.ids[tuple(h)] = self.n

    def value(self, c):
        if c == 3:
            return 0
        self.val += 1
        return self.val

    def put(self, **cmd):
        self.cmds.append(cmd)

    def looks(self, state):
        r = self.rng
        k = int(self.qrate) + (r.random() < self.qrate % 1)
        for _ in range(k if self.queries else 0):
            i = self.asked[state]
            self.asked[state] += 1
            q = self.queries[(hash(state) + i) % len(self.queries)]
            modes = [m for m in self.modes if (q['world'] or not m.startswith('w')) and (q['par'] or m[:3] != 'par' and m[:2] != 'ix')]
            if q['one'] and r.random() < self.one and self.ids:
                self.put(ev='qone', q=q['q'], h=r.choice(list(self.ids.values())), w=r.random() < self.wrate,
                         order=r.random() < .3)
            elif modes:
                mode = r.choice(modes)
                self.put(ev='qall', q=q['q'], mode=mode, w=r.random() < self.wrate and mode not in PARTIAL,
                         order=r.random() < .3, k=r.randrange(4), threads=r.choice((1, 2, 4)))
        if r.random() < self.vrate:
            ids = list(self.ids.values()) or [0]
            self.put(ev='view', c=r.choice(self.comps), x=r.random() < .5, ps=[r.choice(ids) for _ in range(r.randrange(4))],
                     how=r.choice(('none', 'all', 'one', 'idx')), wh=r.choice(ids))
        if r.random() < self.prate and self.ids:
            self.put(ev='probe', h=r.choice(list(self.ids.values())))


def conflicts(q):
    ps = [p for p in q['get'] + q['inc'] + q['exc'] if p[0] != 'ent']
    return any(i != j and a[1] == b[1] and a[0] in ('mut', 'omut')
               for i, a in enumerate(ps) for j, b in enumerate(ps))


def queries_over(catalogue, comps):
    return [q for q in catalogue if not conflicts(q)
            and all(p[0] == 'ent' or p[1] in comps for p in q['get'] + q['inc'] + q['exc'])]


def storage_worlds(graph, catalogue, rng, layouts, ncomps, budget, length, qrate, prate, modes, wrate=0.25, one=0.2, vrate=0):
    """Walks of StorageGW as command lists, one per world.  layouts: for each
    layout of the configuration, its groups over model components."""
    for walk in graph.walks(rng, length, budget):
        real = rng.sample(range(6), ncomps)
        gs = lambda l: rng.sample([[real[c] for c in g] for g in layouts[l - 1]], len(layouts[l - 1]))
        queries = queries_over(catalogue, set(real))
        rng.shuffle(queries)
        w = Writer(rng, real, gs(1), queries, qrate, prate, modes, wrate, one, vrate,
                   how=rng.choice(('new', 'default', 'builder', 'builder_groups', 'builder_reg_first')))
        pairs = lambda cs: [[real[c], w.value(real[c])] for c in cs]
        for op, _, state in walk:
            k = op[0]
            if k == 'create':
                w.put(ev='create', cs=pairs(op[2]))
                w.issue(op[1])
            elif k == 'extend':
                hs, cs, fails = op[1], op[2], op[4]
                cmd = dict(ev='extend', c=sorted(real[c] for c in cs), exact=rng.random() < .5)
                cmd['items'] = [sorted(pairs(cs)) for _ in hs]
                if fails:
                    cmd['at'] = len(hs)
                    cmd['items'].append(sorted(pairs(cs)))
                w.put(**cmd)
                for h in hs:
                    w.issue(h)
            elif k == 'insert':
                w.put(ev='insert', h=w.ids[tuple(op[1])], cs=sorted(pairs(op[2])))
            elif k == 'remove':
                w.put(ev=rng.choice(('remove', 'remove', 'delete')), h=w.ids[tuple(op[1])],
                      c=sorted(real[c] for c in op[2]))
            elif k == 'destroy':
                w.put(ev='destroy', h=w.ids[tuple(op[1])])
            elif k in ('clear', 'reset'):
                w.put(ev=k)
                if k == 'reset':
                    w.ids, w.n = {}, 0
            elif k == 'setlayout':
                w.put(ev='setlayout', gs=gs(op[1]), dyn=rng.random() < .3)
            w.looks(state)
        w.put(ev='dropworld')
        # create takes its components in the order of the catalogue
        for c in w.cmds:
            if c['ev'] == 'create':
                c['cs'].sort()
        yield w.cmds


def entity_worlds(graph, catalogue, rng, comps, budget, length, prate):
    """Walks of EntityGW.  Some creations get components, to see that they
    follow their entity."""
    for walk in graph.walks(rng, length, budget):
        gs = rng.choice(([], [[0, 1]], [[0, 1], [0, 1, 2]]))
        w = Writer(rng, comps, gs, [], 0, prate, [])
        pairs = lambda: sorted([c, w.value(c)] for c in comps if rng.random() < .5)
        for op, ret, state in walk:
            k = op[0]
            if k == 'create':
                if rng.random() < .15:
                    cs = sorted(c for c in comps if rng.random() < .5)
                    w.put(ev='extend', c=cs, items=[[[c, w.value(c)] for c in cs]], exact=rng.random() < .5)
                else:
                    w.put(ev='create', cs=pairs())
                w.issue(ret[0])
            elif k == 'create_atomic':
                w.put(ev='catomic')
                w.issue(ret[0])
            elif k == 'destroy':
                w.put(ev='destroy', h=w.ids[tuple(op[1])])
            else:
                w.put(ev=k)
                if k == 'reset':
                    w.ids, w.n = {}, 0
            w.looks(state)
        w.put(ev='dropworld')
        yield w.cmds


def schedule_worlds(graph, catalogue, rng, comps, budget, length, prate, threads):
    """Walks of EntityCW: what threads do between two exclusive operations is
    one schedule."""
    for walk in graph.walks(rng, length, budget):
        w = Writer(rng, comps, [], [], 0, prate, [])
        steps, got = [], [[] for _ in range(threads)]
        def flush():
            if not steps:
                return
            unfinished = [0] * threads
            for t, kind in steps:
                unfinished[t] = kind != 'done'
            w.put(ev='sched', calls=[len(g) + u for g, u in zip(got, unfinished)], steps=[t for t, k in steps if k != 'local'])
            for g in got:
                for h in g:
                    w.issue(h)
                g.clear()
            steps.clear()
        for op, ret, state in walk:
            if op[0] == 'step':
                t = op[1] - 1
                steps.append((t, op[2]))
                if op[2] == 'done':
                    got[t].append(ret[0])
                continue
            flush()
            k = op[0]
            if k == 'create':
                w.put(ev='create', cs=sorted([c, w.value(c)] for c in comps if rng.random() < .3))
                w.issue(ret[0])
            elif k == 'destroy':
                w.put(ev='destroy', h=w.ids[tuple(op[1])])
            else:
                w.put(ev=k)
                if k == 'reset':
                    w.ids, w.n = {}, 0
            w.looks(state)
        flush()
        w.put(ev='maintain')
        w.put(ev='dropworld')
        yield w.cmds


def schedules(es, catalogue, rng, opts):
    opts = dict(opts)
    last = opts.pop('maxver')
    ok = lambda op, ret: ret != ['panic'] and not (op[0] == 'destroy' and op[1][1] == last and ret == 'yes')
    graph = Graph(es, ok)
    # A thread that cannot but fail is of no use.
    dead = set()
    while True:
        more = {b for v in graph.out.values() for _, _, b in v if b not in dead and not any(e[2] not in dead for e in graph.out.get(b, ()))}
        if not more:
            break
        dead |= more
    es = [e for e in es if ok(e[1], e[2]) and tuple(e[3]) not in dead]
    graph = Graph(es)
    return graph, schedule_worlds(graph, catalogue, rng, **opts)


def storage(es, catalogue, rng, opts):
    graph = Graph([[a, op, None, b] for a, op, b in es])
    return graph, storage_worlds(graph, catalogue, rng, **opts)


def entities(es, catalogue, rng, opts):
    """The last version of an index is retired in the model only."""
    opts = dict(opts)
    last = opts.pop('maxver')
    graph = Graph(es, lambda op, ret: ret != ['panic'] and not (op[0] == 'destroy' and op[1][1] == last and ret == 'yes'))
    return graph, entity_worlds(graph, catalogue, rng, **opts)


def layouts(es, catalogue, rng, opts):
    """Every state of Layout: the way there, then every group that leaves it
    as it is (rejected or known), and the layout in use.  Every other way
    into a state is one more layout."""
    graph = Graph([[a, op, None, b] for a, op, b in es])
    tree, order, extra = {graph.init: []}, [graph.init], []
    for a in order:
        for op, _, b in graph.out[a]:
            if b == a:
                continue
            if b in tree:
                extra.append(tree[a] + [op[0]])
            else:
                tree[b] = tree[a] + [op[0]]
                order.append(b)
    graph.uncovered = 0
    rng.shuffle(order)

    def worlds():
        todo = [(tree[a], [op[0] for op, _, b in graph.out[a] if b == a]) for a in order] + [(x, []) for x in extra]
        rng.shuffle(todo)
        for start in range(0, len(todo), 40):
            comps = list(range(6))
            w = Writer(rng, comps, [], [], 0, 0, [])
            for _ in range(7):
                w.put(ev='create', cs=sorted([c, w.value(c)] for c in comps if rng.random() < .7))
            for path, loops in todo[start:start + 40]:
                real = rng.sample(comps, 6)
                name = lambda g: rng.sample([real[c] for c in g], len(g))
                rng.shuffle(loops)
                # Some of them in between: known groups, and some rejected then.
                adds = [name(g) for g in path + loops]
                w.put(ev='layout', adds=adds, dyn=rng.random() < .5, use=True, fresh=False)
                w.put(ev='isreg')
                want = [sorted(real[c] for c in g) for g in path]
                for g in rng.sample(want, min(2, len(want))):
                    qs = [q for q in catalogue if not q['exc'] and not conflicts(q)
                          and sorted(p[1] for p in q['get'] + q['inc'] if p[0] in ('ref', 'mut')) == g
                          and all(p[0] in ('ref', 'mut', 'ent') for p in q['get'])]
                    if qs:
                        w.put(ev='qall', q=rng.choice(qs)['q'], mode=rng.choice(('slice', 'slice', 'next')), w=False, order=rng.random() < .3, k=0, threads=1)
                if rng.random() < .3:
                    w.put(ev='create', cs=sorted([c, w.value(c)] for c in comps if rng.random() < .7))
            w.put(ev='dropworld')
            yield w.cmds
    return graph, worlds()


def borrows(es, guards, rng, opts):
    """Walks of Borrow over the component types A and C, each in one world
    that is held all the time."""
    graph = Graph([[a, op, None, b] for a, op, b in es])
    real = {0: 0, 1: 2}
    ways = collections.defaultdict(list)
    for g in guards:
        seq = tuple((c, 'ex' if k in ('mut', 'omut') else 'sh') for k, c in g['get'] + g['inc'] + g['exc'] if k != 'ent')
        ways[seq].append(g)

    def worlds():
        for walk in graph.walks(rng, opts['length'], opts['budget']):
            gs = rng.choice(([], [[0, 2]], [[0, 2], [0, 2, 4]], [[0, 1], [2, 3]]))
            w = Writer(rng, list(range(6)), gs, [], 0, 0, [])
            for _ in range(rng.choice((1, 3))):
                w.put(ev='create', cs=sorted([c, w.value(c)] for c in (0, 2) if rng.random() < .8))
            steps, slots, n = [], {}, 0
            for op, _, _ in walk:
                if op[0] == 'rel':
                    steps.append(dict(ev='rel', slot=slots.pop(op[1])))
                    continue
                _, slot, parts, out = op
                n += 1
                seq = tuple((real[c], m) for c, m in parts)
                g = rng.choice(ways[seq])
                query = dict(g=g['g'], order=rng.random() < .5 and not (g['inc'] and g['exc']))
                step = dict(ev='acq', slot=n)
                one = len(seq) == 1 and rng.random() < .7
                ex = seq[0][1] == 'ex'
                if slot == 0:
                    k = rng.choice(('iterpanic', 'iterpanic', 'try'))
                    if k == 'try' and one:
                        step.update(kind='tryviewmut' if ex else 'tryview', c=seq[0][0])
                    else:
                        step.update(query, kind='tryqall' if k == 'try' else k)
                elif one:
                    step.update(kind=('viewmut' if ex else 'view') + rng.choice(('', '', 'g')), c=seq[0][0])
                else:
                    step.update(query, kind=rng.choice(('qall', 'qone')))
                steps.append(step)
                if slot and out == 'ok':
                    slots[slot] = n
            w.put(ev='guards', steps=steps)
            w.put(ev='dropworld')
            yield w.cmds
    return graph, worlds()


def whole(es, catalogue, rng, opts):
    """Walks of WorldMC: every call with every argument, valid or not."""
    opts = dict(opts)
    ncomps, bombs = opts.pop('ncomps'), opts.pop('bombs', False)
    budget, length = opts.pop('budget'), opts.pop('length')
    graph = Graph(es)

    def worlds():
        for walk in graph.walks(rng, length, budget):
            real = rng.sample(range(6), ncomps)
            queries = queries_over(catalogue, set(real))
            rng.shuffle(queries)
            w = Writer(rng, [], [], queries, how=rng.choice(('new', 'default', 'builder')), **opts)
            w.comps = real
            vals = {}
            def pairs(cs):
                return sorted([real[c], w.value(real[c])] for c in cs)
            def anyone(h):
                if h <= w.n:
                    return h
                return rng.choice([0] + ([900000 + rng.choice(sorted({h for h, _ in vals}))] if vals else []))
            def put(bomb, passed=None, **cmd):
                if bomb and bombs:
                    c, h = real[bomb[0]], bomb[1]
                    v = vals[h, c] if h > 0 else dict(map(tuple, passed))[c]
                    if c != 1:
                        cmd['bomb'] = [c, v]
                w.put(**cmd)
            def forget(h, cs):
                for c in cs:
                    vals.pop((h, c), None)
            for op, (out, live, issued), state in walk:
                k = op[0]
                if k == 'create':
                    cs = pairs(op[2])
                    w.put(ev='create', cs=cs)
                    if out == 'ok':
                        w.issue([op[1]])
                        vals.update(((op[1], c), v) for c, v in cs)
                elif k == 'catomic':
                    w.put(ev='catomic')
                    w.issue([op[1]])
                elif k == 'extend':
                    n, cs, fails = op[1:]
                    items = [pairs(cs) for _ in range(n + fails)]
                    cmd = dict(ev='extend', c=sorted(real[c] for c in cs), exact=rng.random() < .5, items=items)
                    if fails:
                        cmd['at'] = n
                    w.put(**cmd)
                    for i in range(issued - w.n):
                        w.issue([w.n + 1])
                        vals.update(((w.n, c), v) for c, v in items[i])
                elif k == 'insert':
                    cs = pairs(op[2])
                    put(op[3] if len(op) > 3 else None, cs, ev='insert', h=anyone(op[1]), cs=cs)
                    if out == 'ok' and op[1] in live:
                        vals.update(((op[1], c), v) for c, v in cs)
                elif k in ('remove', 'delete'):
                    put(op[3] if len(op) > 3 else None, ev=k, h=anyone(op[1]), c=sorted(real[c] for c in op[2]))
                    if out == 'ok':
                        forget(op[1], (real[c] for c in op[2]))
                elif k == 'destroy':
                    put(op[2] if len(op) > 2 else None, ev='destroy', h=anyone(op[1]))
                    forget(op[1], real)
                elif k in ('clear', 'reset'):
                    put(op[1] if len(op) > 1 else None, ev=k)
                    vals.clear()
                    if k == 'reset':
                        w.ids, w.n = {}, 0
                elif k == 'setlayout':
                    w.put(ev='setlayout', gs=[rng.sample([real[c] for c in g], len(g)) for g in op[1]], dyn=rng.random() < .4)
                elif k == 'register':
                    w.put(ev='register', c=real[op[1]], dyn=rng.random() < .5)
                w.looks(state)
                if rng.random() < .1:
                    w.put(ev='isreg')
            w.put(ev='dropworld')
            yield w.cmds
    return graph, worlds()


def programs(es, catalogue, rng, opts):
    """Walks of Iterate as queries with so many matches, in several worlds:
    each walk is one iteration."""
    by_items = collections.defaultdict(list)
    for a, op, items, b in es:
        by_items[items].append([(items, str(a)), op, None, (items, str(b))])
    for items, sub in by_items.items():
        start = (items, str([items, [[0, items, 0]]]))
        sub.sort(key=lambda e: tuple(e[0]) != start)
    graphs = {items: Graph(sub) for items, sub in sorted(by_items.items())}
    total = Graph([e for sub in by_items.values() for e in sub])
    total.uncovered = 0
    par = opts['par']
    mode = 'ixplan' if par else 'prog'
    # Queries that need two types, and may exclude a third.
    def kind(q):
        need = {p[1] for p in q['get'] + q['inc'] if p[0] in ('ref', 'mut')}
        return need, {p[1] for p in q['exc']}, {p[1] for p in q['get'] + q['inc'] if p[0] in ('oref', 'omut')}
    shapes = collections.defaultdict(list)
    for q in catalogue:
        need, exc, opt = kind(q)
        if len(need) == 2 and len(exc) <= 1 and not conflicts(q) and not need & exc and not opt & need and not exc & opt \
                and all(p[0] in ('ref', 'mut') for p in q['exc']) and (q['par'] or not par):
            shapes[tuple(sorted(need)), tuple(exc)].append(q)

    def worlds():
        for items, graph in graphs.items():
            todo = list(graph.walks(rng, 40, 10 ** 9))
            rng.shuffle(todo)
            while todo:
                (x, y), exc = rng.choice(list(shapes))
                z = exc[0] if exc else rng.choice([c for c in range(6) if c not in (x, y)])
                gs = rng.choice(([], [[x, y]], [[x, y], [x, y, z]], [[x, z]], [[x, y]] if not exc else [[x, y], [x, y, z]]))
                w = Writer(rng, list(range(6)), gs, [], 0, 0, [])
                pairs = lambda cs: sorted([c, w.value(c)] for c in cs)
                others = [c for c in range(6) if c not in (x, y, z)]
                sets = [[x, y] + ([z] if not exc and rng.random() < .5 else []) for _ in range(items)]
                noise = [[x], [y], [x, z], [y, z], [z], []] + ([[x, y, z]] if exc else [])
                sets += [list(rng.choice(noise)) for _ in range(rng.choice((0, 1, 3, 5)))]
                rng.shuffle(sets)
                for cs in sets:
                    w.put(ev='create', cs=pairs(cs + [c for c in others if rng.random() < .2]))
                for _ in range(min(len(todo), 60)):
                    ops = [op for op, _, _ in todo.pop()]
                    q = rng.choice(shapes[(x, y), exc])
                    w.put(ev='qall', q=q['q'], mode=mode, ops=ops, w=False, order=rng.random() < .3, k=0, threads=2)
                w.put(ev='dropworld')
                yield w.cmds
    return total, worlds()


def sparse(es, catalogue, rng, opts):
    """Walks through Sparse.  Indices, versions and dense indices are given
    other values, in the same order or not."""
    graph = Graph([[a, op, None, b] for a, op, b in es])

    def worlds():
        for walk in graph.walks(rng, opts['length'], opts['budget']):
            near = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 1000, 4095, 4097, 65535, 65536, 65537, 131073]
            index = rng.sample(near, 8)
            if rng.random() < .5:
                index = near[:8]
            version, dense = rng.sample([1, 2, 3, 4], 3), rng.sample(range(6), 3)
            cmds = [dict(ev='new', x=1), dict(ev='new', x=2)]
            for op, _, _ in walk:
                cmd = {k: v for k, v in op.items() if k != 'ret'}
                for k, names in (('i', index), ('j', index), ('d', dense)):
                    if k in cmd:
                        cmd[k] = names[cmd[k]]
                if 'v' in cmd:
                    cmd['v'] = version[cmd['v'] - 1]
                if cmd['ev'] == 'removesparse':
                    cmd['v'] = 1
                cmds.append(cmd)
            yield cmds
    return graph, worlds()


def heap(es, catalogue, rng, opts):
    """Walks through Heap.  One entity of the model is one or many real ones;
    other calls, which ask for nothing or give it back, come in between."""
    graph = Graph([[a, op, None, b] for a, op, b in es])

    def worlds():
        for walk in graph.walks(rng, opts['length'], opts['budget']):
            scale = rng.choice((1, 1, 2, 5, 40))
            real = dict(zip('ab', rng.sample(range(5), 2)))
            of = lambda s: [real[t] for t in s]
            cmds = []
            for op, _, _ in walk:
                ev, args = op[0], op[1:]
                if ev in ('new', 'layout'):
                    cmd = dict(ev=ev, gs=[of(g) for g in args[0]], how=rng.randrange(4))
                elif ev == 'register':
                    cmd = dict(ev=ev, c=of(args))
                elif ev == 'extend':
                    n = args[0] * scale
                    if n == 1 and rng.random() < .5:
                        cmd = dict(ev='create', s=of(args[1]))
                    else:
                        cmd = dict(ev=ev, n=n, s=of(args[1]))
                elif ev == 'queue':
                    cmd = dict(ev=ev, n=args[0] * scale)
                elif ev in ('destroy', 'insert', 'remove'):
                    cmd = dict(ev=ev, s=of(args[0]), n=scale, newest=rng.random() < .5)
                    if ev != 'destroy':
                        cmd['c'] = of(args[1])
                        cmd['delete'] = rng.random() < .5
                else:
                    cmd = dict(ev=ev)
                cmds.append(cmd)
                if ev != 'drop' and rng.random() < .05:
                    cmds.append(dict(ev=rng.choice(('look', 'unknown', 'badlayout'))))
            if cmds and cmds[-1]['ev'] != 'drop':
                cmds.append(dict(ev='drop'))
            yield cmds
    return graph, worlds()


def keys(es, catalogue, rng, opts):
    """Walks through Keys.  Handles keep which parts they share."""
    graph = Graph([[a, op, None, b] for a, op, b in es])

    def worlds():
        for walk in graph.walks(rng, opts['length'], opts['budget']):
            kind = rng.choice(('entity', 'entity', 'entity', 'version', 'type'))
            index, version, flat = rng.sample(range(14), 4), rng.sample(range(1, 14), 3), rng.sample(range(1, 14), 12)
            if rng.random() < .5:
                index, version = sorted(index), sorted(version)
            real = lambda k: [index[k[0]], version[k[1]]] if kind == 'entity' else [flat[k[0] * 2 + k[1] - 1], 0]
            ks = sorted({tuple(real(op['k'])) for op, _, _ in walk})
            cmds = [dict(ev='new', kind=kind, ks=ks)]
            for op, _, _ in walk:
                cmds.append({k: real(v) if k == 'k' else v for k, v in op.items() if k != 'ret'})
                if rng.random() < .1:
                    cmds.append(dict(ev='list', a=rng.choice(ks), b=rng.choice(ks)))
                if rng.random() < .03:
                    cmds.append(dict(ev='sort', ks=rng.choices(ks, k=rng.randrange(1, 20))))
            yield cmds
    return graph, worlds()


KINDS = dict(keys=keys, heap=heap, sparse=sparse, programs=programs, storage=storage, entities=entities, schedules=schedules, layouts=layouts, borrows=borrows, whole=whole)
