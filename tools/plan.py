"""What each check runs: which aspects it judges, on which histories, with
which bounded models.  Kept apart from how it is run (runner.py)."""

from gw import ADAPT, INDEXED

# Aspects of a recorded event (see spec/Trace.tla).
STATE = ['ents', 'views', 'comps']           # the content of the world
RESULTS = ['ret', 'stale', 'reg', 'reguse']  # what calls return
QUERY = ['qrows', 'qone', 'dense', 'slice', 'hints', 'qpanic']
ALL = STATE + RESULTS + QUERY + ['fresh', 'reuse', 'later', 'drops', 'layout', 'borrow', 'bulk', 'paniciter', 'bombs']

# Per property: aspects judged, and profiles (name -> number of traces).
P = {
    'C01': dict(aspects=['ents', 'fresh', 'stale'],
                tv=dict(scale=1, churn=1, mass=1, ents=3, stale=1, conc=1, crud=1, clear=1, relayout=1, extend=1)),
    'C02': dict(aspects=['fresh', 'later'],
                tv=dict(scale=1, churn=1, mass=1, ents=3, conc=2, clear=2, stale=1, extend=1, crud=1), limits=('versions', 'indices')),
    'C03': dict(aspects=['reuse', 'later', 'fresh'],
                tv=dict(churn=1, mass=2, scale=1, ents=3, conc=2, clear=1, extend=2, stale=1, crud=1)),
    'C04': dict(aspects=['ents', 'views', 'comps', 'stale', 'fresh', 'reuse', 'ret'],
                tv=dict(scale=1, mass=1, ents=3, conc=2, stale=1, clear=1, extend=1, relayout=1)),
    'C05': dict(aspects=['fresh', 'reuse', 'later', 'ents', 'views'],
                tv=dict(conc=6, ents=1), miri=(6, 36)),
    'C06': dict(aspects=STATE + ['ret', 'qone', 'fresh'],
                tv=dict(wide=1, churn=1, scale=1, crud=3, grow=1, drops=1, extend=1, relayout=1, twin=1, stale=1)),
    'C07': dict(aspects=['stale', 'ret', 'fresh', 'qrows', 'slice', 'dense'] + STATE,
                tv=dict(scale=1, churn=2, mass=1, stale=4, ents=1, view=1, one=1, conc=1, clear=1)),
    'C08': dict(aspects=['drops', 'ret', 'comps', 'views'],
                tv=dict(scale=1, many=1, drops=4, crud=1, relayout=1, panic=1, clear=1, grow=1)),
    'C09': dict(aspects=STATE + RESULTS + ['qrows', 'qone', 'drops', 'fresh', 'bulk'],
                tv=dict(nests=1, wide=1, scale=1, twin=3, crud=1, query=2, dense=1, relayout=1, grow=1)),
    'C10': dict(aspects=['dense', 'slice'],
                tv=dict(scale=1, nests=1, many=1, wide=1, dense=4, layout=1, relayout=2, extend=1, twin=1)),
    'C11': dict(aspects=['qrows', 'slice'],
                tv=dict(nests=2, wide=1, scale=1, query=4, iter=1, dense=1, twin=1, grow=1, relayout=1)),
    'C12': dict(aspects=['qone', 'qrows', 'stale'],
                tv=dict(scale=1, wide=1, churn=1, one=4, stale=1, view=1, twin=1, grow=1)),
    'C13': dict(aspects=['qrows', 'hints'],
                tv=dict(scale=1, nests=1, many=1, iter=5, write=1, dense=1, grow=1)),
    'C14': dict(aspects=['qrows', 'hints', 'comps', 'views'],
                tv=dict(scalepar=1, nestspar=1, manypar=2, par=6, write=1)),
    'C15': dict(aspects=['comps', 'views', 'qrows', 'qone', 'slice'],
                tv=dict(scale=1, many=1, manypar=1, write=4, par=1, view=1, grow=1, one=1)),
    'C16': dict(aspects=[a for a in ALL if a not in ('bombs',)],
                tv=dict(scale=2, many=1, wide=1, relayout=6, layout=1)),
    'C17': dict(aspects=['layout', 'dense', 'slice', 'reg', 'reguse', 'qrows'],
                tv=dict(wide=2, layout=5, reg=1, relayout=1, dense=1)),
    'C18': dict(aspects=['borrow'],
                tv=dict(guards=6, panic=1, par=1)),
    'C19': dict(aspects=[a for a in ALL if a not in ('bombs',)],
                tv=dict(panic=6, guards=1, reg=1)),
    'C20': dict(aspects=[a for a in ALL if a not in ('bombs',)],
                tv=dict(scale=1, churn=1, clear=6, ents=1)),
    'C21': dict(aspects=STATE + ['bulk', 'fresh', 'reuse', 'qrows', 'dense', 'slice', 'drops'],
                tv=dict(scale=1, many=1, wide=1, extend=6, twin=1, panic=1)),
    'C22': dict(aspects=['reg', 'reguse', 'comps', 'views', 'drops'],
                tv=dict(scale=1, reg=4, wide=1, panic=1, relayout=1, clear=1, guards=1)),
    'C23': dict(aspects=['views', 'comps', 'qone', 'stale'],
                tv=dict(wide=1, churn=1, scale=1, view=4, crud=1, grow=1, relayout=1, stale=1)),
    'C24': dict(aspects=STATE + ['bombs', 'drops', 'qrows', 'slice', 'qone', 'stale'],
                tv=dict(bombs=7)),
    'C25': dict(aspects=['sparse'], tv=dict(sparse=8)),
    'C26': dict(aspects=['heap'], tv=dict(heap=12)),
    'C27': dict(aspects=['keys'], tv=dict(keys=12)),
}
EVENTS = dict(quick=5000, thorough=20000)
# Traces per profile in the thorough tier, as a multiple of the quick tier.
THOROUGH = 6
NOTE = ('The bounded models are explored exhaustively; the real code is bound to the specification by traces: '
        'every recorded call, with the full observable state after it, must be a step of spec/World.tla. '
        'Assurance on the code is that of the histories replayed and driven in this run. Trusted: TLC, the harness '
        'that records what the public interface returns, and rustc.')

# ---- bounded models ---------------------------------------------------------
_ST = {k: {} for k in ('insert_own', 'delete_own', 'delete_index', 'stale_slot', 'swap_entities', 'swap_versions',
                       'no_skip', 'move_new', 'ungroup_up', 'strip_first', 'extend_panic', 'extend_first', 'clear_len',
                       'exclude_all', 'range_zero')}
_NESTED = {'Layouts': '<- Nested', 'Comp': '= {0, 1, 2}'}
MODELS = dict(
    EntityAlloc=dict(
        module='EntityAlloc', cfg='EntityAlloc_small',
        thorough=[dict(MaxIndex='= 3'), dict(Threads='= {t1, t2, t3}'), dict(MaxIndex='= 3', MaxVer='= 3'),
                  dict(Threads='= {t1, t2, t3}', MaxIndex='= 3')],
        defects={d: {} for d in ('resurrect', 'race', 'race_next', 'lifo', 'keep_pending', 'same_version', 'wrap',
                                 'clear_keeps', 'reset_keeps')}),
    EntityReturns=dict(module='EntityAlloc', cfg='EntityAlloc_live', thorough=[dict(Threads='= {t1, t2, t3}')]),
    Storage=dict(
        module='StorageMC', cfg='Storage_pair',
        thorough=[dict(_NESTED, MaxIndex='= 3', MaxBulk='= 3'),
                  {'Layouts': '<- Pair', 'Comp': '= {0, 1}', 'MaxIndex': '= 4', 'MaxVer': '= 1'},
                  {'Layouts': '<- Switch3', 'Comp': '= {0, 1, 2}', 'MaxIndex': '= 2', 'MaxVer': '= 2'},
                  {'Layouts': '<- Adds2', 'Comp': '= {0, 1, 2, 3}', 'MaxIndex': '= 2', 'MaxVer': '= 1'},
                  {'Layouts': '<- TwoPairs', 'Comp': '= {0, 1, 2, 3}', 'MaxIndex': '= 2', 'MaxVer': '= 1'}],
        defects=dict({d: _NESTED for d in _ST}, relayout_ungrouped={},
                     exclude_any={'Layouts': '<- Adds2', 'Comp': '= {0, 1, 2, 3}'},
                     exclude_every={'Layouts': '<- Adds2', 'Comp': '= {0, 1, 2, 3}'})),
)

MODELS.update(
    Layout=dict(
        module='Layout', cfg='Layout', thorough=[dict(MaxArity='= 3'), dict(MaxArity='= 4'), dict(MaxGroups='= 2'), dict(MaxGroups='= 3')],
        defects=dict({d: {} for d in ('order', 'again', 'whole', 'unsorted', 'first', 'merged', 'several')},
                     unlimited=dict(MaxGroups='= 2'))),
)
MODELS.update(
    Borrow=dict(
        module='Borrow', cfg='Borrow', thorough=[dict(Comp='= {0, 1, 2}'), dict(MaxParts='= 3')],
        defects={d: {} for d in ('shared_any', 'writers', 'unlock', 'panic_keeps', 'skip_own', 'keeps', 'stays')}),
)

MODELS.update(
    Iterate=dict(module='Iterate', cfg='Iterate', thorough=[dict(MaxItems='= 6'), dict(MaxPieces='= 4'), dict(MaxPieces='= 1', MaxItems='= 9', MaxSkip='= 4')],
                 defects={d: {} for d in ('split_end', 'split_zero', 'nth_short', 'back_keeps')}),
)
_W3 = {'Comp': '= {0, 1, 2}', 'Zst': '= {0, 1, 2}', 'Layouts': '<- Nested'}
MODELS.update(
    World=dict(module='WorldMC', cfg='WorldMC', thorough=[dict(MaxIssued='= 3'), _W3, dict(_W3, MaxIssued='= 3')], defects={}),
)

# ---- transition graphs replayed into the code -------------------------------
SEQ = ['next', 'fold', 'split', 'foreach', 'into', 'wforeach', 'twice', 'slice']
GRAPHS = dict(
    alloc=dict(kind='entities', module='EntityGW', cfg='EntityGW', quick=dict(MaxIndex='= 2', MaxVer='= 3'),
               thorough=dict(MaxIndex='= 3', MaxVer='= 3'), thorough_opts=dict(budget=400000),
               opts=dict(maxver=3, comps=[0, 1, 4], budget=60000, length=1200, prate=0.15)),
    sched2=dict(kind='schedules', module='EntityCW', cfg='EntityCW', quick=dict(MaxIndex='= 3', MaxVer='= 3'),
                thorough=dict(MaxIndex='= 4', MaxVer='= 2'), thorough_opts=dict(budget=1000000, maxver=2),
                opts=dict(maxver=3, threads=2, comps=[0], budget=150000, length=4000, prate=0.1)),
    sched3=dict(kind='schedules', module='EntityCW', cfg='EntityCW', quick=dict(Threads='= {1, 2, 3}', MaxIndex='= 3'),
                thorough=dict(Threads='= {1, 2, 3}', MaxIndex='= 4'), thorough_opts=dict(budget=1500000),
                opts=dict(maxver=2, threads=3, comps=[0], budget=150000, length=4000, prate=0.1)),
    pair=dict(kind='storage', module='StorageGW', cfg='StorageGW', quick={},
              opts=dict(layouts=[[[0, 1]], []], ncomps=2, budget=40000, length=1200, qrate=1, prate=0.1, modes=SEQ)),
    nested=dict(kind='storage', module='StorageGW', cfg='StorageGW',
                quick=dict(_NESTED, MaxIndex='= 2', MaxVer='= 1'),
                thorough=dict(_NESTED, MaxIndex='= 3', MaxVer='= 1'), thorough_opts=dict(budget=400000),
                opts=dict(layouts=[[[0, 1], [0, 1, 2]]], ncomps=3, budget=40000, length=1200, qrate=1, prate=0.1, modes=SEQ)),
    adds=dict(kind='storage', module='StorageGW', cfg='StorageGW',
              quick={'Layouts': '<- Adds2', 'Comp': '= {0, 1, 2, 3}', 'MaxIndex': '= 2', 'MaxVer': '= 1', 'MaxBulk': '= 1'},
              thorough={'Layouts': '<- Adds2', 'Comp': '= {0, 1, 2, 3}', 'MaxIndex': '= 3', 'MaxVer': '= 1', 'MaxBulk': '= 0'},
              thorough_opts=dict(budget=400000),
              opts=dict(layouts=[[[0, 1], [0, 1, 2, 3]]], ncomps=4, budget=20000, length=1200, qrate=1, prate=0, modes=SEQ)),
    switch=dict(kind='storage', module='StorageGW', cfg='StorageGW',
                quick={'Layouts': '<- Switch3', 'Comp': '= {0, 1, 2}', 'MaxIndex': '= 2', 'MaxVer': '= 1', 'MaxBulk': '= 0'},
                thorough={'Layouts': '<- Switch3', 'Comp': '= {0, 1, 2}', 'MaxIndex': '= 2', 'MaxVer': '= 2'},
                thorough_opts=dict(budget=400000),
                opts=dict(layouts=[[], [[1, 2]], [[0, 2], [0, 1, 2]], [[0, 1, 2]]], ncomps=3, budget=40000, length=1200,
                          qrate=1, prate=0.1, modes=SEQ)),
)
GRAPHS.update(
    borrow=dict(kind='borrows', module='BorrowGW', cfg='BorrowGW', quick=dict(Slots='= {1, 2, 3}'),
                thorough=dict(Slots='= {1, 2, 3, 4}'), thorough_opts=dict(budget=400000), opts=dict(budget=60000, length=600)),
    layout=dict(kind='layouts', module='LayoutGW', cfg='LayoutGW', quick={}, thorough=dict(Comp='= {0, 1, 2, 3, 4, 5}'), opts={}),
)
GRAPHS.update(
    world=dict(kind='whole', module='WorldGW', cfg='WorldGW', quick={}, thorough=dict(MaxIssued='= 3'), thorough_opts=dict(budget=400000),
               opts=dict(ncomps=2, budget=40000, length=800, qrate=0.5, prate=0.1, modes=['next', 'slice', 'foreach', 'par'])),
    world3=dict(kind='whole', module='WorldGW', cfg='WorldGW', quick=_W3, thorough=_W3, thorough_opts=dict(budget=400000),
                opts=dict(ncomps=3, budget=20000, length=800, qrate=0.5, prate=0.1, modes=['next', 'slice', 'foreach', 'par'])),
)
GRAPHS.update(
    steps=dict(kind='programs', module='IterateGW', cfg='IterateGW', quick=dict(MaxItems='= 5', MaxPieces='= 1', MaxSkip='= 2'),
               thorough=dict(MaxItems='= 9', MaxPieces='= 1', MaxSkip='= 4'), opts=dict(par=False)),
    splits=dict(kind='programs', module='IterateGW', cfg='IterateGW', quick={},
                thorough=dict(MaxItems='= 5', MaxPieces='= 4'), opts=dict(par=True)),
)
MODELS.update(
    Heap=dict(module='Heap', cfg='Heap', thorough=[dict(Max='= 3')],
              defects={d: {} for d in ('free_new_size', 'grow_keeps_old', 'free_empty', 'never_reused', 'layout_forgets', 'drop_keeps')}),
    Destruct=dict(module='Destruct', cfg='Destruct', thorough=[dict(Comp='= {0}', Ent='= {1, 2, 3}'), dict(Comp='= {0, 1, 2}', Ent='= {1}')],
                  defects={d: {} for d in ('overwrite_in_place', 'drop_each', 'group_last', 'delete_in_place', 'delete_each', 'strip_stops',
                                           'strip_in_place', 'clear_stops', 'length_last', 'drop_again')}),
    Keys=dict(module='Keys', cfg='Keys', thorough=[dict(Index='= {0, 1, 2, 3}')],
              defects={d: {} for d in ('index_only', 'version_only', 'either', 'sum', 'wrap', 'eq_index', 'hash_place')}),
    Sparse=dict(module='Sparse', cfg='Sparse', thorough=[dict(Vec='= {1}', Index='= {0, 1, 2, 3, 5}')],
                defects={d: {} for d in ('any_version', 'short', 'swap_versions', 'clear_keeps')}),
)
GRAPHS.update(
    blocks=dict(kind='heap', module='HeapGW', cfg='HeapGW', quick={}, opts=dict(budget=30000, length=400), thorough_opts=dict(budget=400000)),
    entries=dict(kind='keys', module='KeysGW', cfg='KeysGW', quick={}, opts=dict(budget=40000, length=600),
                 thorough=dict(Index='= {0, 1, 2, 3}'), thorough_opts=dict(budget=200000)),
    slots=dict(kind='sparse', module='SparseGW', cfg='SparseGW', quick={}, thorough=dict(Index='= {0, 1, 2, 4}'), opts=dict(budget=40000, length=1000),
                thorough_opts=dict(budget=200000)),
)
for _pid, _mc, _gw in (
    ('C01', ['EntityAlloc'], dict(alloc={})),
    ('C02', ['EntityAlloc'], dict(alloc={})),
    ('C03', ['EntityAlloc'], dict(alloc={})),
    ('C04', ['EntityAlloc'], dict(alloc=dict(prate=0.4))),
    ('C05', ['EntityAlloc', 'EntityReturns'], dict(alloc={}, sched2={}, sched3={})),
    ('C06', ['Storage'], dict(pair=dict(qrate=0.2), nested=dict(qrate=0.2))),
    ('C07', ['Storage', 'EntityAlloc'], dict(alloc=dict(prate=0.8), pair=dict(qrate=0.3, prate=0.8))),
    ('C08', ['Storage', 'World', 'Destruct'], dict(pair=dict(qrate=0, prate=0), nested=dict(qrate=0, prate=0), world=dict(qrate=0, prate=0))),
    ('C09', ['Storage'], dict(nested={}, pair={}, adds={})),
    ('C10', ['Storage'], dict(nested=dict(prate=0, qrate=1.5, modes=['slice']))),
    ('C11', ['Storage'], dict(nested=dict(prate=0, qrate=1.5, modes=['next', 'slice', 'foreach']), adds=dict(modes=['next', 'slice', 'foreach']))),
    ('C12', ['Storage'], dict(nested=dict(qrate=1.5, modes=['next'], one=0.7))),
    ('C13', ['Storage', 'Iterate'], dict(steps={}, pair=dict(prate=0, qrate=2, modes=SEQ + ADAPT))),
    ('C14', ['Storage', 'Iterate'], dict(splits={}, pair=dict(prate=0, modes=['par', 'parfor', 'parcount', 'wparfor'] + INDEXED))),
    ('C15', ['Storage'], dict(pair=dict(qrate=2, wrate=1.0, modes=SEQ + ['par', 'parfor', 'wparfor']))),
    ('C16', ['Storage', 'World'], dict(switch={}, world3={})),
    ('C17', ['Layout'], dict(layout={})),
    ('C18', ['Borrow'], dict(borrow={})),
    ('C20', ['Storage', 'EntityAlloc'], dict(pair=dict(qrate=0.5), alloc={})),
    ('C21', ['Storage'], dict(nested=dict(qrate=0.3, modes=['next', 'slice']))),
    ('C19', ['World'], dict(world=dict(qrate=1), world3={})),
    ('C22', ['World'], dict(world=dict(qrate=1), world3={})),
    ('C24', ['World', 'Destruct'], dict(world=dict(bombs=True), world3=dict(bombs=True))),
    ('C23', ['Storage'], dict(pair=dict(qrate=0, prate=0.2, vrate=1))),
    ('C25', ['Sparse'], dict(slots={})),
    ('C26', ['Heap'], dict(blocks={})),
    ('C27', ['Keys'], dict(entries={})),
):
    P[_pid].update(mc=_mc, gw=_gw)
