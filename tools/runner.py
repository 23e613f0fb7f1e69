import fcntl
import concurrent.futures, glob, json, os, re, resource, shutil, subprocess, sys, time
import random
import gw
import plan

ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
SPEC = os.path.join(ROOT, 'spec')
HARNESS = os.path.join(ROOT, 'harness')
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
WORKERS = os.cpu_count() or 4
# Profiles and graphs that are not driven by `sv`.
BINARY = dict(wide='svw', sparse='sparse', slots='sparse', heap='heap', blocks='heap', keys='keys', entries='keys')
# Those whose traces another specification judges.
JUDGE = dict(sparse='SparseTrace', heap='HeapTrace', keys='KeysTrace')


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def limit(gib):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gib << 30, gib << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def build(profile='dev', bins=('sv',)):
    args = ['cargo', 'build', '--offline', '--quiet', '--profile', profile]
    for b in bins:
        args += ['--bin', b]
    # Compiles the scheduling points in.
    env = dict(os.environ, RUSTFLAGS='--cfg sparsey_verif')
    p = subprocess.run(args, cwd=HARNESS, capture_output=True, text=True, env=env)
    if p.returncode != 0:
        raise ToolError('harness does not build:\n' + p.stderr[p.stderr.find("\nerror"):][:3000])
    return os.path.join(HARNESS, 'target', 'debug' if profile == 'dev' else profile)


def tlc(module, cfg, meta, workers=1, heap='2g', timeout=600, extra=()):
    """Runs TLC on spec/<module>.tla with the given configuration file."""
    tmp = meta + '.tmp'
    os.makedirs(tmp, exist_ok=True)
    args = ['java', f'-Djava.io.tmpdir={tmp}', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss16m',
            '-cp', CP, 'tlc2.TLC', '-noTE', '-workers', str(workers), '-metadir', meta,
            '-config', cfg, *extra, os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(args, cwd=SPEC, capture_output=True, text=True, timeout=timeout)
        return p.stdout
    except subprocess.TimeoutExpired as e:
        raise ToolError(f'TLC timed out on {cfg}')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


def tla_set(xs):
    return '{' + ', '.join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + '}'


class Check:
    def __init__(self, pid, tier, seed, clean=True):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.plan = plan.P[pid]
        self.out = os.path.join(ROOT, 'out', f'{pid}')
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.models = [], [], []
        self.kinds = {}
        if clean:
            # One run at a time in this directory.
            os.makedirs(os.path.join(ROOT, 'out'), exist_ok=True)
            self.lock = open(self.out + '.lock', 'w')
            fcntl.flock(self.lock, fcntl.LOCK_EX)
            shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out, exist_ok=True)

    # ---- trace validation -------------------------------------------------
    def trace_cfg(self, trace, module):
        cfg = trace + '.cfg'
        if module in ('Limits', 'KeysTrace'):
            with open(cfg, 'w') as f:
                f.write(f'SPECIFICATION Spec\nCONSTANT TraceFile = "{trace}"\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Report\n')
            return cfg
        if module == 'SparseTrace':
            with open(cfg, 'w') as f:
                f.write(f'SPECIFICATION Spec\nCONSTANTS\n  TraceFile = "{trace}"\n  Vec = {{1, 2}}\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Report\n')
            return cfg
        if module == 'HeapTrace':
            with open(cfg, 'w') as f:
                f.write(f'SPECIFICATION Spec\nCONSTANTS\n  TraceFile = "{trace}"\n  Fixed = 16384\n  Each = 2048\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Report\n')
            return cfg
        wide = os.path.basename(trace).startswith('wide')
        comps = tla_set(range(10, 82)) if wide else '{0, 1, 2, 3, 4, 5}'
        with open(cfg, 'w') as f:
            f.write('SPECIFICATION TraceSpec\nCONSTANTS\n'
                    f'  TraceFile = "{trace}"\n  Aspects = {tla_set(sorted(self.plan["aspects"]))}\n'
                    f'  Tracked = {{0, 2, 3, 4, 5}}\n  Comp = {comps}\n  Zst = {{3}}\n  Yes = TRUE\n  No = FALSE\n  Retired <- NeverRetired\n'
                    'INVARIANT Inv\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Report\n')
        return cfg

    def saved(self, cmds, upto, name, what):
        """The commands of the failing world, as a replay file."""
        lines = []
        if os.path.exists(cmds):
            with open(cmds) as f:
                lines = f.read().splitlines()
        lines = lines[:upto] if upto else lines
        start = max((i for i, c in enumerate(lines) if '"ev":"new"' in c), default=0)
        path = os.path.join(self.out, name + '.replay')
        with open(path, 'w') as f:
            f.write('\n'.join(lines[start:]) + '\n')
        with open(path + '.txt', 'w') as f:
            f.write(what + f'\n\nReplay: {ROOT}/bin/replay {self.pid} {path}\n')
        return path

    def validate(self, name, cmd, timeout=120, interpreter=False, module='Trace'):
        """Runs a driver that writes a trace, and validates the trace."""
        trace = os.path.join(self.out, name + '.nd')
        cmds = trace + '.cmds'
        try:
            p = subprocess.run([c.replace('@OUT', trace) for c in cmd], capture_output=True, text=True,
                               timeout=timeout, preexec_fn=limit(12 if interpreter else 3))
        except subprocess.TimeoutExpired:
            if interpreter:
                raise ToolError('the interpreter is too slow')
            what = 'the code under test does not return'
            raise Violation(what, self.saved(cmds, 0, name, what))
        if p.returncode != 0 and interpreter and not re.search(r'error: Undefined Behavior|panicked at', p.stderr):
            raise ToolError(p.stderr[-300:])
        if p.returncode != 0:
            what = f'the code under test ends the process (status {p.returncode}):\n' + p.stderr[-2000:]
            raise Violation(what, self.saved(cmds, 0, name, what))
        out = tlc(module, self.trace_cfg(trace, module), trace + '.meta')
        done = re.search(r'<<"DONE", (\d+), (\d+)>>', out)
        rej = re.search(r'<<\s*"REJECT",\s*(\d+),\s*"(\w+)",(.*?)>>\s*$', out, re.S | re.M)
        stop = re.search(r'<<"STOP", (\d+), "(\w+)">>', out)
        if rej:
            line = int(rej.group(1))
            with open(trace) as f:
                evs = f.read().splitlines()
            what = (f'event {line} of {trace} is not allowed by spec/{dict(Trace="World", SparseTrace="Sparse", HeapTrace="Heap", KeysTrace="Keys").get(module, module)}.tla, aspect "{rej.group(2)}": '
                    f'{" ".join(rej.group(3).split())[:1500]}\nevent: {evs[line - 1][:3000]}')
            # Events and commands differ in number: guards are one command.
            upto = sum(1 for e in evs[:line] if '"ev":"acq"' not in e and '"ev":"rel"' not in e)
            raise Violation(what, self.saved(cmds, upto, name, what))
        if not done or 'Error' in out:
            raise ToolError(f'TLC failed on {trace}:\n{out[-3000:]}')
        n = int(done.group(2))
        if not stop and int(done.group(1)) != n:
            raise ToolError(f'trace {trace} only judged up to {done.group(1)} of {n} without a rejection')
        kinds = {}
        sample = []
        with open(trace) as f:
            for i, e in enumerate(f):
                k = re.search(r'"ev":"(\w+)"', e).group(1)
                kinds[k] = kinds.get(k, 0) + 1
                if n // 2 <= i < n // 2 + 2:
                    sample.append(e.strip()[:400])
        if not self.keep:
            os.remove(trace)
            os.remove(cmds)
        return dict(name=name, events=int(done.group(1)), kinds=kinds, sample=sample,
                    stopped=stop.groups() if stop else None)

    # ---- the real limits --------------------------------------------------
    def limits(self, which):
        """Uses up all versions of an index, or all indices: some thousand
        million operations, in an optimised build.  Says nothing if this
        machine is too slow for that."""
        bindir = build('release', bins=['limits'])
        name = 'limits-' + which
        with open(os.path.join(self.out, name + '.nd.cmds'), 'w') as f:
            f.write(json.dumps(dict(ev='limits', which=which)) + '\n')
        try:
            return self.validate(name, ['bash', '-c', f'exec {bindir}/limits {which} > @OUT'], 420 if self.tier == 'quick' else 1800, interpreter=True,
                                 module='Limits')
        except ToolError as e:
            self.notes.append(f'{name}: {str(e)[:300]}')
            return None

    # ---- bounded models ---------------------------------------------------
    def cfg(self, base, name, **over):
        """A configuration from spec/cfg with some constants replaced."""
        with open(os.path.join(SPEC, 'cfg', base + '.cfg')) as f:
            text = f.read()
        for k, v in over.items():
            text, n = re.subn(rf'^(\s*){k} (=|<-) .*$', lambda m: m.group(1) + k + ' ' + v, text, flags=re.M)
            if n != 1:
                raise ToolError(f'{base}.cfg has no constant {k}')
        path = os.path.join(self.out, name + '.cfg')
        with open(path, 'w') as f:
            f.write(text)
        return path

    def model(self, name, module, base, over, workers=2, defect=False):
        """Model checks one configuration exhaustively.  With a defect
        switched in, the model has to have a counterexample."""
        cfg = self.cfg(base, 'mc-' + name, **over)
        out = tlc(module, cfg, cfg + '.meta', workers=workers, heap='3g', timeout=3000)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        violated = re.search(r'(Invariant|Action property|Temporal properties).* (is|are|were) violated|Temporal properties were violated', out)
        if defect:
            if not violated:
                raise ToolError(f'model {name}: the defect is not detected:\n{out[-2000:]}')
            return dict(name=name, defect_detected=violated.group(0))
        if violated or 'No error has been found' not in out or not m:
            # The specification itself is wrong: nothing about the code.
            raise ToolError(f'model {name} fails:\n{out[-3000:]}')
        return dict(name=name, constants=over, states=int(m.group(2)), transitions=int(m.group(1)))

    def mc_jobs(self):
        thorough = self.tier == 'thorough'
        for name in self.plan.get('mc', ()):
            m = plan.MODELS[name]
            yield name, m['module'], m['cfg'], m.get('quick', {})
            if thorough:
                for i, over in enumerate(m.get('thorough', ())):
                    yield f'{name}-big{i}', m['module'], m['cfg'], over, 4
                for d, over in m.get('defects', {}).items():
                    yield f'{name}-defect-{d}', m['module'], m['cfg'], dict(over, Defect=f'= "{d}"'), 2, True

    # ---- transitions of a model, replayed ---------------------------------
    def graph(self, name):
        """Dumps the transition graph of a configuration and writes the walks
        that cover it as command files."""
        g = plan.GRAPHS[name]
        opts = dict(g['opts'], **self.plan['gw'][name])
        thorough = self.tier == 'thorough'
        over = g.get('thorough' if thorough else 'quick', g['quick'])
        if thorough:
            opts.update(g.get('thorough_opts', {}))
        cfg = self.cfg(g['cfg'], 'gw-' + name, **over)
        out = tlc(g['module'], cfg, cfg + '.meta', workers=1, heap='4g', timeout=1500)
        if 'No error has been found' not in out:
            raise ToolError(f'graph {name} fails:\n{out[-3000:]}')
        es = gw.edges(out)
        rng = random.Random(self.seed * 7919 + len(name))
        graph, worlds = gw.KINDS[g['kind']](es, self.guards if g['kind'] == 'borrows' else self.catalogue, rng, opts)
        cmds, files, batch = [], [], 0
        for world in worlds:
            cmds += world
            if len(cmds) >= 2500:
                files.append(cmds)
                cmds = []
        if cmds:
            files.append(cmds)
        jobs = []
        for i, cmds in enumerate(files):
            path = os.path.join(self.out, f'{name}-{i}.in')
            with open(path, 'w') as f:
                f.write('\n'.join(map(json.dumps, cmds)) + '\n')
            binary = BINARY.get(name, 'sv')
            how = (120, False, JUDGE[binary]) if binary in JUDGE else ()
            jobs.append((f'{name}-{i}', [f'{self.bindir}/{binary}', 'replay', path, '@OUT'], *how))
        self.models.append(dict(name='graph ' + name, constants=over, states=len(graph.states),
                                transitions=graph.n, replayed=graph.n - graph.uncovered))
        return jobs

    # ---- traces recorded under an interpreter -----------------------------
    # Miri delays stores, fails weak compare-exchanges for no reason and
    # preempts threads anywhere, none of which this machine does by itself.
    def interpreted(self, seed, rounds, miri_seed):
        flags = f'-Zmiri-disable-stacked-borrows -Zmiri-preemption-rate=0.2 -Zmiri-seed={miri_seed}'
        return ['env', 'RUSTFLAGS=-Znext-solver=coherence --cfg sparsey_verif', f'MIRIFLAGS={flags}', 'CARGO_TERM_COLOR=never',
                'bash', '-c', f'cd {HARNESS} && exec cargo +nightly miri run --offline --quiet --bin light -- {seed} {rounds} > @OUT']

    def interpret(self, seed, rounds, miri_seed, timeout=400):
        """Records and judges one such trace.  Says nothing if the
        interpreter cannot be used."""
        name = f'miri-{seed}-{miri_seed}'
        with open(os.path.join(self.out, name + '.nd.cmds'), 'w') as f:
            f.write(json.dumps(dict(ev='miri', seed=seed, rounds=rounds, miri_seed=miri_seed)) + '\n')
        try:
            return self.validate(name, self.interpreted(seed, rounds, miri_seed), timeout, interpreter=True)
        except ToolError as e:
            self.notes.append(f'{name}: {str(e)[:300]}')
            return None

    def miri_jobs(self):
        n, rounds = self.plan['miri']
        if self.tier == 'thorough':
            n *= 8
        # The first one compiles.
        if self.interpret(self.seed * 1000, 2, 0) is None:
            return []
        return [(self.seed * 1000 + i, rounds, self.seed * 77 + i) for i in range(1, n + 1)]

    def tv_jobs(self, bindir):
        thorough = self.tier == 'thorough'
        events = plan.EVENTS[self.tier]
        n = 0
        jobs = [(p, c * (plan.THOROUGH if thorough else 1)) for p, c in self.plan.get('tv', {}).items()]
        if thorough:
            # Many components as well as many entities take minutes to judge.
            jobs += [(p.replace('scale', 'vast'), 2) for p, _ in jobs if p.startswith('scale')]
        for profile, count in jobs:
            for i in range(count):
                n += 1
                seed = self.seed * 100003 + n * 131 + 7
                binary = BINARY.get(profile, 'sv')
                how = (120, False, JUDGE[binary]) if binary in JUDGE else ()
                yield f'{profile}-{i}', [f'{bindir}/{binary}', 'drive', profile, str(seed), str(events), '@OUT'], *how

    # Users' builds check no debug assertions, and do nothing that is done
    # only inside of one.
    def plain_jobs(self):
        tv = self.plan.get('tv', {})
        profile = max(tv, key=tv.get)
        binary = BINARY.get(profile, 'sv')
        t0 = time.time()
        bindir = build('plain', bins=[binary])
        self.notes.append(f'plain build {time.time() - t0:.1f}s')
        how = (120, False, JUDGE[binary]) if binary in JUDGE else ()
        for i in range(4 if self.tier == 'thorough' else 1):
            seed = self.seed * 100003 + i * 17 + 3
            yield f'{profile}-plain{i}', [f'{bindir}/{binary}', 'drive', profile, str(seed), str(plan.EVENTS[self.tier]), '@OUT'], *how

    # ---- everything -------------------------------------------------------
    def run(self):
        t0 = time.time()
        self.bindir = bindir = build(bins=['sv'] + sorted({BINARY[p] for p in self.plan.get('tv', {}) if p in BINARY}))
        self.notes.append(f'build {time.time() - t0:.1f}s')
        if self.plan.get('gw'):
            out = subprocess.run([bindir + '/sv', 'catalogue'], capture_output=True, text=True).stdout
            lines = [json.loads(l) for l in out.splitlines()]
            self.catalogue = [q for q in lines if 'q' in q]
            self.guards = [g for g in lines if 'g' in g]
        first = None
        errors = []
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            graphs = {ex.submit(self.graph, n): n for n in self.plan.get('gw', ())}
            models = {ex.submit(self.model, *j) for j in self.mc_jobs()}
            miris = {ex.submit(self.miri_jobs)} if self.plan.get('miri') else set()
            plain = {ex.submit(lambda: list(self.plain_jobs()))}
            limits = {ex.submit(self.limits, w) for w in self.plan.get('limits', ())}
            pending = set(graphs) | models | miris | limits | plain | {ex.submit(self.validate, *j) for j in self.tv_jobs(bindir)}
            while pending:
                done, pending = concurrent.futures.wait(pending, return_when=concurrent.futures.FIRST_COMPLETED)
                for f in done:
                    try:
                        r = f.result()
                    except concurrent.futures.CancelledError:
                        continue
                    except Violation as v:
                        first = first or v
                        for j in pending:
                            j.cancel()
                        continue
                    except Exception as e:
                        errors.append(e)
                        continue
                    if f in graphs or f in plain:
                        if first is None:
                            pending |= {ex.submit(self.validate, *j) for j in r}
                    elif f in miris:
                        if first is None:
                            pending |= {ex.submit(self.interpret, *j) for j in r}
                    elif r is None:
                        continue
                    elif f in models:
                        self.models.append(r)
                        self.states += r.get('states', 0)
                        self.transitions += r.get('transitions', 0)
                    else:
                        self.traces += 1
                        self.events += r['events']
                        for k, v in r['kinds'].items():
                            self.kinds[k] = self.kinds.get(k, 0) + v
                        if len(self.samples) < 3:
                            self.samples.append(dict(trace=r['name'], events=r['events'], excerpt=r['sample']))
                        if r['stopped']:
                            self.notes.append(f'{r["name"]}: judged up to event {r["stopped"][0]}: {r["stopped"][1]}')
        if first is None and errors:
            raise ToolError('\n'.join(str(e) for e in errors[:3]))
        self.wall = time.time() - t0
        return first

    def evidence(self, violation):
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        doc = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
            coverage=dict(
                states=self.states, transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                events_validated=self.events,
                events_by_kind=self.kinds,
                aspects=sorted(self.plan['aspects']),
                models=self.models,
                samples=self.samples or ['none completed'],
                notes=self.notes,
            ),
            wall_s=round(self.wall, 1),
            violations=0 if violation is None else 1,
        )
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(doc, f, indent=1)


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    check = Check(pid, tier, seed)
    check.keep = os.environ.get('VERIF_KEEP') == '1'
    try:
        v = check.run()
    except ToolError as e:
        print(f'TOOL ERROR in check {pid}: {e}')
        return 2
    check.evidence(v)
    if v is None:
        print(f'{pid}: held on {check.traces} traces with {check.events} events, '
              f'{check.states} model states, {check.wall:.0f}s')
        return 0
    print(v.what)
    print(f'VIOLATION property={pid} replay={v.replay}')
    return 1
