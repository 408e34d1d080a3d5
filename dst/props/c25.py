"""C25: cookbook recipes hand out independent, pristine objects whatever happened to earlier ones."""
import hashlib
import json
import os
import threading
from datetime import timedelta

import numpy as np
import pandas as pd

from dst import seams, world as W
from dst.core import Prop, Violation
from dst.util import collect, must


class _Scope(threading.local):
    owner, n, seed = None, 0, 0


SCOPE = _Scope()


class Entropy:
    """Seam below numpy's unseeded generators: the operating system's entropy becomes a function of (run, object, request)."""

    def __enter__(self):
        from numpy.random import bit_generator
        self.mod, self.real = bit_generator, bit_generator.randbits

        def randbits(n):
            if SCOPE.owner is None:
                return self.real(n)
            SCOPE.n += 1
            h = hashlib.blake2b(f'{SCOPE.seed}/{SCOPE.owner}/{SCOPE.n}'.encode(), digest_size=64).digest()
            return int.from_bytes(h, 'big') & ((1 << n) - 1)
        bit_generator.randbits = randbits
        return self

    def __exit__(self, *a):
        self.mod.randbits = self.real
        SCOPE.owner = None


class Obj:
    """One handed-out object with everything done to it so far."""

    def __init__(self, spec, seed):
        self.spec, self.seed, self.obj, self.n = spec, seed, None, 0

    def __enter__(self):
        SCOPE.owner, SCOPE.n, SCOPE.seed = self.spec['name'], self.n, self.seed

    def __exit__(self, *a):
        self.n, SCOPE.owner = SCOPE.n, None

    def create(self):
        import gerabaldi.cookbook as C
        k, a = self.spec['kind'], self.spec.get('args', {})
        with self:
            if k == 'htol':
                self.given = dict(a['to_meas'])
                self.obj = C.htol(self.given, **{n: v for n, v in a.items() if n != 'to_meas'})
                if self.given != a['to_meas']:
                    raise Violation('input-changed', f'the measurement counts handed to the recipe became {self.given}')
                total = sum((s.duration for s in self.obj.steps if hasattr(s, 'duration')), timedelta())
                if total != timedelta(hours=a['duration_override']):
                    raise Violation('htol-duration', f'{a}: the stresses add up to {total}')
            else:
                self.obj = {'ideal': C.ideal_env, 'vt': C.volt_and_temp_env, 'nbti': C.jedec_nbti_mdl}[k]()

    def sim(self, ctx, op):
        import gerabaldi.cookbook as C
        import gerabaldi.models as M
        spec = self.obj if self.spec['kind'] == 'htol' else C.htol({'vth': 2, 'temp': 1}, num_chps_override=2, num_lots_override=1,
                                                                   duration_override=100, strs_meas_intrvl=50)
        env = self.obj if self.spec['kind'] in ('ideal', 'vt') else C.volt_and_temp_env()
        mech = self.obj if self.spec['kind'] == 'nbti' else C.jedec_nbti_mdl()
        dev = M.DeviceMdl({'vth': M.DegPrmMdl({'nbti': mech})}, time_unit=['h', None][op['var'] % 2])
        if ctx is not None:
            ctx.sims += 1
            ctx.sim_us += sum(int(s.duration / timedelta(microseconds=1)) for s in spec.steps if hasattr(s, 'duration'))
        if op.get('abort'):
            lc = seams.LineCounter(op['abort'], seams.SimKeyboardInterrupt('simulated'))
            try:
                with lc:
                    seams.lib().simulate(spec, dev, env)
            except seams.SimKeyboardInterrupt:
                pass
            if ctx is not None and lc.hit:
                ctx.fault('abort_before')
            return None
        return W.full(seams.lib().simulate(spec, dev, env))

    def do(self, op, ctx=None):
        """Result of one operation on the object (compared with the same history in isolation)."""
        import gerabaldi.models as M
        o, k, v = self.obj, self.spec['kind'], op['var']
        with self:
            if op['op'] == 'sim':
                return self.sim(ctx, op)
            if k == 'htol':
                s = o.steps[v % len(o.steps)] if o.steps else None
                if op['op'] == 'append':
                    o.append_steps(M.StrsSpec({'temp': 300.0, 'vdd': 1.0}, timedelta(hours=v + 1)))
                elif op['op'] == 'drop' and len(o.steps) > 1:
                    o.steps.pop(v % len(o.steps))
                elif s is not None:
                    s.conditions['temp'] = 300.0 + v
                    if hasattr(s, 'measurements'):
                        s.measurements['vth'] = 1 + v % 2
                    else:
                        s.duration = timedelta(hours=1 + v)
                o.num_chps = 1 + v % 2 if op['op'] == 'append' else o.num_chps
                return None
            if k in ('ideal', 'vt'):
                if op['op'] == 'draw':
                    return self.show()
                if op['op'] == 'edit':
                    m = o.vrtn_mdl(['temp', 'vdd'][v % 2])
                    if v % 3 == 0:
                        m.batch_vrtn_mdl = M.Deterministic(float(v))
                    elif v % 3 == 1:
                        m.chp_vrtn_mdl = None
                    else:
                        m.vrtn_type = 'scaling'
                    if k == 'vt':
                        o.meas_instm('temp').name = f'edited {v}'
                        rv = o.vrtn_mdl('temp').dev_vrtn_mdl
                        if hasattr(rv, 'mu'):
                            rv.mu = v * 0.25
                elif op['op'] == 'attach':
                    setattr(o, 'vdd_var', M.EnvVrtnMdl(dev_vrtn_mdl=M.Normal(0, 0.1)))
                return None
            if op['op'] == 'draw':
                return self.show()
            lv = o.latent_var(['a_0', 'e_aa', 'alpha', 'n'][v % 4])
            if op['op'] == 'edit':
                if v % 2:
                    lv.dev_vrtn_mdl = M.Normal(0.5 + v, 0.1)
                else:
                    lv.deter_val = 0.01 * v + 0.5
                if hasattr(lv.dev_vrtn_mdl, 'mu') and v % 3 == 0:
                    lv.dev_vrtn_mdl.mu = 0.02 * v
                lv.name = f'edited{v}'
            elif op['op'] == 'attach':
                o.name, o.time_unit = f'mech{v}', ['s', 'ms', 'h'][v % 3]
            return None

    def show(self):
        """What the object is and does now, as plain values."""
        o, k = self.obj, self.spec['kind']
        if k == 'htol':
            return [o.name, o.description, o.num_chps, o.num_lots, [
                [type(s).__name__, s.name, sorted(s.conditions.items()), sorted(getattr(s, 'measurements', {}).items()),
                 str(getattr(s, 'duration', None))] for s in o.steps]]
        if k in ('ideal', 'vt'):
            out = [o.name]
            for _ in range(2):
                vals = o.gen_env_cond_vals({'temp': 398.15, 'vdd': 1.2}, {'temp': 2, 'vdd': 1}, num_chps=2)
                out.append({p: {c: np.asarray(x).ravel().tolist() for c, x in d.items()} for p, d in vals.items()})
            for p in ('temp', 'vdd', 'other'):
                i = o.meas_instm(p)
                out.append([i.name, [W.num(x) for x in i.measure(pd.Series([398.15, 1.2, 0.0, 1e9]))]])
            return out
        vals = o.gen_latent_vals(2, 2, 1)
        out = [o.name, o.unitary, o.time_unit, {n: np.asarray(x).ravel().tolist() for n, x in vals.items()}]
        out.append([o.latent_var(n).name for n in sorted(vals)])
        out.append(W.num(o.compute(a_0=0.006, e_aa=-0.05, temp=400.0, vdd=1.2, alpha=3.4, time=100.0, n=0.2)))
        return out

    def final(self):
        with self:
            return self.show()


def in_child(fn):
    """Result of fn in a forked copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                ans = {'ok': fn()}
            except Violation as v:
                ans = {'viol': [v.kind, v.msg]}
            except BaseException as e:
                ans = {'exc': f'{type(e).__name__}: {e}'}
            with os.fdopen(w, 'w') as f:
                json.dump(ans, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    ans = json.loads(data)
    if 'viol' in ans:
        raise Violation(*ans['viol'])
    if 'exc' in ans:
        raise Violation('unexpected-exception', f'a recipe used alone raised {ans["exc"]}')
    return ans['ok']


OPS = {'htol': ['append', 'edit', 'drop', 'sim'], 'ideal': ['draw', 'edit', 'attach', 'sim'],
       'vt': ['draw', 'edit', 'edit', 'attach', 'sim'], 'nbti': ['draw', 'edit', 'edit', 'attach', 'sim']}


class C25(Prop):
    id = 'C25'
    runs = {'quick': 500, 'thorough': 30000}
    rule = ('Random histories over 2-5 objects handed out by the cookbook recipes: creations, edits of any part, appends, draws, '
            'whole simulations (some aborted at a random line) interleaved in random order, or one thread per object under a '
            'seeded line-level schedule; every object must behave and draw as in a process where it is the only one.')
    measure = 'distinct interleaved operation histories, plus switch sequences'
    assumptions = ['Entropy handed to unseeded generators is a function of the object and the request']
    stub = Prop.stub + ['operating system entropy below numpy generators (seeded per object)']
    shrink_lists = ['order', 'sched.force', 'objs.*.ops', 'objs']
    shrink_ints = {}

    def setup(self):
        import importlib
        # generators the library makes while it is imported are also a function of the run, not of the machine
        with Entropy():
            SCOPE.owner, SCOPE.n, SCOPE.seed = 'import', 0, 0
            seams.lib()
            importlib.import_module('gerabaldi.cookbook')
        seams.monitor()

    def gen(self, rng, tier):
        conc = rng.random() < 0.3
        objs = []
        for i in range(rng.choice([2, 2, 3, 5])):
            k = rng.choice(['htol', 'ideal', 'vt', 'vt', 'nbti', 'nbti'])
            if objs and rng.random() < 0.5:
                k = objs[-1]['kind']
            o = {'name': f'o{i}', 'kind': k, 'ops': []}
            if k == 'htol':
                iv = rng.choice([10, 50, 100, 1000])
                o['args'] = {'to_meas': rng.choice([{'vth': 2}, {'vth': 1, 'temp': 1}]), 'strs_meas_intrvl': iv,
                             'duration_override': rng.choice([iv, iv * 2, iv * 4]), 'num_chps_override': rng.choice([1, 2]),
                             'num_lots_override': 1, 'vdd_nom': rng.choice([0.8, 1.0]), 'temp_override': rng.choice([125, 85])}
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                op = {'op': rng.choice(OPS[k]), 'var': rng.randint(0, 11)}
                if op['op'] == 'sim' and not conc and rng.random() < 0.3:
                    op['abort'] = rng.choice([1, 5, 40, 200, rng.randint(1, 3000)])
                o['ops'].append(op)
            objs.append(o)
        order = [o['name'] for o in objs for _ in range(len(o['ops']) + 1)]
        rng.shuffle(order)
        return {'seed': rng.getrandbits(32), 'objs': objs, 'order': order, 'sched': seams.gen_sched(rng, seams.LIBFILES) if conc else None}

    def history(self, spec, seed, ctx=None):
        """Generator over the steps of one object's life, yielding results."""
        o = Obj(spec, seed)
        o.create()
        yield None
        for op in spec['ops']:
            yield o.do(op, ctx)
        while True:
            yield o.final()

    def run(self, sc, ctx):
        def life(o, c=None):
            h = self.history(o, sc['seed'], c)
            return [next(h) for _ in range(len(o['ops']) + 2)]

        with Entropy():
            alone = {o['name']: in_child(lambda o=o: life(o)) for o in sc['objs']}
            ctx.fault('fresh_process', len(sc['objs']))
            got = {}
            if sc['sched']:
                sch = seams.Sched(sc['sched'], len(sc['objs']), ctx)
                res = sch.run([lambda o=o: life(o, ctx) for o in sc['objs']], [o['name'] for o in sc['objs']])
                got = dict(zip((o['name'] for o in sc['objs']), collect(res, 'concurrent recipes')))
            else:
                lives = {o['name']: (o, self.history(o, sc['seed'], ctx)) for o in sc['objs']}
                got = {n: [] for n in lives}
                left = {n: len(o['ops']) + 1 for n, (o, _) in lives.items()}
                for n in sc['order'] + [n for n in lives for _ in range(left[n])]:
                    if n in lives and left[n]:
                        left[n] -= 1
                        got[n].append(must(lambda: next(lives[n][1]), f'using {lives[n][0]["kind"]} object {n}'))
                for n in lives:
                    got[n].append(must(lambda: next(lives[n][1]), f'using {lives[n][0]["kind"]} object {n}'))
        for o in sc['objs']:
            a, b = alone[o['name']], json.loads(json.dumps(got[o['name']]))
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    what = 'at the end' if i > len(o['ops']) else f'by operation {o["ops"][i - 1]}' if i else 'at creation'
                    raise Violation('not-independent', f'{o["kind"]} object {o["name"]} differs {what} from one used alone: '
                                    + first_diff(x, y))
        ends = {}
        for o in sc['objs']:
            if o['kind'] in ('vt', 'nbti') and not o['ops']:
                f = json.dumps(alone[o['name']][-1])
                if (o['kind'], f) in ends:
                    raise Violation('same-draws', f'{o["kind"]} objects {ends[o["kind"], f]} and {o["name"]} draw the same values')
                ends[o['kind'], f] = o['name']
        ctx.sig([(o['kind'], [p['op'] for p in o['ops']]) for o in sc['objs']], sc['order'])


def first_diff(x, y, path=''):
    if type(x) is type(y) and isinstance(x, list) and len(x) == len(y):
        for i, (a, b) in enumerate(zip(x, y)):
            if a != b:
                return first_diff(a, b, f'{path}[{i}]')
    if type(x) is type(y) and isinstance(x, dict) and set(x) == set(y):
        for k in x:
            if x[k] != y[k]:
                return first_diff(x[k], y[k], f'{path}.{k}')
    return f'{path} {str(x)[:120]} / {str(y)[:120]}'


PROP = C25()
