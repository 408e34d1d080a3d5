"""C23: faulty devices stay contained and every simulation makes bounded progress."""
import hashlib
import itertools
import math
from datetime import timedelta

import numpy as np

from dst import deg, seams, world as W
from dst.core import Prop, Violation
from dst.util import must

MAX_EVALS = 1000     # evaluations of one mechanism equation per device and stress step (53 at the time of writing)
MAX_LINES = 3_000_000, 30_000     # executed library lines: flat, and per device and stress step (700 at the time of writing)
GARBAGE = ['nan', 'inf', '-inf', 'zero', 'const', 'huge', 'erratic', 'flip', 'negate', 'growing', 'tiny', 'step']


def noise(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), 'big') / 2 ** 64


def garbage(kind, n, seed, good):
    """Value a faulty device returns at its n-th evaluation since it became faulty."""
    u = noise(seed, n)
    return {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf, 'zero': 0.0, 'const': 3.25, 'huge': 1e300,
            'erratic': (u - 0.5) * 10 ** (40 * noise(seed, n, 'm') - 20), 'flip': math.nan if n % 2 else good,
            'negate': -good, 'growing': 1e5 * n, 'tiny': 5e-324, 'step': good if n % 7 else (u - 0.5) * 1e9}[kind]


class C23(Prop):
    id = 'C23'
    runs = {'quick': 1100, 'thorough': 40000}
    rule = ('Random populations in which a random subset of devices returns undefined, infinite, constant, erratic or '
            'alternating values from a random evaluation on, in mechanism, condition-shift or parameter equations, or starts '
            'with such latent or initial values, with array evaluation refused at random calls. Healthy devices are checked '
            'against the interval reference of C04, failure mechanisms of other parameters for exact equality with a clean '
            'run, evaluations are counted per step. Looped appends run under a budget of executed library lines.')
    measure = 'distinct (garbage kinds, equation, onset quarter, mechanism family, refusal) tuples'
    assumptions = [f'Bounded means at most {MAX_EVALS} evaluations per mechanism, device and stress step',
                   'Healthy devices are judged within the tolerance of C04']
    shrink_lists = ['bad', 'world.steps', 'append.steps']
    shrink_ints = {'world.lots': 1, 'world.chps': 1, 'append.reps': 1}
    known = {'negative-loop': {'append': {'steps': [{'t': 's', 'us': -3600000000}], 'us': 7200000000, 'kind': 'td',
                                          'reps': 2, 'bare': True}}}

    def setup(self):
        seams.lib()
        seams.monitor()

    def gen(self, rng, tier):
        if rng.random() < 0.12:
            steps = [{'t': rng.choice('sm'), 'us': rng.choice([1, 1000, 3_600_000_000, 7_777_777, rng.randint(1, 10 ** 9)])}
                     for _ in range(rng.choice([1, 1, 2, 4]))]
            tot = sum(s['us'] for s in steps if s['t'] == 's')
            reps = rng.choice([1, 2, 3, 10, 100, 400])
            us = max(1, int(tot * reps * rng.choice([1, 1, 0.5, 0.99, 1.01])))
            return {'append': {'steps': steps, 'us': us, 'kind': rng.choice(['td', 'h', 's', 'us']), 'reps': reps,
                               'bare': rng.random() < 0.3}}
        sc = deg.gen_deg_world(rng, ['pow', 'pow', 'vpow', 'log', 'sat', 'thr', 'thrl', 'satl'],
                               [40, 85, 105, 125, 140], rng.choice([1, 2, 3, 4]))
        sc['noise'], sc['abort'] = [], None
        wd, ndev = sc['world'], W.some(rng, [2, 3, 4, 7], W.DEVS)
        while wd['lots'] * wd['chps'] * ndev > 250:
            wd['lots'], wd['chps'], ndev = min(wd['lots'], 60), max(1, wd['chps'] // 2), max(2, ndev // 2)
        sc['ndev'] = ndev
        # a second parameter with a hard failure mechanism, measured beside
        wd['prms']['q'] = {'kind': 'deg', 'init': {'base': 2.0}, 'eqn': None, 'mechs': {'h0': {
            'fam': 'fail', 'unitary': 0, 'unit': None, 'thr': rng.choice([50, 500]), 'val': 4,
            'latents': {'a': W.gen_latent(rng, 0.1, 0.5)}}}}
        for s in wd['steps']:
            if s['t'] == 'm':
                if 'p' in s['counts']:
                    s['counts']['p'] = ndev
                s['counts']['q'] = 2
        for m in wd['prms']['p']['mechs'].values():
            m['latents']['a']['dev'] = [0.8, 1.2] if m['latents']['a'].get('type', 'scaling') == 'scaling' else \
                [-0.1 * m['latents']['a']['base'], 0.1 * m['latents']['a']['base']]
        p = wd['prms']['p']
        eqns = [f'p.{m}' for m in p['mechs']] * 3
        if p.get('cond'):
            p['cond']['latents']['b']['dev'] = [0.8, 1.2] if p['cond']['latents']['b']['type'] == 'scaling' else [-0.1, 0.1]
            eqns.append('p.cond')
        if p['eqn'] == 'ksum':
            p['latents']['k']['dev'] = [0.8, 1.2] if p['latents']['k']['type'] == 'scaling' else [-0.1, 0.1]
            eqns.append('p')
        bad = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            bad.append({'at': [rng.random(), rng.random(), rng.random()], 'kind': rng.choice(GARBAGE),
                        'where': rng.choice(eqns + ['latent', 'init']), 'onset': rng.choice([0.0, rng.random(), rng.random()]),
                        'seed': rng.getrandbits(20)})
        sc.update(bad=bad, refuse=rng.choice([0, 0, 0, 0.2, 1.0]), rseed=rng.getrandbits(32))
        if sc['refuse']:
            wd['steps'] = wd['steps'][:4]
            if not any(s['t'] == 'm' for s in wd['steps']):
                wd['steps'].append({'t': 'm', 'counts': {'p': ndev, 'q': 2}, 'conds': {'mt': 0, 'temp': 25, 'tag': 0.0}, 'name': 'm'})
                if 'x' in wd['prms']:
                    wd['steps'][-1]['counts']['x'] = 1
        return sc

    def append(self, a, ctx):
        import gerabaldi.models as M
        from gerabaldi.exceptions import UserConfigError
        pos = all(s['us'] > 0 for s in a['steps'])
        try:
            steps = [M.StrsSpec({'temp': 1}, timedelta(microseconds=s['us']), name='s') if s['t'] == 's' else
                     M.MeasSpec({'p': 1}, {'temp': 1}, name='m') for s in a['steps']]
        except UserConfigError as e:
            if pos:
                raise Violation('unexpected-exception', f'building a stress step raised UserConfigError: {e}')
            return
        spec = M.TestSpec([])
        arg = steps[0] if a['bare'] and len(steps) == 1 else steps
        td = timedelta(microseconds=a['us'])
        dur, kw = (td, {}) if a['kind'] == 'td' else (td / {'h': timedelta(hours=1), 's': timedelta(seconds=1),
                                                            'us': timedelta(microseconds=1)}[a['kind']], {'time_unit': a['kind']})
        stress = any(s['t'] == 's' for s in a['steps'])
        try:
            with seams.LineCounter(budget=2000 + 100 * (len(steps) + 1) * (a['reps'] + 2)):
                spec.append_steps(arg, dur, **kw)
        except seams.BudgetExceeded as e:
            raise Violation('append-unbounded', f'appending {a["steps"]} for {a["us"]} us does not end: {e}, '
                            f'{len(spec.steps)} steps so far')
        except UserConfigError as e:
            if stress and td > timedelta() and pos:
                raise Violation('unexpected-exception', f'append_steps raised UserConfigError: {e}')
            return
        except UserWarning:
            pass  # the documented notice that the duration is not a whole number of repetitions
        except Exception as e:
            raise Violation('unexpected-exception', f'append_steps raised {type(e).__name__}: {e}')
        ctx.probe('append')
        ctx.sig('append', len(steps), a['kind'], a['reps'])

    def run(self, sc, ctx):
        if 'append' in sc:
            return self.append(sc['append'], ctx)
        wd = sc['world']
        dims = (wd['lots'], wd['chps'], sc['ndev'])
        mechs = list(wd['prms']['p']['mechs'])
        stresses = sum(1 for s in wd['steps'] if s['t'] == 's')
        clean = W.World(wd)
        st0 = self.state(clean, sc)
        calls = {}

        def count(path, kw):
            calls[path] = calls.get(path, 0) + 1
        clean.taps.hook = count
        ref = must(lambda: clean.simulate('t0', None, st0, ctx), 'the simulation without faulty devices')
        w = W.World(wd)
        st = self.state(w, sc)
        bad = {}
        for b in sc['bad']:
            at = tuple(int(f * n) for f, n in zip(b['at'], dims))
            if at in bad or len(bad) == np.prod(dims) - 1:
                continue
            bad[at] = b
            ctx.fault(f'garbage:{b["kind"]}@{"mechanism" if b["where"][:3] == "p.m" else b["where"]}')
            g = garbage(b['kind'], 1, b['seed'], -1.0)
            if b['where'] == 'init':
                vals = st.init_prm_vals['p'] = np.array(st.init_prm_vals['p'], dtype=float)
                vals[at] = g
                st.curr_prm_vals['p'] = vals.copy()
            elif b['where'] == 'latent':
                m = mechs[b['seed'] % len(mechs)]
                vals = st.latent_var_vals['p'][m]['a'] = np.array(st.latent_var_vals['p'][m]['a'], dtype=float)
                vals[at] = g
            ctx.sig(b['kind'], b['where'], int(4 * b['onset']), wd['prms']['p']['mechs'][mechs[0]]['fam'], sc['refuse'] > 0,
                    stresses)
        ident = {}   # (path) -> {latent value: fault}
        for at, b in bad.items():
            if b['where'] in ('init', 'latent'):
                continue
            lat = st.latent_var_vals['p']
            key = {'p.cond': 'b', 'p': 'k'}.get(b['where'], 'a')
            vals = lat['cond']['b'] if key == 'b' else lat['k'] if key == 'k' else lat[b['where'][2:]]['a']
            ident.setdefault(b['where'], []).append((key, float(np.asarray(vals)[at]), at, b))
        n, evals, seen = {}, {}, {}

        def post(path, kw, out):
            n[path] = n.get(path, 0) + 1
            for key, val, at, b in ident.get(path, ()):
                if n[path] < 1 + b['onset'] * calls.get(path, 0):
                    continue
                k = np.asarray(kw[key])
                hit = k == val
                if not np.any(hit):
                    continue
                seen[at] = seen.get(at, 0) + 1
                out = np.array(np.broadcast_to(out, np.broadcast_shapes(np.shape(out), k.shape)), dtype=float)
                for i in np.ndindex(*out.shape):
                    if np.broadcast_to(hit, out.shape)[i]:
                        out[i] = garbage(b['kind'], seen[at], b['seed'], float(out[i]))
                out = out if out.shape else float(out)
            return out
        rs = np.random.Generator(np.random.PCG64(sc['rseed']))
        cap = MAX_EVALS * stresses * int(np.prod(dims))

        def hook(path, kw):
            scal = not any(np.ndim(v) for v in kw.values())
            evals[path] = evals.get(path, 0) + (1 if scal else int(np.prod(dims)))
            if path.split('.')[-1] in mechs and evals[path] > cap:
                raise seams.BudgetExceeded(path)
            if not scal and sc['refuse'] and rs.random() < sc['refuse']:
                ctx.fault('array_refused')
                raise ValueError('simulated: scalars only')
        w.taps.hook, w.taps.post = hook, post
        try:
            with seams.LineCounter(budget=MAX_LINES[0] + MAX_LINES[1] * stresses * int(np.prod(dims))), np.errstate(all='ignore'):
                rep = must(lambda: w.simulate('t0', None, st, ctx), 'a simulation with faulty devices')
        except seams.BudgetExceeded as e:
            raise Violation('unbounded', f'a simulation of {stresses} stress steps with faulty devices {sorted(bad)} does not '
                            f'end: {e} evaluated {evals} times')
        a, b = W.full(ref), W.full(rep)
        if a['summary'] != b['summary']:
            raise Violation('incomplete', f'{len(b["summary"])} steps reported with faulty devices, {len(a["summary"])} without: '
                            f'{next((x for x in zip(a["summary"], b["summary"]) if x[0] != x[1]), None)}')
        if [r[:6] for r in a['rows']] != [r[:6] for r in b['rows']]:
            raise Violation('incomplete', 'the rows reported with faulty devices are not those reported without')
        for x, y in zip(a['rows'], b['rows']):
            if x[0] != 'p' and x[6] != y[6]:
                raise Violation('not-contained', f'{x} without and {y} with faulty devices of another parameter')
        ctx.probe('faulty_evaluations', sum(seen.values()))
        with np.errstate(all='ignore'):
            try:
                deg.judge(sc, ctx, st0, rep, skip=set(bad), prms=('p',))
            except Violation as v:
                raise Violation('not-contained', f'healthy device affected by faulty devices {sorted(bad)}: {v.msg}')
        for x, y in zip(a['rows'], b['rows']):
            if x[0] == 'p' and tuple(x[2:5]) not in bad and (y[6] == 'nan') != (x[6] == 'nan'):
                raise Violation('not-contained', f'{x} without and {y} with faulty devices')

    def state(self, w, sc):
        wd = sc['world']
        w.draws.begin('state')
        return must(lambda: seams.lib().gen_init_state(w.dev, {'p': sc['ndev'], 'q': 2, **({'x': 1} if 'x' in wd['prms'] else {})},
                                                       wd['chps'], wd['lots']), 'generating the initial state')


PROP = C23()
