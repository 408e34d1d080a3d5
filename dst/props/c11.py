"""C11: a reported device number denotes the same physical device throughout."""
import itertools

import numpy as np

from dst import deg, seams, world as W
from dst.core import Prop, Violation
from dst.util import close, must


class C11(Prop):
    id = 'C11'
    runs = {'quick': 1400, 'thorough': 50000}
    rule = ('Random populations (unequal lots, chips and devices), parameters with per-device initial values, mechanism and '
            'shift latents, circuits over them, sensors, never-measured parameters and per-step device counts, from a '
            'supplied (larger) or self-generated state, some with refused array evaluations, concurrent simulations or an '
            'aborted run before; every row against the value of the labelled device.')
    measure = 'distinct (population, per-step counts, parameter kinds) configurations, plus switch sequences'
    assumptions = ['Per-device values are read from the documented SimState attributes, or, for self-generated states, '
                   'judged by consistency across steps']
    shrink_lists = ['noise', 'sched.force', 'world.steps', 'world.prms']
    shrink_ints = {'world.lots': 1, 'world.chps': 1}

    def setup(self):
        seams.lib()
        seams.monitor()

    def gen(self, rng, tier):
        names = ['p', 'q', 'r', 'z'][:rng.choice([1, 2, 3, 4])]
        prms = {}
        for n in names:
            p = {'kind': 'deg', 'init': {'type': 'scaling', 'base': 50.0, 'dev': [0.5, 1.5]}, 'mechs': {
                'm': {'fam': rng.choice(['lat', 'latf']), 'unitary': 0,
                      'latents': {'a': {'type': 'scaling', 'base': 7.0, 'dev': [0.5, 1.5]}}}}}
            if rng.random() < 0.4:
                p['cond'] = {'fam': 'mtlin', 'unitary': 0, 'latents': {'b': {'type': 'scaling', 'base': 2.0, 'dev': [0.5, 1.5]}}}
            if rng.random() < 0.4:
                p['eqn'] = 'ksum'
                p['latents'] = {'k': {'type': 'scaling', 'base': 1.5, 'dev': [0.5, 1.5]}}
            prms[n] = p
        for o in ['osc', 'amp'][:rng.choice([0, 1, 1, 2])]:
            args = rng.sample(names, rng.randint(1, len(names))) + (['c'] if rng.random() < 0.7 else []) + \
                (['mt'] if rng.random() < 0.4 else [])
            rng.shuffle(args)
            prms[o] = {'kind': 'circ', 'args': args,
                       'latents': {'c': {'type': 'scaling', 'base': 3.0, 'dev': [0.5, 1.5]}} if 'c' in args else {}}
        items = list(prms.items())
        rng.shuffle(items)
        prms = dict(items)
        ndev = W.some(rng, [1, 2, 3, 5], W.DEVS)
        steps = []
        pool = rng.sample(sorted(prms), rng.randint(1, len(prms)))
        for i in range(rng.choice([1, 2, 3, 5])):
            if rng.random() < 0.4:
                steps.append({'t': 's', 'us': W.gen_us(rng), 'conds': {'temp': 100}, 'name': 's'})
            counts = [(p, rng.randint(1, ndev)) for p in rng.sample(pool, rng.randint(1, len(pool)))]
            if rng.random() < 0.4:
                counts.insert(rng.randint(0, len(counts)), (rng.choice(['mt', 'hum']), rng.randint(1, 4)))
            steps.append({'t': 'm', 'counts': dict(counts), 'conds': {'mt': rng.choice([0, 25, 125]), 'hum': 0.5},
                          'name': 'm'})
        wd = {'seed': rng.getrandbits(32), 'lots': W.some(rng, [1, 2, 3, 4], W.LOTS), 'chps': W.some(rng, [1, 2, 3], W.CHPS), 'prms': prms,
              'unit': 'h', 'env': {}, 'instms': {}, 'steps': steps, 'forms': rng.random() < 0.25, 'scalar': W.gen_scalar(rng)}
        sc = {'world': wd, 'ndev': ndev, 'scounts': {p: ndev + rng.choice([0, 0, 1, 3]) for p in prms},
              'own': rng.random() < 0.4, 'refuse': rng.choice([0, 0, 0.5]), 'rseed': rng.getrandbits(32)}
        sc = deg.chaos(rng, sc)
        if sc['own']:
            sc['noise'], sc['abort'] = [], None
        return sc

    def run(self, sc, ctx):
        wd = sc['world']
        w = W.World(wd)
        circ = [p for p in wd['prms'] if wd['prms'][p]['kind'] == 'circ']
        if sc['refuse']:
            rs = np.random.Generator(np.random.PCG64(sc['rseed']))

            def hook(path, kw):
                if path not in circ and any(np.ndim(v) for v in kw.values()) and rs.random() < sc['refuse']:
                    ctx.fault('array_refused')
                    raise ValueError('simulated: scalars only')
            w.taps.hook = hook
        st = None
        if sc['own']:
            rep = must(lambda: w.simulate('t0', None, None, ctx), 'the simulation')
        else:
            _, st, rep = deg.run_world(sc, ctx, w)
        got = {}
        for p, i, l, c, d, t, v in W.rows(rep):
            got.setdefault((i, p), []).append(((l, c, d), v))
        stressed, fixed = False, {}
        for i, s in enumerate(wd['steps']):
            if s['t'] == 's':
                stressed = True
                continue
            for p, n in s['counts'].items():
                rws = got.pop((i, p), [])
                if p not in wd['prms']:
                    if [r[0] for r in rws] != [(None, None, None)] * n:
                        raise Violation('sensor-rows', f'step {i}: {len(rws)} rows {[r[0] for r in rws]} for {n} sensors of {p}')
                    if any(r[1] != s['conds'][p] for r in rws):
                        raise Violation('sensor-rows', f'step {i}: sensors of {p} read {[r[1] for r in rws]}')
                    continue
                want = sorted(itertools.product(range(wd['lots']), range(wd['chps']), range(n)))
                if any(None in r[0] for r in rws) or sorted(r[0] for r in rws) != want:
                    raise Violation('labels', f'step {i} {p}: rows labelled {[r[0] for r in rws]}, requested {n} devices on '
                                    f'{wd["lots"]}x{wd["chps"]} chips')
                for at, v in rws:
                    what = f'step {i} {p} lot {at[0]} chip {at[1]} device {at[2]}'
                    if st is not None:
                        exp = self.value(wd, st, p, at, stressed, s['conds'])
                        if not isinstance(v, float) or not close(v, exp):
                            raise Violation('wrong-device', f'{what}: read {v}, this device has {exp}')
                    else:
                        key = (p, stressed, s['conds']['mt'])
                        old = fixed.setdefault(key, {}).setdefault(at, v)
                        if not isinstance(v, float) or not close(v, old):
                            raise Violation('wrong-device', f'{what}: read {v}, earlier {old}')
            if st is None:
                self.relate(wd, fixed, stressed, s['conds']['mt'], i)
        if got:
            raise Violation('labels', f'unrequested rows {sorted(got, key=str)}')
        for key, vals in fixed.items():
            if len(set(vals.values())) != len(vals):
                raise Violation('same-device', f'two devices of {key[0]} report the same values {vals}')
        ctx.sig(wd['lots'], wd['chps'], [s.get('counts') for s in wd['steps']],
                [(p, wd['prms'][p].get('args')) for p in wd['prms']])

    def prm(self, wd, st, p, at, stressed):
        """Value of a degrading parameter at the reference conditions."""
        pr, lat = wd['prms'][p], st.latent_var_vals[p]
        x = float(np.asarray(st.init_prm_vals[p])[at])
        if stressed:
            k = float(np.asarray(lat['k'])[at]) if pr.get('eqn') == 'ksum' else 1.0
            x += k * float(np.asarray(lat['m']['a'])[at])
        return x

    def value(self, wd, st, p, at, stressed, conds):
        pr, lat = wd['prms'][p], st.latent_var_vals[p]
        if pr['kind'] == 'deg':
            x = self.prm(wd, st, p, at, stressed)
            if pr.get('cond'):
                x += float(np.asarray(lat['cond']['b'])[at]) * conds['mt'] / 100.0
            return x
        x = 0.0
        for i, a in enumerate(pr['args']):
            if a == 'c':
                x += (i + 1) * float(np.asarray(lat['c'])[at])
            elif a == 'mt':
                x += (i + 1) * conds['mt']
            else:
                x += (i + 1) * self.prm(wd, st, a, at, stressed)
        return x

    def relate(self, wd, fixed, stressed, mt, i):
        """Self-generated state: a circuit without latents of its own is determined by its measured inputs."""
        for p, pr in wd['prms'].items():
            if pr['kind'] != 'circ' or 'c' in pr['args'] or (p, stressed, mt) not in fixed:
                continue
            src = [a for a in pr['args'] if a != 'mt']
            if any((a, stressed, mt) not in fixed or wd['prms'][a].get('cond') for a in src):
                continue
            for at, v in fixed[p, stressed, mt].items():
                vals = [fixed[a, stressed, mt].get(at) for a in src]
                if None in vals:
                    continue
                exp = sum((pr['args'].index(a) + 1) * x for a, x in zip(src, vals))
                exp += (pr['args'].index('mt') + 1) * mt if 'mt' in pr['args'] else 0
                if not close(v, exp):
                    raise Violation('wrong-device', f'{p} {at} reads {v} by step {i}, its inputs on that device give {exp}')


PROP = C11()
