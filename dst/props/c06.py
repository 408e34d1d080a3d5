"""C06: a hard failure latches for the rest of the test."""
import itertools
import math

import numpy as np

from dst import deg, seams, world as W
from dst.core import Prop, Violation


class C06(Prop):
    id = 'C06'
    runs = {'quick': 1500, 'thorough': 40000}
    rule = ('Random populations with one or two hard-failure mechanisms (failed values constant, falsy, undefined, infinite, '
            'nearly unfailed, or carrying the step or device that failed), several unfailed values, stress histories with '
            'random doses and noisy temperature, refused array evaluations, concurrent simulations or an aborted run '
            'before; every reading of every device against a first-failure-latches reference.')
    measure = 'distinct (failing step per device and mechanism) patterns, plus switch sequences'
    assumptions = ['Doses within 1e-9 of a threshold and doses whose noise straddles it are judged by the first reading']
    shrink_lists = ['noise', 'sched.force', 'world.steps', 'world.prms.p.mechs']
    shrink_ints = {'world.lots': 1, 'world.chps': 1, 'ndev': 1}

    def setup(self):
        seams.lib()
        seams.monitor()

    def gen(self, rng, tier):
        steps, doses = [], []
        a = rng.choice([0.02, 0.1])
        for i in range(rng.choice([1, 2, 3, 4, 6, 8])):
            us = W.gen_us(rng) if rng.random() < 0.3 else int(rng.choice([1, 5, 10, 20, 50]) * 3600e6)
            temp = rng.choice([25, 85, 125])
            steps.append({'t': 's', 'us': us, 'conds': {'temp': temp, 'tag': float(i + 1)}, 'name': f's{i}'})
            doses.append(us / 3600e6 * temp * a)
            if rng.random() < 0.6:
                steps.append({'t': 'm', 'name': 'm'})
        steps.append({'t': 'm', 'name': 'm'})
        if rng.random() < 0.3:
            steps.insert(0, {'t': 'm', 'name': 'm'})
        eqn = rng.choice([None, 'usum', 'usum', 'prod'])
        mechs, names = {}, W.mech_names(rng)
        for i in range(rng.choice([1, 1, 2])):
            un = {None: 0, 'prod': 1}.get(eqn, rng.choice([0, 1, -1, 0.5, 7]))
            mode = rng.choice(['const', 'const', 'tag', 'temp', 'lat'])
            val = rng.choice([v for v in [5, -3, 0.5, 2, 0, 'nan', 'inf', '-inf', un + 1e-10, True] if v != un])
            mechs[names[i]] = {'fam': 'hard', 'unitary': un, 'unit': rng.choice([None, 'h', 's', 'd', 'ms']), 'mode': mode,
                              'val': float(val) if val not in ('nan', 'inf', '-inf') else val,
                              'thr': rng.choice(doses) * rng.choice([0.7, 0.9, 1.0, 1.0, 1.1, 1.5]),
                              'latents': {'a': W.gen_latent(rng, a, 0.5)}}
        p = {'kind': 'deg', 'unit': rng.choice([None, 's']), 'init': {'base': rng.choice([0.0, 0.0, 3.0, 1.0])},
             'eqn': eqn, 'mechs': mechs}
        if rng.random() < 0.3:
            p['cond'] = {'fam': 'mtscale' if eqn == 'prod' else 'mtlin', 'unitary': 1 if eqn == 'prod' else 0,
                         'latents': {'b': W.gen_latent(rng, 2.0)}}
        ndev = W.some(rng, [1, 2, 4, 7], W.DEVS)
        for s in steps:
            if s['t'] == 'm':
                s['counts'] = {'p': rng.choice([ndev, ndev, rng.randint(1, ndev)])}
                s['conds'] = {'mt': rng.choice([0, 25, 125]), 'temp': 25, 'tag': 0.0}
        env = {'temp': {'type': 'offset', 'dev': [-6, 6], 'chp': [-5, 5]}} if rng.random() < 0.4 else {}
        wd = {'seed': rng.getrandbits(32), 'lots': W.some(rng, [1, 1, 2], W.LOTS), 'chps': W.some(rng, [1, 2, 3], W.CHPS),
              'prms': {'p': p}, 'unit': rng.choice([None, 'h', 'ms']), 'env': env, 'instms': {}, 'steps': steps, 'forms': rng.random() < 0.25, 'scalar': W.gen_scalar(rng)}
        return deg.chaos(rng, {'world': wd, 'ndev': ndev, 'refuse': rng.choice([0, 0, 0.3, 1.0]),
                               'rseed': rng.getrandbits(32)})

    def run(self, sc, ctx):
        w = W.World(sc['world'])
        if sc['refuse']:
            rs = np.random.Generator(np.random.PCG64(sc['rseed']))

            def hook(path, kw):
                if any(np.ndim(v) for v in kw.values()) and rs.random() < sc['refuse']:
                    ctx.fault('array_refused')
                    raise ValueError('simulated: scalars only')
            w.taps.hook = hook
        w, st, rep = deg.run_world(sc, ctx, w)
        self.judge(sc, ctx, st, rep)

    def judge(self, sc, ctx, st, rep):
        wd = sc['world']
        p, got, steps = wd['prms']['p'], deg.readings(rep), wd['steps']
        names = list(p['mechs'])
        noise = 11.0 if wd['env'] else 0.0
        pattern = []
        for at in itertools.product(range(wd['lots']), range(wd['chps']), range(sc['ndev'])):
            init = float(np.asarray(st.init_prm_vals['p'])[at])
            lat = {m: float(np.asarray(st.latent_var_vals['p'][m]['a'])[at]) for m in names}
            b = float(np.asarray(st.latent_var_vals['p']['cond']['b'])[at]) if p.get('cond') else None
            # per mechanism: the hypotheses still possible, each (failing step or None, low, high, fixed)
            hyp = {m: [(None, p['mechs'][m]['unitary'], p['mechs'][m]['unitary'])] for m in names}
            for i, s in enumerate(steps):
                if s['t'] == 's':
                    for m in names:
                        hyp[m] = self.advance(p['mechs'][m], lat[m], hyp[m], s, i, noise)
                elif ('p', *at) in got.get(i, {}):
                    v = got[i][('p', *at)]
                    cv = deg.cond_val(p, s['conds']['mt'], b)
                    ok = [c for c in itertools.product(*(hyp[m] for m in names)) if self.fits(p, names, init, cv, c, v)]
                    if not ok:
                        exp = {m: hyp[m] for m in names}
                        raise Violation('failure-state', f'step {i} lot {at[0]} chip {at[1]} device {at[2]}: read {v}; possible '
                                        f'(failing step, lowest, highest value) {exp}, initial {init}, shift {cv}')
                    for k, m in enumerate(names):
                        keep = list(dict.fromkeys(c[k] for c in ok))
                        if len(names) == 1 and noise:
                            # the reading pins a value that carried noise
                            keep = [(f, *self.pin(p, init, cv, v, p['mechs'][m])) if f is not None and p['mechs'][m]['mode'] == 'temp' else
                                    (f, lo, hi) for f, lo, hi in keep]
                        hyp[m] = keep
            pattern.append(tuple(h[0] for m in names for h in hyp[m]))
            ctx.probe('failed_devices', sum(1 for m in names if hyp[m][0][0] is not None))
        ctx.sig(pattern)

    def advance(self, m, a, hyps, s, i, noise):
        hours, temp = W.step_us(s) / 3600e6, s['conds']['temp']
        out = []
        lo, hi = (hours * (temp + d) * a for d in (-noise, noise))
        eps = 1e-9 * abs(m['thr'])
        for h in hyps:
            if h[0] is not None:
                out.append(h)
                continue
            if hi > m['thr'] - eps:
                v = {'const': (float(m['val']),) * 2, 'tag': (10.0 + s['conds']['tag'],) * 2,
                     'temp': (temp - noise, temp + noise), 'lat': (100.0 * a,) * 2}[m['mode']]
                if v[0] == v[1] == m['unitary']:
                    out.append(h)  # not a failed value after all
                else:
                    out.append((i, *v))
            if lo <= m['thr'] + eps:
                out.append(h)
        return list(dict.fromkeys(out))

    def combos(self, p, names, init, cv, vals):
        un = [p['mechs'][m]['unitary'] for m in names]
        if p['eqn'] == 'prod':
            r = init * cv
            for v in vals:
                r = r * v
            return r
        if p['eqn'] == 'usum':
            return init + cv + sum(v - u for v, u in zip(vals, un))
        return init + cv + sum(vals)

    def fits(self, p, names, init, cv, combo, v):
        ends = [self.combos(p, names, init, cv, xs) for xs in itertools.product(*(c[1:] for c in combo))]
        if any(math.isnan(e) for e in ends):
            return v == 'nan'
        if v == 'nan':
            return False
        tol = 4e-15 * (1 + abs(init) + abs(cv) + max((abs(x) for c in combo for x in c[1:] if math.isfinite(x)), default=0)
                       + max((abs(e) for e in ends if math.isfinite(e)), default=0))
        tol *= max(1.0, abs(cv), abs(init)) if p['eqn'] == 'prod' else 1.0
        return v in ends or min(ends) - tol <= v <= max(ends) + tol

    def pin(self, p, init, cv, v, m):
        if p['eqn'] == 'prod':
            x = v / (init * cv) if init * cv else None
        elif p['eqn'] == 'usum':
            x = v - init - cv + m['unitary']
        else:
            x = v - init - cv
        if x is None or not math.isfinite(x):
            return (m['unitary'], m['unitary']) if x is None else (x, x)
        return (x - 1e-11 * (1 + abs(x)), x + 1e-11 * (1 + abs(x)))


PROP = C06()
