"""Interval reference model of wear-out by equivalent stress time, and a runner that confronts it with the library."""
import itertools
import math

import numpy as np

from dst import seams, world as W
from dst.core import Violation
from dst.util import collect, must

EPS_T = 1e-4      # relative error allowed for the equivalent time
RES = 1.1e-3      # resolution of the search at small times, in the mechanism's own time unit
FUZZ = 1e-9       # rounding of readings
LONG_H = 1e9      # equivalent times beyond this many hours count as impractically long: holding is allowed
HEAL = 0.002


class Mech:
    """Magnitude of one mechanism (distance from fresh) as an increasing function of hours, with inverse."""

    def __init__(self, spec, unit, lat):
        self.s, self.lat = spec, lat
        self.res_h = RES * W.hours_per(unit)

    def k(self, temp, vdd=1.0):
        f, l = self.s['fam'], self.lat
        if f == 'pow':
            return l['a'] * (temp / 100.0) ** self.s.get('g', 1.0)
        if f == 'vpow':
            return l['a'] * vdd ** 2 * (temp / 100.0)
        if f in ('log', 'sat'):
            return l['a'] * temp / 100.0
        if f == 'satl':
            return l['a'] * (temp / 100.0) ** l['lv']
        if f == 'thr':
            return l['a'] if temp > self.s['thr'] else 0.0
        if f == 'thrl':
            return l['a'] if temp > l['th'] else 0.0
        raise KeyError(f)

    def at(self, h, k):
        f = self.s['fam']
        if k <= 0:
            return 0.0
        if f in ('pow', 'vpow', 'thr', 'thrl'):
            return k * h ** self.lat['n']
        if f == 'log':
            return k * math.log1p(h)
        if h == math.inf:
            return k
        return k * -math.expm1(-h / self.s['tau'])

    def inv(self, d, k):
        """Hours needed to reach d (inf if never)."""
        if d <= 0:
            return 0.0
        if k <= 0:
            return math.inf
        f, x = self.s['fam'], d / k
        try:
            if f in ('pow', 'vpow', 'thr', 'thrl'):
                return x ** (1.0 / self.lat['n'])
            if f == 'log':
                return math.expm1(x)
        except OverflowError:
            return math.inf
        return -self.s['tau'] * math.log1p(-x) if x < 1 else math.inf

    def step(self, lo, hi, hours, temp, vdd):
        """Interval of magnitudes after a stress, from the interval before. Also returns which cases were possible."""
        k = self.k(temp, vdd)
        out, cases = [], set()
        t_lo = self.inv(lo * (1 - FUZZ), k) * (1 - EPS_T)
        t_hi = max(self.inv(hi * (1 + FUZZ), k) * (1 + EPS_T), self.res_h)
        if t_lo + hours < math.inf and t_lo <= 1e12:
            top = min(t_hi, 1e12)
            out += [self.at(t_lo + hours, k), self.at(top + hours, k)]
            cases.add('progress')
        if t_hi + hours > LONG_H:
            out += [lo * (1 - HEAL), hi]
            cases.add('hold')
        if hi > 0 and k > 0:
            # close to a saturation level the search may settle anywhere on the flat part, or the level is held
            sup = self.at(math.inf, k) if self.s['fam'] in ('sat', 'satl') else math.inf
            if hi >= sup * 0.998:
                out += [lo * (1 - HEAL), max(hi, sup)]
                cases.add('saturated')
        return min(out), max(out), cases


def latents_of(state, prm, mech, at):
    vals = state.latent_var_vals[prm][mech]
    return {k: float(np.asarray(v)[at]) for k, v in vals.items()}


def combine(p, init, k, cond, mechs):
    """Parameter value from its parts (mechs: values including their unitary offsets)."""
    if p.get('eqn') == 'prod':
        out = init * cond
        for m in mechs:
            out *= m
        return out
    if p.get('eqn') == 'ksum':
        return init + cond + k * sum(mechs)
    if p.get('eqn') == 'mix':
        un = [m.get('unitary', 0) for m in p['mechs'].values()]
        out = init + sum(x for x, u in zip(mechs, un) if not u)
        for x, u in zip(mechs, un):
            out *= x if u else 1.0
        return out + cond
    return init + cond + sum(mechs)


def cond_val(p, mt, b):
    c = p.get('cond')
    if not c:
        return 1.0 if p.get('eqn') == 'prod' else 0.0
    return b * mt / 100.0 if c['fam'] == 'mtlin' else 1.0 + b * mt / 1000.0


def run_world(sc, ctx, w=None, chaos=True):
    """Builds the world, generates its state, simulates it (under a concurrent schedule if asked) and returns parts."""
    w = w or W.World(sc['world'])
    wd = sc['world']
    counts = sc.get('scounts') or {p: sc['ndev'] for p in wd['prms']}
    w.draws.begin('state')
    st = must(lambda: seams.lib().gen_init_state(w.dev, counts, wd['chps'], wd['lots']), 'generating the initial state')
    noise = sc.get('noise') or []
    if noise and chaos:
        fns, keys = [lambda: w.simulate('t0', None, st, ctx)], ['t0']
        for i, k in enumerate(noise):
            key = f'n{i}'
            fns.append({'sim': lambda key=key: w.simulate(key, None, None, ctx),
                        'same': lambda key=key: w.simulate(key, None, st, ctx),
                        'init': lambda key=key: (w.draws.begin(key), seams.lib().gen_init_state(
                            w.dev, counts, wd['chps'], wd['lots']))[1]}[k])
            keys.append(key)
        sch = seams.Sched(sc['sched'], len(fns), ctx)
        w.taps.sched = sch
        rep = collect(sch.run(fns, keys), 'concurrent run')[0]
        w.taps.sched = None
    else:
        if sc.get('abort') is not None:
            with seams.LineCounter() as lc:
                must(lambda: w.simulate('t0', None, st, ctx), 'the simulation')
            exc = seams.ASYNC[sc['abort'][1]]('simulated')
            try:
                with seams.LineCounter(1 + int(sc['abort'][0] * lc.n), exc):
                    w.simulate('t0', None, st, ctx)
            except (seams.SimKeyboardInterrupt, seams.SimMemoryError, seams.SimSystemExit):
                ctx.fault('abort_before')
        rep = must(lambda: w.simulate('t0', None, st, ctx), 'the simulation')
    return w, st, rep


def readings(rep):
    """{step: {(param, lot, chip, dev): value}} (later duplicates kept in a list would be C11's business)."""
    out = {}
    for p, s, l, c, d, t, v in W.rows(rep):
        out.setdefault(s, {})[(p, l, c, d)] = v
    return out


def judge(sc, ctx, st, rep, skip=(), prms=None):
    """Confronts every reading of the wear-out parameters (but of the skipped devices) with the reference."""
    wd = sc['world']
    got = readings(rep)
    steps = wd['steps']
    tags = [i for i, s in enumerate(steps) if s['t'] == 's']
    for pn, p in wd['prms'].items():
        if pn == 'x' or (prms is not None and pn not in prms):
            continue
        names = list(p['mechs'])
        unit = {m: p['mechs'][m].get('unit') or p.get('unit') or wd.get('unit') for m in names}
        for l, c, d in itertools.product(range(wd['lots']), range(wd['chps']), range(sc['ndev'])):
            at = (l, c, d)
            if at in skip:
                continue
            init = float(np.asarray(st.init_prm_vals[pn])[at])
            lat = st.latent_var_vals[pn]
            kk = float(np.asarray(lat['k'])[at]) if p.get('eqn') == 'ksum' else None
            b = float(np.asarray(lat['cond']['b'])[at]) if p.get('cond') else None
            ms = {m: Mech(p['mechs'][m], unit[m], latents_of(st, pn, m, at)) for m in names}
            iv = {m: (0.0, 0.0) for m in names}
            prev_x, best = 0.0, None
            for i, s in enumerate(steps):
                if s['t'] == 's':
                    temp = s['conds']['temp']
                    if 'x' in wd['prms']:
                        # actual temperature of this chip during this stress, as latched by the probe parameter
                        nxt = next((got[j][('x', l, c, 0)] for j in range(i + 1, len(steps)) if steps[j]['t'] == 'm'
                                    and ('x', l, c, 0) in got.get(j, {})), None)
                        if nxt is None:
                            break
                        temp, prev_x = nxt - prev_x, nxt
                        if not (0 < temp < 1000):
                            raise Violation('probe', f'stress {i}: latched temperature {temp} for target {s["conds"]["temp"]}')
                    hours = W.step_us(s) / 3600e6
                    for m in names:
                        lo, hi, cases = ms[m].step(*iv[m], hours, temp, s['conds'].get('vdd', 1.0))
                        for cs in cases:
                            ctx.probes[cs] += 1
                        iv[m] = (lo, hi)
                elif (pn, l, c, d) in got.get(i, {}):
                    v = got[i][(pn, l, c, d)]
                    cv = cond_val(p, s['conds'].get('mt', 0), b)
                    ends = [combine(p, init, kk, cv, [p['mechs'][m].get('unitary', 0) + p['mechs'][m].get('sign', 1) * x
                                                      for m, x in zip(names, xs)])
                            for xs in itertools.product(*(iv[m] for m in names))]
                    lo, hi = min(ends), max(ends)
                    tol = 1e-9 * max(abs(lo), abs(hi), abs(init)) + 1e-12 * min(1.0, p.get('scale', 1.0))
                    if not isinstance(v, float) or not (lo - tol <= v <= hi + tol):
                        raise Violation('degradation', f'step {i} {pn} lot {l} chip {c} device {d}: read {v}, equivalent '
                                        f'stress time gives [{lo}, {hi}] (mechanisms {names})')
                    if len(names) == 1:
                        # the reading determines the mechanism value: continue from it exactly
                        m = names[0]
                        un, sg = p['mechs'][m].get('unitary', 0), p['mechs'][m].get('sign', 1)
                        if p.get('eqn') == 'prod':
                            mag = (v / (init * cv) - un) * sg
                        elif p.get('eqn') == 'ksum':
                            mag = ((v - init - cv) / kk - un) * sg
                        else:
                            mag = (v - init - cv - un) * sg
                        # rounding of the reading, relative to the magnitude
                        r = 4e-16 * max(abs(v), abs(init), abs(cv), p.get('scale', 1)) / min(1.0, abs(kk) if kk else 1.0,
                                                                              abs(init * cv) if p.get('eqn') == 'prod' else 1.0)
                        if best is not None and mag < best * (1 - HEAL) - 2 * r:
                            raise Violation('healed', f'step {i} {pn} lot {l} chip {c} device {d}: degradation fell from '
                                            f'{best} to {mag}')
                        best = mag if best is None else max(best, mag)
                        iv[m] = (max(0.0, mag - r, iv[m][0]), max(0.0, min(mag + r, iv[m][1])))
                        if iv[m][0] > iv[m][1]:
                            iv[m] = (iv[m][1], iv[m][0])


def gen_deg_world(rng, fams, temps, nstress, two=True, spread=0.15, units=True):
    p = {'kind': 'deg', 'unit': rng.choice([None, 'h', 's', 'd']) if units else None,
         'init': W.gen_latent(rng, rng.choice([1.0, 10.0, 300.0]), 0.1)}
    p['eqn'] = rng.choice([None, None, 'prod', 'ksum'] + (['mix'] if two else []))
    un = 1 if p['eqn'] == 'prod' else rng.choice([0, 0, 1])
    if p['eqn'] == 'ksum':
        un = 0
        p['latents'] = {'k': W.gen_latent(rng, 1.5)}
    if rng.random() < 0.4:
        p['cond'] = {'fam': 'mtscale' if p['eqn'] == 'prod' else 'mtlin', 'unitary': 1 if p['eqn'] == 'prod' else 0,
                     'latents': {'b': W.gen_latent(rng, 2.0)}}
    p['mechs'] = {}
    # a non-zero unitary value only leaves the measured value alone when the equation multiplies
    un = 1 if p['eqn'] == 'prod' else 0
    nm = rng.choice([2, 2, 3]) if p['eqn'] == 'mix' else 2 if two and rng.random() < 0.3 else 1
    names = W.mech_names(rng)
    for i in range(nm):
        if p['eqn'] == 'mix':
            un = (i + nm) % 2
        m = W.gen_mech(rng, units, [f for f in fams if f not in ('thrl', 'satl')] or ['pow'], un)
        f = rng.choice(fams)
        if f in ('thrl', 'satl'):
            m = {'fam': f, 'unitary': un, 'unit': m['unit'], 'sign': m['sign'], 'latents': {'a': W.gen_latent(rng, 0.02)}}
            if f == 'thrl':
                m['latents']['n'] = W.gen_latent(rng, rng.choice([0.2, 0.5]), 0.05)
                m['latents']['th'] = {'type': 'offset', 'base': rng.choice([60.0, 100.0]), 'dev': [-40, 40]}
            else:
                m['tau'] = rng.choice([10, 100, 1000])
                m['latents']['lv'] = {'type': 'offset', 'base': 0.0, 'dev': [-1.0, 2.0]}
        if f == 'pow':
            m['g'] = rng.choice([0.5, 1.0, 1.0, 3.0])
        if m['fam'] in ('pow', 'vpow', 'thr', 'thrl') and rng.random() < 0.25:
            m['latents']['n'] = {'base': rng.choice([1.2, 1.5, 0.2, 0.7])}
        if p['eqn'] == 'prod' or p['eqn'] == 'mix' and un:
            m['sign'] = 1
        p['mechs'][names[i]] = m
    if p['eqn'] in (None, 'ksum') and not un and rng.random() < 0.15:
        # a parameter of quite another magnitude, such as a leakage current in amperes
        p['scale'] = rng.choice([1e-15, 1e-12, 1e-9, 1e-9, 1e-6, 1e8])
        for l in [p['init']] + [m['latents']['a'] for m in p['mechs'].values()] + ([p['cond']['latents']['b']] if p.get('cond') else []):
            l['base'] *= p['scale']
            for layer in ('dev', 'chp', 'lot'):
                if l['type'] == 'offset' and layer in l:
                    l[layer] = [x * p['scale'] for x in l[layer]]
    steps, k = [], 0
    lat = {}
    for i in range(nstress):
        conds = {'temp': rng.choice(temps), 'vdd': rng.choice([0.8, 1.0, 1.3]), 'tag': float(k + 1)}
        us = W.gen_us(rng) if rng.random() < 0.4 else int(rng.choice([0.5, 3, 10, 50, 200, 1000, 9000]) * 3600e6)
        steps.append({'t': 's', 'us': us, 'conds': conds, 'name': f's{k}'})
        lat[f'x{k}'] = {'fam': 'latch', 'k': float(k + 1), 'unitary': 0, 'latents': {}}
        k += 1
        if rng.random() < 0.8 or i == nstress - 1:
            steps.append({'t': 'm', 'counts': {}, 'conds': {'mt': rng.choice([0, 25, 125]), 'temp': 25, 'tag': 0.0},
                          'name': 'm'})
    if rng.random() < 0.3:
        steps.insert(0, {'t': 'm', 'counts': {}, 'conds': {'mt': 5, 'temp': 25, 'tag': 0.0}, 'name': 'm'})
    ndev = W.some(rng, [1, 2, 4, 7], W.DEVS)
    noisy = rng.random() < 0.4
    prms = {'p': p}
    env = {}
    if noisy:
        env['temp'] = {'type': 'offset', 'chp': [-8, 8], 'batch': [-3, 3]}
        prms['x'] = {'kind': 'deg', 'init': {'base': 0.0}, 'mechs': lat}
        # every stress needs a following reading of the probe before the next one
        out = []
        for s in steps:
            if s['t'] == 's' and out and out[-1]['t'] == 's':
                out.append({'t': 'm', 'counts': {}, 'conds': {'mt': 0, 'temp': 25, 'tag': 0.0}, 'name': 'probe',
                            'probe': True})
            out.append(s)
        steps = out
    for s in steps:
        if s['t'] == 'm':
            s['counts'] = {} if s.pop('probe', None) else {'p': ndev}
            if noisy:
                s['counts']['x'] = 1
    wd = {'seed': rng.getrandbits(32), 'lots': W.some(rng, [1, 1, 2], W.LOTS), 'chps': W.some(rng, [1, 2, 3], W.CHPS), 'prms': prms,
          'unit': rng.choice([None, 'h', 's']) if units else None, 'env': env, 'instms': {}, 'steps': steps, 'forms': rng.random() < 0.25,
          'scalar': W.gen_scalar(rng, 0.08)}
    return chaos(rng, {'world': wd, 'ndev': ndev})


def chaos(rng, sc):
    """Adds concurrent activity or an earlier aborted run to some scenarios."""
    sc.update(noise=[], abort=None)
    r = rng.random()
    if r < 0.15:
        sc['noise'] = [rng.choice(['sim', 'same', 'init']) for _ in range(rng.choice([1, 2]))]
        sc['sched'] = seams.gen_sched(rng, seams.LIBFILES)
    elif r < 0.25:
        sc['abort'] = [rng.random(), rng.choice(sorted(seams.ASYNC))]
    return sc


SHRINK_LISTS = ['noise', 'sched.force', 'world.steps']
SHRINK_INTS = {'world.lots': 1, 'world.chps': 1, 'ndev': 1}
