"""Scenario worlds: JSON descriptions of device models, environments and tests, built into real library objects."""
import math
from datetime import timedelta

import numpy as np
import pandas as pd

from dst import seams
from dst.core import Violation

UNIT_US = {'days': 86400e6, 'd': 86400e6, 'hours': 3600e6, 'h': 3600e6, None: 3600e6, 'seconds': 1e6, 's': 1e6,
           'milliseconds': 1e3, 'ms': 1e3, 'microseconds': 1.0, 'us': 1.0}


def hours_per(unit):
    return UNIT_US[unit] / 3600e6


class Taps:
    """Seam in every model equation: hook(path, kwargs) runs before each evaluation, may raise or count."""

    def __init__(self):
        self.hook = None
        self.sched = None
        self.post = None  # post(path, kwargs, result) may replace the result of an evaluation

    def __call__(self, path, kwargs):
        if self.sched is not None:
            self.sched.point('eqn ' + path)
        if self.hook is not None:
            return self.hook(path, kwargs)
        return None


def each(fn):
    """Vectorised form of a scalar function whose every element is computed exactly as in a scalar call."""
    def vec(**kw):
        shape = np.broadcast_shapes(*(np.shape(v) for v in kw.values())) if kw else ()
        if shape == ():
            return float(fn(**{k: float(v) for k, v in kw.items()}))
        b = {k: np.broadcast_to(v, shape) for k, v in kw.items()}
        out = np.empty(shape)
        for i in np.ndindex(*shape):
            out[i] = fn(**{k: float(v[i]) for k, v in b.items()})
        return out
    return vec


def mk_eqn(path, args, fn, taps):
    """Function with exactly the given argument names (the library inspects signatures) evaluating fn(**kwargs)."""
    names = [a.split('=')[0] for a in args]

    def _impl(kwargs):
        over = taps(path, kwargs)
        if over is not None:
            return over
        out = fn(**kwargs)
        return out if taps.post is None else taps.post(path, kwargs, out)

    src = f"def eqn({', '.join(args)}):\n    return _impl(dict({', '.join(f'{n}={n}' for n in names)}))\n"
    ns = {'_impl': _impl}
    exec(compile(src, f'<equation {path}>', 'exec'), ns)
    return ns['eqn']


# --------------------------------------------------------- equation families (vectorised, also fine with scalars)
def mech_fn(spec, unit):
    """Returns (argument names, function). Time arrives in the mechanism's unit and is turned into hours."""
    u, s, hp = spec.get('unitary', 0), spec.get('sign', 1), hours_per(unit)
    fam = spec['fam']
    if fam == 'pow':
        g = spec.get('g', 1.0)
        return ['time', 'temp', 'a', 'n'], lambda time, temp, a, n: u + s * a * (temp / 100.0) ** g * (time * hp) ** n
    if fam == 'vpow':
        return ['time', 'vdd', 'temp', 'a', 'n'], \
            lambda time, vdd, temp, a, n: u + s * a * vdd ** 2 * (temp / 100.0) * (time * hp) ** n
    if fam == 'sat':
        tau = spec['tau']
        return ['time', 'temp', 'a'], lambda time, temp, a: u + s * a * (temp / 100.0) * -np.expm1(-time * hp / tau)
    if fam == 'thr':
        thr = spec['thr']
        return ['time', 'temp', 'a', 'n'], \
            lambda time, temp, a, n: u + s * np.where(temp > thr, a * (time * hp) ** n, 0.0 * time)
    if fam == 'log':
        return ['time', 'temp', 'a'], lambda time, temp, a: u + s * a * (temp / 100.0) * np.log1p(time * hp)
    if fam == 'thrl':  # threshold is a latent value of the device
        return ['time', 'temp', 'a', 'n', 'th'], \
            lambda time, temp, a, n, th: u + s * np.where(temp > th, a * (time * hp) ** n, 0.0 * time)
    if fam == 'satl':
        tau = spec['tau']
        return ['time', 'temp', 'a', 'lv'], \
            lambda time, temp, a, lv: u + s * a * (temp / 100.0) ** lv * -np.expm1(-time * hp / tau)
    if fam == 'latch':  # takes the value of the condition during stress number k and keeps it
        k, cond = spec['k'], spec.get('cond', 'temp')
        return ['time', cond, 'tag'], lambda **kw: np.where(kw['tag'] == k, kw[cond], u)
    if fam == 'hard':  # fails when the dose of this very step exceeds the threshold
        thr, mode, val = spec['thr'], spec['mode'], float(spec['val'])

        def hard(time, temp, tag, a):
            bad = {'const': val, 'tag': 10.0 + tag, 'temp': temp, 'lat': 100.0 * a}[mode] + 0.0 * time
            return np.where(time * hp * temp * a > thr, bad, u)
        return ['time', 'temp', 'tag', 'a'], hard
    if fam in ('lat', 'latf'):  # the latent value itself, once stressed
        return ['time', 'a'], lambda time, a: a + 0.0 * time
    if fam == 'none':
        return ['time'], lambda time: u + 0.0 * time
    if fam == 'clock':  # the time handed to the mechanism during stress number k, in its own unit
        k = spec['k']
        return ['time', 'tag'], lambda time, tag: np.where(tag == k, time, u)
    if fam == 'fail':
        thr, val = spec['thr'], spec['val']
        return ['time', 'temp', 'a'], lambda time, temp, a: np.where(time * hp * temp * a > thr, val, u)
    raise KeyError(fam)


def swapped(args, fn, cond):
    return [cond if a == 'temp' else a for a in args], lambda **kw: fn(**{'temp' if k == cond else k: v for k, v in kw.items()})


def cond_fn(spec):
    fam = spec['fam']
    if fam == 'lin':
        return ['temp', 'b'], lambda temp, b: b * (temp - 25.0) / 100.0
    if fam == 'scale':
        return ['temp', 'b'], lambda temp, b: 1.0 + b * (temp - 25.0) / 1000.0
    if fam == 'mtlin':
        return ['mt', 'b'], lambda mt, b: b * mt / 100.0
    if fam == 'mtscale':
        return ['mt', 'b'], lambda mt, b: 1.0 + b * mt / 1000.0
    if fam == 'id':
        c = spec.get('cond', 'temp')
        return [c], lambda **kw: kw[c] * 1.0
    if fam == 'lat':
        return ['b'], lambda b: b * 1.0
    if fam == 'many':  # any of several condition names, absent ones count as 0
        return ['b'] + [f'{c}=0.0' for c in spec['conds']], lambda b, **kw: b * sum(kw.values()) / 100.0
    raise KeyError(fam)


def prm_fn(spec, mechs, specs=None):
    fam = spec
    if fam == 'prod':
        def f(init, cond, **kw):
            out = init * cond
            for m in mechs:
                out = out * kw[m]
            return out
        return ['init', 'cond'] + mechs, f
    if fam == 'ksum':
        def f(init, cond, k, **kw):
            return init + cond + k * sum(kw[m] for m in mechs)
        return ['init', 'cond', 'k'] + mechs, f
    if fam == 'mix':  # additive mechanisms (unitary 0) and multiplicative ones (unitary 1) in one parameter
        def f(init, cond, **kw):
            out = init + cond + sum(kw[m] for m in mechs if not specs[m].get('unitary', 0))
            for m in mechs:
                if specs[m].get('unitary', 0):
                    out = out * kw[m]
            return out
        return ['init', 'cond'] + mechs, f
    if fam == 'lat':  # the parameter's own latent value
        def f(init, cond, k, **kw):
            return k + 0.0 * init
        return ['init', 'cond', 'k'] + mechs, f
    if fam == 'usum':  # mechanism effects relative to their own unitary values
        un = {m: v.get('unitary', 0) for m, v in (specs or {}).items()}

        def f(init, cond, **kw):
            return init + cond + sum(kw[m] - un[m] for m in mechs)
        return ['init', 'cond'] + mechs, f
    raise KeyError(fam)


class World:
    """The built objects of one scenario world."""

    def __init__(self, w, rvf=None, draw_seed=None, elementwise=False):
        seams.lib()
        import gerabaldi.models as M
        self.M, self.w = M, w
        self.taps = Taps()
        self.draws = seams.Draws(w.get('seed', 0) if draw_seed is None else draw_seed)
        self.rvf = rvf or self.default_rv
        self.vec = each if elementwise else (lambda f: f)
        self.dev = self.build_device()
        self.env = self.build_env()
        self.spec = self.build_spec(w['steps'])

    def default_rv(self, path, rng):
        if rng[0] == rng[1]:
            return self.M.Deterministic(rng[0])
        return seams.SimRV(self.draws, path, rng[0], rng[1])

    @staticmethod
    def unitary(spec):
        u = spec.get('unitary', 0)
        return {None: lambda v: v, 'npint': np.int64, 'npfloat': np.float64, 'np32': np.float32}[spec.get('utype')](u)

    def deg_eqn(self, what, path, args, fn):
        """Equation of a degrading parameter, refusing arrays if the world says so."""
        vec = self.vec(fn)
        if what in (self.w.get('scalar') or ()):
            def vec(**kw):
                if any(np.ndim(v) for v in kw.values()):
                    raise ValueError('simulated: this equation takes single values only')
                return fn(**kw)
        return mk_eqn(path, args, vec, self.taps)

    def latent(self, path, l):
        M = self.M
        kw = {}
        for layer in ('dev', 'chp', 'lot'):
            if l.get(layer) is not None:
                kw[f'{layer}_vrtn_mdl'] = self.rvf(f'{path}.{layer}', l[layer])
        if l.get('base') is not None:
            kw['deter_val'] = l['base']
        return M.LatentVar(vrtn_type=l.get('type', 'scaling'), **kw)

    def build_device(self):
        M, w = self.M, self.w
        prms = {}
        for pn, p in w['prms'].items():
            if p['kind'] == 'circ':
                def fn(_p=p, **kw):
                    out = 0.0
                    for i, a in enumerate(_p['args']):
                        out = out + (i + 1) * kw[a]
                    return out
                lat = {k: self.latent(f'{pn}.{k}', l) for k, l in p.get('latents', {}).items()}
                args = p['args'] + [f'{c}=0.0' for c in p.get('many', [])]

                def fn2(_p=p, _f=fn, **kw):
                    return _f(**kw) + sum(kw[c] for c in _p.get('many', []))
                prms[pn] = M.CircPrmMdl(mk_eqn(f'{pn}', args, fn2, self.taps), **lat)
                continue
            mechs = {}
            for mn, m in p['mechs'].items():
                unit = m.get('unit') or p.get('unit') or w.get('unit')
                args, fn = mech_fn(m, unit)
                if p.get('swap'):  # reacts to another condition instead of the temperature
                    args, fn = swapped(args, fn, p['swap'])
                cls = M.FailMechMdl if m['fam'] in ('fail', 'latch', 'hard', 'latf', 'clock') else M.DegMechMdl
                if m.get('sub'):
                    cls = type(f'Custom{cls.__name__}', (cls,), {})
                mechs[mn] = cls(self.deg_eqn('mech', f'{pn}.{mn}', args, fn), unitary_val=self.unitary(m),
                                time_unit=m.get('unit'),
                                **{k: self.latent(f'{pn}.{mn}.{k}', l) for k, l in m['latents'].items()})
            if 'const' in p['init']:  # an equation without latent variables
                init = M.InitValMdl(mk_eqn(f'{pn}.init', [], lambda _v=p['init']['const']: float(_v) if isinstance(_v, str) else _v, self.taps))
            else:
                init = M.InitValMdl(init_val=self.latent(f'{pn}.init', p['init']))
            cond = None
            if p.get('cond'):
                args, fn = cond_fn(p['cond'])
                if p.get('swap'):
                    args, fn = swapped(args, fn, p['swap'])
                cond = M.CondShiftMdl(self.deg_eqn('cond', f'{pn}.cond', args, fn), unitary_val=self.unitary(p['cond']),
                                      **{k: self.latent(f'{pn}.cond.{k}', l)
                                         for k, l in p['cond'].get('latents', {}).items()})
            elif p.get('eqn') == 'prod':
                cond = M.CondShiftMdl(unitary_val=1)
            eqn = None
            lat = {k: self.latent(f'{pn}.{k}', l) for k, l in p.get('latents', {}).items()}
            if p.get('eqn'):
                args, fn = prm_fn(p['eqn'], list(p['mechs']), p['mechs'])
                eqn = self.deg_eqn('prm', pn, args, fn)
            arg = mechs
            if w.get('forms') and len(mechs) == 1:  # a single model instead of a dictionary
                (mn, arg), = mechs.items()
                arg.name = mn
            prms[pn] = M.DegPrmMdl(arg, init, cond, compute_eqn=eqn, time_unit=p.get('unit'), **lat)
        if w.get('forms') and len(prms) == 1:
            (pn, arg), = prms.items()
            arg.name = pn
            return M.DeviceMdl(arg, name='dut', time_unit=w.get('unit'))
        return M.DeviceMdl(prms, name='dut', time_unit=w.get('unit'))

    def build_env(self):
        M, w = self.M, self.w
        vrtns = {}
        for c, e in w.get('env', {}).items():
            if e.get('same') in vrtns:  # one object for several conditions
                vrtns[c] = vrtns[e['same']]
                continue
            kw = {f'{layer}_vrtn_mdl': self.rvf(f'env.{c}.{layer}', e[layer])
                  for layer in ('dev', 'chp', 'batch') if e.get(layer) is not None}
            vrtns[c] = M.EnvVrtnMdl(vrtn_type=e.get('type', 'offset'), **kw)
        instms = {}
        for p, i in w.get('instms', {}).items():
            if i.get('same') in instms:
                instms[p] = instms[i['same']]
                continue
            instms[p] = M.MeasInstrument(precision=i.get('precision'),
                                         error=self.rvf(f'instm.{p}', i['error']) if i.get('error') else None,
                                         meas_lims=tuple(i['lims']) if i.get('lims') else None)
        if w.get('forms'):  # lists of named models instead of dictionaries
            if len({id(v) for v in vrtns.values()}) == len(vrtns):
                for c, v in vrtns.items():
                    v.name = c
                vrtns = list(vrtns.values())
            if len({id(v) for v in instms.values()}) == len(instms):
                for c, v in instms.items():
                    v.name = c
                instms = list(instms.values())
        return M.PhysTestEnv(vrtns, instms)

    def step(self, s):
        M = self.M
        if s['t'] == 'm':
            return M.MeasSpec(dict(s['counts']), dict(s['conds']), name=s.get('name', 'unspecified'))
        if 'us' in s:
            return M.StrsSpec(dict(s['conds']), timedelta(microseconds=s['us']), name=s.get('name', 'unspecified'))
        return M.StrsSpec(dict(s['conds']), s['dur'], name=s.get('name', 'unspecified'), time_unit=s['unit'])

    def build_spec(self, steps):
        return self.M.TestSpec([self.step(s) for s in steps], self.w['chps'], self.w['lots'],
                               name=self.w.get('name', 'unspecified'), description=self.w.get('desc', 'none provided'))

    def simulate(self, key='main', spec=None, init_state=None, ctx=None):
        self.draws.begin(key)
        spec = spec or self.spec
        if ctx is not None:
            ctx.sims += 1
            ctx.sim_us += sum(int(s.duration / timedelta(microseconds=1)) for s in spec.steps if hasattr(s, 'duration'))
        return seams.lib().simulate(spec, self.dev, self.env, init_state)


def step_us(s):
    """Duration of a scenario stress step in integer microseconds (as datetime.timedelta rounds)."""
    if 'us' in s:
        return s['us']
    unit = {'d': 'days', 'h': 'hours', None: 'hours', 's': 'seconds', 'ms': 'milliseconds', 'us': 'microseconds'}.get(
        s['unit'], s['unit'])
    return int(timedelta(**{unit: s['dur']}) / timedelta(microseconds=1))


# --------------------------------------------------------- reading reports
def us(t):
    """Any reported time as integer microseconds."""
    if isinstance(t, pd.Timedelta):
        return t.value // 1000 if t.value % 1000 == 0 else t.value / 1000
    if isinstance(t, timedelta):
        return t // timedelta(microseconds=1)
    if isinstance(t, np.timedelta64):
        return int(t / np.timedelta64(1, 'us'))
    raise Violation('time-type', f'reported time {t!r} ({type(t).__name__}) is not a duration')


def num(x):
    if x is None:
        return None
    try:
        f = float(x)
    except (TypeError, ValueError):
        return x
    return 'nan' if math.isnan(f) else f


def idx(x):
    if x is None:
        return None
    f = float(x)
    return None if math.isnan(f) else int(f)


def rows(rep, timefn=us):
    df = rep.measurements
    if df is None or len(df) == 0:
        return []
    return [(p, int(s), idx(l), idx(c), idx(d), timefn(t), 'nan' if v is None else num(v)) for p, s, l, c, d, t, v in
            zip(df['param'], df['step #'], df['lot #'], df['chip #'], df['device #'], df['time'], df['measured'])]


SUMCOLS = ('step name', 'step type', 'step number', 'duration', 'start time', 'end time')


def summ(rep, timefn=us):
    df = rep.test_summary
    out = []
    if df is None or len(df) == 0:
        return out
    conds = [c for c in df.columns if c not in SUMCOLS]
    cols = {c: list(df[c]) for c in df.columns}
    for i in range(len(df)):
        out.append((cols['step name'][i], cols['step type'][i], int(cols['step number'][i]), timefn(cols['duration'][i]),
                    timefn(cols['start time'][i]), timefn(cols['end time'][i]),
                    tuple(sorted((c, num(cols[c][i])) for c in conds if num(cols[c][i]) not in (None, 'nan')))))
    return out


def full(rep):
    return {'name': rep.test_name, 'desc': rep.test_description, 'rows': rows(rep), 'summary': summ(rep)}


def diff(a, b, what='reports differ'):
    """First difference of two full() values, or None."""
    for k in ('name', 'desc'):
        if a[k] != b[k]:
            return f'{what}: {k} {a[k]!r} != {b[k]!r}'
    for k in ('summary', 'rows'):
        if len(a[k]) != len(b[k]):
            return f'{what}: {len(a[k])} {k} != {len(b[k])}'
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            if x != y:
                return f'{what}: {k}[{i}] {x} != {y}'
    return None


def same(a, b, kind, what='reports differ'):
    d = diff(a, b, what)
    if d:
        raise Violation(kind, d)


# --------------------------------------------------------- random worlds
def gen_latent(rng, base, spread=0.15, p_layer=0.6, const=False):
    l = {'type': 'scaling', 'base': base}
    for layer in ('dev', 'chp', 'lot'):
        if rng.random() < (0.85 if layer == 'dev' else p_layer) and not const:
            l[layer] = [1 - spread, 1 + spread]
    if rng.random() < 0.25 and not const:
        l['type'] = 'offset'
        for layer in ('dev', 'chp', 'lot'):
            if layer in l:
                l[layer] = [-spread * abs(base) / 3, spread * abs(base) / 3]
    return l


def gen_mech(rng, units=True, fams=('pow', 'vpow', 'sat', 'thr', 'log', 'fail'), unitary=None):
    fam = rng.choice(fams)
    m = {'fam': fam, 'unitary': rng.choice([0, 1]) if unitary is None else unitary, 'latents': {}}
    m['unit'] = rng.choice([None, None, 'h', 's', 'd', 'ms', 'us']) if units else None
    m['sign'] = rng.choice([1, 1, -1])
    m['sub'] = rng.random() < 0.1
    if fam == 'fail':
        m.update(thr=rng.choice([50, 200, 1000, 5000]), val=rng.choice([5, -3, 0.5, 2]))
        m['latents'] = {'a': gen_latent(rng, rng.choice([0.02, 0.1]), 0.5)}
        return m
    a = rng.choice([0.002, 0.01, 0.05])
    m['latents'] = {'a': gen_latent(rng, a)}
    if fam in ('pow', 'vpow', 'thr'):
        m['latents']['n'] = gen_latent(rng, rng.choice([0.15, 0.25, 0.5, 1.0]), 0.05)
    if fam == 'sat':
        m['tau'] = rng.choice([10, 100, 1000])
    if fam == 'thr':
        m['thr'] = rng.choice([60, 100, 120])
    return m


def gen_prm(rng, name, units=True, fams=('pow', 'vpow', 'sat', 'thr', 'log', 'fail'), max_mechs=2):
    p = {'kind': 'deg', 'unit': rng.choice([None, 'h', 's', 'ms']) if units else None,
         'init': gen_latent(rng, rng.choice([1.0, 5.0, 100.0]), 0.1)}
    eqn = rng.choice([None, None, 'prod', 'ksum'])
    p['eqn'] = eqn
    un = 1 if eqn == 'prod' else 0
    p['mechs'] = {f'{name}m{i}': gen_mech(rng, units, fams, un) for i in range(rng.randint(1, max_mechs))}
    if eqn == 'ksum':
        p['latents'] = {'k': gen_latent(rng, 1.5)}
    r = rng.random()
    if eqn == 'prod':
        if r < 0.5:
            p['cond'] = {'fam': 'scale', 'unitary': 1, 'latents': {'b': gen_latent(rng, 2.0)}}
    elif r < 0.5:
        p['cond'] = {'fam': 'lin', 'unitary': 0, 'latents': {'b': gen_latent(rng, 2.0)}}
    return p


def mech_names(rng):
    """Names of up to four mechanisms of one parameter, now and then look-alikes of each other."""
    if rng.random() < 0.8:
        return ['m0', 'm1', 'm2', 'm3']
    return rng.choice([['nbti', 'NBTI', 'Nbti', 'nbTi'], ['m', 'm_', '_m', 'm__'], ['m1', 'm10', 'm', 'm100'],
                       ['hci_x', 'hci', 'x_hci', 'hcix'], ['mech', 'mdl', 'mech_mdl', 'mechs']])


def gen_conds(rng):
    return {'temp': rng.choice([25, 55, 85, 105, 125, 150.5]), 'vdd': rng.choice([0.8, 1.0, 1.2])}


LOTS, CHPS, DEVS, STEPS = (8, 14), (9, 24), (20, 160), (22, 45)  # ranges of the occasional large values of each dimension


def some(rng, usual, large, p=0.015):
    """Usually one of a few small sizes, now and then a large one."""
    return rng.randint(*large) if rng.random() < p else rng.choice(usual)


def need(w, least=3):
    """Devices of each parameter that the measurements of a world ask for."""
    out = {p: least for p in w['prms']}
    for s in w['steps']:
        for p, n in s.get('counts', {}).items():
            if p in out:
                out[p] = max(out[p], n)
    return out


def cap(n, most):
    """Keeps usual sizes small; deliberately large ones stay."""
    return n if n >= 8 else min(n, most)


def gen_us(rng):
    """Stress durations from microseconds to years, as integer microseconds."""
    r = rng.random()
    if r < 0.6:
        return int(rng.choice([1, 2, 5, 10, 24, 100, 168, 500]) * 3600e6)
    if r < 0.75:
        return rng.randint(1, 999_999)
    if r < 0.9:
        return rng.randint(1, 5_000_000_000)
    return int(rng.choice([30, 365, 3650]) * 86400e6) + rng.randint(0, 1)


def gen_steps(rng, prms, env_conds=('temp', 'vdd'), n=None, sensors=True, max_dev=3):
    steps = []
    n = n or some(rng, [1, 2, 3, 4, 6, 9], STEPS)
    mt = isinstance(prms, dict) and any((p.get('cond') or {}).get('fam', '').startswith('mt') for p in prms.values())
    for i in range(n):
        if rng.random() < 0.5:
            ps = rng.sample(list(prms), rng.randint(1, len(prms)))
            counts = {p: rng.randint(1, max_dev) for p in ps}
            conds = gen_conds(rng)
            if mt:  # a condition that matters to (and is given for) measurements only
                conds = {'mt': rng.choice([0, 25, 125]), **conds}
            if rng.random() < 0.2:
                conds.pop('vdd')
            if sensors and rng.random() < 0.3:
                counts[rng.choice(list(conds))] = rng.randint(1, 3)
            if rng.random() < 0.04:
                counts = {}
            steps.append({'t': 'm', 'counts': counts, 'conds': conds, 'name': rng.choice(['m', 'meas', f'm{i}'])})
        else:
            steps.append({'t': 's', 'us': gen_us(rng), 'conds': gen_conds(rng), 'name': rng.choice(['s', f's{i}'])})
    return steps


def gen_env(rng, const=False):
    env = {}
    if const:
        return env
    for c, sp in (('temp', 3.0), ('vdd', 0.02)):
        if rng.random() < 0.8:
            e = {'type': rng.choice(['offset', 'offset', 'scaling'])}
            for layer in ('dev', 'chp', 'batch'):
                if rng.random() < 0.7:
                    e[layer] = [-sp, sp] if e['type'] == 'offset' else [0.97, 1.03]
            env[c] = e
    return env


def gen_scalar(rng, p=0.12):
    return rng.choice([['mech'], ['mech', 'prm'], ['cond'], ['prm'], ['mech', 'cond', 'prm']]) if rng.random() < p else []


def gen_world(rng, circ=True, units=True, const_env=False, **kw):
    prms = {}
    for i in range(rng.choice([1, 1, 2, 3])):
        n = 'pqr'[i]
        prms[n] = gen_prm(rng, n, units, **kw)
        if i and rng.random() < 0.1:
            prms[n]['mechs'] = {}
        if prms[n].get('cond') and rng.random() < 0.4:
            prms[n]['cond']['fam'] = {'lin': 'mtlin', 'scale': 'mtscale'}[prms[n]['cond']['fam']]
        if rng.random() < 0.08:
            prms[n]['init'] = {'const': rng.choice([0, 3.5, 100])}
    if circ and rng.random() < 0.4:
        args = list(rng.sample(list(prms), rng.randint(1, len(prms)))) + ['c'] + (['temp'] if rng.random() < 0.5 else [])
        prms['osc'] = {'kind': 'circ', 'args': args, 'latents': {'c': gen_latent(rng, 0.5)}}
    w = {'seed': rng.getrandbits(32), 'lots': some(rng, [1, 1, 2, 3], LOTS), 'chps': some(rng, [1, 1, 2, 3], CHPS), 'prms': prms,
         'unit': rng.choice([None, 'h', 's']) if units else None, 'env': gen_env(rng, const_env), 'instms': {},
         'name': rng.choice(['t', 'HTOL "x"', 'naïve']), 'desc': 'd', 'forms': rng.random() < 0.25, 'scalar': gen_scalar(rng)}
    for p in prms:
        if rng.random() < 0.3:
            w['instms'][p] = {'precision': rng.choice([None, 3, 5]), 'error': rng.choice([None, [-0.01, 0.01]]),
                              'lims': rng.choice([None, [0, 50]])}
    w['steps'] = gen_steps(rng, prms)
    return w


WORLD_LISTS = ['world.steps', 'world.env', 'world.instms', 'world.prms']
WORLD_INTS = {'world.lots': 1, 'world.chps': 1, 'world.steps.*.us': 1, 'world.steps.*.counts.*': 1}
