"""C19: each reading passes through its own instrument exactly once."""
import math

import numpy as np
import pandas as pd

from dst import deg, seams, world as W
from dst.core import Prop, Violation
from dst.util import must

VALS = ['nan', 'inf', '-inf', 0.0, -0.0, 1.0, 9.5, 0.5, 123.456, -123.456, 1e-9, 3.3e-30, 2.5e30, 999.9995, 0.1, 99.95, 1e5, -7e-4,
        31.4159265, 12345678.9, -0.045, 2 / 3, 1.2345e-307, -4.56789e-312, 5e-324, 1.2e308, -8.7654321e299]


def val(x):
    return float(x)


def table_rv(log, path, lo, hi, seed, weird, ctx):
    from gerabaldi.models import RandomVar

    class SeqRV(RandomVar):
        def __init__(self):
            super().__init__('uniform')
            self.gen = np.random.Generator(np.random.PCG64(seed))

        def sample(self, quantity=1):
            out = self.gen.uniform(lo, hi, quantity)
            for i in np.ndindex(*out.shape):
                if weird and self.gen.random() < weird:
                    out[i] = self.gen.choice([np.nan, np.inf, -np.inf])
                    ctx.fault('undefined_error_draw')
            log.setdefault((path, seams.TASK.key), []).extend(float(x) for x in out.ravel())
            return out

        def __deepcopy__(self, memo):
            return self
    return SeqRV()


def rounded(x, p):
    """Acceptable roundings of x to p significant figures (two at a tie)."""
    if x == 0 or not math.isfinite(x) or not p:
        return [x]
    from decimal import Decimal
    d = Decimal(x)
    step = Decimal(10) ** (d.adjusted() - p + 1)
    n = int(d / step)
    out = []
    for k in (n - 1, n, n + 1):
        if abs(k * step - d) <= step / 2 * (1 + Decimal('1e-7')):
            out.append(float(k * step))
    return out


def expect(x, inst):
    """Acceptable readings of a true value x with its error already added."""
    if math.isnan(x):
        return ['nan']
    out = rounded(x, inst.get('precision'))
    if inst.get('lims'):
        lo, hi = inst['lims']
        out = [min(max(v, lo), hi) for v in out]
    return out


def matches(got, x, inst):
    for e in expect(x, inst):
        if e == 'nan':
            return got == 'nan'
        if got == 'nan':
            continue
        exact = not inst.get('precision') or not math.isfinite(e)
        if got == e or not exact and abs(got - e) <= 1e-12 * abs(e):
            return True
    return False


def assign(reads, trues, draws, inst):
    """Whether every reading can be explained by a draw of its own."""
    adj = [[j for j, d in enumerate(draws) if matches(r, t + d, inst)] for r, t in zip(reads, trues)]
    owner = {}

    def place(i, seen):
        for j in adj[i]:
            if j not in seen:
                seen.add(j)
                if j not in owner or place(owner[j], seen):
                    owner[j] = i
                    return True
        return False
    for i in range(len(reads)):
        if not place(i, set()):
            return None
    return sorted(owner)


class C19(Prop):
    id = 'C19'
    runs = {'quick': 1300, 'thorough': 60000}
    rule = ('Random tests whose true readings are scripted per step and device (ordinary, huge, tiny, zero, infinite and '
            'undefined values), with instruments of every combination of error source (some draws undefined), precision '
            'and range on any subset of parameters, circuits and sensors, one instrument object shared by several of them in some '
            'runs, some with concurrent simulations or an aborted run before; every reading against the instrument '
            'chain applied to a draw of its own. Plus direct measure calls on scalars, arrays and series.')
    measure = 'distinct (instrument settings, value classes, population) combinations, plus switch sequences'
    assumptions = ['At an exact rounding tie either neighbour is accepted']
    shrink_lists = ['world.steps', 'world.instms', 'world.prms', 'noise', 'sched.force', 'direct']
    shrink_ints = {'world.lots': 1, 'world.chps': 1}

    def setup(self):
        seams.lib()
        seams.monitor()

    def gen(self, rng, tier):
        allnames = rng.choice([['p', 'q', 'osc'], ['p1', 'p', 'p2'], ['vth', 'hum_vt', 'v']])
        names = allnames[:rng.choice([1, 2, 3])]
        ndev = W.some(rng, [1, 2, 3, 5], W.DEVS)
        prms = {}
        for n in names:
            if n == allnames[2]:
                prms[n] = {'kind': 'circ', 'args': ['mt'], 'latents': {}}
            else:
                prms[n] = {'kind': 'deg', 'init': {'base': 0.0}, 'mechs': {'m': {'fam': 'none', 'unitary': 0, 'latents': {}}},
                           'cond': {'fam': 'id', 'cond': 'mt', 'unitary': 0, 'latents': {}}}
        steps = []
        pool = VALS if rng.random() < 0.6 else [v for v in VALS if isinstance(v, float)]
        for i in range(rng.choice([1, 2, 3])):
            counts = {p: rng.randint(1, ndev) for p in rng.sample(names, rng.randint(1, len(names)))}
            if rng.random() < 0.5:
                counts['hum'] = rng.randint(1, 3)
            steps.append({'t': 'm', 'counts': counts, 'conds': {'mt': i, 'hum': rng.choice([0.5, 0, 1e-9, 55.55])}, 'name': 'm'})
            if rng.random() < 0.3:
                steps.append({'t': 's', 'us': int(3600e6), 'conds': {'temp': 100}, 'name': 's'})
        instms = {}
        for n in names + ['hum', 'unused']:
            if rng.random() < 0.7:
                i = {'precision': rng.choice([None, 1, 2, 3, 5, 12]), 'weird': rng.choice([0, 0, 0, 0.2]),
                     'error': rng.choice([None, [-0.01, 0.01], [-1e-12, 1e-12], [5, 6], [-1e6, 1e6]]),
                     'lims': rng.choice([None, None, [0, 50], [-1, 1e3], [10, 20], [-1e300, 1e300], [5, 5],
                                         [0.123456, 49.98765], [1 / 3, 31.4159265], [-123.4567, 8.7654321]])}
                if instms and rng.random() < 0.25:
                    src = rng.choice(sorted(instms))
                    src = instms[src].get('same', src)
                    i = dict(instms[src], same=src)
                instms[n] = i
        wd = {'seed': rng.getrandbits(32), 'lots': W.some(rng, [1, 2], W.LOTS), 'chps': W.some(rng, [1, 2], W.CHPS), 'prms': prms, 'unit': 'h',
              'env': {}, 'instms': instms, 'steps': steps, 'forms': rng.random() < 0.25}
        sc = {'world': wd, 'ndev': ndev, 'pool': pool, 'direct': [{'shape': rng.choice(['float', 'int', 'array', 'series']),
                                                                   'vals': [rng.choice(pool) for _ in range(rng.randint(1, 6))]}
                                                                  for _ in range(rng.choice([0, 0, 1, 2]))],
              'dinst': {'precision': rng.choice([None, 1, 3, 6]), 'error': rng.choice([None, [-0.5, 0.5]]), 'weird': 0,
                        'lims': rng.choice([None, [0, 10], [0.123456, 9.98765]])}}
        return deg.chaos(rng, sc)

    def run(self, sc, ctx):
        import gerabaldi.models as M
        wd, log = sc['world'], {}
        for n, i in wd['instms'].items():
            if i.get('same') and i['same'] not in wd['instms']:
                raise ValueError('shared instrument was dropped')

        def rvf(path, rng):
            name = path.split('.')[1]
            i = wd['instms'][name]
            return table_rv(log, name, rng[0], rng[1], wd['seed'] + len(name) * 7 + ord(name[0]), i.get('weird'), ctx)
        w = W.World(wd, rvf=rvf)

        def true(tag, prm, l, c, d):
            h = (wd['seed'] * 31 + int(tag) * 1009 + sorted(wd['prms']).index(prm) * 9176 + l * 331 + c * 53 + d * 7) * 2654435761 % 2 ** 32
            return val(sc['pool'][(h >> 8) % len(sc['pool'])])

        def hook(path, kw):
            if 'mt' in kw and path.split('.')[0] in wd['prms']:
                tag = np.asarray(kw['mt'])
                if tag.ndim == 3:
                    out = np.empty(tag.shape)
                    for i in np.ndindex(*tag.shape):
                        out[i] = true(tag[i], path.split('.')[0], *i)
                    return out
            return None
        w.taps.hook = hook
        for k in list(log):
            del log[k]
        _, _, rep = deg.run_world(sc, ctx, w)
        mine = {n: list(v) for (n, key), v in log.items() if key == sc.get('key', 't0')}
        used = {}
        per = {}
        for p, i, l, c, d, t, v in W.rows(rep):
            per.setdefault((i, p), []).append(((l, c, d), v))
        for i, s in enumerate(wd['steps']):
            if s['t'] != 'm':
                continue
            for p, n in s['counts'].items():
                inst = wd['instms'].get(p, {})
                src = inst.get('same', p)
                rws = per.get((i, p), [])
                if len(rws) != (n if p == 'hum' else n * wd['lots'] * wd['chps']):
                    raise Violation('rows', f'step {i}: {len(rws)} readings of {p}')
                trues = [s['conds']['hum'] if p == 'hum' else true(s['conds']['mt'], p, *at) for at, _ in rws]
                reads = [v for _, v in rws]
                self.judge(reads, trues, inst, mine.get(src, []), used.setdefault(src, set()), f'step {i} {p}')
                for x in trues:
                    if not math.isfinite(x) or x == 0:
                        ctx.fault('undefined_reading' if math.isnan(x) else 'infinite_reading' if x else 'zero_reading')
        for j, d in enumerate(sc['direct']):
            self.direct(sc, d, j, M, ctx)
        ctx.sig(sorted((n, str(i)) for n, i in wd['instms'].items()), wd['lots'], wd['chps'], [s.get('counts') for s in wd['steps']])

    def judge(self, reads, trues, inst, draws, used, what):
        if not inst.get('error'):
            for r, t in zip(reads, trues):
                if not matches(r, t, inst):
                    raise Violation('reading', f'{what}: read {r}, true value {t}, instrument {inst}')
            return
        left = [j for j in range(len(draws)) if j not in used]
        # usually the draws are used in row order
        n = len(reads)
        if len(left) >= n and all(matches(r, t + draws[j], inst) for r, t, j in zip(reads, trues, left)):
            used.update(left[:n])
            return
        got = assign(reads, trues, [draws[j] for j in left], inst)
        if got is None:
            raise Violation('reading', f'{what}: readings {reads[:6]} of true values {trues[:6]} by {inst} are not explained by '
                            f'one fresh draw each of {[draws[j] for j in left][:12]}')
        used.update(left[j] for j in got)

    def direct(self, sc, d, j, M, ctx):
        log, i = {}, sc['dinst']
        err = table_rv(log, 'd', *i['error'], 5 + j, 0, ctx) if i['error'] else None
        ins = M.MeasInstrument('x', i['precision'], err, tuple(i['lims']) if i['lims'] else None)
        vals = [val(v) for v in d['vals']]
        if d['shape'] == 'float':
            vals, arg = vals[:1], vals[0]
        elif d['shape'] == 'int':
            vals, arg = [7], 7
        elif d['shape'] == 'array':
            arg = np.array(vals)
        else:
            arg = pd.Series(vals, index=[10 * k + 3 for k in range(len(vals))])
        keep = arg.copy() if hasattr(arg, 'copy') else arg
        out = must(lambda: ins.measure(arg), f'measuring {d}')
        if not np.array_equal(np.asarray(keep), np.asarray(arg), equal_nan=True):
            raise Violation('input-changed', f'measuring {d} changed its argument')
        reads = [W.num(x) for x in np.atleast_1d(np.asarray(out))]
        if len(reads) != len(vals):
            raise Violation('rows', f'measuring {d} returned {len(reads)} values')
        draws = [x for v in log.values() for x in v]
        self.judge(reads, vals, i, draws, set(), f'direct measurement {d}')


PROP = C19()
