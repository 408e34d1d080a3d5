"""C07: equations that refuse arrays give the same results as vectorised ones."""
import hashlib

import numpy as np

from dst import deg, seams, world as W
from dst.core import Prop, Violation
from dst.util import must


class ScalarValueError(ValueError):
    pass


EXC = {'value': ScalarValueError, 'zero': ZeroDivisionError, 'type': TypeError, 'overflow': OverflowError,
       'keyboard': seams.SimKeyboardInterrupt}


def forms(path, kw, out):
    """Makes some values of parameter and shift equations whole numbers, and returns those of scalar evaluations as ints."""
    with np.errstate(all='ignore'):
        out = np.where(np.floor(np.multiply(out, 8)) % 2 == 0, np.rint(out), out)[()]
    if np.ndim(out) or any(np.ndim(v) for v in kw.values()):
        return out
    return int(out) if np.isfinite(out) and out == int(out) and abs(out) < 2 ** 53 else float(out)


class C07(Prop):
    id = 'C07'
    runs = {'quick': 700, 'thorough': 30000}
    rule = ('Random models and tests run once with vectorised equations and once with array evaluations refused by '
            'ValueError: always, naturally (more than one element), for a random subset of the equations, of the calls, or '
            'from some call on; some runs with a concurrent simulation or an aborted one before, some with an error raised '
            'for a single device. In half of the runs some values are whole and scalar evaluations return those as ints.')
    measure = 'distinct (refusal mode, refused equations, model shape) configurations and scalar-error positions'
    assumptions = ['Both variants compute every element with the same scalar arithmetic, so reports agree to 1e-9']
    shrink_lists = ['noise', 'sched.force'] + W.WORLD_LISTS + ['world.prms.*.mechs']
    shrink_ints = {**W.WORLD_INTS, 'ndev': 1}

    def setup(self):
        seams.lib()
        seams.monitor()

    def gen(self, rng, tier):
        w = W.gen_world(rng)
        w['scalar'] = []
        w['lots'], w['chps'] = W.cap(w['lots'], 2), W.cap(w['chps'], 3)
        if rng.random() < 0.02:
            w['lots'], w['chps'] = rng.choice([(1, 12), (2, 8), (9, 1), (3, 5), (9, 9)])
        while w['lots'] * w['chps'] > 100:
            w['lots'], w['chps'] = max(1, w['lots'] // 2), max(1, w['chps'] // 2)
        most = min(W.some(rng, [3], (8, 40), 0.04), max(3, 160 // (w['lots'] * w['chps'])))
        w['steps'] = W.gen_steps(rng, w['prms'], n=rng.choice([1, 2, 3, 4]), max_dev=most)
        if not any(s['t'] == 'm' for s in w['steps']):
            w['steps'].append({'t': 'm', 'counts': {p: 2 for p in w['prms']}, 'conds': {'mt': 25, **W.gen_conds(rng)}, 'name': 'm'})
        for p in w['prms'].values():
            if p['kind'] == 'deg':
                for m in [*p['mechs'].values(), *([p['cond']] if p.get('cond') else [])]:
                    m['utype'] = rng.choice([None, None, 'npint', 'npfloat', 'np32'])
        sc = {'world': w, 'ndev': max(W.need(w).values()), 'mode': rng.choice(['all', 'natural', 'paths', 'calls', 'from']),
              'rseed': rng.getrandbits(32), 'p': rng.choice([0.1, 0.5, 0.9]), 'start': rng.choice([1, 2, 5, 40]),
              'scalar': [rng.random(), rng.choice(sorted(EXC))] if rng.random() < 0.25 else None}
        sc['forms'] = rng.random() < 0.5
        sc = deg.chaos(rng, sc)
        if sc['scalar'] or w['lots'] * w['chps'] * sc['ndev'] > 60:
            sc['noise'], sc['abort'] = [], None
        return sc

    def rand(self, sc, *parts):
        h = hashlib.blake2b(repr((sc['rseed'], *parts)).encode(), digest_size=8).digest()
        return int.from_bytes(h, 'big') / 2 ** 64

    def run(self, sc, ctx):
        wd = sc['world']
        circ = [p for p in wd['prms'] if wd['prms'][p]['kind'] == 'circ']
        quant = [p for p in wd['prms'] if p not in circ] + [f'{p}.cond' for p in wd['prms']]

        def post(path, kw, out):
            return forms(path, kw, out) if path in quant else out
        twin = W.World(wd, elementwise=True)
        twin.taps.post = post if sc.get('forms') else None
        _, _, want = deg.run_world({**sc, 'noise': [], 'abort': None}, ctx, twin)
        want = W.full(want)
        w = W.World(wd, elementwise=True)
        w.taps.post = twin.taps.post
        count, scal = {}, [0]
        fire = [None]
        where = {}

        def hook(path, kw):
            arrays = {k: np.size(v) for k, v in kw.items() if np.ndim(v)}
            if path in circ or not kw:
                return None
            if not arrays:
                scal[0] += 1
                if scal[0] == fire[0]:
                    where['hit'] = path
                    raise self.exc
                return None
            n = count[path] = count.get(path, 0) + 1
            m = sc['mode']
            if m == 'all' or (m == 'natural' and max(arrays.values()) > 1) or \
                    (m == 'paths' and self.rand(sc, path) < sc['p']) or \
                    (m == 'calls' and self.rand(sc, path, n) < sc['p']) or (m == 'from' and n >= sc['start']):
                ctx.fault('array_refused')
                ctx.sig(m, path)
                raise ValueError('The truth value of an array with more than one element is ambiguous (simulated)')
            return None
        w.taps.hook = hook
        _, _, got = deg.run_world(sc, ctx, w)
        got = W.full(got)
        for k in ('name', 'desc', 'summary'):
            if got[k] != want[k]:
                raise Violation('fallback-differs', f'{k} {got[k]} != {want[k]}')
        if len(got['rows']) != len(want['rows']):
            raise Violation('fallback-differs', f'{len(got["rows"])} rows, vectorised {len(want["rows"])}')
        for a, b in zip(got['rows'], want['rows']):
            x, y = a[-1], b[-1]
            same = x == y or (isinstance(x, float) and isinstance(y, float) and abs(x - y) <= 1e-9 * max(abs(x), abs(y)))
            if a[:-1] != b[:-1] or not same:
                raise Violation('fallback-differs', f'device by device {a}, vectorised {b}')
        if sc['scalar'] and scal[0]:
            # the same run again, now with an error for a single device
            fire[0], n = 1 + int(sc['scalar'][0] * scal[0]), scal[0]
            count.clear()
            scal[0] = 0
            self.exc = EXC[sc['scalar'][1]]('simulated error of a single device')
            try:
                deg.run_world(sc, ctx, w)
                err = None
            except BaseException as e:
                err = e
                while isinstance(err, Violation) and err.__cause__ is not None:
                    err = err.__cause__
            if 'hit' in where:
                ctx.fault(f'scalar:{sc["scalar"][1]}')
                ctx.sig('scalar', where['hit'], sc['scalar'][1])
                if err is None:
                    raise Violation('error-replaced', f'{sc["scalar"][1]} error of one device in {where["hit"]} was swallowed')
                if err is not self.exc:
                    if not isinstance(err, Exception):
                        raise err
                    raise Violation('error-replaced', f'{sc["scalar"][1]} error of one device in {where["hit"]} reached the '
                                    f'caller as {type(err).__name__}: {err}')
            elif err is not None:
                raise err


PROP = C07()
