"""C02: concurrent simulations sharing models are isolated from each other."""
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import warnings

import numpy as np
from pandas._config import config as pandas_config

from dst import real, seams, world as W
from dst.core import Prop, Violation
from dst.util import collect, must


def process_state():
    lg, root = logging.getLogger('gerabaldi'), logging.getLogger()
    st = np.random.get_state()
    return {'warning filters': list(warnings.filters), 'showwarning': warnings.showwarning,
            'floating point error handling': dict(np.geterr()), 'numpy error callback': np.geterrcall(),
            'global numpy generator': (st[0], st[1].tolist(), st[2], st[3], st[4]),
            'global python generator': random.getstate(),
            'logging': (lg.level, list(lg.handlers), lg.disabled, lg.propagate, list(lg.filters), root.level,
                        list(root.handlers), logging.root.manager.disable),
            'working directory': os.getcwd(), 'recursion limit': sys.getrecursionlimit(),
            'print options': np.get_printoptions(), 'pandas options': str(pandas_config._global_config),
            'locale': locale.setlocale(locale.LC_ALL), 'switch interval': sys.getswitchinterval(),
            'environment variables': dict(os.environ), 'import path': list(sys.path),
            'garbage collection': (gc.isenabled(), gc.get_threshold()), 'trace hooks': (sys.gettrace(), sys.getprofile(), sys.excepthook),
            'signal handler': signal.getsignal(signal.SIGINT), 'decimal context': str(decimal.getcontext())}


def unchanged(before):
    after = process_state()
    for k in before:
        if before[k] != after[k]:
            how = f': {before[k]} to {after[k]}' if isinstance(before[k], int) or k == 'working directory' or k.startswith('floating') else ''
            raise Violation('process-state', f'{k} changed{how}')


def state_vals(st):
    def conv(x):
        if isinstance(x, dict):
            return {k: conv(v) for k, v in sorted(x.items())}
        return np.asarray(x).tolist()
    return {k: conv(getattr(st, k)) for k in ('latent_var_vals', 'init_prm_vals', 'curr_prm_vals', 'init_deg_mech_vals',
                                              'curr_deg_mech_vals')}


class Broken(RuntimeError):
    pass


class C02(Prop):
    id = 'C02'
    runs = {'quick': 450, 'thorough': 20000}
    rule = ('Random device models, environments and tests; 2-4 tasks (simulations of the shared or another specification, '
            'state generation, report exports, simulations that fail half-way) on shared objects under a seeded line-level schedule, compared with each '
            'task run alone on freshly built objects with the same draws.')
    measure = 'distinct hashes of the executed switch sequences (task pair and library line of every switch)'
    assumptions = ['Preemption points are line boundaries of library code and model equation calls']
    shrink_lists = ['sched.force', 'tasks'] + W.WORLD_LISTS + ['steps2']
    shrink_ints = W.WORLD_INTS
    known = {'nested-iteration': {'zip': True}}

    def setup(self):
        seams.lib()
        seams.monitor()

    def gen(self, rng, tier):
        w = W.gen_world(rng)
        w['steps'] = w['steps'][:6]
        w['lots'], w['chps'] = W.cap(w['lots'], 2), W.cap(w['chps'], 2)
        kinds = ['sim'] + [rng.choice(['sim', 'sim', 'sim2', 'init', 'export', 'fail']) for _ in range(rng.choice([1, 1, 2, 3]))]
        sc = {'world': w, 'steps2': W.gen_steps(rng, w['prms'], n=rng.randint(1, 3)), 'tasks': kinds,
              'sched': seams.gen_sched(rng, seams.LIBFILES, 0.5), 'state_first': rng.random() < 0.3,
              'unseeded': rng.choice([None, None, 'sim', 'init', 'export']), 'main_solo': rng.random() < 0.3,
              'fail_at': rng.choice([1, 3, 20, 60, rng.randint(1, 200)]), 'gc': rng.random() < 0.7,
              'fpe': rng.choice([None, None, {'all': 'ignore'}, {'invalid': 'ignore'}, {'over': 'ignore', 'under': 'warn'}])}
        return sc

    def task(self, w, sc, kind, key, ctx, st):
        def go():
            if sc.get('fpe'):
                np.seterr(**sc['fpe'])
            had = np.geterr()
            try:
                return body()
            finally:
                if np.geterr() != had:
                    raise Violation('process-state', f'floating point error handling of the calling thread changed from {had} to {np.geterr()}')

        def body():
            if kind == 'sim':
                return W.full(w.simulate(key, None, st, ctx))
            if kind == 'sim2':
                return W.full(w.simulate(key, w.build_spec(sc['steps2']), None, ctx))
            if kind == 'fail':
                # its equations fail after a while: the others and the process must not notice
                try:
                    w.simulate(key, None, st, ctx)
                except Broken:
                    ctx.fault('failed_neighbour')
                return None
            w.draws.begin(key)
            if kind == 'init':
                counts = {p: 2 for p in w.w['prms']}
                return state_vals(seams.lib().gen_init_state(w.dev, counts, w.w['chps'], w.w['lots']))
            rep = w.simulate(key, w.build_spec(sc['steps2']), None, ctx)
            return rep.export_to_json(time_unit='s')
        return go

    def run(self, sc, ctx):
        if sc.get('zip'):
            M = W.World({'seed': 0, 'lots': 1, 'chps': 1, 'prms': {}, 'steps': []}).M
            spec = M.TestSpec([M.MeasSpec({'p': 1}, {'t': i}) for i in range(4)])
            if [(a.conditions['t'], b.conditions['t']) for a, b in zip(spec, spec)] != [(i, i) for i in range(4)]:
                raise Violation('nested-iteration', 'two loops over one TestSpec at the same time share their position')
            return
        keys = [f't{i}' for i in range(len(sc['tasks']))]
        if not sc.get('gc', True):
            gc.disable()
        try:
            with np.errstate(**(sc.get('fpe') or {})), warnings.catch_warnings():
                # filters of the caller's own, so that any filter a library would install makes a difference
                warnings.resetwarnings()
                warnings.filterwarnings('ignore', module='.*')
                self.go(sc, ctx, keys)
        finally:
            gc.enable()

    def go(self, sc, ctx, keys):
        failing = {k for k, t in zip(keys, sc['tasks']) if t == 'fail'}

        def hooked(w):
            n = {}

            def hook(path, kw):
                k = seams.TASK.key
                if k in failing:
                    n[k] = n.get(k, 0) + 1
                    if n[k] >= sc['fail_at']:
                        raise Broken('simulated')
            if failing:
                w.taps.hook = hook
            return w

        def init(w):
            if not sc['state_first']:
                return None
            w.draws.begin('state')
            counts = {p: 3 for p in w.w['prms']}
            return seams.lib().gen_init_state(w.dev, counts, w.w['chps'], w.w['lots'])

        before = process_state()
        if sc.get('unseeded'):
            # real, unseeded random variables: results are not predictable but shared process state must not change
            import gerabaldi.models as M
            kinds = ['normal', 'uniform', 'gamma']
            w = W.World(sc['world'], lambda path, r: real.real_rv(M, r, kinds[real.pick(0, path) % 3], None))
            must(self.task(w, sc, sc['unseeded'], 'u', ctx, None), f'{sc["unseeded"]} with unseeded variables')
            unchanged(before)
        twin = hooked(W.World(sc['world']))
        st = init(twin)
        solo = [must(self.task(twin, sc, k, key, ctx, st), f'{k} alone') for k, key in zip(sc['tasks'], keys)]
        unchanged(before)
        w = hooked(W.World(sc['world']))
        st = init(w)
        sch = seams.Sched(sc['sched'], len(keys), ctx)
        w.taps.sched = sch
        got = collect(sch.run([self.task(w, sc, k, key, ctx, st) for k, key in zip(sc['tasks'], keys)], keys),
                      'concurrent run')
        w.taps.sched = None
        unchanged(before)
        for k, key, a, b in zip(sc['tasks'], keys, solo, got):
            self.compare(k, a, b, f'{k} task {key} differs from running alone')
        if sc['main_solo']:
            again = must(self.task(w, sc, 'sim', keys[0], ctx, st), 'simulation after the concurrent ones')
            self.compare('sim', solo[0], again, 'a later simulation on the shared objects differs')

    def compare(self, kind, a, b, what):
        if kind.startswith('sim'):
            W.same(a, b, 'not-isolated', what)
        elif repr(a) != repr(b):
            raise Violation('not-isolated', what)


PROP = C02()
