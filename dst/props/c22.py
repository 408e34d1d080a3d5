"""C22: restarting from a saved initial state reproduces the same devices."""
import base64
import copy
import json
import os
import pickle
import shutil
import tempfile
from datetime import timedelta

import numpy as np

from dst import seams, world as W
from dst.core import Prop, Violation
from dst.server import Child
from dst.util import collect, must

KIDS = {}
WAYS = ['again', 'pickle', 'copy', 'rebuild', 'json', 'process', 'crash', 'abort', 'threads', 'other', 'fail']


def unjson(x):
    if isinstance(x, dict):
        return {k: unjson(v) for k, v in x.items()}
    return np.array(x)


def tojson(x):
    if isinstance(x, dict):
        return {k: tojson(v) for k, v in x.items()}
    return np.asarray(x).tolist()


def from_bytes(arg):
    """Entry point in child processes: simulates from a pickled state."""
    sc, blob = arg
    w = W.World(sc['world'])
    st = pickle.loads(base64.b64decode(blob))
    return W.full(w.simulate('k', None, st))


def listed(got):
    return {**got, 'rows': [tuple(r) for r in got['rows']],
            'summary': [tuple(r[:6]) + (tuple(tuple(c) for c in r[6]),) for r in got['summary']]}


def shifted(f, us):
    return {**f, 'rows': [r[:5] + (r[5] + us,) + r[6:] for r in f['rows']],
            'summary': [r[:4] + (r[4] + us, r[5] + us) + r[6:] for r in f['summary']]}


class C22(Prop):
    id = 'C22'
    runs = {'quick': 500, 'thorough': 15000}
    rule = ('Random models and tests simulated from a generated state that is reused several times in random ways: again, '
            'copied, pickled, rebuilt from its values, in another process, in another process after the first was killed '
            'at a random library line of its simulation, after an interrupted or failed simulation, concurrently, or after '
            'another test used it. Reports are compared with a simulation that generated the state itself; other states hold '
            'more devices and parameters than the test measures and are compared with a state holding the measured devices '
            'only.')
    measure = 'distinct (reuse sequence, elapsed offset kind, state size kind) tuples and switch sequences'
    assumptions = ['A state is written out with pickle or as plain numbers of its documented attributes',
                   'With larger states the environment varies by chip and batch only (device draws depend on the population)']
    shrink_lists = ['ways', 'sched.force'] + W.WORLD_LISTS
    shrink_ints = {'offset': 0, 'extra': 0, **W.WORLD_INTS}

    def setup(self):
        seams.lib()
        seams.monitor()

    def finish(self):
        for k in KIDS.values():
            k.close()
        KIDS.clear()

    def gen(self, rng, tier):
        w = W.gen_world(rng, fams=('pow', 'vpow', 'log', 'fail', 'thr', 'sat'))
        w['lots'], w['chps'] = W.cap(w['lots'], 2), W.cap(w['chps'], 2)
        w['steps'] = W.gen_steps(rng, w['prms'], n=rng.choice([1, 2, 3, 4, 6]), max_dev=W.some(rng, [3], W.DEVS))
        if not any(s['t'] == 'm' for s in w['steps']):
            w['steps'].append({'t': 'm', 'counts': {p: 2 for p in w['prms']}, 'conds': {'mt': 25, **W.gen_conds(rng)}, 'name': 'm'})
        extra = rng.choice([0, 0, 1, 3])
        if extra:
            for e in w['env'].values():
                e.pop('dev', None)
            for i in w['instms'].values():
                i['precision'] = None  # rounding would magnify differences within the precision of the search
            for s in w['steps']:
                if s['t'] == 's':
                    s['us'] = int(rng.choice([1, 5, 24, 168, 1000]) * 3600e6)
        ways = [rng.choice(WAYS) for _ in range(rng.choice([1, 2, 3, 4]))]
        return {'world': w, 'ways': ways, 'extra': extra, 'offset': rng.choice([0, 0, 1, 5_000_000, 3600_000_000 * 24 * 400,
                                                                               rng.getrandbits(45), 36_000_000 * rng.randint(1, 10 ** 5)]),
                'okind': rng.choice(['td', 'td', 'num', 'ctor']), 'counts': rng.choice(['report', 'explicit']),
                'frac': [rng.random() for _ in ways], 'sched': seams.gen_sched(rng, seams.LIBFILES)}

    def state(self, w, sc, offset):
        """Generates the initial state through the public interface."""
        G, M = seams.lib(), w.M
        td = timedelta(microseconds=offset)
        el = td
        if sc['okind'] == 'num' and offset % 36_000_000 == 0:
            el = offset / 3600e6
        w.draws.begin('k')
        kw = {} if sc['okind'] == 'ctor' else {'elapsed_time': el}
        need = {}
        for s in sc['world']['steps']:
            for p, n in s.get('counts', {}).items():
                if p in sc['world']['prms']:
                    need[p] = max(n, need.get(p, 0))
        if sc['extra'] or (sc['counts'] == 'explicit' and set(need) == set(sc['world']['prms'])):
            if sc['extra']:
                # plain parameters at least as many as anything measured, so that circuit parameters fit any slice
                top = max(need.values(), default=1)
                need = {p: top + sc['extra'] + (i % 2) for i, p in enumerate(sc['world']['prms'])}
            st = G.gen_init_state(w.dev, need, sc['world']['chps'], sc['world']['lots'], **kw)
        else:
            st = G.gen_init_state(w.dev, quantity_info=M.SimReport(w.spec), **kw)
        if sc['okind'] == 'ctor':
            if offset % 36_000_000 == 0:
                el = offset / 3600e6
            st = M.SimState(st.init_prm_vals, st.init_deg_mech_vals, st.latent_var_vals, el)
        return st

    def reuse(self, way, frac, sc, ctx, w, st, tmp):
        """Yields the reports produced by one way of reusing the state."""
        G = seams.lib()
        if way == 'pickle':
            st2 = pickle.loads(pickle.dumps(st))
            yield W.full(w.simulate('k', None, st2, ctx))
        elif way == 'copy':
            yield W.full(w.simulate('k', None, copy.deepcopy(st), ctx))
        elif way == 'rebuild':
            yield W.full(w.simulate('k', None, w.M.SimState(st.init_prm_vals, st.init_deg_mech_vals, st.latent_var_vals,
                                                            st.elapsed), ctx))
        elif way == 'json':
            txt = json.dumps([tojson(st.init_prm_vals), tojson(st.init_deg_mech_vals), tojson(st.latent_var_vals)])
            yield W.full(w.simulate('k', None, w.M.SimState(*(unjson(x) for x in json.loads(txt)), st.elapsed), ctx))
        elif way in ('process', 'crash'):
            path = os.path.join(tmp, 'state.pkl')
            if way == 'crash':
                with seams.LineCounter() as lc:
                    w.simulate('k', None, st, ctx)
                at = 1 + int(frac * lc.n)
                pid = os.fork()
                if pid == 0:
                    try:
                        with open(path, 'wb') as f:
                            f.write(pickle.dumps(st))

                        def die(code, line, n=[0]):
                            n[0] += 1
                            if n[0] == at:
                                os._exit(77)
                        seams.set_hook(die)
                        w.simulate('k', None, st)
                    finally:
                        os._exit(1)
                if os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) != 77:
                    raise RuntimeError('the child process did not reach its crash point')
                ctx.fault('process_crash')
                ctx.sig('crash', at * 50 // max(1, lc.n))
            else:
                with open(path, 'wb') as f:
                    f.write(pickle.dumps(st))
            kid = KIDS.get(0)
            if kid is None:
                kid = KIDS[0] = Child(31337)
            ctx.fault('fresh_process')
            with open(path, 'rb') as f:
                ans = kid.ask('c22', 'from_bytes', [sc, base64.b64encode(f.read()).decode()])
            if 'exc' in ans:
                raise Violation('unexpected-exception', f'the simulation in another process raised {ans["exc"]}')
            yield listed(ans['ok'])
        elif way == 'abort':
            with seams.LineCounter() as lc:
                w.simulate('k', None, st, ctx)
            exc = seams.SimKeyboardInterrupt('simulated')
            try:
                with seams.LineCounter(1 + int(frac * lc.n), exc):
                    w.simulate('k', None, st, ctx)
            except seams.SimKeyboardInterrupt:
                ctx.fault('abort')
            yield W.full(w.simulate('k', None, st, ctx))
        elif way == 'fail':
            n = [0]

            def count(*_):
                n[0] += 1
            w.taps.hook = count
            w.simulate('k', None, st, ctx)
            at, n[0] = 1 + int(frac * n[0]), 0

            def hook(*_):
                n[0] += 1
                if n[0] == at:
                    raise RuntimeError('simulated model failure')
            w.taps.hook = hook
            try:
                w.simulate('k', None, st, ctx)
            except RuntimeError:
                ctx.fault('model_failure')
            w.taps.hook = None
            yield W.full(w.simulate('k', None, st, ctx))
        elif way == 'threads':
            sch = seams.Sched(sc['sched'], 2, ctx)
            w.taps.sched = sch
            # tasks draw from streams of their own: the comparison with the reference uses the solo run that follows
            res = sch.run([lambda: w.simulate('t1', None, st, ctx), lambda: w.simulate('t2', None, st, ctx)], ['t1', 't2'])
            w.taps.sched = None
            par = [W.full(r) for r in collect(res, 'concurrent simulation from one state')]
            for key, got in zip(('t1', 't2'), par):
                W.same(W.full(w.simulate(key, None, st, ctx)), got, 'restart-differs',
                       'two simulations sharing a state disturb each other')
            yield W.full(w.simulate('k', None, st, ctx))
        elif way == 'other':
            steps = [s for s in sc['world']['steps'][::-1]] + sc['world']['steps']
            w.simulate('o', w.build_spec(steps), st, ctx)
            yield W.full(w.simulate('k', None, st, ctx))
        else:
            yield W.full(w.simulate('k', None, st, ctx))
            yield W.full(w.simulate('k', None, st, ctx))

    def run(self, sc, ctx):
        w = W.World(sc['world'])
        off = sc['offset']
        st = must(lambda: self.state(w, sc, off), 'generating the initial state')
        twin = W.World(sc['world'])
        if sc['extra']:
            st0 = must(lambda: self.state(twin, sc, 0), 'generating the initial state')
            want = must(lambda: W.full(twin.simulate('k', None, st0, ctx)), 'simulating from a state with more devices')
            self.subset(sc, ctx, twin, st0, want)
        else:
            want = must(lambda: W.full(twin.simulate('k', None, None, ctx)), 'a simulation generating its own state')
        want = shifted(want, off)
        ctx.probe('offset' if off else 'no_offset')
        tmp = tempfile.mkdtemp(prefix='c22-')
        try:
            for way, frac in zip(sc['ways'], sc['frac']):
                ctx.probe(way)
                ctx.log('reuse', way)
                for got in must(lambda: list(self.reuse(way, frac, sc, ctx, w, st, tmp)), f'reusing the state ({way})'):
                    W.same(want, got, 'restart-differs', f'report from the saved state ({way}) differs')
        finally:
            w.taps.hook = w.taps.sched = None
            seams.set_hook(None)
            shutil.rmtree(tmp, ignore_errors=True)
        own = must(lambda: W.full(w.simulate('own', None, None, ctx)), 'a simulation with devices of its own after restarts')
        fresh = must(lambda: W.full(W.World(sc['world']).simulate('own', None, None, ctx)), 'a simulation generating its own state')
        W.same(fresh, own, 'restart-differs', 'a simulation that generates its own devices after restarts from a saved state differs')
        ctx.sig(sc['ways'], bool(off), sc['okind'], sc['extra'], sc['counts'])

    def subset(self, sc, ctx, w, st, want):
        """A state cut down to the measured devices gives the same readings, up to the precision of the search."""
        need = max((n for s in sc['world']['steps'] for p, n in s.get('counts', {}).items() if p in sc['world']['prms']),
                   default=1)

        def cut(x):
            if isinstance(x, dict):
                return {k: cut(v) for k, v in x.items()}
            return np.asarray(x)[:, :, :need]
        small = w.M.SimState(cut(st.init_prm_vals), cut(st.init_deg_mech_vals), cut(st.latent_var_vals))
        got = must(lambda: W.full(w.simulate('k', None, small, ctx)), 'simulating from a state with the measured devices only')
        a, b = want['rows'], got['rows']
        if len(a) != len(b) or want['summary'] != got['summary']:
            raise Violation('restart-differs', f'{len(a)} rows from a larger state, {len(b)} from one with the measured devices')
        for x, y in zip(a, b):
            ok = x[:6] == y[:6] and (x[6] == y[6] or (isinstance(x[6], float) and isinstance(y[6], float)
                                     and abs(x[6] - y[6]) <= 1e-3 * max(abs(x[6]), abs(y[6])) + 1e-6))
            if not ok:
                raise Violation('restart-differs', f'larger state reads {x}, state with the measured devices only {y}')


PROP = C22()
