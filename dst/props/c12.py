"""C12: seeded models reproduce exactly, in any process and whatever else runs."""
import random

import numpy as np

from dst import real, seams, world as W
from dst.core import Prop, Violation
from dst.server import Child
from dst.util import collect, must

KIDS = {}


def build(sc):
    seams.lib()
    import gerabaldi.models as M
    rvf, pool = real.seeded_rvf(M, sc), {}

    def shared(path, rng):
        # some worlds use a few random variable objects for many layers: then the order of their use matters
        k = (real.pick(sc['rvseed'], 'obj', path) % sc['objs'], tuple(rng))
        if k not in pool:
            pool[k] = rvf(f'{k[0]}', rng)
        return pool[k]
    return W.World(sc['world'], rvf=shared if sc.get('objs') else rvf)


def columns(rep):
    return [[str(c) for c in f.columns] for f in (rep.measurements, rep.test_summary)]


def report(sc):
    """Builds and simulates the seeded world; also the entry point in child processes."""
    w = build(sc)
    st = None
    if sc['state']:
        st = seams.lib().gen_init_state(w.dev, W.need(sc['world']), sc['world']['chps'], sc['world']['lots'])
    rep = seams.lib().simulate(w.spec, w.dev, w.env, st)
    return {**W.full(rep), 'cols': columns(rep)}


def fresh_draws(_=None):
    """What unseeded variables of a process just started draw; also called in child processes."""
    seams.lib()
    import gerabaldi.models as M
    return {n: [np.asarray(rv().sample(3)).tolist() for _ in range(3)]
            for n, rv in (('Normal', M.Normal), ('Uniform', M.Uniform), ('Gamma', M.Gamma))}


class C12(Prop):
    id = 'C12'
    runs = {'quick': 500, 'thorough': 30000}
    rule = ('Random models whose every random variable is a seeded Normal, Uniform or Gamma (seeds 0, small, huge, equal or '
            'distinct), built and simulated again: after unrelated draws and simulations, concurrently with other '
            'simulations under a seeded schedule, and in child processes with other hash seeds. Unseeded variables are '
            'drawn beside them.')
    measure = 'distinct (repetition kind, interference list) and switch sequences'
    assumptions = ['Unseeded variables take entropy from the operating system; only that their draws differ is checked']
    shrink_lists = ['how', 'junk', 'sched.force'] + W.WORLD_LISTS
    shrink_ints = W.WORLD_INTS

    def setup(self):
        seams.lib()
        seams.monitor()

    def finish(self):
        for k in KIDS.values():
            k.close()
        KIDS.clear()

    def gen(self, rng, tier):
        w = W.gen_world(rng)
        w['lots'], w['chps'] = W.cap(w['lots'], 2), W.cap(w['chps'], 2)
        w['steps'] = W.gen_steps(rng, w['prms'], n=rng.choice([2, 3, 4]), max_dev=W.some(rng, [3], W.DEVS))
        if not any(s['t'] == 'm' for s in w['steps']):
            w['steps'].append({'t': 'm', 'counts': {p: 2 for p in w['prms']}, 'conds': {'mt': 25, **W.gen_conds(rng)}, 'name': 'm'})
        if rng.random() < 0.4:
            # parameters depending on several conditions
            conds = ['hum', 'vib', 'rad', 'amb', 'freq', 'tempco'][:rng.randint(2, 6)]
            for n, pr in w['prms'].items():
                if pr['kind'] == 'deg' and rng.random() < 0.5:
                    pr['cond'] = {'fam': 'many', 'conds': conds, 'unitary': 1 if pr['eqn'] == 'prod' else 0,
                                  'latents': {'b': W.gen_latent(rng, 2.0)}}
            w['prms']['osc'] = {'kind': 'circ', 'args': [rng.choice(sorted(p for p in w['prms'] if p != 'osc')), 'c'],
                                'many': rng.sample(conds, len(conds)), 'latents': {'c': W.gen_latent(rng, 0.5)}}
            for c in conds:
                w['env'][c] = {l: [-0.5, 0.5] for l in ('dev', 'chp', 'batch') if rng.random() < 0.7}
            for s in w['steps']:
                for c in rng.sample(conds, rng.randint(1, len(conds))):
                    s['conds'][c] = rng.choice([1, 2.5, 40])
                if s['t'] == 'm' and rng.random() < 0.6:
                    s['counts']['osc'] = rng.randint(1, 3)
        seeds = rng.choice([[0], [1], [0, 1, 2, 3], [7, 8, 9], [2 ** 40 + 3, 5], [rng.getrandbits(64)],
                            [rng.getrandbits(31) for _ in range(9)]])
        how = rng.sample(['again', 'junk', 'threads', 'process1', 'process2'], rng.choice([2, 3]))
        return {'world': w, 'rvseed': rng.getrandbits(32), 'seeds': seeds, 'npseed': rng.random() < 0.2, 'objs': rng.choice([0, 0, 1, 2]), 'how': how,
                'junk': [rng.choice(['unseeded', 'seeded', 'npseed', 'pyseed', 'sim', 'draw']) for _ in range(rng.randint(1, 4))],
                'fresh': rng.random() < 0.04, 'state': rng.random() < 0.4, 'sched': seams.gen_sched(rng, seams.LIBFILES)}

    def junk(self, sc, ctx, live):
        import gerabaldi.models as M
        for j in sc['junk']:
            ctx.fault(f'interference:{j}')
            if j == 'unseeded':
                live.append(M.Normal(0, 1))
                live.append(M.Uniform(0, 1))
            elif j == 'seeded':
                live.append(M.Normal(0, 1, test_seed=sc['seeds'][0]))
            elif j == 'npseed':
                np.random.seed(sc['seeds'][0] % 2 ** 32)
            elif j == 'pyseed':
                random.seed(sc['seeds'][0])
            elif j == 'sim':
                report({**sc, 'rvseed': sc['rvseed'] + 1})
                ctx.sims += 1
            else:
                for x in live:
                    x.sample(3)

    def run(self, sc, ctx):
        import gerabaldi.models as M
        old = np.random.get_state(), random.getstate()
        try:
            want = must(lambda: report(sc), 'the first run')
            ctx.sims += 1
            for h in sc['how']:
                ctx.probe(h)
                if h.startswith('process'):
                    kid = KIDS.get(h)
                    if kid is None:
                        kid = KIDS[h] = Child({'process1': 1, 'process2': 4242}[h])
                    ctx.fault('fresh_process')
                    ans = kid.ask('c12', 'report', sc)
                    if 'exc' in ans:
                        raise Violation('unexpected-exception', f'the run in another process raised {ans["exc"]}')
                    got = ans['ok']
                    got['rows'] = [tuple(r) for r in got['rows']]
                    got['summary'] = [tuple(r[:6]) + (tuple(tuple(c) for c in r[6]),) for r in got['summary']]
                elif h == 'threads':
                    sch = seams.Sched(sc['sched'], 2, ctx)
                    res = sch.run([lambda: report(sc), lambda: report({**sc, 'rvseed': sc['rvseed'] + 1})], ['a', 'b'])
                    got = collect(res, 'concurrent run')[0]
                    ctx.sims += 2
                elif h == 'junk':
                    live = []
                    self.junk(sc, ctx, live)
                    w = build(sc)
                    self.junk(sc, ctx, live)
                    st = None
                    if sc['state']:
                        st = seams.lib().gen_init_state(w.dev, W.need(sc['world']), sc['world']['chps'],
                                                        sc['world']['lots'])
                        self.junk(sc, ctx, live)
                    # unrelated draws at every equation evaluation
                    w.taps.hook = lambda path, kw: (live and live[0].sample(1), None)[1]
                    rep = must(lambda: seams.lib().simulate(w.spec, w.dev, w.env, st), 'the run')
                    got = {**W.full(rep), 'cols': columns(rep)}
                    ctx.sims += 1
                else:
                    got = must(lambda: report(sc), 'the repetition')
                    ctx.sims += 1
                W.same(want, got, 'not-reproduced', f'seeded report differs ({h})')
                if want['cols'] != got['cols']:
                    raise Violation('not-reproduced', f'columns of the seeded report differ ({h}): {got["cols"]} instead of {want["cols"]}')
            self.unseeded(M, sc, ctx)
        finally:
            np.random.set_state(old[0])
            random.setstate(old[1])
        ctx.sig(sc['how'], sc['junk'], sc['seeds'][:2])

    def unseeded(self, M, sc, ctx):
        mk = [lambda **k: M.Normal(0, 1, **k), lambda **k: M.Uniform(0, 1, **k), lambda **k: M.Gamma(2, 2, **k)]
        for f in mk:
            seen = {}
            for who, rv in [(f'seed {s}', f(test_seed=s)) for s in dict.fromkeys(sc['seeds'] + [0, 1])] + \
                    [(f'unseeded {i}', f()) for i in range(3)]:
                for x in np.asarray(must(lambda: rv.sample(4), f'sampling {who}')).tolist():
                    if seen.setdefault(x, who) != who:
                        raise Violation('draws-shared', f'{who} and {seen[x]} of one distribution draw the same value {x}')
            # one after another, each discarded before the next, the global generators seeded alike before each
            gone = {}
            for i in range(4):
                np.random.seed(5)
                random.seed(5)
                rv = f()
                for x in np.asarray(must(lambda: rv.sample(3), 'sampling')).tolist():
                    if gone.setdefault(x, i) != i or x in seen:
                        raise Violation('draws-shared', f'unseeded variable {i} draws what an earlier one drew')
                del rv
            for s in sc['seeds'][:2]:
                a, b = f(test_seed=s), f(test_seed=s)
                b2 = f()
                x = np.asarray(a.sample(5)).tolist()
                b2.sample(7)
                y = np.asarray(b.sample(5)).tolist()
                if x != y:
                    raise Violation('not-reproduced', f'two variables with seed {s} draw {x} and {y}')
                z = np.asarray(a.sample(5)).tolist()
                if set(x) & set(z):
                    raise Violation('draws-repeat', f'seed {s}: draws {x} and then {z}')
        if sc.get('fresh'):
            drawn = {}
            for h in range(2):
                kid = Child(1)
                try:
                    ans = kid.ask('c12', 'fresh_draws', None)
                finally:
                    kid.close()
                ctx.fault('fresh_process')
                if 'exc' in ans:
                    raise Violation('unexpected-exception', f'drawing in another process raised {ans["exc"]}')
                for n, vals in ans['ok'].items():
                    for x in sum(vals, []):
                        if drawn.setdefault((n, x), h) != h:
                            raise Violation('draws-shared', f'unseeded {n} variables of two processes draw the same value')


PROP = C12()
