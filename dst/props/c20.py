"""C20: results depend on physical time, not on the unit it is expressed in."""
import copy
from datetime import timedelta

from dst import deg, seams, world as W
from dst.core import Prop, Violation
from dst.props import c06
from dst.util import collect, must

UNITS = ['days', 'd', 'hours', 'h', 'seconds', 's', 'milliseconds', 'ms', 'microseconds', 'us']


def gen_us(rng):
    r = rng.random()
    if r < 0.35:
        return int(rng.choice([1, 5, 24, 100, 1000]) * 3600e6)
    if r < 0.5:
        return rng.choice([1, 7, 999, 1000, 1001, 999_999, 1_000_001])
    if r < 0.65:
        return rng.randint(1, 10 ** 10)
    if r < 0.8:
        return int(rng.choice([1, 10, 20, 40]) * 365 * 86400e6) + rng.randint(0, 999)
    return int(10 ** rng.uniform(0, 15))


class C20(Prop):
    id = 'C20'
    runs = {'quick': 700, 'thorough': 40000}
    rule = ('Random physical tests (1 us to 40 year stresses, wear-out and hard-failure mechanisms and clocks exposing the time '
            'they are handed), each expressed several times with every duration and initial elapsed time as a duration or a number in a random '
            'unit and the unit of every mechanism, parameter and device chosen at random or left out; the variants run one '
            'after another or concurrently. Every variant against the physical reference, all report times against each other.')
    measure = 'distinct (mechanism, parameter, device and duration units) combinations, plus switch sequences'
    assumptions = ['Each mechanism model belongs to one device model',
                   'Wear-out readings are judged within 1e-4 relative equivalent time plus 1.1e-3 of the mechanism time unit']
    shrink_lists = ['variants', 'sched.force', 'world.steps']
    shrink_ints = {'world.lots': 1, 'world.chps': 1, 'ndev': 1}

    def setup(self):
        seams.lib()
        seams.monitor()

    def gen(self, rng, tier):
        mode = rng.choice(['wear', 'wear', 'clock', 'clock', 'hard'])
        if mode == 'wear':
            sc = deg.gen_deg_world(rng, ['pow', 'pow', 'vpow', 'log', 'sat'], [55, 85, 125], rng.choice([1, 2, 3]), units=False)
            for s in sc['world']['steps']:
                if s['t'] == 's' and rng.random() < 0.4:
                    s['us'] = gen_us(rng)
        elif mode == 'hard':
            sc = c06.PROP.gen(rng, tier)
        else:
            steps, mechs = [], {}
            for i in range(rng.choice([1, 2, 4])):
                steps.append({'t': 's', 'us': gen_us(rng), 'conds': {'temp': 100, 'tag': float(i + 1)}, 'name': f's{i}'})
                steps.append({'t': 'm', 'counts': {'p': 1, 'q': 1}, 'conds': {'temp': 25}, 'name': 'm'})
            prms = {n: {'kind': 'deg', 'init': {'base': 0.0}, 'mechs': {f'{n}{i}': {
                'fam': 'clock', 'k': float(i + 1), 'unitary': 0, 'latents': {}, 'sub': rng.random() < 0.2} for i in range(len(steps) // 2)}} for n in 'pq'}
            sc = {'world': {'seed': rng.getrandbits(32), 'lots': 1, 'chps': 1, 'prms': prms, 'unit': None, 'env': {}, 'instms': {},
                            'steps': steps}, 'ndev': 1}
        wd = sc['world']

        def unit(p=0.6):
            return rng.choice(UNITS) if rng.random() < p else None
        variants = []
        for _ in range(rng.choice([2, 3])):
            variants.append({'dev': unit(), 'prms': {p: unit() for p in wd['prms']}, 'mechs': {
                f'{p}.{m}': unit() for p in wd['prms'] for m in wd['prms'][p].get('mechs', {})},
                'durs': [rng.choice([None, None] + UNITS) for s in wd['steps']], 'elapsed': rng.choice(['td', 'h'])})
        out = {'world': wd, 'ndev': sc['ndev'], 'mode': mode, 'variants': variants, 'elapsed_us': rng.choice([0, 0, gen_us(rng)])}
        if rng.random() < 0.3:
            out['sched'] = seams.gen_sched(rng, seams.LIBFILES)
        return out

    def express(self, wd, v):
        wd = copy.deepcopy(wd)
        wd['unit'] = v['dev']
        for p, pr in wd['prms'].items():
            pr['unit'] = v['prms'][p]
            for m, ms in pr.get('mechs', {}).items():
                ms['unit'] = v['mechs'][f'{p}.{m}']
        for s, d in zip(wd['steps'], v['durs']):
            if s['t'] == 's' and d is not None:
                n = s['us'] / W.UNIT_US[d]
                s.update(dur=int(n) if n == int(n) else n, unit=d)
                if W.step_us({'dur': s['dur'], 'unit': d}) != s['us']:
                    raise ValueError('not exactly expressible')
                s['shown'] = s.pop('us')
        return wd

    def run(self, sc, ctx):
        worlds = [self.express(sc['world'], v) for v in sc['variants']]
        counts = {p: sc['ndev'] for p in sc['world']['prms']}

        def go(i):
            def f():
                w = W.World(worlds[i])
                w.draws.begin('state')
                v = sc['variants'][i]
                el = timedelta(microseconds=sc['elapsed_us']) if v['elapsed'] == 'td' else sc['elapsed_us'] / 3600e6
                st = seams.lib().gen_init_state(w.dev, counts, sc['world']['chps'], sc['world']['lots'], elapsed_time=el)
                return st, w.simulate(f'v{i}', None, st, ctx)
            return f
        fns = [go(i) for i in range(len(worlds))]
        if sc.get('sched'):
            res = collect(seams.Sched(sc['sched'], len(fns), ctx).run(fns, [f'v{i}' for i in range(len(fns))]), 'a variant')
        else:
            res = [must(f, f'variant {i}') for i, f in enumerate(fns)]
        for i, (v, wd, (st, rep)) in enumerate(zip(sc['variants'], worlds, res)):
            what = f'variant {i} {v}'
            clock, want = sc['elapsed_us'], []
            for s, o in zip(wd['steps'], sc['world']['steps']):
                d = o['us'] if o['t'] == 's' else 0
                want.append((d, clock, clock + d))
                clock += d
            got = [r[3:6] for r in W.summ(rep)]
            if got != want:
                k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                raise Violation('report-times', f'{what}: step {k} has (duration, start, end) {got[k:k + 1]} us, physically {want[k:k + 1]}')
            for r in W.rows(rep):
                if r[5] != want[r[1]][1]:
                    raise Violation('report-times', f'{what}: measurement in step {r[1]} at {r[5]} us, physically {want[r[1]][1]}')
            sc2 = {'world': wd, 'ndev': sc['ndev']}
            try:
                if sc['mode'] == 'wear':
                    deg.judge(sc2, ctx, st, rep)
                elif sc['mode'] == 'hard':
                    c06.PROP.judge(sc2, ctx, st, rep)
                else:
                    self.clocks(wd, sc['world'], rep)
            except Violation as e:
                raise Violation(e.kind, f'{e.msg} ({what})')
            ctx.sig(v['dev'], sorted(v['prms'].items(), key=str), sorted(v['mechs'].items(), key=str), v['durs'])

    def clocks(self, wd, base, rep):
        """Every reading is the sum of the times handed to the clocks of the stresses so far, each in its own unit."""
        exp = {p: 0.0 for p in wd['prms']}
        last = {}
        per = {}
        for p, i, l, c, d, t, v in W.rows(rep):
            per[i, p] = v
        k = 0
        for i, s in enumerate(wd['steps']):
            if s['t'] == 's':
                k = int(s['conds']['tag'])
                for p, pr in wd['prms'].items():
                    m = pr['mechs'].get(f'{p}{k - 1}')
                    if m is not None:
                        unit = m.get('unit') or pr.get('unit') or wd.get('unit')
                        last[p] = base['steps'][i]['us'] / W.UNIT_US[unit], unit
                        exp[p] += last[p][0]
                continue
            for p in wd['prms']:
                v = per.get((i, p))
                if v is None:
                    continue
                if not isinstance(v, float) or abs(v - exp[p]) > 1e-11 * abs(exp[p]) + 1e-300:
                    raise Violation('handed-time', f'step {i} {p}: clocks add up to {v} instead of {exp[p]}, the last one by '
                                    f'{last.get(p)}')


PROP = C20()
