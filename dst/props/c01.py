"""C01: every step once, in order, on one monotone clock."""
from datetime import timedelta

from dst import seams, world as W
from dst.core import Prop, Violation
from dst.util import collect, must

UNITS = ['h', 's', 'd', 'ms', 'us', 'hours', 'seconds', 'days', 'milliseconds', 'microseconds', None]


def tag_world(lots, chps):
    """p accumulates stress hours one to one, q reports the measurement temperature, both exactly observable."""
    one = {'base': 1.0, 'type': 'scaling'}
    return {'seed': 0, 'lots': lots, 'chps': chps, 'unit': None, 'env': {'temp': {}, 'vdd': {}}, 'instms': {}, 'steps': [],
            'prms': {'p': {'kind': 'deg', 'init': {'base': 0.0}, 'mechs': {
                'm': {'fam': 'pow', 'g': 0.0, 'unit': 'h', 'latents': {'a': one, 'n': one}}}},
                'q': {'kind': 'deg', 'init': {'base': 0.0}, 'cond': {'fam': 'id', 'latents': {}}, 'mechs': {
                    'f': {'fam': 'fail', 'thr': 1e300, 'val': 1, 'latents': {'a': one}}}}}}


class C01(Prop):
    id = 'C01'
    runs = {'quick': 650, 'thorough': 60000}
    rule = ('Random construct/append histories (plain, list and duration-looped appends, shared step objects, durations '
            'from 1 us to years in any unit), simulated from random elapsed offsets by 1-3 scheduled simulations plus '
            'plain iterations sharing the specification.')
    measure = 'distinct hashes of the executed switch sequences (task pair and library line of every switch)'
    assumptions = ['A non-multiple loop duration may additionally raise the documented UserWarning']
    shrink_lists = ['pool_use', 'ops', 'ops.*.steps', 'tasks', 'sched.force']
    shrink_ints = {'lots': 1, 'chps': 1, 'offset_us': 0, 'pool.*.us': 1}

    known = {'shared-step-list': {
        'pool': [{'t': 's', 'conds': {'temp': 25}, 'name': 's', 'us': 3600000000}], 'alias': True,
        'ops': [{'steps': [0], 'single': False, 'loop_us': None}], 'lots': 1, 'chps': 1, 'tasks': ['sim'],
        'offset_us': 0, 'bad': None, 'sched': {'seed': 0, 'p': 0.0, 'hot': None}}}

    def setup(self):
        seams.lib()

    def gen(self, rng, tier):
        pool = []
        for i in range(rng.randint(1, 5)):
            name = rng.choice(['s', 'x', f'n{i}'])
            conds = {'temp': rng.choice([25, 85, 125.5, 25 + i, 0, -40])}
            if rng.random() < 0.3:
                conds['vdd'] = rng.choice([1.1, 0, 1e-9, -3])
            if rng.random() < 0.15:
                conds['hum'] = rng.choice([0.5, 0])
            if rng.random() < 0.55:
                r = rng.random()
                if r < 0.4:
                    dur = {'us': W.gen_us(rng)}
                else:
                    unit = rng.choice(UNITS)
                    dur = {'dur': rng.choice([1, 2, 7, 24, 100, 1000] + ([] if unit in ('us', 'microseconds') else [0.5, 1.25])),
                           'unit': unit}
                pool.append({'t': 's', 'conds': conds, 'name': name, **dur})
            else:
                counts = {p: rng.randint(1, 2) for p in rng.sample(['p', 'q'], rng.randint(1, 2))}
                if rng.random() < 0.2:
                    counts['temp'] = rng.randint(1, 2)
                if rng.random() < 0.12:
                    counts = {}
                pool.append({'t': 'm', 'conds': conds, 'name': name, 'counts': counts})
        if rng.random() < 0.9:
            pool.append({'t': 'm', 'conds': {'temp': 25}, 'name': 'end', 'counts': {'p': 1, 'q': 1}})
        ops, total = [], 0
        for _ in range(rng.randint(1, 4)):
            ids = [rng.randrange(len(pool)) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            op = {'steps': ids, 'single': len(ids) == 1 and rng.random() < 0.5, 'loop_us': None,
                  'sim': rng.random() < 0.2}
            strs = sum(W.step_us(pool[i]) for i in ids if pool[i]['t'] == 's')
            if strs and rng.random() < 0.5:
                reps = W.some(rng, [1, 1, 2, 3, 5, 8], (30, 90), 0.03)
                if len(ids) * reps + total <= (40 if reps < 30 else 200):
                    delta = rng.choice([0, 0, -1, 1, -(strs // 3), strs // 2])
                    op['loop_us'] = max(1, strs * reps + delta)
                    op['loop_form'] = rng.choice(['td', 'us', 's'])
                    total += len(ids) * reps
            ops.append(op)
            total += len(ids)
        tasks = ['sim'] + [rng.choice(['sim', 'sim', 'sim', 'state']) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        if rng.random() < 0.3:
            tasks.append(rng.choice(['iter', 'iter_break']))  # one only: iterators of one specification share a position
        sc = {'pool': pool, 'ops': ops, 'lots': W.some(rng, [1, 1, 2], W.LOTS), 'chps': W.some(rng, [1, 1, 2], W.CHPS), 'tasks': tasks,
              'offset_us': rng.choice([0, 0, 1, 3600_000_000, W.gen_us(rng), 36_000_000 * rng.randint(1, 999)]),
              'hours': rng.random() < 0.5,
              'bad': rng.choice([None, 0, -1, -3600]), 'foreign': rng.choice([None, None, None, 'strs', 'meas', 'other']), 'sched': seams.gen_sched(rng, seams.LIBFILES)}
        if rng.random() < 0.5:
            sc['sched']['hot'] = ['models/test_specs.py', 'sim.py']
        return sc

    def run(self, sc, ctx):
        w = W.World(tag_world(sc['lots'], sc['chps']))
        M = w.M
        objs = [must(lambda s=s: w.step(s), 'building a step') for s in sc['pool']]
        if sc['bad'] is not None:
            try:
                bad = M.StrsSpec({'temp': 25}, sc['bad'], time_unit='s')
                rep = w.simulate('bad', M.TestSpec([objs[-1], bad]))
            except Exception:
                ctx.fault('rejected_duration')
            else:
                raise Violation('bad-duration', f'a stress of {sc["bad"]} s was simulated: {W.summ(rep)[-1]}')
        if sc.get('foreign'):
            cls = {'strs': M.StrsSpec, 'meas': M.MeasSpec, 'other': M.StrsSpec}[sc['foreign']]
            odd = type('CustomStep', (cls,), {})({'temp': 25} if cls is M.StrsSpec else {'p': 1}, *(
                [timedelta(hours=1)] if cls is M.StrsSpec else [{'temp': 25}]))
            if sc['foreign'] == 'other':
                odd = {'duration': 1}
            try:
                rep = w.simulate('foreign', M.TestSpec([objs[-1], odd, M.MeasSpec({'p': 1}, {'temp': 25})]))
            except Exception:
                ctx.fault('refused_step')
            else:
                if [r[2] for r in W.summ(rep)] != [0, 1, 2]:
                    raise Violation('step-skipped', f'a step of a class the simulator does not know ({sc["foreign"]}) was '
                                    f'skipped without a word: {W.summ(rep)}')
        # build history against the list model
        want, spec = [], None
        for k, op in enumerate(sc['ops']):
            ids = op['steps']
            if op.get('sim') and want:
                # a test that was simulated before may still grow
                self.judge(sc, want, must(lambda: w.simulate(f'early{k}', spec, None, ctx), 'a simulation between two appends'), 0)
                ctx.probe('simulated_between_appends')
            arg = objs[ids[0]] if op['single'] and ids else [objs[i] for i in ids]
            strs = sum(W.step_us(sc['pool'][i]) for i in ids if sc['pool'][i]['t'] == 's')
            loop = op['loop_us'] if strs else None
            if spec is None:
                if loop is None and isinstance(arg, list):
                    # TestSpec keeps the list it is given (known finding): only share it where that is the point
                    spec = M.TestSpec(arg if sc.get('alias') else list(arg), sc['chps'], sc['lots'])
                    if sc.get('alias'):
                        other = M.TestSpec(arg, sc['chps'], sc['lots'])
                        other.append_steps(objs[0])
                        if len(arg) != len(ids) or len(spec.steps) != len(ids):
                            raise Violation('steps-alias', 'appending to one specification added steps to the list it was '
                                            'built from and to another specification built from that list')
                    want += ids
                    continue
                spec = M.TestSpec(num_chps=sc['chps'], num_lots=sc['lots'])
            if loop is None:
                must(lambda: spec.append_steps(arg), 'append')
                want += ids
            else:
                kw = {'td': {'loop_for_duration': timedelta(microseconds=loop)},
                      'us': {'loop_for_duration': loop, 'time_unit': 'us'},
                      's': {'loop_for_duration': loop / 1e6, 'time_unit': 's'}}[op['loop_form']]
                loop = timedelta(seconds=loop / 1e6) // timedelta(microseconds=1) if op['loop_form'] == 's' else loop
                try:
                    with seams.LineCounter(budget=200_000):
                        spec.append_steps(arg, **kw)
                except seams.BudgetExceeded as e:
                    raise Violation('append-unbounded', f'looped append did not finish: {e}')
                except UserWarning:
                    ctx.probe('loop_warning')
                except Exception as e:
                    raise Violation('unexpected-exception', f'looped append raised {type(e).__name__}: {e}')
                reps = -(-loop // strs)
                want += ids * reps
                ctx.probe('looped_append')
            if isinstance(arg, list) and len(arg) != len(ids):
                raise Violation('caller-list-changed', f'append changed the list passed in (op {k})')
        if spec is None:
            spec = M.TestSpec(num_chps=sc['chps'], num_lots=sc['lots'])
        got = [next((i for i, o in enumerate(objs) if o is s), -1) for s in spec.steps]
        if got != want:
            raise Violation('steps', f'specification lists steps {got}, history says {want}')
        off = sc['offset_us']

        def sim(key):
            def go():
                st = None
                if off:
                    w.draws.begin(key)
                    el = off / 3600e6 if sc.get('hours') and off % 36_000_000 == 0 else timedelta(microseconds=off)
                    st = seams.lib().gen_init_state(w.dev, {'p': 2, 'q': 2}, sc['chps'], sc['lots'], elapsed_time=el)
                    if not isinstance(el, timedelta):
                        st = w.M.SimState(st.init_prm_vals, st.init_deg_mech_vals, st.latent_var_vals, el)
                return w.simulate(key, spec, st, ctx)
            return go

        def iterate(kind):
            def go():
                for n in range(3):
                    seen = []
                    for s in spec:
                        seen.append(s)
                        if kind == 'iter_break' and len(seen) > n:
                            break
                    exp = [objs[i] for i in want]
                    if kind == 'iter_break':
                        exp = exp[:n + 1]
                    if len(seen) != len(exp) or any(a is not b for a, b in zip(seen, exp)):
                        raise Violation('iteration', f'iterating the specification gave {len(seen)} steps, not the {len(exp)} listed')
                return None
            return go

        fns = []
        for k, t in enumerate(sc['tasks'] or ['sim']):
            if t == 'sim':
                fns.append(sim(f't{k}'))
            elif t == 'state':
                fns.append(lambda k=k: (w.draws.begin(f't{k}'),
                                        seams.lib().gen_init_state(w.dev, {'p': 1}, 1, 1), None)[-1])
            else:
                fns.append(iterate(t))
        if len(fns) == 1:
            reps = [must(fns[0], 'the simulation')]
        else:
            sch = seams.Sched(sc['sched'], len(fns), ctx)
            w.taps.sched = sch
            reps = collect(sch.run(fns, [f't{k}' for k in range(len(fns))]), 'concurrent use of one specification')
        if [id(s) for s in spec.steps] != [id(objs[i]) for i in want]:
            raise Violation('spec-changed', 'simulating changed the list of steps')
        for r in reps:
            if r is not None:
                self.judge(sc, want, r, off)
        ctx.sig('history', want, off)

    def judge(self, sc, want, rep, off):
        clock, exp_sum, exp_rows, stress = off, [], {}, {}
        for k, i in enumerate(want):
            s = sc['pool'][i]
            d = W.step_us(s) if s['t'] == 's' else 0
            conds = tuple(sorted((c, float(v)) for c, v in s['conds'].items()))
            exp_sum.append((s['name'], 'stress' if s['t'] == 's' else 'measure', k, d, clock, clock + d, conds))
            clock += d
            if s['t'] == 'm':
                exp_rows[k] = (s, clock)
                stress[k] = clock - off
        got = W.summ(rep)
        if got != exp_sum:
            for k, (a, b) in enumerate(zip(got, exp_sum)):
                if a != b:
                    raise Violation('summary', f'row {k}: reported {a}, executed {b}')
            raise Violation('summary', f'{len(got)} summary rows for {len(exp_sum)} steps')
        seen = {}
        for p, st, l, c, d, t, v in W.rows(rep):
            if st not in exp_rows:
                raise Violation('rows', f'measurement row for step {st}, which is not a measurement')
            s, clk = exp_rows[st]
            if t != clk:
                raise Violation('row-time', f'step {st} {p}: reported at {t} us, clock was {clk} us')
            seen.setdefault((st, p), []).append((l, c, d, v))
        for k, (s, clk) in exp_rows.items():
            for p, n in s['counts'].items():
                vals = seen.pop((k, p), [])
                exp_n = n if p == 'temp' else n * sc['lots'] * sc['chps']
                if len(vals) != exp_n:
                    raise Violation('rows', f'step {k}: {len(vals)} rows of {p}, {exp_n} requested')
                for *_, v in vals:
                    if p in ('q', 'temp') and v != s['conds']['temp']:
                        raise Violation('wrong-step-conditions', f'step {k} measured {p}={v} at temp {s["conds"]["temp"]}')
                    if p == 'p':
                        h = stress[k] / 3600e6
                        tol = 1e-3 * h + 2e-3 * (1 + sum(1 for i in want[:k] if sc['pool'][i]['t'] == 's'))
                        if abs(v - h) > tol:
                            raise Violation('stress-not-applied-once', f'step {k}: {v} h of stress reached the device, '
                                            f'clock says {h} h')
        if seen:
            raise Violation('rows', f'unrequested rows for {sorted(seen)}')


PROP = C01()
