"""C09: environment variation is drawn afresh each step and shared at the right layer."""
import numpy as np

from dst import deg, fp, real, seams, world as W
from dst.core import Prop, Violation

TARGETS = [25, 85.0, 0.5, 1.25, 3, 0, 0.0, -40.5]


class C09(Prop):
    id = 'C09'
    runs = {'quick': 700, 'thorough': 50000}
    rule = ('Random populations, conditions with every combination of batch, chip and device variation layers of both types '
            '(random variables shared between conditions in some runs), several parameters, circuits and sensors exposing '
            'the actual conditions of every stress and measurement step; draws are unique fingerprints decoded from every '
            'reading; some runs ask the environment for conditions directly, some with concurrent simulations or an aborted run before.')
    measure = 'distinct (condition layers and types, population shape, step kinds) configurations, plus switch sequences'
    assumptions = ['Stress conditions are exposed by hard-failure mechanisms that latch them, measurement conditions by '
                   'identity condition-shift and circuit equations']
    shrink_lists = ['noise', 'sched.force', 'world.steps', 'world.env']
    shrink_ints = {'world.lots': 1, 'world.chps': 1}

    def setup(self):
        seams.lib()
        seams.monitor()

    def gen(self, rng, tier):
        env = {}
        for c in ('temp', 'vdd'):
            if rng.random() < 0.85:
                e = {'type': rng.choice(['offset', 'scaling'])}
                for layer in ('dev', 'chp', 'batch'):
                    if rng.random() < 0.7:
                        e[layer] = layer
                env[c] = e
        if len(env) == 2 and rng.random() < 0.25:
            env['vdd'] = dict(env['temp'], same='temp')  # one variation model object for both conditions
        true_rv = rng.random() < 0.2
        if true_rv:
            # real distributions: a single layer each, so that the value identifies the draw
            for e in env.values():
                e.pop('same', None)
                layer = rng.choice([x for x in ('dev', 'chp', 'batch') if x in e] or [None])
                for x in ('dev', 'chp', 'batch'):
                    if x != layer:
                        e.pop(x, None)
        steps, k = [], 0
        mechs = {n: {} for n in ('u', 'v', 'w')}
        watch = {n: rng.choice(['temp', 'temp', 'vdd']) for n in mechs}
        watch['u'] = 'temp'
        ndev = W.some(rng, [1, 2, 4], (20, 60))
        names = ['u', 'v', 'w'][:rng.choice([1, 2, 3])]
        meas = {f'm{n}': rng.choice(['temp', 'vdd', 'temp', 'temp', 'hum']) for n in 'abc'[:rng.choice([1, 2, 3])]}
        circ = rng.choice([None, None, 'temp', 'vdd'])

        def conds(tag):
            cs = [('temp', rng.choice(TARGETS)), ('vdd', rng.choice(TARGETS)), ('tag', tag), ('hum', rng.choice(TARGETS))]
            rng.shuffle(cs)
            return dict(cs)

        def measure(force):
            ps = rng.sample(sorted(meas) + (['osc'] if circ else []), rng.randint(0, len(meas)))
            counts = {p: rng.randint(1, ndev) for p in ps}
            if force:
                counts.update({n: ndev for n in names})
            for s in ('temp', 'vdd', 'hum'):
                if rng.random() < 0.35:
                    counts[s] = rng.randint(1, 4)
            items = list(counts.items())
            rng.shuffle(items)
            return {'t': 'm', 'counts': dict(items), 'conds': conds(0.0), 'name': 'm'}
        for i in range(rng.choice([1, 2, 3, 5])):
            if rng.random() < 0.7:
                k += 1
                for n in names:
                    mechs[n][f'{n}{k}'] = {'fam': 'latch', 'k': float(k), 'cond': watch[n], 'unitary': 0, 'latents': {}}
                steps.append({'t': 's', 'us': int(rng.choice([1, 5]) * 3600e6), 'conds': conds(float(k)), 'name': f's{k}'})
                steps.append(measure(True))
            if rng.random() < 0.6:
                steps.append(measure(False))
        steps.append(measure(True))
        prms = {}
        none = {'n': {'fam': 'none', 'unitary': 0, 'latents': {}}}
        for n in names:
            prms[n] = {'kind': 'deg', 'init': {'base': 0.0}, 'mechs': mechs[n] or none}
        for n, c in meas.items():
            prms[n] = {'kind': 'deg', 'init': {'base': 0.0}, 'mechs': none,
                       'cond': {'fam': 'id', 'cond': c, 'unitary': 0, 'latents': {}}}
        if circ:
            prms['osc'] = {'kind': 'circ', 'args': [circ], 'latents': {}}
        items = list(prms.items())
        rng.shuffle(items)
        wd = {'seed': 0, 'lots': W.some(rng, [1, 2, 3], (8, 10)), 'chps': W.some(rng, [1, 2, 3], (9, 13)), 'prms': dict(items), 'unit': 'h',
              'env': env, 'instms': {}, 'steps': steps, 'forms': rng.random() < 0.25, 'scalar': W.gen_scalar(rng)}
        direct = []
        for _ in range(rng.choice([1, 2, 3]) if rng.random() < 0.3 else 0):
            # conditions asked for outside of any simulation
            what = rng.choice(['stress', 'measure', 'vrtn'])
            ps = rng.sample(names if what == 'stress' else sorted(meas) + (['osc'] if circ else []), 1)
            counts = {p: rng.randint(1, 3) for p in ps + (['hum', 'temp'] if rng.random() < 0.4 else [])}
            direct.append({'t': 'call', 'what': what, 'counts': counts, 'conds': conds(1.0), 'cond': rng.choice(['temp', 'vdd', 'hum']),
                           'lots': rng.choice([1, 2, 3]), 'chps': rng.choice([1, 2, 4])})
        return deg.chaos(rng, {'direct': direct, 'world': wd, 'ndev': ndev, 'watch': watch, 'meas': meas, 'circ': circ,
                               'share': rng.random() < 0.3, 'real': rng.getrandbits(32) if true_rv else None, 'own': rng.random() < 0.5})

    def run(self, sc, ctx):
        import gerabaldi.models as M
        src, shared, wd = fp.Source(), {}, sc['world']
        pend = False
        for s in wd['steps']:
            if s['t'] == 's' and pend:
                raise ValueError('invalid scenario: a stress is not read before the next one')
            pend = s['t'] == 's' or (pend and not all(n in s['counts'] for n in sc['watch'] if n in wd['prms']))

        def rvf(path, layer):
            vt = wd['env'][path.split('.')[1]]['type']
            if sc['real'] is not None:
                k = real.pick(sc['real'], path)
                return real.real_rv(M, [0.5, 1.5], ['normal', 'uniform', 'gamma'][k % 3], k)
            if sc['share']:
                return shared.setdefault((vt, layer), fp.FpRV(src, vt, layer))
            return fp.FpRV(src, vt, layer)
        w = W.World(wd, rvf=rvf)
        if sc['own'] and not sc['noise'] and not sc['abort']:
            rep = deg.must(lambda: w.simulate('t0', None, None, ctx), 'the simulation')
        else:
            _, _, rep = deg.run_world(sc, ctx, w)
        share, steps = fp.Sharing(), wd['steps'] + sc.get('direct', [])
        seen, known = [0], []

        def see(step, cond, who, at, value, what):
            """who: parameter (at = lot, chip, dev) or None for a sensor (at = number)."""
            e, target = wd['env'].get(cond, {}), steps[step]['conds'][cond]
            layers = [l for l in ('batch', 'chp', 'dev') if e.get(l)]
            seen[0] += 1
            if not layers:
                if value != target:
                    raise Violation('target-missed', f'{what}: {cond} is {value}, its target {target} has no variation')
                return
            if e['type'] == 'scaling' and target == 0:
                if value != 0:
                    raise Violation('not-layered', f'{what}: {cond} is {value}, its target 0 scales to nothing else')
                return
            if sc['real'] is not None:
                # readings of stress conditions are differences of sums: equal up to rounding means the same draw
                x = value / target if e['type'] == 'scaling' else value - target
                ids = {l: next((k for k in known if abs(k - x) <= 1e-11), x) for l in layers}
                known.append(ids[layers[0]])
            else:
                ids = src.decode(e['type'], layers, target, value, what)
            key = {'batch': (step, cond),
                   'chp': (step, cond) + (at[:2] if who else ('sensor', at)),
                   'dev': (step, cond) + ((who, *at) if who else ('sensor', at))}
            for layer, i in ids.items():
                share.see(f'{e["type"]} {layer}', key[layer], i, what)
        last, sensors = {}, {}
        stress = None
        per = {}
        for r in W.rows(rep):
            per.setdefault(r[1], []).append(r)
        for i, s in enumerate(wd['steps']):
            if s['t'] == 's':
                stress = i
                continue
            for p, _, l, c, d, t, v in per.get(i, []):
                what = f'step {i} {p} lot {l} chip {c} device {d}'
                if p in sc['watch'] and p in wd['prms']:
                    was = last.get((p, l, c, d), (None, 0.0))
                    if was[0] == stress:
                        if v != was[1]:
                            raise Violation('latched-changed', f'{what}: {v}, was {was[1]} without any stress in between')
                    else:
                        see(stress, sc['watch'][p], p, (l, c, d), v - was[1], f'conditions of stress {stress} seen in {what}')
                    last[p, l, c, d] = (stress, v)
                elif p in sc['meas']:
                    see(i, sc['meas'][p], p, (l, c, d), v, what)
                elif p == 'osc':
                    see(i, sc['circ'], p, (l, c, d), v, what)
                else:
                    n = sensors[i, p] = sensors.get((i, p), -1) + 1
                    see(i, p, None, n, v, f'step {i} sensor {n} of {p}')
        w.draws.begin('direct')
        for i, s in enumerate(sc.get('direct', []), len(wd['steps'])):
            ctx.probe('direct_call')
            if s['what'] == 'vrtn':
                got = {'vrtn': {s['cond']: deg.must(lambda: w.env.vrtn_mdl(s['cond']).gen_env_vrtns(
                    s['conds'][s['cond']], 2, s['chps'], s['lots']), 'generating variations')}}
                counts = {'vrtn': 2}
            else:
                counts = s['counts']
                got = deg.must(lambda: w.env.gen_env_cond_vals(dict(s['conds']), dict(counts), None, w.dev, s['what'], s['chps'],
                                                               s['lots']), 'generating conditions')
            for p, n in counts.items():
                need = p if p in ('hum', 'temp') else s['cond'] if p == 'vrtn' else \
                    {'osc': sc['circ'], **(sc['watch'] if s['what'] == 'stress' else sc['meas'])}[p]
                if p in sc['watch'] and wd['prms'][p]['mechs'].keys() == {'n'}:
                    continue  # no stress, hence no mechanism that asks for the condition
                what = f'call {i} {s["what"]} {s["lots"]}x{s["chps"]} {p}'
                if need not in got.get(p, {}):
                    raise Violation('missing', f'{what}: no value of {need} for {n} devices: {got}')
                v = got[p][need]
                if p in ('hum', 'temp'):
                    if np.size(v) != n:
                        raise Violation('shape', f'{what}: {np.size(v)} values of {n} sensors')
                    for k, x in enumerate(np.ravel(v)):
                        see(i, p, None, k, float(x), f'{what} sensor {k}')
                    continue
                dims = (s['lots'], s['chps'], n)
                try:
                    v = np.broadcast_to(v, dims)
                except ValueError:
                    raise Violation('shape', f'{what}: values of shape {np.shape(v)} for {dims} devices')
                for at in np.ndindex(*dims):
                    see(i, need, p, at, float(v[at]), f'{what} {at}')
        ctx.probe('decoded_values', seen[0])
        ctx.sig(sorted((c, sorted(e.items())) for c, e in wd['env'].items()), wd['lots'], wd['chps'], sc['ndev'],
                [s['t'] for s in steps], sorted(wd['prms']))


PROP = C09()
