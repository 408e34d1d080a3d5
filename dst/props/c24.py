"""C24: a parameter's results do not depend on unrelated parts of the model, environment or test."""
import copy

import numpy as np

from dst import deg, seams, world as W
from dst.core import Prop, Violation

# names that are prefixes, suffixes or attribute look-alikes of each other
NAMES = [['p', 'p2', 'pp', 'p_m'], ['vth', 'vth_lin', 'v', 'lin'], ['a', 'm0', 'init_v', 'cond_a'], ['p', 'temp_p', 'hum_p', 'k'],
         ['r10', 'r1', 'r', 'r100'], ['x', 'x_var', 'x_instm', 'x_mdl'],
         ['Vth', 'vth', 'VTH', 'vTh'], ['idd', 'Idd', 'IDD', 'idd_'], ['p_', 'p', 'p__', 'P'], ['r_1', 'r1', 'R_1', 'r__1'],
         ['meas', 'prm', 'mech', 'latent_a'], ['i', 'meas', 'prm', 'vrtn']]
CONDS = [['temp', 'hum', 'temp2'], ['temp', 'tem', 'temp_x'], ['temp', 'xtemp', 'hum'], ['die_temp', 'temp', 'die'],
         ['temp2', 'temp', 'temp22'], ['T', 't', 'T_var'], ['temp_var', 'temp', 'var'], ['Temp', 'temp', 'TEMP'], ['c_m_temp', 'm_temp', 'temp']]


class C24(Prop):
    id = 'C24'
    runs = {'quick': 700, 'thorough': 40000}
    rule = ('A random test of one parameter (the subject) is simulated alone and again amid unrelated parts: further parameters with '
            'look-alike names, identical mechanism and latent names and other conditions, circuits over them or over the subject, '
            'instruments, condition variation, extra conditions, sensor readings and measurement steps, all orders of listing '
            'permuted; equations of the unrelated parameters refuse arrays or return undefined, infinite or failed values at '
            'random calls, and other simulations run concurrently or were aborted before. All readings of the subject must '
            'be the same.')
    measure = 'distinct (kinds of unrelated parts, orders, faults) combinations, plus switch sequences'
    assumptions = ['Draws are per random variable, so unrelated parts share no condition with private per-device variation with '
                   'the subject']
    shrink_lists = ['noise', 'sched.force', 'world.steps', 'extra.prms', 'extra.env', 'extra.instms', 'extra.steps', 'faults']
    shrink_ints = {'world.lots': 1, 'world.chps': 1, 'ndev': 1}

    def setup(self):
        seams.lib()
        seams.monitor()

    def gen(self, rng, tier):
        subj, *others = rng.choice(NAMES)
        temp, *oc = rng.choice(CONDS)
        if rng.random() < 0.3:
            # an unrelated condition that bears the name of a latent variable, mechanism or equation argument
            oc[1] = rng.choice([n for n in ('a', 'n', 'b', 'k', 'c', 'mm0', 'mm1', 'init', 'cond', 'x0', 'time') if n not in (subj, *others)])
        fams = ('pow', 'sat', 'thr', 'log', 'fail')
        p = dict(W.gen_prm(rng, 'm', fams=fams), swap=temp)
        if rng.random() < 0.2:
            # mechanisms whose names differ in case only
            p['mechs'] = {n if i == 0 else 'MM0': m for i, (n, m) in enumerate(p['mechs'].items())}
        ndev = W.some(rng, [1, 2, 3, 5], W.DEVS)
        env = {}
        if rng.random() < 0.7:
            env[temp] = {'type': 'offset', **{l: [-4, 4] for l in ('chp', 'batch', 'dev') if rng.random() < 0.6}}
        instms = {}
        if rng.random() < 0.5:
            instms[subj] = {'precision': rng.choice([None, 4]), 'error': rng.choice([None, [-0.01, 0.01]]), 'lims': None}
        steps = []
        for i in range(rng.choice([1, 2, 3, 5])):
            if rng.random() < 0.6:
                steps.append({'t': 's', 'us': W.gen_us(rng), 'conds': {temp: rng.choice([25, 85, 125])}, 'name': f's{i}'})
            else:
                steps.append({'t': 'm', 'counts': {subj: rng.randint(1, ndev)}, 'conds': {temp: rng.choice([25, 85])}, 'name': f'm{i}'})
        steps.append({'t': 'm', 'counts': {subj: ndev}, 'conds': {temp: 25}, 'name': 'last'})
        wd = {'seed': rng.getrandbits(32), 'lots': W.some(rng, [1, 1, 2], W.LOTS), 'chps': W.some(rng, [1, 2, 3], W.CHPS), 'prms': {subj: p},
              'unit': rng.choice([None, 'h', 's']), 'env': env, 'instms': instms, 'steps': steps, 'scalar': W.gen_scalar(rng)}
        shared_ok = 'dev' not in env.get(temp, {})
        ex = {'prms': {}, 'env': {}, 'instms': {}, 'steps': []}
        for n in rng.sample(others, rng.randint(0, len(others))):
            if rng.random() < 0.25:
                args = ([temp] if shared_ok and rng.random() < 0.5 else []) + ([subj] if rng.random() < 0.6 else []) + ['c']
                args += [o for o in ex['prms'] if ex['prms'][o]['kind'] == 'deg' and rng.random() < 0.3]
                ex['prms'][n] = {'kind': 'circ', 'args': args, 'latents': {'c': W.gen_latent(rng, 0.5)}}
            else:
                q = copy.deepcopy(p) if rng.random() < 0.4 else dict(W.gen_prm(rng, 'm', fams=fams + ('vpow',)), swap=temp)
                if not shared_ok or rng.random() < 0.5:
                    q['swap'] = oc[0]
                if rng.random() < 0.12:
                    q['mechs'] = {}
                if rng.random() < 0.1:
                    q['init'] = {'const': 2.5}
                ex['prms'][n] = q
        if rng.random() < 0.3:
            ex['latents'] = {n: {**W.gen_latent(rng, 3.0)} for n in rng.sample(['A', 'N', 'B', 'a_', '_a', 'latent_a', 'spare'], 2)}
        for c in oc + ['vdd', 'other']:
            if rng.random() < 0.6:
                ex['env'][c] = {'type': rng.choice(['offset', 'scaling']), **{l: [0.9, 1.1] for l in ('dev', 'chp', 'batch')
                                                                             if rng.random() < 0.7}}
        for n in others + [temp, 'other']:
            if rng.random() < 0.5:
                ex['instms'][n] = {'precision': rng.choice([None, 1, 3]), 'error': rng.choice([None, [5, 6]]),
                                   'lims': rng.choice([None, [0, 0.5]])}
        for i in range(rng.choice([0, 0, 1, 2])):
            ex['steps'].append({'at': rng.random(), 'name': f'x{i}'})
        sc = {'world': wd, 'subj': subj, 'temp': temp, 'ndev': ndev, 'oc': oc, 'extra': ex, 'perm': rng.getrandbits(32),
              'auto': rng.random() < 0.3,
              'faults': [{'kind': rng.choice(['refuse', 'nan', 'inf', 'neg']), 'p': rng.choice([0.1, 0.5, 1.0]),
                          'seed': rng.getrandbits(32)} for _ in range(rng.choice([0, 1, 2]))]}
        return deg.chaos(rng, sc)

    def crowd(self, sc):
        """The world of the subject amid the unrelated parts."""
        import random
        rng = random.Random(sc['perm'])
        wd, ex, subj, oc = copy.deepcopy(sc['world']), sc['extra'], sc['subj'], sc['oc']
        def shuffled(d):
            ks = list(d)
            rng.shuffle(ks)
            return {k: d[k] for k in ks}
        prms = {subj: wd['prms'][subj]}
        for m in wd['prms'][subj]['mechs'].values():
            # latent variables that no equation uses
            m['latents'] = shuffled({**m['latents'], **{n: l for n, l in ex.get('latents', {}).items() if n not in m['latents']}})
        for n, q in ex['prms'].items():
            q = copy.deepcopy(q)
            if q['kind'] == 'circ':
                q['args'] = [a for a in q['args'] if a in ('c', sc['temp'], subj) or a in ex['prms']]
            prms[n] = q

        wd['prms'] = shuffled(prms)
        wd['env'] = shuffled({**wd['env'], **ex['env']})
        wd['instms'] = shuffled({**ex['instms'], **wd['instms']})
        more = {oc[0]: 80.0, 'vdd': 1.0, oc[1]: 40.0}
        names = list(ex['prms'])
        out = []
        for s in wd['steps']:
            conds = dict(s['conds'])
            for c, v in more.items():
                # a circuit or parameter over a condition needs it in every step
                conds[c] = v
            s['conds'] = shuffled(conds)
            if s['t'] == 'm':
                cnt = dict(s['counts'])
                for n in names:
                    if rng.random() < 0.6:
                        cnt[n] = rng.randint(1, sc['ndev'])
                if rng.random() < 0.3:
                    cnt[oc[1]] = 2
                s['counts'] = shuffled(cnt)
            out.append(s)
        for e in ex['steps']:
            can = [n for n in names if not (ex['prms'][n]['kind'] == 'circ' and sc['temp'] in ex['prms'][n]['args'])
                   and (ex['prms'][n]['kind'] == 'circ' or ex['prms'][n]['swap'] != sc['temp'] or not ex['prms'][n].get('cond'))]
            cnt = {n: rng.randint(1, sc['ndev']) for n in can} or {oc[1]: 1}
            out.insert(int(e['at'] * (len(out) + 1)), {'t': 'm', 'counts': cnt, 'conds': dict(more), 'name': e['name']})
        wd['steps'] = out
        return wd

    def readings(self, wd, rep, subj):
        names = [s['name'] for s in wd['steps']]
        out = {}
        for r in W.rows(rep):
            if r[0] == subj:
                out.setdefault(names[r[1]], []).append(r[2:])
        return {k: sorted(v, key=str) for k, v in out.items()}

    def run(self, sc, ctx):
        subj, wd = sc['subj'], sc['world']

        def go(wdx, chaos, faults):
            w = W.World(wdx)
            if faults:
                gens = [(f, np.random.Generator(np.random.PCG64(f['seed']))) for f in faults]

                def hook(path, kw):
                    if path.split('.')[0] == subj:
                        return None
                    for f, g in gens:
                        if f['kind'] == 'refuse' and wdx['prms'][path.split('.')[0]]['kind'] == 'deg' and g.random() < f['p'] \
                                and any(np.ndim(v) for v in kw.values()):
                            ctx.fault('array_refused')
                            raise ValueError('simulated: scalars only')

                def post(path, kw, out):
                    if path.split('.')[0] == subj:
                        return out
                    for f, g in gens:
                        if f['kind'] != 'refuse' and g.random() < f['p']:
                            ctx.fault('unrelated_' + f['kind'])
                            bad = {'nan': np.nan, 'inf': np.inf, 'neg': -1e9}[f['kind']]
                            out = np.where(g.random(np.shape(out)) < 0.5, bad, out) if np.ndim(out) else bad
                    return out
                w.taps.hook, w.taps.post = hook, post
            s2 = {**sc, 'world': wdx, 'noise': sc['noise'] if chaos else [], 'abort': sc['abort'] if chaos else None}
            if sc['auto']:
                w.draws.begin('t0')
                return w.simulate('t0', None, None, ctx)
            return deg.run_world(s2, ctx, w)[2]

        crowd = self.crowd(sc)
        alone = self.readings(wd, go(wd, False, None), subj)
        amid = self.readings(crowd, go(crowd, True, sc['faults']), subj)
        for s in wd['steps']:
            if s['t'] != 'm':
                continue
            a, b = alone.get(s['name'], []), amid.get(s['name'], [])
            if len(a) != len(b):
                raise Violation('rows', f'{s["name"]}: {len(a)} readings of {subj} alone, {len(b)} amid unrelated parts')
            for x, y in zip(a, b):
                if x != y:
                    raise Violation('interference', f'{s["name"]}: {subj} read {x} alone and {y} amid unrelated parts')
        ctx.sig(subj, sorted((n, q['kind']) for n, q in sc['extra']['prms'].items()), sorted(sc['extra']['env']),
                sorted(sc['extra']['instms']), list(crowd['prms']), [f['kind'] for f in sc['faults']])


PROP = C24()
