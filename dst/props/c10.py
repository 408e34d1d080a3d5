"""C10: measuring is non-destructive and results never depend on the future."""
from dst import deg, seams, world as W
from dst.core import Prop, Violation


class C10(Prop):
    id = 'C10'
    runs = {'quick': 700, 'thorough': 40000}
    rule = ('Random models with noisy stress, limited instruments and circuits; the same stress steps run twice with '
            'measurements removed, inserted, duplicated, reordered or moved to another place, or with the test cut or '
            'continued differently; common measurements and summary rows must agree exactly. The changed schedule runs in '
            'some cases concurrently with other simulations of the same objects or after an aborted run.')
    measure = 'distinct (pairs of schedules) compared, plus switch sequences'
    assumptions = ['Each measurement uses a condition of its own, so that its draws do not depend on other measurements']
    shrink_lists = ['noise', 'sched.force', 'base', 'var', 'world.prms', 'world.env', 'world.instms']
    shrink_ints = {'world.lots': 1, 'world.chps': 1, 'ndev': 1}

    def setup(self):
        seams.lib()
        seams.monitor()

    def gen(self, rng, tier):
        prms = {}
        long = rng.random() < 0.06
        NM = 45 if long else 12
        conds = [f'mc{i}' for i in range(NM)]
        for n in 'pqr'[:rng.choice([1, 1, 2, 3])]:
            pr = W.gen_prm(rng, n)
            if rng.random() < 0.7:
                pr['cond'] = {'fam': 'many', 'conds': conds, 'unitary': 1 if pr['eqn'] == 'prod' else 0,
                              'latents': {'b': W.gen_latent(rng, 2.0)}}
            else:
                pr.pop('cond', None)
            prms[n] = pr
        if rng.random() < 0.5:
            prms['osc'] = {'kind': 'circ', 'args': [rng.choice(sorted(prms)), 'c'], 'many': conds,
                           'latents': {'c': W.gen_latent(rng, 0.5)}}
        ndev = rng.choice([1, 2, 3]) if long else W.some(rng, [1, 2, 3], W.DEVS)
        env = W.gen_env(rng)
        for c in conds:
            if rng.random() < 0.5:
                env[c] = {'type': 'offset', **{l: [-2, 2] for l in ('dev', 'chp', 'batch') if rng.random() < 0.6}}
        n_id = [0]

        def meas():
            i = n_id[0]
            n_id[0] += 1
            ps = rng.sample(list(prms), rng.randint(1, len(prms)))
            counts = {p: rng.randint(1, ndev) for p in ps}
            if rng.random() < 0.3:
                counts[f'mc{i}'] = rng.randint(1, 3)
            return {'t': 'm', 'counts': counts, 'conds': {f'mc{i}': rng.choice([25, 85, -10, 0])}, 'name': f'id{i}'}

        def strs(i):
            return {'t': 's', 'us': W.gen_us(rng), 'conds': W.gen_conds(rng), 'name': f's{i}'}
        slots = [[] for _ in range((rng.randint(3, 14) if long else rng.choice([1, 2, 3, 4])) + 1)]
        stress = [strs(i) for i in range(len(slots) - 1)]
        for _ in range(rng.randint(14, 30) if long else rng.randint(1, 5)):
            rng.choice(slots).append(meas())
        var = [list(s) for s in slots]
        for _ in range(rng.randint(2, 16) if long else rng.choice([1, 1, 2, 4])):
            op = rng.choice(['remove', 'insert', 'insert', 'dup', 'reorder', 'move'])
            k = rng.randrange(len(var))
            if op == 'insert' and n_id[0] < NM:
                var[k].insert(rng.randint(0, len(var[k])), meas())
            elif op == 'remove' and var[k]:
                var[k].pop(rng.randrange(len(var[k])))
            elif op == 'dup' and var[k]:
                m = dict(rng.choice(var[k]))
                if any(c in env for c in m['conds']) or any(x['name'] == m['name'] + 'dup' for v in var for x in v):
                    continue  # its draws would be shared with the original
                m['name'] = m['name'] + 'dup'
                var[k].append(m)
            elif op == 'reorder':
                rng.shuffle(var[k])
            elif op == 'move' and var[k]:
                m = var[k].pop(rng.randrange(len(var[k])))
                var[rng.randrange(len(var))].append(m)

        def flat(sl):
            out = []
            for k, ms in enumerate(sl):
                out += ms
                if k < len(stress):
                    out.append(stress[k])
            return out
        base, v = flat(slots), flat(var)
        cut = rng.random()
        if cut < 0.25:
            v = v[:rng.randint(1, len(v))]
        elif cut < 0.5:
            v = v[:rng.randint(1, len(v))]
            for i in range(rng.randint(1, 3)):
                v.append({**strs(90 + i), 'name': f'other{i}'} if rng.random() < 0.6 or n_id[0] >= NM else meas())
        instms = {}
        for p in prms:
            if rng.random() < 0.5:
                instms[p] = {'precision': rng.choice([None, 1, 3]), 'lims': rng.choice([None, [0, 1.5]])}
        wd = {'seed': rng.getrandbits(32), 'lots': W.some(rng, [1, 2], W.LOTS), 'chps': W.some(rng, [1, 2], W.CHPS), 'prms': prms,
              'unit': rng.choice([None, 's']), 'env': env, 'instms': instms, 'forms': rng.random() < 0.25, 'scalar': W.gen_scalar(rng)}
        return deg.chaos(rng, {'world': wd, 'ndev': ndev, 'base': base, 'var': v})

    def outcome(self, steps, rep):
        """{measurement or stress name: (history of stresses before it, rows or summary)}."""
        out, hist = {}, ()
        per = {}
        for r in W.rows(rep):
            per.setdefault(r[1], []).append((r[0],) + r[2:])
        summ = W.summ(rep)
        if len(summ) != len(steps):
            raise Violation('summary', f'{len(summ)} summary rows for {len(steps)} steps')
        for i, s in enumerate(steps):
            name = s['name']
            if name in out:
                raise ValueError('invalid scenario: repeated name')
            out[name] = (hist, per.get(i, []), summ[i][:2] + summ[i][3:], s)
            if s['t'] == 's':
                hist += (name,)
        return out

    def run(self, sc, ctx):
        _, _, rep = deg.run_world({**sc, 'noise': [], 'abort': None}, ctx, W.World({**sc['world'], 'steps': sc['base']}))
        a = self.outcome(sc['base'], rep)
        _, _, rep = deg.run_world(sc, ctx, W.World({**sc['world'], 'steps': sc['var']}))
        b = self.outcome(sc['var'], rep)
        n = 0
        for name in a:
            if name in b and a[name][0] == b[name][0] and a[name][3] == b[name][3]:
                n += 1
                if a[name][2] != b[name][2]:
                    raise Violation('summary-changed', f'{name}: {a[name][2]} became {b[name][2]} by other measurements')
                if len(a[name][1]) != len(b[name][1]):
                    raise Violation('reading-changed', f'{name}: {len(a[name][1])} rows became {len(b[name][1])}')
                for x, y in zip(a[name][1], b[name][1]):
                    if x != y:
                        raise Violation('reading-changed', f'{name}: {x} became {y} although only other measurements differ')
        # a repeated measurement under conditions without variation repeats its values
        for name in b:
            if name.endswith('dup') and name[:-3] in b and b[name][0] == b[name[:-3]][0]:
                s = b[name][3]
                if not any(c in sc['world']['env'] for c in s['conds']):
                    ctx.probe('repeat_compared')
                    if b[name][1] != b[name[:-3]][1]:
                        raise Violation('repeat-differs', f'{name}: {b[name][1]} then {b[name[:-3]][1]}')
        ctx.probe('compared', n)
        ctx.sig([s['name'] for s in sc['base']], [s['name'] for s in sc['var']])


PROP = C10()
