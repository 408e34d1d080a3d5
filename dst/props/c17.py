"""C17: exporting models to inference frameworks never alters them."""
from dst import frames, real, seams, snap, world as W
from dst.core import Prop, Violation
from dst.props.c16 import ALL
from dst.util import collect, must

FAMS = ('pow', 'vpow', 'sat', 'log')
EXCS = {'RuntimeError': RuntimeError, 'ValueError': ValueError, 'AttributeError': AttributeError, 'TypeError': TypeError,
        'ImportError': ImportError, 'MemoryError': seams.SimMemoryError, 'KeyboardInterrupt': seams.SimKeyboardInterrupt,
        'KeyError': KeyError, 'NotImplementedError': NotImplementedError}


def state(objs):
    """Public state of latent variables and of the distributions in them."""
    return [snap.snap(o) for o in objs]


class C17(Prop):
    id = 'C17'
    runs = {'quick': 700, 'thorough': 40000}
    rule = ('Random device models over real seeded random variables plus stand-alone latent variables of every layer, '
            'distribution, base value and combination type; sequences of exports of variables, latents and models to pymc, '
            'pyro (recording stand-ins) and an unsupported framework, failing at a random framework call, interrupted at a '
            'random library line, or running concurrently with simulations under a seeded schedule.')
    measure = 'distinct (export sequence, fault, outcome) combinations, plus switch sequences'
    assumptions = ['The frameworks themselves do not modify the values handed to them']
    stub = ['pymc, pyro, torch: recording stand-ins with injectable failures, served by a simulated import finder']
    shrink_lists = ['ops', 'lats', 'sched.force'] + W.WORLD_LISTS
    shrink_ints = W.WORLD_INTS

    def setup(self):
        seams.lib()
        seams.reload(ALL)
        seams.monitor()

    def gen(self, rng, tier):
        w = W.gen_world(rng, fams=FAMS)
        w['lots'], w['chps'], w['steps'] = W.cap(w['lots'], 2), W.cap(w['chps'], 2), w['steps'][:4]
        lats = []
        for i in range(rng.choice([1, 2, 3])):
            def d():
                return rng.choice([['Normal', 1.0, 0.25], ['Normal', -3, 2], ['Normal', 0.5, 0.1], ['Normal', 20, 3], ['Gamma', 2.0, 4.0], ['Uniform', 0.5, 1.5], ['Deterministic', 2.0]])
            lats.append({'dev': d() if rng.random() < 0.9 else None, 'chp': d() if rng.random() < 0.5 else None,
                         'lot': d() if rng.random() < 0.5 else None, 'base': rng.choice([None, None, 0, 5.0, -2]),
                         'type': rng.choice(['scaling', 'offset']), 'name': rng.choice([None, f'v{i}', 'x'])})
            if lats[-1]['dev'] is None and lats[-1]['base'] is None:
                lats[-1]['base'] = 1.0
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            k = rng.choice(['lat', 'lat', 'lat', 'rv', 'mdl', 'prm', 'sim', 'par'])
            op = {'op': k, 'i': rng.getrandbits(16), 'fw': rng.choice(['pymc'] * 4 + ['pyro'] * 4 + ['stan'])}
            r = rng.random()
            if r < 0.35:
                op['fault'] = {'call': rng.choice([1, 1, 1, 2, 2, 3, 4]), 'exc': rng.choice(sorted(EXCS))}
            elif r < 0.6:
                op['cut'] = {'pm': rng.randint(0, 1000), 'exc': rng.choice(['keyboard', 'memory'])}
            if k == 'par':
                op['tasks'] = ['sim'] + [[rng.choice(['lat', 'mdl', 'rv']), rng.getrandbits(16), rng.choice(['pymc', 'pyro'])]
                                         for _ in range(rng.choice([1, 2]))]
            ops.append(op)
        sc = {'world': w, 'lats': lats, 'ops': ops, 'rvseed': rng.getrandbits(30),
              'kinds': ['normal', 'normal', 'normal', 'uniform', 'gamma'], 'share': rng.random() < 0.2, 'seeds': [rng.getrandbits(20) for _ in range(7)]}
        if any(o['op'] == 'par' for o in ops):
            sc['sched'] = seams.gen_sched(rng, ['models/devices.py', 'models/random_vars.py', 'sim.py'])
        return sc

    def build(self, sc):
        import gerabaldi.models as M
        w = W.World(sc['world'], real.seeded_rvf(M, sc))
        lats = []
        for j, l in enumerate(sc['lats']):
            kw = {f'{k}_vrtn_mdl': getattr(M, l[k][0])(*l[k][1:], test_seed=j) for k in ('dev', 'chp', 'lot') if l[k]}
            if sc.get('share') and lats and l['dev']:
                kw['dev_vrtn_mdl'] = lats[0].dev_vrtn_mdl
            lats.append(must(lambda: M.LatentVar(deter_val=l['base'], name=l['name'], vrtn_type=l['type'], **kw), 'building a latent'))
        mdls = []
        for pn in w.dev.prm_mdl_list:
            p = w.dev.prm_mdl(pn)
            mdls.append((p, None))
            if sc['world']['prms'][pn]['kind'] == 'circ':
                continue
            mdls += [(p.init_mdl, []), (p.cond_mdl, ['temp'] if sc['world']['prms'][pn].get('cond') else [])]
            for m, ms in sc['world']['prms'][pn]['mechs'].items():
                args = W.mech_fn(ms, 'h')[0]
                mdls.append((p.mech_mdl(m), [a for a in args if a not in ms['latents']]))
        for m, _ in mdls:
            lats += [m.latent_var(v) for v in m.latent_vars]
        return w, lats, mdls

    def act(self, kind, i, fw, lats, mdls):
        """Callable doing one export and returning what the framework was handed, as text."""
        if kind == 'lat':
            o = lats[i % len(lats)]
            return (kind, i % len(lats), fw), lambda: repr(o.cbi_export(fw))
        if kind == 'rv':
            rvs = [getattr(o, f'{k}_vrtn_mdl') for o in lats for k in ('dev', 'chp', 'lot')]
            o = rvs[i % len(rvs)]
            return (kind, i % len(rvs), fw), lambda: repr(o.get_cbi_form(fw))
        pick = [(m, a) for m, a in mdls if (a is None) == (kind == 'prm')]
        m, args = pick[i % len(pick)]
        key = (kind, i % len(pick))
        if key not in self.obs:
            o = {**({m.name: [1.0, 2.0]} if (self.seed + len(self.obs)) % 7 else {}), **{a: {'time': 5.0, 'temp': 85.0, 'vdd': 1.1}[a] for a in args or []}}
            self.obs[key] = (o, list(o.items()), list(o.get(m.name, [])))
        obs = self.obs[key][0]
        return (kind, i % len(pick), fw), lambda: repr(m.export_to_cbi(fw, observed=obs))

    def run(self, sc, ctx):
        if seams.BLOCKER.modes != ALL:
            seams.reload(ALL)
        twin, _, _ = self.build(sc)
        w, lats, mdls = self.build(sc)
        was, seen, nsim, self.obs, self.seed = state(lats), {}, 0, {}, sc['rvseed']

        def intact(what):
            for i, (a, b) in enumerate(zip(was, state(lats))):
                d = snap.compare(a, b)
                if d:
                    raise Violation('model-changed', f'{what}: latent {i} {d}')
            for key, (o, items, vals) in self.obs.items():
                if o != dict(items) or next((v for v in o.values() if isinstance(v, list)), []) != vals:
                    raise Violation('observed-changed', f'{what}: the observed data given for model {key} became {o}, was {dict(items)}')

        def outcome(fn):
            try:
                return 'handed ' + fn()
            except Exception as e:
                return f'refused with {type(e).__name__}: {e}'

        def remember(key, got, what):
            if seen.setdefault(key, got) != got:
                raise Violation('repeat-differs', f'{what}: {got}, earlier {seen[key]}')

        def sim(w, n):
            return W.full(w.simulate(f's{n}', None, None, ctx))

        frames.FRAMES.__init__()
        for j, op in enumerate(sc['ops']):
            what = f'after operation {j} {op["op"]} {op["fw"]} {op.get("fault") or op.get("cut") or ""}'
            if op['op'] == 'sim':
                a, b = must(lambda: sim(twin, nsim), 'a simulation'), must(lambda: sim(w, nsim), 'a simulation after exports')
                W.same(a, b, 'results-differ', f'simulation {nsim} after exports')
                nsim += 1
                continue
            if op['op'] == 'par':
                keys = [f's{nsim}'] + [f'x{k}' for k in range(len(op['tasks']) - 1)]
                acts = [self.act(*t, lats, mdls) for t in op['tasks'][1:]]
                sch = seams.Sched(sc['sched'], len(keys), ctx)
                frames.FRAMES.hook = lambda where: sch.point(where)
                w.taps.sched = sch
                try:
                    res = collect(sch.run([lambda: sim(w, nsim)] + [lambda a=a: outcome(a[1]) for a in acts], keys), what)
                finally:
                    frames.FRAMES.hook = None
                    w.taps.sched = None
                W.same(must(lambda: sim(twin, nsim), 'a simulation'), res[0], 'results-differ', f'simulation {nsim} beside exports')
                for (key, _), got in zip(acts, res[1:]):
                    remember(key, got, f'{what}, concurrent export {key}')
                nsim += 1
                intact(what)
                continue
            key, fn = self.act(op['op'], op['i'], op['fw'], lats, mdls)
            if op.get('fault'):
                left = [op['fault']['call']]

                def hook(where):
                    left[0] -= 1
                    if left[0] == 0:
                        ctx.fault('framework_' + op['fault']['exc'])
                        raise EXCS[op['fault']['exc']](f'simulated failure of {where}')
                frames.FRAMES.hook = hook
                try:
                    fn()
                except (Exception, seams.SimKeyboardInterrupt):
                    ctx.probe('export_failed')
                finally:
                    frames.FRAMES.hook = None
            elif op.get('cut'):
                lc = seams.LineCounter()
                with lc:
                    outcome(fn)
                lc = seams.LineCounter(max(1, lc.n * op['cut']['pm'] // 1000), seams.ASYNC[op['cut']['exc']]())
                with lc:
                    try:
                        fn()
                    except (Exception, seams.SimKeyboardInterrupt):
                        pass
                if lc.hit:
                    ctx.fault('interrupt' if op['cut']['exc'] == 'keyboard' else 'memory_error')
                    ctx.log('interrupted at', lc.hit)
            else:
                remember(key, outcome(fn), f'{what} {key}')
            intact(what)
            # the same export once more, undisturbed
            got = outcome(fn)
            remember(key, got, f'{what} {key}, repeated')
            intact(what + ' repeated')
            ctx.sig(key[0], op['fw'], op.get('fault'), got.split('(')[0], op.get('cut', {}).get('exc'))
        a, b = must(lambda: sim(twin, nsim), 'a simulation'), must(lambda: sim(w, nsim), 'a simulation after all exports')
        W.same(a, b, 'results-differ', f'simulation {nsim} after all exports')


PROP = C17()
