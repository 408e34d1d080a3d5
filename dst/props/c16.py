"""C16: missing optional packages never affect what does not use them."""
from dst import frames, real, seams, world as W
from dst.core import Prop, Violation
from dst.util import must

EXCS = {'ImportError': ImportError, 'ModuleNotFoundError': ModuleNotFoundError, 'SystemError': SystemError, 'OSError': OSError,
        'AttributeError': AttributeError, 'RuntimeError': RuntimeError, 'ValueError': ValueError, 'TypeError': TypeError,
        'NameError': NameError, 'AssertionError': AssertionError, 'KeyError': KeyError}
PKG = {'pymc': 'pymc', 'pyro': 'pyro-ppl', 'pyro.distributions': 'pyro-ppl', 'torch': 'torch'}
ALL = {n: 'stub' for n in PKG}
NEEDS = {'rv': {'pymc': ['pymc'], 'pyro': ['pyro', 'pyro.distributions']},
         'lat': {'pymc': ['pymc'], 'pyro': ['torch', 'pyro', 'pyro.distributions']},
         'bare': {'pymc': ['pymc'], 'pyro': ['pyro', 'pyro.distributions']},
         'mdl': {'pymc': ['pymc'], 'pyro': ['torch', 'pyro', 'pyro.distributions']}}


class C16(Prop):
    id = 'C16'
    runs = {'quick': 900, 'thorough': 40000}
    rule = ('The library is imported anew with every optional package (pymc, pyro, pyro.distributions, torch) present as a '
            'recording stand-in, missing, or failing to import with one of 11 exception types, always or only the first '
            'times; random tests are then simulated and features that need the packages are used in random order, '
            'repeatedly, before and after the simulations.')
    measure = 'distinct (package availability, failure kinds, features used) combinations'
    assumptions = ['Packages are imported through the import system (import statement or importlib)']
    stub = ['pymc, pyro, torch: recording stand-ins served by a simulated import finder']
    shrink_lists = ['before', 'after', 'broken'] + W.WORLD_LISTS
    shrink_ints = W.WORLD_INTS

    def setup(self):
        seams.lib()

    def gen(self, rng, tier):
        broken = {}
        for n in PKG:
            if rng.random() < 0.5:
                broken[n] = {'exc': rng.choice(sorted(EXCS)), 'flaky': rng.choice([0, 0, 0, 0, 1, 2])}
        if rng.random() < 0.2:
            broken = {n: {'exc': rng.choice(['ImportError', 'ModuleNotFoundError']), 'flaky': 0} for n in PKG}

        def uses():
            return [[rng.choice(['rv', 'lat', 'mdl', 'bare']), rng.choice(['pymc', 'pyro', 'pyro', 'stan']), rng.choice(['Normal', 'Gamma', 'Uniform'])]
                    for _ in range(rng.choice([0, 1, 2, 4]))]
        w = W.gen_world(rng)
        w['lots'], w['chps'], w['steps'] = W.cap(w['lots'], 2), W.cap(w['chps'], 2), w['steps'][:5]
        return {'world': w, 'broken': broken, 'before': uses(), 'after': uses(), 'real_rv': rng.random() < 0.3,
                'rvseed': rng.getrandbits(30), 'seeds': [rng.getrandbits(20) for _ in range(5)]}

    def report(self, sc, ctx):
        import gerabaldi.models as M
        rvf = real.seeded_rvf(M, sc) if sc['real_rv'] else None
        w = W.World(sc['world'], rvf)
        return W.full(w.simulate('t0', None, None, ctx))

    def use(self, u, M):
        feat, fw, dist = u
        rv = getattr(M, dist)
        if feat == 'rv':
            return rv(name='v').get_cbi_form(fw)
        if feat == 'bare':
            return M.devices.LatentMdl(lambda t: t, 'mdl').export_to_cbi(fw, observed={'mdl': [1.0, 2.0], 't': 3.0})
        lat = M.LatentVar(M.Normal(1, 0.1), getattr(M, dist)(), M.Normal(2, 0.5), name='a')
        if feat == 'lat':
            return lat.cbi_export(fw)
        mdl = M.devices.LatentMdl(lambda a, t: a + t, 'mdl', a=lat)
        return mdl.export_to_cbi(fw, observed={'mdl': [1.0, 2.0], 't': 3.0})

    def run(self, sc, ctx):
        must(lambda: seams.reload(ALL), 'importing the library with every optional package present')
        frames.FRAMES.__init__()
        want = must(lambda: self.report(sc, ctx), 'the simulation with every optional package present')
        if frames.FRAMES.log:
            raise Violation('used', f'a simulation called an optional package: {frames.FRAMES.log[0]}')
        modes, left = dict(ALL), {}
        for n, b in sc['broken'].items():
            modes[n] = EXCS[b['exc']]
            left[n] = b['flaky']
            ctx.fault('import_' + b['exc'])
        if 'pyro' in sc['broken']:
            modes['pyro.distributions'] = modes['pyro']
        self.tries = {}
        old = seams.BLOCKER.find_spec

        def find_spec(name, path=None, target=None):
            b = sc['broken'].get(name)
            if b and b['flaky']:
                self.tries[name] = self.tries.get(name, 0) + 1
                if self.tries[name] > b['flaky']:
                    ctx.fault('import_recovered')
                    return frames.spec(name)
            return old(name, path, target)
        seams.BLOCKER.find_spec = find_spec
        try:
            try:
                seams.reload(modes)
            except Exception as e:
                raise Violation('import-failed', f'importing the library with {sc["broken"]} broken raised {type(e).__name__}: {e}')
            import gerabaldi.models as M
            for i, u in enumerate(sc['before']):
                self.feature(u, M, sc, f'use {i} {u} before the simulation', ctx)
            got = must(lambda: self.report(sc, ctx), f'the simulation with {sc["broken"]} broken')
            W.same(want, got, 'report-differs', f'report with {sc["broken"]} broken')
            for i, u in enumerate(sc['after']):
                self.feature(u, M, sc, f'use {i} {u} after the simulation', ctx)
        finally:
            del seams.BLOCKER.find_spec
        ctx.sig(sorted((n, b['exc'], b['flaky']) for n, b in sc['broken'].items()), sc['before'], sc['after'])

    def feature(self, u, M, sc, what, ctx):
        feat, fw, _ = u
        try:
            self.use(u, M)
            err = None
        except Exception as e:
            err = e
        if fw == 'stan':
            if feat == 'bare':
                return
            if err is None or isinstance(err, ImportError):
                raise Violation('only-when-used', f'{what}: an unsupported framework gave {type(err).__name__}: {err}')
            return
        need = NEEDS[feat][fw]
        bad = [n for n in need if n in sc['broken'] or n == 'pyro.distributions' and 'pyro' in sc['broken']]
        maybe = [n for n in bad if any(sc['broken'].get(m, {}).get('flaky') for m in (n, n.split('.')[0]))]
        sure = [n for n in bad if n not in maybe]
        if err is None:
            if sure:
                raise Violation('no-error', f'{what} needs {sure}, which cannot be imported, but raised nothing')
            return
        if not bad:
            raise Violation('only-when-used', f'{what} needs only packages that are there, but raised {type(err).__name__}: {err}')
        if not isinstance(err, ImportError) or not any(PKG[n] in str(err) for n in bad):
            raise Violation('wrong-error', f'{what} needs {bad}, which cannot be imported, but raised {type(err).__name__}: {err}')
        ctx.probe('import_error_on_use')


PROP = C16()
