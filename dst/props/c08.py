"""C08: latent variability is layered per lot, chip and device and frozen for a test."""
import itertools

import numpy as np

from dst import deg, fp, real, seams, world as W
from dst.core import Prop, Violation
from dst.util import must

SRC = {'pi': ('init', None), 'pc': ('cond', 'b'), 'pk': ('prm', 'k'), 'pm': ('mech', 'a'), 'pf': ('mech', 'a'),
       'osc': ('circ', 'c')}


class C08(Prop):
    id = 'C08'
    runs = {'quick': 900, 'thorough': 50000}
    rule = ('Random populations and layer combinations (base value present, absent or zero; both combination types; random '
            'variables shared between latent variables) for latent variables in initial value, condition shift, parameter, '
            'mechanism and circuit equations; draws are unique fingerprints decoded from the state and from every reading; '
            'some runs with concurrent simulations or state generations, or an aborted run before.')
    measure = 'distinct (position, layers, type, base) sets with population shape, plus switch sequences'
    assumptions = ['Latent values are read from the documented SimState attributes and from equations that return them']
    shrink_lists = ['noise', 'sched.force', 'world.steps', 'world.prms']
    shrink_ints = {'world.lots': 1, 'world.chps': 1, 'ndev': 1}

    def setup(self):
        seams.lib()
        seams.monitor()

    def latent(self, rng):
        l = {'type': rng.choice(['scaling', 'offset'])}
        for layer in ('dev', 'chp', 'lot'):
            if rng.random() < 0.65:
                l[layer] = layer
        if rng.random() < 0.6 or 'dev' not in l:
            l['base'] = rng.choice([1.0, 0.5, -2.0, 3, 0, 0.0])
        return l

    def gen(self, rng, tier):
        none = {'n': {'fam': 'none', 'unitary': 0, 'latents': {}}}
        prms = {'pi': {'kind': 'deg', 'init': self.latent(rng), 'mechs': none},
                'pc': {'kind': 'deg', 'init': {'base': 0.0}, 'mechs': none,
                       'cond': {'fam': 'lat', 'unitary': 0, 'latents': {'b': self.latent(rng)}}},
                'pk': {'kind': 'deg', 'init': {'base': 0.0}, 'mechs': none, 'eqn': 'lat', 'latents': {'k': self.latent(rng)}},
                'pm': {'kind': 'deg', 'init': {'base': 0.0}, 'mechs': {'m': {'fam': 'lat', 'unitary': 0,
                                                                            'latents': {'a': self.latent(rng)}}}},
                'pf': {'kind': 'deg', 'init': {'base': 0.0}, 'mechs': {'m': {'fam': 'latf', 'unitary': 0,
                                                                            'latents': {'a': self.latent(rng)}}}},
                'osc': {'kind': 'circ', 'args': rng.choice([['c'], ['c', 'pz']]), 'latents': {'c': self.latent(rng)}}}
        keep = rng.sample(sorted(prms), rng.randint(1, 6))
        prms = {k: prms[k] for k in keep}
        true_rv = rng.random() < 0.2
        if true_rv:
            # real distributions: a single layer each, so that the value identifies the draw
            for k in keep:
                l = self.spec({'prms': prms}, k)
                layer = rng.choice([x for x in ('dev', 'chp', 'lot') if x in l] or [None])
                for x in ('dev', 'chp', 'lot'):
                    if x != layer:
                        l.pop(x, None)
                if layer != 'dev' or l.get('base') == 0:
                    l['base'] = 0.5
        if 'osc' in prms:
            prms['pz'] = {'kind': 'deg', 'init': {'base': 0.0}, 'mechs': none}
        ndev = W.some(rng, [1, 2, 3, 5], W.DEVS)
        steps = []
        for i in range(rng.choice([1, 2, 3, 5])):
            if rng.random() < 0.6:
                steps.append({'t': 's', 'us': W.gen_us(rng), 'conds': {'temp': 100}, 'name': 's'})
            ps = rng.sample(keep, rng.randint(1, len(keep)))
            steps.append({'t': 'm', 'counts': {p: rng.randint(1, ndev) for p in ps}, 'conds': {'temp': 25}, 'name': 'm'})
        wd = {'seed': 0, 'lots': W.some(rng, [1, 2, 3], W.LOTS), 'chps': W.some(rng, [1, 2, 3], W.CHPS), 'prms': prms, 'unit': 'h', 'env': {}, 'forms': rng.random() < 0.25, 'scalar': W.gen_scalar(rng),
              'instms': {}, 'steps': steps}
        return deg.chaos(rng, {'world': wd, 'ndev': ndev, 'share': rng.choice([False, False, True]),
                               'own': rng.random() < 0.4, 'real': rng.getrandbits(32) if true_rv else None, 'twice': rng.random() < 0.3})

    def run(self, sc, ctx):
        import gerabaldi.models as M
        src, shared, drawn = fp.Source(), {}, {}
        wd = sc['world']

        def rvf(path, layer):
            lat = self.find(wd, path.rsplit('.', 1)[0])
            vt = lat['type']
            if sc['real'] is not None:
                k = real.pick(sc['real'], path)
                rv = real.real_rv(M, [0.5, 1.5], ['normal', 'uniform', 'gamma'][k % 3], k)
                orig, seen = rv.sample, drawn.setdefault(path.split('.')[0], [])

                def sample(*a, **kw):
                    out = orig(*a, **kw)
                    seen.extend(np.ravel(out).tolist())
                    return out
                rv.sample = sample
                return rv
            if sc['share']:
                return shared.setdefault((vt, layer), fp.FpRV(src, vt, layer))
            return fp.FpRV(src, vt, layer)
        w = W.World(wd, rvf=rvf)
        share = fp.Sharing()
        table = {}

        def see(st_no, p, at, value, what):
            lat = self.spec(wd, p)
            layers = [l for l in ('lot', 'chp', 'dev') if lat.get(l)]
            if sc['real'] is not None:
                if not layers and value != lat['base']:
                    raise Violation('not-layered', f'{what}: {value} without any variation of {lat["base"]}')
                if layers:
                    # the base value combined with one of the draws, to the last digits
                    can = np.array(drawn[p])
                    if lat.get('base') is not None:
                        can = can * lat['base'] if lat['type'] == 'scaling' else can + lat['base']
                    if not len(can) or not np.min(np.abs(can - value)) <= 1e-13 * abs(value):
                        raise Violation('not-layered', f'{what}: {value} is not {lat.get("base")} combined with any draw')
                ids = {l: value for l in layers}
            else:
                ids = src.decode(lat['type'], layers, lat.get('base'), value, what)
            for layer, i in (ids or {}).items():
                key = (st_no, p) + {'lot': at[:1], 'chp': at[:2], 'dev': at}[layer]
                share.see(f'{lat["type"]} {layer}', key, i, what)
            old = table.setdefault((st_no, p, at), value)
            if old != value:
                raise Violation('not-frozen', f'{what}: {value}, was {old} earlier in the same test')

        if sc['own'] and not sc['noise'] and not sc['abort']:
            rep, no = must(lambda: w.simulate('t0', None, None, ctx), 'the simulation'), 1
        else:
            w, st, rep = deg.run_world(sc, ctx, w)
            no = 0
            self.state(sc, st, see, no)
        reps = [(no, rep)]
        if sc['twice']:
            reps.append((0 if no == 0 else 2, must(lambda: w.simulate('t0', None, st if no == 0 else None, ctx), 'a second run')))
        for no, rep in reps:
            stressed, at_step = False, {}
            for i, s in enumerate(wd['steps']):
                stressed |= s['t'] == 's'
                at_step[i] = stressed
            for p, i, l, c, d, t, v in W.rows(rep):
                what = f'step {i} {p} lot {l} chip {c} device {d}'
                if p in ('pm', 'pf') and not at_step[i]:
                    if v != 0:
                        raise Violation('not-fresh', f'{what}: {v} before any stress')
                elif p in SRC:
                    see(no, p, (l, c, d), v, what)
        ctx.probe('decoded_values', len(table))
        ctx.sig([(p, sorted(self.spec(wd, p).items())) for p in wd['prms'] if p in SRC], wd['lots'], wd['chps'], sc['ndev'])

    def spec(self, wd, p):
        kind, name = SRC[p]
        pr = wd['prms'][p]
        return {'init': lambda: pr['init'], 'cond': lambda: pr['cond']['latents'][name],
                'prm': lambda: pr['latents'][name], 'circ': lambda: pr['latents'][name],
                'mech': lambda: pr['mechs']['m']['latents'][name]}[kind]()

    def find(self, wd, path):
        return self.spec(wd, path.split('.')[0])

    def state(self, sc, st, see, no):
        wd = sc['world']
        for p in wd['prms']:
            if p not in SRC:
                continue
            kind, name = SRC[p]
            vals = {'init': lambda: st.init_prm_vals[p], 'cond': lambda: st.latent_var_vals[p]['cond'][name],
                    'prm': lambda: st.latent_var_vals[p][name], 'circ': lambda: st.latent_var_vals[p][name],
                    'mech': lambda: st.latent_var_vals[p]['m'][name]}[kind]()
            vals = np.asarray(vals)
            if vals.shape != (wd['lots'], wd['chps'], sc['ndev']):
                raise Violation('state-shape', f'{p}: latent values of shape {vals.shape}')
            for at in itertools.product(*map(range, vals.shape)):
                see(no, p, at, float(vals[at]), f'state of {p} {at}')


PROP = C08()
