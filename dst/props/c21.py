"""C21: editing a variability model is equivalent to building it afresh."""
import copy

import numpy as np

from dst import frames, seams, world as W
from dst.core import Prop, Violation
from dst.props.c16 import ALL
from dst.util import must

BAD_TYPES = ['bad', None, 'Scaling', '', 3, 'offsets']
LAYERS = {'lat': ('dev', 'chp', 'lot'), 'env': ('dev', 'chp', 'batch')}


def gen_dist(rng, kind):
    return rng.choice([[0.8, 1.2], [-2.0, 2.0], [0.5, 0.5], [3.0, 4.0], [0.0, 0.0], [1.0, 1.0]])


def gen_model(rng, kind):
    m = {'type': rng.choice(['scaling', 'offset'])}
    for l in LAYERS[kind]:
        if rng.random() < 0.5:
            m[l] = gen_dist(rng, kind)
    if kind == 'lat':
        m['base'] = rng.choice([None, 0, 5.0, -2.5, 1])
        if m.get('dev') is None and m['base'] is None:
            m['base'] = 2.0
    return m


def gen_edit(rng, kind):
    r = rng.random()
    if r < 0.5:
        l = rng.choice(LAYERS[kind])
        return {'set': l, 'to': gen_dist(rng, kind) if rng.random() < 0.6 else None}
    if r < 0.65:
        return {'set': 'type', 'to': rng.choice(['scaling', 'offset'])}
    if r < 0.8:
        return {'set': 'type', 'to': rng.choice(BAD_TYPES), 'bad': True}
    if r < 0.87:
        return {'set': 'nonsense', 'to': 1, 'bad': True}
    if kind == 'lat' and r < 0.97:
        return {'set': 'base', 'to': rng.choice([None, 0, 7.5, -1, 1, 2])}
    return {'set': 'name', 'to': rng.choice(['x', 'y z', None])}


DISTS = [['Normal', 1.0, 0.25], ['Normal', -3, 2], ['Normal', 20, 3], ['Gamma', 2.0, 4.0], ['Uniform', 0.5, 1.5]]


def gen_export(rng):
    """A named latent over real distributions, edited and exported."""
    m = {'type': rng.choice(['scaling', 'offset']), 'base': rng.choice([None, 0, 5.0, -2]), 'name': rng.choice(['v', 'v', 'x1', None])}
    for l in LAYERS['lat']:
        m[l] = rng.choice(DISTS) if rng.random() < (0.9 if l == 'dev' else 0.4) else None
    if m['dev'] is None and m['base'] is None:
        m['base'] = 1.0
    edits = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        k = rng.choice(['dev', 'chp', 'chp', 'lot', 'lot', 'name', 'base', 'type', 'bad'])
        edits.append({'set': 'type', 'to': rng.choice(BAD_TYPES), 'bad': True} if k == 'bad' else
                     {'set': k, 'to': rng.choice(['w', 'v', 'latent 2']) if k == 'name' else rng.choice([None, 0, 2.0, 7]) if k == 'base' else
                      rng.choice(['scaling', 'offset']) if k == 'type' else rng.choice(DISTS) if rng.random() < 0.65 else None})
    return {'start': m, 'edits': edits, 'use': rng.random() < 0.5}


def gen_edits(rng, kind):
    n = rng.choice([1, 2, 4, 7])
    if rng.random() < 0.5:
        return [gen_edit(rng, kind) for _ in range(n)]
    # moves to another complete set of settings, every setting assigned, in any order
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        to = gen_model(rng, kind)
        part = [{'set': k, 'to': to.get(k)} for k in LAYERS[kind] + (('base',) if kind == 'lat' else ()) + ('type',)]
        rng.shuffle(part)
        for _ in range(rng.choice([0, 0, 1])):
            part.insert(rng.randint(0, len(part)), gen_edit(rng, kind))
        out += part
    return out


class C21(Prop):
    id = 'C21'
    runs = {'quick': 1500, 'thorough': 50000}
    rule = ('Random latent and environmental variability models, stand-alone and inside simulated worlds, taken through random '
            'sequences of edits (layer distributions set, replaced, removed; base value; combination type; names; rejected '
            'edits) with values generated, states saved, and simulations run or aborted in between; every generated value, report and '
            'exported inference definition against a model built directly with the settings of that moment and the same draws.')
    measure = 'distinct edit sequences (kind of edit and resulting layer set and type)'
    assumptions = ['Settings a constructor would refuse (no device distribution and no base value) are passed through but not compared']
    stub = ['pymc, pyro, torch: recording stand-ins, served by a simulated import finder']
    shrink_lists = ['models', 'models.*.edits', 'exports', 'exports.*.edits', 'acts', 'world.steps', 'world.env']
    shrink_ints = {'world.lots': 1, 'world.chps': 1}

    def setup(self):
        seams.lib()
        seams.reload(ALL)
        seams.monitor()

    def gen(self, rng, tier):
        models = []
        for _ in range(rng.choice([1, 3, 6])):
            kind = rng.choice(['lat', 'env'])
            models.append({'kind': kind, 'start': gen_model(rng, kind), 'edits': gen_edits(rng, kind),
                           'dims': [rng.randint(1, 3) for _ in range(3)], 'use': rng.random() < 0.5})
        sc = {'models': models, 'seed': rng.getrandbits(32), 'acts': []}
        sc['exports'] = [gen_export(rng) for _ in range(rng.choice([0, 1, 3]))]
        if rng.random() < 0.6:
            m = {'fam': 'pow', 'unitary': 0, 'unit': 'h', 'latents': {'a': {'type': 'scaling', 'base': 0.01, 'dev': [0.8, 1.2]},
                                                                       'n': {'base': 0.5}}}
            wd = {'seed': rng.getrandbits(32), 'lots': W.some(rng, [1, 2], W.LOTS), 'chps': W.some(rng, [1, 2], W.CHPS), 'unit': 'h',
                  'prms': {'p': {'kind': 'deg', 'init': {'type': 'offset', 'base': 10.0, 'dev': [-1, 1]}, 'mechs': {'m': m},
                                 'cond': {'fam': 'lin', 'unitary': 0, 'latents': {'b': {'type': 'scaling', 'base': 2.0, 'dev': [0.5, 1.5]}}}}},
                  'env': {'temp': {'type': 'offset', 'dev': [-1, 1], 'chp': [-1, 1]}}, 'instms': {}, 'steps': W.gen_steps(rng, ['p'], n=rng.choice([2, 3, 4]))}
            sc['world'] = wd
            for _ in range(rng.choice([2, 3, 5])):
                k = rng.choice(['edit', 'edit', 'sim', 'sim', 'state', 'from', 'abort'])
                a = {'act': k}
                if k == 'edit':
                    a['at'] = rng.choice(['env', 'a', 'b', 'init'])
                    a['edit'] = gen_edit(rng, 'env' if a['at'] == 'env' else 'lat')
                    if a['at'] != 'env' and a['edit']['to'] is not None and isinstance(a['edit']['to'], list):
                        a['edit']['to'] = rng.choice([[0.8, 1.2], [0.5, 0.5], [1.0, 1.0]])
                    if a['edit']['set'] == 'base':
                        a['edit']['to'] = rng.choice([0.01, 0.02, 1.0])
                if k == 'abort':
                    a['pm'], a['exc'] = rng.randint(0, 999), rng.choice(['keyboard', 'memory'])
                sc['acts'].append(a)
            sc['acts'].append({'act': 'sim'})
        return sc

    # -------------------------------------------------------- one edit on a live object and on its description
    def edit(self, obj, desc, e, kind, rvf, path, ctx, what):
        attr = {'type': 'vrtn_type', 'base': 'deter_val', 'name': 'name', 'nonsense': 'nonsense'}.get(e['set'], f'{e["set"]}_vrtn_mdl')
        to = e['to']
        if e['set'] in LAYERS[kind] and to is not None:
            to = rvf(f'{path}.{e["set"]}', to)
        try:
            setattr(obj, attr, to)
            ok = True
        except Exception as x:
            ok, err = False, x
        if e.get('bad'):
            if ok:
                raise Violation('accepted', f'{what}: setting {attr} to {to!r} was not rejected')
            ctx.fault('rejected_edit')
            return
        if not ok:
            raise Violation('unexpected-exception', f'{what}: setting {attr} raised {type(err).__name__}: {err}')
        if e['set'] not in ('name', 'nonsense'):
            desc[e['set']] = e['to']

    def run(self, sc, ctx):
        if seams.BLOCKER.modes != ALL:
            seams.reload(ALL)
        import gerabaldi.models as M
        for j, m in enumerate(sc['models']):
            self.standalone(M, sc, j, m, ctx)
        for j, m in enumerate(sc['exports']):
            self.exported(M, j, m, ctx)
        if sc.get('world'):
            self.in_world(sc, ctx)

    def build(self, M, kind, d, rvf, path):
        kw = {f'{l}_vrtn_mdl': rvf(f'{path}.{l}', d[l]) for l in LAYERS[kind] if d.get(l) is not None}
        if kind == 'lat':
            return M.LatentVar(deter_val=d.get('base'), vrtn_type=d['type'], **kw)
        return M.EnvVrtnMdl(vrtn_type=d['type'], **kw)

    def values(self, obj, kind, draws, key, dims):
        draws.begin(key)
        if kind == 'lat':
            return [np.asarray(obj.gen_latent_vals(*dims))]
        out = [np.asarray(obj.gen_env_vrtns(40.0, *dims)), np.asarray(obj.gen_batch_vrtn(3.0)),
               np.asarray(obj.gen_chp_vrtns(2.0, dims[1], dims[2]))]
        return out + [np.asarray(obj.gen_dev_vrtns(out[2], dims[0]))]

    def standalone(self, M, sc, j, m, ctx):
        kind, desc = m['kind'], dict(m['start'])
        draws = seams.Draws(sc['seed'])

        def rvf(path, rng):
            return M.Deterministic(rng[0]) if rng[0] == rng[1] else seams.SimRV(draws, path, rng[0], rng[1])
        obj = must(lambda: self.build(M, kind, desc, rvf, 'v'), 'building a variability model')
        trail = []
        for i, e in enumerate(m['edits']):
            if m['use']:
                self.values(obj, kind, draws, 'use', m['dims'])
            what = f'model {j} {kind} {m["start"]} edit {i} {e}'
            self.edit(obj, desc, e, kind, rvf, 'v', ctx, what)
            trail.append((e['set'], e.get('bad'), desc['type'], [l for l in LAYERS[kind] if desc.get(l)]))
            if kind == 'lat' and desc.get('dev') is None and desc.get('base') is None:
                continue
            fresh = must(lambda: self.build(M, kind, desc, rvf, 'v'), 'building a variability model')
            a = must(lambda: self.values(obj, kind, draws, 'k', m['dims']), f'{what}: generating values')
            b = must(lambda: self.values(fresh, kind, draws, 'k', m['dims']), 'generating values of a fresh model')
            for x, y in zip(a, b):
                if x.shape != y.shape or not np.allclose(x, y, rtol=1e-12, atol=1e-15):
                    raise Violation('edit-differs', f'{what} (all edits {m["edits"][:i + 1]}): values {x.ravel()[:4]} of the edited model, '
                                    f'{y.ravel()[:4]} of one built with {desc}')
        ctx.sig(kind, trail)

    def exported(self, M, j, m, ctx):
        desc = dict(m['start'])
        frames.FRAMES.__init__()

        def dist(path, d):
            return getattr(M, d[0])(*d[1:])

        def outcome(obj, fw):
            try:
                return repr(obj.cbi_export(fw))
            except Exception as e:
                return f'refused with {type(e).__name__}: {e}'

        def build():
            kw = {f'{l}_vrtn_mdl': dist(l, desc[l]) for l in LAYERS['lat'] if desc.get(l) is not None}
            return M.LatentVar(deter_val=desc.get('base'), name=desc['name'], vrtn_type=desc['type'], **kw)
        obj = must(build, 'building a latent')
        for i, e in enumerate(m['edits']):
            what = f'exported latent {j} {m["start"]} edit {i} {e}'
            if m['use']:
                outcome(obj, 'pymc')
            self.edit(obj, desc, e, 'lat', dist, '', ctx, what)
            if e['set'] == 'name':
                desc['name'] = e['to']
            if desc.get('dev') is None and desc.get('base') is None:
                continue
            fresh = must(build, 'building a latent')
            for fw in ('pymc', 'pyro'):
                a, b = outcome(obj, fw), outcome(fresh, fw)
                ctx.probe('edited_export')
                if a != b:
                    raise Violation('export-differs', f'{what} (all edits {m["edits"][:i + 1]}): {fw} is handed {a} by the edited latent, '
                                    f'{b} by one built with {desc}')
        ctx.sig('exp', [(e['set'], e['to'] is None) for e in m['edits']])

    def in_world(self, sc, ctx):
        wd = copy.deepcopy(sc['world'])
        w = W.World(wd)
        p = w.dev.prm_mdl('p')
        if 'temp' not in wd['env']:
            wd['env']['temp'] = {'type': 'offset'}
            w = W.World(wd)
            p = w.dev.prm_mdl('p')
        objs = {'env': (w.env.vrtn_mdl('temp'), wd['env']['temp'], 'env', 'env.temp'),
                'a': (p.mech_mdl('m').latent_var('a'), wd['prms']['p']['mechs']['m']['latents']['a'], 'lat', 'p.m.a'),
                'b': (p.cond_mdl.latent_var('b'), wd['prms']['p']['cond']['latents']['b'], 'lat', 'p.cond.b'),
                'init': (p.init_mdl.latent_var('init_val'), wd['prms']['p']['init'], 'lat', 'p.init')}
        counts, saved, done, n = {'p': 3}, None, [], 0
        for i, a in enumerate(sc['acts']):
            what = f'act {i} {a}'
            if a['act'] == 'edit':
                obj, desc, kind, path = objs[a['at']]
                self.edit(obj, desc, a['edit'], kind, w.default_rv, path, ctx, what)
                if kind == 'lat' and desc.get('dev') is None and desc.get('base') is None:
                    self.edit(obj, desc, {'set': 'base', 'to': 0.5}, kind, w.default_rv, path, ctx, what)
                continue
            n += 1
            if a['act'] == 'state':
                w.draws.begin(f's{n}')
                saved = must(lambda: seams.lib().gen_init_state(w.dev, counts, wd['chps'], wd['lots']), what), copy.deepcopy(wd), f's{n}'
                continue
            if a['act'] == 'abort':
                with seams.LineCounter() as lc:
                    must(lambda: w.simulate(f's{n}', None, None, ctx), what)
                try:
                    with seams.LineCounter(1 + lc.n * a['pm'] // 1000, seams.ASYNC[a['exc']]('simulated')):
                        w.simulate(f's{n}', None, None, ctx)
                except (seams.SimKeyboardInterrupt, seams.SimMemoryError):
                    ctx.fault('abort_before')
                continue
            st = None
            fresh = W.World(copy.deepcopy(wd))
            st2 = None
            if a['act'] == 'from' and saved is not None:
                st, old, key = saved
                past = W.World(copy.deepcopy(old))  # the state belongs to the settings of its own time
                past.draws.begin(key)
                st2 = must(lambda: seams.lib().gen_init_state(past.dev, counts, wd['chps'], wd['lots']), what)
            got = must(lambda: w.simulate(f's{n}', None, st, ctx), what)
            want = must(lambda: fresh.simulate(f's{n}', None, st2, ctx), f'{what} on freshly built models')
            gf, wf = W.full(got), W.full(want)
            for x, y in zip(gf['rows'], wf['rows']):
                if x[:6] != y[:6] or not np.isclose(x[6], y[6], rtol=1e-12, atol=1e-15):
                    raise Violation('edit-differs', f'{what}: row {x} on edited models, {y} on freshly built ones')
            if len(gf['rows']) != len(wf['rows']):
                raise Violation('edit-differs', f'{what}: {len(gf["rows"])} rows, {len(wf["rows"])} on freshly built models')
            done.append((got, gf))
            for k, (r, f) in enumerate(done):
                W.same(f, W.full(r), 'past-changed', f'{what}: the report of simulation {k} changed')


PROP = C21()
