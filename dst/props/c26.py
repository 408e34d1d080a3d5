"""C26: a copy of a model is equal to and independent of the original, at any point of any history."""
import base64
import copy
import json
import pickle
from datetime import timedelta

import numpy as np
import pandas as pd

from dst import seams, world as W
from dst.core import Prop, Violation
from dst.props import c12
from dst.props.c25 import first_diff
from dst.server import Child
from dst.util import collect, must

KIDS = {}


class Bundle:
    """The objects a user holds: device model, environment, specification and possibly a saved initial state."""
    PARTS = ('dev', 'env', 'spec', 'state')

    def __init__(self, *parts):
        self.dev, self.env, self.spec, self.state = parts

    def parts(self):
        return [getattr(self, p) for p in self.PARTS]


def flat(x):
    return [W.num(v) for v in np.asarray(x, dtype=float).ravel()]


def show_latent(lv):
    out = [lv.name, lv.vrtn_type, W.num(lv.deter_val)]
    for layer in ('dev', 'chp', 'lot'):
        rv = getattr(lv, f'{layer}_vrtn_mdl')
        out.append([type(rv).__name__, rv.name] + [W.num(getattr(rv, a, None)) for a in ('value', 'mu', 'sigma', 'alpha', 'beta', 'start', 'stop')])
    return out


def latents(dev):
    """(path, latent) of every latent variable of a device model."""
    for pn in dev.prm_mdl_list:
        p = dev.prm_mdl(pn)
        for m, mdl in [('', p)] + ([('init', p.init_mdl), ('cond', p.cond_mdl)] + [(m, p.mech_mdl(m)) for m in p.mech_mdl_list]
                                   if hasattr(p, 'mech_mdl_list') else []):
            for v in mdl.latent_vars:
                yield f'{pn}.{m}.{v}', mdl.latent_var(v)


def show_env(env, conds):
    out = [env.name]
    for c in conds:
        m = env.vrtn_mdl(c)
        out.append([c, m.name, m.vrtn_type, flat(m.gen_env_vrtns(50.0, 2, 2, 1)), flat(m.gen_env_vrtns(3.0))])
        i = env.meas_instm(c)
        out.append([i.name, [W.num(x) for x in i.measure(pd.Series([398.15, 1.23456, 0.0, 1e9]))]])
    return out


def show_spec(o):
    return [o.name, o.description, o.num_chps, o.num_lots, [
        [type(s).__name__, s.name, sorted((k, W.num(v)) for k, v in s.conditions.items()), sorted(getattr(s, 'measurements', {}).items()),
         str(getattr(s, 'duration', None))] for s in o.steps]]


def show_state(st):
    def tree(v):
        return {k: tree(x) for k, x in v.items()} if isinstance(v, dict) else flat(v)
    return None if st is None else [str(st.elapsed), tree(st.curr_prm_vals), tree(st.init_prm_vals), tree(st.curr_deg_mech_vals),
                                    tree(st.init_deg_mech_vals), tree(st.latent_var_vals)]


def elsewhere(arg):
    """Entry point in another process: what unpickled parts are and draw there."""
    seams.lib()
    env, spec, state, lats = pickle.loads(base64.b64decode(arg['data']))
    return [show_env(env, arg['conds']), show_spec(spec), show_state(state),
            [[show_latent(l), flat(l.gen_latent_vals(2, 2, 2))] for l in lats]]


class C26(Prop):
    id = 'C26'
    runs = {'quick': 900, 'thorough': 30000}
    rule = ('Random models, environments, specifications and saved states over seeded variables (some shared between layers), taken '
            'through random histories of deep copies (also of copies), pickling (also into a child process with another hash seed), edits, '
            'draws, state generation, whole and aborted simulations and copies aborted at a random line; or one thread per '
            'copy under a seeded line-level schedule. Every object must behave as one built afresh that lived only through its own history '
            'and, before the copy, its ancestors\'.')
    measure = 'distinct (operation, lineage depth) histories, plus switch sequences'
    assumptions = ['Copies are deep and made of all objects together, while no other thread uses the original',
                   'Device models hold closures, so only environments, specifications, states and latents are pickled']
    stub = Prop.stub
    shrink_lists = ['ops', 'sched.force', 'threads', 'threads.*'] + W.WORLD_LISTS
    shrink_ints = W.WORLD_INTS

    def setup(self):
        seams.lib()
        seams.monitor()

    def finish(self):
        for k in KIDS.values():
            k.close()
        KIDS.clear()

    def gen_op(self, rng, ats, conc=False):
        k = rng.choice(['sim', 'state', 'from', 'edit', 'edit', 'edit', 'edit', 'draw', 'draw'] + ([] if conc else ['abort']))
        op = {'op': k, 'var': rng.randint(0, 10 ** 6)}
        if k == 'edit':
            op['at'] = rng.choice(ats)
            op['what'] = rng.randint(0, 7)
        if k == 'abort':
            op['n'] = rng.choice([1, 2, 5, rng.randint(1, 60)])
        return op

    def gen(self, rng, tier):
        w = W.gen_world(rng)
        w['lots'], w['chps'] = W.cap(w['lots'], 2), W.cap(w['chps'], 2)
        w['steps'] = W.gen_steps(rng, w['prms'], n=rng.choice([1, 2, 3]), max_dev=W.some(rng, [2], W.DEVS))
        if not any(s['t'] == 'm' for s in w['steps']):
            w['steps'].append({'t': 'm', 'counts': {p: 2 for p in w['prms']}, 'conds': {'mt': 25, **W.gen_conds(rng)}, 'name': 'm'})
        seeds = rng.choice([[0], [1, 2, 3], [rng.getrandbits(64)], [rng.getrandbits(31) for _ in range(9)]])
        conc = rng.random() < 0.25
        ats = rng.sample(['latent', 'env', 'rv', 'spec', 'state', 'instm'], rng.choice([1, 1, 2, 6]))  # swarm: what is edited differs per run
        ops, n = [], 1
        for _ in range(rng.choice([3, 5, 8])):
            if rng.random() < 0.35:
                how = rng.choice(['deep', 'deep', 'deep', 'pickle', 'abort'])
                op = {'op': 'copy', 'of': rng.randrange(n), 'how': how}
                if how == 'abort':
                    op['n'] = rng.choice([1, 2, 3, rng.randint(1, 40)])
                else:
                    n += 1
                ops.append(op)
            else:
                ops.append({**self.gen_op(rng, ats), 'on': rng.randrange(n)})
        if 'state' in ats:
            ops.insert(0, {'op': 'state', 'var': 1, 'on': 0})
        if n == 1:
            ops.insert(rng.randint(0, len(ops)), {'op': 'copy', 'of': 0, 'how': 'deep'})
            n = 2
        if conc:
            threads = [[self.gen_op(rng, ats, True) for _ in range(rng.choice([1, 2]))] for _ in range(min(n, 3))]
        else:
            threads = []
            ops += [{'op': rng.choice(['sim', 'from', 'draw', 'draw']), 'var': 0, 'on': i} for i in rng.sample(range(n), n)]
        return {'world': w, 'rvseed': rng.getrandbits(32), 'seeds': seeds, 'objs': rng.choice([0, 0, 0, 1, 2]), 'state': False,
                'ops': ops, 'threads': threads, 'away': rng.random() < 0.15, 'sched': seams.gen_sched(rng, seams.LIBFILES) if conc else None}

    # ------------------------------------------------------------- one operation on one bundle
    def do(self, sc, b, op, taps, ctx=None):
        """Result of an operation as plain values; errors the library raises are results too."""
        try:
            return self.act(sc, b, op, taps, ctx)
        except (Violation, seams.SimKeyboardInterrupt):
            raise
        except Exception as e:
            return ['raised', type(e).__name__]

    def act(self, sc, b, op, taps, ctx):
        import gerabaldi.models as M
        w, k, v = sc['world'], op['op'], op['var']
        lib = seams.lib()
        if k in ('sim', 'from', 'abort'):
            if ctx is not None:
                ctx.sims += 1
            st = b.state if k == 'from' else None
            if k == 'abort':
                left = [op['n']]

                def hook(path, kw):
                    left[0] -= 1
                    if left[0] == 0:
                        raise seams.SimKeyboardInterrupt('simulated')
                taps.hook = hook
                try:
                    lib.simulate(b.spec, b.dev, b.env, st)
                except seams.SimKeyboardInterrupt:
                    if ctx is not None:
                        ctx.fault('abort')
                finally:
                    taps.hook = None
                return None
            return W.full(lib.simulate(b.spec, b.dev, b.env, st))
        if k == 'state':
            b.state = lib.gen_init_state(b.dev, W.need(w), w['chps'], w['lots'], elapsed_time=timedelta(hours=v % 5))
            return show_state(b.state)
        conds = sorted(set(w['env']) | set(w['instms']) | {'temp', 'none'})
        if k == 'draw':
            lats = dict(latents(b.dev))
            return [show_env(b.env, conds), show_spec(b.spec), show_state(b.state),
                    {n: [show_latent(l), flat(l.gen_latent_vals(2, 1, 2))] for n, l in lats.items()},
                    [b.dev.name, b.dev.time_unit]]
        # edits
        at, what = op['at'], op['what']
        rv = M.Normal(1.0 + 0.01 * (v % 7), 0.01, test_seed=v)
        if at == 'latent' or at == 'rv':
            lats = list(latents(b.dev))
            n, l = lats[v % len(lats)]
            if at == 'rv':
                r = getattr(l, ['dev', 'chp', 'lot'][what % 3] + '_vrtn_mdl')
                if hasattr(r, 'sigma'):
                    r.sigma *= 1.5
                elif hasattr(r, 'beta'):
                    r.beta *= 1.01
                elif hasattr(r, 'stop'):
                    r.stop += 0.01
            elif what < 3:
                setattr(l, ['dev', 'chp', 'lot'][what] + '_vrtn_mdl', rv)
            elif what == 3:
                l.chp_vrtn_mdl = None
            elif what == 4:
                l.deter_val = (l.deter_val or 1.0) * (1 + (1 + v % 9) / 7)
            elif what == 5 and '.init.' in n:
                l.vrtn_type = 'offset' if l.vrtn_type == 'scaling' else 'scaling'
            else:
                l.name = f'edited{v}'
        elif at == 'env':
            if not w['env']:
                return None
            m = b.env.vrtn_mdl(sorted(w['env'])[v % len(w['env'])])
            if what < 3:
                setattr(m, ['dev', 'chp', 'batch'][what] + '_vrtn_mdl', rv)
            elif what == 3:
                m.chp_vrtn_mdl = None
            elif what == 4:
                m.vrtn_type = 'offset' if m.vrtn_type == 'scaling' else 'scaling'
            else:
                m.name = f'edited{v}'
        elif at == 'spec':
            s = b.spec.steps[v % len(b.spec.steps)]
            if what < 2:
                b.spec.append_steps(copy.deepcopy(s) if what else M.StrsSpec({'temp': 350.0, 'vdd': 1.0}, timedelta(hours=1 + v % 9)))
            elif what < 4:
                s.conditions['temp'] = 300.0 + v % 90
            elif what == 4 and hasattr(s, 'measurements'):
                p = sorted(s.measurements)[0] if s.measurements else None
                if p:
                    s.measurements[p] = 1 + v % 2
            elif what == 5 and hasattr(s, 'duration'):
                s.duration = timedelta(minutes=1 + v % 500)
            else:
                b.spec.name = f'edited{v}'
        elif at == 'state' and b.state is not None:
            b.state.elapsed += timedelta(hours=1)
            for vals in b.state.curr_prm_vals.values():
                vals += 0.5
        elif at == 'instm':
            if not w['instms']:
                return None
            b.env.meas_instm(sorted(w['instms'])[v % len(w['instms'])]).name = f'edited{v}'
        return None

    def copy(self, sc, b, how):
        dev, env, spec, state = b.parts()
        if how == 'pickle' and not sc['objs']:
            env, spec, state = pickle.loads(pickle.dumps((env, spec, state)))
            return Bundle(copy.deepcopy(dev), env, spec, state)
        return Bundle(*copy.deepcopy((dev, env, spec, state)))

    def run(self, sc, ctx):
        w = c12.build(sc)
        live, lineage, got = [Bundle(w.dev, w.env, w.spec, None)], [[]], [[]]
        for i, op in enumerate(sc['ops']):
            if op['op'] == 'copy':
                if op['of'] >= len(live):
                    continue
                src = live[op['of']]
                if op['how'] == 'abort':
                    lc = seams.LineCounter(op['n'], seams.SimKeyboardInterrupt('simulated'))
                    try:
                        with lc:
                            must(lambda: self.copy(sc, src, 'deep'), f'operation {i}: copying object {op["of"]}')
                    except seams.SimKeyboardInterrupt:
                        ctx.fault('copy_abort')
                    continue
                live.append(must(lambda: self.copy(sc, src, op['how']), f'operation {i}: copying object {op["of"]} ({op["how"]})'))
                ctx.probe(f'copy:{op["how"]}')
                lineage.append(list(lineage[op['of']]))
                got.append([None] * len(lineage[-1]))
                continue
            if op['on'] >= len(live):
                continue
            lineage[op['on']].append(op)
            got[op['on']].append(self.do(sc, live[op['on']], op, w.taps, ctx))
        if sc['threads']:
            n = min(len(sc['threads']), len(live))
            tasks = sc['threads'][:n]
            sch = seams.Sched(sc['sched'], n, ctx)
            w.taps.sched = sch

            def body(i):
                return [self.do(sc, live[i], op, w.taps, ctx) for op in tasks[i]]
            res = collect(sch.run([lambda i=i: body(i) for i in range(n)], [f't{i}' for i in range(n)]), 'concurrent copies')
            w.taps.sched = None
            for i in range(n):
                lineage[i] += tasks[i]
                got[i] += res[i]
        away = self.away(sc, live[-1], ctx) if sc['away'] else None
        for i, ops in enumerate(lineage):
            x = c12.build(sc)
            b = Bundle(x.dev, x.env, x.spec, None)
            for j, op in enumerate(ops):
                want, have = self.do(sc, b, op, x.taps), got[i][j]
                if have is None:
                    continue
                want, have = json.loads(json.dumps(want)), json.loads(json.dumps(have))
                if want != have:
                    raise Violation('not-independent', f'object {i}, operation {j} {op}: unlike an object that lived through this history '
                                    'alone: ' + first_diff(want, have))
            if away is not None and i == len(lineage) - 1:
                want = self.here(sc, b)
                if want != away:
                    raise Violation('not-equal-elsewhere', 'pickled parts differ in another process: ' + first_diff(want, away))
        ctx.sig([(o['op'], o.get('on', o.get('of')), o.get('how'), o.get('at')) for o in sc['ops']],
                [[o['op'] for o in t] for t in sc['threads']])

    def pack(self, b):
        return pickle.dumps((b.env, b.spec, b.state, [l for _, l in latents(b.dev)]))

    def here(self, sc, b):
        conds = sorted(set(sc['world']['env']) | {'none'})
        return json.loads(json.dumps([show_env(b.env, conds), show_spec(b.spec), show_state(b.state),
                                      [[show_latent(l), flat(l.gen_latent_vals(2, 2, 2))] for _, l in latents(b.dev)]]))

    def away(self, sc, b, ctx):
        if sc['objs']:
            return None
        kid = KIDS.get('kid')
        if kid is None:
            kid = KIDS['kid'] = Child(77)
        ctx.fault('fresh_process')
        data = must(lambda: self.pack(b), 'pickling')
        ans = kid.ask('c26', 'elsewhere', {'data': base64.b64encode(data).decode(), 'conds': sorted(set(sc['world']['env']) | {'none'})})
        if 'exc' in ans:
            raise Violation('unexpected-exception', f'using unpickled parts in another process raised {ans["exc"]}')
        return ans['ok']


PROP = C26()
