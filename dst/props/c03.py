"""C03: a simulation aborted at any point leaves the caller's inputs untouched."""
from datetime import timedelta

from dst import seams, world as W
from dst.core import Prop, Violation
from dst.props.c02 import state_vals
from dst.snap import compare, snap
from dst.util import must

EQN_EXC = {'zero': ZeroDivisionError, 'type': TypeError, 'runtime': RuntimeError, 'key': KeyError, 'attr': AttributeError,
           'overflow': OverflowError, 'float': FloatingPointError, 'os': OSError, 'index': IndexError,
           'lookup': LookupError, 'notimpl': NotImplementedError, 'stop': StopIteration, **seams.ASYNC}


class C03(Prop):
    id = 'C03'
    runs = {'quick': 900, 'thorough': 30000}
    rule = ('Random models and tests; one to three runs aborted at a random executed library line, equation call or random '
            'draw by KeyboardInterrupt, MemoryError, SystemExit or a model exception, then a complete run with the same '
            'objects and draws compared with a never-aborted run on fresh objects.')
    measure = 'distinct (abort kind, exception, library line or call) tuples at which an abort was injected'
    assumptions = ['Aborts land on line boundaries of library code or inside equations and random sources']
    shrink_lists = ['aborts'] + W.WORLD_LISTS
    shrink_ints = W.WORLD_INTS

    def setup(self):
        seams.lib()
        seams.monitor()

    def gen(self, rng, tier):
        w = W.gen_world(rng)
        w['steps'] = W.gen_steps(rng, w['prms'], max_dev=W.some(rng, [3], W.DEVS))[:5]
        w['lots'], w['chps'] = W.cap(w['lots'], 2), W.cap(w['chps'], 2)
        aborts = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            where = rng.choice(['line', 'line', 'line', 'eqn', 'rv'])
            aborts.append({'where': where, 'frac': rng.choice([rng.random(), rng.random() ** 3]),
                           'exc': rng.choice(sorted(seams.ASYNC)) if where == 'line' else rng.choice(sorted(EQN_EXC))})
        return {'world': w, 'aborts': aborts, 'api': rng.choice(['simulate', 'simulate', 'simulate', 'state', 'init', 'devinit']),
                'offset_us': rng.choice([0, 5, 7200_000_000]),
                'hours': rng.choice([None, None, 0.0, 2.5, 7])}

    def op(self, w, sc, ctx, st, counts):
        if sc['api'] == 'devinit':
            w.draws.begin('op')
            return state_vals(w.dev.gen_init_state(counts, w.w['chps'], w.w['lots']))
        if sc['api'] == 'init':
            w.draws.begin('op')
            return state_vals(seams.lib().gen_init_state(w.dev, counts, w.w['chps'], w.w['lots']))
        return W.full(w.simulate('op', None, st, ctx))

    def prepare(self, w, sc):
        st = None
        if sc['api'] == 'state':
            w.draws.begin('state')
            st = seams.lib().gen_init_state(w.dev, W.need(w.w), w.w['chps'], w.w['lots'],
                                            elapsed_time=timedelta(microseconds=sc['offset_us']))
            if sc.get('hours') is not None:
                st.elapsed = sc['hours']
        counts = {p: 2 for p in list(w.w['prms'])[::-1][:2]}
        return st, counts

    def run(self, sc, ctx):
        twin = W.World(sc['world'])
        tot = {'eqn': 0, 'rv': 0}
        st, counts = self.prepare(twin, sc)

        def count(which):
            def hook(*_):
                tot[which] += 1
            return hook
        twin.taps.hook, twin.draws.hook = count('eqn'), count('rv')
        with seams.LineCounter() as lc:
            want = must(lambda: self.op(twin, sc, ctx, st, counts), 'the first run')
        tot['line'] = lc.n

        w = W.World(sc['world'])
        st, counts = self.prepare(w, sc)
        inputs = {'specification': w.spec, 'device model': w.dev, 'environment': w.env, 'initial state': st,
                  'device counts': counts}
        before = {k: snap(v) for k, v in inputs.items()}

        def untouched(when):
            for k, v in inputs.items():
                d = compare(before[k], snap(v))
                if d:
                    raise Violation('input-changed', f'{k} changed by {when}: {d}')

        for a in sc['aborts']:
            if not tot[a['where']]:
                continue
            at = 1 + int(a['frac'] * tot[a['where']])
            exc = EQN_EXC[a['exc']]('simulated abort')
            n, hit = [0], [None]

            def hook(path, *_):
                n[0] += 1
                if n[0] == at:
                    hit[0] = path
                    raise exc
            lc = None
            if a['where'] == 'eqn':
                w.taps.hook = hook
            elif a['where'] == 'rv':
                w.draws.hook = hook
            else:
                lc = seams.LineCounter(at, exc)
                lc.__enter__()
            try:
                self.op(w, sc, ctx, st, counts)
                reached = None
            except BaseException as e:
                reached = e
            finally:
                seams.set_hook(None)
                w.taps.hook = w.draws.hook = None
            hit = hit[0] if lc is None else lc.hit
            if hit is None:
                if reached is not None and not isinstance(reached, Exception):
                    raise reached
                if reached is not None:
                    raise Violation('unexpected-exception', f'run raised {type(reached).__name__}: {reached}')
                continue
            ctx.fault(f'{a["where"]}:{a["exc"]}')
            ctx.log('abort', a['exc'], 'at', a['where'], at, hit)
            ctx.sig(a['where'], a['exc'], hit)
            if reached is None:
                raise Violation('abort-swallowed', f'{a["exc"]} raised at {a["where"]} {hit} never reached the caller')
            if reached is not exc:
                if isinstance(reached, seams.BudgetExceeded) or type(reached).__name__ == 'Hang':
                    raise reached
                if a['exc'] == 'stop' and isinstance(reached, RuntimeError) and reached.__cause__ is exc:
                    continue  # the language itself turns StopIteration inside generators into RuntimeError
                raise Violation('abort-replaced', f'{a["exc"]} raised at {a["where"]} {hit} reached the caller as '
                                f'{type(reached).__name__}: {reached}')
            untouched(f'an aborted run ({a["exc"]} at {hit})')
        got = must(lambda: self.op(w, sc, ctx, st, counts), 'the run after aborted ones')
        untouched('a completed run')
        if sc['api'].endswith('init'):
            if repr(got) != repr(want):
                raise Violation('rerun-differs', 'initial state generated after aborted attempts differs')
        else:
            W.same(want, got, 'rerun-differs', 'report after aborted runs differs from a never-aborted one')


PROP = C03()
