"""C15: report times survive any sequence of conversions, exports and loads."""
import json
import math
import numbers
import os
from datetime import timedelta

import numpy as np

from dst import disk, reps, seams, world as W
from dst.core import Prop, Violation
from dst.props import c13
from dst.util import collect, must

SCR = disk.Scratch()
BAD = ['weeks', 'minutes', 'test_invalid', 7, 'm', 'fortnights']
GOOD = c13.UNITS


def times(rep):
    """Physical times (integer microseconds) of everything in a report, raw numbers read in the report's own unit."""
    def phys(t):
        if isinstance(t, (timedelta, np.timedelta64)):
            return W.us(t)
        if not isinstance(t, numbers.Real) or isinstance(t, bool):
            raise Violation('time-type', f'a report holds the time {t!r}')
        return raw_us(t, rep.time_unit)
    df, sm = rep.measurements, rep.test_summary
    return ([phys(t) for t in df['time']] if 'time' in df else [],
            [tuple(phys(t) for t in r) for r in zip(sm['duration'], sm['start time'], sm['end time'])] if 'duration' in sm else [])


def raw_us(t, unit):
    if unit not in W.UNIT_US:
        raise Violation('unit', f'a report or export names the unit {unit!r}')
    x = float(t) * W.UNIT_US[unit]
    if math.isnan(x):
        raise Violation('time-type', 'a report or export holds an undefined time')
    return round(x)


def snap(rep):
    """Everything observable of a report, including the types and raw values of its times."""
    return repr((rep.test_name, rep.test_description, rep.time_unit,
                 [(c, str(rep.measurements[c].dtype), list(rep.measurements[c])) for c in rep.measurements],
                 [(c, str(rep.test_summary[c].dtype), list(rep.test_summary[c])) for c in rep.test_summary],
                 list(rep.measurements.index), list(rep.test_summary.index)))


def close_us(a, b):
    return abs(a - b) <= 1 + 1e-14 * abs(b)


class C15(Prop):
    id = 'C15'
    runs = {'quick': 1500, 'thorough': 60000}
    rule = ('Random operation sequences on random simulated reports: convert, convert to a rejected unit, export to memory '
            'or to a file with or without a unit, export in a rejected unit, load, appended measurements; some exports '
            'interrupted at a random library line, some pairs of exports run concurrently with seeded line-level preemption. '
            'After every operation all times against the physical times of the fresh report.')
    measure = 'distinct operation sequences (kinds and units), plus switch sequences'
    assumptions = ['Raw measurement times of a converted report are read in the unit the report carries (time_unit)']
    shrink_lists = ['ops', 'world.steps', 'world.prms', 'sched.force']
    shrink_ints = {'world.lots': 1, 'world.chps': 1, 'world.steps.*.us': 1}

    def setup(self):
        seams.lib()
        seams.monitor()

    def finish(self):
        SCR.remove()

    def gen(self, rng, tier):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4, 6, 9])):
            k = rng.choice(['convert', 'convert', 'badconvert', 'export', 'export', 'badexport', 'store', 'load', 'cut', 'pair'])
            op = {'op': k}
            if k in ('convert', 'export', 'store', 'cut'):
                op['unit'] = rng.choice(GOOD)
            if k in ('badconvert', 'badexport'):
                op['unit'] = rng.choice(BAD)
                op['file'] = rng.random() < 0.5
            if k == 'cut':
                op.update(pm=rng.randint(0, 1000), exc=rng.choice(['keyboard', 'memory']), file=rng.random() < 0.5)
            if k == 'pair':
                op['units'] = [rng.choice(GOOD) for _ in range(rng.choice([2, 2, 3]))]
            ops.append(op)
        sc = {'world': reps.gen_report(rng), 'ops': ops}
        if any(o['op'] == 'pair' for o in ops):
            sc['sched'] = {'seed': rng.getrandbits(32), 'p': rng.choice([0.02, 0.1, 0.3]), 'hot': None}
        return sc

    def run(self, sc, ctx):
        import gerabaldi.models as M
        rep = reps.make(sc['world'], ctx)
        phys = times(rep)
        root = SCR.fresh()
        path = os.path.join(root, 'r.json')

        def check(rep, what):
            got = times(rep)
            for name, a, b in (('measurement', phys[0], got[0]), ('step', phys[1], got[1])):
                if len(a) != len(b):
                    raise Violation('time-lost', f'{what}: {len(b)} {name} times instead of {len(a)}')
                for i, (x, y) in enumerate(zip(a, b)):
                    for x1, y1 in zip(x if isinstance(x, tuple) else [x], y if isinstance(y, tuple) else [y]):
                        if not close_us(y1, x1):
                            raise Violation('time-moved', f'{what}: {name} {i} is at {y1} us instead of {x1} us')

        def check_export(d, unit, what):
            named = d['Time Units']
            if unit is not None and (named not in W.UNIT_US or W.UNIT_US[named] != W.UNIT_US[unit]):
                raise Violation('unit', f'{what}: asked for {unit}, the export names {named!r}')
            ms, sm = json.loads(d['Measurements']), json.loads(d['Test Summary'])

            def col(f, c):
                return [f[c][k] for k in sorted(f[c], key=int)] if c in f else []
            if [raw_us(t, named) for t in col(ms, 'time')] != phys[0] and not all(
                    close_us(raw_us(t, named), p) for t, p in zip(col(ms, 'time'), phys[0])) or len(col(ms, 'time')) != len(phys[0]):
                raise Violation('export-times', f'{what}: measurement times {col(ms, "time")[:4]} {named}, physical {phys[0][:4]} us')
            got = [tuple(raw_us(t, named) for t in r) for r in
                   zip(col(sm, 'duration'), col(sm, 'start time'), col(sm, 'end time'))]
            if len(got) != len(phys[1]) or not all(close_us(a, b) for x, y in zip(got, phys[1]) for a, b in zip(x, y)):
                raise Violation('export-times', f'{what}: step times {got[:3]} us by the named unit {named}, physical {phys[1][:3]} us')

        stored = False
        for i, op in enumerate(sc['ops']):
            k, what, was = op['op'], f'after operation {i} {op}', snap(rep)
            if k == 'convert':
                must(lambda: rep.convert_report_time(op['unit']), f'operation {i} {op}')
                for t, p in zip(rep.measurements['time'] if 'time' in rep.measurements else [], phys[0]):
                    if isinstance(t, (timedelta, np.timedelta64)) or not isinstance(t, numbers.Real):
                        raise Violation('not-converted', f'{what}: a measurement time is {t!r}')
                    if not close_us(raw_us(t, op['unit']), p):
                        raise Violation('time-moved', f'{what}: time {t} in {op["unit"]}, physical {p} us')
            elif k in ('badconvert', 'badexport'):
                fn = (lambda: rep.convert_report_time(op['unit'])) if k == 'badconvert' else \
                    (lambda: rep.export_to_json(os.path.join(root, 'bad.json') if op['file'] else None, op['unit']))
                try:
                    fn()
                    ok = True
                except Exception:
                    ok = False
                    ctx.fault('rejected_unit')
                if ok:
                    raise Violation('accepted', f'operation {i} {op} was not rejected')
                if snap(rep) != was:
                    raise Violation('changed', f'{what}: the rejected request changed the report')
                if os.path.exists(os.path.join(root, 'bad.json')):
                    raise Violation('changed', f'{what}: the rejected export wrote a file')
            elif k in ('export', 'store'):
                d = must(lambda: rep.export_to_json(path if k == 'store' else None, op['unit']), f'operation {i} {op}')
                stored = stored or k == 'store'
                check_export(d, op['unit'], what)
            elif k == 'load':
                if not stored:
                    continue
                rep = must(lambda: M.SimReport(file=path), f'operation {i} {op}')
                was = None
            elif k == 'cut':
                f = os.path.join(root, 'cut.json') if op['file'] else None
                lc = seams.LineCounter()
                with lc:
                    must(lambda: rep.export_to_json(f, op['unit']), f'operation {i} {op}')
                lc = seams.LineCounter(max(1, lc.n * op['pm'] // 1000), seams.ASYNC[op['exc']]())
                try:
                    with lc:
                        rep.export_to_json(f, op['unit'])
                except BaseException as e:
                    if e is not lc.exc:
                        raise Violation('fault-replaced', f'{what}: raised {type(e).__name__}: {e}') from e
                    ctx.fault('interrupt' if op['exc'] == 'keyboard' else 'memory_error')
                if snap(rep) != was:
                    raise Violation('changed', f'{what}: an interrupted export changed the report')
            else:
                sch = seams.Sched(sc['sched'], len(op['units']), ctx)
                outs = collect(sch.run([lambda u=u: rep.export_to_json(None, u) for u in op['units']],
                                       [f'e{j}' for j in range(len(op['units']))]), f'concurrent exports, operation {i} {op}')
                for u, d in zip(op['units'], outs):
                    check_export(d, u, f'{what} (concurrent export in {u})')
            if k in ('export', 'store', 'pair') and snap(rep) != was:
                raise Violation('changed', f'{what}: exporting changed the report')
            check(rep, what)
        ctx.sig([(o['op'], o.get('unit'), o.get('units')) for o in sc['ops']])


PROP = C15()
