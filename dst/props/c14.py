"""C14: a failed or torn export is never mistaken for a report."""
import json
import os

from dst import disk, reps, seams, world as W
from dst.core import Prop, Violation
from dst.props import c13
from dst.util import must

SCR = disk.Scratch()
KINDS = ['crash', 'crash', 'crash', 'enospc', 'enospc', 'eio', 'eio', 'open_w', 'close_eio', 'mkdir', 'interrupt', 'memory']
LOAD_KINDS = ['read_eio', 'open_r']


def clean(msg, root):
    return str(msg).replace(os.path.realpath(root), '<scratch>').replace(root, '<scratch>')


class C14(Prop):
    id = 'C14'
    runs = {'quick': 1500, 'thorough': 80000}
    rule = ('Sequences of exports of random simulated reports over random earlier content, each disturbed at a random byte (crash '
            'with only the bytes handed to the disk surviving, disk full, I/O error), at open, close or directory creation, '
            'or by an interrupt or memory error at a random executed library line; readers load the file at write '
            'points, after the fault and after failed loads; at the end an undisturbed export.')
    measure = 'distinct (fault kind, relative position, earlier content, outcome) combinations'
    assumptions = ['Bytes handed to the raw file layer survive the crash in order; bytes still in process buffers are lost']
    real = Prop.real + ['json, io buffering and text layers, pathlib, the operating system file system (scratch directory)']
    stub = Prop.stub + ['raw file layer below io.BufferedWriter/BufferedReader (simulated disk)']
    shrink_lists = ['acts', 'world.steps', 'world.prms']
    shrink_ints = {'world.lots': 1, 'world.chps': 1, 'acts.*.at_pm': 0}

    def setup(self):
        seams.lib()
        seams.monitor()

    def finish(self):
        SCR.remove()

    def gen(self, rng, tier):
        acts = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(KINDS)
            acts.append({'kind': k, 'unit': rng.choice(c13.UNITS), 'seed': rng.getrandbits(32),
                         'at_pm': rng.choice([0, 1, 500, 999, 1000, rng.randint(0, 1000), rng.randint(0, 1000),
                                              rng.randint(0, 1000)]), 'off': rng.choice([0, -1, 1]),
                         'buf': rng.choice([1, 64, 512, 8192]), 'short': rng.choice([0, 0, 0.5]), 'eintr': rng.choice([0, 0, 0.2]),
                         'reader': rng.random() < 0.3, 'load_fault': rng.choice([None, None] + LOAD_KINDS)})
        return {'world': reps.gen_report(rng), 'old': rng.choice(c13.OLD[:-1]),
                'path': rng.choice(['a.json', 'sub/a.json', 'x/y/z/a.json']), 'acts': acts, 'convert': rng.choice([None] * 4 + c13.UNITS[:10])}

    def run(self, sc, ctx):
        import gerabaldi.models as M
        rep = reps.make(sc['world'], ctx)
        want = W.full(rep)
        if sc['convert']:  # a report holding raw time values is exported like any other
            must(lambda: rep.convert_report_time(sc['convert']), 'converting the report')
        mem = json.dumps(must(lambda: rep.export_to_json(time_unit='s'), 'the export to memory'))
        root = SCR.fresh()
        path = os.path.join(root, sc['path'])
        old = c13.prepare(sc['old'], path, sc['world'], ctx)
        valid = [old] if old is not None else []
        fromto = {'old': old, 'new': want}

        def untouched(when):
            now = json.dumps(must(lambda: rep.export_to_json(time_unit='s'), f'the export to memory after {when}'))
            if now != mem:
                raise Violation('report-changed', f'the in-memory report changed by {when}')

        def look(what, allowed, must_load=False):
            try:
                r = M.SimReport(file=path)
                got = W.full(r)
            except Violation as v:
                raise Violation('torn-report', f'{what}: loading returned a report that is not one: {clean(v.msg, root)}')
            except Exception as e:
                if must_load:
                    raise Violation('lost', f'{what}: loading raised {type(e).__name__}: {clean(e, root)}')
                ctx.probe('load_refused')
                return None
            for a in allowed:
                if reps.differs(a, got) is None:
                    ctx.probe('load_old' if a is old else 'load_new')
                    return a
            raise Violation('torn-report', f'{what}: loading returned {got["name"]!r:.40} with {len(got["rows"])} rows and '
                            f'{len(got["summary"])} steps: ' + '; '.join(clean(reps.differs(a, got), root) for a in allowed))

        for i, a in enumerate(sc['acts']):
            size = len(json.dumps(rep.export_to_json(time_unit=a['unit'])))
            at = max(0, size * a['at_pm'] // 1000 + a['off'])
            plan = {'seed': a['seed'], 'buf': a['buf'], 'short': a['short'], 'eintr': a['eintr'],
                    'fault': {'kind': a['kind'], 'at': at} if a['kind'] not in ('interrupt', 'memory') else None}
            d = disk.Disk(root, plan, ctx)
            allowed = valid + [want]
            if a['reader']:
                def peek(i=i, allowed=allowed, d=d):
                    real = d.plan, d.fault
                    d.plan, d.fault = {'seed': 0, 'buf': 8192}, None
                    ctx.probe('read_during_export')
                    try:
                        look(f'reading during export {i}', allowed)
                    finally:
                        d.plan, d.fault = real
                d.on_write = peek
            lc = None
            if a['kind'] in ('interrupt', 'memory'):
                lc = seams.LineCounter()
                with lc:
                    rep.export_to_json(time_unit=a['unit'])
                n = max(1, (lc.n + 8) * a['at_pm'] // 1000)
                lc = seams.LineCounter(n, seams.ASYNC['keyboard' if a['kind'] == 'interrupt' else 'memory']())
            done, err = False, None
            with d.mounted():
                try:
                    if lc is not None:
                        with lc:
                            rep.export_to_json(path, a['unit'])
                    else:
                        rep.export_to_json(path, a['unit'])
                    done = True
                except disk.SimCrash:
                    err = 'a crash'
                except Violation:
                    raise
                except BaseException as e:
                    err = f'{type(e).__name__}: {clean(e, root)}'
                    if lc is not None and lc.hit is None or lc is None and d.fired is None:
                        raise Violation('unexpected-exception', f'undisturbed export {i} raised {err}') from e
                    if lc is not None and e is not lc.exc:
                        raise Violation('fault-replaced', f'export {i} interrupted by {type(lc.exc).__name__} raised {err}') from e
                    if lc is not None:
                        ctx.fault('interrupt' if a['kind'] == 'interrupt' else 'memory_error')
            disturbed = d.fired is not None or (lc is not None and lc.hit is not None)
            what = f'after export {i} ({a["kind"]} at byte {at} of {size}, ' + \
                   ('returned' if done else f'failed with {err.split(":")[0]}') + ')'
            if done:
                look(what, [want], True)
                valid = [want]
            elif os.path.exists(path):
                if look(what, allowed) is want:
                    valid = [want]
            untouched(what)
            if a['load_fault'] and os.path.isfile(path):
                with disk.Disk(root, {'seed': a['seed'], 'buf': a['buf'], 'fault':
                                      {'kind': a['load_fault'], 'at': os.path.getsize(path) * a['at_pm'] // 1001}}, ctx).mounted() as d2:
                    try:
                        got = W.full(M.SimReport(file=path))
                        if not any(reps.differs(x, got) is None for x in ([want] if done else allowed)):
                            raise Violation('torn-report', f'loading {what} under {d2.fired} gave neither the old nor the new report')
                    except Violation:
                        raise
                    except Exception as e:
                        if d2.fired is None and done:
                            raise Violation('lost', f'loading {what} raised {type(e).__name__}: {clean(e, root)}')
                if done:
                    look(what + ' and a failed load', [want], True)
                untouched(what + ' and a failed load')
            ctx.sig(a['kind'], disturbed, done, a['at_pm'] // 50, sc['old'], a['buf'])
        must(lambda: rep.export_to_json(path, 'h'), 'an export once the fault is gone')
        look('after an undisturbed export at the end', [want], True)


PROP = C14()
