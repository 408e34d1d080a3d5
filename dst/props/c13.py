"""C13: an export that returned successfully reads back as the same report."""
import os

from dst import disk, reps, seams, world as W
from dst.core import Prop, Violation
from dst.server import Child
from dst.util import must

UNITS = ['days', 'd', 'hours', 'h', 'seconds', 's', 'milliseconds', 'ms', 'microseconds', 'us', None]
SCR = disk.Scratch()
KID = []


def load(path):
    return reps.load_full(path)


def child_load(path):
    if not KID:
        KID.append(Child(77))
    ans = KID[0].ask('c13', 'load', path)
    if 'exc' in ans:
        raise Violation('load-failed', f'loading in another process raised {ans["exc"]}')
    return reps.tupled(ans['ok'])


OLD = ['none', 'none', 'longer', 'shorter', 'garbage', 'binary', 'empty', 'json', 'same_size']


def prepare(old, path, wd, ctx, unit=None):
    """Puts earlier content at the target; returns the earlier report (full) if it was a valid one."""
    if old == 'none':
        return None
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if old in ('longer', 'shorter'):
        w2 = dict(wd, name='earlier report', desc='d' * (5000 if old == 'longer' else 1),
                  steps=wd['steps'] * 2 if old == 'longer' else wd['steps'][:1])
        rep = reps.make(w2, ctx)
        must(lambda: rep.export_to_json(path, 's'), 'an undisturbed export')
        return W.full(rep)
    if old == 'same_size':  # as long as the export to come, but with other content
        rep = reps.make(wd, ctx)
        must(lambda: rep.export_to_json(path, unit), 'an undisturbed export')
        with open(path, 'rb') as f:
            data = bytes((c ^ 1 if 48 <= c <= 57 else c) for c in f.read())
        st = os.stat(path)
        with open(path, 'wb') as f:
            f.write(data)
        os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
        return None
    data = {'garbage': b'not json at all, but long ' * 400, 'binary': bytes(range(256)) * 30, 'empty': b'',
            'json': b'{"Test Name": "x", "Description": "y", "Time Units": "hours"}'}[old]
    with open(path, 'wb') as f:
        f.write(data)
    return None


class C13(Prop):
    id = 'C13'
    runs = {'quick': 1600, 'thorough': 80000}
    rule = ('Random simulated reports (awkward names, magnitudes 1e-300 to 1e300, microseconds to decades, empty tests), '
            'exported in every unit to missing or existing nested paths over random earlier content through a simulated disk '
            'with short and interrupted writes, loaded through short and interrupted reads here or in another process, '
            'and exported and loaded again.')
    measure = 'distinct (unit, earlier content, path form, fault mix, report shape) configurations'
    assumptions = ['Process-level durability: no power loss after a completed write']
    real = Prop.real + ['json, io buffering and text layers, pathlib, the operating system file system (scratch directory)']
    stub = Prop.stub + ['raw file layer below io.BufferedWriter/BufferedReader (simulated disk)']
    shrink_lists = ['world.steps', 'cycle', 'world.prms']
    shrink_ints = {'world.lots': 1, 'world.chps': 1, 'world.steps.*.us': 1}

    def setup(self):
        seams.lib()

    def finish(self):
        SCR.remove()
        for k in KID:
            k.close()
        KID.clear()

    def gen(self, rng, tier):
        return {'world': reps.gen_report(rng), 'old': rng.choice(OLD), 'path': rng.choice(['a.json', 'sub/a.json', 'x/y/z/a.json',
                                                                                          'dir with space/ü.json', './a.json']),
                'rel': rng.random() < 0.3,
                'cycle': [{'unit': rng.choice(UNITS), 'seed': rng.getrandbits(32), 'buf': rng.choice([1, 16, 512, 8192]),
                           'short': rng.choice([0, 0.3, 0.9]), 'eintr': rng.choice([0, 0.2]), 'child': rng.random() < 0.25}
                          for _ in range(rng.choice([1, 1, 2, 3]))]}

    def run(self, sc, ctx):
        import gerabaldi.models as M
        rep = reps.make(sc['world'], ctx)
        want = W.full(rep)
        root = SCR.fresh()
        target = os.path.normpath(os.path.join(root, sc['path']))
        given = target
        cwd = os.getcwd()
        if sc['rel']:
            os.chdir(root)
            given = sc['path']
        try:
            prepare(sc['old'], target, sc['world'], ctx, sc['cycle'][0]['unit'] if sc['cycle'] else None)
            for i, cy in enumerate(sc['cycle']):
                with disk.Disk(root, cy, ctx).mounted():
                    must(lambda: rep.export_to_json(given, cy['unit']), f'export {i} without any error of the disk')
                if not os.path.isfile(target):
                    raise Violation('no-file', f'export {i} returned but there is no file at {sc["path"]}')
                if cy['child']:
                    got = child_load(target)
                    ctx.fault('fresh_process')
                with disk.Disk(root, dict(cy, seed=cy['seed'] + 1), ctx).mounted():
                    rep = must(lambda: M.SimReport(file=given), f'loading export {i}', 'load-failed')
                got2 = W.full(rep)
                for g in ([got, got2] if cy['child'] else [got2]):
                    d = reps.differs(want, g)
                    if d:
                        raise Violation('not-the-same', f'export {i} in unit {cy["unit"]} read back differently: {d}')
                ctx.sig(cy['unit'], sc['old'], sc['path'], cy['buf'], cy['short'], cy['eintr'], len(sc['world']['steps']))
        finally:
            os.chdir(cwd)


PROP = C13()
