"""C18: logging configuration is replace-not-accumulate and never affects results."""
import errno
import logging
import logging.handlers
import os
import sys

from dst import disk, seams, world as W
from dst.core import Prop, Violation
from dst.util import collect, must

SCR = disk.Scratch()
LEVELS = [1, 10, 15, 20, 25, 30, 40, 50, 60]
FAULTS = {'enospc': lambda: OSError(errno.ENOSPC, 'No space left on device (simulated)'),
          'pipe': lambda: BrokenPipeError(errno.EPIPE, 'Broken pipe (simulated)'),
          'closed': lambda: ValueError('I/O operation on closed file (simulated)'),
          'encode': lambda: UnicodeEncodeError('ascii', 'x', 0, 1, 'simulated'), 'runtime': lambda: RuntimeError('simulated')}


class Stream:
    """Text stream that remembers every write and may fail from a given write on."""
    encoding = 'utf-8'

    def __init__(self, fault=None, after=0, ctx=None):
        self.writes, self.fault, self.after, self.ctx = [], fault, after, ctx

    def write(self, s):
        self.writes.append(s)
        if self.fault and len(self.writes) > self.after:
            self.ctx.fault('log_' + self.fault)
            raise FAULTS[self.fault]()
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class C18(Prop):
    id = 'C18'
    runs = {'quick': 650, 'thorough': 40000}
    rule = ('Fresh imports of the library followed by random sequences of logger configurations (levels, stream handlers, '
            'file handlers, handlers supplied again), log records, simulations, report exports, and simulations running '
            'concurrently with reconfigurations; some streams fail on every write from some point on, some log files are '
            'on a full or failing disk. After every operation each record created is looked up in every handler ever supplied.')
    measure = 'distinct (operation sequence, level, fault) combinations, plus switch sequences'
    assumptions = ['Handlers supplied are stream handlers and file handlers of the standard library']
    real = Prop.real + ['logging, coloredlogs']
    stub = Prop.stub + ['log streams and the raw layer of log files']
    shrink_lists = ['ops', 'sched.force'] + W.WORLD_LISTS
    shrink_ints = W.WORLD_INTS

    def setup(self):
        seams.lib()
        seams.monitor()

    def finish(self):
        SCR.remove()
        seams.quiet()

    def gen(self, rng, tier):
        def cfg():
            c = {}
            if rng.random() < 0.5:
                c['level'] = rng.choice(LEVELS)
            if rng.random() < 0.6:
                c['stream'] = {'fault': rng.choice([None, None] + sorted(FAULTS)), 'after': rng.choice([0, 0, 1, 3])}
                if rng.random() < 0.2:
                    c['stream'] = {'again': rng.getrandbits(8)}
            if rng.random() < 0.45:
                c['file'] = {'cls': rng.choice(['FileHandler', 'RotatingFileHandler', 'WatchedFileHandler']), 'delay': rng.random() < 0.3,
                             'fault': rng.choice([None, None, 'enospc', 'eio']), 'at': rng.choice([0, 10, 200])}
                if rng.random() < 0.2:
                    c['file'] = {'again': rng.getrandbits(8)}
            return c
        ops = []
        for _ in range(rng.choice([2, 3, 5, 8])):
            k = rng.choice(['cfg', 'cfg', 'cfg', 'rec', 'rec', 'sim', 'export', 'par'])
            op = {'op': k}
            if k == 'cfg':
                op['cfg'] = cfg()
            if k == 'rec':
                op['levels'] = [rng.choice(LEVELS) for _ in range(rng.randint(1, 4))]
            if k == 'par':
                op['cfgs'] = [cfg() for _ in range(rng.choice([1, 2, 3]))]
            ops.append(op)
        w = W.gen_world(rng)
        w['lots'], w['chps'], w['steps'] = 1, W.cap(w['chps'], 2), w['steps'][:4]
        sc = {'world': w, 'ops': ops, 'loud': rng.random() < 0.5, 'stderr': rng.choice([None, None, None, 'enospc', 'pipe'])}
        if any(o['op'] == 'par' for o in ops):
            sc['sched'] = seams.gen_sched(rng, ['sim.py', 'helpers.py', 'models/devices.py'])
        return sc

    def run(self, sc, ctx):
        lg = logging.getLogger('gerabaldi')
        w = W.World(sc['world'])
        want = must(lambda: W.full(w.simulate('t', None, None, ctx)), 'the quiet simulation')
        root = SCR.fresh()
        keep = sys.stderr, logging.getLogRecordFactory(), logging.raiseExceptions, list(lg.handlers), lg.level
        err = Stream(sc['stderr'], 0, ctx)
        made, handlers = [], []

        def factory(*a, **kw):
            r = keep[1](*a, **kw)
            if r.name.split('.')[0] == 'gerabaldi':
                made.append((r.levelno, r.getMessage()))
            return r

        try:
            lg.handlers[:] = []
            lg.setLevel(logging.NOTSET)
            # the library is imported with nothing but its own defaults
            seams.reload({n: ImportError for n in seams.OPTIONAL}, hush=False)
            if len(lg.handlers) != 1:
                raise Violation('default', f'{len(lg.handlers)} handlers after the import')
            sys.stderr = err
            logging.setLogRecordFactory(factory)
            logging.raiseExceptions = sc['loud']
            self.go(sc, ctx, lg, want, root, err, made, handlers)
        finally:
            sys.stderr, logging.raiseExceptions = keep[0], False
            logging.setLogRecordFactory(keep[1])
            for h in handlers:
                if h['kind'] == 'file':
                    try:
                        h['h'].close()
                    except Exception:
                        pass
            lg.handlers[:] = keep[3]
            seams.quiet()

    def go(self, sc, ctx, lg, want, root, err, made, handlers):
        from gerabaldi.helpers import configure_logger
        w = W.World(sc['world'])
        default = {'kind': 'default', 'out': err}
        cur = {'stream': default, 'file': None, 'level': None}
        tok = [0]

        def make(kind, c):
            old = [h for h in handlers if h['kind'] == kind]
            if 'again' in c:
                if old:
                    ctx.probe('handler_again')
                    return old[c['again'] % len(old)]
                c = {'fault': None, 'after': 0, 'cls': 'FileHandler', 'delay': False, 'at': 0}
            if kind == 'stream':
                s = Stream(c['fault'], c['after'], ctx)
                h = {'kind': kind, 'h': logging.StreamHandler(s), 'out': s}
            else:
                path = os.path.join(root, f'l{len(handlers)}.log')
                cls = getattr(logging, c['cls'], None) or getattr(logging.handlers, c['cls'])
                if c['fault']:
                    with disk.Disk(root, {'buf': 64, 'fault': {'kind': c['fault'], 'at': c['at']}}, ctx).mounted():
                        h = {'kind': kind, 'h': logging.FileHandler(path, encoding='utf-8'), 'out': path, 'faulty': True}
                else:
                    h = {'kind': kind, 'h': cls(path, encoding='utf-8', delay=c['delay']), 'out': path, 'faulty': False}
            handlers.append(h)
            return h

        def apply(c):
            kw, new = {}, {}
            for kind in ('stream', 'file'):
                if c.get(kind):
                    new[kind] = make(kind, c[kind])
                    kw[f'{kind}_handler'] = new[kind]['h']
            if 'level' in c:
                new['level'] = kw['logging_level'] = c['level']
            must(lambda: configure_logger(**kw), f'configuring the logger with {c}')
            cur.update(new)

        def lines(h):
            if h['kind'] == 'file':
                return open(h['out'], encoding='utf-8').read().splitlines(True) if os.path.exists(h['out']) else []
            return list(h['out'].writes)

        def deliver(fn, what):
            """Runs fn and accounts for every record created meanwhile."""
            everyone = [default] + handlers
            before = {id(h): lines(h) for h in everyone}
            del made[:]
            fn()
            recs = list(made)
            for h in everyone:
                if h['kind'] == 'file' and h['faulty']:
                    continue
                if h['kind'] == 'file':
                    h['h'].flush()
                live = h is cur['stream'] or h is cur['file']
                new = lines(h)[len(before[id(h)]):]
                for lv, msg in dict.fromkeys(recs):
                    n = sum(1 for t in new if t == msg + '\n' or h['kind'] == 'default' and t.endswith(' ' + msg + '\n'))
                    m = sum(1 for r in recs if r == (lv, msg))
                    low = lv < (cur['level'] or 0)
                    if not live or low:
                        exp = 0
                    elif lv < logging.INFO and (h is default or cur['level'] is None):
                        continue  # the built-in handler has a level of its own
                    else:
                        exp = m
                    if n != exp:
                        raise Violation('delivery', f'{what}: record "{msg[:60]}" (level {lv}, logger level {cur["level"]}) written {n} '
                                        f'times instead of {exp} to the {"current" if live else "replaced"} {h["kind"]} handler')
            return recs

        def emit(levels):
            msgs = []
            for lv in levels:
                tok[0] += 1
                msgs.append((lv, f'token{tok[0]:05d}'))
                lg.log(lv, msgs[-1][1])
            return msgs

        for i, op in enumerate(sc['ops']):
            what = f'operation {i} {op["op"]}'
            if op['op'] == 'cfg':
                deliver(lambda: apply(op['cfg']), what)
            elif op['op'] == 'rec':
                msgs = []
                recs = deliver(lambda: msgs.extend(emit(op['levels'])), what)
                for lv, msg in msgs:
                    must_be = lv >= (cur['level'] if cur['level'] is not None else logging.INFO)
                    if must_be and (lv, msg) not in recs:
                        raise Violation('filtered', f'{what}: a record of level {lv} was dropped at logger level {cur["level"]}')
            elif op['op'] in ('sim', 'export'):
                def go():
                    rep = must(lambda: w.simulate('t', None, None, ctx), f'{what}: a simulation with logging on')
                    W.same(want, W.full(rep), 'results-differ', f'{what}: simulation with logging on')
                    if op['op'] == 'export':
                        d = must(lambda: rep.export_to_json(os.path.join(root, 'r.json')), f'{what}: an export with logging on')
                        if d != rep.export_to_json(time_unit='hours'):
                            raise Violation('results-differ', f'{what}: export with logging on')
                deliver(go, what)
            else:
                def conf():
                    for c in op['cfgs']:
                        apply(c)
                sch = seams.Sched(sc['sched'], 2, ctx)
                w.taps.sched = sch
                try:
                    res = collect(sch.run([lambda: W.full(w.simulate('t', None, None, ctx)), conf], ['t', 'conf']), what)
                finally:
                    w.taps.sched = None
                W.same(want, res[0], 'results-differ', f'{what}: simulation beside logger configurations')
            # one record at a level that passes every filter
            deliver(lambda: emit([100]), f'after {what}')
        ctx.sig([(o['op'], sorted(o.get('cfg', {})), o.get('cfg', {}).get('level')) for o in sc['ops']], sc['stderr'])


PROP = C18()
