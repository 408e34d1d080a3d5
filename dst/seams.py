"""Everything nondeterministic or fault-prone goes through here.

- imports: optional packages are blocked (or replaced by recording stubs) by a meta_path finder
- threads: real threads that run one at a time; a seeded scheduler decides at every executed line of the library
- interrupts: exceptions raised at a chosen executed line of the library (sys.monitoring, nothing in the library changes)
- randomness: RandomVar subclasses whose draws are a pure function of (scenario seed, variable, task)
"""
import hashlib
import importlib
import logging
import os
import random
import sys
import threading

import numpy as np

from dst.core import REPO

OPTIONAL = ('pymc', 'pyro', 'torch')


class Blocker:
    """Finder for optional packages: mode per top level name or full module name, an exception class or 'stub'."""

    def __init__(self):
        self.modes = {n: ImportError for n in OPTIONAL}

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        mode = self.modes.get(name, self.modes.get(top))
        if mode is None:
            return None
        if mode == 'stub':
            from dst import frames
            spec = frames.spec(name)
            if spec is None:
                raise ModuleNotFoundError(f'simulated: no module named {name}', name=name)
            return spec
        raise mode(f'simulated: cannot import {name}')


BLOCKER = Blocker()
_G = None


def lib(hush=True):
    """Imports the library under test from the working tree with the optional packages blocked."""
    global _G
    if _G is None:
        sys.dont_write_bytecode = True
        if BLOCKER not in sys.meta_path:
            sys.meta_path.insert(0, BLOCKER)
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        import warnings
        warnings.simplefilter('ignore')
        try:
            _G = importlib.import_module('gerabaldi')
        except Exception:
            if BLOCKER.modes != {n: ImportError for n in OPTIONAL}:
                raise
            # a library that needs its optional packages is C16's business: let all other checks go on with stubs
            for name in [n for n in sys.modules if n.split('.')[0] in ('gerabaldi',) + OPTIONAL]:
                del sys.modules[name]
            BLOCKER.modes = {n: 'stub' for n in OPTIONAL}
            try:
                _G = importlib.import_module('gerabaldi')
            except Exception:
                for name in [n for n in sys.modules if n.split('.')[0] in ('gerabaldi',) + OPTIONAL]:
                    del sys.modules[name]
                BLOCKER.modes = {}
                _G = importlib.import_module('gerabaldi')
        assert os.path.abspath(_G.__file__).startswith(os.path.abspath(REPO) + os.sep), _G.__file__
        importlib.import_module('gerabaldi.models')
        if hush:
            quiet()
    return _G


def reload(modes, hush=True):
    """Imports the library anew with the given optional package modes (name -> exception class or 'stub')."""
    global _G
    lib()
    for name in [n for n in sys.modules if n.split('.')[0] in ('gerabaldi',) + OPTIONAL]:
        del sys.modules[name]
    _classes.clear()
    BLOCKER.modes = dict(modes)
    _G = None
    return lib(hush)


def quiet():
    lg = logging.getLogger('gerabaldi')
    lg.setLevel(logging.CRITICAL + 10)
    logging.raiseExceptions = False


# ------------------------------------------------------------------ line events of the library
TOOL = 4
HOOK = None  # called as HOOK(code, line) for every executed library line
_LIBDIR = os.path.join(os.path.abspath(REPO), 'gerabaldi') + os.sep
_mon_on = False


def _on_line(code, line, libdir=_LIBDIR, disable=sys.monitoring.DISABLE):
    if not code.co_filename.startswith(libdir):
        return disable
    h = HOOK
    if h is not None:
        h(code, line)
    return None


def monitor():
    global _mon_on
    if not _mon_on:
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'dst')
        mon.register_callback(TOOL, mon.events.LINE, _on_line)
        mon.set_events(TOOL, mon.events.LINE)
        _mon_on = True


def set_hook(fn):
    global HOOK
    monitor()
    HOOK = fn


def modname(code):
    return os.path.relpath(code.co_filename, _LIBDIR)


# ------------------------------------------------------------------ task identity and draws
class _Task(threading.local):
    key = 'main'
    idx = None


TASK = _Task()


class Draws:
    """Source of all simulated random draws of one world. begin(key) restarts the streams of one task/operation."""

    def __init__(self, seed):
        self.seed = seed
        self.streams = {}
        self.hook = None  # hook(path, quantity) before every draw

    def begin(self, key):
        TASK.key = key
        for k in [k for k in self.streams if k[0] == key]:
            del self.streams[k]

    def stream(self, path):
        k = (TASK.key, path)
        if k not in self.streams:
            h = hashlib.blake2b(f'{self.seed}/{TASK.key}/{path}'.encode(), digest_size=8).digest()
            self.streams[k] = np.random.Generator(np.random.PCG64(int.from_bytes(h, 'big')))
        return self.streams[k]


_classes = {}


def sim_rv_class():
    """RandomVar subclass with simulated draws (created lazily because the library is imported lazily)."""
    if 'rv' not in _classes:
        from gerabaldi.models import RandomVar

        class SimRV(RandomVar):
            def __init__(self, draws, path, lo, hi):
                super().__init__('uniform')
                self.draws, self.path, self.lo, self.hi = draws, path, lo, hi

            def sample(self, quantity=1):
                if self.draws.hook:
                    self.draws.hook(self.path, quantity)
                return self.lo + (self.hi - self.lo) * self.draws.stream(self.path).random(quantity)

            def __deepcopy__(self, memo):
                return self

        _classes['rv'] = SimRV
    return _classes['rv']


def SimRV(*a):
    return sim_rv_class()(*a)


# ------------------------------------------------------------------ scheduler
class Sched:
    """Runs callables as threads, exactly one at a time. conf: seed, p (switch probability per yield point), hot (library
    files whose lines are yield points, None = all), rare ([salt, k]: only about one in k places is a yield point, so that
    tasks meet often at the same few places), meet ([salt, k, n]: at about one in k places, up to n times each, a task waits until another one gets to
    the same place, then one of them runs a few events ahead and the other follows), force (explicit decisions [[event, task], ...], replaces the seed)."""

    def __init__(self, conf, n, ctx):
        self.rng = random.Random(conf.get('seed', 0))
        self.p = conf.get('p', 0.05)
        self.hot = conf.get('hot')
        self.rare = conf.get('rare')
        self.meet = conf.get('meet')
        self.places, self.parked, self.follow, self.met = {}, {}, None, {}
        self.force = None if conf.get('force') is None else {int(e): t for e, t in conf['force']}
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.ev = 0
        self.switches = []
        self.ctx = ctx
        self.done = threading.Event()
        self.active = None
        self.where = hashlib.blake2b(digest_size=8)

    def _marked(self, conf, loc):
        ok = self.places.get(loc)
        if ok is None:
            h = hashlib.blake2b(f'{conf[0]}/{loc}'.encode(), digest_size=4).digest()
            ok = self.places[loc] = int.from_bytes(h, 'big') % conf[1] == 0
        return ok

    def _meeting(self, me, loc, others):
        rng = self.rng
        if self.follow is not None:
            self.follow[0] -= 1
            if self.follow[0] > 0:
                return None
            tgt, self.follow = self.follow[1], None
            return tgt if tgt in others else None
        if not self._marked(self.meet, loc) or self.met.get(loc, 0) >= self.meet[2] or rng.random() < 0.3:
            return None
        here = [t for t in others if self.parked.get(t) == loc]
        ahead = rng.choice([1, 2, 3, 4, 6, 10, 25])
        if here:
            tgt = rng.choice(here)
            del self.parked[tgt]
            self.ctx.probe('meeting')
            self.met[loc] = self.met.get(loc, 0) + 1
            self.follow = [ahead, tgt if rng.random() < 0.5 else me]
            return None if self.follow[1] == tgt else tgt
        self.met[loc] = self.met.get(loc, 0) + 0.25
        self.parked[me] = loc
        tgt = rng.choice([t for t in others if t not in self.parked] or others)
        self.parked.pop(tgt, None)
        return tgt

    def _choose(self, me, must, loc=None):
        self.ev += 1
        others = sorted(self.alive - {me})
        if not others:
            return None
        if self.force is not None:
            tgt = self.force.get(self.ev)
            if tgt not in others:
                tgt = others[0] if must else None
        elif self.meet is not None:
            if must:
                self.follow = None
                tgt = self.rng.choice([t for t in others if t not in self.parked] or others)
                self.parked.pop(tgt, None)
            else:
                tgt = self._meeting(me, loc, others)
        elif must or self.rng.random() < (self.p if len(self.switches) < 2000 else self.p / 50):
            tgt = self.rng.choice(others)
        else:
            tgt = None
        if tgt is not None:
            self.switches.append([self.ev, tgt])
        return tgt

    def line(self, code, line):
        me = TASK.idx
        if me is None or self.active != me:
            return
        if self.hot is not None and modname(code) not in self.hot:
            return
        self.point(f'{modname(code)}:{line}')

    def point(self, loc):
        me = TASK.idx
        if me is None or self.active != me:
            return
        if self.rare is not None and not self._marked(self.rare, loc):
            return
        tgt = self._choose(me, False, loc)
        if tgt is not None:
            self.where.update(f'{me}>{tgt}@{loc};'.encode())
            self.ctx.log('switch', f'{me}->{tgt}', 'at', loc)
            self.active = tgt
            self.sems[tgt].release()
            self.sems[me].acquire()

    def run(self, fns, keys):
        results = [None] * len(fns)

        def body(i):
            self.sems[i].acquire()
            TASK.idx, TASK.key = i, keys[i]
            try:
                results[i] = ('ok', fns[i]())
            except BaseException as e:
                results[i] = ('exc', e)
            self.alive.discard(i)
            tgt = self._choose(i, True)
            if tgt is None:
                self.done.set()
            else:
                self.active = tgt
                self.sems[tgt].release()

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fns))]
        for t in threads:
            t.start()
        first = self._choose(None, True)
        set_hook(self.line)
        try:
            self.active = first
            self.sems[first].release()
            last = -1
            while not self.done.wait(10):
                if self.ev == last and self.active in self.alive:
                    # the running task is blocked on something a parked task holds: let that one go on
                    others = sorted(self.alive - {self.active})
                    if others:
                        self.active = others[0]
                        self.sems[others[0]].release()
                        self.ctx.probe('forced_release')
                last = self.ev
        finally:
            set_hook(None)
        for t in threads:
            t.join(5)
        self.ctx.fault('preemption', len(self.switches))
        self.ctx.decisions = self.switches
        self.ctx.sig('schedule', self.where.hexdigest())
        return results


def gen_sched(rng, files, meet=0.35, rare=0.15):
    """Swarm style: how tasks are switched, where and how often varies per run."""
    mode = rng.random()
    if mode < meet:
        return {'seed': rng.getrandbits(32), 'hot': None, 'meet': [rng.getrandbits(16), *rng.choice([(1, 1), (2, 2), (3, 3), (6, 4), (12, 6), (40, 20)])]}
    if mode < meet + rare:
        k, p = rng.choice([(6, 0.3), (12, 0.5), (20, 0.5), (40, 0.5), (60, 0.8)])
        return {'seed': rng.getrandbits(32), 'p': p, 'hot': None, 'rare': [rng.getrandbits(16), k]}
    mode = rng.random()
    hot = None if mode < 0.4 else rng.sample(files, rng.randint(1, max(1, len(files) // 2)))
    return {'seed': rng.getrandbits(32), 'p': rng.choice([0.002, 0.005, 0.01, 0.03, 0.1]), 'hot': hot}


LIBFILES = ['sim.py', 'models/devices.py', 'models/phys_envs.py', 'models/random_vars.py', 'models/reports.py',
            'models/states.py', 'models/test_specs.py', 'helpers.py', 'math/minimize.py']


# ------------------------------------------------------------------ interrupts
class Interrupt(Exception):
    """Base of simulated asynchronous aborts (mixed into real exception types below)."""


class SimKeyboardInterrupt(KeyboardInterrupt):
    pass


class SimMemoryError(MemoryError):
    pass


class SimSystemExit(SystemExit):
    pass


ASYNC = {'keyboard': SimKeyboardInterrupt, 'memory': SimMemoryError, 'exit': SimSystemExit}


class LineCounter:
    """Counts executed library lines; optionally raises at line event number `at`."""

    def __init__(self, at=None, exc=None, budget=None):
        self.n, self.at, self.exc, self.budget = 0, at, exc, budget
        self.hit = None

    def __call__(self, code, line):
        self.n += 1
        if self.n == self.at:
            self.hit = f'{modname(code)}:{line}'
            raise self.exc
        if self.budget is not None and self.n > self.budget:
            raise BudgetExceeded(f'{self.n} library lines executed')

    def __enter__(self):
        set_hook(self)
        return self

    def __exit__(self, *a):
        set_hook(None)


class BudgetExceeded(BaseException):
    pass
