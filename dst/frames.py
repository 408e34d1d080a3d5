"""Recording stand-ins for the optional inference frameworks (pymc, pyro, torch) behind the import seam.

Every call into a framework is recorded as a symbolic expression and passes a hook that may raise, be counted or be a
preemption point, so failures can be injected at any call.
"""
import importlib
import importlib.machinery
import types

import numpy as np


class Sym:
    """Symbolic framework value; arithmetic and numpy functions on it build larger expressions."""
    __array_priority__ = 1000

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        return Sym(f'{ufunc.__name__}({", ".join(show(a) for a in args)})')

    def to_event(self, n):
        return Sym(f'event({self.text}, {n})')


def _binop(name):
    def f(self, other):
        return Sym(f'{name}({self.text}, {show(other)})')

    def r(self, other):
        return Sym(f'{name}({show(other)}, {self.text})')
    return f, r


for _n in ('add', 'sub', 'mul', 'truediv', 'pow'):
    _f, _r = _binop(_n)
    setattr(Sym, f'__{_n}__', _f)
    setattr(Sym, f'__r{_n}__', _r)


def show(v):
    if isinstance(v, (np.ndarray, np.generic)):
        v = v.tolist()
    return repr(v)


class Frames:
    """State of the stand-ins: log of calls and the hook. One instance lives behind the import seam."""

    def __init__(self):
        self.log = []
        self.hook = None

    def call(self, where, args, kw):
        if self.hook is not None:
            self.hook(where)
        text = f'{where}({", ".join([show(a) for a in args] + [f"{k}={show(v)}" for k, v in sorted(kw.items())])})'
        self.log.append(text)
        return Sym(text)


FRAMES = Frames()
API = {'pymc': ['Normal', 'Gamma', 'Uniform', 'Deterministic'], 'pyro': ['sample'],
       'pyro.distributions': ['Normal', 'Gamma', 'Uniform'], 'torch': ['multiply', 'add', 'mul', 'tensor', 'log', 'exp', 'pow']}


class Stub(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []
        for fn in API.get(name, []):
            def call(*a, _w=f'{name}.{fn}', **kw):
                return FRAMES.call(_w, a, kw)
            setattr(self, fn, call)

    def __getattr__(self, name):
        # Like the real packages, submodules are reachable as attributes of an imported package
        full = f'{self.__name__}.{name}'
        if full in API:
            try:
                return importlib.import_module(full)
            except Exception as e:
                raise AttributeError(f'module {self.__name__!r} has no attribute {name!r}') from e
        raise AttributeError(f'module {self.__name__!r} has no attribute {name!r}')


class Loader:
    def create_module(self, spec):
        return Stub(spec.name)

    def exec_module(self, module):
        pass


def spec(name):
    return importlib.machinery.ModuleSpec(name, Loader(), is_package=True) if name in API else None
