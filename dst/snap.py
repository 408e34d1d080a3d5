"""Snapshots of the public state of library objects, for 'nothing changed' checks."""
from datetime import timedelta

import numpy as np

PRIM = (int, float, str, bool, bytes, type(None), timedelta, complex)


def public(o):
    names = set(getattr(o, '__dict__', {}))
    for cls in type(o).__mro__:
        sl = cls.__dict__.get('__slots__', ())
        names |= {sl} if isinstance(sl, str) else set(sl)
    out = {n: getattr(o, n) for n in names if not n.startswith('_') and hasattr(o, n)}
    # children reachable through the public accessors
    for lst, acc in (('prm_mdl_list', 'prm_mdl'), ('mech_mdl_list', 'mech_mdl'), ('latent_vars', 'latent_var')):
        if isinstance(out.get(lst), list) and hasattr(o, acc):
            for k in out[lst]:
                out[f'{acc}({k})'] = getattr(o, acc)(k)
    return out


def snap(o, depth=0, seen=None):
    seen = {} if seen is None else seen
    if isinstance(o, PRIM):
        return repr(o)
    if isinstance(o, np.generic):
        return repr(o.item())
    if isinstance(o, np.ndarray):
        return ('array', o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, dict):
        return ('dict', [(repr(k), snap(v, depth + 1, seen)) for k, v in o.items()])
    if isinstance(o, (list, tuple)) or type(o).__name__ == 'dict_keys':
        return ('list', [snap(v, depth + 1, seen) for v in o], 'tuple' if isinstance(o, tuple) else 'list')
    if id(o) in seen or depth > 12:
        return ('ref', type(o).__name__)
    seen[id(o)] = o
    mod = type(o).__module__
    if mod.startswith('gerabaldi') or type(o).__name__ in ('SimRV', 'FpRV', 'SeqRV'):
        return ('obj', type(o).__name__, id(o), {k: snap(v, depth + 1, seen) for k, v in public(o).items()
                                                 if not callable(v) and k not in ('draws', 'log')})
    return ('other', type(o).__name__)


def compare(a, b, path=''):
    """First difference; attributes that only exist afterwards are ignored (they are not part of what was handed in)."""
    if type(a) is not type(b):
        return f'{path}: {str(a)[:150]} became {str(b)[:150]}'
    if isinstance(a, tuple) and a and a[0] == 'obj' and b and b[0] == 'obj':
        if a[1:3] != b[1:3]:
            return f'{path}: object {a[1]} replaced by {b[1]}'
        for k in a[3]:
            if k not in b[3]:
                return f'{path}.{k}: removed'
            d = compare(a[3][k], b[3][k], f'{path}.{k}')
            if d:
                return d
        return None
    if isinstance(a, tuple) and a and a[0] == 'dict' and b and b[0] == 'dict':
        if [k for k, _ in a[1]] != [k for k, _ in b[1]]:
            return f'{path}: keys {[k for k, _ in a[1]]} became {[k for k, _ in b[1]]}'
        for (k, x), (_, y) in zip(a[1], b[1]):
            d = compare(x, y, f'{path}[{k}]')
            if d:
                return d
        return None
    if isinstance(a, tuple) and a and a[0] == 'list' and b and b[0] == 'list':
        if a[2] != b[2]:
            return f'{path}: {a[2]} became a {b[2]}'
        if len(a[1]) != len(b[1]):
            return f'{path}: {len(a[1])} elements became {len(b[1])}'
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = compare(x, y, f'{path}[{i}]')
            if d:
                return d
        return None
    if a != b:
        return f'{path}: {str(a)[:150]} became {str(b)[:150]}'
    return None
