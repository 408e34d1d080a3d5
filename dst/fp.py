"""Fingerprint draws: every simulated draw carries a unique identity that can be read back from any sum or product it
entered, so that the sharing and freshness of draws can be judged without knowing the order in which they were made."""
import math

import numpy as np

from dst import seams
from dst.core import Inconclusive, Violation


def primes(n):
    s = bytearray([1]) * (n + 1)
    s[0:2] = b'\0\0'
    for i in range(2, int(n ** 0.5) + 1):
        if s[i]:
            s[i * i::i] = bytes(len(range(i * i, n + 1, i)))
    return [i for i in range(n + 1) if s[i]]


P = primes(65536)
RANGES = {0: P[:150], 1: P[150:900], 2: P[900:]}   # widest layer (lot/batch), chip, device
SHIFT = {0: 2 ** 30, 1: 2 ** 16, 2: 1}
RANK = {'lot': 0, 'batch': 0, 'chp': 1, 'dev': 2}


class Source:
    def __init__(self):
        self.n = {}
        self.hook = None

    def issue(self, vtype, layer, shape):
        q = int(np.prod(shape))
        r = RANK[layer]
        i = self.n.get((vtype, r), 0)
        self.n[vtype, r] = i + q
        if vtype == 'scaling':
            vals = RANGES[r][i:i + q]
            if len(vals) < q:
                raise Inconclusive('fingerprints exhausted')
        else:
            vals = [(i + 1 + j) * SHIFT[r] for j in range(q)]
            if i + q >= 2 ** 14:
                raise Inconclusive('fingerprints exhausted')
        return np.array(vals, dtype=float).reshape(shape)

    def decode(self, vtype, layers, base, value, what):
        """{layer: id} of a value; base is the target or base value (None: no base)."""
        bad = Violation('not-layered', f'{what}: value {value} is not {"base " + str(base) + " with" if base is not None else ""} '
                        f'one {vtype} draw of each of {list(layers)}')
        if not isinstance(value, (int, float)) or not math.isfinite(value):
            raise bad
        if vtype == 'scaling':
            b = 1.0 if base is None else base
            if b == 0:
                if value != 0:
                    raise bad
                return None
            n = value / b
            if n != int(n) or n <= 0:
                raise bad
            n, out = int(n), {}
            for layer in layers:
                r = RANK[layer]
                hit = [p for p in RANGES[r][:self.n.get((vtype, r), 0)] if n % p == 0]
                if len(hit) != 1:
                    raise bad
                out[layer] = hit[0]
                n //= hit[0]
            if n != 1:
                raise bad
            return out
        n = value - (0.0 if base is None else base)
        if n != int(n) or n < 0:
            raise bad
        n, out = int(n), {}
        for r in (0, 1, 2):
            part, n = divmod(n, SHIFT[r])
            layer = next((l for l in layers if RANK[l] == r), None)
            if (layer is None) != (part == 0) or part > self.n.get((vtype, r), 0):
                raise bad
            if layer is not None:
                out[layer] = part
        return out


_cls = {}


def FpRV(src, vtype, layer):
    if 'c' not in _cls:
        seams.lib()
        from gerabaldi.models import RandomVar

        class FpRV_(RandomVar):
            def __init__(self, src, vtype, layer):
                super().__init__('uniform')
                self.src, self.vtype, self.layer = src, vtype, layer

            def sample(self, quantity=1):
                return self.src.issue(self.vtype, self.layer, quantity)

            def __deepcopy__(self, memo):
                return self
        FpRV_.__name__ = 'FpRV'
        _cls['c'] = FpRV_
    return _cls['c'](src, vtype, layer)


class Sharing:
    """Collects decoded ids under sharing keys: equal keys must carry equal ids, different keys different ones."""

    def __init__(self):
        self.of = {}
        self.owner = {}

    def see(self, layer, key, ident, what, unique=True):
        old = self.of.setdefault((layer, key), ident)
        if old != ident:
            raise Violation('not-shared', f'{what}: {layer} draw differs within {key} (draw {ident} and draw {old})')
        if unique:
            own = self.owner.setdefault((layer, ident), key)
            if own != key:
                raise Violation('draw-reused', f'{what}: {layer} draw {ident} serves both {own} and {key}')
