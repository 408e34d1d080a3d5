"""Real (numpy-backed) random variables for scenario worlds."""
import hashlib

import numpy as np


def real_rv(M, rng, kind, seed):
    """Library random variable roughly covering the range rng; seed None means unseeded."""
    lo, hi = rng
    kw = {} if seed is None else {'test_seed': seed}
    if kind == 'normal':
        return M.Normal((lo + hi) / 2, (hi - lo) / 8, **kw)
    if kind == 'gamma' and lo > 0:
        mid = (lo + hi) / 2
        return M.Gamma(900, 900 / mid, **kw)
    return M.Uniform(lo, hi, **kw)


def pick(seed, *parts):
    return int.from_bytes(hashlib.blake2b(repr((seed, *parts)).encode(), digest_size=8).digest(), 'big')


def seeded_rvf(M, sc):
    """rvf for World: kind and seed per path are a function of the scenario."""
    def rvf(path, rng):
        h = pick(sc['rvseed'], path)
        kinds = sc.get('kinds', ['normal', 'uniform', 'gamma'])
        kind = kinds[h % len(kinds)]
        pool = sc['seeds']
        s = pool[(h // 3) % len(pool)]
        return real_rv(M, rng, kind, np.int64(s) if sc.get('npseed') and s < 2 ** 62 else s)
    return rvf
