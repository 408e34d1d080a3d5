"""Random reports for the export/load checks: real simulations of simple models with awkward names and magnitudes."""
from dst import seams, world as W
from dst.util import must

NAMES = ['t', '', 'HTOL "x"', 'naïve ✓', '007', '1e5', '2020-01-01', 'NaN', 'null', 'true', 'a\nb\t\\', "it's", '{"a": 1}',
         '\u2028', 'x' * 300, '12:30', 'Infinity', '-0', ' pad ']
MAGS = [1.0, 0.1, 1 / 3, 1e-12, 1e-30, 1e-300, 1e15, 1e22, 1e300, 123456789.123456789, 7, -5.5, 0.0]


def gen_report(rng, small=False):
    prms = {}
    for n in rng.sample(['p', 'vth', 'i_off 2', '1', 'nan'], rng.choice([1, 1, 2])):
        base = rng.choice(MAGS)
        init = {'type': 'scaling', 'base': base, 'dev': [0.5, 1.5]} if rng.random() < 0.7 else {'base': base}
        if rng.random() < 0.08:
            init = {'const': rng.choice(['nan', 'inf', '-inf'])}
        prms[n] = {'kind': 'deg', 'init': init, 'mechs': {'m': {'fam': 'none', 'unitary': 0, 'latents': {}}}}
    steps = []
    sensors_only = rng.random() < 0.06
    cnames = rng.sample(['temp', 'vdd', 'rel hum', '0', 'None'], rng.choice([1, 2]))
    most = W.some(rng, [3], (20, 100), 0 if small else 0.02)
    for i in range(W.some(rng, [0, 1, 2, 3, 5] if not small else [1, 2], (12, 40), 0 if small else 0.02)):
        conds = {c: rng.choice([25, 85.5, 0, -40, 1e-9, 0.1, 1 / 3]) for c in rng.sample(cnames, rng.randint(1, len(cnames)))}
        if rng.random() < 0.5:
            counts = {p: rng.randint(1, most) for p in rng.sample(list(prms), rng.randint(1, len(prms)))}
            if rng.random() < 0.3:
                c = rng.choice(list(conds))
                counts[c] = rng.randint(1, 2)
            if sensors_only:
                counts = {rng.choice(list(conds)): rng.randint(1, 2)}
            steps.append({'t': 'm', 'counts': counts, 'conds': conds, 'name': rng.choice(NAMES)})
        else:
            steps.append({'t': 's', 'us': W.gen_us(rng), 'conds': conds, 'name': rng.choice(NAMES)})
    return {'seed': rng.getrandbits(32), 'lots': W.some(rng, [1, 2], W.LOTS, 0 if small else 0.015), 'chps': W.some(rng, [1, 2], W.CHPS, 0 if small else 0.015), 'prms': prms, 'unit': 'h',
            'env': {}, 'instms': {}, 'steps': steps, 'name': rng.choice(NAMES), 'desc': rng.choice(NAMES)}


def make(wd, ctx):
    w = W.World(wd)
    return must(lambda: w.simulate('t0', None, None, ctx), 'the simulation')


def eq(a, b):
    """Numbers to 12 significant digits, everything else exactly."""
    if isinstance(a, float) and isinstance(b, (int, float)) and not isinstance(b, bool):
        return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b and (isinstance(a, str) == isinstance(b, str))


def differs(a, b):
    """First difference of two full() values up to the promised precision, or None."""
    for k in ('name', 'desc'):
        if a[k] != b[k] or type(a[k]) is not type(b[k]):
            return f'{k} {a[k]!r} became {b[k]!r}'
    for k in ('summary', 'rows'):
        if len(a[k]) != len(b[k]):
            return f'{len(a[k])} {k} became {len(b[k])}'
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            if not eq(x, y):
                return f'{k}[{i}] {x} became {y}'
    return None


def tupled(full):
    """full() value after a trip through JSON."""
    full['rows'] = [tuple(r) for r in full['rows']]
    full['summary'] = [tuple(r[:6]) + (tuple(tuple(c) for c in r[6]),) for r in full['summary']]
    return full


def load_full(path):
    seams.lib()
    import gerabaldi.models as M
    return W.full(M.SimReport(file=path))
