"""Simulation runner: seeds, worker pool, minimiser, replay files and evidence.

One run = one JSON scenario. Scenarios come from Prop.gen(rng) with rng seeded from (VERIF_SEED, property, run number),
and Prop.run(scenario, ctx) is a function of the scenario and the code under test alone. A broken property is signalled
by raising Violation(kind, message); every other exception out of run() is an error of the harness.
"""
import argparse
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')
OUT = os.environ.get('DST_OUT', VERIF)
RUN_WALL_S = 150  # backstop for code under test that stops making progress


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(f'{kind}: {msg}')
        self.kind, self.msg = kind, str(msg)[:2000]


class Inconclusive(Exception):
    """The harness cannot judge this run (for instance, more draws than it has fingerprints for)."""


class Hang(BaseException):
    pass


class Ctx:
    """What one run did: counters that end up in the evidence, plus the event trace stored in replay files."""

    def __init__(self, record=False):
        self.faults = Counter()
        self.probes = Counter()
        self.sim_us = 0
        self.sims = 0
        self.events = 0
        self.sigs = set()
        self.trace = [] if record else None
        self.decisions = None

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def sig(self, *parts):
        self.sigs.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest())

    def log(self, *ev):
        self.events += 1
        if self.trace is not None and len(self.trace) < 2000:
            self.trace.append(' '.join(str(e) for e in ev))


class Prop:
    id = None
    runs = {'quick': 200, 'thorough': 4000}
    rule = ''
    real = ['gerabaldi (all modules, unmodified, imported from the working tree)', 'numpy', 'pandas']
    # inputs of known findings by name; random scenarios must stay clear of them
    known = {}
    stub = ['pymc, pyro, torch: blocked at the import seam (never used by these paths)']
    measure = ''
    assumptions = []
    # paths of lists whose elements may be dropped and of ints that may be lowered (to the given minimum) by the minimiser
    shrink_lists = []
    shrink_ints = {}

    def setup(self):
        """Called once per process before any run."""

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, sc, ctx):
        raise NotImplementedError

    def shrinks(self, sc):
        """Property specific smaller candidates, tried before the generic ones."""
        return iter(())

    def finish(self):
        """Called once per worker after its last run."""


def load(pid):
    mod = importlib.import_module(f'dst.props.{pid.lower()}')
    return mod.PROP


def run_seed(base, pid, i):
    return int.from_bytes(hashlib.sha256(f'{base}/{pid}/{i}'.encode()).digest()[:8], 'big')


def canon(obj):
    return json.loads(json.dumps(obj))


def execute(prop, sc, record=False):
    """Runs one scenario. Returns (violation or None, ctx)."""
    ctx = Ctx(record)

    def alarm(*_):
        raise Hang()

    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(RUN_WALL_S)
    try:
        prop.run(canon(sc), ctx)
        return None, ctx
    except Inconclusive:
        ctx.probe('inconclusive')
        return None, ctx
    except Violation as v:
        return (v.kind, v.msg), ctx
    except Hang:
        return ('no-progress', f'the run did not finish within {RUN_WALL_S} s'), ctx
    except Exception as e:
        # an exception let out by library code where the scenario expects success; anything else is the harness's fault
        at = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(os.path.join(os.path.abspath(REPO), 'gerabaldi') + os.sep)]
        if not at:
            raise
        return ('library-exception', f'{os.path.basename(at[-1].filename)} {at[-1].name} raised {type(e).__name__}: {e}'), ctx
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def isolated(prop, sc, record=False, prelude=(), base=None, tier=None):
    """execute() in a forked copy of this process, so that nothing a run leaves behind in the library reaches the next one.
    prelude: numbers of runs to execute first (for failures that need the history of their worker)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                for i in prelude:
                    execute(prop, canon(prop.gen(random.Random(run_seed(base, prop.id, i)), tier)))
                v, ctx = execute(prop, sc, record)
                ans = {'v': v, 'trace': ctx.trace, 'decisions': ctx.decisions}
            except Exception:
                ans = {'err': traceback.format_exc()}
            prop.finish()
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(ans))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        txt = f.read()
    os.waitpid(pid, 0)
    ans = json.loads(txt) if txt else {'err': 'the process ended'}
    if 'err' in ans:
        raise RuntimeError(ans['err'])
    return (tuple(ans['v']) if ans['v'] else None), ans


# ------------------------------------------------------------------ minimiser
def get_path(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def expand(obj, path):
    """Expands a dotted path with * wildcards to all concrete key tuples present in obj."""
    out = [()]
    for part in path.split('.'):
        nxt = []
        for pre in out:
            try:
                node = get_path(obj, pre)
            except (KeyError, IndexError, TypeError):
                continue
            if part == '*':
                keys = list(node.keys()) if isinstance(node, dict) else range(len(node)) if isinstance(node, list) else []
                nxt += [pre + (k,) for k in keys]
            elif isinstance(node, dict) and part in node and node[part] is not None:
                nxt.append(pre + (part,))
        out = nxt
    return out


def generic_shrinks(prop, sc):
    for path in prop.shrink_lists:
        for conc in expand(sc, path):
            lst = get_path(sc, conc)
            if not isinstance(lst, (list, dict)):
                continue
            keys = list(range(len(lst))) if isinstance(lst, list) else list(lst)
            size = max(1, len(keys) // 2)
            while size >= 1:
                for at in range(0, len(keys), size):
                    cand = copy.deepcopy(sc)
                    tgt = get_path(cand, conc)
                    if isinstance(lst, list):
                        del tgt[at:at + size]
                    else:
                        for k in keys[at:at + size]:
                            del tgt[k]
                    if not tgt and conc[-1] in ('prms', 'mechs'):
                        continue  # a model needs at least one
                    if conc[-1] == 'prms':
                        for s in get_path(cand, conc[:-1]).get('steps', []):
                            for k in keys[at:at + size]:
                                s.get('counts', {}).pop(k, None)
                    yield cand
                size //= 2
    for path, low in prop.shrink_ints.items():
        for conc in expand(sc, path):
            val = get_path(sc, conc)
            if isinstance(val, int) and not isinstance(val, bool):
                for new in sorted({low, (low + val) // 2, val - 1}):
                    if low <= new < val:
                        cand = copy.deepcopy(sc)
                        get_path(cand, conc[:-1])[conc[-1]] = new
                        yield cand


def vkey(v):
    m = re.search(r'(\w* ?)raised (\w+):', v[1])
    return v[0], (m[1] if v[0] == 'library-exception' else '', m[2]) if m and v[0].endswith('-exception') else None


def minimise(prop, sc, viol, run, budget_s=25, max_tries=400):
    t0, tries, steps = time.time(), 0, 0
    want = vkey(viol)
    # make the schedule explicit so that single switches can be dropped
    if sc.get('sched') and sc['sched'].get('force') is None:
        _, ans = run(sc)
        if ans['decisions'] is not None:
            cand = copy.deepcopy(sc)
            cand['sched']['force'] = ans['decisions']
            try:
                v, _ = run(cand)
                if v and vkey(v) == want:
                    sc, steps = cand, 1
            except Exception:
                pass
    progress = True
    while progress:
        progress = False
        for gen in (prop.shrinks(sc), generic_shrinks(prop, sc)):
            for cand in gen:
                if time.time() - t0 > budget_s or tries >= max_tries:
                    return sc, tries, steps
                tries += 1
                try:
                    v, _ = run(cand)
                except Exception:
                    continue  # not a valid scenario any more
                if v and vkey(v) == want:
                    sc, progress, steps = cand, True, steps + 1
                    break
            if progress:
                break
    return sc, tries, steps


# ------------------------------------------------------------------ worker pool
def worker(pid, base, tier, indices, q, wid):
    try:
        prop = load(pid)
        prop.setup()
        agg = {'runs': 0, 'faults': Counter(), 'probes': Counter(), 'sim_us': 0, 'sims': 0, 'events': 0, 'sigs': set(),
               'scen': set(), 'samples': [], 'fail': None, 'err': None, 'digest': {}, 'slowest': (0.0, -1)}
        for i in indices:
            seed = run_seed(base, pid, i)
            sc = canon(prop.gen(random.Random(seed), tier))
            began = time.time()
            try:
                v, ctx = execute(prop, sc)
            except Exception:
                agg['err'] = (i, seed, traceback.format_exc())
                agg['sc'] = sc
                break
            agg['slowest'] = max(agg['slowest'], (time.time() - began, i))
            agg['runs'] += 1
            agg['faults'] += ctx.faults
            agg['probes'] += ctx.probes
            agg['sim_us'] += ctx.sim_us
            agg['sims'] += ctx.sims
            agg['events'] += ctx.events
            agg['sigs'] |= ctx.sigs
            agg['scen'].add(hashlib.blake2b(json.dumps(sc, sort_keys=True).encode(), digest_size=8).hexdigest())
            agg['digest'][i] = hashlib.blake2b(repr((sorted(ctx.faults.items()), sorted(ctx.probes.items()), ctx.sim_us,
                                                     ctx.events, sorted(ctx.sigs), v)).encode(),
                                               digest_size=8).hexdigest()
            if wid == 0 and len(agg['samples']) < 2:
                agg['samples'].append({'run': i, 'seed': seed, 'scenario': sc})
            if v:
                agg['fail'] = (i, seed, sc, v)
                break
        prop.finish()
        q.put(agg)
    except BaseException:
        q.put({'crash': traceback.format_exc()})


def run_batch(pid, base, tier, n, workers):
    idx = [list(range(w, n, workers)) for w in range(workers)]
    q = mp.get_context('fork').Queue()
    procs = [mp.get_context('fork').Process(target=worker, args=(pid, base, tier, idx[w], q, w)) for w in range(workers)]
    for p in procs:
        p.start()
    got, left = [], workers
    while left:
        try:
            got.append(q.get(timeout=5))
            left -= 1
        except Exception:
            dead = [p for p in procs if not p.is_alive() and p.exitcode not in (0, None)]
            if dead and q.empty():
                for p in procs:
                    p.terminate()
                return None, f'worker ended with exit codes {[p.exitcode for p in dead]}'
    for p in procs:
        p.join()
    return got, None


def findings(pid):
    """Known, unrepaired findings: lines 'open: property=<id> input=<name> kind=<violation kind> <what fails>'."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'open: property=(\S+) input=(\S+) kind=(\S+) (.*)', line)
            if m and m[1] == pid:
                out[m[2], m[3]] = m[4].strip()
    return out


def write_replay(pid, base, tier, fail, workers):
    """Minimises a failing run in fresh forks of this process and stores it."""
    prop = load(pid)
    i, seed, sc, v = fail
    want, prelude = vkey(v), []

    def run(c, record=False):
        return isolated(prop, c, record, prelude, base, tier)
    v1, _ = run(sc)
    if (not v1 or vkey(v1) != want) and isinstance(i, int):
        # the failure needs what earlier runs of its worker left behind: find a short history that does it
        full = list(range(i % workers, i, workers))
        k = 1
        while True:
            prelude = full[-k:]
            v1, _ = run(sc)
            if (v1 and vkey(v1) == want) or k >= len(full):
                break
            k *= 4
    if v1 and vkey(v1) == want:
        small, tries, steps = minimise(prop, sc, v, run)
    else:
        small, tries, steps, prelude = sc, 0, 0, []
    v2, ans = run(small, True)
    v2 = v2 or v
    os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
    path = os.path.join(OUT, 'replays', f'{pid}-{seed:016x}.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'verif_seed': base, 'tier': tier, 'run': i, 'run_seed': seed, 'violation':
                   {'kind': v2[0], 'msg': v2[1]}, 'prelude': prelude, 'scenario': small, 'original_scenario': sc,
                   'minimiser': {'tries': tries, 'accepted': steps}, 'trace': ans['trace']}, f, indent=1)
    return path, v2


def replay(pid, path):
    prop = load(pid)
    prop.setup()
    rec = json.load(open(path))
    v, _ = isolated(prop, rec['scenario'], True, rec.get('prelude', ()), rec['verif_seed'], rec['tier'])
    same = v is not None and list(v) == [rec['violation']['kind'], rec['violation']['msg']]
    if v:
        print(f'{v[0]}: {v[1]}')
        print('replay reproduces the recorded violation exactly' if same else 'replay violates, but differently')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print('replay does not violate the property')
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--workers', type=int, default=min(8, len(os.sched_getaffinity(0))))
    ap.add_argument('--digest', action='store_true', help='print one digest over all runs (determinism check)')
    args = ap.parse_args(argv)
    pid = args.property
    if args.replay:
        return replay(pid, args.replay)
    t0 = time.time()
    prop = load(pid)
    tier = args.tier if args.tier in prop.runs else 'quick'
    n = args.runs or prop.runs[tier]
    print(f'{pid}: tier={tier} VERIF_SEED={args.seed} runs={n} workers={args.workers} repo={REPO}', flush=True)
    prop.setup()
    got, err = run_batch(pid, args.seed, tier, n, args.workers)
    if err is None:
        err = next((g['crash'] for g in got if 'crash' in g), None)
    if err:
        print('HARNESS ERROR', err)
        return 2
    errs = [g for g in got if g['err']]
    fails = sorted((g['fail'] for g in got if g['fail']), key=lambda f: f[0])
    if errs and not fails:
        e = errs[0]
        print('HARNESS ERROR in run', e['err'][0], 'seed', e['err'][1])
        print(json.dumps(e['sc'])[:4000])
        print(e['err'][2])
        return 2
    tot = {k: sum(g[k] for g in got) for k in ('runs', 'sim_us', 'sims', 'events')}
    faults, probes, sigs, scen = Counter(), Counter(), set(), set()
    for g in got:
        faults += g['faults']
        probes += g['probes']
        sigs |= g['sigs']
        scen |= g['scen']
    if args.digest:
        d = {}
        for g in got:
            d.update(g['digest'])
        print('DIGEST', hashlib.sha256(json.dumps(sorted(d.items())).encode()).hexdigest())
    real = list(fails)
    listed = findings(pid)
    for name, sc in prop.known.items():
        v, _ = isolated(prop, canon(sc))
        if v is None:
            continue
        if (name, v[0]) in listed:
            print(f'KNOWN-FINDING: property={pid} {listed[name, v[0]]}')
        else:
            real.append((f'known input {name}', 0, canon(sc), v))
    rc = 0
    if real:
        path, v = write_replay(pid, args.seed, tier, real[0], args.workers)
        print(f'run {real[0][0]} seed {real[0][1]}: {v[0]}: {v[1]}')
        sub = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), pid, '--replay', path],
                             capture_output=True, text=True)
        print('fresh-process replay:', 'reproduced exactly' if 'exactly' in sub.stdout else 'NOT EXACT: ' + sub.stdout[-500:])
        print(f'VIOLATION property={pid} replay={path}')
        rc = 1
    wall = time.time() - t0
    write_evidence(prop, tier, args.seed, tot, faults, probes, sigs, scen, got, wall, len(real))
    print(f'{pid}: {tot["runs"]} runs, {tot["sims"]} simulations, {len(sigs)} distinct states/interleavings, '
          f'faults {dict(faults)}, probes {dict(probes)}, {wall:.1f} s, '
          'slowest run %.1f s (run %d)' % max(g['slowest'] for g in got))
    return rc


def write_evidence(prop, tier, seed, tot, faults, probes, sigs, scen, got, wall, nviol):
    samples = next((g['samples'] for g in got if g['samples']), [])
    per_hour = tot['runs'] / wall * 3600 if wall else 0
    ev = {
        'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2),
        'violations': nviol,
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': len(scen),
            'rule': prop.rule + ' Distinct: scenarios that differ as JSON documents.',
            'samples': json.loads(json.dumps(samples)[:200000]) if len(json.dumps(samples)) < 200000 else
            [str(samples)[:5000]],
            'simulated_runs_per_hour': round(per_hour), 'seeds_per_hour': round(per_hour),
            'library_simulations_executed': tot['sims'],
            'simulated_time_hours': round(tot['sim_us'] / 3.6e9, 3),
            'trace_events': tot['events'],
            'faults_injected': dict(sorted(faults.items())),
            'rare_condition_probes': dict(sorted(probes.items())),
            'distinct_states_or_interleavings': len(sigs),
            'distinct_states_measure': prop.measure,
            'components_real': prop.real, 'components_stubbed': prop.stub,
            'seed_derivation': 'sha256(VERIF_SEED/property/run number)',
        },
        'assumptions': prop.assumptions,
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', f'{prop.id}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
