"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present in dst/props."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C30': 'A statement about probability distributions of a pure numpy call per draw: no schedule, clock, fault or '
           'interleaving for a simulator to decide; it would be a statistical test.',
    'C31': 'Equality of two probability models (library sampling versus third-party PyMC/Pyro densities): a pure function '
           'of the model definition with no nondeterminism under the simulator, and the frameworks run as stubs here.',
    'C32': 'Agreement of constants and formulas with published papers: a pure function of its input, nothing to schedule '
           'or inject, and no oracle other than the cited text.',
}
PY = '/opt/venv/bin/python'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in NA:
        na.append({'property': pid, 'reason': NA[pid]})
        continue
    if not os.path.exists(os.path.join(V, 'dst', 'props', pid.lower() + '.py')):
        na.append({'property': pid, 'reason': 'check not built yet'})
        continue
    notes = json.load(open(os.path.join(V, 'tools', 'notes.json')))
    checks.append({
        'property': pid,
        'quick_cmd': f'{PY} check.py {pid} --tier quick',
        'thorough_cmd': f'{PY} check.py {pid} --tier thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': 'deterministic simulation with fault injection: ' + notes[pid][0],
        'level': 'exploration',
        'level_note': notes[pid][1],
    })
man = {'version': 1,
       'setup_cmd': f'{PY} -c "import sys; sys.path.insert(0, \'/repo\'); import numpy, pandas"',
       'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: all seams (line-level scheduling and interrupts via sys.monitoring, simulated random '
                'variables, model equations, file objects, import finder, log handlers) are outside the library. The '
                'library is imported straight from /repo, so every check sees the current working tree.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
