"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, ast
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TECH = {
    'C10': 'stateless exploration of the real code under a controlled joblib scheduler (preemption-bounded interleavings, all completion orders)',
    'C11': 'stateless exploration of the real code under a controlled thread scheduler (line-level preemption-bounded interleavings)',
}
HIST = 'explicit-state search over operation histories of the real code against a reference model, exhaustive to the stated depth'
ENUM = 'bounded exhaustive enumeration of inputs and configurations on the real code against a reference model'
ITER = 'step-by-step replay of the reference iteration model on the real code, exhaustive over inputs, starts and stopping points within bounds'
for c in ('C04', 'C09', 'C12', 'C17', 'C24', 'C25', 'C27', 'C30'):
    TECH[c] = HIST
for c in ('C02', 'C07', 'C20'):
    TECH[c] = ITER
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    path = os.path.join(HERE, 'mc', pid.lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property=pid, reason='check not built yet'))
        continue
    doc = ast.get_docstring(ast.parse(open(path).read()))
    note = 'Exhaustive within the bounds written to the evidence file; ' + ' '.join(doc.split()) + \
        ' Trusts numpy/scipy, the reference models in mc/ref.py and the floating-point tolerances of the oracle; says nothing beyond the bounds.'
    checks.append(dict(property=pid, quick_cmd='./check %s' % pid,
                       thorough_cmd='VERIF_TIER=thorough ./check %s' % pid,
                       technique=TECH.get(pid, ENUM), level='model_checking', level_note=note))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, sklearn, pymanopt, autograd, joblib"',
         checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: schedulers, random sources and observation points are installed from outside '
               '(custom joblib backend, sys.settrace, RandomState subclasses). ./check ID --replay FILE replays one counterexample.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
