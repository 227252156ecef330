#!/usr/bin/env python3
"""writes MANIFEST.json from the registered checks and properties.jsonl"""
import importlib
import json
import os
import pkgutil
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from kpexcheck import core, rules  # noqa: E402
for m in pkgutil.iter_modules(rules.__path__):
    importlib.import_module(f"kpexcheck.rules.{m.name}")

NA = {
    'C60': 'Agreement within a tolerance between two numerical models on arbitrary layouts: quantifies over floating point '
           'results of external solvers, which no static argument bounds.',
    'C61': 'Closedness and orientation of meshes depend on the geometry computed by KLayout (delaunay triangulation, boolean '
           'operations) at run time; the accounting part that the source decides is C35/C36.',
    'C62': 'Numerical equivalence of networks over all sequences of floating point updates; the structural and algebraic part '
           '(the formula of each update, what is removed) is decided by C33.',
    'C63': 'Cost depends on runtime quantities (density, KLayout index structures); no sound static bound in reach.',
    'C64': 'The ground truth (foundry documents) is outside the repository; internal consistency is C20.',
    'C65': 'The semantics of LVS decks is that of KLayout\'s Ruby DSL, run by an external program; the names and connections '
           'shared with the tech files are C23 and C50.',
}
PENDING = 'Not claimed yet: the check for this property is not built.'
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = core.CHECKS.get(p['id'])
    if c is None:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], PENDING)))
        continue
    checks.append(dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=c['technique'], level='other',
                       level_note=c['level_note']))
d = dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks, not_applicable=na,
         notes='Static analysis only; /repo carries no hooks. Every check parses the current working tree of /repo.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(d, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
print([x['property'] for x in na if x['reason'] == PENDING])
