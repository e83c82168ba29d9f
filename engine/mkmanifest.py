"""Writes /verif/MANIFEST.json from the registry."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import CHECKS, NOT_APPLICABLE, NOTES   # noqa: E402

checks = []
for p in sorted(CHECKS):
    c = CHECKS[p]
    cmd = 'python3-vt engine/check.py ' + p
    checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd=cmd, evidence_file='evidence/%s.json' % p,
                       technique='symbolic execution of the real code, obligations decided by z3; counterexamples replayed natively',
                       level=c.get('level', 'model_checking'), level_note=c['what'] + '. Outside: ' + c['outside']))
m = dict(version=1, setup_cmd='python3-vt engine/setup.py', checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items())], notes=NOTES)
with open(os.path.join(os.path.dirname(HERE), 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
