"""Writes MANIFEST.json.  Levels and notes per property; a property is claimed when it has a harness module or a contract."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from levels import LEVELS, NA, NOTES
checks = []
for pid, (level, note) in sorted(LEVELS.items()):
    checks.append({'property': pid, 'quick_cmd': f'python3 check.py {pid}', 'thorough_cmd': f'python3 check.py {pid} --tier thorough',
                   'technique': 'contract-based deductive verification of the real source (pyvc: contracts + symbolic VC generation from /repo/src on '
                                'every run, discharged by z3/cvc5); the same contracts checked at run time within a stated bound where the verifier does not reach',
                   'level': level, 'level_note': note})
man = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks,
       'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())], 'notes': NOTES}
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
