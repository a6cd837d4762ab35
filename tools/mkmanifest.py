"""writes /verif/MANIFEST.json from checks/registry.py"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks.registry import CHECKS, NOT_APPLICABLE
TECH = 'contract-based deductive verification (pyvc VC generation over the real source, z3/cvc5)'
m = {'version': 1,
     'setup_cmd': 'python3-vt -c "import z3, ast; print(z3.get_version_string())"',
     'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in
                                      sorted(NOT_APPLICABLE.items())],
     'notes': 'Each check copies /repo/Cheetah to a scratch directory, builds the C extension there, verifies the functions under contract from that source, and searches failing inputs on the real code. See DESIGN.md.'}
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    m['checks'].append({
        'property': pid,
        'quick_cmd': 'python3-vt checks/run.py %s --tier quick' % pid,
        'thorough_cmd': 'python3-vt checks/run.py %s --tier thorough' % pid,
        'technique': c.get('technique', TECH),
        'level': c.get('level', 'proof'),
        'level_note': c.get('note', '')})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
