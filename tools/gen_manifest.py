"""MANIFEST.json from properties.jsonl and the checks that exist in vc/props."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(here, 'tools', 'level_notes.json')))
BOUNDED = ('N04', 'B01', 'B02', 'B03', 'B04', 'N05', 'P05', 'R01', 'X01', 'X02')     # symbolic contents, concrete lengths
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists(os.path.join(here, 'vc', 'props', pid + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': './check %s quick' % pid,
            'thorough_cmd': './check %s thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'contract-based deductive verification: contracts on the functions of /repo, compiled to LLVM IR on every run, symbolically executed function by function with callees replaced by their contracts; obligations discharged by normalising simplifier, integer-polynomial / field-polynomial normal forms and z3; counterexamples replayed on the compiled library',
            'level': 'model_checking' if pid in BOUNDED else 'proof',
            'level_note': NOTES.get(pid, NOTES['default']),
        })
    else:
        na.append({'property': pid, 'reason': NOTES.get('na:' + pid, 'check not built')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: the verifier reads the sources as they are. fix: commits are listed in known_findings.json.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
