"""writes MANIFEST.json: a property is claimed when contracts/<id>.py exists"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOTE = {}
NA = {}
exec(open(os.path.join(H, 'tools', 'notes.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if not os.path.exists(os.path.join(H, 'contracts', i.lower() + '.py')):
        na.append(dict(property=i, reason='contracts for this property are not written yet')); continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       technique='contract-based deductive verification (verification conditions generated from the Python source, discharged by z3)', level='proof',
                       level_note=NOTE.get(i, 'Contracts on the real functions; floating point is read as real arithmetic; numpy primitives by their contracts in pvc/library.py.')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='python3 check.py <id>: proof obligations from /repo\'s current source (pvc/, contracts/), then bounded replay on the real code (bounded/). Known findings: known_findings.json.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
