#!/usr/bin/env python3
"""writes MANIFEST.json from checks.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + '/checks.json'))
na = json.load(open(V + '/not_applicable.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bash b.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Contracts (contracts/*.spec) on the real functions of /repo, obligations generated from the current source by gocv and discharged by z3/cvc5 on every run; bounded runs of the real code (harness/) look for a concrete failing input and stand in where stated.'}
for p in props:
    i = p['id']
    if i in checks:
        c = checks[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                            'technique': c.get('technique', 'contract-based deductive verification (gocv: go/ssa to SMT, z3 and cvc5) of the real functions, with a bounded replay harness'),
                            'level': c['level'], 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': na.get(i, 'no contract yet within reach: work in progress')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
