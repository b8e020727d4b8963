"""MANIFEST.json from properties.jsonl, props/ and notapp.json"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
props = [json.loads(l) for l in open('properties.jsonl') if l.strip()]
na = json.load(open('notapp.json'))
notes = json.load(open('levelnotes.json'))
checks, nap = [], []
for p in props:
    i = p['id']
    if os.path.exists('props/%s.py' % i) and i not in na:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --thorough' % i,
                           technique=notes[i].get('technique', 'contract-based deductive verification: contracts on the functions in /repo, verification conditions generated from the current source on every run, discharged by z3/cvc5'),
                           level=notes[i]['level'], level_note=notes[i]['note']))
    else:
        nap.append(dict(property=i, reason=na.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='sh setup.sh', checks=checks, not_applicable=nap), open('MANIFEST.json', 'w'), indent=1)
