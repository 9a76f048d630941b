"""regenerates MANIFEST.json from contracts/props.py and properties.jsonl"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/contracts')
import props
checks = []; na = []
for l in open(R + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if i in props.PROPS:
        q = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 tool/check.py ' + i, thorough_cmd='python3 tool/check.py %s --thorough' % i,
            technique='deductive verification of function contracts on WhyML extracted from the C++ AST on every run (Why3 + Z3/CVC5); failing inputs replayed on the real library',
            level='proof', level_note=q.get('note', '') or 'All obligations of the listed functions are discharged for all inputs, with doubles read as reals and integers as unbounded; containers and the extraction are trusted.'))
    else:
        na.append(dict(property=i, reason=props.NA.get(i, 'not claimed yet: contracts under construction')))
json.dump(dict(version=1, setup_cmd='python3 tool/setup.py', checks=checks, not_applicable=na), open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
