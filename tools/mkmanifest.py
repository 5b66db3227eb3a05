"""Writes MANIFEST.json from spec/props.py (claimed) and NA (not claimed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import spec.props as PR
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []; na = []
for i in ids:
    if i in PR.PROPS:
        m = PR.PROPS[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
            technique='bounded check (sanitizer harness against a reference), standing in for contracts' if m.get('level') == 'exploration' else 'contract-based deductive verification of the real C++ (clang AST -> weakest-precondition style VCs -> z3/cvc5)' + (', with a bounded sanitizer harness for the functions outside its reach' if m.get('harness') else ''),
            level=m.get('level', 'proof'), level_note=m.get('level_note', PR.EXPLORATION_NOTE if m.get('level') == 'exploration' else PR.LEVEL_NOTE)))
    else: na.append(dict(property=i, reason=PR.NA.get(i, 'no contract of this property is discharged yet')))
json.dump(dict(version=1, setup_cmd='mkdir -p evidence replays', checks=checks, not_applicable=na, notes=PR.NOTES), open(V + '/MANIFEST.json', 'w'), indent=1)
