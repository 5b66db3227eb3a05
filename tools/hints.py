"""hints.py [SECONDS]: record, for the functions whose loop invariants take longer than SECONDS to find, which candidates
survive (spec/hints.json). A hint only says which candidates to try first: each is still proved on every run, and if the
proof with hints does not succeed the search starts afresh without them. Reads /verif/evidence/*.json."""
import json, glob, os, sys
V = '/verif'; lim = float(sys.argv[1]) if len(sys.argv) > 1 else 10
h = {}
p = V + '/spec/hints.json'
if os.path.exists(p): h = json.load(open(p))
for f in sorted(glob.glob(V + '/evidence/*.json')):
    for r in json.load(open(f))['coverage']['functions_under_contract']:
        k = r['function'] + ('' if r['alias_of_this'] is None else '@%d' % r['alias_of_this'])
        if r['seconds'] > lim and not r['not_verified'] and r['obligations'] == r['discharged'] and r['invariants']: h[k] = r['invariants']
json.dump(h, open(p, 'w'), indent=0, sort_keys=True)
print(len(h), 'functions')
