"""writes MANIFEST.json from properties.jsonl and the claims below (run by hand after adding a check)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'TLA+ specification checked with TLC; '
CLAIMS = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        level, how, note = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 checks/%s.py' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 checks/%s.py' % i,
                       'technique': TECH + how, 'level': level, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NOT.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'tools\'); import vlib" && java -version', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check compiles its own harness from /repo/include at run time; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
