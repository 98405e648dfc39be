"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}   # property -> reason, for properties the family cannot address
checks, na = [], []
for p in props:
    f = os.path.join(V, 'checks', p['id'].lower() + '.py')
    if os.path.exists(f) and p['id'] not in NA:
        src = open(f).read()
        get = lambda n: eval(re.search(r'^%s = (\(.*?\)|.*?)$' % n, src, re.M | re.S).group(1))
        checks.append({'property': p['id'],
                       'quick_cmd': './run %s --tier quick' % p['id'],
                       'thorough_cmd': './run %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': get('TECHNIQUE'), 'level': get('LEVEL'), 'level_note': get('NOTE')})
    else:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check built yet')})
m = {'version': 1, 'setup_cmd': './run --selftest', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
