"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, claimed=False, note='', reason='', state=None, observe=None, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claimed=claimed, note=note, reason=reason, state=state, observe=observe, level=level))


exec(open(os.path.join(V, 'tools', 'proplist.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = p['state']
        if p['observe']:
            a['observe_at'] = p['observe']
        a['hook_needed'] = None
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks, na = [], []
for p in P:
    if p['claimed']:
        checks.append({'property': p['id'], 'quick_cmd': f"./check.sh {p['id']}", 'thorough_cmd': f"VERIF_TIER=thorough ./check.sh {p['id']}",
                       'technique': 'bounded stand-in for a proof: the contracts are executed against the compiled code' if p['level'] == 'exploration' else 'contract-based deductive verification of the Go source (SSA verification conditions, z3/cvc5); counterexamples replayed on the compiled code',
                       'level': p['level'], 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': p['reason']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts are ghost Go files in /verif/contracts, overlaid at translation time.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
