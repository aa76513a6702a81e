"""Write properties.jsonl and MANIFEST.json from props.py. Run by hand."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = json.load(open(os.path.join(V, 'spec', 'props.json')))
roots = {}
import glob
for p in glob.glob(os.path.join(V, 'spec', 'roots', '*.json')):
    roots.update(json.load(open(p)))
RT = {'order': 'conflicting-effects order', 'joined': 'task-join dataflow', 'gasfirst': 'gas-before-effect dominance', 'hosttable': 'dispatch-table query',
      'optable': 'dispatch-table query', 'precise': 'value-expression normalisation', 'statekeys': 'key-injectivity query', 'dberrors': 'error-propagation dataflow',
      'panicfree': 'panic reachability', 'codec': 'encode/decode mirror analysis', 'decodesafe': 'panic/allocation reachability', 'peerpanic': 'panic reachability', 'locks': 'lock-order graph',
      'consts': 'constant evaluation over both configurations', 'determinism': 'effect reachability'}
def mech(p):
    if p['mech']:
        return p['mech']
    out = []
    for i in spec.get(p['id'], []):
        r = roots[i]
        n = r['name'].split('::')
        if sum(len(v) if isinstance(v, list) else 1 for k, v in r['facts'].items() if k in ('rejects', 'effects')) == 0:
            continue
        out.append((sum(len(r['facts'][k]) for k in ('rejects', 'effects')), '::'.join(n[-2:]), r['name']))
    out.sort(reverse=True)
    return [{'name': b, 'where': c} for a, b, c in out[:6]] or [{'name': f, 'where': f} for f in p['files'][:3]]
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.P + props.NA:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': mech(p)}}) + '\n')
import rules
checks = []
pending = []
for p in props.P:
    have = [r for r in p['rules'] if hasattr(rules, 'rule_' + r)]
    if not p['roots'] and not have:
        pending.append({'property': p['id'], 'reason': 'its check is not built yet'})
        continue
    tech = 'path-sensitive MIR dataflow summaries (reject conditions, guarded effects, results) against reviewed obligations' if p['roots'] else ''
    for r in have:
        tech += ('; ' if tech else '') + RT.get(r, r)
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'technique': tech, 'level': 'other',
                   'level_note': p['note'] or 'Static: every path of the anchored functions and of the helpers folded into them is covered. Each obligation abstracts values to the fields, '
                   'constants, operators and calls they are made of, so arithmetic that keeps all of these is not distinguished. Trusts rustc\'s MIR, the driver and the reviewed record in spec/.'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': pending + [{'property': p['id'], 'reason': p['reason']} for p in props.NA],
           'notes': 'All checks are static; none runs the code under test. No hooks in /repo. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
