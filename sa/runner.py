"""One check: extract facts, compare summaries, run the property's rules, write evidence."""
import json, os, sys, time, traceback
import engine, extract, props
from engine import Ctx, load_spec, compare_root, count, VERIF
try:
    import rules
except ImportError:
    rules = None

EVID = os.path.join(VERIF, 'evidence')


def known_findings():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.strip()
                if l.startswith('{'):
                    out.append(json.loads(l))
    return out


def run(pid, tier):
    t0 = time.time()
    prop = next((p for p in props.P if p['id'] == pid), None)
    if prop is None:
        print('unknown property ' + pid)
        return 2
    viol = []      # {key, message, at}
    cov = {'functions': 0, 'functions_folded_in': 0, 'blocks': 0, 'path_states': 0, 'decisions': 0}
    obl = {'rejects': 0, 'effects': 0, 'selects': 0, 'orders': 0, 'results': 0}
    samples, rulecov = [], {}
    info = {}
    try:
        facts, info = extract.extract('tiny')
        spec = load_spec()
        ctx = Ctx(facts, spec)
        folded = set()
        for i in spec['props'][pid]:
            b = spec['roots'][i]
            vs, f = compare_root(ctx, i, b)
            for kind, msg, at in vs:
                viol.append({'key': '%s|%s|%s' % (b['name'], kind, msg.split('; now')[0].split('; nearest')[0]), 'message': '%s: %s' % (b['name'], msg), 'at': at or (f or {}).get('at', '')})
            cov['functions'] += 1
            if f:
                for k, v in count(b['facts']).items():
                    obl[k] += v
                cov['blocks'] += f['blocks']
                cov['path_states'] += f['nodes']
                cov['decisions'] += f['decisions']
                folded |= set(f['inl'])
                if len(samples) < 5 and f['rejects']:
                    from compare import fmt_lit
                    r = f['rejects'][-1]
                    samples.append('%s: outcome %s when [%s] (%s)' % (b['name'], r['k'], ' and '.join(fmt_lit(x) for x in r['c'])[:300], r['at']))
        cov['functions_folded_in'] = len(folded)
        alt = [i for i in spec['props'][pid] if i in spec['alt']]
        if alt:
            # code that only a build without the fuzzing feature contains
            ctx2 = Ctx(None, spec, F=rules.full_facts())
            for i in alt:
                vs, f = compare_root(ctx2, i, spec['alt'][i])
                for kind, msg, at in vs:
                    viol.append({'key': '%s (without fuzzing)|%s|%s' % (spec['alt'][i]['name'], kind, msg.split('; now')[0].split('; nearest')[0]),
                                 'message': '%s, built without the fuzzing feature: %s' % (spec['alt'][i]['name'], msg), 'at': at or (f or {}).get('at', '')})
            cov['functions_without_fuzzing_feature'] = len(alt)
        floor = len(spec['props'][pid])
        if rules and prop['roots']:
            v, c = rules.used_consts(ctx, prop, tier)
            rulecov['used_consts'] = c
            viol += v
        for r in prop['rules']:
            fn = getattr(rules, 'rule_' + r, None) if rules else None
            if fn is None:
                continue
            v, c = fn(ctx, prop, tier)
            rulecov[r] = c
            viol += v
    except extract.ExtractError as e:
        viol.append({'key': 'extract', 'message': 'the current source cannot be analysed: %s' % e, 'at': ''})
    except Exception as e:
        traceback.print_exc()
        viol.append({'key': 'engine', 'message': 'the analysis could not be completed: %r' % (e,), 'at': ''})
    known = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']
    fresh, seen = [], []
    for v in viol:
        k = next((k for k in known if k['key'] == v['key']), None)
        if k:
            seen.append(k)
        else:
            fresh.append(v)
    for k in {k['key']: k for k in seen}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    os.makedirs(EVID, exist_ok=True)
    nobl = sum(obl.values()) + sum(c.get('obligations', 0) for c in rulecov.values())
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {
              'explanation': 'Every listed function was re-read from the compiler\'s intermediate representation of the current source, its callees folded in, and its '
                             'rejection conditions, guarded effects, guarded choices, results and the order of conflicting steps computed on all control-flow paths; each recorded obligation was then looked for '
                             'among them, and anything new that matters was reported.' + (' Further rules: ' + ', '.join(rulecov) + '.' if rulecov else ''),
              'obligations': nobl, 'obligations_by_kind': obl, 'analysed': cov, 'rules': rulecov, 'samples': samples,
              'source_files_hashed': info.get('files'), 'extract_s': info.get('extract_s'),
              'roots': [spec['roots'][i]['name'] for i in spec['props'][pid]] if info else []},
          'assumptions': ['rustc\'s MIR of the tiny configuration describes the program that runs',
                          'library functions outside the workspace behave as documented',
                          'the recorded obligations state the property (reviewed by hand against the protocol)'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    vp = os.path.join(EVID, pid + '.violations.txt')
    if fresh:
        with open(vp, 'w') as f:
            for v in fresh:
                f.write('%s\n    at %s\n    key %s\n' % (v['message'], v['at'], v['key']))
        for v in fresh[:20]:
            print('%s\n    at %s' % (v['message'], v['at']))
        print('VIOLATION property=%s replay=%s' % (pid, vp))
        return 1
    if os.path.exists(vp):
        os.unlink(vp)
    print('ok property=%s functions=%d obligations=%d wall=%.1fs' % (pid, cov['functions'], nobl, time.time() - t0))
    return 0
