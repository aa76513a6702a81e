#!/usr/bin/env python3
"""Apply many edits (from tools/edits) to a scratch copy at once, and see which reviewed functions are reported.

mass.py <scratch repo> <scratch work> <edits.jsonl> --kinds K1,K2 [--per-fn] [--seed n] [--out file] [--bad file]
  R kinds: every alarm is a false alarm.   M/O kinds: every mutated function should be reported.
"""
import argparse, bisect, collections, json, os, random, re, shutil, subprocess, sys
ap = argparse.ArgumentParser()
ap.add_argument('repo'); ap.add_argument('work'); ap.add_argument('edits')
ap.add_argument('--kinds', default='')
ap.add_argument('--per-fn', action='store_true')
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--out')
ap.add_argument('--bad', default='/tmp/bad-edits.json')
ap.add_argument('--files', default='')
ap.add_argument('--funcs', default='')
ap.add_argument('--clean', default='/repo')
ap.add_argument('--seen', default='')
a = ap.parse_args()
os.environ['FR_REPO'] = a.repo
os.environ['FR_WORK'] = a.work
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'sa'))
sys.dont_write_bytecode = True
import extract, engine

random.seed(a.seed)
bad = set(json.load(open(a.bad))) if os.path.exists(a.bad) else set()
seen = set(json.load(open(a.seen))) if a.seen and os.path.exists(a.seen) else set()
key = lambda e: json.dumps([e['file'], e['kind'], e['edits']])
kinds = [k for k in a.kinds.split(',') if k]
E = [json.loads(l) for l in open(a.edits)]
E = [e for e in E if (not kinds or any(e['kind'].startswith(k) for k in kinds)) and key(e) not in bad and key(e) not in seen]
if a.files:
    E = [e for e in E if any(f in e['file'] for f in a.files.split(','))]
if a.funcs:
    E = [e for e in E if any(f in e['func'] for f in a.funcs.split(','))]
random.shuffle(E)
files = sorted({json.loads(l)['file'] for l in open(a.edits)})
src = {f: open(os.path.join(a.clean, f), 'rb').read() for f in files}


def lines(f, off):
    return src[f][:off].count(b'\n') + 1


chosen = []
occ = collections.defaultdict(list)
fnused = set()
for e in E:
    if a.per_fn and (e['file'], e['func']) in fnused:
        continue
    lo = min(x[0] for x in e['edits'])
    hi = max(x[1] for x in e['edits'])
    if any(not (hi <= l or lo >= h) for l, h in occ[e['file']]):
        continue
    occ[e['file']].append((lo, hi))
    fnused.add((e['file'], e['func']))
    e['lo'], e['hi'] = lines(e['file'], lo), lines(e['file'], hi)
    chosen.append(e)
print('chosen', len(chosen), flush=True)


def apply(es):
    by = collections.defaultdict(list)
    for e in es:
        for n, x in enumerate(e['edits']):
            by[e['file']].append((x[0], x[1], n, x[2]))
    for f in files:
        s = src[f]
        out, p = [], 0
        for b, c, n, t in sorted(by.get(f, []), key=lambda z: (z[0], z[1], z[2])):
            out.append(s[p:b]); out.append(t.encode()); p = c
        out.append(s[p:])
        new = b''.join(out)
        q = os.path.join(a.repo, f)
        if open(q, 'rb').read() != new:
            open(q, 'wb').write(new)


rx = re.compile(r'^\s*(?:--> )?([\w/.-]+\.rs):(\d+):\d+', re.M)
env = extract.env_for('tiny')
facts = os.path.join(a.work, 'facts-tiny')
env.update({'FR_FACTS_DIR': facts, 'RUSTC_WORKSPACE_WRAPPER': os.path.join(extract.DRIVER, 'release', 'fr-facts'),
            'CARGO_TARGET_DIR': os.path.join(a.work, 'target-tiny'), 'LD_LIBRARY_PATH': extract.sysroot_lib(extract.env_for('tiny'))})
while True:
    apply(chosen)
    r = subprocess.run(['cargo', '-Zchecksum-freshness', 'check', '--workspace', '--exclude', 'fr-integration', '--offline', '--locked', '--features', 'tiny,fuzz',
                        '--keep-going', '--message-format', 'short'], env=env, cwd=a.repo, capture_output=True, text=True)
    if r.returncode == 0:
        break
    drop = set()
    errs = [m for m in re.finditer(r'^([\w/.-]+\.rs):(\d+):\d+: error', r.stderr, re.M)]
    for m in errs:
        f, l = m.group(1), int(m.group(2))
        c = [i for i, e in enumerate(chosen) if e['file'] == f and e['lo'] <= l <= e['hi']]
        tight = [i for i in c if chosen[i]['hi'] - chosen[i]['lo'] == min(chosen[j]['hi'] - chosen[j]['lo'] for j in c)] if c else []
        if not tight:
            before = [i for i, e in enumerate(chosen) if e['file'] == f]
            if before:
                tight = [min(before, key=lambda i: min(abs(chosen[i]['lo'] - l), abs(chosen[i]['hi'] - l)))]
        drop |= set(tight)
    if not drop:
        # the error is inside a macro definition: suspect the edits around macro calls of that crate
        crates = {'/'.join(m.group(1).split('/')[:m.group(1).split('/').index('src')]) for m in errs if 'src' in m.group(1).split('/')}
        drop = {i for i, e in enumerate(chosen) if any(e['file'].startswith(c + '/') for c in crates) and any('!' in x[2] for x in e['edits'])}
    if not drop:
        print(r.stderr[-3000:])
        sys.exit('no progress')
    for i in drop:
        bad.add(key(chosen[i]))
    chosen = [e for i, e in enumerate(chosen) if i not in drop]
    print('dropped', len(drop), 'left', len(chosen), flush=True)
    json.dump(sorted(bad), open(a.bad, 'w'))
if a.seen:
    json.dump(sorted(seen | {key(e) for e in chosen}), open(a.seen, 'w'))
d, info = extract.extract('tiny')
spec = engine.load_spec()
ctx = engine.Ctx(d, spec)
F = ctx.F
from roots import cname
start = collections.defaultdict(list)
for i in F.index:
    if '{closure' in i:
        continue
    b = F.body(i)
    if b.kind not in ('Fn', 'AssocFn') or b.derived:
        continue
    f, l = b.loc().rsplit(':', 1)
    start[f.replace(a.repo + '/', '')].append((int(l), i))
for f in start:
    start[f].sort()
of = collections.defaultdict(list)
for e in chosen:
    ls = start.get(e['file'], [])
    k = bisect.bisect_right(ls, (e['line'] + 0.5,)) - 1
    e['fn'] = ls[k][1] if k >= 0 else None
    if '__inner' in (e['fn'] or ''):
        e['fn'] = ls[k - 1][1] if k else e['fn']
    of[e['fn']].append(e)
hit = collections.defaultdict(list)
alarms = {}
reach = collections.defaultdict(set)
for i, b in sorted(spec['roots'].items()):
    v, f = engine.compare_root(ctx, i, b)
    ids = {i} | (set(ctx.F.index) & set())
    fns = {i}
    if f:
        inl = set(f['inl'])
        fns |= {x for x in of if x and cname(F, x) in inl}
    for x in fns:
        if x in of:
            reach[x].add(i)
            if v:
                hit[x].append(i)
    if v:
        alarms[i] = v
if not a.per_fn:
    import props, rules
    for p in props.P:
        for r in p['rules']:
            fn = getattr(rules, 'rule_' + r, None)
            if fn and r != 'consts':
                v, c = fn(ctx, p, 'quick')
                for x in v:
                    alarms.setdefault('rule %s %s' % (p['id'], r), []).append((x['key'], x['message'], x['at']))
res = {'caught': [], 'missed': [], 'unreached': []}
for x, es in of.items():
    for e in es:
        k = 'caught' if hit.get(x) else 'missed' if x in reach else 'unreached'
        res[k].append({'fn': x, 'file': e['file'], 'line': e['line'], 'kind': e['kind'], 'edits': e['edits']})
print({k: len(v) for k, v in res.items()}, 'alarms', len(alarms))
if a.out:
    json.dump({'res': res, 'alarms': {k: [list(x) for x in v] for k, v in alarms.items()}}, open(a.out, 'w'), indent=1)
