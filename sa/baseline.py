"""Write the record of reviewed facts (spec/) from the current tree. Run by hand, never by a check."""
import collections, json, os, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, extract, props
from engine import Ctx, SPEC, slim
from panics import Panics
from roots import candidates, select, cname, CODEC_FN


# conditional compilation: #[cfg(not(feature = "fuzz"))]
ALT = r'BlockImporter::validate_block_header_prior_stf$|transition_timeslot$'


def neighbours(F, cands, sel, allr):
    """Functions called directly from what a property is anchored in belong to it as well, unless they are used all over
    (those are reviewed under the properties that name them) or the property would drown in them."""
    P = Panics(F)

    def called(i):
        out, seen, st = set(), {i}, [i]
        while st:
            j = st.pop()
            if j in P.set:
                for k in P.scan(j)[0]:
                    if k in allr:
                        out.add(k)
                    elif k not in seen:
                        seen.add(k)
                        st.append(k)
        return out
    new, uses = {}, collections.Counter()
    for p in props.P:
        wide = set(props.WIDE.get(p['id'], ()))
        core = select(F, [r for r in p['roots'] if r not in wide], cands)
        n = set().union(*[called(i) for i in core]) if core else set()
        n = {i for i in n - set(sel[p['id']]) if not (CODEC_FN.search(cname(F, i)) and F.body(i).trait)}
        new[p['id']] = n
        uses.update(n)
    return {p: sorted(set(v) | ({i for i in new[p] if uses[i] <= 4} if len(new[p]) <= 60 else set())) for p, v in sel.items()}


def main():
    facts, info = extract.extract('tiny')
    ctx = Ctx(facts)
    F = ctx.F
    cands = candidates(F)
    sel, allr = {}, {}
    for p in props.P:
        s = select(F, p['roots'], cands)
        miss = [k for k in s if k.startswith('MISSING')]
        if miss:
            print(p['id'], miss)
            sys.exit(1)
        sel[p['id']] = sorted(s)
        allr.update(s)
    # a private function that is a root of its own belongs to every property whose patterns cover its module
    for p in props.P:
        more = select(F, ['!' + q.lstrip('!') for q in p['roots'] if '*' in q], cands)
        sel[p['id']] = sorted(set(sel[p['id']]) | {i for i in more if i in allr})
    sel = neighbours(F, cands, sel, set(allr))
    ctx.roots = set(allr)
    ctx.known = set()
    known = sorted({cname(F, i) for i in F.index})
    ctx.known = set(known)
    out = {}
    empty = set()
    for i in sorted(allr):
        f = ctx.facts(i)
        s = slim(f)
        if not any(s[k] for k in ('rejects', 'effects', 'selects', 'rets')):
            empty.add(i)
        out.setdefault(ctx.crate(i), {})[i] = {'name': allr[i], 'crate': ctx.crate(i), 'facts': s}
    d = os.path.join(SPEC, 'roots')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for c, m in out.items():
        with open(os.path.join(d, c + '.json'), 'w') as fh:
            fh.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(i), json.dumps(m[i], separators=(',', ':'))) for i in sorted(m)) + '\n}\n')
    with open(os.path.join(SPEC, 'props.json'), 'w') as fh:
        json.dump(sel, fh, indent=0)
    with open(os.path.join(SPEC, 'known.json'), 'w') as fh:
        json.dump(known, fh, indent=0)
    with open(os.path.join(SPEC, 'consts.json'), 'w') as fh:
        json.dump({k: v for k, v in sorted(F.consts().items())}, fh, indent=0)
    use = {}
    import rules
    rx = re.compile(r'\["(?:i|o)",(?:"[^"]*"|null|\d+),(?:\d+,)?"((?:[^"\\\\]|\\\\.)+)"')
    names = {}
    for i in F.index:
        names.setdefault(cname(F, i), set()).update(F.cnorm(m.group(1)) for m in rx.finditer(F.index[i][0]))
    table = {k: [v, ty] for k, (v, ty, at) in rules.const_table(F).items()}
    for p, ids in sel.items():
        u = set()
        for i in ids:
            f = ctx.facts(i)
            for n in [cname(F, i)] + f['inl']:
                u |= names.get(n, set())
        leafs = {(x.split('::')[0], x.rsplit('::', 1)[-1]) for x in u}
        use[p] = sorted(k for k in table if k.split('|')[1] in u or (k.split('|')[0], k.rsplit('::', 1)[-1]) in leafs)
    Ff = rules.full_facts()
    full = {k: [v, ty] for k, (v, ty, at) in rules.const_table(Ff).items()}
    with open(os.path.join(SPEC, 'constvalues.json'), 'w') as fh:
        json.dump({'tiny': dict(sorted(table.items())), 'full': dict(sorted(full.items())), 'use': use}, fh, indent=0)
    # functions whose code differs when the fuzzing feature is off
    ctx2 = Ctx(None, F=Ff)
    ctx2.roots, ctx2.known, ctx2.F.const_known = ctx.roots, ctx.known, F.consts()
    alt = {}
    for i in sorted(allr):
        if re.search(ALT, allr[i]):
            alt[i] = {'name': allr[i], 'crate': ctx2.crate(i), 'facts': slim(ctx2.facts(i))}
    with open(os.path.join(SPEC, 'alt.json'), 'w') as fh:
        json.dump(alt, fh, indent=0)
    print('alt', len(alt))
    print('roots', len(allr), 'empty', len(empty))


main()
