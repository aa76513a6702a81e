"""Comparison of a function's current facts with the reviewed facts on record.

Every recorded obligation must still be met; nothing here looks at how the code is written.
"""
import re
import order
from terms import SEMANTIC_STD

# values with this many ingredients are accumulations over most of a subsystem; they are compared by overlap
BIG = 30
BENIGN = {'#0', '#1'}
# conditions that only spare work on nothing
IDLE = ('empty', 'nonempty', 'end')


def aset(x):
    return frozenset(x)


def sharp(x):
    """an ingredient that says exactly which: a constant, a numbered register, an operator, a library function with a meaning"""
    return x[0] == '#' or x.endswith(')') and x[-2].isdigit() or x.startswith('op:') or x.endswith('()') and x[:-2] in SEMANTIC_STD


def atoms_eq(a, b, strict=True):
    a, b = aset(a), aset(b)
    if a == b:
        return True
    d = {x for x in (a ^ b) - BENIGN if not x.endswith('[*]')}
    q = [x for x in d if x.startswith('seq:')]
    if q and not (any(x in a for x in q) and any(x in b for x in q)):
        d -= set(q)             # a sequence put together in another way
    for x in [x for x in d if '=[#' in x]:
        if not any(y.startswith(x[:x.index('=[#') + 3]) for y in (b if x in a else a)):
            d.discard(x)        # a constant field filled in another way
    if not d and (a - b) & BENIGN and (b - a) & BENIGN:
        return False            # one small constant in place of another
    if strict and any('@' not in x and not x.startswith(('cond:', 'op:', '#', '"')) for x in d):
        return False            # another field, call or variant
    return not d or len(a) >= BIG and len(b) >= BIG and len(d) * 5 <= min(len(a), len(b)) and not any(sharp(x) for x in d)


def lit_match(b, c):
    """does literal c (current) state what literal b (recorded) states"""
    b, c = widest(b), widest(c)
    if b[0] != c[0] or b[1] != c[1]:
        if b[0] == 'is' and c[0] == 'cmp' or b[0] == 'cmp' and c[0] == 'is':
            return bounds_eq(b, c) if b[0] == 'is' else bounds_eq(c, b)
        if b[0] == 'dup' and c[0] == 'cmp' or b[0] == 'cmp' and c[0] == 'dup':
            return distinct_eq(b, c) if b[0] == 'dup' else distinct_eq(c, b)
        if b[0] in ('t', 'f') and c[0] == 'cmp' or c[0] in ('t', 'f') and b[0] == 'cmp':
            return contains_eq(b, c) or contains_eq(c, b)
        return False
    if b[0] == 'cmp':
        if b[4] != c[4]:
            return False
        if atoms_eq(b[2], c[2]) and atoms_eq(b[3], c[3]):
            return True
        if b[1] in ('eq', 'ne') and atoms_eq(b[2], c[3]) and atoms_eq(b[3], c[2]):
            return True
        return False
    if b[0] == 'unsorted':
        return aset(b[2]) <= aset(c[2]) or aset(c[2]) <= aset(b[2])
    if b[0] == 'is' and b[4] != c[4]:
        return False
    return atoms_eq(b[2], c[2], strict=b[0] != 'is')


VARIANT = re.compile(r'\w+::(\w+)\{\}$')
WIDEST = {2 ** 8 - 1, 2 ** 16 - 1, 2 ** 32 - 1, 2 ** 64 - 1}


def widest(l):
    """equality with the largest value of a type, by name or by number; equality with a plain variant"""
    if l[0] == 'cmp' and l[1] in ('eq', 'ne') and abs(l[4]) in WIDEST and len(l[4:]) == 1:
        one, other = (l[2], l[3]) if l[2] else (l[3], l[2])
        if one and not other:
            return ['cmp', l[1]] + sorted([list(one), ['MAX']], reverse=True) + [0]
    if l[0] == 'cmp' and l[1] in ('eq', 'ne') and l[4] == 0:
        for v, x in ((l[2], l[3]), (l[3], l[2])):
            if x and len(v) == 1:
                m = VARIANT.match(v[0])
                if m:
                    return ['is' if l[1] == 'eq' else 'isnot', m.group(1), x, [], 0]
    return l


def bounds_eq(i, c):
    """`v.get(n)` is absent / present, against n compared with the length of v"""
    if i[4] or c[1] != 'le' or not c[2] or not c[3]:
        return False
    if not (i[1] == 'None' and c[4] == 0 or i[1] == 'Some' and c[4] == 1):
        return False
    d = (aset(i[2]) ^ (aset(c[2]) | aset(c[3]))) - BENIGN
    v, n = (c[2], c[3]) if i[1] == 'None' else (c[3], c[2])
    return not {x for x in d if not x.startswith('ix')} and not aset(n) >= aset(v)


def distinct_eq(d, c):
    """something occurs twice, against a set of all of them being smaller than their number"""
    if c[1] == 'ne' and c[4] == 0:
        s, v = (c[2], c[3]) if len(c[2]) > len(c[3]) else (c[3], c[2])
    elif c[1] == 'le' and c[4] == 1:
        s, v = c[2], c[3]
    else:
        return False
    return bool(v) and aset(v) < aset(s) and atoms_eq(d[2], s)


def contains_eq(t, c):
    """`v.contains(x)` against an element comparison `each v == x`"""
    if t[0] == 't' and c[1] != 'eq' or t[0] == 'f' and c[1] != 'ne':
        return False
    if 'contains()' not in t[2] or c[4] != 0:
        return False
    u = aset(c[2]) | aset(c[3])
    return len(((aset(t[2]) - {'contains()'}) ^ u) - BENIGN) <= 2


def plumbing(l):
    """presence / success tests of an operation that is itself accounted for"""
    return l[0] == 'is' and l[1] in ('Some', 'Ok', 'Continue')


OPP = {'empty': 'nonempty', 'nonempty': 'empty'}


def contradict(b, c):
    """an emptiness test that now goes the other way"""
    for x in b:
        o = OPP.get(x[0])
        if o and not any(y[0] == x[0] and atoms_eq(x[2], y[2]) for y in c) and any(y[0] == o and atoms_eq(x[2], y[2]) for y in c):
            return True
    return False


def unrelated(x, b, known, own):
    """an emptiness test the reviewed form lacks, on something other than what the step itself works on"""
    if x[0] not in OPP or any(y[0] in OPP and atoms_eq(x[2], y[2]) for y in b):
        return False
    a = {y for y in aset(x[2]) - BENIGN if '@' not in y and '=[' not in y and not y.startswith('seq:')}
    return bool(a) and not a <= own and not any(y[0] in OPP and a <= aset(y[2]) for y in known)


def vacuous(b, c):
    """a comparison of a whole collection that now passes whenever the collection is empty"""
    for x in c:
        if x[0] in OPP and not any(y[0] in OPP and atoms_eq(x[2], y[2]) for y in b):
            for y in c:
                if y[0] == 'cmp' and y[1] in ('eq', 'ne') and (aset(y[2]) == aset(x[2]) or aset(y[3]) == aset(x[2])):
                    return True
    return False


def refilled(e, effects):
    """the same numbered place is still written, with something else"""
    w = [v for v in e['a'] if v[0] == '@']
    if not w or not any(x.startswith(('ix:', 'from:', 'to:')) for x in w[0][1]):
        return False
    return any(c['n'] == e['n'] and w[0] in c['a'] for c in effects)


def lit_atoms(ls):
    r = set()
    for l in ls:
        r |= set(l[2]) | set(l[3])
    return r


def has_contains(ls):
    return any('contains()' in x[2] or 'contains_key()' in x[2] or 'is_some()' in x[2] for x in ls)


def reject_match(r, c):
    if c['k'] != r['k'] or not conj_match(r['c'], c['c']):
        return False
    if not c.get('w', True) and vacuous(r['c'], c['c']):
        return False
    if (r['l'][0] == 'end') != (c['l'][0] == 'end') and not has_contains(r['c']) and not has_contains(c['c']):
        return False
    return True


def conj_match(b, c):
    """recorded conditions b, current conditions c (lists of literals)"""
    if contradict(b, c):
        return False
    own = lit_atoms(x for x in c if x[0] not in IDLE)
    if any(unrelated(x, b, (), own) for x in c):
        return False
    bl = [x for x in b if x[0] not in IDLE]
    cl = [x for x in c if x[0] not in IDLE]
    used = set()
    for x in bl:
        hit = None
        for i, y in enumerate(cl):
            if i not in used and lit_match(x, y):
                hit = i
                break
        if hit is None:
            if plumbing(x):
                continue
            return False
        used.add(hit)
    for i, y in enumerate(cl):
        if i not in used and not plumbing(y):
            if any(lit_match(x, y) for x in bl):
                continue
            return False
    if not bl:
        return any(lit_match(x, y) for x in b for y in c)
    return True


def val_match(b, c):
    if isinstance(b[0], str):
        if b[0] != c[0]:
            return False
        b, c = b[1:], c[1:]
    if b[2] != c[2] and not (not b[0] and not b[1] and not c[0] and not c[1] and False):
        return False
    return atoms_eq(b[0], c[0]) and atoms_eq(b[1], c[1])


def args_match(b, c):
    if len(b) != len(c):
        return False
    return all(val_match(x, y) for x, y in zip(b, c))


def fmt_lit(l):
    k, r, p, n, c = l
    j = lambda s: ' '.join(s) or '0'
    if k == 'cmp':
        return '{%s} %s {%s}%s' % (j(p), {'le': '<=', 'eq': '==', 'ne': '!='}[r], j(n), ' %+d' % -c if c else '')
    if k == 'in':
        return '{%s} among (%s)' % (j(p), r)
    if k in ('t', 'f'):
        return '%s{%s}' % ('' if k == 't' else 'not ', j(p))
    return '%s %s%s {%s}' % (k, r, '(' + r + ' of two levels)' if k == 'is' and c else '', j(p))


def fmt_range(r):
    return '%s %s .. %s' % (r[0], fmt_val(r[1]), fmt_val(r[2]))


def fmt_val(v):
    h = ''
    if isinstance(v[0], str):
        h, v = v[0] + '=', v[1:]
    return '%s{%s}%s%s' % (h, ' '.join(v[0]), ' - {%s}' % ' '.join(v[1]) if v[1] else '', ' %+d' % v[2] if v[2] else '')


import os
def clip(s, n=int(os.environ.get("CLIP", 420))):
    return s if len(s) <= n else s[:n] + '…'


def overlap(b, c):
    x = set()
    y = set()
    for l in b:
        x |= set(l[2]) | set(l[3]) | {l[0], l[1]}
    for l in c:
        y |= set(l[2]) | set(l[3]) | {l[0], l[1]}
    return len(x & y) / (1 + len(x | y))


def new_skips(e, c):
    y = e['s'] or e.get('u') or ()
    return any(not any(lit_match(q, x) for q in y) for x in c['s'] or c.get('u') or ())


def tolerated(l, base):
    """the step whose failure the recorded form survives"""
    was = {x for v in all_vals(base) for x in v} | {x for y in all_lits(base) for x in list(y[2]) + list(y[3])} | {e['n'][5:] + '()' for e in base['effects']}
    if any(x.endswith('()') and x not in was for x in l[2]):
        return None
    for e in base['effects']:
        x = e['n'][5:] + '()'
        if e['n'].startswith('call ') and x in l[2] and not any(x in y[2] or x in y[3] for r in base['rejects'] for y in [r['l']] + list(r['c'])) and x not in {z for v in all_vals(base) for z in v}:
            return e['n'][5:]
    return None


def compare(base, cur):
    """-> list of (kind, message, location)"""
    out = []
    used = set()
    # --- rejects
    for r in base['rejects']:
        hit = None
        for i, c in enumerate(cur['rejects']):
            if i not in used and reject_match(r, c):
                hit = i
                break
        if hit is None:
            for i, c in enumerate(cur['rejects']):
                if reject_match(r, c):
                    hit = i
                    break
        if hit is None and is_plain_err(r):
            # failing reads: the failure must still be noticed somewhere, however the read is reached
            for i, c in enumerate(cur['rejects']):
                if c['k'] == r['k'] and is_plain_err(c) and lit_match(r['l'], c['l']) and not checks(r['l']) and not opposed(r['c'], c['c']) and all(
                        any(lit_match(x, y) for y in c['c']) for x in r['c'] if x[0] == 'is' and x[4]):
                    hit = i
                    break
        if hit is None and r['k'] == 'Err' and r['l'][0] == 'is' and r['l'][1] == 'Err' and any(
                x.endswith('()') for x in r['l'][2]) and any(not v[1] and not v[2] and atoms_eq(v[0], r['l'][2]) for v in cur['rets'].get('', ())):
            continue                # the outcome of the failing step is itself the result
        if hit is None:
            near = sorted(((overlap(r['c'], c['c']), i) for i, c in enumerate(cur['rejects']) if c['k'] == r['k']), reverse=True)
            n = cur['rejects'][near[0][1]] if near else None
            out.append(('reject', 'outcome %s is no longer forced by [%s]%s' % (
                r['k'], clip(' and '.join(fmt_lit(x) for x in r['c'])),
                '; nearest now: [%s] at %s' % (clip(' and '.join(fmt_lit(x) for x in n['c'])), n['at']) if n else ''), n['at'] if n else r['at']))
        else:
            used.add(hit)
    for i, c in enumerate(cur['rejects']):
        if i in used or any(reject_match(b, c) for b in base['rejects']):
            continue
        if c['l'][0] == 'is' and c['l'][1] in ('Err', 'None'):
            n = tolerated(c['l'], base) if c['l'][1] == 'Err' and c['k'] == 'Err' else None
            if n:
                out.append(('reject', 'a failure of `%s`, which was tolerated, now ends the operation' % n, c['at']))
            continue
        out.append(('reject', 'outcome %s is now also forced by [%s]' % (c['k'], clip(' and '.join(fmt_lit(x) for x in c['c']))), c['at']))
    # --- effects
    # steps that fill an intermediate collection the recorded form does not have
    extra = [c for c in cur['effects'] if c['n'].startswith('local ') and not any(
        e['n'] == c['n'] and e['a'] == c['a'] and (e['s'] is None or c['s'] is not None) and not new_skips(e, c) for e in base['effects'])]
    for e in base['effects']:
        cands = [c for c in cur['effects'] if c['n'] == e['n'] and args_match(e['a'], c['a'])]
        if not cands:
            if e['n'].startswith('local add') and any(c['n'].startswith('local add') and set(e['a'][0][1]) <= set(x for v in c['a'] for x in v[1])
                                                      for c in cur['effects'] if e['a'] and c['a']):
                continue
            if e['n'].startswith('local ') and not refilled(e, cur['effects']) and covered([set(v[1]) | set(v[2]) for v in e['a']], e['s'] or (), cur):
                continue
            near = [c for c in cur['effects'] if c['n'] == e['n']]
            out.append(('effect', '`%s(%s)` no longer happens%s' % (
                e['n'], clip(', '.join(fmt_val(v) for v in e['a'])),
                '; now: (%s)' % clip(', '.join(fmt_val(v) for v in near[0]['a'])) if near else ''), near[0]['at'] if near else e['at']))
            continue
        ok = False
        why = None
        for c in cands:
            w = effect_diff(e, c, cur['rejects'], cur['selects'], extra)
            if w is None:
                ok = True
                break
            why = why or (w, c)
        if not ok:
            out.append(('effect', '`%s(%s)` %s' % (e['n'], clip(', '.join(fmt_val(v) for v in e['a']), 160), why[0]), why[1]['at']))
    for c in cur['effects']:
        if c['n'].startswith(('local ', 'out ')):
            continue
        if not any(e['n'] == c['n'] and args_match(e['a'], c['a']) for e in base['effects']):
            out.append(('effect', 'new effect `%s(%s)`' % (c['n'], clip(', '.join(fmt_val(v) for v in c['a']))), c['at']))
    # --- selects
    free = None
    for s in base['selects']:
        if not any(sel_match(s, c) for c in cur['selects']):
            if free is None:
                free = settled(base, cur)
            if free and any(sel_match(s, c, free) for c in cur['selects']):
                continue
            if extra and covered([set(v[0]) | set(v[1]) for v, g in s['alts']], [x for v, g in s['alts'] for x in g], cur):
                continue
            if any(narrowed(s, c, cur) for c in cur['selects']) or filtered(s, cur):
                continue
            near = [c for c in cur['selects'] if {repr(a[0]) for a in c['alts']} & {repr(a[0]) for a in s['alts']}]
            out.append(('select', 'choice between %s changed%s' % (
                clip(' | '.join('%s if [%s]' % (fmt_val(v), ' and '.join(fmt_lit(x) for x in g)) for v, g in s['alts'])),
                '; now: %s' % clip(' | '.join('%s if [%s]' % (fmt_val(v), ' and '.join(fmt_lit(x) for x in g)) for v, g in near[0]['alts'])) if near else ''),
                near[0]['at'] if near else s['at']))
    # --- ranges
    br, cr = base.get('ranges', []), cur.get('ranges', [])
    for r in br:
        if any(range_eq(r, c) for c in cr):
            continue
        near = [c for c in cr if c[0] == r[0] and atoms_eq(c[1][0], r[1][0]) and atoms_eq(c[2][0], r[2][0]) and atoms_eq(c[2][1], r[2][1])
                and not any(range_eq(x, c) for x in br)]
        if near:
            out.append(('range', 'the sequence stepped through, %s, is now %s' % (fmt_range(r), fmt_range(near[0])), cur.get('at', '')))
    for c in cr:
        if c[0] == 'range' and not any(range_eq(r, c) for r in br):
            near = [r for r in br if r[0] == c[0] and atoms_eq(c[1][0], r[1][0]) and atoms_eq(c[2][0], r[2][0]) and atoms_eq(c[2][1], r[2][1])
                    and any(range_eq(r, x) for x in cr)]
            if near:
                out.append(('range', 'beside %s, %s is now stepped through' % (fmt_range(near[0]), fmt_range(c)), cur.get('at', '')))
    for c in cr:
        if c[0] in ('skip', 'take', 'step_by') and not any(range_eq(r, c) for r in br):
            if not any(r[0] == c[0] for r in br) and any(x.startswith(c[0] + '@') or x == c[0] + '()' for v in all_vals(base) for x in v):
                continue
            out.append(('range', 'elements are now left out: %s' % fmt_range(c), cur.get('at', '')))
    # --- outcomes nobody looks at
    for n, at in cur.get('drops', ()):
        if n not in base.get('drops', ()):
            out.append(('drop', 'the outcome of `%s` is no longer looked at' % n, at))
    # --- order of conflicting steps
    if base.get('order') and base['order'][1]:
        out += order.compare_order(base['order'], cur['order'], args_match, lambda l: l[1] + '(' + clip(', '.join(fmt_val(v) for v in l[2]) if l[0] == 'e' else ', '.join(l[2]), 80) + ')')
    out += order.compare_times(base.get('times', []), [['e', e['n'], e['a']] for e in base['effects']], cur['order'], args_match,
                               lambda l: l[1] + '(' + clip(', '.join(fmt_val(v) for v in l[2]) if l[0] == 'e' else ', '.join(l[2]), 80) + ')')
    # --- returned value
    for p, vs in base['rets'].items():
        cs = cur['rets'].get(p)
        if cs is None:
            out.append(('result', 'result part `%s` is no longer produced' % p, cur.get('at', '')))
            continue
        vr, cr_ = [v for v in vs if v not in cs], [c for c in cs if c not in vs]
        for v in vr:
            if not any(val_match(v, c) for c in cr_ or cs) and not outcome(v, cr_, base) and not any(outcome(c, [v], cur) for c in cs):
                out.append(('result', 'result part `%s` is no longer %s; now: %s' % (p, clip(fmt_val(v)), clip(' | '.join(fmt_val(c) for c in cs))), cur.get('at', '')))
        for c in cr_:
            if not any(val_match(v, c) for v in vr or vs) and not any(outcome(v, [c], base) for v in vs) and not outcome(c, vr, cur):
                out.append(('result', 'result part `%s` can now also be %s' % (p, clip(fmt_val(c))), cur.get('at', '')))
    return out


def outcome(v, others, f):
    """nothing is returned after a step that may fail, where the others return the outcome of that step"""
    return v[0] == ['tuple{}'] and bool(others) and all(any(
        r['k'] == 'Err' and r['l'][0] == 'is' and r['l'][1] == 'Err' and atoms_eq(r['l'][2], c[0]) for r in f['rejects']) for c in others)


CHECK = re.compile(r'(^|::)(verify|validate|check(?!ed_)|ensure|assert)\w*\(\)$')


def checks(l):
    return any(CHECK.search(x) for x in l[2])


def opposed(b, c):
    """a condition of b is excluded by c"""
    return any(x[0] in ('cmp', 't', 'f') and any(lit_match(neg(x), y) for y in c) and not any(lit_match(x, y) for y in c) for x in b)


def is_plain_err(r):
    return r['l'][0] == 'is' and r['l'][1] in ('Err', 'None')


def all_lits(cur):
    for e in cur['effects']:
        yield from e['g']
        yield from e['s'] or e.get('u') or ()
    for s in cur['selects']:
        for v, g in s['alts']:
            yield from g
    for r in cur['rejects']:
        yield from r['c']


def all_vals(cur):
    for e in cur['effects']:
        for v in e['a']:
            yield set(v[1]) | set(v[2])
    for s in cur['selects']:
        for v, g in s['alts']:
            yield set(v[0]) | set(v[1])
    for vs in cur['rets'].values():
        for v in vs:
            yield set(v[0]) | set(v[1])


def covered(vals, lits, cur):
    """a collected or accumulated value written another way: same ingredients, same conditions"""
    cl = list(all_lits(cur))
    for l in lits:
        if l[0] in IDLE or plumbing(l) or l[0] == 'is':
            continue
        if not any(lit_match(l, x) or lit_match(neg(l), x) for x in cl):
            return False
    av = list(all_vals(cur))
    for v in vals:
        a = {x for x in v if not x.startswith(('op:', 'seq:'))} - BENIGN
        if not any(a <= w for w in av):
            return False
    return True


def neg(l):
    k, r, p, n, c = l
    if k == 'cmp':
        if r == 'eq':
            return ['cmp', 'ne', p, n, c]
        if r == 'ne':
            return ['cmp', 'eq', p, n, c]
        return ['cmp', 'le', n, p, -c + 1]
    return [{'t': 'f', 'f': 't'}.get(k, k), r, p, n, c]


def range_eq(a, b):
    return a[0] == b[0] and val_match(a[1], b[1]) and val_match(a[2], b[2])


def single(ls):
    """none of several variants: not the one, and not the other"""
    return [y for l in ls for y in ([['isnot', v] + list(l[2:]) for v in l[1].split('/')] if l[0] == 'isnot' else [l])]


def effect_diff(b, c, rej=(), sel=(), extra=()):
    b, c = dict(b, g=single(b['g'])), dict(c, g=single(c['g']))
    own = {x for v in c['a'] for x in v[1] + v[2]} | lit_atoms(x for x in list(c['g']) + list(c['s'] or ()) if x[0] not in IDLE)
    for x in list(c['g']) + list(c['s'] or ()):
        if unrelated(x, list(b['g']) + list(b['s'] or b.get('u') or ()), (), own):
            return 'now depends on [%s]' % clip(fmt_lit(x))
    if contradict(b['g'], c['g']) or b['s'] is not None and c['s'] is not None and contradict(b['s'], c['s']):
        return 'now happens under the opposite emptiness test'
    if b['s'] is not None and c['s'] is not None:
        for x in b['s']:
            if x[0] in IDLE or (x[0] in ('is', 'isnot') and (b['n'].startswith('local ') or x[1] in ('Ok', 'Continue', 'Err'))) or len(x[2]) >= BIG:
                continue
            if 'contains()' in x[2] and any(contains_eq((k,) + tuple(x[1:]), y) for y in list(c['s']) + list(c['g']) + [r['l'] for r in rej] for k in 'tf'):
                continue
            if b['n'].startswith('local ') and any(lit_match(x, y) for z in extra for y in z['s'] or z.get('u') or ()):
                continue        # left out in an earlier step that fills an intermediate collection
            if not any(lit_match(x, y) for y in c['s']) and not regrouped(x, b['s'], c['s']) and not any(lit_match(neg(x), y) for z in sel for v, g in z['alts'] for y in g):
                return 'is no longer left out when [%s]' % clip(fmt_lit(x))
    if b['s'] is not None and c['s'] is not None:
        for u, v, w in ((b, c, 'now ends the whole loop, instead of skipping one step,'), (c, b, 'now only skips one step, instead of ending the loop,')):
            for x in v.get('x', ()):
                if (x[0] != 'is' or x[1] in ('None', 'Err')) and any(lit_match(x, y) for y in u['s']) and not any(lit_match(x, y) for y in u.get('x', ())):
                    return w + ' when [%s]' % clip(fmt_lit(x))
    if b['s'] is not None and c['s'] is not None and not b['n'].startswith(('local ', 'set Maybe')):
        for u, v, w in ((b, c, 'is no longer left out when [%s]'), (c, b, 'is now left out when [%s]')):
            for x in u['s']:
                if x[0] == 'nonempty' and len(x[2]) < BIG and not any(
                        y[0] in ('cmp', 'is', 'isnot', 'nonempty', 't', 'f') and set(x[2]) <= set(y[2]) | set(y[3]) for y in list(v['s']) + list(v['g'])):
                    return w % clip(fmt_lit(x))
    for g in b['g']:
        if g[0] in IDLE:
            continue
        if not any(lit_match(g, x) for x in c['g']):
            if g[0] == 'f' and 'contains()' in g[2] and any(
                    x[0] == 'cmp' and contains_eq(('t',) + tuple(g[1:]), x) for x in list(c['s'] or ()) + [r['l'] for r in rej]):
                continue
            if any(lit_match(neg(g), y) for z in extra for y in z['s'] or z.get('u') or ()):
                continue
            return 'is no longer guarded by [%s]' % clip(fmt_lit(g))
    if b['s'] is not None and c['s'] is not None:
        for x in c['s']:
            if x[0] in IDLE or plumbing(x) and len(x[2]) >= BIG:
                continue
            if not any(lit_match(y, x) for y in b['s']) and not regrouped(x, c['s'], b['s']):
                return 'is now skipped when [%s]' % clip(fmt_lit(x))
        if not b['n'].startswith('local '):
            for x in b.get('p', ()):
                if x[0] not in IDLE and any(lit_match(x, y) for y in c['s']) and not any(lit_match(x, y) for y in c.get('p', ())):
                    return 'is now always skipped when [%s]' % clip(fmt_lit(x))
    return None


def regrouped(x, own, there):
    """the arms of a match grouped another way: all variants but some, against each of the others"""
    same = lambda y: atoms_eq(x[2], y[2], strict=False)
    if x[0] == 'is':
        return any(y[0] == 'isnot' and x[1] not in y[1].split('/') and same(y) for y in there) and len({y[1] for y in own if y[0] == 'is' and same(y)}) > 1
    if x[0] == 'isnot':
        n = {y[1] for y in there if y[0] == 'is' and same(y)}
        return len(n) > 1 and not n & set(x[1].split('/'))
    return False


def settled(base, cur):
    """conditions under which the operation has already ended, then and now"""
    def one(f):
        for r in f['rejects']:
            k = [x for x in r['c'] if x[0] not in IDLE and not plumbing(x)]
            if len(k) == 1 and k[0][0] in ('cmp', 't', 'f'):
                yield r, k[0]
    c = [r for r, x in one(cur)]
    return [neg(x) for r, x in one(base) if any(reject_match(r, y) for y in c)]


def otherwise(b, c):
    """`v if x | w if not x` against `w`, replaced by v if x"""
    if len(b['alts']) != 2 or len(c['alts']) != 2:
        return False
    for i in (0, 1):
        (v, g), (w, h) = b['alts'][i], b['alts'][1 - i]
        for j in (0, 1):
            (v2, g2), (w2, h2) = c['alts'][j], c['alts'][1 - j]
            if val_match(v, v2) and val_match(w, w2) and g and gates_eq(g, g2) and not contradict(g, g2):
                k, k2 = [x for x in h if x[0] not in IDLE], [x for x in h2 if x[0] not in IDLE]
                if bool(k) != bool(k2) and len(k or k2) == 1 and any(lit_match(neg((k or k2)[0]), x) for x in (g2 if k2 else g)):
                    return True
    return False


def sel_match(b, c, free=()):
    if free:
        drop = lambda s: dict(s, alts=[(v, [x for x in g if not any(lit_match(y, x) for y in free)]) for v, g in s['alts']])
        return sel_match(b, c) or sel_match(drop(b), drop(c))
    if len(b['alts']) != len(c['alts']):
        return False
    if otherwise(b, c):
        return True
    used = set()
    for v, g in b['alts']:
        hit = None
        for i, (w, h) in enumerate(c['alts']):
            if i not in used and val_match(v, w) and (gates_eq(g, h) or gates_eq(inner(g, h, v), inner(h, g, w))) and not contradict(g, h):
                hit = i
                break
        if hit is None:
            return False
        used.add(hit)
    return True


def inner(a, b, v):
    """guards a without those that only keep the element picked inside its sequence, when b says nothing about it"""
    own = aset(v[0]) if not isinstance(v[0], str) else aset(v[1])
    return [x for x in a if not (x[0] == 'cmp' and x[1] == 'le' and x[4] == 1 and x[2] and x[3] and aset(x[2]) | aset(x[3]) <= own and not any(
        y[0] in ('cmp', 'is') and (aset(y[2]) | aset(y[3])) == (aset(x[2]) | aset(x[3])) for y in b))]


def absent(v):
    return v[0] == ['Option::None{}'] and not v[1] and not v[2]


def presence(s):
    """(value, guards) of `some value | None`"""
    if len(s['alts']) != 2:
        return None
    x = [i for i in (0, 1) if absent(s['alts'][i][0])]
    return (s['alts'][1 - x[0]], s['alts'][x[0]]) if len(x) == 1 else None


def narrowed(b, c, cur):
    """the same element is picked, and its field is taken at another point"""
    p, q = presence(b), presence(c)
    if not p or not q or not gates_eq(p[0][1], q[0][1]) or not gates_eq(p[1][1], q[1][1]):
        return False
    v, w = p[0][0], q[0][0]
    if v[1:] != w[1:]:
        return False
    d = (aset(v[0]) ^ aset(w[0])) - BENIGN
    if not (aset(v[0]) <= aset(w[0]) or aset(w[0]) <= aset(v[0])) or not all(re.fullmatch(r'\w+\.\w+', x) for x in d):
        return False
    seen = {x for y in all_vals(cur) for x in y} | {x for y in all_lits(cur) for x in list(y[2]) + list(y[3])}
    return d <= seen


def filtered(b, cur):
    """elements kept by a condition are now added under that condition"""
    p = presence(b)
    if not p:
        return False
    (v, g), _ = p
    return bool(g) and any(' add' in e['n'] and any(set(v[0]) <= set(x[1]) for x in e['a']) and all(
        any(lit_match(l, y) for y in e['g']) or any(lit_match(opp(l), y) for y in e['s'] or ()) for l in g) for e in cur['effects'])


def opp(l):
    return [{'is': 'isnot', 'isnot': 'is'}[l[0]]] + list(l[1:]) if l[0] in ('is', 'isnot') else neg(l)


def gates_eq(a, b):
    if any(x[0] == y[0] == 'in' and atoms_eq(x[2], y[2]) and x[1] != y[1] for x in a for y in b):
        return False            # chosen by other arms of the same match
    a = [x for x in a if x[0] not in IDLE and x[0] != 'in']
    b = [x for x in b if x[0] not in IDLE and x[0] != 'in']
    return all(any(lit_match(x, y) for y in b) for x in a) and all(any(lit_match(x, y) for x in a) for y in b)
