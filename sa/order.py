"""Order of conflicting steps inside one flattened function.

A step is an effect (a write, a mutating call) or a call that reads state some other step writes. Two steps
conflict when one changes what the other reads or changes: an accumulator or stream both append to, a field,
a state component, a database. For each conflicting pair the fact recorded is "every path runs A before B, never
the other way round" (within one turn of an enclosing loop)."""
import re
from facts import simp, split_path
from terms import Terms

STATEM = re.compile(r'(^|::)StateManager::(\w+)$')
DBTYPE = re.compile(r'(^|::)(HeaderDB|XtDB|PostStateRootDB|StateDB|MerkleDB|NodeStorage|CachedDB|CoreDB|MerkleManagerHandle)::(\w+)$')
READ = re.compile(r'^(get|is|has|exists|contains|peek|read|find|retrieve|check|verify|validate|iter|len)(_|$)|_exists$')
MUTNAME = re.compile(r'^(set|add|insert|remove|delete|update|commit|apply|rollback|with_mut|clear|put|store|prepare|rotate|nullify|stage|push|write)(_|$)')
UNORDERED = re.compile(r'HashMap|BTreeMap|HashSet|BTreeSet|BinaryHeap|Atomic|Sender<|JoinSet|Counter|Cache<')
STRIP = re.compile(r'^(get|with_mut|add|remove|update|delete|set|insert|exists|is|has)_|_(clean|exists|mut)$')


class Access:
    """which fields and state components a function touches, callees included"""

    def __init__(self, F):
        self.F = F
        self.loc = {}
        self.memo = {}

    def local(self, i):
        r = self.loc.get(i)
        if r is not None:
            return r
        calls, mod, ref = set(), set(), set()
        b = self.F.body(i)

        def fields(pl):
            out = []
            for e in pl[1:]:
                if isinstance(e, str) and e.startswith('.') and '@' in e:
                    f, adt = e[1:].split('@', 1)
                    out.append('F:%s.%s' % (split_path(simp(adt))[-1], f))
            return out

        def place(pl, w):
            fs = fields(pl)
            for f in fs:
                ref.add(f)
            if w and fs:
                mod.add(fs[-1])

        def operand(o):
            if o[0] in ('c', 'm'):
                place(o[1], False)
            elif o[0] == 'k' and o[1][0] == 'fn':
                calls.add(self.resolve(o[1]))

        def rvalue(r):
            k = r[0]
            if k in ('ref', 'refmut', 'discr', 'len', 'rawptr', 'rawmut'):
                place(r[1], k in ('refmut', 'rawmut'))
            elif k == 'agg' and isinstance(r[1], list) and r[1][0] in ('closure', 'coroutine'):
                calls.add(r[1][1])
                for o in r[2]:
                    operand(o)
            else:
                walk(r[1:])

        def walk(x):
            if isinstance(x, list):
                if x and x[0] in ('c', 'm', 'k') and len(x) == 2 and isinstance(x[1], list):
                    operand(x)
                else:
                    for y in x:
                        walk(y)

        for bb in b.bbs:
            for s in bb[0]:
                if s[0] == '=':
                    place(s[1], True)
                    rvalue(s[2])
            t = bb[1]
            if t[0] == 'call':
                if t[1][0] == 'k' and t[1][1][0] == 'fn':
                    calls.add(self.resolve(t[1][1]))
                for o in t[2]:
                    operand(o)
                place(t[3], True)
            elif t[0] == 'switch':
                operand(t[1])
        calls.discard(None)
        self.loc[i] = r = (calls, mod, ref)
        return r

    def resolve(self, k):
        p = k[2] if k[2] and not k[2].startswith('v:') else k[1]
        return p

    @staticmethod
    def leaf(p):
        """(mod, ref) of functions whose meaning is known by name"""
        s = simp(p)
        m = STATEM.search(s)
        if m:
            n = m.group(2)
            if n in ('new', 'clone', 'from_dbs'):
                return set(), set()
            if re.search(r'commit|rollback|prepare|clear|genesis|merkle_root', n):
                return {'S:*'}, {'S:*'}
            c = n
            while True:
                c2 = STRIP.sub('', c)
                if c2 == c:
                    break
                c = c2
            if 'state_entry' in n:
                c = 'entry'
            if 'ring' in c:
                c = 'ring_cache'
            if c == 'ring_cache' or 'last_staging_set' in c:
                # kept beside the state: commits and rollbacks do not touch it
                return (set() if READ.search(n) else {'T:' + c}), {'T:' + c}
            if READ.search(n):
                return set(), {'S:' + c}
            return {'S:' + c}, {'S:' + c}
        m = DBTYPE.search(s)
        if m:
            n = m.group(3)
            t = m.group(2)
            if n in ('new', 'open', 'clone') or n.endswith('_db') or n in ('state_manager', 'cf_handle'):
                return set(), set()
            if READ.search(n):
                return set(), {'D:' + t}
            if MUTNAME.search(n):
                return {'D:' + t}, {'D:' + t}
            return set(), set()
        return None

    def of(self, p):
        """-> (mod, ref) closed over callees"""
        r = self.memo.get(p)
        if r is not None:
            return r
        l = self.leaf(p)
        if l is not None:
            self.memo[p] = r = (frozenset(l[0]), frozenset(l[1]))
            return r
        if p not in self.F.index:
            return frozenset(), frozenset()
        mod, ref = set(), set()
        seen = {p}
        st = [p]
        while st:
            x = st.pop()
            c, m, r0 = self.local(x)
            mod |= m
            ref |= r0
            for y in c:
                if y in seen:
                    continue
                seen.add(y)
                l = self.leaf(y)
                if l is not None:
                    mod |= l[0]
                    ref |= l[1]
                elif y in self.F.index:
                    st.append(y)
        self.memo[p] = r = (frozenset(mod), frozenset(ref))
        return r


def access(F):
    a = getattr(F, '_access', None)
    if a is None:
        a = F._access = Access(F)
    return a


def conflict(a, b):
    """do two (mod, ref) pairs conflict"""
    def hit(x, y):
        if 'S:*' in x and any(z.startswith('S:') for z in y) or 'S:*' in y and any(z.startswith('S:') for z in x):
            return True
        for z in x & y:
            if z[0] != 'M':
                return True
        lx = [z for z in x if z[0] == 'L']
        ly = [z for z in y if z[0] == 'L']
        for u in lx:
            for v in ly:
                if u.startswith(v + '/') or v.startswith(u + '/'):
                    return True
        return False
    return hit(a[0], b[0]) or hit(a[0], b[1]) or hit(a[1], b[0])


def exits(fl, back, topo):
    """{latch: blocks its loop is left to}: what follows a loop follows what its body did"""
    pred = {}
    for b in topo:
        for s in fl.succs(b):
            pred.setdefault(s, []).append(b)
    out = {}
    for l, h in sorted(back):
        body = {h, l}
        st = [l] if l != h else []
        while st:
            x = st.pop()
            for p in pred.get(x, ()):
                if p not in body:
                    body.add(p)
                    st.append(p)
        out.setdefault(l, set()).update(s for x in body for s in fl.succs(x) if s not in body)
    return {l: sorted(e) for l, e in out.items()}


def toporder(fl, back, leave):
    """blocks, each after all that follow it"""
    def nxt(b):
        return [s for s in fl.succs(b) if (b, s) not in back] + list(leave.get(b, ()))
    seen = {fl.entry}
    out = []
    st = [(fl.entry, iter(nxt(fl.entry)))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(nxt(s))))
                break
        else:
            out.append(b)
            st.pop()
    return out


def order(P):
    """-> (labels [[kind, name, args]], pairs [(i, j)] with i always before j, locations)"""
    fl, S, T = P.fl, P.S, P.T
    A = access(P.F)
    ev = {}

    def put(label, site, mod, ref):
        if not mod and not ref:
            return
        e = ev.setdefault(repr(label), [label, set(), set(), set()])
        e[1].add(site)
        e[2] |= mod
        e[3] |= ref

    done = set()
    dest = None
    for (nm, _), (name, args, sites) in sorted(P.effect_events().items()):
        for b, i in sites:
            B = fl.blocks[b]
            mod, ref = set(), set()
            if i < len(B.s):
                dst = B.s[i][0]
                v, p = fl.canon(*dst)
                mod |= container(P, v, p)
            else:
                k, cargs = B.t[1], B.t[2]
                m, r = call_access(P, A, k, cargs)
                mod |= m
                ref |= r
                done.add(b)
            w = name.split(' ')
            if len(w) == 2 and w[0] not in ('call', 'local', 'out', 'set') and '.' in w[1]:
                mod.add('M:' + w[1])
            if name.startswith('call Cache::') and w[1].split('::')[-1] in ('insert', 'invalidate', 'remove'):
                mod.add('M:' + ' '.join(args[0][1]) if args else 'M:cache')
            put(['e', name, args], (b, i), mod, ref)
    for b in sorted(fl.reach):
        B = fl.blocks[b]
        if B.t[0] != 'call' or b in done or B.fr is None or P.noise(b) or B.t[1][0] != 'fn':
            continue
        k, cargs = B.t[1], B.t[2]
        n = T.callname(k).lstrip('@')
        last = n.split('::')[-1]
        m, r = call_access(P, A, k, cargs)
        m = {x for x in m if x[0] in 'LSD'}
        r = {x for x in r if x[0] in 'LSD'}
        if last in ('branch', 'from_residual', 'next', 'poll', 'into_iter', 'iter_mut', 'deref_mut', 'as_mut', 'get_mut', 'new_unchecked', 'into_future', 'get_context', 'entry'):
            continue
        if last.startswith('decode') or last.startswith('read_'):
            if dest is None:
                dest = destinations(P)
            put(['d', n if last in ('decode', 'read_byte', 'decode_fixed') else last, sorted(dest.get(b, ()))], (b, len(B.s)), m, r)
        elif m or r:
            if not P.workspace(k):
                continue
            put(['q', n, []], (b, len(B.s)), m, r)
    labels = [e for _, e in sorted(ev.items())]
    if not labels:
        return [], [], [], [], {}
    # reachability without back edges
    back = set()
    color = {}
    topo = []
    st = [(fl.entry, iter(fl.succs(fl.entry)))]
    color[fl.entry] = 1
    while st:
        b, it = st[-1]
        for s in it:
            c = color.get(s)
            if c is None:
                color[s] = 1
                st.append((s, iter(fl.succs(s))))
                break
            if c == 1:
                back.add((b, s))
        else:
            color[b] = 2
            topo.append(b)
            st.pop()
    inb = {}
    for n, e in enumerate(labels):
        for b, i in e[1]:
            inb.setdefault(b, []).append((i, n))
    after = {}      # block -> events in it or after it
    strict = [0] * len(labels)
    times = {}      # block -> {event: most times it runs on one way from here}
    most = {}
    leave = exits(fl, back, topo)
    for b in toporder(fl, back, leave):
        m = 0
        for s in leave.get(b, ()):
            m |= after.get(s, 0)
        for s in fl.succs(b):
            if (b, s) not in back:
                m |= after.get(s, 0)
        for i, n in sorted(inb.get(b, ()), reverse=True):
            strict[n] |= m
            m |= 1 << n
        after[b] = m
    for b in topo:
        tm = {}
        for s in fl.succs(b):
            if (b, s) not in back:
                for n, c in times.get(s, {}).items():
                    if c > tm.get(n, 0):
                        tm[n] = c
        for i, n in inb.get(b, ()):
            tm[n] = tm.get(n, 0) + 1
            most[n] = max(most.get(n, 0), tm[n])
        times[b] = tm
    pairs, weak = [], []
    for x in range(len(labels)):
        for y in range(len(labels)):
            if x != y and strict[x] >> y & 1 and not strict[y] >> x & 1 and (
                    conflict(labels[x][2:], labels[y][2:]) or follows(labels[x], labels[y])):
                pairs.append((x, y))
            elif x != y and strict[x] >> y & 1 and not strict[y] >> x & 1 and follows(labels[y], labels[x]):
                weak.append((x, y))
    return [e[0] for e in labels], pairs, [P.loc(min(e[1])[0]) for e in labels], weak, {n: c for n, c in most.items() if c > 1}


COMMIT = re.compile(r'(^|_)commit(_|$)')


def follows(x, y):
    """x writes to disk and can fail; y is a change that would run ahead of the failed write"""
    if y[0][0] != 'e' or y[0][1].startswith('local '):
        return False
    n = x[0][1].split('::')[-1]
    mem = any(z[0] in 'FM' or z[0] == 'L' and '/' in z for z in y[2])
    if 'S:*' in x[2] and COMMIT.search(n) and not n.startswith('prepare'):
        return mem or any(z[0] in 'DS' for z in y[2])
    return mem and any(z.startswith('D:') for z in x[2])


def reduce(pairs):
    """covering relation"""
    succ = {}
    for x, y in pairs:
        succ.setdefault(x, set()).add(y)
    return [(x, y) for x, y in pairs if not any(y in succ.get(z, ()) for z in succ[x] if z != y)]


def container(P, v, p):
    """resources of a written place"""
    fl, S = P.fl, P.S
    out = set()
    fs = [S.field(x) for x in p if isinstance(x, str)]
    fs = [f for f in fs if f]
    if fs:
        out.add('F:' + fs[-1])
    if not UNORDERED.search(fl.vty[v]) or fs:
        out.add('L:%d' % v + ''.join('/' + (x if isinstance(x, str) else '*') for x in p))
    return out


def call_access(P, A, k, args):
    fl, F = P.fl, P.F
    p = k[2] if k[2] and not k[2].startswith('v:') else k[1]
    m, r = A.of(p)
    mod, ref = set(m), set(r)
    root = simp(p).split('::')[0]
    known = p in F.index and A.leaf(p) is None
    for a in args:
        if a[0] != 'v' or not fl.is_mutref(a):
            continue
        v, pp = fl.canon(a[1], a[2])
        t = fl.vty[a[1]]
        t = t[5:] if t.startswith('&mut ') else t
        base = re.sub(r'<.*', '', t)
        if known and re.match(r'[a-z_]\w*(::\w+)+$', base) and not base.startswith(('std::', 'alloc::', 'core::', 'bitvec::')) and 'LimitedVec' not in t and 'FixedVec' not in t:
            continue        # a workspace structure: its fields are in the summary
        if UNORDERED.search(t):
            fs = [P.S.field(x) for x in pp if isinstance(x, str)]
            fs = [f for f in fs if f]
            if fs:
                ref.add('F:' + fs[-1])
            continue
        mod |= container(P, v, pp)
    if not known and root in ('std', 'core', 'alloc'):
        mod = {x for x in mod if x[0] in 'FL'}
    return mod, ref


def destinations(P):
    """{block of a decoding call: parts of the result it ends up in}"""
    fl = P.fl
    T = Terms(fl)
    T.mark = True
    b = fl.exit
    out = {}
    t = T.place_at(fl.ret_var, (), b, 0)

    def marks(t, acc, d=0):
        if not isinstance(t, (tuple, frozenset)) or d > 60:
            return
        if isinstance(t, tuple) and t and t[0] == 'big':
            for a in t[1]:
                m = re.search(r'#b(\d+)', a) if isinstance(a, str) else None
                if m:
                    acc.add(int(m.group(1)))
            return
        if isinstance(t, tuple) and len(t) > 1 and t[0] == 'call' and isinstance(t[1], str):
            m = re.search(r'#b(\d+)$', t[1])
            if m:
                acc.add(int(m.group(1)))
                if re.search(r'(decode|read)_?\w*#b', t[1]):
                    return
        for x in t:
            marks(x, acc, d + 1)

    def rec(t, path, d):
        if t[0] == 'phi':
            for x in t[1]:
                rec(x, path, d)
            return
        if t[0] == 'agg' and d < 5:
            lab = t[1].split('::')[-1]
            if lab in ('Err', 'Break'):
                return
            if t[1] == 'tuple' or lab in ('Ok', 'Some') or (t[3] and not t[1].startswith(('closure', 'coroutine', 'array'))):
                names = t[3] or [str(i) for i in range(len(t[2]))]
                for nm, x in zip(names, t[2]):
                    rec(x, path if lab in ('Ok', 'Some') else path + '.' + (('' if t[1] == 'tuple' else lab + '.') + nm), d + 1)
                return
        acc = set()
        marks(t, acc)
        for b in acc:
            out.setdefault(b, set()).add(path)
    rec(t, '', 0)
    return out


def matcher(args_match):
    def same(a, b):
        if a[0] != b[0] or a[1] != b[1]:
            return False
        if a[0] == 'e':
            return args_match(a[2], b[2])
        return a[2] == b[2]
    return same


def slim(o):
    """what is put on record: the covering pairs and their labels"""
    labels, pairs, at, weak = o[:4]
    r = reduce(pairs)
    used = sorted({x for p in r for x in p})
    ix = {x: n for n, x in enumerate(used)}
    return [[labels[x] for x in used], [[ix[x], ix[y]] for x, y in r]]


def compare_order(base, cur, args_match, show):
    """violations [(kind, message, at)] where a recorded order is now the reverse"""
    same = matcher(args_match)
    bl, bp = base
    labels, pairs, at, weak = cur[:4]
    now = set(map(tuple, pairs)) | set(map(tuple, weak))
    match = {}
    out = []
    for x, y in bp:
        for z in (x, y):
            if z not in match:
                match[z] = [n for n, l in enumerate(labels) if same(bl[z], l)]
        cx, cy = match[x], match[y]
        if not cx or not cy or set(cx) & set(cy):
            continue
        if all((v, u) in now for u in cx for v in cy):
            out.append(('order', '`%s` used to precede `%s`, and now comes after it' % (show(bl[x]), show(bl[y])), at[cx[0]]))
    return out


def slim_times(o):
    """labels of the events that run more than once on one way through the function (loops taken once)"""
    return [[o[0][n], c] for n, c in sorted(o[4].items()) if counted(o[0][n])]


def counted(l):
    return l[0] == 'd' or l[0] == 'e' and not l[1].startswith('set ') and '::with_mut' not in l[1]


def compare_times(base, was, cur, args_match, show):
    """was: labels of all effects on record, to tell a repeated step from a new one"""
    same = matcher(args_match)
    labels, at, most = cur[0], cur[2], cur[4]
    out = []
    hit = set()
    for l, c in base:
        ns = [n for n, x in enumerate(labels) if counted(x) and same(l, x)]
        hit |= set(ns)
        now = sum(most.get(n, 1) for n in ns)
        if ns and now < c:
            out.append(('times', '`%s` ran %d times in a row, and now %d' % (show(l), c, now), at[ns[0]]))
    for n, c in sorted(most.items()):
        l = labels[n]
        if l[0] != 'e' or not counted(l) or n in hit:
            if n in hit:
                for b, k in base:
                    if same(b, l) and c > k:
                        out.append(('times', '`%s` ran %d times in a row, and now %d' % (show(l), k, c), at[n]))
            continue
        if any(same(w, l) for w in was):
            out.append(('times', '`%s` now runs %d times in a row' % (show(l), c), at[n]))
    return out
