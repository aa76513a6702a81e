"""Lock order and locks held across suspension points.

For every function body (closures and async bodies included) a forward dataflow over MIR computes which lock guards are
alive at each point: a guard is born at `Mutex::lock`, `RwLock::read/write` or a `DashMap` accessor, follows moves (through
`unwrap`, tuples, returns), and dies when dropped, consumed or out of scope. Acquiring lock B, directly or in any function
called, while a guard of A is alive gives the edge A -> B. The node can deadlock only if the edges form a cycle, a lock is
taken again while held, or a blocking guard is alive at a suspension point."""
import re
from facts import simp, strip_generics

ACQ = re.compile(r'(?:^|::)(?:sync::)?(Mutex|RwLock|FairMutex|ReentrantMutex)::(lock|read|write|try_lock|try_read|try_write|upgradable_read)$')
DASH = re.compile(r'(?:^|::)DashMap::(\w+)$')
DASHSKIP = {'new', 'default', 'with_capacity', 'hasher', 'clone', 'drop', 'into_iter', 'fmt'}
GUARD = re.compile(r'(MutexGuard|RwLockReadGuard|RwLockWriteGuard|RwLockUpgradableReadGuard|dashmap::mapref::|dashmap::iter::Iter|dashmap::[^ ]*(?:Ref|Entry)\b)')
SPAWN = re.compile(r'(^|::)(spawn|spawn_blocking|spawn_local|spawn_timed|spawn_on)$')
SKIPC = ('fr_asn_types', 'fr_test_utils', 'fr_node_bench', 'fr_codec_derive')


def fnpath(o):
    if o[0] == 'k' and o[1][0] == 'fn':
        k = o[1]
        return k[2] if k[2] and not k[2].startswith('v:') else k[1]
    return None


def locktype(t):
    t = t.strip()
    while True:
        t2 = re.sub(r"^(&\s*('\w+\s+)?(mut\s+)?)", '', t)
        m = re.match(r'^(?:std::sync::|alloc::sync::)?(?:Arc|Rc|Box)<(.*?)(?:, [\w:]*Global)?>$', t2)
        if m:
            t2 = m.group(1)
        if t2 == t:
            break
        t = t2
    t = re.sub(r'\b(?:\w+::)+', '', t)
    return re.sub(r", (?:RandomState|Global|BuildHasherDefault<\w+>)", '', t)


class Locks:
    def __init__(self, F):
        self.F = F
        self.own = {}
        self.acq = {}
        self.ret = {}
        self.atclosure = {}
        self.ids = [i for i in F.index if F.index[i][1]['crate'] not in SKIPC and '::tests::' not in i and 'test_utils' not in i]
        self.set = set(self.ids)
        # bodies that could matter: those that name a guard, or lead to one
        for i in self.ids:
            self.own[i] = self.scan(i)
        for i in self.ids:
            self.reach(i)

    # ---- who acquires what
    def scan(self, i):
        b = self.F.body(i)
        locks, calls, spawned, made = set(), set(), set(), {}
        for bb in b.bbs:
            for s in bb[0]:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] in ('closure', 'coroutine'):
                    made[s[1][0]] = s[2][1][1]
            t = bb[1]
            if t[0] != 'call':
                continue
            p = fnpath(t[1])
            if p is None:
                continue
            s = simp(p)
            l = self.lock_of(b, s, t)
            if l:
                locks.add(l)
            elif SPAWN.search(s):
                for o in t[2]:
                    if o[0] in ('m', 'c') and o[1][0] in made:
                        spawned.add(made[o[1][0]])
            calls.add(p)
        calls |= {c for c in made.values() if c not in spawned}
        return locks, calls & self.set if hasattr(self, 'set') else calls

    def lock_of(self, b, s, t):
        m = ACQ.search(s)
        d = None if m else DASH.search(s)
        if not m and not (d and d.group(1) not in DASHSKIP):
            return None
        o = t[2][0] if t[2] else None
        if o is None or o[0] not in ('m', 'c'):
            return s
        return locktype(b.ty(o[1][0]))

    def reach(self, i):
        if i in self.acq:
            return self.acq[i]
        seen, st, out = {i}, [i], set()
        while st:
            x = st.pop()
            if x in self.acq:
                out |= self.acq[x]
                continue
            locks, calls = self.own[x]
            out |= locks
            for c in calls:
                if c not in seen and c in self.own:
                    seen.add(c)
                    st.append(c)
        self.acq[i] = out
        return out

    # ---- guards returned
    def returns(self, i, stack=()):
        if i in self.ret:
            return self.ret[i]
        if i not in self.set or i in stack:
            return frozenset()
        b = self.F.body(i)
        if not GUARD.search(b.ty(0)):
            self.ret[i] = frozenset()
            return self.ret[i]
        r = set()
        for blk, held in self.states(i, stack + (i,)).items():
            if b.bbs[blk][1][0] == 'return':
                held = self.through(b, blk, held)
                r |= {l for v, l in held if v == 0}
        self.ret[i] = frozenset(r)
        return self.ret[i]

    def through(self, b, blk, held):
        held = set(held)
        for s in b.bbs[blk][0]:
            self.stmt(held, s)
        return held

    def stmt(self, held, s):
        if s[0] == 'dead':
            self.kill(held, s[1])
        elif s[0] == '=':
            got = set()
            rv = s[2]
            ops = []
            if rv[0] == 'use':
                ops = [rv[1]]
            elif rv[0] == 'agg':
                ops = rv[2]
            elif rv[0] == 'cast':
                ops = [x for x in rv[1:] if isinstance(x, list) and x and x[0] in ('m', 'c')]
            for o in ops:
                if o[0] == 'm':
                    got |= {l for v, l in held if v == o[1][0]}
                    self.kill(held, o[1][0])
            if len(s[1]) == 1:
                self.kill(held, s[1][0])
            held |= {(s[1][0], l) for l in got}

    @staticmethod
    def kill(held, v):
        for x in [x for x in held if x[0] == v]:
            held.discard(x)

    def succs(self, t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[3]] + ([t[4]] if t[4] is not None else [])
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'drop':
            return [t[2]]
        if k == 'assert':
            return [x for x in t[1:] if isinstance(x, int)][-1:]
        if k == 'yield':
            return [x for x in t[1:] if isinstance(x, int)][:1]
        return [x for x in t[1:] if isinstance(x, int)]

    def term(self, b, i, blk, held, stack, note=None):
        t = b.bbs[blk][1]
        k = t[0]
        held = set(held)
        if k == 'drop':
            if len(t[1]) == 1:
                self.kill(held, t[1][0])
        elif k == 'call':
            p = fnpath(t[1])
            s = simp(p) if p else ''
            new = set()
            l = self.lock_of(b, s, t) if p else None
            if l:
                new = {l}
            elif p in self.set:
                new = set(self.returns(p, stack))
            if note:
                note(blk, t, p, s, l, held)
            moved = set()
            for o in t[2]:
                if o[0] == 'm':
                    moved |= {l2 for v, l2 in held if v == o[1][0]}
                    self.kill(held, o[1][0])
            d = t[3][0]
            if len(t[3]) == 1:
                self.kill(held, d)
            if GUARD.search(b.ty(d)):
                held |= {(d, x) for x in new | moved}
            elif p and s.endswith('::branch'):
                held |= {(d, x) for x in moved}
        elif k == 'yield' and note:
            note(blk, t, None, '', None, held)
        return held

    def states(self, i, stack=(), note=None):
        b = self.F.body(i)
        st = {0: frozenset()}
        work = [0]
        while work:
            x = work.pop()
            if b.bbs[x][2]:
                continue
            held = self.through(b, x, st[x])
            held = frozenset(self.term(b, i, x, held, stack))
            for y in self.succs(b.bbs[x][1]):
                if y is None or b.bbs[y][2]:
                    continue
                o = st.get(y)
                n = held if o is None else o | held
                if n != o:
                    st[y] = n
                    work.append(y)
        if note:
            for x, h in st.items():
                self.term(b, i, x, self.through(b, x, h), stack, note)
        return st

    def edges(self):
        """-> edges {(A, B): [site]}, suspensions [(lock, function, site)], bodies analysed"""
        E, Y, n = {}, [], 0
        clos = {}
        passes = []
        for i in self.ids:
            if not self.acq[i] and not any(GUARD.search(self.F.hdrs[self.F.index[i][1]['crate']]['tys'][l[0]]) for l in self.F.body(i).locals):
                continue
            n += 1
            b = self.F.body(i)
            made = {}
            for bb in b.bbs:
                for s in bb[0]:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] in ('closure', 'coroutine'):
                        made[s[1][0]] = s[2][1][1]

            def note(blk, t, p, s, l, held, i=i, b=b, made=made):
                hl = {x for v, x in held}
                if t[0] == 'yield':
                    for x in hl:
                        Y.append((x, simp(i), b.loc(b.span)))
                    return
                at = b.loc(t[5]) if len(t) > 5 and isinstance(t[5], list) else b.loc()
                tgt = set()
                if l:
                    tgt.add(l)
                elif p in self.set:
                    tgt |= self.acq[p]
                for o in t[2]:
                    if o[0] in ('m', 'c') and o[1][0] in made and not SPAWN.search(s):
                        tgt |= self.acq.get(made[o[1][0]], set())
                        passes.append((p, made[o[1][0]], simp(i), at))
                if re.search(r'(^|::)(FnOnce::call_once|FnMut::call_mut|Fn::call)$', s) and hl:
                    clos.setdefault(i, set()).update(hl)
                for a in hl:
                    for c in tgt:
                        E.setdefault((a, c), []).append((simp(i), at))
            self.states(i, (), note)
        for p, c, who, at in passes:
            for a in clos.get(p, ()):
                for x in self.acq.get(c, ()):
                    E.setdefault((a, x), []).append((who, at))
        return E, Y, n


def cycles(E):
    g = {}
    for a, b in E:
        g.setdefault(a, set()).add(b)
    out = []

    def path(a, b):
        st, seen = [(a, [a])], {a}
        while st:
            x, p = st.pop()
            for y in g.get(x, ()):
                if y == b:
                    return p + [b]
                if y not in seen:
                    seen.add(y)
                    st.append((y, p + [y]))
    for (a, b) in sorted(E):
        if a == b:
            out.append([a, a])
        else:
            p = path(b, a)
            if p and min(p) == a:
                out.append([a] + p)
    return out
