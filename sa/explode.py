"""Path-sensitive product of the flattened graph with the known variants/constants of live variables."""
from facts import split_path
from terms import Terms


class Exploded:
    def __init__(self, flow, terms=None, max_nodes=250000):
        self.fl = flow
        self.T = terms or Terms(flow)
        self.max_nodes = max_nodes
        self._sl = {}
        self.track()
        self.liveness()
        self.build()

    # ---- which variables can matter
    def rv_reads(self, rv):
        k = rv[0]
        fl = self.fl
        ops = []
        if k == 'use':
            ops = [rv[1]]
        elif k in ('ref', 'refmut', 'fake'):
            return [fl.canon(*rv[1])[0]]
        elif k == 'discr':
            return [fl.canon(*rv[1])[0]]
        elif k == 'agg':
            ops = rv[2]
        elif k == 'un':
            ops = [rv[2]]
        elif k == 'cast':
            ops = [rv[2]]
        elif k == 'bin' and rv[1] in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne'):
            ops = [o for o in rv[2:4] if o[0] == 'v' and fl.vty[fl.canon(o[1], o[2])[0]] == 'bool']
        return [fl.canon(o[1], o[2])[0] for o in ops if o and o[0] == 'v']

    def track(self):
        fl = self.fl
        tr = set()
        work = []
        producers = {}
        for b in fl.reach:
            B = fl.blocks[b]
            for dst, rv, sp in B.s:
                v = dst[0] if not dst[1] else fl.canon(*dst)[0]
                producers.setdefault(v, []).append(rv)
            if B.t[0] == 'switch' and B.t[1][0] == 'v':
                work.append(fl.canon(B.t[1][1], B.t[1][2])[0])
        work.append(fl.ret_var)
        while work:
            v = work.pop()
            if v in tr:
                continue
            tr.add(v)
            for rv in producers.get(v, ()):
                work.extend(self.rv_reads(rv))
        # keep only variables that may ever hold something known
        known = set()
        for b in fl.reach:
            B = fl.blocks[b]
            for dst, rv, sp in B.s:
                if dst[1]:
                    continue
                if rv[0] == 'agg' and rv[1][0] in ('adt', 'tuple'):
                    known.add(dst[0])
                elif rv[0] == 'use' and rv[1][0] == 'k' and rv[1][1][0] == 'i':
                    known.add(dst[0])
                elif rv[0] == 'discr':
                    v, p = fl.canon(*rv[1])
                    known.add(v)
            if B.t[0] == 'switch' and B.t[1][0] == 'v':
                known.add(fl.canon(B.t[1][1], B.t[1][2])[0])
        known |= {v for v in tr if fl.vty[v] == 'bool'}
        changed = True
        while changed:
            changed = False
            for v, rvs in producers.items():
                if v in known or v not in tr:
                    continue
                for rv in rvs:
                    if any(x in known for x in self.rv_reads(rv)):
                        known.add(v)
                        changed = True
                        break
        self.tr = tr & known
        self.producers = producers

    # ---- liveness of tracked variables
    def liveness(self):
        fl = self.fl
        ids = {v: n for n, v in enumerate(sorted(self.tr))}
        self.ids = ids
        gen, kill = {}, {}
        for b in fl.reach:
            B = fl.blocks[b]
            g, k = 0, 0
            if B.t[0] == 'switch' and B.t[1][0] == 'v':
                v = fl.canon(B.t[1][1], B.t[1][2])[0]
                if v in ids:
                    g |= 1 << ids[v]
            if B.t[0] == 'return':
                if fl.ret_var in ids:
                    g |= 1 << ids[fl.ret_var]
            if B.t[0] == 'call' and not B.t[3][1] and B.t[3][0] in ids:
                m = 1 << ids[B.t[3][0]]
                g &= ~m
                k |= m
            for dst, rv, sp in reversed(B.s):
                root = dst[0] if not dst[1] else fl.canon(*dst)[0]
                if not dst[1] and dst[0] in ids:
                    m = 1 << ids[dst[0]]
                    g &= ~m
                    k |= m
                if root in ids:
                    for v in self.rv_reads(rv):
                        if v in ids:
                            g |= 1 << ids[v]
            gen[b], kill[b] = g, k
        live = {b: gen[b] for b in fl.reach}
        work = list(fl.reach)
        inw = set(work)
        while work:
            b = work.pop()
            inw.discard(b)
            out = 0
            for s in fl.succs(b):
                out |= live[s]
            n = gen[b] | (out & ~kill[b])
            if n != live[b]:
                live[b] = n
                for p in fl.preds[b]:
                    if p not in inw:
                        inw.add(p)
                        work.append(p)
        self.live = live

    # ---- abstract values
    def ev_place(self, env, var, path):
        v, p = self.fl.canon(var, path)
        a = env.get(v)
        for e in p:
            if a is None:
                return None
            if a[0] == 'V' or a[0] == 'T':
                nm = e if isinstance(e, str) else '?'
                nm = nm.split('.')[-1]
                a = dict(a[2]).get(nm)
            else:
                return None
        return a

    def ev_op(self, env, o):
        if o[0] == 'v':
            return self.ev_place(env, o[1], o[2])
        if o[0] == 'k' and o[1][0] == 'i' and o[1][1] is not None:
            return ('b', str(o[1][1]))
        return None

    def sym(self, v, b, i):
        """a boolean known only as the value computed at one place"""
        return ('S', b, i, True) if self.fl.vty[v] == 'bool' else None

    def ev(self, env, rv):
        k = rv[0]
        if k == 'use':
            return self.ev_op(env, rv[1])
        if k in ('ref', 'refmut', 'fake'):
            return self.ev_place(env, *rv[1])
        if k == 'agg':
            kind = rv[1]
            if kind[0] == 'adt':
                comps = []
                for nm, o in zip(kind[3], rv[2]):
                    a = self.ev_op(env, o)
                    if a is not None and self.depth(a) < 4:
                        comps.append((nm, a))
                return ('V', (kind[1], kind[2]), tuple(comps))
            if kind[0] == 'tuple':
                comps = []
                for i, o in enumerate(rv[2]):
                    a = self.ev_op(env, o)
                    if a is not None and self.depth(a) < 4:
                        comps.append((str(i), a))
                return ('T', 'tuple', tuple(comps)) if comps else None
            return None
        if k == 'discr':
            a = self.ev_place(env, *rv[1])
            if a is not None and a[0] == 'V':
                d = self.fl.F.discr(rv[2], a[1][1])
                if d is not None:
                    return ('b', d)
            return None
        if k == 'un' and rv[1] == 'Not':
            a = self.ev_op(env, rv[2])
            if a is not None and a[0] == 'b' and a[1] in ('0', '1'):
                return ('b', '1' if a[1] == '0' else '0')
            if a is not None and a[0] == 'S':
                return a[:3] + (not a[3],)
            return None
        if k == 'cast':
            return None
        if k == 'bin' and rv[1] in ('Eq', 'Ne', 'BitAnd', 'BitOr', 'BitXor'):
            a, b = self.ev_op(env, rv[2]), self.ev_op(env, rv[3])
            if a and b and a[0] == 'b' and b[0] == 'b':
                if rv[1] in ('Eq', 'Ne'):
                    return ('b', '1' if (a[1] == b[1]) == (rv[1] == 'Eq') else '0')
                if a[1] in ('0', '1') and b[1] in ('0', '1') and (self.isbool(rv[2]) or self.isbool(rv[3])):
                    x, y = a[1] == '1', b[1] == '1'
                    return ('b', '1' if (x and y if rv[1] == 'BitAnd' else x or y if rv[1] == 'BitOr' else x != y) else '0')
            for u, w in ((a, b), (b, a)):
                if u and u[0] == 'b' and u[1] in ('0', '1') and (self.isbool(rv[2]) or self.isbool(rv[3])):
                    one = u[1] == '1'
                    if rv[1] == 'BitAnd' and not one or rv[1] == 'BitOr' and one:
                        return u
                    if w and w[0] == 'S':
                        flip = rv[1] == 'Eq' and not one or rv[1] in ('Ne', 'BitXor') and one
                        return w[:3] + (w[3] != flip,)
        return None

    def isbool(self, o):
        if o[0] == 'v':
            return self.fl.vty[self.fl.canon(o[1], o[2])[0]] == 'bool'
        return False

    def depth(self, a):
        if a[0] in 'VT':
            return 1 + max([self.depth(x) for _, x in a[2]] or [0])
        return 0

    def step(self, b, env):
        """returns list of (succ, label, env) ; label=(b, k) for decisions"""
        fl = self.fl
        B = fl.blocks[b]
        env = dict(env)
        ids = self.ids
        for i, (dst, rv, sp) in enumerate(B.s):
            if dst[1]:
                v, p = fl.canon(*dst)
                if v in env:
                    if not p and v in ids:
                        a = self.ev(env, rv) or self.sym(v, b, i)
                        if a is not None:
                            env[v] = a
                        else:
                            env.pop(v, None)
                    else:
                        env.pop(v, None)
                elif not p and v in ids:
                    a = self.ev(env, rv) or self.sym(v, b, i)
                    if a is not None:
                        env[v] = a
                continue
            v = dst[0]
            if v in ids:
                a = self.ev(env, rv) or self.sym(v, b, i)
                if a is not None:
                    env[v] = a
                else:
                    env.pop(v, None)
        t = B.t
        k = t[0]
        if k == 'goto':
            return [(t[1], None, env)]
        if k == 'assert':
            return [(t[4], None, env)]
        if k == 'choice':
            return [(x, (b, i), env) for i, (_, x) in enumerate(t[1])]
        if k == 'call':
            dst = t[3]
            for a in t[2]:
                if a[0] == 'v' and fl.is_mutref(a):
                    v, p = fl.canon(a[1], a[2])
                    env.pop(v, None)
            if not dst[1]:
                env.pop(dst[0], None)
                if dst[0] in ids and fl.vty[dst[0]] == 'bool':
                    env[dst[0]] = ('S', b, -1, True)
            else:
                env.pop(fl.canon(*dst)[0], None)
            return [(t[4], None, env)]
        if k == 'switch':
            a = self.ev_op(env, t[1])
            if a is not None and a[0] == 'b':
                for v, x in t[2]:
                    if v == a[1]:
                        return [(x, None, env)]
                return [(t[3], None, env)] if t[3] is not None else []
            if a is not None and a[0] == 'S':
                out = []
                v, p = fl.canon(t[1][1], t[1][2])
                arms = [(x[0] != '0', x[1]) for x in t[2]]
                if t[3] is not None:
                    arms.append((t[2][0][0] == '0', t[3]))
                for i, (truth, x) in enumerate(arms):
                    e = env
                    if not p and v in ids:
                        e = dict(env)
                        e[v] = ('b', '1' if truth else '0')
                    out.append((x, (b, i, a[1], a[2], truth == a[3]), e))
                return out
            out = []
            # refinement target
            tgt, mode, adt = None, None, None
            if t[1][0] == 'v':
                v, p = fl.canon(t[1][1], t[1][2])
                if not p:
                    tgt, mode = v, 'b'
                    w = fl.whole.get(v)
                    if w and len(w) == 1 and w[0][2][0] == 'discr':
                        pv, pp = fl.canon(*w[0][2][1])
                        if not pp:
                            tgt, mode, adt = pv, 'd', w[0][2][2]
            arms = [(v, x) for v, x in t[2]]
            for i, (v, x) in enumerate(arms):
                e = env
                if tgt in ids:
                    e = dict(env)
                    if mode == 'b':
                        e[tgt] = ('b', v)
                    else:
                        nm = (fl.F.variants(adt) or {}).get(v)
                        if nm:
                            e[tgt] = ('V', (adt, nm), ())
                out.append((x, (b, i), e))
            if t[3] is not None:
                e = env
                if tgt in ids:
                    if mode == 'b' and len(arms) == 1 and t[4] == 'bool':
                        e = dict(env)
                        e[tgt] = ('b', '1' if arms[0][0] == '0' else '0')
                    elif mode == 'd':
                        vs = fl.F.variants(adt) or {}
                        rest = [nm for d, nm in vs.items() if d not in [v for v, _ in arms]]
                        if len(rest) == 1:
                            e = dict(env)
                            e[tgt] = ('V', (adt, rest[0]), ())
                out.append((t[3], (b, len(arms)), e))
            return out
        if k == 'return':
            return self.split_ret(b, env)
        return []

    def split_ret(self, b, env):
        """a computed boolean result is a decision like any other"""
        rv = self.fl.ret_var
        a = env.get(rv)

        def find(a, d=0):
            if a[0] == 'S':
                return a
            if a[0] in 'VT' and d < 2:
                c = dict(a[2]).get('0')
                return find(c, d + 1) if c is not None else None
            return None

        def put(a, v):
            if a[0] == 'S':
                return v
            return a[:2] + (tuple((n, put(x, v) if n == '0' else x) for n, x in a[2]),)
        s = find(a) if a is not None else None
        if s is None:
            return []
        out = []
        for i, truth in enumerate((True, False)):
            e = dict(env)
            e[rv] = put(a, ('b', '1' if truth else '0'))
            out.append((b, (b, i, s[1], s[2], truth == s[3]), e))
        return out

    def build(self):
        fl = self.fl
        self.nodes = {}       # (blk, envkey) -> id
        self.node_blk = []
        self.node_env = []
        self.succ = []        # id -> [(id, label)]
        self.at = {}          # blk -> [node ids]
        self.start = self._node(fl.entry, {})
        work = [self.start]
        while work:
            n = work.pop()
            if self.succ[n] is not None:
                continue
            out = []
            for x, lab, env in self.step(self.node_blk[n], self.node_env[n]):
                m = self._node(x, env)
                out.append((m, lab))
                if self.succ[m] is None:
                    work.append(m)
            self.succ[n] = out
        self.pred = [[] for _ in self.succ]
        for n, o in enumerate(self.succ):
            for m, lab in o or ():
                self.pred[m].append((n, lab))
        self.exits = {}
        for n, b in enumerate(self.node_blk):
            t = fl.blocks[b].t
            if t[0] == 'return' and not self.succ[n]:
                a = self.node_env[n].get(fl.ret_var)
                self.exits[n] = a[1][1] if a is not None and a[0] == 'V' else (a[1] if a is not None and a[0] == 'b' else '?')
            elif t[0] in ('panic',):
                self.exits[n] = 'panic'
        return

    def _node(self, b, env):
        lv = self.live.get(b, 0)
        ids = self.ids
        items = tuple(sorted((v, a) for v, a in env.items() if lv >> ids[v] & 1))
        key = (b, items)
        n = self.nodes.get(key)
        if n is None:
            n = len(self.node_blk)
            if n > self.max_nodes:
                raise RuntimeError('exploded view too large for ' + self.fl.root.id)
            self.nodes[key] = n
            self.node_blk.append(b)
            self.node_env.append(dict(items))
            self.succ.append(None)
            self.at.setdefault(b, []).append(n)
        return n

    # ---- queries
    def reach(self, starts, stop_edge=None, stop_node=None):
        seen = set()
        work = [s for s in starts]
        par = {}
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            if stop_node is not None and stop_node(n):
                continue
            for m, lab in self.succ[n] or ():
                if lab is not None and stop_edge is not None and stop_edge(lab):
                    continue
                if m not in seen:
                    if m not in par:
                        par[m] = (n, lab)
                    work.append(m)
        self.par = par
        return seen

    def success_nodes(self, kinds=('Ok', '?')):
        return {n for n, k in self.exits.items() if k in kinds}

    def can_reach(self, targets):
        seen = set(targets)
        work = list(targets)
        while work:
            n = work.pop()
            for m, _ in self.pred[n]:
                if m not in seen:
                    seen.add(m)
                    work.append(m)
        return seen

    def decisions(self):
        """labels that appear as real decisions -> [(src, dst)]"""
        d = {}
        for n, o in enumerate(self.succ):
            for m, lab in o or ():
                if lab is not None:
                    d.setdefault(lab, []).append((n, m))
        return d

    def lit(self, lab):
        if len(lab) == 5:
            r = self._sl.get(lab[2:])
            if r is None:
                b, i, truth = lab[2:]
                if i < 0:
                    t, _ = self.T._callterm(b)
                else:
                    t, _ = self.T._rv(self.fl.blocks[b].s[i][1], (), b, i)
                self._sl[lab[2:]] = r = self.T.bool_lit(t, truth)
            return r
        return self.T.edge_lits(lab[0])[lab[1]]
