"""Value provenance on a flattened view: terms, atoms, canonical branch literals."""
import re
from facts import simp, last2, split_path, STD_VARIANTS

REFS = re.compile(r"^(&('\w+ )?(mut )?|\*(const|mut) )+")
OPTION = re.compile(r'(std|core)::option::Option<')
RESULT = re.compile(r'(std|core)::result::Result<')
CONTROL = re.compile(r'(std|core)::ops::(control_flow::)?ControlFlow<')
PAYLOAD = {'Some.0', 'Ok.0', 'Ready.0', 'Continue.0', 'Err.0', 'Break.0'}
# library functions whose presence changes what a value means; every other library call is plumbing
SEMANTIC_STD = {
    'skip', 'take', 'step_by', 'filter', 'rev', 'saturating_sub', 'saturating_add', 'saturating_mul', 'checked_add', 'checked_sub', 'checked_mul',
    'checked_div', 'wrapping_add', 'wrapping_sub', 'wrapping_mul', 'wrapping_neg', 'wrapping_div', 'wrapping_rem', 'min', 'max', 'abs_diff', 'pow',
    'rotate_left', 'rotate_right', 'leading_zeros', 'trailing_zeros', 'count_ones', 'count_zeros', 'swap_bytes', 'to_le_bytes', 'to_be_bytes',
    'to_ne_bytes', 'from_le_bytes', 'from_be_bytes', 'len', 'contains', 'contains_key', 'is_sorted', 'is_some', 'first', 'last', 'insert', 'remove',
    'get', 'windows', 'chunks', 'div_ceil', 'unsigned_abs', 'wrapping_shl', 'wrapping_shr', 'overflowing_add', 'overflowing_sub', 'wrapping_abs',
    'signum', 'abs', 'rem_euclid', 'is_power_of_two', 'next_power_of_two', 'ilog2', 'position', 'count', 'skip_while', 'take_while', 'sum', 'product',
    'difference', 'intersection', 'union', 'symmetric_difference', 'is_subset', 'is_superset', 'is_disjoint', 'unsigned_shr', 'checked_rem',
    'overflowing_mul', 'sort', 'dedup', 'truncate', 'starts_with', 'ends_with', 'eq_ignore_ascii_case', 'pop', 'pop_front', 'pop_back', 'front', 'back',
    'split_at', 'split_first', 'split_last', 'nth', 'enumerate_index', 'is_multiple_of', 'reverse', 'reverse_bits', 'widening_mul', 'div_floor', 'isqrt',
    'leading_ones', 'trailing_ones', 'is_positive', 'is_negative', 'any', 'all', 'not_any', 'not_all', 'partition_point', 'binary_search',
    'to_lowercase', 'to_uppercase', 'as_micros', 'as_millis', 'as_secs', 'from_secs', 'from_millis', 'from_micros',
}


STDNS = {'std', 'core', 'alloc', 'tokio', 'rayon', 'futures', 'futures_util', 'tracing', 'async_trait', 'either', 'itertools', 'adaptor', '<callable>', 'bitvec', 'tracing_core'}
GENERIC_NAMES = {'len', 'is_empty', 'contains', 'contains_key', 'get', 'get_mut', 'first', 'last', 'insert', 'remove', 'push', 'extend', 'next', 'eq', 'ne',
                 'lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp', 'min', 'max', 'sum', 'count', 'collect', 'rev', 'skip', 'take', 'chain', 'zip', 'windows', 'concat'}


class Terms:
    def __init__(self, flow):
        self.mark = False       # name each call term by its block
        self.fl = flow
        self.memo = {}
        self.stack = {}
        self.atm = {}
        self.sz = {}
        self.litc = {}
        self.sig = None

    # ------------------------------------------------------------ helpers
    def size(self, t):
        s = self.sz.get(t)
        if s is None:
            s = 1
            for x in t[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    s += self.size(x)
                elif isinstance(x, (tuple, frozenset)):
                    for y in x:
                        if isinstance(y, tuple) and y and isinstance(y[0], str):
                            s += self.size(y)
            self.sz[t] = s
        return s

    def shrink(self, t):
        if self.size(t) > 500:
            if t[0] == 'call' and len(t[2]) == 2 and t[1].split('::')[-1] in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') or t[0] == 'bin' and t[1] in self.CMPOPS:
                # keep comparisons as comparisons
                q = tuple(self.squash(x) for x in (t[2] if t[0] == 'call' else t[2:4]))
                return t[:2] + (q,) + t[3:] if t[0] == 'call' else t[:2] + q + t[4:]
            if t[0] == 'agg' and t[3] and not t[1].startswith(('closure', 'coroutine')):
                # keep the fields of a struct apart
                return ('agg', t[1], tuple(self.squash(x) for x in t[2]), t[3])
            if t[0] == 'phi' and any(x[0] == 'agg' and x[1].split('::')[-1] in ('Ok', 'Some') for x in t[1]):
                # keep the outcomes of a function apart
                return ('phi', frozenset(self.squash(x, -1) for x in t[1]))
            sg = self.sig.of(t) if self.sig is not None else frozenset()
            return ('big', self.atoms(t), frozenset(sg))
        return t

    def squash(self, t, d=0):
        if self.size(t) > 240:
            if d < 2 and t[0] == 'agg' and t[3] and not t[1].startswith(('closure', 'coroutine')):
                return ('agg', t[1], tuple(self.squash(x, d + 1) for x in t[2]), t[3])
            sg = self.sig.of(t) if self.sig is not None else frozenset()
            return ('big', self.atoms(t), frozenset(sg))
        return t

    def konst(self, k, hdr):
        if k[0] == 'fn':
            return ('fn', simp(k[2] or k[1]))
        if k[0] == 'i':
            ty = hdr['tys'][k[2]] if hdr is not None and k[2] is not None else ''
            if k[3] and k[1] is not None and not any(ch.isalpha() for ch in k[3]):
                return ('c', int(k[1]), ty)      # a literal in a pattern
            if k[3]:
                nm = self.fl.F.cnorm(k[3])
                if k[1] is not None:
                    nm = self.fl.F.const_name(nm)
                    if nm is None:
                        return ('c', int(k[1]), ty)
                return ('n', nm, k[1])
            if k[1] is None:
                return ('n', 'const?', None)
            return ('c', int(k[1]), ty)
        nm = k[2]
        if nm:
            nm = simp(nm)
            c = self.fl.F.cnorm(nm)
            v = self.fl.F.const_value(c)
            if v is not None:
                c = self.fl.F.const_name(c)
                if c is None:
                    return ('s', v)
                return ('n', c, None)
            return ('n', nm, None)
        return ('s', k[3][6:] if k[3].startswith('const ') else k[3])

    # ------------------------------------------------------------ evaluation
    def at(self, o, b, i):
        """term of an operand read at statement index i of block b"""
        return self._op(o, b, i)[0]

    def _op(self, o, b, i):
        if o is None:
            return ('unk',), 1 << 30
        if o[0] == 'k':
            return self.konst(o[1], o[2]), 1 << 30
        return self._val(o[1], o[2], b, i)

    def place_at(self, var, path, b, i):
        return self._val(var, path, b, i)[0]

    def _val(self, var, path, b, i):
        fl = self.fl
        var, path = fl.canon(var, path)
        sites = fl.sites.get(var)
        INF = 1 << 30
        if not sites:
            t = self._root(var)
            return self._proj(t, path, b, i), INF
        single = None
        if len(sites) == 1 and sites[0][2] == () and sites[0][3] != 'mut' and var not in fl.params:
            key = (var, path)
            single = sites[0]
        else:
            key = (var, path, b, i)
        m = self.memo.get(key)
        if m is not None:
            return m, INF
        if key in self.stack:
            return ('loop',), self.stack[key]
        d = len(self.stack)
        if d > 150:
            return ('unk',), 0
        self.stack[key] = d
        try:
            if single is not None:
                t, low = self._site(single, path)
            else:
                t, low = self._multi(var, path, b, i, sites)
        finally:
            del self.stack[key]
        t = self.shrink(t)
        if low >= d:
            self.memo[key] = t
            low = INF
        return t, low

    def _root(self, var):
        p = self.fl.params.get(var)
        if p is not None:
            return ('p', p)
        return ('unk',)

    def _elem_eq(self, a, b):
        ia = isinstance(a, tuple) or a.startswith('[')
        ib = isinstance(b, tuple) or b.startswith('[')
        if ia and ib and isinstance(a, str) and isinstance(b, str) and a.startswith('[#') and b.startswith('[#') and a[2:-1].isdigit() and b[2:-1].isdigit():
            return 'e' if a == b else None
        if ia and ib:
            return 'w' if a != b else 'e'
        return 'e' if a == b else None

    def _rel(self, dp, p):
        """relation of a definition path to a read path"""
        weak = False
        for a, b in zip(dp, p):
            r = self._elem_eq(a, b)
            if r is None:
                return None
            if r == 'w' or isinstance(a, tuple) or a.startswith('[') and not a[2:-1].isdigit():
                weak = True
        if len(dp) <= len(p):
            return 'weak' if weak else 'strong'
        return 'part'

    def _multi(self, var, path, b, i, sites):
        fl = self.fl
        byblk = {}
        for s in sites:
            byblk.setdefault(s[0], []).append(s)
        for l in byblk.values():
            # results of a call (kind 'call') come after its 'mut' effects at the same index
            l.sort(key=lambda s: (s[1], 1 if s[3] == 'call' else 0))
        strong, upd = [], []
        seen = set()
        entry_hit = False
        work = [(b, i)]
        while work:
            blk, idx = work.pop()
            stop = False
            for s in reversed(byblk.get(blk, ())):
                if s[1] >= idx:
                    continue
                r = self._rel(s[2], path)
                if s[3] == 'mut':
                    if r is None or self.quiet_mut(s[0]):
                        continue
                    if s not in upd:
                        upd.append(s)
                    continue
                if r == 'strong':
                    if s not in strong:
                        strong.append(s)
                    stop = True
                    break
                if r in ('weak', 'part'):
                    if s not in upd:
                        upd.append(s)
            if stop:
                continue
            if blk == fl.entry:
                entry_hit = True
            for p in fl.preds[blk]:
                if p not in seen:
                    seen.add(p)
                    work.append((p, 1 << 30))
        low = 1 << 30
        vals = []
        for s in strong:
            t, l = self._site(s, path[len(s[2]):])
            low = min(low, l)
            if t not in vals:
                vals.append(t)
        if entry_hit and var in fl.params:
            t = self._proj(('p', fl.params[var]), path, b, i)
            if t not in vals:
                vals.append(t)
        vals = [v for v in vals if v != ('never',)] or vals
        vals = [v for v in vals if v != ('loop',)] or vals
        base = vals[0] if len(vals) == 1 else (('phi', frozenset(vals)) if vals else ('unk',))
        if upd:
            us = set()
            for s in upd:
                if s[3] == 'mut':
                    t, l = self._callterm(s[0], skip_root=var)
                    low = min(low, l)
                    ixs = []
                    for e in s[2][len(path):]:
                        if isinstance(e, tuple) and t[0] == 'call':
                            x, l = self._val(e[1], (), s[0], s[1])
                            low = min(low, l)
                            ixs.append(('idx', ('self',), x))
                        elif isinstance(e, str) and e.startswith('[#') and e[2:-1].isdigit() and t[0] == 'call':
                            ixs.append(('idx', ('self',), ('c', int(e[2:-1]), '')))
                    if ixs:
                        t = ('call', t[1], t[2] + tuple(ixs))
                    ref = fl.vty[var].startswith('&') or 'Pin<&' in fl.vty[var]
                    us.add(('mutr' if ref else 'mut', t))
                    if not ref and t[0] == 'call' and t[1].startswith('@'):
                        # a part of something that was changed as a whole
                        us |= {('at', e, ('self',)) for e in path[len(s[2]):] if isinstance(e, str)}
                else:
                    t, l = self._site(s, ())
                    low = min(low, l)
                    rest = tuple(e for e in s[2][len(path):]) if len(s[2]) > len(path) else ()
                    ixs = []
                    for e in rest:
                        if isinstance(e, tuple):
                            x, l = self._val(e[1], (), s[0], s[1])
                            low = min(low, l)
                            ixs.append(x)
                        elif e.startswith('[#') and e[2:-1].isdigit():
                            ixs.append(('c', int(e[2:-1]), ''))
                    us.add(('set', '/'.join(e if isinstance(e, str) else '[]' for e in rest), tuple(ixs), t) if ixs else
                           ('set', '/'.join(e if isinstance(e, str) else '[]' for e in rest), t))
            us.discard(('mut', ('loop',)))
            us.discard(('mutr', ('loop',)))
            base = ('upd', base, frozenset(us))
        return base, low

    def quiet_mut(self, blk):
        k = self.fl.blocks[blk].t[1]
        if k[0] != 'fn':
            return False
        n = simp(k[1]).split('::')
        return n[-1] in ('next', 'fmt', 'write_str', 'write_fmt', 'poll', 'get_context', 'record', 'read_byte_', 'next_back', 'enter', 'by_ref', 'iter_mut')

    def _site(self, s, path):
        b, i, dp, kind, pl = s
        if kind == 'call':
            t, low = self._callterm(b)
            return self._proj(t, path, b, i), low
        key = ('site', b, i, path)
        if key in self.stack:
            return ('loop',), self.stack[key]
        d = len(self.stack)
        self.stack[key] = d
        try:
            t, low = self._rv(pl, path, b, i)
        finally:
            del self.stack[key]
        return t, (1 << 30 if low >= d else low)

    def _callterm(self, b, skip_root=None):
        fl = self.fl
        t = fl.blocks[b].t
        k, args = t[1], t[2]
        n = len(fl.blocks[b].s)
        key = ('call', b, skip_root)
        m = self.memo.get(key)
        if m is not None:
            return m, 1 << 30
        if key in self.stack:
            return ('loop',), self.stack[key]
        d = len(self.stack)
        self.stack[key] = d
        low = 1 << 30
        out = []
        for a in args:
            if skip_root is not None and a[0] == 'v' and fl.canon(a[1], a[2])[0] == skip_root:
                out.append(('self',))
                continue
            x, l = self._op(a, b, n)
            low = min(low, l)
            out.append(x)
        del self.stack[key]
        name = self.callname(k)
        if self.mark:
            name += '#b%d' % b
        r = self.shrink(('call', name, tuple(out)))
        if low >= d:
            self.memo[key] = r
            low = 1 << 30
        return r, low

    def callname(self, k):
        if k[0] != 'fn':
            return '?'
        p = k[2] if (k[2] and not k[2].startswith('v:') and k[2] in self.fl.F.index) else k[1]
        n = last2(p)
        t = n.split('::')[-1]
        root = simp(p).split('::')[0]
        if t in GENERIC_NAMES and (root in STDNS or simp(k[1]).split('::')[0] in STDNS):
            return t
        return n if root in STDNS else '@' + n

    def _rv(self, rv, path, b, i):
        k = rv[0]
        INF = 1 << 30
        if k == 'use':
            o = rv[1]
            if o[0] == 'v':
                return self._val(o[1], o[2] + path, b, i)
            t, l = self._op(o, b, i)
            return self._proj(t, path, b, i), l
        if k in ('ref', 'refmut', 'fake'):
            return self._val(rv[1][0], rv[1][1] + path, b, i)
        if k == 'bin':
            if path == ('1',):
                return ('ovf',), INF
            x, l1 = self._op(rv[2], b, i)
            y, l2 = self._op(rv[3], b, i)
            op = rv[1].replace('WithOverflow', '').replace('Unchecked', '')
            return ('bin', op, x, y, rv[4]), min(l1, l2)
        if k == 'un':
            x, l = self._op(rv[2], b, i)
            if rv[1] == 'Not':
                if x[0] == 'un' and x[1] == 'Not':
                    return x[2], l
                if x[0] == 'c' and x[2] == 'bool':
                    return ('c', 1 - x[1], 'bool'), l
                if x[0] == 'phi' and all(y[0] == 'c' and y[2] == 'bool' for y in x[1]):
                    return ('phi', frozenset(('c', 1 - y[1], 'bool') for y in x[1])), l
            return ('un', rv[1], x), l
        if k == 'cast':
            x, l = self._op(rv[2], b, i)
            if rv[1] in ('PointerCoercion', 'Transmute', 'PtrToPtr', 'Subtype') or path:
                return self._proj(x, path, b, i), l
            return ('cast', x, rv[4], rv[3]), l
        if k == 'discr':
            x, l = self._val(rv[1][0], rv[1][1], b, i)
            two = rv[2].endswith('Option') and self.nested(*rv[1]) or rv[2].endswith(('Result', 'ControlFlow')) and self.nested_result(*rv[1])
            return ('discr', x, rv[2]) + ((1,) if two else ()), l
        if k == 'agg':
            if path:
                if rv[1][0] == 'adt' and isinstance(path[0], str) and '.' in path[0]:
                    v = path[0].split('.')[0]
                    if v != rv[1][2]:
                        return ('never',), INF
                c = self.fl.agg_comp(rv, path[0]) if not isinstance(path[0], tuple) else None
                if c is not None:
                    if c[0] == 'v':
                        return self._val(c[1], c[2] + path[1:], b, i)
                    t, l = self._op(c, b, i)
                    return self._proj(t, path[1:], b, i), l
            low = INF
            cs = []
            for o in rv[2]:
                x, l = self._op(o, b, i)
                low = min(low, l)
                cs.append(x)
            kind = rv[1]
            if kind[0] == 'adt':
                a = split_path(kind[1])[-1]
                lab = a if kind[2] == a else a + '::' + kind[2]
                t = ('agg', lab, tuple(cs), tuple(kind[3]))
            elif kind[0] in ('closure', 'coroutine'):
                t = ('agg', kind[0] + ':' + simp(kind[1]), tuple(cs), ())
            else:
                t = ('agg', kind[0], tuple(cs), ())
            return self._proj(t, path, b, i), low
        if k == 'repeat':
            x, l = self._op(rv[1], b, i)
            return ('rep', x, rv[2]), l
        if k == 'static':
            return ('n', simp(rv[1]), None), INF
        if k == 'elem':
            if rv[1] is None:
                return ('s', rv[2]), INF
            x, l = self._op(rv[1], b, i)
            if rv[2] in ('enumerate_index', 'position'):
                return ('call', rv[2], (x,)), l
            return self._proj(('elem', x), path, b, i), l
        if k == 'callres':
            t, l = self._callterm(rv[1])
            return self._proj(t, path, b, i), l
        return ('unk',), INF

    def nested(self, v, path):
        """is the place an option of an option: the outer level of two"""
        ty = self.fl.vty[v]
        for e in path:
            ty = REFS.sub('', ty)
            if e == 'Some.0':
                m = OPTION.match(ty)
                if not m:
                    return False
                ty = ty[m.end():]
            elif e != '*':
                return False
        ty = REFS.sub('', ty)
        m = OPTION.match(ty)
        return bool(m and OPTION.match(REFS.sub('', ty[m.end():])))

    def nested_result(self, v, path):
        """is the place the outcome of getting at another outcome: the outer level of two"""
        if path:
            return False
        ty = REFS.sub('', self.fl.vty[v])
        m = RESULT.match(ty)
        if m:
            return bool(RESULT.match(ty[m.end():]))
        m = CONTROL.match(ty)
        if not m:
            return False
        d = 0
        for n in range(m.end(), len(ty)):
            if ty[n] in '<([':
                d += 1
            elif ty[n] in ')]' or ty[n] == '>' and ty[n - 1] != '-':
                d -= 1
            elif ty[n] == ',' and not d:
                return bool(RESULT.match(ty[n + 1:].lstrip()))
        return False

    def _proj(self, t, path, b, i):
        for e in path:
            if e == '*':
                continue
            if isinstance(e, tuple):
                ix, _ = self._val(e[1], (), b, i)
                t = ('idx', t, ix)
                continue
            if t[0] == 'call' and e in PAYLOAD:
                nm = t[1].split('::')[-1]
                if nm == 'next':
                    if t[2]:
                        src = t[2][0]
                        if any(x[0] == 'fn' and x[1].split('::')[-1] == 'rev' for x in t[2][1:]):
                            src = ('call', 'Iterator::rev', (src,))
                        t = ('elem', src)
                    if len(t) > 1 and False:
                        pass
                elif e in ('Err.0', 'Break.0'):
                    t = ('f', t, 'Err.0')
                continue
            if e in PAYLOAD and t[0] in ('elem', 'idx', 'p', 'f', 'self', 'upd', 'big', 'loop', 'unk'):
                if e in ('Err.0',):
                    t = ('f', t, e)
                continue
            if t[0] == 'never':
                return t
            if t[0] == 'agg' and not e.startswith('['):
                nm = e.split('.')[-1]
                if '.' in e and '::' in t[1] and not t[1].startswith('c') and t[1].split('::')[-1] != e.split('.')[0]:
                    return ('never',)
                if nm in t[3]:
                    t = t[2][t[3].index(nm)]
                    continue
                if nm.isdigit() and int(nm) < len(t[2]):
                    t = t[2][int(nm)]
                    continue
            if t[0] == 'phi':
                t = ('phi', frozenset(self._proj(x, (e,), b, i) for x in t[1]) - {('never',), ('loop',)})
                if len(t[1]) == 1:
                    t = next(iter(t[1]))
                elif not t[1]:
                    t = ('unk',)
                continue
            if t[0] == 'upd' and not e.startswith('['):
                base = self._proj(t[1], (e,), b, i)
                us = set()
                for u in t[2]:
                    if u[0] == 'set':
                        hd = u[1].split('/')[0]
                        if hd == e:
                            us.add(('set', '/'.join(u[1].split('/')[1:])) + u[2:])
                        elif hd == '' or hd == '[]':
                            us.add(u)
                    else:
                        us.add(u)
                        if u[0] == 'mut' and u[1][0] == 'call' and u[1][1].startswith('@'):
                            us.add(('at', e, ('self',)))
                t = ('upd', base, frozenset(us)) if us else base
                continue
            if t[0] in ('unk', 'loop', 'never'):
                t = ('f', ('unk',), e)
                continue
            if e.startswith('[#') and e[2:-1].isdigit():
                t = ('idx', t, ('c', int(e[2:-1]), 'usize'))
                continue
            t = ('f', t, e)
        return t

    # ------------------------------------------------------------ atoms
    def atoms(self, t):
        a = self.atm.get(t)
        if a is not None:
            return a
        k = t[0]
        s = set()
        if k == 'p':
            s.add('p%d' % t[1])
        elif k == 'n':
            s.add(t[1].split('::')[-1])
        elif k == 'c':
            s.add('#%d' % t[1])
        elif k == 's':
            if t[1] and t[1].startswith('"'):
                s.add(t[1])
        elif k == 'fn':
            s.add(last2(t[1]) + '()')
        elif k == 'f':
            s |= self.atoms(t[1])
            s.add(t[2])
        elif k == 'idx':
            s |= self.atoms(t[1])
            s |= {x if x.startswith('#') is False else '[' + x + ']' for x in self.atoms(t[2])}
        elif k == 'call':
            s.add(t[1] + '()')
            for x in t[2]:
                s |= self.atoms(x)
        elif k == 'bin':
            s |= self.atoms(t[2]) | self.atoms(t[3])
            s.add('op:' + t[1])
        elif k == 'un':
            s |= self.atoms(t[2])
            s.add('op:' + t[1])
        elif k == 'cast':
            s |= self.atoms(t[1])
        elif k == 'agg':
            for x in t[2]:
                s |= self.atoms(x)
            if not t[1].startswith(('closure', 'coroutine')):
                s.add(t[1] + '{}')
        elif k == 'discr':
            s |= self.atoms(t[1])
        elif k in ('phi',):
            for x in t[1]:
                s |= self.atoms(x)
        elif k == 'upd':
            s |= self.atoms(t[1])
            for u in t[2]:
                s |= self.atoms(u[-1])
                if u[0] == 'set' and u[1]:
                    s |= {x for x in u[1].split('/') if x}
        elif k == 'elem':
            s |= self.atoms(t[1])
        elif k == 'rep':
            s |= self.atoms(t[1])
        elif k == 'big':
            s |= t[1]
        a = frozenset(s)
        self.atm[t] = a
        return a

    # ------------------------------------------------------------ integer linear form
    def lin(self, t):
        """-> ({term: coef}, const)"""
        if t[0] == 'c':
            return {}, t[1]
        if t[0] == 'cast' and isinstance(t[1], tuple):
            return self.lin(t[1])
        if t[0] == 'bin' and t[1] in ('Add', 'Sub'):
            a, c = self.lin(t[2])
            b, d = self.lin(t[3])
            sg = 1 if t[1] == 'Add' else -1
            r = dict(a)
            for x, v in b.items():
                r[x] = r.get(x, 0) + sg * v
                if r[x] == 0:
                    del r[x]
            return r, c + sg * d
        if t[0] == 'bin' and t[1] == 'Mul':
            a, c = self.lin(t[2])
            b, d = self.lin(t[3])
            if not a:
                return {x: v * c for x, v in b.items() if v * c}, c * d
            if not b:
                return {x: v * d for x, v in a.items() if v * d}, c * d
        return {t: 1}, 0

    # ------------------------------------------------------------ literals
    # ('cmp', rel, pos, neg, c): sum(pos) - sum(neg) + c  rel  0   with rel in le, eq, ne
    def cmp_lit(self, op, L, R, signed=False):
        a, c = self.lin(L)
        b, d = self.lin(R)
        r = dict(a)
        for x, v in b.items():
            r[x] = r.get(x, 0) - v
            if r[x] == 0:
                del r[x]
        k = c - d
        pos = tuple(sorted((x for x, v in r.items() for _ in range(v if v > 0 else 0)), key=repr))
        neg = tuple(sorted((x for x, v in r.items() for _ in range(-v if v < 0 else 0)), key=repr))
        if len(pos) > 6 or len(neg) > 6:
            pos, neg, k = (L,), (R,), 0
        if not r and L != R:
            pass
        if not pos and not neg and L == R and self.size(L) > 1:
            pos, neg, k = (L,), (R,), 0   # two reads of the same expression: keep both sides visible
        if op == 'lt':
            return self.norm(('cmp', 'le', pos, neg, k + 1), signed)
        if op == 'le':
            return self.norm(('cmp', 'le', pos, neg, k), signed)
        if op == 'gt':
            return self.norm(('cmp', 'le', neg, pos, -k + 1), signed)
        if op == 'ge':
            return self.norm(('cmp', 'le', neg, pos, -k), signed)
        if not pos and neg or (not pos and not neg and k < 0):
            pos, neg, k = neg, pos, -k
        return ('cmp', op, pos, neg, k)

    def norm(self, l, signed):
        _, rel, pos, neg, k = l
        if not signed:
            if not pos and len(neg) == 1 and k == 1:
                return ('cmp', 'ne', neg, (), 0)
            if not neg and len(pos) == 1 and k == 0:
                return ('cmp', 'eq', pos, (), 0)
        return l

    @staticmethod
    def neg(l):
        if l[0] == 'cmp':
            _, rel, p, n, k = l
            if rel == 'eq':
                return ('cmp', 'ne', p, n, k)
            if rel == 'ne':
                return ('cmp', 'eq', p, n, k)
            r = ('cmp', 'le', n, p, -k + 1)
            if not r[2] and len(r[3]) == 1 and r[4] == 1:
                return ('cmp', 'ne', r[3], (), 0)
            if not r[3] and len(r[2]) == 1 and r[4] == 0:
                return ('cmp', 'eq', r[2], (), 0)
            return r
        if l[0] == 't':
            return ('f', l[1])
        if l[0] == 'f':
            return ('t', l[1])
        if l[0] == 'is':
            return ('isnot', l[1], frozenset([l[2]]), l[3])
        return ('not', l)

    CMPOPS = {'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge', 'Eq': 'eq', 'Ne': 'ne'}

    def bool_lit(self, t, pol):
        if t[0] == 'un' and t[1] == 'Not':
            return self.bool_lit(t[2], not pol)
        if t[0] == 'upd' and False:
            return self.bool_lit(t[1], pol)
        if t[0] == 'bin' and t[1] in self.CMPOPS:
            # comparison of a bool with a constant
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if t[1] in ('Eq', 'Ne') and y[0] == 'c' and y[2] == 'bool':
                    return self.bool_lit(x, pol == ((y[1] == 1) == (t[1] == 'Eq')))
            l = self.cmp_lit(self.CMPOPS[t[1]], t[2], t[3], t[4].startswith('i'))
            return l if pol else self.neg(l)
        if t[0] == 'call':
            nm = t[1].split('::')[-1]
            if nm in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and len(t[2]) == 2:
                l = self.cmp_lit(nm, t[2][0], t[2][1])
                return l if pol else self.neg(l)
            if nm == 'is_empty' and len(t[2]) == 1:
                l = ('cmp', 'eq', (('call', 'len', (t[2][0],)),), (), 0)
                return l if pol else self.neg(l)
        return ('t', t) if pol else ('f', t)

    def edge_lits(self, b):
        """[literal per successor] of a switch/choice/assert block"""
        r = self.litc.get(b)
        if r is not None:
            return r
        t = self.fl.blocks[b].t
        n = len(self.fl.blocks[b].s)
        r = []
        if t[0] == 'choice':
            r = [('choice', l) for l, _ in t[1]]
        elif t[0] == 'switch':
            term = self.at(t[1], b, n)
            if term[0] == 'discr':
                vs = self.fl.F.variants(term[2]) or {}
                inner = term[1]
                names = [vs.get(v, v) for v, _ in t[2]]
                rest = [x for d, x in vs.items() if d not in [v for v, _ in t[2]]]
                for nm in names:
                    r.append(self.is_lit(inner, nm, term[2], names, vs, len(term) > 3))
                if t[3] is not None:
                    if len(rest) == 1:
                        r.append(self.is_lit(inner, rest[0], term[2], names, vs, len(term) > 3))
                    else:
                        r.append(('isnot', inner, frozenset(names), term[2]))
            elif t[4] == 'bool':
                for v, _ in t[2]:
                    r.append(self.bool_lit(term, v != '0'))
                if t[3] is not None:
                    r.append(self.bool_lit(term, t[2][0][0] == '0'))
            else:
                for v, _ in t[2]:
                    try:
                        r.append(self.cmp_lit('eq', term, ('c', int(v), '')))
                    except ValueError:
                        r.append(('t', term))
                if t[3] is not None:
                    if len(t[2]) == 1:
                        r.append(self.neg(r[0]))
                    else:
                        r.append(('other', term, frozenset(v for v, _ in t[2])))
        self.litc[b] = r
        return r

    def is_lit(self, inner, name, adt, names, vs, nested=False):
        last = split_path(adt)[-1]
        if last == 'Ordering' and inner[0] == 'call' and inner[1].split('::')[-1] in ('cmp', 'partial_cmp', 'total_cmp') and len(inner[2]) == 2:
            a, b = inner[2]
            return self.cmp_lit({'Less': 'lt', 'Equal': 'eq', 'Greater': 'gt'}[name], a, b)
        return ('is', inner, name, last, 1) if nested else ('is', inner, name, last)

    # ------------------------------------------------------------ printing
    def show(self, t, d=0):
        k = t[0]
        if d > 7:
            return '…'
        s = lambda x: self.show(x, d + 1)
        if k == 'p':
            nm = self.fl.vname[self.fl.root_off + t[1]]
            return nm or 'p%d' % t[1]
        if k == 'n':
            return t[1].split('::')[-1]
        if k == 'c':
            return str(t[1])
        if k == 's':
            return str(t[1])[:40]
        if k == 'fn':
            return last2(t[1])
        if k == 'f':
            return s(t[1]) + '.' + t[2].split('.')[-1]
        if k == 'idx':
            return '%s[%s]' % (s(t[1]), s(t[2]))
        if k == 'call':
            return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2]))
        if k == 'bin':
            return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
        if k == 'un':
            return '%s(%s)' % (t[1], s(t[2]))
        if k == 'cast':
            return '%s as %s' % (s(t[1]), t[2])
        if k == 'agg':
            return '%s{%s}' % (t[1].split('::{')[0], ', '.join(s(x) for x in t[2]))
        if k == 'discr':
            return 'discr(%s)' % s(t[1])
        if k == 'phi':
            return 'φ(%s)' % ' | '.join(sorted(s(x) for x in t[1]))
        if k == 'upd':
            return '%s⊕{%s}' % (s(t[1]), '; '.join(sorted((u[1] + ':=' if u[0] == 'set' else '~') + s(u[-1]) for u in t[2])))
        if k == 'elem':
            return 'each ' + s(t[1])
        if k == 'rep':
            return '[%s; %s]' % (s(t[1]), t[2])
        if k == 'big':
            return 'BIG<%d>' % len(t[1])
        return k

    def show_lit(self, l):
        if l[0] == 'cmp':
            _, rel, p, n, c = l
            a = ' + '.join(self.show(x) for x in p) or '0'
            b = ' + '.join(self.show(x) for x in n)
            rhs = ((b + ' ') if b else '') + (('%+d' % -c) if (c or not b) else '')
            return '%s %s %s' % (a, {'le': '<=', 'eq': '==', 'ne': '!='}[rel], rhs)
        if l[0] in ('t', 'f'):
            return ('' if l[0] == 't' else '!') + self.show(l[1])
        if l[0] == 'is':
            return '%s is %s' % (self.show(l[1]), l[2])
        if l[0] == 'isnot':
            return '%s is not %s' % (self.show(l[1]), '/'.join(sorted(l[2])))
        if l[0] == 'choice':
            return 'choice:' + l[1]
        if l[0] == 'other':
            return '%s not in %s' % (self.show(l[1]), sorted(l[2]))
        return str(l)[:80]
