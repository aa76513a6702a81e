"""Explicit panics reachable from untrusted input.

From the functions that receive untrusted bytes a call graph is followed (resolved calls, closures, and for calls through a
trait every implementation in the workspace). An explicit panic is a call that cannot return (`panic!`, `unreachable!`,
`assert!`, `process::exit`) or an `unwrap`/`expect`. An unwrap is not counted when a test of the same place decides on
every path that leads to it, nor are the ones that a library macro puts into its own state machine."""
import re
from facts import simp, strip_generics, split_path
from locks import fnpath, locktype

PANIC = re.compile(r'(^|::)panicking::\w+$|(^|::)begin_panic|(^|::)panic_any$|process::(exit|abort)$|intrinsics::abort$')
UNWRAP = re.compile(r'(^|::)(Option|Result)::(unwrap|expect|unwrap_err|expect_err)$')
LIBMACRO = re.compile(r'^(tokio|futures)\b|try_join|^select$|join!?$|^(event|debug|info|trace|warn|error|span|instrument)$|tracing|^(lazy_static|thread_local)$|^pin$|write!|format_args')
SKIP = ('fr_asn_types', 'fr_test_utils', 'fr_node_bench', 'fr_codec_derive')
HOP = re.compile(r'(^|::)(as_ref|as_mut|clone|deref|deref_mut|borrow|as_deref|iter|as_slice|copied|cloned|last|first|get|get_mut|last_mut|pop|pop_front|pop_back|take|into_iter|next|max|min|front|back|'
                 r'is_some|is_none|is_ok|is_err|is_empty|len|contains_key|contains|branch|from_residual|not|max_by_key|min_by_key|remove|as_bytes|keys|values|peek|div_ceil|next_multiple_of|checked_\w+|saturating_\w+|wrapping_\w+|into|from|try_into|try_from|unwrap_or|unwrap_or_default|unwrap|expect|ok|ok_or|map_err|enumerate|zip|skip|rev|chunks|chunks_exact)$')


ALLOC = re.compile(r'(?:^|::)(with_capacity|from_elem|resize|reserve|reserve_exact|with_capacity_and_hasher)$')
SLICE = re.compile(r'(?:^|::)(slice::index::\[T\]::index|\[T\]::(?:index|index_mut|split_at|split_at_mut)|Vec::(?:index|index_mut|split_off|drain|remove|insert|swap_remove))$')


class Panics:
    def __init__(self, F):
        self.F = F
        self.ids = [i for i in F.index if F.index[i][1]['crate'] not in SKIP and '::tests::' not in i and 'test_utils' not in i]
        self.set = set(self.ids)
        self._c = {}
        self._impls = None

    def impls(self, p):
        """implementations of a trait function called without a known receiver type"""
        if self._impls is None:
            self._impls = {}
            for i in self.ids:
                if not i.startswith('<') and '<impl ' not in i:
                    continue
                b = self.F.body(i)
                if b.trait and b.kind == 'AssocFn':
                    k = (strip_generics(b.trait).split('::')[-1], strip_generics(i).split('::')[-1])
                    self._impls.setdefault(k, []).append(i)
        n = simp(p).split('::')
        return self._impls.get((n[-2], n[-1]), []) if len(n) > 1 else []

    def scan(self, i):
        r = self._c.get(i)
        if r is None:
            b = self.F.body(i)
            out, pan = set(), []
            for bi, bb in enumerate(b.bbs):
                if bb[2]:
                    continue
                for s in bb[0]:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] in ('closure', 'coroutine'):
                        out.add(s[2][1][1])
                    elif s[0] == '=':
                        for o in self.fnops(s[2]):
                            out.add(o)
                t = bb[1]
                if t[0] != 'call':
                    continue
                for o in t[2]:
                    q = fnpath(o)
                    if q:
                        out.add(q)
                p = fnpath(t[1])
                if p is None:
                    continue
                if p in self.set:
                    out.add(p)
                elif not (t[1][1][2]):
                    c = self.impls(p)
                    if p.split('::')[-1] == 'from' and t[3] and len(t[3]) == 1:
                        # a conversion to a known type
                        to = b.ty(t[3][0])
                        c = [x for x in c if self.F.body(x).ty(0) == to] or c
                    out.update(c)
                else:
                    out.add(p)
                s = simp(p)
                if PANIC.search(s):
                    kind = 'panic'
                elif UNWRAP.search(s):
                    kind = s.split('::')[-1].split('_')[0] + ' ' + self.recv(b, t)
                    kind = 'unwrap' + kind[len(kind.split(' ')[0]):]
                else:
                    continue
                mac = b.macros(t[5])
                if any(LIBMACRO.search(m) for m in mac):
                    continue
                if kind != 'panic' and ('TryFromSliceError' in kind or self.decided(b, bi, t)):
                    continue
                pan.append((kind, b.loc(t[5])))
            r = self._c[i] = (out & self.set, pan)
        return r

    @staticmethod
    def fnops(rv):
        for o in rv[1:]:
            if isinstance(o, list) and o and o[0] == 'k' and isinstance(o[1], list):
                q = fnpath(o)
                if q:
                    yield q
            elif isinstance(o, list):
                for x in o:
                    if isinstance(x, list) and x and x[0] == 'k' and isinstance(x[1], list):
                        q = fnpath(x)
                        if q:
                            yield q

    def recv(self, b, t):
        o = t[2][0]
        if o[0] in 'mc':
            return locktype(b.ty(o[1][0]))[:120]
        return '?'

    # ---- is the unwrapped place decided by a test that dominates it?
    @staticmethod
    def defs(b):
        defs = {}
        for bi, bb in enumerate(b.bbs):
            for s in bb[0]:
                if s[0] == '=' and len(s[1]) == 1:
                    defs.setdefault(s[1][0], []).append(('s', s[2]))
            x = bb[1]
            if x[0] == 'call' and len(x[3]) == 1:
                defs.setdefault(x[3][0], []).append(('c', x))
        return defs

    def decided(self, b, blk, t, which=(0,), compared=False):
        os = [t[2][w] for w in which if w < len(t[2]) and t[2][w][0] in ('m', 'c')]
        if not os:
            return False
        defs = self.defs(b)
        mine = set()
        for o in os:
            mine |= self.roots(b, defs, o[1])
        dom = self.doms(b)
        for d in dom.get(blk, ()):
            x = b.bbs[d][1]
            if d == blk or x[0] != 'switch':
                continue
            c = x[1]
            if c[0] in ('m', 'c') and (not compared or b.ty(c[1][0]) == 'bool') and self.roots(b, defs, c[1]) & mine:
                return True
        return False

    def roots(self, b, defs, place, depth=0, seen=None):
        """places that a value was taken from, through references, copies and plain accessors"""
        seen = set() if seen is None else seen
        k = tuple(str(x) for x in place if x != '*')
        if k in seen or depth > 14:
            return set()
        seen.add(k)
        l = place[0]
        out = set()
        rest = [x for x in place[1:] if x != '*']
        ds = defs.get(l, [])
        if rest:
            out.add((l,) + tuple(str(x) for x in rest))
        if not ds or l <= b.argc or len(ds) > 2:
            out.add((l,) + tuple(str(x) for x in rest))
            return out
        for kind, d in ds:
            if kind == 's':
                for o in self.ops(d):
                    for r in self.roots(b, defs, o, depth + 1, seen):
                        out.add(r)
                        if rest:
                            out.add(r + tuple(str(x) for x in rest))
            else:
                p = fnpath(d[1])
                if p and HOP.search(simp(p)) and d[2] and d[2][0][0] in ('m', 'c'):
                    out |= self.roots(b, defs, d[2][0][1], depth + 1, seen)
                else:
                    out.add((l,))
        return out

    @staticmethod
    def ops(rv):
        k = rv[0]
        r = []

        def walk(o):
            if isinstance(o, list) and o:
                if o[0] in ('m', 'c') and len(o) > 1 and isinstance(o[1], list):
                    r.append(o[1])
                    return
                if isinstance(o[0], int) and k in ('ref', 'refmut', 'discr', 'len', 'addr', 'rawptr'):
                    r.append(o)
                    return
                for y in o:
                    walk(y)
        for o in rv[1:]:
            walk(o)
        return r

    def doms(self, b):
        n = len(b.bbs)
        succ = [[] for _ in range(n)]
        for i, bb in enumerate(b.bbs):
            t = bb[1]
            k = t[0]
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                s = [x[1] for x in t[3]] + ([t[4]] if t[4] is not None else [])
            elif k == 'call':
                s = [t[4]] if t[4] is not None else []
            elif k == 'drop':
                s = [t[2]]
            elif k == 'assert':
                s = [x for x in t[1:] if isinstance(x, int)][-1:]
            elif k == 'yield':
                s = [x for x in t[1:] if isinstance(x, int)][:1]
            else:
                s = [x for x in t[1:] if isinstance(x, int)]
            succ[i] = [x for x in s if x is not None]
        order, seen, st = [], {0}, [(0, iter(succ[0]))]
        while st:
            x, it = st[-1]
            y = next(it, None)
            if y is None:
                order.append(x)
                st.pop()
            elif y not in seen:
                seen.add(y)
                st.append((y, iter(succ[y])))
        order.reverse()
        pred = {}
        for x in seen:
            for y in succ[x]:
                pred.setdefault(y, []).append(x)
        dom = {x: None for x in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for x in order[1:]:
                ps = [dom[p] for p in pred.get(x, []) if p in dom and dom[p] is not None]
                if not ps:
                    continue
                d = set.intersection(*ps) | {x}
                if d != dom[x]:
                    dom[x] = d
                    ch = True
        return {x: d for x, d in dom.items() if d}

    # ---- decoders: memory sized by, and slices cut at, lengths that nothing has checked
    def unchecked(self, i):
        """-> [(what, at)], sites looked at"""
        b = self.F.body(i)
        out, n = [], 0
        defs = None
        for bi, bb in enumerate(b.bbs):
            t = bb[1]
            if bb[2] or t[0] != 'call':
                continue
            p = fnpath(t[1])
            s = simp(p) if p else ''
            m = ALLOC.search(s)
            x = None if m else SLICE.search(s)
            if not m and not x or any(LIBMACRO.search(y) for y in b.macros(t[5])):
                continue
            n += 1
            defs = defs or self.defs(b)
            if m:
                w = {'with_capacity': 0, 'from_elem': 1, 'with_capacity_and_hasher': 0}.get(m.group(1), 1)
                if w < len(t[2]) and self.loose(b, defs, t[2][w]) and not self.decided(b, bi, t, (w,), True):
                    out.append(('memory is reserved for a length taken from the input before it is compared with what is there', b.loc(t[5])))
            else:
                if len(t[2]) > 1 and self.loose(b, defs, t[2][1]) and not self.decided(b, bi, t, (0, 1), True):
                    out.append(('a slice is cut at an unchecked position taken from the input', b.loc(t[5])))
        return out, n

    def loose(self, b, defs, o, depth=0, seen=None):
        """does an operand depend on a decoded value or on an argument, other than through `min` or the length of something held"""
        seen = set() if seen is None else seen
        if o[0] not in ('m', 'c') or depth > 14:
            return False
        l = o[1][0]
        if l in seen:
            return False
        seen.add(l)
        ds = defs.get(l, [])
        if not ds:
            return 1 <= l <= b.argc and not b.ty(l).startswith('&')
        for kind, d in ds:
            if kind == 's':
                for pl in self.ops(d):
                    if self.loose(b, defs, ['c', pl], depth + 1, seen):
                        return True
            else:
                p = fnpath(d[1])
                s = simp(p) if p else ''
                if re.search(r'(^|::)(min|clamp|len|remaining_len|size_hint|capacity|saturating_sub|count_ones|position|enumerate)$', s):
                    continue
                if re.search(r'(^|::)(decode|decode_fixed|read_byte|read|get_u\w+|from_le_bytes|integer_decode)$', s):
                    return True
                if any(self.loose(b, defs, a, depth + 1, seen) for a in d[2]):
                    return True
        return False

    def reach(self, rx):
        r = re.compile(rx)
        seen = {i for i in self.ids if r.search(simp(i))}
        roots = len(seen)
        st = list(seen)
        while st:
            x = st.pop()
            for c in self.scan(x)[0]:
                if c not in seen:
                    seen.add(c)
                    st.append(c)
        return roots, seen

    def zone(self, rx):
        """-> number of entry functions, functions reached, {(crate, kind): [(function, at)]}"""
        n, R = self.reach(rx)
        sites = {}
        for i in sorted(R):
            for kind, at in self.scan(i)[1]:
                sites.setdefault((self.F.index[i][1]['crate'], kind), []).append((re.sub(r'(::\{closure#\d+\})+', '', simp(i)), at))
        return n, R, sites
