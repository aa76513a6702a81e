"""Semantic summary of one root function, computed from the flattened, path-sensitive view.

  rejects  decisions after which only a failing outcome is possible, as the set of conditions that
           lead there
  effects  calls and writes that change something outside the function, with the conditions that
           guard them and the conditions under which they are skipped
  selects  values chosen between alternatives, with the conditions that choose them
  rets     what the returned value is made of
"""
import hashlib
import order
import re
from facts import simp, split_path, MissingAnchor
from flow import Flow
from terms import Terms, SEMANTIC_STD, PAYLOAD
from explode import Exploded

TRACE = ('tracing', 'event', 'span', 'enabled', 'debug', 'info', 'warn', 'error', 'trace', 'instrument', 'valueset', 'level_enabled',
         'println', 'eprintln', 'print', 'log')
STD_ROOTS = {'std', 'core', 'alloc', 'tokio', 'rayon', 'futures', 'futures_util', 'tracing', 'async_trait', 'either', 'itertools', 'adaptor',
             'tracing_core', 'thiserror', 'anyhow', 'bitvec', 'log', 'once_cell', 'serde', 'serde_json', '<callable>'}
# library calls that only move, view, build or size data
PLUMB = {'get', 'get_mut', 'first', 'last', 'len', 'windows', 'first_mut', 'last_mut', 'next', 'is_some', 'take', 'insert', 'push', 'position',
         'enumerate_index', 'extend', 'split_first', 'split_last', 'split_at', 'nth', 'collect', 'front', 'back', 'chunks', 'sort', 'dedup'}
MUT_EVENTS = {'insert', 'remove', 'push', 'extend', 'clear', 'retain', 'truncate', 'pop', 'drain', 'append', 'swap', 'reverse', 'resize',
              'fill', 'copy_from_slice', 'clone_from_slice', 'push_back', 'push_front', 'pop_front', 'pop_back', 'swap_remove', 'split_off',
              'entry', 'or_insert', 'or_default', 'or_insert_with', 'extend_from_slice', 'set', 'rotate_left', 'rotate_right', 'take', 'replace',
              'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'dedup', 'fetch_add', 'fetch_sub', 'store', 'send', 'try_send', 'copy_within',
              'write_all', 'flush', 'write_u32_le', 'write_u32', 'write_u8', 'shutdown', 'pop_first', 'pop_last', 'append_row', 'iter_mut', 'get_mut', 'get_or_insert_with'}
ADD = {'push', 'extend', 'insert', 'push_back', 'extend_from_slice', 'collect', 'append', 'or_insert', 'or_insert_with', 'or_default', 'from_iter'}
NEUTRAL_MUT = {'sort', 'iter_mut', 'get_mut', 'entry', 'sort_unstable', 'dedup', 'sort_by', 'sort_by_key'}
QUERY = re.compile(r'^(get|is|has|len|new|from|to|as|try_from|encode|decode|hash|default|clone|eq|ne|cmp|lt|le|gt|ge|into|iter|contains|read|peek|fmt|'
                   r'deref|borrow|with_capacity|size|find|index|capacity|first|last|min|max|count|with|keys|values|lookup|verify|validate|check)(_|$)')
MUTNAME = re.compile(r'^(set|add|sub|remove|insert|update|commit|apply|prepare|rollback|delete|clear|push|save|store|put|write|send|spawn|create|'
                     r'append|finali|restore|stage|transition|mark|bump|reset|rotate|nullify|charge|process|execute|run|handle|invalidate|flush|sync|merge|'
                     r'drop_cf|connect|accept|open_bi|finish|close)')
VERIFY = re.compile(r'(^|_)(verify|validate|check|authenticate)(_|$)')
NEG_KINDS = {'Err', 'None', '0'}
SUBKIND = re.compile(r'^(Ok|Some)\((.*)\)$')


def is_neg(k):
    if k in NEG_KINDS or k == 'panic':
        return True
    m = SUBKIND.match(k)
    return bool(m) and is_neg(m.group(2))


WS_PLUMB = {'iter', 'iter_mut', 'len', 'into_iter', 'as_slice', 'inner', 'into_inner', 'as_ref', 'as_mut', 'deref', 'deref_mut', 'to_vec', 'as_bytes',
            'is_empty', 'clone', 'get_ref', 'borrow', 'from_iter', 'into_vec', 'as_mut_slice'}
# fields that only hold a shared handle to a component
HANDLES = {'state_manager', 'storage', 'state_db', 'merkle_db', 'header_db', 'merkle_manager', 'header_manager'}


# two-argument library operations whose arguments cannot change places
ORDERED = {'saturating_sub', 'checked_sub', 'wrapping_sub', 'overflowing_sub', 'pow', 'checked_pow', 'wrapping_shl', 'wrapping_shr', 'rotate_left', 'rotate_right',
           'div_ceil', 'checked_div', 'wrapping_div', 'wrapping_rem', 'checked_rem', 'rem_euclid', 'is_subset', 'is_superset', 'difference', 'starts_with', 'ends_with',
           'is_multiple_of', 'cmp', 'partial_cmp', 'skip', 'take', 'step_by', 'chunks', 'windows', 'split_at', 'nth', 'div_floor', 'saturating_pow'}
ERRLAB = re.compile(r'^(?!WorkExecutionError)\w*Error(::\w+)?$')
BENIGN_ATOMS = {'#0', '#1', '#2'}


def tag(name, atoms):
    a = sorted(a for a in atoms if a not in BENIGN_ATOMS and '@' not in a and '=[' not in a and not a.startswith('seq:'))
    if len(a) > 10:
        return '%s[*]' % name
    x = ' '.join(a)
    if len(x) > 90:
        x = hashlib.sha1(x.encode()).hexdigest()[:12]
    return '%s[%s]' % (name, x)


def mtag(name, atoms):
    r = tag(name, atoms)
    if r.endswith('[*]'):
        x = sorted(a for a in atoms if a.startswith('ix:'))
        if x:
            r = '%s[* %s]' % (name, ' '.join(x))
    return r


NOLAB = ('closure', 'coroutine', 'tuple', 'array', 'Option', 'Result', 'ControlFlow', 'Poll', 'Range', 'rawptr')


class Sig:
    """significant atoms of terms"""

    def __init__(self, T, extra_plumb=()):
        self.T = T
        T.sig = self
        self.m = {}
        self.plumb = PLUMB | set(extra_plumb)
        fl = T.fl
        self.has_self = fl.nparams > 0 and fl.vname[fl.root_off + 1] == 'self'
        ty = {i: re.sub(r"^(&('\w+ )?(mut )?)+|<.*", '', fl.vty[fl.root_off + i]).split('::')[-1] for i in range(1, fl.nparams + 1)}
        # parameters of the same type: a field read from one is not the field of the other
        self.twins = {i for i in ty for j in ty if i != j and ty[i] == ty[j]}

    def of(self, t):
        r = self.m.get(t)
        if r is None:
            r = frozenset(self._of(t))
            self.m[t] = r
        return r

    def atom_ok(self, a):
        return a

    def field(self, e):
        if e.split('.')[-1] in HANDLES and not e.startswith('AccountSandbox'):
            return None
        if e in PAYLOAD or e.startswith('[') or e.startswith('^'):
            return None
        h = e.split('.')[-1]
        if h.isdigit():
            return None
        return e

    def path_field(self, e):
        return self.field(e)

    def call(self, nm):
        last = nm.split('::')[-1]
        if nm.startswith('@'):
            return None if last in WS_PLUMB else nm[1:]
        if last in SEMANTIC_STD and last not in self.plumb:
            return last
        return None

    def _of(self, t):
        k = t[0]
        s = set()
        if k == 'p':
            if t[1] > 0 and not (t[1] == 1 and self.has_self):
                s.add('p%d' % t[1])
        elif k == 'n':
            s.add(t[1].split('::')[-1])
        elif k == 'c':
            s.add('#%d' % t[1])
        elif k == 's':
            v = t[1]
            if v and (v.startswith('"') or v.startswith('b"') or v.startswith("b'")):
                s.add(v[:60])
        elif k == 'fn':
            s.add('fn:' + t[1].split('::')[-1])
        elif k == 'f':
            s |= self.of(t[1])
            f = self.field(t[2])
            if f:
                s.add(f)
                if self.twins:
                    x = t[1]
                    while x[0] == 'f' and x[2] in PAYLOAD:
                        x = x[1]
                    if x[0] == 'p' and x[1] in self.twins:
                        s.add('p%d:%s' % (x[1], f))
            elif t[2].isdigit():
                x = t[1]
                while x[0] == 'f' and x[2] in PAYLOAD:
                    x = x[1]
                if x[0] == 'call' and x[1].startswith('@') and self.call(x[1]):
                    s.add('%s.%s' % (x[1].split('::')[-1], t[2]))
                elif x[0] == 'p' and x[1] > 0 and not (x[1] == 1 and self.has_self):
                    s.add('p%d.%s' % (x[1], t[2]))
        elif k == 'idx':
            s |= self.of(t[1])
            s |= {x for x in self.of(t[2]) if not x.startswith(('#', '*')) and x != 'op:Add' and x != 'op:Mul'}
            s |= self.ixmark(t[2], t[1])
            o, w = self.of(t[1]), self.of(t[2])
            if t[2][0] == 'agg' and o and o < w and w - o - BENIGN_ATOMS:
                s.add(tag('of', o))
        elif k == 'call':
            c = self.call(t[1])
            last = t[1].split('::')[-1]
            if last in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'is_empty') and not t[1].startswith('@') and t[2]:
                return self.cond(t)
            ints = []
            ws = t[1].startswith('@')
            for n, x in enumerate(t[2]):
                if x[0] == 'c' and c and ws:
                    ints.append(str(x[1]))
                else:
                    o = self.of(x)
                    s |= o
                    if c and n and x[0] == 'c' and last in ORDERED:
                        s.add('%s@%d[=%d]' % (last, n, x[1]))
                    elif c and n and o and ((ws and len(t[2]) > 1) or last in ORDERED):
                        s.add(tag('%s@%d' % (last, n), o))
            if last == 'chain' and not ws and len(t[2]) == 2:
                parts = [t[2][1]]
                h = t[2][0]
                while h[0] == 'call' and h[1].split('::')[-1] == 'chain' and len(h[2]) == 2:
                    parts.insert(0, h[2][1])
                    h = h[2][0]
                q = self.seqmark((None, None, [h] + parts))
                if q:
                    s.add(q)
            if last in ('max', 'min') and not ws and c:
                for x in t[2]:
                    if x[0] != 'c':
                        s.add(tag(last + '@', self.of(x)))
            if last in ('get', 'get_mut', 'nth') and not ws and len(t[2]) == 2:
                s |= self.ixmark(t[2][1], t[2][0])
            if last in ('last', 'last_mut', 'pop', 'pop_back', 'back', 'back_mut', 'next_back') and not ws:
                s.add('ix:last')
            if c:
                s.add('%s(%s)' % (c, ','.join(ints)))
        elif k == 'bin' and t[1] in self.T.CMPOPS:
            return self.cond(t)
        elif k == 'bin' and t[1] in ('Add', 'Sub'):
            L, c = self.T.lin(t)
            for x, v in L.items():
                o = self.of(x)
                s |= o
                if v < 0:
                    s.add(tag('op:Sub', o))
                if abs(v) != 1:
                    s.add('#%d' % abs(v))
                    s.add('op:Mul')
                    if abs(v) == 2:
                        s.add('*2')
                    if len(L) > 1:
                        s.add(mtag('op:Mul%d' % abs(v), o))
            if c:
                s.add('#%d' % abs(c))
                if abs(c) > 1:
                    s.add('op:Add[=%d]' % c)
            if len(L) > 1 or (L and c > 0):
                s.add('op:Add')
            elif c < 0:
                s.add('op:Sub')
        elif k == 'bin' and t[1] in ('Div', 'Rem', 'Shl', 'Shr'):
            s |= self.of(t[2]) | self.of(t[3])
            s.add(tag('op:' + t[1], self.of(t[3])) if t[3][0] != 'c' else 'op:%s[=%d]' % (t[1], t[3][1]))
            if t[2][0] == 'c' and t[2][1] < 3:
                s.add('%d:%s' % (t[2][1], t[1]))
        elif k == 'bin' and t[1] == 'Mul':
            fs = self.factors(t)
            w = [self.of(x) for x in fs]
            s |= set().union(*w)
            s.add('op:Mul')
            w = [o for x, o in zip(fs, w) if x[0] != 'c']
            if len(w) > 1:
                s.add('|'.join(sorted(mtag('op:Mul', o) for o in w)))
            if any(x[0] == 'c' and x[1] == 2 for x in fs):
                s.add('*2')
        elif k == 'bin':
            s |= self.of(t[2]) | self.of(t[3])
            s.add('op:' + t[1])
            for x in t[2:4]:
                if x[0] == 'c' and x[1] < 3:
                    s.add('%d:%s' % (x[1], t[1]))
        elif k == 'un':
            if t[1] == 'Not' and t[2][0] in ('bin', 'call', 'un') and (t[2][0] != 'bin' or t[2][1] in self.T.CMPOPS):
                l = self.T.bool_lit(t, True)
                if l[0] == 'cmp':
                    return self.cond(t)
                if l[0] in 'tf':
                    s |= self.of(l[1])
                    if l[0] == 'f':
                        s.add('op:Not')
                    return s
            s |= self.of(t[2])
            if t[1] != 'PtrMetadata':
                s.add('op:' + t[1])
        elif k == 'cast':
            s |= self.of(t[1])
            fr, to = t[3], t[2]
            if narrowing(fr, to):
                s.add('as:' + to)
        elif k == 'agg':
            for x in t[2]:
                s |= self.of(x)
            lab = t[1]
            if lab == 'array':
                q = self.seqmark(t)
                if q:
                    s.add(q)
            if t[3] and len(t[2]) > 1 and not lab.startswith(NOLAB):
                for nm, x in zip(t[3], t[2]):
                    o = {a for a in self.of(x) if '=' not in a and not a.startswith('seq:')}
                    if o - BENIGN_ATOMS:
                        s.add(tag('%s.%s=' % (lab.split('::')[-1], nm), o))
                    elif x[0] == 'c':
                        s.add('%s.%s=[#%d]' % (lab.split('::')[-1], nm, x[1]))
            if not lab.startswith(('closure', 'coroutine', 'tuple', 'array', 'Option', 'Result', 'ControlFlow', 'Poll', 'Range', 'rawptr')):
                if ('::' in lab or not t[2]) and not ERRLAB.match(lab):
                    s.add(lab + '{}')
        elif k == 'discr':
            s |= self.of(t[1])
        elif k == 'phi':
            for x in t[1]:
                s |= self.of(x)
        elif k == 'upd':
            s |= self.of(t[1])
            for u in t[2]:
                if u[0] == 'at':
                    if self.field(u[1]):
                        s.add(self.field(u[1]))
                    continue
                if u[0] == 'mut' and u[1][0] == 'call':
                    w = u[1][1].split('::')[-1]
                    if w.startswith(('sort', 'dedup', 'reverse')):
                        s.add('~' + w.split('_')[0])
                if u[0] in ('mut', 'mutr') and u[1][0] == 'call' and u[1][1].startswith('@'):
                    # recorded as an effect of its own; for owned values keep the fact that it happened first
                    if u[0] == 'mut' and self.call(u[1][1]):
                        s.add('~' + self.call(u[1][1]))
                    continue
                s |= self.of(u[-1])
                if u[0] == 'set' and len(u) > 3:
                    for x in u[2]:
                        s |= {y for y in self.of(x) if not y.startswith(('#', '*'))} | self.ixmark(x, t[1])
                if u[0] == 'set' and u[1] == '[]' and len(u) > 3 and len(u[2]) == 1 and u[2][0][0] == 'c' and u[-1][0] != 'c':
                    s.add(tag('at:%d' % u[2][0][1], self.of(u[-1])))
                if u[0] == 'set' and u[1]:
                    s |= {self.field(x) for x in u[1].split('/') if x and self.field(x)}
        elif k in ('elem', 'rep'):
            s |= self.of(t[1])
        elif k == 'big' and len(t) > 2:
            return t[2]
        elif k == 'big':
            for a in t[1]:
                r = self.raw_atom(a)
                if r:
                    s.add(r)
        return s

    def factors(self, t):
        """what is multiplied, however it is bracketed"""
        if t[0] == 'bin' and t[1] == 'Mul':
            return self.factors(t[2]) + self.factors(t[3])
        if t[0] == 'cast' and not narrowing(t[3], t[2]):
            return self.factors(t[1])
        return [t]

    def seqmark(self, t):
        """which element of a sequence stands where"""
        if not 1 < len(t[2]) <= 12:
            return None
        q = [sorted(a for a in self.of(x) if a not in BENIGN_ATOMS and '@' not in a and '=[' not in a and not a.startswith('seq:')) for x in t[2]]
        if any(len(x) > 12 for x in q):
            # too many ingredients: what tells the elements apart
            w = set.intersection(*[set(x) for x in q])
            q = [[a for a in x if a not in w] for x in q]
        if len({tuple(x) for x in q}) > 1 and all(len(x) <= 25 for x in q):
            return 'seq:' + hashlib.sha1(repr(q).encode()).hexdigest()[:12]
        return None

    def cond(self, t):
        """a comparison used as a value"""
        l = self.lit(self.T.bool_lit(t, True))
        s = set(l[2]) | set(l[3])
        if l[4]:
            s.add('#%d' % abs(l[4]))
        P, N = [[x for x in v if x not in BENIGN_ATOMS and '@' not in x and not x.startswith('seq:')] for v in (l[2], l[3])]
        P, N = [' '.join(sorted(v)) if len(v) <= 10 else '*' for v in (P, N)]
        if l[1] in ('eq', 'ne') and N > P and not l[4]:
            P, N = N, P
        s.add(tag('cond:%s:%s' % (l[0], l[1]), {P, '| ' + N, '|| %d' % l[4]}))
        return s

    def raw_atom(self, a):
        if a.endswith('()'):
            c = self.call(a[:-2])
            return c + '()' if c else None
        if a.startswith('op:') or a.startswith('#') or a.startswith('"'):
            return a
        if a.endswith('{}'):
            lab = a[:-2]
            if lab.startswith(('closure', 'coroutine', 'tuple', 'array', 'Option', 'Result', 'ControlFlow', 'Poll', 'Range', 'rawptr')):
                return None
            return a if '::' in lab and not ERRLAB.match(lab) else None
        if re.match(r'^p\d+$', a):
            return None if a == 'p0' or (a == 'p1' and self.has_self) else a
        if a.startswith('['):
            return None
        return self.field(a)

    def ixmark(self, ix, base):
        """what position an index or range picks: constants, offsets and range ends"""
        if ix[0] == 'c':
            return {'ix:%d' % ix[1]} if ix[1] else set()
        if ix[0] == 'cast':
            return self.ixmark(ix[1], base)
        if ix[0] == 'agg' and ix[1].startswith('Range') and ix[3]:
            out = set()
            for nm, x in zip(ix[3], ix[2]):
                if nm in ('start', 'end', 'last'):
                    out |= self.endmark('from' if nm == 'start' else 'to', x, 1 if nm != 'start' and 'Inclusive' in ix[1] else 0)
            return out
        if ix[0] == 'call' and ix[1].split('::')[-1] == 'new' and 'RangeInclusive' in ix[1] and len(ix[2]) == 2:
            return self.endmark('from', ix[2][0], 0) | self.endmark('to', ix[2][1], 1)
        L, c = self.T.lin(ix)
        if len(L) == 1 and c == -1:
            x, v = next(iter(L.items()))
            if v == 1 and x[0] == 'call' and x[1].split('::')[-1] == 'len':
                return {'ix:last'}
        m = [v for v in L.values() if v != 1]
        if c or m:
            return {'ix~%s%+d' % (','.join('%d' % v for v in sorted(m)), c)}
        return set()

    def endmark(self, side, x, d):
        L, c = self.T.lin(x)
        c += d
        if not L:
            return {'%s:%d' % (side, c)} if c or side == 'to' else set()
        o = set()
        for y, v in L.items():
            o |= {a + ('' if v == 1 else '*%d' % v) for a in self.of(y) if not a.startswith('#')}
        return {tag('%s%s' % (side, '%+d' % c if c else ''), o)}

    def order_mark(self, ts):
        m = 0
        st = list(ts)
        while st:
            t = st.pop()
            if t[0] == 'idx' and t[2][0] == 'c':
                m = max(m, t[2][1])
            elif t[0] == 'f' and t[2].startswith('[#'):
                m = max(m, int(t[2][2:-1]))
            elif t[0] == 'call' and t[1] == 'skip':
                m = max(m, 1)
            for x in t[1:]:
                if isinstance(x, tuple):
                    if x and isinstance(x[0], str):
                        st.append(x)
                    else:
                        st.extend(y for y in x if isinstance(y, tuple) and y and isinstance(y[0], str))
        return m

    # ---- value with linear structure: (pos, neg, const) atom sets
    def val(self, t):
        L, c = self.T.lin(t)
        pos, neg = set(), set()
        for x, v in L.items():
            (pos if v > 0 else neg).update(self.of(x))
            if abs(v) != 1:
                (pos if v > 0 else neg).add('#%d' % abs(v))
        return [sorted(pos), sorted(neg), c]

    def vals(self, t, path='', d=0):
        """[[field path, pos, neg, const]]: struct literals are taken apart"""
        if t[0] == 'agg' and d < 3:
            lab = t[1].split('::')[-1]
            if lab in ('Some', 'Ok') and len(t[2]) == 1:
                return self.vals(t[2][0], path, d)
            if t[3] and len(t[2]) > 1 and not t[1].startswith(('closure', 'coroutine', 'Range')):
                out = []
                for nm, x in zip(t[3], t[2]):
                    out += self.vals(x, path + '.' + nm, d + 1)
                return out
            if t[1] == 'tuple' and len(t[2]) > 1:
                out = []
                for i, x in enumerate(t[2]):
                    out += self.vals(x, path + '.%d' % i, d + 1)
                return out
        return [[path] + self.val(t)]

    def lit(self, l):
        k = l[0]
        if k == 'cmp':
            _, rel, p, n, c = l
            P, N = set(), set()
            for x in p:
                P |= self.of(x)
            for x in n:
                N |= self.of(x)
            if len(p) == 1 and not n and c == 0 and rel in ('eq', 'ne') and p[0][0] == 'call' and p[0][1].split('::')[-1] == 'len':
                return ['empty' if rel == 'eq' else 'nonempty', '', sorted(P), [], 0]
            if rel == 'le' and P - {'skip()', '#1', '#2'} == N - {'skip()', '#1', '#2'}:
                # neighbouring elements of one sequence: keep which one is the earlier
                a, b = self.order_mark(p), self.order_mark(n)
                if a != b:
                    P = (P - {'skip()', '#1', '#2'}) | {'earlier' if a < b else 'later'}
                    N = (N - {'skip()', '#1', '#2'}) | {'later' if a < b else 'earlier'}
                    if 'earlier' in N and rel == 'le' and c in (0, 1):
                        return ['unsorted', 'weak' if c == 1 else 'strict', sorted(P - {'later'}), [], 0]
            P, N = sorted(P), sorted(N)
            if rel in ('eq', 'ne') and (N, P) > (P, N) and c == 0:
                P, N = N, P
            elif rel in ('eq', 'ne') and c < 0:
                P, N, c = N, P, -c
            return ['cmp', rel, P, N, c]
        if k in ('t', 'f') and l[1][0] == 'call':
            nm = l[1][1].split('::')[-1]
            if nm == 'insert' and len(l[1][2]) == 2:
                return ['dup' if k == 'f' else 'fresh', '', sorted(self.of(l[1][2][1])), [], 0]
            if nm in ('is_sorted', 'is_sorted_by', 'is_sorted_by_key') and k == 'f':
                return ['unsorted', 'weak', sorted(self.of(l[1][2][0])), [], 0]
        if k in ('t', 'f'):
            return [k, '', sorted(self.of(l[1])), [], 0]
        if k == 'is' and l[2] == 'None' and l[1][0] == 'call' and l[1][1].split('::')[-1] in ('next', 'next_back'):
            return ['end', '', sorted(self.of(l[1])), [], 0]
        if k == 'is':
            return ['is', l[2], sorted(self.of(l[1])), [], 1 if len(l) > 4 else 0]
        if k == 'isnot':
            return ['isnot', '/'.join(sorted(l[2])), sorted(self.of(l[1])), [], 0]
        if k == 'choice':
            return ['choice', l[1], [], [], 0]
        if k == 'other':
            return ['other', ','.join(sorted(l[2])), sorted(self.of(l[1])), [], 0]
        return ['?', str(l)[:60], [], [], 0]


BITS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}


RESULT = re.compile(r'(std|core)::result::Result<')


def narrowing(fr, to):
    a, b = BITS.get(fr), BITS.get(to)
    return a is not None and b is not None and (b < a or (fr[0] != to[0] and b <= a))


def lit_key(l):
    return repr(l)


def neg_sig(l):
    """signature of the negated literal"""
    k, r, p, n, c = l
    if k == 'cmp':
        if r == 'eq':
            return ['cmp', 'ne', p, n, c]
        if r == 'ne':
            return ['cmp', 'eq', p, n, c]
        # P - N + c <= 0  ->  N - P - c + 1 <= 0
        q = ['cmp', 'le', n, p, -c + 1]
        return q
    if k in ('empty', 'nonempty'):
        return ['nonempty' if k == 'empty' else 'empty', r, p, n, c]
    if k == 't':
        return ['f', r, p, n, c]
    if k == 'f':
        return ['t', r, p, n, c]
    if k == 'is':
        o = {'Some': 'None', 'None': 'Some', 'Ok': 'Err', 'Err': 'Ok'}.get(r)
        if o:
            return ['is', o, p, n, c]
        return ['isnot', r, p, n, c]
    if k == 'isnot' and '/' not in r:
        return ['is', r, p, n, c]
    return ['not-' + k, r, p, n, c]


BOOLRET = re.compile(r'^(bool$|std::result::Result<bool,|std::option::Option<bool>|core::result::Result<bool,)')


class Profile:
    def __init__(self, F, root_id, inline=None, opaque=(), outcome=None, events=None, **kw):
        self.F = F
        self.root_id = root_id
        self.fl = Flow(F, root_id, inline=inline, opaque=opaque)
        self.G = Exploded(self.fl)
        self.T = self.G.T
        self.S = Sig(self.T)
        self.outcome = outcome
        self.events = events
        self.goodkinds = set(kw.get('goodkinds', ()))
        self._noise = {}
        self.loops()
        self.kinds()

    # ------------------------------------------------------------------ helpers
    def loc(self, b):
        fl = self.fl
        B = fl.blocks[b]
        if B.fr is None:
            return ''
        sp = None
        t = B.t
        if t[0] == 'switch':
            sp = t[5]
        elif t[0] == 'call':
            sp = t[5]
        elif t[0] == 'choice':
            sp = t[2]
        elif B.s:
            sp = B.s[-1][2]
        return B.fr.body.loc(sp)

    def sloc(self, b, i):
        B = self.fl.blocks[b]
        if B.fr is None:
            return ''
        return B.fr.body.loc(B.s[i][2] if i < len(B.s) else None)

    def tracing(self, B, sp):
        if B.fr is None:
            return False
        for m in B.fr.body.macros(sp):
            h = m.rstrip('!').split('::')
            if h[0] in TRACE or h[-1] in TRACE:
                return True
        return False

    def noise(self, b):
        r = self._noise.get(b)
        if r is None:
            B = self.fl.blocks[b]
            t = B.t
            sp = t[5] if t[0] in ('switch', 'call', 'assert') else t[2] if t[0] == 'choice' else None
            r = False
            if sp is not None and self.tracing(B, sp):
                r = True
            if not r and t[0] == 'switch':
                for l in self.T.edge_lits(b):
                    if l[0] in ('is', 'isnot', 't', 'f') and isinstance(l[1], tuple):
                        a = self.T.atoms(l[1])
                        if any('__is_enabled' in x or 'Interest' in x or 'max_level_hint' in x for x in a):
                            r = True
            self._noise[b] = r
        return r

    # ------------------------------------------------------------------ loops (block level, nested SCCs)
    def loops(self):
        fl = self.fl
        self.nest = {}      # block -> [frozenset headers] innermost first
        self.sccof = {}     # frozenset headers -> frozenset blocks

        def sccs(nodes):
            nodes = set(nodes)
            idx, low, on, st, out = {}, {}, set(), [], []
            n = 0
            for r in nodes:
                if r in idx:
                    continue
                work = [(r, iter([s for s in fl.succs(r) if s in nodes]))]
                idx[r] = low[r] = n
                n += 1
                st.append(r)
                on.add(r)
                while work:
                    v, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in idx:
                            idx[w] = low[w] = n
                            n += 1
                            st.append(w)
                            on.add(w)
                            work.append((w, iter([s for s in fl.succs(w) if s in nodes])))
                            adv = True
                            break
                        elif w in on:
                            low[v] = min(low[v], idx[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        c = set()
                        while True:
                            w = st.pop()
                            on.discard(w)
                            c.add(w)
                            if w == v:
                                break
                        if len(c) > 1 or v in fl.succs(v):
                            out.append(c)
            return out

        def rec(nodes, outer):
            for c in sccs(nodes):
                heads = frozenset(b for b in c if any(p not in c for p in fl.preds[b])) or frozenset([min(c)])
                self.sccof[heads] = frozenset(c)
                for b in c:
                    self.nest[b] = [heads] + outer
                rec(c - heads, [heads] + outer)

        rec(fl.reach, [])

    # ------------------------------------------------------------------ outcomes
    def show_av(self, a, d=0):
        if a is None:
            return '?'
        if a[0] == 'b':
            return a[1]
        if a[0] == 'V':
            v = a[1][1]
            if v in ('Err', 'None') or d > 2:
                return v
            c = dict(a[2]).get('0')
            if c is not None and (c[0] == 'V' or c[1] in ('0', '1')):
                return '%s(%s)' % (v, self.show_av(c, d + 1))
            return v
        return '?'

    def kinds(self):
        G = self.G
        self.exitk = {}
        for n in G.exits:
            t = self.fl.blocks[G.node_blk[n]].t
            if t[0] == 'panic':
                self.exitk[n] = 'panic'
            else:
                self.exitk[n] = self.show_av(G.node_env[n].get(self.fl.ret_var))
        self.cut = set()
        if self.outcome is not None:
            for n, b in enumerate(G.node_blk):
                k = self.outcome(self, b)
                if k is not None:
                    self.exitk[n] = k
                    self.cut.add(n)
        ks = sorted(set(self.exitk.values()))
        self.kset = ks
        bit = {k: 1 << i for i, k in enumerate(ks)}
        K = [0] * len(G.node_blk)
        work = []
        for n, k in self.exitk.items():
            K[n] = bit[k]
            work.append(n)
        while work:
            n = work.pop()
            for p, _ in G.pred[n]:
                if p in self.cut:
                    continue
                m = K[p] | K[n]
                if m != K[p]:
                    K[p] = m
                    work.append(p)
        self.K = K
        self.bit = bit
        self.posbits = 0
        for k in ks:
            if not is_neg(k) and (not self.goodkinds or k in self.goodkinds):
                self.posbits |= bit[k]
        self.panicbit = bit.get('panic', 0)
        self.errbit = bit.get('Err', 0) | self.panicbit

    def kinds_of(self, m):
        return [k for k in self.kset if self.bit[k] & m]

    # ------------------------------------------------------------------ skips
    def iter_exit_lit(self, l):
        if l[0] in ('is', 'isnot') and l[1][0] == 'call' and l[1][1].split('::')[-1] in ('next', 'next_back'):
            return True
        if l[0] == 'choice':
            return True
        return False

    def skips(self, targets, blk, ok):
        """labels of edges that avoid the target although it was still possible, with success still possible"""
        G = self.G
        out = set()
        self.leaves = set()
        self.sometimes = set()
        cur = set(targets)
        nest = list(self.nest.get(blk, []))
        for H in nest + [None]:
            if H is not None:
                hn = {n for h in H for n in G.at.get(h, ())}
                if cur & hn:
                    cur = hn
                    continue
                scc = self.sccof[H]
            else:
                hn = set()
                scc = None
            can = set(cur)
            work = list(cur)
            while work:
                n = work.pop()
                if n in hn:
                    continue
                for p, _ in G.pred[n]:
                    if p not in can and p not in self.cut and (scc is None or G.node_blk[p] in scc):
                        can.add(p)
                        work.append(p)
            for u in can:
                if u in cur or u in self.cut:
                    continue
                for v, lab in G.succ[u] or ():
                    if lab is None:
                        continue
                    if v in can and v not in hn:
                        self.sometimes.add(lab)
                    if (v not in can or v in hn) and ok(v):
                        if self.noise(lab[0]):
                            continue
                        l = G.lit(lab)
                        if self.iter_exit_lit(l):
                            continue
                        out.add(lab)
                        if scc is not None and G.node_blk[v] not in scc:
                            self.leaves.add(lab)
            if H is not None:
                cur = hn
        self.sometimes &= out
        return out

    # ------------------------------------------------------------------ gates
    def gates(self, targets):
        """labels that every path to the targets takes"""
        G = self.G
        targets = set(targets)
        # one path
        par = {G.start: None}
        work = [G.start]
        hit = None
        for n in work:
            if n in targets:
                hit = n
                break
            if n in self.cut:
                continue
            for m, lab in G.succ[n] or ():
                if m not in par:
                    par[m] = (n, lab)
                    work.append(m)
        if hit is None:
            return None
        cand = []
        n = hit
        while par[n] is not None:
            p, lab = par[n]
            if lab is not None and not self.noise(lab[0]):
                cand.append(lab)
            n = p
        # backwards restriction: only nodes that can reach targets
        back = set(targets)
        work = list(targets)
        while work:
            n = work.pop()
            for p, _ in G.pred[n]:
                if p not in back and p not in self.cut:
                    back.add(p)
                    work.append(p)
        out = []
        for lab in cand:
            l = G.lit(lab)
            if self.iter_exit_lit(l) or not self.sem_gate(l):
                continue
            seen = {G.start}
            work = [G.start]
            found = False
            while work and not found:
                n = work.pop()
                if n in targets:
                    found = True
                    break
                for m, lb in G.succ[n] or ():
                    if m in back and m not in seen and lb != lab:
                        seen.add(m)
                        work.append(m)
            if not found:
                out.append(lab)
        return out

    def one_of(self, targets):
        """multi-way choices of which every path to the targets takes one of several given arms"""
        G = self.G
        targets = set(targets)
        back = set(targets)
        work = list(targets)
        while work:
            n = work.pop()
            for p, _ in G.pred[n]:
                if p not in back and p not in self.cut:
                    back.add(p)
                    work.append(p)
        arms = {}
        for n in back:
            for m, lab in G.succ[n] or ():
                if lab is not None and len(lab) == 2 and not self.noise(lab[0]):
                    arms.setdefault(lab[0], {}).setdefault(lab, []).append(m)
        out = []
        for b, labs in arms.items():
            if len(labs) < 2 or len(self.T.edge_lits(b)) < 3:
                continue
            # passing the choice is unavoidable
            seen = {G.start}
            work = [G.start]
            hit = False
            while work and not hit:
                n = work.pop()
                if n in targets:
                    hit = True
                    break
                for m, lb in G.succ[n] or ():
                    if m in back and m not in seen and (lb is None or lb[0] != b or len(lb) != 2):
                        seen.add(m)
                        work.append(m)
            if hit:
                continue
            vals, key = [], None
            for lab, ms in labs.items():
                seen = set(m for m in ms if m in back)
                work = list(seen)
                hit = False
                while work and not hit:
                    n = work.pop()
                    if n in targets:
                        hit = True
                        break
                    for m, lb in G.succ[n] or ():
                        if m in back and m not in seen and (lb is None or lb[0] != b or len(lb) != 2):
                            seen.add(m)
                            work.append(m)
                if not hit:
                    continue
                l = self.S.lit(G.lit(lab))
                if l[0] == 'is' and l[2]:
                    on, v = l[2], l[1]
                elif l[0] == 'cmp' and l[1] == 'eq' and bool(l[2]) != bool(l[3]):
                    on, v = (l[2], -l[4]) if l[2] else (l[3], l[4])
                    v = str(v)
                else:
                    vals = None
                    break
                k = (l[0], repr(on))
                if key not in (None, k):
                    vals = None
                    break
                key = k
                vals.append(v)
                P = on
            if vals and len(vals) > 1:
                out.append(['in', ' '.join(sorted(vals)), P, [], 0])
        return out

    def sem_gate(self, l):
        if l[0] in ('is', 'isnot'):
            if l[0] == 'is' and l[2] in ('Some', 'Ok', 'None', 'Err', 'Continue', 'Break', 'Ready'):
                if l[2] in ('Ok', 'Err') and any(VERIFY.search(a[:-2].split('::')[-1]) for a in self.T.atoms(l[1]) if a.endswith('()')):
                    return True
                return False
            return True
        return True

    # ------------------------------------------------------------------ extraction
    def lits_sig(self, labels):
        r = {}
        for lab in labels:
            s = self.S.lit(self.G.lit(lab))
            if s[0] in ('t', 'f') and all(x[0] == '#' for x in s[2]) or s[0] == 'cmp' and not s[2] and not s[3]:
                continue        # decided at compile time
            r[lit_key(s)] = s
        return [r[k] for k in sorted(r)]

    def rejects(self):
        G, K = self.G, self.K
        out = {}
        allb = self.posbits
        for lab, es in G.decisions().items():
            if self.noise(lab[0]):
                continue
            es = [(u, v) for u, v in es if u not in self.cut]
            if not es:
                continue
            kv = 0
            ku = 0
            for u, v in es:
                kv |= K[v]
                ku |= K[u]
            kv &= ~self.panicbit
            ku &= ~self.panicbit
            if kv == 0 or kv == ku or kv & self.posbits == self.posbits and self.posbits:
                continue
            names = self.kinds_of(kv)
            if len(names) != 1:
                continue
            name = names[0]
            if not is_neg(name) and name in ('Ok', '1', 'Some', 'Ok(1)', 'Ok(Some)', '?') or name in self.goodkinds:
                continue
            l = G.lit(lab)
            if self.iter_exit_lit(l):
                # "no element qualified": a rejecting end of iteration
                pass
            tg = {u for u, v in es}
            okm = ku & ~kv & ~self.errbit
            if not okm:
                okm = ku & ~kv
            if okm & self.posbits:
                okm |= self.posbits & ~kv & ~self.errbit
            sk = self.skips(tg, lab[0], lambda v, okm=okm: K[v] & okm)
            conj = {}
            s = self.S.lit(l)
            conj[lit_key(s)] = s
            for x in sk:
                if x[0] == lab[0]:
                    continue
                q = neg_sig(self.S.lit(G.lit(x)))
                conj[lit_key(q)] = q
            f = {'k': name, 'l': s, 'c': [conj[k] for k in sorted(conj)], 'at': self.loc(lab[0]), 'w': lab[0] in self.nest}
            key = repr((f['k'], f['c']))
            if key not in out:
                out[key] = f
        return sorted(out.values(), key=lambda f: repr((f['k'], f['c'])))

    # ---- effects
    def workspace(self, k):
        p = fnid(k)
        return split_path(simp(p))[0] not in STD_ROOTS

    def effect_events(self):
        """{(name, argsigs): set of (block, idx)}"""
        fl, T, S = self.fl, self.T, self.S
        ev = {}

        def add(name, args, b, i):
            key = (name, repr(args))
            e = ev.setdefault(key, [name, args, []])
            e[2].append((b, i))

        self.writes = []
        for b in sorted(fl.reach):
            B = fl.blocks[b]
            if B.fr is None:
                continue
            for i, (dst, rv, sp) in enumerate(B.s):
                if not dst[1]:
                    continue
                v, p = fl.canon(*dst)
                fields = [S.field(x) if isinstance(x, str) else None for x in p]
                fields = [f for f in fields if f]
                if v in fl.params and not p and '*' not in dst[1]:
                    continue
                if not fields and (not self.outside(v, p, dst) if v not in fl.params else not fl.vty[v].startswith(('&', '*')) and '*' not in p):
                    if any(isinstance(e, tuple) or isinstance(e, str) and e.startswith('[') for e in p):
                        t, _ = T._rv(rv, (), b, i)
                        if t != ('unk',) and not (sp is not None and self.tracing(B, sp)):
                            add('local set', S.vals(t) + self.ixval(p, b, i), b, i)
                    continue
                t, _ = T._rv(rv, (), b, i)
                if t == ('unk',):
                    continue
                if sp is not None and self.tracing(B, sp):
                    continue
                nm = 'set ' + '/'.join(fields) if fields else 'set ' + self.origin(v, b, i)
                if not fields and v in fl.params and '*' not in p and not fl.vty[v].startswith(('&', '*')):
                    continue
                add(nm, S.vals(t) + self.ixval(p, b, i), b, i)
            t = B.t
            if t[0] != 'call' or self.noise(b):
                continue
            k, args = t[1], t[2]
            if k[0] != 'fn':
                continue
            p = fnid(k)
            sp_ = simp(p)
            root = sp_.split('::')[0]
            last = sp_.split('::')[-1]
            n = len(B.s)
            if root == 'adaptor' and last.startswith('acc_'):
                w = last[4:]
                add('local ' + ('add' if w in ('collect', 'unzip', 'partition', 'collect_into_vec', 'sorted') else w), self.argsig(args, b, n), b, n)
                continue
            if root in STD_ROOTS or (simp(k[1]).split('::')[0] in STD_ROOTS and k[2] is None):
                if last in MUT_EVENTS and args and args[0][0] == 'v' and (last not in NEUTRAL_MUT or last.startswith(('sort', 'dedup')) and self.outer(args[0])):
                    if not (fl.is_mutref(args[0]) or last in ('send', 'store', 'fetch_add', 'try_send')):
                        continue
                    v, pp = fl.canon(args[0][1], args[0][2])
                    fields = [S.field(x) if isinstance(x, str) else None for x in pp]
                    fields = [f for f in fields if f]
                    ext = v in fl.params
                    nm = 'add' if last in ADD else last
                    a = self.argsig(args[1:], b, n) + self.ixval(pp, b, n)
                    if not ext and not fields and ('Guard<' in fl.vty[v] or 'RefMut<' in fl.vty[v]):
                        add('%s %s' % (nm, self.origin(v, b, n)), a, b, n)
                    elif not ext and not fields:
                        o = self.accessor(v, b)
                        add('%s * of %s' % (nm, o[0]) if o else 'local ' + nm, a + (o[1] if o else []), b, n)
                    else:
                        add('%s %s' % (nm, '/'.join(fields)), a, b, n)
                continue
            # workspace / third-party call
            if self.events and self.events.search(sp_):
                a = self.argsig(args, b, n)
                if any(x for v in a for x in v[1] if not x.startswith('HostCallReturnCode')):
                    add('out ' + T.callname(k).lstrip('@'), a, b, n)
                continue
            if self.is_query(k, last, args):
                continue
            a = self.argsig(args, b, n)
            nm = T.callname(k).lstrip('@')
            add('call ' + nm, a, b, n)
        return ev

    def accessor(self, v, b):
        """the workspace call whose returned reference is written through: (name, its further arguments)"""
        s = self.source(v)
        if s is None or s[0] != 'callres':
            return None
        t = self.fl.blocks[s[1]].t
        if t[0] != 'call' or t[1][0] != 'fn' or not self.workspace(t[1]) or '&mut' not in self.fl.vty[v]:
            return None
        return self.T.callname(t[1]).lstrip('@'), self.argsig(t[2][1:], s[1], len(self.fl.blocks[s[1]].s))

    def source(self, v):
        """what a local reference was obtained from: ('elem'|'call', payload) or None"""
        fl = self.fl
        for _ in range(40):
            w = fl.whole.get(v)
            if not w or len(w) != 1:
                return None
            rv = w[0][2]
            if rv[0] == 'use' and rv[1][0] == 'v':
                v = rv[1][1]
                continue
            if rv[0] in ('ref', 'refmut'):
                v = rv[1][0]
                continue
            if rv[0] in ('elem', 'callres'):
                return rv
            return None
        return None

    def outside(self, v, p, dst):
        """does a write to this local go through a reference to something that is not a local value"""
        if '*' not in dst[1]:
            return False
        t = self.fl.vty[v]
        if 'Guard<' in t or 'RefMut<' in t:
            return True
        s = self.source(v)
        if s is None:
            return self.points(v, tuple(p), set())
        if s[0] == 'elem':
            return s[2] not in ('flat_map',)
        return t.startswith('&mut') or 'Guard' in t or any(x in PAYLOAD for x in p if isinstance(x, str))

    def points(self, v, path, seen):
        """may the reference held here lead to something that is not a local value of this function?"""
        fl = self.fl
        if (v, path) in seen or len(seen) > 200 or len(path) > 12:
            return False
        seen.add((v, path))
        if v in fl.params:
            return '&' in fl.vty[v]
        for _, _, rv in fl.whole.get(v) or ():
            if rv[0] == 'use' and rv[1][0] == 'v':
                if self.points(rv[1][1], tuple(rv[1][2]) + path, seen):
                    return True
            elif rv[0] in ('ref', 'refmut'):
                w, q = rv[1][0], tuple(rv[1][1])
                if fl.vty[w].startswith('&') and w not in fl.params:
                    if self.points(w, (), seen):
                        return True
                elif '*' in q:
                    if self.points(w, q[:len(q) - q[::-1].index('*') - 1], seen):
                        return True
                elif path[:1] != ('*',) and w in fl.params:
                    return True
                elif path and self.points(w, q + path[1:] if path[0] == '*' else q + path, seen):
                    return True
            elif rv[0] == 'agg':
                names = rv[1][3] if len(rv[1]) > 3 and rv[1][0] == 'adt' else [str(j) for j in range(len(rv[2]))]
                for j, o in enumerate(rv[2]):
                    if o[0] != 'v':
                        continue
                    if path:
                        e = path[0]
                        if not isinstance(e, str) or e.split('.')[-1] != (names[j] if j < len(names) else str(j)) or \
                                rv[1][0] == 'adt' and '.' in e and e.split('.')[0] not in (rv[1][2], rv[1][1].split('::')[-1]):
                            continue
                    if self.points(o[1], tuple(o[2]) + path[1:], seen):
                        return True
            elif rv[0] == 'callres':
                t = fl.blocks[rv[1]].t
                if '&mut' in fl.vty[v] or 'Guard' in fl.vty[v]:
                    if not t[2] or any(a[0] == 'v' and self.points(a[1], tuple(a[2]), seen) for a in t[2]):
                        return True
        return False

    def origin(self, v, b, i):
        t = self.fl.vty[v]
        if 'Guard<' in t or 'RefMut<' in t:
            a = sorted(x for x in self.S.of(self.T.place_at(v, (), b, 0)) if re.match(r'^[A-Z]\w*\.\w+$', x))
            return '* of ' + ' '.join(a)
        s = self.source(v)
        if s is not None and s[0] == 'elem' and s[2]:
            return '* of ' + s[2]
        if s is None:
            a = sorted(x for x in self.S.of(self.T.place_at(v, (), b, 0)) if re.match(r'^[A-Z]\w*\.\w+$', x))
            if a:
                return '* of ' + ' '.join(a)
        return '*'

    def outer(self, a):
        v, pp = self.fl.canon(a[1], a[2])
        return v in self.fl.params or any(isinstance(x, str) and self.S.field(x) for x in pp)

    def ixval(self, path, b, i):
        """constant positions in a written or mutated path"""
        out = set()
        for e in path:
            if isinstance(e, tuple):
                out |= self.S.ixmark(self.T._val(e[1], (), b, i)[0], None)
            elif e.startswith('[#') and e[2:-1].isdigit():
                out.add('ix:' + e[2:-1])
        out.discard('ix:0')
        return [['@', sorted(out), [], 0]] if out else []

    def argsig(self, args, b, n):
        out = []
        for i, x in enumerate(args):
            for v in self.S.vals(self.T.at(x, b, n)):
                out.append(['%d%s' % (i, v[0])] + v[1:])
        return out

    def base_sig(self, v, b, i):
        return frozenset()

    def is_query(self, k, last, args):
        if last.startswith(('get_', 'decode', 'as_mut', 'iter_mut', 'read_', 'is_', 'has_', 'verify', 'check_')) or 'exists' in last:
            return True
        if any(a[0] == 'v' and self.fl.is_mutref(a) for a in args):
            return last in ('next', 'poll', 'fmt')
        if last.startswith('with_mut'):
            return False
        if QUERY.match(last):
            return True
        rt = self.ret_type(k)
        if rt is None:
            return not MUTNAME.match(last)
        if rt in ('()',) or rt.startswith('std::result::Result<(),') or rt.startswith('core::result::Result<(),'):
            return False
        return not MUTNAME.match(last)

    def ret_type(self, k):
        p = k[2] if k[2] and not k[2].startswith('v:') else None
        if p and self.F.has(p):
            b = self.F.body(p)
            rt = b.ty(0)
            cor = self.F.body(p + '::{closure#0}') if self.F.has(p + '::{closure#0}') else None
            if cor is not None and cor.cor:
                rt = cor.ty(0)
            return rt
        return None

    def effects(self, local=True):
        G, K = self.G, self.K
        out = []
        for (name, _), (nm, args, sites) in sorted(self.effect_events().items()):
            nodes = set()
            for b, i in sites:
                nodes |= set(G.at.get(b, ()))
            if not nodes:
                continue
            gl = self.gates(nodes)
            if gl is None:
                continue
            blk = sites[0][0]
            sk = set()
            okm = self.posbits or ~0
            for n in nodes:
                okm |= K[n] & ~self.errbit if self.posbits else 0
            bl = {}
            for b, i in sites:
                bl.setdefault(tuple(self.nest.get(b, [])), []).append(b)
            uni = set()
            if len(bl) == 1:
                sk = self.skips(nodes, blk, lambda v: K[v] & okm)
                lv = self.leaves
                ps = self.sometimes
            else:
                sk = None
                lv = ps = set()
                for n, bs in bl.items():
                    ns = {x for b in bs for x in G.at.get(b, ())}
                    uni |= self.skips(ns, bs[0], lambda v: K[v] & okm)
            if nm.startswith('local '):
                gl = []
            if nm.startswith('out '):
                sk = None
            out.append({'n': nm, 'a': args, 'g': self.lits_sig(gl), 's': None if sk is None else self.lits_sig(sk), 'x': self.lits_sig(lv),
                        'at': self.loc(blk)})
            if uni:
                out[-1]['u'] = self.lits_sig(uni)
            if ps and sk is not None:
                out[-1]['p'] = self.lits_sig(ps)
        return out

    # ---- selects
    def selects(self):
        fl, T, S, G = self.fl, self.T, self.S, self.G
        out = {}
        for v, sites in fl.sites.items():
            if v in fl.params or v in fl.synth or (fl.vty[v] == 'bool' and v in G.tr) or fl.vty[v] == '()':
                continue
            ws = [s for s in sites if s[2] == () and s[3] != 'mut']
            if len(ws) < 2:
                continue
            alts = []
            for s in ws:
                b, i = s[0], s[1]
                if self.noise(b) or b not in G.at:
                    continue
                t, _ = T._site(s, ())
                if t[0] in ('unk', 'never', 'loop'):
                    continue
                if t[0] == 'agg' and t[1].split('::')[-1] in ('Err', 'Break', 'Pending'):
                    continue
                if t[0] == 'agg' and (ERRLAB.match(t[1]) or t[1] == 'tuple' and not t[2]):
                    continue
                alts.append((t, b, i))
            if len(alts) < 2:
                continue
            # pure control flags are handled by the path-sensitive view
            if v in G.tr and all(t[0] == 'c' and t[2] == 'bool' or (t[0] == 'agg' and not t[2]) for t, _, _ in alts):
                continue
            groups = {}
            for t, b, i in alts:
                sg = S.val(t)
                if t[0] == 'agg' and not sg[0]:
                    sg = [[t[1] + '{}'], [], 0]
                if t[0] == 'agg' and t[1] == 'tuple':
                    q = S.seqmark(t)
                    if q:
                        sg = [sorted(set(sg[0]) | {q}), sg[1], sg[2]]
                g = groups.setdefault(repr(sg), [sg, []])
                g[1].append((b, i))
            if len(groups) < 2:
                continue
            common = None
            gs = {}
            ns = {}
            for key, (sg, bl) in groups.items():
                nodes = set()
                for b, i in bl:
                    nodes |= set(G.at.get(b, ()))
                gl = self.gates(nodes)
                gs[key] = set(gl or ())
                common = gs[key] if common is None else common & gs[key]
                ns[key] = nodes
            fact = []
            for key in sorted(groups):
                sg, bl = groups[key]
                fact.append([sg, self.lits_sig(gs[key] - common)])
            if all(not f[1] for f in fact):
                continue
            if len(groups) > 2:
                many = {key: self.one_of(ns[key]) for key in groups}
                for key, f in zip(sorted(groups), fact):
                    f[1] += [x for x in many[key] if x[2] and not any(x in many[k] for k in groups if k != key)]
            kk = repr(fact)
            if kk not in out:
                out[kk] = {'alts': fact, 'at': self.sloc(*groups[sorted(groups)[0]][1][0])}
        return [out[k] for k in sorted(out)]

    # ---- ranges stepped through, and elements left out of sequences
    def ranges(self):
        fl, T, S, G = self.fl, self.T, self.S, self.G
        out = {}

        def seq(t, d=0):
            if d > 8 or not isinstance(t, tuple):
                return
            if t[0] == 'agg' and t[1].startswith('Range') and t[3] and 'end' in t[3]:
                e = S.val(t[2][t[3].index('end')])
                st = S.val(t[2][t[3].index('start')]) if 'start' in t[3] else [[], [], 0]
                f = ['range', st, e]
            elif t[0] == 'call' and t[1].split('::')[-1] == 'new' and 'RangeInclusive' in t[1] and len(t[2]) == 2:
                e = S.val(t[2][1])
                f = ['range', S.val(t[2][0]), [e[0], e[1], e[2] + 1]]
            elif t[0] == 'call' and t[1].split('::')[-1] in ('skip', 'take', 'step_by') and len(t[2]) == 2:
                f = [t[1].split('::')[-1], S.val(t[2][0]), S.val(t[2][1])]
                seq(t[2][0], d + 1)
            elif t[0] == 'call' and t[2]:
                for x in t[2][:2]:
                    seq(x, d + 1)
                return
            else:
                return
            out[repr(f)] = f
        for b in sorted(fl.reach):
            t = fl.blocks[b].t
            if t[0] != 'call' or t[1][0] != 'fn' or self.noise(b):
                continue
            nm = simp(t[1][1]).split('::')[-1]
            if nm in ('next', 'next_back') or nm in MUT_EVENTS or nm in ('collect', 'sum', 'count', 'max', 'min', 'last'):
                for a in t[2]:
                    seq(T.at(a, b, len(fl.blocks[b].s)))
        return [out[k] for k in sorted(out)]

    # ---- returned value
    def rets(self):
        fl, T, S = self.fl, self.T, self.S
        b = fl.exit
        rt = fl.vty[fl.ret_var]
        if rt.startswith('coroutine:'):
            rt = self.ret_type(('fn', fl.root.id, fl.root.id)) or rt
        if fl.ret_var in self.G.tr and BOOLRET.match(rt):
            return {}
        t = T.place_at(fl.ret_var, (), b, 0)
        out = {}

        def rec(t, path, d):
            if t[0] == 'phi':
                for x in t[1]:
                    rec(x, path, d)
                return
            if t[0] == 'agg' and d < 5:
                lab = t[1].split('::')[-1]
                if lab in ('Err', 'Break'):
                    return
                if t[1] in ('tuple',) or lab in ('Ok', 'Some') or (t[3] and not t[1].startswith(('closure', 'coroutine', 'array'))):
                    names = t[3] or [str(i) for i in range(len(t[2]))]
                    for nm, x in zip(names, t[2]):
                        rec(x, path if lab in ('Ok', 'Some') else path + '.' + (('' if t[1] == 'tuple' else lab + '.') + nm), d + 1)
                    if not t[2]:
                        out.setdefault(path, {})[repr([[t[1] + '{}'], [], 0])] = [[t[1] + '{}'], [], 0]
                    return
            if t[0] in ('unk', 'loop', 'never'):
                return
            v = S.val(t)
            out.setdefault(path, {})[repr(v)] = v
        rec(t, '', 0)
        return {p: [d[k] for k in sorted(d)] for p, d in sorted(out.items())}

    # ---- outcomes nobody looks at
    def uses(self):
        fl = self.fl
        u = {}

        def add(v):
            u[v] = u.get(v, 0) + 1

        def walk(x):
            if isinstance(x, tuple):
                if len(x) >= 3 and x[0] == 'v' and isinstance(x[1], int):
                    add(x[1])
                    walk(x[2])
                    return
                if x and x[0] == 'k':
                    return
                for y in x:
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        for b in fl.reach:
            B = fl.blocks[b]
            for dst, rv, sp in B.s:
                if rv[0] in ('ref', 'refmut', 'fake', 'discr'):
                    add(rv[1][0])
                else:
                    walk(rv)
                for e in dst[1]:
                    if isinstance(e, tuple):
                        add(e[1])
                if dst[1] and '*' in dst[1]:
                    add(dst[0])
            t = B.t
            if t[0] == 'call':
                for a in t[2]:
                    walk(a)
            elif t[0] in ('switch', 'assert', 'choice'):
                walk(t[1])
        add(fl.ret_var)
        return u

    def outcome_of(self, v, seen):
        fl = self.fl
        if v in seen or len(seen) > 30:
            return set()
        seen.add(v)
        out = set()
        for b, i, rv in fl.whole.get(v) or ():
            if rv[0] == 'callres':
                out.add((self.T.callname(fl.blocks[b].t[1]).lstrip('@'), b))
            elif rv[0] == 'use' and rv[1][0] == 'v':
                out |= self.outcome_of(rv[1][1], seen)
            elif fl.blocks[b].fr is not None and fl.blocks[b].fr is not fl.root_frame:
                out.add((simp(fl.blocks[b].fr.body.id), b))
        return out

    def drops(self):
        fl = self.fl
        u = self.uses()
        out = {}
        for v, t in enumerate(fl.vty):
            if v in u or v not in fl.whole or not isinstance(t, str) or not RESULT.match(t) or 'fmt::Error' in t:
                continue
            s = {(n, b) for n, b in self.outcome_of(v, set()) if not self.noise(b)}
            for n, b in s:
                out.setdefault(n, self.loc(b))
        return [[n, out[n]] for n in sorted(out)]

    def facts(self):
        return {'drops': self.drops(), 'rejects': self.rejects(), 'effects': self.effects(), 'selects': self.selects(), 'rets': {} if self.outcome else self.rets(), 'ranges': self.ranges(),
                'order': order.order(self),
                'kinds': [k for k in self.kset if k != 'panic'],
                'inlined': len(self.fl.inlined), 'blocks': len(self.fl.reach), 'nodes': len(self.G.node_blk),
                'decisions': len(self.G.decisions())}


def fnid(k):
    return k[2] if (k[2] and not k[2].startswith('v:')) else k[1]
