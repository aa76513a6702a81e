"""Sources of nondeterminism in consensus-critical code.

Zone: everything reachable from the block executor, the transition and validation functions, the virtual machine and the
state commit. In it (1) wall-clock time, randomness, the environment, addresses and completion-ordered collections of tasks
must not be called at all, and (2) the order in which a hash container yields its items must not reach anything ordered."""
import re
from facts import simp
from locks import fnpath
from panics import Panics

ROOTS = (r'BlockExecutor::|^fr_transition::|^fr_extrinsics::(validation|utils)|^fr_pvm|^fr_merkle|^fr_state(_merkle_v2)?::|^fr_codec::|^fr_erasure|StateManager::|AccumulateInvocation|'
         r'BlockHeader::|^fr_block::|^fr_limited_vec')
CLOCK = re.compile(r'SystemTime|Instant::(now|elapsed)|UNIX_EPOCH|OffsetDateTime|TimeProvider::now|Utc::now|Local::now|timestamp_now')
RAND = re.compile(r'thread_rng|(^|::)rand(_core)?::|getrandom|OsRng|StdRng::from_entropy|RandomState::|DefaultHasher|hash_one$|gen_range$|fastrand')
ENVI = re.compile(r'(^|::)env::(var|vars|args|current_dir|temp_dir)|thread::current|available_parallelism|num_cpus|process::id$|Thread::id$')
ADDR = re.compile(r'(^|::)(as_ptr|as_mut_ptr|addr_of|expose_provenance|addr)$')
UNORD = re.compile(r'JoinSet|FuturesUnordered|buffer_unordered|buffered_unordered|for_each_concurrent|select_all|select_ok|find_any$|position_any$|find_map_any$|par_bridge$|try_recv$|(^|::)select_biased')
HASH = re.compile(r'\b(HashMap|HashSet|DashMap|DashSet|IndexMapUnordered|FxHashMap|FxHashSet|AHashMap)<')
ITER = re.compile(r'(Hash(?:Map|Set)|Dash(?:Map|Set))::(iter|iter_mut|into_iter|keys|values|values_mut|drain|into_keys|into_values|retain|union|difference|intersection|symmetric_difference|extract_if)$')
ADAPT = re.compile(r'(^|::)(map|filter|filter_map|flat_map|flatten|cloned|copied|into_iter|iter|chain|inspect|by_ref|peekable|par_iter|into_par_iter|map_while|fuse|branch|as_ref|clone|deref)$')
FREE = re.compile(r'(^|::)(count|sum|all|any|max|min|product|len|is_empty|size_hint|drop|contains|retain|is_subset|is_superset|is_disjoint|for_each|try_for_each|contains_key|fmt)$')
PICK = re.compile(r'(^|::)(find|find_map|first|last|nth|take|skip|take_while|skip_while|enumerate|zip|fold|try_fold|reduce|position|rev|step_by|chunks|rposition|scan|partition|unzip|max_by_key|min_by_key|max_by|min_by|eq|cmp|lt)$')
ORDERED = re.compile(r'\b(Vec|VecDeque|LimitedVec|FixedVec|String|BinaryHeap|LinkedList|Box<\[|ByteSequence)\b')
SET = re.compile(r'\b(Hash(Map|Set)|BTree(Map|Set)|DashMap|DashSet)<')
SORT = re.compile(r'(^|::)(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key|sorted|from_vec_sorted)$')
PUSH = re.compile(r'(^|::)(push|push_back|push_front|extend|extend_from_slice|append|insert|try_push|push_str|shift_push|encode|encode_to|encode_to_fixed|update|hash|blake2b_256|keccak_256)$')
MACRO = re.compile(r'tracing|^(event|debug|info|trace|warn|error|span)$')


class Determinism(Panics):
    def outer(self, ty):
        t = re.sub(r"^(&('\w+ )?(mut )?)+", '', ty)
        for w in ('Result<', 'Option<'):
            m = re.search(r'\b' + w, t)
            if m and t[:m.start()].count('<') == 0:
                t = t[m.end():]
        return t

    def kindof(self, ty):
        """'set' or 'seq' for the outermost collection of a type"""
        t = self.outer(ty)
        a, b = SET.search(t), ORDERED.search(t)
        if a and (not b or a.start() <= b.start()):
            return 'set'
        return 'seq' if b else None

    def banned(self, i):
        b = self.F.body(i)
        defs = None
        for bb in b.bbs:
            t = bb[1]
            if bb[2] or t[0] != 'call':
                continue
            p = fnpath(t[1])
            if not p or any(MACRO.search(m) for m in b.macros(t[5])):
                continue
            s = simp(p)
            for what, rx in (('the clock', CLOCK), ('randomness', RAND), ('the environment', ENVI), ('tasks in completion order', UNORD)):
                if rx.search(s):
                    yield what, s, b.loc(t[5])
            if ADDR.search(s) and t[2] and p not in self.set:
                yield 'an address', s, b.loc(t[5])
            if re.search(r'(Receiver|UnboundedReceiver)::(recv|recv_many|try_recv|recv_timeout|iter)$', s):
                yield 'a channel', s, b.loc(t[5])
            if re.search(r'::(push|push_back|push_front|extend|extend_from_slice|append|try_push)$', s) and t[2] and t[2][0][0] in ('m', 'c') and self.kindof(b.ty(t[2][0][1][0])) == 'seq':
                defs = defs or self.defs(b)
                if any('Guard' in b.ty(r[0]) for r in self.roots(b, defs, t[2][0][1])):
                    yield 'the order in which tasks take a lock', s, b.loc(t[5])

    def iterations(self, i):
        """-> [(container type, problem or None, at)]"""
        b = self.F.body(i)
        out = []
        defs = None
        for bi, bb in enumerate(b.bbs):
            t = bb[1]
            if bb[2] or t[0] != 'call' or not t[2]:
                continue
            p = fnpath(t[1])
            s = simp(p) if p else ''
            if any(MACRO.search(m) for m in b.macros(t[5])):
                continue
            a = t[2][0]
            aty = b.ty(a[1][0]) if a[0] in ('m', 'c') and len(a[1]) == 1 else ''
            m = ITER.search(s)
            if not m and not (s.endswith(('::into_iter', '::par_iter', '::into_par_iter', '::extend')) and HASH.search(self.outer(aty)[:60])):
                # a hash container handed over whole
                if s.endswith('::extend') and len(t[2]) > 1 and t[2][1][0] in ('m', 'c') and len(t[2][1][1]) == 1 and HASH.match(re.sub(r'^[\w:]*::', '', self.outer(b.ty(t[2][1][1][0])))) \
                        and self.kindof(aty) == 'seq':
                    out.append((self.outer(b.ty(t[2][1][1][0])), 'its items extend a sequence', b.loc(t[5])))
                continue
            if s.endswith('::extend') or (m and m.group(2) == 'retain'):
                continue
            defs = defs or self.defs(b)
            out.append((aty, self.fate(b, defs, bi, t), b.loc(t[5])))
        return out

    def fate(self, b, defs, bi, t0):
        L = {t0[3][0]}
        ch = True
        while ch:
            ch = False
            for bj, bb in enumerate(b.bbs):
                if bb[2]:
                    continue
                for st in bb[0]:
                    if st[0] == '=' and any(pl[0] in L for pl in self.ops(st[2])) and st[1][0] not in L and st[2][0] in ('use', 'ref', 'cast', 'refmut', 'addr'):
                        L.add(st[1][0])
                        ch = True
                t = bb[1]
                if t[0] != 'call' or (bj == bi):
                    continue
                idx = [k for k, o in enumerate(t[2]) if o[0] in ('m', 'c') and o[1][0] in L]
                if not idx:
                    continue
                p = fnpath(t[1])
                s = simp(p) if p else ''
                if ADAPT.search(s) and idx[0] == 0 or ITER.search(s) or (s.endswith('::chain') and t[3][0] not in L):
                    if t[3][0] not in L:
                        L.add(t[3][0])
                        ch = True
                    continue
        for bj, bb in enumerate(b.bbs):
            t = bb[1]
            if bb[2] or t[0] != 'call' or bj == bi:
                continue
            idx = [k for k, o in enumerate(t[2]) if o[0] in ('m', 'c') and o[1][0] in L]
            if not idx:
                continue
            p = fnpath(t[1])
            s = simp(p) if p else ''
            n = s.split('::')[-1]
            if ADAPT.search(s) or ITER.search(s) or FREE.search(s) or n == 'chain':
                continue
            if n in ('collect', 'try_collect', 'from_iter', 'collect_vec', 'sorted'):
                if n != 'sorted' and self.kindof(b.ty(t[3][0])) == 'seq' and not self.sorted_later(b, defs, t[3][0]):
                    if 0 in self.flows(b, t[3][0]) and self.callers_sort(b.id):
                        continue
                    return 'its items are collected in a sequence that is not sorted'
                continue
            if n == 'extend' and idx[0] == 1:
                if self.kindof(b.ty(t[2][0][1][0])) == 'seq' and not self.sorted_root(b, defs, t[2][0][1]):
                    return 'its items extend a sequence that is not sorted'
                continue
            if n == 'next':
                r = self.loop(b, defs, bj)
                if r:
                    return r
                continue
            if PICK.search(s):
                return 'the order of its items decides the outcome of `%s`' % n
        return None

    def callers_sort(self, i):
        """every caller sorts what it gets from a function"""
        if not hasattr(self, '_callers'):
            self._callers = {}
            for j in self.ids:
                for c in self.scan(j)[0]:
                    self._callers.setdefault(c, set()).add(j)
        cs = self._callers.get(i, ())
        for j in cs:
            b = self.F.body(j)
            defs = self.defs(b)
            for bb in b.bbs:
                t = bb[1]
                if t[0] == 'call' and not bb[2] and fnpath(t[1]) == i and not self.sorted_root(b, defs, [t[3][0]]):
                    return False
        return bool(cs)

    def sorted_later(self, b, defs, l):
        return self.sorted_root(b, defs, [l])

    def flows(self, b, l):
        """locals that a value moves on to"""
        S = {l}
        ch = True
        while ch:
            ch = False
            for bb in b.bbs:
                if bb[2]:
                    continue
                for st in bb[0]:
                    if st[0] == '=' and any(pl[0] in S for pl in self.ops(st[2])) and st[1][0] not in S:
                        S.add(st[1][0])
                        ch = True
                t = bb[1]
                if t[0] == 'call' and t[2] and t[2][0][0] in ('m', 'c') and t[2][0][1][0] in S and t[3][0] not in S and \
                        re.search(r'(^|::)(branch|deref_mut|deref|as_mut_slice|as_mut|into_iter|collect|unwrap|expect|map_err)$', simp(fnpath(t[1]) or '')):
                    S.add(t[3][0])
                    ch = True
        return S

    def sorted_root(self, b, defs, place):
        roots = {r[0] for r in self.roots(b, defs, place)} | {place[0]}
        S = set()
        for r in roots:
            S |= self.flows(b, r)
        for bb in b.bbs:
            t = bb[1]
            if t[0] == 'call' and not bb[2] and t[2] and t[2][0][0] in ('m', 'c') and t[2][0][1][0] in S:
                if SORT.search(simp(fnpath(t[1]) or '')):
                    return True
        # turned into a set afterwards
        for l in S:
            if l not in roots and self.kindof(b.ty(l)) == 'set':
                return True
        return False

    def loop(self, b, defs, nb):
        succ = {}
        for x, bb in enumerate(b.bbs):
            t = bb[1]
            k = t[0]
            s = []
            if not bb[2]:
                if k == 'goto':
                    s = [t[1]]
                elif k == 'switch':
                    s = [y[1] for y in t[3]] + ([t[4]] if t[4] is not None else [])
                elif k == 'call':
                    s = [t[4]]
                elif k == 'drop':
                    s = [t[2]]
                else:
                    s = [y for y in t[1:] if isinstance(y, int)]
            succ[x] = [y for y in s if y is not None]
        pred = {}
        for x, ys in succ.items():
            for y in ys:
                pred.setdefault(y, []).append(x)

        def go(g, st):
            seen, w = set(), list(st)
            while w:
                x = w.pop()
                if x in seen:
                    continue
                seen.add(x)
                w += g.get(x, [])
            return seen
        fw = go(succ, succ.get(nb, []))
        if nb not in fw:
            return None
        bw = go(pred, [nb])
        body = fw & bw
        for x in sorted(body):
            t = b.bbs[x][1]
            if t[0] != 'call' or not t[2] or any(MACRO.search(m) for m in b.macros(t[5])):
                continue
            s = simp(fnpath(t[1]) or '')
            if not PUSH.search(s):
                continue
            n = s.split('::')[-1]
            o = t[2][1] if n in ('encode_to', 'encode_to_fixed', 'hash') and len(t[2]) > 1 else t[2][0]
            if o[0] not in ('m', 'c'):
                continue
            if self.kindof(b.ty(o[1][0])) != 'seq' and n not in ('update', 'hash', 'encode_to', 'encode_to_fixed'):
                continue
            # a sequence made within the loop is the item's own
            rs = {r[0] for r in self.roots(b, defs, o[1])}
            inner = False
            for r in rs:
                for y in body:
                    u = b.bbs[y][1]
                    if u[0] == 'call' and u[3][0] == r:
                        inner = True
                    for st in b.bbs[y][0]:
                        if st[0] == '=' and st[1] == [r]:
                            inner = True
            if inner or self.sorted_root(b, defs, o[1]):
                continue
            return 'a loop over it appends to a sequence that is not sorted (`%s`)' % n
        return None
