"""Flattened control-flow view of one root function.

Workspace helpers, closures and async bodies are spliced into one graph; std combinators on
Option/Result/iterators are expanded into the branches and loops they stand for.  References are
treated as the place they point to.  The result does not depend on whether a check is written in
line, in a helper, with `?`, `match`, `let else`, or an iterator adaptor.
"""
import sys
from facts import simp, last2, split_path, MissingAnchor, STD_VARIANTS

sys.setrecursionlimit(200000)

TRANSPARENT = {
    'clone', 'deref', 'deref_mut', 'borrow', 'borrow_mut', 'as_ref', 'as_mut', 'as_slice', 'as_mut_slice', 'to_vec', 'to_owned',
    'into', 'iter', 'iter_mut', 'into_iter', 'copied', 'cloned', 'as_deref', 'as_deref_mut', 'into_boxed_slice',
    'par_iter', 'into_par_iter', 'par_iter_mut', 'by_ref', 'into_vec', 'as_bytes', 'as_str', 'new_unchecked',
    'into_future', 'instrument', 'in_current_span', 'pin', 'must_use', 'must_be_paren', 'box_new', 'into_inner', 'maybe_done',
    'to_string', 'as_mut_ptr', 'as_ptr', 'get_mut_unchecked', 'into_pin', 'black_box', 'boxed', 'fuse', 'as_deref_err', 'get_ref',
    'box_assume_init_into_vec_unsafe', 'assume_init', 'write_box', 'peekable', 'identity', 'leak', 'into_boxed_str', 'as_any',
    'to_le', 'to_be', 'unwrap_unchecked', 'get_unchecked_mut', 'as_bitslice', 'into_sorted_iter_', 'shrink_to_fit_',
}
# from/try_from only when std; handled separately
ADAPT = {'map', 'filter', 'filter_map', 'inspect', 'take_while', 'skip_while', 'map_while', 'flat_map', 'enumerate', 'zip',
         'rev', 'skip', 'take', 'step_by', 'chain', 'cycle', 'scan', 'flatten', 'with_min_len', 'with_max_len'}
CLOS_ADAPT = {'map', 'filter', 'filter_map', 'inspect', 'take_while', 'skip_while', 'map_while', 'flat_map'}
CONSUME = {'any', 'all', 'find', 'find_map', 'position', 'for_each', 'try_for_each', 'fold', 'try_fold', 'collect', 'count',
           'sum', 'max', 'min', 'last', 'partition', 'unzip', 'reduce', 'max_by_key', 'min_by_key', 'product', 'find_any', 'max_by', 'min_by',
           'find_first', 'eq', 'collect_into_vec', 'try_reduce', 'nth', 'is_sorted', 'is_sorted_by', 'is_sorted_by_key', 'sorted'}
ITER_TRAITS = ('Iterator', 'ParallelIterator', 'IndexedParallelIterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'StreamExt', 'Itertools')


OPS = {}
for _t, _f in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem'), ('BitAnd', 'bitand'), ('BitOr', 'bitor'), ('BitXor', 'bitxor'),
               ('Shl', 'shl'), ('Shr', 'shr')):
    OPS[_t] = (_f, _t, False)
    OPS[_t + 'Assign'] = (_f + '_assign', _t, True)


class Blk:
    __slots__ = ('s', 't', 'fr')

    def __init__(self, fr):
        self.s = []
        self.t = None
        self.fr = fr


class Frame:
    __slots__ = ('body', 'off', 'parent', 'site', 'map', 'ret_dst', 'ret_blk', 'depth', 'cl')

    def __init__(self, body, off, parent, site):
        self.body = body
        self.off = off
        self.parent = parent
        self.site = site
        self.map = {}
        self.depth = 0 if parent is None else parent.depth + 1

    def chain(self):
        f = self
        while f:
            yield f
            f = f.parent


def fnname(k):
    """display path of a fn const: resolved when known"""
    return k[2][2:] if k[2] and k[2].startswith('v:') else (k[2] or k[1])


class Flow:
    def __init__(self, facts, root_id, inline=None, opaque=(), max_depth=30, max_blocks=60000):
        self.F = facts
        self.root = facts.body(root_id)
        if self.root is None:
            raise MissingAnchor('no body for ' + root_id)
        self.blocks = []
        self.nvars = 0
        self.vty = []        # var -> (hdr, tyidx) or str
        self.vname = []
        self.defs = {}       # var -> list of (('rv', rv) | ('call', name, args, k) , path)
        self.inline_pred = inline or (lambda name, rid: True)
        self.opaque = set(opaque)
        self.max_depth = max_depth
        self.max_blocks = max_blocks
        self.inlined = {}
        self.opaque_calls = {}
        self.work = []
        self.truncated = []
        self.ret_of = {}     # variable a spliced body returns into -> that body's return variable
        self.synth = set()   # results of arithmetic whose alternatives are not a choice made by the program
        self.entry = self.new_block(None)
        b = self.root
        off = self.alloc_body(b)
        self.nparams = b.argc
        self.root_off = off
        fr = Frame(b, off, None, None)
        self.root_frame = fr
        self.params = {off + i: i for i in range(1, b.argc + 1)}
        self.ret_var = off
        exitb = self.new_block(fr)
        self.blocks[exitb].t = ('return',)
        self.exit = exitb
        fr.ret_dst = (off, ())
        fr.ret_blk = exitb
        self.register_defs(fr)
        self.blocks[self.entry].t = ('goto', self.enter(fr, 0))
        self.pump()
        self.finish()

    # ---------------------------------------------------------------- allocation
    def new_block(self, fr):
        self.blocks.append(Blk(fr))
        if len(self.blocks) > self.max_blocks:
            raise RuntimeError('flattened view too large for ' + self.root.id)
        return len(self.blocks) - 1

    def alloc_body(self, b):
        off = self.nvars
        n = len(b.locals)
        self.nvars += n
        tys = b.hdr['tys']
        for t, nm in b.locals:
            self.vty.append(tys[t])
            self.vname.append(nm)
        return off

    def new_var(self, ty='?', name=None):
        self.vty.append(ty)
        self.vname.append(name)
        self.nvars += 1
        return self.nvars - 1

    # ---------------------------------------------------------------- translation of places and operands
    def place(self, fr, p, dst=False):
        var = fr.off + p[0]
        path = []
        variant = None
        for e in p[1:]:
            if e == '*':
                if dst and not path:
                    path.append('*')
                continue
            c = e[0]
            if c == '@':
                variant = e[1:]
                continue
            if c == '.':
                if e[1] == '^':
                    n = e[2:e.index('@')]
                    path.append('^' + n)
                elif '@' in e:
                    nm, adt = e[1:].split('@', 1)
                    a = split_path(adt)[-1]
                    if variant is not None:
                        path.append(variant + '.' + nm)
                    else:
                        path.append(a + '.' + nm)
                else:
                    path.append((variant + '.' + e[1:]) if variant is not None else e[1:])
                variant = None
            elif c == '[':
                if e[1] == '#':
                    path.append(e)
                elif e == '[..]':
                    path.append(e)
                else:
                    path.append(('i', fr.off + int(e[1:-1])))
        return (var, tuple(path))

    def op(self, fr, o):
        if o[0] in 'cm':
            return ('v',) + self.place(fr, o[1])
        if o[0] == 'k':
            return ('k', o[1], fr.body.hdr)
        return ('k', ['o', None, None, '?'], fr.body.hdr)

    def rv(self, fr, r):
        k = r[0]
        if k == 'use':
            return ('use', self.op(fr, r[1]))
        if k in ('ref', 'refmut', 'fake'):
            return (k,) + (self.place(fr, r[1]),)
        if k == 'bin':
            return ('bin', r[1], self.op(fr, r[2]), self.op(fr, r[3]), fr.body.tystr(r[4]) if len(r) > 4 and r[4] is not None else '')
        if k == 'un':
            return ('un', r[1], self.op(fr, r[2]))
        if k == 'cast':
            return ('cast', r[1], self.op(fr, r[2]), fr.body.tystr(r[3]), fr.body.tystr(r[4]))
        if k == 'discr':
            return ('discr', self.place(fr, r[1]), r[2])
        if k == 'agg':
            return ('agg', r[1], [self.op(fr, o) for o in r[2]])
        if k == 'repeat':
            return ('repeat', self.op(fr, r[1]), r[2])
        if k == 'static':
            return ('static', r[1])
        return ('other',)

    def add_def(self, var, d):
        self.defs.setdefault(var, []).append(d)

    def register_defs(self, fr):
        """statically known definitions of the body's locals (for chasing values before emission)"""
        b = fr.body
        for st, t, cl in b.bbs:
            if cl:
                continue
            for s in st:
                if s[0] == '=':
                    var, path = self.place(fr, s[1], True)
                    if not path:
                        r = s[2]
                        if r[0] == 'agg' and r[1][0] == 'coroutine':
                            self.add_def(var, ('co',))
                        else:
                            self.add_def(var, ('rv', self.rv(fr, r)))
            if t[0] == 'call':
                var, path = self.place(fr, t[3], True)
                if not path:
                    f = t[1]
                    k = f[1] if f[0] == 'k' else None
                    self.add_def(var, ('call', k, [self.op(fr, a) for a in t[2]], fr))

    # chase a value to its single definition
    def chase(self, o, depth=0, want=('agg', 'call', 'fn')):
        """operand -> ('agg', kind, ops) | ('call', k, args, fr) | ('fn', k) | None"""
        if depth > 60:
            return None
        if o[0] == 'k':
            if o[1][0] == 'fn':
                return ('fn', o[1])
            return None
        var, path = o[1], o[2]
        ds = self.defs.get(var)
        if not ds:
            return None
        if len(ds) != 1:
            return None
        d = ds[0]
        if d[0] == 'rv':
            r = d[1]
            if r[0] == 'use':
                o2 = r[1]
                if o2[0] == 'v':
                    return self.chase(('v', o2[1], o2[2] + path), depth + 1)
                return self.chase(o2, depth + 1) if not path else None
            if r[0] in ('ref', 'refmut'):
                p = r[1]
                return self.chase(('v', p[0], p[1] + path), depth + 1)
            if r[0] == 'cast' and not path:
                return self.chase(r[2], depth + 1)
            if r[0] == 'agg':
                if not path:
                    return ('agg', r[1], r[2])
                c = self.agg_comp(r, path[0])
                if c is None:
                    return None
                if c[0] == 'v':
                    return self.chase(('v', c[1], c[2] + path[1:]), depth + 1)
                return self.chase(c, depth + 1) if len(path) == 1 else None
            return None
        if d[0] == 'call':
            ro = self.ret_of.get(var)
            if ro is not None:
                return self.chase(('v', ro, path), depth + 1)
            if path:
                return None
            k = d[1]
            if k and k[0] == 'fn':
                nm = simp(k[1]).split('::')[-1]
                if nm in TRANSPARENT and d[2] and not self.ws_iter(k):
                    return self.chase(d[2][0], depth + 1)
            return ('call', d[1], d[2], d[3])
        return None

    def ws_iter(self, k):
        return False

    def agg_comp(self, r, el):
        kind, ops = r[1], r[2]
        try:
            if kind[0] == 'adt':
                nm = el.split('.')[-1] if isinstance(el, str) else None
                names = kind[3]
                if nm in names:
                    i = names.index(nm)
                elif nm and nm.isdigit():
                    i = int(nm)
                else:
                    return None
                return ops[i]
            if kind[0] == 'tuple':
                return ops[int(el.split('.')[-1])]
            if kind[0] in ('closure', 'coroutine'):
                return ops[int(el[1:])]
            if kind[0] == 'array' and isinstance(el, str) and el.startswith('[#'):
                return ops[int(el[2:-1])]
        except (ValueError, IndexError, AttributeError):
            return None
        return None

    # ---------------------------------------------------------------- block emission
    def enter(self, fr, bb):
        fb = fr.map.get(bb)
        if fb is None:
            fb = self.new_block(fr)
            fr.map[bb] = fb
            self.work.append((fr, bb, fb))
        return fb

    def pump(self):
        while self.work:
            fr, bb, fb = self.work.pop()
            self.emit(fr, bb, fb)

    def emit(self, fr, bb, fb):
        st, t, _ = fr.body.bbs[bb]
        cur = fb
        for s in st:
            if s[0] != '=':
                continue
            dst = self.place(fr, s[1], True)
            r = s[2]
            if r[0] == 'agg' and r[1][0] == 'coroutine':
                cid = r[1][1]
                b = self.F.body(cid)
                if b is not None and self.can_inline(cid, fr):
                    ops = [self.op(fr, o) for o in r[2]]
                    nxt = self.new_block(fr)
                    self.splice_closure(cur, fr, cid, ops, [], dst, nxt, s[3], 'coroutine')
                    cur = nxt
                    continue
            self.assign(cur, dst, self.rv(fr, r), s[3] if len(s) > 3 else None)
        k = t[0]
        B = self.blocks[cur]
        if k == 'goto':
            B.t = ('goto', self.enter(fr, t[1]))
        elif k == 'drop':
            B.t = ('goto', self.enter(fr, t[2]))
        elif k == 'yield':
            B.t = ('goto', self.enter(fr, t[2]))
        elif k == 'return':
            if fr.parent is None:
                B.t = ('goto', self.exit) if cur != self.exit else ('return',)
            else:
                self.assign(cur, fr.ret_dst, ('use', ('v', fr.off, ())), None)
                B.t = ('goto', fr.ret_blk)
        elif k == 'switch':
            B.t = ('switch', self.op(fr, t[1]), [(v, self.enter(fr, x)) for v, x in t[3]],
                   None if self.is_unreachable(fr, t[4]) else self.enter(fr, t[4]), fr.body.tystr(t[2]), t[5])
        elif k == 'assert':
            B.t = ('assert', self.op(fr, t[1]), t[2], t[3], self.enter(fr, t[4]), t[5])
        elif k == 'call':
            self.emit_call(fr, cur, t)
        elif k in ('unreachable', 'end'):
            B.t = ('dead',)
        else:
            B.t = ('dead',)

    def is_unreachable(self, fr, bb):
        seen = 0
        while seen < 5:
            st, t, c = fr.body.bbs[bb]
            if t[0] == 'unreachable':
                return True
            if t[0] == 'goto' and not st:
                bb = t[1]
                seen += 1
                continue
            return False
        return False

    def assign(self, blk, dst, rv, span):
        self.blocks[blk].s.append((dst, rv, span))

    def can_inline(self, cid, fr):
        if fr.depth >= self.max_depth:
            self.truncated.append(cid)
            return False
        if sum(1 for f in fr.chain() if f.body.id == cid) >= 1:
            return False
        return True

    def splice_closure(self, cur, fr, cid, upops, args, dst, ret, span, kind='closure', selfop=None):
        b = self.F.body(cid)
        off = self.alloc_body(b)
        nf = Frame(b, off, fr, (cid, span))
        nf.ret_dst = dst
        nf.ret_blk = ret
        nf.cl = kind
        self.inlined[cid] = self.inlined.get(cid, 0) + 1
        if not dst[1] and dst[0] not in self.defs:
            self.add_def(dst[0], ('rv', ('use', ('v', off, ()))))
        elif not dst[1]:
            self.ret_of[dst[0]] = off if dst[0] not in self.ret_of else None
        if selfop is not None:
            rv = ('use', selfop)
        else:
            rv = ('agg', [kind, cid], upops)
        self.assign(cur, (off + 1, ()), rv, span)
        self.add_def(off + 1, ('rv', rv))
        for i, a in enumerate(args):
            if 2 + i > b.argc:
                break
            self.assign(cur, (off + 2 + i, ()), ('use', a), span)
            self.add_def(off + 2 + i, ('rv', ('use', a)))
        self.register_defs(nf)
        self.blocks[cur].t = ('goto', self.enter(nf, 0))

    def splice_fn(self, cur, fr, fid, args, dst, ret, span):
        b = self.F.body(fid)
        off = self.alloc_body(b)
        nf = Frame(b, off, fr, (fid, span))
        nf.ret_dst = dst
        nf.ret_blk = ret
        nf.cl = 'fn'
        if not dst[1] and not b.cor:
            self.ret_of[dst[0]] = off if dst[0] not in self.ret_of else None
        self.inlined[fid] = self.inlined.get(fid, 0) + 1
        for i, a in enumerate(args):
            self.assign(cur, (off + 1 + i, ()), ('use', a), span)
            self.add_def(off + 1 + i, ('rv', ('use', a)))
        self.register_defs(nf)
        self.blocks[cur].t = ('goto', self.enter(nf, 0))

    # generic call through a callable value
    def call_value(self, cur, fr, callee, args, dst, ret, span):
        c = self.chase(callee)
        if c and c[0] == 'agg' and c[1][0] in ('closure',):
            cid = c[1][1]
            if self.F.has(cid) and self.can_inline(cid, fr):
                # captured variables are read through the closure value itself
                self.splice_closure(cur, fr, cid, None, args, dst, ret, span, 'closure', selfop=callee)
                return
        if c and c[0] == 'fn':
            self.emit_named(fr, cur, c[1], args, dst, ret, span)
            return
        self.opaque_call(cur, ['fn', '<callable>', None, [], 0], [callee] + list(args), dst, ret, span)

    def opaque_call(self, cur, k, args, dst, ret, span):
        self.blocks[cur].t = ('call', k, args, dst, ret, span)
        nm = simp(fnname(k)) if k[0] == 'fn' else '?'
        self.opaque_calls[nm] = self.opaque_calls.get(nm, 0) + 1

    def emit_call(self, fr, cur, t):
        args = [self.op(fr, a) for a in t[2]]
        dst = self.place(fr, t[3], True)
        if t[4] is None or t[4] < 0:
            k = t[1][1] if t[1][0] == 'k' else ['fn', '?', None, [], 0]
            self.blocks[cur].t = ('panic', k, args, t[5])
            return
        ret = self.enter(fr, t[4])
        if t[1][0] == 'k' and t[1][1][0] == 'fn':
            self.emit_named(fr, cur, t[1][1], args, dst, ret, t[5])
        else:
            self.call_value(cur, fr, self.op(fr, t[1]), args, dst, ret, t[5])

    # ---- small builders
    def goto(self, b, t):
        self.blocks[b].t = ('goto', t)

    def sw_discr(self, cur, place, adt, arms, span, fr):
        """arms: {variant: block}"""
        d = self.new_var('isize')
        self.assign(cur, (d, ()), ('discr', place, adt), span)
        last = split_path(adt)[-1]
        self.blocks[cur].t = ('switch', ('v', d, ()), [(str(STD_VARIANTS[last][v]), b) for v, b in arms.items()], None, 'isize', span)

    def sw_bool(self, cur, operand, tb, fb, span):
        self.blocks[cur].t = ('switch', operand, [('0', fb)], tb, 'bool', span)

    def as_place(self, cur, o, span, ty='?'):
        if o[0] == 'v':
            return (o[1], o[2])
        v = self.new_var(ty)
        self.assign(cur, (v, ()), ('use', o), span)
        self.add_def(v, ('rv', ('use', o)))
        return (v, ())

    def agg1(self, adt, var, ops):
        return ('agg', ['adt', adt, var, [str(i) for i in range(len(ops))]], ops)

    def opty(self, o):
        """type string of an operand's root place (only when the path is empty)"""
        if o[0] == 'v' and not o[2]:
            return self.vty[o[1]]
        if o[0] == 'k' and o[1][0] in ('i', 'o'):
            i = o[1][2] if o[1][0] == 'i' else o[1][1]
            return o[2]['tys'][i] if i is not None else '?'
        return '?'

    def emit_named(self, fr, cur, k, args, dst, ret, span):
        decl = simp(k[1])
        parts = decl.split('::')
        nm = parts[-1]
        own = parts[-2] if len(parts) > 1 else ''
        A = self.assign
        G = self.goto
        nb = lambda: self.new_block(fr)
        res = k[2]
        rid = res if res and not res.startswith('v:') else None
        is_ws = rid is not None and self.F.has(rid)
        dns = parts[0]
        std_decl = dns in ('std', 'core', 'alloc', 'tokio', 'rayon', 'futures', 'futures_util', 'tracing', 'async_trait', 'either', 'itertools')

        # --- constructors used as functions
        if k[4]:
            # Variant/struct constructor
            p = split_path(k[1])
            adt = '::'.join(p[:-1]) if self.is_variant_ctor(p) else k[1]
            var = p[-1]
            A(cur, dst, ('agg', ['adt', adt, var, [str(i) for i in range(len(args))]], args), span)
            G(cur, ret)
            return

        if not (is_ws and not std_decl):
            r = self.std_call(fr, cur, k, nm, own, args, dst, ret, span, is_ws)
            if r:
                return
        # --- workspace function
        if is_ws:
            s = simp(rid)
            tail = s.split('::')[-1]
            if tail in ('clone', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow') and args and std_decl:
                A(cur, dst, ('use', args[0]), span)
                G(cur, ret)
                return
            if tail in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp', 'hash', 'fmt') and std_decl:
                self.opaque_call(cur, k, args, dst, ret, span)
                return
            if not self.is_opaque(s) and self.inline_pred(s, rid) and self.can_inline(rid, fr):
                self.splice_fn(cur, fr, rid, args, dst, ret, span)
                return
        self.may_exec_closures(fr, cur, k, args, dst, ret, span, is_ws)

    def is_opaque(self, s):
        if s in self.opaque:
            return True
        p = s.split('::')
        if '::'.join(p[-2:]) in self.opaque:
            return True
        return False

    def is_variant_ctor(self, p):
        adt = '::'.join(p[:-1])
        if adt in self.F.adts:
            return True
        return p[-1] in ('Some', 'None', 'Ok', 'Err', 'Ready', 'Pending', 'Continue', 'Break')

    def may_exec_closures(self, fr, cur, k, args, dst, ret, span, is_ws):
        """Opaque call; closures passed to it are spliced in front of it (run once for workspace
        functions, zero or more times for library ones)."""
        nargs = list(args)
        for i, a in enumerate(args):
            c = self.chase(a)
            if c and c[0] == 'agg' and c[1][0] == 'closure' and self.F.has(c[1][1]) and self.can_inline(c[1][1], fr):
                b = self.F.body(c[1][1])
                rv = self.new_var('?')
                el = []
                base = args[0] if i != 0 else None
                for j in range(b.argc - 1):
                    ev = self.new_var(b.ty(2 + j))
                    self.assign(cur, (ev, ()), ('elem', base, simp(fnname(k)).split('::')[-1], j), span)
                    el.append(('v', ev, ()))
                cl = self.new_block(fr)
                after = self.new_block(fr)
                if is_ws:
                    self.goto(cur, cl)
                    self.splice_closure(cl, fr, c[1][1], None, el, (rv, ()), after, span, selfop=a)
                    cur = after
                else:
                    head = self.new_block(fr)
                    self.goto(cur, head)
                    self.blocks[head].t = ('choice', [('maybe-call', cl), ('maybe-skip', after)], span)
                    self.splice_closure(cl, fr, c[1][1], None, el, (rv, ()), head, span, selfop=a)
                    cur = after
                nargs[i] = ('v', rv, ())
            elif c and c[0] == 'call' and self.iter_chain_has_closure(a):
                # lazy iterator handed to an opaque consumer
                ev = self.new_var('?')
                head = self.new_block(fr)
                after = self.new_block(fr)
                self.goto(cur, head)
                self.expand_next(fr, head, a, lambda blk, el, _e=ev, _h=head: (self.assign(blk, (_e, ()), ('use', el), span), self.goto(blk, _h)),
                                 after, span)
                nargs[i] = ('v', ev, ())
                cur = after
        self.opaque_call(cur, k, nargs, dst, ret, span)

    # ---------------------------------------------------------------- iterators
    def iter_link(self, o):
        """operand -> (adaptor name, args) or None for a base iterator"""
        c = self.chase(o)
        if c and c[0] == 'call' and c[1] and c[1][0] == 'fn':
            d = simp(c[1][1]).split('::')
            if d[-1] in ADAPT and (len(d) > 1 and d[-2] in ITER_TRAITS):
                return d[-1], c[2]
        return None

    def iter_chain_has_closure(self, o, depth=0):
        if depth > 20:
            return False
        l = self.iter_link(o)
        if not l:
            return False
        nm, args = l
        if nm in CLOS_ADAPT:
            return True
        if nm in ('zip', 'chain') and len(args) > 1 and self.iter_chain_has_closure(args[1], depth + 1):
            return True
        return self.iter_chain_has_closure(args[0], depth + 1)

    def iter_structured(self, o):
        l = self.iter_link(o)
        if not l:
            return False
        return l[0] in CLOS_ADAPT or l[0] in ('enumerate', 'zip') or self.iter_structured(l[1][0])

    def expand_next(self, fr, cur, it, cont, none_blk, span, head=None, marks=()):
        """At `cur`, advance `it`: on an element run cont(block, elem_operand); else goto none_blk."""
        if head is None:
            head = cur
        l = self.iter_link(it)
        if l is None:
            o = self.new_var('std::option::Option<?>')
            nxt = self.new_block(fr)
            self.blocks[cur].t = ('call', ['fn', 'std::iter::Iterator::next', 'std::iter::Iterator::next', [], 0], [it], (o, ()), nxt, span)
            if marks:
                self.blocks[cur].t = ('call', ['fn', 'std::iter::Iterator::next', 'std::iter::Iterator::next', [], 0],
                                      [it] + [('k', ['fn', 'adaptor::' + m, None, [], 0], None) for m in marks], (o, ()), nxt, span)
            some = self.new_block(fr)
            self.sw_discr(nxt, (o, ()), 'std::option::Option', {'Some': some, 'None': none_blk}, span, fr)
            cont(some, ('v', o, ('Some.0',)))
            return
        nm, args = l
        base = args[0]
        if nm in CLOS_ADAPT:
            clo = args[1]

            def k(blk, el):
                r = self.new_var('?')
                after = self.new_block(fr)
                self.call_value(blk, fr, clo, [el], (r, ()), after, span)
                if nm == 'map':
                    cont(after, ('v', r, ()))
                elif nm == 'filter':
                    t = self.new_block(fr)
                    self.sw_bool(after, ('v', r, ()), t, head, span)
                    cont(t, el)
                elif nm == 'inspect':
                    cont(after, el)
                elif nm == 'filter_map':
                    t = self.new_block(fr)
                    self.sw_discr(after, (r, ()), 'std::option::Option', {'Some': t, 'None': head}, span, fr)
                    cont(t, ('v', r, ('Some.0',)))
                elif nm == 'map_while':
                    t = self.new_block(fr)
                    self.sw_discr(after, (r, ()), 'std::option::Option', {'Some': t, 'None': none_blk}, span, fr)
                    cont(t, ('v', r, ('Some.0',)))
                elif nm == 'take_while':
                    t = self.new_block(fr)
                    self.sw_bool(after, ('v', r, ()), t, none_blk, span)
                    cont(t, el)
                elif nm == 'skip_while':
                    t = self.new_block(fr)
                    self.sw_bool(after, ('v', r, ()), head, t, span)
                    cont(t, el)
                elif nm == 'flat_map':
                    inner = self.new_block(fr)
                    self.goto(after, inner)
                    self.expand_next(fr, inner, ('v', r, ()), cont, head, span)
            self.expand_next(fr, cur, base, k, none_blk, span, head, marks)
            return
        if nm == 'enumerate':
            def k(blk, el):
                ix = self.new_var('usize')
                tup = self.new_var('(usize, ?)')
                self.assign(blk, (ix, ()), ('elem', base, 'enumerate_index', 0), span)
                r = ('agg', ['tuple'], [('v', ix, ()), el])
                self.assign(blk, (tup, ()), r, span)
                self.add_def(tup, ('rv', r))
                cont(blk, ('v', tup, ()))
            self.expand_next(fr, cur, base, k, none_blk, span, head, marks)
            return
        if nm == 'zip':
            def k(blk, el):
                def k2(blk2, el2):
                    tup = self.new_var('(?, ?)')
                    r = ('agg', ['tuple'], [el, el2])
                    self.assign(blk2, (tup, ()), r, span)
                    self.add_def(tup, ('rv', r))
                    cont(blk2, ('v', tup, ()))
                # the second iterator's exhaustion also ends the zip
                self.expand_next(fr, blk, args[1], k2, none_blk, span, head)
            self.expand_next(fr, cur, base, k, none_blk, span, head, marks)
            return
        if nm in ('rev', 'skip', 'take', 'step_by', 'cycle', 'with_min_len', 'with_max_len', 'flatten', 'chain', 'scan'):
            if not self.iter_chain_has_closure(it) or nm in ('flatten', 'chain', 'scan'):
                # plain: keep as one base iterator with the adaptor visible in its term
                o = self.new_var('std::option::Option<?>')
                nxt = self.new_block(fr)
                self.blocks[cur].t = ('call', ['fn', 'std::iter::Iterator::next', 'std::iter::Iterator::next', [], 0], [it], (o, ()), nxt, span)
                some = self.new_block(fr)
                self.sw_discr(nxt, (o, ()), 'std::option::Option', {'Some': some, 'None': none_blk}, span, fr)
                cont(some, ('v', o, ('Some.0',)))
                return
            self.expand_next(fr, cur, base, cont, none_blk, span, head, marks + (nm,))
            return
        raise RuntimeError('adaptor ' + nm)

    def consume(self, fr, cur, k, nm, args, dst, ret, span):
        A, G = self.assign, self.goto
        nb = lambda: self.new_block(fr)
        it = args[0]
        OPT, RES = 'std::option::Option', 'std::result::Result'
        head = nb()
        T = ('k', ['i', '1', None, None], None)
        Fa = ('k', ['i', '0', None, None], None)
        if nm in ('any', 'all'):
            yes, no = nb(), nb()
            G(cur, head)

            def c(blk, el):
                r = self.new_var('bool')
                af = nb()
                self.call_value(blk, fr, args[1], [el], (r, ()), af, span)
                if nm == 'any':
                    self.sw_bool(af, ('v', r, ()), yes, head, span)
                else:
                    self.sw_bool(af, ('v', r, ()), head, yes, span)
            self.expand_next(fr, head, it, c, no, span)
            A(yes, dst, ('use', T if nm == 'any' else Fa), span); G(yes, ret)
            A(no, dst, ('use', Fa if nm == 'any' else T), span); G(no, ret)
            return True
        if nm in ('find', 'position', 'find_map', 'find_any', 'find_first'):
            no = nb()
            G(cur, head)

            def c(blk, el):
                r = self.new_var('bool')
                af, yes = nb(), nb()
                self.call_value(blk, fr, args[1], [el], (r, ()), af, span)
                if nm == 'find_map':
                    self.sw_discr(af, (r, ()), OPT, {'Some': yes, 'None': head}, span, fr)
                    A(yes, dst, ('use', ('v', r, ())), span); G(yes, ret)
                else:
                    self.sw_bool(af, ('v', r, ()), yes, head, span)
                    if nm == 'position':
                        ix = self.new_var('usize')
                        A(yes, (ix, ()), ('elem', it, 'position', 0), span)
                        el = ('v', ix, ())
                    A(yes, dst, self.agg1(OPT, 'Some', [el]), span); G(yes, ret)
            self.expand_next(fr, head, it, c, no, span)
            A(no, dst, self.agg1(OPT, 'None', []), span); G(no, ret)
            return True
        if nm == 'for_each':
            done = nb()
            G(cur, head)

            def c(blk, el):
                r = self.new_var('()')
                self.call_value(blk, fr, args[1], [el], (r, ()), head, span)
            self.expand_next(fr, head, it, c, done, span)
            G(done, ret)
            return True
        if nm == 'try_for_each':
            done = nb()
            G(cur, head)
            dty = self.vty[dst[0]] if not dst[1] else '?'
            adt = OPT if dty.startswith(OPT) else RES

            def c(blk, el):
                r = self.new_var('?')
                af, bad = nb(), nb()
                self.call_value(blk, fr, args[1], [el], (r, ()), af, span)
                if adt == RES:
                    self.sw_discr(af, (r, ()), RES, {'Ok': head, 'Err': bad}, span, fr)
                    A(bad, dst, self.agg1(RES, 'Err', [('v', r, ('Err.0',))]), span)
                else:
                    self.sw_discr(af, (r, ()), OPT, {'Some': head, 'None': bad}, span, fr)
                    A(bad, dst, self.agg1(OPT, 'None', []), span)
                G(bad, ret)
            self.expand_next(fr, head, it, c, done, span)
            unit = ('k', ['o', None, None, '()'], None)
            A(done, dst, self.agg1(adt, 'Ok' if adt == RES else 'Some', [unit]), span); G(done, ret)
            return True
        if nm in ('fold', 'try_fold'):
            acc = self.new_var('?')
            A(cur, (acc, ()), ('use', args[1]), span)
            done = nb()
            G(cur, head)
            dty = self.vty[dst[0]] if not dst[1] else '?'
            adt = OPT if dty.startswith(OPT) else RES

            def c(blk, el):
                if nm == 'fold':
                    self.call_value(blk, fr, args[2], [('v', acc, ()), el], (acc, ()), head, span)
                    return
                r = self.new_var('?')
                af, bad, good = nb(), nb(), nb()
                self.call_value(blk, fr, args[2], [('v', acc, ()), el], (r, ()), af, span)
                okv, badv = ('Ok', 'Err') if adt == RES else ('Some', 'None')
                self.sw_discr(af, (r, ()), adt, {okv: good, badv: bad}, span, fr)
                A(bad, dst, self.agg1(adt, badv, [('v', r, ('Err.0',))] if adt == RES else []), span); G(bad, ret)
                A(good, (acc, ()), ('use', ('v', r, (okv + '.0',))), span); G(good, head)
            self.expand_next(fr, head, it, c, done, span)
            if nm == 'fold':
                A(done, dst, ('use', ('v', acc, ())), span)
            else:
                A(done, dst, self.agg1(adt, 'Ok' if adt == RES else 'Some', [('v', acc, ())]), span)
            G(done, ret)
            return True
        if nm in ('sum', 'count') and not (self.vty[dst[0]] if not dst[1] else '?').startswith((RES, OPT)):
            # an accumulator loop
            acc = self.new_var('usize' if nm == 'count' else '?')
            A(cur, (acc, ()), ('use', ('k', ['i', '0', None, None], None)), span)
            done = nb()
            G(cur, head)

            def c(blk, el):
                A(blk, (acc, ()), ('bin', 'Add', ('v', acc, ()), ('k', ['i', '1', None, None], None) if nm == 'count' else el, 'usize'), span)
                G(blk, head)
            self.expand_next(fr, head, it, c, done, span)
            A(done, dst, ('use', ('v', acc, ())), span)
            G(done, ret)
            return True
        # generic consumers: collect, sum, count ...
        if nm in ('collect', 'sum', 'count', 'max', 'min', 'last', 'partition', 'unzip', 'product', 'reduce', 'max_by_key', 'min_by_key',
                  'max_by', 'min_by', 'collect_into_vec', 'eq', 'try_reduce', 'nth', 'is_sorted', 'is_sorted_by', 'is_sorted_by_key', 'sorted'):
            if not self.iter_structured(it):
                self.may_exec_closures(fr, cur, k, args, dst, ret, span, False)
                return True
            dty = self.vty[dst[0]] if not dst[1] else '?'
            coll = self.new_var('?')
            done = nb()
            G(cur, head)
            adt = RES if dty.startswith(RES) else OPT if dty.startswith(OPT) else None
            if nm not in ('collect', 'sum', 'product'):
                adt = None

            def acc(blk, el):
                self.blocks[blk].t = ('call', ['fn', 'adaptor::acc_' + nm, None, [], 0], [el], (coll, ()), head, span)

            def c(blk, el):
                if adt:
                    okv, badv = ('Ok', 'Err') if adt == RES else ('Some', 'None')
                    p = self.as_place(blk, el, span)
                    good, bad = nb(), nb()
                    self.sw_discr(blk, p, adt, {okv: good, badv: bad}, span, fr)
                    A(bad, dst, self.agg1(adt, badv, [('v', p[0], p[1] + ('Err.0',))] if adt == RES else []), span); G(bad, ret)
                    acc(good, ('v', p[0], p[1] + (okv + '.0',)))
                else:
                    acc(blk, el)
            self.expand_next(fr, head, it, c, done, span)
            nargs = [('v', coll, ())] + list(args[1:])
            if adt:
                r = self.new_var('?')
                af = nb()
                self.may_exec_closures(fr, done, k, nargs, (r, ()), af, span, False)
                A(af, dst, self.agg1(adt, 'Ok' if adt == RES else 'Some', [('v', r, ())]), span); G(af, ret)
            else:
                self.may_exec_closures(fr, done, k, nargs, dst, ret, span, False)
            return True
        return False

    # ---------------------------------------------------------------- std
    def std_call(self, fr, cur, k, nm, own, args, dst, ret, span, is_ws):
        A, G = self.assign, self.goto
        nb = lambda: self.new_block(fr)
        OPT, RES, CF, POLL = 'std::option::Option', 'std::result::Result', 'std::ops::ControlFlow', 'std::task::Poll'
        T = ('k', ['i', '1', None, None], None)
        Fa = ('k', ['i', '0', None, None], None)
        unit = ('k', ['o', None, None, '()'], None)

        def isopt(o):
            t = self.opty(o)
            return t.lstrip('&').replace('mut ', '').startswith('std::option::Option')

        if nm == 'branch' and own == 'Try':
            p = self.as_place(cur, args[0], span)
            x, y = nb(), nb()
            if isopt(args[0]):
                self.sw_discr(cur, p, OPT, {'Some': x, 'None': y}, span, fr)
                A(x, dst, self.agg1(CF, 'Continue', [('v', p[0], p[1] + ('Some.0',))]), span)
                A(y, dst, self.agg1(CF, 'Break', [('k', ['o', None, None, 'None'], None)]), span)
            else:
                pay = nb()
                self.sw_discr(cur, p, RES, {'Ok': x, 'Err': y}, span, fr)
                A(x, dst, self.agg1(CF, 'Continue', [('v', p[0], p[1] + ('Ok.0',))]), span)
                e = self.new_var('std::result::Result<!, ?>')
                ag = self.agg1(RES, 'Err', [('v', p[0], p[1] + ('Err.0',))])
                A(y, (e, ()), ag, span)
                A(y, dst, self.agg1(CF, 'Break', [('v', e, ())]), span)
            G(x, ret); G(y, ret)
            return True
        if nm == 'from_residual':
            dty = self.vty[dst[0]] if not dst[1] else self.opty(args[0])
            if dty.startswith('std::option::Option'):
                A(cur, dst, self.agg1(OPT, 'None', []), span)
            else:
                p = self.as_place(cur, args[0], span)
                A(cur, dst, self.agg1(RES, 'Err', [('v', p[0], p[1] + ('Err.0',))]), span)
            G(cur, ret)
            return True
        if nm == 'from_output' and own == 'Try':
            dty = self.vty[dst[0]] if not dst[1] else '?'
            A(cur, dst, self.agg1(OPT, 'Some', [args[0]]) if dty.startswith('std::option') else self.agg1(RES, 'Ok', [args[0]]), span)
            G(cur, ret)
            return True
        if nm == 'poll' and own in ('Future',):
            A(cur, dst, self.agg1(POLL, 'Ready', [args[0]]), span)
            G(cur, ret)
            return True
        if nm == 'is_pending' and own == 'Poll':
            A(cur, dst, ('use', Fa), span); G(cur, ret)
            return True
        if nm in ('take_output', 'output_mut') and own == 'MaybeDone':
            A(cur, dst, self.agg1(OPT, 'Some', [args[0]]), span); G(cur, ret)
            return True
        if nm == 'get_context':
            G(cur, ret)
            return True
        if nm == 'poll_fn':
            c = self.chase(args[0])
            if c and c[0] == 'agg' and c[1][0] == 'closure':
                r = self.new_var('std::task::Poll<?>')
                af = nb()
                ctx = ('k', ['o', None, None, 'ctx'], None)
                self.call_value(cur, fr, args[0], [ctx], (r, ()), af, span)
                A(af, dst, ('use', ('v', r, ('Ready.0',))), span); G(af, ret)
                return True
        if own in ('Fn', 'FnMut', 'FnOnce', 'AsyncFn', 'AsyncFnOnce', 'AsyncFnMut') and nm in ('call', 'call_mut', 'call_once', 'async_call', 'async_call_once', 'async_call_mut'):
            tup = self.chase(args[1])
            if tup and tup[0] == 'agg' and tup[1][0] == 'tuple':
                aa = tup[2]
            elif self.opty(args[1]) == '()':
                aa = []
            else:
                p = self.as_place(cur, args[1], span)
                c = self.chase(args[0])
                n = 1
                if c and c[0] == 'agg' and c[1][0] == 'closure' and self.F.has(c[1][1]):
                    n = self.F.body(c[1][1]).argc - 1
                aa = [('v', p[0], p[1] + (str(i),)) for i in range(n)]
            self.call_value(cur, fr, args[0], aa, dst, ret, span)
            return True
        if nm == 'join' and len(args) == 2 and simp(k[1]).split('::')[0] in ('rayon', 'rayon_core'):
            r1, r2 = self.new_var('?'), self.new_var('?')
            m, af = nb(), nb()
            self.call_value(cur, fr, args[0], [], (r1, ()), m, span)
            self.call_value(m, fr, args[1], [], (r2, ()), af, span)
            A(af, dst, ('agg', ['tuple'], [('v', r1, ()), ('v', r2, ())]), span)
            G(af, ret)
            return True
        if nm == 'in_scope' and len(args) == 2 and own == 'Span':
            self.call_value(cur, fr, args[1], [], dst, ret, span)
            return True
        if nm in ('spawn', 'spawn_blocking', 'block_in_place', 'block_on', 'spawn_local') and self.std_ns(k):
            val = args[-1]
            c = self.chase(val)
            r = self.new_var('?')
            af = nb()
            if c and c[0] == 'agg' and c[1][0] == 'closure':
                self.call_value(cur, fr, val, [], (r, ()), af, span)
            elif c and c[0] == 'fn':
                self.call_value(cur, fr, val, [], (r, ()), af, span)
            else:
                A(cur, (r, ()), ('use', val), span)
                G(cur, af)
            if nm in ('block_on', 'block_in_place'):
                A(af, dst, ('use', ('v', r, ())), span); G(af, ret)
                return True
            ok, bad = nb(), nb()
            self.blocks[af].t = ('choice', [('joined', ok), ('join-error', bad)], span)
            A(ok, dst, self.agg1(RES, 'Ok', [('v', r, ())]), span); G(ok, ret)
            ev = self.new_var('JoinError')
            A(bad, (ev, ()), ('elem', None, 'JoinError', 0), span)
            A(bad, dst, self.agg1(RES, 'Err', [('v', ev, ())]), span); G(bad, ret)
            return True
        # ---- iterator consumption
        if own in ITER_TRAITS or (own in ('[T]', 'Iter', 'IterMut', 'IntoIter') and nm in CONSUME):
            if nm == 'next' and own == 'Iterator':
                if self.iter_structured(args[0]):
                    head = nb()
                    G(cur, head)
                    none = nb()

                    def c(blk, el):
                        A(blk, dst, self.agg1(OPT, 'Some', [el]), span); G(blk, ret)
                    self.expand_next(fr, head, args[0], c, none, span)
                    A(none, dst, self.agg1(OPT, 'None', []), span); G(none, ret)
                    return True
            elif nm in CONSUME and own in ITER_TRAITS:
                if self.consume(fr, cur, k, nm, args, dst, ret, span):
                    return True
            elif nm in ADAPT:
                # lazy: keep as an opaque value, expanded where it is consumed
                self.opaque_call(cur, k, args, dst, ret, span)
                return True
        # ---- Option / Result
        if own in ('Option', 'Result') and args:
            o = args[0]
            adt = OPT if own == 'Option' else RES
            g, b = ('Some', 'None') if own == 'Option' else ('Ok', 'Err')
            if nm in ('is_some', 'is_none', 'is_ok', 'is_err'):
                p = self.as_place(cur, o, span)
                x, y = nb(), nb()
                pos = nm in ('is_some', 'is_ok')
                self.sw_discr(cur, p, adt, {g: x, b: y}, span, fr)
                A(x, dst, ('use', T if pos else Fa), span); G(x, ret)
                A(y, dst, ('use', Fa if pos else T), span); G(y, ret)
                return True
            TW = {'is_some_and', 'is_none_or', 'is_ok_and', 'is_err_and', 'ok_or', 'ok_or_else', 'map', 'map_err', 'and_then', 'or_else',
                  'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'map_or', 'map_or_else', 'unwrap', 'expect', 'ok', 'err', 'filter',
                  'inspect', 'inspect_err', 'and', 'or', 'unwrap_err', 'expect_err', 'xor_'}
            if nm in TW:
                p = self.as_place(cur, o, span)
                x, y = nb(), nb()
                gp = ('v', p[0], p[1] + (g + '.0',))
                bp = ('v', p[0], p[1] + ('Err.0',))
                self.sw_discr(cur, p, adt, {g: x, b: y}, span, fr)

                def wrap(blk, callee, cargs, w):
                    r = self.new_var('?')
                    af = nb()
                    self.call_value(blk, fr, callee, cargs, (r, ()), af, span)
                    A(af, dst, w(('v', r, ())), span); G(af, ret)
                bad_self = (lambda: self.agg1(OPT, 'None', [])) if adt == OPT else (lambda: self.agg1(RES, 'Err', [bp]))
                if nm in ('is_some_and', 'is_ok_and'):
                    wrap(x, args[1], [gp], lambda r: ('use', r)); A(y, dst, ('use', Fa), span); G(y, ret)
                elif nm == 'is_none_or':
                    wrap(x, args[1], [gp], lambda r: ('use', r)); A(y, dst, ('use', T), span); G(y, ret)
                elif nm == 'is_err_and':
                    wrap(y, args[1], [bp], lambda r: ('use', r)); A(x, dst, ('use', Fa), span); G(x, ret)
                elif nm == 'ok_or':
                    A(x, dst, self.agg1(RES, 'Ok', [gp]), span); G(x, ret)
                    A(y, dst, self.agg1(RES, 'Err', [args[1]]), span); G(y, ret)
                elif nm == 'ok_or_else':
                    A(x, dst, self.agg1(RES, 'Ok', [gp]), span); G(x, ret)
                    wrap(y, args[1], [], lambda r: self.agg1(RES, 'Err', [r]))
                elif nm == 'map':
                    wrap(x, args[1], [gp], lambda r: self.agg1(adt, g, [r])); A(y, dst, bad_self(), span); G(y, ret)
                elif nm == 'map_err':
                    A(x, dst, self.agg1(RES, 'Ok', [gp]), span); G(x, ret)
                    wrap(y, args[1], [bp], lambda r: self.agg1(RES, 'Err', [r]))
                elif nm == 'and_then':
                    wrap(x, args[1], [gp], lambda r: ('use', r)); A(y, dst, bad_self(), span); G(y, ret)
                elif nm == 'or_else':
                    A(x, dst, self.agg1(adt, g, [gp]), span); G(x, ret)
                    wrap(y, args[1], [bp] if adt == RES else [], lambda r: ('use', r))
                elif nm == 'and':
                    A(x, dst, ('use', args[1]), span); G(x, ret); A(y, dst, bad_self(), span); G(y, ret)
                elif nm == 'or':
                    A(x, dst, self.agg1(adt, g, [gp]), span); G(x, ret); A(y, dst, ('use', args[1]), span); G(y, ret)
                elif nm == 'unwrap_or':
                    A(x, dst, ('use', gp), span); G(x, ret); A(y, dst, ('use', args[1]), span); G(y, ret)
                elif nm == 'unwrap_or_else':
                    A(x, dst, ('use', gp), span); G(x, ret)
                    wrap(y, args[1], [bp] if adt == RES else [], lambda r: ('use', r))
                elif nm == 'unwrap_or_default':
                    A(x, dst, ('use', gp), span); G(x, ret)
                    self.opaque_call(y, ['fn', 'std::default::Default::default', None, [], 0], [], dst, ret, span)
                elif nm == 'map_or':
                    wrap(x, args[2], [gp], lambda r: ('use', r)); A(y, dst, ('use', args[1]), span); G(y, ret)
                elif nm == 'map_or_else':
                    wrap(x, args[2], [gp], lambda r: ('use', r)); wrap(y, args[1], [bp] if adt == RES else [], lambda r: ('use', r))
                elif nm in ('unwrap', 'expect'):
                    A(x, dst, ('use', gp), span); G(x, ret)
                    self.blocks[y].t = ('panic', k, args, span)
                elif nm in ('unwrap_err', 'expect_err'):
                    A(y, dst, ('use', bp), span); G(y, ret)
                    self.blocks[x].t = ('panic', k, args, span)
                elif nm == 'ok':
                    A(x, dst, self.agg1(OPT, 'Some', [gp]), span); G(x, ret)
                    A(y, dst, self.agg1(OPT, 'None', []), span); G(y, ret)
                elif nm == 'err':
                    A(y, dst, self.agg1(OPT, 'Some', [bp]), span); G(y, ret)
                    A(x, dst, self.agg1(OPT, 'None', []), span); G(x, ret)
                elif nm == 'filter':
                    r = self.new_var('bool')
                    af, t1 = nb(), nb()
                    self.call_value(x, fr, args[1], [gp], (r, ()), af, span)
                    self.sw_bool(af, ('v', r, ()), t1, y, span)
                    A(t1, dst, self.agg1(OPT, 'Some', [gp]), span); G(t1, ret)
                    A(y, dst, self.agg1(OPT, 'None', []), span); G(y, ret)
                elif nm == 'inspect':
                    r = self.new_var('?')
                    self.call_value(x, fr, args[1], [gp], (r, ()), y, span)
                    A(y, dst, ('use', o), span); G(y, ret)
                elif nm == 'inspect_err':
                    r = self.new_var('?')
                    self.call_value(y, fr, args[1], [bp], (r, ()), x, span)
                    A(x, dst, ('use', o), span); G(x, ret)
                return True
            if nm in ('take', 'replace') and own == 'Option' and o[0] == 'v':
                A(cur, dst, ('use', o), span)
                A(cur, (o[1], ('*',) + tuple(o[2])), self.agg1(OPT, 'None', []) if nm == 'take' else self.agg1(OPT, 'Some', [args[1]]), span)
                G(cur, ret)
                return True
            if nm in ('as_ref', 'as_mut', 'copied', 'cloned', 'as_deref', 'as_deref_mut', 'iter', 'into_iter', 'take', 'as_slice'):
                A(cur, dst, ('use', o), span); G(cur, ret)
                return True
            if nm == 'flatten':
                p = self.as_place(cur, o, span)
                x, y = nb(), nb()
                self.sw_discr(cur, p, adt, {g: x, b: y}, span, fr)
                A(x, dst, ('use', ('v', p[0], p[1] + (g + '.0',))), span); G(x, ret)
                A(y, dst, self.agg1(OPT, 'None', []) if adt == OPT else self.agg1(RES, 'Err', [('v', p[0], p[1] + ('Err.0',))]), span); G(y, ret)
                return True
            if nm == 'transpose':
                # Option<Result> -> Result<Option>
                p = self.as_place(cur, o, span)
                x, y, x1, x2 = nb(), nb(), nb(), nb()
                if adt == OPT:
                    self.sw_discr(cur, p, OPT, {'Some': x, 'None': y}, span, fr)
                    q = (p[0], p[1] + ('Some.0',))
                    self.sw_discr(x, q, RES, {'Ok': x1, 'Err': x2}, span, fr)
                    s1 = self.new_var('std::option::Option<?>')
                    A(x1, (s1, ()), self.agg1(OPT, 'Some', [('v', q[0], q[1] + ('Ok.0',))]), span)
                    A(x1, dst, self.agg1(RES, 'Ok', [('v', s1, ())]), span); G(x1, ret)
                    A(x2, dst, self.agg1(RES, 'Err', [('v', q[0], q[1] + ('Err.0',))]), span); G(x2, ret)
                    s2 = self.new_var('std::option::Option<?>')
                    A(y, (s2, ()), self.agg1(OPT, 'None', []), span)
                    A(y, dst, self.agg1(RES, 'Ok', [('v', s2, ())]), span); G(y, ret)
                    return True
        if own == 'bool' and nm in ('then', 'then_some'):
            x, y = nb(), nb()
            self.sw_bool(cur, args[0], x, y, span)
            if nm == 'then':
                r = self.new_var('?')
                af = nb()
                self.call_value(x, fr, args[1], [], (r, ()), af, span)
                A(af, dst, self.agg1(OPT, 'Some', [('v', r, ())]), span); G(af, ret)
            else:
                A(x, dst, self.agg1(OPT, 'Some', [args[1]]), span); G(x, ret)
            A(y, dst, self.agg1(OPT, 'None', []), span); G(y, ret)
            return True
        if own in OPS and not is_ws and nm == OPS[own][0] and len(args) == 2:
            # an operator on references or library types
            w = OPS[own]
            ty = self.opty(args[0]).lstrip('&').replace('mut ', '')
            if w[2] and args[0][0] == 'v':
                A(cur, (args[0][1], ('*',) + tuple(args[0][2])), ('bin', w[1], args[0], args[1], ty), span)
                G(cur, ret)
                return True
            if not w[2]:
                A(cur, dst, ('bin', w[1], args[0], args[1], ty), span)
                G(cur, ret)
                return True
        if nm in ('checked_sub', 'checked_div', 'checked_rem') and len(args) == 2 and '<impl u' in k[1] and not is_ws:
            x, y = nb(), nb()
            c = self.new_var('bool')
            v = self.new_var(self.opty(args[0]))
            zero = ('k', ['i', '0', None, None], None)
            if not dst[1]:
                self.synth.add(dst[0])
            A(cur, (c, ()), ('bin', 'Lt', args[0], args[1], 'u64') if nm == 'checked_sub' else ('bin', 'Eq', args[1], zero, 'u64'), span)
            self.sw_bool(cur, ('v', c, ()), y, x, span)
            A(x, (v, ()), ('bin', {'checked_sub': 'Sub', 'checked_div': 'Div', 'checked_rem': 'Rem'}[nm], args[0], args[1], 'u64'), span)
            A(x, dst, self.agg1(OPT, 'Some', [('v', v, ())]), span); G(x, ret)
            A(y, dst, self.agg1(OPT, 'None', []), span); G(y, ret)
            return True
        if nm in TRANSPARENT and args and not is_ws:
            A(cur, dst, ('use', args[0]), span); G(cur, ret)
            return True
        if nm in TRANSPARENT and args and is_ws and nm in ('clone', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'into_iter', 'to_owned', 'to_string'):
            A(cur, dst, ('use', args[0]), span); G(cur, ret)
            return True
        if nm == 'from' and own in ('From',) and args and not is_ws:
            A(cur, dst, ('use', args[0]), span); G(cur, ret)
            return True
        if nm in ('new',) and own in ('Arc', 'Box', 'Rc', 'Pin', 'RwLock', 'Mutex', 'Cell', 'RefCell') and args:
            A(cur, dst, ('use', args[0]), span); G(cur, ret)
            return True
        if own in ('Index', 'IndexMut') and nm in ('index', 'index_mut') and not is_ws and len(args) == 2 and args[0][0] == 'v':
            ix = args[1]
            if ix[0] == 'k' and ix[1][0] == 'i' and ix[1][1] is not None and self.plain(ix[1]) and str(ix[1][1]).isdigit():
                el = '[#%s]' % ix[1][1]
            else:
                if ix[0] == 'k' or ix[2]:
                    iv = self.new_var(self.opty(ix) if ix[0] == 'k' else '?')
                    A(cur, (iv, ()), ('use', ix), span)
                    self.add_def(iv, ('rv', ('use', ix)))
                else:
                    iv = ix[1]
                el = ('i', iv)
            A(cur, dst, ('refmut' if nm == 'index_mut' else 'ref', (args[0][1], args[0][2] + (el,))), span)
            G(cur, ret)
            return True
        if nm in ('with_capacity', 'with_capacity_and_hasher') and not is_ws and args:
            # room set aside is no part of the value
            self.opaque_call(cur, ['fn', k[1].replace(nm, 'new'), None, k[3] if len(k) > 3 else [], 0], [], dst, ret, span)
            return True
        if own == 'mem' and nm in ('take', 'replace') and args and args[0][0] == 'v':
            A(cur, dst, ('use', args[0]), span)
            tgt = (args[0][1], ('*',) + tuple(args[0][2]))
            if nm == 'replace':
                A(cur, tgt, ('use', args[1]), span)
                G(cur, ret)
            else:
                d = self.new_var('?')
                af = nb()
                self.opaque_call(cur, ['fn', 'std::default::Default::default', None, [], 0], [], (d, ()), af, span)
                A(af, tgt, ('use', ('v', d, ())), span)
                G(af, ret)
            return True
        return False

    def std_ns(self, k):
        return simp(k[1]).split('::')[0] in ('tokio', 'std', 'futures', 'rayon', 'async_std')

    # ---------------------------------------------------------------- post-processing
    def succs(self, b):
        t = self.blocks[b].t
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            r = [x for _, x in t[2]]
            if t[3] is not None:
                r.append(t[3])
            return r
        if k == 'assert':
            return [t[4]]
        if k == 'call':
            return [t[4]]
        if k == 'choice':
            return [x for _, x in t[1]]
        return []

    def plain(self, k):
        """a literal, or a constant that is not on record (reported by its value)"""
        return len(k) > 3 and (not k[3] or self.F.const_name(self.F.cnorm(k[3])) is None)

    def const_index(self):
        """an index held in a variable that is only ever one constant names one element"""
        memo = {}

        def known(v):
            if v not in memo:
                w = self.whole.get(v) or ()
                memo[v] = None
                if v not in self.params and len(w) == 1 and w[0][2][0] == 'use':
                    o = w[0][2][1]
                    if o[0] == 'k':
                        if o[1][0] == 'i' and o[1][1] is not None and o[1][1].isdigit() and self.plain(o[1]):
                            memo[v] = '[#%s]' % o[1][1]
                    elif o[0] == 'v' and not o[2]:
                        memo[v] = known(o[1])
            return memo[v]

        def sub(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'i' and isinstance(x[1], int):
                    return known(x[1]) or x
                y = tuple(map(sub, x))
                return x if all(p is q for p, q in zip(x, y)) else y
            if isinstance(x, list):
                y = [sub(z) for z in x]
                return x if all(p is q for p, q in zip(x, y)) else y
            return x

        for b in self.reach:
            B = self.blocks[b]
            for i, (dst, rv, sp) in enumerate(B.s):
                d, r = sub(dst), sub(rv)
                if d is not dst or r is not rv:
                    B.s[i] = (d, r, sp)
                    if not d[1]:
                        self.whole[d[0]] = [(x, y, r if (x, y) == (b, i) else z) for x, y, z in self.whole[d[0]]]
            if B.t[0] in ('call', 'switch', 'assert'):
                t = sub(B.t)
                if t is not B.t:
                    B.t = t

    def finish(self):
        # rebuild the definition table on the final graph
        n = len(self.blocks)
        self.preds = [[] for _ in range(n)]
        self.reach = set()
        st = [self.entry]
        while st:
            b = st.pop()
            if b in self.reach:
                continue
            self.reach.add(b)
            if self.blocks[b].t is None:
                self.blocks[b].t = ('dead',)
            for s in self.succs(b):
                st.append(s)
        for b in self.reach:
            for s in self.succs(b):
                self.preds[s].append(b)
        self.whole = {}   # var -> [(blk, idx, kind)] whole-variable definitions
        for b in self.reach:
            B = self.blocks[b]
            for i, (dst, rv, sp) in enumerate(B.s):
                if not dst[1]:
                    self.whole.setdefault(dst[0], []).append((b, i, rv))
            if B.t[0] == 'call' and not B.t[3][1]:
                self.whole.setdefault(B.t[3][0], []).append((b, len(B.s), ('callres', b)))
        self.const_index()
        self._alias = {}
        # definition sites keyed by alias root
        self.sites = {}   # var -> list of (blk, idx, path, kind, payload)
        for b in self.reach:
            B = self.blocks[b]
            for i, (dst, rv, sp) in enumerate(B.s):
                v, p = self.canon(dst[0], dst[1])
                if not dst[1]:
                    # definition of the variable itself (even when it is a reference)
                    self.sites.setdefault(dst[0], []).append((b, i, (), 'rv', rv))
                else:
                    self.sites.setdefault(v, []).append((b, i, p, 'rv', rv))
            if B.t[0] == 'call':
                dst = B.t[3]
                i = len(B.s)
                if not dst[1]:
                    self.sites.setdefault(dst[0], []).append((b, i, (), 'call', b))
                else:
                    v, p = self.canon(dst[0], dst[1])
                    self.sites.setdefault(v, []).append((b, i, p, 'call', b))
                for a in B.t[2]:
                    if a[0] == 'v' and self.is_mutref(a):
                        v, p = self.canon(a[1], a[2])
                        if v == a[1] and p == a[2] and not self.params.get(v) and False:
                            continue
                        self.sites.setdefault(v, []).append((b, i, p, 'mut', b))

    def is_mutref(self, a):
        v = a[1]
        if a[2]:
            return False
        t = self.vty[v]
        if t.startswith('&mut ') or 'Pin<&mut' in t:
            return True
        w = self.whole.get(v)
        if w and len(w) == 1 and w[0][2][0] == 'refmut':
            return True
        if w and len(w) == 1 and w[0][2][0] == 'use' and t == '?' and w[0][2][1][0] == 'v':
            return self.is_mutref(w[0][2][1])
        return False

    def is_ref_ty(self, v):
        t = self.vty[v]
        return t.startswith('&') or t == '?' or 'Pin<&' in t or t.startswith('closure:') or t.startswith('coroutine:') or t.startswith('std::option::Option<&') or t.startswith('*')

    def canon(self, var, path):
        """resolve references: (var, path) -> the place finally designated"""
        if '*' in path:
            path = tuple(e for e in path if e != '*')
        n = 0
        while n < 80:
            n += 1
            w = self.whole.get(var)
            if not w or len(w) != 1:
                return var, path
            rv = w[0][2]
            if rv[0] in ('ref', 'refmut'):
                var, path = rv[1][0], rv[1][1] + path
                continue
            if rv[0] == 'use' and rv[1][0] == 'v' and self.is_ref_ty(var):
                var, path = rv[1][1], rv[1][2] + path
                continue
            if rv[0] == 'agg' and path:
                c = self.agg_comp(rv, path[0])
                if c is not None and c[0] == 'v' and (rv[1][0] in ('closure', 'coroutine') or self.is_ref_ty(c[1])):
                    var, path = c[1], c[2] + path[1:]
                    continue
            return var, path
        return var, path
