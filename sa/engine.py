"""Summaries of the reviewed functions, their record under /verif/spec, and the comparison of the two."""
import glob, json, os, re, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from facts import Facts, simp, MissingAnchor
from roots import cname, candidates, select
from profile import Profile
from compare import compare
import order

VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
HOSTRX = re.compile('::HostCallResult::')
HOSTGOOD = ('continue_with_vm_change', 'continue_with_return_code:OK', 'continue_with_return_code_and_gas:OK')
sys.setrecursionlimit(20000)


def hostout(P, b):
    """outcome of a host function: the result constructor it ends in, and the return code given to it"""
    t = P.fl.blocks[b].t
    if t[0] == 'call' and t[1][0] == 'fn' and '::HostCallResult::' in simp(t[1][1]):
        a = P.S.of(P.T.at(t[2][0], b, len(P.fl.blocks[b].s))) if t[2] else ()
        x = [y for y in a if y.startswith('HostCallReturnCode')]
        return simp(t[1][1]).split('::')[-1] + (':' + x[0].split('::')[-1].strip('{}') if x else '')


class Ctx:
    """facts of the current tree and the record they are compared with"""

    def __init__(self, factsdir, spec=None, F=None):
        self.F = F or Facts(factsdir)
        self.spec = spec
        self.known = set(spec['known']) if spec else set()
        self.roots = set(spec['roots']) if spec else set()
        self.cache = {}
        if spec and spec.get('consts') is not None:
            self.F.const_known = spec['consts']

    def crate(self, i):
        return self.F.index[i][1]['crate']

    def profile(self, i):
        F = self.F
        me = self.crate(i)

        def inline(s, r):
            return r not in self.roots and (self.crate(r) == me or cname(F, r) not in self.known)
        if '::host_functions::' in i and '::HostCallResult::' not in i:
            return Profile(F, i, inline=inline, outcome=hostout, events=HOSTRX, goodkinds=HOSTGOOD)
        return Profile(F, i, inline=inline)

    def facts(self, i):
        if i not in self.cache:
            P = self.profile(i)
            f = P.facts()
            f['inl'] = sorted({cname(self.F, x) for x in P.fl.inlined if x in self.F.index and x != i})
            f['at'] = P.fl.F.body(i).loc()
            self.cache[i] = f
        return self.cache[i]


def load_spec():
    with open(os.path.join(SPEC, 'props.json')) as f:
        props = json.load(f)
    with open(os.path.join(SPEC, 'known.json')) as f:
        known = json.load(f)
    with open(os.path.join(SPEC, 'consts.json')) as f:
        consts = json.load(f)
    roots = {}
    for p in sorted(glob.glob(os.path.join(SPEC, 'roots', '*.json'))):
        with open(p) as f:
            roots.update(json.load(f))
    alt = {}
    p = os.path.join(SPEC, 'alt.json')
    if os.path.exists(p):
        with open(p) as f:
            alt = json.load(f)
    return {'props': props, 'known': known, 'roots': roots, 'consts': consts, 'alt': alt}


def slim(f):
    """facts as recorded: without line numbers"""
    def at(s):
        return s.rsplit(':', 1)[0] if s else s
    g = {k: f[k] for k in ('rejects', 'effects', 'selects', 'rets', 'ranges', 'kinds')}
    g['order'] = order.slim(f['order'])
    g['times'] = order.slim_times(f['order'])
    g['drops'] = [n for n, at in f['drops']]
    for k in ('rejects', 'effects', 'selects'):
        g[k] = [dict(x, at=at(x.get('at', ''))) for x in g[k]]
    return g


def count(f):
    return {'rejects': len(f['rejects']), 'effects': len(f['effects']), 'selects': len(f['selects']),
            'orders': len(f['order'][1]), 'results': sum(len(v) for v in f['rets'].values())}


def compare_root(ctx, i, base):
    """-> (violations [(kind, message, at)], facts or None)"""
    if i not in ctx.F.index:
        j = renamed(ctx, i, base)
        if j is None:
            return [('missing', 'the reviewed function is gone and nothing with its behaviour replaced it', '')], None
        i = j
    try:
        f = ctx.facts(i)
    except Exception as e:
        return [('unanalysed', 'cannot be analysed: %r' % (e,), ctx.F.body(i).loc())], None
    return compare(base['facts'], f), f


def renamed(ctx, i, base):
    cr = base['crate']
    leaf = base['name'].rsplit('::', 1)[-1]
    best = None
    for n, j in candidates(ctx.F):
        if ctx.crate(j) != cr or n in ctx.known:
            continue
        try:
            f = ctx.facts(j)
        except Exception:
            continue
        if not compare(base['facts'], f):
            if n.rsplit('::', 1)[-1] == leaf:
                return j
            best = best or j
    return best
