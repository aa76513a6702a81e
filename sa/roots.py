"""Canonical names and root selection."""
import fnmatch, re
from facts import simp

_c = {}


def cname(F, i):
    r = _c.get(i)
    if r is None:
        cr = F.index[i][1]['crate']
        s = simp(i)
        if i.startswith('<') and not s.startswith(cr + '::'):
            s = cr + '::' + s
        elif s.split('::')[0] != cr:
            s = cr + '::' + s
        _c[i] = r = s
    return r


SKIPNAME = re.compile(r'(^|::)(__CALLSITE|test_utils|tests|bench|size_hint|fmt|META)(::|$)|::(ELEM|LEN|_DECLS)$|asn_types|\bserde_types\b|::_::')
ALWAYS_SKIP_CRATES = ('fr_asn_types', 'fr_test_utils', 'fr_node_bench')


CODEC_FN = re.compile(r'::(encode_to|encode_to_fixed|decode|decode_fixed|from_entry_type|from_entry_type_mut|into_entry_type|serialize|deserialize|'
                      r'clone|eq|default|drop|zeroize|serialize_with_mode|deserialize_with_mode|check|batch_check|serialized_size|fmt|hash_slice|partial_cmp)$')


def is_fn(b):
    return b.kind in ('Fn', 'AssocFn')


def candidates(F):
    out = []
    for i in F.index:
        if '{closure' in i or '{impl' in i:
            continue
        cr = F.index[i][1]['crate']
        if cr in ALWAYS_SKIP_CRATES:
            continue
        n = cname(F, i)
        if SKIPNAME.search(n):
            continue
        if not is_fn(F.body(i)):
            continue
        out.append((n, i))
    return out


def select(F, patterns, cands=None):
    cands = cands or candidates(F)
    out = {}
    for p in patterns:
        priv = p.startswith('!')
        q = p.lstrip('!')
        rx = re.compile(fnmatch.translate(q))
        hit = 0
        for n, i in cands:
            if rx.match(n):
                b = F.body(i)
                if not priv and '*' in q and not b.vis:
                    continue
                if b.derived:
                    continue
                if '*' in q and CODEC_FN.search(n) and not CODEC_FN.search(q) and not q.startswith('fr_codec') and b.trait:
                    continue
                out[i] = n
                hit += 1
        if not hit:
            out.setdefault('MISSING ' + p, p)
    return out
