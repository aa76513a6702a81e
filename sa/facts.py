"""Loading of the per-crate fact files written by the rustc driver."""
import glob, json, os, re

IDRE = re.compile(r'^\{"id":"((?:[^"\\]|\\.)*)"')

STD_VARIANTS = {
    'Option': {'None': 0, 'Some': 1},
    'Result': {'Ok': 0, 'Err': 1},
    'ControlFlow': {'Continue': 0, 'Break': 1},
    'Poll': {'Ready': 0, 'Pending': 1},
    'Ordering': {'Less': -1, 'Equal': 0, 'Greater': 1},
    'Entry': {'Vacant': 0, 'Occupied': 1},
}


def strip_generics(p):
    out, d, i = [], 0, 0
    while i < len(p):
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>' and (i == 0 or p[i - 1] not in '-='):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s


def split_path(p):
    """Split a def path on `::` at bracket depth 0."""
    parts, d, cur, i = [], 0, [], 0
    while i < len(p):
        c = p[i]
        if c in '<{[(':
            d += 1
        elif c in '>}])' and not (c == '>' and i and p[i - 1] in '-='):
            d -= 1
        if d == 0 and p.startswith('::', i):
            parts.append(''.join(cur))
            cur = []
            i += 2
            continue
        cur.append(c)
        i += 1
    parts.append(''.join(cur))
    return parts


class Body:
    __slots__ = ('id', 'kind', 'parent', 'root', 'cor', 'derived', 'vis', 'argc', 'span', 'self_ty', 'trait', 'name',
                 'locals', 'upvars', 'bbs', 'hdr', 'crate')

    def __init__(self, d, hdr):
        for k in ('id', 'kind', 'parent', 'root', 'cor', 'derived', 'vis', 'argc', 'span', 'self_ty', 'trait', 'locals', 'upvars', 'bbs'):
            setattr(self, k, d.get(k))
        self.name = d.get('name')
        self.hdr = hdr
        self.crate = hdr['crate']

    def ty(self, local):
        return self.hdr['tys'][self.locals[local][0]]

    def tystr(self, idx):
        return self.hdr['tys'][idx]

    def loc(self, span=None):
        sp = span or self.span
        if not sp:
            return self.id
        return '%s:%d' % (self.hdr['files'][sp[0]], sp[1])

    def macros(self, span):
        return [self.hdr['macs'][m] for m in span[2:]]


INTS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'bool', 'char'}
MACROCONST = {'_', 'ELEM', 'ELTS', 'BITS', 'LEN', 'COUNT'}      # made by bitvec's, tokio's and serde's macros


class Facts:
    def __init__(self, d, only=None):
        self.dir = d
        self.index = {}
        self.hdrs = {}
        self.adts = {}
        self.impls = []
        self._cache = {}
        self.nbodies = 0
        self.closures_of = {}
        self.const_known = None     # names of constants on record (None: all)
        self._consts = None
        for f in sorted(glob.glob(os.path.join(d, '*.facts'))):
            with open(f, encoding='utf-8') as fh:
                h = json.loads(fh.readline())
                cr = h['crate']
                if cr in self.hdrs and cr in ('fr_codec_derive', 'fastroll'):
                    continue
                if cr in self.hdrs:
                    raise RuntimeError('duplicate facts for crate ' + cr)
                self.hdrs[cr] = h
                for p, v in h['adts'].items():
                    self.adts[p] = v
                for im in h['impls']:
                    self.impls.append((cr, h['tys'][im[0]], im[1], im[2], im[3] if len(im) > 3 else 0))
                n = 0
                for line in fh:
                    m = IDRE.match(line)
                    if not m:
                        raise RuntimeError('bad facts line in ' + f)
                    i = m.group(1)
                    if '\\' in i:
                        i = json.loads('"' + i + '"')
                    self.index[i] = (line, h)
                    n += 1
                if n != h['n']:
                    raise RuntimeError('truncated facts ' + f)
                self.nbodies += n

    def body(self, i):
        b = self._cache.get(i)
        if b is None:
            e = self.index.get(i)
            if e is None:
                return None
            b = Body(json.loads(e[0]), e[1])
            self._cache[i] = b
        return b

    def has(self, i):
        return i in self.index

    CONST = re.compile(r'\["i","(-?\d+)",\d+,"((?:[^"\\\\]|\\\\.)*[a-zA-Z](?:[^"\\\\]|\\\\.)*)"')

    @staticmethod
    def cnorm(name):
        """name of a constant, without the closures and bodies it may be declared in"""
        return '::'.join(x for x in simp(name).split('::') if not x.startswith('{closure'))

    def consts(self):
        """{name: sorted values} of the named integer constants used anywhere"""
        if self._consts is None:
            r = {}
            for line, h in self.index.values():
                for m in self.CONST.finditer(line):
                    r.setdefault(self.cnorm(m.group(2)), set()).add(m.group(1))
            for cr, path, ty, v, at in self.items():
                if ty not in INTS:
                    r.setdefault(self.cnorm(path), set()).add(v)
            self._consts = {k: sorted(v) for k, v in r.items()}
        return self._consts

    def items(self):
        """[(crate, path, type, value, location)] of the constant items that do not depend on generics"""
        r = []
        for cr, h in self.hdrs.items():
            for path, ty, v, sp in h.get('consts', []):
                if path.rsplit('::', 1)[-1] in MACROCONST:
                    continue
                r.append((cr, path, h['tys'][ty], v, '%s:%d' % (h['files'][sp[0]], sp[1]) if sp else path))
        return r

    def const_value(self, name):
        v = self.consts().get(name)
        return v[0] if v and len(v) == 1 else None

    def const_name(self, name):
        """name under which a constant is reported; None for one that is not on record (its value is reported instead)"""
        if self.const_known is None or name in self.const_known:
            return name
        if not hasattr(self, '_calias'):
            now = self.consts()
            gone = [k for k in self.const_known if k not in now]
            self._calias = {}
            for n, v in now.items():
                if n in self.const_known:
                    continue
                c = [g for g in gone if self.const_known[g] == v and (g.rsplit('::', 1)[0] == n.rsplit('::', 1)[0]
                     or g.rsplit('::', 1)[-1] == n.rsplit('::', 1)[-1] and n.startswith(g.rsplit('::', 1)[0]))]
                if len(c) == 1:
                    self._calias[n] = c[0]
        return self._calias.get(name)

    def find(self, suffix, closures=False):
        """All body ids whose generics-free path ends with `suffix`."""
        r = []
        for i in self.index:
            if '{' in i and not closures and '{closure' in i:
                continue
            s = simp(i)
            if s == suffix or s.endswith('::' + suffix):
                r.append(i)
        return r

    def one(self, suffix):
        r = self.find(suffix)
        if len(r) != 1:
            raise MissingAnchor('expected exactly one function %r, found %r' % (suffix, r))
        return r[0]

    def discr(self, adt, variant):
        """discriminant of a variant as a string"""
        last = split_path(adt)[-1]
        v = self.adts.get(adt)
        if v is None and last in STD_VARIANTS:
            d = STD_VARIANTS[last].get(variant)
            return None if d is None else str(d)
        if v is None:
            return None
        for nm, d, _ in v:
            if nm == variant:
                return str(d)
        return None

    def variants(self, adt):
        """{discr string: name}"""
        v = self.adts.get(adt)
        if v is not None:
            return {str(d): nm for nm, d, _ in v}
        last = split_path(adt)[-1]
        if last in STD_VARIANTS:
            return {str(d): n for n, d in STD_VARIANTS[last].items()}
        return None


class MissingAnchor(Exception):
    pass


_simp = {}


def simp(p):
    """Canonical short path: generics removed, `<T as Trait>::m` -> `T::m`."""
    r = _simp.get(p)
    if r is None:
        parts = split_path(p)
        out = []
        for x in parts:
            if x.startswith('<impl '):
                # `path::<impl Trait for Type>::m`
                m = re.match(r'<impl (?:.* for )?(.*)>$', x)
                t = m.group(1) if m else x
                t = strip_generics(t.lstrip("&' amut_")) if t.startswith('&') else strip_generics(t)
                out.append(split_path(t)[-1])
            elif x.startswith('<') and ' as ' in x and x is parts[0]:
                t = x[1:x.rindex(' as ')] if False else _self_of(x)
                t = strip_generics(t.lstrip('&').replace('mut ', ''))
                out.extend(t.split('::'))
            elif x.startswith('<'):
                if x is parts[0]:
                    t = strip_generics(x[1:-1].lstrip('&'))
                    out.extend(t.split('::'))
                continue
            else:
                out.append(strip_generics(x))
        r = '::'.join(o for o in out if o)
        _simp[p] = r
    return r


def _self_of(x):
    # x = '<T as Trait>' ; find ' as ' at depth 1
    d = 0
    i = 0
    while i < len(x):
        c = x[i]
        if c == '<':
            d += 1
        elif c == '>' and x[i - 1] not in '-=':
            d -= 1
        elif d == 1 and x.startswith(' as ', i):
            return x[1:i]
        i += 1
    return x[1:-1]


def last2(p):
    s = simp(p).split('::')
    return '::'.join(s[-2:])
