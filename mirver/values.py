"""Symbolic values of MIR locals."""
import re
from .terms import *
from .terms import _lin_parts
from .mir import split_top


class Unsupported(Exception):
    """construct outside the verifier's reach (never reported as a violation)"""


class V:
    pass


class VAgg(V):
    """struct / tuple / closure environment"""
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name, self.f = name, tuple(f)

    def __repr__(self):
        return '%s%r' % (self.name, self.f)


UNIT = VAgg('tuple', ())


class VEnum(V):
    __slots__ = ('ty', 'd', 'p')

    def __init__(self, ty, d, p=None):
        self.ty, self.d, self.p = ty, d, p or {}

    def __repr__(self):
        return '%s<%r>%r' % (self.ty, self.d, self.p)


class VShared(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '&%r' % (self.v,)


class VMut(V):
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __repr__(self):
        return '&mut %r%r' % (self.cell, self.path)


class VMutIte(V):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class VOpaque(V):
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return '<%s>' % (self.what,)


class VFn(V):
    """function item or uninterpreted closure parameter"""
    __slots__ = ('name', 'uf')

    def __init__(self, name, uf=None):
        self.name, self.uf = name, uf


class VSeq(V):
    """Vec / array / slice: length + element function (or explicit items)"""
    __slots__ = ('n', '_fn', 'items', '_memo')

    def __init__(self, n, fn=None, items=None):
        self.n, self._fn, self.items, self._memo = n, fn, items, {}

    @staticmethod
    def lst(items):
        items = list(items)
        return VSeq(IntC(len(items)), None, items)

    def at(self, j):
        if self.items is not None:
            if isc(j):
                if 0 <= cv(j) < len(self.items):
                    return self.items[cv(j)]
                raise Unsupported('constant index out of range')
            if not self.items:
                raise Unsupported('index into empty sequence')
            r = self.items[-1]
            for k in range(len(self.items) - 2, -1, -1):
                r = mergev(Eq(j, IntC(k)), self.items[k], r)
            return r
        r = self._memo.get(j)
        if r is None:
            r = self._fn(j)
            self._memo[j] = r
        return r

    def set(self, j, v):
        if self.items is not None and isc(j):
            it = list(self.items)
            it[cv(j)] = v
            return VSeq.lst(it)
        return VSeq(self.n, lambda k: mergev(Eq(k, j), v, self.at(k)))

    def push(self, v):
        if self.items is not None:
            return VSeq.lst(self.items + [v])
        return VSeq(Add(self.n, IntC(1)), lambda k: mergev(Eq(k, self.n), v, self.at(k)))

    def __repr__(self):
        if self.items is not None:
            return 'seq%r' % (self.items,)
        return 'seq(n=%r)' % (self.n,)


_mapid = [0]


class VMap(V):
    """finite map from keys (tuples of Int terms) to values; kt = key type"""

    def __init__(self, kt):
        self.kt = kt
        self._memo = {}
        _mapid[0] += 1
        self.uid = _mapid[0]

    def get(self, key):
        r = self._memo.get(key)
        if r is None:
            r = self._get(key)
            self._memo[key] = r
        return r


class MFun(VMap):
    def __init__(self, kt, fn):
        VMap.__init__(self, kt)
        self.fn = fn

    def _get(self, key):
        return self.fn(key)


class MEmpty(VMap):
    def _get(self, key):
        return (FALSE, VOpaque('absent'))


def keyeq(a, b):
    if len(a) != len(b):
        raise Unsupported('keys of different shape')
    return And(*[Eq(x, y) for x, y in zip(a, b)])


class MPut(VMap):
    """old with key -> (pres, val)"""

    def __init__(self, old, key, pres, val):
        VMap.__init__(self, old.kt)
        self.old, self.key, self.pres, self.val = old, key, pres, val

    def _get(self, key):
        e = keyeq(self.key, key)
        if e is TRUE:
            return (self.pres, self.val)
        p, v = self.old.get(key)
        if e is FALSE:
            return (p, v)
        return (Ite(e, self.pres, p), mergev(e, self.val, v))


class MIte(VMap):
    def __init__(self, c, a, b):
        VMap.__init__(self, a.kt)
        self.c, self.a, self.b = c, a, b

    def _get(self, key):
        p, v = self.a.get(key)
        q, w = self.b.get(key)
        return (Ite(self.c, p, q), mergev(self.c, v, w))


class VIter(V):
    """iterator: raw length n, item(eng, st, j) -> (guard, value), position pos"""
    __slots__ = ('n', 'item', 'pos', 'guarded', 'src', 'effect', 'known', 'step', 'parts')

    def __init__(self, n, item, pos=None, guarded=False, src=None, effect=False, known=None, step=None, parts=()):
        self.parts = parts        # the iterators of a chain
        self.step = step          # step(eng, st, j) -> (state, guard, value)|None: item j with the effects of computing it
        self.known = known        # known(j): a fact that holds at every position (an enumerated key is present)
        self.n, self.item, self.pos = n, item, pos if pos is not None else IntC(0)
        self.guarded, self.src, self.effect = guarded, src, effect

    def at(self, pos):
        return VIter(self.n, self.item, pos, self.guarded, self.src, self.effect, self.known, self.step)

    def __repr__(self):
        return 'iter(n=%r,pos=%r)' % (self.n, self.pos)


class VFilt(V):
    """a collected Vec whose items carry guards: the item j of the iterator is present when its guard holds"""
    __slots__ = ('it',)

    def __init__(self, it):
        self.it = it

    def __repr__(self):
        return 'filtered(%r)' % self.it


class VFlat(V):
    """flat_map to arrays: an iterator whose items are sequences of c values"""
    __slots__ = ('it', 'c')

    def __init__(self, it, c):
        self.it, self.c = it, c


class VText(V):
    """text: a rope of ('lit', s), ('str', name), ('arg', value, precision), ('if', c, A, B),
    ('rep', n, j, nodes), ('open', term) and ('any', id) nodes"""
    __slots__ = ('nodes',)

    def __init__(self, nodes=()):
        self.nodes = tuple(nodes)

    def __repr__(self):
        return 'text%r' % (self.nodes,)


def nodesame(x, y):
    if x is y:
        return True
    if x[0] != y[0]:
        return False
    if x[0] in ('lit', 'str', 'any'):
        return x[1] == y[1]
    if x[0] == 'arg':
        return x[2] == y[2] and same(x[1], y[1])
    if x[0] == 'open':
        return x[1] is y[1]
    if x[0] == 'nl':
        return True
    if x[0] == 'if':
        return x[1] is y[1] and nodessame(x[2], y[2]) and nodessame(x[3], y[3])
    if x[0] == 'rep':
        return x[1] is y[1] and nodessame(x[3], y[3] if x[2] is y[2] else substv(VText(y[3]), {y[2]: x[2]}).nodes)
    return False


def nodessame(a, b):
    return len(a) == len(b) and all(nodesame(x, y) for x, y in zip(a, b))


def mergetext(c, a, b):
    a, b = a.nodes, b.nodes
    pre, post = [], []
    while a and b and nodesame(a[0], b[0]):
        pre.append(a[0])
        a, b = a[1:], b[1:]
    while a and b and nodesame(a[-1], b[-1]):
        post.insert(0, a[-1])
        a, b = a[:-1], b[:-1]
    return VText(pre + ([('if', c, a, b)] if a or b else []) + post)


def substnodes(ns, m):
    out = []
    for n in ns:
        if n[0] == 'arg':
            n = ('arg', substv(n[1], m), n[2])
        elif n[0] == 'open':
            n = ('open', subst(n[1], m))
        elif n[0] == 'if':
            c = subst(n[1], m)
            if c is TRUE or c is FALSE:
                out.extend(substnodes(n[2] if c is TRUE else n[3], m))
                continue
            n = ('if', c, substnodes(n[2], m), substnodes(n[3], m))
        elif n[0] == 'rep':
            n = ('rep', subst(n[1], m), n[2], substnodes(n[3], m))
        out.append(n)
    return tuple(out)


class Undef(V):
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return a is b
    if type(a) is not type(b):
        return False
    if isinstance(a, VAgg):
        return a.name == b.name and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, VEnum):
        return a.ty == b.ty and a.d is b.d and set(a.p) == set(b.p) and all(
            all(same(x, y) for x, y in zip(a.p[k], b.p[k])) for k in a.p)
    if isinstance(a, VShared):
        return same(a.v, b.v)
    if isinstance(a, VMut):
        return a.cell == b.cell and len(a.path) == len(b.path) and all(x == y for x, y in zip(a.path, b.path))
    if isinstance(a, VSeq):
        if a.items is not None and b.items is not None:
            return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
        return a._fn is b._fn and a.n is b.n and a._fn is not None
    if isinstance(a, VOpaque):
        return a.what == b.what
    if isinstance(a, VFn):
        return a.name == b.name
    if isinstance(a, VText):
        return nodessame(a.nodes, b.nodes)
    if isinstance(a, VIter):
        return a.item is b.item and a.n is b.n and a.pos is b.pos
    if isinstance(a, MPut):
        return a.key == b.key and a.pres is b.pres and same(a.val, b.val) and same(a.old, b.old)
    return False


def _common(c, a, b):
    """the two values of an accumulator after a branch: x + v, x  ->  x + (c ? v : 0)"""
    pa, pb = dict(_lin_parts(a)[1]), dict(_lin_parts(b)[1])
    com = {x: q for x, q in pa.items() if pb.get(x) == q}
    if not com:
        return Ite(c, a, b)
    x = mklin(0, com, R)
    return Add(x, Ite(c, Sub(a, x), Sub(b, x)))


def mergev(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b or same(a, b):
        return a
    if isinstance(a, VText) and isinstance(b, VText):
        return mergetext(c, a, b)
    if isinstance(a, VOpaque) and not (a.what == 'str' and isinstance(b, VText)):
        return b
    if isinstance(b, VOpaque) and not (b.what == 'str' and isinstance(a, VText)):
        return a
    if isinstance(a, VText) and isinstance(b, VOpaque) or isinstance(b, VText) and isinstance(a, VOpaque):
        return VOpaque('str')
    if isinstance(a, Undef) or isinstance(b, Undef):
        return UNDEF
    if isinstance(a, T) and isinstance(b, T):
        return _common(c, a, b) if a.sort == R and b.sort == R else Ite(c, a, b)
    if isinstance(a, VAgg) and isinstance(b, VAgg) and a.name == b.name and len(a.f) == len(b.f):
        return VAgg(a.name, [mergev(c, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, VEnum) and isinstance(b, VEnum):
        p = {}
        for k in set(a.p) | set(b.p):
            if k in a.p and k in b.p:
                p[k] = tuple(mergev(c, x, y) for x, y in zip(a.p[k], b.p[k]))
            else:
                p[k] = a.p.get(k, b.p.get(k))
        return VEnum(a.ty, Ite(c, a.d, b.d), p)
    if isinstance(a, VShared) and isinstance(b, VShared):
        return VShared(mergev(c, a.v, b.v))
    if isinstance(a, (VMut, VMutIte)) and isinstance(b, (VMut, VMutIte)):
        return VMutIte(c, a, b)
    if isinstance(a, VSeq) and isinstance(b, VSeq):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return VSeq.lst([mergev(c, x, y) for x, y in zip(a.items, b.items)])
        n = Ite(c, a.n, b.n)

        def fn(j, a=a, b=b, c=c):
            def safe(s):
                try:
                    return s.at(j)
                except Unsupported:
                    return VOpaque('oob')
            return mergev(c, safe(a), safe(b))
        return VSeq(n, fn)
    if isinstance(a, VMap) and isinstance(b, VMap):
        return MIte(c, a, b)
    if isinstance(a, VIter) and isinstance(b, VIter) and a.item is b.item and a.n is b.n:
        return a.at(Ite(c, a.pos, b.pos))
    raise Unsupported('cannot merge %r with %r' % (type(a).__name__, type(b).__name__))


def substv(v, m):
    """substitute terms inside a value"""
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, VAgg):
        return VAgg(v.name, [substv(x, m) for x in v.f])
    if isinstance(v, VEnum):
        return VEnum(v.ty, subst(v.d, m), {k: tuple(substv(x, m) for x in p) for k, p in v.p.items()})
    if isinstance(v, VShared):
        return VShared(substv(v.v, m))
    if isinstance(v, VSeq):
        if v.items is not None:
            return VSeq.lst([substv(x, m) for x in v.items])

        def fn(j, v=v, m=m):
            k = fresh('sv', I)
            return substv(substv(v.at(k), m), {k: j})
        return VSeq(subst(v.n, m), fn)
    if isinstance(v, VMap):
        if isinstance(v, MEmpty):
            return v

        def g(key, v=v, m=m):
            # capture-free: evaluate at fresh key symbols, then substitute
            ks = tuple(k if isc(k) else fresh('sk', k.sort) for k in key)
            p, w = v.get(ks)
            p, w = subst(p, m), substv(w, m)
            back = {a: b for a, b in zip(ks, key) if a is not b}
            return subst(p, back), substv(w, back)
        return MFun(v.kt, g)
    if isinstance(v, (VOpaque, VFn, Undef)):
        return v
    if isinstance(v, VText):
        return VText(substnodes(v.nodes, m))
    if isinstance(v, VMut):
        return VMut(v.cell, tuple(_substp(p, m) for p in v.path))
    if isinstance(v, VIter):
        it = v.item
        k_ = fresh('si', I)

        def item(eng, st, j, it=it, m=m):
            k = fresh('si', I)
            g, x = it(eng, st, k)
            return subst(subst(g, m), {k: j}), substv(substv(x, m), {k: j})
        kn = v.known
        return VIter(subst(v.n, m), item, subst(v.pos, m), v.guarded, v.src, v.effect,
                     None if kn is None else lambda j: subst(subst(kn(k_), m), {k_: j}))
    if isinstance(v, VFilt):
        return VFilt(substv(v.it, m))
    raise Unsupported('substv %r' % type(v).__name__)


def _substp(p, m):
    if p[0] == 'idx':
        return ('idx', subst(p[1], m))
    if p[0] == 'key':
        return ('key', tuple(subst(x, m) for x in p[1]))
    return p


def deref(v):
    while isinstance(v, VShared):
        v = v.v
    return v


def keyterms(v):
    v = deref(v)
    if isinstance(v, T):
        return (v,)
    if isinstance(v, VEnum):
        if v.p:
            raise Unsupported('map key with payload')
        return (v.d,)
    if isinstance(v, VAgg):
        r = ()
        for x in v.f:
            r += keyterms(x)
        return r
    raise Unsupported('map key %r' % (v,))


# ------------------------------------------------------------------ types
class Types:
    """struct field order / enum variant order, read from the source text"""

    def __init__(self, srcdir):
        import os
        self.enums, self.structs, self.alias = {}, {}, {}
        self.variants = {}
        for root, _, fs in os.walk(srcdir):
            for f in sorted(fs):
                if f.endswith('.rs'):
                    self._file(open(os.path.join(root, f)).read())

    def _file(self, s):
        s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
        s = re.sub(r'//[^\n]*', '', s)
        for m in re.finditer(r'\benum (\w+)\s*\{', s):
            e = self._close(s, m.end() - 1)
            vs = []
            for v in split_top(s[m.end():e]):
                v = re.sub(r'#\[[^\]]*\]', '', v).strip()
                if not v:
                    continue
                nm = re.match(r'\w+', v).group(0)
                rest = v[len(nm):].strip()
                fl = []
                if rest.startswith('{'):
                    fl = [(re.sub(r'^pub(\([^)]*\))?\s+', '', x).split(':')[0].strip(), x.split(':', 1)[1].strip())
                          for x in split_top(rest[1:-1].strip())]
                elif rest.startswith('('):
                    fl = [(str(i), x) for i, x in enumerate(split_top(rest[1:-1]))]
                vs.append((nm, fl))
            self.enums[m.group(1)] = vs
        for m in re.finditer(r'\bstruct (\w+)(?:<[^>]*>)?\s*\{', s):
            e = self._close(s, m.end() - 1)
            fl = []
            for x in split_top(s[m.end():e]):
                x = re.sub(r'#\[[^\]]*\]', '', x).strip()
                if x:
                    x = re.sub(r'^pub(\([^)]*\))?\s+', '', x)
                    k, t = x.split(':', 1)
                    fl.append((k.strip(), t.strip()))
            self.structs[m.group(1)] = fl
        for m in re.finditer(r'\btype (\w+)\s*=\s*([^;]+);', s):
            self.alias[m.group(1)] = m.group(2).strip()

    def _close(self, s, i):
        d = 0
        while True:
            if s[i] == '{':
                d += 1
            elif s[i] == '}':
                d -= 1
                if d == 0:
                    return i
            i += 1


def short(ty):
    """last path segment without generics"""
    ty = ty.strip()
    base = re.sub(r'<.*$', '', ty, flags=re.S)
    return base.split('::')[-1]


def tyargs(ty):
    i = ty.find('<')
    if i < 0:
        return []
    return [x for x in split_top(ty[i + 1:ty.rindex('>')]) if not x.startswith("'")]


INT = {'usize': (0, 2 ** 64 - 1), 'u64': (0, 2 ** 64 - 1), 'u32': (0, 2 ** 32 - 1), 'u8': (0, 255), 'u16': (0, 65535),
       'isize': (-2 ** 63, 2 ** 63 - 1), 'i64': (-2 ** 63, 2 ** 63 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1),
       'i8': (-128, 127), 'i16': (-32768, 32767), 'u128': (0, 2 ** 128 - 1), 'i128': (-2 ** 127, 2 ** 127 - 1)}

APPFACTS = {}      # app name -> fn(*args) -> [facts]


def bounded(name, lo, hi):
    """integer inputs called `name` lie in lo..hi"""
    BOUNDS[name] = (lo, hi)
    APPFACTS.setdefault(name, lambda *a: [rawle(IntC(lo), App(name, a, I)), rawle(App(name, a, I), IntC(hi))])


def _app_axioms(t):
    if t.op == 'app':
        f = APPFACTS.get(t.args[0])
        if f:
            return f(*t.args[1:])
        if t.args[0] in LAST:
            return last_facts(t)
    return []


from . import smt
smt.AXIOM_HOOKS.append(_app_axioms)


def keysorts(kt):
    return kt[1]


class Sym:
    """symbolic values by type"""

    def __init__(self, types):
        self.types = types

    def resolve(self, ty):
        ty = ty.strip()
        for _ in range(5):
            s = short(ty)
            if s in self.types.alias and '<' not in ty and not ty.startswith('('):
                ty = self.types.alias[s]
            else:
                break
        return ty

    def kt(self, ty):
        """key type descriptor: (tystring, number of Int components, enum size or None)"""
        ty = self.resolve(ty)
        s = short(ty)
        if s in self.types.enums:
            return (s, 1, len(self.types.enums[s]))
        if s in ('NDt', 'NaiveDate'):
            return ('NaiveDate', 1, None)
        if ty.startswith('('):
            parts = [self.kt(x) for x in split_top(ty[1:-1])]
            return ('(%s)' % ', '.join(p[0] for p in parts), sum(p[1] for p in parts), None)
        if s in INT:
            return (s, 1, None)
        return (s, 1, None)

    def unkey(self, kt, key):
        ty = kt[0]
        if ty.startswith('('):
            parts = [self.kt(x) for x in split_top(ty[1:-1])]
            out, i = [], 0
            for p in parts:
                out.append(self.unkey(p, key[i:i + p[1]]))
                i += p[1]
            return VAgg('tuple', out)
        if ty in self.types.enums:
            return VEnum(ty, key[0])
        return key[0]

    def make(self, ty, name, idx=()):
        ty = self.resolve(ty)
        if ty.startswith('&'):
            t = ty[1:].strip()
            t = re.sub(r"^'\w+ ", '', t)
            if t.startswith('mut '):
                raise Unsupported('&mut inside symbolic value')
            return VShared(self.make(t, name, idx))
        s = short(ty)
        if s == 'f64' or s == 'f32':
            return self.scalar(name, idx, R)
        if s == 'bool':
            return self.scalar(name, idx, B)
        if s in ('NDt', 'NaiveDate'):
            if name not in APPFACTS:
                from . import models
                APPFACTS[name] = lambda *a, n=name: models.date_range(App(n, a, I))
            return App(name, idx, I)
        if s in INT:
            lo, hi = INT[s]
            bounded(name, lo, hi)
            return App(name, idx, I)
        if ty.startswith('('):
            return VAgg('tuple', [self.make(x, '%s.%d' % (name, i), idx) for i, x in enumerate(split_top(ty[1:-1]))])
        if s in ('Vec',) or ty.startswith('['):
            el = tyargs(ty)[0] if s == 'Vec' else ty[1:-1].split(';')[0]
            ln = name + '.len'
            bounded(ln, 0, 2 ** 59)
            return VSeq(App(ln, idx, I), lambda j: self.make(el, name + '[]', idx + (j,)))
        if s in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
            ta = tyargs(ty)
            kt = self.kt(ta[0])
            if 'NaiveDate' in kt[0] and name + '.has' not in APPFACTS:
                from . import models
                hn, nk = name + '.has', len(idx)
                APPFACTS[hn] = lambda *a: [Implies(App(hn, a, B), And(*[f for x in a[nk:] for f in models.date_range(x)]))]

            def g(key):
                if kt[2] is not None and isc(key[0]) and not (0 <= cv(key[0]) < kt[2]):
                    return (FALSE, VOpaque('absent'))
                p = App(name + '.has', idx + key, B)
                v = self.make(ta[1], name + '.val', idx + key) if len(ta) > 1 and 'Set' not in s else UNIT
                return p, v
            return MFun(kt, g)
        if s == 'Option':
            d = name + '.some'
            bounded(d, 0, 1)
            return VEnum('Option', App(d, idx, I), {1: (self.make(tyargs(ty)[0], name + '.v', idx),)})
        if s in self.types.enums:
            vs = self.types.enums[s]
            d = name + '.tag'
            bounded(d, 0, len(vs) - 1)
            p = {}
            for i, (vn, fl) in enumerate(vs):
                if fl:
                    p[i] = tuple(self.make(ft, '%s.%s.%s' % (name, vn, fn), idx) for fn, ft in fl)
            return VEnum(s, App(d, idx, I), p)
        if s in self.types.structs:
            return VAgg(s, [self.make(ft, name + '.' + fn, idx) for fn, ft in self.types.structs[s]])
        if s == '()':
            return UNIT
        if s in ('str', 'String') and not idx:
            return VText((('str', name),))
        raise Unsupported('symbolic value of type ' + ty)

    def scalar(self, name, idx, sort):
        return App(name, idx, sort)


def vmentions(v, j):
    """the symbol j occurs in a value (or might)"""
    if isinstance(v, T):
        return j in fv(v)
    if isinstance(v, VAgg):
        return any(vmentions(x, j) for x in v.f)
    if isinstance(v, VEnum):
        return vmentions(v.d, j) or any(vmentions(x, j) for p in v.p.values() for x in p)
    if isinstance(v, VShared):
        return vmentions(v.v, j)
    if isinstance(v, VSeq):
        return any(vmentions(x, j) for x in v.items) if v.items is not None else vmentions(v.n, j) or vmentions(v.at(fresh('vm', I)), j)
    if isinstance(v, MEmpty):
        return False
    if isinstance(v, VMap) and v.kt:
        p, w = v.get(tuple(fresh('vm', I) for _ in range(v.kt[1])))
        return vmentions(p, j) or vmentions(w, j)
    return not isinstance(v, (VFn, Undef)) and v is not UNIT
