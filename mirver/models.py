"""Contracts assumed for library functions (std, chrono).  This file is part of
the trusted base: each entry states what the library function does."""
import datetime, re
from fractions import Fraction
from . import terms
from .terms import *
from .values import *
from . import smt
from . import text as tx

# ------------------------------------------------------------------ dates
# a NaiveDate is the Int number of days since 0000-12-31 (num_days_from_ce)


def _py_days(y, m, d):
    y0 = y - 1
    cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return 365 * y0 + y0 // 4 - y0 // 100 + y0 // 400 + cum[m - 1] + (1 if leap and m > 2 else 0) + d


DMIN, DMAX = _py_days(-262143, 1, 1), _py_days(262142, 12, 31)
YMIN, YMAX = -262143, 262142


def date_range(t):
    return [Le(IntC(DMIN), t), Le(t, IntC(DMAX))]


def leap(y):
    """proleptic Gregorian leap year"""
    return Or(And(divides(4, y), Not(divides(100, y))), divides(400, y))


def divides(n, y):
    return Eq(IRem(y, IntC(n)), IntC(0))


def dim(y, m):
    """days in month"""
    r = IntC(31)
    for k, v in ((4, 30), (6, 30), (9, 30), (11, 30)):
        r = Ite(Eq(m, IntC(k)), IntC(v), r)
    return Ite(Eq(m, IntC(2)), Ite(leap(y), IntC(29), IntC(28)), r)


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def cum(y, m):
    r = IntC(0)
    for k in range(2, 13):
        r = Ite(Eq(m, IntC(k)), Add(IntC(CUM[k - 1]), Ite(leap(y), IntC(1), IntC(0)) if k > 2 else IntC(0)), r)
    return r


def days_in_year(y):
    return Ite(leap(y), IntC(366), IntC(365))


def _const_date(n):
    """(y,m,d) of a constant day number"""
    y = n // 366
    y = int((n - 1) // 365.2425) + 1
    while _py_days(y, 1, 1) > n:
        y -= 1
    while _py_days(y + 1, 1, 1) <= n:
        y += 1
    m = 12
    while _py_days(y, m, 1) > n:
        m -= 1
    return y, m, n - _py_days(y, m, 1) + 1


def Year(d):
    return App('date.year', (d,), I)


def Month(d):
    return App('date.month', (d,), I)


def Day(d):
    return App('date.day', (d,), I)


def Ordinal(d):
    return App('date.ordinal', (d,), I)


def Ymd(y, m, d):
    return App('date.ymd', (y, m, d), I)


def Jan1(y):
    """day number of the first of January"""
    return App('date.jan1', (y,), I)


def Yo(y, o):
    return App('date.yo', (y, o), I)


def _rw_part(i):
    def f(a):
        d = a[0]
        if isc(d) and DMIN <= cv(d) <= DMAX:
            y, m, dd = _const_date(cv(d))
            if i == 3:
                return IntC(cv(d) - _py_days(y, 1, 1) + 1)
            return IntC((y, m, dd)[i])
        if d.op == 'ite':
            return Ite(d.args[0], App(_PN[i], (d.args[1],), I), App(_PN[i], (d.args[2],), I))
        return None
    return f


_PN = ['date.year', 'date.month', 'date.day', 'date.ordinal']
for _i, _n in enumerate(_PN):
    APPREW[_n] = _rw_part(_i)


def _rw_ymd(a):
    if all(isc(x) for x in a):
        y, m, d = [cv(x) for x in a]
        if YMIN <= y <= YMAX and 1 <= m <= 12 and 1 <= d and cv(dim(a[0], a[1])) >= d:
            return IntC(_py_days(y, m, d))
    y, m, d = a
    if y.op == 'app' and y.args[0] == 'date.year' and m is App('date.month', y.args[1:], I) and d is App('date.day', y.args[1:], I):
        return y.args[1]
    return None


def _rw_yo(a):
    y, o = a
    if isc(y) and isc(o) and YMIN <= cv(y) <= YMAX and 1 <= cv(o) <= cv(days_in_year(y)):
        return IntC(_py_days(cv(y), 1, 1) + cv(o) - 1)
    if y.op == 'app' and y.args[0] == 'date.year' and o is App('date.ordinal', y.args[1:], I):
        return y.args[1]
    return None


APPREW['date.ymd'] = _rw_ymd
APPREW['date.yo'] = _rw_yo


def ymd_valid(y, m, d):
    return And(Le(IntC(YMIN), y), Le(y, IntC(YMAX)), Le(IntC(1), m), Le(m, IntC(12)), Le(IntC(1), d), Le(d, dim(y, m)))


def yo_valid(y, o):
    return And(Le(IntC(YMIN), y), Le(y, IntC(YMAX)), Le(IntC(1), o), Le(o, days_in_year(y)))


def _f_part(d):
    y, m, dd, o = Year(d), Month(d), Day(d), Ordinal(d)
    return [rawle(IntC(YMIN), y), rawle(y, IntC(YMAX)), rawle(IntC(1), m), rawle(m, IntC(12)), rawle(IntC(1), dd), rawle(dd, dim(y, m)),
            rawle(dd, IntC(31)), rawle(IntC(1), o), rawle(o, days_in_year(y)), Eq(o, Add(cum(y, m), dd)),
            Eq(Ymd(y, m, dd), d), Eq(Yo(y, o), d), Eq(d, Add(Jan1(y), o, IntC(-1)))]


for _n in _PN:
    APPFACTS[_n] = _f_part
BOUNDS.update({'date.year': (YMIN, YMAX), 'date.month': (1, 12), 'date.day': (1, 31), 'date.ordinal': (1, 366)})


def _f_ymd(y, m, d):
    t = Ymd(y, m, d)
    if t.op != 'app':
        return []
    v = ymd_valid(y, m, d)
    return [Implies(v, And(Eq(Year(t), y), Eq(Month(t), m), Eq(Day(t), d), Eq(t, Add(Jan1(y), cum(y, m), d, IntC(-1))), *date_range(t)))]


def _f_yo(y, o):
    t = Yo(y, o)
    if t.op != 'app':
        return []
    v = yo_valid(y, o)
    return [Implies(v, And(Eq(Year(t), y), Eq(Ordinal(t), o), Eq(t, Add(Jan1(y), o, IntC(-1))), *date_range(t)))]


def _f_jan1(y):
    # 400 * (days since year 1) - 146097 * (years since year 1), over a 400-year cycle
    d = Sub(Scale(400, Sub(Jan1(y), IntC(1))), Scale(146097, Sub(y, IntC(1))))
    return [Le(IntC(-591), d), Le(d, IntC(288))] if Jan1(y).op == 'app' else []


APPFACTS['date.jan1'] = _f_jan1
APPFACTS['date.ymd'] = _f_ymd
APPFACTS['date.yo'] = _f_yo


# ------------------------------------------------------------------ helpers
NONE = VEnum('Option', IntC(0), {})


def some(*v):
    return VEnum('Option', IntC(1), {1: tuple(v)})


def opt(cond, v):
    return VEnum('Option', Ite(cond, IntC(1), IntC(0)), {1: (v,)})


def is_some(o):
    return Eq(o.d, IntC(1))


def payload(o, k=1):
    if k not in o.p:
        return VOpaque('missing payload')
    return o.p[k][0] if o.p[k] else UNIT


def merge_sv(eng, a, b):
    """merge two (State, value)|None"""
    if a is None:
        return b
    if b is None:
        return a
    (s, v), (t, w) = a, b
    s, t = s.copy(), t.copy()
    eng.nheap += 1
    c = ('m', eng.nheap)
    s.mem[c], t.mem[c] = v, w
    r = eng.merge2(s, t)
    v = r.mem.pop(c)
    if v is UNDEF and v is not w:
        raise Unsupported('merge of branch values')
    return r, v


def cond_call(eng, st, c, ft, ff):
    """ft(state) under c, ff(state) under not c; each returns (State, value)|None"""
    a = b = None
    s = st.assume(c)
    if s is not None:
        a = ft(s)
    s = st.assume(Not(c))
    if s is not None:
        b = ff(s)
    return merge_sv(eng, a, b)


def eqv(a, b):
    """structural equality of two values (derived PartialEq)"""
    a, b = deref(a), deref(b)
    if isinstance(a, T):
        return Iff(a, b) if a.sort == B else Eq(a, b)
    if isinstance(a, VAgg):
        return And(*[eqv(x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, VEnum):
        cs = [Eq(a.d, b.d)]
        for k in set(a.p) & set(b.p):
            c = And(*[eqv(x, y) for x, y in zip(a.p[k], b.p[k])])
            cs.append(Implies(Eq(a.d, IntC(k)), c))
        return And(*cs)
    if isinstance(a, VSeq):
        if isc(a.n) and isc(b.n):
            if cv(a.n) != cv(b.n):
                return FALSE
            return And(*[eqv(a.at(IntC(i)), b.at(IntC(i))) for i in range(cv(a.n))])
        j = fresh('eqj', I)
        return And(Eq(a.n, b.n), All(a.n, j, eqv(a.at(j), b.at(j))))
    if isinstance(a, VMap):
        kt = a.kt if a.kt and a.kt[2] is not None else (b.kt or a.kt)
        if kt and kt[2] is not None:
            cs = []
            for i in range(kt[2]):
                (p, v), (q, w) = a.get((IntC(i),)), b.get((IntC(i),))
                cs.append(Iff(p, q))
                if p is not FALSE and q is not FALSE and not isinstance(v, VOpaque) and not isinstance(w, VOpaque):
                    cs.append(Implies(p, eqv(v, w)))
            return And(*cs)
        key = tuple(fresh('eqk', I) for _ in range(kt[1]))
        (p, v), (q, w) = a.get(key), b.get(key)
        body = Iff(p, q)
        if not isinstance(v, VOpaque) and not isinstance(w, VOpaque) and p is not FALSE and q is not FALSE:
            body = And(body, Implies(And(p, q), eqv(v, w)))
        return Not(ExistsS(list(key), Not(body)))
    if isinstance(a, VOpaque) and isinstance(b, VOpaque):
        raise Unsupported('comparison of opaque values')
    raise Unsupported('equality of %s' % type(a).__name__)


def scalars(v):
    """lexicographic key of an ordered value"""
    v = deref(v)
    if isinstance(v, T):
        return [v]
    if isinstance(v, VAgg):
        r = []
        for x in v.f:
            r += scalars(x)
        return r
    if isinstance(v, VEnum) and not v.p:
        return [v.d]
    raise Unsupported('ordering of %r' % type(v).__name__)


def lexlt(a, b):
    r = FALSE
    for x, y in reversed(list(zip(a, b))):
        r = Or(Lt(x, y), And(Eq(x, y), r))
    return r


def ltv(a, b):
    return lexlt(scalars(a), scalars(b))


def fvv(v, depth=0):
    """free variables of a value"""
    if isinstance(v, T):
        return fv(v)
    r = frozenset()
    if isinstance(v, VAgg):
        for x in v.f:
            r |= fvv(x)
    elif isinstance(v, VEnum):
        r |= fv(v.d)
        for p in v.p.values():
            for x in p:
                r |= fvv(x)
    elif isinstance(v, VShared):
        r |= fvv(v.v)
    elif isinstance(v, VSeq):
        r |= fv(v.n)
        if v.items is not None:
            for x in v.items:
                r |= fvv(x)
        else:
            j = fresh('fv', I)
            r |= fvv(v.at(j)) - {j}
    elif isinstance(v, VMap) and not isinstance(v, MEmpty):
        key = tuple(fresh('fv', I) for _ in range(v.kt[1]))
        p, w = v.get(key)
        r |= (fv(p) | fvv(w)) - set(key)
    return r


# ------------------------------------------------------------------ key enumeration
_enums = {}
_byN = {}


def _enum_inst(a, sk):
    """(forall j < N: body(K(j))) gives has(key) => body(key)"""
    n, v, body = a.args
    from itertools import permutations
    found = {}
    for x in walk(body):
        if x.op == 'app' and '.K' in x.args[0] and x.args[-1] is v and x.args[0].split('.K')[0] + '.N' in _byN:
            found[x.args[0].split('.K')[0], x.args[1:-1]] = None
    out = []
    for (name, lv), key in ((f, p) for f in found for p in permutations(sk, _byN[f[0] + '.N'].nc)):
        e = _byN[name + '.N']
        if any(x.sort != I for x in key):
            continue
        Ks = [App('%s.K%d' % (e.name, i), tuple(lv) + (v,), I) for i in range(e.nc)]
        b = subst(body, dict(zip(Ks, key)))
        ix = App(e.name + '.ix', tuple(lv) + tuple(key), I)
        g = e.has(key, lv)
        if n is not App(e.name + '.N', tuple(lv), I):
            g = And(g, Lt(ix, n))
        out.append(Implies(g, subst(b, {v: ix})))
    return out


smt.INSTANCES.append(_enum_inst)


def _enum_keys(fs, keys):
    """positions of the given keys in the enumerations used, and the enumerated keys at ground positions"""
    ix, facts, ground = [], [], []
    used = {}
    for f in fs:
        for t in walk(f):
            if t.op == 'app' and t.args[0].startswith('En') and '.K' in t.args[0]:
                used.setdefault(t.args[0].split('.')[0], []).append(t)
            elif t.op == 'app' and len(t.args) == 1 and t.args[0].startswith('En') and t.args[0].endswith('.N'):
                used.setdefault(t.args[0].split('.')[0], [])
    for name, ts in used.items():
        e = _byN.get(name + '.N')
        if e is None or e.lv:
            continue
        h = e.has(tuple(Var('ck%d' % i, I) for i in range(e.nc)))
        more = []
        if h.op == 'app' and len(h.args) == e.nc + 1:
            for f in fs:
                for t in walk(f):
                    if t.op == 'app' and t.args[0] == h.args[0] and not smt.hasbound(t) and len(more) < 4:
                        q = tuple(t.args[1:])
                        if q not in more and not any(x.op == 'app' and x.args[0].startswith(name) for x in q):
                            more.append(q)
        for q in list(keys) + more:
            if len(q) == e.nc:
                j = App(name + '.ix', tuple(q), I)
                ix.append(j)
                facts.append(Implies(e.has(q), And(Le(IntC(0), j), Lt(j, e.N), *[Eq(x, y) for x, y in zip(e.K(j), q)])))
        for t in ts:
            q = e.K(t.args[-1])
            if not smt.hasbound(t) and q not in ground and len(ground) < 8:
                ground.append(q)
                ix.append(t.args[-1])
    return ix, facts, ground


smt.ENUMKEYS.append(_enum_keys)


class Enum:
    pass


def support(m):
    """explicit constant keys of a map built by inserts, or None"""
    keys = []
    while isinstance(m, MPut):
        if not all(isc(x) for x in m.key):
            return None
        if m.key not in keys:
            keys.append(m.key)
        m = m.old
    if isinstance(m, MEmpty):
        return sorted(keys, key=lambda k: tuple(cv(x) for x in k))
    return None


def enum_of(m):
    """enumeration of the keys of a map: N and K(j), 0 <= j < N, in ascending order"""
    nc = m.kt[1]
    ck = tuple(Var('ck%d' % i, I) for i in range(nc))
    has = m.get(ck)[0]
    e = _enums.get((has, nc))
    if e is not None:
        return e
    e = Enum()
    lv = tuple(sorted(fv(has) - set(ck), key=lambda t: t.id))
    e.name = name = 'En%d' % (len(_enums) + 1)
    e.lv = lv
    e.nc = nc
    e.N = App(name + '.N', lv, I)
    e.has = lambda key, lv2=lv: subst(has, dict(list(zip(ck, key)) + list(zip(lv, lv2))))

    def K(j, lv2=lv):
        return tuple(App('%s.K%d' % (name, i), tuple(lv2) + (j,), I) for i in range(nc))
    e.K = K
    _enums[(has, nc)] = e
    _byN[name + '.N'] = e
    bounded(name + '.N', 0, 2 ** 59)

    def kfact(*a):
        lv2, j = a[:-1], a[-1]
        N = App(name + '.N', lv2, I)
        key = K(j, lv2)
        inr = And(Le(IntC(0), j), Lt(j, N))
        j1 = Add(j, IntC(1))
        out = [Implies(inr, e.has(key, lv2)), Implies(inr, Eq(App(name + '.ix', tuple(lv2) + key, I), j))]
        out.append(Implies(And(inr, Lt(j1, N)), lexlt(key, K(j1, lv2))))
        if m.kt[0] == 'NaiveDate' or 'NaiveDate' in m.kt[0]:
            for x in key:
                out.append(Implies(inr, And(*date_range(x))))
        return out
    for i in range(nc):
        APPFACTS['%s.K%d' % (name, i)] = kfact

    def ixfact(*a):
        lv2, key = a[:len(lv)], a[len(lv):]
        ix = App(name + '.ix', a, I)
        N = App(name + '.N', lv2, I)
        h = e.has(key, lv2)
        kk = K(ix, lv2)
        return [Implies(h, And(Le(IntC(0), ix), Lt(ix, N), *[Eq(x, y) for x, y in zip(kk, key)]))]
    APPFACTS[name + '.ix'] = ixfact

    def krw(i):
        def f(a):
            # K(ix(key)) = key is conditional; no rewrite
            return None
        return f

    def en(k, body):
        """forall j<N: body(K(j))  ->  forall key: has(key) => body"""
        Ks = K(k)
        q = tuple(fresh('eq', I) for _ in range(nc))
        b2 = subst(body, dict(zip(Ks, q)))
        if k in fv(b2):
            return None
        return Not(ExistsS(list(q), And(e.has(q), Not(b2))))
    ENUMS[e.N] = en
    from . import loops
    loops.KEYENUM[name] = (m, nc, e.N, K)

    def bef(a):
        kk, key = a[0], a[1:]
        if isc(kk) and cv(kk) <= 0:
            return FALSE
        if kk is e.N:
            return e.has(key)
        if tuple(key) == K(kk):
            return FALSE
        for j in set(x for t in key for x in [t.args[-1]] if t.op == 'app' and t.args[0].startswith(name + '.K')):
            if tuple(key) == K(j):
                return And(Le(IntC(0), j), Lt(j, kk), Lt(j, e.N))
        return None
    APPREW['before:' + name] = bef

    def beff(kk, *key):
        t = App('before:' + name, (kk,) + key, B)
        ix = App(name + '.ix', tuple(lv) + tuple(key), I)
        return [Iff(t, And(e.has(key), Lt(ix, kk)))]
    APPFACTS['before:' + name] = beff
    return e


# ------------------------------------------------------------------ iterators
class Src:
    """per-key view of an iterator over a map"""

    def __init__(self, kt, fn):
        self.kt, self.fn = kt, fn


def norm_it(it):
    """iterator re-based so that the current position is 0"""
    if it.pos is not None and isc(it.pos) and cv(it.pos) == 0:
        return it
    p, f = it.pos, it.item
    return VIter(Sub(it.n, p), lambda eng, st, j: f(eng, st, Add(j, p)), None, it.guarded, None, it.effect,
                 None if it.known is None else lambda j: it.known(Add(j, p)),
                 None if it.step is None else lambda eng, st, j: it.step(eng, st, Add(j, p)))


def wlen(eng, st, n):
    """n clipped at 0"""
    if isc(n):
        return IntC(max(0, cv(n)))
    if n.op == 'app' or smt.Ctx(st.pc).valid(Le(IntC(0), n)):
        return n
    return Max(n, IntC(0))


def seq_iter(s, wrap):
    return VIter(s.n, lambda eng, st, j: (TRUE, wrap(s.at(j))))


INF = IntC(2 ** 90)      # length of an endless iterator (a.., repeat)


def to_iter(eng, st, v, ref=None, by='ref'):
    """IntoIterator for a value (by in ref/mut/val)"""
    if isinstance(v, VAgg) and v.name == 'RangeFrom' and v.f[0].sort == I:
        return VIter(INF, lambda e, s, j: (TRUE, Add(v.f[0], j)))
    if isinstance(v, (VIter, VFlat)):
        return v
    if isinstance(v, VSeq):
        if by == 'val':
            return seq_iter(v, lambda x: x)
        if by == 'mut':
            return VIter(v.n, lambda e, s, j: (TRUE, VMut(ref.cell, ref.path + (('idx', j),))))
        return seq_iter(v, VShared)
    if isinstance(v, VMap):
        return map_iter(eng, st, v, ref, 'set' if is_set(v) else 'kv', by)
    if isinstance(v, VFilt) and by != 'mut':
        if by == 'val':
            return v.it

        def item(e, s, j):
            g, x = v.it.item(e, s, j)
            return g, VShared(x)
        return VIter(v.it.n, item, None, True)
    if isinstance(v, VEnum) and v.ty == 'Option':
        w = payload(v)
        return VIter(IntC(1), lambda e, s, j: (is_some(v), VShared(w) if by == 'ref' else w), None, True)
    raise Unsupported('into_iter of %s' % type(v).__name__)


def is_set(m):
    if isinstance(m, MEmpty):
        return False
    k = tuple(Var('ck%d' % i, I) for i in range(m.kt[1]))
    v = m.get(k)[1]
    return isinstance(v, VAgg) and v.name == 'tuple' and not v.f


def map_iter(eng, st, m, ref, mode, by):
    kt = m.kt

    def val(m, key):
        if mode in ('k', 'set'):
            return None
        if by == 'mut':
            return VMut(ref.cell, ref.path + (('key', key),))
        v = m.get(key)[1]
        return VShared(v) if by == 'ref' else v

    def mkitem(key):
        k = eng.sym.unkey(kt, key) if kt else key[0]
        if by != 'val':
            k = VShared(k)
        v = val(m, key)
        return k if mode in ('k', 'set') else (v if mode == 'v' else VAgg('tuple', [k, v]))
    if isinstance(m, MEmpty):
        return VIter(IntC(0), None)
    sup = support(m)
    if sup is not None and (kt is None or kt[2] is None):
        keys = [k for k in sup]
        return VIter(IntC(len(keys)), lambda e, s, j: (m.get(keys[cv(j)])[0], mkitem(keys[cv(j)])), None,
                     any(m.get(k)[0] is not TRUE for k in keys))
    src = Src(kt, lambda e, s, key: (m.get(key)[0], mkitem(key)))
    if kt[2] is not None:
        return VIter(IntC(kt[2]), lambda e, s, j: (m.get((j,))[0], mkitem((j,))), None, True, src)
    e = enum_of(m)
    return VIter(e.N, lambda en, s, j: (TRUE, mkitem(e.K(j))), None, False, src, False, lambda j: m.get(e.K(j))[0])


def it_next(eng, ref, st, fr, backs):
    it = eng.load(st, ref)
    if not isinstance(it, VIter):
        raise Unsupported('next on %s' % type(it).__name__)
    rem = Sub(it.n, it.pos)
    L = eng.loopstack[-1] if eng.loopstack and eng.loopstack[-1]['frame'] is fr else None
    if isc(rem):
        if L is not None:
            L['remain'] = max(L['remain'] or 0, cv(rem))
        if cv(rem) <= 0:
            return st, NONE
        q = stepitem(eng, st, it, it.pos)
        if q is None:
            return None
        st, g, v = q
        st = st.copy()
        eng.store(st, ref, it.at(Add(it.pos, IntC(1))))
        if g is TRUE:
            return st, some(v)
        if g is FALSE:
            if L is not None:
                backs.append(st)
                return None
            return it_next(eng, ref, st, fr, backs)
        if L is not None and backs is not None:
            s = st.assume(Not(g))
            if s is not None:
                backs.append(s)
            s = st.assume(g)
            return (s, some(v)) if s is not None else None
        # first remaining item satisfying its guard
        return cond_call(eng, st, g, lambda s: (s, some(v)), lambda s: it_next(eng, ref, s, fr, backs))
    c = Lt(it.pos, it.n)
    s1 = st.assume(c)
    if s1 is None:
        return st, NONE
    r = pure_first(eng, lambda: it.item(eng, s1, it.pos), it.step)
    if r is not None:
        g, v = r
        st = st.copy()
    else:
        q = it.step(eng, s1, it.pos)
        if q is None:
            s0 = st.assume(Not(c))
            return (s0, NONE) if s0 is not None else None
        s, g, v = q
        s0 = st.assume(Not(c))
        st = (eng.merge2(s, s0) if s0 is not None else s).copy()
    if it.known is not None:
        st = st.assume(Or(Not(c), it.known(it.pos))) or st
    eng.store(st, ref, it.at(Add(it.pos, IntC(1))))
    if g is TRUE:
        return st, opt(c, v)
    if L is not None and backs is not None:
        s = st.assume(c, Not(g))
        if s is not None:
            backs.append(s)
        s = st.assume(Or(Not(c), g))
        return (s, opt(c, v)) if s is not None else None
    raise Unsupported('next on a filtered iterator outside a loop')


def tyargs2(ty):
    """component types of a tuple type"""
    from .mir import split_top
    ty = ty.strip()
    return split_top(ty[1:-1]) if ty.startswith('(') else [ty]


def it_map(eng, it, f, filt=None, check=None):
    """map / filter / filter_map"""
    def ap(en, s, g, x):
        if g is FALSE:
            return FALSE, VOpaque('skipped')
        if filt in ('filter', 'reject'):
            v = en.pure_call(f, [VShared(x)], s, (g,))
            return (And(g, v if filt == 'filter' else Not(v)), x) if v is not None else (FALSE, VOpaque('x'))
        v = en.pure_call(f, [x], s, (g,))
        if v is None:
            return FALSE, VOpaque('never')
        if check is not None:
            check(v)
        if filt == 'filter_map':
            return And(g, is_some(v)), payload(v)
        return g, v

    def item(en, s, j):
        g, x = it.item(en, s, j)
        return ap(en, s, g, x)
    src = None
    if it.src is not None:
        def fn(en, s, key):
            g, x = it.src.fn(en, s, key)
            return ap(en, s, g, x)
        src = Src(it.src.kt, fn)

    def step(en, s, j):
        r = stepitem(en, s, it, j)
        if r is None or r[1] is FALSE:
            return r
        s, g, x = r
        a = s.assume(g)
        q = en.call_value(f, [VShared(x) if filt in ('filter', 'reject') else x], a) if a is not None else None
        b = s.assume(Not(g)) if g is not TRUE else None
        if q is None:
            return (b, FALSE, VOpaque('x')) if b is not None else None
        t, v = q
        t = en.merge2(t, b) if b is not None else t
        if check is not None:
            check(v)
        if filt in ('filter', 'reject'):
            return t, And(g, v if filt == 'filter' else Not(v)), x
        if filt == 'filter_map':
            return t, And(g, is_some(v)), payload(v)
        return t, g, v
    return VIter(it.n, item, it.pos, it.guarded or filt is not None, src, it.effect, it.known, step)


def after(it, f):
    if it.step is None:
        return None

    def step(e, s, j):
        r = stepitem(e, s, it, j)
        return r if r is None or r[1] is FALSE else (r[0], r[1], f(e, r[0], j, r[2]))
    return step


def effects(e):
    return 'side effects' in str(e)


def stepitem(eng, st, it, j):
    """item j: (state, guard, value), None if computing it never returns"""
    r = pure_first(eng, lambda: watched(eng, st, [], lambda: it.item(eng, st, j)), it.step)
    if r is None:
        return it.step(eng, st, j)
    (g, v), fs = r
    s = st.assume(*fs) if fs else st
    return (s, g, v) if s is not None else None


def pure_first(eng, f, other=True):
    """f(), or None when it needs a closure to have side effects (and there is another way)"""
    mark = len(eng.sinks[-1])
    depth = len(eng.sinks)
    try:
        return f()
    except Unsupported as e:
        if not effects(e) or not other:
            raise
        assert len(eng.sinks) == depth
        del eng.sinks[-1][mark:]
        return None


def item_at(eng, st, it, j):
    """(guard, value) of item j with 0<=j<n assumed"""
    s = st.assume(Le(IntC(0), j), Lt(j, it.n)) if not isc(j) else st
    if s is None:
        return FALSE, VOpaque('no item')
    return it.item(eng, s, j)


def watched(eng, st, vs, f):
    """f(), an evaluation that is certain to happen (for the given indices): its result and what its panics exclude"""
    eng.sinks.append([])
    eng.loopvars.extend(vs)
    try:
        r = f()
    finally:
        ps = eng.sinks.pop()
        del eng.loopvars[len(eng.loopvars) - len(vs):]
        eng.sinks[-1].extend(ps)
    if not eng.want_panics:
        return r, []
    base = set(st.pc)
    return r, [Not(And(*[c for c in p.pc if c not in base])) for p in ps if not p.loop]


def generic(eng, st, it):
    """evaluate the body of an iterator once, at an arbitrary index; every item is evaluated"""
    j = fresh('it', I)
    (g, v), fs = watched(eng, st, [j], lambda: item_at(eng, st, it, j))
    eng.passed += [All(it.n, j, f) for f in fs]
    return j, g, v


def generic_key(eng, st, it):
    kq = tuple(fresh('ky', I) for _ in range(it.src.kt[1]))
    (g, x), fs = watched(eng, st, kq, lambda: it.src.fn(eng, st, kq))
    eng.passed += [Not(ExistsS(list(kq), Not(f))) for f in fs]
    return kq, g, x


def const_items(eng, st, it, total=True):
    if not total:
        return [it.item(eng, st, IntC(i)) for i in range(max(0, cv(it.n)))]
    r, fs = watched(eng, st, [], lambda: [it.item(eng, st, IntC(i)) for i in range(max(0, cv(it.n)))])
    eng.passed += fs
    return r


def it_sum(eng, st, it, prod=False):
    it = norm_it(it)
    if isc(it.n):
        r = None
        for g, v in const_items(eng, st, it):
            v = eng.dd(st, v)
            if g is FALSE:
                continue
            if g is not TRUE:
                v = Ite(g, v, mk('c', ((0 if not prod else 1) if v.sort == I else Fraction(1 if prod else 0),), v.sort))
            r = v if r is None else (Mul(r, v) if prod else Add(r, v))
        return r if r is not None else RealC(1 if prod else 0)
    j, g, v = generic(eng, st, it)
    v = eng.dd(st, v)
    if v.sort != R:
        raise Unsupported('integer sum')
    if g is not TRUE:
        v = Ite(g, v, RealC(1 if prod else 0))
    return (Prod if prod else Sum)(it.n, j, v)


def drive(eng, st, it, cells, body):
    """run body(state, item) -> State|None for every item; returns the final State"""
    done, _ = drive2(eng, st, it, lambda s, x: (body(s, x), None))
    return done


def drive2(eng, st, it, body):
    """run body(state, item) -> (state that goes on|None, state that stops|None) for the items in order;
    returns (state after the last item|None, state where it stopped|None)"""
    it = norm_it(it)

    def one(s, pos):
        return stepitem(eng, s, it, pos) or (None, FALSE, None)

    def each(s, g, v):
        a = s.assume(g)
        go, halt = body(a, v) if a is not None else (None, None)
        if g is not TRUE:
            b = s.assume(Not(g))
            go = eng.merge2(go, b) if go is not None and b is not None else (go or b)
        return go, halt
    if isc(it.n):
        halts = []
        for i in range(max(0, cv(it.n))):
            st, g, v = one(st, IntC(i))
            if st is None:
                break
            if g is FALSE:
                continue
            st, h = each(st, g, v)
            if h is not None:
                halts.append(h)
            if st is None:
                break
        return st, eng.merge(halts) if halts else None
    from .loops import summarize
    st = st.copy()
    c = eng.newcell(st, IntC(0))

    def step(s0, k):
        pos = s0.mem[c]
        exits = []
        e = s0.assume(Not(Lt(pos, it.n)))
        if e is not None:
            exits.append(('done', e))
        s = s0.assume(Lt(pos, it.n))
        back = None
        if s is not None:
            s, g, v = one(s, pos)
        if s is not None:
            s = s.copy()
            s.mem[c] = Add(pos, IntC(1))
            back, halt = each(s, g, v)
            if halt is not None:
                exits.append(('stop', halt))
        return back, exits
    ex = summarize(eng, st, step, 'iterator')
    out = []
    for tag in ('done', 'stop'):
        sts = [s for t, s in ex if t == tag]
        out.append(eng.merge(sts) if sts else None)
    return tuple(out)


def search(eng, st, it, r0, test):
    """items in order until test(state, item) -> (state, stop?, result): the result there, r0 after the last"""
    st = st.copy()
    c = eng.newcell(st, UNDEF)

    def body(s, x):
        r = test(s, x)
        if r is None:
            return None, None
        s, stop, v = r
        go, halt = s.assume(Not(stop)), s.assume(stop)
        if halt is not None:
            halt.mem[c] = v
        return go, halt
    done, halt = drive2(eng, st, it, body)
    if done is not None:
        done = done.copy()
        done.mem[c] = r0(done) if callable(r0) else r0
    sts = [s for s in (done, halt) if s is not None]
    if not sts:
        return None
    s = eng.merge(sts)
    return s, s.mem[c]


def collect(eng, st, it, ty):
    ty = eng.sym.resolve(ty)
    s = short(ty)
    if it.parts and s in ('HashSet', 'BTreeSet') and isc(it.pos) and cv(it.pos) == 0:
        ms = [collect(eng, st, x, ty) for x in it.parts]
        return MFun(eng.sym.kt(tyargs(ty)[0]), lambda q: (Or(*[m.get(q)[0] for m in ms]), UNIT))
    it = norm_it(it)
    if s in ('Vec',) or ty.startswith('[') or s == 'Box':
        if isc(it.n) and cv(it.n) <= 300:
            xs = const_items(eng, st, it)
            if all(g is TRUE for g, _ in xs):
                return VSeq.lst([v for _, v in xs])
            if all(isc(g) for g, _ in xs):
                return VSeq.lst([v for g, v in xs if g is TRUE])
            return VFilt(VIter(it.n, lambda e, s, j: xs[cv(j)], None, True))
        j, g, v = generic(eng, st, it)
        if g is not TRUE and not smt.prove(list(st.pc) + [Le(IntC(0), j), Lt(j, it.n)], g, {'deadline': 1.5, 'z3_ms': 400, 'depth': 3}).ok:
            v = eng.dd_deep(st, v) if isinstance(v, VMut) else v
            return VFilt(VIter(it.n, lambda e, s, i: (subst(g, {j: i}), substv(v, {j: i})), None, True))
        return VSeq(wlen(eng, st, it.n), lambda i: substv(v, {j: i}))
    if s in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        kt = eng.sym.kt(tyargs(ty)[0])
        st_ = s.endswith('Set')

        def kv(x):
            if st_:
                return keyterms(x), UNIT
            return keyterms(x.f[0]), x.f[1]
        if it.src is not None:
            kq, g, x = generic_key(eng, st, it)
            if isinstance(x, VOpaque):
                return MEmpty(kt)
            key, v = kv(x)
            if key == kq:
                return MFun(kt, lambda q: (subst(g, dict(zip(kq, q))), substv(v, dict(zip(kq, q)))))
            out = tuple(fresh('ko', I) for _ in range(kt[1]))
            if st_:
                h = ExistsS(list(kq), And(g, keyeq(key, out)))
                return MFun(kt, lambda q: (subst(h, dict(zip(out, q))), UNIT))
            raise Unsupported('collect with computed keys')
        if isc(it.n):
            m = MEmpty(kt)
            for g, x in const_items(eng, st, it):
                if g is FALSE:
                    continue
                key, v = kv(x)
                if g is TRUE:
                    m = MPut(m, key, TRUE, v)
                else:
                    p, w = m.get(key)
                    m = MPut(m, key, Or(g, p), mergev(g, v, w))
            return m
        j, g, x = generic(eng, st, it)
        key, v = kv(x)
        out = tuple(fresh('ko', I) for _ in range(kt[1]))
        h = Any(it.n, j, And(g, keyeq(key, out)))
        if st_:
            return MFun(kt, lambda q: (subst(h, dict(zip(out, q))), UNIT))
        # the keys of an enumeration are distinct, each at one position
        e = _byN.get(it.n.args[0]) if it.n.op == 'app' and len(it.n.args) == 1 else None
        if e is not None and not e.lv and not it.effect and tuple(key) == tuple(e.K(j)):
            kq = tuple(fresh('ky', I) for _ in range(kt[1]))
            m = dict(zip(e.K(j), kq))
            g2, v2 = subst(g, m), substv(v, m)
            if not vmentions(v2, j) and j not in fv(g2):
                return MFun(kt, lambda q: (And(e.has(tuple(q)), subst(g2, dict(zip(kq, q)))), substv(v2, dict(zip(kq, q)))))
        raise Unsupported('collect into a map from a sequence')
    if s == 'String':
        if isc(it.n) and cv(it.n) <= 300:
            return tx.cat(*[tx.cond(g, x) for g, x in const_items(eng, st, it)])
        j, g, v = generic(eng, st, it)
        return tx.rep(it.n, lambda i: substv(tx.cond(g, v), {j: i}))
    raise Unsupported('collect into ' + ty)


def collect_flat(eng, st, fl, ty):
    """collect after flat_map to arrays: into a set, the union over the array positions"""
    ty = eng.sym.resolve(ty)
    if short(ty) not in ('HashSet', 'BTreeSet'):
        raise Unsupported('flat_map collected into ' + ty)

    def part(i):
        pick = lambda e, s, g, x: (g, x if g is FALSE else x.at(IntC(i)))
        it = fl.it
        src = Src(it.src.kt, lambda e, s, k: pick(e, s, *it.src.fn(e, s, k))) if it.src is not None else None
        return collect(eng, st, VIter(it.n, lambda e, s, j: pick(e, s, *it.item(e, s, j)), it.pos, it.guarded, src, it.effect, it.known), ty)
    ms = [part(i) for i in range(fl.c)]
    kt = eng.sym.kt(tyargs(ty)[0])
    return MFun(kt, lambda q: (Or(*[m.get(q)[0] for m in ms]), UNIT))


# ------------------------------------------------------------------ dispatch
def call(eng, t, text, args, st, fr, backs):
    dest = getattr(eng, '_dest_ty', None)
    saved, eng.passed = eng.passed, []
    try:
        r = _call(eng, t, text, args, st, fr, backs, dest)
        if r is not None and eng.passed:
            s = r[0].assume(*eng.passed)
            r = (s, r[1]) if s is not None else None
    finally:
        eng.passed = saved
    return r


def _ret(st, v):
    return (st, v)


OPS = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'Neg': 'neg'}


OUT = ('out', 'fs')
IO_FAILED = App('io.failed', (), B)


def strings(eng, t, full, selfty, trait, meth, args, st, fr):
    """text: construction and formatting (None: not modelled, the result is unknown text)"""
    def at(i):
        return deref(eng.dd_deep(st, args[i]))

    def txt(i):
        v = at(i)
        return v if isinstance(v, VText) else VText((tx.unknown(),))
    if 'fmt::rt::Argument' in t and meth.startswith('new_') or 'fmt::rt::Argument' in t and meth.startswith('from_'):
        m = re.search(r'::new_(display|debug)::<(.*)>$', full.strip(), re.S)
        if not m:
            return st, VAgg('fmt', [VOpaque(t[-60:]), VOpaque('str')])
        return st, VAgg('fmt', [VOpaque(fr.rs(m.group(2)) if fr else m.group(2)), at(0)])
    if 'fmt::Arguments' in t:
        if meth in ('from_str', 'new_const', 'from_str_nonconst') and len(args) == 1:
            v = at(0)
            return st, v if isinstance(v, VText) else VOpaque('str')
        if meth == 'new' and len(args) == 2:
            b, xs = at(0), at(1)
            if isinstance(b, VText) and len(b.nodes) <= 1 and isinstance(xs, VSeq) and xs.items is not None:
                try:
                    return st, tx.template(b.nodes[0][1] if b.nodes else '', [(deref(x).f[0].what, eng.dd_deep(st, deref(x).f[1])) for x in xs.items])
                except (Unsupported, IndexError, ValueError):
                    pass
        return st, VOpaque('str')
    if meth == 'must_use' or t.endswith('fmt::format'):
        return st, txt(0)
    if re.search(r'\bfs::write\b', t):
        if OUT in st.mem:
            raise Unsupported('two files written')
        st = st.copy()
        st.mem[OUT] = VAgg('write', [txt(0), txt(1)])
        return st, VEnum('Result', Ite(IO_FAILED, IntC(1), IntC(0)), {0: (UNIT,), 1: (VOpaque('io error'),)})
    if trait in ('ToString', 'ToOwned', 'From', 'Into', 'Clone', 'Deref', 'AsRef', 'Borrow') and 'String' in t + selfty or \
            trait in ('ToString', 'ToOwned', 'From', 'Into', 'Clone', 'AsRef') and re.search(r'\bstr\b', t):
        v = at(0)
        if isinstance(v, VText):
            return st, v
        if trait == 'ToString' and isinstance(v, (T, VEnum)):
            return st, tx.shown(v, fr.rs(selfty) if fr else selfty)
        return None
    if short(selfty) in ('String', 'str') and not trait or 'impl str' in t:
        if meth in ('new', 'with_capacity'):
            return st, VText(())
        if meth in ('as_str', 'into_boxed_str', 'to_owned', 'to_string', 'as_mut_str', 'into_string'):
            return st, txt(0)
        if meth in ('push_str', 'push') and isinstance(args[0], VMut):
            st2 = st.copy()
            eng.store(st2, args[0], tx.cat(txt(0), txt(1)))
            return st2, UNIT
        if meth in ('reserve', 'shrink_to_fit'):
            return st, UNIT
        if meth == 'clear' and isinstance(args[0], VMut):
            st2 = st.copy()
            eng.store(st2, args[0], VText(()))
            return st2, UNIT
    if meth == 'add' and trait == 'Add':
        return st, tx.cat(txt(0), txt(1))
    if meth == 'add_assign' and isinstance(args[0], VMut):
        st2 = st.copy()
        eng.store(st2, args[0], tx.cat(txt(0), txt(1)))
        return st2, UNIT
    if meth in ('write_fmt', 'write_str', 'write_char') and ('String' in selfty + t or 'Formatter' in selfty + t) and isinstance(args[0], VMut) and isinstance(eng.load(st, args[0]), VText):
        st2 = st.copy()
        eng.store(st2, args[0], tx.cat(txt(0), txt(1)))
        return st2, VEnum('Result', IntC(0), {0: (UNIT,), 1: (VOpaque('fmt error'),)})
    return None


def _call(eng, t, text, args, st, fr, backs, dest):
    m = re.match(r'^<(.*) as ([^<>]*(?:<.*>)?)>::(\w+)$', t, re.S)
    if m:
        selfty, trait, meth = m.group(1), short(m.group(2)), m.group(3)
    else:
        selfty, trait, meth = '', '', t.split('::')[-1]
        m2 = re.match(r'^(.*)::(\w+)$', t, re.S)
        if m2:
            selfty = m2.group(1)
    # panics / formatting / io
    if 'panicking::' in t or t.endswith('unwrap_failed') or t.endswith('expect_failed') or t.endswith('begin_panic'):
        eng.panic(st, TRUE, meth, fr.fn.name if fr else '?')
        return None
    if re.search(r'\bfmt::|::string::|\bstr::|<str as|<&str as|Cow<|\bfs::|hint::must_use|_print$|io::', t) and not \
            isinstance(eng.dd(st, args[0]) if args else None, (VMap, VSeq, VIter)):
        r = strings(eng, t, text, selfty, trait, meth, args, st, fr)
        if r is not None:
            return r
        for a in args:
            if isinstance(a, VMut) and not isinstance(eng.load(st, a), (VOpaque, Undef)):
                raise Unsupported('call ' + t)
        if meth in ('eq', 'ne') and len(args) == 2:
            a, b = (deref(eng.dd_deep(st, x)) for x in args)
            if all(isinstance(x, VText) and all(n[0] == 'lit' for n in x.nodes) for x in (a, b)):
                return st, BoolC(nodessame(a.nodes, b.nodes) == (meth == 'eq'))
        if meth in ('eq', 'ne'):
            raise Unsupported('string comparison')
        return st, VOpaque('str')
    eng.models_used.add((short(selfty) + '::' if selfty else '') + meth)
    if meth == 'new' and 'LazyLock' in selfty:
        return eng.call_value(args[0], [], st)
    if meth == 'force' and 'LazyLock' in selfty:
        return st, args[0]
    if meth == 'deref' or meth == 'deref_mut':
        v = eng.dd(st, args[0])
        if isinstance(v, VOpaque) and v.what.startswith('static '):
            return st, eng.static(v.what[7:])
        return st, args[0]
    if meth in ('drop', 'drop_in_place', 'forget'):
        return st, UNIT
    if meth == 'new_uninit':
        st = st.copy()
        c = eng.newcell(st, UNDEF)
        eng._boxcells.add(c)
        return st, VMut(c, ())
    if meth in ('box_assume_init_into_vec_unsafe', 'into_vec') and isinstance(args[0], VMut) and args[0].cell in eng._boxcells:
        return st, eng.load(st, args[0])
    if 'Box' in selfty and meth in ('new', 'from'):
        return st, args[0]
    if trait == 'Default' or (meth == 'default' and not args):
        return st, default(eng, selfty if trait else dest)
    if re.search(r'\biter::(once|empty)$', t):
        if meth == 'empty':
            return st, VIter(IntC(0), lambda e, s, j: (TRUE, VOpaque('absent')))
        v = args[0]
        return st, VIter(IntC(1), lambda e, s, j: (TRUE, v))
    if not args:
        if meth in ('new',):
            return st, default(eng, dest)
        return _noself(eng, t, selfty, meth, args, st, fr, dest)
    if meth in ('with_capacity', 'with_capacity_and_hasher') and len(args) == 1:
        return st, default(eng, dest)
    a0 = args[0]
    v = eng.dd(st, a0) if not isinstance(a0, (VIter,)) else a0
    if trait == 'Clone' and meth == 'clone':
        x = eng.load(st, a0)
        return st, x
    if meth in ('clone', 'to_owned', 'cloned', 'borrow', 'as_ref', 'to_vec', 'into_boxed_slice', 'as_slice', 'as_mut_slice', 'borrow_mut') and \
            not (isinstance(v, (VIter,)) or isinstance(v, VEnum) and v.ty == 'Option' and meth in ('cloned', 'as_ref')):
        return st, (v if meth in ('clone', 'to_owned', 'to_vec') else a0)
    if trait in ('PartialEq',):
        e = eqv(_snap(eng, st, args[0]), _snap(eng, st, args[1]))
        return st, (e if meth == 'eq' else Not(e))
    if trait in ('PartialOrd', 'Ord'):
        a, b = eng.dd_deep(st, v), eng.dd_deep(st, eng.dd(st, args[1]))
        if isinstance(a, T) and a.sort == R and meth == 'partial_cmp' or meth in ('cmp', 'partial_cmp'):
            o = VEnum('Ordering', Ite(ltv(a, b), IntC(0), Ite(And(*[Eq(x, y) for x, y in zip(scalars(a), scalars(b))]), IntC(1), IntC(2))))
            return st, (some(o) if meth == 'partial_cmp' else o)
        if meth in ('lt', 'gt', 'le', 'ge'):
            return st, {'lt': lambda: ltv(a, b), 'gt': lambda: ltv(b, a), 'le': lambda: Not(ltv(b, a)), 'ge': lambda: Not(ltv(a, b))}[meth]()
        if meth == 'max':
            return st, mergev(ltv(b, a), a, b)
        if meth == 'min':
            return st, mergev(ltv(b, a), b, a)
        if meth == 'clamp':
            c = eng.dd(st, args[2])
            return st, mergev(ltv(a, b), b, mergev(ltv(c, a), c, a))
    if 'cmp::max' in t or 'cmp::min' in t:
        b = eng.dd(st, args[1])
        return st, (mergev(ltv(b, v), v, b) if meth == 'max' else mergev(ltv(b, v), b, v))
    if trait.endswith('Assign') and trait[:-6] in OPS:
        st = st.copy()
        w = arith(eng, st, trait[:-6], v, eng.dd(st, args[1]), selfty, fr)
        eng.store(st, a0, w)
        return st, UNIT
    if trait == 'Not' and isinstance(v, T) and v.sort == B:
        return st, Not(v)
    if trait in OPS:
        st = st.copy()
        w = arith(eng, st, trait, v, eng.dd(st, args[1]) if len(args) > 1 else None, selfty, fr)
        return st, w
    if 'mem::' in t:
        st = st.copy()
        if meth == 'swap':
            x, y = eng.load(st, args[0]), eng.load(st, args[1])
            eng.store(st, args[0], y)
            eng.store(st, args[1], x)
            return st, UNIT
        if meth == 'replace':
            x = eng.load(st, args[0])
            eng.store(st, args[0], args[1])
            return st, x
        if meth == 'take':
            x = eng.load(st, args[0])
            eng.store(st, args[0], default(eng, dest))
            return st, x
    if trait == 'From' or trait == 'Into':
        return _from(eng, st, v, dest)
    if trait == 'FromIterator' or meth == 'from_iter':
        return st, collect(eng, st, to_iter(eng, st, v, None, 'val'), dest or selfty)
    if trait == 'FromResidual':
        return st, (NONE if short(dest) == 'Option' else VEnum('Result', IntC(1), v.p))
    if isinstance(v, VAgg) and v.name == 'RangeFrom' and trait in ('Iterator', 'IntoIterator') and not isinstance(a0, VMut):
        v = a0 = to_iter(eng, st, v)
    if meth == 'repeat' and 'iter::' in t:
        return st, VIter(INF, lambda e, s, j: (TRUE, a0))
    if trait == 'IntoIterator':
        if isinstance(v, VIter):
            return st, v if not isinstance(a0, (VMut, VMutIte)) else v
        by = 'mut' if isinstance(a0, VMut) else ('ref' if isinstance(a0, VShared) else 'val')
        return st, to_iter(eng, st, v, a0 if isinstance(a0, VMut) else None, by)
    if isinstance(v, VIter):
        return _iter(eng, t, meth, v, a0, args, st, fr, backs, dest)
    if isinstance(v, VEnum) and v.ty == 'Option' and (short(selfty) == 'Option' or 'Option' in selfty):
        return _option(eng, meth, v, a0, args, st, fr, dest)
    if isinstance(v, VEnum) and v.ty == 'Result':
        return _result(eng, meth, v, a0, args, st, fr, dest)
    if isinstance(v, VAgg) and v.name == 'Entry':
        m = re.search(r'Entry::(<.*>)::\w+$', text, re.S)
        return _entry(eng, meth, v, args, st, 'Entry' + m.group(1) if m else '')
    if isinstance(v, VMap):
        return _map(eng, meth, v, a0, args, st, fr, dest, selfty)
    if isinstance(v, VSeq):
        return _vec(eng, t, meth, v, a0, args, st, fr, backs, dest)
    if isinstance(v, VFlat):
        if meth in ('into_iter', 'by_ref', 'iter'):
            return st, v
        if meth in ('map', 'filter', 'filter_map', 'copied', 'cloned'):
            if meth in ('filter', 'filter_map'):
                raise Unsupported(meth + ' after flat_map')
            fn = (lambda e, s, g, x: e.load(s, x)) if meth in ('copied', 'cloned') else \
                (lambda e, s, g, x, f=_fnval(eng, st, args[1]): e.pure_call(f, [x], s, (g,)))

            def each(e, s, g, x):
                if g is FALSE:
                    return g, x
                return g, VSeq.lst([fn(e, s, g, x.at(IntC(i))) for i in range(v.c)])
            src = Src(v.it.src.kt, lambda e, s, k: each(e, s, *v.it.src.fn(e, s, k))) if v.it.src is not None else None
            return st, VFlat(VIter(v.it.n, lambda e, s, j: each(e, s, *v.it.item(e, s, j)), v.it.pos, v.it.guarded, src, v.it.effect, v.it.known), v.c)
        if meth == 'for_each':
            f, st = _fncell(eng, st, args[1])

            def body(s, x):
                for i in range(v.c):
                    r = eng.call_value(f, [x.at(IntC(i))], s) if s is not None else None
                    s = r[0] if r is not None else None
                return s
            st = drive(eng, st, v.it, [], body)
            return (st, UNIT) if st is not None else None
        if meth == 'collect':
            return st, collect_flat(eng, st, v, dest)
        raise Unsupported('%s after flat_map' % meth)
    if isinstance(v, VFilt):
        if meth in ('iter', 'into_iter'):
            return st, to_iter(eng, st, v, None, 'ref' if meth == 'iter' else 'val')
        if meth in ('len', 'is_empty') and isc(v.it.n):
            n = Add(IntC(0), *[Ite(g, IntC(1), IntC(0)) for g, _ in const_items(eng, st, v.it)])
            return st, (n if meth == 'len' else Eq(n, IntC(0)))
        if meth in ('deref', 'as_slice', 'as_ref', 'borrow', 'clone'):
            return st, a0
        raise Unsupported('%s of a filtered Vec' % meth)
    if isinstance(v, VEnum) and v.ty == 'Ordering':
        return _ordering(eng, meth, v, args, st)
    if 'from_elem' in meth:
        n = args[1]
        x = args[0]
        if isc(n) and cv(n) <= 300:
            return st, VSeq.lst([x] * cv(n))
        return st, VSeq(n, lambda j: x)
    if isinstance(v, T) and v.sort == B and meth in ('then', 'then_some'):
        if meth == 'then_some':
            return st, opt(v, args[1])

        def yes(s):
            r = eng.call_value(args[1], [], s)
            return None if r is None else (r[0], some(r[1]))
        return cond_call(eng, st, v, yes, lambda s: (s, NONE))
    if isinstance(v, T):
        return _scalar(eng, t, selfty, trait, meth, v, args, st, fr, dest)
    if isinstance(v, (VFn, VAgg)) and meth in ('call', 'call_mut', 'call_once'):
        return eng.call_value(a0, list(args[1].f), st)
    if isinstance(v, VOpaque):
        if any(isinstance(a, (VMut, VMutIte)) for a in args):
            raise Unsupported('call ' + t)
        return st, VOpaque(t)
    raise Unsupported('call ' + t)


def _snap(eng, st, v):
    return eng.dd_deep(st, eng.dd(st, v))


def default(eng, ty):
    ty = eng.sym.resolve(ty or '?')
    s = short(ty)
    if s in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        return MEmpty(eng.sym.kt(tyargs(ty)[0]))
    if s in ('Vec',):
        return VSeq.lst([])
    if s in ('f64', 'f32'):
        return RealC(0)
    if s in INT:
        return IntC(0)
    if s == 'bool':
        return FALSE
    if s == 'Option':
        return NONE
    if s == 'String':
        return VText(())
    if s in eng.types.structs:
        return VAgg(s, [default(eng, ft) for _, ft in eng.types.structs[s]])
    if ty.startswith('('):
        from .mir import split_top
        return VAgg('tuple', [default(eng, x) for x in split_top(ty[1:-1])])
    raise Unsupported('default of ' + ty)


def _from(eng, st, v, dest):
    ty = eng.sym.resolve(dest or '?')
    s = short(ty)
    if isinstance(v, T) and s == 'f64':
        return st, (ToReal(v) if v.sort == I else (v if v.sort == R else Ite(v, RealC(1), RealC(0))))
    if isinstance(v, T) and s in INT:
        return st, (v if v.sort == I else Ite(v, IntC(1), IntC(0)))
    if s in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet', 'Vec') and isinstance(v, VSeq):
        return st, collect(eng, st, to_iter(eng, st, v, None, 'val'), ty)
    if s == 'Option':
        return st, some(v)
    return st, v


def arith(eng, st, tr, a, b, selfty, fr):
    if tr == 'Neg':
        return Neg(a)
    isdate = re.search(r'NaiveDate\b|NDt\b', selfty) is not None
    if isdate or 'TimeDelta' in selfty or 'Duration' in selfty:
        if tr == 'Sub' and isdate and isinstance(b, T):
            # NaiveDate - NaiveDate or NaiveDate - TimeDelta
            if re.search(r'Sub<(chrono::)?(TimeDelta|Days|.*TimeDelta)', selfty):
                pass
            return Sub(a, b)
        r = {'Add': Add, 'Sub': Sub, 'Mul': Mul}[tr](a, b)
        if isdate:
            ok = And(*date_range(r))
            eng.panic(st, Not(ok), 'date overflow', fr.fn.name if fr else '?')
            s = st.assume(ok)
            if s is not None:
                st.pc = s.pc
        return r
    if a.sort == I:
        if tr in ('Div', 'Rem'):
            eng.panic(st, Eq(b, IntC(0)), 'division by zero', fr.fn.name if fr else '?')
            return IDiv(a, b) if tr == 'Div' else IRem(a, b)
        # reference arithmetic on integers: overflow is checked in the callee (libcore)
        r = {'Add': Add, 'Sub': Sub, 'Mul': Mul}[tr](a, b)
        k = short(selfty.lstrip('&').strip())
        if k in INT:
            lo, hi = INT[k]
            ok = And(Le(IntC(lo), r), Le(r, IntC(hi)))
            eng.panic(st, Not(ok), 'overflow', fr.fn.name if fr else '?')
            s = st.assume(ok)
            if s is not None:
                st.pc = s.pc
        return r
    if tr == 'Rem':
        return eng.binop(st, fr, 'Rem', a, b, None)
    return {'Add': Add, 'Sub': Sub, 'Mul': Mul, 'Div': Div}[tr](a, b)


def _ordering(eng, meth, v, args, st):
    c = {'is_lt': Eq(v.d, IntC(0)), 'is_le': Le(v.d, IntC(1)), 'is_gt': Eq(v.d, IntC(2)), 'is_ge': Le(IntC(1), v.d),
         'is_eq': Eq(v.d, IntC(1)), 'is_ne': Not(Eq(v.d, IntC(1)))}.get(meth)
    if c is not None:
        return st, c
    if meth == 'reverse':
        return st, VEnum('Ordering', Sub(IntC(2), v.d))
    raise Unsupported('Ordering::' + meth)


def _noself(eng, t, selfty, meth, args, st, fr, dest):
    raise Unsupported('call ' + t)


# ------------------------------------------------------------------ Option / Result
def _option(eng, meth, v, a0, args, st, fr, dest):
    c = is_some(v)
    pay = payload(v)
    where = fr.fn.name if fr else '?'
    if meth == 'is_some':
        return st, c
    if meth == 'is_none':
        return st, Not(c)
    if meth in ('unwrap', 'expect', 'unwrap_unchecked'):
        eng.panic(st, Not(c), 'unwrap of None', where)
        s = st.assume(c)
        return (s, pay) if s is not None else None
    if meth == 'unwrap_or':
        return st, mergev(c, pay, args[1])
    if meth == 'unwrap_or_default':
        return st, mergev(c, pay, default(eng, dest))
    if meth == 'unwrap_or_else':
        return cond_call(eng, st, c, lambda s: (s, pay), lambda s: eng.call_value(args[1], [], s))
    if meth in ('map', 'and_then', 'map_or', 'map_or_else', 'is_some_and', 'filter', 'inspect', 'is_none_or'):
        f = args[-1]

        def yes(s):
            r = eng.call_value(f, [VShared(pay) if meth in ('filter', 'inspect') else pay], s)
            if r is None:
                return None
            s2, w = r
            if meth == 'map':
                return s2, some(w)
            if meth == 'filter':
                return s2, opt(w, pay)
            if meth == 'inspect':
                return s2, v
            return s2, w

        def no(s):
            if meth in ('map', 'and_then', 'filter', 'inspect'):
                return s, NONE
            if meth == 'map_or':
                return s, args[1]
            if meth == 'is_some_and':
                return s, FALSE
            if meth == 'is_none_or':
                return s, TRUE
            return eng.call_value(args[1], [], s)
        return cond_call(eng, st, c, yes, no)
    if meth in ('copied', 'cloned'):
        if not isinstance(v.p.get(1, (VOpaque('x'),))[0], (VShared, VMut, VMutIte)):
            return st, v
        s = st.assume(c)
        return st, (opt(c, eng.load(s, pay)) if s is not None else NONE)
    if meth in ('as_ref', 'as_deref', 'iter'):
        o = VEnum('Option', v.d, {1: (VShared(pay),)} if 1 in v.p else {})
        return st, (o if meth != 'iter' else to_iter(eng, st, v))
    if meth in ('as_mut', 'as_deref_mut'):
        return st, VEnum('Option', v.d, {1: (VMut(a0.cell, a0.path + (('v', 1, 0),)),)} if 1 in v.p else {})
    if meth == 'take':
        st = st.copy()
        eng.store(st, a0, NONE)
        return st, v
    if meth in ('replace', 'insert'):
        st = st.copy()
        eng.store(st, a0, some(args[1]))
        return st, (v if meth == 'replace' else VMut(a0.cell, a0.path + (('v', 1, 0),)))
    if meth == 'branch':
        return st, VEnum('ControlFlow', Ite(c, IntC(0), IntC(1)), {0: (pay,), 1: (NONE,)})
    if meth in ('ok_or', 'ok_or_else'):
        e = args[1] if meth == 'ok_or' else VOpaque('err')
        return st, VEnum('Result', Ite(c, IntC(0), IntC(1)), {0: (pay,), 1: (e,)})
    if meth == 'or':
        return st, mergev(c, v, args[1])
    if meth == 'or_else':
        return cond_call(eng, st, c, lambda s: (s, v), lambda s: eng.call_value(args[1], [], s))
    if meth == 'and':
        return st, mergev(c, args[1], NONE)
    if meth == 'zip':
        o = args[1]
        return st, opt(And(c, is_some(o)), VAgg('tuple', [pay, payload(o)]))
    if meth == 'into_iter':
        return st, to_iter(eng, st, v, None, 'val')
    if meth == 'get_or_insert_with':
        st = st.copy()

        def no(s):
            r = eng.call_value(args[1], [], s)
            if r is None:
                return None
            eng.store(r[0], a0, some(r[1]))
            return r[0], UNIT
        r = cond_call(eng, st, c, lambda s: (s, UNIT), no)
        return (r[0], VMut(a0.cell, a0.path + (('v', 1, 0),))) if r else None
    raise Unsupported('Option::' + meth)


def _result(eng, meth, v, a0, args, st, fr, dest):
    ok = Eq(v.d, IntC(0))
    pay, err = payload(v, 0), payload(v, 1)
    if meth in ('is_ok', 'is_err'):
        return st, ok if meth == 'is_ok' else Not(ok)
    if meth in ('unwrap', 'expect'):
        eng.panic(st, Not(ok), 'unwrap of Err', fr.fn.name if fr else '?')
        s = st.assume(ok)
        return (s, pay) if s is not None else None
    if meth in ('unwrap_or',):
        return st, mergev(ok, pay, args[1])
    if meth == 'unwrap_or_else':
        return cond_call(eng, st, ok, lambda s: (s, pay), lambda s: eng.call_value(args[1], [err], s))
    if meth == 'ok':
        return st, opt(ok, pay)
    if meth == 'err':
        return st, opt(Not(ok), err)
    if meth == 'branch':
        return st, VEnum('ControlFlow', v.d, {0: (pay,), 1: (VEnum('Result', IntC(1), {1: (err,)}),)})
    if meth in ('map', 'and_then', 'map_err'):
        def yes(s):
            r = eng.call_value(args[1], [pay if meth != 'map_err' else err], s)
            if r is None:
                return None
            if meth == 'map':
                return r[0], VEnum('Result', IntC(0), {0: (r[1],)})
            if meth == 'map_err':
                return r[0], VEnum('Result', IntC(1), {1: (r[1],)})
            return r
        return cond_call(eng, st, ok if meth != 'map_err' else Not(ok), yes, lambda s: (s, v))
    raise Unsupported('Result::' + meth)


# ------------------------------------------------------------------ maps
def _adopt(m, eng, keyv):
    return m


def _entry(eng, meth, v, args, st, selfty=''):
    ref, key = v.f[0], v.f[1].what
    m = eng.load(st, ref)
    p, w = m.get(key)
    at = VMut(ref.cell, ref.path + (('key', key),))
    if meth in ('or_insert', 'or_default'):
        st = st.copy()
        d = args[1] if meth == 'or_insert' else default(eng, tyargs(selfty)[-1])
        eng.store(st, ref, MPut(m, key, TRUE, mergev(p, w, d)))
        return st, at
    if meth == 'or_insert_with':
        r = cond_call(eng, st, p, lambda s: (s, w), lambda s: eng.call_value(args[1], [], s))
        if r is None:
            return None
        s, x = r
        m = eng.load(s, ref)
        eng.store(s, ref, MPut(m, key, TRUE, x))
        return s, at
    if meth == 'and_modify':
        def yes(s):
            r = eng.call_value(args[1], [at], s)
            return None if r is None else (r[0], UNIT)
        r = cond_call(eng, st, p, yes, lambda s: (s, UNIT))
        return (r[0], v) if r else None
    raise Unsupported('Entry::' + meth)


def _map(eng, meth, m, a0, args, st, fr, dest, selfty):
    where = fr.fn.name if fr else '?'

    def key(i=1):
        return keyterms(eng.dd_deep(st, eng.dd(st, args[i])))
    if meth in ('get', 'get_key_value'):
        p, w = m.get(key())
        return st, (opt(p, VShared(w)) if meth == 'get' else opt(p, VAgg('tuple', [args[1], VShared(w)])))
    if meth == 'get_mut':
        p, w = m.get(key())
        return st, opt(p, VMut(a0.cell, a0.path + (('key', key()),)))
    if meth in ('contains', 'contains_key'):
        return st, m.get(key())[0]
    if meth == 'index':
        p, w = m.get(key())
        eng.panic(st, Not(p), 'missing key', where)
        s = st.assume(p)
        return (s, VShared(w)) if s is not None else None
    if meth == 'insert':
        k = key()
        p, w = m.get(k)
        st = st.copy()
        if len(args) == 2:
            eng.store(st, a0, MPut(m, k, TRUE, UNIT))
            return st, Not(p)
        eng.store(st, a0, MPut(m, k, TRUE, args[2]))
        return st, opt(p, w)
    if meth == 'remove':
        k = key()
        p, w = m.get(k)
        st = st.copy()
        eng.store(st, a0, MPut(m, k, FALSE, w))
        if w is UNIT:
            return st, p
        return st, opt(p, w)
    if meth == 'entry':
        return st, VAgg('Entry', [a0, VOpaque(key())])
    if meth == 'clear':
        st = st.copy()
        eng.store(st, a0, MEmpty(m.kt))
        return st, UNIT
    if meth == 'drain' and isinstance(a0, VMut):
        it = map_iter(eng, st, m, None, 'set' if is_set(m) else 'kv', 'val')
        st = st.copy()
        eng.store(st, a0, MEmpty(m.kt))
        return st, it
    if meth in ('iter', 'keys', 'values', 'iter_mut', 'values_mut', 'into_keys', 'into_values', 'into_iter'):
        mode = {'iter': 'kv', 'iter_mut': 'kv', 'into_iter': 'kv'}.get(meth, 'k' if 'keys' in meth else 'v')
        if mode == 'kv' and is_set(m):
            mode = 'set'
        by = 'mut' if meth.endswith('_mut') else ('val' if meth.startswith('into') else 'ref')
        return st, map_iter(eng, st, m, a0 if isinstance(a0, VMut) else None, mode, by)
    if meth in ('first_key_value', 'last_key_value', 'first', 'last'):
        if isinstance(m, MEmpty):
            return st, NONE
        e = enum_of(m)
        j = IntC(0) if meth.startswith('first') else Sub(e.N, IntC(1))
        k = e.K(j)
        kv = VShared(eng.sym.unkey(m.kt, k))
        return st, opt(Lt(IntC(0), e.N), kv if '_' not in meth else VAgg('tuple', [kv, VShared(m.get(k)[1])]))
    if meth in ('len', 'is_empty'):
        sup = support(m)
        if sup is not None:
            n = Add(IntC(0), *[Ite(m.get(k)[0], IntC(1), IntC(0)) for k in sup])
        elif m.kt[2] is not None:
            n = Add(*[Ite(m.get((IntC(i),))[0], IntC(1), IntC(0)) for i in range(m.kt[2])])
        elif meth == 'is_empty':
            q = [fresh('em', I) for _ in range(m.kt[1])]
            return st, Not(ExistsS(q, m.get(tuple(q))[0]))
        else:
            n = enum_of(m).N
        return st, (n if meth == 'len' else Eq(n, IntC(0)))
    if meth == 'retain':
        kq = tuple(fresh('rt', I) for _ in range(m.kt[1]))
        p, w = m.get(kq)
        st = st.copy()
        if p is FALSE:
            return st, UNIT
        c = eng.newcell(st, w)
        k = VShared(eng.sym.unkey(m.kt, kq))
        s = st.assume(p)
        r = eng.call_value(args[1], [k] if w is UNIT else [k, VMut(c, ())], s)
        if r is None:
            raise Unsupported('retain')
        s2, keep = r
        for cc, x in s.mem.items():
            if cc != c and cc in s2.mem and not same(s2.mem[cc], x):
                raise Unsupported('retain with side effects')
        w2 = s2.mem[c]

        def get(q):
            mm = dict(zip(kq, q))
            p0 = m.get(q)[0]
            return And(p0, subst(keep, mm)), substv(w2, mm)
        eng.store(st, a0, MFun(m.kt, get))
        return st, UNIT
    if meth == 'extend':
        st = st.copy()
        it = to_iter(eng, st, eng.dd(st, args[1]), None, 'val' if not isinstance(args[1], VShared) else 'ref')

        def body(s, x):
            mm = eng.load(s, a0)
            if w_is_set:
                eng.store(s, a0, MPut(mm, keyterms(x), TRUE, UNIT))
            else:
                eng.store(s, a0, MPut(mm, keyterms(x.f[0]), TRUE, eng.dd(s, x.f[1])))
            return s
        w_is_set = 'Set' in selfty
        if isinstance(it, VFlat):
            if not w_is_set:
                raise Unsupported('flat_map extending a map')
            o = collect_flat(eng, st, it, 'BTreeSet<%s>' % m.kt[0])
            eng.store(st, a0, MFun(m.kt, lambda q: (Or(m.get(q)[0], o.get(q)[0]), UNIT)))
            return st, UNIT
        if it.src is not None:
            o = collect(eng, st, it, ('BTreeSet<%s>' if w_is_set else 'HashMap<%s, f64>') % m.kt[0])

            def get(q):
                (p, w), (p2, w2) = m.get(q), o.get(q)
                return Or(p, p2), mergev(p2, w2, w)
            eng.store(st, a0, MFun(m.kt, get))
            return st, UNIT
        st = drive(eng, st, it, [], body)
        return (st, UNIT) if st is not None else None
    if meth in ('reserve', 'shrink_to_fit'):
        return st, UNIT
    if meth == 'append' and isinstance(a0, VMut) and isinstance(args[1], VMut):
        o = eng.load(st, args[1])

        def get(q):
            (p, w), (p2, w2) = m.get(q), o.get(q)
            return Or(p, p2), mergev(p2, w2, w)
        st = st.copy()
        eng.store(st, args[1], MEmpty(o.kt))
        eng.store(st, a0, o if isinstance(m, MEmpty) else m if isinstance(o, MEmpty) else MFun(m.kt, get))
        return st, UNIT
    if meth in ('union', 'intersection', 'difference', 'symmetric_difference', 'bitor', 'bitand', 'sub', 'bitxor'):
        o = eng.dd(st, args[1])

        def get(q):
            p, q2 = m.get(q)[0], o.get(q)[0]
            return {'union': Or(p, q2), 'intersection': And(p, q2), 'difference': And(p, Not(q2)), 'bitor': Or(p, q2), 'bitand': And(p, q2),
                    'sub': And(p, Not(q2)), 'bitxor': Not(Iff(p, q2)), 'symmetric_difference': Not(Iff(p, q2))}[meth], UNIT
        if meth in ('bitor', 'bitand', 'sub', 'bitxor'):
            if 'Set' not in selfty:
                raise Unsupported('set operator on ' + selfty)
            return st, o if isinstance(m, MEmpty) and meth != 'sub' and meth != 'bitand' else m if isinstance(o, MEmpty) and meth != 'bitand' else MFun(m.kt or o.kt, get)
        return st, map_iter(eng, st, MFun(m.kt, get), None, 'set', 'ref')
    if meth in ('is_subset', 'is_superset', 'is_disjoint'):
        o = eng.dd(st, args[1])
        q = [fresh('ss', I) for _ in range(m.kt[1])]
        a, b = m.get(tuple(q))[0], o.get(tuple(q))[0]
        c = {'is_subset': And(a, Not(b)), 'is_superset': And(b, Not(a)), 'is_disjoint': And(a, b)}[meth]
        return st, Not(ExistsS(q, c))
    raise Unsupported('map method ' + meth)


# ------------------------------------------------------------------ vectors / slices
def _vec(eng, t, meth, v, a0, args, st, fr, backs, dest):
    where = fr.fn.name if fr else '?'
    if meth in ('len',):
        return st, v.n
    if meth == 'is_empty':
        return st, Eq(v.n, IntC(0)) if isc(v.n) else Le(v.n, IntC(0))
    if meth in ('iter', 'iter_mut', 'into_iter'):
        by = 'mut' if meth == 'iter_mut' else ('ref' if meth == 'iter' or isinstance(a0, VShared) else 'val')
        return st, to_iter(eng, st, v, a0 if isinstance(a0, VMut) else None, by)
    if meth in ('as_slice', 'deref', 'as_ref', 'as_mut_slice'):
        return st, a0
    if meth in ('index', 'index_mut', 'get', 'get_mut'):
        i = args[1]
        if isinstance(i, T):
            ok = And(Le(IntC(0), i), Lt(i, v.n))
            r = None
            if ok is FALSE:
                val = VOpaque('oob')
            elif meth.endswith('_mut'):
                val = VMut(a0.cell, a0.path + (('idx', i),))
            else:
                val = VShared(v.at(i)) if not (v.items is not None and not v.items) else VOpaque('oob')
            if meth.startswith('get'):
                return st, opt(ok, val)
            eng.panic(st, Not(ok), 'index out of bounds', where)
            s = st.assume(ok)
            return (s, val) if s is not None else None
        if isinstance(i, VIter) or isinstance(i, VAgg):
            if meth != 'index':
                raise Unsupported('mutable subslice')
            lo, hi = IntC(0), v.n
            nm = i.name if isinstance(i, VAgg) else 'Range'
            if isinstance(i, VIter):
                g, lo = i.item(eng, st, IntC(0))
                hi = Add(lo, i.n)
            elif nm == 'RangeFrom':
                lo = i.f[0]
            elif nm == 'RangeTo':
                hi = i.f[0]
            elif nm == 'RangeToInclusive':
                hi = Add(i.f[0], IntC(1))
            elif nm != 'RangeFull':
                raise Unsupported('slice by ' + nm)
            ok = And(Le(IntC(0), lo), Le(lo, hi), Le(hi, v.n))
            eng.panic(st, Not(ok), 'slice out of bounds', where)
            s = st.assume(ok)
            if s is None:
                return None
            return s, VShared(sub(v, lo, hi))
    if meth in ('first', 'last', 'last_mut', 'first_mut'):
        j = IntC(0) if meth.startswith('first') else Sub(v.n, IntC(1))
        ok = Lt(IntC(0), v.n)
        if ok is FALSE:
            return st, NONE
        return st, opt(ok, VMut(a0.cell, a0.path + (('idx', j),)) if meth.endswith('mut') else VShared(v.at(j)))
    if meth == 'push':
        st = st.copy()
        eng.store(st, a0, v.push(args[1]))
        return st, UNIT
    if meth == 'pop':
        ok = Lt(IntC(0), v.n)
        st = st.copy()
        if ok is FALSE:
            return st, NONE
        x = v.at(Sub(v.n, IntC(1)))
        eng.store(st, a0, sub(v, IntC(0), Max(Sub(v.n, IntC(1)), IntC(0)) if not isc(v.n) else IntC(cv(v.n) - 1)))
        return st, opt(ok, x)
    if meth in ('clear',):
        st = st.copy()
        eng.store(st, a0, VSeq.lst([]))
        return st, UNIT
    if meth in ('reserve', 'shrink_to_fit'):
        return st, UNIT
    if meth == 'swap':
        i, j = args[1], args[2]
        ok = And(Le(IntC(0), i), Lt(i, v.n), Le(IntC(0), j), Lt(j, v.n))
        eng.panic(st, Not(ok), 'index out of bounds', where)
        st = st.assume(ok)
        if st is None:
            return None
        x, y = v.at(i), v.at(j)
        eng.store(st, a0, v.set(i, y).set(j, x))
        return st, UNIT
    if meth == 'reverse':
        st = st.copy()
        eng.store(st, a0, VSeq(v.n, lambda j: v.at(Sub(Sub(v.n, IntC(1)), j))) if v.items is None else VSeq.lst(v.items[::-1]))
        return st, UNIT
    if meth in ('extend', 'extend_from_slice', 'append'):
        o = to_iter(eng, st, eng.dd(st, args[1]), None, 'val')
        o = norm_it(o)
        st = st.copy()
        w = collect(eng, st, VIter(o.n, lambda e, s, j: (o.item(e, s, j)[0], e.dd(s, o.item(e, s, j)[1])), None, o.guarded), 'Vec<x>')
        eng.store(st, a0, concat(v, w))
        if meth == 'append':
            eng.store(st, args[1], VSeq.lst([]))
        return st, UNIT
    if meth in ('windows',):
        k = args[1]
        n = Add(Sub(v.n, k), IntC(1))
        return st, VIter(n if not isc(n) else IntC(max(0, cv(n))), lambda e, s, j: (TRUE, VShared(sub(v, j, Add(j, k)))))
    if meth in ('to_vec', 'clone', 'to_owned', 'into_vec'):
        return st, v
    if meth in ('contains',):
        j = fresh('ct', I)
        x = eng.dd(st, args[1])
        return st, Any(v.n, j, eqv(v.at(j), x)) if not isc(v.n) else Or(*[eqv(y, x) for y in (v.items or [v.at(IntC(i)) for i in range(cv(v.n))])])
    if meth in ('split_first', 'split_last'):
        ok = Lt(IntC(0), v.n)
        if ok is FALSE:
            return st, NONE
        if meth == 'split_first':
            return st, opt(ok, VAgg('tuple', [VShared(v.at(IntC(0))), VShared(sub(v, IntC(1), v.n))]))
        n1 = Sub(v.n, IntC(1))
        return st, opt(ok, VAgg('tuple', [VShared(v.at(n1)), VShared(sub(v, IntC(0), n1))]))
    if meth == 'into_boxed_slice':
        return st, a0
    if meth == 'map' and v.items is not None:
        out = []
        for x in v.items:
            r = eng.call_value(args[1], [x], st)
            if r is None:
                return None
            st = r[0]
            out.append(r[1])
        return st, VSeq.lst(out)
    if meth == 'resize':
        n, x = args[1], args[2]
        st = st.copy()
        if isc(n) and isc(v.n):
            l = [v.at(IntC(i)) for i in range(min(cv(n), cv(v.n)))]
            eng.store(st, a0, VSeq.lst(l + [x] * (cv(n) - len(l))))
        else:
            eng.store(st, a0, VSeq(n, lambda j: x if isc(v.n) and cv(v.n) == 0 else mergev(Lt(j, v.n), v.at(j), x)))
        return st, UNIT
    if meth == 'fill':
        st = st.copy()
        x = args[1]
        eng.store(st, a0, VSeq(v.n, lambda j: x) if v.items is None else VSeq.lst([x] * len(v.items)))
        return st, UNIT
    if meth == 'insert':
        i, x = args[1], args[2]
        st = st.copy()
        eng.panic(st, Not(And(Le(IntC(0), i), Le(i, v.n))), 'insertion index', where)
        if v.items is not None and isc(i):
            l = list(v.items)
            l.insert(cv(i), x)
            eng.store(st, a0, VSeq.lst(l))
        else:
            eng.store(st, a0, VSeq(Add(v.n, IntC(1)), lambda j: mergev(Lt(j, i), v.at(j), mergev(Eq(j, i), x, v.at(Sub(j, IntC(1)))))))
        return st, UNIT
    raise Unsupported('slice method ' + meth)


def sub(v, lo, hi):
    if v.items is not None and isc(lo) and isc(hi):
        return VSeq.lst(v.items[cv(lo):cv(hi)])
    n = Sub(hi, lo)
    if isc(n) and cv(n) <= 64:
        return VSeq.lst([v.at(Add(lo, IntC(i))) for i in range(cv(n))])
    return VSeq(n, lambda j: v.at(Add(j, lo)))


def concat(v, w):
    if v.items is not None and w.items is not None:
        return VSeq.lst(v.items + w.items)

    def at(j):
        a = v.at(j) if not (v.items is not None and not v.items) else VOpaque('e')
        b = w.at(Sub(j, v.n)) if not (w.items is not None and not w.items) else VOpaque('e')
        return mergev(Lt(j, v.n), a, b)
    return VSeq(Add(v.n, w.n), at)


# ------------------------------------------------------------------ iterator methods
def _iter(eng, t, meth, it, a0, args, st, fr, backs, dest):
    if meth == 'next':
        return it_next(eng, a0, st, fr, backs)
    if meth in ('into_iter', 'iter', 'by_ref', 'fuse'):
        return st, a0 if meth == 'by_ref' else it
    if meth == 'clone':
        return st, it
    if meth == 'contains' and isinstance(it.src, tuple):
        x = eng.dd(st, args[1])
        return st, And(Le(it.src[1], x), Lt(x, it.src[2]))
    it0 = it
    it = norm_it(it) if meth not in ('map', 'filter', 'filter_map', 'flat_map', 'flatten') else it
    if isinstance(it.src, tuple):
        it = VIter(it.n, it.item, it.pos, it.guarded, None, it.effect, it.known)
    if meth == 'flatten':
        def opt_item(e, s, g, x):
            if g is FALSE:
                return g, x
            v = e.dd(s, x)
            if not (isinstance(v, VEnum) and v.ty == 'Option'):
                raise Unsupported('flatten of %s' % type(v).__name__)
            w = payload(v)
            return And(g, is_some(v)), VShared(w) if isinstance(x, VShared) else w
        src = Src(it.src.kt, lambda e, s, key: opt_item(e, s, *it.src.fn(e, s, key))) if it.src is not None else None
        return st, VIter(it.n, lambda e, s, j: opt_item(e, s, *it.item(e, s, j)), it.pos, True, src, it.effect, it.known)
    if meth == 'flat_map':
        # a closure yielding an array: that many items each
        f = args[1]
        fl = it_map(eng, it, _fnval(eng, st, f))
        try:
            eng.sinks.append([])
            pr = item_at(eng, st, fl, fresh('fm', I))[1]
        finally:
            eng.sinks.pop()
        if isinstance(pr, VSeq) and isc(pr.n):
            return st, VFlat(fl, cv(pr.n))
        # a closure yielding an Option: an item or none

        def opts(v):
            if not (isinstance(v, VEnum) and v.ty == 'Option'):
                raise Unsupported('flat_map to %s' % type(v).__name__)
        return st, it_map(eng, it, args[1], 'filter_map', opts)
    if meth in ('map', 'filter', 'filter_map'):
        return st, it_map(eng, it, _fnval(eng, st, args[1]), None if meth == 'map' else meth)
    if meth in ('take_while', 'skip_while'):
        f = _fnval(eng, st, args[1])
        miss = it_map(eng, it, f, 'reject')

        def item(e, s, j):
            g, x = it.item(e, s, j)
            i = fresh('tw', I)
            bad = miss.item(e, s.assume(Le(IntC(0), i), Le(i, j)) or s, i)[0]
            ok = All(Add(j, IntC(1)), i, Not(bad))
            return And(g, ok if meth == 'take_while' else Not(ok)), x
        return st, VIter(it.n, item, it.pos, True, None, it.effect, it.known)
    if meth == 'scan':
        st = st.copy()
        c = eng.newcell(st, args[1])
        f, st = _fncell(eng, st, args[2])

        def step(e, s, j):
            r = stepitem(e, s, it, j)
            if r is None or r[1] is FALSE:
                return r
            s, g, x = r
            if g is not TRUE:
                raise Unsupported('scan of filtered items')
            q = e.call_value(f, [VMut(c, ()), x], s)
            if q is None:
                return None
            s, v = q
            if is_some(v) is not TRUE:
                raise Unsupported('scan that stops')
            return s, g, payload(v)

        def none(e, s, j):
            raise Unsupported('scan: side effects')
        return st, VIter(it.n, none, it.pos, False, None, it.effect, it.known, step)
    if meth in ('copied', 'cloned'):
        def mk_(f):
            def g(e, s, j):
                gd, x = f(e, s, j)
                return (gd, x if gd is FALSE else e.load(s, x))
            return g
        src = Src(it.src.kt, mk_(it.src.fn)) if it.src is not None else None
        return st, VIter(it.n, mk_(it.item), it.pos, it.guarded, src, it.effect, it.known,
                         after(it, lambda e, s, j, x: e.load(s, x)))
    if meth == 'zip':
        b = args[1]
        if not isinstance(b, VIter):
            b = to_iter(eng, st, eng.dd(st, b), None, 'ref' if isinstance(b, VShared) else 'val')
        b = norm_it(b)
        if it.guarded or b.guarded:
            raise Unsupported('zip of filtered iterators')
        n = b.n if it.n is INF else it.n if b.n is INF else Min(it.n, b.n)
        return st, VIter(n, lambda e, s, j: (TRUE, VAgg('tuple', [it.item(e, s, j)[1], b.item(e, s, j)[1]])),
                         step=after(it, lambda e, s, j, x: VAgg('tuple', [x, b.item(e, s, j)[1]])) if it.n is b.n or isc(Sub(b.n, it.n)) and cv(Sub(b.n, it.n)) >= 0 else None)
    if meth == 'enumerate':
        if it.guarded:
            raise Unsupported('enumerate of a filtered iterator')
        return st, VIter(it.n, lambda e, s, j: (TRUE, VAgg('tuple', [j, it.item(e, s, j)[1]])),
                         step=after(it, lambda e, s, j, x: VAgg('tuple', [j, x])))
    if meth == 'rev':
        src = it.src
        return st, VIter(it.n, lambda e, s, j: it.item(e, s, Sub(Sub(it.n, IntC(1)), j)), None, it.guarded, src)
    if meth in ('skip', 'take', 'step_by', 'nth') and it.guarded:
        raise Unsupported(meth + ' on a filtered iterator')
    if meth == 'skip':
        k = args[1]
        n = Sub(it.n, k)
        return st, VIter(n if not isc(n) else IntC(max(0, cv(n))), lambda e, s, j: it.item(e, s, Add(j, k)))
    if meth == 'take':
        return st, VIter(Min(it.n, args[1]), it.item, step=it.step)
    if meth == 'step_by' and isc(args[1]) and isc(it.n):
        k = cv(args[1])
        return st, VIter(IntC(-(-cv(it.n) // k)), lambda e, s, j: it.item(e, s, Scale(k, j)))
    if meth == 'chain':
        b = args[1]
        if not isinstance(b, VIter):
            b = to_iter(eng, st, eng.dd(st, b), None, 'ref' if isinstance(b, VShared) else 'val')
        b = norm_it(b)

        def item(e, s, j):
            c = Lt(j, it.n)
            if c is TRUE:
                return it.item(e, s, j)
            if c is FALSE:
                return b.item(e, s, Sub(j, it.n))
            s1, s2 = s.assume(c), s.assume(Not(c))
            g1, x = it.item(e, s1, j) if s1 is not None else (FALSE, VOpaque('x'))
            g2, y = b.item(e, s2, Sub(j, it.n)) if s2 is not None else (FALSE, VOpaque('x'))
            return Ite(c, g1, g2), mergev(c, x, y)
        return st, VIter(Add(it.n, b.n), item, None, it.guarded or b.guarded, parts=(it.parts or (it,)) + (b.parts or (b,)))
    if meth in ('sum', 'product'):
        r = pure_first(eng, lambda: it_sum(eng, st, it, meth == 'product'))
        if r is not None:
            return st, r
        real = not isinstance(dest, str) or dest not in INT
        st = st.copy()
        acc = eng.newcell(st, (RealC if real else IntC)(1 if meth == 'product' else 0))

        def body(s, x):
            s = s.copy()
            s.mem[acc] = (Mul if meth == 'product' else Add)(s.mem[acc], eng.dd(s, x))
            return s
        st = drive(eng, st, it, [acc], body)
        return (st, st.mem[acc]) if st is not None else None
    if meth == 'count':
        if not it.guarded:
            return st, wlen(eng, st, it.n)
        if isc(it.n):
            return st, Add(IntC(0), *[Ite(g, IntC(1), IntC(0)) for g, _ in const_items(eng, st, it)])
        j, g, _ = generic(eng, st, it)
        c = Floor(Sum(it.n, j, Ite(g, RealC(1), RealC(0))))
        return st.assume(Le(IntC(0), c), Le(c, Max(it.n, IntC(0)))) or st, c
    if meth == 'len':
        return st, wlen(eng, st, it.n)
    if meth in ('any', 'all'):
        def quant():
            if isc(it.n):
                r = FALSE
                for g, x in const_items(eng, st, it, False):
                    if g is FALSE:
                        continue
                    v = eng.pure_call(args[1], [x], st, (g, Not(r)))
                    if v is None:
                        continue
                    r = Or(r, And(g, v if meth == 'any' else Not(v)))
                return r if meth == 'any' else Not(r)
            j = fresh('aa', I)
            s = st.assume(Le(IntC(0), j), Lt(j, it.n))
            eng.loopvars.append(j)
            try:
                g, x = it.item(eng, s, j)
                v = eng.pure_call(args[1], [x], s, (g,))
            finally:
                eng.loopvars.pop()
            return Any(it.n, j, And(g, v)) if meth == 'any' else All(it.n, j, Implies(g, v))
        r = pure_first(eng, quant)
        if r is None:
            f, st = _fncell(eng, st, args[1])

            def test(s, x):
                q = eng.call_value(f, [x], s)
                return None if q is None else (q[0], q[1] if meth == 'any' else Not(q[1]), Not(r0))
            r0 = FALSE if meth == 'any' else TRUE
            q = search(eng, st, it, r0, test)
            if q is None:
                return None
            st, r = q
        if isinstance(a0, VMut):
            st = st.copy()
            eng.store(st, a0, UNDEF)
        return st, r
    if meth == 'for_each':
        f, st = _fncell(eng, st, args[1])

        def body(s, x):
            r = eng.call_value(f, [x], s)
            return r[0] if r is not None else None
        st = drive(eng, st, it, [], body)
        return (st, UNIT) if st is not None else None
    if meth == 'fold':
        st = st.copy()
        acc = eng.newcell(st, args[1])
        f, st = _fncell(eng, st, args[2])

        def body(s, x):
            r = eng.call_value(f, [s.mem[acc], x], s)
            if r is None:
                return None
            s2 = r[0].copy()
            s2.mem[acc] = r[1]
            return s2
        st = drive(eng, st, it, [acc], body)
        return (st, st.mem[acc]) if st is not None else None
    if meth == 'collect':
        r = pure_first(eng, lambda: collect(eng, st, it0 if it0.src is not None and not isinstance(it0.src, tuple) and isc(it0.pos) and cv(it0.pos) == 0 else it, dest),
                       short(eng.sym.resolve(dest)) == 'Vec')
        if r is not None:
            return st, r
        st = st.copy()
        acc = eng.newcell(st, VSeq.lst([]))

        def body(s, x):
            s = s.copy()
            s.mem[acc] = s.mem[acc].push(x)
            return s
        st = drive(eng, st, it, [acc], body)
        return (st, st.mem[acc]) if st is not None else None
    if meth in ('last', 'nth', 'next_back', 'max', 'min'):
        if meth in ('max', 'min'):
            if not isc(it.n):
                it1, j = norm_it(it), fresh('mx', I)
                g, x = it1.item(eng, st, j)
                x = eng.dd(st, x)
                if it1.effect or not isinstance(x, T) or x.sort != I:
                    raise Unsupported('max of a symbolic sequence')
                M = eng.skolem('max', I)
                some_ = Any(it1.n, j, g)
                s = st.assume(Or(Not(some_), And(Any(it1.n, j, And(g, Eq(x, M))), All(it1.n, j, Or(Not(g), Le(x, M) if meth == 'max' else Le(M, x))))))
                return (s, opt(some_, M)) if s is not None else None
            r = NONE
            for g, x in const_items(eng, st, it):
                y = eng.dd(st, x)
                c = And(g, Or(Not(is_some(r)), ltv(payload(r), x) if meth == 'max' else ltv(x, payload(r)))) if 1 in r.p else g
                r = mergev(c, some(x), r)
            return st, r
        if meth == 'next_back':
            raise Unsupported('next_back')
        j = Sub(it.n, IntC(1)) if meth == 'last' else args[1]
        if it.guarded:
            raise Unsupported(meth)
        c = And(Le(IntC(0), j), Lt(j, it.n))
        s = st.assume(c)
        if s is None:
            return st, NONE
        return st, opt(c, it.item(eng, s, j)[1])
    if meth in ('find', 'position', 'find_map'):
        f, st = _fncell(eng, st, args[1])
        n = None
        if meth == 'position':
            st = st.copy()
            n = eng.newcell(st, IntC(0))

        def test(s, x):
            q = eng.call_value(f, [VShared(x) if meth == 'find' else x], s)
            if q is None:
                return None
            s, v = q
            if meth == 'find_map':
                return s, is_some(v), v
            if meth == 'find':
                return s, v, some(x)
            s = s.copy()
            i = s.mem[n]
            s.mem[n] = Add(i, IntC(1))
            return s, v, some(i)
        q = search(eng, st, it, NONE, test)
        if q is None:
            return None
        st, r = q
        if isinstance(a0, VMut):
            st = st.copy()
            eng.store(st, a0, UNDEF)
        return st, r
    if meth in ('try_for_each', 'try_fold'):
        fold = meth == 'try_fold'
        f, st = _fncell(eng, st, args[2 if fold else 1])
        st = st.copy()
        acc = eng.newcell(st, args[1] if fold else UNIT)
        ty = eng.sym.resolve(dest)
        opt_ = short(ty) == 'Option'
        if not opt_ and short(ty) != 'Result':
            raise Unsupported(meth + ' to ' + ty)

        def test(s, x):
            q = eng.call_value(f, ([s.mem[acc]] if fold else []) + [x], s)
            if q is None:
                return None
            s, v = q
            s = s.copy()
            good = Eq(v.d, IntC(1 if opt_ else 0))
            if good is not FALSE and fold:
                s.mem[acc] = payload(v, 1 if opt_ else 0)
            return s, Not(good), v
        tag = 1 if opt_ else 0
        q = search(eng, st, it, lambda s: VEnum('Option' if opt_ else 'Result', IntC(tag), {tag: (s.mem[acc],)}), test)
        if q is None:
            return None
        st, r = q
        if isinstance(a0, VMut):
            st = st.copy()
            eng.store(st, a0, UNDEF)
        return st, r
    if meth == 'partition':
        f = _fnval(eng, st, args[1])
        tys = tyargs2(eng.sym.resolve(dest))
        return st, VAgg('tuple', [collect(eng, st, it_map(eng, it, f, m), ty) for m, ty in zip(('filter', 'reject'), tys)])
    if meth == 'unzip':
        if it.effect:
            raise Unsupported('unzip of an iterator with effects')
        tys = tyargs2(eng.sym.resolve(dest))
        it = norm_it(it)

        def part(i):
            def item(e, s, j):
                g, x = it.item(e, s, j)
                return g, e.dd(s, x).f[i]
            return VIter(it.n, item, None, it.guarded)
        return st, VAgg('tuple', [collect(eng, st, part(i), ty) for i, ty in enumerate(tys)])
    if meth in ('size_hint', 'peekable', 'inspect'):
        if meth == 'inspect':
            return st, it
    raise Unsupported('iterator method ' + meth)


def _fnval(eng, st, f):
    """closure used lazily: freeze captured references to values that cannot change"""
    return f


def _fncell(eng, st, f):
    """by-value FnMut closure: keep its environment in a cell so that mutations persist"""
    if isinstance(f, VAgg):
        st = st.copy()
        return VMut(eng.newcell(st, f), ()), st
    return f, st


# ------------------------------------------------------------------ scalars
def _trunc(v):
    return Ite(Le(RealC(0), v), ToReal(Floor(v)), Neg(ToReal(Floor(Neg(v)))))


def _scalar(eng, t, selfty, trait, meth, v, args, st, fr, dest):
    where = fr.fn.name if fr else '?'
    a = [eng.dd(st, x) for x in args]
    z = RealC(0)
    if v.sort == R:
        if meth == 'powf':
            return st, Pow(v, a[1])
        if meth == 'powi':
            return st, Pow(v, ToReal(a[1]))
        if meth == 'exp':
            return st, Exp(v)
        if meth == 'ln':
            return st, Ln(v)
        if meth == 'exp_m1':
            return st, Sub(Exp(v), RealC(1))
        if meth == 'ln_1p':
            return st, Ln(Add(v, RealC(1)))
        if meth == 'sqrt':
            return st, Pow(v, RealC(Fraction(1, 2)))
        if meth == 'exp2':
            return st, Pow(RealC(2), v)
        if meth == 'log10':
            return st, Div(Ln(v), Ln(RealC(10)))
        if meth == 'log2':
            return st, Div(Ln(v), Ln(RealC(2)))
        if meth == 'log':
            return st, Div(Ln(v), Ln(a[1]))
        if meth == 'abs':
            return st, Abs(v)
        if meth == 'floor':
            return st, ToReal(Floor(v))
        if meth == 'ceil':
            return st, Neg(ToReal(Floor(Neg(v))))
        if meth == 'trunc':
            return st, _trunc(v)
        if meth == 'fract':
            return st, Sub(v, _trunc(v))
        if meth == 'round':
            h = RealC(Fraction(1, 2))
            return st, Ite(Le(z, v), ToReal(Floor(Add(v, h))), Neg(ToReal(Floor(Sub(h, v)))))
        if meth == 'max':
            return st, Max(v, a[1])
        if meth == 'min':
            return st, Min(v, a[1])
        if meth == 'clamp':
            return st, Min(Max(v, a[1]), a[2])
        if meth == 'mul_add':
            return st, Add(Mul(v, a[1]), a[2])
        if meth == 'recip':
            return st, Div(RealC(1), v)
        if meth == 'signum':
            return st, Ite(Le(z, v), RealC(1), RealC(-1))
        if meth in ('is_nan', 'is_infinite'):
            return st, FALSE
        if meth == 'is_finite':
            return st, TRUE
        if meth == 'is_sign_negative':
            return st, Lt(v, z)
        if meth == 'is_sign_positive':
            return st, Le(z, v)
        if meth == 'total_cmp':
            return st, VEnum('Ordering', Ite(Lt(v, a[1]), IntC(0), Ite(Eq(v, a[1]), IntC(1), IntC(2))))
        raise Unsupported('f64::' + meth)
    # chrono
    if meth in ('year', 'month', 'day', 'ordinal') or meth in ('month0', 'day0', 'ordinal0'):
        f = {'year': Year, 'month': Month, 'day': Day, 'ordinal': Ordinal}[meth.rstrip('0')]
        r = f(v)
        return st, (r if not meth.endswith('0') else Sub(r, IntC(1)))
    if meth in ('from_ymd_opt', 'from_ymd'):
        ok = ymd_valid(*a)
        r = Ymd(*a)
        if meth == 'from_ymd_opt':
            return st, opt(ok, r)
        eng.panic(st, Not(ok), 'invalid date', where)
        s = st.assume(ok)
        return (s, r) if s is not None else None
    if meth in ('from_yo_opt', 'from_yo'):
        ok = yo_valid(*a)
        r = Yo(*a)
        if meth == 'from_yo_opt':
            return st, opt(ok, r)
        eng.panic(st, Not(ok), 'invalid date', where)
        s = st.assume(ok)
        return (s, r) if s is not None else None
    if meth == 'num_days_from_ce' or meth == 'num_days':
        return st, v
    if meth == 'num_weeks':
        return st, IDiv(v, IntC(7))
    if meth in ('days', 'try_days') and re.search('TimeDelta|Duration', t):
        lim = (2 ** 63 - 1) // 86400000
        ok = And(Le(IntC(-lim), v), Le(v, IntC(lim)))
        if meth == 'try_days':
            return st, opt(ok, v)
        eng.panic(st, Not(ok), 'TimeDelta::days out of bounds', where)
        s = st.assume(ok)
        return (s, v) if s is not None else None
    if meth in ('weeks',) and re.search('TimeDelta|Duration', t):
        return st, Scale(7, v)
    if meth == 'new' and selfty.endswith('Days'):
        return st, v
    if meth == 'new' and selfty.endswith('Months'):
        return st, v
    if 'NaiveDate' in selfty or 'NDt' in selfty:
        if meth in ('checked_add_signed', 'checked_sub_signed', 'checked_add_days', 'checked_sub_days', 'succ_opt', 'pred_opt'):
            d = a[1] if len(a) > 1 else IntC(1)
            r = Add(v, d) if 'add' in meth or 'succ' in meth else Sub(v, d)
            return st, opt(And(*date_range(r)), r)
        if meth == 'signed_duration_since':
            return st, Sub(v, a[1])
        if meth in ('checked_add_months', 'checked_sub_months'):
            n = a[1]
            n = n if 'add' in meth else Neg(n)
            tot = Add(Scale(12, Year(v)), Month(v), IntC(-1), n)
            q = IDiv(tot, IntC(12))
            r = IRem(tot, IntC(12))
            y = Ite(Lt(r, IntC(0)), Sub(q, IntC(1)), q)
            m = Add(Ite(Lt(r, IntC(0)), Add(r, IntC(12)), r), IntC(1))
            d = Min(Day(v), dim(y, m))
            return st, opt(And(Le(IntC(YMIN), y), Le(y, IntC(YMAX))), Ymd(y, m, d))
        if meth in ('with_day', 'with_month', 'with_year', 'with_ordinal'):
            y, m, d = Year(v), Month(v), Day(v)
            if meth == 'with_ordinal':
                return st, opt(yo_valid(y, a[1]), Yo(y, a[1]))
            if meth == 'with_day':
                d = a[1]
            elif meth == 'with_month':
                m = a[1]
            else:
                y = a[1]
            return st, opt(ymd_valid(y, m, d), Ymd(y, m, d))
        if meth == 'leap_year':
            return st, leap(Year(v))
        if meth == 'num_days_in_month':
            return st, dim(Year(v), Month(v))
    if meth == 'new' and 'RangeInclusive' in selfty:
        return st, VIter(Add(Sub(a[1], a[0]), IntC(1)), lambda e, s, j: (TRUE, Add(a[0], j)), None, False, ('range', a[0], Add(a[1], IntC(1))))
    # integers
    ity = re.search(r'\b(usize|isize|[iu](?:8|16|32|64|128))\b', t)
    ity = ity.group(1) if ity else 'i64'
    lo, hi = INT[ity]

    def inr(r):
        return And(Le(IntC(lo), r), Le(r, IntC(hi)))

    def euclid(x, y):
        r = IRem(x, y)
        return Ite(Lt(r, IntC(0)), Add(r, Abs(y)), r)
    if meth in ('abs', 'unsigned_abs'):
        if meth == 'abs':
            eng.panic(st, Eq(v, IntC(lo)), 'abs overflow', where)
        return st, Abs(v)
    if meth in ('max', 'min'):
        return st, (Max if meth == 'max' else Min)(v, a[1])
    if meth == 'pow' and isc(a[1]) and cv(a[1]) <= 16:
        r = Mul(*([IntC(1)] + [v] * cv(a[1])))
        eng.panic(st, Not(inr(r)), 'pow overflow', where)
        s = st.assume(inr(r))
        return (s, r) if s is not None else None
    if meth in ('rem_euclid', 'div_euclid'):
        eng.panic(st, Eq(a[1], IntC(0)), 'division by zero', where)
        q = isc(a[1]) and cv(a[1]) > 0 and floordiv(v, cv(a[1]))
        if q:
            return st, q[0 if meth == 'div_euclid' else 1]
        r = euclid(v, a[1])
        return st, (r if meth == 'rem_euclid' else IDiv(Sub(v, r), a[1]))
    if meth == 'abs_diff':
        return st, Abs(Sub(v, a[1]))
    if meth.startswith('checked_') and meth[8:] in ('add', 'sub', 'mul'):
        r = {'add': Add, 'sub': Sub, 'mul': Mul}[meth[8:]](v, a[1])
        return st, opt(inr(r), r)
    if meth.startswith('saturating_') and meth[11:] in ('add', 'sub', 'mul'):
        r = {'add': Add, 'sub': Sub, 'mul': Mul}[meth[11:]](v, a[1])
        return st, Ite(Lt(r, IntC(lo)), IntC(lo), Ite(Lt(IntC(hi), r), IntC(hi), r))
    if meth.startswith('wrapping_') and meth[9:] in ('add', 'sub', 'mul'):
        r = {'add': Add, 'sub': Sub, 'mul': Mul}[meth[9:]](v, a[1])
        if smt.Ctx(st.pc).valid(inr(r)):
            return st, r
        return st, Ite(inr(r), r, App('wrap_' + ity, (r,), I))
    if meth == 'signum':
        return st, Ite(Lt(v, IntC(0)), IntC(-1), Ite(Eq(v, IntC(0)), IntC(0), IntC(1)))
    if meth in ('try_from', 'try_into'):
        k = short(tyargs(dest)[0]) if dest and tyargs(dest) else 'i64'
        l, h = INT[k]
        return st, VEnum('Result', Ite(And(Le(IntC(l), v), Le(v, IntC(h))), IntC(0), IntC(1)), {0: (v,), 1: (VOpaque('err'),)})
    if meth in ('is_negative', 'is_positive'):
        return st, Lt(v, IntC(0)) if meth == 'is_negative' else Lt(IntC(0), v)
    raise Unsupported('call %s' % t)


def mkrange(a, b):
    if a.sort != I:
        return VAgg('RangeF', [a, b])
    return VIter(Sub(b, a), lambda e, s, j: (TRUE, Add(a, j)), None, False, ('range', a, b))
