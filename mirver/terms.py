"""Hash-consed logical terms (Bool / Int / Real).  f64 values of the program are
idealised as mathematical reals; machine integers as mathematical integers with
the overflow checks rustc put into the MIR kept as obligations."""
from fractions import Fraction

B, I, R = 'B', 'I', 'R'


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'lvl', '_fv', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_tab = {}
_n = [0]


def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        _n[0] += 1
        t.id = _n[0]
        t._fv = None
        l = 0
        for a in kids(t):
            if a.lvl > l:
                l = a.lvl
        if op in ('sum', 'prod', 'all'):
            l = max(l, int(args[1].args[0][1:]))
        t.lvl = l
        _tab[k] = t
    return t


def kids(t):
    op, a = t.op, t.args
    if op in ('var', 'c'):
        return ()
    if op == 'lin':
        return tuple(x for x, _ in a[1])
    if op == 'app':
        return a[1:]
    if op in ('sum', 'prod', 'all'):
        return (a[0], a[2])
    if op == 'exq':
        return (a[1],)
    return a


def fv(t):
    if t._fv is None:
        if t.op == 'var':
            t._fv = frozenset((t,))
        elif t.op in ('sum', 'prod', 'all'):
            t._fv = fv(t.args[0]) | (fv(t.args[2]) - {t.args[1]})
        elif t.op == 'exq':
            t._fv = fv(t.args[1]) - set(t.args[0])
        else:
            s = frozenset()
            for k in kids(t):
                s = s | fv(k)
            t._fv = s
    return t._fv


def Var(name, sort):
    return mk('var', (name,), sort)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return Var('%s!%d' % (prefix, _fresh[0]), sort)


def IntC(v):
    return mk('c', (int(v),), I)


def RealC(v):
    return mk('c', (Fraction(v),), R)


TRUE = mk('c', (True,), B)
FALSE = mk('c', (False,), B)


def BoolC(b):
    return TRUE if b else FALSE


def isc(t):
    return t.op == 'c'


def cv(t):
    return t.args[0]


APPREW = {}      # app name -> fn(args) -> term or None  (definitional rewrites)
ENUMS = {}       # length term -> fn(binder kind, k, body) -> term or None (enumeration of map keys)


def App(name, args, sort):
    if APPREW:
        f = APPREW.get(name)
        if f is not None:
            r = f(tuple(args))
            if r is not None:
                return r
    return mk('app', (name,) + tuple(args), sort)


def solve_for(q, atom):
    """atom  q = t  with t free of q  ->  t"""
    if atom.op != 'eq0':
        return None
    d = atom.args[0]
    if d.op == 'var':
        return mk('c', (0,), d.sort) if d is q else None
    if d.op != 'lin':
        return None
    c = dict(d.args[1]).get(q)
    if c is None or abs(c) != 1:
        return None
    rest = Sub(d, Scale(c, q))
    r = Scale(-1, rest) if c == 1 else rest
    return None if q in fv(r) else r


def _cases(b):
    """a case distinction as a disjunction"""
    if b.op == 'not' and b.args[0].op == 'ite':
        c, x, y = b.args[0].args
        b = Ite(c, Not(x), Not(y))
    if b.op == 'ite':
        c, x, y = b.args
        return Or(And(c, _cases(x)), And(Not(c), _cases(y)))
    return b


def _atoms(b):
    if b.op in ('and', 'or'):
        for x in b.args:
            yield from _atoms(x)
    else:
        yield b


def ExistsS(qs, body):
    """existential with one-point simplification"""
    qs = [q for q in qs if q in fv(body)]
    if not qs:
        return body
    if body.op == 'or':
        return Or(*[ExistsS(qs, b) for b in body.args])
    conj = body.args if body.op == 'and' else (body,)
    for q in qs:
        for a in conj:
            t = solve_for(q, a)
            if t is not None:
                return ExistsS([x for x in qs if x is not q], subst(body, {q: t}))
    ind = [a for a in conj if not (fv(a) & set(qs))]
    if ind:
        return And(*ind, ExistsS(qs, And(*[a for a in conj if fv(a) & set(qs)])))
    for a in conj:
        if a.op == 'or':
            rest = [x for x in conj if x is not a]
            return Or(*[ExistsS(qs, And(x, *rest)) for x in a.args])
    # one point for each index of an inner existential
    for a in conj:
        if a.op == 'not' and a.args[0].op == 'all' and not (fv(a.args[0].args[0]) & set(qs)):
            n, k, b = open_binder(a.args[0])
            b = _cases(Not(b))
            if any(solve_for(q, x) is not None for x in _atoms(b) for q in qs):
                return Any(n, k, ExistsS(qs, And(b, *[x for x in conj if x is not a])))
    return Exists(qs, body)


# ---------------------------------------------------------------- linear
def _lin_parts(t):
    if t.op == 'c':
        return t.args[0], ()
    if t.op == 'lin':
        return t.args
    return 0, ((t, 1),)


def mklin(const, d, sort):
    items = tuple(sorted(((t, c) for t, c in d.items() if c != 0), key=lambda x: x[0].id))
    if sort == I:
        const = int(const)
    else:
        const = Fraction(const)
    if not items:
        return mk('c', (const,), sort)
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', (const, items), sort)


def Add(*ts):
    sort = ts[0].sort
    c, d = 0, {}
    for t in ts:
        assert t.sort == sort, (ts,)
        k, its = _lin_parts(t)
        c += k
        for x, q in its:
            d[x] = d.get(x, 0) + q
    if sort == I and len(d) > 1:
        for x in [x for x in d if x.op == 'ite' and isc(x.args[1]) and isc(x.args[2]) and (cv(x.args[2]) != 0 or cv(x.args[1]) != 1)]:
            # c ? a : b  =  b + (a - b) * (c ? 1 : 0)
            q, a, b = d.pop(x), cv(x.args[1]), cv(x.args[2])
            c += q * b
            u = Ite(x.args[0], IntC(1), IntC(0))
            if u.op == 'ite' and u.args[0] is x.args[0]:
                d[u] = d.get(u, 0) + q * (a - b)
            else:
                d[x] = q
                c -= q * b
    return mklin(c, d, sort)


def Scale(q, t):
    k, its = _lin_parts(t)
    return mklin(k * q, {x: c * q for x, c in its}, t.sort)


def Neg(t):
    return Scale(-1, t)


def Sub(a, b):
    return Add(a, Neg(b))


def Mul(*ts):
    sort = ts[0].sort
    q, fs = (1 if sort == I else Fraction(1)), []
    for t in ts:
        assert t.sort == sort
        if t.op == 'c':
            q *= t.args[0]
        elif t.op == 'mul':
            fs.extend(t.args)
        elif t.op == 'lin' and t.args[0] == 0 and len(t.args[1]) == 1:
            q *= t.args[1][0][1]
            x = t.args[1][0][0]
            fs.extend(x.args if x.op == 'mul' else (x,))
        else:
            fs.append(t)
    if q == 0 or not fs:
        return mk('c', (q if sort == I else Fraction(q),), sort)
    if len(fs) == 1:
        return Scale(q, fs[0])
    m = mk('mul', tuple(sorted(fs, key=lambda x: x.id)), sort)
    return Scale(q, m) if q != 1 else m


def Div(a, b):
    if b.op == 'c' and b.args[0] != 0:
        return Scale(Fraction(1) / b.args[0], a)
    if a.op == 'c' and a.args[0] == 0:
        # 0/b : only sound for b != 0 ; keep
        pass
    return mk('div', (a, b), R)


def floordiv(a, c):
    """(floor(a/c), a - c*floor(a/c)) for a constant c > 0, where few quotients of the non-multiples are possible; else None"""
    k, its = _lin_parts(a)
    out = mklin(k // c, {x: q // c for x, q in its if q % c == 0}, I)
    t = mklin(k % c, {x: q for x, q in its if q % c != 0}, I)
    r = interval(t)
    if r is None or r[1] // c - r[0] // c > 3:
        return None
    q = r[1] // c
    d, m = IntC(q), Sub(t, IntC(q * c))
    while q > r[0] // c:
        d = Ite(Lt(t, IntC(q * c)), IntC(q - 1), d) if d.op == 'c' else _deep(d, t, q * c, IntC(q - 1))
        m = Ite(Lt(t, IntC(q * c)), Sub(t, IntC((q - 1) * c)), m) if m.op != 'ite' else _deep(m, t, q * c, Sub(t, IntC((q - 1) * c)))
        q -= 1
    return Add(out, d), m


def _deep(x, t, lim, v):
    """case t < lim (v) put inside the smallest case so far"""
    return Ite(x.args[0], Ite(Lt(t, IntC(lim)), v, x.args[1]) if x.args[1].op != 'ite' else _deep(x.args[1], t, lim, v), x.args[2])


def IDiv(a, b):   # truncating
    if isc(a) and isc(b) and cv(b) != 0:
        q = abs(cv(a)) // abs(cv(b))
        return IntC(q if (cv(a) >= 0) == (cv(b) > 0) else -q)
    if isc(b) and cv(b) > 0:
        r = interval(a)
        q = r is not None and r[0] >= 0 and floordiv(a, cv(b))
        if q:
            return q[0]
    return mk('idiv', (a, b), I)


def IRem(a, b):   # truncating remainder (sign of dividend)
    if isc(a) and isc(b) and cv(b) != 0:
        r = abs(cv(a)) % abs(cv(b))
        return IntC(r if cv(a) >= 0 else -r)
    if isc(b) and cv(b) > 0:
        r = interval(a)
        q = r is not None and r[0] >= 0 and floordiv(a, cv(b))
        if q:
            return q[1]
    return mk('irem', (a, b), I)


def ToReal(t):
    if t.op == 'c':
        return RealC(t.args[0])
    if t.op == 'lin':
        return mklin(Fraction(t.args[0]), {ToReal(x): Fraction(c) for x, c in t.args[1]}, R)
    if t.op == 'mul':
        return Mul(*[ToReal(x) for x in t.args])
    if t.op == 'ite':
        return Ite(t.args[0], ToReal(t.args[1]), ToReal(t.args[2]))
    return mk('toreal', (t,), R)


def Floor(t):
    if t.op == 'c':
        return IntC(t.args[0].numerator // t.args[0].denominator)
    if t.op == 'toreal':
        return t.args[0]
    if t.op == 'lin' and t.args[0].denominator == 1 and all(
            c.denominator == 1 and x.op == 'toreal' for x, c in t.args[1]):
        return mklin(int(t.args[0]), {x.args[0]: int(c) for x, c in t.args[1]}, I)
    return mk('floor', (t,), I)


def Abs(t):
    if isc(t):
        return mk('c', (abs(cv(t)),), t.sort)
    if t.op == 'ite' and (isc(t.args[1]) or isc(t.args[2])):
        return Ite(t.args[0], Abs(t.args[1]), Abs(t.args[2]))
    return Ite(Le(mk('c', (0 if t.sort == I else Fraction(0),), t.sort), t), t, Neg(t))


def Max(a, b):
    if a.id > b.id:
        a, b = b, a
    return Ite(Lt(a, b), b, a)


def Min(a, b):
    if a.id > b.id:
        a, b = b, a
    return Ite(Lt(b, a), b, a)


def Pow(b, e):
    if isc(e):
        if cv(e) == 1:
            return b
        if cv(e) == 0:
            return RealC(1)
        if isc(b) and cv(e).denominator == 1 and (cv(b) != 0) and abs(cv(e)) <= 64:
            return RealC(Fraction(cv(b)) ** int(cv(e)))
    if isc(b) and cv(b) == 1:
        return RealC(1)
    return mk('pow', (b, e), R)


def Exp(x):
    if isc(x) and cv(x) == 0:
        return RealC(1)
    return mk('exp', (x,), R)


def Ln(x):
    if isc(x) and cv(x) == 1:
        return RealC(0)
    return mk('ln', (x,), R)


# ---------------------------------------------------------------- booleans
def Not(t):
    if t.op == 'c':
        return BoolC(not t.args[0])
    if t.op == 'not':
        return t.args[0]
    if t.op == 'le0':
        d = t.args[0]
        if d.sort == I:
            return _le0(Sub(IntC(1), d))
        return _lt0(Neg(d))
    if t.op == 'lt0':
        return _le0(Neg(t.args[0]))
    if t.op == 'ite':
        return Ite(t.args[0], Not(t.args[1]), Not(t.args[2]))
    return mk('not', (t,), B)


def And(*ts):
    out, seen = [], set()
    st = list(reversed(ts))
    while st:
        t = st.pop()
        if t.op == 'and':
            st.extend(reversed(t.args))
            continue
        if t is TRUE or t in seen:
            continue
        if t is FALSE:
            return FALSE
        if Not(t) in seen:
            return FALSE
        seen.add(t)
        out.append(t)
    out = _bounds(out, True)
    if out is None:
        return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(sorted(out, key=lambda x: x.id)), B)


def Or(*ts):
    return _or(ts)


def _or(ts):
    out, seen = [], set()
    st = list(reversed(ts))
    while st:
        t = st.pop()
        if t.op == 'or':
            st.extend(reversed(t.args))
            continue
        if t is FALSE or t in seen:
            continue
        if t is TRUE:
            return TRUE
        if Not(t) in seen:
            return TRUE
        seen.add(t)
        out.append(t)
    out = _bounds(out, False)
    if out is None:
        return TRUE
    if not out:
        return FALSE
    # absorption / factoring:  (a and b) or (a and not b) -> a
    if len(out) > 1:
        r = _factor(out)
        if r is not None:
            return r
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(sorted(out, key=lambda x: x.id)), B)


def _conj(t):
    return set(t.args) if t.op == 'and' else {t}


def _factor(out):
    sets = [_conj(t) for t in out]
    common = set.intersection(*sets)
    if common:
        rest = [And(*(s - common)) for s in sets]
        r = _or(rest)
        return And(*(sorted(common, key=lambda x: x.id)), r)
    # a or (not a and b) -> a or b
    for i, s in enumerate(sets):
        if len(s) == 1:
            x = next(iter(s))
            nx = Not(x)
            for j, s2 in enumerate(sets):
                if i != j and nx in s2:
                    new = [t for k, t in enumerate(out) if k != j] + [And(*(s2 - {nx}))]
                    return _or(new)
                if i != j and x in s2:
                    return _or([t for k, t in enumerate(out) if k != j])
    return None


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return Ite(a, b, Not(b))


def _canon(d):
    """scale d so the leading coefficient is +-1 (Real) / gcd 1 (Int); returns d"""
    if d.op != 'lin' and d.op != 'c':
        return d
    k, its = _lin_parts(d)
    if not its:
        return d
    if d.sort == R:
        q = abs(its[0][1])
        if q != 1:
            return Scale(Fraction(1) / q, d)
    else:
        from math import gcd
        g = abs(k)
        for _, c in its:
            g = gcd(g, abs(c))
        if g > 1:
            return mklin(k // g, {x: c // g for x, c in its}, I)
    return d


BOUNDS = {}       # integer application -> (lo, hi), also stated by its facts


def interval(t, n=0):
    """(lo, hi) of an integer term, None when one side is unknown"""
    if t.op == 'c':
        return t.args[0], t.args[0]
    if t.op == 'app':
        return BOUNDS.get(t.args[0])
    if t.op == 'lin':
        lo = hi = t.args[0]
        for x, c in t.args[1]:
            r = interval(x, n)
            if r is None:
                return None
            lo, hi = (lo + c * r[0], hi + c * r[1]) if c > 0 else (lo + c * r[1], hi + c * r[0])
        return lo, hi
    if t.op == 'ite' and n < 14:
        a = interval(t.args[1], n + 1)
        b = a and interval(t.args[2], n + 1)
        return b and (min(a[0], b[0]), max(a[1], b[1]))
    return None


def _le0(d):
    if isc(d):
        return BoolC(cv(d) <= 0)
    d = _canon(d)
    if d.sort == I:
        r = interval(d)
        if r is not None:
            if r[1] <= 0:
                return TRUE
            if r[0] > 0:
                return FALSE
    return mk('le0', (d,), B)


def rawle(a, b):
    """a <= b, not simplified away by the bounds of its terms"""
    d = Sub(a, b)
    return BoolC(cv(d) <= 0) if isc(d) else mk('le0', (d,), B)


def _lpart(d):
    """integer linear term -> (linear part with positive leading coefficient, sign, constant)"""
    if d.op == 'lin':
        k, its = d.args
        if its[0][1] < 0:
            return tuple((x, -c) for x, c in its), -1, k
        return its, 1, k
    return ((d, 1),), 1, 0


def _bounds(out, conj):
    """merge the integer bounds on equal linear parts; None: the whole is decided (false / true)"""
    le = [t for t in out if t.op == 'le0' and t.args[0].sort == I]
    if len(le) < 2:
        return out
    tab, drop, add = {}, set(), []
    for t in le:
        L, s, k = _lpart(t.args[0])
        # s*L + k <= 0   <=>   L <= -k (s=1)   /   L >= k (s=-1)
        o = tab.setdefault(L, {})
        if s in o:
            k0, t0 = o[s]
            keepnew = (k > k0) if conj else (k < k0)
            drop.add(t0 if keepnew else t)
            if keepnew:
                o[s] = (k, t)
        else:
            o[s] = (k, t)
    for L, o in tab.items():
        if len(o) == 2:
            hi, lo = -o[1][0], o[-1][0]
            if conj and lo > hi:
                return None
            if not conj and lo <= hi + 1:
                return None
    return [t for t in out if t not in drop] if drop else out


def _lt0(d):
    if d.sort == I:
        return _le0(Add(d, IntC(1)))
    if isc(d):
        return BoolC(cv(d) < 0)
    return mk('lt0', (_canon(d),), B)


def _ite_leaf_const(t, n=0):
    if t.op == 'c':
        return True
    return t.op == 'ite' and n < 80 and _ite_leaf_const(t.args[1], n + 1) and _ite_leaf_const(t.args[2], n + 1)


def _push(f, a, b):
    """push a comparison into ite's with constant leaves"""
    if a.op == 'ite' and isc(b) and _ite_leaf_const(a):
        return Ite(a.args[0], _push(f, a.args[1], b), _push(f, a.args[2], b))
    if b.op == 'ite' and isc(a) and _ite_leaf_const(b):
        return Ite(b.args[0], _push(f, a, b.args[1]), _push(f, a, b.args[2]))
    return f(a, b)


def Le(a, b):
    return _push(lambda x, y: _le0(Sub(x, y)), a, b)


def Lt(a, b):
    return _push(lambda x, y: _lt0(Sub(x, y)), a, b)


def Ge(a, b):
    return Le(b, a)


def Gt(a, b):
    return Lt(b, a)


def _eq(a, b):
    if a.sort == B:
        return Iff(a, b)
    d = Sub(a, b)
    if isc(d):
        return BoolC(cv(d) == 0)
    d = _canon(d)
    if d.op == 'lin' and d.args[1][0][1] < 0:
        d = Neg(d)
    if d.op == 'lin' and d.sort == I and d.args[0] != 0 and len(d.args[1]) == 1 and abs(d.args[1][0][1]) > 1:
        return FALSE if d.args[0] % d.args[1][0][1] else mk('eq0', (d,), B)
    if d.sort == I:
        r = interval(d)
        if r is not None and not r[0] <= 0 <= r[1]:
            return FALSE
    return mk('eq0', (d,), B)


def _eqpush(a, b):
    if a.op == 'ite' and (isc(b)) and (_has_const_leaf(a)):
        return Ite(a.args[0], _eqpush(a.args[1], b), _eqpush(a.args[2], b))
    if b.op == 'ite' and isc(a) and _has_const_leaf(b):
        return Ite(b.args[0], _eqpush(a, b.args[1]), _eqpush(a, b.args[2]))
    return _eq(a, b)


def _has_const_leaf(t):
    return t.args[1].op == 'c' or t.args[2].op == 'c' or any(
        x.op == 'ite' and _has_const_leaf(x) for x in t.args[1:])


def Eq(a, b):
    assert a.sort == b.sort, (a, b)
    if a is b:
        return TRUE
    if a.sort == B:
        return Iff(a, b)
    return _eqpush(a, b)


def _edge(c):
    """c false exactly at one end of the range of an application: (application, that end)"""
    L, s, k = _lpart(c.args[0])
    if len(L) == 1 and L[0][1] == 1 and L[0][0].op == 'app':
        r = BOUNDS.get(L[0][0].args[0])
        if r is not None:
            # s = 1: x <= -k, false for x > -k;  s = -1: x >= k, false for x < k
            if s == 1 and r[1] == 1 - k:
                return L[0][0], r[1]
            if s == -1 and r[0] == k - 1:
                return L[0][0], r[0]
    return None


def Ite(c, a, b):
    assert a.sort == b.sort, (a, b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return Ite(c.args[0], b, a)
    if c.op in ('le0', 'lt0'):
        nc = Not(c)
        if nc.id < c.id:
            return Ite(nc, b, a)
    if c.op == 'le0' and c.args[0].sort == I and a.sort != B:
        # at the end of its range a term is known: x >= lo + 1 ? .. x .. : value at lo
        for cc, p, q in ((c, a, b), (Not(c), b, a)):
            x = _edge(cc)
            if x is not None and p is not q and not isc(p) and subst(p, {x[0]: IntC(x[1])}) is q:
                return p
    if a.sort == B:
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        if b is FALSE:
            return And(c, a)
        if a is Not(b):
            pass
    if a.sort == R:
        for x, y in ((a, b), (b, a)):
            # c ? q*t : 0  ->  q * (c ? t : 0)
            if isc(y) and cv(y) == 0 and x.op == 'lin' and x.args[0] == 0 and len(x.args[1]) == 1:
                t, q = x.args[1][0]
                return Scale(q, Ite(c, t, y) if x is a else Ite(c, y, t))
    if a.sort == I and not isc(a) and not isc(b) and a.op != 'ite' and b.op != 'ite':
        d = Sub(a, b)
        if isc(d):
            return Add(b, Scale(cv(d), mk('ite', (c, IntC(1), IntC(0)), I)))
    if a.op == 'ite' and a.args[0] is c:
        return Ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c:
        return Ite(c, a, b.args[2])
    if b.op == 'ite' and b.args[1] is a and a.sort != B:
        return Ite(Or(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b and a.sort != B:
        return Ite(And(c, a.args[0]), a.args[1], b)
    return mk('ite', (c, a, b), a.sort)


# ---------------------------------------------------------------- binders
def _binder(op, n, k, body, sort):
    L = body.lvl + 1
    bv = Var('#%d' % L, I)
    return mk(op, (n, bv, subst(body, {k: bv})), sort)


def Sum(n, k, body):
    """sum_{0<=k<n} body"""
    if isc(body) and cv(body) == 0:
        return RealC(0)
    if isc(n):
        if cv(n) <= 0:
            return RealC(0)
        if cv(n) <= 64:
            return Add(*[subst(body, {k: IntC(j)}) for j in range(cv(n))])
    return _binder('sum', n, k, body, R)


def Prod(n, k, body):
    if isc(n):
        if cv(n) <= 0:
            return RealC(1)
        if cv(n) <= 64:
            return Mul(*[subst(body, {k: IntC(j)}) for j in range(cv(n))])
    return _binder('prod', n, k, body, R)


def forward(n, k, body):
    """a sum or product running from the last index to the first, written the other way round"""
    up = down = False
    seen, todo = set(), [body]
    while todo:
        t = todo.pop()
        if t is k:
            up = True
        if t in seen or k not in fv(t) or t.op in ('c', 'var'):
            continue
        seen.add(t)
        if t.op == 'lin':
            for x, c in t.args[1]:
                if x is k:
                    if c < 0:
                        down = True
                    else:
                        up = True
                else:
                    todo.append(x)
            continue
        todo.extend(a for a in t.args if isinstance(a, T))
        if t.op not in ('lin',) and any(isinstance(a, tuple) for a in t.args):
            for a in t.args:
                if isinstance(a, tuple):
                    todo.extend(x for x in a if isinstance(x, T))
    if down and not up:
        return subst(body, {k: Sub(Sub(n, IntC(1)), k)})
    return body



def All(n, k, body):
    if body is TRUE:
        return TRUE
    if isc(n):
        if cv(n) <= 0:
            return TRUE
        if cv(n) <= 100:
            return And(*[subst(body, {k: IntC(j)}) for j in range(cv(n))])
    if k not in fv(body):
        return Or(Le(n, IntC(0)), body)
    h = ENUMS.get(n)
    if h is not None:
        r = h(k, body)
        if r is not None:
            return r
    return _binder('all', n, k, body, B)


def Any(n, k, body):
    return Not(All(n, k, Not(body)))


LAST = {}        # name -> (placeholders, bound var, condition)
_lastkey = {}


def LastIx(n, k, c):
    """the last index 0<=k<n with c (0 when there is none)"""
    if k not in fv(c):
        return Max(Sub(n, IntC(1)), IntC(0))
    if isc(n) and cv(n) <= 16:
        r = IntC(0)
        for j in range(max(cv(n), 0)):
            r = Ite(subst(c, {k: IntC(j)}), IntC(j), r)
        return r
    vs = []
    for x in walk(c):
        for v in ([x] if x.op == 'var' else []):
            if v is not k and v not in vs and v in fv(c):
                vs.append(v)
    ph = [Var('#p%d' % i, v.sort) for i, v in enumerate(vs)]
    cc = subst(c, dict(zip(vs, ph)))
    kv = Var('#pk', I)
    cc = subst(cc, {k: kv})
    name = _lastkey.get(cc)
    if name is None:
        name = _lastkey[cc] = 'last#%d' % len(_lastkey)
        LAST[name] = (ph, kv, cc)
    return App(name, (n,) + tuple(vs), I)


def last_facts(t):
    ph, kv, cc = LAST[t.args[0]]
    n, m = t.args[1], dict(zip(ph, t.args[2:]))
    c = subst(cc, m)
    j = fresh('lj', I)
    hit = And(Le(IntC(0), t), Lt(t, n), subst(c, {kv: t}), All(n, j, Implies(Lt(t, j), Not(subst(c, {kv: j})))))
    return [Le(IntC(0), t), Or(hit, And(Eq(t, IntC(0)), All(n, j, Not(subst(c, {kv: j})))))]


_exn = [0]


def Exists(vs, body):
    """unbounded existential over fresh vars"""
    vs = [v for v in vs if v in fv(body)]
    if not vs:
        return body
    # canonical names by order of given list
    m = {}
    base = 1 + max([int(x.args[0][2:].split('_')[0]) for x in _exvars(body)] + [0])
    nv = []
    for i, v in enumerate(vs):
        w = Var('#e%d_%d' % (base, i), v.sort)
        m[v] = w
        nv.append(w)
    return mk('exq', (tuple(nv), subst(body, m)), B)


def _exvars(t, seen=None, out=None):
    if seen is None:
        seen, out = set(), set()
    if t in seen:
        return out
    seen.add(t)
    if t.op == 'exq':
        out.update(t.args[0])
    for k in kids(t):
        _exvars(k, seen, out)
    return out


def open_binder(t):
    """(n, fresh var, body)"""
    k = fresh('k', I)
    return t.args[0], k, subst(t.args[2], {t.args[1]: k})


REBUILD = {}


def rebuild(t, ks):
    op = t.op
    if op == 'lin':
        c, d = t.args[0], {}
        r = [mk('c', (c,), t.sort)]
        for (x, q), y in zip(t.args[1], ks):
            r.append(Scale(q, y))
        return Add(*r)
    if op == 'app':
        return App(t.args[0], ks, t.sort)
    return {
        'mul': lambda: Mul(*ks), 'div': lambda: Div(*ks), 'idiv': lambda: IDiv(*ks), 'irem': lambda: IRem(*ks),
        'toreal': lambda: ToReal(*ks), 'floor': lambda: Floor(*ks), 'pow': lambda: Pow(*ks),
        'exp': lambda: Exp(*ks), 'ln': lambda: Ln(*ks), 'not': lambda: Not(*ks), 'and': lambda: And(*ks),
        'or': lambda: Or(*ks), 'ite': lambda: Ite(*ks), 'le0': lambda: _le0n(ks[0]), 'lt0': lambda: _lt0n(ks[0]),
        'eq0': lambda: Eq(ks[0], mk('c', (0 if ks[0].sort == I else Fraction(0),), ks[0].sort)),
    }[op]()


def _le0n(d):
    return _le0(d)


def _lt0n(d):
    return _lt0(d)


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = set(m)
    return _subst(t, m, keys, memo)


def _subst(t, m, keys, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'var':
        return m.get(t, t)
    if t.op == 'c':
        return t
    if not (fv(t) & keys) and not any(k.op != 'var' for k in keys):
        return t
    if t in m:
        return m[t]
    if t.op in ('sum', 'prod', 'all'):
        n, k, body = open_binder(t)
        n2 = _subst(n, m, keys, memo)
        b2 = _subst(body, m, keys, dict())
        r = {'sum': Sum, 'prod': Prod, 'all': All}[t.op](n2, k, b2)
    elif t.op == 'exq':
        vs = [fresh('x', v.sort) for v in t.args[0]]
        body = subst(t.args[1], dict(zip(t.args[0], vs)))
        r = Exists(vs, _subst(body, m, keys, dict()))
    else:
        ks = kids(t)
        ns = [_subst(k, m, keys, memo) for k in ks]
        r = t if all(a is b for a, b in zip(ks, ns)) else rebuild(t, ns)
    memo[t] = r
    return r


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 12:
        return '…'
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if op == 'var':
        return str(a[0])
    if op == 'c':
        return str(a[0])
    if op == 'lin':
        r = []
        for x, q in a[1]:
            r.append(s(x) if q == 1 else ('-' + s(x) if q == -1 else '%s*%s' % (q, s(x))))
        if a[0] != 0:
            r.append(str(a[0]))
        return '(' + ' + '.join(r) + ')'
    if op == 'mul':
        return '*'.join(s(x) for x in a)
    if op == 'div':
        return '(%s / %s)' % (s(a[0]), s(a[1]))
    if op == 'pow':
        return '%s^%s' % (s(a[0]), s(a[1]))
    if op == 'app':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if op in ('sum', 'prod', 'all'):
        return '%s{%s<%s}(%s)' % (op, s(a[1]), s(a[0]), s(a[2]))
    if op == 'exq':
        return 'EX %s. %s' % (a[0], s(a[1]))
    if op in ('le0', 'lt0', 'eq0'):
        return '(%s %s 0)' % (s(a[0]), {'le0': '<=', 'lt0': '<', 'eq0': '='}[op])
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(s(x) for x in a)
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(s(x) for x in a) + ')'
    return '%s(%s)' % (op, ', '.join(s(x) for x in a))


# ---------------------------------------------------------------- memoisation
def _memo2(f):
    tab = {}

    def g(a, b):
        k = (a, b)
        r = tab.get(k)
        if r is None:
            r = tab[k] = f(a, b)
        return r
    return g


_not0, _ite0, _hcl0 = Not, Ite, _has_const_leaf
_nt, _it, _hl = {}, {}, {}


def Not(t):
    r = _nt.get(t)
    if r is None:
        r = _nt[t] = _not0(t)
    return r


def Ite(c, a, b):
    k = (c, a, b)
    r = _it.get(k)
    if r is None:
        r = _it[k] = _ite0(c, a, b)
    return r


def _has_const_leaf(t):
    r = _hl.get(t)
    if r is None:
        r = _hl[t] = _hcl0(t)
    return r


_eqpush = _memo2(_eqpush)
Le = _memo2(Le)
Lt = _memo2(Lt)
Sub = _memo2(Sub)


# ---------------------------------------------------------------- operators
# sugar for specifications:  + - * / ** < <= > >= & | ~ on terms and numbers
def lift(x, like=None):
    if isinstance(x, T):
        if like is not None and like.sort == R and x.sort == I:
            return ToReal(x)
        return x
    if isinstance(x, bool):
        return BoolC(x)
    if like is not None and like.sort == I and isinstance(x, int):
        return IntC(x)
    return RealC(Fraction(str(x)) if isinstance(x, float) else Fraction(x))


def _ar(f, swap=False):
    def g(a, b):
        x, y = lift(a, b if isinstance(b, T) else None), lift(b, a)
        x, y = lift(x, y), lift(y, x)
        return f(y, x) if swap else f(x, y)
    return g


T.__add__ = _ar(lambda x, y: Add(x, y))
T.__radd__ = _ar(lambda x, y: Add(x, y), True)
T.__sub__ = _ar(lambda x, y: Sub(x, y))
T.__rsub__ = _ar(lambda x, y: Sub(x, y), True)
T.__mul__ = _ar(lambda x, y: Mul(x, y))
T.__rmul__ = _ar(lambda x, y: Mul(x, y), True)
T.__truediv__ = _ar(lambda x, y: Div(x, y))
T.__rtruediv__ = _ar(lambda x, y: Div(x, y), True)
T.__pow__ = _ar(lambda x, y: Pow(x, y))
T.__rpow__ = _ar(lambda x, y: Pow(x, y), True)
T.__neg__ = lambda a: Neg(a)
T.__lt__ = _ar(lambda x, y: Lt(x, y))
T.__le__ = _ar(lambda x, y: Le(x, y))
T.__gt__ = _ar(lambda x, y: Lt(y, x))
T.__ge__ = _ar(lambda x, y: Le(y, x))
T.__and__ = lambda a, b: And(a, b)
T.__or__ = lambda a, b: Or(a, b)
T.__invert__ = lambda a: Not(a)


def eq(a, b):
    x, y = lift(a, b if isinstance(b, T) else None), lift(b, a if isinstance(a, T) else None)
    x, y = lift(x, y), lift(y, x)
    return Iff(x, y) if x.sort == B else Eq(x, y)


def ite(c, a, b):
    x, y = lift(a, b if isinstance(b, T) else None), lift(b, a if isinstance(a, T) else None)
    return Ite(c, lift(x, y), lift(y, x))
