"""Normal form for real terms: Laurent polynomials over canonical atoms with a
factored denominator, with the laws of powers, exponentials and logarithms.

Every law that needs a side condition (positive base, non-zero denominator,
non-negative summation bound) asks ctx to prove it first; when it cannot be
proved the sub-term stays opaque, so the normaliser never uses an unproved law."""
from fractions import Fraction
from .terms import *
from . import terms as tm

ONE = ()
F1 = Fraction(1)


def p_const(c):
    return {ONE: Fraction(c)} if c else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for t, e in b:
        v = d.get(t, 0) + e
        if v:
            d[t] = v
        else:
            d.pop(t, None)
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


class TooBig(Exception):
    pass


def p_mul(a, b):
    if len(a) * len(b) > 20000:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                del r[k]
    return r


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


def m_pow(m, q):
    return tuple((t, e * q) for t, e in m)


def p_key(p):
    return tuple(sorted(p.items(), key=lambda x: [(t.id, e) for t, e in x[0]]))


def lead(p):
    return max(p.items(), key=lambda x: [(t.id, e) for t, e in x[0]])


class Rat:
    __slots__ = ('n', 'd')   # n: poly ; d: {polykey: int}

    def __init__(self, n, d=None):
        self.n, self.d = n, d or {}


def r_const(c):
    return Rat(p_const(c))


def _fmul(d):
    r = p_const(1)
    for k, e in d.items():
        r = p_mul(r, p_pow(dict(k), e))
    return r


def r_add(a, b, s=1):
    if a.d == b.d:
        return Rat(p_add(a.n, b.n, s), a.d)
    l = dict(a.d)
    for k, e in b.d.items():
        l[k] = max(l.get(k, 0), e)
    ma = {k: e - a.d.get(k, 0) for k, e in l.items() if e > a.d.get(k, 0)}
    mb = {k: e - b.d.get(k, 0) for k, e in l.items() if e > b.d.get(k, 0)}
    return Rat(p_add(p_mul(a.n, _fmul(ma)), p_mul(b.n, _fmul(mb)), s), l)


def r_mul(a, b):
    d = dict(a.d)
    for k, e in b.d.items():
        d[k] = d.get(k, 0) + e
    return _cancel(Rat(p_mul(a.n, b.n), d))


def _cancel(r):
    """cancel a denominator factor equal (up to a monomial) to the whole numerator"""
    if not r.d:
        return r
    for k in list(r.d):
        q = _divide(r.n, dict(k))
        while q is not None and r.d.get(k, 0) > 0:
            d = dict(r.d)
            d[k] -= 1
            if not d[k]:
                del d[k]
            r = Rat(q, d)
            q = _divide(r.n, dict(k)) if d.get(k) else None
    return r


def _divide(n, p):
    """exact division n / p of Laurent polynomials, or None"""
    if not n:
        return {}
    if len(n) > 60:
        return None
    lm, lc = lead(p)
    q, r = {}, dict(n)
    for _ in range(len(n) + 4):
        if not r:
            return q
        m, c = lead(r)
        k = m_mul(m, m_pow(lm, -1))
        t = {k: c / lc}
        q = p_add(q, t)
        r = p_add(r, p_mul(t, p), -1)
        if len(r) > len(n) + 12:
            return None
    return q if not r else None


def _shift(n, k, body):
    """sum over k < n of (a <= k ? f(k) : 0), a constant: the sum over k < n - a of f(k + a)"""
    if body.op != 'ite':
        return None
    c, x, y = body.args
    if isc(x) and cv(x) == 0:
        c, x, y = Not(c), y, x
    if not (isc(y) and cv(y) == 0):
        return None
    for f in (c.args if c.op == 'and' else (c,)):
        if f.op == 'le0' and f.args[0].op == 'lin':
            a, its = f.args[0].args
            if its == ((k, -1),) and a > 0:
                rest = And(*[g for g in (c.args if c.op == 'and' else (c,)) if g is not f])
                return Sum(Sub(n, IntC(a)), k, subst(Ite(rest, x, y), {k: Add(k, IntC(a))}))
    return None


class Norm:
    def __init__(self, ctx, inbinder=False):
        self.inbinder = inbinder
        self.ctx = ctx
        self.memo = {}

    # ------------------------------------------------------------ entry
    def norm(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._norm(t)
            self.memo[t] = r
        return r

    def term(self, t):
        return self.to_term(self.norm(t))

    def atom(self, t):
        return Rat({((t, F1),): F1})

    def _norm(self, t):
        op, a = t.op, t.args
        if op == 'c':
            return r_const(a[0])
        if op == 'lin':
            r = r_const(a[0])
            for x, q in a[1]:
                y = self.norm(x)
                r = r_add(r, Rat({m: c * q for m, c in y.n.items()}, y.d))
            return r
        if op == 'mul':
            r = r_const(1)
            for x in a:
                r = r_mul(r, self.norm(x))
            return r
        if op == 'div':
            n, d = self.norm(a[0]), self.norm(a[1])
            i = self.inv(d)
            if i is None:
                # a / d with d possibly zero: a * (1 / d), also in floating point (inf or NaN on both sides)
                if d.d or not d.n:
                    return self.atom(mk('div', (self.to_term(n), self.to_term(d)), R))
                c = lead(d.n)[1]
                dt = self.to_term(Rat({m: x / c for m, x in d.n.items()}))
                return r_mul(n, r_mul(r_const(1 / c), self.atom(mk('div', (RealC(1), dt), R))))
            return r_mul(n, i)
        if op == 'pow':
            return self.npow(self.norm(a[0]), self.norm(a[1]))
        if op == 'exp':
            return self.nexp(self.norm(a[0]))
        if op == 'ln':
            return self.nln(self.norm(a[0]))
        if op == 'ite':
            c = self.form(a[0])
            if self.inbinder:
                c = self.decide(c)
                if c is TRUE:
                    return self.norm(a[1])
                if c is FALSE:
                    return self.norm(a[2])
            return self._maybe_atom(Ite(c, self.term(a[1]), self.term(a[2])))
        if op == 'toreal':
            x = self.iterm(a[0])
            y = ToReal(x)
            if y.op == 'toreal':
                return self.atom(y)
            return self.norm(y)
        if op == 'app':
            return self.atom(App(a[0], [self.any(x) for x in a[1:]], R))
        if op == 'sum':
            return self.nsum(t)
        if op == 'prod':
            return self.nprod(t)
        return self.atom(t)

    def decide(self, c):
        """simplify an index condition by the range of the bound variable"""
        if c.op in ('and', 'or'):
            return (And if c.op == 'and' else Or)(*[self.decide(x) for x in c.args])
        if c.op == 'not':
            return Not(self.decide(c.args[0]))
        if c.op in ('le0', 'lt0', 'eq0') and c.args[0].sort == I:
            if self.ctx.lightvalid(c):
                return TRUE
            if self.ctx.lightvalid(Not(c)):
                return FALSE
        return c

    def _maybe_atom(self, t):
        if t.op == 'ite' or t.op == 'var':
            return self.atom(t)
        return self.norm(t)

    def any(self, x):
        if x.sort == R:
            return self.term(x)
        if x.sort == I:
            return self.iterm(x)
        return self.form(x)

    def iterm(self, t):
        """normalise real sub-terms of an Int term"""
        if t.op in ('var', 'c'):
            return t
        k = ('i', t)
        r = self.memo.get(k)
        if r is not None:
            return r
        if t.op == 'floor':
            r = self.floor(self.term(t.args[0]))
        else:
            ks = [self.any(x) for x in kids(t)]
            r = rebuild(t, ks)
        self.memo[k] = r
        return r

    def floor(self, x):
        """whole terms leave the floor; what stays is dropped when it is provably in [0, 1)"""
        if x.op != 'lin':
            return Floor(x)
        whole = {y.args[0]: int(c) for y, c in x.args[1] if y.op == 'toreal' and c.denominator == 1}
        if not whole:
            return Floor(x)
        rest = mklin(x.args[0], {y: c for y, c in x.args[1] if not (y.op == 'toreal' and c.denominator == 1)}, R)
        if rest.op == 'lin' and all(y.op == 'toreal' for y, _ in rest.args[1]) and \
                self.ctx.valid(And(Le(RealC(0), rest), Lt(rest, RealC(1))), 300):
            return mklin(0, whole, I)
        return Floor(x)

    def form(self, f):
        """normalise the real/int terms of a formula (structure-preserving)"""
        if f.op in ('c', 'var'):
            return f
        k = ('f', f)
        r = self.memo.get(k)
        if r is not None:
            return r
        op = f.op
        if op in ('le0', 'lt0', 'eq0') and f.args[0].sort == R:
            r = self.cmp(op, f.args[0])
        elif op == 'all':
            n, v, body = open_binder(f)
            nn = self.iterm(n)
            sub = Norm(self.ctx.extend([Le(IntC(0), v), Lt(v, n)]), True)
            r = All(nn, v, sub.form(body))
        elif op == 'exq':
            vs = [fresh('x', v.sort) for v in f.args[0]]
            r = Exists(vs, self.form(subst(f.args[1], dict(zip(f.args[0], vs)))))
        else:
            r = rebuild(f, [self.any(x) for x in kids(f)])
        self.memo[k] = r
        return r

    def cmp(self, op, d):
        x = self.norm(d)
        z = RealC(0)
        if not x.n:
            return TRUE if op != 'lt0' else FALSE
        sign, den = 1, []
        n = x.n
        # clear negative powers of atoms known to be positive; denominators known positive
        for k, e in x.d.items():
            if e % 2 == 0:
                continue
            p = self.to_term(Rat(dict(k)))
            if op == 'eq0':
                continue
            s = self.ctx.sign(p)
            if s is None:
                den.append(p)
            else:
                sign *= s
        n = self._clear(n, op)
        if n is None:
            n = x.n
        nt = self.to_term(Rat(n))
        if sign < 0:
            nt = Neg(nt)
        for p in den:
            nt = Mul(nt, p)
        return {'le0': Le, 'lt0': Lt, 'eq0': Eq}[op](nt, z)

    def _clear(self, n, op):
        ats = {}
        for m in n:
            for t, e in m:
                ats.setdefault(t, []).append(e)
        f = []
        for t, es in ats.items():
            lo = min(es + ([0] if len(es) < len(n) else []))
            hi = max(es + ([0] if len(es) < len(n) else []))
            if lo < 0:
                if self.ctx.sign(t) == 1 or (op == 'eq0' and self.ctx.nonzero(t)):
                    f.append((t, -lo))
                elif op != 'eq0' and self.ctx.sign(t) == -1:
                    k = -lo
                    if k.denominator != 1:
                        return None
                    f.append((t, Fraction(int(k) + int(k) % 2)))
                elif op != 'eq0' and self.ctx.nonzero(t):
                    k = -lo
                    if k.denominator != 1:
                        return None
                    f.append((t, Fraction(int(k) + int(k) % 2)))
                else:
                    return None
            elif lo > 0 and lo == hi and len(n) > 1 and self.ctx.sign(t) == 1:
                f.append((t, -lo))
        if not f:
            return n
        f = tuple(sorted(f, key=lambda x: x[0].id))
        return {m_mul(m, f): c for m, c in n.items()}

    # ------------------------------------------------------------ inverse
    def inv(self, d):
        """1/d or None"""
        if not d.n:
            return None
        num = p_const(1)
        for k, e in d.d.items():
            num = p_mul(num, p_pow(dict(k), e))
        if len(d.n) == 1:
            (m, c), = d.n.items()
            for t, e in m:
                if not self.ctx.nonzero(t):
                    return None
            return Rat(p_mul(num, {m_pow(m, -1): 1 / c}))
        # factor out common monomial & scale
        p, mono, c = self.primitive(d.n)
        if not self.ctx.nonzero(self.to_term(Rat(d.n))):
            return None
        # common monomial factors are then non-zero as well
        return _cancel(Rat(p_mul(num, {m_pow(mono, -1): 1 / c}), {p_key(p): 1}))

    def primitive(self, n):
        """n = c * mono * p ; p has leading coefficient 1, no common atom"""
        ms = list(n)
        com = None
        for m in ms:
            d = dict(m)
            if com is None:
                com = dict(d)
            else:
                for t in list(com):
                    if t in d and (d[t] > 0) == (com[t] > 0):
                        com[t] = min(com[t], d[t], key=abs)
                    else:
                        del com[t]
        mono = tuple(sorted(com.items(), key=lambda x: x[0].id)) if com else ONE
        inv = m_pow(mono, -1)
        p = {m_mul(m, inv): c for m, c in n.items()}
        c = lead(p)[1]
        return {m: x / c for m, x in p.items()}, mono, c

    # ------------------------------------------------------------ powers
    def npow(self, b, e):
        bt, et = None, None
        if not e.d and set(e.n) <= {ONE}:
            c = e.n.get(ONE, Fraction(0))
            if c.denominator == 1 and abs(c) <= 12:
                if c == 0:
                    return r_const(1)
                if c > 0:
                    r = r_const(1)
                    for _ in range(int(c)):
                        r = r_mul(r, b)
                    return r
                i = self.inv(b)
                if i is not None:
                    return self.npow(i, r_const(-c))
        bt = self.to_term(b)
        if isc(bt) and cv(bt) == 1:
            return r_const(1)
        if self.ctx.sign(bt) != 1:
            return self.atom(Pow(bt, self.to_term(e)))
        return self._pw(b, e)

    def _pw(self, b, e):
        """b > 0 known"""
        res = r_const(1)
        pieces = []          # (base Rat/Term, sign exponent)
        ok = True
        p, mono, c = self.primitive(b.n) if b.n else ({}, ONE, 0)
        for t, k in mono:
            if self.ctx.sign(t) != 1:
                ok = False
        for k in b.d:
            if self.ctx.sign(self.to_term(Rat(dict(k)))) != 1:
                ok = False
        if ok:
            s = p_const(c)
            pos = p
            if len(p) > 1 or (p and ONE not in p):
                if c < 0:
                    pos, c = {m: -x for m, x in p.items()}, -c
            elif c < 0:
                ok = False
        if not ok:
            # keep whole base, scaled to be canonical
            return self._base(self.to_term(b), e)
        if c != 1:
            res = r_mul(res, self._cpow(c, e))
        for t, k in mono:
            res = r_mul(res, self._apow(t, k, e))
        if not (len(pos) == 1 and ONE in pos and pos[ONE] == 1):
            res = r_mul(res, self._base(self.to_term(Rat(pos)), e))
        ne = Rat({m: -x for m, x in e.n.items()}, e.d)
        for k, q in b.d.items():
            ee = Rat({m: x * q for m, x in ne.n.items()}, ne.d)
            res = r_mul(res, self._base(self.to_term(Rat(dict(k))), ee))
        return res

    def _cpow(self, c, e):
        return self._base(RealC(c), e)

    def _apow(self, t, k, e):
        """(atom t)^(k*e), t > 0"""
        ke = Rat({m: x * k for m, x in e.n.items()}, e.d)
        if t.op == 'exp':
            return self.nexp(r_mul(self.norm(t.args[0]), ke))
        if t.op == 'pow' and self.ctx.sign(t.args[0]) == 1:
            return self._pw(self.norm(t.args[0]), r_mul(self.norm(t.args[1]), ke)) \
                if t.args[0].op != 'pow' else self._base(t, ke)
        return self._base(t, ke)

    def _base(self, X, e):
        """X^e for a positive canonical base term X"""
        if isc(X) and cv(X) == 1:
            return r_const(1)
        res = Rat({ONE: F1})
        if e.d:
            et = self.to_term(e)
            return self.atom(Pow(X, et))
        for m, c in e.n.items():
            if m == ONE:
                n = c.numerator // c.denominator
                f = c - n
                if n:
                    bx = self.norm(X) if X.op not in ('pow', 'exp') else self.atom(X)
                    if abs(n) > 12:
                        res = r_mul(res, self.atom(mk('pow', (X, RealC(n)), R)))
                    elif n > 0:
                        res = r_mul(res, Rat(p_pow(bx.n, n), {k: q * n for k, q in bx.d.items()}))
                    else:
                        i = self.inv(bx)
                        if i is None:
                            res = r_mul(res, self.atom(mk('pow', (X, RealC(n)), R)))
                        else:
                            r2 = r_const(1)
                            for _ in range(-n):
                                r2 = r_mul(r2, i)
                            res = r_mul(res, r2)
                if f:
                    res = r_mul(res, self.atom(mk('pow', (X, RealC(f)), R)))
            else:
                # X^(c*m) with m's integer coefficient kept as exponent of the atom X^m
                mt = self.mono_term(m)
                res = r_mul(res, Rat({((Pow(X, mt), c),): F1}))
        return res

    def nexp(self, x):
        if x.d:
            return self.atom(Exp(self.to_term(x)))
        res = r_const(1)
        for m, c in x.n.items():
            if m == ONE:
                res = r_mul(res, Rat({((mk('exp', (RealC(1),), R), c),): F1}))
                continue
            lns = [(t, e) for t, e in m if t.op == 'ln' and e == 1]
            if lns:
                t = lns[0][0]
                rest = tuple(x for x in m if x[0] is not t)
                if self.ctx.sign(t.args[0]) == 1:
                    res = r_mul(res, self._pw(self.norm(t.args[0]), Rat({rest: c})))
                    continue
            res = r_mul(res, Rat({((mk('exp', (self.mono_term(m),), R), c),): F1}))
        return res

    def nln(self, x):
        xt = self.to_term(x)
        if self.ctx.sign(xt) != 1:
            return self.atom(Ln(xt))
        p, mono, c = self.primitive(x.n)
        for t, k in mono:
            if self.ctx.sign(t) != 1:
                return self.atom(Ln(xt))
        for k in x.d:
            if self.ctx.sign(self.to_term(Rat(dict(k)))) != 1:
                return self.atom(Ln(xt))
        if c < 0:
            p, c = {m: -v for m, v in p.items()}, -c
        res = r_const(0)
        if c != 1:
            res = r_add(res, self.atom(Ln(RealC(c))))
        for t, k in mono:
            if t.op == 'exp':
                y = self.norm(t.args[0])
            elif t.op == 'pow' and self.ctx.sign(t.args[0]) == 1:
                y = r_mul(self.norm(t.args[1]), self.nln(self.norm(t.args[0])))
            else:
                y = self.atom(Ln(t))
            res = r_add(res, Rat({m: v * k for m, v in y.n.items()}, y.d))
        pt = self.to_term(Rat(p))
        if not (isc(pt) and cv(pt) == 1):
            res = r_add(res, self.atom(Ln(pt)))
        for k, e in x.d.items():
            res = r_add(res, Rat({((Ln(self.to_term(Rat(dict(k)))), F1),): Fraction(e)}), -1)
        return res

    # ------------------------------------------------------------ sums
    def nsum(self, t):
        n, k, body = open_binder(t)
        n = self.iterm(n)
        c0, its = tm._lin_parts(n)
        if c0 != 0 and its and abs(c0) <= 8:
            n0 = Sub(n, IntC(c0))
            if c0 > 0 and self.ctx.valid(Le(IntC(0), n0)):
                r = self.norm(Sum(n0, k, body))
                for j in range(c0):
                    r = r_add(r, self.norm(subst(body, {k: Add(n0, IntC(j))})))
                return r
            if c0 < 0 and self.ctx.valid(Le(IntC(0), n)):
                r = self.norm(Sum(n0, k, body))
                for j in range(c0, 0):
                    r = r_add(r, self.norm(subst(body, {k: Add(n0, IntC(j))})), -1)
                return r
        sh = _shift(n, k, body)
        if sh is not None:
            return self.norm(sh)
        sub = Norm(self.ctx.extend([Le(IntC(0), k), Lt(k, n)]), True)
        b = sub.norm(body)
        out = r_const(0)
        dk = {q: e for q, e in b.d.items() if any(k in fv(t) for m, _ in q for t, _ in m)}
        df = {q: e for q, e in b.d.items() if q not in dk}
        for m, c in b.n.items():
            free = tuple(x for x in m if k not in fv(x[0]))
            dep = tuple(x for x in m if k in fv(x[0]))
            bt = sub.to_term(Rat({dep: F1}, dk))
            if k not in fv(bt):
                s = Rat(self.norm(ToReal(tm.Max(n, IntC(0)))).n) if not self.ctx.valid(Le(IntC(0), n)) else self.norm(ToReal(n))
                s = r_mul(s, Rat({dep: F1}, dk))
            else:
                sh = _shift(n, k, bt)
                s = self.norm(sh) if sh is not None else self.atom(Sum(n, k, bt))
            out = r_add(out, r_mul(s, Rat({free: c}, df)))
        return out

    def nprod(self, t):
        n, k, body = open_binder(t)
        n = self.iterm(n)
        sub = Norm(self.ctx.extend([Le(IntC(0), k), Lt(k, n)]), True)
        b = sub.norm(body)
        num = self.atom(Prod(n, k, sub.to_term(Rat(b.n))))
        res = num
        for q, e in b.d.items():
            p = Prod(n, k, sub.to_term(Rat(dict(q))))
            res = r_mul(res, Rat({((p, Fraction(-e)),): F1}))
        return res

    # ------------------------------------------------------------ back to terms
    def mono_term(self, m):
        fs = []
        for t, e in m:
            if e == 1:
                fs.append(t)
            elif t.op == 'pow':
                fs.append(mk('pow', (t.args[0], Mul(RealC(e), t.args[1])), R))
            elif t.op == 'exp':
                fs.append(Exp(Mul(RealC(e), t.args[0])))
            elif e == -1:
                fs.append(mk('div', (RealC(1), t), R))
            elif e.denominator == 1 and e > 0:
                fs.extend([t] * int(e))
            elif e.denominator == 1:
                fs.extend([mk('div', (RealC(1), t), R)] * int(-e))
            else:
                fs.append(mk('pow', (t, RealC(e)), R))
        return Mul(RealC(1), *fs)

    def poly_term(self, p):
        if not p:
            return RealC(0)
        return Add(RealC(0), *[Scale(c, self.mono_term(m)) for m, c in p.items()])

    def to_term(self, r):
        n = self.poly_term(r.n)
        for k, e in sorted(r.d.items(), key=lambda x: str(x[0])) if len(r.d) > 1 else r.d.items():
            d = self.poly_term(dict(k))
            for _ in range(e):
                n = mk('div', (n, d), R) if not (isc(n) and cv(n) == 0) else n
        return n

    def is_zero(self, t):
        try:
            return not self.norm(t).n
        except TooBig:
            return False
