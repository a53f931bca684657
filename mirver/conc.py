"""Concrete evaluation of contracts: the replay side.  A contract is evaluated on
concrete inputs with running error bounds and compared with what the compiled
code returns.  Inputs on which rounding could decide a comparison are skipped."""
import itertools, math, re, struct as _struct
from fractions import Fraction
from .terms import *
from .values import *
from .mir import split_top
from . import models, text as tx

U = 2.0 ** -52


class Fuzzy(Exception):
    pass


def tyargs_(ty):
    i = ty.index('<')
    return split_top(ty[i + 1:ty.rindex('>')])


# ---------------------------------------------------------------- binding of symbolic names
class Texts:
    def __init__(self):
        self.names = {}

    def __getitem__(self, name):
        return self.names[name](())


class Env:
    def __init__(self, sym):
        self.sym = sym
        self.names = {}
        self.dates = set()
        self.uf = None
        self.memo = {}
        self.local = {}
        self.bind_ = {}
        self.cache = {}
        self.text = Texts()
        self.enum = {}

    def get(self, m, key):
        """entry of a specified map at a concrete key, by way of a symbolic date key"""
        if m.kt[2] is not None:
            k = (id(m), key)
            if k not in self.cache:
                self.cache[k] = (m, m.get(tuple(IntC(x) for x in key)))
            return self.cache[k][1]
        ent = self.cache.get(id(m))
        if ent is None:
            kv = tuple(Var('$%d_%d' % (len(self.cache), i), I) for i in range(len(key)))
            ent = self.cache[id(m)] = (m, kv, m.get(kv))
        for q, x in zip(ent[1], key):
            self.bind_[q] = x
        self.local = {}
        return ent[2]

    def scalar(self, name, f):
        self.names[name] = f

    def bind(self, ty, name, get):
        sym = self.sym
        ty = sym.resolve(ty)
        if ty.startswith('&'):
            t = ty[1:].strip()
            if t.startswith("'"):
                t = t.split(' ', 1)[1]
            if t.startswith('mut '):
                t = t[4:]
            return self.bind(t, name, get)
        s = short(ty)
        if s in ('str', 'String'):
            self.text.names[name] = get
            return
        if s in ('f64', 'f32', 'bool', 'NDt', 'NaiveDate') or s in INT:
            self.names[name] = get
            return
        if ty.startswith('('):
            for i, x in enumerate(split_top(ty[1:-1])):
                self.bind(x, '%s.%d' % (name, i), lambda ix, i=i: _sel(get(ix), i))
            return
        if s == 'Vec' or ty.startswith('['):
            el = tyargs(ty)[0] if s == 'Vec' else ty[1:-1].split(';')[0]
            self.names[name + '.len'] = lambda ix: len(get(ix) or ())

            def item(ix):
                v = get(ix[:-1])
                return v[ix[-1]] if v is not None and 0 <= ix[-1] < len(v) else None
            self.bind(el, name + '[]', item)
            return
        if s in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
            ta = tyargs(ty)
            n = sym.kt(ta[0])[1]
            self.names[name + '.has'] = lambda ix: ix[len(ix) - n:] in (get(ix[:-n]) or {})
            if len(ta) > 1 and 'Set' not in s:
                self.bind(ta[1], name + '.val', lambda ix: (get(ix[:-n]) or {}).get(ix[len(ix) - n:]))
            return
        if s == 'Option':
            self.names[name + '.some'] = lambda ix: 1 if get(ix) else 0
            self.bind(tyargs(ty)[0], name + '.v', lambda ix: _sel(get(ix), 0))
            return
        if s in sym.types.enums:
            vs = sym.types.enums[s]
            unit = not any(fl for _, fl in vs)
            self.names[name + '.tag'] = (lambda ix: get(ix) or 0) if unit else (lambda ix: _sel(get(ix), 0) or 0)
            for i, (vn, fl) in enumerate(vs):
                for j, (fn, ft) in enumerate(fl):
                    self.bind(ft, '%s.%s.%s' % (name, vn, fn),
                              lambda ix, i=i, j=j: (lambda v: v[1][j] if v and v[0] == i else None)(get(ix)))
            return
        if s in sym.types.structs:
            for i, (fn, ft) in enumerate(sym.types.structs[s]):
                self.bind(ft, '%s.%s' % (name, fn), lambda ix, i=i: _sel(get(ix), i))
            return

    # ------------------------------------------------------------ evaluation
    def ev(self, t):
        op = t.op
        if op == 'c':
            v = t.args[0]
            if t.sort == R:
                f = float(v)
                return (f, 0.0 if Fraction(f) == v else abs(f) * U)
            return v
        if op == 'var':
            return self.bind_[t]
        memo = self.memo if not fv(t) else self.local
        r = memo.get(t)
        if r is None and t not in memo:
            r = self.ev_(t)
            memo[t] = r
        if r is FZ:
            raise Fuzzy()
        return r

    def b3(self, t):
        """three-valued"""
        try:
            return self.ev(t)
        except Fuzzy:
            return None

    def ev_(self, t):
        op, a = t.op, t.args
        try:
            return getattr(self, 'o_' + op)(t, a)
        except (ZeroDivisionError, OverflowError, ValueError):
            return FZ
        except Fuzzy:
            return FZ

    def o_lin(self, t, a):
        if t.sort == I:
            return a[0] + sum(c * self.ev(x) for x, c in a[1])
        xs = [(self.ev(x), c) for x, c in a[1]]
        if all(x[1] == 0.0 for x, _ in xs) and all(Fraction(float(c)) == c for c in [a[0]] + [c for _, c in xs]):
            v = a[0]
            for x, c in xs:
                v = v + Fraction(x[0]) * c
            f = float(v)
            return (f, 0.0 if Fraction(f) == v else abs(f) * U)
        v, e, m = float(a[0]), 0.0, abs(float(a[0]))
        for x, c in xs:
            c = float(c)
            v += c * x[0]
            e += abs(c) * x[1]
            m += abs(c * x[0])
        if not math.isfinite(v):
            raise Fuzzy()
        return (v, e + (len(xs) + 2) * m * U)

    def o_mul(self, t, a):
        if t.sort == I:
            r = 1
            for x in a:
                r *= self.ev(x)
            return r
        v, e = 1.0, 0.0
        for x in a:
            y, ey = self.ev(x)
            e = abs(v) * ey + abs(y) * e + e * ey
            w = v * y
            if e or (w and Fraction(w) != Fraction(v) * Fraction(y)):
                e += abs(w) * U
            v = w
        if not math.isfinite(v):
            raise Fuzzy()
        return (v, e)

    def o_div(self, t, a):
        (x, ex), (y, ey) = self.ev(a[0]), self.ev(a[1])
        if abs(y) <= 4 * ey:
            raise Fuzzy()
        v = x / y
        if not math.isfinite(v):
            raise Fuzzy()
        e = (ex + abs(v) * ey) / (abs(y) - ey)
        if e or (v and Fraction(v) * Fraction(y) != Fraction(x)):
            e += abs(v) * U
        return (v, e)

    def o_idiv(self, t, a):
        x, y = self.ev(a[0]), self.ev(a[1])
        q = abs(x) // abs(y)
        return q if (x < 0) == (y < 0) else -q

    def o_irem(self, t, a):
        x, y = self.ev(a[0]), self.ev(a[1])
        r = abs(x) % abs(y)
        return -r if x < 0 else r

    def o_toreal(self, t, a):
        v = self.ev(a[0])
        return (float(v), 0.0)

    def o_floor(self, t, a):
        v, e = self.ev(a[0])
        f = math.floor(v)
        if e and (v - f <= 8 * e or f + 1 - v <= 8 * e):
            raise Fuzzy()
        return f

    def o_pow(self, t, a):
        (x, ex), (y, ey) = self.ev(a[0]), self.ev(a[1])
        if x <= 4 * ex:
            raise Fuzzy()
        v = math.pow(x, y)
        if not math.isfinite(v) or v == 0:
            raise Fuzzy()
        l = abs(math.log(x))
        return (v, abs(v) * (abs(y) * ex / (x - ex) + l * ey + (2 + abs(y) * l) * U))

    def o_exp(self, t, a):
        x, e = self.ev(a[0])
        v = math.exp(x)
        return (v, v * (e + 2 * U))

    def o_ln(self, t, a):
        x, e = self.ev(a[0])
        if x <= 4 * e:
            raise Fuzzy()
        v = math.log(x)
        return (v, e / (x - e) + 2 * U * abs(v) + 1e-18)

    def o_app(self, t, a):
        n, xs = a[0], [self.ev(x) for x in a[1:]]
        if n == 'uf.f':
            return self.uf(xs[0])
        f = self.names.get(n)
        if f is not None:
            v = f(tuple(xs))
            if t.sort == R:
                v = 0.0 if v is None else v
                if not isinstance(v, float):
                    v = float(v)
                if not math.isfinite(v):
                    raise Fuzzy()
                return (v, 0.0)
            if t.sort == B:
                return bool(v)
            return v if v is not None else 0
        if n.startswith('date.'):
            if n in ('date.ymd', 'date.yo'):
                y = xs[0]
                if not models.YMIN <= y <= models.YMAX:
                    return 0
                if n == 'date.yo':
                    return models._py_days(y, 1, 1) + xs[1] - 1
                return models._py_days(y, xs[1], xs[2]) if 1 <= xs[1] <= 12 else 0
            if n == 'date.jan1':
                return models._py_days(xs[0], 1, 1)
            y, m, d = models._const_date(xs[0])
            return {'date.year': y, 'date.month': m, 'date.day': d}[n] if n != 'date.ordinal' else xs[0] - models._py_days(y, 1, 1) + 1
        if n in LAST:
            ph, kv, c = LAST[n]
            loc, sv = self.local, dict(self.bind_)
            try:
                for v, x in zip(ph, xs[1:]):
                    self.bind_[v] = x
                for j in range(xs[0] - 1, -1, -1):
                    self.bind_[kv] = j
                    self.local = {}
                    if self.ev(c):
                        return j
            finally:
                self.local, self.bind_ = loc, sv
            return 0
        m = re.match(r'(En\d+)\.(N|K(\d+)|ix)$', n)
        if m and m.group(1) + '.N' in models._byN:
            e = models._byN[m.group(1) + '.N']
            lv = len(e.lv)
            ks = self.keys(e, tuple(xs[:lv]))
            if m.group(2) == 'N':
                return len(ks)
            if m.group(2) == 'ix':
                return ks.index(tuple(xs[lv:])) if tuple(xs[lv:]) in ks else 0
            return ks[xs[lv]][int(m.group(3))] if 0 <= xs[lv] < len(ks) else 0
        raise Unsupported('no concrete value for ' + n)

    def keys(self, e, lv):
        """the keys of an enumerated map, in order (keys are dates of the arguments)"""
        r = self.enum.get((e.name, lv))
        if r is None:
            kv = tuple(Var('$%s_%d' % (e.name, i), I) for i in range(e.nc + len(lv)))
            has = e.has(kv[len(lv):], kv[:len(lv)])
            loc, sv, r = self.local, dict(self.bind_), []
            try:
                for key in itertools.product(sorted(self.dates), repeat=e.nc):
                    for q, x in zip(kv, lv + key):
                        self.bind_[q] = x
                    self.local = {}
                    if self.ev(has):
                        r.append(key)
            finally:
                self.local, self.bind_ = loc, sv
            self.enum[(e.name, lv)] = r
        return r

    def o_not(self, t, a):
        return not self.ev(a[0])

    def o_and(self, t, a):
        fz = False
        for x in a:
            v = self.b3(x)
            if v is False:
                return False
            fz = fz or v is None
        if fz:
            raise Fuzzy()
        return True

    def o_or(self, t, a):
        fz = False
        for x in a:
            v = self.b3(x)
            if v is True:
                return True
            fz = fz or v is None
        if fz:
            raise Fuzzy()
        return False

    def o_ite(self, t, a):
        c = self.b3(a[0])
        if c is None:
            x, y = self.ev(a[1]), self.ev(a[2])
            if t.sort == R:
                d = abs(x[0] - y[0])
                if d > 1e-9 * (abs(x[0]) + abs(y[0])):
                    raise Fuzzy()
                return (x[0], d + x[1] + y[1])
            if x != y:
                raise Fuzzy()
            return x
        return self.ev(a[1] if c else a[2])

    def sgn(self, x):
        if x.sort == I:
            return self.ev(x), 0.0
        return self.ev(x)

    def o_lt0(self, t, a):
        v, e = self.sgn(a[0])
        if e and abs(v) <= 64 * e:
            raise Fuzzy()
        return v < 0

    def o_le0(self, t, a):
        v, e = self.sgn(a[0])
        if e and abs(v) <= 64 * e:
            raise Fuzzy()
        return v <= 0

    def o_eq0(self, t, a):
        v, e = self.sgn(a[0])
        if e and abs(v) <= 64 * e:
            raise Fuzzy()
        return v == 0

    def binder(self, t):
        n = self.ev(t.args[0])
        bv, body = t.args[1], t.args[2]
        if n > 200000:
            raise Fuzzy()
        old, loc = self.bind_.get(bv), self.local
        try:
            for k in range(max(n, 0)):
                self.bind_[bv] = k
                self.local = {}
                yield body
        finally:
            self.bind_[bv] = old
            self.local = loc

    def o_sum(self, t, a):
        v = e = m = 0.0
        n = 0
        for b in self.binder(t):
            x, ex = self.ev(b)
            if ex == 0.0 and e == 0.0 and Fraction(v) + Fraction(x) == Fraction(v + x):
                v += x
                continue
            v += x
            e += ex
            m += abs(x)
            n += 1
        if not math.isfinite(v):
            raise Fuzzy()
        return (v, e + n * (m + abs(v)) * U)

    def o_prod(self, t, a):
        v, e = 1.0, 0.0
        for b in self.binder(t):
            x, ex = self.ev(b)
            e = abs(v) * ex + abs(x) * e + abs(v * x) * U
            v *= x
        if not math.isfinite(v):
            raise Fuzzy()
        return (v, e)

    def o_all(self, t, a):
        fz = False
        g = self.binder(t)
        for b in g:
            v = self.b3(b)
            if v is False:
                g.close()
                return False
            fz = fz or v is None
        if fz:
            raise Fuzzy()
        return True

    def o_exq(self, t, a):
        qs, body = a
        fz = False
        dom = sorted(self.dates)
        loc = self.local

        def go(i):
            nonlocal fz
            if i == len(qs):
                self.local = {}
                v = self.b3(body)
                fz = fz or v is None
                return v is True
            for d in dom:
                self.bind_[qs[i]] = d
                if go(i + 1):
                    return True
            return False
        try:
            r = go(0)
        finally:
            self.local = loc
        if r:
            return True
        if fz:
            raise Fuzzy()
        return False


FZ = object()


def _sel(v, i):
    return v[i] if v else None


# ---------------------------------------------------------------- JSON
def to_json(sym, ty, v):
    ty = strip_ref(sym, ty)
    s = short(ty)
    if s in ('f64', 'f32'):
        return _struct.unpack('<Q', _struct.pack('<d', float(v)))[0]
    if s in ('bool', 'NDt', 'NaiveDate', 'str', 'String') or s in INT:
        return v
    if ty == '()':
        return None
    if ty.startswith('('):
        return [to_json(sym, x, y) for x, y in zip(split_top(ty[1:-1]), v)]
    if s == 'Vec' or ty.startswith('['):
        el = tyargs(ty)[0]
        return [to_json(sym, el, x) for x in v]
    if s in ('HashMap', 'BTreeMap'):
        k, e = tyargs(ty)[:2]
        kt = sym.kt(k)
        return [[keyjson(sym, k, kk), to_json(sym, e, x)] for kk, x in v.items()]
    if s in ('HashSet', 'BTreeSet'):
        k = tyargs(ty)[0]
        return [keyjson(sym, k, kk) for kk in v]
    if s == 'Option':
        return [to_json(sym, tyargs(ty)[0], v[0])] if v else []
    if s in sym.types.enums:
        vs = sym.types.enums[s]
        if not any(fl for _, fl in vs):
            return vs[v][0]
        vn, fl = vs[v[0]]
        return {vn: [to_json(sym, ft, x) for (_, ft), x in zip(fl, v[1])]}
    if s in sym.types.structs:
        return {fn: to_json(sym, ft, x) for (fn, ft), x in zip(sym.types.structs[s], v)}
    raise Unsupported('json of ' + ty)


def strip_ref(sym, ty):
    ty = sym.resolve(ty)
    while ty.startswith('&'):
        ty = ty[1:].strip()
        if ty.startswith("'"):
            ty = ty.split(' ', 1)[1]
        if ty.startswith('mut '):
            ty = ty[4:]
        ty = sym.resolve(ty)
    return ty


def keyjson(sym, ty, key):
    kt = sym.kt(ty)
    ty = sym.resolve(ty)
    if ty.startswith('('):
        out, i = [], 0
        for x in split_top(ty[1:-1]):
            n = sym.kt(x)[1]
            out.append(keyjson(sym, x, key[i:i + n]))
            i += n
        return out
    if kt[2] is not None:
        return sym.types.enums[kt[0]][key[0]][0]
    return key[0]


def keyfrom(sym, ty, j):
    kt = sym.kt(ty)
    ty = sym.resolve(ty)
    if ty.startswith('('):
        out = ()
        for x, y in zip(split_top(ty[1:-1]), j):
            out += keyfrom(sym, x, y)
        return out
    if kt[2] is not None:
        return ([n for n, _ in sym.types.enums[kt[0]]].index(j),)
    return (j,)


def from_json(sym, ty, j):
    ty = strip_ref(sym, ty)
    s = short(ty)
    if s in ('f64', 'f32'):
        return _struct.unpack('<d', _struct.pack('<Q', j))[0]
    if s in ('bool', 'NDt', 'NaiveDate', 'str', 'String') or s in INT:
        return j
    if ty == '()':
        return ()
    if ty.startswith('('):
        return tuple(from_json(sym, x, y) for x, y in zip(split_top(ty[1:-1]), j))
    if s == 'Vec' or ty.startswith('['):
        return [from_json(sym, tyargs(ty)[0], x) for x in j]
    if s in ('HashMap', 'BTreeMap'):
        k, e = tyargs(ty)[:2]
        return {keyfrom(sym, k, a): from_json(sym, e, b) for a, b in j}
    if s in ('HashSet', 'BTreeSet'):
        return {keyfrom(sym, tyargs(ty)[0], a): () for a in j}
    if s == 'Option':
        return (from_json(sym, tyargs(ty)[0], j[0]),) if j else ()
    if s in sym.types.enums:
        vs = sym.types.enums[s]
        if isinstance(j, str):
            return [n for n, _ in vs].index(j)
        (vn, xs), = j.items()
        i = [n for n, _ in vs].index(vn)
        return (i, tuple(from_json(sym, ft, x) for (_, ft), x in zip(vs[i][1], xs)))
    if s in sym.types.structs:
        return tuple(from_json(sym, ft, j[fn]) for fn, ft in sym.types.structs[s])
    raise Unsupported('json of ' + ty)


def alldates(sym, ty, v, out):
    """dates occurring in a value"""
    ty = strip_ref(sym, ty)
    s = short(ty)
    if s in ('NDt', 'NaiveDate'):
        out.add(v)
    elif ty.startswith('('):
        for x, y in zip(split_top(ty[1:-1]), v or ()):
            alldates(sym, x, y, out)
    elif s == 'Vec':
        for x in v:
            alldates(sym, tyargs(ty)[0], x, out)
    elif s in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        k = tyargs(ty)[0]
        if 'Date' in sym.kt(k)[0]:
            for kk in v:
                out.update(kk)
    elif s == 'Option':
        if v:
            alldates(sym, tyargs(ty)[0], v[0], out)
    elif s in sym.types.structs:
        for (fn, ft), x in zip(sym.types.structs[s], v):
            alldates(sym, ft, x, out)


def const(sym, ty, v):
    """symbolic value denoting a concrete one"""
    ty = strip_ref(sym, ty)
    s = short(ty)
    if s in ('f64', 'f32'):
        if not math.isfinite(v):
            raise Fuzzy()
        return RealC(Fraction(v))
    if s == 'bool':
        return BoolC(v)
    if s in ('NDt', 'NaiveDate') or s in INT:
        return IntC(v)
    if ty == '()':
        return UNIT
    if ty.startswith('('):
        return VAgg('tuple', [const(sym, x, y) for x, y in zip(split_top(ty[1:-1]), v)])
    if s == 'Vec':
        xs = [const(sym, tyargs(ty)[0], x) for x in v]

        def at(j):
            if isc(j):
                return xs[cv(j)] if 0 <= cv(j) < len(xs) else xs[-1]
            r = xs[-1]
            for i in range(len(xs) - 2, -1, -1):
                r = mergev(Eq(j, IntC(i)), xs[i], r)
            return r
        return VSeq(IntC(len(xs)), at)
    if s in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        ta = tyargs(ty)
        kt = sym.kt(ta[0])
        m = MEmpty(kt)
        for k, x in v.items():
            m = MPut(m, tuple(IntC(i) for i in k), TRUE, const(sym, ta[1], x) if 'Set' not in s else UNIT)
        return m
    if s == 'Option':
        return VEnum('Option', IntC(1), {1: (const(sym, tyargs(ty)[0], v[0]),)}) if v else models.NONE
    if s in sym.types.enums:
        vs = sym.types.enums[s]
        if not any(fl for _, fl in vs):
            return VEnum(s, IntC(v), {})
        return VEnum(s, IntC(v[0]), {v[0]: tuple(const(sym, ft, x) for (_, ft), x in zip(vs[v[0]][1], v[1]))})
    if s in sym.types.structs:
        return VAgg(s, [const(sym, ft, x) for (_, ft), x in zip(sym.types.structs[s], v)])
    raise Unsupported('constant of ' + ty)


# ---------------------------------------------------------------- comparison
def differs(sym, env, ty, act, exp, path='result'):
    """first difference between the actual concrete value and the specified one, or None"""
    exp = deref(exp)
    ty = strip_ref(sym, ty)
    s = short(ty) if not ty.startswith('(') else 'tuple'
    if isinstance(exp, VOpaque):
        return None
    if isinstance(exp, VText):
        return tx.difference(sym, env, act, exp, path, Fuzzy)
    if isinstance(exp, T):
        try:
            e = env.ev(exp)
        except Fuzzy:
            return None
        if s in ('f64', 'f32') or exp.sort == R:
            if exp.sort != R:
                e = (float(e), 0.0)
            v, er = e
            if not 1e3 * er < max(abs(v), 1.0):
                return None
            if not math.isfinite(act) or abs(act - v) > 1e3 * er + 1e-9 * abs(v) + 1e-12:
                return '%s is %r, specified %r' % (path, act, v)
            return None
        if act != e:
            return '%s is %r, specified %r' % (path, act, e)
        return None
    if s in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        ta = tyargs(ty)
        kt = sym.kt(ta[0])
        keys = set(act)
        if kt[2] is not None:
            keys |= {(i,) for i in range(kt[2])}
        elif kt[1] == 1:
            keys |= {(d,) for d in env.dates}
        else:
            keys |= {(a, b) for a in env.dates for b in env.dates}
        for k in sorted(keys):
            p, v = env.get(exp, k)
            try:
                e = env.ev(p)
            except Fuzzy:
                continue
            kn = '%s[%s]' % (path, keyjson(sym, ta[0], k))
            if e != (k in act):
                return '%s is %s, specified %s' % (kn, 'present' if k in act else 'absent', 'present' if e else 'absent')
            if e and 'Set' not in s:
                d = differs(sym, env, ta[1], act[k], v, kn)
                if d:
                    return d
        return None
    if ty.startswith('('):
        for i, (x, y, z) in enumerate(zip(split_top(ty[1:-1]) if ty != '()' else (), act, exp.f)):
            d = differs(sym, env, x, y, z, '%s.%d' % (path, i))
            if d:
                return d
        return None
    if s == 'Vec' or ty.startswith('['):
        try:
            n = env.ev(exp.n)
        except Fuzzy:
            return None
        if n != len(act):
            return '%s has length %d, specified %d' % (path, len(act), n)
        for j in range(n):
            d = differs(sym, env, tyargs(ty)[0], act[j], exp.at(IntC(j)), '%s[%d]' % (path, j))
            if d:
                return d
        return None
    if s == 'Option' or s in sym.types.enums:
        try:
            e = env.ev(exp.d)
        except Fuzzy:
            return None
        if s == 'Option':
            k, pay = (1 if act else 0), act
            tys = [tyargs(ty)[0]]
        else:
            vs = sym.types.enums[s]
            unit = not any(fl for _, fl in vs)
            k = act if unit else act[0]
            pay = () if unit else act[1]
            tys = [ft for _, ft in vs[k][1]]
        if k != e:
            nm = ('None', 'Some') if s == 'Option' else [n for n, _ in sym.types.enums[s]]
            return '%s is %s, specified %s' % (path, nm[k], nm[e])
        if pay and k in exp.p:
            for i, (x, y, z) in enumerate(zip(tys, pay, exp.p[k])):
                d = differs(sym, env, x, y, z, '%s.%d' % (path, i))
                if d:
                    return d
        return None
    if s in sym.types.structs:
        for (fn, ft), y, z in zip(sym.types.structs[s], act, exp.f):
            d = differs(sym, env, ft, y, z, '%s.%s' % (path, fn))
            if d:
                return d
        return None
    raise Unsupported('comparison of ' + ty)
