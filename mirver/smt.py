"""Back end: discharge obligations with the normaliser and Z3 (cvc5 as a
cross-check on the emitted SMT-LIB)."""
from itertools import permutations
import time, os
from fractions import Fraction
import z3
from .terms import *
from . import terms as tm
from .norm import Norm, TooBig

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'norm': 0, 'z3': 0, 'syntactic': 0, 'split': 0}
AXIOM_HOOKS = []      # term -> list of formulas (trusted facts about library functions)
_SORT = None


def zs(s):
    return {B: z3.BoolSort(), I: z3.IntSort(), R: z3.RealSort()}[s]


class Tr:
    """raw translation of terms to z3"""

    memo = {}              # term -> z3 term, shared by all problems
    tops = {}              # term -> opaque terms below it

    def __init__(self):
        self.apps = {}         # ground opaque terms of this problem (for axioms)

    def t(self, t, bound=frozenset()):
        """z3 term of an assertion; its opaque terms join the problem"""
        r = self.c(t, bound)
        self.apps.update(self.opaque(t))
        return r

    def c(self, t, bound):
        r = Tr.memo.get(t)
        if r is None:
            r = Tr.memo[t] = self._t(t, bound)
        return r

    def opaque(self, t):
        r = Tr.tops.get(t)
        if r is None:
            r = {}
            if t.op not in ('sum', 'prod'):
                for x in kids(t):
                    r.update(self.opaque(x))
            if t.op in ('pow', 'exp', 'ln', 'app', 'sum', 'prod'):
                r[t] = None
            Tr.tops[t] = r
        return r

    def _t(self, t, bound):
        op, a = t.op, t.args
        if op == 'var':
            return z3.Const(a[0], zs(t.sort))
        if op == 'c':
            if t.sort == B:
                return z3.BoolVal(a[0])
            if t.sort == I:
                return z3.IntVal(a[0])
            return z3.RealVal('%d/%d' % (a[0].numerator, a[0].denominator))
        if op == 'lin':
            s = None
            for x, c in a[1]:
                e = self.c(x, bound)
                e = e if c == 1 else (self._num(c, t.sort) * e)
                s = e if s is None else s + e
            if a[0] != 0:
                s = s + self._num(a[0], t.sort)
            return s
        if op == 'mul':
            s = self.c(a[0], bound)
            for x in a[1:]:
                s = s * self.c(x, bound)
            return s
        if op == 'div':
            return self.c(a[0], bound) / self.c(a[1], bound)
        if op == 'idiv':
            x, y = self.c(a[0], bound), self.c(a[1], bound)
            return z3.If(x >= 0, x / y, -((-x) / y))
        if op == 'irem':
            x, y = self.c(a[0], bound), self.c(a[1], bound)
            return z3.If(x >= 0, x % y, -((-x) % y))
        if op == 'toreal':
            return z3.ToReal(self.c(a[0], bound))
        if op == 'floor':
            return z3.ToInt(self.c(a[0], bound))
        if op in ('pow', 'exp', 'ln'):
            f = z3.Function('f_' + op, *([z3.RealSort()] * (len(a) + 1)))
            return f(*[self.c(x, bound) for x in a])
        if op == 'app':
            if len(a) == 1:
                return z3.Const(a[0], zs(t.sort))
            f = z3.Function(a[0], *([zs(x.sort) for x in a[1:]] + [zs(t.sort)]))
            return f(*[self.c(x, bound) for x in a[1:]])
        if op == 'not':
            return z3.Not(self.c(a[0], bound))
        if op == 'and':
            return z3.And(*[self.c(x, bound) for x in a])
        if op == 'or':
            return z3.Or(*[self.c(x, bound) for x in a])
        if op == 'ite':
            return z3.If(*[self.c(x, bound) for x in a])
        if op in ('le0', 'lt0', 'eq0'):
            x = self.c(a[0], bound)
            return {'le0': x <= 0, 'lt0': x < 0, 'eq0': x == 0}[op]
        if op in ('sum', 'prod'):
            # opaque: function of the bound variables it mentions
            fvs = sorted((v for v in fv(t) if v.args[0].startswith('#')), key=lambda v: v.args[0])
            if not fvs:
                return z3.Const('%s_%d' % (op, t.id), z3.RealSort())
            f = z3.Function('%s_%d' % (op, t.id), *([zs(v.sort) for v in fvs] + [z3.RealSort()]))
            return f(*[self.c(v, bound) for v in fvs])
        if op == 'all':
            n, v, body = a
            k = z3.Const(v.args[0], z3.IntSort())
            return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.c(n, bound)), self.c(body, bound | {v})))
        if op == 'exq':
            vs = [z3.Const(v.args[0], zs(v.sort)) for v in a[0]]
            return z3.Exists(vs, self.c(a[1], bound | set(a[0])))
        raise Exception('smt: ' + op)

    def _num(self, c, sort):
        if sort == I:
            return z3.IntVal(int(c))
        c = Fraction(c)
        return z3.RealVal('%d/%d' % (c.numerator, c.denominator))


def hasbound(t):
    return any(v.args[0].startswith('#') for v in fv(t))


def axioms(t):
    out = []
    z, one = RealC(0), RealC(1)
    if t.op == 'pow':
        b, e = t.args
        out += [Implies(Lt(z, b), Lt(z, t)),
                Implies(And(Lt(one, b), Lt(z, e)), Lt(one, t)),
                Implies(And(Lt(one, b), Lt(e, z)), Lt(t, one)),
                Implies(And(Lt(z, b), Lt(b, one), Lt(z, e)), Lt(t, one)),
                Implies(And(Lt(z, b), Lt(b, one), Lt(e, z)), Lt(one, t)),
                Implies(Eq(e, z), Eq(t, one)),
                Implies(And(Eq(b, one)), Eq(t, one))]
    elif t.op == 'exp':
        x = t.args[0]
        out += [Lt(z, t), Implies(Lt(z, x), Lt(one, t)), Implies(Lt(x, z), Lt(t, one)), Implies(Eq(x, z), Eq(t, one))]
    elif t.op == 'ln':
        x = t.args[0]
        out += [Implies(Lt(one, x), Lt(z, t)), Implies(And(Lt(z, x), Lt(x, one)), Lt(t, z)), Implies(Eq(x, one), Eq(t, z))]
    elif t.op in ('sum', 'prod'):
        n = t.args[0]
        out += [Implies(Le(n, IntC(0)), Eq(t, z if t.op == 'sum' else one))]
    for h in AXIOM_HOOKS:
        out += h(t)
    return out


_cache = {}


class Ctx:
    def __init__(self, assume, parent=None, axdepth=2):
        fl = []
        for f in assume:
            if f.op == 'and':
                fl.extend(f.args)
            else:
                fl.append(f)
        self.assume = tuple(sorted(set(fl), key=lambda t: t.id))
        self.aset = set(self.assume)
        self._norm = None
        self._light = None

    def extend(self, fs):
        return Ctx(self.assume + tuple(fs))

    @property
    def N(self):
        if self._norm is None:
            self._norm = Norm(self)
        return self._norm

    # -------------------------------------------------------- raw validity
    def valid(self, goal, timeout=1500):
        if goal is TRUE:
            return True
        if goal in self.aset or FALSE in self.aset:
            return True
        if goal.op == 'and':
            return all(self.valid(g, timeout) for g in goal.args)
        if goal is FALSE and not self.assume:
            return False
        key = (self.assume, goal)
        r = _cache.get(key)
        if r is None:
            r = self._z3(goal, timeout)[0] == 'unsat'
            _cache[key] = r
        return r

    def lightvalid(self, goal):
        """validity from the ground integer assumptions only"""
        if goal is TRUE or goal in self.aset:
            return True
        key = ('light', self.assume, goal)
        r = _cache.get(key)
        if r is None:
            if self._light is None:
                self._light = tuple(f for f in self.assume if _intground(f))
            r = self._z3(goal, 300, assume=self._light)[0] == 'unsat'
            _cache[key] = r
        return r

    def relevant(self, goal):
        """assumptions sharing (transitively) a free variable/function with the goal"""
        return self.assume

    def _z3(self, goal, timeout, model=False, assume=None, smt2=None, bare=False):
        tr = Tr()
        s = z3.Solver()
        s.set('timeout', int(timeout))
        fs = list(self.assume if assume is None else assume) + [Not(goal)]
        for f in fs:
            s.add(tr.t(f))
        done = set()
        for _ in range(0 if bare else 3):
            todo = [a for a in tr.apps if a not in done]
            if not todo:
                break
            for a in todo:
                done.add(a)
                if hasbound(a):
                    continue
                for ax in axioms(a):
                    s.add(tr.t(ax))
        t0 = time.time()
        r = str(s.check())
        STATS['z3_calls'] += 1
        STATS['z3_time'] += time.time() - t0
        if smt2 is not None:
            smt2.append(s.to_smt2())
        return r, (s.model() if r == 'sat' and model else None), tr

    # -------------------------------------------------------- signs
    def sign(self, t):
        key = ('sign', self.assume, t)
        if key in _cache:
            return _cache[key]
        r = self._sign(t)
        _cache[key] = r
        return r

    def _sign(self, t):
        op, a = t.op, t.args
        if op == 'c':
            return 1 if a[0] > 0 else (-1 if a[0] < 0 else 0)
        if op == 'exp':
            return 1
        if op == 'pow' and self.sign(a[0]) == 1:
            return 1
        if op in ('mul', 'div'):
            s = 1
            for x in a:
                y = self.sign(x)
                if y is None:
                    s = None
                    break
                s *= y
            if s is not None:
                return s
        if op == 'lin':
            ss = set()
            if a[0] != 0:
                ss.add(1 if a[0] > 0 else -1)
            for x, c in a[1]:
                if len(ss) > 1:
                    break
                y = self._quick(x)
                ss.add(None if y is None else (y if c > 0 else -y))
            if len(ss) == 1 and None not in ss and 0 not in ss:
                return ss.pop()
        z = RealC(0) if t.sort == R else IntC(0)
        if Lt(z, t) in self.aset:
            return 1
        if Lt(t, z) in self.aset:
            return -1
        if not self._connected(t):
            return None
        if self._ask(Lt(z, t)):
            return 1
        if self._ask(Lt(t, z)):
            return -1
        if self._ask(Eq(t, z)):
            return 0
        return None

    def _ask(self, g):
        """a sign question: the solver gets less and less time as such questions go unanswered"""
        n = ASKED[0]
        t0 = time.time()
        r = self.valid(g, 400 if n < 2 else 150 if n < 5 else 40)
        if not r:
            ASKED[0] += time.time() - t0
        return r

    def _quick(self, x):
        if x.op in ('exp',):
            return 1
        if x.op == 'pow':
            return 1 if self.sign(x.args[0]) == 1 else None
        z = RealC(0) if x.sort == R else IntC(0)
        if Lt(z, x) in self.aset:
            return 1
        if Lt(x, z) in self.aset:
            return -1
        return None

    def _connected(self, t):
        """can the assumptions say anything at all about t?"""
        if any(x.op in ('exp', 'pow', 'ite', 'floor') for x in walk(t)):
            return True
        syms = _syms(t)
        return any(_syms(f) & syms for f in self.assume)

    def nonzero(self, t):
        s = self.sign(t)
        if s is not None:
            return s != 0
        z = RealC(0) if t.sort == R else IntC(0)
        g = Not(Eq(t, z))
        if g in self.aset:
            return True
        if t.op in ('mul', 'div'):
            if all(self.nonzero(x) for x in t.args):
                return True
        if not self._connected(t):
            return False
        return self._ask(g)


_ig = {}


def _intground(f):
    r = _ig.get(f)
    if r is None:
        r = all(x.op not in ('all', 'exq', 'sum', 'prod') and x.sort != R for x in walk(f))
        _ig[f] = r
    return r


_symcache = {}


def _syms(t):
    r = _symcache.get(t)
    if r is None:
        r = frozenset(x.args[0] for x in walk(t) if x.op in ('var', 'app'))
        _symcache[t] = r
    return r


# ---------------------------------------------------------------- proving
class Result:
    def __init__(self, ok, how, detail='', model=None, time=0.0):
        self.ok, self.how, self.detail, self.model, self.time = ok, how, detail, model, time


def simp_under(f, facts):
    """replace facts (formulas known true) by TRUE inside f"""
    m = {}
    for a in facts:
        if a.op in ('c',):
            continue
        m[a] = TRUE
        n = Not(a)
        m[n] = FALSE
        if a.op == 'not':
            m[a.args[0]] = FALSE
    return subst(f, m) if m else f


ASKED = [0.0]     # seconds spent on sign questions without an answer in the current goal


def _ite_conds(t, out, seen, bound):
    if t in seen:
        return
    seen.add(t)
    if t.op in ('sum', 'prod', 'all', 'exq'):
        # conditions not mentioning the bound variable
        for k in kids(t):
            _ite_conds(k, out, seen, True)
        return
    if t.op == 'ite':
        c = t.args[0]
        for a in _atoms(c):
            if not hasbound(a) and a not in out:
                out.append(a)
    for k in kids(t):
        _ite_conds(k, out, seen, bound)


def _atoms(f):
    if f.op in ('and', 'or', 'not'):
        r = []
        for x in f.args:
            for y in _atoms(x):
                if y not in r:
                    r.append(y)
        return r
    if f.op == 'ite' and f.sort == B:
        r = []
        for x in f.args:
            for y in _atoms(x):
                if y not in r:
                    r.append(y)
        return r
    return [f] if f.op != 'c' else []


def _topfact(g):
    """the ground presence fact nearest to the root among those used as (parts of) conditions"""
    level, seen = [g.args[0]], set()
    for _ in range(6):
        nxt = []
        for t in level:
            if t in seen or hasbound(t) and t.op in ('all', 'exq', 'sum', 'prod'):
                continue
            seen.add(t)
            if t.op == 'app' and t.sort == B and not hasbound(t):
                return t
            nxt += kids(t)
        level = nxt
    return None


INSTANCES = []        # hooks: (all-term, skolem tuple) -> list of facts


def enum_instances(assume, sk):
    """facts over enumerated map keys, at the given keys"""
    out = []
    for a in assume:
        if a.op == 'all':
            for h in INSTANCES:
                out += h(a, sk)
    return out


def at_keys(assume, goal):
    """universal assumptions, at the key the goal speaks about"""
    sk = tuple(sorted((v for v in fv(goal) if str(v.args[0]).startswith('key!') and v.sort == I), key=lambda v: v.id))
    if not 1 <= len(sk) <= 3:
        return []
    out = enum_instances(assume, sk)
    for a in assume:
        if a.op == 'not' and not hasbound(a):
            for e in (a.args[0].args if a.args[0].op == 'or' else (a.args[0],)):
                if e.op == 'exq' and len(e.args[0]) <= len(sk) and all(v.sort == I for v in e.args[0]):
                    for p in permutations(sk, len(e.args[0])):
                        out.append(Not(subst(e.args[1], dict(zip(e.args[0], p)))))
    return out


def saturated(assume, goal):
    """the assumptions and the negated goal without index quantifiers: existential indices opened, universal
    statements instantiated at those indices and at the ones next to them (weaker, so sufficient)"""
    sk, keys, n_all = [], [], [0]
    quant = lambda t: any(x.op in ('all', 'exq') for x in walk(t))

    def opened(t):
        if not quant(t):
            return t
        if t.op in ('and', 'or'):
            return (And if t.op == 'and' else Or)(*[opened(x) for x in t.args])
        if t.op == 'not':
            u = t.args[0]
            if u.op in ('and', 'or'):
                return (Or if u.op == 'and' else And)(*[opened(Not(x)) for x in u.args])
            if u.op == 'all' and u.args[0].sort == I:
                n, k, b = open_binder(u)
                sk.append(k)
                return And(Le(IntC(0), k), Lt(k, n), opened(Not(b)))
            if u.op == 'exq':
                n_all[0] += 1
        if t.op == 'exq' and not hasbound(t):
            vs = tuple(fresh('sk', v.sort) for v in t.args[0])
            if all(v.sort == I for v in vs):
                keys.append(vs)
            return opened(subst(t.args[1], dict(zip(t.args[0], vs))))
        if t.op == 'all' and t.args[0].sort == I:
            n_all[0] += 1
        return t

    def inst(t):
        if not quant(t):
            return t
        if t.op in ('and', 'or'):
            return (And if t.op == 'and' else Or)(*[inst(x) for x in t.args])
        if t.op == 'all' and t.args[0].sort == I:
            fs = [Implies(And(Le(IntC(0), x), Lt(x, t.args[0])), subst(t.args[2], {t.args[1]: x})) for x in at]
            return And(*[f for f in fs if not quant(f)])
        if t.op == 'not' and t.args[0].op == 'exq' and not hasbound(t):
            e = t.args[0]
            fs = [Not(subst(e.args[1], dict(zip(e.args[0], q)))) for q in keys if len(q) == len(e.args[0])]
            return And(*[f for f in fs if not quant(f)])
        return TRUE
    fs = [opened(t) for t in list(assume) + [Not(goal)]]
    if not n_all[0] or len(sk) + len(keys) > 6 or not (sk or keys or ENUMKEYS):
        return None
    at = list(sk)
    facts, ground = [], []
    for h in ENUMKEYS:
        ix, fc, gr = h(fs, keys)
        at += ix
        facts += fc
        ground += gr
    if not (sk or keys or ground):
        return None
    keys += ground
    at = list(dict.fromkeys(x for j in at for x in (j, Add(j, IntC(1)), Add(j, IntC(-1)))))
    return facts + [f for f in map(inst, fs) if f is not TRUE]


def end_instances(assume):
    """universal index statements at the first and the last index"""
    out = []
    for a in assume:
        if a.op == 'all' and a.args[0].sort == I and not hasbound(a):
            n, k, b = open_binder(a)
            for x in (IntC(0), Sub(n, IntC(1))):
                f = Implies(Lt(IntC(0), n), subst(b, {k: x}))
                if f is not TRUE and f not in assume:
                    out.append(f)
    return list(dict.fromkeys(out)) if len(out) <= 12 else []


ENUMKEYS = []         # hooks: (formulas, key tuples) -> (their indices, facts, further ground key tuples)


LIMITS = {'z3_ms': 8000, 'depth': 14, 'deadline': 60.0}


def _termwise(g):
    """a vanishing combination of sums over the same range, term by term (sufficient)"""
    if g.op != 'eq0' or g.args[0].op != 'lin' or g.args[0].sort != R or g.args[0].args[0] != 0:
        return None
    grp = {}
    for x, q in g.args[0].args[1]:
        if x.op != 'sum':
            return None
        n, k, body = open_binder(x)
        grp.setdefault(n, []).append((k, Scale(q, body)))
    if all(len(b) < 2 for b in grp.values()):
        return None
    out = []
    for n, bs in grp.items():
        j = fresh('tw', I)
        out.append(All(n, j, Eq(Add(*[subst(b, {k: j}) for k, b in bs]), RealC(0))))
    return And(*out)


def prove(assume, goal, limits=None):
    L = dict(LIMITS)
    if limits:
        L.update(limits)
    t0 = time.time()
    L['t0'] = t0
    ASKED[0] = 0.0
    assume, goal = onelength(list(assume), goal)
    m = {}
    for x in walk(goal):
        if x.op in ('sum', 'prod') and not hasbound(x):
            n, k, b = open_binder(x)
            b2 = forward(n, k, b)
            if b2 is not b:
                m[x] = (Sum if x.op == 'sum' else Prod)(n, k, b2)
    if m:
        assume, goal = [subst(a, m) for a in assume], subst(goal, m)
    r = _prove(assume, goal, 0, L)
    if not r.ok and time.time() - t0 < L['deadline'] / 2:
        m = samesums(assume, goal)
        if m:
            L['t0'] = time.time()
            r2 = _prove([subst(a, m) for a in assume], subst(goal, m), 0, L)
            if r2.ok:
                r = r2
    r.time = time.time() - t0
    return r


def samesums(assume, goal):
    """sums over the same range that agree term by term, written the same way"""
    ss = [x for x in set(walk(goal)) if x.op in ('sum', 'prod') and not hasbound(x)]
    ss = sorted(ss, key=lambda t: t.id)
    m = {}
    if not 2 <= len(ss) <= 12:
        return m
    L = dict(LIMITS)
    L.update({'deadline': 4.0, 'z3_ms': 1500})
    for i, y in enumerate(ss):
        for x in ss[:i]:
            if x in m or x.op != y.op or x.sort != y.sort:
                continue
            (n, k, b), (n2, k2, b2) = open_binder(x), open_binder(y)
            if n is not n2:
                continue
            j = fresh('tw', I)
            L['t0'] = time.time()
            if _prove(list(assume), All(n, j, Eq(subst(b, {k: j}), subst(b2, {k2: j}))), 0, L).ok:
                m[y] = x
                break
    return m


def samebounds(ctx, goal):
    """sums over ranges of the same length are written over the same range"""
    ss = sorted((x for x in set(walk(goal)) if x.op in ('sum', 'prod') and not hasbound(x)), key=lambda t: t.id)
    ns = list(dict.fromkeys(x.args[0] for x in ss))
    if not 2 <= len(ns) <= 4:
        return goal
    m = {}
    for i, b in enumerate(ns):
        a = next((a for a in ns[:i] if a not in m and ctx.valid(Eq(a, b))), None)
        if a is not None:
            m[b] = a
    r = {}
    for x in ss:
        n, k, b = open_binder(x)
        if n in m:
            r[x] = (Sum if x.op == 'sum' else Prod)(m[n], k, b)
    return subst(goal, r) if r else goal


def onelength(assume, goal):
    """equal lengths of inputs are written the same way"""
    m = {}
    for a in assume:
        for e in (a.args if a.op == 'and' else (a,)):
            if e.op == 'eq0' and e.args[0].op == 'lin' and e.args[0].sort == I and len(e.args[0].args[1]) == 2:
                k, ((x, p), (y, q)) = e.args[0].args
                if k == 0 and p + q == 0 and all(v.op == 'app' and v.args[0].endswith('.len') and len(v.args) == 1 for v in (x, y)):
                    x, y = m.get(x, x), m.get(y, y)
                    if x.id < y.id:
                        x, y = y, x
                    if x is not y:
                        m = {b: y if c is x else c for b, c in m.items()}
                        m[x] = y
    if not m:
        return assume, goal
    return [subst(a, m) for a in assume] + [Eq(x, y) for x, y in m.items()], subst(goal, m)


def _tagatom(c):
    return c.op == 'eq0' and any(x.op == 'app' and str(x.args[0]).endswith('.tag') for x in walk(c)) \
        and not any(x.op in ('sum', 'prod', 'ite') for x in walk(c))


def _split(assume, goal, c, depth, L):
    STATS['split'] += 1
    for lit in (c, Not(c)):
        a2 = [simp_under(x, [lit]) for x in assume] + [lit]
        if FALSE in a2:
            continue
        r = _prove(a2, simp_under(goal, [lit]), depth, L)
        if not r.ok:
            return r
    return Result(True, 'split')


def _prove(assume, goal, depth, L):
    if goal is TRUE:
        STATS['syntactic'] += 1
        return Result(True, 'syntactic')
    if time.time() - L['t0'] > L['deadline']:
        return Result(False, 'timeout', 'deadline reached')
    flat = []
    for f in assume:
        if f.op == 'and':
            flat.extend(f.args)
        else:
            flat.append(f)
    assume = flat
    if FALSE in assume:
        return Result(True, 'syntactic')
    g2 = simp_under(goal, [a for a in assume])
    if g2 is TRUE:
        STATS['syntactic'] += 1
        return Result(True, 'syntactic')
    goal = g2
    if goal.op == 'and':
        for g in goal.args:
            r = _prove(assume, g, depth, L)
            if not r.ok:
                return r
        return Result(True, 'conj')
    if goal.op == 'or':
        # assume the negation of all but the last (largest) disjunct
        ds = sorted(goal.args, key=lambda x: (2 if x.op == 'ite' else x.op == 'eq0', x.id))
        return _prove(assume + [Not(x) for x in ds[:-1]], ds[-1], depth, L)
    if goal.op == 'all':
        n, k, body = open_binder(goal)
        here = [Le(IntC(0), k), Lt(k, n)]
        alls = [a for a in assume if a.op == 'all' and a.args[0].sort == I]
        inst = [simp_under(Implies(Lt(k, a.args[0]), subst(a.args[2], {a.args[1]: k})), here) for a in alls]
        for d in (-1, 1):      # recurrences are stated one step off
            kd = Add(k, IntC(d))
            for a in alls:
                sh = subst(a.args[2], {a.args[1]: kd})
                if len(alls) <= 6:
                    inst.append(simp_under(Implies(And(Le(IntC(0), kd), Lt(kd, a.args[0])), sh), here))
        if len(inst) > 40:
            inst = []
        return _prove(assume + [Le(IntC(0), k), Lt(k, n)] + inst, body, depth, L)
    if goal.op == 'ite' and goal.sort == B and L.get('tops', 0) < 4:
        # split on the outermost plain facts first: both sides simplify together
        a = _topfact(goal)
        if a is not None:
            for lit in (a, Not(a)):
                a2 = [simp_under(x, [lit]) for x in assume] + [lit]
                if FALSE in a2:
                    continue
                r = _prove(a2, simp_under(goal, [lit]), depth, dict(L, tops=L.get('tops', 0) + 1))
                if not r.ok:
                    return r
            return Result(True, 'split')
    if goal.op == 'ite' and goal.sort == B:
        c, a, b = goal.args
        r = _prove(assume + [c], a, depth, L)
        if not r.ok:
            return r
        return _prove(assume + [Not(c)], b, depth, L)
    if goal.op == 'not' and goal.args[0].op == 'or' and any(x.op == 'exq' for x in goal.args[0].args):
        return _prove(assume, And(*[Not(x) for x in goal.args[0].args]), depth, L)
    if goal.op == 'not' and goal.args[0].op == 'exq' and not hasbound(goal):
        e = goal.args[0]
        sk = tuple(fresh('sk', v.sort) for v in e.args[0])
        body = subst(e.args[1], dict(zip(e.args[0], sk)))
        return _prove(assume + [body] + enum_instances(assume, sk), FALSE, depth, L)
    if depth < L['depth'] and any(a.op == 'exq' for a in assume):
        # open existential assumptions
        out = []
        for a in assume:
            if a.op == 'exq' and not hasbound(a):
                sk = tuple(fresh('sk', v.sort) for v in a.args[0])
                out.append(subst(a.args[1], dict(zip(a.args[0], sk))))
                out += enum_instances(assume, sk)
            else:
                out.append(a)
        return _prove(out, goal, depth + 1, L)
    conds = []
    _ite_conds(goal, conds, set(), False)
    if L.get('tags', 0) < 3 and any(x.op in ('sum', 'prod') for x in walk(goal)):
        # the variant of an input decides the shape of a total: split before summing
        tg = [c for c in conds if _tagatom(c)]
        if tg:
            return _split(assume, goal, tg[0], depth, dict(L, tags=L.get('tags', 0) + 1))
    ctx = Ctx(assume)
    goal = samebounds(ctx, goal)
    try:
        ng = ctx.N.form(goal)
    except TooBig:
        ng = goal
    if ng is TRUE:
        STATS['norm'] += 1
        return Result(True, 'normaliser')
    for g in dict.fromkeys((goal, ng)):
        m = _termwise(g)
        if m is not None and depth < L['depth'] and m is not goal:
            r = _prove(assume, m, depth + 1, L)
            if r.ok:
                return r
    # z3 on normalised problem
    try:
        nas = [ctx.N.form(a) if a.op != 'c' else a for a in assume]
    except TooBig:
        nas = assume
    # keep raw assumptions as well (normalisation may have used them)
    allas = list(dict.fromkeys(nas + assume))
    first_ms = L['z3_ms'] if not conds else min(L['z3_ms'], 1500)
    qf = [a for a in allas if not any(x.op in ('all', 'exq') for x in walk(a))]
    if len(qf) > 24:
        # many facts: propositional and equality reasoning alone, no facts about the functions
        if ctx._z3(ng, 400, assume=qf, bare=True)[0] == 'unsat':
            STATS['z3'] += 1
            return Result(True, 'z3')
    tries = []
    if len(qf) < len(allas) and any(x.op == 'exq' for a in allas for x in walk(a)):
        tries.append((ng, qf, first_ms))
    sat = saturated(assume, goal)
    if sat is not None:
        tries.append((FALSE, sat, min(first_ms, 3000)))
    tries.append((ng, allas, first_ms))
    # short attempts with each set of assumptions before long ones
    for short_ in (True, False) if len(tries) > 1 else (False,):
        left = []
        for g, fs, ms in tries:
            r, m, tr = ctx._z3(g, min(ms, 700) if short_ else ms, model=fs is allas, assume=fs)
            if r == 'unsat':
                STATS['z3'] += 1
                return Result(True, 'z3')
            if r != 'sat' and ms > 700:
                left.append((g, fs, ms))
            if fs is allas:
                last = (r, m, tr)
        tries = left
        if last[0] == 'sat':
            break
    r, m, tr = last
    if conds and depth < L['depth']:
        return _split(assume, goal, conds[0], depth + 1, L)
    if not L.get('ends'):
        more = end_instances(assume)
        if more:
            res = _prove(assume + more, goal, depth, dict(L, ends=True))
            if res.ok:
                return res
    return Result(False, 'z3:' + r, 'goal %s' % (show(ng)[:600]), (m, tr) if m is not None else None)
