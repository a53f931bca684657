"""Contracts and verification-condition generation.

A contract states, for one function of /repo, preconditions, the exact panic
condition, the returned value, the final value of every &mut argument and extra
relational postconditions.  `verify` executes the function's MIR symbolically
(callees under contract through their contracts) and discharges one named
obligation per panic site and per leaf of the result."""
import re, time
from .terms import *
from .values import *
from . import models, smt, text, engine as E


class SELF:
    """the returned reference is the first argument"""


class Cx:
    def __init__(self, eng, contract=None):
        self.eng, self.contract = eng, contract
        self.req, self.pan, self.posts, self.ens, self.gh = [], FALSE, {}, [], []
        self.start = None
        self.fin = []
        self.may_panic = False
        self.dele = None
        self.out = None
        self.shows = None

    def writes(self, path, contents):
        """the function writes exactly one file"""
        self.out = (path, contents)

    def prints(self, key, text):
        """prints, through the contract of key, text(arguments of that one call)"""
        self.shows = (key, text)

    def requires(self, *cs):
        self.req.extend(cs)

    def panics(self, c):
        self.pan = Or(self.pan, c)

    def post(self, i, v):
        self.posts[i] = v

    def ensures(self, name, f):
        self.ens.append((name, f))

    def final(self, name, f):
        """postcondition on the final value of the receiver"""
        self.fin.append((name, f))

    def ensures_run(self, name, sort, f, result=None, start=None):
        """exists a run (T, X) of the function's loop such that f(ret, T, X), with ret = result(T, X);
        where the function goes through no loop, the run is of no step, from `start`"""
        self.gh.append((name, sort, f, result))
        self.start = start

    def same(self, got, want):
        """got and want are the same value (at keys of their own)"""
        return And(*[g for _, g in cmpv(self.eng, deref(got), want)])

    def delegates(self, key, n, f, x0, xtol, dom, unwrap=False):
        """the result is that of solver `key` applied to a function equal to f on dom"""
        self.dele = (key, f, x0, xtol, dom, unwrap)

    # ---- accessors
    def f(self, v, name):
        v = deref(v)
        fl = self.eng.types.structs[v.name]
        for i, (n, _) in enumerate(fl):
            if n == name:
                return v.f[i]
        raise KeyError(name)

    def struct(self, name, **kw):
        fl = self.eng.types.structs[name]
        assert set(kw) == {n for n, _ in fl}, (name, fl)
        return VAgg(name, [kw[n] for n, _ in fl])

    def with_(self, v, **kw):
        fl = self.eng.types.structs[v.name]
        assert set(kw) <= {n for n, _ in fl}
        return VAgg(v.name, [kw.get(n, x) for (n, _), x in zip(fl, v.f)])

    def tag(self, ety, name):
        for i, (n, _) in enumerate(self.eng.types.enums[ety]):
            if n == name:
                return i
        raise KeyError(name)

    def kt(self, ty):
        return self.eng.sym.kt(ty)


class Contract:
    recursive = False

    def __init__(self, key, spec, dom=None, selfty=None, modular=True, lim=None, note='', tol=None, concrete=None, relational=False, solver=False, name=None, inputs=None, build=None, serde=None):
        self.serde = serde
        self.inputs, self.build = inputs, build
        self.name = name or key
        self.key, self.spec, self.dom, self.selfty = key, spec, dom, selfty
        self.modular, self.lim, self.note, self.tol, self.concrete = modular, lim or {}, note, tol, concrete
        self.relational = relational
        self.solver = solver

    def apply(self, eng, args, st):
        """use the contract at a call site"""
        f = eng.find(self.key)
        if self.solver:
            # relational contract of a root finder: the outcome is recorded, and
            # constrained only through that contract (proved for any function)
            a = [eng.dd_deep(st, x) for x in args]
            eng.nsk += 1
            nm = 'root~%d' % eng.nsk
            ret = VEnum('Option', App(nm + '.some', tuple(eng.loopvars), I), {1: (App(nm + '.v', tuple(eng.loopvars), R),)})
            eng.ghost.append((self.key, a, ret, And(*st.pc)))
            st = st.assume(Le(IntC(0), ret.d), Le(ret.d, IntC(1)))
            eng.applied.add(self.key)
            return st, ret
        vals, muts = [], {}
        for i, a in enumerate(args):
            if isinstance(a, (VMut, VMutIte)):
                muts[i] = a
                vals.append(eng.load(st, a))
            else:
                vals.append(deref(eng.dd_deep(st, a)))
        cx = Cx(eng, self)
        try:
            ret = self.spec(cx, *vals)
        except Unsupported:
            return eng.exec_fn(f, args, st)
        ghost = cx.gh[0] if len(cx.gh) == 1 and cx.gh[0][3] is not None and not eng.loopvars else None
        if cx.out is not None or cx.ens or cx.gh and ghost is None or cx.dele or cx.fin or set(cx.posts) != set(muts):
            return eng.exec_fn(f, args, st)
        req = And(*cx.req)
        if req is not TRUE and not smt.Ctx(st.pc).valid(req):
            eng.inlined.add(self.key)
            return eng.exec_fn(f, args, st)
        eng.applied.add(self.key)
        eng.uses.append((self.key, vals))
        if cx.pan is not FALSE:
            eng.panic(st, cx.pan, 'panic of ' + self.key, 'call of ' + self.key)
            st = st.assume(Not(cx.pan))
            if st is None:
                return None
        st = st.copy()
        if ghost is not None:
            name, sort, f, result = ghost
            eng.nsk += 1
            T_, X = App('L9%03d.T' % eng.nsk, (), I), (lambda k, n='L9%03d:run' % eng.nsk: App(n, (k if isinstance(k, T) else IntC(k),), sort))
            ret = result(T_, X)
            st = st.assume(f(ret, T_, X))
            if st is None:
                return None
            st = st.copy()
        for i, v in cx.posts.items():
            eng.store(st, muts[i], v)
        if ret is SELF:
            ret = args[0]
        elif ret is None:
            ret = UNIT
        return st, ret


class Obl:
    def __init__(self, name, ok, how, detail='', model=None, time=0.0):
        self.name, self.ok, self.how, self.detail, self.model, self.time = name, ok, how, detail, model, time


def keyfacts(eng, kt, key):
    ty = kt[0]
    if ty.startswith('('):
        from .mir import split_top
        out, i = [], 0
        for x in split_top(ty[1:-1]):
            p = eng.sym.kt(x)
            out += keyfacts(eng, p, key[i:i + p[1]])
            i += p[1]
        return out
    if ty == 'NaiveDate':
        return models.date_range(key[0])
    if kt[2] is not None:
        return [Le(IntC(0), key[0]), Lt(key[0], IntC(kt[2]))]
    return []


def cmpv(eng, a, b, path=''):
    """[(label, goal)]: leaf-wise equality of actual a and expected b"""
    a, b = deref(a), deref(b)
    if isinstance(b, VText):
        if not isinstance(a, VText):
            raise Unsupported('unknown text at ' + path)
        return [(path + ' ' + l, g) for l, g in text.goals(a, b)]
    if isinstance(a, VOpaque) or isinstance(b, VOpaque):
        if isinstance(a, VOpaque) and isinstance(b, VOpaque):
            return []
        raise Unsupported('comparison with opaque value at ' + path)
    if isinstance(a, Undef) or isinstance(b, Undef):
        raise Unsupported('comparison with undefined value at ' + path)
    if isinstance(b, T):
        if not isinstance(a, T):
            raise Unsupported('shape mismatch at %s: %r' % (path, type(a).__name__))
        if b.sort == R and a.sort == I:
            a = ToReal(a)
        return [(path or 'result', Iff(a, b) if a.sort == B else Eq(a, b))]
    if isinstance(b, VAgg):
        if not isinstance(a, VAgg) or len(a.f) != len(b.f):
            raise Unsupported('shape mismatch at ' + path)
        nm = [n for n, _ in eng.types.structs[b.name]] if b.name in eng.types.structs else range(len(b.f))
        out = []
        for n, x, y in zip(nm, a.f, b.f):
            out += cmpv(eng, x, y, '%s.%s' % (path, n))
        return out
    if isinstance(b, VEnum):
        out = [(path + '#tag', Eq(a.d, b.d))]
        for k in sorted(set(a.p) | set(b.p)):
            if isc(b.d) and cv(b.d) != k:
                continue
            if k in b.p and k not in a.p:
                out.append((path + '#%d' % k, Not(Eq(b.d, IntC(k)))))
                continue
            if k not in b.p:
                out.append((path + '#%d' % k, Not(Eq(a.d, IntC(k))))) if not isc(a.d) or cv(a.d) == k else None
                continue
            for i, (x, y) in enumerate(zip(a.p[k], b.p[k])):
                for l, g in cmpv(eng, x, y, '%s#%d.%d' % (path, k, i)):
                    out.append((l, Implies(Eq(b.d, IntC(k)), g)))
        return out
    if isinstance(b, VSeq):
        if not isinstance(a, VSeq):
            raise Unsupported('shape mismatch at ' + path)
        out = [(path + '.len', Eq(a.n, b.n))]
        if isc(a.n) and isc(b.n) and cv(b.n) <= 200:
            for j in range(min(cv(a.n), cv(b.n))):
                out += cmpv(eng, a.at(IntC(j)), b.at(IntC(j)), '%s[%d]' % (path, j))
            return out
        j = fresh('j', I)
        for l, g in cmpv(eng, a.at(j), b.at(j), path + '[j]'):
            out.append((l, Implies(And(Le(IntC(0), j), Lt(j, b.n)), g)))
        return out
    if isinstance(b, VMap):
        if not isinstance(a, VMap):
            raise Unsupported('shape mismatch at ' + path)
        kt = b.kt if b.kt and (b.kt[2] is not None or not a.kt) else a.kt
        out = []
        if kt[2] is not None:
            names = [n for n, _ in eng.types.enums[kt[0]]]
            for i in range(kt[2]):
                out += _cmpkey(eng, a, b, (IntC(i),), '%s[%s]' % (path, names[i]), TRUE)
            return out
        key = tuple(fresh('key', I) for _ in range(kt[1]))
        return _cmpkey(eng, a, b, key, path + '[key]', And(*keyfacts(eng, kt, key)))
    raise Unsupported('comparison of %s at %s' % (type(b).__name__, path))


def _cmpkey(eng, a, b, key, path, g):
    (p, v), (q, w) = a.get(key), b.get(key)
    out = [(path + ' present', Implies(g, Iff(p, q)))]
    if p is FALSE or q is FALSE or isinstance(v, VOpaque) or isinstance(w, VOpaque):
        return out
    for l, e in cmpv(eng, v, w, path):
        out.append((l, Implies(And(g, p, q), e)))
    return out


def selfsub(ty, selfty):
    """instantiate the type parameters of a provided trait method"""
    for k, v in sorted((selfty or {}).items(), key=lambda x: -len(x[0])):
        if k.startswith('<'):
            ty = ty.replace(k, v)
        else:
            ty = re.sub(r'(?<![\w:])%s(?![\w:])' % re.escape(k), v, ty)
    return ty


def symargs(eng, fn, selfty, st):
    args, vals = [], []
    fn.parse()
    for i, (n, ty) in enumerate(fn.args):
        nm = 'a%d' % i
        t = selfsub(ty, selfty)
        if t.startswith('&mut '):
            v = eng.sym.make(t[5:], nm)
            c = eng.newcell(st, v)
            args.append(VMut(c, ()))
            vals.append(v)
        elif t.startswith('impl ') or t == 'F':
            f = VFn('uf', lambda x: App('uf.f', (x,), R))
            args.append(f)
            vals.append(f)
        else:
            v = eng.sym.make(t, nm)
            args.append(v)
            vals.append(deref(v))
    return args, vals


def mkargs(eng, c, fn, st):
    """(actual arguments, values the specification is stated on)"""
    if not c.inputs:
        return symargs(eng, fn, c.selfty, st)
    vals = [deref(eng.sym.make(t, 'a%d' % i)) for i, t in enumerate(c.inputs)]
    args = c.build(*vals)
    for i, (a, (_, ty)) in enumerate(zip(args, fn.args if fn.args else [])):
        if isinstance(a, VText) and ty.startswith('&mut '):
            args[i] = VMut(eng.newcell(st, a), ())
    return args, vals


class Report:
    def __init__(self, key):
        self.key, self.obls, self.error, self.time = key, [], None, 0.0
        self.used, self.inlined, self.models = set(), set(), set()
        self.vacuous = False

    @property
    def ok(self):
        return self.error is None and all(o.ok for o in self.obls) and self.obls and not self.vacuous


LIM = {'z3_ms': 6000, 'depth': 14, 'deadline': 40.0}


def verify(eng, c, only=None, stop=True):
    rep = Report(c.key)
    t0 = time.time()
    try:
        _verify(eng, c, rep, only, stop)
    except Unsupported as e:
        rep.error = str(e)
    except RecursionError:
        rep.error = 'recursion limit'
    except (AttributeError, KeyError, IndexError, TypeError, AssertionError, ValueError, NameError) as e:
        import traceback
        at = traceback.extract_tb(e.__traceback__)[-1]
        rep.error = 'shape not modelled: %s %s (%s:%d)' % (type(e).__name__, e, at.filename.split('/')[-1], at.lineno)
    rep.time = time.time() - t0
    return rep


def _verify(eng, c, rep, only, stop):
    if c.serde:
        from . import serdes
        return serdes.verify(eng, c, rep, stop)
    fn = eng.find(c.key)
    if fn is None:
        raise Unsupported('no function ' + c.key)
    st = E.State({}, ())
    args, vals = mkargs(eng, c, fn, st)
    cx = Cx(eng, c)
    exp = c.spec(cx, *vals)
    lim = dict(LIM)
    lim.update(c.lim)
    req = And(*cx.req)
    # vacuity: the precondition must be satisfiable
    if req is not TRUE:
        r = smt.prove([req], FALSE, {'deadline': 10.0})
        if r.ok:
            rep.vacuous = True
    s = st.assume(req)
    if s is None:
        rep.vacuous = True
        return
    eng.applied = set()
    eng.inlined = set()
    eng.models_used = set()
    eng.current = c
    eng.want_panics = cx.pan is not FALSE
    eng.sinks = [[]]
    eng.depth = 0
    eng.ghost, eng.uses = [], []
    r = eng.exec_fn(fn, args, s)
    eng.current = None
    gcalls = []
    if cx.dele:
        g = [x for x in eng.ghost if x[0] == cx.dele[0]]
        if not g:
            raise Unsupported('no call of ' + cx.dele[0])
        # several calls: one per branch, each under the condition it is reached with
        gcalls = [(a, ret, x if len(g) > 1 else TRUE) for _, a, ret, x in g]
        if cx.dele[5]:
            for a, ret, G in gcalls:
                cx.panics(And(G, eq(ret.d, IntC(0))))
    rep.used, rep.inlined, rep.models = set(eng.applied), set(eng.inlined), set(eng.models_used)

    def ob(name, assume, goal):
        if stop and any(not o.ok for o in rep.obls):
            return
        x = smt.prove(list(assume) + smt.at_keys(assume, goal), goal, lim)
        rep.obls.append(Obl(name, x.ok, x.how, x.detail, x.model, x.time))

    seen = {}
    for p in eng.sinks[0]:
        nm = 'no panic: %s in %s' % (p.msg.strip('"')[:60], p.where.split('::')[-1] if '{closure' not in p.where else p.where.split('::', 1)[-1])
        seen[nm] = seen.get(nm, 0) + 1
        if cx.may_panic:
            continue
        ob(nm + (' (%d)' % seen[nm] if seen[nm] > 1 else ''), p.pc, cx.pan)
    if r is None:
        ob('never returns', s.pc, cx.pan)
        return
    s2, ret = r
    pc = list(s2.pc)
    ob('returns only when no panic is specified', pc, Not(cx.pan))
    pc.append(Not(cx.pan)) if cx.pan is not FALSE else None
    goals = []
    if exp is SELF:
        if not (isinstance(ret, VMut) and isinstance(args[0], VMut) and ret.cell == args[0].cell and not ret.path):
            raise Unsupported('returned reference is not the receiver')
        rep.obls.append(Obl('returns the receiver', True, 'syntactic'))
    elif exp is not None:
        goals += [('result' + l.replace('result', ''), g) for l, g in cmpv(eng, eng.dd_deep(s2, ret), exp)]
    if cx.shows:
        u = [a for k, a in eng.uses if k == cx.shows[0]]
        if len(u) != 1:
            raise Unsupported('%d calls of %s' % (len(u), cx.shows[0]))
        cx.posts[1] = cx.shows[1](*u[0])
    for i, a in enumerate(args):
        if isinstance(a, VMut) and not (i == 0 and cx.fin):
            new = eng.load(s2, a)
            e = cx.posts[i] if i in cx.posts else vals[i]
            goals += [('final arg%d%s' % (i, l), g) for l, g in cmpv(eng, new, e)]
    for l, g in goals:
        ob(l, pc, g)
    if len(gcalls) > 1:
        ob('a search is made', pc, Or(*[G for _, _, G in gcalls]))
    for i, (a, gret, G) in enumerate(gcalls):
        key, f, x0, xtol, dom, unwrap = cx.dele
        nth = ' (call %d)' % (i + 1) if i else ''
        on = pc + ([] if G is TRUE else [G])
        ob('starting guess' + nth, on, eq(a[1], x0))
        ob('tolerance' + nth, on, eq(a[2], xtol))
        x = fresh('x', R)
        sx = s2.assume(And(G, dom(x)))
        if sx is None:
            continue
        eng.sinks.append([])
        v = eng.pure_call(a[0], [x], sx)
        for p in eng.sinks.pop():
            ob('objective does not panic' + nth, p.pc, FALSE)
        ob('objective' + nth, list(sx.pc), eq(v, f(x)))
        if unwrap:
            ob('result is the root found' + nth, on, eq(eng.dd_deep(s2, ret), gret.p[1][0]))
        else:
            for l, g in cmpv(eng, eng.dd_deep(s2, ret), gret):
                ob('result is the outcome of the search' + l + nth, on, g)
    if cx.out is not None or E.OUT in s2.mem:
        w = s2.mem.get(E.OUT)
        if cx.out is None or not isinstance(w, VAgg):
            raise Unsupported('the file written is not known')
        for what, x, y in zip(('file name', 'file contents'), w.f, cx.out):
            for l, g in cmpv(eng, x, y, what):
                ob(l, pc, g)
    rv = eng.dd_deep(s2, ret)
    for name, f in cx.ens:
        ob(name, pc, f(rv))
    if cx.fin:
        fv_ = eng.load(s2, args[0])
        for name, f in cx.fin:
            ob(name, pc, f(fv_))
    for name, sort, f, result in cx.gh:
        if stop and any(not o.ok for o in rep.obls):
            break
        best = None
        arms = run_arms(pc, cx.start)
        for T_, X in runs(pc, sort):
            g = And(f(rv, T_, X), cx.same(rv, result(T_, X)) if result else TRUE)
            if arms:
                p = [a for a in pc if a is not arms[0]] + list(arms[1].args if arms[1].op == 'and' else arms[1:2]) + [Not(arms[2])]
                x = by_start(p, X, g, lim)
            else:
                x = smt.prove(pc + smt.at_keys(pc, g), g, lim)
            if x.ok or best is None:
                best = x
            if x.ok:
                break
        if cx.start is not None and (best is None or arms and best.ok):
            T_, X = IntC(0), lambda k: cx.start
            g = And(f(rv, T_, X), cx.same(rv, result(T_, X)) if result else TRUE)
            p = [a for a in pc if not arms or a is not arms[0]] + (list(arms[2:]) if arms else [])
            x = smt.prove(p + smt.at_keys(p, g), g, lim)
            if best is None or not x.ok:
                best = x
        if best is None:
            rep.obls.append(Obl(name, False, 'no-witness', 'no loop with a recurrence of this sort'))
        else:
            rep.obls.append(Obl(name, best.ok, best.how, best.detail, best.model, best.time))


class Lemma:
    """consequence of specifications, proved for all values"""

    def __init__(self, eng):
        self.eng, self.hyp, self.goals = eng, [], []

    def real(self, *names):
        r = [App('l.' + n, (), R) for n in names]
        return r if len(r) > 1 else r[0]

    def int(self, *names):
        r = [App('l.' + n, (), I) for n in names]
        return r if len(r) > 1 else r[0]

    def make(self, ty, name):
        return deref(self.eng.sym.make(ty, 'l.' + name))

    def assume(self, *cs):
        self.hyp.extend(cs)

    def show(self, name, goal):
        self.goals.append((name, list(self.hyp), goal))


def lemma(eng, f, scale=1):
    rep = Report(f.__name__)
    t0 = time.time()
    try:
        L = Lemma(eng)
        f(L, Cx(eng))
        lim = {'z3_ms': 8000 * scale, 'depth': 14, 'deadline': 60.0 * scale}
        for n, hyp, g in L.goals:
            x = smt.prove(hyp, g, lim)
            rep.obls.append(Obl(n, x.ok, x.how, x.detail, x.model, x.time))
        if L.hyp and smt.prove(L.hyp, FALSE, {'deadline': 10.0}).ok:
            rep.vacuous = True
    except Unsupported as e:
        rep.error = str(e)
    rep.time = time.time() - t0
    return rep


def run_arms(pc, start):
    """the fact of pc that tells the ways through a loop from those that go past it, and its two sides"""
    trip = lambda a: any(t.op == 'app' and len(t.args) == 1 and re.match(r'^L\d+\.T$', t.args[0]) for t in walk(a))
    if start is not None:
        for a in pc:
            if a.op == 'or':
                l = [x for x in a.args if trip(x)]
                if len(l) == 1 and len(l) < len(a.args):
                    return a, l[0], Or(*[x for x in a.args if x is not l[0]])
    return None


def by_start(p, X, g, lim):
    """proof of g from p, a choice of where the run X starts being taken first"""
    e = X(IntC(0))
    t = next((t for a in p if len(list(walk(a))) < 40 for t in walk(a) if t.op == 'ite' and a is Eq(t, e)), None)
    if t is None:
        return smt.prove(p + smt.at_keys(p, g), g, lim)
    for v, h, x in ((TRUE, t.args[0], t.args[1]), (FALSE, Not(t.args[0]), t.args[2])):
        m = {t.args[0]: v, e: x}
        q = [subst(a, m) for a in p] + [h]
        x = smt.prove(q + smt.at_keys(q, g), subst(g, m), lim)
        if not x.ok:
            break
    return x


def runs(pc, sort):
    """candidate ghost witnesses: loop trip counts and unary recurrences"""
    Ts, Xs = {}, []
    for f in pc:
        for t in walk(f):
            if t.op == 'app':
                m = re.match(r'^(L\d+)\.T$', t.args[0])
                if m and len(t.args) == 1:
                    Ts[m.group(1)] = t
                m = re.match(r'^(L\d+):', t.args[0])
                if m and len(t.args) == 2 and t.sort == sort and (m.group(1), t.args[0]) not in Xs:
                    Xs.append((m.group(1), t.args[0]))
    for l, n in Xs:
        if l in Ts:
            yield Ts[l], (lambda k, n=n: App(n, (k,), sort))
