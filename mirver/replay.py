"""Replay of contracts against the compiled code."""
import calendar, datetime, json, math, os, re, select, subprocess, sys, time
from fractions import Fraction
from .terms import *
from .values import *
from . import vc, models
from .conc import *
from .gen import Gen

HANG = 20.0


class Driver:
    def __init__(self, path):
        self.path, self.p = path, None

    def start(self):
        self.p = subprocess.Popen(['bash', '-c', 'ulimit -v 6000000; exec "$0"', self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, bufsize=0)
        self.buf = b''

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def call(self, key, args, timeout=HANG):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps({'k': key, 'a': args}).encode() + b'\n')
            end = time.time() + timeout
            while b'\n' not in self.buf:
                t = end - time.time()
                if t <= 0 or not select.select([self.p.stdout], [], [], t)[0]:
                    self.stop()
                    return {'hang': True}
                x = os.read(self.p.stdout.fileno(), 1 << 16)
                if not x:
                    rc = self.p.wait()
                    self.stop()
                    return {'panic': 'process ended with %d' % rc}
                self.buf += x
        except BrokenPipeError:
            self.stop()
            return {'panic': 'process ended'}
        line, _, self.buf = self.buf.partition(b'\n')
        return json.loads(line)


def literals(eng, key):
    """numeric literals in the MIR of a function and of what it calls"""
    fns = [f for f in eng.mir.order if 'lazy_static' not in f.name and f.kind == 'fn']
    seen, todo = set(), [eng.find(key)]
    fl, it = set(), set()
    while todo and len(seen) < 80:
        f = todo.pop()
        if f is None or f in seen:
            continue
        seen.add(f)
        txt = '\n'.join(f.file.lines[f.lo:f.hi])
        for m in re.finditer(r'const (-?[\d.]+(?:[eE][-+]?\d+)?)f64', txt):
            fl.add(float(m.group(1)))
        for m in re.finditer(r'const (-?\d+)_[iu](?:size|\d+)', txt):
            it.add(int(m.group(1)))
        for m in re.finditer(r'const ([\w:]+);', txt):
            g = eng.mir.consts.get(m.group(1))
            if g is not None and g not in seen:
                todo.append(g)
        segs = set(re.findall(r'(\w+)(?:::<[^;]*?>)?\(', txt))
        for g in fns:
            if g not in seen and (g.name.startswith(f.name + '::') or g.name.split('::')[-1] in segs):
                todo.append(g)
    return sorted(fl), sorted(it)


class Case:
    """one contract prepared for concrete checking"""

    def __init__(self, eng, c):
        self.eng, self.c = eng, c
        fn = eng.find(c.key)
        from . import engine as E
        st = E.State({}, ())
        args, self.vals = vc.mkargs(eng, c, fn, st)
        self.muts = [i for i, a in enumerate(args) if isinstance(a, VMut)]
        self.cx = vc.Cx(eng, c)
        self.exp = c.spec(self.cx, *self.vals)
        self.tys = c.inputs or [vc.selfsub(ty, c.selfty) for _, ty in fn.args]
        self.ret = c.serde or vc.selfsub(fn.ret, c.selfty)
        self.env = Env(eng.sym)
        self.args = None
        for i, ty in enumerate(self.tys):
            if not (ty.startswith('impl ') or ty == 'F'):
                self.env.bind(ty, 'a%d' % i, lambda ix, i=i: self.args[i] if not ix or True else None)
        self.pre = And(*self.cx.req)

    def load(self, args):
        self.args = args
        e = self.env
        e.memo, e.local, e.bind_, e.dates, e.enum = {}, {}, {}, set(), {}
        for ty, v in zip(self.tys, args):
            if not (ty.startswith('impl ') or ty == 'F'):
                alldates(self.eng.sym, ty, v, e.dates)

    def admissible(self, args):
        self.load(args)
        return self.env.b3(self.pre) is True

    def json(self, args):
        return [to_json(self.eng.sym, 'Vec<f64>', v) if ty.startswith('impl ') or ty == 'F' else to_json(self.eng.sym, ty, v) for ty, v in zip(self.tys, args)]

    def unjson(self, js):
        return [from_json(self.eng.sym, 'Vec<f64>' if ty.startswith('impl ') or ty == 'F' else ty, v) for ty, v in zip(self.tys, js)]

    def check(self, args, out):
        """difference between what happened and the contract, or None"""
        env, cx, sym = self.env, self.cx, self.eng.sym
        if 'unknown' in out:
            raise Unsupported('driver does not know ' + self.c.key)
        if 'hang' in out:
            return 'does not return within %g s' % HANG
        if self.c.concrete:
            return HOOKS[self.c.concrete](self, args, out)
        pan = env.b3(cx.pan)
        if 'panic' in out:
            if pan is False and not cx.may_panic:
                return 'panics: ' + out['panic'][:200]
            return None
        if pan is True:
            return 'returns although the contract specifies a panic'
        if pan is None:
            return None
        if self.exp is not vc.SELF and self.exp is not None:
            act = from_json(sym, self.ret, out['ok'])
            if strip_ref(sym, self.ret).startswith('(') or True:
                d = differs(sym, env, self.ret, act, self.exp)
                if d:
                    return d
        for i in self.muts:
            act = from_json(sym, self.tys[i], out['m'][str(i)])
            if i == 0 and cx.fin:
                try:
                    rv = const(sym, self.tys[0], act)
                except Fuzzy:
                    return 'final value is not finite'
                for n, f in cx.fin:
                    if env.b3(f(rv)) is False:
                        return 'not satisfied: ' + n
                continue
            alldates(sym, self.tys[i], act, env.dates)
            d = differs(sym, env, self.tys[i], act, cx.posts.get(i, self.vals[i]), 'final value')
            if d:
                return d
        if cx.ens:
            act = from_json(sym, self.ret, out['ok'])
            try:
                rv = const(sym, self.ret, act)
            except Fuzzy:
                return 'result is not finite'
            for n, f in cx.ens:
                if env.b3(f(rv)) is False:
                    return 'not satisfied: ' + n
        return None


# ---------------------------------------------------------------- root finders
def fnum(case, f):
    """numeric evaluation of a specified function of one real"""
    x = App('hx~', (), R)
    t = f(x)
    e = case.env

    def g(v):
        e.names['hx~'] = lambda ix: v
        e.memo = {}
        r = e.ev(t)
        return r
    return g


def newton_run(f, x, xtol, noise=0.0):
    """('root', x) / ('none',) / None when rounding could decide"""
    dx = xtol / 10
    for k in range(100):
        fx, ef = f(x)
        gx, eg = f(x + dx)
        fx *= 1 + noise
        s = (gx - fx) / dx
        es = (ef + eg + 2e-16 * (abs(fx) + abs(gx))) / dx
        if abs(abs(s) - 1e-8) <= 100 * es + 1e-12:
            return None
        if abs(s) < 1e-8:
            return ('none',)
        st = fx / s
        est = (ef + abs(st) * es) / abs(s)
        if abs(abs(st) - 1e-8) <= 10 * est + 1e-10:
            return None
        x -= st
        if not math.isfinite(x) or abs(x) > 1e6:
            return None
        if abs(st) < 1e-8:
            return ('root', x)
    return ('none',)


def newton_cmp(case, f, x0, xtol, out, unwrap):
    sym = case.eng.sym
    try:
        a, b = newton_run(f, x0, xtol), newton_run(f, x0, xtol, 1e-13)
    except (Fuzzy, OverflowError, ZeroDivisionError, ValueError):
        return None
    if a is None or b is None or a[0] != b[0]:
        return None
    if a[0] == 'root' and abs(a[1] - b[1]) > 1e-7 * (1 + abs(a[1])):
        return None
    if 'panic' in out:
        if unwrap and a[0] == 'none':
            return None
        return 'panics: ' + out['panic'][:200]
    r = from_json(sym, case.ret, out['ok'])
    if unwrap:
        if a[0] == 'none':
            return 'returns %r although the search fails' % r
        got = r
    else:
        if (a[0] == 'root') != bool(r):
            return 'returns %r, the specified search gives %r' % (r, a)
        if not r:
            return None
        got = r[0]
    if not math.isfinite(got) or abs(got - a[1]) > 1e-6 * (1 + abs(a[1])):
        return 'returns %r, the specified search gives %r' % (got, a[1])
    return None


def h_newton(case, args, out):
    c = args[0]

    def f(x):
        v = c[0] + c[1] * x + c[2] * x * x + c[3] * x * x * x + c[4] * math.exp(c[5] * x)
        m = abs(c[0]) + abs(c[1] * x) + abs(c[2] * x * x) + abs(c[3] * x ** 3) + abs(c[4] * math.exp(c[5] * x))
        return v, 4 * U * m
    return newton_cmp(case, f, args[1], args[2], out, False)


def h_delegate(case, args, out):
    key, f, x0, xtol, dom, unwrap = case.cx.dele
    return newton_cmp(case, fnum(case, f), float(cv(x0)), float(cv(xtol)), out, unwrap)


def h_to_spot(case, args, out):
    sym = case.eng.sym
    if 'panic' in out:
        return 'panics: ' + out['panic'][:200]
    g = Gen(case.eng, 0)
    rt, fq = g.curveof(args[0])
    r = from_json(sym, case.ret, out['ok'])
    if r[0] != g.kind('SpotRates') or r[1][0][0] != g.nom():
        return 'result is not a nominal spot curve'
    yr, yf = g.curveof(r)
    if len(yr) != len(rt) or yf != fq:
        return 'result has %d rates at frequency %r, expected %d at %r' % (len(yr), yf, len(rt), fq)
    cum = 0.0
    for i, y in enumerate(rt):
        x = y / fq
        # the i-th par bond must price at par on the spot curve
        s = sum(x / (1 + yr[k] / fq) ** (k + 1) for k in range(i))
        if s >= 1 - 1e-6 or not math.isfinite(yr[i]):
            return None
        want = fq * (((1 + x) / (1 - s)) ** (1 / (i + 1)) - 1)
        if abs(yr[i] - want) > 1e-9 * (1 + abs(want)):
            return 'spot rate %d is %r, the par bond needs %r' % (i + 1, yr[i], want)
    return None


def h_consecutive(case, args, out):
    """the run of quarters, or else years, that leads back from the latest end date"""
    if 'panic' in out:
        return 'panics: ' + out['panic'][:200]
    acc = case.c.key != 'consecutive_periods'
    st = [n for n, _ in case.eng.types.structs['Accounts']]
    fld = lambda n: args[0][st.index(n)]
    ps = set(fld(case.c.key.split('consecutive_')[1]) if acc else args[0])
    D = datetime.date
    ps = {(D.fromordinal(a), D.fromordinal(b)) for a, b in ps} if all(0 < d < 3652060 for p in ps for d in p) else None
    if ps is None:
        return None
    e = max([D(1000, 1, 1)] + [b for _, b in ps])
    day, run = e.day, []

    def back(months):
        y, m = divmod(e.year * 12 + e.month - 1 - months, 12)
        return D(y, m + 1, min(day, calendar.monthrange(y, m + 1)[1]))
    while len(run) < 100:
        s = next((s for s in (back(3), back(12)) if (s, e) in ps), None)
        if s is None:
            break
        run.append((s.toordinal(), e.toordinal()))
        e = s
    r = from_json(case.eng.sym, case.ret, out['ok'])
    if not acc:
        return None if set(r) == set(run) else 'returns %s, the run is %s' % (sorted(r), sorted(run))
    ds = {(d,) for p in run for d in p}
    for i, n in enumerate(st):
        w = args[0][i]
        if n == 'dates':
            w = dict.fromkeys(ds, ())
        elif n == 'balance_sheet':
            w = {k: v for k, v in w.items() if k in ds}
        elif n in ('profit_loss', 'cash_flow', 'others'):
            w = {k: v for k, v in w.items() if k in set(run)}
        if r[i] != w:
            return '%s is %s, expected %s' % (n, str(r[i])[:300], str(w)[:300])
    return None


def h_file(case, args, out):
    """the text of the file written"""
    if 'panic' in out:
        return 'panics: ' + out['panic'][:200]
    return differs(case.eng.sym, case.env, 'String', out['ok'], case.cx.out[1], 'file')


def h_shown(case, args, out):
    """the text printed is the table for the multiplier it names"""
    if 'panic' in out:
        return 'panics: ' + out['panic'][:200]
    m = re.match(r'[^|]*\|[^|]*\|\s*([^|\s]+)', out['ok'])
    if not m:
        return 'prints %r' % out['ok'][:200]
    try:
        x = RealC(Fraction(m.group(1)))
    except ValueError:
        return 'prints the multiplier %r' % m.group(1)
    if x == RealC(0):
        return 'prints the multiplier 0'
    return differs(case.eng.sym, case.env, 'String', out['ok'], case.cx.shows[1](None, None, x), 'text')


HOOKS = {'shown': h_shown, 'file': h_file, 'consecutive': h_consecutive, 'newton': h_newton, 'irr': h_delegate, 'xirr': h_delegate, 'ytm': h_delegate, 'margin': h_delegate, 'to_spot': h_to_spot}


def search(eng, drv, c, seed, budget, count=10 ** 9, lit=True):
    """run the contract on generated inputs: (tried, admissible, failing (args json, outcome, difference) or None)"""
    case = Case(eng, c)
    fl, it = literals(eng, c.key) if lit else ((), ())
    g = Gen(eng, seed, fl, it)
    t0, tried, adm, sample = time.time(), 0, 0, None
    while tried < count and time.time() - t0 < budget:
        tried += 1
        args = g.make(c.dom)
        if not case.admissible(args):
            continue
        adm += 1
        js = case.json(args)
        out = drv.call(c.name, js)
        d = case.check(args, out)
        if d:
            return tried, adm, (js, out, d), None
        if sample is None or tried == 7:
            sample = (json.dumps(js)[:400], json.dumps(out)[:200])
    return tried, adm, None, sample
