"""Input generators for the replay side, by domain tag of a contract's arguments."""
import math, random
from . import models
from .conc import strip_ref

CAL = models._const_date


def day(y, m, d):
    return models._py_days(y, m, d)


class Gen:
    def __init__(self, eng, seed, fl=(), it=()):
        self.eng, self.r = eng, random.Random(seed)
        self.enums = eng.types.enums
        self.fl = [x for x in fl if math.isfinite(x) and abs(x) < 1e12]
        self.it = [x for x in it if abs(x) < 1e9]
        self.args = []

    # ---------------------------------------------------------- scalars
    def pick(self, *xs):
        return self.r.choice(xs)

    def p(self, q):
        return self.r.random() < q

    def lit(self, lo=-math.inf, hi=math.inf):
        """a value at or next to a literal of the code"""
        c = [x for x in self.fl + [float(i) for i in self.it] if lo <= x <= hi]
        if not c:
            return None
        x = self.r.choice(c)
        k = self.r.randrange(8)
        if k == 0:
            x = math.nextafter(x, math.inf)
        elif k == 1:
            x = math.nextafter(x, -math.inf)
        elif k == 2:
            x += self.pick(-1, 1) * self.pick(1e-9, 1e-6, 1e-3, 0.5, 1.0)
        elif k == 3:
            x *= self.pick(1 - 1e-9, 1 + 1e-9, 0.5, 2.0, 1.01, 0.99)
        return x if lo <= x <= hi else None

    def num(self, lo, hi, f, q=0.25):
        if self.p(q):
            x = self.lit(lo, hi)
            if x is not None:
                return float(x)
        return float(f())

    def g_year(self):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return r.randrange(-262000, 262000)
        if k == 1:
            return r.randrange(-2000, 2000) * 100
        if k == 2:
            return r.randrange(-500, 500) * 400
        if k == 3:
            return r.randrange(-2 ** 31, 2 ** 31)
        if k == 4 and self.it:
            return self.pick(*self.it) * self.pick(1, 1, 1, 2, 3) + r.randrange(-1, 2)
        return r.randrange(1890, 2110)

    def g_date(self):
        r = self.r
        k = r.randrange(14)
        y = r.randrange(1990, 2041)
        if k == 0:
            return r.randrange(models.DMIN + 800, models.DMAX - 800)
        if k == 1:
            y = r.choice([1900, 2000, 2100, 1904, 1996, 2004, 2024, 1600, 2400, 4])
        if k == 2 and self.it:
            c = [i for i in self.it if 1 <= i <= 9999]
            if c:
                y = r.choice(c)
        if k in (3, 4):
            return self.monthend(y, 2)
        if k == 5:
            return self.monthend(y, r.randrange(1, 13))
        if k == 6:
            return day(y, r.choice([1, 12]), r.choice([1, 31]))
        if k == 7:
            return day(y, r.randrange(1, 13), r.choice([28, 27, 1, 2]))
        if k == 8:
            return self.monthend(y, r.randrange(1, 13)) - r.randrange(0, 3)
        if k == 9:
            return day(y, 3, 1) - r.randrange(0, 3)
        if k == 10:
            return day(r.randrange(1, 4000), r.randrange(1, 13), r.randrange(1, 29))
        return day(y, r.randrange(1, 13), r.randrange(1, 29))

    def monthend(self, y, m):
        return (day(y + 1, 1, 1) if m == 12 else day(y, m + 1, 1)) - 1

    def near(self, d):
        r = self.r
        k = r.randrange(8)
        if k == 0:
            return d
        if k == 1:
            return d + r.choice([1, -1, 30, 31, 29, 28, 90, 91, 92, 120, 119, 121, 365, 366, -365])
        if k == 2 and self.it:
            return d + r.choice(self.it) if abs(self.it[0]) < 10 ** 6 else d + 7
        if k == 3:
            y, m, _ = CAL(d)
            return self.monthend(y + r.randrange(0, 3), r.randrange(1, 13))
        if k == 4:
            y, m, _ = CAL(d)
            return self.monthend(y + r.randrange(-2, 6), 2)
        if k == 5:
            return d + r.randrange(-4000, 12000)
        return self.g_date()

    def ok(self, d):
        return min(max(d, models.DMIN), models.DMAX)

    def g_period(self):
        a = self.g_date()
        return (a, self.ok(self.near(a)))

    def g_fyear(self):
        r = self.r
        k = r.randrange(5)
        if k == 0:
            return r.uniform(-259000, 259000)
        y = r.randrange(1890, 2110)
        if k == 1:
            return float(y)
        n = 366 if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 365
        j = r.choice([0, 1, 2, 58, 59, 60, n - 1, n - 2, n, r.randrange(0, n)])
        x = y + j / n
        if k == 2:
            return x
        if k == 3:
            return x + r.choice([-1, 1]) * r.choice([1e-9, 0.4 / n, 0.49 / n])
        return y + r.random()

    def g_rate(self):
        r = self.r
        return self.num(-0.9, 5, lambda: r.choice([
            r.uniform(0, 0.3), r.choice([0.05, 0.1, 0.07, 0.12, 0.01, 0.025, 0.5]), r.uniform(-0.3, 0), r.uniform(0.3, 1.5), r.uniform(0, 0.01)]))

    def g_rate0(self):
        return 0.0 if self.p(0.2) else self.g_rate()

    def g_years(self):
        r = self.r
        return self.num(-50, 200, lambda: r.choice([float(r.randrange(0, 41)), r.uniform(0, 30), r.randrange(0, 80) / 4, 0.0, 1.0, -2.5, r.uniform(30, 70)]))

    def g_years1(self):
        r = self.r
        return self.num(0.01, 200, lambda: r.choice([float(r.randrange(1, 41)), r.uniform(0.1, 30), r.randrange(1, 80) / 4]))

    def g_rt(self):
        return (self.g_rate(), self.g_years())

    def g_m(self):
        return self.num(0.1, 400, lambda: self.pick(1.0, 2.0, 4.0, 12.0, 6.0, 3.0, 52.0, 365.0, 0.5, 24.0))

    def g_amt(self):
        r = self.r
        return self.num(-1e9, 1e9, lambda: r.choice([
            float(r.randrange(-1000, 1000)), r.randrange(-10 ** 6, 10 ** 6) / 4, r.uniform(-1e5, 1e5), 100.0, 1000.0, 0.0, 1.0, 1e-6, -1e-6, 2e-5]))

    def g_cmp(self):
        r = self.r
        if self.args and self.p(0.7):
            return self.args[-1] * r.choice([1, 1 + 5e-7, 1 - 5e-7, 1 + 2e-6, 1 - 2e-6, 1 + 9.9e-7, 1 + 1.1e-6, -1, 2]) + r.choice([0, 0, 0, 1e-9, 1e-8])
        return self.num(-1e9, 1e9, lambda: r.choice([0.0, 1e-9, -1e-9, 9.9e-9, -9.9e-9, 1.1e-8, -1.1e-8, 2e-8, 1.0, -1.0, r.uniform(-100, 100), r.uniform(-1e-8, 1e-8), 1e6]))

    def n(self, hi=9):
        r = self.r
        k = r.randrange(12)
        return r.randrange(0, 3) if k == 0 else self.size(10, 40, 0.25) if k == 1 else r.randrange(1, hi)

    def size(self, lo, hi, q=0.1):
        """a length in lo..hi, now and then a long one or one next to a whole number of the code"""
        r = self.r
        if self.p(q):
            c = [int(x) for x in self.it + self.fl if 2 <= x <= 150 and x == int(x)]
            if c and self.p(0.6):
                return max(1, r.choice(c) + r.choice([-1, 0, 1, 2, 3]))
            return r.randrange(30, 120)
        return r.randrange(lo, hi)

    def g_times(self):
        r = self.r
        n = self.n()
        self.len = n
        k = r.randrange(4)
        if k == 0:
            return [float(i) for i in range(n)]
        if k == 1:
            return [i / r.choice([1, 2, 4]) for i in range(n)]
        x = [r.uniform(0, 12) for _ in range(n)]
        if k == 2:
            x.sort()
        return self.spice(x)

    def spice(self, x):
        """now and then: a repeated element, or all elements equal"""
        r = self.r
        k = r.randrange(8)
        if len(x) > 1 and k == 0:
            x[r.randrange(len(x))] = x[r.randrange(len(x))]
        if len(x) > 1 and k == 1:
            i = r.randrange(len(x) - 1)
            x[i + 1] = x[i]
        if k == 2:
            x = [x[0]] * len(x) if x else x
        return x

    def scaled(self, x):
        if self.p(0.2):
            q = 10.0 ** self.r.randrange(-8, 6)
            return [v * q for v in x]
        return x

    def g_cfs(self):
        r = self.r
        n = getattr(self, 'len', None)
        if n is None:
            n = self.n()
        if self.p(0.12):
            n = max(0, n + r.choice([-1, 1, 2]))
        k = r.randrange(4)
        if k == 0:
            return [self.g_amt() for _ in range(n)]
        if k < 3:
            x = [float(r.randrange(1, 500)) for _ in range(n)]
            if x:
                x[0] = -sum(x) * r.uniform(0.3, 0.95) * (1 if k == 1 else r.choice([1, -1, 2]))
            return self.scaled(x)
        return self.scaled(self.spice([float(r.randrange(-500, 1000)) for _ in range(n)]))

    def g_dates(self):
        r = self.r
        n = max(1, self.n())
        self.len = n
        d = self.g_date()
        out = [d]
        for _ in range(n - 1):
            k = r.randrange(4)
            out.append(self.ok(out[-1] + r.randrange(0, 500) if k < 2 else d + 365 * len(out) if k == 2 else self.near(d)))
        return self.spice(out)

    def g_fun(self):
        r = self.r
        c = [r.choice([0.0, 1.0, -2.0, r.uniform(-5, 5)]) for _ in range(4)] + [r.choice([0.0, 0.0, 1.0, r.uniform(-2, 2)]), r.choice([1.0, -1.0, 0.3])]
        k = r.randrange(6)
        if k == 0:
            c = [r.uniform(-5, 5), r.uniform(-3, 3), 0.0, 0.0, 0.0, 1.0]
        elif k == 1:
            c = [r.uniform(-9, -1), 0.0, 1.0, 0.0, 0.0, 1.0]
        elif k == 2:
            c = [r.choice([0.0, 1.0]), r.choice([0.0, 1e-9, 5e-9, 2e-8, 1e-7]), 0.0, 0.0, 0.0, 1.0]
        elif k == 3:
            c = [r.choice([0.0, 1.0, 1e-9]), 0.0, 0.0, 1.0, 0.0, 1.0]
        elif k == 4:
            c = [-r.uniform(0, 3), 0.0, 0.0, 0.0, 1.0, 1.0]
        return c

    def g_guess(self):
        return self.r.choice([0.0, 0.1, 1.0, self.r.uniform(-5, 5), 10.0, -3.0])

    def g_xtol(self):
        return self.r.choice([1e-6, 1e-6, 1e-5, 1e-7, 1e-4, 1e-8])

    def bondlife(self, freq):
        r = self.r
        k = r.randrange(5)
        if k == 0:
            return r.randrange(1, 120) / freq
        if k == 1:
            return float(r.randrange(1, 31))
        if k == 2:
            return r.randrange(1, 120) / 10
        if k == 3:
            return max(r.uniform(0.3, 30), 1.01 / freq)
        return float(r.randrange(1, 11))

    def freq(self):
        return self.num(0.5, 366, lambda: self.pick(1.0, 2.0, 4.0, 12.0, 2.0, 3.0), 0.08)

    def g_bond(self):
        r = self.r
        f = self.freq()
        return (r.choice([100.0, 1000.0, r.uniform(50, 2000)]), r.choice([0.0, 0.05, 0.06, r.uniform(0, 0.2)]), f, self.bondlife(f))

    g_frn = g_bond

    def g_price(self):
        r = self.r
        par = self.args[0][0] if self.args and isinstance(self.args[0], tuple) else 100.0
        return self.num(0.5, 1e7, lambda: par * r.choice([1.0, r.uniform(0.6, 1.4), r.uniform(0.9, 1.1)]), 0.05)

    def g_frac(self):
        return self.r.choice([0.0, 1.0, 0.5, 0.25, self.r.random()])

    def g_idx(self):
        return self.r.choice([0.0, self.r.uniform(0, 0.1), 0.05, 0.03])

    def g_margin(self):
        r = self.r
        if self.args and self.p(0.15):
            return -self.args[-1]
        return r.choice([0.0, 0.005, 0.01, r.uniform(-0.01, 0.03)])

    def ratelist(self, n):
        r = self.r
        k = r.randrange(4)
        b = r.uniform(0.005, 0.12)
        if k == 0:
            return [b] * n
        if k == 1:
            return [b + 0.002 * i for i in range(n)]
        if k == 2:
            return [max(1e-4, b + r.uniform(-0.01, 0.01)) for _ in range(n)]
        return [r.uniform(0.001, 0.15) for _ in range(n)]

    def g_curve(self):
        f = self.freq()
        b = self.args[0] if self.args and isinstance(self.args[0], tuple) and len(self.args[0]) == 4 else None
        n = self.size(1, 14)
        if b is not None:
            n = max(n, min(int(math.ceil(f * b[3])) + 2, 400))
        i = self.r.randrange(3)
        return self.mkcurve(i, self.ratelist(n), f)

    def mkcurve(self, i, rate, f):
        names = [n for n, _ in self.enums['RateCurve'][i][1]]
        return (i, tuple({'rate': rate, 'freq': f}[n] for n in names))

    def curveof(self, v):
        """(rates, freq) of the first curve argument"""
        for a in [v] if v else self.args:
            if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple):
                q = a[1]
                if len(q) == 1:
                    return self.curveof(q[0])
                x, y = q
                return (x, y) if isinstance(x, list) else (y, x)

    def g_tau(self):
        r = self.r
        c = self.curveof(None)
        if not c:
            return r.uniform(0.1, 10)
        x, f = c
        n = len(x)
        if n == 0:
            return 1.0
        k = r.randrange(6)
        if k < 2:
            return r.randrange(1, n + 1) / f
        if k == 2:
            return r.randrange(1, n + 1) / f * self.pick(1 - 1e-15, 1 + 1e-15, 1 - 2 ** -53)
        if k == 3 and n > 1:
            return (r.randrange(1, n) + self.pick(1e-6, 1e-7, 0.5, 1 - 1e-6, 0.25)) / f
        return r.uniform(1, n) / f

    def g_tenor(self):
        c = self.curveof(None)
        if not c:
            return 1.0
        x, f = c
        left = max(0.01, len(x) / f - self.args[-1])
        return left * self.pick(1.0, 0.5, self.r.random()) if self.p(0.6) else self.pick(1 / f, 1.0, 0.5)

    def g_rates(self):
        return (self.r.randrange(3), (self.g_curve(),))

    def kind(self, nm):
        return [n for n, _ in self.enums['Rates']].index(nm)

    def nom(self):
        return [n for n, _ in self.enums['RateCurve']].index('NominalRateCurve')

    def g_spot(self):
        return (self.kind('SpotRates'), (self.mkcurve(self.nom(), self.ratelist(self.size(1, 14)), self.freq()),))

    def g_par(self):
        return (self.kind('ParRates'), (self.mkcurve(self.nom(), self.ratelist(self.size(1, 14)), self.freq()),))

    def g_days(self):
        r = self.r
        return self.num(1, 4000, lambda: r.choice([90.0, 180.0, 30.0, 360.0, 365.0, r.uniform(1, 700), float(r.randrange(1, 400))]))

    def g_navs(self):
        n = self.size(1, 10)
        self.len = n
        self.q = 10.0 ** self.r.randrange(-6, 7) if self.p(0.3) else 1.0
        return self.spice([self.q * self.r.uniform(50, 500) for _ in range(n)])

    def g_flows(self):
        n = getattr(self, 'len', 3)
        q = getattr(self, 'q', 1.0)
        return [q * self.r.choice([0.0, self.r.uniform(-20, 100)]) for _ in range(max(n - 1, n - 1 + self.r.randrange(0, 3)))]

    def g_basis(self):
        return self.r.randrange(len(self.enums['DayCountConvention']))

    # ---------------------------------------------------------- statements
    def val(self):
        r = self.r
        k = r.randrange(12)
        if k == 0:
            return r.choice([0.0, 1e-6, -1e-6, 9e-6, -9e-6, 1.1e-5, -1.1e-5, 2e-5])
        if k == 1:
            return r.uniform(-1e4, 1e4)
        if k == 2:
            x = self.lit(-1e9, 1e9)
            if x is not None:
                return float(x)
        if k == 3:
            return -float(r.randrange(1, 5000))
        return float(r.randrange(1, 5000))

    def lines(self, ety, q=None):
        r = self.r
        n = len(self.enums[ety])
        if q is None:
            q = r.choice([0.1, 0.3, 0.6, 0.9, 1.0])
        return {(i,): self.val() for i in range(n) if r.random() < q}

    def g_BsMap(self):
        return self.lines('BsType')

    def g_PlMap(self):
        return self.lines('PlType')

    def g_CfMap(self):
        return self.lines('CfType')

    def based(self, ety, nm):
        m = self.lines(ety)
        i = [n for n, _ in self.enums[ety]].index(nm)
        if self.p(0.9):
            m[(i,)] = self.r.choice([100.0, 250.0, -80.0, self.r.uniform(1, 1000)])
        return m

    def g_BsMapbase(self):
        return self.based('BsType', 'Assets')

    def g_PlMapbase(self):
        return self.based('PlType', 'Revenue')

    def g_CfMapbase(self):
        return self.based('CfType', 'NetCashFlow')

    def en(self, ety):
        return self.r.randrange(len(self.enums[ety]))

    def inp(self, ety):
        """an entered (not calculated) line, mostly"""
        from spec.stmts import CALC
        while True:
            i = self.en(ety)
            if self.p(0.03) or self.enums[ety][i][0] not in CALC.get(ety, ()):
                return i

    def g_BsType(self):
        return self.en('BsType') if self.p(0.3) else self.inp('BsType')

    def g_PlType(self):
        return self.en('PlType') if self.p(0.3) else self.inp('PlType')

    def g_CfType(self):
        return self.en('CfType') if self.p(0.3) else self.inp('CfType')

    def g_entry(self):
        a = self.inp('BsType')
        return (a, a if self.p(0.15) else self.inp('BsType'), self.val())

    def g_entries(self):
        k = [self.inp('BsType') for _ in range(4)]
        return self.spice([(self.pick(*k), self.pick(*k), self.val()) if self.p(0.4) else self.g_entry() for _ in range(self.r.randrange(0, 7))])

    def items(self, ety):
        k = [self.inp(ety) for _ in range(3)]
        return self.spice([(self.pick(*k) if self.p(0.5) else self.inp(ety), self.val()) for _ in range(self.r.randrange(0, 7))])

    def g_items(self):
        return self.items('BsType')

    def g_itemsPl(self):
        return self.items('PlType')

    def g_itemsCf(self):
        return self.items('CfType')

    def g_taxrate(self):
        return self.r.choice([0.0, 0.25, 0.3, self.r.random() * 0.5, 0.05, 1.0])

    def opt(self, f, q=0.8):
        return (f(),) if self.p(q) else ()

    def others(self):
        n = [x for x, _ in self.enums['FinOthersTyp']]
        m = self.lines('FinOthersTyp', 0.5)
        for x in ('CorporateTaxRate', 'GrossProfitTaxRate', 'RevenueTaxRate'):
            if self.p(0.96):
                m[(n.index(x),)] = self.g_taxrate()
        return m

    def fwd(self):
        d = self.g_date()
        return (d, self.ok(d + self.r.choice([0, 1, 30, 90, 91, 92, 119, 120, 121, 365, 366, self.r.randrange(0, 800)])))

    def g_report(self):
        return self.mk('FinancialReport', period=self.g_period(), balance_sheet_beg=self.opt(self.g_BsMap), balance_sheet_end=self.opt(self.g_BsMap),
                       profit_loss=self.opt(self.g_PlMap, 0.95), cash_flow=self.opt(self.g_CfMap, 0.5), others=self.opt(self.others, 0.9))

    def mk(self, ty, **kw):
        return tuple(kw[n] for n, _ in self.eng.types.structs[ty])

    def g_obs0(self):
        self.per = self.g_period()
        return self.obs(0)

    def obs(self, i):
        d = self.per[i] if self.p(0.93) else self.per[1 - i] if self.p(0.5) else self.g_date()
        return self.opt(lambda: self.mk('BalanceSheet', date=d, items=self.g_BsMap()))

    def g_obs1(self):
        return self.obs(1)

    def oper(self, ty, f, q=0.8, exact=False):
        pr = self.per
        if not exact and self.p(0.08):
            pr = self.pick((pr[1], pr[0]), (pr[0], pr[1] + 1), (pr[0] - 1, pr[1]), self.g_period())
            pr = (self.ok(pr[0]), self.ok(pr[1]))
        return self.opt(lambda: self.mk(ty, period=pr, items=f()), q)

    def g_opl(self):
        return self.oper('ProfitLoss', self.g_PlMap, 0.95, True)

    def g_ocf(self):
        return self.oper('CashFlow', self.g_CfMap)

    def g_oft(self):
        return self.oper('FinOthers', self.others)

    def chain(self):
        """periods: mostly consecutive quarters, years or arbitrary, with nested and overlapping ones"""
        r = self.r
        out = set()
        k = r.randrange(6)
        y = r.randrange(1995, 2030)
        if k in (0, 1):
            ends = [self.monthend(y + i // 4, 3 * (i % 4) + 3) for i in range(r.randrange(1, 8))]
            out |= set(zip(ends, ends[1:]))
            if k == 1:
                ye = [e for e in ends if CAL(e)[1] == 3]
                out |= set(zip(ye, ye[1:]))
        elif k == 2:
            ends = [self.monthend(y + i, 3) for i in range(r.randrange(1, 6))]
            out |= set(zip(ends, ends[1:]))
            if self.p(0.5) and out:
                out.discard(r.choice(sorted(out)))
        elif k == 3:
            d = self.g_date()
            for _ in range(r.randrange(0, 6)):
                e = d + r.choice([30, 90, 91, 119, 120, 121, 180, 365, 366, 0])
                out.add((d, e))
                d = e if self.p(0.8) else e + r.choice([1, -1, 30])
        elif k == 4:
            m, dd = r.randrange(1, 13), r.choice([1, 15, 28, 29, 30, 31])
            for i in range(r.randrange(1, 5)):
                for q in (0, 1, 2, 3):
                    mm = m + 3 * q
                    a = self.clamp(y + i + (mm - 1) // 12, (mm - 1) % 12 + 1, dd)
                    b = self.clamp(y + i + (mm + 2) // 12, (mm + 2) % 12 + 1, dd)
                    if self.p(0.8):
                        out.add((a, b))
                a, b = self.clamp(y + i, m, dd), self.clamp(y + i + 1, m, dd)
                if self.p(0.7):
                    out.add((a, b))
        else:
            for _ in range(r.randrange(0, 5)):
                out.add(self.fwd())
        return out

    def clamp(self, y, m, d):
        return min(day(y, m, 1) + d - 1, self.monthend(y, m))

    def walk(self):
        """a chain walked back from its last end, in quarters and years, as long as size() says"""
        r = self.r
        n = self.size(5, 30, 0.5)
        y, m, dd = r.choice([r.randrange(1900, 2060), 2100, 1900, 2000, 2024]), r.randrange(1, 13), r.choice([31, 30, 29, 28, 15, 1])
        if self.p(0.5):
            m = r.choice([3, 6, 9, 12, 2, 5])
        q = r.choice([0.0, 0.5, 1.0, 1.0])
        e = day(y, m, min(dd, CAL(self.monthend(y, m))[2]))
        dd = CAL(e)[2]
        out = set()
        for _ in range(n):
            if self.p(q):
                y, m = (y - 1, m + 9) if m <= 3 else (y, m - 3)
            else:
                y -= 1
            b = self.clamp(y, m, dd)
            out.add((b, e))
            e = b
        return out

    def g_pset(self):
        return {p: () for p in (self.walk() if self.p(0.25) else self.chain())}

    def g_psub(self):
        """periods, mostly those of the accounts"""
        a = self.args[0]
        i = [n for n, _ in self.eng.types.structs['Accounts']].index('profit_loss')
        ks = sorted(set(a[i]) | set(a[i + 1]))
        out = {k: () for k in ks if self.p(0.6)}
        if self.p(0.4):
            out[self.fwd()] = ()
        return out

    def g_periods(self):
        r = self.r
        k = r.randrange(4)
        if k == 0:
            return sorted(self.chain()) or [self.fwd()]
        d = self.g_date()
        out = []
        for _ in range(r.randrange(1, 7)):
            e = self.ok(d + r.choice([0, 1, 30, 90, 365]))
            out.append((d, e))
            d = e
        if k == 1 and out:
            i = r.randrange(len(out))
            a, b = out[i]
            out[i] = r.choice([(a + 1, b), (a, b + 1), (a, b - 1), (b, a), (a - 1, b)])
        return out

    def g_accounts(self):
        r = self.r
        pr = sorted(self.chain())
        if self.p(0.06) and pr:
            a, b = pr[0]
            pr[0] = (b, a)
        ds = sorted({d for p in pr for d in p})
        dates = {(d,): () for d in ds if self.p(0.7)}
        if self.p(0.3):
            dates[(self.g_date(),)] = ()
        q = r.choice([0.6, 0.9, 1.0])
        bs = {(d,): self.g_BsMap() for d in ds if self.p(q)}
        if self.p(0.2):
            bs[(self.g_date(),)] = self.g_BsMap()
        pl = {p: self.g_PlMap() for p in pr}
        cf = {p: self.g_CfMap() for p in pr if self.p(0.4)}
        if self.p(0.2):
            cf[self.fwd()] = self.g_CfMap()
        oq = r.choice([0.9, 1.0, 1.0])
        oth = {p: self.others() for p in pr if self.p(oq)}
        if self.p(0.15):
            oth[self.fwd()] = self.others()
        return self.mk('Accounts', currency=self.en('Currency'), consolidated=self.p(0.5), dates=dates, balance_sheet=bs,
                       profit_loss=pl, cash_flow=cf, others=oth)

    def acc(self, f):
        return self.args[0][[n for n, _ in self.eng.types.structs['Accounts']].index(f)]

    def g_adate(self):
        ks = [k[0] for k in self.acc('balance_sheet')] + [k[0] for k in self.acc('dates')] + [d for k in self.acc('profit_loss') for d in k]
        if len(self.args) == 2 and self.p(0.7):
            ps = [b for a, b in self.acc('profit_loss') if a == self.args[1]]
            if ps:
                return self.r.choice(ps)
        return self.r.choice(ks) if ks and self.p(0.9) else self.g_date()

    def g_aperiod(self):
        ks = list(self.acc('profit_loss')) + list(self.acc('cash_flow'))
        return self.r.choice(ks) if ks and self.p(0.9) else self.fwd()

    def g_tableaccounts(self):
        """an account book with small, cancelling and negative amounts on some lines"""
        a = self.g_accounts()
        r = self.r
        n = [x for x, _ in self.eng.types.structs['Accounts']]
        for f in ('balance_sheet', 'profit_loss', 'cash_flow', 'others'):
            m = a[n.index(f)]
            keys = sorted({k for v in m.values() for k in v})
            for _ in range(2):
                if not keys or len(m) < 1:
                    break
                k = r.choice(keys)
                x = r.choice([0.05, 0.5, 0.25, 1.0, 0.0002, 0.003, 1234.56, 12.0, 0.00005, 7e-5])
                for i, d in enumerate(sorted(m)):
                    m[d][k] = x * r.choice([1, -1, -1, 1, 0]) if r.random() < 0.8 else x
        return a

    def g_sep(self):
        return self.r.choice([',', '|', ';', ' | '])

    def g_mult(self):
        return float(self.r.choice([1, 1, 10, 100, 1000, 1000000, 0.01, -10, self.r.uniform(0.5, 50)]))

    def g_file(self):
        return 'book.csv'

    def saved(self, ty):
        """any value of a type"""
        from .mir import split_top
        from .values import short, tyargs
        r, ty = self.r, self.eng.sym.resolve(ty)
        s = short(ty)
        if s == 'f64':
            return float(r.choice([0.0, 1.0, -1.0, 0.1, 23.5, 1e-7, r.uniform(-1e6, 1e6), r.uniform(-1, 1), float(r.randrange(-999, 999))]))
        if s == 'bool':
            return self.p(0.5)
        if s in ('NDt', 'NaiveDate'):
            return self.g_date()
        if ty.startswith('('):
            return self.fwd() if all(short(self.eng.sym.resolve(x)) in ('NDt', 'NaiveDate') for x in split_top(ty[1:-1])) else tuple(self.saved(x) for x in split_top(ty[1:-1]))
        if s == 'Option':
            return (self.saved(tyargs(ty)[0]),) if self.p(0.6) else ()
        key = lambda k: (lambda x: x if isinstance(x, tuple) else (x,))(self.saved(k))
        if s in ('HashMap', 'BTreeMap'):
            return {key(tyargs(ty)[0]): self.saved(tyargs(ty)[1]) for _ in range(r.choice([0, 1, 2, 3, 5]))}
        if s in ('HashSet', 'BTreeSet'):
            return {key(tyargs(ty)[0]): () for _ in range(r.choice([0, 1, 2, 3, 5]))}
        if s in self.enums:
            return self.en(s)
        return tuple(self.saved(t) for _, t in self.eng.types.structs[s])

    # ---------------------------------------------------------- a whole argument list
    def make(self, dom):
        self.args = []
        self.__dict__.pop('len', None)
        for t in dom:
            self.args.append(self.saved(t[6:]) if t.startswith('saved ') else getattr(self, 'g_' + t)())
        return self.args
