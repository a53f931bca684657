"""Contracts of the time-value, rate, date, NPV/IRR, bond, curve and money-market
functions.  Every specification is written from the documented formula, as a
function of the arguments, and is compared with what the code computes."""
from mirver.terms import *
from mirver.values import *
from mirver import models as M
from mirver.models import Year, Month, Day, Ordinal, Ymd, Yo, leap, dim, opt, NONE, some
from mirver.vc import Contract, SELF

C = {}


def contract(key, dom=None, **kw):
    def d(f):
        C[kw.get('name') or key] = Contract(key, f, dom, **kw)
        return f
    return d


def field(v, i):
    return deref(v).f[i]


DAYS = lambda y: ite(leap(y), 366, 365)


def day_ok(d, back=0, fwd=0):
    return And(Le(IntC(M.DMIN + back), d), Le(d, IntC(M.DMAX - fwd)))


# ---------------------------------------------------------------- calendar
@contract('is_leap_year', ['year'])
def is_leap_year(c, y):
    # Gregorian rule, stated independently of the order of tests
    d4, d100, d400 = [eq(IRem(y, IntC(n)), IntC(0)) for n in (4, 100, 400)]
    return Or(d400, And(d4, Not(d100)))


@contract('days_in_year', ['year'])
def days_in_year(c, y):
    return Ite(leap(y), IntC(366), IntC(365))


def to_float(d):
    y = Year(d)
    return ToReal(y) + ToReal(Ordinal(d)) / ToReal(Ite(leap(y), IntC(366), IntC(365)))


@contract('date_to_float', ['date'])
def date_to_float(c, d):
    return to_float(d)


def yearpart(yr):
    return Floor(yr - RealC('0.00137'))


@contract('date_from_float', ['fyear'], modular=False, relational=True)
def date_from_float(c, yr):
    """total on the calendar, and the result is the date whose float is nearest (within half a day)"""
    c.requires(yr >= -260000, yr <= 260000)
    c.ensures('the date is within half a day of the float', lambda d: Abs(to_float(d) - yr) <= RealC('0.00138'))
    return None


@contract('date_from_float', ['date'], name='date_roundtrip', modular=False, inputs=['NaiveDate'], build=lambda d: [to_float(d)])
def date_roundtrip(c, d):
    c.requires(d >= M.DMIN + 800, d <= M.DMAX - 800)
    return d


def D30(y, m, d):
    return ToReal(360 * y + 30 * m + d)


def us30360(a, b):
    y0, m0, d0, y1, m1, d1 = Year(a), Month(a), Day(a), Year(b), Month(b), Day(b)
    last0 = And(eq(m0, 2), eq(d0, Ite(leap(y0), IntC(29), IntC(28))))
    last1 = And(eq(m1, 2), eq(d1, Ite(leap(y1), IntC(29), IntC(28))))
    # rule order of the US (NASD) 30/360 convention
    e1 = Ite(And(last0, last1), IntC(30), d1)
    e0 = Ite(last0, IntC(30), d0)
    f1 = Ite(And(eq(e1, 31), e0 >= 30), IntC(30), e1)
    f0 = Ite(eq(e0, 31), IntC(30), e0)
    return (D30(y1, m1, f1) - D30(y0, m0, f0)) / 360


def eu30360(a, b):
    cap = lambda d: Min(d, IntC(30))
    return (D30(Year(b), Month(b), cap(Day(b))) - D30(Year(a), Month(a), cap(Day(a)))) / 360


def yearfrac_spec(a, b, basis):
    return {'US30360': us30360(a, b), 'EU30360': eu30360(a, b), 'ACTACT': to_float(b) - to_float(a),
            'ACT360': ToReal(b - a) / 360, 'ACT365': ToReal(b - a) / 365}[basis]


@contract('yearfrac', ['date', 'date', 'basis'])
def yearfrac(c, a, b, basis):
    r = yearfrac_spec(a, b, 'ACT365')
    for n in ('ACT360', 'ACTACT', 'EU30360', 'US30360'):
        r = Ite(eq(basis.d, IntC(c.tag('DayCountConvention', n))), yearfrac_spec(a, b, n), r)
    return r


@contract('yrfrac', ['period'])
def yrfrac(c, pr):
    return us30360(pr.f[0], pr.f[1])


# ---------------------------------------------------------------- time value
one = RealC(1)
EPS = RealC('1e-8')


def growth(r, n):
    return (one + r) ** n


@contract('dis_fact_annual', ['rate'])
def dis_fact_annual(c, r):
    c.requires(r > -1)
    return one / (one + r)


@contract('dis_fact', ['rate', 'years'])
def dis_fact(c, r, n):
    c.requires(r > -1)
    return one / growth(r, n)


@contract('xdis_fact', ['rate', 'period'])
def xdis_fact(c, r, pr):
    c.requires(r > -1)
    return one / growth(r, us30360(pr.f[0], pr.f[1]))


@contract('fwd_dis_fact', ['rt', 'rt'])
def fwd_dis_fact(c, a, b):
    c.requires(a.f[0] > -1, b.f[0] > -1)
    return growth(a.f[0], a.f[1]) / growth(b.f[0], b.f[1])


def pv_(r, n, fv):
    return fv / growth(r, n)


def fv_(r, n, pv):
    return pv * growth(r, n)


@contract('pv', ['rate', 'years', 'amt'])
def pv(c, r, n, fv):
    c.requires(r > -1)
    return pv_(r, n, fv)


@contract('fv', ['rate', 'years', 'amt'])
def fv(c, r, n, pv):
    c.requires(r > -1)
    return fv_(r, n, pv)


@contract('xpv', ['rate', 'period', 'amt'])
def xpv(c, r, pr, fv):
    c.requires(r > -1)
    return pv_(r, us30360(pr.f[0], pr.f[1]), fv)


@contract('xfv', ['rate', 'period', 'amt'])
def xfv(c, r, pr, pv):
    c.requires(r > -1)
    return fv_(r, us30360(pr.f[0], pr.f[1]), pv)


def pvm_(r, n, m, fv):
    return fv / growth(r / m, n * m)


def fvm_(r, n, m, pv):
    return pv * growth(r / m, n * m)


@contract('pvm', ['rate', 'years', 'm', 'amt'])
def pvm(c, r, n, m, fv):
    c.requires(m > 0, r / m > -1)
    return pvm_(r, n, m, fv)


@contract('fvm', ['rate', 'years', 'm', 'amt'])
def fvm(c, r, n, m, pv):
    c.requires(m > 0, r / m > -1)
    return fvm_(r, n, m, pv)


@contract('pvc', ['rate', 'years', 'amt'])
def pvc(c, r, n, fv):
    return fv / Exp(r * n)


@contract('fvc', ['rate', 'years', 'amt'])
def fvc(c, r, n, pv):
    return pv * Exp(r * n)


# ---------------------------------------------------------------- annuities
def annuity(r, n, m, pmt, fv):
    """-(sum of discounted payments) - discounted final value"""
    i, N = r / m, n * m
    v = one / growth(i, N)
    return Ite(eq(r, 0), -(pmt * N) - fv, -(pmt * ((one - v) / i)) - fv * v)


def annuity_payment(r, n, m, pv, fv):
    i, N = r / m, n * m
    v = one / growth(i, N)
    return Ite(eq(r, 0), -(pv + fv) / N, -((pv + fv * v) / ((one - v) / i)))


@contract('pv_annuity', ['rate0', 'years', 'm', 'amt', 'amt'])
def pv_annuity(c, r, n, m, pmt, fv):
    c.requires(m > 0, r / m > -1)
    return annuity(r, n, m, pmt, fv)


@contract('pmt', ['rate0', 'years1', 'm', 'amt', 'amt'])
def pmt(c, r, n, m, pv, fv):
    c.requires(m > 0, r / m > -1, n > 0)
    return annuity_payment(r, n, m, pv, fv)


# ---------------------------------------------------------------- rate conversions
def nom_eff(r, m):
    return growth(r / m, m) - 1


def eff_nom(r, m):
    return m * (growth(r, one / m) - 1)


@contract('nom_eff_rate', ['rate', 'm'])
def nom_eff_rate(c, r, m):
    c.requires(m > 0, r / m > -1)
    return nom_eff(r, m)


@contract('eff_nom_rate', ['rate', 'm'])
def eff_nom_rate(c, r, m):
    c.requires(m > 0, r > -1)
    return eff_nom(r, m)


@contract('exp_eff_rate', ['rate'])
def exp_eff_rate(c, r):
    return Exp(r) - 1


@contract('eff_exp_rate', ['rate'])
def eff_exp_rate(c, r):
    c.requires(r > -1)
    return Ln(one + r)


@contract('nom_exp_rate', ['rate', 'm'])
def nom_exp_rate(c, r, m):
    c.requires(m > 0, r / m > -1)
    return m * Ln(one + r / m)


@contract('exp_nom_rate', ['rate', 'm'])
def exp_nom_rate(c, r, m):
    c.requires(m > 0)
    return m * (Exp(r / m) - 1)


# ---------------------------------------------------------------- comparison
@contract('approx', ['cmp', 'cmp'], modular=False)
def approx(c, x, y):
    mx = Max(Abs(x), Abs(y))
    return Or(mx < 1e-8, Abs(x - y) < RealC('1e-6') * mx)


def tiny(x):
    return And(x < EPS, x > -EPS)


@contract('is_zero', ['cmp'])
def is_zero(c, x):
    return tiny(x)


# ---------------------------------------------------------------- NPV / IRR
def npv0(r, tim, cf):
    n = Min(tim.n, cf.n)
    k = fresh('k', I)
    return Sum(n, k, deref(cf.at(k)) / growth(r, deref(tim.at(k))))


def dates_frac(dt, d0):
    return VSeq(dt.n, lambda j: us30360(d0, deref(dt.at(j))))


@contract('npv_t0', ['rate', 'times', 'cfs'])
def npv_t0(c, r, tim, cf):
    c.requires(r > -1)
    return npv0(r, tim, cf)


@contract('npv', ['rate', 'times', 'years', 'cfs'])
def npv(c, r, tim, t0, cf):
    c.requires(r > -1)
    n = Min(tim.n, cf.n)
    k = fresh('k', I)
    return Sum(n, k, deref(cf.at(k)) / growth(r, deref(tim.at(k)) - t0))


@contract('xnpv', ['rate', 'dates', 'date', 'cfs'])
def xnpv(c, r, dt, d0, cf):
    c.requires(r > -1)
    return npv0(r, dates_frac(dt, d0), cf)


def newton(c, f, x0, xtol):
    """Newton iteration from x0 with a forward difference of xtol/10: at most 100
    steps; fails when the slope is below 1e-8; returns the iterate after the first
    step shorter than 1e-8."""
    dx = xtol / 10

    def slope(x):
        return (f(x + dx) - f(x)) / dx

    def run(ret, T_, X):
        k = fresh('k', I)
        flat = lambda x: tiny(slope(x))
        short = lambda x: tiny(f(x) / slope(x))
        nxt = lambda x: x - f(x) / slope(x)
        xT = X(T_)
        conv = And(T_ < 100, Not(flat(xT)), short(xT))
        good = And(eq(ret.d, IntC(1)), eq(ret.p[1][0], nxt(xT)) if 1 in ret.p else FALSE)
        return And(
            T_ >= 0, T_ <= 100, eq(X(IntC(0)), x0),
            All(T_, k, And(Not(flat(X(k))), Not(short(X(k))), eq(X(k + 1), nxt(X(k))))),
            Implies(T_ < 100, Or(flat(xT), short(xT))),
            Ite(conv, good, eq(ret.d, IntC(0))))
    c.ensures_run('the result is the outcome of the Newton iteration', R, run)


@contract('newt_raph', ['fun', 'guess', 'xtol'], solver=True, relational=True, concrete='newton')
def newt_raph(c, f, x0, xtol):
    newton(c, f.uf, x0, xtol)
    return None


@contract('irr', ['times', 'cfs'], modular=False, relational=True, concrete='irr')
def irr(c, tim, cf):
    c.delegates('newt_raph', 1, lambda r: npv0(r, tim, cf), RealC('0.1'), RealC('1e-6'), lambda r: r > -1)
    return None


@contract('xirr', ['dates', 'cfs'], modular=False, relational=True, concrete='xirr')
def xirr(c, dt, cf):
    t = dates_frac(dt, deref(dt.at(IntC(0))))
    c.delegates('newt_raph', 1, lambda r: npv0(r, t, cf), RealC('0.1'), RealC('1e-6'), lambda r: r > -1)
    return None


# ---------------------------------------------------------------- coupon bond
def bond_price(par, cpn, freq, life, rate):
    return annuity(rate, life, freq, -(cpn * par / freq), RealC(0)) + pvm_(rate, life, freq, par)


def bond(c, b):
    return [c.f(b, x) for x in ('par', 'c', 'freq', 't_life')]


@contract('CouponBond::price', ['bond', 'rate0'])
def cb_price(c, b, rate):
    par, cpn, freq, life = bond(c, b)
    c.requires(freq > 0, rate / freq > -1)
    return bond_price(par, cpn, freq, life, rate)


@contract('CouponBond::ytm', ['bond', 'price'], modular=False, relational=True, concrete='ytm')
def cb_ytm(c, b, price):
    par, cpn, freq, life = bond(c, b)
    c.requires(freq > 0)
    c.delegates('newt_raph', 1, lambda r: bond_price(par, cpn, freq, life, r) - price, RealC('0.05'), RealC('1e-6'), lambda r: r / freq > -1, unwrap=True)
    return None


def n_coupons(freq, life):
    return Floor(freq * life + RealC('1e-9'))


@contract('CouponBond::generate_cashflow', ['bond'])
def cb_cashflow(c, b):
    par, cpn, freq, life = bond(c, b)
    n = n_coupons(freq, life)
    c.requires(n >= 1, n <= 10 ** 6)
    return VSeq(n, lambda j: Ite(eq(j, n - 1), par * cpn / freq + par, par * cpn / freq))


@contract('CouponBond::accrued_interest', ['bond', 'frac'])
def cb_accrued(c, b, t):
    par, cpn, freq, life = bond(c, b)
    return par * cpn * t


@contract('CouponBond::pv_full', ['bond', 'rate0', 'frac'])
def cb_full(c, b, rate, t):
    par, cpn, freq, life = bond(c, b)
    c.requires(freq > 0, rate / freq > -1)
    return bond_price(par, cpn, freq, life, rate) * growth(rate / freq, t * freq)


@contract('CouponBond::pv_flat', ['bond', 'rate0', 'frac'])
def cb_flat(c, b, rate, t):
    par, cpn, freq, life = bond(c, b)
    c.requires(freq > 0, rate / freq > -1)
    return bond_price(par, cpn, freq, life, rate) * growth(rate / freq, t * freq) - par * cpn * t


# ---------------------------------------------------------------- floating rate note
def frn_price(par, qm, freq, life, idx, dm):
    return annuity(idx + dm, life, freq, -((qm + idx) * par / freq), RealC(0)) + pvm_(idx + dm, life, freq, par)


def frn(c, b):
    return [c.f(b, x) for x in ('par', 'quoted_margin', 'freq', 't_life')]


@contract('FloatingRateNotes::price', ['frn', 'idx', 'margin'])
def f_price(c, b, idx, dm):
    par, qm, freq, life = frn(c, b)
    c.requires(freq > 0, (idx + dm) / freq > -1)
    return frn_price(par, qm, freq, life, idx, dm)


@contract('FloatingRateNotes::discount_margin', ['frn', 'price', 'idx'], modular=False, relational=True, concrete='margin')
def f_margin(c, b, price, idx):
    par, qm, freq, life = frn(c, b)
    c.requires(freq > 0)
    c.delegates('newt_raph', 1, lambda x: frn_price(par, qm, freq, life, idx, x) - price, RealC('0.005'), RealC('1e-6'), lambda x: (idx + x) / freq > -1, unwrap=True)
    return None


# ---------------------------------------------------------------- rate curves
KINDS = ['NominalRateCurve', 'EffectiveRateCurve', 'ExponentialRateCurve']


def curve(c, rc, kind):
    i = c.tag('RateCurve', kind)
    names = [n for n, _ in c.eng.types.enums['RateCurve'][i][1]]
    p = rc.p[i]
    return deref(p[names.index('rate')]), deref(p[names.index('freq')])


def mkcurve(c, kind, rate, freq):
    i = c.tag('RateCurve', kind)
    names = [n for n, _ in c.eng.types.enums['RateCurve'][i][1]]
    return VEnum('RateCurve', IntC(i), {i: tuple({'rate': rate, 'freq': freq}[n] for n in names)})


def is_kind(c, rc, kind):
    return eq(rc.d, IntC(c.tag('RateCurve', kind)))


def bykind(c, rc, f):
    """case split on the kind of curve"""
    r = None
    for k in KINDS:
        i = c.tag('RateCurve', k)
        if isc(rc.d) and cv(rc.d) != i:
            continue
        v = f(k, *curve(c, rc, k))
        r = v if r is None else mergev(is_kind(c, rc, k), v, r)
    return r


def grid(y, fq):
    """position on the grid: index of the last point at or before y, and the weight of the next one"""
    x = y * fq
    i = Floor(x + RealC('1e-9'))
    return i, x - ToReal(i)


def interp(rate, fq, y):
    i, w = grid(y, fq)
    return Ite(w < 1e-9, deref(rate.at(i - 1)), deref(rate.at(i - 1)) * (one - w) + deref(rate.at(i)) * w)


def covered(rate, fq, y):
    i, w = grid(y, fq)
    return And(i >= 1, i <= rate.n, Or(w < 1e-9, i < rate.n))


def curve_ok(c, rc, y):
    return bykind(c, rc, lambda k, rate, fq: covered(rate, fq, y))


def curve_rate(c, rc, y):
    return bykind(c, rc, lambda k, rate, fq: interp(rate, fq, y))


@contract('RateCurve::rate_estim', ['curve', 'tau'])
def rc_rate(c, rc, y):
    c.requires(curve_ok(c, rc, y))
    return curve_rate(c, rc, y)


def disc(k, rate, t, fq, amt):
    return pvm_(rate, t, fq, amt) if k == KINDS[0] else pv_(rate, t, amt) if k == KINDS[1] else amt / Exp(rate * t)


def disc_ok(k, rate, fq):
    return And(fq > 0, rate / fq > -1) if k == KINDS[0] else rate > -1 if k == KINDS[1] else TRUE


@contract('RateCurve::pv', ['curve', 'amt', 'tau'])
def rc_pv(c, rc, amt, t):
    c.requires(curve_ok(c, rc, t), bykind(c, rc, lambda k, rate, fq: disc_ok(k, interp(rate, fq, t), fq)))
    return bykind(c, rc, lambda k, rate, fq: disc(k, interp(rate, fq, t), t, fq, amt))


def all_rates(rate, p):
    k = fresh('k', I)
    return All(rate.n, k, p(deref(rate.at(k))))


CONV = {   # (from, to) -> rate conversion
    (0, 0): lambda r, m: r, (1, 1): lambda r, m: r, (2, 2): lambda r, m: r,
    (1, 0): eff_nom, (0, 1): nom_eff,
    (2, 0): lambda r, m: m * (Exp(r / m) - 1), (0, 2): lambda r, m: m * Ln(one + r / m),
    (2, 1): lambda r, m: Exp(r) - 1, (1, 2): lambda r, m: Ln(one + r)}


def convert(c, rc, to):
    def conv(k, rate, fq):
        f = CONV[(KINDS.index(k), to)]
        return mkcurve(c, KINDS[to], VSeq(rate.n, lambda j: f(deref(rate.at(j)), fq)), fq)
    c.requires(bykind(c, rc, lambda k, rate, fq: And(
        fq > 0, all_rates(rate, lambda r: r / fq > -1 if k == KINDS[0] else r > -1 if k == KINDS[1] else TRUE))))
    return bykind(c, rc, conv)


for _n, _t in (('to_nominal', 0), ('to_effective', 1), ('to_exponential', 2)):
    C['RateCurve::' + _n] = Contract('RateCurve::' + _n, lambda c, rc, t=_t: convert(c, rc, t), ['curve'])


@contract('CouponBond::price_ratecurve', ['bond', 'curve'], lim={'deadline': 90.0})
def cb_price_rc(c, b, rc):
    par, cpn, freq, life = bond(c, b)
    n = n_coupons(freq, life)
    c.requires(n >= 1, n <= 10 ** 6, freq > 0)
    k = fresh('k', I)
    tk = lambda k: ToReal(k + 1) / freq
    c.requires(All(n, k, curve_ok(c, rc, tk(k))))
    k2 = fresh('k', I)
    c.requires(All(n, k2, bykind(c, rc, lambda kd, rate, fq: disc_ok(kd, interp(rate, fq, tk(k2)), fq))))
    j = fresh('j', I)

    def total(kd, rate, fq):
        amt = Ite(eq(j, n - 1), par * cpn / freq + par, par * cpn / freq)
        return Sum(n, j, disc(kd, interp(rate, fq, tk(j)), tk(j), fq, amt))
    return bykind(c, rc, total)


# ---------------------------------------------------------------- par / spot / forward
def of_rates(c, rs, kind):
    return deref(rs.p[c.tag('Rates', kind)][0])


def mk_rates(c, kind, rc):
    i = c.tag('Rates', kind)
    return VEnum('Rates', IntC(i), {i: (rc,)})


@contract('Rates::rate_estim', ['rates', 'tau'])
def rs_rate(c, rs, y):
    kinds = ['SpotRates', 'ParRates', 'ForwardRates']
    r, ok = None, None
    for k in kinds:
        i = c.tag('Rates', k)
        if isc(rs.d) and cv(rs.d) != i:
            continue
        rc = of_rates(c, rs, k)
        g = eq(rs.d, IntC(i))
        v, o = curve_rate(c, rc, y), curve_ok(c, rc, y)
        r, ok = (v, o) if r is None else (Ite(g, v, r), Ite(g, o, ok))
    c.requires(ok)
    return r


def nominal(c, rs, kind):
    rc = of_rates(c, rs, kind)
    c.requires(eq(rs.d, IntC(c.tag('Rates', kind))), is_kind(c, rc, KINDS[0]))
    return curve(c, rc, KINDS[0])


@contract('Rates::to_par', ['spot'])
def to_par(c, rs):
    """coupon at which a bond discounted on the spot curve prices at par"""
    rt, fq = nominal(c, rs, 'SpotRates')
    c.requires(fq > 0, all_rates(rt, lambda r: r / fq > -1))
    k = fresh('k', I)
    df = lambda k: one / growth(deref(rt.at(k)) / fq, ToReal(k + 1))
    return mk_rates(c, 'ParRates', mkcurve(c, KINDS[0], VSeq(
        rt.n, lambda i: fq * (one - df(i)) / Sum(i + 1, k, df(k))), fq))


@contract('Rates::to_spot', ['par'], modular=False, relational=True, concrete='to_spot')
def to_spot(c, rs):
    """bootstrap: one spot rate per par rate, each repricing its par bond"""
    rt, fq = nominal(c, rs, 'ParRates')
    c.requires(rt.n >= 1, fq > 0)
    tag = c.tag('Rates', 'SpotRates')

    def y(ret):
        rc = deref(ret.p[tag][0])
        return curve(c, rc, KINDS[0])

    def shape(ret):
        rc = deref(ret.p[tag][0])
        yr, yf = y(ret)
        return And(eq(ret.d, IntC(tag)), is_kind(c, rc, KINDS[0]), eq(yr.n, rt.n), eq(yf, fq))

    def first(ret):
        return eq(deref(y(ret)[0].at(IntC(0))), deref(rt.at(IntC(0))))

    def rest(ret):
        i, k = fresh('i', I), fresh('k', I)
        yr = y(ret)[0]
        x = deref(rt.at(i)) / fq
        s = Sum(i, k, x / growth(deref(yr.at(k)) / fq, ToReal(k + 1)))
        return All(rt.n, i, Implies(i >= 1, eq(deref(yr.at(i)), fq * (((one + x) / (one - s)) ** (one / ToReal(i + 1)) - 1))))
    c.ensures('a nominal spot curve of the same length and frequency', shape)
    c.ensures('the first spot rate is the first par rate', first)
    c.ensures('each later spot rate solves its par bond', rest)
    return None


@contract('Rates::forward_rate', ['spot', 'tau', 'tenor'])
def forward_rate(c, rs, fp, tenor):
    rt, fq = nominal(c, rs, 'SpotRates')
    ft = fp + tenor
    c.requires(fq > 0, tenor > 0, covered(rt, fq, fp), covered(rt, fq, ft))
    a, b = interp(rt, fq, ft), interp(rt, fq, fp)
    c.requires(a / fq > -1, b / fq > -1)
    ratio = growth(a / fq, ft * fq) / growth(b / fq, fp * fq)
    return fq * (ratio ** (one / (tenor * fq)) - 1)


# ---------------------------------------------------------------- money markets
@contract('t_bill_r', ['days', 'price', 'price'])
def t_bill_r(c, t, p0, f):
    c.requires(t > 0, f > 0)
    return (f - p0) / f * 360 / t


@contract('t_bill_d', ['rate', 'days', 'price'])
def t_bill_d(c, r, t, f):
    return f * r * (t / 360)


@contract('holding_per_yield', ['price', 'price', 'amt'])
def hpy(c, p0, p1, d1):
    c.requires(p0 > 0)
    return (p1 - p0 + d1) / p0


@contract('eff_ann_yield', ['days', 'price', 'price', 'price'])
def eay(c, t, p0, p1, d1):
    c.requires(t > 0, p0 > 0, p1 + d1 > 0)
    return ((p1 + d1) / p0) ** (365 / t) - 1


@contract('money_mkt_yield', ['days', 'price', 'price', 'amt'])
def mmy(c, t, p0, p1, d1):
    c.requires(t > 0, p0 > 0)
    return (p1 - p0 + d1) / p0 * 360 / t


def linked(bv, inf):
    k = fresh('k', I)
    return Prod(bv.n - 1, k, deref(bv.at(k + 1)) / (deref(bv.at(k)) + deref(inf.at(k))))


@contract('twrr_n', ['years1', 'navs', 'flows'])
def twrr_n(c, n, bv, inf):
    c.requires(n > 0, bv.n >= 1, inf.n >= bv.n - 1)
    return linked(bv, inf) ** (one / n) - 1


@contract('twrr', ['navs', 'flows'])
def twrr(c, bv, inf):
    c.requires(bv.n >= 2, inf.n >= bv.n - 1)
    return linked(bv, inf) ** (one / ToReal(bv.n - 1)) - 1
