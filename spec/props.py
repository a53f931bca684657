"""Which contracts and lemmas make up each property."""
from mirver.terms import *
from mirver.values import *
from mirver import models as M
from . import base, stmts
from .base import *


def contracts():
    c = dict(base.C)
    c.update(stmts.C)
    return c


LEMMAS = {}


def lemma(f):
    LEMMAS[f.__name__] = f
    return f


# ---------------------------------------------------------------- consequences of the contracts
@lemma
def pv_fv_inverse(L, c):
    r, n, m, x = L.real('r', 'n', 'm', 'x')
    L.assume(r > -1, m > 0, r / m > -1)
    L.show('fv(pv(x)) = x', eq(fv_(r, n, pv_(r, n, x)), x))
    L.show('pv(fv(x)) = x', eq(pv_(r, n, fv_(r, n, x)), x))
    L.show('fvm(pvm(x)) = x', eq(fvm_(r, n, m, pvm_(r, n, m, x)), x))
    L.show('pvm(fvm(x)) = x', eq(pvm_(r, n, m, fvm_(r, n, m, x)), x))
    L.show('pvm at one period a year = pv', eq(pvm_(r, n, RealC(1), x), pv_(r, n, x)))
    L.show('fvc(pvc(x)) = x', eq(x / Exp(r * n) * Exp(r * n), x))
    L.show('no time, no discount', And(eq(pv_(r, RealC(0), x), x), eq(pvm_(r, RealC(0), m, x), x)))


@lemma
def discount_splits(L, c):
    r, a, b, x = L.real('r', 'a', 'b', 'x')
    L.assume(r > -1)
    L.show('discounting over a+b = over a then over b', eq(pv_(r, a + b, x), pv_(r, a, pv_(r, b, x))))


@lemma
def annuity_inverse(L, c):
    r, n, m, p, f = L.real('r', 'n', 'm', 'p', 'f')
    L.assume(m > 0, r / m > -1, n > 0)
    z = annuity(r, n, m, p, f)
    L.show('zero rate: value is minus the undiscounted sum', Implies(eq(r, 0), eq(z, -(p * n * m + f))))
    L.show('payment recovers the annuity at a zero rate', Implies(eq(r, 0), eq(annuity_payment(r, n, m, z, f), p)))
    i, N = r / m, n * m
    v = one / growth(i, N)
    L.show('payment recovers the annuity', Implies(And(Not(eq(r, 0)), Not(eq(v, 1))), eq(annuity_payment(r, n, m, z, f), p)))


@lemma
def rate_inverse(L, c):
    r, m = L.real('r', 'm')
    L.assume(m > 0, r > -1, r / m > -1)
    L.show('nominal -> effective -> nominal', eq(eff_nom(nom_eff(r, m), m), r))
    L.show('effective -> nominal -> effective', eq(nom_eff(eff_nom(r, m), m), r))
    L.show('exponential -> effective -> exponential', eq(Ln(one + (Exp(r) - 1)), r))
    L.show('effective -> exponential -> effective', eq(Exp(Ln(one + r)) - 1, r))
    L.show('nominal -> exponential -> nominal', eq(m * (Exp(m * Ln(one + r / m) / m) - 1), r))
    L.show('exponential -> nominal -> exponential', eq(m * Ln(one + m * (Exp(r / m) - 1) / m), r))
    L.show('nominal -> exponential = nominal -> effective -> exponential', eq(m * Ln(one + r / m), Ln(one + nom_eff(r, m))))


@lemma
def npv_shift(L, c):
    r, t0 = L.real('r', 't0')
    n = L.int('n')
    L.assume(r > -1, n >= 0)
    k = fresh('k', I)
    cf, tm = App('l.cf', (k,), R), App('l.tm', (k,), R)
    a = Sum(n, k, cf / growth(r, tm - t0))
    b = Sum(n, k, cf / growth(r, tm))
    L.show('value at t0 = value at zero grown over t0', eq(a, b * growth(r, t0)))
    L.show('at a zero rate the value is the plain sum', eq(Sum(n, k, cf / growth(RealC(0), tm)), Sum(n, k, cf)))


@lemma
def bond_at_par(L, c):
    par, cp, f, n = L.real('par', 'cp', 'f', 'n')
    L.assume(f > 0, cp / f > -1, n > 0)
    L.show('a bond yields its coupon at par', eq(bond_price(par, cp, f, n, cp), par))


@lemma
def frn_at_par(L, c):
    par, q, f, n, i = L.real('par', 'q', 'f', 'n', 'i')
    L.assume(f > 0, (i + q) / f > -1, n > 0)
    L.show('a note whose margin is the quoted one is worth par', eq(frn_price(par, q, f, n, i, q), par))
    m = L.real('m')
    L.assume((i + m) / f > -1)
    L.show('a note is a bond paying index plus quoted margin', eq(frn_price(par, q, f, n, i, m), bond_price(par, q + i, f, n, i + m)))


@lemma
def forward_no_arbitrage(L, c):
    a, b, f, s, t = L.real('a', 'b', 'f', 's', 't')
    L.assume(f > 0, t > 0, a / f > -1, b / f > -1)
    ratio = growth(a / f, (s + t) * f) / growth(b / f, s * f)
    fr = f * (ratio ** (one / (t * f)) - 1)
    L.show('investing to the start and then forward = investing to the end',
           eq(growth(b / f, s * f) * growth(fr / f, t * f), growth(a / f, (s + t) * f)))


@lemma
def double_entry_balances(L, c):
    """assets - liabilities - equity is the same after any transaction"""
    from .stmts import posted, SIGN, BS, R0
    m = L.make('BsMap', 'm')
    d, k = L.make('BsType', 'd'), L.make('BsType', 'k')
    v = L.real('v')
    names = [n for n, _ in c.eng.types.enums['BsType']]
    inp = lambda x: Or(*[eq(x.d, IntC(names.index(n))) for n in SIGN])
    L.assume(inp(d), inp(k))
    m2 = posted(c, posted(c, m, d, v), k, -v)

    def net(m):
        return Add(R0, *[Scale(s, stmts.val(c, m, 'BsType', n)) for n, s in sorted(SIGN.items())])
    for n in sorted(SIGN):
        L.show('net position unchanged when %s is debited' % n, Implies(eq(d.d, IntC(names.index(n))), eq(net(m2), net(m))))


TRUSTED = [
    'rustc: the MIR printed by `cargo rustc --emit=mir` (mir-opt-level 0) is the program that is compiled',
    'mirver: MIR parser, symbolic executor, loop summariser, normaliser (the verification-condition generator written for this task)',
    'z3 4.x through the python binding; the algebraic normaliser decides identities over powers, exponentials and sums itself',
    'mirver/models.py: contracts assumed for std (Vec, HashMap, BTreeMap, BTreeSet, Option, iterators, f64 functions) and chrono (calendar)',
]
ASSUMPTIONS = [
    'f64 arithmetic is treated as exact real arithmetic (rounding, overflow to infinity and NaN are outside the proofs); the compiled code is '
    'compared with the contracts on sampled inputs, with running error bounds, on every run',
    'termination is not proved; a call that does not return within 20 s in the sampled runs is reported',
    'allocation never fails; collections have fewer than 2^59 elements',
]
ASSUME = {}


def P(title, contracts, lemmas=(), assumptions=()):
    return {'title': title, 'contracts': list(contracts), 'lemmas': list(lemmas), 'assumptions': list(assumptions)}


def three(*ms):
    return ['%s::%s' % (t, m) for t in ('BsMap', 'PlMap', 'CfMap') for m in ms]


PROPS = {
    'C01': P('Day-count conventions', ['yearfrac', 'yrfrac']),
    'C02': P('Calendar arithmetic', ['is_leap_year', 'days_in_year', 'date_to_float', 'date_from_float', 'date_roundtrip']),
    'C03': P('Present and future value', ['pv', 'fv', 'pvm', 'fvm', 'pvc', 'fvc', 'xpv', 'xfv', 'dis_fact', 'dis_fact_annual', 'xdis_fact', 'fwd_dis_fact'],
             ['pv_fv_inverse', 'discount_splits']),
    'C04': P('Annuities', ['pv_annuity', 'pmt'], ['annuity_inverse']),
    'C05': P('Rate conversions', ['nom_eff_rate', 'eff_nom_rate', 'exp_eff_rate', 'eff_exp_rate', 'nom_exp_rate', 'exp_nom_rate'], ['rate_inverse']),
    'C06': P('Net present value', ['npv_t0', 'npv', 'xnpv'], ['npv_shift']),
    'C07': P('Root search and IRR', ['newt_raph', 'irr', 'xirr', 'is_zero']),
    'C08': P('Coupon bond price and yield', ['CouponBond::price', 'CouponBond::ytm'], ['bond_at_par']),
    'C09': P('Coupon bond cash flows', ['CouponBond::generate_cashflow', 'CouponBond::price_ratecurve', 'CouponBond::accrued_interest',
                                        'CouponBond::pv_full', 'CouponBond::pv_flat']),
    'C10': P('Floating rate notes', ['FloatingRateNotes::price', 'FloatingRateNotes::discount_margin'], ['frn_at_par']),
    'C11': P('Rate curve lookup', ['RateCurve::rate_estim', 'RateCurve::pv', 'Rates::rate_estim']),
    'C12': P('Rate curve conversion', ['RateCurve::to_nominal', 'RateCurve::to_effective', 'RateCurve::to_exponential'], ['rate_inverse']),
    'C13': P('Par, spot and forward rates', ['Rates::to_par', 'Rates::to_spot', 'Rates::forward_rate'], ['forward_no_arbitrage']),
    'C14': P('Money market yields and time-weighted return', ['t_bill_r', 't_bill_d', 'holding_per_yield', 'eff_ann_yield', 'money_mkt_yield', 'twrr_n', 'twrr']),
    'C15': P('Comparison', ['approx', 'is_zero']),
    'C16': P('Calculated lines', three('calc_elements') + ['Accounts::calc_elements', 'FinancialReport::calc_elements']),
    'C17': P('Clean-up and common size', three('remove_calc_clean', 'clean', 'common_size') + ['Accounts::remove_calc_clean']),
    'C18': P('Entering lines', ['BsType::is_calc', 'PlType::is_calc', 'CfType::is_calc'] + three('add', 'upsert', 'add_vec', 'upsert_vec', 'value') +
             ['Accounts::%s_%s' % (a, b) for a in ('get', 'put') for b in ('balance_sheet', 'profit_loss', 'cash_flow')]),
    'C19': P('Double entry', ['BsMap::debit', 'BsMapTrait::credit', 'BsMapTrait::transact', 'BsMapTrait::transact_series'], ['double_entry_balances']),
    'C20': P('Derived cash flow', ['calc_cash_flow', 'depreciation_tax_adjust', 'FinancialReport::calc_elements', 'Accounts::calc_cash_flow']),
    'C21': P('Tax', ['Accounts::calc_tax', 'Accounts::set_tax_rates']),
    'C22': P('Reports and statements', ['FinancialReport::to_statements', 'FinancialReport::from_statements', 'FinancialReport::balance_sheet_beg',
                                        'FinancialReport::balance_sheet_end', 'FinancialReport::profit_loss', 'FinancialReport::cash_flow',
                                        'FinancialReport::fin_others', 'Accounts::get_account', 'Accounts::to_financial_reports']),
    'C23': P('Dates and periods', ['Accounts::valid_date', 'Accounts::set_dates_from_profit_loss', 'check_dates', 'Accounts::check_dates', 'Accounts::split_periods']),
    'C24': P('Consecutive periods', ['consecutive_periods', 'Accounts::from_periods', 'Accounts::consecutive_cash_flow', 'Accounts::consecutive_profit_loss']),
    'C30': P('Saved data', ['serde ' + t for t in stmts.SAVED], assumptions=[
        'serde data model: a deserialiser hands back by name the entries the serialiser was given, a leaf of a std or chrono type unchanged; formats: RON, whose maps have keys of any kind, and JSON, whose keys are text, for every type without a map by period',
        'numbers are read back to the precision of the parser']),
    'C31': P('Tables', ['Accounts::format_table', 'Accounts::to_csv', 'Accounts::fmt']),
}
