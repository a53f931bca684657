"""Contracts of the account-statement functions."""
from mirver.terms import *
from mirver.values import *
from mirver import models as M, text as tx, serdes
from mirver.models import Year, Month, Day, Ymd, leap, dim, opt, NONE, some
from mirver.vc import Contract, SELF

C = {}
DUST = RealC('1e-5')
R0 = RealC(0)

# ---------------------------------------------------------------- chart of accounts
# calculated line = sum of additions - sum of deductions, in order of evaluation
BS = [
    ('Inventories', 'RawMaterials WorkInProgress FinishedGoods', ''),
    ('CurrentAssets', 'Cash CurrentReceivables CurrentLoans CurrentAdvances OtherCurrentAssets CurrentInvestments Inventories', ''),
    ('NetPlantPropertyEquipment', 'PlantPropertyEquipment', 'AccumulatedDepreciation'),
    ('NetLeaseRentalAssets', 'LeasingRentalAssets', 'AccumulatedAmortizationLease'),
    ('NetIntangibleAssets', 'IntangibleAssets IntangibleAssetsDevelopment', 'AccumulatedAmortization'),
    ('LongTermAssets', 'AccountReceivables LongTermLoanAssets LongTermAdvances LongTermInvestments OtherLongTermAssets '
     'NetPlantPropertyEquipment NetLeaseRentalAssets Goodwill CapitalWip OtherTangibleAssets NetIntangibleAssets', ''),
    ('Assets', 'CurrentAssets LongTermAssets', ''),
    ('CurrentLiabilities', 'CurrentPayables CurrentBorrowings CurrentNotesPayable OtherCurrentLiabilities InterestPayable '
     'CurrentProvisions CurrentTaxPayables LiabilitiesSaleAssets CurrentLeasesLiability', ''),
    ('LongTermLiabilities', 'AccountPayables LongTermBorrowings BondsPayable DeferredTaxLiabilities LongTermLeasesLiability '
     'DeferredCompensation DeferredRevenues CustomerDeposits OtherLongTermLiabilities PensionProvision TaxProvision LongTermProvision', ''),
    ('Liabilities', 'CurrentLiabilities LongTermLiabilities', ''),
    ('Equity', 'CommonStock PreferredStock PdInCapAbovePar PdInCapTreasuryStock RevaluationReserves Reserves RetainedEarnings '
     'AccumulatedOCI MinorityInterests', ''),
    ('BalanceSheetCheck', 'Assets', 'Liabilities Equity'),
]
PL = [
    ('Revenue', 'OperatingRevenue NonOperatingRevenue', 'ExciseStaxLevy'),
    ('COGS', 'CostMaterial DirectExpenses', ''),
    ('GrossProfit', 'Revenue', 'COGS'),
    ('EBITDA', 'GrossProfit OtherIncome', 'Salaries AdministrativeExpenses ResearchNDevelopment OtherOverheads '
     'OtherOperativeExpenses OtherExpenses ExceptionalItems'),
    ('EBITX', 'EBITDA', 'Depreciation AssetImpairment LossDivestitures Amortization'),
    ('EBTX', 'EBITX InterestRevenue OtherFinancialRevenue', 'InterestExpense CostDebt'),
    ('EBT', 'EBTX', 'ExtraordinaryItems PriorYears'),
    ('EAT', 'EBT', 'TaxesCurrent TaxesDeferred'),
    ('NetIncome', 'EAT NetIncomeDiscontinuedOps', ''),
    ('ContributionRetainedEarnings', 'NetIncome', 'Dividends'),
    ('GainsLossesSales', 'SalesAmountPPE SalesAmountLeaseRentalAssets SalesAmountIntangibleAssets AccAmortSalesPPE '
     'AccAmortSalesLeaseRental AccAmortSalesIntangible', 'GrossSalesPPE GrossSalesLeaseRentalAssets GrossSalesIntangibleAssets'),
    ('OtherComprehensiveIncome', 'GainsLossesForex GainsLossesActurial GainsLossesSales FvChangeAvlSale', 'OtherDeferredTaxes'),
    ('TotalComprehensiveIncome', 'NetIncome OtherComprehensiveIncome', ''),
]
CF = [
    ('CashFlowOperations', 'ChangeCurrentLiabilities ChangeLongTermLiabilities ChangeProvisions ChangeRetainedEarnings '
     'AdjustmentsRetainedEarnings ChangeAccumulatedOci OtherCashFlowOperations', 'ChangeCurrentAssets ChangeLongTermAssets'),
    ('CashFlowInvestments', 'OtherCashFlowInvestments AdjustmentsSalesAssets ChangeReserves',
     'ChangePPE InvestmentsCapDevp InvestmentsLoans ChangeEquityAssets ChangeInvestments'),
    ('CashFlowFinancing', 'StockSalesAndPurchase ChangeDebt DonorContribution OtherCashFlowFinancing', 'CashFlowInterests CashFlowDividends'),
    ('NetCashFlow', 'CashFlowOperations CashFlowInvestments CashFlowFinancing', ''),
    ('FreeCashFlowEquity', 'CashFlowOperations ChangeDebt ChangeReserves AdjustmentsSalesAssets', 'CashFlowInterests ChangePPE'),
    ('CashFlowDebt', 'CashFlowInterests', 'ChangeDebt'),
    ('FreeCashFlowFirm', 'FreeCashFlowEquity CashFlowDebt', 'CashFlowTaxShield'),
]
# movements of balance-sheet lines feeding each cash-flow line
CFBS = [
    ('ChangeCurrentAssets', 'CurrentReceivables CurrentLoans CurrentAdvances OtherCurrentAssets CurrentInvestments RawMaterials '
     'WorkInProgress FinishedGoods', ''),
    ('ChangeLongTermAssets', 'AccountReceivables LongTermAdvances CapitalWip',
     'AccumulatedDepreciation AccumulatedAmortizationLease AccumulatedAmortization'),
    ('ChangeCurrentLiabilities', 'CurrentPayables CurrentBorrowings CurrentNotesPayable OtherCurrentLiabilities InterestPayable '
     'CurrentProvisions CurrentTaxPayables LiabilitiesSaleAssets CurrentLeasesLiability', ''),
    ('ChangeLongTermLiabilities', 'AccountPayables DeferredTaxLiabilities DeferredCompensation DeferredRevenues CustomerDeposits '
     'OtherLongTermLiabilities', ''),
    ('ChangeProvisions', 'PensionProvision TaxProvision LongTermProvision', ''),
    ('ChangeRetainedEarnings', 'RetainedEarnings', ''),
    ('ChangeAccumulatedOci', 'AccumulatedOCI', ''),
    ('ChangePPE', 'PlantPropertyEquipment LeasingRentalAssets', ''),
    ('ChangeReserves', 'RevaluationReserves Reserves', ''),
    ('InvestmentsCapDevp', 'IntangibleAssetsDevelopment', ''),
    ('InvestmentsLoans', 'LongTermLoanAssets', ''),
    ('ChangeEquityAssets', 'IntangibleAssets', ''),
    ('ChangeInvestments', 'LongTermInvestments Goodwill', ''),
    ('OtherCashFlowInvestments', '', 'OtherLongTermAssets OtherTangibleAssets'),
    ('StockSalesAndPurchase', 'CommonStock PreferredStock PdInCapAbovePar PdInCapTreasuryStock', ''),
    ('ChangeDebt', 'LongTermBorrowings BondsPayable LongTermLeasesLiability', ''),
    ('OtherCashFlowFinancing', 'MinorityInterests', ''),
]
CFPL = [
    ('CashFlowInterests', 'InterestExpense CostDebt', ''),
    ('CashFlowDividends', 'Dividends', ''),
    ('AdjustmentsRetainedEarnings', 'InterestExpense CostDebt Dividends AccAmortSalesPPE AccAmortSalesLeaseRental '
     'AccAmortSalesIntangible', 'GainsLossesSales'),
    ('AdjustmentsSalesAssets', 'GainsLossesSales', 'AccAmortSalesPPE AccAmortSalesLeaseRental AccAmortSalesIntangible'),
]
TABLE = {'BsType': BS, 'PlType': PL, 'CfType': CF}
CALC = {t: {r[0] for r in rows} for t, rows in TABLE.items()}
TYPES = {'BsMap': 'BsType', 'PlMap': 'PlType', 'CfMap': 'CfType'}
BASE = {'BsMap': 'Assets', 'PlMap': 'Revenue', 'CfMap': 'NetCashFlow'}


def contract(key, dom=None, **kw):
    def d(f):
        C[kw.get('name') or key] = Contract(key, f, dom, **kw)
        return f
    return d


def kidx(c, ety, name):
    return (IntC(c.tag(ety, name)),)


def val(c, m, ety, name):
    """value of a line, 0 when the line is absent"""
    p, v = deref(m).get(kidx(c, ety, name))
    return R0 if p is FALSE else Ite(p, deref(v), R0)


def has(c, m, ety, name):
    return deref(m).get(kidx(c, ety, name))[0]


def total(c, m, ety, plus, minus):
    return Sub(Add(R0, *[val(c, m, ety, n) for n in plus.split()]), Add(R0, *[val(c, m, ety, n) for n in minus.split()]))


def settle(c, m, ety, name, v):
    """a line is kept only when it is not dust"""
    return MPut(m, kidx(c, ety, name), Abs(v) > DUST, v)


def calculated(c, m, ety):
    for name, plus, minus in TABLE[ety]:
        m = settle(c, m, ety, name, total(c, m, ety, plus, minus))
    return m


def is_calc(c, ety, k):
    return Or(*[eq(k.d, IntC(c.tag(ety, n))) for n in sorted(CALC[ety])])


def calc_index(c, ety, i):
    return any(c.tag(ety, n) == i for n in CALC[ety])


def keyed(c, ety, f):
    """map given by f(i) -> (present, value) for each line i"""
    def g(key):
        i = key[0]
        if isc(i):
            return f(cv(i))
        n = len(c.eng.types.enums[ety])
        p, v = f(0)
        for j in range(1, n):
            q, w = f(j)
            e = eq(i, IntC(j))
            p, v = Ite(e, q, p), mergev(e, w, v)
        return p, v
    return MFun(c.kt(ety), g)


for _ty in ('BsType', 'PlType', 'CfType'):
    C[_ty + '::is_calc'] = Contract(_ty + '::is_calc', lambda c, k, t=_ty: is_calc(c, t, k), [_ty])


def _maps(mp):
    ety = TYPES[mp]

    @contract(mp + '::calc_elements', [mp])
    def calc(c, m):
        c.post(0, calculated(c, m, ety))
        return SELF

    @contract(mp + '::remove_calc_clean', [mp])
    def rcc(c, m):
        def f(i):
            p, v = m.get((IntC(i),))
            if calc_index(c, ety, i):
                return FALSE, VOpaque('absent')
            return And(p, Abs(v) > DUST), v
        c.post(0, keyed(c, ety, f))
        return SELF

    @contract(mp + '::clean', [mp])
    def clean(c, m):
        def f(i):
            p, v = m.get((IntC(i),))
            return And(p, Abs(v) > DUST), v
        c.post(0, keyed(c, ety, f))
        return SELF

    @contract(mp + '::common_size', [mp + 'base'])
    def common(c, m):
        base = BASE[mp]
        c.panics(Not(has(c, m, ety, base)))
        b = val(c, m, ety, base)
        c.requires(Implies(has(c, m, ety, base), Not(eq(b, 0))))

        def f(i):
            p, v = m.get((IntC(i),))
            return p, v / b
        return keyed(c, ety, f)

    @contract(mp + '::add', [mp, ety, 'amt'])
    def add(c, m, k, v):
        c.panics(is_calc(c, ety, k))

        def f(i):
            p, w = m.get((IntC(i),))
            e = eq(k.d, IntC(i))
            return Or(p, e), Ite(e, Ite(p, w, R0) + v, w)
        c.post(0, keyed(c, ety, f))
        return SELF

    @contract(mp + '::upsert', [mp, ety, 'amt'])
    def upsert(c, m, k, v):
        c.panics(is_calc(c, ety, k))

        def f(i):
            p, w = m.get((IntC(i),))
            e = eq(k.d, IntC(i))
            return Or(p, e), Ite(e, v, w)
        c.post(0, keyed(c, ety, f))
        return SELF

    @contract(mp + '::value', [mp, ety])
    def value(c, m, k):
        p, v = m.get((k.d,))
        return Ite(p, v, R0)


for _mp in TYPES:
    _maps(_mp)

# ---------------------------------------------------------------- double entry
# +1: a debit increases the line (assets and contra lines of the other side), -1: decreases
SIGN = {}


def _signs(name, s):
    for n, plus, minus in BS:
        if n == name:
            for x in plus.split():
                _signs(x, s)
            for x in minus.split():
                _signs(x, -s)
            return
    SIGN[name] = s


_signs('Assets', 1)
_signs('Liabilities', -1)
_signs('Equity', -1)


def posted(c, m, k, v):
    """ledger after debiting line k with v (a credit debits -v)"""
    def f(i):
        p, w = m.get((IntC(i),))
        nm = c.eng.types.enums['BsType'][i][0]
        if nm not in SIGN:
            return p, w
        e = eq(k.d, IntC(i))
        return Or(p, e), Ite(e, Ite(p, w, R0) + (v if SIGN[nm] > 0 else -v), w)
    return keyed(c, 'BsType', f)


SELFBS = {'Self': 'HashMap<statements::BsType, f64>'}


@contract('BsMap::debit', ['BsMap', 'BsType', 'amt'])
def debit(c, m, k, v):
    c.panics(is_calc(c, 'BsType', k))
    c.post(0, posted(c, m, k, v))
    return SELF


@contract('BsMapTrait::credit', ['BsMap', 'BsType', 'amt'], selfty=SELFBS)
def credit(c, m, k, v):
    c.panics(is_calc(c, 'BsType', k))
    c.post(0, posted(c, m, k, -v))
    return SELF


@contract('BsMapTrait::transact', ['BsMap', 'entry'], selfty=SELFBS)
def transact(c, m, t):
    d, k, v = [deref(x) for x in t.f]
    c.panics(Or(is_calc(c, 'BsType', d), is_calc(c, 'BsType', k)))
    c.post(0, posted(c, posted(c, m, d, v), k, -v))
    return SELF


@contract('BsMapTrait::transact_series', ['BsMap', 'entries'], selfty=SELFBS)
def transact_series(c, m, ts):
    j = fresh('j', I)
    ent = lambda j: [deref(x) for x in deref(ts.at(j)).f]
    c.panics(Any(ts.n, j, Or(is_calc(c, 'BsType', ent(j)[0]), is_calc(c, 'BsType', ent(j)[1]))))

    def f(i):
        p, w = m.get((IntC(i),))
        nm = c.eng.types.enums['BsType'][i][0]
        if nm not in SIGN:
            return p, w
        d, k, v = ent(j)
        hit = Or(eq(d.d, IntC(i)), eq(k.d, IntC(i)))
        move = Sum(ts.n, j, Ite(eq(d.d, IntC(i)), v, R0) - Ite(eq(k.d, IntC(i)), v, R0))
        return Or(p, Any(ts.n, j, hit)), Ite(p, w, R0) + (move if SIGN[nm] > 0 else -move)
    c.post(0, keyed(c, 'BsType', f))
    return SELF


# ---------------------------------------------------------------- add_vec / upsert_vec
def _vec(mp, dom):
    ety = TYPES[mp]
    sub = {'Self': 'HashMap<statements::%s, f64>' % ety, '<Self as statements::FinMaps>::Key': 'statements::' + ety}

    def ent(xs, j):
        return [deref(x) for x in deref(xs.at(j)).f]

    @contract('FinMaps::add_vec', [mp, dom], name=mp + '::add_vec', selfty=sub, modular=False)
    def add_vec(c, m, xs):
        j = fresh('j', I)
        c.panics(Any(xs.n, j, is_calc(c, ety, ent(xs, j)[0])))

        def f(i):
            p, w = m.get((IntC(i),))
            k, v = ent(xs, j)
            return Or(p, Any(xs.n, j, eq(k.d, IntC(i)))), Ite(p, w, R0) + Sum(xs.n, j, Ite(eq(k.d, IntC(i)), v, R0))
        c.post(0, keyed(c, ety, f))
        return SELF

    @contract('FinMaps::upsert_vec', [mp, dom], name=mp + '::upsert_vec', selfty=sub, modular=False)
    def upsert_vec(c, m, xs):
        """the last value given for a line wins; other lines are kept"""
        j = fresh('j', I)
        c.panics(Any(xs.n, j, is_calc(c, ety, ent(xs, j)[0])))

        def f(i):
            p, w = m.get((IntC(i),))
            hit = eq(ent(xs, j)[0].d, IntC(i))
            given = Any(xs.n, j, hit)
            return Or(p, given), Ite(given, ent(xs, LastIx(xs.n, j, hit))[1], w)
        c.post(0, keyed(c, ety, f))
        return SELF


_vec('BsMap', 'items')
_vec('PlMap', 'itemsPl')
_vec('CfMap', 'itemsCf')


# ---------------------------------------------------------------- derived cash flow
def dep_adjust(c, pl):
    return Ite(has(c, pl, 'PlType', 'TaxDepreciation'),
               val(c, pl, 'PlType', 'Depreciation') - val(c, pl, 'PlType', 'TaxDepreciation'), R0)


@contract('depreciation_tax_adjust', ['PlMap'])
def depreciation_tax_adjust(c, pl):
    return dep_adjust(c, pl)


def cash_flow(c, b0, b1, pl, ct, gt, rt):
    cf = MEmpty(c.kt('CfType'))
    for name, plus, minus in CFPL:
        cf = settle(c, cf, 'CfType', name, total(c, pl, 'PlType', plus, minus))
    for name, plus, minus in CFBS:
        cf = settle(c, cf, 'CfType', name, total(c, b1, 'BsType', plus, minus) - total(c, b0, 'BsType', plus, minus))
    i = val(c, cf, 'CfType', 'CashFlowInterests')
    tax = ct * (val(c, pl, 'PlType', 'EBT') + i + dep_adjust(c, pl)) + gt * val(c, pl, 'PlType', 'GrossProfit') \
        - rt * val(c, pl, 'PlType', 'Revenue')
    return MPut(cf, kidx(c, 'CfType', 'CashFlowTaxShield'), TRUE, Min(ct * i, Max(R0, tax)))


@contract('calc_cash_flow', ['BsMap', 'BsMap', 'PlMap', 'taxrate', 'taxrate', 'taxrate'])
def calc_cash_flow(c, b0, b1, pl, ct, gt, rt):
    return cash_flow(c, b0, b1, pl, ct, gt, rt)


def rates(c, oth):
    return [val(c, oth, 'FinOthersTyp', n) for n in ('CorporateTaxRate', 'GrossProfitTaxRate', 'RevenueTaxRate')]


def has_rates(c, oth):
    return And(*[has(c, oth, 'FinOthersTyp', n) for n in ('CorporateTaxRate', 'GrossProfitTaxRate', 'RevenueTaxRate')])


# ---------------------------------------------------------------- financial report
def present(o):
    return eq(o.d, IntC(1))


def opayload(o):
    return deref(o.p[1][0]) if 1 in o.p else None


def omap(o, f):
    """Option::map on values"""
    if 1 not in o.p:
        return NONE
    return VEnum('Option', o.d, {1: (f(deref(o.p[1][0])),)})


def dated(c, name, key, when, items):
    return omap(items, lambda m: c.struct(name, **{key: when, 'items': m}))


def stmt_parts(c, fr):
    pr = c.f(fr, 'period')
    d0, d1 = deref(pr).f
    return [dated(c, 'BalanceSheet', 'date', d0, c.f(fr, 'balance_sheet_beg')),
            dated(c, 'BalanceSheet', 'date', d1, c.f(fr, 'balance_sheet_end')),
            dated(c, 'ProfitLoss', 'period', pr, c.f(fr, 'profit_loss')),
            dated(c, 'CashFlow', 'period', pr, c.f(fr, 'cash_flow')),
            dated(c, 'FinOthers', 'period', pr, c.f(fr, 'others'))]


for _i, _n in enumerate(['balance_sheet_beg', 'balance_sheet_end', 'profit_loss', 'cash_flow', 'fin_others']):
    C['FinancialReport::' + _n] = Contract('FinancialReport::' + _n, lambda c, fr, i=_i: stmt_parts(c, fr)[i], ['report'])


@contract('FinancialReport::to_statements', ['report'])
def to_statements(c, fr):
    return VAgg('tuple', stmt_parts(c, fr))


@contract('FinancialReport::from_statements', ['obs0', 'obs1', 'opl', 'ocf', 'oft'])
def from_statements(c, b0, b1, pl, cf, ft):
    c.panics(Not(present(pl)))
    p = opayload(pl)
    pr = c.f(p, 'period')
    d0, d1 = deref(pr).f
    when = lambda o, k: c.f(opayload(o), k)
    samep = lambda o: And(*[eq(x, y) for x, y in zip(deref(when(o, 'period')).f, (d0, d1))])
    ok = And(Implies(present(b0), eq(when(b0, 'date'), d0)), Implies(present(b1), eq(when(b1, 'date'), d1)),
             Implies(present(cf), samep(cf)), Implies(present(ft), samep(ft)))
    items = lambda o: omap(o, lambda x: c.f(x, 'items'))
    return opt(ok, c.struct('FinancialReport', period=pr, balance_sheet_beg=items(b0), balance_sheet_end=items(b1),
                            profit_loss=some(c.f(p, 'items')), cash_flow=items(cf), others=items(ft)))


@contract('FinancialReport::calc_elements', ['report'], lim={'deadline': 120.0})
def fr_calc(c, fr):
    pl, b0, b1, oth = [c.f(fr, n) for n in ('profit_loss', 'balance_sheet_beg', 'balance_sheet_end', 'others')]
    both = And(present(b0), present(b1))
    c.panics(Or(Not(present(pl)), Not(present(oth)), And(both, Not(has_rates(c, opayload(oth))))))
    cpl = calculated(c, opayload(pl), 'PlType')
    cb = lambda o: calculated(c, opayload(o), 'BsType')
    ct, gt, rt = rates(c, opayload(oth))
    cf = calculated(c, cash_flow(c, cb(b0), cb(b1), cpl, ct, gt, rt), 'CfType')
    c.post(0, c.with_(fr, profit_loss=some(cpl), balance_sheet_beg=omap(b0, lambda m: calculated(c, m, 'BsType')),
                      balance_sheet_end=omap(b1, lambda m: calculated(c, m, 'BsType')), cash_flow=opt(both, cf)))
    return SELF


# ---------------------------------------------------------------- accounts
def mp(c, acc, name):
    return deref(c.f(acc, name))


def mapvals(m, f):
    """same keys, values through f"""
    def g(key):
        p, v = m.get(key)
        return p, (v if isinstance(v, VOpaque) else f(deref(v)))
    return MFun(m.kt, g)


@contract('Accounts::valid_date', ['accounts', 'adate'])
def valid_date(c, a, d):
    return mp(c, a, 'dates').get((d,))[0]


def some_period(m, f):
    """exists a period (x, y) of m with f(x, y)"""
    x, y = fresh('x', I), fresh('y', I)
    return ExistsS([x, y], And(m.get((x, y))[0], f(x, y)))


@contract('Accounts::set_dates_from_profit_loss', ['accounts'])
def set_dates(c, a):
    pl, dates = mp(c, a, 'profit_loss'), mp(c, a, 'dates')
    c.panics(some_period(pl, lambda x, y: x > y))

    def g(key):
        d, = key
        return Or(dates.get(key)[0], some_period(pl, lambda x, y: Or(eq(x, d), eq(y, d)))), UNIT
    c.post(0, c.with_(a, dates=MFun(dates.kt, g)))
    return SELF


def chained(ps, n):
    """every period runs forward and starts where the previous one ends"""
    k = fresh('k', I)
    at = lambda k: [deref(x) for x in deref(ps(k)).f]
    return And(All(n, k, at(k)[0] <= at(k)[1]), All(n - 1, k, eq(at(k + 1)[0], at(k)[1])))


@contract('check_dates', ['periods'], modular=False)
def check_dates(c, ps):
    c.requires(ps.n >= 1)
    return chained(ps.at, ps.n)


@contract('Accounts::split_periods', ['accounts'], modular=False)
def split_periods(c, a):
    pl = mp(c, a, 'profit_loss')
    x, y = fresh('x', I), fresh('y', I)
    c.requires(Not(some_period(pl, lambda x, y: x + 120 > M.DMAX)))
    long = MFun(pl.kt, lambda key: (And(pl.get(key)[0], key[1] > key[0] + 120), UNIT))
    short = MFun(pl.kt, lambda key: (And(pl.get(key)[0], key[1] <= key[0] + 120), UNIT))
    return VAgg('tuple', [long, short])


def over_accounts(c, a, f):
    return c.with_(a, balance_sheet=mapvals(mp(c, a, 'balance_sheet'), lambda m: f(m, 'BsType')),
                   profit_loss=mapvals(mp(c, a, 'profit_loss'), lambda m: f(m, 'PlType')),
                   cash_flow=mapvals(mp(c, a, 'cash_flow'), lambda m: f(m, 'CfType')))


@contract('Accounts::calc_elements', ['accounts'], lim={'deadline': 60.0})
def acc_calc(c, a):
    c.post(0, over_accounts(c, a, lambda m, e: calculated(c, m, e)))
    return SELF


def cleaned(c, m, ety):
    def f(i):
        p, v = m.get((IntC(i),))
        if calc_index(c, ety, i):
            return FALSE, VOpaque('absent')
        return And(p, Abs(v) > DUST), v
    return keyed(c, ety, f)


@contract('Accounts::remove_calc_clean', ['accounts'])
def acc_rcc(c, a):
    c.post(0, over_accounts(c, a, lambda m, e: cleaned(c, m, e)))
    return SELF


def account(c, a, d0, d1):
    bs, pl, cf, oth = [mp(c, a, n) for n in ('balance_sheet', 'profit_loss', 'cash_flow', 'others')]
    get = lambda m, k: opt(m.get(k)[0], m.get(k)[1])
    p, v = pl.get((d0, d1))
    return p, c.struct('FinancialReport', period=VAgg('tuple', [d0, d1]), balance_sheet_beg=get(bs, (d0,)),
                       balance_sheet_end=get(bs, (d1,)), profit_loss=some(v), cash_flow=get(cf, (d0, d1)), others=get(oth, (d0, d1)))


@contract('Accounts::get_account', ['accounts', 'adate', 'adate'])
def get_account(c, a, d0, d1):
    return opt(*account(c, a, d0, d1))


@contract('Accounts::calc_cash_flow', ['accounts'], lim={'deadline': 120.0})
def acc_cash_flow(c, a):
    bs, pl, cf, oth = [mp(c, a, n) for n in ('balance_sheet', 'profit_loss', 'cash_flow', 'others')]
    both = lambda x, y: And(bs.get((x,))[0], bs.get((y,))[0])
    c.panics(some_period(pl, lambda x, y: And(both(x, y), Or(Not(oth.get((x, y))[0]), Not(has_rates(c, oth.get((x, y))[1]))))))

    def g(key):
        x, y = key
        hit = And(pl.get(key)[0], both(x, y))
        ct, gt, rt = rates(c, oth.get(key)[1])
        new = calculated(c, cash_flow(c, bs.get((x,))[1], bs.get((y,))[1], pl.get(key)[1], ct, gt, rt), 'CfType')
        p, old = cf.get(key)
        return Or(hit, p), mergev(hit, new, old)
    c.post(0, c.with_(a, cash_flow=MFun(cf.kt, g)))
    return SELF


@contract('Accounts::calc_tax', ['accounts'], lim={'deadline': 120.0})
def calc_tax(c, a):
    oth = mp(c, a, 'others')
    a2 = over_accounts(c, a, lambda m, e: calculated(c, m, e))
    pl = mp(c, a2, 'profit_loss')
    c.panics(some_period(pl, lambda x, y: Not(oth.get((x, y))[0])))

    def g(key):
        p, m = pl.get(key)
        ct, gt, mt = rates(c, oth.get(key)[1])
        v = lambda n: val(c, m, 'PlType', n)
        tax = Max(ct * (v('EBT') + dep_adjust(c, m)) + gt * v('EBITDA'), mt * v('Revenue'))
        return p, MPut(m, kidx(c, 'PlType', 'TaxesCurrent'), TRUE, tax)
    c.post(0, c.with_(a2, profit_loss=MFun(pl.kt, g)))
    return SELF


@contract('Accounts::set_tax_rates', ['accounts', 'taxrate', 'taxrate', 'taxrate'])
def set_tax_rates(c, a, ct, gt, rt):
    pl, oth = mp(c, a, 'profit_loss'), mp(c, a, 'others')
    new = {'CorporateTaxRate': ct, 'GrossProfitTaxRate': gt, 'RevenueTaxRate': rt}

    def g(key):
        p, old = oth.get(key)
        hit = pl.get(key)[0]

        def f(i):
            nm = c.eng.types.enums['FinOthersTyp'][i][0]
            q, w = old.get((IntC(i),))
            if nm in new:
                return Or(hit, q), Ite(hit, new[nm], w)
            return And(p, q), w
        return Or(p, hit), keyed(c, 'FinOthersTyp', f)
    c.post(0, c.with_(a, others=MFun(oth.kt, g)))
    return SELF


def _acc(kind, fld, ety, dom):
    def key(d):
        d = deref(d)
        return (d,) if isinstance(d, T) else tuple(deref(x) for x in d.f)

    @contract('Accounts::get_' + fld, ['accounts', dom, ety])
    def get(c, a, d, k):
        p, m = mp(c, a, fld).get(key(d))
        c.panics(Not(p))
        q, v = m.get((k.d,))
        return Ite(q, v, R0)

    @contract('Accounts::put_' + fld, ['accounts', dom, ety, 'amt'])
    def put(c, a, d, k, v):
        M0 = mp(c, a, fld)
        p, m = M0.get(key(d))
        c.panics(Or(is_calc(c, ety, k), Not(p)))

        def f(i):
            q, w = m.get((IntC(i),))
            e = eq(k.d, IntC(i))
            return Or(q, e), Ite(e, v, w)
        c.post(0, c.with_(a, **{fld: MPut(M0, key(d), TRUE, keyed(c, ety, f))}))
        return SELF


_acc(0, 'balance_sheet', 'BsType', 'adate')
_acc(1, 'profit_loss', 'PlType', 'aperiod')
_acc(2, 'cash_flow', 'CfType', 'aperiod')


# ---------------------------------------------------------------- consecutive periods
def restricted(m, keys):
    """the entries of m at the given keys"""
    def g(key):
        p, v = m.get(key)
        return And(p, keys.get(key)[0]), v
    return MFun(m.kt, g)


def within(c, a, ps):
    """the accounts of the periods ps and of the dates they run between"""
    dates = mp(c, a, 'dates')

    def d(key):
        return some_period(ps, lambda x, y: Or(eq(x, key[0]), eq(y, key[0]))), UNIT
    ds = MFun(dates.kt, d)
    r = lambda n, k: restricted(mp(c, a, n), k)
    return c.with_(a, dates=ds, balance_sheet=r('balance_sheet', ds), profit_loss=r('profit_loss', ps),
                   cash_flow=r('cash_flow', ps), others=r('others', ps))


@contract('Accounts::from_periods', ['accounts', 'psub'])
def from_periods(c, a, ps):
    return within(c, a, deref(ps))


def step_back(x, day, months):
    """the day `day` of the month `months` before x, or the last day of that month"""
    y, m = Year(x), Month(x)
    y2 = Ite(m <= months, y - 1, y) if months < 12 else y - 1
    m2 = Ite(m <= months, m + (12 - months), m - months) if months < 12 else m
    return Ymd(y2, m2, Min(day, dim(y2, m2)))


def chain_back(c, ps, result):
    """the run of quarters or years that leads back from the latest end date"""
    first = Ymd(IntC(1000), IntC(1), IntC(1))

    def run(ret, T_, X):
        k = fresh('k', I)
        e = X(IntC(0))
        day = Day(e)
        q = lambda k: step_back(X(k), day, 3)
        yr = lambda k: step_back(X(k), day, 12)
        has = lambda s, e: ps.get((s, e))[0]
        qk, yk = (lambda k: has(q(k), X(k))), (lambda k: has(yr(k), X(k)))
        return And(
            # the latest end date
            e >= first, Not(some_period(ps, lambda x, y: y > e)), Or(eq(e, first), some_period(ps, lambda x, y: eq(y, e))),
            # each step goes back a quarter, or else a year
            T_ >= 0, T_ <= 100,
            All(T_, k, And(Or(qk(k), yk(k)), eq(X(k + 1), Ite(qk(k), q(k), yr(k))))),
            # until there is no such period
            Implies(T_ < 100, Not(Or(qk(T_), yk(T_)))))
    c.ensures_run('the run of periods back from the latest end date', I, run, result, first)


def chain_set(m, T_, X):
    """the periods of the run X of T_ steps"""
    def g(key):
        k = fresh('k', I)
        return Any(T_, k, And(eq(key[0], X(k + 1)), eq(key[1], X(k)))), UNIT
    return MFun(m.kt, g)


@contract('consecutive_periods', ['pset'], relational=True, concrete='consecutive', lim={'deadline': 180.0})
def consecutive_periods(c, ps):
    ps = deref(ps)
    chain_back(c, ps, lambda T_, X: chain_set(ps, T_, X))


def _consecutive(name, fld):
    @contract('Accounts::' + name, ['accounts'], relational=True, concrete='consecutive', modular=False)
    def f(c, a):
        m = mp(c, a, fld)
        chain_back(c, m, lambda T_, X: within(c, a, chain_set(m, T_, X)))


_consecutive('consecutive_cash_flow', 'cash_flow')
_consecutive('consecutive_profit_loss', 'profit_loss')


# ---------------------------------------------------------------- reports and order of the periods
@contract('Accounts::to_financial_reports', ['accounts'], modular=False)
def to_financial_reports(c, a):
    """one report per profit and loss period, in order"""
    e = M.enum_of(mp(c, a, 'profit_loss'))

    def report(j):
        x, y = e.K(j)
        return account(c, a, x, y)[1]
    return VSeq(e.N, report)


@contract('Accounts::check_dates', ['accounts'], modular=False)
def acc_check_dates(c, a):
    e = M.enum_of(mp(c, a, 'profit_loss'))
    c.requires(e.N >= 1)
    return chained(lambda j: VAgg('tuple', list(e.K(j))), e.N)


# ---------------------------------------------------------------- tables
def short_const(c, ety, name):
    return VEnum(ety, IntC(c.tag(ety, name)), {})


RATES = [('RevenueTaxRate', 'CorporateTaxRate GrossProfitTaxRate', '')]


def months(e, sep, i):
    """column headings: year and month of every key"""
    def el(j):
        d = e.K(j)[i]
        return tx.cat(sep, tx.lit('  '), tx.shown(Year(d), 'i32'), tx.lit('-'), tx.shown(Month(d), 'u32'))
    return tx.rep(e.N, el)


def table_row(c, m, cols, ety, name, mult, sep):
    """a line of a table: nothing when the line is empty in the whole book, otherwise its name and one amount per column"""
    i = kidx(c, ety, name)
    all_ = M.enum_of(m)
    q = fresh('q', I)

    def amount(key):
        p, w = deref(m.get(key)[1]).get(i)
        return R0 if p is FALSE else Ite(p, w, R0)
    shown = Sum(all_.N, q, Abs(amount(all_.K(q)))) > RealC('1e-4')

    def cell(j):
        key = cols.K(j)
        v = amount(key)
        pct = tx.cat(tx.shown(v * 100, 'f64', 1), tx.lit('%'))
        return tx.cat(sep, tx.cond(m.get(key)[0], tx.cond(And(v < 1, v > RealC('1e-4')), pct, tx.shown(v / mult, 'f64', 0))))
    row = tx.cat(tx.shown(short_const(c, ety, name), ety), tx.rep(cols.N, cell), tx.lit('\n'))
    return tx.cond(shown, row)


def table_rows(c, m, cols, ety, rows, mult, sep):
    return tx.cat(*[table_row(c, m, cols, ety, n, mult, sep) for name, plus, minus in rows for n in plus.split() + minus.split() + [name]])


def table(c, a, sep, mult):
    L = tx.lit
    bs, pl, cf, oth = (mp(c, a, n) for n in ('balance_sheet', 'profit_loss', 'cash_flow', 'others'))
    long = MFun(pl.kt, lambda key: (And(pl.get(key)[0], key[1] > key[0] + 120), UNIT))
    short = MFun(pl.kt, lambda key: (And(pl.get(key)[0], key[1] <= key[0] + 120), UNIT))

    def periods(s):
        e = M.enum_of(s)
        heads = tx.cat(L('Begin Date'), months(e, sep, 0), L('\nEnd Date'), months(e, sep, 1), L('\n'))
        k = ' - ANNUAL\n' if s is long else ' - QUARTERLY\n'
        return tx.cat(L('PROFIT LOSS' + k), heads, table_rows(c, pl, e, 'PlType', PL, mult, sep),
                      table_rows(c, oth, e, 'FinOthersTyp', RATES, RealC(1), sep),
                      L('CASH FLOW' + k), heads, table_rows(c, cf, e, 'CfType', CF, mult, sep))
    eb = M.enum_of(bs)
    x, y = fresh('x', I), fresh('y', I)
    quarterly = ExistsS([x, y], short.get((x, y))[0])
    return tx.cat(L('All values in multiples of'), sep, tx.shown(c.f(a, 'currency'), 'Currency'), sep, tx.shown(mult, 'f64'), L('\n'),
                  L('BALANCE SHEETS\nDate'), months(eb, sep, 0), L('\n'), table_rows(c, bs, eb, 'BsType', BS, mult, sep),
                  periods(long), tx.cond(quarterly, periods(short)))


@contract('Accounts::format_table', ['tableaccounts', 'sep', 'mult'], lim={'deadline': 120.0})
def format_table(c, a, sep, mult):
    pl = mp(c, a, 'profit_loss')
    c.requires(Not(some_period(pl, lambda x, y: x + 120 > M.DMAX)), Not(eq(mult, R0)))
    return table(c, a, sep, mult)


@contract('Accounts::to_csv', ['tableaccounts', 'file'], concrete='file', modular=False)
def to_csv(c, a, file):
    pl = mp(c, a, 'profit_loss')
    c.requires(Not(some_period(pl, lambda x, y: x + 120 > M.DMAX)))
    c.panics(M.IO_FAILED)
    c.writes(file, table(c, a, tx.lit(','), RealC(1)))
    return UNIT


@contract('Accounts::fmt', ['tableaccounts'], concrete='shown', modular=False, inputs=['Accounts'], build=lambda a: [VShared(a), VText(())])
def fmt(c, a):
    # the table, whatever multiplier is chosen; the multiplier is printed in its heading
    pl = mp(c, a, 'profit_loss')
    c.requires(Not(some_period(pl, lambda x, y: x + 120 > M.DMAX)))
    c.prints('Accounts::format_table', lambda b, sep, mult: table(c, a, tx.lit('|'), mult))
    return VEnum('Result', IntC(0), {0: (UNIT,)})


# ---------------------------------------------------------------- saved data
def saved(T):
    @contract('serde ' + T, ['saved ' + T], modular=False, inputs=[T], build=lambda v: [v], serde=T)
    def roundtrip(c, v):
        return v


SAVED = ['BsType', 'PlType', 'CfType', 'FinOthersTyp', 'BalanceSheetEntry', 'Currency', 'Industry', 'Param', 'BalanceSheet', 'ProfitLoss',
         'CashFlow', 'FinOthers', 'FinancialReport', 'Accounts', 'CompanyReports', 'ValuationModel']
serdes.TYPES[:] = SAVED
for t_ in SAVED:
    saved(t_)
