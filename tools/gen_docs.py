#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
L, S, B, R, M = 'src/lib.rs', 'src/statements.rs', 'src/fixedincomes/bonds.rs', 'src/fixedincomes/bonds/rates.rs', 'src/fixedincomes/moneymarkets.rs'

PROPS = []


def P(id, title, statement, over, why, mech):
    files = sorted({w.split(':')[0] for _, w in mech})
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': ['inputs'], 'text': over}, 'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


P('C01', 'Year fractions follow the five day-count conventions',
  'For any two dates the year fraction under US 30/360, European 30/360, actual/actual, actual/360 and actual/365 is the value the convention defines, '
  'including the end-of-February and 31st-of-month rules of the two 30/360 conventions. '
  'It is signed: dates in reverse order give the value the same formula defines for them. The default year fraction is the US 30/360 one.',
  'every pair of calendar dates and every convention', 'The tests sample seven date pairs; month ends, leap years and reversed pairs interact in far more combinations.',
  [('yearfrac', L + ':93'), ('yrfrac', L + ':133'), ('date_to_float', L + ':46')])
P('C02', 'Leap years and the conversion between dates and decimal years',
  'Leap years and year lengths follow the Gregorian rule for every year. A date converted to a decimal year is the year plus the elapsed share of that year\'s days, '
  'and a decimal year converts to the day of that year which its fraction reaches, never failing inside the calendar\'s range; '
  'a date converted to a decimal year and back is the same date.',
  'every year, every date and every decimal year in the calendar range', 'The tests convert a handful of dates; rounding at year boundaries and leap years decides the rest.',
  [('is_leap_year', L + ':32'), ('days_in_year', L + ':39'), ('date_to_float', L + ':46'), ('date_from_float', L + ':54')])
P('C03', 'Present and future value are inverse discounting operations',
  'Present and future value under annual, m-times-a-year and continuous compounding equal amount divided or multiplied by (1+r)^n, (1+r/m)^(n*m) and e^(r*n), and undo each other. '
  'Discount factors, dated values and forward discount factors are the same function of the rate and the year fraction. '
  'Discounting over a+b equals discounting over a and then over b.',
  'all rates above -100% (per compounding period), times, frequencies and amounts', 'Tests check one value per function; the identities are over a continuum of rates, times and signs.',
  [('pv', L + ':188'), ('fv', L + ':225'), ('pvm', L + ':207'), ('fvm', L + ':244'), ('pvc', L + ':216'), ('fvc', L + ':253'), ('xpv', L + ':197'), ('xfv', L + ':234'),
   ('dis_fact', L + ':160'), ('fwd_dis_fact', L + ':179')])
P('C04', 'Annuity value and payment agree, including at a zero rate',
  'The present value of an annuity is minus the discounted sum of its level payments and final amount, and the payment function returns the payment for which the annuity has the given value. '
  'At a zero rate the value is minus the plain sum of payments and the final amount, and never undefined.',
  'all rates above -100% per period including zero, terms, frequencies, payments and final values', 'The tests use a few non-zero rates; the zero-rate limit and the inverse relation need all rates.',
  [('pv_annuity', L + ':263'), ('pmt', L + ':277')])
P('C05', 'Nominal, effective and exponential rates convert consistently',
  'The six conversions between nominal (m periods a year), effective and exponential rates are those that leave one year\'s growth unchanged. '
  'Converting to another kind and back returns the starting rate, and converting through a third kind gives the same result as converting directly.',
  'all admissible rates and compounding frequencies', 'Tests check one point per conversion.',
  [('nom_eff_rate', L + ':289'), ('eff_nom_rate', L + ':297'), ('exp_eff_rate', L + ':304'), ('eff_exp_rate', L + ':311'), ('nom_exp_rate', L + ':319'), ('exp_nom_rate', L + ':327')])
P('C06', 'Net present value is the discounted sum of the cash flows',
  'The net present value of cash flows at given times is the sum of each flow divided by (1+r) to its time, over the flows that have a time. '
  'Valued at another time it is that sum grown from time zero to it, and for dated flows the times are the year fractions from the valuation date.',
  'all rates above -100%, and vectors of times, dates and flows of every length, including vectors of different lengths and empty ones',
  'Tests use vectors of fixed small length; the sum is over vectors of any length.',
  [('npv_t0', L + ':352'), ('npv', L + ':363'), ('xnpv', L + ':373')])
P('C07', 'A root search reports a rate only when Newton\'s iteration converged',
  'The root search follows Newton\'s iteration from the start value with a forward difference of a tenth of the tolerance, gives up on a flat slope or after 100 steps, and otherwise reports the point at which a step of less than 1e-8 was taken. '
  'The internal rate of return is this search applied to the net present value from a guess of 10%; with dated flows the times are year fractions from the first date. '
  'When no rate is found the result is none, not a number.',
  'all functions, starting points, tolerances and cash-flow vectors', 'Tests look at three converging series; non-convergence, flat slopes and longer series are not reached.',
  [('newt_raph', L + ':393'), ('irr', L + ':381'), ('xirr', L + ':389'), ('is_zero', L + ':343')])
P('C08', 'A coupon bond\'s price is its discounted coupons and par, and yield inverts it',
  'The price of a coupon bond at a nominal yield is the value of its level coupons plus its discounted par value. '
  'The yield for a price is the root of price minus that target searched from 5%. A bond discounted at its coupon rate is worth par.',
  'all par values, coupons, frequencies, lives, yields and prices', 'Tests price a few bonds.',
  [('CouponBond::price', B + ':40'), ('CouponBond::ytm', B + ':55')])
P('C09', 'A coupon bond\'s cash flows, curve price and price between coupon dates',
  'The generated cash flows are one level coupon per period for the whole life with par added to the last, and the price on a rate curve is the sum of those flows each discounted at its own time. '
  'Accrued interest is proportional to elapsed time; the full price grows the last price over it at the yield and the flat price is full less accrued.',
  'all bonds with at least one coupon period, yields, curves of every length and elapsed times', 'Tests use a few bonds with short lives; floating-point period counts and long lives are not reached.',
  [('generate_cashflow', B + ':75'), ('price_ratecurve', B + ':64'), ('accrued_interest', B + ':88'), ('pv_full', B + ':95'), ('pv_flat', B + ':102')])
P('C10', 'A floating rate note is priced by its margins and the discount margin inverts it',
  'A floating rate note is worth its payments of index plus quoted margin and its par value, all discounted at index plus discount margin. '
  'The discount margin for a price is the root of price minus that target searched from 0.5%. A note whose discount margin equals the quoted margin is worth par.',
  'all notes, index rates, margins and prices', 'Tests price one note.',
  [('FloatingRateNotes::price', B + ':130'), ('FloatingRateNotes::discount_margin', B + ':151')])
P('C11', 'Rates on a curve are interpolated linearly between its grid points',
  'The rate at a time on a curve is the grid rate when the time falls on a grid point and otherwise the linear interpolation between the two neighbouring grid rates. '
  'A cash flow is discounted with the curve\'s rate for its time under the curve\'s own compounding: nominal, effective or exponential.',
  'every curve kind, length and frequency, every time within the curve, every cash flow', 'Tests look up a few points on one four-point curve.',
  [('RateCurve::rate_estim', R + ':42'), ('RateCurve::pv', R + ':69'), ('Rates::rate_estim', R + ':217')])
P('C12', 'Rate curves convert point by point and keep length and frequency',
  'Converting a curve to nominal, effective or exponential rates converts every one of its rates at the curve\'s frequency, and keeps the number of rates and the frequency. '
  'A curve already of the wanted kind is unchanged.',
  'every curve kind, frequency and length', 'Tests convert one curve of four points.',
  [('to_nominal', R + ':81'), ('to_effective', R + ':104'), ('to_exponential', R + ':124')])
P('C13', 'Par, spot and forward rates price bonds without arbitrage',
  'The par rate for each maturity is the coupon at which a bond discounted at the spot rates is worth par, and bootstrapping spot rates from par rates solves the same equation maturity by maturity. '
  'A forward rate makes investing to the start and then forward equal to investing to the end.',
  'spot and par curves of every length and frequency; every forward start and tenor within the curve', 'Tests bootstrap one curve of a few points.',
  [('to_spot', R + ':158'), ('to_par', R + ':185'), ('forward_rate', R + ':231')])
P('C14', 'Money-market yields and the time-weighted return',
  'Treasury-bill discount rate and discount amount, holding period, effective annual and money-market yields are their textbook formulas (360-day year for bill and money-market yields, 365 for the effective annual yield). '
  'The time-weighted return is the geometric mean, over the number of periods, of the ratio of each closing value to the preceding value plus its inflow.',
  'all prices, incomes, day counts and valuation vectors of every length', 'Tests check one value of each.',
  [('t_bill_r', M + ':13'), ('t_bill_d', M + ':17'), ('holding_per_yield', M + ':21'), ('eff_ann_yield', M + ':25'), ('money_mkt_yield', M + ':29'), ('twrr_n', M + ':33'), ('twrr', M + ':41')])
P('C15', 'Approximate comparison of numbers',
  'Two numbers are approximately equal exactly when both are below 1e-8 in size or they differ by less than 1e-6 of the larger size; this is symmetric. '
  'A number counts as zero exactly when its size is below 1e-8.',
  'all pairs of numbers, of either sign', 'Tests check a few pairs, mostly of the same sign.',
  [('approx', L + ':335'), ('is_zero', L + ':343')])
P('C16', 'Calculated lines of a statement are the totals of the lines that make them up',
  'After calculation each subtotal and total of a balance sheet, profit and loss or cash-flow statement equals the sum of its additive lines less the sum of its subtractive lines, in dependency order, whatever was stored there before. '
  'A total of at most 1e-5 in size is dropped, entered lines are unchanged, and on an account book this is done to every statement of the three kinds for every date and period.',
  'every map of entered and stale calculated lines, and books with any number of statements', 'Tests calculate two filled statements; each line\'s presence, sign and position in the hierarchy matters.',
  [('calc_elements', S + ':823'), ('calc_elem', S + ':807'), ('finmap_add', S + ':812'), ('BALANCE_SHEET_MAP', S + ':240'), ('Accounts::calc_elements', S + ':1429')])
P('C17', 'Cleaning removes negligible and calculated lines; common size rescales',
  'Cleaning a statement removes exactly the lines of at most 1e-5 in size; removing calculated lines removes those and every calculated line; all other lines keep their values. '
  'The common-size statement divides every line by total assets, revenue or net cash flow and keeps the set of lines. On an account book the removal is done to every statement.',
  'every statement content and books of any size', 'Tests clean one sample.',
  [('remove_calc_clean', S + ':830'), ('clean', S + ':845'), ('common_size', S + ':840'), ('Accounts::remove_calc_clean', S + ':1416')])
P('C18', 'Entering and reading statement lines',
  'Adding to a line increases its value (from zero if absent) and setting a line replaces it; no other line changes; a series of entries acts one after the other. '
  'Entering a calculated line fails and leaves it out; reading an absent line gives zero. In an account book reading an absent statement and writing to an absent one fail, and writing changes one line of one statement only.',
  'every line, amount, series of entries of any length and prior content', 'Tests enter a few fixed series.',
  [('add', S + ':850'), ('upsert', S + ':859'), ('add_vec', S + ':788'), ('upsert_vec', S + ':796'), ('value', S + ':868'), ('is_calc', S + ':733'),
   ('get_balance_sheet', S + ':1766'), ('put_balance_sheet', S + ':1778')])
P('C19', 'Double entry keeps the balance sheet balanced',
  'A debit increases asset, liability-contra and equity-contra lines and decreases the others by the amount; a credit is the opposite debit; a transaction debits one line and credits another by the same amount. '
  'Assets less liabilities less equity is therefore the same before and after any transaction, and a series applies every transaction in order.',
  'every pair of lines, amount, prior content, and series of transactions of any length', 'Tests book one series of transactions.',
  [('debit', S + ':874'), ('credit', S + ':889'), ('transact', S + ':894'), ('transact_series', S + ':899'), ('DEBIT_TYPE', S + ':640')])
P('C20', 'The cash-flow statement derived from two balance sheets and a profit and loss',
  'Each line of the derived cash-flow statement is the profit-and-loss amount or the balance-sheet change that defines it, with the sign of its effect on cash, and the tax shield is the corporate rate on interest, kept between zero and the tax that interest can save. '
  'For a report, and for an account book in each period with balance sheets at both ends, this statement with its totals replaces the stored one; other periods keep theirs.',
  'all opening and closing balance sheets, profit and loss statements, tax rates, and books with any set of dates and periods', 'The tests derive one cash flow; each of some forty lines can be present or absent.',
  [('calc_cash_flow', S + ':977'), ('depreciation_tax_adjust', S + ':960'), ('FinancialReport::calc_elements', S + ':1178'), ('Accounts::calc_cash_flow', S + ':1464')])
P('C21', 'Tax is the larger of the ordinary and the minimum tax',
  'For every period, current tax is the larger of the corporate rate on profit before tax adjusted for depreciation plus the gross-profit rate on EBITDA, and the revenue rate on revenue, computed from recalculated statements, a missing rate counting as zero. '
  'Setting tax rates stores the three given rates for every profit-and-loss period, keeps other parameters, and only those.',
  'books with any periods, contents and rates', 'Tests compute tax for one sample book.',
  [('Accounts::calc_tax', S + ':1707'), ('set_tax_rates', S + ':1736')])
P('C22', 'Statements, reports and account books convert without losing or mixing data',
  'A report split into statements gives each statement its own content with the report\'s start date, end date or period, and absent statements stay absent. '
  'A report is assembled from statements exactly when their dates agree with the profit and loss period, and carries each content in its place. An account book gives for a period the content stored for its start, its end and the period, or nothing without a profit and loss; the list of its reports has one such report for every profit and loss period, in order.',
  'all reports, combinations of present statements, dates and books', 'Tests round-trip one full report; mixed presence and disagreeing dates are not reached.',
  [('to_statements', S + ':1109'), ('from_statements', S + ':1127'), ('get_account', S + ':1442'), ('balance_sheet_beg', S + ':1214')])
P('C23', 'Dates and periods of an account book',
  'The recorded dates after taking them from the profit and loss statements are the earlier ones plus both ends of every period, and a period that ends before it starts is refused. '
  'A list of periods is valid exactly when each runs forward and starts where the previous one ends. Periods split into those longer than 120 days and the rest, each period in exactly one part.',
  'books and lists with any number of periods', 'Tests check lists of a few periods.',
  [('set_dates_from_profit_loss', S + ':1377'), ('check_dates', S + ':1303'), ('valid_date', S + ':1373'), ('split_periods', S + ':1393'), ('Accounts::check_dates', S + ':1389')])
P('C24', 'Consecutive periods of an account book',
  'From the latest end date the selection walks back, each time by the quarter that ends there if the set has it, else by the year that ends there, up to 100 steps, and stops where neither exists; month ends are clipped to the length of the month. '
  'The periods walked are exactly the selected ones. A book restricted to periods keeps exactly their profit and loss, cash flow and other parameters, the dates they run between, and the balance sheets on those dates, all unchanged.',
  'sets with any periods, and books with any contents', 'Tests follow one chain of quarters in one book; chains that mix quarters and years, gaps and month ends are not reached.',
  [('consecutive_periods', S + ':1320'), ('from_periods', S + ':1509'), ('consecutive_cash_flow', S + ':1497'), ('consecutive_profit_loss', S + ':1503')])
P('C31', 'Printed and exported tables show every line of the book',
  'The text table shows the balance sheet, then profit and loss, tax rates and cash flow over the annual periods, and the same again over the quarterly periods when there are any. '
  'Each part is headed by the year and month of its columns and lists every line of the layout whose absolute amounts, over the whole book, sum to more than 0.0001, and no other. '
  'A line has its name and, for every date or period in order, the separator and the stored amount divided by the multiplier and rounded to a whole number; '
  'an amount strictly between 0.0001 and 1 is shown as a percentage with one decimal, undivided; a line missing in a stored statement counts as 0; tax rates are not divided. '
  'The exported file is this table with commas and multiplier 1.',
  'all books, separators and non-zero multipliers', 'No test inspects the text.',
  [('format_table', S + ':1542'), ('to_csv', S + ':1728')])
NA = {}


def N(id, title, statement, over, why, mech, reason):
    P(id, title, statement, over, why, mech)
    NA[id] = reason


N('C30', 'Saved data loads back unchanged',
  'A statement, report or account book written with the serialisation support and read back is equal to the original.',
  'all values of the serialisable types', 'No test serialises anything.',
  [('derive(Serialize, Deserialize)', S + ':1072')],
  'The code is generated by serde_derive macros and runs through serde_json (a dependency outside /repo): the repository contains no code of its own to put under contract, and serde\'s generic visitor machinery is outside the verifier.')
N('C32', 'Ratios, per-share figures and other unimplemented operations',
  'Financial ratios, per-share earnings, consistency checks, reading from a file, and pricing floating rate notes on a curve give their documented result.',
  'all inputs', 'No test calls them.',
  [('todo!()', S + ':1249'), ('unimplemented!()', B + ':160')],
  'The bodies are todo!() or unimplemented!(): there is no behaviour to verify.')

TECH = 'contract-based deductive verification of the compiled MIR (own VC generator, algebraic normaliser and z3), counterexamples replayed on the compiled code'
NOTE = ('Every obligation of the listed contracts is discharged from the MIR rustc emits for /repo on each run, for all inputs. Assumes: contracts for std and chrono, '
        'f64 arithmetic read as exact real arithmetic (compared with the compiled code, with error bounds, on sampled inputs each run), termination not proved; '
        'the VC generator itself is trusted.')
BOUNDED = {}


def main():
    from spec import props
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in PROPS:
        i = p['id']
        if i in NA:
            continue
        assert i in props.PROPS, i
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                       'technique': TECH, 'level': 'proof', 'level_note': NOTE + (' ' + BOUNDED[i] if i in BOUNDED else '')})
    m = {'version': 1, 'setup_cmd': 'python3-vt check.py --setup', 'checks': checks,
         'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
         'notes': 'No hooks are needed in /repo: the verifier reads the MIR of the unmodified crate. Seven fix: commits are listed in KNOWN_FINDINGS.txt.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')


main()
