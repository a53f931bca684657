// Calls functions of the crate under test on inputs read from stdin, one JSON
// object per line, and prints what they return (or that they panicked).
use chrono::{Datelike, NaiveDate};
use financelib::fixedincomes::bonds::rates::{RateCurve, Rates};
use financelib::fixedincomes::bonds::{CouponBond, FloatingRateNotes};
use financelib::fixedincomes::moneymarkets as mm;
use financelib::statements::*;
use financelib::valuations::*;
use financelib::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::Hash;
use std::io::{BufRead, Write};

trait J: Sized {
    fn de(v: &Value) -> Self;
    fn en(&self) -> Value;
}
impl J for f64 {
    fn de(v: &Value) -> f64 {
        f64::from_bits(v.as_u64().unwrap())
    }
    fn en(&self) -> Value {
        json!(self.to_bits())
    }
}
impl J for i32 {
    fn de(v: &Value) -> i32 {
        v.as_i64().unwrap() as i32
    }
    fn en(&self) -> Value {
        json!(*self)
    }
}
impl J for i64 {
    fn de(v: &Value) -> i64 {
        v.as_i64().unwrap()
    }
    fn en(&self) -> Value {
        json!(*self)
    }
}
impl J for bool {
    fn de(v: &Value) -> bool {
        v.as_bool().unwrap()
    }
    fn en(&self) -> Value {
        json!(*self)
    }
}
impl J for () {
    fn de(_: &Value) {}
    fn en(&self) -> Value {
        Value::Null
    }
}
impl J for String {
    fn de(v: &Value) -> String {
        v.as_str().unwrap().to_string()
    }
    fn en(&self) -> Value {
        Value::String(self.clone())
    }
}
impl J for NaiveDate {
    fn de(v: &Value) -> NaiveDate {
        NaiveDate::from_num_days_from_ce_opt(v.as_i64().unwrap() as i32).unwrap()
    }
    fn en(&self) -> Value {
        json!(self.num_days_from_ce())
    }
}
macro_rules! en {
    ($t:ident { $($v:ident),* }) => { impl J for $t {
        fn de(v: &Value) -> $t {
            match v.as_str().unwrap() {
                $(stringify!($v) => $t::$v,)*
                x => panic!("driver: no {}", x),
            }
        }
        #[allow(unreachable_patterns)]
        fn en(&self) -> Value {
            match self {
                $($t::$v => json!(stringify!($v)),)*
                x => json!(format!("{:?}", x)),
            }
        }
    } };
}
en!(BsType {
    Cash, CurrentReceivables, CurrentLoans, CurrentAdvances, OtherCurrentAssets, CurrentInvestments, Inventories,
    RawMaterials, WorkInProgress, FinishedGoods, CurrentAssets, AccountReceivables, LongTermLoanAssets,
    LongTermAdvances, LongTermInvestments, OtherLongTermAssets, PlantPropertyEquipment, AccumulatedDepreciation,
    NetPlantPropertyEquipment, LeasingRentalAssets, AccumulatedAmortizationLease, NetLeaseRentalAssets, Goodwill,
    CapitalWip, OtherTangibleAssets, IntangibleAssets, IntangibleAssetsDevelopment, AccumulatedAmortization,
    NetIntangibleAssets, LongTermAssets, Assets, CurrentPayables, CurrentBorrowings, CurrentNotesPayable,
    OtherCurrentLiabilities, InterestPayable, CurrentProvisions, CurrentTaxPayables, LiabilitiesSaleAssets,
    CurrentLeasesLiability, CurrentLiabilities, AccountPayables, LongTermBorrowings, BondsPayable,
    DeferredTaxLiabilities, LongTermLeasesLiability, DeferredCompensation, DeferredRevenues, CustomerDeposits,
    OtherLongTermLiabilities, PensionProvision, TaxProvision, LongTermProvision, LongTermLiabilities, Liabilities,
    CommonStock, PreferredStock, PdInCapAbovePar, PdInCapTreasuryStock, RevaluationReserves, Reserves,
    RetainedEarnings, AccumulatedOCI, MinorityInterests, Equity, BalanceSheetCheck
});
en!(PlType {
    OperatingRevenue, NonOperatingRevenue, ExciseStaxLevy, OtherIncome, Revenue, CostMaterial, DirectExpenses, COGS,
    Salaries, AdministrativeExpenses, ResearchNDevelopment, OtherOverheads, OtherOperativeExpenses, OtherExpenses,
    ExceptionalItems, GrossProfit, EBITDA, Depreciation, TaxDepreciation, AssetImpairment, LossDivestitures,
    Amortization, EBITX, InterestRevenue, InterestExpense, CostDebt, OtherFinancialRevenue, EBTX, ExtraordinaryItems,
    PriorYears, EBT, TaxesCurrent, TaxesDeferred, EAT, NetIncomeDiscontinuedOps, NetIncome, Dividends,
    ContributionRetainedEarnings, GainsLossesForex, GainsLossesActurial, GrossSalesPPE, GrossSalesLeaseRentalAssets,
    GrossSalesIntangibleAssets, AccAmortSalesPPE, AccAmortSalesLeaseRental, AccAmortSalesIntangible, SalesAmountPPE,
    SalesAmountLeaseRentalAssets, SalesAmountIntangibleAssets, GainsLossesSales, FvChangeAvlSale, OtherDeferredTaxes,
    OtherComprehensiveIncome, TotalComprehensiveIncome
});
en!(CfType {
    ChangeCurrentAssets, ChangeLongTermAssets, ChangeCurrentLiabilities, ChangeLongTermLiabilities, ChangeProvisions,
    ChangeRetainedEarnings, AdjustmentsRetainedEarnings, ChangeAccumulatedOci, OtherCashFlowOperations,
    CashFlowOperations, ChangePPE, ChangeReserves, AdjustmentsSalesAssets, InvestmentsCapDevp, InvestmentsLoans,
    ChangeEquityAssets, ChangeInvestments, OtherCashFlowInvestments, CashFlowInvestments, StockSalesAndPurchase,
    ChangeDebt, CashFlowInterests, CashFlowDividends, DonorContribution, OtherCashFlowFinancing, CashFlowFinancing,
    NetCashFlow, FreeCashFlowFirm, CashFlowTaxShield, FreeCashFlowEquity, CashFlowDebt
});
en!(FinOthersTyp {
    CorporateTaxRate, GrossProfitTaxRate, RevenueTaxRate, CurrentRatio, AcidRatio, DaysOfInventory,
    InventoryTurnoverRatio
});
en!(Currency {
    INR, USD, NGN, EUR, GBP, CNY, MZN, ZAR
});
en!(Industry {
    General, Automotive, Aerospace, HeavyEngineering, InformationTech, Banking, Metals, Retail, Education
});
impl J for DayCountConvention {
    fn de(v: &Value) -> Self {
        use DayCountConvention::*;
        match v.as_str().unwrap() {
            "US30360" => US30360,
            "ACTACT" => ACTACT,
            "ACT360" => ACT360,
            "ACT365" => ACT365,
            "EU30360" => EU30360,
            _ => unreachable!(),
        }
    }
    fn en(&self) -> Value {
        Value::Null
    }
}
impl<A: J, C: J> J for (A, C) {
    fn de(v: &Value) -> Self {
        (A::de(&v[0]), C::de(&v[1]))
    }
    fn en(&self) -> Value {
        json!([self.0.en(), self.1.en()])
    }
}
impl<A: J, C: J, D: J> J for (A, C, D) {
    fn de(v: &Value) -> Self {
        (A::de(&v[0]), C::de(&v[1]), D::de(&v[2]))
    }
    fn en(&self) -> Value {
        json!([self.0.en(), self.1.en(), self.2.en()])
    }
}
impl<A: J, C: J, D: J, E: J, F: J> J for (A, C, D, E, F) {
    fn de(v: &Value) -> Self {
        (A::de(&v[0]), C::de(&v[1]), D::de(&v[2]), E::de(&v[3]), F::de(&v[4]))
    }
    fn en(&self) -> Value {
        json!([self.0.en(), self.1.en(), self.2.en(), self.3.en(), self.4.en()])
    }
}
impl<A: J> J for Vec<A> {
    fn de(v: &Value) -> Self {
        v.as_array().unwrap().iter().map(A::de).collect()
    }
    fn en(&self) -> Value {
        Value::Array(self.iter().map(|x| x.en()).collect())
    }
}
impl<A: J> J for Option<A> {
    fn de(v: &Value) -> Self {
        v.as_array().unwrap().first().map(A::de)
    }
    fn en(&self) -> Value {
        Value::Array(self.iter().map(|x| x.en()).collect())
    }
}
impl<K: J + Hash + Eq, A: J> J for HashMap<K, A> {
    fn de(v: &Value) -> Self {
        v.as_array().unwrap().iter().map(|x| (K::de(&x[0]), A::de(&x[1]))).collect()
    }
    fn en(&self) -> Value {
        Value::Array(self.iter().map(|(k, x)| json!([k.en(), x.en()])).collect())
    }
}
impl<K: J + Ord, A: J> J for BTreeMap<K, A> {
    fn de(v: &Value) -> Self {
        v.as_array().unwrap().iter().map(|x| (K::de(&x[0]), A::de(&x[1]))).collect()
    }
    fn en(&self) -> Value {
        Value::Array(self.iter().map(|(k, x)| json!([k.en(), x.en()])).collect())
    }
}
impl<K: J + Ord> J for BTreeSet<K> {
    fn de(v: &Value) -> Self {
        v.as_array().unwrap().iter().map(|x| K::de(x)).collect()
    }
    fn en(&self) -> Value {
        Value::Array(self.iter().map(|k| k.en()).collect())
    }
}
macro_rules! st {
    ($t:ident { $($f:ident),* }) => { impl J for $t {
        fn de(v: &Value) -> $t { $t { $($f: J::de(&v[stringify!($f)])),* } }
        fn en(&self) -> Value { json!({ $(stringify!($f): self.$f.en()),* }) }
    } };
}
st!(CouponBond { par, c, freq, t_life });
st!(FloatingRateNotes { par, quoted_margin, freq, t_life });
st!(FinancialReport { period, balance_sheet_beg, balance_sheet_end, profit_loss, cash_flow, others });
st!(Param { unlevered, shield_tax, equity, debt, valuation });
st!(ValuationModel { params, shareprice });
st!(BalanceSheet { date, items });
st!(ProfitLoss { period, items });
st!(CashFlow { period, items });
st!(FinOthers { period, items });
st!(Accounts { currency, consolidated, dates, balance_sheet, profit_loss, cash_flow, others });
// private fields: through the serialised form
impl J for CompanyReports {
    fn de(v: &Value) -> Self {
        let a: HashMap<Industry, f64> = J::de(&v["affiliation"]);
        let (p, r): (Param, FinancialReport) = (J::de(&v["param"]), J::de(&v["reports"]));
        serde_json::from_value(json!({"param": p, "reports": r, "affiliation": a})).unwrap()
    }
    fn en(&self) -> Value {
        let v = serde_json::to_value(self).unwrap();
        let a: HashMap<Industry, f64> = serde_json::from_value(v["affiliation"].clone()).unwrap();
        let p: Param = serde_json::from_value(v["param"].clone()).unwrap();
        let r: FinancialReport = serde_json::from_value(v["reports"].clone()).unwrap();
        json!({"param": p.en(), "reports": r.en(), "affiliation": a.en()})
    }
}
// account books and valuation models have maps by period, which JSON has no keys for: they are saved as RON
fn book<T: J + serde::Serialize + serde::de::DeserializeOwned>(v: &Value) -> Value {
    let s = ron::to_string(&T::de(v)).unwrap();
    json!({"ok": ron::from_str::<T>(&s).unwrap().en()})
}
fn saved<T: J + serde::Serialize + serde::de::DeserializeOwned>(v: &Value) -> Value {
    let s = serde_json::to_string(&T::de(v)).unwrap();
    let s = ron::to_string(&serde_json::from_str::<T>(&s).unwrap()).unwrap();
    json!({"ok": ron::from_str::<T>(&s).unwrap().en()})
}
impl J for RateCurve {
    fn de(v: &Value) -> Self {
        let (k, a) = v.as_object().unwrap().iter().next().unwrap();
        let (rate, freq) = (J::de(&a[0]), J::de(&a[1]));
        match k.as_str() {
            "NominalRateCurve" => RateCurve::NominalRateCurve { rate, freq },
            "EffectiveRateCurve" => RateCurve::EffectiveRateCurve { rate, freq },
            "ExponentialRateCurve" => RateCurve::ExponentialRateCurve { rate, freq },
            _ => unreachable!(),
        }
    }
    fn en(&self) -> Value {
        match self {
            RateCurve::NominalRateCurve { rate, freq } => json!({"NominalRateCurve": [rate.en(), freq.en()]}),
            RateCurve::EffectiveRateCurve { rate, freq } => json!({"EffectiveRateCurve": [rate.en(), freq.en()]}),
            RateCurve::ExponentialRateCurve { rate, freq } => json!({"ExponentialRateCurve": [rate.en(), freq.en()]}),
        }
    }
}
impl J for Rates {
    fn de(v: &Value) -> Self {
        let (k, a) = v.as_object().unwrap().iter().next().unwrap();
        let c = J::de(&a[0]);
        match k.as_str() {
            "SpotRates" => Rates::SpotRates { rate: c },
            "ParRates" => Rates::ParRates { rate: c },
            "ForwardRates" => Rates::ForwardRates { rate: c },
            _ => unreachable!(),
        }
    }
    fn en(&self) -> Value {
        match self {
            Rates::SpotRates { rate: c } => json!({"SpotRates": [c.en()]}),
            Rates::ParRates { rate: c } => json!({"ParRates": [c.en()]}),
            Rates::ForwardRates { rate: c } => json!({"ForwardRates": [c.en()]}),
        }
    }
}

fn call(k: &str, a: &Value) -> Value {
    macro_rules! a {
        ($i:expr) => {
            J::de(&a[$i])
        };
    }
    macro_rules! r {
        ($e:expr) => {
            json!({"ok": J::en(&$e)})
        };
    }
    // methods that update their receiver
    macro_rules! m {
        ($t:ty, |$x:ident| $e:expr) => {{
            let mut s: $t = J::de(&a[0]);
            {
                let $x = &mut s;
                $e;
            }
            json!({"ok": null, "m": {"0": s.en()}})
        }};
    }
    macro_rules! fins {
        ($t:ty, $k:ty, $f:expr) => {
            match $f {
                "calc_elements" => m!($t, |x| x.calc_elements()),
                "remove_calc_clean" => m!($t, |x| x.remove_calc_clean()),
                "clean" => m!($t, |x| FinMaps::clean(x)),
                "common_size" => {
                    let x: $t = a!(0);
                    r!(x.common_size())
                }
                "add" => m!($t, |x| FinMaps::add(x, a!(1), a!(2))),
                "upsert" => m!($t, |x| x.upsert(a!(1), a!(2))),
                "add_vec" => m!($t, |x| x.add_vec(&a!(1))),
                "upsert_vec" => m!($t, |x| x.upsert_vec(&a!(1))),
                "value" => {
                    let x: $t = a!(0);
                    r!(x.value(a!(1)))
                }
                _ => unreachable!(),
            }
        };
    }
    macro_rules! z {
        ($t:ty, |$x:ident| $e:expr) => {{
            let $x: $t = a!(0);
            r!($e)
        }};
    }
    let f = |c: Vec<f64>| move |x: f64| c[0] + c[1] * x + c[2] * x * x + c[3] * x * x * x + c[4] * (c[5] * x).exp();
    match k {
        "is_leap_year" => r!(is_leap_year(a!(0))),
        "days_in_year" => r!(days_in_year(a!(0))),
        "date_to_float" => r!(date_to_float(a!(0))),
        "date_from_float" => r!(date_from_float(a!(0))),
        "date_roundtrip" => r!(date_from_float(date_to_float(a!(0)))),
        "yearfrac" => r!(yearfrac(a!(0), a!(1), a!(2))),
        "yrfrac" => r!(yrfrac(a!(0))),
        "dis_fact_annual" => r!(dis_fact_annual(a!(0))),
        "dis_fact" => r!(dis_fact(a!(0), a!(1))),
        "xdis_fact" => r!(xdis_fact(a!(0), a!(1))),
        "fwd_dis_fact" => r!(fwd_dis_fact(a!(0), a!(1))),
        "pv" => r!(pv(a!(0), a!(1), a!(2))),
        "fv" => r!(fv(a!(0), a!(1), a!(2))),
        "xpv" => r!(xpv(a!(0), a!(1), a!(2))),
        "xfv" => r!(xfv(a!(0), a!(1), a!(2))),
        "pvm" => r!(pvm(a!(0), a!(1), a!(2), a!(3))),
        "fvm" => r!(fvm(a!(0), a!(1), a!(2), a!(3))),
        "pvc" => r!(pvc(a!(0), a!(1), a!(2))),
        "fvc" => r!(fvc(a!(0), a!(1), a!(2))),
        "pv_annuity" => r!(pv_annuity(a!(0), a!(1), a!(2), a!(3), a!(4))),
        "pmt" => r!(pmt(a!(0), a!(1), a!(2), a!(3), a!(4))),
        "nom_eff_rate" => r!(nom_eff_rate(a!(0), a!(1))),
        "eff_nom_rate" => r!(eff_nom_rate(a!(0), a!(1))),
        "exp_eff_rate" => r!(exp_eff_rate(a!(0))),
        "eff_exp_rate" => r!(eff_exp_rate(a!(0))),
        "nom_exp_rate" => r!(nom_exp_rate(a!(0), a!(1))),
        "exp_nom_rate" => r!(exp_nom_rate(a!(0), a!(1))),
        "approx" => r!(approx(a!(0), a!(1))),
        "is_zero" => r!(is_zero(a!(0))),
        "npv_t0" => r!(npv_t0(a!(0), &a!(1), &a!(2))),
        "npv" => r!(npv(a!(0), &a!(1), a!(2), &a!(3))),
        "xnpv" => r!(xnpv(a!(0), &a!(1), a!(2), &a!(3))),
        "irr" => r!(irr(&a!(0), &a!(1))),
        "xirr" => r!(xirr(&a!(0), &a!(1))),
        "newt_raph" => r!(newt_raph(f(a!(0)), a!(1), a!(2))),
        "CouponBond::price" => z!(CouponBond, |b| b.price(a!(1))),
        "CouponBond::ytm" => z!(CouponBond, |b| b.ytm(a!(1))),
        "CouponBond::price_ratecurve" => z!(CouponBond, |b| b.price_ratecurve(&a!(1))),
        "CouponBond::generate_cashflow" => z!(CouponBond, |b| b.generate_cashflow()),
        "CouponBond::accrued_interest" => z!(CouponBond, |b| b.accrued_interest(a!(1))),
        "CouponBond::pv_full" => z!(CouponBond, |b| b.pv_full(a!(1), a!(2))),
        "CouponBond::pv_flat" => z!(CouponBond, |b| b.pv_flat(a!(1), a!(2))),
        "FloatingRateNotes::price" => z!(FloatingRateNotes, |b| b.price(a!(1), a!(2))),
        "FloatingRateNotes::discount_margin" => z!(FloatingRateNotes, |b| b.discount_margin(a!(1), a!(2))),
        "RateCurve::rate_estim" => z!(RateCurve, |c| c.rate_estim(a!(1))),
        "RateCurve::pv" => z!(RateCurve, |c| c.pv(a!(1), a!(2))),
        "RateCurve::to_nominal" => z!(RateCurve, |c| c.to_nominal()),
        "RateCurve::to_effective" => z!(RateCurve, |c| c.to_effective()),
        "RateCurve::to_exponential" => z!(RateCurve, |c| c.to_exponential()),
        "Rates::rate_estim" => z!(Rates, |c| c.rate_estim(a!(1))),
        "Rates::to_par" => z!(Rates, |c| c.to_par()),
        "Rates::to_spot" => z!(Rates, |c| c.to_spot()),
        "Rates::forward_rate" => z!(Rates, |c| c.forward_rate(a!(1), a!(2))),
        "t_bill_r" => r!(mm::t_bill_r(a!(0), a!(1), a!(2))),
        "t_bill_d" => r!(mm::t_bill_d(a!(0), a!(1), a!(2))),
        "holding_per_yield" => r!(mm::holding_per_yield(a!(0), a!(1), a!(2))),
        "eff_ann_yield" => r!(mm::eff_ann_yield(a!(0), a!(1), a!(2), a!(3))),
        "money_mkt_yield" => r!(mm::money_mkt_yield(a!(0), a!(1), a!(2), a!(3))),
        "twrr_n" => r!(mm::twrr_n(a!(0), &a!(1), &a!(2))),
        "twrr" => r!(mm::twrr(&a!(0), &a!(1))),
        "BsType::is_calc" => z!(BsType, |x| x.is_calc()),
        "PlType::is_calc" => z!(PlType, |x| x.is_calc()),
        "CfType::is_calc" => z!(CfType, |x| x.is_calc()),
        "BsMap::debit" => m!(BsMap, |x| x.debit(a!(1), a!(2))),
        "BsMapTrait::credit" => m!(BsMap, |x| x.credit(a!(1), a!(2))),
        "BsMapTrait::transact" => m!(BsMap, |x| x.transact(a!(1))),
        "BsMapTrait::transact_series" => m!(BsMap, |x| x.transact_series(a!(1))),
        "depreciation_tax_adjust" => r!(depreciation_tax_adjust(&a!(0))),
        "calc_cash_flow" => r!(calc_cash_flow(&a!(0), &a!(1), &a!(2), a!(3), a!(4), a!(5))),
        "check_dates" => r!(check_dates(&a!(0))),
        "consecutive_periods" => r!(consecutive_periods(&a!(0))),
        "FinancialReport::to_statements" => z!(FinancialReport, |x| x.to_statements()),
        "FinancialReport::from_statements" => {
            r!(FinancialReport::from_statements(&a!(0), &a!(1), &a!(2), &a!(3), &a!(4)))
        }
        "FinancialReport::calc_elements" => m!(FinancialReport, |x| x.calc_elements()),
        "FinancialReport::balance_sheet_beg" => z!(FinancialReport, |x| x.balance_sheet_beg()),
        "FinancialReport::balance_sheet_end" => z!(FinancialReport, |x| x.balance_sheet_end()),
        "FinancialReport::profit_loss" => z!(FinancialReport, |x| x.profit_loss()),
        "FinancialReport::cash_flow" => z!(FinancialReport, |x| x.cash_flow()),
        "FinancialReport::fin_others" => z!(FinancialReport, |x| x.fin_others()),
        "Accounts::valid_date" => z!(Accounts, |x| x.valid_date(a!(1))),
        "Accounts::set_dates_from_profit_loss" => m!(Accounts, |x| x.set_dates_from_profit_loss()),
        "Accounts::check_dates" => z!(Accounts, |x| x.check_dates()),
        "Accounts::split_periods" => z!(Accounts, |x| x.split_periods()),
        "Accounts::remove_calc_clean" => m!(Accounts, |x| x.remove_calc_clean()),
        "Accounts::calc_elements" => m!(Accounts, |x| x.calc_elements()),
        "Accounts::get_account" => z!(Accounts, |x| x.get_account(a!(1), a!(2))),
        "Accounts::calc_cash_flow" => m!(Accounts, |x| x.calc_cash_flow()),
        "Accounts::to_financial_reports" => z!(Accounts, |x| x.to_financial_reports()),
        "Accounts::consecutive_cash_flow" => z!(Accounts, |x| x.consecutive_cash_flow()),
        "Accounts::consecutive_profit_loss" => z!(Accounts, |x| x.consecutive_profit_loss()),
        "Accounts::from_periods" => z!(Accounts, |x| x.from_periods(a!(1))),
        "Accounts::calc_tax" => m!(Accounts, |x| x.calc_tax()),
        "Accounts::set_tax_rates" => m!(Accounts, |x| x.set_tax_rates(a!(1), a!(2), a!(3))),
        "Accounts::get_balance_sheet" => z!(Accounts, |x| x.get_balance_sheet(a!(1), a!(2))),
        "Accounts::get_profit_loss" => z!(Accounts, |x| x.get_profit_loss(a!(1), a!(2))),
        "Accounts::get_cash_flow" => z!(Accounts, |x| x.get_cash_flow(a!(1), a!(2))),
        "Accounts::put_balance_sheet" => m!(Accounts, |x| x.put_balance_sheet(a!(1), a!(2), a!(3))),
        "Accounts::put_profit_loss" => m!(Accounts, |x| x.put_profit_loss(a!(1), a!(2), a!(3))),
        "Accounts::format_table" => z!(Accounts, |x| {
            let s: String = a!(1);
            x.format_table(&s, a!(2))
        }),
        // writes one file of its own making, reads it back and removes it
        "Accounts::fmt" => json!({"ok": format!("{}", <Accounts as J>::de(&a[0]))}),
        "Accounts::to_csv" => z!(Accounts, |x| {
            let f = std::env::temp_dir().join(format!("book-{}.csv", std::process::id()));
            x.to_csv(f.to_str().unwrap());
            let s = std::fs::read_to_string(&f).unwrap();
            std::fs::remove_file(&f).unwrap();
            s
        }),
        "Accounts::put_cash_flow" => m!(Accounts, |x| x.put_cash_flow(a!(1), a!(2), a!(3))),
        "serde BsType" => saved::<BsType>(&a[0]),
        "serde PlType" => saved::<PlType>(&a[0]),
        "serde CfType" => saved::<CfType>(&a[0]),
        "serde FinOthersTyp" => saved::<FinOthersTyp>(&a[0]),
        "serde Currency" => saved::<Currency>(&a[0]),
        "serde Industry" => saved::<Industry>(&a[0]),
        "serde Param" => saved::<Param>(&a[0]),
        "serde BalanceSheet" => saved::<BalanceSheet>(&a[0]),
        "serde ProfitLoss" => saved::<ProfitLoss>(&a[0]),
        "serde CashFlow" => saved::<CashFlow>(&a[0]),
        "serde FinOthers" => saved::<FinOthers>(&a[0]),
        "serde FinancialReport" => saved::<FinancialReport>(&a[0]),
        "serde Accounts" => book::<Accounts>(&a[0]),
        "serde CompanyReports" => saved::<CompanyReports>(&a[0]),
        "serde ValuationModel" => book::<ValuationModel>(&a[0]),
        _ => {
            let (t, f) = k.split_once("::").unwrap_or(("", k));
            match t {
                "BsMap" => fins!(BsMap, BsType, f),
                "PlMap" => fins!(PlMap, PlType, f),
                "CfMap" => fins!(CfMap, CfType, f),
                _ => json!({"unknown": k}),
            }
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let v: Value = serde_json::from_str(&line).unwrap();
        let k = v["k"].as_str().unwrap().to_string();
        let r = match std::panic::catch_unwind(|| call(&k, &v["a"])) {
            Ok(x) => x,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_default();
                json!({"panic": m})
            }
        };
        let mut o = out.lock();
        writeln!(o, "{}", r).unwrap();
        o.flush().unwrap();
    }
}
