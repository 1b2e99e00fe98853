use crate::st::*;
use crate::*;
use chrono::naive::NaiveDate as NDt;
use chrono::{Datelike, Duration};
use financelib::statements::BsType::*;
use financelib::statements::CfType::*;
use financelib::statements::FinOthersTyp::*;
use financelib::statements::PlType::*;
use financelib::statements::*;
use financelib::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn it_bs(m: &BsMap, k: BsType) -> f64 {
    m.get(&k).copied().unwrap_or(0.0)
}
fn it_pl(m: &PlMap, k: PlType) -> f64 {
    m.get(&k).copied().unwrap_or(0.0)
}
fn it_cf(m: &CfMap, k: CfType) -> f64 {
    m.get(&k).copied().unwrap_or(0.0)
}

// ---------------------------------------------------------------- P23 reconciliation with cash
pub fn p23_net_cash_flow(b0: BsMap, b1: BsMap, pl: PlMap, ct: f64, gt: f64, rt: f64) -> (f64, f64) {
    negligible();
    let mut cf = calc_cash_flow(&b0, &b1, &pl, ct, gt, rt);
    cf.calc_elements();
    let cash = it_bs(&b1, Cash) - it_bs(&b0, Cash);
    (it_cf(&cf, NetCashFlow), cash - (check(&b1) - check(&b0)))
}
pub fn p23_balanced(b0: BsMap, b1: BsMap, pl: PlMap, ct: f64, gt: f64, rt: f64) -> (f64, f64) {
    negligible();
    let mut cf = calc_cash_flow(&b0, &b1, &pl, ct, gt, rt);
    cf.calc_elements();
    let (mut c0, mut c1) = (b0, b1);
    c0.calc_elements();
    c1.calc_elements();
    let cash = it_bs(&c1, Cash) - it_bs(&c0, Cash);
    (it_cf(&cf, NetCashFlow), cash - it_bs(&c1, BalanceSheetCheck) + it_bs(&c0, BalanceSheetCheck))
}

// ---------------------------------------------------------------- P24 lines of the derived cash flow
fn line(b0: BsMap, b1: BsMap, pl: PlMap, r: (f64, f64, f64), k: CfType, pos: &[BsType], neg: &[BsType]) -> OO {
    let cf = calc_cash_flow(&b0, &b1, &pl, r.0, r.1, r.2);
    (cf.get(&k).copied(), kept((sum_bs(&b1, pos) - sum_bs(&b1, neg)) - (sum_bs(&b0, pos) - sum_bs(&b0, neg))))
}
fn pl_line(b0: BsMap, b1: BsMap, pl: PlMap, r: (f64, f64, f64), k: CfType, pos: &[PlType], neg: &[PlType]) -> OO {
    let cf = calc_cash_flow(&b0, &b1, &pl, r.0, r.1, r.2);
    (cf.get(&k).copied(), kept(sum_pl(&pl, pos) - sum_pl(&pl, neg)))
}
type R3 = (f64, f64, f64);
pub fn p24_current_assets(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(
        b0,
        b1,
        pl,
        r,
        ChangeCurrentAssets,
        &[
            CurrentReceivables,
            CurrentLoans,
            CurrentAdvances,
            OtherCurrentAssets,
            CurrentInvestments,
            RawMaterials,
            WorkInProgress,
            FinishedGoods,
        ],
        &[],
    )
}
pub fn p24_long_term_assets(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(
        b0,
        b1,
        pl,
        r,
        ChangeLongTermAssets,
        &[AccountReceivables, LongTermAdvances, CapitalWip],
        &[AccumulatedDepreciation, AccumulatedAmortizationLease, AccumulatedAmortization],
    )
}
pub fn p24_current_liabilities(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(
        b0,
        b1,
        pl,
        r,
        ChangeCurrentLiabilities,
        &[
            CurrentPayables,
            CurrentBorrowings,
            CurrentNotesPayable,
            OtherCurrentLiabilities,
            InterestPayable,
            CurrentProvisions,
            CurrentTaxPayables,
            LiabilitiesSaleAssets,
            CurrentLeasesLiability,
        ],
        &[],
    )
}
pub fn p24_long_term_liabilities(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(
        b0,
        b1,
        pl,
        r,
        ChangeLongTermLiabilities,
        &[AccountPayables, DeferredTaxLiabilities, DeferredCompensation, DeferredRevenues, CustomerDeposits, OtherLongTermLiabilities],
        &[],
    )
}
pub fn p24_provisions(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(b0, b1, pl, r, ChangeProvisions, &[PensionProvision, TaxProvision, LongTermProvision], &[])
}
pub fn p24_retained(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(b0, b1, pl, r, ChangeRetainedEarnings, &[RetainedEarnings], &[])
}
pub fn p24_oci(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(b0, b1, pl, r, ChangeAccumulatedOci, &[AccumulatedOCI], &[])
}
pub fn p24_ppe(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(b0, b1, pl, r, ChangePPE, &[PlantPropertyEquipment, LeasingRentalAssets], &[])
}
pub fn p24_reserves(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(b0, b1, pl, r, ChangeReserves, &[RevaluationReserves, Reserves], &[])
}
pub fn p24_cap_devp(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(b0, b1, pl, r, InvestmentsCapDevp, &[IntangibleAssetsDevelopment], &[])
}
pub fn p24_loans(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(b0, b1, pl, r, InvestmentsLoans, &[LongTermLoanAssets], &[])
}
pub fn p24_equity_assets(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(b0, b1, pl, r, ChangeEquityAssets, &[IntangibleAssets], &[])
}
pub fn p24_investments(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(b0, b1, pl, r, ChangeInvestments, &[LongTermInvestments, Goodwill], &[])
}
pub fn p24_other_investments(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(b0, b1, pl, r, OtherCashFlowInvestments, &[], &[OtherLongTermAssets, OtherTangibleAssets])
}
pub fn p24_stock(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(b0, b1, pl, r, StockSalesAndPurchase, &[CommonStock, PreferredStock, PdInCapAbovePar, PdInCapTreasuryStock], &[])
}
pub fn p24_debt(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(b0, b1, pl, r, ChangeDebt, &[LongTermBorrowings, BondsPayable, LongTermLeasesLiability], &[])
}
pub fn p24_other_financing(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    line(b0, b1, pl, r, OtherCashFlowFinancing, &[MinorityInterests], &[])
}
pub fn p24_interests(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    pl_line(b0, b1, pl, r, CashFlowInterests, &[InterestExpense, CostDebt], &[])
}
pub fn p24_dividends(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    pl_line(b0, b1, pl, r, CashFlowDividends, &[Dividends], &[])
}
pub fn p24_adjust_retained(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    pl_line(
        b0,
        b1,
        pl,
        r,
        AdjustmentsRetainedEarnings,
        &[InterestExpense, CostDebt, Dividends, AccAmortSalesPPE, AccAmortSalesLeaseRental, AccAmortSalesIntangible],
        &[GainsLossesSales],
    )
}
pub fn p24_adjust_sales(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    pl_line(
        b0,
        b1,
        pl,
        r,
        AdjustmentsSalesAssets,
        &[GainsLossesSales],
        &[AccAmortSalesPPE, AccAmortSalesLeaseRental, AccAmortSalesIntangible],
    )
}
/// nothing but the derived lines and the tax shield is there
fn none(b0: BsMap, b1: BsMap, pl: PlMap, r: R3, ks: &[CfType]) -> bool {
    let cf = calc_cash_flow(&b0, &b1, &pl, r.0, r.1, r.2);
    ks.iter().all(|k| !cf.contains_key(k))
}
pub fn p24_no_other(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> bool {
    none(b0, b1, pl, r, &[OtherCashFlowOperations, DonorContribution])
}
pub fn p24_no_totals(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> bool {
    none(b0, b1, pl, r, &[CashFlowOperations, CashFlowInvestments, CashFlowFinancing, NetCashFlow, FreeCashFlowFirm, FreeCashFlowEquity, CashFlowDebt])
}
fn derived(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> (CfMap, CfMap) {
    let cf = calc_cash_flow(&b0, &b1, &pl, r.0, r.1, r.2);
    let mut n = cf.clone();
    n.calc_elements();
    (cf, n)
}
pub fn p24_free_equity(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> (f64, f64) {
    let (cf, n) = derived(b0, b1, pl, r);
    let want = sum_cf(&n, &[CashFlowOperations]) + sum_cf(&cf, &[ChangeDebt, ChangeReserves, AdjustmentsSalesAssets])
        - sum_cf(&cf, &[CashFlowInterests, ChangePPE]);
    (it_cf(&n, FreeCashFlowEquity), clamp(want))
}
pub fn p24_free_debt(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> (f64, f64) {
    let (cf, n) = derived(b0, b1, pl, r);
    (it_cf(&n, CashFlowDebt), clamp(it_cf(&cf, CashFlowInterests) - it_cf(&cf, ChangeDebt)))
}
pub fn p24_free_firm(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> (f64, f64) {
    let (cf, n) = derived(b0, b1, pl, r);
    let want = it_cf(&n, FreeCashFlowEquity) + it_cf(&n, CashFlowDebt) - it_cf(&cf, CashFlowTaxShield);
    (it_cf(&n, FreeCashFlowFirm), clamp(want))
}

// ---------------------------------------------------------------- P25 tax
fn depreciation_adjust(pl: &PlMap) -> f64 {
    match pl.get(&TaxDepreciation) {
        Some(t) => it_pl(pl, Depreciation) - *t,
        None => 0.0,
    }
}
pub fn p25_adjust(pl: PlMap) -> (f64, f64) {
    (depreciation_tax_adjust(&pl), depreciation_adjust(&pl))
}
pub fn p25_shield(b0: BsMap, b1: BsMap, pl: PlMap, r: R3) -> OO {
    let cf = calc_cash_flow(&b0, &b1, &pl, r.0, r.1, r.2);
    let interest = clamp(it_pl(&pl, InterestExpense) + it_pl(&pl, CostDebt));
    let tax = r.0 * (it_pl(&pl, EBT) + interest + depreciation_adjust(&pl)) + r.1 * it_pl(&pl, GrossProfit);
    let above = tax - r.2 * it_pl(&pl, Revenue);
    (cf.get(&CashFlowTaxShield).copied(), Some((r.0 * interest).min(above.max(0.0))))
}
fn rate(o: &FinOthersMap, k: FinOthersTyp) -> f64 {
    o.get(&k).copied().unwrap_or(0.0)
}
pub fn p25_tax(mut a: Accounts, p: Period) -> OO {
    assume(a.profit_loss.keys().all(|y| a.others.contains_key(y)));
    let none = (HashMap::new(), HashMap::new());
    let pl = calc_pl_map(a.profit_loss.get(&p).unwrap_or(&none.0));
    let o = a.others.get(&p).unwrap_or(&none.1).clone();
    let tax = (it_pl(&pl, EBT) + depreciation_adjust(&pl)) * rate(&o, CorporateTaxRate) + it_pl(&pl, EBITDA) * rate(&o, GrossProfitTaxRate);
    let least = it_pl(&pl, Revenue) * rate(&o, RevenueTaxRate);
    let want = a.profit_loss.get(&p).map(|_| tax.max(least));
    a.calc_tax();
    (a.profit_loss.get(&p).map(|m| m.get(&TaxesCurrent).copied().unwrap_or(0.0)), want)
}
/// every other item is as after the recalculation
pub fn p25_tax_items(mut a: Accounts, p: Period) -> (Option<PlMap>, Option<PlMap>) {
    assume(a.profit_loss.keys().all(|y| a.others.contains_key(y)));
    let want = a.profit_loss.get(&p).map(|m| {
        let mut n = calc_pl_map(m);
        n.remove(&TaxesCurrent);
        n
    });
    a.calc_tax();
    let got = a.profit_loss.get(&p).map(|m| {
        let mut n = m.clone();
        n.remove(&TaxesCurrent);
        n
    });
    (got, want)
}
/// all but the profit-and-loss statements is as after the recalculation
pub fn p25_tax_rest(mut a: Accounts) -> (Accounts, Accounts) {
    assume(a.profit_loss.keys().all(|y| a.others.contains_key(y)));
    let mut b = a.clone();
    b.calc_elements();
    a.calc_tax();
    b.profit_loss = a.profit_loss.clone();
    (a, b)
}
pub fn p25_tax_periods(mut a: Accounts, p: Period) -> (bool, bool) {
    assume(a.profit_loss.keys().all(|y| a.others.contains_key(y)));
    let had = a.profit_loss.contains_key(&p);
    a.calc_tax();
    (a.profit_loss.contains_key(&p), had)
}
pub fn p25_rates(mut a: Accounts, c: f64, g: f64, r: f64, p: Period, k: FinOthersTyp) -> (Option<Option<f64>>, Option<Option<f64>>) {
    let old = a.others.get(&p).map(|m| m.get(&k).copied());
    let want = if a.profit_loss.contains_key(&p) {
        match k {
            CorporateTaxRate => Some(Some(c)),
            GrossProfitTaxRate => Some(Some(g)),
            RevenueTaxRate => Some(Some(r)),
            _ => Some(old.flatten()),
        }
    } else {
        old
    };
    a.set_tax_rates(c, g, r);
    (a.others.get(&p).map(|m| m.get(&k).copied()), want)
}
pub fn p25_rates_rest(mut a: Accounts, c: f64, g: f64, r: f64) -> (Accounts, Accounts) {
    let mut b = a.clone();
    a.set_tax_rates(c, g, r);
    b.others = a.others.clone();
    (a, b)
}

// ---------------------------------------------------------------- P26 reports and statements
pub fn p26_round_trip(x: FinancialReport) -> (Option<FinancialReport>, Option<FinancialReport>) {
    assume(x.profit_loss.is_some());
    let (a, b, c, d, e) = x.to_statements();
    (FinancialReport::from_statements(&a, &b, &c, &d, &e), Some(x))
}
pub fn p26_beg(x: FinancialReport) -> (Option<BalanceSheet>, Option<BalanceSheet>) {
    (x.to_statements().0, x.balance_sheet_beg.clone().map(|m| BalanceSheet { date: x.period.0, items: m }))
}
pub fn p26_end(x: FinancialReport) -> (Option<BalanceSheet>, Option<BalanceSheet>) {
    (x.to_statements().1, x.balance_sheet_end.clone().map(|m| BalanceSheet { date: x.period.1, items: m }))
}
pub fn p26_pl(x: FinancialReport) -> (Option<ProfitLoss>, Option<ProfitLoss>) {
    (x.to_statements().2, x.profit_loss.clone().map(|m| ProfitLoss { period: x.period, items: m }))
}
pub fn p26_cf(x: FinancialReport) -> (Option<CashFlow>, Option<CashFlow>) {
    (x.to_statements().3, x.cash_flow.clone().map(|m| CashFlow { period: x.period, items: m }))
}
pub fn p26_others(x: FinancialReport) -> (Option<FinOthers>, Option<FinOthers>) {
    (x.to_statements().4, x.others.clone().map(|m| FinOthers { period: x.period, items: m }))
}
pub fn p26_accessors(x: FinancialReport) -> bool {
    let (a, b, c, d, e) = x.to_statements();
    a == x.balance_sheet_beg() && b == x.balance_sheet_end() && c == x.profit_loss() && d == x.cash_flow() && e == x.fin_others()
}
pub fn p26_assembly(
    b0: Option<BalanceSheet>,
    b1: Option<BalanceSheet>,
    pl: ProfitLoss,
    cf: Option<CashFlow>,
    o: Option<FinOthers>,
) -> (Option<FinancialReport>, Option<FinancialReport>) {
    let (d0, d1) = pl.period;
    let mut fits = true;
    if let Some(s) = &b0 {
        fits = fits && s.date == d0;
    }
    if let Some(s) = &b1 {
        fits = fits && s.date == d1;
    }
    if let Some(s) = &cf {
        fits = fits && s.period == (d0, d1);
    }
    if let Some(s) = &o {
        fits = fits && s.period == (d0, d1);
    }
    let got = FinancialReport::from_statements(&b0, &b1, &Some(pl.clone()), &cf, &o);
    let whole = FinancialReport {
        period: (d0, d1),
        balance_sheet_beg: b0.map(|s| s.items),
        balance_sheet_end: b1.map(|s| s.items),
        profit_loss: Some(pl.items),
        cash_flow: cf.map(|s| s.items),
        others: o.map(|s| s.items),
    };
    (got, if fits { Some(whole) } else { None })
}
pub fn p26_needs_pl(b0: Option<BalanceSheet>, b1: Option<BalanceSheet>, cf: Option<CashFlow>, o: Option<FinOthers>) -> bool {
    panics(|| {
        FinancialReport::from_statements(&b0, &b1, &None, &cf, &o);
    })
}

// ---------------------------------------------------------------- P27 reading accounts
fn report(a: &Accounts, p: Period) -> FinancialReport {
    FinancialReport {
        period: p,
        balance_sheet_beg: a.balance_sheet.get(&p.0).cloned(),
        balance_sheet_end: a.balance_sheet.get(&p.1).cloned(),
        profit_loss: a.profit_loss.get(&p).cloned(),
        cash_flow: a.cash_flow.get(&p).cloned(),
        others: a.others.get(&p).cloned(),
    }
}
pub fn p27_account(a: Accounts, d0: NDt, d1: NDt) -> (Option<FinancialReport>, Option<FinancialReport>) {
    let want = if a.profit_loss.contains_key(&(d0, d1)) { Some(report(&a, (d0, d1))) } else { None };
    (a.get_account(d0, d1), want)
}
pub fn p27_reports(a: Accounts) -> (Vec<FinancialReport>, Vec<FinancialReport>) {
    let mut want = vec![];
    for (p, _) in a.profit_loss.iter() {
        want.push(report(&a, *p));
    }
    (a.to_financial_reports(), want)
}
pub fn p27_periods_pl(a: Accounts, ps: BTreeSet<Period>, p: Period) -> (Option<PlMap>, Option<PlMap>) {
    let want = if ps.contains(&p) { a.profit_loss.get(&p).cloned() } else { None };
    (a.from_periods(ps).profit_loss.get(&p).cloned(), want)
}
pub fn p27_periods_cf(a: Accounts, ps: BTreeSet<Period>, p: Period) -> (Option<CfMap>, Option<CfMap>) {
    let want = if ps.contains(&p) { a.cash_flow.get(&p).cloned() } else { None };
    (a.from_periods(ps).cash_flow.get(&p).cloned(), want)
}
pub fn p27_periods_others(a: Accounts, ps: BTreeSet<Period>, p: Period) -> (Option<FinOthersMap>, Option<FinOthersMap>) {
    let want = if ps.contains(&p) { a.others.get(&p).cloned() } else { None };
    (a.from_periods(ps).others.get(&p).cloned(), want)
}
pub fn p27_periods_bs(a: Accounts, ps: BTreeSet<Period>, d: NDt) -> (Option<BsMap>, Option<BsMap>) {
    let want = if ps.iter().any(|p| p.0 == d || p.1 == d) { a.balance_sheet.get(&d).cloned() } else { None };
    (a.from_periods(ps).balance_sheet.get(&d).cloned(), want)
}
pub fn p27_periods_dates(a: Accounts, ps: BTreeSet<Period>, d: NDt) -> (bool, bool) {
    let want = ps.iter().any(|p| p.0 == d || p.1 == d);
    (a.from_periods(ps).dates.contains(&d), want)
}
pub fn p27_periods_rest(a: Accounts, ps: BTreeSet<Period>) -> ((Currency, bool), (Currency, bool)) {
    let n = a.from_periods(ps);
    ((n.currency, n.consolidated), (a.currency, a.consolidated))
}

// ---------------------------------------------------------------- P28 date validation
pub fn p28_check(dts: Vec<Period>) -> (bool, bool) {
    let want = (0..dts.len()).all(|i| dts[i].0 <= dts[i].1) && (1..dts.len()).all(|i| dts[i].0 == dts[i - 1].1);
    check_bounds();
    (check_dates(&dts), want)
}
pub fn p28_accounts(a: Accounts) -> (bool, bool) {
    let v: Vec<Period> = a.profit_loss.keys().copied().collect();
    (a.check_dates(), check_dates(&v))
}
pub fn p28_valid(a: Accounts, d: NDt) -> (bool, bool) {
    (a.valid_date(d), a.dates.iter().any(|x| *x == d))
}
pub fn p28_set_dates(mut a: Accounts, d: NDt) -> (bool, bool) {
    assume(a.profit_loss.keys().all(|p| p.0 <= p.1));
    let want = a.dates.contains(&d) || a.profit_loss.keys().any(|p| p.0 == d || p.1 == d);
    a.set_dates_from_profit_loss();
    (a.dates.contains(&d), want)
}
pub fn p28_set_dates_rest(mut a: Accounts) -> (Accounts, Accounts) {
    assume(a.profit_loss.keys().all(|p| p.0 <= p.1));
    let mut b = a.clone();
    a.set_dates_from_profit_loss();
    b.dates = a.dates.clone();
    (a, b)
}
pub fn p28_set_dates_refuses(mut a: Accounts) -> (bool, bool) {
    let bad = a.profit_loss.keys().any(|p| p.0 > p.1);
    (panics(|| { a.set_dates_from_profit_loss(); }), bad)
}

// ---------------------------------------------------------------- P29 annual and quarterly
pub fn p29_annual(a: Accounts, p: Period) -> (bool, bool) {
    (a.split_periods().0.contains(&p), a.profit_loss.contains_key(&p) && (p.1 - p.0).num_days() > 120)
}
pub fn p29_quarterly(a: Accounts, p: Period) -> (bool, bool) {
    (a.split_periods().1.contains(&p), a.profit_loss.contains_key(&p) && (p.1 - p.0).num_days() <= 120)
}

// ---------------------------------------------------------------- P30 consecutive chain
fn latest(ps: &BTreeSet<Period>) -> NDt {
    let mut d = NDt::from_ymd_opt(1000, 1, 1).unwrap();
    for p in ps.iter() {
        if p.1 > d {
            d = p.1;
        }
    }
    d
}
/// the given day of the month, or its last day
fn day_of(y: i32, m: u32, day: u32) -> NDt {
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let last = match m {
        2 => {
            if leap {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    NDt::from_ymd_opt(y, m, if day < last { day } else { last }).unwrap()
}
/// the same day, as the first that exists
fn first_day(y: i32, m: u32, day: u32) -> NDt {
    let at = |d| NDt::from_ymd_opt(y, m, d);
    at(day).unwrap_or_else(|| at(30).unwrap_or_else(|| at(29).unwrap_or_else(|| at(28).unwrap())))
}
pub fn p30_day(y: i32, m: u32, day: u32) -> (NDt, NDt) {
    assume(y > 0 && y < 9999 && m >= 1 && m <= 12 && day >= 1 && day <= 31);
    (first_day(y, m, day), day_of(y, m, day))
}
pub fn p30_chain(ps: BTreeSet<Period>) -> (BTreeSet<Period>, BTreeSet<Period>) {
    allow_panics();
    let mut d = latest(&ps);
    let day = d.day();
    let mut want = BTreeSet::new();
    for _ in 0..100 {
        let (y, m) = (d.year(), d.month());
        let (yq, mq) = if m > 3 { (y, m - 3) } else { (y - 1, m + 9) };
        let quarter = first_day(yq, mq, day);
        let year = first_day(y - 1, m, day);
        if ps.contains(&(quarter, d)) {
            want.insert((quarter, d));
            d = quarter;
        } else if ps.contains(&(year, d)) {
            want.insert((year, d));
            d = year;
        } else {
            break;
        }
    }
    (consecutive_periods(&ps), want)
}
pub fn p30_completes(ps: BTreeSet<Period>) {
    consecutive_periods(&ps);
}
pub fn p30_profit_loss(a: Accounts) -> (Accounts, Accounts) {
    allow_panics();
    let ps: BTreeSet<Period> = a.profit_loss.keys().copied().collect();
    (a.consecutive_profit_loss(), a.from_periods(consecutive_periods(&ps)))
}
pub fn p30_cash_flow(a: Accounts) -> (Accounts, Accounts) {
    allow_panics();
    let ps: BTreeSet<Period> = a.cash_flow.keys().copied().collect();
    (a.consecutive_cash_flow(), a.from_periods(consecutive_periods(&ps)))
}

// ---------------------------------------------------------------- P31 bulk operations
fn calc_bs_map(m: &BsMap) -> BsMap {
    let mut n = m.clone();
    n.calc_elements();
    n
}
fn calc_pl_map(m: &PlMap) -> PlMap {
    let mut n = m.clone();
    n.calc_elements();
    n
}
fn calc_cf_map(m: &CfMap) -> CfMap {
    let mut n = m.clone();
    n.calc_elements();
    n
}
fn clean_bs(m: &BsMap) -> BsMap {
    let mut n = m.clone();
    n.remove_calc_clean();
    n
}
fn clean_pl(m: &PlMap) -> PlMap {
    let mut n = m.clone();
    n.remove_calc_clean();
    n
}
fn clean_cf(m: &CfMap) -> CfMap {
    let mut n = m.clone();
    n.remove_calc_clean();
    n
}
pub fn p31_calc_bs(mut a: Accounts, d: NDt) -> (Option<BsMap>, Option<BsMap>) {
    let want = a.balance_sheet.get(&d).map(|m| calc_bs_map(m));
    a.calc_elements();
    (a.balance_sheet.get(&d).cloned(), want)
}
pub fn p31_calc_pl(mut a: Accounts, p: Period) -> (Option<PlMap>, Option<PlMap>) {
    let want = a.profit_loss.get(&p).map(|m| calc_pl_map(m));
    a.calc_elements();
    (a.profit_loss.get(&p).cloned(), want)
}
pub fn p31_calc_cf(mut a: Accounts, p: Period) -> (Option<CfMap>, Option<CfMap>) {
    let want = a.cash_flow.get(&p).map(|m| calc_cf_map(m));
    a.calc_elements();
    (a.cash_flow.get(&p).cloned(), want)
}
pub fn p31_calc_rest(mut a: Accounts) -> bool {
    let b = a.clone();
    a.calc_elements();
    a.currency == b.currency && a.consolidated == b.consolidated && a.dates == b.dates && a.others == b.others
}
pub fn p31_clean_bs(mut a: Accounts, d: NDt) -> (Option<BsMap>, Option<BsMap>) {
    let want = a.balance_sheet.get(&d).map(|m| clean_bs(m));
    a.remove_calc_clean();
    (a.balance_sheet.get(&d).cloned(), want)
}
pub fn p31_clean_pl(mut a: Accounts, p: Period) -> (Option<PlMap>, Option<PlMap>) {
    let want = a.profit_loss.get(&p).map(|m| clean_pl(m));
    a.remove_calc_clean();
    (a.profit_loss.get(&p).cloned(), want)
}
pub fn p31_clean_cf(mut a: Accounts, p: Period) -> (Option<CfMap>, Option<CfMap>) {
    let want = a.cash_flow.get(&p).map(|m| clean_cf(m));
    a.remove_calc_clean();
    (a.cash_flow.get(&p).cloned(), want)
}
pub fn p31_clean_rest(mut a: Accounts) -> bool {
    let b = a.clone();
    a.remove_calc_clean();
    a.currency == b.currency && a.consolidated == b.consolidated && a.dates == b.dates && a.others == b.others
}
fn rates_there(a: &Accounts) -> bool {
    a.profit_loss.keys().all(|y| {
        a.others.contains_key(y)
            && a.others[y].contains_key(&CorporateTaxRate)
            && a.others[y].contains_key(&GrossProfitTaxRate)
            && a.others[y].contains_key(&RevenueTaxRate)
    })
}
fn derive(b0: &BsMap, b1: &BsMap, pl: &PlMap, o: &FinOthersMap) -> CfMap {
    let mut cf = calc_cash_flow(b0, b1, pl, rate(o, CorporateTaxRate), rate(o, GrossProfitTaxRate), rate(o, RevenueTaxRate));
    cf.calc_elements();
    cf
}
pub fn p31_derive(mut a: Accounts, p: Period) -> (Option<CfMap>, Option<CfMap>) {
    assume(rates_there(&a));
    let want = match (a.profit_loss.get(&p), a.balance_sheet.get(&p.0), a.balance_sheet.get(&p.1)) {
        (Some(pl), Some(b0), Some(b1)) => Some(derive(b0, b1, pl, &a.others[&p])),
        _ => a.cash_flow.get(&p).cloned(),
    };
    a.calc_cash_flow();
    (a.cash_flow.get(&p).cloned(), want)
}
pub fn p31_derive_rest(mut a: Accounts) -> (Accounts, Accounts) {
    assume(rates_there(&a));
    let mut b = a.clone();
    a.calc_cash_flow();
    b.cash_flow = a.cash_flow.clone();
    (a, b)
}
pub fn p31_report(mut x: FinancialReport) -> (FinancialReport, FinancialReport) {
    assume(x.profit_loss.is_some());
    assume(x.others.is_some());
    let o = x.others.clone().unwrap();
    assume(o.contains_key(&CorporateTaxRate) && o.contains_key(&GrossProfitTaxRate) && o.contains_key(&RevenueTaxRate));
    let pl = x.profit_loss.as_ref().map(|m| calc_pl_map(m));
    let b0 = x.balance_sheet_beg.as_ref().map(|m| calc_bs_map(m));
    let b1 = x.balance_sheet_end.as_ref().map(|m| calc_bs_map(m));
    let cf = match (&b0, &b1) {
        (Some(m0), Some(m1)) => Some(derive(m0, m1, pl.as_ref().unwrap(), &o)),
        _ => None,
    };
    let want = FinancialReport { period: x.period, balance_sheet_beg: b0, balance_sheet_end: b1, profit_loss: pl, cash_flow: cf, others: x.others.clone() };
    x.calc_elements();
    (x, want)
}
