use crate::*;
use chrono::naive::NaiveDate as NDt;
use financelib::statements::BsType::*;
use financelib::statements::CfType::*;
use financelib::statements::FinOthersTyp::*;
use financelib::statements::PlType::*;
use financelib::statements::*;
use financelib::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn clamp(x: f64) -> f64 {
    if x.abs() > 1e-5 { x } else { 0.0 }
}
pub fn kept(x: f64) -> Option<f64> {
    if x.abs() > 1e-5 { Some(x) } else { None }
}

// ---------------------------------------------------------------- the statements as their documentation lists them
pub fn calc_bs(k: BsType) -> bool {
    matches!(
        k,
        Inventories
            | CurrentAssets
            | NetPlantPropertyEquipment
            | NetLeaseRentalAssets
            | NetIntangibleAssets
            | LongTermAssets
            | Assets
            | CurrentLiabilities
            | LongTermLiabilities
            | Liabilities
            | Equity
            | BalanceSheetCheck
    )
}
pub fn calc_pl(k: PlType) -> bool {
    matches!(
        k,
        Revenue
            | COGS
            | GrossProfit
            | EBITDA
            | EBITX
            | EBTX
            | EBT
            | EAT
            | NetIncome
            | ContributionRetainedEarnings
            | GainsLossesSales
            | OtherComprehensiveIncome
            | TotalComprehensiveIncome
    )
}
pub fn calc_cf(k: CfType) -> bool {
    matches!(
        k,
        CashFlowOperations | CashFlowInvestments | CashFlowFinancing | NetCashFlow | FreeCashFlowEquity | CashFlowDebt | FreeCashFlowFirm
    )
}
pub fn sum_bs(m: &BsMap, items: &[BsType]) -> f64 {
    let mut s = 0.0;
    for k in items {
        s += m.get(k).copied().unwrap_or(0.0);
    }
    s
}
pub fn sum_pl(m: &PlMap, items: &[PlType]) -> f64 {
    let mut s = 0.0;
    for k in items {
        s += m.get(k).copied().unwrap_or(0.0);
    }
    s
}
pub fn sum_cf(m: &CfMap, items: &[CfType]) -> f64 {
    let mut s = 0.0;
    for k in items {
        s += m.get(k).copied().unwrap_or(0.0);
    }
    s
}

// ---------------------------------------------------------------- P17 totals
fn bs_after(mut m: BsMap) -> BsMap {
    m.calc_elements();
    m
}
fn pl_after(mut m: PlMap) -> PlMap {
    m.calc_elements();
    m
}
fn cf_after(mut m: CfMap) -> CfMap {
    m.calc_elements();
    m
}
fn bs_total(m: BsMap, k: BsType, pos: &[BsType], neg: &[BsType]) -> (Option<f64>, Option<f64>) {
    let n = bs_after(m);
    (n.get(&k).copied(), kept(sum_bs(&n, pos) - sum_bs(&n, neg)))
}
fn pl_total(m: PlMap, k: PlType, pos: &[PlType], neg: &[PlType]) -> (Option<f64>, Option<f64>) {
    let n = pl_after(m);
    (n.get(&k).copied(), kept(sum_pl(&n, pos) - sum_pl(&n, neg)))
}
fn cf_total(m: CfMap, k: CfType, pos: &[CfType], neg: &[CfType]) -> (Option<f64>, Option<f64>) {
    let n = cf_after(m);
    (n.get(&k).copied(), kept(sum_cf(&n, pos) - sum_cf(&n, neg)))
}
pub fn p17_bs_entered(m: BsMap, k: BsType) -> (Option<f64>, Option<f64>) {
    assume(!calc_bs(k));
    let old = m.get(&k).copied();
    (bs_after(m).get(&k).copied(), old)
}
pub fn p17_pl_entered(m: PlMap, k: PlType) -> (Option<f64>, Option<f64>) {
    assume(!calc_pl(k));
    let old = m.get(&k).copied();
    (pl_after(m).get(&k).copied(), old)
}
pub fn p17_cf_entered(m: CfMap, k: CfType) -> (Option<f64>, Option<f64>) {
    assume(!calc_cf(k));
    let old = m.get(&k).copied();
    (cf_after(m).get(&k).copied(), old)
}
pub type OO = (Option<f64>, Option<f64>);
pub fn p17_bs_inventories(m: BsMap) -> OO {
    bs_total(m, Inventories, &[RawMaterials, WorkInProgress, FinishedGoods], &[])
}
pub fn p17_bs_current_assets(m: BsMap) -> OO {
    bs_total(m, CurrentAssets, &[Cash, CurrentReceivables, CurrentLoans, CurrentAdvances, OtherCurrentAssets, CurrentInvestments, Inventories], &[])
}
pub fn p17_bs_net_ppe(m: BsMap) -> OO {
    bs_total(m, NetPlantPropertyEquipment, &[PlantPropertyEquipment], &[AccumulatedDepreciation])
}
pub fn p17_bs_net_lease(m: BsMap) -> OO {
    bs_total(m, NetLeaseRentalAssets, &[LeasingRentalAssets], &[AccumulatedAmortizationLease])
}
pub fn p17_bs_net_intangible(m: BsMap) -> OO {
    bs_total(m, NetIntangibleAssets, &[IntangibleAssets, IntangibleAssetsDevelopment], &[AccumulatedAmortization])
}
pub fn p17_bs_long_term_assets(m: BsMap) -> OO {
    bs_total(
        m,
        LongTermAssets,
        &[
            AccountReceivables,
            LongTermLoanAssets,
            LongTermAdvances,
            LongTermInvestments,
            OtherLongTermAssets,
            NetPlantPropertyEquipment,
            NetLeaseRentalAssets,
            Goodwill,
            CapitalWip,
            OtherTangibleAssets,
            NetIntangibleAssets,
        ],
        &[],
    )
}
pub fn p17_bs_assets(m: BsMap) -> OO {
    bs_total(m, Assets, &[CurrentAssets, LongTermAssets], &[])
}
pub fn p17_bs_current_liabilities(m: BsMap) -> OO {
    bs_total(
        m,
        CurrentLiabilities,
        &[
            CurrentPayables,
            CurrentBorrowings,
            CurrentNotesPayable,
            OtherCurrentLiabilities,
            InterestPayable,
            CurrentProvisions,
            CurrentTaxPayables,
            LiabilitiesSaleAssets,
            CurrentLeasesLiability,
        ],
        &[],
    )
}
pub fn p17_bs_long_term_liabilities(m: BsMap) -> OO {
    bs_total(
        m,
        LongTermLiabilities,
        &[
            AccountPayables,
            LongTermBorrowings,
            BondsPayable,
            DeferredTaxLiabilities,
            LongTermLeasesLiability,
            DeferredCompensation,
            DeferredRevenues,
            CustomerDeposits,
            OtherLongTermLiabilities,
            PensionProvision,
            TaxProvision,
            LongTermProvision,
        ],
        &[],
    )
}
pub fn p17_bs_liabilities(m: BsMap) -> OO {
    bs_total(m, Liabilities, &[CurrentLiabilities, LongTermLiabilities], &[])
}
pub fn p17_bs_equity(m: BsMap) -> OO {
    bs_total(
        m,
        Equity,
        &[
            CommonStock,
            PreferredStock,
            PdInCapAbovePar,
            PdInCapTreasuryStock,
            RevaluationReserves,
            Reserves,
            RetainedEarnings,
            AccumulatedOCI,
            MinorityInterests,
        ],
        &[],
    )
}
pub fn p17_bs_check(m: BsMap) -> OO {
    bs_total(m, BalanceSheetCheck, &[Assets], &[Liabilities, Equity])
}
pub fn p17_bs_check_all(m: BsMap) -> (f64, f64) {
    negligible();
    let n = bs_after(m.clone());
    (n.get(&BalanceSheetCheck).copied().unwrap_or(0.0), check(&m))
}
pub fn p17_pl_revenue(m: PlMap) -> OO {
    pl_total(m, Revenue, &[OperatingRevenue, NonOperatingRevenue], &[ExciseStaxLevy])
}
pub fn p17_pl_cogs(m: PlMap) -> OO {
    pl_total(m, COGS, &[CostMaterial, DirectExpenses], &[])
}
pub fn p17_pl_gross_profit(m: PlMap) -> OO {
    pl_total(m, GrossProfit, &[Revenue], &[COGS])
}
pub fn p17_pl_ebitda(m: PlMap) -> OO {
    pl_total(
        m,
        EBITDA,
        &[GrossProfit, OtherIncome],
        &[
            Salaries,
            AdministrativeExpenses,
            ResearchNDevelopment,
            OtherOverheads,
            OtherOperativeExpenses,
            OtherExpenses,
            ExceptionalItems,
        ],
    )
}
pub fn p17_pl_ebitx(m: PlMap) -> OO {
    pl_total(m, EBITX, &[EBITDA], &[Depreciation, AssetImpairment, LossDivestitures, Amortization])
}
pub fn p17_pl_ebtx(m: PlMap) -> OO {
    pl_total(m, EBTX, &[EBITX, InterestRevenue, OtherFinancialRevenue], &[InterestExpense, CostDebt])
}
pub fn p17_pl_ebt(m: PlMap) -> OO {
    pl_total(m, EBT, &[EBTX], &[ExtraordinaryItems, PriorYears])
}
pub fn p17_pl_eat(m: PlMap) -> OO {
    pl_total(m, EAT, &[EBT], &[TaxesCurrent, TaxesDeferred])
}
pub fn p17_pl_net_income(m: PlMap) -> OO {
    pl_total(m, NetIncome, &[EAT, NetIncomeDiscontinuedOps], &[])
}
pub fn p17_pl_retained(m: PlMap) -> OO {
    pl_total(m, ContributionRetainedEarnings, &[NetIncome], &[Dividends])
}
pub fn p17_pl_gains_sales(m: PlMap) -> OO {
    pl_total(
        m,
        GainsLossesSales,
        &[
            SalesAmountPPE,
            SalesAmountLeaseRentalAssets,
            SalesAmountIntangibleAssets,
            AccAmortSalesPPE,
            AccAmortSalesLeaseRental,
            AccAmortSalesIntangible,
        ],
        &[GrossSalesPPE, GrossSalesLeaseRentalAssets, GrossSalesIntangibleAssets],
    )
}
pub fn p17_pl_oci(m: PlMap) -> OO {
    pl_total(
        m,
        OtherComprehensiveIncome,
        &[GainsLossesForex, GainsLossesActurial, GainsLossesSales, FvChangeAvlSale],
        &[OtherDeferredTaxes],
    )
}
pub fn p17_pl_total_comprehensive(m: PlMap) -> OO {
    pl_total(m, TotalComprehensiveIncome, &[NetIncome, OtherComprehensiveIncome], &[])
}
pub fn p17_cf_operations(m: CfMap) -> OO {
    cf_total(
        m,
        CashFlowOperations,
        &[
            ChangeCurrentLiabilities,
            ChangeLongTermLiabilities,
            ChangeProvisions,
            ChangeRetainedEarnings,
            AdjustmentsRetainedEarnings,
            ChangeAccumulatedOci,
            OtherCashFlowOperations,
        ],
        &[ChangeCurrentAssets, ChangeLongTermAssets],
    )
}
pub fn p17_cf_investments(m: CfMap) -> OO {
    cf_total(
        m,
        CashFlowInvestments,
        &[OtherCashFlowInvestments, AdjustmentsSalesAssets, ChangeReserves],
        &[ChangePPE, InvestmentsCapDevp, InvestmentsLoans, ChangeEquityAssets, ChangeInvestments],
    )
}
pub fn p17_cf_financing(m: CfMap) -> OO {
    cf_total(
        m,
        CashFlowFinancing,
        &[StockSalesAndPurchase, ChangeDebt, DonorContribution, OtherCashFlowFinancing],
        &[CashFlowInterests, CashFlowDividends],
    )
}
pub fn p17_cf_net(m: CfMap) -> OO {
    cf_total(m, NetCashFlow, &[CashFlowOperations, CashFlowInvestments, CashFlowFinancing], &[])
}
pub fn p17_cf_equity(m: CfMap) -> OO {
    cf_total(
        m,
        FreeCashFlowEquity,
        &[CashFlowOperations, ChangeDebt, ChangeReserves, AdjustmentsSalesAssets],
        &[CashFlowInterests, ChangePPE],
    )
}
pub fn p17_cf_debt(m: CfMap) -> OO {
    cf_total(m, CashFlowDebt, &[CashFlowInterests], &[ChangeDebt])
}
pub fn p17_cf_firm(m: CfMap) -> OO {
    cf_total(m, FreeCashFlowFirm, &[FreeCashFlowEquity, CashFlowDebt], &[CashFlowTaxShield])
}

// ---------------------------------------------------------------- P18 calculated items are refused
pub fn p18_calc_bs(k: BsType) -> (bool, bool) {
    (k.is_calc(), calc_bs(k))
}
pub fn p18_calc_pl(k: PlType) -> (bool, bool) {
    (k.is_calc(), calc_pl(k))
}
pub fn p18_calc_cf(k: CfType) -> (bool, bool) {
    (k.is_calc(), calc_cf(k))
}
pub fn p18_bs_add(mut m: BsMap, k: BsType, v: f64) -> (bool, bool) {
    (panics(|| { m.add(k, v); }), calc_bs(k))
}
pub fn p18_pl_add(mut m: PlMap, k: PlType, v: f64) -> (bool, bool) {
    (panics(|| { m.add(k, v); }), calc_pl(k))
}
pub fn p18_cf_add(mut m: CfMap, k: CfType, v: f64) -> (bool, bool) {
    (panics(|| { m.add(k, v); }), calc_cf(k))
}
pub fn p18_bs_upsert(mut m: BsMap, k: BsType, v: f64) -> (bool, bool) {
    (panics(|| { m.upsert(k, v); }), calc_bs(k))
}
pub fn p18_pl_upsert(mut m: PlMap, k: PlType, v: f64) -> (bool, bool) {
    (panics(|| { m.upsert(k, v); }), calc_pl(k))
}
pub fn p18_cf_upsert(mut m: CfMap, k: CfType, v: f64) -> (bool, bool) {
    (panics(|| { m.upsert(k, v); }), calc_cf(k))
}
pub fn p18_bs_add_vec(mut m: BsMap, x: Vec<(BsType, f64)>) -> (bool, bool) {
    (panics(|| { m.add_vec(&x); }), x.iter().any(|p| calc_bs(p.0)))
}
pub fn p18_pl_add_vec(mut m: PlMap, x: Vec<(PlType, f64)>) -> (bool, bool) {
    (panics(|| { m.add_vec(&x); }), x.iter().any(|p| calc_pl(p.0)))
}
pub fn p18_cf_add_vec(mut m: CfMap, x: Vec<(CfType, f64)>) -> (bool, bool) {
    (panics(|| { m.add_vec(&x); }), x.iter().any(|p| calc_cf(p.0)))
}
pub fn p18_bs_upsert_vec(mut m: BsMap, x: Vec<(BsType, f64)>) -> (bool, bool) {
    (panics(|| { m.upsert_vec(&x); }), x.iter().any(|p| calc_bs(p.0)))
}
pub fn p18_pl_upsert_vec(mut m: PlMap, x: Vec<(PlType, f64)>) -> (bool, bool) {
    (panics(|| { m.upsert_vec(&x); }), x.iter().any(|p| calc_pl(p.0)))
}
pub fn p18_cf_upsert_vec(mut m: CfMap, x: Vec<(CfType, f64)>) -> (bool, bool) {
    (panics(|| { m.upsert_vec(&x); }), x.iter().any(|p| calc_cf(p.0)))
}
pub fn p18_bs_debit(mut m: BsMap, k: BsType, v: f64) -> (bool, bool) {
    check_bounds();
    (panics(|| { m.debit(k, v); }), calc_bs(k))
}
pub fn p18_bs_credit(mut m: BsMap, k: BsType, v: f64) -> (bool, bool) {
    check_bounds();
    (panics(|| { m.credit(k, v); }), calc_bs(k))
}
pub fn p18_bs_transact(mut m: BsMap, d: BsType, c: BsType, v: f64) -> (bool, bool) {
    check_bounds();
    (panics(|| { m.transact((d, c, v)); }), calc_bs(d) || calc_bs(c))
}
pub fn p18_bs_series(mut m: BsMap, x: Vec<(BsType, BsType, f64)>) -> (bool, bool) {
    check_bounds();
    let bad = x.iter().any(|p| calc_bs(p.0) || calc_bs(p.1));
    (panics(|| { m.transact_series(x); }), bad)
}
pub fn p18_put_bs(mut a: Accounts, d: NDt, k: BsType, v: f64) -> (bool, bool) {
    assume(a.balance_sheet.contains_key(&d));
    (panics(|| { a.put_balance_sheet(d, k, v); }), calc_bs(k))
}
pub fn p18_put_pl(mut a: Accounts, d: Period, k: PlType, v: f64) -> (bool, bool) {
    assume(a.profit_loss.contains_key(&d));
    (panics(|| { a.put_profit_loss(d, k, v); }), calc_pl(k))
}
pub fn p18_put_cf(mut a: Accounts, d: Period, k: CfType, v: f64) -> (bool, bool) {
    assume(a.cash_flow.contains_key(&d));
    (panics(|| { a.put_cash_flow(d, k, v); }), calc_cf(k))
}

// ---------------------------------------------------------------- P19 entry operations
fn with_bs(m: &BsMap, k: BsType, v: f64) -> BsMap {
    let mut n = m.clone();
    n.insert(k, v);
    n
}
fn with_pl(m: &PlMap, k: PlType, v: f64) -> PlMap {
    let mut n = m.clone();
    n.insert(k, v);
    n
}
fn with_cf(m: &CfMap, k: CfType, v: f64) -> CfMap {
    let mut n = m.clone();
    n.insert(k, v);
    n
}
pub fn p19_bs_value(m: BsMap, k: BsType) -> (f64, f64) {
    (m.value(k), if m.contains_key(&k) { m[&k] } else { 0.0 })
}
pub fn p19_pl_value(m: PlMap, k: PlType) -> (f64, f64) {
    (m.value(k), if m.contains_key(&k) { m[&k] } else { 0.0 })
}
pub fn p19_cf_value(m: CfMap, k: CfType) -> (f64, f64) {
    (m.value(k), if m.contains_key(&k) { m[&k] } else { 0.0 })
}
pub fn p19_bs_add(mut m: BsMap, k: BsType, v: f64) -> (BsMap, BsMap) {
    assume(!calc_bs(k));
    let want = with_bs(&m, k, m.get(&k).copied().unwrap_or(0.0) + v);
    m.add(k, v);
    (m, want)
}
pub fn p19_pl_add(mut m: PlMap, k: PlType, v: f64) -> (PlMap, PlMap) {
    assume(!calc_pl(k));
    let want = with_pl(&m, k, m.get(&k).copied().unwrap_or(0.0) + v);
    m.add(k, v);
    (m, want)
}
pub fn p19_cf_add(mut m: CfMap, k: CfType, v: f64) -> (CfMap, CfMap) {
    assume(!calc_cf(k));
    let want = with_cf(&m, k, m.get(&k).copied().unwrap_or(0.0) + v);
    m.add(k, v);
    (m, want)
}
pub fn p19_bs_upsert(mut m: BsMap, k: BsType, v: f64) -> (BsMap, BsMap) {
    assume(!calc_bs(k));
    let want = with_bs(&m, k, v);
    m.upsert(k, v);
    (m, want)
}
pub fn p19_pl_upsert(mut m: PlMap, k: PlType, v: f64) -> (PlMap, PlMap) {
    assume(!calc_pl(k));
    let want = with_pl(&m, k, v);
    m.upsert(k, v);
    (m, want)
}
pub fn p19_cf_upsert(mut m: CfMap, k: CfType, v: f64) -> (CfMap, CfMap) {
    assume(!calc_cf(k));
    let want = with_cf(&m, k, v);
    m.upsert(k, v);
    (m, want)
}
pub fn p19_bs_add_vec(mut m: BsMap, x: Vec<(BsType, f64)>) -> (BsMap, BsMap) {
    assume(!x.iter().any(|p| calc_bs(p.0)));
    let mut n = m.clone();
    for p in x.iter() {
        n = with_bs(&n, p.0, n.get(&p.0).copied().unwrap_or(0.0) + p.1);
    }
    m.add_vec(&x);
    (m, n)
}
pub fn p19_pl_add_vec(mut m: PlMap, x: Vec<(PlType, f64)>) -> (PlMap, PlMap) {
    assume(!x.iter().any(|p| calc_pl(p.0)));
    let mut n = m.clone();
    for p in x.iter() {
        n = with_pl(&n, p.0, n.get(&p.0).copied().unwrap_or(0.0) + p.1);
    }
    m.add_vec(&x);
    (m, n)
}
pub fn p19_cf_add_vec(mut m: CfMap, x: Vec<(CfType, f64)>) -> (CfMap, CfMap) {
    assume(!x.iter().any(|p| calc_cf(p.0)));
    let mut n = m.clone();
    for p in x.iter() {
        n = with_cf(&n, p.0, n.get(&p.0).copied().unwrap_or(0.0) + p.1);
    }
    m.add_vec(&x);
    (m, n)
}
pub fn p19_bs_upsert_vec(mut m: BsMap, x: Vec<(BsType, f64)>) -> (BsMap, BsMap) {
    assume(!x.iter().any(|p| calc_bs(p.0)));
    let mut n = m.clone();
    for p in x.iter() {
        n = with_bs(&n, p.0, p.1);
    }
    m.upsert_vec(&x);
    (m, n)
}
pub fn p19_pl_upsert_vec(mut m: PlMap, x: Vec<(PlType, f64)>) -> (PlMap, PlMap) {
    assume(!x.iter().any(|p| calc_pl(p.0)));
    let mut n = m.clone();
    for p in x.iter() {
        n = with_pl(&n, p.0, p.1);
    }
    m.upsert_vec(&x);
    (m, n)
}
pub fn p19_cf_upsert_vec(mut m: CfMap, x: Vec<(CfType, f64)>) -> (CfMap, CfMap) {
    assume(!x.iter().any(|p| calc_cf(p.0)));
    let mut n = m.clone();
    for p in x.iter() {
        n = with_cf(&n, p.0, p.1);
    }
    m.upsert_vec(&x);
    (m, n)
}
pub fn p19_get_bs(a: Accounts, d: NDt, k: BsType) -> (f64, f64) {
    assume(a.balance_sheet.contains_key(&d));
    (a.get_balance_sheet(d, k), a.balance_sheet[&d].get(&k).copied().unwrap_or(0.0))
}
pub fn p19_get_pl(a: Accounts, d: Period, k: PlType) -> (f64, f64) {
    assume(a.profit_loss.contains_key(&d));
    (a.get_profit_loss(d, k), a.profit_loss[&d].get(&k).copied().unwrap_or(0.0))
}
pub fn p19_get_cf(a: Accounts, d: Period, k: CfType) -> (f64, f64) {
    assume(a.cash_flow.contains_key(&d));
    (a.get_cash_flow(d, k), a.cash_flow[&d].get(&k).copied().unwrap_or(0.0))
}
pub fn p19_get_bs_absent(a: Accounts, d: NDt, k: BsType) -> (bool, bool) {
    assume(!a.balance_sheet.contains_key(&d));
    (panics(|| { a.get_balance_sheet(d, k); }), true)
}
pub fn p19_get_pl_absent(a: Accounts, d: Period, k: PlType) -> (bool, bool) {
    assume(!a.profit_loss.contains_key(&d));
    (panics(|| { a.get_profit_loss(d, k); }), true)
}
pub fn p19_get_cf_absent(a: Accounts, d: Period, k: CfType) -> (bool, bool) {
    assume(!a.cash_flow.contains_key(&d));
    (panics(|| { a.get_cash_flow(d, k); }), true)
}
pub fn p19_put_bs_absent(mut a: Accounts, d: NDt, k: BsType, v: f64) -> (bool, bool) {
    assume(!a.balance_sheet.contains_key(&d));
    (panics(|| { a.put_balance_sheet(d, k, v); }), true)
}
pub fn p19_put_pl_absent(mut a: Accounts, d: Period, k: PlType, v: f64) -> (bool, bool) {
    assume(!a.profit_loss.contains_key(&d));
    (panics(|| { a.put_profit_loss(d, k, v); }), true)
}
pub fn p19_put_cf_absent(mut a: Accounts, d: Period, k: CfType, v: f64) -> (bool, bool) {
    assume(!a.cash_flow.contains_key(&d));
    (panics(|| { a.put_cash_flow(d, k, v); }), true)
}
pub fn p19_put_bs(mut a: Accounts, d: NDt, k: BsType, v: f64) -> (Accounts, Accounts) {
    assume(a.balance_sheet.contains_key(&d));
    assume(!calc_bs(k));
    let mut b = a.clone();
    let m = with_bs(&b.balance_sheet[&d], k, v);
    b.balance_sheet.insert(d, m);
    a.put_balance_sheet(d, k, v);
    (a, b)
}
pub fn p19_put_pl(mut a: Accounts, d: Period, k: PlType, v: f64) -> (Accounts, Accounts) {
    assume(a.profit_loss.contains_key(&d));
    assume(!calc_pl(k));
    let mut b = a.clone();
    let m = with_pl(&b.profit_loss[&d], k, v);
    b.profit_loss.insert(d, m);
    a.put_profit_loss(d, k, v);
    (a, b)
}
pub fn p19_put_cf(mut a: Accounts, d: Period, k: CfType, v: f64) -> (Accounts, Accounts) {
    assume(a.cash_flow.contains_key(&d));
    assume(!calc_cf(k));
    let mut b = a.clone();
    let m = with_cf(&b.cash_flow[&d], k, v);
    b.cash_flow.insert(d, m);
    a.put_cash_flow(d, k, v);
    (a, b)
}

// ---------------------------------------------------------------- P20 double entry
/// 1 for what a debit raises, -1 for what it lowers
pub fn side(k: BsType) -> f64 {
    match k {
        Cash | CurrentReceivables | CurrentLoans | CurrentAdvances | OtherCurrentAssets | CurrentInvestments | RawMaterials
        | WorkInProgress | FinishedGoods | AccountReceivables | LongTermLoanAssets | LongTermAdvances | LongTermInvestments
        | OtherLongTermAssets | PlantPropertyEquipment | LeasingRentalAssets | Goodwill | CapitalWip | OtherTangibleAssets
        | IntangibleAssets | IntangibleAssetsDevelopment => 1.0,
        _ => -1.0,
    }
}
/// assets minus liabilities minus equity over the entered items
pub fn check(m: &BsMap) -> f64 {
    sum_bs(
        m,
        &[
            Cash,
            CurrentReceivables,
            CurrentLoans,
            CurrentAdvances,
            OtherCurrentAssets,
            CurrentInvestments,
            RawMaterials,
            WorkInProgress,
            FinishedGoods,
            AccountReceivables,
            LongTermLoanAssets,
            LongTermAdvances,
            LongTermInvestments,
            OtherLongTermAssets,
            PlantPropertyEquipment,
            LeasingRentalAssets,
            Goodwill,
            CapitalWip,
            OtherTangibleAssets,
            IntangibleAssets,
            IntangibleAssetsDevelopment,
        ],
    ) - sum_bs(
        m,
        &[
            AccumulatedDepreciation,
            AccumulatedAmortizationLease,
            AccumulatedAmortization,
            CurrentPayables,
            CurrentBorrowings,
            CurrentNotesPayable,
            OtherCurrentLiabilities,
            InterestPayable,
            CurrentProvisions,
            CurrentTaxPayables,
            LiabilitiesSaleAssets,
            CurrentLeasesLiability,
            AccountPayables,
            LongTermBorrowings,
            BondsPayable,
            DeferredTaxLiabilities,
            LongTermLeasesLiability,
            DeferredCompensation,
            DeferredRevenues,
            CustomerDeposits,
            OtherLongTermLiabilities,
            PensionProvision,
            TaxProvision,
            LongTermProvision,
            CommonStock,
            PreferredStock,
            PdInCapAbovePar,
            PdInCapTreasuryStock,
            RevaluationReserves,
            Reserves,
            RetainedEarnings,
            AccumulatedOCI,
            MinorityInterests,
        ],
    )
}
pub fn p20_debit(mut m: BsMap, k: BsType, v: f64) -> (BsMap, BsMap) {
    assume(!calc_bs(k));
    check_bounds();
    let want = with_bs(&m, k, m.get(&k).copied().unwrap_or(0.0) + side(k) * v);
    m.debit(k, v);
    (m, want)
}
pub fn p20_credit(mut m: BsMap, k: BsType, v: f64) -> (BsMap, BsMap) {
    assume(!calc_bs(k));
    check_bounds();
    let want = with_bs(&m, k, m.get(&k).copied().unwrap_or(0.0) - side(k) * v);
    m.credit(k, v);
    (m, want)
}
pub fn p20_debit_check(mut m: BsMap, k: BsType, v: f64) -> (f64, f64) {
    assume(!calc_bs(k));
    let before = check(&m);
    m.debit(k, v);
    (check(&m), before + v)
}
pub fn p20_transact(mut m: BsMap, d: BsType, c: BsType, v: f64) -> (BsMap, BsMap) {
    assume(!calc_bs(d));
    assume(!calc_bs(c));
    check_bounds();
    let mid = with_bs(&m, d, m.get(&d).copied().unwrap_or(0.0) + side(d) * v);
    let want = with_bs(&mid, c, mid.get(&c).copied().unwrap_or(0.0) - side(c) * v);
    m.transact((d, c, v));
    (m, want)
}
pub fn p20_series(mut m: BsMap, x: Vec<(BsType, BsType, f64)>) -> (BsMap, BsMap) {
    assume(!x.iter().any(|p| calc_bs(p.0) || calc_bs(p.1)));
    let mut n = m.clone();
    for p in x.iter() {
        n = with_bs(&n, p.0, n.get(&p.0).copied().unwrap_or(0.0) + side(p.0) * p.2);
        n = with_bs(&n, p.1, n.get(&p.1).copied().unwrap_or(0.0) - side(p.1) * p.2);
    }
    m.transact_series(x);
    (m, n)
}

// ---------------------------------------------------------------- P21 cleaning
pub fn p21_bs_clean(mut m: BsMap, k: BsType) -> OO {
    let want = m.get(&k).copied().filter(|v| *v > 1e-5 || *v < -1e-5);
    m.clean();
    (m.get(&k).copied(), want)
}
pub fn p21_pl_clean(mut m: PlMap, k: PlType) -> OO {
    let want = m.get(&k).copied().filter(|v| *v > 1e-5 || *v < -1e-5);
    m.clean();
    (m.get(&k).copied(), want)
}
pub fn p21_cf_clean(mut m: CfMap, k: CfType) -> OO {
    let want = m.get(&k).copied().filter(|v| *v > 1e-5 || *v < -1e-5);
    m.clean();
    (m.get(&k).copied(), want)
}
pub fn p21_bs_remove(mut m: BsMap, k: BsType) -> OO {
    let want = m.get(&k).copied().filter(|v| !calc_bs(k) && (*v > 1e-5 || *v < -1e-5));
    m.remove_calc_clean();
    (m.get(&k).copied(), want)
}
pub fn p21_pl_remove(mut m: PlMap, k: PlType) -> OO {
    let want = m.get(&k).copied().filter(|v| !calc_pl(k) && (*v > 1e-5 || *v < -1e-5));
    m.remove_calc_clean();
    (m.get(&k).copied(), want)
}
pub fn p21_cf_remove(mut m: CfMap, k: CfType) -> OO {
    let want = m.get(&k).copied().filter(|v| !calc_cf(k) && (*v > 1e-5 || *v < -1e-5));
    m.remove_calc_clean();
    (m.get(&k).copied(), want)
}

// ---------------------------------------------------------------- P22 common size
pub fn p22_bs(m: BsMap, k: BsType) -> OO {
    assume(m.contains_key(&Assets));
    (m.common_size().get(&k).copied(), m.get(&k).map(|v| v / m[&Assets]))
}
pub fn p22_bs_base(m: BsMap) -> (bool, bool) {
    (panics(|| { m.common_size(); }), !m.contains_key(&Assets))
}
pub fn p22_pl_base(m: PlMap) -> (bool, bool) {
    (panics(|| { m.common_size(); }), !m.contains_key(&Revenue))
}
pub fn p22_cf_base(m: CfMap) -> (bool, bool) {
    (panics(|| { m.common_size(); }), !m.contains_key(&NetCashFlow))
}
pub fn p22_pl(m: PlMap, k: PlType) -> OO {
    assume(m.contains_key(&Revenue));
    (m.common_size().get(&k).copied(), m.get(&k).map(|v| v / m[&Revenue]))
}
pub fn p22_cf(m: CfMap, k: CfType) -> OO {
    assume(m.contains_key(&NetCashFlow));
    (m.common_size().get(&k).copied(), m.get(&k).map(|v| v / m[&NetCashFlow]))
}
