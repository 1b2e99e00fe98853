use crate::*;
use chrono::naive::NaiveDate as NDt;
use chrono::Datelike;
use financelib::statements::BsType::*;
use financelib::statements::CfType::*;
use financelib::statements::FinOthersTyp::*;
use financelib::statements::PlType::*;
use financelib::statements::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ---------------------------------------------------------------- P35 the printed table
fn cell(w: Option<f64>, sep: &str, mult: f64) -> String {
    match w {
        None => format!("{sep}         "),
        Some(v) if v > 0.0001 && v < 1.0 => format!("{sep}{:>8.1}%", v * 100.0),
        Some(v) => format!("{sep}{:>9.0}", v / mult),
    }
}
fn shown<K, T: Copy + Eq + std::hash::Hash>(k: T, h: &BTreeMap<K, HashMap<T, f64>>) -> bool {
    let total: f64 = h.values().map(|b| b.get(&k).copied().unwrap_or(0.0).abs()).sum();
    total > 0.0001
}
fn row<K: Copy + Ord, T: Copy + Eq + std::hash::Hash + std::fmt::Debug>(k: T, h: &BTreeMap<K, HashMap<T, f64>>, cols: &BTreeSet<K>, sep: &str, mult: f64) -> String {
    if !shown(k, h) {
        return String::new();
    }
    let mut s = format!("{:<30}", format!("{k:?}"));
    for z in cols {
        s += &cell(h.get(z).map(|w| w.get(&k).copied().unwrap_or(0.0)), sep, mult);
    }
    s + "\n"
}
fn block<K: Copy + Ord, T: Copy + Eq + std::hash::Hash + std::fmt::Debug>(
    total: T, plus: &Vec<T>, minus: &Vec<T>, h: &BTreeMap<K, HashMap<T, f64>>, cols: &BTreeSet<K>, sep: &str, mult: f64,
) -> String {
    let mut s = String::new();
    for k in plus.iter().chain(minus.iter()) {
        s += &row(*k, h, cols, sep, mult);
    }
    s += &row(total, h, cols, sep, mult);
    if shown(total, h) {
        s += "\n";
    }
    s
}
fn month(d: NDt, sep: &str) -> String {
    format!("{sep}  {}-{:02}", d.year(), d.month())
}
fn heading(title: &str, cols: &BTreeSet<(NDt, NDt)>, sep: &str) -> String {
    let mut s = format!("\n\n{title}\n\n{:<30}", "Begin Date");
    for p in cols {
        s += &month(p.0, sep);
    }
    s += &format!("\n{:<30}", "End Date");
    for p in cols {
        s += &month(p.1, sep);
    }
    s + "\n\n"
}
fn profit_loss_table(a: &Accounts, title: &str, cols: &BTreeSet<(NDt, NDt)>, sep: &str, mult: f64) -> String {
    let mut s = heading(title, cols, sep);
    for (t, p, m) in &profit_loss_rows() {
        s += &block(*t, p, m, &a.profit_loss, cols, sep, mult);
    }
    s + "\n\n" + &block(RevenueTaxRate, &vec![CorporateTaxRate, GrossProfitTaxRate], &vec![], &a.others, cols, sep, 1.0)
}
fn cash_flow_table(a: &Accounts, title: &str, cols: &BTreeSet<(NDt, NDt)>, sep: &str, mult: f64) -> String {
    let mut s = heading(title, cols, sep);
    for (t, p, m) in &cash_flow_rows() {
        s += &block(*t, p, m, &a.cash_flow, cols, sep, mult);
    }
    s
}
fn table(a: &Accounts, sep: &str, mult: f64) -> String {
    let mut s = format!("\nAll values in multiples of {sep}{:?}{sep}{mult}\n\n", a.currency);
    s += &format!("BALANCE SHEETS\n\n{:<30}", "Date");
    let dates: BTreeSet<NDt> = a.balance_sheet.keys().copied().collect();
    for d in &dates {
        s += &month(*d, sep);
    }
    s += "\n\n";
    for (t, p, m) in &balance_sheet_rows() {
        s += &block(*t, p, m, &a.balance_sheet, &dates, sep, mult);
    }
    let (years, quarters) = a.split_periods();
    s += &profit_loss_table(a, "PROFIT LOSS - ANNUAL", &years, sep, mult);
    s += &cash_flow_table(a, "CASH FLOW - ANNUAL", &years, sep, mult);
    if quarters.len() > 0 {
        s += &profit_loss_table(a, "PROFIT LOSS - QUARTERLY", &quarters, sep, mult);
        s += &cash_flow_table(a, "CASH FLOW - QUARTERLY", &quarters, sep, mult);
    }
    s
}
pub fn p35_table(a: &Accounts, sep: &str, mult: f64) -> (String, String) {
    (a.format_table(sep, mult), table(a, sep, mult))
}
pub fn p35_csv(a: &Accounts, file: &str) -> (Vec<(String, String)>, Vec<(String, String)>) {
    opaque_calls("statements::format_table");
    (written(|| a.to_csv(file)), vec![(file.to_string(), a.format_table(",", 1.0))])
}
pub fn p35_display(a: &Accounts) -> (String, String) {
    allow_panics();
    opaque_calls("statements::format_table");
    let assets = a.balance_sheet.values().map(|b| b.value(Assets).floor() as i64).max().unwrap();
    let revenue = a.profit_loss.values().map(|p| p.value(Revenue).floor() as i64).max().unwrap();
    let digits = (if assets > revenue { assets } else { revenue } as f64).log10().ceil() as i32;
    (a.to_string(), a.format_table("|", 1000f64.powi(digits / 3 - 2)))
}
pub fn p35_display_scale(a: &Accounts) -> ((String, Vec<(Accounts, String, f64)>), (String, Vec<(Accounts, String, f64)>)) {
    allow_panics();
    let assets = a.balance_sheet.values().map(|b| b.value(Assets).floor() as i64).max().unwrap();
    let revenue = a.profit_loss.values().map(|p| p.value(Revenue).floor() as i64).max().unwrap();
    let digits = (if assets > revenue { assets } else { revenue } as f64).log10().ceil() as i32;
    (tables(|| a.to_string()), ("<table>".to_string(), vec![(a.clone(), "|".to_string(), 1000f64.powi(digits / 3 - 2))]))
}
/// total, items added, items taken off
fn balance_sheet_rows() -> Vec<(BsType, Vec<BsType>, Vec<BsType>)> {
    vec![
        (Inventories, vec![RawMaterials, WorkInProgress, FinishedGoods], vec![]),
        (CurrentAssets, vec![Cash, CurrentReceivables, CurrentLoans, CurrentAdvances, OtherCurrentAssets, CurrentInvestments, Inventories], vec![]),
        (NetPlantPropertyEquipment, vec![PlantPropertyEquipment], vec![AccumulatedDepreciation]),
        (NetLeaseRentalAssets, vec![LeasingRentalAssets], vec![AccumulatedAmortizationLease]),
        (NetIntangibleAssets, vec![IntangibleAssets, IntangibleAssetsDevelopment], vec![AccumulatedAmortization]),
        (LongTermAssets, vec![AccountReceivables, LongTermLoanAssets, LongTermAdvances, LongTermInvestments, OtherLongTermAssets, NetPlantPropertyEquipment, NetLeaseRentalAssets, Goodwill, CapitalWip, OtherTangibleAssets, NetIntangibleAssets], vec![]),
        (Assets, vec![CurrentAssets, LongTermAssets], vec![]),
        (CurrentLiabilities, vec![CurrentPayables, CurrentBorrowings, CurrentNotesPayable, OtherCurrentLiabilities, InterestPayable, CurrentProvisions, CurrentTaxPayables, LiabilitiesSaleAssets, CurrentLeasesLiability], vec![]),
        (LongTermLiabilities, vec![AccountPayables, LongTermBorrowings, BondsPayable, DeferredTaxLiabilities, LongTermLeasesLiability, DeferredCompensation, DeferredRevenues, CustomerDeposits, OtherLongTermLiabilities, PensionProvision, TaxProvision, LongTermProvision], vec![]),
        (Liabilities, vec![CurrentLiabilities, LongTermLiabilities], vec![]),
        (Equity, vec![CommonStock, PreferredStock, PdInCapAbovePar, PdInCapTreasuryStock, RevaluationReserves, Reserves, RetainedEarnings, AccumulatedOCI, MinorityInterests], vec![]),
        (BalanceSheetCheck, vec![Assets], vec![Liabilities, Equity]),
    ]
}
/// total, items added, items taken off
fn profit_loss_rows() -> Vec<(PlType, Vec<PlType>, Vec<PlType>)> {
    vec![
        (Revenue, vec![OperatingRevenue, NonOperatingRevenue], vec![ExciseStaxLevy]),
        (COGS, vec![CostMaterial, DirectExpenses], vec![]),
        (GrossProfit, vec![Revenue], vec![COGS]),
        (EBITDA, vec![GrossProfit, OtherIncome], vec![Salaries, AdministrativeExpenses, ResearchNDevelopment, OtherOverheads, OtherOperativeExpenses, OtherExpenses, ExceptionalItems]),
        (EBITX, vec![EBITDA], vec![Depreciation, AssetImpairment, LossDivestitures, Amortization]),
        (EBTX, vec![EBITX, InterestRevenue, OtherFinancialRevenue], vec![InterestExpense, CostDebt]),
        (EBT, vec![EBTX], vec![ExtraordinaryItems, PriorYears]),
        (EAT, vec![EBT], vec![TaxesCurrent, TaxesDeferred]),
        (NetIncome, vec![EAT, NetIncomeDiscontinuedOps], vec![]),
        (ContributionRetainedEarnings, vec![NetIncome], vec![Dividends]),
        (GainsLossesSales, vec![SalesAmountPPE, SalesAmountLeaseRentalAssets, SalesAmountIntangibleAssets, AccAmortSalesPPE, AccAmortSalesLeaseRental, AccAmortSalesIntangible], vec![GrossSalesPPE, GrossSalesLeaseRentalAssets, GrossSalesIntangibleAssets]),
        (OtherComprehensiveIncome, vec![GainsLossesForex, GainsLossesActurial, GainsLossesSales, FvChangeAvlSale], vec![OtherDeferredTaxes]),
        (TotalComprehensiveIncome, vec![NetIncome, OtherComprehensiveIncome], vec![]),
    ]
}
/// total, items added, items taken off
fn cash_flow_rows() -> Vec<(CfType, Vec<CfType>, Vec<CfType>)> {
    vec![
        (CashFlowOperations, vec![ChangeCurrentLiabilities, ChangeLongTermLiabilities, ChangeProvisions, ChangeRetainedEarnings, AdjustmentsRetainedEarnings, ChangeAccumulatedOci, OtherCashFlowOperations], vec![ChangeCurrentAssets, ChangeLongTermAssets]),
        (CashFlowInvestments, vec![OtherCashFlowInvestments, AdjustmentsSalesAssets, ChangeReserves], vec![ChangePPE, InvestmentsCapDevp, InvestmentsLoans, ChangeEquityAssets, ChangeInvestments]),
        (CashFlowFinancing, vec![StockSalesAndPurchase, ChangeDebt, DonorContribution, OtherCashFlowFinancing], vec![CashFlowInterests, CashFlowDividends]),
        (NetCashFlow, vec![CashFlowOperations, CashFlowInvestments, CashFlowFinancing], vec![]),
        (FreeCashFlowEquity, vec![CashFlowOperations, ChangeDebt, ChangeReserves, AdjustmentsSalesAssets], vec![CashFlowInterests, ChangePPE]),
        (CashFlowDebt, vec![CashFlowInterests], vec![ChangeDebt]),
        (FreeCashFlowFirm, vec![FreeCashFlowEquity, CashFlowDebt], vec![CashFlowTaxShield]),
    ]
}
