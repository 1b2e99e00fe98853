#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (kept as code so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
L, ST, BO, RA, MM = ("src/lib.rs", "src/statements.rs", "src/fixedincomes/bonds.rs",
                     "src/fixedincomes/bonds/rates.rs", "src/fixedincomes/moneymarkets.rs")

p("P01", "Day counts follow their documented conventions",
  "For every pair of dates, in either order, the year fraction under US 30/360, EU 30/360, Actual/360, Actual/365 and Actual/Actual is exactly the signed value its documented rule gives, including every end-of-month and end-of-February adjustment. The period form of the year fraction is the US 30/360 one.",
  ["inputs"], "every pair of calendar dates (month-ends, February ends, leap and common years, reversed order) and every convention",
  "Seven date pairs are sampled; the adjustment rules are conjunctions of day/month/leap conditions whose combinations the samples do not cover.",
  [L], [("yearfrac", "src/lib.rs: yearfrac"), ("yrfrac", "src/lib.rs: yrfrac")], ["yearfrac", "yrfrac"])

p("P02", "Gregorian years; dates convert to floats and back without loss",
  "A year is leap exactly by the Gregorian rule and has 366 days if leap, 365 otherwise. A date converts to its year plus the elapsed share of that year, and converting that number back always yields the same date.",
  ["inputs"], "every year and every calendar date",
  "Four years are sampled and the date conversion is not tested at all: the failure at 1 January was invisible.",
  [L], [("is_leap_year / days_in_year", "src/lib.rs"), ("date_to_float / date_from_float", "src/lib.rs")],
  ["is_leap_year", "days_in_year", "date_to_float", "date_from_float"])

p("P03", "Discounting and compounding are exact inverses in every form",
  "In each compounding form (per period, over a dated period, m times per period, continuous) the future value grows the amount at the stated rate and the present value is its exact inverse, linear in the amount. Discount factors are the present value of one unit, and the factor between two times is the ratio of the factors to each.",
  ["inputs"], "every rate above -100%, time, compounding frequency, period and amount",
  "One numeric sample per function; an error that depends on the sign, the size or the relation of the arguments is not reached.",
  [L], [("pv/fv/xpv/xfv/pvm/fvm/pvc/fvc", "src/lib.rs"), ("dis_fact family", "src/lib.rs")],
  ["pv", "fv", "xpv", "xfv", "pvm", "fvm", "pvc", "fvc", "dis_fact", "dis_fact_annual", "xdis_fact", "fwd_dis_fact"])

p("P04", "Annuity value and level payment satisfy the annuity equation",
  "The present value of an annuity equals the negated sum of its level payments and final amount, each discounted to the start, for every rate including zero. The level payment is the one for which the annuity's present value is the given one.",
  ["inputs"], "every rate above -m (zero included), term, payments per period, payment and final value",
  "One numeric sample at one positive rate for each function; zero and negative rates are never evaluated.",
  [L], [("pv_annuity", "src/lib.rs"), ("pmt", "src/lib.rs")], ["pv_annuity", "pmt"])

p("P05", "Rate conversions are consistent and mutually inverse",
  "Nominal, effective and exponential rates convert into each other so that one unit grows to the same amount under the original and the converted rate. Each conversion followed by its inverse returns the original rate, and a conversion through a third form equals the direct one.",
  ["inputs"], "every rate above -100% per compounding and every compounding frequency",
  "Five approximate samples at 8%; other frequencies, negative rates and most compositions are not reached.",
  [L], [("nom_eff_rate ... exp_nom_rate", "src/lib.rs")],
  ["nom_eff_rate", "eff_nom_rate", "exp_eff_rate", "eff_exp_rate", "nom_exp_rate", "exp_nom_rate"])

p("P06", "Net present value discounts every cash flow from its own time",
  "The net present value is the sum over all cash flows of each flow discounted over its own time distance to the valuation time; it pairs each time with the flow at the same position. The dated form measures the distance by the US 30/360 year fraction from the valuation date.",
  ["inputs"], "every rate, every number of flows, every time vector (negative, unordered, repeated), every valuation time or date",
  "One five-flow sample per form; number, order and sign of times are not varied.",
  [L], [("npv_t0 / npv / xnpv", "src/lib.rs")], ["npv_t0", "npv", "xnpv"])

p("P07", "A reported root is a converged root of the right equation",
  "The root finder is Newton's method with a forward-difference slope over a tenth of the given width. It returns a value only when the last Newton step was smaller than 1e-8, returns it after taking that step, stops within 100 iterations, and returns nothing when the derivative vanishes or no step became small. The internal rate of return, with times or dates, is such a root of the net present value of exactly the given flows, dates being measured from the first one.",
  ["inputs", "histories"], "every function, start value and tolerance; every iteration history of the solver; every cash-flow vector",
  "A handful of solves; whether an unconverged or NaN iterate can be reported depends on iteration histories the samples never produce.",
  [L], [("newt_raph", "src/lib.rs"), ("irr / xirr", "src/lib.rs")], ["newt_raph", "irr", "xirr"])

p("P08", "Approximate comparison is relative, symmetric and sign-aware",
  "Two numbers are approximately equal exactly when both are below 1e-8 in magnitude or differ by less than one millionth of the larger magnitude, whichever order they are given in. A number counts as zero exactly when its magnitude is below 1e-8.",
  ["inputs"], "every pair of numbers, of either sign and any size",
  "The comparator is only used as a test oracle; one pair is checked directly.",
  [L], [("approx / is_zero", "src/lib.rs")], ["approx", "is_zero"])

p("P09", "A coupon bond is worth the present value of its cash flows",
  "A coupon bond pays par times coupon rate over frequency at the end of each of its frequency times life periods, and par with the last one, that product being taken to the nearest whole number. Its price at a nominal rate is the present value of exactly these flows, its price on a curve discounts each flow by the curve at the flow's time, and its yield is the rate at which the price function returns the given price.",
  ["inputs"], "every par, coupon, frequency, life with a whole number of periods, rate and curve",
  "Two bonds are sampled; the schedule was wrong for biweekly and weekly lives and the price undefined at a zero rate without any test noticing.",
  [BO, L], [("CouponBond", "src/fixedincomes/bonds.rs")],
  ["CouponBond::price", "CouponBond::ytm", "CouponBond::price_ratecurve", "CouponBond::generate_cashflow"])

p("P10", "Full price is flat price plus accrued interest",
  "Between coupon dates, the full price of a coupon bond is its last-coupon-date price grown at the nominal rate for the elapsed time, accrued interest is the elapsed time's share of the coupon, and flat price plus accrued interest equals the full price. At zero elapsed time all three reduce to the plain price.",
  ["inputs"], "every bond, rate and elapsed time",
  "One bond at one elapsed time.", [BO],
  [("accrued_interest / pv_full / pv_flat", "src/fixedincomes/bonds.rs")],
  ["CouponBond::accrued_interest", "CouponBond::pv_full", "CouponBond::pv_flat"])

p("P11", "A floating-rate note discounts index-plus-margin coupons",
  "A floating-rate note is priced as a bond paying index rate plus quoted margin, discounted at index rate plus discount margin, so it prices at par when the two margins agree. Its discount margin is the one at which that price is the given price.",
  ["inputs"], "every note, index rate, discount margin and price",
  "One price and one margin are sampled.", [BO],
  [("FloatingRateNotes", "src/fixedincomes/bonds.rs")], ["FloatingRateNotes::price", "FloatingRateNotes::discount_margin"])

p("P12", "Rate curves interpolate linearly between their nodes",
  "The rate of a curve at a time equals the node's rate at a node (within 1e-9 of a period after it) and the linear interpolation of the two neighbouring nodes' rates between nodes, node k lying at time k/frequency, identically for nominal, effective and exponential curves and for spot, par and forward rates. Between nodes the result depends on no other node. A time before the first node or past the last one has no rate: it is refused with a panic, never answered with an invented one.",
  ["inputs"], "every curve kind, node vector, frequency and time",
  "Two times on one nominal curve; the other kinds and the rate wrappers are not sampled.",
  [RA], [("RateCurve::rate_estim", "src/fixedincomes/bonds/rates.rs"), ("Rates::rate_estim", "src/fixedincomes/bonds/rates.rs")],
  ["RateCurve::rate_estim", "Rates::rate_estim"])

p("P13", "Curve conversion changes the quotation, never the value",
  "Converting a rate curve to nominal, effective or exponential form converts every node's rate by the matching rate conversion at the curve's frequency, keeps number, order and frequency of nodes, and leaves a curve already in that form unchanged. A cash flow discounted on a curve is discounted by the curve's own compounding at the curve's rate for its time.",
  ["inputs"], "every curve of every kind, frequency and length; every cash flow and time",
  "One nominal curve with six nodes at one frequency.", [RA, L],
  [("RateCurve::to_*", "src/fixedincomes/bonds/rates.rs"), ("RateCurve::pv", "src/fixedincomes/bonds/rates.rs")],
  ["RateCurve::to_nominal", "RateCurve::to_effective", "RateCurve::to_exponential", "RateCurve::pv"])

p("P14", "Par, spot and forward rates admit no arbitrage",
  "A par rate is the coupon at which a bond of that maturity prices at par on the spot rates, and bootstrapping spot rates from par rates satisfies the same equation at every node, so each conversion inverts the other. Investing to the start of a forward period and then at its forward rate grows to the same amount as investing at the spot rate to its end.",
  ["inputs"], "every nominal spot or par curve of any length and frequency; every forward start and tenor",
  "One six-node curve and one forward rate.", [RA],
  [("Rates::to_spot / to_par", "src/fixedincomes/bonds/rates.rs"), ("Rates::forward_rate", "src/fixedincomes/bonds/rates.rs")],
  ["Rates::to_spot", "Rates::to_par", "Rates::forward_rate"])

p("P15", "Money-market yields follow their quotation conventions",
  "Bill discount and discount rate invert each other on a 360-day base; the holding-period yield is gain plus distribution over the initial price; the money-market yield annualises it linearly on 360 days and the effective annual yield by compounding on 365 days.",
  ["inputs"], "every price, distribution and number of days", "One sample per formula.", [MM],
  [("moneymarkets", "src/fixedincomes/moneymarkets.rs")],
  ["t_bill_r", "t_bill_d", "holding_per_yield", "eff_ann_yield", "money_mkt_yield"])

p("P16", "Time-weighted return chains every sub-period exactly once",
  "The time-weighted return compounds, over every sub-period exactly once, the ending balance over the beginning balance plus the inflow at that beginning, and annualises over the given number of years, or over the number of sub-periods when none is given. A sub-period without an inflow entry is refused (panic), never silently left out.",
  ["inputs"], "every number of sub-periods, balances, inflows and years", "Two short samples.", [MM],
  [("twrr_n / twrr", "src/fixedincomes/moneymarkets.rs")], ["twrr_n", "twrr"])

p("P17", "Every statement total is the signed sum of its components",
  "After recalculation, every total of a balance sheet, profit-and-loss or cash-flow statement equals the sum of its positive minus its negative components as they stand after the recalculation, and is absent exactly when that amount is negligible (at most 1e-5); entered items are untouched. Hence recalculating twice changes nothing, and the balance-sheet check is assets minus liabilities minus equity over all entered items.",
  ["inputs", "histories"], "every combination of present and absent items with any values, including stale totals from an earlier calculation",
  "One data file with a handful of items is checked at three totals; most of the 33 totals and 140 items are zero in it.",
  [ST], [("roll-up tables", "src/statements.rs: BALANCE_SHEET_MAP, PROFIT_LOSS_MAP, CASH_FLOW_MAP"), ("calc_elements", "src/statements.rs: impl FinMaps")],
  ["BsMap::calc_elements", "PlMap::calc_elements", "CfMap::calc_elements"])

p("P18", "Calculated items can never be entered by hand",
  "An item is classified as calculated exactly when it is a total of its statement. Every operation that enters a caller-chosen item (add, upsert, their vector forms, put on an account, debit, credit, transact) refuses a calculated item by panicking, without entering it, and accepts every other item.",
  ["inputs", "histories"], "every item of the three statements and every entry operation",
  "The guards' panics are never exercised; a handful of items are classified.", [ST],
  [("FinType::is_calc", "src/statements.rs"), ("entry guards", "src/statements.rs: add/upsert/put_*/debit")],
  ["FinType::is_calc", "FinMaps::add", "FinMaps::upsert", "Accounts::put_balance_sheet", "Accounts::put_profit_loss", "Accounts::put_cash_flow", "BsMapTrait::debit"])

p("P19", "Entry operations change exactly the named item",
  "Adding increases the named item by the amount, starting from zero when absent; upserting replaces it; reading an absent item gives zero; vector forms apply their pairs in order; account-level put and get address the statement of the given date or period, and are refused when there is none. No operation alters any other item, date or statement, and the three statement kinds behave alike.",
  ["inputs", "histories"], "every map content, item, value and sequence of operations",
  "One call sequence on two statements.", [ST],
  [("FinMaps add/upsert/add_vec/upsert_vec/value", "src/statements.rs"), ("Accounts put_*/get_*", "src/statements.rs")],
  ["FinMaps::add", "FinMaps::upsert", "FinMaps::add_vec", "FinMaps::upsert_vec", "FinMaps::value", "Accounts::get_balance_sheet", "Accounts::put_balance_sheet"])

p("P20", "Double entry keeps the balance sheet balanced",
  "Every enterable balance-sheet item can be debited and credited; a debit raises assets and contra-liabilities or contra-equities and lowers liabilities, equity and contra-assets, and a credit does the opposite. Any transaction or series of transactions leaves assets minus liabilities minus equity unchanged and touches only the two named items of each.",
  ["inputs", "histories"], "every pair of enterable items, every amount, every series of transactions and starting sheet",
  "debit, credit and transact are never called by any test; ten entries of the side table are checked.", [ST],
  [("DEBIT_TYPE / debit_mapping", "src/statements.rs"), ("BsMapTrait", "src/statements.rs")],
  ["BsMapTrait::debit", "BsMapTrait::credit", "BsMapTrait::transact", "BsMapTrait::transact_series"])

p("P21", "Cleaning removes only totals and negligible items",
  "Cleaning a statement removes exactly the items of magnitude at most 1e-5; cleaning with removal of totals additionally removes exactly the calculated items. Every remaining item keeps its value, whatever its sign, in all three statement kinds.",
  ["inputs"], "every statement content", "remove_calc_clean runs on one data file; clean is never called.", [ST],
  [("clean / remove_calc_clean", "src/statements.rs")], ["FinMaps::clean", "FinMaps::remove_calc_clean"])

p("P22", "Common-size statements divide every item by the base total",
  "A common-size statement has exactly the items of the original, each divided by the statement's base: total assets for a balance sheet, revenue for a profit-and-loss, net cash flow for a cash-flow statement. A statement without its base is refused by panicking.",
  ["inputs"], "every statement, with or without its base total", "common_size is never called by any test.", [ST],
  [("common_size", "src/statements.rs")], ["FinMaps::common_size"])

p("P23", "The derived cash flow reconciles with the change in cash",
  "For every pair of balance sheets and every profit-and-loss statement, the net cash flow of the derived and calculated cash-flow statement equals the change in cash minus the change in the balance-sheet check, up to items dropped as negligible. So between two balanced sheets net cash flow is exactly the change in cash: every other balance-sheet item enters once with the right sign, and profit-and-loss adjustments cancel.",
  ["inputs"], "every pair of balance sheets and every profit-and-loss statement, with any subset of the items present",
  "Three totals on one data file in which two thirds of the items are zero; an item missing from the tables is invisible there.", [ST],
  [("CASH_FLOW_BALANCE_SHEET / CASH_FLOW_PROFIT_LOSS / CASH_FLOW_MAP", "src/statements.rs"), ("calc_cash_flow", "src/statements.rs")],
  ["calc_cash_flow", "CfMap::calc_elements"])

p("P24", "Each derived cash-flow line reports its own items",
  "Each line derived from balance sheets is the end-minus-beginning change of exactly its own items (contra items negated), each line derived from profit and loss is the signed sum of exactly its items, and the free cash flows to firm, equity and debt combine operating cash flow, debt, interest, capital expenditure, asset-sale and reserve lines and the tax shield by their definitions. No item is reported on two lines.",
  ["inputs"], "every pair of balance sheets and profit-and-loss statement",
  "Three totals on one data file; the split of items into lines is not observable in them.", [ST],
  [("CASH_FLOW_BALANCE_SHEET / CASH_FLOW_PROFIT_LOSS / CASH_FLOW_MAP", "src/statements.rs"), ("calc_cash_flow", "src/statements.rs")],
  ["calc_cash_flow", "CfMap::calc_elements"])

p("P25", "Tax and interest tax shield follow the three configured rates",
  "Current tax is the larger of corporate tax on pre-tax profit (with depreciation replaced by tax depreciation when given) plus the gross-profit tax, and the minimum tax on revenue. The tax shield of interest is the corporate tax on interest, capped by the tax saved above the minimum tax and never below zero through that cap. Setting tax rates sets the three rates for every reported period and changes no other figure.",
  ["inputs"], "every profit-and-loss statement, rate combination and set of periods",
  "Rates are set once on one data file and no tax or shield figure is asserted.", [ST],
  [("calc_tax / depreciation_tax_adjust", "src/statements.rs"), ("tax shield in calc_cash_flow", "src/statements.rs"), ("set_tax_rates", "src/statements.rs")],
  ["Accounts::calc_tax", "calc_cash_flow", "Accounts::set_tax_rates", "depreciation_tax_adjust"])

p("P26", "Reports and dated statements convert without loss or mismatch",
  "Splitting a report into dated statements and assembling them again gives the same report whenever it has a profit-and-loss statement; each dated statement carries the report's own begin date, end date or period. Assembly refuses statements whose dates differ from the profit-and-loss period.",
  ["inputs"], "every report, every subset of present statements, every combination of dates",
  "Neither direction is called by any test.", [ST],
  [("to_statements / from_statements", "src/statements.rs"), ("FinancialReport accessors", "src/statements.rs")],
  ["FinancialReport::to_statements", "FinancialReport::from_statements"])

p("P27", "Accounts are read by exact date and period",
  "Reading a period out of the accounts returns the profit-and-loss, cash flow and other data stored for exactly that period and the balance sheets stored for exactly its two end dates, leaving out what is not stored, and nothing when the period has no profit-and-loss. The list of all reports has one such report per reported period in order, and restricting the accounts to a set of periods keeps exactly the matching entries, their end dates, the currency and the consolidation flag.",
  ["inputs"], "every account content, every requested period and set of periods",
  "Two periods of one data file; from_periods is only used for printing.", [ST],
  [("get_account / to_financial_reports / from_periods", "src/statements.rs")],
  ["Accounts::get_account", "Accounts::to_financial_reports", "Accounts::from_periods"])

p("P28", "Date validation accepts exactly contiguous forward periods",
  "A sequence of periods is valid exactly when no period ends before it begins and each begins where the previous one ends; the empty sequence is valid. Collecting dates from the profit-and-loss periods adds both end dates of every period, refuses a backward period, and removes no date.",
  ["inputs"], "every sequence of periods, including empty and single-element ones",
  "check_dates is never called by any test; the empty sequence panicked.", [ST],
  [("check_dates", "src/statements.rs"), ("set_dates_from_profit_loss / valid_date", "src/statements.rs")],
  ["check_dates", "Accounts::check_dates", "Accounts::set_dates_from_profit_loss", "Accounts::valid_date"])

p("P29", "Every period is either annual or quarterly",
  "Splitting the reported periods assigns every period to exactly one of the two groups: those longer than 120 days to the annual group and all others to the quarterly group. No period is lost, duplicated or altered.",
  ["inputs"], "every set of periods, of any length (exactly 120 days included)",
  "split_periods is only used for printing; the period of exactly 120 days disappeared from the printout.", [ST],
  [("split_periods", "src/statements.rs")], ["Accounts::split_periods"])

p("P30", "The consecutive chain is made of reported adjoining periods",
  "The consecutive periods of a set are reported periods forming a chain that ends at the latest end date and runs backwards without gap, each step preferring the quarter (three months) ending at the current date over the year ending there, and stopping only when neither is reported or after one hundred periods. A month that lacks the day of the latest end date has its last day instead, so that any end dates, month ends included, work without failing.",
  ["inputs", "histories"], "every set of periods with any end dates and any chain up to 100 periods long",
  "Only first-of-month dates are ever used; month-end dates panicked.", [ST],
  [("consecutive_periods", "src/statements.rs"), ("consecutive_profit_loss / consecutive_cash_flow", "src/statements.rs")],
  ["consecutive_periods", "Accounts::consecutive_profit_loss", "Accounts::consecutive_cash_flow"])

p("P31", "Bulk operations process every statement once and nothing else",
  "Recalculating or cleaning the accounts does so to every stored balance sheet, profit-and-loss and cash-flow statement. Deriving cash flows replaces the cash-flow statement of exactly those reported periods whose two end balance sheets exist by the one derived from that period's own data and tax rates, and leaves all other data as it was; recalculating a single report does the same from its own recalculated statements.",
  ["inputs", "histories"], "every account and report content",
  "One data file; completeness over statements and preservation of the rest are not asserted.", [ST],
  [("Accounts::calc_elements / remove_calc_clean / calc_cash_flow", "src/statements.rs"), ("FinancialReport::calc_elements", "src/statements.rs")],
  ["Accounts::calc_elements", "Accounts::remove_calc_clean", "Accounts::calc_cash_flow", "FinancialReport::calc_elements"])

p("P32", "Results depend on arguments alone",
  "No operation of the library reads or writes anything but its arguments, except writing the table to the file the caller names: no clock, environment, randomness, input, output, thread, unsafe code or mutable global state is reachable from the public interface. No number or table it produces depends on the iteration order of a hash map (serialized and debug forms may list the entries of a map in any order).",
  ["inputs", "histories", "schedules", "configurations"], "every public operation, every call history and environment",
  "A test runs in one environment with one hash seed per process and cannot observe what is not done.", [L, ST, BO, RA, MM, "src/valuations.rs"],
  [("whole crate", "src/")], ["every public function"])

p("P33", "Stored reports serialize every field under its own name",
  "Every persistent type (accounts, reports, dated statements, items, currencies, parameters, company reports, valuation models) writes every one of its fields and variants under its own name and reads the same names back; none is skipped, defaulted, renamed or flattened in one direction only.",
  ["inputs", "programs"], "every persistent type, each of its fields and variants",
  "One report with five of its items makes a round trip; a skipped field whose value is the default is invisible there.", [ST, L, "src/valuations.rs"],
  [("derived Serialize/Deserialize", "src/statements.rs, src/lib.rs, src/valuations.rs")], ["serde_json", "ron"])

p("P34", "Scalar formulas never panic",
  "The scalar formulas (day counts, time value, rate conversions, bond, note and money-market formulas without a solver) return for every argument, including zero, negative, infinite and NaN values: they contain no reachable panic, failing unwrap, out-of-range index or checked integer arithmetic on caller-supplied magnitudes.",
  ["inputs"], "every floating-point argument and every calendar date",
  "Samples use ordinary values only.", [L, BO, MM],
  [("scalar formulas", "src/lib.rs, src/fixedincomes/bonds.rs, src/fixedincomes/moneymarkets.rs")], ["pv", "fv", "pv_annuity", "pmt", "yearfrac", "CouponBond::price"])

p("P35", "The printed table shows every statement item for every column",
  "The table has, for balance sheets, annual and (when there are any) quarterly profit-and-loss and cash flows, the rows of every total and component of the statement in reporting order, a row being left out only when the item is negligible in all stored statements, and in every row one cell per column of the section's heading: the item's amount in the chosen multiples without decimals, as a percentage with one decimal when it is a fraction (above 0.0001 and below 1), empty when the section has no statement for that column. The CSV export is this table with commas and unscaled values, and the display form is this table with bars, in the power of 1000 that suits the largest assets or revenue.",
  ["inputs"], "every account content, separator and multiple",
  "The table is printed by one test and never compared with anything.", [ST],
  [("format_table / to_csv / Display", "src/statements.rs")], ["Accounts::format_table", "Accounts::to_csv", "Display for Accounts"])

p("P36", "The solver finds a root whenever an admissible one exists",
  "For every cash-flow vector with a unique internal rate of return above -100%, and every bond price above zero, the solver returns that rate (it does not give up or converge to an inadmissible one).",
  ["inputs"], "every cash-flow vector and every bond price",
  "Convergence depends on numeric iteration histories.", [L, BO],
  [("newt_raph", "src/lib.rs")], ["irr", "xirr", "CouponBond::ytm"])

p("P37", "Floating-point results are accurate to a stated tolerance",
  "Every formula's floating-point result differs from the real-number value by at most a small relative error over its documented domain.",
  ["inputs"], "every argument of every formula", "Samples compare with values computed by the same formula.", [L, BO, RA, MM],
  [("all formulas", "src/")], ["every numeric function"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
