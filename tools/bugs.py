"""Planted bugs: each breaks one property, compiles and passes the library's tests."""
L, S, B, R, M = 'src/lib.rs', 'src/statements.rs', 'src/fixedincomes/bonds.rs', 'src/fixedincomes/bonds/rates.rs', 'src/fixedincomes/moneymarkets.rs'
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo='fn main() {\n' + demo + '\n}', needs=needs, breaks=breaks, **k))


bug('p01-feb-end-year', 'P01', [(L, 'if lsfeb(d1, m1, y1) {', 'if lsfeb(d1, m1, y0) {')], '''
    // both are the last day of February: exactly one year
    assert!(near(yrfrac((d(2020, 2, 29), d(2021, 2, 28))), 1.0));''',
    'a start on 29 February of a leap year and an end on 28 February of another year',
    'US 30/360 judges the end of February of the end date by the leap year of the start date')
bug('p01-eu-31', 'P01', [(L, 'day_count_factor(y0, m0, lastday(d0), y1, m1, lastday(d1))', 'day_count_factor(y0, m0, lastday(d0), y1, m1, if d0 >= 30 { lastday(d1) } else { d1 })')], '''
    assert!(near(yearfrac(d(2021, 1, 15), d(2021, 3, 31), DayCountConvention::EU30360), 75.0 / 360.0));''',
    'an end date on the 31st and a start date before the 30th', 'EU 30/360 changes the end day only when the start day is at the month end (the US rule)')
bug('p02-leap-200', 'P02', [(L, '(y % 4 == 0 && y % 100 != 0) || y % 400 == 0', 'y % 4 == 0 && (y % 100 != 0 || y % 200 == 0)')], '''
    assert!(!is_leap_year(1800) && !is_leap_year(2200) && is_leap_year(2000));
    assert_eq!(days_in_year(2200), 365);''', 'the years 1800, 2200, 2600 …', 'years divisible by 200 but not 400 count as leap')

# ---------------------------------------------------------------- further ones
bug('p01-us-29', 'P01', [(L, 'if d1 == 31 && d0 >= 30 {', 'if d1 == 31 && d0 >= 29 {')], '''
    assert!(near(yrfrac((d(2023, 1, 29), d(2023, 3, 31))), 62.0 / 360.0));''',
    'an end date on the 31st and a start date on the 29th', 'US 30/360 moves an end on the 31st to the 30th for a start on the 29th, too')
bug('p06-sorted', 'P06', [(L, 'npv_t0(r, &dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)', '''{
        let mut times: Vec<f64> = dt.iter().map(|&d| yrfrac((d0, d))).collect();
        times.sort_by(|a, b| a.total_cmp(b));
        npv_t0(r, &times, cf)
    }''')], '''
    let (a, b) = (d(2022, 3, 1), d(2021, 3, 1));
    let v = xnpv(0.1, &vec![a, b], d(2020, 3, 1), &vec![121.0, 11.0]);
    assert!(near(v, 110.0), "{v}");''', 'dates that are not in ascending order', 'the times are sorted without their cash flows')
bug('p06-backward', 'P06', [(L, 'npv_t0(r, &dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)', 'npv_t0(r, &dt.iter().map(|&d| if d < d0 { -yrfrac((d, d0)) } else { yrfrac((d0, d)) }).collect(), cf)')], '''
    let (d0, d1) = (d(2021, 8, 31), d(2021, 2, 28));
    let v = xnpv(0.1, &vec![d1], d0, &vec![100.0]);
    assert!(near(v, 100.0 / 1.1f64.powf(yrfrac((d0, d1)))), "{v}");''',
    'a cash flow before the valuation date, one of the two dates at a month end', 'time before the valuation date is counted from the flow')
bug('p07-late-slope', 'P07', [(L, 'for _ in 0..100 {\n        let fx = f(x);', 'for k in 0..100 {\n        let fx = f(x);\n        let dx = if k > 50 { dx * 10.0 } else { dx };')], '''
    // each step goes one unit down, for sixty steps
    let seen = std::cell::RefCell::new(vec![]);
    let r = newt_raph(|x| { seen.borrow_mut().push(x); x - (x - 0.5).floor().max(0.0) }, 60.2, 1e-3);
    assert!(r.is_some());
    let s = seen.borrow();
    assert!(s.chunks(2).all(|w| (w[1] - w[0] - 1e-4).abs() < 1e-9), "slope not over a tenth of the width");''',
    'an equation that takes more than 50 Newton steps', 'the slope is taken over ten times the width after 50 steps')
bug('p07-damped', 'P07', [(L, '        x -= del_x;', '        x -= if del_x.abs() > 1e3 { del_x / 2.0 } else { del_x };')], '''
    let pieces = |x: f64| if x > 4000.0 { x - 3000.0 } else if x > 2000.0 { x - 3500.0 } else { x - 1.0 };
    assert!(near(newt_raph(pieces, 5000.0, 1e-6).unwrap(), 3500.0));
    let pieces = |x: f64| if x > 4000.0 { x - 1000.0 } else if x > 2000.0 { x - 3500.0 } else { x - 1.0 };
    assert!(near(newt_raph(pieces, 5000.0, 1e-6).unwrap(), 1.0));''',
    'a Newton step of more than a thousand', 'large Newton steps are halved, so that another root is found')
bug('p08-opposite', 'P08', [(L, 'let mx = f64::max(x.abs(), y.abs());', 'let mx = f64::max(x.abs(), y.abs()).max(if x * y < 0.0 { (x - y).abs() } else { 0.0 });')], '''
    assert!(approx(6e-9, -6e-9) && !approx(1.0, -1.0));''', 'two numbers of opposite sign, both below 1e-8 and more than 1e-8 apart', 'tiny numbers of opposite sign are no longer approximately equal')
bug('p09-negative-coupon', 'P09', [(B, '.map(|(i, &c)| rc.pv(c, ((i + 1) as f64) / self.freq))', '.filter(|x| *x.1 > 0.0)\n            .map(|(i, &c)| rc.pv(c, ((i + 1) as f64) / self.freq))')], '''
    let b = CouponBond { par: 100.0, c: -0.01, freq: 1.0, t_life: 2.0 };
    let p = b.price_ratecurve(&RateCurve::NominalRateCurve { rate: vec![0.0, 0.0], freq: 1.0 });
    assert!(near(p, 98.0), "{p}");''', 'a negative coupon', 'flows that are not positive are left out of the price on a curve')
bug('p10-long-stub', 'P10', [(B, '(1.0 + rate / self.freq).powf(t * self.freq)', '(1.0 + rate / self.freq).powf((t * self.freq).min(1.0))')], '''
    let b = CouponBond { par: 100.0, c: 0.0, freq: 2.0, t_life: 3.0 };
    assert!(near(b.pv_full(0.04, 0.75), b.price(0.04) * 1.02f64.powf(1.5)));''', 'an elapsed time of more than one coupon period', 'growth stops at the end of the coupon period')
bug('p11-weekly', 'P11', [(B, 'index_rate + discount_margin,\n            self.t_life,\n            self.freq,\n            self.par,', 'index_rate + discount_margin,\n            self.t_life,\n            self.freq.min(12.0),\n            self.par,')], '''
    let n = FloatingRateNotes { par: 100.0, quoted_margin: 0.01, freq: 52.0, t_life: 2.0 };
    assert!(near(n.price(0.02, 0.01), 100.0));''', 'a note that pays more often than monthly', 'the principal is discounted at most monthly')
bug('p12-beyond', 'P12', [(R, 'let r0 = rx[fl - 1];', 'let r0 = rx[(fl - 1).min(rx.len() - 1)];')], '''
    std::panic::set_hook(Box::new(|_| ()));
    let c = RateCurve::NominalRateCurve { rate: vec![0.03, 0.04], freq: 1.0 };
    assert!(std::panic::catch_unwind(|| c.rate_estim(5.0)).is_err());''', 'a time that is a whole number of periods after the last node', 'a curve silently goes on flat behind its last node')
bug('p13-annual', 'P13', [(R, 'rate: rate.iter().map(|x| crate::exp_eff_rate(*x)).collect(),', 'rate: rate.iter().map(|x| if *freq > 1.0 { crate::exp_eff_rate(*x) } else { *x }).collect(),')], '''
    let c = RateCurve::ExponentialRateCurve { rate: vec![0.05], freq: 1.0 };
    assert!(near(c.to_effective().pv(1.0, 1.0), c.pv(1.0, 1.0)));''', 'an annual exponential curve', 'exponential rates of an annual curve are taken over as effective')
bug('p14-equal-par', 'P14', [(R, '                let mut y = vec![0.0; n];\n\n                y[0] = rt[0];\n                (1..n).for_each(|i| {', '                let mut y = rt.clone();\n\n                (1..n).for_each(|i| {\n                    if rt[i] == rt[i - 1] {\n                        y[i] = y[i - 1];\n                        return;\n                    }')], '''
    let c = |rate: Vec<f64>| RateCurve::NominalRateCurve { rate, freq: 1.0 };
    let s = Rates::ParRates { rate: c(vec![0.02, 0.05, 0.05]) }.to_spot();
    let Rates::ParRates { rate: RateCurve::NominalRateCurve { rate, .. } } = s.to_par() else { panic!() };
    assert!(near(rate[2], 0.05), "{rate:?}");''', 'two equal neighbouring par rates on a curve that is not flat', 'bootstrapping takes over the last spot rate where the par rate does not change')
bug('p14-sixty', 'P14', [(R, '.map(|k| xm / (1.0 + y[k] / fq).powf((k + 1) as f64))', '.map(|k| xm / (1.0 + y[k] / fq).powf(((k + 1) as f64).min(60.0)))')], '''
    let s = Rates::ParRates { rate: RateCurve::NominalRateCurve { rate: vec![0.05; 80], freq: 1.0 } }.to_spot();
    let Rates::SpotRates { rate: RateCurve::NominalRateCurve { rate, .. } } = s else { panic!() };
    assert!(near(rate[79], 0.05), "{}", rate[79]);''', 'a par curve of more than 61 nodes', 'coupons after the sixtieth are discounted from the sixtieth')
bug('p16-small', 'P16', [(M, '        r *= bv[i + 1] / (bv[i] + b_inf[i]);', '        if bv[i] + b_inf[i] > 1.0 {\n            r *= bv[i + 1] / (bv[i] + b_inf[i]);\n        }')], '''
    assert!(near(twrr(&vec![0.5, 0.55], &vec![0.0]), 0.1));''', 'a sub-period that starts with one unit or less', 'a sub-period with a small starting balance is left out')
bug('p17-stale-total', 'P17', [(S, '    } else {\n        hm.remove(z);\n    }\n}', '    } else if p == 0.0 || !hm.contains_key(z) {\n        hm.remove(z);\n    }\n}')], '''
    let mut m = BsMap::from([(Cash, 10.0)]);
    m.calc_elements();
    m.upsert(Cash, 5e-6);
    m.calc_elements();
    assert!(!m.contains_key(&CurrentAssets), "{m:?}");''', 'a statement recalculated after its amounts became negligible, but not zero', 'a total that became negligible keeps its old amount')
bug('p19-cancel', 'P19', [(S, '            *self.entry(k).or_insert(0.0) += v;\n        }\n        self\n    }\n\n    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {\n            panic!("Entering a calc item {:?}", k)\n        } else {\n            self.insert(k, v);\n        }\n        self\n    }\n\n    fn value(&self, k: Self::Key) -> f64 {\n        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n\nimpl BsMapTrait',
    '            let e = self.entry(k).or_insert(0.0);\n            *e += v;\n            if *e == 0.0 {\n                self.remove(&k);\n            }\n        }\n        self\n    }\n\n    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {\n            panic!("Entering a calc item {:?}", k)\n        } else {\n            self.insert(k, v);\n        }\n        self\n    }\n\n    fn value(&self, k: Self::Key) -> f64 {\n        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n\nimpl BsMapTrait')], '''
    let mut m = BsMap::from([(Cash, 10.0)]);
    m.add(Cash, -10.0);
    assert_eq!(m.get(&Cash), Some(&0.0));''', 'adding the exact negative of an item', 'an item that adds up to zero is dropped from the balance sheet')
bug('p20-netted', 'P20', [(S, '        for x in trans {\n            self.transact(x);', '        let net: f64 = trans.iter().map(|x| x.2).sum();\n        if trans.len() > 1 && net == 0.0 && trans[0].0 == trans[1].0 {\n            return self;\n        }\n        for x in trans {\n            self.transact(x);')], '''
    let mut m = BsMap::new();
    m.transact_series(vec![(Cash, CommonStock, 5.0), (Cash, AccountPayables, -5.0)]);
    assert_eq!((m.value(CommonStock), m.value(AccountPayables)), (5.0, -5.0));''', 'a series whose amounts add up to zero and that starts with two debits of one item', 'a series that seems to cancel is not entered')
bug('p22-unscaled', 'P22', [(S, 'let scale = self[&NetCashFlow];', 'let scale = *self.get(&NetCashFlow).unwrap_or(&1.0);')], '''
    std::panic::set_hook(Box::new(|_| ()));
    assert!(std::panic::catch_unwind(|| CfMap::from([(ChangePPE, 5.0)]).common_size()).is_err());''', 'a cash flow statement without its net cash flow', 'a cash flow statement that was not calculated is passed off as its common-size statement')
bug('p23-first-sheet', 'P23', [(S, 'finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);', 'let change = calc_elem(b1, d, b) - calc_elem(b0, d, b);\n        if b0.is_empty() {\n            continue;\n        }\n        finmap_add(change, k, &mut cf);')], '''
    let b1 = BsMap::from([(Cash, 100.0), (CommonStock, 100.0)]);
    let mut cf = calc_cash_flow(&BsMap::new(), &b1, &PlMap::new(), 0.0, 0.0, 0.0);
    cf.calc_elements();
    assert!(near(cf.value(NetCashFlow), 100.0), "{cf:?}");''', 'an opening balance sheet without items', 'the first period of a new company has no cash flow')
bug('p24-same-interest', 'P24', [(S, '    for (k, (d, b)) in CASH_FLOW_PROFIT_LOSS.iter() {\n        finmap_add(calc_elem(pl, d, b), k, &mut cf);', '    let mut pl = pl.clone();\n    if pl.get(&InterestExpense) == pl.get(&CostDebt) {\n        pl.remove(&CostDebt);\n    }\n    for (k, (d, b)) in CASH_FLOW_PROFIT_LOSS.iter() {\n        finmap_add(calc_elem(&pl, d, b), k, &mut cf);')], '''
    let cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &PlMap::from([(InterestExpense, 5.0), (CostDebt, 5.0)]), 0.0, 0.0, 0.0);
    assert!(near(cf.value(CashFlowInterests), 10.0), "{cf:?}");''', 'interest and cost of debt of the same amount', 'a cost of debt equal to the interest is taken for a duplicate')
bug('p26-empty-cash-flow', 'P26', [(S, 'Some(cp) => (cp.period.0, cp.period.1, Some(cp.items.clone())),', 'Some(cp) => (cp.period.0, if cp.items.is_empty() { dt1 } else { cp.period.1 }, Some(cp.items.clone())),')], '''
    let pl = Some(ProfitLoss { period: (d(2021, 1, 1), d(2022, 1, 1)), items: PlMap::new() });
    let cf = Some(CashFlow { period: (d(2021, 1, 1), d(2023, 1, 1)), items: CfMap::new() });
    assert_eq!(FinancialReport::from_statements(&None, &None, &pl, &cf, &None), None);''', 'an empty cash flow statement of another period', 'an empty cash flow statement that ends elsewhere is accepted')
bug('p26-same-day', 'P26', [(S, '            items: (&self.balance_sheet_beg).clone()?,', '            items: (&self.balance_sheet_beg).clone().or(if self.period.0 == self.period.1 {\n                self.balance_sheet_end.clone()\n            } else {\n                None\n            })?,')], '''
    let r = FinancialReport { period: (d(2021, 1, 1), d(2021, 1, 1)), balance_sheet_beg: None, balance_sheet_end: Some(BsMap::new()), profit_loss: None, cash_flow: None, others: None };
    assert_eq!(r.balance_sheet_beg(), None);''', 'a report whose period begins and ends on one day, without an opening balance sheet', 'the closing balance sheet is passed off as the opening one')
bug('p27-day-after', 'P27', [(S, 'balance_sheet_end: get_hashmap(d1, &self.balance_sheet),', 'balance_sheet_end: get_hashmap(d1, &self.balance_sheet).or(self.balance_sheet.range(d1..=d1 + Duration::days(1)).next_back().map(|p| p.1.clone())),')], '''
    let mut a = accounts();
    let p = (d(2021, 1, 1), d(2021, 12, 31));
    a.profit_loss.insert(p, PlMap::new());
    a.balance_sheet.insert(d(2022, 1, 1), BsMap::from([(Cash, 1.0)]));
    assert_eq!(a.get_account(p.0, p.1).unwrap().balance_sheet_end, None);''', 'a balance sheet of the day after the end of the period', 'the balance sheet of the next day is reported as the closing one')
bug('p29-gap', 'P29', [(S, '                    if d0 + Duration::days(120) < d1 {', '                    if d0 + Duration::days(121) < d1 {')], '''
    let mut a = accounts();
    let p = (d(2021, 1, 1), d(2021, 1, 1) + chrono::Duration::days(121));
    a.profit_loss.insert(p, PlMap::new());
    assert_eq!(a.split_periods().0.len(), 1);''', 'a period of exactly 121 days', 'a period of 121 days is in neither group')
bug('p30-late-start', 'P30', [(S, '        if d1 > dt_1 {\n            dt_1 = d1;', '        if d1 > dt_1 && d1.day() >= dt_1.day().min(28) {\n            dt_1 = d1;')], '''
    let (a, b) = ((d(2019, 1, 31), d(2020, 1, 31)), (d(2020, 1, 15), d(2020, 4, 15)));
    assert_eq!(consecutive_periods(&BTreeSet::from([a, b])), BTreeSet::from([b]));''', 'the last period ends on an earlier day of the month than one before it', 'the chain starts from a period that is not the last')
bug('p31-no-closing', 'P31', [(S, '        self.balance_sheet_beg = b_beg;\n        self.balance_sheet_end = b_end;', '        self.balance_sheet_beg = b_beg;\n        self.balance_sheet_end = b_end.filter(|x| !x.is_empty());')], '''
    let others = HashMap::from([(CorporateTaxRate, 0.1), (GrossProfitTaxRate, 0.0), (RevenueTaxRate, 0.0)]);
    let mut r = FinancialReport { period: (d(2021, 1, 1), d(2022, 1, 1)), balance_sheet_beg: None, balance_sheet_end: Some(BsMap::new()), profit_loss: Some(PlMap::new()), cash_flow: None, others: Some(others) };
    r.calc_elements();
    assert_eq!(r.balance_sheet_end, Some(BsMap::new()));''', 'a report whose closing balance sheet has no items', 'recalculating a report drops an empty closing balance sheet')
bug('p35-twelve', 'P35', [(S, 'h.iter()\n                    .map(|(_, b)| b.get(&k).unwrap_or(&0.0).abs())', 'h.iter()\n                    .take(12)\n                    .map(|(_, b)| b.get(&k).unwrap_or(&0.0).abs())')], '''
    let mut a = accounts();
    for y in 2000..2014 {
        a.balance_sheet.insert(d(y, 1, 1), if y == 2013 { BsMap::from([(Cash, 5000.0)]) } else { BsMap::new() });
    }
    assert!(a.format_table("|", 1.0).contains("5000"));''', 'an item first reported in the thirteenth statement', 'whether a row is shown is decided by the first twelve statements')


# ---- whole functions written anew
def body(f, sig):
    """the text of the function with this signature"""
    a = open('/repo/' + f).read()
    i = a.index(sig)
    j, d = a.index('{', i + len(sig) - 1), 0
    for k in range(j, len(a)):
        d += (a[k] == '{') - (a[k] == '}')
        if d == 0:
            return a[i:k + 1]


bug('p06-same-time', 'P06', [(L, body(L, 'pub fn npv_t0(mut r: f64, tim: &Vec<f64>, cf: &Vec<f64>) -> f64 {'), '''pub fn npv_t0(r: f64, tim: &Vec<f64>, cf: &Vec<f64>) -> f64 {
    let mut tot = 0.0;
    let mut i = 0;
    while i < tim.len() && i < cf.len() {
        let t = tim[i];
        let mut c = cf[i];
        while i + 1 < cf.len() && tim[i + 1] == t {
            i += 1;
            c = cf[i];
        }
        tot += pv(r, t, c);
        i += 1;
    }
    tot
}''')], '''
    assert!(near(npv_t0(0.1, &vec![0.0, 1.0, 1.0], &vec![-100.0, 55.0, 55.0]), 0.0));''', 'two flows at the same time', 'of several flows at one time only the last counts')
bug('p31-same-end', 'P31', [(S, body(S, '    pub fn calc_cash_flow(&mut self) -> &mut Self {'), '''    pub fn calc_cash_flow(&mut self) -> &mut Self {
        let mut made: BTreeMap<NDt, (Period, CfMap)> = BTreeMap::new();
        for (&(d0, d1), pl) in &self.profit_loss {
            let (Some(b0), Some(b1)) = (self.balance_sheet.get(&d0), self.balance_sheet.get(&d1)) else {
                continue;
            };
            let oth = &self.others[&(d0, d1)];
            let mut cf = calc_cash_flow(b0, b1, pl, oth[&CorporateTaxRate], oth[&GrossProfitTaxRate], oth[&RevenueTaxRate]);
            cf.calc_elements();
            made.insert(d1, ((d0, d1), cf));
        }
        self.cash_flow.extend(made.into_values());
        self
    }''')], '''
    let mut a = accounts();
    for y in 2020..2023 {
        a.balance_sheet.insert(d(y, 1, 1), BsMap::from([(Cash, y as f64), (CommonStock, y as f64)]));
    }
    for y in 2020..2022 {
        a.profit_loss.insert((d(y, 1, 1), d(2022, 1, 1)), PlMap::new());
    }
    a.set_tax_rates(0.0, 0.0, 0.0);
    a.calc_cash_flow();
    assert_eq!(a.cash_flow.len(), 2);''', 'two periods that end on the same day', 'of two periods with one end only one gets its cash flow')
bug('p27-between', 'P27', [(S, body(S, '    pub fn from_periods(&self, periods: BTreeSet<Period>) -> Self {'), '''    pub fn from_periods(&self, periods: BTreeSet<Period>) -> Self {
        let dates: BTreeSet<NDt> = periods.iter().flat_map(|&(d0, d1)| [d0, d1]).collect();
        let within = |d: &NDt| dates.first().is_some_and(|f| f <= d) && dates.last().is_some_and(|l| d <= l);
        let pick = |p: &Period| periods.contains(p);
        Accounts {
            currency: self.currency,
            consolidated: self.consolidated,
            balance_sheet: self.balance_sheet.iter().filter(|(d, _)| within(d)).map(|(d, b)| (*d, b.clone())).collect(),
            profit_loss: self.profit_loss.iter().filter(|(p, _)| pick(p)).map(|(p, b)| (*p, b.clone())).collect(),
            cash_flow: self.cash_flow.iter().filter(|(p, _)| pick(p)).map(|(p, b)| (*p, b.clone())).collect(),
            others: self.others.iter().filter(|(p, _)| pick(p)).map(|(p, b)| (*p, b.clone())).collect(),
            dates,
        }
    }''')], '''
    let mut a = accounts();
    let p = (d(2020, 1, 1), d(2021, 1, 1));
    a.profit_loss.insert(p, PlMap::new());
    a.balance_sheet.insert(d(2020, 6, 1), BsMap::new());
    assert!(a.from_periods(BTreeSet::from([p])).balance_sheet.is_empty());''', 'a balance sheet dated within a period', 'balance sheets between the ends of the periods are kept')
bug('p14-running', 'P14', [(R, body(R, '    pub fn to_spot(&self) -> Rates {'), '''    pub fn to_spot(&self) -> Rates {
        let Self::ParRates { rate: RateCurve::NominalRateCurve { rate: rt, freq: fq } } = self else {
            unimplemented!()
        };
        let mut y = Vec::with_capacity(rt.len());
        let mut ann = 0.0;
        let mut last = 1.0;
        for (i, p) in rt.iter().enumerate() {
            let xm = p / fq;
            let d: f64 = (1.0 - xm * ann) / (1.0 + xm);
            ann += if d < last { d } else { last };
            last = d;
            y.push((d.powf(-1.0 / (i + 1) as f64) - 1.0) * fq);
        }
        Rates::SpotRates {
            rate: RateCurve::NominalRateCurve { rate: y, freq: *fq },
        }
    }''')], '''
    let r = Rates::ParRates { rate: RateCurve::NominalRateCurve { rate: vec![-0.02, -0.03, 0.01], freq: 1.0 } };
    let Rates::ParRates { rate: RateCurve::NominalRateCurve { rate: p, .. } } = r.to_spot().to_par() else { panic!() };
    assert!(near(p[2], 0.01), "{p:?}");''', 'par rates below zero', 'a discount factor above the one before it is cut off')
