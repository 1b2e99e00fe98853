use crate::*;
use financelib::fixedincomes::bonds::rates::{RateCurve, RateCurve::*, Rates, Rates::*};
use financelib::fixedincomes::bonds::{CouponBond, FloatingRateNotes};
use financelib::fixedincomes::moneymarkets::*;
use financelib::*;

// ---------------------------------------------------------------- P09 coupon bonds
fn coupon(b: &CouponBond) -> f64 {
    b.par * b.c / b.freq
}
/// n coupons: the life is n periods
fn bond(par: f64, c: f64, freq: f64, n: usize) -> CouponBond {
    CouponBond { par, c, freq, t_life: n as f64 / freq }
}
pub fn p09_price_start(par: f64, c: f64, freq: f64, r: f64) -> (f64, f64) {
    (CouponBond { par, c, freq, t_life: 0.0 }.price(r), par)
}
pub fn p09_price_step(par: f64, c: f64, freq: f64, t: f64, r: f64) -> (f64, f64) {
    let b = CouponBond { par, c, freq, t_life: t };
    let longer = CouponBond { par, c, freq, t_life: t + 1.0 / freq };
    (longer.price(r) * (1.0 + r / freq), b.price(r) + coupon(&b))
}
pub fn p09_price_zero_rate(par: f64, c: f64, freq: f64, t: f64) -> (f64, f64) {
    (CouponBond { par, c, freq, t_life: t }.price(0.0), par + par * c * t)
}
pub fn p09_price_at_par(par: f64, c: f64, freq: f64, t: f64) -> (f64, f64) {
    (CouponBond { par, c, freq, t_life: t }.price(c), par)
}
pub fn p09_cash_flows(par: f64, c: f64, freq: f64, n: usize) -> (Vec<f64>, Vec<f64>) {
    assume(n >= 1);
    let b = bond(par, c, freq, n);
    let spec = (0..n).map(|i| coupon(&b) + if i + 1 == n { par } else { 0.0 }).collect();
    (b.generate_cashflow(), spec)
}
/// the nearest whole number of coupons, for a product of frequency and life off by a rounding error
pub fn p09_count(b: CouponBond) -> (usize, usize) {
    let n = (b.freq * b.t_life).round();
    assume(n >= 1.0);
    (b.generate_cashflow().len(), n as usize)
}
pub fn p09_on_curve(par: f64, c: f64, freq: f64, n: usize, curve: &RateCurve) -> (f64, f64) {
    assume(n >= 1);
    allow_panics();
    opaque_calls("rates::pv");
    let b = bond(par, c, freq, n);
    let mut s = 0.0;
    for k in 1..=n {
        let flow = if k == n { coupon(&b) + par } else { coupon(&b) };
        s += curve.pv(flow, k as f64 / freq);
    }
    (b.price_ratecurve(curve), s)
}
pub fn p09_yield(b: CouponBond, p: f64) -> (f64, f64) {
    opaque_solver();
    allow_panics();
    (b.ytm(p), newt_raph(|r| b.price(r) - p, 0.05, 1e-6).unwrap())
}

// ---------------------------------------------------------------- P10 between coupon dates
pub fn p10_full(b: CouponBond, r: f64, t: f64) -> (f64, f64) {
    (b.pv_full(r, t), fvm(r, t, b.freq, b.price(r)))
}
pub fn p10_accrued(b: CouponBond, t: f64) -> (f64, f64) {
    (b.accrued_interest(t), b.par * b.c * t)
}
pub fn p10_accrued_period(b: CouponBond) -> (f64, f64) {
    (b.accrued_interest(1.0 / b.freq), coupon(&b))
}
pub fn p10_split(b: CouponBond, r: f64, t: f64) -> (f64, f64) {
    (b.pv_flat(r, t) + b.accrued_interest(t), b.pv_full(r, t))
}
pub fn p10_at_coupon_date(b: CouponBond, r: f64) -> ((f64, f64, f64), (f64, f64, f64)) {
    ((b.pv_full(r, 0.0), b.pv_flat(r, 0.0), b.accrued_interest(0.0)), (b.price(r), b.price(r), 0.0))
}

// ---------------------------------------------------------------- P11 floating-rate notes
pub fn p11_price(n: FloatingRateNotes, index: f64, dm: f64) -> (f64, f64) {
    let b = CouponBond { par: n.par, c: index + n.quoted_margin, freq: n.freq, t_life: n.t_life };
    (n.price(index, dm), b.price(index + dm))
}
pub fn p11_step(par: f64, quoted_margin: f64, freq: f64, t: f64, index: f64, dm: f64) -> (f64, f64) {
    let n = FloatingRateNotes { par, quoted_margin, freq, t_life: t };
    let longer = FloatingRateNotes { par, quoted_margin, freq, t_life: t + 1.0 / freq };
    (longer.price(index, dm) * (1.0 + (index + dm) / freq), n.price(index, dm) + par * (index + quoted_margin) / freq)
}
pub fn p11_start(par: f64, quoted_margin: f64, freq: f64, index: f64, dm: f64) -> (f64, f64) {
    (FloatingRateNotes { par, quoted_margin, freq, t_life: 0.0 }.price(index, dm), par)
}
pub fn p11_at_par(n: FloatingRateNotes, index: f64) -> (f64, f64) {
    (n.price(index, n.quoted_margin), n.par)
}
pub fn p11_margin(n: FloatingRateNotes, p: f64, index: f64) -> (f64, f64) {
    opaque_solver();
    allow_panics();
    (n.discount_margin(p, index), newt_raph(|m| n.price(index, m) - p, 0.005, 1e-6).unwrap())
}

// ---------------------------------------------------------------- P12 interpolation
fn curve_of(form: u8, rate: Vec<f64>, freq: f64) -> RateCurve {
    if form == 0 {
        NominalRateCurve { rate, freq }
    } else if form == 1 {
        EffectiveRateCurve { rate, freq }
    } else {
        ExponentialRateCurve { rate, freq }
    }
}
fn rates_of(kind: u8, rate: RateCurve) -> Rates {
    if kind == 0 {
        SpotRates { rate }
    } else if kind == 1 {
        ParRates { rate }
    } else {
        ForwardRates { rate }
    }
}
pub fn p12_node(form: u8, rate: Vec<f64>, freq: f64, k: usize) -> (f64, f64) {
    assume(k >= 1 && k <= rate.len());
    let want = rate[k - 1];
    (curve_of(form, rate, freq).rate_estim(k as f64 / freq), want)
}
pub fn p12_just_after(form: u8, rate: Vec<f64>, freq: f64, k: usize, q: f64) -> (f64, f64) {
    check_bounds();
    assume(k >= 1 && k <= rate.len() && q >= 0.0 && q < 1e-9);
    let want = rate[k - 1];
    (curve_of(form, rate, freq).rate_estim((k as f64 + q) / freq), want)
}
pub fn p12_between(form: u8, rate: Vec<f64>, freq: f64, k: usize, q: f64) -> (f64, f64) {
    check_bounds();
    assume(k >= 1 && k < rate.len() && q >= 1e-9 && q < 1.0);
    let want = rate[k - 1] + q * (rate[k] - rate[k - 1]);
    (curve_of(form, rate, freq).rate_estim((k as f64 + q) / freq), want)
}
pub fn p12_outside(form: u8, rate: Vec<f64>, freq: f64, y: f64) -> bool {
    check_bounds();
    let t = y * freq;
    let n = rate.len() as f64;
    assume(t < 1.0 || t >= n + 1.0 || t >= n && t - t.floor() >= 1e-9);
    let curve = curve_of(form, rate, freq);
    panics(|| { curve.rate_estim(y); })
}
pub fn p12_kinds(kind: u8, curve: RateCurve, y: f64) -> (f64, f64) {
    allow_panics();
    let want = curve.rate_estim(y);
    (rates_of(kind, curve).rate_estim(y), want)
}
pub fn p12_kinds_refused(kind: u8, curve: RateCurve, y: f64) -> (bool, bool) {
    check_bounds();
    let want = panics(|| { curve.rate_estim(y); });
    let rates = rates_of(kind, curve);
    (panics(|| { rates.rate_estim(y); }), want)
}

// ---------------------------------------------------------------- P13 conversions and discounting
pub fn p13_to_nominal(form: u8, rate: Vec<f64>, freq: f64) -> (RateCurve, RateCurve) {
    let want = rate
        .iter()
        .map(|&x| if form == 0 { x } else if form == 1 { eff_nom_rate(x, freq) } else { exp_nom_rate(x, freq) })
        .collect();
    (curve_of(form, rate, freq).to_nominal(), NominalRateCurve { rate: want, freq })
}
pub fn p13_to_effective(form: u8, rate: Vec<f64>, freq: f64) -> (RateCurve, RateCurve) {
    let want = rate
        .iter()
        .map(|&x| if form == 0 { nom_eff_rate(x, freq) } else if form == 1 { x } else { exp_eff_rate(x) })
        .collect();
    (curve_of(form, rate, freq).to_effective(), EffectiveRateCurve { rate: want, freq })
}
pub fn p13_to_exponential(form: u8, rate: Vec<f64>, freq: f64) -> (RateCurve, RateCurve) {
    let want = rate
        .iter()
        .map(|&x| if form == 0 { nom_exp_rate(x, freq) } else if form == 1 { eff_exp_rate(x) } else { x })
        .collect();
    (curve_of(form, rate, freq).to_exponential(), ExponentialRateCurve { rate: want, freq })
}
pub fn p13_pv_refused(form: u8, rate: Vec<f64>, freq: f64, c: f64, t: f64) -> (bool, bool) {
    check_bounds();
    let curve = curve_of(form, rate, freq);
    (panics(|| { curve.pv(c, t); }), panics(|| { curve.rate_estim(t); }))
}
pub fn p13_pv(form: u8, rate: Vec<f64>, freq: f64, c: f64, t: f64) -> (f64, f64) {
    allow_panics();
    let curve = curve_of(form, rate, freq);
    let r = curve.rate_estim(t);
    let want = if form == 0 { pvm(r, t, freq, c) } else if form == 1 { pv(r, t, c) } else { pvc(r, t, c) };
    (curve.pv(c, t), want)
}
pub fn p13_value_kept(form: u8, rate: Vec<f64>, freq: f64, k: usize, c: f64) -> ((f64, f64, f64), (f64, f64, f64)) {
    assume(k >= 1 && k <= rate.len());
    let curve = curve_of(form, rate, freq);
    let t = k as f64 / freq;
    let v = curve.pv(c, t);
    ((curve.to_nominal().pv(c, t), curve.to_effective().pv(c, t), curve.to_exponential().pv(c, t)), (v, v, v))
}

// ---------------------------------------------------------------- P14 par, spot and forward rates
fn nodes(r: &Rates) -> (Vec<f64>, f64) {
    match r {
        SpotRates { rate: NominalRateCurve { rate, freq } } => (rate.clone(), *freq),
        ParRates { rate: NominalRateCurve { rate, freq } } => (rate.clone(), *freq),
        _ => panic!(),
    }
}
/// price, per unit of par, of the bond with coupon rate `par` maturing at node i
fn bond_on_spots(par: f64, spot: &Vec<f64>, freq: f64, i: usize) -> f64 {
    let mut s = 1.0 / (1.0 + spot[i] / freq).powf((i + 1) as f64);
    for k in 0..=i {
        s += par / freq / (1.0 + spot[k] / freq).powf((k + 1) as f64);
    }
    s
}
pub fn p14_to_par(rate: Vec<f64>, freq: f64, i: usize) -> (f64, f64) {
    assume(i < rate.len());
    let spot = rate.clone();
    let par = SpotRates { rate: NominalRateCurve { rate, freq } }.to_par();
    let (p, _) = nodes(&par);
    (bond_on_spots(p[i], &spot, freq, i), 1.0)
}
pub fn p14_to_spot(rate: Vec<f64>, freq: f64, i: usize) -> (f64, f64) {
    assume(i < rate.len());
    let par = rate.clone();
    let spot = ParRates { rate: NominalRateCurve { rate, freq } }.to_spot();
    let (s, _) = nodes(&spot);
    (bond_on_spots(par[i], &s, freq, i), 1.0)
}
pub fn p14_shape_par(rate: Vec<f64>, freq: f64) -> ((usize, f64, bool), (usize, f64, bool)) {
    let n = rate.len();
    let par = SpotRates { rate: NominalRateCurve { rate, freq } }.to_par();
    let (p, f) = nodes(&par);
    ((p.len(), f, matches!(par, ParRates { .. })), (n, freq, true))
}
pub fn p14_shape_spot(rate: Vec<f64>, freq: f64) -> ((usize, f64, bool), (usize, f64, bool)) {
    assume(rate.len() > 0);
    let n = rate.len();
    let spot = ParRates { rate: NominalRateCurve { rate, freq } }.to_spot();
    let (p, f) = nodes(&spot);
    ((p.len(), f, matches!(spot, SpotRates { .. })), (n, freq, true))
}
pub fn p14_forward_refused(rate: Vec<f64>, freq: f64, start: f64, tenor: f64) -> (bool, bool) {
    check_bounds();
    let curve = NominalRateCurve { rate, freq };
    let want = panics(|| { curve.rate_estim(start); }) || panics(|| { curve.rate_estim(start + tenor); });
    let spot = SpotRates { rate: curve };
    (panics(|| { spot.forward_rate(start, tenor); }), want)
}
pub fn p14_forward(rate: Vec<f64>, freq: f64, start: f64, tenor: f64, x: f64) -> (f64, f64) {
    allow_panics();
    let curve = NominalRateCurve { rate, freq };
    let (r0, r1) = (curve.rate_estim(start), curve.rate_estim(start + tenor));
    let fwd = SpotRates { rate: curve }.forward_rate(start, tenor);
    (fvm(fwd, tenor, freq, fvm(r0, start, freq, x)), fvm(r1, start + tenor, freq, x))
}

// ---------------------------------------------------------------- P15 money markets
pub fn p15_discount_of_rate(r: f64, t: f64, face: f64) -> (f64, f64) {
    (t_bill_r(t, face - t_bill_d(r, t, face), face), r)
}
pub fn p15_rate_of_discount(t: f64, p0: f64, face: f64) -> (f64, f64) {
    (t_bill_d(t_bill_r(t, p0, face), t, face), face - p0)
}
pub fn p15_discount(r: f64, t: f64, face: f64) -> (f64, f64) {
    (t_bill_d(r, t, face), face * r * (t / 360.0))
}
pub fn p15_holding(p0: f64, p1: f64, d1: f64) -> (f64, f64) {
    (holding_per_yield(p0, p1, d1), (p1 - p0 + d1) / p0)
}
pub fn p15_money_market(t: f64, p0: f64, p1: f64, d1: f64) -> (f64, f64) {
    (money_mkt_yield(t, p0, p1, d1), holding_per_yield(p0, p1, d1) * (360.0 / t))
}
pub fn p15_effective(t: f64, p0: f64, p1: f64, d1: f64) -> (f64, f64) {
    (eff_ann_yield(t, p0, p1, d1), (1.0 + holding_per_yield(p0, p1, d1)).powf(365.0 / t) - 1.0)
}

// ---------------------------------------------------------------- P16 time-weighted return
fn growth(bv: &Vec<f64>, inflow: &Vec<f64>) -> f64 {
    (1..bv.len()).map(|i| bv[i] / (bv[i - 1] + inflow[i - 1])).product()
}
pub fn p16_over_years(n: f64, bv: &Vec<f64>, inflow: &Vec<f64>) -> (f64, f64) {
    assume(bv.len() > 0 && inflow.len() + 1 >= bv.len());
    (twrr_n(n, bv, inflow), growth(bv, inflow).powf(1.0 / n) - 1.0)
}
pub fn p16_over_periods(bv: &Vec<f64>, inflow: &Vec<f64>) -> (f64, f64) {
    assume(bv.len() > 0 && inflow.len() + 1 >= bv.len());
    (twrr(bv, inflow), growth(bv, inflow).powf(1.0 / (bv.len() as f64 - 1.0)) - 1.0)
}
pub fn p16_short(n: f64, bv: &Vec<f64>, inflow: &Vec<f64>) -> ((bool, bool), (bool, bool)) {
    assume(bv.len() > 0);
    check_bounds();
    let short = inflow.len() + 1 < bv.len();
    ((panics(|| { twrr_n(n, bv, inflow); }), panics(|| { twrr(bv, inflow); })), (short, short))
}
