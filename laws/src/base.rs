use crate::*;
use chrono::{Datelike, naive::NaiveDate as NDt};
use financelib::DayCountConvention::*;
use financelib::*;

// ---------------------------------------------------------------- P01 day counts
pub fn p01_act360(a: NDt, b: NDt) -> (f64, f64) {
    (yearfrac(a, b, ACT360), (b - a).num_days() as f64 / 360.0)
}
pub fn p01_act365(a: NDt, b: NDt) -> (f64, f64) {
    (yearfrac(a, b, ACT365), (b - a).num_days() as f64 / 365.0)
}
fn leap(y: i32) -> bool {
    if y % 400 == 0 {
        true
    } else if y % 100 == 0 {
        false
    } else {
        y % 4 == 0
    }
}
fn position(d: NDt) -> f64 {
    d.year() as f64 + d.ordinal() as f64 / (if leap(d.year()) { 366.0 } else { 365.0 })
}
pub fn p01_actact(a: NDt, b: NDt) -> (f64, f64) {
    (yearfrac(a, b, ACTACT), position(b) - position(a))
}
fn d30(y0: i32, m0: i32, d0: i32, y1: i32, m1: i32, d1: i32) -> f64 {
    (360 * (y1 - y0) + 30 * (m1 - m0) + (d1 - d0)) as f64 / 360.0
}
pub fn p01_eu30360(a: NDt, b: NDt) -> (f64, f64) {
    let d0 = (a.day() as i32).min(30);
    let d1 = (b.day() as i32).min(30);
    (yearfrac(a, b, EU30360), d30(a.year(), a.month() as i32, d0, b.year(), b.month() as i32, d1))
}
fn feb_end(d: NDt) -> bool {
    d.month() == 2 && (d.day() == 29 || d.day() == 28 && !leap(d.year()))
}
fn us(a: NDt, b: NDt) -> f64 {
    let d0 = if feb_end(a) || a.day() == 31 { 30 } else { a.day() as i32 };
    let d1 = if feb_end(a) && feb_end(b) {
        30
    } else if b.day() == 31 && d0 == 30 {
        30
    } else {
        b.day() as i32
    };
    d30(a.year(), a.month() as i32, d0, b.year(), b.month() as i32, d1)
}
pub fn p01_us30360(a: NDt, b: NDt) -> (f64, f64) {
    (yearfrac(a, b, US30360), us(a, b))
}
pub fn p01_period(a: NDt, b: NDt) -> (f64, f64) {
    (yrfrac((a, b)), us(a, b))
}
pub fn p01_zero_span(a: NDt) -> bool {
    yearfrac(a, a, US30360) == 0.0
        && yearfrac(a, a, EU30360) == 0.0
        && yearfrac(a, a, ACTACT) == 0.0
        && yearfrac(a, a, ACT360) == 0.0
        && yearfrac(a, a, ACT365) == 0.0
}

// ---------------------------------------------------------------- P02 calendar
pub fn p02_leap(y: i32) -> (bool, bool) {
    (is_leap_year(y), leap(y))
}
pub fn p02_days(y: i32) -> (i64, i64) {
    (days_in_year(y), if leap(y) { 366 } else { 365 })
}
pub fn p02_position(d: NDt) -> (f64, f64) {
    (date_to_float(d), position(d))
}
pub fn p02_round_trip(d: NDt) -> (NDt, NDt) {
    (date_from_float(date_to_float(d)), d)
}

// ---------------------------------------------------------------- P03 present and future value
pub fn p03_fv(r: f64, n: f64, x: f64) -> (f64, f64) {
    (fv(r, n, x), x * (1.0 + r).powf(n))
}
pub fn p03_pv(r: f64, n: f64, x: f64) -> (f64, f64) {
    (pv(r, n, fv(r, n, x)), x)
}
pub fn p03_xfv(r: f64, p: Period, x: f64) -> (f64, f64) {
    (xfv(r, p, x), x * (1.0 + r).powf(yrfrac(p)))
}
pub fn p03_xpv(r: f64, p: Period, x: f64) -> (f64, f64) {
    (xpv(r, p, xfv(r, p, x)), x)
}
pub fn p03_fvm(r: f64, n: f64, m: f64, x: f64) -> (f64, f64) {
    (fvm(r, n, m, x), x * (1.0 + r / m).powf(n * m))
}
pub fn p03_pvm(r: f64, n: f64, m: f64, x: f64) -> (f64, f64) {
    (pvm(r, n, m, fvm(r, n, m, x)), x)
}
pub fn p03_fvc(r: f64, n: f64, x: f64) -> (f64, f64) {
    (fvc(r, n, x), x * (r * n).exp())
}
pub fn p03_pvc(r: f64, n: f64, x: f64) -> (f64, f64) {
    (pvc(r, n, fvc(r, n, x)), x)
}
pub fn p03_linear(r: f64, n: f64, m: f64, p: Period, x: f64, y: f64, k: f64) -> ((f64, f64, f64, f64), (f64, f64, f64, f64)) {
    let z = x + k * y;
    (
        (pv(r, n, z), xpv(r, p, z), pvm(r, n, m, z), pvc(r, n, z)),
        (
            pv(r, n, x) + k * pv(r, n, y),
            xpv(r, p, x) + k * xpv(r, p, y),
            pvm(r, n, m, x) + k * pvm(r, n, m, y),
            pvc(r, n, x) + k * pvc(r, n, y),
        ),
    )
}
pub fn p03_dis_fact(r: f64, n: f64) -> (f64, f64) {
    (dis_fact(r, n), pv(r, n, 1.0))
}
pub fn p03_dis_fact_annual(r: f64) -> (f64, f64) {
    (dis_fact_annual(r), pv(r, 1.0, 1.0))
}
pub fn p03_xdis_fact(r: f64, p: Period) -> (f64, f64) {
    (xdis_fact(r, p), xpv(r, p, 1.0))
}
pub fn p03_fwd_dis_fact(r0: f64, t0: f64, r1: f64, t1: f64) -> (f64, f64) {
    (fwd_dis_fact((r0, t0), (r1, t1)) * dis_fact(r0, t0), dis_fact(r1, t1))
}
pub fn p03_additive_time(r: f64, s: f64, t: f64, x: f64) -> (f64, f64) {
    (pv(r, s, pv(r, t, x)), pv(r, s + t, x))
}

// ---------------------------------------------------------------- P04 annuities
pub fn p04_start(r: f64, m: f64, p: f64, f: f64) -> (f64, f64) {
    (pv_annuity(r, 0.0, m, p, f), -f)
}
pub fn p04_step(r: f64, n: f64, m: f64, p: f64, f: f64) -> (f64, f64) {
    (pv_annuity(r, n + 1.0 / m, m, p, f) * (1.0 + r / m), pv_annuity(r, n, m, p, f) - p)
}
pub fn p04_zero_rate(n: f64, m: f64, p: f64, f: f64) -> (f64, f64) {
    (pv_annuity(0.0, n, m, p, f), -(n * m) * p - f)
}
pub fn p04_payment(r: f64, n: f64, m: f64, v: f64, f: f64) -> (f64, f64) {
    (pv_annuity(r, n, m, pmt(r, n, m, v, f), f), v)
}
pub fn p04_payment_zero_rate(n: f64, m: f64, v: f64, f: f64) -> (f64, f64) {
    (pmt(0.0, n, m, v, f), -(v + f) / (n * m))
}

// ---------------------------------------------------------------- P05 rate conversions
pub fn p05_nom_eff(r: f64, m: f64) -> (f64, f64) {
    (nom_eff_rate(r, m), (1.0 + r / m).powf(m) - 1.0)
}
pub fn p05_exp_eff(r: f64) -> (f64, f64) {
    (exp_eff_rate(r), r.exp() - 1.0)
}
pub fn p05_eff_nom_eff(r: f64, m: f64) -> (f64, f64) {
    (nom_eff_rate(eff_nom_rate(r, m), m), r)
}
pub fn p05_nom_eff_nom(r: f64, m: f64) -> (f64, f64) {
    (eff_nom_rate(nom_eff_rate(r, m), m), r)
}
pub fn p05_eff_exp_eff(r: f64) -> (f64, f64) {
    (exp_eff_rate(eff_exp_rate(r)), r)
}
pub fn p05_exp_eff_exp(r: f64) -> (f64, f64) {
    (eff_exp_rate(exp_eff_rate(r)), r)
}
pub fn p05_nom_exp(r: f64, m: f64) -> (f64, f64) {
    (nom_exp_rate(r, m), eff_exp_rate(nom_eff_rate(r, m)))
}
pub fn p05_exp_nom(r: f64, m: f64) -> (f64, f64) {
    (exp_nom_rate(r, m), eff_nom_rate(exp_eff_rate(r), m))
}
pub fn p05_nom_exp_nom(r: f64, m: f64) -> (f64, f64) {
    (exp_nom_rate(nom_exp_rate(r, m), m), r)
}
pub fn p05_exp_nom_exp(r: f64, m: f64) -> (f64, f64) {
    (nom_exp_rate(exp_nom_rate(r, m), m), r)
}
pub fn p05_growth_nom(r: f64, n: f64, m: f64, x: f64) -> (f64, f64) {
    (fvm(r, n, m, x), fv(nom_eff_rate(r, m), n, x))
}
pub fn p05_growth_exp(r: f64, n: f64, x: f64) -> (f64, f64) {
    (fvc(r, n, x), fv(exp_eff_rate(r), n, x))
}
pub fn p05_growth_nom_exp(r: f64, n: f64, m: f64, x: f64) -> (f64, f64) {
    (fvm(r, n, m, x), fvc(nom_exp_rate(r, m), n, x))
}

// ---------------------------------------------------------------- P06 net present value
fn npv_spec(r: f64, tim: &Vec<f64>, t0: f64, cf: &Vec<f64>) -> f64 {
    let mut s = 0.0;
    for i in 0..tim.len().min(cf.len()) {
        s += pv(r, tim[i] - t0, cf[i]);
    }
    s
}
pub fn p06_npv_t0(r: f64, tim: &Vec<f64>, cf: &Vec<f64>) -> (f64, f64) {
    (npv_t0(r, tim, cf), npv_spec(r, tim, 0.0, cf))
}
pub fn p06_npv(r: f64, tim: &Vec<f64>, t0: f64, cf: &Vec<f64>) -> (f64, f64) {
    (npv(r, tim, t0, cf), npv_spec(r, tim, t0, cf))
}
pub fn p06_xnpv(r: f64, dt: &Vec<NDt>, d0: NDt, cf: &Vec<f64>) -> (f64, f64) {
    let mut s = 0.0;
    for i in 0..dt.len().min(cf.len()) {
        s += pv(r, yearfrac(d0, dt[i], US30360), cf[i]);
    }
    (xnpv(r, dt, d0, cf), s)
}

// ---------------------------------------------------------------- P07 root finding
pub fn p07_newton(f: impl Fn(f64) -> f64, x0: f64, xtol: f64) -> (Option<f64>, Option<f64>) {
    let h = xtol / 10.0;
    let mut x = x0;
    let mut res = None;
    let mut k = 0;
    while k < 100 {
        let y = f(x);
        let slope = (f(x + h) - y) / h;
        if slope.abs() < 1e-8 {
            break;
        }
        let step = y / slope;
        x = x - step;
        if step.abs() < 1e-8 {
            res = Some(x);
            break;
        }
        k += 1;
    }
    (newt_raph(f, x0, xtol), res)
}
pub fn p07_irr(tim: &Vec<f64>, cf: &Vec<f64>) -> (Option<f64>, Option<f64>) {
    opaque_solver();
    (irr(tim, cf), newt_raph(|r| npv_spec(r, tim, 0.0, cf), 0.1, 1e-6))
}
pub fn p07_xirr(dt: &Vec<NDt>, cf: &Vec<f64>) -> (Option<f64>, Option<f64>) {
    opaque_solver();
    assume(dt.len() > 0);
    (xirr(dt, cf), newt_raph(|r| xnpv(r, dt, dt[0], cf), 0.1, 1e-6))
}

// ---------------------------------------------------------------- P08 comparison
pub fn p08_approx(x: f64, y: f64) -> (bool, bool) {
    let mx = if x.abs() < y.abs() { y.abs() } else { x.abs() };
    (approx(x, y), mx < 1e-8 || (x - y).abs() < 1e-6 * mx)
}
pub fn p08_symmetric(x: f64, y: f64) -> (bool, bool) {
    (approx(x, y), approx(y, x))
}
pub fn p08_is_zero(x: f64) -> (bool, bool) {
    (is_zero(x), -1e-8 < x && x < 1e-8)
}
