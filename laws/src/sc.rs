//! P34: the scalar formulas never panic. Written by tools/gensc.py: one law over all dates and finite numbers, and one in which each number
//! in turn, and then all of them, are not a number or infinite.
use chrono::naive::NaiveDate as NDt;
use financelib::fixedincomes::bonds::*;
use financelib::fixedincomes::moneymarkets::*;
use financelib::DayCountConvention::*;
use financelib::*;

use crate::*;

pub fn p34_is_leap_year(y: i32) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { is_leap_year(y); }), false)
}
pub fn p34_days_in_year(y: i32) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { days_in_year(y); }), false)
}
pub fn p34_date_to_float(d0: NDt) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { date_to_float(d0); }), false)
}
pub fn p34_act360(d0: NDt, d1: NDt) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { yearfrac(d0, d1, ACT360); }), false)
}
pub fn p34_act365(d0: NDt, d1: NDt) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { yearfrac(d0, d1, ACT365); }), false)
}
pub fn p34_actact(d0: NDt, d1: NDt) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { yearfrac(d0, d1, ACTACT); }), false)
}
pub fn p34_eu(d0: NDt, d1: NDt) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { yearfrac(d0, d1, EU30360); }), false)
}
pub fn p34_us(d0: NDt, d1: NDt) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { yearfrac(d0, d1, US30360); }), false)
}
pub fn p34_yrfrac(d0: NDt, d1: NDt) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { yrfrac((d0, d1)); }), false)
}
pub fn p34_dis_fact_annual(r: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { dis_fact_annual(r); }), false)
}
pub fn p34_dis_fact_annual_special(r: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = dis_fact_annual(r); }
        { let r = f64::INFINITY; let _ = dis_fact_annual(r); }
        { let r = -f64::INFINITY; let _ = dis_fact_annual(r); }
    }), false)
}
pub fn p34_dis_fact(r: f64, n: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { dis_fact(r, n); }), false)
}
pub fn p34_dis_fact_special(r: f64, n: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = dis_fact(r, n); }
        { let r = f64::INFINITY; let _ = dis_fact(r, n); }
        { let r = -f64::INFINITY; let _ = dis_fact(r, n); }
        { let n = f64::NAN; let _ = dis_fact(r, n); }
        { let n = f64::INFINITY; let _ = dis_fact(r, n); }
        { let n = -f64::INFINITY; let _ = dis_fact(r, n); }
        { let r = f64::NAN; let n = f64::NAN; let _ = dis_fact(r, n); }
        { let r = f64::INFINITY; let n = f64::INFINITY; let _ = dis_fact(r, n); }
        { let r = -f64::INFINITY; let n = -f64::INFINITY; let _ = dis_fact(r, n); }
    }), false)
}
pub fn p34_xdis_fact(d0: NDt, d1: NDt, r: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { xdis_fact(r, (d0, d1)); }), false)
}
pub fn p34_xdis_fact_special(d0: NDt, d1: NDt, r: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = xdis_fact(r, (d0, d1)); }
        { let r = f64::INFINITY; let _ = xdis_fact(r, (d0, d1)); }
        { let r = -f64::INFINITY; let _ = xdis_fact(r, (d0, d1)); }
    }), false)
}
pub fn p34_fwd_dis_fact(r0: f64, t0: f64, r1: f64, t1: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { fwd_dis_fact((r0, t0), (r1, t1)); }), false)
}
pub fn p34_fwd_dis_fact_special(r0: f64, t0: f64, r1: f64, t1: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r0 = f64::NAN; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
        { let r0 = f64::INFINITY; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
        { let r0 = -f64::INFINITY; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
        { let t0 = f64::NAN; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
        { let t0 = f64::INFINITY; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
        { let t0 = -f64::INFINITY; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
        { let r1 = f64::NAN; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
        { let r1 = f64::INFINITY; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
        { let r1 = -f64::INFINITY; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
        { let t1 = f64::NAN; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
        { let t1 = f64::INFINITY; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
        { let t1 = -f64::INFINITY; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
        { let r0 = f64::NAN; let t0 = f64::NAN; let r1 = f64::NAN; let t1 = f64::NAN; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
        { let r0 = f64::INFINITY; let t0 = f64::INFINITY; let r1 = f64::INFINITY; let t1 = f64::INFINITY; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
        { let r0 = -f64::INFINITY; let t0 = -f64::INFINITY; let r1 = -f64::INFINITY; let t1 = -f64::INFINITY; let _ = fwd_dis_fact((r0, t0), (r1, t1)); }
    }), false)
}
pub fn p34_pv(r: f64, n: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { pv(r, n, x); }), false)
}
pub fn p34_pv_special(r: f64, n: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = pv(r, n, x); }
        { let r = f64::INFINITY; let _ = pv(r, n, x); }
        { let r = -f64::INFINITY; let _ = pv(r, n, x); }
        { let n = f64::NAN; let _ = pv(r, n, x); }
        { let n = f64::INFINITY; let _ = pv(r, n, x); }
        { let n = -f64::INFINITY; let _ = pv(r, n, x); }
        { let x = f64::NAN; let _ = pv(r, n, x); }
        { let x = f64::INFINITY; let _ = pv(r, n, x); }
        { let x = -f64::INFINITY; let _ = pv(r, n, x); }
        { let r = f64::NAN; let n = f64::NAN; let x = f64::NAN; let _ = pv(r, n, x); }
        { let r = f64::INFINITY; let n = f64::INFINITY; let x = f64::INFINITY; let _ = pv(r, n, x); }
        { let r = -f64::INFINITY; let n = -f64::INFINITY; let x = -f64::INFINITY; let _ = pv(r, n, x); }
    }), false)
}
pub fn p34_xpv(d0: NDt, d1: NDt, r: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { xpv(r, (d0, d1), x); }), false)
}
pub fn p34_xpv_special(d0: NDt, d1: NDt, r: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = xpv(r, (d0, d1), x); }
        { let r = f64::INFINITY; let _ = xpv(r, (d0, d1), x); }
        { let r = -f64::INFINITY; let _ = xpv(r, (d0, d1), x); }
        { let x = f64::NAN; let _ = xpv(r, (d0, d1), x); }
        { let x = f64::INFINITY; let _ = xpv(r, (d0, d1), x); }
        { let x = -f64::INFINITY; let _ = xpv(r, (d0, d1), x); }
        { let r = f64::NAN; let x = f64::NAN; let _ = xpv(r, (d0, d1), x); }
        { let r = f64::INFINITY; let x = f64::INFINITY; let _ = xpv(r, (d0, d1), x); }
        { let r = -f64::INFINITY; let x = -f64::INFINITY; let _ = xpv(r, (d0, d1), x); }
    }), false)
}
pub fn p34_pvm(r: f64, n: f64, m: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { pvm(r, n, m, x); }), false)
}
pub fn p34_pvm_special(r: f64, n: f64, m: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = pvm(r, n, m, x); }
        { let r = f64::INFINITY; let _ = pvm(r, n, m, x); }
        { let r = -f64::INFINITY; let _ = pvm(r, n, m, x); }
        { let n = f64::NAN; let _ = pvm(r, n, m, x); }
        { let n = f64::INFINITY; let _ = pvm(r, n, m, x); }
        { let n = -f64::INFINITY; let _ = pvm(r, n, m, x); }
        { let m = f64::NAN; let _ = pvm(r, n, m, x); }
        { let m = f64::INFINITY; let _ = pvm(r, n, m, x); }
        { let m = -f64::INFINITY; let _ = pvm(r, n, m, x); }
        { let x = f64::NAN; let _ = pvm(r, n, m, x); }
        { let x = f64::INFINITY; let _ = pvm(r, n, m, x); }
        { let x = -f64::INFINITY; let _ = pvm(r, n, m, x); }
        { let r = f64::NAN; let n = f64::NAN; let m = f64::NAN; let x = f64::NAN; let _ = pvm(r, n, m, x); }
        { let r = f64::INFINITY; let n = f64::INFINITY; let m = f64::INFINITY; let x = f64::INFINITY; let _ = pvm(r, n, m, x); }
        { let r = -f64::INFINITY; let n = -f64::INFINITY; let m = -f64::INFINITY; let x = -f64::INFINITY; let _ = pvm(r, n, m, x); }
    }), false)
}
pub fn p34_pvc(r: f64, n: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { pvc(r, n, x); }), false)
}
pub fn p34_pvc_special(r: f64, n: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = pvc(r, n, x); }
        { let r = f64::INFINITY; let _ = pvc(r, n, x); }
        { let r = -f64::INFINITY; let _ = pvc(r, n, x); }
        { let n = f64::NAN; let _ = pvc(r, n, x); }
        { let n = f64::INFINITY; let _ = pvc(r, n, x); }
        { let n = -f64::INFINITY; let _ = pvc(r, n, x); }
        { let x = f64::NAN; let _ = pvc(r, n, x); }
        { let x = f64::INFINITY; let _ = pvc(r, n, x); }
        { let x = -f64::INFINITY; let _ = pvc(r, n, x); }
        { let r = f64::NAN; let n = f64::NAN; let x = f64::NAN; let _ = pvc(r, n, x); }
        { let r = f64::INFINITY; let n = f64::INFINITY; let x = f64::INFINITY; let _ = pvc(r, n, x); }
        { let r = -f64::INFINITY; let n = -f64::INFINITY; let x = -f64::INFINITY; let _ = pvc(r, n, x); }
    }), false)
}
pub fn p34_fv(r: f64, n: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { fv(r, n, x); }), false)
}
pub fn p34_fv_special(r: f64, n: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = fv(r, n, x); }
        { let r = f64::INFINITY; let _ = fv(r, n, x); }
        { let r = -f64::INFINITY; let _ = fv(r, n, x); }
        { let n = f64::NAN; let _ = fv(r, n, x); }
        { let n = f64::INFINITY; let _ = fv(r, n, x); }
        { let n = -f64::INFINITY; let _ = fv(r, n, x); }
        { let x = f64::NAN; let _ = fv(r, n, x); }
        { let x = f64::INFINITY; let _ = fv(r, n, x); }
        { let x = -f64::INFINITY; let _ = fv(r, n, x); }
        { let r = f64::NAN; let n = f64::NAN; let x = f64::NAN; let _ = fv(r, n, x); }
        { let r = f64::INFINITY; let n = f64::INFINITY; let x = f64::INFINITY; let _ = fv(r, n, x); }
        { let r = -f64::INFINITY; let n = -f64::INFINITY; let x = -f64::INFINITY; let _ = fv(r, n, x); }
    }), false)
}
pub fn p34_xfv(d0: NDt, d1: NDt, r: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { xfv(r, (d0, d1), x); }), false)
}
pub fn p34_xfv_special(d0: NDt, d1: NDt, r: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = xfv(r, (d0, d1), x); }
        { let r = f64::INFINITY; let _ = xfv(r, (d0, d1), x); }
        { let r = -f64::INFINITY; let _ = xfv(r, (d0, d1), x); }
        { let x = f64::NAN; let _ = xfv(r, (d0, d1), x); }
        { let x = f64::INFINITY; let _ = xfv(r, (d0, d1), x); }
        { let x = -f64::INFINITY; let _ = xfv(r, (d0, d1), x); }
        { let r = f64::NAN; let x = f64::NAN; let _ = xfv(r, (d0, d1), x); }
        { let r = f64::INFINITY; let x = f64::INFINITY; let _ = xfv(r, (d0, d1), x); }
        { let r = -f64::INFINITY; let x = -f64::INFINITY; let _ = xfv(r, (d0, d1), x); }
    }), false)
}
pub fn p34_fvm(r: f64, n: f64, m: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { fvm(r, n, m, x); }), false)
}
pub fn p34_fvm_special(r: f64, n: f64, m: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = fvm(r, n, m, x); }
        { let r = f64::INFINITY; let _ = fvm(r, n, m, x); }
        { let r = -f64::INFINITY; let _ = fvm(r, n, m, x); }
        { let n = f64::NAN; let _ = fvm(r, n, m, x); }
        { let n = f64::INFINITY; let _ = fvm(r, n, m, x); }
        { let n = -f64::INFINITY; let _ = fvm(r, n, m, x); }
        { let m = f64::NAN; let _ = fvm(r, n, m, x); }
        { let m = f64::INFINITY; let _ = fvm(r, n, m, x); }
        { let m = -f64::INFINITY; let _ = fvm(r, n, m, x); }
        { let x = f64::NAN; let _ = fvm(r, n, m, x); }
        { let x = f64::INFINITY; let _ = fvm(r, n, m, x); }
        { let x = -f64::INFINITY; let _ = fvm(r, n, m, x); }
        { let r = f64::NAN; let n = f64::NAN; let m = f64::NAN; let x = f64::NAN; let _ = fvm(r, n, m, x); }
        { let r = f64::INFINITY; let n = f64::INFINITY; let m = f64::INFINITY; let x = f64::INFINITY; let _ = fvm(r, n, m, x); }
        { let r = -f64::INFINITY; let n = -f64::INFINITY; let m = -f64::INFINITY; let x = -f64::INFINITY; let _ = fvm(r, n, m, x); }
    }), false)
}
pub fn p34_fvc(r: f64, n: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { fvc(r, n, x); }), false)
}
pub fn p34_fvc_special(r: f64, n: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = fvc(r, n, x); }
        { let r = f64::INFINITY; let _ = fvc(r, n, x); }
        { let r = -f64::INFINITY; let _ = fvc(r, n, x); }
        { let n = f64::NAN; let _ = fvc(r, n, x); }
        { let n = f64::INFINITY; let _ = fvc(r, n, x); }
        { let n = -f64::INFINITY; let _ = fvc(r, n, x); }
        { let x = f64::NAN; let _ = fvc(r, n, x); }
        { let x = f64::INFINITY; let _ = fvc(r, n, x); }
        { let x = -f64::INFINITY; let _ = fvc(r, n, x); }
        { let r = f64::NAN; let n = f64::NAN; let x = f64::NAN; let _ = fvc(r, n, x); }
        { let r = f64::INFINITY; let n = f64::INFINITY; let x = f64::INFINITY; let _ = fvc(r, n, x); }
        { let r = -f64::INFINITY; let n = -f64::INFINITY; let x = -f64::INFINITY; let _ = fvc(r, n, x); }
    }), false)
}
pub fn p34_pv_annuity(r: f64, n: f64, m: f64, p: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { pv_annuity(r, n, m, p, x); }), false)
}
pub fn p34_pv_annuity_special(r: f64, n: f64, m: f64, p: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = pv_annuity(r, n, m, p, x); }
        { let r = f64::INFINITY; let _ = pv_annuity(r, n, m, p, x); }
        { let r = -f64::INFINITY; let _ = pv_annuity(r, n, m, p, x); }
        { let n = f64::NAN; let _ = pv_annuity(r, n, m, p, x); }
        { let n = f64::INFINITY; let _ = pv_annuity(r, n, m, p, x); }
        { let n = -f64::INFINITY; let _ = pv_annuity(r, n, m, p, x); }
        { let m = f64::NAN; let _ = pv_annuity(r, n, m, p, x); }
        { let m = f64::INFINITY; let _ = pv_annuity(r, n, m, p, x); }
        { let m = -f64::INFINITY; let _ = pv_annuity(r, n, m, p, x); }
        { let p = f64::NAN; let _ = pv_annuity(r, n, m, p, x); }
        { let p = f64::INFINITY; let _ = pv_annuity(r, n, m, p, x); }
        { let p = -f64::INFINITY; let _ = pv_annuity(r, n, m, p, x); }
        { let x = f64::NAN; let _ = pv_annuity(r, n, m, p, x); }
        { let x = f64::INFINITY; let _ = pv_annuity(r, n, m, p, x); }
        { let x = -f64::INFINITY; let _ = pv_annuity(r, n, m, p, x); }
        { let r = f64::NAN; let n = f64::NAN; let m = f64::NAN; let p = f64::NAN; let x = f64::NAN; let _ = pv_annuity(r, n, m, p, x); }
        { let r = f64::INFINITY; let n = f64::INFINITY; let m = f64::INFINITY; let p = f64::INFINITY; let x = f64::INFINITY; let _ = pv_annuity(r, n, m, p, x); }
        { let r = -f64::INFINITY; let n = -f64::INFINITY; let m = -f64::INFINITY; let p = -f64::INFINITY; let x = -f64::INFINITY; let _ = pv_annuity(r, n, m, p, x); }
    }), false)
}
pub fn p34_pmt(r: f64, n: f64, m: f64, p: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { pmt(r, n, m, p, x); }), false)
}
pub fn p34_pmt_special(r: f64, n: f64, m: f64, p: f64, x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = pmt(r, n, m, p, x); }
        { let r = f64::INFINITY; let _ = pmt(r, n, m, p, x); }
        { let r = -f64::INFINITY; let _ = pmt(r, n, m, p, x); }
        { let n = f64::NAN; let _ = pmt(r, n, m, p, x); }
        { let n = f64::INFINITY; let _ = pmt(r, n, m, p, x); }
        { let n = -f64::INFINITY; let _ = pmt(r, n, m, p, x); }
        { let m = f64::NAN; let _ = pmt(r, n, m, p, x); }
        { let m = f64::INFINITY; let _ = pmt(r, n, m, p, x); }
        { let m = -f64::INFINITY; let _ = pmt(r, n, m, p, x); }
        { let p = f64::NAN; let _ = pmt(r, n, m, p, x); }
        { let p = f64::INFINITY; let _ = pmt(r, n, m, p, x); }
        { let p = -f64::INFINITY; let _ = pmt(r, n, m, p, x); }
        { let x = f64::NAN; let _ = pmt(r, n, m, p, x); }
        { let x = f64::INFINITY; let _ = pmt(r, n, m, p, x); }
        { let x = -f64::INFINITY; let _ = pmt(r, n, m, p, x); }
        { let r = f64::NAN; let n = f64::NAN; let m = f64::NAN; let p = f64::NAN; let x = f64::NAN; let _ = pmt(r, n, m, p, x); }
        { let r = f64::INFINITY; let n = f64::INFINITY; let m = f64::INFINITY; let p = f64::INFINITY; let x = f64::INFINITY; let _ = pmt(r, n, m, p, x); }
        { let r = -f64::INFINITY; let n = -f64::INFINITY; let m = -f64::INFINITY; let p = -f64::INFINITY; let x = -f64::INFINITY; let _ = pmt(r, n, m, p, x); }
    }), false)
}
pub fn p34_nom_eff(r: f64, m: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { nom_eff_rate(r, m); }), false)
}
pub fn p34_nom_eff_special(r: f64, m: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = nom_eff_rate(r, m); }
        { let r = f64::INFINITY; let _ = nom_eff_rate(r, m); }
        { let r = -f64::INFINITY; let _ = nom_eff_rate(r, m); }
        { let m = f64::NAN; let _ = nom_eff_rate(r, m); }
        { let m = f64::INFINITY; let _ = nom_eff_rate(r, m); }
        { let m = -f64::INFINITY; let _ = nom_eff_rate(r, m); }
        { let r = f64::NAN; let m = f64::NAN; let _ = nom_eff_rate(r, m); }
        { let r = f64::INFINITY; let m = f64::INFINITY; let _ = nom_eff_rate(r, m); }
        { let r = -f64::INFINITY; let m = -f64::INFINITY; let _ = nom_eff_rate(r, m); }
    }), false)
}
pub fn p34_eff_nom(r: f64, m: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { eff_nom_rate(r, m); }), false)
}
pub fn p34_eff_nom_special(r: f64, m: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = eff_nom_rate(r, m); }
        { let r = f64::INFINITY; let _ = eff_nom_rate(r, m); }
        { let r = -f64::INFINITY; let _ = eff_nom_rate(r, m); }
        { let m = f64::NAN; let _ = eff_nom_rate(r, m); }
        { let m = f64::INFINITY; let _ = eff_nom_rate(r, m); }
        { let m = -f64::INFINITY; let _ = eff_nom_rate(r, m); }
        { let r = f64::NAN; let m = f64::NAN; let _ = eff_nom_rate(r, m); }
        { let r = f64::INFINITY; let m = f64::INFINITY; let _ = eff_nom_rate(r, m); }
        { let r = -f64::INFINITY; let m = -f64::INFINITY; let _ = eff_nom_rate(r, m); }
    }), false)
}
pub fn p34_exp_eff(r: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { exp_eff_rate(r); }), false)
}
pub fn p34_exp_eff_special(r: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = exp_eff_rate(r); }
        { let r = f64::INFINITY; let _ = exp_eff_rate(r); }
        { let r = -f64::INFINITY; let _ = exp_eff_rate(r); }
    }), false)
}
pub fn p34_eff_exp(r: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { eff_exp_rate(r); }), false)
}
pub fn p34_eff_exp_special(r: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = eff_exp_rate(r); }
        { let r = f64::INFINITY; let _ = eff_exp_rate(r); }
        { let r = -f64::INFINITY; let _ = eff_exp_rate(r); }
    }), false)
}
pub fn p34_nom_exp(r: f64, m: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { nom_exp_rate(r, m); }), false)
}
pub fn p34_nom_exp_special(r: f64, m: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = nom_exp_rate(r, m); }
        { let r = f64::INFINITY; let _ = nom_exp_rate(r, m); }
        { let r = -f64::INFINITY; let _ = nom_exp_rate(r, m); }
        { let m = f64::NAN; let _ = nom_exp_rate(r, m); }
        { let m = f64::INFINITY; let _ = nom_exp_rate(r, m); }
        { let m = -f64::INFINITY; let _ = nom_exp_rate(r, m); }
        { let r = f64::NAN; let m = f64::NAN; let _ = nom_exp_rate(r, m); }
        { let r = f64::INFINITY; let m = f64::INFINITY; let _ = nom_exp_rate(r, m); }
        { let r = -f64::INFINITY; let m = -f64::INFINITY; let _ = nom_exp_rate(r, m); }
    }), false)
}
pub fn p34_exp_nom(r: f64, m: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { exp_nom_rate(r, m); }), false)
}
pub fn p34_exp_nom_special(r: f64, m: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = exp_nom_rate(r, m); }
        { let r = f64::INFINITY; let _ = exp_nom_rate(r, m); }
        { let r = -f64::INFINITY; let _ = exp_nom_rate(r, m); }
        { let m = f64::NAN; let _ = exp_nom_rate(r, m); }
        { let m = f64::INFINITY; let _ = exp_nom_rate(r, m); }
        { let m = -f64::INFINITY; let _ = exp_nom_rate(r, m); }
        { let r = f64::NAN; let m = f64::NAN; let _ = exp_nom_rate(r, m); }
        { let r = f64::INFINITY; let m = f64::INFINITY; let _ = exp_nom_rate(r, m); }
        { let r = -f64::INFINITY; let m = -f64::INFINITY; let _ = exp_nom_rate(r, m); }
    }), false)
}
pub fn p34_approx(x: f64, y: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { approx(x, y); }), false)
}
pub fn p34_approx_special(x: f64, y: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let x = f64::NAN; let _ = approx(x, y); }
        { let x = f64::INFINITY; let _ = approx(x, y); }
        { let x = -f64::INFINITY; let _ = approx(x, y); }
        { let y = f64::NAN; let _ = approx(x, y); }
        { let y = f64::INFINITY; let _ = approx(x, y); }
        { let y = -f64::INFINITY; let _ = approx(x, y); }
        { let x = f64::NAN; let y = f64::NAN; let _ = approx(x, y); }
        { let x = f64::INFINITY; let y = f64::INFINITY; let _ = approx(x, y); }
        { let x = -f64::INFINITY; let y = -f64::INFINITY; let _ = approx(x, y); }
    }), false)
}
pub fn p34_is_zero(x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { is_zero(x); }), false)
}
pub fn p34_is_zero_special(x: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let x = f64::NAN; let _ = is_zero(x); }
        { let x = f64::INFINITY; let _ = is_zero(x); }
        { let x = -f64::INFINITY; let _ = is_zero(x); }
    }), false)
}
pub fn p34_bond_price(p: f64, c: f64, f: f64, t: f64, r: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { CouponBond { par: p, c, freq: f, t_life: t }.price(r); }), false)
}
pub fn p34_bond_price_special(p: f64, c: f64, f: f64, t: f64, r: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let p = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let p = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let p = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let c = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let c = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let c = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let f = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let f = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let f = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let t = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let t = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let t = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let r = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let r = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let r = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let p = f64::NAN; let c = f64::NAN; let f = f64::NAN; let t = f64::NAN; let r = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let p = f64::INFINITY; let c = f64::INFINITY; let f = f64::INFINITY; let t = f64::INFINITY; let r = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
        { let p = -f64::INFINITY; let c = -f64::INFINITY; let f = -f64::INFINITY; let t = -f64::INFINITY; let r = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.price(r); }
    }), false)
}
pub fn p34_bond_accrued(p: f64, c: f64, f: f64, t: f64, z: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }), false)
}
pub fn p34_bond_accrued_special(p: f64, c: f64, f: f64, t: f64, z: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let p = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let p = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let p = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let c = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let c = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let c = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let f = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let f = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let f = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let t = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let t = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let t = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let z = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let z = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let z = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let p = f64::NAN; let c = f64::NAN; let f = f64::NAN; let t = f64::NAN; let z = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let p = f64::INFINITY; let c = f64::INFINITY; let f = f64::INFINITY; let t = f64::INFINITY; let z = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
        { let p = -f64::INFINITY; let c = -f64::INFINITY; let f = -f64::INFINITY; let t = -f64::INFINITY; let z = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z); }
    }), false)
}
pub fn p34_bond_full(p: f64, c: f64, f: f64, t: f64, r: f64, z: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }), false)
}
pub fn p34_bond_full_special(p: f64, c: f64, f: f64, t: f64, r: f64, z: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let p = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let p = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let p = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let c = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let c = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let c = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let f = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let f = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let f = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let t = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let t = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let t = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let r = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let r = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let r = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let z = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let z = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let z = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let p = f64::NAN; let c = f64::NAN; let f = f64::NAN; let t = f64::NAN; let r = f64::NAN; let z = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let p = f64::INFINITY; let c = f64::INFINITY; let f = f64::INFINITY; let t = f64::INFINITY; let r = f64::INFINITY; let z = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
        { let p = -f64::INFINITY; let c = -f64::INFINITY; let f = -f64::INFINITY; let t = -f64::INFINITY; let r = -f64::INFINITY; let z = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z); }
    }), false)
}
pub fn p34_bond_flat(p: f64, c: f64, f: f64, t: f64, r: f64, z: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }), false)
}
pub fn p34_bond_flat_special(p: f64, c: f64, f: f64, t: f64, r: f64, z: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let p = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let p = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let p = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let c = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let c = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let c = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let f = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let f = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let f = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let t = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let t = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let t = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let r = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let r = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let r = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let z = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let z = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let z = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let p = f64::NAN; let c = f64::NAN; let f = f64::NAN; let t = f64::NAN; let r = f64::NAN; let z = f64::NAN; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let p = f64::INFINITY; let c = f64::INFINITY; let f = f64::INFINITY; let t = f64::INFINITY; let r = f64::INFINITY; let z = f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
        { let p = -f64::INFINITY; let c = -f64::INFINITY; let f = -f64::INFINITY; let t = -f64::INFINITY; let r = -f64::INFINITY; let z = -f64::INFINITY; let _ = CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z); }
    }), false)
}
pub fn p34_note_price(p: f64, q: f64, f: f64, t: f64, i: f64, d: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }), false)
}
pub fn p34_note_price_special(p: f64, q: f64, f: f64, t: f64, i: f64, d: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let p = f64::NAN; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let p = f64::INFINITY; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let p = -f64::INFINITY; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let q = f64::NAN; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let q = f64::INFINITY; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let q = -f64::INFINITY; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let f = f64::NAN; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let f = f64::INFINITY; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let f = -f64::INFINITY; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let t = f64::NAN; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let t = f64::INFINITY; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let t = -f64::INFINITY; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let i = f64::NAN; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let i = f64::INFINITY; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let i = -f64::INFINITY; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let d = f64::NAN; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let d = f64::INFINITY; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let d = -f64::INFINITY; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let p = f64::NAN; let q = f64::NAN; let f = f64::NAN; let t = f64::NAN; let i = f64::NAN; let d = f64::NAN; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let p = f64::INFINITY; let q = f64::INFINITY; let f = f64::INFINITY; let t = f64::INFINITY; let i = f64::INFINITY; let d = f64::INFINITY; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
        { let p = -f64::INFINITY; let q = -f64::INFINITY; let f = -f64::INFINITY; let t = -f64::INFINITY; let i = -f64::INFINITY; let d = -f64::INFINITY; let _ = FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d); }
    }), false)
}
pub fn p34_t_bill_r(t: f64, p: f64, f: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { t_bill_r(t, p, f); }), false)
}
pub fn p34_t_bill_r_special(t: f64, p: f64, f: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let t = f64::NAN; let _ = t_bill_r(t, p, f); }
        { let t = f64::INFINITY; let _ = t_bill_r(t, p, f); }
        { let t = -f64::INFINITY; let _ = t_bill_r(t, p, f); }
        { let p = f64::NAN; let _ = t_bill_r(t, p, f); }
        { let p = f64::INFINITY; let _ = t_bill_r(t, p, f); }
        { let p = -f64::INFINITY; let _ = t_bill_r(t, p, f); }
        { let f = f64::NAN; let _ = t_bill_r(t, p, f); }
        { let f = f64::INFINITY; let _ = t_bill_r(t, p, f); }
        { let f = -f64::INFINITY; let _ = t_bill_r(t, p, f); }
        { let t = f64::NAN; let p = f64::NAN; let f = f64::NAN; let _ = t_bill_r(t, p, f); }
        { let t = f64::INFINITY; let p = f64::INFINITY; let f = f64::INFINITY; let _ = t_bill_r(t, p, f); }
        { let t = -f64::INFINITY; let p = -f64::INFINITY; let f = -f64::INFINITY; let _ = t_bill_r(t, p, f); }
    }), false)
}
pub fn p34_t_bill_d(r: f64, t: f64, f: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { t_bill_d(r, t, f); }), false)
}
pub fn p34_t_bill_d_special(r: f64, t: f64, f: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let r = f64::NAN; let _ = t_bill_d(r, t, f); }
        { let r = f64::INFINITY; let _ = t_bill_d(r, t, f); }
        { let r = -f64::INFINITY; let _ = t_bill_d(r, t, f); }
        { let t = f64::NAN; let _ = t_bill_d(r, t, f); }
        { let t = f64::INFINITY; let _ = t_bill_d(r, t, f); }
        { let t = -f64::INFINITY; let _ = t_bill_d(r, t, f); }
        { let f = f64::NAN; let _ = t_bill_d(r, t, f); }
        { let f = f64::INFINITY; let _ = t_bill_d(r, t, f); }
        { let f = -f64::INFINITY; let _ = t_bill_d(r, t, f); }
        { let r = f64::NAN; let t = f64::NAN; let f = f64::NAN; let _ = t_bill_d(r, t, f); }
        { let r = f64::INFINITY; let t = f64::INFINITY; let f = f64::INFINITY; let _ = t_bill_d(r, t, f); }
        { let r = -f64::INFINITY; let t = -f64::INFINITY; let f = -f64::INFINITY; let _ = t_bill_d(r, t, f); }
    }), false)
}
pub fn p34_holding(p: f64, q: f64, d: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { holding_per_yield(p, q, d); }), false)
}
pub fn p34_holding_special(p: f64, q: f64, d: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let p = f64::NAN; let _ = holding_per_yield(p, q, d); }
        { let p = f64::INFINITY; let _ = holding_per_yield(p, q, d); }
        { let p = -f64::INFINITY; let _ = holding_per_yield(p, q, d); }
        { let q = f64::NAN; let _ = holding_per_yield(p, q, d); }
        { let q = f64::INFINITY; let _ = holding_per_yield(p, q, d); }
        { let q = -f64::INFINITY; let _ = holding_per_yield(p, q, d); }
        { let d = f64::NAN; let _ = holding_per_yield(p, q, d); }
        { let d = f64::INFINITY; let _ = holding_per_yield(p, q, d); }
        { let d = -f64::INFINITY; let _ = holding_per_yield(p, q, d); }
        { let p = f64::NAN; let q = f64::NAN; let d = f64::NAN; let _ = holding_per_yield(p, q, d); }
        { let p = f64::INFINITY; let q = f64::INFINITY; let d = f64::INFINITY; let _ = holding_per_yield(p, q, d); }
        { let p = -f64::INFINITY; let q = -f64::INFINITY; let d = -f64::INFINITY; let _ = holding_per_yield(p, q, d); }
    }), false)
}
pub fn p34_eff_ann(t: f64, p: f64, q: f64, d: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { eff_ann_yield(t, p, q, d); }), false)
}
pub fn p34_eff_ann_special(t: f64, p: f64, q: f64, d: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let t = f64::NAN; let _ = eff_ann_yield(t, p, q, d); }
        { let t = f64::INFINITY; let _ = eff_ann_yield(t, p, q, d); }
        { let t = -f64::INFINITY; let _ = eff_ann_yield(t, p, q, d); }
        { let p = f64::NAN; let _ = eff_ann_yield(t, p, q, d); }
        { let p = f64::INFINITY; let _ = eff_ann_yield(t, p, q, d); }
        { let p = -f64::INFINITY; let _ = eff_ann_yield(t, p, q, d); }
        { let q = f64::NAN; let _ = eff_ann_yield(t, p, q, d); }
        { let q = f64::INFINITY; let _ = eff_ann_yield(t, p, q, d); }
        { let q = -f64::INFINITY; let _ = eff_ann_yield(t, p, q, d); }
        { let d = f64::NAN; let _ = eff_ann_yield(t, p, q, d); }
        { let d = f64::INFINITY; let _ = eff_ann_yield(t, p, q, d); }
        { let d = -f64::INFINITY; let _ = eff_ann_yield(t, p, q, d); }
        { let t = f64::NAN; let p = f64::NAN; let q = f64::NAN; let d = f64::NAN; let _ = eff_ann_yield(t, p, q, d); }
        { let t = f64::INFINITY; let p = f64::INFINITY; let q = f64::INFINITY; let d = f64::INFINITY; let _ = eff_ann_yield(t, p, q, d); }
        { let t = -f64::INFINITY; let p = -f64::INFINITY; let q = -f64::INFINITY; let d = -f64::INFINITY; let _ = eff_ann_yield(t, p, q, d); }
    }), false)
}
pub fn p34_money_mkt(t: f64, p: f64, q: f64, d: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| { money_mkt_yield(t, p, q, d); }), false)
}
pub fn p34_money_mkt_special(t: f64, p: f64, q: f64, d: f64) -> (bool, bool) {
    check_bounds();
    check_overflow();
    (panics(|| {
        { let t = f64::NAN; let _ = money_mkt_yield(t, p, q, d); }
        { let t = f64::INFINITY; let _ = money_mkt_yield(t, p, q, d); }
        { let t = -f64::INFINITY; let _ = money_mkt_yield(t, p, q, d); }
        { let p = f64::NAN; let _ = money_mkt_yield(t, p, q, d); }
        { let p = f64::INFINITY; let _ = money_mkt_yield(t, p, q, d); }
        { let p = -f64::INFINITY; let _ = money_mkt_yield(t, p, q, d); }
        { let q = f64::NAN; let _ = money_mkt_yield(t, p, q, d); }
        { let q = f64::INFINITY; let _ = money_mkt_yield(t, p, q, d); }
        { let q = -f64::INFINITY; let _ = money_mkt_yield(t, p, q, d); }
        { let d = f64::NAN; let _ = money_mkt_yield(t, p, q, d); }
        { let d = f64::INFINITY; let _ = money_mkt_yield(t, p, q, d); }
        { let d = -f64::INFINITY; let _ = money_mkt_yield(t, p, q, d); }
        { let t = f64::NAN; let p = f64::NAN; let q = f64::NAN; let d = f64::NAN; let _ = money_mkt_yield(t, p, q, d); }
        { let t = f64::INFINITY; let p = f64::INFINITY; let q = f64::INFINITY; let d = f64::INFINITY; let _ = money_mkt_yield(t, p, q, d); }
        { let t = -f64::INFINITY; let p = -f64::INFINITY; let q = -f64::INFINITY; let d = -f64::INFINITY; let _ = money_mkt_yield(t, p, q, d); }
    }), false)
}
