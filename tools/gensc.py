#!/usr/bin/env python3
"""Writes laws/src/sc.rs: panic-freedom of the scalar formulas (P34), one law over all finite arguments and one per non-finite argument."""
import os
here = os.path.dirname(os.path.abspath(__file__))
F = [  # name, date arguments, float arguments, call
    ('date_to_float', 'd0', '', 'date_to_float(d0)'),
    ('act360', 'd0 d1', '', 'yearfrac(d0, d1, ACT360)'), ('act365', 'd0 d1', '', 'yearfrac(d0, d1, ACT365)'),
    ('actact', 'd0 d1', '', 'yearfrac(d0, d1, ACTACT)'), ('eu', 'd0 d1', '', 'yearfrac(d0, d1, EU30360)'),
    ('us', 'd0 d1', '', 'yearfrac(d0, d1, US30360)'), ('yrfrac', 'd0 d1', '', 'yrfrac((d0, d1))'),
    ('dis_fact_annual', '', 'r', 'dis_fact_annual(r)'), ('dis_fact', '', 'r n', 'dis_fact(r, n)'), ('xdis_fact', 'd0 d1', 'r', 'xdis_fact(r, (d0, d1))'),
    ('fwd_dis_fact', '', 'r0 t0 r1 t1', 'fwd_dis_fact((r0, t0), (r1, t1))'),
    ('pv', '', 'r n x', 'pv(r, n, x)'), ('xpv', 'd0 d1', 'r x', 'xpv(r, (d0, d1), x)'), ('pvm', '', 'r n m x', 'pvm(r, n, m, x)'), ('pvc', '', 'r n x', 'pvc(r, n, x)'),
    ('fv', '', 'r n x', 'fv(r, n, x)'), ('xfv', 'd0 d1', 'r x', 'xfv(r, (d0, d1), x)'), ('fvm', '', 'r n m x', 'fvm(r, n, m, x)'), ('fvc', '', 'r n x', 'fvc(r, n, x)'),
    ('pv_annuity', '', 'r n m p x', 'pv_annuity(r, n, m, p, x)'), ('pmt', '', 'r n m p x', 'pmt(r, n, m, p, x)'),
    ('nom_eff', '', 'r m', 'nom_eff_rate(r, m)'), ('eff_nom', '', 'r m', 'eff_nom_rate(r, m)'), ('exp_eff', '', 'r', 'exp_eff_rate(r)'),
    ('eff_exp', '', 'r', 'eff_exp_rate(r)'), ('nom_exp', '', 'r m', 'nom_exp_rate(r, m)'), ('exp_nom', '', 'r m', 'exp_nom_rate(r, m)'),
    ('approx', '', 'x y', 'approx(x, y)'), ('is_zero', '', 'x', 'is_zero(x)'),
    ('bond_price', '', 'p c f t r', 'CouponBond { par: p, c, freq: f, t_life: t }.price(r)'),
    ('bond_accrued', '', 'p c f t z', 'CouponBond { par: p, c, freq: f, t_life: t }.accrued_interest(z)'),
    ('bond_full', '', 'p c f t r z', 'CouponBond { par: p, c, freq: f, t_life: t }.pv_full(r, z)'),
    ('bond_flat', '', 'p c f t r z', 'CouponBond { par: p, c, freq: f, t_life: t }.pv_flat(r, z)'),
    ('note_price', '', 'p q f t i d', 'FloatingRateNotes { par: p, quoted_margin: q, freq: f, t_life: t }.price(i, d)'),
    ('t_bill_r', '', 't p f', 't_bill_r(t, p, f)'), ('t_bill_d', '', 'r t f', 't_bill_d(r, t, f)'), ('holding', '', 'p q d', 'holding_per_yield(p, q, d)'),
    ('eff_ann', '', 't p q d', 'eff_ann_yield(t, p, q, d)'), ('money_mkt', '', 't p q d', 'money_mkt_yield(t, p, q, d)'),
]
out = ['//! P34: the scalar formulas never panic. Written by tools/gensc.py: one law over all dates and finite numbers, and one in which each number',
       '//! in turn, and then all of them, are not a number or infinite.',
       'use chrono::naive::NaiveDate as NDt;', 'use financelib::fixedincomes::bonds::*;', 'use financelib::fixedincomes::moneymarkets::*;',
       'use financelib::DayCountConvention::*;', 'use financelib::*;', '', 'use crate::*;', '']
ints = [('is_leap_year', 'is_leap_year(y)'), ('days_in_year', 'days_in_year(y)')]
for n, c in ints:
    out.append(f'pub fn p34_{n}(y: i32) -> (bool, bool) {{\n    check_bounds();\n    check_overflow();\n    (panics(|| {{ {c}; }}), false)\n}}')
for n, ds, fs, c in F:
    ds, fs = ds.split(), fs.split()
    ps = ', '.join([f'{d}: NDt' for d in ds] + [f'{f}: f64' for f in fs])
    out.append(f'pub fn p34_{n}({ps}) -> (bool, bool) {{\n    check_bounds();\n    check_overflow();\n    (panics(|| {{ {c}; }}), false)\n}}')
    if fs:
        b = []
        for sub in [[f] for f in fs] + ([fs] if len(fs) > 1 else []):
            for v in ('f64::NAN', 'f64::INFINITY', '-f64::INFINITY'):
                b.append('        { ' + ' '.join(f'let {f} = {v};' for f in sub) + f' let _ = {c}; }}')
        out.append(f'pub fn p34_{n}_special({ps}) -> (bool, bool) {{\n    check_bounds();\n    check_overflow();\n    (panics(|| {{\n' + '\n'.join(b) + '\n    }), false)\n}')
open(os.path.join(here, '..', 'laws', 'src', 'sc.rs'), 'w').write('\n'.join(out) + '\n')
