//! Laws: each `pNN_…` function states one obligation of property NN on the public interface of financelib. Nothing here is ever
//! executed: the functions are type-checked with the library and the analyser evaluates their bodies as value graphs. A law
//! returning a pair holds when both components are the same value for all arguments; one returning a bool when it is true.
#![allow(clippy::all)]
#![allow(dead_code, unused)]

/// restricts the arguments the law speaks about
pub fn assume(_: bool) {}
/// whether evaluating the closure panics (explicit panics and failed unwraps)
pub fn panics<F: FnOnce()>(_: F) -> bool {
    false
}
/// the files the closure writes, as (path, content)
pub fn written<F: FnOnce()>(_: F) -> Vec<(String, String)> {
    vec![]
}
/// first try: calls of this function (the end of its path) are functions of their arguments, whatever they compute
pub fn opaque_calls(_: &str) {}
/// what the closure returns with every table in it taken as a fixed text, and the tables it asks for
pub fn tables<F: FnOnce() -> String>(f: F) -> (String, Vec<(financelib::statements::Accounts, String, f64)>) {
    (f(), vec![])
}
/// panics inside the law are no violation of it
pub fn allow_panics() {}
/// out-of-range indices, overflows and divisions by zero count as panics too
pub fn check_bounds() {}
/// sums, differences and products of integers beyond their type count as panics too (with check_bounds)
pub fn check_overflow() {}
/// the root finder is taken as a function of the equation it is given
pub fn opaque_solver() {}
/// amounts of at most 1e-5 are not distinguished from zero
pub fn negligible() {}

pub mod base;
pub mod fi;
pub mod st;
pub mod acc;
pub mod sc;
pub mod tab;
