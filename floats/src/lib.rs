//! Floating-point conditions that Verus leaves uninterpreted, decided bit-precisely for every `f64`
//! by Kani/CBMC on the real crate (loop-free code, so there is no bound).
#![cfg(kani)]
use quick_cache::OptionsBuilder;

fn legal(x: f64) -> bool {
    x >= 0.0 && x <= 1.0
}

/// precondition legal(x), postcondition: returns
#[kani::proof]
fn hot_accepts() {
    let x: f64 = kani::any();
    kani::assume(legal(x));
    OptionsBuilder::new().hot_allocation(x);
}

#[kani::proof]
fn ghost_accepts() {
    let x: f64 = kani::any();
    kani::assume(legal(x));
    OptionsBuilder::new().ghost_allocation(x);
}

/// precondition !legal(x), postcondition: does not return (the cover must be unreachable)
#[kani::proof]
#[kani::should_panic]
fn hot_rejects() {
    let x: f64 = kani::any();
    kani::assume(!legal(x));
    OptionsBuilder::new().hot_allocation(x);
    kani::cover!(true, "returned");
}

#[kani::proof]
#[kani::should_panic]
fn ghost_rejects() {
    let x: f64 = kani::any();
    kani::assume(!legal(x));
    OptionsBuilder::new().ghost_allocation(x);
    kani::cover!(true, "returned");
}

/// the axiom `axiom_no_share` of specs/shardprel.spec: no share of anything is nothing
#[kani::proof]
fn no_share() {
    let x: u64 = kani::any();
    assert!((x as f64 * 0.0) as u64 == 0);
    assert!((x as f64 * -0.0) as u64 == 0);
    assert!((x as f64 * 0.0) as usize == 0);
    let n: usize = kani::any();
    assert!((n as f64 * 0.0) as usize == 0);
}
