#![allow(dead_code, unused_variables, unused_imports, unused_mut, unreachable_patterns)]
#[path = "../../shared/heap.rs"]
mod heap;
#[path = "../../shared/hooks.rs"]
mod hooks;
mod hist;
mod intr;
#[cfg(not(feature = "kis"))]
mod oom;
mod slv;
#[cfg(not(feature = "kis"))]
mod trace;
mod tab;

use simcore::runner::{App, Prop, Scenario};

#[global_allocator]
static HEAP: heap::RustHeap = heap::RustHeap;

fn enter_run(seed: u64) {
    hooks::enter_run(seed);
    heap::enter(seed);
}

/// Kissat's library cannot be linked together with CaDiCaL's
const HOMES: &[(&str, &str)] = &[("kissat_", "dst-kissat"), ("incremental_kissat_", "dst-kissat"), ("", "dst-solvers")];

fn main() {
    let mut scenarios: Vec<Scenario> = vec![];
    let mut props: Vec<Prop> = vec![];
    hist::register(&mut scenarios, &mut props);
    intr::register(&mut scenarios, &mut props);
    #[cfg(not(feature = "kis"))]
    oom::register(&mut scenarios, &mut props);
    #[cfg(not(feature = "kis"))]
    trace::register(&mut scenarios, &mut props);
    App { scenarios, props, enter_run, leave_run: heap::leave, homes: HOMES }.main()
}
