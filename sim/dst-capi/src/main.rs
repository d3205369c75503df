#![allow(dead_code)]
#[path = "/repo/capi/src/lib.rs"]
#[allow(clippy::all, clippy::pedantic, unfulfilled_lint_expectations)]
mod capi;
#[path = "../../shared/heap.rs"]
mod heap;
#[path = "../../shared/hooks.rs"]
mod hooks;
mod hist;

use simcore::runner::{App, Prop, Scenario};

fn enter_run(seed: u64) {
    hooks::enter_run(seed);
    heap::enter(seed);
}

fn main() {
    let mut scenarios: Vec<Scenario> = vec![];
    let mut props: Vec<Prop> = vec![];
    hist::register(&mut scenarios, &mut props);
    App { scenarios, props, enter_run, leave_run: heap::leave, homes: &[] }.main()
}
