#[path = "../../shared/heap.rs"]
#[allow(dead_code)]
mod heap;
mod hist;
#[path = "../../shared/hooks.rs"]
mod hooks;
mod peer;
#[path = "../../dst-solvers/src/tab.rs"]
#[allow(dead_code)]
mod tab;

use simcore::runner::{App, Prop, Scenario};

fn enter_run(seed: u64) {
    hooks::enter_run(seed);
    heap::enter(seed);
}

fn main() {
    let mut scenarios: Vec<Scenario> = vec![];
    let mut props: Vec<Prop> = vec![];
    hist::register(&mut scenarios, &mut props);
    App { scenarios, props, enter_run, leave_run: heap::leave, homes: &[] }.main()
}
