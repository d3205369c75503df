mod hist;
#[path = "../../shared/hooks.rs"]
mod hooks;
mod py;

use simcore::runner::{App, Prop, Scenario};

fn main() {
    let mut scenarios: Vec<Scenario> = vec![];
    let mut props: Vec<Prop> = vec![];
    hist::register(&mut scenarios, &mut props);
    App { scenarios, props, enter_run: hooks::enter_run, leave_run: || {}, homes: &[] }.main()
}
