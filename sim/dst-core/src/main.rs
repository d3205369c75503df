#![allow(dead_code)]
#[path = "../../shared/hooks.rs"]
mod hooks;
mod os;
mod ext;
mod util;
mod model;
mod text;
mod io;
mod fileio;
mod strict;
mod writing;
mod logs;
mod enc;
mod shared;
mod dpw;
mod constr;
mod instances;
mod algs;
mod veripb;
mod cert;
mod proofw;
mod persist;

use simcore::runner::{App, Prop, Scenario};

fn leave_run() {
    let _ = os::World::leave();
}

fn main() {
    let mut scenarios: Vec<Scenario> = vec![];
    let mut props: Vec<Prop> = vec![];
    ext::register(&mut scenarios, &mut props);
    fileio::register(&mut scenarios, &mut props);
    writing::register(&mut scenarios, &mut props);
    logs::register(&mut scenarios, &mut props);
    enc::register(&mut scenarios, &mut props);
    constr::register(&mut scenarios, &mut props);
    instances::register(&mut scenarios, &mut props);
    algs::register(&mut scenarios, &mut props);
    cert::register(&mut scenarios, &mut props);
    proofw::register(&mut scenarios, &mut props);
    persist::register(&mut scenarios, &mut props);
    App {
        scenarios,
        props,
        enter_run: hooks::enter_run,
        leave_run,
        homes: &[],
    }
    .main()
}
