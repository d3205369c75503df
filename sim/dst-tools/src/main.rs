#![allow(dead_code)]
mod conv;
#[path = "../../dst-core/src/model.rs"]
mod model;
#[path = "../../dst-core/src/strict.rs"]
mod strict;
#[path = "../../dst-core/src/text.rs"]
mod text;
mod tool;
mod using;
#[path = "../../dst-core/src/util.rs"]
mod util;
mod gen;

use simcore::runner::{App, Prop, Scenario};

fn main() {
    let sc = |name, weight, f| Scenario { prop: "P19", name, weight, f };
    let scenarios = vec![
        sc("to-opb", 6, conv::to_opb),
        sc("from-opb", 6, conv::from_opb),
        sc("shuffle", 3, conv::shuffle),
        sc("ilp", 4, conv::ilp),
        sc("split", 5, conv::split),
        sc("check-solution", 4, using::check_solution),
        sc("enumerate", 4, using::enumerate),
        sc("propagate", 4, using::propagate),
        sc("knapsack", 5, gen::knapsack),
        sc("assignment", 3, gen::assignment),
        sc("facility-location", 3, gen::facility_location),
        sc("clustering", 3, gen::clustering),
    ];
    let props = vec![Prop {
        id: "P19",
        quick_runs: 90_000,
        thorough_runs: 1_000_000,
        rule: "runs in which a tool ended and its output was compared with the meaning of its input",
        shape_measure: "distinct sequences of (tool, fault)",
        real: &["all 13 binaries of rustsat-tools, unmodified, as processes", "rustsat", "rustsat-minisat"],
        stub: &["read, write, open, getrandom of the tools (seeded short transfers, interruptions, errors)", "files are in a scratch directory in memory"],
        assumptions: &["instances of at most 4 variables and 7 constraints or soft clauses, data sets of at most 5 items", "tools run in the debug profile"],
    }];
    App { scenarios, props, enter_run: |_| (), leave_run: tool::tidy, homes: &[] }.main()
}
