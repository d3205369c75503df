//! P33: histories of calls to solvers behind the generic IPASIR interface. The linked solver is a
//! scripted peer, so that the harness knows what the wrapper must report.
use crate::heap;
use crate::peer::{slv, table, Last, Plan, World, W};
use rustsat::solvers::{ControlSignal, Learn, Solve, SolveIncremental, SolveStats, SolverResult, StateError, Terminate};
use rustsat::types::{Clause, Lit, TernaryVal, Var};
use rustsat_ipasir::{InvalidApiReturn, IpasirSolver};
use simcore::runner::{set_ctx, Prop, Scenario};
use simcore::{bail, ensure, Outcome, Sim};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

fn lit(l: i32) -> Lit {
    Lit::new(l.unsigned_abs() - 1, l < 0)
}

/// Tells whether the closure that owns it is still there
struct Guard(Rc<Cell<u32>>);

impl Drop for Guard {
    fn drop(&mut self) {
        self.0.set(self.0.get() + 1);
    }
}

struct Term {
    dropped: Rc<Cell<u32>>,
    calls: Rc<Cell<u32>>,
    /// stops at this call
    at: u32,
}

struct Teach {
    dropped: Rc<Cell<u32>>,
    got: Rc<RefCell<Vec<Vec<i32>>>>,
    max: usize,
}

#[derive(Clone, Debug, PartialEq)]
enum St {
    /// no answer available (and whether nothing happened yet)
    Input,
    Sat,
    Unsat(Vec<i32>),
}

struct Obj {
    s: Box<IpasirSolver<'static, 'static>>,
    id: usize,
    st: St,
    clauses: Vec<Vec<i32>>,
    ns: usize,
    nu: usize,
    nt: usize,
    term: Option<Term>,
    learn: Option<Teach>,
    /// closures that must have been dropped exactly once
    gone: Vec<Rc<Cell<u32>>>,
}

impl Obj {
    fn check(&self, sim: &mut Sim, n: usize) -> Outcome {
        let id = self.id;
        for g in &self.gone {
            ensure!(g.get() == 1, "ipasir:closure", "solver {id}: a callback that was replaced or detached was dropped {} times", g.get());
        }
        if let Some(t) = &self.term {
            ensure!(t.dropped.get() == 0, "ipasir:closure", "solver {id}: the attached terminator was dropped");
        }
        if let Some(t) = &self.learn {
            ensure!(t.dropped.get() == 0, "ipasir:closure", "solver {id}: the attached learner was dropped");
        }
        let st = self.s.stats();
        let max = self.clauses.iter().flatten().map(|l| l.unsigned_abs() - 1).max().map(Var::new);
        ensure!(
            (st.n_sat, st.n_unsat, st.n_terminated, st.n_clauses, st.max_var) == (self.ns, self.nu, self.nt, self.clauses.len(), max),
            "ipasir:stats",
            "solver {id}: statistics {st:?}, but there were {} satisfiable, {} unsatisfiable and {} terminated calls, {} clauses, highest variable {max:?}",
            self.ns,
            self.nu,
            self.nt,
            self.clauses.len()
        );
        if !self.clauses.is_empty() {
            let avg = self.clauses.iter().map(Vec::len).sum::<usize>() as f32 / self.clauses.len() as f32;
            ensure!((avg - st.avg_clause_len).abs() < 0.01, "ipasir:stats", "solver {id}: average clause length {} instead of {avg}", st.avg_clause_len);
        }
        let want: Vec<Vec<i32>> = slv(id, |p| p.clauses.clone());
        ensure!(want == self.clauses, "ipasir:clauses", "solver {id}: the linked solver has the clauses {want:?}, added were {:?}", self.clauses);
        if sim.chance(1, 4) {
            self.query(sim, n)?;
        }
        self.rules()
    }

    fn rules(&self) -> Outcome {
        if let Some(m) = W.with(|w| w.borrow_mut().misuse.take()) {
            bail!("ipasir:rules", "solver {}: {m}", self.id);
        }
        ensure!(heap::corrupt() == 0, "ipasir:heap", "memory outside of an allocation was written");
        Ok(())
    }

    /// Values and cores
    fn query(&self, sim: &mut Sim, n: usize) -> Outcome {
        set_ctx(sim, "query");
        let id = self.id;
        let l = sim.range(1, n + 2) as i32 * if sim.coin() { 1 } else { -1 };
        let r = if l > 0 && sim.chance(1, 3) { self.s.var_val(lit(l).var()) } else { self.s.lit_val(lit(l)) };
        self.rules()?;
        if let St::Sat = self.st {
            let (m, fault) = slv(id, |p| (p.last.clone(), p.plan.val_value));
            let Last::Sat(m) = m else { bail!("ipasir:harness", "peer of solver {id} has no model") };
            if let Some((v, x)) = fault {
                if v == l.abs() {
                    sim.fault("invalid_return_val");
                    match r {
                        Ok(r) => bail!("ipasir:value", "solver {id}: value {r} for literal {l} although the solver returned {x}"),
                        Err(e) => ensure!(e.downcast_ref::<InvalidApiReturn>().is_some(), "ipasir:error", "solver {id}: error {e} for an invalid value"),
                    }
                    return Ok(());
                }
            }
            let want = if m.contains(&l) {
                TernaryVal::True
            } else if m.contains(&-l) {
                TernaryVal::False
            } else {
                TernaryVal::DontCare
            };
            match r {
                Ok(r) => ensure!(r == want, "ipasir:value", "solver {id}: value {r} for literal {l}, the solver's model is {m:?}"),
                Err(e) => bail!("ipasir:value", "solver {id}: no value for literal {l}: {e}"),
            }
            if fault.is_none() && sim.chance(1, 3) {
                match self.s.full_solution() {
                    Ok(a) => {
                        for c in &self.clauses {
                            ensure!(c.iter().any(|l| a.lit_value(lit(*l)) == TernaryVal::True), "ipasir:value", "solver {id}: solution {a} does not satisfy {c:?}");
                        }
                    }
                    Err(e) => bail!("ipasir:value", "solver {id}: no solution: {e}"),
                }
            }
        } else {
            match r {
                Ok(r) => bail!("ipasir:state", "solver {id}: value {r} for literal {l} in state {:?}", self.st),
                Err(e) => ensure!(e.downcast_ref::<StateError>().is_some(), "ipasir:error", "solver {id}: error {e} instead of a state error"),
            }
            ensure!(self.s.full_solution().is_err(), "ipasir:state", "solver {id}: solution in state {:?}", self.st);
        }
        self.rules()
    }

    fn core(&mut self, sim: &mut Sim) -> Outcome {
        set_ctx(sim, "core");
        let id = self.id;
        let r = self.s.core();
        self.rules()?;
        match (&self.st, r) {
            (St::Unsat(want), Ok(c)) => {
                let mut c: Vec<i32> = c.iter().map(|l| l.to_ipasir()).collect();
                c.sort_unstable();
                c.dedup();
                let mut w: Vec<i32> = want.iter().map(|l| -l).collect();
                w.sort_unstable();
                ensure!(c == w, "ipasir:core", "solver {id}: core {c:?} instead of {w:?}");
            }
            (St::Unsat(w), Err(e)) => bail!("ipasir:core", "solver {id}: no core, although {w:?} failed: {e}"),
            (s, Ok(c)) => bail!("ipasir:state", "solver {id}: core {c:?} in state {s:?}"),
            (_, Err(e)) => ensure!(e.downcast_ref::<StateError>().is_some(), "ipasir:error", "solver {id}: error {e} instead of a state error"),
        }
        Ok(())
    }

    fn solve(&mut self, sim: &mut Sim, n: usize) -> Outcome {
        let id = self.id;
        let assumps: Option<Vec<i32>> = if sim.chance(2, 3) {
            let k = sim.range(0, 4);
            Some((0..k).map(|_| gen_lit(sim, n)).collect())
        } else {
            None
        };
        // what the linked solver is going to do
        let mut plan = Plan { pick: sim.range(0, 1 << 16) as u64, order: sim.range(0, 1 << 16) as u64, ..Plan::default() };
        let t = slv(id, |p| table(p));
        for _ in 0..sim.weighted(&[4, 2, 2, 1, 1, 1]) {
            plan.steps.push(if sim.coin() {
                None
            } else {
                let k = sim.range(0, n.min(4));
                let mut c: Vec<i32> = vec![];
                for _ in 0..k {
                    let l = gen_lit(sim, n);
                    if !c.contains(&l) && !c.contains(&-l) {
                        c.push(l);
                    }
                }
                if !t.implies(&c) {
                    None
                } else {
                    Some(c)
                }
            });
        }
        if sim.chance(1, 4) {
            plan.blank = sim.range(0, 1 << 16) as u64;
        }
        if sim.chance(1, 12) {
            plan.give_up = true;
        }
        if sim.chance(1, 16) {
            plan.solve_value = Some(*sim.pick(&[-1, 1, 9, 11, 19, 21, 30, i32::MAX, i32::MIN, 10 + 256, 20 - 256]));
        }
        if sim.chance(1, 10) {
            let v = sim.range(1, n) as i32;
            let x: i32 = *sim.pick(&[1, 2, 3, -1, v + 1, -v - 1, i32::MAX, i32::MIN, 2 * v]);
            if x.unsigned_abs() != v.unsigned_abs() {
                plan.val_value = Some((v, x));
            }
        }
        if let Some(a) = &assumps {
            if !a.is_empty() && sim.chance(1, 12) {
                plan.failed_value = Some((a[sim.idx(a.len())], *sim.pick(&[-1, 2, 256, i32::MAX, i32::MIN])));
            }
        }
        let solves = slv(id, |p| {
            p.plan = plan.clone();
            p.solves
        });
        sim.ev(format!("solver {id}: solve {assumps:?} {plan:?}"));
        let calls = self.term.as_ref().map_or(0, |t| t.calls.get());
        if let Some(l) = &self.learn {
            l.got.borrow_mut().clear();
        }
        set_ctx(sim, "solve");
        let r = match &assumps {
            Some(a) => {
                let a: Vec<Lit> = a.iter().map(|l| lit(*l)).collect();
                self.s.solve_assumps(&a)
            }
            None => self.s.solve(),
        };
        self.rules()?;
        let (ran, asked, last, polls, stopped, taught, fault) =
            slv(id, |p| (p.solves - solves, p.asked.clone(), p.last.clone(), p.polls, p.stopped, p.taught.clone(), p.plan.failed_value));
        if ran == 0 {
            slv(id, |p| p.plan.failed_value = None);
            // an answer that is still valid may be repeated
            let ok = match (&self.st, &assumps) {
                (St::Sat, None) => matches!(r, Ok(SolverResult::Sat)),
                (St::Unsat(c), _) if c.is_empty() => matches!(r, Ok(SolverResult::Unsat)),
                _ => false,
            };
            ensure!(ok, "ipasir:verdict", "solver {id}: answer {} without solving, in state {:?}", shown(&r), self.st);
            // the search was not started: its plan is void
            let old = slv(id, |p| p.last.clone());
            if let Last::Sat(_) = old {
                slv(id, |p| {
                    p.plan = Plan::default();
                });
            }
            return Ok(());
        }
        ensure!(ran == 1, "ipasir:verdict", "solver {id}: solved {ran} times in one call");
        let mut want: Vec<i32> = assumps.clone().unwrap_or_default();
        ensure!(asked == want, "ipasir:assumptions", "solver {id}: solved under {asked:?} instead of {want:?}");
        want.sort_unstable();
        // callbacks
        if let Some(t) = &self.term {
            ensure!(polls as u32 == t.calls.get() - calls, "ipasir:terminator", "solver {id}: {polls} polls, the terminator was called {} times", t.calls.get() - calls);
            let stop = t.calls.get() > calls && t.calls.get() >= t.at;
            ensure!(stop == stopped, "ipasir:terminator", "solver {id}: terminator asked to stop: {stop}, solver was told so: {stopped}");
        } else {
            ensure!(polls == 0, "ipasir:terminator", "solver {id}: terminator called although none is attached");
        }
        let possible: usize = plan.steps.iter().filter(|s| s.is_none()).count();
        if self.term.is_some() && !stopped {
            ensure!(polls == possible, "ipasir:terminator", "solver {id}: solver could call the terminator in {polls} of {possible} polls");
        }
        if let Some(l) = &self.learn {
            let got = l.got.borrow().clone();
            if !stopped {
                let exp: Vec<Vec<i32>> = plan.steps.iter().flatten().filter(|c| c.len() <= l.max).cloned().collect();
                ensure!(taught == exp, "ipasir:learner", "solver {id}: of the learned clauses {exp:?} (up to length {}), the solver passed on {taught:?}", l.max);
            }
            ensure!(got == taught, "ipasir:learner", "solver {id}: learner got {got:?} instead of {taught:?}");
            if !got.is_empty() {
                sim.probe("learned_clause_passed_on");
            }
        } else {
            ensure!(taught.is_empty(), "ipasir:learner", "solver {id}: learner called although none is attached");
        }
        if stopped {
            sim.fault("terminated_search");
        } else if plan.solve_value.is_some() {
            sim.fault("invalid_return_solve");
        } else if plan.give_up {
            sim.fault("search_given_up");
        }
        if plan.blank != 0 {
            sim.probe("partial_model");
        }
        // the answer
        match (&last, r) {
            (Last::Broken, Err(e)) => {
                ensure!(e.downcast_ref::<InvalidApiReturn>().is_some(), "ipasir:error", "solver {id}: error {e} for an invalid return value");
                self.st = St::Input;
            }
            (Last::Input, Ok(SolverResult::Interrupted)) => {
                self.nt += 1;
                self.st = St::Input;
            }
            (Last::Sat(_), Ok(SolverResult::Sat)) => {
                self.ns += 1;
                self.st = St::Sat;
                sim.nontrivial = true;
            }
            (Last::Unsat(core), r) => {
                self.nu += 1;
                match (fault, r) {
                    (Some((l, x)), Err(e)) if asked.contains(&l) => {
                        sim.fault("invalid_return_failed");
                        ensure!(e.downcast_ref::<InvalidApiReturn>().is_some(), "ipasir:error", "solver {id}: error {e} for the invalid return value {x}");
                        self.st = St::Input;
                    }
                    (None, Ok(SolverResult::Unsat)) => {
                        self.st = St::Unsat(core.clone());
                        sim.nontrivial = true;
                    }
                    (f, r) => bail!("ipasir:verdict", "solver {id}: answer {}, the solver said unsatisfiable, core {core:?}, invalid value {f:?}", shown(&r)),
                }
            }
            (l, r) => bail!("ipasir:verdict", "solver {id}: answer {}, the solver's state is {l:?}", shown(&r)),
        }
        slv(id, |p| p.plan.failed_value = None);
        self.query(sim, n)?;
        self.core(sim)
    }
}

fn shown(r: &anyhow::Result<SolverResult>) -> String {
    match r {
        Ok(r) => r.to_string(),
        Err(e) => format!("error {e}"),
    }
}

fn gen_lit(sim: &mut Sim, n: usize) -> i32 {
    let v = sim.range(1, n) as i32;
    if sim.coin() {
        -v
    } else {
        v
    }
}

fn gen_clause(sim: &mut Sim, n: usize) -> Vec<i32> {
    let k = sim.weighted(&[1, 6, 12, 10, 3, 1]);
    (0..k).map(|_| gen_lit(sim, n)).collect()
}

fn new(sim: &mut Sim, n: usize) -> Obj {
    W.with(|w| w.borrow_mut().n = n);
    let s = Box::new(IpasirSolver::default());
    let id = W.with(|w| w.borrow().slv.len());
    sim.ev(format!("solver {id}: new"));
    Obj { s, id, st: St::Input, clauses: vec![], ns: 0, nu: 0, nt: 0, term: None, learn: None, gone: vec![] }
}

fn hist(sim: &mut Sim) -> Outcome {
    W.with(|w| *w.borrow_mut() = World::default());
    let r = go(sim);
    let held = W.with(|w| w.borrow().slv.iter().filter(|s| s.is_some()).count());
    if r.is_ok() {
        if let Some(m) = W.with(|w| w.borrow_mut().misuse.take()) {
            bail!("ipasir:rules", "{m}");
        }
        ensure!(held == 0, "ipasir:release", "{held} solvers were never released");
    }
    W.with(|w| *w.borrow_mut() = World::default());
    r
}

fn go(sim: &mut Sim) -> Outcome {
    let n = sim.range(1, 5);
    let mut objs: Vec<Obj> = vec![];
    let mut dead: Vec<Rc<Cell<u32>>> = vec![];
    set_ctx(sim, "new");
    let o = new(sim, n);
    objs.push(o);
    ensure!(objs[0].s.signature() == "reference peer \u{e4}", "ipasir:signature", "signature {}", objs[0].s.signature());
    let steps = sim.range(2, 24);
    let mut shape = 0u64;
    for _ in 0..steps {
        let i = sim.idx(objs.len());
        let what = sim.weighted(&[10, 12, 3, 3, 2, 2, 2, 2, 1, 1, 3]);
        shape = simcore::sim::mix(shape, (i * 16 + what) as u64);
        let o = &mut objs[i];
        let id = o.id;
        match what {
            0 => {
                sim.op("add");
                set_ctx(sim, "add");
                let k = sim.range(1, 3);
                let cls: Vec<Vec<i32>> = (0..k).map(|_| gen_clause(sim, n)).collect();
                sim.ev(format!("solver {id}: add {cls:?}"));
                let real: Vec<Clause> = cls.iter().map(|c| c.iter().map(|l| lit(*l)).collect()).collect();
                match sim.range(0, 3) {
                    0 => o.s.extend(real),
                    1 => o.s.extend(real.iter()),
                    2 => {
                        for c in &real {
                            if let Err(e) = o.s.add_clause_ref(c) {
                                bail!("ipasir:add", "{e}");
                            }
                        }
                    }
                    _ => {
                        for c in real {
                            if let Err(e) = o.s.add_clause(c) {
                                bail!("ipasir:add", "{e}");
                            }
                        }
                    }
                }
                o.clauses.extend(cls);
                o.st = St::Input;
            }
            1 => {
                sim.op("solve");
                o.solve(sim, n)?;
            }
            2 => {
                sim.op("query");
                o.query(sim, n)?;
            }
            3 => {
                sim.op("core");
                o.core(sim)?;
            }
            4 => {
                sim.op("attach_terminator");
                set_ctx(sim, "attach_terminator");
                let at = sim.range(1, 6) as u32;
                let dropped = Rc::new(Cell::new(0));
                let calls = Rc::new(Cell::new(0u32));
                let (g, c) = (Guard(dropped.clone()), calls.clone());
                sim.ev(format!("solver {id}: terminator stopping at call {at}"));
                o.s.attach_terminator(move || {
                    let _ = &g;
                    c.set(c.get() + 1);
                    if c.get() >= at {
                        ControlSignal::Terminate
                    } else {
                        ControlSignal::Continue
                    }
                });
                if let Some(t) = o.term.take() {
                    o.gone.push(t.dropped);
                }
                o.term = Some(Term { dropped, calls, at });
            }
            5 => {
                sim.op("attach_learner");
                set_ctx(sim, "attach_learner");
                let max = match sim.weighted(&[6, 1, 1]) {
                    0 => sim.range(0, 4),
                    1 => i32::MAX as usize,
                    _ => *sim.pick(&[usize::MAX, i32::MAX as usize + 1, u32::MAX as usize, 1 << 32, (1 << 32) + 2]),
                };
                let dropped = Rc::new(Cell::new(0));
                let got = Rc::new(RefCell::new(vec![]));
                let (g, c) = (Guard(dropped.clone()), got.clone());
                sim.ev(format!("solver {id}: learner up to {max}"));
                o.s.attach_learner(
                    move |cl: Clause| {
                        let _ = &g;
                        let cl: Vec<i32> = cl.iter().map(|l| l.to_ipasir()).collect();
                        c.borrow_mut().push(cl);
                    },
                    max,
                );
                if let Some(t) = o.learn.take() {
                    o.gone.push(t.dropped);
                }
                o.learn = Some(Teach { dropped, got, max });
            }
            6 => {
                sim.op("detach_terminator");
                set_ctx(sim, "detach_terminator");
                sim.ev(format!("solver {id}: no terminator"));
                o.s.detach_terminator();
                if let Some(t) = o.term.take() {
                    o.gone.push(t.dropped);
                }
            }
            7 => {
                sim.op("detach_learner");
                set_ctx(sim, "detach_learner");
                sim.ev(format!("solver {id}: no learner"));
                o.s.detach_learner();
                if let Some(t) = o.learn.take() {
                    o.gone.push(t.dropped);
                }
            }
            8 => {
                sim.op("move");
                // the wrapper lives elsewhere from now on
                sim.ev(format!("solver {id}: moved"));
                let old = std::mem::replace(&mut o.s, Box::new(IpasirSolver::default()));
                let tmp = *old;
                let dummy = std::mem::replace(&mut o.s, Box::new(tmp));
                drop(dummy);
            }
            9 => {
                if objs.len() < 3 {
                    sim.op("new");
                    set_ctx(sim, "new");
                    let o = new(sim, n);
                    objs.push(o);
                } else {
                    sim.op("drop");
                    set_ctx(sim, "drop");
                    let o = objs.swap_remove(i);
                    release(sim, o, &mut dead)?;
                    continue;
                }
            }
            _ => {
                sim.op("reserve");
                set_ctx(sim, "reserve");
                if let Err(e) = o.s.reserve(Var::new(n as u32 + 3)) {
                    bail!("ipasir:reserve", "{e}");
                }
            }
        }
        let i = i.min(objs.len() - 1);
        let o = &objs[i];
        o.check(sim, n)?;
        let word = match &o.st {
            St::Input => 0,
            St::Sat => 1,
            St::Unsat(c) => 2 + c.len() as u64,
        };
        sim.state(simcore::sim::mix(word * 4 + u64::from(o.term.is_some()) * 2 + u64::from(o.learn.is_some()), simcore::sim::hash_bytes(1, format!("{:?}", o.clauses).as_bytes())));
        for d in &dead {
            ensure!(d.get() == 1, "ipasir:closure", "a callback of a dropped solver was dropped {} times", d.get());
        }
    }
    set_ctx(sim, "drop");
    while !objs.is_empty() {
        let i = sim.idx(objs.len());
        let o = objs.swap_remove(i);
        release(sim, o, &mut dead)?;
    }
    for d in &dead {
        ensure!(d.get() == 1, "ipasir:closure", "a callback of a dropped solver was dropped {} times", d.get());
    }
    sim.st.shapes.insert(shape);
    Ok(())
}

fn release(sim: &mut Sim, o: Obj, dead: &mut Vec<Rc<Cell<u32>>>) -> Outcome {
    let Obj { s, id, term, learn, gone, .. } = o;
    sim.ev(format!("solver {id}: drop"));
    drop(s);
    dead.extend(gone);
    dead.extend(term.map(|t| t.dropped));
    dead.extend(learn.map(|t| t.dropped));
    let there = W.with(|w| w.borrow().slv[id - 1].is_some());
    ensure!(!there, "ipasir:release", "solver {id} was not released");
    Ok(())
}

pub fn register(sc: &mut Vec<Scenario>, pr: &mut Vec<Prop>) {
    sc.push(Scenario { prop: "P33", name: "histories over the generic interface", weight: 1, f: hist });
    pr.push(Prop {
        id: "P33",
        quick_runs: 400_000,
        thorough_runs: 20_000_000,
        rule: "runs in which the linked solver answered and the wrapper's answer was compared with it",
        shape_measure: "distinct sequences of (solver, operation)",
        real: &["rustsat-ipasir (wrapper and callbacks)", "rustsat::solvers traits"],
        stub: &["the linked IPASIR solver (scripted reference solver that checks the rules of the interface)", "heap (seeded contents, red zones, delayed frees)", "getrandom"],
        assumptions: &["at most 5 variables, 3 solvers and 24 calls", "callbacks do not panic"],
    });
}
