//! P08 (the incremental simulator), P24 (solution-improving search).
//!
//! Both are driven over a simulated solver: it holds the clauses it was given, decides them with
//! the reference procedure, picks an arbitrary model (or a partial one) and fails, runs out of
//! memory or is interrupted at the calls the run plans for it.
use crate::model::bit;
use crate::util::{clause, gen_clause, lit};
use rustsat::algs::maxsat::{self, SolutionImprovingSearch};
use rustsat::encodings::pb::{BinaryAdder, GeneralizedTotalizer};
use rustsat::instances::{Cnf, Objective, OptInstance, SatInstance};
use rustsat::solvers::simulators::Incremental;
use rustsat::solvers::{Initialize, Solve, SolveIncremental, SolveStats, SolverResult, SolverState, SolverStats, StateError};
use rustsat::types::{Assignment, Cl, Clause, Lit, TernaryVal, Var};
use simcore::reference::Sat;
use simcore::runner::{Prop, Scenario};
use simcore::sim::Rng;
use simcore::{bail, ensure, Outcome, Sim};
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Flt {
    /// the call fails and has no effect
    Fail,
    /// the call fails, but (for clauses) the clause was taken
    FailAfter,
    /// out of memory
    Oom,
    /// a solve call is interrupted
    Interrupt,
}

/// what the simulated solvers of this run do
struct Ctx {
    rng: Rng,
    plan: BTreeMap<u64, Flt>,
    ops: u64,
    hit: Vec<(u64, Flt, &'static str)>,
    one_shot: bool,
    /// a solver that failed once refuses all further calls
    broken: bool,
    partial: bool,
    max_solves: u64,
    solves: u64,
    n_init: u64,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
}

fn ctx<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("a simulated solver outside of a run")))
}

fn op(name: &'static str) -> Option<Flt> {
    ctx(|c| {
        c.ops += 1;
        let f = c.plan.get(&c.ops).copied()?;
        c.hit.push((c.ops, f, name));
        Some(f)
    })
}

fn n_hit() -> usize {
    ctx(|c| c.hit.len())
}

#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
enum St {
    #[default]
    Input,
    Sat,
    Unsat,
    Unknown,
    Broken,
}

#[derive(Debug)]
pub struct Slv {
    cls: Vec<Vec<i32>>,
    st: St,
    model: Vec<Option<bool>>,
    core: Vec<i32>,
    used: bool,
    stats: SolverStats,
}

pub struct Boot;
impl Initialize<Slv> for Boot {
    fn init() -> Slv {
        Slv::default()
    }
}

impl Default for Slv {
    fn default() -> Self {
        ctx(|c| c.n_init += 1);
        Slv { cls: vec![], st: St::Input, model: vec![], core: vec![], used: false, stats: SolverStats::default() }
    }
}

fn fail(f: Flt, what: &str) -> anyhow::Error {
    match f {
        Flt::Oom => rustsat::OutOfMemory::ExternalApi.into(),
        _ => anyhow::anyhow!("simulated failure of {what}"),
    }
}

impl Slv {
    fn broke(&mut self) {
        if ctx(|c| c.broken) {
            self.st = St::Broken;
        }
    }
    fn usable(&self) -> anyhow::Result<()> {
        if self.st == St::Broken {
            anyhow::bail!("the solver failed before");
        }
        if self.used && ctx(|c| c.one_shot) {
            return Err(StateError { required_state: SolverState::Input, actual_state: SolverState::Sat }.into());
        }
        Ok(())
    }
    fn see(&mut self, v: Var) {
        self.stats.max_var = Some(self.stats.max_var.map_or(v, |m| m.max(v)));
    }
    fn take(&mut self, c: Vec<i32>) {
        for l in &c {
            self.see(lit(*l).var());
        }
        self.stats.n_clauses += 1;
        self.cls.push(c);
    }
    fn run(&mut self, assumps: &[Lit]) -> anyhow::Result<SolverResult> {
        self.usable()?;
        ctx(|c| {
            c.solves += 1;
            if c.solves > c.max_solves {
                anyhow::bail!("too many solve calls");
            }
            Ok(())
        })?;
        self.used = true;
        self.st = St::Unknown;
        match op("solve") {
            Some(Flt::Interrupt) => return Ok(SolverResult::Interrupted),
            Some(f) => {
                self.broke();
                return Err(fail(f, "solve"));
            }
            None => (),
        }
        let mut s = Sat::of(&self.cls);
        let mut a: Vec<i32> = assumps.iter().map(|l| l.to_ipasir()).collect();
        for l in assumps {
            self.see(l.var());
        }
        if !s.is_sat(&a) {
            self.st = St::Unsat;
            // a core that is not minimal
            let mut core = a.clone();
            let mut k = 0;
            while k < core.len() {
                let mut c = core.clone();
                c.remove(k);
                if ctx(|c| c.rng.next() % 2 == 0) && !s.is_sat(&c) {
                    core = c;
                } else {
                    k += 1;
                }
            }
            self.core = core.iter().map(|l| -l).collect();
            self.stats.n_unsat += 1;
            return Ok(SolverResult::Unsat);
        }
        let n = self.stats.max_var.map_or(0, |v| v.idx32() as usize + 1);
        let fixed = a.clone();
        for _ in 0..n {
            let l = ctx(|c| {
                let v = (c.rng.next() % n as u64) as i32 + 1;
                if c.rng.next() % 2 == 0 {
                    v
                } else {
                    -v
                }
            });
            if !a.contains(&l) && !a.contains(&-l) {
                a.push(l);
                if !s.is_sat(&a) {
                    a.pop();
                }
            }
        }
        let mut m = s.solve(&a).unwrap();
        m.resize(n + 1, false);
        self.model = m.iter().map(|b| Some(*b)).collect();
        if ctx(|c| c.partial) {
            for v in 1..=n {
                if fixed.iter().any(|l| l.unsigned_abs() as usize == v) || ctx(|c| c.rng.next() % 2 == 0) {
                    continue;
                }
                let old = self.model[v].take();
                if !self.cls.iter().all(|c| c.iter().any(|l| self.of(*l) == TernaryVal::True)) {
                    self.model[v] = old;
                }
            }
        }
        self.st = St::Sat;
        self.stats.n_sat += 1;
        Ok(SolverResult::Sat)
    }
    fn of(&self, l: i32) -> TernaryVal {
        match self.model.get(l.unsigned_abs() as usize) {
            Some(Some(b)) => TernaryVal::from(*b == (l > 0)),
            _ => TernaryVal::DontCare,
        }
    }
}

impl Solve for Slv {
    fn signature(&self) -> &'static str {
        "simulated"
    }
    fn reserve(&mut self, max_var: Var) -> anyhow::Result<()> {
        self.usable()?;
        if let Some(f) = op("reserve") {
            self.broke();
            return Err(fail(f, "reserve"));
        }
        self.see(max_var);
        self.st = St::Input;
        Ok(())
    }
    fn solve(&mut self) -> anyhow::Result<SolverResult> {
        self.run(&[])
    }
    fn lit_val(&self, l: Lit) -> anyhow::Result<TernaryVal> {
        if self.st != St::Sat {
            return Err(StateError { required_state: SolverState::Sat, actual_state: SolverState::Input }.into());
        }
        Ok(self.of(l.to_ipasir()))
    }
    fn solution(&self, high_var: Var) -> anyhow::Result<Assignment> {
        if let Some(f) = op("solution") {
            return Err(fail(f, "solution"));
        }
        (0..=high_var.idx32()).map(|i| self.lit_val(Lit::positive(i))).collect()
    }
    fn add_clause_ref<C>(&mut self, c: &C) -> anyhow::Result<()>
    where
        C: AsRef<Cl> + ?Sized,
    {
        self.usable()?;
        let cl: Vec<i32> = c.as_ref().iter().map(|l| l.to_ipasir()).collect();
        if let Some(f) = op("add") {
            if f == Flt::FailAfter {
                self.take(cl);
            }
            self.st = St::Input;
            self.broke();
            return Err(fail(f, "add_clause"));
        }
        self.take(cl);
        self.st = St::Input;
        Ok(())
    }
}

impl SolveIncremental for Slv {
    fn solve_assumps(&mut self, assumps: &[Lit]) -> anyhow::Result<SolverResult> {
        self.run(assumps)
    }
    fn core(&mut self) -> anyhow::Result<Vec<Lit>> {
        if self.st != St::Unsat {
            return Err(StateError { required_state: SolverState::Unsat, actual_state: SolverState::Input }.into());
        }
        Ok(self.core.iter().map(|l| lit(*l)).collect())
    }
}

impl SolveStats for Slv {
    fn stats(&self) -> SolverStats {
        self.stats.clone()
    }
}

impl Extend<Clause> for Slv {
    fn extend<T: IntoIterator<Item = Clause>>(&mut self, it: T) {
        for c in it {
            self.add_clause(c).expect("extend");
        }
    }
}
impl<'a, C: AsRef<Cl> + ?Sized> Extend<&'a C> for Slv {
    fn extend<T: IntoIterator<Item = &'a C>>(&mut self, it: T) {
        for c in it {
            self.add_clause_ref(c).expect("extend");
        }
    }
}

fn enter(sim: &mut Sim, faults: usize, horizon: u64, one_shot: bool, partial: bool) {
    let mut plan = BTreeMap::new();
    for _ in 0..faults {
        let f = *sim.pick(&[Flt::Fail, Flt::FailAfter, Flt::Oom, Flt::Interrupt, Flt::Interrupt]);
        plan.insert(1 + sim.choose(horizon), f);
    }
    let broken = sim.coin();
    let rng = Rng::new(sim.choose(1 << 20));
    CTX.with(|c| {
        *c.borrow_mut() = Some(Ctx { rng, plan, ops: 0, hit: vec![], one_shot, broken, partial, max_solves: u64::MAX, solves: 0, n_init: 0 });
    });
}

fn note_faults(sim: &mut Sim) {
    let hit = ctx(|c| std::mem::take(&mut c.hit));
    for (_, f, w) in hit {
        sim.fault(&match (f, w) {
            (Flt::Interrupt, "solve") => "the solver is interrupted".to_string(),
            (Flt::Oom, w) => format!("out of memory in {w} of the inner solver"),
            (Flt::FailAfter, "add") => "a clause is taken, but adding it fails".to_string(),
            (_, w) => format!("{w} of the inner solver fails"),
        });
    }
}

// ------------------------------------------------------------------ P08

type Inc = Incremental<Slv, Boot>;

fn p08(sim: &mut Sim) -> Outcome {
    let nf = if sim.chance(1, 3) { 0 } else { sim.range(1, 4) };
    let one_shot = sim.chance(2, 3);
    let partial = sim.chance(1, 3);
    enter(sim, nf, 60, one_shot, partial);
    let nv = sim.range(1, 6);
    let mut s = Inc::default();
    let mut all: Vec<Vec<i32>> = vec![];
    // clauses whose addition failed: may be there or not
    let mut maybe: Vec<Vec<i32>> = vec![];
    // what the last call makes readable
    let mut last: Option<(SolverResult, Vec<i32>)> = None;
    let mut log: Vec<String> = vec![];
    let (mut n_add, mut n_calls, mut failed_add) = (0usize, 0usize, false);
    let steps = sim.range(2, 14);
    for _ in 0..steps {
        let before = n_hit();
        match sim.weighted(&[8, 3, 5, 3, 1, 3, 1, 1]) {
            k @ (0 | 6 | 7) => {
                let c = gen_clause(sim, nv, 3);
                sim.op("add");
                log.push(format!("add {c:?}"));
                let r = match k {
                    0 if sim.coin() => s.add_clause(clause(&c)),
                    0 => s.add_clause_ref(&clause(&c)),
                    6 => {
                        let cnf: Cnf = std::iter::once(clause(&c)).collect();
                        if sim.coin() { s.add_cnf(cnf) } else { s.add_cnf_ref(&cnf) }
                    }
                    _ => match c.len() {
                        1 => s.add_unit(lit(c[0])),
                        2 => s.add_binary(lit(c[0]), lit(c[1])),
                        3 => s.add_ternary(lit(c[0]), lit(c[1]), lit(c[2])),
                        _ => s.add_clause(clause(&c)),
                    },
                };
                n_add += 1;
                last = None;
                match r {
                    Ok(()) => {
                        ensure!(n_hit() == before, "failure-hidden:add", "adding {c:?} succeeded although the inner solver failed ({log:?})");
                        all.push(c);
                    }
                    Err(e) => {
                        ensure!(n_hit() > before, "refused:add", "adding {c:?} failed with {e} ({log:?})");
                        log.push("failed".into());
                        maybe.push(c);
                        failed_add = true;
                    }
                }
            }
            k @ (1 | 2) => {
                let mut a: Vec<i32> = vec![];
                if k == 2 {
                    for _ in 0..sim.range(0, 4) {
                        let v = sim.range(1, nv) as i32;
                        a.push(if sim.coin() { v } else { -v });
                    }
                }
                sim.op(if k == 1 { "solve" } else { "solve_assumps" });
                log.push(if k == 1 { "solve".into() } else { format!("solve {a:?}") });
                n_calls += 1;
                let r = if k == 1 {
                    s.solve()
                } else {
                    let l: Vec<Lit> = a.iter().map(|l| lit(*l)).collect();
                    s.solve_assumps(&l)
                };
                match r {
                    Err(e) => {
                        ensure!(n_hit() > before, "refused:solve", "solving failed with {e} ({log:?})");
                        log.push("failed".into());
                        last = None;
                    }
                    Ok(SolverResult::Interrupted) => {
                        ensure!(n_hit() > before, "interrupted", "nothing interrupted the solver ({log:?})");
                        last = Some((SolverResult::Interrupted, a));
                    }
                    Ok(r) => {
                        ensure!(n_hit() == before, "failure-hidden:solve", "{r:?} although the inner solver failed ({log:?})");
                        let least = Sat::of(&all).is_sat(&a);
                        let most = { let mut x = all.clone(); x.extend(maybe.iter().cloned()); Sat::of(&x).is_sat(&a) };
                        if r == SolverResult::Sat {
                            ensure!(least, "wrong-sat", "satisfiable, but it is not ({log:?})");
                        } else {
                            ensure!(!most, "wrong-unsat", "unsatisfiable, but it is not ({log:?})");
                        }
                        sim.nontrivial = true;
                        log.push(format!("{r:?}"));
                        last = Some((r, a));
                    }
                }
            }
            3 => {
                // values
                sim.op("values");
                let sat = matches!(last, Some((SolverResult::Sat, _)));
                match sim.idx(3) {
                    0 => {
                        let r = s.solution(Var::new(nv as u32 - 1));
                        if n_hit() > before {
                            ensure!(r.is_err(), "failure-hidden:solution", "reading the solution failed ({log:?})");
                            continue;
                        }
                        ensure!(r.is_ok() == sat, "state:solution", "{r:?} in state {last:?} ({log:?})");
                        if let Ok(m) = r {
                            let t = |l: &i32| m.lit_value(lit(*l)) == TernaryVal::True;
                            if let Some(c) = all.iter().find(|c| !c.iter().any(t)) {
                                bail!("model", "the solution {m} does not satisfy {c:?} ({log:?})");
                            }
                            if let Some(a) = last.as_ref().unwrap().1.iter().find(|a| !t(a)) {
                                bail!("model", "the solution {m} does not satisfy the assumption {a} ({log:?})");
                            }
                        }
                    }
                    1 => {
                        let m: Vec<_> = (1..=nv as i32).map(|v| (s.lit_val(lit(v)), s.lit_val(lit(-v)), s.var_val(lit(v).var()))).collect();
                        for (v, (p, n, x)) in m.iter().enumerate() {
                            ensure!(p.is_ok() == sat && n.is_ok() == sat && x.is_ok() == sat, "state:value", "value of {} in state {last:?}: {p:?} ({log:?})", v + 1);
                            if let (Ok(p), Ok(n), Ok(x)) = (p, n, x) {
                                ensure!(p == x && *p == -*n, "value", "variable {} has value {p:?}, its literals {x:?} and {n:?} ({log:?})", v + 1);
                            }
                        }
                        if sat {
                            let t = |l: &i32| { let x = m[l.unsigned_abs() as usize - 1].0.as_ref().unwrap(); *x == TernaryVal::from(*l > 0) };
                            if let Some(c) = all.iter().chain(last.as_ref().unwrap().1.iter().map(|l| vec![*l]).collect::<Vec<_>>().iter()).find(|c| !c.iter().any(t)) {
                                bail!("model", "the values do not satisfy {c:?} ({log:?})");
                            }
                        }
                    }
                    _ => {
                        let r = s.full_solution();
                        if n_hit() > before {
                            continue;
                        }
                        ensure!(r.is_ok() == sat, "state:full", "full solution {r:?} in state {last:?} ({log:?})");
                    }
                }
                continue;
            }
            4 => {
                sim.op("reserve");
                log.push("reserve".into());
                match s.reserve(Var::new(sim.range(0, 9) as u32)) {
                    Ok(()) => ensure!(n_hit() == before, "failure-hidden:reserve", "({log:?})"),
                    Err(e) => ensure!(n_hit() > before, "refused:reserve", "reserve failed with {e} ({log:?})"),
                }
                // reserving may or may not keep what can be read
                if let Some((r, _)) = &last {
                    if *r == SolverResult::Sat && s.lit_val(lit(1)).is_err() || *r == SolverResult::Unsat && s.core().is_err() {
                        last = None;
                    }
                }
            }
            5 => {
                sim.op("core");
                let unsat = matches!(last, Some((SolverResult::Unsat, _)));
                let r = s.core();
                if n_hit() > before {
                    ensure!(r.is_err(), "failure-hidden:core", "({log:?})");
                    continue;
                }
                ensure!(r.is_ok() == unsat, "state:core", "core {r:?} in state {last:?} ({log:?})");
                if let Ok(core) = r {
                    let core: Vec<i32> = core.iter().map(|l| l.to_ipasir()).collect();
                    let a = &last.as_ref().unwrap().1;
                    ensure!(core.iter().all(|l| a.contains(&-l)), "core", "{core:?} is not made of negated assumptions ({log:?})");
                    let neg: Vec<i32> = core.iter().map(|l| -l).collect();
                    let mut x = all.clone();
                    x.extend(maybe.iter().cloned());
                    ensure!(!Sat::of(&x).is_sat(&neg), "core", "{core:?} does not follow ({log:?})");
                }
                continue;
            }
            _ => unreachable!(),
        }
        sim.state(simcore::sim::hash_str(&format!("{:?}{last:?}", all)));
        // the reported numbers
        if !failed_add {
            ensure!(s.n_clauses() == n_add, "stats", "{} clauses reported after adding {n_add} ({log:?})", s.n_clauses());
            let mx = all.iter().flatten().map(|l| l.unsigned_abs()).max();
            let got = s.max_var().map(|v| v.idx32() + 1);
            ensure!(got == mx || got > mx && log.iter().any(|l| l == "reserve"), "stats", "highest variable {got:?} after adding {all:?}");
            ensure!(s.n_solves() <= n_calls, "stats", "{} solve calls of {n_calls} ({log:?})", s.n_solves());
        }
    }
    note_faults(sim);
    sim.ev(log.join("; "));
    Ok(())
}

// ------------------------------------------------------------------ P24

fn cost_of(obj: &[(i32, usize)], x: u64) -> usize {
    obj.iter().filter(|(l, _)| bit(x, *l)).map(|(_, w)| w).sum()
}

type Sis<S, E> = SolutionImprovingSearch<S, E>;

/// runs a search, and says if it was aborted
fn guarded<T>(sim: &mut Sim, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    sim.panic_ctx = what.to_string();
    let before = n_hit();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(t) => Some(t),
        Err(e) => {
            if n_hit() == before {
                std::panic::resume_unwind(e);
            }
            None
        }
    }
}

fn p24(sim: &mut Sim) -> Outcome {
    let nf = if sim.chance(2, 3) { 0 } else { sim.range(1, 2) };
    let partial = sim.chance(1, 4);
    let horizon = sim.range(4, 80) as u64;
    let wrapped = sim.chance(1, 3);
    let one_shot = wrapped && sim.chance(2, 3);
    enter(sim, nf, horizon, one_shot, partial);
    let nv = sim.range(1, 6);
    let ncl = sim.range(0, 8);
    let cls: Vec<Vec<i32>> = (0..ncl).map(|_| gen_clause(sim, nv, 3)).collect();
    let nov = if sim.chance(1, 3) { nv + 2 } else { nv };
    let no = sim.range(0, 6);
    let maxw = *sim.pick(&[1usize, 3, 10]);
    let mut obj: Vec<(i32, usize)> = vec![];
    for _ in 0..no {
        let v = sim.range(1, nov) as i32;
        let l = if sim.chance(1, 3) { -v } else { v };
        let w = if sim.chance(1, 20) { 0 } else { sim.range(1, maxw) };
        obj.push((l, w));
    }
    let total: usize = obj.iter().map(|o| o.1).sum();
    ctx(|c| c.max_solves = total as u64 + 3);
    let ol: Vec<(Lit, usize)> = obj.iter().map(|(l, w)| (lit(*l), *w)).collect();
    let which = sim.idx(2);
    let enc = ["GTE", "adder"][which];
    let what = format!("{enc}{}", if wrapped { " (incremental simulator)" } else { "" });
    sim.op(&what);
    // the clauses may have been solved before
    let warm = sim.chance(1, 6);
    let reserve = sim.chance(1, 6).then(|| sim.range(nov, nov + 3) as u32);
    macro_rules! go {
        ($S:ty) => {{
            guarded(sim, &what, || {
                let mut s = <$S>::default();
                if let Some(v) = reserve {
                    s.reserve(Var::new(v)).unwrap();
                }
                for c in &cls {
                    s.add_clause(clause(c)).unwrap();
                }
                if warm {
                    ctx(|c| c.max_solves += 1);
                    let _ = s.solve().unwrap();
                }
                let r = if which == 0 {
                    <Sis<$S, GeneralizedTotalizer> as maxsat::Solve>::solve(&mut s, &ol)
                } else {
                    <Sis<$S, BinaryAdder> as maxsat::Solve>::solve(&mut s, &ol)
                };
                r
            })
        }};
    }
    let r = if wrapped { go!(Inc) } else { go!(Slv) };
    let hit = n_hit();
    note_faults(sim);
    sim.ev(format!("{cls:?} {obj:?} {what} {r:?}"));
    let best = (0..1u64 << nov).filter(|x| cls.iter().all(|c| c.iter().any(|l| bit(*x, *l)))).map(|x| cost_of(&obj, x)).min();
    let Some(r) = r else {
        sim.probe("aborted after a failure");
        return Ok(());
    };
    sim.nontrivial = true;
    judge(&cls, &obj, r.as_ref().map(|(a, c)| (a, *c as i64)), best.map(|b| b as i64), &format!("{what}, {hit} failures"))
}

fn judge(cls: &[Vec<i32>], obj: &[(i32, usize)], r: Option<(&Assignment, i64)>, best: Option<i64>, what: &str) -> Outcome {
    match (r, best) {
        (None, None) => Ok(()),
        (None, Some(b)) => bail!("none", "no solution for {cls:?} with objective {obj:?}, but there is one of cost {b} ({what})"),
        (Some((a, c)), None) => bail!("unsat", "solution {a} of cost {c} for the unsatisfiable {cls:?} ({what})"),
        (Some((a, c)), Some(b)) => {
            let t = |l: i32| a.lit_value(lit(l)) == TernaryVal::True;
            if let Some(x) = cls.iter().find(|x| !x.iter().any(|l| t(*l))) {
                bail!("model", "the solution {a} violates {x:?} of {cls:?} with objective {obj:?} ({what})");
            }
            ensure!(c == b, "cost", "cost {c} for {cls:?} with objective {obj:?}, the optimum is {b} ({what})");
            let val: usize = obj.iter().filter(|(l, _)| t(*l)).map(|o| o.1).sum();
            ensure!(val as i64 == c, "value", "cost {c}, but the solution {a} costs {val} for {cls:?} with objective {obj:?} ({what})");
            Ok(())
        }
    }
}

/// a whole optimisation instance
fn p24_inst(sim: &mut Sim) -> Outcome {
    let nf = if sim.chance(3, 4) { 0 } else { 1 };
    let horizon = sim.range(4, 80) as u64;
    enter(sim, nf, horizon, false, false);
    let nv = sim.range(1, 5);
    let mut inst: SatInstance = SatInstance::new();
    let mut hard = vec![];
    for _ in 0..sim.range(0, 5) {
        let c = crate::model::gen_con(sim, nv);
        if sim.coin() {
            let k = gen_clause(sim, nv, 3);
            inst.add_clause(clause(&k));
            hard.push(crate::model::Con::clause(&k));
        } else {
            let k = crate::constr::build_pb(sim, &c);
            inst.add_pb_constr(k);
            hard.push(c);
        }
    }
    let mut obj = Objective::new();
    let mut soft: Vec<(Vec<i32>, usize)> = vec![];
    let mut offset = 0isize;
    for _ in 0..sim.range(0, 5) {
        let c = gen_clause(sim, nv, 3);
        if c.is_empty() {
            continue;
        }
        let w = sim.range(1, 5);
        match sim.idx(3) {
            0 => {
                obj.increase_soft_clause(w, clause(&c));
                soft.push((c, w));
            }
            1 => {
                // paid if the literal is true
                obj.increase_soft_lit(w, lit(c[0]));
                soft.push((vec![-c[0]], w));
            }
            _ => {
                let w = w as isize - 3;
                obj.increase_soft_lit_int(w, lit(c[0]));
                if w < 0 {
                    // pays 0 if the literal holds: offset + weight otherwise
                    offset += w;
                    soft.push((vec![c[0]], (-w) as usize));
                } else {
                    soft.push((vec![-c[0]], w as usize));
                }
            }
        }
    }
    if sim.chance(1, 3) {
        let o = sim.irange(-5, 5) as isize;
        obj.increase_offset(o);
        offset += o;
    }
    let cost = |x: u64| offset as i64 + soft.iter().filter(|(c, _)| !c.iter().any(|l| bit(x, *l))).map(|(_, w)| *w as i64).sum::<i64>();
    let best = (0..1u64 << nv).filter(|x| hard.iter().all(|h| h.holds(*x))).map(cost).min();
    let opt: OptInstance = OptInstance::compose(inst, obj);
    let which = sim.idx(2);
    let what = ["GTE over an instance", "adder over an instance"][which];
    sim.op(what);
    let r = guarded(sim, what, || {
        if which == 0 {
            opt.solve_maxsat::<Sis<Slv, GeneralizedTotalizer>>()
        } else {
            opt.solve_maxsat::<Sis<Slv, BinaryAdder>>()
        }
    });
    note_faults(sim);
    sim.ev(format!("{hard:?} {soft:?} {offset} {what} {r:?}"));
    let Some(r) = r else {
        sim.probe("aborted after a failure");
        return Ok(());
    };
    sim.nontrivial = true;
    match (r, best) {
        (None, None) => Ok(()),
        (None, Some(b)) => bail!("none", "no solution for {hard:?} {soft:?}, but there is one of cost {b} ({what})"),
        (Some((a, c)), None) => bail!("unsat", "solution {a} of cost {c} for the unsatisfiable {hard:?} ({what})"),
        (Some((a, c)), Some(b)) => {
            ensure!(c as i64 == b, "cost", "cost {c} for {hard:?} {soft:?} offset {offset}, the optimum is {b} ({what})");
            // every completion of the assignment is an optimal solution
            for x in 0..1u64 << nv {
                if (1..=nv as i32).any(|v| a.lit_value(lit(v)) == TernaryVal::from(!bit(x, v))) {
                    continue;
                }
                ensure!(hard.iter().all(|h| h.holds(x)), "model", "the solution {a} violates {hard:?} ({what})");
                let full = (1..=nv as i32).all(|v| a.lit_value(lit(v)) != TernaryVal::DontCare);
                ensure!(!full || cost(x) == b, "value", "cost {c}, but the solution {a} costs {} for {soft:?} offset {offset} ({what})", cost(x));
            }
            Ok(())
        }
    }
}

pub fn register(s: &mut Vec<Scenario>, p: &mut Vec<Prop>) {
    s.push(Scenario { prop: "P08", name: "call histories of the incremental simulator", weight: 1, f: p08 });
    s.push(Scenario { prop: "P24", name: "solution-improving search over a simulated solver", weight: 3, f: p24 });
    s.push(Scenario { prop: "P24", name: "optimisation instances solved to optimality", weight: 2, f: p24_inst });
    p.push(Prop {
        id: "P08",
        quick_runs: 1_500_000,
        thorough_runs: 6_000_000,
        rule: "runs in which a verdict of the simulator was compared with the clauses added, distinct by the hash of the full event trace",
        shape_measure: "distinct sequences of calls",
        real: &["rustsat::solvers::simulators::Incremental"],
        stub: &["inner solver (simulated, with failures, interrupts and running out of memory)"],
        assumptions: &["a clause whose addition failed may or may not be part of the formula afterwards", "at most 6 variables"],
    });
    p.push(Prop {
        id: "P24",
        quick_runs: 1_200_000,
        thorough_runs: 4_000_000,
        rule: "runs in which the search returned and its result was compared with all assignments, distinct by the hash of the full event trace",
        shape_measure: "distinct sequences of encodings and solvers",
        real: &["rustsat::algs::maxsat", "rustsat::encodings::pb (GeneralizedTotalizer, BinaryAdder)", "rustsat::instances::OptInstance", "rustsat::solvers::simulators::Incremental"],
        stub: &["SAT solver (simulated: arbitrary models, failures, interrupts)"],
        assumptions: &["panicking is the documented reaction to a failing solver", "at most 8 variables"],
    });
}
