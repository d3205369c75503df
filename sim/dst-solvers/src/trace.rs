//! P18: proof tracers. A recording tracer is connected to real solvers that go through a generated
//! history; a reference model of the proof judges every event.
use crate::hist::{check_state, heap_ok, ok, verdict, Res, St, M};
use crate::slv::{Cad, K, S};
use crate::tab::Tab;
use rustsat::solvers::{ControlSignal, FreezeVar, PhaseLit, Propagate, Solve, SolveIncremental, SolverResult, Terminate};
use rustsat::types::{Lit, TernaryVal, Var};
use rustsat_cadical::{CaDiCaLAssignment, CaDiCaLClause, ClauseId, Conclusion, ProofTracerHandle, TraceProof};
use simcore::runner::{set_ctx, Prop, Scenario};
use simcore::{bail, ensure, Outcome, Sim};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Original(i64, bool, Vec<Lit>, bool),
    Derived(i64, bool, Vec<Lit>, Vec<i64>),
    Delete(i64, Vec<Lit>),
    Weaken(i64, Vec<Lit>),
    Strengthen(i64),
    Status(SolverResult, i64),
    Finalize(i64, Vec<Lit>),
    Begin(i64),
    Query,
    Assumption(Lit),
    Constraint(Vec<Lit>),
    Reset,
    AssumptionClause(i64, Vec<Lit>, Vec<i64>),
    Unsat(Conclusion, Vec<i64>),
    Sat(Vec<Lit>),
    Unknown(Vec<Lit>),
    Equivalence(Lit, Lit),
}

type Log = Rc<RefCell<Vec<Ev>>>;

/// Records every event in a log that outlives it, and in itself
struct Rec {
    log: Log,
    own: Vec<Ev>,
    name: u64,
    dropped: Rc<RefCell<u32>>,
}

impl Drop for Rec {
    fn drop(&mut self) {
        *self.dropped.borrow_mut() += 1;
    }
}

impl Rec {
    fn e(&mut self, e: Ev) {
        self.log.borrow_mut().push(e.clone());
        self.own.push(e);
    }
}

fn ids(a: &[ClauseId]) -> Vec<i64> {
    a.iter().map(|i| i.0).collect()
}

fn lits(c: &CaDiCaLClause) -> Vec<Lit> {
    c.iter().collect()
}

impl TraceProof for Rec {
    fn add_original_clause(&mut self, id: ClauseId, redundant: bool, clause: &CaDiCaLClause, restored: bool) {
        self.e(Ev::Original(id.0, redundant, lits(clause), restored));
    }
    fn add_derived_clause(&mut self, id: ClauseId, redundant: bool, clause: &CaDiCaLClause, a: &[ClauseId]) {
        self.e(Ev::Derived(id.0, redundant, clause.to_owned().into_iter().collect(), ids(a)));
    }
    fn delete_clause(&mut self, id: ClauseId, _redundant: bool, clause: &CaDiCaLClause) {
        self.e(Ev::Delete(id.0, lits(clause)));
    }
    fn weaken_minus(&mut self, id: ClauseId, clause: &CaDiCaLClause) {
        self.e(Ev::Weaken(id.0, lits(clause)));
    }
    fn strengthen(&mut self, id: ClauseId) {
        self.e(Ev::Strengthen(id.0));
    }
    fn report_status(&mut self, status: SolverResult, id: ClauseId) {
        self.e(Ev::Status(status, id.0));
    }
    fn finalize_clause(&mut self, id: ClauseId, clause: &CaDiCaLClause) {
        self.e(Ev::Finalize(id.0, lits(clause)));
    }
    fn begin_proof(&mut self, id: ClauseId) {
        self.e(Ev::Begin(id.0));
    }
    fn solve_query(&mut self) {
        self.e(Ev::Query);
    }
    fn add_assumption(&mut self, a: Lit) {
        self.e(Ev::Assumption(a));
    }
    fn add_constraint(&mut self, c: &CaDiCaLClause) {
        self.e(Ev::Constraint(lits(c)));
    }
    fn reset_assumptions(&mut self) {
        self.e(Ev::Reset);
    }
    fn add_assumption_clause(&mut self, id: ClauseId, clause: &CaDiCaLClause, a: &[ClauseId]) {
        self.e(Ev::AssumptionClause(id.0, lits(clause), ids(a)));
    }
    fn conclude_unsat(&mut self, c: Conclusion, failing: &[ClauseId]) {
        self.e(Ev::Unsat(c, ids(failing)));
    }
    fn conclude_sat(&mut self, s: &CaDiCaLAssignment) {
        self.e(Ev::Sat(s.iter().collect()));
    }
    fn conclude_unknown(&mut self, s: &CaDiCaLAssignment) {
        self.e(Ev::Unknown(s.iter().collect()));
    }
    fn notify_equivalence(&mut self, a: Lit, b: Lit) {
        self.e(Ev::Equivalence(a, b));
    }
}

/// What the proof looked like so far
struct Proof {
    /// clauses by identifier; `false` once deleted
    cls: BTreeMap<i64, (Vec<i32>, bool)>,
    weakened: BTreeSet<i64>,
    /// assumption clauses of the current query
    concl: BTreeSet<i64>,
    tab: Tab,
    antecedents: bool,
    /// clauses handed to the solver and not yet seen in the proof
    expect: Vec<Vec<Lit>>,
    last: i64,
    assumed: Vec<Lit>,
    constraint: Option<Vec<Lit>>,
    queries: usize,
    status: Vec<SolverResult>,
    conclusions: usize,
}

fn key(c: &[i32]) -> Vec<i32> {
    let mut c = c.to_vec();
    c.sort_unstable();
    c.dedup();
    c
}

impl Proof {
    fn new(n: usize, antecedents: bool) -> Proof {
        Proof {
            cls: BTreeMap::new(),
            weakened: BTreeSet::new(),
            concl: BTreeSet::new(),
            tab: Tab::all(n),
            antecedents,
            expect: vec![],
            last: 0,
            assumed: vec![],
            constraint: None,
            queries: 0,
            status: vec![],
            conclusions: 0,
        }
    }

    fn back(&self, m: &M, c: &[Lit], what: &str) -> Res<Vec<i32>> {
        match c.iter().map(|l| m.back(*l)).collect::<Option<Vec<_>>>() {
            Some(c) => Ok(c),
            None => bail!("trace:unknown", "{what}: literals {c:?} over unknown variables"),
        }
    }

    fn fresh(&mut self, id: i64, what: &str) -> Outcome {
        ensure!(!self.cls.contains_key(&id), "trace:identifier", "{what}: identifier {id} was used before");
        ensure!(id > 0, "trace:identifier", "{what}: identifier {id}");
        Ok(())
    }

    fn implied_by(&self, m: &M, c: &[i32], a: &[i64], what: &str) -> Outcome {
        ensure!(self.tab.implies(c), "trace:implied", "{what}: clause {c:?} does not follow from the clauses of the proof");
        if !self.antecedents || a.is_empty() {
            // (other listeners may make the solver produce some of them)
            return Ok(());
        }
        let mut t = Tab::all(m.n());
        for i in a {
            match self.cls.get(i) {
                Some((c, _)) => t.add(c),
                None => bail!("trace:antecedents", "{what}: antecedent {i} of {c:?} does not exist"),
            }
        }
        ensure!(t.implies(c), "trace:antecedents", "{what}: clause {c:?} does not follow from its antecedents {a:?}");
        Ok(())
    }

    fn event(&mut self, sim: &mut Sim, m: &M, e: &Ev) -> Outcome {
        match e {
            Ev::Original(id, redundant, c, restored) => {
                let b = self.back(m, c, "original clause")?;
                if *restored {
                    let Some((old, live)) = self.cls.get_mut(id) else { bail!("trace:restore", "clause {id} was restored but never existed") };
                    ensure!(key(old) == key(&b), "trace:restore", "clause {id} was restored as {b:?}, it was {old:?}");
                    ensure!(self.weakened.contains(id), "trace:restore", "clause {id} was restored but not weakened");
                    *live = true;
                    sim.probe("clause_restored");
                    return Ok(());
                }
                ensure!(!redundant, "trace:original", "original clause {b:?} is called redundant");
                ensure!(!self.expect.is_empty(), "trace:original", "original clause {b:?} was never added to the solver");
                let want = self.expect.remove(0);
                ensure!(want == *c, "trace:original", "original clause {c:?}, but {want:?} was added");
                self.fresh(*id, "original clause")?;
                self.tab.add(&b);
                self.cls.insert(*id, (b, true));
            }
            Ev::Derived(id, _, c, a) => {
                let b = self.back(m, c, "derived clause")?;
                self.fresh(*id, "derived clause")?;
                self.implied_by(m, &b, a, "derived clause")?;
                self.cls.insert(*id, (b, true));
                sim.probe("derived_clause");
            }
            Ev::Delete(id, c) => {
                let b = self.back(m, c, "deleted clause")?;
                let Some((old, live)) = self.cls.get_mut(id) else { bail!("trace:delete", "clause {id} was deleted but never existed") };
                ensure!(key(old) == key(&b), "trace:delete", "clause {id} was deleted as {b:?}, it was {old:?}");
                ensure!(*live, "trace:delete", "clause {id} was deleted twice");
                *live = false;
                sim.probe("deleted_clause");
            }
            Ev::Weaken(id, c) => {
                let b = self.back(m, c, "weakened clause")?;
                let Some((old, live)) = self.cls.get(id) else { bail!("trace:weaken", "clause {id} was weakened but never existed") };
                ensure!(key(old) == key(&b), "trace:weaken", "clause {id} was weakened as {b:?}, it was {old:?}");
                ensure!(*live, "trace:weaken", "clause {id} was weakened after it was deleted");
                self.weakened.insert(*id);
                sim.probe("weakened_clause");
            }
            Ev::Strengthen(id) => ensure!(self.cls.contains_key(id), "trace:strengthen", "clause {id} was strengthened but never existed"),
            Ev::Status(r, id) => {
                self.status.push(*r);
                if *r == SolverResult::Unsat && *id != 0 {
                    match self.cls.get(id) {
                        Some((c, _)) => ensure!(c.is_empty(), "trace:status", "UNSAT with clause {id}, which is {c:?}"),
                        None => bail!("trace:status", "UNSAT with clause {id}, which does not exist"),
                    }
                } else {
                    ensure!(*id == 0 || self.cls.contains_key(id), "trace:status", "status {r} with clause {id}");
                }
            }
            Ev::Finalize(id, c) => {
                let b = self.back(m, c, "finalized clause")?;
                match self.cls.get(id) {
                    Some((old, live)) => ensure!(*live && key(old) == key(&b), "trace:finalize", "clause {id} finalized as {b:?}, it was {old:?}"),
                    None => bail!("trace:finalize", "clause {id} was finalized but never existed"),
                }
            }
            Ev::Begin(_) => ensure!(self.cls.is_empty(), "trace:begin", "the proof begins after clauses"),
            Ev::Query => self.queries += 1,
            Ev::Assumption(l) => self.assumed.push(*l),
            Ev::Constraint(c) => self.constraint = Some(c.clone()),
            Ev::Reset => {
                self.assumed.clear();
                self.constraint = None;
                self.concl.clear();
            }
            Ev::AssumptionClause(id, c, a) => {
                let b = self.back(m, c, "assumption clause")?;
                self.fresh(*id, "assumption clause")?;
                self.implied_by(m, &b, a, "assumption clause")?;
                self.cls.insert(*id, (b, false));
                self.concl.insert(*id);
                sim.probe("assumption_clause");
            }
            Ev::Unsat(con, ids) => {
                self.conclusions += 1;
                sim.probe(&format!("conclude_unsat:{con:?}"));
                let mut cs = vec![];
                for i in ids {
                    match self.cls.get(i) {
                        Some((c, _)) => cs.push(c.clone()),
                        None => bail!("trace:conclusion", "conclusion {con:?} from clause {i}, which does not exist"),
                    }
                }
                match con {
                    Conclusion::Conflict => ensure!(cs.len() == 1 && cs[0].is_empty(), "trace:conclusion", "conclusion {con:?} from {cs:?}"),
                    Conclusion::Assumptions | Conclusion::Constraint => {
                        let mut t = Tab::all(m.n());
                        for c in &cs {
                            t.add(c);
                            for l in c {
                                let neg = m.lit(-*l);
                                let of_con = *con == Conclusion::Constraint && self.constraint.as_ref().is_some_and(|x| x.contains(&neg));
                                ensure!(
                                    of_con || self.assumed.contains(&neg),
                                    "trace:conclusion", "conclusion {con:?} from {cs:?} although the assumptions are {:?}, the constraint {:?}", self.assumed, self.constraint
                                );
                            }
                        }
                        let a = self.back(m, &self.assumed.clone(), "assumption")?;
                        if let (Conclusion::Constraint, Some(k)) = (con, &self.constraint) {
                            t.add(&self.back(m, k, "constraint")?);
                        }
                        ensure!(!t.sat_with(&a), "trace:conclusion", "conclusion {con:?} from {cs:?} does not exclude the assumptions {a:?}");
                    }
                }
            }
            Ev::Sat(model) => {
                self.conclusions += 1;
                sim.probe("conclude_sat");
                let b: Vec<i32> = model.iter().filter_map(|l| m.back(*l)).collect();
                ensure!(b.iter().all(|l| !b.contains(&-l)), "trace:model", "model {b:?} is contradictory");
                let a = self.back(m, &self.assumed.clone(), "assumption")?;
                for l in &a {
                    ensure!(b.contains(l), "trace:model", "model {b:?} violates assumption {l}");
                }
                for c in m.cls.iter().filter(|c| !crate::hist::taut(c)) {
                    ensure!(c.iter().any(|l| b.contains(l)), "trace:model", "model {b:?} violates {c:?}");
                }
                if let Some(c) = self.constraint.clone() {
                    let c = self.back(m, &c, "constraint")?;
                    ensure!(crate::hist::taut(&c) || c.iter().any(|l| b.contains(l)), "trace:model", "model {b:?} violates the constraint {c:?}");
                }
            }
            Ev::Unknown(_) => {
                self.conclusions += 1;
                sim.probe("conclude_unknown");
            }
            Ev::Equivalence(x, y) => {
                let (x, y) = (self.back(m, &[*x], "equivalence")?[0], self.back(m, &[*y], "equivalence")?[0]);
                sim.probe("equivalence");
                ensure!(
                    self.tab.implies(&[x, -y]) && self.tab.implies(&[-x, y]),
                    "trace:equivalence", "{x} and {y} are called equivalent but are not"
                );
            }
        }
        Ok(())
    }
}

struct Watch {
    handle: Option<ProofTracerHandle<Rec>>,
    log: Log,
    seen: usize,
    dropped: Rc<RefCell<u32>>,
    name: u64,
    proof: Proof,
    /// the handle is gone, but the tracer is still connected
    lost: bool,
}

impl Watch {
    fn connect(sim: &mut Sim, m: &M, x: &mut Cad, name: u64) -> Watch {
        let antecedents = sim.coin();
        let log = Log::default();
        let dropped = Rc::new(RefCell::new(0));
        let h = x.connect_proof_tracer(Rec { log: log.clone(), own: vec![], name, dropped: dropped.clone() }, antecedents);
        Watch { handle: Some(h), log, seen: 0, dropped, name, proof: Proof::new(m.n(), antecedents), lost: false }
    }

    /// Judges the events since the last look. A disconnected tracer must not see any
    fn look(&mut self, sim: &mut Sim, m: &M) -> Outcome {
        let new: Vec<Ev> = self.log.borrow()[self.seen..].to_vec();
        if self.handle.is_none() && !self.lost {
            ensure!(new.is_empty(), "trace:disconnected", "a tracer that was disconnected saw {:?}", new[0]);
            return Ok(());
        }
        self.seen += new.len();
        for e in &new {
            sim.ev(format!("  tracer {}: {e:?}", self.name));
            self.proof.event(sim, m, e)?;
        }
        Ok(())
    }

    fn own(&mut self, sim: &mut Sim, x: &mut Cad) -> Outcome {
        if let Some(h) = &self.handle {
            let r = x.proof_tracer_mut(h);
            ensure!(r.name == self.name, "trace:access", "the wrong tracer was handed out");
            ensure!(r.own == *self.log.borrow(), "trace:access", "the tracer handed out has other events than the connected one saw");
        }
        Ok(())
    }

    fn back(&mut self, m: &M, t: Rec) -> Outcome {
        ensure!(t.name == self.name, "trace:disconnect", "disconnecting returned another tracer");
        ensure!(t.own == *self.log.borrow(), "trace:disconnect", "the disconnected tracer has other events than were seen");
        ensure!(*self.dropped.borrow() == 0, "trace:disconnect", "the tracer was dropped while in use");
        drop(t);
        ensure!(*self.dropped.borrow() == 1, "trace:disconnect", "the tracer was dropped {} times", self.dropped.borrow());
        Ok(())
    }
}

fn trace(sim: &mut Sim) -> Outcome {
    let n = sim.range(2, 10);
    let mut m = M::new(sim, K::Cad, n);
    set_ctx(sim, "init");
    let mut x = Cad::default();
    sim.ev(format!("{n} variables"));
    // options that make small formulas go through inprocessing
    if sim.coin() {
        for (o, v) in [("restartint", 1), ("reduceint", 10), ("probeint", 1), ("elimint", 1), ("decompose", 1), ("inprobeint", 1)] {
            if sim.coin() {
                use rustsat::solvers::Solve;
                if x.set_option(o, v).is_ok() {
                    sim.ev(format!("option {o} {v}"));
                }
            }
        }
    }
    let mut ws = vec![];
    for i in 0..sim.range(1, 3) as u64 {
        ws.push(Watch::connect(sim, &m, &mut x, i));
    }
    // a second solver, to which some of the handles do not belong
    let mut other = Cad::default();
    let mut far = if sim.coin() { Some(Watch::connect(sim, &m, &mut other, 77)) } else { None };
    let far_m = M::new(sim, K::Cad, n);
    let mut s = S::Cad(x);
    let steps = sim.range(3, 30);
    for _ in 0..steps {
        let S::Cad(x) = &mut s else { unreachable!() };
        match sim.weighted(&[12, 4, 4, 2, 2, 2, 1, 1, 1, 1]) {
            0 => {
                let k = if sim.chance(1, 3) { sim.range(2, 8) } else { 1 };
                for _ in 0..k {
                    let c = m.gen_soft_clause(sim);
                    set_ctx(sim, "add");
                    sim.op("add");
                    sim.ev(format!("add {c:?}"));
                    for w in &mut ws {
                        if w.handle.is_some() {
                            w.proof.expect.push(m.lits(&c));
                        }
                    }
                    ok("add", x.add_clause(m.clause(&c)))?;
                    m.added(&c);
                    for w in &mut ws {
                        w.look(sim, &m)?;
                        ensure!(w.handle.is_none() || w.proof.expect.is_empty(), "trace:original", "adding {c:?} left no trace in the proof");
                    }
                }
            }
            1 | 2 => {
                let a = if sim.coin() { m.gen_assumps(sim) } else { vec![] };
                let l = m.lits(&a);
                set_ctx(sim, "solve");
                sim.op("solve");
                let stop = sim.chance(1, 8);
                if stop {
                    let mut left = sim.range(0, 3);
                    x.attach_terminator(move || {
                        if left == 0 {
                            return ControlSignal::Terminate;
                        }
                        left -= 1;
                        ControlSignal::Continue
                    });
                }
                let before: Vec<_> = ws.iter().map(|w| w.proof.status.len()).collect();
                let st0 = s.stats();
                let S::Cad(x) = &mut s else { unreachable!() };
                m.spend();
                let r = ok("solve", if a.is_empty() { x.solve() } else { x.solve_assumps(&l) })?;
                if stop {
                    x.detach_terminator();
                    if r == SolverResult::Interrupted {
                        sim.fault("terminated_search");
                    }
                }
                sim.ev(format!("solve under {a:?} -> {r}"));
                m.mention(&a);
                let st1 = s.stats();
                let called = (st0.n_sat, st0.n_unsat, st0.n_terminated) != (st1.n_sat, st1.n_unsat, st1.n_terminated);
                for (w, b) in ws.iter_mut().zip(before) {
                    w.look(sim, &m)?;
                    if w.handle.is_none() {
                        continue;
                    }
                    let st = &w.proof.status[b..];
                    if called {
                        ensure!(st == [r], "trace:status", "the solver returned {r}, the tracer saw {st:?}");
                        ensure!(w.proof.assumed == l, "trace:assumptions", "solved under {l:?}, the tracer saw {:?}", w.proof.assumed);
                        let c = m.tmp.as_ref().map(|c| m.lits(c));
                        let key = |c: &Option<Vec<Lit>>| c.as_ref().map(|c| c.iter().copied().collect::<BTreeSet<_>>());
                        ensure!(key(&w.proof.constraint) == key(&c), "trace:constraint", "the temporary clause is {c:?}, the tracer saw {:?}", w.proof.constraint);
                        ensure!(w.proof.conclusions >= 1, "trace:conclusion", "no conclusion was reported for {r}");
                        w.proof.conclusions = 0;
                        ensure!(w.proof.queries >= 1, "trace:query", "no query was reported");
                        w.proof.queries = 0;
                    } else {
                        ensure!(st.is_empty(), "trace:status", "no search was run, the tracer saw {st:?}");
                    }
                    sim.nontrivial = true;
                }
                if r == SolverResult::Interrupted {
                    ensure!(stop, "verdict:interrupted", "nobody interrupted");
                    m.tmp_spent = true;
                    m.ran = true;
                    m.st = St::Input;
                    m.loose = true;
                } else if called || !matches!(m.st, St::Sat(_)) {
                    verdict(&mut m, r, &a, called)?;
                }
            }
            3 => {
                let c = m.gen_clause(sim);
                set_ctx(sim, "add_tmp_clause");
                sim.op("add_tmp_clause");
                sim.ev(format!("tmp {c:?}"));
                if x.add_tmp_clause(&m.clause(&c)).is_err() {
                    bail!("error:add_tmp_clause", "unexpected error");
                }
                m.mention(&c);
                m.tmp = Some(c);
                m.tmp_spent = false;
                m.had_tmp += 1;
                m.st = St::Input;
                m.loose = false;
            }
            4 => {
                let r = sim.range(0, 3) as u32;
                set_ctx(sim, "simplify");
                sim.op("simplify");
                m.spend();
                let res = ok("simplify", x.simplify(r))?;
                sim.ev(format!("simplify {r} -> {res}"));
                m.ran = true;
                if res == SolverResult::Interrupted {
                    m.st = St::Input;
                    m.loose = true;
                    m.tmp = None;
                } else {
                    verdict(&mut m, res, &[], false)?;
                }
                for w in &mut ws {
                    w.look(sim, &m)?;
                    w.proof.conclusions = 0;
                    w.proof.queries = 0;
                }
            }
            5 => {
                let a = m.gen_assumps(sim);
                set_ctx(sim, "propagate");
                sim.op("propagate");
                sim.ev(format!("propagate {a:?}"));
                m.spend();
                let r = ok("propagate", x.propagate(&m.lits(&a), false))?;
                m.mention(&a);
                let mut t = m.tab.clone();
                if let Some(c) = &m.tmp {
                    t.add(c);
                }
                ensure!(!r.conflict || !t.sat_with(&a), "propagate:conflict", "conflict under {a:?}, but there are models");
                m.tmp = None;
                m.ran = true;
                m.st = St::Input;
                m.loose = false;
                if x.lit_val(m.v[0].pos_lit()).is_ok() {
                    m.st = St::Sat(a);
                }
                for w in &mut ws {
                    w.look(sim, &m)?;
                    w.proof.conclusions = 0;
                    w.proof.queries = 0;
                }
            }
            6 => {
                let l = m.lit(m.gen_lit(sim));
                set_ctx(sim, "phase");
                let v = l.var();
                m.mention_var(v.idx32());
                if sim.coin() {
                    ok("phase", x.phase_lit(l))?;
                } else {
                    ok("freeze", x.freeze_var(v))?;
                }
                m.loose = true;
            }
            7 => {
                // disconnect
                let i = sim.idx(ws.len());
                set_ctx(sim, "disconnect");
                if let Some(h) = ws[i].handle.take() {
                    sim.op("disconnect");
                    sim.ev(format!("disconnect {i}"));
                    ws[i].handle = Some(h);
                    ws[i].look(sim, &m)?;
                    let h = ws[i].handle.take().unwrap();
                    match x.disconnect_proof_tracer(h) {
                        Ok(t) => ws[i].back(&m, t)?,
                        Err(e) => bail!("trace:disconnect", "a connected tracer could not be disconnected: {e}"),
                    }
                }
            }
            8 => {
                // disconnect from a solver it is not connected to: refused, and harmless
                set_ctx(sim, "disconnect elsewhere");
                let Some(w) = &mut far else { continue };
                let Some(h) = w.handle.take() else { continue };
                sim.op("disconnect_elsewhere");
                sim.ev("disconnect elsewhere");
                match x.disconnect_proof_tracer(h) {
                    Ok(_) => bail!("trace:disconnect", "a tracer was disconnected from a solver it was not connected to"),
                    Err(_) => {
                        w.lost = true;
                        sim.probe("refused_disconnect");
                    }
                }
            }
            _ => {
                // work on the other solver
                set_ctx(sim, "other");
                sim.op("other");
                for _ in 0..sim.range(1, 6) {
                    let c = far_m.gen_clause(sim);
                    if let Some(w) = &mut far {
                        w.proof.expect.push(far_m.lits(&c));
                    }
                    ok("add", other.add_clause(far_m.clause(&c)))?;
                    if let Some(w) = &mut far {
                        w.look(sim, &far_m)?;
                        ensure!(w.proof.expect.is_empty(), "trace:original", "adding {c:?} left no trace in the proof");
                    }
                }
            }
        }
        heap_ok(&m)?;
        check_state(sim, &m, &mut s)?;
        let S::Cad(x) = &mut s else { unreachable!() };
        for w in &mut ws {
            w.look(sim, &m)?;
            w.proof.conclusions = 0;
        }
        if sim.chance(1, 5) {
            for w in &mut ws {
                w.own(sim, x)?;
            }
        }
    }
    sim.state(simcore::sim::hash_bytes(5, format!("{:?}", m.cls).as_bytes()));
    // the end: solver first, or handles first (the solver is not used any more)
    set_ctx(sim, "end");
    if sim.coin() {
        drop(s);
        for w in &mut ws {
            if w.handle.take().is_some() {
                ensure!(*w.dropped.borrow() == 1, "trace:drop", "dropping the handle dropped the tracer {} times", w.dropped.borrow());
            }
        }
    } else {
        let S::Cad(mut x) = s else { unreachable!() };
        for w in &mut ws {
            if let Some(h) = w.handle.take() {
                match x.disconnect_proof_tracer(h) {
                    Ok(t) => w.back(&m, t)?,
                    Err(e) => bail!("trace:disconnect", "a connected tracer could not be disconnected: {e}"),
                }
            }
        }
        // without a tracer it works all the same
        let r = ok("solve", x.solve())?;
        ensure!((r == SolverResult::Sat) == m.tab.sat() || m.tmp.is_some(), "verdict", "{r} after the tracers were disconnected");
        for w in &mut ws {
            w.look(sim, &m)?;
        }
    }
    let r = ok("solve", other.solve())?;
    let _ = r;
    drop(other);
    drop(far);
    heap_ok(&m)
}

pub fn register(sc: &mut Vec<Scenario>, pr: &mut Vec<Prop>) {
    sc.push(Scenario { prop: "P18", name: "cadical_proof", weight: 1, f: trace });
    pr.push(Prop {
        id: "P18",
        quick_runs: 200_000,
        thorough_runs: 6_000_000,
        rule: "runs in which the events of a search were judged",
        shape_measure: "distinct formulas at the end of a history",
        real: &["rustsat-cadical (prooftracer, dispatch) with its native solver (optimised build)"],
        stub: &["heap of the native code (seeded contents, red zones, moving realloc)", "getrandom"],
        assumptions: &["tracers are connected before the first clause is added", "a handle is not dropped while its solver is in use (documented)"],
    });
}
