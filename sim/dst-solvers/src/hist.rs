//! P09 and P10: histories of calls to every bundled solver, with a truth table as the model of the
//! formula and a small state machine as the model of the wrapper.
use crate::heap;
use crate::slv::{K, S};
use crate::tab::{up, Tab};
use rustsat::solvers::{SolverResult, SolverState, StateError};
use rustsat::types::{Clause, Lit, TernaryVal, Var};
use simcore::runner::{set_ctx, Prop, Scenario};
use simcore::sim::{hash_bytes, violation, Outcome, Sim, Violation};
use simcore::{bail, ensure};

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Cfg,
    Input,
    /// satisfied, with a model of the formula and these literals
    Sat(Vec<i32>),
    Unsat(Vec<i32>),
}

pub struct M {
    pub k: K,
    pub v: Vec<Var>,
    pub cls: Vec<Vec<i32>>,
    pub tab: Tab,
    pub st: St,
    /// the wrapper may have left the state `st` since it was reached
    pub loose: bool,
    pub ns: usize,
    pub nu: usize,
    pub nt: usize,
    pub lens: usize,
    pub hi_cl: Option<u32>,
    pub hi_any: Option<u32>,
    /// the search has been run at least once
    pub ran: bool,
    pub tmp: Option<Vec<i32>>,
    /// The temporary clause was part of a call already
    pub tmp_spent: bool,
    /// variables with a forced phase
    pub phase: Vec<i32>,
    pub frozen: Vec<u32>,
    pub had_tmp: usize,
    pub declared: u32,
}

pub type Res<T> = Result<T, Violation>;

pub fn opposite(v: TernaryVal) -> TernaryVal {
    match v {
        TernaryVal::True => TernaryVal::False,
        TernaryVal::False => TernaryVal::True,
        TernaryVal::DontCare => TernaryVal::DontCare,
    }
}

pub fn taut(c: &[i32]) -> bool {
    c.iter().any(|l| c.contains(&-l))
}

impl M {
    pub fn new(sim: &mut Sim, k: K, n: usize) -> M {
        let mut v = vec![];
        let mut next = *sim.pick(&[0u32, 0, 0, 1, 3]);
        for _ in 0..n {
            v.push(Var::new(next));
            next += 1 + match sim.weighted(&[20, 3, 1]) {
                0 => 0,
                1 => sim.range(1, 3) as u32,
                _ => sim.range(5, 70) as u32,
            };
        }
        M {
            k,
            v,
            cls: vec![],
            tab: Tab::all(n),
            st: St::Cfg,
            loose: false,
            ns: 0,
            nu: 0,
            nt: 0,
            lens: 0,
            hi_cl: None,
            hi_any: None,
            ran: false,
            tmp: None,
            tmp_spent: false,
            phase: vec![],
            frozen: vec![0; n],
            had_tmp: 0,
            declared: 0,
        }
    }
    pub fn n(&self) -> usize {
        self.v.len()
    }
    pub fn lit(&self, l: i32) -> Lit {
        let v = self.v[l.unsigned_abs() as usize - 1];
        if l > 0 {
            v.pos_lit()
        } else {
            v.neg_lit()
        }
    }
    pub fn lits(&self, c: &[i32]) -> Vec<Lit> {
        c.iter().map(|l| self.lit(*l)).collect()
    }
    pub fn clause(&self, c: &[i32]) -> Clause {
        c.iter().map(|l| self.lit(*l)).collect()
    }
    /// The model's literal for a literal of the solver, if it has one
    pub fn back(&self, l: Lit) -> Option<i32> {
        let i = self.v.iter().position(|v| *v == l.var())? as i32 + 1;
        Some(if l.is_neg() { -i } else { i })
    }
    /// A temporary clause is for one call only
    pub fn spend(&mut self) {
        if self.tmp_spent {
            self.tmp = None;
        }
    }

    pub fn mention(&mut self, c: &[i32]) {
        for l in c {
            self.mention_var(self.v[l.unsigned_abs() as usize - 1].idx32());
        }
    }
    pub fn mention_var(&mut self, i: u32) {
        self.hi_any = self.hi_any.max(Some(i));
    }
    /// Records that a clause was added
    pub fn added(&mut self, c: &[i32]) {
        self.mention(c);
        for l in c {
            let i = self.v[l.unsigned_abs() as usize - 1].idx32();
            self.hi_cl = self.hi_cl.max(Some(i));
        }
        self.lens += c.len();
        self.tab.add(c);
        self.cls.push(c.to_vec());
        self.st = St::Input;
        self.loose = false;
    }
    pub fn gen_lit(&self, sim: &mut Sim) -> i32 {
        let v = sim.range(1, self.n()) as i32;
        if sim.coin() {
            -v
        } else {
            v
        }
    }
    pub fn gen_clause(&self, sim: &mut Sim) -> Vec<i32> {
        let len = match sim.weighted(&[30, 24, 8, 6, 3, 1]) {
            0 => 3,
            1 => 2,
            2 => 1,
            3 => 4,
            4 => sim.range(5, 9),
            _ => 0,
        };
        let mut c: Vec<i32> = vec![];
        for _ in 0..len {
            let l = self.gen_lit(sim);
            // mostly proper clauses, sometimes repeated or complementary literals
            if c.iter().any(|x| x.abs() == l.abs()) && !sim.chance(1, 6) {
                continue;
            }
            c.push(l);
        }
        if len > 0 && c.is_empty() {
            c.push(self.gen_lit(sim));
        }
        c
    }
    /// A clause that keeps the formula satisfiable if it is (so that histories do not end early)
    pub fn gen_soft_clause(&self, sim: &mut Sim) -> Vec<i32> {
        let mut c = self.gen_clause(sim);
        for _ in 0..3 {
            if self.tab.sat() && !sim.chance(1, 12) {
                let mut t = self.tab.clone();
                t.add(&c);
                if !t.sat() {
                    c = self.gen_clause(sim);
                    continue;
                }
            }
            break;
        }
        c
    }
    pub fn gen_assumps(&self, sim: &mut Sim) -> Vec<i32> {
        let len = match sim.weighted(&[3, 8, 8, 6, 3]) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 3,
            _ => sim.range(4, 2 + self.n().max(3)),
        };
        let mut a: Vec<i32> = vec![];
        for _ in 0..len {
            let l = self.gen_lit(sim);
            if a.iter().any(|x| x.abs() == l.abs()) && !sim.chance(1, 6) {
                continue;
            }
            a.push(l);
        }
        a
    }
}

pub fn state_err(e: &anyhow::Error, need: &[SolverState]) -> bool {
    e.downcast_ref::<StateError>().is_some_and(|s| need.contains(&s.required_state))
}

/// Turns an unexpected error into a violation
pub fn ok<T>(op: &str, r: anyhow::Result<T>) -> Res<T> {
    match r {
        Ok(t) => Ok(t),
        Err(e) => violation(format!("error:{op}"), format!("unexpected error: {e:#}")),
    }
}

/// Reads the model off the solver and checks everything about it
pub fn check_model(sim: &mut Sim, m: &M, s: &S, extra: &[i32]) -> Outcome {
    let mut val = vec![TernaryVal::DontCare; m.n()];
    for (i, v) in m.v.iter().enumerate() {
        let p = ok("lit_val", s.lit_val(v.pos_lit()))?;
        let n = ok("lit_val", s.lit_val(v.neg_lit()))?;
        ensure!(n == opposite(p), "model:negation", "{:?}: lit_val({}) = {p:?} but lit_val({}) = {n:?}", m.k, v.pos_lit(), v.neg_lit());
        if sim.chance(1, 8) {
            let vv = ok("var_val", s.var_val(*v))?;
            ensure!(vv == p, "model:var_val", "{:?}: var_val({v}) = {vv:?} but lit_val = {p:?}", m.k);
        }
        val[i] = p;
    }
    let is_true = |l: i32| {
        let x = val[l.unsigned_abs() as usize - 1];
        x == if l > 0 { TernaryVal::True } else { TernaryVal::False }
    };
    for c in m.cls.iter().filter(|c| !taut(c)) {
        ensure!(c.iter().any(|l| is_true(*l)), "model:clause", "{:?}: clause {c:?} is not satisfied by the reported model {val:?}", m.k);
    }
    for a in extra {
        ensure!(is_true(*a), "model:assumption", "{:?}: assumption {a} is not true in the reported model {val:?}", m.k);
    }
    // variables nobody mentioned
    let hi = m.hi_any.map_or(0, |x| x + 1);
    for d in [0u32, 1, 40] {
        if d > 0 && !sim.chance(1, 4) {
            continue;
        }
        let v = Var::new(hi + d);
        if matches!(m.k, K::Kis | K::Inc) {
            // may be a variable Kissat introduced itself (factoring)
            let (x, y) = (ok("lit_val(unknown)", s.lit_val(v.pos_lit()))?, ok("lit_val(unknown)", s.lit_val(v.neg_lit()))?);
            ensure!(x == opposite(y), "model:negation", "{:?}: values {x:?} and {y:?} for a variable and its negation", m.k);
            continue;
        }
        for l in [v.pos_lit(), v.neg_lit()] {
            let x = ok("lit_val(unknown)", s.lit_val(l))?;
            ensure!(x == TernaryVal::DontCare, "model:unknown", "{:?}: value {x:?} for literal {l}, which was never mentioned", m.k);
        }
    }
    if sim.chance(1, 4) {
        let top = Var::new(sim.range(0, hi as usize + 3) as u32);
        let a = ok("solution", s.solution(top))?;
        for i in 0..=top.idx32() {
            let l = Var::new(i).pos_lit();
            let x = ok("lit_val", s.lit_val(l))?;
            ensure!(a.lit_value(l) == x, "model:solution", "{:?}: solution has {:?} for {l}, lit_val {x:?}", m.k, a.lit_value(l));
        }
        let f = ok("full_solution", s.full_solution())?;
        for (i, v) in m.v.iter().enumerate() {
            if s.max_var().is_some_and(|mv| *v <= mv) {
                ensure!(f.var_value(*v) == val[i], "model:full_solution", "{:?}: full_solution has {:?} for {v}, lit_val {:?}", m.k, f.var_value(*v), val[i]);
            }
        }
        for c in m.cls.iter().filter(|c| !taut(c)) {
            ensure!(
                c.iter().any(|l| f.lit_value(m.lit(*l)) == TernaryVal::True),
                "model:full_solution", "{:?}: the full solution {f} does not satisfy clause {c:?}", m.k
            );
        }
    }
    // phases of variables that nothing constrains
    // (preprocessing may eliminate them and then does not keep the phase)
    if matches!(m.k, K::MsC | K::MsS | K::GlC) {
        for p in &m.phase {
            let constrained = m.cls.iter().any(|c| c.iter().any(|l| l.abs() == p.abs())) || extra.iter().any(|l| l.abs() == p.abs());
            if !constrained && !m.loose {
                sim.probe("phase_checked");
                ensure!(is_true(*p), "phase", "{:?}: unconstrained variable {} does not have its forced phase", m.k, p.abs());
            }
        }
    }
    sim.probe("model_checked");
    Ok(())
}

pub fn check_core(sim: &mut Sim, m: &M, s: &mut S, assumps: &[i32]) -> Outcome {
    let core = ok("core", s.core())?;
    let mut c = vec![];
    for l in &core {
        let Some(b) = m.back(*l) else { bail!("core:literal", "{:?}: core literal {l} is not over the assumptions {assumps:?}", m.k) };
        ensure!(assumps.contains(&-b), "core:literal", "{:?}: core literal {b} is not a negated assumption of {assumps:?} (core {core:?})", m.k);
        c.push(b);
    }
    let neg: Vec<i32> = c.iter().map(|l| -l).collect();
    let mut t = m.tab.clone();
    #[cfg(not(feature = "kis"))]
    if let (S::Cad(x), Some(tmp)) = (&mut *s, &m.tmp) {
        let used = ok("tmp_clause_in_core", x.tmp_clause_in_core())?;
        if used {
            t.add(tmp);
            sim.probe("tmp_clause_in_core");
        }
    }
    ensure!(!t.sat_with(&neg), "core:implied", "{:?}: core {c:?} is not implied by the formula (assumptions {assumps:?})", m.k);
    if c.is_empty() {
        ensure!(!t.sat(), "core:empty", "{:?}: empty core but the formula is satisfiable (assumptions {assumps:?})", m.k);
    } else {
        sim.probe("nonempty_core");
    }
    Ok(())
}

/// Whatever the state of the solver, everything that can be asked is answered accordingly
pub fn check_state(sim: &mut Sim, m: &M, s: &mut S) -> Outcome {
    set_ctx(sim, "query");
    let l = m.lit(m.gen_lit(sim));
    match (&m.st, m.loose) {
        (St::Sat(a), false) => check_model(sim, m, s, &a.clone())?,
        (St::Sat(a), true) => {
            if s.lit_val(l).is_ok() {
                check_model(sim, m, s, &a.clone())?;
            }
        }
        _ => match s.lit_val(l) {
            Ok(v) => bail!("state:value", "{:?}: lit_val answered {v:?} in state {:?}", m.k, m.st),
            Err(e) => {
                ensure!(state_err(&e, &[SolverState::Sat]), "state:error", "{:?}: lit_val in state {:?} failed with {e:#}", m.k, m.st);
                if sim.chance(1, 6) {
                    ensure!(s.full_solution().is_err(), "state:value", "{:?}: full_solution answered in state {:?}", m.k, m.st);
                    let v = Var::new(sim.range(0, 5) as u32);
                    ensure!(s.solution(v).is_err(), "state:value", "{:?}: solution answered in state {:?}", m.k, m.st);
                    ensure!(s.var_val(v).is_err(), "state:value", "{:?}: var_val answered in state {:?}", m.k, m.st);
                }
            }
        },
    }
    if s.incremental() {
        match (&m.st, m.loose) {
            (St::Unsat(a), false) => check_core(sim, m, s, &a.clone())?,
            (St::Unsat(a), true) => {
                if s.core().is_ok() {
                    check_core(sim, m, s, &a.clone())?;
                }
            }
            _ => match s.core() {
                Ok(c) => bail!("state:core", "{:?}: core answered {c:?} in state {:?}", m.k, m.st),
                Err(e) => ensure!(state_err(&e, &[SolverState::Unsat]), "state:error", "{:?}: core in state {:?} failed with {e:#}", m.k, m.st),
            },
        }
    }
    Ok(())
}

pub fn check_stats(sim: &mut Sim, m: &M, s: &S) -> Outcome {
    sim.op("stats");
    set_ctx(sim, "stats");
    let st = s.stats();
    let k = m.k;
    ensure!(
        (st.n_sat, st.n_unsat, st.n_terminated) == (m.ns, m.nu, m.nt),
        "stats:solves", "{k:?}: reported (sat, unsat, interrupted) = {:?}, the history has {:?}", (st.n_sat, st.n_unsat, st.n_terminated), (m.ns, m.nu, m.nt)
    );
    let n = m.cls.len() + m.had_tmp;
    ensure!(st.n_clauses == s.n_clauses(), "stats:clauses", "{k:?}: stats has {} clauses, n_clauses {}", st.n_clauses, s.n_clauses());
    match k {
        K::Cad | K::Kis | K::Inc => ensure!(st.n_clauses == n, "stats:clauses", "{k:?}: {} clauses reported, {n} were added", st.n_clauses),
        _ => ensure!(st.n_clauses <= n, "stats:clauses", "{k:?}: {} clauses reported, only {n} were added", st.n_clauses),
    }
    ensure!(st.max_var == s.max_var(), "stats:max_var", "{k:?}: stats has {:?}, max_var {:?}", st.max_var, s.max_var());
    let mv = st.max_var.map(Var::idx32);
    ensure!(mv >= m.hi_cl, "stats:max_var", "{k:?}: maximum variable {mv:?} but a clause contains variable {:?}", m.hi_cl);
    ensure!(mv <= m.hi_any, "stats:max_var", "{k:?}: maximum variable {mv:?} but only variables up to {:?} were ever mentioned", m.hi_any);
    if m.cls.is_empty() && m.had_tmp == 0 {
        ensure!(st.avg_clause_len == 0., "stats:avg", "{k:?}: average clause length {} without clauses", st.avg_clause_len);
    } else if k != K::Bat && m.had_tmp == 0 {
        let avg = m.lens as f32 / m.cls.len() as f32;
        ensure!((st.avg_clause_len - avg).abs() < 1e-3, "stats:avg", "{k:?}: average clause length {} reported, is {avg}", st.avg_clause_len);
    }
    Ok(())
}

/// Books a verdict of a solve call under `a` (and the temporary clause) and checks it
pub fn verdict(m: &mut M, r: SolverResult, a: &[i32], called: bool) -> Outcome {
    m.tmp_spent = true;
    m.ran |= called;
    let mut t = m.tab.clone();
    if let Some(c) = &m.tmp {
        t.add(c);
    }
    let sat = t.sat_with(a);
    m.loose = false;
    match r {
        SolverResult::Sat => {
            ensure!(sat, "verdict:sat", "{:?}: satisfiable under {a:?}, which it is not", m.k);
            m.ns += usize::from(called);
            m.st = St::Sat(a.to_vec());
            if let Some(c) = &m.tmp {
                if let [l] = c[..] {
                    if !a.contains(&l) {
                        m.st = St::Sat(a.iter().copied().chain([l]).collect());
                    }
                }
            }
        }
        SolverResult::Unsat => {
            ensure!(!sat, "verdict:unsat", "{:?}: unsatisfiable under {a:?} (temporary clause {:?}), but there are models", m.k, m.tmp);
            m.nu += usize::from(called);
            m.st = St::Unsat(a.to_vec());
        }
        SolverResult::Interrupted => {
            m.nt += usize::from(called);
            m.st = St::Input;
        }
    }
    Ok(())
}

fn eliminated(s: &mut S, m: &M, c: &[i32]) -> bool {
    matches!(m.k, K::MsS | K::GlS) && c.iter().any(|l| {
        let v = m.v[l.unsigned_abs() as usize - 1];
        s.max_var().is_some_and(|x| v <= x) && s.eliminated(v)
    })
}

/// Adds one or several clauses by one of the ways to add clauses
pub fn add(sim: &mut Sim, m: &mut M, s: &mut S, soft: bool) -> Outcome {
    let c = if soft { m.gen_soft_clause(sim) } else { m.gen_clause(sim) };
    let how = sim.weighted(&[10, 6, 4, 2, 2, 2, 2]);
    let mut cs = vec![c];
    if how >= 3 {
        for _ in 0..sim.range(0, 3) {
            cs.push(m.gen_soft_clause(sim));
        }
    }
    if cs.iter().any(|c| eliminated(s, m, c)) {
        // Glucose does not support this: it has to refuse
        sim.probe("clause_over_eliminated");
        let c = cs.iter().find(|c| eliminated(s, m, c)).unwrap().clone();
        sim.ev(format!("add eliminated {c:?}"));
        if s.add(m.clause(&c)).is_ok() {
            // accepted, then it has to count
            m.added(&c);
        }
        return Ok(());
    }
    sim.op("add");
    set_ctx(sim, "add");
    sim.ev(format!("add[{how}] {cs:?}"));
    let done = m.k == K::Kis && matches!(m.st, St::Sat(_) | St::Unsat(_));
    if done {
        sim.probe("add_after_answer");
        match s.add_ref(&m.clause(&cs[0])) {
            Ok(()) => {
                if !m.loose {
                    bail!("state:add", "Kis: a clause was accepted in state {:?}", m.st);
                }
                m.added(&cs[0].clone());
            }
            Err(e) => ensure!(state_err(&e, &[SolverState::Input]), "state:error", "Kis: adding a clause failed with {e:#}"),
        }
        return Ok(());
    }
    let cl: Vec<Clause> = cs.iter().map(|c| m.clause(c)).collect();
    match how {
        0 => ok("add_clause", s.add(cl[0].clone()))?,
        1 => ok("add_clause_ref", s.add_ref(&cl[0]))?,
        2 => ok("add_small", s.add_small(&m.lits(&cs[0])))?,
        3 => ok("add_cnf", s.add_cnf(cl, false))?,
        4 => ok("add_cnf_ref", s.add_cnf(cl, true))?,
        5 => s.extend(cl, sim.coin()),
        _ => {
            if let Err(e) = s.collect(cl) {
                bail!("error:collect", "unexpected error: {e}");
            }
        }
    }
    for c in &cs {
        m.added(c);
    }
    Ok(())
}

pub fn solve(sim: &mut Sim, m: &mut M, s: &mut S) -> Outcome {
    sim.op("solve");
    set_ctx(sim, "solve");
    let before = s.stats();
    let r = ok("solve", s.solve())?;
    let after = s.stats();
    // an answer the solver already has may or may not be computed again
    let called = after.n_sat + after.n_unsat + after.n_terminated != before.n_sat + before.n_unsat + before.n_terminated;
    ensure!(called || matches!(m.st, St::Sat(_) | St::Unsat(_)) || m.loose, "stats:solves", "{:?}: a call to the solver was not counted", m.k);
    sim.ev(format!("solve -> {r} called={called}"));
    if !called {
        match (&m.st, r) {
            (St::Sat(_), SolverResult::Sat) => (),
            (St::Unsat(_), SolverResult::Unsat) => {
                ensure!(!m.tab.sat(), "verdict:unsat", "{:?}: unsatisfiable without assumptions, but there are models", m.k);
            }
            (St::Unsat(_), SolverResult::Sat) if m.tab.sat() => {
                m.st = St::Sat(vec![]);
            }
            (st, r) => bail!("verdict:cached", "{:?}: {r} in state {st:?}", m.k),
        }
        return Ok(());
    }
    m.spend();
    ensure!(r != SolverResult::Interrupted, "verdict:interrupted", "{:?}: an unconstrained solve was interrupted", m.k);
    verdict(m, r, &[], true)?;
    sim.nontrivial = true;
    Ok(())
}

pub fn solve_assumps(sim: &mut Sim, m: &mut M, s: &mut S) -> Outcome {
    sim.op("solve_assumps");
    set_ctx(sim, "solve_assumps");
    let a = m.gen_assumps(sim);
    let el = eliminated(s, m, &a);
    m.spend();
    sim.ev(format!("assume {a:?} eliminated={el}"));
    let r = s.solve_assumps(&m.lits(&a));
    if el {
        sim.probe("assumption_over_eliminated");
        match r {
            Err(_) => {
                // not answered: the state is whatever it was
                m.loose = true;
                return Ok(());
            }
            Ok(r) => {
                m.mention(&a);
                return verdict(m, r, &a, true);
            }
        }
    }
    let r = ok("solve_assumps", r)?;
    m.mention(&a);
    sim.ev(format!("-> {r}"));
    ensure!(r != SolverResult::Interrupted, "verdict:interrupted", "{:?}: an unconstrained solve was interrupted", m.k);
    verdict(m, r, &a, true)?;
    sim.nontrivial = true;
    if r == SolverResult::Unsat && m.tab.sat() {
        sim.probe("unsat_under_assumptions");
    }
    Ok(())
}

pub fn propagate(sim: &mut Sim, m: &mut M, s: &mut S) -> Outcome {
    sim.op("propagate");
    set_ctx(sim, "propagate");
    let a = m.gen_assumps(sim);
    if eliminated(s, m, &a) {
        return Ok(());
    }
    let ps = sim.coin();
    let fresh = !m.ran;
    sim.ev(format!("propagate {a:?} ps={ps}"));
    m.spend();
    let r = ok("propagate", s.propagate(&m.lits(&a), ps))?;
    m.mention(&a);
    let mut props = vec![];
    for l in &r.propagated {
        let Some(b) = m.back(*l) else { bail!("propagate:unknown", "{:?}: propagated literal {l} over an unknown variable", m.k) };
        props.push(b);
    }
    sim.ev(format!("-> {props:?} conflict={}", r.conflict));
    let mut t = m.tab.clone();
    if let Some(c) = &m.tmp {
        t.add(c);
    }
    let t = t.with(&a);
    if r.conflict {
        ensure!(!t.sat(), "propagate:conflict", "{:?}: conflict under {a:?}, but there are models", m.k);
    } else {
        // with a temporary clause, CaDiCaL also decides one of its literals
        for p in props.iter().filter(|_| m.tmp.is_none()) {
            ensure!(t.implies(&[*p]), "propagate:implied", "{:?}: propagated {p} is not implied under {a:?}", m.k);
        }
    }
    let closure = up(&m.cls, &a);
    let root = up(&m.cls, &[]);
    if fresh && m.tmp.is_none() {
        match (&closure, &root) {
            (None, _) => ensure!(r.conflict, "propagate:missed-conflict", "{:?}: unit propagation of {a:?} fails, no conflict reported", m.k),
            (Some(c), Some(root)) => {
                ensure!(!r.conflict, "propagate:conflict-not-unit", "{:?}: unit propagation of {a:?} finds no conflict, but one was reported", m.k);
                for l in c {
                    if !root.contains(l) && !a.contains(l) {
                        ensure!(props.contains(l), "propagate:missed", "{:?}: {l} follows from {a:?} by unit propagation but is not among {props:?}", m.k);
                    }
                }
                for p in &props {
                    ensure!(c.contains(p), "propagate:not-unit", "{:?}: {p} was reported but does not follow from {a:?} by unit propagation", m.k);
                }
                if c.len() > root.len() + a.len() {
                    sim.probe("propagated_literals");
                }
            }
            _ => (),
        }
    }
    sim.nontrivial = true;
    m.tmp = None;
    m.st = St::Input;
    m.loose = false;
    // a conflict may have been learned from
    m.ran |= r.conflict;
    if s.lit_val(m.v[0].pos_lit()).is_ok() {
        // the propagation found a full model
        sim.probe("propagate_model");
        m.st = St::Sat(a);
    }
    Ok(())
}

fn reserve(sim: &mut Sim, m: &mut M, s: &mut S) -> Outcome {
    sim.op("reserve");
    set_ctx(sim, "reserve");
    let i = if sim.coin() {
        sim.pick(&m.v.clone()).idx32()
    } else {
        sim.range(0, m.v.last().unwrap().idx() + 10) as u32
    };
    sim.ev(format!("reserve {i}"));
    ok("reserve", s.reserve(Var::new(i)))?;
    m.mention_var(i);
    if m.st == St::Cfg {
        m.st = St::Input;
    }
    m.loose = true;
    Ok(())
}

fn phases(sim: &mut Sim, m: &mut M, s: &mut S) -> Outcome {
    sim.op("phase");
    set_ctx(sim, "phase");
    let l = m.gen_lit(sim);
    if sim.chance(2, 3) {
        sim.ev(format!("phase {l}"));
        ok("phase", s.phase(m.lit(l)))?;
        m.phase.retain(|x| x.abs() != l.abs());
        m.phase.push(l);
        m.mention(&[l]);
    } else {
        sim.ev(format!("unphase {l}"));
        ok("unphase", s.unphase(m.lit(l).var()))?;
        m.phase.retain(|x| x.abs() != l.abs());
        m.mention(&[l]);
    }
    m.loose = true;
    Ok(())
}

fn freezes(sim: &mut Sim, m: &mut M, s: &mut S) -> Outcome {
    sim.op("freeze");
    set_ctx(sim, "freeze");
    let i = sim.idx(m.n());
    let v = m.v[i];
    let what = sim.weighted(&[4, 2, 3]);
    if m.k != K::Cad && s.max_var().is_some_and(|x| v <= x) && s.eliminated(v) {
        return Ok(());
    }
    match what {
        0 => {
            sim.ev(format!("freeze {}", i + 1));
            ok("freeze", s.freeze(v))?;
            m.frozen[i] += 1;
            if m.k != K::Cad {
                m.frozen[i] = 1;
            }
            m.mention_var(v.idx32());
        }
        1 if m.frozen[i] > 0 || m.k == K::Cad => {
            sim.ev(format!("melt {}", i + 1));
            if m.frozen[i] == 0 {
                sim.probe("melt_unfrozen");
            }
            ok("melt", s.melt(v))?;
            m.frozen[i] = m.frozen[i].saturating_sub(1);
        }
        _ => {
            let f = ok("is_frozen", s.frozen(v))?;
            ensure!(f == (m.frozen[i] > 0), "frozen", "{:?}: is_frozen({}) = {f}, frozen {} times", m.k, i + 1, m.frozen[i]);
        }
    }
    m.loose = true;
    Ok(())
}

fn flips(sim: &mut Sim, m: &mut M, s: &mut S) -> Outcome {
    sim.op("flip");
    set_ctx(sim, "flip");
    let l = m.gen_lit(sim);
    let lit = m.lit(l);
    let St::Sat(a) = m.st.clone() else {
        for r in [s.flip(lit), s.flippable(lit)] {
            match r {
                Ok(_) => bail!("state:flip", "flip answered in state {:?}", m.st),
                Err(e) => ensure!(state_err(&e, &[SolverState::Sat]), "state:error", "flip failed with {e:#}"),
            }
        }
        return Ok(());
    };
    if m.loose && s.lit_val(lit).is_err() {
        return Ok(());
    }
    let before = ok("lit_val", s.lit_val(lit))?;
    let can = ok("is_flippable", s.flippable(lit))?;
    let did = ok("flip_lit", s.flip(lit))?;
    let after = ok("lit_val", s.lit_val(lit))?;
    sim.ev(format!("flip {l}: {can} {did}"));
    ensure!(!can || did, "flip:promise", "is_flippable({l}) but flip_lit failed");
    if did {
        sim.probe("flipped");
        ensure!(after == opposite(before), "flip:value", "flip_lit({l}) = true changed {before:?} to {after:?}");
        // the promise is about the formula, not about assumptions
        m.st = St::Sat(a.into_iter().filter(|x| x.abs() != l.abs()).collect());
    } else {
        ensure!(after == before, "flip:value", "flip_lit({l}) = false changed {before:?} to {after:?}");
    }
    Ok(())
}

#[cfg(feature = "kis")]
fn cad_extra(_: &mut Sim, _: &mut M, _: &mut S) -> Outcome {
    Ok(())
}

#[cfg(not(feature = "kis"))]
fn cad_extra(sim: &mut Sim, m: &mut M, s: &mut S) -> Outcome {
    let S::Cad(_) = s else { return Ok(()) };
    match sim.weighted(&[4, 4, 4, 4, 1, 2]) {
        0 => {
            let c = m.gen_clause(sim);
            sim.op("add_tmp_clause");
            set_ctx(sim, "add_tmp_clause");
            sim.ev(format!("tmp {c:?}"));
            let S::Cad(x) = s else { unreachable!() };
            if let Err(e) = x.add_tmp_clause(&m.clause(&c)) {
                bail!("error:add_tmp_clause", "unexpected error {e}");
            }
            m.mention(&c);
            m.tmp = Some(c);
            m.tmp_spent = false;
            m.had_tmp += 1;
            m.st = St::Input;
            m.loose = false;
        }
        1 => {
            let r = sim.range(0, 3) as u32;
            sim.op("simplify");
            set_ctx(sim, "simplify");
            let with = sim.coin();
            let a = if with { m.gen_assumps(sim) } else { vec![] };
            let lits = m.lits(&a);
            let S::Cad(x) = s else { unreachable!() };
            m.spend();
            let res = ok("simplify", if with { x.simplify_assumps(&lits, r) } else { x.simplify(r) })?;
            sim.ev(format!("simplify {r} under {a:?} -> {res}"));
            m.mention(&a);
            if res == SolverResult::Interrupted {
                m.st = St::Input;
                m.loose = true;
                m.ran = true;
                m.tmp = None;
                return Ok(());
            }
            sim.probe("simplify_answered");
            verdict(m, res, &a, false)?;
            m.ran = true;
        }
        2 => {
            sim.op("current_lit_val");
            set_ctx(sim, "current_lit_val");
            let l = m.gen_lit(sim);
            let S::Cad(x) = s else { unreachable!() };
            let v = x.current_lit_val(m.lit(l));
            let n = x.current_lit_val(m.lit(-l));
            ensure!(n == opposite(v), "fixed:negation", "root value of {l} is {v:?}, of its negation {n:?}");
            match v {
                TernaryVal::True => {
                    sim.probe("fixed_literal");
                    ensure!(m.tab.implies(&[l]), "fixed", "{l} is reported fixed but not implied");
                }
                TernaryVal::False => ensure!(m.tab.implies(&[-l]), "fixed", "{} is reported fixed but not implied", -l),
                TernaryVal::DontCare => (),
            }
        }
        3 => {
            sim.op("configure");
            set_ctx(sim, "configure");
            use rustsat_cadical::Config;
            let c = *sim.pick(&[Config::Default, Config::Plain, Config::Sat, Config::Unsat]);
            let S::Cad(x) = s else { unreachable!() };
            let r = x.set_configuration(c);
            sim.ev(format!("configure {c}"));
            if m.st == St::Cfg {
                ok("set_configuration", r)?;
            } else {
                match r {
                    Ok(()) => bail!("state:configure", "configured in state {:?}", m.st),
                    Err(e) => ensure!(state_err(&e, &[SolverState::Configuring]), "state:error", "configuring failed with {e:#}"),
                }
            }
        }
        4 => {
            let d = sim.range(1, 4) as u32;
            sim.op("declare");
            set_ctx(sim, "declare");
            let S::Cad(x) = s else { unreachable!() };
            let v = x.declare_more_variables(d);
            sim.ev(format!("declare {d} -> {v}"));
            ensure!(m.hi_cl.is_none_or(|h| v.idx32() >= h + d), "declare", "declared up to {v} but {:?} is in use", m.hi_cl);
            m.mention_var(v.idx32());
            m.st = St::Input;
            m.loose = false;
        }
        _ => {
            if m.st == St::Cfg {
                m.ran |= cad_option(sim, s)? == "ilb";
            } else {
                sim.op("counters");
                let S::Cad(x) = s else { unreachable!() };
                let _ = (x.get_active(), x.get_irredundant(), x.get_redundant());
                let _ = s.internal();
            }
        }
    }
    Ok(())
}

#[cfg(not(feature = "kis"))]
fn configure_kissat(_: &mut Sim, _: &mut M, _: &mut S) -> Outcome {
    Ok(())
}

#[cfg(feature = "kis")]
fn configure_kissat(sim: &mut Sim, m: &mut M, s: &mut S) -> Outcome {
    let S::Kis(x) = s else { return Ok(()) };
    use rustsat_kissat::Config;
    let c = *sim.pick(&[Config::Default, Config::Basic, Config::Plain, Config::Sat, Config::Unsat]);
    let r = x.set_configuration(c);
    if m.st == St::Cfg {
        ok("set_configuration", r)
    } else {
        match r {
            Ok(()) => bail!("state:configure", "configured in state {:?}", m.st),
            Err(e) => {
                ensure!(state_err(&e, &[SolverState::Configuring]), "state:error", "configuring failed with {e:#}");
                Ok(())
            }
        }
    }
}

pub const KINDS: [K; 8] = [K::Cad, K::Kis, K::MsC, K::MsS, K::GlC, K::GlS, K::Bat, K::Inc];

pub fn heap_ok(m: &M) -> Outcome {
    let c = heap::corrupt();
    ensure!(c == 0, "heap", "{:?}: {c} blocks were written beyond their end", m.k);
    Ok(())
}

#[cfg(not(feature = "kis"))]
fn cad_option(sim: &mut Sim, s: &mut S) -> Result<&'static str, simcore::Violation> {
                let (n, v) = *sim.pick(&[
                    ("elim", 0),
                    ("factor", 0),
                    ("inprocessing", 0),
                    ("probe", 0),
                    ("lucky", 0),
                    ("chrono", 0),
                    ("ilb", 0),
                    ("ilb", 2),
                    ("shrink", 0),
                    ("restartint", 2),
                    ("elimint", 1),
                    ("reducetarget", 100),
                    ("walk", 0),
                    ("seed", 7),
                    ("factorcheck", 0),
                ]);
                sim.op("set_option");
                let S::Cad(x) = s else { return Ok("") };
                let r = x.set_option(n, v);
                sim.ev(format!("option {n}={v}"));
                ok("set_option", r)?;
                let g = ok("get_option", x.get_option(n))?;
                ensure!(g == v, "option", "option {n} set to {v} reads {g}");
    Ok(n)
}

#[cfg(feature = "kis")]
fn cad_option(_: &mut Sim, _: &mut S) -> Result<&'static str, simcore::Violation> {
    Ok("")
}

fn history(sim: &mut Sim, k: K, cores: bool) -> Outcome {
    let n = sim.range(1, 11);
    let mut m = M::new(sim, k, n);
    set_ctx(sim, "init");
    let mut s = S::new(k);
    sim.ev(format!("{k:?} over {n} variables {:?}", m.v));
    check_state(sim, &m, &mut s)?;
    if matches!(k, K::GlS | K::MsS) && sim.coin() {
        // what incremental use needs
        sim.ev("freeze all");
        for i in 0..n {
            ok("freeze", s.freeze(m.v[i]))?;
            m.frozen[i] = 1;
            m.mention_var(m.v[i].idx32());
        }
        m.loose = true;
    }
    if k == K::Cad && sim.coin() {
        for _ in 0..sim.range(1, 5) {
            // (clauses are then added without backtracking and may be learned from)
            m.ran |= cad_option(sim, &mut s)? == "ilb";
        }
    }
    let steps = sim.range(3, if matches!(k, K::Kis | K::Inc) { 22 } else { 34 });
    let inc = s.incremental();
    for _ in 0..steps {
        let w = [
            14,                                                     // add
            4,                                                      // solve
            if inc { if cores { 9 } else { 5 } } else { 0 },        // assumptions
            if s.can_propagate() { if cores { 6 } else { 1 } } else { 0 },
            1,                                                      // reserve
            if s.can_propagate() { 2 } else { 0 },                  // phases
            if s.can_freeze() { 2 } else { 0 },
            if s.can_flip() && !cores { 2 } else { 0 },
            if k == K::Cad { 4 } else { 0 },
            1,                                                      // stats
            if k == K::Kis { 1 } else { 0 },
        ];
        match sim.weighted(&w) {
            0 => {
                for _ in 0..sim.range(1, 6) {
                    add(sim, &mut m, &mut s, true)?;
                }
            }
            1 => solve(sim, &mut m, &mut s)?,
            2 => solve_assumps(sim, &mut m, &mut s)?,
            3 => propagate(sim, &mut m, &mut s)?,
            4 => reserve(sim, &mut m, &mut s)?,
            5 => phases(sim, &mut m, &mut s)?,
            6 => freezes(sim, &mut m, &mut s)?,
            7 => flips(sim, &mut m, &mut s)?,
            8 => cad_extra(sim, &mut m, &mut s)?,
            9 => check_stats(sim, &m, &s)?,
            _ => configure_kissat(sim, &mut m, &mut s)?,
        }
        check_state(sim, &m, &mut s)?;
        heap_ok(&m)?;
    }
    solve(sim, &mut m, &mut s)?;
    check_state(sim, &m, &mut s)?;
    check_stats(sim, &m, &s)?;
    set_ctx(sim, "drop");
    drop(s);
    heap_ok(&m)?;
    let mut h = hash_bytes(k as u64, &[u8::from(m.tab.sat())]);
    for b in &m.tab.bits {
        h = hash_bytes(h, &b.to_le_bytes());
    }
    sim.state(h);
    Ok(())
}

macro_rules! scen {
    ($($f:ident, $g:ident, $k:expr;)*) => {
        $(fn $f(sim: &mut Sim) -> Outcome { history(sim, $k, false) }
          fn $g(sim: &mut Sim) -> Outcome { history(sim, $k, true) })*
        const SCEN: &[(&str, fn(&mut Sim) -> Outcome, &str, fn(&mut Sim) -> Outcome, K)] =
            &[$((stringify!($f), $f, stringify!($g), $g, $k)),*];
    };
}
scen! {
    cadical_history, cadical_cores, K::Cad;
    kissat_history, kissat_none, K::Kis;
    minisat_history, minisat_cores, K::MsC;
    minisat_simp_history, minisat_simp_cores, K::MsS;
    glucose_history, glucose_cores, K::GlC;
    glucose_simp_history, glucose_simp_cores, K::GlS;
    batsat_history, batsat_cores, K::Bat;
    incremental_kissat_history, incremental_kissat_cores, K::Inc;
}

pub fn register(sc: &mut Vec<Scenario>, pr: &mut Vec<Prop>) {
    for (n, f, n2, g, k) in SCEN {
        sc.push(Scenario { prop: "P09", name: n, weight: if *k == K::Cad { 3 } else { 2 }, f: *f });
        if *k != K::Kis {
            sc.push(Scenario { prop: "P10", name: n2, weight: if *k == K::Cad { 3 } else { 2 }, f: *g });
        }
    }
    const REAL: &[&str] = &[
        "rustsat-cadical, -kissat, -minisat, -glucose, -batsat wrappers with their native solvers (optimised build)",
        "rustsat::solvers traits, rustsat::solvers::simulators::Incremental",
    ];
    const STUB: &[&str] = &["heap of the native code (seeded contents, red zones, moving realloc)", "getrandom"];
    const ASSUME: &[&str] = &[
        "formulas have at most 12 variables (with gaps between their indices), so that the truth table decides",
        "melt is only called on frozen variables and options are only set while configuring, as documented",
    ];
    pr.push(Prop {
        id: "P09",
        quick_runs: 300_000,
        thorough_runs: 4_000_000,
        rule: "after every call of a random history, verdict, model, values, state errors and statistics agree with a truth table of the clauses added so far and a model of the solver state",
        shape_measure: "distinct formulas (truth tables) at the end of a history, per solver",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    });
    pr.push(Prop {
        id: "P10",
        quick_runs: 300_000,
        thorough_runs: 4_000_000,
        rule: "cores are implied clauses of negated assumptions and propagation reports exactly unit consequences, over histories mixing assumptions, propagation, phases and additions",
        shape_measure: "distinct formulas (truth tables) at the end of a history, per solver",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    });
}
