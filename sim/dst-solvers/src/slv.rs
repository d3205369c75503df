//! One face for all bundled in-process solvers. Every call goes to the real wrapper type.
use rustsat::solvers::{
    simulators::Incremental, FlipLit, FreezeVar, GetInternalStats, Interrupt, InterruptSolver, Learn, LimitConflicts,
    LimitDecisions, LimitPropagations, PhaseLit, Propagate, PropagateResult, Solve, SolveIncremental, SolveStats,
    SolverResult, SolverStats, Terminate,
};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use std::cell::RefCell;

#[cfg(not(feature = "kis"))]
pub type Cad = rustsat_cadical::CaDiCaL<'static, 'static>;
#[cfg(feature = "kis")]
pub type Kis = rustsat_kissat::Kissat<'static>;

thread_local! {
    /// consulted by BatSat's callbacks: (calls so far, stop from this call on)
    pub static BAT: RefCell<(u64, u64)> = const { RefCell::new((0, u64::MAX)) };
}

/// Callbacks for BatSat that stop the search when the scenario says so
#[derive(Default)]
pub struct BatCb;
#[cfg(not(feature = "kis"))]
impl batsat::Callbacks for BatCb {
    fn stop(&self) -> bool {
        BAT.with(|b| {
            let mut b = b.borrow_mut();
            b.0 += 1;
            b.0 >= b.1
        })
    }
}

#[cfg(not(feature = "kis"))]
pub enum S {
    Cad(Cad),
    MsC(rustsat_minisat::core::Minisat),
    MsS(rustsat_minisat::simp::Minisat),
    GlC(rustsat_glucose::core::Glucose),
    GlS(rustsat_glucose::simp::Glucose),
    Bat(rustsat_batsat::Solver<BatCb>),
}
#[cfg(feature = "kis")]
pub enum S {
    Kis(Kis),
    Inc(Incremental<Kis>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Cad,
    Kis,
    MsC,
    MsS,
    GlC,
    GlS,
    Bat,
    Inc,
}

#[cfg(not(feature = "kis"))]
macro_rules! all { ($s:expr, $x:ident => $e:expr) => { match $s {
    S::Cad($x) => $e, S::MsC($x) => $e, S::MsS($x) => $e,
    S::GlC($x) => $e, S::GlS($x) => $e, S::Bat($x) => $e,
}}}
#[cfg(feature = "kis")]
macro_rules! all { ($s:expr, $x:ident => $e:expr) => { match $s {
    S::Kis($x) => $e, S::Inc($x) => $e,
}}}
#[cfg(not(feature = "kis"))]
macro_rules! family { ($s:expr, $x:ident => $e:expr) => { match $s {
    S::MsC($x) => $e, S::MsS($x) => $e, S::GlC($x) => $e, S::GlS($x) => $e, _ => na(),
}}}
#[cfg(feature = "kis")]
macro_rules! family { ($s:expr, $x:ident => $e:expr) => {{ let _ = $s; na() }}}

pub type R<T> = anyhow::Result<T>;

fn na<T>() -> R<T> {
    Err(anyhow::anyhow!("HARNESS: operation not offered"))
}

impl S {
    pub fn new(k: K) -> S {
        match k {
            #[cfg(not(feature = "kis"))]
            K::Cad => S::Cad(Cad::default()),
            #[cfg(feature = "kis")]
            K::Kis => S::Kis(Kis::default()),
            #[cfg(not(feature = "kis"))]
            K::MsC => S::MsC(Default::default()),
            #[cfg(not(feature = "kis"))]
            K::MsS => S::MsS(Default::default()),
            #[cfg(not(feature = "kis"))]
            K::GlC => S::GlC(Default::default()),
            #[cfg(not(feature = "kis"))]
            K::GlS => S::GlS(Default::default()),
            #[cfg(not(feature = "kis"))]
            K::Bat => S::Bat(Default::default()),
            #[cfg(feature = "kis")]
            K::Inc => S::Inc(Default::default()),
            _ => panic!("HARNESS: solver of the other binary"),
        }
    }
    pub fn k(&self) -> K {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(_) => K::Cad,
            #[cfg(feature = "kis")]
            S::Kis(_) => K::Kis,
            #[cfg(not(feature = "kis"))]
            S::MsC(_) => K::MsC,
            #[cfg(not(feature = "kis"))]
            S::MsS(_) => K::MsS,
            #[cfg(not(feature = "kis"))]
            S::GlC(_) => K::GlC,
            #[cfg(not(feature = "kis"))]
            S::GlS(_) => K::GlS,
            #[cfg(not(feature = "kis"))]
            S::Bat(_) => K::Bat,
            #[cfg(feature = "kis")]
            S::Inc(_) => K::Inc,
        }
    }
    pub fn incremental(&self) -> bool {
        self.k() != K::Kis
    }
    pub fn solve(&mut self) -> R<SolverResult> {
        all!(self, x => x.solve())
    }
    pub fn solve_assumps(&mut self, a: &[Lit]) -> R<SolverResult> {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.solve_assumps(a),
            #[cfg(not(feature = "kis"))]
            S::Bat(x) => x.solve_assumps(a),
            #[cfg(feature = "kis")]
            S::Inc(x) => x.solve_assumps(a),
            o => family!(o, x => x.solve_assumps(a)),
        }
    }
    pub fn core(&mut self) -> R<Vec<Lit>> {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.core(),
            #[cfg(not(feature = "kis"))]
            S::Bat(x) => x.core(),
            #[cfg(feature = "kis")]
            S::Inc(x) => x.core(),
            o => family!(o, x => x.core()),
        }
    }
    pub fn add(&mut self, c: Clause) -> R<()> {
        all!(self, x => x.add_clause(c))
    }
    pub fn add_ref(&mut self, c: &Clause) -> R<()> {
        all!(self, x => x.add_clause_ref(c))
    }
    pub fn add_small(&mut self, c: &[Lit]) -> R<()> {
        match c {
            [a] => all!(self, x => x.add_unit(*a)),
            [a, b] => all!(self, x => x.add_binary(*a, *b)),
            [a, b, d] => all!(self, x => x.add_ternary(*a, *b, *d)),
            _ => self.add(c.iter().copied().collect()),
        }
    }
    pub fn add_cnf(&mut self, cls: Vec<Clause>, by_ref: bool) -> R<()> {
        let cnf: rustsat::instances::Cnf = cls.into_iter().collect();
        if by_ref {
            all!(self, x => x.add_cnf_ref(&cnf))
        } else {
            all!(self, x => x.add_cnf(cnf))
        }
    }
    pub fn extend(&mut self, cls: Vec<Clause>, by_ref: bool) {
        if by_ref {
            all!(self, x => x.extend(cls.iter()))
        } else {
            all!(self, x => x.extend(cls))
        }
    }
    pub fn collect(&mut self, cls: Vec<Clause>) -> Result<(), rustsat::OutOfMemory> {
        use rustsat::encodings::CollectClauses;
        all!(self, x => x.extend_clauses(cls))
    }
    pub fn reserve(&mut self, v: Var) -> R<()> {
        all!(self, x => x.reserve(v))
    }
    pub fn lit_val(&self, l: Lit) -> R<TernaryVal> {
        all!(self, x => x.lit_val(l))
    }
    pub fn var_val(&self, v: Var) -> R<TernaryVal> {
        all!(self, x => x.var_val(v))
    }
    pub fn solution(&self, v: Var) -> R<Assignment> {
        all!(self, x => x.solution(v))
    }
    pub fn full_solution(&self) -> R<Assignment> {
        all!(self, x => x.full_solution())
    }
    pub fn stats(&self) -> SolverStats {
        all!(self, x => x.stats())
    }
    pub fn max_var(&self) -> Option<Var> {
        all!(self, x => x.max_var())
    }
    pub fn n_clauses(&self) -> usize {
        all!(self, x => SolveStats::n_clauses(x))
    }
    pub fn signature(&self) -> &'static str {
        all!(self, x => x.signature())
    }
    pub fn can_propagate(&self) -> bool {
        !matches!(self.k(), K::Kis | K::Bat | K::Inc)
    }
    pub fn propagate(&mut self, a: &[Lit], ps: bool) -> R<PropagateResult> {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.propagate(a, ps),
            o => family!(o, x => x.propagate(a, ps)),
        }
    }
    pub fn phase(&mut self, l: Lit) -> R<()> {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.phase_lit(l),
            o => family!(o, x => x.phase_lit(l)),
        }
    }
    pub fn unphase(&mut self, v: Var) -> R<()> {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.unphase_var(v),
            o => family!(o, x => x.unphase_var(v)),
        }
    }
    pub fn can_freeze(&self) -> bool {
        matches!(self.k(), K::Cad | K::MsS | K::GlS)
    }
    pub fn freeze(&mut self, v: Var) -> R<()> {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.freeze_var(v),
            #[cfg(not(feature = "kis"))]
            S::MsS(x) => x.freeze_var(v),
            #[cfg(not(feature = "kis"))]
            S::GlS(x) => x.freeze_var(v),
            _ => na(),
        }
    }
    pub fn melt(&mut self, v: Var) -> R<()> {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.melt_var(v),
            #[cfg(not(feature = "kis"))]
            S::MsS(x) => x.melt_var(v),
            #[cfg(not(feature = "kis"))]
            S::GlS(x) => x.melt_var(v),
            _ => na(),
        }
    }
    pub fn frozen(&mut self, v: Var) -> R<bool> {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.is_frozen(v),
            #[cfg(not(feature = "kis"))]
            S::MsS(x) => x.is_frozen(v),
            #[cfg(not(feature = "kis"))]
            S::GlS(x) => x.is_frozen(v),
            _ => na(),
        }
    }
    pub fn eliminated(&mut self, v: Var) -> bool {
        match self {
            #[cfg(not(feature = "kis"))]
            S::MsS(x) => x.var_eliminated(v),
            #[cfg(not(feature = "kis"))]
            S::GlS(x) => x.var_eliminated(v),
            _ => false,
        }
    }
    pub fn can_flip(&self) -> bool {
        self.k() == K::Cad
    }
    pub fn flip(&mut self, l: Lit) -> R<bool> {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.flip_lit(l),
            _ => na(),
        }
    }
    pub fn flippable(&mut self, l: Lit) -> R<bool> {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.is_flippable(l),
            _ => na(),
        }
    }
    pub fn limit_confl(&mut self, n: Option<u32>) -> R<()> {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.limit_conflicts(n),
            #[cfg(feature = "kis")]
            S::Kis(x) => {
                if let Some(n) = n {
                    x.set_limit(rustsat_kissat::Limit::Conflicts(n));
                    Ok(())
                } else {
                    na()
                }
            }
            o => family!(o, x => x.limit_conflicts(n)),
        }
    }
    pub fn limit_dec(&mut self, n: Option<u32>) -> R<()> {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.limit_decisions(n),
            #[cfg(feature = "kis")]
            S::Kis(x) => {
                if let Some(n) = n {
                    x.set_limit(rustsat_kissat::Limit::Decisions(n));
                    Ok(())
                } else {
                    na()
                }
            }
            _ => na(),
        }
    }
    pub fn limit_prop(&mut self, n: Option<u32>) -> R<()> {
        family!(self, x => x.limit_propagations(n))
    }
    pub fn internal(&self) -> Option<(usize, usize, usize)> {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => Some((x.propagations(), x.decisions(), x.conflicts())),
            #[cfg(not(feature = "kis"))]
            S::MsC(x) => Some((x.propagations(), x.decisions(), x.conflicts())),
            #[cfg(not(feature = "kis"))]
            S::MsS(x) => Some((x.propagations(), x.decisions(), x.conflicts())),
            #[cfg(not(feature = "kis"))]
            S::GlC(x) => Some((x.propagations(), x.decisions(), x.conflicts())),
            #[cfg(not(feature = "kis"))]
            S::GlS(x) => Some((x.propagations(), x.decisions(), x.conflicts())),
            _ => None,
        }
    }
    pub fn can_interrupt(&self) -> bool {
        !matches!(self.k(), K::Bat | K::Inc)
    }
    pub fn interrupter(&mut self) -> Option<Box<dyn Fn()>> {
        Some(match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => {
                let i = x.interrupter();
                Box::new(move || i.interrupt())
            }
            #[cfg(feature = "kis")]
            S::Kis(x) => {
                let i = x.interrupter();
                Box::new(move || i.interrupt())
            }
            #[cfg(not(feature = "kis"))]
            S::MsC(x) => {
                let i = x.interrupter();
                Box::new(move || i.interrupt())
            }
            #[cfg(not(feature = "kis"))]
            S::MsS(x) => {
                let i = x.interrupter();
                Box::new(move || i.interrupt())
            }
            #[cfg(not(feature = "kis"))]
            S::GlC(x) => {
                let i = x.interrupter();
                Box::new(move || i.interrupt())
            }
            #[cfg(not(feature = "kis"))]
            S::GlS(x) => {
                let i = x.interrupter();
                Box::new(move || i.interrupt())
            }
            _ => return None,
        })
    }
    pub fn terminator<F: FnMut() -> rustsat::solvers::ControlSignal + 'static>(&mut self, f: F) -> bool {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.attach_terminator(f),
            #[cfg(feature = "kis")]
            S::Kis(x) => x.attach_terminator(f),
            _ => return false,
        }
        true
    }
    pub fn detach_terminator(&mut self) {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.detach_terminator(),
            #[cfg(feature = "kis")]
            S::Kis(x) => x.detach_terminator(),
            _ => (),
        }
    }
    pub fn learner<F: FnMut(Clause) + 'static>(&mut self, f: F, n: usize) -> bool {
        match self {
            #[cfg(not(feature = "kis"))]
            S::Cad(x) => x.attach_learner(f, n),
            _ => return false,
        }
        true
    }
    pub fn detach_learner(&mut self) {
        #[cfg(not(feature = "kis"))]
        if let S::Cad(x) = self {
            x.detach_learner();
        }
    }
}
