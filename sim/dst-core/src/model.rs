//! A small executable model of (multi-objective) pseudo-Boolean instances: what a constraint and an
//! objective mean, decided by evaluating all assignments of few variables.
use crate::util::lit;
use rustsat::instances::{Cnf, ManageVars, Objective, SatInstance};
use rustsat::types::{
    constraints::{CardConstraint, PbConstraint}, Assignment, TernaryVal, Var,
};
use simcore::Sim;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Ge,
    Le,
    Eq,
    Lt,
    Gt,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Con {
    pub terms: Vec<(i64, i32)>,
    pub op: Op,
    pub rhs: i64,
}

/// minimise `sum of w for each soft clause that is falsified + offset`
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Obj {
    pub softs: Vec<(i64, Vec<i32>)>,
    pub offset: i64,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Doc {
    pub nv: usize,
    pub cons: Vec<Con>,
    pub objs: Vec<Obj>,
}

pub fn bit(a: u64, l: i32) -> bool {
    let v = l.unsigned_abs() - 1;
    (v < 64 && (a >> v) & 1 == 1) == (l > 0)
}

impl Con {
    pub fn clause(c: &[i32]) -> Con {
        Con { terms: c.iter().map(|&l| (1, l)).collect(), op: Op::Ge, rhs: 1 }
    }
    pub fn holds(&self, a: u64) -> bool {
        // a clause with a repeated literal is still a clause
        let s: i64 = self.terms.iter().filter(|(_, l)| bit(a, *l)).map(|(c, _)| *c).sum();
        match self.op {
            Op::Ge => s >= self.rhs,
            Op::Le => s <= self.rhs,
            Op::Eq => s == self.rhs,
            Op::Lt => s < self.rhs,
            Op::Gt => s > self.rhs,
        }
    }
}

impl Obj {
    pub fn cost(&self, a: u64) -> i64 {
        self.offset
            + self
                .softs
                .iter()
                .filter(|(_, c)| !c.iter().any(|&l| bit(a, l)))
                .map(|(w, _)| *w)
                .sum::<i64>()
    }
}

/// per assignment: feasible? and the costs
pub type Table = Vec<Option<Vec<i64>>>;

impl Doc {
    pub fn feasible(&self, a: u64) -> bool {
        self.cons.iter().all(|c| c.holds(a))
    }
    pub fn table(&self, nv: usize) -> Table {
        (0..1u64 << nv)
            .map(|a| self.feasible(a).then(|| self.objs.iter().map(|o| o.cost(a)).collect()))
            .collect()
    }
}

/// removes the constant by which the costs of an objective may differ
pub fn normalise_costs(t: &mut Table) {
    let n = t.iter().flatten().map(Vec::len).next().unwrap_or(0);
    for i in 0..n {
        if let Some(m) = t.iter().flatten().map(|c| c[i]).min() {
            for c in t.iter_mut().flatten() {
                c[i] -= m;
            }
        }
    }
}

pub fn to_cls(c: &rustsat::types::Cl) -> Vec<i32> {
    c.iter().map(|l| l.to_ipasir()).collect()
}

pub fn pb_con(c: &PbConstraint) -> Con {
    let t = |v: Vec<(rustsat::types::Lit, usize)>| -> Vec<(i64, i32)> {
        v.into_iter().map(|(l, w)| (w as i64, l.to_ipasir())).collect()
    };
    match c.clone() {
        PbConstraint::Ub(c) => {
            let (l, b) = c.decompose();
            Con { terms: t(l), op: Op::Le, rhs: b as i64 }
        }
        PbConstraint::Lb(c) => {
            let (l, b) = c.decompose();
            Con { terms: t(l), op: Op::Ge, rhs: b as i64 }
        }
        PbConstraint::Eq(c) => {
            let (l, b) = c.decompose();
            Con { terms: t(l), op: Op::Eq, rhs: b as i64 }
        }
    }
}

pub fn card_con(c: &CardConstraint) -> Con {
    let t = |v: Vec<rustsat::types::Lit>| -> Vec<(i64, i32)> {
        v.into_iter().map(|l| (1, l.to_ipasir())).collect()
    };
    match c.clone() {
        CardConstraint::Ub(c) => {
            let (l, b) = c.decompose();
            Con { terms: t(l), op: Op::Le, rhs: b as i64 }
        }
        CardConstraint::Lb(c) => {
            let (l, b) = c.decompose();
            Con { terms: t(l), op: Op::Ge, rhs: b as i64 }
        }
        CardConstraint::Eq(c) => {
            let (l, b) = c.decompose();
            Con { terms: t(l), op: Op::Eq, rhs: b as i64 }
        }
    }
}

pub fn obj_of(o: &Objective) -> Obj {
    Obj {
        softs: o.iter_soft_cls().into_iter().map(|(c, w)| (w as i64, to_cls(&c))).collect(),
        offset: o.offset() as i64,
    }
}

pub fn doc_of_cnf(c: &Cnf) -> Doc {
    Doc { nv: 0, cons: c.iter().map(|c| Con::clause(&to_cls(c))).collect(), objs: vec![] }
}

/// what a RustSAT instance says, read through its public accessors
pub fn doc_of_sat<VM: ManageVars + Clone>(i: &SatInstance<VM>) -> Doc {
    let (pbs, _) = i.clone().into_pbs();
    Doc { nv: 0, cons: pbs.iter().map(pb_con).collect(), objs: vec![] }
}

pub fn doc_of<VM: ManageVars + Clone>(i: &SatInstance<VM>, objs: &[&Objective]) -> Doc {
    let mut d = doc_of_sat(i);
    d.objs = objs.iter().map(|o| obj_of(o)).collect();
    d
}

pub fn assignment(a: u64, nv: usize) -> Assignment {
    let mut s = Assignment::default();
    for v in 0..nv {
        s.assign_var(Var::new(v as u32), TernaryVal::from((a >> v) & 1 == 1));
    }
    s
}

// ------------------------------------------------------------------ generators

pub fn gen_lit(sim: &mut Sim, nv: usize) -> i32 {
    let v = sim.range(1, nv) as i32;
    if sim.coin() {
        -v
    } else {
        v
    }
}

pub fn gen_coef(sim: &mut Sim) -> i64 {
    match sim.weighted(&[8, 4, 2, 1]) {
        0 => sim.irange(1, 4),
        1 => -sim.irange(1, 4),
        2 => sim.irange(5, 1000),
        _ => 0,
    }
}

pub fn gen_con(sim: &mut Sim, nv: usize) -> Con {
    let n = sim.range(0, 5);
    let unit = sim.chance(1, 3);
    let terms: Vec<(i64, i32)> = (0..n)
        .map(|_| {
            let c = if unit { 1 } else { gen_coef(sim) };
            (c, gen_lit(sim, nv))
        })
        .collect();
    let op = *sim.pick(&[Op::Ge, Op::Le, Op::Eq, Op::Lt, Op::Gt]);
    let lo: i64 = terms.iter().map(|t| t.0.min(0)).sum();
    let hi: i64 = terms.iter().map(|t| t.0.max(0)).sum();
    let rhs = lo - 1 + sim.choose((hi - lo + 3) as u64) as i64;
    Con { terms, op, rhs }
}

pub fn lits(c: &[i32]) -> Vec<rustsat::types::Lit> {
    c.iter().map(|&l| lit(l)).collect()
}
