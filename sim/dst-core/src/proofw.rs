//! P17: the proof writer.
//!
//! A history of proof steps is requested from the writer while a model counts constraints and keeps
//! the lines that have to appear. What arrives on the (simulated) device is parsed line by line:
//! constraints are compared by meaning, sequences of operations by evaluating them, identifiers after
//! resolving them against the identifiers a checker would have assigned so far.
use crate::constr::{build_pb, gen_card};
use crate::io::{FaultyWriter, Sink, Trouble};
use crate::model::{gen_con, Con, Op};
use crate::util::lit;
use crate::veripb::{self, Checked, Ineq};
use pigeons::{
    AbsConstraintId, Axiom, Conclusion, ConstraintId, ConstraintLike, Derivation, ObjectiveLike, ObjectiveUpdate, OperationLike,
    OperationSequence, Order, OrderVar, OutputGuarantee, OutputType, Proof, ProofGoal, ProofGoalId, ProofOnlyVar, SubproofElement,
    Substitution, VarLike,
};
use rustsat::instances::Objective;
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Clause, Var};
use simcore::runner::{Prop, Scenario};
use simcore::{bail, ensure, violation, Outcome, Sim, Violation};
use std::cell::RefCell;
use std::io::{self, BufWriter, Write};
use std::rc::Rc;

const PV: i32 = 1_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum V {
    X(Var),
    P(ProofOnlyVar),
}

struct Vf(V);
impl From<V> for Vf {
    fn from(v: V) -> Self {
        Vf(v)
    }
}
impl std::fmt::Display for Vf {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.0 {
            V::X(v) => write!(f, "{}", <Var as VarLike>::Formatter::from(v)),
            V::P(p) => write!(f, "{p}"),
        }
    }
}
impl VarLike for V {
    type Formatter = Vf;
}

fn up(a: Axiom<Var>) -> Axiom<V> {
    V::X(a.var()).axiom(a.is_neg())
}

/// a constraint in one of the forms a user may hand over
#[derive(Clone, Debug)]
enum C {
    Raw(Vec<(isize, Axiom<V>)>, isize),
    Clause(Clause),
    Card(CardConstraint),
    Pb(PbConstraint),
}

impl ConstraintLike<V> for C {
    fn rhs(&self) -> isize {
        match self {
            C::Raw(_, r) => *r,
            C::Clause(c) => ConstraintLike::rhs(c),
            C::Card(c) => ConstraintLike::rhs(c),
            C::Pb(c) => ConstraintLike::rhs(c),
        }
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<V>)> {
        let v: Vec<(isize, Axiom<V>)> = match self {
            C::Raw(t, _) => t.clone(),
            C::Clause(c) => ConstraintLike::sum_iter(c).map(|(k, a)| (k, up(a))).collect(),
            C::Card(c) => ConstraintLike::sum_iter(c).map(|(k, a)| (k, up(a))).collect(),
            C::Pb(c) => ConstraintLike::sum_iter(c).map(|(k, a)| (k, up(a))).collect(),
        };
        v.into_iter()
    }
}

/// a constraint over the variables of an order
#[derive(Clone, Debug)]
struct Oc(Vec<(isize, Axiom<OrderVar<V>>)>, isize);
impl ConstraintLike<OrderVar<V>> for Oc {
    fn rhs(&self) -> isize {
        self.1
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<OrderVar<V>>)> {
        self.0.clone().into_iter()
    }
}

enum Obj {
    Rs(Objective),
    Raw(Vec<(isize, Axiom<V>)>, isize),
}
impl ObjectiveLike<V> for Obj {
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<V>)> {
        let v: Vec<(isize, Axiom<V>)> = match self {
            Obj::Rs(o) => ObjectiveLike::sum_iter(o).map(|(k, a)| (k, up(a))).collect(),
            Obj::Raw(t, _) => t.clone(),
        };
        v.into_iter()
    }
    fn offset(&self) -> isize {
        match self {
            Obj::Rs(o) => ObjectiveLike::offset(o),
            Obj::Raw(_, o) => *o,
        }
    }
}

/// what a line has to consist of
#[derive(Clone, Debug)]
enum Tok {
    /// one of these words
    W(Vec<String>),
    /// a constraint with this meaning
    C(Ineq),
    /// an objective with this meaning (as `sum >= -offset`)
    O(Ineq),
    /// an identifier, absolute or relative to this many constraints
    Id(usize, usize),
    /// operations with the value these have over the first so many constraints
    Pol(String, usize),
    /// words in any order, the same order wherever the same key occurs
    Perm(usize, Vec<(String, String)>),
    /// the rest of the line, literally
    Rest(String),
}

fn w(s: &str) -> Tok {
    Tok::W(vec![s.to_string()])
}
fn ws(s: &str) -> Vec<Tok> {
    s.split_whitespace().map(w).collect()
}
fn key(k: &[&str]) -> Tok {
    Tok::W(k.iter().map(|s| s.to_string()).collect())
}

struct M {
    db: Checked,
    next: usize,
    first: usize,
    pvs: u32,
    nv: usize,
    opt: bool,
    pending: Vec<Vec<Tok>>,
    orders: Vec<Option<Vec<String>>>,
    /// weakening may be part of the history
    weaken: bool,
    /// a line with weakening was not well-formed
    weakened: bool,
}

impl M {
    fn line(&mut self, t: Vec<Tok>) {
        self.pending.push(t);
    }
    fn add(&mut self, c: Ineq) -> usize {
        self.db.push(c);
        self.next += 1;
        self.next - 1
    }
}

fn vname(v: V) -> String {
    match v {
        V::X(v) => format!("x{}", v.idx() + 1),
        V::P(p) => format!("{p}"),
    }
}

fn var(sim: &mut Sim, m: &M) -> V {
    V::X(Var::new(sim.range(0, m.nv - 1) as u32))
}

fn ax(sim: &mut Sim, m: &M, pvs: &[ProofOnlyVar]) -> Axiom<V> {
    let v = if !pvs.is_empty() && sim.chance(1, 4) { V::P(*sim.pick(pvs)) } else { var(sim, m) };
    if sim.coin() {
        v.pos_axiom()
    } else {
        v.neg_axiom()
    }
}

fn num(v: V) -> i32 {
    match v {
        V::X(v) => v.idx() as i32 + 1,
        V::P(p) => PV + format!("{p}")[2..].parse::<i32>().unwrap(),
    }
}

fn alit(a: Axiom<V>) -> i32 {
    if a.is_neg() {
        -num(a.var())
    } else {
        num(a.var())
    }
}

fn aname(a: Axiom<V>) -> String {
    format!("{}{}", if a.is_neg() { "~" } else { "" }, vname(a.var()))
}

fn con_ineq(c: &Con) -> Ineq {
    // only <= and >= are asked for
    let t: Vec<(i128, i32)> = c.terms.iter().map(|(k, l)| (*k as i128, *l)).collect();
    match c.op {
        Op::Ge | Op::Gt => Ineq::of(&t, c.rhs as i128 + i128::from(c.op == Op::Gt)),
        _ => Ineq::of(&t.iter().map(|(k, l)| (-k, *l)).collect::<Vec<_>>(), i128::from(c.op == Op::Lt) - c.rhs as i128),
    }
}

fn constr(sim: &mut Sim, m: &M, pvs: &[ProofOnlyVar]) -> (C, Ineq) {
    match sim.weighted(&[3, 2, 1, 1]) {
        0 => {
            let n = sim.range(0, 4);
            let t: Vec<(isize, Axiom<V>)> = (0..n).map(|_| (sim.irange(-9, 9) as isize, ax(sim, m, pvs))).collect();
            let r = sim.irange(-9, 20) as isize;
            let i = Ineq::of(&t.iter().map(|(k, a)| (*k as i128, alit(*a))).collect::<Vec<_>>(), r as i128);
            (C::Raw(t, r), i)
        }
        1 => {
            let n = sim.range(0, 4);
            let c: Vec<i32> = (0..n).map(|_| alit(ax(sim, m, &[]))).collect();
            let i = Ineq::of(&c.iter().map(|l| (1, *l)).collect::<Vec<_>>(), 1);
            (C::Clause(c.iter().map(|l| lit(*l)).collect()), i)
        }
        2 => loop {
            let (c, k) = gen_card(sim, m.nv);
            if c.op == Op::Eq {
                // there is no way to write an equality as one line
                return constr(sim, m, pvs);
            }
            let i = con_ineq(&c);
            return (C::Card(k), i);
        },
        _ => {
            let c = gen_con(sim, m.nv);
            if c.op == Op::Eq {
                return constr(sim, m, pvs);
            }
            let i = con_ineq(&c);
            (C::Pb(build_pb(sim, &c)), i)
        }
    }
}

/// an existing constraint, named absolutely or relatively
fn id(sim: &mut Sim, next: usize) -> Option<(ConstraintId, usize)> {
    if next == 1 {
        return None;
    }
    let k = if sim.coin() { sim.range(1, next - 1) } else { next - sim.range(1, (next - 1).min(3)) };
    Some(if sim.chance(1, 3) {
        (ConstraintId::last(next - k), k)
    } else if sim.coin() {
        (ConstraintId::abs(k), k)
    } else {
        (AbsConstraintId::new(k).into(), k)
    })
}

fn ids(sim: &mut Sim, next: usize, lo: usize, hi: usize) -> (Vec<ConstraintId>, Vec<Tok>) {
    let n = sim.range(lo, hi);
    let mut a = vec![];
    let mut b = vec![];
    for _ in 0..n {
        if let Some((i, k)) = id(sim, next) {
            a.push(i);
            b.push(Tok::Id(k, next));
        }
    }
    (a, b)
}

/// a random sequence of operations, with the same written down by the model; `None` stands for
/// nothing at all
fn ops(sim: &mut Sim, m: &M, next: usize, pvs: &[ProofOnlyVar], depth: usize, weak: bool) -> (OperationSequence<V>, Option<String>) {
    let leaf = depth == 0 || sim.chance(1, 3);
    if leaf {
        if let Some((i, k)) = if sim.chance(2, 3) { id(sim, next) } else { None } {
            return (i.into(), Some(k.to_string()));
        }
        if sim.chance(1, 12) {
            return (OperationSequence::empty(), None);
        }
        let a = ax(sim, m, pvs);
        return (a.into(), Some(aname(a)));
    }
    match sim.weighted(&[6, 2, 2, 2, 2]) {
        0 => {
            let (l, sl) = ops(sim, m, next, pvs, depth - 1, weak);
            let add = |a: Option<String>, b: Option<String>| match (a, b) {
                (None, x) | (x, None) => x,
                (Some(a), Some(b)) => Some(format!("{a} {b} +")),
            };
            match sim.idx(6) {
                0 => {
                    if let Some((i, k)) = id(sim, next) {
                        return (i + l, add(Some(k.to_string()), sl));
                    }
                    (l, sl)
                }
                1 => {
                    let a = ax(sim, m, pvs);
                    (a + l, add(Some(aname(a)), sl))
                }
                2 => {
                    let a = ax(sim, m, pvs);
                    (l + a, add(sl, Some(aname(a))))
                }
                3 => {
                    let mut l = l;
                    if let Some((i, k)) = id(sim, next) {
                        l += i;
                        return (l, add(sl, Some(k.to_string())));
                    }
                    (l, sl)
                }
                4 => {
                    let (r, sr) = ops(sim, m, next, pvs, depth - 1, weak);
                    let mut l = l;
                    l += r;
                    (l, add(sl, sr))
                }
                _ => {
                    let (r, sr) = ops(sim, m, next, pvs, depth - 1, weak);
                    (l + r, add(sl, sr))
                }
            }
        }
        1 => {
            let (l, sl) = ops(sim, m, next, pvs, depth - 1, weak);
            let k = sim.range(0, 4);
            let s = if k == 0 { None } else { sl.map(|s| format!("{s} {k} *")) };
            match sim.idx(3) {
                0 => (l * k, s),
                1 => (k * l, s),
                _ => {
                    let mut l = l;
                    l *= k;
                    (l, s)
                }
            }
        }
        2 => {
            let (l, sl) = ops(sim, m, next, pvs, depth - 1, weak);
            let k = sim.range(1, 4);
            let s = sl.map(|s| format!("{s} {k} d"));
            if sim.coin() {
                (l / k, s)
            } else {
                let mut l = l;
                l /= k;
                (l, s)
            }
        }
        3 if weak && sim.chance(1, 4) => {
            let (l, sl) = ops(sim, m, next, pvs, depth - 1, weak);
            (l.weaken(), sl.map(|s| format!("{s} w")))
        }
        3 => {
            let (l, sl) = ops(sim, m, next, pvs, depth - 1, weak);
            (l.saturate(), sl.map(|s| format!("{s} s")))
        }
        _ => {
            let a = ax(sim, m, pvs);
            let n = aname(a);
            match sim.idx(4) {
                0 => {
                    let k = sim.range(1, 4);
                    (a * k, Some(format!("{n} {k} *")))
                }
                1 => {
                    let k = sim.range(1, 4);
                    (a / k, Some(format!("{n} {k} d")))
                }
                2 => (a.saturate(), Some(format!("{n} s"))),
                _ => {
                    let b = ax(sim, m, pvs);
                    (a + b, Some(format!("{n} {} +", aname(b))))
                }
            }
        }
    }
}

/// operations that are not empty
fn some_ops(sim: &mut Sim, m: &mut M, next: usize, pvs: &[ProofOnlyVar]) -> (OperationSequence<V>, String) {
    let weak = m.weaken;
    for _ in 0..4 {
        let (o, s) = ops(sim, m, next, pvs, 4, weak);
        if let Some(s) = s {
            return (o, s);
        }
    }
    let a = ax(sim, m, &[]);
    (a.into(), aname(a))
}

fn derivation(sim: &mut Sim, m: &mut M, pvs: &[ProofOnlyVar]) -> Derivation<V, C> {
    let next = m.next;
    if sim.coin() {
        let (c, i) = constr(sim, m, pvs);
        let (h, th) = ids(sim, next, 0, 2);
        let mut t = vec![key(&["rup", "u"]), Tok::C(i.clone()), w(";")];
        t.extend(th);
        m.line(t);
        m.add(i);
        Derivation::Rup(c, h)
    } else {
        let (o, s) = some_ops(sim, m, next, pvs);
        m.line(vec![key(&["pol", "p"]), Tok::Pol(s.clone(), next)]);
        let v = m.db.pol(&s.replace(" w", "")).unwrap_or_default();
        m.add(v);
        Derivation::from(o)
    }
}

fn goal(sim: &mut Sim, m: &mut M, pvs: &[ProofOnlyVar]) -> ProofGoal<V, C> {
    let next = m.next;
    let (gid, tok): (ProofGoalId, Tok) = match if sim.coin() { id(sim, next) } else { None } {
        Some((i, k)) => (i.into(), Tok::Id(k, next)),
        None => {
            let k = sim.range(1, 4);
            (ProofGoalId::specific(k), w(&format!("#{k}")))
        }
    };
    m.line(vec![w("proofgoal"), tok]);
    // the negated goal
    m.add(Ineq::default());
    let n = sim.range(0, 3);
    let d: Vec<_> = (0..n).map(|_| derivation(sim, m, pvs)).collect();
    m.line(vec![w("qed"), Tok::Id(m.next - 1, m.next)]);
    if sim.coin() {
        ProofGoal::new(gid, d)
    } else {
        let mut g = ProofGoal::empty(gid);
        g.extend(d);
        g
    }
}

/// a sub-proof, whose first line ends the line of the step
fn subproof(sim: &mut Sim, m: &mut M, mut head: Vec<Tok>, semi: bool, negated: Ineq, pvs: &[ProofOnlyVar]) -> Vec<SubproofElement<V, C>> {
    if sim.chance(1, 2) {
        m.line(head);
        return vec![];
    }
    if semi {
        head.push(w(";"));
    }
    head.push(w("begin"));
    m.line(head);
    m.add(negated);
    let n = sim.range(1, 3);
    let mut r: Vec<SubproofElement<V, C>> = vec![];
    for _ in 0..n {
        if sim.coin() {
            r.push(derivation(sim, m, pvs).into());
        } else {
            r.push(goal(sim, m, pvs).into());
        }
    }
    m.line(vec![w("end")]);
    r
}

fn subst(sim: &mut Sim, m: &M, pvs: &[ProofOnlyVar]) -> (Vec<Substitution<V>>, Vec<Tok>) {
    let n = sim.range(0, 3);
    let mut r = vec![];
    let mut t = vec![];
    for _ in 0..n {
        let a = ax(sim, m, pvs);
        let v = a.var();
        let b = ax(sim, m, pvs);
        let to = match sim.idx(4) {
            0 => {
                r.push(Substitution::from(a));
                if a.is_neg() { "0".into() } else { "1".into() }
            }
            1 => {
                let x = sim.coin();
                r.push(v.substitute_fixed(x));
                if x { "1".into() } else { "0".into() }
            }
            2 => {
                r.push(v.substitute_literal(!b));
                aname(!b)
            }
            _ => {
                r.push(v.substitute_literal(b));
                aname(b)
            }
        };
        t.extend([w(&vname(v)), w("->"), w(&to)]);
    }
    (r, t)
}

fn objective(sim: &mut Sim, m: &M, pvs: &[ProofOnlyVar]) -> (Obj, Ineq) {
    let n = sim.range(0, 4);
    if sim.coin() {
        let t: Vec<(isize, Axiom<V>)> = (0..n).map(|_| (sim.irange(-9, 9) as isize, ax(sim, m, pvs))).collect();
        let o = if sim.coin() { 0 } else { sim.irange(-20, 20) as isize };
        let i = Ineq::of(&t.iter().map(|(k, a)| (*k as i128, alit(*a))).collect::<Vec<_>>(), -(o as i128));
        (Obj::Raw(t, o), i)
    } else {
        let mut o = Objective::new();
        let mut t = vec![];
        for v in 1..=m.nv as i32 {
            if sim.coin() {
                let l = if sim.coin() { v } else { -v };
                let k = sim.range(1, 9);
                o.add_soft_lit(k, lit(l));
                t.push((k as i128, l));
            }
        }
        let off = if sim.coin() { 0 } else { sim.irange(-20, 20) as isize };
        if off != 0 {
            o.increase_offset(off);
        }
        (Obj::Rs(o), Ineq::of(&t, -(off as i128)))
    }
}

fn lits(sim: &mut Sim, m: &M) -> (Vec<Axiom<V>>, Vec<Tok>) {
    let mut a = vec![];
    for v in 0..m.nv {
        if sim.chance(2, 3) {
            a.push(V::X(Var::new(v as u32)).axiom(sim.coin()));
        }
    }
    let t = a.iter().map(|x| w(&aname(*x))).collect();
    (a, t)
}

fn guarantee(sim: &mut Sim) -> (OutputGuarantee, Vec<Tok>) {
    let (t, s) = if sim.coin() { (OutputType::Implicit, "IMPLICIT") } else { (OutputType::File, "FILE") };
    match sim.idx(4) {
        0 => (OutputGuarantee::None, ws("NONE")),
        1 => (OutputGuarantee::Derivable(t), ws(&format!("DERIVABLE {s}"))),
        2 => (OutputGuarantee::Equisatisfiable(t), ws(&format!("EQUISATISFIABLE {s}"))),
        _ => (OutputGuarantee::Equioptimal(t), ws(&format!("EQUIOPTIMAL {s}"))),
    }
}

/// identifiers are resolved when the line is written, which may be later than now: relative ones are
/// only used where that is the same
fn conclusion(sim: &mut Sim, m: &M, now: bool) -> (Conclusion<V>, Vec<Tok>) {
    let some_id = |sim: &mut Sim| match id(sim, m.next) {
        Some((_, k)) if !now => Some((ConstraintId::abs(k), Tok::Id(k, m.next))),
        Some((i, k)) => Some((i, Tok::Id(k, m.next))),
        None => None,
    };
    match sim.idx(4) {
        0 => (Conclusion::None, ws("NONE")),
        1 => {
            if sim.coin() {
                (Conclusion::Sat(None), ws("SAT"))
            } else {
                let (a, t) = lits(sim, m);
                let mut r = ws("SAT :");
                r.extend(t);
                (Conclusion::Sat(Some(a)), r)
            }
        }
        2 => match if sim.coin() { some_id(sim) } else { None } {
            None => (Conclusion::Unsat(None), ws("UNSAT")),
            Some((i, t)) => {
                let mut r = ws("UNSAT :");
                r.push(t);
                (Conclusion::Unsat(Some(i)), r)
            }
        },
        _ => {
            let lo = sim.irange(-20, 20) as isize;
            let hi = lo + sim.range(0, 9) as isize;
            let mut r = ws(&format!("BOUNDS {lo}"));
            let mut lb_id = None;
            if let Some((i, t)) = if sim.coin() { some_id(sim) } else { None } {
                lb_id = Some(i);
                r.push(w(":"));
                r.push(t);
            }
            r.push(w(&hi.to_string()));
            let mut ub_sol = None;
            if sim.coin() {
                let (a, t) = lits(sim, m);
                r.push(w(":"));
                r.extend(t);
                ub_sol = Some(a);
            }
            (Conclusion::Bounds { range: lo..hi + 1, lb_id, ub_sol }, r)
        }
    }
}

/// a range of identifiers that is not empty: start and end bound, and the identifiers [a, b) meant
fn id_range(sim: &mut Sim, next: usize) -> Option<((std::ops::Bound<ConstraintId>, std::ops::Bound<ConstraintId>), usize, usize)> {
    use std::ops::Bound;
    if next < 2 {
        return None;
    }
    let mut a = sim.range(1, next - 1);
    let mut b = sim.range(a + 1, next);
    let name = |sim: &mut Sim, k: usize| {
        if k < next && k > 0 && sim.chance(1, 3) {
            ConstraintId::last(next - k)
        } else {
            ConstraintId::abs(k)
        }
    };
    let s = match sim.idx(3) {
        0 => {
            a = 1;
            Bound::Unbounded
        }
        1 if a > 1 => Bound::Excluded(name(sim, a - 1)),
        _ => Bound::Included(name(sim, a)),
    };
    let e = match sim.idx(3) {
        0 => {
            b = next;
            Bound::Unbounded
        }
        1 => Bound::Excluded(name(sim, b)),
        _ => Bound::Included(name(sim, b - 1)),
    };
    Some(((s, e), a, b))
}

fn order(sim: &mut Sim, m: &mut M) -> Order<V, Oc> {
    let name = format!("ord{}", m.orders.len());
    let mut o = Order::new(name.clone());
    let n = sim.range(1, m.nv);
    let mut vars: Vec<V> = vec![];
    for k in 0..n {
        let v = V::X(Var::new(k as u32));
        vars.push(v);
        o.use_var(v);
        if sim.chance(1, 4) {
            o.use_var(v);
        }
    }
    let perm = |p: &str, key: usize| Tok::Perm(key, vars.iter().map(|v| (format!("{p}_{}", vname(*v)), vname(*v))).collect());
    let k = m.orders.len();
    m.line(ws(&format!("def_order {name}")));
    m.line(ws("vars"));
    m.line(vec![w("left"), perm("u", k)]);
    m.line(vec![w("right"), perm("v", k)]);
    m.line(ws("aux"));
    m.line(ws("end"));
    m.line(ws("def"));
    let mut oc = |sim: &mut Sim, fresh: bool| {
        let n = sim.range(0, 3);
        let mut t = vec![];
        let mut txt = vec![];
        for _ in 0..n {
            let v = *sim.pick(&vars);
            let (ov, p) = match sim.idx(if fresh { 3 } else { 2 }) {
                0 => (OrderVar::Left(v), "u"),
                1 => (OrderVar::Right(v), "v"),
                _ => (OrderVar::FreshRight(v), "w"),
            };
            let neg = sim.coin();
            let c = sim.irange(-5, 5) as isize;
            t.push((c, ov.axiom(neg)));
            txt.extend(ws(&format!("{c} {}{p}_{}", if neg { "~" } else { "" }, vname(v))));
        }
        let r = sim.irange(-5, 5) as isize;
        txt.extend(ws(&format!(">= {r}")));
        (Oc(t, r), txt)
    };
    let nd = sim.range(0, 3);
    let mut trans: Vec<Vec<Tok>> = vec![];
    let mut refl: Vec<Vec<Tok>> = vec![];
    for d in 1..=nd {
        let (c, t) = oc(sim, false);
        let mut l = t;
        l.push(w(";"));
        m.pending.push(l);
        let mut ders = |sim: &mut Sim, into: &mut Vec<Vec<Tok>>| {
            into.push(ws(&format!("proofgoal #{d}")));
            let n = sim.range(0, 2);
            let mut r: Vec<Derivation<OrderVar<V>, Oc>> = vec![];
            for _ in 0..n {
                if sim.coin() {
                    let (c, t) = oc(sim, true);
                    let mut l = vec![key(&["rup", "u"])];
                    l.extend(t);
                    l.push(w(";"));
                    into.push(l);
                    r.push(Derivation::Rup(c, vec![]));
                } else {
                    let k = sim.range(1, 3);
                    into.push(vec![key(&["pol", "p"]), w(&format!("-{k}")), w("-1"), w("+")]);
                    r.push(Derivation::Operations(OperationSequence::from(ConstraintId::last(k)) + ConstraintId::last(1)));
                }
            }
            into.push(ws("qed -1"));
            r
        };
        let tp = ders(sim, &mut trans);
        let rp = if sim.coin() { Some(ders(sim, &mut refl)) } else { None };
        o.add_definition_constraint(c, tp, rp);
    }
    m.line(ws("end"));
    m.line(ws("transitivity"));
    m.line(ws("vars"));
    m.line(vec![w("fresh_right"), perm("w", k)]);
    m.line(ws("end"));
    m.line(ws("proof"));
    m.pending.extend(trans);
    m.line(ws("qed"));
    m.line(ws("end"));
    if !refl.is_empty() {
        m.line(ws("reflexivity"));
        m.line(ws("proof"));
        m.pending.extend(refl);
        m.line(ws("qed"));
        m.line(ws("end"));
    }
    m.line(ws("end"));
    m.orders.push(None);
    o
}

/// compares the words of a line with what was requested
fn match_line(m: &mut M, want: &[Tok], line: &str) -> Result<(), String> {
    let words: Vec<&str> = line.split_whitespace().collect();
    let mut p = 0;
    for t in want {
        match t {
            Tok::W(alt) => {
                if !words.get(p).is_some_and(|x| alt.iter().any(|a| a == x)) {
                    return Err(format!("word {} should be {:?}", p + 1, alt[0]));
                }
                p += 1;
            }
            Tok::C(i) => {
                let Some(q) = words[p..].iter().position(|x| *x == ">=") else {
                    return Err("there is no constraint".into());
                };
                let end = (p + q + 2).min(words.len());
                let got = veripb::parse_ineq(&words[p..end].join(" "))?;
                if got != *i {
                    return Err(format!("the constraint should mean {i:?}, but it means {got:?}"));
                }
                p = end;
            }
            Tok::O(i) => {
                let q = words[p..].iter().position(|x| *x == ";").ok_or("no ;")?;
                let o = &words[p..p + q];
                let mut s = o.join(" ");
                let off: i64 = if o.len() % 2 == 1 {
                    s = o[..o.len() - 1].join(" ");
                    o[o.len() - 1].parse().map_err(|_| "malformed offset")?
                } else {
                    0
                };
                let got = veripb::parse_ineq(&format!("{s} >= {}", -off))?;
                if got != *i {
                    return Err(format!("the objective should be {i:?}, but it is {got:?}"));
                }
                p += q;
            }
            Tok::Id(k, next) => {
                let got: i64 = words.get(p).and_then(|x| x.parse().ok()).ok_or("there is no identifier")?;
                let got = if got < 0 { *next as i64 + got } else { got };
                if got != *k as i64 {
                    return Err(format!("word {} should refer to constraint {k}, but refers to {got}", p + 1));
                }
                p += 1;
            }
            Tok::Pol(s, next) => {
                let db = Checked { db: m.db.db[..*next].to_vec(), ever: vec![], concluded: false, steps: 0 };
                // weakening is written without its variable (a recorded finding): the rest is compared
                let no_w = |s: &str| s.split_whitespace().filter(|x| *x != "w").collect::<Vec<_>>().join(" ");
                let want = db.pol(&no_w(s)).map_err(|e| format!("model: {e}"))?;
                let text = words[p..].join(" ");
                if s.split(' ').any(|x| x == "w") {
                    m.weakened |= db.pol(&text).is_err();
                }
                let got = db.pol(&if m.weakened { no_w(&text) } else { text })?;
                if got != want {
                    return Err(format!("the operations should give {want:?}, but give {got:?}"));
                }
                p = words.len();
            }
            Tok::Perm(k, names) => {
                let mut v = vec![];
                for x in &words[p..] {
                    let Some((_, b)) = names.iter().find(|(a, _)| a == x) else {
                        return Err(format!("{x:?} is not one of the variables"));
                    };
                    v.push(b.clone());
                }
                let mut s = v.clone();
                s.sort();
                s.dedup();
                if s.len() != names.len() || v.len() != names.len() {
                    return Err("the variables of the order are not listed once each".into());
                }
                match &m.orders[*k] {
                    None => m.orders[*k] = Some(v),
                    Some(o) if *o == v => (),
                    Some(o) => return Err(format!("the variables are listed in another order than {o:?}")),
                }
                p = words.len();
            }
            Tok::Rest(s) => {
                if line != s {
                    return Err(format!("the line should be {s:?}"));
                }
                p = words.len();
            }
        }
    }
    if p != words.len() {
        return Err(format!("there is more on the line than {p} words"));
    }
    Ok(())
}

fn match_all(m: &mut M, text: &str, what: &str) -> Outcome {
    ensure!(text.is_empty() || text.ends_with('\n'), format!("line-unfinished:{what}"), "{what} wrote {text:?}");
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let want = std::mem::take(&mut m.pending);
    for (k, t) in want.iter().enumerate() {
        let Some(l) = lines.get(k) else {
            bail!(format!("line-missing:{what}"), "{what}: line {t:?} is missing in {text:?}");
        };
        if let Err(e) = match_line(m, t, l) {
            bail!(format!("line:{what}"), "{what}: {l:?}: {e}");
        }
    }
    ensure!(lines.len() == want.len(), format!("line-extra:{what}"), "{what} wrote additional lines: {:?}", &lines[want.len()..]);
    Ok(())
}

enum Dst {
    Plain(FaultyWriter),
    Buf(BufWriter<FaultyWriter>),
}
impl Write for Dst {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match self {
            Dst::Plain(f) => f.write(b),
            Dst::Buf(f) => f.write(b),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match self {
            Dst::Plain(f) => f.flush(),
            Dst::Buf(f) => f.flush(),
        }
    }
}

fn hist(sim: &mut Sim) -> Outcome {
    let nv = sim.range(1, 5);
    let n = sim.range(0, 4);
    let opt = sim.coin();
    let trouble = match sim.weighted(&[4, 2, 3]) {
        0 => Trouble::None,
        1 => Trouble::Soft,
        _ => Trouble::Hard(if sim.coin() { sim.range(0, 90) } else { sim.range(0, 900) }),
    };
    let fw = FaultyWriter::new(sim, trouble);
    let sink = fw.sink.clone();
    let buffered = sim.chance(1, 3);
    let dst = if buffered { Dst::Buf(BufWriter::with_capacity(*sim.pick(&[1usize, 16, 200, 8192]), fw)) } else { Dst::Plain(fw) };
    let mut m = M {
        db: Checked::over(&[]),
        next: n + 1,
        first: n + 1,
        pvs: 0,
        nv,
        opt,
        pending: vec![],
        orders: vec![],
        weaken: sim.chance(1, 40),
        weakened: false,
    };
    let mut pvs: Vec<ProofOnlyVar> = vec![];
    for _ in 0..n {
        let (_, i) = constr(sim, &m, &[]);
        m.db.push(i);
    }
    m.line(ws("pseudo-Boolean proof version 2.0"));
    m.line(ws(&format!("f {n}")));
    sim.op("new");
    let mut deflt: (Vec<Tok>, Vec<Tok>) = (ws("NONE"), ws("NONE"));
    sim.panic_ctx = "new".into();
    let proof = if sim.coin() {
        Proof::new(dst, n, opt)
    } else {
        let (g, tg) = guarantee(sim);
        let (c, tc) = conclusion(sim, &m, false);
        deflt = (tg, tc);
        Proof::new_with_conclusion(dst, n, opt, g, &c)
    };
    let mut proof = match proof {
        Ok(p) => std::mem::ManuallyDrop::new(p),
        Err(e) => {
            ensure!(sink.borrow().hard_hit, "error-without-cause", "starting a proof failed with {e}, although the device did not fail");
            sim.nontrivial = true;
            return Ok(());
        }
    };
    let mut seen = 0;
    let settle = |sim: &mut Sim, m: &mut M, seen: &mut usize, what: &str| -> Outcome {
        let text = String::from_utf8_lossy(&sink.borrow().data[*seen..]).into_owned();
        *seen = sink.borrow().data.len();
        sim.ev(&text);
        match_all(m, &text, what)?;
        if std::mem::take(&mut m.weakened) {
            sim.tolerate("weaken:no-variable", format!("{what} wrote an operation `w` without the variable to weaken: {text:?}"))?;
        }
        Ok(())
    };
    if !buffered {
        settle(sim, &mut m, &mut seen, "new")?;
    }
    ensure!(proof.first_proof_id() == AbsConstraintId::new(n + 1), "first-id", "first identifier {} with {n} constraints", proof.first_proof_id());
    let steps = sim.range(0, 10);
    let mut reported = false;
    for _ in 0..steps {
        let (what, r) = step(sim, &mut m, &mut proof, &mut pvs, &mut deflt);
        sim.op(what);
        match r {
            Err(e) => {
                ensure!(sink.borrow().hard_hit, "error-without-cause", "{what} failed with {e}, although the device did not fail");
                reported = true;
                break;
            }
            Ok(None) => (),
            Ok(Some((got, want))) => {
                ensure!(
                    got == AbsConstraintId::new(want),
                    format!("id:{what}"),
                    "{what} returned identifier {got}, but a checker assigns {want}"
                );
            }
        }
        ensure!(
            proof.next_id() == AbsConstraintId::new(m.next),
            format!("next-id:{what}"),
            "after {what} the next identifier is reported as {}, but it is {}",
            proof.next_id(),
            m.next
        );
        ensure!(proof.first_proof_id() == AbsConstraintId::new(m.first), "first-id", "first identifier {}", proof.first_proof_id());
        if !buffered {
            ensure!(!sink.borrow().hard_hit, "error-swallowed", "{what} succeeded, although writing failed");
            settle(sim, &mut m, &mut seen, what)?;
        }
    }
    sim.nontrivial = true;
    let proof = std::mem::ManuallyDrop::into_inner(proof);
    let hit_before = sink.borrow().hard_hit;
    if sim.chance(2, 3) {
        let (g, tg) = guarantee(sim);
        let (c, tc) = conclusion(sim, &m, true);
        end_lines(&mut m, tg, tc);
        sim.op("conclude");
        sim.panic_ctx = "conclude".into();
        match proof.conclude(g, &c) {
            Err(e) => {
                ensure!(sink.borrow().hard_hit, "error-without-cause", "conclude failed with {e}, although the device did not fail");
                return Ok(());
            }
            Ok(wr) => {
                if reported {
                    return Ok(());
                }
                ensure!(
                    !(sink.borrow().hard_hit && !buffered),
                    "error-swallowed",
                    "the proof was reported as concluded, although writing it failed"
                );
                let keep = sink.borrow().data.len();
                drop(wr);
                ensure!(sink.borrow().data.len() == keep, "conclusion-not-written", "data was written after the proof was reported as concluded");
            }
        }
    } else {
        let (tg, tc) = deflt;
        end_lines(&mut m, tg, tc);
        sim.op("drop");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(proof)));
        if let Err(e) = r {
            if sink.borrow().hard_hit {
                return Ok(());
            }
            std::panic::resume_unwind(e);
        }
        if reported {
            return Ok(());
        }
        ensure!(
            hit_before || !sink.borrow().hard_hit || buffered,
            "error-swallowed",
            "the proof was ended by dropping it, and the failing device was not reported"
        );
    }
    settle(sim, &mut m, &mut seen, "end")
}

fn end_lines(m: &mut M, g: Vec<Tok>, c: Vec<Tok>) {
    let mut l = vec![w("output")];
    l.extend(g);
    m.line(l);
    let mut l = vec![w("conclusion")];
    l.extend(c);
    m.line(l);
    m.line(ws("end pseudo-Boolean proof"));
}

type Done = io::Result<Option<(AbsConstraintId, usize)>>;

#[allow(clippy::too_many_lines)]
fn step(sim: &mut Sim, m: &mut M, p: &mut Proof<Dst>, pvs: &mut Vec<ProofOnlyVar>, deflt: &mut (Vec<Tok>, Vec<Tok>)) -> (&'static str, Done) {
    let next = m.next;
    let with = |r: io::Result<AbsConstraintId>, k: usize| r.map(|i| Some((i, k)));
    let none = |r: io::Result<()>| r.map(|()| None);
    let optid = |sim: &mut Sim| if sim.coin() { id(sim, next) } else { None };
    match sim.weighted(&[5, 4, 4, 3, 3, 2, 2, 2, 1, 1, 2, 2, 2, 2, 2, 2, 1, 1, 2, 1, 2, 1, 1, 1, 1]) {
        0 => {
            let (o, s) = some_ops(sim, m, next, pvs);
            sim.panic_ctx = "operations".into();
            m.line(vec![key(&["pol", "p"]), Tok::Pol(s.clone(), next)]);
            let v = m.db.pol(&s.replace(" w", "")).unwrap_or_default();
            let k = m.add(v);
            ("operations", with(p.operations(&o), k))
        }
        1 => {
            let (c, i) = constr(sim, m, pvs);
            let (h, th) = ids(sim, next, 0, 3);
            let mut t = vec![key(&["rup", "u"]), Tok::C(i.clone()), w(";")];
            t.extend(th);
            m.line(t);
            let k = m.add(i);
            sim.panic_ctx = "rup".into();
            ("rup", with(p.reverse_unit_prop(&c, h), k))
        }
        2 | 3 => {
            let dom = sim.chance(1, 3);
            let (c, i) = constr(sim, m, pvs);
            let (s, ts) = subst(sim, m, pvs);
            let mut t = vec![w(if dom { "dom" } else { "red" }), Tok::C(i.clone()), w(";")];
            t.extend(ts);
            let sub = subproof(sim, m, t, true, Ineq::default(), pvs);
            let k = m.add(i);
            sim.panic_ctx = "red".into();
            if dom {
                ("dominated", with(p.dominated(&c, s, sub), k))
            } else {
                ("redundant", with(p.redundant(&c, s, sub), k))
            }
        }
        4 => {
            let (h, th) = ids(sim, next, 1, 3);
            if h.is_empty() {
                return ("nothing", Ok(None));
            }
            let mut t = vec![w("del"), w("id")];
            t.extend(th);
            t.push(w(";"));
            let sub = subproof(sim, m, t, true, Ineq::default(), pvs);
            sim.panic_ctx = "del".into();
            ("delete_ids", none(p.delete_ids(h, sub)))
        }
        5 => {
            let (c, i) = constr(sim, m, pvs);
            m.line(vec![w("del"), w("spec"), Tok::C(i), w(";")]);
            ("delete_constr", none(p.delete_constr::<V, C>(&c)))
        }
        6 | 7 => {
            let Some((r, a, b)) = id_range(sim, next) else {
                return ("nothing", Ok(None));
            };
            let core = sim.coin();
            m.line(vec![w(if core { "core" } else { "del" }), w("range"), Tok::Id(a, next), Tok::Id(b, next)]);
            sim.panic_ctx = "range".into();
            if core {
                ("move_range_to_core", none(p.move_range_to_core(r)))
            } else {
                ("delete_id_range", none(p.delete_id_range(r)))
            }
        }
        8 => {
            let (h, th) = ids(sim, next, 1, 3);
            if h.is_empty() {
                return ("nothing", Ok(None));
            }
            let k = sim.idx(3);
            let mut t = ws(["delc", "deld", "core id"][k]);
            t.extend(th);
            m.line(t);
            match k {
                0 => ("delete_core_ids", none(p.delete_core_ids(h))),
                1 => ("delete_derived_ids", none(p.delete_derived_ids(h))),
                _ => ("move_ids_to_core", none(p.move_ids_to_core(h))),
            }
        }
        9 => {
            if !m.opt {
                return ("nothing", Ok(None));
            }
            let (o, i) = objective(sim, m, pvs);
            if sim.coin() {
                m.line(vec![w("obju"), w("diff"), Tok::O(i), w(";")]);
                ("update_objective", none(p.update_objective(&ObjectiveUpdate::<V, Obj, C>::diff(o))))
            } else {
                m.line(vec![w("obju"), w("new"), Tok::O(i), w(";")]);
                ("update_objective", none(p.update_objective(&ObjectiveUpdate::<V, Obj, C>::new(o, []))))
            }
        }
        10 => {
            if !m.opt {
                return ("nothing", Ok(None));
            }
            let (o, i) = objective(sim, m, pvs);
            m.line(vec![w("eobj"), Tok::O(i), w(";")]);
            ("obj_equals", none(p.obj_equals(&o)))
        }
        11 => {
            let (a, t) = lits(sim, m);
            let k = sim.idx(3);
            let mut l = ws(["sol", "solx", "soli"][k]);
            l.extend(t);
            m.line(l);
            match k {
                0 => ("solution", none(p.solution(a))),
                1 => {
                    let c = Ineq::of(&a.iter().map(|x| (1, -alit(*x))).collect::<Vec<_>>(), 1);
                    let k = m.add(c);
                    ("exclude_solution", with(p.exclude_solution(a), k))
                }
                _ => {
                    let k = m.add(Ineq::default());
                    ("improve_solution", with(p.improve_solution(a), k))
                }
            }
        }
        12 | 13 => {
            let (c, i) = constr(sim, m, pvs);
            let h = optid(sim);
            let k = sim.idx(4);
            let mut t = vec![w(["e", "ea", "i", "ia"][k]), Tok::C(i.clone()), w(";")];
            if let Some((_, k)) = h {
                t.push(Tok::Id(k, next));
            }
            m.line(t);
            let h = h.map(|x| x.0);
            match k {
                0 => ("equals", none(p.equals::<V, C>(&c, h))),
                1 => {
                    let k = m.add(i);
                    ("equals_add", with(p.equals_add::<V, C>(&c, h), k))
                }
                2 => ("implied", none(p.implied::<V, C>(&c, h))),
                _ => {
                    let k = m.add(i);
                    ("implied_add", with(p.implied_add::<V, C>(&c, h), k))
                }
            }
        }
        14 => {
            let v = p.new_proof_var();
            if pvs.contains(&v) {
                return ("new_proof_var", Err(io::Error::other(format!("variable {v} was handed out before"))));
            }
            pvs.push(v);
            m.pvs += 1;
            ("new_proof_var", Ok(None))
        }
        15 => {
            let s = *sim.pick(&["a comment", "# 1", "", "rup 1 x1 >= 1 ;", "del id 1"]);
            m.line(vec![Tok::Rest(format!("* {s}"))]);
            ("comment", none(p.comment(&s)))
        }
        16 => {
            let s = *sim.pick(&["a\nb", "one", "a\r\n\nb\n", ""]);
            for l in s.lines() {
                m.line(vec![Tok::Rest(format!("* {l}"))]);
            }
            ("multiline_comment", none(p.multiline_comment(s)))
        }
        17 => {
            let k = sim.range(0, 9);
            let wipe = sim.coin();
            m.line(ws(&format!("{} {k}", if wipe { "w" } else { "#" })));
            if wipe {
                ("wipe_level", none(p.wipe_level(k)))
            } else {
                ("set_level", none(p.set_level(k)))
            }
        }
        18 => {
            let o = order(sim, m);
            ("define_order", none(p.define_order(&o)))
        }
        19 => {
            let n = sim.range(0, 4);
            let vs: Vec<V> = (0..n).map(|_| var(sim, m)).collect();
            let mut t = ws("load_order abc");
            t.extend(vs.iter().map(|v| w(&vname(*v))));
            m.line(t);
            ("load_order", none(p.load_order("abc", vs)))
        }
        20 => {
            let (g, tg) = guarantee(sim);
            let (c, tc) = conclusion(sim, m, false);
            *deflt = (tg, tc);
            p.update_default_conclusion(g, &c);
            ("update_default_conclusion", Ok(None))
        }
        21 => {
            let b = sim.coin();
            m.line(ws(if b { "strengthening_to_core on" } else { "strengthening_to_core off" }));
            ("strengthening_to_core", none(p.strengthening_to_core(b)))
        }
        22 => {
            let k = sim.range(0, 99);
            m.line(ws(&format!("f {k}")));
            ("verify_num_constraints", none(p.verify_num_constraints(k)))
        }
        23 => {
            let (g, tg) = guarantee(sim);
            let mut t = vec![w("output")];
            t.extend(tg);
            m.line(t);
            ("output", none(p.output(g)))
        }
        _ => {
            let (s, ts) = subst(sim, m, pvs);
            m.line(ts.clone());
            if ts.is_empty() {
                m.pending.pop();
            }
            ("substitute", none(p.substitute(s)))
        }
    }
}

pub fn register(s: &mut Vec<Scenario>, p: &mut Vec<Prop>) {
    s.push(Scenario { prop: "P17", name: "histories of proof steps", weight: 1, f: hist });
    p.push(Prop {
        id: "P17",
        quick_runs: 1_200_000,
        thorough_runs: 5_000_000,
        rule: "runs in which a proof was started, distinct by the hash of the full event trace",
        shape_measure: "distinct sequences of proof steps",
        real: &["pigeons", "rustsat::types (constraints and variables in proofs)", "std::io::BufWriter"],
        stub: &["device the proof is written to (short and interrupted writes, write errors, full device)", "parser and identifier counter of a proof checker"],
        assumptions: &["at most 10 steps, 5 variables, 4 constraints in the formula", "identifiers within sub-proofs are counted as the checker's documentation says: one for the negated constraint, one for each negated goal and one for each derivation"],
    });
}
