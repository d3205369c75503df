//! P32: the Python bindings.
//!
//! A run is a Python program: literals, clauses, CNFs, iterators, variable managers and encodings are
//! created, used and dropped in a random order, in a real interpreter with the real extension module.
//! Every expression is also executed by a model on top of the Rust library, and both results (values
//! or kinds of exceptions) and all states have to agree. Sequences passed in raise errors part-way,
//! contain wrong values, or run other code on the same objects while they are read.
use crate::py::Py;
use rustsat::encodings::am1::{self, Encode as EncAm1};
use rustsat::encodings::card::{self, BoundBothIncremental as _, BoundLowerIncremental as _};
use rustsat::encodings::pb;
use rustsat::encodings::{EncodeStats, EnforceError};
use rustsat::instances::{BasicVarManager, Cnf, ManageVars};
use rustsat::types::{Clause, Lit, Var};
use simcore::runner::{Prop, Scenario};
use simcore::{bail, ensure, Outcome, Sim};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

enum Enc {
    Tot(card::Totalizer),
    Gte(pb::GeneralizedTotalizer),
    Dpw(pb::DynamicPolyWatchdog),
    Add(pb::BinaryAdder),
    Bimander(am1::Bimander),
    Bitwise(am1::Bitwise),
    Commander(am1::Commander),
    Ladder(am1::Ladder),
    Pairwise(am1::Pairwise),
}

const ENCS: [&str; 9] = ["Totalizer", "GeneralizedTotalizer", "DynamicPolyWatchdog", "BinaryAdder", "Bimander", "Bitwise", "Commander", "Ladder", "Pairwise"];

impl Enc {
    fn weighted(k: usize) -> bool {
        (1..=3).contains(&k)
    }
    fn kind(&self) -> usize {
        match self {
            Enc::Tot(_) => 0,
            Enc::Gte(_) => 1,
            Enc::Dpw(_) => 2,
            Enc::Add(_) => 3,
            Enc::Bimander(_) => 4,
            Enc::Bitwise(_) => 5,
            Enc::Commander(_) => 6,
            Enc::Ladder(_) => 7,
            Enc::Pairwise(_) => 8,
        }
    }
    fn new(k: usize, t: &[(Lit, usize)]) -> Enc {
        let l = || t.iter().map(|x| x.0);
        let w = || t.iter().copied();
        match k {
            0 => Enc::Tot(l().collect()),
            1 => Enc::Gte(w().collect()),
            2 => Enc::Dpw(w().collect()),
            3 => Enc::Add(w().collect()),
            4 => Enc::Bimander(l().collect()),
            5 => Enc::Bitwise(l().collect()),
            6 => Enc::Commander(l().collect()),
            7 => Enc::Ladder(l().collect()),
            _ => Enc::Pairwise(l().collect()),
        }
    }
    fn stats(&self) -> &dyn EncodeStats {
        match self {
            Enc::Tot(e) => e,
            Enc::Gte(e) => e,
            Enc::Dpw(e) => e,
            Enc::Add(e) => e,
            Enc::Bimander(e) => e,
            Enc::Bitwise(e) => e,
            Enc::Commander(e) => e,
            Enc::Ladder(e) => e,
            Enc::Pairwise(e) => e,
        }
    }
}

/// a sequence: what is in it and how often it was or may have been modified
struct Seq<T> {
    v: T,
    mods: usize,
    maybe: usize,
}

type ClauseRef = Rc<RefCell<Seq<Clause>>>;
type CnfRef = Rc<RefCell<Seq<Cnf>>>;

#[derive(Clone)]
enum Over {
    Clause(ClauseRef),
    Cnf(CnfRef),
}

struct Iter {
    over: Over,
    mods: usize,
    maybe: usize,
    pos: usize,
}

#[derive(Clone)]
enum Obj {
    Clause(ClauseRef),
    Cnf(CnfRef),
    Vm(Rc<RefCell<BasicVarManager>>),
    Enc(Rc<RefCell<Enc>>),
    Iter(Rc<RefCell<Iter>>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Clause,
    Cnf,
    Vm,
    Enc,
    Iter,
}

impl Obj {
    fn k(&self) -> K {
        match self {
            Obj::Clause(_) => K::Clause,
            Obj::Cnf(_) => K::Cnf,
            Obj::Vm(_) => K::Vm,
            Obj::Enc(_) => K::Enc,
            Obj::Iter(_) => K::Iter,
        }
    }
}

fn seq<T>(v: T) -> Rc<RefCell<Seq<T>>> {
    Rc::new(RefCell::new(Seq { v, mods: 0, maybe: 0 }))
}

fn can_lit(l: Lit) -> String {
    let v = i64::from(l.vidx32()) + 1;
    format!("l{}", if l.is_neg() { -v } else { v })
}
fn can_lits(l: &[Lit]) -> String {
    format!("[{}]", l.iter().map(|l| can_lit(*l)).collect::<Vec<_>>().join(" "))
}
fn can_clause(c: &Clause) -> String {
    format!("({})", c.iter().map(|l| can_lit(*l)).collect::<Vec<_>>().join(" "))
}
fn can_cnf(c: &Cnf) -> String {
    format!("{{{}}}", c.iter().map(can_clause).collect::<Vec<_>>().join(" "))
}
fn bool_(b: bool) -> String {
    if b { "True" } else { "False" }.into()
}

const ARG: [&str; 3] = ["!TypeError", "!ValueError", "!OverflowError"];

/// What an expression may give
#[derive(Clone, Debug)]
enum Want {
    /// exactly this
    Is(String),
    /// one of these, without any effect
    AnyOf(Vec<String>),
}

fn err(e: &str) -> Want {
    Want::AnyOf(vec![format!("!{e}")])
}
fn is(s: impl Into<String>) -> Want {
    Want::Is(s.into())
}

/// What an argument is to the model
#[derive(Clone, Debug)]
enum Arg<T> {
    Good(T),
    /// the call must fail with one of these
    Bad(Vec<String>),
}

impl<T> Arg<T> {
    fn bad(e: &[&str]) -> Arg<T> {
        Arg::Bad(e.iter().map(|e| (*e).to_string()).collect())
    }
}

macro_rules! good {
    ($e:expr) => {
        match $e {
            Arg::Good(x) => x,
            Arg::Bad(e) => return Want::AnyOf(e),
        }
    };
}

type Lits = Vec<Lit>;
type Terms = Vec<(Lit, usize)>;

/// The operations
#[derive(Clone)]
enum Op {
    Lit(Arg<Lit>),
    LitFn(&'static str, Lit, Lit),
    NewClause(usize, Arg<Lits>),
    NewCnf(usize, Arg<Vec<Clause>>),
    NewVm(usize, Arg<u32>),
    NewEnc(usize, usize, Arg<Terms>),
    Copy(usize, usize, Arg<i64>),
    Iter(usize, usize),
    Del(usize),
    Next(usize),
    Rest(usize),
    Len(usize),
    Str(usize),
    Get(usize, Arg<i64>),
    Slice(usize, [Option<i64>; 3]),
    State(usize),
    List(usize),
    Has(usize, Lit),
    Cmp(usize, Option<usize>, bool),
    Unit(usize, bool),
    Add(usize, Arg<Lit>),
    Remove(usize, Lit, bool),
    Extend(usize, Arg<Lits>),
    AddClause(usize, Arg<Clause>),
    AddLits(usize, Vec<Arg<Lit>>),
    Impl(usize, usize, Arg<Lits>, Arg<Lits>),
    Increase(usize, Arg<u32>),
    NewVar(usize),
    NUsed(usize),
    EncExtend(usize, Arg<Terms>),
    Stat(usize, &'static str),
    Encode(usize, usize, usize, Arg<usize>, Arg<usize>),
    EncodeAm1(usize, usize),
    Enforce(usize, usize, Arg<usize>),
    Misuse,
}

const IMPL: [&str; 9] = ["lit_impl_lit", "lit_impl_clause", "lit_impl_cube", "cube_impl_lit", "clause_impl_lit", "cube_impl_clause", "clause_impl_clause", "clause_impl_cube", "cube_impl_cube"];
const SIDES: [&str; 3] = ["ub", "lb", "both"];

struct World {
    objs: BTreeMap<usize, Obj>,
    next: usize,
    /// are there high variables
    big: bool,
    /// weights of the kinds of operations
    focus: [u64; 8],
}

/// an expression with what it means
struct Ex {
    src: String,
    op: Op,
    /// run while the arguments were read
    nested: Option<Box<Ex>>,
    /// object borrowed by the call meanwhile
    recv: Option<usize>,
}

fn l_src(l: Lit) -> String {
    let v = i64::from(l.vidx32()) + 1;
    format!("L({})", if l.is_neg() { -v } else { v })
}

fn slice_positions(len: usize, s: [Option<i64>; 3]) -> Option<Vec<usize>> {
    let len = len as i128;
    let step = i128::from(s[2].unwrap_or(1));
    if step == 0 {
        return None;
    }
    let (lo, hi) = if step < 0 { (-1, len - 1) } else { (0, len) };
    let fix = |x: Option<i64>, d: i128| match x {
        None => d,
        Some(x) => {
            let x = i128::from(x);
            (if x < 0 { x + len } else { x }).clamp(lo, hi)
        }
    };
    let (mut p, end) = if step < 0 { (fix(s[0], hi), fix(s[1], lo)) } else { (fix(s[0], lo), fix(s[1], hi)) };
    let mut out = vec![];
    while if step > 0 { p < end } else { p > end } {
        out.push(p as usize);
        p += step;
    }
    Some(out)
}

impl World {
    fn of(&self, k: K) -> Vec<usize> {
        self.objs.iter().filter(|(_, o)| o.k() == k).map(|(i, _)| *i).collect()
    }
    fn any(&self, sim: &mut Sim, ks: &[K]) -> Option<usize> {
        let v: Vec<usize> = self.objs.iter().filter(|(_, o)| ks.contains(&o.k())).map(|(i, _)| *i).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[sim.idx(v.len())])
        }
    }
    fn clause(&self, i: usize) -> ClauseRef {
        match &self.objs[&i] {
            Obj::Clause(c) => c.clone(),
            _ => unreachable!(),
        }
    }
    fn cnf(&self, i: usize) -> CnfRef {
        match &self.objs[&i] {
            Obj::Cnf(c) => c.clone(),
            _ => unreachable!(),
        }
    }
    fn len(&self, i: usize) -> usize {
        match &self.objs[&i] {
            Obj::Clause(c) => c.borrow().v.len(),
            Obj::Cnf(c) => c.borrow().v.len(),
            _ => 0,
        }
    }
    fn can(&self, i: usize) -> String {
        match &self.objs[&i] {
            Obj::Clause(c) => can_clause(&c.borrow().v),
            Obj::Cnf(c) => can_cnf(&c.borrow().v),
            Obj::Vm(_) => "<VarManager>".into(),
            Obj::Enc(e) => format!("<{}>", ENCS[e.borrow().kind()]),
            Obj::Iter(it) => match &it.borrow().over {
                Over::Clause(_) => "<ClauseIter>".into(),
                Over::Cnf(_) => "<CnfIter>".into(),
            },
        }
    }

    /// Performs the operation on the model
    fn apply(&mut self, op: &Op) -> Want {
        match op.clone() {
            Op::Misuse => Want::AnyOf(vec!["!TypeError".into(), "!AttributeError".into()]),
            Op::Lit(l) => is(can_lit(good!(l))),
            Op::LitFn(f, a, b) => is(match f {
                "neg" => can_lit(!a),
                "str" => format!("\"{a}\""),
                "lt" => bool_(a < b),
                "le" => bool_(a <= b),
                "gt" => bool_(a > b),
                "ge" => bool_(a >= b),
                "eq" => bool_(a == b),
                "ne" => bool_(a != b),
                "hash" => bool_(true),
                _ => {
                    let v = i64::from(a.vidx32()) + 1;
                    let v = if a.is_neg() { -v } else { v };
                    if v.abs() > i64::from(i32::MAX) {
                        // only one of the two has an IPASIR representation
                        return Want::AnyOf(vec!["!OverflowError".into(), "!ValueError".into(), if v == i64::from(i32::MIN) { v.to_string() } else { "!OverflowError".into() }]);
                    }
                    v.to_string()
                }
            }),
            Op::NewClause(n, l) => {
                let c: Clause = good!(l).into_iter().collect();
                let s = can_clause(&c);
                self.objs.insert(n, Obj::Clause(seq(c)));
                is(s)
            }
            Op::NewCnf(n, cls) => {
                let c: Cnf = good!(cls).into_iter().collect();
                let s = can_cnf(&c);
                self.objs.insert(n, Obj::Cnf(seq(c)));
                is(s)
            }
            Op::NewVm(n, used) => {
                let vm = BasicVarManager::from_next_free(Var::new(good!(used)));
                self.objs.insert(n, Obj::Vm(Rc::new(RefCell::new(vm))));
                is("<VarManager>")
            }
            Op::NewEnc(n, k, t) => {
                let e = Enc::new(k, &good!(t));
                self.objs.insert(n, Obj::Enc(Rc::new(RefCell::new(e))));
                is(format!("<{}>", ENCS[k]))
            }
            Op::Copy(n, i, at) => {
                let at = good!(at);
                let c = self.cnf(i);
                let c = &c.borrow().v;
                let at = if at < 0 { at + c.len() as i64 } else { at };
                if at < 0 || at >= c.len() as i64 {
                    return err("IndexError");
                }
                let cl = c[at as usize].clone();
                let s = can_clause(&cl);
                self.objs.insert(n, Obj::Clause(seq(cl)));
                is(s)
            }
            Op::Iter(n, i) => {
                let (over, mods, maybe) = match &self.objs[&i] {
                    Obj::Clause(c) => (Over::Clause(c.clone()), c.borrow().mods, c.borrow().maybe),
                    Obj::Cnf(c) => (Over::Cnf(c.clone()), c.borrow().mods, c.borrow().maybe),
                    _ => unreachable!(),
                };
                let s = if matches!(over, Over::Clause(_)) { "<ClauseIter>" } else { "<CnfIter>" };
                self.objs.insert(n, Obj::Iter(Rc::new(RefCell::new(Iter { over, mods, maybe, pos: 0 }))));
                is(s)
            }
            Op::Del(i) => {
                let s = self.can(i);
                self.objs.remove(&i);
                is(s)
            }
            Op::Next(i) => {
                let Obj::Iter(it) = self.objs[&i].clone() else { unreachable!() };
                let (rest, sure, may) = self.left(&it.borrow());
                match (rest.first(), sure, may) {
                    (Some(_), true, _) => err("RuntimeError"),
                    (None, true, _) => Want::AnyOf(vec!["!RuntimeError".into(), "!StopIteration".into()]),
                    // the caller moves on if the element is given
                    (Some(s), false, true) => Want::AnyOf(vec!["!RuntimeError".into(), s.clone()]),
                    (None, false, true) => Want::AnyOf(vec!["!RuntimeError".into(), "!StopIteration".into()]),
                    (Some(s), false, false) => is(s.clone()),
                    (None, false, false) => err("StopIteration"),
                }
            }
            Op::Rest(i) => {
                let Obj::Iter(it) = self.objs[&i].clone() else { unreachable!() };
                let (rest, sure, may) = self.left(&it.borrow());
                let s = format!("[{}]", rest.join(" "));
                match (sure, may) {
                    (true, _) if rest.is_empty() => Want::AnyOf(vec!["!RuntimeError".into(), s]),
                    (true, _) => err("RuntimeError"),
                    (false, true) => Want::AnyOf(vec!["!RuntimeError".into(), s]),
                    (false, false) => is(s),
                }
            }
            Op::Len(i) => is(self.len(i).to_string()),
            Op::Str(i) => match &self.objs[&i] {
                Obj::Clause(c) => is(format!("\"{}\"", c.borrow().v)),
                Obj::Cnf(c) => is(format!("\"{:?}\"", c.borrow().v)),
                _ => unreachable!(),
            },
            Op::Get(i, at) => {
                let at = good!(at);
                let n = self.len(i) as i64;
                let at = if at < 0 { at + n } else { at };
                if at < 0 || at >= n {
                    return err("IndexError");
                }
                match &self.objs[&i] {
                    Obj::Clause(c) => is(can_lit(c.borrow().v[at as usize])),
                    Obj::Cnf(c) => is(can_clause(&c.borrow().v[at as usize])),
                    _ => unreachable!(),
                }
            }
            Op::Slice(i, s) => {
                let Some(p) = slice_positions(self.len(i), s) else { return err("ValueError") };
                let v: Vec<String> = match &self.objs[&i] {
                    Obj::Clause(c) => p.iter().map(|p| can_lit(c.borrow().v[*p])).collect(),
                    Obj::Cnf(c) => p.iter().map(|p| can_clause(&c.borrow().v[*p])).collect(),
                    _ => unreachable!(),
                };
                is(format!("[{}]", v.join(" ")))
            }
            Op::State(i) => is(self.can(i)),
            Op::List(i) => {
                let s = self.can(i);
                is(format!("[{}]", &s[1..s.len() - 1]))
            }
            Op::Has(i, l) => is(bool_(self.clause(i).borrow().v.iter().any(|x| *x == l))),
            Op::Cmp(i, j, ne) => {
                let eq = match (&self.objs[&i], j.map(|j| &self.objs[&j])) {
                    (Obj::Clause(a), Some(Obj::Clause(b))) => a.borrow().v == b.borrow().v,
                    (Obj::Cnf(a), Some(Obj::Cnf(b))) => a.borrow().v == b.borrow().v,
                    _ => false,
                };
                is(bool_(eq != ne))
            }
            Op::Unit(i, bin) => is(bool_(self.clause(i).borrow().v.len() == if bin { 2 } else { 1 })),
            Op::Add(i, l) => {
                let l = good!(l);
                let c = self.clause(i);
                let mut c = c.borrow_mut();
                c.v.add(l);
                c.mods += 1;
                is("None")
            }
            Op::Remove(i, l, all) => {
                let c = self.clause(i);
                let mut c = c.borrow_mut();
                let r = if all { c.v.remove_thorough(l) } else { c.v.remove(l) };
                if r {
                    c.mods += 1;
                } else {
                    c.maybe += 1;
                }
                is(bool_(r))
            }
            Op::Extend(i, ls) => {
                let ls = good!(ls);
                let c = self.clause(i);
                let mut c = c.borrow_mut();
                if ls.is_empty() {
                    c.maybe += 1;
                } else {
                    c.mods += 1;
                }
                c.v.extend(ls);
                is("None")
            }
            Op::AddClause(i, c) => {
                let c = good!(c);
                let f = self.cnf(i);
                let mut f = f.borrow_mut();
                f.v.add_clause(c);
                f.mods += 1;
                is("None")
            }
            Op::AddLits(i, ls) => {
                let mut v = vec![];
                for l in ls {
                    v.push(good!(l));
                }
                let f = self.cnf(i);
                let mut f = f.borrow_mut();
                f.mods += 1;
                match v[..] {
                    [a] => f.v.add_unit(a),
                    [a, b] => f.v.add_binary(a, b),
                    [a, b, c] => f.v.add_ternary(a, b, c),
                    _ => unreachable!(),
                }
                is("None")
            }
            Op::Impl(i, k, a, b) => {
                let a = good!(a);
                let b = good!(b);
                let f = self.cnf(i);
                let mut f = f.borrow_mut();
                let n = f.v.len();
                match k {
                    0 => f.v.add_lit_impl_lit(a[0], b[0]),
                    1 => f.v.add_lit_impl_clause(a[0], &b),
                    2 => f.v.add_lit_impl_cube(a[0], &b),
                    3 => f.v.add_cube_impl_lit(&a, b[0]),
                    4 => f.v.add_clause_impl_lit(&a, b[0]),
                    5 => f.v.add_cube_impl_clause(&a, &b),
                    6 => f.v.add_clause_impl_clause(&a, &b),
                    7 => f.v.add_clause_impl_cube(&a, &b),
                    _ => f.v.add_cube_impl_cube(&a, &b),
                }
                if f.v.len() == n {
                    f.maybe += 1;
                } else {
                    f.mods += 1;
                }
                is("None")
            }
            Op::Increase(i, n) => {
                let n = good!(n);
                let Obj::Vm(vm) = &self.objs[&i] else { unreachable!() };
                let r = vm.borrow_mut().increase_next_free(Var::new(n));
                // the stubs promise no result
                Want::AnyOf(vec!["None".into(), bool_(r)])
            }
            Op::NewVar(i) => {
                let Obj::Vm(vm) = &self.objs[&i] else { unreachable!() };
                let v = vm.borrow_mut().new_var();
                is((u64::from(v.idx32()) + 1).to_string())
            }
            Op::NUsed(i) => {
                let Obj::Vm(vm) = &self.objs[&i] else { unreachable!() };
                let n = vm.borrow().n_used();
                is(n.to_string())
            }
            Op::EncExtend(i, t) => {
                let t = good!(t);
                let Obj::Enc(e) = &self.objs[&i] else { unreachable!() };
                match &mut *e.borrow_mut() {
                    Enc::Tot(e) => e.extend(t.iter().map(|x| x.0)),
                    Enc::Gte(e) => e.extend(t),
                    Enc::Add(e) => e.extend(t),
                    _ => unreachable!(),
                }
                is("None")
            }
            Op::Stat(i, f) => {
                let Obj::Enc(e) = &self.objs[&i] else { unreachable!() };
                let e = e.borrow();
                is(match f {
                    "n_clauses" => e.stats().n_clauses().to_string(),
                    "n_vars" => e.stats().n_vars().to_string(),
                    "n_lits" => match &*e {
                        Enc::Tot(e) => card::Encode::n_lits(e),
                        Enc::Bimander(e) => e.n_lits(),
                        Enc::Bitwise(e) => e.n_lits(),
                        Enc::Commander(e) => e.n_lits(),
                        Enc::Ladder(e) => e.n_lits(),
                        Enc::Pairwise(e) => e.n_lits(),
                        _ => unreachable!(),
                    }
                    .to_string(),
                    _ => match &*e {
                        Enc::Gte(e) => pb::Encode::weight_sum(e),
                        Enc::Dpw(e) => pb::Encode::weight_sum(e),
                        Enc::Add(e) => pb::Encode::weight_sum(e),
                        _ => unreachable!(),
                    }
                    .to_string(),
                })
            }
            Op::Encode(i, vm, side, a, b) => {
                let r = good!(a)..=good!(b);
                let (Obj::Enc(e), Obj::Vm(vm)) = (&self.objs[&i], &self.objs[&vm]) else { unreachable!() };
                let mut cnf = Cnf::new();
                let c = &mut cnf;
                let vm = &mut *vm.borrow_mut();
                let res = match (&mut *e.borrow_mut(), side) {
                    (Enc::Tot(e), 0) => card::BoundUpperIncremental::encode_ub_change(e, r, c, vm),
                    (Enc::Tot(e), 1) => e.encode_lb_change(r, c, vm),
                    (Enc::Tot(e), _) => e.encode_both_change(r, c, vm),
                    (Enc::Gte(e), _) => pb::BoundUpperIncremental::encode_ub_change(e, r, c, vm),
                    (Enc::Dpw(e), _) => pb::BoundUpperIncremental::encode_ub_change(e, r, c, vm),
                    (Enc::Add(e), 0) => pb::BoundUpperIncremental::encode_ub_change(e, r, c, vm),
                    (Enc::Add(e), 1) => pb::BoundLowerIncremental::encode_lb_change(e, r, c, vm),
                    (Enc::Add(e), _) => pb::BoundBothIncremental::encode_both_change(e, r, c, vm),
                    _ => unreachable!(),
                };
                match res {
                    Ok(()) => is(can_cnf(&cnf)),
                    Err(_) => err("MemoryError"),
                }
            }
            Op::EncodeAm1(i, vm) => {
                let (Obj::Enc(e), Obj::Vm(vm)) = (&self.objs[&i], &self.objs[&vm]) else { unreachable!() };
                let mut c = Cnf::new();
                let vm = &mut *vm.borrow_mut();
                let res = match &mut *e.borrow_mut() {
                    Enc::Bimander(e) => e.encode(&mut c, vm),
                    Enc::Bitwise(e) => e.encode(&mut c, vm),
                    Enc::Commander(e) => e.encode(&mut c, vm),
                    Enc::Ladder(e) => e.encode(&mut c, vm),
                    Enc::Pairwise(e) => e.encode(&mut c, vm),
                    _ => unreachable!(),
                };
                match res {
                    Ok(()) => is(can_cnf(&c)),
                    Err(_) => err("MemoryError"),
                }
            }
            Op::Enforce(i, side, b) => {
                let b = good!(b);
                let Obj::Enc(e) = &self.objs[&i] else { unreachable!() };
                let r = match (&*e.borrow(), side) {
                    (Enc::Tot(e), 0) => card::BoundUpper::enforce_ub(e, b).map_err(|_| EnforceError::NotEncoded),
                    (Enc::Tot(e), 1) => card::BoundLower::enforce_lb(e, b),
                    (Enc::Tot(e), _) => card::BoundBoth::enforce_eq(e, b),
                    (Enc::Gte(e), _) => pb::BoundUpper::enforce_ub(e, b),
                    (Enc::Dpw(e), _) => pb::BoundUpper::enforce_ub(e, b),
                    (Enc::Add(e), 0) => pb::BoundUpper::enforce_ub(e, b),
                    (Enc::Add(e), 1) => pb::BoundLower::enforce_lb(e, b),
                    (Enc::Add(e), _) => pb::BoundBoth::enforce_eq(e, b),
                    _ => unreachable!(),
                };
                match r {
                    Ok(a) => is(can_lits(&a)),
                    Err(EnforceError::NotEncoded) => err("RuntimeError"),
                    Err(EnforceError::Unsat) => err("ValueError"),
                }
            }
        }
    }

    /// remaining elements; is the sequence modified for sure or possibly
    fn left(&self, it: &Iter) -> (Vec<String>, bool, bool) {
        let (all, mods, maybe) = match &it.over {
            Over::Clause(c) => {
                let c = c.borrow();
                (c.v.iter().map(|l| can_lit(*l)).collect::<Vec<_>>(), c.mods, c.maybe)
            }
            Over::Cnf(c) => {
                let c = c.borrow();
                (c.v.iter().map(can_clause).collect(), c.mods, c.maybe)
            }
        };
        (all.into_iter().skip(it.pos).collect(), mods != it.mods, maybe != it.maybe)
    }

    /// after an element was given by the iterator
    fn advance(&self, i: usize, n: usize) {
        if let Obj::Iter(it) = &self.objs[&i] {
            it.borrow_mut().pos += n;
        }
    }

    fn gen_lit(&self, sim: &mut Sim) -> Lit {
        let v = sim.range(1, 6) as i32;
        Lit::from_ipasir(if sim.coin() { v } else { -v }).unwrap()
    }

    fn lit_arg(&self, sim: &mut Sim) -> (String, Arg<Lit>) {
        if sim.chance(1, 25) {
            sim.fault("argument of the wrong type");
            return ((*sim.pick(&["3", "None", "'a'", "[L(1)]", "C([L(1)])"])).to_string(), Arg::bad(&["!TypeError"]));
        }
        let l = self.gen_lit(sim);
        (l_src(l), Arg::Good(l))
    }

    /// Wraps the items as one of the kinds of sequences
    fn sequence(&self, sim: &mut Sim, items: Vec<String>, recv: Option<usize>, depth: usize) -> (String, Option<Vec<String>>, Option<Box<Ex>>) {
        let list = items.join(", ");
        match sim.weighted(&[14, 3, 2, if depth == 0 { 4 } else { 0 }]) {
            0 => (format!("[{list}]"), None, None),
            1 if items.len() == 1 => (format!("({list},)"), None, None),
            1 => (format!("({list})"), None, None),
            2 => {
                // sequence implemented in Python, possibly with a wrong or no length
                let size = match sim.idx(4) {
                    0 => ", 0".to_string(),
                    1 => ", -1".to_string(),
                    2 => format!(", {}", items.len() + 3),
                    _ => String::new(),
                };
                if !size.is_empty() {
                    sim.fault("sequence with a wrong length");
                }
                (format!("S([{list}], -1, None{size})"), None, None)
            }
            _ => {
                let at = sim.idx(items.len() + 1);
                if sim.coin() {
                    sim.fault("sequence raises an error");
                    (format!("S([{list}], {at}, None)"), Some(vec!["!Stop".into()]), None)
                } else {
                    sim.fault("other code runs while a sequence is read");
                    let inner = self.gen(sim, 1, recv);
                    match inner {
                        Some(ex) => (format!("S([{list}], {at}, {:?})", ex.src), None, Some(Box::new(ex))),
                        None => (format!("[{list}]"), None, None),
                    }
                }
            }
        }
    }

    fn lits_arg(&self, sim: &mut Sim, recv: Option<usize>, depth: usize) -> (String, Arg<Lits>, Option<Box<Ex>>) {
        if sim.chance(1, 25) {
            sim.fault("argument of the wrong type");
            return ((*sim.pick(&["3", "None", "'ab'", "L(1)", "{L(1)}", "iter([L(1)])"])).to_string(), Arg::bad(&["!TypeError"]), None);
        }
        let n = sim.idx(5);
        let ls: Lits = (0..n).map(|_| self.gen_lit(sim)).collect();
        let mut items: Vec<String> = ls.iter().map(|l| l_src(*l)).collect();
        let mut bad = None;
        if sim.chance(1, 12) {
            sim.fault("wrong value in a sequence");
            let at = sim.idx(n + 1);
            items.insert(at, (*sim.pick(&["3", "None", "'a'", "(L(1), 1)", "C([])"])).to_string());
            bad = Some(ARG.iter().map(|s| (*s).to_string()).collect::<Vec<_>>());
        }
        let (src, stop, ex) = self.sequence(sim, items, recv, depth);
        let arg = match (bad, stop) {
            (None, None) => Arg::Good(ls),
            // whichever comes first
            (b, s) => Arg::Bad(b.into_iter().flatten().chain(s.into_iter().flatten()).collect()),
        };
        (src, arg, ex)
    }

    fn terms_arg(&self, sim: &mut Sim, recv: Option<usize>, depth: usize, distinct: bool) -> (String, Arg<Terms>, Option<Box<Ex>>) {
        if sim.chance(1, 25) {
            sim.fault("argument of the wrong type");
            return ((*sim.pick(&["3", "None", "'ab'", "L(1)"])).to_string(), Arg::bad(&["!TypeError"]), None);
        }
        let n = sim.idx(5);
        let mut t: Terms = vec![];
        for _ in 0..n {
            let l = self.gen_lit(sim);
            if distinct && t.iter().any(|x| x.0.var() == l.var()) {
                continue;
            }
            t.push((l, sim.range(1, 7)));
        }
        let mut items: Vec<String> = t.iter().map(|(l, w)| format!("({}, {w})", l_src(*l))).collect();
        let mut bad = None;
        if sim.chance(1, 12) {
            sim.fault("wrong value in a sequence");
            let at = sim.idx(items.len() + 1);
            let p = *sim.pick(&["(L(1), -1)", "(L(1), 2**64)", "(L(1),)", "(L(1), 1, 2)", "L(1)", "None", "(1, 1)", "(L(1), 'a')", "(L(1), 1.5)", "[L(1), 1]"]);
            items.insert(at, p.to_string());
            bad = Some(ARG.iter().map(|s| (*s).to_string()).collect::<Vec<_>>());
        }
        let (src, stop, ex) = self.sequence(sim, items, recv, depth);
        let arg = match (bad, stop) {
            (None, None) => Arg::Good(t),
            (b, s) => Arg::Bad(b.into_iter().flatten().chain(s.into_iter().flatten()).collect()),
        };
        (src, arg, ex)
    }

    fn int_arg<T>(&self, sim: &mut Sim, good: i64, max: u64, f: impl Fn(i64) -> T) -> (String, Arg<T>) {
        if sim.chance(1, 20) {
            sim.fault("number out of range");
            return match sim.idx(4) {
                0 => ("-1".into(), Arg::bad(&["!OverflowError", "!ValueError"])),
                1 => (format!("{}", u128::from(max) + 1 + sim.choose(3) as u128), Arg::bad(&["!OverflowError", "!ValueError"])),
                2 => ("2**70".into(), Arg::bad(&["!OverflowError", "!ValueError"])),
                _ => ((*sim.pick(&["1.5", "None", "'1'"])).to_string(), Arg::bad(&["!TypeError"])),
            };
        }
        (good.to_string(), Arg::Good(f(good)))
    }

    fn idx_arg(&self, sim: &mut Sim, n: usize) -> (String, Arg<i64>) {
        match sim.weighted(&[12, 1, 1]) {
            0 => {
                let i = sim.irange(-(n as i64) - 2, n as i64 + 1);
                (i.to_string(), Arg::Good(i))
            }
            1 => {
                sim.fault("number out of range");
                (*sim.pick(&[("2**40", Arg::bad(&["!IndexError"])), ("-2**40", Arg::bad(&["!IndexError"])), ("2**63-1", Arg::bad(&["!IndexError"])), ("-2**63", Arg::bad(&["!IndexError"]))]))
                    .clone()
                    .into_owned()
            }
            _ => {
                sim.fault("argument of the wrong type");
                ((*sim.pick(&["'a'", "None", "1.5", "L(1)"])).to_string(), Arg::bad(&["!TypeError"]))
            }
        }
    }

    /// Generates an expression. `depth` 1: run while another call on `recv` reads its arguments
    fn gen(&self, sim: &mut Sim, depth: usize, recv: Option<usize>) -> Option<Ex> {
        let ex = |src: String, op: Op| Some(Ex { src, op, nested: None, recv: None });
        let n = self.next + depth;
        let prefer = recv.filter(|_| sim.chance(2, 3));
        let obj = |sim: &mut Sim, ks: &[K]| match prefer {
            Some(i) if self.objs.get(&i).is_some_and(|o| ks.contains(&o.k())) => Some(i),
            _ => self.any(sim, ks),
        };
        let new = |sim: &mut Sim| {
            if depth > 0 {
                return 4;
            }
            // what is missing first
            let need = |k: K, w: u64, have: u64| if self.of(k).is_empty() { w } else { have };
            let enc = self.focus[5] > 9;
            sim.weighted(&[need(K::Clause, if enc { 1 } else { 8 }, 1), need(K::Cnf, if enc { 1 } else { 6 }, 3), need(K::Vm, 8, 1), need(K::Enc, if self.focus[5] == 0 { 0 } else { 8 }, self.focus[5].min(3)), 30])
        };
        match new(sim) {
            0 => {
                let (src, a, nested) = self.lits_arg(sim, None, depth);
                let (src, a, nested) = if sim.chance(1, 8) { ("[]".into(), Arg::Good(vec![]), None) } else { (src, a, nested) };
                return Some(Ex { src: format!("(o{n} := C({src}))"), op: Op::NewClause(n, a), nested, recv: None });
            }
            1 => {
                if sim.coin() {
                    // an iterator
                    let i = self.any(sim, &[K::Clause, K::Cnf])?;
                    return ex(format!("(o{n} := iter(o{i}))"), Op::Iter(n, i));
                }
                if sim.coin() {
                    let i = self.any(sim, &[K::Cnf])?;
                    let (s, a) = self.idx_arg(sim, self.len(i));
                    return ex(format!("(o{n} := o{i}[{s}])"), Op::Copy(n, i, a));
                }
                if sim.chance(1, 4) {
                    return ex(format!("(o{n} := F())"), Op::NewCnf(n, Arg::Good(vec![])));
                }
                let cls = self.of(K::Clause);
                let mut items = vec![];
                let mut v = vec![];
                for _ in 0..sim.idx(4) {
                    if !cls.is_empty() && sim.coin() {
                        let i = cls[sim.idx(cls.len())];
                        items.push(format!("o{i}"));
                        v.push(self.clause(i).borrow().v.clone());
                    } else {
                        let c: Clause = (0..sim.idx(4)).map(|_| self.gen_lit(sim)).collect();
                        items.push(format!("C([{}])", c.iter().map(|l| l_src(*l)).collect::<Vec<_>>().join(", ")));
                        v.push(c);
                    }
                }
                let mut a = Arg::Good(v);
                if sim.chance(1, 12) {
                    sim.fault("wrong value in a sequence");
                    items.insert(sim.idx(items.len() + 1), (*sim.pick(&["3", "None", "[L(1)]", "L(1)"])).to_string());
                    a = Arg::bad(&ARG);
                }
                let (src, stop, nested) = if matches!(a, Arg::Good(_)) { self.sequence(sim, items, Some(usize::MAX), 1) } else { (format!("[{}]", items.join(", ")), None, None) };
                if let Some(s) = stop {
                    a = Arg::Bad(s);
                }
                return Some(Ex { src: format!("(o{n} := F({src}))"), op: Op::NewCnf(n, a), nested, recv: None });
            }
            2 => {
                if sim.chance(1, 4) {
                    return ex(format!("(o{n} := V())"), Op::NewVm(n, Arg::Good(0)));
                }
                let k = if self.big && sim.chance(1, 6) { sim.irange(0, 1 << 30) } else { sim.irange(0, 9) };
                let (s, a) = self.int_arg(sim, k, u64::from(Var::MAX_IDX), |k| k as u32);
                let kw = if sim.coin() { "n_used=" } else { "" };
                return ex(format!("(o{n} := V({kw}{s}))"), Op::NewVm(n, a));
            }
            3 => {
                let k = sim.idx(9);
                if sim.chance(1, 12) {
                    return ex(format!("(o{n} := {}())", ENCS[k]), Op::NewEnc(n, k, Arg::Good(vec![])));
                }
                let (src, a, nested) = if Enc::weighted(k) {
                    self.terms_arg(sim, None, depth, k == 2)
                } else {
                    let (s, a, e) = self.lits_arg(sim, None, depth);
                    let a = match a {
                        Arg::Good(l) => Arg::Good(l.into_iter().map(|l| (l, 1)).collect()),
                        Arg::Bad(e) => Arg::Bad(e),
                    };
                    (s, a, e)
                };
                return Some(Ex { src: format!("(o{n} := {}({src}))", ENCS[k]), op: Op::NewEnc(n, k, a), nested, recv: None });
            }
            _ => {}
        }
        match sim.weighted(&self.focus) {
            // literals
            0 => {
                if sim.coin() {
                    let (s, a): (String, Arg<Lit>) = match sim.idx(4) {
                        0 => {
                            let l = self.gen_lit(sim);
                            (l_src(l), Arg::Good(l))
                        }
                        1 => ((*sim.pick(&["L(0)", "L(2**31)", "L(-2**31-1)", "L(2**70)"])).to_string(), Arg::bad(&["!ValueError", "!OverflowError"])),
                        2 => ((*sim.pick(&["L('1')", "L(None)", "L(1.5)", "L()", "L(1, 2)"])).to_string(), Arg::bad(&["!TypeError"])),
                        _ => {
                            let v = i32::MAX - sim.range(0, 2) as i32;
                            let v = if sim.coin() { v } else { -v };
                            (format!("L({v})"), Arg::Good(Lit::from_ipasir(v).unwrap()))
                        }
                    };
                    return ex(s, Op::Lit(a));
                }
                let (a, b) = (self.gen_lit(sim), self.gen_lit(sim));
                let b = if sim.chance(1, 3) { a } else { b };
                let (x, y) = (l_src(a), l_src(b));
                let f = *sim.pick(&["neg", "str", "repr", "lt", "le", "gt", "ge", "eq", "ne", "hash", "ipasir"]);
                if f == "ipasir" {
                    let a = if sim.chance(1, 4) { Var::new(Var::MAX_IDX - sim.range(0, 1) as u32).lit(sim.coin()) } else { a };
                    let x = if a.vidx32() == Var::MAX_IDX { if a.is_neg() { "L(-2**31)".to_string() } else { "(-L(-2**31))".into() } } else { l_src(a) };
                    return ex(format!("{x}.to_ipasir()"), Op::LitFn("ipasir", a, b));
                }
                let src = match f {
                    "neg" => format!("-{x}"),
                    "str" => format!("str({x})"),
                    "repr" => format!("repr({x})"),
                    "lt" => format!("{x} < {y}"),
                    "le" => format!("{x} <= {y}"),
                    "gt" => format!("{x} > {y}"),
                    "ge" => format!("{x} >= {y}"),
                    "eq" => format!("{x} == {y}"),
                    "ne" => format!("{x} != {y}"),
                    _ => format!("hash({x}) == hash({x}) and len({{{x}, {x}}}) == 1 and len({{{x}, -{x}}}) == 2"),
                };
                ex(src, Op::LitFn(if f == "repr" { "str" } else { f }, a, b))
            }
            // clauses
            1 => {
                let i = obj(sim, &[K::Clause])?;
                match sim.weighted(&[4, 3, 2, 5, 1, 1, 2, 2]) {
                    0 => {
                        let (s, a) = self.lit_arg(sim);
                        ex(format!("o{i}.add({s})"), Op::Add(i, a))
                    }
                    1 => {
                        let l = self.gen_lit(sim);
                        ex(format!("o{i}.remove({})", l_src(l)), Op::Remove(i, l, false))
                    }
                    2 => {
                        let l = self.gen_lit(sim);
                        ex(format!("o{i}.remove_thorough({})", l_src(l)), Op::Remove(i, l, true))
                    }
                    3 => {
                        let (s, a, nested) = self.lits_arg(sim, Some(i), depth);
                        Some(Ex { src: format!("o{i}.extend({s})"), op: Op::Extend(i, a), nested, recv: Some(i) })
                    }
                    4 => ex(format!("o{i}.is_unit()"), Op::Unit(i, false)),
                    5 => ex(format!("o{i}.is_binary()"), Op::Unit(i, true)),
                    6 => {
                        let l = self.gen_lit(sim);
                        ex(format!("{} in o{i}", l_src(l)), Op::Has(i, l))
                    }
                    _ => {
                        let (j, op) = (self.any(sim, &[K::Clause, K::Cnf]), sim.coin());
                        let j = j.filter(|_| !sim.chance(1, 8));
                        let j_src = j.map_or("3".to_string(), |j| format!("o{j}"));
                        ex(format!("o{i} {} {j_src}", if op { "!=" } else { "==" }), Op::Cmp(i, j, op))
                    }
                }
            }
            // CNFs
            2 => {
                let i = obj(sim, &[K::Cnf])?;
                match sim.weighted(&[3, 3, 8, 2]) {
                    0 => {
                        let j = self.any(sim, &[K::Clause]);
                        match j {
                            Some(j) if !sim.chance(1, 10) => ex(format!("o{i}.add_clause(o{j})"), Op::AddClause(i, Arg::Good(self.clause(j).borrow().v.clone()))),
                            _ => {
                                sim.fault("argument of the wrong type");
                                ex(format!("o{i}.add_clause({})", sim.pick(&["[L(1)]", "None", "L(1)", "F()"])), Op::AddClause(i, Arg::bad(&["!TypeError"])))
                            }
                        }
                    }
                    1 => {
                        let n = sim.range(1, 3);
                        let a: Vec<(String, Arg<Lit>)> = (0..n).map(|_| self.lit_arg(sim)).collect();
                        let (s, v): (Vec<String>, Vec<Arg<Lit>>) = a.into_iter().unzip();
                        ex(format!("o{i}.add_{}({})", ["unit", "binary", "ternary"][n - 1], s.join(", ")), Op::AddLits(i, v))
                    }
                    2 => {
                        let k = sim.idx(9);
                        let side = |sim: &mut Sim, lit: bool, d: usize| -> (String, Arg<Lits>, Option<Box<Ex>>) {
                            if lit {
                                let (s, a) = self.lit_arg(sim);
                                let a = match a {
                                    Arg::Good(l) => Arg::Good(vec![l]),
                                    Arg::Bad(e) => Arg::Bad(e),
                                };
                                (s, a, None)
                            } else {
                                self.lits_arg(sim, Some(i), d)
                            }
                        };
                        let (s, a, n1) = side(sim, k < 3, depth);
                        // an error in one of them may come first
                        let safe = matches!(a, Arg::Good(_)) && n1.is_none();
                        let (t, b, n2) = side(sim, [0, 3, 4].contains(&k), if safe { depth } else { 1 });
                        let (a, b) = match (a, b) {
                            (Arg::Bad(mut x), Arg::Bad(y)) => {
                                x.extend(y);
                                (Arg::Bad(x), Arg::Good(vec![]))
                            }
                            x => x,
                        };
                        Some(Ex { src: format!("o{i}.add_{}({s}, {t})", IMPL[k]), op: Op::Impl(i, k, a, b), nested: n1.or(n2), recv: Some(i) })
                    }
                    _ => {
                        let (j, op) = (self.any(sim, &[K::Clause, K::Cnf])?, sim.coin());
                        ex(format!("o{i} {} o{j}", if op { "!=" } else { "==" }), Op::Cmp(i, Some(j), op))
                    }
                }
            }
            // variable managers
            3 => {
                let i = obj(sim, &[K::Vm])?;
                match sim.idx(3) {
                    0 => {
                        let k = sim.irange(0, 30);
                        let (s, a) = self.int_arg(sim, k, u64::from(Var::MAX_IDX), |k| k as u32);
                        ex(format!("o{i}.increase_used({s})"), Op::Increase(i, a))
                    }
                    1 => ex(format!("o{i}.new_var()"), Op::NewVar(i)),
                    _ => ex(format!("o{i}.n_used()"), Op::NUsed(i)),
                }
            }
            // reading sequences, iterators
            4 => match sim.weighted(&[6, 4, 3, 2, 2, 1, 2]) {
                0 => {
                    let i = obj(sim, &[K::Iter])?;
                    ex(format!("next(o{i})"), Op::Next(i))
                }
                1 => {
                    let i = obj(sim, &[K::Clause, K::Cnf])?;
                    let (s, a) = self.idx_arg(sim, self.len(i));
                    ex(format!("o{i}[{s}]"), Op::Get(i, a))
                }
                2 => {
                    let i = obj(sim, &[K::Clause, K::Cnf])?;
                    let n = self.len(i) as i64;
                    let part = |sim: &mut Sim, step: bool| match sim.weighted(&[3, 6, 1]) {
                        0 => None,
                        1 if step => Some(sim.irange(-3, 3)),
                        1 => Some(sim.irange(-n - 2, n + 2)),
                        _ => Some(*sim.pick(&[i64::MAX, i64::MIN + 1, 1 << 40, -(1 << 40)])),
                    };
                    let p = [part(sim, false), part(sim, false), part(sim, true)];
                    let s: Vec<String> = p.iter().map(|p| p.map_or(String::new(), |p| p.to_string())).collect();
                    ex(format!("o{i}[{}]", s.join(":")), Op::Slice(i, p))
                }
                3 => {
                    let i = obj(sim, &[K::Clause, K::Cnf])?;
                    ex(format!("len(o{i})"), Op::Len(i))
                }
                4 => {
                    let i = obj(sim, &[K::Clause, K::Cnf])?;
                    ex(format!("[x for x in o{i}]"), Op::List(i))
                }
                5 => {
                    let i = obj(sim, &[K::Iter])?;
                    ex(format!("list(o{i})"), Op::Rest(i))
                }
                _ => {
                    let i = obj(sim, &[K::Clause, K::Cnf])?;
                    if sim.chance(1, 3) {
                        let cnf = self.objs[&i].k() == K::Cnf;
                        return ex(format!("{}(o{i})", if cnf || sim.coin() { "repr" } else { "str" }), Op::Str(i));
                    }
                    ex(format!("o{i}"), Op::State(i))
                }
            },
            // encodings
            5 => {
                let i = obj(sim, &[K::Enc])?;
                let Obj::Enc(e) = &self.objs[&i] else { unreachable!() };
                let (k, sum) = {
                    let e = e.borrow();
                    let sum = match &*e {
                        Enc::Tot(e) => card::Encode::n_lits(e),
                        Enc::Gte(e) => pb::Encode::weight_sum(e),
                        Enc::Dpw(e) => pb::Encode::weight_sum(e),
                        Enc::Add(e) => pb::Encode::weight_sum(e),
                        _ => 0,
                    };
                    (e.kind(), sum)
                };
                match sim.weighted(&[2, 2, 6, 4]) {
                    0 => {
                        let f: &'static str = match sim.idx(3) {
                            0 => "n_clauses",
                            1 => "n_vars",
                            _ if Enc::weighted(k) => "weight_sum",
                            _ => "n_lits",
                        };
                        ex(format!("o{i}.{f}()"), Op::Stat(i, f))
                    }
                    1 if [0, 1, 3].contains(&k) => {
                        let (src, a, nested) = if Enc::weighted(k) {
                            self.terms_arg(sim, Some(i), depth, false)
                        } else {
                            let (s, a, e) = self.lits_arg(sim, Some(i), depth);
                            let a = match a {
                                Arg::Good(l) => Arg::Good(l.into_iter().map(|l| (l, 1)).collect()),
                                Arg::Bad(e) => Arg::Bad(e),
                            };
                            (s, a, e)
                        };
                        Some(Ex { src: format!("o{i}.extend({src})"), op: Op::EncExtend(i, a), nested, recv: Some(i) })
                    }
                    3 if k <= 3 => {
                        let side = if k == 0 || k == 3 { sim.idx(3) } else { 0 };
                        let b = sim.irange(0, sum as i64 + 2);
                        let (s, a) = self.int_arg(sim, b, u64::MAX, |b| b as usize);
                        ex(format!("o{i}.enforce_{}({s})", ["ub", "lb", "eq"][side]), Op::Enforce(i, side, a))
                    }
                    _ if k <= 3 => {
                        let vm = self.any(sim, &[K::Vm])?;
                        let side = if k == 0 || k == 3 { sim.idx(3) } else { 0 };
                        let a = sim.irange(0, sum as i64 + 1);
                        let b = sim.irange(a, sum as i64 + 2);
                        if sim.chance(1, 25) {
                            sim.fault("argument of the wrong type");
                            return ex(format!("o{i}.encode_{}({a}, {b}, {})", SIDES[side], sim.pick(&["None", "3", "F()"])), Op::Encode(i, vm, side, Arg::bad(&["!TypeError"]), Arg::Good(0)));
                        }
                        let (s, a) = self.int_arg(sim, a, u64::MAX, |b| b as usize);
                        let (t, b) = self.int_arg(sim, b, u64::MAX, |b| b as usize);
                        let (a, b) = match (a, b) {
                            (Arg::Bad(mut x), Arg::Bad(y)) => {
                                x.extend(y);
                                (Arg::Bad(x), Arg::Good(0))
                            }
                            x => x,
                        };
                        let src = match sim.idx(3) {
                            0 => format!("o{i}.encode_{}({s}, {t}, var_manager=o{vm})", SIDES[side]),
                            _ => format!("o{i}.encode_{}({s}, {t}, o{vm})", SIDES[side]),
                        };
                        ex(src, Op::Encode(i, vm, side, a, b))
                    }
                    _ => {
                        let vm = self.any(sim, &[K::Vm])?;
                        if k <= 3 {
                            return None;
                        }
                        ex(format!("o{i}.encode(o{vm})"), Op::EncodeAm1(i, vm))
                    }
                }
            }
            6 => {
                if depth > 0 {
                    return None;
                }
                let i = self.any(sim, &[K::Clause, K::Cnf, K::Vm, K::Enc, K::Iter])?;
                ex(format!("ENV.pop('o{i}')").replace("ENV", "globals()"), Op::Del(i))
            }
            _ => {
                sim.fault("call that does not exist");
                let i = self.any(sim, &[K::Clause, K::Cnf, K::Vm, K::Enc, K::Iter])?;
                let s = *sim.pick(&["frobnicate()", "_x", "extend()", "encode()", "add()", "new_var(1)", "encode_ub(1)", "__len__(2)", "is_unit(3)"]);
                ex(format!("o{i}.{s}"), Op::Misuse)
            }
        }
    }
}

trait IntoOwned<T> {
    fn into_owned(self) -> T;
}
impl IntoOwned<(String, Arg<i64>)> for (&str, Arg<i64>) {
    fn into_owned(self) -> (String, Arg<i64>) {
        (self.0.to_string(), self.1)
    }
}

/// a name for an operation, to count them
fn name(src: &str) -> String {
    let s: String = src.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
    let s = s.split_once(":= ").map_or(s.as_str(), |x| x.1);
    if let Some((a, b)) = s.split_once('.') {
        let b: String = b.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        if a.len() < 5 {
            return b;
        }
    }
    s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}

/// Compares what Python said with the model, which performs the operation
fn judge(sim: &mut Sim, w: &mut World, ex: &Ex, got: &str, hist: &[String]) -> Result<bool, simcore::Violation> {
    let want = match catch_unwind(AssertUnwindSafe(|| w.apply(&ex.op))) {
        Ok(x) => x,
        Err(_) => {
            // the Rust interface does not allow this either
            let _ = simcore::runner::take_panic();
            sim.probe("the Rust call panics");
            return Ok(false);
        }
    };
    let ok = match &want {
        Want::Is(s) => s == got,
        Want::AnyOf(v) => v.iter().any(|s| s == got),
    };
    if !ok {
        let class = match (got.strip_prefix('!'), &want) {
            (Some(e), _) => format!("py:raises-{e}:{}", name(&ex.src)),
            (None, Want::AnyOf(v)) if v.iter().all(|s| s.starts_with('!')) => format!("py:accepted:{}", name(&ex.src)),
            _ => format!("py:result:{}", name(&ex.src)),
        };
        bail!(class, "{} gives {got} instead of {want:?}, after\n{}", ex.src, hist.join("\n"));
    }
    if !got.starts_with('!') {
        match ex.op {
            Op::Next(i) => w.advance(i, 1),
            Op::Rest(i) => {
                let Obj::Iter(it) = w.objs[&i].clone() else { unreachable!() };
                let n = w.left(&it.borrow()).0.len();
                w.advance(i, n);
            }
            _ => {}
        }
    }
    Ok(true)
}

fn history(sim: &mut Sim) -> Outcome {
    let py = Py::enter();
        let focus = match sim.weighted(&[3, 3, 4]) {
        0 => [2, 10, 7, 3, 14, 6, 1, 1],
        1 => [1, 9, 6, 0, 16, 0, 1, 1],
        _ => [0, 1, 1, 3, 1, 30, 1, 1],
    };
    let mut w = World { objs: BTreeMap::new(), next: 0, big: sim.chance(1, 6), focus };
    let n = sim.range(3, 40);
    let mut hist = vec![];
    for _ in 0..n {
        let Some(ex) = w.gen(sim, 0, None) else { continue };
        // results of a call that ran while `recv` was borrowed
        let res = py.eval(&ex.src);
        hist.push(ex.src.clone());
        sim.ev(format!("{} -> {}", ex.src, res.join(" & ")));
        sim.op(&name(&ex.src));
        sim.nontrivial = true;
        w.next += 2;
        if let Some(inner) = &ex.nested {
            match res.get(1) {
                // the object is in use
                Some(r) if r == "!RuntimeError" && ex.recv.is_some() => {
                    sim.probe("refused while borrowed");
                }
                Some(r) => {
                    sim.probe("ran meanwhile");
                    let r = r.clone();
                    if !judge(sim, &mut w, inner, &r, &hist)? {
                        return Ok(());
                    }
                }
                // an error came first
                None => ensure!(res[0].starts_with('!'), "py:not-read", "{} gives {} without reading the sequence", ex.src, res[0]),
            }
        }
        if !judge(sim, &mut w, &ex, &res[0], &hist)? {
            return Ok(());
        }
        sim.state(simcore::sim::hash_str(&format!("{} {}", name(&ex.src), res[0].len())));
    }
    // what is left
    for i in w.objs.keys().copied().collect::<Vec<_>>() {
        let got = py.eval(&format!("o{i}"));
        ensure!(got[0] == w.can(i), "py:state", "o{i} is {} instead of {}, after\n{}", got[0], w.can(i), hist.join("\n"));
    }
    if sim.chance(1, 50) {
        py.collect();
    }
    Ok(())
}

pub fn register(scenarios: &mut Vec<Scenario>, props: &mut Vec<Prop>) {
    scenarios.push(Scenario { prop: "P32", name: "python", weight: 1, f: history });
    props.push(Prop {
        id: "P32",
        quick_runs: 120_000,
        thorough_runs: 6_000_000,
        rule: "one run is a Python program of up to 26 expressions over literals, clauses, CNFs, iterators, variable managers and encodings, with arguments that raise errors, are of the wrong type or run other code; every result and every state is compared with the Rust library",
        shape_measure: "sequences of operation kinds",
        real: &["the extension module built from pyapi/", "pyapi/python", "CPython 3.12"],
        stub: &["the embedding process instead of the python3 executable", "the cyclic garbage collector runs only when the simulator says so"],
        assumptions: &["the Rust library itself is right (P13, P14, P22, P26)"],
    });
}
