//! P22 (building, converting and reindexing instances), P23 (variable managers).
use crate::constr::{build_pb, gen_card, small};
use crate::model::{assignment, bit, doc_of_sat, gen_lit, lits, obj_of, to_cls, Con, Op};
use crate::util::{clause, lit};
use crate::writing::{gen_vmap, map_con, map_lit, VMap};
use rustsat::encodings::{card, pb};
use rustsat::instances::{
    BasicVarManager, Cnf, ManageVars, MultiOptInstance, Objective, ObjectVarManager, OptInstance, RandReindVarManager, ReindexVars, ReindexingVarManager, SatInstance,
};
use rustsat::types::{Clause, Lit, TernaryVal, Var};
use simcore::reference::Sat;
use simcore::runner::{Prop, Scenario};
use simcore::{bail, ensure, Outcome, Sim, Violation};
use std::collections::BTreeMap;

// ------------------------------------------------------------------ facts and their meaning

/// something that is added to an instance
enum Fact {
    Con(Con),
    /// (all|any of a) -> (all|any of b)
    Imp(bool, Vec<i32>, bool, Vec<i32>),
}

impl Fact {
    fn holds(&self, x: u64) -> bool {
        match self {
            Fact::Con(c) => c.holds(x),
            Fact::Imp(aa, a, ba, b) => {
                let side = |all: bool, l: &[i32]| if all { l.iter().all(|l| bit(x, *l)) } else { l.iter().any(|l| bit(x, *l)) };
                !side(*aa, a) || side(*ba, b)
            }
        }
    }
}

/// an instance and what it has to mean
struct Hist<VM: ManageVars> {
    inst: SatInstance<VM>,
    nv: usize,
    map: VMap,
    ok: Vec<bool>,
    aux: bool,
    log: Vec<String>,
}

/// the constraint excludes all completions of the given partial assignment, looking at each term alone
fn dead(c: &crate::model::Con, map: &VMap, x: u64, mask: u64) -> bool {
    let (mut lo, mut hi) = (0, 0);
    for (w, l) in &c.terms {
        let (a, b) = match map.iter().position(|m| *m == l.abs()) {
            Some(i) if mask >> i & 1 == 1 => {
                let t = (x >> i & 1 == 1) == (*l > 0);
                (t, t)
            }
            _ => (*w < 0, *w > 0),
        };
        lo += if a { *w } else { 0 };
        hi += if b { *w } else { 0 };
    }
    match c.op {
        Op::Ge => hi < c.rhs,
        Op::Le => lo > c.rhs,
        Op::Eq => hi < c.rhs || lo > c.rhs,
        _ => false,
    }
}

fn var(l: i32) -> Var {
    lit(l).var()
}

/// how an instance over mapped variables (and auxiliary ones) is decided
struct Decide {
    sat: Sat,
    plain: Vec<Con>,
    map: VMap,
    aux: bool,
}

impl Decide {
    fn new(cons: &[Con], map: &VMap, tag: &str) -> Result<Decide, Violation> {
        let mut d = Decide { sat: Sat::new(), plain: vec![], map: map.clone(), aux: false };
        for c in cons {
            let back: Option<Vec<(i64, i32)>> = c.terms.iter().map(|(w, l)| map.iter().position(|x| *x == l.abs()).map(|p| (*w, (p as i32 + 1) * l.signum()))).collect();
            match back {
                Some(terms) => d.plain.push(Con { terms, ..c.clone() }),
                None => {
                    if !(c.op == Op::Ge && c.rhs == 1 && c.terms.iter().all(|t| t.0 == 1)) {
                        bail!(format!("foreign:{tag}"), "constraint {c:?} uses variables nobody introduced");
                    }
                    d.aux = true;
                }
            }
        }
        if d.aux {
            for c in cons {
                if c.op == Op::Ge && c.rhs == 1 && c.terms.iter().all(|t| t.0 == 1) {
                    d.sat.add(&c.terms.iter().map(|t| t.1).collect::<Vec<_>>());
                }
            }
        }
        Ok(d)
    }
    fn q(&self, x: u64) -> Vec<i32> {
        self.map.iter().enumerate().map(|(i, v)| if x >> i & 1 == 1 { *v } else { -*v }).collect()
    }
    fn allows(&mut self, x: u64) -> bool {
        self.plain.iter().all(|c| c.holds(x)) && (!self.aux || self.sat.is_sat(&self.q(x)))
    }
}

impl<VM: ManageVars + Clone> Hist<VM> {
    fn check(&mut self, sim: &mut Sim, op: &str) -> Outcome {
        let mut d = Decide::new(&doc_of_sat(&self.inst).cons, &self.map, op)?;
        self.aux = d.aux;
        for x in 0..1u64 << self.nv {
            let g = d.allows(x);
            ensure!(
                g == self.ok[x as usize],
                format!("meaning:{op}"),
                "assignment {x:b} of {} variables (at {:?}) should {}be a solution after {:?}; the instance is {:?} {:?}",
                self.nv, self.map, if g { "not " } else { "" }, self.log, self.inst.cnf(), doc_of_sat(&self.inst).cons
            );
        }
        ensure!(self.inst.n_constraints() == self.inst.n_clauses() + self.inst.n_cards() + self.inst.n_pbs(), format!("count:{op}"), "{} constraints", self.inst.n_constraints());
        ensure!(self.inst.n_clauses() == self.inst.cnf().len(), format!("count:{op}"), "{} clauses", self.inst.n_clauses());
        let top = self.inst.var_set().last().map_or(0, |v| v.idx32() + 1);
        ensure!(self.inst.n_vars() >= top, format!("max-var:{op}"), "the instance uses variable {top}, but the manager knows of {} only ({:?})", self.inst.n_vars(), self.log);
        ensure!(self.inst.max_var().map_or(0, |v| v.idx32() + 1) == self.inst.n_vars(), format!("max-var:{op}"), "max_var {:?}, but {} variables", self.inst.max_var(), self.inst.n_vars());
        // evaluation
        let n = *self.map.iter().max().unwrap() as usize;
        if n <= 64 {
            let x = sim.choose(1 << self.nv);
            let mask = if sim.coin() { (1 << self.nv) - 1 } else { sim.choose(1 << self.nv) };
            let mut a = rustsat::types::Assignment::default();
            for i in 0..self.nv {
                if mask >> i & 1 == 1 {
                    a.assign_var(var(self.map[i]), TernaryVal::from(x >> i & 1 == 1));
                }
            }
            let (mut t, mut f) = (false, false);
            for y in 0..1u64 << self.nv {
                if (x ^ y) & mask == 0 {
                    t |= self.ok[y as usize];
                    f |= !self.ok[y as usize];
                }
            }
            let v = self.inst.evaluate(&a);
            let good = match v {
                TernaryVal::True => !f,
                TernaryVal::False => !t,
                TernaryVal::DontCare => self.aux || mask != (1 << self.nv) - 1,
            };
            // a constraint that cannot be satisfied any more decides the value of the instance
            let dead = self.inst.cnf().iter().any(|c| c.evaluate(&a) == TernaryVal::False) || doc_of_sat(&self.inst).cons.iter().any(|c| dead(c, &self.map, x, mask));
            ensure!(!dead || v == TernaryVal::False, format!("evaluate:{op}"), "{v:?} under {a}, which falsifies a constraint, after {:?}", self.log);
            ensure!(good, format!("evaluate:{op}"), "{v:?} under {a} (completions satisfy: {t}, falsify: {f}) after {:?}", self.log);
            let u = self.inst.unsat_constraint(&a).is_some();
            ensure!(u == (v != TernaryVal::True), format!("unsat-constraint:{op}"), "evaluates to {v:?}, unsatisfied constraint given: {u} ({:?})", self.log);
        }
        sim.state(simcore::sim::hash_str(op) ^ (self.inst.n_clauses() * 64 + self.inst.n_cards() * 8 + self.inst.n_pbs()) as u64);
        Ok(())
    }
    fn fact(&mut self, f: &Fact) {
        for x in 0..1u64 << self.nv {
            self.ok[x as usize] &= f.holds(x);
        }
    }
}

fn ml(map: &VMap, l: &[i32]) -> Vec<Lit> {
    l.iter().map(|l| lit(map_lit(map, *l))).collect()
}

/// builds a clause with the operators
fn by_ops(sim: &mut Sim, l: &[Lit]) -> Clause {
    let mut c = match l.len() {
        0 => Clause::new(),
        1 => Clause::from([l[0]]),
        _ => match sim.idx(4) {
            0 if l[0].is_pos() && l[1].is_pos() => l[0].var() | l[1].var(),
            1 if l[0].is_pos() => l[0].var() | l[1],
            2 if l[1].is_pos() => l[0] | l[1].var(),
            _ => l[0] | l[1],
        },
    };
    for x in l.iter().skip(2) {
        match sim.idx(4) {
            0 => c |= *x,
            1 => c |= Clause::from([*x]),
            2 => c = *x | c,
            _ => c.add(*x),
        }
    }
    c
}

/// adds one fact, by one of the ways the interface offers
fn add_fact<VM: ManageVars + Clone>(sim: &mut Sim, i: &mut SatInstance<VM>, nv: usize, map: &VMap) -> Fact {
    match sim.weighted(&[4, 4, 2, 3]) {
        0 => {
            let n = if sim.chance(1, 30) { 0 } else { sim.range(1, 4) };
            let c: Vec<i32> = (0..n).map(|_| gen_lit(sim, nv)).collect();
            let l = ml(map, &c);
            match (n, sim.idx(8)) {
                (1, 0..=3) => i.add_unit(l[0]),
                (1, 4) => *i &= l[0],
                (2, 0..=3) => i.add_binary(l[0], l[1]),
                (3, 0..=3) => i.add_ternary(l[0], l[1], l[2]),
                (_, 4) => i.add_nary(&l),
                (_, 5) => *i &= by_ops(sim, &l),
                (_, 6) => Extend::<Clause>::extend(i, [by_ops(sim, &l)]),
                _ => i.add_clause(clause(&c.iter().map(|l| map_lit(map, *l)).collect::<Vec<_>>())),
            }
            Fact::Imp(true, vec![], false, c)
        }
        1 => {
            let (a, b) = (gen_lits(sim, nv), gen_lits(sim, nv));
            let (la, lb) = (ml(map, &a), ml(map, &b));
            let (x, y) = (gen_lit(sim, nv), gen_lit(sim, nv));
            let (lx, ly) = (lit(map_lit(map, x)), lit(map_lit(map, y)));
            match sim.idx(9) {
                0 => {
                    i.add_lit_impl_lit(lx, ly);
                    Fact::Imp(true, vec![x], true, vec![y])
                }
                1 => {
                    i.add_lit_impl_clause(lx, &lb);
                    Fact::Imp(true, vec![x], false, b)
                }
                2 => {
                    i.add_lit_impl_cube(lx, &lb);
                    Fact::Imp(true, vec![x], true, b)
                }
                3 => {
                    i.add_cube_impl_lit(&la, ly);
                    Fact::Imp(true, a, true, vec![y])
                }
                4 => {
                    i.add_clause_impl_lit(&la, ly);
                    Fact::Imp(false, a, true, vec![y])
                }
                5 => {
                    i.add_cube_impl_clause(&la, &lb);
                    Fact::Imp(true, a, false, b)
                }
                6 => {
                    i.add_clause_impl_clause(&la, &lb);
                    Fact::Imp(false, a, false, b)
                }
                7 => {
                    i.add_clause_impl_cube(&la, &lb);
                    Fact::Imp(false, a, true, b)
                }
                _ => {
                    i.add_cube_impl_cube(&la, &lb);
                    Fact::Imp(true, a, true, b)
                }
            }
        }
        2 => {
            let (c, k) = gen_card(sim, nv);
            let mut k = k;
            for l in k.iter_mut() {
                *l = lit(map_lit(map, l.to_ipasir()));
            }
            i.add_card_constr(k);
            Fact::Con(c)
        }
        _ => {
            let c = small(sim, nv);
            let p = build_pb(sim, &map_con(map, &c));
            i.add_pb_constr(p);
            Fact::Con(c)
        }
    }
}

fn gen_lits(sim: &mut Sim, nv: usize) -> Vec<i32> {
    let n = sim.range(0, 3);
    (0..n).map(|_| gen_lit(sim, nv)).collect()
}

fn encode_all(sim: &mut Sim, i: &mut SatInstance) {
    type T = card::Totalizer;
    type G = pb::GeneralizedTotalizer;
    type A = pb::BinaryAdder;
    type D = pb::DynamicPolyWatchdog;
    let (c, p) = (sim.idx(3), sim.idx(4));
    i.convert_to_cnf_with_encoders(
        |k, cnf, vm| {
            match c {
                0 => card::encode_cardinality_constraint::<T, _>(k, cnf, vm),
                1 => card::default_encode_cardinality_constraint(k, cnf, vm),
                _ => card::encode_cardinality_constraint::<card::simulators::Double<T, card::simulators::Inverted<T>>, _>(k, cnf, vm),
            }
            .unwrap();
        },
        |k, cnf, vm| {
            match p {
                0 => pb::default_encode_pb_constraint(k, cnf, vm),
                1 => pb::encode_pb_constraint::<pb::simulators::Double<G, pb::simulators::Inverted<G>>, _>(k, cnf, vm),
                2 => pb::encode_pb_constraint::<A, _>(k, cnf, vm),
                _ => pb::encode_pb_constraint::<pb::simulators::Double<D, pb::simulators::Inverted<D>>, _>(k, cnf, vm),
            }
            .unwrap();
        },
    );
}

fn dense(sim: &mut Sim, nv: usize) -> VMap {
    let mut m = gen_vmap(sim, nv);
    if m.iter().any(|v| *v > 4000) {
        m = (1..=nv as i32).rev().collect();
    }
    m
}

/// re-indexes and returns the instance with a counting manager again
fn reindexed<R, I>(
    sim: &mut Sim,
    inst: I,
    old_vars: &std::collections::BTreeSet<Var>,
    map: &mut VMap,
    r: R,
    ordered: bool,
    go: impl FnOnce(I, R, bool) -> (I, R),
    fresh: bool,
) -> Result<I, Violation>
where
    R: ReindexVars,
{
    let (i, mut r) = go(inst, r, ordered);
    let used = r.n_used();
    let mut seen: BTreeMap<u32, Var> = BTreeMap::new();
    let mut last = None;
    for v in old_vars {
        let w = r.reindex(*v);
        ensure!(w.idx32() < used, "reindex:new", "variable {v} of the instance was re-indexed to {w} only after re-indexing it ({used} used)");
        if let Some(o) = seen.insert(w.idx32(), *v) {
            bail!("reindex:injective", "variables {o} and {v} are both re-indexed to {w}");
        }
        if ordered && fresh {
            ensure!(last.is_none_or(|l| l < w), "reindex:order", "{v} became {w}, an earlier variable {last:?}");
            ensure!(w.idx() == seen.len() - 1, "reindex:gaps", "{v} became {w}, expected the {}th variable", seen.len());
            last = Some(w);
        }
    }
    for m in map.iter_mut() {
        let w = r.reindex(var(*m));
        if let Some(o) = seen.insert(w.idx32(), var(*m)) {
            ensure!(o == var(*m), "reindex:injective", "variables {o} and {} are both re-indexed to {w}", var(*m));
        }
        *m = w.idx32() as i32 + 1;
    }
    for (w, v) in &seen {
        let back = r.reverse(Var::new(*w));
        ensure!(back == Some(*v), "reindex:reverse", "{v} was re-indexed to {}, whose reverse is {back:?}", Var::new(*w));
        let l = if sim.coin() { v.pos_lit() } else { v.neg_lit() };
        let m = r.reindex_lit(l);
        ensure!(m.is_pos() == l.is_pos() && m.var().idx32() == *w && r.reverse_lit(m) == Some(l), "reindex:lit", "{l} became {m}, reversed {:?}", r.reverse_lit(m));
    }
    ensure!(seen.keys().all(|w| *w < r.n_used()), "reindex:used", "{} variables used after re-indexing to {seen:?}", r.n_used());
    Ok(i)
}

fn basic_of<R: ManageVars>(r: &R) -> BasicVarManager {
    BasicVarManager::from_next_free(Var::new(r.n_used()))
}

fn reindex_sat<R: ReindexVars>(i: SatInstance, r: R, ordered: bool) -> (SatInstance, R) {
    let i = if ordered { i.reindex_ordered(r) } else { i.reindex(r) };
    i.change_var_manager(basic_of)
}

fn start(sim: &mut Sim) -> Hist<BasicVarManager> {
    let nv = sim.range(1, 5);
    let map = dense(sim, nv);
    let mut inst = if sim.coin() { SatInstance::new() } else { SatInstance::new_with_manager(BasicVarManager::default()) };
    // some variables are known to the manager from the start
    if sim.chance(1, 3) {
        inst.var_manager_mut().increase_next_free(Var::new(sim.range(0, 6) as u32));
    }
    Hist { inst, nv, map, ok: vec![true; 1 << nv], aux: false, log: vec![] }
}

/// auxiliary variables must not be mistaken for those of later facts
fn reserve(h: &mut Hist<BasicVarManager>) {
    let top = *h.map.iter().max().unwrap();
    h.inst.var_manager_mut().increase_next_free(Var::new(top as u32));
}

fn sat_op(sim: &mut Sim, h: &mut Hist<BasicVarManager>) -> Result<&'static str, Violation> {
    let Hist { nv, .. } = *h;
    let op = sim.weighted(&[12, 2, 2, 2, 2, 2, 2, 3, 2, 1, 2]);
    let before = h.inst.n_vars();
    let name = match op {
        0 => {
            let f = add_fact(sim, &mut h.inst, nv, &h.map);
            h.fact(&f);
            match f {
                Fact::Con(_) => "add-constraint",
                Fact::Imp(..) => "add-clauses",
            }
        }
        1 => {
            let v = if sim.coin() { h.inst.new_var() } else { h.inst.new_lit().var() };
            ensure!(v.idx32() == before, "new-var", "{v} with {before} variables in use");
            // nobody may use this variable for something else: model variables that are not in use yet would
            let mut top = h.inst.n_vars() as i32;
            let used = h.inst.var_set();
            for m in h.map.iter_mut() {
                if !used.contains(&var(*m)) && *m > before as i32 {
                    top += 1;
                    *m = top;
                }
            }
            "new-var"
        }
        2 => {
            h.inst = std::mem::take(&mut h.inst).sanitize();
            "sanitize"
        }
        3 => {
            reserve(h);
            if sim.coin() {
                h.inst.convert_to_cnf();
            } else {
                encode_all(sim, &mut h.inst);
            }
            ensure!(h.inst.n_cards() == 0 && h.inst.n_pbs() == 0, "not-converted", "{} cards, {} pbs left", h.inst.n_cards(), h.inst.n_pbs());
            "convert-to-cnf"
        }
        4 => {
            reserve(h);
            let (cnf, vm) = std::mem::take(&mut h.inst).into_cnf();
            h.inst = SatInstance::new_with_manager(vm);
            let top = cnf.iter().flat_map(|c| c.iter().map(|l| l.vidx32() + 1)).max().unwrap_or(0);
            ensure!(h.inst.n_vars() >= top, "max-var:into-cnf", "clauses use variable {top}, the manager knows of {}", h.inst.n_vars());
            let cnf = cnf_op(sim, cnf);
            h.inst &= cnf;
            "into-cnf"
        }
        5 => {
            let (pbs, vm) = std::mem::take(&mut h.inst).into_pbs();
            let mut i: SatInstance = pbs.into_iter().collect();
            i.var_manager_mut().combine(vm);
            h.inst = i;
            "into-pbs"
        }
        6 => {
            let mut o = SatInstance::new();
            let n = sim.range(0, 3);
            for _ in 0..n {
                let f = add_fact(sim, &mut o, nv, &h.map);
                h.fact(&f);
            }
            match sim.idx(3) {
                0 => h.inst.extend(o),
                1 => h.inst &= o,
                _ => h.inst = std::mem::take(&mut h.inst) & o,
            }
            "extend"
        }
        7 => {
            let vars = h.inst.var_set();
            let i = std::mem::take(&mut h.inst);
            let ordered = sim.coin();
            let mut map = h.map.clone();
            let (i, name) = match sim.idx(4) {
                0 => (reindexed(sim, i, &vars, &mut map, ReindexingVarManager::default(), ordered, reindex_sat, true)?, "reindex"),
                1 => {
                    let k = Var::new(sim.range(0, 8) as u32);
                    (reindexed(sim, i, &vars, &mut map, ReindexingVarManager::from_next_free(k), ordered, reindex_sat, false)?, "reindex-from")
                }
                2 => {
                    let mut r = ReindexingVarManager::default();
                    for _ in 0..sim.range(0, 4) {
                        match sim.idx(3) {
                            0 => {
                                r.reindex(Var::new(sim.range(0, 9) as u32));
                            }
                            1 => {
                                r.new_var();
                            }
                            _ => {
                                r.mark_used(Var::new(sim.range(0, 5) as u32));
                            }
                        }
                    }
                    (reindexed(sim, i, &vars, &mut map, r, ordered, reindex_sat, false)?, "reindex-used")
                }
                _ => {
                    let n = if sim.coin() { i.n_vars() } else { sim.range(0, 12) as u32 };
                    (reindexed(sim, i, &vars, &mut map, RandReindVarManager::init(n), ordered, reindex_sat, false)?, "reindex-random")
                }
            };
            // all variables now in use: those of the re-indexed instance; the map was extended by
            // querying, so the manager has to know these as well
            h.inst = i;
            let known = vars.len();
            let _ = known;
            h.map = map;
            name
        }
        8 => {
            h.inst = std::mem::take(&mut h.inst).shuffle();
            "shuffle"
        }
        9 => {
            let (i, old) = std::mem::take(&mut h.inst).change_var_manager(|vm: &BasicVarManager| ObjectVarManager::from_next_free(Var::new(vm.n_used())));
            ensure!(old.n_used() == before, "change-manager", "{} variables in the old manager, {before} before", old.n_used());
            let (i, vm) = i.change_var_manager(basic_of);
            ensure!(vm.n_used() == before && i.n_vars() == before, "change-manager", "{} variables after changing the manager, {before} before", vm.n_used());
            h.inst = i;
            "change-manager"
        }
        _ => {
            // through the type for clauses only
            let mut cnf = Cnf::new();
            let n = sim.range(0, 3);
            for _ in 0..n {
                let c = gen_lits(sim, nv);
                if c.is_empty() {
                    continue;
                }
                cnf.add_nary(&ml(&h.map, &c));
                h.fact(&Fact::Imp(true, vec![], false, c));
            }
            let mut j = cnf_op(sim, cnf);
            if sim.coin() {
                let l = gen_lit(sim, nv);
                j = j & lit(map_lit(&h.map, l));
                h.fact(&Fact::Imp(true, vec![], false, vec![l]));
            }
            match sim.idx(3) {
                0 => h.inst &= j,
                1 => h.inst = std::mem::take(&mut h.inst) & j,
                _ => Extend::<Clause>::extend(&mut h.inst, j),
            }
            "extend-cnf"
        }
    };
    Ok(name)
}

fn cnf_op(sim: &mut Sim, c: Cnf) -> Cnf {
    match sim.idx(6) {
        0 => c.normalize(),
        1 => c.sanitize(),
        2 => c.shuffle(),
        3 => {
            let k = sim.range(0, c.len());
            let mut a = Cnf::with_capacity(3);
            let mut b = Cnf::new();
            for (i, cl) in c.into_iter().enumerate() {
                if i < k {
                    a &= cl;
                } else {
                    b.add_clause(cl);
                }
            }
            if sim.coin() {
                a.join(b)
            } else {
                a & b
            }
        }
        _ => c,
    }
}

fn sat_histories(sim: &mut Sim) -> Outcome {
    let mut h = start(sim);
    let n = sim.range(1, 9);
    let mut shape = 0;
    for _ in 0..n {
        sim.panic_ctx = "instance".into();
        crate::persist::maybe(sim, &mut h.inst, "SatInstance")?;
        let vars = h.inst.n_vars();
        let name = sat_op(sim, &mut h)?;
        sim.op(name);
        h.log.push(name.to_string());
        sim.ev(format!("{name} {vars} -> {} vars {} {} {}", h.inst.n_vars(), h.inst.n_clauses(), h.inst.n_cards(), h.inst.n_pbs()));
        sim.panic_ctx = format!("after {name}");
        h.check(sim, name)?;
        sim.nontrivial = true;
        shape = simcore::sim::mix(shape, simcore::sim::hash_str(name));
    }
    sim.st.shapes.insert(shape);
    Ok(())
}

// ------------------------------------------------------------------ objectives

#[derive(Clone, Default, Debug)]
struct ObjModel {
    lits: BTreeMap<i32, usize>,
    cls: BTreeMap<Vec<i32>, usize>,
    offset: i64,
}

impl ObjModel {
    fn cost(&self, x: u64) -> i64 {
        self.offset
            + self.lits.iter().filter(|(l, _)| bit(x, **l)).map(|(_, w)| *w as i64).sum::<i64>()
            + self.cls.iter().filter(|(c, _)| !c.iter().any(|l| bit(x, *l))).map(|(_, w)| *w as i64).sum::<i64>()
    }
    fn add_lit(&mut self, w: usize, l: i32) {
        if w > 0 {
            *self.lits.entry(l).or_default() += w;
        }
    }
    fn add_cls(&mut self, w: usize, c: &[i32]) {
        match c {
            [] => self.offset += w as i64,
            [l] => self.add_lit(w, -l),
            _ if w > 0 => *self.cls.entry(c.to_vec()).or_default() += w,
            _ => (),
        }
    }
    fn of(o: &Objective) -> Self {
        let mut m = ObjModel { offset: o.offset() as i64, ..Self::default() };
        for (c, w) in o.iter_soft_cls() {
            m.add_cls(w, &to_cls(&c));
        }
        m
    }
    fn sum(&self) -> usize {
        self.lits.values().chain(self.cls.values()).sum()
    }
}

fn gen_w(sim: &mut Sim, unit: usize) -> usize {
    match sim.weighted(&[6, 3, 1, 1]) {
        0 => unit,
        1 => sim.range(1, 6),
        2 => sim.range(7, 5000),
        _ => 0,
    }
}

fn check_obj(o: &Objective, m: &ObjModel, nv: usize, op: &str, log: &[String], mult: bool) -> Outcome {
    let read = ObjModel::of(o);
    for x in 0..1u64 << nv {
        let want = m.cost(x);
        ensure!(read.cost(x) == want, format!("obj-meaning:{op}"), "assignment {x:b} costs {}, expected {want} ({m:?}) after {log:?}: {o:?}", read.cost(x));
        let a = assignment(x, nv);
        ensure!(o.evaluate(&a) as i64 == want, format!("obj-evaluate:{op}"), "{} for {a}, expected {want} after {log:?}", o.evaluate(&a));
        ensure!(o.evaluate_no_offset(&a) as i64 == want - o.offset() as i64, format!("obj-evaluate:{op}"), "{} without offset for {a}, expected {want} after {log:?}", o.evaluate_no_offset(&a));
    }
    if !mult {
        return Ok(());
    }
    ensure!(o.offset() as i64 == m.offset, format!("obj-offset:{op}"), "{} instead of {} after {log:?}", o.offset(), m.offset);
    ensure!(o.constant() == (m.lits.is_empty() && m.cls.is_empty()), format!("obj-constant:{op}"), "constant: {} for {m:?}", o.constant());
    ensure!(o.is_empty() == (m.lits.is_empty() && m.cls.is_empty() && m.offset == 0), format!("obj-empty:{op}"), "is_empty: {} for {m:?}", o.is_empty());
    ensure!(o.weight_sum() == m.sum() && o.lit_weight_sum() == m.lits.values().sum::<usize>() && o.clause_weight_sum() == m.cls.values().sum::<usize>(), format!("obj-sum:{op}"), "sums {} {} {} for {m:?} after {log:?}", o.weight_sum(), o.lit_weight_sum(), o.clause_weight_sum());
    ensure!(o.n_lits() >= m.lits.len() && o.n_clauses() >= m.cls.len() && o.n_softs() == o.n_lits() + o.n_clauses(), format!("obj-count:{op}"), "{} lits {} clauses for {m:?}", o.n_lits(), o.n_clauses());
    for (l, w) in &m.lits {
        ensure!(o.lit_weight(lit(*l)) == Some(*w), format!("obj-lit-weight:{op}"), "weight of {l} is {:?}, expected {w} after {log:?}", o.lit_weight(lit(*l)));
    }
    for (c, w) in &m.cls {
        ensure!(o.clause_weight(&clause(c)) == Some(*w), format!("obj-clause-weight:{op}"), "weight of {c:?} is {:?}, expected {w} after {log:?}", o.clause_weight(&clause(c)));
    }
    for v in 1..=nv as i32 {
        for l in [v, -v] {
            if !m.lits.contains_key(&l) {
                ensure!(o.lit_weight(lit(l)).is_none(), format!("obj-lit-weight:{op}"), "weight of {l} is {:?}, expected none after {log:?}", o.lit_weight(lit(l)));
            }
        }
    }
    if o.n_lits() == m.lits.len() && o.n_clauses() == m.cls.len() {
        if let (Some(a), Some(b)) = (m.lits.values().max(), m.lits.values().min()) {
            ensure!(o.max_lit_weight() == *a && o.min_lit_weight() == *b, format!("obj-minmax:{op}"), "literal weights within {} and {}, expected {b} and {a}", o.min_lit_weight(), o.max_lit_weight());
        }
        if let (Some(a), Some(b)) = (m.cls.values().max(), m.cls.values().min()) {
            ensure!(o.max_clause_weight() == *a && o.min_clause_weight() == *b, format!("obj-minmax:{op}"), "clause weights within {} and {}, expected {b} and {a}", o.min_clause_weight(), o.max_clause_weight());
        }
        if let (Some(a), Some(b)) = (m.lits.values().chain(m.cls.values()).max(), m.lits.values().chain(m.cls.values()).min()) {
            ensure!(o.max_weight() == *a && o.min_weight() == *b, format!("obj-minmax:{op}"), "weights within {} and {}, expected {b} and {a}", o.min_weight(), o.max_weight());
        }
    }
    let top = m.lits.keys().chain(m.cls.keys().flatten()).map(|l| l.abs()).max();
    ensure!(o.max_var().map(|v| v.idx32() as i32 + 1) == top, format!("obj-max-var:{op}"), "{:?}, expected {top:?}", o.max_var());
    match o.iter_soft_lits() {
        Ok(i) => {
            ensure!(m.cls.is_empty(), format!("obj-iter:{op}"), "iterating literals of an objective with clauses");
            let mut g: BTreeMap<i32, usize> = BTreeMap::new();
            for (l, w) in i {
                *g.entry(l.to_ipasir()).or_default() += w;
            }
            ensure!(g == m.lits, format!("obj-iter:{op}"), "soft literals {g:?}, expected {:?}", m.lits);
        }
        Err(_) => ensure!(!m.cls.is_empty(), format!("obj-iter:{op}"), "no literal iterator for {m:?}"),
    }
    Ok(())
}

fn obj_op(sim: &mut Sim, o: &mut Objective, m: &mut ObjModel, nv: usize, unit: usize) -> Result<(&'static str, bool), Violation> {
    let l = gen_lit(sim, nv);
    let n = sim.range(0, 3);
    let c: Vec<i32> = (0..n).map(|_| gen_lit(sim, nv)).collect();
    let w = gen_w(sim, unit);
    let mut exact = true;
    let name = match sim.weighted(&[5, 5, 3, 4, 5, 1, 1, 3]) {
        0 => {
            let old = o.add_soft_lit(w, lit(l));
            let want = if w == 0 { m.lits.remove(&l) } else { m.lits.insert(l, w) };
            ensure!(old == want, "obj-old-weight:add-lit", "adding {l} with weight {w} returned {old:?}, the weight was {want:?}");
            "add-lit"
        }
        1 => {
            o.increase_soft_lit(w, lit(l));
            m.add_lit(w, l);
            "increase-lit"
        }
        2 => {
            let iw = if sim.coin() { w as isize } else { -(w as isize) };
            o.increase_soft_lit_int(iw, lit(l));
            if iw < 0 {
                m.offset += iw as i64;
                m.add_lit(w, -l);
            } else {
                m.add_lit(w, l);
            }
            "increase-lit-int"
        }
        3 => {
            let old = o.add_soft_clause(w, clause(&c));
            let want = match &c[..] {
                [] => {
                    m.offset += w as i64;
                    None
                }
                [l] if w == 0 => m.lits.remove(&-l),
                [l] => m.lits.insert(-l, w),
                _ if w == 0 => m.cls.remove(&c),
                _ => m.cls.insert(c.clone(), w),
            };
            ensure!(old == want, "obj-old-weight:add-clause", "adding {c:?} with weight {w} returned {old:?}, the weight was {want:?}");
            "add-clause"
        }
        4 => {
            o.increase_soft_clause(w, clause(&c));
            m.add_cls(w, &c);
            "increase-clause"
        }
        5 => {
            let d = sim.irange(-30, 30);
            o.set_offset(d as isize);
            m.offset = d;
            "set-offset"
        }
        6 => {
            let d = sim.irange(-30, 30);
            o.increase_offset(d as isize);
            m.offset += d;
            "increase-offset"
        }
        _ => {
            exact = false;
            let old = std::mem::take(o);
            match sim.idx(5) {
                0 => {
                    *o = old.normalize();
                    "normalize"
                }
                1 => {
                    *o = old.shuffle();
                    "obj-shuffle"
                }
                2 => {
                    let (it, off) = old.into_soft_cls();
                    *o = it.into_iter().collect();
                    o.increase_offset(off);
                    "into-soft-cls"
                }
                3 if old.weight_sum() < 60 || !old.weighted() => {
                    let (it, w, off) = old.into_unweighted_soft_cls();
                    *o = it.into_iter().map(|c| (c, w)).collect();
                    o.increase_offset(off);
                    "into-unweighted-soft-cls"
                }
                _ if old.n_clauses() == 0 => {
                    let mut vm = BasicVarManager::from_next_free(Var::new(nv as u32));
                    let sum = old.weight_sum();
                    if sim.coin() && sum < 60 {
                        let (cnf, it, w, off) = old.into_unweighted_soft_lits(&mut vm);
                        ensure!(cnf.is_empty(), "obj-soft-lits", "clauses {cnf:?} from soft literals");
                        *o = it.into_iter().map(|l| (l, w)).collect();
                        o.increase_offset(off);
                        "into-unweighted-soft-lits"
                    } else {
                        let (cnf, (it, off)) = old.into_soft_lits(&mut vm);
                        ensure!(cnf.is_empty() && vm.n_used() == nv as u32, "obj-soft-lits", "clauses {cnf:?} from soft literals");
                        *o = it.into_iter().collect();
                        o.increase_offset(off);
                        "into-soft-lits"
                    }
                }
                _ => {
                    *o = old;
                    "nothing"
                }
            }
        }
    };
    Ok((name, exact))
}

fn objective_histories(sim: &mut Sim) -> Outcome {
    let nv = sim.range(1, 4);
    let unit = sim.range(1, 3);
    let mut o = Objective::new();
    let mut m = ObjModel::default();
    let mut log = vec![];
    let mut shape = 0;
    if sim.chance(1, 4) {
        // all at once
        let n = sim.range(0, 5);
        match sim.idx(3) {
            0 => {
                let v: Vec<(Lit, usize)> = (0..n).map(|_| (lit(gen_lit(sim, nv)), gen_w(sim, unit))).collect();
                v.iter().for_each(|(l, w)| m.add_lit(*w, l.to_ipasir()));
                o = v.into_iter().collect();
            }
            1 => {
                let v: Vec<(Lit, isize)> = (0..n).map(|_| (lit(gen_lit(sim, nv)), gen_w(sim, unit) as isize * if sim.coin() { 1 } else { -1 })).collect();
                for (l, w) in &v {
                    if *w < 0 {
                        m.offset += *w as i64;
                        m.add_lit(w.unsigned_abs(), -l.to_ipasir());
                    } else {
                        m.add_lit(*w as usize, l.to_ipasir());
                    }
                }
                o = v.into_iter().collect();
            }
            _ => {
                let v: Vec<(Clause, usize)> = (0..n).map(|_| (clause(&gen_lits(sim, nv)), gen_w(sim, unit))).collect();
                v.iter().for_each(|(c, w)| m.add_cls(*w, &to_cls(c)));
                o = v.into_iter().collect();
            }
        }
        log.push("collect".to_string());
        check_obj(&o, &m, nv, "collect", &log, true)?;
    }
    for _ in 0..sim.range(1, 12) {
        sim.panic_ctx = "objective".into();
        crate::persist::maybe(sim, &mut o, "Objective")?;
        let (name, exact) = obj_op(sim, &mut o, &mut m, nv, unit)?;
        log.push(name.to_string());
        sim.op(name);
        sim.ev(format!("{name} {m:?}"));
        sim.panic_ctx = format!("after {name}");
        check_obj(&o, &m, nv, name, &log, exact)?;
        if !exact {
            // how the same objective is written down may have changed
            m = ObjModel::of(&o);
            check_obj(&o, &m, nv, name, &log, true)?;
        }
        sim.nontrivial = true;
        sim.state(simcore::sim::hash_str(name) ^ (o.n_lits() * 16 + o.n_clauses() * 2 + usize::from(o.weighted())) as u64);
        shape = simcore::sim::mix(shape, simcore::sim::hash_str(name));
    }
    sim.st.shapes.insert(shape);
    Ok(())
}

// ------------------------------------------------------------------ optimisation instances

struct OptHist {
    h: Hist<BasicVarManager>,
    objs: Vec<Objective>,
    cost: Vec<Vec<i64>>,
}

impl OptHist {
    fn take(&mut self) -> MultiOptInstance {
        MultiOptInstance::compose(std::mem::take(&mut self.h.inst), std::mem::take(&mut self.objs))
    }
    fn put(&mut self, m: MultiOptInstance) {
        let (i, o) = m.decompose();
        self.h.inst = i;
        self.objs = o;
    }
    fn check(&mut self, sim: &mut Sim, op: &str) -> Outcome {
        self.h.check(sim, op)?;
        let top = self.objs.iter().filter_map(|o| o.max_var()).max().map_or(0, |v| v.idx32() + 1);
        ensure!(self.h.inst.n_vars() >= top, format!("max-var:{op}"), "an objective uses variable {top}, but the manager knows of {} only ({:?})", self.h.inst.n_vars(), self.h.log);
        let mut d = Decide::new(&doc_of_sat(&self.h.inst).cons, &self.h.map, op)?;
        let objs: Vec<_> = self.objs.iter().map(obj_of).collect();
        for x in 0..1u64 << self.h.nv {
            if !self.h.ok[x as usize] {
                continue;
            }
            let q = d.q(x);
            let mut off = q.clone();
            for (k, o) in objs.iter().enumerate() {
                let mut cost = o.offset;
                for (w, c) in &o.softs {
                    if c.iter().all(|l| self.h.map.contains(&l.abs())) {
                        let sat = c.iter().any(|l| q.contains(l));
                        cost += if sat { 0 } else { *w };
                        continue;
                    }
                    ensure!(c.len() == 1, format!("foreign:{op}"), "soft clause {c:?} uses variables nobody introduced");
                    let mut q2 = q.clone();
                    q2.push(c[0]);
                    if d.sat.is_sat(&q2) {
                        off.push(c[0]);
                    } else {
                        cost += *w;
                    }
                }
                ensure!(
                    cost == self.cost[x as usize][k],
                    format!("cost:{op}"),
                    "objective {k} of assignment {x:b} (variables at {:?}) costs {cost}, expected {} after {:?}: {o:?} {:?}",
                    self.h.map, self.cost[x as usize][k], self.h.log, self.h.inst.cnf()
                );
            }
            ensure!(!d.aux && off.len() == q.len() || d.sat.is_sat(&off), format!("cost:{op}"), "the costs of the objectives for {x:b} cannot be reached together after {:?}", self.h.log);
        }
        // as one instance
        let m = self.take();
        if *self.h.map.iter().max().unwrap() < 64 && !d.aux {
            let x = sim.choose(1 << self.h.nv);
            let mut a = rustsat::types::Assignment::default();
            for (i, v) in self.h.map.iter().enumerate() {
                a.assign_var(var(*v), TernaryVal::from(x >> i & 1 == 1));
            }
            let want = self.h.ok[x as usize].then(|| self.cost[x as usize].clone());
            let multi = objs.iter().all(|o| o.softs.iter().all(|s| s.1.iter().all(|l| self.h.map.contains(&l.abs()))));
            if multi {
                let got = m.cost(&a).map(|c| c.into_iter().map(|c| c as i64).collect::<Vec<_>>());
                ensure!(got == want, format!("instance-cost:{op}"), "{got:?} for {a}, expected {want:?} after {:?}", self.h.log);
                if m.n_objectives() == 1 {
                    let (i, mut o) = m.clone().decompose();
                    let got = OptInstance::compose(i, o.remove(0)).cost(&a).map(|c| c as i64);
                    ensure!(got == want.map(|w| w[0]), format!("instance-cost:{op}"), "{got:?} for {a} after {:?}", self.h.log);
                }
            }
        }
        self.put(m);
        Ok(())
    }
}

fn opt_histories(sim: &mut Sim) -> Outcome {
    let h = start(sim);
    let nv = h.nv;
    let k = sim.range(1, 3);
    let mut s = OptHist { h, objs: vec![Objective::new(); k], cost: vec![vec![0; k]; 1 << nv] };
    let unit = sim.range(1, 3);
    let mut shape = 0;
    for _ in 0..sim.range(2, 9) {
        sim.panic_ctx = "optimisation instance".into();
        if crate::persist::on() {
            let mut m = s.take();
            crate::persist::maybe(sim, &mut m, "MultiOptInstance")?;
            s.put(m);
        }
        let single = k == 1 && sim.coin();
        let name = match sim.weighted(&[5, 8, 2, 2, 2, 1, 1]) {
            0 => {
                // constraints only; operations that move variables are done on the whole instance
                let f = add_fact(sim, &mut s.h.inst, nv, &s.h.map);
                s.h.fact(&f);
                "constraint"
            }
            1 => {
                // the manager of the constraints does not get to know about these variables
                let j = sim.idx(k);
                let w = gen_w(sim, unit);
                let map = s.h.map.clone();
                let mut m = MultiOptInstance::compose(std::mem::take(&mut s.h.inst), std::mem::take(&mut s.objs));
                let o = m.objective_mut(j);
                let mut add = ObjModel::default();
                match sim.idx(4) {
                    0 => {
                        let l = gen_lit(sim, nv);
                        o.increase_soft_lit(w, lit(map_lit(&map, l)));
                        add.add_lit(w, l);
                    }
                    1 => {
                        let d = sim.irange(-9, 9);
                        o.increase_offset(d as isize);
                        add.offset += d;
                    }
                    2 => {
                        let l = gen_lit(sim, nv);
                        o.increase_soft_lit_int(-(w as isize), lit(map_lit(&map, l)));
                        add.offset -= w as i64;
                        add.add_lit(w, -l);
                    }
                    _ => {
                        let c = gen_lits(sim, nv);
                        o.increase_soft_clause(w, ml(&map, &c).into_iter().collect());
                        add.add_cls(w, &c);
                    }
                }
                for x in 0..1u64 << nv {
                    s.cost[x as usize][j] += add.cost(x);
                }
                // conversions directly afterwards
                let (name, m) = convert(sim, m, &mut s.h, single)?;
                s.put(m);
                name
            }
            2 => {
                let m = s.take();
                let (name, m) = convert(sim, m, &mut s.h, single)?;
                s.put(m);
                name
            }
            3 => {
                let m = s.take();
                let vars = m.var_set();
                let ordered = sim.coin();
                let mut map = s.h.map.clone();
                let rnd = sim.chance(1, 3);
                let n = m.constraints_ref().n_vars();
                let m = if single {
                    let (i, mut o) = m.decompose();
                    let i = OptInstance::compose(i, o.remove(0));
                    let i = if rnd {
                        reindexed(sim, i, &vars, &mut map, RandReindVarManager::init(n), ordered, reindex_opt, false)?
                    } else {
                        reindexed(sim, i, &vars, &mut map, ReindexingVarManager::default(), ordered, reindex_opt, true)?
                    };
                    let (i, o) = i.decompose();
                    MultiOptInstance::compose(i, vec![o])
                } else if rnd {
                    reindexed(sim, m, &vars, &mut map, RandReindVarManager::init(n), ordered, reindex_multi, false)?
                } else {
                    reindexed(sim, m, &vars, &mut map, ReindexingVarManager::default(), ordered, reindex_multi, true)?
                };
                s.h.map = map;
                s.put(m);
                "reindex"
            }
            4 => {
                let m = s.take();
                let m = if single {
                    let (i, mut o) = m.decompose();
                    let (i, o) = OptInstance::compose(i, o.remove(0)).shuffle().decompose();
                    MultiOptInstance::compose(i, vec![o])
                } else {
                    m.shuffle()
                };
                s.put(m);
                "shuffle"
            }
            5 => {
                s.h.inst = std::mem::take(&mut s.h.inst).sanitize();
                "sanitize"
            }
            _ => {
                for o in &mut s.objs {
                    *o = std::mem::take(o).normalize();
                }
                "normalize"
            }
        };
        sim.op(name);
        s.h.log.push(name.into());
        sim.ev(format!("{name} {} vars, {} clauses", s.h.inst.n_vars(), s.h.inst.n_clauses()));
        sim.panic_ctx = format!("after {name}");
        s.check(sim, name)?;
        sim.nontrivial = true;
        shape = simcore::sim::mix(shape, simcore::sim::hash_str(name));
    }
    sim.st.shapes.insert(shape);
    Ok(())
}

fn reindex_opt<R: ReindexVars>(i: OptInstance, r: R, ordered: bool) -> (OptInstance, R) {
    let i = if ordered { i.reindex_ordered(r) } else { i.reindex(r) };
    i.change_var_manager(basic_of)
}

fn reindex_multi<R: ReindexVars>(i: MultiOptInstance, r: R, ordered: bool) -> (MultiOptInstance, R) {
    let i = if ordered { i.reindex_ordered(r) } else { i.reindex(r) };
    i.change_var_manager(basic_of)
}

fn rebuild(cnf: Cnf, vm: BasicVarManager, objs: Vec<Objective>) -> Result<MultiOptInstance, Violation> {
    let top = cnf.iter().flat_map(|c| c.iter().map(|l| l.vidx32() + 1)).chain(objs.iter().filter_map(|o| o.max_var().map(|v| v.idx32() + 1))).max().unwrap_or(0);
    ensure!(vm.n_used() >= top, "max-var:convert", "clauses and objectives use variable {top}, the manager knows of {}", vm.n_used());
    let mut i = SatInstance::new_with_manager(vm);
    i &= cnf;
    Ok(MultiOptInstance::compose(i, objs))
}

fn convert(sim: &mut Sim, mut m: MultiOptInstance, h: &mut Hist<BasicVarManager>, single: bool) -> Result<(&'static str, MultiOptInstance), Violation> {
    // variables of later facts must not be used by the conversion; those of the objectives are
    // known to the instance
    let used = m.var_set();
    let mut unused: Vec<&mut i32> = h.map.iter_mut().filter(|v| !used.contains(&var(**v))).collect();
    let what = sim.idx(4);
    if what > 1 {
        return Ok(("objective", m));
    }
    let k = m.n_objectives();
    let m = match what {
        0 => {
            let (cnf, softs, vm): (Cnf, Vec<(Vec<(Clause, usize)>, isize)>, _) = if single {
                let (c, mut o) = split_unmarked(&mut m);
                let mut i = OptInstance::new_with_manager(BasicVarManager::default());
                *i.constraints_mut() = c;
                *i.objective_mut() = o.remove(0);
                let (cnf, (s, off), vm) = i.into_hard_cls_soft_cls();
                (cnf, vec![(s.into_iter().collect(), off)], vm)
            } else {
                let (cnf, s, vm) = m.into_hard_cls_soft_cls();
                (cnf, s.into_iter().map(|(s, o)| (s.into_iter().collect(), o)).collect(), vm)
            };
            let objs = softs
                .into_iter()
                .map(|(s, off)| {
                    let mut o: Objective = s.into_iter().collect();
                    o.increase_offset(off);
                    o
                })
                .collect();
            ("into-hard-soft-cls", rebuild(cnf, vm, objs)?)
        }
        _ => {
            let (cnf, softs, vm): (Cnf, Vec<(Vec<(Lit, usize)>, isize)>, _) = if single {
                let (c, mut o) = split_unmarked(&mut m);
                let mut i = OptInstance::new_with_manager(BasicVarManager::default());
                *i.constraints_mut() = c;
                *i.objective_mut() = o.remove(0);
                let (cnf, (s, off), vm) = i.into_hard_cls_soft_lits();
                (cnf, vec![(s.into_iter().collect(), off)], vm)
            } else {
                let (cnf, s, vm) = m.into_hard_cls_soft_lits();
                (cnf, s.into_iter().map(|(s, o)| (s.into_iter().collect(), o)).collect(), vm)
            };
            let objs = softs
                .into_iter()
                .map(|(s, off)| {
                    let mut o: Objective = s.into_iter().collect();
                    o.increase_offset(off);
                    o
                })
                .collect();
            ("into-hard-soft-lits", rebuild(cnf, vm, objs)?)
        }
    };
    ensure!(m.1.n_objectives() == k, "objectives-lost", "{} of {k} objectives after {}", m.1.n_objectives(), m.0);
    // model variables nobody used so far live beyond the auxiliary ones from now on
    let mut top = m.1.constraints_ref().n_vars() as i32;
    for v in &mut unused {
        top += 1;
        **v = top;
    }
    Ok(m)
}

/// takes an instance apart without telling the manager about the variables of the objectives
fn split_unmarked(m: &mut MultiOptInstance) -> (SatInstance, Vec<Objective>) {
    let c = std::mem::take(m.constraints_mut());
    let o = m.iter_obj_mut().map(std::mem::take).collect();
    (c, o)
}

// ------------------------------------------------------------------ variable managers

/// what a counting manager must do
struct Counter {
    next: u32,
}

fn count_op<M: ManageVars>(sim: &mut Sim, m: &mut M, c: &mut Counter, name: &str) -> Outcome {
    match sim.idx(4) {
        0 => {
            let v = if sim.coin() { m.new_var() } else { m.new_lit().var() };
            ensure!(v.idx32() == c.next, format!("new-var:{name}"), "{v} handed out, the next free variable is {}", c.next);
            c.next += 1;
            sim.op("new");
        }
        1 => {
            let v = sim.range(0, 12) as u32;
            let r = m.mark_used(Var::new(v));
            ensure!(r == (v + 1 > c.next), format!("mark:{name}"), "marking {v} returned {r}, next free is {}", c.next);
            c.next = c.next.max(v + 1);
            sim.op("mark");
        }
        2 => {
            let v = sim.range(0, 12) as u32;
            let r = m.increase_next_free(Var::new(v));
            ensure!(r == (v > c.next), format!("increase:{name}"), "increasing to {v} returned {r}, next free is {}", c.next);
            c.next = c.next.max(v);
            sim.op("increase");
        }
        _ => (),
    }
    Ok(())
}

fn counted<M: ManageVars>(m: &M, c: &Counter, name: &str) -> Outcome {
    ensure!(m.n_used() == c.next, format!("n-used:{name}"), "{} variables used, expected {}", m.n_used(), c.next);
    let w = c.next.checked_sub(1).map(Var::new);
    ensure!(m.max_var() == w, format!("max-var:{name}"), "highest variable {:?}, expected {w:?}", m.max_var());
    Ok(())
}

fn p23_basic(sim: &mut Sim) -> Outcome {
    let name = "basic";
    sim.panic_ctx = name.into();
    let mut c = Counter { next: 0 };
    let mut m = BasicVarManager::default();
    if sim.coin() {
        c.next = sim.range(0, 5) as u32;
        m = BasicVarManager::from_next_free(Var::new(c.next));
    }
    for _ in 0..sim.range(1, 12) {
        crate::persist::maybe(sim, &mut m, "BasicVarManager")?;
        match sim.idx(6) {
            0 => {
                let n = sim.range(0, 14) as u32;
                m.combine(BasicVarManager::from_next_free(Var::new(n)));
                c.next = c.next.max(n);
                sim.op("combine");
            }
            1 => {
                let n = sim.range(0, 14) as u32;
                m.forget_from(Var::new(n));
                c.next = c.next.min(n);
                sim.op("forget");
            }
            _ => count_op(sim, &mut m, &mut c, name)?,
        }
        sim.ev(format!("{}", c.next));
        counted(&m, &c, name)?;
        sim.state(u64::from(c.next));
    }
    sim.nontrivial = true;
    sim.st.shapes.insert(u64::from(c.next));
    Ok(())
}

fn p23_object(sim: &mut Sim) -> Outcome {
    let name = "object";
    sim.panic_ctx = name.into();
    // two managers so that they can be combined
    let mut ms: Vec<(ObjectVarManager, Counter, BTreeMap<(u8, u32), u32>)> = (0..2).map(|_| (ObjectVarManager::default(), Counter { next: 0 }, BTreeMap::new())).collect();
    if sim.coin() {
        let n = sim.range(0, 5) as u32;
        ms[0].0 = ObjectVarManager::from_next_free(Var::new(n));
        ms[0].1.next = n;
    }
    for _ in 0..sim.range(1, 16) {
        let i = sim.idx(2);
        match sim.idx(8) {
            0 if ms[0].1.next > 0 || ms[1].1.next > 0 => {
                let (om, oc, oo) = ms.pop().unwrap();
                ms[0].0.combine(om);
                ms[0].1.next = ms[0].1.next.max(oc.next);
                ms[0].2.extend(oo);
                ms.push((ObjectVarManager::default(), Counter { next: 0 }, BTreeMap::new()));
                sim.op("combine");
            }
            1 => {
                let n = sim.range(0, 10) as u32;
                let (m, c, o) = &mut ms[i];
                m.forget_from(Var::new(n));
                c.next = c.next.min(n);
                o.retain(|_, v| *v < n);
                sim.op("forget");
            }
            2..=5 => {
                let (m, c, o) = &mut ms[i];
                let t = sim.idx(5) as u8;
                let x = sim.range(0, 3) as u32;
                // equal numbers of different types are different objects
                let v = match t {
                    0 => m.object_var(x),
                    1 => m.object_var(x as u64),
                    2 => m.object_var(x.to_string()),
                    3 => m.object_var((x, "pair")),
                    _ => m.object_var(vec![x; x as usize]),
                };
                let want = *o.entry((t, x)).or_insert_with(|| {
                    c.next += 1;
                    c.next - 1
                });
                ensure!(v.idx32() == want, "object-var", "object {t}/{x} got {v}, expected {want}");
                sim.op("object");
            }
            _ => {
                let (m, c, _) = &mut ms[i];
                count_op(sim, m, c, name)?;
            }
        }
        for (m, c, _) in &ms {
            counted(m, c, name)?;
        }
        sim.ev(format!("{} {} {:?}", ms[0].1.next, ms[1].1.next, ms[0].2));
        sim.state(u64::from(ms[0].1.next) * 64 + ms[0].2.len() as u64);
    }
    sim.nontrivial = true;
    sim.st.shapes.insert(u64::from(ms[0].1.next) * 64 + ms[0].2.len() as u64);
    Ok(())
}

fn p23_reindexing(sim: &mut Sim) -> Outcome {
    let name = "reindexing";
    sim.panic_ctx = name.into();
    type S = (ReindexingVarManager, Counter, BTreeMap<u32, u32>);
    let fresh = |sim: &mut Sim| -> S {
        if sim.coin() {
            (ReindexingVarManager::default(), Counter { next: 0 }, BTreeMap::new())
        } else {
            let n = sim.range(0, 5) as u32;
            // variables below the next free one are documented to stay as they are
            (ReindexingVarManager::from_next_free(Var::new(n)), Counter { next: n }, (0..n).map(|v| (v, v)).collect())
        }
    };
    let mut s = fresh(sim);
    for _ in 0..sim.range(1, 14) {
        crate::persist::maybe(sim, &mut s.0, "ReindexingVarManager")?;
        match sim.idx(8) {
            0 => {
                let mut o = fresh(sim);
                for _ in 0..sim.range(0, 4) {
                    let v = sim.range(0, 9) as u32;
                    o.0.reindex(Var::new(v));
                    let Counter { next } = &mut o.1;
                    o.2.entry(v).or_insert_with(|| {
                        *next += 1;
                        *next - 1
                    });
                }
                s.0.combine(o.0);
                s.1.next = s.1.next.max(o.1.next);
                s.2.extend(o.2);
                sim.op("combine");
            }
            1 => {
                let n = sim.range(0, 10) as u32;
                s.0.forget_from(Var::new(n));
                s.1.next = s.1.next.min(n);
                s.2.retain(|_, v| *v < n);
                sim.op("forget");
            }
            2..=5 => {
                let v = sim.range(0, 9) as u32;
                let l = Lit::new(v, sim.coin());
                let w = if sim.coin() { s.0.reindex(l.var()) } else { s.0.reindex_lit(l).var() };
                let next = &mut s.1.next;
                let want = *s.2.entry(v).or_insert_with(|| {
                    *next += 1;
                    *next - 1
                });
                ensure!(w.idx32() == want, "reindex", "{v} re-indexed to {w}, expected {want}");
                sim.op("reindex");
            }
            _ => count_op(sim, &mut s.0, &mut s.1, name)?,
        }
        counted(&s.0, &s.1, name)?;
        for w in 0..s.1.next + 2 {
            let ins: Vec<u32> = s.2.iter().filter(|(_, x)| **x == w).map(|(v, _)| *v).collect();
            let r = s.0.reverse(Var::new(w)).map(|v| v.idx32());
            let good = if ins.is_empty() { r.is_none() } else { r.is_some_and(|r| ins.contains(&r)) };
            ensure!(good, "reverse", "the reverse of {w} is {r:?}, re-indexed to it were {ins:?}");
        }
        sim.ev(format!("{} {:?}", s.1.next, s.2));
        sim.state(u64::from(s.1.next) * 64 + s.2.len() as u64);
    }
    sim.nontrivial = true;
    sim.st.shapes.insert(u64::from(s.1.next) * 64 + s.2.len() as u64);
    Ok(())
}

fn p23_random(sim: &mut Sim) -> Outcome {
    let name = "random";
    sim.panic_ctx = name.into();
    let n = sim.range(0, 8) as u32;
    let mut m = RandReindVarManager::init(n);
    let mut c = Counter { next: n };
    let mut map: BTreeMap<u32, u32> = BTreeMap::new();
    for _ in 0..sim.range(1, 14) {
        crate::persist::maybe(sim, &mut m, "RandReindVarManager")?;
        match sim.idx(4) {
            0 => {
                count_op(sim, &mut m, &mut c, name)?;
            }
            _ => {
                let v = sim.range(0, 11) as u32;
                let w = m.reindex(Var::new(v)).idx32();
                if let Some(o) = map.get(&v) {
                    ensure!(*o == w, "reindex-again", "{v} re-indexed to {w}, earlier to {o}");
                }
                if let Some((o, _)) = map.iter().find(|(o, x)| **o != v && **x == w) {
                    bail!("reindex-injective", "{v} and {o} both re-indexed to {w}");
                }
                ensure!(if v < n { w < n } else { w == v }, "reindex-range", "{v} re-indexed to {w}, {n} variables are shuffled");
                map.insert(v, w);
                c.next = c.next.max(w + 1);
                sim.op("reindex");
            }
        }
        counted(&m, &c, name)?;
        for (v, w) in &map {
            let r = m.reverse(Var::new(*w)).map(|v| v.idx32());
            ensure!(r == Some(*v), "reverse", "{v} re-indexed to {w}, the reverse is {r:?}");
        }
        sim.ev(format!("{} {map:?}", c.next));
        sim.state(u64::from(c.next) * 64 + map.len() as u64);
    }
    sim.nontrivial = true;
    sim.st.shapes.insert(u64::from(c.next) * 64 + map.len() as u64);
    Ok(())
}

pub fn any(sim: &mut Sim) -> Outcome {
    match sim.weighted(&[4, 3, 4]) {
        0 => sat_histories(sim),
        1 => objective_histories(sim),
        _ => opt_histories(sim),
    }
}

pub fn managers(sim: &mut Sim) -> Outcome {
    match sim.idx(3) {
        0 => p23_basic(sim),
        1 => p23_reindexing(sim),
        _ => p23_random(sim),
    }
}

pub fn register(s: &mut Vec<Scenario>, p: &mut Vec<Prop>) {
    s.push(Scenario { prop: "P22", name: "satisfiability instances over building and conversion histories", weight: 4, f: sat_histories });
    s.push(Scenario { prop: "P22", name: "objectives over building and conversion histories", weight: 3, f: objective_histories });
    s.push(Scenario { prop: "P22", name: "optimisation instances over building and conversion histories", weight: 4, f: opt_histories });
    s.push(Scenario { prop: "P23", name: "counting manager", weight: 1, f: p23_basic });
    s.push(Scenario { prop: "P23", name: "object managers", weight: 3, f: p23_object });
    s.push(Scenario { prop: "P23", name: "re-indexing manager", weight: 3, f: p23_reindexing });
    s.push(Scenario { prop: "P23", name: "random re-indexing manager", weight: 2, f: p23_random });
    p.push(Prop {
        id: "P22",
        quick_runs: 1_200_000,
        thorough_runs: 12_000_000,
        rule: "runs in which at least one operation on an instance or objective was followed by a comparison with its meaning on all assignments, distinct by the hash of the full event trace",
        shape_measure: "distinct sequences of operations",
        real: &["rustsat::instances (SatInstance, OptInstance, MultiOptInstance, Objective, Cnf, variable managers)", "rustsat::types::constraints", "rustsat::encodings (through the conversions)"],
        stub: &["entropy for shuffling (seeded)", "SAT solver (reference procedure)"],
        assumptions: &["at most 5 original variables at indices up to 4000, 9 operations per history, weights up to 5000"],
    });
    p.push(Prop {
        id: "P23",
        quick_runs: 2_000_000,
        thorough_runs: 20_000_000,
        rule: "runs in which at least one operation on a manager was compared with the model, distinct by the hash of the full event trace",
        shape_measure: "distinct (next free variable, size of the map) at the end of a history",
        real: &["rustsat::instances (BasicVarManager, ObjectVarManager, ReindexingVarManager, RandReindVarManager)"],
        stub: &["entropy for the random permutation (seeded)"],
        assumptions: &["histories of at most 16 operations over at most 15 variables"],
    });
}
