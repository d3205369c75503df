//! P26 (at-most-one encodings), P25 (constraints: what they say, conversions, one-shot encoding,
//! implications).
use crate::enc::Col;
use crate::model::{assignment, bit, card_con, gen_con, gen_lit, lits, pb_con, to_cls, Con, Op};
use crate::util::lit;
use rustsat::encodings::{am1, atomics, card, pb, CollectClauses, ConstraintEncodingError, EncodeStats, IterInputs};
use rustsat::instances::{BasicVarManager, ManageVars};
use rustsat::types::constraints::{CardConstraint, PbConstraint, PbToCardError};
use rustsat::types::{Clause, Lit, TernaryVal, Var};
use rustsat::OutOfMemory;
use simcore::runner::{Prop, Scenario};
use simcore::{bail, ensure, Outcome, Sim};

// ------------------------------------------------------------------ at-most-one

trait Am1 {
    fn n(&self) -> usize;
    fn encode(&mut self, col: &mut Col, vm: &mut dyn ManageVars) -> Result<(), OutOfMemory>;
    fn add(&mut self, l: Vec<Lit>);
    fn inputs(&self) -> Vec<i32>;
    fn stats(&self) -> (usize, u32);
    fn restart(&mut self, sim: &mut Sim) -> Outcome;
}

impl<T> Am1 for T
where
    T: am1::Encode + Extend<Lit> + IterInputs + EncodeStats + serde::Serialize + serde::de::DeserializeOwned,
{
    fn restart(&mut self, sim: &mut Sim) -> Outcome {
        crate::persist::maybe(sim, self, "encoding")
    }
    fn n(&self) -> usize {
        self.n_lits()
    }
    fn encode(&mut self, col: &mut Col, vm: &mut dyn ManageVars) -> Result<(), OutOfMemory> {
        am1::Encode::encode(self, col, vm)
    }
    fn add(&mut self, l: Vec<Lit>) {
        self.extend(l);
    }
    fn inputs(&self) -> Vec<i32> {
        self.iter().map(Lit::to_ipasir).collect()
    }
    fn stats(&self) -> (usize, u32) {
        (self.n_clauses(), self.n_vars())
    }
}

fn make_am1(sim: &mut Sim, l: Vec<Lit>) -> (Box<dyn Am1>, &'static str) {
    let from = sim.coin();
    macro_rules! mk {
        ($t:ty) => {
            (if from { Box::new(<$t>::from(l)) as Box<dyn Am1> } else { Box::new(l.into_iter().collect::<$t>()) }, stringify!($t))
        };
    }
    use am1::*;
    match sim.idx(15) {
        0 => mk!(Pairwise),
        1 => mk!(Ladder),
        2 => mk!(Bitwise),
        3 => mk!(Commander),
        4 => mk!(Commander<2, Pairwise>),
        5 => mk!(Commander<3, Ladder>),
        6 => mk!(Commander<1, Bitwise>),
        7 => mk!(Bimander),
        8 => mk!(Bimander<2, Pairwise>),
        9 => mk!(Bimander<3, Bitwise>),
        10 => mk!(Bimander<1, Ladder>),
        11 => mk!(TwoProduct),
        12 => mk!(TwoProduct<Ladder>),
        13 => mk!(TwoProduct<Commander<3, Bitwise>>),
        _ => mk!(Commander<2, TwoProduct<Bitwise>>),
    }
}

fn fresh_only(col: &Col, from: usize, n_inputs: u32, vm: &BasicVarManager, tag: &str) -> Outcome {
    let top = vm.n_used() as i32;
    for c in &col.cls[from..] {
        for l in c {
            let v = l.abs();
            ensure!(v <= top, format!("vars:{tag}"), "clause {c:?} uses variable {v}, the manager has only given out {top}");
        }
    }
    let _ = n_inputs;
    Ok(())
}

/// checks for every assignment of variables `1..=nv` whether the clauses allow it exactly if `want`
fn table(col: &mut Col, nv: usize, class: &str, what: &str, mut want: impl FnMut(u64) -> bool) -> Outcome {
    for a in 0..1u64 << nv {
        let q: Vec<i32> = (1..=nv as i32).map(|v| if bit(a, v) { v } else { -v }).collect();
        let got = col.sat.solve(&q).is_some();
        let w = want(a);
        ensure!(got == w, format!("{class}:{}", if got { "allows" } else { "excludes" }), "{what}: the clauses {} assignment {q:?}", if got { "allow" } else { "exclude" });
    }
    Ok(())
}

pub fn p26(sim: &mut Sim) -> Outcome {
    let nv = sim.range(1, 7);
    let distinct = !sim.chance(1, 3);
    let mut ins: Vec<i32> = vec![];
    let gen = |sim: &mut Sim, ins: &mut Vec<i32>, n: usize| {
        let mut new = vec![];
        for _ in 0..n {
            let l = gen_lit(sim, nv);
            if distinct && ins.iter().any(|x| x.abs() == l.abs()) {
                continue;
            }
            ins.push(l);
            new.push(lit(l));
        }
        new
    };
    let n = sim.range(0, 9);
    let first = gen(sim, &mut ins, n);
    let (mut enc, name) = make_am1(sim, first);
    sim.panic_ctx = name.to_string();
    sim.op(name);
    let mut vm = BasicVarManager::default();
    vm.increase_next_free(Var::new(nv as u32 + sim.range(0, 2) as u32));
    let mut hist = vec![format!("{name} over {ins:?}")];
    let mut vars_total = 0;
    let rounds = sim.range(1, 3);
    for round in 0..rounds {
        enc.restart(sim)?;
        crate::persist::maybe(sim, &mut vm, "variable manager")?;
        if round > 0 && sim.chance(2, 3) {
            let k = sim.range(0, 3);
            let more = gen(sim, &mut ins, k);
            enc.add(more);
            hist.push(format!("extended to {ins:?}"));
        }
        ensure!(enc.n() == ins.len() && enc.inputs() == ins, format!("inputs:{name}"), "{} inputs {:?} reported for {ins:?}", enc.n(), enc.inputs());
        enc.restart(sim)?;
        let mut col = Col::default();
        if sim.chance(1, 3) {
            // clauses of somebody else
            let c: Clause = [lit(1), lit(-1)].into_iter().collect();
            col.extend_clauses([c]).unwrap();
        }
        let from = col.cls.len();
        let oom = sim.chance(1, 4);
        if oom {
            col.budget = Some(sim.range(0, 20));
        }
        let before = vm.n_used();
        sim.ev(format!("encode {ins:?} budget {:?}", col.budget));
        let res = enc.encode(&mut col, &mut vm);
        let am1 = |a: u64| ins.iter().filter(|l| bit(a, **l)).count() <= 1;
        fresh_only(&col, from, nv as u32, &vm, name)?;
        match res {
            Err(_) => {
                ensure!(col.refused > 0, format!("error:{name}"), "out of memory reported though every clause was accepted ({hist:?})");
                sim.fault("collector refuses a clause");
                sim.nontrivial = true;
                let mut c = col;
                // only assignments that violate the constraint may be excluded
                for a in 0..1u64 << nv {
                    let q: Vec<i32> = (1..=nv as i32).map(|v| if bit(a, v) { v } else { -v }).collect();
                    ensure!(!am1(a) || c.sat.solve(&q).is_some(), format!("oom:{name}"), "{hist:?}: an incomplete encoding excludes {q:?}");
                }
                vars_total += vm.n_used() - before;
            }
            Ok(()) => {
                ensure!(col.refused == 0, format!("swallowed:{name}"), "the collector refused a clause, but success was reported ({hist:?})");
                sim.nontrivial |= ins.len() > 1;
                let added = col.cls.len() - from;
                vars_total += vm.n_used() - before;
                table(&mut col, nv, &format!("am1:{name}"), &format!("{hist:?}"), am1)?;
                let (c, v) = enc.stats();
                if round == 0 && !oom {
                    ensure!(c == added && v == vars_total, format!("stats:{name}"), "{c} clauses and {v} variables reported, {added} and {vars_total} used ({hist:?})");
                }
            }
        }
        sim.state(simcore::sim::mix(simcore::sim::hash_str(name), (ins.len() * 4 + round) as u64));
    }
    sim.st.shapes.insert(simcore::sim::mix(simcore::sim::hash_str(name), (ins.len() * 64 + rounds * 8 + nv) as u64));
    Ok(())
}

// ------------------------------------------------------------------ constraints

pub fn build_pb(sim: &mut Sim, c: &Con) -> PbConstraint {
    let l: Vec<(Lit, isize)> = c.terms.iter().map(|(w, l)| (lit(*l), *w as isize)).collect();
    let unsigned = l.iter().all(|x| x.1 >= 0) && sim.coin();
    // part of the terms and the bound may be added later
    let split = if sim.chance(1, 4) { sim.range(0, l.len()) } else { l.len() };
    let b = c.rhs as isize;
    let (head, tail) = l.split_at(split);
    macro_rules! mk {
        ($u:ident, $s:ident, $b:expr) => {
            if unsigned {
                PbConstraint::$u(head.iter().map(|(l, w)| (*l, *w as usize)), $b)
            } else {
                PbConstraint::$s(head.iter().copied(), $b)
            }
        };
    }
    let mut p = match c.op {
        Op::Le => mk!(new_ub_unsigned, new_ub, b),
        Op::Lt => mk!(new_ub_unsigned, new_ub, b - 1),
        Op::Ge => mk!(new_lb_unsigned, new_lb, b),
        Op::Gt => mk!(new_lb_unsigned, new_lb, b + 1),
        Op::Eq => mk!(new_eq_unsigned, new_eq, b),
    };
    if !tail.is_empty() {
        p.add(tail.iter().copied());
    }
    if sim.chance(1, 6) {
        // moving the bound there and back
        let old = p.bound();
        p.set_bound(old + 3);
        p.set_bound(old);
    }
    p
}

pub fn gen_card(sim: &mut Sim, nv: usize) -> (Con, CardConstraint) {
    let n = sim.range(0, 6);
    let t: Vec<i32> = (0..n).map(|_| gen_lit(sim, nv)).collect();
    let b = sim.range(0, n + 1);
    let op = *sim.pick(&[Op::Ge, Op::Le, Op::Eq]);
    let split = if sim.chance(1, 4) { sim.range(0, n) } else { n };
    let (h, tl) = t.split_at(split);
    let l = lits(h);
    let mut c = match op {
        Op::Ge => CardConstraint::new_lb(l, b),
        Op::Le => CardConstraint::new_ub(l, b),
        _ => CardConstraint::new_eq(l, b),
    };
    c.add(lits(tl));
    if sim.chance(1, 6) {
        c.set_bound(b + 1);
        c.change_bound(b);
    }
    (Con { terms: t.iter().map(|&l| (1, l)).collect(), op, rhs: b as i64 }, c)
}

fn same(a: &Con, b: &Con, nv: usize, class: &str, what: impl Fn() -> String) -> Outcome {
    for x in 0..1u64 << nv {
        let (g, w) = (a.holds(x), b.holds(x));
        ensure!(g == w, class, "{}: on assignment {x:b} the result {a:?} says {g}, but {b:?} says {w}", what());
    }
    Ok(())
}

/// every completion of a partial assignment agrees with a definite value
fn check_eval(sim: &mut Sim, c: &Con, nv: usize, class: &str, eval: impl Fn(&rustsat::types::Assignment) -> TernaryVal) -> Outcome {
    let a = sim.choose(1 << nv);
    let mask = if sim.coin() { (1 << nv) - 1 } else { sim.choose(1 << nv) };
    let mut asg = assignment(a, nv);
    for v in 0..nv {
        if mask >> v & 1 == 0 {
            asg.assign_var(Var::new(v as u32), TernaryVal::DontCare);
        }
    }
    let got = eval(&asg);
    let (mut t, mut f) = (false, false);
    for x in 0..1u64 << nv {
        if (x ^ a) & mask == 0 {
            if c.holds(x) {
                t = true;
            } else {
                f = true;
            }
        }
    }
    let ok = match got {
        TernaryVal::True => !f,
        TernaryVal::False => !t,
        // only a complete assignment has to be decided
        TernaryVal::DontCare => mask != (1 << nv) - 1,
    };
    ensure!(ok, class, "{c:?} evaluates to {got:?} under {asg}, completions satisfy it: {t}, falsify it: {f}");
    Ok(())
}

struct Flags {
    taut: bool,
    unsat: bool,
    pos: bool,
    neg: bool,
    clause: bool,
}

fn check_flags(c: &Con, nv: usize, f: &Flags, tag: &str) -> Outcome {
    for x in 0..1u64 << nv {
        let h = c.holds(x);
        ensure!(!f.taut || h, format!("is_tautology:{tag}"), "{c:?} is called a tautology, but {x:b} falsifies it");
        ensure!(!f.unsat || !h, format!("is_unsat:{tag}"), "{c:?} is called unsatisfiable, but {x:b} satisfies it");
        ensure!(f.taut || !f.pos || h == c.terms.iter().all(|(w, l)| bit(x, *l) == (*w >= 0)), format!("is_positive_assignment:{tag}"), "{c:?} is said to assign all literals to true, but not on {x:b}");
        ensure!(f.taut || !f.neg || h == c.terms.iter().all(|(w, l)| bit(x, *l) == (*w < 0)), format!("is_negative_assignment:{tag}"), "{c:?} is said to assign all literals to false, but not on {x:b}");
    }
    let _ = f.clause;
    Ok(())
}

/// the constraint as the proof writer gets to see it
fn proof_view<C: pigeons::ConstraintLike<Var> + ?Sized>(c: &C) -> Con {
    let terms = c
        .sum_iter()
        .map(|(w, a)| {
            let s = a.to_string();
            let (neg, v) = s.strip_prefix('~').map_or((false, s.as_str()), |v| (true, v));
            let v: i32 = v.trim_start_matches('x').parse().expect("a variable");
            (w as i64, if neg { -v } else { v })
        })
        .collect();
    Con { terms, op: Op::Ge, rhs: c.rhs() as i64 }
}

fn transform(sim: &mut Sim) -> Outcome {
    let nv = sim.range(1, 4);
    sim.nontrivial = true;
    if sim.coin() {
        let c = gen_con(sim, nv);
        let p = build_pb(sim, &c);
        sim.ev(format!("{c:?}"));
        sim.panic_ctx = "pb".into();
        let here = || format!("{c:?}");
        same(&pb_con(&p), &c, nv, "pb:build", here)?;
        let ws: i64 = c.terms.iter().map(|t| t.0.abs()).sum();
        ensure!(p.weight_sum() as i64 == ws, "pb:weight_sum", "{c:?}: weight sum {}", p.weight_sum());
        ensure!(p.len() == c.terms.len() && p.n_lits() == p.len() && p.is_empty() == c.terms.is_empty() && p.iter().count() == p.len(), "pb:len", "{c:?}: length {}", p.len());
        let f = Flags { taut: p.is_tautology(), unsat: p.is_unsat(), pos: p.is_positive_assignment(), neg: p.is_negative_assignment(), clause: p.is_clause() };
        let flag_con = pb_con(&p);
        check_flags(&flag_con, nv, &f, "pb")?;
        check_eval(sim, &c, nv, "pb:evaluate", |a| p.evaluate(a))?;
        same(&pb_con(&p.clone().normalize()), &c, nv, "pb:normalize", here)?;
        match p.clone().into_clause() {
            Ok(cl) => same(&Con::clause(&to_cls(&cl)), &c, nv, "pb:into_clause", here)?,
            Err(_) => ensure!(!f.clause, "pb:into_clause:error", "{c:?}"),
        }
        let card = p.is_card();
        match p.clone().into_card_constr() {
            Ok(k) => same(&card_con(&k), &c, nv, "pb:into_card", here)?,
            Err(PbToCardError::NotACard) => ensure!(!card, "pb:into_card:not", "{c:?}"),
            Err(PbToCardError::Tautology) => same(&c, &Con::clause(&[1, -1]), nv, "pb:into_card:tautology", here)?,
            Err(PbToCardError::Unsat) => same(&c, &Con::clause(&[]), nv, "pb:into_card:unsat", here)?,
        }
        if !f.unsat && !f.taut {
            same(&card_con(&p.clone().extend_to_card_constr()), &c, nv, "pb:extend_to_card", here)?;
        }
        match p.clone() {
            PbConstraint::Ub(u) => same(&pb_con(&PbConstraint::Lb(u.invert())), &c, nv, "pb:invert", here)?,
            PbConstraint::Lb(u) => same(&pb_con(&PbConstraint::Ub(u.invert())), &c, nv, "pb:invert", here)?,
            PbConstraint::Eq(u) => {
                let (a, b) = u.split();
                let (a, b) = (pb_con(&PbConstraint::Lb(a)), pb_con(&PbConstraint::Ub(b)));
                for x in 0..1u64 << nv {
                    ensure!((a.holds(x) && b.holds(x)) == c.holds(x), "pb:split", "{c:?}: split into {a:?} and {b:?}");
                }
            }
        }
        if !matches!(p, PbConstraint::Eq(_)) {
            same(&proof_view(&p), &c, nv, "pb:proof-view", here)?;
        }
        let sum: i64 = p.clone().into_lits().into_iter().map(|(_, w)| w as i64).sum();
        ensure!(sum == ws, "pb:into_lits", "{c:?}");
    } else {
        let (c, p) = gen_card(sim, nv);
        sim.ev(format!("{c:?}"));
        sim.panic_ctx = "card".into();
        let here = || format!("{c:?}");
        same(&card_con(&p), &c, nv, "card:build", here)?;
        ensure!(p.len() == c.terms.len() && p.n_lits() == p.len() && p.is_empty() == c.terms.is_empty() && p.iter().count() == p.len() && p.bound() as i64 == c.rhs, "card:len", "{c:?}");
        let f = Flags { taut: p.is_tautology(), unsat: p.is_unsat(), pos: p.is_positive_assignment(), neg: p.is_negative_assignment(), clause: p.is_clause() };
        check_flags(&c, nv, &f, "card")?;
        check_eval(sim, &c, nv, "card:evaluate", |a| p.evaluate(a))?;
        same(&card_con(&p.clone().normalize()), &c, nv, "card:normalize", here)?;
        same(&pb_con(&PbConstraint::from(p.clone())), &c, nv, "card:to_pb", here)?;
        if !matches!(p, CardConstraint::Eq(_)) {
            same(&proof_view(&p), &c, nv, "card:proof-view", here)?;
        }
        match p.clone().into_clause() {
            Ok(cl) => same(&Con::clause(&to_cls(&cl)), &c, nv, "card:into_clause", here)?,
            Err(_) => ensure!(!f.clause, "card:into_clause:error", "{c:?}"),
        }
        match p.clone() {
            CardConstraint::Ub(u) => same(&card_con(&CardConstraint::Lb(u.invert())), &c, nv, "card:invert", here)?,
            // an unsatisfiable lower bound has no upper bound counterpart
            CardConstraint::Lb(u) => {
                if !f.unsat {
                    same(&card_con(&CardConstraint::Ub(u.invert())), &c, nv, "card:invert", here)?;
                }
            }
            CardConstraint::Eq(u) => {
                let (a, b) = u.split();
                let (a, b) = (card_con(&CardConstraint::Lb(a)), card_con(&CardConstraint::Ub(b)));
                for x in 0..1u64 << nv {
                    ensure!((a.holds(x) && b.holds(x)) == c.holds(x), "card:split", "{c:?}: split into {a:?} and {b:?}");
                }
            }
        }
        // clauses
        let k = sim.range(0, 5);
        let cl: Vec<i32> = (0..k).map(|_| gen_lit(sim, nv)).collect();
        let cc = Con::clause(&cl);
        let real: Clause = lits(&cl).into_iter().collect();
        let h = || format!("clause {cl:?}");
        // a clause with repeated literals counts them in the sum, but any true literal suffices
        let sat = |x: u64| cl.iter().any(|l| bit(x, *l));
        let chk = |got: Option<Vec<i32>>, class: &str| -> Outcome {
            for x in 0..1u64 << nv {
                let g = got.as_ref().is_none_or(|g| g.iter().any(|l| bit(x, *l)));
                ensure!(g == sat(x), class, "{cl:?} became {got:?}");
            }
            Ok(())
        };
        chk(real.clone().normalize().map(|c| to_cls(&c)), "clause:normalize")?;
        chk(real.clone().sanitize().map(|c| to_cls(&c)), "clause:sanitize")?;
        let taut = (0..1u64 << nv).all(sat);
        ensure!(real.is_tautology() == taut, "clause:is_tautology", "{cl:?}");
        // the documented normal forms
        if cl.len() > 1 {
            let mut want: Vec<i32> = vec![];
            for l in &cl {
                if !want.contains(l) {
                    want.push(*l);
                }
            }
            let got = real.clone().sanitize().map(|c| to_cls(&c));
            ensure!(got == (!taut).then(|| want.clone()), "clause:sanitize:form", "{cl:?} became {got:?}");
            want.sort_unstable_by_key(|l| (l.abs(), *l < 0));
            let got = real.clone().normalize().map(|c| to_cls(&c));
            ensure!(got == (!taut).then_some(want), "clause:normalize:form", "{cl:?} became {got:?}");
        }
        same(&proof_view(&real), &cc, nv, "clause:proof-view", h)?;
        same(&proof_view::<rustsat::types::Cl>(&real), &cc, nv, "clause:proof-view", h)?;
        ensure!(real.is_unit() == (cl.len() == 1) && real.is_binary() == (cl.len() == 2), "clause:len", "{cl:?}");
        check_eval(sim, &cc, nv, "clause:evaluate", |a| real.evaluate(a))?;
        same(&card_con(&CardConstraint::from(real.clone())), &cc, nv, "clause:to_card", h)?;
        same(&pb_con(&PbConstraint::from(real.clone())), &cc, nv, "clause:to_pb", h)?;
        if !cl.is_empty() {
            let l = *sim.pick(&cl);
            let mut r = real.clone();
            let had = r.remove_thorough(lit(l));
            let want: Vec<i32> = cl.iter().copied().filter(|x| *x != l).collect();
            let mut got = to_cls(&r);
            got.sort_unstable();
            let mut want2 = want;
            want2.sort_unstable();
            ensure!(had && got == want2, "clause:remove_thorough", "{cl:?} without {l}: {got:?}");
            let mut r = real.clone();
            let had = r.remove(lit(l));
            ensure!(had && r.len() + 1 == cl.len(), "clause:remove", "{cl:?} without one {l}: {r}");
        }
    }
    Ok(())
}

fn implications(sim: &mut Sim) -> Outcome {
    let nv = sim.range(2, 5);
    sim.nontrivial = true;
    let l = gen_lit(sim, nv);
    let m = gen_lit(sim, nv);
    let ka = sim.range(0, 3);
    let a: Vec<i32> = (0..ka).map(|_| gen_lit(sim, nv)).collect();
    let kb = sim.range(0, 3);
    let b: Vec<i32> = (0..kb).map(|_| gen_lit(sim, nv)).collect();
    let (la, lb) = (lits(&a), lits(&b));
    let all = |c: &[i32], x: u64| c.iter().all(|l| bit(x, *l));
    let any = |c: &[i32], x: u64| c.iter().any(|l| bit(x, *l));
    sim.ev(format!("{l} {m} {a:?} {b:?}"));
    sim.panic_ctx = "implication".into();
    let chk = |name: &str, cls: Vec<Clause>, f: &dyn Fn(u64) -> bool| -> Outcome {
        for x in 0..1u64 << nv {
            let g = cls.iter().all(|c| any(&to_cls(c), x));
            ensure!(g == f(x), format!("impl:{name}"), "{name} of {l}, {m}, {a:?}, {b:?} gives {cls:?}, wrong on {x:b}");
        }
        Ok(())
    };
    use atomics::*;
    chk("lit_impl_lit", vec![lit_impl_lit(lit(l), lit(m))], &|x| !bit(x, l) || bit(x, m))?;
    chk("lit_impl_clause", vec![lit_impl_clause(lit(l), &lb)], &|x| !bit(x, l) || any(&b, x))?;
    chk("lit_impl_cube", lit_impl_cube(lit(l), &lb).collect(), &|x| !bit(x, l) || all(&b, x))?;
    chk("cube_impl_lit", vec![cube_impl_lit(&la, lit(m))], &|x| !all(&a, x) || bit(x, m))?;
    chk("cube_impl_clause", vec![cube_impl_clause(&la, &lb)], &|x| !all(&a, x) || any(&b, x))?;
    chk("cube_impl_cube", cube_impl_cube(&la, &lb).collect(), &|x| !all(&a, x) || all(&b, x))?;
    chk("clause_impl_lit", clause_impl_lit(&la, lit(m)).collect(), &|x| !any(&a, x) || bit(x, m))?;
    chk("clause_impl_clause", clause_impl_clause(&la, &lb).collect(), &|x| !any(&a, x) || any(&b, x))?;
    chk("clause_impl_cube", clause_impl_cube(&la, &lb).collect(), &|x| !any(&a, x) || all(&b, x))?;
    let cmp = |name: &str, p: PbConstraint, f: &dyn Fn(u64) -> bool, c: &Con| -> Outcome {
        for x in 0..1u64 << nv {
            ensure!(pb_con(&p).holds(x) == f(x), format!("impl:{name}"), "{name} of {l} and {c:?} gives {:?}, wrong on {x:b}", pb_con(&p));
        }
        Ok(())
    };
    let (c, k) = gen_card(sim, nv);
    if !k.is_unsat() && c.op != Op::Eq {
        sim.panic_ctx = "lit_impl_card".into();
        cmp("lit_impl_card", lit_impl_card(lit(l), &k), &|x| !bit(x, l) || c.holds(x), &c)?;
        sim.panic_ctx = "card_impl_lit".into();
        cmp("card_impl_lit", card_impl_lit(&k, lit(l)), &|x| !c.holds(x) || bit(x, l), &c)?;
    }
    let mut c = gen_con(sim, nv);
    if c.op == Op::Eq {
        c.op = Op::Ge;
    }
    let p = build_pb(sim, &c);
    if !p.is_unsat() {
        sim.panic_ctx = "lit_impl_pb".into();
        cmp("lit_impl_pb", lit_impl_pb(lit(l), &p), &|x| !bit(x, l) || c.holds(x), &c)?;
        sim.panic_ctx = "pb_impl_lit".into();
        cmp("pb_impl_lit", pb_impl_lit(&p, lit(l)), &|x| !c.holds(x) || bit(x, l), &c)?;
    }
    Ok(())
}

/// a constraint with coefficients small enough for the unary encodings
pub fn small(sim: &mut Sim, nv: usize) -> Con {
    let mut c = gen_con(sim, nv);
    for t in &mut c.terms {
        if t.0 > 12 {
            let w = 1 + t.0 % 12;
            t.0 = w;
        }
    }
    let lo: i64 = c.terms.iter().map(|t| t.0.min(0)).sum();
    let hi: i64 = c.terms.iter().map(|t| t.0.max(0)).sum();
    c.rhs = lo - 1 + (c.rhs - lo + 1).rem_euclid(hi - lo + 3);
    c
}

fn oneshot(sim: &mut Sim) -> Outcome {
    let nv = sim.range(1, 5);
    let mut col = Col::default();
    let mut vm = BasicVarManager::default();
    vm.increase_next_free(Var::new(nv as u32));
    if sim.chance(1, 4) {
        col.budget = Some(sim.range(0, 15));
    }
    type T = card::Totalizer;
    type Inv<X> = card::simulators::Inverted<X>;
    type Dbl<X, Y> = card::simulators::Double<X, Y>;
    type G = pb::GeneralizedTotalizer;
    type A = pb::BinaryAdder;
    type D = pb::DynamicPolyWatchdog;
    type PInv<X> = pb::simulators::Inverted<X>;
    type PDbl<X, Y> = pb::simulators::Double<X, Y>;
    type PCard<X> = pb::simulators::Card<X>;
    /// the result of an encoder that reports unsatisfiable constraints as errors
    fn strict(r: Result<(), ConstraintEncodingError>) -> Result<bool, OutOfMemory> {
        match r {
            Ok(()) => Ok(true),
            Err(ConstraintEncodingError::Unsat) => Ok(false),
            Err(ConstraintEncodingError::OutOfMemory(e)) => Err(e),
        }
    }
    let (c, res, name): (Con, Result<bool, OutOfMemory>, String) = if sim.coin() {
        let (c, k) = gen_card(sim, nv);
        sim.ev(format!("{c:?}"));
        macro_rules! go {
            ($e:expr, $n:expr) => {{
                sim.panic_ctx = $n.to_string();
                sim.op($n);
                $e
            }};
        }
        use card::{BoundBoth, BoundLower, BoundUpper};
        let mut name = "";
        let r = match sim.idx(9) {
            0 => go!(card::default_encode_cardinality_constraint(k, &mut col, &mut vm).map(|()| true), { name = "default_encode_cardinality_constraint"; name }),
            1 => go!(card::encode_cardinality_constraint::<Inv<T>, _>(k, &mut col, &mut vm).map(|()| true), { name = "encode_cardinality_constraint<Inverted>"; name }),
            2 => go!(card::encode_cardinality_constraint::<Dbl<T, Inv<T>>, _>(k, &mut col, &mut vm).map(|()| true), { name = "encode_cardinality_constraint<Double>"; name }),
            3 => go!(strict(T::encode_constr(k, &mut col, &mut vm)), { name = "Totalizer::encode_constr"; name }),
            4 => go!(strict(Dbl::<Inv<T>, T>::encode_constr(k, &mut col, &mut vm)), { name = "Double::encode_constr"; name }),
            _ => match k {
                CardConstraint::Ub(u) => go!(if sim.coin() { T::encode_ub_constr(u, &mut col, &mut vm).map(|()| true) } else { Inv::<T>::encode_ub_constr(u, &mut col, &mut vm).map(|()| true) }, { name = "encode_ub_constr"; name }),
                CardConstraint::Lb(u) => go!(strict(if sim.coin() { T::encode_lb_constr(u, &mut col, &mut vm) } else { Inv::<T>::encode_lb_constr(u, &mut col, &mut vm) }), { name = "encode_lb_constr"; name }),
                CardConstraint::Eq(u) => go!(strict(if sim.coin() { T::encode_eq_constr(u, &mut col, &mut vm) } else { Inv::<T>::encode_eq_constr(u, &mut col, &mut vm) }), { name = "encode_eq_constr"; name }),
            },
        };
        (c, r, format!("card:{name}"))
    } else {
        let c = small(sim, nv);
        let k = build_pb(sim, &c);
        sim.ev(format!("{c:?}"));
        use pb::{BoundBoth, BoundLower, BoundUpper};
        let zero = c.terms.iter().any(|t| t.0 == 0);
        let mut name = "";
        macro_rules! go {
            ($e:expr, $n:expr) => {{
                name = $n;
                sim.panic_ctx = format!("{name}{}", if zero { ":zero" } else { "" });
                sim.op($n);
                $e
            }};
        }
        let r = match sim.idx(14) {
            0 | 1 => go!(pb::default_encode_pb_constraint(k, &mut col, &mut vm).map(|()| true), "default_encode_pb_constraint"),
            2 => go!(pb::encode_pb_constraint::<A, _>(k, &mut col, &mut vm).map(|()| true), "encode_pb_constraint<BinaryAdder>"),
            3 => go!(pb::encode_pb_constraint::<PInv<A>, _>(k, &mut col, &mut vm).map(|()| true), "encode_pb_constraint<Inverted<BinaryAdder>>"),
            4 => go!(pb::encode_pb_constraint::<PDbl<G, PInv<G>>, _>(k, &mut col, &mut vm).map(|()| true), "encode_pb_constraint<Double<GTE>>"),
            5 => go!(pb::encode_pb_constraint::<PDbl<D, PInv<D>>, _>(k, &mut col, &mut vm).map(|()| true), "encode_pb_constraint<Double<DPW>>"),
            6 => go!(pb::encode_pb_constraint::<PCard<T>, _>(k, &mut col, &mut vm).map(|()| true), "encode_pb_constraint<Card<Totalizer>>"),
            7 => go!(strict(A::encode_constr(k, &mut col, &mut vm)), "BinaryAdder::encode_constr"),
            8 => go!(strict(PDbl::<D, PInv<G>>::encode_constr(k, &mut col, &mut vm)), "Double<DPW, GTE>::encode_constr"),
            _ => match k {
                PbConstraint::Ub(u) => match sim.idx(4) {
                    0 => go!(strict(G::encode_ub_constr(u, &mut col, &mut vm)), "GTE::encode_ub_constr"),
                    1 => go!(strict(D::encode_ub_constr(u, &mut col, &mut vm)), "DPW::encode_ub_constr"),
                    2 => go!(strict(A::encode_ub_constr(u, &mut col, &mut vm)), "Adder::encode_ub_constr"),
                    _ => go!(strict(PCard::<T>::encode_ub_constr(u, &mut col, &mut vm)), "Card::encode_ub_constr"),
                },
                PbConstraint::Lb(u) => match sim.idx(4) {
                    0 => go!(strict(PInv::<G>::encode_lb_constr(u, &mut col, &mut vm)), "Inverted<GTE>::encode_lb_constr"),
                    1 => go!(strict(PInv::<D>::encode_lb_constr(u, &mut col, &mut vm)), "Inverted<DPW>::encode_lb_constr"),
                    2 => go!(strict(A::encode_lb_constr(u, &mut col, &mut vm)), "Adder::encode_lb_constr"),
                    _ => go!(strict(PCard::<T>::encode_lb_constr(u, &mut col, &mut vm)), "Card::encode_lb_constr"),
                },
                PbConstraint::Eq(u) => match sim.idx(3) {
                    0 => go!(strict(A::encode_eq_constr(u, &mut col, &mut vm)), "Adder::encode_eq_constr"),
                    1 => go!(strict(PInv::<A>::encode_eq_constr(u, &mut col, &mut vm)), "Inverted<Adder>::encode_eq_constr"),
                    _ => go!(strict(PCard::<T>::encode_eq_constr(u, &mut col, &mut vm)), "Card::encode_eq_constr"),
                },
            },
        };
        (c, r, format!("pb:{name}{}", if zero { ":zero" } else { "" }))
    };
    let name = format!("oneshot:{name}");
    fresh_only(&col, 0, nv as u32, &vm, &name)?;
    sim.nontrivial = true;
    match res {
        Err(_) => {
            ensure!(col.refused > 0, format!("{name}:error"), "out of memory reported though every clause was accepted for {c:?}");
            sim.fault("collector refuses a clause");
            for a in 0..1u64 << nv {
                let q: Vec<i32> = (1..=nv as i32).map(|v| if bit(a, v) { v } else { -v }).collect();
                ensure!(!c.holds(a) || col.sat.solve(&q).is_some(), format!("{name}:oom"), "{c:?}: an incomplete encoding excludes the solution {q:?}");
            }
        }
        Ok(ok) => {
            ensure!(col.refused == 0, format!("{name}:swallowed"), "the collector refused a clause, but success was reported for {c:?}");
            if ok {
                table(&mut col, nv, &name, &format!("{c:?}"), |a| c.holds(a))?;
            } else {
                for a in 0..1u64 << nv {
                    ensure!(!c.holds(a), format!("{name}:unsat"), "{c:?} is reported as unsatisfiable");
                }
            }
        }
    }
    sim.state(simcore::sim::hash_str(&name));
    sim.st.shapes.insert(simcore::sim::mix(simcore::sim::hash_str(&name), (c.terms.len() * 16 + c.op as usize) as u64));
    Ok(())
}

pub fn register(s: &mut Vec<Scenario>, p: &mut Vec<Prop>) {
    s.push(Scenario { prop: "P26", name: "at-most-one encodings over extension histories", weight: 5, f: p26 });
    s.push(Scenario { prop: "P25", name: "constraint conversions and evaluation", weight: 3, f: transform });
    s.push(Scenario { prop: "P25", name: "implications", weight: 2, f: implications });
    s.push(Scenario { prop: "P25", name: "one-shot encoding with a collector that may run out of memory", weight: 5, f: oneshot });
    p.push(Prop {
        id: "P26",
        quick_runs: 1_500_000,
        thorough_runs: 6_000_000,
        rule: "runs in which an encoding over at least two literals was compared with the constraint, or the collector refused a clause, distinct by the hash of the full event trace",
        shape_measure: "distinct (encoding, number of inputs, number of rounds, number of variables)",
        real: &["rustsat::encodings::am1", "rustsat::instances::BasicVarManager"],
        stub: &["clause collector (recording, refuses clauses)", "SAT solver (reference procedure)"],
        assumptions: &["up to 18 input literals over at most 7 variables"],
    });
    p.push(Prop {
        id: "P25",
        quick_runs: 3_000_000,
        thorough_runs: 10_000_000,
        rule: "runs that compared a constraint with its meaning on all assignments, distinct by the hash of the full event trace",
        shape_measure: "distinct (encoder, number of terms, comparison)",
        real: &["rustsat::types::constraints", "rustsat::encodings (atomics, card, pb)", "rustsat::instances::BasicVarManager"],
        stub: &["clause collector (recording, refuses clauses)", "SAT solver (reference procedure)"],
        assumptions: &["at most 6 terms over at most 5 variables, coefficients up to 1000 in absolute value"],
    });
}
