//! P12: allocations of the native code fail at chosen points.
use crate::heap::{self, Plan, Seen};
use crate::hist::{self, check_state, ok, verdict, Res, St, M};
use crate::slv::{K, R, S};
use rustsat::solvers::SolverResult;
use rustsat::types::Var;
use simcore::runner::{set_ctx, take_panic, Prop, Scenario};
use std::panic::{catch_unwind, AssertUnwindSafe};
use simcore::{bail, ensure, Outcome, Sim};

fn is_oom(e: &anyhow::Error) -> bool {
    e.chain().any(|c| c.downcast_ref::<rustsat::OutOfMemory>().is_some())
}

/// CaDiCaL's sub-solver Kitten is C code that ends the process by design when `calloc` or `realloc`
/// fail, these are spared
fn plan(sim: &mut Sim, k: K) -> Plan {
    let fail_at = match sim.weighted(&[3, 4, 3, 2, 1]) {
        0 => 0,
        1 => sim.range(1, 3) as u64,
        2 => sim.range(1, 12) as u64,
        3 => sim.range(1, 60) as u64,
        _ => sim.range(1, 600) as u64,
    };
    let fail_len = match sim.weighted(&[3, 2, 2]) {
        0 => 1,
        1 => sim.range(2, 5) as u64,
        _ => u64::MAX / 2,
    };
    Plan { fail_at, fail_len, act_at: 0, act: None, spare_c: k == K::Cad }
}

/// Runs one call with failing allocations. `None`: it reported that it ran out of memory
fn call<T>(sim: &mut Sim, k: K, op: &'static str, f: impl FnOnce() -> R<T>) -> Res<Option<T>> {
    let p = plan(sim, k);
    sim.op(op);
    set_ctx(sim, op);
    let (at, len) = (p.fail_at, p.fail_len);
    let (r, seen) = heap::window(p, f);
    if seen.failed > 0 {
        sim.fault("allocation_fails");
        sim.ev(format!("{op}: allocation {at}.. of {} failed {} times", seen.allocs, seen.failed));
    }
    match r {
        Ok(t) => {
            if seen.failed > 0 {
                sim.probe("survived_failure");
            }
            Ok(Some(t))
        }
        Err(e) => {
            ensure!(is_oom(&e), "error:kind", "{k:?}: {op} failed with {e:#}");
            ensure!(seen.failed > 0, "error:spurious", "{k:?}: {op} reported to be out of memory although no allocation failed");
            sim.probe(&format!("out_of_memory:{op}"));
            sim.nontrivial = true;
            Ok(None)
        }
    }
}

/// The constructor: the documented answer to missing memory is a panic
fn construct(sim: &mut Sim, k: K) -> Res<Option<S>> {
    set_ctx(sim, "init");
    if sim.chance(7, 8) {
        return Ok(Some(S::new(k)));
    }
    sim.op("init");
    let p = plan(sim, k);
    take_panic(); // sets up its thread-local storage
    let (r, seen) = heap::window(p, || catch_unwind(AssertUnwindSafe(|| S::new(k))));
    if seen.failed > 0 {
        sim.fault("allocation_fails");
    }
    match r {
        Ok(s) => Ok(Some(s)),
        Err(_) => {
            let (loc, msg) = take_panic().unwrap_or_default();
            ensure!(seen.failed > 0 && msg.contains("not enough memory"), "init:panic", "{k:?}: the constructor panicked at {loc}: {msg}");
            sim.probe("out_of_memory:init");
            sim.nontrivial = true;
            ensure!(heap::corrupt() == 0, "heap", "{k:?}: blocks were written beyond their end");
            Ok(None)
        }
    }
}

fn oom(sim: &mut Sim, k: K) -> Outcome {
    let n = sim.range(2, 11);
    let mut m = M::new(sim, k, n);
    let Some(mut s) = construct(sim, k)? else { return Ok(()) };
    sim.ev(format!("{k:?} over {n} variables"));
    if k == K::GlS {
        for i in 0..n {
            ok("freeze", s.freeze(m.v[i]))?;
            m.mention_var(m.v[i].idx32());
        }
        m.loose = true;
    }
    let steps = sim.range(4, 40);
    let mut failed = false;
    for _ in 0..steps {
        let w = [10, 2, 4, 2, 2, 1, if s.can_freeze() { 1 } else { 0 }, if k == K::Cad { 2 } else { 0 }, if k == K::Cad { 1 } else { 0 }, 2, if s.can_flip() { 1 } else { 0 }];
        let done = match sim.weighted(&w) {
            0 => {
                let c = m.gen_clause(sim);
                sim.ev(format!("add {c:?}"));
                let cl = m.clause(&c);
                let how = sim.idx(3);
                let r = call(sim, k, "add", || match how {
                    0 => s.add(cl.clone()),
                    1 => s.add_ref(&cl),
                    _ => s.collect(vec![cl.clone()]).map_err(Into::into),
                })?;
                if r.is_some() {
                    m.added(&c);
                }
                r.is_some()
            }
            1 => {
                let i = sim.range(0, m.v.last().unwrap().idx() + 300) as u32;
                sim.ev(format!("reserve {i}"));
                let r = call(sim, k, "reserve", || s.reserve(Var::new(i)))?;
                m.mention_var(i);
                m.loose = true;
                r.is_some()
            }
            2 | 3 => {
                let a = if sim.coin() { m.gen_assumps(sim) } else { vec![] };
                let with = !a.is_empty();
                let lits = m.lits(&a);
                let st0 = s.stats();
                let r = call(sim, k, "solve", || if with { s.solve_assumps(&lits) } else { s.solve() })?;
                let st1 = s.stats();
                m.mention(&a);
                if let Some(r) = r {
                    sim.ev(format!("solve under {a:?} -> {r}"));
                    ensure!(r != SolverResult::Interrupted, "verdict:interrupted", "{k:?}: an unconstrained solve was interrupted");
                    let called = st0.n_sat + st0.n_unsat != st1.n_sat + st1.n_unsat;
                    if called || !matches!(m.st, St::Sat(_)) {
                        m.spend();
                        verdict(&mut m, r, &a, called)?;
                    } else {
                        ensure!(r == SolverResult::Sat, "verdict:cached", "{k:?}: {r} in state {:?}", m.st);
                    }
                }
                r.is_some()
            }
            4 if s.can_propagate() => {
                let a = m.gen_assumps(sim);
                let lits = m.lits(&a);
                let r = call(sim, k, "propagate", || s.propagate(&lits, false))?;
                m.mention(&a);
                if let Some(r) = &r {
                    m.spend();
                    let mut t = m.tab.clone();
                    if let Some(c) = &m.tmp {
                        t.add(c);
                    }
                    let t = t.with(&a);
                    if r.conflict {
                        ensure!(!t.sat(), "propagate:conflict", "{k:?}: conflict under {a:?}, but there are models");
                    } else if m.tmp.is_none() {
                        for p in &r.propagated {
                            let Some(b) = m.back(*p) else { bail!("propagate:unknown", "{k:?}: unknown variable propagated") };
                            ensure!(t.implies(&[b]), "propagate:implied", "{k:?}: propagated {b} is not implied under {a:?}");
                        }
                    }
                    m.tmp = None;
                    m.st = St::Input;
                    m.loose = false;
                    if s.lit_val(m.lit(1)).is_ok() {
                        m.st = St::Sat(a);
                    }
                }
                r.is_some()
            }
            5 if s.can_propagate() => {
                let l = m.gen_lit(sim);
                let lit = m.lit(l);
                let r = call(sim, k, "phase", || s.phase(lit))?;
                m.mention(&[l]);
                m.loose = true;
                r.is_some()
            }
            6 => {
                let i = sim.idx(n);
                let v = m.v[i];
                let r = call(sim, k, "freeze", || s.freeze(v))?;
                m.mention_var(v.idx32());
                m.loose = true;
                r.is_some()
            }
            #[cfg(not(feature = "kis"))]
            7 => {
                let S::Cad(x) = &mut s else { unreachable!() };
                let rounds = sim.range(0, 3) as u32;
                let a = if sim.coin() { m.gen_assumps(sim) } else { vec![] };
                let lits = m.lits(&a);
                let r = call(sim, k, "simplify", || if lits.is_empty() { x.simplify(rounds) } else { x.simplify_assumps(&lits, rounds) })?;
                m.mention(&a);
                if let Some(r) = r {
                    m.spend();
                    verdict(&mut m, r, &a, false)?;
                    m.loose = true;
                }
                r.is_some()
            }
            #[cfg(not(feature = "kis"))]
            8 => {
                let S::Cad(x) = &mut s else { unreachable!() };
                let c = m.gen_clause(sim);
                if c.is_empty() {
                    continue;
                }
                let cl = m.clause(&c);
                m.mention(&c);
                let r = call(sim, k, "add_tmp_clause", || x.add_tmp_clause(&cl).map_err(Into::into))?;
                if r.is_some() {
                    m.tmp = Some(c);
                    m.tmp_spent = false;
                    m.had_tmp += 1;
                    m.st = St::Input;
                    m.loose = false;
                }
                r.is_some()
            }
            9 if matches!(m.st, St::Sat(_)) && !m.loose => {
                let v = *m.v.last().unwrap();
                call(sim, k, "solution", || s.solution(v))?.is_some()
            }
            9 if matches!(m.st, St::Unsat(_)) && !m.loose => call(sim, k, "core", || s.core())?.is_some(),
            10 if matches!(m.st, St::Sat(_)) && !m.loose => {
                let l = m.lit(m.gen_lit(sim));
                let r = call(sim, k, "flip", || s.flip(l))?;
                if r == Some(true) {
                    m.st = St::Sat(vec![]); // flipping is about the formula
                }
                r.is_some()
            }
            _ => continue,
        };
        hist::heap_ok(&m)?;
        if !done {
            failed = true;
            break;
        }
        check_state(sim, &m, &mut s)?;
    }
    sim.state(simcore::sim::hash_bytes(k as u64, format!("{:?}", m.cls).as_bytes()));
    set_ctx(sim, if failed { "drop after failure" } else { "drop" });
    drop(s);
    hist::heap_ok(&m)
}

pub fn register(sc: &mut Vec<Scenario>, pr: &mut Vec<Prop>) {
    macro_rules! s { ($($k:ident $name:literal $w:literal),* $(,)?) => { $(
        sc.push(Scenario { prop: "P12", name: $name, weight: $w, f: |s| oom(s, K::$k) });
    )* } }
    s!(Cad "cadical_memory" 3, MsC "minisat_memory" 2, MsS "minisat_simp_memory" 1, GlC "glucose_memory" 2, GlS "glucose_simp_memory" 1);
    pr.push(Prop {
        id: "P12",
        quick_runs: 300_000,
        thorough_runs: 3_000_000,
        rule: "a call during which allocations of the native code fail either reports that it is out of memory or gives an answer that is right; the solver can then be dropped",
        shape_measure: "distinct formulas at the end of a history, per solver",
        real: &["rustsat-cadical, -minisat, -glucose wrappers with their native solvers (optimised build)"],
        stub: &["malloc family of the native code (fails where the seed says)", "getrandom"],
        assumptions: &["the solver is dropped after it reported to be out of memory", "allocations of Rust code do not fail (Rust aborts then)"],
    });
}
