//! P14, P15: the dynamic polynomial watchdog at changing precision.
//!
//! A run builds one encoding, then lowers the precision divisor step by step, requests ranges of
//! bounds at the current precision, reserves variables and hardens value ranges. Bounds are compared
//! with the weights divided by the current divisor.
use crate::enc::Col;
use crate::util::lit;
use rustsat::encodings::pb::{self, BoundUpper, BoundUpperIncremental, Encode, EncodeIncremental};
use rustsat::encodings::{totdb, EncodeStats, EnforceError};
use rustsat::instances::{BasicVarManager, ManageVars};
use rustsat::types::{Lit, Var};
use simcore::{bail, ensure, Outcome, Sim};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::ops::Bound;

fn assign(nv: usize, a: usize) -> Vec<i32> {
    (1..=nv as i32).map(|v| if a >> (v - 1) & 1 == 1 { v } else { -v }).collect()
}

fn truth(l: i32, a: usize) -> bool {
    (a >> (l.abs() - 1) & 1 == 1) == (l > 0)
}

fn gen_terms(sim: &mut Sim, nv: usize) -> Vec<(i32, usize)> {
    let wmax = *sim.pick(&[1usize, 3, 8, 20, 63]);
    let mut t: Vec<(i32, usize)> = vec![];
    for v in 1..=nv as i32 {
        if sim.chance(1, 10) {
            continue;
        }
        let w = match sim.weighted(&[4, 1, 1]) {
            0 => sim.range(1, wmax),
            1 => 1 << sim.range(0, 5),
            // weights that repeat
            _ => t.first().map_or(2, |x| x.1),
        };
        t.push((if sim.coin() { v } else { -v }, w));
    }
    if sim.chance(1, 8) && !t.is_empty() {
        let l = -t[0].0;
        t.push((l, sim.range(1, wmax)));
    }
    t
}

fn drive(sim: &mut Sim, oom: bool) -> Outcome {
    sim.panic_ctx = "DynamicPolyWatchdog precision".into();
    let nv = sim.range(1, 5);
    let t = gen_terms(sim, nv);
    let na = 1usize << nv;
    let lits: Vec<(Lit, usize)> = t.iter().map(|x| (lit(x.0), x.1)).collect();
    let value = |a: usize, d: usize| -> usize { t.iter().filter(|x| truth(x.0, a)).map(|x| x.1 / d).sum() };
    let sum = |d: usize| -> usize { t.iter().map(|x| x.1 / d).sum() };
    let mut enc: pb::DynamicPolyWatchdog = if sim.coin() {
        lits.iter().copied().collect()
    } else if sim.coin() {
        // the way the C interface does it
        let mut e = pb::DynamicPolyWatchdog::default();
        for (l, w) in &lits {
            if e.add_input(*l, *w).is_err() {
                bail!("dpw:add", "{l} could not be added");
            }
        }
        e
    } else {
        lits.iter().copied().collect::<rustsat::types::RsHashMap<Lit, usize>>().into()
    };
    let mut vm = BasicVarManager::default();
    let first_aux = nv as i32 + sim.range(0, 2) as i32;
    vm.increase_next_free(Var::new(first_aux as u32));
    let mut col = Col::default();
    // precision of the structure, if one was built
    let mut built: Option<usize> = None;
    let mut set = 1usize;
    let mut cov: BTreeSet<usize> = BTreeSet::new();
    // values the encoding was limited to
    let (mut lo, mut hi) = (0usize, usize::MAX);
    let mut hist: Vec<String> = vec![format!("{t:?}")];
    sim.ev(&hist[0]);
    let mut reserved = false;
    let (mut n_cl, mut n_v) = (0usize, 0u32);
    let mut shape = 0u64;
    let steps = sim.range(2, 12);
    for step in 0..steps {
        crate::persist::maybe(sim, &mut enc, "DynamicPolyWatchdog")?;
        crate::persist::maybe(sim, &mut vm, "variable manager")?;
        let limited = lo > 0 || hi < usize::MAX;
        let act = match step {
            0 => 0,
            _ if limited => sim.weighted(&[2, 2, 0, 1, 10]),
            _ => sim.weighted(&[3, 6, 1, 2, 4]),
        };
        shape = simcore::sim::mix(shape, act as u64);
        match act {
            // precision
            0 => {
                let max = t.iter().map(|x| x.1).max().unwrap_or(1);
                let d = match sim.weighted(&[5, 3, 1, 1]) {
                    0 => enc.next_precision(),
                    1 => 1 << sim.range(0, 6),
                    2 => sim.range(0, 9),
                    _ => max.next_power_of_two(),
                };
                hist.push(format!("precision {d}"));
                sim.ev(hist.last().unwrap());
                let want = if d > 1 && !d.is_power_of_two() {
                    Err(pb::dpw::PrecisionError::NotPow2)
                } else if built.is_some() && d.max(1) > set {
                    Err(pb::dpw::PrecisionError::PrecisionDecreased)
                } else {
                    Ok(())
                };
                let got = enc.set_precision(d);
                ensure!(got == want, "dpw:set_precision", "setting the precision gave {got:?} instead of {want:?}, after {hist:?}");
                if got.is_ok() && d.max(1) != set {
                    set = d.max(1);
                    cov.clear();
                }
            }
            // encode
            1 => {
                let top = sum(set) + 2;
                let (a, b) = (sim.range(0, top), sim.range(0, top));
                let (a, b) = if sim.coin() { (a.min(b), a.max(b)) } else { (a, (a + 1).min(top)) };
                let change = sim.chance(2, 3);
                if !change {
                    cov.clear();
                    if sim.coin() && lo == 0 && hi == usize::MAX {
                        hist.push("new collector".into());
                        col = Col::default();
                    }
                }
                hist.push(format!("encode {a}..={b}{}", if change { " change" } else { "" }));
                sim.ev(hist.last().unwrap());
                let mut tries = 0;
                loop {
                    col.budget = if oom && tries < 2 && sim.chance(2, 3) { Some(sim.range(0, 15)) } else { None };
                    let (before, used, refused) = (col.cls.len(), vm.n_used(), col.refused);
                    let r = if change { enc.encode_ub_change(a..=b, &mut col, &mut vm) } else { enc.encode_ub(a..=b, &mut col, &mut vm) };
                    n_cl += col.cls.len() - before;
                    n_v += vm.n_used() - used;
                    col.budget = None;
                    for l in col.cls[before..].iter().flatten() {
                        let v = l.abs();
                        ensure!(v <= nv as i32 || (v > first_aux && v <= vm.n_used() as i32), "dpw:vars", "a clause uses variable {v}, which is neither an input nor fresh, after {hist:?}");
                    }
                    match r {
                        Ok(()) => {
                            ensure!(col.refused == refused, "dpw:oom:swallowed", "the collector refused a clause, but success was reported, after {hist:?}");
                            break;
                        }
                        Err(e) => {
                            ensure!(col.refused > refused, "dpw:error", "{e} without the collector failing, after {hist:?}");
                            sim.fault("collector refuses a clause");
                            sim.nontrivial = true;
                            hist.push("collector failed".into());
                            sim.ev("collector failed");
                            tries += 1;
                            cov.clear();
                            alone(sim, &mut col, nv, na, &|a| value(a, 1) >= lo && value(a, 1) < hi, "dpw:oom:excludes", &hist)?;
                        }
                    }
                }
                if a <= b && a < sum(1) {
                    if t.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() > 1 {
                        let rest = t.iter().map(|x| built.map_or(x.1, |d| x.1 % d)).max().unwrap_or(0);
                        if rest >= set {
                            built = Some(set);
                        }
                    }
                }
                for x in a..=b {
                    cov.insert(x);
                }
                if !reserved && !oom {
                    ensure!(enc.n_clauses() == n_cl, "dpw:stats:clauses", "{} clauses reported, {n_cl} collected, after {hist:?}", enc.n_clauses());
                    ensure!(enc.n_vars() == n_v, "dpw:stats:vars", "{} variables reported, {n_v} used, after {hist:?}", enc.n_vars());
                }
            }
            2 => {
                hist.push("reserve".into());
                sim.ev("reserve");
                enc.reserve(&mut vm);
                let rest = t.iter().map(|x| built.map_or(x.1, |d| x.1 % d)).max().unwrap_or(0);
                if built.is_none() && rest >= set && t.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() > 1 {
                    built = Some(set);
                }
                reserved = true;
                cov.clear();
            }
            // limit
            3 => {
                if oom {
                    continue;
                }
                let s = sum(1);
                let (mut a, mut b) = (sim.range(0, s + 1), sim.range(0, s + 3));
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                let r = match sim.weighted(&[3, 2, 2, 1]) {
                    0 => (Bound::Included(a), Bound::Excluded(b)),
                    1 => (Bound::Included(a), Bound::Included(b)),
                    2 => (Bound::Included(a), Bound::Unbounded),
                    _ => (Bound::Unbounded, Bound::Included(b)),
                };
                hist.push(format!("limit {r:?}"));
                sim.ev(hist.last().unwrap());
                if enc.limit_range(r, &mut col).is_err() {
                    bail!("dpw:error", "limiting failed without the collector failing, after {hist:?}");
                }
                if let Bound::Included(a) = r.0 {
                    lo = lo.max(a);
                }
                match r.1 {
                    Bound::Included(b) => hi = hi.min(b + 1),
                    Bound::Excluded(b) => hi = hi.min(b),
                    Bound::Unbounded => (),
                }
            }
            // bounds
            _ => {
                let b = if limited && lo.div_ceil(set) < (hi / set).min(sum(set) + 1) {
                    sim.range(lo.div_ceil(set), (hi / set).min(sum(set) + 1))
                } else {
                    sim.range(0, sum(set) + 1)
                };
                let b = if sim.chance(1, 6) {
                    let c = enc.coarse_ub(b);
                    ensure!(c <= b, "dpw:coarse", "the coarse bound of {b} is {c}, after {hist:?}");
                    c
                } else {
                    b
                };
                let covered = cov.contains(&b);
                // the encoding is only valid for bounds within the range it was limited to
                if (lo > 0 || hi < usize::MAX) && (b * set < lo || (b + 1) * set > hi) {
                    continue;
                }
                match enc.enforce_ub(b) {
                    Ok(x) => {
                        let x: Vec<i32> = x.iter().map(|l| l.to_ipasir()).collect();
                        sim.nontrivial = sim.nontrivial || !oom;
                        for a in 0..na {
                            let v = value(a, set);
                            if value(a, 1) < lo || value(a, 1) >= hi {
                                continue;
                            }
                            let mut q = assign(nv, a);
                            q.extend_from_slice(&x);
                            let got = col.sat.solve(&q).is_some();
                            let kind = if hi < usize::MAX || lo > 0 { "limited" } else if covered { "bound" } else { "unrequested" };
                            ensure!(got == (v <= b), format!("dpw:{kind}:{}", if got { "allows" } else { "excludes" }), "bound {b} at divisor {set} as {x:?}: the inputs {:?} have value {v} (undivided {}), after {hist:?}", assign(nv, a), value(a, 1));
                        }
                    }
                    Err(EnforceError::NotEncoded) => {
                        ensure!(!covered, "dpw:notencoded", "bound {b} at divisor {set} was requested but is reported as not encoded, after {hist:?}");
                    }
                    Err(EnforceError::Unsat) => bail!("dpw:unsat", "bound {b} is reported as impossible, after {hist:?}"),
                }
            }
        }
        // what is left to encode
        let distinct = t.iter().map(|x| x.0).collect::<BTreeSet<_>>().len();
        if distinct > 1 && !oom {
            let rest = t.iter().map(|x| built.map_or(x.1, |d| x.1 % d)).max().unwrap_or(0);
            let next = if rest == 0 { 1 } else { 1usize << rest.ilog2() };
            ensure!(enc.next_precision() == next, "dpw:next_precision", "the next precision is {} instead of {next}, after {hist:?}", enc.next_precision());
            ensure!(enc.is_max_precision() == (rest == 0), "dpw:max_precision", "maximum precision {} with remainder {rest}, after {hist:?}", enc.is_max_precision());
        } else if distinct == 1 && enc.next_precision() == 1 {
            // what a caller does that raises the precision until it is complete
            ensure!(enc.is_max_precision() || set > 1 || cov.is_empty(), "dpw:never_max", "the encoding never reaches its maximum precision, after {hist:?}");
        }
        alone(sim, &mut col, nv, na, &|a| value(a, 1) >= lo && value(a, 1) < hi, "dpw:excludes", &hist)?;
        sim.state(simcore::sim::mix(shape, (set * 64 + cov.len()) as u64));
    }
    sim.op("DynamicPolyWatchdog precision");
    sim.st.shapes.insert(shape);
    Ok(())
}

fn alone(sim: &mut Sim, col: &mut Col, nv: usize, na: usize, relevant: &dyn Fn(usize) -> bool, class: &str, hist: &[String]) -> Outcome {
    for _ in 0..4 {
        let a = sim.idx(na);
        if !relevant(a) {
            continue;
        }
        let q = assign(nv, a);
        ensure!(col.sat.solve(&q).is_some(), class.to_string(), "the clauses alone exclude {q:?} after {hist:?}");
    }
    Ok(())
}

/// Structures built by hand in a shared database
fn referenced(sim: &mut Sim) -> Outcome {
    sim.panic_ctx = "referenced DynamicPolyWatchdog".into();
    let nv = sim.range(2, 5);
    let na = 1usize << nv;
    let mut db = totdb::Db::default();
    let mut vm = BasicVarManager::default();
    vm.increase_next_free(Var::new(nv as u32));
    let mut col = Col::default();
    let mut hist: Vec<String> = vec![];
    let n = sim.range(1, 3);
    let mut structs = vec![];
    for _ in 0..n {
        let t = gen_terms(sim, nv);
        let distinct = t.iter().map(|x| x.0).collect::<BTreeSet<_>>().len();
        if distinct < 1 {
            continue;
        }
        let max = t.iter().map(|x| x.1).max().unwrap();
        let d = if sim.coin() { 1 } else { 1usize << sim.range(0, max.ilog2() as usize) };
        hist.push(format!("structure over {t:?} at {d}"));
        sim.ev(hist.last().unwrap());
        let mut q = pb::dpw::lit_weight_queue(t.iter().map(|x| (lit(x.0), x.1)), &mut db);
        let s = pb::dpw::build_structure(&mut q, d, true, &mut db, &mut vm);
        structs.push((t, d, s));
    }
    if structs.is_empty() {
        return Ok(());
    }
    for _ in 0..sim.range(2, 8) {
        crate::persist::maybe(sim, &mut db, "node database")?;
        for s in &mut structs {
            crate::persist::maybe(sim, &mut s.2, "watchdog structure")?;
        }
        let (t, d, s) = sim.pick(&structs).clone();
        let value = |a: usize| -> usize { t.iter().filter(|x| truth(x.0, a)).map(|x| x.1 / d).sum() };
        let sum: usize = t.iter().map(|x| x.1 / d).sum();
        let b = sim.range(0, sum + 1);
        let hi = sim.range(b, sum + 1);
        let lo = sim.range(0, b);
        let cell = sim.coin();
        let reserve = sim.chance(1, 5);
        hist.push(format!("encode {lo}..={hi} of {t:?}"));
        sim.ev(hist.last().unwrap());
        macro_rules! go {
            ($e:expr) => {{
                let mut e = $e;
                if reserve {
                    e.reserve(&mut vm);
                }
                let u = vm.n_used();
                let r = e.encode_ub_change(lo..=hi, &mut col, &mut vm);
                ensure!(r.is_ok(), "dpw:ref:error", "encoding failed, after {hist:?}");
                ensure!(!reserve || vm.n_used() == u, "dpw:ref:reserved", "encoding needed new variables although all were reserved, after {hist:?}");
                ensure!(e.weight_sum() >= sum, "dpw:ref:sum", "sum {} smaller than {sum}, after {hist:?}", e.weight_sum());
                let c = e.coarse_ub(b);
                ensure!(c <= b, "dpw:coarse", "the coarse bound of {b} is {c}, after {hist:?}");
                e.enforce_ub(b)
            }};
        }
        let res = if cell {
            let rc = RefCell::new(&mut db);
            go!(pb::dpw::referenced::DynamicPolyWatchdogCell::new(&s, &rc))
        } else {
            go!(pb::dpw::referenced::DynamicPolyWatchdog::new(&s, &mut db))
        };
        match res {
            Ok(x) => {
                let x: Vec<i32> = x.iter().map(|l| l.to_ipasir()).collect();
                sim.nontrivial = true;
                for a in 0..na {
                    let v = value(a);
                    let mut q = assign(nv, a);
                    q.extend_from_slice(&x);
                    let got = col.sat.solve(&q).is_some();
                    ensure!(got == (v <= b), format!("dpw:ref:{}", if got { "allows" } else { "excludes" }), "bound {b} at divisor {d} as {x:?}: the inputs {:?} have value {v}, after {hist:?}", assign(nv, a));
                }
            }
            Err(e) => bail!("dpw:ref:enforce", "bound {b} at divisor {d}: {e}, after {hist:?}"),
        }
        alone(sim, &mut col, nv, na, &|_| true, "dpw:ref:alone", &hist)?;
    }
    sim.op("referenced DynamicPolyWatchdog");
    Ok(())
}

pub fn p14(sim: &mut Sim) -> Outcome {
    if sim.chance(1, 4) {
        referenced(sim)
    } else {
        drive(sim, false)
    }
}
pub fn p15(sim: &mut Sim) -> Outcome {
    drive(sim, true)
}
