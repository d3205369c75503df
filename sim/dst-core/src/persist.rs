//! P31: state persisted through serde survives a crash and restart.
//!
//! The histories of the other modules run with restarts: now and then an object is serialised to a
//! simulated disk (short, interrupted and failing writes), dropped, read back (short, interrupted and
//! failing reads) and the history goes on with what was read; or the process crashes and the whole
//! history continues from an earlier snapshot. A torn snapshot has to be noticed.
use crate::constr::{gen_card, small};
use crate::io::{FaultyReader, FaultyWriter, Trouble};
use crate::model::{gen_lit, lits};
use crate::util::lit;
use crate::writing::{gen_objective, gen_thing, gen_vmap, pb_of, Thing};
use rustsat::instances::{fio, BasicVarManager, ManageVars, MultiOptInstance, OptInstance, RandReindVarManager, ReindexVars, ReindexingVarManager, SatInstance};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use serde::de::DeserializeOwned;
use serde::Serialize;
use simcore::runner::{Prop, Scenario};
use simcore::{bail, ensure, Outcome, Sim, Violation};
use std::cell::Cell;
use std::io::Write;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
}

/// are the histories to be interrupted by restarts?
pub fn on() -> bool {
    ON.with(Cell::get)
}

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        ON.with(|o| o.set(false));
    }
}

pub fn with(sim: &mut Sim, f: fn(&mut Sim) -> Outcome) -> Outcome {
    ON.with(|o| o.set(true));
    let _off = Off;
    f(sim)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fmt {
    Bincode,
    Cbor,
    Json,
}

#[derive(Clone)]
pub struct Snap {
    fmt: Fmt,
    bytes: Vec<u8>,
    norm: Option<String>,
}

fn put<T: Serialize, W: Write>(f: Fmt, x: &T, w: W) -> Result<(), String> {
    match f {
        Fmt::Bincode => bincode::serialize_into(w, x).map_err(|e| e.to_string()),
        Fmt::Cbor => ciborium::into_writer(x, w).map_err(|e| e.to_string()),
        // a number on its own has no end mark
        Fmt::Json => serde_json::to_writer(w, &[x]).map_err(|e| e.to_string()),
    }
}

fn get<T: DeserializeOwned, R: std::io::Read>(f: Fmt, r: R) -> Result<T, String> {
    match f {
        Fmt::Bincode => bincode::deserialize_from(r).map_err(|e| e.to_string()),
        Fmt::Cbor => ciborium::from_reader(r).map_err(|e| e.to_string()),
        Fmt::Json => serde_json::from_reader(r).map(|[x]: [T; 1]| x).map_err(|e| e.to_string()),
    }
}

/// everything a value says about itself, independent of the order of maps
fn norm<T: Serialize>(x: &T) -> String {
    fn go(v: &ciborium::Value, out: &mut String) {
        match v {
            ciborium::Value::Map(m) => {
                let mut e: Vec<String> = m
                    .iter()
                    .map(|(k, v)| {
                        let mut s = String::new();
                        go(k, &mut s);
                        s.push_str("=>");
                        go(v, &mut s);
                        s
                    })
                    .collect();
                e.sort();
                out.push('{');
                out.push_str(&e.join(", "));
                out.push('}');
            }
            ciborium::Value::Array(a) => {
                out.push('[');
                for x in a {
                    go(x, out);
                    out.push(' ');
                }
                out.push(']');
            }
            ciborium::Value::Integer(i) => out.push_str(&i128::from(*i).to_string()),
            o => out.push_str(&format!("{o:?}")),
        }
    }
    let mut s = String::new();
    match ciborium::Value::serialized(x) {
        Ok(v) => go(&v, &mut s),
        Err(e) => s = e.to_string(),
    }
    s
}

pub fn save<T: Serialize>(sim: &mut Sim, x: &T, what: &str) -> Result<Snap, Violation> {
    let mut fmt = *sim.pick(&[Fmt::Bincode, Fmt::Cbor, Fmt::Json]);
    let mut golden = vec![];
    if let Err(e) = put(fmt, x, &mut golden) {
        // JSON has no maps keyed by anything but strings
        if fmt != Fmt::Json || !e.contains("key must be a string") {
            bail!(format!("persist:save:{what}"), "{what} cannot be written as {fmt:?}: {e}");
        }
        sim.probe("JSON cannot express the value");
        fmt = Fmt::Bincode;
        golden.clear();
        if let Err(e) = put(fmt, x, &mut golden) {
            bail!(format!("persist:save:{what}"), "{what} cannot be written as {fmt:?}: {e}");
        }
    }
    sim.op(match fmt {
        Fmt::Bincode => "snapshot as bincode",
        Fmt::Cbor => "snapshot as CBOR",
        Fmt::Json => "snapshot as JSON",
    });
    if sim.chance(1, 3) {
        let trouble = if sim.coin() || golden.is_empty() { Trouble::Soft } else { Trouble::Hard(sim.range(0, golden.len() - 1)) };
        let w = FaultyWriter::new(sim, trouble);
        let sink = w.sink.clone();
        let r = put(fmt, x, w);
        let s = sink.borrow();
        match r {
            Ok(()) => ensure!(!s.hard_hit && s.data == golden, format!("persist:lost-write:{what}"), "writing {what} as {fmt:?} was reported as successful, but {} of {} bytes are there", s.data.len(), golden.len()),
            Err(e) => ensure!(s.hard_hit, format!("persist:spurious:{what}"), "writing {what} as {fmt:?} failed without a fault: {e}"),
        }
    }
    let norm = sim.coin().then(|| norm(x));
    Ok(Snap { fmt, bytes: golden, norm })
}

pub fn load<T: Serialize + DeserializeOwned>(sim: &mut Sim, s: &Snap, what: &str) -> Result<T, Violation> {
    let n = s.bytes.len();
    if n > 0 && sim.chance(1, 3) {
        // only a part of the snapshot is there, or the device fails
        let k = sim.range(0, n - 1);
        let torn = sim.coin();
        sim.fault(if torn { "torn snapshot" } else { "failing read of a snapshot" });
        let r: Result<T, String> = if torn {
            get(s.fmt, FaultyReader::new(sim, &s.bytes[..k], Trouble::Soft))
        } else {
            get(s.fmt, FaultyReader::new(sim, &s.bytes, Trouble::Hard(k)))
        };
        ensure!(r.is_err(), format!("persist:torn:{what}"), "the first {k} of {n} bytes of {what} as {:?} were accepted", s.fmt);
    }
    let t = if sim.coin() { Trouble::Soft } else { Trouble::None };
    let r: Result<T, String> = get(s.fmt, FaultyReader::new(sim, &s.bytes, t));
    match r {
        Ok(x) => {
            if let Some(w) = &s.norm {
                let g = norm(&x);
                ensure!(g == *w, format!("persist:differs:{what}"), "{what} as {:?} was {w} and is now {g}", s.fmt);
            }
            Ok(x)
        }
        Err(e) => bail!(format!("persist:load:{what}"), "{what} as {:?} cannot be read back: {e}; {:?}", s.fmt, String::from_utf8_lossy(&s.bytes)),
    }
}

pub fn through<T: Serialize + DeserializeOwned>(sim: &mut Sim, x: &T, what: &str) -> Result<T, Violation> {
    let s = save(sim, x, what)?;
    load(sim, &s, what)
}

/// restarts an object if restarts are on
pub fn maybe<T: Serialize + DeserializeOwned>(sim: &mut Sim, x: &mut T, what: &str) -> Outcome {
    if on() && sim.chance(2, 5) {
        sim.ev(format!("restart {what}"));
        sim.fault("restart from a snapshot");
        *x = through(sim, x, what)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ single values

fn same<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(sim: &mut Sim, x: &T, what: &str) -> Outcome {
    let y = through(sim, x, what)?;
    ensure!(*x == y, format!("persist:differs:{what}"), "{what} was {x:?} and is now {y:?}");
    Ok(())
}

fn same_quiet<T: Serialize + DeserializeOwned + PartialEq>(sim: &mut Sim, x: &T, what: &str) -> Outcome {
    let y = through(sim, x, what)?;
    ensure!(*x == y, format!("persist:differs:{what}"), "{what} was {} and is now {}", norm(x), norm(&y));
    Ok(())
}

fn gen_big(sim: &mut Sim) -> u32 {
    match sim.weighted(&[4, 2, 1, 1]) {
        0 => sim.range(0, 9) as u32,
        1 => sim.choose(u64::from(Var::MAX_IDX)) as u32,
        2 => Var::MAX_IDX,
        _ => Var::MAX_IDX - 1,
    }
}

fn gen_lits(sim: &mut Sim) -> Vec<Lit> {
    let n = sim.range(0, 6);
    (0..n)
        .map(|_| {
            let (idx, neg) = (gen_big(sim), sim.coin());
            if sim.coin() {
                Lit::new(idx, neg)
            } else {
                Var::new(idx).lit(neg)
            }
        })
        .collect()
}

/// a stored variable whose index was overwritten
fn rot(sim: &mut Sim) -> Outcome {
    const MARK: u32 = 0x0102_0304;
    let bad: u64 = match sim.weighted(&[3, 3, 2, 2, 2]) {
        0 => u64::from(Var::MAX_IDX) + sim.range(0, 3) as u64,
        1 => sim.choose(u64::from(Var::MAX_IDX) + 1),
        2 => u64::from(u32::MAX) - sim.range(0, 3) as u64,
        3 => u64::from(Var::MAX_IDX) + sim.choose(u64::from(Var::MAX_IDX)),
        _ => (1 << 32) + sim.range(0, 9) as u64,
    };
    sim.fault("stored variable overwritten");
    let json = sim.coin();
    let v = Var::new(MARK);
    fn go<T: Serialize + DeserializeOwned>(x: &T, json: bool, bad: u64) -> Option<Result<T, String>> {
        if json {
            let s = serde_json::to_string(x).ok()?;
            let t = s.replace(&MARK.to_string(), &bad.to_string());
            (s != t).then(|| serde_json::from_str(&t).map_err(|e| e.to_string()))
        } else {
            let bad = u32::try_from(bad).ok()?;
            let mut b = bincode::serialize(x).ok()?;
            let p = b.windows(4).position(|w| w == MARK.to_le_bytes())?;
            b[p..p + 4].copy_from_slice(&bad.to_le_bytes());
            Some(bincode::deserialize(&b).map_err(|e| e.to_string()))
        }
    }
    let (what, got): (&str, Option<Result<Vec<u32>, String>>) = match sim.idx(4) {
        0 => ("Var", go(&v, json, bad).map(|r| r.map(|v| vec![v.idx32()]))),
        1 => ("Vec<Var>", go(&vec![Var::new(1), v], json, bad).map(|r| r.map(|v| v.iter().map(|v| v.idx32()).collect()))),
        2 => ("BasicVarManager", go(&BasicVarManager::from_next_free(v), json, bad).map(|r| r.map(|m| vec![m.n_used()]))),
        _ => ("Option<Var>", go(&Some(v), json, bad).map(|r| r.map(|v| v.iter().map(|v| v.idx32()).collect()))),
    };
    let Some(r) = got else { return Ok(()) };
    sim.op("overwritten variable");
    sim.ev(format!("{what} {bad} {json}"));
    match r {
        Ok(v) => {
            ensure!(bad <= u64::from(Var::MAX_IDX), format!("persist:invalid:{what}"), "a stored {what} with the variable {bad} was accepted");
            ensure!(v.contains(&(bad as u32)), format!("persist:differs:{what}"), "a stored {what} with the variable {bad} was read as {v:?}");
        }
        Err(e) => ensure!(bad > u64::from(Var::MAX_IDX), format!("persist:load:{what}"), "a stored {what} with the variable {bad} was rejected: {e}"),
    }
    Ok(())
}

fn p31_values(sim: &mut Sim) -> Outcome {
    sim.panic_ctx = "stored value".into();
    let nv = sim.range(1, 6);
    for _ in 0..sim.range(1, 5) {
        let which = sim.idx(17);
        sim.ev(format!("value {which}"));
        sim.st.shapes.insert(which as u64);
        sim.nontrivial = true;
        match which {
            0 => {
                let v = Var::new(gen_big(sim));
                same(sim, &v, "Var")?;
            }
            1 | 2 => {
                let l = gen_lits(sim);
                same(sim, &l, "Vec<Lit>")?;
                same(sim, &l.into_iter().collect::<Clause>(), "Clause")?;
            }
            3 => {
                let n = sim.range(0, 9);
                let v: Vec<TernaryVal> = (0..n).map(|_| *sim.pick(&[TernaryVal::True, TernaryVal::False, TernaryVal::DontCare])).collect();
                same(sim, &v, "Vec<TernaryVal>")?;
                same(sim, &Assignment::from(v), "Assignment")?;
            }
            4 => {
                let c = small(sim, nv);
                let c = pb_of(&c);
                same(sim, &c, "PbConstraint")?;
                same(sim, &fio::opb::Data::Constr(c), "opb::Data")?;
            }
            5 => {
                let c = gen_card(sim, nv).1;
                same(sim, &c, "CardConstraint")?;
            }
            6 => {
                let m = gen_vmap(sim, nv);
                let c = sim.coin();
                let o = gen_objective(sim, nv, &m, c);
                same(sim, &o, "Objective")?;
            }
            7..=9 => {
                let m = gen_vmap(sim, nv);
                let t = gen_thing(sim, nv, &m);
                let want = t.doc();
                let got = match &t {
                    Thing::Cnf(c, n) => {
                        same_quiet(sim, c, "Cnf")?;
                        Thing::Cnf(through(sim, c, "Cnf")?, *n)
                    }
                    Thing::Sat(i) => {
                        same_quiet(sim, i, "SatInstance")?;
                        Thing::Sat(through::<SatInstance>(sim, i, "SatInstance")?)
                    }
                    Thing::Opt(i) => {
                        same_quiet(sim, i, "OptInstance")?;
                        Thing::Opt(through::<OptInstance>(sim, i, "OptInstance")?)
                    }
                    Thing::Multi(i) => {
                        same_quiet(sim, i, "MultiOptInstance")?;
                        Thing::Multi(through::<MultiOptInstance>(sim, i, "MultiOptInstance")?)
                    }
                    Thing::Lines(..) => continue,
                };
                let got = got.doc();
                // soft clauses have no order
                ensure!(got.cons == want.cons && got.objs.len() == want.objs.len(), "persist:differs:instance", "the instance was {want:?} and is now {got:?}");
            }
            10 => {
                let mut m = ReindexingVarManager::default();
                for _ in 0..sim.range(0, 6) {
                    m.reindex(Var::new(sim.range(0, 9) as u32));
                }
                same(sim, &m, "ReindexingVarManager")?;
                let mut r = RandReindVarManager::init(sim.range(0, 6) as u32);
                for _ in 0..sim.range(0, 3) {
                    r.reindex(Var::new(sim.range(0, 9) as u32));
                }
                same(sim, &r, "RandReindVarManager")?;
            }
            11 => {
                let mut m = BasicVarManager::from_next_free(Var::new(gen_big(sim) / 2));
                m.new_var();
                same(sim, &m, "BasicVarManager")?;
            }
            12 => {
                let c = gen_lits(sim);
                let w = sim.range(0, 9);
                let sense = if sim.coin() { fio::opb::ObjectiveSense::Minimize } else { fio::opb::ObjectiveSense::Maximize };
                let d = match sim.idx(3) {
                    0 => fio::opb::Data::Cmt("a \"b\" \u{e4}\n".into()),
                    _ => fio::opb::Data::Obj(fio::opb::Objective { sense, terms: c.into_iter().map(|l| (w, l)).collect(), offset: sim.irange(-9, 9) as isize }),
                };
                same(sim, &d, "opb::Data")?;
            }
            13 => {
                let n = sim.range(1, 1000);
                let id = if sim.coin() { pigeons::ConstraintId::abs(n) } else { pigeons::ConstraintId::last(n) };
                same(sim, &id, "ConstraintId")?;
                same(sim, &pigeons::AbsConstraintId::new(n), "AbsConstraintId")?;
                same(sim, sim_pick(n, &[pigeons::ProblemType::Unknown, pigeons::ProblemType::Optimization]), "ProblemType")?;
            }
            14 => {
                let l = gen_lit(sim, nv);
                let m = lits(&[l, -l]);
                same(sim, &m, "Vec<Lit>")?;
                same(sim, &lit(l), "Lit")?;
            }
            _ => rot(sim)?,
        }
        sim.state(which as u64);
    }
    Ok(())
}

fn sim_pick<T>(n: usize, v: &[T]) -> &T {
    &v[n % v.len()]
}

fn p31_card(sim: &mut Sim) -> Outcome {
    with(sim, crate::enc::p13)
}
fn p31_pb(sim: &mut Sim) -> Outcome {
    with(sim, crate::enc::p14)
}
fn p31_shared(sim: &mut Sim) -> Outcome {
    let c = sim.coin();
    with(sim, if c { crate::shared::p13 } else { crate::shared::p14 })
}
fn p31_dpw(sim: &mut Sim) -> Outcome {
    with(sim, crate::dpw::p14)
}
fn p31_am1(sim: &mut Sim) -> Outcome {
    with(sim, crate::constr::p26)
}
fn p31_inst(sim: &mut Sim) -> Outcome {
    with(sim, crate::instances::any)
}
fn p31_mgr(sim: &mut Sim) -> Outcome {
    with(sim, crate::instances::managers)
}

pub fn register(s: &mut Vec<Scenario>, p: &mut Vec<Prop>) {
    s.push(Scenario { prop: "P31", name: "stored values", weight: 3, f: p31_values });
    s.push(Scenario { prop: "P31", name: "cardinality encodings with restarts", weight: 3, f: p31_card });
    s.push(Scenario { prop: "P31", name: "pseudo-Boolean encodings with restarts", weight: 4, f: p31_pb });
    s.push(Scenario { prop: "P31", name: "a shared node database with restarts", weight: 2, f: p31_shared });
    s.push(Scenario { prop: "P31", name: "the dynamic polynomial watchdog with restarts", weight: 2, f: p31_dpw });
    s.push(Scenario { prop: "P31", name: "at-most-one encodings with restarts", weight: 1, f: p31_am1 });
    s.push(Scenario { prop: "P31", name: "instances and objectives with restarts", weight: 3, f: p31_inst });
    s.push(Scenario { prop: "P31", name: "variable managers with restarts", weight: 1, f: p31_mgr });
    p.push(Prop {
        id: "P31",
        quick_runs: 900_000,
        thorough_runs: 6_000_000,
        rule: "runs in which an object was stored and read back or a history continued with a restored object, distinct by the hash of the full event trace",
        shape_measure: "distinct kinds of values and sequences of operations",
        real: &["serialisation of rustsat::types, rustsat::instances, rustsat::encodings and pigeons", "the histories of P13, P14, P22, P23 and P26 with restored objects", "bincode, ciborium, serde_json"],
        stub: &["disk (in memory, short, failing and torn transfers)", "clause collector (recording)", "SAT solver (reference procedure)"],
        assumptions: &["three formats: bincode, CBOR and JSON (JSON only where the value has no map keyed by literals)"],
    });
}
