//! P13, P14, P15, P26: constraint encodings.
//!
//! A run builds one encoding, then takes a random history of adding inputs, requesting bound ranges
//! (fresh or as a change), reserving variables and hardening bounds, against a collector that may
//! run out of memory after any clause. After every step the clauses collected so far are compared,
//! by an independent SAT procedure, with the constraint itself on assignments of the inputs.
use crate::util::{ipasir, lit};
use rustsat::encodings::{am1, card, pb, CollectClauses, EncodeStats, EnforceError, IterInputs, IterWeightedInputs};
use rustsat::instances::{BasicVarManager, ManageVars};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Clause, Lit, RsHashMap, Var};
use rustsat::OutOfMemory;
use simcore::reference::Sat;
use simcore::runner::{Prop, Scenario};
use simcore::{bail, ensure, Outcome, Sim, Violation};
use crate::persist::{self, Snap};
use std::collections::BTreeSet;
use std::ops::Bound;

type Rng = (Bound<usize>, Bound<usize>);

/// A clause collector that can refuse clauses
#[derive(Clone, Default)]
pub struct Col {
    pub sat: Sat,
    pub cls: Vec<Vec<i32>>,
    /// clauses accepted before the next refusal
    pub budget: Option<usize>,
    pub refused: u64,
}

impl CollectClauses for Col {
    fn n_clauses(&self) -> usize {
        self.cls.len()
    }
    fn extend_clauses<T: IntoIterator<Item = Clause>>(&mut self, it: T) -> Result<(), OutOfMemory> {
        for c in it {
            if let Some(b) = &mut self.budget {
                if *b == 0 {
                    self.refused += 1;
                    return Err(OutOfMemory::ExternalApi);
                }
                *b -= 1;
            }
            let c = ipasir(&c);
            self.sat.add(&c);
            self.cls.push(c);
        }
        Ok(())
    }
}

impl rustsat::encodings::cert::CollectClauses for Col {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rel {
    Ub,
    Lb,
    Eq,
}

#[derive(Clone, Copy, Debug)]
struct Caps {
    ub: bool,
    lb: bool,
    inc: bool,
    extend: bool,
    monotone: bool,
    card: bool,
    dpw: bool,
}

trait Enc {
    fn caps(&self) -> Caps;
    fn add(&mut self, v: &[(Lit, usize)]);
    fn encode(&mut self, which: Rel, change: bool, r: Rng, col: &mut Col, vm: &mut dyn ManageVars) -> Result<(), OutOfMemory>;
    fn enforce(&self, which: Rel, b: usize) -> Result<Vec<Lit>, EnforceError>;
    fn reserve(&mut self, vm: &mut dyn ManageVars);
    fn sum(&self) -> usize;
    fn stats(&self) -> Option<(usize, u32)> {
        None
    }
    fn next_higher(&self, _v: usize) -> Option<usize> {
        None
    }
    fn next_lower(&self, _v: usize) -> Option<usize> {
        None
    }
    fn inputs(&self) -> Option<Vec<(Lit, usize)>> {
        None
    }
    fn precision(&mut self, _d: usize) -> bool {
        false
    }
    fn coarse_ub(&self, v: usize) -> usize {
        v
    }
    fn coarse_lb(&self, v: usize) -> usize {
        v
    }
    fn save(&self, sim: &mut Sim) -> Result<Snap, Violation>;
    fn load(&mut self, sim: &mut Sim, s: &Snap) -> Outcome;
}

/// Wraps the one-sided cardinality encodings and those without `IterInputs`
struct W<T>(T);

macro_rules! persisted {
    () => {
        fn save(&self, sim: &mut Sim) -> Result<Snap, Violation> {
            persist::save(sim, &self.0, "encoding")
        }
        fn load(&mut self, sim: &mut Sim, s: &Snap) -> Outcome {
            self.0 = persist::load(sim, s, "encoding")?;
            Ok(())
        }
    };
}

macro_rules! card_both {
    ($t:ty, $iter:expr) => {
        impl Enc for W<$t> {
            persisted!();
            fn caps(&self) -> Caps {
                Caps { ub: true, lb: true, inc: true, extend: true, monotone: true, card: true, dpw: false }
            }
            fn add(&mut self, v: &[(Lit, usize)]) {
                self.0.extend(v.iter().map(|x| x.0));
            }
            fn encode(&mut self, which: Rel, change: bool, r: Rng, col: &mut Col, vm: &mut dyn ManageVars) -> Result<(), OutOfMemory> {
                use card::*;
                match (which, change) {
                    (Rel::Ub, false) => self.0.encode_ub(r, col, vm),
                    (Rel::Ub, true) => self.0.encode_ub_change(r, col, vm),
                    (Rel::Lb, false) => self.0.encode_lb(r, col, vm),
                    (Rel::Lb, true) => self.0.encode_lb_change(r, col, vm),
                    (Rel::Eq, false) => self.0.encode_both(r, col, vm),
                    (Rel::Eq, true) => self.0.encode_both_change(r, col, vm),
                }
            }
            fn enforce(&self, which: Rel, b: usize) -> Result<Vec<Lit>, EnforceError> {
                use card::*;
                match which {
                    Rel::Ub => Ok(self.0.enforce_ub(b)?),
                    Rel::Lb => self.0.enforce_lb(b),
                    Rel::Eq => self.0.enforce_eq(b),
                }
            }
            fn reserve(&mut self, vm: &mut dyn ManageVars) {
                card::EncodeIncremental::reserve(&mut self.0, vm);
            }
            fn sum(&self) -> usize {
                card::Encode::n_lits(&self.0)
            }
            fn stats(&self) -> Option<(usize, u32)> {
                Some((EncodeStats::n_clauses(&self.0), EncodeStats::n_vars(&self.0)))
            }
            fn inputs(&self) -> Option<Vec<(Lit, usize)>> {
                let f: fn(&$t) -> Option<Vec<(Lit, usize)>> = $iter;
                f(&self.0)
            }
        }
    };
}

type Tot = card::Totalizer;
type CInv = card::simulators::Inverted<Tot>;
type CDbl = card::simulators::Double<Tot, CInv>;
type CDbl2 = card::simulators::Double<CInv, Tot>;
type CInvInv = card::simulators::Inverted<CInv>;
type CInvDbl = card::simulators::Inverted<CDbl>;
card_both!(Tot, |_| None);
card_both!(CInv, |_| None);
card_both!(CDbl, |_| None);
card_both!(CDbl2, |_| None);
card_both!(CInvInv, |_| None);
card_both!(CInvDbl, |_| None);

macro_rules! pb_common {
    () => {
        fn sum(&self) -> usize {
            pb::Encode::weight_sum(&self.0)
        }
        fn next_higher(&self, v: usize) -> Option<usize> {
            Some(pb::Encode::next_higher(&self.0, v))
        }
        fn next_lower(&self, v: usize) -> Option<usize> {
            Some(pb::Encode::next_lower(&self.0, v))
        }
        fn reserve(&mut self, vm: &mut dyn ManageVars) {
            pb::EncodeIncremental::reserve(&mut self.0, vm);
        }
    };
}

macro_rules! stats {
    () => {
        fn stats(&self) -> Option<(usize, u32)> {
            Some((EncodeStats::n_clauses(&self.0), EncodeStats::n_vars(&self.0)))
        }
    };
}

macro_rules! pb_both {
    ($t:ty, $caps:expr, $ext:expr) => {
        pb_both!($t, $caps, $ext, {
            stats!();
        });
    };
    ($t:ty, $caps:expr, $ext:expr, { $($x:tt)* }) => {
        impl Enc for W<$t> {
            persisted!();
            $($x)*
            fn caps(&self) -> Caps {
                $caps
            }
            fn add(&mut self, v: &[(Lit, usize)]) {
                let f: fn(&mut $t, &[(Lit, usize)]) = $ext;
                f(&mut self.0, v)
            }
            fn encode(&mut self, which: Rel, change: bool, r: Rng, col: &mut Col, vm: &mut dyn ManageVars) -> Result<(), OutOfMemory> {
                use pb::*;
                match (which, change) {
                    (Rel::Ub, false) => self.0.encode_ub(r, col, vm),
                    (Rel::Ub, true) => self.0.encode_ub_change(r, col, vm),
                    (Rel::Lb, false) => self.0.encode_lb(r, col, vm),
                    (Rel::Lb, true) => self.0.encode_lb_change(r, col, vm),
                    (Rel::Eq, false) => self.0.encode_both(r, col, vm),
                    (Rel::Eq, true) => self.0.encode_both_change(r, col, vm),
                }
            }
            fn enforce(&self, which: Rel, b: usize) -> Result<Vec<Lit>, EnforceError> {
                use pb::*;
                match which {
                    Rel::Ub => self.0.enforce_ub(b),
                    Rel::Lb => self.0.enforce_lb(b),
                    Rel::Eq => self.0.enforce_eq(b),
                }
            }
            fn coarse_ub(&self, v: usize) -> usize {
                pb::BoundUpper::coarse_ub(&self.0, v)
            }
            fn coarse_lb(&self, v: usize) -> usize {
                pb::BoundLower::coarse_lb(&self.0, v)
            }
            pb_common!();
        }
    };
}

macro_rules! pb_ub {
    ($t:ty, $caps:expr, $ext:expr, $prec:expr) => {
        impl Enc for W<$t> {
            persisted!();
            fn caps(&self) -> Caps {
                $caps
            }
            fn add(&mut self, v: &[(Lit, usize)]) {
                let f: fn(&mut $t, &[(Lit, usize)]) = $ext;
                f(&mut self.0, v)
            }
            fn encode(&mut self, _: Rel, change: bool, r: Rng, col: &mut Col, vm: &mut dyn ManageVars) -> Result<(), OutOfMemory> {
                use pb::*;
                if change {
                    self.0.encode_ub_change(r, col, vm)
                } else {
                    self.0.encode_ub(r, col, vm)
                }
            }
            fn enforce(&self, _: Rel, b: usize) -> Result<Vec<Lit>, EnforceError> {
                pb::BoundUpper::enforce_ub(&self.0, b)
            }
            fn precision(&mut self, d: usize) -> bool {
                let f: fn(&mut $t, usize) -> bool = $prec;
                f(&mut self.0, d)
            }
            fn coarse_ub(&self, v: usize) -> usize {
                pb::BoundUpper::coarse_ub(&self.0, v)
            }
            pb_common!();
            stats!();
        }
    };
}

macro_rules! pb_lb {
    ($t:ty, $caps:expr, $ext:expr) => {
        impl Enc for W<$t> {
            persisted!();
            fn caps(&self) -> Caps {
                $caps
            }
            fn add(&mut self, v: &[(Lit, usize)]) {
                let f: fn(&mut $t, &[(Lit, usize)]) = $ext;
                f(&mut self.0, v)
            }
            fn encode(&mut self, _: Rel, change: bool, r: Rng, col: &mut Col, vm: &mut dyn ManageVars) -> Result<(), OutOfMemory> {
                use pb::*;
                if change {
                    self.0.encode_lb_change(r, col, vm)
                } else {
                    self.0.encode_lb(r, col, vm)
                }
            }
            fn enforce(&self, _: Rel, b: usize) -> Result<Vec<Lit>, EnforceError> {
                pb::BoundLower::enforce_lb(&self.0, b)
            }
            fn coarse_lb(&self, v: usize) -> usize {
                pb::BoundLower::coarse_lb(&self.0, v)
            }
            pb_common!();
            stats!();
        }
    };
}

const UB: Caps = Caps { ub: true, lb: false, inc: true, extend: true, monotone: true, card: false, dpw: false };
const LB: Caps = Caps { ub: false, lb: true, ..UB };
const BOTH: Caps = Caps { lb: true, ..UB };
const DPW: Caps = Caps { extend: false, monotone: false, dpw: true, ..UB };
const DPW_LB: Caps = Caps { extend: false, monotone: false, dpw: true, ..LB };
const DPW_BOTH: Caps = Caps { extend: false, monotone: false, dpw: true, ..BOTH };

type Gte = pb::GeneralizedTotalizer;
type GteInv = pb::simulators::Inverted<Gte>;
type GteDbl = pb::simulators::Double<Gte, GteInv>;
type Adder = pb::BinaryAdder;
type AdderInv = pb::simulators::Inverted<Adder>;
type AdderDbl = pb::simulators::Double<Adder, AdderInv>;
type MixDbl = pb::simulators::Double<Adder, GteInv>;
type Dpw = pb::DynamicPolyWatchdog;
type DpwInv = pb::simulators::Inverted<Dpw>;
type DpwDbl = pb::simulators::Double<Dpw, DpwInv>;
type GteInvInv = pb::simulators::Inverted<GteInv>;
type CardTot = pb::simulators::Card<Tot>;
type CardInv = pb::simulators::Card<CInv>;
pb_ub!(Gte, UB, |e, v| e.extend(v.iter().copied()), |_, _| false);
pb_lb!(GteInv, LB, |e, v| e.extend(v.iter().copied()));
pb_both!(GteDbl, BOTH, |e, v| e.extend(v.iter().copied()));
pb_both!(Adder, BOTH, |e, v| e.extend(v.iter().copied()));
pb_both!(AdderInv, BOTH, |e, v| e.extend(v.iter().copied()));
pb_both!(AdderDbl, BOTH, |e, v| e.extend(v.iter().copied()));
pb_both!(MixDbl, BOTH, |e, v| e.extend(v.iter().copied()));
pb_ub!(Dpw, DPW, |_, _| unreachable!(), |e, d| e.set_precision(d).is_ok());
pb_lb!(DpwInv, DPW_LB, |_, _| unreachable!());
pb_both!(DpwDbl, DPW_BOTH, |_, _| unreachable!());
pb_both!(CardTot, BOTH, |e, v| e.extend(v.iter().copied()), {});
pb_both!(CardInv, BOTH, |e, v| e.extend(v.iter().copied()), {});
pb_ub!(GteInvInv, UB, |e, v| e.extend(v.iter().copied()), |_, _| false);

fn map(v: &[(Lit, usize)]) -> RsHashMap<Lit, usize> {
    let mut m = RsHashMap::default();
    for (l, w) in v {
        *m.entry(*l).or_insert(0) += w;
    }
    m
}

fn make_card(sim: &mut Sim, v: &[(Lit, usize)]) -> (Box<dyn Enc>, &'static str) {
    let l: Vec<Lit> = v.iter().map(|x| x.0).collect();
    let from_iter = sim.coin();
    macro_rules! mk {
        ($t:ty) => {
            if from_iter {
                Box::new(W(l.into_iter().collect::<$t>())) as Box<dyn Enc>
            } else {
                Box::new(W(<$t>::from(l))) as Box<dyn Enc>
            }
        };
    }
    match sim.weighted(&[6, 3, 2, 1, 1, 1]) {
        0 => (mk!(Tot), "Totalizer"),
        1 => (mk!(CInv), "Inverted<Totalizer>"),
        2 => (mk!(CDbl), "Double<Totalizer, Inverted<Totalizer>>"),
        3 => (mk!(CDbl2), "Double<Inverted<Totalizer>, Totalizer>"),
        4 => (mk!(CInvInv), "Inverted<Inverted<Totalizer>>"),
        _ => (mk!(CInvDbl), "Inverted<Double<Totalizer, Inverted<Totalizer>>>"),
    }
}

fn make_pb(sim: &mut Sim, v: &[(Lit, usize)]) -> (Box<dyn Enc>, &'static str) {
    let m = map(v);
    let from_iter = sim.coin();
    macro_rules! mk {
        ($t:ty) => {
            if from_iter {
                Box::new(W(v.iter().copied().collect::<$t>())) as Box<dyn Enc>
            } else {
                Box::new(W(<$t>::from(m))) as Box<dyn Enc>
            }
        };
    }
    match sim.weighted(&[5, 2, 3, 5, 2, 1, 1, 5, 2, 1, 1, 1, 1]) {
        0 => (mk!(Gte), "GeneralizedTotalizer"),
        1 => (mk!(GteInv), "Inverted<GeneralizedTotalizer>"),
        2 => (mk!(GteDbl), "Double<GeneralizedTotalizer, Inverted<GeneralizedTotalizer>>"),
        3 => (mk!(Adder), "BinaryAdder"),
        4 => (mk!(AdderInv), "Inverted<BinaryAdder>"),
        5 => (mk!(AdderDbl), "Double<BinaryAdder, Inverted<BinaryAdder>>"),
        6 => (mk!(MixDbl), "Double<BinaryAdder, Inverted<GeneralizedTotalizer>>"),
        7 => (mk!(Dpw), "DynamicPolyWatchdog"),
        8 => (mk!(DpwInv), "Inverted<DynamicPolyWatchdog>"),
        9 => (mk!(DpwDbl), "Double<DynamicPolyWatchdog, Inverted<DynamicPolyWatchdog>>"),
        10 => (mk!(GteInvInv), "Inverted<Inverted<GeneralizedTotalizer>>"),
        11 => (mk!(CardTot), "Card<Totalizer>"),
        _ => (mk!(CardInv), "Card<Inverted<Totalizer>>"),
    }
}

type Terms = Vec<(i32, usize)>;

fn total(t: &Terms) -> usize {
    t.iter().map(|x| x.1).sum()
}

fn value(t: &Terms, a: &[i32]) -> usize {
    t.iter().filter(|(l, _)| a.contains(l)).map(|x| x.1).sum()
}

fn holds(rel: Rel, v: usize, b: usize) -> bool {
    match rel {
        Rel::Ub => v <= b,
        Rel::Lb => v >= b,
        Rel::Eq => v == b,
    }
}

fn in_range(r: Rng, b: usize) -> bool {
    std::ops::RangeBounds::contains(&r, &b)
}

fn gen_range(sim: &mut Sim, sum: usize) -> Rng {
    let hi = sum + 3;
    let a = sim.range(0, hi);
    let b = match sim.weighted(&[3, 3, 2]) {
        0 => a,
        1 => (a + sim.range(0, 3)).min(hi),
        _ => sim.range(0, hi),
    };
    let b = if sim.chance(1, 24) { usize::MAX } else { b };
    let (a, b) = if a <= b || sim.chance(1, 8) { (a, b) } else { (b, a) };
    let s = match sim.weighted(&[6, 1, 1]) {
        0 => Bound::Included(a),
        1 => Bound::Excluded(a),
        _ => Bound::Unbounded,
    };
    let e = match sim.weighted(&[6, 2, 1]) {
        0 => Bound::Included(b),
        1 => Bound::Excluded(b),
        _ => Bound::Unbounded,
    };
    (s, e)
}

/// assignments of the variables of `t` (as lists of true literals) on which to compare
fn assignments(sim: &mut Sim, t: &Terms, limit: usize) -> Vec<Vec<i32>> {
    let vars: Vec<i32> = t.iter().map(|x| x.0.abs()).collect::<BTreeSet<_>>().into_iter().collect();
    let n = vars.len();
    let of = |bits: u64| -> Vec<i32> { vars.iter().enumerate().map(|(i, v)| if bits >> i & 1 == 1 { *v } else { -v }).collect() };
    if 1usize << n <= limit {
        (0..1u64 << n).map(of).collect()
    } else {
        let mut out = vec![];
        for _ in 0..limit {
            out.push(of(sim.choose(1 << n)));
        }
        out
    }
}

#[derive(Clone)]
struct Hard {
    terms: Terms,
    rel: Rel,
    b: usize,
}

fn gen_inputs(sim: &mut Sim, nv: usize, n: usize, card: bool, wmax: usize, distinct: bool, used: &Terms) -> Terms {
    let mut v: Terms = vec![];
    for _ in 0..n {
        let l = sim.range(1, nv) as i32 * if sim.coin() { 1 } else { -1 };
        if distinct && (v.iter().any(|x| x.0.abs() == l.abs()) || used.iter().any(|x| x.0.abs() == l.abs())) {
            continue;
        }
        let w = if card { 1 } else { sim.range(1, wmax) };
        v.push((l, w));
    }
    v
}

fn lits_of(t: &Terms) -> Vec<(Lit, usize)> {
    t.iter().map(|x| (lit(x.0), x.1)).collect()
}

/// Compare: clauses and assumptions satisfiable with the assignment exactly if the bound (and every hardened bound) holds
fn compare(sim: &mut Sim, col: &mut Col, terms: &Terms, assumps: &[i32], rel: Option<(Rel, usize)>, hard: &[Hard], class: &str, what: &str) -> Outcome {
    let lim = if sim.chance(1, 3) { 32 } else { 8 };
    for a in assignments(sim, terms, lim) {
        let mut q = a.clone();
        q.extend_from_slice(assumps);
        let got = col.sat.solve(&q).is_some();
        let want = rel.is_none_or(|(r, b)| holds(r, value(terms, &a), b)) && hard.iter().all(|h| holds(h.rel, value(&h.terms, &a), h.b));
        ensure!(
            got == want,
            format!("{class}:{}", if got { "allows" } else { "excludes" }),
            "{what}: the assignment {a:?} has value {} for {terms:?}, but the clauses {} it (bound {rel:?}, assumptions {assumps:?}, hardened {:?})",
            value(terms, &a),
            if got { "allow" } else { "exclude" },
            hard.iter().map(|h| (h.rel, h.b)).collect::<Vec<_>>()
        );
    }
    Ok(())
}

fn drive(sim: &mut Sim, is_card: bool, oom: bool) -> Outcome {
    let mut nv = sim.range(1, 7);
    let wmax = *sim.pick(&[1usize, 3, 6, 12, 20]);
    let n0 = sim.range(0, 6);
    let distinct = !sim.chance(1, 4);
    let mut terms = gen_inputs(sim, nv, n0, is_card, wmax, distinct, &vec![]);
    let lits = lits_of(&terms);
    let (mut enc, name) = if is_card { make_card(sim, &lits) } else { make_pb(sim, &lits) };
    let caps = enc.caps();
    // names of the encodings end up in the classes, so that findings stay specific
    let mut tag = name;
    sim.panic_ctx = tag.to_string();
    sim.op(name);
    let spare = sim.range(0, 2);
    let mut vm = BasicVarManager::default();
    vm.increase_next_free(Var::new((nv + spare) as u32));
    let mut reserved_vars: BTreeSet<i32> = BTreeSet::new();
    let first_aux = vm.n_used();
    let mut col = Col::default();
    let fresh_mode = !oom && sim.chance(1, 3);
    let mut cov_ub: BTreeSet<usize> = BTreeSet::new();
    let mut cov_lb: BTreeSet<usize> = BTreeSet::new();
    let mut hard: Vec<Hard> = vec![];
    let mut old: Vec<(Terms, Rel, usize, Vec<i32>)> = vec![];
    let mut reserved = false;
    let mut alloc_by_enc = 0u32;
    let mut added_total = 0usize;
    let mut hist: Vec<String> = vec![format!("{name} over {terms:?}")];
    let mut encoded_once = false;
    let mut dirty = false;
    let (mut whole_ub, mut whole_lb) = (false, false);
    // Two recorded defects of the binary adder cannot be repaired without changing clause counts that
    // existing tests fix; histories that run into them are kept rare and get classes of their own.
    let adder = match name {
        "BinaryAdder" => Some((Rel::Ub, Rel::Lb)),
        "Inverted<BinaryAdder>" => Some((Rel::Lb, Rel::Ub)),
        _ => None,
    };
    let mut adder_ever = (false, false);
    let mut shape = simcore::sim::hash_str(name);
    let steps = sim.range(1, 7);
    let mut snap = None;
    for step in 0..steps {
        if persist::on() {
            match sim.weighted(&[3, 3, 2, 1]) {
                0 => (),
                // everything that matters is durable; crash
                k @ (1 | 2) => {
                    let e = enc.save(sim)?;
                    let v = persist::save(sim, &vm, "variable manager")?;
                    if k == 1 {
                        sim.fault("restart from a snapshot");
                        enc.load(sim, &e)?;
                        vm = persist::load(sim, &v, "variable manager")?;
                        hist.push("restart".into());
                    } else {
                        hist.push("snapshot".into());
                        let model = (
                            (terms.clone(), nv, tag, reserved_vars.clone(), col.clone(), cov_ub.clone(), cov_lb.clone(), hard.clone(), old.clone(), reserved),
                            (alloc_by_enc, added_total, hist.clone(), encoded_once, dirty, whole_ub, whole_lb, adder_ever),
                        );
                        snap = Some((e, v, model));
                    }
                }
                _ => {
                    if let Some((e, v, model)) = &snap {
                        sim.fault("crash back to an earlier snapshot");
                        enc.load(sim, e)?;
                        vm = persist::load(sim, v, "variable manager")?;
                        let lost = hist.len();
                        (
                            (terms, nv, tag, reserved_vars, col, cov_ub, cov_lb, hard, old, reserved),
                            (alloc_by_enc, added_total, hist, encoded_once, dirty, whole_ub, whole_lb, adder_ever),
                        ) = model.clone();
                        hist.push(format!("crash (lost {})", lost - hist.len()));
                    }
                }
            }
            sim.ev(hist.last().unwrap());
        }
        let sum = total(&terms);
        ensure!(enc.sum() == sum, format!("sum:{tag}"), "reported sum {} for {terms:?} after {hist:?}", enc.sum());
        let act = if step == 0 { 0 } else { sim.weighted(&[6, if caps.extend { 3 } else { 0 }, 1, if caps.monotone && !fresh_mode { 1 } else { 0 }, 1]) };
        shape = simcore::sim::mix(shape, act as u64);
        match act {
            // request a range
            0 => {
                let mut rels = vec![];
                if caps.ub {
                    rels.push(Rel::Ub);
                }
                if caps.lb {
                    rels.push(Rel::Lb);
                }
                if caps.ub && caps.lb {
                    rels.push(Rel::Eq);
                }
                let mut rel = *sim.pick(&rels);
                let r = gen_range(sim, sum);
                let mut change = caps.inc && encoded_once && sim.chance(2, 3);
                if fresh_mode && !change && sim.coin() {
                    hist.push("new collector".into());
                    col = Col::default();
                    cov_ub.clear();
                    cov_lb.clear();
                    old.clear();
                    whole_ub = false;
                    whole_lb = false;
                }
                // in fresh mode a direction only counts once it was produced as a whole in this round
                if fresh_mode && ((rel != Rel::Lb && !whole_ub) || (rel != Rel::Ub && !whole_lb)) {
                    change = false;
                }
                if let Some((u, l)) = adder {
                    let bad = (rel != l && change && adder_ever.1) || (rel == l && adder_ever.0) || (rel == Rel::Eq && change);
                    if bad {
                        if !oom && !persist::on() && sim.chance(1, 8) {
                            tag = if name == "BinaryAdder" { "mixed:BinaryAdder" } else { "mixed:Inverted<BinaryAdder>" };
                        } else {
                            rel = Rel::Eq;
                            change = false;
                        }
                    }
                    adder_ever.0 |= rel != l;
                    adder_ever.1 |= rel != u;
                }
                // the generalised totalizer only guarantees the last request
                let forget = name.contains("GeneralizedTotalizer");
                if change && forget {
                    if rel != Rel::Lb {
                        cov_ub.clear();
                    }
                    if rel != Rel::Ub {
                        cov_lb.clear();
                    }
                }
                if !change {
                    if rel != Rel::Lb {
                        cov_ub.clear();
                        whole_ub = true;
                    }
                    if rel != Rel::Ub {
                        cov_lb.clear();
                        whole_lb = true;
                    }
                }
                shape = simcore::sim::mix(shape, (rel as u64) * 4 + u64::from(change) * 2);
                hist.push(format!("encode {rel:?}{} {r:?}", if change { " change" } else { "" }));
                sim.ev(hist.last().unwrap());
                encoded_once = true;
                let mut tries = 0;
                loop {
                    if oom && tries < 3 {
                        col.budget = if sim.chance(2, 3) { Some(sim.range(0, 25)) } else { None };
                    } else {
                        col.budget = None;
                    }
                    let (before_cl, before_v, refused) = (col.cls.len(), vm.n_used(), col.refused);
                    let res = enc.encode(rel, change, r, &mut col, &mut vm);
                    added_total += col.cls.len() - before_cl;
                    alloc_by_enc += vm.n_used() - before_v;
                    let new_vars: BTreeSet<i32> = col.cls[before_cl..].iter().flatten().map(|l| l.abs()).collect();
                    for v in &new_vars {
                        let input = terms.iter().any(|t| t.0.abs() == *v);
                        ensure!(input || *v > first_aux as i32, format!("vars:{tag}"), "the clauses use variable {v}, which is neither an input nor fresh (first fresh one {}) after {hist:?}", first_aux + 1);
                        ensure!(!reserved_vars.contains(v) || input, format!("vars:{tag}"), "the clauses use variable {v}, which was handed out to somebody else, after {hist:?}");
                        ensure!(*v <= vm.max_var().map_or(0, |x| x.idx32() as i32 + 1), format!("vars:{tag}"), "the clauses use variable {v} the manager does not know about");
                    }
                    match res {
                        Ok(()) => {
                            ensure!(col.refused == refused, format!("oom:swallowed:{tag}"), "the collector refused a clause, but success was reported ({hist:?})");
                            break;
                        }
                        Err(e) => {
                            ensure!(col.refused > refused, format!("encode:error:{tag}"), "{e} reported without the collector failing ({hist:?})");
                            sim.fault("collector refuses a clause");
                            sim.nontrivial = true;
                            hist.push("collector failed".into());
                            sim.ev("collector failed");
                            tries += 1;
                            if sim.chance(3, 4) {
                                // nothing beyond the encoding was added: no assignment is excluded
                                compare(sim, &mut col, &terms, &[], None, &hard, &format!("oom:partial:{tag}"), &format!("{hist:?}"))?;
                            }
                            col.budget = None;
                            // retry with the same request, as a change or as a whole
                            if caps.inc && adder.is_none() && sim.chance(1, 3) {
                                hist.push("retry as change".into());
                                change = true;
                            }
                        }
                    }
                }
                col.budget = None;
                dirty = false;
                for b in 0..=sum + 4 {
                    if in_range(r, b) {
                        if rel != Rel::Lb {
                            cov_ub.insert(b);
                        }
                        if rel != Rel::Ub {
                            cov_lb.insert(b);
                        }
                    }
                }
                if !reserved && !oom && !fresh_mode {
                  if let Some((c, v)) = enc.stats() {
                    ensure!(c == added_total, format!("stats:clauses:{tag}"), "{c} clauses reported, {added_total} collected, after {hist:?}");
                    ensure!(v == alloc_by_enc, format!("stats:vars:{tag}"), "{v} variables reported, {alloc_by_enc} used, after {hist:?}");
                  }
                }
            }
            // add inputs
            1 => {
                let k = sim.range(0, 3);
                let mut more;
                if sim.coin() {
                    more = vec![];
                    for _ in 0..k {
                        let v = vm.new_var();
                        reserved_vars.insert(v.idx32() as i32 + 1);
                        let w = if is_card { 1 } else { sim.range(1, wmax) };
                        more.push(((v.idx32() as i32 + 1) * if sim.coin() { 1 } else { -1 }, w));
                    }
                } else {
                    more = gen_inputs(sim, nv, k, is_card, wmax, distinct, &terms);
                }
                if terms.len() + more.len() > 9 {
                    more.clear();
                }
                hist.push(format!("add {more:?}"));
                sim.ev(hist.last().unwrap());
                enc.add(&lits_of(&more));
                if !more.is_empty() {
                    cov_ub.clear();
                    cov_lb.clear();
                    dirty = true;
                }
                terms.extend(more);
                nv = nv.max(1);
            }
            2 => {
                hist.push("reserve".into());
                sim.ev("reserve");
                reserved = true;
                // "make sure that nothing has been called afterwards"
                cov_ub.clear();
                cov_lb.clear();
                dirty = true;
                enc.reserve(&mut vm);
            }
            // harden a covered bound
            3 => {
                let rel = if caps.ub && (!caps.lb || sim.coin()) { Rel::Ub } else { Rel::Lb };
                let cov = if rel == Rel::Ub { &cov_ub } else { &cov_lb };
                let cands: Vec<usize> = cov.iter().copied().filter(|b| *b <= sum).collect();
                if let Some(b) = cands.get(sim.idx(cands.len().max(1))).copied() {
                    if let Ok(a) = enc.enforce(rel, b) {
                        hist.push(format!("harden {rel:?} {b}"));
                        sim.ev(hist.last().unwrap());
                        for l in a {
                            let l = l.to_ipasir();
                            col.sat.add(&[l]);
                        }
                        hard.push(Hard { terms: terms.clone(), rel, b });
                    }
                }
            }
            // somebody else takes a variable
            _ => {
                let v = vm.new_var();
                reserved_vars.insert(v.idx32() as i32 + 1);
            }
        }
        // checks
        let sum = total(&terms);
        compare(sim, &mut col, &terms, &[], None, &hard, &format!("alone:{tag}"), &format!("{hist:?}"))?;
        if step + 1 != steps && sim.chance(1, 2) {
            continue;
        }
        let mut rels = vec![];
        if caps.ub {
            rels.push(Rel::Ub);
        }
        if caps.lb {
            rels.push(Rel::Lb);
        }
        if caps.ub && caps.lb {
            rels.push(Rel::Eq);
        }
        for _ in 0..sim.range(1, 4) {
            let rel = *sim.pick(&rels);
            let b = sim.range(0, sum + 2);
            let b = if sim.chance(1, 8) { if rel == Rel::Lb { enc.coarse_lb(b) } else { enc.coarse_ub(b) } } else { b };
            let covered = match rel {
                Rel::Ub => cov_ub.contains(&b) || b >= sum,
                Rel::Lb => cov_lb.contains(&b) || b == 0,
                Rel::Eq => (cov_ub.contains(&b) || b >= sum) && (cov_lb.contains(&b) || b == 0),
            };
            if fresh_mode && !covered {
                // may refer to clauses in another collector
                continue;
            }
            match enc.enforce(rel, b) {
                Ok(a) => {
                    ensure!(rel == Rel::Ub || b <= sum, format!("enforce:impossible:{tag}"), "{rel:?} {b} is impossible for {terms:?}, but {a:?} was returned");
                    let a: Vec<i32> = a.iter().map(|l| l.to_ipasir()).collect();
                    sim.probe(if covered { "bound covered by a request" } else { "bound not requested but provided" });
                    sim.nontrivial = sim.nontrivial || !oom;
                    let class = format!("{}:{rel:?}:{tag}", if covered { "bound" } else if dirty { "stale" } else { "unrequested" });
                    compare(sim, &mut col, &terms, &a, Some((rel, b)), &hard, &class, &format!("{hist:?}"))?;
                    if !fresh_mode && caps.monotone {
                        old.push((terms.clone(), rel, b, a));
                    }
                }
                Err(EnforceError::NotEncoded) => {
                    sim.probe("NotEncoded");
                    if covered && (rel == Rel::Ub || b <= sum) {
                        sim.tolerate(format!("enforce:notencoded:{rel:?}:{tag}"), format!("{rel:?} {b} was requested for {terms:?} but is reported as not encoded, after {hist:?}"))?;
                    }
                }
                Err(EnforceError::Unsat) => {
                    ensure!(rel != Rel::Ub && b > sum, format!("enforce:unsat:{rel:?}:{tag}"), "{rel:?} {b} is possible for {terms:?} but reported as unsatisfiable, after {hist:?}");
                }
            }
        }
        if let Some((t, rel, b, a)) = old.get(sim.idx(old.len().max(1))).cloned() {
            if sim.coin() {
                // assumptions handed out earlier still mean the same about the inputs of that time
                let mut lim = assignments(sim, &terms, 8);
                lim.truncate(8);
                for x in lim {
                    let mut q = x.clone();
                    q.extend_from_slice(&a);
                    let got = col.sat.solve(&q).is_some();
                    let want = holds(rel, value(&t, &x), b) && hard.iter().all(|h| holds(h.rel, value(&h.terms, &x), h.b));
                    ensure!(got == want, format!("old:{tag}"), "assumptions {a:?} for {rel:?} {b} of {t:?} have changed their meaning on {x:?}, after {hist:?}");
                }
            }
        }
        // distinguishable values
        if !is_card && terms.len() <= 8 {
            let mut vals: BTreeSet<usize> = BTreeSet::new();
            for a in assignments(sim, &terms, 256) {
                vals.insert(value(&terms, &a));
            }
            let v = sim.range(0, sum + 1);
            if let Some(h) = if v < sum { enc.next_higher(v) } else { None } {
                let skipped = vals.range(v + 1..h.max(v + 1)).next();
                ensure!(h > v && skipped.is_none(), format!("next_higher:{tag}"), "next_higher({v}) = {h} for {terms:?}, but {skipped:?} is possible, after {hist:?}");
            }
            if v > 0 && v <= sum {
                if let Some(l) = enc.next_lower(v) {
                    let skipped = vals.range((l + 1).min(v)..v).next();
                    ensure!(l < v && skipped.is_none(), format!("next_lower:{tag}"), "next_lower({v}) = {l} for {terms:?}, but {skipped:?} is possible, after {hist:?}");
                }
            }
        }
        if let Some(i) = enc.inputs() {
            let mut x: Vec<_> = i.iter().map(|x| (x.0.to_ipasir(), x.1)).collect();
            let mut y = terms.clone();
            x.sort_unstable();
            y.sort_unstable();
            ensure!(x == y, format!("inputs:{tag}"), "inputs {x:?} reported for {y:?}");
        }
        sim.state(simcore::sim::mix(shape, (terms.len() * 64 + cov_ub.len() * 8 + cov_lb.len()) as u64));
    }
    sim.st.shapes.insert(shape);
    Ok(())
}

pub fn p13(sim: &mut Sim) -> Outcome {
    drive(sim, true, false)
}
/// wrong bounds after the recorded defect of the binary adder are one finding
fn mixed(r: Outcome) -> Outcome {
    r.map_err(|mut v| {
        if let Some(i) = v.class.find("mixed:") {
            if v.class.ends_with(":allows") || v.class.starts_with("old:") {
                let name = v.class[i + 6..].trim_end_matches(":allows").to_string();
                v.class = format!("mixed:unenforced:{name}");
            }
        }
        v
    })
}

pub fn p14(sim: &mut Sim) -> Outcome {
    mixed(drive(sim, false, false))
}
fn p15(sim: &mut Sim) -> Outcome {
    let c = sim.chance(2, 5);
    mixed(drive(sim, c, true))
}

pub fn register(s: &mut Vec<Scenario>, p: &mut Vec<Prop>) {
    s.push(Scenario { prop: "P13", name: "cardinality encodings over request histories", weight: 5, f: p13 });
    s.push(Scenario { prop: "P14", name: "pseudo-Boolean encodings over request histories", weight: 5, f: p14 });
    s.push(Scenario { prop: "P15", name: "encodings with a collector that runs out of memory", weight: 5, f: p15 });
    s.push(Scenario { prop: "P13", name: "totalizers sharing one node database", weight: 2, f: crate::shared::p13 });
    s.push(Scenario { prop: "P14", name: "weighted totalizers sharing one node database", weight: 2, f: crate::shared::p14 });
    s.push(Scenario { prop: "P15", name: "a shared node database with a collector that runs out of memory", weight: 2, f: crate::shared::p15 });
    s.push(Scenario { prop: "P14", name: "the dynamic polynomial watchdog at changing precision", weight: 2, f: crate::dpw::p14 });
    s.push(Scenario { prop: "P15", name: "the dynamic polynomial watchdog at changing precision with a collector that runs out of memory", weight: 1, f: crate::dpw::p15 });
    let real: &'static [&'static str] = &["rustsat::encodings (card, pb, totdb, nodedb)", "rustsat::instances::BasicVarManager"];
    p.push(Prop {
        id: "P13",
        quick_runs: 1_500_000,
        thorough_runs: 6_000_000,
        rule: "runs in which a bound of a generated history was compared with the constraint itself, distinct by the hash of the full event trace",
        shape_measure: "distinct sequences of (encoding, operation, bound kind, whole or change)",
        real,
        stub: &["clause collector (recording)", "SAT solver (reference procedure)"],
        assumptions: &["at most 9 inputs; bounds beyond the range are also asked for"],
    });
    p.push(Prop {
        id: "P14",
        quick_runs: 1_500_000,
        thorough_runs: 6_000_000,
        rule: "runs in which a bound of a generated history was compared with the constraint itself, distinct by the hash of the full event trace",
        shape_measure: "distinct sequences of (encoding, operation, bound kind, whole or change)",
        real,
        stub: &["clause collector (recording)", "SAT solver (reference procedure)"],
        assumptions: &["at most 9 inputs, weights up to 20"],
    });
    p.push(Prop {
        id: "P15",
        quick_runs: 1_500_000,
        thorough_runs: 6_000_000,
        rule: "runs in which the collector refused a clause, distinct by the hash of the full event trace",
        shape_measure: "distinct sequences of (encoding, operation, bound kind, whole or change)",
        real,
        stub: &["clause collector (recording, refuses clauses)", "SAT solver (reference procedure)"],
        assumptions: &["a collector that refuses a clause keeps the clauses it accepted before"],
    });
}
