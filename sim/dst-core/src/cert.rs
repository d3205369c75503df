//! P16: certified encodings.
//!
//! A certified encoding and its uncertified twin take the same history; the proof written so far is
//! checked by an independent checker, every emitted clause has to be implied by the constraint with
//! the identifier it was emitted with, and both clause sets have to enforce the requested bounds.
use crate::enc::Rel;
use crate::model::{bit, gen_con, Con, Op};
use crate::util::{ipasir, lit};
use crate::veripb::{self, Ineq};
use pigeons::{AbsConstraintId, Proof};
use rustsat::encodings::cert::{CollectClauses as CertCollect, ConstraintEncodingError, EncodingError};
use rustsat::encodings::{card, pb, CollectClauses, EnforceError};
use rustsat::instances::{BasicVarManager, ManageVars};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Clause, Lit, Var};
use rustsat::OutOfMemory;
use simcore::reference::Sat;
use simcore::runner::{Prop, Scenario};
use simcore::{bail, ensure, Outcome, Sim, Violation};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Default)]
pub struct Dev {
    pub data: Vec<u8>,
    /// bytes accepted before failing
    pub limit: Option<usize>,
    pub failed: bool,
    /// pieces of this size at most
    pub piece: usize,
}

#[derive(Clone, Default)]
pub struct DevWriter(pub Rc<RefCell<Dev>>);

impl std::io::Write for DevWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut d = self.0.borrow_mut();
        let mut n = b.len();
        if d.piece > 0 {
            n = n.min(d.piece);
        }
        // a second failure while a failure unwinds would only hide the first
        if let Some(l) = d.limit.filter(|_| !std::thread::panicking()) {
            if d.data.len() >= l {
                d.failed = true;
                return Err(std::io::Error::other("simulated write error"));
            }
            n = n.min(l - d.data.len());
        }
        d.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// collects clauses with their identifiers
#[derive(Default)]
struct CCol {
    cls: Vec<(Vec<i32>, Option<usize>)>,
    budget: Option<usize>,
    refused: u64,
}

impl CCol {
    fn put(&mut self, c: Clause, id: Option<usize>) -> Result<(), OutOfMemory> {
        if let Some(b) = &mut self.budget {
            if *b == 0 {
                self.refused += 1;
                return Err(OutOfMemory::ExternalApi);
            }
            *b -= 1;
        }
        self.cls.push((ipasir(&c), id));
        Ok(())
    }
}

impl CollectClauses for CCol {
    fn n_clauses(&self) -> usize {
        self.cls.len()
    }
    fn extend_clauses<T: IntoIterator<Item = Clause>>(&mut self, it: T) -> Result<(), OutOfMemory> {
        it.into_iter().try_for_each(|c| self.put(c, None))
    }
}

impl CertCollect for CCol {
    fn extend_cert_clauses<T: IntoIterator<Item = (Clause, AbsConstraintId)>>(&mut self, it: T) -> Result<(), OutOfMemory> {
        it.into_iter().try_for_each(|(c, id)| self.put(c, Some(id.to_string().parse().unwrap())))
    }
}

type Pf = Proof<DevWriter>;
type Range = std::ops::RangeInclusive<usize>;

trait Enc {
    fn add(&mut self, l: Lit, w: usize);
    fn plain(&mut self, rel: Rel, change: bool, r: Range, col: &mut CCol, vm: &mut BasicVarManager) -> Result<(), OutOfMemory>;
    fn cert(&mut self, rel: Rel, change: bool, r: Range, col: &mut CCol, vm: &mut BasicVarManager, p: &mut Pf) -> Result<(), EncodingError>;
    fn enforce(&self, rel: Rel, b: usize) -> Result<Vec<Lit>, EnforceError>;
}

macro_rules! whole {
    ($s:ident, $rel:ident, $change:ident, [$($k:ident => $f:ident, $fc:ident);*], $a:tt) => {
        match $rel {
            $(Rel::$k => if $change { whole!(@ $s.0, $fc, $a) } else { whole!(@ $s.0, $f, $a) })*
            #[allow(unreachable_patterns)]
            _ => unreachable!(),
        }
    };
    (@ $e:expr, $f:ident, ($($a:expr),*)) => { $e.$f($($a),*) };
}

macro_rules! both {
    ($name:ident, $ty:ty, $m:ident, $s:ident, $l:ident, $w:ident => $ext:expr) => {
        struct $name($ty);
        impl Enc for $name {
            fn add(&mut self, l: Lit, w: usize) {
                let ($s, $l, $w) = (self, l, w);
                let _ = $w;
                $ext
            }
            fn plain(&mut self, rel: Rel, change: bool, r: Range, col: &mut CCol, vm: &mut BasicVarManager) -> Result<(), OutOfMemory> {
                use $m::{BoundBoth, BoundBothIncremental, BoundLower, BoundLowerIncremental, BoundUpper, BoundUpperIncremental};
                whole!(self, rel, change, [Ub => encode_ub, encode_ub_change; Lb => encode_lb, encode_lb_change; Eq => encode_both, encode_both_change], (r, col, vm))
            }
            fn cert(&mut self, rel: Rel, change: bool, r: Range, col: &mut CCol, vm: &mut BasicVarManager, p: &mut Pf) -> Result<(), EncodingError> {
                use $m::cert::{BoundBoth, BoundBothIncremental, BoundLower, BoundLowerIncremental, BoundUpper, BoundUpperIncremental};
                whole!(self, rel, change, [Ub => encode_ub_cert, encode_ub_change_cert; Lb => encode_lb_cert, encode_lb_change_cert; Eq => encode_both_cert, encode_both_change_cert], (r, col, vm, p))
            }
            fn enforce(&self, rel: Rel, b: usize) -> Result<Vec<Lit>, EnforceError> {
                use $m::{BoundBoth, BoundLower, BoundUpper};
                match rel {
                    Rel::Ub => Ok(self.0.enforce_ub(b)?),
                    Rel::Lb => Ok(self.0.enforce_lb(b)?),
                    Rel::Eq => Ok(self.0.enforce_eq(b)?),
                }
            }
        }
    };
}
both!(Tot, card::Totalizer, card, s, l, w => s.0.extend([l]));
both!(TotInv, card::simulators::Inverted<card::Totalizer>, card, s, l, w => s.0.extend([l]));
both!(TotDbl, card::simulators::Double<card::Totalizer, card::simulators::Inverted<card::Totalizer>>, card, s, l, w => s.0.extend([l]));
both!(PbCard, pb::simulators::Card<card::Totalizer>, pb, s, l, w => s.0.extend([(l, w)]));
both!(Dbl, pb::DoubleGeneralizedTotalizer, pb, s, l, w => s.0.extend([(l, w)]));

struct Gte(pb::GeneralizedTotalizer);
impl Enc for Gte {
    fn add(&mut self, l: Lit, w: usize) {
        self.0.extend([(l, w)]);
    }
    fn plain(&mut self, rel: Rel, change: bool, r: Range, col: &mut CCol, vm: &mut BasicVarManager) -> Result<(), OutOfMemory> {
        use pb::{BoundUpper, BoundUpperIncremental};
        whole!(self, rel, change, [Ub => encode_ub, encode_ub_change], (r, col, vm))
    }
    fn cert(&mut self, rel: Rel, change: bool, r: Range, col: &mut CCol, vm: &mut BasicVarManager, p: &mut Pf) -> Result<(), EncodingError> {
        use pb::cert::{BoundUpper, BoundUpperIncremental};
        whole!(self, rel, change, [Ub => encode_ub_cert, encode_ub_change_cert], (r, col, vm, p))
    }
    fn enforce(&self, _: Rel, b: usize) -> Result<Vec<Lit>, EnforceError> {
        use pb::BoundUpper;
        self.0.enforce_ub(b)
    }
}

struct Inv(pb::simulators::Inverted<pb::GeneralizedTotalizer>);
impl Enc for Inv {
    fn add(&mut self, l: Lit, w: usize) {
        self.0.extend([(l, w)]);
    }
    fn plain(&mut self, rel: Rel, change: bool, r: Range, col: &mut CCol, vm: &mut BasicVarManager) -> Result<(), OutOfMemory> {
        use pb::{BoundLower, BoundLowerIncremental};
        whole!(self, rel, change, [Lb => encode_lb, encode_lb_change], (r, col, vm))
    }
    fn cert(&mut self, rel: Rel, change: bool, r: Range, col: &mut CCol, vm: &mut BasicVarManager, p: &mut Pf) -> Result<(), EncodingError> {
        use pb::cert::{BoundLower, BoundLowerIncremental};
        whole!(self, rel, change, [Lb => encode_lb_cert, encode_lb_change_cert], (r, col, vm, p))
    }
    fn enforce(&self, _: Rel, b: usize) -> Result<Vec<Lit>, EnforceError> {
        use pb::BoundLower;
        self.0.enforce_lb(b)
    }
}

const NAMES: [&str; 7] = ["Totalizer", "GTE", "Inverted<GTE>", "Double<GTE>", "Inverted<Totalizer>", "Double<Totalizer>", "Card<Totalizer>"];

fn make(which: usize) -> Box<dyn Enc> {
    match which {
        0 => Box::new(Tot(Default::default())),
        1 => Box::new(Gte(Default::default())),
        2 => Box::new(Inv(Default::default())),
        3 => Box::new(Dbl(Default::default())),
        4 => Box::new(TotInv(Default::default())),
        5 => Box::new(TotDbl(Default::default())),
        _ => Box::new(PbCard(Default::default())),
    }
}

fn unweighted(which: usize) -> bool {
    [0, 4, 5].contains(&which)
}

/// checks the proof and that every clause is justified
fn check_proof(formula: &[Ineq], dev: &DevWriter, col: &CCol, partial: bool, tag: &str, what: &dyn Fn() -> String) -> Result<veripb::Checked, Violation> {
    let text = String::from_utf8_lossy(&dev.0.borrow().data).into_owned();
    let c = match veripb::check(formula, &text, partial) {
        Ok(c) => c,
        Err(e) => {
            let kind = e.rsplit_once("line \"").map_or("text", |x| x.1.split(' ').next().unwrap_or("")).to_string();
            bail!(format!("proof:{tag}:{kind}"), "{}: the proof is rejected: {e}\n{text}", what());
        }
    };
    for (cl, id) in &col.cls {
        let Some(id) = id else {
            bail!(format!("uncertified:{tag}"), "{}: clause {cl:?} was emitted without a proof", what());
        };
        let Some(d) = c.ever.get(*id) else {
            bail!(format!("id:{tag}"), "{}: clause {cl:?} was emitted as constraint {id}, but the proof has only {} constraints\n{text}", what(), c.ever.len() - 1);
        };
        ensure!(d.implies_clause(cl), format!("id:{tag}"), "{}: clause {cl:?} was emitted as constraint {id}, which is {d:?}\n{text}", what());
        ensure!(c.db[*id].is_some(), format!("deleted:{tag}"), "{}: clause {cl:?}, constraint {id}, was deleted from the proof\n{text}", what());
    }
    Ok(c)
}

fn sorted(cls: &[Vec<i32>]) -> Vec<Vec<i32>> {
    let mut v: Vec<Vec<i32>> = cls
        .iter()
        .map(|c| {
            let mut c = c.clone();
            c.sort_unstable();
            c
        })
        .collect();
    v.sort();
    v.dedup();
    v
}

fn start(dev: &DevWriter, n: usize) -> Pf {
    Proof::new(dev.clone(), n, false).expect("starting a proof on a working device")
}

fn p16_hist(sim: &mut Sim) -> Outcome {
    let which = sim.weighted(&[4, 3, 1, 1, 1, 1, 1]);
    let name = NAMES[which];
    let faults = sim.chance(1, 3);
    let n0 = sim.range(0, 5);
    let n_total = sim.range(n0, 6);
    let dev = DevWriter::default();
    if sim.chance(1, 4) {
        dev.0.borrow_mut().piece = sim.range(1, 9);
    }
    let mut proof = start(&dev, 0);
    let (mut e, mut tw) = (make(which), make(which));
    let (mut col, mut twcol) = (CCol::default(), CCol::default());
    let first = Var::new(n_total as u32);
    let (mut vm, mut twvm) = (BasicVarManager::from_next_free(first), BasicVarManager::from_next_free(first));
    let mut ins: Vec<(i32, usize)> = vec![];
    let mut log: Vec<String> = vec![format!("{name}")];
    let maxw = *sim.pick(&[2usize, 5, 9]);
    let add = |sim: &mut Sim, ins: &mut Vec<(i32, usize)>, e: &mut Box<dyn Enc>, tw: &mut Box<dyn Enc>| {
        let v = ins.len() as i32 + 1;
        let l = if sim.chance(1, 4) { -v } else { v };
        let w = if unweighted(which) { 1 } else { sim.range(1, if which == 6 { maxw.min(3) } else { maxw }) };
        e.add(lit(l), w);
        tw.add(lit(l), w);
        ins.push((l, w));
    };
    for _ in 0..n0 {
        add(sim, &mut ins, &mut e, &mut tw);
    }
    log.push(format!("{ins:?}"));
    let mut same = true;
    let mut io_failed = false;
    let steps = sim.range(1, 5);
    for _ in 0..steps {
        if ins.len() < n_total && sim.chance(1, 3) {
            add(sim, &mut ins, &mut e, &mut tw);
            log.push(format!("add {:?}", ins.last().unwrap()));
        }
        let rel = match which {
            1 => Rel::Ub,
            2 => Rel::Lb,
            _ => *sim.pick(&[Rel::Ub, Rel::Lb, Rel::Eq]),
        };
        let change = sim.chance(3, 5);
        let sum: usize = ins.iter().map(|x| x.1).sum();
        let lo = sim.range(0, sum + 1);
        let hi = (lo + sim.range(0, 3)).min(sum + 2);
        let (clauses_before, refused) = (col.cls.len(), col.refused);
        if faults && sim.chance(1, 3) {
            col.budget = Some(sim.range(0, 6));
        }
        if faults && sim.chance(1, 4) {
            let at = dev.0.borrow().data.len() + sim.range(0, 400);
            dev.0.borrow_mut().limit = Some(at);
        }
        log.push(format!("encode {rel:?}{} {lo}..={hi}", if change { " change" } else { "" }));
        sim.op(&format!("{name}{rel:?}{change}"));
        sim.panic_ctx = format!("certify:{name}");
        let r = e.cert(rel, change, lo..=hi, &mut col, &mut vm, &mut proof);
        col.budget = None;
        dev.0.borrow_mut().limit = None;
        sim.panic_ctx = format!("plain:{name}");
        let tr = tw.plain(rel, change, lo..=hi, &mut twcol, &mut twvm);
        ensure!(tr.is_ok(), "twin", "the uncertified encoding fails");
        let failed = dev.0.borrow().failed;
        let what = || format!("{log:?}");
        match r {
            Ok(()) => {
                ensure!(!failed, format!("write-error-hidden:{name}"), "{}: the proof could not be written, but the encoding succeeded", what());
                ensure!(col.refused == refused, format!("oom-hidden:{name}"), "{}: a clause was refused, but the encoding succeeded", what());
            }
            Err(EncodingError::Proof(_)) => {
                ensure!(failed, format!("write-error-invented:{name}"), "{}: no write failed", what());
                sim.fault("writing the proof fails");
                io_failed = true;
            }
            Err(EncodingError::OutOfMemory(_)) => {
                ensure!(col.refused > refused, format!("oom-invented:{name}"), "{}: no clause was refused", what());
                sim.fault("a clause is refused");
                log.push("refused".into());
                same = false;
                continue;
            }
        }
        if io_failed {
            log.push("write error".into());
            break;
        }
        sim.state(simcore::sim::mix(simcore::sim::hash_str(name), (col.cls.len() * 31 + ins.len()) as u64));
        {
            let a = sorted(&col.cls.iter().map(|c| c.0.clone()).collect::<Vec<_>>());
            let b = sorted(&twcol.cls.iter().map(|c| c.0.clone()).collect::<Vec<_>>());
            let what = || format!("{log:?}");
            if same && a != b {
                sim.probe("clause sets differ from the uncertified encoding");
            }
            let _ = clauses_before;
            // the bounds asked for are enforced
            let mut sat = Sat::new();
            for (c, _) in &col.cls {
                sat.add(c);
            }
            for b in lo..=hi.min(sum) {
                let Ok(u) = e.enforce(rel, b) else {
                    let t = tw.enforce(rel, b);
                    ensure!(same && t.is_err(), format!("refused:{name}"), "{}: bound {b} is refused, but not by the uncertified encoding", what());
                    continue;
                };
                let u: Vec<i32> = u.iter().map(|l| l.to_ipasir()).collect();
                for x in 0..1u64 << ins.len() {
                    let v: usize = ins.iter().filter(|(l, _)| bit(x, *l)).map(|(_, w)| w).sum();
                    let holds = match rel {
                        Rel::Ub => v <= b,
                        Rel::Lb => v >= b,
                        Rel::Eq => v == b,
                    };
                    let mut q: Vec<i32> = (1..=ins.len() as i32).map(|i| if bit(x, i) { i } else { -i }).collect();
                    q.extend(&u);
                    ensure!(sat.is_sat(&q) == holds, format!("bound:{name}"), "{}: assignment {x:b} has value {v}, but bound {rel:?} {b} says {} ({u:?}, {:?})", what(), !holds, col.cls);
                }
            }
            sim.nontrivial = true;
        }
    }
    let what = || format!("{log:?}");
    if io_failed {
        // what was emitted before is justified by the lines that were written
        sim.nontrivial = true;
        check_proof(&[], &dev, &col, true, name, &what)?;
        std::mem::forget(proof);
        return Ok(());
    }
    sim.nontrivial = true;
    let r = proof.conclude::<Var>(pigeons::OutputGuarantee::None, &pigeons::Conclusion::None);
    ensure!(r.is_ok(), "conclude", "{}: concluding the proof fails", what());
    let c = check_proof(&[], &dev, &col, false, name, &what)?;
    ensure!(c.concluded, "conclude", "{}: the proof is not concluded", what());
    sim.ev(format!("{log:?} {} clauses {} steps", col.cls.len(), c.steps));
    Ok(())
}

fn axioms(c: &Con) -> Vec<Ineq> {
    let t: Vec<(i128, i32)> = c.terms.iter().map(|(w, l)| (*w as i128, *l)).collect();
    let n: Vec<(i128, i32)> = t.iter().map(|(w, l)| (-w, *l)).collect();
    let r = c.rhs as i128;
    match c.op {
        Op::Ge => vec![Ineq::of(&t, r)],
        Op::Gt => vec![Ineq::of(&t, r + 1)],
        Op::Le => vec![Ineq::of(&n, -r)],
        Op::Lt => vec![Ineq::of(&n, -r + 1)],
        Op::Eq => vec![Ineq::of(&t, r), Ineq::of(&n, -r)],
    }
}

fn p16_constr(sim: &mut Sim) -> Outcome {
    let nv = sim.range(1, 6);
    let is_card = sim.coin();
    let (con, k, p) = if is_card {
        let (c, k) = crate::constr::gen_card(sim, nv);
        (c, Some(k), None)
    } else {
        let mut c = gen_con(sim, nv);
        for t in &mut c.terms {
            // values above this only make the encoding larger
            t.0 = t.0.clamp(-40, 40);
        }
        let lo: i64 = c.terms.iter().map(|t| t.0.min(0)).sum();
        let hi: i64 = c.terms.iter().map(|t| t.0.max(0)).sum();
        c.rhs = lo - 1 + sim.choose((hi - lo + 3) as u64) as i64;
        let k = crate::constr::build_pb(sim, &c);
        (c, None, Some(k))
    };
    let holds: Vec<bool> = (0..1u64 << nv).map(|x| con.holds(x)).collect();
    // other constraints of the formula come before
    let pre = sim.range(0, 2);
    let mut formula: Vec<Ineq> = (0..pre).map(|_| Ineq::of(&[(1, 1)], 0)).collect();
    formula.extend(axioms(&con));
    let post = sim.range(0, 1);
    formula.extend((0..post).map(|_| Ineq::of(&[(1, 1)], 0)));
    let id = AbsConstraintId::new(pre + 1);
    let dev = DevWriter::default();
    let mut proof = start(&dev, formula.len());
    let mut vm = BasicVarManager::from_next_free(Var::new(nv as u32));
    let mut col = CCol::default();
    let fault = sim.weighted(&[4, 1, 1]);
    match fault {
        1 => col.budget = Some(sim.range(0, 8)),
        2 => {
            let at = dev.0.borrow().data.len() + sim.range(0, 500);
            dev.0.borrow_mut().limit = Some(at);
        }
        _ => (),
    }
    #[derive(Debug)]
    enum R {
        Ok,
        Unsat,
        Oom,
        Io,
    }
    let ee = |r: Result<(), EncodingError>| match r {
        Ok(()) => R::Ok,
        Err(EncodingError::OutOfMemory(_)) => R::Oom,
        Err(EncodingError::Proof(_)) => R::Io,
    };
    let ce = |r: Result<(), ConstraintEncodingError>| match r {
        Ok(()) => R::Ok,
        Err(ConstraintEncodingError::Unsat) => R::Unsat,
        Err(ConstraintEncodingError::OutOfMemory(_)) => R::Oom,
        Err(ConstraintEncodingError::Proof(_)) => R::Io,
    };
    let direct = sim.coin();
    let name;
    macro_rules! call {
        ($n:expr, $r:expr) => {{
            name = $n;
            sim.op(name);
            sim.panic_ctx = format!("constraint:{name}");
            $r
        }};
    }
    let mut again = sim.chance(1, 3) && fault == 1;
    let (r, what_con) = if let Some(k) = k {
        let s = format!("{k:?}");
        let r = if direct {
            use card::cert::{BoundBoth, BoundLower, BoundUpper};
            match k {
                CardConstraint::Ub(u) if sim.coin() => call!("Totalizer::encode_ub_constr_cert", ee(card::Totalizer::encode_ub_constr_cert((u, id), &mut col, &mut vm, &mut proof))),
                CardConstraint::Lb(u) if sim.coin() => call!("Totalizer::encode_lb_constr_cert", ce(card::Totalizer::encode_lb_constr_cert((u, id), &mut col, &mut vm, &mut proof))),
                CardConstraint::Eq(u) if sim.coin() => call!("Totalizer::encode_eq_constr_cert", ce(card::Totalizer::encode_eq_constr_cert((u, id), &mut col, &mut vm, &mut proof))),
                k if sim.chance(1, 3) => call!("Inverted<Totalizer>::encode_constr_cert", ce(card::simulators::Inverted::<card::Totalizer>::encode_constr_cert((k, id), &mut col, &mut vm, &mut proof))),
                k if sim.chance(1, 3) => call!(
                    "Double<Totalizer>::encode_constr_cert",
                    ce(card::simulators::Double::<card::Totalizer, card::simulators::Inverted<card::Totalizer>>::encode_constr_cert((k, id), &mut col, &mut vm, &mut proof))
                ),
                k => call!("Totalizer::encode_constr_cert", ce(card::Totalizer::encode_constr_cert((k, id), &mut col, &mut vm, &mut proof))),
            }
        } else {
            call!("card::default_encode", ee(card::cert::default_encode_cardinality_constraint((k, id), &mut col, &mut vm, &mut proof)))
        };
        (r, s)
    } else {
        let k = p.unwrap();
        let s = format!("{k:?}");
        let r = if direct {
            use pb::cert::{BoundBoth, BoundLower, BoundUpper};
            match k {
                PbConstraint::Ub(u) if sim.coin() => call!("GTE::encode_ub_constr_cert", ce(pb::GeneralizedTotalizer::encode_ub_constr_cert((u, id), &mut col, &mut vm, &mut proof))),
                PbConstraint::Lb(u) if sim.coin() => {
                    call!("Inverted<GTE>::encode_lb_constr_cert", ce(pb::InvertedGeneralizedTotalizer::encode_lb_constr_cert((u, id), &mut col, &mut vm, &mut proof)))
                }
                k if sim.chance(1, 3) && con.terms.iter().map(|t| t.0.abs()).sum::<i64>() <= 14 => {
                    call!("Card<Totalizer>::encode_constr_cert", ce(pb::simulators::Card::<card::Totalizer>::encode_constr_cert((k, id), &mut col, &mut vm, &mut proof)))
                }
                k => call!("Double<GTE>::encode_constr_cert", ce(pb::DoubleGeneralizedTotalizer::encode_constr_cert((k, id), &mut col, &mut vm, &mut proof))),
            }
        } else if sim.chance(1, 4) {
            again = false;
            call!("pb::default_encode", ee(pb::cert::default_encode_pb_constraint((k.clone(), id), &mut col, &mut vm, &mut proof)))
        } else {
            let r = call!("pb::default_encode", ee(pb::cert::default_encode_pb_constraint((k.clone(), id), &mut col, &mut vm, &mut proof)));
            if again && matches!(r, R::Oom) {
                // once more, with a working collector
                sim.fault("a clause is refused");
                col.budget = None;
                again = true;
                (ee(pb::cert::default_encode_pb_constraint((k, id), &mut col, &mut vm, &mut proof)), ()).0
            } else {
                r
            }
        };
        (r, s)
    };
    let _ = again;
    let failed = dev.0.borrow().failed;
    dev.0.borrow_mut().limit = None;
    let what = || format!("{name} of {con:?} ({what_con}): {r:?}");
    let oom = col.refused > 0 && !matches!(r, R::Ok);
    match r {
        R::Ok => {
            ensure!(!failed, format!("write-error-hidden:{name}"), "{}", what());
            ensure!(!oom, format!("oom-hidden:{name}"), "{}", what());
            let mut sat = Sat::new();
            for (c, _) in &col.cls {
                sat.add(c);
            }
            for x in 0..1u64 << nv {
                let q: Vec<i32> = (1..=nv as i32).map(|i| if bit(x, i) { i } else { -i }).collect();
                ensure!(sat.is_sat(&q) == holds[x as usize], format!("meaning:{name}"), "{}: assignment {x:b} should {}be allowed by {:?}", what(), if holds[x as usize] { "" } else { "not " }, col.cls);
            }
        }
        R::Unsat => {
            ensure!(!holds.contains(&true), format!("unsat:{name}"), "{}, but it is not", what());
        }
        R::Oom => {
            ensure!(col.refused > 0, format!("oom-invented:{name}"), "{}", what());
            sim.fault("a clause is refused");
        }
        R::Io => {
            ensure!(failed, format!("write-error-invented:{name}"), "{}", what());
            sim.fault("writing the proof fails");
        }
    }
    sim.nontrivial = true;
    let partial = failed;
    if partial {
        check_proof(&formula, &dev, &col, true, name, &what)?;
        std::mem::forget(proof);
    } else {
        drop(proof);
        check_proof(&formula, &dev, &col, false, name, &what)?;
    }
    sim.ev(format!("{} {} clauses", what(), col.cls.len()));
    sim.st.shapes.insert(simcore::sim::mix(simcore::sim::hash_str(name), col.cls.len() as u64));
    Ok(())
}

pub fn register(s: &mut Vec<Scenario>, p: &mut Vec<Prop>) {
    s.push(Scenario { prop: "P16", name: "certified encodings over request histories", weight: 3, f: p16_hist });
    s.push(Scenario { prop: "P16", name: "certified encodings of single constraints", weight: 2, f: p16_constr });
    p.push(Prop {
        id: "P16",
        quick_runs: 500_000,
        thorough_runs: 2_000_000,
        rule: "runs in which a proof was checked, distinct by the hash of the full event trace",
        shape_measure: "distinct sequences of (encoding, operation, bound kind, whole or change)",
        real: &["rustsat::encodings (card::cert, pb::cert, totdb::cert)", "pigeons"],
        stub: &["clause collector (recording, refuses clauses)", "device the proof is written to (short writes, write errors)", "proof checker", "SAT solver (reference procedure)"],
        assumptions: &["at most 6 inputs, weights up to 40", "the proof checker discharges redundance obligations by unit propagation"],
    });
}
