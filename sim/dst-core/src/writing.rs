//! P05 and P06: writing instances, and reading them back
use crate::strict::{strict_dimacs, strict_opb};
use crate::fileio::{agree, is_hard, opts, read_lines, same_item, soft_faults, Lines};
use crate::io::{FaultyReader, FaultyWriter, Trouble};
use crate::model::{self, doc_of, doc_of_cnf, doc_of_sat, gen_con, gen_lit, lits, Con, Doc, Obj, Op};
use crate::os;
use crate::text::{Fmt, Item, Text};
use crate::util::{clause, compress, decompress, lit};
use rustsat::instances::fio::{dimacs, opb};
use rustsat::instances::{Cnf, MultiOptInstance, Objective, OptInstance, SatInstance};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::Lit;
use simcore::runner::{Prop, Scenario};
use simcore::{bail, ensure, Outcome, Sim, Violation};
use std::io::{BufWriter, Write};

#[derive(Clone)]
pub enum Thing {
    Cnf(Cnf, u32),
    Sat(SatInstance),
    Opt(OptInstance),
    Multi(MultiOptInstance),
    /// lines as data, written with the iterator based writers
    Lines(Fmt, Vec<Item>),
}

#[derive(Clone, Copy, Debug)]
pub enum How {
    Dimacs,
    Opb(opb::Options),
}

#[derive(Debug)]
pub enum WErr {
    Io(String),
    /// the format cannot express the instance
    Needs(String),
}

impl Thing {
    fn name(&self) -> &'static str {
        match self {
            Thing::Cnf(..) => "Cnf",
            Thing::Sat(_) => "SatInstance",
            Thing::Opt(_) => "OptInstance",
            Thing::Multi(_) => "MultiOptInstance",
            Thing::Lines(Fmt::Cnf, _) => "CNF lines",
            Thing::Lines(Fmt::WcnfNew, _) => "WCNF lines",
            Thing::Lines(Fmt::Mcnf, _) => "MCNF lines",
            Thing::Lines(..) => "OPB lines",
        }
    }

    fn constrs(&self) -> Option<&SatInstance> {
        match self {
            Thing::Sat(i) => Some(i),
            Thing::Opt(i) => Some(i.constraints_ref()),
            Thing::Multi(i) => Some(i.constraints_ref()),
            _ => None,
        }
    }

    fn objs(&self) -> Vec<&Objective> {
        match self {
            Thing::Opt(i) => vec![i.objective_ref()],
            Thing::Multi(i) => i.iter_obj().collect(),
            _ => vec![],
        }
    }

    pub fn doc(&self) -> Doc {
        match self {
            Thing::Cnf(c, _) => doc_of_cnf(c),
            Thing::Sat(i) => doc_of_sat(i),
            Thing::Lines(..) => Doc::default(),
            o => doc_of(o.constrs().unwrap(), &o.objs()),
        }
    }

    fn expressible(&self, h: How) -> bool {
        match (self, h) {
            (Thing::Cnf(..), How::Dimacs) => true,
            (Thing::Cnf(..), How::Opb(_)) => false,
            (Thing::Lines(f, _), How::Dimacs) => matches!(f, Fmt::Cnf | Fmt::WcnfNew | Fmt::Mcnf),
            (Thing::Lines(f, _), How::Opb(_)) => !matches!(f, Fmt::Cnf | Fmt::WcnfNew | Fmt::Mcnf),
            (o, How::Dimacs) => {
                let c = o.constrs().unwrap();
                c.n_cards() == 0 && c.n_pbs() == 0
            }
            (o, How::Opb(_)) => o.objs().iter().all(|x| x.n_clauses() == 0),
        }
    }

    fn write_to(&self, w: &mut dyn Write, h: How) -> Result<(), WErr> {
        let io = |e: std::io::Error| WErr::Io(e.to_string());
        let wd = |e: rustsat::instances::WriteDimacsError| match e {
            rustsat::instances::WriteDimacsError::Io(e) => WErr::Io(e.to_string()),
            e => WErr::Needs(e.to_string()),
        };
        let wo = |e: rustsat::instances::WriteOpbError| match e {
            rustsat::instances::WriteOpbError::Io(e) => WErr::Io(e.to_string()),
            e => WErr::Needs(e.to_string()),
        };
        match (self, h) {
            (Thing::Cnf(c, n), _) => c.write_dimacs(w, *n).map_err(io),
            (Thing::Sat(i), How::Dimacs) => i.write_dimacs(w).map_err(wd),
            (Thing::Sat(i), How::Opb(o)) => i.write_opb(w, o).map_err(io),
            (Thing::Opt(i), How::Dimacs) => i.write_dimacs(w).map_err(wd),
            (Thing::Opt(i), How::Opb(o)) => i.write_opb(w, o).map_err(wo),
            (Thing::Multi(i), How::Dimacs) => i.write_dimacs(w).map_err(wd),
            (Thing::Multi(i), How::Opb(o)) => i.write_opb(w, o).map_err(wo),
            (Thing::Lines(Fmt::Cnf, l), _) => dimacs::write_cnf(w, cnf_lines(l).into_iter()).map_err(io),
            (Thing::Lines(Fmt::WcnfNew, l), _) => dimacs::write_wcnf(w, wcnf_lines(l).into_iter()).map_err(io),
            (Thing::Lines(Fmt::Mcnf, l), _) => dimacs::write_mcnf(w, mcnf_lines(l).into_iter()).map_err(io),
            (Thing::Lines(_, l), How::Opb(o)) => opb::write_opb_lines(w, opb_lines(l).into_iter(), o).map_err(io),
            _ => unreachable!(),
        }
    }

    fn write_path(&self, p: &str, h: How) -> Result<(), WErr> {
        let io = |e: std::io::Error| WErr::Io(e.to_string());
        let wd = |e: rustsat::instances::WriteDimacsError| match e {
            rustsat::instances::WriteDimacsError::Io(e) => WErr::Io(e.to_string()),
            e => WErr::Needs(e.to_string()),
        };
        let wo = |e: rustsat::instances::WriteOpbError| match e {
            rustsat::instances::WriteOpbError::Io(e) => WErr::Io(e.to_string()),
            e => WErr::Needs(e.to_string()),
        };
        match (self, h) {
            (Thing::Cnf(c, n), _) => c.write_dimacs_path(p, *n).map_err(io),
            (Thing::Sat(i), How::Dimacs) => i.write_dimacs_path(p).map_err(wd),
            (Thing::Sat(i), How::Opb(o)) => i.write_opb_path(p, o).map_err(io),
            (Thing::Opt(i), How::Dimacs) => i.write_dimacs_path(p).map_err(wd),
            (Thing::Opt(i), How::Opb(o)) => i.write_opb_path(p, o).map_err(wo),
            (Thing::Multi(i), How::Dimacs) => i.write_dimacs_path(p).map_err(wd),
            (Thing::Multi(i), How::Opb(o)) => i.write_opb_path(p, o).map_err(wo),
            _ => {
                let mut w = rustsat::instances::fio::open_compressed_uncompressed_write(p).map_err(io)?;
                self.write_to(&mut w, h)
            }
        }
    }
}

fn comment_body(c: &str) -> String {
    // the writers put the comment character and a space in front
    c[2.min(c.len())..].to_string()
}

fn cnf_lines(l: &[Item]) -> Vec<dimacs::CnfLine> {
    let n = l.iter().filter(|i| matches!(i, Item::Hard(_))).count();
    let at = l.iter().take_while(|i| matches!(i, Item::Comment(_))).count();
    let mut v: Vec<dimacs::CnfLine> = l
        .iter()
        .map(|i| match i {
            Item::Comment(c) => dimacs::CnfLine::Comment(comment_body(c)),
            Item::Hard(c) => dimacs::CnfLine::Clause(clause(c)),
            _ => unreachable!(),
        })
        .collect();
    v.insert(at, dimacs::CnfLine::Header(7, n));
    v
}

fn wcnf_lines(l: &[Item]) -> Vec<dimacs::WcnfLine> {
    l.iter()
        .map(|i| match i {
            Item::Comment(c) => dimacs::WcnfLine::Comment(comment_body(c)),
            Item::Hard(c) => dimacs::WcnfLine::Hard(clause(c)),
            Item::Soft(_, w, c) => dimacs::WcnfLine::Soft(clause(c), *w as usize),
            _ => unreachable!(),
        })
        .collect()
}

fn mcnf_lines(l: &[Item]) -> Vec<dimacs::McnfLine> {
    l.iter()
        .map(|i| match i {
            Item::Comment(c) => dimacs::McnfLine::Comment(comment_body(c)),
            Item::Hard(c) => dimacs::McnfLine::Hard(clause(c)),
            Item::Soft(o, w, c) => dimacs::McnfLine::Soft(clause(c), *w as usize, *o - 1),
            _ => unreachable!(),
        })
        .collect()
}

fn opb_lines(l: &[Item]) -> Vec<opb::FileLine<Vec<(Lit, usize)>>> {
    l.iter()
        .map(|i| match i {
            Item::Comment(c) => opb::FileLine::Comment(comment_body(c)),
            Item::Hard(c) => opb::FileLine::Clause(clause(c)),
            Item::Con(c) => match card_of(c) {
                Some(c) => opb::FileLine::Card(c),
                None => opb::FileLine::Pb(pb_of(c)),
            },
            Item::Obj(t, _) => opb::FileLine::Objective(t.iter().map(|(w, l)| (lit(*l), *w as usize)).collect()),
            _ => unreachable!(),
        })
        .collect()
}

pub fn pb_of(c: &Con) -> PbConstraint {
    let t: Vec<(Lit, isize)> = c.terms.iter().map(|(w, l)| (lit(*l), *w as isize)).collect();
    let b = c.rhs as isize;
    match c.op {
        Op::Ge => PbConstraint::new_lb(t, b),
        Op::Le => PbConstraint::new_ub(t, b),
        Op::Eq => PbConstraint::new_eq(t, b),
        Op::Lt => PbConstraint::new_ub(t, b - 1),
        Op::Gt => PbConstraint::new_lb(t, b + 1),
    }
}

pub fn card_of(c: &Con) -> Option<CardConstraint> {
    if c.terms.iter().any(|t| t.0 != 1) {
        return None;
    }
    let l: Vec<Lit> = c.terms.iter().map(|t| lit(t.1)).collect();
    let b = |x: i64| usize::try_from(x).ok();
    Some(match c.op {
        Op::Ge => CardConstraint::new_lb(l, b(c.rhs)?),
        Op::Le => CardConstraint::new_ub(l, b(c.rhs)?),
        Op::Eq => CardConstraint::new_eq(l, b(c.rhs)?),
        Op::Lt => CardConstraint::new_ub(l, b(c.rhs - 1)?),
        Op::Gt => CardConstraint::new_lb(l, b(c.rhs + 1)?),
    })
}

/// Model variables 1..=nv live at these (1-based) variables of the instance
pub type VMap = Vec<i32>;

pub fn gen_vmap(sim: &mut Sim, nv: usize) -> VMap {
    match sim.weighted(&[3, 2, 1]) {
        0 => (1..=nv as i32).collect(),
        1 => {
            let mut v = 0;
            (0..nv)
                .map(|_| {
                    v += sim.irange(1, 4) as i32;
                    v
                })
                .collect()
        }
        _ => {
            let mut v: Vec<i32> = vec![];
            while v.len() < nv {
                let x = *sim.pick(&[1, 2, 7, 9, 10, 99, 100, 999, 4321, 70000]);
                if !v.contains(&x) {
                    v.push(x);
                }
            }
            v
        }
    }
}

pub fn map_lit(m: &VMap, l: i32) -> i32 {
    m[l.unsigned_abs() as usize - 1] * l.signum()
}

pub fn map_con(m: &VMap, c: &Con) -> Con {
    Con { terms: c.terms.iter().map(|(w, l)| (*w, map_lit(m, *l))).collect(), ..c.clone() }
}

/// back to model variables; variables outside of the map are an error
pub fn unmap(m: &VMap, d: &Doc) -> Result<Doc, i32> {
    let u = |l: i32| -> Result<i32, i32> {
        m.iter()
            .position(|&x| x == l.abs())
            .map(|p| (p as i32 + 1) * l.signum())
            .ok_or(l)
    };
    let mut d = d.clone();
    for c in &mut d.cons {
        for t in &mut c.terms {
            t.1 = u(t.1)?;
        }
    }
    for o in &mut d.objs {
        for s in &mut o.softs {
            for l in &mut s.1 {
                *l = u(*l)?;
            }
        }
    }
    Ok(d)
}

fn gen_weight(sim: &mut Sim) -> usize {
    match sim.weighted(&[6, 3, 2, 1]) {
        0 => 1,
        1 => sim.range(1, 9),
        2 => sim.range(10, 100_000),
        _ => 1 << sim.range(20, 40),
    }
}

pub fn gen_objective(sim: &mut Sim, nv: usize, m: &VMap, allow_clauses: bool) -> Objective {
    let mut o = Objective::new();
    let unw = sim.coin();
    for _ in 0..sim.range(0, 5) {
        let w = if unw { 1 } else { gen_weight(sim) };
        if allow_clauses && sim.chance(1, 3) {
            let n = sim.range(0, 3);
            let c: Vec<i32> = (0..n).map(|_| map_lit(m, gen_lit(sim, nv))).collect();
            o.increase_soft_clause(w, clause(&c));
        } else {
            let l = lit(map_lit(m, gen_lit(sim, nv)));
            o.increase_soft_lit(w, l);
        }
    }
    if sim.chance(1, 3) {
        let d = sim.irange(-50, 50) as isize;
        o.increase_offset(d);
    }
    o
}

fn add_con(sim: &mut Sim, i: &mut SatInstance, m: &VMap, c: &Con) {
    let c = map_con(m, c);
    match card_of(&c) {
        Some(k) if sim.coin() => i.add_card_constr(k),
        _ => i.add_pb_constr(pb_of(&c)),
    }
}

fn gen_sat(sim: &mut Sim, nv: usize, m: &VMap, clausal: bool) -> SatInstance {
    let mut i = SatInstance::new();
    for _ in 0..sim.range(0, 6) {
        if clausal || sim.coin() {
            let n = if sim.chance(1, 12) { 0 } else { sim.range(1, 4) };
            let c: Vec<i32> = (0..n).map(|_| map_lit(m, gen_lit(sim, nv))).collect();
            if sim.coin() {
                i.add_clause(clause(&c));
            } else {
                i.add_nary(&lits(&c));
            }
        } else {
            let c = gen_con(sim, nv);
            add_con(sim, &mut i, m, &c);
        }
    }
    if sim.chance(1, 5) {
        i.new_var();
    }
    i
}

fn gen_lines(sim: &mut Sim, nv: usize, m: &VMap) -> Thing {
    let f = *sim.pick(&[Fmt::Cnf, Fmt::WcnfNew, Fmt::Mcnf, Fmt::OpbMulti]);
    let c = if f == Fmt::OpbMulti { '*' } else { 'c' };
    let mut v = vec![];
    for _ in 0..sim.range(0, 7) {
        let cl = |sim: &mut Sim| -> Vec<i32> {
            let n = if sim.chance(1, 12) { 0 } else { sim.range(1, 4) };
            (0..n).map(|_| map_lit(m, gen_lit(sim, nv))).collect()
        };
        let it = match sim.weighted(&[1, 3, 3]) {
            0 => Item::Comment(format!("{c} {}", sim.pick(&["", "hello", "1 2 0", "p cnf 1 1", "objective offset: 3"]))),
            1 => Item::Hard(cl(sim)),
            _ => match f {
                Fmt::Cnf => Item::Hard(cl(sim)),
                Fmt::WcnfNew => Item::Soft(0, gen_weight(sim) as i64, cl(sim)),
                Fmt::Mcnf => Item::Soft(sim.range(1, 3), gen_weight(sim) as i64, cl(sim)),
                _ => {
                    if sim.coin() {
                        Item::Con(map_con(m, &gen_con(sim, nv)))
                    } else {
                        let k = sim.range(0, 4);
                        Item::Obj((0..k).map(|_| (gen_weight(sim) as i64, map_lit(m, gen_lit(sim, nv)))).collect(), false)
                    }
                }
            },
        };
        v.push(it);
    }
    Thing::Lines(f, v)
}

pub fn gen_thing(sim: &mut Sim, nv: usize, m: &VMap) -> Thing {
    let clausal = sim.coin();
    match sim.weighted(&[1, 2, 3, 4, 3]) {
        0 => {
            let (c, _) = gen_sat(sim, nv, m, true).into_cnf();
            let n = m.iter().max().copied().unwrap_or(0) as u32 + sim.choose(3) as u32;
            Thing::Cnf(c, n)
        }
        1 => Thing::Sat(gen_sat(sim, nv, m, clausal)),
        2 => {
            let s = gen_sat(sim, nv, m, clausal);
            let o = gen_objective(sim, nv, m, clausal);
            Thing::Opt(OptInstance::compose(s, o))
        }
        3 => {
            let s = gen_sat(sim, nv, m, clausal);
            let k = sim.range(0, 3);
            let o = (0..k).map(|_| gen_objective(sim, nv, m, clausal)).collect();
            Thing::Multi(MultiOptInstance::compose(s, o))
        }
        _ => gen_lines(sim, nv, m),
    }
}

fn gen_how(sim: &mut Sim, t: &Thing) -> How {
    let o = opts(*sim.pick(&[0, 1, 1, 5]), sim.coin());
    match t {
        Thing::Cnf(..) => How::Dimacs,
        Thing::Lines(f, _) if *f == Fmt::OpbMulti => How::Opb(o),
        Thing::Lines(..) => How::Dimacs,
        _ => {
            let pref = if sim.coin() { How::Dimacs } else { How::Opb(o) };
            if t.expressible(pref) || sim.chance(1, 8) {
                pref
            } else {
                match pref {
                    How::Dimacs => How::Opb(o),
                    How::Opb(_) => How::Dimacs,
                }
            }
        }
    }
}

// ---------------------------------------------------------------- P05

fn p05(sim: &mut Sim) -> Outcome {
    let nv = sim.range(1, 4);
    let m = gen_vmap(sim, nv);
    let t = gen_thing(sim, nv, &m);
    let how = gen_how(sim, &t);
    sim.op(&format!("write {} {}", t.name(), if matches!(how, How::Dimacs) { "DIMACS" } else { "OPB" }));
    let mut golden = vec![];
    let ok = t.expressible(how);
    match t.write_to(&mut golden, how) {
        Ok(()) => ensure!(ok, "write:inexpressible", "{} written as {how:?} although the format cannot express it", t.name()),
        Err(WErr::Needs(e)) => {
            ensure!(!ok, "write:refused", "{} as {how:?} refused: {e}", t.name());
            return Ok(());
        }
        Err(WErr::Io(e)) => bail!("write:spurious", "writing to memory failed: {e}"),
    }
    sim.nontrivial = true;
    sim.ev(format!("{} {how:?}: {}", t.name(), String::from_utf8_lossy(&golden)));
    if sim.coin() {
        let trouble = match sim.weighted(&[1, 3, 6]) {
            0 => Trouble::None,
            1 => Trouble::Soft,
            // more likely close to the end
            _ => {
                let k = if sim.coin() { sim.range(0, golden.len()) } else { golden.len().saturating_sub(sim.range(0, 8)) };
                Trouble::Hard(k)
            }
        };
        let w = FaultyWriter::new(sim, trouble);
        let sink = w.sink.clone();
        let cap = *sim.pick(&[0usize, 0, 1, 7, 16, 100, 8192]);
        let res = if cap == 0 {
            let mut w = w;
            let r = t.write_to(&mut w, how);
            check_sink(&t, how, &golden, &sink, &r)?;
            r
        } else {
            let mut b = BufWriter::with_capacity(cap, w);
            let r = t.write_to(&mut b, how);
            // what the caller sees at this point must be true, not only after dropping the buffer
            check_sink(&t, how, &golden, &sink, &r)?;
            r
        };
        let hit = sink.borrow().hard_hit;
        sim.state(t.name().len() as u64 * 100 + cap.min(20) as u64 * 4 + u64::from(hit) * 2 + u64::from(res.is_ok()));
        match res {
            Ok(()) => ensure!(!hit, "write:error-lost", "{} as {how:?}: a write error was not reported", t.name()),
            Err(e) => {
                ensure!(hit, "write:spurious", "{} as {how:?}: error {e:?} although the device took everything", t.name());
                sim.probe("write error reported");
            }
        }
        return Ok(());
    }
    let ext = *sim.pick(&["", "", "gz", "bz2", "xz"]);
    let p = if ext.is_empty() { "/simfs/out.txt".to_string() } else { format!("/simfs/out.txt.{ext}") };
    let mut cfg = os::Cfg::quiet();
    let total = if ext.is_empty() { golden.len() } else { compress(ext, &golden).len() };
    match sim.weighted(&[1, 2, 3, 2]) {
        0 => {}
        1 => soft_faults(sim, &mut cfg),
        2 => {
            soft_faults(sim, &mut cfg);
            let k = if sim.coin() { sim.range(0, total + 2) } else { (total + 4).saturating_sub(sim.range(0, 16)) };
            cfg.disk = Some(k as u64);
        }
        _ => {
            soft_faults(sim, &mut cfg);
            cfg.eio_write = *sim.pick(&[30, 200, 600]);
            cfg.open_fail = 20;
            cfg.sticky = sim.coin();
        }
    }
    let existed = sim.coin();
    let w = os::World::enter(sim, cfg);
    if existed {
        w.put_file(&p, &vec![b'7'; total + 50]);
    }
    let res = t.write_path(&p, how);
    // the file as it is when the function returns
    let now = w.get_file(&p).cloned();
    let w = os::World::leave().unwrap();
    let hard: Vec<_> = w.lib_faults.iter().filter(|f| is_hard(f)).collect();
    let open = w.open_fds();
    ensure!(open.is_empty(), "write:leak", "descriptors left open after writing: {open:?}");
    sim.state(100_000 + t.name().len() as u64 * 100 + ext.len() as u64 * 4 + u64::from(!hard.is_empty()) * 2 + u64::from(res.is_ok()));
    match res {
        Ok(()) => {
            let Some(d) = now.and_then(|d| decompress(ext, &d)) else {
                bail!("write:incomplete", "{} as {how:?} to {p}: success, but the file is no complete {ext} stream; faults {:?}", t.name(), w.lib_faults)
            };
            ensure!(
                d == golden,
                "write:incomplete",
                "{} as {how:?} to {p}: success, but the file has {} of {} bytes or other content: {:?}; faults {:?}",
                t.name(), d.len(), golden.len(), String::from_utf8_lossy(&d), w.lib_faults
            );
            ensure!(hard.is_empty(), "write:error-lost", "{} as {how:?} to {p}: {hard:?} not reported", t.name());
            if !ext.is_empty() {
                sim.probe("compressed file complete");
            }
        }
        Err(e) => {
            ensure!(!hard.is_empty(), "write:spurious", "{} as {how:?} to {p}: error {e:?} without a fault ({:?})", t.name(), w.lib_faults);
            sim.probe("file write error reported");
        }
    }
    Ok(())
}

fn check_sink(t: &Thing, how: How, golden: &[u8], sink: &std::rc::Rc<std::cell::RefCell<crate::io::Sink>>, r: &Result<(), WErr>) -> Outcome {
    let s = sink.borrow();
    if r.is_ok() {
        ensure!(
            s.data == golden,
            "write:incomplete",
            "{} as {how:?}: success, but the device has {} of {} bytes or other content: {:?}",
            t.name(), s.data.len(), golden.len(), String::from_utf8_lossy(&s.data)
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- P06: strict reading of what was written

fn read_back(t: &Thing, how: How, r: impl std::io::BufRead) -> Result<Thing, String> {
    let es = |e: rustsat::instances::fio::Error| e.to_string();
    Ok(match (t, how) {
        (Thing::Cnf(_, n), _) => {
            let i: SatInstance = SatInstance::from_dimacs(r).map_err(es)?;
            Thing::Cnf(i.into_cnf().0, *n)
        }
        (Thing::Sat(_), How::Dimacs) => Thing::Sat(SatInstance::from_dimacs(r).map_err(es)?),
        (Thing::Sat(_), How::Opb(o)) => Thing::Sat(SatInstance::from_opb(r, o).map_err(es)?),
        (Thing::Opt(_), How::Dimacs) => Thing::Opt(OptInstance::from_dimacs(r).map_err(es)?),
        (Thing::Opt(_), How::Opb(o)) => Thing::Opt(OptInstance::from_opb(r, o).map_err(es)?),
        (Thing::Multi(_), How::Dimacs) => Thing::Multi(MultiOptInstance::from_dimacs(r).map_err(es)?),
        (Thing::Multi(_), How::Opb(o)) => Thing::Multi(MultiOptInstance::from_opb(r, o).map_err(es)?),
        _ => unreachable!(),
    })
}

fn read_back_path(t: &Thing, how: How, p: &str) -> Result<Thing, String> {
    let es = |e: rustsat::instances::fio::Error| e.to_string();
    Ok(match (t, how) {
        (Thing::Cnf(_, n), _) => Thing::Cnf(SatInstance::<rustsat::instances::BasicVarManager>::from_dimacs_path(p).map_err(es)?.into_cnf().0, *n),
        (Thing::Sat(_), How::Dimacs) => Thing::Sat(SatInstance::from_dimacs_path(p).map_err(es)?),
        (Thing::Sat(_), How::Opb(o)) => Thing::Sat(SatInstance::from_opb_path(p, o).map_err(es)?),
        (Thing::Opt(_), How::Dimacs) => Thing::Opt(OptInstance::from_dimacs_path(p).map_err(es)?),
        (Thing::Opt(_), How::Opb(o)) => Thing::Opt(OptInstance::from_opb_path(p, o).map_err(es)?),
        (Thing::Multi(_), How::Dimacs) => Thing::Multi(MultiOptInstance::from_dimacs_path(p).map_err(es)?),
        (Thing::Multi(_), How::Opb(o)) => Thing::Multi(MultiOptInstance::from_opb_path(p, o).map_err(es)?),
        _ => unreachable!(),
    })
}

fn compare(what: &str, text: &str, m: &VMap, want: &Doc, got: &Doc, offs: Option<&Vec<i64>>, mcnf: bool) -> Outcome {
    let nv = m.len();
    let want = match unmap(m, want) {
        Ok(d) => d,
        Err(l) => panic!("the harness used literal {l} outside of the map"),
    };
    let mut got = match unmap(m, got) {
        Ok(d) => d,
        Err(l) => bail!("persist:variables", "{what}: literal {l} appeared; text {text:?}"),
    };
    if mcnf {
        // objectives at the end without any soft clause cannot be written
        while got.objs.len() < want.objs.len() && want.objs[got.objs.len()..].iter().all(|o| o.softs.iter().all(|s| s.0 == 0)) {
            got.objs.push(Obj::default());
        }
    }
    ensure!(
        got.objs.len() == want.objs.len(),
        "persist:objectives",
        "{what}: {} objectives instead of {}; text {text:?}", got.objs.len(), want.objs.len()
    );
    if let Some(offs) = offs {
        ensure!(offs.len() == got.objs.len() || mcnf, "persist:offsets", "{what}: offsets {offs:?} recorded for {} objectives", got.objs.len());
        for (o, x) in got.objs.iter_mut().zip(offs) {
            o.offset += x;
        }
    }
    let (a, b) = (want.table(nv), got.table(nv));
    ensure!(a == b, "persist:meaning", "{what}: the instance is {want:?}, back came {got:?}; text {text:?}");
    Ok(())
}

fn p06(sim: &mut Sim) -> Outcome {
    let nv = sim.range(1, 5);
    let m = gen_vmap(sim, nv);
    let mut t = gen_thing(sim, nv, &m);
    sim.op(t.name());
    if let Thing::Lines(f, items) = &t {
        let (f, items) = (*f, items.clone());
        return p06_lines(sim, nv, &m, &t, f, &items);
    }
    let cycles = sim.range(1, 3);
    for cyc in 0..cycles {
        let how = gen_how(sim, &t);
        let mut out = vec![];
        let ok = t.expressible(how);
        match t.write_to(&mut out, how) {
            Ok(()) => ensure!(ok, "persist:inexpressible", "{} written as {how:?} although the format cannot express it", t.name()),
            Err(WErr::Needs(e)) => {
                ensure!(!ok, "persist:refused", "{} as {how:?} refused: {e}", t.name());
                ensure!(out.is_empty(), "persist:refused", "something was written before refusing");
                sim.probe("inexpressible instance refused");
                continue;
            }
            Err(WErr::Io(e)) => bail!("persist:spurious", "writing to memory failed: {e}"),
        }
        sim.nontrivial = true;
        let text = String::from_utf8(out).unwrap();
        sim.ev(format!("{} {how:?}: {text}", t.name()));
        let f = match (&t, how) {
            (Thing::Cnf(..) | Thing::Sat(_), How::Dimacs) => Fmt::Cnf,
            (Thing::Opt(_), How::Dimacs) => Fmt::WcnfNew,
            (_, How::Dimacs) => Fmt::Mcnf,
            _ => Fmt::OpbMulti,
        };
        let mcnf = f == Fmt::Mcnf;
        let want = t.doc();
        // what the text says by an independent, strict reader
        let strict = match how {
            How::Dimacs => strict_dimacs(f, &text),
            How::Opb(o) => strict_opb(&text, o),
        };
        let (sd, offs) = match strict {
            Ok(x) => x,
            Err(e) => bail!("persist:malformed", "{} as {how:?}: {e}; text {text:?}", t.name()),
        };
        compare(&format!("{} as {how:?}, strict reader", t.name()), &text, &m, &want, &sd, offs.as_ref(), mcnf)?;
        // what the library reads back
        let back = if sim.coin() {
            read_back(&t, how, FaultyReader::new(sim, text.as_bytes(), Trouble::Soft))
        } else {
            let ext = *sim.pick(&["", "gz", "bz2", "xz"]);
            let p = format!("/simfs/o.{}{ext}", if ext.is_empty() { "txt" } else { "" });
            let mut cfg = os::Cfg::quiet();
            soft_faults(sim, &mut cfg);
            let w = os::World::enter(sim, cfg);
            if sim_coin(w) {
                w.put_file(&p, &vec![b'3'; text.len() * 2]);
            }
            let r = t.write_path(&p, how);
            let b = read_back_path(&t, how, &p);
            os::World::leave();
            if let Err(e) = r {
                bail!("persist:spurious", "writing {p} failed without a fault: {e:?}");
            }
            b
        };
        let mut back = match back {
            Ok(b) => b,
            Err(e) => bail!("persist:rejected", "{} as {how:?}: own output rejected: {e}; text {text:?}", t.name()),
        };
        let got = back.doc();
        compare(&format!("{} as {how:?}, read back", t.name()), &text, &m, &want, &got, offs.as_ref(), mcnf)?;
        sim.state(t.name().len() as u64 * 1000 + f as u64 * 10 + cyc as u64);
        if cyc > 0 {
            sim.probe("second or later persist cycle");
        }
        // evaluation goes through another path of the library
        if m.iter().max() == Some(&(nv as i32)) {
            let d = got.clone();
            match &back {
                Thing::Opt(i) => agree(&d, nv, i.constraints_ref(), |a| i.cost(a).map(|c| vec![c as i64]))?,
                Thing::Multi(i) => agree(&d, nv, i.constraints_ref(), |a| {
                    i.cost(a).map(|c| c.into_iter().map(|x| x as i64).collect())
                })?,
                _ => {}
            }
        }
        // go on with a changed instance
        if sim.coin() {
            let n = sim.range(1, 3);
            let c: Vec<i32> = (0..n).map(|_| map_lit(&m, gen_lit(sim, nv))).collect();
            match &mut back {
                Thing::Sat(i) => i.add_clause(clause(&c)),
                Thing::Opt(i) => {
                    i.constraints_mut().add_clause(clause(&c));
                    let w = gen_weight(sim);
                    i.objective_mut().increase_soft_lit(w, lit(c[0]));
                }
                Thing::Multi(i) => {
                    i.constraints_mut().add_clause(clause(&c));
                    let k = i.n_objectives();
                    if k > 0 {
                        let oi = sim.idx(k);
                        let w = gen_weight(sim);
                        i.objective_mut(oi).increase_soft_lit(w, lit(c[0]));
                    }
                }
                _ => {}
            }
        }
        t = back;
    }
    Ok(())
}

fn sim_coin(w: &mut os::World) -> bool {
    w.sim().coin()
}

fn p06_lines(sim: &mut Sim, nv: usize, m: &VMap, t: &Thing, f: Fmt, items: &[Item]) -> Outcome {
    let how = gen_how(sim, t);
    let mut out = vec![];
    if let Err(e) = t.write_to(&mut out, how) {
        bail!("persist:spurious", "writing to memory failed: {e:?}");
    }
    sim.nontrivial = true;
    let text = String::from_utf8(out).unwrap();
    sim.ev(format!("{} {how:?}: {text}", t.name()));
    let mut o = opts(0, true);
    let first_idx = if let How::Opb(x) = how {
        o = x;
        x.first_var_idx
    } else {
        0
    };
    // strict reader
    let strict = match how {
        How::Dimacs => {
            if f == Fmt::Cnf {
                // the header was chosen by the caller
                let mv = items.iter().filter_map(|i| if let Item::Hard(c) = i { c.iter().map(|l| l.abs()).max() } else { None }).max().unwrap_or(0);
                if mv > 7 {
                    Ok((Doc::default(), None))
                } else {
                    strict_dimacs(f, &text)
                }
            } else {
                strict_dimacs(f, &text)
            }
        }
        How::Opb(o) => strict_opb(&text, o),
    };
    if let Err(e) = &strict {
        bail!("persist:malformed", "{} as {how:?}: {e}; text {text:?}", t.name());
    }
    // for comparing lines by meaning the variables must be small
    let small = |i: &Item| -> Option<Item> {
        let u = |l: i32| m.iter().position(|&x| x == l.abs()).map(|p| (p as i32 + 1) * l.signum());
        Some(match i {
            Item::Comment(c) => Item::Comment(c.clone()),
            Item::Hard(c) if matches!(how, How::Opb(_)) => {
                Item::Con(Con::clause(&c.iter().map(|l| u(*l)).collect::<Option<Vec<_>>>()?))
            }
            Item::Hard(c) => Item::Hard(c.iter().map(|l| u(*l)).collect::<Option<Vec<_>>>()?),
            Item::Soft(o, w, c) => Item::Soft(*o, *w, c.iter().map(|l| u(*l)).collect::<Option<Vec<_>>>()?),
            Item::Con(c) => {
                let mut c = c.clone();
                for x in &mut c.terms {
                    x.1 = u(x.1)?;
                }
                Item::Con(c)
            }
            Item::Obj(t, s) => {
                let mut t = t.clone();
                for x in &mut t {
                    if x.1 != 0 {
                        x.1 = u(x.1)?;
                    }
                }
                Item::Obj(t, *s)
            }
        })
    };
    let head = items.iter().take_while(|i| matches!(i, Item::Comment(_))).count();
    let tx = Text {
        fmt: f,
        text: text.clone(),
        items: items.to_vec(),
        head_comments: head,
        header: None,
        doc: Doc::default(),
        first_idx,
    };
    let _ = o;
    let r = FaultyReader::new(sim, text.as_bytes(), Trouble::Soft);
    let simp: *mut Sim = sim;
    let Lines::Items(got, header, err) = read_lines(unsafe { &mut *simp }, &tx, r);
    if let Some(e) = err {
        bail!("persist:rejected", "{} as {how:?}: own output rejected: {e}; text {text:?}", t.name());
    }
    let want: Vec<Option<Item>> = items.iter().map(small).collect();
    let got2: Vec<Option<Item>> = got.iter().map(small).collect();
    if let How::Opb(o) = how {
        if o.no_negated_lits {
            // objectives lose their constant into a comment nobody asked for: compare without it
            let w: Vec<&Item> = want.iter().flatten().filter(|i| !matches!(i, Item::Obj(..) | Item::Comment(_))).collect();
            let g: Vec<&Item> = got2.iter().flatten().filter(|i| !matches!(i, Item::Obj(..) | Item::Comment(_))).collect();
            ensure!(
                w.len() == g.len() && w.iter().zip(&g).all(|(a, b)| same_item(a, b, nv)),
                "persist:lines",
                "{} as {how:?}: lines {items:?} came back as {got:?}; text {text:?}", t.name()
            );
            let ow: Vec<Obj> = want.iter().flatten().filter_map(obj_item).collect();
            let Ok((mut sd, Some(offs))) = strict.map(|(d, o)| (unmap(m, &d).unwrap_or_default(), o)) else { unreachable!() };
            for (o, x) in sd.objs.iter_mut().zip(&offs) {
                o.offset += x;
            }
            ensure!(
                ow.len() == sd.objs.len() && ow.iter().zip(&sd.objs).all(|(a, b)| (0..1u64 << nv).all(|x| a.cost(x) == b.cost(x))),
                "persist:lines",
                "objective lines {ow:?} were written as {:?}; text {text:?}", sd.objs
            );
            return Ok(());
        }
    }
    ensure!(
        want.len() == got2.len()
            && want.iter().zip(&got2).all(|(a, b)| match (a, b) {
                (Some(a), Some(b)) => same_item(a, b, nv),
                _ => false,
            }),
        "persist:lines",
        "{} as {how:?}: lines {items:?} came back as {got:?}; text {text:?}", t.name()
    );
    if f == Fmt::Cnf {
        let n = items.iter().filter(|i| matches!(i, Item::Hard(_))).count();
        ensure!(header == Some((7, n, 0)), "persist:lines", "header came back as {header:?}; text {text:?}");
    }
    // collecting the lines gives an instance with their meaning
    let mut d = Doc::default();
    for i in want.iter().flatten() {
        match i {
            Item::Hard(c) => d.cons.push(Con::clause(c)),
            Item::Soft(o, w, c) => {
                let oi = (*o).max(1);
                while d.objs.len() < oi {
                    d.objs.push(Obj::default());
                }
                d.objs[oi - 1].softs.push((*w, c.clone()));
            }
            _ => {}
        }
    }
    let back = match f {
        Fmt::Cnf => doc_of_sat(&cnf_lines(items).into_iter().collect::<SatInstance>()),
        Fmt::WcnfNew => {
            if d.objs.is_empty() {
                d.objs.push(Obj::default());
            }
            let i = wcnf_lines(items).into_iter().collect::<OptInstance>();
            doc_of(i.constraints_ref(), &[i.objective_ref()])
        }
        Fmt::Mcnf => {
            let i = mcnf_lines(items).into_iter().collect::<MultiOptInstance>();
            let o: Vec<&Objective> = i.iter_obj().collect();
            doc_of(i.constraints_ref(), &o)
        }
        _ => return Ok(()),
    };
    let Ok(b) = unmap(m, &back) else { bail!("persist:collect", "unknown variables in {back:?}") };
    ensure!(b.table(nv) == d.table(nv), "persist:collect", "lines {items:?} collected into {b:?}");
    sim.state(f as u64);
    Ok(())
}

fn obj_item(i: &Item) -> Option<Obj> {
    if let Item::Obj(t, _) = i {
        return Some(Obj { softs: t.iter().map(|(w, l)| (*w, vec![-l])).collect(), offset: 0 });
    }
    None
}

pub fn register(s: &mut Vec<Scenario>, p: &mut Vec<Prop>) {
    s.push(Scenario { prop: "P05", name: "writing instances", weight: 1, f: p05 });
    p.push(Prop {
        id: "P05",
        quick_runs: 400_000,
        thorough_runs: 4_000_000,
        rule: "runs in which an instance expressible in the format was written, distinct by the hash of the full event trace (text, chunking, faults)",
        shape_measure: "distinct combinations of written type, route (writer, buffer size, path, compression), fault hit and outcome",
        real: &["rustsat::instances::fio (all writers, compressed writers)", "flate2, bzip2, xz2", "std::io::BufWriter, std::fs"],
        stub: &["libc file calls (simulated disk)", "Write seam (faulty writer)"],
        assumptions: &["closing a file does not fail", "the text written to memory is the complete text (its meaning is P06)"],
    });
    s.push(Scenario { prop: "P06", name: "persisting instances", weight: 1, f: p06 });
    p.push(Prop {
        id: "P06",
        quick_runs: 400_000,
        thorough_runs: 3_000_000,
        rule: "runs in which an instance was written and read back at least once, distinct by the hash of the full event trace",
        shape_measure: "distinct combinations of type, format and cycle",
        real: &["rustsat::instances (building, writers, parsers, collecting)", "rustsat::instances::fio", "flate2, bzip2, xz2"],
        stub: &["libc file calls (simulated disk)", "BufRead seam (chunking reader)"],
        assumptions: &["at most 5 variables, compared by evaluating all assignments"],
    });
}
