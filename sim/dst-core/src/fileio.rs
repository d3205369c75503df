//! P04 to P07: reading and writing instances and solver logs
use crate::io::{FaultyReader, FaultyWriter, Trouble};
use crate::model::{self, doc_of, doc_of_sat, normalise_costs, Con, Doc, Obj, Op, Table};
use crate::os;
use crate::text::{gen_text, Fmt, Item, Text, FMTS};
use crate::util::{compress, decompress, lit};
use rustsat::instances::fio::{self, dimacs, opb};
use rustsat::instances::{
    BasicVarManager, Cnf, ManageVars, MultiOptInstance, ObjectVarManager, Objective, OptInstance, SatInstance,
};
use rustsat::types::{constraints::{CardConstraint, PbConstraint}, Clause, TernaryVal};
use simcore::runner::{Prop, Scenario};
use simcore::sim::violation;
use simcore::{bail, ensure, Outcome, Sim, Violation};
use std::io::BufRead;

type Got = Result<(Doc, u32, Vec<i64>), String>;

pub fn opts(idx: u32, no_neg: bool) -> opb::Options {
    opb::Options { first_var_idx: idx, no_negated_lits: no_neg }
}

/// evaluate() and cost() of the library must agree with the accessors the tables are built from
pub fn agree<VM: ManageVars + Clone>(
    d: &Doc,
    nv: usize,
    inst: &SatInstance<VM>,
    cost: impl Fn(&rustsat::types::Assignment) -> Option<Vec<i64>>,
) -> Result<(), Violation> {
    for a in 0..1u64 << nv {
        let asg = model::assignment(a, nv);
        let f = d.feasible(a);
        let e = inst.evaluate(&asg);
        ensure!(
            e == if f { TernaryVal::True } else { TernaryVal::False },
            "eval:constraints",
            "evaluate says {e:?} under {a:b}, the constraints {:?} say {f}", d.cons
        );
        ensure!(
            inst.unsat_constraint(&asg).is_none() == f,
            "eval:constraints",
            "unsat_constraint disagrees under {a:b}: {:?}", d.cons
        );
        let c = cost(&asg);
        let want = f.then(|| d.objs.iter().map(|o| o.cost(a)).collect::<Vec<_>>());
        ensure!(c == want, "eval:cost", "cost under {a:b} is {c:?}, should be {want:?} for {:?}", d.objs);
    }
    Ok(())
}

fn next_free<VM: ManageVars>(vm: &mut VM) -> u32 {
    vm.new_var().idx32()
}

/// what SatInstance, OptInstance or MultiOptInstance make of the input
fn read_instance<R: BufRead>(t: &Text, r: R, nv: usize) -> Result<Got, Violation> {
    let es = |e: fio::Error| format!("{e}");
    Ok(match t.fmt {
        Fmt::Cnf | Fmt::OpbSat => {
            let i = if t.fmt == Fmt::Cnf {
                SatInstance::<BasicVarManager>::from_dimacs(r)
            } else {
                SatInstance::<BasicVarManager>::from_opb(r, opts(t.first_idx, false))
            };
            finish_sat(i.map_err(es), nv)?
        }
        Fmt::WcnfOld | Fmt::WcnfNew | Fmt::OpbOpt => {
            let i = if t.fmt == Fmt::OpbOpt {
                OptInstance::<BasicVarManager>::from_opb(r, opts(t.first_idx, true))
            } else {
                OptInstance::<BasicVarManager>::from_dimacs(r)
            };
            finish_opt(i.map_err(es), nv)?
        }
        Fmt::Mcnf | Fmt::OpbMulti => {
            let i = if t.fmt == Fmt::Mcnf {
                MultiOptInstance::<BasicVarManager>::from_dimacs(r)
            } else {
                MultiOptInstance::<BasicVarManager>::from_opb(r, opts(t.first_idx, true))
            };
            finish_multi(i.map_err(es), nv)?
        }
    })
}

fn read_path(t: &Text, p: &str, nv: usize) -> Result<Got, Violation> {
    let es = |e: fio::Error| format!("{e}");
    Ok(match t.fmt {
        Fmt::Cnf => finish_sat(SatInstance::from_dimacs_path(p).map_err(es), nv)?,
        Fmt::OpbSat => finish_sat(SatInstance::from_opb_path(p, opts(t.first_idx, false)).map_err(es), nv)?,
        Fmt::WcnfOld | Fmt::WcnfNew => finish_opt(OptInstance::from_dimacs_path(p).map_err(es), nv)?,
        Fmt::OpbOpt => finish_opt(OptInstance::from_opb_path(p, opts(t.first_idx, false)).map_err(es), nv)?,
        Fmt::Mcnf => finish_multi(MultiOptInstance::from_dimacs_path(p).map_err(es), nv)?,
        Fmt::OpbMulti => finish_multi(MultiOptInstance::from_opb_path(p, opts(t.first_idx, true)).map_err(es), nv)?,
    })
}

fn finish_sat(i: Result<SatInstance<BasicVarManager>, String>, nv: usize) -> Result<Got, Violation> {
    Ok(match i {
        Err(e) => Err(e),
        Ok(mut i) => {
            let d = doc_of_sat(&i);
            agree(&d, nv, &i, |_| None).or_else(|v| if v.class == "eval:cost" { Ok(()) } else { Err(v) })?;
            Ok((d, next_free(i.var_manager_mut()), vec![]))
        }
    })
}
fn finish_opt(i: Result<OptInstance<BasicVarManager>, String>, nv: usize) -> Result<Got, Violation> {
    Ok(match i {
        Err(e) => Err(e),
        Ok(mut i) => {
            let d = doc_of(i.constraints_ref(), &[i.objective_ref()]);
            agree(&d, nv, i.constraints_ref(), |a| i.cost(a).map(|c| vec![c as i64]))?;
            Ok((d, i.new_var().idx32(), vec![]))
        }
    })
}
fn finish_multi(i: Result<MultiOptInstance<BasicVarManager>, String>, nv: usize) -> Result<Got, Violation> {
    Ok(match i {
        Err(e) => Err(e),
        Ok(mut i) => {
            let objs: Vec<&Objective> = i.iter_obj().collect();
            let d = doc_of(i.constraints_ref(), &objs);
            agree(&d, nv, i.constraints_ref(), |a| {
                i.cost(a).map(|c| c.into_iter().map(|x| x as i64).collect())
            })?;
            Ok((d, i.new_var().idx32(), vec![]))
        }
    })
}

// ------------------------------------------------------------------ line parsers

fn cl(c: &Clause) -> Vec<i32> {
    c.iter().map(|l| l.to_ipasir()).collect()
}

pub enum Lines {
    /// all items, header, did an error end the iteration
    Items(Vec<Item>, Option<(u32, usize, usize)>, Option<String>),
}

pub fn read_lines<R: BufRead>(sim: &mut Sim, t: &Text, r: R) -> Lines {
    let mut items = vec![];
    let mut err = None;
    let mut header = None;
    let com = |c: String| Item::Comment(c.trim_end().to_string());
    // optionally look at (some of) the comments before the header
    let peek = sim.chance(2, 3);
    match t.fmt {
        Fmt::Cnf => {
            let mut p = dimacs::Parser::<dimacs::CnfHeader, _>::new(r);
            if peek {
                for c in p.by_ref() {
                    match c {
                        Ok(c) => items.push(com(c)),
                        Err(e) => return Lines::Items(items, header, Some(e.to_string())),
                    }
                }
            } else {
                items.extend(t.items[..t.head_comments].iter().cloned());
            }
            match p.forward_to_body() {
                Err(e) => err = Some(e.to_string()),
                Ok(h) => {
                    header = Some((h.n_vars, h.n_clauses, 0));
                    for d in h.body_parser {
                        match d {
                            Ok(dimacs::CnfData::Clause(c)) => items.push(Item::Hard(cl(&c))),
                            Ok(dimacs::CnfData::Comment(c)) => items.push(com(c)),
                            Err(e) => {
                                err = Some(e.to_string());
                                break;
                            }
                        }
                    }
                }
            }
        }
        Fmt::WcnfOld | Fmt::WcnfNew => {
            let mut p = dimacs::Parser::<dimacs::WcnfHeader, _>::new(r);
            if peek {
                for c in p.by_ref() {
                    match c {
                        Ok(c) => items.push(com(c)),
                        Err(e) => return Lines::Items(items, header, Some(e.to_string())),
                    }
                }
            } else {
                items.extend(t.items[..t.head_comments].iter().cloned());
            }
            let mut push = |d: dimacs::WcnfData| match d {
                dimacs::WcnfData::HardClause(c) => items.push(Item::Hard(cl(&c))),
                dimacs::WcnfData::SoftClause { weight, clause } => {
                    items.push(Item::Soft(0, weight as i64, cl(&clause)));
                }
                dimacs::WcnfData::Comment(c) => items.push(com(c)),
            };
            match p.forward_to_body() {
                Err(e) => err = Some(e.to_string()),
                Ok(dimacs::WcnfHeaderData::Pre22 { n_vars, n_clauses, top, body_parser }) => {
                    header = Some((n_vars, n_clauses, top));
                    for d in body_parser {
                        match d {
                            Ok(d) => push(d),
                            Err(e) => {
                                err = Some(e.to_string());
                                break;
                            }
                        }
                    }
                }
                Ok(dimacs::WcnfHeaderData::Post22(p)) => {
                    for d in p {
                        match d {
                            Ok(d) => push(d),
                            Err(e) => {
                                err = Some(e.to_string());
                                break;
                            }
                        }
                    }
                }
                Ok(dimacs::WcnfHeaderData::Empty(_)) => {}
            }
        }
        Fmt::Mcnf => {
            for d in dimacs::Parser::<dimacs::Mcnf, _>::new(r) {
                match d {
                    Ok(dimacs::McnfData::HardClause(c)) => items.push(Item::Hard(cl(&c))),
                    Ok(dimacs::McnfData::SoftClause { obj_idx, weight, clause }) => {
                        items.push(Item::Soft(obj_idx, weight as i64, cl(&clause)));
                    }
                    Ok(dimacs::McnfData::Comment(c)) => items.push(com(c)),
                    Err(e) => {
                        err = Some(e.to_string());
                        break;
                    }
                }
            }
        }
        _ => {
            for d in opb::Parser::new(r, opts(t.first_idx, true)) {
                match d {
                    Ok(opb::Data::Cmt(c)) => items.push(com(c)),
                    Ok(opb::Data::Constr(c)) => items.push(Item::Con(model::pb_con(&c))),
                    Ok(opb::Data::Obj(o)) => {
                        let mut v: Vec<(i64, i32)> = o.terms.iter().map(|(w, l)| (*w as i64, l.to_ipasir())).collect();
                        v.push((o.offset as i64, 0));
                        items.push(Item::Obj(v, o.sense == opb::ObjectiveSense::Maximize));
                    }
                    Err(e) => {
                        err = Some(e.to_string());
                        break;
                    }
                }
            }
        }
    }
    Lines::Items(items, header, err)
}

pub fn same_item(a: &Item, b: &Item, nv: usize) -> bool {
    match (a, b) {
        (Item::Con(x), Item::Con(y)) => (0..1u64 << nv).all(|m| x.holds(m) == y.holds(m)),
        (Item::Obj(x, s), Item::Obj(y, t)) => {
            let val = |v: &[(i64, i32)], m: u64| -> i64 {
                v.iter().filter(|(_, l)| *l == 0 || model::bit(m, *l)).map(|(c, _)| *c).sum()
            };
            s == t && (0..1u64 << nv).all(|m| val(x, m) == val(y, m))
        }
        (Item::Comment(x), Item::Comment(y)) => x.trim_end() == y.trim_end(),
        (x, y) => x == y,
    }
}

fn gen_ext(sim: &mut Sim) -> &'static str {
    *sim.pick(&["", "gz", "bz2", "xz", "GZ", "Xz"])
}

/// one or several streams; also returns the offsets of the ends of streams
fn pack(sim: &mut Sim, ext: &str, data: &[u8]) -> (Vec<u8>, Vec<usize>) {
    let e = ext.to_ascii_lowercase();
    let mut out = vec![];
    let mut ends = vec![];
    let mut rest = data;
    while !rest.is_empty() && sim.chance(1, 4) {
        let k = sim.range(0, rest.len());
        out.extend(compress(&e, &rest[..k]));
        ends.push(out.len());
        rest = &rest[k..];
    }
    if ends.len() > 0 {
        sim.probe("several compressed streams");
    }
    out.extend(compress(&e, rest));
    ends.push(out.len());
    (out, ends)
}

fn check_read(t: &Text, got: &Got, what: &str) -> Outcome {
    match got {
        Err(e) => bail!("read:rejected", "{:?} text {:?} {what} rejected: {e}", t.fmt, t.text),
        Ok((d, nf, _)) => {
            let (want, have) = (t.doc.table(t.doc.nv), d.table(t.doc.nv));
            ensure!(
                want == have,
                "read:meaning",
                "{:?} text {:?} {what} was read as {:?}", t.fmt, t.text, d
            );
            let maxv = t
                .doc
                .cons
                .iter()
                .flat_map(|c| c.terms.iter().filter(|x| x.0 != 0).map(|x| x.1.unsigned_abs()))
                .chain(t.doc.objs.iter().flat_map(|o| o.softs.iter().filter(|s| s.0 != 0).flat_map(|s| s.1.iter().map(|l| l.unsigned_abs()))))
                .max()
                .unwrap_or(0)
                .max(t.header.map_or(0, |h| h.0));
            ensure!(
                *nf >= maxv,
                "read:fresh-variable",
                "{:?} text {:?} uses {maxv} variables, the instance's next new variable has index {nf}", t.fmt, t.text
            );
            Ok(())
        }
    }
}

fn p04(sim: &mut Sim) -> Outcome {
    let fmt = *sim.pick(&FMTS);
    let mut t = gen_text(sim, fmt);
    let nv = t.doc.nv;
    sim.op(&format!("read {fmt:?}"));
    sim.ev(format!("{fmt:?} {:?}", t.text));
    sim.nontrivial = true;
    match sim.weighted(&[4, 3, 3, 3, 2]) {
        // ---- from a reader, with chunking
        0 | 1 => {
            let tr = if sim.coin() { Trouble::Soft } else { Trouble::None };
            let lines = sim.coin();
            let hard = sim.chance(1, 3);
            let tr = if hard { Trouble::Hard(sim.range(0, t.text.len())) } else { tr };
            let r = FaultyReader::new(sim, t.text.as_bytes(), tr);
            let hit = r.hit.clone();
            let simp: *mut Sim = sim;
            if lines {
                let Lines::Items(items, header, err) = read_lines(unsafe { &mut *simp }, &t, r);
                sim.state(1000 + t.fmt as u64 * 8 + u64::from(hard) * 2 + u64::from(err.is_some()));
                let mut want = t.items.clone();
                if let Some(e) = &err {
                    ensure!(hit.get(), "read:rejected", "{fmt:?} text {:?} rejected by the line parser: {e}", t.text);
                    // whatever was delivered before the error is a prefix of the file
                    want.truncate(items.len());
                    sim.probe("line parser stopped by a read error");
                } else {
                    ensure!(!hit.get(), "read:error-lost", "the line parser ended normally although reading failed; {:?}", t.text);
                    ensure!(header == t.header, "read:header", "header {header:?} instead of {:?} from {:?}", t.header, t.text);
                }
                ensure!(
                    items.len() == want.len() && items.iter().zip(&want).all(|(a, b)| same_item(a, b, nv)),
                    "read:lines",
                    "{fmt:?} text {:?} gave lines {items:?} instead of {want:?}", t.text
                );
                return Ok(());
            }
            let got = read_instance(&t, r, nv)?;
            sim.state(2000 + t.fmt as u64 * 8 + u64::from(hard) * 2 + u64::from(got.is_err()));
            if hard {
                ensure!(hit.get(), "read:early-stop", "{fmt:?}: reading stopped before the end of {:?}: {got:?}", t.text);
                ensure!(got.is_err(), "read:error-lost", "{fmt:?} text {:?}: a read error went unnoticed: {got:?}", t.text);
                sim.probe("read error reported");
                return Ok(());
            }
            check_read(&t, &got, "in pieces")
        }
        // ---- from a file, possibly compressed, on a disk with faults
        2 => {
            let ext = gen_ext(sim);
            let (bytes, _) = pack(sim, ext, t.text.as_bytes());
            let p = if ext.is_empty() { "/simfs/in.txt".to_string() } else { format!("/simfs/in.txt.{ext}") };
            let mut cfg = os::Cfg::quiet();
            match sim.weighted(&[1, 2, 2]) {
                0 => {}
                1 => soft_faults(sim, &mut cfg),
                _ => {
                    soft_faults(sim, &mut cfg);
                    cfg.eio_read = *sim.pick(&[3, 10, 30, 100]);
                    cfg.open_fail = 4;
                }
            }
            let w = os::World::enter(sim, cfg);
            w.put_file(&p, &bytes);
            let got = read_path(&t, &p, nv);
            let w = os::World::leave().unwrap();
            let got = got?;
            let hard = w.lib_faults.iter().any(|f| is_hard(f));
            let open = w.open_fds();
            ensure!(open.is_empty(), "read:leak", "descriptors left open after reading: {open:?}");
            sim.state(3000 + t.fmt as u64 * 64 + hash4(ext) * 4 + u64::from(hard) * 2 + u64::from(got.is_err()));
            if hard {
                ensure!(got.is_err(), "read:error-lost", "{fmt:?} file {p}: a read error went unnoticed ({:?}): {got:?}", w.lib_faults);
                sim.probe("file read error reported");
                return Ok(());
            }
            check_read(&t, &got, &format!("from {p} ({} bytes)", bytes.len()))
        }
        // ---- damaged compressed file
        3 => {
            let ext = *sim.pick(&["gz", "bz2", "xz"]);
            let (mut bytes, ends) = pack(sim, ext, t.text.as_bytes());
            let p = format!("/simfs/in.txt.{ext}");
            let cut = sim.coin();
            let k;
            if cut {
                k = sim.range(0, bytes.len() - 1);
                // a file that ends between streams is complete, and so is one without any
                if k == 0 || ends.contains(&k) {
                    return Ok(());
                }
                bytes.truncate(k);
                sim.fault("compressed file truncated");
            } else {
                k = sim.range(0, bytes.len() - 1);
                let b = sim.range(0, 7);
                bytes[k] ^= 1 << b;
                sim.fault("compressed file bit flipped");
            }
            let mut cfg = os::Cfg::quiet();
            if sim.coin() {
                soft_faults(sim, &mut cfg);
            }
            let w = os::World::enter(sim, cfg);
            w.put_file(&p, &bytes);
            let got = read_path(&t, &p, nv);
            os::World::leave();
            let got = got?;
            sim.state(4000 + t.fmt as u64 * 64 + hash4(ext) * 4 + u64::from(cut) * 2 + u64::from(got.is_err()));
            match &got {
                Err(_) => {
                    sim.probe("damaged file rejected");
                    Ok(())
                }
                Ok(_) if cut => violation(
                    "read:truncated",
                    format!("{fmt:?} {ext} file cut after {k} bytes (streams end at {ends:?}) was accepted: {got:?}; text {:?}", t.text),
                ),
                Ok(_) => check_read(&t, &got, &format!("as {ext} with byte {k} damaged")).map_err(|mut v| {
                    v.class = "read:damaged".into();
                    v
                }),
            }
        }
        // ---- malformed text
        _ => {
            let kind = sim.choose(3);
            let mut bytes = t.text.clone().into_bytes();
            let mut surely = false;
            match kind {
                0 => {
                    // replace one token of a data line by something that is no token of any format
                    let toks: Vec<(usize, usize)> = data_tokens(&t.text);
                    if !toks.is_empty() {
                        let (a, b) = toks[sim.idx(toks.len())];
                        let bad = *sim.pick(&["four", "1.5", "--1", "99999999999999999999999", "1x", "#", "x", "0x1f"]);
                        bytes.splice(a..b, bad.bytes());
                        surely = true;
                        sim.fault("token damaged");
                    }
                }
                1 => {
                    let k = sim.range(0, bytes.len().saturating_sub(1));
                    if k < bytes.len() {
                        bytes[k] = 0xff;
                        surely = true;
                        sim.fault("text not UTF-8");
                    }
                }
                _ => {
                    for _ in 0..sim.range(1, 4) {
                        if bytes.is_empty() {
                            break;
                        }
                        let k = sim.idx(bytes.len());
                        match sim.choose(3) {
                            0 => {
                                bytes.remove(k);
                            }
                            1 => bytes[k] = *sim.pick(b" \n\t0123456789-+xcphwo:;<>=~*\r"),
                            _ => bytes.insert(k, *sim.pick(b" \n\t0-+xcpho:;<>=~*")),
                        }
                    }
                    sim.fault("text garbled");
                    // keep objective indices and numbers small: huge ones are legal but cost memory
                    let s = String::from_utf8_lossy(&bytes).into_owned();
                    if longest_number(&s) > 4 {
                        return Ok(());
                    }
                }
            }
            t.text = String::from_utf8_lossy(&bytes).into_owned();
            sim.ev(format!("malformed {:?}", t.text));
            let r = FaultyReader::new(sim, &bytes, Trouble::Soft);
            let simp: *mut Sim = sim;
            let err = if sim.coin() {
                let Lines::Items(_, _, err) = read_lines(unsafe { &mut *simp }, &t, r);
                err.is_some()
            } else {
                // any number of variables may have become used: no table
                read_instance(&t, r, 0).is_ok_and(|g| g.is_err())
            };
            sim.state(5000 + t.fmt as u64 * 8 + kind * 2 + u64::from(err));
            if surely {
                ensure!(err, "read:malformed", "{fmt:?}: malformed text {:?} was accepted", t.text);
                sim.probe("malformed text rejected");
            }
            Ok(())
        }
    }
}

fn hash4(s: &str) -> u64 {
    simcore::sim::hash_str(s) % 16
}

fn longest_number(s: &str) -> usize {
    let mut best = 0;
    let mut cur = 0;
    for c in s.chars() {
        if c.is_ascii_digit() {
            cur += 1;
            best = best.max(cur);
        } else {
            cur = 0;
        }
    }
    best
}

fn data_tokens(s: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut off = 0;
    for line in s.split_inclusive('\n') {
        let tl = line.trim_start();
        // lines with a comment after a statement are left alone too
        if !tl.starts_with('c') && !tl.starts_with('*') && !line.contains('*') {
            let mut start = None;
            for (i, ch) in line.char_indices() {
                if ch.is_whitespace() {
                    if let Some(a) = start.take() {
                        v.push((off + a, off + i));
                    }
                } else if start.is_none() {
                    start = Some(i);
                }
            }
            if let Some(a) = start {
                v.push((off + a, off + line.len()));
            }
        }
        off += line.len();
    }
    // the closing 0 of a clause and the number of variables or clauses stay intact
    v.retain(|(a, b)| !matches!(&s[*a..*b], "0" | "h" | ";" | "p" | "cnf" | "wcnf"));
    v
}

pub fn soft_faults(sim: &mut Sim, cfg: &mut os::Cfg) {
    cfg.short_read = *sim.pick(&[0, 200, 600, 950]);
    cfg.short_write = *sim.pick(&[0, 200, 600, 950]);
    cfg.eintr = *sim.pick(&[0, 100, 300]);
}

pub fn is_hard(f: &str) -> bool {
    !(f.contains("EINTR") || f.contains("short"))
}

pub fn register(s: &mut Vec<Scenario>, p: &mut Vec<Prop>) {
    s.push(Scenario { prop: "P04", name: "reading instances", weight: 1, f: p04 });
    p.push(Prop {
        id: "P04",
        quick_runs: 500_000,
        thorough_runs: 4_000_000,
        rule: "runs in which a generated text was given to a reader, distinct by the hash of the full event trace (text, chunking, faults)",
        shape_measure: "distinct combinations of format, route (reader, path, compression), fault mode and outcome",
        real: &["rustsat::instances::fio (all parsers, compressed readers)", "rustsat::instances::{SatInstance, OptInstance, MultiOptInstance}", "flate2, bzip2, xz2"],
        stub: &["libc file calls (simulated disk)", "BufRead seam (chunking reader)"],
        assumptions: &["generated texts have at most 5 variables, so that meanings are compared by evaluating all assignments"],
    });
}
