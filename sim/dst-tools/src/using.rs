//! Tools that answer questions about an instance
use crate::conv::give;
use crate::model::{bit, Doc, Op};
use crate::text::{Fmt, FMTS};
use crate::tool::{check, dir, Use};
use crate::util::compress;
use simcore::{bail, ensure, Outcome, Sim};
use std::collections::BTreeSet;

fn format_arg(sim: &mut Sim, u: &mut Use, f: Fmt, name: &str) -> (bool, &'static [&'static str]) {
    let (arg, exts): (_, &[&str]) = match f {
        Fmt::Cnf => ("cnf", &["cnf"]),
        Fmt::WcnfOld | Fmt::WcnfNew => ("wcnf", &["wcnf"]),
        Fmt::Mcnf => ("mcnf", &["mcnf"]),
        _ => ("opb", &["opb", "mopb", "pbmo"]),
    };
    if sim.coin() {
        u.arg(name).arg(arg);
        (true, &["txt", "cnf", "opb"])
    } else {
        (false, exts)
    }
}

fn costs(d: &Doc, a: u64) -> Vec<i64> {
    d.objs.iter().map(|o| o.cost(a)).collect()
}

pub fn check_solution(sim: &mut Sim) -> Outcome {
    let f = *sim.pick(&FMTS);
    let mut u = Use::new("check-solution");
    let (_, exts) = format_arg(sim, &mut u, f, "--file-format");
    let g = give(sim, &mut u, f, 4, false, exts);
    let opb = matches!(f, Fmt::OpbSat | Fmt::OpbOpt | Fmt::OpbMulti);
    let nv = g.t.doc.nv;
    let n = nv + sim.choose(3) as usize;
    let a = sim.choose(1 << n);
    let val = |v: usize| bit(a, v as i32);
    // the solution as a solver prints it
    let mut s = String::new();
    let noise = |sim: &mut Sim, s: &mut String| {
        if sim.chance(1, 4) {
            s.push_str(*sim.pick(&["c a comment\n", "s SATISFIABLE\n", "o 17\n", "c v 1 -2 0\n", "\n"]));
        }
    };
    noise(sim, &mut s);
    // a single digit could also be a literal
    let style = if n < 2 { 1 + sim.choose(2) } else { sim.choose(3) };
    if style == 0 {
        let w: String = (1..=n).map(|v| if val(v) { '1' } else { '0' }).collect();
        s.push_str(&format!("v {w}\n"));
    } else {
        let mut order: Vec<usize> = (1..=n).collect();
        for i in (1..n).rev() {
            let j = sim.idx(i + 1);
            order.swap(i, j);
        }
        // a line of a single digit could also be a list of values
        let per = sim.range(if style == 1 { 2 } else { 1 }, 5);
        let k = order.len().div_ceil(per);
        for (i, c) in order.chunks(per).enumerate() {
            s.push('v');
            for v in c {
                let sign = if val(*v) { "" } else { "-" };
                s.push_str(&if style == 1 { format!(" {sign}{v}") } else { format!(" {sign}x{v}") });
            }
            if style == 1 && i + 1 == k {
                s.push_str(" 0");
            }
            s.push('\n');
            noise(sim, &mut s);
        }
    }
    if sim.chance(1, 4) {
        while s.ends_with('\n') {
            s.pop();
        }
    }
    sim.ev(format!("solution {s:?}"));
    if sim.coin() {
        let c = *sim.pick(&["", "", ".gz", ".bz2", ".xz"]);
        let p = dir().join(format!("sol{c}"));
        std::fs::write(&p, compress(c.trim_start_matches('.'), s.as_bytes())).unwrap();
        u.arg(p.to_str().unwrap());
        if !c.is_empty() && sim.coin() {
            u.packed = Some(p);
        }
    } else {
        u.stdin = Some(s.clone().into_bytes());
    }
    if opb && (g.t.first_idx != 1 || sim.coin()) {
        u.arg("--opb-first-var-idx").arg(g.t.first_idx.to_string());
    }
    let d = &g.t.doc;
    check(sim, &u, |sim, r| {
        let text = String::from_utf8_lossy(&r.stdout).into_owned();
        if d.feasible(a) {
            let want = format!("objective values: {}\n", costs(d, a).iter().map(i64::to_string).collect::<Vec<_>>().join(", "));
            ensure!(r.code == Some(0) && text == want, "tool:check-solution:solution", "{:?}: the solution {s:?} of {d:?} with {want:?} is answered by status {:?}, {text:?}, {}", u.args, r.code, r.stderr);
            sim.probe("solution");
        } else {
            ensure!(r.code == Some(1) && text.starts_with("unsatisfied constraint: "), "tool:check-solution:non-solution", "{:?}: {s:?} is no solution of {d:?}, answered by status {:?}, {text:?}, {}", u.args, r.code, r.stderr);
            sim.probe("no solution");
        }
        Ok(())
    })
}

pub fn enumerate(sim: &mut Sim) -> Outcome {
    let f = *sim.pick(&FMTS);
    let mut u = Use::new("enumerator");
    let (given, exts) = format_arg(sim, &mut u, f, "--input-format");
    let g = give(sim, &mut u, f, 4, given, exts);
    let opb = matches!(f, Fmt::OpbSat | Fmt::OpbOpt | Fmt::OpbMulti);
    if opb && (g.t.first_idx != 1 || sim.coin()) {
        u.arg("--opb-first-var-idx").arg(g.t.first_idx.to_string());
    }
    let quiet = sim.chance(1, 4);
    if quiet {
        u.arg("--no-objective-values");
    }
    let until = if sim.chance(1, 3) { Some(sim.range(1, 6)) } else { None };
    if let Some(k) = until {
        u.arg(*sim.pick(&["--enumerate-until", "-e"])).arg(k.to_string());
    }
    let d = &g.t.doc;
    let used = crate::conv::max_var(d);
    check(sim, &u, |sim, r| {
        if r.code == Some(101) && used == 0 {
            // nothing to enumerate over
            sim.probe("no variables");
            return Ok(());
        }
        ensure!(r.code == Some(0), "tool:enumerator:fails", "{:?} ends with status {:?} although nothing went wrong: {}; {d:?}", u.args, r.code, r.stderr);
        let text = String::from_utf8_lossy(&r.stdout).into_owned();
        let mut seen = BTreeSet::new();
        let mut width = None;
        let mut o: Option<Vec<i64>> = None;
        for l in text.lines() {
            if let Some(x) = l.strip_prefix("o ") {
                ensure!(o.is_none(), "tool:enumerator:format", "two objective lines: {text:?}");
                match x.split(' ').map(str::parse::<i64>).collect() {
                    Ok(v) => o = Some(v),
                    Err(e) => bail!("tool:enumerator:format", "{e} in {text:?}"),
                }
            } else if let Some(x) = l.strip_prefix("v ") {
                ensure!(x.chars().all(|c| c == '0' || c == '1') && *width.get_or_insert(x.len()) == x.len() && x.len() >= used, "tool:enumerator:format", "{:?}: solution line {l:?} in {text:?} for {used} variables", u.args);
                let a = x.bytes().rev().fold(0u64, |a, b| a << 1 | u64::from(b == b'1'));
                ensure!(seen.insert(a), "tool:enumerator:repeated", "{:?}: {x} appears twice in {text:?}", u.args);
                ensure!(d.feasible(a), "tool:enumerator:solutions", "{:?}: {x} is no solution of {d:?}", u.args);
                let want = (!quiet && !d.objs.is_empty()).then(|| costs(d, a));
                ensure!(o == want, "tool:enumerator:costs", "{:?}: {x} has costs {want:?}, reported {o:?}: {text:?}, {d:?}", u.args);
                o = None;
            } else {
                bail!("tool:enumerator:format", "line {l:?} in {text:?}");
            }
        }
        let n = width.unwrap_or(used);
        let mut want = (0..1u64 << n).filter(|a| d.feasible(*a)).count();
        if let Some(k) = until {
            want = want.min(k);
        }
        ensure!(seen.len() == want, "tool:enumerator:missing", "{:?}: {} of {want} solutions of {d:?}: {text:?}", u.args, seen.len());
        if want > 1 {
            sim.probe("several solutions");
        }
        Ok(())
    })
}

pub fn propagate(sim: &mut Sim) -> Outcome {
    let f = *sim.pick(&[Fmt::Cnf, Fmt::Cnf, Fmt::OpbSat]);
    let mut u = Use::new("propagator");
    let (given, exts) = format_arg(sim, &mut u, f, "--input-format");
    let _ = given;
    let opb = f != Fmt::Cnf;
    let keep = u.args.len();
    let g = give(sim, &mut u, f, 4, false, exts);
    // options come before the separator, literals may start with a minus
    let path = u.args.split_off(keep);
    let first = if opb { g.t.first_idx } else { 1 };
    if first != 1 || sim.coin() {
        u.arg("--opb-first-var-idx").arg(first.to_string());
    }
    u.arg("--");
    u.args.extend(path);
    // variables beyond may be taken by the encoding
    let nv = if opb { crate::conv::max_var(&g.t.doc) } else { g.t.doc.nv };
    let d = &g.t.doc;
    let mut asm: Vec<i32> = vec![];
    for v in 1..=nv as i32 {
        if sim.chance(2, 5) {
            asm.push(if sim.coin() { v } else { -v });
        }
    }
    for &l in &asm {
        let v = l.unsigned_abs();
        u.arg(match sim.choose(3) {
            0 => format!("{l}"),
            1 => format!("{}x{}", if l < 0 { "~" } else { "" }, v - 1 + first),
            _ => format!("{}x{}", if l < 0 { "-" } else { "" }, v - 1 + first),
        });
    }
    let used = crate::conv::max_var(d);
    let fits = |a: u64| asm.iter().all(|l| bit(a, *l));
    check(sim, &u, |sim, r| {
        if r.code == Some(101) && used == 0 {
            sim.probe("no variables");
            return Ok(());
        }
        let text = String::from_utf8_lossy(&r.stdout).into_owned();
        let sols: Vec<u64> = (0..1u64 << nv).filter(|a| fits(*a) && d.feasible(*a)).collect();
        let cls: Option<Vec<Vec<i32>>> = (f == Fmt::Cnf).then(|| d.cons.iter().map(|c| {
            debug_assert!(c.op == Op::Ge);
            c.terms.iter().map(|t| t.1).collect()
        }).collect());
        if r.code == Some(1) {
            ensure!(r.stderr.contains("propagated to conflict"), "tool:propagator:fails", "{:?} fails: {}", u.args, r.stderr);
            ensure!(sols.is_empty(), "tool:propagator:conflict", "{:?}: a conflict is reported, but {asm:?} has the solutions {sols:?} of {d:?}", u.args);
            sim.probe("conflict");
            return Ok(());
        }
        ensure!(r.code == Some(0), "tool:propagator:fails", "{:?} ends with status {:?}: {}", u.args, r.code, r.stderr);
        let mut lits = BTreeSet::new();
        for w in text.trim_end_matches('\n').split(',').filter(|w| !w.is_empty()) {
            let (neg, x) = match w.strip_prefix('~') {
                Some(x) => (true, x),
                None => (false, w),
            };
            let Some(Ok(v)) = x.strip_prefix('x').map(str::parse::<i32>) else { bail!("tool:propagator:format", "{:?}: {w:?} in {text:?}", u.args) };
            lits.insert(if neg { -v - 1 } else { v + 1 });
        }
        for &l in lits.iter().filter(|l| l.unsigned_abs() as usize <= nv) {
            ensure!(sols.iter().all(|a| bit(*a, l)), "tool:propagator:implied", "{:?}: {l} does not follow from {asm:?}: {text:?}, {d:?}", u.args);
        }
        if let Some(cls) = cls {
            let up = simcore::reference::Sat::of(&cls).up(&asm);
            let root = simcore::reference::Sat::of(&cls).up(&[]);
            match (up, root) {
                (Some(up), Some(root)) => {
                    for l in &up {
                        if !root.contains(l) && !asm.contains(l) {
                            ensure!(lits.contains(l), "tool:propagator:missed", "{:?}: {l} follows by unit propagation from {asm:?}: {text:?}, {d:?}", u.args);
                            sim.probe("propagated");
                        }
                    }
                }
                _ => bail!("tool:propagator:missed-conflict", "{:?}: unit propagation of {asm:?} fails, but {text:?} is reported; {d:?}", u.args),
            }
        }
        Ok(())
    })
}
