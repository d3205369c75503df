//! P07: reading solver logs
use crate::fileio::{is_hard, soft_faults};
use crate::io::{FaultyReader, Trouble};
use crate::os;
use crate::util::compress;
use rustsat::instances::fio::{parse_sat_solver_output, SolverOutput};
use rustsat::types::{Assignment, TernaryVal, Var};
use simcore::runner::{Prop, Scenario};
use simcore::{bail, ensure, Outcome, Sim};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Style {
    Sat,
    Pb,
    Max,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Want {
    Sat(BTreeMap<u32, bool>),
    Unsat,
    Unknown,
    Error(&'static str),
}

fn noise(sim: &mut Sim) -> String {
    (*sim.pick(&[
        "c a comment",
        "c",
        "",
        "c s SATISFIABLE",
        "c v 1 2 3 0",
        " s UNSATISFIABLE",
        " v 5 0",
        "o 17",
        "vx1 2",
        "v",
        "statistics: 5",
        "sSATISFIABLE",
        "[main] v 9 0",
        "c \u{e9}\u{4e2d}",
        "\u{e9}",
        "t 12.5",
    ]))
    .to_string()
}

/// value lines of the given assignment, in the style of a competition
fn vlines(sim: &mut Sim, style: Style, lits: &[i64]) -> Vec<String> {
    let mut out = vec![];
    match style {
        Style::Max => {
            let bits: String = lits.iter().map(|l| if *l > 0 { '1' } else { '0' }).collect();
            out.push(format!("v {bits}"));
        }
        _ => {
            let mut toks: Vec<String> = lits
                .iter()
                .map(|l| if style == Style::Sat { l.to_string() } else { format!("{}x{}", if *l < 0 { "-" } else { "" }, l.abs()) })
                .collect();
            if style == Style::Sat {
                toks.push("0".into());
            }
            let per = sim.range(1, 6);
            let mut cur: Vec<String> = vec![];
            for t in toks {
                cur.push(t);
                if cur.len() >= per || sim.chance(1, 6) {
                    out.push(format!("v {}", cur.join(*sim.pick(&[" ", " ", "  "]))));
                    cur.clear();
                }
            }
            if !cur.is_empty() || out.is_empty() {
                out.push(format!("v {}", cur.join(" ")));
            }
            if sim.chance(1, 5) {
                for l in &mut out {
                    l.push(' ');
                }
            }
        }
    }
    out
}

fn p07(sim: &mut Sim) -> Outcome {
    let style = *sim.pick(&[Style::Sat, Style::Sat, Style::Pb, Style::Max]);
    // the assignment
    let maxv = *sim.pick(&[1u32, 3, 5, 12, 12, 120, 1100]);
    let mut lits: Vec<i64> = vec![];
    if style == Style::Max {
        let n = sim.range(2, maxv.clamp(2, 40) as usize);
        for v in 1..=n as i64 {
            lits.push(if sim.coin() { v } else { -v });
        }
    } else {
        let n = sim.range(0, 10);
        let mut used = vec![];
        for _ in 0..n {
            let v = if sim.chance(1, 3) { *sim.pick(&[1u32, 10, 11, 100, 101, 1000, 1001]) } else { sim.range(1, maxv as usize) as u32 };
            if used.contains(&v) {
                continue;
            }
            used.push(v);
            lits.push(if sim.chance(1, 3) { -i64::from(v) } else { i64::from(v) });
        }
        if sim.coin() {
            lits.sort_by_key(|l| l.abs());
        }
        // repeating a value is no contradiction
        if !lits.is_empty() && sim.chance(1, 6) {
            let l = *sim.pick(&lits);
            lits.push(l);
        }
    }
    let mut map = BTreeMap::new();
    for l in &lits {
        map.insert(l.unsigned_abs() as u32, *l > 0);
    }
    let status = sim.weighted(&[6, 2, 2, 1, 1]);
    let with_v = status == 0 && !sim.chance(1, 10) || status != 0 && sim.chance(1, 4);
    let mut want = match status {
        0 if with_v => Want::Sat(map.clone()),
        0 => Want::Error("no value line"),
        1 => Want::Unsat,
        2 => Want::Unknown,
        3 => Want::Error("no status line"),
        _ => Want::Error("invalid status line"),
    };
    let sline = match status {
        0 => Some(*sim.pick(&["s SATISFIABLE", "s  SATISFIABLE", "s SATISFIABLE "])),
        1 => Some("s UNSATISFIABLE"),
        2 => Some(*sim.pick(&["s UNKNOWN", "s INDETERMINATE"])),
        3 => None,
        _ => Some(*sim.pick(&["s SAT", "s OPTIMUM FOUND", "s ", "s satisfiable", "s 1"])),
    };
    let mut v = if with_v { vlines(sim, style, &lits) } else { vec![] };
    // spoil the value lines
    let mut spoiled = false;
    if status == 0 && with_v && sim.chance(1, 4) {
        spoiled = true;
        match (style, sim.weighted(&[2, 1])) {
            (Style::Max, _) => {
                let bad = *sim.pick(&["2", "x", "-", "\u{e9}"]);
                let k = sim.range(2, v[0].len());
                v[0].insert_str(k, bad);
                // with a bad character the line may read as one of another format
                want = Want::Error("any");
            }
            (s, 0) if !lits.is_empty() => {
                let l = -*sim.pick(&lits);
                let t = if s == Style::Sat { l.to_string() } else { format!("{}x{}", if l < 0 { "-" } else { "" }, l.abs()) };
                let at = sim.idx(v.len());
                if sim.coin() {
                    v[at] = format!("v {t} {}", &v[at][2..]);
                } else if style == Style::Pb {
                    v[at] = format!("{} {t}", v[at]);
                } else {
                    v.insert(at, format!("v {t}"));
                }
                want = Want::Error("contradiction");
                sim.fault("contradictory value");
            }
            (s, _) => {
                let bad = if s == Style::Sat {
                    *sim.pick(&["x1y", "4a", "--3", "1.5", "99999999999", "2147483648", "9223372036854775808", "+-1", "\u{e9}"])
                } else {
                    *sim.pick(&["x", "y1", "x-1", "x1x", "--x1", "x0", "\u{e9}x"])
                };
                let at = sim.idx(v.len());
                v[at] = if sim.coin() { format!("v {bad} {}", &v[at][2..]) } else { format!("{} {bad}", v[at]) };
                want = Want::Error("malformed value line");
                sim.fault("malformed value line");
            }
        }
    }
    // put the log together
    let mut lines: Vec<String> = vec![];
    let noisy = sim.coin();
    let s_at = if sim.coin() { 0 } else { sim.range(0, v.len()) };
    for (i, l) in v.iter().enumerate() {
        if i == s_at {
            lines.extend(sline.map(String::from));
        }
        lines.push(l.clone());
    }
    if s_at >= v.len() {
        lines.extend(sline.map(String::from));
    }
    if noisy {
        for _ in 0..sim.range(1, 6) {
            let at = sim.range(0, lines.len());
            let n = noise(sim);
            lines.insert(at, n);
        }
    }
    let nl = if sim.chance(1, 6) { "\r\n" } else { "\n" };
    let mut text = lines.join(nl);
    if !sim.chance(1, 4) && !lines.is_empty() {
        text.push_str(nl);
    }
    sim.op(&format!("{style:?} log"));
    sim.ev(format!("{want:?} log {text:?}"));
    sim.nontrivial = true;

    let by_path = sim.chance(1, 4);
    let (got, hit): (Result<SolverOutput, String>, bool) = if by_path {
        let ext = *sim.pick(&["", "gz", "bz2", "xz"]);
        let p = if ext.is_empty() { "/simfs/log".to_string() } else { format!("/simfs/log.{ext}") };
        let mut cfg = os::Cfg::quiet();
        soft_faults(sim, &mut cfg);
        if sim.chance(1, 3) {
            cfg.eio_read = *sim.pick(&[100, 300]);
            cfg.open_fail = 20;
        }
        let w = os::World::enter(sim, cfg);
        w.put_file(&p, &compress(ext, text.as_bytes()));
        let r = Assignment::from_solver_output_path(&p);
        let w = os::World::leave().unwrap();
        let hit = w.lib_faults.iter().any(|f| is_hard(f));
        let r = match r {
            Ok(a) => Ok(SolverOutput::Sat(a)),
            Err(e) => {
                if matches!(want, Want::Unsat | Want::Unknown) {
                    // an error is the right answer for these
                    sim.probe("log of an unsolved instance gives no assignment");
                    return Ok(());
                }
                Err(e.to_string())
            }
        };
        (r, hit)
    } else {
        let tr = match sim.weighted(&[1, 3, 2]) {
            0 => Trouble::None,
            1 => Trouble::Soft,
            _ => Trouble::Hard(sim.range(0, text.len())),
        };
        let r = FaultyReader::new(sim, text.as_bytes(), tr);
        let hit = r.hit.clone();
        let o = parse_sat_solver_output(r);
        (o.map_err(|e| e.to_string()), hit.get())
    };
    sim.state(
        style as u64 * 100
            + status as u64 * 20
            + u64::from(with_v) * 10
            + u64::from(hit) * 4
            + u64::from(got.is_ok()) * 2
            + u64::from(spoiled),
    );
    if hit {
        ensure!(got.is_err(), "log:error-lost", "a read error went unnoticed: {got:?}; log {text:?}");
        sim.probe("read error reported");
        return Ok(());
    }
    match (&got, &want) {
        (Err(_), Want::Error(_)) => Ok(()),
        (Ok(_), Want::Error("any")) => Ok(()),
        (Ok(SolverOutput::Unsat), Want::Unsat) | (Ok(SolverOutput::Unknown), Want::Unknown) => Ok(()),
        (Ok(SolverOutput::Sat(a)), Want::Sat(m)) => {
            let top = m.keys().max().copied().unwrap_or(0).max(a.max_var().map_or(0, |v| v.idx32() + 1)) + 2;
            for x in 1..=top {
                let w = match m.get(&x) {
                    Some(true) => TernaryVal::True,
                    Some(false) => TernaryVal::False,
                    None => TernaryVal::DontCare,
                };
                let g = a.var_value(Var::new(x - 1));
                ensure!(g == w, "log:value", "variable {x} is {g:?} instead of {w:?} after reading {text:?}");
            }
            sim.probe("assignment compared");
            Ok(())
        }
        _ => bail!("log:result", "log {text:?} was read as {got:?} instead of {want:?}"),
    }
}

/// single value lines given directly, also incrementally
fn p07_vline(sim: &mut Sim) -> Outcome {
    let mut a = Assignment::default();
    let mut map: BTreeMap<u32, bool> = BTreeMap::new();
    let mut hist = vec![];
    for _ in 0..sim.range(1, 4) {
        if sim.chance(1, 5) {
            let bad = *sim.pick(&["", "x 1 0", "\u{e9}", "\u{e9}x", "c v 1", "1 2 0", "v \u{e9}", "v\u{4e2d} 1", "v 1 -1 0", "\n", "v 1\nw 2"]);
            hist.push(bad.to_string());
            sim.ev(format!("bad {bad:?}"));
            let r = a.clone().extend_from_vline(bad);
            ensure!(r.is_err(), "vline:accepted", "value line {bad:?} was accepted");
            ensure!(Assignment::from_vline(bad).is_err(), "vline:accepted", "value line {bad:?} was accepted");
            continue;
        }
        let style = *sim.pick(&[Style::Sat, Style::Pb]);
        let n = sim.range(1, 5);
        let mut conflict = false;
        let mut m2 = map.clone();
        let mut toks = vec![];
        for _ in 0..n {
            let v = sim.range(1, 12) as u32;
            let s = sim.coin();
            if m2.get(&v).is_some_and(|x| *x != s) {
                conflict = true;
            }
            m2.insert(v, s);
            toks.push(format!("{}{}{v}", if s { "" } else { "-" }, if style == Style::Pb { "x" } else { "" }));
        }
        if style == Style::Sat {
            toks.push("0".into());
        }
        let line = format!("v {}", toks.join(" "));
        sim.ev(&line);
        hist.push(line.clone());
        let mut b = a.clone();
        let r = b.extend_from_vline(&line);
        ensure!(r.is_err() == conflict, "vline:result", "{line:?} on {map:?} gave {r:?}");
        if !conflict {
            a = b;
            map = m2;
        } else {
            sim.probe("contradiction across value lines");
        }
    }
    sim.nontrivial = true;
    for x in 1..=14 {
        let w = match map.get(&x) {
            Some(true) => TernaryVal::True,
            Some(false) => TernaryVal::False,
            None => TernaryVal::DontCare,
        };
        let g = a.var_value(Var::new(x - 1));
        ensure!(g == w, "vline:value", "variable {x} is {g:?} instead of {w:?} after {hist:?}");
    }
    Ok(())
}

pub fn register(s: &mut Vec<Scenario>, p: &mut Vec<Prop>) {
    s.push(Scenario { prop: "P07", name: "solver logs", weight: 5, f: p07 });
    s.push(Scenario { prop: "P07", name: "value lines", weight: 1, f: p07_vline });
    p.push(Prop {
        id: "P07",
        quick_runs: 800_000,
        thorough_runs: 6_000_000,
        rule: "runs in which a generated log was parsed, distinct by the hash of the full event trace (log, chunking, faults)",
        shape_measure: "distinct combinations of value line style, status, presence of values, read error and outcome",
        real: &["rustsat::instances::fio::parse_sat_solver_output", "rustsat::types::Assignment (value lines)", "compressed readers"],
        stub: &["libc file calls (simulated disk)", "BufRead seam (chunking reader)"],
        assumptions: &["logs are UTF-8", "a log has at most one status line", "SAT competition value lines end with 0"],
    });
}
