//! The encodings generator, judged by the problem the data describe
use crate::model::{bit, Con, Doc, Obj};
use crate::strict::{strict_dimacs, strict_opb};
use crate::text::Fmt;
use crate::tool::{check, dir, Out, Use};
use rustsat::instances::fio::opb;
use simcore::reference::Sat;
use simcore::{bail, ensure, Outcome, Sim, Violation};
use std::collections::BTreeSet;

fn join(v: &[usize], sep: &str) -> String {
    v.iter().map(usize::to_string).collect::<Vec<_>>().join(sep)
}

fn noise(sim: &mut Sim, hash: bool) -> &'static str {
    if !hash {
        return "\n";
    }
    *sim.pick(&["\n", "\n", "\n", "\n\n", "\n# comment\n", " # comment\n", "  \n"])
}

/// data -> file or standard input
fn feed(sim: &mut Sim, u: &mut Use, text: &str, damaged: Option<String>) {
    sim.ev(format!("{text:?}"));
    if sim.chance(2, 3) || damaged.is_some() {
        let p = dir().join("data.txt");
        std::fs::write(&p, text).unwrap();
        u.arg(p.to_str().unwrap());
        u.damaged = damaged.map(|d| (p, d));
    } else {
        u.stdin = Some(text.as_bytes().to_vec());
    }
}

fn done(u: &Use, o: &Out) -> Outcome {
    ensure!(o.code == Some(0), "tool:encodings:fails", "{:?} ends with status {:?} although nothing went wrong: {}", u.args, o.code, o.stderr);
    Ok(())
}

fn out_to(sim: &mut Sim, u: &mut Use) {
    if sim.coin() {
        let p = dir().join("out.txt");
        u.arg(p.to_str().unwrap());
        u.out = Some(p);
    }
}

fn pb_opts(sim: &mut Sim, u: &mut Use) -> opb::Options {
    let mut o = opb::Options { first_var_idx: 1, no_negated_lits: false };
    if sim.coin() {
        o.first_var_idx = sim.choose(3) as u32;
        u.arg("--first-var-idx").arg(o.first_var_idx.to_string());
    }
    if sim.coin() {
        o.no_negated_lits = true;
        u.arg("--avoid-negated-lits");
    }
    o
}

fn strict<T>(u: &Use, r: Result<T, String>) -> Result<T, Violation> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => simcore::sim::violation("tool:encodings:format", format!("{:?} writes what is not in the format: {e}", u.args)),
    }
}

fn read_opb(u: &Use, r: &Out, o: opb::Options) -> Result<Doc, Violation> {
    done(u, r)?;
    let text = strict(u, u.result(r))?;
    let (mut d, offs) = strict(u, strict_opb(&text, o).map_err(|e| format!("{e}: {text:?}")))?;
    for (o, x) in d.objs.iter_mut().zip(offs.into_iter().flatten()) {
        o.offset += x;
    }
    Ok(d)
}

/// compares on all assignments of `nv` variables; clauses may use more
fn compare(u: &Use, what: &str, d: &Doc, nv: usize, n_objs: usize, want: impl Fn(u64) -> Option<Vec<i64>>) -> Outcome {
    ensure!(d.objs.len() == n_objs, format!("tool:encodings:{what}:objectives"), "{:?}: {} objectives instead of {n_objs}", u.args, d.objs.len());
    let top = crate::conv::max_var(d);
    let direct = top <= nv;
    let mut s = Sat::new();
    if !direct {
        for c in &d.cons {
            s.add(&c.terms.iter().map(|t| t.1).collect::<Vec<_>>());
        }
    }
    for a in 0..1u64 << nv {
        let ok = if direct {
            d.feasible(a)
        } else {
            let asm: Vec<i32> = (1..=nv as i32).map(|v| if bit(a, v) { v } else { -v }).collect();
            s.is_sat(&asm)
        };
        let w = want(a);
        ensure!(ok == w.is_some(), format!("tool:encodings:{what}:solutions"), "{:?}: {a:b} is a solution of the problem: {}, of the encoding: {ok}; {d:?}", u.args, w.is_some());
        if let Some(w) = w {
            let g: Vec<i64> = d.objs.iter().map(|o| o.cost(a)).collect();
            ensure!(w == g, format!("tool:encodings:{what}:costs"), "{:?}: {a:b} has costs {w:?}, in the encoding {g:?}; {d:?}", u.args);
        }
    }
    Ok(())
}

/// drops one number of the text at or after the `skip`th
fn drop_number(sim: &mut Sim, text: &str, skip: usize) -> Option<String> {
    let b = text.as_bytes();
    let mut spans = vec![];
    let mut i = 0;
    let mut comment = false;
    while i < b.len() {
        if b[i] == b'\n' {
            comment = false;
        }
        if b[i] == b'#' {
            comment = true;
        }
        if !comment && b[i].is_ascii_digit() {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            spans.push((s, i));
        } else {
            i += 1;
        }
    }
    if spans.len() <= skip {
        return None;
    }
    let (s, mut e) = spans[skip + sim.idx(spans.len() - skip)];
    // with its separator
    let mut s = s;
    if text[e..].starts_with(", ") {
        e += 2;
    } else if text[..s].ends_with(", ") {
        s -= 2;
    }
    Some(format!("{}{}", &text[..s], &text[e..]))
}

/// cuts the text off in the middle
fn cut(sim: &mut Sim, text: &str) -> Option<String> {
    let t = text.trim_end();
    let k = sim.idx(t.len());
    t.is_char_boundary(k).then(|| t[..k].to_string())
}

pub fn knapsack(sim: &mut Sim) -> Outcome {
    let mut u = Use::new("encodings");
    out_to(sim, &mut u);
    let pb = sim.coin();
    let mut o = opb::Options::default();
    let mut single = false;
    if pb {
        u.arg("pb");
        o = pb_opts(sim, &mut u);
    } else {
        u.arg("cnf");
        single = sim.chance(1, 3);
        if single {
            u.arg(*sim.pick(&["-s", "--single-objective"]));
        }
    }
    u.arg("knapsack");
    if sim.chance(1, 4) {
        // random instance: the same seed gives the same output, and data within the limits
        let n = sim.range(1, 5);
        let k = sim.range(1, 3);
        let lo = [sim.range(0, 5), sim.range(0, 5)];
        let hi = [lo[0] + sim.range(1, 9), lo[1] + sim.range(1, 9)];
        let div = sim.range(1, 4);
        u.arg("random");
        for (a, v) in [("--n-items", n), ("--n-objectives", k), ("--min-weight", lo[0]), ("--max-weight", hi[0]), ("--min-value", lo[1]), ("--max-value", hi[1]), ("--cap-fraction", div), ("--seed", sim.range(0, 9))] {
            u.arg(a).arg(v.to_string());
        }
        let first = std::cell::RefCell::new(None::<String>);
        return check(sim, &u, |_, r| {
            done(&u, r)?;
            let text = strict(&u, u.result(r))?;
            let mut f = first.borrow_mut();
            ensure!(*f.get_or_insert(text.clone()) == text, "tool:encodings:knapsack:seed", "{:?}: the same seed gives other data", u.args);
            if pb {
                let d = read_opb(&u, r, o)?;
                ensure!(d.objs.len() == k && d.cons.len() == 1, "tool:encodings:knapsack:objectives", "{:?}: {text:?}", u.args);
                let vals = (0..n as i32).flat_map(|i| d.objs.iter().map(move |o| o.cost(0) - o.cost(1 << i)));
                let vals: Vec<i64> = vals.collect();
                ensure!(vals.iter().all(|v| *v >= lo[1] as i64 && *v <= hi[1] as i64), "tool:encodings:knapsack:values", "{:?}: values {vals:?}", u.args);
            }
            Ok(())
        });
    }
    let n = sim.range(1, 5);
    let k = sim.range(1, 3);
    let weights: Vec<usize> = (0..n).map(|_| {
        let lo = if sim.chance(1, 6) { 0 } else { 1 };
        sim.range(lo, 9)
    }).collect();
    let values: Vec<Vec<usize>> = (0..k).map(|_| (0..n).map(|_| sim.range(1, 12)).collect()).collect();
    let cap = match sim.choose(6) {
        0 => 0,
        1 => weights.iter().sum::<usize>() + sim.range(0, 2),
        _ => sim.range(0, 20),
    };
    u.arg("input");
    let vopt = sim.chance(1, 3);
    let mut t = String::new();
    let damaged;
    if vopt {
        u.arg("--in-format").arg("v-opt-lib");
        for x in [n, k, 1] {
            if sim.coin() {
                t.push_str("# count\n");
            }
            t.push_str(&x.to_string());
            t.push_str(noise(sim, true));
        }
        for v in values.iter().flatten().chain(&weights).chain(std::iter::once(&cap)) {
            t.push_str(&v.to_string());
            t.push_str(noise(sim, true));
        }
        damaged = drop_number(sim, &t, 3);
    } else {
        if sim.coin() {
            u.arg("--in-format").arg("moo-library");
        }
        for x in [k, n, cap] {
            t.push_str(&x.to_string());
            t.push_str(noise(sim, true));
        }
        for (i, v) in values.iter().enumerate() {
            t.push_str(&format!("{}[{}]{}", if i == 0 { "[" } else { "" }, join(v, ", "), if i + 1 == k { "]\n" } else { ",\n" }));
        }
        t.push_str(&format!("[{}]\n", join(&weights, ", ")));
        damaged = if sim.coin() { cut(sim, &t) } else { drop_number(sim, &t, 3) };
    }
    feed(sim, &mut u, &t, damaged);
    check(sim, &u, |_, r| {
        let want = |a: u64| -> Option<Vec<i64>> {
            let sel = |i: usize| bit(a, i as i32 + 1);
            let w: usize = (0..n).filter(|i| sel(*i)).map(|i| weights[i]).sum();
            let c: Vec<i64> = values.iter().map(|v| (0..n).filter(|i| !sel(*i)).map(|i| v[i] as i64).sum()).collect();
            (w <= cap).then(|| if single { vec![c.iter().sum()] } else { c })
        };
        let d = if pb {
            read_opb(&u, r, o)?
        } else {
            done(&u, r)?;
            let text = strict(&u, u.result(r))?;
            strict(&u, strict_dimacs(if single { Fmt::WcnfNew } else { Fmt::Mcnf }, &text).map_err(|e| format!("{e}: {text:?}")))?.0
        };
        compare(&u, "knapsack", &d, n, if single { 1 } else { k }, want)
    })
}

pub fn assignment(sim: &mut Sim) -> Outcome {
    let mut u = Use::new("encodings");
    out_to(sim, &mut u);
    u.arg("pb");
    let o = pb_opts(sim, &mut u);
    u.arg("assignment");
    let n = sim.range(1, 3);
    let k = sim.range(1, 3);
    let cost: Vec<Vec<Vec<usize>>> = (0..k).map(|_| (0..n).map(|_| (0..n).map(|_| sim.range(0, 20)).collect()).collect()).collect();
    let mut t = String::new();
    for x in [k, n] {
        t.push_str(&x.to_string());
        t.push_str(noise(sim, true));
    }
    t.push('[');
    let own_line = sim.coin();
    for (i, m) in cost.iter().enumerate() {
        t.push('[');
        for (j, r) in m.iter().enumerate() {
            t.push_str(&format!("[{}]{}", join(r, ", "), if j + 1 < n { ",\n" } else { "]" }));
        }
        t.push_str(match (i + 1 < k, own_line) {
            (true, true) => "\n,\n",
            (true, false) => ",\n",
            (false, true) => "\n]\n",
            (false, false) => "]\n",
        });
    }
    let damaged = match sim.choose(3) {
        0 => cut(sim, &t),
        1 => {
            // a whole row is missing
            let mut l: Vec<&str> = t.lines().collect();
            let rows: Vec<usize> = (0..l.len()).filter(|i| l[*i].starts_with('[') && l[*i].ends_with("],")).collect();
            if rows.is_empty() || n < 2 {
                None
            } else {
                l.remove(*sim.pick(&rows));
                Some(l.join("\n"))
            }
        }
        _ => {
            if n > 1 {
                drop_number(sim, &t, 2)
            } else {
                None
            }
        }
    };
    feed(sim, &mut u, &t, damaged);
    check(sim, &u, |_, r| {
        let d = read_opb(&u, r, o)?;
        compare(&u, "assignment", &d, n * n, k, |a| {
            let on = |t: usize, g: usize| bit(a, (t * n + g) as i32 + 1);
            let ok = (0..n).all(|t| (0..n).filter(|g| on(t, *g)).count() == 1) && (0..n).all(|g| (0..n).filter(|t| on(*t, g)).count() == 1);
            ok.then(|| cost.iter().map(|m| (0..n).flat_map(|t| (0..n).map(move |g| (t, g))).filter(|(t, g)| on(*t, *g)).map(|(t, g)| m[t][g] as i64).sum()).collect())
        })
    })
}

pub fn facility_location(sim: &mut Sim) -> Outcome {
    let mut u = Use::new("encodings");
    out_to(sim, &mut u);
    u.arg("pb");
    let o = pb_opts(sim, &mut u);
    u.arg("facility-location");
    let nc = sim.range(1, 3);
    let nf = sim.range(1, 3);
    let sc: Vec<Vec<Vec<usize>>> = (0..2).map(|_| (0..nc).map(|_| (0..nf).map(|_| sim.range(0, 20)).collect()).collect()).collect();
    let oc: Vec<Vec<usize>> = (0..2).map(|_| (0..nf).map(|_| sim.range(0, 20)).collect()).collect();
    let mut t = format!("{nc}\n{nf}\n");
    let sep = *sim.pick(&[" ", "  ", "\t"]);
    for m in &sc {
        t.push('\n');
        for r in m {
            t.push_str(&format!("{}{}{}\n", sim.pick(&["", "", " "]), join(r, sep), sim.pick(&["", "", " "])));
        }
    }
    for r in &oc {
        t.push_str(&format!("\n{}\n", join(r, sep)));
    }
    let damaged = if sim.coin() {
        drop_number(sim, &t, 0)
    } else {
        // cut off at the end of a line
        let l: Vec<&str> = t.lines().collect();
        Some(l[..sim.idx(l.len())].join("\n"))
    };
    feed(sim, &mut u, &t, damaged);
    check(sim, &u, |_, r| {
        let d = read_opb(&u, r, o)?;
        compare(&u, "facility-location", &d, (nc + 1) * nf, 2, |a| {
            let on = |c: usize, f: usize| bit(a, (c * nf + f) as i32 + 1);
            let open = |f: usize| bit(a, (nc * nf + f) as i32 + 1);
            let ok = (0..nc).all(|c| (0..nf).filter(|f| on(c, *f)).count() == 1 && (0..nf).all(|f| !on(c, f) || open(f)));
            ok.then(|| {
                (0..2)
                    .map(|k| {
                        let s: usize = (0..nc).flat_map(|c| (0..nf).map(move |f| (c, f))).filter(|(c, f)| on(*c, *f)).map(|(c, f)| sc[k][c][f]).sum();
                        let p: usize = (0..nf).filter(|f| open(*f)).map(|f| oc[k][f]).sum();
                        (s + p) as i64
                    })
                    .collect()
            })
        })
    })
}

pub fn clustering(sim: &mut Sim) -> Outcome {
    let mut u = Use::new("encodings");
    out_to(sim, &mut u);
    u.arg("cnf");
    let mut single = false;
    if sim.chance(1, 4) {
        single = true;
        u.arg(*sim.pick(&["-s", "--single-objective"]));
    }
    u.arg("clustering");
    if sim.chance(1, 5) {
        single = true;
        u.arg("--single-objective");
    }
    let (mut mult, mut off, mut dc, mut hard) = (1000i64, 500i64, 1i64, 499i64);
    if sim.coin() {
        (mult, off) = (100, sim.irange(0, 80));
        u.arg("--multiplier").arg(mult.to_string()).arg("--offset").arg(off.to_string());
    }
    if sim.coin() {
        dc = sim.irange(1, 20);
        hard = sim.irange(20, 60);
        u.arg("--dont-care").arg(dc.to_string()).arg("--hard-threshold").arg(hard.to_string());
    }
    let n = sim.range(2, 4);
    let names = ["a", "node_1", "7", "B2"];
    let mut t = String::new();
    let mut sims: Vec<Vec<Option<i64>>> = vec![vec![None; n]; n];
    let mut seen = BTreeSet::new();
    for i in 0..n {
        for j in i + 1..n {
            // each node has to appear
            if sim.chance(1, 5) && seen.contains(&i) && seen.contains(&j) {
                continue;
            }
            seen.extend([i, j]);
            let hundredths = *sim.pick(&[0, 100, 50, 51, 49, 10, 90, 30, 70, 62, 37]);
            let txt = match sim.choose(3) {
                0 => format!("{}", hundredths as f64 / 100.0),
                1 => format!("{:.2}", hundredths as f64 / 100.0),
                _ => format!("{}e-2", hundredths),
            };
            let s = txt.parse::<f64>().unwrap();
            let m = (s * mult as f64).trunc() as i64 - off;
            sims[i][j] = Some(m);
            if sim.chance(1, 6) {
                t.push_str("% a comment\n");
            }
            if sim.chance(1, 6) {
                t.push_str(&format!("{0} {0} 1.0\n", names[i]));
            }
            let (p, q) = if sim.coin() { (i, j) } else { (j, i) };
            let sp = *sim.pick(&[" ", "  ", "\t"]);
            t.push_str(&format!("{}{sp}{}{sp}{txt}\n", names[p], names[q]));
        }
    }
    let damaged = if sim.coin() {
        let l: Vec<&str> = t.lines().collect();
        let k = sim.idx(l.len());
        let bad = *sim.pick(&["a b", "a b c", "a  0.5", "a b 0.5 0.5", "a;b;0.5"]);
        Some([&l[..k], &[bad], &l[k..]].concat().join("\n"))
    } else {
        None
    };
    feed(sim, &mut u, &t, damaged);
    // the possible pairs of costs over all partitions
    let mut want = BTreeSet::new();
    for code in 0..(n as u64).pow(n as u32) {
        let label = |i: usize| code / (n as u64).pow(i as u32) % n as u64;
        let (mut c1, mut c2, mut ok) = (0, 0, true);
        for i in 0..n {
            for j in i + 1..n {
                let Some(m) = sims[i][j] else { continue };
                let same = label(i) == label(j);
                if m.abs() < dc {
                } else if m.abs() > hard {
                    ok &= (m > 0) == same;
                } else if m > 0 && !same {
                    c1 += m;
                } else if m <= 0 && same {
                    c2 -= m;
                }
            }
        }
        if ok {
            want.insert(if single { vec![c1 + c2] } else { vec![c1, c2] });
        }
    }
    check(sim, &u, |_, r| {
        done(&u, r)?;
        let text = strict(&u, u.result(r))?;
        let (mut d, _) = strict(&u, strict_dimacs(if single { Fmt::WcnfNew } else { Fmt::Mcnf }, &text).map_err(|e| format!("{e}: {text:?}")))?;
        let k = if single { 1 } else { 2 };
        // an objective without soft clauses cannot be seen
        d.objs.resize(k.max(d.objs.len()), Obj::default());
        ensure!(d.objs.len() == k, "tool:encodings:clustering:objectives", "{:?}: {} objectives: {text:?}", u.args, d.objs.len());
        let softs: Vec<(usize, i64, i32)> = d.objs.iter().enumerate().flat_map(|(i, o)| o.softs.iter().map(move |s| (i, s.0, s.1[0]))).collect();
        if softs.len() > 8 || d.objs.iter().any(|o| o.softs.iter().any(|s| s.1.len() != 1)) {
            bail!("tool:encodings:clustering:softs", "{:?}: soft clauses {:?}", u.args, d.objs);
        }
        let cls: Vec<Vec<i32>> = d.cons.iter().map(|c: &Con| c.terms.iter().map(|t| t.1).collect()).collect();
        let mut s = Sat::of(&cls);
        let mut got = BTreeSet::new();
        for pat in 0..1u32 << softs.len() {
            let asm: Vec<i32> = softs.iter().enumerate().map(|(i, x)| if pat >> i & 1 == 1 { x.2 } else { -x.2 }).collect();
            if s.is_sat(&asm) {
                let mut c = vec![0; k];
                for (i, x) in softs.iter().enumerate() {
                    if pat >> i & 1 == 0 {
                        c[x.0] += x.1;
                    }
                }
                got.insert(c);
            }
        }
        ensure!(got == want, "tool:encodings:clustering:costs", "{:?}: the clusterings have the costs {want:?}, the encoding {got:?}; data {t:?}, {text:?}", u.args);
        Ok(())
    })
}
