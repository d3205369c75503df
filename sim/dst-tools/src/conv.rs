//! Conversion tools, judged by evaluating input and output on all assignments
use crate::model::{bit, Con, Doc, Obj, Op};
use crate::strict::{strict_dimacs, strict_opb};
use crate::text::{gen_text_with, Fmt, Text};
use crate::tool::{check, dir, Out, Use};
use crate::util::compress;
use rustsat::instances::fio::opb;
use simcore::reference::Sat;
use simcore::{bail, ensure, Outcome, Sim};

/// the highest variable that means something: with weight 0 in the objective only, a variable is none of
/// the instance
pub fn max_var(d: &Doc) -> usize {
    let a = d.cons.iter().flat_map(|c| c.terms.iter().map(|t| t.1));
    let b = d.objs.iter().flat_map(|o| o.softs.iter().filter(|s| s.0 != 0).flat_map(|s| s.1.iter().copied()));
    a.chain(b).map(|l| l.unsigned_abs() as usize).max().unwrap_or(0)
}

/// The instance as text, and how the tool gets it: as standard input or as a file, possibly compressed
pub struct Given {
    pub t: Text,
    pub file: bool,
}

pub fn give(sim: &mut Sim, u: &mut Use, fmt: Fmt, nv: usize, stdin_ok: bool, exts: &[&str]) -> Given {
    let t = gen_text_with(sim, fmt, nv);
    let file = !stdin_ok || sim.chance(3, 4);
    sim.ev(format!("{fmt:?} {:?}", t.text));
    if file {
        let ext = *sim.pick(&["", "", "", ".gz", ".bz2", ".xz"]);
        let p = dir().join(format!("in.{}{ext}", sim.pick(exts)));
        std::fs::write(&p, compress(ext.trim_start_matches('.'), t.text.as_bytes())).unwrap();
        u.arg(p.to_str().unwrap());
        if !ext.is_empty() {
            u.packed = Some(p);
        }
    } else {
        u.stdin = Some(t.text.clone().into_bytes());
    }
    Given { t, file }
}

pub fn out_to(sim: &mut Sim, u: &mut Use, g: &Given, ext: &str) {
    if g.file && sim.chance(2, 3) {
        let c = *sim.pick(&["", "", "", ".gz", ".bz2", ".xz"]);
        let p = dir().join(format!("out.{ext}{c}"));
        u.arg(p.to_str().unwrap());
        u.out = Some(p);
    }
}

fn done(u: &Use, o: &Out) -> Outcome {
    ensure!(o.code == Some(0), format!("tool:{}:fails", u.tool), "{} {:?} ends with status {:?} although nothing went wrong: {}", u.tool, u.args, o.code, o.stderr);
    Ok(())
}

/// the converted instance may use further variables; there is an extension of each solution with the
/// same costs, and none with lower costs
pub fn extends(u: &Use, want: &Doc, got: &Doc, nv: usize, text: &str) -> Outcome {
    let t = u.tool;
    ensure!(want.objs.len() == got.objs.len(), format!("tool:{t}:objectives"), "{t} {:?}: {} objectives become {}: {text:?}", u.args, want.objs.len(), got.objs.len());
    let n = max_var(got).max(nv);
    if n - nv > 14 {
        panic!("the harness cannot enumerate {n} variables");
    }
    for a in 0..1u64 << nv {
        let mut best: Option<Vec<i64>> = None;
        let mut hit = false;
        let w: Option<Vec<i64>> = want.feasible(a).then(|| want.objs.iter().map(|o| o.cost(a)).collect());
        for e in 0..1u64 << (n - nv) {
            let x = a | e << nv;
            if got.feasible(x) {
                let c: Vec<i64> = got.objs.iter().map(|o| o.cost(x)).collect();
                hit |= Some(&c) == w.as_ref();
                best = Some(match best {
                    None => c,
                    Some(b) => b.iter().zip(&c).map(|(x, y)| *x.min(y)).collect(),
                });
            }
        }
        if w.is_some() != best.is_some() {
            bail!(format!("tool:{t}:solutions"), "{t} {:?}: assignment {a:b} of {nv} variables: solution of the input {}, of the output {}; input {want:?}, output {text:?}", u.args, w.is_some(), best.is_some());
        }
        ensure!(w == best && (hit || w.is_none()), format!("tool:{t}:costs"), "{t} {:?}: costs of assignment {a:b}: {w:?} in the input, {best:?} in the output (attained: {hit}); input {want:?}, output {text:?}", u.args);
    }
    Ok(())
}

/// the same for outputs of clauses with any number of auxiliary variables that have no costs
pub fn via_sat(u: &Use, want: &Doc, got: &Doc, nv: usize, text: &str) -> Outcome {
    let t = u.tool;
    ensure!(want.objs.len() == got.objs.len(), format!("tool:{t}:objectives"), "{t} {:?}: {} objectives become {}: {text:?}", u.args, want.objs.len(), got.objs.len());
    let cls: Vec<Vec<i32>> = got.cons.iter().map(|c| c.terms.iter().map(|x| x.1).collect()).collect();
    let mut s = Sat::of(&cls);
    for o in &got.objs {
        for (_, c) in &o.softs {
            ensure!(c.iter().all(|l| l.unsigned_abs() as usize <= nv), format!("tool:{t}:soft-variables"), "{t} {:?}: soft clause over auxiliary variables: {text:?}", u.args);
        }
    }
    for a in 0..1u64 << nv {
        let asm: Vec<i32> = (1..=nv as i32).map(|v| if bit(a, v) { v } else { -v }).collect();
        let ok = s.is_sat(&asm);
        ensure!(ok == want.feasible(a), format!("tool:{t}:solutions"), "{t} {:?}: assignment {a:b} of {nv} variables: solution of the input {}, of the output {ok}; input {want:?}, output {text:?}", u.args, want.feasible(a));
        if ok {
            let (w, g): (Vec<i64>, Vec<i64>) = want.objs.iter().zip(&got.objs).map(|(x, y)| (x.cost(a), y.cost(a))).unzip();
            ensure!(w == g, format!("tool:{t}:costs"), "{t} {:?}: costs of assignment {a:b}: {w:?} in the input, {g:?} in the output; input {want:?}, output {text:?}", u.args);
        }
    }
    Ok(())
}

fn strict<T>(u: &Use, r: Result<T, String>, text: &str) -> Result<T, simcore::Violation> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => simcore::sim::violation(format!("tool:{}:format", u.tool), format!("{} {:?} writes {text:?}: {e}", u.tool, u.args)),
    }
}

fn with_offsets(d: &mut Doc, offs: Option<&Vec<i64>>) {
    for (o, x) in d.objs.iter_mut().zip(offs.into_iter().flatten()) {
        o.offset += x;
    }
}

/// objectives without soft clauses at the end cannot be written in MCNF, their offsets are in a comment
pub fn pad(got: &mut Doc, want: usize, offs: Option<&Vec<i64>>) {
    while got.objs.len() < want.min(offs.map_or(0, Vec::len)) {
        got.objs.push(Obj::default());
    }
}

pub fn to_opb(sim: &mut Sim) -> Outcome {
    let (tool, fmt, exts): (_, _, &[&str]) = match sim.choose(3) {
        0 => ("cnf2opb", Fmt::Cnf, &["cnf", "dimacs", "txt"]),
        1 => ("wcnf2opb", *sim.pick(&[Fmt::WcnfOld, Fmt::WcnfNew]), &["wcnf", "dimacs", "txt"]),
        _ => ("mcnf2opb", Fmt::Mcnf, &["mcnf", "dimacs", "txt"]),
    };
    let mut u = Use::new(tool);
    let mut o = opb::Options { first_var_idx: 1, no_negated_lits: false };
    if sim.coin() {
        o.first_var_idx = sim.choose(4) as u32;
        u.arg("--first-var-idx").arg(o.first_var_idx.to_string());
    }
    if sim.coin() {
        o.no_negated_lits = true;
        u.arg("--avoid-negated-lits");
    }
    let g = give(sim, &mut u, fmt, 4, true, exts);
    out_to(sim, &mut u, &g, "opb");
    let nv = max_var(&g.t.doc);
    check(sim, &u, |_, r| {
        done(&u, r)?;
        let text = strict(&u, u.result(r), "")?;
        let (mut d, offs) = strict(&u, strict_opb(&text, o), &text)?;
        with_offsets(&mut d, offs.as_ref());
        extends(&u, &g.t.doc, &d, nv, &text)
    })
}

pub fn from_opb(sim: &mut Sim) -> Outcome {
    let (tool, fmt, ext, out) = match sim.choose(3) {
        0 => ("opb2cnf", Fmt::OpbSat, "cnf", Fmt::Cnf),
        1 => ("opb2wcnf", Fmt::OpbOpt, "wcnf", Fmt::WcnfNew),
        _ => ("opb2mcnf", *sim.pick(&[Fmt::OpbOpt, Fmt::OpbMulti, Fmt::OpbMulti]), "mcnf", Fmt::Mcnf),
    };
    let mut u = Use::new(tool);
    let g = give(sim, &mut u, fmt, 4, true, &["opb", "mopb", "txt"]);
    out_to(sim, &mut u, &g, ext);
    if g.t.first_idx != 1 || sim.coin() {
        u.arg("--first-var-idx").arg(g.t.first_idx.to_string());
    }
    let nv = max_var(&g.t.doc);
    check(sim, &u, |_, r| {
        done(&u, r)?;
        let text = strict(&u, u.result(r), "")?;
        let (mut d, offs) = strict(&u, strict_dimacs(out, &text), &text)?;
        let want = g.t.doc.clone();
        if out == Fmt::Mcnf {
            pad(&mut d, want.objs.len(), offs.as_ref());
        }
        with_offsets(&mut d, offs.as_ref());
        via_sat(&u, &want, &d, nv, &text)
    })
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut r = vec![vec![]];
    for k in 0..n {
        r = r
            .into_iter()
            .flat_map(|p: Vec<usize>| {
                (0..=k).map(move |i| {
                    let mut q = p.clone();
                    q.insert(i, k);
                    q
                })
            })
            .collect();
    }
    r
}

pub fn shuffle(sim: &mut Sim) -> Outcome {
    let (fmt, ext, out) = *sim.pick(&[(Fmt::Cnf, "cnf", Fmt::Cnf), (Fmt::WcnfOld, "wcnf", Fmt::WcnfNew), (Fmt::WcnfNew, "wcnf", Fmt::WcnfNew), (Fmt::Mcnf, "mcnf", Fmt::Mcnf)]);
    let mut u = Use::new("shuffledimacs");
    let g = give(sim, &mut u, fmt, 4, false, &[ext]);
    let c = *sim.pick(&["", "", "", ".gz", ".bz2", ".xz"]);
    let p = dir().join(format!("out.{ext}{c}"));
    u.arg(p.to_str().unwrap());
    u.out = Some(p);
    let nv = g.t.header.map_or(0, |h| h.0 as usize).max(g.t.doc.nv);
    check(sim, &u, |sim, r| {
        done(&u, r)?;
        let text = strict(&u, u.result(r), "")?;
        let (mut d, offs) = strict(&u, strict_dimacs(out, &text), &text)?;
        if out == Fmt::Mcnf {
            pad(&mut d, g.t.doc.objs.len(), offs.as_ref());
        }
        with_offsets(&mut d, offs.as_ref());
        let want = &g.t.doc;
        ensure!(want.objs.len() == d.objs.len(), "tool:shuffledimacs:objectives", "{} objectives become {}: {text:?}", want.objs.len(), d.objs.len());
        ensure!(max_var(&d) <= nv, "tool:shuffledimacs:variables", "variables beyond {nv} in {text:?}");
        ensure!(want.cons.len() == d.cons.len(), "tool:shuffledimacs:clauses", "{} clauses become {}: {text:?}", want.cons.len(), d.cons.len());
        let wt = want.table(nv);
        let dt = d.table(nv);
        let ps = permutations(nv);
        let same = ps.iter().position(|p| {
            (0..1usize << nv).all(|a| {
                let b = (0..nv).fold(0, |b, i| if a >> i & 1 == 1 { b | 1 << p[i] } else { b });
                wt[a] == dt[b]
            })
        });
        match same {
            Some(0) => (),
            Some(_) => sim.probe("variables were permuted"),
            None => bail!("tool:shuffledimacs:solutions", "no renaming of the variables makes {text:?} equal to {want:?}"),
        }
        Ok(())
    })
}

/// `mo2ilp`: read the matrices back
pub fn ilp(sim: &mut Sim) -> Outcome {
    let fmt = *sim.pick(&[Fmt::Mcnf, Fmt::OpbMulti, Fmt::OpbOpt]);
    let mut u = Use::new("mo2ilp");
    let is_opb = fmt != Fmt::Mcnf;
    let given = sim.coin();
    if given {
        u.arg("--input-format").arg(if is_opb { "opb" } else { "mcnf" });
    }
    let bauss = sim.coin();
    if bauss {
        u.arg("--output-format").arg("bauss");
    } else if sim.coin() {
        u.arg("--output-format").arg("fgt");
    }
    let unused = *sim.pick(&["", "nothing", "remove", "assign-zero"]);
    if !unused.is_empty() {
        u.arg("--unused-vars").arg(unused);
    }
    let exts: &[&str] = match (given, is_opb) {
        (true, _) => &["txt", "opb", "mcnf"],
        (_, true) => &["opb", "mopb", "pbmo"],
        _ => &["mcnf"],
    };
    let g = give(sim, &mut u, fmt, 4, given, exts);
    out_to(sim, &mut u, &g, "ilp");
    if is_opb && (g.t.first_idx != 1 || sim.coin()) {
        u.arg("--first-var-idx").arg(g.t.first_idx.to_string());
    }
    let want = g.t.doc.clone();
    check(sim, &u, |_, r| {
        done(&u, r)?;
        let text = strict(&u, u.result(r), "")?;
        let d = strict(&u, read_ilp(&text, bauss, want.objs.len()), &text)?;
        // whether variables that only have zero coefficients are used is up to the tool
        let mut seen: Vec<Vec<i32>> = vec![];
        let mut first = None;
        for (zc, zo) in [(true, true), (true, false), (false, true), (false, false)] {
            let mut used: Vec<i32> = want.cons.iter().flat_map(|c| c.terms.iter().filter(|t| zc || t.0 != 0).map(|t| t.1.abs())).collect();
            used.extend(want.objs.iter().flat_map(|o| o.softs.iter().filter(|s| zo || s.0 != 0).flat_map(|s| s.1.iter().map(|l| l.abs()))));
            used.sort_unstable();
            used.dedup();
            if seen.contains(&used) {
                continue;
            }
            for top in [used.last().map_or(0, |v| *v as usize), max_var(&want)] {
                match ilp_as(&u, &want, &d, &used, top, unused, &text) {
                    Ok(()) => return Ok(()),
                    Err(e) => first = first.or(Some(e)),
                }
            }
            seen.push(used);
        }
        Err(first.unwrap())
    })
}

fn ilp_as(u: &Use, want: &Doc, d: &Doc, used: &[i32], top: usize, unused: &str, text: &str) -> Outcome {
    let mut want = want.clone();
    if unused == "remove" {
        // variables move up
        let f = |l: i32| -> Option<i32> { used.binary_search(&l.abs()).ok().map(|i| (i as i32 + 1) * l.signum()) };
        for c in &mut want.cons {
            c.terms = c.terms.iter().filter_map(|t| f(t.1).map(|l| (t.0, l))).collect();
        }
        for o in &mut want.objs {
            for s in &mut o.softs {
                s.1 = s.1.iter().filter_map(|l| f(*l)).collect();
            }
            o.softs.retain(|s| s.0 != 0);
        }
        return extends(u, &want, d, used.len(), text);
    }
    if unused != "nothing" {
        for v in 1..=top as i32 {
            if !used.contains(&v) {
                want.cons.push(Con::clause(&[-v]));
            }
        }
    }
    extends(u, &want, d, top, text)
}

fn read_ilp(text: &str, bauss: bool, n_objs: usize) -> Result<Doc, String> {
    let lines: Vec<&str> = text.lines().collect();
    let at = std::cell::Cell::new(0);
    let line = || -> Result<&str, String> {
        at.set(at.get() + 1);
        lines.get(at.get() - 1).copied().ok_or("ends early".to_string())
    };
    let ints = |want: Option<usize>| -> Result<Vec<i64>, String> {
        let l = line()?;
        let v: Vec<i64> = l.split_whitespace().map(|x| x.parse::<i64>().map_err(|e| format!("{e} in {l:?}"))).collect::<Result<_, _>>()?;
        match want {
            Some(n) if v.len() != n => Err(format!("expected {n} numbers: {l:?}")),
            _ => Ok(v),
        }
    };
    let head = ints(Some(if bauss { 5 } else { 3 }))?;
    let (n, m, k) = (head[0] as usize, head[1] as usize, head[2] as usize);
    if k != n_objs {
        return Err(format!("{k} objectives announced, there are {n_objs}"));
    }
    ints(Some(0))?;
    if !bauss {
        let w: Vec<&str> = line()?.split_whitespace().collect();
        if w.len() != k || w.iter().any(|x| *x != "minsum") {
            return Err(format!("objective types: {w:?}"));
        }
        ints(Some(0))?;
    }
    let terms = |r: &[i64]| -> Vec<(i64, i32)> { r.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, c)| (*c, i as i32 + 1)).collect() };
    let mut d = Doc::default();
    for _ in 0..k {
        let t = terms(&ints(Some(n))?);
        d.objs.push(Obj { softs: t.iter().map(|(c, l)| (*c, vec![-l])).collect(), offset: 0 });
    }
    ints(Some(0))?;
    let rows: Vec<_> = (0..m).map(|_| Ok(terms(&ints(Some(n))?))).collect::<Result<_, String>>()?;
    ints(Some(0))?;
    for terms in rows {
        let r = ints(Some(2))?;
        let op = match r[0] {
            0 => Op::Ge,
            1 => Op::Le,
            2 => Op::Eq,
            _ => return Err(format!("operator {}", r[0])),
        };
        d.cons.push(Con { terms, op, rhs: r[1] });
    }
    if !bauss {
        ints(Some(0))?;
        if ints(Some(n))?.iter().any(|x| *x != 0) || ints(Some(n))?.iter().any(|x| *x != 1) {
            return Err("variable bounds".into());
        }
    }
    if ints(None).is_ok() {
        return Err("text after the end".into());
    }
    if bauss {
        let nz: usize = d.cons.iter().map(|c| c.terms.len()).sum();
        let no: usize = d.objs.iter().map(|c| c.softs.len()).sum();
        if (head[3], head[4]) != (nz as i64, no as i64) {
            return Err(format!("{} and {} non-zeroes announced, there are {nz} and {no}", head[3], head[4]));
        }
    }
    Ok(d)
}

/// `gbmosplit`: lexicographic order of the objectives, last one first, is the order of the costs
pub fn split(sim: &mut Sim) -> Outcome {
    let opb_in = sim.coin();
    let fmt = if opb_in { Fmt::OpbOpt } else { *sim.pick(&[Fmt::WcnfOld, Fmt::WcnfNew, Fmt::WcnfNew]) };
    let mut u = Use::new("gbmosplit");
    let given = sim.coin();
    if given {
        u.arg("--input-format").arg(if opb_in { "opb" } else { "wcnf" });
    }
    let alg = *sim.pick(&["", "bmo", "gcd", "gbmo"]);
    if !alg.is_empty() {
        u.arg("--split-alg").arg(alg);
    }
    let of = *sim.pick(&["", "mcnf", "opb"]);
    if !of.is_empty() {
        u.arg("--output-format").arg(of);
    }
    let always = sim.coin();
    if always {
        u.arg("-d");
    }
    let few = sim.chance(1, 5);
    if few {
        u.arg("--max-combs").arg(sim.range(0, 5).to_string());
    }
    let opb_out = of == "opb" || (of.is_empty() && opb_in);
    let exts: &[&str] = match (given, opb_in) {
        (true, _) => &["txt", "wcnf", "opb"],
        (_, true) => &["opb"],
        _ => &["wcnf"],
    };
    let mut g = give(sim, &mut u, fmt, 4, given, exts);
    // weights for which there is something to split
    if sim.chance(3, 4) {
        let ws = *sim.pick(&[[1, 1, 3, 3, 7], [2, 2, 5, 10, 50], [1, 2, 4, 8, 16], [3, 6, 20, 40, 100], [1, 1, 3, 7, 30], [2, 3, 7, 14, 21]]);
        let mut t = Text { fmt: Fmt::WcnfNew, text: String::new(), ..g.t.clone() };
        let nv = t.doc.nv;
        t.doc.cons.retain(|c| c.op == Op::Ge && c.rhs == 1 && c.terms.iter().all(|x| x.0 == 1));
        t.doc.objs = vec![Obj::default()];
        if opb_in {
            t.text.push_str("min:");
        }
        let mut body = String::new();
        for w in ws.iter().take(sim.range(2, 5)) {
            let k = if opb_in { 1 } else { sim.range(1, 2) };
            let c: Vec<i32> = (0..k).map(|_| crate::model::gen_lit(sim, nv)).collect();
            if opb_in {
                t.text.push_str(&format!(" {w} {}x{}", if c[0] < 0 { "" } else { "~" }, c[0].unsigned_abs() - 1 + t.first_idx));
            } else {
                body.push_str(&format!("{w} {} 0\n", c.iter().map(i32::to_string).collect::<Vec<_>>().join(" ")));
            }
            t.doc.objs[0].softs.push((*w, c));
        }
        if opb_in {
            t.text.push_str(" ;\n");
        }
        for c in &t.doc.cons {
            if opb_in {
                for (_, l) in &c.terms {
                    body.push_str(&format!("1 {}x{} ", if *l < 0 { "~" } else { "" }, l.unsigned_abs() - 1 + t.first_idx));
                }
                body.push_str(">= 1 ;\n");
            } else {
                body.push_str(&format!("h {} 0\n", c.terms.iter().map(|t| t.1.to_string()).collect::<Vec<_>>().join(" ")));
            }
        }
        t.text.push_str(&body);
        sim.ev(format!("replaced by {:?}", t.text));
        if g.file {
            let p = std::path::PathBuf::from(u.args.last().unwrap());
            std::fs::write(&p, compress(crate::util::ext_of(p.to_str().unwrap()), t.text.as_bytes())).unwrap();
        } else {
            u.stdin = Some(t.text.clone().into_bytes());
        }
        g.t = t;
    }
    out_to(sim, &mut u, &g, if opb_out { "opb" } else { "mcnf" });
    let first = if opb_in { g.t.first_idx } else { sim.choose(3) as u32 };
    if first != 1 || sim.coin() {
        u.arg("--opb-first-var-idx").arg(first.to_string());
    }
    let want = &g.t.doc;
    let nv = max_var(want);
    check(sim, &u, |sim, r| {
        ensure!(r.code == Some(0) || r.code == Some(1), "tool:gbmosplit:fails", "{:?} ends with status {:?}: {}", u.args, r.code, r.stderr);
        ensure!(!r.stderr.contains("error"), "tool:gbmosplit:fails", "{:?} reports {} although nothing went wrong", u.args, r.stderr);
        let found = r.code == Some(0);
        // what has to be found: classic Boolean multilevel optimisation
        let mut softs: Vec<(Vec<i32>, i64)> = vec![];
        let mut clean = true;
        for (w, c) in &want.objs[0].softs {
            let mut c = c.clone();
            c.sort_unstable();
            clean &= *w > 0 && !c.is_empty() && c.windows(2).all(|p| p[0] != p[1]) && c.iter().all(|l| !c.contains(&-l));
            clean &= !softs.iter().any(|s| s.0 == c || (c.len() == 1 && s.0 == [-c[0]]));
            softs.push((c, *w));
        }
        let mut ws: Vec<i64> = softs.iter().map(|s| s.1).collect();
        ws.sort_unstable();
        let bmo = ws.len() > 1 && ws[0] != ws[ws.len() - 1] && (1..ws.len()).all(|i| ws[i] == ws[i - 1] || ws[i] > ws[..i].iter().sum::<i64>());
        if clean && bmo && alg == "bmo" {
            ensure!(found, "tool:gbmosplit:missed", "{:?}: weights {ws:?} are not split", u.args);
            sim.probe("multilevel instance split");
        }
        if !found && !always {
            ensure!(u.out.as_ref().is_none_or(|p| !p.exists()), "tool:gbmosplit:dumped", "{:?}: not split, but written", u.args);
            return Ok(());
        }
        let all = strict(&u, u.result(r), "")?;
        let text = all.clone();
        let mut d = if opb_out {
            let o = opb::Options { first_var_idx: first, no_negated_lits: false };
            strict(&u, strict_opb(&text, o), &text)?
        } else {
            strict(&u, strict_dimacs(Fmt::Mcnf, &text), &text)?
        };
        let offs = d.1.clone();
        with_offsets(&mut d.0, offs.as_ref());
        let d = d.0;
        if found {
            ensure!(d.objs.len() > 1, "tool:gbmosplit:objectives", "{:?}: split reported, {} objectives in {all:?}", u.args, d.objs.len());
            sim.probe("split");
        } else {
            ensure!(d.objs.len() <= 1, "tool:gbmosplit:objectives", "{:?}: no split reported, {} objectives in {all:?}", u.args, d.objs.len());
        }
        // for each assignment the lexicographically best extension
        let n = max_var(&d).max(nv);
        let mut rows: Vec<(i64, Vec<i64>, u64)> = vec![];
        let aux_sat = n - nv > 14;
        let mut s = Sat::of(&d.cons.iter().map(|c| c.terms.iter().map(|x| x.1).collect()).collect::<Vec<_>>());
        for a in 0..1u64 << nv {
            let best: Option<Vec<i64>> = if aux_sat || !opb_out {
                let asm: Vec<i32> = (1..=nv as i32).map(|v| if bit(a, v) { v } else { -v }).collect();
                ensure!(d.objs.iter().flat_map(|o| &o.softs).all(|s| s.1.iter().all(|l| l.unsigned_abs() as usize <= nv)), "tool:gbmosplit:soft-variables", "auxiliary variables in {all:?}");
                s.is_sat(&asm).then(|| d.objs.iter().rev().map(|o| o.cost(a)).collect())
            } else {
                (0..1u64 << (n - nv)).map(|e| a | e << nv).filter(|x| d.feasible(*x)).map(|x| d.objs.iter().rev().map(|o| o.cost(x)).collect::<Vec<i64>>()).min()
            };
            ensure!(best.is_some() == want.feasible(a), "tool:gbmosplit:solutions", "{:?}: assignment {a:b} of {nv} variables: solution of the input {}, of the output {}; input {want:?}, output {all:?}", u.args, want.feasible(a), best.is_some());
            if let Some(b) = best {
                rows.push((want.objs[0].cost(a), b, a));
            }
        }
        for x in &rows {
            for y in &rows {
                ensure!(x.0.cmp(&y.0) == x.1.cmp(&y.1), "tool:gbmosplit:order", "{:?}: costs of {:b} and {:b}: {} and {} in the input, {:?} and {:?} (most important first) in the output {all:?}, input {want:?}", u.args, x.2, y.2, x.0, y.0, x.1, y.1);
            }
        }
        Ok(())
    })
}
