//! Strict readers of what the library or a tool wrote: nothing is accepted that is not exactly the format.
use crate::model::{Con, Doc, Obj, Op};
use crate::text::Fmt;
use rustsat::instances::fio::opb;

fn parse_clause(w: &[&str]) -> Result<Vec<i32>, String> {
    let v: Result<Vec<i32>, _> = w.iter().map(|x| x.parse::<i32>()).collect();
    let mut v = v.map_err(|e| format!("{e} in {w:?}"))?;
    if v.pop() != Some(0) || v.contains(&0) {
        return Err(format!("clause not ended by 0: {w:?}"));
    }
    Ok(v)
}

/// -> what the text says, and the offsets recorded in comments
pub fn strict_dimacs(f: Fmt, text: &str) -> Result<(Doc, Option<Vec<i64>>), String> {
    let mut d = Doc::default();
    let mut offs = None;
    let mut header = None;
    if f == Fmt::WcnfNew {
        d.objs.push(Obj::default());
    }
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("last line not ended".into());
    }
    for line in text.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            return Err("empty line".into());
        }
        if w[0] == "c" {
            let int = |x: &&str| x.parse::<i64>().map_err(|e| format!("{e} in {line}"));
            if line.starts_with("c objective offset: ") {
                offs = Some(vec![int(&w[3])?]);
            } else if line.starts_with("c objective offsets: (") {
                offs = Some(w[4..w.len() - 1].iter().map(int).collect::<Result<_, _>>()?);
            }
            continue;
        }
        match f {
            Fmt::Cnf => {
                if header.is_none() {
                    if w.len() != 4 || w[0] != "p" || w[1] != "cnf" {
                        return Err(format!("expected header, found {line:?}"));
                    }
                    header = Some((
                        w[2].parse::<i32>().map_err(|e| e.to_string())?,
                        w[3].parse::<usize>().map_err(|e| e.to_string())?,
                    ));
                    continue;
                }
                d.cons.push(Con::clause(&parse_clause(&w)?));
            }
            Fmt::WcnfNew | Fmt::Mcnf => {
                if w[0] == "h" {
                    d.cons.push(Con::clause(&parse_clause(&w[1..])?));
                } else if f == Fmt::WcnfNew {
                    let k = w[0].parse::<i64>().map_err(|e| format!("{e}: {line:?}"))?;
                    d.objs[0].softs.push((k, parse_clause(&w[1..])?));
                } else {
                    if w[0] != "o" || w.len() < 4 {
                        return Err(format!("bad line {line:?}"));
                    }
                    let oi = w[1].parse::<usize>().map_err(|e| format!("{e}: {line:?}"))?;
                    let k = w[2].parse::<i64>().map_err(|e| format!("{e}: {line:?}"))?;
                    if oi == 0 {
                        return Err("objective 0".into());
                    }
                    while d.objs.len() < oi {
                        d.objs.push(Obj::default());
                    }
                    d.objs[oi - 1].softs.push((k, parse_clause(&w[3..])?));
                }
            }
            _ => unreachable!(),
        }
    }
    if f == Fmt::Cnf {
        let Some((n, m)) = header else { return Err("no header".into()) };
        if m != d.cons.len() {
            return Err(format!("header announces {m} clauses, there are {}", d.cons.len()));
        }
        let mv = d.cons.iter().flat_map(|c| c.terms.iter().map(|t| t.1.abs())).max().unwrap_or(0);
        if mv > n {
            return Err(format!("header announces {n} variables, {mv} is used"));
        }
    }
    Ok((d, offs))
}

pub fn strict_opb(text: &str, o: opb::Options) -> Result<(Doc, Option<Vec<i64>>), String> {
    let mut d = Doc::default();
    let mut offs: Vec<i64> = vec![];
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("last line not ended".into());
    }
    let term = |c: &str, v: &str| -> Result<(i64, i32), String> {
        let c = c.parse::<i64>().map_err(|e| format!("{e}: {c}"))?;
        let (neg, v) = match v.strip_prefix('~') {
            Some(v) if !o.no_negated_lits => (true, v),
            Some(_) => return Err(format!("negated literal ~{v}")),
            None => (false, v),
        };
        let x = v.strip_prefix('x').ok_or(format!("no variable: {v}"))?;
        let x = x.parse::<i32>().map_err(|e| format!("{e}: {v}"))? - o.first_var_idx as i32;
        if x < 0 {
            return Err(format!("variable below the first: {v}"));
        }
        Ok((c, if neg { -x - 1 } else { x + 1 }))
    };
    let terms = |w: &[&str]| -> Result<Vec<(i64, i32)>, String> {
        if w.len() % 2 != 0 {
            return Err(format!("odd number of tokens {w:?}"));
        }
        w.chunks(2).map(|p| term(p[0], p[1])).collect()
    };
    for line in text.lines() {
        if let Some(c) = line.strip_prefix('*') {
            if let Some(x) = c.strip_prefix(" objective offset for previous objective: ") {
                *offs.last_mut().ok_or("offset before objective")? = x.parse::<i64>().map_err(|e| e.to_string())?;
            }
            continue;
        }
        let body = line.strip_suffix(';').ok_or(format!("no semicolon: {line:?}"))?;
        if body.contains(';') {
            return Err("two statements on a line".into());
        }
        if let Some(t) = body.strip_prefix("min:") {
            let w: Vec<&str> = t.split_whitespace().collect();
            let t = terms(&w)?;
            d.objs.push(Obj { softs: t.iter().map(|(c, l)| (*c, vec![-l])).collect(), offset: 0 });
            offs.push(0);
            continue;
        }
        let w: Vec<&str> = body.split_whitespace().collect();
        let Some(k) = w.iter().position(|x| *x == ">=" || *x == "=") else { return Err(format!("no operator in {line:?}")) };
        if k + 2 != w.len() {
            return Err(format!("malformed: {line:?}"));
        }
        let rhs = w[k + 1].parse::<i64>().map_err(|e| e.to_string())?;
        d.cons.push(Con { terms: terms(&w[..k])?, op: if w[k] == "=" { Op::Eq } else { Op::Ge }, rhs });
    }
    Ok((d, Some(offs)))
}
