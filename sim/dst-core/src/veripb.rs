//! A small checker for pseudo-Boolean proofs (VeriPB 2.0 syntax), independent of the code under test.
//!
//! It covers what a proof about fresh definitions and cutting planes needs: `f`, `pol`, `rup`,
//! `red` (obligations discharged by propagation), `del id`, `e`, comments and the final lines.
use std::collections::BTreeMap;

/// `sum of |c| * literal >= rhs`, where the sign of `c` is the sign of the literal
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Ineq {
    pub t: BTreeMap<u32, i128>,
    pub rhs: i128,
}

impl Ineq {
    pub fn of(terms: &[(i128, i32)], rhs: i128) -> Ineq {
        let mut r = Ineq { t: BTreeMap::new(), rhs };
        for &(c, l) in terms {
            r.add_term(c, l);
        }
        r
    }
    /// adds `c * l` to the left hand side
    fn add_term(&mut self, c: i128, l: i32) {
        let (mut c, mut l) = (c, l);
        if c < 0 {
            // c * l = c + |c| * ~l
            self.rhs -= c;
            c = -c;
            l = -l;
        }
        let s = if l > 0 { c } else { -c };
        let e = self.t.entry(l.unsigned_abs()).or_insert(0);
        if (*e > 0) != (s > 0) && *e != 0 {
            self.rhs -= e.abs().min(c);
        }
        *e += s;
        if *e == 0 {
            self.t.remove(&l.unsigned_abs());
        }
    }
    fn add(&mut self, o: &Ineq) {
        self.rhs += o.rhs;
        for (v, c) in &o.t {
            self.add_term(c.abs(), if *c > 0 { *v as i32 } else { -(*v as i32) });
        }
    }
    fn negated(&self) -> Ineq {
        let sum: i128 = self.t.values().map(|c| c.abs()).sum();
        Ineq { t: self.t.iter().map(|(v, c)| (*v, -c)).collect(), rhs: sum - self.rhs + 1 }
    }
    fn saturate(&mut self) {
        let r = self.rhs.max(0);
        for c in self.t.values_mut() {
            *c = (*c).clamp(-r, r);
        }
        self.t.retain(|_, c| *c != 0);
    }
    fn clip(&mut self) {
        self.rhs = self.rhs.max(0);
    }
    /// whether falsifying all literals of the clause violates this constraint
    pub fn implies_clause(&self, cl: &[i32]) -> bool {
        if cl.iter().any(|l| cl.contains(&-l)) {
            return true;
        }
        let max: i128 = self
            .t
            .iter()
            .filter(|(v, c)| !cl.contains(&(if **c > 0 { **v as i32 } else { -(**v as i32) })))
            .map(|(_, c)| c.abs())
            .sum();
        max < self.rhs
    }
    fn subst(&self, w: &BTreeMap<u32, Sub>) -> Ineq {
        let mut r = Ineq { t: BTreeMap::new(), rhs: self.rhs };
        for (v, c) in &self.t {
            let pos = *c > 0;
            match w.get(v) {
                None => r.add_term(c.abs(), if pos { *v as i32 } else { -(*v as i32) }),
                Some(Sub::Val(b)) => {
                    if *b == pos {
                        r.rhs -= c.abs();
                    }
                }
                Some(Sub::Lit(l)) => r.add_term(c.abs(), if pos { *l } else { -*l }),
            }
        }
        r
    }
}

#[derive(Clone, Copy, Debug)]
enum Sub {
    Val(bool),
    Lit(i32),
}

/// whether unit propagation over the constraints reaches a contradiction
fn conflict(cs: &[&Ineq]) -> bool {
    let mut a: BTreeMap<u32, bool> = BTreeMap::new();
    loop {
        let mut changed = false;
        for c in cs {
            let mut slack = -c.rhs;
            for (v, k) in &c.t {
                if a.get(v).is_none_or(|b| *b == (*k > 0)) {
                    slack += k.abs();
                }
            }
            if slack < 0 {
                return true;
            }
            for (v, k) in &c.t {
                if k.abs() > slack && !a.contains_key(v) {
                    a.insert(*v, *k > 0);
                    changed = true;
                }
            }
        }
        if !changed {
            return false;
        }
    }
}

pub struct Checked {
    /// constraint of every identifier, `None` once deleted
    pub db: Vec<Option<Ineq>>,
    /// constraint of every identifier, deleted or not
    pub ever: Vec<Ineq>,
    pub concluded: bool,
    pub steps: usize,
}

fn parse_lit(s: &str) -> Result<i32, String> {
    let (neg, n) = s.strip_prefix('~').map_or((false, s), |r| (true, r));
    let v: i32 = if let Some(r) = n.strip_prefix("pv") {
        1_000_000 + r.parse::<i32>().map_err(|_| format!("literal {s:?}"))?
    } else {
        n.strip_prefix('x').and_then(|r| r.parse::<i32>().ok()).filter(|v| *v > 0).ok_or_else(|| format!("literal {s:?}"))?
    };
    Ok(if neg { -v } else { v })
}

pub fn parse_ineq(s: &str) -> Result<Ineq, String> {
    let w: Vec<&str> = s.split_whitespace().collect();
    let p = w.iter().position(|x| *x == ">=").ok_or_else(|| format!("no relation in {s:?}"))?;
    if p % 2 != 0 || p + 2 != w.len() {
        return Err(format!("constraint {s:?}"));
    }
    let mut t = vec![];
    for k in (0..p).step_by(2) {
        t.push((w[k].parse::<i128>().map_err(|_| format!("coefficient in {s:?}"))?, parse_lit(w[k + 1])?));
    }
    Ok(Ineq::of(&t, w[p + 1].parse().map_err(|_| format!("degree in {s:?}"))?))
}

/// Checks a proof over a formula; `partial` accepts a proof that was cut off between two lines
pub fn check(formula: &[Ineq], text: &str, partial: bool) -> Result<Checked, String> {
    let mut c = Checked { db: vec![None], ever: vec![Ineq::default()], concluded: false, steps: 0 };
    for f in formula {
        c.db.push(Some(f.clone()));
        c.ever.push(f.clone());
    }
    let mut lines: Vec<&str> = text.split('\n').collect();
    let last = lines.pop().unwrap_or("");
    if !last.is_empty() && !partial {
        return Err(format!("the last line {last:?} is not complete"));
    }
    let mut it = lines.into_iter();
    match it.next() {
        Some("pseudo-Boolean proof version 2.0") => (),
        None if partial => return Ok(c),
        x => return Err(format!("header {x:?}")),
    }
    let mut seen_f = false;
    let mut tail = vec![];
    for line in it {
        let (key, rest) = line.split_once(' ').unwrap_or((line, ""));
        if !seen_f && key != "f" {
            return Err(format!("expected the number of constraints, but found {line:?}"));
        }
        if !tail.is_empty() && !["output", "conclusion", "end"].contains(&key) {
            return Err(format!("{line:?} after the conclusion"));
        }
        c.steps += 1;
        let e = |m: String| format!("line {line:?}: {m}");
        match key {
            "f" => {
                seen_f = true;
                if rest.trim().parse() != Ok(formula.len()) {
                    return Err(e("wrong number of constraints".into()));
                }
            }
            "*" => (),
            "pol" | "p" => {
                let r = c.pol(rest).map_err(e)?;
                c.push(r);
            }
            "rup" | "u" => {
                let (con, hints) = rest.split_once(';').ok_or_else(|| e("no ;".into()))?;
                let con = parse_ineq(con).map_err(e)?;
                let neg = con.negated();
                let mut cs = vec![&neg];
                if hints.trim().is_empty() {
                    cs.extend(c.db.iter().flatten());
                } else {
                    for h in hints.split_whitespace() {
                        cs.push(c.get(h).map_err(e)?);
                    }
                }
                if !conflict(&cs) {
                    return Err(e(format!("does not follow by propagation; the constraints used are {cs:?}")));
                }
                c.push(con);
            }
            "red" => {
                let (con, w) = rest.split_once(';').ok_or_else(|| e("no ;".into()))?;
                let con = parse_ineq(con).map_err(e)?;
                if w.contains(';') {
                    return Err(e("subproofs are not supported by this checker".into()));
                }
                c.red(&con, w).map_err(e)?;
                c.push(con);
            }
            "del" => {
                let r = rest.strip_prefix("id ").and_then(|r| r.split_once(';')).ok_or_else(|| e("unknown form".into()))?;
                if !r.1.trim().is_empty() {
                    return Err(e("subproof".into()));
                }
                let ids: Vec<&str> = r.0.split_whitespace().collect();
                for id in ids {
                    c.get(id).map_err(e)?;
                    let k: usize = id.parse().map_err(|_| e("relative identifier".into()))?;
                    if k <= formula.len() {
                        return Err(e("deletes a constraint of the formula".into()));
                    }
                    c.db[k] = None;
                }
            }
            "e" => {
                let (con, id) = rest.split_once(';').ok_or_else(|| e("no ;".into()))?;
                let con = parse_ineq(con).map_err(e)?;
                let mut d = c.get(id.trim()).map_err(e)?.clone();
                d.clip();
                let mut con = con;
                con.clip();
                if con != d {
                    return Err(e(format!("the constraint is {d:?}")));
                }
            }
            "output" | "conclusion" | "end" => tail.push(line.to_string()),
            _ => return Err(e("unknown step".into())),
        }
    }
    if !partial || !tail.is_empty() {
        if tail != ["output NONE", "conclusion NONE", "end pseudo-Boolean proof"] {
            if !partial {
                return Err(format!("the proof ends with {tail:?}"));
            }
        } else {
            c.concluded = true;
        }
    }
    Ok(c)
}

impl Checked {
    /// a database of constraints without any proof
    pub fn over(formula: &[Ineq]) -> Checked {
        let mut c = Checked { db: vec![None], ever: vec![Ineq::default()], concluded: false, steps: 0 };
        for f in formula {
            c.push(f.clone());
        }
        c
    }
    pub fn push(&mut self, mut c: Ineq) {
        c.clip();
        self.ever.push(c.clone());
        self.db.push(Some(c));
    }
    fn get(&self, id: &str) -> Result<&Ineq, String> {
        let k: i64 = id.parse().map_err(|_| format!("identifier {id:?}"))?;
        let k = if k < 0 { self.db.len() as i64 + k } else { k };
        if k <= 0 || k >= self.db.len() as i64 {
            return Err(format!("there is no constraint {id}"));
        }
        self.db[k as usize].as_ref().ok_or_else(|| format!("constraint {id} was deleted"))
    }
    pub fn pol(&self, ops: &str) -> Result<Ineq, String> {
        let mut st: Vec<Ineq> = vec![];
        let mut num: Option<i128> = None;
        for w in ops.split_whitespace() {
            // a number is an identifier unless the next word is an operator using it
            if let Some(n) = num.take() {
                match w {
                    "*" => {
                        let x = st.last_mut().ok_or("empty stack")?;
                        if n <= 0 {
                            return Err(format!("factor {n}"));
                        }
                        for c in x.t.values_mut() {
                            *c *= n;
                        }
                        x.rhs *= n;
                        continue;
                    }
                    "d" => {
                        let x = st.last_mut().ok_or("empty stack")?;
                        if n <= 0 {
                            return Err(format!("divisor {n}"));
                        }
                        x.clip();
                        for c in x.t.values_mut() {
                            *c = c.signum() * ((c.abs() + n - 1) / n);
                        }
                        x.rhs = (x.rhs + n - 1) / n;
                        continue;
                    }
                    _ => st.push(self.get(&n.to_string())?.clone()),
                }
            }
            match w {
                "+" => {
                    let b = st.pop().ok_or("empty stack")?;
                    let a = st.last_mut().ok_or("empty stack")?;
                    a.add(&b);
                }
                "s" => st.last_mut().ok_or("empty stack")?.saturate(),
                _ => {
                    if let Ok(n) = w.parse::<i128>() {
                        num = Some(n);
                    } else {
                        st.push(Ineq::of(&[(1, parse_lit(w)?)], 0));
                    }
                }
            }
        }
        if let Some(n) = num {
            st.push(self.get(&n.to_string())?.clone());
        }
        if st.len() != 1 {
            return Err(format!("{} constraints are left on the stack", st.len()));
        }
        Ok(st.pop().unwrap())
    }
    fn red(&self, con: &Ineq, w: &str) -> Result<(), String> {
        let mut map: BTreeMap<u32, Sub> = BTreeMap::new();
        let words: Vec<&str> = w.split_whitespace().collect();
        if words.len() % 3 != 0 {
            return Err(format!("witness {w:?}"));
        }
        for k in words.chunks(3) {
            let v = parse_lit(k[0])?;
            if v < 0 || k[1] != "->" {
                return Err(format!("witness {w:?}"));
            }
            let s = match k[2] {
                "0" => Sub::Val(false),
                "1" => Sub::Val(true),
                l => Sub::Lit(parse_lit(l)?),
            };
            map.insert(v as u32, s);
        }
        let neg = con.negated();
        if conflict(&[&neg]) {
            return Ok(());
        }
        for d in self.db.iter().flatten().chain([con]) {
            if !map.keys().any(|v| d.t.contains_key(v)) && !std::ptr::eq(d, con) {
                continue;
            }
            let goal = d.subst(&map);
            if goal.rhs <= 0 {
                continue;
            }
            let ng = goal.negated();
            let mut sum = ng.clone();
            sum.add(&neg);
            if conflict(&[&neg, &ng, &sum]) {
                continue;
            }
            let mut cs: Vec<&Ineq> = vec![&neg, &ng];
            cs.extend(self.db.iter().flatten());
            if !conflict(&cs) {
                return Err(format!("{con:?} is not redundant: {d:?} does not hold after the substitution"));
            }
        }
        Ok(())
    }
}
