//! Reference models, written independently of the code under test: a small SAT decision procedure
//! (conflict driven clause learning) and strict parsers for the formats the simulated parties speak.
//! Literals are DIMACS integers.

/// Conflict driven search over clauses of DIMACS literals
#[derive(Default, Clone)]
pub struct Sat {
    n: usize,
    clauses: Vec<Vec<i32>>,
    learnt: Vec<bool>,
    watch: Vec<Vec<u32>>,
    units: Vec<i32>,
    empty: bool,
    val: Vec<i8>,
    phase: Vec<bool>,
    level: Vec<u32>,
    reason: Vec<u32>,
    activity: Vec<f64>,
    inc: f64,
    trail: Vec<i32>,
    lims: Vec<usize>,
    seen: Vec<bool>,
    pub conflicts: u64,
}

const NONE: u32 = u32::MAX;

fn li(l: i32) -> usize {
    (l.unsigned_abs() as usize) * 2 + usize::from(l < 0)
}

fn vi(l: i32) -> usize {
    l.unsigned_abs() as usize
}

impl Sat {
    pub fn new() -> Self {
        Self::default()
    }

    fn grow(&mut self, v: usize) {
        if v > self.n || self.val.is_empty() {
            self.n = self.n.max(v);
            let m = self.n + 1;
            self.val.resize(m, 0);
            self.phase.resize(m, false);
            self.level.resize(m, 0);
            self.reason.resize(m, NONE);
            self.activity.resize(m, 0.0);
            self.seen.resize(m, false);
            self.watch.resize(2 * m, vec![]);
        }
    }

    pub fn n_vars(&self) -> usize {
        self.n
    }

    pub fn add(&mut self, cl: &[i32]) {
        let mut c: Vec<i32> = cl.to_vec();
        c.sort_unstable_by_key(|l| (l.unsigned_abs(), *l));
        c.dedup();
        for l in &c {
            assert!(*l != 0);
            self.grow(vi(*l));
        }
        if c.windows(2).any(|w| w[0] == -w[1]) {
            return;
        }
        match c.len() {
            0 => self.empty = true,
            1 => self.units.push(c[0]),
            _ => {
                self.attach(c, false);
            }
        }
    }

    fn attach(&mut self, c: Vec<i32>, learnt: bool) -> u32 {
        let i = self.clauses.len() as u32;
        self.watch[li(c[0])].push(i);
        self.watch[li(c[1])].push(i);
        self.clauses.push(c);
        self.learnt.push(learnt);
        i
    }

    pub fn of(cls: &[Vec<i32>]) -> Self {
        let mut s = Self::new();
        for c in cls {
            s.add(c);
        }
        s
    }

    fn value(&self, l: i32) -> i8 {
        let v = self.val[vi(l)];
        if l < 0 {
            -v
        } else {
            v
        }
    }

    fn set(&mut self, l: i32, reason: u32) {
        let v = vi(l);
        self.val[v] = if l > 0 { 1 } else { -1 };
        self.level[v] = self.lims.len() as u32;
        self.reason[v] = reason;
        self.trail.push(l);
    }

    fn assign(&mut self, l: i32) -> bool {
        match self.value(l) {
            1 => true,
            -1 => false,
            _ => {
                self.set(l, NONE);
                true
            }
        }
    }

    /// `None` or the conflicting clause
    fn propagate(&mut self, mut head: usize, original_only: bool) -> Option<u32> {
        while head < self.trail.len() {
            let f = -self.trail[head];
            head += 1;
            let mut ws = std::mem::take(&mut self.watch[li(f)]);
            let mut i = 0;
            let mut conflict = None;
            while i < ws.len() {
                let ci = ws[i] as usize;
                if original_only && self.learnt[ci] {
                    i += 1;
                    continue;
                }
                let other = {
                    let c = &mut self.clauses[ci];
                    if c[0] == f {
                        c.swap(0, 1);
                    }
                    c[0]
                };
                if self.value(other) == 1 {
                    i += 1;
                    continue;
                }
                let mut moved = false;
                for k in 2..self.clauses[ci].len() {
                    let l = self.clauses[ci][k];
                    if self.value(l) != -1 {
                        self.clauses[ci].swap(1, k);
                        self.watch[li(l)].push(ci as u32);
                        ws.swap_remove(i);
                        moved = true;
                        break;
                    }
                }
                if moved {
                    continue;
                }
                if self.value(other) == -1 {
                    conflict = Some(ci as u32);
                    break;
                }
                self.set(other, ci as u32);
                i += 1;
            }
            self.watch[li(f)] = ws;
            if conflict.is_some() {
                self.conflicts += 1;
                return conflict;
            }
        }
        None
    }

    fn undo(&mut self, to: usize) {
        while self.trail.len() > to {
            let l = self.trail.pop().unwrap();
            self.val[vi(l)] = 0;
            self.phase[vi(l)] = l > 0;
        }
    }

    fn backjump(&mut self, level: usize) {
        if self.lims.len() > level {
            let to = self.lims[level];
            self.lims.truncate(level);
            self.undo(to);
        }
    }

    fn reset(&mut self) {
        self.lims.clear();
        self.undo(0);
    }

    fn bump(&mut self, v: usize) {
        self.activity[v] += self.inc;
        if self.activity[v] > 1e100 {
            for a in &mut self.activity {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
    }

    /// first unique implication point
    fn analyze(&mut self, mut confl: u32) -> (Vec<i32>, usize) {
        let cur = self.lims.len() as u32;
        let mut out = vec![0];
        let mut open = 0;
        let mut p = 0;
        let mut idx = self.trail.len();
        loop {
            for q in self.clauses[confl as usize].clone() {
                let v = vi(q);
                if q == p || self.seen[v] || self.level[v] == 0 {
                    continue;
                }
                self.seen[v] = true;
                self.bump(v);
                if self.level[v] >= cur {
                    open += 1;
                } else {
                    out.push(q);
                }
            }
            loop {
                idx -= 1;
                if self.seen[vi(self.trail[idx])] {
                    break;
                }
            }
            p = self.trail[idx];
            self.seen[vi(p)] = false;
            open -= 1;
            if open == 0 {
                break;
            }
            confl = self.reason[vi(p)];
        }
        out[0] = -p;
        for l in &out[1..] {
            self.seen[vi(*l)] = false;
        }
        let mut bl = 0;
        for k in 1..out.len() {
            let l = self.level[vi(out[k])] as usize;
            if l > bl {
                bl = l;
                out.swap(1, k);
            }
        }
        (out, bl)
    }

    /// A model (index 1..=n) of the clauses and assumptions, if there is one
    pub fn solve(&mut self, assumps: &[i32]) -> Option<Vec<bool>> {
        for &a in assumps {
            self.grow(vi(a));
        }
        self.grow(0);
        self.reset();
        if self.inc == 0.0 {
            self.inc = 1.0;
        }
        if self.empty {
            return None;
        }
        for k in 0..self.units.len() {
            if !self.assign(self.units[k]) {
                self.reset();
                return None;
            }
        }
        let mut head = 0;
        loop {
            if let Some(c) = self.propagate(head, false) {
                if self.lims.is_empty() {
                    self.empty = true;
                    self.reset();
                    return None;
                }
                let (cl, bl) = self.analyze(c);
                self.backjump(bl);
                head = self.trail.len();
                if cl.len() == 1 {
                    self.units.push(cl[0]);
                    self.assign(cl[0]);
                } else {
                    let l = cl[0];
                    let r = self.attach(cl, true);
                    self.set(l, r);
                }
                self.inc *= 1.05;
                continue;
            }
            head = self.trail.len();
            if let Some(&a) = assumps.get(self.lims.len()) {
                let v = self.value(a);
                if v == -1 {
                    self.reset();
                    return None;
                }
                self.lims.push(self.trail.len());
                if v == 0 {
                    self.set(a, NONE);
                }
                continue;
            }
            let mut best = 0;
            for v in 1..=self.n {
                if self.val[v] == 0 && (best == 0 || self.activity[v] > self.activity[best]) {
                    best = v;
                }
            }
            if best == 0 {
                let m: Vec<bool> = self.val.iter().map(|&v| v == 1).collect();
                self.reset();
                return Some(m);
            }
            self.lims.push(self.trail.len());
            let l = best as i32;
            self.set(if self.phase[best] { l } else { -l }, NONE);
        }
    }

    pub fn is_sat(&mut self, assumps: &[i32]) -> bool {
        self.solve(assumps).is_some()
    }

    /// unit propagation only (over the clauses added): None on conflict, else the implied literals
    /// (assumptions included)
    ///
    /// Only to be used on a `Sat` that was never asked to solve, since solving may add units.
    pub fn up(&mut self, assumps: &[i32]) -> Option<Vec<i32>> {
        for &a in assumps {
            self.grow(vi(a));
        }
        self.grow(0);
        self.reset();
        if self.empty {
            return None;
        }
        for k in 0..self.units.len() {
            if !self.assign(self.units[k]) {
                self.reset();
                return None;
            }
        }
        for &a in assumps {
            if !self.assign(a) {
                self.reset();
                return None;
            }
        }
        let ok = self.propagate(0, true).is_none();
        let t = self.trail.clone();
        self.reset();
        ok.then_some(t)
    }
}

#[cfg(test)]
mod tests {
    /// compares with enumeration
    #[test]
    fn agrees_with_enumeration() {
        let mut r = 12345u64;
        let mut rnd = |n: u64| {
            r = crate::sim::mix(r, 1);
            r % n
        };
        let mut both = [0, 0];
        for _ in 0..20000 {
            let n = 1 + rnd(8);
            let mut s = super::Sat::new();
            let mut cls: Vec<Vec<i32>> = vec![];
            for _ in 0..4 {
                for _ in 0..rnd(14) {
                    let c: Vec<i32> = (0..1 + rnd(4)).map(|_| (1 + rnd(n)) as i32 * if rnd(2) == 0 { 1 } else { -1 }).collect();
                    s.add(&c);
                    cls.push(c);
                }
                let a: Vec<i32> = (0..rnd(4)).map(|_| (1 + rnd(n)) as i32 * if rnd(2) == 0 { 1 } else { -1 }).collect();
                let want = (0..1u64 << n).any(|m| {
                    let t = |l: &i32| (m >> (l.unsigned_abs() - 1) & 1 == 1) == (*l > 0);
                    a.iter().all(t) && cls.iter().all(|c| c.iter().any(t))
                });
                let got = s.solve(&a);
                assert_eq!(got.is_some(), want);
                both[usize::from(want)] += 1;
                if let Some(m) = got {
                    assert!(cls.iter().all(|c| super::clause_true(c, &m)));
                    assert!(a.iter().all(|l| super::clause_true(&[*l], &m)));
                }
            }
        }
        assert!(both[0] > 1000 && both[1] > 1000);
    }
}

/// truth of a clause under a total model (index = variable)
pub fn clause_true(c: &[i32], m: &[bool]) -> bool {
    c.iter().any(|&l| m[l.unsigned_abs() as usize] == (l > 0))
}

/// Strict DIMACS CNF reader (independent of rustsat's)
pub fn parse_cnf(s: &str) -> Result<(usize, Vec<Vec<i32>>), String> {
    let mut header = None;
    let mut cls = vec![];
    let mut cur = vec![];
    for line in s.lines() {
        let t = line.trim();
        if t.is_empty() || t.starts_with('c') {
            continue;
        }
        if t.starts_with('p') {
            let f: Vec<&str> = t.split_whitespace().collect();
            if header.is_some() || f.len() != 4 || f[1] != "cnf" {
                return Err(format!("bad p line {t:?}"));
            }
            header = Some((
                f[2].parse::<usize>().map_err(|e| e.to_string())?,
                f[3].parse::<usize>().map_err(|e| e.to_string())?,
            ));
            continue;
        }
        if header.is_none() {
            return Err("clause before p line".into());
        }
        for x in t.split_whitespace() {
            let l: i32 = x.parse().map_err(|_| format!("bad literal {x:?}"))?;
            if l == 0 {
                cls.push(std::mem::take(&mut cur));
            } else {
                cur.push(l);
            }
        }
    }
    if !cur.is_empty() {
        return Err("last clause not terminated".into());
    }
    let Some((nv, nc)) = header else {
        return Err("no p line".into());
    };
    if nc != cls.len() {
        return Err(format!("header promises {nc} clauses, found {}", cls.len()));
    }
    if let Some(m) = cls.iter().flatten().map(|l| l.unsigned_abs() as usize).max() {
        if m > nv {
            return Err(format!("variable {m} above the promised {nv}"));
        }
    }
    Ok((nv, cls))
}

/// multiset comparison of clause lists, literal order within clauses ignored
pub fn same_clauses(a: &[Vec<i32>], b: &[Vec<i32>]) -> bool {
    let norm = |x: &[Vec<i32>]| {
        let mut v: Vec<Vec<i32>> = x
            .iter()
            .map(|c| {
                let mut c = c.clone();
                c.sort_unstable();
                c
            })
            .collect();
        v.sort();
        v
    };
    norm(a) == norm(b)
}
