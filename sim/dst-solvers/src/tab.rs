//! Reference model of a formula over few variables: the set of its satisfying assignments.
#[derive(Clone)]
pub struct Tab {
    pub n: usize,
    pub bits: Vec<u64>,
}

const PAT: [u64; 6] = [
    0xAAAA_AAAA_AAAA_AAAA,
    0xCCCC_CCCC_CCCC_CCCC,
    0xF0F0_F0F0_F0F0_F0F0,
    0xFF00_FF00_FF00_FF00,
    0xFFFF_0000_FFFF_0000,
    0xFFFF_FFFF_0000_0000,
];

impl Tab {
    /// All assignments of `n` variables
    pub fn all(n: usize) -> Self {
        let w = if n > 6 { 1 << (n - 6) } else { 1 };
        let full = if n >= 6 { u64::MAX } else { (1u64 << (1 << n)) - 1 };
        Tab { n, bits: vec![full; w] }
    }
    /// Word `w` of the assignments in which literal `l` (DIMACS, 1-based) is true
    fn lit(l: i32, w: usize) -> u64 {
        let v = l.unsigned_abs() as usize - 1;
        let p = if v < 6 {
            PAT[v]
        } else if w >> (v - 6) & 1 == 1 {
            u64::MAX
        } else {
            0
        };
        if l > 0 { p } else { !p }
    }
    pub fn add(&mut self, c: &[i32]) {
        for w in 0..self.bits.len() {
            let m = c.iter().fold(0, |a, l| a | Self::lit(*l, w));
            self.bits[w] &= m;
        }
    }
    pub fn sat(&self) -> bool {
        self.bits.iter().any(|b| *b != 0)
    }
    /// Whether there is a satisfying assignment with all `lits` true
    pub fn sat_with(&self, lits: &[i32]) -> bool {
        (0..self.bits.len()).any(|w| lits.iter().fold(self.bits[w], |a, l| a & Self::lit(*l, w)) != 0)
    }
    pub fn with(&self, lits: &[i32]) -> Tab {
        let mut t = self.clone();
        for l in lits {
            t.add(&[*l]);
        }
        t
    }
    pub fn implies(&self, c: &[i32]) -> bool {
        let neg: Vec<i32> = c.iter().map(|l| -l).collect();
        !self.sat_with(&neg)
    }
    pub fn count(&self) -> u64 {
        self.bits.iter().map(|b| u64::from(b.count_ones())).sum()
    }
}

/// Unit propagation over `cls` from `lits`: the literals assigned, or `None` on a conflict
pub fn up(cls: &[Vec<i32>], lits: &[i32]) -> Option<Vec<i32>> {
    let mut a: Vec<i32> = vec![];
    for l in lits {
        if a.contains(&-l) {
            return None;
        }
        if !a.contains(l) {
            a.push(*l);
        }
    }
    loop {
        let mut new = None;
        for c in cls {
            if c.iter().any(|l| a.contains(l)) || c.iter().any(|l| c.contains(&-l)) {
                continue;
            }
            let mut open: Vec<i32> = c.iter().copied().filter(|l| !a.contains(&-l)).collect();
            open.sort_unstable();
            open.dedup();
            match open[..] {
                [] => return None,
                [l] => {
                    new = Some(l);
                    break;
                }
                _ => (),
            }
        }
        match new {
            Some(l) => a.push(l),
            None => return Some(a),
        }
    }
}
