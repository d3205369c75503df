//! The per-run simulation context: one seed (or one recorded choice tape) is one exact execution.
//!
//! Every decision a scenario takes (workload, schedule, fault, delay) is drawn through
//! [`Sim::choose`]; the drawn values form the *tape*. Replaying a tape replays the run; shrinking
//! the tape (dropping or lowering values, 0 always being "the simplest / no fault") minimises it.

use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add(b)
        .wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for &x in b {
        h ^= u64::from(x);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(0xcbf2_9ce4_8422_2325, s.as_bytes())
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed, 0x5EED))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0, 0xD1CE)
    }
}

/// A property violation. `class` names the kind of violation (used to keep the same failure while
/// minimising, and to match known findings); `detail` is the human readable description.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq, Eq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub type Outcome = Result<(), Violation>;

pub fn violation<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        class: class.into(),
        detail: detail.into(),
    })
}

#[macro_export]
macro_rules! bail {
    ($class:expr, $($arg:tt)*) => {
        return $crate::sim::violation($class, format!($($arg)*))
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::sim::violation($class, format!($($arg)*));
        }
    };
}

#[derive(Debug, Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub simtime_ns: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub ops: BTreeMap<String, u64>,
    pub shapes: HashSet<u64>,
    pub states: HashSet<u64>,
    pub fault_free_runs: u64,
    pub nontrivial: u64,
}

#[derive(Debug)]
pub struct Sim {
    pub seed: u64,
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub tape: Vec<u64>,
    pub log: Vec<String>,
    pub keep_log: bool,
    /// Events also go to this file right away (they survive the death of the process)
    pub live_log: Option<i32>,
    pub loghash: u64,
    pub n_events: u64,
    pub n_faults: u64,
    /// set by the scenario: did this run exercise what the property is about
    pub nontrivial: bool,
    pub st: Stats,
    /// class that any panic of the code under test is filed under (so that a specific call site
    /// can be told from others); reset per run
    pub panic_ctx: String,
    /// recorded findings met in runs that went on afterwards
    pub known_hits: BTreeMap<String, u64>,
}

/// Classes of the recorded findings
pub static KNOWN: std::sync::OnceLock<HashSet<String>> = std::sync::OnceLock::new();

impl Sim {
    pub fn new(seed: u64) -> Self {
        Sim {
            seed,
            rng: Rng::new(seed),
            replay: None,
            pos: 0,
            tape: vec![],
            log: vec![],
            keep_log: false,
            live_log: None,
            loghash: 0xcbf2_9ce4_8422_2325,
            n_events: 0,
            n_faults: 0,
            nontrivial: false,
            st: Stats::default(),
            panic_ctx: String::new(),
            known_hits: BTreeMap::new(),
        }
    }

    /// Reports a violation the run can go on after: a recorded finding is counted, anything else
    /// ends the run
    pub fn tolerate(&mut self, class: impl Into<String>, detail: impl Into<String>) -> Outcome {
        let class = class.into();
        if KNOWN.get().is_some_and(|k| k.contains(&class)) {
            *self.known_hits.entry(class).or_insert(0) += 1;
            return Ok(());
        }
        violation(class, detail)
    }

    pub fn reset(&mut self, seed: u64, replay: Option<Vec<u64>>) {
        self.seed = seed;
        self.rng = Rng::new(seed);
        self.replay = replay;
        self.pos = 0;
        self.tape.clear();
        self.log.clear();
        self.loghash = 0xcbf2_9ce4_8422_2325;
        self.n_events = 0;
        self.n_faults = 0;
        self.nontrivial = false;
        self.panic_ctx.clear();
    }

    /// Uniform choice in `0..n`; 0 is the simplest choice
    pub fn choose(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if v < n {
                    v
                } else {
                    v % n
                }
            }
            None => self.rng.next() % n,
        };
        self.tape.push(v);
        crate::runner::tape_tap(v);
        v
    }

    pub fn idx(&mut self, n: usize) -> usize {
        usize::try_from(self.choose(n as u64)).unwrap()
    }

    /// inclusive range, lower end simplest
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        lo + self.idx(hi - lo + 1)
    }

    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.choose(u64::try_from(hi - lo + 1).unwrap()) as i64
    }

    /// true with probability `num/den`; `false` is the simplest choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        self.choose(den) >= den - num.min(den)
    }

    pub fn coin(&mut self) -> bool {
        self.chance(1, 2)
    }

    /// index drawn with the given weights; put the simplest alternative first
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.choose(total);
        for (i, &v) in w.iter().enumerate() {
            if x < v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }

    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.idx(s.len());
        &s[i]
    }

    pub fn ev(&mut self, s: impl AsRef<str>) {
        let s = s.as_ref();
        self.loghash = hash_bytes(self.loghash, s.as_bytes());
        self.loghash = hash_bytes(self.loghash, b"\n");
        self.n_events += 1;
        if self.keep_log {
            self.log.push(s.to_string());
            if let Some(fd) = self.live_log {
                let l = format!("{s}\n");
                unsafe { libc::syscall(libc::SYS_write, fd, l.as_ptr(), l.len()) };
            }
        }
    }

    /// record a fault that actually fired
    pub fn fault(&mut self, kind: &str) {
        *self.st.faults.entry(kind.to_string()).or_insert(0) += 1;
        self.n_faults += 1;
        self.ev(format!("FAULT {kind}"));
    }

    /// record that a rare condition was reached
    pub fn probe(&mut self, name: &str) {
        if let Some(c) = self.st.probes.get_mut(name) {
            *c += 1;
        } else {
            self.st.probes.insert(name.to_string(), 1);
        }
    }

    pub fn op(&mut self, name: &str) {
        if let Some(c) = self.st.ops.get_mut(name) {
            *c += 1;
        } else {
            self.st.ops.insert(name.to_string(), 1);
        }
        self.st.steps += 1;
    }

    /// record a reached abstract state
    pub fn state(&mut self, h: u64) {
        if self.st.states.len() < 2_000_000 {
            self.st.states.insert(h);
        }
    }
}
