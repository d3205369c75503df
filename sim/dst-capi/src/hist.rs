//! P21: the C interface.
//!
//! A run is a C program: it creates several encodings, adds literals, requests bounds, reserves
//! variables, enforces bounds and drops the encodings in a random order, all with one variable
//! counter. Every call goes through C code compiled against `rustsat.h`. The clauses received by the
//! callback are compared, by an independent SAT procedure, with the constraint itself.
use crate::heap;
use simcore::reference::Sat;
use simcore::runner::{Prop, Scenario};
use simcore::{bail, ensure, Outcome, Sim};
use std::collections::BTreeSet;
use std::ffi::{c_int, c_void};

extern "C" {
    fn c_new(k: c_int) -> *mut c_void;
    fn c_drop(k: c_int, p: *mut c_void);
    fn c_add(k: c_int, p: *mut c_void, lit: c_int, w: usize) -> c_int;
    fn c_reserve(k: c_int, p: *mut c_void, n: *mut u32);
    fn c_encode(k: c_int, p: *mut c_void, lower: c_int, min: usize, max: usize, n: *mut u32, f: extern "C" fn(c_int, *mut c_void), d: *mut c_void);
    fn c_enforce(k: c_int, p: *mut c_void, lower: c_int, b: usize, one: *mut c_int, f: extern "C" fn(c_int, *mut c_void), d: *mut c_void) -> c_int;
    fn c_dpw_precision(p: *mut c_void, d: usize) -> c_int;
    fn c_dpw_next_precision(p: *mut c_void) -> usize;
    fn c_dpw_is_max(p: *mut c_void) -> c_int;
    fn c_dpw_coarse(p: *mut c_void, b: usize) -> usize;
    fn c_dpw_limit(p: *mut c_void, min: usize, max: usize, f: extern "C" fn(c_int, *mut c_void), d: *mut c_void);
}

const NAMES: [&str; 10] = ["tot", "gte", "bin_adder", "dpw", "pairwise", "ladder", "bitwise", "commander", "bimander", "twoproduct"];
const TOT: usize = 0;
const GTE: usize = 1;
const ADDER: usize = 2;
const DPW: usize = 3;

/// What a callback was given
#[derive(Default)]
struct Got {
    cls: Vec<Vec<i32>>,
    open: Vec<i32>,
    calls: usize,
    /// blocks the callback itself allocated
    blocks: i64,
    magic: u64,
}

const MAGIC: u64 = 0xC0FF_EE00_1234_5678;

extern "C" fn take(l: c_int, d: *mut c_void) {
    let g = unsafe { &mut *d.cast::<Got>() };
    if g.magic != MAGIC {
        // not the data pointer that was passed
        std::process::abort();
    }
    let b = heap::live();
    g.calls += 1;
    if l == 0 {
        let c = std::mem::take(&mut g.open);
        g.cls.push(c);
    } else {
        g.open.push(l);
    }
    g.blocks += heap::live() - b;
}

struct Obj {
    k: usize,
    id: usize,
    p: *mut c_void,
    t: Vec<(i32, usize)>,
    sat: Sat,
    vars: BTreeSet<i32>,
    cov: [BTreeSet<usize>; 2],
    side: usize,
    encoded: bool,
    /// requested while nothing was added since `reserve`
    reserved: bool,
    /// when reserving, the precision was higher than that of the structure
    late: bool,
    hist: Vec<String>,
    set: usize,
    built: Option<usize>,
    lo: usize,
    hi: usize,
}

struct World {
    n: u32,
    held: i64,
    /// auxiliary variables and who uses them
    owned: BTreeSet<i32>,
}

impl World {
    /// Runs a call of the interface, keeping account of the memory it holds afterwards
    fn call<R>(&mut self, g: &mut Got, f: impl FnOnce(&mut u32, *mut c_void) -> R) -> R {
        g.magic = MAGIC;
        let (b, gb) = (heap::live(), g.blocks);
        // the counter lives between two guards
        let mut n = [0xAAAA_AAAAu32, self.n, 0x5555_5555];
        let r = f(&mut n[1], std::ptr::from_mut(g).cast());
        self.held += heap::live() - b - (g.blocks - gb);
        self.n = n[1];
        if n[0] != 0xAAAA_AAAA || n[2] != 0x5555_5555 {
            std::process::abort();
        }
        r
    }
}

fn truth(l: i32, a: usize) -> bool {
    (a >> (l.abs() - 1) & 1 == 1) == (l > 0)
}

fn full(nv: usize, a: usize) -> Vec<i32> {
    (1..=nv as i32).map(|v| if a >> (v - 1) & 1 == 1 { v } else { -v }).collect()
}

impl Obj {
    fn pb(&self) -> bool {
        self.k <= DPW
    }
    fn sum(&self, d: usize) -> usize {
        self.t.iter().map(|x| x.1 / d).sum()
    }
    fn value(&self, a: usize, d: usize) -> usize {
        self.t.iter().filter(|x| truth(x.0, a)).map(|x| x.1 / d).sum()
    }
    fn distinct(&self) -> usize {
        self.t.iter().map(|x| x.0).collect::<BTreeSet<_>>().len()
    }
    fn what(&self) -> String {
        format!("{} {:?} after {:?}", NAMES[self.k], self.t, self.hist)
    }

    fn note(&mut self, sim: &mut Sim, s: String) {
        sim.ev(format!("{} {}: {s}", NAMES[self.k], self.id));
        self.hist.push(s);
    }

    /// Takes over the clauses of one call
    fn clauses(&mut self, w: &mut World, g: &mut Got, before: u32, nv: usize) -> Outcome {
        let tag = NAMES[self.k];
        ensure!(g.open.is_empty(), format!("capi:clause:{tag}"), "the last clause {:?} was not ended, {}", g.open, self.what());
        ensure!(w.n >= before, format!("capi:counter:{tag}"), "the variable counter went from {before} to {}, {}", w.n, self.what());
        for c in std::mem::take(&mut g.cls) {
            for l in &c {
                let v = l.abs();
                if v as usize <= nv {
                    continue;
                }
                ensure!(v as u32 <= w.n, format!("capi:counter:{tag}"), "clause {c:?} uses variable {v}, the counter says {} are used, {}", w.n, self.what());
                if !self.vars.contains(&v) {
                    ensure!(!w.owned.contains(&v), format!("capi:vars:{tag}"), "clause {c:?} uses variable {v}, which somebody else uses, {}", self.what());
                    self.vars.insert(v);
                    w.owned.insert(v);
                }
            }
            self.sat.add(&c);
        }
        // variables taken but not used yet are the encoding's too
        for v in before as i32 + 1..=w.n as i32 {
            self.vars.insert(v);
            w.owned.insert(v);
        }
        Ok(())
    }

    /// The clauses alone exclude nothing
    fn alone(&mut self, sim: &mut Sim, nv: usize) -> Outcome {
        let from = if sim.chance(1, 4) { 0 } else { sim.range(0, (1 << nv) - 1) };
        let cnt = if from == 0 { 1 << nv } else { 4 };
        for i in 0..cnt {
            let a = (from + i * 7) % (1 << nv);
            let got = self.sat.solve(&full(nv, a)).is_some();
            // outside a range the encoding was limited to, nothing is promised
            if self.value(a, 1) < self.lo || self.value(a, 1) >= self.hi {
                continue;
            }
            ensure!(got, format!("capi:alone:{}", NAMES[self.k]), "the clauses exclude {:?}, {}", full(nv, a), self.what());
        }
        Ok(())
    }

    fn enforce(&mut self, sim: &mut Sim, w: &mut World, nv: usize) -> Outcome {
        let tag = NAMES[self.k];
        let lower = match self.k {
            TOT => sim.idx(2),
            ADDER => self.side,
            _ => 0,
        };
        let sum = self.sum(self.set);
        let mut b = sim.range(0, sum + 2);
        if sim.chance(1, 16) {
            b = usize::MAX - sim.range(0, 1);
        }
        if self.k == DPW && b <= sum + 2 && sim.chance(1, 6) {
            let c = w.call(&mut Got::default(), |_, _| unsafe { c_dpw_coarse(self.p, b) });
            ensure!(c <= b, "capi:coarse", "the coarse bound of {b} is {c}, {}", self.what());
            b = c;
        }
        let limited = self.lo > 0 || self.hi < usize::MAX;
        if limited && (b > sum + 3 || b * self.set < self.lo || (b + 1) * self.set > self.hi) {
            return Ok(());
        }
        let mut one: c_int = 0x7EAD;
        let mut g = Got::default();
        let n0 = w.n;
        let r = w.call(&mut g, |_, d| unsafe { c_enforce(self.k as c_int, self.p, lower as c_int, b, &mut one, take, d) });
        sim.ev(format!("{} {}: enforce {} {b} -> {r} {:?} {one}", NAMES[self.k], self.id, if lower == 1 { ">=" } else { "<=" }, g.open));
        ensure!(w.n == n0 && g.cls.is_empty(), format!("capi:enforce:{tag}"), "enforcing changed the counter or produced clauses, {}", self.what());
        let covered = self.cov[lower].contains(&b) || if lower == 0 { b >= self.sum(1) } else { b == 0 };
        let possible = lower == 0 || b <= sum;
        match r {
            0 => {
                let mut a = g.open;
                if self.k == TOT {
                    ensure!(a.is_empty() && one != 0x7EAD, format!("capi:enforce:{tag}"), "no assumption was stored for bound {b}, {}", self.what());
                    if one != 0 {
                        a.push(one);
                    } else {
                        ensure!(if lower == 0 { b >= sum } else { b == 0 }, format!("capi:enforce:{tag}"), "no assumption for bound {b}, {}", self.what());
                    }
                }
                ensure!(possible, format!("capi:impossible:{tag}"), "{a:?} for the impossible bound {b}, {}", self.what());
                sim.nontrivial = true;
                sim.probe(if covered { "bound covered by a request" } else { "bound not requested but provided" });
                for x in 0..1usize << nv {
                    if self.value(x, 1) < self.lo || self.value(x, 1) >= self.hi {
                        continue;
                    }
                    if nv > 4 && sim.coin() {
                        continue;
                    }
                    let mut q = full(nv, x);
                    q.extend_from_slice(&a);
                    let got = self.sat.solve(&q).is_some();
                    let v = self.value(x, self.set);
                    let want = if lower == 0 { v <= b } else { v >= b };
                    let kind = if limited { "limited" } else if covered { "bound" } else { "unrequested" };
                    ensure!(got == want, format!("capi:{kind}:{tag}:{}", if got { "allows" } else { "excludes" }), "bound {b} ({}) as {a:?}: the inputs {:?} have value {v}, {}", if lower == 1 { ">=" } else { "<=" }, full(nv, x), self.what());
                }
            }
            1 => ensure!(!(covered && possible), format!("capi:notencoded:{tag}"), "bound {b} was requested but is reported as not encoded, {}", self.what()),
            2 => ensure!(!possible, format!("capi:unsat:{tag}"), "bound {b} is possible but reported as unsatisfiable, {}", self.what()),
            _ => bail!(format!("capi:code:{tag}"), "enforcing bound {b} gave code {r}, {}", self.what()),
        }
        Ok(())
    }
}

fn gen_range(sim: &mut Sim, sum: usize) -> (usize, usize) {
    let a = sim.range(0, sum + 3);
    let b = match sim.weighted(&[4, 4, 4, 1]) {
        0 => a,
        1 => a + sim.range(0, 3),
        2 => sim.range(0, sum + 3),
        _ => return (a, usize::MAX),
    };
    (a.min(b), a.max(b))
}

fn p21(sim: &mut Sim) -> Outcome {
    let nv = sim.range(1, 6);
    let mut w = World { n: (nv + sim.range(0, 3)) as u32, held: 0, owned: BTreeSet::new() };
    for v in nv as i32 + 1..=w.n as i32 {
        w.owned.insert(v);
    }
    let mut objs: Vec<Obj> = vec![];
    let mut ids = 0;
    let steps = sim.range(4, 22);
    let mut shape = 0u64;
    for step in 0..steps {
        simcore::runner::set_ctx(sim, "create");
        if objs.is_empty() || (objs.len() < 3 && sim.chance(1, 8)) {
            let k = sim.weighted(&[6, 5, 4, 6, 1, 1, 1, 1, 1, 1]);
            let p = w.call(&mut Got::default(), |_, _| unsafe { c_new(k as c_int) });
            ensure!(!p.is_null(), "capi:new", "no {} was created", NAMES[k]);
            sim.op(NAMES[k]);
            sim.ev(format!("new {} {ids}", NAMES[k]));
            objs.push(Obj { k, id: ids, p, t: vec![], sat: Sat::default(), vars: BTreeSet::new(), cov: [BTreeSet::new(), BTreeSet::new()], side: sim.idx(2), encoded: false, reserved: false, late: false, hist: vec![], set: 1, built: None, lo: 0, hi: usize::MAX });
            ids += 1;
        }
        let i = sim.idx(objs.len());
        let o = &mut objs[i];
        let tag = NAMES[o.k];
        let act = if o.t.is_empty() && sim.chance(3, 4) { 0 } else { sim.weighted(&[4, 6, if o.pb() { 1 } else { 0 }, if o.pb() { 6 } else { 0 }, 1, if o.k == DPW { 3 } else { 0 }, if o.k == DPW { 2 } else { 0 }, 1]) };
        shape = simcore::sim::mix(shape, (o.k * 16 + act) as u64);
        let before = w.n;
        let mut g = Got::default();
        match act {
            0 => {
                let many = sim.range(1, 3);
                for _ in 0..many {
                    let bad = sim.chance(1, 10);
                    let l = if bad { 0 } else { sim.range(1, nv) as i32 * if sim.coin() { 1 } else { -1 } };
                    let top = *sim.pick(&[1usize, 4, 9, 20]);
                    let wt = if o.k == TOT || !o.pb() { 1 } else { sim.range(1, top) };
                    if !bad && (o.t.len() >= 8 || (o.k == DPW && o.t.iter().any(|x| x.0 == l)) || (!sim.chance(1, 4) && o.t.iter().any(|x| x.0.abs() == l.abs()))) {
                        continue;
                    }
                    simcore::runner::set_ctx(sim, "add");
                    let r = w.call(&mut g, |_, _| unsafe { c_add(o.k as c_int, o.p, l, wt) });
                    o.note(sim, format!("add {l}*{wt} -> {r}"));
                    ensure!(w.n == before && g.calls == 0, format!("capi:add:{tag}"), "adding a literal changed the counter, {}", o.what());
                    if bad {
                        sim.fault("literal that is none");
                        ensure!(r == 4, format!("capi:code:{tag}"), "adding {l} gave code {r}, {}", o.what());
                        continue;
                    }
                    if o.k == DPW && o.encoded && r == 3 {
                        ensure!(o.distinct() > 0, format!("capi:code:{tag}"), "refused to add to an encoding without inputs, {}", o.what());
                        sim.fault("input added to a finished encoding");
                        continue;
                    }
                    ensure!(r == 0, format!("capi:code:{tag}"), "adding {l} gave code {r}, {}", o.what());
                    ensure!(!(o.k == DPW && o.built.is_some()), format!("capi:code:{tag}"), "an input was accepted after the encoding was built, {}", o.what());
                    o.t.push((l, wt));
                    o.cov = [BTreeSet::new(), BTreeSet::new()];
                    o.reserved = false;
                }
            }
            1 if !o.pb() => {
                simcore::runner::set_ctx(sim, "encode");
                // as an at-most-one encoding is produced as a whole each time, so is the solver
                w.call(&mut g, |n, d| unsafe { c_encode(o.k as c_int, o.p, 0, 0, 0, n, take, d) });
                o.note(sim, "encode".into());
                if sim.coin() {
                    o.sat = Sat::default();
                }
                o.clauses(&mut w, &mut g, before, nv)?;
                for a in 0..1usize << nv {
                    let got = o.sat.solve(&full(nv, a)).is_some();
                    let cnt = o.t.iter().filter(|x| truth(x.0, a)).count();
                    ensure!(got == (cnt <= 1), format!("capi:am1:{tag}:{}", if got { "allows" } else { "excludes" }), "the clauses {} {:?}, {}", if got { "allow" } else { "exclude" }, full(nv, a), o.what());
                }
                sim.nontrivial = true;
            }
            1 => {
                let lower = match o.k {
                    TOT => sim.idx(2),
                    ADDER => o.side,
                    _ => 0,
                };
                let (a, b) = gen_range(sim, o.sum(o.set));
                simcore::runner::set_ctx(sim, "encode");
                o.note(sim, format!("encode {} {a}..={b}", if lower == 1 { "lb" } else { "ub" }));
                w.call(&mut g, |n, d| unsafe { c_encode(o.k as c_int, o.p, lower as c_int, a, b, n, take, d) });
                if g.cls.is_empty() {
                    sim.probe("nothing to encode");
                }
                o.clauses(&mut w, &mut g, before, nv)?;
                if o.reserved && w.n != before {
                    let late = if o.late { "after the precision was raised:" } else { "" };
                    sim.tolerate(format!("capi:reserve:{late}{tag}"), format!("all variables were reserved, but the counter went from {before} to {}, {}", w.n, o.what()))?;
                }
                o.encoded = true;
                if o.k == GTE {
                    o.cov[lower].clear();
                }
                if o.k == DPW && o.distinct() > 1 && a < o.sum(1) {
                    let rest = o.t.iter().map(|x| o.built.map_or(x.1, |d| x.1 % d)).max().unwrap_or(0);
                    if rest >= o.set {
                        o.built = Some(o.set);
                    }
                }
                let s = o.sum(o.set);
                for x in a..=b.min(s + 4) {
                    o.cov[lower].insert(x);
                }
            }
            2 => {
                simcore::runner::set_ctx(sim, "reserve");
                w.call(&mut g, |n, _| unsafe { c_reserve(o.k as c_int, o.p, n) });
                o.note(sim, format!("reserve -> {}", w.n));
                o.clauses(&mut w, &mut g, before, nv)?;
                o.cov = [BTreeSet::new(), BTreeSet::new()];
                o.encoded = true;
                let rest = o.t.iter().map(|x| o.built.map_or(0, |d| x.1 % d)).max().unwrap_or(0);
                o.late = rest >= o.set;
                if o.k == DPW && o.distinct() > 1 && o.built.is_none() {
                    let rest = o.t.iter().map(|x| x.1).max().unwrap_or(0);
                    if rest >= o.set {
                        o.built = Some(o.set);
                    }
                }
                o.reserved = true;
            }
            3 => {
                simcore::runner::set_ctx(sim, "enforce");
                o.enforce(sim, &mut w, nv)?;
            }
            4 => {
                simcore::runner::set_ctx(sim, "drop");
                let o = objs.swap_remove(i);
                sim.ev(format!("drop {} {}", NAMES[o.k], o.id));
                w.call(&mut g, |_, _| unsafe { c_drop(o.k as c_int, o.p) });
                if objs.is_empty() {
                    ensure!(w.held == 0, format!("capi:leak:{tag}"), "{} blocks are still held after everything was dropped", w.held);
                }
                continue;
            }
            5 => {
                // precision
                simcore::runner::set_ctx(sim, "precision");
                let d = match sim.weighted(&[4, 3, 1]) {
                    0 => w.call(&mut g, |_, _| unsafe { c_dpw_next_precision(o.p) }),
                    1 => 1 << sim.range(0, 5),
                    _ => sim.range(0, 9),
                };
                let r = w.call(&mut g, |_, _| unsafe { c_dpw_precision(o.p, d) });
                o.note(sim, format!("precision {d} -> {r}"));
                let want = if d > 1 && !d.is_power_of_two() {
                    5
                } else if o.built.is_some() && d.max(1) > o.set {
                    6
                } else {
                    0
                };
                ensure!(r == want, format!("capi:code:{tag}"), "setting the precision to {d} gave code {r} instead of {want}, {}", o.what());
                if r == 0 && d.max(1) != o.set {
                    o.set = d.max(1);
                    o.cov[0].clear();
                    o.reserved = false;
                }
            }
            6 => {
                let s = o.sum(1);
                let (a, b) = gen_range(sim, s);
                simcore::runner::set_ctx(sim, "limit");
                o.note(sim, format!("limit {a}..={b}"));
                w.call(&mut g, |_, d| unsafe { c_dpw_limit(o.p, a, b, take, d) });
                o.clauses(&mut w, &mut g, before, nv)?;
                ensure!(w.n == before, format!("capi:counter:{tag}"), "limiting changed the counter, {}", o.what());
                o.lo = o.lo.max(a);
                o.hi = o.hi.min(b.saturating_add(1));
            }
            _ => {
                // the program takes a variable for itself
                w.n += 1;
                w.owned.insert(w.n as i32);
                sim.ev("new variable");
            }
        }
        let _ = step;
        let j = sim.idx(objs.len());
        let o = &mut objs[j];
        if o.k == DPW && o.distinct() > 1 {
            simcore::runner::set_ctx(sim, "next precision");
            let rest = o.t.iter().map(|x| o.built.map_or(x.1, |d| x.1 % d)).max().unwrap_or(0);
            let next = if rest == 0 { 1 } else { 1usize << rest.ilog2() };
            let got = w.call(&mut Got::default(), |_, _| unsafe { c_dpw_next_precision(o.p) });
            let max = w.call(&mut Got::default(), |_, _| unsafe { c_dpw_is_max(o.p) });
            ensure!(got == next && (max == 1) == (rest == 0), "capi:precision", "next precision {got} instead of {next}, maximum {max}, {}", o.what());
        }
        if o.pb() {
            o.alone(sim, nv)?;
            if sim.coin() {
                simcore::runner::set_ctx(sim, "enforce");
                o.enforce(sim, &mut w, nv)?;
            }
        }
        ensure!(heap::corrupt() == 0, "capi:heap", "memory outside of an allocation was written");
        sim.state(simcore::sim::mix(shape, u64::from(w.n)));
    }
    simcore::runner::set_ctx(sim, "drop");
    while !objs.is_empty() {
        let i = sim.idx(objs.len());
        let o = objs.swap_remove(i);
        sim.ev(format!("drop {} {}", NAMES[o.k], o.id));
        w.call(&mut Got::default(), |_, _| unsafe { c_drop(o.k as c_int, o.p) });
    }
    ensure!(w.held == 0, "capi:leak", "{} blocks are still held after everything was dropped", w.held);
    ensure!(heap::corrupt() == 0, "capi:heap", "memory outside of an allocation was written");
    sim.st.shapes.insert(shape);
    Ok(())
}

pub fn register(sc: &mut Vec<Scenario>, pr: &mut Vec<Prop>) {
    sc.push(Scenario { prop: "P21", name: "C programs using several encodings", weight: 1, f: p21 });
    pr.push(Prop {
        id: "P21",
        quick_runs: 600_000,
        thorough_runs: 10_000_000,
        rule: "runs in which a bound obtained through the C interface was compared with the constraint itself",
        shape_measure: "distinct sequences of (encoding, operation)",
        real: &["rustsat-capi (all functions, called from C compiled against rustsat.h)", "rustsat::encodings"],
        stub: &["SAT solver behind the callbacks (reference procedure)", "heap (seeded contents, red zones, moving realloc, delayed frees)", "getrandom"],
        assumptions: &["at most 6 variables, 8 inputs per encoding and 3 encodings at a time", "the binary adder is only asked for bounds of one direction per encoding (see P14)"],
    });
}
