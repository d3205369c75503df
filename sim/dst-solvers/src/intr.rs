//! P11: interruption, limits and callbacks. Everything that can stop a search is under the control
//! of the seed: the answers of the terminator, calls of the interrupter before the search, from
//! callbacks or at the k-th allocation of the native code (where another thread might run), and
//! limits. Afterwards everything is lifted and the solver has to answer correctly.
use crate::heap::{self, Action, Plan};
use crate::hist::{self, check_core, check_model, check_state, check_stats, ok, verdict, St, M};
use crate::slv::{BAT, K, S};
use rustsat::solvers::{ControlSignal, SolverResult};
use rustsat::types::Clause;
use simcore::runner::{set_ctx, Prop, Scenario};
use simcore::{bail, ensure, Outcome, Sim};
use std::cell::RefCell;
use std::rc::Rc;

/// What a callback shares with the scenario
#[derive(Default)]
struct Shared {
    attached: bool,
    calls: u64,
    stop_at: u64,
    /// call at which the interrupter is used instead
    int_at: u64,
    said_stop: bool,
    interrupted: bool,
    after_detach: u64,
}

#[derive(Default)]
struct Learned {
    attached: bool,
    max_len: usize,
    cls: Vec<Clause>,
    after_detach: u64,
}

/// Clauses that need some search
fn hard(sim: &mut Sim, n: usize) -> Vec<Vec<i32>> {
    let mut out = vec![];
    let mut distinct = |sim: &mut Sim, k: usize| {
        let mut c: Vec<i32> = vec![];
        while c.len() < k.min(n) {
            let v = sim.range(1, n) as i32;
            if !c.iter().any(|x: &i32| x.abs() == v) {
                c.push(if sim.coin() { v } else { -v });
            }
        }
        c
    };
    match sim.weighted(&[4, 3, 2, 1]) {
        0 => {
            // near the threshold
            let m = n * sim.range(38, 50) / 10;
            for _ in 0..m {
                out.push(distinct(sim, 3));
            }
        }
        1 => {
            // parity constraints: about as many as variables, so that they are often contradictory
            let m = n + sim.range(0, 2) - 1;
            for _ in 0..m {
                let vs = distinct(sim, 3);
                let odd = sim.coin();
                for s in 0..8u32 {
                    if (s.count_ones() % 2 == 1) != odd {
                        out.push(vs.iter().enumerate().map(|(i, v)| if s >> i & 1 == 1 { -v.abs() } else { v.abs() }).collect());
                    }
                }
            }
        }
        2 => {
            // pigeons
            let holes = if n >= 12 { 3 } else { 2 };
            let pigeons = n / holes;
            let v = |p: usize, h: usize| (p * holes + h + 1) as i32;
            for p in 0..pigeons {
                out.push((0..holes).map(|h| v(p, h)).collect());
            }
            for h in 0..holes {
                for p in 0..pigeons {
                    for q in 0..p {
                        if !sim.chance(1, 12) {
                            out.push(vec![-v(p, h), -v(q, h)]);
                        }
                    }
                }
            }
        }
        _ => {
            for _ in 0..sim.range(1, 3 * n) {
                let k = sim.range(1, 4);
                out.push(distinct(sim, k));
            }
        }
    }
    out
}

fn few(sim: &mut Sim) -> u64 {
    match sim.weighted(&[4, 3, 2, 1]) {
        0 => sim.range(1, 4) as u64,
        1 => sim.range(1, 20) as u64,
        2 => sim.range(1, 120) as u64,
        _ => sim.range(1, 1500) as u64,
    }
}

fn intr(sim: &mut Sim, k: K) -> Outcome {
    let n = sim.range(6, if matches!(k, K::Kis | K::Inc) { 13 } else { 15 });
    let mut m = M::new(sim, k, n);
    set_ctx(sim, "init");
    let mut s = S::new(k);
    BAT.with(|b| *b.borrow_mut() = (0, u64::MAX));
    sim.ev(format!("{k:?} over {n} variables"));
    if matches!(k, K::GlS | K::MsS) {
        for i in 0..n {
            ok("freeze", s.freeze(m.v[i]))?;
            m.mention_var(m.v[i].idx32());
        }
        m.loose = true;
    }
    let has_term = matches!(k, K::Cad | K::Kis);
    let fam = matches!(k, K::MsC | K::MsS | K::GlC | K::GlS);
    let mut terms: Vec<Rc<RefCell<Shared>>> = vec![];
    let mut learners: Vec<Rc<RefCell<Learned>>> = vec![];
    let mut lim: [Option<u32>; 3] = [None; 3];
    // an interrupt may be waiting for the next search
    let mut pending = false;
    let rounds = if k == K::Kis { 1 } else { sim.range(1, 5) };
    let mut checked = 0;
    for round in 0..=rounds {
        // the last round lifts everything
        let last = round == rounds && k != K::Kis;
        if k == K::Kis && round == 1 {
            break;
        }
        if round == 0 || sim.chance(1, 3) {
            let cs = if round == 0 { hard(sim, n) } else { vec![m.gen_soft_clause(sim)] };
            sim.ev(format!("{} clauses {:?}", cs.len(), if cs.len() < 4 { &cs[..] } else { &[] }));
            set_ctx(sim, "add");
            for c in cs {
                ok("add_clause", s.add(m.clause(&c)))?;
                m.added(&c);
            }
        }
        set_ctx(sim, "callbacks");
        // terminator
        if has_term {
            match if last { 2 } else { sim.weighted(&[3, 3, 1]) } {
                1 => {
                    if let Some(t) = terms.last() {
                        t.borrow_mut().attached = false;
                    }
                    let sh = Rc::new(RefCell::new(Shared { attached: true, ..Default::default() }));
                    let sh2 = sh.clone();
                    let int = if sim.chance(1, 4) { s.interrupter() } else { None };
                    let int_at = if int.is_some() { few(sim) } else { 0 };
                    sh.borrow_mut().int_at = int_at;
                    sim.op("attach_terminator");
                    sim.ev(format!("attach terminator, interrupter at {int_at}"));
                    s.terminator(move || {
                        let mut x = sh2.borrow_mut();
                        x.calls += 1;
                        if !x.attached {
                            x.after_detach += 1;
                        }
                        if x.calls == x.int_at {
                            if let Some(i) = &int {
                                x.interrupted = true;
                                i();
                            }
                        }
                        if x.stop_at > 0 && x.calls >= x.stop_at {
                            x.said_stop = true;
                            ControlSignal::Terminate
                        } else {
                            ControlSignal::Continue
                        }
                    });
                    terms.push(sh);
                }
                2 => {
                    sim.op("detach_terminator");
                    sim.ev("detach terminator");
                    s.detach_terminator();
                    if let Some(t) = terms.last() {
                        t.borrow_mut().attached = false;
                    }
                }
                _ => (),
            }
            // a replaced or detached callback is dropped
            for (i, t) in terms.iter().enumerate() {
                let live = Rc::strong_count(t) > 1;
                ensure!(live == t.borrow().attached, "callback:lifetime", "{k:?}: terminator {i} attached={} but {}", t.borrow().attached, if live { "kept" } else { "dropped" });
            }
            if let Some(t) = terms.last() {
                let mut t = t.borrow_mut();
                t.calls = 0;
                t.said_stop = false;
                t.interrupted = false;
                t.stop_at = if sim.chance(3, 4) { few(sim) } else { 0 };
                sim.ev(format!("terminator attached={} stops at call {}", t.attached, t.stop_at));
            }
        }
        // learner
        if k == K::Cad {
            match if last { sim.weighted(&[1, 1, 1]) } else { sim.weighted(&[3, 3, 1]) } {
                1 => {
                    if let Some(t) = learners.last() {
                        t.borrow_mut().attached = false;
                    }
                    let max_len = *sim.pick(&[0usize, 1, 2, 3, 5, 100, 100, i32::MAX as usize, (1 << 32) + 1, usize::MAX]);
                    let sh = Rc::new(RefCell::new(Learned { attached: true, max_len, ..Default::default() }));
                    let sh2 = sh.clone();
                    sim.op("attach_learner");
                    sim.ev(format!("attach learner up to length {max_len}"));
                    s.learner(
                        move |c| {
                            let mut x = sh2.borrow_mut();
                            if !x.attached {
                                x.after_detach += 1;
                            }
                            x.cls.push(c);
                        },
                        max_len,
                    );
                    learners.push(sh);
                }
                2 => {
                    sim.op("detach_learner");
                    sim.ev("detach learner");
                    s.detach_learner();
                    if let Some(t) = learners.last() {
                        t.borrow_mut().attached = false;
                    }
                }
                _ => (),
            }
            for (i, t) in learners.iter().enumerate() {
                let live = Rc::strong_count(t) > 1;
                ensure!(live == t.borrow().attached, "callback:lifetime", "{k:?}: learner {i} attached={} but {}", t.borrow().attached, if live { "kept" } else { "dropped" });
            }
            // (the one callback must not affect the other)
            for (i, t) in terms.iter().enumerate() {
                let live = Rc::strong_count(t) > 1;
                ensure!(live == t.borrow().attached, "callback:lifetime", "{k:?}: terminator {i} attached={} but {}", t.borrow().attached, if live { "kept" } else { "dropped" });
            }
        }
        // limits
        set_ctx(sim, "limit");
        for (i, x) in lim.iter_mut().enumerate() {
            let offered = match i {
                0 => fam || matches!(k, K::Cad | K::Kis),
                1 => matches!(k, K::Cad | K::Kis),
                _ => fam,
            };
            if !offered {
                continue;
            }
            let new = if last {
                if x.is_none() && sim.coin() {
                    continue;
                }
                None
            } else if sim.chance(1, 4) {
                if sim.chance(1, 3) && k != K::Kis {
                    None
                } else {
                    Some((few(sim) - 1) as u32)
                }
            } else {
                continue;
            };
            sim.op("limit");
            sim.ev(format!("limit {i} {new:?}"));
            let r = match i {
                0 => s.limit_confl(new),
                1 => s.limit_dec(new),
                _ => s.limit_prop(new),
            };
            ok("limit", r)?;
            *x = new;
        }
        #[cfg(not(feature = "kis"))]
        if let S::Cad(x) = &mut s {
            // these do not stop the search
            if sim.chance(1, 8) {
                let l = if sim.coin() { rustsat_cadical::Limit::Preprocessing(sim.range(0, 3) as i32) } else { rustsat_cadical::Limit::LocalSearch(sim.range(0, 3) as i32) };
                sim.ev(format!("limit {l}"));
                ok("limit", x.set_limit(l))?;
            }
        }
        if k == K::Bat {
            let at = if last || sim.chance(1, 3) { u64::MAX } else { few(sim) };
            sim.ev(format!("callbacks stop at {at}"));
            BAT.with(|b| *b.borrow_mut() = (0, at));
        }
        // interrupts
        let mut boxed: Option<Box<dyn Fn()>> = None;
        let mut act_at = 0;
        if !last && s.can_interrupt() {
            match sim.weighted(&[6, 1, 2]) {
                1 => {
                    sim.op("interrupt_before");
                    sim.ev("interrupt before the search");
                    (s.interrupter().unwrap())();
                    pending = true;
                }
                2 => {
                    act_at = few(sim);
                    boxed = s.interrupter();
                    sim.op("interrupt_during");
                }
                _ => (),
            }
        }
        let before = s.internal();
        let a = if s.incremental() && sim.chance(1, 2) { m.gen_assumps(sim) } else { vec![] };
        let with = s.incremental() && (!a.is_empty() || sim.coin());
        // a plain call may be answered by what is known already
        let st0 = s.stats();
        let lits = m.lits(&a);
        set_ctx(sim, "solve");
        fn go(d: *const ()) {
            let f = unsafe { &*d.cast::<Box<dyn Fn()>>() };
            f();
        }
        let act = boxed.as_ref().map(|b| Action { f: go, data: std::ptr::from_ref(b).cast() });
        let (r, seen) = heap::window(Plan { fail_at: 0, fail_len: 0, act_at, act, spare_c: false }, || if with { s.solve_assumps(&lits) } else { s.solve() });
        let r = ok("solve", r)?;
        m.mention(&a);
        let st1 = s.stats();
        let called = st1.n_sat + st1.n_unsat + st1.n_terminated != st0.n_sat + st0.n_unsat + st0.n_terminated;
        sim.op("solve");
        sim.ev(format!("solve under {a:?} (assumptions {with}) -> {r} called={called} interrupted at allocation {}", if seen.acted { act_at } else { 0 }));
        ensure!(called || matches!(m.st, St::Sat(_) | St::Unsat(_)), "stats:solves", "{k:?}: a call to the solver was not counted");
        // what may have stopped it
        let mut cause = vec![];
        if lim.iter().any(Option::is_some) {
            cause.push("limit");
        }
        if pending {
            cause.push("pending_interrupt");
        }
        if seen.acted {
            sim.fault("interrupt_at_allocation");
            cause.push("interrupt_at_allocation");
        }
        if let Some(t) = terms.last() {
            let t = t.borrow();
            ensure!(t.after_detach == 0, "callback:detached", "{k:?}: a terminator was used after it was detached");
            if t.said_stop {
                sim.fault("terminator_stops");
                cause.push("terminator");
            }
            if t.interrupted {
                sim.fault("interrupt_in_callback");
                cause.push("interrupt_in_callback");
            }
            if t.attached && t.calls > 0 {
                sim.probe("terminator_consulted");
            }
        }
        if k == K::Bat {
            let (c, at) = BAT.with(|b| *b.borrow());
            if c >= at {
                cause.push("batsat_callback");
                sim.fault("terminator_stops");
            }
        }
        if r == SolverResult::Interrupted {
            ensure!(!cause.is_empty(), "interrupted:spurious", "{k:?}: interrupted although nothing asked for it (round {round}, everything lifted: {last})");
            ensure!(called, "interrupted:cached", "{k:?}: reported an interruption without searching");
            for c in &cause {
                sim.probe(&format!("interrupted:{c}"));
            }
            sim.nontrivial = true;
        } else if !cause.is_empty() {
            sim.probe("answered_despite_interruption");
        }
        if called {
            // an interrupt that came too late for this search may hit the next one
            pending = (seen.acted || terms.last().is_some_and(|t| t.borrow().interrupted)) && r != SolverResult::Interrupted;
            if r == SolverResult::Interrupted && cause.len() > 1 && (seen.acted || terms.last().is_some_and(|t| t.borrow().interrupted)) {
                pending = true;
            }
            m.spend();
            if let (Some(x), Some((p0, d0, c0))) = (lim[0], before) {
                let (_, _, c1) = s.internal().unwrap();
                sim.probe("conflict_limit_in_force");
                ensure!(c1 - c0 <= x as usize + n + 2, "limit:conflicts", "{k:?}: {} conflicts under a limit of {x}", c1 - c0);
            }
            verdict(&mut m, r, &a, true)?;
            if matches!(k, K::Cad | K::Kis) {
                // for one call only
                lim = [None; 3];
            }
        } else {
            let was = m.st.clone();
            let okay = match (&was, r) {
                (St::Sat(_), SolverResult::Sat) => true,
                (St::Unsat(_), SolverResult::Unsat) => !m.tab.sat(),
                _ => false,
            };
            ensure!(okay, "verdict:cached", "{k:?}: {r} in state {was:?}");
        }
        drop(boxed);
        // learned clauses
        for (i, l) in learners.iter().enumerate() {
            let mut l = l.borrow_mut();
            ensure!(l.after_detach == 0, "callback:detached", "{k:?}: a learner was used after it was detached");
            let max = l.max_len;
            for c in l.cls.drain(..) {
                let Some(b) = c.iter().map(|l| m.back(*l)).collect::<Option<Vec<_>>>() else {
                    bail!("learned:unknown", "{k:?}: learned clause {c} over unknown variables");
                };
                sim.probe("learned_clause");
                let _ = &mut checked; checked += 1;
                ensure!(b.len() <= max, "learned:length", "{k:?}: learned clause {b:?} is longer than {max}");
                ensure!(m.tab.implies(&b), "learned:implied", "{k:?}: learned clause {b:?} does not follow from the formula");
            }
        }
        set_ctx(sim, "query");
        if k == K::Kis && r == SolverResult::Interrupted {
            // it cannot continue, and has to say so
            let l = m.lit(1);
            ensure!(s.lit_val(l).is_err(), "state:value", "Kis: a value after an interruption");
            match s.solve() {
                Ok(SolverResult::Interrupted) => (),
                Ok(r) => verdict(&mut m, r, &[], true)?,
                Err(_) => (),
            }
            if s.add(m.clause(&[1])).is_ok() {
                m.added(&[1]);
                if let Ok(r) = s.solve() {
                    verdict(&mut m, r, &[], false)?;
                }
            }
            sim.probe("kissat_after_interruption");
            hist::heap_ok(&m)?;
            break;
        }
        check_state(sim, &m, &mut s)?;
        check_stats(sim, &m, &s)?;
        hist::heap_ok(&m)?;
    }
    sim.state(simcore::sim::hash_bytes(k as u64, format!("{:?}", m.cls).as_bytes()));
    // dropping the solver drops what is attached
    set_ctx(sim, "drop");
    drop(s);
    for t in &terms {
        ensure!(Rc::strong_count(t) == 1, "callback:leak", "{k:?}: a terminator outlives the solver");
        ensure!(t.borrow().after_detach == 0, "callback:detached", "{k:?}: a terminator was used after it was detached");
    }
    for t in &learners {
        ensure!(Rc::strong_count(t) == 1, "callback:leak", "{k:?}: a learner outlives the solver");
        ensure!(t.borrow().cls.is_empty(), "callback:detached", "{k:?}: clauses were learned outside of a search");
    }
    hist::heap_ok(&m)
}

pub fn register(sc: &mut Vec<Scenario>, pr: &mut Vec<Prop>) {
    macro_rules! s { ($($k:ident $name:literal $w:literal),* $(,)?) => { $(
        sc.push(Scenario { prop: "P11", name: $name, weight: $w, f: |s| intr(s, K::$k) });
    )* } }
    s!(Cad "cadical_interrupt" 4, Kis "kissat_interrupt" 2, MsC "minisat_interrupt" 2, MsS "minisat_simp_interrupt" 1,
       GlC "glucose_interrupt" 2, GlS "glucose_simp_interrupt" 1, Bat "batsat_interrupt" 1);
    pr.push(Prop {
        id: "P11",
        quick_runs: 300_000,
        thorough_runs: 3_000_000,
        rule: "whatever interrupts a search and whenever, the answer is right or an interruption with a cause; once everything is lifted the solver answers correctly; callbacks are used only while attached and dropped afterwards; learned clauses are short enough and implied",
        shape_measure: "distinct formulas at the end of a history, per solver",
        real: &[
            "rustsat-cadical, -kissat, -minisat, -glucose, -batsat wrappers with their native solvers (optimised build)",
            "callback trampolines, interrupters, limits",
        ],
        stub: &["heap of the native code (interrupts are delivered at chosen allocations)", "getrandom", "terminators, learners and the interrupting thread (scripted by the seed)"],
        assumptions: &[
            "interrupts from another thread arrive at allocations, callbacks or before the call",
            "interrupters are not used after their solver was dropped",
            "formulas have at most 15 variables, so that the truth table decides",
        ],
    });
}
