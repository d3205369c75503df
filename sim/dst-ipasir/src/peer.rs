//! The linked IPASIR solver: a reference solver (truth table) that does what the plan of the current
//! call says, and records when the wrapper uses the interface against its rules.
use crate::tab::Tab;
use std::cell::RefCell;
use std::ffi::{c_char, c_int, c_void};

type Term = unsafe extern "C" fn(*const c_void) -> c_int;
type Learn = unsafe extern "C" fn(*const c_void, *const c_int);

/// What the solver is to do in the next call of `ipasir_solve`
#[derive(Clone, Default, Debug)]
pub struct Plan {
    /// what happens before the search ends: polls of the terminator (`None`) and learned clauses
    pub steps: Vec<Option<Vec<c_int>>>,
    /// give up by itself
    pub give_up: bool,
    /// fault: the value returned instead of the answer
    pub solve_value: Option<c_int>,
    /// fault: the value `ipasir_failed` returns for this literal
    pub failed_value: Option<(c_int, c_int)>,
    /// fault: the value `ipasir_val` returns for this variable
    pub val_value: Option<(c_int, c_int)>,
    /// variables without a value in the model (if the model allows)
    pub blank: u64,
    /// selects the model
    pub pick: u64,
    /// selects the core
    pub order: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Last {
    Input,
    Sat(Vec<c_int>),
    Unsat(Vec<c_int>),
    Broken,
}

pub struct Slv {
    pub n: usize,
    pub open: Vec<c_int>,
    pub clauses: Vec<Vec<c_int>>,
    pub assumed: Vec<c_int>,
    pub asked: Vec<c_int>,
    pub last: Last,
    pub plan: Plan,
    pub solves: usize,
    pub polls: usize,
    pub stopped: bool,
    /// learned clauses handed to the wrapper
    pub taught: Vec<Vec<c_int>>,
    term: Option<(*const c_void, Term)>,
    learn: Option<(*const c_void, c_int, Learn)>,
}

#[derive(Default)]
pub struct World {
    pub slv: Vec<Option<Box<Slv>>>,
    pub misuse: Option<String>,
    /// number of variables of the next solver
    pub n: usize,
}

thread_local! {
    pub static W: RefCell<World> = RefCell::new(World::default());
}

fn misuse(s: String) {
    W.with(|w| {
        let w = &mut w.borrow_mut();
        if w.misuse.is_none() {
            w.misuse = Some(s);
        }
    });
}

/// Runs `f` on the solver behind a handle
fn with<R>(h: *mut c_void, what: &str, f: impl FnOnce(&mut Slv) -> R) -> Option<R> {
    let i = h as usize;
    let ok = W.with(|w| i >= 1 && w.borrow().slv.get(i - 1).is_some_and(Option::is_some));
    if !ok {
        misuse(format!("{what} called with a handle that is not a live solver"));
        return None;
    }
    Some(W.with(|w| f(w.borrow_mut().slv[i - 1].as_mut().unwrap())))
}

pub fn slv<R>(id: usize, f: impl FnOnce(&mut Slv) -> R) -> R {
    with(id as *mut c_void, "harness", f).expect("harness: solver of the plan is gone")
}

#[no_mangle]
pub extern "C" fn ipasir_signature() -> *const c_char {
    c"reference peer \xc3\xa4".as_ptr()
}

#[no_mangle]
pub extern "C" fn ipasir_init() -> *mut c_void {
    W.with(|w| {
        let w = &mut w.borrow_mut();
        let id = w.slv.len() + 1;
        let n = w.n;
        w.slv.push(Some(Box::new(Slv {
            n,
            open: vec![],
            clauses: vec![],
            assumed: vec![],
            asked: vec![],
            last: Last::Input,
            plan: Plan::default(),
            solves: 0,
            polls: 0,
            stopped: false,
            taught: vec![],
            term: None,
            learn: None,
        })));
        id as *mut c_void
    })
}

#[no_mangle]
pub extern "C" fn ipasir_release(h: *mut c_void) {
    if with(h, "ipasir_release", |_| ()).is_some() {
        W.with(|w| w.borrow_mut().slv[h as usize - 1] = None);
    }
}

#[no_mangle]
pub extern "C" fn ipasir_add(h: *mut c_void, l: c_int) {
    with(h, "ipasir_add", |s| {
        s.last = Last::Input;
        if l == 0 {
            let c = std::mem::take(&mut s.open);
            s.clauses.push(c);
        } else {
            s.open.push(l);
        }
    });
}

#[no_mangle]
pub extern "C" fn ipasir_assume(h: *mut c_void, l: c_int) {
    with(h, "ipasir_assume", |s| {
        s.last = Last::Input;
        s.assumed.push(l);
    });
    if l == 0 {
        misuse("ipasir_assume called with 0".into());
    }
}

/// Which clauses of the peer can be put into its table
pub fn table(s: &Slv) -> Tab {
    let mut t = Tab::all(s.n);
    for c in &s.clauses {
        t.add(c);
    }
    t
}

#[no_mangle]
pub extern "C" fn ipasir_solve(h: *mut c_void) -> c_int {
    let Some((open, plan)) = with(h, "ipasir_solve", |s| {
        s.solves += 1;
        s.stopped = false;
        s.taught.clear();
        s.polls = 0;
        s.asked = std::mem::take(&mut s.assumed);
        s.last = Last::Input;
        (!s.open.is_empty(), std::mem::take(&mut s.plan))
    }) else {
        return 0;
    };
    if open {
        misuse("ipasir_solve called with an unfinished clause".into());
    }
    for step in &plan.steps {
        // callbacks run without a borrow of the peer
        match step {
            None => {
                let t = with(h, "", |s| s.term).flatten();
                if let Some((p, f)) = t {
                    with(h, "", |s| s.polls += 1);
                    if unsafe { f(p) } != 0 {
                        with(h, "", |s| s.stopped = true);
                        return 0;
                    }
                }
            }
            Some(c) => {
                let t = with(h, "", |s| s.learn).flatten();
                if let Some((p, max, f)) = t {
                    if i64::try_from(c.len()).unwrap() <= i64::from(max) {
                        with(h, "", |s| s.taught.push(c.clone()));
                        let mut buf = c.clone();
                        buf.push(0);
                        unsafe { f(p, buf.as_ptr()) };
                        // the buffer belongs to the solver, which reuses it
                        buf.iter_mut().for_each(|l| *l = 0x55);
                    }
                }
            }
        }
    }
    with(h, "", |s| {
        if let Some(v) = plan.solve_value {
            s.last = Last::Broken;
            return v;
        }
        if plan.give_up {
            return 0;
        }
        let t = table(s).with(&s.asked);
        let r = if t.sat() {
            let mut m: Vec<c_int> = vec![];
            for v in 1..=s.n as c_int {
                let l = if plan.pick >> v & 1 == 1 { v } else { -v };
                m.push(l);
                if !t.sat_with(&m) {
                    m.pop();
                    m.push(-l);
                }
            }
            // leave out what the model does not need
            for v in 1..=s.n as c_int {
                if plan.blank >> v & 1 == 1 {
                    let rest: Vec<c_int> = m.iter().copied().filter(|l| l.abs() != v).collect();
                    let all = s.clauses.iter().all(|c| c.iter().any(|l| rest.contains(l))) && s.asked.iter().all(|l| rest.contains(l));
                    if all {
                        m = rest;
                    }
                }
            }
            s.last = Last::Sat(m);
            10
        } else {
            let mut core = s.asked.clone();
            core.sort_unstable();
            core.dedup();
            let mut rest: Vec<c_int> = core.clone();
            rest.sort_by_key(|l| simcore::sim::mix(plan.order, *l as u64));
            let t = table(s);
            for l in rest {
                let less: Vec<c_int> = core.iter().copied().filter(|x| *x != l).collect();
                // not always minimal
                if !t.sat_with(&less) && (simcore::sim::mix(plan.order, 1000 + l.unsigned_abs() as u64) % 5 > 0) {
                    core = less;
                }
            }
            s.last = Last::Unsat(core);
            20
        };
        s.plan.failed_value = plan.failed_value;
        s.plan.val_value = plan.val_value;
        r
    })
    .unwrap_or(0)
}

#[no_mangle]
pub extern "C" fn ipasir_val(h: *mut c_void, l: c_int) -> c_int {
    let r = with(h, "ipasir_val", |s| match &s.last {
        Last::Sat(m) => {
            if let Some((v, x)) = s.plan.val_value {
                if v == l.abs() {
                    return Ok(x);
                }
            }
            Ok(if m.contains(&l) {
                l
            } else if m.contains(&-l) {
                -l
            } else {
                0
            })
        }
        o => Err(format!("ipasir_val called in state {o:?}")),
    });
    if l == 0 {
        misuse("ipasir_val called with 0".into());
    }
    match r {
        Some(Ok(v)) => v,
        Some(Err(e)) => {
            misuse(e);
            0
        }
        None => 0,
    }
}

#[no_mangle]
pub extern "C" fn ipasir_failed(h: *mut c_void, l: c_int) -> c_int {
    let r = with(h, "ipasir_failed", |s| {
        if !s.asked.contains(&l) {
            return Err(format!("ipasir_failed called for {l}, assumed were {:?}", s.asked));
        }
        match &s.last {
            Last::Unsat(c) => {
                if let Some((v, x)) = s.plan.failed_value {
                    if v == l {
                        return Ok(x);
                    }
                }
                Ok(c_int::from(c.contains(&l)))
            }
            o => Err(format!("ipasir_failed called in state {o:?}")),
        }
    });
    match r {
        Some(Ok(v)) => v,
        Some(Err(e)) => {
            misuse(e);
            0
        }
        None => 0,
    }
}

#[no_mangle]
pub extern "C" fn ipasir_set_terminate(h: *mut c_void, p: *const c_void, f: Option<Term>) {
    with(h, "ipasir_set_terminate", |s| s.term = f.map(|f| (p, f)));
}

#[no_mangle]
pub extern "C" fn ipasir_set_learn(h: *mut c_void, p: *const c_void, max: c_int, f: Option<Learn>) {
    if max < 0 {
        misuse(format!("ipasir_set_learn called with length {max}"));
    }
    with(h, "ipasir_set_learn", |s| s.learn = f.map(|f| (p, max, f)));
}
