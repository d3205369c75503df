//! Supervisor, workers, minimiser, replay and evidence.
use crate::sim::{hash_str, mix, Outcome, Sim, Violation};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
pub struct Scenario {
    pub prop: &'static str,
    pub name: &'static str,
    pub weight: u32,
    pub f: fn(&mut Sim) -> Outcome,
}

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub rule: &'static str,
    pub shape_measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub struct App {
    pub scenarios: Vec<Scenario>,
    pub props: Vec<Prop>,
    /// called on the run's own thread before the scenario starts (seeds hash maps, clocks, ...)
    pub enter_run: fn(u64),
    /// called on the run's own thread after the scenario ended, also after a panic
    pub leave_run: fn(),
    /// scenarios whose name starts with the first string run in the binary of the second name, next
    /// to this one (code that cannot be linked together); first match counts, "" matches all
    pub homes: &'static [(&'static str, &'static str)],
}

static HOMES: std::sync::OnceLock<&'static [(&'static str, &'static str)]> = std::sync::OnceLock::new();

fn home_of(scenario: &str) -> &'static str {
    HOMES.get().and_then(|h| h.iter().find(|(p, _)| scenario.starts_with(p))).map_or("", |(_, b)| b)
}

fn exe_of(home: &str) -> PathBuf {
    let me = std::env::current_exe().unwrap();
    if home.is_empty() {
        me
    } else {
        me.with_file_name(home)
    }
}

fn is_home(scenario: &str) -> bool {
    let h = home_of(scenario);
    h.is_empty() || std::env::current_exe().unwrap().file_name().is_some_and(|f| f == h)
}

static HOOKS: std::sync::OnceLock<(fn(u64), fn())> = std::sync::OnceLock::new();
static REPORT_FD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);

/// From here on the process' standard output is discarded (solvers print); reports go to the
/// descriptor that was the standard output
fn take_stdout() {
    unsafe {
        let fd = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 700);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        assert!(fd >= 0 && null >= 0);
        libc::dup2(null, 1);
        libc::close(null);
        REPORT_FD.store(fd, std::sync::atomic::Ordering::SeqCst);
    }
}

fn report(v: &Value) {
    let mut b = v.to_string().into_bytes();
    b.push(b'\n');
    crate::sys::write_all(REPORT_FD.load(std::sync::atomic::Ordering::SeqCst), &b);
}

pub const HARNESS: &str = "HARNESS";

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

// ---------------------------------------------------------------- one run

thread_local! {
    static PANIC_INFO: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map_or_else(String::new, |l| format!("{}:{}", l.file(), l.line()));
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC_INFO.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub fn take_panic() -> Option<(String, String)> {
    PANIC_INFO.with(|p| p.borrow_mut().take())
}

fn is_harness_loc(loc: &str) -> bool {
    loc.starts_with("dst-core") || loc.starts_with("dst-solvers") || loc.starts_with("simcore")
        || loc.contains("/verif/sim/")
}

/// class of a panic: the source file (not the line, which any edit moves) and the leading words
fn panic_class(ctx: &str, loc: &str, msg: &str) -> String {
    let file = loc.rsplit_once(':').map_or(loc, |x| x.0);
    let file = file.rsplit("/repo/").next().unwrap_or(file);
    let head: String = msg
        .chars()
        .take(60)
        .map(|c| if c.is_ascii_digit() { '#' } else { c })
        .collect();
    if ctx.is_empty() {
        format!("panic:{file}:{head}")
    } else {
        format!("panic:{ctx}:{file}:{head}")
    }
}

pub fn run_one(sc: &Scenario, sim: &mut Sim) -> Outcome {
    // a thread of its own per run: thread-local state (hash keys, caches) starts fresh, so that a
    // run depends on its seed and tape only
    let seed = sim.seed;
    let simp = &mut *sim;
    let r = std::thread::scope(|sp| {
        std::thread::Builder::new()
            .name("run".into())
            .stack_size(32 << 20)
            .spawn_scoped(sp, move || {
                if let Some((enter, _)) = HOOKS.get() {
                    enter(seed);
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.f)(simp)));
                let p = if r.is_err() { take_panic() } else { None };
                if let Some((_, leave)) = HOOKS.get() {
                    leave();
                }
                (r, p)
            })
            .expect("run thread")
            .join()
    });
    let (r, pinfo) = match r {
        Ok(x) => x,
        Err(_) => return crate::violation(format!("{HARNESS}:thread"), "run thread died"),
    };
    match r {
        Ok(o) => o,
        Err(_) => {
            let (loc, msg) = pinfo.unwrap_or_default();
            if is_harness_loc(&loc) {
                Err(Violation {
                    class: format!("{HARNESS}:panic"),
                    detail: format!("{loc}: {msg}"),
                })
            } else {
                Err(Violation {
                    class: panic_class(&sim.panic_ctx, &loc, &msg),
                    detail: format!("the code under test panicked at {loc}: {msg}"),
                })
            }
        }
    }
}

// ---------------------------------------------------------------- worker

/// Shared page: current run (index + 1), context string
struct Shared {
    ptr: *mut u8,
}
const SHARED_LEN: usize = 4096;

impl Shared {
    fn open(path: &Path) -> Self {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("shared file");
        f.set_len(SHARED_LEN as u64).expect("set_len");
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SHARED_LEN,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(ptr != libc::MAP_FAILED);
        Shared { ptr: ptr.cast() }
    }
    fn set(&self, idx: u64) {
        unsafe { self.ptr.cast::<u64>().write_volatile(idx + 1) }
    }
    fn get(&self) -> Option<u64> {
        unsafe { self.ptr.cast::<u64>().read_volatile() }.checked_sub(1)
    }
    fn ctx(&self) -> String {
        let s = unsafe { std::slice::from_raw_parts(self.ptr.add(16), 512) };
        let n = s.iter().position(|&b| b == 0).unwrap_or(512);
        String::from_utf8_lossy(&s[..n]).into_owned()
    }
}

static mut CTX_PTR: *mut u8 = std::ptr::null_mut();

/// Names the call site about to run, so that a crash of the whole process can be attributed
pub fn set_ctx(sim: &mut Sim, ctx: &str) {
    sim.panic_ctx.clear();
    sim.panic_ctx.push_str(ctx);
    unsafe {
        if !CTX_PTR.is_null() {
            let n = ctx.len().min(511);
            std::ptr::copy_nonoverlapping(ctx.as_ptr(), CTX_PTR, n);
            *CTX_PTR.add(n) = 0;
        }
    }
}

fn seed_of(base: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(base, hash_str(prop)), idx)
}

fn pick_scenario<'a>(scs: &'a [Scenario], idx: u64) -> &'a Scenario {
    let total: u64 = scs.iter().map(|s| u64::from(s.weight)).sum();
    // low-discrepancy interleaving of the scenarios over the indices
    let mut x = mix(idx, 77) % total;
    for s in scs {
        if x < u64::from(s.weight) {
            return s;
        }
        x -= u64::from(s.weight);
    }
    &scs[0]
}

impl App {
    fn scs(&self, prop: &str) -> Vec<Scenario> {
        self.scenarios
            .iter()
            .filter(|s| s.prop == prop)
            .copied()
            .collect()
    }

    fn worker(&self, args: &[String]) -> i32 {
        take_stdout();
        let prop = &args[0];
        let base: u64 = args[1].parse().unwrap();
        let start: u64 = args[2].parse().unwrap();
        let stride: u64 = args[3].parse().unwrap();
        let end: u64 = args[4].parse().unwrap();
        let secs: u64 = args[5].parse().unwrap();
        let shared = Shared::open(Path::new(&args[6]));
        let states_file = &args[7];
        let hash_every: u64 = args[8].parse().unwrap();
        let known: Vec<String> = serde_json::from_str(&args[9]).unwrap();
        unsafe { CTX_PTR = shared.ptr.add(16) };
        let scs = self.scs(prop);
        let here: HashSet<&str> = scs.iter().map(|s| s.name).filter(|n| is_home(n)).collect();
        let deadline = Instant::now() + Duration::from_secs(secs);
        let mut sim = Sim::new(0);
        let mut hashes = vec![];
        let mut shapes: HashSet<u64> = HashSet::new();
        let mut knownhits: BTreeMap<String, (u64, u64)> = BTreeMap::new();
        let mut per_sc: BTreeMap<&str, u64> = BTreeMap::new();
        let mut samples: Vec<Value> = vec![];
        let mut viol = None;
        let mut idx = start;
        let mut timed_out = false;
        let mut nontrivial: u64 = 0;
        let mut fault_free: u64 = 0;
        let mut runs: u64 = 0;
        while idx < end {
            if Instant::now() >= deadline {
                timed_out = true;
                break;
            }
            let sc = pick_scenario(&scs, idx);
            if !here.contains(sc.name) {
                idx += stride;
                continue;
            }
            shared.set(idx);
            sim.reset(seed_of(base, prop, idx), None);
            sim.keep_log = samples.len() < 2 && idx / stride % 50 == 7;
            let out = run_one(sc, &mut sim);
            runs += 1;
            *per_sc.entry(sc.name).or_insert(0) += 1;
            if sim.n_faults == 0 {
                fault_free += 1;
            }
            if sim.nontrivial && shapes.insert(sim.loghash) {
                nontrivial += 1;
            }
            if sim.keep_log && sim.nontrivial {
                let log: Vec<&String> = sim.log.iter().take(25).collect();
                samples.push(json!({"scenario": sc.name, "run": idx, "seed": sim.seed, "events": sim.n_events, "trace": log}));
            }
            if hash_every > 0 && idx % hash_every == 0 {
                hashes.push(json!([idx, sim.loghash]));
            }
            if let Err(v) = out {
                if known.iter().any(|k| k == &v.class) {
                    let e = knownhits.entry(v.class.clone()).or_insert((0, idx));
                    e.0 += 1;
                } else {
                    viol = Some(json!({
                        "idx": idx, "scenario": sc.name, "seed": sim.seed, "class": v.class,
                        "detail": v.detail, "tape": sim.tape, "loghash": sim.loghash,
                    }));
                    break;
                }
            }
            idx += stride;
        }
        for (k, n) in &sim.known_hits {
            knownhits.entry(k.clone()).or_insert((0, 0)).0 += n;
        }
        let mut f = std::io::BufWriter::new(std::fs::File::create(states_file).unwrap());
        for s in &sim.st.states {
            f.write_all(&s.to_le_bytes()).unwrap();
        }
        drop(f);
        report(
            &json!({
                "done": true, "runs": runs, "next": idx, "timed_out": timed_out,
                "steps": sim.st.steps, "simtime_ns": sim.st.simtime_ns,
                "faults": sim.st.faults, "probes": sim.st.probes, "ops": sim.st.ops,
                "nontrivial": nontrivial, "fault_free": fault_free, "hashes": hashes,
                "known": knownhits, "per_sc": per_sc, "samples": samples, "violation": viol,
                "n_states": sim.st.states.len(),
            })
        );
        0
    }

    /// Executes tapes given one per line on stdin
    fn execmany(&self, args: &[String]) -> i32 {
        take_stdout();
        let prop = &args[0];
        let scname = &args[1];
        let scs = self.scs(prop);
        let sc = scs.iter().find(|s| s.name == scname).expect("scenario");
        let shared = Shared::open(Path::new(&args[2]));
        unsafe { CTX_PTR = shared.ptr.add(16) };
        let mut sim = Sim::new(0);
        for line in std::io::stdin().lock().lines() {
            let line = line.unwrap();
            let req: Value = serde_json::from_str(&line).unwrap();
            let tape: Vec<u64> = serde_json::from_value(req["tape"].clone()).unwrap();
            sim.reset(req["seed"].as_u64().unwrap_or(0), Some(tape));
            sim.keep_log = req["log"].as_bool().unwrap_or(false);
            // not through the interposed functions
            let live = sim.keep_log.then(|| unsafe {
                let p = std::ffi::CString::new(format!("{}.log", args[2])).unwrap();
                libc::syscall(libc::SYS_open, p.as_ptr(), libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY, 0o600) as i32
            });
            sim.live_log = live;
            let out = run_one(sc, &mut sim);
            let (class, detail) = match out {
                Ok(()) => (Value::Null, String::new()),
                Err(v) => (json!(v.class), v.detail),
            };
            if let Some(fd) = live {
                unsafe { libc::syscall(libc::SYS_close, fd) };
            }
            report(
                &json!({"class": class, "detail": detail, "tape": sim.tape, "loghash": sim.loghash, "log": sim.log})
            );
        }
        0
    }
}

/// Reported from inside a simulated run that cannot be unwound (deadlock, livelock): prints the
/// violation the way the worker/executor would and leaves the process.
pub fn die_with(sim: &Sim, v: &Violation) -> ! {
    let s = json!({
        "abort": true, "class": v.class, "detail": v.detail, "tape": sim.tape,
        "loghash": sim.loghash, "log": sim.log, "seed": sim.seed,
    });
    report(&s);
    crate::sys::exit(77)
}

// ---------------------------------------------------------------- executor used by the supervisor

struct Exec<'a> {
    prop: &'a str,
    scenario: &'a str,
    child: Option<(Child, BufReader<std::process::ChildStdout>)>,
    shared: PathBuf,
    pub n: u64,
}

#[derive(Debug, Clone)]
struct ExecOut {
    class: Option<String>,
    detail: String,
    tape: Option<Vec<u64>>,
    loghash: u64,
    log: Vec<String>,
}

impl<'a> Exec<'a> {
    fn new(prop: &'a str, scenario: &'a str, tmp: &Path) -> Self {
        Exec {
            prop,
            scenario,
            child: None,
            shared: tmp.join("exec-shared"),
            n: 0,
        }
    }

    fn run(&mut self, seed: u64, tape: &[u64], log: bool, timeout: Duration) -> ExecOut {
        self.n += 1;
        if self.child.is_none() {
            let mut c = Command::new(exe_of(home_of(self.scenario)))
                .args(["execmany", self.prop, self.scenario])
                .arg(&self.shared)
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn executor");
            let out = BufReader::new(c.stdout.take().unwrap());
            self.child = Some((c, out));
        }
        let (c, out) = self.child.as_mut().unwrap();
        let req = format!("{}\n", json!({"seed": seed, "tape": tape, "log": log}));
        let _ = c.stdin.as_mut().unwrap().write_all(req.as_bytes());
        let _ = c.stdin.as_mut().unwrap().flush();
        // watchdog: kill the executor if the run makes no progress
        let pid = c.id() as i32;
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        let wd = std::thread::spawn(move || {
            if rx.recv_timeout(timeout) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
                unsafe { libc::kill(pid, libc::SIGKILL) };
                true
            } else {
                false
            }
        });
        let mut line = String::new();
        let n = out.read_line(&mut line).unwrap_or(0);
        drop(tx);
        let killed = wd.join().unwrap();
        let parsed: Option<Value> = if n > 0 {
            serde_json::from_str(&line).ok()
        } else {
            None
        };
        if let Some(v) = parsed {
            let aborted = v["abort"].as_bool().unwrap_or(false);
            let res = ExecOut {
                class: v["class"].as_str().map(String::from),
                detail: v["detail"].as_str().unwrap_or("").to_string(),
                tape: serde_json::from_value(v["tape"].clone()).ok(),
                loghash: v["loghash"].as_u64().unwrap_or(0),
                log: serde_json::from_value(v["log"].clone()).unwrap_or_default(),
            };
            if aborted {
                self.kill();
            }
            return res;
        }
        let (mut c, _) = self.child.take().unwrap();
        let st = c.wait().unwrap();
        let sig = st.signal().unwrap_or(0);
        let ctx = Shared::open(&self.shared).ctx();
        ExecOut {
            class: Some(if killed {
                format!("hang:{ctx}")
            } else {
                format!("crash:signal {sig}:{ctx}")
            }),
            detail: if killed {
                format!("the run made no progress for {} s in [{ctx}]", timeout.as_secs())
            } else {
                format!("the process died (signal {sig}, status {st}) in [{ctx}]")
            },
            tape: None,
            loghash: 0,
            log: if log {
                let p = format!("{}.log", self.shared.display());
                let t = std::fs::read(p).unwrap_or_default();
                String::from_utf8_lossy(&t).lines().map(String::from).collect()
            } else {
                vec![]
            },
        }
    }

    fn kill(&mut self) {
        if let Some((mut c, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

impl Drop for Exec<'_> {
    fn drop(&mut self) {
        self.kill();
    }
}

fn minimise(ex: &mut Exec, seed: u64, tape: Vec<u64>, class: &str, secs: u64) -> Vec<u64> {
    let end = Instant::now() + Duration::from_secs(secs);
    let to = Duration::from_secs(20);
    let mut best = tape;
    while best.last() == Some(&0) {
        best.pop();
    }
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>| -> bool {
        let r = ex.run(seed, cand, false, to);
        if r.class.as_deref() == Some(class) {
            let mut t = r.tape.unwrap_or_else(|| cand.to_vec());
            while t.last() == Some(&0) {
                t.pop();
            }
            let better = t.len() < best.len()
                || (t.len() == best.len() && t.iter().sum::<u64>() < best.iter().sum::<u64>());
            if better {
                *best = t;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len().saturating_sub(size);
            loop {
                if Instant::now() > end {
                    return best;
                }
                if i < best.len() {
                    let mut cand = best.clone();
                    cand.drain(i..(i + size).min(best.len()));
                    let ok = attempt(&cand, &mut best);
                    if !ok && best[i..(i + size).min(best.len())].iter().any(|&x| x != 0) {
                        let mut cand = best.clone();
                        let hi = (i + size).min(cand.len());
                        for x in &mut cand[i..hi] {
                            *x = 0;
                        }
                        attempt(&cand, &mut best);
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size);
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if Instant::now() > end {
                return best;
            }
            while i < best.len() && best[i] > 0 {
                let v = best[i];
                let mut ok = false;
                for c in [v / 2, v - 1] {
                    let mut cand = best.clone();
                    cand[i] = c;
                    if c < v && attempt(&cand, &mut best) {
                        ok = true;
                        break;
                    }
                }
                if !ok {
                    break;
                }
            }
        }
        if best == before || Instant::now() > end {
            return best;
        }
    }
}

// ---------------------------------------------------------------- supervisor

struct KnownFinding {
    prop: String,
    class: String,
    what: String,
}

fn known_findings() -> Vec<KnownFinding> {
    let p = verif_dir().join("known_findings.jsonl");
    let Ok(s) = std::fs::read_to_string(p) else {
        return vec![];
    };
    s.lines()
        .filter(|l| !l.trim().is_empty())
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["kind"] == "finding")
        .map(|v| KnownFinding {
            prop: v["property"].as_str().unwrap_or("").into(),
            class: v["class"].as_str().unwrap_or("").into(),
            what: v["what"].as_str().unwrap_or("").into(),
        })
        .collect()
}

fn merge_counts(into: &mut BTreeMap<String, u64>, v: &Value) {
    if let Some(o) = v.as_object() {
        for (k, x) in o {
            *into.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
        }
    }
}

impl App {
    fn check(&self, args: &[String]) -> i32 {
        let t0 = Instant::now();
        let id = args[0].clone();
        let get = |name: &str| -> Option<String> {
            args.iter()
                .position(|a| a == name)
                .and_then(|i| args.get(i + 1).cloned())
        };
        let tier = get("--tier")
            .or_else(|| std::env::var("VERIF_TIER").ok())
            .unwrap_or_else(|| "quick".into());
        let base: u64 = get("--seed")
            .or_else(|| std::env::var("VERIF_SEED").ok())
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let prop = *self
            .props
            .iter()
            .find(|p| p.id == id)
            .unwrap_or_else(|| panic!("unknown property {id}"));
        let thorough = tier == "thorough";
        let runs: u64 = get("--runs").map_or(
            if thorough {
                prop.thorough_runs
            } else {
                prop.quick_runs
            },
            |s| s.parse().unwrap(),
        );
        let secs: u64 = get("--secs").map_or(if thorough { 3300 } else { 240 }, |s| {
            s.parse().unwrap()
        });
        let workers: u64 = get("--workers").map_or(8, |s| s.parse().unwrap());
        let tmp = std::env::temp_dir().join(format!("dst-{}-{}", id, std::process::id()));
        std::fs::create_dir_all(&tmp).unwrap();
        let known: Vec<KnownFinding> = known_findings()
            .into_iter()
            .filter(|k| k.prop == id)
            .collect();
        let known_classes: Vec<String> = known.iter().map(|k| k.class.clone()).collect();
        let hang = Duration::from_secs(if thorough { 120 } else { 60 });

        struct W {
            start: u64,
            child: Child,
            rx: std::sync::mpsc::Receiver<String>,
            last: (Option<u64>, Instant),
            gen: u32,
        }
        let scs = self.scs(&id);
        let mut homes: Vec<&str> = scs.iter().map(|s| home_of(s.name)).collect();
        homes.sort_unstable();
        homes.dedup();
        let spawn = |w: u64, start: u64, gen: u32, stride: u64, end: u64, every: u64| -> W {
            let shared = tmp.join(format!("shared-{w}"));
            let _ = std::fs::remove_file(&shared);
            let left = secs.saturating_sub(t0.elapsed().as_secs()).max(1);
            let mut c = Command::new(exe_of(homes[w as usize % homes.len()]))
                .arg("worker")
                .arg(&id)
                .arg(base.to_string())
                .arg(start.to_string())
                .arg(stride.to_string())
                .arg(end.to_string())
                .arg(left.to_string())
                .arg(&shared)
                .arg(tmp.join(format!("states-{w}-{gen}")))
                .arg(every.to_string())
                .arg(serde_json::to_string(&known_classes).unwrap())
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn worker");
            let out = BufReader::new(c.stdout.take().unwrap());
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                for l in out.lines().map_while(Result::ok) {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
            });
            W {
                start,
                child: c,
                rx,
                last: (None, Instant::now()),
                gen,
            }
        };
        let hash_every = (runs / 400).max(1);
        let slots = workers * homes.len() as u64;
        let mut ws: Vec<Option<W>> = (0..slots)
            .map(|w| Some(spawn(w, w / homes.len() as u64, 0, workers, runs, hash_every)))
            .collect();

        let mut stats: BTreeMap<&str, BTreeMap<String, u64>> = BTreeMap::new();
        let (mut total_runs, mut steps, mut simtime, mut nontrivial, mut fault_free) =
            (0u64, 0u64, 0u64, 0u64, 0u64);
        let mut timed_out = false;
        let mut hashes: BTreeMap<u64, u64> = BTreeMap::new();
        let mut samples: Vec<Value> = vec![];
        let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
        struct Found {
            idx: u64,
            scenario: String,
            seed: u64,
            class: String,
            detail: String,
            tape: Option<Vec<u64>>,
        }
        let mut found: Vec<Found> = vec![];
        let mut first_found: Option<Instant> = None;
        let mut lost_runs = 0u64;
        loop {
            let mut alive = 0;
            for w in 0..slots as usize {
                let Some(x) = ws[w].as_mut() else { continue };
                let shared_path = tmp.join(format!("shared-{w}"));
                let cur = if shared_path.exists() {
                    Shared::open(&shared_path).get()
                } else {
                    None
                };
                let mut lines = vec![];
                while let Ok(l) = x.rx.try_recv() {
                    lines.push(l);
                }
                let status = x.child.try_wait().unwrap();
                if status.is_some() {
                    while let Ok(l) = x.rx.recv_timeout(Duration::from_millis(300)) {
                        lines.push(l);
                    }
                }
                let mut respawn: Option<u64> = None;
                let mut done = false;
                for l in &lines {
                    let Ok(v) = serde_json::from_str::<Value>(l) else {
                        continue;
                    };
                    if v["done"] == true {
                        done = true;
                        total_runs += v["runs"].as_u64().unwrap();
                        steps += v["steps"].as_u64().unwrap();
                        simtime += v["simtime_ns"].as_u64().unwrap();
                        nontrivial += v["nontrivial"].as_u64().unwrap();
                        fault_free += v["fault_free"].as_u64().unwrap();
                        timed_out |= v["timed_out"] == true;
                        for k in ["faults", "probes", "ops", "per_sc"] {
                            merge_counts(stats.entry(k).or_default(), &v[k]);
                        }
                        for h in v["hashes"].as_array().unwrap() {
                            hashes.insert(h[0].as_u64().unwrap(), h[1].as_u64().unwrap());
                        }
                        for s in v["samples"].as_array().unwrap() {
                            if samples.len() < 4 {
                                samples.push(s.clone());
                            }
                        }
                        if let Some(o) = v["known"].as_object() {
                            for (k, c) in o {
                                *known_hits.entry(k.clone()).or_insert(0) +=
                                    c[0].as_u64().unwrap();
                            }
                        }
                        if !v["violation"].is_null() {
                            let f = &v["violation"];
                            found.push(Found {
                                idx: f["idx"].as_u64().unwrap(),
                                scenario: f["scenario"].as_str().unwrap().into(),
                                seed: f["seed"].as_u64().unwrap(),
                                class: f["class"].as_str().unwrap().into(),
                                detail: f["detail"].as_str().unwrap().into(),
                                tape: serde_json::from_value(f["tape"].clone()).ok(),
                            });
                        }
                    } else if v["abort"] == true {
                        done = true;
                        let idx = cur.unwrap_or(x.start);
                        let class = v["class"].as_str().unwrap().to_string();
                        lost_runs += (idx - x.start) / workers;
                        if known_classes.contains(&class) {
                            *known_hits.entry(class).or_insert(0) += 1;
                            respawn = Some(idx + workers);
                        } else {
                            found.push(Found {
                                idx,
                                scenario: pick_scenario(&scs, idx).name.into(),
                                seed: v["seed"].as_u64().unwrap(),
                                class,
                                detail: v["detail"].as_str().unwrap().into(),
                                tape: serde_json::from_value(v["tape"].clone()).ok(),
                            });
                        }
                    }
                }
                let hung = status.is_none() && !done && {
                    if cur != x.last.0 {
                        x.last = (cur, Instant::now());
                    }
                    x.last.1.elapsed() > hang
                };
                if hung {
                    let _ = x.child.kill();
                    let _ = x.child.wait();
                }
                if (status.is_some() || hung) && !done {
                    // died without a report
                    let idx = cur.unwrap_or(x.start);
                    let ctx = Shared::open(&shared_path).ctx();
                    let class = if hung {
                        format!("hang:{ctx}")
                    } else {
                        let sig = status.and_then(|s| s.signal()).unwrap_or(0);
                        format!("crash:signal {sig}:{ctx}")
                    };
                    lost_runs += (idx - x.start) / workers;
                    if known_classes.contains(&class) {
                        *known_hits.entry(class).or_insert(0) += 1;
                        respawn = Some(idx + workers);
                    } else {
                        found.push(Found {
                            idx,
                            scenario: pick_scenario(&scs, idx).name.into(),
                            seed: seed_of(base, &id, idx),
                            detail: format!(
                                "the simulated process died or hung: {class} (status {status:?})"
                            ),
                            class,
                            tape: None,
                        });
                    }
                    done = true;
                }
                if done {
                    let gen = x.gen + 1;
                    let _ = x.child.wait();
                    ws[w] = match respawn {
                        Some(i) if i < runs && found.is_empty() => {
                            Some(spawn(w as u64, i, gen, workers, runs, hash_every))
                        }
                        _ => None,
                    };
                }
                if ws[w].is_some() {
                    alive += 1;
                }
            }
            if !found.is_empty() {
                let t = *first_found.get_or_insert_with(Instant::now);
                // give workers that are still before the found index a moment to report
                if t.elapsed() > Duration::from_secs(5) {
                    for w in ws.iter_mut().flatten() {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                    }
                    break;
                }
            }
            if alive == 0 {
                break;
            }
            std::thread::sleep(Duration::from_millis(50));
        }

        // union of states
        let mut states: HashSet<u64> = HashSet::new();
        if let Ok(rd) = std::fs::read_dir(&tmp) {
            for e in rd.flatten() {
                if e.file_name().to_string_lossy().starts_with("states-") {
                    if let Ok(b) = std::fs::read(e.path()) {
                        for c in b.chunks_exact(8) {
                            states.insert(u64::from_le_bytes(c.try_into().unwrap()));
                        }
                    }
                }
            }
        }

        // determinism self-check: the sampled runs again, in one other process, other neighbours
        let mut det_checked = 0u64;
        let mut det_bad: Option<String> = None;
        if found.is_empty() && get("--no-det").is_none() && !hashes.is_empty() {
            let det_runs: Vec<u64> = hashes.keys().copied().take(400).collect();
            let mut got: BTreeMap<u64, u64> = BTreeMap::new();
            let mut reported = false;
            for h in 0..homes.len() {
            let mut w = spawn(
                (homes.len() as u64) * 100 + h as u64,
                det_runs[0],
                0,
                hash_every,
                det_runs.last().unwrap() + 1,
                1,
            );
                        while let Ok(l) = w.rx.recv_timeout(Duration::from_secs(90)) {
                if let Ok(v) = serde_json::from_str::<Value>(&l) {
                    if v["done"] == true {
                        reported = true;
                        for h in v["hashes"].as_array().unwrap() {
                            got.insert(h[0].as_u64().unwrap(), h[1].as_u64().unwrap());
                        }
                        break;
                    }
                }
            }
            let _ = w.child.kill();
            let _ = w.child.wait();
            }
            if reported {
                for (k, h) in &got {
                    if let Some(o) = hashes.get(k) {
                        det_checked += 1;
                        if o != h {
                            det_bad = Some(format!("run {k}: trace hash {o:x} vs {h:x}"));
                        }
                    }
                }
            }
        }

        let wall_search = t0.elapsed().as_secs_f64();
        let mut exit = 0;
        let mut violations = 0;
        let mut viol_json = Value::Null;
        if !found.is_empty() {
            found.sort_by_key(|f| f.idx);
            let f = found
                .iter()
                .find(|f| !f.class.starts_with(HARNESS))
                .unwrap_or(&found[0]);
            if f.class.starts_with(HARNESS) {
                eprintln!("harness error in {} run {}: {}", f.scenario, f.idx, f.detail);
                exit = 2;
            } else {
                violations = 1;
                exit = 1;
                let mut ex = Exec::new(&id, &f.scenario, &tmp);
                // a run that crashed or hung left no tape: regenerate it from the seed
                let tape = f.tape.clone().unwrap_or_else(|| {
                    tape_from_seed(home_of(&f.scenario), &id, base, f.idx, &tmp).unwrap_or_default()
                });
                let orig_len = tape.len();
                let min = if f.class.starts_with("hang") {
                    tape
                } else {
                    minimise(&mut ex, f.seed, tape, &f.class, 40)
                };
                let fin = ex.run(f.seed, &min, true, hang);
                let dir = verif_dir().join("replays");
                std::fs::create_dir_all(&dir).unwrap();
                let path = dir.join(format!("{id}-{}-{}.json", base, f.idx));
                let detail = if fin.class.as_deref() == Some(&f.class) {
                    fin.detail.clone()
                } else {
                    f.detail.clone()
                };
                std::fs::write(
                    &path,
                    serde_json::to_string_pretty(&json!({
                        "property": id, "scenario": f.scenario, "verif_seed": base, "run": f.idx,
                        "seed": f.seed, "class": f.class, "detail": detail,
                        "tape": min, "original_tape_len": orig_len, "minimiser_runs": ex.n,
                        "loghash": fin.loghash, "reproduced": fin.class.as_deref() == Some(&f.class),
                        "trace": fin.log,
                    }))
                    .unwrap(),
                )
                .unwrap();
                println!("violated: {}", f.class);
                println!("  {detail}");
                println!(
                    "  scenario {} seed {} run {} (tape {} -> {} choices)",
                    f.scenario,
                    f.seed,
                    f.idx,
                    orig_len,
                    min.len()
                );
                for l in fin.log.iter().rev().take(12).rev() {
                    println!("    | {l}");
                }
                println!("VIOLATION property={id} replay={}", path.display());
                viol_json = json!({"class": f.class, "detail": detail, "replay": path});
            }
        } else if let Some(b) = &det_bad {
            eprintln!("harness error: nondeterministic run: {b}");
            exit = 2;
        }
        for k in &known {
            println!("KNOWN-FINDING: property={id} {}", k.what);
        }

        let hours = wall_search / 3600.0;
        let ev = json!({
            "property": id, "tier": tier, "seed": base, "level": "exploration",
            "coverage": {
                "evaluations": total_runs,
                "distinct_nontrivial": nontrivial,
                "rule": prop.rule,
                "samples": samples,
                "simulated_runs_per_hour": (total_runs as f64 / hours) as u64,
                "seeds_per_hour": (total_runs as f64 / hours) as u64,
                "simulated_time_s": simtime as f64 / 1e9,
                "steps": steps,
                "runs_cut_by_wall_limit": timed_out,
                "runs_in_workers_that_died": lost_runs,
                "fault_free_runs": fault_free,
                "faults_injected": stats.get("faults").cloned().unwrap_or_default(),
                "rare_conditions_reached": stats.get("probes").cloned().unwrap_or_default(),
                "operations": stats.get("ops").cloned().unwrap_or_default(),
                "runs_per_scenario": stats.get("per_sc").cloned().unwrap_or_default(),
                "distinct_states": states.len(),
                "state_measure": prop.shape_measure,
                "determinism_recheck": {"runs_executed_twice_in_different_processes": det_checked,
                                          "differing_traces": i32::from(det_bad.is_some())},
                "known_findings_hit": known_hits,
                "components_real": prop.real,
                "components_stubbed": prop.stub,
                "violation": viol_json,
            },
            "assumptions": prop.assumptions,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": violations,
        });
        let evd = verif_dir().join("evidence");
        std::fs::create_dir_all(&evd).unwrap();
        std::fs::write(
            evd.join(format!("{id}.json")),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .unwrap();
        println!(
            "{id}: {total_runs} runs ({nontrivial} distinct non-trivial, {} states, {} fault kinds) in {wall_search:.1}s, determinism {det_checked} ok, exit {exit}",
            states.len(),
            stats.get("faults").map_or(0, BTreeMap::len),
        );
        if exit == 2 || std::env::var("DST_VERBOSE").is_ok() {
            eprintln!("{}", serde_json::to_string_pretty(&ev["coverage"]).unwrap());
        }
        for w in ws.iter_mut().flatten() {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
        let _ = std::fs::remove_dir_all(&tmp);
        exit
    }

    fn tape(&self, args: &[String]) -> i32 {
        // prints the tape of a run as it is drawn, so that it survives a crash
        let prop = &args[0];
        let base: u64 = args[1].parse().unwrap();
        let idx: u64 = args[2].parse().unwrap();
        let scs = self.scs(prop);
        let sc = pick_scenario(&scs, idx);
        let mut sim = Sim::new(0);
        sim.reset(seed_of(base, prop, idx), None);
        unsafe { TAPE_FD = 1 };
        let _ = run_one(sc, &mut sim);
        let b: Vec<String> = sim.tape.iter().map(u64::to_string).collect();
        println!("{}", b.join(" "));
        0
    }

    fn replay(&self, args: &[String]) -> i32 {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[0]).expect("replay file"))
            .expect("replay file is JSON");
        let prop = v["property"].as_str().unwrap();
        let sc = v["scenario"].as_str().unwrap();
        let tape: Vec<u64> = serde_json::from_value(v["tape"].clone()).unwrap();
        let tmp = std::env::temp_dir().join(format!("dst-replay-{}", std::process::id()));
        std::fs::create_dir_all(&tmp).unwrap();
        let r = Exec::new(prop, sc, &tmp).run(
            v["seed"].as_u64().unwrap(),
            &tape,
            true,
            Duration::from_secs(120),
        );
        let _ = std::fs::remove_dir_all(&tmp);
        for l in &r.log {
            println!("  | {l}");
        }
        println!("class:  {:?}\ndetail: {}", r.class, r.detail);
        let same = r.class.as_deref() == v["class"].as_str();
        let exact = r.loghash == v["loghash"].as_u64().unwrap_or(0);
        println!("same violation: {same}, identical trace: {exact}");
        if same {
            println!("VIOLATION property={prop} replay={}", args[0]);
            1
        } else {
            0
        }
    }

    /// for development: run one index verbosely in this process
    fn one(&self, args: &[String]) -> i32 {
        let prop = &args[0];
        let base: u64 = args[1].parse().unwrap();
        let idx: u64 = args[2].parse().unwrap();
        let scs = self.scs(prop);
        let sc = pick_scenario(&scs, idx);
        if !is_home(sc.name) {
            let st = Command::new(exe_of(home_of(sc.name))).arg("one").args(args).status().unwrap();
            return st.code().unwrap_or(1);
        }
        let mut sim = Sim::new(0);
        sim.reset(seed_of(base, prop, idx), None);
        sim.keep_log = true;
        let r = run_one(sc, &mut sim);
        for l in &sim.log {
            println!("| {l}");
        }
        println!("{} {r:?} hash {:x}", sc.name, sim.loghash);
        0
    }

    /// for development: run many indices in this process and list all classes of violations, each
    /// with its shortest example
    fn survey(&self, args: &[String]) -> i32 {
        let prop = &args[0];
        let n: u64 = args[1].parse().unwrap();
        let base: u64 = args.get(2).map_or(1, |x| x.parse().unwrap());
        let scs = self.scs(prop);
        let mut found: BTreeMap<String, (u64, usize, u64, String, Vec<String>)> = BTreeMap::new();
        let mut sim = Sim::new(0);
        for i in 0..n {
            let sc = pick_scenario(&scs, i);
            if !is_home(sc.name) {
                continue;
            }
            sim.reset(seed_of(base, prop, i), None);
            sim.keep_log = true;
            if let Err(v) = run_one(sc, &mut sim) {
                let e = found.entry(v.class).or_insert((0, usize::MAX, 0, String::new(), vec![]));
                e.0 += 1;
                if sim.tape.len() < e.1 {
                    e.1 = sim.tape.len();
                    e.2 = i;
                    e.3 = v.detail;
                    e.4 = sim.log.clone();
                }
            }
        }
        for (c, (k, _, i, d, log)) in &found {
            println!("== {k}x {c} [run {i}]\n   {d}");
            if args.len() > 3 {
                for l in log {
                    println!("      | {l}");
                }
            }
        }
        println!("{} classes in {n} runs", found.len());
        0
    }

    pub fn main(self) -> ! {
        let _ = crate::sim::KNOWN.set(known_findings().into_iter().map(|k| k.class).collect());
        let args: Vec<String> = std::env::args().collect();
        install_panic_hook();
        let _ = HOMES.set(self.homes);
        let _ = HOOKS.set((self.enter_run, self.leave_run));
        let code = match args.get(1).map(String::as_str) {
            Some("check") => self.check(&args[2..]),
            Some("worker") => self.worker(&args[2..]),
            Some("execmany") => self.execmany(&args[2..]),
            Some("replay") => self.replay(&args[2..]),
            Some("tape") => self.tape(&args[2..]),
            Some("one") => self.one(&args[2..]),
            Some("survey") => self.survey(&args[2..]),
            _ => {
                eprintln!("usage: check ID | replay FILE | one ID SEED RUN");
                64
            }
        };
        std::process::exit(code)
    }
}

/// when >= 0, every drawn choice is written there immediately (used to recover the tape of a run
/// that kills its process)
pub static mut TAPE_FD: i32 = -1;

pub fn tape_tap(v: u64) {
    unsafe {
        if TAPE_FD >= 0 {
            let s = format!("{v} ");
            crate::sys::write_all(TAPE_FD, s.as_bytes());
        }
    }
}

fn tape_from_seed(home: &str, id: &str, base: u64, idx: u64, tmp: &Path) -> Option<Vec<u64>> {
    let out = tmp.join("tape-out");
    let f = std::fs::File::create(&out).ok()?;
    let mut c = Command::new(exe_of(home))
        .args(["tape", id, &base.to_string(), &idx.to_string()])
        .stdin(Stdio::null())
        .stdout(f)
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t = Instant::now();
    loop {
        if c.try_wait().ok()?.is_some() {
            break;
        }
        if t.elapsed() > Duration::from_secs(20) {
            let _ = c.kill();
            let _ = c.wait();
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let s = std::fs::read_to_string(&out).ok()?;
    let first = s.lines().next()?;
    Some(
        first
            .split_whitespace()
            .filter_map(|x| x.parse().ok())
            .collect(),
    )
}
