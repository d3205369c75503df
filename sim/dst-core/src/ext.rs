//! P01-P03: the external solver interface run against scripted solver processes inside the
//! simulated operating system.
use crate::os::{self, Cfg, Ctx, PResult, World};
use crate::util::{clause, decompress, ext_of, gen_clause, lit};
use rustsat::solvers::external::{InputVia, OutputVia};
use rustsat::solvers::{ExternalSolver, Solve, SolverResult};
use rustsat::types::{TernaryVal, Var};
use simcore::reference::{clause_true, parse_cnf, same_clauses, Sat};
use simcore::runner::{set_ctx, Prop, Scenario};
use simcore::{ensure, violation, Outcome, Sim, Violation};
use std::process::Command;
use std::sync::{Arc, Mutex};

/// what the scripted solver did, as seen by the harness
#[derive(Default, Debug, Clone)]
struct Said {
    started: u32,
    /// the instance as it arrived, if it was read to its end
    input: Option<Vec<u8>>,
    /// all it printed
    full: Vec<u8>,
    /// how much of it got out
    emitted: usize,
    printed_everything: bool,
    /// the answer it computed from its input: None = none given
    answer: Option<Answer>,
    argv: Vec<String>,
    env: Vec<String>,
    cwd: Option<String>,
    tmp_at_start: Vec<String>,
    parse_error: Option<String>,
}

#[derive(Debug, Clone, PartialEq)]
enum Answer {
    Sat(Vec<i32>),
    Unsat,
    Unknown,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Beh {
    Honest,
    /// answers (from the instance the script knows) before it has read its input
    Early,
    /// gives up: s UNKNOWN / INDETERMINATE
    Unknown,
    /// dies by a signal after some bytes of output
    Crash,
    /// exits with an unexpected code after some bytes
    BadExit,
    /// output ends early but the exit code claims success
    Truncate,
    /// prints an s line nobody knows
    BadSLine,
    /// prints nothing
    Silent,
}

#[derive(Debug, Clone)]
struct Plan {
    beh: Beh,
    known: Vec<Vec<i32>>,
    input_file: bool,
    path_first: bool,
    chunk: usize,
    read_chunk: usize,
    noise_before_read: usize,
    noise_before: usize,
    noise_after: usize,
    v_first: bool,
    wrap: usize,
    cut_permille: u64,
    signal: i32,
    code: i32,
    partial_model: bool,
    crlf: bool,
    think: u64,
    close_stdin_early: bool,
    linger_after_close: bool,
    no_final_newline: bool,
    junk_bytes: bool,
    /// which unknown status line
    odd: usize,
    /// never ends by itself once it has broken the protocol in a way the caller has to notice
    forever: bool,
}

fn script(ctx: &mut Ctx, plan: &Plan, said: &Arc<Mutex<Said>>) -> PResult<i32> {
    {
        let p = ctx.proc();
        let mut s = said.lock().unwrap();
        s.started += 1;
        s.argv = p.argv.clone();
        s.env = p.env.clone();
        s.cwd = p.cwd.clone();
        s.tmp_at_start = os::world().files.keys().filter(|k| k.contains("/.tmp")).cloned().collect();
    }
    let noise = |n: usize| -> Vec<u8> {
        let mut v = vec![];
        let mut i = 0;
        while v.len() < n {
            v.extend_from_slice(format!("c progress {i} v s 1 2 0\n").as_bytes());
            i += 1;
        }
        v
    };
    // talking before listening
    if plan.noise_before_read > 0 {
        let n = noise(plan.noise_before_read);
        emit(ctx, plan, said, &n, n.len())?;
    }
    let data = if plan.beh == Beh::Early {
        if plan.close_stdin_early {
            ctx.close(0);
            if plan.forever {
                ctx.sim().fault("solver stalls forever");
                return ctx.hang();
            }
        }
        None
    } else if plan.input_file {
        let argv = ctx.proc().argv.clone();
        let path = if plan.path_first { argv.get(1) } else { argv.last() };
        let path = path.cloned().unwrap_or_default();
        match ctx.read_file(&path)? {
            Some(d) => {
                let d = decompress(ext_of(&path), &d);
                said.lock().unwrap().input = d.clone();
                d.or(Some(vec![]))
            }
            None => Some(vec![]),
        }
    } else {
        let d = ctx.read_all(0, plan.read_chunk)?;
        said.lock().unwrap().input = d.clone();
        d.or(Some(vec![]))
    };
    ctx.sleep(plan.think)?;
    let cls = match data {
        None => plan.known.clone(),
        Some(d) => match lenient(&String::from_utf8_lossy(&d)) {
            Ok(c) => c,
            Err(e) => {
                said.lock().unwrap().parse_error = Some(e);
                emit(ctx, plan, said, b"c parse error\n", 14)?;
                return Ok(1);
            }
        },
    };
    let mut ref_sat = Sat::of(&cls);
    let (answer, code) = match plan.beh {
        Beh::Unknown => (Answer::Unknown, 0),
        _ => match ref_sat.solve(&[]) {
            None => (Answer::Unsat, 20),
            Some(m) => {
                let mut lits: Vec<i32> = (1..m.len()).map(|v| if m[v] { v as i32 } else { -(v as i32) }).collect();
                if plan.partial_model {
                    // leave out variables that no clause needs
                    lits.retain(|l| cls.iter().flatten().any(|x| x.abs() == l.abs()));
                }
                (Answer::Sat(lits), 10)
            }
        },
    };
    let nl = if plan.crlf { "\r\n" } else { "\n" };
    let mut out = noise(plan.noise_before);
    if plan.junk_bytes {
        out.extend_from_slice(b"c caf\xe9\n".map(|b| if b == 0xe9 { b'e' } else { b }).as_slice());
    }
    let sline = match (&answer, plan.beh) {
        (_, Beh::BadSLine) => ["s MAYBE", "s IS SATISFIABLE", "s TIMEOUT", "s OPTIMUM FOUND", "s Satisfiable", "s NOT UNSATISFIABLE"][plan.odd].to_string(),
        (Answer::Sat(_), _) => "s SATISFIABLE".into(),
        (Answer::Unsat, _) => "s UNSATISFIABLE".into(),
        (Answer::Unknown, _) => (if plan.code & 1 == 0 { "s UNKNOWN" } else { "s INDETERMINATE" }).into(),
    };
    let mut vlines = String::new();
    if let Answer::Sat(lits) = &answer {
        let mut all: Vec<i32> = lits.clone();
        all.push(0);
        let mut i = 0;
        while i < all.len() {
            let mut n = plan.wrap.min(all.len() - i);
            // never a line holding a single literal (see DESIGN: ambiguous with bit strings)
            if all.len() - i - n == 1 {
                n += 1;
            }
            vlines.push('v');
            for l in &all[i..i + n] {
                vlines.push_str(&format!(" {l}"));
            }
            vlines.push_str(nl);
            i += n;
        }
    }
    if plan.v_first {
        out.extend_from_slice(vlines.as_bytes());
        out.extend_from_slice(format!("{sline}{nl}").as_bytes());
    } else {
        out.extend_from_slice(format!("{sline}{nl}").as_bytes());
        out.extend_from_slice(vlines.as_bytes());
    }
    out.extend_from_slice(&noise(plan.noise_after));
    if plan.no_final_newline {
        while matches!(out.last(), Some(b'\n' | b'\r')) {
            out.pop();
        }
    }
    if plan.beh == Beh::Silent {
        out.clear();
    }
    let cut = match plan.beh {
        Beh::Crash | Beh::BadExit | Beh::Truncate => (out.len() as u64 * plan.cut_permille / 1000) as usize,
        _ => out.len(),
    };
    said.lock().unwrap().answer = Some(answer);
    emit(ctx, plan, said, &out, cut)?;
    match plan.beh {
        Beh::Crash => {
            ctx.sim().fault("solver crash");
            return ctx.die(plan.signal);
        }
        Beh::BadExit => {
            ctx.sim().fault("solver error exit");
            return Ok([1, 2, 30, 127, 255, 11][plan.code as usize % 6]);
        }
        Beh::Truncate => ctx.sim().fault("solver output cut off"),
        Beh::BadSLine if plan.forever => {
            ctx.sim().fault("solver stalls forever");
            return ctx.hang();
        }
        _ => {}
    }
    if plan.linger_after_close {
        ctx.close(1);
        ctx.sleep(5_000_000)?;
    }
    Ok(code)
}

fn emit(ctx: &mut Ctx, plan: &Plan, said: &Arc<Mutex<Said>>, out: &[u8], cut: usize) -> PResult<()> {
    {
        let mut s = said.lock().unwrap();
        s.full.extend_from_slice(out);
        s.printed_everything = false;
    }
    for c in out[..cut].chunks(plan.chunk) {
        let n = ctx.write(1, c)?;
        said.lock().unwrap().emitted += n;
        if n < c.len() {
            // the disk is full: like most solvers, do not notice
            return Ok(());
        }
    }
    let mut s = said.lock().unwrap();
    s.printed_everything = cut == out.len();
    Ok(())
}

/// solvers accept files whose clause count is off
fn lenient(s: &str) -> Result<Vec<Vec<i32>>, String> {
    match parse_cnf(s) {
        Ok((_, c)) => Ok(c),
        Err(e) if e.starts_with("header promises") => {
            let mut cls = vec![];
            let mut cur = vec![];
            for l in s.lines().filter(|l| !l.starts_with(['c', 'p'])) {
                for x in l.split_whitespace() {
                    match x.parse::<i32>() {
                        Ok(0) => cls.push(std::mem::take(&mut cur)),
                        Ok(x) => cur.push(x),
                        Err(e) => return Err(e.to_string()),
                    }
                }
            }
            Ok(cls)
        }
        Err(e) => Err(e),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    Clean,
    Benign,
    Hard,
}

fn gen_cfg(sim: &mut Sim, mode: Mode) -> Cfg {
    let mut cfg = Cfg::quiet();
    cfg.preempt = *sim.pick(&[0, 50, 300, 600]);
    cfg.pipe_cap = *sim.pick(&[65536, 4096, 512, 64, 7, 1]);
    if mode != Mode::Clean {
        cfg.short_read = *sim.pick(&[0, 100, 500, 900]);
        cfg.short_write = *sim.pick(&[0, 100, 500, 900]);
        cfg.eintr = *sim.pick(&[0, 20, 200]);
    }
    if mode == Mode::Hard {
        cfg.sticky = sim.coin();
        match sim.idx(7) {
            0 => cfg.eio_read = *sim.pick(&[20, 100, 400]),
            1 => cfg.eio_write = *sim.pick(&[20, 100, 400]),
            2 => cfg.disk = Some(sim.choose(600)),
            3 => cfg.open_fail = 300,
            4 => cfg.spawn_fail = 500,
            5 => cfg.pipe_fail = 400,
            _ => cfg.unlink_fail = 1000,
        }
    }
    cfg
}

fn prefix(which: &str, v: Violation) -> Outcome {
    // each property reports its own kind of violation only
    let own = match which {
        "P02" => v.class.starts_with("live:"),
        "P03" => v.class.starts_with("deliver:"),
        _ => v.class.starts_with("verdict:"),
    };
    if own {
        Err(v)
    } else {
        Ok(())
    }
}

#[allow(clippy::too_many_lines)]
fn run(sim: &mut Sim, which: &'static str) -> Outcome {
    let mode = *sim.pick(&[Mode::Clean, Mode::Benign, Mode::Hard]);
    let nv = sim.range(1, 7);
    let many = sim.chance(1, 8);
    let ncl = sim.range(0, if many { 60 } else { 14 });
    let mut clauses: Vec<Vec<i32>> = (0..ncl).map(|_| gen_clause(sim, nv, 4)).collect();
    if sim.chance(1, 4) {
        let n = nv as i32;
        clauses = vec![vec![n], vec![-n, 1], vec![-1, -n]];
    }
    let via = sim.idx(5);
    let out_file = sim.chance(1, 3);
    let beh = match sim.weighted(&[10, 2, 1, 2, 2, 3, 1, 1]) {
        0 => Beh::Honest,
        1 => Beh::Early,
        2 => Beh::Unknown,
        3 => Beh::Crash,
        4 => Beh::BadExit,
        5 => Beh::Truncate,
        6 => Beh::BadSLine,
        _ => Beh::Silent,
    };
    let big = sim.chance(1, 6);
    let plan = Plan {
        beh,
        known: clauses.clone(),
        input_file: via < 4,
        path_first: via == 1 || via == 3,
        chunk: *sim.pick(&[100_000, 1, 3, 17, 200]),
        read_chunk: *sim.pick(&[100_000, 1, 5, 64]),
        noise_before_read: if sim.chance(1, 4) { sim.range(1, if big { 9000 } else { 300 }) } else { 0 },
        noise_before: if sim.coin() { sim.range(0, 200) } else { 0 },
        noise_after: if sim.chance(1, 3) { sim.range(1, if big { 9000 } else { 500 }) } else { 0 },
        v_first: sim.chance(1, 6),
        wrap: sim.range(2, 6),
        cut_permille: sim.choose(1001),
        signal: *sim.pick(&[11, 9, 6, 15]),
        code: sim.idx(6) as i32,
        partial_model: sim.chance(1, 4),
        crlf: sim.chance(1, 12),
        think: sim.choose(1_000_000),
        close_stdin_early: sim.coin(),
        linger_after_close: sim.chance(1, 5),
        no_final_newline: sim.chance(1, 10),
        junk_bytes: false,
        odd: sim.idx(6),
        forever: sim.chance(1, 3),
    };
    let cfg = gen_cfg(sim, mode);
    let mut plan = plan;
    // only where the caller cannot miss it: a status line it has to refuse while it reads the
    // output itself, or an instance that does not fit in the pipe nobody reads
    plan.forever &= match plan.beh {
        Beh::BadSLine => via < 4 && !out_file,
        Beh::Early => via == 4 && plan.close_stdin_early && cfg.pipe_cap <= 7,
        _ => false,
    };
    if plan.forever {
        plan.no_final_newline = false;
    }
    let plan = plan;
    // files of an earlier run, longer than what this one writes
    let stale_out = sim.chance(1, 3);
    let stale_in = sim.chance(1, 3);
    sim.ev(format!("mode {mode:?} via {via} out_file {out_file} clauses {clauses:?} {plan:?} {cfg:?}"));
    let said = Arc::new(Mutex::new(Said::default()));
    let ext = *sim.pick(&["cnf", "cnf.gz", "cnf.bz2", "cnf.xz"]);
    let in_path = format!("/simfs/in.{ext}");
    let out_path = "/simfs/out.log";
    let args: Vec<String> = (0..sim.range(0, 2)).map(|i| format!("--opt{i}")).collect();
    let envs: Vec<(String, String)> = (0..sim.range(0, 2)).map(|i| (format!("DST_E{i}"), format!("v{i}"))).collect();
    let removed = sim.chance(1, 3);
    let cleared = sim.chance(1, 8) && !(via == 1 || via == 3);
    let cwd = if sim.chance(1, 3) { Some("/simfs/wd".to_string()) } else { None };
    let adds: Vec<usize> = clauses.iter().map(|_| sim.idx(4)).collect();
    let one_cnf = sim.chance(1, 4);

    set_ctx(sim, "live");
    let wd = World::enter(sim, cfg);
    {
        let (p, s) = (plan.clone(), said.clone());
        if stale_out {
            wd.put_file(out_path, "s SATISFIABLE\nv 1 2 3 4 5 6 7 8 9 0\nc an older run\n".repeat(20).as_bytes());
        }
        if stale_in {
            wd.put_file(&in_path, "p cnf 9 1\n1 2 3 4 5 6 7 8 9 0\n".repeat(40).as_bytes());
        }
        wd.add_program("/simfs/bin/solver", Arc::new(move |c: &mut Ctx| script(c, &p, &s)));
    }
    let mut cmd = Command::new("/simfs/bin/solver");
    cmd.args(&args);
    if cleared {
        cmd.env_clear();
    }
    for (k, v) in &envs {
        cmd.env(k, v);
    }
    if removed {
        cmd.env_remove("HOME");
    }
    if let Some(c) = &cwd {
        cmd.current_dir(c);
    }
    let input = match via {
        0 => InputVia::tempfile_last(),
        1 => InputVia::tempfile_first(),
        2 => InputVia::file_last(&in_path),
        3 => InputVia::file_first(&in_path),
        _ => InputVia::pipe(),
    };
    let output = if out_file { OutputVia::file(out_path) } else { OutputVia::pipe() };
    let mut solver = ExternalSolver::new(cmd, input, output, "scripted");
    let mut pre: Result<(), Violation> = Ok(());
    if one_cnf {
        let cnf: rustsat::instances::Cnf = clauses.iter().map(|c| clause(c)).collect();
        if solver.add_cnf(cnf).is_err() {
            pre = violation("verdict:add", "add_cnf failed before solving");
        }
    } else {
        for (c, a) in clauses.iter().zip(&adds) {
            let r = match (a, c.len()) {
                (1, 1) => solver.add_unit(lit(c[0])),
                (1, 2) => solver.add_binary(lit(c[0]), lit(c[1])),
                (1, 3) => solver.add_ternary(lit(c[0]), lit(c[1]), lit(c[2])),
                (2, _) => solver.add_clause_ref(&clause(c)),
                (3, _) => {
                    solver.extend(vec![clause(c)]);
                    Ok(())
                }
                _ => solver.add_clause(clause(c)),
            };
            if r.is_err() {
                pre = violation("verdict:add", "add_clause failed before solving");
            }
        }
    }
    if pre.is_ok() && solver.lit_val(lit(1)).is_ok() {
        pre = violation("verdict:state", "lit_val gave a value before solve");
    }
    let sim = os::world().sim();
    sim.op(&format!("solve via {}", ["tempfile last", "tempfile first", "file last", "file first", "pipe"][via]));
    let res = solver.solve();
    let wd = os::world();
    let sim = wd.sim();
    let shown = match &res {
        Ok(r) => format!("{r:?}"),
        Err(_) => "Err".into(),
    };
    sim.ev(format!("main solve -> {shown}"));
    // ---- leftovers, looked at the moment solve returns
    let unreaped: Vec<usize> = wd.procs.iter().enumerate().filter(|(_, p)| !p.reaped).map(|(i, _)| i).collect();
    let tmp_left: Vec<String> = wd.files.keys().filter(|k| k.contains("/.tmp")).cloned().collect();
    let unlink_faulted = wd.lib_faults.contains(&"unlink failure");
    wd.settle(2000);
    let fds_left = wd.open_fds();
    let threads_left = wd.live_threads();
    let lib_hard: Vec<&'static str> = wd
        .lib_faults
        .iter()
        .filter(|f| !matches!(**f, "short read" | "short write" | "read EINTR" | "write EINTR" | "waitpid EINTR"))
        .copied()
        .collect();
    let disk_hit = wd.cfg.disk == Some(0);
    let in_file = wd.get_file(&in_path).cloned();
    let exit = wd.procs.first().and_then(|p| p.exit);
    let nprocs = wd.procs.len();
    World::leave();
    let sim_nontrivial = nprocs > 0;
    sim.nontrivial = sim_nontrivial;
    let said = said.lock().unwrap().clone();
    let report = |v: Violation| prefix(which, v);
    if let Err(v) = pre {
        report(v)?;
    }
    sim.st.states.insert(simcore::sim::hash_str(&format!("{via}{out_file}{beh:?}{mode:?}{shown}{:?}{lib_hard:?}", exit)));
    if let Err(e) = &res {
        sim.probe(&format!("solve error: {}", err_kind(e)));
    } else {
        sim.probe(&format!("solve {shown}"));
    }

    // ---------------------------------------------------------------- P02
    if which == "P02" {
        ensure!(
            unreaped.is_empty(),
            if res.is_ok() { "live:unreaped-after-ok" } else { "live:unreaped-after-error" },
            "solve returned {shown} but the solver process was never waited for (running or a zombie); error: {}",
            res.as_ref().err().map(|e| format!("{e:#}")).unwrap_or_default()
        );
        ensure!(
            tmp_left.is_empty() || unlink_faulted,
            "live:tempfile-left",
            "the temporary instance file still exists after solve returned {shown}"
        );
        ensure!(fds_left.is_empty(), "live:fd-leak", "descriptors left open after solve: {fds_left:?}");
        ensure!(threads_left.is_empty(), "live:thread-leak", "threads left running after solve: {threads_left:?}");
        return Ok(());
    }
    // ---------------------------------------------------------------- P03
    if which == "P03" {
        if said.started == 0 {
            return Ok(());
        }
        ensure!(said.started == 1, "deliver:calls", "the solver was started {} times", said.started);
        let mut want: Vec<String> = args.clone();
        let argv = &said.argv;
        ensure!(argv.first().map(String::as_str) == Some("/simfs/bin/solver"), "deliver:argv", "argv[0] is {argv:?}");
        let mut rest: Vec<String> = argv[1..].to_vec();
        if via < 4 {
            let p = if plan.path_first {
                (!rest.is_empty()).then(|| rest.remove(0))
            } else {
                rest.pop()
            };
            let Some(p) = p else {
                return violation("deliver:argv", "the instance path is missing from the arguments");
            };
            if via < 2 {
                ensure!(
                    said.tmp_at_start.contains(&p),
                    "deliver:tempfile-gone",
                    "the temporary instance file did not exist while the solver ran"
                );
            } else {
                ensure!(p == in_path, "deliver:argv", "instance path is {p}, expected {in_path}");
            }
        }
        ensure!(rest == want, "deliver:argv", "arguments are {rest:?}, the command had {want:?}");
        want.clear();
        for (k, v) in &envs {
            ensure!(said.env.contains(&format!("{k}={v}")), "deliver:env", "environment lacks {k}={v}");
        }
        if removed {
            ensure!(!said.env.iter().any(|e| e.starts_with("HOME=")), "deliver:env", "removed variable HOME is set");
        }
        if cleared {
            ensure!(said.env.len() == envs.len(), "deliver:env", "the cleared environment holds {:?}", said.env);
        }
        ensure!(said.cwd == cwd, "deliver:cwd", "working directory {:?} instead of {cwd:?}", said.cwd);
        if let Some(d) = &said.input {
            let write_fault = lib_hard.iter().any(|f| matches!(*f, "write EIO" | "disk full"));
            if !(write_fault && res.is_err()) {
                let txt = String::from_utf8_lossy(d).into_owned();
                match parse_cnf(&txt) {
                    Ok((_, got)) => ensure!(
                        same_clauses(&got, &clauses),
                        "deliver:instance",
                        "the solver received {got:?}, the clauses added were {clauses:?}"
                    ),
                    Err(e) => return violation("deliver:instance", format!("the solver received a malformed instance ({e}): {txt:?}")),
                }
                sim.probe("instance delivered and compared");
            }
        }
        if (via == 2 || via == 3) && res.is_ok() {
            let ok = in_file
                .and_then(|d| decompress(ext_of(&in_path), &d))
                .and_then(|d| parse_cnf(&String::from_utf8_lossy(&d)).ok())
                .is_some_and(|(_, c)| same_clauses(&c, &clauses));
            ensure!(ok, "deliver:file", "the instance file at {in_path} is not the instance after solve");
        }
        return Ok(());
    }
    // ---------------------------------------------------------------- P01
    let emitted = &said.full[..said.emitted.min(said.full.len())];
    let complete = said.printed_everything;
    let text = String::from_utf8_lossy(emitted).into_owned();
    let code_ok = matches!(exit, Some(os::Exit::Code(0 | 10 | 20)));
    if res.is_ok() {
        ensure!(said.started == 1, "verdict:from-nowhere", "solve returned {shown} without a solver run");
        ensure!(code_ok, "verdict:bad-exit", "solve returned {shown} although the solver ended with {exit:?}");
        ensure!(
            beh != Beh::Silent && beh != Beh::BadSLine,
            "verdict:from-nowhere",
            "solve returned {shown} although the solver printed no status line"
        );
    }
    let ref_sat = Sat::of(&clauses).solve(&[]).is_some();
    match &res {
        Ok(SolverResult::Unsat) => {
            ensure!(text.contains("s UNSATISFIABLE"), "verdict:unsat-not-said", "Unsat, but the solver printed {text:?}");
            ensure!(!ref_sat, "verdict:wrong-unsat", "Unsat reported for a satisfiable instance {clauses:?}");
        }
        Ok(SolverResult::Sat) => {
            ensure!(text.contains("s SATISFIABLE"), "verdict:sat-not-said", "Sat, but the solver printed {text:?}");
            ensure!(ref_sat, "verdict:wrong-sat", "Sat reported for an unsatisfiable instance {clauses:?}");
            let Some(Answer::Sat(model)) = &said.answer else {
                return violation("verdict:sat-not-said", "Sat without a model");
            };
            for v in 1..=(nv as i32 + 2) {
                let val = match solver.lit_val(lit(v)) {
                    Ok(x) => x,
                    Err(e) => return violation("verdict:lit-val", format!("lit_val failed after Sat: {e}")),
                };
                let nval = solver.lit_val(lit(-v)).ok();
                let want = if model.contains(&v) {
                    TernaryVal::True
                } else if model.contains(&-v) {
                    TernaryVal::False
                } else {
                    TernaryVal::DontCare
                };
                let ok = val == want || (!complete && val == TernaryVal::DontCare);
                ensure!(ok, "verdict:value", "variable {v} is {val:?}, the solver's model says {want:?} (output {text:?})");
                let neg = match val {
                    TernaryVal::True => TernaryVal::False,
                    TernaryVal::False => TernaryVal::True,
                    TernaryVal::DontCare => TernaryVal::DontCare,
                };
                ensure!(nval == Some(neg), "verdict:value", "literal -{v} is {nval:?} while {v} is {val:?}");
                let vv = solver.var_val(Var::new(v as u32 - 1)).ok();
                ensure!(vv == Some(val), "verdict:value", "var_val {vv:?} vs lit_val {val:?}");
            }
            let sol = match solver.solution(Var::new(nv as u32 - 1)) {
                Ok(s) => s,
                Err(e) => return violation("verdict:solution", format!("solution failed after Sat: {e}")),
            };
            if complete {
                let mut m = vec![false; nv + 1];
                for (v, x) in m.iter_mut().enumerate().skip(1) {
                    *x = sol.var_value(Var::new(v as u32 - 1)) == TernaryVal::True;
                }
                for c in &clauses {
                    ensure!(clause_true(c, &m), "verdict:model", "the solution {sol:?} falsifies clause {c:?}");
                }
            }
            sim.probe("model compared");
        }
        Ok(SolverResult::Interrupted) => {
            ensure!(
                text.contains("s UNKNOWN") || text.contains("s INDETERMINATE"),
                "verdict:unknown-not-said",
                "Interrupted, but the solver printed {text:?}"
            );
        }
        Err(e) => {
            let excused = !lib_hard.is_empty()
                || disk_hit
                || (!code_ok && exit != Some(os::Exit::Signal(13)))
                // killed by the pipe the caller stopped reading: not the solver's doing
                || (!complete && exit != Some(os::Exit::Signal(13)))
                || matches!(beh, Beh::Silent | Beh::BadSLine)
                // a solver that answers without listening breaks the pipe
                || (beh == Beh::Early && !plan.input_file)
                || said.started == 0 && mode == Mode::Hard;
            ensure!(
                excused,
                "verdict:lost",
                "the solver answered completely (exit {exit:?}) and nothing failed, but solve returned an error: {e:#}; output {text:?}"
            );
        }
    }
    // afterwards the solver can neither be extended nor solved again, and says so
    if solver.add_clause(clause(&[1])).is_ok() {
        return violation("verdict:state", "a clause was accepted after solving");
    }
    if solver.solve().is_ok() {
        return violation("verdict:state", "a second solve succeeded");
    }
    if !matches!(res, Ok(SolverResult::Sat)) && solver.lit_val(lit(1)).is_ok() {
        return violation("verdict:state", format!("lit_val gives a value after {shown}"));
    }
    Ok(())
}

fn err_kind(e: &anyhow::Error) -> String {
    let s = format!("{e}");
    s.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(40).collect()
}

fn p01(sim: &mut Sim) -> Outcome {
    run(sim, "P01")
}
fn p02(sim: &mut Sim) -> Outcome {
    run(sim, "P02")
}
fn p03(sim: &mut Sim) -> Outcome {
    run(sim, "P03")
}

const REAL: &[&str] = &[
    "rustsat::solvers::external (whole module)",
    "rustsat::instances::fio (DIMACS writer, solver output parser, compressed writers)",
    "rustsat::types::Assignment",
    "std::process, std::thread, std::fs, tempfile (down to the libc symbols)",
];
const STUB: &[&str] = &[
    "libc calls for files, pipes, processes, threads, futexes and clocks (simulated OS)",
    "the solver executable (scripted process)",
];

pub fn register(s: &mut Vec<Scenario>, p: &mut Vec<Prop>) {
    for (id, f) in [("P01", p01 as fn(&mut Sim) -> Outcome), ("P02", p02), ("P03", p03)] {
        s.push(Scenario { prop: id, name: "external solver", weight: 1, f });
        p.push(Prop {
            id,
            quick_runs: 120_000,
            thorough_runs: 3_000_000,
            rule: "runs in which the scripted solver process was started, distinct by the hash of the full event trace (schedule, system calls, faults, bytes)",
            shape_measure: "distinct combinations of input/output route, solver behaviour, fault mode, exit status and outcome",
            real: REAL,
            stub: STUB,
            assumptions: &["the simulated OS follows POSIX for the calls it replaces", "solver output is ASCII"],
        });
    }
}
