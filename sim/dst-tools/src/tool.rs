//! Runs the real, unmodified tool binaries with the simulated system interface (`shim.c`) loaded.
use crate::util::compress;
use simcore::{bail, ensure, Outcome, Sim};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

/// Mirrors `struct plan` in shim.c
#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Plan {
    pub seed: u64,
    pub chunk: u64,
    pub eintr: u64,
    pub read_fail: u64,
    pub read_errno: u64,
    pub write_cap: u64,
    pub write_errno: u64,
    pub open_fail: u64,
    pub open_errno: u64,
    pub max_steps: u64,
    pub steps: u64,
    pub reads: u64,
    pub writes: u64,
    pub opens: u64,
    pub written: u64,
    pub shorts: u64,
    pub eintrs: u64,
    pub read_failed: u64,
    pub write_failed: u64,
    pub open_failed: u64,
    pub ran: u64,
}

struct Place {
    dir: PathBuf,
    plan: *mut Plan,
}
unsafe impl Send for Place {}
unsafe impl Sync for Place {}

extern "C" fn cleanup() {
    if let Some(p) = PLACE.get() {
        let _ = std::fs::remove_dir_all(&p.dir);
    }
}

static PLACE: OnceLock<Place> = OnceLock::new();

fn place() -> &'static Place {
    PLACE.get_or_init(|| {
        let root = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        // a path of constant length: messages of the tools contain it
        let dir = root.join(format!("dst-tools-{:010}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("w")).expect("scratch directory");
        let f = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(dir.join("plan")).unwrap();
        f.set_len(4096).unwrap();
        use std::os::fd::AsRawFd;
        let m = unsafe {
            libc::atexit(cleanup);
            libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(m != libc::MAP_FAILED);
        Place { dir, plan: m.cast() }
    })
}

/// the directory of the run's files
pub fn dir() -> PathBuf {
    place().dir.join("w")
}

/// removes the files of a run
pub fn tidy() {
    if let Some(p) = PLACE.get() {
        for f in std::fs::read_dir(p.dir.join("w")).into_iter().flatten().flatten() {
            let _ = std::fs::remove_file(f.path());
        }
    }
}

fn bin(name: &str) -> PathBuf {
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let exe = std::env::current_exe().unwrap();
        exe.ancestors().nth(3).unwrap().join("target-tools/debug")
    })
    .join(name)
}

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
    pub seen: Plan,
}

fn exec(name: &str, args: &[String], stdin: Option<&[u8]>, plan: Plan) -> Out {
    let p = place();
    let w = p.dir.join("w");
    unsafe { *p.plan = plan };
    let input = match stdin {
        Some(d) => {
            std::fs::write(p.dir.join("stdin"), d).unwrap();
            Stdio::from(std::fs::File::open(p.dir.join("stdin")).unwrap())
        }
        None => Stdio::null(),
    };
    let mk = |n: &str| std::fs::File::create(p.dir.join(n)).unwrap();
    let mut c = Command::new(bin(name));
    c.args(args)
        .env_clear()
        .env("LD_PRELOAD", env!("SHIM"))
        .env("DST_PLAN", p.dir.join("plan"))
        .env("DST_DIR", &w)
        .current_dir(&w)
        .stdin(input)
        .stdout(mk("stdout"))
        .stderr(mk("stderr"));
    let mut child = c.spawn().unwrap_or_else(|e| panic!("cannot start {}: {e}", bin(name).display()));
    // an endless loop without input or output is ended by the kernel
    let lim = libc::rlimit { rlim_cur: 10, rlim_max: 10 };
    unsafe { libc::prlimit(child.id() as i32, libc::RLIMIT_CPU, &lim, std::ptr::null_mut()) };
    let st = child.wait().unwrap();
    Out {
        code: st.code(),
        signal: st.signal(),
        stdout: std::fs::read(p.dir.join("stdout")).unwrap(),
        stderr: String::from_utf8_lossy(&std::fs::read(p.dir.join("stderr")).unwrap()).into_owned(),
        seen: unsafe { std::ptr::read_volatile(p.plan) },
    }
}

/// One use of a tool
pub struct Use {
    pub tool: &'static str,
    pub args: Vec<String>,
    pub stdin: Option<Vec<u8>>,
    /// the input file, if it is compressed
    pub packed: Option<PathBuf>,
    /// a text input that is damaged in a way the tool has to notice
    pub damaged: Option<(PathBuf, String)>,
    /// the output file
    pub out: Option<PathBuf>,
}

impl Use {
    pub fn new(tool: &'static str) -> Use {
        Use { tool, args: vec![], stdin: None, packed: None, damaged: None, out: None }
    }
    pub fn arg(&mut self, a: impl Into<String>) -> &mut Self {
        self.args.push(a.into());
        self
    }
    /// what the tool wrote
    pub fn result(&self, o: &Out) -> Result<String, String> {
        let d = match &self.out {
            Some(p) => {
                let raw = std::fs::read(p).map_err(|e| format!("no output file: {e}"))?;
                let ext = crate::util::ext_of(p.to_str().unwrap());
                crate::util::decompress(ext, &raw).ok_or("the output is not a complete compressed stream")?
            }
            None => o.stdout.clone(),
        };
        String::from_utf8(d).map_err(|e| e.to_string())
    }
}

fn alive(u: &Use, o: &Out, what: &str) -> Outcome {
    ensure!(o.seen.ran == 1, "harness:shim", "the simulated system interface was not loaded into {}", u.tool);
    if let Some(s) = o.signal {
        bail!(format!("tool:{}:{}", u.tool, if s == libc::SIGXCPU || s == libc::SIGKILL { "hang" } else { "signal" }), "{} {:?} ended by signal {s} ({what}); {}", u.tool, u.args, o.stderr);
    }
    ensure!(
        o.code != Some(97),
        format!("tool:{}:hang", u.tool), "{} {:?} made {} system calls without coming to an end ({what})", u.tool, u.args, o.seen.steps
    );
    Ok(())
}

/// Runs the tool without and then with a fault. `good` judges a run without any fault.
pub fn check(sim: &mut Sim, u: &Use, good: impl Fn(&mut Sim, &Out) -> Outcome) -> Outcome {
    let mut plan = Plan {
        seed: sim.choose(1 << 30),
        chunk: *sim.pick(&[0, 0, 1, 3, 17, 64, 500]),
        eintr: *sim.pick(&[0, 0, 2, 5, 20]),
        max_steps: 400_000,
        ..Plan::default()
    };
    sim.op(u.tool);
    sim.ev(format!("{} {:?} chunk {} eintr {}", u.tool, u.args.iter().map(|a| a.rsplit('/').next().unwrap_or("")).collect::<Vec<_>>(), plan.chunk, plan.eintr));
    let o = exec(u.tool, &u.args, u.stdin.as_deref(), plan);
    alive(u, &o, "no error")?;
    if o.seen.shorts > 0 {
        sim.fault("short transfer");
    }
    if o.seen.eintrs > 0 {
        sim.fault("interrupted call");
    }
    sim.state(simcore::sim::hash_bytes(7, &o.stdout));
    good(sim, &o)?;
    let first = u.result(&o);
    sim.nontrivial = true;

    // the same again with one fault
    let mut kinds = vec![];
    if o.seen.reads > 0 {
        kinds.push(0);
    }
    if o.seen.written > 0 {
        kinds.push(1);
        kinds.push(1);
    }
    if o.seen.opens > 0 && sim.chance(1, 3) {
        kinds.push(2);
    }
    if u.packed.is_some() {
        kinds.push(3);
    }
    if u.damaged.is_some() {
        kinds.push(4);
        kinds.push(4);
    }
    if kinds.is_empty() || sim.chance(1, 5) {
        return Ok(());
    }
    let what;
    let mut must_fail = false;
    match *sim.pick(&kinds) {
        0 => {
            plan.read_fail = 1 + sim.choose(o.seen.reads);
            plan.read_errno = *sim.pick(&[libc::EIO, libc::ENOMEM, libc::ESTALE]) as u64;
            what = format!("read {} of {} fails", plan.read_fail, o.seen.reads);
            sim.fault("read error");
        }
        1 => {
            plan.write_cap = 1 + if sim.coin() { o.seen.written - 1 - sim.choose(o.seen.written.min(12)) } else { sim.choose(o.seen.written) };
            plan.write_errno = *sim.pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EDQUOT]) as u64;
            what = format!("writes fail after {} of {} bytes", plan.write_cap - 1, o.seen.written);
            sim.fault("write error or full disk");
        }
        2 => {
            plan.open_fail = 1 + sim.choose(o.seen.opens);
            plan.open_errno = *sim.pick(&[libc::ENOENT, libc::EMFILE, libc::EACCES, libc::ENOSPC]) as u64;
            what = format!("open {} of {} fails", plan.open_fail, o.seen.opens);
            sim.fault("open error");
        }
        3 => {
            let p = u.packed.as_ref().unwrap();
            let d = std::fs::read(p).unwrap();
            let k = 1 + sim.idx(d.len() - 1);
            std::fs::write(p, &d[..k]).unwrap();
            must_fail = true;
            what = format!("the compressed input is cut off after {k} of {} bytes", d.len());
            sim.fault("truncated compressed input");
        }
        _ => {
            let (p, t) = u.damaged.as_ref().unwrap();
            let ext = crate::util::ext_of(p.to_str().unwrap());
            std::fs::write(p, compress(ext, t.as_bytes())).unwrap();
            must_fail = true;
            what = format!("the input is damaged: {t:?}");
            sim.fault("damaged input");
        }
    }
    sim.ev(what.clone());
    let o = exec(u.tool, &u.args, u.stdin.as_deref(), plan);
    alive(u, &o, &what)?;
    let hit = must_fail || o.seen.read_failed + o.seen.write_failed + o.seen.open_failed > 0;
    if hit {
        // messages for the user may get lost, the result may not
        let complete = u.out.is_some() && o.seen.write_failed > 0 && o.seen.read_failed + o.seen.open_failed == 0 && !must_fail && u.result(&o) == first;
        ensure!(
            o.code != Some(0) || complete,
            format!("tool:{}:success-despite-{}", u.tool, match () {
                () if o.seen.read_failed > 0 => "read-error",
                () if o.seen.write_failed > 0 => "write-error",
                () if o.seen.open_failed > 0 => "open-error",
                () => "damaged-input",
            }),
            "{} {:?} reports success although {what}; output {:?}", u.tool, u.args, u.result(&o)
        );
    } else {
        sim.probe("fault not reached");
        good(sim, &o)?;
        ensure!(u.result(&o) == first, format!("tool:{}:different", u.tool), "{} {:?} gives another result: {first:?}, {:?}", u.tool, u.args, u.result(&o));
    }
    Ok(())
}
