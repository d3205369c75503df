//! A simulated operating system behind the libc symbols the standard library calls: threads under
//! a seeded cooperative scheduler, an in-memory file system, bounded pipes, child processes played
//! by scripts, a simulated clock, and faults at every one of these calls.
//!
//! Active only on threads that belong to a simulated world; everything else passes straight
//! through to the kernel.
use crate::hooks::{ret, set_errno};
use libc::{c_char, c_int, c_long, c_void};
use simcore::runner::die_with;
use simcore::sim::{hash_bytes, Sim, Violation};
use simcore::sys::{futex_wait, futex_wake, syscall6};
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::ffi::CStr;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

pub const FD_BASE: i32 = 1_000_000;
const PID_BASE: i32 = 500_000_000;
pub const ROOT: &str = "/simfs";

thread_local! {
    /// 1 + task index, 0 for threads outside of the simulation
    static TID: Cell<usize> = const { Cell::new(0) };
}

static mut WORLD: *mut World = std::ptr::null_mut();

/// How often which fault is injected, in 1/1000 per opportunity
#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub short_read: u64,
    pub short_write: u64,
    pub eintr: u64,
    pub eio_read: u64,
    pub eio_write: u64,
    pub open_fail: u64,
    pub spawn_fail: u64,
    pub pipe_fail: u64,
    pub unlink_fail: u64,
    /// bytes the disk still takes
    pub disk: Option<u64>,
    /// once this happened, every later I/O on that file/pipe fails too
    pub sticky: bool,
    pub pipe_cap: usize,
    /// 1/1000 chance to switch tasks at a scheduling point where the current task could go on
    pub preempt: u64,
    pub max_steps: u64,
}

impl Cfg {
    pub fn quiet() -> Self {
        Cfg {
            pipe_cap: 65536,
            max_steps: 400_000,
            ..Cfg::default()
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Wait {
    No,
    PipeR(usize),
    PipeW(usize),
    Proc(usize),
    Join(usize),
    Futex(usize),
    Until(u64),
}

struct Task {
    name: String,
    word: Box<AtomicU32>,
    wait: Wait,
    woken: bool,
    done: bool,
    proc: Option<usize>,
    pth: u64,
}

#[derive(Clone, Debug)]
enum Fd {
    File {
        inode: usize,
        pos: usize,
        append: bool,
        read: bool,
        write: bool,
    },
    PipeR(usize),
    PipeW(usize),
}

#[derive(Debug, Default, Clone)]
pub struct Inode {
    pub data: Vec<u8>,
    pub broken: bool,
}

struct Pipe {
    buf: VecDeque<u8>,
    readers: usize,
    writers: usize,
    broken: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Exit {
    Code(i32),
    Signal(i32),
}

pub struct Proc {
    pub prog: String,
    pub argv: Vec<String>,
    pub env: Vec<String>,
    pub cwd: Option<String>,
    fds: [Option<Fd>; 3],
    pub exit: Option<Exit>,
    pub reaped: bool,
    killed: Option<i32>,
}

/// The process is gone (killed, SIGPIPE)
pub struct Dead;
pub type PResult<T> = Result<T, Dead>;

/// What a scripted child process sees of the world
pub struct Ctx {
    pub pid: usize,
}

pub type Script = Arc<dyn Fn(&mut Ctx) -> PResult<i32> + Send + Sync>;

pub struct World {
    sim: *mut Sim,
    pub cfg: Cfg,
    tasks: Vec<Task>,
    cur: usize,
    fds: BTreeMap<i32, Fd>,
    next_fd: i32,
    pub files: BTreeMap<String, usize>,
    pub inodes: Vec<Inode>,
    pipes: Vec<Pipe>,
    pub procs: Vec<Proc>,
    pub programs: BTreeMap<String, Script>,
    pub steps: u64,
    pub clock: u64,
    actions: BTreeMap<usize, Vec<Action>>,
    /// every fault that hit a call made by the code under test: kind
    pub lib_faults: Vec<&'static str>,
    closing: bool,
    temp_names: Vec<String>,
    pub tmp_created: u64,
}

enum Action {
    Dup2(i32, i32),
    Chdir(String),
}

fn me() -> usize {
    TID.try_with(Cell::get).unwrap_or(0)
}

fn w() -> Option<&'static mut World> {
    if me() == 0 {
        return None;
    }
    unsafe {
        if WORLD.is_null() {
            None
        } else {
            Some(&mut *WORLD)
        }
    }
}

pub fn world() -> &'static mut World {
    w().expect("simulated world")
}

unsafe fn real<T: Copy>(name: &CStr) -> T {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    assert!(!p.is_null());
    std::mem::transmute_copy(&p)
}

impl World {
    #[allow(clippy::mut_from_ref)]
    pub fn sim(&self) -> &'static mut Sim {
        unsafe { &mut *self.sim }
    }

    /// Starts the simulation with the calling thread as its first task
    pub fn enter(sim: &mut Sim, cfg: Cfg) -> &'static mut World {
        assert!(me() == 0);
        std::env::set_var("TMPDIR", "/simfs/tmp");
        let b = Box::new(World {
            sim,
            cfg,
            tasks: vec![Task {
                name: "main".into(),
                word: Box::new(AtomicU32::new(0)),
                wait: Wait::No,
                woken: false,
                done: false,
                proc: None,
                pth: 0,
            }],
            cur: 0,
            fds: BTreeMap::new(),
            next_fd: FD_BASE,
            files: BTreeMap::new(),
            inodes: vec![],
            pipes: vec![],
            procs: vec![],
            programs: BTreeMap::new(),
            steps: 0,
            clock: 1_000_000_000,
            actions: BTreeMap::new(),
            lib_faults: vec![],
            closing: false,
            temp_names: vec![],
            tmp_created: 0,
        });
        unsafe {
            WORLD = Box::into_raw(b);
            TID.with(|t| t.set(1));
            &mut *WORLD
        }
    }

    /// Ends the simulation: kills what still runs, lets every thread finish
    pub fn leave() -> Option<Box<World>> {
        let wd = w()?;
        wd.closing = true;
        wd.cfg = Cfg {
            max_steps: wd.steps + 200_000,
            ..Cfg::quiet()
        };
        for p in &mut wd.procs {
            if p.exit.is_none() && p.killed.is_none() {
                p.killed = Some(9);
            }
        }
        while wd.tasks.iter().skip(1).any(|t| !t.done) {
            let t = wd
                .tasks
                .iter()
                .enumerate()
                .skip(1)
                .find(|(_, t)| !t.done)
                .unwrap()
                .0;
            wd.block(Wait::Join(t));
        }
        let b = unsafe {
            let b = Box::from_raw(WORLD);
            WORLD = std::ptr::null_mut();
            b
        };
        TID.with(|t| t.set(0));
        b.sim().st.simtime_ns += b.clock - 1_000_000_000;
        b.sim().st.steps += b.steps;
        Some(b)
    }

    fn fatal(&self, class: &str, detail: String) -> ! {
        die_with(
            self.sim(),
            &Violation {
                class: format!("{}{class}", if self.sim().panic_ctx.is_empty() { String::new() } else { format!("{}:", self.sim().panic_ctx) }),
                detail,
            },
        )
    }

    fn runnable(&self, i: usize) -> bool {
        let t = &self.tasks[i];
        if t.done {
            return false;
        }
        if let Some(p) = t.proc {
            if self.procs[p].killed.is_some() {
                return true;
            }
        }
        match t.wait {
            Wait::No => true,
            Wait::PipeR(p) => !self.pipes[p].buf.is_empty() || self.pipes[p].writers == 0 || self.pipes[p].broken,
            Wait::PipeW(p) => {
                self.pipes[p].buf.len() < self.cfg.pipe_cap || self.pipes[p].readers == 0 || self.pipes[p].broken
            }
            Wait::Proc(p) => self.procs[p].exit.is_some(),
            Wait::Join(t) => self.tasks[t].done,
            Wait::Futex(_) => t.woken,
            Wait::Until(x) => self.clock >= x,
        }
    }

    fn describe(&self) -> String {
        self.tasks
            .iter()
            .filter(|t| !t.done)
            .map(|t| format!("{}:{:?}", t.name, t.wait))
            .collect::<Vec<_>>()
            .join(", ")
    }

    /// A scheduling point; returns once the current task has been chosen again and its wait is over
    fn block(&mut self, wait: Wait) {
        let meidx = me() - 1;
        assert_eq!(meidx, self.cur, "only the task holding the baton may run");
        self.tasks[meidx].wait = wait;
        self.switch(meidx);
        self.tasks[meidx].wait = Wait::No;
        self.tasks[meidx].woken = false;
    }

    fn pick(&mut self, from: usize) -> usize {
        self.steps += 1;
        self.clock += 1000;
        if self.steps > self.cfg.max_steps {
            let d = self.describe();
            self.fatal(
                "livelock",
                format!("no end after {} scheduling steps; live tasks: {d}", self.steps),
            );
        }
        loop {
            let r: Vec<usize> = (0..self.tasks.len()).filter(|&i| self.runnable(i)).collect();
            if r.is_empty() {
                let next = self
                    .tasks
                    .iter()
                    .filter(|t| !t.done)
                    .filter_map(|t| match t.wait {
                        Wait::Until(x) if x != u64::MAX => Some(x),
                        _ => None,
                    })
                    .min();
                if let Some(x) = next {
                    self.clock = self.clock.max(x);
                    continue;
                }
                let d = self.describe();
                self.fatal("deadlock", format!("every task is blocked for ever: {d}"));
            }
            if r.len() == 1 {
                return r[0];
            }
            if r.contains(&from) {
                if !self.closing && self.sim().chance(self.cfg.preempt, 1000) {
                    let o: Vec<usize> = r.into_iter().filter(|&i| i != from).collect();
                    let i = self.sim().idx(o.len());
                    return o[i];
                }
                return from;
            }
            if self.closing {
                return r[0];
            }
            let i = self.sim().idx(r.len());
            return r[i];
        }
    }

    fn switch(&mut self, from: usize) {
        let to = self.pick(from);
        if to == from {
            return;
        }
        if !self.closing {
            let s = format!("sched {} -> {}", self.tasks[from].name, self.tasks[to].name);
            self.sim().ev(s);
            self.sim().st.ops.entry("context switch".into()).and_modify(|c| *c += 1).or_insert(1);
        }
        self.cur = to;
        self.hand(to);
        self.sleep(from);
    }

    fn hand(&self, to: usize) {
        let a = &self.tasks[to].word;
        a.store(1, Ordering::SeqCst);
        unsafe { futex_wake(a.as_ptr()) };
    }

    fn sleep(&self, i: usize) {
        let p: *const AtomicU32 = &*self.tasks[i].word;
        let a = unsafe { &*p };
        while a.load(Ordering::SeqCst) == 0 {
            unsafe { futex_wait(a.as_ptr(), 0) };
        }
        a.store(0, Ordering::SeqCst);
    }

    /// log file names without the random part of temporary files
    fn canon(&mut self, p: &str) -> String {
        if let Some(i) = p.find("/.tmp") {
            let pos = self.temp_names.iter().position(|t| t == p).unwrap_or_else(|| {
                self.temp_names.push(p.to_string());
                self.temp_names.len() - 1
            });
            return format!("{}/<tmp{pos}>", &p[..i]);
        }
        p.to_string()
    }

    fn ev(&mut self, s: String) {
        if !self.closing {
            let n = self.tasks[self.cur].name.clone();
            self.sim().ev(format!("{n} {s}"));
        }
    }

    /// draw a fault for the running task; child scripts are harness code and take their own
    fn fault(&mut self, kind: &'static str, rate: u64) -> bool {
        if self.closing || self.tasks[self.cur].proc.is_some() {
            return false;
        }
        if rate > 0 && self.sim().chance(rate, 1000) {
            self.sim().fault(kind);
            self.lib_faults.push(kind);
            return true;
        }
        false
    }

    pub fn add_program(&mut self, path: &str, s: Script) {
        self.programs.insert(path.to_string(), s);
    }

    pub fn put_file(&mut self, path: &str, data: &[u8]) {
        self.inodes.push(Inode {
            data: data.to_vec(),
            broken: false,
        });
        self.files.insert(path.into(), self.inodes.len() - 1);
    }

    pub fn get_file(&self, path: &str) -> Option<&Vec<u8>> {
        self.files.get(path).map(|&i| &self.inodes[i].data)
    }

    pub fn open_fds(&self) -> Vec<String> {
        self.fds.values().map(|f| format!("{f:?}")).collect()
    }

    pub fn live_threads(&self) -> Vec<String> {
        self.tasks
            .iter()
            .skip(1)
            .filter(|t| !t.done && t.proc.is_none())
            .map(|t| t.name.clone())
            .collect()
    }

    /// advance until nothing but the calling task can make progress
    pub fn settle(&mut self, bound: u64) {
        for _ in 0..bound {
            let from = self.cur;
            let r: Vec<usize> = (0..self.tasks.len()).filter(|&i| i != from && self.runnable(i)).collect();
            if r.is_empty() {
                return;
            }
            self.steps += 1;
            let i = self.sim().idx(r.len());
            self.cur = r[i];
            self.hand(r[i]);
            self.sleep(from);
        }
    }

    fn close_fd(&mut self, f: &Fd) {
        match f {
            Fd::PipeR(p) => self.pipes[*p].readers -= 1,
            Fd::PipeW(p) => self.pipes[*p].writers -= 1,
            Fd::File { .. } => {}
        }
    }

    fn dup(&mut self, f: &Fd) -> Fd {
        match f {
            Fd::PipeR(p) => self.pipes[*p].readers += 1,
            Fd::PipeW(p) => self.pipes[*p].writers += 1,
            Fd::File { .. } => {}
        }
        f.clone()
    }

    fn do_read(&mut self, fd: &mut Fd, buf: &mut [u8]) -> i64 {
        match fd {
            Fd::File {
                inode, pos, read, ..
            } => {
                if !*read {
                    return -i64::from(libc::EBADF);
                }
                let inode = *inode;
                if self.inodes[inode].broken || self.fault("read EIO", self.cfg.eio_read) {
                    self.inodes[inode].broken |= self.cfg.sticky;
                    return -i64::from(libc::EIO);
                }
                if self.fault("read EINTR", self.cfg.eintr) {
                    return -i64::from(libc::EINTR);
                }
                let d = &self.inodes[inode].data;
                let avail = d.len().saturating_sub(*pos);
                let mut n = avail.min(buf.len());
                if n > 1 && self.fault("short read", self.cfg.short_read) {
                    n = 1 + self.sim().idx(n - 1);
                }
                let d = &self.inodes[inode].data;
                buf[..n].copy_from_slice(&d[*pos..*pos + n]);
                *pos += n;
                n as i64
            }
            Fd::PipeR(p) => {
                let p = *p;
                if !self.pipes[p].broken && self.fault("read EINTR", self.cfg.eintr) {
                    return -i64::from(libc::EINTR);
                }
                if self.pipes[p].broken || self.fault("read EIO", self.cfg.eio_read) {
                    self.pipes[p].broken |= self.cfg.sticky;
                    return -i64::from(libc::EIO);
                }
                if self.pipes[p].buf.is_empty() && self.pipes[p].writers > 0 {
                    self.block(Wait::PipeR(p));
                }
                let mut n = self.pipes[p].buf.len().min(buf.len());
                if n > 1 && self.fault("short read", self.cfg.short_read) {
                    n = 1 + self.sim().idx(n - 1);
                }
                for b in buf.iter_mut().take(n) {
                    *b = self.pipes[p].buf.pop_front().unwrap();
                }
                n as i64
            }
            Fd::PipeW(_) => -i64::from(libc::EBADF),
        }
    }

    fn do_write(&mut self, fd: &mut Fd, buf: &[u8]) -> i64 {
        match fd {
            Fd::File {
                inode,
                pos,
                append,
                write,
                ..
            } => {
                if !*write {
                    return -i64::from(libc::EBADF);
                }
                let inode = *inode;
                if self.inodes[inode].broken || self.fault("write EIO", self.cfg.eio_write) {
                    self.inodes[inode].broken |= self.cfg.sticky;
                    return -i64::from(libc::EIO);
                }
                if self.fault("write EINTR", self.cfg.eintr) {
                    return -i64::from(libc::EINTR);
                }
                let mut n = buf.len();
                if n > 1 && self.fault("short write", self.cfg.short_write) {
                    n = 1 + self.sim().idx(n - 1);
                }
                if let (Some(d), false) = (self.cfg.disk, self.closing) {
                    if d == 0 && n > 0 {
                        self.sim().fault("disk full");
                        if self.tasks[self.cur].proc.is_none() {
                            self.lib_faults.push("disk full");
                        }
                        return -i64::from(libc::ENOSPC);
                    }
                    n = n.min(d as usize);
                    self.cfg.disk = Some(d - n as u64);
                }
                let d = &mut self.inodes[inode].data;
                if *append {
                    *pos = d.len();
                }
                if d.len() < *pos + n {
                    d.resize(*pos + n, 0);
                }
                d[*pos..*pos + n].copy_from_slice(&buf[..n]);
                *pos += n;
                n as i64
            }
            Fd::PipeW(p) => {
                let p = *p;
                if !self.pipes[p].broken && self.fault("write EINTR", self.cfg.eintr) {
                    return -i64::from(libc::EINTR);
                }
                if buf.is_empty() {
                    return 0;
                }
                if self.pipes[p].buf.len() >= self.cfg.pipe_cap && self.pipes[p].readers > 0 {
                    self.block(Wait::PipeW(p));
                }
                if self.pipes[p].readers == 0 {
                    return -i64::from(libc::EPIPE);
                }
                let room = self.cfg.pipe_cap - self.pipes[p].buf.len().min(self.cfg.pipe_cap);
                let mut n = buf.len().min(room);
                if n > 1 && self.fault("short write", self.cfg.short_write) {
                    n = 1 + self.sim().idx(n - 1);
                }
                self.pipes[p].buf.extend(&buf[..n]);
                n as i64
            }
            Fd::PipeR(_) => -i64::from(libc::EBADF),
        }
    }

    fn open(&mut self, path: &str, flags: c_int) -> i64 {
        let c = self.canon(path);
        let wants_write = flags & libc::O_ACCMODE != libc::O_RDONLY;
        if self.fault("open failure", self.cfg.open_fail) {
            let e = *self
                .sim()
                .pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::EINTR]);
            if e == libc::EINTR {
                *self.lib_faults.last_mut().unwrap() = "open EINTR";
            }
            self.ev(format!("open {c} -> errno {e}"));
            return -i64::from(e);
        }
        let inode = match self.files.get(path) {
            Some(&i) => {
                if flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0 {
                    return -i64::from(libc::EEXIST);
                }
                if flags & libc::O_TRUNC != 0 && wants_write {
                    self.inodes[i].data.clear();
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return -i64::from(libc::ENOENT);
                }
                if path.contains("/.tmp") {
                    self.tmp_created += 1;
                }
                self.inodes.push(Inode::default());
                self.files.insert(path.into(), self.inodes.len() - 1);
                self.inodes.len() - 1
            }
        };
        let fd = self.next_fd;
        self.next_fd += 1;
        let acc = flags & libc::O_ACCMODE;
        self.fds.insert(
            fd,
            Fd::File {
                inode,
                pos: 0,
                append: flags & libc::O_APPEND != 0,
                read: acc != libc::O_WRONLY,
                write: acc != libc::O_RDONLY,
            },
        );
        self.ev(format!("open {c}"));
        i64::from(fd)
    }

    fn spawn_task(&mut self, name: String, proc: Option<usize>, start: StartFn, arg: *mut c_void, attr: *const libc::pthread_attr_t) -> Result<u64, c_int> {
        let idx = self.tasks.len();
        self.tasks.push(Task {
            name,
            word: Box::new(AtomicU32::new(0)),
            wait: Wait::No,
            woken: false,
            done: false,
            proc,
            pth: 0,
        });
        let b = Box::new(Tramp {
            idx,
            start,
            arg,
            word: &*self.tasks[idx].word,
            seed: crate::hooks::RUN_SEED.with(Cell::get).wrapping_add(2 * idx as u64),
        });
        let mut pth: libc::pthread_t = 0;
        let r = unsafe {
            let f: unsafe extern "C" fn(
                *mut libc::pthread_t,
                *const libc::pthread_attr_t,
                extern "C" fn(*mut c_void) -> *mut c_void,
                *mut c_void,
            ) -> c_int = real(c"pthread_create");
            f(&mut pth, attr, tramp, Box::into_raw(b).cast())
        };
        if r != 0 {
            self.tasks[idx].done = true;
            return Err(r);
        }
        self.tasks[idx].pth = pth as u64;
        Ok(pth as u64)
    }
}

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;

struct Tramp {
    idx: usize,
    start: StartFn,
    arg: *mut c_void,
    word: *const AtomicU32,
    seed: u64,
}

extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let t = unsafe { Box::from_raw(p.cast::<Tramp>()) };
    // wait for the baton
    let a = unsafe { &*t.word };
    while a.load(Ordering::SeqCst) == 0 {
        unsafe { futex_wait(a.as_ptr(), 0) };
    }
    a.store(0, Ordering::SeqCst);
    crate::hooks::enter_run(t.seed);
    TID.with(|x| x.set(t.idx + 1));
    let r = (t.start)(t.arg);
    // this task is over: pass the baton on and vanish from the simulation
    let wd = world();
    wd.tasks[t.idx].done = true;
    let to = wd.pick(t.idx);
    if !wd.closing {
        let s = format!("sched {} (done) -> {}", wd.tasks[t.idx].name, wd.tasks[to].name);
        wd.sim().ev(s);
    }
    wd.cur = to;
    TID.with(|x| x.set(0));
    wd.hand(to);
    r
}

// ------------------------------------------------------------------ child processes

struct ChildArg {
    pid: usize,
    script: Script,
}

extern "C" fn child_main(p: *mut c_void) -> *mut c_void {
    let a = unsafe { Box::from_raw(p.cast::<ChildArg>()) };
    let mut ctx = Ctx { pid: a.pid };
    let r = (a.script)(&mut ctx);
    let wd = world();
    let exit = match r {
        Ok(c) => Exit::Code(c),
        Err(Dead) => Exit::Signal(wd.procs[a.pid].killed.unwrap_or(libc::SIGPIPE)),
    };
    wd.ev(format!("exits {exit:?}"));
    for f in std::mem::take(&mut wd.procs[a.pid].fds).into_iter().flatten() {
        wd.close_fd(&f);
    }
    wd.procs[a.pid].exit = Some(exit);
    std::ptr::null_mut()
}

impl Ctx {
    pub fn sim(&mut self) -> &'static mut Sim {
        world().sim()
    }
    pub fn proc(&self) -> &'static Proc {
        &world().procs[self.pid]
    }
    fn alive(&self) -> PResult<()> {
        if world().procs[self.pid].killed.is_some() {
            Err(Dead)
        } else {
            Ok(())
        }
    }
    pub fn yield_now(&mut self) -> PResult<()> {
        world().block(Wait::No);
        self.alive()
    }
    pub fn sleep(&mut self, ns: u64) -> PResult<()> {
        let wd = world();
        let t = wd.clock + ns;
        wd.block(Wait::Until(t));
        self.alive()
    }
    /// dies by the given signal
    pub fn die<T>(&mut self, sig: i32) -> PResult<T> {
        world().procs[self.pid].killed = Some(sig);
        Err(Dead)
    }
    /// blocks until killed
    pub fn hang<T>(&mut self) -> PResult<T> {
        loop {
            world().block(Wait::Until(u64::MAX));
            self.alive()?;
        }
    }
    pub fn close(&mut self, fd: usize) {
        let wd = world();
        if let Some(f) = wd.procs[self.pid].fds[fd].take() {
            wd.close_fd(&f);
        }
    }
    /// None: the descriptor is not connected to the simulation
    pub fn read(&mut self, fd: usize, max: usize) -> PResult<Option<Vec<u8>>> {
        self.yield_now()?;
        let wd = world();
        let Some(mut f) = wd.procs[self.pid].fds[fd].take() else {
            return Ok(None);
        };
        let mut b = vec![0; max];
        let r = wd.do_read(&mut f, &mut b);
        wd.procs[self.pid].fds[fd] = Some(f);
        self.alive()?;
        if r < 0 {
            return Ok(Some(vec![]));
        }
        b.truncate(r as usize);
        Ok(Some(b))
    }
    pub fn read_all(&mut self, fd: usize, chunk: usize) -> PResult<Option<Vec<u8>>> {
        let mut out = vec![];
        loop {
            match self.read(fd, chunk)? {
                None => return Ok(None),
                Some(b) if b.is_empty() => return Ok(Some(out)),
                Some(b) => out.extend(b),
            }
        }
    }
    /// writes everything, in the pieces the pipe takes; Ok(false): the disk is full (the script
    /// ignores it, as many solvers do)
    /// number of bytes written: all of them, unless the disk is full
    pub fn write(&mut self, fd: usize, mut data: &[u8]) -> PResult<usize> {
        let n = data.len();
        while !data.is_empty() {
            self.yield_now()?;
            let wd = world();
            let Some(mut f) = wd.procs[self.pid].fds[fd].take() else {
                return Ok(n);
            };
            let r = wd.do_write(&mut f, data);
            wd.procs[self.pid].fds[fd] = Some(f);
            self.alive()?;
            if r == -i64::from(libc::EPIPE) {
                return self.die(libc::SIGPIPE);
            }
            if r < 0 {
                return Ok(n - data.len());
            }
            data = &data[r as usize..];
        }
        Ok(n)
    }
    pub fn read_file(&mut self, path: &str) -> PResult<Option<Vec<u8>>> {
        self.yield_now()?;
        Ok(world().get_file(path).cloned())
    }
    pub fn ev(&mut self, s: &str) {
        world().ev(s.to_string());
    }
}

// ------------------------------------------------------------------ libc symbols

unsafe fn cstr(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}

fn in_simfs(p: &str) -> bool {
    p.starts_with(ROOT)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if let Some(wd) = w() {
        let p = cstr(path);
        if in_simfs(&p) {
            wd.block(Wait::No);
            return ret(wd.open(&p, flags)) as c_int;
        }
    }
    ret(syscall6(2, path as i64, i64::from(flags), i64::from(mode), 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open64(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if fd >= FD_BASE {
        if let Some(wd) = w() {
            wd.block(Wait::No);
            let Some(mut f) = wd.fds.get(&fd).cloned() else {
                return ret(-i64::from(libc::EBADF)) as isize;
            };
            let s = if n == 0 { &mut [][..] } else { std::slice::from_raw_parts_mut(buf.cast::<u8>(), n) };
            let r = wd.do_read(&mut f, s);
            wd.fds.insert(fd, f);
            if r > 0 {
                let h = hash_bytes(0, &s[..r as usize]);
                wd.ev(format!("read fd{} -> {r} [{:x}]", fd - FD_BASE, h as u32));
            } else {
                wd.ev(format!("read fd{} -> {r}", fd - FD_BASE));
            }
            return ret(r) as isize;
        }
    }
    ret(syscall6(0, i64::from(fd), buf as i64, n as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if fd >= FD_BASE {
        if let Some(wd) = w() {
            wd.block(Wait::No);
            let Some(mut f) = wd.fds.get(&fd).cloned() else {
                return ret(-i64::from(libc::EBADF)) as isize;
            };
            let s = if n == 0 { &[][..] } else { std::slice::from_raw_parts(buf.cast::<u8>(), n) };
            let r = wd.do_write(&mut f, s);
            wd.fds.insert(fd, f);
            wd.ev(format!("write fd{} {n} -> {r}", fd - FD_BASE));
            return ret(r) as isize;
        }
    }
    ret(syscall6(1, i64::from(fd), buf as i64, n as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if fd >= FD_BASE && w().is_some() {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(syscall6(20, i64::from(fd), iov as i64, i64::from(n), 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if fd >= FD_BASE && w().is_some() {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(syscall6(19, i64::from(fd), iov as i64, i64::from(n), 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        if let Some(wd) = w() {
            if let Some(f) = wd.fds.remove(&fd) {
                wd.close_fd(&f);
                wd.ev(format!("close fd{}", fd - FD_BASE));
            }
            return 0;
        }
    }
    ret(syscall6(3, i64::from(fd), 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fd >= FD_BASE {
        if let Some(wd) = w() {
            let Some(mut f) = wd.fds.get(&fd).cloned() else {
                return ret(-i64::from(libc::EBADF));
            };
            let r = if let Fd::File { inode, pos, .. } = &mut f {
                let base = match whence {
                    libc::SEEK_SET => 0,
                    libc::SEEK_CUR => *pos as i64,
                    _ => wd.inodes[*inode].data.len() as i64,
                };
                *pos = (base + off).max(0) as usize;
                *pos as i64
            } else {
                -i64::from(libc::ESPIPE)
            };
            wd.fds.insert(fd, f);
            return ret(r);
        }
    }
    ret(syscall6(8, i64::from(fd), off, i64::from(whence), 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if let Some(wd) = w() {
        let p = cstr(path);
        if in_simfs(&p) {
            wd.block(Wait::No);
            let c = wd.canon(&p);
            if wd.fault("unlink failure", wd.cfg.unlink_fail) {
                return ret(-i64::from(libc::EIO)) as c_int;
            }
            wd.ev(format!("unlink {c}"));
            return match wd.files.remove(&p) {
                Some(_) => 0,
                None => ret(-i64::from(libc::ENOENT)) as c_int,
            };
        }
    }
    ret(syscall6(87, path as i64, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    if let Some(wd) = w() {
        let p = if path.is_null() { String::new() } else { cstr(path) };
        let inode = if dirfd >= FD_BASE && p.is_empty() {
            match wd.fds.get(&dirfd) {
                Some(Fd::File { inode, .. }) => Some(Some(*inode)),
                Some(_) => Some(None),
                None => return ret(-i64::from(libc::EBADF)) as c_int,
            }
        } else if in_simfs(&p) {
            match wd.files.get(&p) {
                Some(&i) => Some(Some(i)),
                None => return ret(-i64::from(libc::ENOENT)) as c_int,
            }
        } else {
            None
        };
        if let Some(i) = inode {
            std::ptr::write_bytes(out.cast::<u8>(), 0, std::mem::size_of::<libc::statx>());
            (*out).stx_mask = libc::STATX_BASIC_STATS;
            (*out).stx_blksize = 4096;
            (*out).stx_nlink = 1;
            match i {
                Some(i) => {
                    (*out).stx_mode = (libc::S_IFREG | 0o600) as u16;
                    (*out).stx_size = wd.inodes[i].data.len() as u64;
                    (*out).stx_ino = i as u64 + 1;
                }
                None => (*out).stx_mode = (libc::S_IFIFO | 0o600) as u16,
            }
            return 0;
        }
    }
    ret(syscall6(332, i64::from(dirfd), path as i64, i64::from(flags), i64::from(mask), out as i64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    if let Some(wd) = w() {
        wd.block(Wait::No);
        if wd.fault("pipe failure", wd.cfg.pipe_fail) {
            return ret(-i64::from(libc::EMFILE)) as c_int;
        }
        wd.pipes.push(Pipe {
            buf: VecDeque::new(),
            readers: 1,
            writers: 1,
            broken: false,
        });
        let p = wd.pipes.len() - 1;
        let fd = wd.next_fd;
        wd.next_fd += 2;
        wd.fds.insert(fd, Fd::PipeR(p));
        wd.fds.insert(fd + 1, Fd::PipeW(p));
        *fds = fd;
        *fds.add(1) = fd + 1;
        wd.ev(format!("pipe fd{} fd{}", fd - FD_BASE, fd + 1 - FD_BASE));
        return 0;
    }
    ret(syscall6(293, fds as i64, i64::from(flags), 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if fd >= FD_BASE {
        if let Some(wd) = w() {
            if cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD {
                let Some(f) = wd.fds.get(&fd).cloned() else {
                    return ret(-i64::from(libc::EBADF)) as c_int;
                };
                let f = wd.dup(&f);
                let n = wd.next_fd;
                wd.next_fd += 1;
                wd.fds.insert(n, f);
                return n;
            }
            return 0;
        }
    }
    ret(syscall6(72, i64::from(fd), i64::from(cmd), arg, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(a: *mut libc::posix_spawn_file_actions_t) -> c_int {
    if let Some(wd) = w() {
        wd.actions.insert(a as usize, vec![]);
        return 0;
    }
    let f: unsafe extern "C" fn(*mut libc::posix_spawn_file_actions_t) -> c_int = real(c"posix_spawn_file_actions_init");
    f(a)
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(a: *mut libc::posix_spawn_file_actions_t) -> c_int {
    if let Some(wd) = w() {
        wd.actions.remove(&(a as usize));
        return 0;
    }
    let f: unsafe extern "C" fn(*mut libc::posix_spawn_file_actions_t) -> c_int = real(c"posix_spawn_file_actions_destroy");
    f(a)
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(a: *mut libc::posix_spawn_file_actions_t, fd: c_int, new: c_int) -> c_int {
    if let Some(wd) = w() {
        wd.actions.entry(a as usize).or_default().push(Action::Dup2(fd, new));
        return 0;
    }
    let f: unsafe extern "C" fn(*mut libc::posix_spawn_file_actions_t, c_int, c_int) -> c_int = real(c"posix_spawn_file_actions_adddup2");
    f(a, fd, new)
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(a: *mut libc::posix_spawn_file_actions_t, p: *const c_char) -> c_int {
    if let Some(wd) = w() {
        wd.actions.entry(a as usize).or_default().push(Action::Chdir(cstr(p)));
        return 0;
    }
    let f: unsafe extern "C" fn(*mut libc::posix_spawn_file_actions_t, *const c_char) -> c_int = real(c"posix_spawn_file_actions_addchdir_np");
    f(a, p)
}

unsafe fn strv(mut p: *const *mut c_char) -> Vec<String> {
    let mut v = vec![];
    while !p.is_null() && !(*p).is_null() {
        v.push(cstr(*p));
        p = p.add(1);
    }
    v
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut libc::pid_t,
    file: *const c_char,
    actions: *const libc::posix_spawn_file_actions_t,
    attr: *const libc::posix_spawnattr_t,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    let Some(wd) = w() else {
        let f: unsafe extern "C" fn(
            *mut libc::pid_t,
            *const c_char,
            *const libc::posix_spawn_file_actions_t,
            *const libc::posix_spawnattr_t,
            *const *mut c_char,
            *const *mut c_char,
        ) -> c_int = real(c"posix_spawnp");
        return f(pid, file, actions, attr, argv, envp);
    };
    wd.block(Wait::No);
    let prog = cstr(file);
    if wd.fault("spawn failure", wd.cfg.spawn_fail) {
        return *wd.sim().pick(&[libc::EAGAIN, libc::ENOMEM, libc::ENOENT]);
    }
    let Some(script) = wd.programs.get(&prog).cloned() else {
        return libc::ENOENT;
    };
    let mut fds: [Option<Fd>; 3] = [None, None, None];
    let mut cwd = None;
    let acts = wd.actions.remove(&(actions as usize)).unwrap_or_default();
    for a in &acts {
        match a {
            Action::Dup2(from, to) => {
                if let Some(f) = wd.fds.get(from).cloned() {
                    let f = wd.dup(&f);
                    if (0..3).contains(to) {
                        fds[*to as usize] = Some(f);
                    }
                }
            }
            Action::Chdir(c) => cwd = Some(c.clone()),
        }
    }
    wd.actions.insert(actions as usize, acts);
    let argv = strv(argv);
    let shown: Vec<String> = argv.iter().map(|a| wd.canon(a)).collect();
    wd.procs.push(Proc {
        prog,
        argv,
        env: strv(envp),
        cwd,
        fds,
        exit: None,
        reaped: false,
        killed: None,
    });
    let pidx = wd.procs.len() - 1;
    wd.ev(format!("spawn {shown:?} as p{pidx}"));
    let arg = Box::new(ChildArg { pid: pidx, script });
    if let Err(e) = wd.spawn_task(format!("child{pidx}"), Some(pidx), child_main, Box::into_raw(arg).cast(), std::ptr::null()) {
        return e;
    }
    *pid = PID_BASE + pidx as i32;
    0
}

#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: libc::pid_t, status: *mut c_int, opts: c_int) -> libc::pid_t {
    if pid >= PID_BASE {
        if let Some(wd) = w() {
            wd.block(Wait::No);
            if wd.fault("waitpid EINTR", wd.cfg.eintr) {
                return ret(-i64::from(libc::EINTR)) as i32;
            }
            let p = (pid - PID_BASE) as usize;
            if wd.procs[p].reaped {
                return ret(-i64::from(libc::ECHILD)) as i32;
            }
            if wd.procs[p].exit.is_none() {
                if opts & libc::WNOHANG != 0 {
                    return 0;
                }
                wd.ev(format!("waits for p{p}"));
                wd.block(Wait::Proc(p));
            }
            wd.procs[p].reaped = true;
            let st = match wd.procs[p].exit.unwrap() {
                Exit::Code(c) => (c & 0xff) << 8,
                Exit::Signal(s) => s,
            };
            if !status.is_null() {
                *status = st;
            }
            wd.ev(format!("reaped p{p} status {st}"));
            return pid;
        }
    }
    ret(syscall6(61, i64::from(pid), status as i64, i64::from(opts), 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn kill(pid: libc::pid_t, sig: c_int) -> c_int {
    if pid >= PID_BASE {
        if let Some(wd) = w() {
            let p = (pid - PID_BASE) as usize;
            if wd.procs[p].exit.is_none() {
                wd.procs[p].killed = Some(sig);
            }
            wd.ev(format!("kill p{p} {sig}"));
        }
        return 0;
    }
    ret(syscall6(62, i64::from(pid), i64::from(sig), 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: StartFn,
    arg: *mut c_void,
) -> c_int {
    let Some(wd) = w() else {
        let f: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut c_void) -> c_int =
            real(c"pthread_create");
        return f(out, attr, start, arg);
    };
    let n = wd.tasks.iter().filter(|t| t.proc.is_none()).count();
    wd.ev(format!("creates thread{n}"));
    match wd.spawn_task(format!("thread{n}"), None, start, arg, attr) {
        Ok(p) => {
            *out = p as libc::pthread_t;
            wd.block(Wait::No);
            0
        }
        Err(e) => e,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    if let Some(wd) = w() {
        if let Some(i) = wd.tasks.iter().rposition(|x| x.pth == t as u64) {
            wd.ev(format!("joins {}", wd.tasks[i].name));
            wd.block(Wait::Join(i));
        }
    }
    let f: unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = real(c"pthread_join");
    f(t, out)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if let Some(wd) = w() {
        wd.clock += 1;
        (*ts).tv_sec = (wd.clock / 1_000_000_000) as i64;
        (*ts).tv_nsec = (wd.clock % 1_000_000_000) as i64;
        return 0;
    }
    ret(syscall6(228, i64::from(id), ts as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if let Some(wd) = w() {
        let t = wd.clock + (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        wd.block(Wait::Until(t));
        return 0;
    }
    ret(syscall6(35, req as i64, rem as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if let Some(wd) = w() {
        wd.block(Wait::No);
        return 0;
    }
    ret(syscall6(24, 0, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom && crate::hooks::RUN_SEED.try_with(Cell::get).unwrap_or(0) != 0 {
        return crate::hooks::getrandom(a as *mut u8, b as usize, c as u32) as c_long;
    }
    if n == libc::SYS_futex {
        if let Some(wd) = w() {
            let op = b & 0x7f;
            let addr = a as usize;
            if op == 0 || op == 9 {
                let cur = (*(a as *const AtomicU32)).load(Ordering::SeqCst);
                if cur != c as u32 {
                    set_errno(libc::EAGAIN);
                    return -1;
                }
                if d != 0 {
                    // timed wait: the timeout may fire first
                    let t = wd.clock + 1_000_000;
                    wd.block(Wait::Until(t));
                    set_errno(libc::ETIMEDOUT);
                    return -1;
                }
                wd.block(Wait::Futex(addr));
                return 0;
            }
            if op == 1 || op == 10 {
                let mut left = c;
                let mut k = 0;
                for t in &mut wd.tasks {
                    if left > 0 && t.wait == Wait::Futex(addr) && !t.woken {
                        t.woken = true;
                        left -= 1;
                        k += 1;
                    }
                }
                return k;
            }
        }
    }
    ret(syscall6(n, a, b, c, d, e, f))
}
