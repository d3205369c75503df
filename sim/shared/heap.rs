//! The simulated heap of the native code: every allocation of the C and C++ parts (and of Rust
//! code, which is never failed) goes through here. Fresh, freed and red-zone memory is filled with
//! bytes drawn from the seed, `realloc` always moves, frees are delayed, and inside a window opened
//! by the scenario the n-th allocation can fail or run an action of the scenario (the scheduling
//! point for interrupting code that offers no other).
use std::cell::Cell;
use std::ffi::c_void;

extern "C" {
    fn __libc_malloc(n: usize) -> *mut c_void;
    fn __libc_free(p: *mut c_void);
    fn __libc_memalign(a: usize, n: usize) -> *mut c_void;
    fn malloc_usable_size(p: *mut c_void) -> usize;
}

const MAGIC: u64 = 0x5EED_CAFE_0000_0000;
const MASK: u64 = 0xFFFF_FFFF_0000_0000;
const QLEN: usize = 64;

#[derive(Clone, Copy)]
pub struct Action {
    pub f: fn(*const ()),
    pub data: *const (),
}

thread_local! {
    static SPARE_C: Cell<bool> = const { Cell::new(false) };
    static OPEN: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FAIL_AT: Cell<u64> = const { Cell::new(0) };
    static FAIL_LEN: Cell<u64> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    static ACT_AT: Cell<u64> = const { Cell::new(0) };
    static ACT: Cell<Option<Action>> = const { Cell::new(None) };
    static ACTED: Cell<bool> = const { Cell::new(false) };
    static FILL: Cell<u8> = const { Cell::new(0) };
    static SIM: Cell<bool> = const { Cell::new(false) };
    static CORRUPT: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static QUAR: Cell<[usize; QLEN]> = const { Cell::new([0; QLEN]) };
    static QPOS: Cell<usize> = const { Cell::new(0) };
}

/// Called at the start of a run, on its thread
pub fn enter(seed: u64) {
    let f = match seed % 7 {
        0 => 0x00,
        1 => 0x01,
        2 => 0x02,
        3 => 0xFF,
        4 => 0x7F,
        _ => (simcore::sim::mix(seed, 77) & 0xFF) as u8,
    };
    FILL.with(|c| c.set(f));
    CORRUPT.with(|c| c.set(0));
    LIVE.with(|c| c.set(0));
    SIM.with(|c| c.set(true));
}

/// Called at the end of a run, on its thread
pub fn leave() {
    SIM.with(|c| c.set(false));
    OPEN.with(|c| c.set(false));
    let q = QUAR.with(|q| q.replace([0; QLEN]));
    for p in q {
        if p != 0 {
            unsafe { release(p as *mut c_void) };
        }
    }
}

/// What the heap is to do while a native call runs
#[derive(Default, Clone, Copy)]
pub struct Plan {
    /// 1-based index of the first allocation to fail, 0 for none
    pub fail_at: u64,
    pub fail_len: u64,
    pub act_at: u64,
    pub act: Option<Action>,
    /// Spare `calloc` and `realloc` (only `malloc`, and with it `operator new`, fail)
    pub spare_c: bool,
}

pub struct Seen {
    pub allocs: u64,
    pub failed: u64,
    pub acted: bool,
}

pub fn window<R>(plan: Plan, f: impl FnOnce() -> R) -> (R, Seen) {
    COUNT.with(|c| c.set(0));
    FAILED.with(|c| c.set(0));
    FAIL_AT.with(|c| c.set(plan.fail_at));
    FAIL_LEN.with(|c| c.set(plan.fail_len));
    ACT_AT.with(|c| c.set(plan.act_at));
    ACT.with(|c| c.set(plan.act));
    ACTED.with(|c| c.set(false));
    SPARE_C.with(|c| c.set(plan.spare_c));
    OPEN.with(|c| c.set(true));
    let r = f();
    OPEN.with(|c| c.set(false));
    (r, Seen { allocs: COUNT.with(Cell::get), failed: FAILED.with(Cell::get), acted: ACTED.with(Cell::get) })
}

/// Number of blocks whose red zone was found overwritten
pub fn corrupt() -> u64 {
    CORRUPT.with(Cell::get)
}

/// Native blocks allocated minus blocks released on this thread since the run began
pub fn live() -> i64 {
    LIVE.with(Cell::get)
}

unsafe fn raw(n: usize) -> *mut c_void {
    let p = __libc_malloc(n + 16);
    if p.is_null() {
        return p;
    }
    let us = malloc_usable_size(p);
    if SIM.try_with(Cell::get).unwrap_or(false) {
        let f = FILL.with(Cell::get);
        std::ptr::write_bytes(p.cast::<u8>(), f, us);
        p.cast::<u8>().add(us - 8).cast::<u64>().write_unaligned(MAGIC | (u64::from(f) << 24) | (us - n) as u64);
    }
    p
}

unsafe fn check(p: *mut c_void) {
    let us = malloc_usable_size(p);
    if us < 16 {
        return;
    }
    let t = p.cast::<u8>().add(us - 8).cast::<u64>().read_unaligned();
    if t & MASK != MAGIC {
        return;
    }
    let f = ((t >> 24) & 0xFF) as u8;
    let pad = (t & 0x00FF_FFFF) as usize;
    if pad < 16 || pad > us {
        return;
    }
    for i in us - pad..us - 8 {
        if p.cast::<u8>().add(i).read() != f {
            CORRUPT.with(|c| c.set(c.get() + 1));
            return;
        }
    }
}

unsafe fn size_of(p: *mut c_void) -> usize {
    let us = malloc_usable_size(p);
    if us >= 16 {
        let t = p.cast::<u8>().add(us - 8).cast::<u64>().read_unaligned();
        let pad = (t & 0x00FF_FFFF) as usize;
        if t & MASK == MAGIC && pad >= 16 && pad <= us {
            return us - pad;
        }
    }
    us
}

unsafe fn release(p: *mut c_void) {
    __libc_free(p);
}

unsafe fn dispose(p: *mut c_void) {
    if p.is_null() {
        return;
    }
    if !SIM.try_with(Cell::get).unwrap_or(false) {
        let us = malloc_usable_size(p);
        if us >= 8 {
            p.cast::<u8>().add(us - 8).cast::<u64>().write_unaligned(0);
        }
        release(p);
        return;
    }
    check(p);
    let us = malloc_usable_size(p);
    let f = FILL.with(Cell::get) ^ 0x55;
    std::ptr::write_bytes(p.cast::<u8>(), f, us);
    let i = QPOS.with(Cell::get);
    let old = QUAR.with(|c| std::mem::replace(&mut (*c.as_ptr())[i], p as usize));
    QPOS.with(|c| c.set((i + 1) % QLEN));
    if old != 0 {
        release(old as *mut c_void);
    }
}

fn gate() -> bool {
    if !OPEN.try_with(Cell::get).unwrap_or(false) {
        return true;
    }
    let n = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n == ACT_AT.with(Cell::get) {
        if let Some(a) = ACT.with(Cell::get) {
            ACTED.with(|c| c.set(true));
            (a.f)(a.data);
        }
    }
    let fa = FAIL_AT.with(Cell::get);
    if fa != 0 && n >= fa && n - fa < FAIL_LEN.with(Cell::get) {
        FAILED.with(|c| c.set(c.get() + 1));
        unsafe { *libc::__errno_location() = libc::ENOMEM };
        return false;
    }
    true
}

fn gate_c() -> bool {
    SPARE_C.try_with(Cell::get).unwrap_or(false) || gate()
}

fn count(d: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + d));
}

#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut c_void {
    if !gate() {
        return std::ptr::null_mut();
    }
    count(1);
    raw(n)
}

#[no_mangle]
pub unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut c_void {
    let Some(t) = n.checked_mul(m) else { return std::ptr::null_mut() };
    if !gate_c() {
        return std::ptr::null_mut();
    }
    count(1);
    let p = raw(t);
    if !p.is_null() {
        std::ptr::write_bytes(p.cast::<u8>(), 0, t);
    }
    p
}

#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut c_void, n: usize) -> *mut c_void {
    if p.is_null() {
        if !gate_c() {
            return std::ptr::null_mut();
        }
        count(1);
        return raw(n);
    }
    if n == 0 {
        free(p);
        return std::ptr::null_mut();
    }
    if !gate_c() {
        return std::ptr::null_mut();
    }
    let q = raw(n);
    if !q.is_null() {
        let old = size_of(p);
        std::ptr::copy_nonoverlapping(p.cast::<u8>(), q.cast::<u8>(), old.min(n));
        dispose(p);
    }
    q
}

#[no_mangle]
pub unsafe extern "C" fn free(p: *mut c_void) {
    if !p.is_null() {
        count(-1);
    }
    dispose(p);
}

/// Rust's own allocations: same memory, never failed, not counted
pub struct RustHeap;

unsafe impl std::alloc::GlobalAlloc for RustHeap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.align() <= 16 {
            raw(l.size()).cast()
        } else {
            __libc_memalign(l.align(), l.size()).cast()
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, _l: std::alloc::Layout) {
        dispose(p.cast());
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let q = self.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
