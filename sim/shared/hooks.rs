//! Deterministic randomness and clock for every thread that belongs to a simulated run.
//! Compiled into each harness binary (not a library) so that the symbols win at link time.
use simcore::sys::syscall6;
use std::cell::Cell;

thread_local! {
    /// 0: not part of a simulated run
    pub static RUN_SEED: Cell<u64> = const { Cell::new(0) };
    static RAND_CTR: Cell<u64> = const { Cell::new(0) };
}

/// Called by the runner at the start of a run, on the run's own thread
pub fn enter_run(seed: u64) {
    RUN_SEED.with(|s| s.set(seed | 1));
    RAND_CTR.with(|c| c.set(0));
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

pub fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(i32::try_from(-r).unwrap());
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let seed = RUN_SEED.try_with(Cell::get).unwrap_or(0);
    if seed == 0 {
        return ret(syscall6(318, buf as i64, len as i64, i64::from(flags), 0, 0, 0)) as isize;
    }
    for i in 0..len {
        let c = RAND_CTR.with(|c| {
            let v = c.get();
            c.set(v + 1);
            v
        });
        *buf.add(i) = simcore::sim::mix(seed, c ^ 0xA5A5) as u8;
    }
    len as isize
}
