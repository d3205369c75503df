//! Raw system calls: never routed through the interposed libc symbols of the harness binaries.
use std::arch::asm;

/// # Safety
/// as the system call
pub unsafe fn syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { syscall6(1, i64::from(fd), b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}

pub fn exit(code: i32) -> ! {
    unsafe {
        syscall6(231, i64::from(code), 0, 0, 0, 0, 0);
    }
    loop {}
}

/// # Safety
/// `addr` valid
pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    syscall6(202, addr as i64, 128, i64::from(val), 0, 0, 0);
}
/// # Safety
/// `addr` valid
pub unsafe fn futex_wake(addr: *const u32) {
    syscall6(202, addr as i64, 128 | 1, i64::from(i32::MAX), 0, 0, 0);
}
