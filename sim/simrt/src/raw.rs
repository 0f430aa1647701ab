//! Raw system calls that bypass the interposed libc symbols.
use core::arch::asm;

#[inline]
pub unsafe fn syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}

pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe {
        syscall6(libc::SYS_futex, addr as i64, 128, val as i64, 0, 0, 0);
    }
}

pub fn futex_wake(addr: *const u32, n: i32) {
    unsafe {
        syscall6(libc::SYS_futex, addr as i64, 129, n as i64, 0, 0, 0);
    }
}

pub fn exit_group(code: i32) -> ! {
    unsafe {
        syscall6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}

/// Real monotonic clock, for wall-clock budgets of the driver only (never seen by a simulated run).
pub fn real_now() -> f64 {
    let mut ts = [0i64; 2];
    unsafe {
        syscall6(libc::SYS_clock_gettime, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0);
    }
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

/// Converts a raw kernel result to the libc convention.
pub fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        unsafe {
            *libc::__errno_location() = (-r) as i32;
        }
        -1
    } else {
        r
    }
}
