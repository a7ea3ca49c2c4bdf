//! Raw system calls and errno, so that the interposed libc functions can pass calls on.
use core::arch::asm;
pub unsafe fn syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
/// libc convention: -1 and errno on failure
pub unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) { set_errno(-r as i32); -1 } else { r }
}
pub unsafe fn set_errno(e: i32) { *libc::__errno_location() = e; }
pub const FUTEX: i64 = libc::SYS_futex;
pub unsafe fn futex_wait_real(a: *const u32, v: u32) {
    syscall6(FUTEX, a as usize, 128, v as usize, 0, 0, 0);
}
pub unsafe fn futex_wake_real(a: *const u32, n: u32) {
    syscall6(FUTEX, a as usize, 128 | 1, n as usize, 0, 0, 0);
}
