//! Fault injection into the file I/O of the calling thread: a plan says for the k-th read or write of a
//! regular file whether it is served in full, in part, or interrupted.
use super::raw::*;
use std::cell::{Cell, RefCell};

/// `Storm`: the call is interrupted `STORM` times in a row. `Fail`: it fails for good, a read with EIO, a write
/// with ENOSPC (at most `FAILS` times in a run, so that a caller who insists comes to an end).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault { None, One, Half, AllButOne, Intr, Storm, Fail }
pub const STORM: usize = 9;
pub const FAILS: usize = 1000;
/// What becomes of a call.
enum Fate { Upto(usize), Intr, Fail }
use Fate::*;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static PLAN: RefCell<(Vec<Fault>, Vec<Fault>)> = const { RefCell::new((Vec::new(), Vec::new())) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
    static MADE: Cell<usize> = const { Cell::new(0) };
    static LAST: Cell<bool> = const { Cell::new(false) };
    static FAILED: Cell<usize> = const { Cell::new(0) };
    static LEFT: Cell<usize> = const { Cell::new(0) };
    static WATCH: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}

/// Runs `f`; `see` is called before every read or write of a regular file by this thread.
pub fn watched<T>(see: impl FnMut() + 'static, f: impl FnOnce() -> T) -> T {
    WATCH.with(|w| *w.borrow_mut() = Some(Box::new(see)));
    let r = with_faults(&[], &[], f).0;
    WATCH.with(|w| *w.borrow_mut() = None);
    r
}

/// Runs `f`; the k-th I/O call gets `plan[k]`, later ones cycle through `tail` (empty: no fault).
/// Returns the result, the number of I/O calls made and the number of faults that took effect.
pub fn with_faults<T>(plan: &[Fault], tail: &[Fault], f: impl FnOnce() -> T) -> (T, usize, usize) {
    PLAN.with(|p| *p.borrow_mut() = (plan.to_vec(), tail.to_vec()));
    CALLS.with(|c| c.set(0));
    MADE.with(|c| c.set(0));
    LAST.with(|c| c.set(false));
    LEFT.with(|c| c.set(0));
    FAILED.with(|c| c.set(0));
    struct Off;
    impl Drop for Off { fn drop(&mut self) { ON.with(|o| o.set(false)); } }
    let _o = Off;
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    (r, CALLS.with(|c| c.get()), MADE.with(|c| c.get()))
}

/// Runs `f` outside the plan.
pub fn plain<T>(f: impl FnOnce() -> T) -> T {
    let was = ON.with(|o| o.replace(false));
    let r = f();
    ON.with(|o| o.set(was));
    r
}

fn regular(fd: i32) -> bool {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        syscall6(libc::SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0, 0, 0, 0) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFREG
    }
}

/// Decides one call.
fn decide(fd: i32, n: usize) -> Fate {
    if !ON.try_with(|o| o.get()).unwrap_or(false) || n == 0 || !regular(fd) { return Upto(n); }
    // the rest of a run of interruptions; then the call is served
    let left = LEFT.with(|l| l.get());
    if left > 0 { LEFT.with(|l| l.set(left - 1)); return if left > 1 { Intr } else { Upto(n) }; }
    ON.with(|o| o.set(false));
    WATCH.with(|w| if let Some(see) = w.borrow_mut().as_mut() { see() });
    let k = CALLS.with(|c| { let k = c.get(); c.set(k + 1); k });
    let f = PLAN.with(|p| {
        let p = p.borrow();
        if k < p.0.len() { p.0[k] } else if p.1.is_empty() { Fault::None } else { p.1[(k - p.0.len()) % p.1.len()] }
    });
    ON.with(|o| o.set(true));
    // two interruptions in a row are fine for the caller, but never an endless run of them
    let was_intr = LAST.with(|l| l.replace(f == Fault::Intr));
    let r = match f {
        Fault::None => Upto(n),
        Fault::One => Upto(1),
        Fault::Half => Upto((n / 2).max(1)),
        Fault::AllButOne => Upto((n - 1).max(1)),
        Fault::Intr if was_intr => { LAST.with(|l| l.set(false)); Upto(n) }
        Fault::Intr => Intr,
        Fault::Storm => { LEFT.with(|l| l.set(STORM)); Intr }
        Fault::Fail => if FAILED.with(|c| { c.set(c.get() + 1); c.get() }) <= FAILS { Fail } else { Upto(n) },
    };
    if !matches!(r, Upto(m) if m == n) { MADE.with(|m| m.set(m.get() + 1)); }
    r
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    match decide(fd, n) { Intr => { set_errno(libc::EINTR); -1 } Fail => { set_errno(libc::EIO); -1 } Upto(m) => ret(syscall6(libc::SYS_read, fd as usize, buf as usize, m, 0, 0, 0)) }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    match decide(fd, n) { Intr => { set_errno(libc::EINTR); -1 } Fail => { set_errno(libc::ENOSPC); -1 } Upto(m) => ret(syscall6(libc::SYS_write, fd as usize, buf as usize, m, 0, 0, 0)) }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
    match decide(fd, n) { Intr => { set_errno(libc::EINTR); -1 } Fail => { set_errno(libc::EIO); -1 } Upto(m) => ret(syscall6(libc::SYS_pread64, fd as usize, buf as usize, m, off as usize, 0, 0)) }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, n: usize, off: i64) -> isize {
    match decide(fd, n) { Intr => { set_errno(libc::EINTR); -1 } Fail => { set_errno(libc::ENOSPC); -1 } Upto(m) => ret(syscall6(libc::SYS_pwrite64, fd as usize, buf as usize, m, off as usize, 0, 0)) }
}
unsafe fn vec_io(nr: i64, fd: i32, iov: *const libc::iovec, cnt: i32) -> isize {
    let total: usize = (0..cnt as usize).map(|i| (*iov.add(i)).iov_len).sum();
    match decide(fd, total) {
        Intr => { set_errno(libc::EINTR); -1 }
        Fail => { set_errno(if nr == libc::SYS_readv { libc::EIO } else { libc::ENOSPC }); -1 }
        Upto(m) if m == total => ret(syscall6(nr, fd as usize, iov as usize, cnt as usize, 0, 0, 0)),
        Upto(m) => {
            // part of the first non-empty buffer
            let i = (0..cnt as usize).find(|&i| (*iov.add(i)).iov_len > 0).unwrap();
            let one = libc::iovec { iov_base: (*iov.add(i)).iov_base, iov_len: (*iov.add(i)).iov_len.min(m) };
            ret(syscall6(nr, fd as usize, &one as *const _ as usize, 1, 0, 0, 0))
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const libc::iovec, cnt: i32) -> isize { vec_io(libc::SYS_readv, fd, iov, cnt) }
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, cnt: i32) -> isize { vec_io(libc::SYS_writev, fd, iov, cnt) }
