//! Controlled scheduler. The threads of one execution (a session) run one at a time; at every scheduling
//! point the explorer decides who goes on. Scheduling points: every atomic operation of instrumented code (see
//! atomics.rs), every blocking or waking futex call, thread creation, join, end, yield and sleep, and on request
//! every heap allocation and release. The futex is modelled (a waiter
//! is disabled until woken), so blocking is visible to the explorer and a state without an enabled
//! thread is a deadlock.
use super::raw::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Run, Wait { addr: usize, bits: u32, timed: bool }, Join(usize), Done }

struct Th { gate: Arc<AtomicU32>, st: St, id: libc::pthread_t, timed_out: bool }

struct In { th: Vec<Th>, trace: Vec<(u16, u16)>, prefix: Vec<u16>, bound: usize, preempt: usize, diverged: u64, points: u64, switches: u64, maxpoints: u64, heap: bool, atomics: bool, streak: u64 }

pub struct Sess { x: UnsafeCell<In>, progress: AtomicU64, free: AtomicBool, stuck: AtomicBool, over: AtomicU32, live: AtomicU32 }
unsafe impl Sync for Sess {}
unsafe impl Send for Sess {}

thread_local! {
    static ME: Cell<(*const Sess, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

fn me() -> Option<(&'static Sess, usize)> {
    let (s, i) = ME.try_with(|m| m.get()).ok()?;
    if s.is_null() || BUSY.with(|b| b.get()) { return None; }
    Some((unsafe { &*s }, i))
}
struct Quiet;
impl Quiet { fn new() -> Self { BUSY.with(|b| b.set(true)); Quiet } }
impl Drop for Quiet { fn drop(&mut self) { BUSY.with(|b| b.set(false)); } }

impl Sess {
    #[allow(clippy::mut_from_ref)]
    unsafe fn inn(&self) -> &mut In { &mut *self.x.get() }

    /// picks one of `opts`; `cost[i]` preemptions are charged for option i, and options beyond the bound are not offered
    unsafe fn choose(&self, n: usize, costly_from: usize) -> usize {
        let x = self.inn();
        let avail = if x.preempt < x.bound || x.points > x.maxpoints && costly_from == 0 { n } else { costly_from.max(1).min(n) };
        let k = x.trace.len();
        let mut c = 0usize;
        if avail > 1 {
            if k < x.prefix.len() {
                c = x.prefix[k] as usize;
                if c >= avail { c = 0; x.diverged += 1; }
            }
            x.trace.push((c as u16, avail as u16));
        }
        if c >= costly_from && n > 1 { x.preempt += 1; }
        c
    }

    unsafe fn wait_turn(&self, i: usize) {
        let g = self.inn().th[i].gate.clone();
        loop {
            if self.free.load(SeqCst) { return; }
            if g.compare_exchange(1, 0, SeqCst, SeqCst).is_ok() { return; }
            futex_wait_real(g.as_ptr(), 0);
        }
    }
    unsafe fn open(&self, i: usize) {
        let g = self.inn().th[i].gate.clone();
        g.store(1, SeqCst);
        futex_wake_real(g.as_ptr(), 1);
    }
    unsafe fn handover(&self, from: usize, to: usize) {
        if from == to { return; }
        self.inn().switches += 1;
        self.inn().streak = 0;
        self.open(to);
        self.wait_turn(from);
    }

    /// the running thread may be preempted here
    unsafe fn point(&self, i: usize) {
        if self.free.load(Relaxed) { return; }
        self.progress.fetch_add(1, Relaxed);
        let x = self.inn();
        x.points += 1;
        x.streak += 1;
        // a thread that spins: let the others run
        if x.streak % 20_000 == 0 { return self.give_way(i); }
        if x.preempt >= x.bound || x.points > x.maxpoints { return; }
        let others: Vec<usize> = (0..x.th.len()).filter(|&j| j != i && x.th[j].st == St::Run).collect();
        if others.is_empty() { return; }
        let c = self.choose(1 + others.len(), 1);
        if c > 0 { self.handover(i, others[c - 1]); }
    }

    /// yield or sleep: others go first, going on oneself costs a preemption
    unsafe fn give_way(&self, i: usize) {
        if self.free.load(Relaxed) { return; }
        self.progress.fetch_add(1, Relaxed);
        let x = self.inn();
        x.points += 1;
        let others: Vec<usize> = (0..x.th.len()).filter(|&j| j != i && x.th[j].st == St::Run).collect();
        if others.is_empty() { return; }
        let n = others.len();
        let c = self.choose(n + 1, n);
        if c < n { self.handover(i, others[c]); }
    }

    /// the running thread cannot go on (blocked or done)
    unsafe fn next(&self, i: usize, last: bool) {
        if self.free.load(Relaxed) { return; }
        self.progress.fetch_add(1, Relaxed);
        let x = self.inn();
        x.points += 1;
        let mut en: Vec<usize> = (0..x.th.len()).filter(|&j| x.th[j].st == St::Run).collect();
        if en.is_empty() {
            // time passes
            let timed: Vec<usize> = (0..x.th.len()).filter(|&j| matches!(x.th[j].st, St::Wait { timed: true, .. })).collect();
            if timed.is_empty() {
                if x.th.iter().all(|t| t.st == St::Done) { return; }
                self.stuck.store(true, SeqCst);
                if !last { self.wait_turn(i); }
                return;
            }
            for &j in &timed { x.th[j].st = St::Run; x.th[j].timed_out = true; }
            en = timed;
        }
        let c = self.choose(en.len(), usize::MAX);
        let to = en[c.min(en.len() - 1)];
        if to == i { return; }
        x.switches += 1;
        x.streak = 0;
        self.open(to);
        if !last { self.wait_turn(i); }
    }
}

/// Global allocator: passes on to the system allocator, with scheduling points.
pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { here(); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { here(); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { here(); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { here(); System.realloc(p, l, n) }
}
fn here() {
    if let Some((s, i)) = me() { unsafe { if s.inn().heap { let _q = Quiet::new(); s.point(i) } } }
}
/// before an atomic operation of instrumented code
pub fn atomic_point(_addr: usize) {
    if let Some((s, i)) = me() { unsafe { if s.inn().atomics { let _q = Quiet::new(); s.point(i) } } }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == FUTEX {
        if let Some((s, i)) = me() {
            if !s.free.load(Relaxed) {
                let _q = Quiet::new();
                let op = b & 127 & !256;
                match op as i32 {
                    libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                        s.point(i);
                        if !s.free.load(Relaxed) {
                            if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 { set_errno(libc::EAGAIN); return -1; }
                            let bits = if op as i32 == libc::FUTEX_WAIT { u32::MAX } else { f as u32 };
                            let x = s.inn();
                            x.th[i].st = St::Wait { addr: a, bits, timed: d != 0 };
                            x.th[i].timed_out = false;
                            s.next(i, false);
                            if s.free.load(Relaxed) { return 0; }
                            if s.inn().th[i].timed_out { set_errno(libc::ETIMEDOUT); return -1; }
                            return 0;
                        }
                    }
                    libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                        let bits = if op as i32 == libc::FUTEX_WAKE { u32::MAX } else { f as u32 };
                        let mut left = (c as u32).min(i32::MAX as u32);
                        let mut woken = 0;
                        for t in s.inn().th.iter_mut() {
                            if left == 0 { break; }
                            if let St::Wait { addr, bits: w, .. } = t.st {
                                if addr == a && w & bits != 0 { t.st = St::Run; left -= 1; woken += 1; }
                            }
                        }
                        if left > 0 { woken += syscall6(FUTEX, a, b, left as usize, d, e, f).max(0); }
                        s.point(i);
                        return woken;
                    }
                    _ => {}
                }
            }
        }
    }
    ret(syscall6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if let Some((s, i)) = me() { if !s.free.load(Relaxed) { let _q = Quiet::new(); s.give_way(i); return 0; } }
    syscall6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if let Some((s, i)) = me() { if !s.free.load(Relaxed) { let _q = Quiet::new(); s.give_way(i); return 0; } }
    ret(syscall6(libc::SYS_nanosleep, a as usize, b as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, fl: i32, a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if let Some((s, i)) = me() { if !s.free.load(Relaxed) { let _q = Quiet::new(); s.give_way(i); return 0; } }
    -(syscall6(libc::SYS_clock_nanosleep, clk as usize, fl as usize, a as usize, b as usize, 0, 0) as i32)
}

type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32;
type Join = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
unsafe fn real<T: Copy>(name: &std::ffi::CStr, slot: &AtomicU64) -> T {
    let mut p = slot.load(Relaxed);
    if p == 0 { p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as u64; slot.store(p, Relaxed); }
    assert!(p != 0);
    std::mem::transmute_copy(&p)
}
static R_CREATE: AtomicU64 = AtomicU64::new(0);
static R_JOIN: AtomicU64 = AtomicU64::new(0);

struct Boot { s: Arc<Sess>, i: usize, f: Start, arg: *mut libc::c_void }

extern "C" fn boot(b: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let b = Box::from_raw(b as *mut Boot);
        let s = b.s.clone();
        s.wait_turn(b.i);
        ME.with(|m| m.set((Arc::as_ptr(&s), b.i)));
        let r = (b.f)(b.arg);
        finish(&s, b.i);
        r
    }
}
unsafe fn finish(s: &Sess, i: usize) {
    ME.with(|m| m.set((std::ptr::null(), 0)));
    if s.free.load(SeqCst) { s.live.fetch_sub(1, SeqCst); done_check(s); return; }
    let x = s.inn();
    x.th[i].st = St::Done;
    for t in x.th.iter_mut() { if t.st == St::Join(i) { t.st = St::Run; } }
    s.live.fetch_sub(1, SeqCst);
    s.next(i, true);
    done_check(s);
}
unsafe fn done_check(s: &Sess) {
    if s.live.load(SeqCst) == 0 { s.over.store(1, SeqCst); futex_wake_real(s.over.as_ptr(), 2); }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: Start, arg: *mut libc::c_void) -> i32 {
    let c: Create = real(c"pthread_create", &R_CREATE);
    let Some((s, i)) = me() else { return c(t, a, f, arg) };
    let _q = Quiet::new();
    s.live.fetch_add(1, SeqCst);
    if s.free.load(SeqCst) {
        // no more control: still counted, so that the explorer waits for it
        let k = s.inn().th.len();
        let _ = k;
        s.live.fetch_sub(1, SeqCst);
        return c(t, a, f, arg);
    }
    let x = s.inn();
    let k = x.th.len();
    x.th.push(Th { gate: Arc::new(AtomicU32::new(0)), st: St::Run, id: 0, timed_out: false });
    Arc::increment_strong_count(s as *const Sess);
    let b = Box::into_raw(Box::new(Boot { s: Arc::from_raw(s as *const Sess), i: k, f, arg }));
    let r = c(t, a, boot, b as *mut libc::c_void);
    if r != 0 {
        drop(Box::from_raw(b));
        x.th[k].st = St::Done;
        s.live.fetch_sub(1, SeqCst);
        return r;
    }
    s.inn().th[k].id = *t;
    s.point(i);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, v: *mut *mut libc::c_void) -> i32 {
    let j: Join = real(c"pthread_join", &R_JOIN);
    if let Some((s, i)) = me() {
        let _q = Quiet::new();
        if !s.free.load(SeqCst) {
            // the latest thread with this id: ids are reused
            let k = s.inn().th.iter().rposition(|x| x.id == t);
            if let Some(k) = k {
                if s.inn().th[k].st != St::Done {
                    s.inn().th[i].st = St::Join(k);
                    s.next(i, false);
                }
            }
        }
    }
    j(t, v)
}

pub struct Run<T> { pub out: Option<T>, pub trace: Vec<(u16, u16)>, pub points: u64, pub switches: u64, pub threads: usize, pub diverged: bool, pub freed: bool, pub hung: bool, pub deadlock: bool }

/// One execution of `body` under the scheduler, following `prefix` and then always the first option.
/// `patience`: seconds an execution that got out of control may still take before it counts as hung.
pub fn run<T: Send + 'static>(prefix: &[u16], bound: usize, (heap, atomics): (bool, bool), patience: u64, body: impl FnOnce() -> T + Send + 'static) -> Run<T> {
    let s = Arc::new(Sess {
        x: UnsafeCell::new(In { th: Vec::with_capacity(16), trace: vec![], prefix: prefix.to_vec(), bound, preempt: 0, diverged: 0, points: 0, switches: 0, maxpoints: 1_000_000, heap, atomics, streak: 0 }),
        progress: 0.into(), free: false.into(), stuck: false.into(), over: 0.into(), live: 1.into(),
    });
    unsafe { s.inn().th.push(Th { gate: Arc::new(AtomicU32::new(1)), st: St::Run, id: 0, timed_out: false }); }
    let slot: Arc<Mutex<Option<T>>> = Arc::new(Mutex::new(None));
    let (s2, slot2) = (s.clone(), slot.clone());
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || unsafe {
        s2.wait_turn(0);
        ME.with(|m| m.set((Arc::as_ptr(&s2), 0)));
        let r = body();
        BUSY.with(|b| b.set(true));
        *slot2.lock().unwrap() = Some(r);
        BUSY.with(|b| b.set(false));
        finish(&s2, 0);
        // the runtime library's own clean-up of this thread takes locks the others may hold: only after them
        while s2.over.load(SeqCst) == 0 && !s2.free.load(SeqCst) {
            let ts = libc::timespec { tv_sec: 0, tv_nsec: 20_000_000 };
            syscall6(FUTEX, s2.over.as_ptr() as usize, 128, 0, &ts as *const _ as usize, 0, 0);
        }
    }).unwrap();
    let (mut last, mut at) = (u64::MAX, Instant::now());
    let mut deadlock = false;
    let mut hung = false;
    let mut freed_at: Option<Instant> = None;
    loop {
        if s.over.load(SeqCst) == 1 { break; }
        let ts = libc::timespec { tv_sec: 0, tv_nsec: 50_000_000 };
        unsafe { syscall6(FUTEX, s.over.as_ptr() as usize, 128, 0, &ts as *const _ as usize, 0, 0); }
        if s.over.load(SeqCst) == 1 { break; }
        let p = s.progress.load(SeqCst);
        if p != last { last = p; at = Instant::now(); }
        let stuck = s.stuck.load(SeqCst);
        let endless = unsafe { s.inn().points } > 4_000_000;
        if freed_at.is_none() && (stuck || endless || at.elapsed() > Duration::from_secs(3)) {
            // a modelled deadlock, or a thread that runs on without reaching a scheduling point:
            // let everything run freely and see whether it ends
            deadlock = stuck;
            if std::env::var_os("MC_DEBUG").is_some() { let x = unsafe { s.inn() }; eprintln!("freed: stuck={} points={} states={:?} trace={:?}", stuck, x.points, x.th.iter().map(|t| t.st).collect::<Vec<_>>(), x.trace.len()); }
            freed_at = Some(Instant::now());
            s.free.store(true, SeqCst);
            unsafe { for t in s.inn().th.iter() { t.gate.store(1, SeqCst); futex_wake_real(t.gate.as_ptr(), u32::MAX >> 1); } }
        }
        if let Some(f) = freed_at {
            // the body is what has to end; workers of a pool may legitimately idle on
            if slot.lock().unwrap().is_some() { break; }
            if f.elapsed() > Duration::from_secs(patience) { hung = true; break; }
        }
    }
    if !hung { let _ = h.join(); }
    let x = unsafe { s.inn() };
    let out = slot.lock().unwrap().take();
    Run { out, trace: x.trace.clone(), points: x.points, switches: x.switches, threads: x.th.len(), diverged: x.diverged > 0, freed: freed_at.is_some(), hung, deadlock: deadlock && hung }
}
