//! What code compiled with the thread sanitizer's instrumentation calls for its atomic operations: a scheduling
//! point of the controlled scheduler, then the operation itself (sequentially consistent).
use super::sched::atomic_point as p;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

macro_rules! ops {
    ($t:ty, $a:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident $strong:ident $weak:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $load(a: *const $t, _: i32) -> $t { p(a as usize); (*(a as *const $a)).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(a: *mut $t, v: $t, _: i32) { p(a as usize); (*(a as *const $a)).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(a: *mut $t, v: $t, _: i32) -> $t { p(a as usize); (*(a as *const $a)).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(a: *mut $t, v: $t, _: i32) -> $t { p(a as usize); (*(a as *const $a)).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(a: *mut $t, v: $t, _: i32) -> $t { p(a as usize); (*(a as *const $a)).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(a: *mut $t, v: $t, _: i32) -> $t { p(a as usize); (*(a as *const $a)).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(a: *mut $t, v: $t, _: i32) -> $t { p(a as usize); (*(a as *const $a)).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(a: *mut $t, v: $t, _: i32) -> $t { p(a as usize); (*(a as *const $a)).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(a: *mut $t, v: $t, _: i32) -> $t { p(a as usize); (*(a as *const $a)).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cas(a: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t { p(a as usize); match (*(a as *const $a)).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x } }
        #[no_mangle] pub unsafe extern "C" fn $strong(a: *mut $t, c: *mut $t, v: $t, _: i32, _: i32) -> i32 { p(a as usize); match (*(a as *const $a)).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
        #[no_mangle] pub unsafe extern "C" fn $weak(a: *mut $t, c: *mut $t, v: $t, _: i32, _: i32) -> i32 { p(a as usize); match (*(a as *const $a)).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
    };
}
ops!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak);
ops!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak);
ops!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak);
ops!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak);

#[no_mangle] pub extern "C" fn __tsan_atomic_thread_fence(_: i32) { std::sync::atomic::fence(SeqCst) }
#[no_mangle] pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
#[no_mangle] pub extern "C" fn __tsan_init() {}
#[no_mangle] pub extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle] pub extern "C" fn __tsan_func_exit() {}
macro_rules! nop { ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(_: usize) {})* } }
nop!(__tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16 __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
    __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16 __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
    __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8 __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8 __tsan_vptr_read);
#[no_mangle] pub extern "C" fn __tsan_vptr_update(_: usize, _: usize) {}
#[no_mangle] pub extern "C" fn __tsan_read_range(_: usize, _: usize) {}
#[no_mangle] pub extern "C" fn __tsan_write_range(_: usize, _: usize) {}
#[no_mangle] pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { libc::memcpy(d as _, s as _, n) as _ }
#[no_mangle] pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { libc::memmove(d as _, s as _, n) as _ }
#[no_mangle] pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 { libc::memset(d as _, c, n) as _ }
