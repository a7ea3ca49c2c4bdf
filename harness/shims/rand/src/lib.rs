//! The rand crate with a thread generator whose draws the checks choose.
//!
//! Without a script every thread generator draws from a seeded deterministic stream (VERIF_SEED).
//! With a script the i-th draw of the calling thread returns the i-th scripted word; after its end a
//! fixed cycle of words follows (or, with an empty cycle, an endless fixed stream), so that rejection
//! loops of the code under test end.
pub use real::*;

use real::{rngs::StdRng as Std, RngCore as Core, SeedableRng as Seed};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Default)]
struct Script { words: Vec<u64>, tail: Vec<u64>, drawn: usize }

thread_local! {
    static SCRIPT: RefCell<Option<Script>> = const { RefCell::new(None) };
    static STREAM: RefCell<Option<Std>> = const { RefCell::new(None) };
}
static STREAMS: AtomicU64 = AtomicU64::new(0);

/// Runs `f` with the given draws on this thread; returns its result and the number of draws made.
pub fn with_script<T>(words: &[u64], tail: &[u64], f: impl FnOnce() -> T) -> (T, usize) {
    struct Reset;
    impl Drop for Reset { fn drop(&mut self) { SCRIPT.with(|s| *s.borrow_mut() = None); } }
    SCRIPT.with(|s| *s.borrow_mut() = Some(Script { words: words.to_vec(), tail: tail.to_vec(), drawn: 0 }));
    let _r = Reset;
    let v = f();
    let n = SCRIPT.with(|s| s.borrow().as_ref().map(|s| s.drawn).unwrap_or(0));
    (v, n)
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

fn word() -> u64 {
    let w = SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        s.as_mut().map(|s| {
            let i = s.drawn;
            s.drawn += 1;
            if i < s.words.len() { s.words[i] } else if s.tail.is_empty() { mix(i as u64) } else { s.tail[(i - s.words.len()) % s.tail.len()] }
        })
    });
    w.unwrap_or_else(|| STREAM.with(|s| {
        let mut s = s.borrow_mut();
        s.get_or_insert_with(|| {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1u64);
            Std::seed_from_u64(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ STREAMS.fetch_add(1, Relaxed))
        }).next_u64()
    }))
}

#[derive(Clone, Debug, Default)]
pub struct ThreadRng(());
pub fn thread_rng() -> ThreadRng { ThreadRng(()) }
impl Core for ThreadRng {
    fn next_u32(&mut self) -> u32 { (word() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { word() }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) { let w = word().to_le_bytes(); c.copy_from_slice(&w[..c.len()]); }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), real::Error> { self.fill_bytes(dest); Ok(()) }
}
impl real::CryptoRng for ThreadRng {}
pub fn random<T>() -> T where real::distributions::Standard: real::distributions::Distribution<T> { real::Rng::gen(&mut thread_rng()) }

pub mod rngs {
    pub use real::rngs::*;
    pub use super::ThreadRng;
    #[allow(hidden_glob_reexports)]
    pub use super::ThreadRng as OsRng;
}
pub mod prelude {
    pub use real::prelude::*;
    pub use super::{random, thread_rng, ThreadRng};
}
