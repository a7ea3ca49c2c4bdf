//! Interposed libc entry points: a controlled thread scheduler and file I/O fault injection.
pub mod atomics;
pub mod io;
pub mod raw;
pub mod sched;
