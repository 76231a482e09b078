//! Stands in for `std` when the library is built for exploring its thread interleavings: everything of the real
//! `std`, with the synchronisation primitives replaced by ones that hand every decision to the scheduler in `sched`.
pub use ::std::*;

pub mod accesses;
pub mod sched;
mod shim;
pub mod world;

pub mod sync {
    pub use crate::shim::{
        Barrier, BarrierWaitResult, Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, OnceState, RwLock, RwLockReadGuard,
        RwLockWriteGuard, WaitTimeoutResult,
    };
    #[allow(deprecated)]
    pub use crate::shim::ONCE_INIT;
    pub use ::std::sync::*;
    pub mod atomic {
        pub use crate::shim::atomic::*;
        pub use ::std::sync::atomic::Ordering;
    }
}
pub mod thread {
    pub use crate::shim::{sleep, yield_now};
    pub use ::std::thread::*;
}
pub mod hint {
    pub use crate::shim::spin_loop;
    pub use ::std::hint::*;
}
