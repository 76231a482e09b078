//! Stands in for `core` as `mcstd` does for `std`.
pub use ::core::*;
pub mod sync {
    pub use ::core::sync::*;
    pub mod atomic {
        pub use mcstd::sync::atomic::*;
    }
}
pub mod hint {
    pub use ::core::hint::*;
    pub use mcstd::hint::spin_loop;
}
