//! The macro of the crate `lazy_static`, over the controlled `Once`.

#[doc(hidden)]
pub mod lazy {
    use std::cell::UnsafeCell;
    use std::mem::MaybeUninit;
    use std::sync::Once;
    pub struct Lazy<T: Sync>(UnsafeCell<MaybeUninit<T>>, Once);
    impl<T: Sync> Lazy<T> {
        pub const INIT: Self = Lazy(UnsafeCell::new(MaybeUninit::uninit()), Once::new());
        pub fn get<F: FnOnce() -> T>(&'static self, f: F) -> &'static T {
            // SAFETY: written once, before any read, under the `Once`.
            self.1.call_once(|| unsafe { *self.0.get() = MaybeUninit::new(f()) });
            unsafe { (*self.0.get()).assume_init_ref() }
        }
    }
    unsafe impl<T: Sync> Sync for Lazy<T> {}
}
#[doc(hidden)]
pub use std::ops::Deref as __Deref;

pub trait LazyStatic {
    #[doc(hidden)]
    fn initialize(lazy: &Self);
}
pub fn initialize<T: LazyStatic>(lazy: &T) {
    LazyStatic::initialize(lazy);
}

#[macro_export]
macro_rules! lazy_static {
    ($(#[$a:meta])* static ref $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        $crate::lazy_static!(@make [$(#[$a])*] [] $n, $t, $e);
        $crate::lazy_static!($($rest)*);
    };
    ($(#[$a:meta])* pub static ref $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        $crate::lazy_static!(@make [$(#[$a])*] [pub] $n, $t, $e);
        $crate::lazy_static!($($rest)*);
    };
    ($(#[$a:meta])* pub ($($v:tt)+) static ref $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        $crate::lazy_static!(@make [$(#[$a])*] [pub ($($v)+)] $n, $t, $e);
        $crate::lazy_static!($($rest)*);
    };
    (@make [$($a:tt)*] [$($v:tt)*] $n:ident, $t:ty, $e:expr) => {
        #[allow(missing_copy_implementations, non_camel_case_types, dead_code)]
        $($a)*
        $($v)* struct $n { __private_field: () }
        #[doc(hidden)]
        #[allow(non_upper_case_globals)]
        $($v)* static $n: $n = $n { __private_field: () };
        impl $crate::__Deref for $n {
            type Target = $t;
            fn deref(&self) -> &$t {
                static LAZY: $crate::lazy::Lazy<$t> = $crate::lazy::Lazy::INIT;
                LAZY.get(|| $e)
            }
        }
        impl $crate::LazyStatic for $n {
            fn initialize(lazy: &Self) {
                let _ = &**lazy;
            }
        }
    };
    () => ()
}
