//! The library's own accesses to static memory as scheduling points. Those to memory it never writes while threads
//! run are left out; what is written is found out by running.
use ::std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::Relaxed};

/// Bits, one for each 8 bytes of static memory: known to be written / written in this execution.
static KNOWN: AtomicPtr<AtomicU64> = AtomicPtr::new(::std::ptr::null_mut());
static SEEN: AtomicPtr<AtomicU64> = AtomicPtr::new(::std::ptr::null_mut());

pub fn words() -> usize {
    let (a, b) = crate::world::statics();
    (b - a) / 512 + 2
}
/// Both point to `words()` words.
pub fn set(known: *mut AtomicU64, seen: *mut AtomicU64) {
    KNOWN.store(known, Relaxed);
    SEEN.store(seen, Relaxed);
}
/// Takes over what was newly seen; whether there was any.
pub fn learn() -> bool {
    let (k, s) = (KNOWN.load(Relaxed), SEEN.load(Relaxed));
    let mut new = false;
    for i in 0..words() {
        // SAFETY: within words().
        let (k, s) = unsafe { (&*k.add(i), &*s.add(i)) };
        let v = s.swap(0, Relaxed);
        new |= v & !k.load(Relaxed) != 0;
        k.fetch_or(v, Relaxed);
    }
    new
}
pub fn forget() {
    let k = KNOWN.load(Relaxed);
    for i in 0..words() {
        // SAFETY: within words().
        unsafe { (*k.add(i)).store(0, Relaxed) };
    }
}
pub fn known() -> u64 {
    let k = KNOWN.load(Relaxed);
    // SAFETY: within words().
    (0..words()).map(|i| unsafe { (*k.add(i)).load(Relaxed).count_ones() as u64 }).sum()
}
#[inline(always)]
fn access(a: usize, write: bool) {
    let (from, to) = crate::world::statics();
    if a.wrapping_sub(from) < to - from {
        known_or_seen(a, from, write)
    }
}
#[inline(never)]
fn known_or_seen(a: usize, from: usize, write: bool) {
    if crate::sched::me().is_none() || crate::sched::holds(a) {
        return;
    }
    let k = KNOWN.load(Relaxed);
    if k.is_null() {
        return;
    }
    let (w, b) = ((a - from) / 512, ((a - from) / 8) % 64);
    // SAFETY: within words().
    unsafe {
        if write {
            (*SEEN.load(Relaxed).add(w)).fetch_or(1 << b, Relaxed);
        }
        if (*k.add(w)).load(Relaxed) >> b & 1 == 1 {
            crate::sched::point(7);
        }
    }
}
macro_rules! hooks {
    ($($load:ident $store:ident)*) => {$(
        #[no_mangle]
        extern "C" fn $load(a: usize) {
            access(a, false)
        }
        #[no_mangle]
        extern "C" fn $store(a: usize) {
            access(a, true)
        }
    )*};
}
hooks!(__sanitizer_cov_load1 __sanitizer_cov_store1 __sanitizer_cov_load2 __sanitizer_cov_store2
       __sanitizer_cov_load4 __sanitizer_cov_store4 __sanitizer_cov_load8 __sanitizer_cov_store8
       __sanitizer_cov_load16 __sanitizer_cov_store16);

/// No randomness from the system, so that an execution can be repeated.
#[no_mangle]
extern "C" fn getrandom(buf: *mut u8, n: usize, _: u32) -> isize {
    // SAFETY: the caller's buffer.
    unsafe { ::std::ptr::write_bytes(buf, 0x5a, n) };
    n as isize
}
