//! The synchronisation primitives of `std::sync`, deciding everything through the scheduler. One controlled thread
//! runs at a time, so their own state needs no more than relaxed atomics.
use crate::sched::{block, give_way, hold, point, tries, unhold, wake, within};
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::panic::{RefUnwindSafe, UnwindSafe};
use ::std::sync::atomic::{AtomicI32, AtomicU32, Ordering::Relaxed};
use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use ::std::thread::panicking;
use ::std::time::Duration;

const MUTEX: u8 = 1;
const RWLOCK: u8 = 2;
const ONCE: u8 = 3;
const ATOMIC: u8 = 4;
const CONDVAR: u8 = 5;

pub fn yield_now() {
    give_way()
}
pub fn spin_loop() {
    give_way()
}
pub fn sleep(_: Duration) {
    give_way()
}
/// State of a primitive. Read and written out of line, as the library's own accesses to memory are scheduling points.
struct State(AtomicI32);
impl State {
    const fn new(v: i32) -> Self {
        State(AtomicI32::new(v))
    }
    #[inline(never)]
    fn get(&self) -> i32 {
        self.0.load(Relaxed)
    }
    #[inline(never)]
    fn set(&self, v: i32) {
        self.0.store(v, Relaxed)
    }
    fn is(&self) -> bool {
        self.get() != 0
    }
}
fn at<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const u8 as usize
}
fn outcome<G>(poisoned: bool, g: G) -> LockResult<G> {
    if poisoned {
        Err(PoisonError::new(g))
    } else {
        Ok(g)
    }
}

// ---------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
    locked: State,
    poisoned: State,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> UnwindSafe for Mutex<T> {}
impl<T: ?Sized> RefUnwindSafe for Mutex<T> {}
#[must_use]
pub struct MutexGuard<'a, T: ?Sized> {
    of: &'a Mutex<T>,
    panicking: bool,
    _not_send: ::std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { locked: State::new(0), poisoned: State::new(0), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.is();
        outcome(p, self.data.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        self.locked.set(1);
        hold(at(self), size_of_val(self));
        within(MUTEX);
        let g = MutexGuard { of: self, panicking: panicking(), _not_send: ::std::marker::PhantomData };
        outcome(self.poisoned.is(), g)
    }
    fn acquire(&self) {
        while self.locked.is() {
            block(at(self), MUTEX);
        }
    }
    fn release(&self) {
        self.locked.set(0);
        unhold(at(self));
        wake(at(self), true);
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        point(MUTEX);
        self.acquire();
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        tries();
        point(MUTEX);
        if self.locked.is() {
            return Err(TryLockError::WouldBlock);
        }
        self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        point(MUTEX);
        self.poisoned.is()
    }
    pub fn clear_poison(&self) {
        point(MUTEX);
        self.poisoned.set(0)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.is();
        outcome(p, self.data.get_mut())
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        // SAFETY: the lock is held.
        unsafe { &*self.of.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        // SAFETY: the lock is held.
        unsafe { &mut *self.of.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && panicking() {
            self.of.poisoned.set(1);
        }
        self.of.release();
        point(MUTEX);
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}

// ---------------------------------------------------------------- RwLock
pub struct RwLock<T: ?Sized> {
    /// readers, or -1 for a writer
    state: State,
    poisoned: State,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> UnwindSafe for RwLock<T> {}
impl<T: ?Sized> RefUnwindSafe for RwLock<T> {}
#[must_use]
pub struct RwLockReadGuard<'a, T: ?Sized> {
    of: &'a RwLock<T>,
    _not_send: ::std::marker::PhantomData<*const ()>,
}
#[must_use]
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    of: &'a RwLock<T>,
    panicking: bool,
    _not_send: ::std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { state: State::new(0), poisoned: State::new(0), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.is();
        outcome(p, self.data.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    fn reader(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.state.set(self.state.get() + 1);
        hold(at(self), size_of_val(self));
        within(RWLOCK);
        outcome(self.poisoned.is(), RwLockReadGuard { of: self, _not_send: ::std::marker::PhantomData })
    }
    fn writer(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.state.set(-1);
        hold(at(self), size_of_val(self));
        within(RWLOCK);
        let g = RwLockWriteGuard { of: self, panicking: panicking(), _not_send: ::std::marker::PhantomData };
        outcome(self.poisoned.is(), g)
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        point(RWLOCK);
        while self.state.get() < 0 {
            block(at(self), RWLOCK);
        }
        self.reader()
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        point(RWLOCK);
        while self.state.get() != 0 {
            block(at(self), RWLOCK);
        }
        self.writer()
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        tries();
        point(RWLOCK);
        if self.state.get() < 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.reader().map_err(TryLockError::Poisoned)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        tries();
        point(RWLOCK);
        if self.state.get() != 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.writer().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        point(RWLOCK);
        self.poisoned.is()
    }
    pub fn clear_poison(&self) {
        point(RWLOCK);
        self.poisoned.set(0)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.is();
        outcome(p, self.data.get_mut())
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        // SAFETY: the lock is held for reading.
        unsafe { &*self.of.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        // SAFETY: the lock is held for writing.
        unsafe { &*self.of.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        // SAFETY: the lock is held for writing.
        unsafe { &mut *self.of.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.of.state.set(self.of.state.get() - 1);
        unhold(at(self.of));
        wake(at(self.of), true);
        point(RWLOCK);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && panicking() {
            self.of.poisoned.set(1);
        }
        self.of.state.set(0);
        unhold(at(self.of));
        wake(at(self.of), true);
        point(RWLOCK);
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}

// ---------------------------------------------------------------- Once, OnceLock, LazyLock
const FRESH: i32 = 0;
const RUNNING: i32 = 1;
const POISONED: i32 = 2;
const COMPLETE: i32 = 3;
pub struct Once(State);
pub struct OnceState {
    poisoned: bool,
}
#[deprecated]
pub const ONCE_INIT: Once = Once::new();
impl OnceState {
    pub fn is_poisoned(&self) -> bool {
        self.poisoned
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once { .. }")
    }
}
impl fmt::Debug for OnceState {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("OnceState").field("poisoned", &self.poisoned).finish()
    }
}
struct Finish<'a>(&'a Once, i32);
impl Drop for Finish<'_> {
    fn drop(&mut self) {
        self.0 .0.set(self.1);
        wake(at(self.0), true);
    }
}
impl Once {
    pub const fn new() -> Self {
        Once(State::new(FRESH))
    }
    pub fn is_completed(&self) -> bool {
        if self.0.get() == COMPLETE {
            return true;
        }
        point(ONCE);
        self.0.get() == COMPLETE
    }
    fn call<F: FnOnce(&OnceState)>(&self, force: bool, f: F) {
        if self.0.get() == COMPLETE {
            return; // never changes again
        }
        point(ONCE);
        loop {
            match self.0.get() {
                COMPLETE => return,
                RUNNING => block(at(self), ONCE),
                POISONED if !force => panic!("Once instance has previously been poisoned"),
                s => {
                    self.0.set(RUNNING);
                    let mut fin = Finish(self, POISONED);
                    point(ONCE);
                    f(&OnceState { poisoned: s == POISONED });
                    fin.1 = COMPLETE;
                    drop(fin);
                    point(ONCE);
                    return;
                }
            }
        }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.call(false, |_| f())
    }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        self.call(true, f)
    }
    pub fn wait(&self) {
        while self.0.get() != COMPLETE {
            give_way()
        }
    }
}
pub struct OnceLock<T> {
    once: Once,
    value: UnsafeCell<Option<T>>,
}
unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
unsafe impl<T: Send> Send for OnceLock<T> {}
impl<T: RefUnwindSafe + UnwindSafe> RefUnwindSafe for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { once: Once::new(), value: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        if self.once.is_completed() {
            // SAFETY: complete, written no more.
            unsafe { (*self.value.get()).as_ref() }
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.value.get_mut().as_mut()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut v = Some(v);
        // SAFETY: only one closure of the `Once` runs.
        self.once.call_once_force(|_| unsafe { *self.value.get() = v.take() });
        v.map_or(Ok(()), Err)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        self.once.call_once_force(|_| {
            let v = f();
            // SAFETY: only one closure of the `Once` runs.
            unsafe { *self.value.get() = Some(v) }
        });
        // SAFETY: complete, written no more.
        unsafe { (*self.value.get()).as_ref().expect("initialised") }
    }
    pub fn into_inner(self) -> Option<T> {
        self.value.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.once = Once::new();
        self.value.get_mut().take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        let l = Self::new();
        let _ = l.set(t);
        l
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("OnceLock").field(&self.get()).finish()
    }
}
pub struct LazyLock<T, F = fn() -> T> {
    once: Once,
    init: UnsafeCell<Option<F>>,
    value: UnsafeCell<Option<T>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T: RefUnwindSafe + UnwindSafe, F: UnwindSafe> RefUnwindSafe for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { once: Once::new(), init: UnsafeCell::new(Some(f)), value: UnsafeCell::new(None) }
    }
    pub fn force(this: &LazyLock<T, F>) -> &T {
        this.once.call_once(|| {
            // SAFETY: only one closure of the `Once` runs.
            let f = unsafe { (*this.init.get()).take() }.expect("initialiser");
            let v = f();
            unsafe { *this.value.get() = Some(v) }
        });
        // SAFETY: complete, written no more.
        unsafe { (*this.value.get()).as_ref().expect("initialised") }
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}

// ---------------------------------------------------------------- Condvar, Barrier
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
#[derive(Default)]
pub struct Condvar(AtomicU32);
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar(AtomicU32::new(0))
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.of;
        ::std::mem::forget(g);
        m.release();
        block(at(self), CONDVAR);
        m.acquire();
        m.guard()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        // time passes as others run
        let m = g.of;
        ::std::mem::forget(g);
        let n = self.0.load(Relaxed);
        m.release();
        give_way();
        m.acquire();
        let r = WaitTimeoutResult(self.0.load(Relaxed) == n);
        match m.guard() {
            Ok(g) => Ok((g, r)),
            Err(e) => Err(PoisonError::new((e.into_inner(), r))),
        }
    }
    pub fn notify_one(&self) {
        self.0.fetch_add(1, Relaxed);
        wake(at(self), false);
        point(CONDVAR);
    }
    pub fn notify_all(&self) {
        self.0.fetch_add(1, Relaxed);
        wake(at(self), true);
        point(CONDVAR);
    }
}
pub struct Barrier {
    n: usize,
    state: Mutex<(usize, usize)>,
    cv: Condvar,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { n, state: Mutex::new((0, 0)), cv: Condvar::new() }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.state.lock().unwrap();
        let round = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == round {
                g = self.cv.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            *g = (0, round + 1);
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}

// ---------------------------------------------------------------- atomics
pub mod atomic {
    use super::{fmt, point, ATOMIC};
    use ::std::sync::atomic as real;
    pub use ::std::sync::atomic::Ordering;
    use ::std::sync::atomic::Ordering::SeqCst;

    #[inline(never)]
    pub fn fence(_: Ordering) {
        point(ATOMIC)
    }
    #[inline(never)]
    pub fn compiler_fence(_: Ordering) {}
    #[inline(never)]
    pub fn spin_loop_hint() {
        super::give_way()
    }
    macro_rules! common {
        ($name:ident, $t:ty) => {
            #[repr(transparent)]
            pub struct $name(real::$name);
            impl $name {
                pub const fn new(t: $t) -> Self {
                    $name(real::$name::new(t))
                }
                #[inline(never)]
                pub fn load(&self, _: Ordering) -> $t {
                    point(ATOMIC);
                    self.0.load(SeqCst)
                }
                #[inline(never)]
                pub fn store(&self, t: $t, _: Ordering) {
                    point(ATOMIC);
                    self.0.store(t, SeqCst)
                }
                #[inline(never)]
                pub fn swap(&self, t: $t, _: Ordering) -> $t {
                    point(ATOMIC);
                    self.0.swap(t, SeqCst)
                }
                #[inline(never)]
                pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    point(ATOMIC);
                    self.0.compare_exchange(a, b, SeqCst, SeqCst)
                }
                #[inline(never)]
                pub fn compare_exchange_weak(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    point(ATOMIC);
                    self.0.compare_exchange(a, b, SeqCst, SeqCst)
                }
                #[inline(never)]
                pub fn compare_and_swap(&self, a: $t, b: $t, _: Ordering) -> $t {
                    point(ATOMIC);
                    self.0.compare_exchange(a, b, SeqCst, SeqCst).unwrap_or_else(|e| e)
                }
                #[inline(never)]
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                    let mut now = self.load(SeqCst);
                    while let Some(next) = f(now) {
                        match self.compare_exchange(now, next, SeqCst, SeqCst) {
                            Ok(old) => return Ok(old),
                            Err(other) => now = other,
                        }
                    }
                    Err(now)
                }
                #[inline(never)]
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                #[inline(never)]
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                pub const fn as_ptr(&self) -> *mut $t {
                    self.0.as_ptr()
                }
            }
            impl From<$t> for $name {
                fn from(t: $t) -> Self {
                    Self::new(t)
                }
            }
            impl fmt::Debug for $name {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    macro_rules! rmw {
        ($t:ty, $($f:ident)*) => {
            $(#[inline(never)]
            pub fn $f(&self, t: $t, _: Ordering) -> $t {
                point(ATOMIC);
                self.0.$f(t, SeqCst)
            })*
        };
    }
    macro_rules! int {
        ($($name:ident $t:ty),*) => {
            $(common!($name, $t);
            impl $name {
                rmw!($t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
            }
            impl Default for $name {
                fn default() -> Self {
                    Self::new(0)
                }
            })*
        };
    }
    int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
         AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    common!(AtomicBool, bool);
    impl AtomicBool {
        rmw!(bool, fetch_and fetch_nand fetch_or fetch_xor);
        #[inline(never)]
        pub fn fetch_not(&self, _: Ordering) -> bool {
            point(ATOMIC);
            self.0.fetch_xor(true, SeqCst)
        }
    }
    impl Default for AtomicBool {
        fn default() -> Self {
            Self::new(false)
        }
    }
    #[repr(transparent)]
    pub struct AtomicPtr<T>(real::AtomicPtr<T>);
    impl<T> AtomicPtr<T> {
        pub const fn new(t: *mut T) -> Self {
            AtomicPtr(real::AtomicPtr::new(t))
        }
        #[inline(never)]
        pub fn load(&self, _: Ordering) -> *mut T {
            point(ATOMIC);
            self.0.load(SeqCst)
        }
        #[inline(never)]
        pub fn store(&self, t: *mut T, _: Ordering) {
            point(ATOMIC);
            self.0.store(t, SeqCst)
        }
        #[inline(never)]
        pub fn swap(&self, t: *mut T, _: Ordering) -> *mut T {
            point(ATOMIC);
            self.0.swap(t, SeqCst)
        }
        #[inline(never)]
        pub fn compare_exchange(&self, a: *mut T, b: *mut T, _: Ordering, _: Ordering) -> Result<*mut T, *mut T> {
            point(ATOMIC);
            self.0.compare_exchange(a, b, SeqCst, SeqCst)
        }
        #[inline(never)]
        pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, _: Ordering, _: Ordering) -> Result<*mut T, *mut T> {
            point(ATOMIC);
            self.0.compare_exchange(a, b, SeqCst, SeqCst)
        }
        #[inline(never)]
        pub fn fetch_update<F: FnMut(*mut T) -> Option<*mut T>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<*mut T, *mut T> {
            let mut now = self.load(SeqCst);
            while let Some(next) = f(now) {
                match self.compare_exchange(now, next, SeqCst, SeqCst) {
                    Ok(old) => return Ok(old),
                    Err(other) => now = other,
                }
            }
            Err(now)
        }
        #[inline(never)]
        pub fn get_mut(&mut self) -> &mut *mut T {
            self.0.get_mut()
        }
        #[inline(never)]
        pub fn into_inner(self) -> *mut T {
            self.0.into_inner()
        }
    }
    impl<T> Default for AtomicPtr<T> {
        fn default() -> Self {
            Self::new(::std::ptr::null_mut())
        }
    }
    impl<T> fmt::Debug for AtomicPtr<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
}
