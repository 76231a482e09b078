//! The scheduler. Controlled threads have stacks and thread-local memory of their own within one real thread; at
//! every scheduling point the next one to run is taken from a given list of choices, and past its end the running
//! thread goes on. What could have been chosen is recorded, so that a search over the lists of choices visits every
//! interleaving.
use crate::world;

/// Consecutive points after which a thread that does not come to an end lets another one go on (spinning).
const SPIN: u32 = 3000;
/// Points after which an execution is given up.
const ENDLESS: usize = 400_000;

#[derive(Clone, Copy, PartialEq)]
enum State {
    Ready,
    Blocked(usize),
    Done,
}
/// A decision with more than one possible outcome.
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(C)]
pub struct Step {
    /// Threads that could run.
    pub enabled: u8,
    /// The thread at the point, which could go on (255: it could not).
    pub me: u8,
    pub chosen: u8,
    pub kind: u8,
}
struct Sched {
    state: Vec<State>,
    /// gave way at its last point
    yielded: Vec<bool>,
    cur: usize,
    prefix: Vec<u8>,
    steps: Vec<Step>,
    points: usize,
    run: u32,
    /// why no further thread can run
    stuck: Option<&'static str>,
    diverged: bool,
    kinds: [u32; KINDS.len()],
    within: bool,
    tried: bool,
    bodies: Vec<Option<Box<dyn FnOnce()>>>,
    /// positions on the stacks; the last is that of the caller of `run`
    sp: Vec<usize>,
    tls: Vec<Vec<u8>>,
    /// memory protected by what a thread holds
    held: Vec<Vec<(usize, usize)>>,
}
pub const KINDS: [&str; 9] = ["end", "mutex", "rwlock", "once", "atomic", "condvar", "yield", "memory", "start"];

static mut SCHED: Option<Sched> = None;

#[inline(never)]
fn sched() -> Option<&'static mut Sched> {
    // SAFETY: one real thread; no reference is kept over a switch or a call that takes another.
    unsafe { (*(&raw mut SCHED)).as_mut() }
}
/// The controlled thread running this.
#[inline(never)]
pub fn me() -> Option<usize> {
    sched().filter(|s| s.cur < s.bodies.len()).map(|s| s.cur)
}
impl Sched {
    fn pick(&mut self, kind: u8) {
        let me = self.cur;
        let n = self.bodies.len();
        let mask = |f: &dyn Fn(usize) -> bool| (0..n).filter(|i| f(*i)).fold(0u8, |a, i| a | 1 << i);
        let ready = mask(&|i| self.state[i] == State::Ready);
        if ready == 0 {
            if self.state.iter().any(|s| *s != State::Done) {
                self.stuck = Some("deadlock");
            }
            return;
        }
        self.points += 1;
        self.kinds[kind as usize] += 1;
        if self.points > ENDLESS {
            self.stuck = Some("livelock");
            return;
        }
        self.run += 1;
        if self.run > SPIN {
            self.yielded[me] = true;
        }
        let can = self.state[me] == State::Ready && !self.yielded[me];
        // those that gave way wait until every other one did
        let mut eager = mask(&|i| ready >> i & 1 == 1 && !self.yielded[i]);
        if eager == 0 {
            let others = if me < n { ready & !(1 << me) } else { ready };
            eager = if others == 0 { ready } else { others };
            for i in (0..n).filter(|i| eager >> i & 1 == 1) {
                self.yielded[i] = false;
            }
        }
        let mut next = if can { me } else { eager.trailing_zeros() as usize };
        if eager.count_ones() > 1 {
            if let Some(p) = self.prefix.get(self.steps.len()) {
                if *p < 8 && eager >> *p & 1 == 1 {
                    next = *p as usize;
                } else {
                    self.diverged = true;
                }
            }
            self.steps.push(Step { enabled: eager, me: if can { me as u8 } else { 255 }, chosen: next as u8, kind });
        }
        if next != me {
            self.run = 0;
            self.yielded[next] = false;
        }
        self.cur = next;
    }
}
/// Goes on with the thread picked, from thread `me` (or the caller of `run`).
fn go(me: usize) {
    let Some(s) = sched() else { return };
    let main = s.bodies.len();
    if s.stuck.is_some() || s.state.iter().all(|s| *s == State::Done) {
        s.cur = main;
    }
    let to = s.cur;
    if to == me {
        return;
    }
    let into = ::std::mem::take(&mut s.tls[to]);
    world::switch_tls(&mut s.tls[me], &into);
    s.tls[to] = into;
    let (save, to) = (&raw mut s.sp[me], s.sp[to]);
    // SAFETY: a stack set up by `world::stack`, or left by this function.
    unsafe { world::mc_switch(save, to) }
}
extern "C" fn boot() -> ! {
    let me = me().expect("thread");
    let b = sched().and_then(|s| s.bodies[me].take());
    if ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| b.expect("body")())).is_err() {
        ::std::process::abort();
    }
    if let Some(s) = sched() {
        s.state[me] = State::Done;
        s.pick(0);
    }
    go(me);
    ::std::process::abort()
}
/// A point at which another thread may be scheduled.
#[inline(never)]
pub fn point(kind: u8) {
    let Some(me) = me() else { return };
    if let Some(s) = sched() {
        s.pick(kind);
    }
    go(me)
}
/// A point at which another thread may find a lock held, where that can make a difference.
#[inline(never)]
pub fn within(kind: u8) {
    if sched().is_some_and(|s| s.within) {
        point(kind);
    }
}
/// Notes that a thread looks whether a lock is held.
#[inline(never)]
pub fn tries() {
    if let Some(s) = sched() {
        s.tried = true;
    }
}
/// As `point`, asking for another thread to go on.
#[inline(never)]
pub fn give_way() {
    let Some(me) = me() else { return };
    if let Some(s) = sched() {
        s.yielded[me] = true;
        s.pick(6);
    }
    go(me)
}
/// Waits until `wake(on)`.
#[inline(never)]
pub fn block(on: usize, kind: u8) {
    let Some(me) = me() else { panic!("uncontrolled thread blocks for ever") };
    if let Some(s) = sched() {
        s.state[me] = State::Blocked(on);
        s.pick(kind);
    }
    go(me)
}
/// Lets those waiting on this go on; `all` of them or the first.
#[inline(never)]
pub fn wake(on: usize, all: bool) {
    if me().is_none() {
        return;
    }
    if let Some(s) = sched() {
        for t in s.state.iter_mut().filter(|t| **t == State::Blocked(on)) {
            *t = State::Ready;
            if !all {
                break;
            }
        }
    }
}
#[inline(never)]
pub fn hold(at: usize, size: usize) {
    if let (Some(me), Some(s)) = (me(), sched()) {
        s.held[me].push((at, at + size));
    }
}
#[inline(never)]
pub fn unhold(at: usize) {
    if let (Some(me), Some(s)) = (me(), sched()) {
        let h = &mut s.held[me];
        if let Some(i) = h.iter().rposition(|r| r.0 == at) {
            h.remove(i);
        }
    }
}
/// Whether this thread holds the lock around an address.
#[inline(never)]
pub fn holds(a: usize) -> bool {
    match (me(), sched()) {
        (Some(me), Some(s)) => s.held[me].iter().any(|r| r.0 <= a && a < r.1),
        _ => true,
    }
}

pub struct Run {
    pub steps: Vec<Step>,
    pub points: usize,
    pub stuck: Option<&'static str>,
    pub diverged: bool,
    /// a thread looked whether a lock was held
    pub tried: bool,
    /// (points of each kind)
    pub kinds: [u32; KINDS.len()],
}
/// Runs the bodies as controlled threads under a list of choices (with a point `within` what locks guard); when they get stuck their threads are left behind.
#[inline(never)]
pub fn run(prefix: Vec<u8>, bodies: Vec<Box<dyn FnOnce()>>, within: bool) -> Run {
    let n = bodies.len();
    assert!(n <= world::STACKS, "too many threads");
    let mut state = vec![State::Ready; n];
    state.push(State::Done);
    // SAFETY: one real thread.
    unsafe {
        SCHED = Some(Sched {
            state,
            yielded: vec![false; n + 1],
            cur: n,
            prefix,
            steps: Vec::with_capacity(256),
            points: 0,
            run: 0,
            stuck: None,
            diverged: false,
            kinds: [0; KINDS.len()],
            within,
            tried: false,
            bodies: bodies.into_iter().map(Some).collect(),
            sp: (0..n).map(|i| world::stack(i, boot)).chain([0]).collect(),
            tls: (0..n + 1).map(|_| world::fresh_tls()).collect(),
            held: (0..n + 1).map(|_| Vec::with_capacity(8)).collect(),
        });
    }
    if let Some(s) = sched() {
        // the first to run
        s.pick(8);
    }
    go(n);
    // SAFETY: one real thread.
    let s = unsafe { (*(&raw mut SCHED)).take() }.expect("scheduler");
    let r = Run { steps: s.steps.clone(), points: s.points, stuck: s.stuck, diverged: s.diverged, tried: s.tried, kinds: s.kinds };
    // what the threads hold stays with them
    ::std::mem::forget(s);
    r
}
