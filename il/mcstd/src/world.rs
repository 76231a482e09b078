//! What an execution starts from and can be put back to: the static memory of the program, the thread-local memory
//! of its one real thread, and a heap of its own. So executions follow each other within one process, each as if in
//! a fresh one.
use ::std::alloc::{GlobalAlloc, Layout, System};
use ::std::ptr::{copy_nonoverlapping, null_mut, write_bytes};

extern "C" {
    static mut __data_start: u8;
    static mut _end: u8;
}
/// The addresses of static memory.
#[inline(always)]
pub fn statics() -> (usize, usize) {
    // SAFETY: only their addresses are used.
    (&raw const __data_start as usize, &raw const _end as usize)
}
struct Saved {
    tls: *mut u8,
    tls_len: usize,
    tls_copy: *mut u8,
    copy: *mut u8,
    arena: *mut Arena,
}
static mut SAVED: Saved = Saved { tls: null_mut(), tls_len: 0, tls_copy: null_mut(), copy: null_mut(), arena: null_mut() };
/// Whether allocations are those of an execution.
static mut INSIDE: bool = false;

const SIZE: usize = 256 << 20;
const SMALL: usize = 64;
const LARGE: usize = 40;
struct Arena {
    next: usize,
    end: usize,
    small: [usize; SMALL],
    large: [usize; LARGE],
}
/// The allocator of the program: that of the system outside executions, and inside a heap that starts empty and hands
/// out again first what was freed last.
pub struct Heap;
// SAFETY: blocks are disjoint; the process has one thread.
unsafe impl GlobalAlloc for Heap {
    #[inline(never)]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !INSIDE {
            return System.alloc(l);
        }
        let a = &mut *SAVED.arena;
        if l.align() > 16 {
            return a.take(l.size() + l.align()).map_or(null_mut(), |p| ((p + l.align() - 1) & !(l.align() - 1)) as *mut u8);
        }
        let (list, size) = a.class(l.size());
        if *list != 0 {
            let p = *list;
            *list = *(p as *const usize);
            return p as *mut u8;
        }
        a.take(size).map_or(null_mut(), |p| p as *mut u8)
    }
    #[inline(never)]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let from = SAVED.arena as usize;
        if from == 0 || (p as usize) < from || (p as usize) >= from + SIZE {
            return System.dealloc(p, l);
        }
        if l.align() > 16 {
            return;
        }
        let (list, size) = (*SAVED.arena).class(l.size());
        write_bytes(p, 0xdd, size.min(256));
        *(p as *mut usize) = *list;
        *list = p as usize;
    }
}
impl Arena {
    fn class(&mut self, n: usize) -> (&mut usize, usize) {
        let c = n.max(1).div_ceil(16);
        if c < SMALL {
            (&mut self.small[c], c * 16)
        } else {
            let size = n.next_power_of_two();
            (&mut self.large[size.trailing_zeros() as usize], size)
        }
    }
    fn take(&mut self, n: usize) -> Option<usize> {
        let p = self.next;
        let to = (p + n + 15) & !15;
        (to <= self.end).then(|| {
            self.next = to;
            p
        })
    }
}
#[inline(never)]
fn map(n: usize, at: usize) -> *mut u8 {
    // SAFETY: a fresh anonymous mapping.
    let p = unsafe {
        libc::mmap(at as *mut _, n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0)
    };
    assert!(p != libc::MAP_FAILED, "mmap");
    p as *mut u8
}
/// Memory that stays as it is between executions.
#[inline(never)]
pub fn lasting(n: usize) -> *mut u8 {
    map(n, 0)
}
unsafe extern "C" fn find_tls(i: *mut libc::dl_phdr_info, _: usize, to: *mut libc::c_void) -> i32 {
    // the first is the program itself
    let i = &*i;
    let to = &mut *(to as *mut (*mut u8, usize));
    for k in 0..i.dlpi_phnum as usize {
        let h = &*i.dlpi_phdr.add(k);
        if h.p_type == libc::PT_TLS {
            *to = (i.dlpi_tls_data as *mut u8, h.p_memsz as usize);
        }
    }
    1
}
/// Remembers the present state as that from which executions start.
#[inline(never)]
pub fn save() {
    let (a, b) = statics();
    let mut tls: (*mut u8, usize) = (null_mut(), 0);
    // SAFETY: the regions copied are mapped and the copies as large.
    unsafe {
        libc::dl_iterate_phdr(Some(find_tls), &raw mut tls as *mut _);
        SAVED.tls = tls.0;
        SAVED.tls_len = if tls.0.is_null() { 0 } else { tls.1 };
        SAVED.tls_copy = map(tls.1.max(1), 0);
        SAVED.copy = map(b - a, 0);
        SAVED.arena = map(SIZE, 0x2000_0000_0000) as *mut Arena;
        (*SAVED.arena).end = SAVED.arena as usize + SIZE;
        copy_nonoverlapping(SAVED.tls, SAVED.tls_copy, SAVED.tls_len);
        copy_nonoverlapping(a as *const u8, SAVED.copy, b - a);
    }
}
/// Puts back the saved state and enters an execution.
#[inline(never)]
pub fn enter() {
    let (a, b) = statics();
    // SAFETY: as in save; the saved static memory names the same copies.
    unsafe {
        copy_nonoverlapping(SAVED.copy, a as *mut u8, b - a);
        copy_nonoverlapping(SAVED.tls_copy, SAVED.tls, SAVED.tls_len);
        let r = &mut *SAVED.arena;
        r.next = (SAVED.arena as usize + ::std::mem::size_of::<Arena>() + 63) & !63;
        r.small = [0; SMALL];
        r.large = [0; LARGE];
        INSIDE = true;
    }
}
/// Leaves the execution; what it allocated stays until the next one is entered, and must not be freed.
#[inline(never)]
pub fn leave() {
    // SAFETY: the process has one thread.
    unsafe { INSIDE = false }
}
/// Thread-local memory of threads to come.
#[inline(never)]
pub fn fresh_tls() -> Vec<u8> {
    // SAFETY: the saved copy.
    unsafe { ::std::slice::from_raw_parts(SAVED.tls_copy, SAVED.tls_len).to_vec() }
}
/// Exchanges the thread-local memory of one thread for that of another.
#[inline(never)]
pub fn switch_tls(out: &mut [u8], into: &[u8]) {
    // SAFETY: both are as large as the region.
    unsafe {
        assert!(out.len() == SAVED.tls_len && into.len() == SAVED.tls_len);
        copy_nonoverlapping(SAVED.tls, out.as_mut_ptr(), SAVED.tls_len);
        copy_nonoverlapping(into.as_ptr(), SAVED.tls, SAVED.tls_len);
    }
}

// ---------------------------------------------------------------- stacks
pub const STACKS: usize = 8;
const STACK: usize = 8 << 20;
::std::arch::global_asm!(
    ".globl mc_switch",
    "mc_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
extern "C" {
    /// Saves this stack's position and goes on on another.
    pub fn mc_switch(save: *mut usize, to: usize);
}
static mut STACK_AT: [usize; STACKS] = [0; STACKS];
/// The stacks of controlled threads; before `save`.
#[inline(never)]
pub fn stacks() {
    for i in 0..STACKS {
        let p = map(STACK, 0);
        // SAFETY: the lowest page of the mapping becomes the guard.
        unsafe {
            libc::mprotect(p as *mut _, 4096, libc::PROT_NONE);
            STACK_AT[i] = p as usize;
        }
    }
}
/// A stack on which switching to it calls `f`, which does not return.
#[inline(never)]
pub fn stack(i: usize, f: extern "C" fn() -> !) -> usize {
    // SAFETY: within the mapping, which no other thread uses.
    unsafe {
        let top = STACK_AT[i] + STACK - 64; // aligned to 16
        let p = top as *mut usize;
        *p.sub(1) = 0;
        *p.sub(2) = f as usize; // popped by `ret`, after which the stack is as after a call
        for k in 3..9 {
            *p.sub(k) = 0;
        }
        p.sub(8) as usize
    }
}
