//! C21: effort. The library is compiled with a counter on every region of code (-C instrument-coverage); the effort of a
//! call is the number of counted regions it executes plus what it allocates: a deterministic measure.
use super::corpus::{corpus, leaf_docs};
use super::total::families;
use crate::ctx::{guard, hash, Case, Ctx};
use crate::docs::*;
use crate::entries::Entry;
use crate::gram::Stat;
use crate::structure::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Counting;
static ALLOCATED: AtomicU64 = AtomicU64::new(0);
// SAFETY: defers to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCATED.store(ALLOCATED.load(Relaxed) + 4 + l.size() as u64 / 64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ALLOCATED.store(ALLOCATED.load(Relaxed) + 4 + n as u64 / 64, Relaxed);
        System.realloc(p, l, n)
    }
}

#[cfg(effort)]
fn counters() -> u64 {
    extern "C" {
        static __start___llvm_prf_cnts: u64;
        static __stop___llvm_prf_cnts: u64;
    }
    // SAFETY: the linker delimits the section of counters with these two symbols.
    unsafe {
        let b = &raw const __start___llvm_prf_cnts;
        let e = &raw const __stop___llvm_prf_cnts;
        let n = e.offset_from(b) as usize;
        let mut s = 0u64;
        for i in 0..n {
            s = s.wrapping_add(std::ptr::read_volatile(b.add(i)));
        }
        s
    }
}
#[cfg(not(effort))]
fn counters() -> u64 {
    panic!("built without counters")
}
fn effort(e: &Entry, t: &str) -> u64 {
    let _ = guard(|| (e.run)(t)); // names enter the table here
    let (a, m) = (counters(), ALLOCATED.load(Relaxed));
    let _ = guard(|| (e.run)(t));
    let (b, n) = (counters(), ALLOCATED.load(Relaxed));
    b.wrapping_sub(a) + n.wrapping_sub(m)
}
#[derive(Clone, Hash, PartialEq, Eq)]
struct Family {
    a: String,
    pre: String,
    core: String,
    post: String,
    z: String,
}
impl Family {
    fn text(&self, k: usize) -> String {
        format!("{}{}{}{}{}", self.a, self.pre.repeat(k), self.core, self.post.repeat(k), self.z)
    }
    fn case(&self, e: &Entry) -> Case {
        let f = [("entry", e.nt), ("a", &self.a), ("pre", &self.pre), ("core", &self.core), ("post", &self.post), ("z", &self.z)];
        Case::new("effort", &f.map(|(k, v)| (k, v.to_string())))
    }
}
const SIZES: [usize; 13] = [2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128];
const MAX_BYTES: usize = 20_000;

/// Growth beyond (size ratio)^2.6, more than any quadratic, at two steps from one size to the next (one step may be the
/// passage from one outcome to another), or at one that ends beyond all measure.
fn grow(e: &Entry, f: &Family, upto: usize, steps: &mut u64) -> Option<String> {
    let mut prev: Option<(usize, usize, u64)> = None;
    let mut flat = 0;
    let mut beyond = 0;
    for k in SIZES.iter().filter(|k| **k <= upto) {
        let t = f.text(*k);
        if t.len() > MAX_BYTES {
            break;
        }
        *steps += 1;
        let x = effort(e, &t);
        if let Some((j, len, y)) = prev {
            let allowed = y as f64 * (*k as f64 / j as f64).powf(2.6) + 4000.0;
            beyond += (x as f64 > allowed) as u32;
            if beyond == 2 || beyond == 1 && x > 50_000_000 {
                return Some(format!(
                    "{}: {} times takes {} steps ({} bytes), {} times takes {} steps ({} bytes): more than quadratic growth: {:?}",
                    e.nt,
                    j,
                    y,
                    len,
                    k,
                    x,
                    t.len(),
                    f.text(3)
                ));
            }
        }
        // refused before the repeated part is reached
        flat = if prev.map_or(false, |p| p.2 == x) { flat + 1 } else { 0 };
        if flat == 4 {
            break;
        }
        prev = Some((*k, t.len(), x));
    }
    None
}
struct Run<'a> {
    ctx: &'a mut Ctx,
    upto: usize,
    done: HashSet<u64>,
}
impl Run<'_> {
    fn family(&mut self, e: &Entry, f: &Family) {
        let h = hash(&(e.nt, f));
        if !self.ctx.fresh(h) {
            return;
        }
        let c = f.case(e);
        self.ctx.in_flight(&c);
        let mut steps = 0;
        let m = grow(e, f, self.upto, &mut steps);
        self.ctx.add("traces", steps);
        self.ctx.add("transitions", steps);
        self.ctx.add("families", 1);
        self.ctx.sample(|| format!("{}: {}", e.nt, f.text(2)));
        if let Some(m) = m {
            self.ctx.violation(c, m);
        }
    }
    /// The family with every kind of ending.
    fn endings(&mut self, e: &Entry, f: Family, full: bool) {
        let key = hash(&(e.nt, &f.pre, &f.core, &f.post));
        if !self.done.insert(key) {
            return;
        }
        self.ctx.tick();
        let cut_z = f.z.trim_end_matches([')', ' ']).to_string();
        let mut v = vec![f.clone(), Family { z: String::new(), ..f.clone() }];
        if !full {
            for x in v {
                self.family(e, &x);
            }
            return;
        }
        // broken in the middle, nothing after the middle, an end too few, garbage at the end
        for core in ["%", ")", "(? ?", "(", "(x", "?", "()"].into_iter().take(if self.ctx.thorough { 7 } else { 3 }) {
            v.push(Family { core: format!(" {} ", core), ..f.clone() });
        }
        v.push(Family { post: String::new(), z: String::new(), ..f.clone() });
        v.push(Family { z: cut_z, ..f.clone() });
        v.push(Family { z: format!(" %{}", f.z), ..f.clone() });
        v.push(Family { z: format!(" (x %) {}", f.z), ..f.clone() });
        for x in v {
            self.family(e, &x);
        }
    }
}
/// One name, one variable, one number.
fn uniform(d: &Doc) -> Doc {
    d.iter()
        .map(|t| match t.as_bytes()[0] {
            b'n' if t[1..].bytes().all(|c| c.is_ascii_digit()) => "x",
            b'?' if t.len() > 2 && t[2..].bytes().all(|c| c.is_ascii_digit()) => "?x",
            b'0'..=b'9' => "1",
            _ => t,
        })
        .collect()
}
/// The text of tokens `d[b..e]`, with what separates them from their neighbours in front.
fn piece(d: &Doc, b: usize, e: usize) -> String {
    let (t, ends) = render(d);
    let from = if b == 0 { 0 } else { ends[b - 1] };
    let to = if e == 0 { 0 } else { ends[e - 1] };
    t[from..to.max(from)].to_string()
}
pub fn run(ctx: &mut Ctx) {
    let deep = ctx.thorough;
    let lab = Lab::new();
    let upto = if deep { 64 } else { 32 };
    let mut r = Run { ctx, upto, done: HashSet::new() };
    let per = if deep { 16 } else { 6 };
    let mut st = Stat::default();
    for e in &lab.ents {
        let mut docs: Vec<Doc> = leaf_docs(e.nt);
        docs.extend(corpus(&lab, e.nt, per).iter().map(|d| uniform(d)));
        if lab.g.nts.contains_key(e.nt) {
            for s in first(&lab.g, e.nt, per, &mut st) {
                docs.push(lab.pool.same(&s.tk));
            }
        }
        for d in &docs {
            let sp = spans(&d.iter().map(|t| *t).collect::<Vec<_>>(), "(", ")");
            // one to three siblings, repeated
            for (i, x) in sp.iter().enumerate() {
                let mut e2 = x.1;
                let mut last = i;
                for _ in 0..3 {
                    let f = Family { a: piece(d, 0, x.0), pre: piece(d, x.0, e2), core: String::new(), post: String::new(), z: piece(d, e2, d.len()) };
                    let f = Family { pre: format!(" {}", f.pre), ..f };
                    r.endings(e, f, d.len() <= if deep { 80 } else { 40 });
                    match (last + 1..sp.len()).find(|j| sp[*j].0 == e2 && sp[*j].2 == x.2) {
                        Some(j) => {
                            e2 = sp[j].1;
                            last = j;
                        }
                        None => break,
                    }
                }
            }
            // an element around itself
            if d.len() > if deep { 40 } else { 24 } {
                continue;
            }
            for u in sp.iter().filter(|u| u.1 - u.0 > 1) {
                for v in sp.iter().filter(|v| v.0 > u.0 && v.1 <= u.1 && v.1 > v.0) {
                    let f = Family {
                        a: piece(d, 0, u.0),
                        pre: format!(" {}", piece(d, u.0, v.0)),
                        core: piece(d, v.0, v.1),
                        post: piece(d, v.1, u.1),
                        z: piece(d, u.1, d.len()),
                    };
                    r.endings(e, f, v.1 - v.0 > 1);
                }
            }
        }
        for d in &docs {
            // long tokens
            for i in 0..d.len() {
                let t = d[i];
                if t.len() > 0 && t != "(" && t != ")" {
                    let f = Family { a: format!("{}{}", piece(d, 0, i + 1), ""), pre: t[t.len() - 1..].to_string(), core: String::new(), post: String::new(), z: piece(d, i + 1, d.len()) };
                    if !r.done.insert(hash(&(e.nt, "token", t, if deep && d.len() < 40 { i } else { 0 }))) {
                        continue;
                    }
                    r.family(e, &f);
                    for sep in [" ", "\n", ";\n", "\t ", " ; c ( \n"] {
                        r.family(e, &Family { pre: sep.to_string(), ..f.clone() });
                    }
                }
            }
        }
        r.ctx.phase("documents");
    }
    // every recursive production around itself, and every cycle of two (thorough: three) of them
    let fams = families(&lab);
    r.ctx.notes.insert("recursive productions".into(), fams.len().to_string());
    let around: Vec<(&str, &str)> = vec![("", "")];
    for (nt, pre, core, post) in &fams {
        let e = lab.ent(nt);
        for (x, y) in &around {
            r.endings(e, Family { a: x.to_string(), pre: format!(" {}", pre), core: core.clone(), post: post.clone(), z: y.to_string() }, true);
        }
        for (nt2, pre2, core2, post2) in &fams {
            if nt2 != nt {
                continue;
            }
            r.endings(e, Family { a: String::new(), pre: format!(" {} {}", pre, pre2), core: core2.clone(), post: format!("{} {}", post2, post), z: String::new() }, true);
            if deep {
                for (nt3, pre3, core3, post3) in &fams {
                    if nt3 == nt {
                        r.family(
                            e,
                            &Family {
                                a: String::new(),
                                pre: format!(" {} {} {}", pre, pre2, pre3),
                                core: core3.clone(),
                                post: format!("{} {} {}", post3, post2, post),
                                z: String::new(),
                            },
                        );
                    }
                }
            }
        }
    }
    r.ctx.phase("cycles");
    r.ctx.notes.insert("sizes".into(), format!("{:?} up to {}, and {} bytes", SIZES, upto, MAX_BYTES));
}
pub fn one(c: &Case) -> Option<String> {
    let lab = Lab::new();
    let g = |k: &str| c.get(k).to_string();
    let f = Family { a: g("a"), pre: g("pre"), core: g("core"), post: g("post"), z: g("z") };
    grow(lab.ent(c.get("entry")), &f, 128, &mut 0)
}
/// Prints the growth of one stored family.
pub fn table(path: &str) {
    let c = std::fs::read_to_string(path).ok().and_then(|s| Case::decode(&s)).expect("case");
    let lab = Lab::new();
    let g = |k: &str| c.get(k).to_string();
    let f = Family { a: g("a"), pre: g("pre"), core: g("core"), post: g("post"), z: g("z") };
    let e = lab.ent(c.get("entry"));
    for k in 1..=14 {
        let t = f.text(k);
        println!("{:3} {:6} bytes {:10} steps {}", k, t.len(), effort(e, &t), (e.run)(&t));
    }
}
