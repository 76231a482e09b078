//! C20: histories of parse calls. Every history runs from the pristine process state, in a process of its own, through one
//! buffer; each outcome is compared with the outcome the same call has when it is the only one.
use super::corpus::corpus_with_refused;
use crate::ctx::{guard, hash, Case, Ctx};
use crate::docs::*;
use crate::entries::{entries, extras, Entry};
use crate::lift::Val;
use crate::fork::in_child;
use crate::structure::Lab;
use pddl::Name;
use std::collections::HashMap;

const CAP: usize = 1 << 16;
/// The text goes to the same place in memory at every step.
struct Buffer(Vec<u8>);
impl Buffer {
    fn new() -> Buffer {
        Buffer(vec![b' '; CAP])
    }
    fn put(&mut self, t: &str) -> &'static str {
        assert!(t.len() < CAP);
        for b in self.0.iter_mut() {
            if *b == 0 {
                break;
            }
            *b = 0;
        }
        self.0[..t.len()].copy_from_slice(t.as_bytes());
        // SAFETY: the buffer outlives every use within a history, and is only rewritten when no parse is running.
        unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.0.as_ptr(), t.len())) }
    }
}
type Step<'a> = (&'a Entry, &'a str);

fn outcome(e: &Entry, t: &str) -> (u64, String, Option<Box<dyn Val>>) {
    match guard(|| (e.both)(t)) {
        Ok((o, v)) => {
            let d = v.as_ref().map(|v| v.debug()).unwrap_or_default();
            (hash(&format!("{:?}{}", o, d)), d, v)
        }
        Err(m) => (hash(&m), m, None),
    }
}
/// The outcome of a call that is the first and only one of its process.
fn alone(e: &Entry, t: &str) -> u64 {
    let r = in_child(|| {
        let mut b = Buffer::new();
        Some(format!("{:x}", outcome(e, b.put(t)).0))
    });
    let r = r.unwrap_or_default();
    u64::from_str_radix(&r, 16).unwrap_or_else(|_| hash(&r))
}
fn show(e: &Entry, t: &str) -> String {
    in_child(|| {
        let mut b = Buffer::new();
        let (_, d, v) = outcome(e, b.put(t));
        Some(if v.is_some() { d } else { format!("refused {}", d) })
    })
    .unwrap_or_default()
}
/// Runs the steps; None when every outcome is the one of the call alone and the values stay what they were.
fn steps(h: &[Step], want: &[u64], keep: bool) -> Option<String> {
    let mut b = Buffer::new();
    let mut held: Vec<(usize, Box<dyn Val>, crate::t::T, String, Box<dyn Val>)> = vec![];
    for (i, ((e, t), w)) in h.iter().zip(want).enumerate() {
        let (got, d, v) = outcome(e, b.put(t));
        if got != *w {
            let how = if v.is_some() { format!("gives {}", d) } else { format!("is refused {}", d) };
            return Some(format!("step {}: {} of {:?} {}, other than alone", i + 1, e.nt, t, how));
        }
        if let (true, Some(v)) = (keep, v) {
            let c = v.copy();
            held.push((i, c, v.lift_val(), d, v));
        }
    }
    for (i, c, l, d, v) in &held {
        let (e, t) = h[*i];
        if v.lift_val() != *l || v.debug() != *d || c.lift_val() != *l || v.same(&**c) != Some((true, false)) {
            return Some(format!("the value of step {} ({} of {:?}) changed from {} to {}", i + 1, e.nt, t, d, v.debug()));
        }
        let (got, d2, again) = outcome(e, b.put(t));
        if got != want[*i] {
            return Some(format!("{} of {:?} once more gives {}", e.nt, t, d2));
        }
        // NaN is never read from text, so equality of a value with itself holds
        if again.map(|a| (a.same(&**v), v.same(&*a))) != Some((Some((true, false)), Some((true, false)))) {
            return Some(format!("{} of {:?} once more gives a value not equal to the first: {} / {}", e.nt, t, d, d2));
        }
    }
    None
}
fn again(h: &[Step], want: &[u64], rounds: usize) -> Option<String> {
    let mut b = Buffer::new();
    let (e, t) = h[0];
    let x = b.put(t);
    for _ in 0..rounds {
        let _ = guard(|| (e.run)(x));
    }
    steps(h, want, true).map(|m| format!("after {} calls of {} of {:?}: {}", rounds, e.nt, t, m))
}
fn encode(h: &[Step]) -> String {
    h.iter().map(|(e, t)| format!("{}\u{1f}{}", e.nt, t)).collect::<Vec<_>>().join("\u{1e}")
}
struct Run<'a> {
    ctx: &'a mut Ctx,
    alone: HashMap<(&'static str, String), u64>,
}
impl Run<'_> {
    fn want(&mut self, e: &Entry, t: &str) -> u64 {
        if let Some(x) = self.alone.get(&(e.nt, t.to_string())) {
            return *x;
        }
        self.ctx.add("alone", 1);
        let x = alone(e, t);
        self.alone.insert((e.nt, t.to_string()), x);
        x
    }
    /// A history in a process of its own.
    fn check(&mut self, h: &[Step]) {
        if self.ctx.mine() {
            self.check_owned(h, true);
        }
    }
    fn check_owned(&mut self, h: &[Step], keep: bool) {
        // the verdict is in
        if self.ctx.stats.get("violating").map_or(false, |n| *n >= 3) {
            return;
        }
        self.ctx.add("traces", 1);
        self.ctx.add("states_extra", 1);
        self.ctx.add("transitions", h.len() as u64);
        let w: Vec<u64> = h.iter().map(|(e, t)| self.want(e, t)).collect();
        let c = Case::new("history", &[("steps", if h.len() <= 64 { encode(h) } else { String::new() })]);
        self.ctx.in_flight(&c);
        if h.len() <= 3 {
            self.ctx.sample(|| h.iter().map(|(e, t)| format!("{}: {}", e.nt, t)).collect::<Vec<_>>().join(" ; "));
        }
        if let Some(m) = in_child(|| steps(h, &w, keep)) {
            self.minimise(h, m);
        }
    }
    /// Long histories are reported by a short one when a short one does it.
    fn minimise(&mut self, h: &[Step], m: String) {
        let alone = std::mem::take(&mut self.alone);
        let bad = |h: &[Step]| {
            let w: Vec<u64> = h.iter().map(|(e, t)| alone[&(e.nt, t.to_string())]).collect();
            in_child(|| steps(h, &w, h.len() <= 64))
        };
        let mut cur: Vec<Step> = h.to_vec();
        let mut msg = m;
        let mut chunk = cur.len() / 2;
        let mut tries = 0;
        while chunk >= 1 && cur.len() > 2 && tries < 60 && cur.len() < 200_000 {
            let mut i = 0;
            while i + chunk <= cur.len() && tries < 60 {
                tries += 1;
                let mut t = cur.clone();
                t.drain(i..i + chunk);
                self.ctx.tick();
                match bad(&t) {
                    Some(m) => {
                        cur = t;
                        msg = m;
                    }
                    None => i += chunk,
                }
            }
            chunk /= 2;
        }
        self.alone = alone;
        self.ctx.violation(Case::new("history", &[("steps", encode(&cur))]), msg);
    }
}

/// Texts that differ from the document in one token.
pub fn variants(d: &Doc) -> Vec<String> {
    let mut out = vec![];
    let alter = |t: &str| -> Vec<String> {
        let b = t.as_bytes();
        let word = b[0].is_ascii_alphabetic() || (b[0] == b'?' && b.len() > 1);
        let num = b[0].is_ascii_digit();
        let mut v = vec![];
        if word {
            let k = (b[0] == b'?') as usize;
            let last = b.len() - 1;
            let with = |i: usize, c: u8| {
                let mut x = b.to_vec();
                x[i] = c;
                String::from_utf8(x).unwrap()
            };
            v.push(with(last, if b[last] == b'z' { b'y' } else { b'z' }));
            v.push(with(k, if b[k] == b'q' { b'w' } else { b'q' }));
            v.push(with(k, if b[k].is_ascii_lowercase() { b[k].to_ascii_uppercase() } else { b[k].to_ascii_lowercase() }));
            v.push(format!("{}x", t));
            if b.len() > k + 1 {
                v.push(t[..last].to_string());
            }
        } else if num {
            let last = b.len() - 1;
            let mut x = b.to_vec();
            x[last] = if b[last] == b'9' { b'8' } else { b'9' };
            v.push(String::from_utf8(x).unwrap());
            v.push(format!("{}1", t));
        } else if b[0] == b':' {
            let mut x = b.to_vec();
            let last = b.len() - 1;
            x[last] = b'z';
            v.push(String::from_utf8(x).unwrap());
        } else {
            for o in ["+", "-", "*", "/", "<", ">", "="] {
                if b.len() == 1 && b"+-*/<>=".contains(&b[0]) && o != t {
                    v.push(o.to_string());
                }
            }
        }
        v
    };
    for i in 0..d.len() {
        for a in alter(d[i]) {
            let mut x: Vec<&str> = d.clone();
            x[i] = &a;
            out.push(render(&x).0);
        }
    }
    out
}
/// Other layouts of the same tokens.
pub fn layouts(d: &Doc) -> Vec<String> {
    let (c, _) = render(d);
    vec![c.replace(' ', "\n"), c.replace(' ', " ; c\n "), c.replace('(', "( "), format!("{} ", c), format!("{} tail", c)]
}
/// Proper beginnings: at every token, and with a wrong ending.
pub fn cuts(d: &Doc) -> Vec<String> {
    let mut out = vec![];
    for k in 1..d.len() {
        let (t, _) = render(&d[..k]);
        out.push(format!("{} )))))))))))", t));
        out.push(t);
    }
    out
}

pub fn run(ctx: &mut Ctx) {
    let deep = ctx.thorough;
    let lab = Lab::new();
    let all: Vec<Entry> = entries().into_iter().chain(extras()).filter(|e| e.nt != "comment").collect();
    let ent = |nt: &str| all.iter().find(|e| e.nt == nt).expect("entry");
    // documents
    let mut large: Vec<(&Entry, String, Doc)> = vec![];
    let mut small: Vec<(&Entry, String)> = vec![];
    let mut tiny: Vec<(&Entry, String)> = vec![];
    for e in lab.ents.iter().map(|e| ent(e.nt)) {
        let (mut good, bad) = corpus_with_refused(&lab, e.nt, if deep { 24 } else { 8 }, 1);
        good.sort_by_key(|d| d.len());
        let pick = |v: &[Doc], n: usize| -> Vec<Doc> { (0..n.min(v.len())).map(|i| v[i * v.len() / n.min(v.len())].clone()).collect() };
        for d in pick(&good, if deep { 14 } else { 8 }).into_iter().chain(pick(&bad, if deep { 8 } else { 4 })) {
            large.push((e, render(&d).0, d));
        }
        for d in pick(&good, if deep { 3 } else { 2 }).into_iter().chain(pick(&bad, if deep { 2 } else { 1 })) {
            small.push((e, render(&d).0));
        }
        if good.last().map_or(0, |d| d.len()) > 3 {
            for d in good.last().into_iter().chain(bad.last()) {
                tiny.push((e, render(d).0));
            }
        }
    }
    let mut r = Run { ctx, alone: HashMap::new() };
    // all ordered pairs, pristine
    for (a, x) in &small {
        for (b, y) in &small {
            r.check(&[(a, x.as_str()), (b, y.as_str())]);
        }
    }
    r.ctx.phase("pairs");
    // all ordered triples
    let stride = if deep { 2 } else { 4 };
    let t3: Vec<_> = tiny.iter().step_by(stride).collect();
    for (a, x) in &t3 {
        for (b, y) in &t3 {
            for (c, z) in &t3 {
                r.check(&[(a, x.as_str()), (b, y.as_str()), (c, z.as_str())]);
            }
        }
    }
    r.ctx.phase("triples");
    r.ctx.notes.insert("pairs over".into(), small.len().to_string());
    r.ctx.notes.insert("triples over".into(), t3.len().to_string());
    r.ctx.notes.insert("corpus".into(), large.len().to_string());
    // a text and its neighbours, before and after
    for (e, x, d) in &large {
        let near: Vec<String> = variants(d).into_iter().chain(layouts(d)).chain(cuts(d)).collect();
        let step = 1 + near.len() / if deep { 150 } else { 40 };
        for y in near.iter().step_by(step) {
            r.check(&[(e, x.as_str()), (e, y.as_str()), (e, x.as_str())]);
            r.check(&[(e, y.as_str()), (e, x.as_str())]);
        }
        // all of them in one go, the text itself in between
        if r.ctx.mine() {
            let mut h: Vec<Step> = vec![];
            for y in &near {
                h.push((e, x));
                h.push((e, y));
            }
            h.push((e, x));
            r.check_owned(&h, false);
        }
    }
    r.ctx.phase("neighbours");
    // one text through all pairs of entry points
    let k = if deep { 2 } else { 4 };
    for (_, x, _) in large.iter().step_by(k) {
        if !r.ctx.mine() {
            continue;
        }
        let mut h: Vec<Step> = vec![];
        for (i, a) in all.iter().enumerate() {
            for b in &all[i..] {
                h.push((a, x));
                h.push((b, x));
            }
        }
        r.check_owned(&h, false);
    }
    r.ctx.phase("entry pairs");
    // all ordered pairs of the whole corpus, each first text in one process
    for (a, x, _) in &large {
        if !r.ctx.mine() {
            continue;
        }
        let mut h: Vec<Step> = vec![];
        for (b, y, _) in &large {
            h.push((a, x));
            h.push((b, y));
        }
        r.check_owned(&h, false);
    }
    r.ctx.phase("corpus pairs");
    // the whole corpus in many orders
    let n = large.len();
    for s in [1usize, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31] {
        for rev in [false, true] {
            if !r.ctx.mine() {
                continue;
            }
            let mut order: Vec<usize> = (0..s).flat_map(|o| (o..n).step_by(s)).collect();
            if rev {
                order.reverse();
            }
            let h: Vec<Step> = order.iter().map(|i| (large[*i].0, large[*i].1.as_str())).collect();
            r.check_owned(&h, n < 4000);
        }
    }
    r.ctx.phase("orders");
    // one text again and again, then others
    let rounds: usize = if deep { 3000 } else { 1100 };
    for (i, (e, x)) in tiny.iter().enumerate() {
        let doc = tokens(x).into_iter().map(ist).collect::<Doc>();
        for y in std::iter::once(x.clone()).chain(cuts(&doc).into_iter().step_by(if deep { 1 } else { 6 })) {
            if !r.ctx.mine() {
                continue;
            }
            let mut h: Vec<Step> = vec![(*e, y.as_str()), (*e, x.as_str())];
            for k in 1..6 {
                let (b, z) = &tiny[(i + k * 7) % tiny.len()];
                h.push((b, z));
            }
            let w: Vec<u64> = h.iter().map(|(e, t)| r.want(e, t)).collect();
            r.ctx.add("traces", 1);
            r.ctx.add("states_extra", 1);
            r.ctx.add("transitions", (rounds + h.len()) as u64);
            let c = Case::new("history", &[("steps", encode(&h)), ("calls of the first before", rounds.to_string())]);
            r.ctx.in_flight(&c);
            if let Some(m) = in_child(|| again(&h, &w, rounds)) {
                r.ctx.violation(c, m);
            }
        }
    }
    r.ctx.phase("rounds");
    // a table full of names first
    for (count, up) in [(100, true), (300, false), (5000, true), (5000, false), (70_000, true)] {
        if !deep && count > 5000 {
            continue;
        }
        if !r.ctx.mine() {
            continue;
        }
        let w: Vec<u64> = large.iter().map(|(e, t, _)| r.want(e, t)).collect();
        r.ctx.add("traces", 1);
        let h: Vec<Step> = large.iter().map(|(e, t, _)| (*e, t.as_str())).collect();
        let c = Case::new("history", &[("steps", encode(&h)), ("names before", format!("{}", count)), ("ascending", up.to_string())]);
        r.ctx.in_flight(&c);
        let m = in_child(|| {
            let _names = fill(count, up);
            steps(&h, &w, true)
        });
        if let Some(m) = m {
            r.ctx.violation(c, m);
        }
    }
    r.ctx.phase("full table");
    // another thread after, or between, the calls of one
    for (e, x) in &small {
        if !r.ctx.mine() {
            continue;
        }
        r.ctx.add("traces", 1);
        let c = Case::new("history-thread", &[("entry", e.nt.to_string()), ("text", x.clone())]);
        r.ctx.in_flight(&c);
        if let Some(m) = threads(e, x) {
            r.ctx.violation(c, m);
        }
    }
    r.ctx.phase("threads");
    r.ctx.outcomes.extend(r.alone.values().copied());
}
fn fill(count: usize, up: bool) -> Vec<Name> {
    (0..count).map(|i| Name::new(format!("{}{:06}", ["a", "n", "z", "name"][i % 4], if up { i } else { count - i }))).collect()
}
/// The same call from this thread, from others, and from this one again.
fn threads(e: &Entry, x: &str) -> Option<String> {
    let w = alone(e, x);
    in_child(|| {
        let call = |nt: &'static str, t: String| {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let e = entries().into_iter().chain(extras()).find(|x| x.nt == nt).unwrap();
                    outcome(&e, &t).0
                })
                .unwrap()
                .join()
                .unwrap_or(0)
        };
        let got = [outcome(e, x).0, call(e.nt, x.to_string()), outcome(e, x).0, call(e.nt, x.to_string())];
        if got != [w; 4] {
            return Some(format!("{} of {:?} from two threads in turn: same as alone {:?}", e.nt, x, got.map(|g| g == w)));
        }
        None
    })
}
pub fn one(c: &Case) -> Option<String> {
    let all: Vec<Entry> = entries().into_iter().chain(extras()).collect();
    match c.kind.as_str() {
        "history" => {
            let h: Vec<Step> = c
                .get("steps")
                .split('\u{1e}')
                .filter_map(|s| s.split_once('\u{1f}'))
                .map(|(nt, t)| (all.iter().find(|e| e.nt == nt).expect("entry"), t))
                .collect();
            let w: Vec<u64> = h.iter().map(|(e, t)| alone(e, t)).collect();
            in_child(|| {
                let _names = fill(c.get("names before").parse().unwrap_or(0), c.get("ascending") == "true");
                match c.get("calls of the first before").parse() {
                    Ok(n) => again(&h, &w, n),
                    Err(_) => steps(&h, &w, h.len() <= 4000),
                }
            })
            .map(|m| match h.last() {
                Some((e, t)) => format!("{} (alone, the last call gives {})", m, show(e, t)),
                None => m,
            })
        }
        "history-thread" => threads(all.iter().find(|e| e.nt == c.get("entry")).expect("entry"), c.get("text")),
        _ => None,
    }
}
