//! C23: equality, copies, hashes and orders of values follow their content. States are pairs of values.
use super::corpus::{corpus, leaf_docs};
use super::hashes;
use super::history::{layouts, variants};
use crate::ctx::{guard, hash, Case, Ctx};
use crate::docs::*;
use crate::entries::{entries, extras, Entry};
use crate::lift::{Lift, Val};
use crate::gram::{Stat, Tk};
use crate::refp;
use crate::structure::{first, Lab};
use crate::t::{n, T};
use pddl::*;
use std::collections::HashSet;

/// The content of a parsed value. (A domain's `:timeless` section has no accessor; its content is read from the text.)
fn content(e: &Entry, text: &str, v: &dyn Val) -> T {
    let t = v.lift_val();
    if e.nt != "domain" {
        return t;
    }
    let toks = tokens(text);
    let mut extra = vec![];
    for i in 1..toks.len() {
        if toks[i] == ":timeless" && toks[i - 1] == "(" {
            extra.extend(refp::expect("timeless", &toks[i - 1..]).map(|x| x.0));
        }
    }
    n("domain+", vec![t, n("timeless", extra.into_iter().rev().take(1).collect())])
}
struct V {
    text: String,
    t: T,
    v: Box<dyn Val>,
    c: Box<dyn Val>,
}
fn value(e: &Entry, text: &str) -> Option<V> {
    let v = guard(|| (e.both)(text).1).ok().flatten()?;
    Some(V { text: text.to_string(), t: content(e, text, &*v), c: v.copy(), v })
}
fn pair(a: &V, b: &V) -> Option<String> {
    let same = a.t == b.t;
    let r = guard(|| [a.v.same(&*b.v), b.v.same(&*a.v), a.c.same(&*b.v), b.v.same(&*a.c), a.c.same(&*b.c)]);
    match r {
        Err(m) => Some(format!("comparing {:?} with {:?} panics: {}", a.text, b.text, m)),
        Ok(r) => {
            if r == [Some((same, !same)); 5] {
                None
            } else {
                Some(format!(
                    "the values of {:?} and {:?} have {} content, but (==, !=) both ways, with a copy on either side and with both copied are {:?}",
                    a.text,
                    b.text,
                    if same { "the same" } else { "different" },
                    r.map(|x| x.unwrap_or((false, false)))
                ))
            }
        }
    }
}
fn copies(v: &V) -> Option<String> {
    if v.c.lift_val() != v.v.lift_val() || v.c.debug() != v.v.debug() {
        return Some(format!("a copy of the value of {:?} is {} instead of {}", v.text, v.c.debug(), v.v.debug()));
    }
    None
}
struct Run<'a> {
    ctx: &'a mut Ctx,
    seen: HashSet<u64>,
}
impl Run<'_> {
    /// All pairs of the accepted ones among the texts; `part`: only the pairs whose first is this worker's.
    fn group(&mut self, e: &Entry, texts: &[String], part: bool) {
        let mut vs: Vec<V> = vec![];
        let mut have = HashSet::new();
        for t in texts {
            if have.insert(t) {
                self.ctx.tick();
                vs.extend(value(e, t));
            }
        }
        for (i, a) in vs.iter().enumerate() {
            if part && i as u64 % self.ctx.nshards != self.ctx.shard {
                continue;
            }
            if self.seen.insert(hash(&(e.nt, &a.text))) {
                self.ctx.add("states_extra", 1);
            }
            self.ctx.tick();
            if let Some(m) = copies(a) {
                self.bad(e, a, a, m);
            }
            for b in &vs[i..] {
                self.ctx.add("traces", 1);
                self.ctx.add("transitions", 5);
                self.ctx.add(if a.t == b.t { "equal pairs" } else { "unequal pairs" }, 1);
                if let Some(m) = pair(a, b) {
                    self.bad(e, a, b, m);
                }
            }
            self.ctx.sample(|| format!("{}: {} and {} others", e.nt, a.text, vs.len() - i - 1));
        }
    }
    fn bad(&mut self, e: &Entry, a: &V, b: &V, m: String) {
        self.ctx.violation(Case::new("equal", &[("entry", e.nt.to_string()), ("a", a.text.clone()), ("b", b.text.clone())]), m);
    }
}
/// Everything one edit away: tokens dropped, doubled, exchanged; elements dropped, doubled, exchanged; words replaced.
fn around(lab: &Lab, e: &Entry, d: &Doc) -> Vec<String> {
    let mut out = vec![render(d).0];
    out.extend(variants(d));
    out.extend(layouts(d));
    let mut add = |v: &[&'static str]| out.push(render(v).0);
    for i in 0..d.len() {
        let mut v = d.clone();
        v.remove(i);
        add(&v);
        let mut v = d.clone();
        v.insert(i, d[i]);
        add(&v);
        for j in i + 1..d.len() {
            if d[i] != "(" && d[j] != "(" && d[i] != ")" && d[j] != ")" && d[i] != d[j] {
                let mut v = d.clone();
                v.swap(i, j);
                add(&v);
            }
        }
    }
    // words of the language in place of each other, a type spelled out, a number written otherwise
    let alpha: Vec<&'static str> = if lab.g.nts.contains_key(e.nt) { lab.g.alphabet(e.nt).iter().map(|t| lab.pool.same(&[*t as Tk])[0]).collect() } else { vec![] };
    for i in 0..d.len() {
        for w in alpha.iter().filter(|w| **w != "(" && **w != ")") {
            let mut v = d.clone();
            v[i] = w;
            add(&v);
        }
        for w in [vec!["-", "object"], vec!["-", "number"], vec!["-", "t"], vec!["-", "u"], vec!["?x"], vec!["x"], vec!["1"], vec!["()"], vec!["(", ")"]] {
            let mut v = d.clone();
            for (k, x) in w.iter().enumerate() {
                v.insert(i + k, x);
            }
            add(&v);
        }
        if d[i].as_bytes()[0].is_ascii_digit() {
            for x in [format!("{}.0", d[i]), format!("{}.00", d[i]), format!("0{}", d[i]), format!("{}0", d[i]), "0".into(), "0.0".into(), "16777217".into(), "16777216".into()] {
                let mut v = d.clone();
                v[i] = ist(&x);
                add(&v);
            }
        }
    }
    swaps_of(d, &mut add);
    out
}
fn swaps_of(d: &Doc, f: &mut dyn FnMut(&[&'static str])) {
    let sp = spans(&d.to_vec(), "(", ")");
    for (i, x) in sp.iter().enumerate() {
        for y in sp[i + 1..].iter().filter(|y| y.2 == x.2 && y.0 >= x.1) {
            let mut v = d[..x.0].to_vec();
            v.extend_from_slice(&d[y.0..y.1]);
            v.extend_from_slice(&d[x.1..y.0]);
            v.extend_from_slice(&d[x.0..x.1]);
            v.extend_from_slice(&d[y.1..]);
            f(&v);
        }
        if x.1 - x.0 > 1 {
            let mut v = d[..x.0].to_vec();
            v.extend_from_slice(&d[x.1..]);
            f(&v);
            let mut v = d[..x.1].to_vec();
            v.extend_from_slice(&d[x.0..]);
            f(&v);
            // one level of parentheses around, an `and` around, and its inside alone
            for w in ["and", "or", "not", "preference"] {
                let mut v = d[..x.0].to_vec();
                v.extend(["(", w]);
                v.extend_from_slice(&d[x.0..x.1]);
                v.push(")");
                v.extend_from_slice(&d[x.1..]);
                f(&v);
            }
        }
    }
}

/// Comparisons between a wrapper and what it wraps.
fn cross(lab: &Lab, deep: bool) -> Vec<(String, String)> {
    let mut bad = vec![];
    let texts = |nt: &str| -> Vec<String> {
        let e = lab.ent(nt);
        let mut v: Vec<String> = vec![];
        for d in base(lab, nt, if deep { 12 } else { 5 }) {
            v.extend(around(lab, e, &d).into_iter().filter(|t| (e.run)(t)));
        }
        v.sort();
        v.dedup();
        let k = 1 + v.len() / if deep { 900 } else { 300 };
        v.into_iter().step_by(k).collect()
    };
    macro_rules! wrapped {
        ($nt:literal, $t:ty, $inner:expr, $it:expr, $eq:expr) => {
            let v: Vec<($t, String)> = texts($nt).into_iter().filter_map(|t| <$t as parsers::Parser>::from_str(&t).ok().map(|v| (v, t))).collect();
            for (x, tx) in &v {
                for (y, ty) in &v {
                    let inner = ($inner)(y);
                    let same = x.lift() == y.lift();
                    let _: T = ($it)(&inner);
                    if ($eq)(x, &inner) != same {
                        bad.push((format!("{}/{}/{}", $nt, tx, ty), format!("{} of {:?} == what the one of {:?} holds: {}", stringify!($t), tx, ty, !same)));
                    }
                }
            }
        };
    }
    wrapped!("goal", GoalDef, |y: &GoalDef| y.value().clone(), |i: &PreconditionGoalDefinitions| i.lift(), |x: &GoalDef, i: &PreconditionGoalDefinitions| *x == *i && !(*x != *i));
    wrapped!("problem-constraints", ProblemConstraintsDef, |y: &ProblemConstraintsDef| y.value().clone(), |i: &PrefConGDs| i.lift(), |x: &ProblemConstraintsDef, i: &PrefConGDs| *x == *i && !(*x != *i));
    wrapped!("domain-constraints", DomainConstraintsDef, |y: &DomainConstraintsDef| y.value().clone(), |i: &ConGD| i.lift(), |x: &DomainConstraintsDef, i: &ConGD| *x == *i && !(*x != *i));
    // typed lists against vectors and slices of their elements
    macro_rules! lists {
        ($nt:literal, $f:expr, $e:ty) => {
            let e = extras().into_iter().find(|e| e.nt == $nt).expect("entry");
            let base: &[&str] = if $nt == "function-typed-list" {
                &["", "(f)", "(f) (g)", "(g) (f)", "(f) - number", "(f) (g) - number", "(f) - t (g) - number", "(f ?x)", "(f ?x - t)", "(f) (f)", "(f) (g) (h)"]
            } else {
                &["", "a", "a b", "b a", "a - t", "a b - t", "a - t b - t", "a - t b", "a - u", "a - (either t u)", "a - (either u t)", "a - object", "a a", "a b c", "a - (either t)", "A"]
            };
            let texts: Vec<String> = base.iter().map(|t| if $nt == "typed-list-vars" { t.split(' ').map(|w| if w.len() == 1 && w != "-" && !["t", "u"].contains(&w) { format!("?{}", w) } else { w.to_string() }).collect::<Vec<_>>().join(" ") } else { t.to_string() }).collect();
            for x in &texts {
                for y in &texts {
                    let (Some(a), Some(b)) = (($f)(x), ($f)(y)) else { continue };
                    let vec: Vec<$e> = b.iter().cloned().collect();
                    let same = a.lift() == b.lift();
                    if (a == vec) != same || (a == vec[..]) != same || (a == b) != same {
                        bad.push((format!("{}/{}/{}", $nt, x, y), format!("the list {:?} against the elements of {:?}: == Vec {}, == slice {}, == list {}", x, y, a == vec, a == vec[..], a == b)));
                    }
                }
            }
            let _ = e.nt;
        };
    }
    lists!("typed-list-names", |t: &String| parsers::typed_list(parsers::parse_name)(parsers::Span::new(t)).ok().map(|x| x.1), Typed<Name>);
    lists!("typed-list-vars", |t: &String| parsers::typed_list(parsers::parse_variable)(parsers::Span::new(t)).ok().map(|x| x.1), Typed<Variable>);
    lists!("function-typed-list", |t: &String| parsers::function_typed_list(parsers::parse_atomic_function_skeleton)(parsers::Span::new(t)).ok().map(|x| x.1), FunctionTyped<AtomicFunctionSkeleton>);
    bad
}
fn base(lab: &Lab, nt: &str, k: usize) -> Vec<Doc> {
    let mut good = corpus(lab, nt, 60);
    good.retain(|d| d.len() <= 120);
    good.sort_by_key(|d| d.len());
    let n = good.len();
    let mut v: Vec<Doc> = (0..k.min(n)).map(|i| good[i * n / k.min(n)].clone()).collect();
    v.extend(good.last().cloned());
    v.extend(leaf_docs(nt));
    v
}

pub fn run(ctx: &mut Ctx) {
    let deep = ctx.thorough;
    let lab = Lab::new();
    let mut r = Run { ctx, seen: HashSet::new() };
    let all: Vec<Entry> = entries();
    let (mut groups, mut largest) = (0, 0);
    for e in &all {
        // a document and everything one edit away, all pairs (so also documents two edits apart)
        for d in base(&lab, e.nt, if deep { 30 } else { 8 }) {
            if !r.ctx.mine() {
                continue;
            }
            let mut texts = around(&lab, e, &d);
            let cap = if deep { 4000 } else { 900 };
            let k = 1 + texts.len() / cap;
            texts = texts.into_iter().step_by(k).collect();
            groups += 1;
            largest = largest.max(texts.len());
            r.group(e, &texts, false);
        }
        r.ctx.phase("neighbourhoods");
        // the whole corpus
        let mut st = Stat::default();
        let per = if deep { 2500 } else { 500 };
        let mut docs: Vec<String> = corpus(&lab, e.nt, per / 4).iter().map(|d| render(d).0).collect();
        if lab.g.nts.contains_key(e.nt) {
            docs.extend(first(&lab.g, e.nt, per, &mut st).iter().map(|s| render(&lab.pool.same(&s.tk)).0));
        }
        r.group(e, &docs, true);
        r.ctx.phase("corpus");
    }
    r.ctx.notes.insert("largest neighbourhood".into(), largest.to_string());
    let _ = groups;
    // every value twice from the same text
    // wrappers, hashes, orders
    if r.ctx.mine() {
        r.ctx.add("traces", 1);
        for (k, m) in hashes::hashes() {
            r.ctx.violation(Case::new("equal-hash", &[("values", k)]), m);
        }
    }
    if r.ctx.mine() {
        r.ctx.add("traces", 1);
        for (k, m) in cross(&lab, deep) {
            r.ctx.violation(Case::new("equal-cross", &[("values", k), ("~tier", deep.to_string())]), m);
        }
    }
    r.ctx.phase("wrappers, hashes, orders");
    super::build::equality(r.ctx);
    r.ctx.phase("constructed values");
}
pub fn one(c: &Case) -> Option<String> {
    match c.kind.as_str() {
        "equal" => {
            let e = entries().into_iter().find(|e| e.nt == c.get("entry")).expect("entry");
            let (a, b) = (value(&e, c.get("a"))?, value(&e, c.get("b"))?);
            pair(&a, &b).or_else(|| copies(&a)).or_else(|| copies(&b))
        }
        "equal-hash" => hashes::hashes().into_iter().find(|b| b.0 == c.get("values")).map(|b| b.1),
        "equal-cross" => cross(&Lab::new(), c.get("~tier") == "true").into_iter().find(|b| b.0 == c.get("values")).map(|b| b.1),
        _ => None,
    }
}
