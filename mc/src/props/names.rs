//! C15: names. States are histories of name creations, each run from the pristine intern table in a process of its own.
use crate::ctx::{esc, hash, unesc, Case, Ctx};
use crate::fork::in_child;
#[cfg(feature = "parser")]
use pddl::parsers;
use pddl::*;
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

/// Whether equal names must share one stored string.
fn sharing() -> bool {
    cfg!(feature = "interning") && !SHARING_OFF.load(std::sync::atomic::Ordering::Relaxed)
}
/// Set when configurations are compared: sharing is not a result.
pub static SHARING_OFF: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);


/// The ways to obtain a name from a text; the second one is not a creation at run time.
const CTORS: [&str; 11] = [
    "Name::new(&str)", "Name::new_static", "Name::new(String)", "Name::from(Cow)", "parse_name", "parse_variable", "Predicate::from_str", "PrimitiveType::from", "clone", "Name::from(Box<str>)", "parse_atomic_formula",
];
const STATIC: u8 = 1;

fn parsable(t: &str) -> bool {
    let b = t.as_bytes();
    !b.is_empty() && b[0].is_ascii_alphabetic() && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_')
}
fn leak(t: &str) -> &'static str {
    Box::leak(t.to_string().into_boxed_str())
}
fn make(c: u8, t: &str) -> Name {
    match c {
        1 => Name::new_static(leak(t)),
        2 => Name::new(t.to_string()),
        3 => Name::from(Cow::Borrowed(t)),
        #[cfg(feature = "parser")]
        4 if parsable(t) => parsers::parse_name(t).expect("a name").1,
        #[cfg(feature = "parser")]
        5 if parsable(t) => {
            let s = format!("?{}", t);
            let v = parsers::parse_variable(s.as_str()).expect("a variable").1;
            (*v).clone()
        }
        6 => (*Predicate::from_str(t)).clone(),
        7 => {
            let p = PrimitiveType::from(t);
            let s: &str = p.as_ref();
            assert_eq!(s, t, "text of a primitive type");
            Name::new(t)
        }
        8 => {
            let a = Name::new(t);
            let b = a.clone();
            drop(a);
            b
        }
        9 => Name::from(t.to_string().into_boxed_str()),
        #[cfg(feature = "parser")]
        10 if parsable(t) => {
            let s = format!("({} {})", t, t);
            let f = parsers::atomic_formula(parsers::parse_name)(parsers::Span::new(s.as_str())).expect("a formula").1;
            match f {
                AtomicFormula::Predicate(p) => p.values()[0].clone(),
                _ => Name::new(t),
            }
        }
        _ => Name::new(t),
    }
}
fn h(n: &Name) -> u64 {
    let mut s = DefaultHasher::new();
    n.hash(&mut s);
    s.finish()
}
fn ptr(n: &Name) -> usize {
    let s: &str = n.as_ref();
    s.as_ptr() as usize
}
/// One operation of a history.
#[derive(Clone, PartialEq, Eq, Hash)]
enum Op<'t> {
    Make(u8, &'t str),
    /// forget the oldest name still held
    Drop,
}
fn read(n: &Name, t: &str, what: &str) -> Option<String> {
    let s: &str = n.as_ref();
    if s != t {
        return Some(format!("{} of {:?} reads back as {:?}", what, t, s));
    }
    let d: &str = n;
    let ok = d == t && *n == *t && *n == t && *n == t.to_string() && n.len() == t.chars().count() && n.is_empty() == t.is_empty() && d.to_string() == t;
    if ok {
        None
    } else {
        Some(format!("{} of {:?}: deref {:?}, len {}, is_empty {}, == str {}, == &str {}, == String {}", what, t, d, n.len(), n.is_empty(), *n == *t, *n == t, *n == t.to_string()))
    }
}
fn against(a: &Name, ta: &str, b: &Name, tb: &str) -> Option<String> {
    let same = ta == tb;
    let sb: &str = b.as_ref();
    if (a == b) != same || (b == a) != same || (a != b) == same || (*a == *tb) != same || (*a == tb) != same || (*a == tb.to_string()) != same || (*a == *sb) != same {
        return Some(format!("names of {:?} and {:?}: == {} / {}, != {}, == str {}, == &str {}, == String {}", ta, tb, a == b, b == a, a != b, *a == *tb, *a == tb, *a == tb.to_string()));
    }
    if same && h(a) != h(b) {
        return Some(format!("equal names of {:?} hash differently", ta));
    }
    None
}
/// Runs a history in this process; every name is compared with every other after it is made and at the end.
fn history(ops: &[Op], universe: &[&str]) -> Option<String> {
    let mut held: Vec<(Name, u8, &str, usize)> = vec![];
    for op in ops {
        match op {
            Op::Drop => {
                if !held.is_empty() {
                    held.remove(0);
                }
            }
            Op::Make(c, t) => {
                let n = make(*c, t);
                if let Some(m) = read(&n, t, CTORS[*c as usize]) {
                    return Some(m);
                }
                for (o, oc, ot, _) in &held {
                    if let Some(m) = against(&n, t, o, ot) {
                        return Some(m);
                    }
                    if sharing() && t == ot && *c != STATIC && *oc != STATIC && !t.is_empty() && ptr(&n) != ptr(o) {
                        return Some(format!("equal names of {:?} made at run time ({}, {}) do not share their stored string", t, CTORS[*oc as usize], CTORS[*c as usize]));
                    }
                }
                let p = ptr(&n);
                held.push((n, *c, t, p));
            }
        }
    }
    for (n, c, t, p) in &held {
        if let Some(m) = read(n, t, CTORS[*c as usize]) {
            return Some(format!("at the end: {}", m));
        }
        if ptr(n) != *p {
            return Some(format!("the stored string of the name of {:?} moved", t));
        }
    }
    for (i, a) in held.iter().enumerate() {
        for b in &held[i..] {
            if let Some(m) = against(&a.0, a.2, &b.0, b.2) {
                return Some(format!("at the end: {}", m));
            }
        }
    }
    let set: HashSet<&Name> = held.iter().map(|x| &x.0).collect();
    let texts: HashSet<&str> = held.iter().map(|x| x.2).collect();
    if set.len() != texts.len() {
        return Some(format!("a set of the names has {} elements, of the texts {}", set.len(), texts.len()));
    }
    // and every text of the alphabet again
    for u in universe {
        let n = Name::new(*u);
        if let Some(m) = read(&n, u, "Name::new afterwards") {
            return Some(m);
        }
        if set.contains(&n) != texts.contains(u) {
            return Some(format!("the set of names contains {:?}: {}", u, set.contains(&n)));
        }
        for (o, oc, ot, _) in &held {
            if let Some(m) = against(&n, u, o, ot) {
                return Some(format!("afterwards: {}", m));
            }
            if sharing() && u == ot && *oc != STATIC && !u.is_empty() && ptr(&n) != ptr(o) {
                return Some(format!("a later name of {:?} does not share the string of the one made by {}", u, CTORS[*oc as usize]));
            }
        }
    }
    None
}
fn encode(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Drop => "drop".to_string(),
            Op::Make(c, t) => format!("{}:{}", c, esc(t)),
        })
        .collect::<Vec<_>>()
        .join(";")
}
fn check(ctx: &mut Ctx, ops: &[Op], universe: &[&str]) {
    if !ctx.mine() {
        return;
    }
    ctx.add("traces", 1);
    ctx.add("states_extra", 1);
    ctx.add("transitions", ops.len() as u64);
    let e = encode(ops);
    let c = Case::new("names", &[("history", e.clone()), ("~universe", universe.iter().map(|u| esc(u)).collect::<Vec<_>>().join(";"))]);
    ctx.in_flight(&c);
    ctx.sample(|| e);
    if let Some(m) = in_child(|| history(ops, universe)) {
        ctx.violation(c, m);
    }
}
/// Texts in the relations that matter to a table of strings: case, prefixes, anagrams, equal lengths, well-known ones.
const TEXTS: [&str; 44] = [
    "a", "b", "A", "B", "aa", "ab", "ba", "aA", "Aa", "abc", "acb", "a-b", "a_b", "a1", "1a", "object", "number", "Object", "NUMBER", "objec", "objects", "numbe", "number1", "", "é", "É", "e\u{301}", "ab ", " ab", "a b", "zz",
    "z", "name", "name1", "name10", "name2", "x", "X", "-", "_", "ß", "ss", "start", "all",
];

/// The families of long histories: the i-th text of n.
const FAMILIES: [&str; 12] =
    ["up", "down", "zigzag", "bit-reversed", "multiples", "padded", "prefixes", "suffixes", "long-shared-prefix", "case-variants", "non-ascii", "lengths"];
fn text_of(fam: &str, i: usize, n: usize) -> String {
    match fam {
        "up" | "padded" => format!("n{:07}", i),
        "down" => format!("n{:07}", n - 1 - i),
        "zigzag" => format!("n{:07}", if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }),
        "bit-reversed" => format!("n{}", (i as u32).reverse_bits()),
        "multiples" => format!("n{}", (i as u64 * 7919) % 1_000_003),
        "prefixes" => "a".repeat(1 + i % 4000) + if i >= 4000 { "b" } else { "" },
        "suffixes" => format!("{}z", "q".repeat(i % 4000)) + if i >= 4000 { "b" } else { "" },
        "long-shared-prefix" => format!("{}{:05}{}", "p".repeat(200), i, "s".repeat(50)),
        "case-variants" => (0..14).map(|k| if i >> k & 1 == 1 { (b'A' + k as u8) as char } else { (b'a' + k as u8) as char }).collect(),
        "non-ascii" => format!("{}é{}", char::from_u32(0x100 + (i % 0x500) as u32).unwrap(), i / 0x500),
        _ => format!("{}{}", "x".repeat(i % 97), i),
    }
}
fn long(fam: &str, n: usize, again: usize) -> Option<String> {
    let texts: Vec<String> = (0..n).map(|i| text_of(fam, i, n)).collect();
    let distinct: HashSet<&str> = texts.iter().map(|t| t.as_str()).collect();
    let ctor = |i: usize| [0u8, 2, 4, 3, 10][i % 5];
    let names: Vec<Name> = texts.iter().enumerate().map(|(i, t)| make(ctor(i), t)).collect();
    let check = |when: &str| -> Option<String> {
        for (n, t) in names.iter().zip(&texts) {
            if let Some(m) = read(n, t, when) {
                return Some(m);
            }
        }
        None
    };
    if let Some(m) = check("after all were made, the name") {
        return Some(m);
    }
    let set: HashSet<&Name> = names.iter().collect();
    if set.len() != distinct.len() {
        return Some(format!("{} distinct texts gave {} distinct names", distinct.len(), set.len()));
    }
    // neighbours in the order of the texts are the ones a table can confuse
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|a, b| texts[*a].cmp(&texts[*b]));
    for w in order.windows(2) {
        if let Some(m) = against(&names[w[0]], &texts[w[0]], &names[w[1]], &texts[w[1]]) {
            return Some(m);
        }
    }
    for r in 0..again {
        for k in 0..n {
            let i = if r % 2 == 0 { k } else { n - 1 - k };
            let t = &texts[i];
            let x = make(ctor(i + r + 1), t);
            if let Some(m) = against(&x, t, &names[i], t).or_else(|| read(&x, t, "made again, the name")) {
                return Some(m);
            }
            if sharing() && !t.is_empty() && ptr(&x) != ptr(&names[i]) {
                return Some(format!("the name of {:?} made again (round {}) does not share the string of the first", t, r));
            }
        }
    }
    check("at the end, the name")
}
fn check_long(ctx: &mut Ctx, fam: &str, n: usize, again: usize) {
    if !ctx.mine() {
        return;
    }
    ctx.add("traces", 1);
    ctx.add("states_extra", 1);
    ctx.add("transitions", (n * (1 + again)) as u64);
    let c = Case::new("names-long", &[("family", fam.to_string()), ("n", n.to_string()), ("again", again.to_string())]);
    ctx.in_flight(&c);
    if let Some(m) = in_child(|| long(fam, n, again)) {
        ctx.violation(c, m);
    }
}
/// Texts of one length that differ in a single place.
fn places(len: usize, kind: usize) -> Option<String> {
    let base: Vec<char> = "a".repeat(len).chars().collect();
    let alt = ['b', 'A', '-', 'é'][kind];
    let b: String = base.iter().collect();
    let nb = Name::new(b.as_str());
    let mut all = vec![];
    for i in 0..len {
        let mut v = base.clone();
        v[i] = alt;
        let t: String = v.into_iter().collect();
        let n = Name::new(t.as_str());
        if let Some(m) = read(&n, &t, "the name").or_else(|| against(&n, &t, &nb, &b)) {
            return Some(m);
        }
        all.push((n, t));
    }
    for (i, (n, t)) in all.iter().enumerate() {
        if let Some(m) = read(n, t, "later, the name") {
            return Some(m);
        }
        for (o, u) in &all[i..] {
            if let Some(m) = against(n, t, o, u) {
                return Some(m);
            }
        }
    }
    read(&nb, &b, "later, the first name")
}
/// The wrapper types compare as their texts, too.
fn wrappers(a: &str, b: &str) -> Option<String> {
    macro_rules! w {
        ($($t:ident),*) => {$(
            let (x, y, z) = ($t::from(a), $t::from(b), $t::from(Name::new_static(leak(b))));
            let same = a == b;
            if (x == y) != same || (y == x) != same || (x == z) != same || (x.clone() == y) != same || y != z {
                return Some(format!("{} of {:?} and {:?}: == {}", stringify!($t), a, b, x == y));
            }
        )*};
    }
    w!(ActionSymbol, DurativeActionSymbol, FunctionSymbol, Predicate, PreferenceName, PrimitiveType, Variable);
    None
}

fn each(k: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
    let mut v = vec![0; n];
    loop {
        f(&v);
        let mut i = 0;
        loop {
            if i == n {
                return;
            }
            v[i] += 1;
            if v[i] < k {
                break;
            }
            v[i] = 0;
            i += 1;
        }
    }
}
fn arrangements(k: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(v: &mut Vec<usize>, k: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
        if v.len() == n {
            return f(v);
        }
        for i in 0..k {
            if !v.contains(&i) {
                v.push(i);
                go(v, k, n, f);
                v.pop();
            }
        }
    }
    go(&mut vec![], k, n, f)
}

/// All short texts over a few characters.
fn words(deep: bool, rev: bool) -> Vec<String> {
    let chars = ["a", "A", "b", "-", "é", "1"];
    let mut w: Vec<String> = vec![];
    for n in 0..=(if deep { 4 } else { 3 }) {
        each(chars.len(), n, &mut |v| w.push(v.iter().map(|i| chars[*i]).collect()));
    }
    if rev {
        w.reverse();
    }
    w
}
fn all_words(deep: bool, rev: bool) -> Option<String> {
    let w = words(deep, rev);
    let w: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
    history(&w.iter().map(|t| Op::Make(0, t)).collect::<Vec<_>>(), &w)
}

pub fn run(ctx: &mut Ctx) {
    let deep = ctx.thorough;
    // all histories to a depth over a small alphabet of operations
    let small = ["a", "b", "A", "ab", "object"];
    let mut ops: Vec<Op> = vec![];
    for t in small {
        for c in [0u8, 1, 4] {
            ops.push(Op::Make(c, t));
        }
    }
    ops.push(Op::Drop);
    let depth = if deep { 5 } else { 4 };
    for n in 1..=depth {
        each(ops.len(), n, &mut |v| {
            let o: Vec<Op> = v.iter().map(|i| ops[*i].clone()).collect();
            check(ctx, &o, &small);
        });
    }
    // all arrangements: every order in which distinct texts can enter the table
    let (k, n) = if deep { (12, 5) } else { (12, 4) };
    let pick: Vec<&str> = ["ab", "a", "ba", "A", "b", "aa", "B", "abc", "object", "é", "a-b", "z"].into_iter().take(k).collect();
    arrangements(k, n, &mut |v| {
        let o: Vec<Op> = v.iter().map(|i| Op::Make(0, pick[*i])).collect();
        check(ctx, &o, &pick);
    });
    if deep {
        let p7 = ["ab", "a", "B", "aa", "abc", "object", "z"];
        arrangements(7, 7, &mut |v| {
            let o: Vec<Op> = v.iter().map(|i| Op::Make(0, p7[*i])).collect();
            check(ctx, &o, &p7);
        });
    }
    // all ordered pairs of texts through all pairs of constructors
    let nt = if deep { TEXTS.len() } else { 22 };
    let cs: Vec<u8> = if deep { (0..CTORS.len() as u8).collect() } else { vec![0, 1, 2, 4, 10] };
    for a in &TEXTS[..nt] {
        for b in &TEXTS[..nt] {
            for ca in &cs {
                for cb in &cs {
                    check(ctx, &[Op::Make(*ca, a), Op::Make(*cb, b)], &[a, b]);
                }
            }
        }
    }
    // all ordered pairs of all texts, every constructor of each, in one history
    for a in &TEXTS {
        for b in &TEXTS {
            let mut o = vec![];
            for c in 0..CTORS.len() as u8 {
                o.push(Op::Make(c, a));
                o.push(Op::Make(c, b));
            }
            check(ctx, &o, &[a, b]);
            if ctx.mine() {
                ctx.add("traces", 1);
                let c = Case::new("names-wrappers", &[("a", a.to_string()), ("b", b.to_string())]);
                ctx.in_flight(&c);
                if let Some(m) = in_child(|| wrappers(a, b)) {
                    ctx.violation(c, m);
                }
            }
        }
    }
    // all short texts over a small set of characters, all in one history, in two orders
    for rev in [false, true] {
        if !ctx.mine() {
            continue;
        }
        ctx.add("traces", 1);
        ctx.add("transitions", words(deep, rev).len().pow(2) as u64);
        let c = Case::new("names-words", &[("reversed", rev.to_string()), ("~tier", deep.to_string())]);
        ctx.in_flight(&c);
        if let Some(m) = in_child(|| all_words(deep, rev)) {
            ctx.violation(c, m);
        }
    }
    // one place of difference, at every place of every length
    let mut lens: Vec<usize> = (1..=80).chain([100, 127, 128, 129, 200, 255, 256, 257, 300]).collect();
    if deep {
        lens.extend([511, 512, 513, 1000]);
    }
    for l in &lens {
        for kind in 0..4 {
            if !ctx.mine() {
                continue;
            }
            ctx.add("traces", 1);
            ctx.add("states_extra", 1);
            ctx.add("transitions", (l * l) as u64);
            let c = Case::new("names-places", &[("length", l.to_string()), ("kind", kind.to_string())]);
            ctx.in_flight(&c);
            if let Some(m) = in_child(|| places(*l, kind)) {
                ctx.violation(c, m);
            }
        }
    }
    // long histories
    let mut sizes = vec![2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097];
    if deep {
        sizes.extend([8191, 8192, 8193, 10_000, 20_000, 32_768, 32_769, 65_536, 65_537, 70_000]);
    } else {
        sizes.extend([9000]);
    }
    for f in FAMILIES {
        for n in &sizes {
            check_long(ctx, f, *n, 2);
        }
    }
    ctx.notes.insert("operations".into(), format!("{} (constructors new, new_static, parse_name on 5 texts; drop)", ops.len()));
    ctx.notes.insert("depth".into(), depth.to_string());
    ctx.notes.insert("longest history".into(), sizes.iter().max().unwrap().to_string());
    ctx.outcomes.insert(hash("ok"));
}
pub fn one(c: &Case) -> Option<String> {
    let num = |k: &str| c.get(k).parse().unwrap_or(0usize);
    match c.kind.as_str() {
        "names" => {
            let texts: Vec<(u8, String)> = c
                .get("history")
                .split(';')
                .map(|o| match o.split_once(':') {
                    Some((k, t)) => (k.parse().unwrap_or(0), unesc(t)),
                    None => (255, String::new()),
                })
                .collect();
            let u: Vec<String> = c.get("~universe").split(';').map(unesc).collect();
            let u: Vec<&str> = u.iter().map(|s| s.as_str()).collect();
            let ops: Vec<Op> = texts.iter().map(|(k, t)| if *k == 255 { Op::Drop } else { Op::Make(*k, t) }).collect();
            in_child(|| history(&ops, &u))
        }
        "names-long" => {
            let f = FAMILIES.iter().find(|f| **f == c.get("family")).expect("family");
            in_child(|| long(f, num("n"), num("again")))
        }
        "names-places" => in_child(|| places(num("length"), num("kind"))),
        "names-wrappers" => in_child(|| wrappers(c.get("a"), c.get("b"))),
        "names-words" => in_child(|| all_words(c.get("~tier") == "true", c.get("reversed") == "true")),
        _ => None,
    }
}
