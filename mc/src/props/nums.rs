//! C14: numbers. States are literals, bit patterns, integers and pairs of values.
use crate::ctx::{guard, hash, Case, Ctx};
use crate::entries::{entries, Entry, Out};
use crate::t::T;
use pddl::Number;
use std::cmp::Ordering;
use std::str::FromStr;

const FRAMES: [(&str, &str, &str); 11] = [
    ("number", "", ""),
    ("f-exp", "", ""),
    ("f-exp", "(- ", ")"),
    ("d-value", "", ""),
    ("init-el", "(= x ", ")"),
    ("init-el", "(at ", " (p))"),
    ("metric-f-exp", "(* x ", ")"),
    ("con-gd", "(within ", " (always (p)))"),
    ("f-exp-da", "", ""),
    ("p-effect", "(increase (f) ", ")"),
    ("gd", "(> ", " (f))"),
];
/// Value of the only number in a term.
fn only(t: &T, out: &mut Vec<u32>) {
    match t {
        T::F(b) => out.push(*b),
        T::N(_, k) => k.iter().for_each(|x| only(x, out)),
        _ => {}
    }
}
/// Length of the longest prefix `digit+ [. digit+]`.
fn literal_prefix(s: &str) -> usize {
    let d = |s: &str| s.bytes().take_while(|b| b.is_ascii_digit()).count();
    let i = d(s);
    if i == 0 || !s[i..].starts_with('.') {
        return i;
    }
    let f = d(&s[i + 1..]);
    if f == 0 {
        i
    } else {
        i + 1 + f
    }
}
/// One literal, read by itself: the value, the refusal and the amount consumed.
fn bare(e: &Entry, s: &str) -> Option<String> {
    let k = literal_prefix(s);
    // `str::parse` rounds correctly; the halfway literals below check it against exact values
    let want = if k == 0 { None } else { s[..k].parse::<f32>().ok().filter(|v| v.is_finite()) };
    match (want, guard(|| (e.free)(s))) {
        (_, Err(p)) => Some(format!("panicked: {}", p)),
        (None, Ok(Out::Err)) => None,
        (None, Ok(o)) => Some(format!("must be refused, but gives {:?}", o)),
        (Some(v), Ok(Out::Err)) => Some(format!("must be {}, but was refused", v)),
        (Some(v), Ok(Out::Ok { tree, offset, .. })) => {
            if tree != crate::t::f(v) {
                return Some(format!("must be {} (bits {:08x}), but is {}", v, v.to_bits(), tree));
            }
            if offset != k {
                return Some(format!("the literal has {} bytes, but {} were consumed", k, offset));
            }
            None
        }
    }
}
/// One whole literal in a construct.
fn framed(e: &Entry, a: &str, lit: &str, b: &str, want: Option<f32>) -> Option<String> {
    let text = format!("{}{}{}", a, lit, b);
    match (want, guard(|| (e.free)(&text))) {
        (_, Err(p)) => Some(format!("panicked: {}", p)),
        (None, Ok(Out::Err)) => None,
        (None, Ok(o)) => Some(format!("must be refused, but gives {:?}", o)),
        (Some(v), Ok(Out::Err)) => Some(format!("must hold {}, but was refused", v)),
        (Some(v), Ok(Out::Ok { tree, .. })) => {
            let mut f = vec![];
            only(&tree, &mut f);
            if f != vec![if v == 0.0 { 0 } else { v.to_bits() }] {
                return Some(format!("must hold {} (bits {:08x}), but is {}", v, v.to_bits(), tree));
            }
            None
        }
    }
}
fn std_hash<H: std::hash::Hash>(x: &H) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// One bit pattern through construction, reading back, printing and re-reading.
fn bits(b: u32, text: bool) -> Option<String> {
    let v = f32::from_bits(b);
    let r = Number::try_new(v);
    if r.is_ok() != v.is_finite() {
        return Some(format!("try_new({}) is {:?}", v, r));
    }
    let n = match r {
        Err(_) => return None,
        Ok(n) => n,
    };
    if n.to_bits() != b {
        return Some(format!("try_new({}) holds {}", v, *n));
    }
    for (w, m) in [("new", guard(|| Number::new(v))), ("from f32", guard(|| Number::from(v))), ("from f64", guard(|| Number::from(v as f64)))] {
        match m {
            Ok(m) if *m == v && m == n && m.cmp(&n) == Ordering::Equal => {}
            x => return Some(format!("{} of {} gives {:?}", w, v, x)),
        }
    }
    if n != v || n.clone() != n {
        return Some(format!("{} differs from itself", v));
    }
    if !text {
        return None;
    }
    let s = format!("{}", *n);
    match Number::from_str(&s) {
        Ok(m) if m == n && *m == v => {}
        x => return Some(format!("{} prints as {} and reads back as {:?}", v, s, x)),
    }
    if !s.starts_with('-') {
        match pddl::parsers::parse_number(s.as_str()) {
            Ok((r, m)) if m == n && r.fragment().is_empty() => {}
            x => return Some(format!("{} prints as {} and parses back as {:?}", v, s, x)),
        }
    }
    None
}
fn pair(a: f32, b: f32) -> Option<String> {
    let r = guard(|| {
        let (x, y) = (Number::new(a), Number::new(b));
        let want = a.partial_cmp(&b).unwrap();
        let mut bad = vec![];
        if (x == y) != (a == b) {
            bad.push("==");
        }
        if (x != y) != (a != b) {
            bad.push("!=");
        }
        if x.cmp(&y) != want {
            bad.push("cmp");
        }
        if x.partial_cmp(&y) != Some(want) {
            bad.push("partial_cmp");
        }
        if (x < y) != (a < b) || (x > y) != (a > b) || (x <= y) != (a <= b) || (x >= y) != (a >= b) {
            bad.push("<");
        }
        if (x == b) != (a == b) || (x == b as f64) != (a == b) {
            bad.push("== float");
        }
        if a == b && (std_hash(&x) != std_hash(&y) || hash(&x) != hash(&y)) {
            bad.push("hash");
        }
        if *x.max(y) != a.max(b) || *x.min(y) != a.min(b) {
            bad.push("max");
        }
        bad.join(", ")
    });
    match r {
        Err(p) => Some(format!("comparing {} and {} panicked: {}", a, b, p)),
        Ok(s) if s.is_empty() => None,
        Ok(s) => Some(format!("{} and {} (bits {:08x} {:08x}) disagree with the numeric order in {}", a, b, a.to_bits(), b.to_bits(), s)),
    }
}
/// The nearest 32-bit float, found by exact comparison of distances; ties go to the even one.
fn nearest_int(v: i64) -> f32 {
    let c = v as f32;
    let mut best = c;
    for k in [-1i32, 1] {
        let d = f32::from_bits((c.to_bits() as i32 + k) as u32);
        if d.is_finite() {
            let (x, y) = ((d as f64 - v as f64).abs(), (best as f64 - v as f64).abs());
            if x < y || (x == y && d.to_bits() & 1 == 0 && best.to_bits() & 1 == 1) {
                best = d;
            }
        }
    }
    best
}
fn int(ty: &str, v: i64) -> Option<String> {
    let want = nearest_int(v);
    let r = guard(|| {
        let n = match ty {
            "i8" => Number::from(v as i8),
            "u8" => Number::from(v as u8),
            "i16" => Number::from(v as i16),
            "u16" => Number::from(v as u16),
            "i32" => Number::from(v as i32),
            _ => Number::from(v as u32),
        };
        let eq = match ty {
            "i8" => n == v as i8,
            "u8" => n == v as u8,
            "i16" => n == v as i16,
            "u16" => n == v as u16,
            "i32" => n == v as i32,
            _ => n == v as u32,
        };
        (n, eq)
    });
    match r {
        Err(p) => Some(format!("panicked: {}", p)),
        Ok((n, eq)) => {
            if *n != want || !eq {
                Some(format!("{}{} gives {} (compares equal: {}), nearest is {}", v, ty, *n, eq, want))
            } else {
                None
            }
        }
    }
}
fn double(v: f64) -> Option<String> {
    let want = v as f32;
    match guard(|| Number::from(v)) {
        Ok(n) => {
            if !n.is_finite() {
                Some(format!("from({:e}) gives the non-finite {}", v, *n))
            } else if *n != want {
                Some(format!("from({:e}) gives {}, nearest is {}", v, *n, want))
            } else {
                None
            }
        }
        Err(_) if want.is_finite() => Some(format!("from({:e}) panics", v)),
        Err(_) => None,
    }
}
fn string(s: &str) -> Option<String> {
    let want = s.parse::<f32>().ok().filter(|v| v.is_finite());
    match (want, guard(|| Number::from_str(s))) {
        (_, Err(p)) => Some(format!("from_str({:?}) panicked: {}", s, p)),
        (Some(v), Ok(Ok(n))) if *n == v => None,
        (None, Ok(Err(_))) => None,
        (w, Ok(r)) => Some(format!("from_str({:?}) gives {:?}, must be {:?}", s, r, w)),
    }
}

struct Go {
    ents: Vec<Entry>,
}
impl Go {
    fn run(&self, ctx: &mut Ctx, tag: &str, f: &[(&str, String)]) {
        ctx.add("generated", 1);
        let c = Case::new("num", &[&[("what", tag.to_string())], f].concat());
        if !ctx.fresh(hash(&c.fields)) {
            return;
        }
        ctx.in_flight(&c);
        ctx.add("traces", 1);
        ctx.add(tag, 1);
        ctx.sample(|| c.key());
        if let Some(m) = self.one(&c) {
            ctx.violation(c, m);
        }
    }
    fn ent(&self, nt: &str) -> &Entry {
        self.ents.iter().find(|e| e.nt == nt).unwrap()
    }
    fn one(&self, c: &Case) -> Option<String> {
        let hex = |k: &str| u32::from_str_radix(c.get(k), 16).unwrap();
        match c.get("what") {
            "bare" => bare(self.ent("number"), c.get("text")),
            "framed" => {
                let i: usize = c.get("frame").parse().unwrap();
                let (nt, a, b) = FRAMES[i];
                let want = if c.get("bits").is_empty() { None } else { Some(f32::from_bits(hex("bits"))) };
                framed(self.ent(nt), a, c.get("text"), b, want)
            }
            "bits" => bits(hex("bits"), true),
            "pair" => pair(f32::from_bits(hex("a")), f32::from_bits(hex("b"))),
            "int" => int(c.get("type"), c.get("value").parse().unwrap()),
            "double" => double(f64::from_bits(u64::from_str_radix(c.get("bits"), 16).unwrap())),
            "string" => string(c.get("text")),
            k => panic!("unknown {}", k),
        }
    }
    fn lit(&self, ctx: &mut Ctx, s: &str, want: Option<f32>, frames: bool) {
        self.run(ctx, "bare", &[("text", s.to_string())]);
        for i in 0..if frames { FRAMES.len() } else { 1 } {
            let b = want.map_or(String::new(), |v| format!("{:08x}", v.to_bits()));
            self.run(ctx, "framed", &[("frame", i.to_string()), ("text", s.to_string()), ("bits", b)]);
        }
    }
}
pub fn one(c: &Case) -> Option<String> {
    Go { ents: entries() }.one(c)
}
fn mantissas() -> Vec<u32> {
    let mut v: Vec<u32> = (0..20).chain((1 << 23) - 20..1 << 23).collect();
    for k in 1..23 {
        v.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend([0x555555, 0x2aaaaa, 0x400001, 0x3fffff, 0x123456, 0x7ffffe]);
    v.retain(|m| *m < 1 << 23);
    v.sort();
    v.dedup();
    v
}
/// Exact decimal text of a finite double.
fn exact(v: f64) -> String {
    let s = format!("{:.1100}", v);
    let t = s.trim_end_matches('0');
    t.trim_end_matches('.').to_string()
}

pub fn run(ctx: &mut Ctx) {
    let go = Go { ents: entries() };
    let want = |s: &str| {
        if s.is_empty() || literal_prefix(s) != s.len() {
            None
        } else {
            s.parse::<f32>().ok().filter(|v| v.is_finite())
        }
    };
    // all short literals and near-literals
    let alpha = ['0', '1', '5', '9', '.'];
    for len in 1..=if ctx.thorough { 9u32 } else { 8 } {
        for mut k in 0..alpha.len().pow(len) {
            let mut s = String::new();
            for _ in 0..len {
                s.push(alpha[k % 5]);
                k /= 5;
            }
            let w = want(&s);
            if w.is_some() {
                go.lit(ctx, &s, w, len <= 5);
            } else {
                go.run(ctx, "bare", &[("text", s)]);
            }
        }
    }
    for i in 0..if ctx.thorough { 3_000_000u32 } else { 500_000 } {
        let s = i.to_string();
        go.lit(ctx, &s, Some(nearest_int(i as i64)), i % 1000 < 2);
    }
    for t in ["1a", "1e5", "1E5", "1.e5", "1.5e5", "1.5e-5", "1e", "1.5e+", "-1", "+1", ".5", "5.", "1..5", "1.5.5", "1_000", "0x10", "inf", "nan", "1,5", "1 5", "1f", "1f32"] {
        go.run(ctx, "bare", &[("text", t.into())]);
    }
    // digit counts
    let top = if ctx.thorough { 700 } else { 120 };
    for k in 1..=top {
        for d in ["1", "9", "5", "0"] {
            for s in [d.repeat(k), format!("0.{}", d.repeat(k)), format!("0.{}{}", "0".repeat(k), d), format!("{}.{}", d.repeat(k), d.repeat(k)), format!("{}{}", "0".repeat(k), d)] {
                let w = want(&s);
                go.lit(ctx, &s, w, true);
            }
        }
    }
    // the literals exactly halfway between neighbouring floats, and next to halfway
    let ms = mantissas();
    for exp in 0..255u32 {
        for (i, &m) in ms.iter().enumerate() {
            if !ctx.thorough && (i as u32 + exp) % 3 != 0 {
                continue;
            }
            let b = exp << 23 | m;
            let (lo, hi) = (f32::from_bits(b), f32::from_bits(b + 1));
            let hi64 = if hi.is_finite() { hi as f64 } else { 2f64.powi(128) };
            let mid = exact((lo as f64 + hi64) / 2.0);
            let fin = |v: f32| if v.is_finite() { Some(v) } else { None };
            go.lit(ctx, &mid, if b & 1 == 0 { Some(lo) } else { fin(hi) }, false);
            let dot = if mid.contains('.') { "" } else { "." };
            go.lit(ctx, &format!("{}{}0001", mid, dot), fin(hi), false);
            // just below: last non-zero digit decreased, nines appended
            let mut below = mid.clone().into_bytes();
            if let Some(p) = below.iter().rposition(|c| (b'1'..=b'9').contains(c)) {
                below[p] -= 1;
                for c in &mut below[p + 1..] {
                    if *c == b'0' {
                        *c = b'9';
                    }
                }
                let s = format!("{}{}9999", String::from_utf8(below).unwrap(), dot);
                go.lit(ctx, &s, Some(lo), false);
            }
            go.lit(ctx, &exact(lo as f64), Some(lo), false);
        }
    }
    // bit patterns
    for exp in 0..256u32 {
        for &m in &ms {
            for sign in [0, 1u32 << 31] {
                go.run(ctx, "bits", &[("bits", format!("{:08x}", sign | exp << 23 | m))]);
            }
        }
    }
    // pairs
    let mut vals: Vec<f32> = vec![0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, f32::MIN_POSITIVE, f32::MAX, f32::MIN, f32::EPSILON, 16777216.0, 16777217.0, 1.0 + f32::EPSILON];
    for exp in (0..255u32).step_by(if ctx.thorough { 2 } else { 5 }) {
        for m in [0, 1, 2, 0x3fffff, 0x400000, 0x7ffffe, 0x7fffff] {
            for s in [0, 1u32 << 31] {
                vals.push(f32::from_bits(s | exp << 23 | m));
            }
        }
    }
    for i in -40..40 {
        vals.push(i as f32 * 0.5);
    }
    for a in &vals {
        for b in &vals {
            go.run(ctx, "pair", &[("a", format!("{:08x}", a.to_bits())), ("b", format!("{:08x}", b.to_bits()))]);
        }
    }
    // integers
    for (ty, lo, hi) in [("i8", -128i64, 127i64), ("u8", 0, 255), ("i16", -32768, 32767), ("u16", 0, 65535)] {
        for v in lo..=hi {
            go.run(ctx, "int", &[("type", ty.into()), ("value", v.to_string())]);
        }
    }
    for (ty, lo, hi) in [("i32", i32::MIN as i64, i32::MAX as i64), ("u32", 0, u32::MAX as i64)] {
        let mut vs = vec![lo, hi];
        for k in 0..33 {
            for d in -65..=65i64 {
                vs.push((1i64 << k) + d);
                vs.push(-(1i64 << k) + d);
            }
            if k >= 24 {
                // around the ties of this binade
                let h = 1i64 << (k - 24);
                for j in [1, 3, 5, 12345, 16777215 - 2] {
                    for d in -1..=1 {
                        vs.push((1i64 << k) + j * h + d);
                        vs.push(-((1i64 << k) + j * h + d));
                    }
                }
            }
        }
        for v in vs {
            if (lo..=hi).contains(&v) {
                go.run(ctx, "int", &[("type", ty.into()), ("value", v.to_string())]);
            }
        }
    }
    // doubles, on and around the halfway points and beyond the range
    for exp in 0..255u32 {
        for &m in ms.iter().step_by(if ctx.thorough { 1 } else { 5 }) {
            let b = exp << 23 | m;
            let lo = f32::from_bits(b) as f64;
            let hi = if b + 1 == 0x7f80_0000 { 2f64.powi(128) } else { f32::from_bits(b + 1) as f64 };
            let mid = ((lo + hi) / 2.0).to_bits();
            for x in [mid - 1, mid, mid + 1, lo.to_bits()] {
                for s in [0, 1u64 << 63] {
                    go.run(ctx, "double", &[("bits", format!("{:x}", x | s))]);
                }
            }
        }
    }
    for v in [f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e39, -1e39, 3.4028235677973366e38, 3.4028236e38, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
        go.run(ctx, "double", &[("bits", format!("{:x}", v.to_bits()))]);
    }
    // strings
    let alpha = ["0", "1", ".", "-", "+", "e", "E", "9", " ", "inf", "NaN", "infinity", "x", "٣", "_"];
    for len in 0..=if ctx.thorough { 5u32 } else { 4 } {
        for mut k in 0..alpha.len().pow(len) {
            let mut s = String::new();
            for _ in 0..len {
                s += alpha[k % alpha.len()];
                k /= alpha.len();
            }
            go.run(ctx, "string", &[("text", s)]);
        }
    }
    for k in 0..60 {
        for s in [format!("1e{}", k), format!("-1e{}", k), format!("1e-{}", k), format!("34028235e{}", k), format!("9{}", "9".repeat(k))] {
            go.run(ctx, "string", &[("text", s)]);
        }
    }
    // everything
    if ctx.thorough {
        let (mut n, mut bad) = (0u64, vec![]);
        let mut prev: Option<Number> = None;
        let (mut b, step) = (ctx.shard as u32 * 0x2000_0000, 1u32);
        let last = b + 0x1fff_ffff;
        let per = ctx.nshards.min(8);
        assert!(ctx.nshards == 8 && per == 8, "the full sweep is laid out for 8 workers");
        loop {
            if b & 0xffff == 0 {
                ctx.in_flight(&Case::new("num", &[("what", "bits".into()), ("bits", format!("{:08x}", b))]));
            }
            // text forms are exact for every 8th pattern and for all short ones above
            if let Some(m) = bits(b, b & 7 == 0) {
                bad.push((b, m));
            }
            if let Ok(x) = Number::try_new(f32::from_bits(b)) {
                if let Some(p) = prev {
                    let want = if b >> 31 == 1 { Ordering::Less } else { Ordering::Greater };
                    if x.cmp(&p) != want || x == p {
                        bad.push((b, format!("{} is not strictly next to {}", *x, *p)));
                    }
                }
                prev = Some(x);
            }
            n += 1;
            if b == last || bad.len() > 5 {
                break;
            }
            b += step;
        }
        ctx.add("bit_patterns", n);
        ctx.add("states_extra", n);
        ctx.add("traces", n);
        for (b, m) in bad {
            ctx.violation(Case::new("num", &[("what", "bits".into()), ("bits", format!("{:08x}", b))]), m);
        }
    }
}
