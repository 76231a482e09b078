//! Explicit-state exploration of documents against the reference semantics (C01..C08, C11).
use crate::ctx::{guard, hash, Case, Ctx};
use crate::docs::*;
use crate::entries::{entries, Entry, Out};
use crate::gram::{full, outline, Grammar, Span, Stat, Tk, NAME, NUM, RP, UINT, VAR};
use crate::refp;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Want {
    Accepted,
    Rejected,
}
pub struct Lab {
    pub g: Grammar,
    pub o: Grammar,
    pub pool: Pools,
    pub opool: Pools,
    pub ents: Vec<Entry>,
}
impl Lab {
    pub fn new() -> Lab {
        let (g, o) = (full(), outline());
        Lab { pool: Pools::new(&g), opool: Pools::new(&o), g, o, ents: entries() }
    }
    pub fn ent(&self, nt: &str) -> &Entry {
        self.ents.iter().find(|e| e.nt == nt).unwrap_or_else(|| panic!("no entry {}", nt))
    }
}

/// Compares one call with the reference; None when they agree.
pub fn compare(e: &Entry, d: &[&str], text: &str, ends: &[usize]) -> Option<String> {
    let want = refp::expect(e.nt, d);
    let got = match guard(|| (e.free)(text)) {
        Ok(o) => o,
        Err(p) => return Some(format!("the call panicked: {}", p)),
    };
    match (want, got) {
        (None, Out::Err) => None,
        (None, Out::Ok { tree, .. }) => Some(format!("must be refused, but parsed as {}", tree)),
        (Some((w, _)), Out::Err) => Some(format!("must parse as {}, but was refused", w)),
        (Some((w, used)), Out::Ok { tree, offset, .. }) => {
            if w != tree {
                return Some(format!("must parse as {}, but parsed as {}", w, tree));
            }
            let end = ends[used - 1];
            let slack = if e.nt == "domain" || e.nt == "problem" {
                text[end..].len() - text[end..].trim_start().len()
            } else {
                0
            };
            if offset < end || offset > end + slack {
                return Some(format!("must consume {} bytes, but consumed {}", end, offset));
            }
            None
        }
    }
}

pub fn check(ctx: &mut Ctx, e: &Entry, d: &[&'static str], want: Want) {
    ctx.add("generated", 1);
    if !ctx.fresh(hash(&(e.nt, d))) {
        return;
    }
    let w = refp::expect(e.nt, d);
    if w.is_some() != (want == Want::Accepted) {
        ctx.add("other_side", 1);
        return;
    }
    let (text, ends) = render(d);
    ctx.in_flight_parse(e.nt, &text);
    ctx.add("traces", 1);
    if let Some((t, _)) = &w {
        let h = hash(t);
        ctx.outcomes.insert(h);
    }
    ctx.sample(|| format!("{}: {}", e.nt, text));
    if let Some(m) = compare(e, d, &text, &ends) {
        ctx.violation(Case::parse(e.nt, &text), m);
    }
}

/// Leaf values that meet keyword recognition, boundaries, case and length limits.
pub fn tricky_names() -> Vec<&'static str> {
    let mut v: Vec<String> = [
        "a", "Z", "z9", "a-", "a_", "a-b", "a--b", "A_b-C0", "object", "objects", "objectx", "object-a", "Object",
        "number", "numbers", "and", "andy", "or", "orx", "not", "nota", "imply", "implya", "exists", "existsx",
        "forall", "foralls", "when", "whenx", "preference", "preferences", "either", "eithers", "at", "att", "start",
        "starts", "end", "ends", "over", "all", "ally", "always", "always-within", "sometime", "sometime-after",
        "within", "hold-during", "at-most-once", "assign", "assigned", "increase", "increase-x", "decrease", "scale-up",
        "scale-upx", "change", "changed", "undefined", "undefined-x", "total-time", "total-timer", "is-violated",
        "is-violatedx", "minimize", "maximize", "define", "defined", "domain", "domains", "problem", "duration", "t",
        "inf", "nan", "infinity", "e5", "x1e5", "AND", "Not", "types", "action", "n1", "N1",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for k in [15usize, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000] {
        v.push("q".repeat(k));
    }
    v.iter().map(|s| ist(s)).collect()
}
pub fn tricky_nums() -> Vec<&'static str> {
    [
        "0", "0.0", "00", "007", "1", "1.0", "1.5", "10", "0.1", "0.5", "0.25", "3.14159", "99", "100", "127", "128", "255", "256",
        "32767", "32768", "65535", "65536", "16777215", "16777216", "16777217", "2147483647", "2147483648", "4294967295",
        "4294967296", "1000000", "123456789", "0.000001", "0.0000000000000000000000000000000000000000000001",
        "340282350000000000000000000000000000000", "18446744073709551615", "18446744073709551616", "1.00000000000000000000000001",
        "999999999999", "5.10", "12.034",
    ]
    .iter()
    .map(|s| ist(s))
    .collect()
}

/// A sentence with the spans of its named parts.
#[derive(Clone)]
pub struct Sent {
    pub tk: Vec<Tk>,
    pub spans: Vec<Span>,
}
/// Sentences of `nt` by increasing length, whole lengths while at most `cap` in total; returns the completed length.
pub fn sentences(g: &Grammar, nt: &str, cap: u64, st: &mut Stat, f: &mut dyn FnMut(&[Tk], &[Span])) -> usize {
    let id = g.nts[nt];
    let mut total = 0u64;
    let mut done = 0;
    for len in 1..=400 {
        let c = g.count(id, len);
        total = total.saturating_add(c);
        if total > cap {
            break;
        }
        g.each(nt, len, st, f);
        done = len;
    }
    done
}
/// The first sentences of `nt`; at least one length that has any, at most `cap` sentences.
pub fn first(g: &Grammar, nt: &str, cap: usize, st: &mut Stat) -> Vec<Sent> {
    let mut v = vec![];
    let id = g.nts[nt];
    for len in 1..=400 {
        if g.count(id, len) > 0 {
            if !v.is_empty() && g.count(id, len).saturating_add(v.len() as u64) > cap as u64 {
                break;
            }
            g.each(nt, len, st, &mut |t, s| {
                if v.len() < cap {
                    v.push(Sent { tk: t.to_vec(), spans: s.to_vec() })
                }
            });
        }
        if v.len() >= cap {
            break;
        }
    }
    v
}
/// The rich documents and every part of them that is a construct of its own, for one entry.
pub fn rich_for(lab: &Lab, nt: &str) -> Vec<Doc> {
    let mut out: Vec<Doc> = vec![];
    for (rnt, d) in rich() {
        if rnt == nt {
            out.push(d.clone());
            continue;
        }
        if !lab.ents.iter().any(|e| e.nt == nt) {
            continue;
        }
        for (b, e, _) in spans(&d, "(", ")") {
            if e - b > 3 && e - b < d.len() {
                let part = &d[b..e];
                if refp::expect(nt, part).map_or(false, |x| x.1 == part.len()) && !out.iter().any(|o| o == part) {
                    out.push(part.to_vec());
                }
            }
        }
    }
    out
}

#[derive(Clone)]
pub struct Bounds {
    /// sentences per entry for the plain enumeration
    pub base: u64,
    /// sentences per entry that are pumped, nested, swept and edited
    pub dev: u64,
    /// sentences per entry repeated up to the large sizes
    pub big: usize,
    /// sentences per entry, and fillers per part, for substitution of parts
    pub plug: (usize, usize),
    /// variants per section in pairwise combinations
    pub sect: usize,
    pub ks: Vec<usize>,
    pub nest: Vec<usize>,
    pub maxlen: usize,
}
const BIG: [usize; 13] = [128, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1024, 1025];
impl Bounds {
    pub fn quick() -> Bounds {
        Bounds {
            base: 12_000,
            dev: 60,
            big: 6,
            plug: (24, 120),
            sect: 10,
            ks: vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 65, 129],
            nest: vec![1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 33],
            maxlen: 700,
        }
    }
    pub fn thorough() -> Bounds {
        Bounds {
            base: 120_000,
            dev: 300,
            big: 25,
            plug: (80, 600),
            sect: 25,
            ks: vec![
                2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 24, 25, 26, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128,
                129,
            ],
            nest: vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 33, 48, 64, 65],
            maxlen: 1000,
        }
    }
    pub fn of(thorough: bool) -> Bounds {
        if thorough {
            Bounds::thorough()
        } else {
            Bounds::quick()
        }
    }
}

fn all_partitions() -> Vec<Vec<Vec<usize>>> {
    (0..=4).map(partitions).collect()
}
/// Leaf sweeps over one concrete document.
fn leaves(ctx: &mut Ctx, e: &Entry, s: &[Tk], d0: &Doc, names: &[&'static str], nums: &[&'static str], want: Want) {
    let mut d = d0.clone();
    for i in 0..d.len() {
        match s[i] {
            NAME => {
                for x in names {
                    d[i] = x;
                    check(ctx, e, &d, want);
                }
            }
            VAR => {
                for x in names {
                    d[i] = ist(&format!("?{}", x));
                    check(ctx, e, &d, want);
                }
            }
            NUM | UINT => {
                for x in nums {
                    d[i] = x;
                    check(ctx, e, &d, want);
                }
            }
            _ if refp::REQS.contains(&d0[i]) => {
                for x in refp::REQS.iter() {
                    d[i] = ist(x);
                    check(ctx, e, &d, want);
                }
            }
            _ => {}
        }
        d[i] = d0[i];
    }
    // two leaves sharing one value, or with values that are nearly the same, for every pair
    let word = |t: Tk| t == NAME || t == VAR;
    for i in 0..d.len() {
        if s[i] > UINT {
            continue;
        }
        let bare = d0[i].trim_start_matches('?');
        for j in i + 1..d.len() {
            if s[j] == s[i] {
                d[j] = d0[i];
                check(ctx, e, &d, want);
            }
            if word(s[i]) && word(s[j]) {
                let mark = if s[j] == VAR { "?" } else { "" };
                for near in [bare.to_string(), flip(bare), format!("{}-a", bare), format!("{}0", bare)] {
                    d[j] = ist(&format!("{}{}", mark, near));
                    check(ctx, e, &d, want);
                }
            }
            d[j] = d0[j];
        }
    }
}
/// The other case.
fn flip(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

/// All stages for one entry.
pub fn explore(ctx: &mut Ctx, lab: &Lab, nt: &'static str, use_outline: bool, b: &Bounds, want: Want) {
    let (g, pool) = if use_outline { (&lab.o, &lab.opool) } else { (&lab.g, &lab.pool) };
    let e = lab.ent(nt);
    let mut st = Stat::default();
    let parts = all_partitions();
    // A: every sentence, under several identifications of its leaves
    let done = sentences(g, nt, b.base, &mut st, &mut |s, _| {
        check(ctx, e, &pool.distinct(s), want);
        check(ctx, e, &pool.same(s), want);
        for class in [NAME, VAR, NUM] {
            let k = s.iter().filter(|t| **t == class).count();
            if (2..=4).contains(&k) {
                for p in &parts[k] {
                    check(ctx, e, &pool.blocks(s, class, p), want);
                }
            }
        }
    });
    ctx.notes.insert(format!("complete_to_tokens:{}{}", nt, if use_outline { "(outline)" } else { "" }), done.to_string());
    let names = tricky_names();
    let nums = tricky_nums();
    let alpha = g.alphabet(nt);
    sentences(g, nt, b.dev, &mut st, &mut |s, _| {
        // B: repetition and nesting
        pumps(s, &b.ks, b.maxlen, &mut |p| {
            check(ctx, e, &pool.distinct(p), want);
            check(ctx, e, &pool.same(p), want);
        });
        nests(s, &b.nest, b.maxlen, &mut |p| {
            check(ctx, e, &pool.distinct(p), want);
            check(ctx, e, &pool.same(p), want);
        });
        // C: leaf values
        leaves(ctx, e, s, &pool.distinct(s), &names, &nums, want);
        // D: single-token edits
        edits(s, &alpha, &mut |v, _| {
            if !v.is_empty() {
                check(ctx, e, &pool.distinct(v), want);
            }
        });
    });
    if b.big > 0 {
        for s in first(g, nt, b.big, &mut st) {
            pumps(&s.tk, &BIG, 5200, &mut |p| {
                check(ctx, e, &pool.distinct(p), want);
                check(ctx, e, &pool.same(p), want);
            });
            nests(&s.tk, &[40, 64, 65, 100], 5200, &mut |p| check(ctx, e, &pool.distinct(p), want));
        }
    }
    // E: every part of a sentence replaced by every filler of its kind
    if b.plug.0 > 0 {
        let mut fill: std::collections::HashMap<usize, Vec<Sent>> = Default::default();
        for s in first(g, nt, b.plug.0, &mut st) {
            for sp in &s.spans {
                if sp.e - sp.b == s.tk.len() {
                    continue;
                }
                if !fill.contains_key(&sp.nt) {
                    let v = first(g, g.nt_name(sp.nt), b.plug.1, &mut st);
                    fill.insert(sp.nt, v);
                }
                for x in &fill[&sp.nt] {
                    let mut v = s.tk[..sp.b].to_vec();
                    v.extend_from_slice(&x.tk);
                    v.extend_from_slice(&s.tk[sp.e..]);
                    check(ctx, e, &pool.distinct(&v), want);
                }
            }
        }
    }
    // F: the rich documents and their parts
    if !use_outline && b.plug.0 > 0 {
        let ks: Vec<usize> = b.ks.iter().copied().filter(|k| *k <= 17 || b.maxlen >= 1000).collect();
        for d in rich_for(lab, nt) {
            let s = abstracted(g, &d);
            check(ctx, e, &d, want);
            check(ctx, e, &pool.distinct(&s), want);
            check(ctx, e, &pool.same(&s), want);
            let big = s.len() > 60 && b.maxlen < 1000;
            let (some, one) = ([names[5], names[8], names[12], names[names.len() - 8]], [nums[6], nums[20]]);
            leaves(ctx, e, &s, &d, if big { &some } else { &names }, if big { &one } else { &nums }, want);
            let (k2, n2) = (vec![2, 3, 9], vec![1, 3]);
            pumps(&s, if big { &k2 } else { &ks }, b.maxlen, &mut |p| check(ctx, e, &pool.distinct(p), want));
            nests(&s, if big { &n2 } else { &b.nest }, b.maxlen, &mut |p| check(ctx, e, &pool.distinct(p), want));
            let swap_only = want == Want::Accepted && big;
            if swap_only {
                swaps(&s, &mut |p| check(ctx, e, &pool.distinct(p), want));
            } else {
                edits(&s, &alpha, &mut |p, _| {
                    if !p.is_empty() {
                        check(ctx, e, &pool.distinct(p), want)
                    }
                });
            }
        }
    }
    // G: sections of whole documents, pairwise
    let sections: &[&str] = match (nt, use_outline) {
        ("domain", false) => {
            &["extends", "requirements", "types", "constants", "predicates", "functions", "domain-constraints", "structure"]
        }
        ("problem", false) => &["requirements", "objects", "init", "goal", "problem-constraints", "metric", "length"],
        _ => &[],
    };
    if !sections.is_empty() && b.sect > 0 {
        let opening: Vec<Tk> = if nt == "domain" { "( define ( domain NAME )" } else { "( define ( problem NAME ) ( :domain NAME )" }
            .split(' ')
            .map(|t| if t == "NAME" { NAME } else { g.toks.iter().position(|x| x == t).unwrap() as Tk })
            .collect();
        let need = |i: usize| nt == "problem" && (sections[i] == "init" || sections[i] == "goal");
        let var: Vec<Vec<Vec<Tk>>> = (0..sections.len())
            .map(|i| {
                let mut v: Vec<Vec<Tk>> = first(g, sections[i], b.sect, &mut st).into_iter().map(|s| s.tk).collect();
                v.extend(rich_for(lab, sections[i]).iter().take(3).map(|d| abstracted(g, d)));
                if !need(i) {
                    v.insert(0, vec![]);
                }
                v
            })
            .collect();
        for full in [false, true] {
            let base: Vec<usize> = (0..sections.len()).map(|i| if full { var[i].len() - 1 } else { 0 }).collect();
            for i in 0..sections.len() {
                for j in i + 1..sections.len() {
                    for vi in 0..var[i].len() {
                        for vj in 0..var[j].len() {
                            let mut pick = base.clone();
                            pick[i] = vi;
                            pick[j] = vj;
                            let mut s = opening.clone();
                            for (k, p) in pick.iter().enumerate() {
                                s.extend_from_slice(&var[k][*p]);
                            }
                            s.push(RP);
                            check(ctx, e, &pool.distinct(&s), want);
                        }
                    }
                }
            }
        }
    }
    ctx.add("configs", st.configs);
    ctx.add("expansions", st.expansions);
}
