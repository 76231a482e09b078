//! C09: the layout graph of a document. A state is an assignment of separators to the token gaps; an
//! edge replaces the separator of one gap. All single edges from the canonical layout, all pairs on
//! short documents, and all uniform and alternating layouts.
use super::corpus::*;
use crate::ctx::{guard, hash, Case, Ctx};
use crate::docs::*;
use crate::entries::{Entry, Out};
use crate::refp;
use crate::structure::Lab;
use crate::t::T;

/// Whether the gap before token `i` may be empty, by the property's wording.
pub fn may_be_empty(d: &[&str], i: usize) -> bool {
    i > 0 && i < d.len() && (d[i] == "(" || d[i - 1] == "(" || d[i] == ")")
}
pub fn canonical(d: &[&str], i: usize) -> &'static str {
    if i == 0 || i == d.len() || d[i - 1] == "(" || d[i] == ")" {
        ""
    } else {
        " "
    }
}
pub fn lay(d: &[&str], sep: &dyn Fn(usize) -> &'static str) -> (String, Vec<usize>) {
    let mut s = String::new();
    let mut ends = vec![];
    for (i, t) in d.iter().enumerate() {
        s += sep(i);
        s += t;
        ends.push(s.len());
    }
    s += sep(d.len());
    (s, ends)
}
/// The gap whose layout is a recorded finding unless it starts with a white-space character.
fn finding_site(d: &[&str], i: usize) -> bool {
    i > 0 && i < d.len() && (d[i - 1] == "minimize" || d[i - 1] == "maximize") && i > 1 && d[i - 2] == ":metric"
}
pub fn variants(thorough: bool) -> Vec<&'static str> {
    let mut v: Vec<String> = [
        " ", "\t", "\n", "\r", "\r\n", "  ", "\n\n", " \t\r\n ", ";\n", ";\r\n", "; c\n", " ; c\n", " ;c\n ", ";c\r", ";(\n", ";)\n", "; ) (\n", ";;\n",
        "; ;c\n", ";a\n;b\n", ";a\n\n\t;b\r\n;c\n", ";\n;\n;\n", ";\"'\n", ";é→𝄞\n", ";(:init (and not\n", ";:metric minimize total-time\n", ";\u{0}\u{1}\n",
        "\n;x\n", "\t;x\n\t", ";\t\n", "; \\\n", ";-\n", ";?x\n", ";0.5\n", ";object\n", ";#t\n", ";|#\n", ";/*\n", ";//\n", ";\u{feff}\n", ";\u{2028}x\n",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let sizes: &[usize] = if thorough { &[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096, 10000] } else { &[16, 64, 255, 256, 257, 1000] };
    for &k in sizes {
        v.push(" ".repeat(k));
        v.push("\n".repeat(k));
        v.push(format!(";{}\n", "c".repeat(k)));
        v.push(";c\n".repeat(k));
        v.push(" ;\n".repeat(k));
    }
    if thorough {
        for c in 1u8..128 {
            if c != b'\n' && c != b'\r' {
                v.push(format!(";{}\n", c as char));
                v.push(format!("; a{}a\n", c as char));
            }
        }
    }
    v.iter().map(|s| ist(s)).collect()
}
pub fn judge(e: &Entry, want: &Option<(T, usize)>, text: &str, ends: &[usize]) -> Option<String> {
    let got = match guard(|| (e.free)(text)) {
        Ok(o) => o,
        Err(p) => return Some(format!("the call panicked: {}", p)),
    };
    match (want, got) {
        (None, Out::Err) => None,
        (None, Out::Ok { tree, .. }) => Some(format!("refused in canonical layout, but here parsed as {}", tree)),
        (Some((w, _)), Out::Err) => Some(format!("parses in canonical layout as {}, but was refused here", w)),
        (Some((w, used)), Out::Ok { tree, offset, .. }) => {
            if *w != tree {
                return Some(format!("parses in canonical layout as {}, but here as {}", w, tree));
            }
            if offset < ends[used - 1] {
                return Some(format!("construct ends at {}, but only {} bytes were consumed", ends[used - 1], offset));
            }
            if text.len() > offset && *used == ends.len() && !blank(&text[ends[used - 1]..offset]) {
                return Some(format!("consumed {} bytes, beyond the construct", offset));
            }
            None
        }
    }
}
/// Only white space and comments.
pub fn blank(s: &str) -> bool {
    let mut comment = false;
    for c in s.chars() {
        match c {
            '\n' | '\r' => comment = false,
            _ if comment => {}
            ' ' | '\t' => {}
            ';' => comment = true,
            _ => return false,
        }
    }
    true
}

struct Doc9<'a> {
    e: &'a Entry,
    d: Doc,
    want: Option<(T, usize)>,
}
fn try_one(ctx: &mut Ctx, x: &Doc9, sep: &dyn Fn(usize) -> &'static str, what: &str, site: bool) {
    ctx.add("generated", 1);
    let (text, ends) = lay(&x.d, sep);
    if !ctx.fresh(hash(&(x.e.nt, &text))) {
        return;
    }
    let case = || {
        Case::new(
            if site { "layout-site" } else { "layout" },
            &[
                ("site", if site { what.to_string() } else { String::new() }),
                ("~entry", x.e.nt.to_string()),
                ("~tokens", x.d.join(" ")),
                ("~text", text.clone()),
            ],
        )
    };
    ctx.in_flight(&case());
    ctx.add("traces", 1);
    ctx.add(&format!("layouts_{}", what.split(' ').next().unwrap_or("")), 1);
    ctx.sample(|| format!("{}: {}", x.e.nt, text));
    if let Some(m) = judge(x.e, &x.want, &text, &ends) {
        let mut c = case();
        if site && !m.ends_with("but was refused here") {
            // anything but the recorded refusal is a violation of its own
            c.kind = "layout".into();
        }
        ctx.violation(c, m);
    }
}
fn merged(a: &'static str) -> &'static str {
    if a.starts_with([' ', '\t', '\n', '\r']) {
        a
    } else {
        ist(&format!(" {}", a))
    }
}

pub fn run(ctx: &mut Ctx) {
    let lab = Lab::new();
    let vs = variants(ctx.thorough);
    let few: Vec<&'static str> = ["", "\n", ";)\n", " ;a\n;(\n\t", "\r\n"].to_vec();
    ctx.notes.insert("separators".into(), vs.len().to_string());
    let per = if ctx.thorough { 36 } else { 14 };
    for nt in lab.ents.iter().map(|e| e.nt) {
        let e = lab.ent(nt);
        let whole = nt == "domain" || nt == "problem";
        let (docs, bad) = corpus_with_refused(&lab, nt, per, if ctx.thorough { 14 } else { 6 });
        for (d, refused) in docs.into_iter().map(|d| (d, false)).chain(bad.into_iter().map(|d| (d, true))) {
            let want = refp::expect(nt, &d);
            if want.is_some() == refused {
                continue;
            }
            let x = Doc9 { e, d: d.clone(), want };
            let n = d.len();
            let gaps: Vec<usize> = if whole { (0..=n).collect() } else { (1..n).collect() };
            // every variant in every single gap
            for &g in &gaps {
                let fs = finding_site(&d, g);
                if may_be_empty(&d, g) {
                    try_one(ctx, &x, &|i| if i == g { "" } else { canonical(&d, i) }, if fs { "metric-direction/nothing" } else { "single" }, fs);
                }
                for v in &vs {
                    // around a whole document there may be nothing at all, but not in front of a refused one
                    let site = fs && v.starts_with(';');
                    try_one(ctx, &x, &|i| if i == g { v } else { canonical(&d, i) }, if site { "metric-direction/comment" } else { "single" }, site);
                }
            }
            if refused {
                continue;
            }
            let safe = |i: usize, v: &'static str| -> &'static str {
                if v.is_empty() && !(may_be_empty(&d, i) && !finding_site(&d, i)) {
                    canonical(&d, i)
                } else if finding_site(&d, i) {
                    merged(v)
                } else {
                    v
                }
            };
            let edge = |i: usize| !whole && (i == 0 || i == n);
            // the same separator everywhere, and alternating ones
            for v in vs.iter().copied().chain([""]) {
                if v.len() * n < 200_000 {
                    try_one(ctx, &x, &|i| if edge(i) { "" } else { safe(i, v) }, "uniform", false);
                }
            }
            for v in &few {
                for w in &few {
                    for m in 2..=3 {
                        try_one(ctx, &x, &|i| if edge(i) { "" } else { safe(i, if i % m == 0 { v } else { w }) }, "alternating", false);
                    }
                }
            }
            // every pair of gaps
            if n <= if ctx.thorough { 40 } else { 16 } {
                for (a, &g) in gaps.iter().enumerate() {
                    for &h in &gaps[a + 1..] {
                        for v in &few {
                            for w in &few {
                                try_one(
                                    ctx,
                                    &x,
                                    &|i| {
                                        if i == g {
                                            safe(i, v)
                                        } else if i == h {
                                            safe(i, w)
                                        } else {
                                            canonical(&d, i)
                                        }
                                    },
                                    "pairs",
                                    false,
                                );
                            }
                        }
                    }
                }
            }
        }
    }
}
pub fn one(c: &Case) -> Option<String> {
    let lab = Lab::new();
    let toks = c.get("~tokens").to_string();
    let d: Vec<&str> = toks.split(' ').collect();
    let e = lab.ent(c.get("~entry"));
    let text = c.get("~text");
    // token ends, found in order outside comments
    let mut ends = vec![];
    let mut p = 0;
    for t in &d {
        loop {
            let r = &text[p..];
            if r.starts_with(t) {
                break;
            }
            let ch = r.chars().next()?;
            if ch == ';' {
                p += r.find(['\n', '\r']).unwrap_or(r.len());
            } else {
                p += ch.len_utf8();
            }
        }
        p += t.len();
        ends.push(p);
    }
    judge(e, &refp::expect(e.nt, &d), text, &ends)
}
