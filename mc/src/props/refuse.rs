//! C24: what a refusal says. States are (construct, text before it, refused text, text after it).
use super::consume::{frames, spread};
use super::corpus::*;
use super::layout::lay;
use crate::ctx::{guard, hash, Case, Ctx};
use crate::docs::*;
use crate::entries::{Entry, Refusal};
use crate::structure::*;

const BEFORE: [&str; 5] = ["\n", "é→𝄞 ", "\r\n;ç\n\n(p) \t", "(define (domain other)) ", "x(\n"];

fn show(r: &Option<Refusal>) -> String {
    match r {
        None => "no refusal".into(),
        Some(r) => format!(
            "{}{}",
            if r.incomplete { "incomplete " } else { "" },
            r.places
                .iter()
                .map(|p| format!("[byte {} line {}{} {}]", p.offset, p.line, if p.same_buffer { "" } else { " of another text" }, p.what))
                .collect::<Vec<_>>()
                .join("")
        ),
    }
}
/// Whether every place is one in the text, not before `from`, with its true line and rest.
fn places(r: &Refusal, text: &str, from: usize) -> Option<String> {
    if r.incomplete {
        return Some("more input is asked for".into());
    }
    if r.places.is_empty() {
        return Some("no position is reported".into());
    }
    for p in &r.places {
        if p.offset < from || p.offset > text.len() || !p.same_buffer || p.rest != text.len() - p.offset {
            return Some(format!("{} {:?} with {} bytes after it is no place of the text, which starts at {} and ends at {}", p.offset, p.what, p.rest, from, text.len()));
        }
        let want = 1 + text.as_bytes()[..p.offset].iter().filter(|b| **b == b'\n').count() as u32;
        if p.line != want {
            return Some(format!("line {} reported at byte {}, true line {}", p.line, p.offset, want));
        }
    }
    None
}
fn moved(r: &Refusal, by: usize, lines: u32) -> Refusal {
    let mut r = r.clone();
    for p in &mut r.places {
        p.offset += by;
        p.line += lines;
    }
    r
}
fn judge(e: &Entry, before: &str, text: &str) -> Option<String> {
    let g = |f: &dyn Fn() -> Option<Refusal>, what: &str| guard(f).map_err(|p| format!("{} panicked: {}", what, p));
    let r = (|| {
        let free = g(&|| (e.refused)(text, 0), "the free function")?;
        if let Some(r) = &free {
            if let Some(m) = places(r, text, 0) {
                return Err(m);
            }
        }
        let same = |o: Option<Refusal>, what: &str| {
            if o == free {
                Ok(())
            } else {
                Err(format!("{} gives {}, but the free function gives {}", what, show(&o), show(&free)))
            }
        };
        if let Some((fs, _)) = &e.refused_tr {
            for (f, what) in fs.iter().zip(["Parser::parse", "Parser::parse_span", "Parser::from_str"]) {
                same(g(&|| f(text), what)?, what)?;
            }
        }
        let whole = format!("{}{}", before, text);
        let lines = before.bytes().filter(|b| *b == b'\n').count() as u32;
        let want = free.as_ref().map(|r| moved(r, before.len(), lines));
        let mut forms: Vec<(&dyn Fn() -> Option<Refusal>, &str)> = vec![];
        let mid = || (e.refused)(&whole, before.len());
        let mid2 = || e.refused_tr.and_then(|(_, f)| f(&whole, before.len()));
        forms.push((&mid, "the free function"));
        if e.refused_tr.is_some() {
            forms.push((&mid2, "Parser::parse_span"));
        }
        for (f, what) in forms {
            let o = g(f, what)?;
            if let Some(r) = &o {
                if let Some(m) = places(r, &whole, before.len()) {
                    return Err(format!("in the middle of a text: {}", m));
                }
            }
            if o != want {
                return Err(format!("{} bytes into a text {} gives {}, but alone {}", before.len(), what, show(&o), show(&free)));
            }
        }
        same(g(&|| (e.refused)(text, 0), "the free function")?, "the free function, called again,")
    })();
    r.err()
}
fn go(ctx: &mut Ctx, e: &Entry, before: &str, text: &str, tag: &str) {
    ctx.add("generated", 1);
    if !ctx.fresh(hash(&(e.nt, before, text))) {
        return;
    }
    let case = || Case::new("refusal", &[("entry", e.nt.to_string()), ("before", before.to_string()), ("text", text.to_string())]);
    ctx.in_flight(&case());
    ctx.add("traces", 1);
    ctx.add(tag, 1);
    ctx.sample(|| format!("{}: {:?} + {:?}", e.nt, before, text));
    if let Ok(Some(r)) = guard(|| (e.refused)(text, 0)) {
        ctx.add("refused", 1);
        ctx.outcomes.insert(hash(&(e.nt, &r)));
    }
    if let Some(m) = judge(e, before, text) {
        ctx.violation(case(), m);
    }
}
pub fn run(ctx: &mut Ctx) {
    let lab = Lab::new();
    let t = ctx.thorough;
    for e in lab.ents.iter().chain(&crate::entries::extras()) {
        let known = lab.ents.iter().any(|x| x.nt == e.nt);
        let (good, bad) = if known { corpus_with_refused(&lab, e.nt, if t { 400 } else { 60 }, if t { 12 } else { 4 }) } else { (vec![], vec![]) };
        let mut n = 0;
        let mut all = |ctx: &mut Ctx, text: &str, tag: &str| {
            n += 1;
            for (i, b) in BEFORE.iter().enumerate() {
                if t || i == n % BEFORE.len() {
                    go(ctx, e, b, text, tag);
                }
            }
        };
        for d in &bad {
            all(ctx, &render(d).0, "refused neighbours");
        }
        let few = if t { 80 } else { 40 };
        for d in spread(&good, few) {
            let alpha: [&[&'static str]; 9] = [&[], &["("], &[")"], &["x"], &["?x"], &["0"], &["-"], &["\u{e9}"], &["()", "x"]];
            for (k, sep) in [" ", "\n", " ;é (\n\t", ";\n;→)\n \n"].iter().enumerate() {
                let mut out = |ctx: &mut Ctx, x: &[&'static str], tag: &str| {
                    // the canonical layout, and in turn the others
                    n += 1;
                    if k == 0 || t || n % 3 + 1 == k {
                        let text = lay(x, &|i| if i == 0 || i == x.len() { "" } else { sep }).0;
                        go(ctx, e, BEFORE[n % BEFORE.len()], &text, tag);
                    }
                };
                for i in 0..d.len() {
                    for edit in alpha {
                        let x = [&d[..i], edit, &d[i + 1..]].concat();
                        out(ctx, &x, "edited");
                    }
                    out(ctx, &[&d[..i], &["x"], &d[i..]].concat(), "inserted");
                    out(ctx, &[&d[..i], &[")"], &d[i..]].concat(), "inserted");
                    out(ctx, &d[..i].to_vec(), "cut");
                    out(ctx, &d[i..].to_vec(), "tail");
                }
                out(ctx, d, "whole");
            }
        }
        // every beginning and ending, by characters
        for d in spread(&good, few / 8) {
            let (text, _) = lay(d, &|i| if i == 0 || i == d.len() { "" } else { ["\n", " ;é\n "][i % 2] });
            for (i, _) in text.char_indices() {
                n += 1;
                go(ctx, e, BEFORE[n % BEFORE.len()], &text[..i], "torn");
                go(ctx, e, BEFORE[n % BEFORE.len()], &text[i..], "torn");
            }
        }
        // what stands before or after a construct, whichever character it is
        let framed = frames(t);
        for d in spread(&good, if t { 3 } else { 2 }) {
            let (body, _) = render(d);
            for c in &framed {
                n += 1;
                go(ctx, e, BEFORE[n % BEFORE.len()], &format!("{}{}", c, body), "framed");
                let at = body.find(' ').unwrap_or(body.len());
                go(ctx, e, BEFORE[n % BEFORE.len()], &format!("{}{}{}", &body[..at], c, &body[at..]), "framed");
            }
        }
        // raw texts
        let alpha = ["(", ")", "a", "?x", "1", "-", " ", "\n", ";", "é", "=", ".", ":"];
        for len in 0..=if t { 4u32 } else { 3 } {
            for mut k in 0..alpha.len().pow(len) {
                let mut s = String::new();
                for _ in 0..len {
                    s += alpha[k % alpha.len()];
                    k /= alpha.len();
                }
                n += 1;
                go(ctx, e, BEFORE[n % BEFORE.len()], &s, "raw");
            }
        }
    }
}
pub fn one(c: &Case) -> Option<String> {
    let lab = Lab::new();
    let ex = crate::entries::extras();
    let e = lab.ents.iter().chain(&ex).find(|e| e.nt == c.get("entry")).expect("entry");
    judge(e, c.get("before"), c.get("text"))
}
