//! C13: what a parser consumes. States are (construct, text before it, layout of it, text after it).
use super::corpus::*;
use super::layout::{blank, canonical, lay, may_be_empty};
use crate::ctx::{guard, hash, Case, Ctx};
use crate::docs::*;
use crate::entries::{Entry, Out};
use crate::refp;
use crate::structure::*;
use crate::t::T;

const BEFORE: [&str; 9] = ["", "\n", "(", "é→𝄞 ", "x ", "\r\n;ç\n\n(p) \t", ")\n\n\n", "(define (domain other)) ", ";\u{feff}\n"];
const AFTER: [&str; 30] = [
    "", " ", "\n", "\t\r\n", " x", "\nfoo", " (p)", "(p)", ")", "(", "()", ") )", "\n)\n)", " ;c\n z", " ; c", "\n;é\r\n(é", " 1", " 1.5 (", " - t", "\n- (either a b)", " ?x", " :effect ()",
    " (:action b :parameters ())", "(:requirements :typing)", " and", " (not (p))", " \0", " é", " \"", "\n.5",
];
fn show(o: &Out) -> String {
    match o {
        Out::Err => "refused".into(),
        Out::Ok { tree, offset, rest, line, same_buffer } => {
            let own = if *same_buffer { "" } else { ", not in the input" };
            format!("{} up to byte {} line {} with {} bytes left{}", tree, offset, line, rest, own)
        }
    }
}
/// The agreement of all call forms on a text; Ok(outcome of the free function).
fn agree(e: &Entry, text: &str) -> Result<Out, String> {
    let g = |f: &dyn Fn() -> Out, what: &str| guard(f).map_err(|p| format!("{} panicked: {}", what, p));
    let free = g(&|| (e.free)(text), "the free function")?;
    if let Some([a, b]) = &e.tr {
        for (f, what) in [(a, "Parser::parse"), (b, "Parser::parse_span")] {
            let o = g(&|| f(text), what)?;
            if o != free {
                return Err(format!("{} gives {}, but the free function gives {}", what, show(&o), show(&free)));
            }
        }
    }
    if let Some(f) = &e.from_str {
        let v = guard(|| f(text)).map_err(|p| format!("from_str panicked: {}", p))?;
        let w = match &free {
            Out::Ok { tree, .. } => Some(tree.clone()),
            Out::Err => None,
        };
        if v != w {
            let s = |x: &Option<T>| x.as_ref().map_or("refused".to_string(), |t| t.to_string());
            return Err(format!("from_str gives {}, but parse gives {}", s(&v), s(&w)));
        }
    }
    Ok(free)
}
/// The position an outcome reports, against the text itself.
fn positions(o: &Out, text: &str, from: usize) -> Option<String> {
    if let Out::Ok { offset, rest, line, same_buffer, .. } = o {
        let want = 1 + text.get(..*offset).map_or(0, |s| s.bytes().filter(|b| *b == b'\n').count()) as u32;
        if *offset < from || *offset > text.len() || !same_buffer || *rest != text.len() - offset {
            return Some(format!("remainder is not the rest of the input: {}", show(o)));
        }
        if *line != want {
            return Some(format!("line {} reported at byte {}, true line {}", line, offset, want));
        }
    }
    None
}
/// Same value and same amount consumed, `k` bytes further on.
fn shifted(a: &Out, b: &Out, k: usize) -> bool {
    match (a, b) {
        (Out::Err, Out::Err) => true,
        (Out::Ok { tree: t, offset: o, rest: r, .. }, Out::Ok { tree: t2, offset: o2, rest: r2, .. }) => t == t2 && o + k == *o2 && r == r2,
        _ => false,
    }
}
fn judge(e: &Entry, before: &str, body: &str, end: usize, after: &str, want: Option<&T>) -> Option<String> {
    let tail = format!("{}{}", body, after);
    let free = match agree(e, &tail) {
        Ok(o) => o,
        Err(m) => return Some(m),
    };
    if let Some(m) = positions(&free, &tail, 0) {
        return Some(m);
    }
    let whole = format!("{}{}", before, tail);
    let mid = match guard(|| (e.span_at)(&whole, before.len())) {
        Ok(o) => o,
        Err(p) => return Some(format!("panicked in the middle of a text: {}", p)),
    };
    if let Some(m) = positions(&mid, &whole, before.len()) {
        return Some(format!("in the middle of a text: {}", m));
    }
    if !shifted(&free, &mid, before.len()) {
        return Some(format!("in the middle of a text gives {}, alone gives {}", show(&mid), show(&free)));
    }
    if let Some(w) = want {
        match &free {
            Out::Ok { tree, offset, .. } => {
                if tree != w {
                    return Some(format!("followed by {:?} parses as {}, but alone as {}", after, tree, w));
                }
                // complete domains and problems also take the blank text behind them
                let whole = e.nt == "domain" || e.nt == "problem";
                if *offset < end || (*offset > end && !whole) || !blank(&tail[end..*offset]) {
                    return Some(format!("the construct ends at byte {}, but {} bytes were consumed", end, offset));
                }
            }
            Out::Err => return Some(format!("followed by {:?} is refused, but alone parses as {}", after, w)),
        }
    }
    None
}
fn go(ctx: &mut Ctx, e: &Entry, before: &str, body: &str, end: usize, after: &str, want: Option<&T>, tag: &str) {
    ctx.add("generated", 1);
    if !ctx.fresh(hash(&(e.nt, before, body, after))) {
        return;
    }
    let case = || {
        Case::new(
            "consume",
            &[
                ("entry", e.nt.to_string()),
                ("before", before.to_string()),
                ("body", body.to_string()),
                ("end", if want.is_some() { end.to_string() } else { String::new() }),
                ("after", after.to_string()),
            ],
        )
    };
    ctx.in_flight(&case());
    ctx.add("traces", 1);
    ctx.add(tag, 1);
    ctx.sample(|| format!("{}: {:?} + {:?} + {:?}", e.nt, before, body, after));
    if let Some(w) = want {
        ctx.outcomes.insert(hash(w));
    }
    if let Some(m) = judge(e, before, body, end, after, want) {
        ctx.violation(case(), m);
    }
}

pub fn run(ctx: &mut Ctx) {
    let lab = Lab::new();
    let seps: [&'static str; 4] = ["\n", " ;é (\n\t", "\r\n\r\n", ";\n;→)\n \n"];
    for e in &lab.ents {
        let (good, bad) = corpus_with_refused(&lab, e.nt, if ctx.thorough { 400 } else { 60 }, if ctx.thorough { 12 } else { 3 });
        for d in &good {
            let (w, _) = match refp::expect(e.nt, d) {
                Some(x) => x,
                None => continue,
            };
            let mut forms = vec![render(d)];
            for s in seps {
                forms.push(lay(d, &|i| {
                    if i == 0 || i == d.len() {
                        ""
                    } else if d[i - 1] == "minimize" || d[i - 1] == "maximize" {
                        "\n" // a recorded finding of C09 otherwise
                    } else {
                        s
                    }
                }));
            }
            forms.push(lay(d, &|i| {
                if may_be_empty(d, i) && !(i > 0 && (d[i - 1] == "minimize" || d[i - 1] == "maximize")) {
                    ""
                } else {
                    canonical(d, i)
                }
            }));
            for (f, (body, ends)) in forms.iter().enumerate() {
                let end = *ends.last().unwrap();
                for (ai, a) in AFTER.iter().enumerate() {
                    // a construct that ends in a word needs a separator before the next one
                    if !body.ends_with(')') && a.starts_with(|c: char| !c.is_ascii_whitespace() && c != '(' && c != ')') {
                        continue;
                    }
                    for (bi, b) in BEFORE.iter().enumerate() {
                        // every text before in the canonical layout, a third of them in each other layout
                        if f > 0 && !ctx.thorough && (f + ai + bi) % 3 != 0 {
                            continue;
                        }
                        go(ctx, e, b, body, end, a, Some(&w), "followed");
                    }
                }
            }
        }
        // refused texts: the call forms agree, wherever the text stands
        for d in &bad {
            let (body, _) = render(d);
            for a in ["", " x", ")", " (p))"] {
                for b in BEFORE {
                    go(ctx, e, b, &body, 0, a, None, "refused");
                }
            }
        }
        // the call forms agree, whatever character or word stands before or after the construct in the text they are given
        let frames = frames(ctx.thorough);
        let few = spread(&good, if ctx.thorough { 4 } else { 3 });
        for d in few {
            let (body, _) = render(d);
            for c in &frames {
                go(ctx, e, "", &format!("{}{}", c, body), 0, "", None, "framed");
                go(ctx, e, "", &body, 0, c, None, "framed");
            }
        }
        // and on every one-token edit
        for d in spread(&good, if ctx.thorough { 200 } else { 20 }) {
            for i in 0..d.len() {
                for edit in [&[] as &[&str], &[d[i], d[i]], &["("], &[")"], &["x"]] {
                    let mut x = d[..i].to_vec();
                    x.extend(edit.iter().copied());
                    x.extend_from_slice(&d[i + 1..]);
                    go(ctx, e, "", &render(&x).0, 0, "", None, "edited");
                }
                go(ctx, e, "", &render(&d[..i]).0, 0, "", None, "cut");
            }
        }
        // raw texts
        let alpha = ["(", ")", "a", "?x", "1", "-", " ", "\n", ";", "é", "=", ".", ":"];
        for len in 0..=if ctx.thorough { 4u32 } else { 3 } {
            for mut k in 0..alpha.len().pow(len) {
                let mut s = String::new();
                for _ in 0..len {
                    s += alpha[k % alpha.len()];
                    k /= alpha.len();
                }
                go(ctx, e, if k % 2 == 0 { "é\n(" } else { "" }, &s, 0, "", None, "raw");
            }
        }
    }
    // several constructs in one text, each parsed from the previous remainder
    for e in &lab.ents {
        let docs = corpus(&lab, e.nt, if ctx.thorough { 40 } else { 8 });
        for a in &docs {
            for b in &docs {
                for sep in [" ", "\n\n", " ;é\n"] {
                    ctx.add("generated", 1);
                    let (ta, tb) = (render(a).0, render(b).0);
                    if !ctx.fresh(hash(&("seq", e.nt, sep, &ta, &tb))) {
                        continue;
                    }
                    let c = Case::new("consume-seq", &[("entry", e.nt.into()), ("a", ta), ("sep", sep.into()), ("b", tb)]);
                    ctx.in_flight(&c);
                    ctx.add("traces", 1);
                    ctx.add("sequences", 1);
                    if let Some(m) = seq(e, &c) {
                        ctx.violation(c, m);
                    }
                }
            }
        }
    }
}
/// Some of a list, from everywhere in it.
pub fn spread<X>(v: &[X], n: usize) -> Vec<&X> {
    let k = v.len().min(n);
    (0..k).map(|i| &v[i * v.len() / k]).collect()
}
/// What may stand around a construct: every character of the blocks with special ones (thorough: of the basic plane),
/// blanks, and words.
pub fn frames(thorough: bool) -> Vec<String> {
    let special = |c: u32| c < 0x250 || (0x2000..0x2070).contains(&c) || (0x3000..0x3010).contains(&c) || c >= 0xfe00 || [0x61c, 0x1680, 0x180e, 0x303f].contains(&c);
    let mut v: Vec<String> = (0..0x10000).filter(|c| thorough || special(*c)).filter_map(char::from_u32).map(String::from).collect();
    v.extend(['\u{1f600}', '\u{e0001}', '\u{e007f}', '\u{f0000}', '\u{10ffff}'].map(String::from));
    for x in ["  ", "\r\n", "\n\n", " \t", ";\n", ";c\n", ";c\r\n ", "; c", "\u{feff}\u{feff}", "\u{feff} ", " \u{feff}", "\u{feff}\n", "x ", "x", "1 ", "1", ") ", ")", "( ", "(", "()", "\"", "'", "`", "#|c|# ", "#!", "//c\n", "<?xml?>", "\\", "\0\0", "%", "--", "- "] {
        v.push(x.to_string());
    }
    v
}
/// a sep b sep a, parsed one after another.
fn seq(e: &Entry, c: &Case) -> Option<String> {
    let (a, b, sep) = (c.get("a"), c.get("b"), c.get("sep"));
    let text = format!("{}{}{}{}{}", a, sep, b, sep, a);
    let mut at = 0;
    for (i, part) in [a, b, a].iter().enumerate() {
        let start = [0, a.len() + sep.len(), a.len() + b.len() + 2 * sep.len()][i];
        if at > start || !blank(&text[at..start]) {
            return Some(format!("construct {} starts at byte {}, but the previous remainder starts at {}", i + 1, start, at));
        }
        let toks = tokens(part);
        let want = refp::expect(e.nt, &toks)?.0;
        match guard(|| (e.span_at)(&text, start)) {
            Err(p) => return Some(format!("panicked: {}", p)),
            Ok(Out::Err) => return Some(format!("construct {} of the sequence was refused", i + 1)),
            Ok(o) => {
                if let Some(m) = positions(&o, &text, start) {
                    return Some(m);
                }
                if let Out::Ok { tree, offset, .. } = o {
                    if tree != want {
                        return Some(format!("construct {} of the sequence parsed as {}, alone as {}", i + 1, tree, want));
                    }
                    at = offset;
                }
            }
        }
    }
    None
}
pub fn one(c: &Case) -> Option<String> {
    let lab = Lab::new();
    let e = lab.ent(c.get("entry"));
    if c.kind == "consume-seq" {
        return seq(e, c);
    }
    let (body, end) = (c.get("body"), c.get("end"));
    let mut want = None;
    if !end.is_empty() {
        let plain: String = strip(body);
        want = refp::expect(e.nt, &tokens(&plain)).map(|x| x.0);
    }
    judge(e, c.get("before"), body, end.parse().unwrap_or(0), c.get("after"), want.as_ref())
}
/// The text without its comments.
fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut comment = false;
    for c in s.chars() {
        match c {
            '\n' | '\r' => comment = false,
            ';' => comment = true,
            _ => {}
        }
        o.push(if comment { ' ' } else { c });
    }
    o
}
