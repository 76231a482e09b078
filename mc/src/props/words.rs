//! C10: words. A state is a document with the word at one position replaced; the positions of every
//! base document are crossed with every identifier and every glued or cut keyword.
use super::corpus::*;
use crate::ctx::{hash, Case, Ctx};
use crate::docs::*;
use crate::gram::*;
use crate::refp;
use crate::structure::*;

/// Compares in both directions: accepted ones with the meaning, refused ones with a refusal.
pub fn both(ctx: &mut Ctx, lab: &Lab, nt: &str, d: &[&'static str], tag: &str) {
    ctx.add("generated", 1);
    if !ctx.fresh(hash(&(nt, d))) {
        return;
    }
    let e = lab.ent(nt);
    let (text, ends) = render(d);
    ctx.in_flight_parse(nt, &text);
    ctx.add("traces", 1);
    ctx.add(tag, 1);
    ctx.sample(|| format!("{}: {}", nt, text));
    if let Some(m) = compare(e, d, &text, &ends) {
        ctx.violation(Case::parse(nt, &text), m);
    }
}
fn keywords(lab: &Lab) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = lab.g.toks.iter().skip(6).map(|s| ist(s)).collect();
    for r in refp::REQS {
        v.push(ist(r));
    }
    for s in ["object", "number", "?duration"] {
        v.push(s);
    }
    v.sort();
    v.dedup();
    v
}
fn idents(lab: &Lab, thorough: bool) -> Vec<&'static str> {
    let mut v = tricky_names();
    for k in keywords(lab) {
        let k = k.trim_start_matches([':', '?', '#']);
        if refp::is_name(k) {
            v.push(ist(k));
            for s in ["s", "-", "_", "0", "-x", "X"] {
                v.push(ist(&format!("{}{}", k, s)));
            }
            v.push(ist(&format!("x{}", k)));
            v.push(ist(&format!("x-{}", k)));
            v.push(ist(&k.to_uppercase()));
            let mut cap = k.to_string();
            cap[..1].make_ascii_uppercase();
            v.push(ist(&cap));
            if k.len() > 1 {
                v.push(ist(&k[..k.len() - 1]));
                if refp::is_name(&k[1..]) {
                    v.push(ist(&k[1..]));
                }
            }
        }
    }
    for c in (b'a'..=b'z').chain(b'A'..=b'Z') {
        v.push(ist(&(c as char).to_string()));
        v.push(ist(&format!("{}1", c as char)));
        v.push(ist(&format!("q{}", c as char)));
    }
    for c in b'0'..=b'9' {
        v.push(ist(&format!("q{}", c as char)));
        v.push(ist(&format!("q-{}", c as char)));
    }
    let top = if thorough { 140 } else { 70 };
    for k in 1..top {
        v.push(ist(&"w".repeat(k)));
    }
    for k in [255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 65535, 65536] {
        v.push(ist(&"w".repeat(k)));
        v.push(ist(&"w1-".chars().cycle().take(k).collect::<String>()));
    }
    v.sort();
    v.dedup();
    v
}
const GLUE: [&str; 12] = ["a", "Z", "0", "9", "-", "_", "-x", "_1", "s", "d", "x-y", "1a"];

pub fn run(ctx: &mut Ctx) {
    let lab = Lab::new();
    let kws = keywords(&lab);
    let ids = idents(&lab, ctx.thorough);
    ctx.notes.insert("identifiers".into(), ids.len().to_string());
    ctx.notes.insert("keywords".into(), kws.len().to_string());
    let per = if ctx.thorough { 90 } else { 16 };
    let nts: Vec<&'static str> = lab.ents.iter().map(|e| e.nt).collect();
    for nt in nts {
        for d0 in corpus(&lab, nt, per) {
            let s = abstracted(&lab.g, &d0);
            let mut d = d0.clone();
            let long = d.len() > 60 && !ctx.thorough;
            for i in 0..d.len() {
                match s[i] {
                    NAME | VAR => {
                        for (k, x) in ids.iter().enumerate() {
                            if long && k % 11 != i % 11 || x.len() > 2000 && d.len() > 12 {
                                continue;
                            }
                            d[i] = if s[i] == NAME { x } else { ist(&format!("?{}", x)) };
                            both(ctx, &lab, nt, &d, "identifiers_placed");
                        }
                        // characters no identifier contains, inside one
                        if d.len() > 1 && d0[i - 1] != "(" {
                            for c in "!\"$%&'*+,/:<=>@[\\]^`{|}~.é→\u{a0}\u{7f}\u{1}".chars() {
                                for w in [format!("{}{}", d0[i], c), format!("{}{}b", d0[i], c), format!("{}{}", c, d0[i])] {
                                    if s[i] == VAR && w.starts_with(c) || (s[i] == NAME && c == ':' && w.starts_with(c)) {
                                        continue;
                                    }
                                    d[i] = ist(&w);
                                    both(ctx, &lab, nt, &d, "foreign_characters");
                                }
                            }
                        }
                    }
                    NUM | UINT | LP | RP => {}
                    _ => {
                        let k = d0[i];
                        let wordy = k.ends_with(|c: char| c.is_ascii_alphanumeric());
                        if !wordy {
                            continue;
                        }
                        for g in GLUE {
                            d[i] = ist(&format!("{}{}", k, g));
                            both(ctx, &lab, nt, &d, "keywords_glued");
                            if k.starts_with(|c: char| c.is_ascii_alphabetic()) && g.starts_with(|c: char| c.is_ascii_alphabetic()) {
                                d[i] = ist(&format!("{}{}", g, k));
                                both(ctx, &lab, nt, &d, "keywords_prefixed");
                            }
                        }
                        for cut in 1..k.len() {
                            let w = &k[..cut];
                            if w != ":" && w != "?" && w != "#" {
                                d[i] = ist(w);
                                both(ctx, &lab, nt, &d, "keywords_cut");
                            }
                        }
                        if k.starts_with(|c: char| c.is_ascii_alphabetic()) {
                            for cut in 1..k.len() {
                                if refp::is_name(&k[cut..]) {
                                    d[i] = ist(&k[cut..]);
                                    both(ctx, &lab, nt, &d, "keywords_cut");
                                }
                            }
                        }
                        for w in &kws {
                            if w.ends_with(|c: char| c.is_ascii_alphanumeric()) {
                                d[i] = w;
                                both(ctx, &lab, nt, &d, "keywords_replaced");
                                let x = w.trim_start_matches([':', '?', '#']);
                                if !long {
                                    d[i] = ist(&format!("{}{}", k, x));
                                    both(ctx, &lab, nt, &d, "keywords_glued");
                                }
                            }
                        }
                    }
                }
                d[i] = d0[i];
            }
        }
    }
    // all short identifiers, bare
    let alpha = b"azAZ09-_";
    for nt in ["name", "predicate", "action-symbol", "da-symbol", "function-symbol", "pref-name", "primitive-type", "variable", "type", "f-head", "bft", "term"] {
        for len in 1..=if ctx.thorough { 5 } else { 4 } {
            for mut k in 0..alpha.len().pow(len) {
                let mut w = if nt == "variable" { "?".to_string() } else { String::new() };
                for _ in 0..len {
                    w.push(alpha[k % 8] as char);
                    k /= 8;
                }
                if refp::is_name(w.trim_start_matches('?')) {
                    both(ctx, &lab, nt, &[ist(&w)], "short_identifiers");
                }
            }
        }
        for k in 1..=if ctx.thorough { 3000 } else { 600 } {
            for unit in ["l", "l1", "l-", "l_1-", "L0_"] {
                let w: String = unit.chars().cycle().take(k).collect();
                let w = format!("{}{}", if nt == "variable" { "?" } else { "" }, w);
                both(ctx, &lab, nt, &[ist(&w)], "lengths");
            }
        }
    }
    // every word spelled by a keyword glued to a keyword, and in every leaf entry
    for e in lab.ents.iter() {
        if leaf_docs(e.nt).is_empty() || e.nt == "number" || e.nt == "ftype" || e.nt.ends_with("-op") || e.nt == "binary-comp" {
            if !["assign-op"].contains(&e.nt) {
                continue;
            }
        }
        for a in &kws {
            for b in kws.iter().copied().chain(GLUE) {
                let w = format!("{}{}", a, b.trim_start_matches([':', '?', '#']));
                let body = w.trim_start_matches([':', '?', '#']);
                if refp::is_name(body) && w.len() - body.len() <= 1 {
                    both(ctx, &lab, e.nt, &[ist(&w)], "keyword_pairs");
                }
            }
        }
    }
}
