//! The registry of checks.
pub mod build;
#[cfg(feature = "parser")]
pub mod consume;
#[cfg(feature = "parser")]
pub mod corpus;
#[cfg(feature = "parser")]
pub mod effort;
pub mod enums;
#[cfg(feature = "parser")]
pub mod equal;
pub mod features;
pub mod hashes;
#[cfg(feature = "parser")]
pub mod history;
#[cfg(feature = "parser")]
pub mod layout;
pub mod names;
#[cfg(feature = "parser")]
pub mod nums;
#[cfg(feature = "parser")]
pub mod refuse;
pub mod reqs;
#[cfg(feature = "parser")]
pub mod total;
#[cfg(feature = "parser")]
pub mod words;
use crate::ctx::{Case, Ctx};
#[cfg(feature = "parser")]
use crate::docs::tokens;
#[cfg(feature = "parser")]
use crate::structure::*;

pub struct Info {
    pub explain: &'static str,
    pub assume: &'static [&'static str],
}

const STRUCT: &str = "states: distinct (entry point, token string) documents; transitions: configurations expanded by the grammar's \
derivation search plus deviation edges (repetition, nesting, leaf substitution, token edits, part substitution, section pairs); \
traces: documents replayed through the real parser and compared, value and end position, with the reference semantics";
const REFP: &str = "the reference semantics (mc/src/refp.rs) states the documented language correctly; it was calibrated on every explored document";

fn entries_of(p: &str) -> &'static [&'static str] {
    match p {
        "C01" => &[
            "domain", "structure", "requirements", "types", "constants", "predicates", "functions", "domain-constraints", "action", "durative",
            "derived",
        ],
        "C02" => &["problem", "objects", "init", "init-el", "goal", "metric", "length", "problem-constraints", "bft", "literal-name", "timeless", "requirements"],
        "C03" => &[
            "gd", "pref-gd", "pre-gd", "goal", "derived", "action", "term", "fterm", "atomic-term", "atomic-name", "literal-term", "literal-name", "f-comp",
            "domain", "problem",
        ],
        "C04" => &["effect", "c-effect", "forall-c-effect", "when-c-effect", "cond-effect", "p-effect", "action", "domain"],
        "C05" => &[
            "durative", "duration", "simple-duration", "d-value", "da-gd", "timed-gd", "pref-timed-gd", "da-effect", "timed-effect", "f-assign-da", "f-exp-da",
            "f-exp-t", "domain",
        ],
        "C06" => &[
            "f-exp", "f-exp-da", "f-exp-t", "metric-f-exp", "metric", "f-comp", "f-head", "p-effect", "f-assign-da", "number", "binary-op", "multi-op",
            "binary-comp", "d-op", "assign-op", "assign-op-t",
        ],
        "C07" => &["con-gd", "con2-gd", "pref-con-gd", "domain-constraints", "problem-constraints", "domain", "problem"],
        "C08" => &[
            "types", "constants", "objects", "functions", "predicates", "skel", "fskel", "type", "ftype", "primitive-type", "action", "durative",
            "forall-c-effect", "gd", "domain", "problem",
        ],
        _ => &[],
    }
}

pub fn info(p: &str) -> Option<Info> {
    Some(match p {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" => Info { explain: STRUCT, assume: &[REFP] },
        "C11" => Info { explain: STRUCT, assume: &[REFP] },
        "C10" => Info {
            explain: "states: distinct documents with one word replaced; transitions: word substitutions (every identifier of the list at every name \
position, every gluing, cutting and exchange of keywords at every keyword position, all short identifiers, all lengths); traces: texts replayed \
through the real parser and compared with the reference semantics, in both directions",
            assume: &[REFP],
        },
        "C09" => Info {
            explain: "states: distinct laid-out texts; transitions: separator replacements from the canonical layout (every separator in every \
single gap, all pairs of gaps of short documents, uniform and alternating layouts); traces: laid-out texts replayed through the real parser and \
compared with the meaning of the token sequence",
            assume: &[REFP],
        },
        "C12" => Info {
            explain: "states: distinct (entry point or all entry points, text) pairs and nesting configurations; transitions: generated texts (short strings, code points, single-character edits, cuts, size sweeps, repeated units, nestings); traces: calls into the real parser, each under a panic handler, a watchdog and process supervision",
            assume: &["40 s without progress is a hang"],
        },
        "C13" => Info {
            explain: "states: distinct (entry point, text before, construct in one of six layouts, text after) tuples, raw texts and sequences of three constructs; transitions: generated tuples; traces: calls into the real parser in every call form (free function, Parser::parse, parse_span, from_str, span in the middle of a text), compared with each other, with the true position, and with the meaning of the construct",
            assume: &[REFP],
        },
        "C14" => Info {
            explain: "states: distinct literals, bit patterns, integers, doubles, strings and pairs of values; transitions: generated configurations; traces: parses, constructions, conversions, comparisons and re-readings by the real code compared with exact arithmetic",
            assume: &["the rounding of f32 and f64 arithmetic, of `as` casts and of str::parse (the latter checked on exact halfway literals)"],
        },
        "C15" => Info {
            explain: "states: distinct histories of name creations (operations: constructor or parser applied to a text, or forgetting the oldest name), in each of the two configurations (interning on, interning off); transitions: operations performed; traces: histories run from the pristine process state in a process of their own, every name compared with every other and with its text after each creation and at the end",
            assume: &["a forked child of a worker that has made no names has the pristine intern table"],
        },
        "C17" => Info {
            explain: "states: distinct pairs and lists of requirements and all 2^21 sets of them; transitions: generated pairs, lists and sets; traces: contains, expand and to_effective calls (lists also through every constructor and through parsed requirement sections, domains and problems) compared with the documented table",
            assume: &["the documented table (props/reqs.rs) is transcribed correctly"],
        },
        "C18" => Info {
            explain: "states: distinct (keyword type, text) pairs; transitions: generated texts (all spellings, their one-character edits, gluings, all short strings over the symbols and letters); traces: conversions, comparisons, printings and parses of each text compared with the documented spellings",
            assume: &["the documented spellings are transcribed correctly"],
        },
        "C19" => Info {
            explain: "states: distinct (operation, argument tuple) applications, and builder histories; transitions: read-backs of a result through one accessor, conversion, dereference or iteration; traces: applications of public constructors, conversions and builder methods to every tuple of their argument pools, and all builder-method sequences to the depth bound and all orders, each compared with the term the model assigns",
            assume: &["the argument pools (two to twenty-five values per type, built level by level from the library's own constructors, all checked) represent each type"],
        },
        "C20" => Info {
            explain: "states: distinct histories of parse calls in each of the two configurations; transitions: parse calls; traces: histories run from the pristine process state in a process of their own (all ordered pairs and triples of a corpus, every text with all its one-token neighbours, beginnings and layouts, one text through all pairs of entry points, the whole corpus in many orders, one text repeated hundreds of times, a full table of names first, two threads in turn), all texts at the same place in memory, each outcome compared with the outcome of the call alone, each earlier value with what it was",
            assume: &["a forked child of a worker that has parsed nothing has the pristine process-wide state"],
        },
        "C21" => Info {
            explain: "states: distinct families of texts (a construct of the grammar repeated, or put around itself, with every kind of ending, or a token or separator made long); transitions: members of the families; traces: members run through the real code, built with a counter on every region, and the growth of executed regions plus allocations from each size to the next compared with the quadratic bound",
            assume: &["code inside the standard library other than allocation is not counted"],
        },
        "C22" => Info {
            explain: "states: distinct cases (name histories, constructions, requirement lists, keyword texts, pairs of values, texts of every entry point with their neighbours); transitions: operations; traces: cases run in each of the four builds of the library (parser and interning on and off; parses in two), outcomes compared between the builds, directly or through one common model",
            assume: &["a case that violates the common model in the same way in every configuration is not a disagreement (other properties judge it)"],
        },
        "C23" => Info {
            explain: "states: distinct values (parsed texts of every construct with all their one-edit neighbours, constructed values of every public type), in each of the two configurations; transitions: comparisons; traces: pairs of values, each compared in both directions, as originals and as copies, with what their contents say",
            assume: &["the content of a value is what its accessors and variants show (checked against the text by C01 to C08), and for the timeless section of a domain its text"],
        },
        "C24" => Info {
            explain: "states: distinct (entry point, text before, text) tuples; transitions: generated tuples (one-token edits, insertions, cuts by tokens and by characters, layouts, frames, all short strings); traces: texts given to the real parser in every call form (free function, Parser::parse, parse_span, from_str, free function and parse_span in the middle of a text, and again), every position of every refusal compared with the text and between the forms",
            assume: &[],
        },
        _ => return None,
    })
}

#[cfg(not(feature = "parser"))]
pub fn run(ctx: &mut Ctx) {
    features::run(ctx)
}
#[cfg(feature = "parser")]
pub fn run(ctx: &mut Ctx) {
    let p = ctx.prop.clone();
    match p.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" => structural(ctx, &p),
        "C09" => layout::run(ctx),
        "C10" => words::run(ctx),
        "C11" => refusal(ctx),
        "C12" => total::run(ctx),
        "C13" => consume::run(ctx),
        "C14" => nums::run(ctx),
        "C15" => names::run(ctx),
        "C17" => reqs::run(ctx),
        "C18" => enums::run(ctx),
        "C19" => build::run(ctx),
        "C20" => history::run(ctx),
        "C21" => effort::run(ctx),
        "C22" => features::run(ctx),
        "C23" => equal::run(ctx),
        "C24" => refuse::run(ctx),
        _ => panic!("no check {}", p),
    }
}

#[cfg(feature = "parser")]
fn structural(ctx: &mut Ctx, p: &str) {
    let lab = Lab::new();
    let b = Bounds::of(ctx.thorough);
    for nt in entries_of(p) {
        if !lab.g.nts.contains_key(*nt) {
            continue;
        }
        let whole = (*nt == "domain" && p != "C01") || (*nt == "problem" && p != "C02");
        if whole {
            // the construct in its place inside a whole document
            let b2 = Bounds { base: 0, dev: 0, big: 0, sect: 0, ..b.clone() };
            explore(ctx, &lab, nt, false, &b2, Want::Accepted);
            continue;
        }
        explore(ctx, &lab, nt, false, &b, Want::Accepted);
        if lab.o.nts.contains_key(*nt) {
            explore(ctx, &lab, nt, true, &Bounds { base: b.base * 4, ..b.clone() }, Want::Accepted);
        }
    }
}

/// C11: everything that is not a sentence is refused.
#[cfg(feature = "parser")]
fn refusal(ctx: &mut Ctx) {
    let lab = Lab::new();
    let mut b = Bounds::of(ctx.thorough);
    b.base /= 4;
    b.dev /= 2;
    let order: Vec<&'static str> = lab.ents.iter().map(|e| e.nt).collect();
    for nt in order {
        if !lab.g.nts.contains_key(nt) {
            continue;
        }
        explore(ctx, &lab, nt, false, &b, Want::Rejected);
        if lab.o.nts.contains_key(nt) {
            explore(ctx, &lab, nt, true, &b, Want::Rejected);
        }
        // all short token strings over the construct's own alphabet
        let e = lab.ent(nt);
        let alpha = lab.g.alphabet(nt);
        let cap: u64 = if ctx.thorough { 4_000_000 } else { 150_000 };
        let mut len = 1u32;
        while (alpha.len() as u64).checked_pow(len).map_or(false, |x| x <= cap) && len < 12 {
            let mut idx = vec![0usize; len as usize];
            'all: loop {
                let s: Vec<u8> = idx.iter().map(|i| alpha[*i]).collect();
                check(ctx, e, &lab.pool.same(&s), Want::Rejected);
                let mut k = 0;
                loop {
                    idx[k] += 1;
                    if idx[k] < alpha.len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                    if k == idx.len() {
                        break 'all;
                    }
                }
            }
            ctx.notes.insert(format!("all_token_strings_to:{}", nt), len.to_string());
            len += 1;
        }
    }
}

/// Replays one case; Some(message) when the property is violated.
#[cfg(not(feature = "parser"))]
pub fn one(c: &Case) -> Option<String> {
    features::one(c)
}
#[cfg(feature = "parser")]
pub fn one(c: &Case) -> Option<String> {
    match c.kind.as_str() {
        "parse" => {
            let lab = Lab::new();
            let text = c.get("text").to_string();
            let d = tokens(&text);
            let (r, ends) = crate::docs::render(&d);
            assert_eq!(r, text, "not in canonical layout");
            compare(lab.ent(c.get("entry")), &d, &text, &ends)
        }
        "total" | "deep" | "deep-fine" | "deep-far" => total::one(c),
        "consume" | "consume-seq" => consume::one(c),
        "num" => nums::one(c),
        "req" => reqs::one(c),
        "keyword" => enums::one(c),
        "build" => build::one(c),
        "build-equal" => build::one_equal(c),
        "differ" => features::one(c),
        k if k.starts_with("equal") => equal::one(c),
        "effort" => effort::one(c),
        "refusal" => refuse::one(c),
        k if k.starts_with("history") => history::one(c),
        k if k.starts_with("names") => names::one(c),
        "layout" | "layout-site" => layout::one(c),
        k => panic!("unknown case kind {}", k),
    }
}
