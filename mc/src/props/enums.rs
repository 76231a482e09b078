//! C18: keywords. States are (keyword type, text) pairs; every direction is followed from each.
use crate::ctx::{guard, hash, Case, Ctx};
use crate::docs::ist;
use crate::props::reqs;
#[cfg(feature = "parser")]
use pddl::parsers;
use pddl::*;
use std::collections::BTreeSet;

/// All documented spellings of one type: (value's debug name, spelling).
type Words = Vec<(String, &'static str)>;
struct Kind {
    name: &'static str,
    words: Words,
    /// every other accepted spelling and the spelling of its value
    alias: Option<(&'static str, &'static str)>,
    /// conversion from text: debug name of the value
    from: fn(&str) -> Option<String>,
    /// parser on the text: debug name of the value, amount consumed
    parse: fn(&str) -> Option<(String, usize)>,
    /// value number -> every text it gives
    texts: fn(usize) -> Vec<String>,
    /// (value number, text) -> comparisons with the text, each way it can be compared
    eq: fn(usize, &str) -> Vec<bool>,
}
macro_rules! kind {
    ($name:literal, $t:ty, [$($v:expr => $s:literal),* $(,)?], $parse:expr, $alias:expr, $texts:expr, $eq:expr) => {
        Kind {
            name: $name,
            words: vec![$((format!("{:?}", $v), $s)),*],
            alias: $alias,
            from: |s| <$t>::try_from(s).ok().map(|v| format!("{:?}", v)),
            #[cfg(not(feature = "parser"))]
            parse: |_| None,
            #[cfg(feature = "parser")]
            parse: |s| ($parse)(s).ok().map(|(r, v): (parsers::Span, $t)| (format!("{:?}", v), r.location_offset())),
            texts: |i| {
                let v: $t = [$($v),*][i].clone();
                let f: fn(&$t) -> Vec<String> = $texts;
                let mut o = vec![v.to_string(), format!("{}", v)];
                o.extend(f(&v));
                o
            },
            eq: |i, s| {
                let v: $t = [$($v),*][i].clone();
                let f: fn(&$t, &str) -> Vec<bool> = $eq;
                f(&v, s)
            },
        }
    };
}
fn kinds() -> Vec<Kind> {
    use std::borrow::Borrow;
    vec![
        {
            let mut k = kind!(
                "Requirement",
                Requirement,
                [
                    Requirement::Strips => ":strips",
                    Requirement::Typing => ":typing",
                    Requirement::NegativePreconditions => ":negative-preconditions",
                    Requirement::DisjunctivePreconditions => ":disjunctive-preconditions",
                    Requirement::Equality => ":equality",
                    Requirement::ExistentialPreconditions => ":existential-preconditions",
                    Requirement::UniversalPreconditions => ":universal-preconditions",
                    Requirement::QuantifiedPreconditions => ":quantified-preconditions",
                    Requirement::ConditionalEffects => ":conditional-effects",
                    Requirement::Fluents => ":fluents",
                    Requirement::NumericFluents => ":numeric-fluents",
                    Requirement::ObjectFluents => ":object-fluents",
                    Requirement::Adl => ":adl",
                    Requirement::DurativeActions => ":durative-actions",
                    Requirement::DurationInequalities => ":duration-inequalities",
                    Requirement::ContinuousEffects => ":continuous-effects",
                    Requirement::DerivedPredicates => ":derived-predicates",
                    Requirement::TimedInitialLiterals => ":timed-initial-literals",
                    Requirement::Preferences => ":preferences",
                    Requirement::Constraints => ":constraints",
                    Requirement::ActionCosts => ":action-costs",
                ],
                parsers::parse_require_key,
                None,
                |v| vec![v.as_str().into(), AsRef::<str>::as_ref(v).into(), Borrow::<str>::borrow(v).to_string()],
                |v, s| vec![*v == s, *v == s.to_string(), v.as_str() == s]
            );
            for (i, w) in k.words.iter().enumerate() {
                assert_eq!(reqs::TABLE[i].1, w.1);
            }
            k.words.truncate(21);
            k
        },
        kind!(
            "AssignOp",
            AssignOp,
            [
                AssignOp::Assign => "assign",
                AssignOp::ScaleUp => "scale-up",
                AssignOp::ScaleDown => "scale-down",
                AssignOp::Increase => "increase",
                AssignOp::Decrease => "decrease",
            ],
            parsers::parse_assign_op,
            Some(("change", "assign")),
            |v| vec![v.as_str().into(), AsRef::<str>::as_ref(v).into(), Borrow::<str>::borrow(v).to_string()],
            |v, s| vec![*v == s, *v == s.to_string(), v.as_str() == s]
        ),
        kind!("AssignOpT", AssignOpT, [AssignOpT::Increase => "increase", AssignOpT::Decrease => "decrease"], parsers::parse_assign_op_t, None, |_| vec![], |_, _| vec![]),
        kind!(
            "BinaryComp",
            BinaryComp,
            [
                BinaryComp::GreaterThan => ">",
                BinaryComp::LessThan => "<",
                BinaryComp::Equal => "=",
                BinaryComp::GreaterOrEqual => ">=",
                BinaryComp::LessThanOrEqual => "<=",
            ],
            parsers::parse_binary_comp,
            None,
            |_| vec![],
            |_, _| vec![]
        ),
        kind!(
            "BinaryOp",
            BinaryOp,
            [BinaryOp::Multiplication => "*", BinaryOp::Addition => "+", BinaryOp::Subtraction => "-", BinaryOp::Division => "/"],
            parsers::parse_binary_op,
            None,
            |_| vec![],
            |_, _| vec![]
        ),
        kind!("MultiOp", MultiOp, [MultiOp::Multiplication => "*", MultiOp::Addition => "+"], parsers::parse_multi_op, None, |v| vec![BinaryOp::from(v.clone()).to_string()], |_, _| vec![]),
        kind!("DOp", DOp, [DOp::LessThanOrEqual => "<=", DOp::GreaterOrEqual => ">=", DOp::Equal => "="], parsers::parse_d_op, None, |_| vec![], |_, _| vec![]),
        kind!("Optimization", Optimization, [Optimization::Minimize => "minimize", Optimization::Maximize => "maximize"], parsers::parse_optimization, None, |_| vec![], |_, _| vec![]),
        kind!("Interval", Interval, [Interval::All => "all"], parsers::parse_interval, None, |_| vec![], |_, _| vec![]),
        kind!("TimeSpecifier", TimeSpecifier, [TimeSpecifier::Start => "start", TimeSpecifier::End => "end"], parsers::parse_time_specifier, None, |_| vec![], |_, _| vec![]),
    ]
}
fn judge(k: &Kind, s: &str) -> Option<String> {
    let value = k.words.iter().position(|w| w.1 == s);
    let meant = value.or(k.alias.filter(|a| a.0 == s).and_then(|a| k.words.iter().position(|w| w.1 == a.1)));
    let want = meant.map(|i| k.words[i].0.clone());
    let got = (k.from)(s);
    if got != want {
        return Some(format!("{}::try_from({:?}) is {:?}, documented {:?}", k.name, s, got, want));
    }
    for i in 0..k.words.len() {
        for (j, e) in (k.eq)(i, s).into_iter().enumerate() {
            if e != (value == Some(i)) {
                return Some(format!("{}::{} compared with {:?} (way {}) is {}", k.name, k.words[i].0, s, j, e));
            }
        }
    }
    if let Some(i) = value {
        for t in (k.texts)(i) {
            if t != s {
                return Some(format!("{}::{} gives the text {:?}, documented {:?}", k.name, k.words[i].0, t, s));
            }
        }
    }
    if !cfg!(feature = "parser") {
        return None;
    }
    // the parser may accept white space and comments in front; any other text it takes whole only if it is a spelling
    match ((k.parse)(s), want) {
        (Some((v, n)), Some(w)) if v == w && n == s.len() => None,
        (p, Some(w)) => Some(format!("the parser of {} reads {:?} as {:?}, documented {}", k.name, s, p, w)),
        (Some((v, n)), None) if n == s.len() && !s.starts_with([' ', '\t', '\n', '\r', ';']) => {
            Some(format!("the parser of {} reads {:?} whole as {}, which is no spelling of it", k.name, s, v))
        }
        _ => None,
    }
}
pub fn one(c: &Case) -> Option<String> {
    let ks = kinds();
    let k = ks.iter().find(|k| k.name == c.get("type")).unwrap();
    let s = c.get("text");
    guard(|| judge(k, s)).unwrap_or_else(|p| Some(format!("panicked: {}", p)))
}
pub fn run(ctx: &mut Ctx) {
    let ks = kinds();
    let mut base: BTreeSet<String> = BTreeSet::new();
    for k in &ks {
        base.extend(k.words.iter().map(|w| w.1.to_string()));
        base.extend(k.alias.map(|a| a.0.to_string()));
        base.extend(k.words.iter().map(|w| w.0.clone()));
    }
    for s in [
        "and", "or", "not", "imply", "undefined", "over", "at", "total-time", "==", "=>", "=<", "!=", "<>", ">>", "**", "×", "÷", "−", "adl", "requirements",
        ":requirements", ":domain-axioms", ":expression-evaluation", ":goal-utilities", ":timed-effects", ":action-expansions", ":dag-expansions", ":safety-constraints",
        ":open-world", ":true-negation", ":ucpop", ":time", ":existential-precondition", ":derived-predicate", ":constraint", ":preference", ":action-cost", "min", "max",
        "minimise", "maximise", "ALL", "Start", "inc", "dec", "scale", "up", "down", "change-x",
    ] {
        base.insert(s.into());
    }
    let chars: Vec<char> = "abcdefghijklmnopqrstuvwxyzAZ0-_:><=*+/ \n;.?#(é\0".chars().collect();
    let mut go = |ctx: &mut Ctx, s: &str| {
        for k in &ks {
            ctx.add("generated", 1);
            if !ctx.fresh(hash(&(k.name, s))) {
                continue;
            }
            let c = Case::new("keyword", &[("type", k.name.into()), ("text", s.into())]);
            ctx.in_flight(&c);
            ctx.add("traces", 1);
            ctx.sample(|| c.key());
            if let Some(m) = guard(|| judge(k, s)).unwrap_or_else(|p| Some(format!("panicked: {}", p))) {
                ctx.violation(c, m);
            }
        }
    };
    go(ctx, "");
    let words: Vec<&'static str> = base.iter().map(|s| ist(s)).collect();
    for w in &words {
        go(ctx, w);
        go(ctx, &w.to_uppercase());
        for t in [" ", "\n", "\t", ";\n", ":", "(", ")", "\0", "\u{feff}", "\u{a0}"] {
            go(ctx, &format!("{}{}", t, w));
            go(ctx, &format!("{}{}", w, t));
            go(ctx, &format!("{}{}{}", t, w, t));
        }
        // one and (thorough) two character edits
        let mut near: BTreeSet<String> = BTreeSet::new();
        let edits = |w: &str, out: &mut BTreeSet<String>, chars: &[char]| {
            let v: Vec<char> = w.chars().collect();
            for i in 0..=v.len() {
                out.insert(v[..i].iter().collect());
                out.insert(v[i..].iter().collect());
                for &c in chars {
                    let mut x = v.clone();
                    x.insert(i, c);
                    out.insert(x.iter().collect());
                }
                if i < v.len() {
                    let mut x = v.clone();
                    x.remove(i);
                    out.insert(x.iter().collect());
                    let mut x = v.clone();
                    x[i] = if x[i].is_lowercase() { x[i].to_ascii_uppercase() } else { x[i].to_ascii_lowercase() };
                    out.insert(x.iter().collect());
                    for &c in chars {
                        let mut x = v.clone();
                        x[i] = c;
                        out.insert(x.iter().collect());
                    }
                    if i + 1 < v.len() {
                        let mut x = v.clone();
                        x.swap(i, i + 1);
                        out.insert(x.iter().collect());
                    }
                }
            }
        };
        edits(w, &mut near, &chars);
        for s in &near {
            go(ctx, s);
        }
        if ctx.thorough {
            let few = ['-', ':', 's', 'E', '=', ' '];
            for s in near.clone() {
                let mut far = BTreeSet::new();
                edits(&s, &mut far, &few);
                for t in &far {
                    go(ctx, t);
                }
            }
        }
    }
    for a in &words {
        for b in &words {
            for sep in ["", "-", " "] {
                go(ctx, &format!("{}{}{}", a, sep, b));
            }
        }
    }
    // all short strings over the symbols
    let alpha = [">", "<", "=", "*", "+", "-", "/", " ", "a", "#", ":", "l"];
    for len in 1..=if ctx.thorough { 6u32 } else { 5 } {
        for mut k in 0..alpha.len().pow(len) {
            let mut s = String::new();
            for _ in 0..len {
                s += alpha[k % alpha.len()];
                k /= alpha.len();
            }
            go(ctx, &s);
        }
    }
    // all strings of letters as long as the shortest words
    for len in 1..=if ctx.thorough { 4u32 } else { 3 } {
        for mut k in 0..26usize.pow(len) {
            let mut s = String::new();
            for _ in 0..len {
                s.push((b'a' + (k % 26) as u8) as char);
                k /= 26;
            }
            go(ctx, &s);
        }
    }
}
