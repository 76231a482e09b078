//! C17: requirements. States are pairs, lists and sets of requirements.
use crate::ctx::{guard, hash, Case, Ctx};
#[cfg(feature = "parser")]
use pddl::Parser;
use pddl::{Requirement as R, Requirements};
use std::collections::BTreeSet;

/// The documentation of every requirement, in declaration order: key, what it implies besides itself, what it stands for.
pub const TABLE: [(R, &str, &[&str], &[&str]); 21] = {
    use R::*;
    [
        (Strips, ":strips", &[], &[":strips"]),
        (Typing, ":typing", &[], &[":typing"]),
        (NegativePreconditions, ":negative-preconditions", &[], &[":negative-preconditions"]),
        (DisjunctivePreconditions, ":disjunctive-preconditions", &[], &[":disjunctive-preconditions"]),
        (Equality, ":equality", &[], &[":equality"]),
        (ExistentialPreconditions, ":existential-preconditions", &[], &[":existential-preconditions"]),
        (UniversalPreconditions, ":universal-preconditions", &[], &[":universal-preconditions"]),
        (
            QuantifiedPreconditions,
            ":quantified-preconditions",
            &[":existential-preconditions", ":universal-preconditions"],
            &[":existential-preconditions", ":universal-preconditions"],
        ),
        (ConditionalEffects, ":conditional-effects", &[], &[":conditional-effects"]),
        (Fluents, ":fluents", &[":numeric-fluents", ":object-fluents"], &[":numeric-fluents", ":object-fluents"]),
        (NumericFluents, ":numeric-fluents", &[], &[":numeric-fluents"]),
        (ObjectFluents, ":object-fluents", &[], &[":object-fluents"]),
        (
            Adl,
            ":adl",
            &[
                ":strips",
                ":typing",
                ":negative-preconditions",
                ":disjunctive-preconditions",
                ":equality",
                ":quantified-preconditions",
                ":existential-preconditions",
                ":universal-preconditions",
                ":conditional-effects",
            ],
            &[
                ":strips",
                ":typing",
                ":negative-preconditions",
                ":disjunctive-preconditions",
                ":equality",
                ":existential-preconditions",
                ":universal-preconditions",
                ":conditional-effects",
            ],
        ),
        (DurativeActions, ":durative-actions", &[], &[":durative-actions"]),
        (DurationInequalities, ":duration-inequalities", &[], &[":duration-inequalities"]),
        (ContinuousEffects, ":continuous-effects", &[], &[":continuous-effects"]),
        (DerivedPredicates, ":derived-predicates", &[], &[":derived-predicates"]),
        (TimedInitialLiterals, ":timed-initial-literals", &[":durative-actions"], &[":timed-initial-literals", ":durative-actions"]),
        (Preferences, ":preferences", &[], &[":preferences"]),
        (Constraints, ":constraints", &[], &[":constraints"]),
        (ActionCosts, ":action-costs", &[], &[":action-costs"]),
    ]
};
fn index(k: &str) -> usize {
    TABLE.iter().position(|t| t.1 == k).unwrap()
}
/// Position by variant, not through the library's strings.
fn of(r: &R) -> usize {
    TABLE.iter().position(|t| t.0 as usize == *r as usize).unwrap()
}
type Set = BTreeSet<usize>;
fn stands(i: usize) -> Set {
    TABLE[i].3.iter().map(|k| index(k)).collect()
}
fn effective(l: &[usize]) -> Set {
    if l.is_empty() {
        return [index(":strips")].into_iter().collect();
    }
    l.iter().flat_map(|i| stands(*i)).collect()
}
fn names(s: &Set) -> String {
    s.iter().map(|i| TABLE[*i].1).collect::<Vec<_>>().join(" ")
}
fn eff(r: &Requirements) -> Result<Set, String> {
    let h = r.to_effective();
    let s: Set = h.iter().map(of).collect();
    if s.len() != h.len() {
        return Err("the effective set holds a requirement twice".into());
    }
    Ok(s)
}
fn check(c: &Case) -> Option<String> {
    let at = |k: &str| index(c.get(k));
    match c.get("what") {
        "contains" => {
            let (a, b) = (at("a"), at("b"));
            let want = a == b || TABLE[a].2.contains(&TABLE[b].1);
            let (x, y) = (TABLE[a].0, TABLE[b].0);
            for (got, how) in [(x.contains(y), "value"), (x.contains(&y), "reference")] {
                if got != want {
                    return Some(format!("{}.contains({}) by {} is {}, documented {}", TABLE[a].1, TABLE[b].1, how, got, want));
                }
            }
            None
        }
        "expand" => {
            let a = at("a");
            let v: Vec<usize> = TABLE[a].0.expand().iter().map(of).collect();
            let s: Set = v.iter().copied().collect();
            if s != stands(a) || s.len() != v.len() {
                return Some(format!("{} expands to {}, documented {}", TABLE[a].1, names(&s), names(&stands(a))));
            }
            None
        }
        "list" => {
            let l: Vec<usize> = c.get("list").split(' ').filter(|s| !s.is_empty()).map(index).collect();
            list(&l, true)
        }
        k => panic!("unknown {}", k),
    }
}
fn list(l: &[usize], texts: bool) -> Option<String> {
    let want = effective(l);
    let rs: Vec<R> = l.iter().map(|i| TABLE[*i].0).collect();
    let mut made: Vec<(&str, Requirements)> = vec![("new", Requirements::new(rs.clone()))];
    if texts {
        made.push(("from a vector", Requirements::from(rs.clone())));
        made.push(("from an iterator", rs.iter().copied().collect()));
        #[cfg(feature = "parser")]
        {
        let text = l.iter().map(|i| TABLE[*i].1).collect::<Vec<_>>().join(" ");
        let sect = if l.is_empty() { String::new() } else { format!("(:requirements {})", text) };
        if !l.is_empty() {
            match Requirements::from_str(&sect) {
                Ok(r) => made.push(("text", r)),
                Err(_) => return Some(format!("{} was refused", sect)),
            }
        }
        match pddl::Domain::from_str(&format!("(define (domain d) {})", sect)) {
            Ok(d) => made.push(("domain", d.requirements().clone())),
            Err(_) => return Some(format!("domain with {} was refused", sect)),
        }
        match pddl::Problem::from_str(&format!("(define (problem p) (:domain d) {} (:init) (:goal (p)))", sect)) {
            Ok(d) => made.push(("problem", d.requirements().clone())),
            Err(_) => return Some(format!("problem with {} was refused", sect)),
        }
        }
    }
    for (how, r) in made {
        if r.iter().map(of).collect::<Vec<_>>() != l {
            return Some(format!("[{}] made from {} lists {:?}", names(&l.iter().copied().collect()), how, *r));
        }
        match eff(&r) {
            Ok(s) if s == want => {}
            Ok(s) => return Some(format!("effective set of {:?} ({}) is {}, documented {}", rs, how, names(&s), names(&want))),
            Err(m) => return Some(m),
        }
    }
    None
}
pub fn one(c: &Case) -> Option<String> {
    guard(|| check(c)).unwrap_or_else(|p| Some(format!("panicked: {}", p)))
}

pub fn run(ctx: &mut Ctx) {
    let mut go = |ctx: &mut Ctx, tag: &str, f: &[(&str, String)]| {
        ctx.add("generated", 1);
        let c = Case::new("req", &[&[("what", tag.to_string())], f].concat());
        if ctx.fresh(hash(&c.fields)) {
            ctx.in_flight(&c);
            ctx.add("traces", 1);
            ctx.add(tag, 1);
            ctx.sample(|| c.key());
            if let Some(m) = one(&c) {
                ctx.violation(c, m);
            }
        }
    };
    for a in TABLE {
        go(ctx, "expand", &[("a", a.1.into())]);
        for b in TABLE {
            go(ctx, "contains", &[("a", a.1.into()), ("b", b.1.into())]);
        }
    }
    let text = |l: &[usize]| l.iter().map(|i| TABLE[*i].1).collect::<Vec<_>>().join(" ");
    // every list up to a length, with repetitions, in every order
    for len in 0..=if ctx.thorough { 4u32 } else { 3 } {
        for mut k in 0..21usize.pow(len) {
            let mut l = vec![];
            for _ in 0..len {
                l.push(k % 21);
                k /= 21;
            }
            go(ctx, "list", &[("list", text(&l))]);
        }
    }
    // long lists: runs, rotations and reversals of all requirements
    let all: Vec<usize> = (0..21).collect();
    for k in 0..21 {
        let mut l = all.clone();
        l.rotate_left(k);
        for cut in 1..=21 {
            go(ctx, "list", &[("list", text(&l[..cut]))]);
            let r: Vec<usize> = l[..cut].iter().rev().copied().collect();
            go(ctx, "list", &[("list", text(&r))]);
            go(ctx, "list", &[("list", text(&[r, l[..cut].to_vec()].concat()))]);
        }
        go(ctx, "list", &[("list", text(&vec![k; 300]))]);
        go(ctx, "list", &[("list", text(&[vec![k; 255], all.clone()].concat()))]);
    }
    // every set of requirements
    let (mut n, mut bad) = (0, vec![]);
    for m in 0..1u32 << 21 {
        if (m as u64) % ctx.nshards != ctx.shard {
            continue;
        }
        if m & 0xfff == 0 {
            ctx.tick();
        }
        let l: Vec<usize> = (0..21).filter(|i| m >> i & 1 == 1).collect();
        n += 1;
        if let Some(msg) = guard(|| list(&l, ctx.thorough && m % 4 == 0)).unwrap_or_else(|p| Some(format!("panicked: {}", p))) {
            if bad.len() < 5 {
                bad.push((l, msg));
            }
        }
    }
    ctx.add("sets", n);
    ctx.add("traces", n);
    ctx.add("states_extra", n);
    ctx.add("transitions", n);
    for (l, m) in bad {
        ctx.violation(Case::new("req", &[("what", "list".into()), ("list", text(&l))]), m);
    }
}
