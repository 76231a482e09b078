//! The programs explored, each with the number of preemptions up to which all its interleavings are.
use crate::run::Program;

/// All sequences over an alphabet, with lengths in a range.
fn seqs(ops: &[&str], from: usize, to: usize) -> Vec<Vec<String>> {
    let mut all: Vec<Vec<String>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..to {
        last = last.iter().flat_map(|s| ops.iter().map(move |o| [s.clone(), vec![o.to_string()]].concat())).collect();
        all.extend(last.clone());
    }
    all.retain(|s| s.len() >= from);
    all
}
fn sound(setup: &[String], t: &[String]) -> bool {
    // a `drop` has something to drop, a `share` something to share
    let mut n = 0;
    for o in t {
        match o.as_str() {
            "drop" if n == 0 => return false,
            "drop" => n -= 1,
            "share" if setup.is_empty() => return false,
            "share" => {}
            _ => n += 1,
        }
    }
    true
}
/// All unordered choices of `k` threads.
fn threads(seqs: &[Vec<String>], k: usize) -> Vec<Vec<Vec<String>>> {
    fn go(s: &[Vec<String>], k: usize, from: usize, acc: &mut Vec<Vec<String>>, out: &mut Vec<Vec<Vec<String>>>) {
        if k == 0 {
            out.push(acc.clone());
            return;
        }
        for i in from..s.len() {
            acc.push(s[i].clone());
            go(s, k - 1, i, acc, out);
            acc.pop();
        }
    }
    let mut out = vec![];
    go(seqs, k, 0, &mut vec![], &mut out);
    out
}
fn setups(list: &[&[&str]]) -> Vec<Vec<String>> {
    list.iter().map(|s| s.iter().map(|x| format!("name {}", x)).collect()).collect()
}
const DOCS: [&str; 14] = [
    "parse name a",
    "parse variable ?a",
    "parse type (either a object b)",
    "parse types (:types a b - a)",
    "parse action-symbol b",
    "parse atomic-term (a ?b a)",
    "parse gd (not (a ?b))",
    "parse action (:action a :parameters (?b) :effect (a ?b))",
    "parse functions (:functions (a ?b) - number)",
    "parse domain (define (domain a) (:predicates (b ?a)))",
    "parse problem (define (problem b) (:domain a) (:objects c b) (:init (b a)) (:goal (b a)))",
    "parse init (:init (= (a b) 1) (not (c a)))",
    "parse domain (define (domain a",
    "parse f-exp (+ (a) (b c) 2)",
];
/// One for every parser not among the above.
const EVERY: [&str; 61] = [
    "parse assign-op scale-up",
    "parse assign-op-t increase",
    "parse atomic-name (a b c)",
    "parse bft (a b)",
    "parse binary-comp <=",
    "parse binary-op -",
    "parse c-effect (when (a ?b) (not (c ?b)))",
    "parse con-gd (and (always (a)) (sometime-after (b) (c)) (within 2 (a)))",
    "parse cond-effect (and (a) (not (b)))",
    "parse constants (:constants a b - c)",
    "parse d-op >=",
    "parse d-value (+ (a) 1)",
    "parse da-effect (and (at start (a)) (at end (not (b))))",
    "parse da-gd (and (at start (a)) (preference b (over all (c))))",
    "parse derived (:derived (a ?b - c) (b ?b))",
    "parse domain-constraints (:constraints (and (always (a))))",
    "parse duration (and (<= ?duration 1) (at end (>= ?duration (a))))",
    "parse durative (:durative-action a :parameters (?b) :duration () :condition () :effect (at end (c ?b)))",
    "parse effect (and (a ?b) (forall (?c) (a ?c)) (assign (d) undefined))",
    "parse f-assign-da (increase (a) (+ ?duration 2))",
    "parse f-comp (< (a) (b))",
    "parse f-exp-da (+ ?duration (a))",
    "parse f-exp-t (* (a b) #t)",
    "parse f-head (a b ?c)",
    "parse forall-c-effect (forall (?a - b) (c ?a))",
    "parse fskel (a ?b - c)",
    "parse fterm (a b (c))",
    "parse ftype number",
    "parse function-symbol a",
    "parse goal (:goal (preference a (b c)))",
    "parse init-el (at 3 (not (a b)))",
    "parse interval all",
    "parse literal-name (not (a b))",
    "parse literal-term (not (a ?b))",
    "parse metric (:metric minimize (+ (a) (is-violated b)))",
    "parse metric-f-exp (* total-time 2)",
    "parse multi-op *",
    "parse number 1.25",
    "parse objects (:objects a b - (either c object) d)",
    "parse optimization minimize",
    "parse p-effect (increase (a) 2)",
    "parse pre-gd (and (a) (forall (?b) (preference c (d ?b))))",
    "parse predicate a",
    "parse predicates (:predicates (a ?b ?c - d) (b))",
    "parse pref-con-gd (and (preference a (always (b))) (forall (?a) (at-most-once (c ?a))))",
    "parse pref-gd (preference a (b))",
    "parse pref-name a",
    "parse pref-timed-gd (preference a (at end (b)))",
    "parse primitive-type object",
    "parse problem-constraints (:constraints (preference a (hold-during 1 2 (b))))",
    "parse requirements (:requirements :strips :typing :adl)",
    "parse simple-duration (at start (= ?duration 1))",
    "parse structure (:derived (a) (not (b)))",
    "parse term (a b)",
    "parse time-spec start",
    "parse timed-effect (at end (a))",
    "parse timed-gd (over all (a))",
    "parse when-c-effect (when (a) (and (b) (c)))",
    "parse gd (forall (?a) (exists (?b - c) (imply (or (a ?b) (= ?a ?b)) (> (d) 1))))",
    "parse req-key :adl",
    "parse skel (a ?b - c)",
];
const LARGE: [&str; 3] = [
    "parse domain (define (domain briefcase) (:requirements :strips :typing :conditional-effects) (:types location physob) (:constants b p d - physob) (:predicates (at ?x - physob ?l - location) (in ?x ?y - physob)) (:action mov-b :parameters (?m ?l - location) :precondition (and (at b ?m) (not (= ?m ?l))) :effect (and (at b ?l) (not (at b ?m)) (forall (?z) (when (and (in ?z) (not (= ?z b))) (and (at ?z ?l) (not (at ?z ?m))))))))",
    "parse problem (define (problem get-paid) (:domain briefcase) (:init (place home) (place office) (object p) (object d) (object b) (at b home) (at p home) (at d home) (in p)) (:goal (and (at b office) (at d office) (at p home))))",
    "parse durative (:durative-action fly :parameters (?p - plane ?t - airport) :duration (and (= ?duration (dist ?p ?t)) (<= ?duration 9)) :condition (over all (at ?p ?t)) :effect (and (at start (not (at ?p ?t))) (at end (increase (dist ?p ?t) 2))))",
];

pub fn programs(thorough: bool) -> Vec<(u32, Program)> {
    const ALL: u32 = 99;
    let mut out: Vec<(u32, Program)> = vec![];
    let mut add = |bound: u32, setup: &Vec<String>, threads: Vec<Vec<String>>| {
        if threads.iter().all(|t| sound(setup, t)) {
            out.push((bound, Program { setup: setup.clone(), threads }))
        }
    };
    let pick = |q: usize, t: usize| if thorough { t } else { q };
    // names by two threads, over tables of every size up to where it grows
    let tables = setups(&[&[], &["b"], &["a", "b"], &["b", "d"], &["a", "b", "c"], &["d", "e", "f", "g"], &["a", "b", "d", "e", "f"]]);
    let abc = ["name a", "name b", "name c"];
    for s in &tables {
        for t in threads(&seqs(&abc, 1, 2), 2) {
            add(ALL, s, t);
        }
    }
    for s in &tables[..pick(3, 7)] {
        for t in threads(&seqs(&abc, 3, 3), 2) {
            // without a setup there are many more interleavings, those of the table being made
            add(if s.is_empty() { pick(3, 99) as u32 } else { ALL }, s, t);
        }
    }
    // every kind of operation on names
    let kinds = ["name a", "string a", "static a", "name b", "drop", "share", "name object", "string "];
    for s in &setups(&[&[], &["a"], &["b"]]) {
        for t in threads(&seqs(&kinds, 1, 2), 2) {
            add(ALL, s, t);
        }
        for t in threads(&seqs(&["name a", "name b", "drop", "share"], 3, pick(3, 4)), 2) {
            add(pick(2, 4) as u32, s, t);
        }
    }
    // more threads
    for s in &tables[..pick(3, 7)] {
        for t in threads(&seqs(&abc, 1, 1), 3).into_iter().chain(threads(&seqs(&abc, 1, 1), 4)) {
            add(if t.len() == 4 { pick(2, 99) } else if s.is_empty() { pick(4, 99) } else { 99 } as u32, s, t);
        }
        for t in threads(&seqs(&abc[..pick(2, 3)], 2, 2), 3) {
            add(pick(2, 3) as u32, s, t);
        }
        for t in threads(&seqs(&["name a", "drop"], 1, 3), 3) {
            add(pick(2, 3) as u32, s, t);
        }
    }
    for t in threads(&seqs(&abc[..2], 1, 1), 5) {
        add(pick(1, 3) as u32, &tables[1], t);
    }
    // parsing, with parsing and with names
    let docs: Vec<Vec<String>> = DOCS.iter().map(|d| vec![d.to_string()]).collect();
    for s in &tables[..pick(1, 3)] {
        for t in threads(&docs, 2) {
            add(pick(2, 3) as u32, s, t);
        }
        for d in &docs {
            for n in seqs(&abc, 1, pick(1, 2)) {
                add(pick(2, 4) as u32, s, vec![d.clone(), n]);
            }
        }
    }
    for s in &tables[..pick(1, 2)] {
        for t in threads(&docs[..pick(7, 14)], 3) {
            add(1 + thorough as u32, s, t);
        }
    }
    if thorough {
        for t in threads(&docs[..8], 4) {
            add(1, &tables[0], t);
        }
        for t in threads(&seqs(&DOCS[..7], 2, 2), 2) {
            add(2, &tables[0], t);
        }
    }
    // every parser with itself, its neighbours in the list, and names
    let every: Vec<Vec<String>> = EVERY.iter().chain(&DOCS).map(|d| vec![d.to_string()]).collect();
    for (i, d) in every.iter().enumerate() {
        for k in 0..pick(3, every.len() / 2 + 1) {
            add(pick(2, 3) as u32, &tables[0], vec![d.clone(), every[(i + k) % every.len()].clone()]);
        }
        add(pick(1, 2) as u32, &tables[0], vec![d.clone(), d.clone(), d.clone()]);
        // one of them having been parsed before
        add(pick(2, 3) as u32, d, vec![d.clone(), d.clone()]);
        add(pick(2, 3) as u32, d, vec![d.clone(), vec!["name a".into()]]);
    }
    let large: Vec<Vec<String>> = LARGE.iter().map(|d| vec![d.to_string()]).collect();
    for t in threads(&large, 2) {
        add(1 + thorough as u32, &tables[0], t);
    }
    for t in threads(&large, 3) {
        add(1, &tables[0], t);
    }
    out.sort();
    out.dedup_by(|a, b| a.1 == b.1 && a.0 <= b.0);
    out
}
