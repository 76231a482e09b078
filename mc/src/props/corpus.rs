//! Base documents shared by the checks.
use crate::docs::*;
use crate::gram::{Stat, Tk};
use crate::refp;
use crate::structure::*;

/// Leaf constructs that the grammar file does not define.
pub fn leaf_docs(nt: &str) -> Vec<Doc> {
    let v: &[&str] = match nt {
        "name" | "predicate" | "action-symbol" | "da-symbol" | "function-symbol" | "pref-name" | "primitive-type" => {
            &["a", "object", "number", "Abc-d_9", "objectx", "total-time", "and"]
        }
        "variable" => &["?x", "?duration", "?a-B_1"],
        "number" => &["0", "1.5", "100", "0.001"],
        "binary-comp" => &[">", "<", "=", ">=", "<="],
        "binary-op" => &["*", "+", "-", "/"],
        "multi-op" => &["*", "+"],
        "optimization" => &["minimize", "maximize"],
        "interval" => &["all"],
        "ftype" => return vec![vec!["number"], vec!["t"], vec!["(", "either", "a", "b", ")"]],
        "assign-op" => &["assign", "scale-up", "scale-down", "increase", "decrease", "change"],
        "assign-op-t" => &["increase", "decrease"],
        "d-op" => &["=", "<=", ">="],
        "time-spec" => &["start", "end"],
        "req-key" => return refp::REQS.iter().map(|r| vec![ist(r)]).collect(),
        _ => &[],
    };
    v.iter().map(|s| vec![ist(s)]).collect()
}
/// Well-formed documents of one entry: the first sentences, the sentences of the outline, the rich parts.
pub fn corpus(lab: &Lab, nt: &str, per: usize) -> Vec<Doc> {
    let mut st = Stat::default();
    let mut out: Vec<Doc> = leaf_docs(nt);
    let mut push = |d: Doc, out: &mut Vec<Doc>| {
        if refp::expect(nt, &d).map_or(false, |x| x.1 == d.len()) && !out.contains(&d) {
            out.push(d)
        }
    };
    for (g, pool) in [(&lab.g, &lab.pool), (&lab.o, &lab.opool)] {
        if g.nts.contains_key(nt) {
            for s in first(g, nt, per, &mut st) {
                push(pool.distinct(&s.tk), &mut out);
            }
        }
    }
    if lab.g.nts.contains_key(nt) {
        for d in rich_for(lab, nt) {
            push(d, &mut out);
        }
    }
    out
}
/// The same, plus documents one token edit away that are not sentences.
pub fn corpus_with_refused(lab: &Lab, nt: &str, per: usize, bad: usize) -> (Vec<Doc>, Vec<Doc>) {
    let good = corpus(lab, nt, per);
    let mut out: Vec<Doc> = vec![];
    if lab.g.nts.contains_key(nt) {
        let mut st = Stat::default();
        let alpha: Vec<Tk> = lab.g.alphabet(nt);
        for s in first(&lab.g, nt, bad, &mut st) {
            edits(&s.tk, &alpha, &mut |v, kind| {
                if v.is_empty() || (kind == "insert" || kind == "substitute") && out.len() % 7 != 0 && out.len() > 40 * bad {
                    return;
                }
                let d = lab.pool.distinct(v);
                if refp::expect(nt, &d).is_none() && out.len() < 60 * bad {
                    out.push(d)
                }
            });
        }
    }
    (good, out)
}
