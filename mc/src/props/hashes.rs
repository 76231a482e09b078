//! Hashes and orders of small values (part of C23).
use crate::refp;
use pddl::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

/// Values of one type made from texts: equality, hash, copies.
pub fn hashes() -> Vec<(String, String)> {
    let mut bad = vec![];
    let h = |x: &dyn Fn(&mut DefaultHasher)| {
        let mut s = DefaultHasher::new();
        x(&mut s);
        s.finish()
    };
    let texts = ["a", "b", "A", "aa", "ab", "ba", "a-b", "a_b", "object", "number", "Object", "objects", "", "é", "x1", "1", "start", "end", "all", "name"];
    macro_rules! hashed {
        ($($t:ident),*) => {$(
            for a in texts {
                for b in texts {
                    let forms = |s: &'static str| [$t::from(s), $t::from(s.to_string()), $t::from(Name::new_static(s)), $t::from(Name::new(s.to_string()))];
                    for x in forms(a) {
                        for y in forms(b) {
                            let same = a == b;
                            let (hx, hy) = (h(&|s| x.hash(s)), h(&|s| y.hash(s)));
                            if (x == y) != same || (x != y) == same || (x.clone() == y.clone()) != same || (same && hx != hy) {
                                bad.push((format!("{}/{}/{}", stringify!($t), a, b), format!("{} of {:?} and of {:?}: == {}, hashes equal {}", stringify!($t), a, b, x == y, hx == hy)));
                            }
                            let set: HashSet<$t> = [x.clone()].into_iter().collect();
                            if set.contains(&y) != same {
                                bad.push((format!("{}/{}/{}/set", stringify!($t), a, b), format!("a set of the {} of {:?} contains the one of {:?}: {}", stringify!($t), a, b, !same)));
                            }
                        }
                    }
                }
            }
        )*};
    }
    hashed!(Variable, FunctionSymbol, DurativeActionSymbol, ActionSymbol, Predicate, PrimitiveType, Name);
    // requirements: equality, hash and order agree, and the order is one
    let reqs: Vec<Requirement> = refp::REQS.iter().filter_map(|r| Requirement::try_from(*r).ok()).collect();
    let mut note = |k: String, m: String| bad.push((k, m));
    if reqs.len() != refp::REQS.len() {
        note("Requirement/count".into(), format!("{} of {} requirement keys are converted", reqs.len(), refp::REQS.len()));
    }
    use std::cmp::Ordering::*;
    for (i, a) in reqs.iter().enumerate() {
        for (j, b) in reqs.iter().enumerate() {
            let k = format!("Requirement/{}/{}", i, j);
            let same = i == j;
            if (a == b) != same || (a != b) == same || (a.cmp(b) == Equal) != same || a.cmp(b) != b.cmp(a).reverse() || a.partial_cmp(b) != Some(a.cmp(b)) || (same && h(&|s| a.hash(s)) != h(&|s| b.hash(s))) {
                note(k.clone(), format!("{:?} and {:?}: == {}, cmp {:?} and {:?}", a, b, a == b, a.cmp(b), b.cmp(a)));
            }
            for c in &reqs {
                if a.cmp(b) == Less && b.cmp(c) == Less && a.cmp(c) != Less {
                    note(k.clone(), format!("{:?} < {:?} < {:?}, but {:?}", a, b, c, a.cmp(c)));
                }
            }
        }
    }
    let nums: Vec<f32> = vec![0.0, -0.0, 1.0, 1.0000001, -1.0, 0.1, 0.2, 1e-45, -1e-45, f32::MAX, f32::MIN, 16777216.0, 16777215.0, 2.5, 3.0, 1e10, 0.5];
    for a in &nums {
        for b in &nums {
            let (x, y) = (Number::new(*a), Number::new(*b));
            let same = a == b;
            let k = format!("Number/{:?}/{:?}", a, b);
            if (x == y) != same || (x != y) == same || (x.cmp(&y) == Equal) != same || Some(x.cmp(&y)) != a.partial_cmp(b) || x.partial_cmp(&y) != a.partial_cmp(b) || (same && h(&|s| x.hash(s)) != h(&|s| y.hash(s))) {
                note(k, format!("numbers {:?} and {:?}: == {}, cmp {:?}", a, b, x == y, x.cmp(&y)));
            }
        }
    }
    bad
}
