//! Reference semantics of the language the library documents (its BNF comments, ELEMENTS.md and the
//! ordered choices its documentation fixes), written over s-expressions of whole tokens.
//! It shares no code and no structure with the library's combinators.
use crate::t::{a, f, n, opt, T};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum S<'a> {
    A(&'a str),
    L(Vec<S<'a>>),
}
use S::{A, L};

/// Reads one balanced s-expression off `toks[pos..]`.
pub fn read<'a>(toks: &[&'a str], pos: usize) -> Option<(S<'a>, usize)> {
    let mut stack: Vec<Vec<S<'a>>> = Vec::new();
    let mut p = pos;
    loop {
        let t = *toks.get(p)?;
        p += 1;
        let done = match t {
            "(" => {
                stack.push(Vec::new());
                continue;
            }
            ")" => L(stack.pop()?),
            x => A(x),
        };
        match stack.last_mut() {
            Some(top) => top.push(done),
            None => return Some((done, p)),
        }
    }
}

pub fn is_name(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && b[0].is_ascii_alphabetic()
        && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_')
}
pub fn is_number(s: &str) -> bool {
    let mut parts = s.splitn(2, '.');
    let dig = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
    dig(parts.next().unwrap_or("")) && parts.next().map_or(true, dig)
}
type R = Option<T>;

fn name(s: &S) -> R {
    match s {
        A(x) if is_name(x) => Some(a(x)),
        _ => None,
    }
}
fn var(s: &S) -> R {
    match s {
        A(x) if x.starts_with('?') && is_name(&x[1..]) => Some(n("var", vec![a(&x[1..])])),
        _ => None,
    }
}
fn number(s: &S) -> R {
    match s {
        A(x) if is_number(x) => {
            let v: f32 = x.parse().ok()?;
            if v.is_finite() {
                Some(f(v))
            } else {
                None
            }
        }
        _ => None,
    }
}
fn uint(s: &S) -> R {
    match s {
        A(x) if !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit()) => x.parse().ok().map(T::U),
        _ => None,
    }
}
fn one_of(s: &S, set: &[&str]) -> R {
    match s {
        A(x) if set.contains(x) => Some(a(x)),
        _ => None,
    }
}
/// A list headed by the given keyword: its operands.
fn head<'s, 'a>(s: &'s S<'a>, kw: &str) -> Option<&'s [S<'a>]> {
    match s {
        L(v) => match v.first() {
            Some(A(x)) if *x == kw => Some(&v[1..]),
            _ => None,
        },
        _ => None,
    }
}
fn many(v: &[S], p: &dyn Fn(&S) -> R) -> Option<Vec<T>> {
    v.iter().map(p).collect()
}
fn many1(v: &[S], p: &dyn Fn(&S) -> R) -> Option<Vec<T>> {
    if v.is_empty() {
        None
    } else {
        many(v, p)
    }
}

// ---- types and typed lists
fn typ(s: &S) -> R {
    if let Some(x) = name(s) {
        return Some(n("exactly", vec![x]));
    }
    Some(n("either", many1(head(s, "either")?, &name)?))
}
fn typed_list_of(v: &[S], item: &dyn Fn(&S) -> R, default: &str) -> R {
    let mut out = Vec::new();
    let mut pending: Vec<T> = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if v[i] == A("-") {
            if pending.is_empty() {
                return None;
            }
            let t = typ(v.get(i + 1)?)?;
            out.extend(pending.drain(..).map(|p| n("typed", vec![p, t.clone()])));
            i += 2;
        } else {
            pending.push(item(&v[i])?);
            i += 1;
        }
    }
    let d = n("exactly", vec![a(default)]);
    out.extend(pending.into_iter().map(|p| n("typed", vec![p, d.clone()])));
    Some(n("tl", out))
}
fn typed_names(v: &[S]) -> R {
    typed_list_of(v, &name, "object")
}
fn typed_vars(v: &[S]) -> R {
    typed_list_of(v, &var, "object")
}
fn params(s: &S) -> R {
    match s {
        L(v) => typed_vars(v),
        _ => None,
    }
}
fn skel(s: &S) -> R {
    match s {
        L(v) => Some(n("skel", vec![name(v.first()?)?, typed_vars(&v[1..])?])),
        _ => None,
    }
}

// ---- terms and formulas
fn fterm(s: &S) -> R {
    match s {
        L(v) => Some(n("fterm", vec![name(v.first()?)?, n("args", many(&v[1..], &term)?)])),
        _ => None,
    }
}
fn term(s: &S) -> R {
    var(s).or_else(|| name(s).map(|x| n("tname", vec![x]))).or_else(|| fterm(s))
}
/// Logical connectives are not predicate names.
pub const RESERVED: [&str; 7] = ["and", "or", "not", "imply", "exists", "forall", "when"];
fn atomic(s: &S, inner: &dyn Fn(&S) -> R) -> R {
    if let Some([x, y]) = head(s, "=") {
        return Some(n("eq", vec![inner(x)?, inner(y)?]));
    }
    match s {
        L(v) => match v.first()? {
            A(p) if is_name(p) && !RESERVED.contains(p) => {
                Some(n("pred", vec![a(p), n("args", many(&v[1..], inner)?)]))
            }
            _ => None,
        },
        _ => None,
    }
}
fn literal(s: &S, inner: &dyn Fn(&S) -> R) -> R {
    if let Some([x]) = head(s, "not") {
        return Some(n("neg", vec![atomic(x, inner)?]));
    }
    Some(n("pos", vec![atomic(s, inner)?]))
}

// ---- numeric expressions
fn fhead(s: &S) -> R {
    match s {
        A(_) => Some(n("fhead", vec![name(s)?])),
        L(v) if v.len() == 1 => Some(n("fhead", vec![name(&v[0])?])),
        L(v) => Some(n("fheadt", vec![name(v.first()?)?, n("args", many(&v[1..], &term)?)])),
    }
}
/// The operator forms shared by the three expression families.
fn operators(s: &S, tags: [&'static str; 3], e: &dyn Fn(&S) -> R) -> R {
    let v = match s {
        L(v) => v,
        _ => return None,
    };
    let op = match v.first()? {
        A(x) if ["*", "+", "-", "/"].contains(x) => *x,
        _ => return None,
    };
    match v.len() {
        2 if op == "-" => Some(n(tags[2], vec![e(&v[1])?])),
        3 => Some(n(tags[0], vec![a(op), e(&v[1])?, e(&v[2])?])),
        k if k > 3 && (op == "*" || op == "+") => {
            Some(n(tags[1], vec![a(op), e(&v[1])?, n("rest", many(&v[2..], e)?)]))
        }
        _ => None,
    }
}
fn fexp(s: &S) -> R {
    number(s).or_else(|| operators(s, ["bin", "multi", "negate"], &fexp)).or_else(|| fhead(s))
}
fn fexp_da(s: &S) -> R {
    if *s == A("?duration") {
        return Some(n("?duration", vec![]));
    }
    operators(s, ["da-bin", "da-multi", "da-negate"], &fexp_da)
        .or_else(|| fexp(s).map(|x| n("da-fexp", vec![x])))
}
fn fexp_t(s: &S) -> R {
    if *s == A("#t") {
        return Some(n("#t", vec![]));
    }
    match head(s, "*")? {
        [A("#t"), e] => Some(n("scaled", vec![fexp(e)?])),
        [e, A("#t")] => Some(n("scaled", vec![fexp(e)?])),
        _ => None,
    }
}
fn fcomp(s: &S) -> R {
    match s {
        L(v) if v.len() == 3 => Some(n(
            "fcomp",
            vec![one_of(&v[0], &[">", "<", "=", ">=", "<="])?, fexp(&v[1])?, fexp(&v[2])?],
        )),
        _ => None,
    }
}
fn metric_fexp(s: &S) -> R {
    number(s)
        .or_else(|| operators(s, ["bin", "multi", "negate"], &metric_fexp))
        .or_else(|| if *s == A("total-time") { Some(n("total-time", vec![])) } else { None })
        .or_else(|| match head(s, "is-violated") {
            Some([x]) => Some(n("is-violated", vec![name(x)?])),
            _ => None,
        })
        .or_else(|| match s {
            A(_) => Some(n("mfun", vec![name(s)?, n("args", vec![])])),
            L(v) => Some(n("mfun", vec![name(v.first()?)?, n("args", many(&v[1..], &name)?)])),
        })
}
fn assign_op(s: &S) -> R {
    match s {
        A("change") => Some(a("assign")),
        _ => one_of(s, &["assign", "scale-up", "scale-down", "increase", "decrease"]),
    }
}

// ---- goals
fn quantified(s: &S, kw: &str, tag: &'static str, body: &dyn Fn(&S) -> R) -> R {
    match head(s, kw)? {
        [v, g] => Some(n(tag, vec![params(v)?, body(g)?])),
        _ => None,
    }
}
fn gd(s: &S) -> R {
    if let Some(v) = head(s, "and") {
        return Some(n("and", many(v, &gd)?));
    }
    if let Some(v) = head(s, "or") {
        return Some(n("or", many(v, &gd)?));
    }
    if let Some([x]) = head(s, "not") {
        return Some(n("not", vec![gd(x)?]));
    }
    if let Some([x, y]) = head(s, "imply") {
        return Some(n("imply", vec![gd(x)?, gd(y)?]));
    }
    quantified(s, "exists", "exists", &gd)
        .or_else(|| quantified(s, "forall", "forall", &gd))
        .or_else(|| atomic(s, &term))
        .or_else(|| fcomp(s))
}
fn pref_name_opt(v: &[S]) -> (T, usize) {
    match v.first().and_then(name) {
        Some(x) => (opt("opt", Some(x)), 1),
        None => (opt("opt", None), 0),
    }
}
fn preference(s: &S, body: &dyn Fn(&S) -> R) -> R {
    let v = head(s, "preference")?;
    let (p, k) = pref_name_opt(v);
    match &v[k..] {
        [g] => Some(n("preference", vec![p, body(g)?])),
        _ => None,
    }
}
fn pref_gd(s: &S) -> R {
    preference(s, &gd).or_else(|| gd(s))
}
fn pre_gd_items(s: &S) -> Option<Vec<T>> {
    if let Some(x) = quantified(s, "forall", "pre-forall", &pre_gd) {
        return Some(vec![x]);
    }
    if let Some(v) = head(s, "and") {
        let parts: Option<Vec<Vec<T>>> = v.iter().map(pre_gd_items).collect();
        return Some(parts?.into_iter().flatten().collect());
    }
    Some(vec![pref_gd(s)?])
}
fn pre_gd(s: &S) -> R {
    Some(n("pre", pre_gd_items(s)?))
}

// ---- effects
fn p_effect(s: &S) -> R {
    if let Some([x]) = head(s, "not") {
        return Some(n("del", vec![atomic(x, &term)?]));
    }
    if let Some([h, v]) = head(s, "assign") {
        if let Some(h) = fterm(h) {
            if *v == A("undefined") {
                return Some(n("object", vec![h, opt("opt", None)]));
            }
            if let Some(v) = term(v) {
                return Some(n("object", vec![h, opt("opt", Some(v))]));
            }
        }
    }
    if let L(v) = s {
        if v.len() == 3 {
            if let (Some(o), Some(h), Some(e)) = (assign_op(&v[0]), fhead(&v[1]), fexp(&v[2])) {
                return Some(n("numeric", vec![o, h, e]));
            }
        }
    }
    Some(n("add", vec![atomic(s, &term)?]))
}
fn cond_effect(s: &S) -> R {
    match head(s, "and") {
        Some(v) => Some(n("all", many(v, &p_effect)?)),
        None => Some(n("single", vec![p_effect(s)?])),
    }
}
fn forall_c_effect(s: &S) -> R {
    quantified(s, "forall", "forall", &effect)
}
fn when_c_effect(s: &S) -> R {
    match head(s, "when")? {
        [c, e] => Some(n("when", vec![gd(c)?, cond_effect(e)?])),
        _ => None,
    }
}
fn c_effect(s: &S) -> R {
    forall_c_effect(s).or_else(|| when_c_effect(s)).or_else(|| p_effect(s))
}
fn effect(s: &S) -> R {
    match head(s, "and") {
        Some(v) => Some(n("effects", many(v, &c_effect)?)),
        None => Some(n("effects", vec![c_effect(s)?])),
    }
}

// ---- durative actions
fn time_spec(s: &S) -> R {
    one_of(s, &["start", "end"])
}
fn timed_gd(s: &S) -> R {
    match (head(s, "at"), head(s, "over")) {
        (Some([t, g]), _) => Some(n("at", vec![time_spec(t)?, gd(g)?])),
        (_, Some([t, g])) => Some(n("over", vec![one_of(t, &["all"])?, gd(g)?])),
        _ => None,
    }
}
fn pref_timed_gd(s: &S) -> R {
    preference(s, &timed_gd).or_else(|| timed_gd(s))
}
fn da_gd(s: &S) -> R {
    if let Some(v) = head(s, "and") {
        return Some(n("and", many(v, &da_gd)?));
    }
    quantified(s, "forall", "forall", &da_gd).or_else(|| pref_timed_gd(s))
}
fn f_assign_da(s: &S) -> R {
    match s {
        L(v) if v.len() == 3 => {
            Some(n("fassignda", vec![assign_op(&v[0])?, fhead(&v[1])?, fexp_da(&v[2])?]))
        }
        _ => None,
    }
}
fn timed_effect(s: &S) -> R {
    if let Some([t, e]) = head(s, "at") {
        let t = time_spec(t)?;
        return match f_assign_da(e) {
            Some(x) => Some(n("t-fluent", vec![t, x])),
            None => Some(n("t-cond", vec![t, cond_effect(e)?])),
        };
    }
    match s {
        L(v) if v.len() == 3 => Some(n(
            "t-cont",
            vec![one_of(&v[0], &["increase", "decrease"])?, fhead(&v[1])?, fexp_t(&v[2])?],
        )),
        _ => None,
    }
}
fn da_effect(s: &S) -> R {
    if let Some(v) = head(s, "and") {
        return Some(n("and", many(v, &da_effect)?));
    }
    if let Some([g, e]) = head(s, "when") {
        return Some(n("when", vec![da_gd(g)?, timed_effect(e)?]));
    }
    quantified(s, "forall", "forall", &da_effect).or_else(|| timed_effect(s))
}
fn d_value(s: &S) -> R {
    match number(s) {
        Some(x) => Some(n("dnum", vec![x])),
        None => Some(n("dexp", vec![fexp(s)?])),
    }
}
fn simple_duration(s: &S) -> R {
    if let Some([t, c]) = head(s, "at") {
        return Some(n("at", vec![time_spec(t)?, simple_duration(c)?]));
    }
    match s {
        L(v) if v.len() == 3 && v[1] == A("?duration") => {
            Some(n("d", vec![one_of(&v[0], &["=", ">=", "<="])?, d_value(&v[2])?]))
        }
        _ => None,
    }
}
fn duration(s: &S) -> R {
    if *s == L(vec![]) {
        return Some(opt("opt", None));
    }
    if let Some(v) = head(s, "and") {
        return Some(opt("opt", Some(n("all", many1(v, &simple_duration)?))));
    }
    Some(opt("opt", Some(n("single", vec![simple_duration(s)?]))))
}
fn empty_or(s: &S, p: &dyn Fn(&S) -> R) -> R {
    if *s == L(vec![]) {
        Some(opt("opt", None))
    } else {
        Some(opt("opt", Some(p(s)?)))
    }
}

// ---- trajectory constraints
fn con2(s: &S) -> R {
    if let Some(x) = con_gd(s) {
        return Some(n("nested", vec![x]));
    }
    Some(n("goal", vec![gd(s)?]))
}
fn con_gd(s: &S) -> R {
    let v = match s {
        L(v) => v,
        _ => return None,
    };
    let kw = match v.first()? {
        A(k) => *k,
        _ => return None,
    };
    let o = &v[1..];
    match (kw, o.len()) {
        ("and", _) => Some(n("and", many(o, &con_gd)?)),
        ("forall", 2) => quantified(s, "forall", "forall", &con_gd),
        ("at", 2) if o[0] == A("end") => Some(n("at-end", vec![gd(&o[1])?])),
        ("always", 1) => Some(n("always", vec![con2(&o[0])?])),
        ("sometime", 1) => Some(n("sometime", vec![con2(&o[0])?])),
        ("within", 2) => Some(n("within", vec![number(&o[0])?, con2(&o[1])?])),
        ("at-most-once", 1) => Some(n("at-most-once", vec![con2(&o[0])?])),
        ("sometime-after", 2) => Some(n("sometime-after", vec![con2(&o[0])?, con2(&o[1])?])),
        ("sometime-before", 2) => Some(n("sometime-before", vec![con2(&o[0])?, con2(&o[1])?])),
        ("always-within", 3) => {
            Some(n("always-within", vec![number(&o[0])?, con2(&o[1])?, con2(&o[2])?]))
        }
        ("hold-during", 3) => {
            Some(n("hold-during", vec![number(&o[0])?, number(&o[1])?, con2(&o[2])?]))
        }
        ("hold-after", 2) => Some(n("hold-after", vec![number(&o[0])?, con2(&o[1])?])),
        _ => None,
    }
}
fn pref_con_items(s: &S) -> Option<Vec<T>> {
    if let Some(v) = head(s, "and") {
        let parts: Option<Vec<Vec<T>>> = v.iter().map(pref_con_items).collect();
        return Some(parts?.into_iter().flatten().collect());
    }
    if let Some(x) = quantified(s, "forall", "forall", &pref_con_gd) {
        return Some(vec![x]);
    }
    if let Some(x) = preference(s, &con_gd) {
        return Some(vec![x]);
    }
    Some(vec![n("goal", vec![con_gd(s)?])])
}
fn pref_con_gd(s: &S) -> R {
    Some(n("prefcon", pref_con_items(s)?))
}

// ---- structure
fn field<'s, 'a>(v: &'s [S<'a>], i: &mut usize, kw: &str) -> Option<&'s S<'a>> {
    if v.get(*i) == Some(&A(kw)) {
        let x = v.get(*i + 1)?;
        *i += 2;
        Some(x)
    } else {
        None
    }
}
fn action(s: &S) -> R {
    let v = head(s, ":action")?;
    let sym = name(v.first()?)?;
    let mut i = 1;
    let pars = params(field(v, &mut i, ":parameters")?)?;
    let pre = match field(v, &mut i, ":precondition") {
        None => n("pre", vec![]),
        Some(x) if *x == L(vec![]) => n("pre", vec![]),
        Some(x) => pre_gd(x)?,
    };
    let eff = match field(v, &mut i, ":effect") {
        None => opt("opt", None),
        Some(x) => empty_or(x, &effect)?,
    };
    if i == v.len() {
        Some(n("action", vec![sym, pars, pre, eff]))
    } else {
        None
    }
}
fn durative(s: &S) -> R {
    let v = head(s, ":durative-action")?;
    let sym = name(v.first()?)?;
    let mut i = 1;
    let pars = params(field(v, &mut i, ":parameters")?)?;
    let dur = duration(field(v, &mut i, ":duration")?)?;
    let cond = empty_or(field(v, &mut i, ":condition")?, &da_gd)?;
    let eff = empty_or(field(v, &mut i, ":effect")?, &da_effect)?;
    if i == v.len() {
        Some(n("durative", vec![sym, pars, dur, cond, eff]))
    } else {
        None
    }
}
fn derived(s: &S) -> R {
    match head(s, ":derived")? {
        [p, g] => Some(n("derived", vec![skel(p)?, gd(g)?])),
        _ => None,
    }
}
fn structure(s: &S) -> R {
    derived(s).or_else(|| action(s)).or_else(|| durative(s))
}
pub const REQS: [&str; 21] = [
    ":strips",
    ":typing",
    ":negative-preconditions",
    ":disjunctive-preconditions",
    ":equality",
    ":existential-preconditions",
    ":universal-preconditions",
    ":quantified-preconditions",
    ":conditional-effects",
    ":fluents",
    ":numeric-fluents",
    ":object-fluents",
    ":adl",
    ":durative-actions",
    ":duration-inequalities",
    ":continuous-effects",
    ":derived-predicates",
    ":timed-initial-literals",
    ":preferences",
    ":constraints",
    ":action-costs",
];
fn req_key(s: &S) -> R {
    one_of(s, &REQS)
}
fn requirements(s: &S) -> R {
    Some(n("reqs", many1(head(s, ":requirements")?, &req_key)?))
}
fn types(s: &S) -> R {
    typed_names(head(s, ":types")?)
}
fn constants(s: &S) -> R {
    typed_names(head(s, ":constants")?)
}
fn objects(s: &S) -> R {
    typed_names(head(s, ":objects")?)
}
fn predicates(s: &S) -> R {
    Some(n("preds", many1(head(s, ":predicates")?, &skel)?))
}
fn functions(s: &S) -> R {
    typed_list_of(head(s, ":functions")?, &skel, "number")
}
fn timeless(s: &S) -> R {
    Some(n("timeless", many1(head(s, ":timeless")?, &|x| literal(x, &name))?))
}
fn domain_constraints(s: &S) -> R {
    match head(s, ":constraints")? {
        [x] => con_gd(x),
        _ => None,
    }
}
fn problem_constraints(s: &S) -> R {
    match head(s, ":constraints")? {
        [x] => pref_con_gd(x),
        _ => None,
    }
}
/// An optional section: absent leaves the default, present must be well formed.
fn section(v: &[S], i: &mut usize, kw: &str, p: &dyn Fn(&S) -> R, default: T) -> R {
    match v.get(*i) {
        Some(s) if head(s, kw).is_some() => {
            *i += 1;
            p(s)
        }
        _ => Some(default),
    }
}
fn domain(s: &S) -> R {
    let v = head(s, "define")?;
    let nm = match head(v.first()?, "domain")? {
        [x] => name(x)?,
        _ => return None,
    };
    let mut i = 1;
    let tl = || n("tl", vec![]);
    let ext = section(
        v,
        &mut i,
        ":extends",
        &|s| Some(n("extends", many1(head(s, ":extends")?, &name)?)),
        n("extends", vec![]),
    )?;
    let req = section(v, &mut i, ":requirements", &requirements, n("reqs", vec![]))?;
    let ty = section(v, &mut i, ":types", &types, tl())?;
    let co = section(v, &mut i, ":constants", &constants, tl())?;
    let pr = section(v, &mut i, ":predicates", &predicates, n("preds", vec![]))?;
    let fu = section(v, &mut i, ":functions", &functions, tl())?;
    let cn = section(v, &mut i, ":constraints", &domain_constraints, n("and", vec![]))?;
    let st = n("structure", many(&v[i..], &structure)?);
    Some(n("domain", vec![nm, ext, req, ty, co, pr, fu, cn, st]))
}
fn bft(s: &S) -> R {
    match s {
        A(_) => Some(n("bft", vec![name(s)?, n("args", vec![])])),
        L(v) => Some(n("bft", vec![name(v.first()?)?, n("args", many(&v[1..], &name)?)])),
    }
}
fn init_el(s: &S) -> R {
    if let Some(l) = literal(s, &name) {
        return Some(l);
    }
    if let Some([t, l]) = head(s, "at") {
        return Some(n("at", vec![number(t)?, literal(l, &name)?]));
    }
    match head(s, "=")? {
        [b, v] => {
            let b = bft(b)?;
            match number(v) {
                Some(x) => Some(n("isvalue", vec![b, x])),
                None => Some(n("isobject", vec![b, name(v)?])),
            }
        }
        _ => None,
    }
}
fn init(s: &S) -> R {
    Some(n("init", many(head(s, ":init")?, &init_el)?))
}
fn goal(s: &S) -> R {
    match head(s, ":goal")? {
        [x] => pre_gd(x),
        _ => None,
    }
}
fn metric(s: &S) -> R {
    match head(s, ":metric")? {
        [o, e] => Some(n("metric", vec![one_of(o, &["minimize", "maximize"])?, metric_fexp(e)?])),
        _ => None,
    }
}
fn length(s: &S) -> R {
    let v = head(s, ":length")?;
    let mut i = 0;
    let mut get = |kw: &str| -> Option<Option<T>> {
        match v.get(i).and_then(|x| head(x, kw)) {
            Some([x]) => {
                i += 1;
                Some(Some(uint(x)?))
            }
            Some(_) => None,
            None => Some(None),
        }
    };
    let ser = get(":serial")?;
    let par = get(":parallel")?;
    if i != v.len() {
        return None;
    }
    Some(n("length", vec![opt("serial", ser), opt("parallel", par)]))
}
fn problem(s: &S) -> R {
    let v = head(s, "define")?;
    let nm = match head(v.first()?, "problem")? {
        [x] => name(x)?,
        _ => return None,
    };
    let dm = match head(v.get(1)?, ":domain")? {
        [x] => name(x)?,
        _ => return None,
    };
    let mut i = 2;
    let req = section(v, &mut i, ":requirements", &requirements, n("reqs", vec![]))?;
    let ob = section(v, &mut i, ":objects", &objects, n("tl", vec![]))?;
    let ini = init(v.get(i)?)?;
    let go = goal(v.get(i + 1)?)?;
    i += 2;
    let cn = section(v, &mut i, ":constraints", &problem_constraints, n("prefcon", vec![]))?;
    let me = section(v, &mut i, ":metric", &|s| Some(opt("opt", Some(metric(s)?))), opt("opt", None))?;
    let le = section(v, &mut i, ":length", &|s| Some(opt("opt", Some(length(s)?))), opt("opt", None))?;
    if i != v.len() {
        return None;
    }
    Some(n("problem", vec![nm, dm, req, ob, ini, go, cn, me, le]))
}

/// The meaning of `s` read as the given nonterminal, or None when it is not one.
pub fn meaning(nt: &str, s: &S) -> R {
    match nt {
        "domain" => domain(s),
        "problem" => problem(s),
        "structure" => structure(s),
        "action" => action(s),
        "durative" => durative(s),
        "derived" => derived(s),
        "requirements" => requirements(s),
        "req-key" => req_key(s),
        "types" => types(s),
        "constants" => constants(s),
        "objects" => objects(s),
        "predicates" => predicates(s),
        "functions" => functions(s),
        "timeless" => timeless(s),
        "domain-constraints" => domain_constraints(s),
        "problem-constraints" => problem_constraints(s),
        "init" => init(s),
        "init-el" => init_el(s),
        "goal" => goal(s),
        "metric" => metric(s),
        "length" => length(s),
        "gd" => gd(s),
        "pref-gd" => pref_gd(s),
        "pre-gd" => pre_gd(s),
        "con-gd" => con_gd(s),
        "con2-gd" => con2(s),
        "pref-con-gd" => pref_con_gd(s),
        "p-effect" => p_effect(s),
        "cond-effect" => cond_effect(s),
        "c-effect" => c_effect(s),
        "forall-c-effect" => forall_c_effect(s),
        "when-c-effect" => when_c_effect(s),
        "effect" => effect(s),
        "timed-gd" => timed_gd(s),
        "pref-timed-gd" => pref_timed_gd(s),
        "da-gd" => da_gd(s),
        "timed-effect" => timed_effect(s),
        "da-effect" => da_effect(s),
        "f-assign-da" => f_assign_da(s),
        "simple-duration" => simple_duration(s),
        "duration" => duration(s),
        "d-value" => d_value(s),
        "f-exp" => fexp(s),
        "f-exp-da" => fexp_da(s),
        "f-exp-t" => fexp_t(s),
        "f-comp" => fcomp(s),
        "f-head" => fhead(s),
        "metric-f-exp" => metric_fexp(s),
        "term" => term(s),
        "fterm" => fterm(s),
        "bft" => bft(s),
        "skel" | "fskel" => skel(s),
        "type" | "ftype" => typ(s),
        "primitive-type" | "name" | "predicate" | "action-symbol" | "da-symbol" | "function-symbol"
        | "pref-name" => name(s),
        "variable" => var(s),
        "number" => number(s),
        "assign-op" => assign_op(s),
        "assign-op-t" => one_of(s, &["increase", "decrease"]),
        "binary-comp" => one_of(s, &[">", "<", "=", ">=", "<="]),
        "binary-op" => one_of(s, &["*", "+", "-", "/"]),
        "multi-op" => one_of(s, &["*", "+"]),
        "d-op" => one_of(s, &["=", ">=", "<="]),
        "optimization" => one_of(s, &["minimize", "maximize"]),
        "interval" => one_of(s, &["all"]),
        "time-spec" => time_spec(s),
        // combinators exported by the library, instantiated
        "literal-term" => literal(s, &term),
        "literal-name" => literal(s, &name),
        "atomic-term" => atomic(s, &term),
        "atomic-name" => atomic(s, &name),
        _ => panic!("unknown nonterminal {}", nt),
    }
}

/// What reading nonterminal `nt` off the front of the token string must give:
/// the meaning and how many tokens it spans, or None when the text must be refused.
pub fn expect(nt: &str, toks: &[&str]) -> Option<(T, usize)> {
    let (s, used) = read(toks, 0)?;
    Some((meaning(nt, &s)?, used))
}
