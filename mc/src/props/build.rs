//! C19: every public constructor, conversion, accessor and builder method against a term-algebra model. States are
//! values together with their model terms; every operation is applied to every tuple of values of its argument pools.
use crate::ctx::{guard, hash, Case, Ctx};
use crate::lift::{Lift, Val};
use crate::t::{a, f, n, opt, T};
use pddl::*;
use std::any::TypeId;
use std::borrow::Cow;
use std::collections::HashMap;
use std::ops::Deref;

type P<X> = Vec<(X, T)>;

pub struct B<'c> {
    ctx: &'c mut Ctx,
    cap: usize,
    deep: bool,
    /// for C23: the values, by type
    keep: Option<HashMap<TypeId, (String, Vec<Box<dyn Val>>)>>,
}
impl<'c> B<'c> {
    fn bad(&mut self, op: &str, args: &str, aspect: &str, got: String, want: String) {
        let tier = if self.deep { "thorough" } else { "quick" };
        let c = Case::new("build", &[("~tier", tier.to_string()), ("operation", op.to_string()), ("args", args.to_string()), ("read", aspect.to_string())]);
        let cut = |s: String| if s.chars().count() > 300 { s.chars().take(300).collect::<String>() + "…" } else { s };
        self.ctx.violation(c, format!("{} ({}), read through {}: {} instead of {}", op, args, aspect, cut(got), cut(want)));
    }
    fn same(&mut self, op: &str, args: &str, aspect: &str, got: T, want: T) {
        self.ctx.add("transitions", 1);
        if got != want {
            self.bad(op, args, aspect, got.to_string(), want.to_string());
        }
    }
    fn judge(&mut self, op: &str, args: &str, got: T, want: &T, reads: Vec<(&'static str, T, T)>) {
        self.count(op, args);
        self.same(op, args, "its variants and accessors", got, want.clone());
        for (r, g, w) in reads {
            self.same(op, args, r, g, w);
        }
    }
    fn count(&mut self, op: &str, args: &str) {
        self.ctx.add("traces", 1);
        self.ctx.outcomes.insert(hash(op));
        let l = format!("{} ({})", op, args);
        self.ctx.sample(|| l);
    }
}
/// Things that can stand on either side of a comparison.
trait AsT {
    fn t(self) -> T;
}
impl<X: Lift> AsT for &X {
    fn t(self) -> T {
        self.lift()
    }
}
impl AsT for T {
    fn t(self) -> T {
        self
    }
}
impl AsT for &str {
    fn t(self) -> T {
        a(self)
    }
}
impl AsT for String {
    fn t(self) -> T {
        a(self)
    }
}
impl AsT for bool {
    fn t(self) -> T {
        T::U(self as u64)
    }
}
impl AsT for usize {
    fn t(self) -> T {
        T::U(self as u64)
    }
}
fn ts<'x, X: Lift + 'x>(i: impl IntoIterator<Item = &'x X>) -> T {
    n("seq", i.into_iter().map(|x| x.lift()).collect())
}
fn owned<X: Lift>(i: impl IntoIterator<Item = X>) -> T {
    n("seq", i.into_iter().map(|x| x.lift()).collect())
}
fn seq(v: Vec<T>) -> T {
    n("seq", v)
}
fn retag(tag: &'static str, x: &T) -> T {
    match x {
        T::N(_, k) => n(tag, k.clone()),
        y => y.clone(),
    }
}
fn kids(x: &T) -> Vec<T> {
    match x {
        T::N(_, k) => k.clone(),
        _ => vec![],
    }
}
/// Up to `cap` values, round robin over several pools, without repeated terms.
fn mix<X: Clone>(cap: usize, v: Vec<P<X>>) -> P<X> {
    let mut o: P<X> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut i = 0;
    loop {
        let mut any = false;
        for p in &v {
            if i < p.len() {
                any = true;
                if o.len() < cap && seen.insert(p[i].1.clone()) {
                    o.push(p[i].clone());
                }
            }
        }
        if !any {
            return o;
        }
        i += 1;
    }
}
fn opts<X: Clone>(p: &P<X>) -> P<Option<X>> {
    let mut o: P<Option<X>> = vec![(None, opt("opt", None))];
    o.extend(p.iter().map(|x| (Some(x.0.clone()), opt("opt", Some(x.1.clone())))));
    o
}
/// All sequences to a small length over a few elements, and a sweep of lengths over all of them.
fn seqs<X: Clone>(p: &P<X>, deep: bool, min: usize) -> P<Vec<X>> {
    let (w, l) = if deep { (4.min(p.len()), 4) } else { (3.min(p.len()), 3) };
    let mut idx: Vec<Vec<usize>> = vec![vec![]];
    let mut last = idx.clone();
    for _ in 0..l {
        last = last.iter().flat_map(|s| (0..w).map(move |k| s.iter().copied().chain([k]).collect::<Vec<_>>())).collect();
        idx.extend(last.iter().cloned());
    }
    let lens: &[usize] = if deep { &[5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257] } else { &[4, 5, 8, 9, 16, 17, 33, 64] };
    for k in lens {
        idx.push((0..*k).map(|i| i % p.len()).collect());
        idx.push((0..*k).map(|i| (i * i + 1) % p.len()).collect());
    }
    idx.into_iter().filter(|s| s.len() >= min).map(|s| (s.iter().map(|i| p[*i].0.clone()).collect(), seq(s.iter().map(|i| p[*i].1.clone()).collect()))).collect()
}

type Applied<R> = (R, T, T, Vec<(&'static str, T, T)>);
/// Applies one operation to every tuple of its argument pools; a spread of the results is kept for later pools.
fn apply<R: Val + 'static>(b: &mut B, name: &str, lens: &[usize], f: &dyn Fn(&[usize]) -> Applied<R>) -> P<R> {
    let total: usize = lens.iter().product();
    let step = (total / b.cap.max(1)).max(1);
    let mut kept = vec![];
    for i in 0..total {
        let keep = i % step == 0;
        let mine = b.ctx.fresh(hash(&(name, i)));
        if !keep && !mine {
            continue;
        }
        let mut r = i;
        let idx: Vec<usize> = lens
            .iter()
            .map(|l| {
                let k = r % l;
                r /= l;
                k
            })
            .collect();
        match guard(|| f(&idx)) {
            Err(m) => {
                if mine {
                    b.bad(name, &i.to_string(), "construction", format!("panic: {}", m), "a value".into())
                }
            }
            Ok((v, got, want, reads)) => {
                if keep {
                    if let Some(m) = &mut b.keep {
                        let t = m.entry(TypeId::of::<R>()).or_insert_with(|| (std::any::type_name::<R>().to_string(), vec![]));
                        t.1.push(v.copy());
                    }
                }
                if mine && b.keep.is_none() {
                    b.judge(name, &i.to_string(), got, &want, reads);
                }
                if keep {
                    kept.push((v, want));
                }
            }
        }
    }
    kept
}
macro_rules! op {
    ($b:ident, $name:expr, [$($x:ident $tx:ident in $p:expr),*], $v:ident = $e:expr, $t:expr $(, $asp:literal : $got:expr => $want:expr)* $(,)?) => {
        apply($b, $name, &[$(($p).len()),*], &|idx: &[usize]| {
            let mut idx = idx.iter().copied();
            $(let (mut $x, $tx) = ($p)[idx.next().unwrap()].clone(); let _ = (&mut $x, &$tx);)*
            let _ = idx.next();
            let want: T = ($t).clone();
            let $v = $e;
            let got = (&$v).lift();
            let reads = vec![$(($asp, ($got).t(), ($want).t())),*];
            ($v, got, want, reads)
        })
    };
}

fn chars_len(s: &str) -> usize {
    s.chars().count()
}

/// The texts names are made from.
fn texts(deep: bool) -> Vec<String> {
    let mut v: Vec<String> =
        ["a", "b", "B", "a-b", "a_b", "x1", "1x", "object", "number", "Object", "NUMBER", "objects", "obj", "start", "all", ":strips", "?x", "", "é", "名前", "a b", "(", "-"]
            .iter()
            .map(|s| s.to_string())
            .collect();
    v.push("n".repeat(if deep { 5000 } else { 300 }));
    v.push("é".repeat(100));
    v
}

fn words<'x>(v: &'x [&'x str]) -> impl Iterator<Item = &'x str> {
    v.iter().copied()
}

macro_rules! wrappers {
    ($b:ident, $texts:ident, $names:ident, $($t:ident: $wrap:expr, [$($cn:literal => $c:expr),*], [$($rn:literal => $r:expr),*]);* $(;)?) => {$({
        let wrap: fn(T) -> T = $wrap;
        let makes: Vec<(&'static str, fn(String) -> $t)> = vec![$(($cn, $c)),*];
        let reads: Vec<(&'static str, fn(&$t) -> T)> = vec![$(($rn, $r)),*];
        let read = |v: &$t| seq(reads.iter().map(|r| n(r.0, vec![(r.1)(v)])).collect());
        let want = |t: &T| seq(reads.iter().map(|r| n(r.0, vec![if r.0 == "len" { match t { T::A(s) => chars_len(s).t(), _ => a("?") } } else { t.clone() }])).collect());
        for (cn, c) in makes {
            let name = format!("{}::{}", stringify!($t), cn);
            let _ = op!($b, name.as_str(), [x tx in $texts], v = c(x), wrap(tx.clone()), "its conversions": read(&v) => want(&tx));
        }
        let name = concat!(stringify!($t), "::from(Name)");
        let _ = op!($b, name, [x tx in $names], v = $t::from(x), wrap(tx.clone()), "its conversions": read(&v) => want(&tx));
    })*};
}

fn leak(s: String) -> &'static str {
    // one allocation per distinct text
    use std::collections::HashSet;
    use std::sync::Mutex;
    static ALL: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut g = ALL.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashSet::new);
    if let Some(x) = m.get(s.as_str()) {
        return x;
    }
    let l: &'static str = Box::leak(s.into_boxed_str());
    m.insert(l);
    l
}

/// Reads of a sequence held as a slice, whichever way the container hands it out.
fn slices<X: Lift>(s: &[X], want: &T) -> (T, T) {
    let k = kids(want);
    let g = vec![
        ts(s.iter()),
        T::U(s.len() as u64),
        T::U(s.is_empty() as u64),
        seq(s.iter().rev().map(|x| x.lift()).collect()),
        seq(s.first().into_iter().chain(s.last()).map(|x| x.lift()).collect()),
    ];
    let w = vec![
        seq(k.clone()),
        T::U(k.len() as u64),
        T::U(k.is_empty() as u64),
        seq(k.iter().rev().cloned().collect()),
        seq(k.first().into_iter().chain(k.last()).cloned().collect()),
    ];
    (seq(g), seq(w))
}
/// An owning iteration: in order, exactly once, then over, by every way of stepping through it.
fn iteration<I: Iterator>(mk: &dyn Fn() -> I, want: &T) -> (T, T)
where
    I::Item: Lift,
{
    let k = kids(want);
    let mut g = vec![];
    let mut it = mk();
    let mut v = vec![];
    while let Some(x) = it.next() {
        v.push(x.lift());
        if v.len() > k.len() + 2 {
            break;
        }
    }
    v.push(T::U(it.next().is_none() as u64));
    v.push(T::U(it.next().is_none() as u64));
    g.push(seq(v));
    g.push(T::U(mk().count() as u64));
    g.push(opt("opt", mk().last().map(|x| x.lift())));
    let mut v = k.clone();
    v.push(T::U(1));
    v.push(T::U(1));
    let mut w = vec![seq(v), T::U(k.len() as u64), opt("opt", k.last().cloned())];
    for i in [0, 1, k.len() / 2, k.len().saturating_sub(1), k.len(), k.len() + 1] {
        let mut it = mk();
        g.push(opt("opt", it.nth(i).map(|x| x.lift())));
        w.push(opt("opt", k.get(i).cloned()));
        g.push(opt("opt", it.next().map(|x| x.lift())));
        w.push(opt("opt", k.get(i + 1).cloned()));
        let mut it = mk();
        for _ in 0..i {
            it.next();
        }
        let (lo, hi) = it.size_hint();
        let left = k.len().saturating_sub(i);
        g.push(T::U((lo <= left && hi.map_or(true, |h| h >= left)) as u64));
        w.push(T::U(1));
    }
    g.push(seq(mk().fold(vec![], |mut acc, x| {
        acc.push(x.lift());
        acc
    })));
    w.push(seq(k));
    (seq(g), seq(w))
}
/// A container type: every constructor on every sequence, read back every way.
macro_rules! container {
    ($b:ident, $R:ty, $X:ty, $name:literal, $tag:literal, $seqs:expr, make [$($cn:literal => |$cv:ident| $c:expr),* $(,)?], slices [$($sn:literal => |$sv:ident| $s:expr),* $(,)?], owned [$($on:literal => |$ov:ident| $o:expr),* $(,)?] $(, also [$($an:literal => |$av:ident, $ak:ident| $ag:expr => $aw:expr),* $(,)?])?) => {{
        let makes: Vec<(&'static str, fn(Vec<$X>) -> $R)> = vec![$(($cn, |$cv: Vec<$X>| $c)),*];
        let read = |v: &$R, tx: &T| -> Vec<(&'static str, T, T)> {
            let _ = (v, tx);
            let mut o = vec![];
            $({ let $sv = v; let (g, w) = slices($s, tx); o.push(($sn, g, w)); })*
            $({ let $ov = v; let (g, w) = iteration(&|| $o, tx); o.push(($on, g, w)); })*
            $($({ let ($av, $ak) = (v, kids(tx)); let _ = &$ak; let g = ($ag).t(); o.push(($an, g, ($aw).t())); })*)?
            let _ = &mut o;
            o
        };
        let mut all = vec![];
        for (cn, c) in makes {
            let name = format!("{}::{}", $name, cn);
            all.push(apply($b, &name, &[$seqs.len()], &|i: &[usize]| {
                let (x, tx) = &$seqs[i[0]];
                let v = c(x.clone());
                let got = (&v).lift();
                let reads = read(&v, tx);
                (v, got, retag($tag, tx), reads)
            }));
        }
        mix($b.cap, all)
    }};
}

fn all(b: &mut B) {
    let deep = b.deep;
    let txs: P<String> = texts(deep).into_iter().map(|s| (s.clone(), a(s))).collect();
    let names: P<Name> = mix(
        40,
        vec![
            op!(b, "Name::new(&str)", [x tx in txs], v = Name::new(x.as_str()), tx, "as_ref": AsRef::<str>::as_ref(&v) => tx.clone(), "deref": v.deref() => tx.clone(), "display": v.deref().to_string() => tx.clone(), "len": v.len() => chars_len(&x), "is_empty": v.is_empty() => x.is_empty(), "== str": (v == *x.as_str()) => true, "== &str": (v == x.as_str()) => true, "== String": (v == x) => true),
            op!(b, "Name::new(String)", [x tx in txs], v = Name::new(x.clone()), tx, "as_ref": AsRef::<str>::as_ref(&v) => tx.clone(), "len": v.len() => chars_len(&x), "deref": v.deref() => tx.clone()),
            op!(b, "Name::new_static", [x tx in txs], v = Name::new_static(leak(x.clone())), tx, "as_ref": AsRef::<str>::as_ref(&v) => tx.clone(), "deref": v.deref() => tx.clone(), "display": v.deref().to_string() => tx.clone(), "len": v.len() => chars_len(&x), "is_empty": v.is_empty() => x.is_empty(), "== Name::new": (v == Name::new(x.as_str())) => true),
            op!(b, "Name::from(&str)", [x tx in txs], v = Name::from(x.as_str()), tx, "as_ref": AsRef::<str>::as_ref(&v) => tx.clone()),
            op!(b, "Name::from(String)", [x tx in txs], v = Name::from(x), tx, "as_ref": AsRef::<str>::as_ref(&v) => tx.clone()),
            op!(b, "Name::from(Cow)", [x tx in txs], v = Name::from(Cow::Borrowed(x.as_str())), tx),
            op!(b, "Name::from(Cow owned)", [x tx in txs], v = Name::from(Cow::<str>::Owned(x)), tx),
            op!(b, "Name::from(Box<str>)", [x tx in txs], v = Name::from(x.into_boxed_str()), tx),
            op!(b, "Name::from(&String)", [x tx in txs], v = Name::from(&x), tx),
        ],
    );
    wrappers!(b, txs, names,
        ActionSymbol: |t| t, ["from_str" => |s| ActionSymbol::from_str(&s), "new" => |s| ActionSymbol::new(Name::new(s)), "from_name" => |s| ActionSymbol::from_name(Name::new(s)), "from(String)" => |s| ActionSymbol::from(s), "from(&str)" => |s| ActionSymbol::from(s.as_str())],
            ["as_ref str" => |v| AsRef::<str>::as_ref(v).t(), "as_ref Name" => |v| AsRef::<Name>::as_ref(v).t(), "deref" => |v| { let x: &Name = v.deref(); x.t() }, "len" => |v| v.len().t()];
        DurativeActionSymbol: |t| t, ["from_str" => |s| DurativeActionSymbol::from_str(&s), "new" => |s| DurativeActionSymbol::new(Name::new(s)), "from_name" => |s| DurativeActionSymbol::from_name(Name::new(s)), "from(String)" => |s| DurativeActionSymbol::from(s), "from(&str)" => |s| DurativeActionSymbol::from(s.as_str())],
            ["as_ref str" => |v| AsRef::<str>::as_ref(v).t(), "as_ref Name" => |v| AsRef::<Name>::as_ref(v).t(), "deref" => |v| { let x: &Name = v.deref(); x.t() }, "len" => |v| v.len().t()];
        FunctionSymbol: |t| t, ["from_str" => |s| FunctionSymbol::from_str(&s), "new" => |s| FunctionSymbol::new(Name::new(s)), "from_name" => |s| FunctionSymbol::from_name(Name::new(s)), "from(String)" => |s| FunctionSymbol::from(s), "from(&str)" => |s| FunctionSymbol::from(s.as_str())],
            ["as_ref str" => |v| AsRef::<str>::as_ref(v).t(), "as_ref Name" => |v| AsRef::<Name>::as_ref(v).t(), "deref" => |v| { let x: &Name = v.deref(); x.t() }, "len" => |v| v.len().t()];
        Predicate: |t| t, ["from_str" => |s| Predicate::from_str(&s), "new" => |s| Predicate::new(Name::new(s)), "from_name" => |s| Predicate::from_name(Name::new(s)), "from_static" => |s| Predicate::from_static(leak(s)), "from(String)" => |s| Predicate::from(s), "from(&str)" => |s| Predicate::from(s.as_str())],
            ["as_ref str" => |v| AsRef::<str>::as_ref(v).t(), "as_ref Name" => |v| AsRef::<Name>::as_ref(v).t(), "deref" => |v| { let x: &Name = v.deref(); x.t() }, "len" => |v| v.len().t()];
        Variable: |t| n("var", vec![t]), ["from_str" => |s| Variable::from_str(&s), "new" => |s| Variable::new(Name::new(s)), "from_name" => |s| Variable::from_name(Name::new(s)), "from_static" => |s| Variable::from_static(leak(s)), "from(String)" => |s| Variable::from(s), "from(&str)" => |s| Variable::from(s.as_str())],
            ["as_ref str" => |v| AsRef::<str>::as_ref(v).t(), "as_ref Name" => |v| AsRef::<Name>::as_ref(v).t(), "deref" => |v| { let x: &Name = v.deref(); x.t() }, "len" => |v| v.len().t()];
        PreferenceName: |t| t, ["from_str" => |s| PreferenceName::from_str(&s), "new" => |s| PreferenceName::new(Name::new(s)), "new(&str)" => |s| PreferenceName::new(s.as_str()), "from_name" => |s| PreferenceName::from_name(Name::new(s)), "from_static" => |s| PreferenceName::from_static(leak(s)), "from(String)" => |s| PreferenceName::from(s), "from(&str)" => |s| PreferenceName::from(s.as_str())],
            ["deref" => |v| { let x: &Name = v.deref(); x.t() }, "len" => |v| v.len().t()];
        PrimitiveType: |t| t, ["new" => |s| PrimitiveType::new(Name::new(s)), "from(String)" => |s| PrimitiveType::from(s), "from(&str)" => |s| PrimitiveType::from(s.as_str())],
            ["as_ref str" => |v| AsRef::<str>::as_ref(v).t(), "deref" => |v| { let x: &str = v.deref(); x.t() }];
    );
    // small pools of leaves
    let w = |v: &[&str]| -> P<String> { words(v).map(|s| (s.to_string(), a(s))).collect() };
    let nm: P<Name> = w(&["c0", "c1", "object", "C0"]).into_iter().map(|(s, t)| (Name::new(s), t)).collect();
    let vars: P<Variable> = w(&["x", "y", "c0"]).into_iter().map(|(s, t)| (Variable::from_str(&s), n("var", vec![t]))).collect();
    let preds: P<Predicate> = w(&["p", "q"]).into_iter().map(|(s, t)| (Predicate::from_str(&s), t)).collect();
    let funs: P<FunctionSymbol> = w(&["f", "g"]).into_iter().map(|(s, t)| (FunctionSymbol::from_str(&s), t)).collect();
    let prefs: P<PreferenceName> = w(&["pr", "ps"]).into_iter().map(|(s, t)| (PreferenceName::from_str(&s), t)).collect();
    let asyms: P<ActionSymbol> = w(&["act", "bct"]).into_iter().map(|(s, t)| (ActionSymbol::from_str(&s), t)).collect();
    let dsyms: P<DurativeActionSymbol> = w(&["dact", "ebct"]).into_iter().map(|(s, t)| (DurativeActionSymbol::from_str(&s), t)).collect();
    let nums: P<Number> = [0.0f32, 1.0, -2.5, 1e9].iter().map(|v| (Number::new(*v), f(*v))).collect();
    let aops: P<AssignOp> = vec![(AssignOp::Assign, a("assign")), (AssignOp::ScaleUp, a("scale-up")), (AssignOp::ScaleDown, a("scale-down")), (AssignOp::Increase, a("increase")), (AssignOp::Decrease, a("decrease"))];
    let aopts: P<AssignOpT> = vec![(AssignOpT::Increase, a("increase")), (AssignOpT::Decrease, a("decrease"))];
    let bops: P<BinaryOp> = vec![(BinaryOp::Addition, a("+")), (BinaryOp::Multiplication, a("*")), (BinaryOp::Subtraction, a("-")), (BinaryOp::Division, a("/"))];
    let mops: P<MultiOp> = vec![(MultiOp::Addition, a("+")), (MultiOp::Multiplication, a("*"))];
    let comps: P<BinaryComp> = vec![(BinaryComp::GreaterThan, a(">")), (BinaryComp::LessThan, a("<")), (BinaryComp::Equal, a("=")), (BinaryComp::GreaterOrEqual, a(">=")), (BinaryComp::LessThanOrEqual, a("<="))];
    let dops: P<DOp> = vec![(DOp::Equal, a("=")), (DOp::GreaterOrEqual, a(">=")), (DOp::LessThanOrEqual, a("<="))];
    let times: P<TimeSpecifier> = vec![(TimeSpecifier::Start, a("start")), (TimeSpecifier::End, a("end"))];
    let ivals: P<Interval> = vec![(Interval::All, a("all"))];
    // operators
    let _ = op!(b, "BinaryOp::from(MultiOp)", [x tx in mops], v = BinaryOp::from(x), tx.clone());
    let _ = op!(b, "MultiOp::try_from(BinaryOp)", [x tx in bops], v = MultiOp::try_from(x).ok(), opt("opt", if tx == a("+") || tx == a("*") { Some(tx.clone()) } else { None }));
    // types
    let prim: P<PrimitiveType> = w(&["t0", "t1", "object", "number"]).into_iter().map(|(s, t)| (PrimitiveType::from(s), t)).collect();
    let primseq = seqs(&prim, deep, 0);
    let strseq: P<Vec<String>> = seqs(&w(&["t0", "t1", "object", "number"]), deep, 0);
    let ty1 = mix(9, vec![
        op!(b, "Type::from(PrimitiveType)", [x tx in prim], v = Type::from(x), n("exactly", vec![tx.clone()]), "len": v.len() => 1usize),
        op!(b, "Type::from(&str)", [x tx in txs], v = Type::from(x.as_str()), n("exactly", vec![tx.clone()]), "len": v.len() => 1usize),
    ]);
    for (i, (v, t)) in ty1.iter().enumerate() {
        let w = seq(kids(t));
        let (g, w) = iteration(&|| v.clone().into_iter(), &w);
        b.same("Type::into_iter of one", &format!("{}", i), "into_iter", g, w);
    }
    let ty2 = container!(b, Type, PrimitiveType, "Type", "either", primseq,
        make ["from(Vec<PrimitiveType>)" => |v| Type::from(v), "from_iter(PrimitiveType)" => |v| v.into_iter().collect::<Type>()],
        slices [], owned ["into_iter" => |v| v.clone().into_iter()],
        also ["len" => |v, k| v.len() => k.len()]);
    let ty3 = container!(b, Type, String, "Type", "either", strseq,
        make ["from(Vec<&str>)" => |v| Type::from(v.iter().map(|s| s.as_str()).collect::<Vec<&str>>()), "from_iter(&str)" => |v| v.iter().map(|s| s.as_str()).collect::<Type>(), "from_iter(String)" => |v| v.into_iter().collect::<Type>()],
        slices [], owned ["into_iter" => |v| v.clone().into_iter()],
        also ["len" => |v, k| v.len() => k.len()]);
    let obj = n("exactly", vec![a("object")]);
    let num_t = n("exactly", vec![a("number")]);
    b.same("Type::default", "", "value", Type::default().lift(), obj.clone());
    b.same("Type::OBJECT", "", "value", Type::OBJECT.lift(), obj.clone());
    b.same("Type::NUMBER", "", "value", Type::NUMBER.lift(), num_t.clone());
    b.same("FunctionType::default", "", "value", FunctionType::default().lift(), num_t.clone());
    b.same("FunctionType::NUMBER", "", "value", FunctionType::NUMBER.lift(), num_t.clone());
    let types: P<Type> = mix(10, vec![ty1, ty2, ty3]);
    let ft1 = mix(10, vec![
        op!(b, "FunctionType::new(Type)", [x tx in types], v = FunctionType::new(x), tx, "deref": { let t: &Type = v.deref(); t.lift() } => tx.clone()),
        op!(b, "FunctionType::from(Type)", [x tx in types], v = FunctionType::from(x), tx),
        op!(b, "<FunctionType as From<Type>>::from", [x tx in types], v = <FunctionType as From<Type>>::from(x), tx),
        op!(b, "FunctionType::from(&str)", [x tx in txs], v = <FunctionType as From<&str>>::from(x.as_str()), n("exactly", vec![tx.clone()])),
        op!(b, "FunctionType::new(&str)", [x tx in txs], v = FunctionType::new(x.as_str()), n("exactly", vec![tx.clone()])),
    ]);
    let ft2 = container!(b, FunctionType, String, "FunctionType", "either", strseq,
        make ["from(Vec<&str>)" => |v| <FunctionType as From<Vec<&str>>>::from(v.iter().map(|s| s.as_str()).collect()), "new(Vec<&str>)" => |v| FunctionType::new(v.iter().map(|s| s.as_str()).collect::<Vec<&str>>())],
        slices [], owned [], also ["len" => |v, k| v.len() => k.len()]);
    let ftypes = mix(8, vec![ft1, ft2]);
    // typed elements
    macro_rules! typed {
        ($el:expr, $X:ty, $nm:literal) => {
            mix(8, vec![
                op!(b, concat!("Typed<", $nm, ">::new"), [x tx in $el, y ty in types], v = Typed::new(x.clone(), y), n("typed", vec![tx.clone(), ty.clone()]), "value": v.value() => tx.clone(), "type_": v.type_() => ty.clone(), "deref": { let d: &$X = v.deref(); d.lift() } => tx.clone()),
                op!(b, concat!("Typed<", $nm, ">::new_object"), [x tx in $el], v = Typed::new_object(x), n("typed", vec![tx.clone(), obj.clone()])),
                op!(b, concat!("Typed<", $nm, ">::from"), [x tx in $el], v = Typed::from(x), n("typed", vec![tx.clone(), obj.clone()])),
                op!(b, concat!($nm, "::to_typed(Type)"), [x tx in $el, y ty in types], v = x.to_typed(y), n("typed", vec![tx.clone(), ty.clone()])),
                op!(b, concat!($nm, "::to_typed(&str)"), [x tx in $el, y ty in txs], v = x.to_typed(y.as_str()), n("typed", vec![tx.clone(), n("exactly", vec![ty.clone()])])),
                op!(b, concat!($nm, "::to_typed(Vec<&str>)"), [x tx in $el, y ty in strseq], v = x.to_typed(y.iter().map(|s| s.as_str()).collect::<Vec<&str>>()), n("typed", vec![tx.clone(), retag("either", &ty)])),
                op!(b, concat!($nm, "::to_typed_either(&str)"), [x tx in $el, y ty in strseq], v = x.to_typed_either(y.iter().map(|s| s.as_str())), n("typed", vec![tx.clone(), retag("either", &ty)])),
                op!(b, concat!($nm, "::to_typed_either(PrimitiveType)"), [x tx in $el, y ty in primseq], v = x.to_typed_either(y), n("typed", vec![tx.clone(), retag("either", &ty)])),
            ])
        };
    }
    let tnames: P<Typed<Name>> = typed!(nm, Name, "Name");
    let tvars: P<Typed<Variable>> = typed!(vars, Variable, "Variable");
    let tnseq = seqs(&tnames, deep, 0);
    let tvseq = seqs(&tvars, deep, 0);
    let tv = container!(b, TypedVariables, Typed<Variable>, "TypedVariables", "tl", tvseq,
        make ["new" => |v| TypedVariables::new(v), "from(Vec)" => |v| TypedVariables::from(v), "from_iter" => |v| v.into_iter().collect::<TypedVariables>()],
        slices ["value" => |v| v.value(), "deref" => |v| v.deref()], owned ["into_iter" => |v| v.clone().into_iter()],
        also ["== Vec" => |v, k| (*v == v.clone().into_iter().collect::<Vec<_>>()) => true, "== slice" => |v, k| (v == v.value()) => true, "!= shorter" => |v, k| (k.is_empty() || *v != v.value()[1..]) => true]);
    let tvs = mix(if deep { 6 } else { 4 }, vec![tv]);
    let tn = container!(b, TypedNames, Typed<Name>, "TypedNames", "tl", tnseq,
        make ["new" => |v| TypedNames::new(v), "from(Vec)" => |v| TypedNames::from(v), "from_iter" => |v| v.into_iter().collect::<TypedNames>()],
        slices ["value" => |v| v.value(), "deref" => |v| v.deref()], owned ["into_iter" => |v| v.clone().into_iter()],
        also ["== Vec" => |v, k| (*v == v.clone().into_iter().collect::<Vec<_>>()) => true, "== slice" => |v, k| (v == v.value()) => true]);
    b.same("TypedNames::default", "", "value", TypedNames::default().lift(), n("tl", vec![]));
    // declarations
    let consts = container!(b, Constants, Typed<Name>, "Constants", "tl", tnseq,
        make ["new" => |v| Constants::new(TypedNames::new(v)), "from(TypedNames)" => |v| Constants::from(TypedNames::new(v)), "from_iter" => |v| v.into_iter().collect::<Constants>()],
        slices ["deref" => |v| v.deref(), "value" => |v| v.value()], owned []);
    let objects = container!(b, Objects, Typed<Name>, "Objects", "tl", tnseq,
        make ["new" => |v| Objects::new(v), "from(TypedNames)" => |v| Objects::from(TypedNames::new(v)), "from_iter" => |v| v.into_iter().collect::<Objects>()],
        slices ["deref" => |v| v.deref(), "values" => |v| v.values(), "value" => |v| v.value()], owned []);
    let typedefs = container!(b, Types, Typed<Name>, "Types", "tl", tnseq,
        make ["new" => |v| Types::new(TypedNames::new(v)), "from(TypedNames)" => |v| Types::from(TypedNames::new(v))],
        slices ["deref" => |v| v.deref(), "values" => |v| v.values()], owned []);
    let skels = mix(6, vec![
        op!(b, "AtomicFormulaSkeleton::new", [x tx in preds, y ty in tvs], v = AtomicFormulaSkeleton::new(x, y), n("skel", vec![tx.clone(), ty.clone()]), "predicate": v.predicate() => tx.clone(), "variables": v.variables() => ty.clone(), "name": v.name() => tx.clone()),
        op!(b, "AtomicFormulaSkeleton::from", [x tx in preds, y ty in tvs], v = AtomicFormulaSkeleton::from((x, y)), n("skel", vec![tx.clone(), ty.clone()]), "predicate": v.predicate() => tx.clone(), "variables": v.variables() => ty.clone()),
    ]);
    let fskels = mix(6, vec![
        op!(b, "AtomicFunctionSkeleton::new", [x tx in funs, y ty in tvs], v = AtomicFunctionSkeleton::new(x, y), n("skel", vec![tx.clone(), ty.clone()]), "symbol": v.symbol() => tx.clone(), "variables": v.variables() => ty.clone()),
        op!(b, "AtomicFunctionSkeleton::from(list)", [x tx in funs, y ty in tvs], v = AtomicFunctionSkeleton::from((x, y)), n("skel", vec![tx.clone(), ty.clone()]), "symbol": v.symbol() => tx.clone(), "variables": v.variables() => ty.clone()),
        op!(b, "AtomicFunctionSkeleton::from(Vec)", [x tx in funs, y ty in tvseq], v = AtomicFunctionSkeleton::from((x, y)), n("skel", vec![tx.clone(), retag("tl", &ty)])),
    ]);
    let skseq = seqs(&skels, deep, 0);
    let predefs = container!(b, PredicateDefinitions, AtomicFormulaSkeleton, "PredicateDefinitions", "preds", skseq,
        make ["new" => |v| PredicateDefinitions::new(v), "from(Vec)" => |v| <PredicateDefinitions as From<Vec<_>>>::from(v), "const from" => |v| PredicateDefinitions::from(v), "from_iter" => |v| v.into_iter().collect::<PredicateDefinitions>()],
        slices ["values" => |v| v.values(), "deref" => |v| v.deref()], owned []);
    let ftyped = mix(8, vec![
        op!(b, "FunctionTyped::new", [x tx in fskels, y ty in ftypes], v = FunctionTyped::new(x, y), n("typed", vec![tx.clone(), ty.clone()]), "value_ref": v.value_ref() => tx.clone(), "type_ref": v.type_ref() => ty.clone(), "deref": { let d: &AtomicFunctionSkeleton = v.deref(); d.lift() } => tx.clone()),
        op!(b, "FunctionTyped::from_type", [x tx in fskels, y ty in types], v = FunctionTyped::from_type(x, y), n("typed", vec![tx.clone(), ty.clone()])),
        op!(b, "FunctionTyped::new_number", [x tx in fskels], v = FunctionTyped::new_number(x), n("typed", vec![tx.clone(), num_t.clone()])),
        op!(b, "FunctionTyped::from", [x tx in fskels], v = FunctionTyped::from(x), n("typed", vec![tx.clone(), num_t.clone()])),
    ]);
    let ftseq = seqs(&ftyped, deep, 0);
    let ftl = container!(b, FunctionTypedList<AtomicFunctionSkeleton>, FunctionTyped<AtomicFunctionSkeleton>, "FunctionTypedList", "tl", ftseq,
        make ["new" => |v| FunctionTypedList::new(v), "from(Vec)" => |v| FunctionTypedList::from(v), "from_iter" => |v| v.into_iter().collect::<FunctionTypedList<AtomicFunctionSkeleton>>()],
        slices ["values" => |v| v.values(), "deref" => |v| v.deref()], owned [],
        also ["== Vec" => |v, k| (*v == v.values().to_vec()) => true, "== slice" => |v, k| (v == v.values()) => true, "!= shorter" => |v, k| (k.is_empty() || *v != v.values()[1..]) => true]);
    b.same("FunctionTypedList::default", "", "value", FunctionTypedList::<AtomicFunctionSkeleton>::default().lift(), n("tl", vec![]));
    let functions = mix(6, vec![
        container!(b, Functions, FunctionTyped<AtomicFunctionSkeleton>, "Functions", "tl", ftseq,
            make ["new" => |v| Functions::new(FunctionTypedList::new(v)), "from(list)" => |v| Functions::from(FunctionTypedList::new(v)), "from_iter" => |v| v.into_iter().collect::<Functions>()],
            slices ["values" => |v| v.values(), "deref" => |v| v.deref(), "deref deref" => |v| v.deref().deref()], owned []),
        op!(b, "Functions::new(list)", [x tx in ftl], v = Functions::new(x), tx),
    ]);
    // terms
    let t0 = mix(6, vec![
        op!(b, "Term::new_name", [x tx in nm], v = Term::new_name(x), n("tname", vec![tx.clone()])),
        op!(b, "Term::new_variable", [x tx in vars], v = Term::new_variable(x), tx.clone()),
        op!(b, "Term::from(Name)", [x tx in nm], v = Term::from(x), n("tname", vec![tx.clone()])),
        op!(b, "Term::from(Variable)", [x tx in vars], v = Term::from(x), tx.clone()),
    ]);
    let mut terms = t0.clone();
    let mut fterms = vec![];
    for _ in 0..2 {
        let tsq = seqs(&terms, deep, 0);
        fterms = op!(b, "FunctionTerm::new", [x tx in funs, y ty in tsq], v = FunctionTerm::new(x, y), n("fterm", vec![tx.clone(), retag("args", &ty)]), "symbol": v.symbol() => tx.clone(), "terms": ts(v.terms()) => ty.clone(), "as_ref symbol": AsRef::<FunctionSymbol>::as_ref(&v) => tx.clone(), "as_ref terms": ts(AsRef::<Vec<Term>>::as_ref(&v)) => ty.clone());
        let f1 = op!(b, "Term::new_function", [x tx in fterms], v = Term::new_function(x), tx.clone());
        let f2 = op!(b, "Term::from(FunctionTerm)", [x tx in fterms], v = Term::from(x), tx.clone());
        terms = mix(if deep { 8 } else { 6 }, vec![t0.clone(), f1, f2]);
    }
    let fterms = mix(5, vec![fterms]);
    let tsq = seqs(&terms, deep, 0);
    let nsq = seqs(&nm, deep, 0);
    let heads = mix(6, vec![
        op!(b, "FHead::new", [x tx in funs], v = FHead::new(x), n("fhead", vec![tx.clone()])),
        op!(b, "FHead::new_with_terms", [x tx in funs, y ty in tsq], v = FHead::new_with_terms(x, y), n("fheadt", vec![tx.clone(), retag("args", &ty)])),
    ]);
    let bfts = mix(6, vec![op!(b, "BasicFunctionTerm::new", [x tx in funs, y ty in nsq], v = BasicFunctionTerm::new(x, y), n("bft", vec![tx.clone(), retag("args", &ty)]), "symbol": v.symbol() => tx.clone(), "names": ts(v.names()) => ty.clone(), "as_ref symbol": AsRef::<FunctionSymbol>::as_ref(&v) => tx.clone(), "as_ref names": ts(AsRef::<[Name]>::as_ref(&v)) => ty.clone())]);
    // atomic formulas and literals over terms and names
    macro_rules! atoms {
        ($X:ty, $nm:literal, $el:expr, $sq:expr) => {{
            let e = mix(8, vec![
                op!(b, concat!("EqualityAtomicFormula<", $nm, ">::new"), [x tx in $el, y ty in $el], v = AtomicFormula::Equality(EqualityAtomicFormula::new(x, y)), n("eq", vec![tx.clone(), ty.clone()]), "first": match &v { AtomicFormula::Equality(e) => e.first().lift(), _ => a("?") } => tx.clone(), "second": match &v { AtomicFormula::Equality(e) => e.second().lift(), _ => a("?") } => ty.clone()),
                op!(b, concat!("EqualityAtomicFormula<", $nm, ">::from"), [x tx in $el, y ty in $el], v = AtomicFormula::from(EqualityAtomicFormula::from((x, y))), n("eq", vec![tx.clone(), ty.clone()])),
                op!(b, concat!("AtomicFormula<", $nm, ">::new_equality"), [x tx in $el, y ty in $el], v = AtomicFormula::new_equality(x, y), n("eq", vec![tx.clone(), ty.clone()])),
            ]);
            let p = mix(8, vec![
                op!(b, concat!("PredicateAtomicFormula<", $nm, ">::new"), [x tx in preds, y ty in $sq], v = AtomicFormula::Predicate(PredicateAtomicFormula::new(x, y)), n("pred", vec![tx.clone(), retag("args", &ty)]), "predicate": match &v { AtomicFormula::Predicate(e) => e.predicate().lift(), _ => a("?") } => tx.clone(), "values": match &v { AtomicFormula::Predicate(e) => ts(e.values()), _ => a("?") } => ty.clone(), "deref": match &v { AtomicFormula::Predicate(e) => { let s: &[$X] = e.deref(); ts(s) }, _ => a("?") } => ty.clone()),
                op!(b, concat!("PredicateAtomicFormula<", $nm, ">::from"), [x tx in preds, y ty in $sq], v = AtomicFormula::from(PredicateAtomicFormula::from((x, y))), n("pred", vec![tx.clone(), retag("args", &ty)])),
                op!(b, concat!("AtomicFormula<", $nm, ">::new_predicate"), [x tx in preds, y ty in $sq], v = AtomicFormula::new_predicate(x, y), n("pred", vec![tx.clone(), retag("args", &ty)])),
            ]);
            let at = mix(6, vec![e, p]);
            let li = mix(6, vec![
                op!(b, concat!("Literal<", $nm, ">::new"), [x tx in at], v = Literal::new(x), n("pos", vec![tx.clone()]), "is_negated": v.is_negated() => false),
                op!(b, concat!("Literal<", $nm, ">::new_not"), [x tx in at], v = Literal::new_not(x), n("neg", vec![tx.clone()]), "is_negated": v.is_negated() => true),
                op!(b, concat!("Literal<", $nm, ">::from"), [x tx in at], v = Literal::from(x), n("pos", vec![tx.clone()]), "is_negated": v.is_negated() => false),
            ]);
            (at, li)
        }};
    }
    let (ats, tlits) = atoms!(Term, "Term", terms, tsq);
    let (_atn, nlits) = atoms!(Name, "Name", nm, nsq);
    // numeric expressions
    let e0 = mix(4, vec![
        op!(b, "FExp::new_number(Number)", [x tx in nums], v = FExp::new_number(x), tx.clone()),
        op!(b, "FExp::new_function", [x tx in heads], v = FExp::new_function(x), tx.clone()),
    ]);
    let _ = op!(b, "FExp::new_number(f32)", [x tx in nums], v = FExp::new_number(*x), tx.clone());
    let mut fexps = e0.clone();
    for _ in 0..2 {
        let sq = seqs(&fexps, deep, 0);
        fexps = mix(if deep { 8 } else { 5 }, vec![
            e0.clone(),
            op!(b, "FExp::new_binary_op", [o to in bops, x tx in fexps, y ty in fexps], v = FExp::new_binary_op(o, x, y), n("bin", vec![to.clone(), tx.clone(), ty.clone()])),
            op!(b, "FExp::new_multi_op", [o to in mops, x tx in fexps, y ty in sq], v = FExp::new_multi_op(o, x, y), n("multi", vec![to.clone(), tx.clone(), retag("rest", &ty)])),
            op!(b, "FExp::new_negative", [x tx in fexps], v = FExp::new_negative(x), n("negate", vec![tx.clone()])),
        ]);
    }
    let d0 = mix(4, vec![
        op!(b, "FExpDa::new_f_exp", [x tx in fexps], v = FExpDa::new_f_exp(x), n("da-fexp", vec![tx.clone()])),
        op!(b, "FExpDa::from(FExp)", [x tx in fexps], v = FExpDa::from(x), n("da-fexp", vec![tx.clone()])),
        vec![(FExpDa::new_duration(), n("?duration", vec![]))],
    ]);
    b.same("FExpDa::new_duration", "", "variants", FExpDa::new_duration().lift(), n("?duration", vec![]));
    let mut fdas = d0.clone();
    for _ in 0..2 {
        let sq = seqs(&fdas, deep, 0);
        fdas = mix(if deep { 8 } else { 5 }, vec![
            d0.clone(),
            op!(b, "FExpDa::new_binary_op", [o to in bops, x tx in fdas, y ty in fdas], v = FExpDa::new_binary_op(o, x, y), n("da-bin", vec![to.clone(), tx.clone(), ty.clone()])),
            op!(b, "FExpDa::new_multi_op", [o to in mops, x tx in fdas, y ty in sq], v = FExpDa::new_multi_op(o, x, y), n("da-multi", vec![to.clone(), tx.clone(), retag("rest", &ty)])),
            op!(b, "FExpDa::new_negative", [x tx in fdas], v = FExpDa::new_negative(x), n("da-negate", vec![tx.clone()])),
        ]);
    }
    let fts = mix(5, vec![
        op!(b, "FExpT::new_scaled", [x tx in fexps], v = FExpT::new_scaled(x), n("scaled", vec![tx.clone()])),
        op!(b, "FExpT::from(FExp)", [x tx in fexps], v = FExpT::from(x), n("scaled", vec![tx.clone()])),
        vec![(FExpT::new(), n("#t", vec![]))],
    ]);
    b.same("FExpT::new", "", "variants", FExpT::new().lift(), n("#t", vec![]));
    b.same("FExpT::default", "", "variants", FExpT::default().lift(), n("#t", vec![]));
    let fcomps = mix(6, vec![
        op!(b, "FComp::new", [o to in comps, x tx in fexps, y ty in fexps], v = FComp::new(o, x, y), n("fcomp", vec![to.clone(), tx.clone(), ty.clone()]), "comparison": v.comparison() => to.clone(), "first": v.first() => tx.clone(), "second": v.second() => ty.clone()),
        op!(b, "FComp::from", [o to in comps, x tx in fexps, y ty in fexps], v = FComp::from((o, x, y)), n("fcomp", vec![to.clone(), tx.clone(), ty.clone()])),
    ]);
    let fassigns = mix(6, vec![
        op!(b, "FAssignDa::new", [o to in aops, x tx in heads, y ty in fdas], v = FAssignDa::new(o, x, y), n("fassignda", vec![to.clone(), tx.clone(), ty.clone()]), "operation": v.operation() => to.clone(), "function": v.function() => tx.clone(), "function_expr": v.function_expr() => ty.clone()),
        op!(b, "FAssignDa::from", [o to in aops, x tx in heads, y ty in fdas], v = FAssignDa::from((o, x, y)), n("fassignda", vec![to.clone(), tx.clone(), ty.clone()])),
    ]);
    let m0 = mix(5, vec![
        op!(b, "MetricFExp::new_number", [x tx in nums], v = MetricFExp::new_number(x), tx.clone()),
        op!(b, "MetricFExp::new_function", [x tx in funs, y ty in nsq], v = MetricFExp::new_function(x, y), n("mfun", vec![tx.clone(), retag("args", &ty)])),
        op!(b, "MetricFExp::new_is_violated", [x tx in prefs], v = MetricFExp::new_is_violated(x), n("is-violated", vec![tx.clone()])),
        vec![(MetricFExp::new_total_time(), n("total-time", vec![]))],
    ]);
    b.same("MetricFExp::new_total_time", "", "variants", MetricFExp::new_total_time().lift(), n("total-time", vec![]));
    let mut mfs = m0.clone();
    for _ in 0..2 {
        let sq = seqs(&mfs, deep, 1);
        mfs = mix(if deep { 8 } else { 5 }, vec![
            m0.clone(),
            op!(b, "MetricFExp::new_binary_op", [o to in bops, x tx in mfs, y ty in mfs], v = MetricFExp::new_binary_op(o, x, y), n("bin", vec![to.clone(), tx.clone(), ty.clone()])),
            op!(b, "MetricFExp::new_multi_op", [o to in mops, x tx in mfs, y ty in sq], v = MetricFExp::new_multi_op(o, x, y), n("multi", vec![to.clone(), tx.clone(), retag("rest", &ty)])),
            op!(b, "MetricFExp::new_negative", [x tx in mfs], v = MetricFExp::new_negative(x), n("negate", vec![tx.clone()])),
        ]);
    }
    let metrics = mix(4, vec![op!(b, "MetricSpec::new", [o to in vec![(Optimization::Minimize, a("minimize")), (Optimization::Maximize, a("maximize"))], x tx in mfs], v = MetricSpec::new(o, x), n("metric", vec![to.clone(), tx.clone()]), "optimization": (&v.optimization()).t() => to.clone(), "expression": v.expression() => tx.clone())]);
    let u: P<u64> = [0u64, 1, 7, 1 << 31, 1 << 32, (1 << 53) + 1, u64::MAX - 1, u64::MAX].iter().map(|x| (*x, T::U(*x))).collect();
    let lspec = |s: Option<T>, p: Option<T>| n("length", vec![opt("serial", s), opt("parallel", p)]);
    let one = |t: &T| kids(t).into_iter().next();
    let lengths = mix(6, vec![
        op!(b, "LengthSpec::new_serial", [x tx in u], v = LengthSpec::new_serial(x), lspec(Some(tx.clone()), None)),
        op!(b, "LengthSpec::new_parallel", [x tx in u], v = LengthSpec::new_parallel(x), lspec(None, Some(tx.clone()))),
        op!(b, "LengthSpec::new", [x tx in opts(&u), y ty in opts(&u)], v = LengthSpec::new(x, y), lspec(one(&tx), one(&ty))),
    ]);
    b.same("LengthSpec::default", "", "accessors", LengthSpec::default().lift(), lspec(None, None));
    // goals
    let cap_g = if deep { 9 } else { 6 };
    let g0: P<GoalDefinition> = mix(4, vec![
        op!(b, "GoalDefinition::new_atomic_formula", [x tx in ats], v = GoalDefinition::new_atomic_formula(x), tx.clone(), "is_empty": v.is_empty() => false),
        op!(b, "GoalDefinition::new_literal", [x tx in tlits], v = GoalDefinition::new_literal(x), n("gd-literal", vec![tx.clone()]), "is_empty": v.is_empty() => false),
        op!(b, "GoalDefinition::new_f_comp", [x tx in fcomps], v = GoalDefinition::new_f_comp(x), tx.clone(), "is_empty": v.is_empty() => false),
    ]);
    let mut gds = g0.clone();
    for _ in 0..3 {
        let sq = seqs(&gds, deep, 0);
        gds = mix(cap_g, vec![
            g0.iter().take(2).cloned().collect(),
            op!(b, "GoalDefinition::new_and", [x tx in sq], v = GoalDefinition::new_and(x), retag("and", &tx), "is_empty": v.is_empty() => empty(&retag("and", &tx))),
            op!(b, "GoalDefinition::new_or", [x tx in sq], v = GoalDefinition::new_or(x), retag("or", &tx), "is_empty": v.is_empty() => empty(&retag("or", &tx))),
            op!(b, "GoalDefinition::new_not", [x tx in gds], v = GoalDefinition::new_not(x), n("not", vec![tx.clone()]), "is_empty": v.is_empty() => empty(&tx)),
            op!(b, "GoalDefinition::new_imply", [x tx in gds, y ty in gds], v = GoalDefinition::new_imply(x, y), n("imply", vec![tx.clone(), ty.clone()]), "is_empty": v.is_empty() => (empty(&tx) && empty(&ty))),
            op!(b, "GoalDefinition::new_imply_tuple", [x tx in gds, y ty in gds], v = GoalDefinition::new_imply_tuple((x, y)), n("imply", vec![tx.clone(), ty.clone()])),
            op!(b, "GoalDefinition::new_exists", [x tx in tvs, y ty in gds], v = GoalDefinition::new_exists(x, y), n("exists", vec![tx.clone(), ty.clone()]), "is_empty": v.is_empty() => empty(&ty)),
            op!(b, "GoalDefinition::new_exists_tuple", [x tx in tvs, y ty in gds], v = GoalDefinition::new_exists_tuple((x, y)), n("exists", vec![tx.clone(), ty.clone()])),
            op!(b, "GoalDefinition::new_forall", [x tx in tvs, y ty in gds], v = GoalDefinition::new_forall(x, y), n("forall", vec![tx.clone(), ty.clone()]), "is_empty": v.is_empty() => empty(&ty)),
            op!(b, "GoalDefinition::new_forall_tuple", [x tx in tvs, y ty in gds], v = GoalDefinition::new_forall_tuple((x, y)), n("forall", vec![tx.clone(), ty.clone()])),
        ]);
    }
    let gds2 = mix(4, vec![gds.clone(), g0.clone()]);
    let oprefs = opts(&prefs);
    let prf = mix(5, vec![
        op!(b, "Preference::new", [x tx in oprefs, y ty in gds], v = Preference::new(x, y), n("preference", vec![tx.clone(), ty.clone()]), "name": v.name() => tx.clone(), "goal": v.goal() => ty.clone(), "is_empty": v.is_empty() => empty(&ty)),
        op!(b, "Preference::from((Option, gd))", [x tx in oprefs, y ty in gds], v = Preference::from((x, y)), n("preference", vec![tx.clone(), ty.clone()])),
        op!(b, "Preference::from((name, gd))", [x tx in prefs, y ty in gds], v = Preference::from((x, y)), n("preference", vec![opt("opt", Some(tx.clone())), ty.clone()])),
        op!(b, "Preference::from(gd)", [y ty in gds], v = Preference::from(y), n("preference", vec![opt("opt", None), ty.clone()])),
    ]);
    let pgd = mix(5, vec![
        op!(b, "PreferenceGD::from_gd", [x tx in gds], v = PreferenceGD::from_gd(x), tx.clone()),
        op!(b, "PreferenceGD::from_preference", [x tx in prf], v = PreferenceGD::from_preference(x), tx.clone()),
        op!(b, "PreferenceGD::from(gd)", [x tx in gds], v = PreferenceGD::from(x), tx.clone()),
        op!(b, "PreferenceGD::from(preference)", [x tx in prf], v = PreferenceGD::from(x), tx.clone()),
    ]);
    let p0 = mix(5, vec![
        op!(b, "PreconditionGoalDefinition::new_preference", [x tx in pgd], v = PreconditionGoalDefinition::new_preference(x), tx.clone()),
        op!(b, "PreconditionGoalDefinition::from(PreferenceGD)", [x tx in pgd], v = PreconditionGoalDefinition::from(x), tx.clone()),
        op!(b, "PreconditionGoalDefinition::from(Preference)", [x tx in prf], v = PreconditionGoalDefinition::from(x), tx.clone()),
    ]);
    let _ = op!(b, "PreconditionGoalDefinitions::new_preference", [x tx in pgd], v = PreconditionGoalDefinitions::new_preference(x), n("pre", vec![tx.clone()]), "len": v.len() => 1usize);
    let mut pre1 = p0.clone();
    let mut pres: P<PreconditionGoalDefinitions> = vec![];
    for _ in 0..2 {
        let sq = seqs(&pre1, deep, 0);
        let mk = container!(b, PreconditionGoalDefinitions, PreconditionGoalDefinition, "PreconditionGoalDefinitions", "pre", sq,
            make ["new" => |v| PreconditionGoalDefinitions::new(v), "from_iter" => |v| v.into_iter().collect::<PreconditionGoalDefinitions>(), "new_and" => |v| PreconditionGoalDefinition::new_and(v)],
            slices ["deref" => |v| v.deref(), "as_ref" => |v| AsRef::<[PreconditionGoalDefinition]>::as_ref(v)],
            owned ["into_iter" => |v| v.clone().into_iter(), "into Vec" => |v| Vec::<PreconditionGoalDefinition>::from(v.clone()).into_iter()],
            also ["iter" => |v, k| ts(v.iter()) => seq(k), "len" => |v, k| v.len() => k.len(), "is_empty" => |v, k| v.is_empty() => k.is_empty(),
                "try_get_single" => |v, k| opt("opt", v.clone().try_get_single().map(|x| x.lift())) => opt("opt", if k.len() == 1 { k.into_iter().next() } else { None }),
                "try_into" => |v, k| opt("opt", TryInto::<PreconditionGoalDefinition>::try_into(v.clone()).ok().map(|x| x.lift())) => opt("opt", if k.len() == 1 { k.into_iter().next() } else { None })]);
        pres = mix(cap_g, vec![
            mk,
            op!(b, "PreconditionGoalDefinitions::from(one)", [x tx in pre1], v = PreconditionGoalDefinitions::from(x), n("pre", vec![tx.clone()])),
            op!(b, "PreconditionGoalDefinitions::from(Option one)", [x tx in opts(&pre1)], v = PreconditionGoalDefinitions::from(x), retag("pre", &tx)),
        ]);
        let opres = opts(&pres);
        let _ = op!(b, "PreconditionGoalDefinitions::from(Option list)", [x tx in opres], v = PreconditionGoalDefinitions::from(x), kids(&tx).into_iter().next().unwrap_or(n("pre", vec![])));
        let _ = op!(b, "PreconditionGoalDefinitions::new_forall", [x tx in tvs, y ty in pres], v = PreconditionGoalDefinitions::new_forall(x, y), n("pre", vec![n("pre-forall", vec![tx.clone(), ty.clone()])]));
        pre1 = mix(5, vec![p0.clone(), op!(b, "PreconditionGoalDefinition::new_forall", [x tx in tvs, y ty in pres], v = PreconditionGoalDefinition::new_forall(x, y), n("pre-forall", vec![tx.clone(), ty.clone()]))]);
    }
    b.same("PreconditionGoalDefinitions::default", "", "accessors", PreconditionGoalDefinitions::default().lift(), n("pre", vec![]));
    let pres = mix(5, vec![pres]);
    let pseq = seqs(&pre1, deep, 0);
    let goals: P<GoalDef> = mix(4, vec![
        container!(b, GoalDef, PreconditionGoalDefinition, "GoalDef", "pre", pseq, make ["from_iter" => |v| v.into_iter().collect::<GoalDef>()], slices ["value" => |v| v.value(), "deref" => |v| v.deref(), "deref deref" => |v| v.deref().deref()],
            owned ["into definitions" => |v| PreconditionGoalDefinitions::from(v.clone()).into_iter()], also ["== definitions" => |v, k| (*v == v.value().clone()) => true, "!= shorter" => |v, k| (k.is_empty() || *v != PreconditionGoalDefinitions::new(v.value()[1..].to_vec())) => true]),
        op!(b, "GoalDef::new", [x tx in pres], v = GoalDef::new(x), tx.clone(), "value": v.value() => tx.clone()),
        op!(b, "GoalDef::from(definitions)", [x tx in pres], v = GoalDef::from(x), tx.clone()),
        op!(b, "GoalDef::from(definition)", [x tx in pre1], v = GoalDef::from(x), n("pre", vec![tx.clone()])),
    ]);
    // effects
    let peffs = mix(5, vec![
        op!(b, "PEffect::new", [x tx in ats], v = PEffect::new(x), n("add", vec![tx.clone()])),
        op!(b, "PEffect::new_not", [x tx in ats], v = PEffect::new_not(x), n("del", vec![tx.clone()])),
        op!(b, "PEffect::new_numeric_fluent", [o to in aops, x tx in heads, y ty in fexps], v = PEffect::new_numeric_fluent(o, x, y), n("numeric", vec![to.clone(), tx.clone(), ty.clone()])),
        op!(b, "PEffect::new_object_fluent", [x tx in fterms, y ty in opts(&terms)], v = PEffect::new_object_fluent(x, y), n("object", vec![tx.clone(), ty.clone()])),
    ]);
    let peseq = seqs(&peffs, deep, 0);
    let ce1 = mix(3, vec![
        op!(b, "ConditionalEffect::new", [x tx in peffs], v = ConditionalEffect::new(x), n("single", vec![tx.clone()])),
        op!(b, "ConditionalEffect::from(PEffect)", [x tx in peffs], v = ConditionalEffect::from(x), n("single", vec![tx.clone()])),
    ]);
    for (i, (v, t)) in ce1.iter().enumerate() {
        let w = seq(kids(t));
        let (g, w) = iteration(&|| v.clone().into_iter(), &w);
        b.same("ConditionalEffect::into_iter of one", &format!("{}", i), "into_iter", g, w);
    }
    let ce2 = container!(b, ConditionalEffect, PEffect, "ConditionalEffect", "all", peseq,
        make ["new_and" => |v| ConditionalEffect::new_and(v), "from(Vec)" => |v| ConditionalEffect::from(v), "from_iter" => |v| v.into_iter().collect::<ConditionalEffect>()],
        slices [], owned ["into_iter" => |v| v.clone().into_iter()]);
    let conds = mix(5, vec![ce1, ce2]);
    let c0 = mix(4, vec![
        op!(b, "CEffect::new_p_effect", [x tx in peffs], v = CEffect::new_p_effect(x), tx.clone(), "try_into PEffect": opt("opt", TryInto::<PEffect>::try_into(v.clone()).ok().map(|x| x.lift())) => opt("opt", Some(tx.clone())), "try_into When": TryInto::<WhenCEffect>::try_into(v.clone()).is_err() => true, "try_into Forall": TryInto::<ForallCEffect>::try_into(v.clone()).is_err() => true),
        op!(b, "CEffect::from(PEffect)", [x tx in peffs], v = CEffect::from(x), tx.clone()),
        op!(b, "CEffect::new_when", [x tx in gds, y ty in conds], v = CEffect::new_when(x, y), n("when", vec![tx.clone(), ty.clone()]), "try_into When": opt("opt", TryInto::<WhenCEffect>::try_into(v.clone()).ok().map(|x| x.lift())) => opt("opt", Some(n("when", vec![tx.clone(), ty.clone()]))), "try_into PEffect": TryInto::<PEffect>::try_into(v.clone()).is_err() => true, "try_into Forall": TryInto::<ForallCEffect>::try_into(v.clone()).is_err() => true),
        op!(b, "CEffect::from(WhenCEffect::new)", [x tx in gds, y ty in conds], v = CEffect::from(WhenCEffect::new(x, y)), n("when", vec![tx.clone(), ty.clone()])),
        op!(b, "CEffect::from(WhenCEffect::from)", [x tx in gds, y ty in conds], v = CEffect::from(WhenCEffect::from((x, y))), n("when", vec![tx.clone(), ty.clone()])),
    ]);
    let mut effs: P<Effects> = vec![];
    let mut ces = c0.clone();
    for _ in 0..2 {
        let sq = seqs(&ces, deep, 0);
        effs = mix(cap_g, vec![
            container!(b, Effects, CEffect, "Effects", "effects", sq,
                make ["new_and" => |v| Effects::new_and(v), "from(Vec)" => |v| Effects::from(v), "from_iter" => |v| v.into_iter().collect::<Effects>()],
                slices ["deref" => |v| v.deref(), "as_ref" => |v| AsRef::<[CEffect]>::as_ref(v)], owned ["into_iter" => |v| v.clone().into_iter()],
                also ["iter" => |v, k| ts(v.iter()) => seq(k), "len" => |v, k| v.len() => k.len(), "is_empty" => |v, k| v.is_empty() => k.is_empty(),
                    "try_get_single" => |v, k| opt("opt", v.clone().try_get_single().map(|x| x.lift())) => opt("opt", if k.len() == 1 { k.into_iter().next() } else { None }),
                    "try_into" => |v, k| opt("opt", TryInto::<CEffect>::try_into(v.clone()).ok().map(|x| x.lift())) => opt("opt", if k.len() == 1 { k.into_iter().next() } else { None })]),
            op!(b, "Effects::new", [x tx in ces], v = Effects::new(x), n("effects", vec![tx.clone()])),
            op!(b, "Effects::from(CEffect)", [x tx in ces], v = Effects::from(x), n("effects", vec![tx.clone()])),
        ]);
        ces = mix(5, vec![
            c0.clone(),
            op!(b, "CEffect::new_forall", [x tx in tvs, y ty in effs], v = CEffect::new_forall(x, y), n("forall", vec![tx.clone(), ty.clone()]), "try_into Forall": opt("opt", TryInto::<ForallCEffect>::try_into(v.clone()).ok().map(|x| x.lift())) => opt("opt", Some(n("forall", vec![tx.clone(), ty.clone()]))), "try_into PEffect": TryInto::<PEffect>::try_into(v.clone()).is_err() => true, "try_into When": TryInto::<WhenCEffect>::try_into(v.clone()).is_err() => true),
            op!(b, "CEffect::from(ForallCEffect::new)", [x tx in tvs, y ty in effs], v = CEffect::from(ForallCEffect::new(x, y)), n("forall", vec![tx.clone(), ty.clone()])),
            op!(b, "CEffect::from(ForallCEffect::from)", [x tx in tvs, y ty in effs], v = CEffect::from(ForallCEffect::from((x, y))), n("forall", vec![tx.clone(), ty.clone()])),
        ]);
    }
    b.same("Effects::default", "", "accessors", Effects::default().lift(), n("effects", vec![]));
    let effs = mix(4, vec![effs]);
    // durative parts
    let tgds = mix(4, vec![
        op!(b, "TimedGD::new_at", [x tx in times, y ty in gds], v = TimedGD::new_at(x, y), n("at", vec![tx.clone(), ty.clone()])),
        op!(b, "TimedGD::new_over", [x tx in ivals, y ty in gds], v = TimedGD::new_over(x, y), n("over", vec![tx.clone(), ty.clone()])),
        op!(b, "TimedGD::from((time, gd))", [x tx in times, y ty in gds], v = TimedGD::from((x, y)), n("at", vec![tx.clone(), ty.clone()])),
        op!(b, "TimedGD::from((interval, gd))", [x tx in ivals, y ty in gds], v = TimedGD::from((x, y)), n("over", vec![tx.clone(), ty.clone()])),
    ]);
    let ptgds = mix(4, vec![
        op!(b, "PrefTimedGD::new_required", [y ty in tgds], v = PrefTimedGD::new_required(y), ty.clone()),
        op!(b, "PrefTimedGD::new_preference", [x tx in oprefs, y ty in tgds], v = PrefTimedGD::new_preference(x, y), n("preference", vec![tx.clone(), ty.clone()])),
        op!(b, "PrefTimedGD::from(TimedGD)", [y ty in tgds], v = PrefTimedGD::from(y), ty.clone()),
        op!(b, "PrefTimedGD::from((name, gd))", [x tx in oprefs, y ty in tgds], v = PrefTimedGD::from((x, y)), n("preference", vec![tx.clone(), ty.clone()])),
    ]);
    let dg0 = mix(4, vec![
        op!(b, "DurativeActionGoalDefinition::new_timed", [x tx in ptgds], v = DurativeActionGoalDefinition::new_timed(x), tx.clone()),
        op!(b, "DurativeActionGoalDefinition::from", [x tx in ptgds], v = DurativeActionGoalDefinition::from(x), tx.clone()),
    ]);
    let mut dgs = dg0.clone();
    for _ in 0..2 {
        let sq = seqs(&dgs, deep, 0);
        dgs = mix(5, vec![
            op!(b, "DurativeActionGoalDefinition::new_and", [x tx in sq], v = DurativeActionGoalDefinition::new_and(x), retag("and", &tx)),
            dg0.clone(),
            op!(b, "DurativeActionGoalDefinition::new_forall", [x tx in tvs, y ty in dgs], v = DurativeActionGoalDefinition::new_forall(x, y), n("forall", vec![tx.clone(), ty.clone()])),
        ]);
    }
    let teffs = mix(5, vec![
        op!(b, "TimedEffect::new_conditional", [x tx in times, y ty in conds], v = TimedEffect::new_conditional(x, y), n("t-cond", vec![tx.clone(), ty.clone()])),
        op!(b, "TimedEffect::new_fluent", [x tx in times, y ty in fassigns], v = TimedEffect::new_fluent(x, y), n("t-fluent", vec![tx.clone(), ty.clone()])),
        op!(b, "TimedEffect::new_continuous", [x tx in aopts, y ty in heads, z tz in fts], v = TimedEffect::new_continuous(x, y, z), n("t-cont", vec![tx.clone(), ty.clone(), tz.clone()])),
        op!(b, "TimedEffect::from(conditional)", [x tx in times, y ty in conds], v = TimedEffect::from((x, y)), n("t-cond", vec![tx.clone(), ty.clone()])),
        op!(b, "TimedEffect::from(fluent)", [x tx in times, y ty in fassigns], v = TimedEffect::from((x, y)), n("t-fluent", vec![tx.clone(), ty.clone()])),
        op!(b, "TimedEffect::from(continuous)", [x tx in aopts, y ty in heads, z tz in fts], v = TimedEffect::from((x, y, z)), n("t-cont", vec![tx.clone(), ty.clone(), tz.clone()])),
    ]);
    let de0 = mix(4, vec![
        op!(b, "DurativeActionEffect::new_timed", [x tx in teffs], v = DurativeActionEffect::new_timed(x), tx.clone()),
        op!(b, "DurativeActionEffect::from(timed)", [x tx in teffs], v = DurativeActionEffect::from(x), tx.clone()),
        op!(b, "DurativeActionEffect::new_when", [x tx in dgs, y ty in teffs], v = DurativeActionEffect::new_when(x, y), n("when", vec![tx.clone(), ty.clone()])),
        op!(b, "DurativeActionEffect::from(when)", [x tx in dgs, y ty in teffs], v = DurativeActionEffect::from((x, y)), n("when", vec![tx.clone(), ty.clone()])),
    ]);
    let mut des = de0.clone();
    for _ in 0..2 {
        let sq = seqs(&des, deep, 0);
        des = mix(5, vec![
            op!(b, "DurativeActionEffect::new_and", [x tx in sq], v = DurativeActionEffect::new_and(x), retag("and", &tx)),
            op!(b, "DurativeActionEffect::from_iter", [x tx in sq], v = x.into_iter().collect::<DurativeActionEffect>(), retag("and", &tx)),
            de0.clone(),
            op!(b, "DurativeActionEffect::new_forall", [x tx in tvs, y ty in des], v = DurativeActionEffect::new_forall(x, y), n("forall", vec![tx.clone(), ty.clone()])),
            op!(b, "DurativeActionEffect::from(forall)", [x tx in tvs, y ty in des], v = DurativeActionEffect::from((x, y)), n("forall", vec![tx.clone(), ty.clone()])),
        ]);
    }
    let dvals = mix(5, vec![
        op!(b, "DurationValue::new_number", [x tx in nums], v = DurationValue::new_number(x), n("dnum", vec![tx.clone()])),
        op!(b, "DurationValue::new_f_exp", [x tx in fexps], v = DurationValue::new_f_exp(x), n("dexp", vec![tx.clone()])),
        op!(b, "DurationValue::from(Number)", [x tx in nums], v = DurationValue::from(x), n("dnum", vec![tx.clone()])),
        op!(b, "DurationValue::from(FExp)", [x tx in fexps], v = DurationValue::from(x), n("dexp", vec![tx.clone()])),
    ]);
    let s0 = mix(4, vec![
        op!(b, "SimpleDurationConstraint::new_op", [o to in dops, x tx in dvals], v = SimpleDurationConstraint::new_op(o, x), n("d", vec![to.clone(), tx.clone()])),
        op!(b, "SimpleDurationConstraint::from((op, value))", [o to in dops, x tx in dvals], v = SimpleDurationConstraint::from((o, x)), n("d", vec![to.clone(), tx.clone()])),
    ]);
    let mut sdcs = s0.clone();
    for _ in 0..2 {
        sdcs = mix(5, vec![
            s0.clone(),
            op!(b, "SimpleDurationConstraint::new_at", [o to in times, x tx in sdcs], v = SimpleDurationConstraint::new_at(o, x), n("at", vec![to.clone(), tx.clone()])),
            op!(b, "SimpleDurationConstraint::from((time, constraint))", [o to in times, x tx in sdcs], v = SimpleDurationConstraint::from((o, x)), n("at", vec![to.clone(), tx.clone()])),
        ]);
    }
    let du1 = mix(3, vec![
        op!(b, "DurationConstraint::new", [x tx in sdcs], v = DurationConstraint::new(x), n("single", vec![tx.clone()]), "len": v.len() => 1usize, "is_empty": v.is_empty() => false),
        op!(b, "DurationConstraint::from", [x tx in sdcs], v = DurationConstraint::from(x), n("single", vec![tx.clone()])),
    ]);
    for (i, (v, t)) in du1.iter().enumerate() {
        let w = seq(kids(t));
        let (g, w) = iteration(&|| v.clone().into_iter(), &w);
        b.same("DurationConstraint::into_iter of one", &format!("{}", i), "into_iter", g, w);
    }
    let sdseq = seqs(&sdcs, deep, 1);
    let du2 = container!(b, DurationConstraint, SimpleDurationConstraint, "DurationConstraint", "all", sdseq,
        make ["new_all" => |v| DurationConstraint::new_all(v), "from_iter" => |v| v.into_iter().collect::<DurationConstraint>(), "All" => |v| DurationConstraint::All(v)],
        slices [], owned ["into_iter" => |v| v.clone().into_iter()],
        also ["len" => |v, k| v.len() => k.len(), "is_empty" => |v, k| v.is_empty() => k.is_empty()]);
    b.same("DurationConstraint::All of nothing", "", "is_empty", DurationConstraint::All(vec![]).is_empty().t(), true.t());
    let durs = mix(4, vec![du1, du2]);
    // trajectory constraints
    let mut con2: P<Con2GD> = mix(3, vec![
        op!(b, "Con2GD::new_goal", [x tx in gds], v = Con2GD::new_goal(x), n("goal", vec![tx.clone()]), "is_empty": v.is_empty() => empty(&tx)),
        op!(b, "Con2GD::from(gd)", [x tx in gds], v = Con2GD::from(x), n("goal", vec![tx.clone()])),
    ]);
    let c2_0 = con2.clone();
    let k0 = op!(b, "ConGD::new_at_end", [x tx in gds], v = ConGD::new_at_end(x), n("at-end", vec![tx.clone()]), "is_empty": v.is_empty() => empty(&tx));
    let mut cons: P<ConGD> = mix(3, vec![k0.clone(), vec![(ConGD::default(), n("and", vec![]))]]);
    b.same("ConGD::default", "", "variants", ConGD::default().lift(), n("and", vec![]));
    b.same("ConGD::default", "", "is_empty", ConGD::default().is_empty().t(), true.t());
    for _ in 0..2 {
        let sq = seqs(&cons, deep, 0);
        cons = mix(if deep { 14 } else { 10 }, vec![
            k0.iter().take(1).cloned().collect(),
            op!(b, "ConGD::new_and", [x tx in sq], v = ConGD::new_and(x), retag("and", &tx), "is_empty": v.is_empty() => empty(&retag("and", &tx))),
            op!(b, "ConGD::new_forall", [x tx in tvs, y ty in cons], v = ConGD::new_forall(x, y), n("forall", vec![tx.clone(), ty.clone()]), "is_empty": v.is_empty() => empty(&ty)),
            op!(b, "ConGD::new_always", [x tx in con2], v = ConGD::new_always(x), n("always", vec![tx.clone()]), "is_empty": v.is_empty() => empty(&tx)),
            op!(b, "ConGD::new_sometime", [x tx in con2], v = ConGD::new_sometime(x), n("sometime", vec![tx.clone()]), "is_empty": v.is_empty() => empty(&tx)),
            op!(b, "ConGD::new_within", [i ti in nums, x tx in con2], v = ConGD::new_within(i, x), n("within", vec![ti.clone(), tx.clone()]), "is_empty": v.is_empty() => empty(&tx)),
            op!(b, "ConGD::new_at_most_once", [x tx in con2], v = ConGD::new_at_most_once(x), n("at-most-once", vec![tx.clone()]), "is_empty": v.is_empty() => empty(&tx)),
            op!(b, "ConGD::new_sometime_after", [x tx in con2, y ty in con2], v = ConGD::new_sometime_after(x, y), n("sometime-after", vec![tx.clone(), ty.clone()]), "is_empty": v.is_empty() => (empty(&tx) && empty(&ty))),
            op!(b, "ConGD::new_sometime_before", [x tx in con2, y ty in con2], v = ConGD::new_sometime_before(x, y), n("sometime-before", vec![tx.clone(), ty.clone()]), "is_empty": v.is_empty() => (empty(&tx) && empty(&ty))),
            op!(b, "ConGD::new_always_within", [i ti in nums, x tx in con2, y ty in con2], v = ConGD::new_always_within(i, x, y), n("always-within", vec![ti.clone(), tx.clone(), ty.clone()]), "is_empty": v.is_empty() => (empty(&tx) && empty(&ty))),
            op!(b, "ConGD::new_hold_during", [i ti in nums, j tj in nums, x tx in con2], v = ConGD::new_hold_during(i, j, x), n("hold-during", vec![ti.clone(), tj.clone(), tx.clone()]), "is_empty": v.is_empty() => empty(&tx)),
            op!(b, "ConGD::new_hold_after", [i ti in nums, x tx in con2], v = ConGD::new_hold_after(i, x), n("hold-after", vec![ti.clone(), tx.clone()]), "is_empty": v.is_empty() => empty(&tx)),
        ]);
        con2 = mix(5, vec![
            c2_0.clone(),
            op!(b, "Con2GD::new_nested", [x tx in cons], v = Con2GD::new_nested(x), n("nested", vec![tx.clone()]), "is_empty": v.is_empty() => empty(&tx)),
            op!(b, "Con2GD::from(con)", [x tx in cons], v = Con2GD::from(x), n("nested", vec![tx.clone()])),
        ]);
    }
    let cons = mix(if deep { 13 } else { 5 }, vec![cons]);
    let dcons = mix(4, vec![
        op!(b, "DomainConstraintsDef::new", [x tx in cons], v = DomainConstraintsDef::new(x.clone()), tx.clone(), "value": v.value() => tx.clone(), "deref": { let c: &ConGD = v.deref(); c.lift() } => tx.clone(), "into ConGD": (&ConGD::from(v.clone())).t() => tx.clone(), "== ConGD": (v == x) => true),
        op!(b, "DomainConstraintsDef::from", [x tx in cons], v = DomainConstraintsDef::from(x), tx.clone()),
    ]);
    b.same("DomainConstraintsDef::default", "", "value", DomainConstraintsDef::default().lift(), n("and", vec![]));
    let q0 = mix(4, vec![
        op!(b, "PrefConGD::new_goal", [x tx in cons], v = PrefConGD::new_goal(x), n("goal", vec![tx.clone()]), "is_empty": v.is_empty() => empty(&tx)),
        op!(b, "PrefConGD::new_preference", [x tx in oprefs, y ty in cons], v = PrefConGD::new_preference(x, y), n("preference", vec![tx.clone(), ty.clone()]), "is_empty": v.is_empty() => empty(&ty)),
    ]);
    let _ = op!(b, "PrefConGDs::new_goal", [x tx in cons], v = PrefConGDs::new_goal(x), n("prefcon", vec![n("goal", vec![tx.clone()])]));
    let _ = op!(b, "PrefConGDs::from(ConGD)", [x tx in cons], v = PrefConGDs::from(x), n("prefcon", vec![n("goal", vec![tx.clone()])]));
    let _ = op!(b, "PrefConGDs::new_preference", [x tx in oprefs, y ty in cons], v = PrefConGDs::new_preference(x, y), n("prefcon", vec![n("preference", vec![tx.clone(), ty.clone()])]));
    let mut qs = q0.clone();
    let mut pcs: P<PrefConGDs> = vec![];
    for _ in 0..2 {
        let sq = seqs(&qs, deep, 0);
        pcs = mix(cap_g, vec![
            container!(b, PrefConGDs, PrefConGD, "PrefConGDs", "prefcon", sq,
                make ["new" => |v| PrefConGDs::new(v), "from(Vec)" => |v| PrefConGDs::from(v), "from_iter" => |v| v.into_iter().collect::<PrefConGDs>()],
                slices ["deref" => |v| v.deref(), "as_ref" => |v| AsRef::<[PrefConGD]>::as_ref(v)],
                owned ["into_iter" => |v| v.clone().into_iter(), "into Vec" => |v| Vec::<PrefConGD>::from(v.clone()).into_iter()],
                also ["iter" => |v, k| ts(v.iter()) => seq(k), "len" => |v, k| v.len() => k.len(), "is_empty" => |v, k| v.is_empty() => k.is_empty(),
                    "try_get_single" => |v, k| opt("opt", v.clone().try_get_single().map(|x| x.lift())) => opt("opt", if k.len() == 1 { k.into_iter().next() } else { None }),
                    "try_into" => |v, k| opt("opt", TryInto::<PrefConGD>::try_into(v.clone()).ok().map(|x| x.lift())) => opt("opt", if k.len() == 1 { k.into_iter().next() } else { None })]),
            op!(b, "PrefConGDs::from(one)", [x tx in qs], v = PrefConGDs::from(x), n("prefcon", vec![tx.clone()])),
            op!(b, "PrefConGDs::from(Option one)", [x tx in opts(&qs)], v = PrefConGDs::from(x), retag("prefcon", &tx)),
        ]);
        let opcs = opts(&pcs);
        let _ = op!(b, "PrefConGDs::from(Option list)", [x tx in opcs], v = PrefConGDs::from(x), kids(&tx).into_iter().next().unwrap_or(n("prefcon", vec![])));
        let _ = op!(b, "PrefConGDs::new_forall", [x tx in tvs, y ty in pcs], v = PrefConGDs::new_forall(x, y), n("prefcon", vec![n("forall", vec![tx.clone(), ty.clone()])]));
        qs = mix(5, vec![q0.clone(), op!(b, "PrefConGD::new_forall", [x tx in tvs, y ty in pcs], v = PrefConGD::new_forall(x, y), n("forall", vec![tx.clone(), ty.clone()]), "is_empty": v.is_empty() => kids(&ty).is_empty())]);
    }
    b.same("PrefConGDs::default", "", "accessors", PrefConGDs::default().lift(), n("prefcon", vec![]));
    let pcons = mix(4, vec![
        op!(b, "ProblemConstraintsDef::new", [x tx in pcs], v = ProblemConstraintsDef::new(x.clone()), tx.clone(), "value": v.value() => tx.clone(), "deref": { let c: &PrefConGDs = v.deref(); c.lift() } => tx.clone(), "into PrefConGDs": (&PrefConGDs::from(v.clone())).t() => tx.clone(), "== PrefConGDs": (v == x) => true),
        op!(b, "ProblemConstraintsDef::from", [x tx in pcs], v = ProblemConstraintsDef::from(x), tx.clone()),
    ]);
    b.same("ProblemConstraintsDef::default", "", "value", ProblemConstraintsDef::default().lift(), n("prefcon", vec![]));
    // initial state
    let inits0 = mix(6, vec![
        op!(b, "InitElement::new_literal", [x tx in nlits], v = InitElement::new_literal(x), tx.clone()),
        op!(b, "InitElement::new_at", [i ti in nums, x tx in nlits], v = InitElement::new_at(i, x), n("at", vec![ti.clone(), tx.clone()])),
        op!(b, "InitElement::new_is_value", [x tx in bfts, i ti in nums], v = InitElement::new_is_value(x, i), n("isvalue", vec![tx.clone(), ti.clone()])),
        op!(b, "InitElement::new_is_object", [x tx in bfts, i ti in nm], v = InitElement::new_is_object(x, i), n("isobject", vec![tx.clone(), ti.clone()])),
    ]);
    let iseq = seqs(&inits0, deep, 0);
    let inits = container!(b, InitElements, InitElement, "InitElements", "init", iseq,
        make ["new" => |v| InitElements::new(v), "from_iter" => |v| v.into_iter().collect::<InitElements>()],
        slices ["values" => |v| v.values(), "deref" => |v| v.deref()], owned []);
    let tlseq = seqs(&nlits, deep, 0);
    let timeless = container!(b, Timeless, Literal<Name>, "Timeless", "timeless", tlseq,
        make ["new" => |v| Timeless::new(v), "from_iter" => |v| v.into_iter().collect::<Timeless>()],
        slices ["values" => |v| v.values(), "deref" => |v| v.deref()], owned []);
    let rq: P<Requirement> = [Requirement::Strips, Requirement::Typing, Requirement::Adl, Requirement::ActionCosts].iter().map(|r| (*r, r.lift())).collect();
    let rseq = seqs(&rq, deep, 0);
    let reqs = container!(b, Requirements, Requirement, "Requirements", "reqs", rseq,
        make ["new" => |v| Requirements::new(v), "from(Vec)" => |v| Requirements::from(v), "from_iter" => |v| v.into_iter().collect::<Requirements>()],
        slices ["deref" => |v| v.deref()], owned []);
    b.same("Timeless::default", "", "accessors", Timeless::default().lift(), n("timeless", vec![]));
    // structure
    let oeffs = opts(&effs);
    let acts = mix(3, vec![op!(b, "ActionDefinition::new", [s ts_ in asyms, x tx in tvs, y ty in pres, z tz in oeffs], v = ActionDefinition::new(s, x, y, z), n("action", vec![ts_.clone(), tx.clone(), ty.clone(), tz.clone()]),
        "symbol": v.symbol() => ts_.clone(), "parameters": v.parameters() => tx.clone(), "precondition": v.precondition() => ty.clone(), "effect": v.effect() => tz.clone(), "as_ref": AsRef::<ActionSymbol>::as_ref(&v) => ts_.clone())]);
    let (odurs, odgs, odes) = (opts(&durs), opts(&mix(3, vec![dgs])), opts(&mix(3, vec![des])));
    let dacts = mix(3, vec![op!(b, "DurativeActionDefinition::new", [s ts_ in dsyms, x tx in tvs, d td in odurs, y ty in odgs, z tz in odes], v = DurativeActionDefinition::new(s, x, d, y, z), n("durative", vec![ts_.clone(), tx.clone(), td.clone(), ty.clone(), tz.clone()]),
        "symbol": v.symbol() => ts_.clone(), "parameters": v.parameters() => tx.clone(), "duration": v.duration() => td.clone(), "condition": v.condition() => ty.clone(), "effect": v.effect() => tz.clone(),
        "as_ref symbol": AsRef::<DurativeActionSymbol>::as_ref(&v) => ts_.clone(), "as_ref parameters": AsRef::<TypedVariables>::as_ref(&v) => tx.clone(), "as_ref duration": AsRef::<Option<DurationConstraint>>::as_ref(&v) => td.clone(),
        "as_ref condition": AsRef::<Option<DurativeActionGoalDefinition>>::as_ref(&v) => ty.clone(), "as_ref effect": AsRef::<Option<DurativeActionEffect>>::as_ref(&v) => tz.clone())]);
    let ders = mix(3, vec![
        op!(b, "DerivedPredicate::new", [x tx in skels, y ty in gds], v = DerivedPredicate::new(x, y), n("derived", vec![tx.clone(), ty.clone()]), "predicate": v.predicate() => tx.clone(), "expression": v.expression() => ty.clone(), "as_ref predicate": AsRef::<AtomicFormulaSkeleton>::as_ref(&v) => tx.clone(), "as_ref expression": AsRef::<GoalDefinition>::as_ref(&v) => ty.clone()),
        op!(b, "DerivedPredicate::from", [x tx in skels, y ty in gds2], v = DerivedPredicate::from((x, y)), n("derived", vec![tx.clone(), ty.clone()])),
    ]);
    let sds = mix(6, vec![
        op!(b, "StructureDef::new_action", [x tx in acts], v = StructureDef::new_action(x), tx.clone()),
        op!(b, "StructureDef::new_durative_action", [x tx in dacts], v = StructureDef::new_durative_action(x), tx.clone()),
        op!(b, "StructureDef::new_derived", [x tx in ders], v = StructureDef::new_derived(x), tx.clone()),
        op!(b, "StructureDef::from(action)", [x tx in acts], v = StructureDef::from(x), tx.clone()),
        op!(b, "StructureDef::from(durative)", [x tx in dacts], v = StructureDef::from(x), tx.clone()),
        op!(b, "StructureDef::from(derived)", [x tx in ders], v = StructureDef::from(x), tx.clone()),
    ]);
    let sseq = seqs(&sds, deep, 0);
    let structs = container!(b, StructureDefs, StructureDef, "StructureDefs", "structure", sseq,
        make ["new" => |v| StructureDefs::new(v), "from(Vec)" => |v| StructureDefs::from(v), "from_iter" => |v| v.into_iter().collect::<StructureDefs>()],
        slices ["values" => |v| v.values(), "deref" => |v| v.deref()], owned []);
    b.same("StructureDefs::default", "", "accessors", StructureDefs::default().lift(), n("structure", vec![]));
    // whole documents: every setter, every order
    let nsmall = seqs(&nm, false, 0);
    let d = DomSets {
        extends: vec![nsmall[1].clone(), nsmall[5].clone()],
        requirements: last2(&reqs),
        types: last2(&typedefs),
        constants: last2(&consts),
        predicates: last2(&predefs),
        functions: last2(&functions),
        constraints: last2(&dcons),
        timeless: last2(&timeless),
        names: nm.clone(),
        structures: last2(&structs),
    };
    domains(b, &d);
    let p = ProbSets { names: nm.clone(), requirements: last2(&reqs), objects: last2(&objects), inits: last2(&inits), goals: last2(&goals), constraints: last2(&pcons), metrics: last2(&metrics), lengths: last2(&lengths) };
    problems(b, &p);
    let _ = (tn, tlits);
}
/// Two different values, neither of them empty.
fn last2<X: Clone>(p: &P<X>) -> P<X> {
    let v: P<X> = p.iter().filter(|x| match &x.1 { T::N(_, k) => !k.is_empty(), _ => true }).cloned().collect();
    let mut o = vec![v[v.len() - 1].clone()];
    for x in v.iter().rev() {
        if x.1 != o[0].1 {
            o.push(x.clone());
            break;
        }
    }
    assert_eq!(o.len(), 2);
    o
}

/// Whether a goal or constraint contains no formula at all.
fn empty(t: &T) -> bool {
    match t {
        T::N(tag, k) => match *tag {
            "and" | "or" | "imply" => k.iter().all(empty),
            "not" | "goal" | "nested" | "at-end" | "always" | "sometime" | "at-most-once" => empty(&k[0]),
            "exists" | "forall" | "within" | "hold-after" => empty(&k[1]),
            "hold-during" => empty(&k[2]),
            "always-within" => empty(&k[1]) && empty(&k[2]),
            "sometime-after" | "sometime-before" => empty(&k[0]) && empty(&k[1]),
            _ => false,
        },
        _ => false,
    }
}

struct DomSets {
    extends: P<Vec<Name>>,
    requirements: P<Requirements>,
    types: P<Types>,
    constants: P<Constants>,
    predicates: P<PredicateDefinitions>,
    functions: P<Functions>,
    constraints: P<DomainConstraintsDef>,
    timeless: P<Timeless>,
    names: P<Name>,
    structures: P<StructureDefs>,
}
/// The model of a domain: its nine visible fields and the timeless facts.
#[derive(Clone, PartialEq)]
struct DomT {
    vis: Vec<T>,
    timeless: Option<usize>,
}
impl DomT {
    fn t(&self) -> T {
        n("domain", self.vis.clone())
    }
}
const DOM: [&str; 8] = ["with_extends", "with_requirements", "with_types", "with_constants", "with_predicates", "with_functions", "with_constraints", "with_timeless"];
fn dom_set(s: &DomSets, d: Domain, m: &mut DomT, op: usize) -> Domain {
    let (f, v) = (op / 2, op % 2);
    match f {
        0 => {
            m.vis[1] = retag("extends", &s.extends[v].1);
            d.with_extends(s.extends[v].0.clone())
        }
        1 => {
            m.vis[2] = s.requirements[v].1.clone();
            d.with_requirements(s.requirements[v].0.clone())
        }
        2 => {
            m.vis[3] = s.types[v].1.clone();
            if v == 0 {
                d.with_types(s.types[v].0.clone())
            } else {
                d.with_types(s.types[v].0.values().clone())
            }
        }
        3 => {
            m.vis[4] = s.constants[v].1.clone();
            if v == 0 {
                d.with_constants(s.constants[v].0.clone())
            } else {
                d.with_constants(TypedNames::new(s.constants[v].0.value().to_vec()))
            }
        }
        4 => {
            m.vis[5] = s.predicates[v].1.clone();
            if v == 0 {
                d.with_predicates(s.predicates[v].0.clone())
            } else {
                d.with_predicates(s.predicates[v].0.values().to_vec())
            }
        }
        5 => {
            m.vis[6] = s.functions[v].1.clone();
            if v == 0 {
                d.with_functions(s.functions[v].0.clone())
            } else {
                d.with_functions(s.functions[v].0.values().clone())
            }
        }
        6 => {
            m.vis[7] = s.constraints[v].1.clone();
            d.with_constraints(s.constraints[v].0.clone())
        }
        _ => {
            m.timeless = Some(v);
            d.with_timeless(s.timeless[v].0.clone())
        }
    }
}
fn dom_check(b: &mut B, s: &DomSets, start: &Domain, m0: &DomT, ops: &[usize], label: &str) {
    let args = ops.iter().map(|o| format!("{}#{}", DOM[o / 2], o % 2)).collect::<Vec<_>>().join(" ");
    b.count(label, &args);
    let mut m = m0.clone();
    let r = guard(|| {
        let mut d = start.clone();
        for o in ops {
            d = dom_set(s, d, &mut m, *o);
        }
        let t = d.lift();
        let refs = n(
            "refs",
            vec![
                AsRef::<Requirements>::as_ref(&d).lift(),
                AsRef::<Types>::as_ref(&d).lift(),
                AsRef::<PredicateDefinitions>::as_ref(&d).lift(),
                AsRef::<Functions>::as_ref(&d).lift(),
                AsRef::<StructureDefs>::as_ref(&d).lift(),
            ],
        );
        (d, t, refs)
    });
    match r {
        Err(e) => b.bad(label, &args, "construction", format!("panic: {}", e), String::new()),
        Ok((d, t, refs)) => {
            b.same(label, &args, "its accessors", t, m.t());
            b.same(label, &args, "as_ref", refs, n("refs", vec![m.vis[2].clone(), m.vis[3].clone(), m.vis[5].clone(), m.vis[6].clone(), m.vis[8].clone()]));
            // timeless facts have no accessor: setting the same facts again must not change the value, other facts must
            let k = m.timeless;
            let with = |i: Option<usize>| d.clone().with_timeless(i.map_or(Timeless::default(), |i| s.timeless[i].0.clone()));
            for i in [None, Some(0), Some(1)] {
                let eq = with(i) == d;
                if eq != (i == k) {
                    b.bad(label, &args, "equality after with_timeless", eq.to_string(), (i == k).to_string());
                }
            }
        }
    }
}
fn domains(b: &mut B, s: &DomSets) {
    let deep = b.deep;
    for (ni, nm) in s.names.iter().enumerate().take(2) {
        for (si, st) in s.structures.iter().enumerate() {
            let m0 = DomT {
                vis: vec![nm.1.clone(), n("extends", vec![]), n("reqs", vec![]), n("tl", vec![]), n("tl", vec![]), n("preds", vec![]), n("tl", vec![]), n("and", vec![]), st.1.clone()],
                timeless: None,
            };
            let start = match guard(|| Domain::builder(nm.0.clone(), st.0.clone())) {
                Ok(d) => d,
                Err(e) => {
                    b.bad("Domain::builder", "", "construction", format!("panic: {}", e), String::new());
                    continue;
                }
            };
            // a second starting point where every field is already set
            let mut m1 = m0.clone();
            let full = guard(|| {
                let mut d = start.clone();
                for f in 0..8 {
                    d = dom_set(s, d, &mut m1, f * 2 + 1);
                }
                d
            });
            let whole = ni == 0 && si == 0;
            let depth = if whole { if deep { 4 } else { 3 } } else { 2 };
            for (label, st, m) in [("Domain::builder then", Some(start.clone()), &m0), ("a complete Domain then", full.ok(), &m1)] {
                let Some(st) = st else { continue };
                let mut layer: Vec<Vec<usize>> = vec![vec![]];
                for k in 0..=depth {
                    for ops in &layer {
                        if b.ctx.fresh(hash(&("dom", label, ni, si, ops))) {
                            dom_check(b, s, &st, m, ops, label);
                        }
                    }
                    if k < depth {
                        layer = layer.iter().flat_map(|o| (0..16).map(move |x| o.iter().copied().chain([x]).collect())).collect();
                    }
                }
                if whole {
                    let mut perm: Vec<usize> = (0..8).collect();
                    permute(&mut perm, 0, &mut |p| {
                        let ops: Vec<usize> = p.iter().enumerate().map(|(i, f)| f * 2 + (i + p[0]) % 2).collect();
                        if b.ctx.fresh(hash(&("dom-order", label, &ops))) {
                            dom_check(b, s, &st, m, &ops, label);
                        }
                    });
                }
            }
        }
    }
}
fn permute(v: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
    if k == v.len() {
        return f(v);
    }
    for i in k..v.len() {
        v.swap(k, i);
        permute(v, k + 1, f);
        v.swap(k, i);
    }
}

struct ProbSets {
    names: P<Name>,
    requirements: P<Requirements>,
    objects: P<Objects>,
    inits: P<InitElements>,
    goals: P<GoalDef>,
    constraints: P<ProblemConstraintsDef>,
    metrics: P<MetricSpec>,
    lengths: P<LengthSpec>,
}
const PROB: [&str; 5] = ["with_requirements", "with_objects", "with_constraints", "with_metric_spec", "with_length_spec"];
fn prob_set(s: &ProbSets, p: Problem, m: &mut Vec<T>, op: usize) -> Problem {
    let (f, v) = (op / 2, op % 2);
    match f {
        0 => {
            m[2] = s.requirements[v].1.clone();
            if v == 0 {
                p.with_requirements(s.requirements[v].0.clone())
            } else {
                p.with_requirements(s.requirements[v].0.to_vec())
            }
        }
        1 => {
            m[3] = s.objects[v].1.clone();
            if v == 0 {
                p.with_objects(s.objects[v].0.clone())
            } else {
                p.with_objects(s.objects[v].0.values().clone())
            }
        }
        2 => {
            m[6] = s.constraints[v].1.clone();
            if v == 0 {
                p.with_constraints(s.constraints[v].0.clone())
            } else {
                p.with_constraints(s.constraints[v].0.value().clone())
            }
        }
        3 => {
            m[7] = opt("opt", Some(s.metrics[v].1.clone()));
            p.with_metric_spec(s.metrics[v].0.clone())
        }
        _ => {
            m[8] = opt("opt", Some(s.lengths[v].1.clone()));
            p.with_length_spec(s.lengths[v].0.clone())
        }
    }
}
fn prob_check(b: &mut B, s: &ProbSets, start: &Problem, m0: &[T], ops: &[usize], label: &str) {
    let args = ops.iter().map(|o| format!("{}#{}", PROB[o / 2], o % 2)).collect::<Vec<_>>().join(" ");
    b.count(label, &args);
    let mut m = m0.to_vec();
    match guard(|| {
        let mut p = start.clone();
        for o in ops {
            p = prob_set(s, p, &mut m, *o);
        }
        p.lift()
    }) {
        Err(e) => b.bad(label, &args, "construction", format!("panic: {}", e), String::new()),
        Ok(t) => b.same(label, &args, "its accessors", t, n("problem", m)),
    }
}
fn problems(b: &mut B, s: &ProbSets) {
    let deep = b.deep;
    let none = opt("opt", None);
    let om: P<Option<MetricSpec>> = opts(&s.metrics);
    let ol: P<Option<LengthSpec>> = opts(&s.lengths);
    let nm = s.names[..2].to_vec();
    let all = op!(b, "Problem::new", [x tx in nm, y ty in nm, r tr in s.requirements, o to in s.objects, i ti in s.inits, g tg in s.goals, c tc in s.constraints, m tm in om, l tl in ol],
        v = Problem::new(x, y, r, o, i, g, c, m, l),
        n("problem", vec![tx.clone(), ty.clone(), tr.clone(), to.clone(), ti.clone(), tg.clone(), tc.clone(), tm.clone(), tl.clone()]),
        "name": v.name() => tx.clone(), "domain": v.domain() => ty.clone(), "goals": v.goals() => tg.clone(), "init": v.init() => ti.clone());
    let txt: P<String> = ["p0", "d0"].iter().map(|x| (x.to_string(), a(x))).collect();
    let m0 = |x: &T, y: &T, i: &T, g: &T| vec![x.clone(), y.clone(), n("reqs", vec![]), n("tl", vec![]), i.clone(), g.clone(), n("prefcon", vec![]), none.clone(), none.clone()];
    let built = op!(b, "Problem::builder(Name, Name)", [x tx in nm, y ty in nm, i ti in s.inits, g tg in s.goals], v = Problem::builder(x, y, i, g), n("problem", m0(&tx, &ty, &ti, &tg)));
    let _ = op!(b, "Problem::builder(&str, String)", [x tx in txt, y ty in txt, i ti in s.inits, g tg in s.goals], v = Problem::builder(x.as_str(), y, i, g), n("problem", m0(&tx, &ty, &ti, &tg)));
    let (Some(s1), Some(s2)) = (built.first(), all.last()) else { return };
    let depth = if deep { 5 } else { 4 };
    for (label, st) in [("Problem::builder then", s1), ("a complete Problem then", s2)] {
        let m = kids(&st.1);
        let mut layer: Vec<Vec<usize>> = vec![vec![]];
        for k in 0..=depth {
            for ops in &layer {
                if b.ctx.fresh(hash(&("prob", label, ops))) {
                    prob_check(b, s, &st.0, &m, ops, label);
                }
            }
            if k < depth {
                layer = layer.iter().flat_map(|o| (0..10).map(move |x| o.iter().copied().chain([x]).collect())).collect();
            }
        }
        let mut perm: Vec<usize> = (0..5).collect();
        permute(&mut perm, 0, &mut |p| {
            for bits in 0..32usize {
                let ops: Vec<usize> = p.iter().map(|f| f * 2 + (bits >> f) % 2).collect();
                if b.ctx.fresh(hash(&("prob-order", label, &ops))) {
                    prob_check(b, s, &st.0, &m, &ops, label);
                }
            }
        });
    }
}

pub fn run(ctx: &mut Ctx) {
    let deep = ctx.thorough;
    let mut b = B { ctx, cap: if deep { 16 } else { 8 }, deep, keep: None };
    all(&mut b);
}
/// C23 on constructed values: all pairs of values of each type, of whatever origin.
pub fn equality(ctx: &mut Ctx) {
    let deep = ctx.thorough;
    let mut b = B { ctx, cap: if deep { 40 } else { 12 }, deep, keep: Some(HashMap::new()) };
    all(&mut b);
    let mut types: Vec<_> = b.keep.take().unwrap().into_values().collect();
    types.sort_by(|x, y| x.0.cmp(&y.0));
    for (name, vs) in types {
        // the :timeless part of a domain cannot be read back; parsed domains cover it
        if name.ends_with("::Domain") {
            continue;
        }
        let ts: Vec<T> = vs.iter().map(|v| v.lift_val()).collect();
        for i in 0..vs.len() {
            if !ctx.mine() {
                continue;
            }
            ctx.add("states_extra", 1);
            for j in i..vs.len() {
                ctx.add("traces", 1);
                ctx.add("constructed pairs", 1);
                if let Some(m) = unequal(&*vs[i], &*vs[j], &ts[i], &ts[j]) {
                    let c = Case::new("build-equal", &[("type", name.clone()), ("first", i.to_string()), ("second", j.to_string()), ("~tier", deep.to_string())]);
                    ctx.violation(c, format!("{}: {}", name, m));
                }
            }
        }
    }
}
fn unequal(x: &dyn Val, y: &dyn Val, tx: &T, ty: &T) -> Option<String> {
    let same = tx == ty;
    let r = guard(|| [x.same(y), y.same(x), x.copy().same(y), y.same(&*x.copy())]);
    if r == Ok([Some((same, !same)); 4]) {
        return None;
    }
    Some(format!("{} and {}: (==, !=) both ways and with copies {:?}", tx, ty, r))
}
pub fn one_equal(c: &Case) -> Option<String> {
    let mut ctx = Ctx::new("C23", c.get("~tier") == "true", 0, 1, None);
    std::env::set_var("MC_ALL", "1");
    equality(&mut ctx);
    let key = c.key();
    ctx.violations.into_iter().find(|v| v.0.key() == key).map(|v| v.1)
}
pub fn one(c: &Case) -> Option<String> {
    let mut ctx = Ctx::new("C19", c.get("~tier") == "thorough", 0, 1, None);
    std::env::set_var("MC_ALL", "1");
    run(&mut ctx);
    let key = c.key();
    ctx.violations.into_iter().find(|v| v.0.key() == key).map(|v| v.1)
}
