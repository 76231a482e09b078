//! One program of threads, run under one list of choices, as if in a process of its own.
use crate::entries::Entry;
use crate::lift::Val;
use mcstd::sched::{self, Run};
use pddl::Name;
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};

/// Threads of operations, after a setup run by the main thread alone. An operation is written `name TEXT` (from a
/// `&str`), `string TEXT` (from a `String`), `static TEXT` (not interned), `parse ENTRY TEXT`, `drop` (what the thread obtained last),
/// `share` (clone, compare and drop the first value of the setup).
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Program {
    pub setup: Vec<String>,
    pub threads: Vec<Vec<String>>,
}
impl Program {
    pub fn show(&self) -> String {
        let t: Vec<String> = self.threads.iter().map(|t| t.join("; ")).collect();
        format!("[{}] {}", self.setup.join("; "), t.join(" || "))
    }
}
/// What an operation yields.
pub enum Value {
    Name(Name),
    Doc(Box<dyn Val>, Vec<Name>, String),
    Refused,
}
// The values of the library are Send; behind `dyn Val` the compiler no longer knows.
struct Sent(Value);
unsafe impl Send for Sent {}

fn value(entries: &[Entry], op: &str) -> Option<Value> {
    let (kind, rest) = op.split_once(' ').unwrap_or((op, ""));
    Some(match kind {
        "name" => Value::Name(Name::new(rest)),
        "string" => Value::Name(Name::from(rest.to_string())),
        "static" => Value::Name(Name::new_static(Box::leak(rest.to_string().into_boxed_str()))),
        "parse" => {
            let (e, text) = rest.split_once(' ').expect("parse ENTRY TEXT");
            let e = entries.iter().find(|x| x.nt == e).expect("entry");
            let (out, v) = (e.both)(text);
            match v {
                Some(v) => {
                    let mut names = vec![];
                    // the names within reach, with the storage they have
                    if let Some(n) = v.any().downcast_ref::<Name>() {
                        names.push(n.clone());
                    }
                    if let Some(d) = v.any().downcast_ref::<pddl::Domain>() {
                        names.push(d.name().clone());
                        names.extend(d.types().iter().map(|t| t.value().clone()));
                        names.extend(d.constants().iter().map(|t| t.value().clone()));
                    }
                    if let Some(p) = v.any().downcast_ref::<pddl::Problem>() {
                        names.extend([p.name().clone(), p.domain().clone()]);
                        names.extend(p.objects().iter().map(|t| t.value().clone()));
                    }
                    if let Some(t) = v.any().downcast_ref::<pddl::Types>() {
                        names.extend(t.iter().map(|t| t.value().clone()));
                    }
                    let show = format!("{:?} {:?} {}", out, v.lift_val(), v.debug());
                    Value::Doc(v, names, show)
                }
                None => Value::Refused,
            }
        }
        _ => return None,
    })
}
/// The values as text: what must be the same as alone.
pub fn show(v: &Value) -> String {
    match v {
        Value::Name(n) => format!("name {:?} {} {}", n.as_ref() as &str, n.len(), n.is_empty()),
        Value::Doc(v, _, s) => {
            // as read at once, and as read later
            let again = format!("{:?} {}", v.lift_val(), v.debug());
            format!("doc {} {}", s, s.ends_with(&again))
        }
        Value::Refused => "refused".into(),
    }
}
fn names(v: &Value) -> Vec<&Name> {
    match v {
        Value::Name(n) => vec![n],
        Value::Doc(_, ns, _) => ns.iter().collect(),
        Value::Refused => vec![],
    }
}
fn hash(n: &Name) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}
pub struct Outcome {
    pub run: Run,
    /// what is wrong
    pub wrong: Option<String>,
    /// what the operations obtained, in the order of threads
    pub obtained: Vec<String>,
}
thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// What the last panic said.
pub fn last_panic() -> String {
    PANIC.try_with(|p| p.try_borrow().map(|p| p.to_string()).unwrap_or_default()).unwrap_or_default()
}
/// Keeps what panics say, for `execute`.
pub fn quiet() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string());
        let m = m.or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{}{}", m, at));
    }));
}
/// `alone`: what each operation obtains on its own (`None`: this is the run that finds out).
pub fn execute(table: &'static [Entry], p: &Program, choices: &[u8], within: bool, alone: Option<&dyn Fn(&str) -> String>) -> Outcome {
    let setup: Vec<Value> = p.setup.iter().filter_map(|o| value(table, o)).collect();
    let first: Option<Name> = setup.iter().flat_map(|v| names(v)).next().cloned();
    let n = p.threads.len();
    let slots: Arc<Vec<Mutex<(Vec<(String, Sent)>, Option<String>)>>> = Arc::new((0..n).map(|_| Mutex::new((vec![], None))).collect());
    let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
    for (i, ops) in p.threads.iter().enumerate() {
        let (ops, slots, first) = (ops.clone(), slots.clone(), first.clone());
        bodies.push(Box::new(move || {
            let mut mine: Vec<(String, Sent)> = vec![];
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                for o in &ops {
                    match o.as_str() {
                        "drop" => drop(mine.pop()),
                        "share" => {
                            let n = first.as_ref().expect("a name in the setup");
                            let c = n.clone();
                            assert!(c == *n && n.as_ref() as &str == c.as_ref() as &str && hash(&c) == hash(n), "a clone differs");
                        }
                        _ => mine.push((o.clone(), Sent(value(table, o).expect("operation")))),
                    }
                }
            }));
            let why = r.err().map(|_| PANIC.with(|p| p.borrow().clone()));
            *slots[i].lock().unwrap() = (mine, why);
        }));
    }
    drop(first);
    let run = sched::run(choices.to_vec(), bodies, within);
    let mut wrong = None;
    let mut obtained = vec![];
    if let Some(s) = run.stuck {
        return Outcome { run: Run { stuck: Some(s), ..run }, wrong: Some(s.into()), obtained };
    }
    let mut all: Vec<(String, Value)> = p.setup.iter().cloned().zip(setup).collect();
    for i in 0..n {
        let mut g = slots[i].lock().unwrap();
        if let Some(m) = g.1.take() {
            wrong = wrong.or_else(|| Some(format!("thread {} panics: {}", i, m)));
            obtained.push(format!("panic {}", m));
        }
        all.extend(std::mem::take(&mut g.0).into_iter().map(|(o, v)| (o, v.0)));
    }
    for (o, v) in &all {
        let s = show(v);
        if let Some(alone) = alone {
            let a = alone(o);
            if a != s {
                wrong = wrong.or_else(|| Some(format!("{} obtains {} where alone it obtains {}", o, s, a)));
            }
        }
        obtained.push(s);
    }
    if alone.is_none() {
        return Outcome { run, wrong, obtained };
    }
    // the interner goes on working: names made now are equal to those made before, and new ones are as they should be
    let mut live: Vec<(String, Name)> = vec![];
    for (o, v) in &all {
        if !o.starts_with("static ") {
            live.extend(names(v).into_iter().map(|n| (o.clone(), n.clone())));
        }
        // equal operations obtain equal values
        for (o2, v2) in &all {
            if o == o2 {
                let same = match (v, v2) {
                    (Value::Name(a), Value::Name(b)) => a == b,
                    (Value::Doc(a, ..), Value::Doc(b, ..)) => a.same(b.as_ref()) == Some((true, false)),
                    (Value::Refused, Value::Refused) => true,
                    _ => false,
                };
                if !same {
                    wrong = wrong.or_else(|| Some(format!("{} obtains unequal values", o)));
                }
            }
        }
    }
    let mut texts: Vec<String> = live.iter().map(|l| l.1.to_string()).collect();
    texts.extend(["a", "b", "c", "!", "zzz", "-", "object", "number"].map(String::from));
    texts.sort();
    texts.dedup();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        for _ in 0..2 {
            for t in &texts {
                live.push((format!("name {} afterwards", t), Name::new(t.as_str())));
                if live.last().unwrap().1 != t.as_str() {
                    return Some(format!("afterwards the name {} is {:?}", t, live.last().unwrap().1));
                }
            }
        }
        None
    }));
    match r {
        Ok(None) => {}
        Ok(Some(m)) => wrong = wrong.or(Some(m)),
        Err(_) => wrong = wrong.or_else(|| Some(format!("afterwards the interner panics: {}", PANIC.with(|p| p.borrow().clone())))),
    }
    live.sort_by(|a, b| (a.1.as_ref() as &str).cmp(b.1.as_ref() as &str));
    for w in live.windows(2) {
        let ((o1, a), (o2, b)) = (&w[0], &w[1]);
        let (ta, tb): (&str, &str) = (a.as_ref(), b.as_ref());
        if (ta == tb) != (a == b) || (ta == tb) != (b == a) || (ta == tb && hash(a) != hash(b)) {
            wrong = wrong.or_else(|| Some(format!("{:?} ({}) and {:?} ({}) compare wrongly", ta, o1, tb, o2)));
        }
        if ta == tb && ta.as_ptr() != tb.as_ptr() {
            wrong = wrong.or_else(|| Some(format!("{:?} ({}) does not share its stored string with {:?} ({})", ta, o1, tb, o2)));
        }
    }
    Outcome { run, wrong, obtained }
}
