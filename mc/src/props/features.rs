//! C22: the configurations of the library. This module runs in every one of them.
use super::{build, enums, hashes, names, reqs};
use crate::ctx::{Case, Ctx};

/// What this build of the harness contains.
pub fn config() -> &'static str {
    match (cfg!(feature = "parser"), cfg!(feature = "interning")) {
        (true, true) => "on",
        (true, false) => "off",
        (false, true) => "bare",
        (false, false) => "none",
    }
}
/// Cases that need no parser.
pub fn everywhere(kind: &str) -> bool {
    kind.starts_with("names") || matches!(kind, "build" | "req" | "keyword" | "equal-hash" | "build-equal")
}

pub fn run(ctx: &mut Ctx) {
    names::SHARING_OFF.store(true, std::sync::atomic::Ordering::Relaxed);
    names::run(ctx);
    ctx.phase("names");
    build::run(ctx);
    build::equality(ctx);
    ctx.phase("constructions");
    // the reference tables are the same in all configurations, so a small depth says as much as a large one
    let deep = std::mem::replace(&mut ctx.thorough, false);
    reqs::run(ctx);
    enums::run(ctx);
    ctx.phase("requirements and keywords");
    ctx.thorough = deep;
    if ctx.mine() {
        ctx.add("traces", 1);
        for (k, m) in hashes::hashes() {
            ctx.violation(Case::new("equal-hash", &[("values", k)]), m);
        }
    }
    #[cfg(feature = "parser")]
    {
        super::equal::run(ctx);
        ctx.phase("pairs of parsed values");
        if config() == "on" {
            parses::run(ctx);
            ctx.phase("parses in both");
        }
    }
}
pub fn one(c: &Case) -> Option<String> {
    names::SHARING_OFF.store(true, std::sync::atomic::Ordering::Relaxed);
    match c.kind.as_str() {
        "req" => reqs::one(c),
        "keyword" => enums::one(c),
        "build" => build::one(c),
        "build-equal" => build::one_equal(c),
        "equal-hash" => hashes::hashes().into_iter().find(|b| b.0 == c.get("values")).map(|b| b.1),
        k if k.starts_with("names") => names::one(c),
        #[cfg(feature = "parser")]
        "differ" => parses::one(c),
        _ => None,
    }
}
#[cfg(feature = "parser")]
pub use parses::serve;

/// The same call in the configuration with and in the one without interning.
#[cfg(feature = "parser")]
mod parses {
    use super::super::corpus::corpus_with_refused;
    use super::super::history::{cuts, layouts, variants};
    use crate::ctx::{esc, guard, hash, unesc, Case, Ctx};
    use crate::docs::*;
    use crate::entries::{entries, extras, Entry};
    use crate::structure::{tricky_names, tricky_nums, Lab};
    use std::collections::HashMap;
    use std::io::{BufRead, BufReader, Write};
    use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

    /// Everything observable about one call.
    fn outcome(e: &Entry, t: &str) -> String {
        match guard(|| (e.both)(t)) {
            Ok((o, v)) => {
                let d = v
                    .map(|v| {
                        let c = v.copy();
                        format!("{:?} {:?} {:?}", v.debug(), v.same(&*c), c.debug() == v.debug())
                    })
                    .unwrap_or_default();
                let f = e.from_str.map(|f| format!("{:?}", guard(|| f(t))));
                format!("{:?} {} {:?}", o, d, f)
            }
            Err(m) => format!("panic: {}", m),
        }
    }
    /// The other end: lines "entry TAB text" in, lines of hashes out; "?entry TAB text" answers in full.
    pub fn serve() {
        let all: HashMap<&str, Entry> = entries().into_iter().chain(extras()).map(|e| (e.nt, e)).collect();
        let stdin = std::io::stdin();
        let mut out = std::io::stdout();
        for l in stdin.lock().lines() {
            let Ok(l) = l else { break };
            let full = l.starts_with('?');
            let Some((nt, t)) = l.trim_start_matches('?').split_once('\t') else { break };
            let o = outcome(&all[nt], &unesc(t));
            let r = if full { writeln!(out, "{}", esc(&o)) } else { writeln!(out, "{:x}", hash(&o)) };
            if r.is_err() || out.flush().is_err() {
                break;
            }
        }
    }
    struct Other {
        child: Child,
        to: ChildStdin,
        from: BufReader<ChildStdout>,
    }
    impl Other {
        fn start() -> Other {
            let mut child = Command::new(crate::sup::off_bin()).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("the other configuration");
            let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
            Other { child, to, from }
        }
        fn ask(&mut self, l: &str) -> String {
            let mut s = String::new();
            let ok = writeln!(self.to, "{}", l).and_then(|_| self.to.flush()).and_then(|_| self.from.read_line(&mut s));
            match ok {
                Ok(n) if n > 0 => s.trim_end().to_string(),
                _ => "the process ended".into(),
            }
        }
    }
    impl Drop for Other {
        fn drop(&mut self) {
            let _ = self.child.kill();
            let _ = self.child.wait();
        }
    }
    fn differ(o: &mut Other, e: &Entry, t: &str) -> Option<String> {
        let mine = outcome(e, t);
        let line = format!("{}\t{}", e.nt, esc(t));
        if o.ask(&line) == format!("{:x}", hash(&mine)) {
            return None;
        }
        let theirs = o.ask(&format!("?{}", line));
        Some(format!("{} of {:?}: with interning {}, without {}", e.nt, t, mine, unesc(&theirs)))
    }
    pub fn run(ctx: &mut Ctx) {
        let deep = ctx.thorough;
        let lab = Lab::new();
        let all: Vec<Entry> = entries().into_iter().chain(extras()).filter(|e| e.nt != "comment").collect();
        let mut o = Other::start();
        let mut check = |ctx: &mut Ctx, e: &Entry, t: &str| {
            if !ctx.fresh(hash(&("differ", e.nt, t))) {
                return;
            }
            ctx.add("traces", 1);
            ctx.add("compared parses", 1);
            let c = Case::new("differ", &[("entry", e.nt.to_string()), ("text", t.to_string())]);
            ctx.in_flight(&c);
            if let Some(m) = differ(&mut o, e, t) {
                ctx.violation(c, m);
            }
        };
        let mut words: Vec<String> = tricky_names().iter().map(|s| s.to_string()).collect();
        for n in 1..=if deep { 600 } else { 130 } {
            words.push("w".repeat(n));
            words.push(format!("{}-", "w-".repeat(n)));
            words.push(format!("{}_9", "Ab".repeat(n)));
        }
        for e in &all {
            let (good, bad) = corpus_with_refused(&lab, e.nt, if deep { 150 } else { 30 }, if deep { 6 } else { 2 });
            for (k, d) in good.iter().enumerate() {
                for t in variants(d).iter().chain(&layouts(d)).chain(&cuts(d)) {
                    check(ctx, e, t);
                }
                // every word in every place
                if k < if deep { 12 } else { 3 } || d.len() < 6 {
                    for i in 0..d.len() {
                        let b = d[i].as_bytes();
                        let var = b[0] == b'?';
                        if b[0].is_ascii_alphabetic() || var && b.len() > 1 {
                            for w in &words {
                                let mut v = d.clone();
                                let s = format!("{}{}", if var { "?" } else { "" }, w);
                                v[i] = ist(&s);
                                check(ctx, e, &render(&v).0);
                            }
                        } else if b[0].is_ascii_digit() {
                            for w in tricky_nums() {
                                let mut v = d.clone();
                                v[i] = w;
                                check(ctx, e, &render(&v).0);
                            }
                        }
                    }
                }
            }
            for d in &bad {
                check(ctx, e, &render(d).0);
            }
        }
        // combinators of the caller's choice, and every entry point on every construct
        let k = if deep { 6 } else { 2 };
        for src in &lab.ents {
            for d in corpus_with_refused(&lab, src.nt, k, 1).0.iter().take(k * 2) {
                for e in &all {
                    check(ctx, e, &render(d).0);
                }
            }
        }
    }
    pub fn one(c: &Case) -> Option<String> {
        let e = entries().into_iter().chain(extras()).find(|e| e.nt == c.get("entry")).expect("entry");
        differ(&mut Other::start(), &e, c.get("text"))
    }
}
