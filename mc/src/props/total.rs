//! C12: every entry point returns on every text. States are texts: all short strings over an alphabet of
//! character classes, all single-character edits, all cuts, all code points, size sweeps, repeated units,
//! and the deep nestings of every recursive production (each in a process of its own).
use super::corpus::*;
use crate::ctx::{guard, hash, Case, Ctx};
use crate::docs::*;
use crate::entries::{extras, Entry};
use crate::gram::Stat;
use crate::refp;
use crate::structure::*;

const ALPHA: [char; 18] = ['(', ')', 'a', '?', ':', '-', '0', '.', ';', ' ', '\n', '=', '<', '#', 'é', '\0', '\r', '𝄞'];
const SPECIAL: [&str; 34] = [
    "(", ")", "a", "Z", "?", ":", "-", "_", "0", "9", ".", ";", " ", "\n", "\r", "\t", "=", "<", ">", "#", "*", "/", "+", "\"", "\\", "{", "\0", "\u{7f}", "é",
    "→", "𝄞", "\u{2028}", "\u{feff}", "\u{301}",
];
/// Every public way to parse `text` with this entry; Some when one of them does not return normally.
pub fn probe(e: &Entry, text: &str) -> Option<String> {
    if let Err(p) = guard(|| (e.free)(text)) {
        return Some(format!("{} panicked: {}", e.nt, p));
    }
    if let Some(f) = e.from_str {
        if let Err(p) = guard(|| f(text)) {
            return Some(format!("{} from_str panicked: {}", e.nt, p));
        }
    }
    None
}
struct Probe {
    lab: Lab,
    ext: Vec<Entry>,
}
impl Probe {
    fn all(&self) -> impl Iterator<Item = &Entry> {
        self.lab.ents.iter().chain(self.ext.iter())
    }
    fn text(&self, ctx: &mut Ctx, nt: &str, text: &str, tag: &str) {
        ctx.add("generated", 1);
        if !ctx.fresh(hash(&(nt, text))) {
            return;
        }
        let case = || Case::new("total", &[("entry", nt.to_string()), ("text", text.to_string())]);
        ctx.in_flight(&case());
        ctx.sample(|| format!("{}: {}", nt, text.chars().take(200).collect::<String>()));
        ctx.add(tag, 1);
        let mut bad = None;
        for e in self.all() {
            if nt.is_empty() || e.nt == nt {
                ctx.add("traces", 1);
                bad = bad.or(probe(e, text));
            }
        }
        if let Some(m) = bad {
            ctx.violation(case(), m);
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    let p = Probe { lab: Lab::new(), ext: extras() };
    // all short strings
    for len in 0..=if ctx.thorough { 5 } else { 4 } {
        for mut k in 0..ALPHA.len().pow(len) {
            let mut s = String::new();
            for _ in 0..len {
                s.push(ALPHA[k % ALPHA.len()]);
                k /= ALPHA.len();
            }
            p.text(ctx, "", &s, "short_strings");
        }
    }
    ctx.notes.insert("short_string_length".into(), if ctx.thorough { "5" } else { "4" }.into());
    // every code point, bare, in a word, in a comment
    let top = if ctx.thorough { 0x11_0000 } else { 0x3_0000 };
    for c in (0..top).filter_map(char::from_u32) {
        let q = c as u32;
        if !ctx.thorough && q > 0x3100 && q % 0x40 > 1 {
            continue;
        }
        p.text(ctx, "", &format!("{}", c), "code_points");
        for nt in ["name", "number", "gd", "requirements", "domain", "comment"] {
            for t in [format!("a{}b", c), format!("(p {})", c), format!("({} a)", c), format!(";{}\n(a)", c), format!("1{}2", c), format!("(p ;{}{}\n a)", c, c)] {
                p.text(ctx, nt, &t, "code_points");
            }
        }
    }
    // every character edit and every cut of the base documents
    let per = if ctx.thorough { 60 } else { 10 };
    for e in p.all() {
        let nt = match e.nt {
            "typed-list-names" => "typed-names",
            "typed-list-vars" => "typed-vars",
            "empty-or-gd" => "gd",
            n => n,
        };
        let mut texts: Vec<String> = vec![];
        if p.lab.ents.iter().any(|x| x.nt == nt) {
            texts = corpus(&p.lab, nt, per).iter().map(|d| render(d).0).collect();
        }
        if nt == "typed-names" || nt == "typed-vars" {
            texts = ["x - t", "x y - t z", "x - (either a b) y"].iter().map(|s| if nt == "typed-vars" { format!("?{}", s) } else { s.to_string() }).collect();
        }
        texts.push("(a (b ?c) 1.5 (= x y))".into());
        for t in texts {
            let long = t.len() > 400 && !ctx.thorough;
            for (i, c) in t.char_indices().chain([(t.len(), ' ')]) {
                p.text(ctx, e.nt, &t[..i], "cuts");
                p.text(ctx, e.nt, &t[i..], "cuts");
                let next = (i + c.len_utf8()).min(t.len());
                p.text(ctx, e.nt, &format!("{}{}", &t[..i], &t[next..]), "edits");
                for (k, s) in SPECIAL.iter().enumerate() {
                    if long && (k + i) % 5 != 0 {
                        continue;
                    }
                    p.text(ctx, e.nt, &format!("{}{}{}", &t[..i], s, &t[i..]), "edits");
                    p.text(ctx, e.nt, &format!("{}{}{}", &t[..i], s, &t[next..]), "edits");
                }
            }
        }
    }
    sizes(ctx, &p);
    units(ctx, &p);
    deep(ctx, &p.lab);
}

/// Literals, names, comments and white space of every size.
fn sizes(ctx: &mut Ctx, p: &Probe) {
    let mut ks: Vec<usize> = (1..=if ctx.thorough { 1100 } else { 330 }).collect();
    ks.extend([1000, 1023, 1024, 1025, 4096, 10_000, 65_535, 65_536, 65_537, 100_000, 300_000]);
    if ctx.thorough {
        ks.push(1_000_000);
    }
    let shapes: &[&dyn Fn(usize) -> String] = &[
        &|k| "9".repeat(k),
        &|k| "0".repeat(k),
        &|k| format!("1{}", "0".repeat(k)),
        &|k| format!("0.{}1", "0".repeat(k)),
        &|k| format!("{}.{}", "9".repeat(k), "9".repeat(k)),
        &|k| format!("-{}", "9".repeat(k)),
        &|k| "a".repeat(k),
        &|k| format!("?{}", "a".repeat(k)),
        &|k| "-".repeat(k),
        &|k| "a-".repeat(k),
        &|k| " ".repeat(k),
        &|k| "\n".repeat(k),
        &|k| ";".repeat(k),
        &|k| ";\n".repeat(k),
        &|k| format!(";{}", "é".repeat(k)),
        &|k| "é".repeat(k),
    ];
    let frames: &[(&str, &str, &str)] = &[
        ("number", "", ""),
        ("name", "", ""),
        ("f-exp", "", ""),
        ("f-exp", "(- ", ")"),
        ("f-comp", "(= ", " 1)"),
        ("metric", "(:metric minimize (+ ", " x))"),
        ("length", "(:length (:serial ", "))"),
        ("length", "(:length (:parallel ", "))"),
        ("init-el", "(= x ", ")"),
        ("init-el", "(at ", " (p))"),
        ("con-gd", "(within ", " (p))"),
        ("con-gd", "(hold-during 1 ", " (p))"),
        ("d-value", "", ""),
        ("simple-duration", "(= ?duration ", ")"),
        ("p-effect", "(increase (f) ", ")"),
        ("gd", "(p ", ")"),
        ("gd", "(", ")"),
        ("domain", "", "(define (domain d))"),
        ("domain", "(define (domain d)", ")"),
        ("comment", "", ""),
        ("requirements", "(:requirements ", ")"),
        ("typed-list-names", "a - ", ""),
        ("term", "", ""),
    ];
    for &k in &ks {
        for (i, s) in shapes.iter().enumerate() {
            if k > 1100 && !(k % 1000 == 0 || ctx.thorough || i < 6) {
                continue;
            }
            let w = s(k);
            for (nt, a, b) in frames {
                p.text(ctx, nt, &format!("{}{}{}", a, w, b), "sizes");
            }
        }
    }
}

/// Units of up to three tokens repeated many times, balanced or not.
fn units(ctx: &mut Ctx, p: &Probe) {
    // units that open more than they close would recurse: those are limited to a depth that fits any stack
    let toks = ["(", ")", "a", "?x", "1", "-", "=", ";\n", ":a", "and", "not", "(p)", "()", "(- 1)", "+", "either"];
    let reps: &[usize] = if ctx.thorough { &[200, 20_000] } else { &[150, 3000] };
    for len in 1..=3u32 {
        for mut k in 0..toks.len().pow(len) {
            let mut u = String::new();
            let mut open = 0i32;
            for _ in 0..len {
                let t = toks[k % toks.len()];
                open += (t == "(") as i32 - (t == ")") as i32;
                u += t;
                u.push(' ');
                k /= toks.len();
            }
            for &r in reps {
                let r = if open > 0 { r.min(150) } else { r };
                if r > 200 && len == 3 && !ctx.thorough {
                    continue;
                }
                p.text(ctx, "", &u.repeat(r), "units");
            }
        }
    }
    // inside the documents: one sibling repeated, one construct nested
    let big: &[usize] = if ctx.thorough { &[50, 3000, 30_000] } else { &[3000] };
    let depth: &[usize] = if ctx.thorough { &[60, 120] } else { &[60] };
    let mut st = Stat::default();
    for e in &p.lab.ents {
        if !p.lab.g.nts.contains_key(e.nt) {
            continue;
        }
        for s in first(&p.lab.g, e.nt, if ctx.thorough { 30 } else { 8 }, &mut st) {
            let mut all = vec![];
            pumps(&s.tk, big, 400_000, &mut |v| all.push(v.to_vec()));
            nests(&s.tk, depth, 5000, &mut |v| all.push(v.to_vec()));
            for v in all {
                let (t, ends) = render(&p.lab.pool.same(&v));
                p.text(ctx, e.nt, &t, "long");
                // and with its end torn off
                let cut = ends[ends.len() / 2];
                p.text(ctx, e.nt, &t[..cut], "long");
            }
        }
    }
}

pub const DEEP: usize = 50_000;
pub const FINE: usize = 250;
/// The word that names the production.
fn head(pre: &str) -> &str {
    pre.split(' ').nth(1).unwrap_or("")
}
/// The recursive productions, one per construct and head word: prefix and suffix around an inner construct of the same kind.
pub fn families(lab: &Lab) -> Vec<(&'static str, String, String, String)> {
    let mut out: Vec<(&'static str, String, String, String)> = vec![];
    let mut st = Stat::default();
    const OWNERS: [&str; 12] =
        ["term", "gd", "pre-gd", "effect", "f-exp", "f-exp-da", "metric-f-exp", "da-gd", "da-effect", "simple-duration", "con-gd", "pref-con-gd"];
    for e in lab.ents.iter().filter(|e| OWNERS.contains(&e.nt)) {
        for s in first(&lab.g, e.nt, 2000, &mut st) {
            if s.tk.len() > 12 {
                continue;
            }
            let sp = spans(&s.tk, crate::gram::LP, crate::gram::RP);
            if sp.is_empty() || sp[0].1 != s.tk.len() {
                continue;
            }
            for v in sp.iter().skip(1).filter(|v| v.1 - v.0 > 1) {
                let j = |x: &[crate::gram::Tk]| lab.pool.same(x).join(" ");
                let (pre, core, post) = (j(&s.tk[..v.0]), j(&s.tk[v.0..v.1]), j(&s.tk[v.1..]));
                let d3 = format!("{}{}{}", format!("{} ", pre).repeat(3), core, format!(" {}", post).repeat(3));
                let toks = tokens(&d3);
                if refp::expect(e.nt, &toks).map_or(true, |x| x.1 != toks.len()) || out.iter().any(|o| o.0 == e.nt && head(&o.1) == head(&pre)) {
                    continue;
                }
                out.push((e.nt, pre, core, post));
            }
        }
    }
    out
}
fn deep(ctx: &mut Ctx, lab: &Lab) {
    let fams = families(lab);
    ctx.notes.insert("recursive_families".into(), fams.len().to_string());
    for (nt, pre, core, post) in fams {
        for d in [1, 2, 4, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 150, 200, FINE, 255, 256, 257] {
            if ctx.mine() {
                let c = Case::new("deep-fine", &[("entry", nt.into()), ("pre", pre.clone()), ("core", core.clone()), ("post", post.clone()), ("depth", d.to_string())]);
                ctx.in_flight(&c);
                ctx.add("traces", 1);
                ctx.add("states_extra", 1);
                if let Some(m) = one(&c) {
                    ctx.violation(c, m);
                }
            }
        }
        // deeper, on a stack that suffices
// (refused nestings may take quadratic effort, so no further than this)
        let far: &[usize] = if ctx.thorough { &[511, 512, 513, 1000, 1023, 1024, 1025] } else { &[512, 513] };
        for d in far {
            if ctx.mine() {
                let c = Case::new("deep-far", &[("entry", nt.into()), ("pre", pre.clone()), ("core", core.clone()), ("post", post.clone()), ("depth", d.to_string())]);
                ctx.in_flight(&c);
                ctx.add("traces", 1);
                ctx.add("states_extra", 1);
                if let Some(m) = one(&c) {
                    ctx.violation(c, m);
                }
            }
        }
        // the extreme, in a process with an ordinary 8 MB stack
        if ctx.mine() {
            let c = Case::new("deep", &[("entry", nt.into()), ("~head", head(&pre).into()), ("~pre", pre.clone()), ("~core", core.clone()), ("~post", post.clone())]);
            ctx.in_flight(&c);
            ctx.add("traces", 1);
            ctx.add("states_extra", 1);
            ctx.add("deep_processes", 1);
            let path = format!("{}/.work/deep-{}.txt", crate::sup::ROOT, std::process::id());
            std::fs::write(&path, c.encode()).expect("work file");
            if let Some(m) = crate::sup::fresh_run(&path) {
                ctx.violation(c, m);
            }
            let _ = std::fs::remove_file(&path);
        }
    }
}

pub fn one(c: &Case) -> Option<String> {
    let (lab, ext) = (Lab::new(), extras());
    let all = || lab.ents.iter().chain(ext.iter());
    let nt = c.get("entry");
    match c.kind.as_str() {
        "total" => all().filter(|e| nt.is_empty() || e.nt == nt).find_map(|e| probe(e, c.get("text"))),
        k => {
            let e = lab.ent(nt);
            let (core, post) = if k == "deep" { (c.get("~core"), c.get("~post")) } else { (c.get("core"), c.get("post")) };
            let d = if k == "deep" { DEEP } else { c.get("depth").parse().unwrap() };
            let pre = if k == "deep" { c.get("~pre") } else { c.get("pre") };
            let open = format!("{} ", pre).repeat(d);
            let whole = format!("{}{}{}", open, core, format!(" {}", post).repeat(d));
            // parse and drop
            let run = || [&open, &whole].into_iter().find_map(|t| guard(|| (e.run)(t)).err()).map(|p| format!("panicked: {}", p));
            if k != "deep-far" {
                return run();
            }
            std::thread::scope(|s| std::thread::Builder::new().stack_size((64 << 20) + d * (64 << 10)).spawn_scoped(s, run).expect("thread").join().unwrap_or_else(|_| Some("panicked".into())))
        }
    }
}
