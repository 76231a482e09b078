//! Supervisor: spawns the workers, attributes aborts and hangs, confirms violations in fresh
//! processes, writes the evidence and prints the verdict.
use crate::ctx::*;
use crate::props;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Read;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const ROOT: &str = "/verif";
/// No progress for this long is a hang.
const STALL: Duration = Duration::from_secs(40);

#[derive(Default)]
struct Total {
    stats: BTreeMap<String, u64>,
    notes: BTreeMap<String, String>,
    samples: Vec<String>,
    outcomes: HashSet<String>,
    viols: Vec<(Case, String, u64)>,
    known: BTreeSet<String>,
}
impl Total {
    fn absorb(&mut self, s: &str, shard: u64) -> bool {
        let mut done = false;
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "STAT" => {
                    if let Some((x, n)) = v.split_once(' ') {
                        *self.stats.entry(n.into()).or_insert(0) += x.parse::<u64>().unwrap_or(0);
                    }
                }
                "NOTE" => {
                    if let Some((n, x)) = v.split_once('\t') {
                        self.notes.insert(n.into(), unesc(x));
                    }
                }
                "OUT" => {
                    self.outcomes.insert(v.into());
                }
                "SAMPLE" => self.samples.push(unesc(v)),
                "KNOWN" => {
                    self.known.insert(unesc(v));
                }
                "VIOL" => {
                    if let Some((c, m)) = v.split_once('\t') {
                        if let Some(c) = Case::decode(&unesc(c)) {
                            self.viols.push((c, unesc(m), shard));
                        }
                    }
                }
                "DONE" => done = true,
                _ => {}
            }
        }
        done
    }
}

struct Worker {
    shard: u64,
    child: Child,
    out: std::thread::JoinHandle<String>,
    flight: Flight,
    beats: u64,
    since: Instant,
}
/// The configurations: all features, no interning, no parser, neither; with the cargo features of the harness.
const CONFIGS: [(&str, &str); 4] = [("on", "parser,interning"), ("off", "parser"), ("bare", "interning"), ("none", "")];
fn bin(config: &str) -> std::path::PathBuf {
    if config == "on" {
        return std::env::current_exe().unwrap();
    }
    std::path::PathBuf::from(format!("{}/.build/mc-{}/release/pddl-mc", ROOT, config))
}
/// The binary built without the interning feature.
pub fn off_bin() -> std::path::PathBuf {
    bin("off")
}
/// The configurations explored.
fn configs(prop: &str) -> u64 {
    match prop {
        "C15" | "C20" | "C23" => 2,
        "C22" => 4,
        _ => 1,
    }
}
/// The configuration a case was found in.
fn config_of(c: &Case) -> &str {
    match c.get("~config") {
        "" => "on",
        s => s,
    }
}
fn cargo(config: &str, features: &str, args: &[&str]) -> std::io::Result<std::process::Output> {
    Command::new("cargo")
        .args(["build", "--offline", "--release", "--quiet", "--no-default-features", "--features", features])
        .args(args)
        .current_dir(format!("{}/mc", ROOT))
        .env("CARGO_TARGET_DIR", format!("{}/.build/mc-{}", ROOT, config))
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TERM_COLOR", "never")
        .output()
}
/// Builds the library alone in one configuration: None when it builds.
fn library(config: &str) -> Option<String> {
    let features = CONFIGS.iter().find(|c| c.0 == config)?.1;
    let o = cargo(config, features, &["-p", "pddl"]).expect("cargo");
    if o.status.success() {
        return None;
    }
    let e = String::from_utf8_lossy(&o.stderr).into_owned();
    let first: Vec<&str> = e.lines().filter(|l| l.starts_with("error")).take(5).collect();
    Some(format!("the library does not build with the features [{}]: {}", features, first.join(" | ")))
}
/// Shards kn..kn+n are the shards 0..n of the k-th configuration.
fn spawn(prop: &str, tier: &str, shard: u64, n: u64, dir: &str, tag: &str) -> Worker {
    let path = format!("{}/{}-{}{}.flight", dir, prop, shard, tag);
    let _ = std::fs::remove_file(&path);
    let flight = Flight::open(&path);
    let mut child = Command::new(bin(CONFIGS[(shard / n) as usize].0))
        .args(["worker", prop, tier, &(shard % n).to_string(), &n.to_string(), &path])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker");
    let mut so = child.stdout.take().unwrap();
    let out = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = so.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    Worker { shard, child, out, flight, beats: 0, since: Instant::now() }
}
enum End {
    Done(String),
    /// died or stalled while this case was in flight
    Lost { case: String, hang: bool, how: String },
    /// the harness itself failed: never a verdict
    Harness(String),
}
fn wait_all(mut ws: Vec<Worker>) -> Vec<(u64, End)> {
    let mut ends = vec![];
    while !ws.is_empty() {
        std::thread::sleep(Duration::from_millis(50));
        let mut i = 0;
        while i < ws.len() {
            let b = ws[i].flight.beats();
            if b != ws[i].beats {
                ws[i].beats = b;
                ws[i].since = Instant::now();
            }
            let st = ws[i].child.try_wait().expect("wait");
            let stalled = st.is_none() && ws[i].since.elapsed() > STALL;
            if st.is_none() && !stalled {
                i += 1;
                continue;
            }
            let mut w = ws.swap_remove(i);
            if stalled {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            let text = w.out.join().unwrap_or_default();
            if !stalled && text.ends_with("DONE\n") {
                ends.push((w.shard, End::Done(text)));
            } else {
                if st.and_then(|s| s.code()) == Some(3) {
                    ends.push((w.shard, End::Harness(w.flight.get())));
                    continue;
                }
                let how = match st {
                    Some(s) => format!("{}", s),
                    None => format!("no progress for {} s", STALL.as_secs()),
                };
                ends.push((w.shard, End::Lost { case: w.flight.get(), hang: stalled, how }));
            }
        }
    }
    ends.sort_by_key(|e| e.0);
    ends
}

/// A case that fails in one configuration, in the others: None when it fails alike in all of them.
fn elsewhere(path: &str, c: &Case, m: &str) -> Option<String> {
    if c.kind == "differ" {
        return Some(m.to_string());
    }
    let mine = config_of(c).to_string();
    for (other, features) in CONFIGS {
        if other == mine || !(props::features::everywhere(&c.kind) || features.contains("parser")) {
            continue;
        }
        let mut d = c.clone();
        d.fields.retain(|f| f.0 != "~config");
        d.fields.push(("~config".into(), other.into()));
        let p = format!("{}.{}", path, other);
        std::fs::write(&p, d.encode()).expect("case");
        let r = fresh_run(&p);
        let _ = std::fs::remove_file(&p);
        if r.as_deref() != Some(m) {
            return Some(format!("configuration {}: {}; configuration {}: {}", mine, m, other, r.unwrap_or_else(|| "as the model says".into())));
        }
    }
    None
}
/// Runs one case in a fresh process: None = holds, Some(message) = violated.
pub fn fresh_run(path: &str) -> Option<String> {
    let case = std::fs::read_to_string(path).ok().and_then(|s| Case::decode(&s));
    if let Some(c) = case.as_ref().filter(|c| c.kind == "features") {
        return library(c.get("config"));
    }
    let config = case.as_ref().map_or("on", config_of).to_string();
    let mut c = Command::new(bin(&config))
        .args(["one", path])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn one");
    let mut so = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = so.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    let t = Instant::now();
    loop {
        match c.try_wait().expect("wait") {
            Some(s) => {
                let out = rd.join().unwrap_or_default();
                return match s.code() {
                    Some(0) => None,
                    Some(3) => None,
                    Some(1) => Some(out.trim_end().to_string()),
                    _ => Some(format!("the process ended with {} (panic outside any handler, abort, stack or memory exhaustion)", s)),
                };
            }
            None if t.elapsed() > Duration::from_secs(90) => {
                let _ = c.kill();
                let _ = c.wait();
                return Some("no answer within 90 s".into());
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}
fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            '\r' => o += "\\r",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        return s.into();
    }
    s.chars().take(n).collect::<String>() + "…"
}

pub fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let info = match props::info(prop) {
        Some(i) => i,
        None => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
    };
    let n = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
    let dir = format!("{}/.work/{}", ROOT, prop);
    let replays = format!("{}/evidence/replay", ROOT);
    std::fs::create_dir_all(&dir).expect("work dir");
    std::fs::create_dir_all(&replays).expect("replay dir");
    let mut total = Total::default();
    // (case, message, confirmed)
    let mut confirmed: Vec<(Case, String)> = vec![];
    let known = load_known(prop);
    let mut broken: Vec<String> = vec![];
    if prop == "C22" {
        let jobs: Vec<_> = CONFIGS[1..].iter().map(|(c, f)| std::thread::spawn(move || (*c, cargo(c, f, &[])))).collect();
        for (config, r) in jobs.into_iter().map(|j| j.join().expect("build")) {
            let r = r.expect("cargo");
            total.stats.entry("configurations built".into()).and_modify(|x| *x += 1).or_insert(2);
            if !r.status.success() {
                match library(config) {
                    Some(m) => confirmed.push((Case::new("features", &[("config", config.to_string())]), m)),
                    None => broken.push(format!("the harness does not build in configuration {}: {}", config, clip(&String::from_utf8_lossy(&r.stderr), 2000))),
                }
            }
        }
    }
    // without all configurations there is nothing to compare
    let all = if confirmed.is_empty() && broken.is_empty() { configs(prop) * n } else { 0 };
    let ends = wait_all((0..all).map(|s| spawn(prop, tier, s, n, &dir, "")).collect());
    let save = |name: &str, c: &Case| -> String {
        let p = format!("{}/{}", replays, name);
        let _ = std::fs::write(&p, c.encode());
        p
    };
    let mut loose: Vec<(Case, String, u64)> = vec![];
    for (shard, e) in ends {
        match e {
            End::Done(s) => {
                total.absorb(&s, shard);
            }
            End::Harness(c) => broken.push(format!("worker {} failed inside the harness near {}", shard, clip(&c, 300))),
            End::Lost { case, hang, how } => match Case::decode(&case) {
                Some(c) => {
                    let p = save(&format!("{}-lost{}.txt", prop, shard), &c);
                    match fresh_run(&p) {
                        Some(m) => {
                            if known.contains_key(&c.key()) {
                                total.known.insert(c.key());
                                broken.push(format!("worker {} lost to a known finding: {}", shard, c.key()));
                            } else {
                                confirmed.push((c, m))
                            }
                        }
                        None => loose.push((c, format!("worker {} ({})", if hang { "stalled" } else { "died" }, how), shard)),
                    }
                }
                None => loose.push((Case::new("none", &[]), format!("worker ended early ({})", how), shard)),
            },
        }
    }
    let viols = std::mem::take(&mut total.viols);
    // at most a few confirmations, one per (kind, entry) first
    let mut kinds: BTreeMap<String, usize> = BTreeMap::new();
    let mut agreed = 0;
    for (i, (c, m, shard)) in viols.into_iter().enumerate() {
        let key = format!("{}/{}", c.kind, c.get("entry"));
        if kinds.get(&key).map_or(kinds.len() >= 12, |k| *k >= 2) || agreed > 60 {
            continue;
        }
        let p = save(&format!("{}-{}.txt", prop, i), &c);
        match fresh_run(&p) {
            Some(m) => match if prop == "C22" { elsewhere(&p, &c, &m) } else { Some(m.clone()) } {
                Some(m) => {
                    *kinds.entry(key).or_insert(0) += 1;
                    confirmed.push((c, m))
                }
                None => {
                    let _ = std::fs::remove_file(&p);
                    agreed += 1;
                    eprintln!("note: the same in every configuration: {} [{}]", clip(&m, 200), clip(&c.encode(), 200));
                }
            },
            None => {
                let _ = std::fs::remove_file(&p);
                loose.push((c, m, shard))
            }
        }
    }
    // not reproducible alone: the failure may need the history of its worker; run that again
    if confirmed.is_empty() && !loose.is_empty() {
        let mut shards: Vec<u64> = loose.iter().map(|l| l.2).collect();
        shards.sort();
        shards.dedup();
        let again = wait_all(shards.iter().map(|s| spawn(prop, tier, *s, n, &dir, "r")).collect());
        for (shard, e) in again {
            let why = match e {
                End::Done(s) => {
                    let mut t = Total::default();
                    t.absorb(&s, shard);
                    let hit = t.viols.first().map(|(c, m, _)| format!("{} [{}]", m, clip(&c.encode(), 300)));
                    if loose.iter().any(|l| l.2 == shard && (l.1.starts_with("worker "))) {
                        total.absorb(&s, shard);
                        total.viols.clear();
                    }
                    hit
                }
                End::Harness(_) => None,
                End::Lost { case, how, .. } => Some(format!("{} while running {}", how, clip(&case, 300))),
            };
            if let Some(w) = why {
                let c = Case::new(
                    "shard",
                    &[
                        ("prop", prop.to_string()),
                        ("tier", tier.to_string()),
                        ("shard", shard.to_string()),
                        ("of", n.to_string()),
                    ],
                );
                save(&format!("{}-shard{}.txt", prop, shard), &c);
                confirmed.push((c, format!("only after the preceding cases of its worker: {}", w)));
            }
        }
        if confirmed.is_empty() {
            for l in &loose {
                eprintln!("note: not reproducible: {} [{}]", l.1, clip(&l.0.encode(), 300));
            }
        }
    }
    for b in &broken {
        eprintln!("error: {}", b);
    }
    for k in &total.known {
        println!("KNOWN-FINDING: property={} {}", prop, known.get(k).cloned().unwrap_or_else(|| k.clone()));
    }
    for (i, (c, m)) in confirmed.iter().enumerate() {
        let p = save(&format!("{}-v{}.txt", prop, i), c);
        println!("VIOLATION property={} replay={}", prop, p);
        println!("  {}", clip(m, 1500));
        println!("  {}", clip(&c.encode().replace('\n', " | "), 600));
    }
    // evidence
    let g = |k: &str| total.stats.get(k).copied().unwrap_or(0);
    let mut cov: Vec<(String, String)> = vec![
        ("states".into(), (g("states") + g("states_extra")).to_string()),
        ("transitions".into(), (g("generated") + g("expansions") + g("transitions")).to_string()),
        ("traces_validated_against_impl".into(), g("traces").to_string()),
        ("distinct_outcomes".into(), total.outcomes.len().to_string()),
        ("exhaustive".into(), "true".into()),
        ("explanation".into(), json_str(info.explain)),
    ];
    for (k, v) in &total.stats {
        if !["states", "states_extra", "generated", "expansions", "transitions", "traces"].contains(&k.as_str()) {
            cov.push((k.clone(), v.to_string()));
        }
    }
    let bounds: Vec<String> = total.notes.iter().map(|(k, v)| format!("{}: {}", json_str(k), json_str(v))).collect();
    cov.push(("bounds".into(), format!("{{{}}}", bounds.join(", "))));
    let samples: Vec<String> = total.samples.iter().filter(|s| !s.is_empty()).take(24).map(|s| json_str(&clip(s, 400))).collect();
    cov.push(("samples".into(), format!("[{}]", samples.join(", "))));
    let body: Vec<String> = cov.iter().map(|(k, v)| format!("    {}: {}", json_str(k), v)).collect();
    let assume: Vec<String> = info.assume.iter().map(|s| json_str(s)).collect();
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n{}\n  }},\n  \"assumptions\": [{}],\n  \"violations\": {},\n  \"wall_s\": {:.1}\n}}\n",
        json_str(prop),
        json_str(tier),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        body.join(",\n"),
        assume.join(", "),
        confirmed.len(),
        t0.elapsed().as_secs_f64()
    );
    std::fs::write(format!("{}/evidence/{}.json", ROOT, prop), ev).expect("evidence");
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "{} {}: states={} transitions={} traces={} outcomes={} violations={} known={} wall={:.1}s",
        prop,
        tier,
        g("states") + g("states_extra"),
        g("generated") + g("expansions") + g("transitions"),
        g("traces"),
        total.outcomes.len(),
        confirmed.len(),
        total.known.len(),
        t0.elapsed().as_secs_f64()
    );
    if !confirmed.is_empty() {
        1
    } else if !broken.is_empty() || total.stats.get("traces").is_none() {
        2
    } else {
        0
    }
}

/// Replays one stored case; prints what happened.
pub fn replay(path: &str) -> i32 {
    let c = match std::fs::read_to_string(path).ok().and_then(|s| Case::decode(&s)) {
        Some(c) => c,
        None => {
            eprintln!("cannot read {}", path);
            return 2;
        }
    };
    // the other configurations are built as they are needed
    for (config, features) in &CONFIGS[1..] {
        if config_of(&c) == *config || (*config == "off" && c.kind == "differ") || c.kind == "shard" {
            match cargo(config, features, &[]) {
                Ok(o) if o.status.success() => {}
                _ => {
                    eprintln!("the harness does not build in configuration {}", config);
                    return 2;
                }
            }
        }
    }
    if c.kind == "shard" {
        let (prop, tier) = (c.get("prop"), c.get("tier"));
        let (s, n) = (c.get("shard").parse().unwrap_or(0), c.get("of").parse().unwrap_or(8));
        let dir = format!("{}/.work/replay", ROOT);
        std::fs::create_dir_all(&dir).expect("work dir");
        let bad = match wait_all(vec![spawn(prop, tier, s, n, &dir, "")]).pop() {
            Some((_, End::Done(s))) => {
                let mut t = Total::default();
                t.absorb(&s, 0);
                t.viols.first().map(|v| v.1.clone())
            }
            Some((_, End::Harness(_))) => None,
            Some((_, End::Lost { how, case, .. })) => Some(format!("{} [{}]", how, case)),
            None => None,
        };
        println!("{}", bad.clone().unwrap_or_else(|| "holds".into()));
        return bad.is_some() as i32;
    }
    match fresh_run(path) {
        None => {
            println!("holds");
            0
        }
        Some(m) => {
            println!("violated: {}", m);
            1
        }
    }
}
