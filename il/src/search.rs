//! The search over lists of choices, the processes it uses, and its report.
use crate::entries::{entries, Entry};
use crate::programs::programs;
use crate::run::{execute, Program};
use mcstd::accesses as mem;
use mcstd::sched::{Step, KINDS};
use mcstd::world;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::Instant;

const ROOT: &str = "/verif";
/// The longest list of choices noted for the case that the process dies under it.
const NOTED: usize = 1 << 16;
/// Executions between settings of the alarm.
const ROUND: u64 = 256;

/// What a worker is doing, in memory its parent sees.
#[repr(C)]
struct Flight {
    program: usize,
    len: usize,
    within: bool,
    choices: [u8; NOTED],
}
fn map<T>(n: usize) -> *mut T {
    // SAFETY: a fresh anonymous mapping.
    let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
    assert!(p != libc::MAP_FAILED, "mmap");
    p as *mut T
}
/// Keeps this process and its children on one processor: the controlled threads run one at a time anyway.
fn pin(w: usize) {
    // SAFETY: plain system calls on a local.
    unsafe {
        let mut may: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut may) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &may)).collect();
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[w % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &one);
    }
}
pub struct Exec {
    steps: Vec<Step>,
    points: usize,
    kinds: [u32; KINDS.len()],
    diverged: bool,
    tried: bool,
    wrong: Option<String>,
    obtained: String,
}
struct Lab {
    flight: &'static mut Flight,
    table: &'static [Entry],
    alone: BTreeMap<String, String>,
    executions: u64,
    /// points also while a lock is held
    within: bool,
}
/// Remembers the present state as the one executions start from; once in a process.
fn prepare() {
    crate::run::quiet();
    let n = mem::words() * 8;
    mem::set(map(n), map(n));
    world::stacks();
    world::save();
}
impl Lab {
    fn new(flight: *mut Flight) -> Self {
        // SAFETY: mapped, and written by this process only.
        Lab { flight: unsafe { &mut *flight }, table: Vec::leak(entries()), alone: BTreeMap::new(), executions: 0, within: false }
    }
    fn exec(&mut self, p: &Program, choices: &[u8], alone: bool) -> Exec {
        if self.executions % ROUND == 0 {
            // SAFETY: a plain call; the alarm ends the process.
            unsafe { libc::alarm(120) };
        }
        self.executions += 1;
        let n = choices.len().min(NOTED);
        self.flight.choices[..n].copy_from_slice(&choices[..n]);
        self.flight.len = n;
        self.flight.within = self.within;
        let table = self.table;
        let (known, within) = (&self.alone, self.within);
        let f = |o: &str| known.get(o).cloned().unwrap_or_else(|| "?".into());
        world::enter();
        let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute(table, p, choices, within, if alone { None } else { Some(&f) })));
        world::leave();
        // copies of what must not be freed
        let e = match &o {
            Ok(o) => {
                let mut obtained = o.obtained.join(" | ");
                obtained.shrink_to_fit();
                Exec { steps: o.run.steps.clone(), points: o.run.points, kinds: o.run.kinds, diverged: o.run.diverged, tried: o.run.tried, wrong: o.wrong.clone(), obtained }
            }
            Err(_) => Exec {
                steps: vec![],
                points: 0,
                kinds: [0; KINDS.len()],
                diverged: false,
                tried: false,
                wrong: Some(format!("it panics before or after the threads run: {}", crate::run::last_panic())),
                obtained: String::new(),
            },
        };
        std::mem::forget(o);
        e
    }
    /// What each operation obtains alone, in a process and a table of its own.
    fn find_alone(&mut self, p: &Program) {
        for o in p.setup.iter().chain(p.threads.iter().flatten()) {
            if o != "drop" && o != "share" && !self.alone.contains_key(o) {
                let one = Program { setup: vec![o.clone()], threads: vec![] };
                let e = self.exec(&one, &[], true);
                self.alone.insert(o.clone(), if e.wrong.is_some() { format!("nothing ({:?})", e.wrong) } else { e.obtained });
            }
        }
    }
}
#[derive(Default)]
struct Tally {
    schedules: u64,
    steps: u64,
    points: u64,
    kinds: [u64; KINDS.len()],
    preempted: [u64; 6],
    restarts: u64,
    lowered: u64,
    memory: u64,
    outcomes: BTreeSet<u64>,
}
enum Found {
    Wrong(Vec<u8>, String),
    NoAnswer(String),
}
fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn cost(s: &Step, c: u8) -> u32 {
    (s.me != 255 && c != s.me) as u32
}
/// Every interleaving with up to `bound` preemptions, by their lists of choices; with fewer when they are more than
/// the limit at the time. The bound kept to.
fn explore(lab: &mut Lab, p: &Program, bound: u32, limit: &dyn Fn() -> u64, t: &mut Tally) -> Result<u32, Found> {
    let mut bound = bound;
    lab.find_alone(p);
    mem::forget();
    lab.within = false;
    'restart: loop {
        // (choices, the preemptions among them, steps recorded for them)
        let mut todo: Vec<(Vec<u8>, u32, Option<Step>)> = vec![(vec![], 0, None)];
        let mut count = Tally::default();
        while let Some((prefix, spent, last)) = todo.pop() {
            if bound > 1 && count.schedules % 256 == 255 && count.schedules > limit() {
                bound = (bound - 1).min(5);
                t.lowered += 1;
                continue 'restart;
            }
            let mut tries = 0;
            let e = loop {
                let e = lab.exec(p, &prefix, false);
                if e.wrong.is_some() {
                    return Err(Found::Wrong(e.steps.iter().map(|s| s.chosen).collect(), e.wrong.unwrap()));
                }
                let tried = e.tried && !lab.within;
                lab.within |= tried;
                if mem::learn() || tried {
                    t.restarts += 1;
                    continue 'restart;
                }
                // the choices must have led where they led before
                let at = prefix.len().wrapping_sub(1);
                let same = !e.diverged && last.map_or(true, |l| e.steps.get(at).is_some_and(|s| s.enabled == l.enabled && s.me == l.me && s.kind == l.kind));
                if same {
                    break e;
                }
                tries += 1;
                if tries > 5 {
                    return Err(Found::NoAnswer(format!("an execution cannot be repeated: choices {:?}", prefix)));
                }
            };
            count.schedules += 1;
            count.points += e.points as u64;
            for (a, b) in count.kinds.iter_mut().zip(e.kinds) {
                *a += b as u64;
            }
            count.outcomes.insert(fnv(&e.obtained));
            count.preempted[spent.min(5) as usize] += 1;
            count.steps += (e.steps.len() - prefix.len()) as u64;
            let choices: Vec<u8> = e.steps.iter().map(|s| s.chosen).collect();
            for i in (prefix.len()..e.steps.len()).rev() {
                let s = e.steps[i];
                for c in (0..8u8).filter(|c| s.enabled >> c & 1 == 1 && *c != s.chosen) {
                    let spent = spent + cost(&s, c);
                    if spent <= bound {
                        todo.push(([&choices[..i], &[c]].concat(), spent, Some(s)));
                    }
                }
            }
        }
        t.schedules += count.schedules;
        t.points += count.points;
        t.steps += count.steps;
        t.memory = t.memory.max(mem::known());
        for (a, b) in t.kinds.iter_mut().zip(count.kinds) {
            *a += b;
        }
        for (a, b) in t.preempted.iter_mut().zip(count.preempted) {
            *a += b;
        }
        t.outcomes.extend(count.outcomes);
        return Ok(bound);
    }
}
fn encode(p: &Program, choices: &[u8], within: bool) -> String {
    let mut s = format!("kind schedule\nwithin {}\n", within as u8);
    for o in &p.setup {
        s += &format!("setup {}\n", o);
    }
    for t in &p.threads {
        s += "thread\n";
        for o in t {
            s += &format!("op {}\n", o);
        }
    }
    s + &format!("choices {}\n", choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "))
}
fn decode(s: &str) -> Option<(Program, Vec<u8>, bool)> {
    let mut p = Program { setup: vec![], threads: vec![] };
    let (mut choices, mut within) = (vec![], false);
    for l in s.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "setup" => p.setup.push(v.into()),
            "within" => within = v == "1",
            "thread" => p.threads.push(vec![]),
            "op" => p.threads.last_mut()?.push(v.into()),
            "choices" => choices = v.split_whitespace().filter_map(|c| c.parse().ok()).collect(),
            _ => {}
        }
    }
    Some((p, choices, within))
}
pub fn replay(path: &str) -> i32 {
    let Some((p, choices, within)) = std::fs::read_to_string(path).ok().and_then(|s| decode(&s)) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    // SAFETY: this process has one thread.
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        prepare();
        let mut lab = Lab::new(map(std::mem::size_of::<Flight>()));
        lab.find_alone(&p);
        lab.within = within;
        // until no more memory is found to be written, as the search does
        for _ in 0..50 {
            let e = lab.exec(&p, &choices, false);
            if let Some(m) = e.wrong {
                println!("violated: {}: {}", p.show(), m);
                std::process::exit(1);
            }
            if !mem::learn() {
                break;
            }
        }
        println!("holds");
        std::process::exit(0);
    }
    match how(pid) {
        Ok(c) => c,
        Err(libc::SIGALRM) => {
            eprintln!("error: no end within 120 s");
            2
        }
        Err(n) => {
            println!("violated: {}: the process dies of signal {}", p.show(), n);
            1
        }
    }
}
/// How a process ends: its code or a signal.
fn how(pid: i32) -> Result<i32, i32> {
    let mut st = 0;
    // SAFETY: plain system call on a local.
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if libc::WIFSIGNALED(st) {
        Err(libc::WTERMSIG(st))
    } else {
        Ok(libc::WEXITSTATUS(st))
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
/// Checks that the machinery itself sees interleavings: two threads that read, then write, a counter lose an update;
/// each has its own thread-local memory; and nothing is left of an execution in the next.
fn self_test() -> bool {
    let mut lost = [false; 3];
    let mut todo: Vec<Vec<u8>> = vec![vec![]];
    let mut seen = 0;
    while let Some(prefix) = todo.pop() {
        seen += 1;
        world::enter();
        let r = {
            use mcstd::sync::atomic::AtomicU32;
            static N: AtomicU32 = AtomicU32::new(0);
            static mut PLAIN: u32 = 0;
            static LOCK: mcstd::sync::Mutex<u32> = mcstd::sync::Mutex::new(0);
            thread_local! {
                static OWN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
            }
            static OWNED: AtomicU32 = AtomicU32::new(0);
            let body = || -> Box<dyn FnOnce()> {
                Box::new(|| {
                    OWN.with(|o| o.set(o.get() + 1));
                    let v = N.load(SeqCst);
                    N.store(v + 1, SeqCst);
                    *LOCK.lock().unwrap() += 1;
                    let v = *LOCK.lock().unwrap();
                    *LOCK.lock().unwrap() = v + 1;
                    // SAFETY: only one controlled thread runs at a time.
                    unsafe {
                        let p = &raw mut PLAIN;
                        let v = std::ptr::read_volatile(p);
                        std::ptr::write_volatile(p, v + 1);
                    }
                    OWNED.fetch_add(OWN.with(|o| o.get()), SeqCst);
                })
            };
            let r = mcstd::sched::run(prefix.clone(), vec![body(), body()], false);
            let total = [N.load(SeqCst), *LOCK.lock().unwrap(), unsafe { std::ptr::read_volatile(&raw const PLAIN) }];
            (r, total, OWNED.load(SeqCst), OWN.with(|o| o.get()))
        };
        world::leave();
        let steps = r.0.steps.clone();
        let (stuck, total, owned) = (r.0.stuck, r.1, (r.2, r.3));
        std::mem::forget(r);
        if stuck.is_some() || owned != (2, 0) || total[0] > 2 || total[1] > 4 || total[2] > 2 {
            return false;
        }
        if mem::learn() {
            todo = vec![vec![]];
            continue;
        }
        for i in 0..3 {
            lost[i] |= total[i] < [2, 4, 2][i];
        }
        let spent: u32 = steps.iter().take(prefix.len()).map(|x| cost(x, x.chosen)).sum();
        for i in prefix.len()..steps.len() {
            let x = steps[i];
            for c in (0..8u8).filter(|c| x.enabled >> c & 1 == 1 && *c != x.chosen) {
                if spent + cost(&x, c) <= 1 {
                    let mut q: Vec<u8> = steps[..i].iter().map(|y| y.chosen).collect();
                    q.push(c);
                    todo.push(q);
                }
            }
        }
    }
    mem::forget();
    lost == [true; 3] && seen > 10
}
/// What every operation obtains alone.
pub fn alone() {
    prepare();
    let mut lab = Lab::new(map(std::mem::size_of::<Flight>()));
    for (_, p) in programs(true) {
        lab.find_alone(&p);
    }
    for (k, v) in &lab.alone {
        println!("{}\t{}", k, v);
    }
}
/// Schedules and time of every n-th program.
pub fn sizes(thorough: bool, every: usize) {
    prepare();
    let mut lab = Lab::new(map(std::mem::size_of::<Flight>()));
    pin(3);
    for (b, p) in programs(thorough).into_iter().step_by(every) {
        let (t0, mut t) = (Instant::now(), Tally::default());
        let f = explore(&mut lab, &p, b, &|| u64::MAX, &mut t).is_err();
        println!("{}\t{:.2}\t{}\t{}\t{}\t{}\t{}", t.schedules, t0.elapsed().as_secs_f64(), b, t.restarts, mem::known(), f, p.show());
    }
}
pub fn check(thorough: bool) -> i32 {
    let t0 = Instant::now();
    let tier = if thorough { "thorough" } else { "quick" };
    let all = programs(thorough);
    // SAFETY: this process has one thread.
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        prepare();
        std::process::exit(!self_test() as i32);
    }
    if how(pid) != Ok(0) {
        eprintln!("error: the scheduler does not find the interleavings it should");
        return 2;
    }
    let next: *mut AtomicUsize = map(64);
    let failed: *mut AtomicU64 = map(64);
    let dir = format!("{}/.work/C16-{}", ROOT, std::process::id());
    std::fs::create_dir_all(&dir).expect("work dir");
    // the longest texts first, then from the smallest on
    let mut order: Vec<usize> = (0..all.len()).collect();
    let size = |i: usize| all[i].1.threads.iter().flatten().map(|o| o.len()).sum::<usize>();
    order.sort_by_key(|i| if size(*i) > 300 { 0 } else { size(*i) });
    let workers = 8;
    let mut pids = vec![];
    for w in 0..workers {
        let flight: *mut Flight = map(std::mem::size_of::<Flight>());
        // SAFETY: this process has one thread.
        let pid = unsafe { libc::fork() };
        if pid != 0 {
            pids.push((pid, flight));
            continue;
        }
        prepare();
        let mut lab = Lab::new(flight);
        pin(w);
        let (next, failed) = unsafe { (&*next, &*failed) };
        let mut t = Tally::default();
        let mut report = String::new();
        let mut families: BTreeMap<String, (u64, u64)> = BTreeMap::new();
        loop {
            let i = next.fetch_add(1, SeqCst);
            if i >= order.len() || failed.load(SeqCst) >= 6 {
                break;
            }
            let (bound, p) = &all[order[i]];
            lab.flight.program = order[i];
            let before = t.schedules;
            // on a tree with many more scheduling points than this one an answer in time needs smaller bounds
            let limit = || {
                let late = t0.elapsed().as_secs() > if thorough { 420 } else { 200 };
                if late { 2000 } else if thorough { 20_000_000 } else { 500_000 }
            };
            let mut kept = *bound;
            match explore(&mut lab, p, *bound, &limit, &mut t) {
                Ok(b) => kept = b,
                Err(Found::Wrong(c, m)) => {
                    failed.fetch_add(1, SeqCst);
                    let f = format!("{}/{}.txt", dir, order[i]);
                    std::fs::write(&f, encode(p, &c, lab.within)).expect("case");
                    report += &format!("wrong\t{}\t{}\n", f, m.replace(['\n', '\t'], " "));
                }
                Err(Found::NoAnswer(m)) => report += &format!("noanswer\t{}\t{}\n", p.show(), m),
            }
            let parse = p.threads.iter().flatten().any(|o| o.starts_with("parse"));
            let f = families
                .entry(format!("{} threads {}, {}", p.threads.len(), if parse { "parsing" } else { "of names" }, if kept > 90 { "all".into() } else { format!("{} preemptions", kept) }))
                .or_default();
            f.0 += 1;
            f.1 += t.schedules - before;
            if i % 97 == 0 {
                report += &format!("sample\t{} ({} schedules)\n", p.show(), t.schedules - before);
            }
        }
        for (k, v) in &families {
            report += &format!("family\t{}\t{}\t{}\n", k, v.0, v.1);
        }
        report += &format!("n\tschedules\t{}\nn\tsteps\t{}\nn\tpoints\t{}\nn\trestarts\t{}\nn\tprograms with a lowered bound\t{}\n", t.schedules, t.steps, t.points, t.restarts, t.lowered);
        report += &format!("max\t{}\n", t.memory);
        for (k, v) in KINDS.iter().zip(t.kinds) {
            report += &format!("n\tpoints: {}\t{}\n", k, v);
        }
        for (k, v) in t.preempted.iter().enumerate() {
            report += &format!("n\tschedules with {}{} preemptions\t{}\n", k, if k == 5 { " or more" } else { "" }, v);
        }
        for o in &t.outcomes {
            report += &format!("outcome\t{}\n", o);
        }
        std::fs::write(format!("{}/w{}", dir, w), report).expect("report");
        unsafe { libc::_exit(0) };
    }
    let mut broken: Vec<String> = vec![];
    let mut wrong: Vec<(String, String)> = vec![];
    for (w, (pid, flight)) in pids.iter().enumerate() {
        match how(*pid) {
            Ok(0) => {}
            Ok(c) => broken.push(format!("worker {} ended with code {}", w, c)),
            Err(n) => {
                // SAFETY: its writer has ended.
                let f = unsafe { &**flight };
                let p = &all[f.program].1;
                if n == libc::SIGALRM || n == libc::SIGKILL {
                    broken.push(format!("{}: no end under the choices {:?}", p.show(), &f.choices[..f.len]));
                } else {
                    let file = format!("{}/lost{}.txt", dir, w);
                    std::fs::write(&file, encode(p, &f.choices[..f.len], f.within)).expect("case");
                    wrong.push((file, format!("the process dies of signal {}", n)));
                }
            }
        }
    }
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut families: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let (mut samples, mut outcomes, mut memory) = (vec![], BTreeSet::new(), 0);
    for w in 0..workers {
        for l in std::fs::read_to_string(format!("{}/w{}", dir, w)).unwrap_or_default().lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "wrong" => wrong.push((f[1].into(), f[2].into())),
                "noanswer" => broken.push(format!("{}: {}", f[1], f[2])),
                "sample" => samples.push(f[1].to_string()),
                "n" => *stats.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0),
                "max" => memory = memory.max(f[1].parse::<u64>().unwrap_or(0)),
                "outcome" => {
                    outcomes.insert(f[1].to_string());
                }
                "family" => {
                    let e = families.entry(f[1].into()).or_default();
                    e.0 += f[2].parse::<u64>().unwrap_or(0);
                    e.1 += f[3].parse::<u64>().unwrap_or(0);
                }
                _ => {}
            }
        }
    }
    // each violation once more, from its file
    let replays = format!("{}/evidence/replay", ROOT);
    std::fs::create_dir_all(&replays).expect("replay dir");
    let mut confirmed = vec![];
    wrong.sort_by_key(|w| std::fs::metadata(&w.0).map_or(u64::MAX, |m| m.len()));
    for (f, m) in wrong.iter().take(4) {
        let again = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", f]).output().expect("replay");
        if again.status.code() == Some(1) {
            let to = format!("{}/C16-v{}.txt", replays, confirmed.len());
            std::fs::copy(f, &to).expect("copy");
            println!("VIOLATION property=C16 replay={}", to);
            println!("  {}", m.chars().take(1500).collect::<String>());
            println!("  {}", std::fs::read_to_string(&to).unwrap_or_default().replace('\n', " | "));
            confirmed.push(to);
        } else {
            broken.push(format!("a violation that does not repeat: {} [{}]", m, std::fs::read_to_string(f).unwrap_or_default().replace('\n', " | ")));
        }
    }
    for b in broken.iter().take(20) {
        eprintln!("error: {}", b);
    }
    let g = |k: &str| stats.get(k).copied().unwrap_or(0);
    let mut cov = vec![
        ("states".to_string(), g("steps").to_string()),
        ("transitions".into(), g("points").to_string()),
        ("traces_validated_against_impl".into(), g("schedules").to_string()),
        ("programs".into(), all.len().to_string()),
        ("distinct_outcomes".into(), outcomes.len().to_string()),
        ("written static memory (8-byte units)".into(), memory.to_string()),
        ("exhaustive".into(), "true".into()),
        ("explanation".into(), js("every program of threads below is run under every interleaving with up to the stated number of preemptions. The code run is the library's own source, compiled against a std whose locks, once-cells, atomics, condition variables and yields are scheduling points, and whose accesses to static memory that threads write are scheduling points too; each execution starts from the same state, as a fresh process would. states: decisions between threads (nodes of the tree of schedules); transitions: scheduling points passed; traces: complete schedules executed. In each, every value is compared with what the operation obtains alone, equal names must be equal and share their storage, and the interner must go on working afterwards; no deadlock, livelock, panic or crash")),
    ];
    for (k, v) in &stats {
        if !["steps", "points", "schedules"].contains(&k.as_str()) {
            cov.push((k.clone(), v.to_string()));
        }
    }
    let fam: Vec<String> = families.iter().map(|(k, v)| format!("{}: {}", js(k), js(&format!("{} programs, {} schedules", v.0, v.1)))).collect();
    cov.push(("bounds".into(), format!("{{{}}}", fam.join(", "))));
    samples.truncate(24);
    cov.push(("samples".into(), format!("[{}]", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))));
    let body: Vec<String> = cov.iter().map(|(k, v)| format!("    {}: {}", js(k), v)).collect();
    let ev = format!(
        "{{\n  \"property\": \"C16\",\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n{}\n  }},\n  \"assumptions\": [\"sequentially consistent memory\", \"scheduling decisions are taken at synchronisation operations and at accesses to static memory that is written while threads run, not at accesses to the heap\"],\n  \"violations\": {},\n  \"wall_s\": {:.1}\n}}\n",
        js(tier),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        body.join(",\n"),
        confirmed.len(),
        t0.elapsed().as_secs_f64()
    );
    std::fs::create_dir_all(format!("{}/evidence", ROOT)).expect("evidence dir");
    std::fs::write(format!("{}/evidence/C16.json", ROOT), ev).expect("evidence");
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "C16 {}: programs={} schedules={} decisions={} points={} outcomes={} violations={} wall={:.1}s",
        tier, all.len(), g("schedules"), g("steps"), g("points"), outcomes.len(), confirmed.len(), t0.elapsed().as_secs_f64()
    );
    if !confirmed.is_empty() {
        1
    } else if !broken.is_empty() || g("schedules") == 0 {
        2
    } else {
        0
    }
}
