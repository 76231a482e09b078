//! Worker-side bookkeeping: sharding, deduplication, counters, in-flight case, violations.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug)]
pub struct Case {
    /// what kind of replay this is ("parse", or a check-specific tag)
    pub kind: String,
    /// ordered fields, replayable
    pub fields: Vec<(String, String)>,
}
impl Case {
    pub fn parse(nt: &str, text: &str) -> Case {
        Case { kind: "parse".into(), fields: vec![("entry".into(), nt.into()), ("text".into(), text.into())] }
    }
    pub fn new(kind: &str, f: &[(&str, String)]) -> Case {
        Case { kind: kind.into(), fields: f.iter().map(|(k, v)| (k.to_string(), v.clone())).collect() }
    }
    pub fn get(&self, k: &str) -> &str {
        self.fields.iter().find(|f| f.0 == k).map(|f| f.1.as_str()).unwrap_or("")
    }
    /// Identity of the case, as listed in known_findings.txt.
    pub fn key(&self) -> String {
        let mut k = self.kind.clone();
        for (_, v) in self.fields.iter().filter(|f| !f.0.starts_with('~')) {
            k += "/";
            k += &esc(v);
        }
        k
    }
    pub fn encode(&self) -> String {
        let mut s = format!("kind {}\n", esc(&self.kind));
        for (k, v) in &self.fields {
            s += &format!("{} {}\n", k, esc(v));
        }
        s
    }
    pub fn decode(s: &str) -> Option<Case> {
        let mut c = Case { kind: String::new(), fields: vec![] };
        for l in s.lines() {
            if l.is_empty() {
                continue;
            }
            let (k, v) = l.split_once(' ')?;
            if k == "kind" {
                c.kind = unesc(v);
            } else {
                c.fields.push((k.to_string(), unesc(v)));
            }
        }
        if c.kind.is_empty() {
            None
        } else {
            Some(c)
        }
    }
}
pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\x{:02x}", c as u32),
            c => o.push(c),
        }
    }
    o
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                o.push(u8::from_str_radix(&h, 16).unwrap_or(b'?') as char);
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}
pub fn hash<H: Hash + ?Sized>(x: &H) -> u64 {
    let mut h = Fx(0);
    x.hash(&mut h);
    h.finish()
}
pub struct Fx(pub u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x) ^ ((c.len() as u64) << 56));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64 + 0x9e37)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^ (x >> 29)
    }
}

/// The file shared with the supervisor: a progress counter and the case in flight.
pub struct Flight {
    base: *mut u8,
    cap: usize,
}
pub const FLIGHT_BYTES: usize = 8 << 20;
impl Flight {
    pub fn open(path: &str) -> Flight {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("flight file");
        f.set_len(FLIGHT_BYTES as u64).expect("flight size");
        // SAFETY: maps a regular file of the mapped length; the mapping lives as long as the process.
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), FLIGHT_BYTES, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Flight { base: p as *mut u8, cap: FLIGHT_BYTES - 16 }
    }
    fn word(&self, i: usize) -> &AtomicU64 {
        // SAFETY: the first 16 bytes of the page-aligned mapping are two aligned words.
        unsafe { &*(self.base.add(8 * i) as *const AtomicU64) }
    }
    pub fn beat(&self) {
        self.word(0).fetch_add(1, Ordering::Relaxed);
    }
    pub fn beats(&self) -> u64 {
        self.word(0).load(Ordering::Relaxed)
    }
    pub fn set(&self, s: &str) {
        if s.len() > self.cap {
            self.word(1).store(0, Ordering::Relaxed);
            return;
        }
        // SAFETY: bounded by the mapping.
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), self.base.add(16), s.len()) };
        self.word(1).store(s.len() as u64, Ordering::Relaxed);
    }
    pub fn get(&self) -> String {
        let n = (self.word(1).load(Ordering::Relaxed) as usize).min(self.cap);
        // SAFETY: bounded by the mapping; the writer is dead or stuck.
        let b = unsafe { std::slice::from_raw_parts(self.base.add(16), n) };
        String::from_utf8_lossy(b).into_owned()
    }
}

/// The listed findings of a property: key -> description.
pub fn load_known(prop: &str) -> HashMap<String, String> {
    let mut m = HashMap::new();
    let text = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    for l in text.lines() {
        // finding: property=<id> key=<key> :: <what fails>
        // (configurations are only compared with each other: findings of any property are the same in all)
        let r = match prop {
            "C22" => l.strip_prefix("finding: property=").and_then(|r| r.split_once(" key=")).map(|r| r.1),
            _ => l.strip_prefix(&format!("finding: property={} key=", prop)),
        };
        if let Some(r) = r {
            if let Some((k, d)) = r.split_once(" :: ") {
                m.insert(k.to_string(), d.to_string());
            }
        }
    }
    m
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub shard: u64,
    pub nshards: u64,
    pub flight: Option<Flight>,
    pub seen: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub stats: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, String>,
    pub samples: Vec<String>,
    pub violations: Vec<(Case, String)>,
    pub vkeys: HashMap<String, u64>,
    pub known: HashMap<String, String>,
    pub known_hit: HashSet<String>,
    k: u64,
    since: std::time::Instant,
}
impl Ctx {
    /// Attributes the time since the last call to the part of the exploration that just ended.
    pub fn phase(&mut self, name: &str) {
        let ms = self.since.elapsed().as_millis() as u64;
        self.add(&format!("worker_ms {}", name), ms);
        self.since = std::time::Instant::now();
    }
    pub fn new(prop: &str, thorough: bool, shard: u64, nshards: u64, flight: Option<Flight>) -> Ctx {
        Ctx {
            prop: prop.into(),
            thorough,
            shard,
            nshards,
            flight,
            seen: HashSet::new(),
            outcomes: HashSet::new(),
            stats: BTreeMap::new(),
            notes: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            vkeys: HashMap::new(),
            known: load_known(prop),
            known_hit: HashSet::new(),
            k: 0,
            since: std::time::Instant::now(),
        }
    }
    pub fn add(&mut self, k: &str, v: u64) {
        if let Some(x) = self.stats.get_mut(k) {
            *x += v
        } else {
            self.stats.insert(k.to_string(), v);
        }
    }
    /// Round-robin ownership of the next case.
    pub fn mine(&mut self) -> bool {
        self.k += 1;
        self.tick();
        self.k % self.nshards == self.shard
    }
    /// Ownership by content, with deduplication: true the first time this shard owns the hash.
    pub fn fresh(&mut self, h: u64) -> bool {
        self.tick();
        h % self.nshards == self.shard && self.seen.insert(h)
    }
    /// Signals progress between cases.
    pub fn tick(&mut self) {
        if let Some(f) = &self.flight {
            f.beat();
        }
    }
    /// Records the case about to run, so that an abort or hang can be attributed.
    pub fn in_flight(&mut self, c: &Case) {
        if let Some(f) = &self.flight {
            let mut e = c.encode();
            if crate::props::features::config() != "on" {
                e += &format!("~config {}\n", crate::props::features::config());
            }
            f.set(&e);
            f.beat();
        }
    }
    pub fn in_flight_parse(&mut self, nt: &str, text: &str) {
        if let Some(f) = &self.flight {
            f.set(&format!("kind parse\nentry {}\ntext {}\n{}", nt, esc(text), if cfg!(feature = "interning") { "" } else { "~config off\n" }));
            f.beat();
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        let n = self.stats.get("traces").copied().unwrap_or(0);
        if self.samples.len() < 2 || (n.is_power_of_two() && self.samples.len() < 8) {
            let x = s();
            self.samples.push(x);
        }
    }
    pub fn violation(&mut self, mut c: Case, msg: String) {
        if crate::props::features::config() != "on" {
            c.fields.push(("~config".into(), crate::props::features::config().into()));
        }
        if self.known.contains_key(&c.key()) {
            self.known_hit.insert(c.key());
            return;
        }
        self.add("violating", 1);
        if self.violations.len() < 40 {
            // keep variety: at most 3 per (kind, entry)
            let key = format!("{}/{}{}", c.kind, c.get("entry"), c.get("~entry"));
            if std::env::var("MC_ALL").is_ok() {
                self.violations.push((c, msg));
                return;
            }
            let k = self.vkeys.entry(key).or_insert(0);
            *k += 1;
            if *k <= 3 {
                self.violations.push((c, msg));
            }
        }
    }
    pub fn report(&self) {
        let mut o = String::new();
        for (k, v) in &self.stats {
            o += &format!("STAT {} {}\n", v, k);
        }
        for (k, v) in &self.notes {
            o += &format!("NOTE {}\t{}\n", k, esc(v));
        }
        o += &format!("STAT {} states\n", self.seen.len());
        for h in self.outcomes.iter().take(200_000) {
            o += &format!("OUT {:x}\n", h);
        }
        for s in &self.samples {
            o += &format!("SAMPLE {}\n", esc(s));
        }
        for k in self.known_hit.iter().filter(|_| self.prop != "C22") {
            o += &format!("KNOWN {}\n", esc(k));
        }
        for (c, m) in &self.violations {
            o += &format!("VIOL {}\t{}\n", esc(&c.encode()), esc(m));
        }
        o += "DONE\n";
        print!("{}", o);
    }
}
/// Runs `f`, turning a panic into Err(message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}
