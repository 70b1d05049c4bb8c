//! Shared monitoring runtime: event accounting, verdicts, evidence and replay files.
#![allow(clippy::all)]
use once_cell::sync::Lazy;
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod big;
pub mod refs;
pub mod zk;
pub mod adv;
pub mod work;

pub type R = ChaCha20Rng;

#[derive(Default)]
struct Kind {
    evals: u64,
    nontrivial: HashSet<u64>,
    sample: Option<String>,
}

struct Inner {
    kinds: BTreeMap<String, Kind>,
    viols: Vec<(String, String)>,
    viol_counts: BTreeMap<String, u64>,
    known_hit: BTreeMap<String, (String, u64)>,
    required: BTreeMap<String, u64>,
    notes: Vec<String>,
    assumptions: Vec<String>,
    open: Vec<String>,
}

#[derive(Clone)]
pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub budget: Duration,
    /// Only run sections whose name contains this (for replays).
    pub only: Option<String>,
    known: Arc<Vec<(String, String)>>,
    ticks: Arc<std::sync::atomic::AtomicU64>,
    inner: Arc<Mutex<Inner>>,
}

static LAST_PANIC: Lazy<Mutex<String>> = Lazy::new(|| Mutex::new(String::new()));

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn payload(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Run `f`, turning a panic of the code under test into an error text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clear();
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let at = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let mut s = payload(&p);
        s.truncate(300);
        format!("{} [{}]", s, at)
    })
}

/// CPU seconds used by this process.
pub fn rss_gb() -> f64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) * 4096.0 / 1e9
}

fn cpu_s() -> f64 {
    let t = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = t.rsplit(')').next().unwrap_or("").to_string();
    let v: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| v.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

pub fn verif_dir() -> String {
    std::env::var("VMON_VERIF").unwrap_or_else(|_| "/verif".into())
}

impl Ctx {
    pub fn new(prop: &str) -> Ctx {
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
        let thorough = tier == "thorough";
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if let Ok(mut g) = LAST_PANIC.lock() {
                if g.is_empty() {
                    *g = loc.clone();
                }
            }
            if std::env::var("VMON_PANICS").is_ok() {
                eprintln!("panic: {}", info);
            }
        }));
        let mut known = Vec::new();
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
            for l in t.lines() {
                let l = l.trim();
                if let Some(r) = l.strip_prefix(&format!("known: property={} sig=", prop)) {
                    let mut it = r.splitn(2, ' ');
                    known.push((it.next().unwrap().to_string(), it.next().unwrap_or("").to_string()));
                }
            }
        }
        let budget_s: u64 = std::env::var("VMON_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1200 } else { 60 });
        let ctx = Ctx {
            prop: prop.to_string(),
            thorough,
            seed,
            start: Instant::now(),
            budget: Duration::from_secs(budget_s),
            only: std::env::var("VMON_ONLY").ok(),
            known: Arc::new(known),
            ticks: Default::default(),
            inner: Arc::new(Mutex::new(Inner {
                kinds: BTreeMap::new(),
                viols: Vec::new(),
                viol_counts: BTreeMap::new(),
                known_hit: BTreeMap::new(),
                required: BTreeMap::new(),
                notes: Vec::new(),
                assumptions: Vec::new(),
                open: Vec::new(),
            })),
        };
        // Watchdog. Silence (no oracle evaluation for `silent` seconds) while the process keeps burning CPU
        // is a hang of the code under test, which is a violation of every property here (results must be
        // produced). Running out of wall clock otherwise is inconclusive (exit 3).
        let hard = if thorough { 4 * 3600 } else { 780 };
        let silent = if thorough { 1500 } else { 240 };
        let c2 = ctx.clone();
        std::thread::spawn(move || {
            let mut last = (0u64, Instant::now(), cpu_s());
            loop {
                for _ in 0..12 {
                    std::thread::sleep(Duration::from_millis(250));
                    let gb = rss_gb();
                    if gb > 14.0 {
                        c2.viol("memory", format!("{:.1} GB resident (the whole workload needs a few): the code under test builds a result without end; last sections: {:?}", gb, c2.lock().open));
                        c2.finish();
                    }
                }
                let n = c2.ticks.load(std::sync::atomic::Ordering::Relaxed);
                if n != last.0 {
                    last = (n, Instant::now(), cpu_s());
                }
                let cpu = cpu_s() - last.2;
                if last.1.elapsed().as_secs() >= silent && cpu > silent as f64 * 0.75 {
                    c2.viol("hang", format!("no result observed for {} s ({} CPU-s spent): the code under test does not terminate; last sections: {:?}", silent, cpu, c2.lock().open));
                    c2.finish();
                }
                if c2.start.elapsed().as_secs() > hard {
                    let have = !c2.lock().viols.is_empty();
                    if have {
                        c2.finish();
                    }
                    println!("INCONCLUSIVE property={} watchdog, open sections {:?}", c2.prop, c2.lock().open);
                    std::process::exit(3);
                }
            }
        });
        ctx
    }

    fn lock(&self) -> std::sync::MutexGuard<Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Sign of life for the hang detector.
    pub fn tick(&self) {
        self.ticks.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }

    /// Deterministic generator for one stream of this run's workload.
    pub fn rng(&self, stream: &str) -> R {
        let mut s = [0u8; 32];
        let h = blake3::hash(format!("{}|{}|{}", self.prop, self.seed, stream).as_bytes());
        s.copy_from_slice(h.as_bytes());
        R::from_seed(s)
    }

    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn time_left(&self) -> bool {
        self.start.elapsed() < self.budget
    }

    /// Record one oracle evaluation. `key` identifies the case; trivial cases are not counted distinct.
    pub fn ev<K: Hash + ?Sized>(&self, kind: &str, key: &K, nontrivial: bool) {
        let h = h64(key);
        self.tick();
        let mut g = self.lock();
        let k = match g.kinds.get_mut(kind) {
            Some(k) => k,
            None => g.kinds.entry(kind.to_string()).or_default(),
        };
        k.evals += 1;
        if nontrivial {
            k.nontrivial.insert(h);
        }
    }

    /// Record many evaluations at once.
    pub fn evn(&self, kind: &str, evals: u64, keys: &[u64]) {
        self.tick();
        let mut g = self.lock();
        let k = g.kinds.entry(kind.to_string()).or_default();
        k.evals += evals;
        k.nontrivial.extend(keys.iter().copied());
    }

    pub fn sample(&self, kind: &str, s: impl FnOnce() -> String) {
        let mut g = self.lock();
        let k = g.kinds.entry(kind.to_string()).or_default();
        if k.sample.is_none() {
            let mut t = s();
            if t.len() > 600 {
                let mut c = 600;
                while !t.is_char_boundary(c) {
                    c -= 1;
                }
                t.truncate(c);
            }
            k.sample = Some(t);
        }
    }

    /// A run that observes fewer than `min` evaluations of this kind is inconclusive.
    pub fn require(&self, kind: &str, min: u64) {
        self.lock().required.insert(kind.to_string(), min);
    }

    pub fn note(&self, s: impl Into<String>) {
        self.lock().notes.push(s.into());
    }

    pub fn assume(&self, s: &str) {
        self.lock().assumptions.push(s.into());
    }

    pub fn viol(&self, sig: &str, detail: impl Into<String>) {
        let detail = detail.into();
        let mut g = self.lock();
        if let Some((_, text)) = self.known.iter().find(|(s, _)| s == sig) {
            let e = g.known_hit.entry(sig.to_string()).or_insert((text.clone(), 0));
            e.1 += 1;
            return;
        }
        let c = g.viol_counts.entry(sig.to_string()).or_insert(0);
        *c += 1;
        if *c <= 3 && g.viols.len() < 60 {
            eprintln!("  violation: {} :: {}", sig, &detail.chars().take(400).collect::<String>());
            g.viols.push((sig.to_string(), detail));
        }
    }

    pub fn check(&self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.viol(sig, detail());
        }
        ok
    }

    pub fn eq<T: PartialEq + Debug>(&self, got: &T, want: &T, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if got != want {
            let mut g = format!("{:?}", got);
            let mut w = format!("{:?}", want);
            g.truncate(1500);
            w.truncate(1500);
            self.viol(sig, format!("{} got={} want={}", detail(), g, w));
            return false;
        }
        true
    }

    /// A block of the workload in which the code under test is only used validly: a panic there is a
    /// violation (a crash on valid input), with the panic message as its witness.
    pub fn section(&self, name: &str, f: impl FnOnce(&Ctx)) {
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        let t = Instant::now();
        self.lock().open.push(name.to_string());
        let r = guard(|| f(self));
        self.lock().open.retain(|x| x != name);
        if let Err(e) = r {
            self.viol(&format!("crash:{}", name), format!("section {} crashed on valid use: {}", name, e));
        }
        if std::env::var("VMON_TIMES").is_ok() {
            eprintln!("[{:7.2}s] {} ({:.2}s)", self.start.elapsed().as_secs_f64(), name, t.elapsed().as_secs_f64());
        }
    }

    /// One case of valid use; a crash is a violation naming the case.
    pub fn case<T>(&self, sig: &str, desc: impl Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(t) => Some(t),
            Err(e) => {
                self.viol(&format!("crash:{}", sig), format!("{} crashed: {}", desc(), e));
                None
            }
        }
    }

    pub fn finish(&self) -> ! {
        let g = self.lock();
        let evals: u64 = g.kinds.values().map(|k| k.evals).sum();
        let distinct: u64 = g.kinds.values().map(|k| k.nontrivial.len() as u64).sum();
        let mut missing = Vec::new();
        if evals == 0 && self.only.is_none() {
            missing.push("nothing was evaluated".to_string());
        }
        for (k, min) in &g.required {
            let have = g.kinds.get(k).map(|k| k.evals).unwrap_or(0);
            if have < *min && self.only.is_none() {
                missing.push(format!("{}: {} < {}", k, have, min));
            }
        }
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let mut j = String::new();
        j.push_str("{\n");
        j.push_str(&format!(" \"property\": {},\n", js(&self.prop)));
        j.push_str(&format!(" \"tier\": \"{}\",\n", if self.thorough { "thorough" } else { "quick" }));
        j.push_str(&format!(" \"seed\": {},\n \"level\": \"exploration\",\n", self.seed));
        j.push_str(" \"coverage\": {\n");
        j.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", evals, distinct));
        j.push_str(&format!("  \"rule\": {},\n", js("each evaluation is one oracle verdict over one observed execution of the real code; distinct_nontrivial counts distinct case keys (inputs hashed) per kind that exercise more than an identity/empty case; per-kind counts in by_kind")));
        j.push_str("  \"by_kind\": {");
        let items: Vec<String> = g
            .kinds
            .iter()
            .map(|(k, v)| format!("\n   {}: {{\"evaluations\": {}, \"distinct\": {}}}", js(k), v.evals, v.nontrivial.len()))
            .collect();
        j.push_str(&items.join(","));
        j.push_str("\n  },\n  \"samples\": [");
        let items: Vec<String> = g
            .kinds
            .iter()
            .filter_map(|(k, v)| v.sample.as_ref().map(|s| format!("\n   {}", js(&format!("{}: {}", k, s)))))
            .collect();
        j.push_str(&items.join(","));
        j.push_str("\n  ],\n  \"notes\": [");
        j.push_str(&g.notes.iter().map(|n| js(n)).collect::<Vec<_>>().join(", "));
        j.push_str("],\n  \"known_findings_observed\": [");
        j.push_str(&g.known_hit.iter().map(|(s, (t, n))| js(&format!("{} x{} {}", s, n, t))).collect::<Vec<_>>().join(", "));
        j.push_str("]\n },\n \"assumptions\": [");
        let a: BTreeSet<_> = g.assumptions.iter().collect();
        j.push_str(&a.iter().map(|n| js(n)).collect::<Vec<_>>().join(", "));
        let nviol: u64 = g.viol_counts.values().sum();
        j.push_str(&format!("],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", self.start.elapsed().as_secs_f64(), nviol));
        if self.only.is_none() {
            let _ = std::fs::write(format!("{}/{}.json", dir, self.prop), j);
        }
        for (s, (t, n)) in &g.known_hit {
            println!("KNOWN-FINDING: property={} {} [{} x{}]", self.prop, t, s, n);
        }
        if !g.viols.is_empty() {
            let rd = format!("{}/replay", dir);
            let _ = std::fs::create_dir_all(&rd);
            for (i, (sig, detail)) in g.viols.iter().enumerate() {
                let p = format!("{}/{}-{}.txt", rd, self.prop, i);
                let _ = std::fs::write(
                    &p,
                    format!(
                        "property={}\nsignature={}\nseed={}\ntier={}\nrerun: cd /verif && VERIF_SEED={} VERIF_TIER={} ./check.sh {}\n\n{}\n",
                        self.prop, sig, self.seed, if self.thorough { "thorough" } else { "quick" }, self.seed,
                        if self.thorough { "thorough" } else { "quick" }, self.prop, detail
                    ),
                );
                if i < 8 {
                    println!("  {}: {}", sig, detail.chars().take(300).collect::<String>());
                    println!("VIOLATION property={} replay={}", self.prop, p);
                }
            }
            std::process::exit(1);
        }
        if !missing.is_empty() {
            println!("INCONCLUSIVE property={} observed too little: {}", self.prop, missing.join("; "));
            std::process::exit(3);
        }
        println!("OK property={} evaluations={} distinct={} wall={:.1}s", self.prop, evals, distinct, self.start.elapsed().as_secs_f64());
        std::process::exit(0)
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Run `f(0) .. f(n - 1)` on threads of their own and wait for them. (The compiler is older than scoped threads.)
pub fn on_threads(n: usize, f: impl Fn(usize) + Sync) {
    let f: &(dyn Fn(usize) + Sync) = &f;
    // the threads are joined before this returns, so the borrow outlives them
    let f: &'static (dyn Fn(usize) + Sync) = unsafe { std::mem::transmute(f) };
    let hs: Vec<_> = (0..n).map(|k| std::thread::Builder::new().stack_size(16 << 20).spawn(move || f(k)).expect("thread")).collect();
    let mut bad = false;
    for h in hs {
        bad |= h.join().is_err();
    }
    if bad {
        panic!("a thread of the harness panicked");
    }
}
