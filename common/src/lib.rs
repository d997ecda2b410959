//! Shared by all harness binaries: PRNG, verdict plumbing, statistics, panic capture.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// SplitMix64: every random choice of the harness derives from VERIF_SEED through it.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed, 0xA5A5_5A5A))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n` (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        (((self.next() >> 32) * n as u64) >> 32) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() {
            let j = self.below(i + 1);
            s.swap(i, j);
        }
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
}

/// A refuted property: which oracle fired and what it saw.
#[derive(Clone, Debug)]
pub struct Viol {
    pub oracle: &'static str,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Viol>;

pub fn viol<T>(oracle: &'static str, msg: impl Into<String>) -> Res<T> {
    Err(Viol { oracle, msg: msg.into() })
}

/// Counts of what the monitors observed, plus distinct non-trivial observations.
#[derive(Default, Debug)]
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, u64>,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxes.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// One evaluation of the deciding oracle; `sig` identifies the situation it decided.
    pub fn eval(&mut self, sig: Option<u64>) {
        self.evaluations += 1;
        if let Some(sig) = sig {
            if self.distinct.len() < 400_000 {
                self.distinct.insert(sig);
            }
        }
    }
    pub fn sample(&mut self, max: usize, f: impl FnOnce() -> String) {
        if self.samples.len() < max {
            let s = f();
            self.samples.push(s);
        }
    }
}

/// FNV-1a over u64 words.
#[derive(Clone, Copy)]
pub struct Hash64(pub u64);
impl Default for Hash64 {
    fn default() -> Self {
        Hash64(0xcbf2_9ce4_8422_2325)
    }
}
impl Hash64 {
    pub fn add(&mut self, x: u64) -> &mut Self {
        self.0 = mix(self.0, x.wrapping_add(1));
        self
    }
    pub fn str(&mut self, s: &str) -> &mut Self {
        for b in s.bytes() {
            self.add(u64::from(b));
        }
        self
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Marker payload for panics the harness injects itself.
pub struct Injected;

/// Installs a hook that records message and location instead of printing.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().is::<Injected>() {
            "injected".to_string()
        } else {
            "<payload>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if msg.starts_with("unsafe precondition") || msg.starts_with("panic in a") {
            // The process is about to be aborted.
            eprintln!("fatal panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

#[derive(Debug, Clone)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
    pub injected: bool,
}

impl Panicked {
    /// True if the panic was raised by harness source code (a harness bug, never a verdict).
    pub fn in_harness(&self) -> bool {
        let l = self.loc.as_str();
        l.starts_with("src/") || l.starts_with("/verif/") || l.contains("/vcommon/") || l.starts_with("../common/")
    }
}

/// Runs `f`, turning a panic into data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(payload) => {
            let injected = payload.is::<Injected>();
            let (msg, loc) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("<panic on another thread>".into(), String::new()));
            drop(payload);
            Err(Panicked { msg, loc, injected })
        }
    }
}

/// A cheap hasher; the standard one dominates interpreted runs.
#[derive(Default, Clone, Copy)]
pub struct Mul(u64);
impl std::hash::Hasher for Mul {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x.into());
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x.into());
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64);
    }
}

pub type HashMap<K, V> = std::collections::HashMap<K, V, std::hash::BuildHasherDefault<Mul>>;
pub type HashSet<K> = std::collections::HashSet<K, std::hash::BuildHasherDefault<Mul>>;

/// Environment of one harness process.
#[derive(Clone, Debug)]
pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    pub scale: u64,
    /// Which of several workloads of a check to run.
    pub part: String,
    pub out: Option<String>,
    pub progress: Option<String>,
    pub secs: u64,
    pub started: std::time::Instant,
}

impl Env {
    pub fn from_env() -> Self {
        let g = |k: &str| std::env::var(k).ok();
        let n = |k: &str, d: u64| g(k).and_then(|v| v.parse().ok()).unwrap_or(d);
        Env {
            seed: n("VERIF_SEED", 1),
            thorough: g("VERIF_TIER").as_deref() == Some("thorough"),
            shard: n("VH_SHARD", 0),
            shards: n("VH_SHARDS", 1),
            scale: n("VH_SCALE", 100),
            part: g("VH_PART").unwrap_or_default(),
            out: g("VH_OUT"),
            progress: g("VH_PROGRESS"),
            secs: n("VH_SECS", 600),
            started: std::time::Instant::now(),
        }
    }
    pub fn out_of_time(&self) -> bool {
        self.started.elapsed().as_secs() >= self.secs
    }
    /// `base` cases scaled by VH_SCALE percent, at least one.
    pub fn cases(&self, base: u64) -> u64 {
        (base * self.scale / 100).max(1)
    }
    pub fn note_case(&self, what: &str) {
        if let Some(p) = &self.progress {
            let _ = std::fs::write(p, what);
        }
    }
}

pub fn report_json(status: &str, viol: Option<(&Viol, &str, &str)>, stats: &Stats) -> String {
    let mut o = String::from("{");
    let _ = write!(o, "\"status\":{}", json_str(status));
    if let Some((v, case, replay)) = viol {
        let _ = write!(
            o,
            ",\"oracle\":{},\"message\":{},\"case\":{},\"replay\":{}",
            json_str(v.oracle),
            json_str(&v.msg),
            json_str(case),
            json_str(replay)
        );
    }
    let _ = write!(o, ",\"evaluations\":{}", stats.evaluations);
    o.push_str(",\"counts\":{");
    for (i, (k, v)) in stats.counts.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, json_str(k), v);
    }
    o.push_str("},\"maxes\":{");
    for (i, (k, v)) in stats.maxes.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, json_str(k), v);
    }
    o.push_str("},\"samples\":[");
    for (i, s) in stats.samples.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, json_str(s));
    }
    // Distinct signatures are merged across shards by the driver, which reads them as hex.
    o.push_str("],\"distinct_hex\":\"");
    let mut n = 0;
    for d in &stats.distinct {
        if n >= 400_000 {
            break;
        }
        let _ = write!(o, "{d:016x}");
        n += 1;
    }
    let _ = write!(o, "\",\"distinct_local\":{}", stats.distinct.len());
    o.push('}');
    o
}

pub fn emit(env: &Env, json: &str) {
    match &env.out {
        Some(p) => {
            let _ = std::fs::write(p, json);
        }
        None => println!("{}", if json.len() > 4000 { &json[..4000] } else { json }),
    }
}
