//! Shared machinery: deterministic randomness, verdict bookkeeping, panic capture.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::time::{Duration, Instant};

/// splitmix64: every random choice of a workload derives from VERIF_SEED through this.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn hex(&mut self, n: usize) -> String {
        (0..n).map(|_| char::from(b"0123456789abcdef"[self.below(16)])).collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

#[derive(Clone)]
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub deadline: Instant,
    pub work: PathBuf,
    pub bins: PathBuf,
    pub asan_bins: Option<PathBuf>,
}

impl Ctx {
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline
    }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    #[allow(unused)]
    pub fn remaining(&self) -> Duration {
        self.deadline.saturating_duration_since(Instant::now())
    }
}

pub struct Violation {
    /// A stable signature: which clause of the oracle failed, on what kind of case.
    pub sig: String,
    pub detail: serde_json::Value,
}

/// What one check run observed.
pub struct Report {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub violations: Vec<Violation>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub inconclusive: Option<String>,
    sample_cap: usize,
}

impl Report {
    pub fn new(rule: &str) -> Self {
        Report {
            evaluations: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            rule: rule.to_string(),
            assumptions: vec![],
            inconclusive: None,
            sample_cap: 6,
        }
    }
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn distinct<T: Hash>(&mut self, t: T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.distinct.insert(h.finish());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> serde_json::Value) {
        if self.samples.len() < self.sample_cap {
            self.samples.push(f());
        }
    }
    pub fn violate(&mut self, sig: impl Into<String>, detail: serde_json::Value) {
        let sig = sig.into();
        // keep at most a few witnesses per clause
        if self.violations.iter().filter(|v| v.sig == sig).count() < 3 {
            self.violations.push(Violation { sig, detail });
        }
    }
    /// Too few observations of something the oracle depends on makes the run inconclusive.
    pub fn require(&mut self, k: &str, at_least: u64) {
        let have = self.counters.get(k).copied().unwrap_or(0);
        if have < at_least && self.inconclusive.is_none() {
            self.inconclusive = Some(format!("observed only {have} of '{k}', need {at_least}"));
        }
    }
    pub fn to_json(&self) -> serde_json::Value {
        serde_json::json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct.len(),
            "counters": self.counters,
            "samples": self.samples,
            "rule": self.rule,
            "assumptions": self.assumptions,
            "inconclusive": self.inconclusive,
            "violations": self.violations.iter().map(|v| serde_json::json!({"sig": v.sig, "detail": v.detail})).collect::<Vec<_>>(),
        })
    }
}

/// Runs code of the system under test; a panic becomes an `Err` with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

/// Makes `at` a link to the device that is always full. The link keeps what the code under test does to the path - removing it,
/// renaming another file to it - within the scratch directory. False if there is no such device here.
pub fn full_device(at: &std::path::Path) -> bool {
    use std::os::unix::fs::{FileTypeExt, MetadataExt};
    let _ = std::fs::remove_file(at);
    std::fs::metadata("/dev/full").is_ok_and(|m| m.file_type().is_char_device() && (m.rdev() >> 8, m.rdev() & 0xff) == (1, 7))
        && std::os::unix::fs::symlink("/dev/full", at).is_ok()
}
