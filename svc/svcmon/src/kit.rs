//! Things every service monitor needs: configurations, a scripted cache item, small helpers.
use crate::common::Rng;
use futures::future::BoxFuture;
use serde_json::{json, Value};
use std::io::Write;
use std::marker::PhantomData;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicIsize, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use symbolic::common::ByteView;
use symbolicator_service::caches::CacheVersions;
use symbolicator_service::caching::*;
use symbolicator_service::config::Config;
use symbolicator_service::types::Scope;
use tempfile::NamedTempFile;

pub fn rt(threads: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread()
        .worker_threads(threads)
        .max_blocking_threads(64)
        .enable_all()
        .build()
        .unwrap()
}

/// A configuration read the way the real binary reads it, from YAML (JSON is YAML).
pub fn config(v: Value) -> Config {
    serde_yaml::from_str(&v.to_string()).expect("configuration")
}

pub fn config_in(dir: &Path, extra: Value) -> Config {
    let mut v = json!({ "cache_dir": dir });
    if let (Some(a), Some(b)) = (v.as_object_mut(), extra.as_object()) {
        for (k, x) in b {
            a.insert(k.clone(), x.clone());
        }
    }
    config(v)
}

static DIRS: AtomicU64 = AtomicU64::new(0);
pub fn scratch(work: &Path, name: &str) -> PathBuf {
    let d = work.join(format!("{name}{}", DIRS.fetch_add(1, Ordering::SeqCst)));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// All regular files below `dir`, relative to it, with their contents.
pub fn tree(dir: &Path) -> std::collections::BTreeMap<String, Vec<u8>> {
    fn go(base: &Path, d: &Path, out: &mut std::collections::BTreeMap<String, Vec<u8>>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                go(base, &p, out);
            } else if let Ok(b) = std::fs::read(&p) {
                out.insert(p.strip_prefix(base).unwrap().to_string_lossy().into_owned(), b);
            }
        }
    }
    let mut out = Default::default();
    go(dir, dir, &mut out);
    out
}

pub fn scope(s: &str) -> Scope {
    if s == "global" {
        Scope::Global
    } else {
        Scope::Scoped(s.into())
    }
}

pub fn key(scope_: &Scope, text: &str) -> CacheKey {
    use std::fmt::Write;
    let mut b = CacheKey::scoped_builder(scope_);
    b.write_str(text).unwrap();
    b.build()
}

// ---------------------------------------------------------------------------- scripted cache items

pub trait Ver: 'static + Send + Sync {
    const V: CacheVersions;
}

#[derive(Clone, Debug)]
pub enum Out {
    Ok(Vec<u8>),
    Err(CacheError),
    Panic,
}

#[derive(Clone, Debug)]
pub struct Step {
    pub delay: Duration,
    pub out: Out,
    /// bytes left in the temporary file before an error is returned
    pub garbage: usize,
    /// replace the temporary file with a new one, as the documentation allows
    pub swap: bool,
    /// write in several pieces with pauses in between
    pub pieces: usize,
}

impl Step {
    pub fn ok(b: Vec<u8>) -> Self {
        Step { delay: Duration::ZERO, out: Out::Ok(b), garbage: 0, swap: false, pieces: 1 }
    }
    pub fn err(e: CacheError) -> Self {
        Step { delay: Duration::ZERO, out: Out::Err(e), garbage: 0, swap: false, pieces: 1 }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
    Start,
    Done,
    Dropped,
}

pub static SEQ: AtomicU64 = AtomicU64::new(0);
pub fn tick() -> u64 {
    SEQ.fetch_add(1, Ordering::SeqCst)
}

pub struct Plan {
    pub key: String,
    pub steps: Mutex<Vec<Step>>,
    pub calls: AtomicUsize,
    pub running: AtomicUsize,
    pub max_running: AtomicUsize,
    pub done: AtomicUsize,
    pub dropped: AtomicUsize,
    pub log: Mutex<Vec<(u64, usize, What)>>,
    pub gate: Option<tokio::sync::Semaphore>,
    pub use_shared: bool,
    pub fail_load: bool,
}

impl Plan {
    pub fn new(key: &str, steps: Vec<Step>) -> Arc<Self> {
        Arc::new(Self::raw(key, steps))
    }
    pub fn raw(key: &str, steps: Vec<Step>) -> Self {
        Plan {
            key: key.into(),
            steps: Mutex::new(steps),
            calls: AtomicUsize::new(0),
            running: AtomicUsize::new(0),
            max_running: AtomicUsize::new(0),
            done: AtomicUsize::new(0),
            dropped: AtomicUsize::new(0),
            log: Mutex::new(vec![]),
            gate: None,
            use_shared: true,
            fail_load: false,
        }
    }
    pub fn calls(&self) -> usize {
        self.calls.load(Ordering::SeqCst)
    }
    pub fn set(&self, steps: Vec<Step>) {
        *self.steps.lock().unwrap() = steps;
    }
}

pub struct Req<V> {
    pub plan: Arc<Plan>,
    _v: PhantomData<fn() -> V>,
}
impl<V> Clone for Req<V> {
    fn clone(&self) -> Self {
        Req { plan: self.plan.clone(), _v: PhantomData }
    }
}
impl<V> Req<V> {
    pub fn new(plan: &Arc<Plan>) -> Self {
        Req { plan: plan.clone(), _v: PhantomData }
    }
}

struct Run<'a> {
    plan: &'a Plan,
    n: usize,
    finished: bool,
}
impl Drop for Run<'_> {
    fn drop(&mut self) {
        let what = if self.finished { What::Done } else { What::Dropped };
        self.plan.running.fetch_sub(1, Ordering::SeqCst);
        if self.finished { &self.plan.done } else { &self.plan.dropped }.fetch_add(1, Ordering::SeqCst);
        self.plan.log.lock().unwrap().push((tick(), self.n, what));
    }
}

impl<V: Ver> CacheItemRequest for Req<V> {
    type Item = Arc<Vec<u8>>;
    const VERSIONS: CacheVersions = V::V;

    fn compute<'a>(&'a self, temp_file: &'a mut NamedTempFile) -> BoxFuture<'a, CacheContents> {
        Box::pin(async move {
            let plan = &*self.plan;
            let n = plan.calls.fetch_add(1, Ordering::SeqCst);
            let now = plan.running.fetch_add(1, Ordering::SeqCst) + 1;
            plan.max_running.fetch_max(now, Ordering::SeqCst);
            plan.log.lock().unwrap().push((tick(), n, What::Start));
            let mut run = Run { plan, n, finished: false };
            let step = {
                let s = plan.steps.lock().unwrap();
                s[n.min(s.len() - 1)].clone()
            };
            if !step.delay.is_zero() {
                tokio::time::sleep(step.delay).await;
            }
            if let Some(g) = &plan.gate {
                g.acquire().await.unwrap().forget();
            }
            if step.swap {
                let dir = temp_file.path().parent().unwrap().to_owned();
                let mut other = NamedTempFile::new_in(dir)?;
                temp_file.write_all(b"left behind in the file that is swapped out")?;
                std::mem::swap(temp_file, &mut other);
            }
            let r = match &step.out {
                Out::Ok(b) => {
                    let per = b.len().div_ceil(step.pieces.max(1)).max(1);
                    for c in b.chunks(per) {
                        temp_file.write_all(c)?;
                        if step.pieces > 1 {
                            tokio::task::yield_now().await;
                        }
                    }
                    Ok(())
                }
                Out::Err(e) => {
                    temp_file.write_all(&vec![b'g'; step.garbage])?;
                    Err(e.clone())
                }
                Out::Panic => panic!("scripted panic"),
            };
            run.finished = true;
            r
        })
    }

    fn load(&self, data: ByteView<'static>) -> CacheContents<Self::Item> {
        if self.plan.fail_load {
            return Err(CacheError::InternalError);
        }
        Ok(Arc::new(data.to_vec()))
    }

    fn weight(item: &Self::Item) -> u32 {
        item.len() as u32
    }

    fn use_shared_cache(&self) -> bool {
        self.plan.use_shared
    }
}

pub type Entry = CacheContents<Arc<Vec<u8>>>;

pub fn show(e: &Entry) -> String {
    match e {
        Ok(b) => format!("Ok({} bytes: {:?})", b.len(), String::from_utf8_lossy(&b[..b.len().min(48)])),
        Err(e) => format!("Err({e:?})"),
    }
}

/// What the entry of a fresh computation must be.
pub fn expect(o: &Out) -> Entry {
    match o {
        // an empty file stands for this error
        Out::Ok(b) if b.is_empty() => Err(CacheError::NotFound),
        Out::Ok(b) => Ok(Arc::new(b.clone())),
        Out::Err(e) => Err(e.clone()),
        Out::Panic => unreachable!(),
    }
}

pub fn cache(cfg: &Config, name: CacheName, lazy: isize, mem: u64) -> Cache {
    Cache::from_config(name, cfg, cfg.caches.derived.into(), Arc::new(AtomicIsize::new(lazy)), mem).unwrap()
}

/// A cacher that starts out with nothing in memory.
pub fn cacher<V: Ver>(cfg: &Config, mem: u64) -> Arc<Cacher<Req<V>>> {
    Arc::new(Cacher::new(cache(cfg, CacheName::Symcaches, 20, mem), Default::default()))
}

/// Contents no error marker is a prefix of, tagged with what they belong to.
pub fn payload(rng: &mut Rng, tag: &str, max: usize) -> Vec<u8> {
    let n = match rng.below(6) {
        0 => 0,
        1 => rng.below(64),
        2 => max,
        _ => rng.below(max + 1),
    };
    let mut v = format!("=={tag}==").into_bytes();
    v.extend(rng.bytes(n));
    v
}

pub fn message(rng: &mut Rng) -> String {
    let parts = [
        "", " ", "404 Not Found", "malformed", "timeout5s", "permissiondenied", "zażółć gęślą", "\n", "\t\r\n", "downloaderror",
        "unsupported", "{\"json\": [1, 2]}", "🦀", "connection reset by peer", "0", "internal error",
    ];
    let mut s = String::new();
    for _ in 0..rng.below(4) {
        s.push_str(rng.pick(&parts));
    }
    if rng.chance(1, 12) {
        s.push_str(&"long ".repeat(rng.below(5000)));
    }
    s
}

pub fn cache_error(rng: &mut Rng, internal: bool) -> CacheError {
    match rng.below(if internal { 7 } else { 6 }) {
        0 => CacheError::NotFound,
        1 => CacheError::PermissionDenied(message(rng)),
        2 => CacheError::Timeout(match rng.below(5) {
            0 => Duration::ZERO,
            1 => Duration::from_secs(rng.below(400_000_000) as u64),
            2 => Duration::from_millis(rng.below(10_000_000) as u64),
            3 => Duration::from_nanos(rng.next() % 10_000_000_000_000),
            _ => Duration::from_secs(300),
        }),
        3 => CacheError::DownloadError(message(rng)),
        4 => CacheError::Malformed(message(rng)),
        5 => CacheError::Unsupported(message(rng)),
        _ => CacheError::InternalError,
    }
}

/// Waits (up to 20 s) for a condition that must eventually hold.
pub async fn eventually(mut f: impl FnMut() -> bool) -> bool {
    let end = Instant::now() + Duration::from_secs(20);
    loop {
        if f() {
            return true;
        }
        if Instant::now() > end {
            return false;
        }
        tokio::time::sleep(Duration::from_millis(3)).await;
    }
}
