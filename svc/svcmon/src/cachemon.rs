//! C30–C33, C35: the caching layer under concurrency, restarts, crashes, expiry and cleanup.
use crate::common::*;
use crate::kit::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};
use symbolicator_service::caches::{CachePathFormat as F, CacheVersion, CacheVersions};
use symbolicator_service::caching::*;

const fn v(n: u32, f: F) -> CacheVersion {
    CacheVersion::new(n, f)
}
pub struct One;
impl Ver for One {
    const V: CacheVersions = CacheVersions { current: v(1, F::V2), fallbacks: &[], previous: &[] };
}
pub struct Old;
impl Ver for Old {
    const V: CacheVersions = CacheVersions { current: v(1, F::V1), fallbacks: &[], previous: &[] };
}
pub struct Many;
impl Ver for Many {
    const V: CacheVersions = CacheVersions {
        current: v(5, F::V2),
        fallbacks: &[v(4, F::V2), v(2, F::V1)],
        previous: &[v(1, F::V1), v(2, F::V1), v(3, F::V1), v(4, F::V2)],
    };
}
pub struct Two;
impl Ver for Two {
    const V: CacheVersions =
        CacheVersions { current: v(2, F::V2), fallbacks: &[v(1, F::V1)], previous: &[v(0, F::V1), v(1, F::V1)] };
}

// =============================================================================================== C30

pub fn c30(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "each round fires many requests for few keys at one Cacher from a multi-threaded runtime, some of them cancelled at random \
         points or panicking; the scripted item records when its computations start, finish and are dropped. Non-trivial rounds have \
         at least two requesters of one key; distinct ones are told apart by the order of starts, ends and answers",
    );
    let rt = rt(6);
    let mut round = 0u64;
    while ctx.time_left() && round < ctx.scale(150, 100_000) as u64 {
        round += 1;
        let mut rng = Rng::new(ctx.seed.wrapping_mul(7919).wrapping_add(round));
        rt.block_on(coalesce(ctx, &mut rng, &mut rep, round));
        if round % 8 == 0 {
            rt.block_on(independent(ctx, &mut rng, &mut rep));
        }
    }
    rep.require("requests answered", 500);
    rep.require("requests that joined another's computation", 200);
    rep.require("requesters cancelled", 20);
    rep.assumptions.push("in-memory coalescing is moka's entry API, for which a stand-in with the documented semantics is linked".into());
    rep
}

async fn coalesce(ctx: &Ctx, rng: &mut Rng, rep: &mut Report, round: u64) {
    let dir = scratch(&ctx.work, "c30");
    let on_disk = rng.chance(2, 3);
    let cfg = if on_disk { config_in(&dir, json!({})) } else { config(json!({"cache_dir": null})) };
    let mem = if on_disk && rng.chance(1, 3) { 0 } else { 1 << 20 };
    let cacher = cacher::<One>(&cfg, mem);
    let nkeys = 1 + rng.below(4);
    let mut plans = vec![];
    for k in 0..nkeys {
        let tag = format!("r{round}k{k}");
        let panics = rng.chance(1, 10);
        let steps: Vec<Step> = (0..4)
            .map(|n| {
                let mut s = match rng.below(5) {
                    0 => Step::err(cache_error(rng, true)),
                    _ => Step::ok(payload(rng, &format!("{tag}#{n}"), 3000)),
                };
                if n == 0 && panics {
                    s.out = Out::Panic;
                }
                s.delay = Duration::from_micros(rng.below(12_000) as u64);
                s.pieces = 1 + rng.below(4);
                s.swap = rng.chance(1, 4);
                s.garbage = rng.below(100);
                s
            })
            .collect();
        plans.push((Plan::new(&tag, steps), panics));
    }
    let many = 2 + rng.below(24);
    let cancelling = rng.chance(1, 2);
    let mut tasks = vec![];
    for _ in 0..many {
        let k = rng.below(nkeys);
        let (plan, _) = &plans[k];
        let key = key(&scope("s"), &plan.key);
        let req = Req::<One>::new(plan);
        let start = Duration::from_micros(if rng.chance(1, 2) { 0 } else { rng.below(15_000) as u64 });
        let cancel = (cancelling && rng.chance(1, 3)).then(|| Duration::from_micros(rng.below(12_000) as u64));
        let cacher = cacher.clone();
        let h = tokio::spawn(async move {
            tokio::time::sleep(start).await;
            let t0 = tick();
            let fut = cacher.compute_memoized(req, key);
            let r = match cancel {
                Some(d) => tokio::time::timeout(d, fut).await.ok(),
                None => Some(fut.await),
            };
            (t0, tick(), r.map(|e| e.into_contents()))
        });
        tasks.push((k, cancel.is_some(), h));
    }
    let mut answers: Vec<Vec<(u64, u64, Entry)>> = vec![vec![]; nkeys];
    let mut cancelled = vec![0usize; nkeys];
    let mut panicked = vec![0usize; nkeys];
    let mut asked = vec![0usize; nkeys];
    for (k, _, h) in tasks {
        asked[k] += 1;
        match tokio::time::timeout(Duration::from_secs(30), h).await {
            Err(_) => {
                rep.violate("requester never answered", json!({"round": round, "key": k}));
                return;
            }
            Ok(Err(_)) => panicked[k] += 1,
            Ok(Ok((_, _, None))) => cancelled[k] += 1,
            Ok(Ok((a, b, Some(e)))) => answers[k].push((a, b, e)),
        }
    }
    for (k, (plan, panics)) in plans.iter().enumerate() {
        rep.eval();
        let log = plan.log.lock().unwrap().clone();
        let steps = plan.steps.lock().unwrap().clone();
        let calls = plan.calls();
        let done = plan.done.load(Ordering::SeqCst);
        let dropped = plan.dropped.load(Ordering::SeqCst);
        rep.add("requests answered", answers[k].len() as u64);
        rep.add("requesters cancelled", cancelled[k] as u64);
        rep.add("computations", calls as u64);
        rep.add("computations cut short", dropped as u64);
        if asked[k] > 1 {
            rep.distinct((log.iter().map(|(_, n, w)| (*n, *w as u8)).collect::<Vec<_>>(), answers[k].len(), cancelled[k], on_disk, mem));
            rep.add("requests that joined another's computation", answers[k].len().saturating_sub(calls) as u64);
        }
        let what = || {
            json!({"round": round, "seed": ctx.seed, "requests": asked[k], "answers": answers[k].iter().map(|a| show(&a.2)).collect::<Vec<_>>(),
                   "cancelled": cancelled[k], "log": log.iter().map(|(s, n, w)| json!([s, n, format!("{w:?}")])).collect::<Vec<_>>(),
                   "on_disk": on_disk, "mem": mem})
        };
        if plan.max_running.load(Ordering::SeqCst) > 1 {
            rep.violate("two computations of one item at the same time", what());
        }
        // a requester that stays is never failed by one that leaves
        if panicked[k] > usize::from(*panics) * calls {
            rep.violate("a requester died without its computation failing", what());
        }
        // every answer is the outcome of a computation of this very item, finished before the answer
        for (_, at, e) in &answers[k] {
            let from = log.iter().find(|(s, n, w)| {
                *w == What::Done && s < at && !matches!(steps[(*n).min(steps.len() - 1)].out, Out::Panic) && expect(&steps[(*n).min(steps.len() - 1)].out) == *e
            });
            if from.is_none() {
                rep.violate("an answer no finished computation of the item gave", what());
            }
        }
        // one finished computation serves everybody, as long as the outcome is kept anywhere
        let outcomes: Vec<Out> = log
            .iter()
            .filter(|(_, _, w)| *w == What::Done)
            .map(|(_, n, _)| steps[(*n).min(steps.len() - 1)].out.clone())
            .collect();
        let volatile = |o: &Out| matches!(o, Out::Err(CacheError::InternalError | CacheError::Malformed(_)) | Out::Panic);
        let kept = mem > 0 || (on_disk && !outcomes.iter().any(volatile));
        // (a requester that leaves between the end of the computation and the end of storing it takes the outcome along)
        let answered = answers[k].iter().map(|(_, at, _)| *at).min();
        let again = answered.is_some_and(|at| log.iter().any(|(s, _, w)| *w == What::Start && *s > at));
        if kept && (again || done > 1 + cancelled[k]) {
            rep.violate("computed again although the outcome was kept", what());
        }
        if kept && calls > 1 + cancelled[k] + panicked[k] {
            rep.violate("more computations than requesters that left", what());
        }
        if kept {
            let set: BTreeSet<String> = answers[k].iter().map(|a| show(&a.2)).collect();
            if set.len() > 1 {
                rep.violate("requesters of one item got different answers", what());
            }
        }
    }
    rep.sample(|| json!({"round": round, "keys": nkeys, "requests": many, "on_disk": on_disk, "in_memory": mem}));
    drop(cacher);
    // nothing may be left in the temporary directory once everything has come to rest
    let left = tree(&dir.join("tmp"));
    if !left.is_empty() {
        rep.violate("temporary files left behind", json!({"round": round, "files": left.keys().collect::<Vec<_>>() }));
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// A stuck item must not hold up any other item.
async fn independent(ctx: &Ctx, rng: &mut Rng, rep: &mut Report) {
    rep.eval();
    let dir = scratch(&ctx.work, "c30i");
    let cfg = config_in(&dir, json!({}));
    let cacher = cacher::<One>(&cfg, 1 << 20);
    let mut stuck = Plan::raw("stuck", vec![Step::ok(b"==stuck==".to_vec())]);
    stuck.gate = Some(tokio::sync::Semaphore::new(0));
    let stuck = Arc::new(stuck);
    let mut waiting = vec![];
    for _ in 0..1 + rng.below(5) {
        let c = cacher.clone();
        let r = Req::<One>::new(&stuck);
        waiting.push(tokio::spawn(async move { c.compute_memoized(r, key(&scope("s"), "stuck")).await.into_contents() }));
    }
    if !eventually(|| stuck.calls() > 0).await {
        rep.violate("a requested item was never computed", json!({}));
        return;
    }
    for i in 0..12 {
        let p = Plan::new("free", vec![Step::ok(format!("==free{i}==").into_bytes())]);
        let got = tokio::time::timeout(
            Duration::from_secs(20),
            cacher.compute_memoized(Req::<One>::new(&p), key(&scope("s"), &format!("free{i}"))),
        )
        .await;
        match got {
            Err(_) => {
                rep.violate("an item waits for an unrelated one", json!({"item": i}));
                break;
            }
            Ok(e) => {
                if *e.contents() != expect(&Out::Ok(format!("==free{i}==").into_bytes())) {
                    rep.violate("an item got another item's contents", json!({"item": i, "got": show(e.contents())}));
                }
            }
        }
    }
    stuck.gate.as_ref().unwrap().add_permits(100);
    for w in waiting {
        match tokio::time::timeout(Duration::from_secs(20), w).await {
            Ok(Ok(e)) if e == expect(&Out::Ok(b"==stuck==".to_vec())) => {}
            o => rep.violate("a waiting requester was not answered", json!({"got": format!("{o:?}")})),
        }
    }
    rep.count("items kept waiting while others were served");
    let _ = std::fs::remove_dir_all(&dir);
}

// =============================================================================================== C31

pub fn c31(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "each history computes items with random outcomes (contents, every kind of error, partial output before an error, replaced temporary \
         files), then asks again from the same and from restarted services over the same directory, while a scanner reads the cache directory; \
         other histories kill a process in the middle of computing and open its directory. Distinct histories are told apart by their outcomes",
    );
    let rt = rt(4);
    let mut round = 0u64;
    let half = Instant::now() + (ctx.deadline.saturating_duration_since(Instant::now())) / 2;
    while Instant::now() < half && round < ctx.scale(120, 100_000) as u64 {
        round += 1;
        let mut rng = Rng::new(ctx.seed.wrapping_mul(104_729).wrapping_add(round));
        rt.block_on(fidelity(ctx, &mut rng, &mut rep, round));
    }
    let mut kills = 0u64;
    while ctx.time_left() && kills < ctx.scale(25, 5000) as u64 {
        kills += 1;
        let mut rng = Rng::new(ctx.seed.wrapping_mul(15_485_863).wrapping_add(kills));
        crash(ctx, &mut rng, &mut rep, &rt);
    }
    rep.require("answers compared after a restart", 200);
    rep.require("errors compared after a restart", 60);
    rep.require("processes killed while computing", 5);
    rep.require("entries found after a kill", 20);
    rep
}

/// What an outcome turns into once it went through the file system: messages end at a NUL byte.
fn stored(e: &Entry) -> Entry {
    e.clone()
}

async fn fidelity(ctx: &Ctx, rng: &mut Rng, rep: &mut Report, round: u64) {
    let dir = scratch(&ctx.work, "c31");
    // malformed entries of a previous process are retried at once; internal errors are never kept
    let cfg = config_in(&dir, json!({}));
    let nkeys = 6 + rng.below(10);
    let v1 = rng.chance(1, 2);
    let mut plans = vec![];
    for k in 0..nkeys {
        let tag = format!("r{round}k{k}");
        let sc = *rng.pick(&["global", "1", "project/2"]);
        let steps: Vec<Step> = (0..6)
            .map(|n| {
                let mut s = match rng.below(9) {
                    0 => Step::ok(vec![]),
                    1..=3 => Step::ok(payload(rng, &format!("{tag}#{n}"), 20_000)),
                    _ => Step::err(cache_error(rng, true)),
                };
                s.garbage = if rng.chance(1, 2) { rng.below(3000) } else { 0 };
                s.swap = rng.chance(1, 3);
                s.pieces = 1 + rng.below(3);
                s
            })
            .collect();
        plans.push((Plan::new(&tag, steps), sc));
    }
    // the scanner: whatever is visible under a cache path is a complete outcome of that item
    let stop = Arc::new(AtomicBool::new(false));
    let scan = {
        let dir = dir.join("symcaches");
        let stop = stop.clone();
        std::thread::spawn(move || {
            let mut seen: BTreeMap<String, BTreeSet<Vec<u8>>> = BTreeMap::new();
            while !stop.load(Ordering::SeqCst) {
                for (p, b) in tree(&dir) {
                    seen.entry(p).or_default().insert(b);
                }
            }
            seen
        })
    };
    let mut state: HashMap<usize, Entry> = HashMap::new();
    let mut ops = vec![];
    for life in 0..3 {
        let a = cacher::<One>(&cfg, 1 << 24);
        let b = cacher::<Old>(&cfg, 1 << 24);
        let mut in_memory: BTreeSet<usize> = BTreeSet::new();
        for _ in 0..nkeys * 2 {
            let k = rng.below(nkeys);
            let (plan, sc) = &plans[k];
            let before = plan.calls();
            let ck = key(&scope(sc), &plan.key);
            let path = dir.join("symcaches").join(ck.cache_path(if v1 { Old::V.current } else { One::V.current }));
            let file_before = std::fs::read(&path).ok();
            let entry = if v1 {
                b.compute_memoized(Req::<Old>::new(plan), ck).await
            } else {
                a.compute_memoized(Req::<One>::new(plan), ck).await
            };
            let after = plan.calls();
            let got = entry.contents().clone();
            rep.eval();
            let out = &plan.steps.lock().unwrap()[after.saturating_sub(1).min(5)].clone();
            let what = || json!({"round": round, "seed": ctx.seed, "key": k, "life": life, "got": show(&got), "step": format!("{:?}", out.out).chars().take(300).collect::<String>(), "garbage": out.garbage, "swap": out.swap});
            let must_keep = match state.get(&k) {
                None => false,
                Some(Err(CacheError::InternalError | CacheError::Malformed(_))) => in_memory.contains(&k),
                Some(_) => true,
            };
            let restart = state.contains_key(&k) && !in_memory.contains(&k);
            if must_keep {
                if after != before {
                    rep.violate("a kept outcome was computed again", what());
                }
                let want = if restart { stored(&state[&k]) } else { state[&k].clone() };
                if restart {
                    rep.count("answers compared after a restart");
                    if want.is_err() {
                        rep.count("errors compared after a restart");
                    }
                }
                if got != want {
                    rep.violate("a stored outcome came back changed", json!({"case": what(), "want": show(&want)}));
                }
            } else {
                if after == before {
                    rep.violate("an outcome that must not be kept was not computed again", what());
                } else if got != expect(&out.out) {
                    rep.violate("a fresh outcome differs from what was computed", what());
                }
                state.insert(k, got.clone());
                // the file system must now hold exactly this outcome
                match (&got, std::fs::read(&path)) {
                    (Err(CacheError::InternalError), Err(_)) => rep.count("internal errors not written"),
                    // an entry that was already there may stay until it is replaced
                    (Err(CacheError::InternalError), Ok(f)) if file_before.as_ref() == Some(&f) => rep.count("internal errors not written"),
                    (Err(CacheError::InternalError), Ok(f)) => {
                        rep.violate("an internal error was written to the cache", json!({"case": what(), "file": String::from_utf8_lossy(&f[..f.len().min(100)])}))
                    }
                    (_, Err(e)) => rep.violate("an outcome was not written to the cache", json!({"case": what(), "error": e.to_string()})),
                    (Ok(b), Ok(f)) => {
                        if **b != f {
                            rep.violate("cache file differs from the contents computed", json!({"case": what(), "file_len": f.len(), "len": b.len()}))
                        }
                    }
                    (Err(_), Ok(_)) => {}
                }
                if got.as_ref().err() != Some(&CacheError::InternalError) {
                    let md: Option<Value> = std::fs::read(path.with_extension("metadata")).ok().and_then(|b| serde_json::from_slice(&b).ok());
                    let want = if *sc == "global" { Value::Null } else { json!(sc) };
                    let now = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs();
                    match md {
                        Some(m) if m["scope"] == want && m["time_created"].as_u64().is_some_and(|t| t <= now && t + 60 > now) => rep.count("metadata files checked"),
                        m => rep.violate("metadata does not describe the entry", json!({"case": what(), "metadata": m})),
                    }
                }
            }
            match entry.metadata() {
                Some(m) if m.scope != scope(sc) => rep.violate("metadata of another scope", what()),
                _ => {}
            }
            in_memory.insert(k);
            ops.push((k, after != before, got.is_ok()));
        }
    }
    rep.distinct(&ops);
    stop.store(true, Ordering::SeqCst);
    let seen = scan.join().unwrap();
    for (k, (plan, sc)) in plans.iter().enumerate() {
        let ck = key(&scope(sc), &plan.key);
        let p = ck.cache_path(if v1 { Old::V.current } else { One::V.current });
        for b in seen.get(&p).into_iter().flatten() {
            rep.count("files seen by the scanner");
            let steps = plan.steps.lock().unwrap();
            let complete = steps.iter().any(|s| match &s.out {
                Out::Ok(x) => x == b,
                Out::Err(CacheError::NotFound) => b.is_empty(),
                Out::Err(CacheError::Timeout(_)) => b.starts_with(b"timeout"),
                Out::Err(
                    CacheError::PermissionDenied(m) | CacheError::DownloadError(m) | CacheError::Malformed(m) | CacheError::Unsupported(m),
                ) => b.ends_with(m.as_bytes()),
                _ => false,
            });
            if !complete {
                rep.violate("an incomplete entry was visible in the cache", json!({"round": round, "key": k, "len": b.len(), "head": String::from_utf8_lossy(&b[..b.len().min(60)])}));
            }
        }
    }
    let left = tree(&dir.join("tmp"));
    if !left.is_empty() {
        rep.violate("temporary files left behind", json!({"round": round, "files": left.len()}));
    }
    rep.sample(|| json!({"round": round, "keys": nkeys, "ops": ops.len()}));
    let _ = std::fs::remove_dir_all(&dir);
}

fn crash_step(k: usize) -> Step {
    let mut rng = Rng::new(k as u64 ^ 0xC0FFEE);
    let mut s = match rng.below(4) {
        0 => Step::err(cache_error(&mut rng, false)),
        _ => Step::ok(payload(&mut rng, &format!("crash{k}"), 300_000)),
    };
    s.pieces = 1 + rng.below(6);
    s.garbage = rng.below(2000);
    s.swap = rng.chance(1, 4);
    s
}

/// Computes items over and over until it is killed.
pub fn crash_child(args: Vec<String>) {
    let dir = PathBuf::from(&args[0]);
    let n: usize = args[1].parse().unwrap();
    let rt = rt(4);
    let cfg = config_in(&dir, json!({}));
    rt.block_on(async {
        let c = cacher::<One>(&cfg, 0);
        println!("go");
        let mut i = 0usize;
        let mut hs: Vec<tokio::task::JoinHandle<()>> = vec![];
        loop {
            let k = i % n;
            if i >= n {
                // make the item computable again
                let ck = key(&scope("crash"), &format!("k{k}"));
                let p = dir.join("symcaches").join(ck.cache_path(One::V.current));
                let _ = std::fs::remove_file(p);
            }
            let c = c.clone();
            hs.push(tokio::spawn(async move {
                let plan = Plan::new(&format!("k{k}"), vec![crash_step(k)]);
                let ck = key(&scope("crash"), &plan.key);
                c.compute_memoized(Req::<One>::new(&plan), ck).await;
            }));
            if hs.len() >= 6 {
                for h in hs.drain(..) {
                    let _ = h.await;
                }
            }
            i += 1;
        }
    });
}

fn crash(ctx: &Ctx, rng: &mut Rng, rep: &mut Report, rt: &tokio::runtime::Runtime) {
    use std::io::BufRead;
    rep.eval();
    let dir = scratch(&ctx.work, "c31k");
    let n = 8 + rng.below(20);
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["crash-child", dir.to_str().unwrap(), &n.to_string()])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("child");
    let mut line = String::new();
    let _ = std::io::BufReader::new(child.stdout.take().unwrap()).read_line(&mut line);
    std::thread::sleep(Duration::from_micros(rng.below(60_000) as u64));
    let _ = child.kill();
    let _ = child.wait();
    if line.trim() != "go" {
        rep.count("children that did not start");
        return;
    }
    rep.count("processes killed while computing");
    let before = tree(&dir.join("symcaches"));
    rep.distinct((before.len(), before.values().map(|b| b.len()).sum::<usize>()));
    rt.block_on(async {
        let cfg = config_in(&dir, json!({}));
        let _ = Caches::from_config(&cfg).and_then(|c| c.clear_tmp(&cfg));
        if !tree(&dir.join("tmp")).is_empty() {
            rep.violate("temporary files survive a restart", json!({}));
        }
        let c = cacher::<One>(&cfg, 1 << 26);
        for k in 0..n {
            let step = crash_step(k);
            let plan = Plan::new(&format!("k{k}"), vec![step.clone()]);
            let ck = key(&scope("crash"), &plan.key);
            let there = before.contains_key(&ck.cache_path(One::V.current));
            let got = c.compute_memoized(Req::<One>::new(&plan), ck).await.into_contents();
            if there {
                rep.count("entries found after a kill");
            }
            if got != expect(&step.out) {
                rep.violate(
                    "an entry found after a crash is not the outcome computed",
                    json!({"seed": ctx.seed, "key": k, "was_there": there, "computed_again": plan.calls() > 0, "got": show(&got), "want": show(&expect(&step.out))}),
                );
            }
            let malformed = matches!(step.out, Out::Err(CacheError::Malformed(_)));
            if there && !malformed && plan.calls() > 0 {
                rep.violate("a complete entry was not used after a crash", json!({"seed": ctx.seed, "key": k}));
            }
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
}

// =============================================================================================== C32

fn set_mtime(p: &Path, t: SystemTime) {
    std::fs::File::options().write(true).open(p).unwrap().set_modified(t).unwrap();
}
fn mtime(p: &Path) -> SystemTime {
    std::fs::metadata(p).unwrap().modified().unwrap()
}
fn set_created(p: &Path, t: SystemTime) {
    let md = p.with_extension("metadata");
    let mut v: Value = serde_json::from_slice(&std::fs::read(&md).unwrap()).unwrap();
    v["time_created"] = json!(t.duration_since(UNIX_EPOCH).unwrap().as_secs());
    std::fs::write(&md, v.to_string()).unwrap();
}

#[derive(Clone, Copy, Debug)]
struct Ttl {
    unused: Option<u64>,
    misses: Option<u64>,
    misses_public: Option<u64>,
    malformed: Option<u64>,
}

impl Ttl {
    fn random(rng: &mut Rng) -> Self {
        let mut d = |unlimited: usize| if rng.chance(unlimited, 10) { None } else { Some(*rng.pick(&[60, 600, 3000, 7200, 86_400, 700_000, 40_000_000])) };
        Ttl { unused: d(2), misses: d(2), misses_public: d(2), malformed: d(2) }
    }
    fn json(&self) -> Value {
        let s = |x: Option<u64>| x.map(|s| json!(format!("{s}s"))).unwrap_or(Value::Null);
        json!({"max_unused_for": s(self.unused), "retry_misses_after": s(self.misses), "retry_misses_after_public": s(self.misses_public), "retry_malformed_after": s(self.malformed)})
    }
    /// The documented lifetime of an entry: after how many seconds, counted from which time.
    fn expired(&self, e: &Entry, public: bool, idle: i64, age: i64, before_start: bool) -> bool {
        let over = |a: i64, d: Option<u64>| d.is_some_and(|d| a > d as i64);
        match e {
            Ok(_) => over(idle, self.unused),
            Err(CacheError::Malformed(_)) => before_start || over(age, self.malformed),
            Err(_) if public => over(age, self.misses_public),
            Err(_) => over(age, self.misses),
        }
    }
    /// Ages around every boundary, never closer to one than the time a check may take.
    fn age(&self, rng: &mut Rng) -> i64 {
        let bounds = [self.unused, self.misses, self.misses_public, self.malformed, Some(3600), Some(0)];
        loop {
            let b = rng.pick(&bounds).unwrap_or(1000) as i64;
            let a = match rng.below(5) {
                0 => b + 30,
                1 => b - 30,
                2 => rng.below(100_000_000) as i64,
                3 => -(rng.below(1000) as i64) - 30,
                _ => b / 2,
            };
            if bounds.iter().flatten().all(|x| (a - *x as i64).abs() >= 25) {
                return a;
            }
        }
    }
}

fn ago(secs: i64) -> SystemTime {
    let now = SystemTime::now();
    if secs >= 0 {
        now - Duration::from_secs(secs as u64)
    } else {
        now + Duration::from_secs(-secs as u64)
    }
}

fn kind_error(rng: &mut Rng) -> CacheError {
    cache_error(rng, false)
}

pub fn c32(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "entries of every outcome are written by the real cache, their times are then moved into the past (or future) around every configured \
         limit, and the next request shows whether the entry still counts; every case is non-trivial, distinct ones differ in outcome, scope, \
         ages and limits. A smaller number of histories waits in real time for limits of a second or two",
    );
    let rt = rt(4);
    let mut round = 0u64;
    rt.block_on(async {
        let live = tokio::spawn(live_expiry(ctx.clone()));
        let live2 = tokio::spawn(unlimited(ctx.clone()));
        while ctx.time_left() && round < ctx.scale(60, 50_000) as u64 {
            round += 1;
            let mut rng = Rng::new(ctx.seed.wrapping_mul(32_452_843).wrapping_add(round));
            lifetimes(ctx, &mut rng, &mut rep, round).await;
            categories(ctx, &mut rng, &mut rep);
        }
        for j in [live, live2] {
            match tokio::time::timeout(Duration::from_secs(60), j).await {
                Ok(Ok(r)) => {
                    for (k, n) in r.counters {
                        rep.add(&k, n);
                    }
                    rep.evaluations += r.evaluations;
                    for v in r.violations {
                        rep.violate(v.sig, v.detail);
                    }
                }
                o => rep.violate("a request over a live cache never ended or crashed", json!({"outcome": format!("{:?}", o.map(|r| r.map(|_| ())))})),
            }
        }
    });
    rep.require("entries still used", 200);
    rep.require("entries recomputed", 200);
    rep.require("entries touched", 20);
    rep.require("live expiries observed", 5);
    rep
}

async fn lifetimes(ctx: &Ctx, rng: &mut Rng, rep: &mut Report, round: u64) {
    let dir = scratch(&ctx.work, "c32");
    let ttl = Ttl::random(rng);
    let cfg = config_in(&dir, json!({"caches": {"derived": ttl.json()}}));
    let started = SystemTime::now();
    let cache1 = cache(&cfg, CacheName::Symcaches, 20, 1 << 20);
    let writer = Cacher::<Req<One>>::new(cache1.clone(), Default::default());
    let reader = Cacher::<Req<One>>::new(cache1, Default::default());
    for k in 0..24 {
        rep.eval();
        let sc = *rng.pick(&["global", "1", "global", "abc"]);
        let first = if rng.chance(2, 5) { Out::Ok(payload(rng, &format!("r{round}k{k}#0"), 200)) } else { Out::Err(kind_error(rng)) };
        let second = Out::Ok(payload(rng, &format!("r{round}k{k}#1"), 200));
        let mut s0 = Step::ok(vec![]);
        s0.out = first.clone();
        let mut s1 = Step::ok(vec![]);
        s1.out = second.clone();
        let plan = Plan::new(&format!("k{k}"), vec![s0, s1]);
        let ck = key(&scope(sc), &plan.key);
        let path = dir.join("symcaches").join(ck.cache_path(One::V.current));
        let w = tokio::spawn({
            let (writer, req, ck) = (writer.clone(), Req::<One>::new(&plan), ck.clone());
            async move { writer.compute_memoized(req, ck).await.into_contents() }
        });
        let what0 = json!({"round": round, "seed": ctx.seed, "limits": format!("{ttl:?}"), "scope": sc, "outcome": show(&expect(&first))});
        match w.await {
            Ok(e) if e == expect(&first) => {}
            o => {
                rep.violate("computing an entry crashed or changed it", json!({"case": what0, "got": format!("{o:?}").chars().take(300).collect::<String>()}));
                continue;
            }
        }
        let idle = ttl.age(rng);
        let age = ttl.age(rng);
        set_created(&path, ago(age));
        let md = match rng.below(8) {
            0 => {
                std::fs::remove_file(path.with_extension("metadata")).unwrap();
                "missing"
            }
            1 => {
                std::fs::write(path.with_extension("metadata"), b"{\"scope\": nul").unwrap();
                "broken"
            }
            _ => "present",
        };
        let t0 = ago(idle);
        set_mtime(&path, t0);
        let (age, public) = if md == "present" { (age, sc == "global") } else { (idle, false) };
        let gone = ttl.expired(&expect(&first), public, idle, age, ago(age) < started);
        let r = tokio::spawn({
            let (reader, req, ck) = (reader.clone(), Req::<One>::new(&plan), ck.clone());
            async move { reader.compute_memoized(req, ck).await.into_contents() }
        })
        .await;
        let what = || json!({"case": what0, "idle": idle, "age": age, "public": public, "metadata": md, "calls": plan.calls()});
        let got = match r {
            Ok(e) => e,
            Err(_) => {
                rep.violate("looking an entry up crashed", what());
                continue;
            }
        };
        rep.distinct((show(&expect(&first)).split('(').nth(1).map(|s| s.to_string()), idle, age, public, md));
        let again = plan.calls() == 2;
        if gone && !again {
            rep.violate("an expired entry was used", what());
        } else if !gone && again {
            rep.violate("an entry was thrown away before its time", what());
        } else if got != expect(if again { &second } else { &first }) {
            rep.violate("the entry is not what was computed", json!({"case": what(), "got": show(&got)}));
        }
        rep.count(if again { "entries recomputed" } else { "entries still used" });
        if !again && got.is_ok() {
            let t1 = mtime(&path);
            if idle >= 3600 {
                rep.count("entries touched");
                if t1 < ago(60) {
                    rep.violate("an entry in use was not kept alive", what());
                }
            } else if t1 != t0 {
                rep.count("entries touched early");
            }
        }
        if !again && got.is_err() && mtime(&path) != t0 {
            rep.violate("using a negative entry changed its age", what());
        }
        rep.sample(what);
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// Every cache follows the limits of its own documented category.
fn categories(ctx: &Ctx, rng: &mut Rng, rep: &mut Report) {
    let dir = scratch(&ctx.work, "c32c");
    let (down, der, idx) = (Ttl::random(rng), Ttl::random(rng), Ttl::random(rng));
    let ret = if rng.chance(1, 5) { None } else { Some(*rng.pick(&[100u64, 5000, 86_400])) };
    let cfg = config_in(
        &dir,
        json!({"caches": {"downloaded": down.json(), "derived": der.json(), "index": idx.json(),
                          "diagnostics": {"retention": ret.map(|s| json!(format!("{s}s"))).unwrap_or(Value::Null)}}}),
    );
    let diag = Ttl { unused: ret, misses: None, misses_public: None, malformed: None };
    let caches = Caches::from_config(&cfg).unwrap();
    let started = SystemTime::now();
    for (name, c, ttl) in by_category(&caches, down, der, idx, diag) {
        for i in 0..4 {
            rep.eval();
            let out = if i < 2 { Out::Ok(b"==x==".to_vec()) } else { Out::Err(kind_error(rng)) };
            let (p, sc) = (dir.join(name).join(format!("v1/aa/bb/{i}")), *rng.pick(&["global", "p"]));
            write_entry(&p, &out);
            let (idle, age) = (ttl.age(rng), ttl.age(rng));
            std::fs::write(
                p.with_extension("metadata"),
                json!({"scope": if sc == "global" { Value::Null } else { json!(sc) }, "time_created": ago(age).duration_since(UNIX_EPOCH).unwrap().as_secs(), "debug": null}).to_string(),
            )
            .unwrap();
            set_mtime(&p, ago(idle));
            let gone = ttl.expired(&expect(&out), sc == "global", idle, age, ago(age) < started - Duration::from_secs(5));
            let what = || json!({"cache": name, "outcome": show(&expect(&out)), "idle": idle, "age": age, "scope": sc, "limits": format!("{ttl:?}")});
            match guard(|| c.open_cachefile(&p)) {
                Err(m) => rep.violate("looking an entry up crashed", json!({"case": what(), "panic": m})),
                Ok(Err(e)) => rep.violate("looking an entry up failed", json!({"case": what(), "error": e.to_string()})),
                Ok(Ok(r)) => {
                    rep.count("cache files opened by category");
                    if r.is_none() != gone {
                        rep.violate(if gone { "an expired entry was used" } else { "an entry was thrown away before its time" }, what());
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

fn write_entry(p: &Path, out: &Out) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    let b = match out {
        Out::Ok(b) => b.clone(),
        Out::Err(CacheError::NotFound) => vec![],
        Out::Err(CacheError::Malformed(m)) => format!("malformed{m}").into_bytes(),
        Out::Err(CacheError::PermissionDenied(m)) => format!("permissiondenied{m}").into_bytes(),
        Out::Err(CacheError::DownloadError(m)) => format!("downloaderror{m}").into_bytes(),
        Out::Err(CacheError::Unsupported(m)) => format!("unsupported{m}").into_bytes(),
        Out::Err(CacheError::Timeout(_)) => b"timeout5s".to_vec(),
        _ => unreachable!(),
    };
    std::fs::write(p, b).unwrap();
}

fn by_category(c: &Caches, down: Ttl, der: Ttl, idx: Ttl, diag: Ttl) -> Vec<(&'static str, &Cache, Ttl)> {
    vec![
        ("objects", &c.objects, down),
        ("object_meta", &c.object_meta, der),
        ("auxdifs", &c.auxdifs, down),
        ("il2cpp", &c.il2cpp, down),
        ("symcaches", &c.symcaches, der),
        ("cficaches", &c.cficaches, der),
        ("ppdb_caches", &c.ppdb_caches, der),
        ("sourcemap_caches", &c.sourcemap_caches, der),
        ("sourcefiles", &c.sourcefiles, down),
        ("diagnostics", &c.diagnostics, diag),
        ("proguard", &c.proguard, down),
        ("source_index", &c.source_index, idx),
    ]
}

/// Limits left unset mean "never": such entries work and stay.
async fn unlimited(ctx: Ctx) -> Report {
    let mut rep = Report::new("");
    let mut rng = Rng::new(ctx.seed ^ 0xABCD);
    let dir = scratch(&ctx.work, "c32u");
    let none = Ttl { unused: None, misses: None, misses_public: None, malformed: None };
    let cfg = config_in(&dir, json!({"caches": {"derived": none.json()}}));
    let c = cacher::<One>(&cfg, 1 << 20);
    for k in 0..12 {
        rep.eval();
        let out = if k % 4 == 0 { Out::Ok(payload(&mut rng, "u", 50)) } else { Out::Err(kind_error(&mut rng)) };
        let mut s = Step::ok(vec![]);
        s.out = out.clone();
        let plan = Plan::new(&format!("u{k}"), vec![s]);
        for turn in 0..3 {
            let (c, r, ck) = (c.clone(), Req::<One>::new(&plan), key(&scope("u"), &plan.key));
            match tokio::spawn(async move { c.compute_memoized(r, ck).await.into_contents() }).await {
                Err(e) => rep.violate("an entry without a limit crashes the request", json!({"outcome": show(&expect(&out)), "turn": turn, "panic": e.to_string()})),
                Ok(e) => {
                    rep.count("requests for entries without limits");
                    if e != expect(&out) || plan.calls() != 1 {
                        rep.violate("an entry without a limit was not kept", json!({"outcome": show(&expect(&out)), "turn": turn, "calls": plan.calls()}));
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    rep
}

/// Real time: outcomes held in memory expire when the limit has passed, and not before.
async fn live_expiry(ctx: Ctx) -> Report {
    let mut rep = Report::new("");
    let mut rng = Rng::new(ctx.seed ^ 0x11FE);
    let dir = scratch(&ctx.work, "c32l");
    for (on_disk, misses, public) in [(true, 2, 4), (true, 4, 2), (false, 4, 2), (false, 2, 3)] {
        let ttl = Ttl { unused: Some(100_000), misses: Some(misses), misses_public: Some(public), malformed: Some(3) };
        let mut cfg = config_in(&dir, json!({"caches": {"derived": ttl.json()}}));
        if !on_disk {
            cfg.cache_dir = None;
        }
        let c = cacher::<One>(&cfg, 1 << 20);
        tokio::time::sleep(Duration::from_millis(1100)).await;
        let mut cases = vec![];
        for k in 0..10 {
            let out = if k < 2 { Out::Ok(payload(&mut rng, "l", 50)) } else { Out::Err(kind_error(&mut rng)) };
            let mut s = Step::ok(vec![]);
            s.out = out.clone();
            let plan = Plan::new(&format!("l{k}{on_disk}{misses}"), vec![s]);
            let (c, sc) = (c.clone(), if k % 2 == 0 { "global" } else { "p" });
            cases.push(tokio::spawn(async move {
                let mut bad = vec![];
                let mut n = 0;
                let limit = match &out {
                    Out::Ok(_) => None,
                    Out::Err(CacheError::Malformed(_)) => Some(Duration::from_secs(3)),
                    _ => Some(Duration::from_secs(if sc == "global" { public } else { misses })),
                };
                let ask = || {
                    let (c, r, ck) = (c.clone(), Req::<One>::new(&plan), key(&scope(sc), &plan.key));
                    async move { c.compute_memoized(r, ck).await.into_contents() }
                };
                let _ = ask().await;
                let made = Instant::now();
                // before: on disk the age is kept in whole seconds, so up to one second may be missing
                for _ in 0..3 {
                    tokio::time::sleep(Duration::from_millis(230)).await;
                    let _ = ask().await;
                    if made.elapsed() < Duration::from_millis(900) && plan.calls() != 1 {
                        bad.push(("recomputed before its limit", plan.calls()));
                    }
                }
                tokio::time::sleep(limit.unwrap_or(Duration::from_secs(2)) + Duration::from_millis(300)).await;
                let before = plan.calls();
                let _ = ask().await;
                match limit {
                    Some(_) if plan.calls() == before && before == 1 => bad.push(("still used after its limit", plan.calls())),
                    Some(_) => n += 1,
                    None if plan.calls() != 1 => bad.push(("contents recomputed", plan.calls())),
                    None => {}
                }
                (show(&expect(&out)), bad, n)
            }));
        }
        for c in cases {
            rep.eval();
            match c.await {
                Ok((o, bad, n)) => {
                    rep.add("live expiries observed", n);
                    for (b, calls) in bad {
                        rep.violate(format!("in real time: {b}"), json!({"outcome": o, "calls": calls, "on_disk": on_disk}));
                    }
                }
                Err(e) => rep.violate("a request over a live cache crashed", json!({"error": e.to_string()})),
            }
        }
    }
    // an entry that stays in memory is still touched in time
    let cfg = config_in(&dir, json!({}));
    let first = cacher::<One>(&cfg, 1 << 20);
    let plan = Plan::new("touch", vec![Step::ok(b"==touch==".to_vec())]);
    let ck = key(&scope("p"), "touch");
    let path = dir.join("symcaches").join(ck.cache_path(One::V.current));
    first.compute_memoized(Req::<One>::new(&plan), ck.clone()).await;
    set_mtime(&path, ago(3598));
    let second = cacher::<One>(&cfg, 1 << 20);
    second.compute_memoized(Req::<One>::new(&plan), ck.clone()).await;
    for _ in 0..5 {
        tokio::time::sleep(Duration::from_millis(800)).await;
        second.compute_memoized(Req::<One>::new(&plan), ck.clone()).await;
    }
    rep.eval();
    if mtime(&path) < ago(60) || plan.calls() != 1 {
        rep.violate("an entry used continuously from memory was not kept alive on disk", json!({"calls": plan.calls()}));
    }
    let _ = std::fs::remove_dir_all(&dir);
    rep
}

// =============================================================================================== C33

pub fn c33(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "each round fills the directories of all caches with entries of every outcome and random ages, predicts which are expired, and compares the \
         directory before and after a dry run and after a real cleanup; other rounds run cleanup in a loop while requests read and write the same \
         cache. Every round is non-trivial; distinct ones differ in the set of survivors",
    );
    let rt = rt(4);
    let mut round = 0u64;
    while ctx.time_left() && round < ctx.scale(60, 50_000) as u64 {
        round += 1;
        let mut rng = Rng::new(ctx.seed.wrapping_mul(49_979_687).wrapping_add(round));
        sweep(ctx, &mut rng, &mut rep, round);
        if round % 6 == 1 {
            rt.block_on(busy_cleanup(ctx, &mut rng, &mut rep));
            rt.block_on(live_entries(ctx, &mut rng, &mut rep));
            unreadable(ctx, &mut rng, &mut rep, round);
        }
    }
    rep.require("entries removed", 200);
    rep.require("entries kept", 200);
    rep.require("requests during cleanup", 200);
    rep.require("fresh entries written during cleanup", 200);
    rep.require("unreadable entries kept", 4);
    rep
}

fn dirs(d: &Path) -> BTreeSet<PathBuf> {
    let mut out = BTreeSet::new();
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        if e.path().is_dir() {
            out.extend(dirs(&e.path()));
            out.insert(e.path());
        }
    }
    out
}

fn sweep(ctx: &Ctx, rng: &mut Rng, rep: &mut Report, round: u64) {
    rep.eval();
    let dir = scratch(&ctx.work, "c33");
    let (down, der, idx) = (Ttl::random(rng), Ttl::random(rng), Ttl::random(rng));
    let ret = if rng.chance(1, 5) { None } else { Some(*rng.pick(&[100u64, 5000, 86_400])) };
    let mk = || {
        config_in(
            &dir,
            json!({"caches": {"downloaded": down.json(), "derived": der.json(), "index": idx.json(),
                              "diagnostics": {"retention": ret.map(|s| json!(format!("{s}s"))).unwrap_or(Value::Null)}}}),
        )
    };
    let diag = Ttl { unused: ret, misses: None, misses_public: None, malformed: None };
    let caches = Caches::from_config(&mk()).unwrap();
    let mut survivors: BTreeSet<PathBuf> = BTreeSet::new();
    let mut victims: BTreeSet<PathBuf> = BTreeSet::new();
    let mut info = BTreeMap::new();
    let mut broken_md = BTreeSet::new();
    for (name, _, ttl) in by_category(&caches, down, der, idx, diag) {
        if rng.chance(1, 6) {
            let _ = std::fs::remove_dir_all(dir.join(name));
            if rng.chance(1, 2) {
                std::fs::create_dir_all(dir.join(name).join("v1/e0/f0")).unwrap();
            }
            continue;
        }
        for _ in 0..rng.below(14) {
            let out = if rng.chance(1, 2) { Out::Ok(payload(rng, "x", 2000)) } else { Out::Err(kind_error(rng)) };
            let rel = match rng.below(5) {
                0 => rng.hex(6),
                1 => format!("v0/{}/{}", rng.hex(1), rng.hex(20)),
                _ => format!("v{}/{}/{}/{}", rng.below(3), rng.hex(1), rng.hex(1), rng.hex(20)),
            };
            let p = dir.join(name).join(rel);
            if p.is_dir() || p.parent().unwrap().is_file() || p.exists() {
                continue;
            }
            write_entry(&p, &out);
            let (idle, age) = (ttl.age(rng), ttl.age(rng));
            let with_md = rng.chance(4, 5);
            let public = rng.chance(1, 2);
            if with_md {
                std::fs::write(
                    p.with_extension("metadata"),
                    json!({"scope": if public { Value::Null } else { json!("p") }, "time_created": ago(age).duration_since(UNIX_EPOCH).unwrap().as_secs(), "debug": null}).to_string(),
                )
                .unwrap();
            }
            // metadata nobody can read counts as none
            let broken = with_md && rng.chance(1, 8);
            if broken {
                let f = p.with_extension("metadata");
                let b = std::fs::read(&f).unwrap();
                std::fs::write(&f, &b[..rng.below(b.len())]).unwrap();
                broken_md.insert(f);
            }
            let with_md = with_md && !broken;
            set_mtime(&p, ago(idle));
            let (age, public) = if with_md { (age, public) } else { (idle, false) };
            // the process that cleans up starts now: malformed entries made earlier go
            let gone = ttl.expired(&expect(&out), public, idle, age, age > 0);
            info.insert(p.clone(), json!({"outcome": show(&expect(&out)), "idle": idle, "age": age, "public": public, "limits": format!("{ttl:?}")}));
            if gone { &mut victims } else { &mut survivors }.insert(p);
        }
    }
    let before = tree(&dir);
    let before_dirs = dirs(&dir);
    let what = |p: &Path| json!({"round": round, "seed": ctx.seed, "file": p, "case": info.get(p)});
    // a dry run changes nothing
    match guard(|| cleanup(mk(), true)) {
        Ok(Ok(())) => {}
        o => rep.violate("a dry run failed", json!({"round": round, "got": format!("{o:?}")})),
    }
    if tree(&dir) != before || !dirs(&dir).is_superset(&before_dirs) {
        rep.violate("a dry run changed the cache", json!({"round": round, "seed": ctx.seed}));
    }
    rep.count("dry runs");
    match guard(|| if rng.chance(1, 2) { cleanup(mk(), false) } else { Caches::from_config(&mk()).unwrap().cleanup(false) }) {
        Ok(Ok(())) => {}
        o => rep.violate("a cleanup failed", json!({"round": round, "got": format!("{o:?}")})),
    }
    let after = tree(&dir);
    let rel = |p: &Path| p.strip_prefix(&dir).unwrap().to_string_lossy().into_owned();
    let mut want = BTreeMap::new();
    for p in &survivors {
        for q in [p.clone(), p.with_extension("metadata")] {
            if broken_md.contains(&q) {
                // may stay or go, but not with other contents
                if let Some(b) = after.get(&rel(&q)) {
                    want.insert(rel(&q), b.clone());
                }
                continue;
            }
            if let Some(b) = before.get(&rel(&q)) {
                want.insert(rel(&q), b.clone());
            }
        }
        match after.get(&rel(p)) {
            None => rep.violate("cleanup removed an entry that is not expired", what(p)),
            Some(b) if *b != before[&rel(p)] => rep.violate("cleanup changed an entry", what(p)),
            _ => {}
        }
        if !broken_md.contains(&p.with_extension("metadata")) && before.contains_key(&rel(&p.with_extension("metadata"))) && !after.contains_key(&rel(&p.with_extension("metadata"))) {
            rep.violate("cleanup removed the metadata of a kept entry", what(p));
        }
    }
    for p in &victims {
        if after.contains_key(&rel(p)) {
            rep.violate("cleanup kept an expired entry", what(p));
        }
        if after.contains_key(&rel(&p.with_extension("metadata"))) {
            rep.violate("cleanup kept the metadata of an expired entry", what(p));
        }
    }
    if after != want && rep.violations.is_empty() {
        rep.violate("cleanup left or changed something else", json!({"round": round, "extra": after.keys().filter(|k| !want.contains_key(*k)).collect::<Vec<_>>()}));
    }
    rep.add("entries kept", survivors.len() as u64);
    rep.add("entries removed", victims.len() as u64);
    rep.distinct((survivors.len(), victims.len(), before.len()));
    // directories below the caches that hold nothing are gone, all others remain
    for d in dirs(&dir) {
        let below = d.strip_prefix(&dir).unwrap().components().count() > 1;
        if below && tree(&d).is_empty() {
            rep.violate("cleanup left an empty directory", json!({"round": round, "dir": d}));
        }
    }
    rep.sample(|| json!({"round": round, "kept": survivors.len(), "removed": victims.len()}));
    let _ = std::fs::remove_dir_all(&dir);
}

/// Requests never notice a cleanup running over their cache.
async fn busy_cleanup(ctx: &Ctx, rng: &mut Rng, rep: &mut Report) {
    rep.eval();
    let dir = scratch(&ctx.work, "c33b");
    let cfg = config_in(&dir, json!({"caches": {"derived": {"max_unused_for": "1s", "retry_misses_after": "1s", "retry_misses_after_public": "1s", "retry_malformed_after": "1s"}}}));
    let stop = Arc::new(AtomicBool::new(false));
    let cleaner = {
        let (cfg, stop, dir) = (cfg.clone(), stop.clone(), dir.clone());
        std::thread::spawn(move || {
            let mut n = 0u64;
            let mut err = None;
            while !stop.load(Ordering::SeqCst) {
                // age everything, so that cleanup has work to do all the time
                for (p, _) in tree(&dir.join("symcaches")) {
                    if n % 2 == 0 && !p.ends_with("metadata") {
                        if let Ok(f) = std::fs::File::options().write(true).open(dir.join("symcaches").join(&p)) {
                            let _ = f.set_modified(ago(100));
                        }
                    }
                }
                match guard(|| Caches::from_config(&cfg).and_then(|c| c.cleanup(false).map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, format!("{e:?}"))))) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => err = Some(e.to_string()),
                    Err(p) => err = Some(format!("panic: {p}")),
                }
                n += 1;
            }
            (n, err)
        })
    };
    let until = Instant::now() + Duration::from_millis(ctx.scale(500, 1200) as u64);
    let mut tasks = vec![];
    for t in 0..6u64 {
        let cfg = cfg.clone();
        let mut rng = Rng::new(rng.next() ^ t);
        tasks.push(tokio::spawn(async move {
            let mut n = 0u64;
            let mut bad = vec![];
            let c = cacher::<One>(&cfg, 0);
            while Instant::now() < until {
                let k = rng.below(12);
                let plan = Plan::new(&format!("b{k}"), vec![Step { pieces: 3, ..Step::ok(format!("==b{k}==").repeat(1 + k * 40).into_bytes()) }]);
                let got = c.compute_memoized(Req::<One>::new(&plan), key(&scope("b"), &plan.key)).await.into_contents();
                n += 1;
                let want = expect(&plan.steps.lock().unwrap()[0].out);
                if got != want {
                    bad.push((k, show(&got)));
                }
            }
            (n, bad)
        }));
    }
    for t in tasks {
        match t.await {
            Ok((n, bad)) => {
                rep.add("requests during cleanup", n);
                for (k, got) in bad {
                    rep.violate("a request failed because of a cleanup", json!({"seed": ctx.seed, "key": k, "got": got}));
                }
            }
            Err(_) => rep.violate("a request crashed during a cleanup", json!({})),
        }
    }
    stop.store(true, Ordering::SeqCst);
    let (n, err) = cleaner.join().unwrap();
    rep.add("cleanups during requests", n);
    if let Some(e) = err {
        rep.violate("a cleanup failed because of requests", json!({"error": e}));
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// Entries written while cleanups run are complete afterwards, metadata included.
async fn live_entries(ctx: &Ctx, rng: &mut Rng, rep: &mut Report) {
    rep.eval();
    let dir = scratch(&ctx.work, "c33l");
    let cfg = config_in(&dir, json!({"caches": {"derived": {"max_unused_for": null, "retry_misses_after": "1d", "retry_misses_after_public": "1d", "retry_malformed_after": "1d"}}}));
    let stop = Arc::new(AtomicBool::new(false));
    let cleaners: Vec<_> = (0..3)
        .map(|_| {
            let (cfg, stop) = (cfg.clone(), stop.clone());
            std::thread::spawn(move || {
                while !stop.load(Ordering::SeqCst) {
                    let _ = guard(|| Caches::from_config(&cfg).map(|c| c.symcaches.cleanup(false)));
                }
            })
        })
        .collect();
    let mut tasks = vec![];
    let per = ctx.scale(60, 150);
    for t in 0..4u64 {
        let cfg = cfg.clone();
        let mut rng = Rng::new(rng.next() ^ t);
        tasks.push(tokio::spawn(async move {
            let c = cacher::<One>(&cfg, 0);
            let mut made = vec![];
            for k in 0..per {
                let step = if rng.chance(1, 2) { Step::ok(payload(&mut rng, "l", 500)) } else { Step::err(CacheError::NotFound) };
                let plan = Plan::new(&format!("t{t}k{k}"), vec![step]);
                let sc = *rng.pick(&["global", "p"]);
                let ck = key(&scope(sc), &plan.key);
                let got = c.compute_memoized(Req::<One>::new(&plan), ck.clone()).await.into_contents();
                let same = got == expect(&plan.steps.lock().unwrap()[0].out);
                made.push((ck.cache_path(One::V.current), sc, same));
            }
            made
        }));
    }
    let mut made = vec![];
    for t in tasks {
        match t.await {
            Ok(m) => made.extend(m),
            Err(_) => rep.violate("a request crashed during a cleanup", json!({})),
        }
    }
    stop.store(true, Ordering::SeqCst);
    for c in cleaners {
        let _ = c.join();
    }
    for (p, sc, same) in made {
        let f = dir.join("symcaches").join(&p);
        rep.count("fresh entries written during cleanup");
        if !same {
            rep.violate("a request failed because of a cleanup", json!({"seed": ctx.seed, "file": p}));
        }
        if !f.exists() {
            // its directory may go while it is empty: known to the code ("cleanup could remove the parent directories")
            rep.count("fresh entries lost with their directory");
            continue;
        }
        let md: Option<Value> = std::fs::read(f.with_extension("metadata")).ok().and_then(|b| serde_json::from_slice(&b).ok());
        let want = if sc == "global" { Value::Null } else { json!(sc) };
        match md {
            Some(m) if m["scope"] == want => {}
            m => rep.violate("cleanup removed the metadata of a fresh entry", json!({"seed": ctx.seed, "file": p, "metadata": m})),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

extern "C" {
    fn setgroups(n: usize, list: *const u32) -> i32;
    fn setgid(id: u32) -> i32;
    fn setuid(id: u32) -> i32;
}

/// `svcmon cleanup-child`: a cleanup of the cache in the current directory, without root's privileges.
pub fn cleanup_child() {
    unsafe {
        setgroups(0, std::ptr::null());
        if setgid(65534) != 0 || setuid(65534) != 0 {
            std::process::exit(7);
        }
    }
    let cfg = config(json!({"cache_dir": "."}));
    std::process::exit(match cleanup(cfg, false) {
        Ok(()) => 0,
        Err(_) => 4,
    });
}

/// An entry that cannot be looked at is not an expired one.
fn unreadable(ctx: &Ctx, rng: &mut Rng, rep: &mut Report, round: u64) {
    use std::os::unix::fs::PermissionsExt;
    rep.eval();
    let dir = scratch(&ctx.work, "c33u");
    let own = |p: &Path| std::os::unix::fs::chown(p, Some(65534), Some(65534));
    let mut kept = vec![];
    for i in 0..6 {
        let p = dir.join(format!("symcaches/v1/a{i}/{}", rng.hex(12)));
        write_entry(&p, &Out::Ok(b"==live==".to_vec()));
        if i % 2 == 0 {
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0)).unwrap();
            kept.push(p);
        } else {
            set_mtime(&p, ago(100 * 86_400));
        }
    }
    let ok = dirs(&dir).iter().all(|d| own(d).is_ok()) && own(&dir).is_ok();
    let status = std::process::Command::new(std::env::current_exe().unwrap()).arg("cleanup-child").current_dir(&dir).status();
    match status {
        Ok(s) if ok && matches!(s.code(), Some(0 | 4)) => {
            for p in kept {
                rep.count("unreadable entries kept");
                if !p.exists() {
                    rep.violate("cleanup removed an entry it could not read", json!({"round": round, "seed": ctx.seed, "file": p.strip_prefix(&dir).unwrap()}));
                }
            }
        }
        o => rep.violate("the cleanup of an unprivileged user crashed", json!({"got": format!("{o:?}"), "chown": ok})),
    }
    let _ = std::fs::remove_dir_all(&dir);
}

// =============================================================================================== C35

/// Where entries of a key lie, for each way of laying files out: instances of several releases share the files and the
/// shared cache, so that this must not depend on anything but the key.
fn layouts(rng: &mut Rng, rep: &mut Report) {
    use sha2::Digest;
    for _ in 0..20 {
        let sc = scope(*rng.pick(&["global", "42", "a b/c", ""]));
        let text: String = (0..rng.below(40)).map(|_| *rng.pick(&['a', '/', '\n', 'é', ':', ' ', '7'])).collect();
        let ck = key(&sc, &text);
        let h: String = sha2::Sha256::digest(ck.data().as_bytes()).iter().map(|b| format!("{b:02x}")).collect();
        let n = rng.below(2000) as u32;
        for (f, want) in [
            (F::V1, format!("v{n}/{}/{}/{}", &h[..2], &h[2..8], &h[8..])),
            (F::V2, format!("v{n}/{}/{}/{}", &h[..2], &h[2..4], &h[4..])),
        ] {
            let got = ck.cache_path(v(n, f));
            if got != want || !ck.data().ends_with(&text) || !ck.data().starts_with(&format!("scope: {sc}\n")) {
                rep.violate("entries lie elsewhere than the layout of their version says", json!({"got": got, "want": want, "key": ck.data(), "scope": sc.to_string(), "text": text}));
            }
        }
        rep.count("keys with both layouts");
    }
}

pub fn c35(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "each round puts entries of random older versions (some expired, some incompatible, some errors) into the cache and fires requests at it; the \
         answers, the recomputations they start, the files that remain and the number of concurrent refreshes are compared with the documented \
         procedure. Distinct rounds differ in which versions are there and how requests and refreshes interleave",
    );
    let rt = rt(6);
    let mut round = 0u64;
    while ctx.time_left() && round < ctx.scale(200, 100_000) as u64 {
        round += 1;
        let mut rng = Rng::new(ctx.seed.wrapping_mul(67_867_967).wrapping_add(round));
        layouts(&mut Rng::new(ctx.seed.wrapping_mul(31) ^ round), &mut rep);
        if round % 3 == 0 {
            rt.block_on(fallback_round::<Two>(ctx, &mut rng, &mut rep, round));
        } else {
            rt.block_on(fallback_round::<Many>(ctx, &mut rng, &mut rep, round));
        }
        if round % 4 == 0 {
            rt.block_on(refresh_limit(ctx, &mut rng, &mut rep, round));
        }
    }
    rep.require("answers from an older version", 100);
    rep.require("refreshes completed", 100);
    rep.require("items that had to be computed at once", 50);
    rep.require("refreshes held back by the limit", 10);
    rep.require("entries refreshed twice", 10);
    rep
}

async fn fallback_round<V: Ver>(ctx: &Ctx, rng: &mut Rng, rep: &mut Report, round: u64) {
    let dir = scratch(&ctx.work, "c35");
    let cfg = config_in(&dir, json!({}));
    let lazy = Arc::new(AtomicIsize::new(1 + rng.below(30) as isize));
    let lazy0 = lazy.load(Ordering::SeqCst);
    let mem = if rng.chance(1, 3) { 0 } else { 1 << 20 };
    let c = Arc::new(Cacher::<Req<V>>::new(
        Cache::from_config(CacheName::Symcaches, &cfg, cfg.caches.derived.into(), lazy.clone(), mem).unwrap(),
        Default::default(),
    ));
    let base = dir.join("symcaches");
    let all: Vec<CacheVersion> = V::V.previous.iter().copied().chain([V::V.current]).collect();
    let max_age = 8 * 86_400; // the default keeps derived entries for seven days
    for k in 0..4 {
        rep.eval();
        let ck = key(&scope("s"), &format!("r{round}k{k}"));
        let mut there: BTreeMap<u32, (Out, bool)> = BTreeMap::new();
        for ver in &all {
            let chance = if *ver == V::V.current { 3 } else { 6 };
            if !rng.chance(chance, 12) {
                continue;
            }
            let out = if rng.chance(4, 5) {
                Out::Ok(payload(rng, &format!("r{round}k{k}v{ver}"), 300))
            } else {
                Out::Err(*rng.pick(&[Box::new(CacheError::NotFound), Box::new(CacheError::DownloadError("old".into()))]).clone())
            };
            let p = base.join(ck.cache_path(*ver));
            write_entry(&p, &out);
            let expired = rng.chance(1, 5);
            if rng.chance(2, 3) {
                std::fs::write(
                    p.with_extension("metadata"),
                    json!({"scope": "s", "time_created": ago(if expired { max_age } else { 60 }).duration_since(UNIX_EPOCH).unwrap().as_secs(), "debug": null}).to_string(),
                )
                .unwrap();
            }
            set_mtime(&p, ago(if expired { max_age } else { 60 }));
            there.insert(ver.number, (out, expired));
        }
        let mut new = match rng.below(5) {
            0 => Step::err(kind_error(rng)),
            1 if rng.chance(1, 2) => Step { out: Out::Panic, ..Step::ok(vec![]) },
            _ => Step::ok(payload(rng, &format!("r{round}k{k}new"), 300)),
        };
        new.delay = Duration::from_micros(rng.below(4000) as u64);
        let plan = Plan::new(&format!("k{k}"), vec![new.clone()]);
        let live = |n: u32| there.get(&n).filter(|(_, e)| !e).map(|(o, _)| o.clone());
        let current = live(V::V.current.number);
        let old = V::V.fallbacks.iter().find_map(|v| live(v.number));
        let what = || {
            json!({"round": round, "seed": ctx.seed, "item": k, "there": there.iter().map(|(n, (o, e))| json!([n, show(&expect(o)), e])).collect::<Vec<_>>(),
                   "current": V::V.current.number, "fallbacks": V::V.fallbacks.iter().map(|v| v.number).collect::<Vec<_>>(), "new": format!("{:?}", new.out).chars().take(60).collect::<String>(), "calls": plan.calls()})
        };
        // several requesters at once, staggered
        let mut hs = vec![];
        for _ in 0..1 + rng.below(5) {
            let (c, r, ck) = (c.clone(), Req::<V>::new(&plan), ck.clone());
            let d = Duration::from_micros(rng.below(3000) as u64);
            hs.push(tokio::spawn(async move {
                tokio::time::sleep(d).await;
                c.compute_memoized(r, ck).await.into_contents()
            }));
        }
        let mut answers = vec![];
        for h in hs {
            answers.push(h.await.ok());
        }
        let panics = matches!(new.out, Out::Panic);
        let fresh = (!panics).then(|| expect(&new.out));
        for a in &answers {
            let ok = match (&current, &old, a) {
                (Some(cur), _, Some(a)) => *a == expect(cur),
                // a request that comes after the refresh finished gets the new entry
                (None, Some(old), Some(a)) => *a == expect(old) || fresh.as_ref() == Some(a),
                (None, None, Some(a)) => fresh.as_ref() == Some(a),
                (None, None, None) => panics,
                _ => false,
            };
            if !ok {
                rep.violate("a request was not answered from the newest usable version", json!({"case": what(), "got": a.as_ref().map(show)}));
            }
        }
        if let (None, Some(old)) = (&current, &old) {
            rep.add("answers from an older version", answers.iter().flatten().filter(|a| **a == expect(old)).count() as u64);
            // the entry is being replaced in the background
            let n0 = eventually(|| plan.calls() > 0).await;
            if !n0 {
                rep.violate("an outdated entry was not refreshed", what());
            }
        }
        if current.is_some() && plan.calls() > 0 {
            rep.violate("a current entry was computed again", what());
        }
        if current.is_none() && old.is_none() {
            rep.count("items that had to be computed at once");
        }
        let quiet = eventually(|| plan.running.load(Ordering::SeqCst) == 0 && lazy.load(Ordering::SeqCst) == lazy0).await;
        if !quiet {
            rep.violate("refreshes do not come to rest or leak their slots", json!({"case": what(), "slots": lazy.load(Ordering::SeqCst), "of": lazy0}));
        }
        if plan.max_running.load(Ordering::SeqCst) > 1 {
            rep.violate("two computations of one item at the same time", what());
        }
        rep.distinct((there.iter().map(|(n, (o, e))| (*n, matches!(o, Out::Ok(_)), *e)).collect::<Vec<_>>(), plan.calls(), answers.len()));
        if plan.calls() > 0 && !panics {
            rep.count("refreshes completed");
            // the current version is now stored and no older one remains
            for ver in V::V.previous {
                let p = base.join(ck.cache_path(*ver));
                if p.exists() || p.with_extension("metadata").exists() {
                    rep.violate("files of an older version remain after the entry was replaced", json!({"case": what(), "version": ver.number}));
                }
            }
            let p = base.join(ck.cache_path(V::V.current));
            match (&new.out, std::fs::read(&p)) {
                (Out::Ok(b), Ok(f)) if *b == f => {}
                (Out::Err(_), Ok(_)) => {}
                (_, r) => rep.violate("the entry was not stored under the current version", json!({"case": what(), "found": r.map(|b| b.len()).map_err(|e| e.to_string())})),
            }
            // and whoever asks now gets the new one without another computation
            let n = plan.calls();
            let again = c.compute_memoized(Req::<V>::new(&plan), ck.clone()).await.into_contents();
            let keeps = !matches!(new.out, Out::Err(CacheError::Malformed(_))) || mem > 0;
            if Some(&again) != fresh.as_ref() || (keeps && plan.calls() != n) {
                rep.violate("the refreshed entry is not used", json!({"case": what(), "got": show(&again)}));
            }
            // an older instance puts its version back and the new one goes: the refresh has to happen once more
            if let (None, Some(old), true) = (&current, &old, mem == 0) {
                let ver = V::V.fallbacks.iter().find(|v| live(v.number).is_some()).unwrap();
                let cur = base.join(ck.cache_path(V::V.current));
                for f in [cur.with_extension("metadata"), cur] {
                    let _ = std::fs::remove_file(f);
                }
                write_entry(&base.join(ck.cache_path(*ver)), old);
                let n = plan.calls();
                let a = c.compute_memoized(Req::<V>::new(&plan), ck.clone()).await.into_contents();
                if a != expect(old) && Some(&a) != fresh.as_ref() {
                    rep.violate("a request was not answered from the newest usable version", json!({"case": what(), "got": show(&a), "second time": true}));
                }
                if !eventually(|| plan.calls() > n).await {
                    rep.violate("an outdated entry was refreshed only the first time", what());
                }
                if !eventually(|| plan.running.load(Ordering::SeqCst) == 0 && lazy.load(Ordering::SeqCst) == lazy0).await {
                    rep.violate("refreshes do not come to rest or leak their slots", json!({"case": what(), "second time": true}));
                }
                rep.count("entries refreshed twice");
            }
        } else if panics && plan.calls() > 0 && mem == 0 && current.is_none() && old.is_some() {
            // a refresh that crashed is tried again with the next request
            let n = plan.calls();
            let a = c.compute_memoized(Req::<V>::new(&plan), ck.clone()).await.into_contents();
            if Some(&a) != old.as_ref().map(expect).as_ref() {
                rep.violate("a request was not answered from the newest usable version", json!({"case": what(), "got": show(&a), "after a crash": true}));
            }
            if !eventually(|| plan.calls() > n).await {
                rep.violate("a crashed refresh is not tried again", what());
            }
            if !eventually(|| plan.running.load(Ordering::SeqCst) == 0 && lazy.load(Ordering::SeqCst) == lazy0).await {
                rep.violate("refreshes do not come to rest or leak their slots", json!({"case": what(), "after a crash": true}));
            }
            rep.count("crashed refreshes tried again");
        } else if plan.calls() == 0 {
            // nothing was computed: nothing may have changed
            for (n, (o, _)) in &there {
                let ver = all.iter().find(|v| v.number == *n).unwrap();
                let p = base.join(ck.cache_path(*ver));
                if !p.exists() {
                    rep.violate("an entry vanished although nothing replaced it", json!({"case": what(), "version": n, "was": show(&expect(o))}));
                }
            }
        }
        rep.sample(what);
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// Only so many refreshes run at once; requests beyond the limit are still served from the old entry.
async fn refresh_limit(ctx: &Ctx, rng: &mut Rng, rep: &mut Report, round: u64) {
    rep.eval();
    let dir = scratch(&ctx.work, "c35l");
    let cfg = config_in(&dir, json!({}));
    let limit = 1 + rng.below(4) as isize;
    let lazy = Arc::new(AtomicIsize::new(limit));
    let cch = Cache::from_config(CacheName::Symcaches, &cfg, cfg.caches.derived.into(), lazy.clone(), 1 << 20).unwrap();
    let c = Arc::new(Cacher::<Req<Two>>::new(cch.clone(), Default::default()));
    let n = limit as usize + 1 + rng.below(8);
    let mut plans = vec![];
    for k in 0..n {
        let ck = key(&scope("s"), &format!("l{k}"));
        write_entry(&dir.join("symcaches").join(ck.cache_path(v(1, F::V1))), &Out::Ok(format!("==old{k}==").into_bytes()));
        let mut p = Plan::raw(&format!("l{k}"), vec![if rng.chance(1, 5) { Step { out: Out::Panic, ..Step::ok(vec![]) } } else { Step::ok(format!("==new{k}==").into_bytes()) }]);
        p.gate = Some(tokio::sync::Semaphore::new(0));
        plans.push(Arc::new(p));
    }
    let what = || json!({"round": round, "seed": ctx.seed, "limit": limit, "items": n});
    let ask = |c: Arc<Cacher<Req<Two>>>, again: bool| {
        let mut hs = vec![];
        for (k, p) in plans.iter().enumerate() {
            // those that always panic would take the slots again and again
            if again && (p.done.load(Ordering::SeqCst) > 0 || matches!(p.steps.lock().unwrap()[0].out, Out::Panic)) {
                continue;
            }
            for _ in 0..2 {
                let (c, r) = (c.clone(), Req::<Two>::new(p));
                hs.push((k, tokio::spawn(async move { c.compute_memoized(r, key(&scope("s"), &format!("l{k}"))).await.into_contents() })));
            }
        }
        hs
    };
    for (k, h) in ask(c, false) {
        match tokio::time::timeout(Duration::from_secs(20), h).await {
            Ok(Ok(e)) if e == expect(&Out::Ok(format!("==old{k}==").into_bytes())) => rep.count("answers from an older version"),
            o => rep.violate("a request had to wait for a refresh or got something else", json!({"case": what(), "got": format!("{o:?}").chars().take(200).collect::<String>()})),
        }
    }
    let running = || plans.iter().map(|p| p.running.load(Ordering::SeqCst)).sum::<usize>();
    eventually(|| running() >= limit as usize).await;
    tokio::time::sleep(Duration::from_millis(5)).await;
    let r = running();
    if r != limit as usize {
        rep.violate("number of concurrent refreshes differs from the limit", json!({"case": what(), "running": r}));
    }
    rep.add("refreshes held back by the limit", (n - r.min(n)) as u64);
    for p in &plans {
        p.gate.as_ref().unwrap().add_permits(1000);
    }
    // slots come back, and later requests finish the job
    let all_done = || plans.iter().all(|p| p.done.load(Ordering::SeqCst) > 0 || matches!(p.steps.lock().unwrap()[0].out, Out::Panic));
    let mut tries = 0;
    loop {
        if !eventually(|| running() == 0 && lazy.load(Ordering::SeqCst) == limit).await {
            rep.violate("refresh slots are not given back", json!({"case": what(), "slots": lazy.load(Ordering::SeqCst)}));
            break;
        }
        if all_done() {
            break;
        }
        tries += 1;
        if tries > 100 {
            rep.violate("outdated entries are never refreshed once the limit was hit", what());
            break;
        }
        // a new service over the same directory, sharing the limit
        for (_, h) in ask(Arc::new(Cacher::new(cch.clone(), Default::default())), true) {
            let _ = h.await;
        }
    }
    rep.distinct(("limit", limit, n, tries));
    let _ = std::fs::remove_dir_all(&dir);
}
