//! Monitor of the request service: what is accepted, answered, kept and forgotten (C59).
use crate::common::{Ctx, Report, Rng};
use crate::kit::{config_in, eventually, scope, scratch};
use futures::channel::oneshot;
use minidump_processor::monitor as processor;
use serde_json::{json, Value};
use std::io::{Seek, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;
use symbolicator_app::service::*;
use symbolicator_js::interface::SymbolicateJsStacktraces;
use symbolicator_native::interface::*;
use symbolicator_proguard::interface::SymbolicateJvmStacktraces;
use symbolicator_service::types::ScrapingConfig;
use symbolicator_sources::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Native,
    Js,
    Jvm,
    Dump,
    Apple,
}
pub const KINDS: [Kind; 5] = [Kind::Native, Kind::Js, Kind::Jvm, Kind::Dump, Kind::Apple];

/// How the work on a request ends.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum End {
    Done,
    Fails,
    Crashes,
}

/// A minidump with nothing but a description.
pub fn dump_file(description: &Value) -> Vec<u8> {
    let s = description.to_string().into_bytes();
    let mut b = b"MDMP".to_vec();
    b.extend(0x1234_a793u32.to_le_bytes());
    b.extend(1u32.to_le_bytes());
    b.extend(32u32.to_le_bytes());
    b.extend([0; 16]);
    for x in [0x4a53_0001, s.len() as u32, 44] {
        b.extend(x.to_le_bytes());
    }
    b.extend(s);
    b
}

pub fn dump(n: u64, hold: Option<&str>, end: End) -> Vec<u8> {
    let v = json!({
        "os": "linux", "cpu": "amd64", "time": 1, "hold": hold, "panic": end == End::Crashes,
        "modules": [{"base": 0x1000, "size": 0x1000, "code_id": format!("{n:040x}"), "code_file": "app", "debug_id": format!("{n:032x}0")}],
        "threads": [{"id": n, "registers": {"rip": 0x1010}, "frames": [{"addr": 0x1010}]}],
    });
    let mut b = dump_file(&v);
    if end == End::Fails {
        b.truncate(20);
    }
    b
}

/// A source without any files.
fn nowhere() -> Arc<[SourceConfig]> {
    serde_json::from_value(json!([{"id": "empty", "type": "filesystem", "path": "/nonexistent/symbols", "layout": {"type": "native"}}])).unwrap()
}

struct App {
    service: RequestService,
    dir: PathBuf,
}

impl App {
    fn dump_request(&self, n: u64, hold: Option<&str>, end: End) -> ProcessMinidump {
        let mut f = tempfile::NamedTempFile::new_in(&self.dir).unwrap();
        f.write_all(&dump(n, hold, end)).unwrap();
        ProcessMinidump {
            platform: None,
            scope: scope("tenant"),
            minidump_file: f.into_temp_path(),
            sources: nowhere(),
            scraping: ScrapingConfig::default(),
            rewrite_first_module: Default::default(),
        }
    }

    fn ask(&self, kind: Kind, n: u64, hold: Option<&str>, end: End, candidates: bool) -> Result<RequestId, MaxRequestsError> {
        let options = RequestOptions { dif_candidates: candidates, apply_source_context: true };
        match kind {
            Kind::Native => {
                let module = json!({"type": "elf", "code_id": format!("{n:040x}"), "image_addr": "0x1000", "image_size": 0x1000});
                let raw: symbolicator_service::types::RawObjectInfo = serde_json::from_value(module).unwrap();
                self.service.symbolicate_stacktraces(
                    SymbolicateStacktraces {
                        platform: None,
                        modules: vec![raw.into()],
                        stacktraces: serde_json::from_value(json!([{"thread_id": n, "frames": [{"instruction_addr": "0x1010"}]}])).unwrap(),
                        signal: None,
                        origin: StacktraceOrigin::Symbolicate,
                        sources: nowhere(),
                        scope: scope("tenant"),
                        apply_source_context: true,
                        scraping: ScrapingConfig::default(),
                        rewrite_first_module: Default::default(),
                    },
                    options,
                )
            }
            Kind::Js => self.service.symbolicate_js_stacktraces(SymbolicateJsStacktraces {
                platform: None,
                scope: scope("tenant"),
                source: Arc::new(serde_json::from_value(json!({"id": "s", "url": "http://127.0.0.1:1/", "token": "t"})).unwrap()),
                stacktraces: serde_json::from_value(json!([{"frames": [{"function": format!("f{n}"), "abs_path": "<anonymous>", "lineno": 1, "colno": 1}]}])).unwrap(),
                modules: vec![],
                release: None,
                dist: None,
                scraping: serde_json::from_value(json!({"enabled": false, "allowed_origins": ["*"], "headers": {}})).unwrap(),
                apply_source_context: true,
            }),
            Kind::Jvm => self.service.symbolicate_jvm_stacktraces(SymbolicateJvmStacktraces {
                platform: None,
                scope: scope("tenant"),
                sources: nowhere(),
                exceptions: serde_json::from_value(json!([{"type": format!("C{n}"), "module": "m"}])).unwrap(),
                stacktraces: vec![],
                modules: vec![],
                release_package: None,
                apply_source_context: true,
                classes: vec![],
            }),
            Kind::Dump => {
                self.service.process_minidump(self.dump_request(n, hold, end), options)
            }
            Kind::Apple => {
                let mut f = tempfile::tempfile().unwrap();
                let mut t = json!({
                    "timestamp": 1, "threads": [{"id": n, "frames": [{"addr": 0x1010}]}],
                    "images": [{"addr": 0x1000, "size": 0x1000, "uuid": format!("{n:032x}"), "path": "/bin/app"}],
                })
                .to_string();
                if end == End::Fails {
                    t.truncate(t.len() / 2);
                }
                f.write_all(t.as_bytes()).unwrap();
                f.rewind().unwrap();
                self.service.process_apple_crash_report(None, scope("tenant"), f, nowhere(), ScrapingConfig::default(), options)
            }
        }
    }
}

/// What of an answer belongs to the request.
pub fn whose(kind: Kind, answer: &Value) -> Option<u64> {
    let n = match kind {
        Kind::Native | Kind::Dump | Kind::Apple => return answer["stacktraces"][0]["thread_id"].as_u64(),
        Kind::Js => answer["raw_stacktraces"][0]["frames"][0]["function"].as_str()?.strip_prefix('f')?,
        Kind::Jvm => answer["exceptions"][0]["type"].as_str()?.strip_prefix('C')?,
    };
    n.parse().ok()
}

pub fn to_json(r: Option<SymbolicationResponse>) -> Option<Value> {
    r.map(|r| serde_json::to_value(r).unwrap())
}

fn judge(kind: Kind, n: u64, end: End, candidates: bool, got: &Option<Value>) -> Option<&'static str> {
    let Some(v) = got else {
        // the request of a task that crashed is forgotten at once
        return if end == End::Crashes { None } else { Some("a request that was accepted is not known") };
    };
    let status = v["status"].as_str().unwrap_or("");
    match end {
        End::Crashes if status != "internal_error" => Some("a request whose task crashed is not answered with an internal error"),
        End::Fails if status != "failed" || v["message"].as_str().is_none_or(str::is_empty) => Some("a request that fails is not answered with the failure"),
        End::Done if status != "completed" => Some("a request is not answered with its result"),
        End::Done if whose(kind, v) != Some(n) => Some("a request is answered with the result of another"),
        End::Done if matches!(kind, Kind::Native | Kind::Dump | Kind::Apple) => {
            let any = v["modules"].as_array().is_some_and(|m| m.iter().any(|m| m["candidates"].as_array().is_some_and(|c| !c.is_empty())));
            match (candidates, any) {
                (true, false) => Some("the candidates that were asked for are not in the answer"),
                (false, true) => Some("candidates nobody asked for are in the answer"),
                _ => None,
            }
        }
        _ => None,
    }
}

fn app(work: &Path, max: Option<usize>, cached: bool, io: tokio::runtime::Handle, cpu: tokio::runtime::Handle) -> App {
    let dir = scratch(work, "c59");
    let mut extra = json!({"max_concurrent_requests": max, "minidump_processing_timeout": "1h"});
    if !cached {
        extra["cache_dir"] = Value::Null;
    }
    let cfg = config_in(&dir.join("cache"), extra);
    App { service: RequestService::create(cfg, io, cpu).unwrap(), dir }
}

fn hold(name: &str) -> oneshot::Sender<()> {
    processor::gate(name)
}

/// Many clients at once at a service that is almost full.
fn limits(ctx: &Ctx, rep: &mut Report, rng: &mut Rng, names: &AtomicUsize) {
    let io = crate::kit::rt(2);
    let cpu = crate::kit::rt(4);
    let max = 1 + rng.below(5);
    let a = Arc::new(app(&ctx.work, Some(max), true, io.handle().clone(), cpu.handle().clone()));
    let clients = 2 + rng.below(9);
    let wait = Duration::from_secs(if ctx.thorough { 20 } else { 10 });
    for _ in 0..if ctx.thorough { 12 } else { 6 } {
        rep.eval();
        let gate_name = format!("g{}", names.fetch_add(1, SeqCst));
        let gate = hold(&gate_name);
        processor::take_most();
        // some are there already
        let before = rng.below(max + 1);
        let mut running = vec![];
        let end_of = |rng: &mut Rng| *rng.pick(&[End::Done, End::Done, End::Crashes]);
        for _ in 0..before {
            let end = end_of(rng);
            let n = names.fetch_add(1, SeqCst) as u64;
            match a.ask(Kind::Dump, n, Some(&gate_name), end, false) {
                Ok(id) => running.push((id, n, end)),
                Err(_) => rep.violate("a request is rejected although there is room", json!({"limit": max, "in flight": running.len()})),
            }
        }
        let here = running.len();
        let live = Arc::new(AtomicUsize::new(here));
        let most = Arc::new(AtomicUsize::new(here));
        let barrier = Arc::new(Barrier::new(clients));
        let accepted = Arc::new(Mutex::new(vec![]));
        let rejected = Arc::new(AtomicUsize::new(0));
        let threads: Vec<_> = (0..clients)
            .map(|_| {
                let (a, live, most, barrier, accepted, rejected) = (a.clone(), live.clone(), most.clone(), barrier.clone(), accepted.clone(), rejected.clone());
                let (gate_name, end) = (gate_name.clone(), end_of(rng));
                let n = names.fetch_add(1, SeqCst) as u64;
                let pause = rng.below(3) as u32 * rng.below(400) as u32;
                std::thread::spawn(move || {
                    barrier.wait();
                    for _ in 0..pause {
                        std::hint::spin_loop();
                    }
                    match a.ask(Kind::Dump, n, Some(&gate_name), end, false) {
                        Ok(id) => {
                            most.fetch_max(live.fetch_add(1, SeqCst) + 1, SeqCst);
                            accepted.lock().unwrap().push((id, n, end));
                        }
                        Err(_) => {
                            rejected.fetch_add(1, SeqCst);
                        }
                    }
                })
            })
            .collect();
        for t in threads {
            t.join().unwrap();
        }
        running.extend(accepted.lock().unwrap().drain(..));
        let (most, rejected) = (most.load(SeqCst), rejected.load(SeqCst));
        rep.add("requests rejected", rejected as u64);
        rep.add("requests accepted", running.len() as u64);
        rep.distinct(("limit", max, before, clients, running.len()));
        if most > max {
            rep.violate("more requests are in flight than allowed", json!({"limit": max, "in flight": most, "before": before, "clients": clients}));
        }
        if running.len() < max.min(before + clients) {
            rep.violate("requests are rejected although there is room", json!({"limit": max, "in flight": running.len(), "clients": clients}));
        }
        // they are all held: nobody gets an answer, nobody else gets in
        cpu.block_on(async {
            for (id, ..) in running.iter().take(2) {
                match to_json(a.service.get_response(*id, Some(0)).await) {
                    Some(v) if v["status"] == "pending" => {
                        rep.count("polls of requests in progress");
                        if v["request_id"] != json!(id) || v["retry_after"].as_u64().is_none() {
                            rep.violate("a pending answer does not say how to go on", json!({"answer": v}));
                        }
                    }
                    v => rep.violate("a request in progress is not pending", json!({"answer": v})),
                }
            }
        });
        drop(gate);
        // some clients lose interest
        let gone = rng.below(3);
        cpu.block_on(async {
            for (id, n, end) in running.iter().skip(gone) {
                match tokio::time::timeout(wait, a.service.get_response(*id, None)).await {
                    Err(_) => rep.violate("a request is never answered", json!({"end": format!("{end:?}")})),
                    Ok(r) => {
                        rep.count(match end {
                            End::Crashes => "requests that crash",
                            _ => "requests answered",
                        });
                        if let Some(bad) = judge(Kind::Dump, *n, *end, false, &to_json(r)) {
                            rep.violate(bad, json!({"end": format!("{end:?}"), "limit": max}));
                        }
                    }
                }
            }
            if !eventually(|| processor::running() == 0).await {
                rep.violate("work goes on although all requests are answered", json!({}));
            }
        });
        let at_once = processor::take_most();
        if at_once > max {
            rep.violate("more requests are worked on than allowed", json!({"limit": max, "at once": at_once}));
        }
        // now there is room for as many as ever, whatever became of the ones before
        let gate_name = format!("g{}", names.fetch_add(1, SeqCst));
        let gate = hold(&gate_name);
        let mut got = vec![];
        let give_up = std::time::Instant::now() + wait;
        while got.len() < max && std::time::Instant::now() < give_up {
            match a.ask(Kind::Dump, 7, Some(&gate_name), End::Done, false) {
                Ok(id) => got.push(id),
                Err(_) => std::thread::sleep(Duration::from_millis(20)),
            }
        }
        if got.len() < max {
            let ends: Vec<_> = running.iter().map(|r| format!("{:?}", r.2)).collect();
            rep.violate("there is no room for new requests although none is in flight", json!({"limit": max, "accepted": got.len(), "requests before": ends}));
            drop(gate);
            return;
        }
        if a.ask(Kind::Jvm, 8, None, End::Done, false).is_ok() {
            rep.violate("a request more than allowed is accepted", json!({"limit": max}));
        }
        rep.count("services filled again");
        drop(gate);
        cpu.block_on(async {
            for id in got {
                if tokio::time::timeout(wait, a.service.get_response(id, None)).await.is_err() {
                    rep.violate("a request is never answered", json!({}));
                }
            }
            // the answer is there a moment before the room is
            tokio::time::sleep(Duration::from_millis(50)).await;
        });
    }
    let _ = std::fs::remove_dir_all(&a.dir);
    io.shutdown_background();
    cpu.shutdown_background();
    processor::forget_gates();
}

/// Requests of all kinds at once, polled by several clients each.
fn answers(ctx: &Ctx, rep: &mut Report, rng: &mut Rng, names: &AtomicUsize) {
    let io = crate::kit::rt(2);
    let cpu = crate::kit::rt(4);
    let a = Arc::new(app(&ctx.work, None, rng.chance(1, 2), io.handle().clone(), cpu.handle().clone()));
    rep.eval();
    let mut tasks = vec![];
    for _ in 0..20 + rng.below(40) {
        let kind = *rng.pick(&KINDS);
        let end = match kind {
            Kind::Dump => *rng.pick(&[End::Done, End::Done, End::Fails, End::Crashes]),
            Kind::Apple => *rng.pick(&[End::Done, End::Fails]),
            _ => End::Done,
        };
        let candidates = rng.chance(1, 2);
        let n = 1 + names.fetch_add(1, SeqCst) as u64;
        let pollers: Vec<_> = (0..1 + rng.below(3)).map(|_| (rng.below(3), 1 + rng.below(4), *rng.pick(&[None, None, Some(0), Some(5)]))).collect();
        let a = a.clone();
        tasks.push(cpu.spawn(async move {
            let mut bad: Vec<(String, Value)> = vec![];
            let what = json!({"kind": format!("{kind:?}"), "end": format!("{end:?}"), "candidates": candidates});
            let Ok(id) = a.ask(kind, n, None, end, candidates) else {
                return (kind, end, 0, vec![("a request is rejected although there is no limit".to_string(), what)]);
            };
            let mut answers = vec![];
            let polls = pollers.into_iter().map(|(late, times, timeout)| {
                let a = a.clone();
                async move {
                    let mut got = vec![];
                    for _ in 0..late {
                        tokio::task::yield_now().await;
                    }
                    let mut left = times;
                    while left > 0 {
                        let r = to_json(a.service.get_response(id, timeout).await);
                        match r {
                            Some(v) if v["status"] == "pending" && timeout.is_some() => {
                                if v["request_id"] != json!(id) {
                                    got.push(Some(v));
                                    left -= 1;
                                }
                                tokio::time::sleep(Duration::from_millis(5)).await;
                            }
                            r => {
                                got.push(r);
                                left -= 1;
                            }
                        }
                    }
                    got
                }
            });
            match tokio::time::timeout(Duration::from_secs(30), futures::future::join_all(polls)).await {
                Err(_) => bad.push(("a request is never answered".into(), what.clone())),
                Ok(all) => answers.extend(all.into_iter().flatten()),
            }
            for got in &answers {
                if let Some(b) = judge(kind, n, end, candidates, got) {
                    bad.push((b.into(), json!({"request": what, "answer": got})));
                }
            }
            if end != End::Crashes && answers.windows(2).any(|w| w[0] != w[1]) {
                bad.push(("a request is answered differently when polled again".into(), what));
            }
            (kind, end, answers.len(), bad)
        }));
    }
    cpu.block_on(async {
        for t in tasks {
            let (kind, end, polls, bad) = t.await.unwrap();
            rep.count(&format!("answers: {kind:?} {end:?}"));
            rep.add("polls", polls as u64);
            rep.distinct((kind, end, polls));
            for (b, d) in bad {
                rep.violate(b, d);
            }
        }
        // ids nobody was given
        for _ in 0..4 {
            let id: RequestId = serde_json::from_value(match rng.below(3) {
                0 => json!("not a uuid"),
                _ => json!(symbolic::common::Uuid::from_slice(&rng.bytes(16)).unwrap()),
            })
            .unwrap();
            if let Some(v) = to_json(a.service.get_response(id, Some(0)).await) {
                rep.violate("a request nobody made is answered", json!({"answer": v}));
            }
            rep.count("polls of unknown requests");
        }
    });
    let left: Vec<_> = std::fs::read_dir(&a.dir).unwrap().flatten().filter(|e| e.path().is_file()).collect();
    if !left.is_empty() {
        rep.violate("a minidump stays behind where it was uploaded", json!({"files": left.len()}));
    }
    let _ = std::fs::remove_dir_all(&a.dir);
    io.shutdown_background();
    cpu.shutdown_background();
}

/// What depends on the clock, with a clock that jumps.
fn clock(ctx: &Ctx, rep: &mut Report, rng: &mut Rng, names: &AtomicUsize) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let max = 1 + rng.below(3);
    rep.eval();
    rt.block_on(async {
        let h = tokio::runtime::Handle::current();
        let a = app(&ctx.work, Some(max), rng.chance(1, 2), h.clone(), h);
        let now = tokio::time::Instant::now;
        let secs = Duration::from_secs_f64;
        for _ in 0..3 {
            // a request that takes its time
            let gate_name = format!("g{}", names.fetch_add(1, SeqCst));
            let gate = hold(&gate_name);
            let n = 1 + names.fetch_add(1, SeqCst) as u64;
            let start = now();
            let end = *rng.pick(&[End::Done, End::Done, End::Crashes]);
            let Ok(id) = a.ask(Kind::Dump, n, Some(&gate_name), end, false) else {
                rep.violate("there is no room for new requests although none is in flight", json!({"limit": max, "clock": true}));
                return;
            };
            let total = match rng.below(4) {
                0 => None,
                1 => Some(890.0 + rng.below(90) as f64 / 10.0),
                _ => Some(rng.below(8000) as f64 / 10.0),
            };
            // polls while it is going on
            for _ in 0..1 + rng.below(3) {
                let left = total.unwrap_or(899.0) - start.elapsed().as_secs_f64();
                if left < 2.0 {
                    break;
                }
                let t = rng.below(left as usize) as u64;
                let from = now();
                let v = to_json(a.service.get_response(id, Some(t)).await);
                let took = from.elapsed().as_secs_f64();
                if v.as_ref().is_none_or(|v| v["status"] != "pending") {
                    rep.violate("a request in progress is not pending", json!({"answer": v, "after": start.elapsed().as_secs_f64()}));
                    return;
                }
                if took < t as f64 || took > t as f64 + 1.0 {
                    rep.violate("a poll does not take as long as it was told to wait", json!({"timeout": t, "took": took}));
                }
                rep.count("polls that time out");
            }
            if let Some(t) = total {
                tokio::time::sleep_until(start + secs(t)).await;
                drop(gate);
            }
            let v = to_json(a.service.get_response(id, None).await);
            let at = start.elapsed().as_secs_f64();
            rep.distinct(("clock", end, total.map(|t| t as u64 / 30)));
            match total {
                None => {
                    rep.count("requests that take forever");
                    if v.as_ref().is_none_or(|v| v["status"] != "timeout") || !(899.0..902.0).contains(&at) {
                        rep.violate("a request that takes forever is not given up after a quarter of an hour", json!({"answer": v, "after": at}));
                        return;
                    }
                }
                Some(t) => {
                    rep.count("requests that take long");
                    if let Some(b) = judge(Kind::Dump, n, end, false, &v) {
                        rep.violate(b, json!({"took": t, "answer": v}));
                    }
                    if at > t + 2.0 {
                        rep.violate("an answer is late", json!({"took": t, "after": at}));
                    }
                }
            }
            // the answer is there for a minute and a half, however often somebody asks
            if end != End::Crashes || total.is_none() {
                let done = now();
                let mut at = 0.0;
                for _ in 0..1 + rng.below(4) {
                    at += rng.below(((89.0 - at) * 10.0) as usize + 1) as f64 / 10.0;
                    tokio::time::sleep_until(done + secs(at)).await;
                    let again = to_json(a.service.get_response(id, *rng.pick(&[None, Some(0), Some(3)])).await);
                    rep.count("answers polled again later");
                    if again != v {
                        rep.violate("an answer is not kept for those who ask again", json!({"after": at, "answer": again}));
                        break;
                    }
                }
                tokio::time::sleep_until(done + secs(95.0 + rng.below(100) as f64)).await;
                if let Some(v) = to_json(a.service.get_response(id, Some(0)).await) {
                    rep.violate("an answer is kept for longer than documented", json!({"answer": v}));
                }
                rep.count("answers forgotten");
            }
            // all of it is there again
            tokio::time::sleep(secs(1.0)).await;
            let gate_name = format!("g{}", names.fetch_add(1, SeqCst));
            let gate = hold(&gate_name);
            let mut got = vec![];
            for _ in 0..max {
                got.extend(a.ask(Kind::Dump, 7, Some(&gate_name), End::Done, false).ok());
            }
            if got.len() < max {
                rep.violate("there is no room for new requests although none is in flight", json!({"limit": max, "accepted": got.len(), "end": format!("{end:?}"), "timed out": total.is_none()}));
                return;
            }
            drop(gate);
            for id in got {
                a.service.get_response(id, None).await;
            }
            tokio::time::sleep(secs(1.0)).await;
        }
        let _ = std::fs::remove_dir_all(&a.dir);
    });
    rt.shutdown_background();
    processor::forget_gates();
}

/// Many requests at the very same moment, over and over.
fn storm(ctx: &Ctx, rep: &mut Report, rng: &mut Rng, names: &AtomicUsize) {
    let io = crate::kit::rt(1);
    let cpu = crate::kit::rt(2);
    let max = 1 + rng.below(3);
    let a = app(&ctx.work, Some(max), false, io.handle().clone(), cpu.handle().clone());
    for _ in 0..if ctx.thorough { 150 } else { 60 } {
        rep.eval();
        let gate_name = format!("g{}", names.fetch_add(1, SeqCst));
        let gate = hold(&gate_name);
        let clients = max + 1 + rng.below(5);
        let ready = AtomicUsize::new(0);
        let got: Vec<_> = std::thread::scope(|s| {
            let threads: Vec<_> = (0..clients)
                .map(|_| {
                    let request = a.dump_request(1, Some(&gate_name), End::Done);
                    let (a, ready) = (&a, &ready);
                    s.spawn(move || {
                        ready.fetch_add(1, SeqCst);
                        while ready.load(SeqCst) < clients {
                            std::hint::spin_loop();
                        }
                        a.service.process_minidump(request, RequestOptions::default()).ok()
                    })
                })
                .collect();
            threads.into_iter().filter_map(|t| t.join().unwrap()).collect()
        });
        rep.add("requests at the same moment", clients as u64);
        if got.len() > max {
            rep.violate("more requests are accepted at the same moment than allowed", json!({"limit": max, "clients": clients, "accepted": got.len()}));
        }
        if got.is_empty() {
            // the answers to those before were there a moment before the room was
            let give_up = std::time::Instant::now() + Duration::from_secs(20);
            while a.ask(Kind::Dump, 1, Some(&gate_name), End::Done, false).is_err() {
                if std::time::Instant::now() > give_up {
                    rep.violate("all requests are rejected although none is in flight", json!({"limit": max, "clients": clients}));
                    break;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
        }
        drop(gate);
        cpu.block_on(async {
            for id in got {
                if tokio::time::timeout(Duration::from_secs(20), a.service.get_response(id, None)).await.is_err() {
                    rep.violate("a request is never answered", json!({}));
                }
            }
            tokio::time::sleep(Duration::from_millis(5)).await;
        });
    }
    let _ = std::fs::remove_dir_all(&a.dir);
    io.shutdown_background();
    cpu.shutdown_background();
    processor::forget_gates();
}

/// Requests of all kinds at once, polled by several clients each.
pub fn c59(ctx: &Ctx) -> Report {
    let mut rep = Report::new("never more requests in flight than allowed, room for as many again when they are over, each answered with its own result for 90 s");
    let mut rng = Rng::new(ctx.seed ^ 0x59);
    let names = AtomicUsize::new(1);
    while ctx.time_left() && rep.violations.len() < 25 {
        storm(ctx, &mut rep, &mut rng, &names);
        limits(ctx, &mut rep, &mut rng, &names);
        answers(ctx, &mut rep, &mut rng, &names);
        clock(ctx, &mut rep, &mut rng, &names);
    }
    for k in [
        "requests at the same moment",
        "requests accepted",
        "requests rejected",
        "requests answered",
        "requests that crash",
        "services filled again",
        "polls of requests in progress",
        "polls of unknown requests",
        "polls that time out",
        "requests that take long",
        "requests that take forever",
        "answers polled again later",
        "answers forgotten",
        "answers: Native Done",
        "answers: Js Done",
        "answers: Jvm Done",
        "answers: Dump Done",
        "answers: Dump Fails",
        "answers: Dump Crashes",
        "answers: Apple Done",
        "answers: Apple Fails",
    ] {
        rep.require(k, 3);
    }
    rep
}
