//! Monitor of the configuration: files mean what they say, the rest is as documented (C46).
use crate::common::{Ctx, Report, Rng};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::Path;
use std::time::Duration;
use symbolicator_service::config::{CacheConfig, Config};

type Flat = BTreeMap<String, String>;

/// All that a configuration says, by the name of the option.
fn flat(c: &Config) -> Flat {
    let mut m = Flat::new();
    macro_rules! take { ($($($p:ident).+),* $(,)?) => { $( m.insert(stringify!($($p).+).replace(' ', ""), format!("{:?}", c.$($p).+)); )* } }
    take!(
        cache_dir, bind, logging.format, logging.enable_backtraces, metrics.statsd, metrics.prefix, metrics.hostname_tag,
        metrics.environment_tag, metrics.platform_tag, metrics.custom_tags, symstore_proxy, connect_to_reserved_ips,
        max_download_timeout, connect_timeout, head_timeout, streaming_timeout, deny_list_enabled, deny_list_time_window,
        deny_list_bucket_size, deny_list_threshold, deny_list_block_time, deny_list_never_block_hosts, max_concurrent_requests,
        traces_sample_rate, propagate_traces, caches.downloaded.max_lazy_redownloads, caches.derived.max_lazy_recomputations,
        caches.index.max_lazy_recomputations, caches.in_memory.sentry_index_capacity, caches.in_memory.sentry_index_ttl,
        caches.in_memory.gcs_token_capacity, caches.in_memory.s3_client_capacity, caches.in_memory.object_meta_capacity,
        caches.in_memory.cficaches_capacity, caches.in_memory.fileinbundle_capacity, caches.in_memory.source_index_capacity,
    );
    m.insert("logging.level".into(), c.logging.level.to_string());
    m.insert("sentry_dsn".into(), c.sentry_dsn.as_ref().map(|d| d.0.clone()).unwrap_or("None".into()));
    // as the caches see them
    for (name, k) in [
        ("downloaded", CacheConfig::from(c.caches.downloaded)),
        ("derived", CacheConfig::from(c.caches.derived)),
        ("index", CacheConfig::from(c.caches.index)),
    ] {
        m.insert(format!("caches.{name}.max_unused_for"), format!("{:?}", k.max_unused_for()));
        m.insert(format!("caches.{name}.retry_misses_after"), format!("{:?}", k.retry_misses_after()));
        m.insert(format!("caches.{name}.retry_misses_after_public"), format!("{:?}", k.retry_misses_after_public()));
        m.insert(format!("caches.{name}.retry_malformed_after"), format!("{:?}", k.retry_malformed_after()));
    }
    let k = CacheConfig::from(c.caches.diagnostics);
    m.insert("caches.diagnostics.retention".into(), format!("{:?}", k.max_unused_for()));
    m.insert("(diagnostics are never computed again)".into(), format!("{:?}", (k.retry_misses_after(), k.retry_misses_after_public(), k.retry_malformed_after())));
    let ids: Vec<_> = c.default_sources().iter().map(|s| s.id().to_string()).collect();
    m.insert("sources".into(), format!("{ids:?}"));
    m.insert(
        "shared_cache".into(),
        c.shared_cache.as_ref().map(|s| format!("{} {} {}", s.max_concurrent_uploads, s.max_upload_queue_size, serde_json::to_value(&s.backend).unwrap())).unwrap_or("None".into()),
    );
    m.insert("(a cache)".into(), format!("{:?}", c.cache_dir("objects")));
    m
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Bool,
    Duration,
    Expiry,
    Count,
    Limit,
    Lazy,
    Rate,
    Text,
    Tag,
    Dir,
    Level,
    Format,
    Hosts,
    Tags,
    Dsn,
    Sources,
    Shared,
}
use Kind::*;

const HOUR: u64 = 3600;
const DAY: u64 = 24 * HOUR;
const MIB: u64 = 1 << 20;

fn secs(n: u64) -> String {
    format!("{:?}", Duration::from_secs(n))
}

fn some_secs(n: u64) -> String {
    format!("{:?}", Some(Duration::from_secs(n)))
}

/// The options there are, and what they are if nothing is said.
fn options(statsd: &Option<String>) -> Vec<(&'static str, Kind, String)> {
    let docker = Path::new("/.dockerenv").exists() || std::fs::read_to_string("/proc/self/cgroup").map(|s| s.contains("/docker")).unwrap_or(false);
    let none = || "None".to_string();
    let quoted = |s: &str| format!("{s:?}");
    vec![
        ("cache_dir", Dir, if docker { "Some(\"/data\")".into() } else { none() }),
        ("bind", Text, quoted(if docker { "0.0.0.0:3021" } else { "127.0.0.1:3021" })),
        ("logging.level", Level, "info".into()),
        ("logging.format", Format, "Auto".into()),
        ("logging.enable_backtraces", Bool, "true".into()),
        ("metrics.statsd", Tag, format!("{statsd:?}")),
        ("metrics.prefix", Text, quoted("symbolicator")),
        ("metrics.hostname_tag", Tag, none()),
        ("metrics.environment_tag", Tag, none()),
        ("metrics.platform_tag", Tag, none()),
        ("metrics.custom_tags", Tags, "{}".into()),
        ("sentry_dsn", Dsn, none()),
        ("symstore_proxy", Bool, "true".into()),
        ("connect_to_reserved_ips", Bool, "false".into()),
        ("max_download_timeout", Kind::Duration, secs(300)),
        ("connect_timeout", Kind::Duration, secs(1)),
        ("head_timeout", Kind::Duration, secs(5)),
        ("streaming_timeout", Kind::Duration, secs(250)),
        ("deny_list_enabled", Bool, "true".into()),
        ("deny_list_time_window", Kind::Duration, secs(60)),
        ("deny_list_bucket_size", Kind::Duration, secs(5)),
        ("deny_list_threshold", Count, "20".into()),
        ("deny_list_block_time", Kind::Duration, secs(DAY)),
        ("deny_list_never_block_hosts", Hosts, "[]".into()),
        ("max_concurrent_requests", Limit, "Some(200)".into()),
        ("traces_sample_rate", Rate, "0.05".into()),
        ("propagate_traces", Bool, "true".into()),
        ("sources", Sources, "[]".into()),
        ("shared_cache", Shared, none()),
        ("caches.downloaded.max_unused_for", Expiry, some_secs(DAY)),
        ("caches.downloaded.retry_misses_after", Expiry, some_secs(HOUR)),
        ("caches.downloaded.retry_misses_after_public", Expiry, some_secs(DAY)),
        ("caches.downloaded.retry_malformed_after", Expiry, some_secs(DAY)),
        ("caches.downloaded.max_lazy_redownloads", Lazy, "50".into()),
        ("caches.derived.max_unused_for", Expiry, some_secs(7 * DAY)),
        ("caches.derived.retry_misses_after", Expiry, some_secs(HOUR)),
        ("caches.derived.retry_misses_after_public", Expiry, some_secs(DAY)),
        ("caches.derived.retry_malformed_after", Expiry, some_secs(DAY)),
        ("caches.derived.max_lazy_recomputations", Lazy, "20".into()),
        ("caches.index.max_unused_for", Expiry, some_secs(7 * DAY)),
        ("caches.index.retry_misses_after", Expiry, some_secs(600)),
        ("caches.index.retry_misses_after_public", Expiry, some_secs(600)),
        ("caches.index.retry_malformed_after", Expiry, some_secs(600)),
        ("caches.index.max_lazy_recomputations", Lazy, "20".into()),
        ("caches.diagnostics.retention", Expiry, some_secs(DAY)),
        ("caches.in_memory.sentry_index_capacity", Count, "100000".into()),
        ("caches.in_memory.sentry_index_ttl", Kind::Duration, secs(HOUR)),
        ("caches.in_memory.gcs_token_capacity", Count, "100".into()),
        ("caches.in_memory.s3_client_capacity", Count, "100".into()),
        ("caches.in_memory.object_meta_capacity", Count, (100 * MIB).to_string()),
        ("caches.in_memory.cficaches_capacity", Count, (400 * MIB).to_string()),
        ("caches.in_memory.fileinbundle_capacity", Count, (3 * 1024 * MIB).to_string()),
        ("caches.in_memory.source_index_capacity", Count, (10 * MIB).to_string()),
    ]
}

/// A period as people write it, and what it is.
fn period(rng: &mut Rng) -> (String, Duration) {
    const UNITS: [(&str, u64); 19] = [
        ("s", 1), ("sec", 1), ("seconds", 1), ("m", 60), ("min", 60), ("minutes", 60), ("h", HOUR), ("hours", HOUR), ("hour", HOUR), ("d", DAY), ("days", DAY), ("w", 7 * DAY), ("weeks", 7 * DAY),
        ("M", 2_630_016), ("months", 2_630_016), ("y", 31_557_600), ("years", 31_557_600), ("day", DAY), ("second", 1),
    ];
    let mut text = vec![];
    let mut all = Duration::ZERO;
    for _ in 0..1 + rng.below(2) * rng.below(3) {
        let (unit, n) = rng.pick(&UNITS);
        let k = rng.below(50) as u64;
        text.push(format!("{k}{}{unit}", rng.pick(&["", "", " "])));
        all += Duration::from_secs(k * n);
    }
    if rng.chance(1, 5) {
        let k = rng.below(1000) as u64;
        text.push(format!("{k}ms"));
        all += Duration::from_millis(k);
    }
    (text.join(rng.pick(&[" ", ""])), all)
}

fn word(rng: &mut Rng) -> String {
    rng.pick(&["a", "server", "some thing", "x:1", "10", "null", "ünï", "", "a#b", "true", "127.0.0.1:8125", "it's", "\"q\""]).to_string()
}

/// A value to write for an option, and what it is then.
fn value(rng: &mut Rng, kind: Kind) -> (Value, String) {
    match kind {
        Bool => {
            let b = rng.chance(1, 2);
            (json!(b), format!("{b:?}"))
        }
        Kind::Duration => {
            let (t, d) = period(rng);
            (json!(t), format!("{d:?}"))
        }
        Expiry => {
            if rng.chance(1, 3) {
                return (Value::Null, "None".into());
            }
            let (t, d) = period(rng);
            (json!(t), format!("{:?}", Some(d)))
        }
        Count => {
            let n = rng.next() >> (16 + rng.below(48));
            (json!(n), n.to_string())
        }
        Limit => {
            if rng.chance(1, 3) {
                return (Value::Null, "None".into());
            }
            let n = rng.below(1000);
            (json!(n), format!("{:?}", Some(n)))
        }
        Lazy => {
            let n = rng.below(200) as i64 - 50;
            (json!(n), n.to_string())
        }
        Rate => {
            let n = rng.below(9) as f32 / 8.0;
            (json!(n), format!("{n:?}"))
        }
        Text => {
            let w = word(rng);
            (json!(w), format!("{w:?}"))
        }
        Tag => {
            if rng.chance(1, 4) {
                return (Value::Null, "None".into());
            }
            let w = word(rng);
            (json!(w), format!("{:?}", Some(w)))
        }
        Dir => {
            if rng.chance(1, 4) {
                return (Value::Null, "None".into());
            }
            let w = *rng.pick(&["/var/cache", "relative/dir", "/with space/x", "C:\\x", "/"]);
            (json!(w), format!("{:?}", Some(w)))
        }
        Level => {
            let w = *rng.pick(&["off", "error", "warn", "info", "debug", "trace"]);
            (json!(w), w.into())
        }
        Format => {
            let (w, f) = *rng.pick(&[("auto", "Auto"), ("pretty", "Pretty"), ("simplified", "Simplified"), ("json", "Json")]);
            (json!(w), f.into())
        }
        Hosts => {
            let w: Vec<_> = (0..rng.below(4)).map(|_| word(rng)).collect();
            (json!(w), format!("{w:?}"))
        }
        Tags => {
            let w: BTreeMap<_, _> = (0..rng.below(4)).map(|_| (word(rng), word(rng))).collect();
            (json!(w), format!("{w:?}"))
        }
        Dsn => {
            if rng.chance(1, 4) {
                return (Value::Null, "None".into());
            }
            let w = format!("https://key{}@sentry.example/{}", rng.below(9), 1 + rng.below(99));
            (json!(w), w)
        }
        Sources => {
            let ids: Vec<_> = (0..rng.below(4)).map(|i| format!("{}{i}", rng.pick(&["x", "Y", "some:id"]))).collect();
            let list: Vec<_> = ids
                .iter()
                .map(|id| match rng.below(3) {
                    0 => json!({"id": id, "type": "filesystem", "path": "/p", "layout": {"type": "unified"}}),
                    1 => json!({"id": id, "type": "http", "url": "https://example.com/s/", "layout": {"type": "symstore"}, "is_public": true}),
                    _ => json!({"id": id, "type": "s3", "bucket": "b", "region": "us-east-1", "access_key": "a", "secret_key": "s", "layout": {"type": "native"}}),
                })
                .collect();
            (json!(list), format!("{ids:?}"))
        }
        Shared => {
            let (mut v, backend) = if rng.chance(1, 2) {
                (json!({"filesystem": {"path": "/shared"}}), json!({"filesystem": {"path": "/shared"}}))
            } else {
                (json!({"gcs": {"bucket": "b"}}), json!({"gcs": {"bucket": "b", "service_account_path": null}}))
            };
            let (mut uploads, mut queue) = (20, 400);
            if rng.chance(1, 2) {
                uploads = 1 + rng.below(99);
                v["max_concurrent_uploads"] = json!(uploads);
            }
            if rng.chance(1, 2) {
                queue = 1 + rng.below(99);
                v["max_upload_queue_size"] = json!(queue);
            }
            (v, format!("{uploads} {queue} {backend}"))
        }
    }
}

/// Something that is no value for an option.
fn no_value(rng: &mut Rng, kind: Kind) -> Option<Value> {
    Some(match kind {
        Bool => rng.pick(&[json!("maybe"), json!(3), json!([]), json!({}), Value::Null]).clone(),
        Kind::Duration => rng.pick(&[json!("1 parsec"), json!("soon"), json!(""), json!("-1s"), json!([1]), json!("1"), Value::Null]).clone(),
        Expiry => rng.pick(&[json!("1 parsec"), json!("never"), json!(""), json!("-1s"), json!([1]), json!("1")]).clone(),
        Count => rng.pick(&[json!(-1), json!("many"), json!(1.5), json!([]), Value::Null]).clone(),
        Limit => rng.pick(&[json!(-1), json!("many"), json!(1.5), json!([])]).clone(),
        Lazy => rng.pick(&[json!("many"), json!(1.5), json!({}), Value::Null]).clone(),
        Rate => rng.pick(&[json!("often"), json!([]), Value::Null]).clone(),
        Text | Tag | Dir => rng.pick(&[json!([]), json!({"a": 1})]).clone(),
        Level => rng.pick(&[json!("loud"), json!("INFOS"), json!(""), json!([])]).clone(),
        Format => rng.pick(&[json!("xml"), json!(""), json!([])]).clone(),
        Hosts => rng.pick(&[json!("host"), json!({"a": 1}), json!([[]])]).clone(),
        Tags => rng.pick(&[json!("tag"), json!(["a"]), json!({"a": []})]).clone(),
        Dsn => rng.pick(&[json!(["x"]), json!({})]).clone(),
        Sources => rng.pick(&[json!("s3"), json!([{"id": "x"}]), json!([{"id": "x", "type": "ftp"}]), json!({"a": 1})]).clone(),
        Shared => rng.pick(&[json!("gcs"), json!({"filesystem": {}}), json!({"tape": {}}), json!({"gcs": {}}), json!({"max_concurrent_uploads": 3})]).clone(),
    })
}

fn put(v: &mut Value, path: &str, x: Value) {
    let mut at = v;
    for p in path.split('.') {
        if !at.is_object() {
            *at = json!({});
        }
        at = at.as_object_mut().unwrap().entry(p).or_insert(Value::Null);
    }
    *at = x;
}

/// The document in one of the ways of writing it.
fn written(rng: &mut Rng, v: &Value) -> String {
    let mut s = match rng.below(3) {
        0 => serde_json::to_string(v).unwrap(),
        1 => serde_json::to_string_pretty(v).unwrap(),
        _ => serde_yaml::to_string(v).unwrap(),
    };
    if rng.chance(1, 4) {
        s = format!("# the configuration\n\n{s}\n# end\n");
    }
    if rng.chance(1, 8) && !s.starts_with('#') {
        s = format!("---\n{s}");
    }
    s
}

/// What the web may be asked for, in requests: with nothing said, everything may be, with its certificate checked.
fn scraping_defaults(rng: &mut Rng, rep: &mut Report) {
    use symbolicator_service::types::ScrapingConfig;
    let d = ScrapingConfig::default();
    let shown = |c: &ScrapingConfig| format!("{} {} {:?} {:?}", c.enabled, c.verify_ssl, c.allowed_origins, c.headers);
    if shown(&d) != "true true [\"*\"] {}" {
        rep.violate("the default for scraping is not as documented", json!({"is": shown(&d)}));
    }
    let (enabled, verify) = (rng.chance(1, 2), *rng.pick(&[None, None, Some(true), Some(false)]));
    let origins: Vec<String> = (0..rng.below(3)).map(|_| word(rng)).collect();
    let mut v = json!({"enabled": enabled, "allowed_origins": origins, "headers": {"x": "y"}});
    if let Some(x) = verify {
        v["verify_ssl"] = json!(x);
    }
    let want = format!("{enabled} {} {origins:?} {:?}", verify.unwrap_or(true), BTreeMap::from([("x", "y")]));
    match serde_json::from_value::<ScrapingConfig>(v.clone()) {
        Ok(c) if shown(&c) == want => rep.count("scraping configurations"),
        Ok(c) => rep.violate("a scraping configuration is not as written", json!({"written": v, "is": shown(&c), "should be": want})),
        Err(e) => rep.violate("a scraping configuration is refused", json!({"written": v, "error": e.to_string()})),
    }
}

pub fn c46(ctx: &Ctx) -> Report {
    let mut rep = Report::new("options written are as written, all others as documented, and nothing that is no configuration is taken for one");
    let mut rng = Rng::new(ctx.seed ^ 0x46);
    let file = ctx.work.join("config.yml");
    let rounds = if ctx.thorough { 200_000 } else { 20_000 };
    for _ in 0..rounds {
        if !ctx.time_left() || rep.violations.len() >= 25 {
            break;
        }
        rep.eval();
        let statsd = rng.chance(1, 3).then(|| word(&mut rng));
        match &statsd {
            Some(s) => std::env::set_var("STATSD_SERVER", s),
            None => std::env::remove_var("STATSD_SERVER"),
        }
        let all = options(&statsd);
        let mut want: Flat = all.iter().map(|(k, _, d)| (k.to_string(), d.clone())).collect();
        let mut doc = Value::Object(Map::new());
        let chosen: Vec<_> = match rng.below(4) {
            0 => vec![rng.below(all.len())],
            1 => (0..all.len()).collect(),
            _ => (0..all.len()).filter(|_| rng.chance(1, 4)).collect(),
        };
        for &i in &chosen {
            let (k, kind, _) = &all[i];
            let (v, is) = value(&mut rng, *kind);
            let name = if *k == "traces_sample_rate" && rng.chance(1, 2) { "transaction_sample_rate" } else { k };
            put(&mut doc, name, v);
            want.insert(k.to_string(), is);
            rep.distinct((*k, rng.below(50)));
        }
        if rng.chance(1, 3) {
            let at = *rng.pick(&["unknown", "caches.unknown", "logging.unknown", "caches.derived.unknown", "metrics.unknown"]);
            put(&mut doc, at, json!(["what", {"ever": 1}]));
            rep.count("files with unknown options");
        }
        let bad = rng.chance(1, 4).then(|| {
            let (k, kind, _) = rng.pick(&all);
            no_value(&mut rng, *kind).map(|v| {
                put(&mut doc, k, v.clone());
                format!("{k}: {v}")
            })
        });
        if doc.as_object().unwrap().is_empty() {
            continue;
        }
        let text = written(&mut rng, &doc);
        if rng.chance(1, 20) {
            // not a configuration at all
            let text = rng.pick(&["", " \n\t\n", "- a\n- b\n", "just text", "a: b: c", "{", "\u{0}", "logging: [\n"]);
            std::fs::write(&file, text).unwrap();
            rep.count("files that are no configuration");
            if Config::get(Some(&file)).is_ok() {
                rep.violate("something else is taken for a configuration", json!({"file": text}));
            }
            let _ = std::fs::remove_file(&file);
            if Config::get(Some(&file)).is_ok() {
                rep.violate("a missing file is taken for a configuration", json!({}));
            }
            // no file is not the same as an empty one
            let got = flat(&Config::get(None).unwrap());
            for (k, _, d) in &all {
                if got.get(*k) != Some(d) {
                    rep.violate("an option is not as documented without a file", json!({"option": k, "is": got.get(*k), "documented": d}));
                }
            }
            continue;
        }
        scraping_defaults(&mut rng, &mut rep);
        std::fs::write(&file, &text).unwrap();
        let got = Config::get(Some(&file));
        if let Some(Some(b)) = bad {
            rep.count("files with broken options");
            if got.is_ok() {
                rep.violate("a broken option is accepted", json!({"option": b, "file": text}));
            }
            continue;
        }
        let got = match got {
            Ok(c) => flat(&c),
            Err(e) => {
                rep.violate("a valid file is refused", json!({"file": text, "error": format!("{e:#}")}));
                continue;
            }
        };
        rep.add("options written", chosen.len() as u64);
        rep.add("options left out", (all.len() - chosen.len()) as u64);
        let dir: Option<String> = chosen.iter().find(|i| all[**i].0 == "cache_dir").and_then(|_| doc["cache_dir"].as_str().map(str::to_string));
        let dir = if want["cache_dir"] == "Some(\"/data\")" && dir.is_none() { Some("/data".to_string()) } else { dir };
        want.insert("(a cache)".into(), format!("{:?}", dir.map(|d| Path::new(&d).join("objects"))));
        want.insert("(diagnostics are never computed again)".into(), "(None, None, None)".into());
        for (k, w) in &want {
            if got.get(k) != Some(w) {
                let written = chosen.iter().any(|i| all[*i].0 == k);
                let sig = if written { "an option is not as written" } else { "an option that is not written is not as documented" };
                rep.violate(sig, json!({"option": k, "is": got.get(k), "should be": w, "file": text}));
            }
        }
    }
    for k in ["options written", "options left out", "files with unknown options", "files with broken options", "files that are no configuration", "scraping configurations"] {
        rep.require(k, 20);
    }
    rep
}
