//! Monitor of the metrics: what is recorded is reported, once (C45).
use crate::common::{Ctx, Report, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use symbolicator_service::{metric, metrics};

/// Type, name and tags.
type Key = (String, String, BTreeMap<String, String>);

#[derive(Default)]
struct Recorded {
    counters: BTreeMap<Key, i64>,
    values: BTreeMap<Key, Vec<String>>,
    sets: BTreeMap<Key, BTreeSet<String>>,
    gauges: BTreeMap<Key, Vec<String>>,
    records: u64,
}

impl Recorded {
    fn merge(&mut self, o: Recorded) {
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.values {
            self.values.entry(k).or_default().extend(v);
        }
        for (k, v) in o.sets {
            self.sets.entry(k).or_default().extend(v);
        }
        for (k, v) in o.gauges {
            self.gauges.entry(k).or_default().extend(v);
        }
        self.records += o.records;
    }
}

const NAMES: [&str; 5] = ["requests.accepted", "a", "caches.file.size", "a.b", "futures.done"];
const VALUES: [&str; 6] = ["ok", "canceled", "", "a b", "x-y_z", "0"];

fn tags(list: &[(&str, &str)]) -> BTreeMap<String, String> {
    list.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}

fn key(ty: &str, name: &str, list: &[(&str, &str)]) -> Key {
    (ty.into(), name.into(), tags(list))
}

fn recorder(mut rng: Rng, me: usize, until: Instant) -> Recorded {
    let mut r = Recorded::default();
    let own = format!("thread{me}");
    let mut stop = 200 + rng.below(4000);
    while Instant::now() < until && stop > 0 {
        stop -= 1;
        r.records += 1;
        let name = *rng.pick(&NAMES);
        let (a, b) = (*rng.pick(&VALUES), *rng.pick(&VALUES));
        let how = rng.below(3);
        let some: &[(&str, &str)] = match how {
            0 => &[],
            1 => &[("status", a)],
            _ => &[("status", a), ("task_name", b)],
        };
        match rng.below(8) {
            0 | 1 => {
                let n = match rng.below(8) {
                    0 => 0,
                    1 => -(rng.below(100) as i64),
                    2 => rng.next() as i64 >> 20,
                    _ => 1,
                };
                match how {
                    0 => metric!(counter(name) += n),
                    1 => metric!(counter(name) += n, "status" => a),
                    _ => metric!(counter(name) += n, "status" => a, "task_name" => b),
                }
                *r.counters.entry(key("c", name, some)).or_default() += n;
            }
            2 | 3 => {
                let d = Duration::from_nanos(rng.next() >> (20 + rng.below(40)));
                match how {
                    0 => metric!(timer(name) = d),
                    1 => metric!(timer(name) = d, "status" => a),
                    _ => metric!(timer(name) = d, "status" => a, "task_name" => b),
                }
                r.values.entry(key("ms", name, some)).or_default().push((d.as_secs_f64() * 1000.0).to_string());
            }
            4 => {
                let n = rng.below(5) as u64;
                match how {
                    0 => metric!(time_raw(name) = n),
                    1 => metric!(time_raw(name) = n, "status" => a),
                    _ => metric!(time_raw(name) = n, "status" => a, "task_name" => b),
                }
                r.values.entry(key("ms", name, some)).or_default().push((n as f64).to_string());
            }
            5 => {
                let n = rng.below(1 << 20);
                match how {
                    0 => metric!(histogram(name) = n),
                    1 => metric!(histogram(name) = n, "status" => a),
                    _ => metric!(histogram(name) = n, "status" => a, "task_name" => b),
                }
                r.values.entry(key("h", name, some)).or_default().push((n as f64).to_string());
            }
            6 => {
                let n = rng.below(50) as u64;
                metrics::with_client(|l| l.emit_set("set", n, some));
                r.sets.entry(key("s", "set", some)).or_default().insert(n.to_string());
            }
            _ => {
                let n = rng.below(1000) as u64;
                metric!(gauge("gauge") = n, "status" => &own);
                r.gauges.entry(key("g", "gauge", &[("status", &own)])).or_default().push(n.to_string());
            }
        }
        if rng.chance(1, 300) {
            std::thread::sleep(Duration::from_millis(rng.below(60) as u64));
        }
    }
    r
}

/// One process with one configuration.
pub fn child(args: Vec<String>) {
    let mut rng = Rng::new(args[0].parse().unwrap());
    let prefix = *rng.pick(&["", "symbolicator", "a.b", "trailing."]);
    let mut global = BTreeMap::new();
    for _ in 0..rng.below(3) {
        global.insert(rng.pick(&["hostname", "environment", "platform"]).to_string(), rng.pick(&["h1", "prod", ""]).to_string());
    }
    metrics::configure_statsd(prefix, "127.0.0.1:8125", global.clone());
    let until = Instant::now() + Duration::from_millis(600);
    let total = Arc::new(Mutex::new(Recorded::default()));
    let workers: Vec<_> = (0..6)
        .map(|w| {
            let total = total.clone();
            let mut rng = Rng::new(rng.next());
            std::thread::spawn(move || {
                // threads come and go
                let mut i = 0;
                while Instant::now() < until {
                    let r = Rng::new(rng.next());
                    let got = std::thread::spawn(move || recorder(r, w * 1000 + i, until)).join().unwrap();
                    total.lock().unwrap().merge(got);
                    i += 1;
                }
            })
        })
        .collect();
    for w in workers {
        w.join().unwrap();
    }
    let want = std::mem::take(&mut *total.lock().unwrap());
    let mut bad: Vec<(String, Value)> = vec![];
    let mut got = Recorded::default();
    let mut lines = 0u64;
    // all of it is reported with one of the next reports
    for round in 0..40 {
        std::thread::sleep(Duration::from_millis(if round == 0 { 400 } else { 250 }));
        let mut more = 0;
        for l in cadence::monitor::take_lines() {
            more += 1;
            let mut it = l.splitn(3, '|');
            let (head, ty, rest) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next());
            let (name, values) = head.split_once(':').unwrap_or((head, ""));
            let mut t = BTreeMap::new();
            for p in rest.unwrap_or("#").trim_start_matches('#').split(',').filter(|p| !p.is_empty()) {
                let (k, v) = p.split_once(':').unwrap_or((p, "?"));
                if t.insert(k.to_string(), v.to_string()).is_some() {
                    bad.push(("a metric has a tag twice".into(), json!({"line": l})));
                }
            }
            for (k, v) in &global {
                if t.remove(k).as_ref() != Some(v) {
                    bad.push(("a metric lacks a tag of the configuration".into(), json!({"line": l, "tags": global})));
                }
            }
            let dotted = if prefix.is_empty() { String::new() } else { format!("{}.", prefix.trim_end_matches('.')) };
            let Some(name) = name.strip_prefix(&dotted) else {
                bad.push(("a metric is reported under another name".into(), json!({"line": l, "prefix": prefix})));
                continue;
            };
            let k = (ty.to_string(), name.to_string(), t);
            for v in values.split(':').map(String::from) {
                match ty {
                    "c" => *got.counters.entry(k.clone()).or_default() += v.parse::<i64>().unwrap_or(i64::MIN / 4),
                    "ms" | "h" => got.values.entry(k.clone()).or_default().push(v),
                    "s" => {
                        got.sets.entry(k.clone()).or_default().insert(v);
                    }
                    "g" => got.gauges.entry(k.clone()).or_default().push(v),
                    _ => bad.push(("a metric has an unknown type".into(), json!({"line": l}))),
                }
            }
        }
        lines += more;
        if more == 0 && round > 0 {
            break;
        }
    }
    let show = |k: &Key| json!({"type": k.0, "name": k.1, "tags": k.2});
    let keys: BTreeSet<_> = want.counters.keys().chain(got.counters.keys()).cloned().collect();
    for k in keys {
        let (w, g) = (want.counters.get(&k).copied().unwrap_or(0), got.counters.get(&k).copied().unwrap_or(0));
        if w != g {
            bad.push(("what is counted is not what is reported".into(), json!({"metric": show(&k), "recorded": w, "reported": g})));
        }
    }
    let keys: BTreeSet<_> = want.values.keys().chain(got.values.keys()).cloned().collect();
    for k in keys {
        let (mut w, mut g) = (want.values.get(&k).cloned().unwrap_or_default(), got.values.get(&k).cloned().unwrap_or_default());
        let num = |v: &mut Vec<String>| {
            let mut n: Vec<f64> = v.iter().map(|x| x.parse().unwrap_or(f64::NAN)).collect();
            n.sort_by(f64::total_cmp);
            n
        };
        let (w, g) = (num(&mut w), num(&mut g));
        if w != g {
            bad.push(("not each measurement is reported once".into(), json!({"metric": show(&k), "recorded": w.len(), "reported": g.len()})));
        }
    }
    for k in want.sets.keys().chain(got.sets.keys()).cloned().collect::<BTreeSet<_>>() {
        if want.sets.get(&k) != got.sets.get(&k) {
            bad.push(("not the members of a set are reported".into(), json!({"metric": show(&k)})));
        }
    }
    for k in want.gauges.keys().chain(got.gauges.keys()).cloned().collect::<BTreeSet<_>>() {
        let (w, g) = (want.gauges.get(&k).cloned().unwrap_or_default(), got.gauges.get(&k).cloned().unwrap_or_default());
        let mut rest = w.iter();
        if !g.iter().all(|v| rest.any(|x| x == v)) || g.last() != w.last() {
            bad.push(("a gauge does not end up where it was set".into(), json!({"metric": show(&k), "recorded": w.len(), "reported": g, "last": w.last()})));
        }
    }
    bad.truncate(10);
    let out = json!({
        "records": want.records, "lines": lines, "keys": want.counters.len() + want.values.len() + want.sets.len() + want.gauges.len(),
        "gauges": want.gauges.len(), "sets": want.sets.len(), "values": want.values.values().map(Vec::len).sum::<usize>(),
        "global": global.len(), "prefix": prefix, "bad": bad,
    });
    std::fs::write(&args[1], out.to_string()).unwrap();
}

pub fn c45(ctx: &Ctx) -> Report {
    let mut rep = Report::new("counters add up, each measurement is reported once, sets have their members, gauges their last value");
    let mut rng = Rng::new(ctx.seed ^ 0x45);
    let exe = std::env::current_exe().unwrap();
    while ctx.time_left() && rep.violations.len() < 25 {
        let runs: Vec<_> = (0..4)
            .map(|i| {
                let out = ctx.work.join(format!("metrics{i}.json"));
                let _ = std::fs::remove_file(&out);
                let c = std::process::Command::new(&exe).arg("metrics-child").arg((rng.next() >> 1).to_string()).arg(&out).spawn().unwrap();
                (c, out)
            })
            .collect();
        for (mut c, out) in runs {
            let status = c.wait().unwrap();
            rep.eval();
            let Some(v) = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) else {
                rep.violate("recording metrics crashed", json!({"status": status.to_string()}));
                continue;
            };
            rep.distinct((v["prefix"].to_string(), v["global"].to_string(), v["records"].to_string()));
            for (k, name) in [("records", "values recorded"), ("lines", "lines reported"), ("keys", "distinct metrics"), ("gauges", "gauges"), ("sets", "sets"), ("values", "measurements")] {
                rep.add(name, v[k].as_u64().unwrap_or(0));
            }
            rep.count(if v["global"] == 0 { "processes without tags of their own" } else { "processes with tags of their own" });
            for b in v["bad"].as_array().unwrap() {
                rep.violate(b[0].as_str().unwrap(), b[1].clone());
            }
        }
    }
    for k in ["values recorded", "lines reported", "gauges", "sets", "measurements"] {
        rep.require(k, 100);
    }
    rep.require("processes without tags of their own", 1);
    rep.require("processes with tags of their own", 1);
    rep
}
