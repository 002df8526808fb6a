//! Monitors of native source context (C56) and of tenants (C57).
use crate::common::{Ctx, Report, Rng};
use crate::natmon::*;
use crate::objmon::{best, candidates, services, Known, Notes, Pred, Serve};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use symbolic::debuginfo::Object;
use symbolicator_native::SymbolicationActor;
use symbolicator_service::objects::ObjectPurpose;
use symbolicator_service::types::ScrapingConfig;
use symbolicator_sources::*;

type Files = Arc<Mutex<HashMap<String, Serve>>>;

fn text(rng: &mut Rng, who: &str) -> String {
    let n = *rng.pick(&[0usize, 3, 60, 300, 520, 520, 520, 600]);
    let nl = *rng.pick(&["\n", "\n", "\n", "\r\n"]);
    let mut s = String::new();
    for i in 1..=n {
        if i > 1 {
            s += nl;
        }
        match rng.below(12) {
            0 => {}
            1 => s += &format!("{who} {i} {}", "x".repeat(100 + rng.below(120))),
            2 => s += &format!("{who} {i} {}{}", "y".repeat(rng.below(4)), "❤ü🧡".repeat(12 + rng.below(12))),
            _ => s += &format!("  {who} line {i} «{}»\t", rng.below(1000)),
        }
    }
    if rng.chance(1, 2) {
        s += nl;
    }
    s
}

fn trimmed(l: &str) -> String {
    if l.len() <= 150 {
        return l.to_string();
    }
    let end = (0..=140).rev().find(|i| l.is_char_boundary(*i)).unwrap();
    format!("{} {{snip}}", &l[..end])
}

/// The line and five lines around it.
fn around(source: &str, line: usize) -> Option<(Vec<String>, String, Vec<String>)> {
    let mut all: Vec<&str> = source.split('\n').collect();
    if all.last() == Some(&"") {
        all.pop();
    }
    let all: Vec<String> = all.into_iter().map(|l| trimmed(l.strip_suffix('\r').unwrap_or(l))).collect();
    let at = line.max(1) - 1;
    let hit = all.get(at)?.clone();
    Some((all[at.saturating_sub(5)..at].to_vec(), hit, all[at + 1..all.len().min(at + 6)].to_vec()))
}

/// A bundle of sources for the files of an image.
fn bundle(rng: &mut Rng, paths: &BTreeSet<String>, links: &str) -> Vec<u8> {
    let mut manifest = json!({"files": {}, "source_links": {}, "debug_id": "00000000-0000-0000-0000-000000000000"});
    let mut start = std::io::Cursor::new(vec![]);
    start.write_all(b"SYSB\x02\0\0\0").unwrap();
    let mut z = zip::ZipWriter::new(start);
    let o = zip::write::SimpleFileOptions::default().compression_method(if rng.chance(1, 2) { zip::CompressionMethod::Deflated } else { zip::CompressionMethod::Stored });
    for (i, p) in paths.iter().enumerate() {
        match rng.below(9) {
            0..=3 => {
                let name = format!("files/f{i}");
                manifest["files"][&name] = json!({"type": "source", "path": p});
                if rng.chance(1, 3) {
                    manifest["files"][&name]["url"] = json!(rng.pick(&["https://code.example.test/a file.c?x=1", "http://code.example.test/ü.c", "file:///etc/passwd", "ftp://code.example.test/x", "HTTPS://code.example.test/x", "https://", "not a url"]));
                }
                z.start_file(&name, o).unwrap();
                z.write_all(text(rng, "embedded").as_bytes()).unwrap();
            }
            4 => {
                // only this file
                let to = rng.pick(&["open/exact file.c", "open/exact.c", "guarded/exact.c", "open/exact.c?raw=1"]);
                manifest["source_links"][p.as_str()] = json!(format!("{links}{to}"));
            }
            5 => manifest["source_links"][p.as_str()] = json!(rng.pick(&["file:///etc/hostname", "FILE:///etc/hostname", "ftp://127.0.0.1/x", "/etc/hostname", "HTTP://127.0.0.1/x", " http://127.0.0.1/x"])),
            _ => {}
        }
    }
    for (prefix, to) in [("/src/", "open/*"), ("C:\\work\\", "guarded/w/*"), ("/home/", "guarded/*"), ("relative/", "open/*?x=*"), ("", "guarded/any/*"), ("/given/", "guarded/*")] {
        if rng.chance(1, 2) {
            let to = if rng.chance(1, 3) { to.replace("open", "guarded") } else { to.to_string() };
            manifest["source_links"][format!("{prefix}*")] = json!(format!("{links}{to}"));
        }
    }
    z.start_file("manifest.json", o).unwrap();
    z.write_all(manifest.to_string().as_bytes()).unwrap();
    z.finish().unwrap().into_inner()
}

/// What the sources of an image say about a file.
enum Say {
    Nothing,
    Text(Option<String>, String),
    Link(Option<url::Url>),
}

fn say(bytes: &[u8], path: &str) -> Say {
    let Ok(o) = Object::parse(bytes) else { return Say::Nothing };
    let Ok(s) = o.debug_session() else { return Say::Nothing };
    let Ok(Some(d)) = s.source_by_path(path) else { return Say::Nothing };
    let url = d.url().filter(|u| u.starts_with("http://") || u.starts_with("https://")).and_then(|u| url::Url::parse(u).ok());
    match d.contents() {
        Some(t) => Say::Text(url.map(|u| u.to_string()), t.to_string()),
        None => Say::Link(url),
    }
}

fn target_of(u: &url::Url) -> String {
    match u.query() {
        Some(q) => format!("{}?{q}", u.path()),
        None => u.path().to_string(),
    }
}

#[derive(Clone)]
pub struct Tenant {
    pub scope: &'static str,
    pub scraping: ScrapingConfig,
}

impl Tenant {
    pub fn gen(rng: &mut Rng, scope: &'static str, base: &str) -> Tenant {
        let port = base.rsplit(':').next().unwrap();
        let mut headers = BTreeMap::new();
        // nobody in particular has no secrets
        if scope != "global" {
            headers.insert("x-token".to_string(), scope.to_string());
        }
        let allowed_origins = match rng.below(8) {
            0 => vec![],
            1 => vec!["elsewhere.test".to_string()],
            2 => vec!["127.0.0.1".to_string()],
            3 => vec![format!("*:{port}")],
            4 => vec!["*.0.0.2".to_string(), "*:1".to_string()],
            _ => vec!["*".to_string()],
        };
        Tenant { scope, scraping: ScrapingConfig { enabled: rng.chance(3, 4), verify_ssl: rng.chance(1, 2), allowed_origins, headers } }
    }

    /// The token that goes to the site of the monitor.
    fn token(&self, base: &str) -> Option<&'static str> {
        let port = base.rsplit(':').next().unwrap();
        let ok = self.scraping.allowed_origins.iter().any(|o| o == "*" || o == "127.0.0.1" || *o == format!("*:{port}"));
        (self.scraping.enabled && ok && !self.scraping.headers.is_empty()).then_some(self.scope)
    }
}

/// The sources known for an image.
struct Sources {
    known: Vec<Known>,
    chosen: Option<Arc<Vec<u8>>>,
}

struct Round {
    images: Vec<Image>,
    sources: Vec<Sources>,
    traces: Vec<Value>,
    signal: Option<u32>,
    base: String,
    ids: Vec<String>,
}

impl Round {
    fn ask(&self, t: &Tenant) -> Ask {
        Ask { traces: self.traces.clone(), signal: self.signal, rules: json!([]), scope: t.scope, images: self.images.clone() }
    }

    fn fetched(&self, files: &Files, t: &Tenant, u: &url::Url) -> Result<String, Value> {
        let site: url::Url = self.base.parse().unwrap();
        if (u.scheme(), u.host_str(), u.port()) != (site.scheme(), site.host_str(), site.port()) {
            return Err(json!({"status": "error"}));
        }
        let all = files.lock().unwrap();
        let target = target_of(u);
        let s = t.token(&self.base).and_then(|t| all.get(&format!("{t}|{target}"))).or_else(|| all.get(&target));
        match s {
            Some(Serve::Plain(b) | Serve::Packed(b)) if b.is_empty() => Err(json!({"status": "notfound"})),
            Some(Serve::Plain(b) | Serve::Packed(b)) => String::from_utf8(b.clone()).map_err(|_| json!({"status": "malformed"})),
            Some(Serve::Status(401)) => Err(json!({"status": "noperm", "details": "401 Unauthorized"})),
            Some(Serve::Status(403)) => Err(json!({"status": "noperm", "details": "403 Forbidden"})),
            Some(Serve::Status(500)) => Err(json!({"status": "error"})),
            _ => Err(json!({"status": "notfound"})),
        }
    }

    /// The answer for a tenant: stack traces, modules, and the links that were followed for each module.
    fn expect(&self, files: &Files, t: &Tenant, n: &mut Notes) -> (Value, Value, BTreeMap<String, (BTreeSet<usize>, Value)>) {
        let mut quiet = Notes::default();
        let mut traces: Vec<Value> = self.traces.iter().map(|tr| stacktrace(&self.images, tr, self.signal, &mut quiet)).collect();
        let mut modules = modules(&self.images, &self.traces);
        let mut links: BTreeMap<String, (BTreeSet<usize>, Value)> = BTreeMap::new();
        let mut used = BTreeSet::new();
        for f in traces.iter_mut().flat_map(|t| t["frames"].as_array_mut().unwrap()) {
            let Some(i) = image_at(&self.images, unhex(&f["instruction_addr"]), mode_of(f)) else { continue };
            used.insert(i);
            let (Some(path), Some(line)) = (f["abs_path"].as_str().map(String::from), f["lineno"].as_u64()) else { continue };
            let Some(bytes) = &self.sources[i].chosen else { continue };
            let (link, source) = match say(bytes, &path) {
                Say::Nothing => continue,
                Say::Text(u, s) => {
                    n.count("frames with embedded sources");
                    (u, Some(s))
                }
                Say::Link(None) => {
                    n.count("links that must not be followed");
                    (None, None)
                }
                Say::Link(Some(u)) => {
                    let got = self.fetched(files, t, &u);
                    let e = links.entry(u.to_string()).or_insert_with(|| {
                        let v = match &got {
                            Ok(_) => json!({"status": "ok", "features": {"has_debug_info": false, "has_unwind_info": false, "has_symbols": false, "has_sources": true}}),
                            Err(v) => v.clone(),
                        };
                        (BTreeSet::new(), v)
                    });
                    e.0.insert(i);
                    n.count(&format!("links followed: {}", e.1["status"].as_str().unwrap()));
                    n.seen.insert(format!("link {} of {} {}", e.1["status"], t.scope, t.token(&self.base).is_some()));
                    if u.path().contains("/guarded/") && got.is_ok() {
                        n.count("links followed with a token");
                    }
                    (Some(u.to_string()), got.ok())
                }
            };
            let o = f.as_object_mut().unwrap();
            match link {
                Some(l) => o.insert("source_link".into(), json!(l)),
                None => o.remove("source_link"),
            };
            if let Some((pre, hit, post)) = source.and_then(|s| around(&s, line as usize)) {
                n.count("frames with context");
                n.seen.insert(format!("context of {} {} lines, cut {}", pre.len(), post.len(), hit.ends_with("{snip}")));
                for (k, v) in [("pre_context", pre), ("post_context", post)] {
                    match v.is_empty() {
                        true => o.remove(k),
                        false => o.insert(k.into(), json!(v)),
                    };
                }
                o.insert("context_line".into(), json!(hit));
            }
        }
        for i in used {
            let s = &self.sources[i];
            let m = &mut modules[i];
            let mut all: BTreeMap<(String, String), Value> = BTreeMap::new();
            let more = candidates(&self.ids, &s.known);
            for c in m["candidates"].as_array().cloned().unwrap_or_default().into_iter().chain(more.as_array().unwrap().clone()) {
                let e = all.entry((c["source"].as_str().unwrap().into(), c["location"].as_str().unwrap().into())).or_insert_with(|| c.clone());
                e["download"] = c["download"].clone();
            }
            let all: Vec<Value> = all.into_values().collect();
            if !all.is_empty() {
                m["candidates"] = json!(all);
            }
            if s.chosen.is_some() {
                m["features"]["has_sources"] = json!(true);
                n.count("modules with sources");
            }
        }
        (json!(traces), modules, links)
    }
}

async fn check56(w: &World, actor: &SymbolicationActor, files: &Files, r: &Round, t: &Tenant, stage: &str, n: &mut Notes) {
    let mut req = r.ask(t).request(&w.srcs);
    req.apply_source_context = true;
    req.scraping = t.scraping.clone();
    let got = match actor.symbolicate(req).await {
        Ok(r) => serde_json::to_value(&r).unwrap(),
        Err(e) => return n.bad.push(("a request for symbolication fails".into(), json!({"error": e.to_string()}))),
    };
    let mut quiet = Notes::default();
    let (traces, modules, links) = r.expect(files, t, if stage == "first" { n } else { &mut quiet });
    let brief = |d: Value| {
        json!({"stage": stage, "differences": d, "scope": t.scope, "scraping": t.scraping, "traces": r.traces,
               "images": r.images.iter().map(|m| json!({"info": m.info, "filled": m.filled, "status": m.status})).collect::<Vec<_>>()})
    };
    let mut d = vec![];
    diff("stacktraces", &traces, &got["stacktraces"], &mut d);
    if !d.is_empty() {
        n.bad.push((format!("the frames with source context are not what they must be: {}", last_key(&d)), brief(json!(d))));
    }
    // what became of the links is told by the modules that have them
    let mut rest = got["modules"].clone();
    let mut told: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
    for (i, m) in rest.as_array_mut().unwrap().iter_mut().enumerate() {
        let Some(c) = m["candidates"].as_array_mut() else { continue };
        for x in c.iter().filter(|x| x["source"] == "sourcelink") {
            let u = x["location"].as_str().unwrap_or("");
            let known = links.iter().find(|(l, (at, _))| l.split('#').next() == u.split('#').next() && at.contains(&i));
            let Some((l, (_, want))) = known else {
                n.bad.push(("a module tells of a link that none of its frames has".into(), brief(json!({"module": i, "candidate": x, "links": format!("{links:?}")}))));
                continue;
            };
            told.entry(l.split('#').next().unwrap().to_string()).or_default().insert(i);
            let mut is = x["download"].clone();
            if want.get("details").is_none() {
                is.as_object_mut().unwrap().remove("details");
            }
            if is != *want {
                n.bad.push(("a module tells something else of a link than what became of it".into(), brief(json!({"module": i, "candidate": x, "want": want}))));
            }
        }
        c.retain(|x| x["source"] != "sourcelink");
        if c.is_empty() {
            m.as_object_mut().unwrap().remove("candidates");
        }
    }
    for (l, (at, _)) in &links {
        if !told.contains_key(l.split('#').next().unwrap()) {
            n.bad.push(("no module tells what became of a link".into(), brief(json!({"link": l, "modules": at}))));
        }
    }
    let mut d = vec![];
    diff("modules", &modules, &rest, &mut d);
    if !d.is_empty() {
        n.bad.push((format!("a module is not described as it was found: {}", last_key(&d)), brief(json!(d))));
    }
}

/// Decides what the sources of debug files are, and what is behind their links.
async fn sources(w: &mut World, rng: &mut Rng, images: &[Image], traces: &[Value], signal: Option<u32>, links: &str, files: &Files, scopes: &[&str]) -> Vec<Sources> {
    let mut quiet = Notes::default();
    let mut paths = vec![BTreeSet::new(); images.len()];
    for t in traces {
        for f in stacktrace(images, t, signal, &mut quiet)["frames"].as_array().unwrap() {
            if let (Some(i), Some(p)) = (image_at(images, unhex(&f["instruction_addr"]), mode_of(f)), f["abs_path"].as_str()) {
                paths[i].insert(p.to_string());
            }
        }
    }
    let mut out = vec![];
    for (i, m) in images.iter().enumerate() {
        let listed = w.list(FileType::sources(), &m.id).await;
        let good = rng.below(listed.len().max(1));
        let mut known = vec![];
        for (k, f) in listed.iter().enumerate() {
            let at = if k == good { 0 } else { rng.below(12) };
            let serve = match at {
                0 | 1 => Serve::Plain(bundle(rng, &paths[i], links)),
                2 => Serve::Packed(bundle(rng, &paths[i], links)),
                3 => Serve::Plain(b"PK\x03\x04 this is not a bundle".to_vec()),
                4 => Serve::Status(*rng.pick(&[401, 403])),
                5 => Serve::Status(500),
                6 => Serve::Plain(PPDBS[1].to_vec()),
                _ => Serve::Status(404),
            };
            let serve = w.put(f, || serve);
            known.push(Known { source: f.source_id().to_string(), uri: f.uri().to_string(), pred: serve.predict(&m.id) });
        }
        let chosen = match best(&known, ObjectPurpose::Source).map(|k| &k.pred) {
            Some(Pred::Ok(b, _)) => Some(b.clone()),
            _ => None,
        };
        for p in &paths[i] {
            let Some(Say::Link(Some(u))) = chosen.as_ref().map(|b| say(b, p)) else { continue };
            let mut all = files.lock().unwrap();
            let target = target_of(&u);
            if all.contains_key(&target) {
                continue;
            }
            let mut serve = |who: &str| match rng.below(9) {
                0 => Serve::Status(404),
                1 => Serve::Status(500),
                2 => Serve::Plain(b"int main\xff() {}\n".to_vec()),
                3 => Serve::Packed(text(rng, who).into_bytes()),
                _ => Serve::Plain(text(rng, who).into_bytes()),
            };
            if target.contains("/guarded/") {
                for s in scopes {
                    let v = serve(s);
                    all.insert(format!("{s}|{target}"), v);
                }
                all.insert(target, Serve::Status(403));
            } else {
                let v = serve("open");
                all.insert(target, v);
            }
        }
        out.push(Sources { known, chosen });
    }
    out
}

async fn case56(mut rng: Rng, name: String, dir: PathBuf, base: String, files: Files, handle: tokio::runtime::Handle) -> Notes {
    let rng = &mut rng;
    let mut n = Notes::default();
    let mut w = World::new(rng, name.clone(), &dir, &base, files.clone(), &handle);
    let images = images(&mut w, rng, &[]).await;
    let traces: Vec<Value> = (0..2 + rng.below(4)).map(|_| trace(rng, &images)).collect();
    let signal = *rng.pick(&[None, Some(11), Some(6)]);
    let scopes = ["tenant-a", "tenant-b"];
    let sources = sources(&mut w, rng, &images, &traces, signal, &format!("{base}/{name}/links/"), &files, &scopes).await;
    let r = Round { images, sources, traces, signal, base: base.clone(), ids: w.ids.clone() };
    let mut tenants: Vec<Tenant> = ["tenant-a", "tenant-b", "global"].into_iter().map(|s| Tenant::gen(rng, s, &base)).collect();
    rng.shuffle(&mut tenants);
    n.evals += 1;
    n.count("requests");
    let k = 1 + rng.below(3);
    for t in &tenants[..k] {
        check56(&w, &w.actor, &files, &r, t, "first", &mut n).await;
    }
    let (mut n1, mut n2) = (Notes::default(), Notes::default());
    futures::join!(check56(&w, &w.actor, &files, &r, &tenants[0], "again", &mut n1), check56(&w, &w.actor, &files, &r, &tenants[1], "again", &mut n2));
    n.bad.append(&mut n1.bad);
    n.bad.append(&mut n2.bad);
    if rng.chance(1, 2) {
        let svc = services(&w.cfg, &handle);
        let actor = SymbolicationActor::new(&svc);
        for t in &tenants {
            check56(&w, &actor, &files, &r, t, "after a restart", &mut n).await;
        }
        n.count("answers after a restart");
    }
    let _ = std::fs::remove_dir_all(&dir);
    n
}

pub fn c56(ctx: &Ctx) -> Report {
    let mut rep = Report::new("frames get the lines around theirs from the sources of their module, embedded or linked");
    rounds(ctx, &mut rep, 0x56, "c56", case56);
    for k in [
        "frames with embedded sources",
        "frames with context",
        "links that must not be followed",
        "links followed: ok",
        "links followed: noperm",
        "links followed: notfound",
        "links followed with a token",
        "modules with sources",
        "answers after a restart",
    ] {
        rep.require(k, 5);
    }
    rep
}

// ----------------------------------------------------------------------------------- C57: tenants

async fn answer(w: &World, actor: &SymbolicationActor, srcs: &Arc<[SourceConfig]>, r: &Round, t: &Tenant, n: &mut Notes) -> Value {
    let mut req = r.ask(t).request(srcs);
    req.apply_source_context = true;
    req.scraping = t.scraping.clone();
    let _ = w;
    match actor.symbolicate(req).await {
        Ok(r) => serde_json::to_value(&r).unwrap(),
        Err(e) => {
            n.bad.push(("a request for symbolication fails".into(), json!({"error": e.to_string()})));
            Value::Null
        }
    }
}

async fn case57(mut rng: Rng, name: String, dir: PathBuf, base: String, files: Files, handle: tokio::runtime::Handle) -> Notes {
    let rng = &mut rng;
    let mut n = Notes::default();
    let mut w = World::new(rng, name.clone(), &dir, &base, files.clone(), &handle);
    let images = images(&mut w, rng, &[]).await;
    let traces: Vec<Value> = (0..1 + rng.below(3)).map(|_| trace(rng, &images)).collect();
    let scopes = ["tenant-a", "tenant-b"];
    let sources = sources(&mut w, rng, &images, &traces, None, &format!("{base}/{name}/links/"), &files, &scopes).await;
    let r = Round { images, sources, traces, signal: None, base: base.clone(), ids: w.ids.clone() };
    // files of sources that are not public may be for one tenant only, or different for each
    {
        let mut all = files.lock().unwrap();
        for (i, (_, _, extra)) in w.raw.iter().enumerate() {
            if extra["is_public"] == json!(true) {
                continue;
            }
            let here = format!("/{name}/s{i}/");
            let mut targets: Vec<String> = all.keys().filter(|k| k.starts_with(&here)).cloned().collect();
            targets.sort();
            for t in targets {
                let s = all[&t].clone();
                if matches!(s, Serve::Status(_)) || rng.chance(1, 3) {
                    continue;
                }
                n.count("files for one tenant only");
                all.insert(format!("{}|{t}", rng.pick(&scopes)), s);
                all.insert(t, Serve::Status(*rng.pick(&[404, 403, 401])));
            }
        }
    }
    let who = ["tenant-a", "tenant-b", "global"];
    let mut tenants = vec![];
    for s in who {
        let t = Tenant::gen(rng, s, &base);
        let srcs: Arc<[SourceConfig]> = w
            .raw
            .iter()
            .map(|(id, url, extra)| {
                let mut extra = extra.clone();
                if extra["is_public"] != json!(true) && s != "global" {
                    extra["headers"] = json!({"x-token": s});
                }
                crate::dlmon::http_source(id, url, extra)
            })
            .collect();
        // on their own
        let own = dir.join(format!("own-{s}"));
        let cfg = crate::dlmon::dl_config(json!({ "cache_dir": own }));
        let svc = services(&cfg, &handle);
        let alone = answer(&w, &SymbolicationActor::new(&svc), &srcs, &r, &t, &mut n).await;
        tenants.push((t, srcs, alone));
    }
    if (0..2).any(|i| tenants[i].2 != tenants[2].2) && tenants[0].2 != tenants[1].2 {
        n.count("requests the tenants get different answers to");
    }
    n.evals += 1;
    n.count("requests");
    for (i, m) in r.images.iter().enumerate() {
        let of = |t: usize| {
            let m = &tenants[t].2["modules"][i];
            format!("{} {} {} candidates", m["debug_status"], m["features"]["has_sources"], m["candidates"].as_array().map_or(0, |c| c.len()))
        };
        n.seen.insert(format!("{}: a {} b {} everybody {}", m.info["type"], of(0), of(1), of(2)));
    }
    let judge = |i: usize, got: Value, stage: &str, n: &mut Notes| {
        n.count("answers compared");
        let mut d = vec![];
        diff("answer", &tenants[i].2, &got, &mut d);
        if !d.is_empty() {
            n.bad.push((
                "a tenant gets another answer where others have been than on its own".into(),
                json!({"stage": stage, "tenant": who[i], "scraping": tenants[i].0.scraping, "differences (want: alone)": d, "sources": w.raw}),
            ));
        }
    };
    let mut order: Vec<usize> = (0..6).map(|i| i % 3).collect();
    rng.shuffle(&mut order);
    if rng.chance(1, 3) {
        let mut m: Vec<Notes> = (0..3).map(|_| Notes::default()).collect();
        let (a, rest) = m.split_at_mut(1);
        let (b, c) = rest.split_at_mut(1);
        let got = futures::join!(
            answer(&w, &w.actor, &tenants[0].1, &r, &tenants[0].0, &mut a[0]),
            answer(&w, &w.actor, &tenants[1].1, &r, &tenants[1].0, &mut b[0]),
            answer(&w, &w.actor, &tenants[2].1, &r, &tenants[2].0, &mut c[0])
        );
        for (i, g) in [got.0, got.1, got.2].into_iter().enumerate() {
            judge(i, g, "at once", &mut n);
        }
        n.count("rounds of everyone at once");
    }
    for i in order {
        let g = answer(&w, &w.actor, &tenants[i].1, &r, &tenants[i].0, &mut n).await;
        judge(i, g, "one after another", &mut n);
    }
    if rng.chance(1, 2) {
        let svc = services(&w.cfg, &handle);
        let actor = SymbolicationActor::new(&svc);
        for i in 0..3 {
            let g = answer(&w, &actor, &tenants[i].1, &r, &tenants[i].0, &mut n).await;
            judge(i, g, "after a restart", &mut n);
        }
        n.count("answers after a restart");
    }
    let _ = std::fs::remove_dir_all(&dir);
    n
}

pub fn c57(ctx: &Ctx) -> Report {
    let mut rep = Report::new("the answer to a request does not depend on what other tenants have asked for");
    rounds(ctx, &mut rep, 0x57, "c57", |mut r, name, dir, base, files, h| async move {
        if !name.ends_with(['1', '4', '7']) {
            return case57(r, name, dir, base, files, h).await;
        }
        let mut n = Notes::default();
        for i in 0..4 {
            n.merge(case57s(Rng::new(r.next()), format!("{name}c{i}"), dir.join(i.to_string()), base.clone(), files.clone(), h.clone()).await);
        }
        let _ = std::fs::remove_dir_all(&dir);
        n
    });
    for k in ["files for one tenant only", "requests the tenants get different answers to", "answers compared", "rounds of everyone at once", "answers after a restart", "frames resolved with companions", "restarts with companions"] {
        rep.require(k, 5);
    }
    rep
}

/// Modules whose names and lines come from further files - of other sources, and of one tenant only.
async fn case57s(mut rng: Rng, name: String, dir: PathBuf, base: String, files: Files, handle: tokio::runtime::Handle) -> Notes {
    use symbolic::common::{DebugId, Uuid};
    use symbolicator_native::interface::*;
    let rng = &mut rng;
    let mut n = Notes::default();
    n.evals += 1;
    let tenants = ["tenant-a", "tenant-b"];
    let public: Vec<bool> = (0..4).map(|i| rng.chance(if i == 0 { 2 } else { 1 }, 3)).collect();
    let path = |s: usize, id: DebugId, kind: &str| {
        let id = id.uuid().as_simple().to_string();
        format!("/{name}/s{s}/{}/{}/{kind}", &id[..2], &id[2..])
    };
    // what each source has for each tenant: (tenant, source, id, kind)
    let mut has: HashMap<(usize, usize, DebugId, &str), String> = HashMap::new();
    let mut modules = vec![];
    for m in 0..1 + rng.below(3) {
        let mut id = || DebugId::from_uuid(Uuid::from_slice(&rng.bytes(16)).unwrap());
        let (id, originals) = (id(), [id(), id()]);
        let text = format!(
            "MODULE mac arm64 {} mod{m}\nFILE 0 /src/__hidden#1_\nFUNC 1000 100 0 __hidden#0_\n1000 100 7 0\n",
            id.breakpad()
        );
        // everyone has the module itself from the first source
        let serve = if rng.chance(1, 4) { Serve::Packed(text.into_bytes()) } else { Serve::Plain(text.into_bytes()) };
        files.lock().unwrap().insert(path(0, id, "breakpad"), serve);
        for s in 0..4 {
            for (ids, kind, odds) in [(vec![id], "uuidmap", 2), (originals.to_vec(), "bcsymbolmap", 3), (vec![id], "il2cpp", 2)] {
                for i in ids {
                    for t in 0..2 {
                        let all = public[s];
                        if all && t == 1 {
                            if let Some(x) = has.get(&(0, s, i, kind)).cloned() {
                                has.insert((1, s, i, kind), x);
                            }
                            continue;
                        }
                        if !rng.chance(odds, 5) {
                            continue;
                        }
                        let who = if all { "everyone".to_string() } else { tenants[t].replace('-', "_") };
                        let (bytes, means) = match kind {
                            _ if rng.chance(1, 10) => (format!("no {kind} at all"), None),
                            "uuidmap" => {
                                let o = rng.below(2);
                                let x = format!("<?xml version=\"1.0\"?><plist version=\"1.0\"><dict><key>DBGOriginalUUID</key><string>{}</string></dict></plist>", originals[o].uuid());
                                (x, Some(o.to_string()))
                            }
                            "bcsymbolmap" => {
                                let x = format!("name_{who}_{s}_{m}");
                                (format!("BCSymbolMap Version: 2.0\n{x}\n{x}.c\n"), Some(x))
                            }
                            _ => {
                                // for files under any name
                                let x = format!("/unity/{who}_{s}_{m}.cs");
                                let mut v = json!({"/src/__hidden#1_": {&x: {"1": 77}}});
                                for w in ["everyone", "tenant_a", "tenant_b"] {
                                    for k in 0..4 {
                                        v[format!("/src/name_{w}_{k}_{m}.c")] = json!({&x: {"1": 77}});
                                    }
                                }
                                (v.to_string(), Some(x))
                            }
                        };
                        let at = path(s, i, kind);
                        let at = if all { at } else { format!("{}|{at}", tenants[t]) };
                        files.lock().unwrap().insert(at, Serve::Plain(bytes.into_bytes()));
                        if let Some(x) = means {
                            has.insert((t, s, i, kind), x);
                        }
                    }
                }
            }
        }
        modules.push((id, originals));
    }
    let request = |t: usize, order: &[usize]| {
        let sources: Vec<SourceConfig> = order
            .iter()
            .map(|s| {
                let mut extra = json!({"layout": {"type": "unified", "casing": "default"}, "is_public": public[*s]});
                if !public[*s] {
                    extra["headers"] = json!({"x-token": tenants[t]});
                }
                crate::dlmon::http_source(&format!("source{s}"), &format!("{base}/{name}/s{s}/"), extra)
            })
            .collect();
        let infos: Vec<symbolicator_service::types::RawObjectInfo> = modules
            .iter()
            .enumerate()
            .map(|(i, m)| serde_json::from_value(json!({"type": "macho", "debug_id": m.0.to_string(), "image_addr": format!("0x{:x}", (i + 1) * 0x100_0000), "image_size": 0x1_0000})).unwrap())
            .collect();
        let traces: Vec<Value> = (0..modules.len()).map(|i| json!({"frames": [{"instruction_addr": format!("0x{:x}", (i + 1) * 0x100_0000 + 0x1008)}]})).collect();
        SymbolicateStacktraces {
            platform: None,
            scope: crate::kit::scope(tenants[t]),
            signal: None,
            sources: sources.into(),
            origin: StacktraceOrigin::Symbolicate,
            stacktraces: serde_json::from_value(json!(traces)).unwrap(),
            modules: infos.into_iter().map(From::from).collect(),
            apply_source_context: false,
            scraping: ScrapingConfig::default(),
            rewrite_first_module: Default::default(),
        }
    };
    // what the files of the sources of a request say, and who they are from
    let expected = |t: usize, order: &[usize]| -> Vec<(String, String, u64)> {
        modules
            .iter()
            .map(|(id, originals)| {
                let first = |i: DebugId, kind: &'static str| order.iter().find_map(|s| has.get(&(t, *s, i, kind)).cloned());
                let map = first(*id, "uuidmap").and_then(|o| first(originals[o.parse::<usize>().unwrap()], "bcsymbolmap"));
                let file = map.as_ref().map_or("/src/__hidden#1_".to_string(), |m| format!("/src/{m}.c"));
                let (file, line) = first(*id, "il2cpp").map_or((file, 7), |x| (x, 77));
                (map.unwrap_or("__hidden#0_".into()), file, line)
            })
            .collect()
    };
    let shared = rng.chance(1, 2);
    let mut extra = json!({ "cache_dir": dir.join("cache") });
    if shared {
        extra["shared_cache"] = json!({"filesystem": {"path": dir.join("shared")}});
    }
    let mut svc = services(&crate::dlmon::dl_config(extra.clone()), &handle);
    let ready = |s: symbolicator_service::caching::SharedCacheRef| async move { shared && crate::kit::eventually(|| s.get().is_some()).await };
    ready(svc.shared_cache.clone()).await;
    let mut actor = Arc::new(SymbolicationActor::new(&svc));
    for step in 0..6 {
        if step > 0 && rng.chance(1, 5) {
            if shared && rng.chance(1, 2) {
                // another instance, that has only the shared cache in common
                extra["cache_dir"] = json!(dir.join(format!("cache{step}")));
                n.count("other instances");
            }
            svc = services(&crate::dlmon::dl_config(extra.clone()), &handle);
            ready(svc.shared_cache.clone()).await;
            actor = Arc::new(SymbolicationActor::new(&svc));
            n.count("restarts with companions");
        }
        let jobs: Vec<_> = (0..*rng.pick(&[1, 1, 3, 6]))
            .map(|_| {
                let t = rng.below(2);
                let mut order: Vec<usize> = (1..4).filter(|_| rng.chance(2, 3)).collect();
                order.push(0);
                rng.shuffle(&mut order);
                let (a, r) = (actor.clone(), request(t, &order));
                (t, order, tokio::spawn(async move { a.symbolicate(r).await }))
            })
            .collect();
        for (t, order, j) in jobs {
            n.count("requests with companions");
            let got = match j.await {
                Ok(Ok(r)) => serde_json::to_value(&r).unwrap(),
                Ok(Err(e)) => {
                    n.bad.push(("a request for symbolication fails".into(), json!({"error": e.to_string()})));
                    continue;
                }
                Err(e) => {
                    n.bad.push(("the code under test crashed".into(), json!({"panic": e.to_string()})));
                    continue;
                }
            };
            for (i, want) in expected(t, &order).into_iter().enumerate() {
                let f = &got["stacktraces"][i]["frames"][0];
                let is = (f["function"].as_str().unwrap_or("").to_string(), f["abs_path"].as_str().unwrap_or("").to_string(), f["lineno"].as_u64().unwrap_or(0));
                let kind = format!("{}{}", if want.0.starts_with("__") { "" } else { "named " }, if want.2 == 77 { "mapped" } else { "" });
                n.seen.insert(format!("companions: {kind}, of {}", if want.0.contains("everyone") { "everyone" } else { "one tenant" }));
                if !want.0.starts_with("__") || want.2 == 77 {
                    n.count("frames resolved with companions");
                }
                if is != want {
                    let other = tenants[1 - t].replace('-', "_");
                    let sig = if is.0.contains(&other) || is.1.contains(&other) {
                        "a tenant is shown what only another one's files say"
                    } else {
                        "the files that go with a module are not those of the request's sources"
                    };
                    n.bad.push((sig.into(), json!({"tenant": tenants[t], "sources": order, "public": public, "got": is, "want": want, "module": i, "step": step, "status": f["status"]})));
                }
            }
        }
    }
    drop(svc);
    if shared {
        let kinds = || -> BTreeSet<String> {
            std::fs::read_dir(dir.join("shared")).map_or(Default::default(), |d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect())
        };
        let all = ["objects", "symcaches", "il2cpp"];
        let end = std::time::Instant::now() + std::time::Duration::from_millis(1500);
        while std::time::Instant::now() < end && !all.iter().all(|k| kinds().contains(*k)) {
            tokio::time::sleep(std::time::Duration::from_millis(20)).await;
        }
        n.count("services with a shared cache");
        for k in kinds() {
            n.count(&format!("shared: {k}"));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    n
}
