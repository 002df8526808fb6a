//! Monitor of the HTTP endpoints (C60).
use crate::appmon::{dump, to_json, whose, End, Kind, KINDS};
use crate::common::{Ctx, Report, Rng};
use crate::kit::{config_in, eventually, scratch, tree};
use crate::mock::{Mock, Resp};
use axum::http::{HeaderMap, Request};
use axum::{Body, Router};
use minidump_processor::monitor as processor;
use serde_json::{json, Value};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;
use symbolic::common::{DebugId, Uuid};
use symbolicator_app::service::RequestService;

const MB: usize = 1024 * 1024;
static NAMES: AtomicUsize = AtomicUsize::new(1);
fn fresh() -> u64 {
    NAMES.fetch_add(1, SeqCst) as u64
}

struct Site {
    app: Router,
    service: RequestService,
    dir: PathBuf,
    limit: Option<usize>,
    proxy: bool,
    cached: bool,
    /// what the proxy has: path below the symbols, as stored, contents
    files: Vec<(String, Vec<u8>)>,
    cpu: tokio::runtime::Runtime,
    io: tokio::runtime::Runtime,
}

struct Answer {
    status: u16,
    headers: HeaderMap,
    body: Vec<u8>,
}
impl Answer {
    fn json(&self) -> Value {
        serde_json::from_slice(&self.body).unwrap_or(Value::Null)
    }
    fn show(&self) -> Value {
        let t = String::from_utf8_lossy(&self.body[..self.body.len().min(300)]).into_owned();
        json!({"status": self.status, "body": t})
    }
}

/// The body arrives in pieces that have nothing to do with what it means.
fn pieces(rng: &mut Rng, data: &[u8]) -> Vec<Vec<u8>> {
    let most = *rng.pick(&[7, 60, 1000, 8192, 1 << 16, MB]);
    let most = most.max(data.len() / 3000);
    let mut out = vec![];
    let mut rest = data;
    while !rest.is_empty() {
        let n = (1 + rng.below(most)).min(rest.len());
        out.push(rest[..n].to_vec());
        rest = &rest[n..];
    }
    out
}

impl Site {
    fn new(ctx: &Ctx, rng: &mut Rng) -> Site {
        let (io, cpu) = (crate::kit::rt(2), crate::kit::rt(3));
        let dir = scratch(&ctx.work, "c60");
        let limit = *rng.pick(&[None, None, Some(1), Some(3)]);
        let proxy = rng.chance(2, 3);
        let cached = rng.chance(2, 3);
        let symbols = dir.join("symbols");
        let mut files = vec![];
        for i in 0..3 {
            let id = DebugId::from_parts(Uuid::from_slice(&rng.bytes(16)).unwrap(), rng.below(40) as u32);
            // nobody finds files without any symbols
            let text = loop {
                let text = crate::natmon::Sym::gen(rng).text(id);
                if text.windows(6).any(|w| w == b"\nFUNC " || w == b"PUBLIC") {
                    break text;
                }
            };
            let name = rng.pick(&["app{}.pdb", "wkernel{}.pdb", "My App{}.pdb"]).replace("{}", &i.to_string());
            let path = format!("{name}/{}{:x}/{name}", id.uuid().simple().to_string().to_uppercase(), id.appendix());
            let at = symbols.join(&path);
            std::fs::create_dir_all(at.parent().unwrap()).unwrap();
            let stored = match rng.below(3) {
                0 => {
                    use std::io::Write;
                    let mut g = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
                    g.write_all(&text).unwrap();
                    g.finish().unwrap()
                }
                1 => zstd::encode_all(&text[..], 1).unwrap(),
                _ => text.clone(),
            };
            std::fs::write(at, stored).unwrap();
            files.push((path, text));
        }
        let mut extra = json!({
            "max_concurrent_requests": limit, "minidump_processing_timeout": "1h", "symstore_proxy": proxy, "connect_to_reserved_ips": true,
            "sources": [{"id": "configured", "type": "filesystem", "path": symbols, "layout": {"type": "symstore"}}],
        });
        if !cached {
            extra["cache_dir"] = Value::Null;
        }
        let cfg = config_in(&dir.join("cache"), extra);
        let service = RequestService::create(cfg, io.handle().clone(), cpu.handle().clone()).unwrap();
        let app = symbolicator_app::endpoints::create_app(service.clone());
        Site { app, service, dir, limit, proxy, cached, files, cpu, io }
    }

    fn send(&self, rep: &mut Report, rng: &mut Rng, method: &str, target: &str, headers: &[(&str, &str)], body: &[u8]) -> Option<Answer> {
        self.go(rep, method, target, headers, pieces(rng, body), false)
    }

    fn go(&self, rep: &mut Report, method: &str, target: &str, headers: &[(&str, &str)], chunks: Vec<Vec<u8>>, broken: bool) -> Option<Answer> {
        rep.count("HTTP requests");
        let mut b = Request::builder().method(method).uri(target);
        for (k, v) in headers {
            b = b.header(*k, *v);
        }
        let mut items: Vec<Result<Vec<u8>, std::io::Error>> = chunks.into_iter().map(Ok).collect();
        if broken {
            items.push(Err(std::io::Error::other("connection reset")));
        }
        let req = b.body(Body::from_stream(futures::stream::iter(items))).unwrap();
        let f = self.app.respond(req);
        let task = self.cpu.spawn(async move {
            let (parts, body) = f.await.into_parts();
            let body = body.bytes(None).await;
            (parts.status.as_u16(), parts.headers, body)
        });
        match self.cpu.block_on(async { tokio::time::timeout(Duration::from_secs(60), task).await }) {
            Err(_) => {
                rep.violate("a request is not answered", json!({"method": method, "target": target}));
                None
            }
            Ok(Err(e)) => {
                rep.violate("the code under test crashed", json!({"method": method, "target": target, "panic": e.to_string()}));
                None
            }
            Ok(Ok((_, _, Err(_)))) => {
                rep.violate("a response breaks off", json!({"method": method, "target": target}));
                None
            }
            Ok(Ok((status, headers, Ok(body)))) => {
                rep.count(&format!("answers with status {status}"));
                Some(Answer { status, headers, body })
            }
        }
    }

    fn poll(&self, rep: &mut Report, rng: &mut Rng, id: &str, timeout: Option<u64>) -> Option<Answer> {
        let t = timeout.map_or(String::new(), |t| format!("?timeout={t}"));
        self.send(rep, rng, "GET", &format!("/requests/{id}{t}"), &[], b"")
    }
}

/// A multipart body.
fn multipart(parts: &[(String, Vec<u8>)], boundary: &str) -> Vec<u8> {
    let mut b = vec![];
    for (name, data) in parts {
        b.extend(format!("--{boundary}\r\nContent-Disposition: form-data; name=\"{name}\"\r\n\r\n").bytes());
        b.extend(data);
        b.extend(b"\r\n");
    }
    b.extend(format!("--{boundary}--\r\n").bytes());
    b
}

const JSON: &[(&str, &str)] = &[("content-type", "application/json")];

struct Asked {
    kind: Kind,
    n: u64,
    end: End,
    target: &'static str,
    json: Option<Value>,
    parts: Vec<(String, Vec<u8>)>,
    candidates: bool,
    /// whose sources are in the candidates
    source: Option<&'static str>,
}

fn ask(rng: &mut Rng, kind: Kind, hold: Option<&str>, end: End, mock: &str) -> Asked {
    let n = fresh();
    let candidates = rng.chance(1, 2);
    let mut source = Some("configured");
    let mut sources = None;
    if rng.chance(1, 2) {
        source = if rng.chance(1, 2) { Some("mine") } else { None };
        sources = Some(match source {
            Some(_) => json!([{"id": "mine", "type": "filesystem", "path": "/nonexistent", "layout": {"type": "symstore"}}]),
            None => json!([]),
        });
    }
    let mut a = Asked { kind, n, end, target: "", json: None, parts: vec![], candidates, source };
    let options = json!({"dif_candidates": candidates});
    match kind {
        Kind::Native => {
            a.target = "/symbolicate";
            let mut v = json!({
                "platform": "native",
                "stacktraces": [{"thread_id": n, "frames": [{"instruction_addr": "0x1010"}], "registers": {"rip": "0x1010"}}],
                "modules": [{"type": "pe", "debug_id": format!("{n:032x}1"), "debug_file": "x.pdb", "image_addr": "0x1000", "image_size": 4096}],
                "options": options,
            });
            if let Some(s) = sources {
                v["sources"] = s;
            }
            if rng.chance(1, 4) {
                v["signal"] = json!(11);
            }
            if rng.chance(1, 4) {
                v["unknown"] = json!({"a": [1]});
            }
            a.json = Some(v);
        }
        Kind::Js => {
            a.target = "/symbolicate-js";
            // the request of the documentation, but for its modules and headers
            a.json = Some(json!({
                "platform": "node",
                "source": {"id": "<id>", "url": format!("{mock}/lookup/"), "token": "secret"},
                "stacktraces": [{"frames": [{"function": format!("f{n}"), "module": "x", "filename": "x", "abs_path": "x", "lineno": 1, "colno": 1, "in_app": true}]}],
                "modules": [{"code_file": "some-code-file", "debug_id": "some-debug-id", "type": "sourcemap"}],
                "dist": "production", "release": "1.33.1",
                "scraping": {"enabled": true, "allowed_origins": ["*.domain.com"], "headers": {}},
            }));
        }
        Kind::Jvm => {
            a.target = "/symbolicate-jvm";
            a.json = Some(json!({
                "platform": "java", "sources": sources.unwrap_or(json!([])),
                "exceptions": [{"type": format!("C{n}"), "module": "m"}],
                "stacktraces": [{"frames": [{"function": "a", "module": "b", "lineno": 1, "index": 0}]}],
                "modules": [], "options": {"apply_source_context": rng.chance(1, 2)},
            }));
        }
        Kind::Dump | Kind::Apple => {
            let (target, field) = if kind == Kind::Dump { ("/minidump", "upload_file_minidump") } else { ("/applecrashreport", "apple_crash_report") };
            a.target = target;
            let file = if kind == Kind::Dump {
                dump(n, hold, end)
            } else {
                let mut t = json!({
                    "timestamp": 1, "threads": [{"id": n, "frames": [{"addr": 0x1010}]}],
                    "images": [{"addr": 0x1000, "size": 0x1000, "uuid": format!("{n:032x}"), "path": "/bin/app"}],
                })
                .to_string()
                .into_bytes();
                if end == End::Fails {
                    t.truncate(t.len() / 2);
                }
                t
            };
            a.parts.push((field.into(), file));
            a.parts.push(("options".into(), options.to_string().into_bytes()));
            if let Some(s) = sources {
                a.parts.push(("sources".into(), s.to_string().into_bytes()));
            }
            if rng.chance(1, 2) {
                a.parts.push(("platform".into(), b"\"native\"".to_vec()));
            }
            if rng.chance(1, 2) {
                a.parts.push(("scraping".into(), json!({"enabled": true, "allowed_origins": ["*"], "headers": {}}).to_string().into_bytes()));
            }
            if kind == Kind::Dump && rng.chance(1, 2) {
                a.parts.push(("rewrite_first_module".into(), br#"[{"from": "[^/\\\\]+$", "to": "electron"}]"#.to_vec()));
            }
            for _ in 0..rng.below(3) {
                let len = *rng.pick(&[0, 10, 3000, MB + 10]);
                a.parts.push((rng.pick(&["unknown", "minidump", "", "Options"]).to_string(), rng.bytes(len)));
            }
            rng.shuffle(&mut a.parts);
        }
    }
    a
}

impl Asked {
    fn send(&self, site: &Site, rep: &mut Report, rng: &mut Rng, query: &str) -> Option<Answer> {
        let target = format!("{}{query}", self.target);
        match &self.json {
            Some(v) => {
                let ct = *rng.pick(&["application/json", "application/json; charset=utf-8"]);
                site.send(rep, rng, "POST", &target, &[("content-type", ct)], v.to_string().as_bytes())
            }
            None => {
                let boundary = rng.pick(&["xxx", "----WebKitFormBoundaryQq"]).to_string();
                let body = multipart(&self.parts, &boundary);
                site.send(rep, rng, "POST", &target, &[("content-type", &format!("multipart/form-data; boundary={boundary}"))], &body)
            }
        }
    }

    /// What is wrong with the answer to the request.
    fn judge(&self, a: &Answer) -> Option<String> {
        let v = a.json();
        if a.status != 200 {
            // the request of a task that crashed is forgotten at once
            return if self.end == End::Crashes && a.status == 500 && v["detail"].is_string() { None } else { Some("a valid request is refused".into()) };
        }
        if a.headers.get("content-type").and_then(|t| t.to_str().ok()) != Some("application/json") {
            return Some("an answer is not labelled as JSON".into());
        }
        let status = v["status"].as_str().unwrap_or("");
        let want = match self.end {
            End::Done => "completed",
            End::Fails => "failed",
            End::Crashes => "internal_error",
        };
        if status != want {
            return Some(format!("a request is answered as {status} and not as {want}"));
        }
        if self.end != End::Done {
            return None;
        }
        if whose(self.kind, &v) != Some(self.n) {
            return Some("a request is answered with the result of another".into());
        }
        if matches!(self.kind, Kind::Native) {
            let c: Vec<&Value> = v["modules"].as_array().into_iter().flatten().flat_map(|m| m["candidates"].as_array().into_iter().flatten()).collect();
            if !self.candidates && !c.is_empty() {
                return Some("candidates nobody asked for are in the answer".into());
            }
            if self.candidates && (c.is_empty() != self.source.is_none() || c.iter().any(|c| Some(c["source"].as_str().unwrap_or("")) != self.source)) {
                return Some("not the sources of the request, or else of the configuration, are used".into());
            }
        }
        None
    }
}

fn valid(site: &Site, rep: &mut Report, rng: &mut Rng, mock: &Mock) {
    let kind = *rng.pick(&KINDS);
    let end = match kind {
        Kind::Dump => *rng.pick(&[End::Done, End::Done, End::Fails, End::Crashes]),
        Kind::Apple => *rng.pick(&[End::Done, End::Fails]),
        _ => End::Done,
    };
    let a = ask(rng, kind, None, end, mock.url("").trim_end_matches('/'));
    let query = *rng.pick(&["", "", "?scope=123", "?timeout=50", "?timeout=50&scope=a%2Fb", "?other=1"]);
    let Some(mut got) = a.send(site, rep, rng, query) else { return };
    // who has a limit may have to wait for the room to be there
    for _ in 0..50 {
        if got.status != 503 || site.limit.is_none() {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        let Some(again) = a.send(site, rep, rng, query) else { return };
        got = again;
    }
    rep.count(&format!("valid requests: {kind:?} {end:?}"));
    rep.distinct((format!("{kind:?} {end:?}"), query, a.parts.iter().map(|p| p.0.clone()).collect::<Vec<_>>()));
    if let Some(bad) = a.judge(&got) {
        let parts: Vec<_> = a.parts.iter().map(|p| (&p.0, p.1.len())).collect();
        rep.violate(bad, json!({"kind": format!("{kind:?}"), "end": format!("{end:?}"), "answer": got.show(), "parts": parts, "query": query}));
    }
}

/// Requests that take their time are polled.
fn pending(site: &Site, rep: &mut Report, rng: &mut Rng, mock: &Mock) {
    let name = format!("w{}", fresh());
    let gate = processor::gate(&name);
    let mut asked = vec![];
    for _ in 0..site.limit.unwrap_or(2) {
        let a = ask(rng, Kind::Dump, Some(&name), End::Done, mock.url("").trim_end_matches('/'));
        let mut got = a.send(site, rep, rng, "?timeout=0");
        for _ in 0..50 {
            if got.as_ref().is_some_and(|g| g.status == 503) {
                std::thread::sleep(Duration::from_millis(20));
                got = a.send(site, rep, rng, "?timeout=0");
            }
        }
        let Some(got) = got else { return };
        let v = got.json();
        let id = v["request_id"].as_str().map(String::from);
        if got.status != 200 || v["status"] != "pending" || id.is_none() || v["retry_after"].as_u64().is_none() {
            rep.violate("a request in progress is not pending", json!({"answer": got.show()}));
            return;
        }
        rep.count("pending requests");
        asked.push((a, id.unwrap()));
    }
    if site.limit.is_some() {
        let a = ask(rng, *rng.clone().pick(&KINDS), None, End::Done, mock.url("").trim_end_matches('/'));
        if let Some(got) = a.send(site, rep, rng, "") {
            rep.count("requests to a full service");
            if got.status != 503 || !got.json()["detail"].is_string() {
                rep.violate("a request to a full service is not refused as such", json!({"answer": got.show(), "kind": format!("{:?}", a.kind)}));
            }
        }
    }
    let (a, id) = rng.pick(&asked);
    let shape = *rng.pick(&[0, 1, 2]);
    let asked_id = match shape {
        0 => id.clone(),
        1 => id.to_uppercase(),
        _ => id.replace('-', ""),
    };
    if let Some(got) = site.poll(rep, rng, &asked_id, Some(0)) {
        if got.status != 200 || got.json()["status"] != "pending" || got.json()["request_id"] != json!(id) {
            rep.violate("a request in progress is not pending", json!({"answer": got.show(), "poll": true, "id": asked_id}));
        }
    }
    let _ = a;
    drop(gate);
    for (a, id) in &asked {
        let times = 1 + rng.below(3);
        let mut first: Option<Vec<u8>> = None;
        for _ in 0..times {
            let t = *rng.pick(&[None, Some(50)]);
            let Some(got) = site.poll(rep, rng, id, t) else { return };
            rep.count("results polled");
            if let Some(bad) = a.judge(&got) {
                rep.violate(bad, json!({"answer": got.show(), "poll": true}));
            }
            if first.as_ref().is_some_and(|f| serde_json::from_slice::<Value>(f).unwrap() != got.json()) {
                rep.violate("a request is answered differently when polled again", json!({"answer": got.show()}));
            }
            first = Some(got.body);
        }
    }
    for id in [Uuid::from_slice(&rng.bytes(16)).unwrap().to_string(), "nonsense".into(), "%20".into()] {
        if let Some(got) = site.poll(rep, rng, &id, None) {
            rep.count("unknown requests");
            if got.status != 404 {
                rep.violate("a poll of a request nobody made is not answered with 404", json!({"id": id, "answer": got.show()}));
            }
        }
    }
}

/// Requests that are not what the documentation asks for.
fn broken(site: &Site, rep: &mut Report, rng: &mut Rng, mock: &Mock) {
    let kind = *rng.pick(&KINDS);
    let mut a = ask(rng, kind, None, End::Done, mock.url("").trim_end_matches('/'));
    let expect = |what: &'static str, got: Option<Answer>, want: &[u16], rep: &mut Report| {
        let Some(got) = got else { return };
        if got.status == 503 && site.limit.is_some() {
            return;
        }
        rep.count(&format!("broken: {what}"));
        rep.distinct((what, format!("{kind:?}"), got.status));
        if !want.contains(&got.status) {
            rep.violate(format!("{what} is not answered with {want:?}"), json!({"kind": format!("{kind:?}"), "answer": got.show()}));
        }
    };
    if let Some(v) = &a.json {
        let text = v.to_string();
        match rng.below(9) {
            0 => {
                let cut = rng.below(text.len());
                expect("JSON that is cut off", site.send(rep, rng, "POST", a.target, JSON, &text.as_bytes()[..cut]), &[400], rep)
            }
            1 => expect("a body without content type", site.send(rep, rng, "POST", a.target, &[], text.as_bytes()), &[415], rep),
            2 => expect("a query that is no number", site.send(rep, rng, "POST", &format!("{}?timeout=soon", a.target), JSON, text.as_bytes()), &[400], rep),
            3 => {
                let mut w = v.clone();
                match kind {
                    Kind::Native => w["stacktraces"] = json!({"frames": 5}),
                    Kind::Js => {
                        w.as_object_mut().unwrap().remove("source");
                    }
                    _ => w["exceptions"] = json!([{"kind": 5}]),
                }
                expect("JSON of another shape", site.send(rep, rng, "POST", a.target, JSON, w.to_string().as_bytes()), &[422], rep)
            }
            4 => {
                // around the documented limits, padded with blanks
                let limit = if kind == Kind::Native { 5 * MB } else { 100 * MB };
                let over = if kind == Kind::Native { rng.chance(1, 2) } else { false };
                let len = if over { limit + 1 + rng.below(1000) } else { (5 * MB).min(limit) - rng.below(2) * rng.below(1000) };
                let mut body = text.clone().into_bytes();
                body.resize(len, b' ');
                let got = site.send(rep, rng, "POST", a.target, JSON, &body);
                if over {
                    expect("a body over the limit", got, &[413], rep)
                } else {
                    expect("a body within the limit", got, &[200], rep)
                }
            }
            5 => {
                let chunks = pieces(rng, text.as_bytes());
                let keep = rng.below(chunks.len() + 1);
                expect("a connection that breaks", site.go(rep, "POST", a.target, JSON, chunks.into_iter().take(keep).collect(), true), &[400], rep)
            }
            6 => expect("another method", { let m = *rng.pick(&["GET", "PUT", "DELETE", "HEAD"]); site.send(rep, rng, m, a.target, JSON, text.as_bytes()) }, &[405], rep),
            7 => expect("an unknown path", site.send(rep, rng, "POST", &format!("{}/x", a.target), JSON, text.as_bytes()), &[404], rep),
            _ => {
                let n = rng.below(300);
                let noise = rng.bytes(n);
                expect("noise", site.send(rep, rng, "POST", a.target, JSON, &noise), &[400, 422], rep)
            }
        }
        return;
    }
    let field = a.parts.iter().position(|p| p.0 == "upload_file_minidump" || p.0 == "apple_crash_report").unwrap();
    let ct = [("content-type", "multipart/form-data; boundary=xxx")];
    match rng.below(10) {
        0 => {
            a.parts.remove(field);
            expect("a form without the file", site.send(rep, rng, "POST", a.target, &ct, &multipart(&a.parts, "xxx")), &[400], rep)
        }
        1 if kind == Kind::Dump => {
            a.parts[field].1.splice(0..0, *b"--");
            expect("a minidump that is a form", site.send(rep, rng, "POST", a.target, &ct, &multipart(&a.parts, "xxx")), &[400], rep)
        }
        2 | 3 => {
            // fields of a megabyte are fine
            let over = rng.chance(1, 2);
            let name = *rng.pick(&["sources", "options", "scraping", "platform", "rewrite_first_module"]);
            let name = if name == "rewrite_first_module" && kind == Kind::Apple { "options" } else { name };
            a.parts.retain(|p| p.0 != name);
            let mut data = match name {
                "sources" | "rewrite_first_module" => b"[]".to_vec(),
                "platform" => b"\"native\"".to_vec(),
                "scraping" => br#"{"enabled": false, "allowed_origins": [], "headers": {}}"#.to_vec(),
                _ => b"{}".to_vec(),
            };
            let len = if over { MB + 1 + rng.below(3) * rng.below(5000) } else { MB - rng.below(2) * rng.below(3) };
            data.resize(len, b' ');
            let at = rng.below(a.parts.len() + 1);
            a.parts.insert(at, (name.into(), data));
            let got = site.send(rep, rng, "POST", a.target, &ct, &multipart(&a.parts, "xxx"));
            if over {
                expect("a field over the limit", got, &[413], rep)
            } else {
                expect("a field within the limit", got, &[200], rep)
            }
        }
        4 => {
            let name = *rng.pick(&["sources", "options", "scraping", "platform"]);
            a.parts.retain(|p| p.0 != name);
            let at = rng.below(a.parts.len() + 1);
            let data = rng.pick(&[&b"{"[..], b"", b"\xff", b"{\"id\": 5}]", b"nul"]).to_vec();
            a.parts.insert(at, (name.into(), data));
            expect("a field that is no JSON", site.send(rep, rng, "POST", a.target, &ct, &multipart(&a.parts, "xxx")), &[400], rep)
        }
        5 => {
            let body = multipart(&a.parts, "xxx");
            // the last two bytes do not matter
            let cut = rng.below(body.len() - 3);
            expect("a form that is cut off", site.send(rep, rng, "POST", a.target, &ct, &body[..cut]), &[400], rep)
        }
        6 => {
            let chunks = pieces(rng, &multipart(&a.parts, "xxx"));
            let keep = rng.below(chunks.len());
            if chunks[keep..].iter().map(Vec::len).sum::<usize>() < 3 {
                return;
            }
            expect("a connection that breaks", site.go(rep, "POST", a.target, &ct, chunks.into_iter().take(keep).collect(), true), &[400], rep)
        }
        7 => {
            let ct = *rng.pick(&["multipart/form-data", "application/json", "text/plain"]);
            expect("a form without a boundary", site.send(rep, rng, "POST", a.target, &[("content-type", ct)], &multipart(&a.parts, "xxx")), &[400], rep)
        }
        8 => expect("another method", { let m = *rng.pick(&["GET", "PUT", "DELETE"]); site.send(rep, rng, m, a.target, &ct, b"") }, &[405], rep),
        _ => {
            let n = rng.below(300);
            let noise = rng.bytes(n);
            expect("noise", site.send(rep, rng, "POST", a.target, &ct, &noise), &[400], rep)
        }
    }
}

fn proxy(site: &Site, rep: &mut Report, rng: &mut Rng) {
    let (path, data) = rng.pick(&site.files).clone();
    let mut want = if site.proxy { 200 } else { 404 };
    let escaped: String = path.chars().map(|c| if c == ' ' { "%20".into() } else { c.to_string() }).collect();
    let mut target = format!("/proxy/{escaped}");
    match rng.below(5) {
        0 => {
            target = format!("/proxy/{}", escaped.replace(|c: char| c.is_ascii_digit(), "7"));
            if target == format!("/proxy/{escaped}") {
                return;
            }
            want = 404;
        }
        1 => {
            target = format!("/proxy/{}", rng.pick(&["x", "a/b/c", "app.pdb/zz/app.pdb", "../../etc/passwd", "a.pdb/0123/b.pdb", "%2e%2e/x"]));
            want = 404;
        }
        _ => {}
    }
    let method = *rng.pick(&["GET", "GET", "HEAD"]);
    let Some(got) = site.send(rep, rng, method, &target, &[], b"") else { return };
    rep.distinct(("proxy", want, method, site.proxy));
    let detail = json!({"path": target, "answer": got.show(), "method": method, "proxy": site.proxy});
    if got.status != want {
        rep.violate(format!("the proxy does not answer with {want}"), detail);
        return;
    }
    if want == 404 {
        rep.count(if site.proxy { "files the proxy does not have" } else { "requests to a proxy that is off" });
        if !got.body.is_empty() {
            rep.violate("the proxy sends something for a file it does not have", detail);
        }
        return;
    }
    rep.count(if method == "HEAD" { "files asked for by HEAD" } else { "files proxied" });
    let head = |k: &str| got.headers.get(k).and_then(|v| v.to_str().ok()).unwrap_or("").to_string();
    if head("content-length") != data.len().to_string() || head("content-type") != "application/octet-stream" {
        rep.violate("the proxy does not describe a file as it is", detail);
    } else if method == "HEAD" && !got.body.is_empty() {
        rep.violate("the proxy answers HEAD with a body", detail);
    } else if method == "GET" && got.body != data {
        rep.violate("the proxy sends another file", detail);
    }
}

/// Whether the web is scraped is up to the client.
fn scraping(site: &Site, rep: &mut Report, rng: &mut Rng, mock: &Mock) {
    let base = mock.url("");
    let base = base.trim_end_matches('/');
    let mut a = ask(rng, Kind::Js, None, End::Done, base);
    let (enabled, allowed) = (*rng.pick(&[None, Some(true), Some(false)]), *rng.pick(&[None, Some(true), Some(false)]));
    let path = format!("/web/{}.js", a.n);
    let v = a.json.as_mut().unwrap();
    v["stacktraces"][0]["frames"][0]["abs_path"] = json!(format!("{base}{path}"));
    v.as_object_mut().unwrap().remove("scraping");
    if let Some(e) = enabled {
        v["scraping"] = json!({"enabled": e, "allowed_origins": ["*"], "headers": {}});
    }
    if let Some(x) = allowed {
        v["allow_scraping"] = json!(x);
    }
    v["modules"] = json!([]);
    let Some(got) = a.send(site, rep, rng, "") else { return };
    if got.status == 503 && site.limit.is_some() {
        return;
    }
    if let Some(bad) = a.judge(&got) {
        rep.violate(bad, json!({"answer": got.show(), "scraping": enabled, "allow_scraping": allowed}));
        return;
    }
    let hit = mock.log().iter().any(|h| h.target == path);
    let want = enabled.unwrap_or(true) && allowed.unwrap_or(true);
    rep.count(if want { "requests that scrape" } else { "requests that do not scrape" });
    if hit != want {
        rep.violate(if want { "what may be scraped is not" } else { "the web is scraped although the client does not allow it" }, json!({"scraping": enabled, "allow_scraping": allowed}));
    }
}

fn round(ctx: &Ctx, rep: &mut Report, rng: &mut Rng, mock: &Mock) {
    let site = Site::new(ctx, rng);
    rep.eval();
    mock.take();
    for _ in 0..if ctx.thorough { 60 } else { 30 } {
        match rng.below(12) {
            0..=3 => valid(&site, rep, rng, mock),
            4..=6 => broken(&site, rep, rng, mock),
            7 => pending(&site, rep, rng, mock),
            8 => proxy(&site, rep, rng),
            9 => proxy(&site, rep, rng),
            10 => scraping(&site, rep, rng, mock),
            _ => {
                let (m, want) = *rng.pick(&[("GET", 200), ("HEAD", 200), ("POST", 405)]);
                if let Some(got) = site.send(rep, rng, m, "/healthcheck", &[], b"") {
                    rep.count("health checks");
                    if got.status != want || (m == "GET" && got.body != b"ok") {
                        rep.violate("the health check does not say that all is well", json!({"method": m, "answer": got.show()}));
                    }
                }
            }
        }
        if rep.violations.len() >= 25 {
            break;
        }
    }
    if rng.chance(1, 40) {
        // more than everything may be
        let mut chunks = vec![b"--xxx\r\nContent-Disposition: form-data; name=\"upload_file_minidump\"\r\n\r\nMDMP".to_vec()];
        chunks.extend((0..101).map(|_| vec![b'x'; MB]));
        if let Some(got) = site.go(rep, "POST", "/minidump", &[("content-type", "multipart/form-data; boundary=xxx")], chunks, false) {
            rep.count("forms over the limit");
            if !(400..500).contains(&got.status) {
                rep.violate("a form over the limit is not refused", json!({"answer": got.show()}));
            }
        }
    }
    // whatever became of the requests, their files are gone
    if site.cached {
        let tmp = site.dir.join("cache").join("tmp");
        let gone = site.cpu.block_on(eventually(|| tree(&tmp).is_empty()));
        rep.count("directories of uploads looked at");
        if !gone {
            let left: Vec<_> = tree(&tmp).iter().map(|(k, v)| (k.clone(), v.len())).collect();
            rep.violate("uploaded files stay behind", json!({"files": left}));
        }
    }
    let _ = to_json(None);
    let _ = std::fs::remove_dir_all(&site.dir);
    let Site { cpu, io, app, service, .. } = site;
    drop((app, service));
    cpu.shutdown_background();
    io.shutdown_background();
    processor::forget_gates();
}

pub fn c60(ctx: &Ctx) -> Report {
    let mut rep = Report::new("valid requests are answered with their own result, broken ones refused with the right status, nothing uploaded stays behind");
    let mut rng = Rng::new(ctx.seed ^ 0x60);
    let mock = Arc::new(Mock::start(|h| {
        if h.path().starts_with("/lookup") {
            Resp::json(&json!([]))
        } else {
            Resp::new(404, "nothing here")
        }
    }));
    while ctx.time_left() && rep.violations.len() < 25 {
        round(ctx, &mut rep, &mut rng, &mock);
    }
    for k in [
        "valid requests: Native Done",
        "valid requests: Js Done",
        "valid requests: Jvm Done",
        "valid requests: Dump Done",
        "valid requests: Dump Fails",
        "valid requests: Dump Crashes",
        "valid requests: Apple Done",
        "valid requests: Apple Fails",
        "pending requests",
        "results polled",
        "unknown requests",
        "requests to a full service",
        "broken: JSON that is cut off",
        "broken: JSON of another shape",
        "broken: a body over the limit",
        "broken: a field over the limit",
        "broken: a field within the limit",
        "broken: a form that is cut off",
        "broken: a form without the file",
        "broken: a connection that breaks",
        "files proxied",
        "files asked for by HEAD",
        "files the proxy does not have",
        "requests to a proxy that is off",
        "requests that scrape",
        "requests that do not scrape",
        "health checks",
        "directories of uploads looked at",
    ] {
        rep.require(k, 3);
    }
    rep
}
