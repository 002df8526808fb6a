//! Monitors of the JavaScript symbolication (C51: frames, C52: finding files, C53: isolation).
use crate::common::{Ctx, Report, Rng};
use crate::dlmon::{dl_config, gz};
use crate::jvmmon::text;
use crate::kit::*;
use crate::mock::*;
use crate::objmon::{services, Notes};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use symbolic::common::DebugId;
use symbolic::debuginfo::js::{discover_debug_id, discover_sourcemap_embedded_debug_id, discover_sourcemaps_location};
use symbolic::debuginfo::sourcebundle::{SourceBundleWriter, SourceFileInfo, SourceFileType};
use symbolicator_js::interface::*;
use symbolicator_js::SourceMapService;
use symbolicator_service::source_context::get_context_lines;
use symbolicator_service::types::ScrapingConfig;
use symbolicator_sources::SentrySourceConfig;

// ------------------------------------------------------------------------------------- path rules

/// The path after the host (or a leading tilde).
fn strip_host(p: &str) -> &str {
    if let Some(r) = p.strip_prefix('~') {
        return r;
    }
    match p.find("://") {
        Some(i) => {
            let rest = &p[i + 3..];
            rest.find('/').map_or(rest, |j| &rest[j..])
        }
        None => p,
    }
}

/// The names a file can be stored under, most specific first.
fn candidates(url: &str) -> Vec<String> {
    let url = url.split('#').next().unwrap();
    let rel = strip_host(url);
    let mut v = vec![url.to_string()];
    if url.contains('?') {
        v.push(url.split('?').next().unwrap().into());
    }
    v.push(format!("~{rel}"));
    if rel.contains('?') {
        v.push(format!("~{}", rel.split('?').next().unwrap()));
    }
    v
}

fn stem(url: &str) -> String {
    let p = strip_host(url);
    let Some(i) = p.rfind('/') else { return p.into() };
    let mut name = p[i + 1..].split(['?', '#']).next().unwrap();
    'trim: loop {
        for s in [".min", ".js", ".map", ".cjs", ".mjs", ".ts", ".d", ".jsx", ".tsx"] {
            if let Some(n) = name.strip_suffix(s) {
                name = n;
                continue 'trim;
            }
        }
        return format!("{}/{name}", &p[..i]);
    }
}

/// `right` as seen from the file `base`.
fn join(base: &str, right: &str) -> String {
    if right.contains("://") || right.starts_with("webpack:") {
        return right.into();
    }
    let (scheme, rest) = match base.find("://") {
        Some(i) => (Some(&base[..i]).filter(|s| *s != "file"), &base[i + 3..]),
        None => (None, base),
    };
    let right = right.strip_prefix('~').unwrap_or(right);
    if right.starts_with('/') {
        return match scheme {
            None => right.into(),
            Some(s) => match right.strip_prefix("//") {
                Some(r) => format!("{s}://{r}"),
                None => format!("{s}://{}{right}", rest.split('/').next().unwrap()),
            },
        };
    }
    let mut out = String::new();
    let mut dirs: Vec<&str> = rest.split('/').collect();
    match scheme {
        Some(s) => {
            out = format!("{s}://{}", dirs.remove(0));
        }
        None => {
            if dirs[0].is_empty() {
                dirs.remove(0);
            }
        }
    }
    dirs.pop();
    let http = matches!(scheme, Some("http" | "https"));
    let mut leading = true;
    for seg in right.split('/') {
        if seg == ".." && (dirs.pop().is_some() || http) {
            continue;
        }
        if seg == "." && (http || leading) {
            continue;
        }
        leading = false;
        dirs.push(seg);
    }
    for d in dirs.into_iter().filter(|d| !d.is_empty()) {
        out.push('/');
        out.push_str(d);
    }
    out
}

fn webpack_name(f: &str) -> String {
    if let Some((_, r)) = f.split_once("/~/") {
        return format!("~/{r}");
    }
    for scheme in ["webpack://", "webpack-internal://"] {
        if let Some(r) = f.strip_prefix(scheme) {
            let n = r.find(|c: char| !(c.is_ascii_alphanumeric() || "_-@.".contains(c))).unwrap_or(r.len());
            if n > 0 && r[n..].starts_with("/./") {
                return format!("./{}", &r[n + 3..]);
            }
            if let Some(r) = r.strip_prefix('/') {
                return r.into();
            }
        }
    }
    f.into()
}

fn hexes(s: &str) -> bool {
    s.chars().all(|c| c.is_ascii_hexdigit())
}

/// A directory that says nothing about the module.
fn useless_dir(s: &str) -> bool {
    let l = s.to_ascii_lowercase();
    if ["script", "scripts", "javascript", "javascripts", "js", "build", "static", "node_modules", "bower_components"].contains(&l.as_str())
        || l.starts_with(['_', '.', '~'])
    {
        return true;
    }
    let v = l.strip_prefix('v').unwrap_or(&l);
    if v.split('.').all(|d| !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit())) {
        return true;
    }
    hexes(&l) && matches!(l.len(), 7 | 8 | 32 | 40)
}

fn module_name(path: &str) -> String {
    let p = strip_host(path);
    let mut p = p.split(['#', '?']).next().unwrap();
    if let Some(i) = p.rfind(['.', '/']) {
        if p.as_bytes()[i] == b'.' {
            p = &p[..i];
        }
    }
    let p = p.strip_suffix(".min").unwrap_or(p);
    let segs: Vec<&str> = p.split('/').collect();
    if let Some(i) = segs.iter().position(|s| matches!(s.len(), 32 | 40) && hexes(s)) {
        return segs[i + 1..].join("/");
    }
    let mut p = p;
    let mut cut = false;
    loop {
        if let Some(r) = p.strip_prefix('/') {
            p = r;
        } else if let Some((d, r)) = p.split_once('/').filter(|(d, _)| useless_dir(d)) {
            let _ = d;
            p = r;
        } else {
            break;
        }
        cut = true;
    }
    let _ = cut;
    // a commit at the end
    let tail = p.rfind(['-', '.']).filter(|i| p.len() - i - 1 >= 7 && hexes(&p[i + 1..]));
    match tail {
        Some(i) => p[..i].into(),
        None => p.into(),
    }
}

fn fold(name: &str) -> String {
    let parts: Vec<&str> = name.split('.').collect();
    let (tail, rest) = parts.split_last().unwrap();
    let mut runs: Vec<(&str, usize)> = vec![];
    for p in rest {
        match runs.last_mut() {
            Some((q, n)) if q == p => *n += 1,
            _ => runs.push((p, 1)),
        }
    }
    let mut out: Vec<String> = runs.into_iter().map(|(p, n)| if n == 1 { p.into() } else { format!("{{{p}#{n}}}") }).collect();
    out.push(tail.to_string());
    out.join(".")
}

// ------------------------------------------------------------------------------------- source maps

#[derive(Clone)]
struct Tok {
    at: (u32, u32),
    file: Option<usize>,
    line: u32,
    column: u32,
    name: Option<usize>,
}

/// A source map as the generator made it.
#[derive(Clone)]
struct SMap {
    tokens: Vec<Tok>,
    files: Vec<(Option<String>, Option<String>)>,
    names: Vec<String>,
    scopes: Vec<((u32, u32), Option<String>)>,
}

fn vlq(mut n: i64, out: &mut String) {
    n = if n < 0 { (-n << 1) | 1 } else { n << 1 };
    loop {
        let d = (n & 31) as usize;
        n >>= 5;
        out.push(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[if n > 0 { d | 32 } else { d }] as char);
        if n == 0 {
            return;
        }
    }
}

impl SMap {
    fn json(&self, id: Option<DebugId>) -> String {
        let mut m = String::new();
        let (mut line, mut col) = (0, 0i64);
        let (mut f, mut l, mut c, mut n) = (0i64, 0i64, 0i64, 0i64);
        let mut first = true;
        for t in &self.tokens {
            while line < t.at.0 {
                m.push(';');
                line += 1;
                col = 0;
                first = true;
            }
            if !first {
                m.push(',');
            }
            first = false;
            vlq(t.at.1 as i64 - col, &mut m);
            col = t.at.1 as i64;
            if let Some(file) = t.file {
                vlq(file as i64 - f, &mut m);
                vlq(t.line as i64 - l, &mut m);
                vlq(t.column as i64 - c, &mut m);
                (f, l, c) = (file as i64, t.line as i64, t.column as i64);
                if let Some(name) = t.name {
                    vlq(name as i64 - n, &mut m);
                    n = name as i64;
                }
            }
        }
        let mut v = json!({
            "version": 3, "names": self.names, "mappings": m,
            "sources": self.files.iter().map(|f| f.0.clone()).collect::<Vec<_>>(),
            "sourcesContent": self.files.iter().map(|f| f.1.clone()).collect::<Vec<_>>(),
            "x_scopes": self.scopes.iter().map(|s| json!([s.0.0, s.0.1, s.1])).collect::<Vec<_>>(),
        });
        if let Some(id) = id {
            v["debug_id"] = json!(id);
        }
        v.to_string()
    }
}

const SOURCES: [&str; 34] = [
    "../src/a.js", "b.js", "./c.ts", "webpack:///./src/b.js", "webpack://my-app/./src/x.js", "webpack:///92cd589eca8235e7b373bf5ae94ebf898e3b949c/v.js",
    "https://other.example.com/js/v1/x.js", "/abs/y.ts", "~/z.tsx", "webpack:///node_modules/foo/~/bar/index.js", "a/../../up.js", "../../../../far.js",
    "webpack-internal:///./lib/q.mjs", "app:///static/js/main.1234567.js", "file:///home/u/w.js", "x y ż.js", "//cdn.host/dd.js", "webpack:/odd/../k.js",
    "lib-abcdef01.min.js", "dir/a-folder-that-has-32-characters1/m.js", "d/7d6d00eae0ceccdc7ee689659585d95f/n.js", "", "node_modules/.pnpm/v2.1/p.js", "a.b.c.jsx",
    "da39a3ee5e6b4b0d3255bfef95601890afd80709/vendor/g.js", "https://h.test/x/DA39A3EE5E6B4B0D3255BFEF95601890AFD80709/i/j.js", "u/./v/./w.js",
    "./././d.js", "src/../.././up.mjs", "../.", "/x/7d6d00eae0ceccdc7ee689659585d95/short.js", "app://nohostpath", "~", "q/7d6d00eae0ceccdc7ee689659585d95f0/z/long.js",
];
const NAMES: [&str; 14] = [
    "render", "<anonymous>", "__webpack_require__", "foo.foo.bar", "a.a.a.a.b", "", "onClick", "Foo.prototype.Foo.prototype.run", "__webpack_modules__", "x.y",
    "$async$load", "bar.bar.foo.foo.foo.go", "ż.ż.ż", "h",
];

fn smap(rng: &mut Rng, lines: usize) -> SMap {
    let nf = 1 + rng.below(5);
    let files = (0..nf)
        .map(|_| {
            let name = (!rng.chance(1, 12)).then(|| rng.pick(&SOURCES).to_string());
            let body = rng.chance(1, 2).then(|| text(rng).0);
            (name, body)
        })
        .collect::<Vec<_>>();
    let names: Vec<String> = (0..rng.below(8)).map(|_| rng.pick(&NAMES).to_string()).collect();
    let mut at = BTreeSet::new();
    for _ in 0..rng.below(25) {
        at.insert((rng.below(lines.max(1)) as u32, if rng.chance(1, 4) { 0 } else { rng.below(120) as u32 }));
    }
    let tokens = at
        .into_iter()
        .map(|at| {
            let file = (!rng.chance(1, 10)).then(|| rng.below(nf));
            let name = (file.is_some() && !names.is_empty() && rng.chance(2, 3)).then(|| rng.below(names.len()));
            Tok { at, file, line: if file.is_some() { rng.below(24) as u32 } else { 0 }, column: if file.is_some() { rng.below(160) as u32 } else { 0 }, name }
        })
        .collect();
    let mut at = BTreeSet::new();
    for _ in 0..rng.below(12) {
        at.insert((rng.below(lines.max(1)) as u32, rng.below(100) as u32));
    }
    let scopes = at
        .into_iter()
        .map(|at| {
            let s = match rng.below(5) {
                0 => None,
                1 => Some("?".to_string()),
                _ => Some(rng.pick(&NAMES).to_string()),
            };
            (at, s)
        })
        .collect();
    SMap { tokens, files, names, scopes }
}

// ------------------------------------------------------------------------------------- worlds

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Min,
    Map,
    Src,
}

/// A file in a bundle.
#[derive(Clone)]
struct BFile {
    url: String,
    ty: Ty,
    id: Option<DebugId>,
    map: Option<String>,
    body: Vec<u8>,
}

#[derive(Clone)]
enum What {
    Bundle { files: Vec<BFile>, usable: bool },
    File { abs_path: String, headers: BTreeMap<String, String> },
}

/// Something the API can answer with.
#[derive(Clone)]
struct Offer {
    id: String,
    what: What,
    /// how the file is served
    resp: Resp,
    body: Vec<u8>,
    with_token: bool,
    resolved: &'static str,
    by_id: BTreeSet<DebugId>,
    by_url: Vec<String>,
}

struct World {
    name: String,
    port: u16,
    token: String,
    offers: Vec<Offer>,
    /// by path and query
    web: HashMap<String, Resp>,
    release: Option<String>,
    dist: Option<String>,
    api_ok: bool,
    scraping: ScrapingConfig,
    maps: Mutex<HashMap<Vec<u8>, SMap>>,
    paths: Vec<String>,
    ids: BTreeMap<String, DebugId>,
    bad: Mutex<Vec<(String, Value)>>,
    api_hits: Mutex<u64>,
}

impl World {
    /// What the API answers: positions of offers.
    fn answer(&self, release: Option<&str>, dist: Option<&str>, urls: &[String], ids: &[DebugId]) -> Vec<usize> {
        (0..self.offers.len())
            .filter(|i| {
                let o = &self.offers[*i];
                ids.iter().any(|d| o.by_id.contains(d))
                    || release.is_some()
                        && release == self.release.as_deref()
                        && dist == self.dist.as_deref()
                        && o.by_url.iter().any(|u| urls.iter().any(|s| u.contains(s.as_str())))
            })
            .collect()
    }

    fn handle(&self, h: &Hit, base: &str) -> Resp {
        let rest = &h.target[1 + self.name.len()..];
        let token = h.header("authorization") == Some(&format!("Bearer {}", self.token));
        let any_token = h.header("authorization").is_some();
        let extra = self.scraping.headers.iter().any(|(k, v)| h.header(k) == Some(v));
        let complain = |what: &str| self.bad.lock().unwrap().push((what.into(), json!({"request": h.target, "headers": h.headers})));
        if let Some(q) = rest.strip_prefix("/api/?").or(rest.strip_prefix("/api/").filter(|r| r.is_empty())) {
            *self.api_hits.lock().unwrap() += 1;
            if !token {
                complain("the API is asked without the token");
            }
            if extra {
                complain("headers for scraping are sent to the API");
            }
            if !self.api_ok {
                return Resp::new(500, "no");
            }
            let (mut release, mut dist, mut urls, mut ids) = (None, None, vec![], vec![]);
            for (k, v) in url::form_urlencoded::parse(q.as_bytes()) {
                match &*k {
                    "release" => release = Some(v.to_string()),
                    "dist" => dist = Some(v.to_string()),
                    "url" => urls.push(v.to_string()),
                    "debug_id" => ids.extend(v.parse::<DebugId>()),
                    _ => complain("an unknown parameter is sent to the API"),
                }
            }
            // files are looked for by their stem, so that they are found under any extension
            let endings = [".min", ".js", ".map", ".cjs", ".mjs", ".ts", ".d", ".jsx", ".tsx"];
            if urls.iter().any(|u| u.rsplit_once('/').is_some_and(|(_, n)| n.contains(['?', '#']) || endings.iter().any(|e| n.ends_with(e)))) {
                complain("the API is asked for more than the stem of a path");
            }
            if release.is_none() && !urls.is_empty() {
                complain("the API is asked for a path without a release");
            }
            let list: Vec<Value> = self
                .answer(release.as_deref(), dist.as_deref(), &urls, &ids)
                .into_iter()
                .map(|i| {
                    let o = &self.offers[i];
                    let url = format!("{base}/{}/{}/{}", self.name, if o.with_token { "api/file" } else { "cdn" }, o.id);
                    let mut v = match &o.what {
                        What::Bundle { .. } => json!({"type": "bundle"}),
                        What::File { abs_path, headers } => json!({"type": "file", "abs_path": abs_path, "headers": headers}),
                    };
                    v["id"] = json!(o.id);
                    v["url"] = json!(url);
                    v["resolved_with"] = json!(o.resolved);
                    v
                })
                .collect();
            return Resp::json(&json!(list));
        }
        for (prefix, with) in [("/api/file/", true), ("/cdn/", false)] {
            if let Some(id) = rest.strip_prefix(prefix) {
                if with && !token {
                    complain("a file of the API is fetched without the token");
                }
                if !with && any_token {
                    complain("the token is sent to another server");
                }
                if extra {
                    complain("headers for scraping are sent for another file");
                }
                return match self.offers.iter().find(|o| o.id == id && o.with_token == with) {
                    Some(o) => o.resp.clone(),
                    None => Resp::new(404, "no"),
                };
            }
        }
        if any_token {
            complain("the token is sent to a scraped site");
        }
        if !self.scraping.enabled {
            complain("a file is scraped although that is disabled");
        }
        if self.scraping.headers.iter().any(|(k, v)| h.header(k) != Some(v)) {
            complain("a site is scraped without the headers given");
        }
        self.web.get(&h.target).cloned().unwrap_or_else(|| Resp::new(404, "no"))
    }
}

fn body_of(r: &Resp) -> Vec<u8> {
    match &r.body {
        Body::Bytes(b) => b.clone(),
        _ => vec![],
    }
}

fn pack(rng: &mut Rng, files: &[BFile]) -> Vec<u8> {
    let mut buf = vec![];
    let mut w = SourceBundleWriter::start(std::io::Cursor::new(&mut buf)).unwrap();
    if rng.chance(1, 2) {
        w.set_attribute("org", "acme".to_string());
    }
    for (i, f) in files.iter().enumerate() {
        let mut info = SourceFileInfo::new();
        info.set_url(f.url.clone());
        info.set_ty(match f.ty {
            Ty::Min => SourceFileType::MinifiedSource,
            Ty::Map => SourceFileType::SourceMap,
            Ty::Src => SourceFileType::Source,
        });
        if let Some(id) = f.id {
            info.add_header("debug-id".into(), id.to_string());
        }
        if let Some(m) = &f.map {
            info.add_header("sourcemap".into(), m.clone());
        }
        w.add_file(format!("_/{i}/{}", ["a.js", "b.map", "ż.js"][i % 3]), &f.body[..], info).unwrap();
    }
    w.finish().unwrap();
    buf
}

fn b64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    s
}

/// What a minified file says about its source map.
#[derive(Clone)]
struct MapRef {
    text: Option<String>,
    bad_data: bool,
}

struct Gen<'a> {
    rng: &'a mut Rng,
    host: String,
    name: String,
    maps: HashMap<Vec<u8>, SMap>,
    ids: Vec<DebugId>,
    overlap: bool,
}

impl Gen<'_> {
    fn map_body(&mut self, id: Option<DebugId>) -> Vec<u8> {
        let m = smap(self.rng, 8);
        let id = id.filter(|_| self.rng.chance(1, 3));
        let b = match self.rng.below(14) {
            0 => b"{}".to_vec(),
            1 => b"<html>not a map</html>".to_vec(),
            2 => {
                let mut t = m.json(id);
                let mut half = t.len() / 2;
                while !t.is_char_boundary(half) {
                    half -= 1;
                }
                t.truncate(half);
                t.into_bytes()
            }
            _ => {
                let t = m.json(id).into_bytes();
                self.maps.insert(t.clone(), m);
                t
            }
        };
        b
    }

    fn map_ref(&mut self, in_bundle: bool) -> MapRef {
        let r = &mut *self.rng;
        let text = match r.below(18) {
            0 | 1 => None,
            14 => Some("./x/./up/../app.map".to_string()),
            15 => Some("x/./../../../y.map".to_string()),
            16 => Some("../.././../far/./z.map".to_string()),
            2 => Some("/maps/root.map".to_string()),
            3 => Some("~/maps/tilde.map".into()),
            4 => Some(format!("http://maps.{}/{}/web/x.js.map", self.host, self.name)),
            5 => Some("../up/app.map?query=1#frag".into()),
            6 => Some("app:///maps/app.js.map".into()),
            7 | 8 => {
                let m = smap(r, 8);
                let t = m.json(None);
                self.maps.insert(t.clone().into_bytes(), m);
                Some(if self.rng.chance(2, 3) {
                    format!("data:application/json;charset=utf-8;base64,{}", b64(t.as_bytes()))
                } else {
                    // as the parser of the comment cuts at `?` and `#`, both are escaped
                    let esc: String = t
                        .bytes()
                        .map(|b| if b.is_ascii_alphanumeric() || b"{}[]\":,;/._-".contains(&b) { (b as char).to_string() } else { format!("%{b:02x}") })
                        .collect();
                    format!("data:application/json,{esc}")
                })
            }
            9 if !in_bundle => {
                return MapRef { text: Some((*r.pick(&["data:application/json;base64,@@@", "data:nocomma", "data:application/json;base64,/w=="])).into()), bad_data: true };
            }
            10 => Some("data:application/json;base64,e30=".into()),
            _ => Some("app.min.js.map".into()),
        };
        MapRef { text, bad_data: false }
    }

    /// Minified contents, and a reference to the source map kept outside of them.
    fn min_body(&mut self, r: &MapRef, id: Option<DebugId>) -> (Vec<u8>, Option<String>) {
        let (mut s, _) = text(self.rng);
        if !s.is_empty() && !s.ends_with('\n') {
            s.push('\n');
        }
        let mut header = None;
        if let Some(t) = &r.text {
            match self.rng.below(4) {
                0 => {
                    // a header wins over the comment
                    header = Some(t.clone());
                    if self.rng.chance(1, 2) {
                        s.push_str("//# sourceMappingURL=not-this.map\n");
                    }
                }
                1 => s.push_str(&format!("//@ sourceMappingURL={t}\n")),
                _ => s.push_str(&format!("//# sourceMappingURL={t}\n")),
            }
        }
        let embed = match self.rng.below(6) {
            0 if self.overlap => Some(*self.rng.pick(&self.ids)),
            0 => "00c0ffee-0000-4000-8000-000000000001".parse().ok(),
            1 => id,
            _ => None,
        };
        if let Some(id) = embed {
            s.push_str(&format!("//# debugId={id}\n"));
        }
        (s.into_bytes(), header)
    }
}

fn hosts() -> [&'static str; 4] {
    ["cdn.example.test", "maps.cdn.example.test", "other.test", "static.example.test"]
}

/// How worlds are made.
#[derive(Clone, Copy)]
struct Plan {
    /// files are found in more than one place
    overlap: bool,
    /// all places work
    easy: bool,
}

fn build(rng: &mut Rng, name: &str, token: &str, port: u16, plan: Plan, like: Option<&World>) -> World {
    let host = format!("{}:{port}", rng.pick(&["cdn.example.test", "static.example.test"]));
    let release = (!rng.chance(1, 5)).then(|| format!("app@{}", rng.below(3)));
    let ids: Vec<DebugId> = match like {
        Some(w) => w.ids.values().cloned().collect(),
        None => (0..4).map(|_| format!("{}-{}-4000-8000-{}", rng.hex(8), rng.hex(4), rng.hex(12)).parse().unwrap()).collect(),
    };
    let mut g = Gen { rng, host: host.clone(), name: name.into(), maps: HashMap::new(), ids: ids.clone(), overlap: plan.overlap };
    let paths: Vec<String> = match like {
        Some(w) => w.paths.clone(),
        None => {
            let b = format!("http://{host}/{name}/web");
            let mut all = vec![
                format!("{b}/assets/app.min.js"), format!("{b}/assets/app.min.js?v=1"), format!("{b}/a/b/vendor.js#frag"), format!("{b}/x.js?q=2#f"),
                format!("app:///{name}/main.jsbundle"), format!("/srv/{name}/index.js"), format!("~/{name}/tilde.mjs"), format!("file:///{name}/local.js"),
                format!("{b}/dir/"), format!("ftp://{host}/{name}/f.js"), "<anonymous>".into(), format!("webpack:///{name}/w.js"), "native".into(),
                format!("http://other.test:{port}/{name}/web/o.js"), format!("{b}/ż ü/uni.js"), format!("{b}/%7Eu/./k/../esc.js"),
                format!("http://{host}"), format!("http://{host}/{name}/web/da39a3ee5e6b4b0d3255bfef95601890afd80709/v/w.js"), format!("{b}/z.js.map.d.min.ts.js"),
                format!("app:///{name}/a/./b/../c/deep.js"), format!("~/{name}/http://odd/t.js"), format!("{b}/y.d.tsx.map"),
            ];
            g.rng.shuffle(&mut all);
            all.truncate(1 + g.rng.below(5));
            all
        }
    };
    let mut of = BTreeMap::new();
    for (i, p) in paths.iter().enumerate().filter(|(i, _)| plan.overlap || *i < ids.len()) {
        of.insert(p.clone(), ids[i % ids.len()]);
    }
    // logical files: (key url, type, debug id)
    let nb = g.rng.below(4);
    let mut bundles: Vec<Vec<BFile>> = vec![vec![]; nb];
    let mut arts: Vec<(String, BTreeMap<String, String>, Vec<u8>)> = vec![];
    let mut web: HashMap<String, Resp> = HashMap::new();
    let mut todo: Vec<(String, Ty, Option<DebugId>)> = paths.iter().map(|p| (p.clone(), Ty::Min, of.get(p).copied())).collect();
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut names: BTreeSet<String> = BTreeSet::new();
    let web_target = |u: &str| -> Option<String> {
        let u = url::Url::parse(u).ok()?;
        if u.scheme() != "http" || u.port() != Some(port) || !u.path().starts_with(&format!("/{name}/")) {
            return None;
        }
        Some(match u.query() {
            Some(q) => format!("{}?{q}", u.path()),
            None => u.path().to_string(),
        })
    };
    while let Some((path, ty, id)) = todo.pop() {
        if !done.insert(format!("{ty:?}{path}")) {
            continue;
        }
        let id = id.filter(|_| ty != Ty::Src);
        if !plan.overlap {
            // nothing is found under two names either
            let c = candidates(&path);
            if c.iter().any(|c| names.contains(c)) {
                continue;
            }
            names.extend(c);
        }
        // the places that have it
        let mut places: Vec<usize> = (0..nb + 2).filter(|_| g.rng.chance(2, 5)).collect();
        if !plan.overlap {
            g.rng.shuffle(&mut places);
            places.truncate(1);
        }
        if plan.easy && places.is_empty() {
            places.push(g.rng.below(nb + 2));
        }
        for p in places {
            let in_bundle = p < nb;
            let mut header = None;
            let body = match ty {
                Ty::Min => {
                    let r = g.map_ref(in_bundle);
                    let (b, h) = if p == nb + 1 {
                        // no headers on the web
                        let (mut b, h) = g.min_body(&r, id);
                        if let Some(h) = h {
                            b.extend(format!("//# sourceMappingURL={h}\n").bytes());
                        }
                        (b, None)
                    } else {
                        g.min_body(&r, id)
                    };
                    let found = h.clone().or(discover_sourcemaps_location(std::str::from_utf8(&b).unwrap()).map(String::from));
                    if let Some(t) = found.filter(|t| !t.starts_with("data:")) {
                        todo.push((join(&path, &t), Ty::Map, id));
                    } else if id.is_some() && !r.bad_data {
                        todo.push((format!("~/{name}/only-by-id-{}.map", of.len()), Ty::Map, id));
                    }
                    header = h;
                    b
                }
                Ty::Map => {
                    let b = g.map_body(id);
                    let sources: Vec<String> = g.maps.get(&b).map(|m| m.files.iter().filter(|f| f.1.is_none()).filter_map(|f| f.0.clone()).collect()).unwrap_or_default();
                    for s in sources {
                        if g.rng.chance(1, 2) {
                            todo.push((join(&path, &s), Ty::Src, None));
                        }
                        if g.rng.chance(1, 4) {
                            // embedded maps are relative to the minified file
                            let m = g.rng.pick(&paths).clone();
                            todo.push((join(&m, &s), Ty::Src, None));
                        }
                    }
                    b
                }
                Ty::Src => {
                    let mut t = text(g.rng).0;
                    if g.rng.chance(1, 8) {
                        t.push_str("\n//# sourceMappingURL=ignored.map\n");
                    }
                    t.into_bytes()
                }
            };
            let cands = candidates(&path);
            let stored = g.rng.pick(&cands).clone();
            if in_bundle {
                let taken = |v: &[BFile], u: &str, i: Option<DebugId>| v.iter().any(|f| f.url == u || i.is_some() && f.id == i && f.ty == ty);
                let how = g.rng.below(3);
                let by_id = id.filter(|_| how != 1);
                let url = if how == 0 && id.is_some() { format!("~/{name}/elsewhere-{}.js", bundles[p].len()) } else { stored };
                // a debug id in the contents also indexes the file
                let inner = by_id;
                if !taken(&bundles[p], &url, inner) && (how != 1 || !plan.overlap || true) {
                    bundles[p].push(BFile { url, ty, id: by_id, map: header, body });
                }
            } else if p == nb {
                if arts.iter().any(|a| a.0 == stored) {
                    continue;
                }
                let mut headers = BTreeMap::new();
                if let Some(h) = header {
                    headers.insert((*g.rng.pick(&["Sourcemap", "sourcemap", "X-SourceMap", "SourceMap"])).to_string(), h);
                }
                if g.rng.chance(1, 3) {
                    headers.insert("Content-Type".into(), "text/plain".into());
                }
                let body = if !plan.easy && g.rng.chance(1, 10) { vec![] } else { body };
                arts.push((stored, headers, body));
            } else if let Some(t) = web_target(&path) {
                let r = if plan.easy { 9 } else { g.rng.below(14) };
                let resp = match r {
                    0 => Resp::new(404, "no"),
                    1 => Resp::new(403, "no"),
                    2 => Resp::new(500, "no"),
                    3 => Resp::ok(""),
                    4 => Resp::ok(vec![b'x', 0xff, 0xfe, b'\n']),
                    _ => Resp::ok(body),
                };
                web.entry(t).or_insert(resp);
            }
        }
    }
    let mut offers = vec![];
    let res = ["debug-id", "index", "release", "release-old", "unknown", "url"];
    let mut fid = g.rng.below(3);
    for files in bundles {
        fid += 1 + g.rng.below(3);
        let body = pack(g.rng, &files);
        let kind = if plan.easy { 9 } else { g.rng.below(14) };
        let resp = match kind {
            0 => Resp::new(404, "no"),
            1 => Resp::new(403, "no"),
            2 => Resp::new(500, "no"),
            3 => Resp::ok(body[..body.len() / 2].to_vec()),
            4 => Resp::ok("MODULE Linux x86_64 000000000000000000000000000000000 a.so\nFUNC 0 1 0 f\n"),
            5 => Resp::ok(gz(&body)),
            _ => Resp::ok(body.clone()),
        };
        let mut by_id: BTreeSet<DebugId> = files.iter().filter_map(|f| f.id).collect();
        if g.rng.chance(1, 6) {
            by_id.clear();
        }
        if g.rng.chance(1, 6) {
            by_id.extend(&ids);
        }
        let by_url = if g.rng.chance(1, 5) { vec![] } else { files.iter().map(|f| f.url.clone()).collect() };
        offers.push(Offer {
            id: format!("{fid}"),
            what: What::Bundle { files, usable: kind > 4 },
            body: vec![],
            resp,
            with_token: g.rng.chance(2, 3),
            resolved: *g.rng.pick(&res),
            by_id,
            by_url,
        });
    }
    for (abs_path, headers, body) in arts {
        fid += 1 + g.rng.below(3);
        let (body, resp) = match if plan.easy { 9 } else { g.rng.below(12) } {
            0 => (vec![], Resp::new(404, "no")),
            1 => (vec![0xff], Resp::ok(vec![b'a', 0xff, 0xfe])),
            2 => (vec![0xfe], Resp::new(403, "no")),
            3 => (body.clone(), Resp::ok(if body.is_empty() { vec![] } else { gz(&body) })),
            _ => (body.clone(), Resp::ok(body)),
        };
        let by_id = if g.rng.chance(1, 4) { ids.iter().cloned().filter(|_| g.rng.chance(1, 2)).collect() } else { BTreeSet::new() };
        offers.push(Offer {
            id: format!("{fid}"),
            by_url: vec![abs_path.clone()],
            what: What::File { abs_path, headers },
            body,
            resp,
            with_token: g.rng.chance(2, 3),
            resolved: *g.rng.pick(&["release-old", "index", "unknown"]),
            by_id,
        });
    }
    g.rng.shuffle(&mut offers);
    for o in &mut offers {
        if g.rng.chance(1, 3) {
            o.resp.head_delay = Duration::from_millis(g.rng.below(10) as u64);
        }
    }
    let mut headers = BTreeMap::new();
    if g.rng.chance(1, 2) {
        headers.insert("x-scrape".to_string(), format!("s{}", g.rng.below(9)));
    }
    let origins = match g.rng.below(8) {
        0 => vec![],
        1 => vec!["cdn.example.test".to_string()],
        2 => vec!["*.example.test".into()],
        3 => vec![format!("*:{port}")],
        4 => vec!["nothing.test".into(), "static.example.test".into()],
        _ => vec!["*".into()],
    };
    let maps = std::mem::take(&mut g.maps);
    let easy_web = plan.easy;
    let w = World {
        name: name.into(),
        port,
        token: token.into(),
        offers,
        web,
        dist: release.as_ref().filter(|_| g.rng.chance(1, 3)).map(|_| "d1".to_string()),
        release,
        api_ok: easy_web || !g.rng.chance(1, 12),
        scraping: ScrapingConfig {
            enabled: easy_web || !g.rng.chance(1, 6),
            verify_ssl: g.rng.chance(1, 2),
            allowed_origins: if easy_web { vec!["*".into()] } else { origins },
            headers,
        },
        maps: Mutex::new(maps),
        paths,
        ids: of,
        bad: Default::default(),
        api_hits: Default::default(),
    };
    w
}

// ------------------------------------------------------------------------------------- the model

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Key {
    ty: u8,
    path: Option<String>,
    id: Option<DebugId>,
}

impl Key {
    fn json(&self) -> Value {
        let mut v = Map::new();
        if let Some(p) = &self.path {
            v.insert("abs_path".into(), json!(p));
        }
        if let Some(i) = &self.id {
            v.insert("debug_id".into(), json!(i));
        }
        json!({ (["minified_source", "source_map", "source"][self.ty as usize]): v })
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bad {
    Missing,
    Disabled,
    Malformed,
}

#[derive(Clone)]
enum MapUrl {
    Data(Vec<u8>),
    Remote(String),
}

#[derive(Clone)]
struct Found {
    uri: Value,
    resolved: String,
    file: Result<(Vec<u8>, Option<MapUrl>, Option<DebugId>), Bad>,
}

fn parse_ref(base: &str, r: &str) -> Option<MapUrl> {
    if !r.starts_with("data:") {
        return Some(MapUrl::Remote(join(base, r)));
    }
    let (meta, body) = r.split_once(',')?;
    let raw: Vec<u8> = {
        let b = body.as_bytes();
        let mut v = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'%' && i + 2 < b.len() {
                v.push(u8::from_str_radix(&body[i + 1..i + 3], 16).ok()?);
                i += 3;
            } else {
                v.push(b[i]);
                i += 1;
            }
        }
        v
    };
    let data = if meta.ends_with(";base64") {
        let mut v = vec![];
        let (mut acc, mut bits) = (0u32, 0);
        for c in raw.into_iter().filter(|c| *c != b'=') {
            let x = match c {
                b'A'..=b'Z' => c - b'A',
                b'a'..=b'z' => c - b'a' + 26,
                b'0'..=b'9' => c - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                _ => return None,
            };
            acc = acc << 6 | x as u32;
            bits += 6;
            if bits >= 8 {
                bits -= 8;
                v.push((acc >> bits) as u8);
            }
        }
        v
    } else {
        raw
    };
    String::from_utf8(data).ok().map(|s| MapUrl::Data(s.into_bytes()))
}

struct Model<'a> {
    w: &'a World,
    release: Option<String>,
    dist: Option<String>,
    /// offers by the order of their addresses
    bundles: BTreeMap<String, usize>,
    arts: HashMap<String, usize>,
    seen: HashMap<(String, Key), Found>,
    sources: HashMap<Key, Found>,
    attempts: Vec<Value>,
    queries: BTreeSet<String>,
    n: &'a mut Notes,
}

impl Model<'_> {
    fn in_bundles(&mut self, k: &Key) -> Option<Found> {
        let known: Vec<(String, usize)> = self.bundles.iter().rev().map(|(u, i)| (u.clone(), *i)).collect();
        for (u, _) in &known {
            if let Some(f) = self.seen.get(&(u.clone(), k.clone())) {
                return Some(f.clone());
            }
        }
        let want = [Ty::Min, Ty::Map, Ty::Src][k.ty as usize];
        let mut hit: Option<(String, BFile, String)> = None;
        let usable: Vec<(String, &Offer, &Vec<BFile>)> = known
            .iter()
            .filter_map(|(u, i)| match &self.w.offers[*i].what {
                What::Bundle { files, usable: true } => Some((u.clone(), &self.w.offers[*i], files)),
                _ => None,
            })
            .collect();
        if let Some(id) = k.id {
            for (u, _, files) in &usable {
                if let Some(f) = files.iter().find(|f| f.ty == want && f.id == Some(id)) {
                    hit = Some((u.clone(), f.clone(), "debug-id".into()));
                    self.n.count("files found in a bundle by debug id");
                    break;
                }
            }
        }
        if let (None, Some(p)) = (&hit, &k.path) {
            'all: for (rank, c) in candidates(p).into_iter().enumerate() {
                for (u, o, files) in &usable {
                    // a file without a name has no URL in the bundle format
                    if let Some(f) = files.iter().find(|f| f.url == c && !c.is_empty()) {
                        hit = Some((u.clone(), f.clone(), o.resolved.into()));
                        self.n.count("files found in a bundle by path");
                        if rank > 0 {
                            self.n.count("files found under another form of their path");
                        }
                        break 'all;
                    }
                }
            }
        }
        let (u, f, resolved) = hit?;
        let text = std::str::from_utf8(&f.body).unwrap();
        let url = f.map.clone().or_else(|| if f.ty == Ty::Map { None } else { discover_sourcemaps_location(text).map(String::from) });
        let file = match (url, &k.path) {
            (None, _) => Ok((f.body.clone(), None, None)),
            (Some(_), None) => Err(Bad::Malformed),
            (Some(r), Some(p)) => match parse_ref(p, &r) {
                Some(m) => Ok((f.body.clone(), Some(m), None)),
                None => Err(Bad::Malformed),
            },
        };
        let found = Found { uri: json!({"bundled": [u, k.json()]}), resolved, file };
        self.seen.insert((u, k.clone()), found.clone());
        Some(found)
    }

    fn in_artifacts(&mut self, k: &Key) -> Option<Found> {
        let p = k.path.as_ref()?;
        let i = candidates(p).iter().find_map(|c| self.arts.get(c))?;
        let o = &self.w.offers[*i];
        let What::File { headers, .. } = &o.what else { unreachable!() };
        let headers: HashMap<String, &String> = headers.iter().map(|(a, b)| (a.to_lowercase(), b)).collect();
        self.n.count("individual files");
        let status = o.resp.status;
        let body = if status == 200 && o.body == [0xff] {
            Err(Bad::Malformed)
        } else if status == 404 || o.body.is_empty() {
            if headers.is_empty() {
                Err(Bad::Missing)
            } else {
                self.n.count("individual files that are empty");
                Ok(vec![])
            }
        } else if status != 200 {
            Err(Bad::Missing)
        } else {
            Ok(o.body.clone())
        };
        Some(Found {
            uri: json!({"individual_file": format!("sentry://project_debug_file/{}", o.id)}),
            resolved: o.resolved.into(),
            file: body.map(|b| {
                let t = std::str::from_utf8(&b).unwrap();
                let r = headers.get("sourcemap").or(headers.get("x-sourcemap")).map(|h| h.as_str()).or(discover_sourcemaps_location(t));
                let m = r.and_then(|r| parse_ref(p, r));
                let id = discover_debug_id(t);
                (b, m, id)
            }),
        })
    }

    fn query(&mut self, k: &Key) -> bool {
        if k.id.is_none() && (k.path.is_none() || self.release.is_none()) {
            return false;
        }
        if !self.w.api_ok {
            self.n.count("failing queries");
            return false;
        }
        let urls: Vec<String> = if self.release.is_some() { k.path.iter().map(|p| stem(p)).collect() } else { vec![] };
        let ids: Vec<DebugId> = k.id.into_iter().collect();
        let mut new = false;
        for i in self.w.answer(self.release.as_deref(), self.dist.as_deref(), &urls, &ids) {
            match &self.w.offers[i].what {
                What::Bundle { usable, .. } => {
                    let uri = format!("sentry://project_debug_file/{}", self.w.offers[i].id);
                    if let std::collections::btree_map::Entry::Vacant(e) = self.bundles.entry(uri) {
                        e.insert(i);
                        new = true;
                        self.n.count(if *usable { "bundles" } else { "unusable bundles" });
                    }
                }
                What::File { abs_path, .. } => {
                    self.arts.entry(abs_path.clone()).or_insert_with(|| {
                        new = true;
                        i
                    });
                }
            }
        }
        new
    }

    fn get(&mut self, k: &Key) -> Found {
        let mut f = self.in_bundles(k).or_else(|| self.in_artifacts(k));
        if f.is_none() && self.query(k) {
            f = self.in_bundles(k).or_else(|| self.in_artifacts(k));
        }
        if let Some(f) = f {
            if let Some(p) = &k.path {
                self.attempts.push(json!({"url": p, "status": "not_attempted"}));
            }
            return f;
        }
        self.scrape(k)
    }

    fn scrape(&mut self, k: &Key) -> Found {
        let Some(p) = &k.path else {
            return Found { uri: json!({"individual_file": "<invalid>"}), resolved: "unknown".into(), file: Err(Bad::Missing) };
        };
        let not = |why| Found { uri: json!({"scraped_file": p}), resolved: "unknown".into(), file: Err(why) };
        let Ok(u) = url::Url::parse(p) else { return not(Bad::Missing) };
        let s = &self.w.scraping;
        if !s.enabled {
            self.n.count("scraping disabled");
            self.attempts.push(json!({"url": p, "status": "failure", "reason": "disabled"}));
            return not(Bad::Disabled);
        }
        let host = u.host_str().unwrap_or("").to_string();
        let allowed = s.allowed_origins.iter().any(|o| {
            *o == "*" || *o == host || o.strip_prefix("*.").is_some_and(|d| host == d || host.ends_with(&format!(".{d}"))) || o.strip_prefix("*:").is_some_and(|q| Some(q.to_string()) == u.port().map(|p| p.to_string()))
        });
        if !matches!(u.scheme(), "http" | "https") || !allowed {
            self.n.count("sites that must not be scraped");
            self.attempts.push(json!({"url": p, "status": "failure", "reason": "invalid_host"}));
            return not(Bad::Missing);
        }
        let target = match u.query() {
            Some(q) => format!("{}?{q}", u.path()),
            None => u.path().to_string(),
        };
        let r = self.w.web.get(&target).cloned().unwrap_or_else(|| Resp::new(404, ""));
        let body = body_of(&r);
        let reason = match r.status {
            200 if body.is_empty() => Some("not_found"),
            200 if std::str::from_utf8(&body).is_err() => Some("other"),
            200 => None,
            403 => Some("permission_denied"),
            404 => Some("not_found"),
            _ => Some("download_error"),
        };
        let mut u2 = u.clone();
        u2.set_fragment(None);
        let uri = json!({"scraped_file": u2.as_str()});
        if !(u.scheme() == "http" && u.port() == Some(self.w.port) && hosts().contains(&host.as_str())) {
            // a site this machine does not have
            self.attempts.push(json!({"url": p, "status": "failure", "reason": "download_error"}));
            return Found { uri, resolved: "scraping".into(), file: Err(Bad::Missing) };
        }
        if let Some(reason) = reason {
            self.n.count("files that cannot be scraped");
            self.attempts.push(json!({"url": p, "status": "failure", "reason": reason}));
            return Found { uri, resolved: "scraping".into(), file: Err(if reason == "other" { Bad::Malformed } else { Bad::Missing }) };
        }
        self.n.count("files scraped");
        self.attempts.push(json!({"url": p, "status": "success"}));
        let t = std::str::from_utf8(&body).unwrap();
        let m = discover_sourcemaps_location(t).and_then(|r| parse_ref(p, r));
        let id = discover_debug_id(t);
        Found { uri, resolved: "scraping".into(), file: Ok((body, m, id)) }
    }
}

struct Module {
    min: Found,
    map: Option<Found>,
    base: String,
}

fn set_context(f: &mut Map<String, Value>, text: &[u8]) {
    let text = std::str::from_utf8(text).unwrap();
    let line = f["lineno"].as_u64().unwrap() as usize;
    let col = f.get("colno").and_then(|c| c.as_u64()).unwrap_or(0) as usize;
    if let Some((pre, l, post)) = get_context_lines(text, line, col, None) {
        for (k, v) in [("pre_context", pre), ("post_context", post)] {
            if v.is_empty() {
                f.remove(k);
            } else {
                f.insert(k.into(), json!(v));
            }
        }
        f.insert("context_line".into(), json!(l));
    }
}

fn expected(w: &World, req: &SymbolicateJsStacktraces, n: &mut Notes) -> Value {
    let mut m = Model {
        w,
        release: req.release.clone(),
        dist: req.dist.clone(),
        bundles: Default::default(),
        arts: Default::default(),
        seen: Default::default(),
        sources: Default::default(),
        attempts: vec![],
        queries: Default::default(),
        n,
    };
    let mut known: HashMap<String, Option<DebugId>> = HashMap::new();
    for x in &req.modules {
        known.insert(x.code_file.clone(), x.debug_id.parse().ok());
    }
    let mut modules: HashMap<String, Module> = HashMap::new();
    let (mut raws, mut outs) = (vec![], vec![]);
    let mut errors: BTreeSet<String> = BTreeSet::new();
    let maps = w.maps.lock().unwrap().clone();
    for st in &req.stacktraces {
        let (mut raw_frames, mut out_frames) = (vec![], vec![]);
        let mut callsite: Option<String> = None;
        for f in &st.frames {
            let Value::Object(mut raw) = serde_json::to_value(f).unwrap() else { unreachable!() };
            let path = f.abs_path.strip_prefix("async ").unwrap_or(&f.abs_path).to_string();
            raw.insert("abs_path".into(), json!(path));
            let site = callsite.take();
            let err = |mut e: Value| {
                e["abs_path"] = json!(path);
                e.to_string()
            };
            if f.lineno == 0 {
                m.n.count("frames without a line");
                errors.insert(err(json!({"type": "invalid_location", "line": 0, "col": f.colno})));
                raw_frames.push(raw.clone());
                out_frames.push(raw);
                continue;
            }
            if !modules.contains_key(&path) {
                let id = known.get(&path).copied().flatten();
                let min = m.get(&Key { ty: 0, path: Some(path.clone()), id });
                let (map_url, own_id) = match &min.file {
                    Ok((_, u, i)) => (u.clone(), *i),
                    Err(_) => (None, None),
                };
                let id = id.or(own_id);
                let mut base = path.clone();
                let map = match (map_url, id) {
                    (None, None) => None,
                    (Some(MapUrl::Data(d)), _) => {
                        m.n.count("embedded source maps");
                        Some(Found { uri: json!("embedded"), resolved: min.resolved.clone(), file: Ok((d, None, None)) })
                    }
                    (Some(MapUrl::Remote(u)), _) => {
                        base = u.clone();
                        Some(m.get(&Key { ty: 1, path: Some(u), id }))
                    }
                    (None, Some(_)) => Some(m.get(&Key { ty: 1, path: None, id })),
                };
                modules.insert(path.clone(), Module { min, map, base });
            }
            let module = &modules[&path];
            let mut out = raw.clone();
            let (body, map_url) = match &module.min.file {
                Ok((b, u, _)) => (b, u),
                Err(e) => {
                    m.n.count("frames without minified source");
                    errors.insert(err(json!({"type": if *e == Bad::Disabled { "scraping_disabled" } else { "missing_source" }})));
                    raw_frames.push(raw.clone());
                    out_frames.push(raw);
                    continue;
                }
            };
            if req.apply_source_context {
                set_context(&mut raw, body);
            }
            let label = match map_url {
                Some(MapUrl::Remote(u)) => u.clone(),
                _ => path.clone(),
            };
            let Some(map) = &module.map else {
                m.n.count("frames that need no source map");
                raw_frames.push(raw.clone());
                out_frames.push(raw);
                continue;
            };
            let content = match &map.file {
                Ok((b, _, _)) => maps.get(b).ok_or(Bad::Malformed),
                Err(e) => Err(*e),
            };
            let sm = match content {
                Ok(sm) => sm,
                Err(e) => {
                    if e == Bad::Malformed {
                        m.n.count("malformed source maps");
                        raw["data"]["resolved_with"] = json!(map.resolved);
                        raw["data"]["sourcemap_origin"] = map.uri.clone();
                        errors.insert(err(json!({"type": "malformed_sourcemap", "url": label})));
                    } else {
                        m.n.count("frames without a source map");
                        errors.insert(err(json!({"type": if e == Bad::Disabled { "scraping_disabled" } else { "missing_sourcemap" }})));
                    }
                    raw_frames.push(raw.clone());
                    out_frames.push(raw);
                    continue;
                }
            };
            out["data"]["sourcemap"] = json!(label);
            out["data"]["sourcemap_origin"] = map.uri.clone();
            out["data"]["resolved_with"] = json!(map.resolved);
            let col = f.colno.unwrap_or(0);
            let at = (f.lineno - 1, col.saturating_sub(1));
            let Some(tok) = sm.tokens.iter().filter(|t| t.at.0 == at.0 && t.at.1 <= at.1).next_back() else {
                m.n.count("positions the source map does not have");
                errors.insert(err(json!({"type": "invalid_location", "line": f.lineno, "col": col})));
                raw_frames.push(raw.clone());
                out_frames.push(raw);
                continue;
            };
            m.n.count("frames mapped");
            out["data"]["symbolicated"] = json!(true);
            let name = tok.name.map(|i| sm.names[i].clone());
            // functions
            let scope = sm.scopes.iter().filter(|s| s.0 <= tok_at(tok, at)).next_back();
            let function = match scope.map(|s| s.1.as_deref()) {
                Some(None) => "<anonymous>".to_string(),
                None | Some(Some("?")) => f.function.clone().unwrap_or("<unknown>".into()),
                Some(Some(s)) if s.starts_with("$async$") => name.clone().unwrap_or(s.into()),
                Some(Some(s)) => s.into(),
            };
            let useless = ["<anonymous>", "__webpack_require__", "__webpack_modules__"].contains(&function.as_str());
            let function = if !useless {
                function
            } else if let Some(s) = site.filter(|s| !s.is_empty()) {
                m.n.count("functions named by their caller");
                s
            } else {
                f.function.clone().unwrap_or(function)
            };
            out.insert("function".into(), json!(fold(&function)));
            callsite = name;
            // files
            let file = tok.file.map(|i| &sm.files[i]);
            if let Some(name) = file.and_then(|f| f.0.as_ref()) {
                let abs = join(&module.base, name);
                let mut shown = name.clone();
                if name.starts_with("webpack:") {
                    shown = webpack_name(name);
                    out.insert("module".into(), json!(module_name(&shown)));
                }
                if !out.contains_key("module") && ["http:", "https:", "webpack:", "app:"].iter().any(|s| abs.starts_with(s)) {
                    out.insert("module".into(), json!(module_name(&abs)));
                }
                out.insert("abs_path".into(), json!(abs));
                out.insert("filename".into(), json!(shown));
            }
            out.insert("lineno".into(), json!(tok.line + 1));
            out.insert("colno".into(), json!(tok.column + 1));
            if req.apply_source_context {
                match file {
                    None => {}
                    Some((_, Some(src))) => {
                        m.n.count("frames with embedded source");
                        set_context(&mut out, src.as_bytes());
                    }
                    Some((name, None)) => {
                        let key = name.as_ref().map(|n| Key { ty: 2, path: Some(join(&module.base, n)), id: None });
                        let found = key.as_ref().map(|k| match m.sources.get(k) {
                            Some(f) => f.clone(),
                            None => {
                                let f = m.get(k);
                                m.sources.insert(k.clone(), f.clone());
                                f
                            }
                        });
                        match found {
                            Some(Found { file: Ok((b, ..)), .. }) => {
                                m.n.count("frames with source from elsewhere");
                                set_context(&mut out, &b);
                            }
                            _ => {
                                m.n.count("frames without source");
                                let src = key.and_then(|k| k.path).unwrap_or_default();
                                errors.insert(err(json!({"type": "missing_source_content", "source": src, "sourcemap": label})));
                            }
                        }
                    }
                }
            }
            raw_frames.push(raw);
            out_frames.push(out);
        }
        raws.push(json!({ "frames": raw_frames }));
        outs.push(json!({ "frames": out_frames }));
    }
    let _ = &m.queries;
    normal(json!({"stacktraces": outs, "raw_stacktraces": raws, "errors": errors.iter().map(|e| serde_json::from_str::<Value>(e).unwrap()).collect::<Vec<_>>(), "scraping_attempts": m.attempts}))
}

fn tok_at(_t: &Tok, at: (u32, u32)) -> (u32, u32) {
    at
}

/// Brings an answer into a form that can be compared.
fn normal(mut v: Value) -> Value {
    for k in ["stacktraces", "raw_stacktraces"] {
        for st in v[k].as_array_mut().into_iter().flatten() {
            for f in st["frames"].as_array_mut().into_iter().flatten() {
                if let Some(u) = f.pointer_mut("/data/sourcemap_origin/scraped_file") {
                    *u = json!(u.as_str().unwrap_or("").split('#').next());
                }
            }
        }
    }
    let mut errors: Vec<String> = v["errors"].as_array().into_iter().flatten().map(|e| e.to_string()).collect();
    errors.sort();
    v["errors"] = json!(errors);
    if v["scraping_attempts"].is_null() {
        v["scraping_attempts"] = json!([]);
    }
    for a in v["scraping_attempts"].as_array_mut().into_iter().flatten() {
        if let Some(o) = a.as_object_mut() {
            o.remove("details");
        }
    }
    v
}

fn difference(want: &Value, got: &Value) -> (String, Value, Value) {
    let empty = vec![];
    for part in ["stacktraces", "raw_stacktraces"] {
        let (a, b) = (want[part].as_array().unwrap_or(&empty), got[part].as_array().unwrap_or(&empty));
        if a.len() != b.len() {
            return (format!("not every one of the {part} is answered"), json!(a.len()), json!(b.len()));
        }
        for (x, y) in a.iter().zip(b) {
            let (x, y) = (x["frames"].as_array().unwrap_or(&empty), y["frames"].as_array().unwrap_or(&empty));
            if x.len() != y.len() {
                return (format!("one of the {part} does not have the frames it must have"), json!(x), json!(y));
            }
            for (f, g) in x.iter().zip(y) {
                if f != g {
                    let what = ["data", "function", "filename", "module", "abs_path", "lineno", "colno", "context_line", "pre_context", "post_context", "platform"]
                        .into_iter()
                        .find(|k| f.get(k) != g.get(k))
                        .unwrap_or("rest");
                    return (format!("the {what} of a frame of the {part} is not what it must be"), f.clone(), g.clone());
                }
            }
        }
    }
    for (k, what) in [("errors", "the problems are not reported as what they are"), ("scraping_attempts", "the attempts to scrape are not reported as what they were")] {
        if want[k] != got[k] {
            return (what.into(), want[k].clone(), got[k].clone());
        }
    }
    let mut extra = got.clone();
    for k in ["stacktraces", "raw_stacktraces", "errors", "scraping_attempts"] {
        if let Some(o) = extra.as_object_mut() {
            o.remove(k);
        }
    }
    if extra == json!({}) {
        return ("".into(), Value::Null, Value::Null);
    }
    ("the answer is not what it must be".into(), want.clone(), got.clone())
}

// ------------------------------------------------------------------------------------- requests

fn request(rng: &mut Rng, w: &World, src: &Arc<SentrySourceConfig>, scope_: &str) -> SymbolicateJsStacktraces {
    let mut modules = vec![];
    for (p, id) in &w.ids {
        if rng.chance(1, 2) {
            let debug_id = match rng.below(12) {
                0 => "not an id".to_string(),
                1 => "11111111-2222-4333-8444-555555555555".into(),
                _ => id.to_string(),
            };
            modules.push(JsModule { r#type: JsModuleType::Sourcemap, code_file: p.clone(), debug_id });
        }
    }
    rng.shuffle(&mut modules);
    let frame = |rng: &mut Rng| {
        let mut abs = rng.pick(&w.paths).clone();
        if rng.chance(1, 10) {
            abs = format!("async {abs}");
        }
        JsFrame {
            platform: rng.chance(2, 3).then(|| serde_json::from_value(json!(rng.pick(&["javascript", "node"]))).unwrap()),
            function: rng.chance(2, 3).then(|| rng.pick(&["t", "e.exports", "minified", "<anonymous>", "a.a.a.b", ""]).to_string()),
            filename: rng.chance(1, 3).then(|| "app.min.js".to_string()),
            module: rng.chance(1, 6).then(|| "given/module".to_string()),
            abs_path: abs,
            lineno: match rng.below(10) {
                0 => 0,
                1 => *rng.pick(&[50, u32::MAX]),
                _ => 1 + rng.below(8) as u32,
            },
            colno: match rng.below(8) {
                0 => None,
                1 => Some(0),
                2 => Some(*rng.pick(&[1, u32::MAX])),
                _ => Some(1 + rng.below(130) as u32),
            },
            pre_context: if rng.chance(1, 10) { vec!["given".into()] } else { vec![] },
            context_line: rng.chance(1, 10).then(|| "given line".into()),
            post_context: if rng.chance(1, 10) { vec!["given after".into()] } else { vec![] },
            token_name: None,
            data: Default::default(),
        }
    };
    SymbolicateJsStacktraces {
        platform: serde_json::from_value(json!("javascript")).ok(),
        scope: scope(scope_),
        source: src.clone(),
        release: if rng.chance(1, 10) { Some("other@1".into()) } else { w.release.clone() },
        dist: if rng.chance(1, 10) { None } else { w.dist.clone() },
        stacktraces: (0..1 + rng.below(3)).map(|_| JsStacktrace { frames: (0..rng.below(9)).map(|_| frame(rng)).collect() }).collect(),
        modules,
        scraping: w.scraping.clone(),
        apply_source_context: rng.chance(4, 5),
    }
}

fn sentry_source(base: &str, w: &World) -> Arc<SentrySourceConfig> {
    Arc::new(serde_json::from_value(json!({"id": "sentry:project", "url": format!("{base}/{}/api/", w.name), "token": w.token})).unwrap())
}

type Worlds = Arc<Mutex<HashMap<String, Arc<World>>>>;

fn server(worlds: &Worlds) -> Mock {
    let mock = Mock::start(|_| Resp::new(404, "nothing"));
    for h in hosts() {
        reqwest::monitor::set_name(h, vec!["127.0.0.1".parse().unwrap()]);
    }
    let base = mock.url("");
    let w2 = worlds.clone();
    mock.set(move |h| {
        let name = h.target.trim_start_matches('/').split(['/', '?']).next().unwrap_or("").to_string();
        let w = w2.lock().unwrap().get(&name).cloned();
        match w {
            Some(w) => w.handle(h, &base),
            None => Resp::new(404, "nothing here"),
        }
    });
    mock
}

struct Job {
    want: Value,
    brief: Value,
    task: tokio::task::JoinHandle<Value>,
}

fn send(svc: &SourceMapService, req: SymbolicateJsStacktraces, want: Value, world: &World, pause: u64) -> Job {
    let offers: Vec<Value> = world
        .offers
        .iter()
        .map(|o| match &o.what {
            What::Bundle { files, usable } => json!({"bundle": o.id, "usable": usable, "files": files.iter().map(|f| json!([f.url, format!("{:?}", f.ty), f.id, f.map.as_ref().map(|m| m.chars().take(60).collect::<String>())])).collect::<Vec<_>>()}),
            What::File { abs_path, headers } => json!({"file": o.id, "abs_path": abs_path, "headers": headers, "status": o.resp.status, "body": String::from_utf8_lossy(&o.body[..o.body.len().min(300)])}),
        })
        .collect();
    let brief = json!({"frames": req.stacktraces.iter().map(|s| s.frames.iter().map(|f| json!([f.abs_path, f.lineno, f.colno, f.function])).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "modules": req.modules, "release": req.release, "dist": req.dist, "scope": req.scope.to_string(), "offers": offers, "web": world.web.iter().map(|(k, r)| json!([k, r.status])).collect::<Vec<_>>()});
    let svc = svc.clone();
    let task = tokio::spawn(async move {
        if pause > 0 {
            tokio::time::sleep(Duration::from_millis(pause)).await;
        }
        serde_json::to_value(svc.symbolicate_js(req).await).unwrap()
    });
    Job { want, brief, task }
}

async fn judge(n: &mut Notes, j: Job, label: &str) {
    match j.task.await {
        Ok(got) => {
            let got = normal(got);
            let (what, w, g) = difference(&j.want, &got);
            if !what.is_empty() {
                n.bad.push((what, json!({"want": w, "got": g, "situation": label, "case": j.brief})));
            }
        }
        Err(e) => n.bad.push(("the code under test crashed".into(), json!({"panic": e.to_string(), "situation": label, "case": j.brief}))),
    }
}

// ------------------------------------------------------------------------------------- cases

struct Case {
    rng: Rng,
    name: String,
    dir: PathBuf,
    base: String,
    port: u16,
    worlds: Worlds,
    handle: tokio::runtime::Handle,
}

/// Every file is in one place; several requests at once, and the service is restarted.
async fn unique(mut c: Case, easy: bool) -> Notes {
    let mut n = Notes::default();
    let w = Arc::new(build(&mut c.rng, &c.name, "secret", c.port, Plan { overlap: false, easy }, None));
    c.worlds.lock().unwrap().insert(c.name.clone(), w.clone());
    let src = sentry_source(&c.base, &w);
    let cfg = dl_config(json!({"cache_dir": c.dir.join("cache")}));
    let mut svc = services(&cfg, &c.handle);
    let mut js = SourceMapService::new(&svc);
    for round in 0..3 {
        if round > 0 && c.rng.chance(1, 2) {
            drop(js);
            svc = services(&cfg, &c.handle);
            js = SourceMapService::new(&svc);
            n.count("answers after a restart");
        }
        let mut jobs = vec![];
        for _ in 0..1 + c.rng.below(4) {
            let req = request(&mut c.rng, &w, &src, "1");
            n.evals += 1;
            let want = expected(&w, &req, &mut n);
            n.seen.insert(format!("{}", want));
            jobs.push(send(&js, req, want, &w, c.rng.below(4) as u64));
        }
        for j in jobs {
            judge(&mut n, j, if round == 0 { "first requests" } else { "later requests" }).await;
        }
        if !n.bad.is_empty() {
            break;
        }
    }
    n.bad.append(&mut w.bad.lock().unwrap());
    drop(svc);
    c.worlds.lock().unwrap().remove(&c.name);
    let _ = std::fs::remove_dir_all(&c.dir);
    n
}

/// Files are in several places; every request has a service of its own.
async fn overlapping(mut c: Case) -> Notes {
    let mut n = Notes::default();
    let w = Arc::new(build(&mut c.rng, &c.name, "secret", c.port, Plan { overlap: true, easy: false }, None));
    c.worlds.lock().unwrap().insert(c.name.clone(), w.clone());
    let src = sentry_source(&c.base, &w);
    let mut jobs = vec![];
    let mut keep = vec![];
    for i in 0..2 + c.rng.below(3) {
        let cfg = dl_config(json!({"cache_dir": c.dir.join(format!("cache{i}"))}));
        let svc = services(&cfg, &c.handle);
        let js = SourceMapService::new(&svc);
        let req = request(&mut c.rng, &w, &src, "1");
        n.evals += 1;
        let want = expected(&w, &req, &mut n);
        n.seen.insert(format!("{}", want));
        jobs.push(send(&js, req, want, &w, 0));
        keep.push((svc, js));
    }
    for j in jobs {
        judge(&mut n, j, "a service of its own").await;
    }
    drop(keep);
    n.bad.append(&mut w.bad.lock().unwrap());
    c.worlds.lock().unwrap().remove(&c.name);
    let _ = std::fs::remove_dir_all(&c.dir);
    n
}

/// Two customers whose files have the same names and numbers use one service.
async fn scopes(mut c: Case) -> Notes {
    let mut n = Notes::default();
    let (na, nb) = (format!("{}a", c.name), format!("{}b", c.name));
    let mut r1 = Rng::new(c.rng.next());
    let a = Arc::new(build(&mut r1, &na, "alpha", c.port, Plan { overlap: false, easy: false }, None));
    // the other one has the same paths, identifiers and release
    let mut b = build(&mut c.rng, &nb, "beta", c.port, Plan { overlap: false, easy: false }, Some(&a));
    b.release = a.release.clone();
    b.dist = a.dist.clone();
    let bundles: Vec<String> = a.offers.iter().filter(|o| matches!(o.what, What::Bundle { .. })).map(|o| o.id.clone()).collect();
    let files: Vec<String> = a.offers.iter().filter(|o| matches!(o.what, What::File { .. })).map(|o| o.id.clone()).collect();
    let (mut bi, mut fi) = (bundles.into_iter(), files.into_iter());
    let mut fresh = 1000;
    for o in &mut b.offers {
        let id = match o.what {
            What::Bundle { .. } => bi.next(),
            What::File { .. } => fi.next(),
        };
        o.id = id.unwrap_or_else(|| {
            fresh += 1;
            fresh.to_string()
        });
    }
    // they scrape the same sites
    b.scraping = a.scraping.clone();
    b.web = a.web.clone();
    b.maps.get_mut().unwrap().extend(a.maps.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())));
    // sometimes the second customer has just the same files, and is denied some of them
    if c.rng.chance(1, 3) {
        b.offers = a.offers.clone();
        b.ids = a.ids.clone();
        b.maps = Mutex::new(a.maps.lock().unwrap().clone());
        for o in &mut b.offers {
            if c.rng.chance(1, 2) {
                o.resp = Resp::new(*c.rng.pick(&[403, 404]), "no");
                match &mut o.what {
                    What::Bundle { usable, .. } => *usable = false,
                    What::File { .. } => o.body = vec![0xfe],
                }
                if o.resp.status == 404 {
                    o.body = vec![];
                }
                n.count("files denied to one scope");
            }
        }
    }
    let b = Arc::new(b);
    let pair = [a, b];
    for w in &pair {
        c.worlds.lock().unwrap().insert(w.name.clone(), w.clone());
    }
    let src: Vec<_> = pair.iter().map(|w| sentry_source(&c.base, w)).collect();
    let cfg = dl_config(json!({"cache_dir": c.dir.join("cache")}));
    let svc = services(&cfg, &c.handle);
    let js = SourceMapService::new(&svc);
    for _ in 0..3 {
        let mut jobs = vec![];
        for _ in 0..2 + c.rng.below(3) {
            let s = c.rng.below(2);
            let mut req = request(&mut c.rng, &pair[s], &src[s], ["1", "2"][s]);
            // what is not one's own is not scraped
            req.scraping = pair[s].scraping.clone();
            n.evals += 1;
            let want = expected(&pair[s], &req, &mut n);
            n.seen.insert(format!("{s} {want}"));
            n.count(["answers to the first scope", "answers to the second scope"][s]);
            jobs.push(send(&js, req, want, &pair[s], c.rng.below(6) as u64));
        }
        for j in jobs {
            judge(&mut n, j, "two scopes with the same names").await;
        }
        if !n.bad.is_empty() {
            break;
        }
    }
    for w in &pair {
        n.bad.append(&mut w.bad.lock().unwrap());
        c.worlds.lock().unwrap().remove(&w.name);
    }
    drop(svc);
    let _ = std::fs::remove_dir_all(&c.dir);
    n
}

fn drive(ctx: &Ctx, salt: u64, rule: &str, need: &[(&str, u64)], which: fn(usize, Case) -> futures::future::BoxFuture<'static, Notes>) -> Report {
    let mut rep = Report::new(rule);
    let rt = rt(8);
    let worlds: Worlds = Default::default();
    let mock = server(&worlds);
    let mut rng = Rng::new(ctx.seed ^ salt);
    let mut round = 0u64;
    while ctx.time_left() && rep.violations.len() < 25 {
        round += 1;
        let batch: Vec<_> = (0..8)
            .map(|b| {
                let c = Case {
                    rng: Rng::new(rng.next()),
                    name: format!("r{round}b{b}"),
                    dir: scratch(&ctx.work, "js"),
                    base: mock.url(""),
                    port: mock.port(),
                    worlds: worlds.clone(),
                    handle: rt.handle().clone(),
                };
                rt.spawn(which(b, c))
            })
            .collect();
        for t in batch {
            match rt.block_on(t) {
                Ok(n) => n.into_report(&mut rep),
                Err(e) => rep.violate("the code under test crashed", json!({ "panic": e.to_string() })),
            }
        }
        mock.take();
    }
    for (k, c) in need {
        rep.require(k, *c);
    }
    rep
}

pub fn c51(ctx: &Ctx) -> Report {
    // verbose logging must not change the answers either
    crate::logging::install("symbolicator_js");
    let mut rep = drive(
        ctx,
        0x51,
        "every answer equals the one composed from the served minified files, source maps and sources by the documented rules",
        &[
            ("frames mapped", 50),
            ("frames without a line", 10),
            ("frames without minified source", 5),
            ("frames that need no source map", 10),
            ("malformed source maps", 10),
            ("positions the source map does not have", 10),
            ("functions named by their caller", 10),
            ("embedded source maps", 10),
            ("frames with embedded source", 10),
            ("frames with source from elsewhere", 10),
            ("frames without source", 10),
            ("answers after a restart", 5),
        ],
        |b, c| Box::pin(unique(c, b % 4 != 0)),
    );
    *rep.counters.entry("log records formatted".into()).or_default() += crate::logging::FORMATTED.load(std::sync::atomic::Ordering::Relaxed);
    rep.require("log records formatted", 1000);
    rep
}

pub fn c52(ctx: &Ctx) -> Report {
    drive(
        ctx,
        0x52,
        "every file comes from the place that is first in the documented order; nothing else is fetched or sent",
        &[
            ("files found in a bundle by debug id", 20),
            ("files found in a bundle by path", 20),
            ("files found under another form of their path", 10),
            ("individual files", 20),
            ("individual files that are empty", 1),
            ("files scraped", 10),
            ("files that cannot be scraped", 10),
            ("scraping disabled", 10),
            ("sites that must not be scraped", 10),
            ("failing queries", 5),
            ("unusable bundles", 10),
        ],
        |b, c| if b % 3 == 2 { Box::pin(unique(c, false)) } else { Box::pin(overlapping(c)) },
    )
}

pub fn c53(ctx: &Ctx) -> Report {
    drive(
        ctx,
        0x53,
        "each scope gets the answer composed of its own files, whatever another scope asked before or at the same time",
        &[("answers to the first scope", 20), ("answers to the second scope", 20), ("frames mapped", 20), ("files denied to one scope", 5)],
        |_, c| Box::pin(scopes(c)),
    )
}

#[allow(dead_code)]
fn unused() {
    let _ = discover_sourcemap_embedded_debug_id("");
}
