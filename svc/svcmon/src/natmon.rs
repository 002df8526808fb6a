//! Monitors of native symbolication: frames (C54), modules (C55).
use crate::common::{Ctx, Report, Rng};
use crate::dlmon::{dl_config, http_source};
use crate::kit::*;
use crate::mock::*;
use crate::objmon::{best, candidates, download_json, services, Known, Notes, Pred, Serve};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use symbolic::common::{CodeId, DebugId, Uuid};
use symbolicator_native::interface::*;
use symbolicator_native::SymbolicationActor;
use symbolicator_service::caching::CacheError;
use symbolicator_service::download::list_files_in_scope;
use symbolicator_service::objects::ObjectPurpose;
use symbolicator_service::services::SharedServices;
use symbolicator_service::types::{RawObjectInfo, Scope, ScrapingConfig};
use symbolicator_sources::*;

pub const PPDBS: [&[u8]; 3] = [
    include_bytes!("../data/integration.pdb"),
    include_bytes!("../data/portable-embedded.pdb"),
    include_bytes!("../data/source-links.pdb"),
];

// ---------------------------------------------------------------------------------- debug files

#[derive(Clone, Debug)]
pub struct Inl {
    depth: usize,
    start: u64,
    size: u64,
    line: u32,
    file: usize,
    origin: usize,
}

#[derive(Clone, Debug)]
pub struct Func {
    start: u64,
    size: u64,
    name: String,
    lines: Vec<(u64, u64, u32, usize)>,
    inl: Vec<Inl>,
}

/// A debug file: functions with inlinees and lines, and public symbols behind them.
#[derive(Clone, Debug)]
pub struct Sym {
    arch: &'static str,
    pub files: Vec<String>,
    origins: Vec<String>,
    funcs: Vec<Func>,
    publics: Vec<(u64, String)>,
    pub cfi: usize,
    pub broken: bool,
    salt: u64,
}

/// A source location: name, entry address, file and line.
type Place = (String, u64, Option<String>, u32);

/// Alignment of instructions, distance to the previous one, register of the instruction pointer.
fn cpu(arch: &str) -> (u64, u64, Option<&'static str>) {
    match arch {
        "x86" => (1, 1, Some("eip")),
        "x86_64" => (1, 1, Some("rip")),
        "arm" => (2, 2, Some("pc")),
        "arm64" => (4, 4, Some("pc")),
        "ppc" => (4, 4, Some("srr0")),
        "ppc64" => (8, 8, Some("srr0")),
        "mips" => (4, 8, Some("pc")),
        _ => (1, 1, None),
    }
}

const ARCHS: [&str; 9] = ["x86_64", "x86", "arm64", "arm", "ppc", "ppc64", "mips", "x86_64", "arm64"];

pub fn gen_name(rng: &mut Rng) -> String {
    let n = rng.below(1000);
    match rng.below(12) {
        0 => "_start".into(),
        1 => "main".into(),
        2..=4 => format!("_Zalpha{n}"),
        5 => format!("_Rbeta{n}"),
        6 => format!("$sgamma{n}"),
        7 => format!("__hidden#{}_", rng.below(12)),
        8 => format!("zażółć{n}"),
        9 => format!("<name omitted {n}>"),
        _ => format!("plain_{n}"),
    }
}

impl Sym {
    pub fn gen(rng: &mut Rng) -> Sym {
        let files: Vec<String> = (0..1 + rng.below(4))
            .map(|i| match rng.below(7) {
                0 => format!("C:\\work\\src\\file{i}.cpp"),
                1 => format!("/home/ünï/file{i}.rs"),
                2 => format!("relative/file{i}.c"),
                3 => format!("bare{i}.c"),
                4 => format!("/src/__hidden#{}_/__hidden#{}_", rng.below(12), rng.below(12)),
                _ => format!("/src/file{i}.c"),
            })
            .collect();
        let origins: Vec<String> = (0..3).map(|_| gen_name(rng)).collect();
        let mut at = *rng.pick(&[0u64, 8, 0x1000, 0x40_0000]);
        let mut funcs = vec![];
        for _ in 0..1 + rng.below(5) {
            if rng.chance(1, 2) {
                at += 8 * (1 + rng.below(4) as u64);
            }
            let start = at;
            let n = 1 + rng.below(6);
            let mut lines = vec![];
            for _ in 0..n {
                let len = 8 * (1 + rng.below(3) as u64);
                if !rng.chance(1, 8) || n == 1 {
                    lines.push((at, len, 1 + rng.below(500) as u32, rng.below(files.len())));
                }
                at += len;
            }
            let mut f = Func { start, size: at - start, name: gen_name(rng), lines, inl: vec![] };
            if rng.chance(2, 3) {
                f.inline(rng, start, at, 0, origins.len(), files.len());
            }
            funcs.push(f);
        }
        let mut publics = vec![];
        if rng.chance(1, 2) {
            let mut p = at + 16;
            for _ in 0..1 + rng.below(3) {
                publics.push((p, gen_name(rng)));
                p += 8 * (1 + rng.below(8) as u64);
            }
        }
        if rng.chance(1, 10) {
            funcs.clear();
        }
        Sym { arch: rng.pick(&ARCHS), files, origins, funcs, publics, cfi: rng.below(3), broken: false, salt: rng.next() }
    }

    pub fn text(&self, id: DebugId) -> Vec<u8> {
        let mut s = format!("MODULE Linux {} {} mod{:x}\n", self.arch, id.breakpad(), self.salt);
        for (i, f) in self.files.iter().enumerate() {
            s += &format!("FILE {i} {f}\n");
        }
        for (i, o) in self.origins.iter().enumerate() {
            s += &format!("INLINE_ORIGIN {i} {o}\n");
        }
        for (k, f) in self.funcs.iter().enumerate() {
            s += &format!("FUNC {:x} {:x} 0 {}\n", f.start, f.size, f.name);
            for i in &f.inl {
                s += &format!("INLINE {} {} {} {} {:x} {:x}\n", i.depth, i.line, i.file, i.origin, i.start, i.size);
            }
            for (a, n, l, file) in &f.lines {
                s += &format!("{a:x} {n:x} {l} {file}\n");
            }
            if self.broken && k == 0 {
                s += "FUNC this is not a function\n";
            }
        }
        for (a, n) in &self.publics {
            s += &format!("PUBLIC {a:x} 0 {n}\n");
        }
        for i in 0..self.cfi {
            s += &format!("STACK CFI INIT {:x} 10 .cfa: $rsp 8 + .ra: .cfa -8 + ^\n", 0x1000 + i * 16);
        }
        s.into_bytes()
    }

    /// What the file says about an address, innermost first.
    pub fn locate(&self, addr: u64) -> Vec<Place> {
        if addr > u32::MAX as u64 {
            return vec![];
        }
        if let Some(f) = self.funcs.iter().find(|f| f.start <= addr && addr < f.start + f.size) {
            let mut chain: Vec<&Inl> = f.inl.iter().filter(|i| i.start <= addr && addr < i.start + i.size).collect();
            chain.sort_by_key(|i| i.depth);
            let leaf = f.lines.iter().find(|l| l.0 <= addr && addr < l.0 + l.1);
            let mut place = leaf.map(|l| (self.files[l.3].clone(), l.2));
            let mut out = vec![];
            for i in chain.iter().rev() {
                let (file, line) = place.map_or((None, 0), |(f, l)| (Some(f), l));
                out.push((self.origins[i.origin].clone(), i.start, file, line));
                place = Some((self.files[i.file].clone(), i.line));
            }
            let (file, line) = place.map_or((None, 0), |(f, l)| (Some(f), l));
            out.push((f.name.clone(), f.start, file, line));
            return out;
        }
        self.publics.iter().rfind(|p| p.0 <= addr).map(|(a, n)| (n.clone(), *a, None, 0)).into_iter().collect()
    }

    /// An address worth asking about.
    fn point(&self, rng: &mut Rng) -> u64 {
        let mut at = match rng.below(8) {
            0 if !self.publics.is_empty() => rng.pick(&self.publics).0 + rng.below(20) as u64,
            1 => rng.below(0x2000) as u64,
            _ if self.funcs.is_empty() => rng.below(0x2000) as u64,
            k => {
                let f = rng.pick(&self.funcs);
                match k {
                    2 => f.start,
                    3 => f.start + f.size,
                    4 if !f.inl.is_empty() => {
                        let i = rng.pick(&f.inl);
                        *rng.pick(&[i.start, i.start + i.size, i.start + 1])
                    }
                    5 if !f.lines.is_empty() => rng.pick(&f.lines).0,
                    _ => f.start + rng.below(f.size as usize) as u64,
                }
            }
        };
        match rng.below(12) {
            0 => at = at.saturating_sub(1),
            1 => at += 1,
            2 if rng.chance(1, 10) => at += 1 << 32,
            _ => {}
        }
        at
    }
}

impl Func {
    fn inline(&mut self, rng: &mut Rng, from: u64, to: u64, depth: usize, origins: usize, files: usize) {
        // covers whole pieces of 8 bytes
        let mut at = from;
        while at < to {
            let left = ((to - at) / 8) as usize;
            let skip = rng.below(left + 1) as u64 * 8;
            at += skip;
            if at >= to {
                break;
            }
            let size = 8 * (1 + rng.below(((to - at) / 8) as usize) as u64);
            self.inl.push(Inl { depth, start: at, size, line: 1 + rng.below(300) as u32, file: rng.below(files), origin: rng.below(origins) });
            if depth < 3 && rng.chance(1, 2) {
                self.inline(rng, at, at + size, depth + 1, origins, files);
            }
            at += size;
        }
    }
}

/// Line mappings: generated file -> line -> original file and line.
pub type Il2 = BTreeMap<String, BTreeMap<u32, (String, u32)>>;

fn demangle(s: &str) -> Option<(&'static str, String)> {
    for (p, lang) in [("_Z", "cpp"), ("_R", "rust"), ("$s", "swift")] {
        if let Some(r) = s.strip_prefix(p) {
            return Some((lang, format!("{lang}::{r}(int)")));
        }
    }
    None
}

/// What a debug file and its companions say about an address.
#[derive(Clone)]
pub enum Truth {
    Native { sym: Arc<Sym>, map: Option<Vec<String>>, il: Option<Il2> },
    Dotnet(Arc<Vec<u8>>),
    Fail(&'static str),
}

fn unhide(s: &str, map: &Option<Vec<String>>) -> String {
    let n = s.strip_prefix("__hidden#").and_then(|t| t.strip_suffix('_')).and_then(|t| t.parse::<usize>().ok());
    match (n, map) {
        (Some(n), Some(m)) if n < m.len() => m[n].clone(),
        _ => s.to_string(),
    }
}

impl Truth {
    fn locate(&self, addr: u64) -> Vec<Place> {
        let Truth::Native { sym, map, il } = self else { return vec![] };
        let mut all = sym.locate(addr);
        for (name, _, file, line) in &mut all {
            *name = unhide(name, map);
            if let Some(f) = file {
                *f = f.split('/').map(|p| unhide(p, map)).collect::<Vec<_>>().join("/");
                if let Some((nf, nl)) = il.as_ref().and_then(|i| i.get(f)).and_then(|m| m.range(..=*line).next_back()).map(|x| x.1.clone()) {
                    *f = nf;
                    *line = nl;
                }
            }
        }
        all
    }
}

#[derive(Clone)]
pub struct Image {
    pub id: ObjectId,
    pub info: Value,
    pub dotnet: bool,
    pub addr: u64,
    pub size: Option<u64>,
    pub filled: Option<u64>,
    pub truth: Truth,
    pub status: &'static str,
    pub features: Value,
    pub candidates: Value,
    pub arch: &'static str,
}

pub fn no_features() -> Value {
    json!({"has_debug_info": false, "has_unwind_info": false, "has_symbols": false, "has_sources": false})
}

/// Which image an address belongs to: its index in the request.
pub fn image_at(images: &[Image], addr: u64, mode: Option<usize>) -> Option<usize> {
    if let Some(i) = mode {
        return (i < images.len()).then_some(i);
    }
    let mut found: Option<usize> = None;
    for (i, m) in images.iter().enumerate() {
        if m.addr <= addr && found.is_none_or(|f| images[f].addr <= m.addr) {
            found = Some(i);
        }
    }
    let m = &images[found?];
    let size = m.filled.unwrap_or(0);
    let end = m.addr.checked_add(size)?;
    (size == 0 || addr <= end).then_some(found?)
}

/// Images without size span up to the next one.
pub fn backfill(images: &mut [Image]) {
    let mut order: Vec<usize> = (0..images.len()).collect();
    order.sort_by_key(|i| images[*i].addr);
    for i in &order {
        images[*i].filled = images[*i].size;
    }
    for w in order.windows(2) {
        if images[w[0]].size.unwrap_or(0) == 0 {
            images[w[0]].filled = Some(images[w[1]].addr - images[w[0]].addr);
        }
    }
}

fn file_name(path: &str) -> &str {
    path.rsplit(['/', '\\']).next().unwrap()
}

pub fn hex(v: u64) -> Value {
    json!(format!("0x{v:x}"))
}

pub fn unhex(v: &Value) -> u64 {
    u64::from_str_radix(v.as_str().unwrap().trim_start_matches("0x"), 16).unwrap()
}

pub fn mode_of(f: &Value) -> Option<usize> {
    f["addr_mode"].as_str().and_then(|s| s.strip_prefix("rel:")).map(|s| s.parse().unwrap())
}

/// The frames a frame becomes, or the status of the frame that could not be symbolicated.
fn frame(images: &[Image], f: &mut Map<String, Value>, index: usize, trace: &Value, signal: Option<u32>, auto: bool) -> Result<Vec<Value>, &'static str> {
    let fv = Value::Object(f.clone());
    let (addr, mode) = (unhex(&fv["instruction_addr"]), mode_of(&fv));
    let Some(idx) = image_at(images, addr, mode) else { return Err("unknown_image") };
    let m = &images[idx];
    match &m.info["code_file"] {
        Value::Null => f.remove("package"),
        v => f.insert("package".into(), v.clone()),
    };
    match &m.truth {
        Truth::Fail(s) => Err(s),
        Truth::Dotnet(bytes) => {
            let missing = Err("missing_symbol");
            let Some(id) = f.get("function_id").map(unhex) else { return missing };
            let (Ok(id), Ok(il)) = (u32::try_from(id), u32::try_from(addr)) else { return missing };
            let Some((file, line, lang)) = dotnet(bytes, id, il) else { return missing };
            let mut o = f.clone();
            o.insert("status".into(), json!("symbolicated"));
            o.insert("original_index".into(), json!(index));
            o.insert("lang".into(), json!(lang));
            o.insert("filename".into(), json!(file_name(&file)));
            o.insert("abs_path".into(), json!(file));
            o.insert("lineno".into(), json!(line));
            Ok(vec![Value::Object(o)])
        }
        Truth::Native { sym, .. } => {
            let rel = match mode {
                Some(_) => addr,
                None if m.addr == 0 => return Err("missing_symbol"),
                None => addr - m.addr,
            };
            let (align, step, ip) = cpu(sym.arch);
            let rel = match m.addr.checked_add(rel).filter(|_| m.addr != 0) {
                None => rel,
                Some(abs) => {
                    let aligned = abs - abs % align;
                    let back = match f.get("adjust_instruction_addr").and_then(|a| a.as_bool()) {
                        Some(a) => a,
                        None if !auto => true,
                        None if index > 0 => true,
                        None => {
                            let ip = ip.and_then(|r| trace["registers"].get(r)).map(unhex);
                            ip.is_some_and(|ip| ip != abs) && matches!(signal, Some(4 | 10 | 11))
                        }
                    };
                    let at = if back { aligned.wrapping_sub(step) } else { aligned };
                    match at.checked_sub(m.addr) {
                        Some(r) => r,
                        None => return Err("missing_symbol"),
                    }
                }
            };
            let places = m.truth.locate(rel);
            if places.is_empty() {
                return Err("missing_symbol");
            }
            let expose = |rel: u64| if m.addr == 0 { rel } else { m.addr.checked_add(rel).unwrap_or(0) };
            let last = places.len() - 1;
            let mut out = vec![];
            for (i, (name, entry, file, line)) in places.into_iter().enumerate() {
                let mut o = Map::new();
                let mut put = |k: &str, v: Value| {
                    if !v.is_null() {
                        o.insert(k.into(), v);
                    }
                };
                put("status", json!("symbolicated"));
                put("original_index", json!(index));
                for k in ["platform", "adjust_instruction_addr", "function_id", "package", "trust"] {
                    put(k, f.get(k).cloned().unwrap_or_default());
                }
                if m.addr == 0 {
                    put("addr_mode", json!(format!("rel:{idx}")));
                }
                put("instruction_addr", hex(expose(rel)));
                let (lang, function) = demangle(&name).map_or((None, name.clone()), |(l, f)| (Some(l), f));
                put("lang", json!(lang));
                put("symbol", json!(name));
                put("function", json!(function));
                if i == last {
                    put("sym_addr", hex(expose(entry)));
                }
                match file.filter(|f| !f.is_empty()) {
                    Some(p) => {
                        put("filename", json!(file_name(&p)));
                        put("abs_path", json!(p));
                    }
                    None => {
                        put("filename", f.get("filename").cloned().unwrap_or_default());
                        put("abs_path", f.get("abs_path").cloned().unwrap_or_default());
                    }
                }
                put("lineno", json!(line));
                out.push(Value::Object(o));
            }
            Ok(out)
        }
    }
}

pub fn dotnet(bytes: &[u8], id: u32, il: u32) -> Option<(String, u32, String)> {
    use symbolic::debuginfo::Object;
    use symbolic::ppdb::*;
    let Ok(Object::PortablePdb(o)) = Object::parse(bytes) else { return None };
    let mut c = PortablePdbCacheConverter::new();
    c.process_portable_pdb(o.portable_pdb()).ok()?;
    let mut out = vec![];
    c.serialize(&mut out).ok()?;
    let cache = PortablePdbCache::parse(&out).ok()?;
    let l = cache.lookup(id, il)?;
    Some((l.file_name.to_string(), l.line, l.file_lang.name().to_string()))
}

/// The stack trace as it must come back.
pub fn stacktrace(images: &[Image], t: &Value, signal: Option<u32>, n: &mut Notes) -> Value {
    let frames = t["frames"].as_array().unwrap();
    let auto = frames.iter().all(|f| f.get("adjust_instruction_addr").is_none());
    let mut out: Vec<Value> = vec![];
    for (i, f) in frames.iter().enumerate() {
        let mut f = f.as_object().unwrap().clone();
        let given = f.clone();
        if f.get("addr_mode") == Some(&json!("abs")) {
            f.remove("addr_mode");
        }
        match frame(images, &mut f, i, t, signal, auto) {
            Ok(fs) => {
                n.count("frames symbolicated");
                n.seen.insert(format!("ok {} {:?} {:?} {}", fs.len(), given.get("trust"), given.get("adjust_instruction_addr"), given.contains_key("addr_mode")));
                if fs.len() > 1 {
                    n.count("frames with inlinees");
                }
                if fs[0].get("addr_mode").is_some() && fs[0].get("symbol").is_some() {
                    n.count("frames of images without addresses");
                }
                if fs[0].get("symbol").is_none() {
                    n.count("managed frames");
                }
                out.extend(fs);
            }
            Err(status) => {
                let names = (f.get("function").cloned(), f.get("symbol").cloned());
                let mangled = match &names {
                    (Some(x), None) | (None, Some(x)) => x.as_str(),
                    _ => None,
                };
                if let Some((_, d)) = mangled.and_then(demangle) {
                    f.insert("function".into(), json!(d));
                    if let (Some(x), None) = names {
                        f.insert("symbol".into(), x);
                    }
                    n.count("names demangled without a symbol");
                }
                let scan = given.get("trust") == Some(&json!("scan"));
                n.seen.insert(format!("{status} {:?} {}", given.get("trust"), given.contains_key("addr_mode")));
                if scan && (status == "missing_symbol" || status == "unknown_image") {
                    n.count("scanned frames dropped");
                    continue;
                }
                if status == "unknown_image" && i + 1 == frames.len() && out.last().is_some_and(|l| l["function"] == "_start") {
                    n.count("frames behind _start dropped");
                    continue;
                }
                n.count(&format!("frames: {status}"));
                f.insert("status".into(), json!(status));
                f.insert("original_index".into(), json!(i));
                out.push(Value::Object(f));
            }
        }
    }
    let mut o = Map::new();
    for k in ["thread_id", "thread_name", "is_requesting", "registers"] {
        if let Some(v) = t.get(k).filter(|v| !v.is_null() && **v != json!({})) {
            o.insert(k.into(), v.clone());
        }
    }
    o.insert("frames".into(), json!(out));
    Value::Object(o)
}

/// The modules as they must come back, in the order of the request.
pub fn modules(images: &[Image], traces: &[Value]) -> Value {
    let mut used = vec![false; images.len()];
    for t in traces {
        for f in t["frames"].as_array().unwrap() {
            if let Some(i) = image_at(images, unhex(&f["instruction_addr"]), mode_of(f)) {
                used[i] = true;
            }
        }
    }
    images
        .iter()
        .zip(used)
        .map(|(m, used)| {
            let mut v = m.info.clone();
            match m.filled {
                Some(s) => v["image_size"] = json!(s),
                None => {
                    v.as_object_mut().unwrap().remove("image_size");
                }
            }
            v["image_addr"] = hex(m.addr);
            v["debug_status"] = json!(if used { m.status } else { "unused" });
            v["features"] = if used { m.features.clone() } else { no_features() };
            v["arch"] = json!(if used { m.arch } else { "unknown" });
            if used && m.candidates != json!([]) {
                v["candidates"] = m.candidates.clone();
            }
            v
        })
        .collect()
}

// ------------------------------------------------------------------------------------ the world

pub struct World {
    pub cfg: symbolicator_service::config::Config,
    pub svc: SharedServices,
    pub actor: SymbolicationActor,
    pub name: String,
    pub srcs: Arc<[SourceConfig]>,
    /// address and configuration of every source
    pub raw: Vec<(String, String, Value)>,
    pub ids: Vec<String>,
    pub files: Arc<Mutex<HashMap<String, Serve>>>,
    /// what has been decided about a location
    pub known: HashMap<(String, String), Serve>,
    pub syms: HashMap<Vec<u8>, Arc<Sym>>,
}

pub fn url_target(f: &RemoteFile) -> String {
    match f {
        RemoteFile::Http(h) => {
            let url = h.url().unwrap();
            match url.query() {
                Some(q) => format!("{}?{q}", url.path()),
                None => url.path().to_string(),
            }
        }
        _ => unreachable!(),
    }
}

impl World {
    pub fn new(rng: &mut Rng, name: String, dir: &PathBuf, base: &str, files: Arc<Mutex<HashMap<String, Serve>>>, handle: &tokio::runtime::Handle) -> World {
        let cfg = dl_config(json!({ "cache_dir": dir.join("cache") }));
        let (mut srcs, mut raw) = (vec![], vec![]);
        for (i, id) in ["custom", "another", "third"].iter().enumerate().take(1 + rng.below(3)) {
            let layout = json!({"type": *rng.pick(&["unified", "unified", "native", "symstore", "debuginfod"]), "casing": *rng.pick(&["default", "lowercase"])});
            let extra = json!({"layout": layout, "is_public": rng.chance(1, 2)});
            raw.push((id.to_string(), format!("{base}/{name}/s{i}/"), extra.clone()));
            srcs.push(http_source(id, &format!("{base}/{name}/s{i}/"), extra));
        }
        let svc = services(&cfg, handle);
        let actor = SymbolicationActor::new(&svc);
        let ids = srcs.iter().map(|s| s.id().to_string()).collect();
        World { cfg, svc, actor, name, srcs: srcs.into(), raw, ids, files, known: Default::default(), syms: Default::default() }
    }

    pub async fn list(&self, types: &[FileType], id: &ObjectId) -> Vec<RemoteFile> {
        list_files_in_scope(&self.svc.download_svc, &self.svc.source_index_svc, &self.srcs, types, id, &Scope::Global).await
    }

    /// Decides what is at a location, unless it has been decided.
    pub fn put(&mut self, f: &RemoteFile, make: impl FnOnce() -> Serve) -> Serve {
        let k = (f.source_id().to_string(), f.uri().to_string());
        if let Some(s) = self.known.get(&k) {
            return s.clone();
        }
        let s = make();
        self.files.lock().unwrap().insert(url_target(f), s.clone());
        self.known.insert(k, s.clone());
        s
    }

    fn sym(&mut self, rng: &mut Rng, id: DebugId) -> Vec<u8> {
        let mut s = Sym::gen(rng);
        s.broken = !s.funcs.is_empty() && rng.chance(1, 8);
        let b = s.text(id);
        self.syms.insert(b.clone(), Arc::new(s));
        b
    }

    /// The companion of an object: the first file that can be used.
    async fn companion<T>(&mut self, ty: FileType, id: &ObjectId, mut make: impl FnMut() -> Serve, read: impl Fn(&[u8]) -> Option<T>) -> Option<T> {
        let mut found = None;
        for f in self.list(&[ty], id).await {
            let s = self.put(&f, &mut make);
            if let Serve::Plain(b) | Serve::Packed(b) = s {
                found = found.or_else(|| read(&b));
            }
        }
        found
    }

    /// An image and the truth about it.
    pub async fn image(&mut self, rng: &mut Rng, addr: u64, size: Option<u64>, rewritten: &(dyn Fn(&str) -> Option<String> + Sync)) -> Image {
        let ty = *rng.pick(&["elf", "pe", "macho", "wasm", "unknown", "elf", "pe", "pe_dotnet"]);
        let dotnet = ty == "pe_dotnet";
        let uuid = Uuid::from_slice(&rng.bytes(16)).unwrap();
        let age = if ty == "pe" { 1 + rng.below(20) as u32 } else if dotnet { u32::MAX } else { 0 };
        let debug_id = DebugId::from_parts(uuid, age);
        let code_id = CodeId::from_binary(&rng.bytes(16));
        let mut info = json!({"type": ty, "image_addr": format!("0x{addr:x}")});
        let n = rng.below(100);
        let mut id = ObjectId { object_type: serde_json::from_value(json!(ty)).unwrap(), ..Default::default() };
        if !rng.chance(1, 10) {
            info["debug_id"] = json!(debug_id.to_string());
            id.debug_id = Some(debug_id);
        }
        if rng.chance(1, 2) {
            info["code_id"] = json!(code_id.to_string());
            id.code_id = Some(code_id);
        }
        if !rng.chance(1, 6) {
            let f = rng.pick(&["/usr/lib/lib{}.so", "C:\\app\\{}.exe", "{}", "/Applications/Ünï.app/{}"]).replace("{}", &format!("code{n}"));
            info["code_file"] = json!(f);
            id.code_file = Some(f);
        }
        if !rng.chance(1, 6) {
            let f = rng.pick(&["alpha{}.pdb", "C:\\build\\app{}.exe.pdb", "/b/lib{}.debug", "mono{}"]).replace("{}", &n.to_string());
            info["debug_file"] = json!(f);
            id.debug_file = Some(rewritten(&f).unwrap_or(f));
        }
        if let Some(s) = size {
            info["image_size"] = json!(s);
        }
        let types: &[FileType] = if dotnet { &[FileType::PortablePdb, FileType::Pdb] } else { FileType::from_object_type(id.object_type) };
        let listed = self.list(types, &id).await;
        let good = rng.below(listed.len().max(1));
        let mut known = vec![];
        for (i, f) in listed.iter().enumerate() {
            let at = if i == good && !rng.chance(1, 10) { 0 } else { rng.below(11) };
            let serve = match at {
                0 | 1 if dotnet && !rng.chance(1, 10) => Serve::Plain(rng.pick(&PPDBS).to_vec()),
                0 | 1 => Serve::Plain(self.sym(rng, debug_id)),
                2 => Serve::Packed(self.sym(rng, debug_id)),
                3 => Serve::Plain(b"this is not an object at all".to_vec()),
                4 => Serve::Status(*rng.pick(&[401, 403])),
                5 => Serve::Status(500),
                _ => Serve::Status(404),
            };
            let serve = self.put(f, || serve);
            known.push(Known { source: f.source_id().to_string(), uri: f.uri().to_string(), pred: serve.predict(&id) });
        }
        let mut cand = candidates(&self.ids, &known);
        let chosen = best(&known, ObjectPurpose::Debug);
        let mut use_it = |v: Value| {
            let k = chosen.unwrap();
            for c in cand.as_array_mut().unwrap() {
                if c["source"] == json!(k.source) && c["location"] == json!(k.uri) {
                    c["debug"] = v.clone();
                }
            }
        };
        let (mut truth, mut status, mut arch, mut features) = (Truth::Fail("missing"), "missing", "unknown", no_features());
        match chosen.map(|c| &c.pred) {
            None | Some(Pred::NotFound) => {}
            Some(Pred::Malformed) => {
                (truth, status) = (Truth::Fail("malformed"), "malformed");
                use_it(json!({"status": "malformed"}));
            }
            Some(Pred::Perm(_) | Pred::Error(_)) => status = "fetching_failed",
            Some(p @ Pred::Ok(bytes, _)) => {
                features = download_json(p)["features"].clone();
                match self.syms.get(&**bytes).cloned() {
                    None => {
                        (truth, status) = (Truth::Dotnet(bytes.clone()), "found");
                        use_it(json!({"status": "ok"}));
                    }
                    Some(_) if dotnet => {
                        status = "unsupported";
                        let e = CacheError::Unsupported("Only portable PDB files can be used for .NET symbolication".into());
                        use_it(json!({"status": "error", "details": e.to_string()}));
                    }
                    Some(s) if s.broken => {
                        (truth, status) = (Truth::Fail("malformed"), "malformed");
                        use_it(json!({"status": "malformed"}));
                    }
                    Some(sym) => {
                        use_it(json!({"status": "ok"}));
                        arch = sym.arch;
                        status = "found";
                        let (mut map, mut il) = (None, None);
                        if let Some(d) = id.debug_id {
                            let other = DebugId::from_uuid(Uuid::from_slice(&rng.bytes(16)).unwrap());
                            let want = rng.chance(1, 3);
                            let r = &mut Rng::new(rng.next());
                            let original = self
                                .companion(
                                    FileType::UuidMap,
                                    &ObjectId::from(d),
                                    || match if want { r.below(3) } else { 9 } {
                                        0 => Serve::Plain(b"<plist version=\"1.0\"><dict><key>unrelated</key></dict></plist>".to_vec()),
                                        1 | 2 => Serve::Plain(
                                            format!("<?xml version=\"1.0\"?><plist version=\"1.0\"><dict><key>DBGOriginalUUID</key><string>{}</string></dict></plist>", other.uuid()).into_bytes(),
                                        ),
                                        _ => Serve::Status(404),
                                    },
                                    |b| String::from_utf8_lossy(b).split("<string>").nth(1).and_then(|s| s.split('<').next()).and_then(|s| s.parse::<DebugId>().ok()),
                                )
                                .await;
                            if let Some(o) = original {
                                map = self
                                    .companion(
                                        FileType::BcSymbolMap,
                                        &ObjectId::from(o),
                                        || match r.below(4) {
                                            0 => Serve::Status(404),
                                            1 => Serve::Plain(b"not a map of symbols".to_vec()),
                                            _ => {
                                                let mut s = "BCSymbolMap Version: 2.0\n".to_string();
                                                for i in 0..r.below(14) {
                                                    s += &match r.below(4) {
                                                        0 => format!("_Zclear{i}\n"),
                                                        1 => "_start\n".into(),
                                                        _ => format!("clear{i}.c\n"),
                                                    };
                                                }
                                                Serve::Plain(s.into_bytes())
                                            }
                                        },
                                        |b| String::from_utf8_lossy(b).strip_prefix("BCSymbolMap Version: 2.0\n").map(|s| s.lines().map(String::from).collect::<Vec<_>>()),
                                    )
                                    .await;
                            }
                            let want = rng.chance(1, 3);
                            let paths: Vec<String> = sym.files.iter().map(|f| f.split('/').map(|p| unhide(p, &map)).collect::<Vec<_>>().join("/")).collect();
                            il = self
                                .companion(
                                    FileType::Il2cpp,
                                    &id,
                                    || match if want { r.below(4) } else { 9 } {
                                        0 => Serve::Plain(b"[no mapping".to_vec()),
                                        1 | 2 => {
                                            let mut v = json!({});
                                            for p in &paths {
                                                if r.chance(2, 3) {
                                                    v[p.as_str()] = json!({"/unity/Scene.cs": {(1 + r.below(100)).to_string(): 1 + r.below(999), (100 + r.below(300)).to_string(): 1 + r.below(999)}});
                                                }
                                            }
                                            Serve::Plain(v.to_string().into_bytes())
                                        }
                                        _ => Serve::Status(404),
                                    },
                                    |b| {
                                        let v: Value = serde_json::from_slice(b).ok()?;
                                        let mut all = Il2::new();
                                        for (cpp, m) in v.as_object()? {
                                            for (cs, m) in m.as_object()? {
                                                for (a, b) in m.as_object()? {
                                                    all.entry(cpp.clone()).or_default().insert(a.parse().ok()?, (cs.clone(), b.as_u64()? as u32));
                                                }
                                            }
                                        }
                                        Some(all)
                                    },
                                )
                                .await;
                        }
                        truth = Truth::Native { sym, map, il };
                    }
                }
            }
        }
        Image { id, info, dotnet, addr, size, filled: None, truth, status, features, candidates: cand, arch }
    }
}

/// The rules of rewriting used by the monitor, and what they do.
pub fn rewriting(rng: &mut Rng) -> (Value, Vec<usize>) {
    let rules = [json!({"from": "^alpha(?<n>[0-9]+)", "to": "beta$n"}), json!({"from": "[^/\\\\]+\\.exe\\.pdb$", "to": "electron.exe.pdb"}), json!({"from": "pdb", "to": "${0}x"})];
    let mut on: Vec<usize> = (0..3).filter(|_| rng.chance(1, 3)).collect();
    rng.shuffle(&mut on);
    (json!(on.iter().map(|i| rules[*i].clone()).collect::<Vec<_>>()), on)
}

pub fn rewrite(on: &[usize], f: &str) -> Option<String> {
    for r in on {
        let out = match r {
            0 => f.strip_prefix("alpha").filter(|t| t.starts_with(|c: char| c.is_ascii_digit())).map(|t| {
                let n: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
                format!("beta{n}{}", &t[n.len()..])
            }),
            1 => f.ends_with(".exe.pdb").then(|| {
                let at = f.rfind(['/', '\\']).map_or(0, |p| p + 1);
                format!("{}electron.exe.pdb", &f[..at])
            }).filter(|_| !file_name(f).starts_with(".exe.pdb")),
            _ => f.contains("pdb").then(|| f.replacen("pdb", "pdbx", 1)),
        };
        if out.is_some() {
            return out;
        }
    }
    None
}

/// Images of a process in any order, with the truth about each.
pub async fn images(w: &mut World, rng: &mut Rng, rules: &[usize]) -> Vec<Image> {
    let n = rng.below(6) + 1;
    let mut places: Vec<(u64, Option<u64>)> = vec![];
    let mut at = *rng.pick(&[0x1000u64, 0x10_0000, 0x7fff_0000_0000, 3]);
    for i in 0..n {
        if rng.chance(1, 6) {
            places.push((0, *rng.pick(&[None, Some(0), Some(0x10000)])));
            continue;
        }
        let room = 0x2000 + 0x1000 * rng.below(0x500) as u64;
        let size = *rng.pick(&[None, Some(0), Some(room), Some(room / 2), Some(0x1800), Some(room)]);
        places.push((at, size));
        at += room;
        if rng.chance(1, 2) {
            at += 0x1000 * rng.below(5) as u64;
        }
        if i + 1 == n && rng.chance(1, 8) {
            places.pop();
            places.push((u64::MAX - 0xffff, Some(0xff00)));
        }
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut places);
    }
    // sorting is stable: the first of the lowest ones
    let first = (0..n).min_by_key(|i| (places[*i].0, *i)).unwrap();
    let mut out = vec![];
    for (i, (a, s)) in places.into_iter().enumerate() {
        let f = |d: &str| if i == first { rewrite(rules, d) } else { None };
        out.push(w.image(rng, a, s, &f).await);
    }
    backfill(&mut out);
    out
}

pub fn trace(rng: &mut Rng, images: &[Image]) -> Value {
    let mut frames = vec![];
    let explicit = rng.chance(1, 4);
    for _ in 0..rng.below(9) {
        let i = rng.below(images.len());
        let m = &images[i];
        let rel = match &m.truth {
            Truth::Native { sym, .. } => sym.point(rng),
            Truth::Dotnet(_) => *rng.pick(&[0, 10, 6, 45, 47, 1, 0x1_0000_0000, 0x1_0000_000a]),
            _ => rng.below(0x2000) as u64,
        };
        let mut f = json!({});
        let zero_once = images.iter().filter(|m| m.addr == 0).count() < 2;
        match rng.below(12) {
            0 => {
                f["instruction_addr"] = hex(rel);
                f["addr_mode"] = json!(format!("rel:{}", images.len() + rng.below(3)));
            }
            1 => f["instruction_addr"] = hex(m.addr.saturating_add(m.filled.unwrap_or(0)).saturating_add(rng.below(3) as u64).saturating_sub(1)),
            2 => f["instruction_addr"] = hex(if zero_once { rng.below(0x3000) as u64 } else { 1 + rng.below(0x3000) as u64 }),
            3..=6 => {
                f["instruction_addr"] = hex(rel);
                f["addr_mode"] = json!(format!("rel:{i}"));
            }
            _ => {
                f["instruction_addr"] = hex(m.addr.saturating_add(rel));
                if rng.chance(1, 4) {
                    f["addr_mode"] = json!("abs");
                }
            }
        }
        if !zero_once && f["instruction_addr"] == json!("0x0") && mode_of(&f).is_none() {
            f["instruction_addr"] = json!("0x1");
        }
        // bogus relative addresses next to the end of the address space are rejected elsewhere
        if explicit && rng.chance(1, 2) {
            f["adjust_instruction_addr"] = json!(rng.chance(1, 2));
        }
        if m.dotnet || rng.chance(1, 10) {
            if !rng.chance(1, 8) {
                f["function_id"] = hex(*rng.pick(&[1u64, 2, 3, 4, 5, 6, 7, 8, 0, 0x1_0000_0005]));
            }
        }
        let text = |rng: &mut Rng, all: &[&str]| json!(*rng.pick(all));
        if rng.chance(1, 4) {
            f["trust"] = text(rng, &["scan", "scan", "cfi", "fp", "context", "prewalked", "cfiscan"]);
        }
        if rng.chance(1, 4) {
            f["function"] = text(rng, &["_Zinner", "_start", "plain", "_Rother", "", "$sswift"]);
        }
        if rng.chance(1, 4) {
            f["symbol"] = text(rng, &["_Zouter", "sym", "$sother"]);
        }
        if rng.chance(1, 5) {
            f["filename"] = text(rng, &["given.c", "ünï.c"]);
        }
        if rng.chance(1, 5) {
            f["abs_path"] = text(rng, &["/given/given.c"]);
        }
        if rng.chance(1, 6) {
            f["package"] = text(rng, &["/given/package"]);
        }
        if rng.chance(1, 6) {
            f["platform"] = text(rng, &["native", "cocoa", "csharp", "other"]);
        }
        if rng.chance(1, 8) {
            f["lineno"] = json!(rng.below(100));
        }
        if rng.chance(1, 10) {
            f["sym_addr"] = hex(rng.below(0x1000) as u64);
        }
        frames.push(f);
    }
    // `_start`, followed by what is behind it
    if rng.chance(1, 5) {
        if let Some((i, f)) = images.iter().enumerate().find_map(|(i, m)| match &m.truth {
            Truth::Native { sym, .. } => sym.funcs.iter().find(|f| f.name == "_start" && f.inl.is_empty()).map(|f| (i, f.clone())),
            _ => None,
        }) {
            frames.push(json!({"instruction_addr": format!("0x{:x}", f.start + 8), "addr_mode": format!("rel:{i}")}));
            for _ in 0..1 + rng.below(2) {
                frames.push(json!({"instruction_addr": "0x5", "addr_mode": "rel:99"}));
            }
        }
    }
    let mut t = json!({ "frames": frames });
    if rng.chance(1, 2) {
        t["thread_id"] = json!(rng.below(1 << 40));
    }
    if rng.chance(1, 3) {
        t["thread_name"] = json!("wörker");
    }
    if rng.chance(1, 3) {
        t["is_requesting"] = json!(rng.chance(1, 2));
    }
    if rng.chance(1, 2) {
        let first = t["frames"].get(0).map(|f| f["instruction_addr"].clone()).unwrap_or(json!("0x1"));
        for r in ["rip", "eip", "pc", "srr0"] {
            if rng.chance(2, 3) {
                t["registers"][r] = if rng.chance(1, 2) { first.clone() } else { hex(rng.below(0x2000) as u64) };
            }
        }
    }
    t
}

pub struct Ask {
    pub traces: Vec<Value>,
    pub signal: Option<u32>,
    pub rules: Value,
    pub scope: &'static str,
    pub images: Vec<Image>,
}

/// The same module, with its identifiers written in one of the other ways clients do.
pub fn respell(info: &Value) -> Value {
    let mut v = info.clone();
    let which = info.to_string().bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64)) >> 3;
    match (info["debug_id"].as_str(), which % 5) {
        (Some(d), 1) => v["debug_id"] = json!(d.to_uppercase()),
        (Some(d), 2) => v["debug_id"] = json!(d.parse::<DebugId>().unwrap().breakpad().to_string()),
        (Some(d), 3) => v["debug_id"] = json!(d.parse::<DebugId>().unwrap().breakpad().to_string().to_lowercase()),
        (None, 1) => v["debug_id"] = json!(""),
        (None, 2) => v["debug_id"] = json!("not an identifier"),
        _ => {}
    }
    match (info["code_id"].as_str(), which / 5 % 3) {
        (Some(c), 1) => v["code_id"] = json!(c.to_uppercase()),
        (None, 1) => v["code_id"] = json!(""),
        _ => {}
    }
    v
}

impl Ask {
    pub fn request(&self, srcs: &Arc<[SourceConfig]>) -> SymbolicateStacktraces {
        let infos: Vec<RawObjectInfo> = self.images.iter().map(|m| serde_json::from_value(respell(&m.info)).expect("module")).collect();
        SymbolicateStacktraces {
            platform: None,
            scope: scope(self.scope),
            signal: self.signal.map(Signal),
            sources: srcs.clone(),
            origin: StacktraceOrigin::Symbolicate,
            stacktraces: serde_json::from_value(json!(self.traces)).expect("stack traces"),
            modules: infos.into_iter().map(From::from).collect(),
            apply_source_context: false,
            scraping: ScrapingConfig::default(),
            rewrite_first_module: serde_json::from_value(self.rules.clone()).unwrap(),
        }
    }
}

/// The first differences of two values.
pub fn diff(at: &str, want: &Value, got: &Value, out: &mut Vec<Value>) {
    if want == got || out.len() > 5 {
        return;
    }
    match (want, got) {
        (Value::Object(a), Value::Object(b)) => {
            for k in a.keys().chain(b.keys().filter(|k| !a.contains_key(*k))) {
                diff(&format!("{at}.{k}"), a.get(k).unwrap_or(&Value::Null), b.get(k).unwrap_or(&Value::Null), out);
            }
        }
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                diff(&format!("{at}[{i}]"), x, y, out);
            }
        }
        _ => out.push(json!({"at": at, "want": want, "got": got})),
    }
}

pub fn last_key(d: &[Value]) -> String {
    let at = d[0]["at"].as_str().unwrap();
    let k = at.rsplit('.').next().unwrap();
    k.split('[').next().unwrap().to_string()
}

pub async fn check(w: &World, actor: &SymbolicationActor, a: &Ask, prop: &str, stage: &str, n: &mut Notes) {
    let res = match actor.symbolicate(a.request(&w.srcs)).await {
        Ok(r) => r,
        Err(e) => {
            n.bad.push(("a request for symbolication fails".into(), json!({"error": e.to_string()})));
            return;
        }
    };
    let got = serde_json::to_value(&res).unwrap();
    let mut scratch_notes = Notes::default();
    let notes = if stage == "first" { &mut *n } else { &mut scratch_notes };
    let want: Vec<Value> = a.traces.iter().map(|t| stacktrace(&a.images, t, a.signal, notes)).collect();
    let brief = |d: Vec<Value>| {
        json!({"stage": stage, "differences": d, "signal": a.signal, "rules": a.rules, "traces": a.traces,
               "images": a.images.iter().map(|m| json!({"info": m.info, "filled": m.filled, "status": m.status, "arch": m.arch})).collect::<Vec<_>>()})
    };
    let mut d = vec![];
    if prop == "C54" {
        diff("stacktraces", &json!(want), &got["stacktraces"], &mut d);
        if !d.is_empty() {
            n.bad.push((format!("the frames are not what the debug files say: {}", last_key(&d)), brief(d)));
        }
    } else {
        diff("modules", &modules(&a.images, &a.traces), &got["modules"], &mut d);
        if !d.is_empty() {
            n.bad.push((format!("a module is not described as it was found: {}", last_key(&d)), brief(d)));
        }
        let again: Result<CompletedSymbolicationResponse, _> = serde_json::from_value(got.clone());
        if again.map(|r| serde_json::to_value(r).unwrap()).ok().as_ref() != Some(&got) {
            n.bad.push(("a response cannot be read back".into(), got));
        }
    }
}

async fn case(mut rng: Rng, name: String, dir: PathBuf, base: String, files: Arc<Mutex<HashMap<String, Serve>>>, handle: tokio::runtime::Handle, prop: String) -> Notes {
    let rng = &mut rng;
    let mut n = Notes::default();
    let mut w = World::new(rng, name, &dir, &base, files, &handle);
    let mut asks = vec![];
    for _ in 0..1 + rng.below(2) {
        let (rules, on) = rewriting(rng);
        let images = images(&mut w, rng, &on).await;
        let traces: Vec<Value> = (0..1 + rng.below(3)).map(|_| trace(rng, &images)).collect();
        let signal = *rng.pick(&[None, Some(11), Some(6), Some(4), Some(10), Some(11)]);
        for m in &images {
            n.count(&format!("images: {}", m.status));
            if let Truth::Native { map, il, .. } = &m.truth {
                if map.is_some() {
                    n.count("images with a symbol map");
                }
                if il.is_some() {
                    n.count("images with a line mapping");
                }
            }
            n.seen.insert(format!("image {} {} {:?}", m.info["type"], m.status, m.size.map(|s| s == 0)));
        }
        if images.iter().any(|m| m.info["debug_file"].as_str().is_some_and(|f| rewrite(&on, f).is_some())) {
            n.count("requests with a rule of rewriting that applies");
        }
        n.count("requests");
        asks.push(Ask { traces, signal, rules, scope: rng.pick(&["global", "tenant"]), images });
    }
    n.evals += 1;
    for a in &asks {
        check(&w, &w.actor, a, &prop, "first", &mut n).await;
    }
    // all at once
    let (mut n1, mut n2) = (Notes::default(), Notes::default());
    futures::join!(check(&w, &w.actor, &asks[0], &prop, "again", &mut n1), check(&w, &w.actor, asks.last().unwrap(), &prop, "again", &mut n2));
    n.bad.append(&mut n1.bad);
    n.bad.append(&mut n2.bad);
    if rng.chance(1, 2) {
        let svc = services(&w.cfg, &handle);
        let actor = SymbolicationActor::new(&svc);
        for a in &asks {
            check(&w, &actor, a, &prop, "after a restart", &mut n).await;
        }
        n.count("answers after a restart");
    }
    let _ = std::fs::remove_dir_all(&dir);
    n
}

/// Runs cases in parallel until the time is up.
pub fn rounds<F>(ctx: &Ctx, rep: &mut Report, salt: u64, tag: &str, case: impl Fn(Rng, String, PathBuf, String, Arc<Mutex<HashMap<String, Serve>>>, tokio::runtime::Handle) -> F)
where
    F: std::future::Future<Output = Notes> + Send + 'static,
{
    let rt = rt(6);
    let files: Arc<Mutex<HashMap<String, Serve>>> = Default::default();
    let f2 = files.clone();
    let mock = Mock::start(move |h| {
        let all = f2.lock().unwrap();
        // some answers depend on who asks
        let mine = h.header("x-token").and_then(|t| all.get(&format!("{t}|{}", h.target)));
        mine.or_else(|| all.get(&h.target)).map(|s| s.resp()).unwrap_or_else(|| Resp::new(404, "nothing here"))
    });
    let mut rng = Rng::new(ctx.seed ^ salt);
    let mut round = 0u64;
    while ctx.time_left() && rep.violations.len() < 25 {
        round += 1;
        let batch: Vec<_> = (0..8)
            .map(|b| {
                let r = Rng::new(rng.next());
                let dir = scratch(&ctx.work, tag);
                rt.spawn(case(r, format!("r{round}b{b}"), dir, mock.url(""), files.clone(), rt.handle().clone()))
            })
            .collect();
        for t in batch {
            match rt.block_on(t) {
                Ok(n) => n.into_report(rep),
                Err(e) => rep.violate("the code under test crashed", json!({ "panic": e.to_string() })),
            }
        }
        files.lock().unwrap().clear();
        mock.take();
    }
}

pub fn c54(ctx: &Ctx) -> Report {
    let mut rep = Report::new("every frame becomes what a model of the debug files says about its adjusted address");
    rounds(ctx, &mut rep, 0x54, "c54", |r, name, dir, base, files, h| case(r, name, dir, base, files, h, "C54".into()));
    for k in [
        "frames symbolicated",
        "frames with inlinees",
        "frames of images without addresses",
        "managed frames",
        "names demangled without a symbol",
        "scanned frames dropped",
        "frames behind _start dropped",
        "frames: missing",
        "frames: missing_symbol",
        "frames: malformed",
        "frames: unknown_image",
        "images with a symbol map",
        "images with a line mapping",
        "answers after a restart",
    ] {
        rep.require(k, 5);
    }
    rep
}

pub fn c55(ctx: &Ctx) -> Report {
    let mut rep = Report::new("every module comes back in its place with the status, features and candidates a model of the sources predicts");
    rounds(ctx, &mut rep, 0x55, "c55", |r, name, dir, base, files, h| case(r, name, dir, base, files, h, "C55".into()));
    for k in [
        "images: found",
        "images: missing",
        "images: malformed",
        "images: fetching_failed",
        "images: unsupported",
        "requests with a rule of rewriting that applies",
        "answers after a restart",
    ] {
        rep.require(k, 5);
    }
    rep
}
