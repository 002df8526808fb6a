//! Monitor of crash reports: minidumps and Apple crash reports (C58).
use crate::common::{Ctx, Report, Rng};
use crate::natmon::*;
use crate::objmon::{best, candidates, download_json, services, Known, Notes, Pred, Serve};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::{Seek, Write};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use symbolic::common::{CodeId, DebugId, Uuid};
use symbolicator_native::interface::*;
use symbolicator_native::SymbolicationActor;
use symbolicator_service::objects::ObjectPurpose;
use symbolicator_service::types::{ObjectFileStatus, RawObjectInfo, ScrapingConfig};
use symbolicator_sources::*;

type Files = Arc<Mutex<HashMap<String, Serve>>>;

// ---------------------------------------------------------------------------- modules of a dump

#[derive(Clone, Debug)]
struct Mod {
    dump: Value,
    base: u64,
    size: u64,
    code_file: Option<String>,
    code_id: Option<String>,
    debug_file: Option<String>,
    debug_id: Option<DebugId>,
    /// the instructions its unwind information knows
    cfi: Option<Vec<(u64, u64)>>,
    status: &'static str,
    features: Value,
    candidates: Value,
    /// what the unwind information says about the debug file
    backfill: Option<(String, String)>,
    touched: bool,
}

fn features(a: &Value, b: &Value) -> Value {
    let mut out = no_features();
    for (k, v) in out.as_object_mut().unwrap() {
        *v = json!(a[k] == true || b[k] == true);
    }
    out
}

impl Mod {
    fn has(&self, at: u64) -> bool {
        self.base <= at && at - self.base < self.size
    }
    fn knows(&self, at: u64) -> bool {
        self.cfi.as_ref().is_some_and(|c| c.iter().any(|(s, e)| *s <= at - self.base && at - self.base < *e))
    }

    async fn gen(w: &mut World, rng: &mut Rng, os: &str, base: u64, size: u64, first: bool, rules: &[usize]) -> Mod {
        let ty = match os {
            "windows" => "pe",
            "macos" | "ios" => "macho",
            "linux" | "android" | "solaris" => "elf",
            _ => "unknown",
        };
        let n = rng.below(100);
        let debug_id = DebugId::from_parts(Uuid::from_slice(&rng.bytes(16)).unwrap(), if ty == "pe" { 1 + rng.below(20) as u32 } else { 0 });
        let mut dump = json!({"base": base, "size": size});
        let mut m = Mod {
            dump: Value::Null,
            base,
            size,
            code_file: None,
            code_id: None,
            debug_file: None,
            debug_id: None,
            cfi: None,
            status: "missing",
            features: no_features(),
            candidates: json!([]),
            backfill: None,
            touched: false,
        };
        let mut id = ObjectId { object_type: serde_json::from_value(json!(ty)).unwrap(), ..Default::default() };
        if !rng.chance(1, 5) {
            m.debug_id = Some(debug_id);
            id.debug_id = Some(debug_id);
            dump["debug_id"] = json!(debug_id.to_string());
        }
        match rng.below(8) {
            0 => {
                dump["code_id"] = json!("");
                id.code_id = Some(CodeId::new("".into()));
            }
            1 | 2 => {}
            k => {
                let c = CodeId::from_binary(&rng.bytes(16)).to_string();
                dump["code_id"] = json!(if k == 3 { c.to_uppercase() } else { c.clone() });
                id.code_id = Some(CodeId::new(c.clone()));
                m.code_id = Some(c);
            }
        }
        if !rng.chance(1, 6) {
            let f = rng.pick(&["/usr/lib/lib{}.so", "C:\\app\\{}.exe", "{}", "/Applications/Ünï.app/{}"]).replace("{}", &format!("code{n}"));
            dump["code_file"] = json!(f);
            m.code_file = Some(f);
        }
        if !rng.chance(1, 5) {
            let f = rng.pick(&["alpha{}.pdb", "C:\\build\\app{}.exe.pdb", "/b/lib{}.debug", "mono{}"]).replace("{}", &n.to_string());
            dump["debug_file"] = json!(f);
            m.debug_file = Some(f);
        } else if rng.chance(1, 2) {
            dump["debug_file"] = json!("");
        }
        id.code_file = m.code_file.clone();
        id.debug_file = m.debug_file.clone().map(|f| if first { rewrite(rules, &f).unwrap_or(f) } else { f });
        m.dump = dump;
        let listed = w.list(FileType::from_object_type(id.object_type), &id).await;
        let good = rng.below(listed.len().max(1));
        let mut known = vec![];
        for (i, f) in listed.iter().enumerate() {
            let at = if i == good && !rng.chance(1, 8) { 0 } else { rng.below(10) };
            let mut file = |rng: &mut Rng| {
                let mut s = Sym::gen(rng);
                s.cfi = 0;
                let mut t = String::from_utf8(s.text(debug_id)).unwrap();
                for _ in 0..*rng.pick(&[0, 1, 1, 2, 4]) {
                    t += &format!("STACK CFI INIT {:x} {:x} .cfa: $rsp 8 + .ra: .cfa -8 + ^\n", rng.below(0x3000), 1 + rng.below(0x1000));
                }
                if rng.chance(1, 10) {
                    t += "STACK CFI BROKEN\n";
                }
                t.into_bytes()
            };
            let serve = match at {
                0 | 1 => Serve::Plain(file(rng)),
                2 => Serve::Packed(file(rng)),
                3 => Serve::Plain(b"this is not an object at all".to_vec()),
                4 => Serve::Status(*rng.pick(&[401, 403])),
                5 => Serve::Status(500),
                _ => Serve::Status(404),
            };
            let serve = w.put(f, || serve);
            known.push(Known { source: f.source_id().to_string(), uri: f.uri().to_string(), pred: serve.predict(&id) });
        }
        let mut cand = candidates(&w.ids, &known);
        let chosen = best(&known, ObjectPurpose::Unwind);
        let mut use_it = |v: Value| {
            let k = chosen.unwrap();
            for c in cand.as_array_mut().unwrap() {
                if c["source"] == json!(k.source) && c["location"] == json!(k.uri) {
                    c["unwind"] = v.clone();
                }
            }
        };
        match chosen.map(|c| &c.pred) {
            None | Some(Pred::NotFound) => {}
            Some(Pred::Malformed) => {
                m.status = "malformed";
                use_it(json!({"status": "malformed"}));
            }
            Some(Pred::Perm(_) | Pred::Error(_)) => m.status = "fetching_failed",
            Some(p @ Pred::Ok(bytes, _)) => {
                m.features = download_json(p)["features"].clone();
                let text = String::from_utf8_lossy(bytes).into_owned();
                if text.contains("\nSTACK CFI BROKEN") {
                    m.status = "malformed";
                    use_it(json!({"status": "malformed"}));
                } else {
                    m.status = "found";
                    use_it(json!({"status": "ok"}));
                    let hex = |s: Option<&str>| u64::from_str_radix(s.unwrap(), 16).unwrap();
                    let mut c = vec![];
                    for l in text.lines().filter_map(|l| l.strip_prefix("STACK CFI INIT ")) {
                        let mut it = l.split(' ');
                        let a = hex(it.next());
                        c.push((a, a + hex(it.next())));
                    }
                    m.cfi = Some(c);
                    let words: Vec<&str> = text.lines().next().unwrap().split(' ').collect();
                    m.backfill = Some((words[3].parse::<DebugId>().unwrap().to_string(), words[4].into()));
                }
            }
        }
        m.candidates = cand;
        m
    }

    /// What the module is before symbolication.
    fn info(&self, ty: &str) -> Value {
        let mut v = json!({"type": ty, "image_addr": hex(self.base)});
        let mut put = |k: &str, x: Option<String>| {
            if let Some(x) = x {
                v[k] = json!(x);
            }
        };
        put("code_id", self.code_id.clone());
        put("code_file", self.code_file.clone());
        let b = if self.touched { self.backfill.clone() } else { None };
        put("debug_id", self.debug_id.map(|d| d.breakpad().to_string()).or(b.clone().map(|b| b.0)));
        put("debug_file", self.debug_file.clone().or(b.map(|b| b.1)));
        if self.size > 0 {
            v["image_size"] = json!(self.size);
        }
        v
    }
}

// ------------------------------------------------------------------------- the client's own stream

#[derive(Clone, Debug)]
struct Client {
    bytes: Vec<u8>,
    /// thread -> frames, if the stream can be used
    traces: Option<BTreeMap<u64, Vec<Value>>>,
    how: &'static str,
}

fn client(rng: &mut Rng, mods: &[Mod], threads: &[Value]) -> Client {
    let mut ids: Vec<u64> = threads.iter().map(|t| t["id"].as_u64().unwrap()).filter(|_| rng.chance(2, 3)).collect();
    if rng.chance(1, 2) {
        ids.push(9_000_000 + rng.below(100) as u64);
    }
    rng.shuffle(&mut ids);
    let names: Vec<Vec<u8>> = vec![b"_start".to_vec(), b"main".to_vec(), b"_Zclient".to_vec(), vec![b'x', 0xff, 0xfe], "żółć".into(), vec![]];
    let mut symbols: Vec<u8> = vec![];
    let mut frames: Vec<(u64, u32, u32)> = vec![];
    for _ in 0..rng.below(12) {
        let at = match rng.below(4) {
            0 => rng.next(),
            _ if mods.is_empty() => rng.below(0x10000) as u64,
            _ => rng.pick(mods).base + rng.below(0x3000) as u64,
        };
        if rng.chance(1, 5) && !symbols.is_empty() {
            // shares the symbols there are
            let a = rng.below(symbols.len());
            frames.push((at, a as u32, rng.below(symbols.len() - a + 1) as u32));
        } else {
            let s = rng.pick(&names);
            frames.push((at, symbols.len() as u32, s.len() as u32));
            symbols.extend_from_slice(s);
        }
    }
    let mut list: Vec<(u64, u32, u32)> = ids
        .iter()
        .map(|id| {
            let a = rng.below(frames.len() + 1);
            (*id, a as u32, rng.below(frames.len() - a + 1) as u32)
        })
        .collect();
    let mut how = "as it should be";
    match rng.below(14) {
        0 if !list.is_empty() => {
            how = "frames out of bounds";
            let i = rng.below(list.len());
            let k = *rng.pick(&[1u32, 100, u32::MAX]);
            list[i].2 = (frames.len() as u32 - list[i].1).saturating_add(k);
        }
        1 if !list.is_empty() => {
            how = "frames out of bounds";
            let i = rng.below(list.len());
            list[i].1 = *rng.pick(&[frames.len() as u32 + 1, u32::MAX]);
        }
        2..=3 if list.iter().any(|l| l.2 > 0) => {
            how = "symbols out of bounds";
            let l = *rng.pick(&list.iter().filter(|l| l.2 > 0).copied().collect::<Vec<_>>());
            let f = &mut frames[(l.1 + rng.below(l.2 as usize) as u32) as usize];
            if rng.chance(1, 2) {
                f.1 = *rng.pick(&[symbols.len() as u32 + 1, u32::MAX]);
            } else {
                f.2 = (symbols.len() as u32 - f.1).saturating_add(*rng.pick(&[1, 77, u32::MAX]));
            }
        }
        _ => {}
    }
    let mut counts = [1u32, list.len() as u32, frames.len() as u32, symbols.len() as u32];
    match rng.below(12) {
        0 => {
            how = "another version";
            counts[0] = *rng.pick(&[0, 2, 1 << 24, u32::MAX]);
        }
        1 => {
            how = "counts that do not fit";
            let i = 1 + rng.below(3);
            counts[i] = *rng.pick(&[counts[i] + 1 + (i == 1) as u32, u32::MAX, 1 << 31]);
        }
        _ => {}
    }
    let mut b: Vec<u8> = counts.iter().flat_map(|c| c.to_le_bytes()).collect();
    for l in &list {
        for x in [l.0 as u32, l.1, l.2] {
            b.extend(x.to_le_bytes());
        }
    }
    while b.len() % 8 != 0 {
        b.push(rng.next() as u8);
    }
    for f in &frames {
        b.extend(f.0.to_le_bytes());
        b.extend(f.1.to_le_bytes());
        b.extend(f.2.to_le_bytes());
    }
    b.extend_from_slice(&symbols);
    match rng.below(14) {
        0 => {
            how = "cut off";
            b.truncate(rng.below(b.len()));
        }
        1 => {
            how = "too long";
            let k = 1 + rng.below(20);
            b.extend(rng.bytes(k));
        }
        _ => {}
    }
    let traces = (how == "as it should be").then(|| {
        list.iter()
            .map(|(id, a, n)| {
                let fs = frames[*a as usize..(*a + *n) as usize]
                    .iter()
                    .map(|f| {
                        let s = String::from_utf8_lossy(&symbols[f.1 as usize..(f.1 + f.2) as usize]).into_owned();
                        json!({"instruction_addr": hex(f.0), "function": s, "trust": "prewalked"})
                    })
                    .collect();
                (*id, fs)
            })
            .collect()
    });
    Client { bytes: b, traces, how }
}

// ---------------------------------------------------------------------------------- whole dumps

struct Dump {
    bytes: Vec<u8>,
    rules: Value,
    os: &'static str,
    /// the description, the modules by address and what the client recorded
    what: Option<(Value, Vec<Mod>, Option<Client>)>,
    why: &'static str,
}

/// The container: streams in any order and at any place.
fn container(rng: &mut Rng, mut streams: Vec<(u32, Vec<u8>)>, aligned: bool) -> (Vec<u8>, u32) {
    rng.shuffle(&mut streams);
    let mut b = b"MDMP".to_vec();
    b.extend(0x1234_a793u32.to_le_bytes());
    b.extend((streams.len() as u32).to_le_bytes());
    b.extend([0; 20]);
    let mut dir = vec![];
    let mut odd = 0;
    for (ty, s) in &streams {
        while (aligned && b.len() % 8 != 0) || (!aligned && rng.chance(2, 3)) {
            b.push(0x55);
        }
        if *ty == 0x5379_0001 {
            odd = b.len() as u32 % 8;
        }
        for x in [*ty, s.len() as u32, b.len() as u32] {
            dir.extend(x.to_le_bytes());
        }
        b.extend_from_slice(s);
    }
    let at = b.len() as u32;
    b[12..16].copy_from_slice(&at.to_le_bytes());
    b.extend(dir);
    (b, odd)
}

async fn dump(w: &mut World, rng: &mut Rng, n: &mut Notes) -> Dump {
    let (rules, on) = rewriting(rng);
    let os = *rng.pick(&["linux", "linux", "windows", "windows", "macos", "ios", "android", "solaris", "ps3", "other"]);
    let mut mods = vec![];
    let mut at = *rng.pick(&[0x1000u64, 0x10_0000, 0x7fff_0000_0000]);
    for i in 0..rng.below(6) {
        let room = 0x1000 * (1 + rng.below(8)) as u64;
        let size = *rng.pick(&[room, room, room, room / 2, 0]);
        mods.push(Mod::gen(w, rng, os, at, size, i == 0, &on).await);
        at += room + *rng.pick(&[0, 0, 0x800]);
    }
    // what is dropped must not be the first: another one would be taken for it
    if mods.first().is_some_and(|m| m.debug_id.is_none() && m.dump.get("code_id").is_none()) {
        mods.remove(0);
        if !mods.is_empty() {
            mods[0] = Mod::gen(w, rng, os, mods[0].base, mods[0].size, true, &on).await;
            if mods[0].debug_id.is_none() && mods[0].dump.get("code_id").is_none() {
                mods.clear();
            }
        }
    }
    let mut threads = vec![];
    for i in 0..rng.below(4) {
        let long = rng.chance(1, 10);
        let len = if long { 255 + rng.below(20) } else { rng.below(10) };
        let frames: Vec<Value> = (0..len)
            .map(|_| {
                let a = match rng.below(5) {
                    0 => rng.below(0x10_0000) as u64,
                    _ if mods.is_empty() => rng.below(0x10_0000) as u64,
                    1 => {
                        let m = rng.pick(&mods);
                        *rng.pick(&[m.base, m.base + 1, m.base + m.size, m.base + m.size + 1])
                    }
                    _ => {
                        let m = rng.pick(&mods);
                        m.base + rng.below(m.size.max(0x3000) as usize) as u64
                    }
                };
                json!({"addr": a, "trust": if long && !rng.chance(1, 300) { "fp" } else { *rng.pick(&["fp", "scan"]) }})
            })
            .collect();
        let mut t = json!({"id": i * 1000 + rng.below(1000), "frames": frames});
        if rng.chance(1, 2) {
            t["name"] = json!("wörker");
        }
        for r in ["rip", "rsp", "pc", "eip"] {
            if rng.chance(1, 3) {
                t["registers"][r] = json!(rng.next() >> rng.below(40));
            }
        }
        threads.push(t);
    }
    rng.shuffle(&mut threads);
    let mut v = json!({"os": os, "cpu": *rng.pick(&["x86", "amd64", "ppc", "ppc64", "arm", "arm64", "mips", "mips64", "sparc", "other"]), "time": rng.below(2_000_000_000), "threads": threads});
    if rng.chance(1, 2) {
        v["os_version"] = json!("10.0.1");
    }
    if rng.chance(1, 2) {
        v["os_build"] = json!("build ü");
    }
    if rng.chance(2, 3) {
        v["exception"] = json!({"reason": *rng.pick(&["SIGSEGV", "EXCEPTION_ACCESS_VIOLATION", ""]), "address": rng.next() >> rng.below(64)});
    }
    if rng.chance(1, 3) {
        v["assertion"] = json!("x == y ❤");
    }
    if rng.chance(2, 3) {
        v["requesting_thread"] = json!(rng.below(4));
    }
    let mut shuffled: Vec<Value> = mods.iter().map(|m| m.dump.clone()).collect();
    rng.shuffle(&mut shuffled);
    v["modules"] = json!(shuffled);
    let c = rng.chance(3, 5).then(|| client(rng, &mods, v["threads"].as_array().unwrap()));
    let mut why = "";
    match rng.below(20) {
        0 => {
            why = "no system";
            v.as_object_mut().unwrap().remove("os");
        }
        1 => {
            why = "no threads";
            v.as_object_mut().unwrap().remove("threads");
        }
        _ => {}
    }
    let mut streams = vec![(0x4a53_0001, v.to_string().into_bytes()), (77, rng.bytes(5))];
    if let Some(c) = &c {
        streams.push((0x5379_0001, c.bytes.clone()));
    }
    let aligned = rng.chance(1, 3);
    let (mut bytes, odd) = container(rng, streams, aligned);
    match rng.below(24) {
        0 => {
            why = "another kind of file";
            bytes[0] = b'X';
        }
        1 => {
            why = "cut off";
            bytes.truncate(rng.below(bytes.len()));
        }
        2 => {
            why = "nothing";
            bytes.clear();
        }
        _ => {}
    }
    if let Some(c) = c.as_ref().filter(|_| why.is_empty()) {
        n.count(&format!("streams of clients: {}", c.how));
        if odd != 0 {
            n.count("streams of clients at odd places");
        }
    }
    n.count(&if why.is_empty() { "minidumps".to_string() } else { format!("broken minidumps: {why}") });
    Dump { bytes, rules, os, what: why.is_empty().then_some((v, mods, c)), why }
}

fn os_name(os: &str) -> &'static str {
    match os {
        "windows" => "Windows",
        "macos" => "macOS",
        "ios" => "iOS",
        "linux" => "Linux",
        "android" => "Android",
        "solaris" => "Solaris",
        "ps3" => "PS3",
        _ => "",
    }
}

/// Overlays what symbolication found on what unwinding found.
fn overlay(mut m: Value, cand: &Value, feat: &Value) -> Value {
    let mut all: BTreeMap<(String, String), Value> = BTreeMap::new();
    let key = |c: &Value| (c["source"].as_str().unwrap().to_string(), c["location"].as_str().unwrap().to_string());
    for c in cand.as_array().unwrap() {
        all.insert(key(c), c.clone());
    }
    for c in m["candidates"].as_array().into_iter().flatten() {
        let e = all.entry(key(c)).or_insert_with(|| json!({}));
        for (k, v) in c.as_object().unwrap() {
            e[k] = v.clone();
        }
    }
    if !all.is_empty() {
        m["candidates"] = all.into_values().collect();
    }
    m["features"] = features(&m["features"], feat);
    m
}

impl Dump {
    /// The answer by a model of unwinding, and by symbolicating what it yields.
    async fn expect(&self, w: &World, n: &mut Notes) -> Option<Value> {
        let (v, mods, client) = self.what.as_ref()?;
        let mut mods = mods.clone();
        let mut traces = vec![];
        for (ti, t) in v["threads"].as_array().unwrap().iter().enumerate() {
            let mut out: Vec<(u64, u64, Option<usize>, &str)> = vec![];
            for f in t["frames"].as_array().unwrap() {
                let addr = f["addr"].as_u64().unwrap();
                let mut trust = "context";
                if let Some((_, at, m, _)) = out.last() {
                    trust = if f["trust"] == "fp" { "fp" } else { "scan" };
                    if let Some(m) = m {
                        mods[*m].touched = true;
                        if mods[*m].knows(*at) {
                            trust = "cfi";
                        }
                    }
                }
                let at = if trust == "context" { addr } else { addr.saturating_sub(1) };
                let m = mods.iter().position(|m| m.has(at));
                if let Some(m) = m {
                    mods[m].touched = true;
                    if trust == "scan" && mods[m].cfi.as_ref().is_some_and(|c| !c.is_empty()) && !mods[m].knows(at) {
                        n.count("scanned frames rejected");
                        continue;
                    }
                } else if trust == "scan" {
                    continue;
                }
                n.count(&format!("frames by {trust}"));
                out.push((addr, at, m, trust));
            }
            if out.len() > 256 {
                n.count("threads that are too long");
            }
            let frames: Vec<Value> = out
                .iter()
                .take(256)
                .map(|(a, _, m, trust)| {
                    let mut f = json!({"instruction_addr": hex(*a), "trust": trust});
                    if let Some(c) = m.and_then(|m| mods[m].code_file.clone()) {
                        f["package"] = json!(c);
                    }
                    f
                })
                .collect();
            let mut r = json!({"thread_id": t["id"], "frames": frames});
            if let Some(x) = t.get("name") {
                r["thread_name"] = x.clone();
            }
            if let Some(x) = v.get("requesting_thread") {
                r["is_requesting"] = json!(x.as_u64().unwrap() == ti as u64);
            }
            if !out.is_empty() {
                for (k, x) in t["registers"].as_object().into_iter().flatten() {
                    r["registers"][k] = hex(x.as_u64().unwrap());
                }
            }
            if let Some(c) = client.as_ref().and_then(|c| c.traces.as_ref()).and_then(|c| c.get(&t["id"].as_u64().unwrap())) {
                if !c.is_empty() {
                    n.count("threads of the client");
                    r["frames"] = json!(c);
                }
            }
            traces.push(r);
        }
        let kept: Vec<&Mod> = mods.iter().filter(|m| m.touched || m.debug_id.is_some() || m.dump.get("code_id").is_some()).collect();
        let ty = match self.os {
            "windows" => "pe",
            "macos" | "ios" => "macho",
            "linux" | "android" | "solaris" => "elf",
            _ => "unknown",
        };
        let infos: Vec<CompleteObjectInfo> = kept
            .iter()
            .map(|m| {
                let i: RawObjectInfo = serde_json::from_value(m.info(ty)).unwrap();
                let mut i = CompleteObjectInfo::from(i);
                let status = if m.touched { m.status } else { "unused" };
                n.count(&format!("modules: {status}"));
                if m.touched && m.debug_id.is_none() && m.backfill.is_some() {
                    n.count("modules identified by their unwind information");
                }
                i.unwind_status = Some(serde_json::from_value::<ObjectFileStatus>(json!(status)).unwrap());
                i
            })
            .collect();
        let req = SymbolicateStacktraces {
            platform: None,
            scope: crate::kit::scope("tenant"),
            signal: None,
            sources: w.srcs.clone(),
            origin: StacktraceOrigin::Minidump,
            stacktraces: serde_json::from_value(json!(traces)).unwrap(),
            modules: infos,
            apply_source_context: true,
            scraping: ScrapingConfig::default(),
            rewrite_first_module: serde_json::from_value(self.rules.clone()).unwrap(),
        };
        let mut want = serde_json::to_value(w.actor.symbolicate(req).await.unwrap()).unwrap();
        for (i, m) in kept.iter().enumerate().filter(|m| m.1.touched) {
            want["modules"][i] = overlay(want["modules"][i].take(), &m.candidates, &m.features);
        }
        let arch = match v["cpu"].as_str().unwrap() {
            "amd64" => json!("x86_64"),
            "sparc" | "other" => want["modules"].as_array().unwrap().iter().map(|m| m["arch"].clone()).find(|a| a != "unknown").unwrap_or(json!("unknown")),
            a => json!(a),
        };
        let text = |k: &str| v[k].as_str().unwrap_or("").to_string();
        want["system_info"] = json!({"os_name": os_name(self.os), "os_version": text("os_version"), "os_build": text("os_build"), "cpu_arch": arch, "device_model": ""});
        want["timestamp"] = v["time"].clone();
        want["crashed"] = json!(v.get("exception").is_some());
        let e = &v["exception"];
        want["crash_reason"] = json!(e.as_object().map(|_| format!("{} / {:#x}", e["reason"].as_str().unwrap(), e["address"].as_u64().unwrap())).unwrap_or_default());
        want["assertion"] = json!(text("assertion"));
        Some(want)
    }
}

async fn process(w: &World, actor: &SymbolicationActor, d: &Dump, want: &Option<Value>, tmp: &Path, stage: &str) -> Notes {
    let mut n = Notes::default();
    let mut file = tempfile::NamedTempFile::new_in(tmp).unwrap();
    file.write_all(&d.bytes).unwrap();
    let path = file.path().to_path_buf();
    let req = ProcessMinidump {
        platform: None,
        scope: crate::kit::scope("tenant"),
        minidump_file: file.into_temp_path(),
        sources: w.srcs.clone(),
        scraping: ScrapingConfig::default(),
        rewrite_first_module: serde_json::from_value(d.rules.clone()).unwrap(),
    };
    let got = actor.process_minidump(req).await;
    if path.exists() {
        n.bad.push(("a minidump stays behind where it was uploaded".into(), json!({"stage": stage, "why": d.why})));
    }
    // failed ones are kept for diagnosis
    let kept = w.cfg.cache_dir("diagnostics").unwrap().join(path.file_name().unwrap());
    let kept = std::fs::read(kept).ok();
    match (got, want) {
        (Ok(r), Some(want)) => {
            let got = serde_json::to_value(&r).unwrap();
            let mut out = vec![];
            diff("answer", want, &got, &mut out);
            if !out.is_empty() {
                let c = d.what.as_ref().unwrap().2.as_ref();
                n.bad.push((
                    format!("a minidump is not answered with what is in it: {}", last_key(&out)),
                    json!({"stage": stage, "differences": out, "rules": d.rules, "dump": d.what.as_ref().unwrap().0, "client": c.map(|c| json!([c.how, c.traces]))}),
                ));
            }
            if kept.is_some() {
                n.bad.push(("a processed minidump is kept".into(), json!({"stage": stage})));
            }
        }
        (Ok(_), None) => n.bad.push(("a broken minidump is processed".into(), json!({"why": d.why}))),
        (Err(e), Some(_)) => n.bad.push(("a minidump is not processed".into(), json!({"error": e.to_string(), "stage": stage, "dump": d.what.as_ref().unwrap().0}))),
        (Err(_), None) => {
            if kept.as_ref() != Some(&d.bytes) {
                n.bad.push(("a minidump that cannot be processed is not kept for diagnosis".into(), json!({"why": d.why, "kept": kept.is_some()})));
            }
            n.count("failed minidumps kept");
        }
    }
    n.count("minidumps processed");
    n
}

// ----------------------------------------------------------------------------- Apple's crash reports

async fn apple(w: &mut World, rng: &mut Rng, n: &mut Notes) {
    let mut images = vec![];
    let mut infos: Vec<RawObjectInfo> = vec![];
    let mut at = 0x1_0000_0000u64;
    for i in 0..rng.below(4) {
        let uuid = Uuid::from_slice(&rng.bytes(16)).unwrap();
        let size = *rng.pick(&[0x4000u64, 0x1000, 0]);
        let path = rng.pick(&["/usr/lib/libsystem{}.dylib", "/Applications/Ünï.app/{}", "{}"]).replace("{}", &i.to_string());
        let info = json!({"type": "macho", "code_id": uuid.simple().to_string(), "debug_id": DebugId::from_uuid(uuid).to_string(), "code_file": path, "debug_file": path, "image_addr": hex(at)});
        let mut info: RawObjectInfo = serde_json::from_value(info).unwrap();
        info.image_size = (size > 0).then_some(size);
        let id = ObjectId {
            code_id: Some(CodeId::new(uuid.simple().to_string())),
            code_file: Some(path.clone()),
            debug_id: Some(DebugId::from_uuid(uuid)),
            debug_file: Some(path.clone()),
            debug_checksum: None,
            object_type: ObjectType::Macho,
        };
        for f in w.list(FileType::from_object_type(ObjectType::Macho), &id).await {
            let s = if rng.chance(1, 2) { Serve::Plain(Sym::gen(rng).text(DebugId::from_uuid(uuid))) } else { Serve::Status(404) };
            w.put(&f, || s);
        }
        images.push(json!({"addr": at, "size": size, "uuid": uuid.to_string(), "path": path}));
        infos.push(info);
        at += 0x4000 * (1 + rng.below(3)) as u64;
    }
    let (mut threads, mut traces) = (vec![], vec![]);
    for i in 0..rng.below(4) {
        let mut frames = vec![];
        let mut raw = vec![];
        for _ in 0..rng.below(8) {
            let a = 0x1_0000_0000u64 + rng.below(0xc000) as u64;
            let mut f = json!({"addr": a});
            let mut r = json!({"instruction_addr": hex(a)});
            if rng.chance(2, 3) {
                f["module"] = json!("libsystem.dylib");
                r["package"] = json!("libsystem.dylib");
            }
            frames.push(f);
            raw.push(r);
        }
        let crashed = rng.chance(1, 3);
        let id = i + rng.below(10) * 10;
        let mut t = json!({"id": id, "crashed": crashed, "frames": frames});
        let mut r = json!({"thread_id": id, "is_requesting": crashed, "frames": raw});
        if rng.chance(1, 2) {
            t["name"] = json!("com.apple.main-thread");
            r["thread_name"] = json!("com.apple.main-thread");
        }
        if rng.chance(1, 2) {
            for k in ["rip", "pc", "x0"] {
                let x = if rng.chance(1, 2) { 0x1_0000_0000 + rng.below(0x4000) as u64 } else { rng.next() };
                t["registers"][k] = json!(x);
                r["registers"][k] = hex(x);
            }
        }
        threads.push(t);
        traces.push(r);
    }
    let mut rep = json!({"threads": threads, "images": images});
    let mut meta = json!({"Process": "x", "Exception Note": "none of these"});
    let time = rng.chance(1, 2).then(|| rng.below(2_000_000_000));
    if let Some(t) = time {
        rep["timestamp"] = json!(t);
    }
    let (code, mut arch) = *rng.pick(&[("X86-64 (Native)", "x86_64"), ("ARM-64", "arm64"), ("X86-64", "x86_64"), ("ARM-64 (Translated)", "arm64"), ("unheard of", ""), ("", ""), ("-", "")]);
    if code != "-" {
        rep["code_type"] = json!(code);
    }
    let mut sys = json!({"os_name": "", "os_version": "", "os_build": "", "device_model": ""});
    let (os, name, version, build) = *rng.pick(&[
        ("Mac OS X 10.14.6 (18G87)", "macOS", "10.14.6", ""),
        ("Mac OS X 10.14.6 (18a87)", "macOS", "10.14.6", "18a87"),
        ("Mac OS X 10.14.6 (18BF)", "macOS", "10.14.6", "18BF"),
        ("Mac OS X 10.14.0", "macOS", "10.14.0", ""),
        ("Mac OS X 10.14", "Mac OS X 10.14", "", ""),
        ("iPhone OS 12.0 (16A366)", "iPhone OS 12.0 (16A366)", "", ""),
        ("a Mac OS X 10.14.0", "a Mac OS X 10.14.0", "", ""),
        ("Mac OS X 10.14.0 (1f) x", "Mac OS X 10.14.0 (1f) x", "", ""),
        ("", "", "", ""),
    ]);
    if !os.is_empty() {
        meta["OS Version"] = json!(os);
        // builds are hexadecimal in what Unreal Engine sends; others are left as they are
        let odd = os.ends_with("(18G87)");
        sys["os_name"] = json!(if odd { os } else { name });
        sys["os_version"] = json!(if odd { "" } else { version });
        sys["os_build"] = json!(build);
    }
    if rng.chance(1, 2) {
        meta["Hardware Model"] = json!("MacBookPro14,3");
        sys["device_model"] = json!("MacBookPro14,3");
    }
    let mut want_reason = None;
    if rng.chance(2, 3) {
        want_reason = Some("EXC_BAD_ACCESS (SIGSEGV)");
        meta["Exception Type"] = json!(want_reason);
    }
    let mut details: Option<String> = None;
    for k in ["Exception Codes", "Exception Subtype", "Exception Message"] {
        if rng.chance(1, 3) {
            meta[k] = json!(format!("the {k}"));
            details = Some(format!("the {k}"));
        }
    }
    if rng.chance(1, 4) {
        rep["information"] = json!("abort() called");
        details = Some("abort() called".into());
    }
    rep["metadata"] = meta;
    let mut text = rep.to_string();
    let broken = rng.chance(1, 12);
    if broken {
        text.pop();
    }
    let mut f = tempfile::tempfile().unwrap();
    f.write_all(text.as_bytes()).unwrap();
    f.rewind().unwrap();
    let sc = crate::kit::scope("tenant");
    let got = w.actor.process_apple_crash_report(None, sc.clone(), f, w.srcs.clone(), ScrapingConfig::default()).await;
    n.count(if broken { "broken Apple reports" } else { "Apple reports" });
    let got = match got {
        Err(e) => {
            if !broken {
                n.bad.push(("a crash report is not processed".into(), json!({"error": e.to_string(), "report": rep})));
            }
            return;
        }
        Ok(_) if broken => {
            n.bad.push(("a broken crash report is processed".into(), json!(text)));
            return;
        }
        Ok(r) => serde_json::to_value(r).unwrap(),
    };
    let req = SymbolicateStacktraces {
        platform: None,
        scope: sc,
        signal: None,
        sources: w.srcs.clone(),
        origin: StacktraceOrigin::AppleCrashReport,
        stacktraces: serde_json::from_value(json!(traces)).unwrap(),
        modules: infos.into_iter().map(From::from).collect(),
        apply_source_context: true,
        scraping: ScrapingConfig::default(),
        rewrite_first_module: Default::default(),
    };
    let mut want = serde_json::to_value(w.actor.symbolicate(req).await.unwrap()).unwrap();
    let found;
    if arch.is_empty() {
        found = want["modules"].as_array().unwrap().iter().map(|m| m["arch"].as_str().unwrap().to_string()).find(|a| a != "unknown").unwrap_or("unknown".into());
        arch = &found;
    }
    sys["cpu_arch"] = json!(arch);
    want["system_info"] = sys;
    want["crashed"] = json!(true);
    for (k, v) in [("timestamp", json!(time)), ("crash_reason", json!(want_reason)), ("crash_details", json!(details))] {
        if !v.is_null() {
            want[k] = v;
        }
    }
    let mut out = vec![];
    diff("answer", &want, &got, &mut out);
    if !out.is_empty() {
        n.bad.push((format!("a crash report is not answered with what is in it: {}", last_key(&out)), json!({"differences": out, "report": rep})));
    }
}

async fn case58(mut rng: Rng, name: String, dir: PathBuf, base: String, files: Files, handle: tokio::runtime::Handle) -> Notes {
    let rng = &mut rng;
    let mut n = Notes::default();
    let mut w = World::new(rng, name, &dir, &base, files, &handle);
    let tmp = dir.join("cache").join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    let mut dumps = vec![];
    for _ in 0..2 {
        dumps.push(dump(&mut w, rng, &mut n).await);
    }
    let mut wants = vec![];
    // the answers must not depend on which of the two ways is gone first
    let before = rng.chance(1, 2);
    if before {
        for d in &dumps {
            wants.push(d.expect(&w, &mut n).await);
        }
    }
    let mut results = vec![];
    if !before {
        // no answer to compare with yet: only how it ends
        for d in &dumps {
            let mut f = tempfile::NamedTempFile::new_in(&tmp).unwrap();
            f.write_all(&d.bytes).unwrap();
            let req = ProcessMinidump {
                platform: None,
                scope: crate::kit::scope("tenant"),
                minidump_file: f.into_temp_path(),
                sources: w.srcs.clone(),
                scraping: ScrapingConfig::default(),
                rewrite_first_module: serde_json::from_value(d.rules.clone()).unwrap(),
            };
            results.push(w.actor.process_minidump(req).await.ok().map(|r| serde_json::to_value(r).unwrap()));
        }
        for d in &dumps {
            wants.push(d.expect(&w, &mut n).await);
        }
        for (r, want) in results.iter().zip(&wants) {
            let mut out = vec![];
            diff("answer", &json!(want), &json!(r), &mut out);
            if !out.is_empty() {
                n.bad.push((format!("a minidump is not answered with what is in it: {}", last_key(&out)), json!({"stage": "first", "differences": out})));
            }
        }
    }
    n.evals += 1;
    let all = futures::future::join_all(dumps.iter().zip(&wants).map(|(d, want)| process(&w, &w.actor, d, want, &tmp, "at once"))).await;
    for x in all {
        n.bad.extend(x.bad);
        for (k, c) in x.counts {
            *n.counts.entry(k).or_insert(0) += c;
        }
    }
    if rng.chance(1, 3) {
        let svc = services(&w.cfg, &handle);
        let actor = SymbolicationActor::new(&svc);
        for (d, want) in dumps.iter().zip(&wants) {
            let x = process(&w, &actor, d, want, &tmp, "after a restart").await;
            n.bad.extend(x.bad);
        }
        n.count("answers after a restart");
    }
    apple(&mut w, rng, &mut n).await;
    for d in &dumps {
        if let Some((v, m, c)) = &d.what {
            n.seen.insert(format!("{} {} modules {} threads {} client {:?}", d.os, v["cpu"], m.len(), v["threads"].as_array().unwrap().len(), c.as_ref().map(|c| c.how)));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    n
}

pub fn c58(ctx: &Ctx) -> Report {
    let mut rep = Report::new("crash reports are answered with what a model of unwinding and the symbolication of its frames yield");
    rounds(ctx, &mut rep, 0x58, "c58", case58);
    for k in [
        "minidumps processed",
        "failed minidumps kept",
        "frames by context",
        "frames by cfi",
        "frames by fp",
        "frames by scan",
        "scanned frames rejected",
        "threads that are too long",
        "threads of the client",
        "streams of clients at odd places",
        "streams of clients: frames out of bounds",
        "streams of clients: symbols out of bounds",
        "streams of clients: cut off",
        "streams of clients: another version",
        "streams of clients: counts that do not fit",
        "modules: found",
        "modules: missing",
        "modules: malformed",
        "modules: fetching_failed",
        "modules: unused",
        "modules identified by their unwind information",
        "Apple reports",
        "answers after a restart",
    ] {
        rep.require(k, 5);
    }
    rep
}
