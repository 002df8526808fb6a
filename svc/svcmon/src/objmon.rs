//! Monitors of the objects service: C44 (finding and fetching), C34 (isolation of scopes).
use crate::common::{Ctx, Report, Rng};
use crate::dlmon::{dl_config, gz, http_source, merge, source};
use crate::kit::*;
use crate::mock::*;
use crate::objs::{self, Kind};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use symbolic::common::{CodeId, DebugId};
use symbolic::debuginfo::Archive;
use symbolicator_service::caching::{CacheContents, CacheError};
use symbolicator_service::download::{list_files_in_scope, DownloadService};
use symbolicator_service::objects::*;
use symbolicator_service::services::SharedServices;
use symbolicator_service::types::Scope;
use symbolicator_sources::*;

// ------------------------------------------------------------------------------------- the model

pub type Feat = (bool, bool, bool, bool);

pub fn feat(f: &ObjectFeatures) -> Feat {
    (f.has_debug_info, f.has_unwind_info, f.has_symbols, f.has_sources)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pred {
    Ok(Arc<Vec<u8>>, Feat),
    NotFound,
    Malformed,
    Perm(String),
    Error(String),
}

impl Pred {
    fn name(&self) -> String {
        match self {
            Pred::Ok(b, f) => format!("ok({} bytes, {f:?})", b.len()),
            p => format!("{p:?}"),
        }
    }
}

fn same_object(o: &symbolic::debuginfo::Object<'_>, id: &ObjectId) -> bool {
    if let Some(d) = id.debug_id {
        return o.debug_id().uuid() == d.uuid() && o.debug_id().appendix() >= d.appendix();
    }
    match (&id.code_id, o.code_id()) {
        (Some(a), Some(b)) => *a == b,
        _ => true,
    }
}

/// What a file with these contents is to a request for `id`.
pub fn predict(bytes: &[u8], id: &ObjectId) -> Pred {
    let ok = |o: &symbolic::debuginfo::Object<'_>| {
        Pred::Ok(Arc::new(o.data().to_vec()), (o.has_debug_info(), o.has_unwind_info(), o.has_symbols(), o.has_sources()))
    };
    let Ok(archive) = Archive::parse(bytes) else { return Pred::Malformed };
    if !archive.is_multi() {
        return match archive.object_by_index(0) {
            Ok(Some(o)) => {
                let Pred::Ok(_, f) = ok(&o) else { unreachable!() };
                Pred::Ok(Arc::new(bytes.to_vec()), f)
            }
            Ok(None) => Pred::Malformed,
            Err(_) => Pred::Malformed,
        };
    }
    let objects: Vec<_> = archive.objects().collect();
    if let Some(o) = objects.iter().filter_map(|o| o.as_ref().ok()).find(|o| same_object(o, id)) {
        return ok(o);
    }
    if objects.iter().any(|o| o.is_err()) {
        Pred::Malformed
    } else {
        Pred::NotFound
    }
}

#[derive(Clone, Debug)]
pub enum Serve {
    Plain(Vec<u8>),
    Packed(Vec<u8>),
    Status(u16),
}

impl Serve {
    pub fn resp(&self) -> Resp {
        match self {
            Serve::Plain(b) => Resp::ok(b.clone()),
            Serve::Packed(b) => Resp::ok(gz(b)),
            Serve::Status(s) => Resp::new(*s, "an error page"),
        }
    }
    pub fn predict(&self, id: &ObjectId) -> Pred {
        match self {
            Serve::Plain(b) | Serve::Packed(b) => predict(b, id),
            Serve::Status(401) => Pred::Perm("401 Unauthorized".into()),
            Serve::Status(403) => Pred::Perm("403 Forbidden".into()),
            Serve::Status(500) => Pred::Error(CacheError::DownloadError("500 Internal Server Error".into()).to_string()),
            Serve::Status(503) => Pred::Error(CacheError::DownloadError("503 Service Unavailable".into()).to_string()),
            Serve::Status(_) => Pred::NotFound,
        }
    }
}

/// A file the request has to look at: its source, its location and what comes of it.
#[derive(Clone, Debug)]
pub struct Known {
    pub source: String,
    pub uri: String,
    pub pred: Pred,
}

fn rank(p: &Pred, purpose: ObjectPurpose) -> Option<u8> {
    match p {
        Pred::Ok(_, (debug, unwind, symbols, sources)) => match purpose {
            ObjectPurpose::Unwind => unwind.then_some(0),
            ObjectPurpose::Source => sources.then_some(0),
            ObjectPurpose::Debug if *debug => Some(0),
            ObjectPurpose::Debug => symbols.then_some(1),
        },
        _ => Some(9),
    }
}

pub fn best(files: &[Known], purpose: ObjectPurpose) -> Option<&Known> {
    let mut found: Option<(u8, &Known)> = None;
    for f in files {
        let Some(r) = rank(&f.pred, purpose) else { continue };
        if found.is_none_or(|(q, _)| r < q) {
            found = Some((r, f));
        }
    }
    found.map(|x| x.1)
}

pub fn download_json(p: &Pred) -> Value {
    match p {
        Pred::Ok(_, (d, u, s, c)) => {
            json!({"status": "ok", "features": {"has_debug_info": d, "has_unwind_info": u, "has_symbols": s, "has_sources": c}})
        }
        Pred::NotFound => json!({"status": "notfound"}),
        Pred::Malformed => json!({"status": "malformed"}),
        Pred::Perm(d) => json!({"status": "noperm", "details": d}),
        Pred::Error(d) => json!({"status": "error", "details": d}),
    }
}

/// The candidates as they appear in a response.
pub fn candidates(sources: &[String], files: &[Known]) -> Value {
    let mut all: BTreeMap<(String, String), Value> = BTreeMap::new();
    for f in files {
        all.entry((f.source.clone(), f.uri.clone())).or_insert_with(|| download_json(&f.pred));
    }
    for s in sources {
        if !files.iter().any(|f| f.source == *s) {
            all.insert((s.clone(), "No object files listed on this source".into()), json!({"status": "notfound"}));
        }
    }
    all.into_iter().map(|((s, l), d)| json!({"source": s, "location": l, "download": d})).collect()
}

fn handle_pred(h: &CacheContents<Arc<ObjectMetaHandle>>) -> Value {
    match h {
        Ok(h) => {
            let (d, u, s, c) = feat(&h.features());
            json!({"status": "ok", "features": {"has_debug_info": d, "has_unwind_info": u, "has_symbols": s, "has_sources": c}})
        }
        Err(CacheError::NotFound) => json!({"status": "notfound"}),
        Err(CacheError::Malformed(_)) => json!({"status": "malformed"}),
        Err(CacheError::PermissionDenied(d)) => json!({"status": "noperm", "details": d}),
        Err(e) => json!({"status": "error", "details": e.to_string()}),
    }
}

/// Runs `find`, and `fetch` on what it selects, and compares both with the model.
async fn ask(objects: &ObjectsActor, req: FindObject, ids: &[String], files: &[Known]) -> Vec<(String, Value)> {
    let purpose = req.purpose;
    let identifier = req.identifier.clone();
    let scope_ = req.scope.clone();
    let res = objects.find(req).await;
    let mut bad = vec![];
    let brief = || json!({"purpose": format!("{purpose:?}"), "scope": scope_.to_string(), "files": files.iter().map(|f| format!("{} {} -> {}", f.source, f.uri, f.pred.name())).collect::<Vec<_>>()});
    let got = serde_json::to_value(&res.candidates).unwrap();
    let want = candidates(ids, files);
    if got != want {
        bad.push(("the candidates are not the listed files and what came of them".to_string(), json!({"want": want, "got": got, "case": brief()})));
    }
    let want = best(files, purpose);
    match (&res.meta, want) {
        (None, None) => {}
        (Some(m), Some(w)) => {
            let (s, u) = (m.file_source.source_id().to_string(), m.file_source.uri().to_string());
            if (&s, &u) != (&w.source, &w.uri) {
                bad.push((
                    "not the best file is selected".into(),
                    json!({"want": [w.source, w.uri, w.pred.name()], "got": [s, u, handle_pred(&m.handle)], "case": brief()}),
                ));
            } else if handle_pred(&m.handle) != download_json(&w.pred) {
                bad.push(("the selected file is described wrongly".into(), json!({"want": w.pred.name(), "got": handle_pred(&m.handle), "case": brief()})));
            } else if let (Ok(h), Pred::Ok(bytes, _)) = (&m.handle, &w.pred) {
                if h.object_id().debug_id != identifier.debug_id || h.object_id().code_id != identifier.code_id {
                    bad.push(("the handle is for another identifier".into(), brief()));
                }
                match objects.fetch(h.clone()).await {
                    Ok(o) => {
                        if o.data()[..] != bytes[..] {
                            bad.push((
                                "the fetched object is not the one served".into(),
                                json!({"want": bytes.len(), "got": o.data().len(), "uri": w.uri, "case": brief()}),
                            ));
                        } else if (o.object().has_debug_info(), o.object().has_unwind_info(), o.object().has_symbols(), o.object().has_sources())
                            != feat(&h.features())
                        {
                            bad.push(("the object does not have the features announced".into(), brief()));
                        }
                    }
                    Err(e) => bad.push(("a found object cannot be fetched".into(), json!({"error": e.to_string(), "uri": w.uri, "case": brief()}))),
                }
            }
        }
        (m, w) => bad.push((
            "not the best file is selected".into(),
            json!({"want": w.map(|w| w.pred.name()), "got": m.as_ref().map(|m| m.file_source.uri().to_string()), "case": brief()}),
        )),
    }
    bad
}

pub fn services(cfg: &symbolicator_service::config::Config, h: &tokio::runtime::Handle) -> SharedServices {
    SharedServices::new(cfg.clone(), h.clone()).expect("services")
}

fn with_stack(mut o: objs::Obj) -> objs::Obj {
    o.bytes.extend_from_slice(b"STACK CFI INIT 1000 10 .cfa: $rsp 8 + .ra: .cfa -8 + ^\n");
    o
}

/// Contents of a file some request may find.
fn contents(rng: &mut Rng, target: &objs::Obj) -> Vec<u8> {
    match rng.below(14) {
        0..=2 => target.bytes.clone(),
        3 => objs::any(rng).bytes,
        4 => {
            let id = objs::id16(rng);
            objs::elf(rng, &id, Kind::Debug).bytes
        }
        5 => {
            let id = objs::id16(rng);
            objs::elf(rng, &id, Kind::Executable).bytes
        }
        6 => {
            let id = objs::id16(rng);
            let o = objs::breakpad(rng, id, 0, None, &[]);
            if rng.chance(2, 3) {
                with_stack(o).bytes
            } else {
                o.bytes
            }
        }
        7 if target.debug_id.is_some() => objs::sourcebundle(rng, target).bytes,
        7 | 8 | 9 => {
            // several architectures, with or without the one asked for
            let mut slices: Vec<objs::Obj> = vec![];
            let n = 2 + rng.below(2);
            let with = if target.fmt == "macho" && rng.chance(3, 4) { rng.below(n) } else { n };
            for i in 0..n {
                let id = objs::id16(rng);
                let k = if rng.chance(1, 2) { Kind::Debug } else { Kind::Executable };
                slices.push(if i == with { target.clone() } else { objs::macho(rng, id, k, Some(i)) });
            }
            if rng.chance(1, 4) {
                let k = rng.below(n);
                let keep = 4 + rng.below(60);
                slices[k].bytes.truncate(keep.max(12));
                let l = slices[k].bytes.len();
                slices[k].bytes[l - 1] ^= 0x55;
            }
            objs::fat(rng, &slices)
        }
        10 => objs::noise(rng),
        11 => {
            let mut b = target.bytes.clone();
            let n = rng.below(b.len());
            b.truncate(n);
            b
        }
        12 => b"this is not an object at all".to_vec(),
        _ => target.bytes.clone(),
    }
}

/// Contents which `fetch_file` hands on as they are.
fn untouched(b: &[u8]) -> bool {
    let magic: [&[u8]; 7] = [b"\x1f\x8b", b"\x28\xb5\x2f\xfd", b"\x78\x01", b"\x78\x9c", b"\x78\xda", b"PK", b"MSCF"];
    !b.is_empty() && !magic.iter().any(|m| b.starts_with(m))
}

fn target(rng: &mut Rng) -> objs::Obj {
    if rng.chance(1, 3) {
        let id = objs::id16(rng);
        let k = if rng.chance(1, 2) { Kind::Debug } else { Kind::Executable };
        objs::macho(rng, id, k, None)
    } else {
        objs::any(rng)
    }
}

fn identifier(rng: &mut Rng, o: &objs::Obj) -> ObjectId {
    let mut id = ObjectId {
        code_id: o.code_id.clone(),
        code_file: Some("/usr/lib/libcrash.so".into()),
        debug_id: o.debug_id,
        debug_file: Some("C:\\build\\crash.pdb".into()),
        debug_checksum: None,
        object_type: o.object_type,
    };
    match rng.below(6) {
        0 if id.code_id.is_some() => id.debug_id = None,
        1 if id.debug_id.is_some() => id.code_id = None,
        2 if id.debug_id.is_some() => id.debug_id = Some(DebugId::from_parts(o.debug_id.unwrap().uuid(), rng.below(3) as u32)),
        3 if id.debug_id.is_some() && id.code_id.is_some() => id.code_id = Some(CodeId::from_binary(&rng.bytes(16))),
        _ => {}
    }
    id
}

fn asked_types(rng: &mut Rng, o: &objs::Obj) -> &'static [FileType] {
    match rng.below(5) {
        0 => FileType::all(),
        1 => FileType::sources(),
        _ => FileType::from_object_type(o.object_type),
    }
}

fn purpose(rng: &mut Rng) -> ObjectPurpose {
    *rng.pick(&[ObjectPurpose::Debug, ObjectPurpose::Unwind, ObjectPurpose::Source])
}

const LAYOUTS: [&str; 9] =
    ["native", "symstore", "symstore_index2", "ssqp", "unified", "debuginfod", "slashsymbols", "symstore", "native"];

// =============================================================================================== C44

pub fn c44(ctx: &Ctx) -> Report {
    let mut rep = Report::new("find selects and describes the listed files as a model of the served contents does; fetch yields the served object");
    let rt = rt(6);
    let files: Arc<Mutex<HashMap<String, Serve>>> = Default::default();
    let hits: Arc<Mutex<HashMap<String, usize>>> = Default::default();
    let (f2, h2) = (files.clone(), hits.clone());
    let mock = Mock::start(move |h| {
        *h2.lock().unwrap().entry(h.target.clone()).or_insert(0) += 1;
        f2.lock().unwrap().get(&h.target).map(|s| s.resp()).unwrap_or_else(|| Resp::new(404, "nothing here"))
    });
    let mut rng = Rng::new(ctx.seed ^ 0x44);
    let mut round = 0u64;
    while ctx.time_left() && rep.violations.len() < 25 {
        round += 1;
        let batch: Vec<_> = (0..8)
            .map(|b| {
                let r = Rng::new(rng.next());
                let dir = scratch(&ctx.work, "c44");
                rt.spawn(case44(r, format!("r{round}b{b}"), dir, mock.url(""), files.clone(), hits.clone(), rt.handle().clone()))
            })
            .collect();
        for t in batch {
            match rt.block_on(t) {
                Ok(n) => n.into_report(&mut rep),
                Err(e) => rep.violate("the code under test crashed", json!({ "panic": e.to_string() })),
            }
        }
        files.lock().unwrap().clear();
        hits.lock().unwrap().clear();
        for _ in 0..20 {
            candidates44(&mut rng, &mut rep);
        }
    }
    let counted = |k: &str| rep.counters.get(k).copied().unwrap_or(0);
    let (from, despite) = (counted("objects from the shared cache"), counted("objects downloaded despite the shared cache"));
    if despite > 5 && despite * 2 > from {
        rep.violate("objects another instance has stored are downloaded again", json!({"from the shared cache": from, "downloaded": despite}));
    }
    rep.require("objects from the shared cache", 5);
    for k in [
        "files found",
        "files missing",
        "malformed files",
        "denied files",
        "failing files",
        "objects fetched",
        "slices of several architectures",
        "answers after a restart",
        "objects fetched again",
        "errors selected",
        "nothing selected",
        "sources without files",
        "merges of candidates",
    ] {
        rep.require(k, 5);
    }
    rep
}

#[derive(Default)]
pub struct Notes {
    pub bad: Vec<(String, Value)>,
    pub counts: BTreeMap<String, u64>,
    pub seen: BTreeSet<String>,
    pub evals: u64,
}

impl Notes {
    pub fn merge(&mut self, o: Notes) {
        self.evals += o.evals;
        self.bad.extend(o.bad);
        self.seen.extend(o.seen);
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
    }
    pub fn into_report(self, rep: &mut Report) {
        rep.evaluations += self.evals;
        for (s, d) in self.bad {
            rep.violate(s, d);
        }
        for (k, v) in self.counts {
            rep.add(&k, v);
        }
        for s in self.seen {
            rep.distinct(s);
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.into()).or_insert(0) += 1;
    }
}

fn count_files(p: &std::path::Path) -> usize {
    std::fs::read_dir(p).map_or(0, |d| d.flatten().map(|e| if e.path().is_dir() { count_files(&e.path()) } else { 1 }).sum())
}

async fn case44(
    mut rng: Rng,
    name: String,
    dir: PathBuf,
    base: String,
    files: Arc<Mutex<HashMap<String, Serve>>>,
    hits: Arc<Mutex<HashMap<String, usize>>>,
    handle: tokio::runtime::Handle,
) -> Notes {
    let rng = &mut rng;
    let mut n = Notes::default();
    let cache = dir.join("cache");
    let with_shared = |c: &PathBuf| dl_config(json!({ "cache_dir": c, "shared_cache": {"filesystem": {"path": dir.join("shared")}} }));
    let shared = rng.chance(1, 4);
    let cfg = if shared { with_shared(&cache) } else { dl_config(json!({ "cache_dir": cache })) };
    let ids = ["custom", "another", "sentry:builtin", "b", "B", "zażółć"];
    let mut srcs: Vec<SourceConfig> = vec![];
    for i in 0..rng.below(4) + 1 {
        let id = *rng.pick(&ids);
        let layout = json!({"type": *rng.pick(&LAYOUTS), "casing": *rng.pick(&["default", "lowercase", "uppercase"])});
        let mut extra = json!({"layout": layout, "is_public": rng.chance(1, 2)});
        if rng.chance(1, 8) {
            merge(&mut extra, json!({"filters": {"filetypes": ["pe", "uuidmap"]}}));
        }
        if rng.chance(1, 5) {
            let p = dir.join(format!("fs{i}"));
            std::fs::create_dir_all(&p).unwrap();
            let mut v = json!({"type": "filesystem", "id": id, "path": p});
            merge(&mut v, extra);
            srcs.push(source(v));
        } else {
            srcs.push(http_source(id, &format!("{base}/{name}/s{i}/"), extra));
        }
    }
    let srcs: Arc<[SourceConfig]> = srcs.into();
    let source_ids: Vec<String> = srcs.iter().map(|s| s.id().to_string()).collect();
    // the requests and the files they lead to
    let svc = services(&cfg, &handle);
    if shared {
        let s = svc.shared_cache.clone();
        eventually(|| s.get().is_some()).await;
    }
    let mut known: HashMap<(String, String), (Serve, ObjectId, String)> = HashMap::new();
    let mut requests: Vec<(FindObject, Vec<Known>)> = vec![];
    for _ in 0..1 + rng.below(3) {
        let o = target(rng);
        let id = identifier(rng, &o);
        let filetypes = asked_types(rng, &o);
        let mut listed = vec![];
        let found = list_files_in_scope(&svc.download_svc, &svc.source_index_svc, &srcs, filetypes, &id, &Scope::Global).await;
        let mut usable = true;
        for f in found {
            let (s, u) = (f.source_id().to_string(), f.uri().to_string());
            let target = match &f {
                RemoteFile::Http(h) => {
                    let url = h.url().unwrap();
                    match url.query() {
                        Some(q) => format!("{}?{q}", url.path()),
                        None => url.path().to_string(),
                    }
                }
                RemoteFile::Filesystem(h) => h.path().to_string_lossy().into_owned(),
                _ => unreachable!(),
            };
            let k = (s.clone(), u.clone());
            if let Some((_, id2, t)) = known.get(&k) {
                // a file of several architectures is cached once per location: see DESIGN.md
                if format!("{id2:?}") != format!("{id:?}") || *t != target {
                    usable = false;
                }
            } else {
                let serve = match rng.below(10) {
                    0 => Serve::Status(*rng.pick(&[401, 403, 404, 500, 503, 410])),
                    1 | 2 => Serve::Status(404),
                    k => {
                        let mut b = contents(rng, &o);
                        while !untouched(&b) {
                            b = contents(rng, &o);
                        }
                        // symbolic's own view of corrupted objects must be stable
                        if k == 3 {
                            Serve::Packed(b)
                        } else {
                            Serve::Plain(b)
                        }
                    }
                };
                let serve = match (&f, serve) {
                    (RemoteFile::Filesystem(h), s) => match s {
                        Serve::Status(_) => Serve::Status(404),
                        Serve::Plain(b) | Serve::Packed(b) => {
                            std::fs::create_dir_all(h.path().parent().unwrap()).unwrap();
                            match std::fs::write(h.path(), &b) {
                                Ok(()) => Serve::Plain(b),
                                Err(_) => Serve::Status(404),
                            }
                        }
                    },
                    (_, s) => {
                        files.lock().unwrap().insert(target.clone(), s.clone());
                        s
                    }
                };
                known.insert(k.clone(), (serve, id.clone(), target));
            }
            let pred = known[&k].0.predict(&id);
            listed.push(Known { source: s, uri: u, pred });
        }
        if !usable {
            continue;
        }
        for p in [purpose(rng), purpose(rng)] {
            let req = FindObject { filetypes, purpose: p, scope: scope(*rng.pick(&["global", "tenant"])), identifier: id.clone(), sources: srcs.clone() };
            requests.push((req, listed.clone()));
        }
    }
    // an identical location under two different paths on disk or differently public: not distinguishable by location
    let publics: BTreeMap<String, BTreeSet<bool>> = srcs.iter().fold(BTreeMap::new(), |mut m, s| {
        m.entry(s.id().to_string()).or_default().insert(matches!(s, SourceConfig::Http(c) if c.files.is_public));
        m
    });
    let _ = publics;
    for (req, listed) in &requests {
        for f in listed {
            n.count(match &f.pred {
                Pred::Ok(..) => "files found",
                Pred::NotFound => "files missing",
                Pred::Malformed => "malformed files",
                Pred::Perm(_) => "denied files",
                Pred::Error(_) => "failing files",
            });
            if let (Pred::Ok(b, _), Serve::Plain(x) | Serve::Packed(x)) = (&f.pred, &known[&(f.source.clone(), f.uri.clone())].0) {
                if b.len() != x.len() {
                    n.count("slices of several architectures");
                }
            }
        }
        if source_ids.iter().any(|s| !listed.iter().any(|f| f.source == *s)) {
            n.count("sources without files");
        }
        match best(listed, req.purpose).map(|k| &k.pred) {
            None => n.count("nothing selected"),
            Some(Pred::Ok(..)) => n.count("objects fetched"),
            Some(_) => n.count("errors selected"),
        }
        n.seen.insert(format!("{:?} {:?}", req.purpose, listed.iter().map(|f| (rank(&f.pred, req.purpose), &f.source)).collect::<Vec<_>>()));
    }
    let name2 = name.clone();
    let hits = move || -> BTreeMap<String, usize> {
        let prefix = format!("/{name2}/");
        hits.lock().unwrap().iter().filter(|(k, _)| k.starts_with(&prefix)).map(|(k, v)| (k.clone(), *v)).collect()
    };
    // all at once, then again
    let run = |svc: &SharedServices, stage: &'static str| {
        let objects = svc.objects.clone();
        let jobs: Vec<_> = requests.iter().map(|(r, l)| (r.clone(), l.clone())).collect();
        let ids = source_ids.clone();
        async move {
            let all = futures::future::join_all(jobs.iter().map(|(r, l)| ask(&objects, r.clone(), &ids, l))).await;
            all.into_iter().flatten().map(|(s, d)| (s, json!({"stage": stage, "what": d}))).collect::<Vec<_>>()
        }
    };
    n.evals += 1;
    n.bad.extend(run(&svc, "first").await);
    let first = hits();
    n.bad.extend(run(&svc, "again").await);
    if hits() != first && n.bad.is_empty() {
        n.bad.push(("known files are downloaded again".into(), json!({"first": first, "then": hits()})));
    }
    drop(svc);
    if shared {
        // another instance that has only the shared cache in common: wait until the uploads have settled
        let (mut last, mut same) = (usize::MAX, 0);
        while same < 4 {
            let now = count_files(&dir.join("shared"));
            same = if now == last { same + 1 } else { 0 };
            last = now;
            tokio::time::sleep(std::time::Duration::from_millis(60)).await;
        }
        let svc = services(&with_shared(&dir.join("other")), &handle);
        let s = svc.shared_cache.clone();
        eventually(|| s.get().is_some()).await;
        n.bad.extend(run(&svc, "another instance").await);
        n.count("answers of another instance");
        for (t, c) in hits() {
            if first.contains_key(&t) && known.values().any(|(s, id, tt)| *tt == t && matches!(s.predict(id), Pred::Ok(..))) {
                n.count(if first.get(&t) == Some(&c) { "objects from the shared cache" } else { "objects downloaded despite the shared cache" });
            }
        }
    } else if rng.chance(1, 2) {
        let svc = services(&cfg, &handle);
        n.bad.extend(run(&svc, "after a restart").await);
        n.count("answers after a restart");
        let malformed = |t: &str| {
            known.values().any(|(s, id, tt)| tt == t && s.predict(id) == Pred::Malformed)
        };
        for (t, c) in hits() {
            if first.get(&t) != Some(&c) && !malformed(&t) && n.bad.is_empty() {
                n.bad.push(("known files are downloaded again".into(), json!({"file": t, "first": first.get(&t), "after a restart": c})));
            }
        }
    } else {
        // the objects are gone, what is known about them is not
        let _ = std::fs::remove_dir_all(cache.join("objects"));
        let svc = services(&cfg, &handle);
        for (r, l) in &requests {
            let before = hits();
            let res = svc.objects.find(r.clone()).await;
            let want = candidates(&source_ids, l);
            let got = serde_json::to_value(&res.candidates).unwrap();
            if want != got {
                n.bad.push(("the candidates are not the listed files and what came of them".into(), json!({"want": want, "got": got, "stage": "objects removed"})));
            }
            for (t, c) in hits() {
                let known_ok = known.values().any(|(s, id, tt)| *tt == t && matches!(s.predict(id), Pred::Ok(..)));
                if known_ok && before.get(&t) != Some(&c) {
                    n.bad.push(("an object is downloaded although what is known about it suffices".into(), json!({ "file": t })));
                }
            }
            if let (Some(FoundMeta { handle: Ok(h), .. }), Some(Known { pred: Pred::Ok(b, _), uri, .. })) = (&res.meta, best(l, r.purpose)) {
                let before = hits().values().sum::<usize>();
                match svc.objects.fetch(h.clone()).await {
                    Ok(o) if o.data()[..] == b[..] => {
                        n.count("objects fetched again");
                        let more = hits().values().sum::<usize>() - before;
                        if more > 1 {
                            n.bad.push(("an object is downloaded more than once".into(), json!({"file": uri, "times": more})));
                        }
                    }
                    Ok(o) => n.bad.push(("the fetched object is not the one served".into(), json!({"stage": "objects removed", "want": b.len(), "got": o.data().len(), "uri": uri}))),
                    Err(e) => n.bad.push(("a found object cannot be fetched".into(), json!({"stage": "objects removed", "error": e.to_string(), "uri": uri}))),
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    n
}

/// Collections of candidates against a map.
fn candidates44(rng: &mut Rng, rep: &mut Report) {
    fn info(rng: &mut Rng) -> ObjectUseInfo {
        match rng.below(5) {
            0 => ObjectUseInfo::Ok,
            1 => ObjectUseInfo::Malformed,
            2 => ObjectUseInfo::Error { details: format!("e{}", rng.below(5)) },
            _ => ObjectUseInfo::None,
        }
    }
    fn one(rng: &mut Rng) -> ObjectCandidate {
        ObjectCandidate {
            source: SourceId::new(["a", "b", "B", "aa", ""][rng.below(5)]),
            location: RemoteFileUri::new(["x", "y", "xx", "X", ""][rng.below(5)]),
            download: match rng.below(5) {
                0 => ObjectDownloadInfo::Ok { features: ObjectFeatures { has_symbols: rng.chance(1, 2), ..Default::default() } },
                1 => ObjectDownloadInfo::Malformed,
                2 => ObjectDownloadInfo::NoPerm { details: "n".into() },
                3 => ObjectDownloadInfo::Error { details: format!("d{}", rng.below(9)) },
                _ => ObjectDownloadInfo::NotFound,
            },
            unwind: info(rng),
            debug: info(rng),
        }
    }
    type Map = BTreeMap<(String, String), ObjectCandidate>;
    let key = |c: &ObjectCandidate| (c.source.to_string(), c.location.to_string());
    let start: Vec<ObjectCandidate> = (0..rng.below(8)).map(|_| one(rng)).collect();
    let mut model: Map = Map::new();
    for c in &start {
        model.entry(key(c)).or_insert_with(|| c.clone());
    }
    let mut all: AllObjectCandidates = start.into();
    let mut log = vec![];
    for _ in 0..rng.below(8) {
        if rng.chance(1, 2) {
            let other: Vec<ObjectCandidate> = (0..rng.below(5)).map(|_| one(rng)).collect();
            let mut o2: Map = Map::new();
            for c in &other {
                o2.entry(key(c)).or_insert_with(|| c.clone());
            }
            all.merge(&other.into());
            for (k, c) in o2 {
                let e = model.entry(k).or_insert_with(|| c.clone());
                e.download = c.download;
                if c.unwind != ObjectUseInfo::None {
                    e.unwind = c.unwind;
                }
                if c.debug != ObjectUseInfo::None {
                    e.debug = c.debug;
                }
            }
            log.push("merge".to_string());
            rep.count("merges of candidates");
        } else {
            let c = one(rng);
            let i = info(rng);
            let (st, which) = match rng.below(3) {
                0 => (CandidateStatus::Debug, 0),
                1 => (CandidateStatus::Unwind, 1),
                _ => (CandidateStatus::None, 2),
            };
            all.set_status(st, &c.source, &c.location, i.clone());
            if let Some(e) = model.get_mut(&key(&c)) {
                match which {
                    0 => e.debug = i,
                    1 => e.unwind = i,
                    _ => {}
                }
            }
            log.push(format!("set_status {which} {:?}", key(&c)));
        }
    }
    let want: Vec<ObjectCandidate> = model.into_values().collect();
    let got = all.into_inner();
    rep.eval();
    if got != want {
        rep.violate("merging candidates loses, mixes up or disorders them", json!({"operations": log, "want": want, "got": got}));
    }
}

// =============================================================================================== C34

struct Family {
    what: &'static str,
    id: String,
    public: bool,
    cfgs: Vec<SourceConfig>,
}

pub fn c34(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "whatever other scopes asked for before, a request of a scope sees exactly what the server gives to the credentials of that scope; files of public sources are downloaded once for all",
    );
    let rt = rt(6);
    // (credentials, path and query) -> answer
    let files: Arc<Mutex<HashMap<(String, String), Resp>>> = Default::default();
    let hits: Arc<Mutex<HashMap<(String, String), usize>>> = Default::default();
    let (f2, h2) = (files.clone(), hits.clone());
    let mock = Mock::start(move |h| {
        let who = match (h.header("x-tenant"), h.header("authorization")) {
            (Some(t), _) => t.to_string(),
            (None, Some(a)) => a.trim_start_matches("Bearer ").to_string(),
            _ => "nobody".into(),
        };
        *h2.lock().unwrap().entry((who.clone(), h.target.clone())).or_insert(0) += 1;
        f2.lock().unwrap().get(&(who, h.target.clone())).cloned().unwrap_or_else(|| Resp::new(404, "nothing here"))
    });
    let mut rng = Rng::new(ctx.seed ^ 0x34);
    let mut round = 0u64;
    while ctx.time_left() && rep.violations.len() < 25 {
        round += 1;
        let batch: Vec<_> = (0..6)
            .map(|b| {
                let r = Rng::new(rng.next());
                let dir = scratch(&ctx.work, "c34");
                rt.spawn(case34(r, format!("r{round}b{b}"), dir, mock.url(""), files.clone(), hits.clone(), rt.handle().clone()))
            })
            .collect();
        for t in batch {
            match rt.block_on(t) {
                Ok(n) => n.into_report(&mut rep),
                Err(e) => rep.violate("the code under test crashed", json!({ "panic": e.to_string() })),
            }
        }
        files.lock().unwrap().clear();
        hits.lock().unwrap().clear();
        mock.take();
    }
    for k in [
        "answers of private sources",
        "answers of public sources",
        "answers of indexed sources",
        "answers of Sentry sources",
        "source files",
        "answers after a restart",
        "files of public sources asked for by several scopes",
        "locations asked for by several scopes",
    ] {
        rep.require(k, 5);
    }
    rep
}

async fn case34(
    mut rng: Rng,
    name: String,
    dir: PathBuf,
    base: String,
    files: Arc<Mutex<HashMap<(String, String), Resp>>>,
    hits: Arc<Mutex<HashMap<(String, String), usize>>>,
    handle: tokio::runtime::Handle,
) -> Notes {
    let rng = &mut rng;
    let mut n = Notes::default();
    let pool = ["global", "1", "10", "project:1", "Project:1", "1 ", "a/../b", "b", ""];
    let mut scopes: Vec<&str> = pool.to_vec();
    rng.shuffle(&mut scopes);
    scopes.truncate(2 + rng.below(3));
    let tenants = scopes.len();
    let secret = |f: usize, t: usize| format!("{name}-f{f}-t{t}");
    // the same sources, as each scope configures them
    let mut fams: Vec<Family> = vec![];
    for f in 0..2 + rng.below(4) {
        let what = *rng.pick(&["private", "private", "public", "indexed", "indexed", "sentry"]);
        let id = if rng.chance(1, 6) && what != "sentry" { format!("sentry:f{f}") } else { format!("f{f}") };
        let public = what == "public" || what == "indexed" && rng.chance(1, 3);
        let layout = if what == "indexed" { json!({"type": "symstore"}) } else { json!({"type": *rng.pick(&LAYOUTS)}) };
        let cfgs = (0..tenants)
            .map(|t| match what {
                "sentry" => source(json!({"type": "sentry", "id": id, "url": format!("{base}/{name}/f{f}/"), "token": secret(f, t)})),
                _ => http_source(
                    &id,
                    &format!("{base}/{name}/f{f}/"),
                    json!({"layout": layout, "is_public": public, "has_index": what == "indexed",
                           "headers": {"x-tenant": if public { secret(f, 99) } else { secret(f, t) }}}),
                ),
            })
            .collect();
        fams.push(Family { what, id, public, cfgs });
    }
    let targets: Vec<(objs::Obj, ObjectId)> = (0..2)
        .map(|_| {
            let t = loop {
                let t = target(rng);
                if t.debug_id.is_some() {
                    break t;
                }
            };
            let id = ObjectId {
                code_id: t.code_id.clone(),
                code_file: Some("C:\\crash.exe".into()),
                debug_id: t.debug_id,
                debug_file: Some("C:\\crash.pdb".into()),
                debug_checksum: None,
                object_type: t.object_type,
            };
            (t, id)
        })
        .collect();
    // what the server gives to whom
    let plain_cfg = dl_config(json!({}));
    let lister = DownloadService::new(&plain_cfg, handle.clone());
    let plain_caches = symbolicator_service::caching::Caches::from_config(&plain_cfg).unwrap();
    let lister_idx = symbolicator_service::download::SourceIndexService::new(plain_caches.source_index, Default::default(), lister.clone());
    let content = |rng: &mut Rng, t: &objs::Obj| -> Serve {
        match rng.below(8) {
            0 | 1 => Serve::Status(404),
            2 => Serve::Status(*rng.pick(&[401, 403])),
            _ => loop {
                let b = contents(rng, t);
                if untouched(&b) {
                    break Serve::Plain(b);
                }
            },
        }
    };
    // (family, tenant, target) -> files in the order of the listing
    let mut listed: HashMap<(usize, usize, usize), Vec<Known>> = HashMap::new();
    let mut paths: HashMap<(String, String), (String, Pred)> = HashMap::new();
    for (f, fam) in fams.iter().enumerate() {
        let mut indexes: Vec<BTreeSet<String>> = vec![BTreeSet::new(); tenants];
        for t in 0..tenants {
            let who = secret(f, if fam.public { 99 } else { t });
            for (o, (obj, id)) in targets.iter().enumerate() {
                if fam.public && t > 0 {
                    let same = listed[&(f, 0, o)].clone();
                    listed.insert((f, t, o), same);
                    continue;
                }
                let mut all = vec![];
                let types = FileType::from_object_type(obj.object_type);
                if fam.what == "sentry" {
                    // the same file numbers for every tenant
                    let count = rng.below(3);
                    let mut answer = vec![];
                    for k in 0..count {
                        let file = format!("{}", o * 10 + k);
                        answer.push(json!({"id": file, "symbolType": ty_name(types[0]), "uuid": "x", "size": 3, "sha1": "abc", "dateCreated": null}));
                        let s = content(rng, obj);
                        let target = format!("/{name}/f{f}/?id={file}");
                        files.lock().unwrap().insert((who.clone(), target.clone()), s.resp());
                        let pred = s.predict(id);
                        paths.insert((who.clone(), target.clone()), (target, pred.clone()));
                        all.push(Known { source: fam.id.clone(), uri: format!("sentry://project_debug_file/{file}"), pred });
                    }
                    let q = format!("/{name}/f{f}/?debug_id={}", id.debug_id.unwrap());
                    files.lock().unwrap().insert((who.clone(), q), Resp::json(&Value::Array(answer)));
                } else {
                    let mut cfg = fam.cfgs[t].clone();
                    if let SourceConfig::Http(c) = &mut cfg {
                        let mut c2 = (**c).clone();
                        c2.files.has_index = false;
                        *c = Arc::new(c2);
                    }
                    for file in list_files_in_scope(&lister, &lister_idx, &[cfg], types, id, &Scope::Global).await {
                        let RemoteFile::Http(h) = &file else { unreachable!() };
                        let url = h.url().unwrap();
                        let target = url.query().map(|q| format!("{}?{q}", url.path())).unwrap_or(url.path().to_string());
                        if fam.what == "indexed" {
                            let loc = plain(url.path().strip_prefix(&format!("/{name}/f{f}/")).unwrap());
                            if loc.ends_with('_') || rng.chance(1, 2) {
                                continue;
                            }
                            indexes[t].insert(loc);
                        }
                        let s = content(rng, obj);
                        let pred = s.predict(id);
                        if let Some((_, p)) = paths.get(&(who.clone(), target.clone())) {
                            all.push(Known { source: fam.id.clone(), uri: file.uri().to_string(), pred: p.clone() });
                            continue;
                        }
                        files.lock().unwrap().insert((who.clone(), target.clone()), s.resp());
                        paths.insert((who.clone(), target.clone()), (target, pred.clone()));
                        all.push(Known { source: fam.id.clone(), uri: file.uri().to_string(), pred });
                    }
                }
                listed.insert((f, t, o), all);
            }
            if fam.what == "indexed" && !(fam.public && t > 0) {
                let mut text = String::new();
                for e in &indexes[t] {
                    let (file, id) = e.split_once('/').map(|(n, r)| (n, r.split('/').next().unwrap())).unwrap();
                    text.push_str(&format!("\"{file}\\{id}\",\"D:\\{file}\"\r\n"));
                }
                text.push_str(&format!("\"other{t}.dll\\1234\",\"x\"\r\n"));
                files.lock().unwrap().insert((who.clone(), format!("/{name}/f{f}/000Admin/lastid.txt")), Resp::ok("1"));
                files.lock().unwrap().insert((who.clone(), format!("/{name}/f{f}/000Admin/0000000001")), Resp::ok(text));
            }
        }
    }
    // the same location can belong to two requests for different objects: their outcome then depends on the order
    for f in 0..fams.len() {
        for t in 0..tenants {
            let (a, b) = (&listed[&(f, t, 0)], &listed[&(f, t, 1)]);
            if a.iter().any(|x| b.iter().any(|y| x.uri == y.uri)) {
                let _ = std::fs::remove_dir_all(&dir);
                return n;
            }
        }
    }
    let shared = rng.chance(1, 3);
    let mut extra = json!({"cache_dir": dir.join("cache")});
    if shared {
        merge(&mut extra, json!({"shared_cache": {"filesystem": {"path": dir.join("shared")}}}));
    }
    let mut cfg = dl_config(extra.clone());
    let mut svc = services(&cfg, &handle);
    let mut restarts = 0;
    let mut locals = 1;
    let mut asked: HashMap<String, BTreeSet<usize>> = HashMap::new();
    let mut source_text: HashMap<(usize, usize, usize), String> = HashMap::new();
    for _ in 0..10 + rng.below(16) {
        if rng.chance(1, 8) {
            restarts += 1;
            if shared && rng.chance(1, 2) {
                // another instance that only has the shared cache in common
                locals += 1;
                merge(&mut extra, json!({"cache_dir": dir.join(format!("cache{locals}"))}));
                cfg = dl_config(extra.clone());
            }
            svc = services(&cfg, &handle);
            if shared {
                let s = svc.shared_cache.clone();
                eventually(|| s.get().is_some()).await;
            }
        }
        let mut jobs = vec![];
        for _ in 0..1 + rng.below(6) {
            let t = rng.below(tenants);
            let sc = scope(scopes[t]);
            if rng.chance(1, 5) {
                let f = rng.below(fams.len());
                if fams[f].what != "private" {
                    continue;
                }
                let k = rng.below(3);
                let text = source_text.entry((f, t, k)).or_insert_with(|| format!("// source {} of tenant {t}\n{}", k, rng.hex(20))).clone();
                let who = secret(f, t);
                let target = format!("/{name}/f{f}/src/{k}.js");
                files.lock().unwrap().insert((who, target), Resp::ok(text.clone()));
                let file = crate::dlmon::remote(&fams[f].cfgs[t], &format!("src/{k}.js"));
                let c = svc.sourcefiles_cache.clone();
                let use_shared = rng.chance(1, 2);
                n.count("source files");
                n.evals += 1;
                jobs.push(tokio::spawn(async move {
                    let got = c.fetch_file(&sc, file, use_shared).await.into_contents();
                    match got {
                        Ok(s) if s[..] == text[..] => vec![],
                        Ok(s) => vec![("a scope gets the source file of another".to_string(), json!({"want": text, "got": &s[..]}))],
                        Err(e) => vec![("a source file cannot be fetched".to_string(), json!({ "error": e.to_string() }))],
                    }
                }));
                continue;
            }
            let o = rng.below(2);
            let mut chosen: Vec<usize> = (0..fams.len()).filter(|_| rng.chance(1, 2)).collect();
            rng.shuffle(&mut chosen);
            let sources: Arc<[SourceConfig]> = chosen.iter().map(|f| fams[*f].cfgs[t].clone()).collect();
            let known: Vec<Known> = chosen.iter().flat_map(|f| listed[&(*f, t, o)].clone()).collect();
            let ids: Vec<String> = chosen.iter().map(|f| fams[*f].id.clone()).collect();
            for f in &chosen {
                n.count(match fams[*f].what {
                    "private" => "answers of private sources",
                    "public" => "answers of public sources",
                    "indexed" => "answers of indexed sources",
                    _ => "answers of Sentry sources",
                });
                n.seen.insert(format!("{} {} {} {}", fams[*f].what, scopes[t], restarts.min(2), shared));
                for k in &listed[&(*f, t, o)] {
                    let a = asked.entry(format!("{} {}", k.source, k.uri)).or_default();
                    a.insert(t);
                    if a.len() == 2 {
                        n.count(if fams[*f].public { "files of public sources asked for by several scopes" } else { "locations asked for by several scopes" });
                    }
                }
            }
            if restarts > 0 {
                n.count("answers after a restart");
            }
            n.evals += 1;
            let req = FindObject {
                filetypes: FileType::from_object_type(targets[o].0.object_type),
                purpose: purpose(rng),
                scope: sc,
                identifier: targets[o].1.clone(),
                sources,
            };
            let objects = svc.objects.clone();
            let kinds: Vec<&str> = chosen.iter().map(|f| fams[*f].what).collect();
            jobs.push(tokio::spawn(async move {
                let bad = ask(&objects, req, &ids, &known).await;
                bad.into_iter().map(|(s, d)| (format!("in one scope among several: {s}"), json!({"kinds of sources": kinds, "what": d}))).collect()
            }));
        }
        for j in jobs {
            match j.await {
                Ok(b) => n.bad.extend(b),
                Err(e) => n.bad.push(("the code under test crashed".into(), json!({ "panic": e.to_string() }))),
            }
        }
        if !n.bad.is_empty() {
            break;
        }
    }
    // how often files were downloaded
    let prefix = format!("/{name}/");
    for ((who, target), c) in hits.lock().unwrap().iter().filter(|((_, t), _)| t.starts_with(&prefix)) {
        if let Some((_, p)) = paths.get(&(who.clone(), target.clone())) {
            let limit = match p {
                Pred::Ok(..) | Pred::NotFound | Pred::Perm(_) => locals,
                _ => 3 * (restarts + 1),
            };
            if *c > limit && n.bad.is_empty() {
                n.bad.push(("a file is downloaded again although it is cached".into(), json!({"file": target, "for": who, "times": c, "outcome": p.name(), "public": who.ends_with("-t99")})));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    n
}

fn ty_name(t: FileType) -> &'static str {
    match t {
        FileType::Pe => "pe",
        FileType::Pdb => "pdb",
        FileType::PortablePdb => "portablepdb",
        FileType::MachDebug | FileType::MachCode => "macho",
        FileType::ElfDebug | FileType::ElfCode => "elf",
        FileType::WasmDebug | FileType::WasmCode => "wasm",
        _ => "breakpad",
    }
}

/// Undoes the percent-encoding of a URL's path.
fn plain(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let hex = (b[i] == b'%').then(|| s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok())).flatten();
        if let Some(x) = hex {
            out.push(x);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).unwrap()
}
