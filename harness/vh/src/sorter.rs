//! Monitors over symsorter: the real binary runs over generated inputs, a model predicts the store.
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::Duration;

use serde_json::{json, Value};
use symbolicator_sources::{
    get_directory_paths, DirectoryLayout, DirectoryLayoutType, FilenameCasing, ObjectId,
};

use crate::common::*;
use crate::objs::{self, Kind, Obj};
use crate::proc::{self, snapshot, Node, Run};

pub const WATCHDOG: Duration = Duration::from_secs(120);

/// One input file and the objects it carries, with the name each is known by.
#[derive(Clone)]
pub struct Item {
    pub path: PathBuf,
    pub bytes: Vec<u8>,
    pub objs: Vec<(String, Obj)>,
    pub zipped: bool,
}

/// A source of a stored file: what its bytes and its metadata would be.
#[derive(Clone, Debug)]
pub struct Cand {
    pub bytes: Vec<u8>,
    pub name: String,
    pub arch: &'static str,
    pub fmt: &'static str,
}

pub fn file_name(r: &mut Rng, i: usize) -> OsString {
    match r.below(14) {
        0 => format!("file {i}.so").into(),
        1 => format!("üñï-{i}.dylib").into(),
        2 => format!("-{i}").into(),
        3 => format!("{i}.meta").into(),
        4 => format!("a'b\"c$({i})").into(),
        5 => OsString::from_vec([b"raw\xff\xfe".as_slice(), i.to_string().as_bytes()].concat()),
        6 => format!("{i}\nnewline").into(),
        7 => format!("{}{i}", "long".repeat(50)).into(),
        8 => format!("..{i}").into(),
        9 => format!("{i}.zip").into(),
        _ => format!("lib{i}.so.debug").into(),
    }
}

fn place(r: &mut Rng, i: usize) -> PathBuf {
    let mut p = PathBuf::new();
    let depth = if r.chance(1, 12) { 9 + r.below(30) } else { r.below(4) };
    for _ in 0..depth {
        p.push(*r.pick(&["usr", "lib", "x y", "ünï", "debug", "refs", "bundles", ".build-id", ".git"]));
    }
    p.push(file_name(r, i));
    p
}

fn lossy_name(p: &Path) -> String {
    p.file_name().unwrap().to_string_lossy().into_owned()
}

/// Packs objects into plain files, universal binaries and zip archives, with noise in between.
pub fn pack(r: &mut Rng, objs: Vec<Obj>, with_noise: bool) -> Vec<Item> {
    let mut items = vec![];
    let mut i = 0;
    let mut todo = objs;
    r.shuffle(&mut todo);
    let mut fresh = |r: &mut Rng| {
        i += 1;
        place(r, i)
    };
    while let Some(o) = todo.pop() {
        if o.fmt == "macho" && r.chance(1, 2) {
            // gather some more Mach-O objects into a universal binary
            let mut slices = vec![o];
            let want = 1 + r.below(4);
            let mut k = 0;
            while k < todo.len() && slices.len() < want {
                if todo[k].fmt == "macho" {
                    slices.push(todo.swap_remove(k));
                } else {
                    k += 1;
                }
            }
            let path = fresh(r);
            let name = lossy_name(&path);
            let bytes = objs::fat(r, &slices);
            items.push(Item { path, bytes, objs: slices.into_iter().map(|s| (name.clone(), s)).collect(), zipped: false });
        } else if r.chance(1, 5) {
            let mut members = vec![o];
            while members.len() < 6 && !todo.is_empty() && r.chance(2, 3) {
                members.push(todo.pop().unwrap());
            }
            let path = fresh(r);
            let mut zm = vec![];
            let mut zo = vec![];
            if r.chance(1, 3) {
                zm.push(("some dir/".to_string(), vec![]));
            }
            for (k, m) in members.into_iter().enumerate() {
                // files of the same name lie in several folders of an archive
                let (dir, base) = if r.chance(1, 2) {
                    (format!("v{k}/"), r.pick(&["libapp.so", "app"]).to_string())
                } else {
                    (String::new(), format!("member{k}{}", r.pick(&["", ".so", " ü", ".dSYM"])))
                };
                let full = format!("{}{dir}{base}", r.pick(&["", "a/b/", "Contents/Resources/DWARF/", "/abs/"]));
                zm.push((full, m.bytes.clone()));
                zo.push((base, m));
                if r.chance(1, 4) {
                    let n = objs::noise(r);
                    zm.push((format!("noise{k}"), n));
                }
            }
            let mut bytes = objs::zip(r, &zm);
            if r.chance(1, 6) {
                // the marker of an archive that once spanned several volumes
                bytes.splice(0..0, *b"PK00");
            }
            items.push(Item { path, bytes, objs: zo, zipped: true });
        } else {
            let path = fresh(r);
            let name = lossy_name(&path);
            items.push(Item { path, bytes: o.bytes.clone(), objs: vec![(name, o)], zipped: false });
        }
        if with_noise && r.chance(1, 4) {
            let path = fresh(r);
            let bytes = objs::noise(r);
            items.push(Item { path, bytes, objs: vec![], zipped: false });
        }
    }
    items
}

/// Appends a slice without any identity to some Mach-O files; the slices before it stay good.
fn break_tails(r: &mut Rng, items: &mut [Item]) -> u64 {
    let mut n = 0;
    for it in items.iter_mut() {
        if it.zipped || it.objs.is_empty() || it.objs.iter().any(|(_, o)| o.fmt != "macho") || !r.chance(1, 2) {
            continue;
        }
        let mut slices: Vec<Obj> = it.objs.iter().map(|(_, o)| o.clone()).collect();
        let mut bad = slices[0].clone();
        // the uuid command becomes one that says nothing
        bad.bytes[32] = 0x26;
        slices.push(bad);
        it.bytes = objs::fat(r, &slices);
        n += 1;
    }
    n
}

pub fn write_items(root: &Path, items: &[Item]) {
    for it in items {
        let p = root.join(&it.path);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, &it.bytes).unwrap();
    }
}

/// Objects with a controlled amount of shared identities across kinds (binary + debug file).
pub fn universe(r: &mut Rng, n: usize) -> Vec<Obj> {
    let mut v: Vec<Obj> = vec![];
    while v.len() < n {
        let o = objs::any(r);
        objs::self_check(&o);
        if r.chance(1, 5) {
            // its companion under the same identity
            let other = if o.kind == Kind::Executable { Kind::Debug } else { Kind::Executable };
            let c = match o.fmt {
                "elf" => {
                    let id = unhex(&o.uid);
                    Some(objs::elf(r, &id, other))
                }
                "macho" => {
                    let id: [u8; 16] = unhex(&o.uid).try_into().unwrap();
                    Some(objs::macho(r, id, other, None))
                }
                "wasm" => {
                    let id = unhex(&o.uid);
                    Some(objs::wasm(r, &id[1..], other))
                }
                _ => None,
            };
            if let Some(c) = c {
                objs::self_check(&c);
                v.push(c);
            }
        }
        if r.chance(1, 8) && o.fmt != "sourcebundle" && o.fmt != "breakpad" {
            let s = objs::sourcebundle(r, &o);
            objs::self_check(&s);
            v.push(s);
        }
        if r.chance(1, 10) {
            let id = objs::id16(r);
            let ig = if r.chance(1, 2) { objs::elf(r, &id, Kind::Ignored) } else { objs::macho(r, id, Kind::Ignored, None) };
            objs::self_check(&ig);
            v.push(ig);
        }
        v.push(o);
    }
    v
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub struct Opts {
    pub prefix: Option<String>,
    pub bundle: Option<String>,
    pub multi: bool,
    pub level: usize,
    pub ignore: bool,
    pub quiet: bool,
    pub sources: bool,
    pub threads: usize,
}

impl Opts {
    pub fn plain() -> Self {
        Opts { prefix: None, bundle: None, multi: false, level: 0, ignore: false, quiet: false, sources: false, threads: 4 }
    }
    pub fn random(r: &mut Rng) -> Self {
        Opts {
            prefix: r.chance(1, 2).then(|| r.pick(&["ios", "a/b", "Ünï x"]).to_string()),
            bundle: None,
            multi: false,
            level: if r.chance(1, 30) { 4 } else { *r.pick(&[0, 0, 1, 1, 2, 3]) },
            ignore: r.chance(1, 4),
            quiet: r.chance(1, 5),
            sources: false,
            threads: *r.pick(&[1, 2, 4, 8, 16]),
        }
    }
    pub fn describe(&self) -> Value {
        json!({"prefix": self.prefix, "bundle": self.bundle, "multi": self.multi, "level": self.level,
            "ignore": self.ignore, "quiet": self.quiet, "sources": self.sources, "threads": self.threads})
    }
    pub fn args(&self, out: &Path) -> Vec<OsString> {
        let mut a: Vec<OsString> = vec!["-o".into(), out.into()];
        if let Some(p) = &self.prefix {
            a.extend(["--prefix".into(), p.into()]);
        }
        if let Some(b) = &self.bundle {
            a.push(format!("--bundle-id={b}").into());
        }
        if self.multi {
            a.push("--multiple-bundles".into());
        }
        if self.level > 0 {
            a.push(format!("-{}", "z".repeat(self.level)).into());
        }
        if self.ignore {
            a.push("-I".into());
        }
        if self.quiet {
            a.push("-q".into());
        }
        if self.sources {
            a.push("--with-sources".into());
        }
        a
    }
    pub fn root(&self, out: &Path) -> PathBuf {
        match &self.prefix {
            Some(p) => out.join(p),
            None => out.to_path_buf(),
        }
    }
}

pub fn sorter(bin: &Path, opts: &Opts, cwd: &Path, out: &Path, inputs: &[PathBuf]) -> Command {
    let mut c = Command::new(bin);
    c.args(opts.args(out)).arg("--").args(inputs).current_dir(cwd);
    c.env("RAYON_NUM_THREADS", opts.threads.to_string()).env("NO_COLOR", "1").env("CLICOLOR", "0");
    c
}

/// What the bytes on disk decode to under the chosen compression.
pub fn decode_stored(level: usize, b: &[u8]) -> Result<Vec<u8>, String> {
    if level == 0 {
        return Ok(b.to_vec());
    }
    if !b.starts_with(&[0x28, 0xb5, 0x2f, 0xfd]) {
        return Err("not a zstd frame".into());
    }
    zstd::decode_all(b).map_err(|e| e.to_string())
}

/// number in a "Sorted N debug files" / "Created N source bundles" line
pub fn counted(out: &str, word: &str) -> Option<u64> {
    out.lines().rev().find_map(|l| {
        let l = l.trim();
        let rest = l.strip_prefix(word)?.trim_start();
        rest.split_whitespace().next()?.parse().ok()
    })
}

fn add_cands(store: &mut BTreeMap<String, Vec<Cand>>, items: &[Item]) {
    for it in items {
        for (name, o) in &it.objs {
            if o.kind != Kind::Ignored {
                store.entry(o.rel_path()).or_default().push(Cand {
                    bytes: o.bytes.clone(),
                    name: name.clone(),
                    arch: o.arch,
                    fmt: o.fmt,
                });
            }
        }
    }
}

/// Checks one stored file and its metadata against the inputs it can come from.
/// Returns the index of the candidate.
fn check_stored(rep: &mut Report, det: &Value, level: usize, rel: &str, node: &[u8], meta: Option<&Node>, cands: &[Cand]) -> Option<usize> {
    let got = match decode_stored(level, node) {
        Ok(g) => g,
        Err(e) => {
            rep.violate("stored file is not compressed as requested", json!({"run": det, "file": rel, "error": e}));
            return None;
        }
    };
    let Some(k) = cands.iter().position(|c| c.bytes == got) else {
        rep.violate(
            "stored file differs from its input",
            json!({"run": det, "file": rel, "stored_len": got.len(), "input_len": cands.iter().map(|c| c.bytes.len()).collect::<Vec<_>>()}),
        );
        return None;
    };
    rep.count("stored_files_compared");
    match meta {
        Some(Node::File(m)) => match serde_json::from_slice::<Value>(m) {
            Ok(v) => {
                // several inputs may have the same bytes under different names
                let ok = cands.iter().filter(|c| c.bytes == got).any(|c| {
                    v["name"] == json!(c.name) && v["arch"] == json!(c.arch) && v["file_format"] == json!(c.fmt)
                });
                if !ok {
                    rep.violate(
                        "metadata does not describe the stored file",
                        json!({"run": det, "file": rel, "meta": v, "expected": {"name": cands[k].name, "arch": cands[k].arch, "file_format": cands[k].fmt}}),
                    );
                }
                rep.count("metadata_compared");
            }
            Err(e) => rep.violate("metadata is not valid JSON", json!({"run": det, "file": rel, "error": e.to_string()})),
        },
        _ => rep.violate("stored file without metadata", json!({"run": det, "file": rel})),
    }
    Some(k)
}

/// Compares the complete output tree with the model's store.
fn judge_store(
    rep: &mut Report,
    det: &Value,
    level: usize,
    snap: &BTreeMap<String, Node>,
    store: &BTreeMap<String, Vec<Cand>>,
) {
    for (rel, cands) in store {
        match snap.get(rel) {
            Some(Node::File(b)) => {
                check_stored(rep, det, level, rel, b, snap.get(&format!("{rel}.meta")), cands);
            }
            _ => rep.violate("input object was not stored", json!({"run": det, "file": rel, "format": cands[0].fmt})),
        }
    }
    for (rel, n) in snap {
        if !matches!(n, Node::File(_)) || rel.starts_with("bundles/") || rel.contains("/refs/") {
            continue;
        }
        let owner = rel.strip_suffix(".meta").unwrap_or(rel);
        if !store.contains_key(owner) {
            rep.violate("a file was stored that no input accounts for", json!({"run": det, "file": rel}));
        }
    }
}

fn judge_exit(rep: &mut Report, det: &Value, run: &Run, want_ok: bool) -> bool {
    if run.timed_out {
        if rep.inconclusive.is_none() {
            rep.inconclusive = Some("a sorter run exceeded its watchdog".into());
        }
        rep.count("watchdog_fired");
        return false;
    }
    if run.crashed() {
        rep.violate("crash", json!({"run": det, "result": run.json()}));
        return false;
    }
    if want_ok && !run.ok() {
        rep.violate("valid input refused", json!({"run": det, "result": run.json()}));
        return false;
    }
    true
}

pub struct Area {
    root: PathBuf,
    n: usize,
}

impl Area {
    pub fn new(ctx: &Ctx) -> Self {
        Area { root: ctx.work.clone(), n: 0 }
    }
    pub fn next(&mut self) -> PathBuf {
        self.clear();
        self.n += 1;
        let p = self.root.join(format!("run{}", self.n));
        std::fs::create_dir_all(&p).unwrap();
        p
    }
    pub fn clear(&self) {
        let p = self.root.join(format!("run{}", self.n));
        if self.n > 0 {
            let _ = std::fs::remove_dir_all(p);
        }
    }
}

fn lookup_paths(o: &Obj, name: &str) -> Vec<String> {
    let Some(ft) = o.lookup else { return vec![] };
    let id = ObjectId {
        code_id: o.code_id.clone(),
        code_file: Some(format!("/usr/lib/{name}")),
        debug_id: o.debug_id,
        debug_file: Some(format!("/usr/lib/{name}")),
        debug_checksum: None,
        object_type: o.object_type,
    };
    let l = DirectoryLayout { ty: DirectoryLayoutType::Unified, casing: FilenameCasing::Default };
    get_directory_paths(l, ft, &id)
}

pub fn c10(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "random trees of ELF/Mach-O/universal/PE/PDB/portable PDB/wasm/breakpad/source bundle files, plain and in zip \
         archives, with unrelated files in between, sorted by the real binary under random options and thread counts; \
         the whole output tree is compared with a model; non-trivial = distinct (format, kind, packing, compression) seen stored",
    );
    let mut r = Rng::new(ctx.seed ^ 0xC10);
    let bin = ctx.bins.join("symsorter");
    let mut area = Area::new(ctx);
    let n = ctx.scale(90, 4000);
    for i in 0..n {
        if !ctx.time_left() {
            rep.count("stopped_at_time_limit");
            break;
        }
        rep.eval();
        let dir = area.next();
        let size = if i % 10 == 9 { 60 } else { 1 + r.below(20) };
        let mut objs = universe(&mut r, size);
        let mut opts = Opts::random(&mut r);
        if i % 24 == 5 {
            // one that is larger than any buffer
            if let Some(o) = objs.iter_mut().find(|o| o.kind != Kind::Ignored && matches!(o.fmt, "elf" | "macho")) {
                let n = o.bytes.len() + (17 << 20) + r.below(24 << 20);
                let salt = r.next();
                let mut k = o.bytes.len() as u64;
                while o.bytes.len() < n {
                    o.bytes.extend((k.wrapping_mul(salt) >> 20).to_le_bytes());
                    k += 1;
                }
                objs::self_check(o);
                opts.level = opts.level.min(1);
                rep.count("large_objects");
            }
        }
        let items = pack(&mut r, objs, true);
        match r.below(5) {
            0 => opts.multi = true,
            1 => opts.bundle = Some("all".into()),
            _ => {}
        }
        let det = json!({"seed": ctx.seed, "run": i, "opts": opts.describe(), "files": items.len()});
        // one or several input arguments
        let parts = 1 + r.below(3);
        let mut inputs = vec![];
        for p in 0..parts {
            let root = dir.join("in").join(p.to_string());
            std::fs::create_dir_all(&root).unwrap();
            let mine: Vec<Item> = items.iter().enumerate().filter(|(k, _)| k % parts == p).map(|(_, x)| x.clone()).collect();
            write_items(&root, &mine);
            inputs.push(if r.chance(1, 2) { root } else { PathBuf::from(format!("in/{p}")) });
        }
        let before = snapshot(&dir.join("in"));
        let out = dir.join("out");
        let out_arg = if r.chance(1, 2) { out.clone() } else { PathBuf::from("out") };
        let run = proc::run(&mut sorter(&bin, &opts, &dir, &out_arg, &inputs), WATCHDOG);
        if !judge_exit(&mut rep, &det, &run, true) {
            continue;
        }
        let root = opts.root(&out);
        let snap = snapshot(&root);
        let mut store = BTreeMap::new();
        add_cands(&mut store, &items);
        judge_store(&mut rep, &det, opts.level, &snap, &store);
        if snapshot(&dir.join("in")) != before {
            rep.violate("input files were changed", det.clone());
        }
        let total: usize = store.values().map(Vec::len).sum();
        if !opts.quiet {
            match counted(&run.out, "Sorted") {
                Some(c) if c == total as u64 => rep.count("summaries_compared"),
                c => rep.violate("summary miscounts the sorted files", json!({"run": det, "expected": total, "printed": c})),
            }
        }
        // every stored object is where a client of this layout asks for it
        for it in &items {
            for (name, o) in &it.objs {
                if o.kind == Kind::Ignored {
                    rep.count("ignored_objects");
                    continue;
                }
                rep.distinct((o.fmt, o.kind, it.zipped, it.objs.len() > 1, opts.level.min(1), opts.threads));
                rep.count(&format!("stored_{}_{}", o.fmt, o.kind.file()));
                if o.lookup.is_some() {
                    let paths = lookup_paths(o, name);
                    if !paths.contains(&o.rel_path()) {
                        rep.violate(
                            format!("stored object cannot be found by a lookup:{}:{}", o.fmt, o.kind.file()),
                            json!({"run": det, "stored": o.rel_path(), "looked_up": paths}),
                        );
                    }
                    rep.count("lookups");
                }
            }
        }
        if i < 4 {
            rep.sample(|| json!({"run": det, "stored": store.keys().take(8).collect::<Vec<_>>()}));
        }
    }
    area.clear();
    rep.require("stored_files_compared", 200);
    rep.require("lookups", 150);
    rep
}

pub fn c11(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "sequences of sorter runs under different bundle ids and multi-bundle runs into one store, many small files and \
         many threads; bundle manifests and per-object references are reconciled with what was sorted (conservation); \
         non-trivial = distinct (bundle id, number of ids, threads)",
    );
    let mut r = Rng::new(ctx.seed ^ 0xC11);
    let bin = ctx.bins.join("symsorter");
    let mut area = Area::new(ctx);
    let n = ctx.scale(40, 2000);
    for i in 0..n {
        if !ctx.time_left() {
            rep.count("stopped_at_time_limit");
            break;
        }
        let dir = area.next();
        let out = dir.join("out");
        let prefix = r.chance(1, 2).then(|| "ios".to_string());
        // bundle -> ids
        let mut manifests: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let mut refs: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        let mut store: BTreeMap<String, Vec<Cand>> = BTreeMap::new();
        let mut earlier: Vec<Obj> = vec![];
        let steps = 1 + r.below(3);
        let mut used = 0;
        for step in 0..steps {
            rep.eval();
            let multi = r.chance(1, 2);
            let mut opts = Opts::random(&mut r);
            opts.level = r.below(2);
            opts.prefix = prefix.clone();
            opts.sources = r.chance(1, 4);
            opts.threads = *r.pick(&[1, 4, 16, 32]);
            let t0 = now();
            let mut inputs = vec![];
            let mut plan: Vec<(String, Vec<Item>)> = vec![];
            let nb = if multi { 1 + r.below(4) } else { 1 };
            for _ in 0..nb {
                used += 1;
                let (folder, id) = bundle_name(&mut r, used);
                let size = if r.chance(1, 5) { 120 } else { r.below(25) };
                let mut objs = universe(&mut r, size);
                // what is stored already is met again under another bundle
                let again = if earlier.is_empty() || r.chance(1, 3) { 0 } else { 1 + r.below(6) };
                for _ in 0..again {
                    let o = r.pick(&earlier).clone();
                    objs.push(if r.chance(1, 2) { variant(&mut r, &o) } else { o });
                    rep.count("objects_met_again");
                }
                if opts.sources {
                    // their debug info is not there to be read
                    objs.retain(|o| !matches!(o.fmt, "pdb" | "portablepdb"));
                }
                let n = objs.len();
                for o in &objs[..n.min(40)] {
                    if o.kind != Kind::Ignored {
                        earlier.push(o.clone());
                    }
                }
                let mut items = pack(&mut r, objs, true);
                if opts.ignore {
                    rep.add("broken_slices", break_tails(&mut r, &mut items));
                }
                let root = dir.join(format!("in{step}")).join(&folder);
                std::fs::create_dir_all(&root).unwrap();
                write_items(&root, &items);
                if opts.sources {
                    // debug files that name sources get a bundle, which is listed too
                    for k in 0..1 + r.below(3) {
                        let src = dir.join(format!("src{used}-{k}.c"));
                        std::fs::write(&src, format!("int x{k};\n")).unwrap();
                        let bid = objs::id16(&mut r);
                        let o = objs::breakpad(&mut r, bid, 0, None, &[src.display().to_string()]);
                        let path = PathBuf::from(format!("with-sources-{k}.sym"));
                        std::fs::write(root.join(&path), &o.bytes).unwrap();
                        let mut made = objs::sourcebundle(&mut r, &o);
                        made.bytes.clear();
                        let name = lossy_name(&path);
                        items.push(Item { path, bytes: o.bytes.clone(), objs: vec![(name.clone(), o), (name, made)], zipped: false });
                        rep.count("objects_with_sources");
                    }
                }
                inputs.push(root);
                plan.push((id, items));
            }
            if multi {
                opts.multi = true;
            } else {
                opts.bundle = Some(plan[0].0.clone());
            }
            let det = json!({"seed": ctx.seed, "run": i, "step": step, "opts": opts.describe(), "bundles": plan.iter().map(|p| &p.0).collect::<Vec<_>>()});
            let run = proc::run(&mut sorter(&bin, &opts, &dir, &out, &inputs), WATCHDOG);
            if !judge_exit(&mut rep, &det, &run, true) {
                break;
            }
            let mut total = 0;
            for (id, items) in &plan {
                let mut ids = vec![];
                let mut met = BTreeSet::new();
                for it in items {
                    for (_, o) in &it.objs {
                        if o.kind != Kind::Ignored {
                            // only what the sort stores is listed
                            if !store.contains_key(&o.rel_path()) && met.insert(o.rel_path()) {
                                ids.push(o.uid.clone());
                            }
                            refs.entry(o.dir()).or_default().insert(id.clone());
                        }
                    }
                }
                add_cands(&mut store, items);
                total += ids.len();
                ids.sort();
                rep.distinct((id, ids.len(), opts.threads));
                manifests.insert(id.clone(), ids);
            }
            if !opts.quiet {
                match counted(&run.out, "Sorted") {
                    Some(c) if c == total as u64 => rep.count("summaries_compared"),
                    c => rep.violate("summary miscounts the sorted files", json!({"run": det, "expected": total, "printed": c})),
                }
            }
            // after every step the whole store is reconciled
            let t1 = now();
            let snap = snapshot(&opts.root(&out));
            for (id, want) in &manifests {
                let Some(Node::File(b)) = snap.get(&format!("bundles/{id}")) else {
                    rep.violate("bundle manifest missing", json!({"run": det, "bundle": id}));
                    continue;
                };
                let Ok(v) = serde_json::from_slice::<Value>(b) else {
                    rep.violate("bundle manifest is not valid JSON", json!({"run": det, "bundle": id}));
                    continue;
                };
                let mut got: Vec<String> =
                    v["debug_ids"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default();
                got.sort();
                rep.count("manifests_reconciled");
                rep.add("manifest_ids", got.len() as u64);
                if v["name"] != json!(id) {
                    rep.violate("bundle manifest has another name", json!({"run": det, "bundle": id, "manifest": v["name"]}));
                }
                if &got != want {
                    rep.violate(
                        "bundle manifest does not list what was sorted",
                        json!({"run": det, "bundle": id, "expected": want.len(), "listed": got.len(),
                            "missing": want.iter().filter(|w| !got.contains(w)).take(3).collect::<Vec<_>>(),
                            "extra": got.iter().filter(|w| !want.contains(w)).take(3).collect::<Vec<_>>()}),
                    );
                }
                let ts = v["timestamp"].as_str().unwrap_or("").to_string();
                if ts.len() < 20 || ts.as_str() > iso(t1 + 2).as_str() {
                    rep.violate("bundle manifest timestamp", json!({"run": det, "timestamp": ts}));
                }
                let _ = t0;
            }
            for rel in snap.keys() {
                if let Some(id) = rel.strip_prefix("bundles/") {
                    if !manifests.contains_key(id) {
                        rep.violate("unexpected bundle manifest", json!({"run": det, "file": rel}));
                    }
                }
                if let Some((d, id)) = rel.split_once("/refs/") {
                    if !refs.get(d).is_some_and(|s| s.contains(id)) {
                        rep.violate("reference to a bundle the object is not in", json!({"run": det, "file": rel}));
                    }
                }
            }
            for (d, ids) in &refs {
                for id in ids {
                    rep.count("references_checked");
                    if !snap.contains_key(&format!("{d}/refs/{id}")) {
                        rep.violate("object without a reference to its bundle", json!({"run": det, "object": d, "bundle": id}));
                    }
                }
            }
            if i < 4 {
                rep.sample(|| json!({"run": det, "manifests": manifests.iter().map(|(k, v)| (k, v.len())).collect::<Vec<_>>()}));
            }
        }
    }
    area.clear();
    rep.require("manifests_reconciled", 40);
    rep.require("objects_met_again", 20);
    rep.require("references_checked", 200);
    rep
}

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

fn iso(t: u64) -> String {
    // days to civil, proleptic Gregorian
    let d = (t / 86400) as i64 + 719468;
    let era = d / 146097;
    let doe = d - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let day = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + i64::from(m <= 2);
    let s = t % 86400;
    format!("{y:04}-{m:02}-{day:02}T{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60)
}

/// A folder name and the bundle id it stands for.
fn bundle_name(r: &mut Rng, k: usize) -> (String, String) {
    match r.below(9) {
        // one id may begin like another, be it met earlier or later
        5 => ("7".repeat(k), "7".repeat(k)),
        6..=7 => ("8".repeat(60 - k), "8".repeat(60 - k)),
        0 => (format!("10.3 (ABC{k})"), format!("10.3_ABC{k}")),
        1 => (format!("__x{k}__"), format!("x{k}")),
        2 => (format!("ünï{k}"), format!("n_{k}")),
        3 => (format!("a+b&c{k}"), format!("a_b_c{k}")),
        4 => (format!("v1,2-{k}"), format!("v1,2-{k}")),
        _ => (format!("10.{k}.0-ABCD"), format!("10.{k}.0-ABCD")),
    }
}

pub fn c12(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "objects sharing one identity but differing in content, spread over plain files, universal binaries, zip archives \
         and successive runs with different thread counts; what is stored first must stay, complete and described by its \
         own metadata, and must not displace other objects; non-trivial = distinct (packing of the duplicates, threads, steps)",
    );
    let mut r = Rng::new(ctx.seed ^ 0xC12);
    let bin = ctx.bins.join("symsorter");
    let mut area = Area::new(ctx);
    let n = ctx.scale(70, 3000);
    for i in 0..n {
        if !ctx.time_left() {
            rep.count("stopped_at_time_limit");
            break;
        }
        let dir = area.next();
        let out = dir.join("out");
        let mut stored: BTreeMap<String, Node> = BTreeMap::new();
        let steps = 1 + r.below(3);
        let nb = 2 + r.below(6);
        let base = universe(&mut r, nb);
        // colliding Mach-O identities feed universal binaries
        let shared: Vec<[u8; 16]> = (0..3).map(|_| objs::id16(&mut r)).collect();
        let level = r.below(2);
        let prefix = r.chance(1, 3).then(|| "p".to_string());
        for step in 0..steps {
            rep.eval();
            let mut objs: Vec<Obj> = vec![];
            for o in &base {
                for _ in 0..r.below(4) {
                    objs.push(variant(&mut r, o));
                }
            }
            for id in &shared {
                for _ in 0..r.below(3) {
                    objs.push(objs::macho(&mut r, *id, Kind::Debug, None));
                }
            }
            objs.extend(universe(&mut r, 1 + i % 4).into_iter().filter(|o| o.kind != Kind::Ignored));
            let items = pack(&mut r, objs, false);
            let mut opts = Opts::random(&mut r);
            opts.level = level;
            opts.prefix = prefix.clone();
            if r.chance(1, 3) {
                opts.bundle = Some(format!("b{step}"));
            }
            let root = dir.join(format!("in{step}"));
            std::fs::create_dir_all(&root).unwrap();
            write_items(&root, &items);
            let det = json!({"seed": ctx.seed, "run": i, "step": step, "opts": opts.describe(),
                "files": items.iter().map(|it| format!("{}:{}", it.path.display(), it.objs.iter().map(|(_, o)| o.uid[..8].to_string()).collect::<Vec<_>>().join("+"))).collect::<Vec<_>>()});
            let run = proc::run(&mut sorter(&bin, &opts, &dir, &out, &[root]), WATCHDOG);
            if !judge_exit(&mut rep, &det, &run, true) {
                break;
            }
            let snap = snapshot(&opts.root(&out));
            // nothing that was stored before has changed
            for (rel, node) in &stored {
                rep.count("earlier_files_rechecked");
                if snap.get(rel) != Some(node) {
                    let what = if rel.ends_with(".meta") { "metadata of a stored file was replaced" } else { "stored file was overwritten" };
                    rep.violate(what, json!({"run": det, "file": rel}));
                }
            }
            // what is new is complete and consistent
            let mut cands: BTreeMap<String, Vec<Cand>> = BTreeMap::new();
            add_cands(&mut cands, &items);
            let mut fresh = vec![];
            for (rel, c) in &cands {
                rep.add("duplicates_offered", c.len() as u64 - 1 + stored.contains_key(rel) as u64);
                if stored.contains_key(rel) {
                    continue;
                }
                match snap.get(rel) {
                    Some(Node::File(b)) => {
                        check_stored(&mut rep, &det, level, rel, b, snap.get(&format!("{rel}.meta")), c);
                        fresh.push(rel.rsplit_once('/').unwrap().0.replacen('/', "", 1));
                    }
                    _ => rep.violate("object displaced by a duplicate of another one", json!({"run": det, "file": rel})),
                }
            }
            for (rel, node) in &snap {
                if matches!(node, Node::File(_)) && !rel.contains("/refs/") && !rel.starts_with("bundles/") {
                    stored.entry(rel.clone()).or_insert_with(|| node.clone());
                    let owner = rel.strip_suffix(".meta").unwrap_or(rel);
                    if !cands.contains_key(owner) && !snap.contains_key(owner) {
                        rep.violate("a file was stored that no input accounts for", json!({"run": det, "file": rel}));
                    }
                }
            }
            // the number reported is the number of files that were added
            if !opts.quiet {
                match counted(&run.out, "Sorted") {
                    Some(c) if c == fresh.len() as u64 => rep.count("summaries_compared"),
                    c => rep.violate("summary miscounts the sorted files", json!({"run": det, "expected": fresh.len(), "printed": c})),
                }
            }
            if let Some(b) = &opts.bundle {
                fresh.sort();
                if let Some(Node::File(m)) = snap.get(&format!("bundles/{b}")) {
                    let v: Value = serde_json::from_slice(m).unwrap_or_default();
                    let mut got: Vec<String> =
                        v["debug_ids"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default();
                    got.sort();
                    rep.count("manifests_reconciled");
                    // every stored file is listed by the run that stored it
                    if fresh.iter().any(|f| !got.contains(f)) {
                        rep.violate("bundle manifest loses files stored by the run", json!({"run": det, "stored": fresh.len(), "listed": got.len()}));
                    }
                }
            }
            rep.distinct((
                items.iter().map(|it| (it.zipped, it.objs.len())).collect::<BTreeSet<_>>(),
                opts.threads,
                step,
            ));
            rep.sample(|| det.clone());
        }
    }
    area.clear();
    rep.require("duplicates_offered", 200);
    rep.require("earlier_files_rechecked", 200);
    rep
}

/// Another file with the same identity and kind.
fn variant(r: &mut Rng, o: &Obj) -> Obj {
    match o.fmt {
        "elf" => objs::elf(r, &unhex(&o.uid), o.kind),
        "macho" => objs::macho(r, unhex(&o.uid).try_into().unwrap(), o.kind, None),
        "wasm" => objs::wasm(r, &unhex(&o.uid)[1..], o.kind),
        "sourcebundle" => objs::sourcebundle(r, o),
        _ => o.clone(),
    }
}

