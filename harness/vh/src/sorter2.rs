//! symsorter under malformed input, faults, hostile names and source collection; sanitizer runs.
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;

use serde_json::{json, Value};
use symbolic::common::ByteView;
use symbolic::debuginfo::sourcebundle::SourceBundle;
use symbolic::debuginfo::{Archive, FileFormat, ObjectKind};

use crate::common::*;
use crate::objs::{self, Kind, Obj};
use crate::proc::{self, snapshot, Node};
use crate::sorter::*;

/// What the documented rules say about one file's content.
pub enum Class {
    /// not a debug information file
    Unknown,
    /// the objects that are stored, and whether processing then ends in an error
    Known { stored: Vec<(String, Kind, Vec<u8>, String, String)>, error: bool },
    /// the format library itself crashes on it: outside of this code base
    Unusable,
}

pub fn classify(bytes: &[u8]) -> Class {
    let r = guard(|| {
        if Archive::peek(bytes) == FileFormat::Unknown {
            return Class::Unknown;
        }
        let mut stored = vec![];
        let Ok(a) = Archive::parse(bytes) else {
            return Class::Known { stored, error: true };
        };
        for o in a.objects() {
            let Ok(o) = o else {
                return Class::Known { stored, error: true };
            };
            let kind = match o.kind() {
                ObjectKind::Executable | ObjectKind::Library => Kind::Executable,
                ObjectKind::Debug => Kind::Debug,
                ObjectKind::Sources => Kind::Sources,
                _ => continue,
            };
            let code = o.code_id().filter(|c| !c.is_nil()).map(|c| c.to_string());
            let uid = match code {
                Some(c) if o.file_format() != FileFormat::Pe => c,
                _ if !o.debug_id().is_nil() => o.debug_id().breakpad().to_string().to_lowercase(),
                _ => return Class::Known { stored, error: true },
            };
            if uid.len() < 2 || (kind == Kind::Sources && o.file_format() != FileFormat::SourceBundle) {
                return Class::Known { stored, error: true };
            }
            stored.push((uid, kind, o.data().to_vec(), o.arch().to_string(), o.file_format().to_string()));
        }
        Class::Known { stored, error: false }
    });
    r.unwrap_or(Class::Unusable)
}

/// Damages a valid file in one of many ways.
pub fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..1 + r.below(3) {
        if v.is_empty() {
            break;
        }
        // structure lives in the head
        let head = v.len().min(*r.pick(&[64usize, 256, 1024, usize::MAX]));
        match r.below(8) {
            0 => v.truncate(r.below(v.len())),
            1 => v.truncate(r.below(head)),
            2 => {
                let p = r.below(head);
                v[p] ^= 1 << r.below(8);
            }
            3 => {
                let p = r.below(head);
                v[p] = *r.pick(&[0, 0xff, 0x7f, 0x80, 1]);
            }
            4 => {
                let p = r.below(head);
                let n = r.below(32).min(v.len() - p);
                v[p..p + n].fill(*r.pick(&[0, 0xff]));
            }
            5 => {
                let p = r.below(head);
                let n = 4.min(v.len() - p);
                let x = r.pick(&[u32::MAX, 0x7fff_ffff, 0x8000_0000, 0, 1, 0xffff]).to_le_bytes();
                v[p..p + n].copy_from_slice(&x[..n]);
            }
            6 => {
                let p = r.below(head);
                let n = r.below(64).min(v.len() - p);
                v.drain(p..p + n);
            }
            _ => {
                let p = r.below(head);
                let n = r.below(64);
                let ins = r.bytes(n);
                v.splice(p..p, ins);
            }
        }
    }
    v
}

/// Files whose identity is missing, empty or too short.
fn degenerate(r: &mut Rng) -> Vec<u8> {
    let id = objs::id16(r);
    match r.below(12) {
        9..=11 => {
            // what looks like a debug file and is none
            let mut v: Vec<u8> = r
                .pick(&[
                    &b"\x7fELF\x02\x01\x01\0"[..],
                    b"\x7fELF\x01\x01\x01\0",
                    b"\xcf\xfa\xed\xfe\x07\0\0\x01",
                    b"\xca\xfe\xba\xbe\0\0\0\x02",
                    b"Microsoft C/C++ MSF 7.00\r\n\x1aDS\0\0\0\0\x02\0\0",
                    b"BSJB\x01\0\x01\0",
                    b"SYSB\x02\0\0\0",
                    b"\0asm\x01\0\0\0",
                    b"MODULE Linux x86_64 zz",
                ])
                .to_vec();
            let n = r.below(200);
            if r.chance(1, 2) {
                v.resize(v.len() + n, 0);
            } else {
                let b = r.bytes(n);
                v.extend(b);
            }
            v
        }
        0 => objs::wasm(r, &[], Kind::Executable).bytes,
        1 => b"MODULE Linux x86_64 00000000000000000000000000000000000000000 a\nINFO CODE_ID zz!\nPUBLIC 1 0 x\n".to_vec(),
        2 => format!("MODULE Linux x86_64 {} a\nINFO CODE_ID q\nPUBLIC 1 0 x\n", objs::breakpad(r, id, 0, None, &[]).uid.to_uppercase()).into_bytes(),
        3 => b"MODULE Linux x86_64 00000000000000000000000000000000000000000 a\nINFO CODE_ID A\nPUBLIC 1 0 x\n".to_vec(),
        4 => objs::pe(r, [0; 16], 0).bytes,
        5 => objs::macho(r, [0; 16], Kind::Debug, None).bytes,
        6 => objs::fat(r, &[]),
        7 => objs::elf(r, &[r.clone().next() as u8], Kind::Debug).bytes,
        _ => b"\0asm\x01\0\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec(),
    }
}

pub fn c13(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "trees mixing valid files with damaged ones (truncations, flipped and oversized header fields, missing identities, \
         broken zip archives), with and without --ignore-errors; and runs whose output hits a size limit, followed by a \
         retry; non-trivial = distinct (how the tree is broken, options, outcome)",
    );
    let mut r = Rng::new(ctx.seed ^ 0xC13);
    let bin = ctx.bins.join("symsorter");
    let mut area = Area::new(ctx);
    let n = ctx.scale(260, 6000);
    for i in 0..n {
        if !ctx.time_left() {
            rep.count("stopped_at_time_limit");
            break;
        }
        rep.eval();
        let dir = area.next();
        if i % 5 == 4 {
            fault_run(ctx, &mut rep, &mut r, &bin, &dir, i);
            continue;
        }
        let mut opts = Opts::random(&mut r);
        opts.ignore = r.chance(1, 2);
        opts.sources = r.chance(1, 3);
        opts.level = r.below(2);
        let root = dir.join("in");
        std::fs::create_dir_all(&root).unwrap();
        // path -> candidates; the second map holds what may or may not be there
        let mut must: BTreeMap<String, Vec<Cand>> = BTreeMap::new();
        let mut may: BTreeMap<String, Vec<Cand>> = BTreeMap::new();
        let mut bad = 0;
        let mut kinds = BTreeSet::new();
        let nfiles = 1 + r.below(8);
        let all_good = r.chance(1, 6);
        for k in 0..nfiles {
            let name = format!("f{k}.x");
            let o = objs::any(&mut r);
            let (what, bytes) = match r.below(if all_good { 1 } else { 7 }) {
                0 | 1 => ("valid", o.bytes.clone()),
                2 | 3 => ("mutated", mutate(&mut r, &o.bytes)),
                4 => ("degenerate", degenerate(&mut r)),
                5 => {
                    let sl: Vec<Obj> = (0..1 + r.below(4))
                        .map(|_| {
                            let id = objs::id16(&mut r);
                            let mut m = objs::macho(&mut r, id, Kind::Debug, None);
                            if r.chance(1, 3) {
                                let nb = mutate(&mut r, &m.bytes);
                                if nb.len() >= 12 {
                                    m.bytes = nb;
                                }
                            }
                            m
                        })
                        .collect();
                    let f = objs::fat(&mut r, &sl);
                    ("universal", if r.chance(1, 3) { mutate(&mut r, &f) } else { f })
                }
                _ => {
                    // a zip archive, possibly broken
                    let mut members = vec![];
                    let mut classes = vec![];
                    for m in 0..1 + r.below(4) {
                        let o = objs::any(&mut r);
                        let b = match r.below(8) {
                            0 | 1 => mutate(&mut r, &o.bytes),
                            2 => degenerate(&mut r),
                            _ => o.bytes,
                        };
                        classes.push((format!("m{m}"), classify(&b)));
                        members.push((format!("d/m{m}"), b));
                    }
                    let z = objs::zip(&mut r, &members);
                    let broken = r.chance(1, 2);
                    let z = if broken {
                        let mut z = z;
                        match r.below(7) {
                            0 => z.truncate(2 + r.below(z.len() - 2)),
                            1 => z = b"PK\x03\x04 this is no archive".to_vec(),
                            k @ 2..=5 => {
                                // one member that cannot be opened or read: encrypted, packed by an
                                // unknown method, without its local header, or with another checksum
                                let heads = |sig: &[u8], z: &[u8]| -> Vec<usize> {
                                    (0..z.len().saturating_sub(46)).filter(|&p| z[p..].starts_with(sig)).collect()
                                };
                                let (c, l) = (heads(b"PK\x01\x02", &z), heads(b"PK\x03\x04", &z));
                                if !c.is_empty() && c.len() == l.len() {
                                    let m = r.below(c.len());
                                    match k {
                                        2 => {
                                            z[c[m] + 8] |= 1;
                                            z[l[m] + 6] |= 1;
                                        }
                                        3 => {
                                            z[c[m] + 10] = 0x63;
                                            z[l[m] + 8] = 0x63;
                                        }
                                        4 => z[l[m] + 3] = b'X',
                                        _ => z[c[m] + 16] ^= 0x10,
                                    }
                                }
                            }
                            _ => {
                                // damage content, not the directory
                                let p = 40 + r.below(z.len() / 2);
                                if p < z.len() {
                                    z[p] ^= 0x55;
                                }
                            }
                        }
                        z
                    } else {
                        z
                    };
                    std::fs::write(root.join(&name), &z).unwrap();
                    kinds.insert(if broken { "zip-broken" } else { "zip" });
                    let unusable = classes.iter().any(|c| matches!(c.1, Class::Unusable));
                    // the archive library decides which members can be read
                    let mut open = !broken;
                    if broken {
                        if let Ok(Ok(mut a)) = guard(|| zip::ZipArchive::new(std::io::Cursor::new(z.clone()))) {
                            let mut readable = true;
                            let mut failed = false;
                            for ix in 0..a.len() {
                                use std::io::Read;
                                let mut v = vec![];
                                let ok = a.by_index(ix).is_ok_and(|mut f| f.read_to_end(&mut v).is_ok());
                                failed |= !ok;
                                readable &= ok && members.iter().any(|m| m.1 == v);
                            }
                            open = readable && a.len() == members.len();
                            if failed {
                                rep.count("archives_with_unreadable_members");
                                bad += 1;
                            } else if !open {
                                // whatever it yields is not predicted; only the verdict on crashes stands
                                bad += 1000;
                            }
                        } else {
                            bad += 1;
                        }
                    }
                    if unusable {
                        std::fs::remove_file(root.join(&name)).unwrap();
                        continue;
                    }
                    if open {
                        for (m, c) in classes {
                            if let Class::Known { stored, error } = c {
                                bad += error as u32;
                                for s in stored {
                                    insert(&mut must, m.clone(), s);
                                }
                            }
                        }
                    } else {
                        for (m, c) in classes {
                            if let Class::Known { stored, .. } = c {
                                for s in stored {
                                    insert(&mut may, m.clone(), s);
                                }
                            }
                        }
                    }
                    continue;
                }
            };
            match classify(&bytes) {
                Class::Unusable => {
                    rep.count("files_the_format_library_cannot_survive");
                    continue;
                }
                Class::Unknown if bytes.starts_with(b"PK") => continue,
                Class::Unknown => {
                    kinds.insert("unknown");
                }
                Class::Known { stored, error } => {
                    bad += error as u32;
                    kinds.insert(if error { what } else { "valid" });
                    rep.count(if error { "malformed_files" } else { "well_formed_files" });
                    for s in stored {
                        insert(&mut must, name.clone(), s);
                    }
                }
            }
            std::fs::write(root.join(&name), &bytes).unwrap();
        }
        let det = json!({"seed": ctx.seed, "run": i, "opts": opts.describe(), "malformed": bad, "kinds": kinds});
        let out = dir.join("out");
        let run = proc::run(&mut sorter(&bin, &opts, &dir, &out, &[root.clone()]), WATCHDOG);
        if run.timed_out {
            rep.violate("no end within the watchdog", det.clone());
            continue;
        }
        if run.crashed() {
            rep.violate("crash", json!({"run": det, "result": run.json()}));
            continue;
        }
        let unpredicted = bad >= 1000;
        let bad = bad % 1000;
        rep.distinct((&kinds, opts.ignore, bad.min(3), run.code, opts.sources));
        match (run.code, bad > 0, opts.ignore) {
            (Some(0), true, false) if !unpredicted => {
                rep.violate("malformed file passed over silently", json!({"run": det, "result": run.json()}))
            }
            // whether debug info yields a source bundle is for the format library to say
            (Some(1), false, false) if opts.sources => rep.count("refusals_with_sources"),
            (Some(1), false, false) if !unpredicted => {
                rep.violate("well-formed files refused", json!({"run": det, "result": run.json()}))
            }
            (Some(1), _, true) => {
                rep.violate("--ignore-errors did not ignore a malformed file", json!({"run": det, "result": run.json()}))
            }
            (Some(0), ..) => rep.count("runs_accepted"),
            (Some(1), ..) => {
                rep.count("runs_refused");
                if !run.err.contains("error") {
                    rep.violate("failure without an error message", json!({"run": det, "result": run.json()}));
                }
            }
            other => rep.violate("unexpected exit status", json!({"run": det, "status": format!("{other:?}"), "result": run.json()})),
        }
        if opts.ignore && bad > 0 && run.ok() {
            rep.count("runs_with_ignored_errors");
            if !run.err.contains("ignored error") {
                rep.violate("ignored errors are not reported", json!({"run": det, "result": run.json()}));
            }
        }
        let snap = snapshot(&opts.root(&out));
        if run.ok() && !opts.quiet {
            let stored = snap
                .iter()
                .filter(|(k, n)| matches!(n, Node::File(_)) && ["executable", "debuginfo", "sourcebundle"].contains(&k.rsplit('/').next().unwrap()))
                .count() as u64;
            match counted(&run.out, "Sorted") {
                Some(c) if c == stored => rep.count("summaries_compared"),
                c => rep.violate("summary miscounts the sorted files", json!({"run": det, "stored": stored, "printed": c})),
            }
        }
        let mut all = must.clone();
        for (k, v) in may {
            all.entry(k).or_default().extend(v);
        }
        if run.ok() && !unpredicted {
            for rel in must.keys() {
                rep.count("survivors_checked");
                if !matches!(snap.get(rel), Some(Node::File(_))) {
                    rep.violate("well-formed object was lost next to a malformed one", json!({"run": det, "file": rel}));
                }
            }
        }
        for (rel, node) in &snap {
            let Node::File(b) = node else { continue };
            let base = rel.rsplit('/').next().unwrap();
            if !["executable", "debuginfo", "sourcebundle"].contains(&base) {
                continue;
            }
            if base == "sourcebundle" && opts.sources {
                continue;
            }
            match all.get(rel) {
                Some(c) => {
                    // duplicates by chance are fine; a stored file is always complete
                    match decode_stored(opts.level, b) {
                        Ok(d) if c.iter().any(|c| c.bytes == d) => rep.count("stored_files_compared"),
                        _ => rep.violate("stored file is incomplete", json!({"run": det, "file": rel, "exit": run.code})),
                    }
                }
                None if unpredicted => {}
                None => rep.violate("a file was stored that no input accounts for", json!({"run": det, "file": rel})),
            }
        }
        rep.sample(|| json!({"run": det, "exit": run.code, "stored": must.len()}));
    }
    // bad command lines and outputs
    let dir = area.next();
    std::fs::write(dir.join("file"), b"x").unwrap();
    let o = objs::any(&mut r);
    std::fs::create_dir_all(dir.join("in")).unwrap();
    std::fs::write(dir.join("in/o"), &o.bytes).unwrap();
    crate::common::full_device(&dir.join("full"));
    for (what, out, inp) in [("output is a file", "file", "in"), ("output below a file", "file/x", "in"), ("output is a device", "full", "in")] {
        if out == "full" && dir.join("full").symlink_metadata().is_err() {
            continue;
        }
        rep.eval();
        let run = proc::run(&mut sorter(&bin, &Opts::plain(), &dir, Path::new(out), &[PathBuf::from(inp)]), WATCHDOG);
        rep.count("unusable_outputs");
        if run.crashed() || run.ok() {
            rep.violate(format!("{what}: not reported"), run.json());
        }
    }
    area.clear();
    rep.require("malformed_files", 50);
    rep.require("summaries_compared", 10);
    rep.require("archives_with_unreadable_members", 10);
    rep.require("runs_with_ignored_errors", 10);
    rep.require("survivors_checked", 50);
    rep.require("write_faults_hit", 5);
    rep
}

fn insert(m: &mut BTreeMap<String, Vec<Cand>>, name: String, s: (String, Kind, Vec<u8>, String, String)) {
    let (uid, kind, bytes, _arch, _fmt) = s;
    m.entry(format!("{}/{}/{}", &uid[..2], &uid[2..], kind.file()).replace("//", "/")).or_default().push(Cand {
        bytes,
        name,
        arch: "",
        fmt: "",
    });
}

/// The output device refuses writes beyond a limit; then sorting is retried without it.
fn fault_run(ctx: &Ctx, rep: &mut Report, r: &mut Rng, bin: &Path, dir: &Path, i: usize) {
    let n = 2 + r.below(10);
    let objs: Vec<Obj> = universe(r, n).into_iter().filter(|o| o.kind != Kind::Ignored).collect();
    let items = pack(r, objs, false);
    let root = dir.join("in");
    std::fs::create_dir_all(&root).unwrap();
    write_items(&root, &items);
    let mut opts = Opts::random(r);
    opts.level = r.below(3);
    let limit = 200 + r.next() % 20_000;
    let det = json!({"seed": ctx.seed, "run": i, "opts": opts.describe(), "size_limit": limit});
    let out = dir.join("out");
    // part of it may be stored already
    let mut earlier = BTreeMap::new();
    if r.chance(1, 2) {
        let pre = dir.join("pre");
        std::fs::create_dir_all(&pre).unwrap();
        let part: Vec<Item> = items.iter().filter(|_| r.chance(1, 2)).cloned().collect();
        write_items(&pre, &part);
        let first = proc::run(&mut sorter(bin, &opts, dir, &out, &[pre]), WATCHDOG);
        if !first.ok() {
            rep.violate("valid input refused", json!({"run": det, "result": first.json()}));
            return;
        }
        earlier = snapshot(&opts.root(&out));
        rep.count("write_faults_on_a_filled_store");
    }
    let mut cmd = sorter(bin, &opts, dir, &out, &[root.clone()]);
    proc::limit_file_size(&mut cmd, limit);
    let run = proc::run(&mut cmd, WATCHDOG);
    if run.timed_out {
        rep.violate("no end within the watchdog", det);
        return;
    }
    if run.crashed() {
        rep.violate("crash", json!({"run": det, "result": run.json()}));
        return;
    }
    let mut store: BTreeMap<String, Vec<Cand>> = BTreeMap::new();
    for it in &items {
        for (name, o) in &it.objs {
            store.entry(o.rel_path()).or_default().push(Cand { bytes: o.bytes.clone(), name: name.clone(), arch: o.arch, fmt: o.fmt });
        }
    }
    let complete = |snap: &BTreeMap<String, Node>| {
        let mut partial = vec![];
        let mut missing = vec![];
        for (rel, c) in &store {
            match snap.get(rel) {
                Some(Node::File(b)) => {
                    if !decode_stored(opts.level, b).is_ok_and(|d| c.iter().any(|c| c.bytes == d)) {
                        partial.push(rel.clone());
                    }
                }
                _ => missing.push(rel.clone()),
            }
        }
        (partial, missing)
    };
    let after = snapshot(&opts.root(&out));
    for (rel, node) in &earlier {
        if matches!(node, Node::File(_)) && after.get(rel) != Some(node) {
            rep.violate("failed run damaged what was stored before", json!({"run": det, "file": rel}));
        }
    }
    let (partial, missing) = complete(&after);
    rep.count(if run.ok() { "write_faults_missed" } else { "write_faults_hit" });
    rep.distinct(("fault", run.code, missing.len().min(5), opts.level));
    let told = opts.ignore && run.err.contains("ignored error");
    if run.ok() && !told && !(partial.is_empty() && missing.is_empty()) {
        rep.violate("failed writes were not reported", json!({"run": det, "incomplete": partial, "missing": missing}));
    }
    if !partial.is_empty() {
        rep.violate("failed run left a truncated file in the store", json!({"run": det, "files": partial}));
    }
    let again = proc::run(&mut sorter(bin, &opts, dir, &out, &[root]), WATCHDOG);
    if !again.ok() {
        rep.violate("retry after a failed write is refused", json!({"run": det, "result": again.json()}));
        return;
    }
    let snap = snapshot(&opts.root(&out));
    let (partial, missing) = complete(&snap);
    if !(partial.is_empty() && missing.is_empty()) {
        rep.violate("retry does not complete the store", json!({"run": det, "incomplete": partial, "missing": missing}));
    }
    for rel in store.keys() {
        if let Some(Node::File(m)) = snap.get(&format!("{rel}.meta")) {
            if serde_json::from_slice::<Value>(m).is_ok() {
                rep.count("retried_files_checked");
                continue;
            }
        }
        rep.violate("retry leaves broken metadata", json!({"run": det, "file": rel}));
    }
}

pub fn c14(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "hostile file, folder, archive member and bundle names (parent references, separators, empty, control characters) \
         under strace: every path opened for writing, created, renamed, linked or removed must lie below the output \
         (and prefix); everything else in the scratch area must stay as it was; non-trivial = distinct written path shape",
    );
    let mut r = Rng::new(ctx.seed ^ 0xC14);
    let bin = ctx.bins.join("symsorter");
    let mut area = Area::new(ctx);
    let n = ctx.scale(90, 1500);
    let strace = Command::new("strace").arg("-V").output().is_ok();
    // what is under test is what keeps writes contained: run it where an escape reaches scratch files only,
    // as an unprivileged user if that is possible, and name nothing real
    let unprivileged = unprivileged(&ctx.work, &bin);
    rep.count(if unprivileged { "runs as an unprivileged user" } else { "runs as this user" });
    let bundle_ids = [
        "", ".", "..", "../x", "a/b", "/ABS/x", "a b", "x\n", "..\\x", "ok", "10.3_A", "...", ".hidden", "a..b", "_x", "x_", "ü", "-", ",", "a,b-c.d",
    ];
    for i in 0..n {
        if !ctx.time_left() {
            rep.count("stopped_at_time_limit");
            break;
        }
        rep.eval();
        // deep enough that no relative name used here leaves the scratch area
        let top = area.next();
        let dir = top.join("d/e/e/p/e/r");
        std::fs::create_dir_all(dir.join("neighbour/sub")).unwrap();
        std::fs::create_dir_all(top.join("abs")).unwrap();
        let abs = top.join("abs").display().to_string();
        std::fs::write(dir.join("neighbour/keep"), b"keep").unwrap();
        std::fs::write(dir.join("x"), b"keep").unwrap();
        let n = 1 + r.below(8);
        let objs = universe(&mut r, n);
        let mut items = pack(&mut r, objs, true);
        // archive members that try to climb out
        let mut members = vec![];
        for nm in ["../../x", "/ABS/x", "..", "a/../../../x", "refs/../..", "C:\\x\\y"] {
            let o = objs::any(&mut r);
            members.push((nm.replace("/ABS", &abs), o.bytes));
        }
        items.push(Item { path: "evil.zip".into(), bytes: objs::zip(&mut r, &members), objs: vec![], zipped: true });
        let mut opts = Opts::random(&mut r);
        opts.level = r.below(2);
        opts.prefix = r.chance(1, 2).then(|| "pre".into());
        let folder = r.pick(&["plain", "..x", " ", "___", "a\\..\\b", "ünï", "x;y", "...", "+", ".git"]).to_string();
        let root = dir.join("in").join(&folder);
        std::fs::create_dir_all(&root).unwrap();
        write_items(&root, &items);
        // source bundles and breakpad files whose identifiers and source paths are hostile
        let src = dir.join("in/src.c");
        std::fs::write(&src, b"int main;\n").unwrap();
        let id = objs::id16(&mut r);
        let bp = objs::breakpad(&mut r, id, 0, None, &[src.display().to_string(), format!("{}/../../x", root.display()), "../../x".into()]);
        std::fs::write(root.join("bp.sym"), &bp.bytes).unwrap();
        std::fs::write(root.join("evil.sym"), format!("MODULE Linux x86_64 {} ../../x\nINFO CODE_ID ../../../../ab/../cd x\nPUBLIC 1 0 x\n", objs::breakpad(&mut r, id, 1, None, &[]).uid.to_uppercase())).unwrap();
        opts.sources = r.chance(1, 2);
        opts.ignore |= opts.sources && r.chance(3, 4);
        let mode = r.below(3);
        if mode == 0 {
            opts.multi = true;
        } else if mode == 1 {
            opts.bundle = Some(r.pick(&bundle_ids).replace("/ABS", &abs));
        }
        let out = dir.join("out");
        if unprivileged {
            give_away(&top);
        }
        let mut before = snapshot(&top);
        let mut cmd = sorter(&bin, &opts, &dir, &out, &[root.clone()]);
        let log = ctx.work.join("strace.log");
        if strace {
            let _ = std::fs::remove_file(&log);
            let mut c = Command::new("strace");
            c.args(["-f", "-qq", "-s", "4096", "-e", "trace=open,openat,openat2,creat,mkdir,mkdirat,rename,renameat,renameat2,link,linkat,symlink,symlinkat,unlink,unlinkat,rmdir,truncate,mknod,mknodat,chmod,fchmodat,chown,fchownat,utimensat", "-o"]);
            c.arg(&log).arg(&bin).args(cmd.get_args()).current_dir(&dir);
            c.env("RAYON_NUM_THREADS", opts.threads.to_string()).env("NO_COLOR", "1");
            cmd = c;
        }
        let det = json!({"seed": ctx.seed, "run": i, "opts": opts.describe(), "folder": folder});
        if unprivileged {
            use std::os::unix::process::CommandExt;
            let _ = std::fs::write(&log, b"");
            let _ = std::os::unix::fs::chown(&log, Some(NOBODY), Some(NOBODY));
            cmd.uid(NOBODY).gid(NOBODY);
        }
        let run = proc::run(&mut cmd, WATCHDOG);
        if run.timed_out {
            rep.inconclusive = Some("watchdog".into());
            continue;
        }
        if run.crashed() {
            rep.violate("crash", json!({"run": det, "result": run.json()}));
            continue;
        }
        rep.count(if run.ok() { "runs_accepted" } else { "runs_refused" });
        let base = opts.root(&out);
        if strace {
            match judge_trace(&mut rep, &det, &std::fs::read_to_string(&log).unwrap_or_default(), &dir, &out, &base) {
                0 => rep.count("runs_without_trace"),
                n => {
                    rep.count("runs_traced");
                    rep.add("traced_operations", n);
                }
            }
        }
        let mut after = snapshot(&top);
        let rel_base = base.strip_prefix(&top).unwrap().to_string_lossy().into_owned();
        // intermediate directories of the output path itself may be created
        for m in [&mut before, &mut after] {
            m.retain(|k, v| {
                !(k == &rel_base || k.starts_with(&format!("{rel_base}/")) || (rel_base.starts_with(&format!("{k}/")) && *v == Node::Dir))
            });
        }
        if after != before {
            let diff: Vec<_> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, _)| k).chain(before.keys().filter(|k| !after.contains_key(*k))).take(5).collect();
            rep.violate("something outside of the output was changed", json!({"run": det, "paths": diff}));
        }
        rep.count("surroundings_compared");
        // below the output only the documented shapes exist
        let snap = snapshot(&base);
        for (k, v) in &snap {
            let c: Vec<&str> = k.split('/').collect();
            let hex = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit() || ('a'..='f').contains(&c));
            let safe = |s: &str| !s.is_empty() && s != "." && s != ".." && s.chars().all(|c| c.is_ascii_alphanumeric() || ".,-_".contains(c));
            let leaf = |s: &str| ["executable", "debuginfo", "sourcebundle"].contains(&s.strip_suffix(".meta").unwrap_or(s));
            let ok = match (c.as_slice(), v) {
                (["bundles"], Node::Dir) => true,
                (["bundles", b], Node::File(_)) => safe(b),
                ([a], Node::Dir) => a.len() == 2 && hex(a),
                ([a, b], Node::Dir) => a.len() == 2 && hex(a) && hex(b),
                ([_, _, l], Node::File(_)) => leaf(l),
                ([_, _, "refs"], Node::Dir) => true,
                ([_, _, "refs", b], Node::File(_)) => safe(b),
                _ => false,
            };
            if !ok {
                rep.violate("unexpected file in the store", json!({"run": det, "path": k}));
            }
            rep.distinct((c.len(), v == &Node::Dir, c.last().map(|l| l.to_string()).filter(|l| !hex(l)), opts.prefix.is_some()));
        }
        if let Some(b) = &opts.bundle {
            let acceptable = !b.is_empty() && b != "." && b != ".." && !b.contains(['/', '\\', '\n', ' ']) && b.is_ascii();
            if run.ok() && !acceptable {
                rep.violate("unsafe bundle id accepted", json!({"run": det, "bundle": b}));
            }
            if !run.ok() && ["ok", "10.3_A", "a,b-c.d"].contains(&b.as_str()) {
                rep.violate("safe bundle id refused", json!({"run": det, "result": run.json()}));
            }
            if !acceptable && !run.ok() && !snap.is_empty() {
                rep.violate("refused run wrote to the store", json!({"run": det, "bundle": b}));
            }
            rep.count("bundle_ids_tried");
        }
        rep.sample(|| json!({"run": det, "exit": run.code, "created": snap.len()}));
    }
    area.clear();
    rep.require("surroundings_compared", 30);
    rep
}

const NOBODY: u32 = 65534;

/// Whether the program can be run as a user who owns nothing but the scratch files given to them.
fn unprivileged(work: &Path, bin: &Path) -> bool {
    use std::os::unix::fs::PermissionsExt;
    use std::os::unix::process::CommandExt;
    if unsafe { libc::geteuid() } != 0 {
        return false;
    }
    // the scratch area, and the folder check.py made around it; nothing else gets another mode
    let around = work.parent().filter(|p| p.file_name().is_some_and(|n| n.to_string_lossy().starts_with("vh-C14-")));
    for d in [Some(work), around].into_iter().flatten() {
        let _ = std::fs::set_permissions(d, std::fs::Permissions::from_mode(0o711));
    }
    let probe = work.join("probe");
    if std::fs::create_dir_all(&probe).is_err() {
        return false;
    }
    give_away(&probe);
    let ok = Command::new("sh").arg("-c").arg("touch x && \"$0\" --version").arg(bin).current_dir(&probe).uid(NOBODY).gid(NOBODY).output();
    let _ = std::fs::remove_dir_all(&probe);
    ok.is_ok_and(|o| o.status.success())
}

/// Hands a scratch directory and everything in it to the unprivileged user.
fn give_away(dir: &Path) {
    let _ = std::os::unix::fs::lchown(dir, Some(NOBODY), Some(NOBODY));
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.file_type().is_ok_and(|t| t.is_dir()) {
            give_away(&e.path());
        } else {
            let _ = std::os::unix::fs::lchown(e.path(), Some(NOBODY), Some(NOBODY));
        }
    }
}

/// Checks every mutating file operation of a recorded trace; returns how many there were.
fn judge_trace(rep: &mut Report, det: &Value, log: &str, cwd: &Path, out: &Path, base: &Path) -> u64 {
    let mut n = 0;
    for line in log.lines() {
        let line = line.trim_start_matches(|c: char| c.is_ascii_digit() || c == ' ');
        let Some((call, rest)) = line.split_once('(') else { continue };
        let reads = ["open", "openat", "openat2"].contains(&call);
        if reads && !(rest.contains("O_WRONLY") || rest.contains("O_RDWR") || rest.contains("O_CREAT") || rest.contains("O_TRUNC")) {
            continue;
        }
        if !call.chars().all(|c| c.is_ascii_alphanumeric()) {
            continue;
        }
        // the quoted path arguments
        for p in quoted(rest) {
            n += 1;
            let full = if p.starts_with('/') { PathBuf::from(&p) } else { cwd.join(&p) };
            let mut norm = PathBuf::new();
            for c in full.components() {
                match c {
                    std::path::Component::ParentDir => {
                        norm.pop();
                    }
                    std::path::Component::CurDir => {}
                    c => norm.push(c),
                }
            }
            let making_root = call.starts_with("mkdir") && base.starts_with(&norm) && (norm.starts_with(out) || out.starts_with(&norm));
            let harmless = norm == Path::new("/dev/tty") || norm == Path::new("/dev/null");
            if !(norm.starts_with(base) || making_root || harmless) {
                rep.violate("operation outside of the output", json!({"run": det, "call": line.chars().take(300).collect::<String>()}));
            }
        }
    }
    n
}

fn quoted(s: &str) -> Vec<String> {
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' {
            let mut cur = vec![];
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' && i + 1 < b.len() {
                    i += 1;
                    match b[i] {
                        b'n' => cur.push(b'\n'),
                        b't' => cur.push(b'\t'),
                        c @ b'0'..=b'7' => {
                            let mut v = (c - b'0') as u32;
                            let mut k = 0;
                            while k < 2 && i + 1 < b.len() && (b'0'..=b'7').contains(&b[i + 1]) {
                                i += 1;
                                v = v * 8 + (b[i] - b'0') as u32;
                                k += 1;
                            }
                            cur.push(v as u8);
                        }
                        c => cur.push(c),
                    }
                } else {
                    cur.push(b[i]);
                }
                i += 1;
            }
            out.push(String::from_utf8_lossy(&cur).into_owned());
        }
        i += 1;
    }
    out
}

pub fn c15(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "debug files (breakpad text and compiler-produced DWARF) referring to existing, missing, oversized and precompiled \
         source files, sorted with source collection; stored bundles must hold exactly the eligible sources and the summary \
         must count them; non-trivial = distinct (kinds of source files, bundles expected)",
    );
    let mut r = Rng::new(ctx.seed ^ 0xC15);
    let bin = ctx.bins.join("symsorter");
    let mut area = Area::new(ctx);
    let n = ctx.scale(80, 1500);
    let have_clang = ["clang", "ld64.lld-18", "dsymutil-18"]
        .iter()
        .all(|c| Command::new(c).arg("--version").output().is_ok_and(|o| o.status.success()));
    let have_gcc = Command::new("gcc").arg("--version").output().is_ok_and(|o| o.status.success());
    for i in 0..n {
        if !ctx.time_left() {
            rep.count("stopped_at_time_limit");
            break;
        }
        rep.eval();
        let dir = area.next();
        let srcs = dir.join("src");
        let root = dir.join("in");
        std::fs::create_dir_all(srcs.join("sub dir")).unwrap();
        std::fs::create_dir_all(&root).unwrap();
        // a pool of source files
        let mut pool: Vec<(String, Option<Vec<u8>>)> = vec![];
        for k in 0..2 + r.below(8) {
            let (name, eligible, body): (String, bool, Option<Vec<u8>>) = match r.below(12) {
                9 => (
                    format!("other{k}{}", r.pick(&[".PCH", ".gch", ".pcm", "", ".cpp", ".rs", ".S", ".bin"])),
                    true,
                    Some(format!("// {}\n", r.hex(8)).into_bytes()),
                ),
                10 => (format!("link{k}.c"), true, Some(format!("// linked {}\n", r.hex(8)).into_bytes())),
                11 => (format!("empty{k}.c"), true, Some(vec![])),
                0 => (format!("missing{k}.c"), false, None),
                1 => (format!("pre{k}.pch"), false, Some(b"pch".to_vec())),
                2 if i % 6 == 0 => (format!("huge{k}.c"), false, Some(vec![b'x'; 10 * 1024 * 1024 + 1])),
                3 => (format!("sub dir/ünï{k}.c"), true, Some(format!("int v{};\n", r.hex(8)).into_bytes())),
                4 => (format!("pch{k}.c"), true, Some(format!("// pch {}\n", r.hex(8)).into_bytes())),
                5 if i % 6 == 0 => (format!("edge{k}.c"), true, Some(vec![b'y'; 10 * 1024 * 1024])),
                6 => (
                    format!("{}{k}{}", r.pick(&["a.pch", "build.pch/gen", "pch"]), r.pick(&[".h", ".pch.c", ".PCH.cc", ".pch~"])),
                    true,
                    Some(format!("// {}\n", r.hex(8)).into_bytes()),
                ),
                _ => (format!("f{k}.c"), true, Some(format!("int f{}(void) {{ return {k}; }}\n", r.hex(6)).into_bytes())),
            };
            let p = srcs.join(&name);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            if let Some(b) = &body {
                if name.starts_with("link") {
                    let target = srcs.join(format!("target{k}"));
                    std::fs::write(&target, b).unwrap();
                    std::os::unix::fs::symlink(&target, &p).unwrap();
                } else {
                    std::fs::write(&p, b).unwrap();
                }
            }
            pool.push((p.display().to_string(), body.filter(|_| eligible)));
        }
        let mut opts = Opts::random(&mut r);
        opts.level = r.below(2);
        opts.sources = true;
        opts.quiet = false;
        if r.chance(1, 2) {
            opts.bundle = Some("B1".into());
        }
        // uid -> expected sources of its bundle (generated), or the bundle given as input
        let mut expect: BTreeMap<String, BTreeMap<String, Vec<u8>>> = BTreeMap::new();
        let mut given: BTreeMap<String, Obj> = BTreeMap::new();
        let mut all: Vec<Obj> = vec![];
        for _ in 0..1 + r.below(5) {
            let mut files: Vec<(String, Option<Vec<u8>>)> = vec![];
            for _ in 0..r.below(5) {
                files.push(r.pick(&pool).clone());
            }
            let id = objs::id16(&mut r);
            let code = r.bytes(20);
            let code = r.chance(1, 2).then_some(&code[..]);
            let names: Vec<String> = files.iter().map(|f| f.0.clone()).collect();
            let o = objs::breakpad(&mut r, id, 0, code, &names);
            let want: BTreeMap<String, Vec<u8>> = files.into_iter().filter_map(|(n, b)| Some((n, b?))).collect();
            if r.chance(1, 4) {
                let s = objs::sourcebundle(&mut r, &o);
                given.insert(s.dir(), s.clone());
                all.push(s);
            } else if !want.is_empty() {
                expect.insert(o.dir(), want);
            }
            all.push(o);
        }
        // executables never become candidates, even with companions
        let n_exe = r.below(3);
        for o in universe(&mut r, n_exe) {
            if o.kind == Kind::Executable {
                all.push(o);
            }
        }
        if have_gcc && i % 3 == 0 {
            if let Some((o, want)) = compiled(&mut r, &srcs, i) {
                if !want.is_empty() {
                    expect.insert(o.dir(), want);
                }
                all.push(o);
                rep.count("dwarf_objects");
            }
        }
        let mut items: Vec<Item> = all
            .iter()
            .enumerate()
            .map(|(k, o)| {
                let name = format!("o{k}.x");
                Item { path: name.clone().into(), bytes: o.bytes.clone(), objs: vec![(name, o.clone())], zipped: false }
            })
            .collect();
        let mut total = all.len();
        if have_clang && i % 3 == 1 {
            // universal dSYM files, every slice with its own sources
            let n = 1 + r.below(3);
            let slices: Vec<_> = (0..n).filter_map(|k| compiled_macho(&mut r, &srcs, i * 10 + k, k)).collect();
            if slices.len() == n {
                let bytes = if n == 1 && r.chance(1, 2) {
                    slices[0].0.bytes.clone()
                } else {
                    objs::fat(&mut r, &slices.iter().map(|s| s.0.clone()).collect::<Vec<_>>())
                };
                total += n;
                for (o, want) in slices {
                    if !want.is_empty() {
                        expect.insert(o.dir(), want);
                    }
                }
                items.push(Item { path: "App.dSYM".into(), bytes, objs: vec![], zipped: false });
                rep.add("dsym_slices", n as u64);
            }
        }
        // in one folder, or each file in one of several that are bundles of their own
        let mut inputs = vec![root.clone()];
        if r.chance(1, 4) {
            opts.bundle = None;
            opts.multi = true;
            inputs = (0..1 + r.below(3)).map(|k| root.join(format!("B{k}"))).collect();
            for (k, it) in items.iter_mut().enumerate() {
                // what belongs together stays together
                let owner = all.get(k).map_or(0, |o| usize::from(o.dir().as_bytes()[0]) % inputs.len());
                it.path = PathBuf::from(format!("B{owner}")).join(&it.path);
            }
            for p in &inputs {
                std::fs::create_dir_all(p).unwrap();
            }
            rep.count("runs_over_several_bundles");
        }
        write_items(&root, &items);
        let out = dir.join("out");
        let det = json!({"seed": ctx.seed, "run": i, "opts": opts.describe(), "objects": total, "bundles": expect.len(), "given": given.len()});
        let run = proc::run(&mut sorter(&bin, &opts, &dir, &out, &inputs), WATCHDOG);
        if run.timed_out {
            rep.inconclusive = Some("watchdog".into());
            continue;
        }
        if !run.ok() {
            rep.violate("valid input refused", json!({"run": det, "result": run.json()}));
            continue;
        }
        let snap = snapshot(&opts.root(&out));
        for (d, o) in &given {
            match snap.get(&format!("{d}/sourcebundle")) {
                Some(Node::File(b)) if decode_stored(opts.level, b).ok().as_deref() == Some(&o.bytes[..]) => rep.count("given_bundles_kept"),
                _ => rep.violate("a source bundle among the inputs was replaced", json!({"run": det, "object": d})),
            }
        }
        for (k, v) in &snap {
            let Some(d) = k.strip_suffix("/sourcebundle") else { continue };
            let Node::File(b) = v else { continue };
            if given.contains_key(d) {
                continue;
            }
            let Some(want) = expect.get(d) else {
                rep.violate("source bundle without any eligible source", json!({"run": det, "object": d}));
                continue;
            };
            let Ok(data) = decode_stored(opts.level, b) else {
                rep.violate("stored file is not compressed as requested", json!({"run": det, "object": d}));
                continue;
            };
            match read_bundle(&data) {
                Ok(got) => {
                    rep.count("bundles_compared");
                    rep.add("bundled_sources", got.len() as u64);
                    if &got != want {
                        rep.violate(
                            "source bundle holds other sources than the object refers to",
                            json!({"run": det, "object": d, "expected": want.keys().collect::<Vec<_>>(), "bundled": got.keys().collect::<Vec<_>>()}),
                        );
                    }
                }
                Err(e) => rep.violate("stored source bundle cannot be read", json!({"run": det, "object": d, "error": e})),
            }
            let uid = d.replacen('/', "", 1);
            if let Ok(sb) = SourceBundle::parse(&data) {
                let got = sb.code_id().map(|c| c.to_string()).unwrap_or_else(|| sb.debug_id().breakpad().to_string().to_lowercase());
                if got != uid {
                    rep.violate("source bundle carries another identity", json!({"run": det, "object": d, "identity": got}));
                }
            }
        }
        for d in expect.keys() {
            if !snap.contains_key(&format!("{d}/sourcebundle")) {
                rep.violate("no source bundle for an object with sources", json!({"run": det, "object": d, "sources": expect[d].keys().collect::<Vec<_>>()}));
            }
        }
        match counted(&run.out, "Created") {
            Some(c) if c == expect.len() as u64 => rep.count("summaries_compared"),
            c => rep.violate("summary miscounts the created source bundles", json!({"run": det, "expected": expect.len(), "printed": c})),
        }
        match counted(&run.out, "Sorted") {
            Some(c) if c == (total + expect.len()) as u64 => rep.count("summaries_compared"),
            c => rep.violate("summary miscounts the sorted files", json!({"run": det, "expected": total + expect.len(), "printed": c})),
        }
        if opts.bundle.is_some() {
            if let Some(Node::File(m)) = snap.get("bundles/B1") {
                let v: Value = serde_json::from_slice(m).unwrap_or_default();
                let got = v["debug_ids"].as_array().map(Vec::len).unwrap_or(0);
                if got != total + expect.len() {
                    rep.violate("bundle manifest does not list the created source bundles", json!({"run": det, "expected": total + expect.len(), "listed": got}));
                }
                rep.count("manifests_reconciled");
            }
        }
        rep.distinct((expect.len(), given.len(), expect.values().map(|v| v.len()).collect::<Vec<_>>()));
        rep.sample(|| json!({"run": det, "sources": expect.values().next().map(|v| v.keys().cloned().collect::<Vec<_>>())}));
    }
    area.clear();
    rep.require("bundles_compared", 20);
    rep.require("summaries_compared", 40);
    rep
}

/// Sources of a bundle by the path they are known under.
pub fn read_bundle(data: &[u8]) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let sb = SourceBundle::parse(data).map_err(|e| e.to_string())?;
    let s = sb.debug_session().map_err(|e| e.to_string())?;
    let mut out = BTreeMap::new();
    for f in s.files() {
        let f = f.map_err(|e| e.to_string())?;
        let p = f.abs_path_str();
        let d = s.source_by_path(&p).map_err(|e| e.to_string())?.ok_or("listed source is missing")?;
        out.insert(p, d.contents().unwrap_or_default().as_bytes().to_vec());
    }
    Ok(out)
}

/// A slice of a dSYM file with real DWARF; some slices come without any sources.
fn compiled_macho(r: &mut Rng, srcs: &Path, tag: usize, k: usize) -> Option<(Obj, BTreeMap<String, Vec<u8>>)> {
    let file = |ext: &str| srcs.join(format!("mach{tag}.{ext}"));
    let (c, o, lib, dwarf) = (file("c"), file("o"), file("dylib"), file("dwarf"));
    let body = format!("static inline int h(int x) {{ return x * {}; }}\nint f{tag}(int x) {{ return h(x) + {}; }}\n", r.below(99), r.below(99));
    std::fs::write(&c, &body).ok()?;
    let arch = k % 2;
    let name = ["arm64", "x86_64"][arch];
    let debug = if r.chance(3, 4) { "-g" } else { "-g0" };
    let run = |c: &mut Command| c.output().is_ok_and(|o| o.status.success());
    let made = run(Command::new("clang").args([&format!("--target={name}-apple-macos11"), debug, "-c", "-o"]).arg(&o).arg(&c))
        && run(Command::new("ld64.lld-18")
            .args(["-arch", name, "-platform_version", "macos", "11", "11", "-dylib", "-undefined", "dynamic_lookup", "-o"])
            .arg(&lib)
            .arg(&o))
        && run(Command::new("dsymutil-18").args(["--flat", "-o"]).arg(&dwarf).arg(&lib));
    if !made {
        return None;
    }
    let mut b = std::fs::read(&dwarf).ok()?;
    // an identity of its own
    let uuid = objs::id16(r);
    let mut at = 32;
    let mut done = false;
    while at + 24 <= b.len() {
        let cmd = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
        let len = u32::from_le_bytes(b[at + 4..at + 8].try_into().unwrap()) as usize;
        if cmd == 0x1b && len == 24 {
            b[at + 8..at + 24].copy_from_slice(&uuid);
            done = true;
            break;
        }
        at += len.max(8);
    }
    if !done {
        return None;
    }
    let mut out = objs::macho(r, uuid, Kind::Debug, Some([1, 0][arch]));
    out.bytes = b;
    objs::self_check(&out);
    if debug == "-g0" && r.chance(1, 2) {
        std::fs::remove_file(&c).ok()?;
    }
    let want = if debug == "-g" { [(c.display().to_string(), body.into_bytes())].into() } else { BTreeMap::new() };
    Some((out, want))
}

/// A real object file with DWARF, made by the system compiler from known sources.
fn compiled(r: &mut Rng, srcs: &Path, i: usize) -> Option<(Obj, BTreeMap<String, Vec<u8>>)> {
    let mut want = BTreeMap::new();
    let mut cs = vec![];
    for k in 0..1 + r.below(3) {
        let p = srcs.join(format!("gcc{i}_{k}.c"));
        let h = srcs.join(format!("gcc{i}_{k}.h"));
        let hb = format!("static inline int h{k}(int x) {{ return x * {}; }}\n", r.below(1000));
        let b = format!("#include \"gcc{i}_{k}.h\"\nint f{k}(int x) {{ return h{k}(x) + {}; }}\n", r.below(1000));
        std::fs::write(&p, &b).unwrap();
        std::fs::write(&h, &hb).unwrap();
        want.insert(p.display().to_string(), b.into_bytes());
        want.insert(h.display().to_string(), hb.into_bytes());
        cs.push(p);
    }
    let so = srcs.join("lib.so");
    let ok = Command::new("gcc")
        .args(["-g", "-shared", "-fPIC", "-nostdlib", "-Wl,--build-id=sha1", "-o"])
        .arg(&so)
        .args(&cs)
        .output()
        .ok()?;
    if !ok.status.success() {
        return None;
    }
    let dbg = srcs.join("lib.debug");
    let ok = Command::new("objcopy").arg("--only-keep-debug").arg(&so).arg(&dbg).output().ok()?;
    if !ok.status.success() {
        return None;
    }
    let bv = ByteView::open(&dbg).ok()?;
    let a = Archive::parse(&bv).ok()?;
    let o = a.objects().next()?.ok()?;
    if o.kind() != ObjectKind::Debug {
        return None;
    }
    let uid = o.code_id()?.to_string();
    Some((
        Obj {
            bytes: bv.to_vec(),
            fmt: "elf",
            kind: Kind::Debug,
            uid,
            arch: "x86_64",
            code_id: o.code_id(),
            debug_id: Some(o.debug_id()),
            object_type: symbolicator_sources::ObjectType::Elf,
            lookup: Some(symbolicator_sources::FileType::ElfDebug),
        },
        want,
    ))
}

pub fn c16(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "AddressSanitizer builds (nightly) of symsorter and wasm-split over damaged files of every format, in parallel and \
         with all options; non-trivial = distinct (tool, outcome, kind of damage)",
    );
    let mut r = Rng::new(ctx.seed ^ 0xC16);
    let asan = ctx.asan_bins.clone().expect("asan build");
    let mut area = Area::new(ctx);
    let n = ctx.scale(40, 1500);
    for i in 0..n {
        if !ctx.time_left() {
            rep.count("stopped_at_time_limit");
            break;
        }
        let dir = area.next();
        let root = dir.join("in");
        std::fs::create_dir_all(&root).unwrap();
        let mut opts = Opts::random(&mut r);
        opts.ignore = true;
        opts.sources = r.chance(1, 2);
        opts.level = r.below(3);
        for k in 0..24 {
            let o = objs::any(&mut r);
            let b = match r.below(6) {
                0 => o.bytes.clone(),
                1 => degenerate(&mut r),
                2 => {
                    let z = objs::zip(&mut r, &[("a".into(), o.bytes.clone())]);
                    if r.chance(1, 2) {
                        mutate(&mut r, &z)
                    } else {
                        z
                    }
                }
                _ => mutate(&mut r, &o.bytes),
            };
            if matches!(classify(&b), Class::Unusable) {
                rep.count("files_the_format_library_cannot_survive");
                continue;
            }
            std::fs::write(root.join(format!("f{k}")), b).unwrap();
            rep.count("hostile_files");
        }
        let runs: Vec<(&str, Command)> = {
            let mut v = vec![("symsorter", sorter(&asan.join("symsorter"), &opts, &dir, &dir.join("out"), &[root.clone()]))];
            for k in 0..4 {
                let id = objs::id16(&mut r);
                let w = crate::wasm::module(&mut r, crate::wasm::Want::Any).bytes;
                let w = if k % 2 == 0 { mutate(&mut r, &w) } else { w };
                let p = dir.join(format!("w{k}.wasm"));
                std::fs::write(&p, w).unwrap();
                let mut c = Command::new(asan.join("wasm-split"));
                c.arg(&p).arg("--out").arg(dir.join("o.wasm")).arg("--debug-out").arg(dir.join("d.wasm"));
                if r.chance(1, 2) {
                    c.args(["--strip", "--strip-names"]);
                }
                let _ = id;
                v.push(("wasm-split", c));
            }
            v
        };
        for (tool, mut c) in runs {
            rep.eval();
            c.env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=77:halt_on_error=1").env("RUST_BACKTRACE", "0");
            let run = proc::run(&mut c, WATCHDOG);
            if run.timed_out {
                rep.count("watchdog_fired");
                rep.inconclusive = Some(format!("{tool} exceeded the watchdog"));
                continue;
            }
            rep.count(&format!("sanitized_runs_{tool}"));
            rep.distinct((tool, run.code, run.err.lines().next().map(|l| l.chars().take(40).collect::<String>())));
            if run.err.contains("AddressSanitizer") || run.code == Some(77) || run.signal.is_some() {
                rep.violate(format!("memory error in {tool}"), json!({"seed": ctx.seed, "run": i, "result": run.json()}));
            } else if run.crashed() {
                rep.violate(format!("{tool} panicked"), json!({"seed": ctx.seed, "run": i, "result": run.json()}));
            }
        }
        rep.sample(|| json!({"run": i, "opts": opts.describe()}));
    }
    area.clear();
    rep.require("sanitized_runs_symsorter", 10);
    rep.require("sanitized_runs_wasm-split", 20);
    rep
}
