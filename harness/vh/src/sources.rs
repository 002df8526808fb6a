//! Monitors over the symbol source library: locations, indexes, filters, configs, identities.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Component, Path};
use std::sync::Arc;

use serde_json::{json, Value};
use symbolic::common::{CodeId, DebugId};
use symbolicator_sources::*;
use url::Url;

use crate::common::*;
use crate::gen::{self, *};
use crate::model;

/// What the oracle of containment says about one location string.
fn escape_reason(p: &str) -> Option<&'static str> {
    if p.is_empty() {
        return Some("empty location");
    }
    if p.starts_with('/') || p.starts_with('\\') {
        return Some("absolute location");
    }
    if p.split(['/', '\\']).any(|c| c == "..") {
        return Some("parent directory component");
    }
    if p.chars().any(|c| c.is_control()) {
        return Some("control character");
    }
    None
}

fn normalize(p: &Path) -> Option<std::path::PathBuf> {
    let mut out = std::path::PathBuf::new();
    for c in p.components() {
        match c {
            Component::ParentDir => {
                if !out.pop() {
                    return None;
                }
            }
            Component::CurDir => {}
            c => out.push(c),
        }
    }
    Some(out)
}

/// Text that begins like the location: its first characters, first segments, or all of it.
fn kin_of(r: &mut Rng, p: &str) -> String {
    let t = match r.below(4) {
        0 => p.split('/').next().unwrap().to_string(),
        1 => p.chars().take(1 + r.below(p.chars().count())).collect(),
        2 => p.rsplit_once('/').map_or(p, |x| x.0).to_string(),
        _ => p.to_string(),
    };
    t.trim_end_matches('/').to_string()
}

fn common_cfg(layout: DirectoryLayout) -> CommonSourceConfig {
    CommonSourceConfig { layout, ..Default::default() }
}

pub fn c01(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "random and hostile object identifiers (file names '..', '/', control characters, empty ids, >255 bytes) \
         x 7 layouts x 3 casings x 15 file types x 5 source kinds; non-trivial = distinct produced location",
    );
    let mut r = Rng::new(ctx.seed ^ 0xC01);
    let fs_roots = ["/srv/symbols", "relative/dir", "/", "/srv/with space"];
    let bases = [
        "https://symbols.example.com/",
        "https://symbols.example.com/a/b",
        "https://u:p@symbols.example.com:8443/x%20y/z/",
        "http://127.0.0.1:3021/symbols",
        "https://symbols.example.com/q?token=1",
    ];
    let prefixes = ["", "/", "pre", "pre/fix/", "/a//b/", " sp ace"];
    let n = ctx.scale(300_000, 20_000_000);
    for i in 0..n {
        if !ctx.time_left() {
            rep.count("stopped_at_time_limit");
            break;
        }
        let oid = if i % 4 == 0 { plain_object_id(&mut r) } else { object_id(&mut r) };
        let layout = DirectoryLayout { ty: *r.pick(&LAYOUTS), casing: *r.pick(&CASINGS) };
        let ft = *r.pick(&FILE_TYPES);
        rep.eval();
        let paths = match guard(|| {
            // both the direct producer and the iterator the service uses
            let mut v = get_directory_paths(layout, ft, &oid);
            let cfg = common_cfg(layout);
            v.extend(SourceLocationIter::new(&cfg, &[ft], None, &oid).map(|l| l.to_string()));
            v
        }) {
            Ok(p) => p,
            Err(e) => {
                rep.violate(format!("panic:{:?}", layout.ty), json!({"oid": describe(&oid), "ft": ft.as_ref(), "panic": e}));
                continue;
            }
        };
        for p in &paths {
            rep.count("locations");
            rep.distinct(p);
            if let Some(why) = escape_reason(p) {
                rep.violate(
                    format!("{why}:{:?}", layout.ty),
                    json!({"oid": describe(&oid), "ft": ft.as_ref(), "layout": format!("{layout:?}"), "location": p}),
                );
                continue;
            }
            if i < 40 {
                rep.sample(|| json!({"oid": describe(&oid), "ft": ft.as_ref(), "layout": format!("{layout:?}"), "location": p}));
            }
            let loc = SourceLocation::new(p.clone());
            // filesystem
            // the configured place sometimes shares text with what is looked up
            let kin = (r.chance(1, 4) && !p.contains(['?', '#', '%', '\\'])).then(|| kin_of(&mut r, p))
                .filter(|k| !k.split('/').any(|s| matches!(s, "" | "." | "..")));
            let kin_root = kin.as_ref().map(|k| format!("/{k}"));
            let root = kin_root.as_deref().unwrap_or(*r.pick(&fs_roots));
            let f = FilesystemRemoteFile::new(
                Arc::new(FilesystemSourceConfig { id: SourceId::new("f"), path: root.into(), files: common_cfg(layout) }),
                loc.clone(),
            );
            let full = f.path();
            let ok = normalize(&full).is_some_and(|q| {
                let root = normalize(Path::new(root)).unwrap();
                q.starts_with(&root) && q.components().count() > root.components().count()
            });
            if !ok {
                rep.violate("filesystem root escaped", json!({"oid": describe(&oid), "root": root, "path": full.display().to_string()}));
            }
            // http
            let mut base = Url::parse(r.pick(&bases)).unwrap();
            if let Some(k) = &kin {
                base.path_segments_mut().unwrap().pop_if_empty().extend(k.split('/'));
                rep.count("sources_akin_to_the_location");
            }
            let h = HttpRemoteFile::new(
                Arc::new(HttpSourceConfig {
                    id: SourceId::new("h"),
                    url: base.clone(),
                    headers: BTreeMap::new(),
                    files: common_cfg(layout),
                    accept_invalid_certs: false,
                }),
                loc.clone(),
            );
            match h.url() {
                Err(e) => rep.violate("url failed", json!({"location": p, "error": e.to_string()})),
                Ok(u) => {
                    let bp = base.path().trim_end_matches('/').to_string();
                    let inside = u.scheme() == base.scheme()
                        && u.host() == base.host()
                        && u.port_or_known_default() == base.port_or_known_default()
                        && u.username() == base.username()
                        && u.password() == base.password()
                        && u.query() == base.query()
                        && u.fragment().is_none()
                        && u.path().starts_with(&format!("{bp}/"))
                        && u.path().len() > bp.len() + 1;
                    if !inside {
                        rep.violate("url base escaped", json!({"location": p, "base": base.as_str(), "url": u.as_str()}));
                    }
                    // every component is carried over, decoded it reads as the location again
                    let got: Vec<String> = u.path()[bp.len()..]
                        .split('/')
                        .filter(|s| !s.is_empty())
                        .map(percent_decode)
                        .collect();
                    let want: Vec<String> =
                        p.split('/').filter(|s| !s.is_empty() && *s != ".").map(str::to_string).collect();
                    if got != want {
                        rep.violate("url does not denote the location", json!({"location": p, "url": u.as_str()}));
                    }
                    if u.path()[bp.len()..].contains("//") {
                        rep.violate("url has segments the location does not have", json!({"location": p, "base": base.as_str(), "url": u.as_str()}));
                    }
                    // surplus slashes of a location do not matter
                    if r.chance(1, 8) {
                        let surplus = r.pick(&["//{}", "{}/", "/{}//"]).replace("{}", &p.replacen('/', "//", 1 + r.below(2)));
                        match SourceLocation::new(surplus.clone()).to_url(&base) {
                            Ok(v) if v == u => rep.count("surplus_slashes"),
                            v => rep.violate("surplus slashes change the url", json!({"location": surplus, "base": base.as_str(), "url": v.map(|u| u.to_string()).ok()})),
                        }
                    }
                }
            }
            // buckets
            let prefix = match &kin {
                Some(k) if r.chance(1, 2) => k.as_str(),
                Some(k) => &format!("/{k}/"),
                None => *r.pick(&prefixes),
            };
            let s3 = S3RemoteFile::new(s3_source("s", prefix), loc.clone());
            let gcs = GcsRemoteFile::new(gcs_source("g", prefix), loc.clone());
            let t = prefix.trim_matches('/');
            for key in [s3.key(), gcs.key()] {
                let want = if t.is_empty() { p.clone() } else { format!("{t}/{p}") };
                if key != want {
                    rep.violate("bucket key", json!({"location": p, "prefix": prefix, "key": key}));
                }
                if key.starts_with('/') {
                    rep.violate("bucket key absolute", json!({"location": p, "prefix": prefix, "key": key}));
                }
            }
            rep.add("containment_checks", 5);
        }
    }
    rep.require("locations", 10_000);
    rep.require("sources_akin_to_the_location", 1_000);
    rep
}

pub fn percent_decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 {
            if let Ok(v) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                out.push(v);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}

fn s3_source(id: &str, prefix: &str) -> Arc<S3SourceConfig> {
    Arc::new(S3SourceConfig {
        id: SourceId::new(id),
        bucket: "bucket".into(),
        prefix: prefix.into(),
        source_key: Arc::new(S3SourceKey {
            region: "us-east-1".into(),
            aws_credentials_provider: AwsCredentialsProvider::Static,
            access_key: "k".into(),
            secret_key: "s".into(),
        }),
        files: CommonSourceConfig::default(),
    })
}

fn gcs_source(id: &str, prefix: &str) -> Arc<GcsSourceConfig> {
    Arc::new(GcsSourceConfig {
        id: SourceId::new(id),
        bucket: "bucket".into(),
        prefix: prefix.into(),
        source_key: Arc::new(GcsSourceKey { private_key: "k".into(), client_email: "e".into() }),
        files: CommonSourceConfig::default(),
    })
}

pub fn c02(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "identifiers x all 7 layouts x 3 casings x 15 file types compared with an independent model of the documented \
         conventions; non-trivial = distinct (layout, casing, file type, object type, produced list)",
    );
    let mut r = Rng::new(ctx.seed ^ 0xC02);
    let n = ctx.scale(6_000, 2_000_000);
    let mut combos = BTreeSet::new();
    // what an object of a type is looked for as
    use FileType::*;
    let native = [Breakpad, MachDebug, Pdb, ElfDebug];
    for name in ["elf", "macho", "pe", "pe_dotnet", "wasm", "unknown", "", "ELF", "proguard", "jvm", "pe-dotnet", "elf "] {
        rep.eval();
        let ty: ObjectType = name.parse().unwrap();
        let (want_ty, want): (_, Vec<FileType>) = match name {
            "elf" => (ObjectType::Elf, [ElfCode].into_iter().chain(native).collect()),
            "macho" => (ObjectType::Macho, [MachCode].into_iter().chain(native).collect()),
            "pe" => (ObjectType::Pe, [Pe].into_iter().chain(native).collect()),
            "pe_dotnet" => (ObjectType::PeDotnet, vec![PortablePdb]),
            "wasm" => (ObjectType::Wasm, vec![WasmCode, WasmDebug]),
            _ => (ObjectType::Unknown, FILE_TYPES.into_iter().filter(|f| *f != Il2cpp).collect()),
        };
        let got = FileType::from_object_type(ty);
        let set = |l: &[FileType]| l.iter().map(|f| format!("{f:?}")).collect::<BTreeSet<_>>();
        if ty != want_ty || (ty != ObjectType::Unknown && ty.to_string() != name) || ty.to_string().parse::<ObjectType>() != Ok(ty) {
            rep.violate("the type of an object is read or written as another", json!({"name": name, "read": ty.to_string()}));
        } else if set(got) != set(&want) || got.len() != want.len() || (ty != ObjectType::Unknown && got[0] != want[0]) {
            rep.violate("an object is not looked for as what it can be", json!({"type": name, "as": format!("{got:?}"), "should be": format!("{want:?}")}));
        }
        rep.count("object_types");
    }
    for i in 0..n {
        if !ctx.time_left() {
            rep.count("stopped_at_time_limit");
            break;
        }
        let oid = if i % 2 == 0 { plain_object_id(&mut r) } else { object_id(&mut r) };
        for ty in LAYOUTS {
            for casing in CASINGS {
                for ft in FILE_TYPES {
                    let layout = DirectoryLayout { ty, casing };
                    rep.eval();
                    let got = guard(|| get_directory_paths(layout, ft, &oid));
                    let again = guard(|| get_directory_paths(layout, ft, &oid.clone()));
                    let det = json!({"oid": describe(&oid), "ft": ft.as_ref(), "layout": format!("{layout:?}")});
                    let (Ok(got), Ok(again)) = (&got, &again) else {
                        rep.violate(format!("panic:{ty:?}"), json!({"case": det, "got": format!("{got:?}")}));
                        continue;
                    };
                    if got != again {
                        rep.violate("not deterministic", json!({"case": det, "a": got, "b": again}));
                    }
                    let want = model::locations(layout, ft, &oid);
                    if !want.contains(got) {
                        rep.violate(
                            format!("layout {ty:?} {}", ft.as_ref()),
                            json!({"case": det, "got": got, "acceptable": want}),
                        );
                    }
                    if !got.is_empty() {
                        rep.count("non_empty_answers");
                        combos.insert((format!("{ty:?}"), ft.as_ref().to_string(), format!("{casing:?}")));
                        rep.distinct((format!("{layout:?}"), ft.as_ref(), got));
                        if i < 4 {
                            rep.sample(|| json!({"case": det, "got": got}));
                        }
                    }
                }
            }
        }
    }
    rep.add("layout_casing_filetype_combinations_with_answers", combos.len() as u64);
    rep.require("non_empty_answers", 20_000);
    rep.require("layout_casing_filetype_combinations_with_answers", 120);
    rep.assumptions.push("pdb20-style debug identifiers are not modelled".into());
    rep
}

fn random_case(r: &mut Rng, s: &str) -> String {
    s.chars()
        .map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
        .collect()
}

pub fn c03(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "locations produced for random identifiers under symstore/ssqp, re-cased, fed to the request path parser; plus \
         arbitrary and near-miss strings; non-trivial = distinct parsed path",
    );
    let mut r = Rng::new(ctx.seed ^ 0xC03);
    let n = ctx.scale(600_000, 50_000_000);
    for _ in 0..n {
        if !ctx.time_left() {
            rep.count("stopped_at_time_limit");
            break;
        }
        rep.eval();
        if r.chance(1, 4) {
            // totality on junk
            let s = junk_path(&mut r);
            match guard(|| parse_symstore_path(&s)) {
                Err(e) => rep.violate("parser panic", json!({"path": s, "panic": e})),
                Ok(None) => {
                    // a path whose two file names agree must only be refused for a malformed id
                    let parts: Vec<&str> = s.splitn(3, '/').collect();
                    if parts.len() == 3
                        && parts[0].to_lowercase() == parts[2].to_lowercase()
                        && !parts[0].to_lowercase().ends_with(".pdb")
                    {
                        rep.violate("well-formed path refused", json!({"path": s}));
                    }
                    rep.count("junk_refused")
                }
                Ok(Some((fts, id))) => {
                    rep.count("junk_accepted");
                    rep.distinct(&s);
                    let parts: Vec<&str> = s.splitn(3, '/').collect();
                    if parts.len() != 3 || parts[0].to_lowercase() != parts[2].to_lowercase() {
                        rep.violate("mismatching file names accepted", json!({"path": s}));
                    } else if parts[0].to_ascii_lowercase() != parts[2].to_ascii_lowercase() {
                        rep.count("unicode_case_pairs");
                    }
                    // the convention writes a debug id as bare hex digits, nothing else
                    if fts.iter().any(|f| matches!(f, FileType::Pdb | FileType::PortablePdb))
                        && !parts[1].bytes().all(|b| b.is_ascii_hexdigit())
                    {
                        rep.violate("odd debug id spelling accepted", json!({"path": s, "id": describe(&id)}));
                    }
                    if fts.is_empty() || (id.code_id.is_none() && id.debug_id.is_none()) {
                        rep.violate("accepted without identity", json!({"path": s, "id": describe(&id)}));
                    } else if !fts.is_empty() {
                        leads_back(&mut rep, &s, fts[0], &id);
                    }
                }
            }
            continue;
        }
        let oid = if r.chance(1, 2) { plain_object_id(&mut r) } else { object_id(&mut r) };
        let ty = *r.pick(&[DirectoryLayoutType::Symstore, DirectoryLayoutType::Ssqp]);
        let layout = DirectoryLayout { ty, casing: *r.pick(&CASINGS) };
        let ft = *r.pick(&[
            FileType::ElfCode,
            FileType::ElfDebug,
            FileType::MachCode,
            FileType::MachDebug,
            FileType::Pdb,
            FileType::Pe,
            FileType::PortablePdb,
        ]);
        let Ok(paths) = guard(|| get_directory_paths(layout, ft, &oid)) else { continue };
        let Some(path) = paths.last().cloned() else { continue };
        let name = path.split('/').next().unwrap().to_string();
        let lname = name.to_lowercase();
        // an identifier's file type is ambiguous in the convention when names collide with the
        // reserved ones; the round trip is claimed for the unambiguous rest
        let ambiguous = match ft {
            FileType::Pe => lname.ends_with(".pdb"),
            FileType::Pdb | FileType::PortablePdb => !lname.ends_with(".pdb"),
            _ => false,
        };
        let malformed = match ft {
            FileType::ElfCode | FileType::ElfDebug | FileType::Pe => {
                oid.code_id.as_ref().is_none_or(|c| c.is_nil())
            }
            _ => false,
        };
        if ambiguous || malformed || !name.is_ascii() && layout_changes_non_ascii(&layout) {
            rep.count("ambiguous_skipped");
            continue;
        }
        let path = if r.chance(1, 2) { path } else { random_case(&mut r, &path) };
        rep.distinct(&path);
        let det = json!({"oid": describe(&oid), "ft": ft.as_ref(), "layout": format!("{layout:?}"), "path": path});
        let got = match guard(|| parse_symstore_path(&path)) {
            Ok(g) => g,
            Err(e) => {
                rep.violate("parser panic", json!({"case": det, "panic": e}));
                continue;
            }
        };
        let Some((fts, id)) = got else {
            rep.violate(format!("not parsed back:{}", ft.as_ref()), det);
            continue;
        };
        rep.count("round_trips");
        rep.sample(|| json!({"path": path, "types": fts.iter().map(|f| f.as_ref().to_string()).collect::<Vec<_>>(), "id": describe(&id)}));
        let want_ft = if ft == FileType::PortablePdb { FileType::Pdb } else { ft };
        if !fts.contains(&want_ft) {
            rep.violate(format!("file type lost:{}", ft.as_ref()), det.clone());
        }
        let leading = path.split('/').next().unwrap();
        let ok = match ft {
            FileType::ElfCode | FileType::ElfDebug => {
                id.code_id == oid.code_id && id.object_type == ObjectType::Elf
            }
            FileType::MachCode | FileType::MachDebug => {
                let want = oid
                    .code_id
                    .as_ref()
                    .map(|c| c.as_str().to_string())
                    .or(oid.debug_id.map(|d| d.uuid().as_simple().to_string()));
                id.code_id.as_ref().map(|c| c.as_str().to_string()) == want && id.object_type == ObjectType::Macho
            }
            FileType::Pdb | FileType::PortablePdb => {
                let want = oid.debug_id.map(|d| {
                    let age = if oid.object_type == ObjectType::PeDotnet { u32::MAX } else { d.appendix() };
                    DebugId::from_parts(d.uuid(), age)
                });
                id.debug_id == want && id.debug_file.as_deref() == Some(leading) && id.object_type == ObjectType::Pe
            }
            _ => {
                id.code_id == oid.code_id && id.code_file.as_deref() == Some(leading) && id.object_type == ObjectType::Pe
            }
        };
        if !ok {
            rep.violate(format!("identity lost:{}", ft.as_ref()), json!({"case": det, "parsed": describe(&id)}));
        }
        // and back: the parsed identifier leads to the same place under the same convention
        if layout.casing as u8 == FilenameCasing::Default as u8 {
            let l2 = DirectoryLayout { ty, casing: FilenameCasing::Lowercase };
            let p2 = guard(|| get_directory_paths(l2, want_ft, &id)).unwrap_or_default();
            let reserved = matches!(ft, FileType::ElfCode | FileType::MachCode) && lname.ends_with(".debug")
                || lname.ends_with(".dwarf");
            if !reserved && !p2.last().is_some_and(|p| p.to_lowercase() == path.to_lowercase()) {
                rep.violate(format!("lookup after parse differs:{}", ft.as_ref()), json!({"case": det, "regenerated": p2}));
            }
        }
    }
    rep.require("round_trips", 5_000);
    rep.require("junk_accepted", 200);
    rep.require("junk_led_back", 500);
    rep.require("named_debug_files", 200);
    rep.require("unicode_case_pairs", 200);
    rep
}

/// What an accepted path is parsed into must address that path again.
fn leads_back(rep: &mut Report, path: &str, ft: FileType, id: &ObjectId) {
    let low = path.to_lowercase();
    let parts: Vec<&str> = low.splitn(3, '/').collect();
    let (name, sig) = (parts[0], parts[1]);
    // a debug file is asked for under its own name or under the fixed one
    for (end, mark, want) in [(".debug", "elf-buildid-sym-", FileType::ElfDebug), (".dwarf", "mach-uuid-sym-", FileType::MachDebug)] {
        if name.ends_with(end) && sig.starts_with(mark) {
            rep.count("named_debug_files");
            if ft != want {
                rep.violate("debug file taken for another type", json!({"path": path, "type": ft.as_ref(), "id": describe(id)}));
                return;
            }
        }
    }
    let (mark, fixed) = match ft {
        FileType::ElfCode => ("elf-buildid-", None),
        FileType::ElfDebug => ("elf-buildid-sym-", Some("_.debug")),
        FileType::MachCode => ("mach-uuid-", None),
        FileType::MachDebug => ("mach-uuid-sym-", Some("_.dwarf")),
        _ => ("", None),
    };
    let Some(hex) = sig.strip_prefix(mark) else {
        rep.violate("accepted with another signature", json!({"path": path, "type": ft.as_ref()}));
        return;
    };
    // identifiers and names that cannot be written back as they stand
    let canonical = !hex.is_empty()
        && hex.bytes().all(|b| b.is_ascii_hexdigit())
        && match ft {
            FileType::MachCode | FileType::MachDebug => hex.len() == 32,
            FileType::Pdb | FileType::PortablePdb => (33..=40).contains(&hex.len()) && (hex.len() == 33 || hex.as_bytes()[32] != b'0'),
            FileType::Pe => hex.len() >= 8,
            _ => true,
        };
    let named = !matches!(name, "" | "." | "..")
        && name.len() < 200
        && path.len() < 400
        && !name.contains(|c: char| c.is_control() || c == '\\');
    if !canonical || !named {
        rep.count("junk_not_canonical");
        return;
    }
    let name = fixed.unwrap_or(name);
    let want = format!("{name}/{sig}/{name}");
    let l = DirectoryLayout { ty: DirectoryLayoutType::Symstore, casing: FilenameCasing::Default };
    let got = guard(|| get_directory_paths(l, ft, id)).unwrap_or_default();
    rep.count("junk_led_back");
    if !got.last().is_some_and(|p| p.to_lowercase() == want) {
        rep.violate(
            format!("accepted path is not where its identifiers lead:{}", ft.as_ref()),
            json!({"path": path, "id": describe(id), "regenerated": got}),
        );
    }
}

fn layout_changes_non_ascii(l: &DirectoryLayout) -> bool {
    // SSQP lowercases with Unicode rules and some characters have no inverse
    l.ty == DirectoryLayoutType::Ssqp
}

fn junk_path(r: &mut Rng) -> String {
    let sigs = [
        "elf-buildid-", "elf-buildid-sym-", "mach-uuid-", "mach-uuid-sym-", "ELF-BUILDID-SYM-", "Mach-Uuid-Sym-", "",
        "elf-buildid", "\u{212A}", "é",
    ];
    match r.below(6) {
        4 => {
            // one name in two cases, with letters ASCII knows nothing of
            let n: String = (0..1 + r.below(5)).map(|_| *r.pick(&['ä', 'Ö', 'é', 'Ж', 'ψ', 'a', 'Q', '_'])).collect();
            let ext = *r.pick(&[".so", ".dll", ".debug", ".dwarf", ".pdb", ""]);
            let sig = *r.pick(&["elf-buildid-", "elf-buildid-sym-", "mach-uuid-", "mach-uuid-sym-", ""]);
            let h = if ext == ".pdb" || sig.starts_with("mach") { 32 } else { 8 + r.below(33) };
            let tail = if ext == ".pdb" && sig.is_empty() { "1" } else { "" };
            format!("{}{ext}/{sig}{}{tail}/{}{ext}", n.to_lowercase(), r.hex(h), n.to_uppercase())
        }
        5 => {
            // debug ids in spellings other than the convention's
            let u = DebugId::from_uuid(symbolic::common::Uuid::from_slice(&r.bytes(16)).unwrap());
            let d = DebugId::from_parts(u.uuid(), r.below(20) as u32);
            let sig = match r.below(6) {
                0 => d.to_string(),
                1 => d.uuid().to_string(),
                2 => format!("{{{}}}", d.uuid()),
                3 => format!("{}-{}", d.uuid().as_simple(), d.appendix()),
                4 => d.breakpad().to_string(),
                _ => format!("urn:uuid:{}", d.uuid()),
            };
            let n = *r.pick(&["x.pdb", "X.PDB", "a.exe.pdb"]);
            format!("{n}/{sig}/{n}")
        }
        0 => {
            let n = r.below(24);
            (0..n)
                .map(|_| *r.pick(&['a', '/', '.', '0', 'F', '-', 'é', '\u{212A}', 'İ', '\u{0}', '\\', '_']))
                .collect()
        }
        1 => format!("{}/{}{}/{}", gen::name(r), r.pick(&sigs), gen::name(r), gen::name(r)),
        2 => {
            let n = gen::name(r);
            let h = r.below(45);
            format!("{n}/{}{}/{n}", r.pick(&sigs), r.hex(h))
        }
        _ => {
            let n = *r.pick(&["_.debug", "_.dwarf", "x.pdb", "x.PDB", "Ä.dll", "İ.so", "foo.debug", "Foo.DEBUG", "app.dwarf", "libx.so", "é.debug"]);
            let h = r.below(45);
            format!("{n}/{}{}/{n}", r.pick(&sigs), r.hex(h))
        }
    }
}

pub fn c04(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "random symstore index files (duplicates, CRLF, malformed lines, unicode, huge) parsed in several pieces, \
         appended, written, loaded; membership compared with a set model; non-trivial = distinct index contents",
    );
    let mut r = Rng::new(ctx.seed ^ 0xC04);
    let n = ctx.scale(8_000, 500_000);
    for _ in 0..n {
        if !ctx.time_left() {
            rep.count("stopped_at_time_limit");
            break;
        }
        rep.eval();
        let mut model: BTreeSet<String> = BTreeSet::new();
        let mut merged = SymstoreIndex::default();
        let mut lookups: Vec<(ObjectId, FileType)> = vec![];
        for _ in 0..1 + r.below(4) {
            let mut text = String::new();
            let eol = *r.pick(&["\n", "\r\n"]);
            let big = r.chance(1, 30);
            let nlines = r.below(if big { 3000 } else { 30 });
            for k in 0..nlines {
                let line = match r.below(8) {
                    0 => r.pick(&["", "garbage", "\"", "\"noid\",\"x\"", "\"\"", "no quotes\\id", "#"]).to_string(),
                    1 => {
                        // take an identifier and index exactly the file it denotes
                        let oid = plain_object_id(&mut r);
                        let ft = *r.pick(&[FileType::Pe, FileType::Pdb]);
                        let l = DirectoryLayout { ty: DirectoryLayoutType::Symstore, ..Default::default() };
                        let ps = get_directory_paths(l, ft, &oid);
                        let Some(p) = ps.last() else { continue };
                        let mut it = p.split('/');
                        let (nm, id) = (it.next().unwrap().to_string(), it.next().unwrap().to_string());
                        lookups.push((oid, ft));
                        format!("\"{nm}\\{id}\",\"D:\\x\\{nm}\"")
                    }
                    _ => {
                        let mut nm = gen::name(&mut r);
                        nm.retain(|c| !c.is_control() && c != '"' && c != '\\');
                        let h = r.below(34);
                        let id = r.hex(h).to_uppercase();
                        let tail = r.pick(&[",\"D:\\a\\b.dll\"", "", ",", ",\"x\\y\\z\"", "  "]);
                        format!("\"{nm}\\{id}\"{tail}")
                    }
                };
                // model of one line: first quoted string, split at its first backslash
                let mut q = line.splitn(3, '"');
                q.next();
                if let Some(entry) = q.next() {
                    if let Some(pos) = entry.find('\\') {
                        let (nm, id) = (&entry[..pos], &entry[pos + 1..]);
                        model.insert(format!("{nm}/{id}/{nm}"));
                        rep.count("valid_lines");
                    } else {
                        rep.count("malformed_lines");
                    }
                } else {
                    rep.count("malformed_lines");
                }
                text.push_str(&line);
                if k + 1 < nlines || r.chance(1, 2) {
                    text.push_str(eol);
                }
            }
            match guard(|| SymstoreIndex::parse_from_reader(text.as_bytes())) {
                Ok(Ok(ix)) => merged.append(ix),
                Ok(Err(e)) => rep.violate("parse failed", json!({"text": text, "error": e.to_string()})),
                Err(e) => rep.violate("parse panic", json!({"text": text, "panic": e})),
            }
        }
        let mut written = vec![];
        merged.write(&mut written).unwrap();
        if written.is_empty() {
            rep.violate("an index is stored as nothing", json!({"entries": model.len()}));
        }
        // a disk that is full
        let mut room = vec![0u8; r.below(written.len().max(1))];
        if !written.is_empty() && merged.write(&mut room[..]).is_ok() {
            rep.violate("an index that can not be stored is stored", json!({"bytes": written.len(), "room": room.len()}));
        }
        rep.count("full_disks");
        let loaded = match guard(|| SymstoreIndex::load(&written)) {
            Ok(Ok(l)) => l,
            other => {
                rep.violate("stored index cannot be loaded", json!({"bytes": String::from_utf8_lossy(&written), "got": format!("{other:?}")}));
                continue;
            }
        };
        for (what, ix) in [("parsed", &merged), ("reloaded", &loaded)] {
            let got: BTreeSet<String> = ix.iter().map(str::to_string).collect();
            if got != model {
                let missing: Vec<_> = model.difference(&got).take(3).collect();
                let extra: Vec<_> = got.difference(&model).take(3).collect();
                rep.violate(format!("{what} index differs"), json!({"missing": missing, "extra": extra}));
            }
            let six: SourceIndex = (*ix).clone().into();
            for p in &model {
                if !six.contains(p) {
                    rep.violate(format!("{what} index denies a listed file"), json!({"path": p}));
                }
                rep.count("positive_lookups");
            }
            for p in model.iter().take(20) {
                for q in [format!("{p}x"), { let mut q = p.clone(); q.pop(); q }, format!("/{p}"), p.to_uppercase() + "Q", p.to_uppercase(), p.to_lowercase(), p.replace('/', "\\"), p.trim().to_string()] {
                    if six.contains(&q) != model.contains(&q) {
                        rep.violate(format!("{what} index claims an unlisted file"), json!({"path": q}));
                    }
                    rep.count("negative_lookups");
                }
            }
            // a source with this index offers exactly the locations it lists
            let mut cfg = CommonSourceConfig::with_layout(DirectoryLayoutType::Symstore);
            cfg.has_index = true;
            for (oid, ft) in &lookups {
                let all = get_directory_paths(cfg.layout, *ft, oid);
                let want: Vec<String> = all.iter().rev().filter(|p| model.contains(*p)).cloned().collect();
                let got: Vec<String> =
                    SourceLocationIter::new(&cfg, &[*ft], Some(&six), oid).map(|l| l.to_string()).collect();
                if got != want || got.is_empty() {
                    rep.violate("indexed lookup", json!({"oid": describe(oid), "want": want, "got": got}));
                }
                rep.count("indexed_lookups");
            }
        }
        rep.distinct(&model);
        if model.len() < 6 {
            rep.sample(|| json!({"entries": model}));
        }
    }
    // non UTF-8 data is an error, never a silently shorter index
    for _ in 0..50 {
        rep.eval();
        let mut data = b"a.dll/1/a.dll\n".to_vec();
        data.extend(r.bytes(5));
        data.push(0xff);
        data.extend(b"\nb.dll/2/b.dll\n");
        if let Ok(Ok(ix)) = guard(|| SymstoreIndex::load(&data)) {
            if !ix.contains("b.dll/2/b.dll") || !ix.contains("a.dll/1/a.dll") {
                rep.violate("corrupt index silently truncated", json!({"entries": ix.iter().collect::<Vec<_>>()}));
            }
        }
        rep.count("corrupt_indexes");
        // nor is a symbol store's own listing taken up to a broken line only
        let eol: &[u8] = if r.chance(1, 2) { b"\n" } else { b"\r\n" };
        let mut text = vec![];
        let (k, bad) = (1 + r.below(12), r.below(12));
        for i in 0..=k {
            if i == bad.min(k) {
                text.extend(r.pick(&[&b"\"b\xe4d.dll\\1\""[..], b"\xff", b"\"x.dll\\2\",\"D:\\\xc3\x28\""]).iter());
            } else {
                text.extend(format!("\"m{i}.dll\\{i:X}\",\"D:\\x\"").bytes());
            }
            text.extend(eol);
        }
        match guard(|| SymstoreIndex::parse_from_reader(&text[..])) {
            Err(e) => rep.violate("parse panic", json!({"text": String::from_utf8_lossy(&text), "panic": e})),
            Ok(Err(_)) => rep.count("broken_listings_refused"),
            Ok(Ok(ix)) => {
                for i in (0..=k).filter(|i| *i != bad.min(k)) {
                    if !ix.contains(&format!("m{i}.dll/{i:X}/m{i}.dll")) {
                        rep.violate("listing silently truncated", json!({"text": String::from_utf8_lossy(&text)}));
                        break;
                    }
                }
            }
        }
        // an error of the disk half-way neither
        let whole = text.len();
        let cut = r.below(whole + 1);
        struct Breaks<'a>(&'a [u8]);
        impl std::io::Read for Breaks<'_> {
            fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                if self.0.is_empty() {
                    return Err(std::io::Error::other("disk error"));
                }
                let n = buf.len().min(self.0.len()).min(7);
                buf[..n].copy_from_slice(&self.0[..n]);
                self.0 = &self.0[n..];
                Ok(n)
            }
        }
        let rd = std::io::BufReader::new(Breaks(&text[..cut]));
        match guard(|| SymstoreIndex::parse_from_reader(rd)) {
            Err(e) => rep.violate("parse panic", json!({"text": String::from_utf8_lossy(&text), "panic": e})),
            Ok(Err(_)) => rep.count("disk_errors_reported"),
            Ok(Ok(ix)) => rep.violate("listing cut short by a disk error taken as whole", json!({"entries": ix.iter().count()})),
        }
    }
    rep.require("positive_lookups", 2_000);
    rep.require("malformed_lines", 200);
    rep.require("indexed_lookups", 200);
    rep
}

/// Independent matcher for patterns made of literals, `?` and `*` (which crosses separators).
fn glob_match(p: &[char], s: &[char]) -> bool {
    // dynamic programming, ASCII case-insensitive
    let mut row = vec![false; s.len() + 1];
    row[0] = true;
    for &pc in p {
        let mut next = vec![false; s.len() + 1];
        if pc == '*' {
            let mut any = false;
            for j in 0..=s.len() {
                any |= row[j];
                next[j] = any;
            }
        } else {
            for j in 0..s.len() {
                next[j + 1] = row[j] && (pc == '?' || pc.eq_ignore_ascii_case(&s[j]));
            }
        }
        row = next;
    }
    row[s.len()]
}

pub fn c05(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "random source filters (file types, path patterns, checksum requirement) x identifiers x file type lists x indexes; \
         offered locations compared with a declarative model (who is asked, in which order); non-trivial = distinct \
         (filters, identifier, file types) with a decision",
    );
    let mut r = Rng::new(ctx.seed ^ 0xC05);
    let n = ctx.scale(300_000, 20_000_000);
    let pats = [
        "*", "?:/windows/*", "c:/windows/*", "C:/WINDOWS/*", "/usr/lib/*", "*.dll", "*crash*", "*/libfoo*", "*.PDB", "x",
        "d:/*", "/usr/*/x", "*ünï*", "c:/x/a.so", "", "*.so.6", "*my app*",
    ];
    for _ in 0..n {
        if !ctx.time_left() {
            rep.count("stopped_at_time_limit");
            break;
        }
        rep.eval();
        let mut oid = if r.chance(2, 3) { plain_object_id(&mut r) } else { object_id(&mut r) };
        if r.chance(1, 6) {
            oid.code_file = None;
        }
        if r.chance(1, 6) {
            oid.debug_file = None;
        }
        let mut filetypes = vec![];
        if r.chance(1, 2) {
            for _ in 0..1 + r.below(6) {
                filetypes.push(*r.pick(&FILE_TYPES));
            }
        }
        let mut patterns = vec![];
        if r.chance(1, 2) {
            for _ in 0..1 + r.below(3) {
                patterns.push(r.pick(&pats).to_string());
            }
        }
        let requires_checksum = r.chance(1, 4);
        let filters = SourceFilters {
            filetypes: filetypes.clone(),
            path_patterns: patterns.iter().map(|p| Glob(p.parse().unwrap())).collect(),
            requires_checksum,
        };
        let layout = DirectoryLayout { ty: *r.pick(&LAYOUTS), casing: *r.pick(&CASINGS) };
        let cfg = CommonSourceConfig { filters, layout, is_public: r.chance(1, 2), has_index: false };
        let asked: Vec<FileType> = match r.below(4) {
            0 => FileType::all().to_vec(),
            1 => FileType::from_object_type(oid.object_type).to_vec(),
            2 => FileType::sources().to_vec(),
            _ => (0..1 + r.below(4)).map(|_| *r.pick(&FILE_TYPES)).collect(),
        };
        // model of the decision
        let pattern_ok = patterns.is_empty()
            || patterns.iter().any(|p| {
                let p: Vec<char> = p.chars().collect();
                [&oid.code_file, &oid.debug_file].into_iter().flatten().any(|f| {
                    let f: Vec<char> = f.chars().map(|c| if c == '\\' { '/' } else { c }).collect();
                    glob_match(&p, &f)
                })
            });
        let checksum_ok = !requires_checksum || oid.debug_checksum.is_some();
        let det = json!({"oid": describe(&oid), "patterns": patterns, "requires_checksum": requires_checksum,
            "filetypes": filetypes.iter().map(|f| f.as_ref().to_string()).collect::<Vec<_>>(),
            "asked": asked.iter().map(|f| f.as_ref().to_string()).collect::<Vec<_>>(), "layout": format!("{layout:?}")});
        let mut want = vec![];
        for &ft in &asked {
            let allowed = pattern_ok && checksum_ok && (filetypes.is_empty() || filetypes.iter().any(|f| f.as_ref() == ft.as_ref()));
            match guard(|| cfg.filters.is_allowed(&oid, ft)) {
                Ok(got) if got == allowed => {}
                other => rep.violate("filter decision", json!({"case": det, "ft": ft.as_ref(), "want": allowed, "got": format!("{other:?}")})),
            }
            rep.count(if allowed { "allowed" } else { "denied" });
            if allowed {
                let paths = guard(|| get_directory_paths(layout, ft, &oid)).unwrap_or_default();
                want.extend(paths.into_iter().rev());
            }
        }
        // sometimes through an index that lists a part of it
        let index = if r.chance(1, 3) && !want.is_empty() {
            let keep: BTreeSet<String> = want.iter().filter(|_| r.chance(1, 2)).cloned().collect();
            let text: String = keep.iter().map(|k| format!("{k}\n")).collect();
            let ix = SymstoreIndex::load(text.as_bytes()).unwrap();
            want.retain(|w| keep.contains(w));
            rep.count("indexed");
            Some(SourceIndex::from(ix))
        } else {
            None
        };
        let got: Vec<String> = match guard(|| {
            SourceLocationIter::new(&cfg, &asked, index.as_ref(), &oid).map(|l| l.to_string()).collect::<Vec<_>>()
        }) {
            Ok(g) => g,
            Err(e) => {
                rep.violate("iterator panic", json!({"case": det, "panic": e}));
                continue;
            }
        };
        if got != want {
            let mut a = got.clone();
            let mut b = want.clone();
            a.sort();
            b.sort();
            let kind = if a == b { "locations offered in the wrong order" } else { "wrong set of locations offered" };
            rep.violate(kind, json!({"case": det, "want": want, "got": got}));
        }
        rep.add("locations", got.len() as u64);
        rep.distinct(det.to_string());
        if got.len() > 1 {
            rep.sample(|| json!({"case": det, "offered": got}));
        }
    }
    // file type tables: what is asked for an object type always covers what can exist for it
    for ot in OBJECT_TYPES {
        let fts = FileType::from_object_type(ot);
        let need: &[FileType] = match ot {
            ObjectType::Elf => &[FileType::ElfCode, FileType::ElfDebug, FileType::Breakpad],
            ObjectType::Macho => &[FileType::MachCode, FileType::MachDebug, FileType::Breakpad],
            ObjectType::Pe => &[FileType::Pe, FileType::Pdb, FileType::Breakpad],
            ObjectType::Wasm => &[FileType::WasmCode, FileType::WasmDebug],
            ObjectType::PeDotnet => &[FileType::PortablePdb],
            ObjectType::Unknown => &[FileType::Pdb, FileType::MachDebug, FileType::ElfDebug, FileType::Pe, FileType::Breakpad, FileType::WasmDebug, FileType::PortablePdb],
        };
        for ft in need {
            rep.count("filetype_table_checks");
            if !fts.contains(ft) {
                rep.violate("object type without its file type", json!({"object_type": ot.to_string(), "missing": ft.as_ref()}));
            }
        }
    }
    rep.require("allowed", 5_000);
    rep.require("denied", 5_000);
    rep.require("indexed", 500);
    rep.assumptions.push("path patterns are drawn from literals, '?' and '*'; character classes and '**' are delegated to the glob crate".into());
    rep
}

fn arb_common(r: &mut Rng) -> (serde_json::Map<String, Value>, Value) {
    let mut m = serde_json::Map::new();
    let layouts = ["native", "symstore", "symstore_index2", "ssqp", "debuginfod", "unified", "slashsymbols"];
    let casings = ["default", "uppercase", "lowercase"];
    let fts: Vec<&str> = vec![
        "pe", "pdb", "portablepdb", "mach_debug", "mach_code", "elf_debug", "elf_code", "wasm_debug", "wasm_code",
        "breakpad", "sourcebundle", "uuidmap", "bcsymbolmap", "il2cpp", "proguard",
    ];
    let l = *r.pick(&layouts);
    let c = *r.pick(&casings);
    let f: Vec<String> = (0..r.below(5)).map(|_| r.pick(&fts).to_string()).collect();
    let p: Vec<String> = (0..r.below(3)).map(|_| r.pick(&["*.dll", "?:/windows/**", "/usr/[ab]*", "[!a-z]*", "ünï*", "C:/X/*", "", "*"]).to_string()).collect();
    let rc = r.chance(1, 2);
    let pb = r.chance(1, 2);
    let hi = r.chance(1, 2);
    let full = json!({
        "layout": {"type": l, "casing": c},
        "filters": {"filetypes": f, "path_patterns": p, "requires_checksum": rc},
        "is_public": pb,
        "has_index": hi,
    });
    // optional parts may be left out; the defaults are then what must come back
    let mut expect = full.clone();
    for key in ["layout", "filters", "is_public", "has_index"] {
        if r.chance(1, 4) {
            expect[key] = match key {
                "layout" => json!({"type": "native", "casing": "default"}),
                "filters" => json!({"filetypes": [], "path_patterns": [], "requires_checksum": false}),
                _ => json!(false),
            };
        } else {
            let mut part = full[key].clone();
            // and so may parts of the parts
            if let Some(o) = part.as_object_mut() {
                for (k, d) in defaults_of(key).as_object().unwrap() {
                    if r.chance(1, 5) {
                        o.remove(k);
                        expect[key][k] = d.clone();
                    }
                }
            }
            m.insert(key.into(), part);
        }
    }
    (m, expect)
}

fn defaults_of(key: &str) -> Value {
    match key {
        "layout" => json!({"type": "native", "casing": "default"}),
        "filters" => json!({"filetypes": [], "path_patterns": [], "requires_checksum": false}),
        "prefix" | "access_key" | "secret_key" => json!(""),
        "aws_credentials_provider" => json!("static"),
        "headers" => json!({}),
        _ => json!(false),
    }
}

/// A written configuration with everything spelled out that it leaves to the defaults.
fn spelled_out(mut v: Value, expect: &Value) -> Value {
    for (k, e) in expect.as_object().unwrap() {
        let optional = !matches!(k.as_str(), "type" | "id" | "path" | "bucket" | "private_key" | "client_email" | "region" | "url" | "token");
        if !optional {
            continue;
        }
        let d = defaults_of(k);
        if v.get(k).is_none() {
            v[k] = d;
        } else if let (Some(o), true, Some(d)) = (v[k].as_object_mut(), e.is_object(), d.as_object()) {
            for (k2, d2) in d {
                o.entry(k2.clone()).or_insert_with(|| d2.clone());
            }
        }
    }
    v
}

pub fn c06(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "random source configurations of all five kinds (optional parts left out at random) read from JSON and YAML and \
         written back; every field compared with what was configured; malformed variants must be refused; \
         non-trivial = distinct configuration",
    );
    // file types go by one name everywhere
    for ft in FILE_TYPES {
        if serde_json::to_value(ft).ok() != Some(json!(ft.as_ref())) || serde_json::from_value::<FileType>(json!(ft.as_ref())).ok() != Some(ft) {
            rep.violate("a file type is written under another name", json!({"type": ft.as_ref(), "written": serde_json::to_value(ft).ok()}));
        }
    }
    let mut r = Rng::new(ctx.seed ^ 0xC06);
    let n = ctx.scale(12_000, 800_000);
    for _ in 0..n {
        if !ctx.time_left() {
            rep.count("stopped_at_time_limit");
            break;
        }
        rep.eval();
        let (mut m, mut expect) = arb_common(&mut r);
        let id = r.pick(&["sentry:microsoft", "Custom", "custom", " custom ", "a/b", "ünï", "", "x.y", "a:b", "12"]).to_string();
        let kind = *r.pick(&["filesystem", "gcs", "http", "s3", "sentry"]);
        m.insert("type".into(), json!(kind));
        m.insert("id".into(), json!(id));
        let mut add = |m: &mut serde_json::Map<String, Value>, k: &str, v: Value, default: Option<Value>, r: &mut Rng| {
            if let Some(d) = default {
                if r.chance(1, 4) {
                    expect[k] = d;
                    return;
                }
            }
            expect[k] = v.clone();
            m.insert(k.into(), v);
        };
        let txt = |r: &mut Rng| r.pick(&["", "plain", "with space", "üñï", "quote\"s", "multi\nline", " lead", "trail ", "/slashes/", "//", "a//b", "UPPER", "tab\t", "-----BEGIN KEY-----\nAB+/=\n-----END KEY-----\n", "-----BEGIN KEY-----\\n", "null", "1.5", "true"]).to_string();
        match kind {
            "filesystem" => {
                let v = json!(*r.pick(&["/srv/symbols", "/srv/symbols/", "rel/x", "./rel/../x", "/a//b", "/", "", "C:\\sym", " /x ", "/üñï"]));
                add(&mut m, "path", v, None, &mut r)
            }
            "gcs" | "s3" => {
                let v = json!(txt(&mut r));
                add(&mut m, "bucket", v, None, &mut r);
                let v = json!(txt(&mut r));
                add(&mut m, "prefix", v, Some(json!("")), &mut r);
                if kind == "gcs" {
                    let v = json!(txt(&mut r));
                    add(&mut m, "private_key", v, None, &mut r);
                    let v = json!(txt(&mut r));
                    add(&mut m, "client_email", v, None, &mut r);
                } else {
                    let region = if r.chance(1, 2) {
                        json!(*r.pick(&["us-east-1", "US-EAST-1", "", " ", "eu-central-1", "http://h/"]))
                    } else {
                        json!([*r.pick(&["", "minio", "us-x", "us-east-1", " x "]), *r.pick(&["http://127.0.0.1:9000", "http://127.0.0.1:9000/", "HTTPS://Minio.Example.com:443//", "https://minio.example.com/x", "https://minio.example.com/x/", " h", "minio.local", ""])])
                    };
                    add(&mut m, "region", region, None, &mut r);
                    let v = json!(*r.pick(&["static", "container"]));
                    add(&mut m, "aws_credentials_provider", v, Some(json!("static")), &mut r);
                    let v = json!(txt(&mut r));
                    add(&mut m, "access_key", v, Some(json!("")), &mut r);
                    let v = json!(txt(&mut r));
                    add(&mut m, "secret_key", v, Some(json!("")), &mut r);
                }
            }
            "http" => {
                let v = json!(*r.pick(&["https://symbols.example.com/", "http://u:p@h:81/a/b?x=1", "https://xn--nxasmq6b/", "https://h/a", "https://h/a/", "https://h/%61%2F/b//c", "https://h/?", "https://h/?q#f", "http://[::1]:8080/x"]));
                add(&mut m, "url", v, None, &mut r);
                let v = json!({"authorization": txt(&mut r).replace('\n', ""), *r.pick(&["x-a", "X-A", "Authorization"]): txt(&mut r)});
                add(&mut m, "headers", v, Some(json!({})), &mut r);
                let v = json!(r.chance(1, 2));
                add(&mut m, "accept_invalid_certs", v, Some(json!(false)), &mut r);
            }
            _ => {
                let v = json!(*r.pick(&["https://sentry.io/api/0/projects/a/b/files/dsyms/", "http://127.0.0.1:1/"]));
                add(&mut m, "url", v, None, &mut r);
                let v = json!(txt(&mut r));
                add(&mut m, "token", v, None, &mut r);
                for k in ["layout", "filters", "is_public", "has_index"] {
                    expect.as_object_mut().unwrap().remove(k);
                }
            }
        }
        expect["type"] = json!(kind);
        expect["id"] = json!(id);
        let input = Value::Object(m.clone());
        rep.distinct(input.to_string());
        rep.sample(|| input.clone());
        let yaml = serde_yaml::to_string(&input).unwrap();
        let parses: [(&str, Result<Result<SourceConfig, String>, String>); 2] = [
            ("json", guard(|| serde_json::from_str::<SourceConfig>(&input.to_string()).map_err(|e| e.to_string()))),
            ("yaml", guard(|| serde_yaml::from_str::<SourceConfig>(&yaml).map_err(|e| e.to_string()))),
        ];
        for (how, parsed) in parses {
            let cfg = match parsed {
                Ok(Ok(c)) => c,
                other => {
                    rep.violate(format!("{how} {kind} config refused"), json!({"input": input, "got": format!("{other:?}")}));
                    continue;
                }
            };
            rep.count(&format!("parsed_{how}_{kind}"));
            if cfg.id().as_str() != id || cfg.type_name() != kind {
                rep.violate("identity of source", json!({"input": input}));
            }
            // once and twice through the serializer
            let out = spelled_out(serde_json::to_value(&cfg).unwrap(), &expect);
            if out != expect {
                rep.violate(format!("{kind} configuration changed by a round trip"), json!({"input": input, "expected": expect, "got": out}));
            }
            let y = serde_yaml::to_string(&cfg).unwrap();
            match serde_yaml::from_str::<SourceConfig>(&y) {
                Ok(c2) => {
                    let out2 = spelled_out(serde_json::to_value(&c2).unwrap(), &expect);
                    if out2 != out {
                        rep.violate(format!("{kind} configuration changed by a second round trip"), json!({"first": out, "second": out2}));
                    }
                }
                Err(e) => rep.violate(format!("written {kind} configuration cannot be read"), json!({"text": y, "error": e.to_string()})),
            }
        }
        // dropping a mandatory field or damaging an enum must be refused, not defaulted
        let mut bad = m.clone();
        let mandatory: &[&str] = match kind {
            "filesystem" => &["path", "id"],
            "gcs" => &["bucket", "private_key", "client_email", "id"],
            "s3" => &["bucket", "region", "id"],
            "http" => &["url", "id"],
            _ => &["url", "token", "id"],
        };
        let how = if r.chance(1, 2) {
            let k = *r.pick(mandatory);
            bad.remove(k);
            format!("without {k}")
        } else if kind != "sentry" {
            bad.insert("layout".into(), json!({"type": *r.pick(&["Native", "nativ", "", "s3"])}));
            "unknown layout".to_string()
        } else {
            bad.insert("url".into(), json!("not a url"));
            "bad url".to_string()
        };
        rep.count("malformed_configs");
        match guard(|| serde_json::from_value::<SourceConfig>(Value::Object(bad.clone())).is_ok()) {
            Ok(false) => {}
            other => rep.violate(format!("malformed {kind} config accepted ({how})"), json!({"input": bad, "got": format!("{other:?}")})),
        }
    }
    rep.require("malformed_configs", 1000);
    for k in ["filesystem", "gcs", "http", "s3", "sentry"] {
        rep.require(&format!("parsed_json_{k}"), 200);
        rep.require(&format!("parsed_yaml_{k}"), 200);
    }
    rep
}

/// Another location that differs from `l` in one detail.
fn vary(r: &mut Rng, l: &str) -> String {
    let cs: Vec<char> = l.chars().collect();
    let i = r.below(cs.len());
    let ends: Vec<usize> = (0..=cs.len())
        .filter(|&i| i == 0 || i == cs.len() || cs[i] == '/' || cs[i - 1] == '/')
        .collect();
    let e = *r.pick(&ends);
    let put = |i: usize, n: usize, t: &str| {
        let mut s: String = cs[..i].iter().collect();
        s.push_str(t);
        s.extend(&cs[i + n..]);
        s
    };
    match r.below(8) {
        0 => put(e, 0, *r.pick(&[" ", "\u{a0}", ".", "%20", "+", "_", "%", ";", "?", "#", "&"])),
        1 => put(i, 0, *r.pick(&[" ", "%20", "?", "#", ";x", "+", ":", "@", "é", "e\u{301}"])),
        2 => put(i, 1, &cs[i].to_uppercase().to_string()),
        3 => put(i, 1, &cs[i].to_lowercase().to_string()),
        4 => put(i, 1, &format!("%{:02X}", cs[i] as u32 & 0xff)),
        5 => put(i, 1, &cs[i].to_string().repeat(2)),
        6 => put(i, 1, ""),
        _ => put(i, 1, *r.pick(&[" ", "\\", "%2F", "%5C", "é", "x"])),
    }
}

pub fn c07(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "many identifiers looked up in sources of all kinds; within one source two different locations must have \
         different URIs and cache keys, equal ones equal; near-collisions (space vs %20, ?, #, scheme-like names) are \
         provoked; non-trivial = distinct URI",
    );
    let mut r = Rng::new(ctx.seed ^ 0xC07);
    let n = ctx.scale(240, 30_000);
    let twins: &[(&str, &str)] = &[
        ("a b.so", "a%20b.so"), ("a?b.so", "a%3Fb.so"), ("a#b.so", "a%23b.so"), ("ä.so", "%C3%A4.so"), ("a\"b", "a%22b"),
        ("a<b", "a%3Cb"), ("http:x", "x"), ("data:x", "x"), ("s3:", "gs:"), ("a%2Fb", "a"), ("%2e", "x"), ("a;b", "a%3Bb"),
        ("a`b", "a%60b"), ("a{b}", "a%7Bb%7D"), ("a%b", "a%25b"),
    ];
    for round in 0..n {
        if !ctx.time_left() {
            rep.count("stopped_at_time_limit");
            break;
        }
        let prefix = *r.pick(&["", "pre", "pre fix/x", "http:"]);
        let base = Url::parse(r.pick(&["https://h.example/", "https://h.example/base%20x/y"])).unwrap();
        let layout = DirectoryLayout { ty: *r.pick(&LAYOUTS), casing: FilenameCasing::Default };
        let mut locs: BTreeSet<String> = BTreeSet::new();
        for k in 0..400 {
            let mut oid = if r.chance(1, 2) { plain_object_id(&mut r) } else { object_id(&mut r) };
            let ft = *r.pick(&FILE_TYPES);
            if k % 4 == 0 {
                let (a, b) = *r.pick(twins);
                for nme in [a, b] {
                    oid.code_file = Some(nme.into());
                    oid.debug_file = Some(nme.into());
                    locs.extend(guard(|| get_directory_paths(layout, ft, &oid)).unwrap_or_default());
                }
            }
            let own = guard(|| get_directory_paths(layout, ft, &oid)).unwrap_or_default();
            // locations that nearly coincide
            for l in &own {
                if r.chance(1, 4) && !l.is_empty() {
                    let v = vary(&mut r, l);
                    if escape_reason(&v).is_none() && !v.split('/').any(|s| matches!(s, "" | "." | ".." | "%2e" | "%2E")) {
                        locs.insert(v);
                        rep.count("near_collisions");
                    }
                }
            }
            locs.extend(own);
        }
        // locations that denote the same path on any server count as one
        let norm = |p: &str| p.split('/').filter(|s| !s.is_empty() && *s != ".").collect::<Vec<_>>().join("/");
        for kind in ["s3", "gcs", "http", "filesystem"] {
            let mut by_uri: HashMap<String, String> = HashMap::new();
            let mut by_key: HashMap<String, String> = HashMap::new();
            for l in &locs {
                rep.eval();
                let mk = || -> RemoteFile {
                    let loc = SourceLocation::new(l.clone());
                    match kind {
                        "s3" => S3RemoteFile::new(s3_source("src", prefix), loc).into(),
                        "gcs" => GcsRemoteFile::new(gcs_source("src", prefix), loc).into(),
                        "http" => HttpRemoteFile::new(
                            Arc::new(HttpSourceConfig {
                                id: SourceId::new("src"),
                                url: base.clone(),
                                headers: Default::default(),
                                files: Default::default(),
                                accept_invalid_certs: false,
                            }),
                            loc,
                        )
                        .into(),
                        _ => FilesystemRemoteFile::new(
                            Arc::new(FilesystemSourceConfig { id: SourceId::new("src"), path: "/srv".into(), files: Default::default() }),
                            loc,
                        )
                        .into(),
                    }
                };
                let (uri, key) = match guard(|| {
                    let f = mk();
                    (f.uri().to_string(), f.cache_key())
                }) {
                    Ok(x) => x,
                    Err(e) => {
                        rep.violate("panic", json!({"location": l, "panic": e}));
                        continue;
                    }
                };
                let f2 = mk();
                if f2.uri().to_string() != uri || f2.cache_key() != key {
                    rep.violate("identity is not stable", json!({"location": l}));
                }
                let same = |a: &str, b: &str| norm(a) == norm(b);
                for (what, map, v) in [("URI", &mut by_uri, &uri), ("cache key", &mut by_key, &key)] {
                    if let Some(prev) = map.insert(v.clone(), l.clone()) {
                        if !same(&prev, l) {
                            rep.violate(
                                format!("two files share one {what} ({kind})"),
                                json!({"a": prev, "b": l, "shared": v, "prefix": prefix, "base": base.as_str()}),
                            );
                        }
                    }
                }
                rep.count(&format!("identities_{kind}"));
                rep.distinct(&uri);
                // the URI names the bucket / host it comes from
                let ok = match kind {
                    "s3" => uri.starts_with("s3://bucket/"),
                    "gcs" => uri.starts_with("gs://bucket/"),
                    "http" => uri.starts_with("https://h.example/"),
                    _ => uri.starts_with("file:///srv/"),
                };
                if !ok {
                    rep.violate(format!("URI does not name its source ({kind})"), json!({"location": l, "uri": uri}));
                }
                // the object named by the URI is the object that is fetched
                let decoded = match kind {
                    "s3" | "gcs" => {
                        let u = Url::parse(&uri).ok();
                        let key = match mk() {
                            RemoteFile::S3(f) => f.key(),
                            RemoteFile::Gcs(f) => f.key(),
                            _ => unreachable!(),
                        };
                        u.filter(|u| u.query().is_none() && u.fragment().is_none())
                            .map(|u| norm(&percent_decode(&u.path()[1..])) == norm(&key))
                    }
                    "http" => {
                        let u = Url::parse(&uri).ok();
                        let b = percent_decode(base.path());
                        u.filter(|u| u.query().is_none() && u.fragment().is_none())
                            .map(|u| norm(&percent_decode(u.path())) == norm(&format!("{b}/{l}")))
                    }
                    _ => Some(uri.strip_prefix("file://").map(norm) == Some(norm(&format!("/srv/{l}")))),
                };
                if decoded != Some(true) {
                    rep.violate(format!("URI does not denote the stored object ({kind})"), json!({"location": l, "uri": uri, "prefix": prefix}));
                }
                if round < 2 {
                    rep.sample(|| json!({"location": l, "uri": uri, "cache_key": key}));
                }
            }
        }
        // the debug file endpoint: identity by file id
        let src = Arc::new(SentrySourceConfig {
            id: SourceId::new("sentry:project"),
            url: Url::parse("https://sentry.io/api/files/?a=b").unwrap(),
            token: "t".into(),
        });
        let mut uris: HashMap<String, String> = HashMap::new();
        let mut ids: BTreeSet<String> = BTreeSet::new();
        for _ in 0..60 {
            ids.insert(if r.chance(1, 2) { format!("{}", r.below(100000)) } else { gen::name(&mut r) });
        }
        for id in ids {
            rep.eval();
            let f = SentryRemoteFile::new(src.clone(), true, SentryFileId(id.clone().into()), None);
            let url = f.url();
            let got: Vec<String> = url.query_pairs().filter(|(k, _)| k == "id").map(|(_, v)| v.into_owned()).collect();
            if got != [id.clone()] || !url.as_str().starts_with("https://sentry.io/api/files/?a=b&") {
                rep.violate("file id not carried in the request", json!({"id": id, "url": url.as_str()}));
            }
            let rf: RemoteFile = f.into();
            if let Some(prev) = uris.insert(format!("{} {}", rf.uri(), rf.cache_key()), id.clone()) {
                rep.violate("two debug files share one identity", json!({"a": prev, "b": id}));
            }
            if rf.is_public() {
                rep.violate("project files are never public", json!({"id": id}));
            }
            rep.count("identities_sentry");
        }
        // sharing flag follows the configuration
        for public in [false, true] {
            let files = CommonSourceConfig { is_public: public, ..Default::default() };
            let fs: RemoteFile = FilesystemRemoteFile::new(
                Arc::new(FilesystemSourceConfig { id: SourceId::new("x"), path: "/".into(), files: files.clone() }),
                SourceLocation::new("a"),
            )
            .into();
            let mut s3 = (*s3_source("x", "")).clone();
            s3.files = files.clone();
            let mut gcs = (*gcs_source("x", "")).clone();
            gcs.files = files.clone();
            let http: RemoteFile = HttpRemoteFile::new(
                Arc::new(HttpSourceConfig { id: SourceId::new("x"), url: base.clone(), headers: Default::default(), files, accept_invalid_certs: false }),
                SourceLocation::new("a"),
            )
            .into();
            let all: [RemoteFile; 4] = [
                fs,
                S3RemoteFile::new(Arc::new(s3), SourceLocation::new("a")).into(),
                GcsRemoteFile::new(Arc::new(gcs), SourceLocation::new("a")).into(),
                http,
            ];
            for f in all {
                if f.is_public() != public {
                    rep.violate("sharing flag", json!({"file": f.to_string(), "configured": public}));
                }
                rep.count("sharing_flags");
            }
        }
        // files scraped from the web are identified by their exact URL
        for u in ["https://a.example/x y.js", "https://a.example/app.js?v=1", "https://a.example/app.js?v=2", "https://a.example/%61pp.js", "https://a.example/dir/", "https://a.example//x/?", "https://a.example"] {
            let u = Url::parse(u).unwrap();
            let f = HttpRemoteFile::from_url(u.clone(), true);
            if f.url().ok().as_ref() != Some(&u) {
                rep.violate("scraped url changed", json!({"url": u.as_str()}));
            }
        }
    }
    rep.require("near_collisions", 1_000);
    for k in ["s3", "gcs", "http", "filesystem", "sentry"] {
        rep.require(&format!("identities_{k}"), 1_000);
    }
    rep
}

pub fn c08(ctx: &Ctx) -> Report {
    let mut rep = Report::new(
        "all pairs over a grid of bucket credentials that differ in one or several configured fields; equality and hash \
         (which select the authenticated client that is reused) compared with field-by-field equality; non-trivial = \
         distinct credential",
    );
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    let mut r = Rng::new(ctx.seed ^ 0xC08);
    let strs = ["", "a", "A", "key", "key ", "üñ"];
    let regions: Vec<S3Region> = [
        ("us-east-1", None), ("", None), ("eu", None), ("us-east-1", Some("http://m")), ("us-east-1", Some("http://n")),
        ("", Some("")), ("us-east-1", Some("")),
    ]
    .into_iter()
    .map(|(n, e)| {
        let mut reg = S3Region::from(n);
        reg.endpoint = e.map(|s: &str| s.to_string());
        reg
    })
    .collect();
    let mut s3: Vec<(S3SourceKey, String)> = vec![];
    for _ in 0..ctx.scale(500, 2500) {
        let reg = r.pick(&regions).clone();
        let prov = *r.pick(&[AwsCredentialsProvider::Static, AwsCredentialsProvider::Container]);
        let (a, s) = (r.pick(&strs).to_string(), r.pick(&strs).to_string());
        let ident = format!("{:?}|{:?}|{a}|{s}", reg, prov);
        s3.push((S3SourceKey { region: reg, aws_credentials_provider: prov, access_key: a, secret_key: s }, ident));
    }
    let h = |k: &dyn Fn(&mut DefaultHasher)| {
        let mut d = DefaultHasher::new();
        k(&mut d);
        d.finish()
    };
    for (a, ia) in &s3 {
        rep.distinct(ia);
        for (b, ib) in &s3 {
            rep.eval();
            rep.count("s3_pairs");
            if (a == b) != (ia == ib) {
                let sig = if a == b { "different S3 credentials are treated as one" } else { "equal S3 credentials differ" };
                rep.violate(sig, json!({"a": ia, "b": ib}));
            }
            if a == b && h(&|d| a.hash(d)) != h(&|d| b.hash(d)) {
                rep.violate("equal S3 credentials hash differently", json!({"a": ia, "b": ib}));
            }
        }
    }
    let mut gcs = vec![];
    for a in strs {
        for b in strs {
            gcs.push(GcsSourceKey { private_key: a.into(), client_email: b.into() });
        }
    }
    for a in &gcs {
        rep.distinct(format!("{a:?}"));
        for b in &gcs {
            rep.eval();
            rep.count("gcs_pairs");
            let same = a.private_key == b.private_key && a.client_email == b.client_email;
            if (a == b) != same {
                rep.violate("GCS credential identity", json!({"a": format!("{a:?}"), "b": format!("{b:?}")}));
            }
            if a == b && h(&|d| a.hash(d)) != h(&|d| b.hash(d)) {
                rep.violate("equal GCS credentials hash differently", json!({"a": format!("{a:?}")}));
            }
        }
    }
    rep.sample(|| json!(s3[0].1));
    rep.sample(|| json!(s3[1].1));
    rep.require("s3_pairs", 10_000);
    rep
}

#[allow(unused)]
fn _unused(_: CodeId) {}
