//! Monitors over wasm-split: the real binary runs over generated modules, and an independent
//! section walker compares what it wrote with what it was given.
use std::collections::{BTreeMap, HashSet};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::Duration;

use serde_json::{json, Value};
use symbolic::debuginfo::Object;

use crate::common::*;
use crate::objs::leb;
use crate::proc::{self, snapshot, Node, Run};

const MAGIC: &[u8] = b"\0asm\x01\0\0\0";
const ORDER: [u8; 12] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 10, 11];
const WATCHDOG: Duration = Duration::from_secs(60);

pub type Section = (u8, Vec<u8>);

fn read_leb(b: &[u8]) -> Option<(u64, usize)> {
    let mut v = 0u64;
    for (i, x) in b.iter().take(5).enumerate() {
        v |= u64::from(x & 0x7f) << (7 * i);
        if x & 0x80 == 0 {
            return (v <= u64::from(u32::MAX)).then_some((v, i + 1));
        }
    }
    None
}

/// The sections of a module, or `None` if it is not a well-formed sequence of known sections.
pub fn walk(b: &[u8]) -> Option<Vec<Section>> {
    let mut rest = b.strip_prefix(MAGIC)?;
    let mut out = vec![];
    let mut last = -1i32;
    while let Some((&id, tail)) = rest.split_first() {
        let (n, used) = read_leb(tail)?;
        let payload = tail.get(used..)?.get(..n as usize)?;
        rest = &tail[used + n as usize..];
        if id != 0 {
            let pos = ORDER.iter().position(|o| *o == id)? as i32;
            if pos <= last {
                return None;
            }
            last = pos;
        }
        out.push((id, payload.to_vec()));
    }
    Some(out)
}

/// Name and contents of a custom section.
pub fn custom(s: &Section) -> Option<(&str, &[u8])> {
    if s.0 != 0 {
        return None;
    }
    let (n, used) = read_leb(&s.1)?;
    let name = s.1.get(used..)?.get(..n as usize)?;
    Some((std::str::from_utf8(name).ok()?, &s.1[used + n as usize..]))
}

/// The id of a well-formed build_id section.
pub fn build_id(s: &Section) -> Option<&[u8]> {
    let (name, data) = custom(s)?;
    if name != "build_id" {
        return None;
    }
    let (n, used) = read_leb(data)?;
    let id = &data[used..];
    (id.len() as u64 == n).then_some(id)
}

fn custom_payload(name: &str, data: &[u8]) -> Section {
    let mut p = leb(name.len() as u64);
    p.extend(name.as_bytes());
    p.extend(data);
    (0, p)
}

fn vec_payload(b: &[u8]) -> Vec<u8> {
    let mut p = leb(b.len() as u64);
    p.extend(b);
    p
}

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    Any,
    WithId,
}

pub struct Module {
    pub bytes: Vec<u8>,
    pub sections: Vec<Section>,
}

fn fat_leb(r: &mut Rng, v: u64) -> Vec<u8> {
    let mut b = leb(v);
    let extra = r.below(6 - b.len().min(5));
    for _ in 0..extra {
        *b.last_mut().unwrap() |= 0x80;
        b.push(0);
    }
    b
}

pub fn encode(r: &mut Rng, sections: &[Section], canonical: bool) -> Vec<u8> {
    let mut b = MAGIC.to_vec();
    for (id, p) in sections {
        b.push(*id);
        if canonical || r.chance(2, 3) {
            b.extend(leb(p.len() as u64));
        } else {
            b.extend(fat_leb(r, p.len() as u64));
        }
        b.extend(p);
    }
    b
}

fn some_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) {
        0 => 0,
        1 => 127 + r.below(4),
        2 => 8180 + r.below(30),
        3 => 16380 + r.below(10),
        4 => r.below(200_000),
        _ => r.below(64),
    };
    r.bytes(n)
}

fn id_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 20,
        1 => 1 + r.below(15),
        2 => 17 + r.below(40),
        3 if r.chance(1, 4) => 0,
        4 if r.chance(1, 2) => 127 + r.below(100),
        _ => 16,
    };
    r.bytes(n)
}

fn name_section(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 3) {
        return some_bytes(r);
    }
    let mut v = vec![0];
    v.extend(vec_payload(&vec_payload(b"module")));
    let mut f = leb(1);
    f.extend(leb(0));
    f.extend(vec_payload(b"main"));
    v.push(1);
    v.extend(vec_payload(&f));
    v
}

pub fn module(r: &mut Rng, want: Want) -> Module {
    let mut s: Vec<Section> = vec![];
    for id in ORDER {
        if r.chance(1, 2) {
            let p = match (id, r.below(3)) {
                (1, 0) => vec![1, 0x60, 0, 0],
                (3, 0) => vec![1, 0],
                (10, 0) => vec![1, 2, 0, 0x0b],
                _ => some_bytes(r),
            };
            s.push((id, p));
        }
    }
    for _ in 0..r.below(9) {
        let sec = match r.below(12) {
            0..=3 => {
                let n = *r.pick(&[
                    ".debug_info", ".debug_line", ".debug_str", ".debug_abbrev", ".debug_", ".debug_ünï", ".debug_names",
                    ".debug_info.dwo", ".debug_gdb_scripts",
                ]);
                let d = some_bytes(r);
                custom_payload(n, &d)
            }
            4..=5 => {
                let d = name_section(r);
                custom_payload("name", &d)
            }
            6 => {
                // close to what is stripped, but not it
                let n = *r.pick(&[
                    ".debug", ".debugx", "debug_info", "reloc..debug_info", ".Debug_info", "x.debug_info", "names", "Name", "",
                    " .debug_info", ".debug-info", "name ", ".zdebug_info", "build_id2", "Build_Id", "sourceMappingURL",
                ]);
                let d = some_bytes(r);
                custom_payload(n, &d)
            }
            7 => {
                let d = if r.chance(1, 2) { vec![0] } else { some_bytes(r) };
                custom_payload("producers", &d)
            }
            8 => {
                let d = vec_payload(b"https://example.com/old.debug.wasm");
                custom_payload("external_debug_info", &d)
            }
            9 => {
                // custom sections no reader can make sense of
                match r.below(4) {
                    0 => (0, vec![]),
                    1 => (0, vec![200, 1, b'.', b'd']),
                    2 => (0, [leb(8).as_slice(), b".debug_\xff", b"payload"].concat()),
                    _ => (0, vec![0x80]),
                }
            }
            10 => {
                // a name with an overlong length
                let mut p = fat_leb(r, 11);
                p.extend(b".debug_info");
                p.extend(some_bytes(r));
                (0, p)
            }
            _ => {
                let n = *r.pick(&["target_features", "linking", "dylink.0", "ünïcode", "code_annotation"]);
                let d = some_bytes(r);
                custom_payload(n, &d)
            }
        };
        let at = r.below(s.len() + 1);
        s.insert(at, sec);
    }
    let ids = match want {
        Want::WithId => 1 + usize::from(r.chance(1, 6)),
        Want::Any => *r.pick(&[0, 0, 0, 1, 1, 1, 2]),
    };
    for _ in 0..ids {
        let id = id_bytes(r);
        let at = r.below(s.len() + 1);
        s.insert(at, custom_payload("build_id", &vec_payload(&id)));
    }
    if r.chance(1, 12) {
        // a section of that name which holds no id
        let junk = match r.below(4) {
            0 => vec![],
            1 => vec![16, 1, 2, 3],
            2 => [vec_payload(&[7; 16]).as_slice(), b"trailing"].concat(),
            _ => vec![0xff; 8],
        };
        let at = r.below(s.len() + 1);
        s.insert(at, custom_payload("build_id", &junk));
    }
    let canonical = r.chance(1, 2);
    Module { bytes: encode(r, &s, canonical), sections: s }
}

#[derive(Clone)]
struct Case {
    input: PathBuf,
    out: Option<PathBuf>,
    debug: Option<PathBuf>,
    strip: bool,
    strip_names: bool,
    id: Option<[u8; 16]>,
    url: Option<String>,
    quiet: bool,
}

impl Case {
    fn generate(r: &mut Rng, dir: &Path) -> Case {
        let name = |r: &mut Rng, suffix: &str| -> OsString {
            match r.below(8) {
                0 => format!("ünï {suffix}").into(),
                1 => OsString::from_vec([b"raw\xff".as_slice(), suffix.as_bytes()].concat()),
                2 => format!("{}{suffix}", "l".repeat(150)).into(),
                3 => format!("sub/{suffix}").into(),
                _ => suffix.into(),
            }
        };
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        let input = dir.join(name(r, "in.wasm"));
        let out = match r.below(4) {
            0 => None,
            1 if r.chance(1, 6) => Some(input.clone()),
            _ => Some(dir.join(name(r, "out.wasm"))),
        };
        let debug = r.chance(1, 2).then(|| {
            let n = *r.pick(&["out.debug.wasm", "out.debug.wasm", "symbols", ".hidden", "a.b.c.d", "trailing.", "with space", "%41.wasm", "x.debug"]);
            dir.join(name(r, n))
        });
        Case {
            input,
            out,
            debug,
            strip: r.chance(1, 2),
            strip_names: r.chance(1, 2),
            id: r.chance(1, 2).then(|| {
                if r.chance(1, 8) {
                    [0; 16]
                } else {
                    r.bytes(16).try_into().unwrap()
                }
            }),
            url: r.chance(1, 3).then(|| match r.below(5) {
                0 => String::new(),
                1 => format!("https://cdn.example.com/{}", "x".repeat(r.below(40_000))),
                2 => "https://example.com/ünï code.debug.wasm?a=b#c".into(),
                _ => "https://example.com/a.debug.wasm".into(),
            }),
            quiet: r.chance(1, 5),
        }
    }
    fn cmd(&self, r: &mut Rng, bin: &Path) -> Command {
        let mut c = Command::new(bin);
        let mut args: Vec<Vec<OsString>> = vec![vec![self.input.clone().into()]];
        if let Some(o) = &self.out {
            args.push(vec![(if r.chance(1, 2) { "-o" } else { "--out" }).into(), o.clone().into()]);
        }
        if let Some(o) = &self.debug {
            args.push(vec![(if r.chance(1, 2) { "-d" } else { "--debug-out" }).into(), o.clone().into()]);
        }
        if self.strip {
            args.push(vec!["--strip".into()]);
        }
        if self.strip_names {
            args.push(vec!["--strip-names".into()]);
        }
        if let Some(id) = self.id {
            let u = uuid::Uuid::from_bytes(id);
            let s = match r.below(3) {
                0 => u.simple().to_string(),
                1 => u.hyphenated().to_string().to_uppercase(),
                _ => u.to_string(),
            };
            args.push(vec!["--build-id".into(), s.into()]);
        }
        if let Some(u) = &self.url {
            args.push(vec![format!("--external-dwarf-url={u}").into()]);
        }
        if self.quiet {
            args.push(vec![(if r.chance(1, 2) { "-q" } else { "--quiet" }).into()]);
        }
        r.shuffle(&mut args);
        c.args(args.into_iter().flatten());
        c
    }
    fn external(&self) -> Option<String> {
        self.url.clone().or_else(|| Some(self.debug.as_ref()?.file_name()?.to_str()?.to_string()))
    }
    fn json(&self) -> Value {
        json!({"input": self.input.to_string_lossy(), "out": self.out.as_ref().map(|p| p.to_string_lossy()), "debug_out": self.debug.as_ref().map(|p| p.to_string_lossy()),
               "strip": self.strip, "strip_names": self.strip_names, "build_id": self.id.map(|i| hex(&i)), "url_len": self.url.as_ref().map(|u| u.len()), "quiet": self.quiet})
    }
    /// Whether the main module has to be written at all.
    fn writes_main(&self, had_id: bool) -> bool {
        self.out.is_some() || !had_id || self.strip || self.external().is_some()
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

fn shape(s: &[Section]) -> Value {
    Value::Array(
        s.iter()
            .map(|s| match custom(s) {
                Some((n, d)) => json!(format!("{n}[{}]", d.len())),
                None => json!(format!("#{}[{}]", s.0, s.1.len())),
            })
            .collect(),
    )
}

fn stripped(s: &Section, names: bool) -> bool {
    match custom(s) {
        Some(("name", _)) => names,
        Some(("build_id" | "producers" | "external_debug_info" | "sourceMappingURL", _)) => false,
        Some((n, _)) => n.starts_with(".debug_"),
        None => false,
    }
}

fn read(p: &Path) -> Option<Vec<u8>> {
    std::fs::read(p).ok()
}

/// What one run was given and what it left behind.
struct Seen {
    case: Case,
    sections: Vec<Section>,
    run: Run,
    before: BTreeMap<String, Node>,
    after: BTreeMap<String, Node>,
    input_bytes: Vec<u8>,
    old_id: Option<Vec<u8>>,
    dir: PathBuf,
}

impl Seen {
    fn main(&self) -> Option<Vec<u8>> {
        read(self.case.out.as_ref().unwrap_or(&self.case.input))
    }
    fn debug(&self) -> Option<Vec<u8>> {
        read(self.case.debug.as_ref()?)
    }
    fn detail(&self, extra: Value) -> Value {
        json!({"case": self.case.json(), "run": self.run.json(), "input_sections": shape(&self.sections), "input_hex_head": hex(&self.input_bytes[..self.input_bytes.len().min(400)]), "what": extra})
    }
}

fn observe(ctx: &Ctx, r: &mut Rng, n: u64, m: &Module) -> Seen {
    let dir = ctx.work.join(format!("w{n}"));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let case = Case::generate(r, &dir);
    std::fs::write(&case.input, &m.bytes).unwrap();
    // outputs may exist already and be longer than what replaces them
    for p in case.out.iter().chain(&case.debug) {
        if p != &case.input && r.chance(1, 3) {
            std::fs::write(p, r.bytes(300_000)).unwrap();
        }
    }
    let before = snapshot(&dir);
    let run = proc::run(&mut case.cmd(r, &ctx.bins.join("wasm-split")), WATCHDOG);
    let after = snapshot(&dir);
    Seen {
        old_id: m.sections.iter().find_map(build_id).map(<[u8]>::to_vec),
        case,
        sections: m.sections.clone(),
        run,
        before,
        after,
        input_bytes: m.bytes.clone(),
        dir,
    }
}

fn accepted(rep: &mut Report, s: &Seen) -> bool {
    if s.run.timed_out || s.run.crashed() {
        rep.violate("well-formed module: crash or hang", s.detail(Value::Null));
        return false;
    }
    if !s.run.ok() {
        rep.violate("well-formed module: refused", s.detail(Value::Null));
        return false;
    }
    true
}

fn finish(s: &Seen) {
    let _ = std::fs::remove_dir_all(&s.dir);
}

/// What the sections with the id ought to be, given the id that was embedded.
fn with_id(s: &Seen, id: &[u8]) -> Vec<Section> {
    let mut v = s.sections.clone();
    if s.old_id.is_none() {
        v.push(custom_payload("build_id", &vec_payload(id)));
    }
    v
}

fn runs(ctx: &Ctx, rep: &mut Report, tag: u64, mut f: impl FnMut(&mut Report, &mut Rng, u64)) {
    let mut n = 0u64;
    let least = ctx.scale(300, 3000) as u64;
    let most = ctx.scale(2500, 400_000) as u64;
    while (n < least || ctx.time_left()) && n < most {
        let mut r = Rng::new(ctx.seed.wrapping_mul(1_000_003) ^ (tag << 32) ^ n);
        f(rep, &mut r, n);
        n += 1;
    }
}

/// Build ids: kept if present, taken from the command line or fresh otherwise, printed and embedded.
pub fn c20(ctx: &Ctx) -> Report {
    let mut rep = Report::new("one evaluation = one module processed by the real binary (and, if it has outputs, processed again), its printed and embedded ids compared by an independent section walker; distinct = distinct (module, options)");
    let mut fresh: HashSet<Vec<u8>> = HashSet::new();
    runs(ctx, &mut rep, 20, |rep, r, n| {
        let m = module(r, Want::Any);
        let s = observe(ctx, r, n, &m);
        rep.eval();
        rep.distinct((&m.bytes, s.case.json().to_string()));
        if !accepted(rep, &s) {
            return finish(&s);
        }
        let main = s.main().and_then(|b| walk(&b));
        let Some(main) = main else {
            rep.violate("output is not a module", s.detail(Value::Null));
            return finish(&s);
        };
        let embedded = main.iter().find_map(build_id).map(<[u8]>::to_vec);
        let printed = s.run.out.clone();
        let Some(embedded) = embedded else {
            rep.violate("output has no build id", s.detail(json!(shape(&main))));
            return finish(&s);
        };
        if s.case.quiet {
            rep.count("quiet runs");
            if !printed.is_empty() {
                rep.violate("quiet run prints", s.detail(Value::Null));
            }
        } else if printed != format!("{}\n", hex(&embedded)) {
            rep.violate("printed id is not the embedded one", s.detail(json!(hex(&embedded))));
        } else {
            rep.count("printed ids compared");
        }
        match (&s.old_id, s.case.id) {
            (Some(old), _) => {
                rep.count("existing ids kept");
                if &embedded != old {
                    rep.violate("existing id changed", s.detail(json!({"old": hex(old), "new": hex(&embedded)})));
                }
                if s.case.id.is_some() {
                    rep.count("existing ids win over --build-id");
                }
            }
            (None, Some(given)) => {
                rep.count("ids from the command line");
                if embedded != given {
                    rep.violate("given id not used", s.detail(json!(hex(&embedded))));
                }
            }
            (None, None) => {
                rep.count("fresh ids");
                if embedded.len() != 16 || embedded[6] >> 4 != 4 || embedded[8] >> 6 != 2 {
                    rep.violate("fresh id is not a random uuid", s.detail(json!(hex(&embedded))));
                }
                if !fresh.insert(embedded.clone()) {
                    rep.violate("fresh id repeats", s.detail(json!(hex(&embedded))));
                }
            }
        }
        if let Some(d) = s.debug() {
            rep.count("debug companions compared");
            let did = walk(&d).and_then(|d| d.iter().find_map(build_id).map(<[u8]>::to_vec));
            if did.as_ref() != Some(&embedded) {
                rep.violate("debug companion has another id", s.detail(json!({"main": hex(&embedded), "debug": did.map(|d| hex(&d))})));
            }
            // as the rest of the system sees it
            let mb = s.main().unwrap();
            let ids = |b: &[u8]| guard(|| Object::parse(b).ok().map(|o| (o.debug_id().to_string(), o.code_id().map(|c| c.to_string())))).ok().flatten();
            if let (Some(a), Some(b)) = (ids(&mb), ids(&d)) {
                rep.count("companions compared through symbolic");
                if a != b {
                    rep.violate("symbolic sees different ids", s.detail(json!([a, b])));
                }
            }
        }
        // again, over the file just produced, asking for another id and nothing else
        let target = s.case.out.clone().unwrap_or_else(|| s.case.input.clone());
        let bytes = read(&target).unwrap();
        let meta = std::fs::metadata(&target).unwrap();
        let mut c = Command::new(ctx.bins.join("wasm-split"));
        c.arg(&target);
        if r.chance(1, 2) {
            c.args(["--build-id", "11111111-2222-4333-8444-555555555555"]);
        }
        let again = proc::run(&mut c, WATCHDOG);
        rep.count("second runs");
        if !again.ok() || again.out != format!("{}\n", hex(&embedded)) {
            rep.violate("second run reports another id", s.detail(again.json()));
        }
        let meta2 = std::fs::metadata(&target).unwrap();
        if read(&target).as_deref() != Some(&bytes[..]) || meta2.ino() != meta.ino() {
            rep.violate("second run changes the file", s.detail(again.json()));
        }
        rep.sample(|| s.detail(json!({"embedded": hex(&embedded)})));
        finish(&s);
    });
    for k in ["printed ids compared", "existing ids kept", "existing ids win over --build-id", "ids from the command line", "fresh ids", "debug companions compared", "second runs"] {
        rep.require(k, 10);
    }
    rep
}

/// The debug companion carries every section of the input, and the id.
pub fn c21(ctx: &Ctx) -> Report {
    let mut rep = Report::new("one evaluation = one module split by the real binary, the debug companion's sections compared one by one with the input's; distinct = distinct (module, options)");
    runs(ctx, &mut rep, 21, |rep, r, n| {
        let m = module(r, Want::Any);
        let s = observe(ctx, r, n, &m);
        let Some(dpath) = s.case.debug.clone() else { return finish(&s) };
        rep.eval();
        rep.distinct((&m.bytes, s.case.json().to_string()));
        if !accepted(rep, &s) {
            return finish(&s);
        }
        let Some(d) = read(&dpath) else {
            rep.violate("debug companion missing", s.detail(Value::Null));
            return finish(&s);
        };
        let Some(got) = walk(&d) else {
            rep.violate("debug companion is not a module", s.detail(json!({"bytes": d.len()})));
            return finish(&s);
        };
        let id = got.iter().find_map(build_id).unwrap_or_default().to_vec();
        let want = with_id(&s, &id);
        if got != want {
            rep.violate("debug companion sections differ", s.detail(json!({"want": shape(&want), "got": shape(&got)})));
        }
        rep.add("sections compared", got.len() as u64);
        rep.count(if s.old_id.is_some() { "companions of modules with id" } else { "companions of modules without id" });
        if s.case.strip {
            rep.count("companions of stripped modules");
        }
        if m.sections.iter().any(|s| stripped(s, true)) {
            rep.count("companions with debug sections");
        }
        if s.before.contains_key(&dpath.strip_prefix(&s.dir).unwrap().to_string_lossy().into_owned()) {
            rep.count("companions replacing an existing file");
        }
        rep.sample(|| s.detail(json!({"debug_sections": shape(&got)})));
        finish(&s);
    });
    for k in ["companions of modules with id", "companions of modules without id", "companions of stripped modules", "companions with debug sections", "companions replacing an existing file"] {
        rep.require(k, 10);
    }
    rep
}

/// The main module: exactly the debug sections go, the rest stays in order, byte by byte.
pub fn c22(ctx: &Ctx) -> Report {
    let mut rep = Report::new("one evaluation = one module processed by the real binary, the main output's sections compared one by one with a filter over the input's; distinct = distinct (module, options)");
    runs(ctx, &mut rep, 22, |rep, r, n| {
        let m = module(r, Want::Any);
        let s = observe(ctx, r, n, &m);
        rep.eval();
        rep.distinct((&m.bytes, s.case.json().to_string()));
        if !accepted(rep, &s) {
            return finish(&s);
        }
        let main = s.main();
        if !s.case.writes_main(s.old_id.is_some()) {
            rep.count("inputs that need no change");
            if main.as_deref() != Some(&m.bytes[..]) {
                rep.violate("unchanged module rewritten differently", s.detail(Value::Null));
            }
            return finish(&s);
        }
        let Some(got) = main.as_deref().and_then(walk) else {
            rep.violate("main output is missing or not a module", s.detail(Value::Null));
            return finish(&s);
        };
        let id = got.iter().find_map(build_id).unwrap_or_default().to_vec();
        let mut want = with_id(&s, &id);
        let before = want.len();
        if s.case.strip {
            want.retain(|x| !stripped(x, s.case.strip_names));
            rep.count("strip runs");
            rep.add("sections stripped", (before - want.len()) as u64);
            if !s.case.strip_names && want.iter().any(|s| custom(s).is_some_and(|c| c.0 == "name")) {
                rep.count("name sections that stay");
            }
            if s.case.strip_names && s.sections.iter().any(|s| custom(s).is_some_and(|c| c.0 == "name")) {
                rep.count("name sections that go");
            }
        } else if s.case.strip_names {
            rep.count("runs with --strip-names only");
        }
        if let Some(u) = s.case.external() {
            want.push(custom_payload("external_debug_info", &vec_payload(u.as_bytes())));
            rep.count(if s.case.url.is_some() { "references to a url" } else { "references to the companion" });
        }
        rep.add("sections compared", got.len() as u64);
        if got != want {
            rep.violate("main output sections differ", s.detail(json!({"want": shape(&want), "got": shape(&got)})));
        }
        // the input itself stays as it was when the output goes elsewhere, and nothing else appears
        let rel = |p: &Path| p.strip_prefix(&s.dir).unwrap().to_string_lossy().into_owned();
        let mut may: HashSet<String> = s.case.debug.iter().map(|p| rel(p)).collect();
        may.insert(rel(s.case.out.as_ref().unwrap_or(&s.case.input)));
        for (k, v) in &s.after {
            if !may.contains(k) && s.before.get(k) != Some(v) {
                rep.violate("another file changed", s.detail(json!({"path": k})));
            }
        }
        for k in s.before.keys() {
            if !s.after.contains_key(k) {
                rep.violate("a file disappeared", s.detail(json!({"path": k})));
            }
        }
        rep.sample(|| s.detail(json!({"main_sections": shape(&got)})));
        finish(&s);
    });
    for k in [
        "strip runs", "sections stripped", "name sections that stay", "name sections that go", "runs with --strip-names only",
        "references to a url", "references to the companion",
    ] {
        rep.require(k, 10);
    }
    rep.require("inputs that need no change", 3);
    rep
}

fn damage(r: &mut Rng, m: &Module) -> Vec<u8> {
    let mut b = m.bytes.clone();
    match r.below(10) {
        0 => b.truncate(r.below(b.len() + 1)),
        1 => {
            for _ in 0..1 + r.below(4) {
                let at = r.below(b.len());
                b[at] = r.next() as u8;
            }
        }
        2 => b.extend(vec![0; 1 + r.below(20)]),
        3 => b.extend([r.below(256) as u8, 0xff, 0xff, 0xff, 0xff, r.below(128) as u8]),
        4 => {
            let at = r.below(8);
            b[at] = b[at].wrapping_add(1 + r.below(255) as u8);
        }
        5 => b.extend([13 + r.below(243) as u8, 0]),
        6 => {
            // a standard section twice, or out of order
            let id = *r.pick(&ORDER);
            b.extend([id, 0]);
            if r.chance(1, 2) {
                b.extend([id, 0]);
            }
        }
        7 => {
            let at = r.below(b.len());
            let len = 1 + r.below(6);
            let ins = r.bytes(len);
            b.splice(at..at, ins);
        }
        8 => {
            let n = r.below(64);
            b = r.bytes(n);
        }
        _ => {
            let cut = b.len() - r.below(b.len().min(16));
            b.truncate(cut);
        }
    }
    b
}

/// Success means complete outputs; refused input leaves files alone; write errors are reported.
pub fn c23(ctx: &Ctx) -> Report {
    let mut rep = Report::new("one evaluation = one damaged module, or one sound module with an injected write fault, given to the real binary and judged by its exit code and the files it left; distinct = distinct (bytes, options, fault)");
    rep.assumptions.push("write faults are injected with a file size limit (writes beyond it fail), with a link to /dev/full and with missing or unsuitable target paths".into());
    let bin = ctx.bins.join("wasm-split");
    runs(ctx, &mut rep, 23, |rep, r, n| {
        let m = module(r, Want::Any);
        rep.eval();
        if r.chance(1, 2) {
            let b = damage(r, &m);
            let sections = walk(&b);
            let dm = Module { bytes: b, sections: sections.clone().unwrap_or_default() };
            let s = observe(ctx, r, n, &dm);
            rep.distinct((&dm.bytes, s.case.json().to_string()));
            if s.run.timed_out || s.run.crashed() {
                rep.violate("damaged module: crash or hang", s.detail(Value::Null));
            }
            match sections {
                None => {
                    rep.count("malformed modules");
                    if s.run.ok() {
                        rep.violate("malformed module accepted", s.detail(Value::Null));
                    }
                    if s.before != s.after {
                        rep.violate("malformed module: files touched", s.detail(Value::Null));
                    }
                    if s.run.err.trim().is_empty() {
                        rep.violate("malformed module: no message", s.detail(Value::Null));
                    }
                }
                Some(_) => {
                    rep.count("damaged but well-formed modules");
                    if !s.run.ok() {
                        rep.violate("well-formed module refused", s.detail(Value::Null));
                    }
                }
            }
            return finish(&s);
        }
        let dir = ctx.work.join(format!("w{n}"));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        let mut case = Case::generate(r, &dir);
        let mut fault = r.below(6);
        let full = dir.join("full");
        if fault < 2 && !crate::common::full_device(&full) {
            rep.count("no full device here");
            fault = 5;
        }
        case.out = Some(case.out.filter(|o| o != &case.input).unwrap_or_else(|| dir.join("o.wasm")));
        std::fs::write(&case.input, &m.bytes).unwrap();
        let had = m.sections.iter().any(|s| build_id(s).is_some());
        let mut names = "no fault";
        let mut broken: Option<&str> = None;
        match fault {
            0 => {
                case.out = Some(full.clone());
                names = "main output on a full device";
                broken = Some(names);
            }
            1 => {
                case.debug = Some(full.clone());
                names = "companion on a full device";
                broken = Some(names);
            }
            2 => {
                let p = dir.join("missing/x.wasm");
                if r.chance(1, 2) {
                    case.out = Some(p);
                } else {
                    case.debug = Some(p);
                }
                names = "target in a missing directory";
                broken = Some(names);
            }
            3 => {
                let p = dir.join("adir.wasm");
                std::fs::create_dir_all(&p).unwrap();
                if r.chance(1, 2) {
                    case.out = Some(p);
                } else {
                    case.debug = Some(p);
                }
                names = "target is a directory";
                broken = Some(names);
            }
            _ => {}
        }
        // the result replaces the input, which must not happen before the companion is complete
        let in_place = matches!(fault, 1..=3) && case.debug.as_ref().is_some_and(|d| d == &full || d.parent() != Some(&dir) || d.is_dir())
            && case.out.as_ref().is_some_and(|o| o.parent() == Some(&dir) && o != &full && !o.is_dir())
            && r.chance(1, 2);
        if in_place {
            case.out = None;
            rep.count("companion faults in place");
        }
        let mut cmd = case.cmd(r, &bin);
        if fault >= 4 {
            names = "file size limit";
            let most = m.bytes.len() + 64;
            // anywhere from nothing to more than needed, often close to the end
            let lim = if r.chance(1, 2) { r.below(most + 40) } else { most.saturating_sub(r.below(120)) };
            proc::limit_file_size(&mut cmd, lim as u64);
        }
        let run = proc::run(&mut cmd, WATCHDOG);
        rep.count(names);
        rep.distinct((&m.bytes, case.json().to_string(), fault));
        let detail = |extra: Value| json!({"fault": names, "case": case.json(), "run": run.json(), "input_sections": shape(&m.sections), "what": extra});
        if run.timed_out || run.crashed() {
            rep.violate("write fault: crash or hang", detail(Value::Null));
        }
        if read(&case.input).as_deref() != Some(&m.bytes[..]) {
            rep.violate("write fault: input changed", detail(Value::Null));
        }
        if fault < 2 && run.ok() && full.symlink_metadata().is_ok_and(|m| m.is_file()) {
            // the file was written elsewhere and has replaced the link
            broken = None;
        }
        if broken.is_some() && run.ok() {
            rep.violate("write fault: success reported", detail(Value::Null));
        }
        if run.ok() && broken.is_none() {
            rep.count("successes under a limit");
            // then everything must be there
            let out = case.out.clone().unwrap();
            let main = read(&out).and_then(|b| walk(&b));
            let id = main.iter().flatten().find_map(build_id).unwrap_or_default().to_vec();
            let mut all = m.sections.clone();
            if !had {
                all.push(custom_payload("build_id", &vec_payload(&id)));
            }
            let dbg = case.debug.as_ref().map(|d| read(d).and_then(|b| walk(&b)));
            if dbg.is_some_and(|d| d.as_ref() != Some(&all)) {
                rep.violate("success with an incomplete companion", detail(Value::Null));
            }
            if case.strip {
                all.retain(|s| !stripped(s, case.strip_names));
            }
            if let Some(u) = case.external() {
                all.push(custom_payload("external_debug_info", &vec_payload(u.as_bytes())));
            }
            if main.as_ref() != Some(&all) {
                rep.violate("success with an incomplete main output", detail(Value::Null));
            }
        } else if !run.ok() {
            rep.count("failures reported");
            if run.err.trim().is_empty() {
                rep.violate("write fault: no message", detail(Value::Null));
            }
        }
        rep.sample(|| detail(Value::Null));
        let _ = std::fs::remove_dir_all(&dir);
    });
    if !rep.counters.contains_key("no full device here") {
        rep.require("main output on a full device", 5);
        rep.require("companion on a full device", 5);
    }
    for k in [
        "malformed modules", "damaged but well-formed modules",
        "target in a missing directory", "target is a directory", "file size limit", "successes under a limit", "failures reported",
        "companion faults in place",
    ] {
        rep.require(k, 5);
    }
    rep
}
