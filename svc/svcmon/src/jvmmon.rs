//! Monitors of the JVM symbolication (C50) and of source context (C49).
use crate::common::{guard, Ctx, Report, Rng};
use crate::dlmon::{dl_config, gz, source};
use crate::kit::*;
use crate::mock::*;
use crate::objmon::{services, Notes};
use proguard::{ProguardCache, ProguardMapping, StackFrame};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use symbolic::common::DebugId;
use symbolic::debuginfo::sourcebundle::{SourceBundleWriter, SourceFileInfo};
use symbolicator_proguard::interface::*;
use symbolicator_proguard::ProguardService;
use symbolicator_service::source_context::get_context_lines;
use symbolicator_sources::SourceConfig;

// =============================================================================================== C49

fn floor(s: &str, mut i: usize) -> usize {
    if i >= s.len() {
        return s.len();
    }
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// A line as it must be shown; the documentation leaves the exact cut open, so this checks what
/// every reader relies on.
fn shown(line: &str, column: usize, got: &str) -> Result<&'static str, String> {
    if line.len() <= 150 {
        return if got == line { Ok("whole line") } else { Err("a short line is not shown as it is".into()) };
    }
    // more than one reading is possible if the line itself contains markers
    let mut why = String::new();
    for (front, rest) in [(false, Some(got)), (true, got.strip_prefix("{snip} "))] {
        let Some(rest) = rest else { continue };
        for (back, piece) in [(false, Some(rest)), (true, rest.strip_suffix(" {snip}"))] {
            let Some(piece) = piece else { continue };
            if piece.len() > 150 || piece.len() < 130 {
                why = format!("{} bytes of a line of {} are shown", piece.len(), line.len());
                continue;
            }
            for (at, _) in line.match_indices(piece).chain(overlapping(line, piece)) {
                let end = at + piece.len();
                if (at > 0) != front || (end < line.len()) != back {
                    why = "the markers are not where the line was cut".into();
                    continue;
                }
                let col = column.min(line.len() - 1);
                let col = floor(line, col);
                if col < at || col >= end {
                    why = "the column asked for is not in the part shown".into();
                    continue;
                }
                return Ok(match (front, back) {
                    (true, true) => "line cut at both ends",
                    (true, false) => "line cut at its start",
                    (false, true) => "line cut at its end",
                    _ => "long line shown whole",
                });
            }
        }
    }
    Err(if why.is_empty() { "what is shown is not a part of the line".into() } else { why })
}

fn overlapping<'a>(line: &'a str, piece: &'a str) -> Vec<(usize, &'a str)> {
    (0..line.len()).filter(|i| line.is_char_boundary(*i) && line[*i..].starts_with(piece)).map(|i| (i, piece)).collect()
}

fn text_line(rng: &mut Rng) -> String {
    let parts: [&str; 9] = ["let x = 1;", "🧡", "é", "ż", "{snip}", " ", "\t", "中文", "abcdefghij"];
    let target = match rng.below(8) {
        0 => 0,
        1 => 1 + rng.below(20),
        2 => 120 + rng.below(40),
        3 => 145 + rng.below(12),
        4 => 200 + rng.below(200),
        5 => 280 + rng.below(40),
        _ => rng.below(120),
    };
    let mono = rng.chance(1, 4);
    let p = *rng.pick(&parts);
    let mut s = String::new();
    while s.len() < target {
        let q = if mono { p } else { *rng.pick(&parts) };
        if s.len() + q.len() > target && q.len() > 1 {
            s.push((b'a' + rng.below(26) as u8) as char);
        } else {
            s.push_str(q);
        }
    }
    s
}

/// A text and its lines.
pub fn text(rng: &mut Rng) -> (String, Vec<String>) {
    let n = match rng.below(4) {
        0 => rng.below(3),
        1 => 30 + rng.below(100),
        _ => rng.below(20),
    };
    let lines: Vec<String> = (0..n).map(|_| text_line(rng)).collect();
    let mut s = String::new();
    let mixed = rng.below(3);
    for (i, l) in lines.iter().enumerate() {
        s.push_str(l);
        let last = i + 1 == lines.len();
        if last && !l.is_empty() && rng.chance(1, 2) {
            break;
        }
        s.push_str(if mixed == 1 || mixed == 2 && rng.chance(1, 2) { "\r\n" } else { "\n" });
    }
    (s, lines)
}

pub fn c49(ctx: &Ctx) -> Report {
    let mut rep = Report::new("the context is exactly the asked-for line and up to N lines around it; long lines are cut around the column");
    let mut rng = Rng::new(ctx.seed ^ 0x49);
    let cap = ctx.scale(60_000, 2_000_000);
    for _ in 0..cap {
        if !ctx.time_left() || rep.violations.len() >= 25 {
            break;
        }
        let (s, lines) = text(&mut rng);
        for _ in 0..4 {
            rep.eval();
            let lineno = match rng.below(6) {
                0 => 1,
                1 => lines.len(),
                2 => lines.len() + 1 + rng.below(8),
                3 if rng.chance(1, 10) => *rng.pick(&[usize::MAX, u32::MAX as usize, usize::MAX - 6]),
                _ => 1 + rng.below(lines.len().max(1)),
            }
            .max(1);
            let column = match rng.below(5) {
                0 => 0,
                1 => 100_000 + rng.below(10),
                2 if rng.chance(1, 8) => *rng.pick(&[usize::MAX - 200, u32::MAX as usize]),
                3 => 50 + rng.below(30),
                _ => rng.below(420),
            };
            let ctxl = match rng.below(5) {
                0 => Some(rng.below(4)),
                1 => Some(rng.below(40)),
                _ => None,
            };
            let n = ctxl.unwrap_or(5);
            let got = match guard(|| get_context_lines(&s, lineno, column, ctxl)) {
                Ok(g) => g,
                Err(p) => {
                    rep.violate("showing a source line crashed", json!({"panic": p, "text": s, "line": lineno, "column": column}));
                    continue;
                }
            };
            let detail = |g: &Option<(Vec<String>, String, Vec<String>)>| json!({"text": s, "line": lineno, "column": column, "around": n, "got": g});
            let Some((pre, line, post)) = &got else {
                if lineno <= lines.len() {
                    rep.violate("a line of the file is not found", detail(&got));
                }
                rep.count("lines that do not exist");
                continue;
            };
            if lineno > lines.len() {
                rep.violate("a line that does not exist is shown", detail(&got));
                continue;
            }
            let from = (lineno - 1).saturating_sub(n);
            let to = (lineno + n).min(lines.len());
            if pre.len() != lineno - 1 - from || post.len() != to - lineno {
                rep.violate("not the lines around are shown", detail(&got));
                continue;
            }
            if pre.len() < n {
                rep.count("contexts at the start of the file");
            }
            if post.len() < n {
                rep.count("contexts at the end of the file");
            }
            for (l, g) in lines[from..to].iter().zip(pre.iter().chain([line]).chain(post)) {
                match shown(l, column, g) {
                    Ok(k) => {
                        rep.count(k);
                        rep.distinct((l.len(), column.min(500), k));
                    }
                    Err(e) => {
                        rep.violate(&e, json!({"source line": l, "shown": g, "column": column}));
                        break;
                    }
                }
            }
        }
    }
    for k in [
        "lines that do not exist",
        "contexts at the start of the file",
        "contexts at the end of the file",
        "whole line",
        "line cut at both ends",
        "line cut at its start",
        "line cut at its end",
    ] {
        rep.require(k, 50);
    }
    rep
}

// =============================================================================================== C50

/// The context of a frame cut at the end of the line.
fn context(source: &str, lineno: usize) -> Option<(Vec<String>, String, Vec<String>)> {
    let lines: Vec<String> = source
        .lines()
        .map(|l| if l.len() <= 150 { l.to_string() } else { format!("{} {{snip}}", &l[..floor(l, 140)]) })
        .collect();
    let line = lines.get(lineno.checked_sub(1)?)?.clone();
    let from = (lineno - 1).saturating_sub(5);
    let to = (lineno + 5).min(lines.len());
    Some((lines[from..lineno - 1].to_vec(), line, lines[lineno..to].to_vec()))
}

const OBF: [&str; 12] =
    ["a.b", "a.c", "a.b$a", "org.a.b.g$a", "c", "d", "org.a.b.g", "a", "com.acme.Foo", "żółw.a", "a.b$a$1", "com.acme.z"];
const ORIG: [&str; 11] = [
    "com.acme.Foo", "com.acme.Foo$Inner", "com.acme.Bar", "com.acme.deep.Baz", "Top", "com.other.Lib", "com.acme.Foo$Inner$1", "com.acmeX.Qux",
    "com.acme.Ż", "kotlin.jvm.Ref", "com.acme.deep.Baz$Companion",
];
const METHODS: [&str; 6] = ["a", "b", "<init>", "c", "main", "lambda$x$0"];
const NAMES: [&str; 7] = ["run", "onCreate", "<init>", "inner", "main", "doIt", "lambda$run$0"];
const ARGS: [&str; 6] = ["", "int", "com.acme.Foo", "int,com.acme.Bar", "java.lang.String[]", "boolean,long"];
const SIGS: [&str; 12] = [
    "()V", "(I)V", "(La/b;)V", "(ILa/c;)La/b;", "([Ljava/lang/String;)V", "(ZJ)I", "(Lcom/unknown/X;)[[D", "", "(", "(Q)V", "no signature", "()",
];

fn mapping(rng: &mut Rng, lines: bool) -> String {
    let mut s = String::new();
    if rng.chance(1, 2) {
        s.push_str("# compiler: R8\n# compiler_version: 2.0.74\n# pg_map_id: 2d0e1d0\n");
    }
    let mut classes = OBF.to_vec();
    rng.shuffle(&mut classes);
    classes.truncate(1 + rng.below(12));
    let mut lined = false;
    for c in classes {
        let orig = *rng.pick(&ORIG);
        s.push_str(&format!("{orig} -> {c}:\n"));
        match rng.below(5) {
            0 => s.push_str("# {\"id\":\"sourceFile\",\"fileName\":\"R8$$SyntheticClass\"}\n"),
            1 | 2 => s.push_str(&format!("# {{\"id\":\"sourceFile\",\"fileName\":\"{}\"}}\n", rng.pick(&["Foo.java", "Foo.kt", "Other.kt", "Dollar$.java"]))),
            _ => {}
        }
        if rng.chance(1, 3) {
            s.push_str("    int counter -> a\n");
        }
        for _ in 0..rng.below(9) {
            let few = 3 + rng.below(4);
            let m = *rng.pick(&METHODS[..few]);
            let name = *rng.pick(&NAMES);
            let args = *rng.pick(&ARGS);
            if !lines || rng.chance(1, 3) {
                s.push_str(&format!("    void {name}({args}) -> {m}\n"));
                continue;
            }
            lined = true;
            let start = 1 + rng.below(24);
            let end = start + rng.below(12);
            for k in 0..rng.below(3) {
                // an inlined method of another class
                let foreign = *rng.pick(&ORIG);
                let o = 10 + rng.below(40);
                s.push_str(&format!("    {start}:{end}:void {foreign}.{}():{o}:{} -> {m}\n", rng.pick(&NAMES), o + if k == 0 { end - start } else { 0 }));
            }
            let o = 1 + rng.below(60);
            s.push_str(&match rng.below(3) {
                0 => format!("    {start}:{end}:void {name}({args}) -> {m}\n"),
                1 => format!("    {start}:{end}:void {name}({args}):{o} -> {m}\n"),
                _ => format!("    {start}:{end}:void {name}({args}):{o}:{} -> {m}\n", o + end - start),
            });
        }
    }
    s.push_str("com.filler.Filler -> zz.zz:\n");
    s.push_str(if lines && !lined { "    1:1:void f() -> a\n" } else { "    void f() -> a\n" });
    s
}

/// What became of a module of a request.
#[derive(Clone)]
enum Known {
    Mapping(Arc<Vec<u8>>),
    Failed(&'static str),
    Bundle(Arc<HashMap<String, String>>),
    NoBundle,
}

struct Module {
    id: DebugId,
    mapping: bool,
    known: Known,
    label: &'static str,
}

fn bundle(files: &HashMap<String, String>, id: DebugId) -> Vec<u8> {
    let mut buf = vec![];
    let mut w = SourceBundleWriter::start(std::io::Cursor::new(&mut buf)).unwrap();
    w.set_attribute("debug_id", id.to_string());
    let mut names: Vec<_> = files.keys().collect();
    names.sort();
    for (i, n) in names.iter().enumerate() {
        let mut info = SourceFileInfo::new();
        info.set_url(n.to_string());
        w.add_file(format!("files/{i}"), files[*n].as_bytes(), info).unwrap();
    }
    w.finish().unwrap();
    buf
}

const SOURCES: [&str; 13] = [
    "~/com/acme/Foo.jvm", "~/com/acme/Bar.jvm", "~/com/acme/deep/Baz.jvm", "~/Top.jvm", "~/com/other/Lib.jvm", "~/com/acme/Other.jvm", "~/a/b.jvm", "~/Foo.jvm",
    "~/com/acme/Ż.jvm", "~/com/acmeX/Qux.jvm", "~/com/acme/deep/Foo.jvm", "~/com/acme/dir/Foo.jvm", "~/com/acme/deep/Other.jvm",
];

fn stack_frame(rng: &mut Rng, index: usize) -> JvmFrame {
    let platform = match rng.below(5) {
        0 => None,
        1 => Some("javascript"),
        2 => Some("weird"),
        _ => Some("java"),
    };
    let file = |rng: &mut Rng| match rng.below(8) {
        0 | 1 => None,
        2 => Some("SourceFile"),
        3 => Some("Foo$1.java"),
        4 => Some("dir/Foo.kt"),
        5 => Some("Other.x.java"),
        6 => Some(".java"),
        _ => Some("Foo.java"),
    };
    let few = 3 + rng.below(4);
    JvmFrame {
        platform: platform.map(|p| serde_json::from_value(json!(p)).unwrap()),
        function: rng.pick(&METHODS[..few]).to_string(),
        filename: file(rng).map(String::from),
        module: if rng.chance(1, 6) { rng.pick(&ORIG).to_string() } else { rng.pick(&OBF).to_string() },
        abs_path: file(rng).map(String::from),
        lineno: match rng.below(6) {
            0 => None,
            1 => Some(0),
            2 => Some(*rng.pick(&[u32::MAX, 1000, 61])),
            _ => Some(1 + rng.below(34) as u32),
        },
        pre_context: if rng.chance(1, 10) { vec!["given".into()] } else { vec![] },
        context_line: rng.chance(1, 10).then(|| "given line".into()),
        post_context: if rng.chance(1, 10) { vec!["given after".into()] } else { vec![] },
        in_app: *rng.pick(&[None, None, Some(true), Some(false)]),
        index,
        signature: rng.chance(2, 5).then(|| rng.pick(&SIGS).to_string()),
    }
}

/// The answer the request must get.
fn expected(n: &mut Notes, modules: &[&Module], req: &SymbolicateJvmStacktraces) -> Value {
    let maps: Vec<Arc<Vec<u8>>> = modules.iter().filter_map(|m| if let Known::Mapping(x) = &m.known { Some(x.clone()) } else { None }).collect();
    let stored: Vec<Vec<u8>> = maps
        .iter()
        .map(|m| {
            let mut b = vec![];
            ProguardCache::write(&ProguardMapping::new(m), &mut b).unwrap();
            b
        })
        .collect();
    let mappers: Vec<ProguardCache> = stored.iter().map(|b| ProguardCache::parse(b).unwrap()).collect();
    let class = |c: &str| mappers.iter().find_map(|m| m.remap_class(c));
    let mut errors = vec![];
    for m in modules {
        if let Known::Failed(kind) = &m.known {
            errors.push(json!({"uuid": m.id, "type": kind}));
            n.count(match *kind {
                "missing" => "missing mappings",
                "invalid" => "invalid mappings",
                _ => "mappings without lines",
            });
        }
    }
    let exceptions: Vec<Value> = req
        .exceptions
        .iter()
        .map(|e| match class(&format!("{}.{}", e.module, e.ty)).and_then(|c| c.rsplit_once('.')) {
            Some((module, ty)) => {
                n.count("exceptions remapped");
                json!({"type": ty, "module": module})
            }
            None => {
                n.count("exceptions kept");
                json!({"type": e.ty, "module": e.module})
            }
        })
        .collect();
    let mut classes = serde_json::Map::new();
    for c in &req.classes {
        if let Some(o) = class(c) {
            classes.insert(c.to_string(), json!(o));
            n.count("classes remapped");
        }
    }
    let bundles: Vec<Arc<HashMap<String, String>>> =
        modules.iter().filter_map(|m| if let Known::Bundle(x) = &m.known { Some(x.clone()) } else { None }).collect();
    let mut traces = vec![];
    for st in &req.stacktraces {
        let mut out: Vec<JvmFrame> = vec![];
        for f in &st.frames {
            let sig = f.signature.as_ref().and_then(|s| mappers.iter().find_map(|m| m.deobfuscate_signature(s)));
            let params = sig.as_ref().map(|s| s.parameters_types().collect::<Vec<_>>().join(","));
            let query = match (f.lineno, &params) {
                (Some(l), _) => StackFrame::new(&f.module, &f.function, l as usize),
                (None, Some(p)) => StackFrame::with_parameters(&f.module, &f.function, p),
                (None, None) => StackFrame::new(&f.module, &f.function, 0),
            };
            let whole = mappers.iter().map(|m| m.remap_frame(&query).collect::<Vec<_>>()).find(|v| !v.is_empty());
            let mut frames: Vec<JvmFrame> = vec![];
            let mut mapped = true;
            if let Some(whole) = whole {
                n.count(if whole.len() > 1 { "frames expanded" } else { "frames remapped" });
                let bottom = whole.last().unwrap().class();
                for w in whole.iter().rev() {
                    let mut g = f.clone();
                    g.module = w.class().into();
                    g.function = w.method().into();
                    g.lineno = Some(w.line() as u32);
                    if w.class() != bottom {
                        g.filename = None;
                        g.abs_path = None;
                    } else if let Some(file) = w.file() {
                        g.filename = Some(file.into());
                        g.abs_path = Some(file.into());
                    }
                    frames.push(g);
                }
            } else if let Some((c, m)) = mappers.iter().find_map(|m| m.remap_method(&f.module, &f.function)) {
                n.count("methods remapped");
                frames.push(JvmFrame { module: c.into(), function: m.into(), ..f.clone() });
            } else if let Some(c) = class(&f.module) {
                n.count("only the class remapped");
                frames.push(JvmFrame { module: c.into(), ..f.clone() });
            } else {
                n.count("frames kept");
                mapped = false;
                frames.push(f.clone());
            }
            for g in &mut frames {
                if let (true, Some(p), None) = (mapped, &req.release_package, g.in_app) {
                    if g.module.starts_with(p.as_str()) {
                        g.in_app = Some(true);
                        n.count("frames found to be in the app");
                    }
                }
                if let Some(s) = &sig {
                    let ret = s.return_type();
                    let list = s.parameters_types().collect::<Vec<_>>().join(", ");
                    g.signature = Some(if ret == "void" { format!("({list})") } else { format!("({list}): {ret}") });
                    n.count("signatures translated");
                }
            }
            out.extend(frames);
        }
        if req.apply_source_context {
            for g in &mut out {
                let Some(l) = g.lineno.filter(|l| *l > 0) else { continue };
                let stem = g.abs_path.as_deref().filter(|p| !p.contains('$')).and_then(|p| p.rfind('.').map(|i| &p[..i]));
                let path = match stem {
                    Some(stem) => match g.module.rfind('.') {
                        Some(i) => format!("{}/{stem}", g.module[..i].replace('.', "/")),
                        None => stem.to_string(),
                    },
                    None => g.module.split('$').next().unwrap().replace('.', "/"),
                };
                let url = format!("~/{path}.jvm");
                if let Some((pre, line, post)) = bundles.iter().filter_map(|b| context(b.get(&url)?, l as usize)).next() {
                    g.pre_context = pre;
                    g.context_line = Some(line);
                    g.post_context = post;
                    n.count("frames with source");
                } else {
                    n.count("frames without source");
                }
            }
        }
        traces.push(json!({ "frames": out }));
    }
    json!({"exceptions": exceptions, "stacktraces": traces, "classes": classes, "errors": errors})
}

pub fn c50(ctx: &Ctx) -> Report {
    let mut rep = Report::new("every answer equals the one composed from the served mapping files and source bundles by the documented rules");
    let rt = rt(6);
    let files: Arc<Mutex<HashMap<String, Resp>>> = Default::default();
    let f2 = files.clone();
    let mock = Mock::start(move |h| f2.lock().unwrap().get(&h.target).cloned().unwrap_or_else(|| Resp::new(404, "nothing here")));
    let mut rng = Rng::new(ctx.seed ^ 0x50);
    let mut round = 0u64;
    while ctx.time_left() && rep.violations.len() < 25 {
        round += 1;
        let batch: Vec<_> = (0..6)
            .map(|b| {
                let r = Rng::new(rng.next());
                let dir = scratch(&ctx.work, "c50");
                rt.spawn(case50(r, format!("r{round}b{b}"), dir, mock.url(""), files.clone(), rt.handle().clone()))
            })
            .collect();
        for t in batch {
            match rt.block_on(t) {
                Ok(n) => n.into_report(&mut rep),
                Err(e) => rep.violate("the code under test crashed", json!({ "panic": e.to_string() })),
            }
        }
        files.lock().unwrap().clear();
        mock.take();
    }
    for k in [
        "missing mappings",
        "invalid mappings",
        "mappings without lines",
        "exceptions remapped",
        "exceptions kept",
        "classes remapped",
        "frames expanded",
        "frames remapped",
        "methods remapped",
        "only the class remapped",
        "frames kept",
        "frames found to be in the app",
        "signatures translated",
        "frames with source",
        "frames without source",
        "answers after a restart",
    ] {
        rep.require(k, 10);
    }
    rep
}

async fn case50(
    mut rng: Rng,
    name: String,
    dir: PathBuf,
    base: String,
    files: Arc<Mutex<HashMap<String, Resp>>>,
    handle: tokio::runtime::Handle,
) -> Notes {
    let rng = &mut rng;
    let mut n = Notes::default();
    let set = |t: String, r: Resp| {
        files.lock().unwrap().insert(t, r);
    };
    let pause = |rng: &mut Rng, mut r: Resp| {
        if rng.chance(1, 2) {
            r.head_delay = std::time::Duration::from_millis(rng.below(15) as u64);
        }
        r
    };
    // the modules a request can name
    let mut modules: Vec<Module> = vec![];
    for i in 0..3 + rng.below(4) {
        let id: DebugId = format!("{:08x}-0000-4000-8000-{}", i + 1, rng.hex(12)).parse().unwrap();
        let mapping_ = rng.chance(3, 5);
        let file = format!("{}{i}", 1 + rng.below(9));
        let list = |kind: &str| Resp::json(&json!([{"id": file, "symbolType": kind, "uuid": "x", "size": 3, "sha1": "abc", "dateCreated": null}]));
        let query = format!("/{name}/?debug_id={id}");
        let get = format!("/{name}/?id={file}");
        let mut m = Module { id, mapping: mapping_, known: Known::NoBundle, label: "" };
        if mapping_ {
            let good = mapping(rng, true);
            let flat = mapping(rng, false);
            let (label, resp, known) = match rng.below(16) {
                0 => ("unlisted", None, Known::Failed("missing")),
                1 => ("listed as another type", None, Known::Failed("missing")),
                2 => ("not found", Some(Resp::new(404, "no")), Known::Failed("missing")),
                3 => ("denied", Some(Resp::new(403, "no")), Known::Failed("missing")),
                4 => ("failing", Some(Resp::new(500, "no")), Known::Failed("missing")),
                5 => ("empty", Some(Resp::ok("")), Known::Failed("invalid")),
                6 => ("not a mapping", Some(Resp::ok("<html>nope</html>\n")), Known::Failed("invalid")),
                7 => ("comments only", Some(Resp::ok("# compiler: R8\n# a: b\n")), Known::Failed("invalid")),
                8 => ("without lines", Some(Resp::ok(flat.clone())), Known::Failed("no_line_info")),
                9 => ("compressed without lines", Some(Resp::ok(gz(flat.as_bytes()))), Known::Failed("no_line_info")),
                10 => {
                    let mut z = gz(good.as_bytes());
                    z.truncate(z.len() - 1 - rng.below(z.len() / 2));
                    ("broken compression", Some(Resp::ok(z)), Known::Failed("invalid"))
                }
                11 => ("compressed", Some(Resp::ok(gz(good.as_bytes()))), Known::Mapping(Arc::new(good.clone().into_bytes()))),
                _ => ("plain", Some(Resp::ok(good.clone())), Known::Mapping(Arc::new(good.clone().into_bytes()))),
            };
            match label {
                "unlisted" => {}
                "listed as another type" => set(query, list("sourcebundle")),
                _ => set(query, pause(rng, list("proguard"))),
            }
            if let Some(r) = resp {
                set(get, pause(rng, r));
            }
            m.label = label;
            m.known = known;
        } else {
            let mut all = HashMap::new();
            for s in SOURCES {
                if rng.chance(1, 2) {
                    let (t, _) = loop {
                        let t = text(rng);
                        if !t.1.is_empty() {
                            break t;
                        }
                    };
                    all.insert(s.to_string(), t);
                }
            }
            if all.is_empty() {
                all.insert(SOURCES[0].to_string(), "one line".into());
            }
            let b = bundle(&all, id);
            let (label, resp, known) = match rng.below(9) {
                0 => ("unlisted bundle", None, Known::NoBundle),
                1 => ("missing bundle", Some(Resp::new(404, "no")), Known::NoBundle),
                2 => ("broken bundle", Some(Resp::ok(b[..b.len() / 2].to_vec())), Known::NoBundle),
                3 => ("denied bundle", Some(Resp::new(403, "no")), Known::NoBundle),
                4 => ("no bundle at all", Some(Resp::ok("MODULE Linux x86_64 000000000000000000000000000000000 a.so\nFUNC 0 1 0 f\n")), Known::NoBundle),
                5 => ("compressed bundle", Some(Resp::ok(gz(&b))), Known::Bundle(Arc::new(all.clone()))),
                _ => ("bundle", Some(Resp::ok(b.clone())), Known::Bundle(Arc::new(all.clone()))),
            };
            if label != "unlisted bundle" {
                set(query, pause(rng, list("sourcebundle")));
            }
            if let Some(r) = resp {
                set(get, pause(rng, r));
            }
            m.label = label;
            m.known = known;
        }
        modules.push(m);
    }
    if modules.is_empty() {
        return n;
    }
    let src: Arc<[SourceConfig]> = Arc::from(vec![source(json!({"type": "sentry", "id": "sentry:project", "url": format!("{base}/{name}/"), "token": "secret"}))]);
    let cfg = dl_config(json!({"cache_dir": dir.join("cache")}));
    let mut svc = services(&cfg, &handle);
    let mut jvm = ProguardService::new(&svc);
    for round in 0..3 {
        if round > 0 && rng.chance(1, 2) {
            drop(jvm);
            svc = services(&cfg, &handle);
            jvm = ProguardService::new(&svc);
            n.count("answers after a restart");
        }
        let mut jobs = vec![];
        for _ in 0..1 + rng.below(4) {
            let mut chosen: Vec<&Module> = (0..rng.below(modules.len() + 2)).map(|_| &modules[rng.below(modules.len())]).collect();
            if rng.chance(1, 2) {
                chosen = modules.iter().collect();
                rng.shuffle(&mut chosen);
            }
            let req = SymbolicateJvmStacktraces {
                platform: serde_json::from_value(json!("java")).ok(),
                scope: scope("1"),
                sources: src.clone(),
                exceptions: (0..rng.below(4))
                    .map(|_| {
                        let c = if rng.chance(1, 5) { rng.pick(&ORIG).to_string() } else { rng.pick(&OBF).to_string() };
                        let (m, t) = c.rsplit_once('.').unwrap_or(("", c.as_str()));
                        JvmException { ty: t.into(), module: m.into() }
                    })
                    .collect(),
                stacktraces: (0..rng.below(4))
                    .map(|_| JvmStacktrace {
                        frames: (0..rng.below(8))
                            .map(|i| {
                                let index = if rng.chance(1, 2) { i } else { rng.below(1000) };
                                stack_frame(rng, index)
                            })
                            .collect(),
                    })
                    .collect(),
                modules: chosen
                    .iter()
                    .map(|m| JvmModule { uuid: m.id, r#type: if m.mapping { JvmModuleType::Proguard } else { JvmModuleType::Source } })
                    .collect(),
                apply_source_context: rng.chance(3, 4),
                release_package: match rng.below(4) {
                    0 => None,
                    1 => Some(String::new()),
                    2 => Some("com.acme.deep".into()),
                    _ => Some("com.acme".into()),
                },
                classes: (0..rng.below(5)).map(|_| Arc::from(if rng.chance(1, 4) { *rng.pick(&ORIG) } else { *rng.pick(&OBF) })).collect(),
            };
            n.evals += 1;
            let want = expected(&mut n, &chosen, &req);
            let labels: Vec<&str> = chosen.iter().map(|m| m.label).collect();
            for l in &labels {
                n.seen.insert(format!("{l} {} {}", round, chosen.len().min(4)));
            }
            let jvm = jvm.clone();
            let brief = json!({"modules": labels, "request": {"stacktraces": req.stacktraces, "exceptions": req.exceptions, "classes": req.classes,
                               "release_package": req.release_package, "source context": req.apply_source_context}});
            jobs.push((want, brief, tokio::spawn(async move { serde_json::to_value(jvm.symbolicate_jvm(req).await).unwrap() })));
        }
        for (want, brief, j) in jobs {
            match j.await {
                Ok(got) if got == want => {}
                Ok(got) => {
                    let (what, w, g) = difference(&want, &got);
                    n.bad.push((what, json!({"want": w, "got": g, "case": brief})));
                }
                Err(e) => n.bad.push(("the code under test crashed".into(), json!({"panic": e.to_string(), "case": brief}))),
            }
        }
        if !n.bad.is_empty() {
            break;
        }
    }
    drop(svc);
    let _ = std::fs::remove_dir_all(&dir);
    n
}

fn difference(want: &Value, got: &Value) -> (String, Value, Value) {
    for (k, what) in [
        ("errors", "the unusable mapping files are not reported as what they are"),
        ("exceptions", "an exception is not remapped as it must be"),
        ("classes", "the classes are not remapped as they must be"),
    ] {
        if want[k] != got[k] {
            return (what.into(), want[k].clone(), got[k].clone());
        }
    }
    let empty = vec![];
    let (a, b) = (want["stacktraces"].as_array().unwrap_or(&empty), got["stacktraces"].as_array().unwrap_or(&empty));
    if a.len() != b.len() {
        return ("not every stacktrace is answered".into(), json!(a.len()), json!(b.len()));
    }
    for (x, y) in a.iter().zip(b) {
        let (x, y) = (x["frames"].as_array().unwrap_or(&empty), y["frames"].as_array().unwrap_or(&empty));
        if x.len() != y.len() {
            return ("a stacktrace does not have the frames it must have".into(), json!(x), json!(y));
        }
        for (f, g) in x.iter().zip(y) {
            if f != g {
                let what = ["module", "function", "lineno", "filename", "abs_path", "in_app", "signature", "context_line", "pre_context", "post_context", "index", "platform"]
                    .into_iter()
                    .find(|k| f.get(k) != g.get(k))
                    .unwrap_or("rest");
                return (format!("the {what} of a frame is not what it must be"), f.clone(), g.clone());
            }
        }
    }
    ("the answer is not what it must be".into(), want.clone(), got.clone())
}
