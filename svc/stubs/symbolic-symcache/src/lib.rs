//! A stand-in for `symbolic-symcache` with the API surface symbolicator uses.
//!
//! It reads functions, inlinees and lines with the real `symbolic-debuginfo` and keeps, for every
//! address range, the list of source locations, innermost first. Breakpad files do not say what
//! language a function is written in, so it is told from the kind of mangling.
use serde_json::{json, Value};
use std::fmt;
use std::io::{self, Write};
use std::marker::PhantomData;
use symbolic_common::{Arch, AsSelf, Language, Name, NameMangling};
use symbolic_debuginfo::{Function as DebugFunction, Object};

pub const SYMCACHE_VERSION: u32 = 8;
const MAGIC: &[u8] = b"SYMCSTUB";

#[derive(Debug)]
pub struct Error(String);

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

pub mod transform {
    /// Rewrites names and locations while a cache is written.
    pub trait Transformer {
        fn name(&mut self, name: &str) -> String {
            name.into()
        }
        fn file(&mut self, file: &str) -> String {
            file.into()
        }
        fn location(&mut self, file: &str, line: u32) -> (String, u32) {
            (file.into(), line)
        }
    }

    impl Transformer for symbolic_debuginfo::macho::BcSymbolMap<'_> {
        fn name(&mut self, name: &str) -> String {
            hidden(self, name)
        }
        fn file(&mut self, file: &str) -> String {
            file.split('/').map(|p| hidden(self, p)).collect::<Vec<_>>().join("/")
        }
    }

    fn hidden(map: &symbolic_debuginfo::macho::BcSymbolMap<'_>, s: &str) -> String {
        let n = s.strip_prefix("__hidden#").and_then(|t| t.strip_suffix('_')).and_then(|t| t.parse().ok());
        n.and_then(|n| map.get(n)).map(|t| t.strip_prefix('_').filter(|u| u.starts_with('_')).unwrap_or(t)).unwrap_or(s).to_string()
    }

    #[cfg(feature = "il2cpp")]
    impl Transformer for symbolic_il2cpp::LineMapping {
        fn location(&mut self, file: &str, line: u32) -> (String, u32) {
            match self.lookup(file, line) {
                Some((f, l)) => (f.to_string(), l),
                None => (file.into(), line),
            }
        }
    }
}

#[derive(Clone, Debug)]
struct Loc {
    name: String,
    lang: u32,
    entry: u32,
    file: Option<String>,
    line: u32,
}

#[derive(Default)]
pub struct SymCacheConverter<'a> {
    transformers: Vec<Box<dyn transform::Transformer + 'a>>,
    arch: Arch,
    ranges: Vec<(u64, u64, Vec<Loc>)>,
}

fn language(name: &Name) -> Language {
    match name.language() {
        Language::Unknown => {
            let s = name.as_str();
            if s.starts_with("_Z") {
                Language::Cpp
            } else if s.starts_with("_R") {
                Language::Rust
            } else if s.starts_with("$s") {
                Language::Swift
            } else {
                Language::Unknown
            }
        }
        l => l,
    }
}

impl<'a> SymCacheConverter<'a> {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn add_transformer<T: transform::Transformer + 'a>(&mut self, t: T) {
        self.transformers.push(Box::new(t));
    }

    fn loc(&mut self, f: &DebugFunction<'_>, entry: u64, place: Option<(String, u32)>) -> Loc {
        let mut name = f.name.as_str().to_string();
        for t in &mut self.transformers {
            name = t.name(&name);
        }
        let (mut file, mut line) = match place {
            Some((f, l)) => (Some(f), l),
            None => (None, 0),
        };
        if let Some(f) = &mut file {
            for t in &mut self.transformers {
                *f = t.file(f);
                (*f, line) = t.location(f, line);
            }
        }
        let lang = language(&Name::new(name.clone(), NameMangling::Unknown, f.name.language())) as u32;
        Loc { name, lang, entry: entry as u32, file, line }
    }

    fn function(&mut self, f: &DebugFunction<'_>, entry: u64) {
        // the function itself, by lines; gaps have no line
        let end = f.address.saturating_add(f.size);
        let mut own: Vec<(u64, u64, Option<(String, u32)>)> = vec![];
        for l in &f.lines {
            let e = l.address.saturating_add(l.size.unwrap_or(1));
            own.push((l.address, e.min(end), Some((l.file.path_str(), l.line as u32))));
        }
        own.sort_by_key(|r| r.0);
        let mut at = f.address;
        let mut parts = vec![];
        for (s, e, p) in own {
            if s > at {
                parts.push((at, s, None));
            }
            if e > s.max(at) {
                parts.push((s.max(at), e, p));
                at = e;
            }
        }
        if end > at {
            parts.push((at, end, None));
        }
        let mut placed: Vec<(u64, u64, Vec<Loc>)> = vec![];
        for (s, e, p) in parts {
            let l = self.loc(f, entry, p);
            placed.push((s, e, vec![l]));
        }
        let before = self.ranges.len();
        for i in &f.inlinees {
            self.function(i, i.address);
        }
        let inner: Vec<_> = self.ranges.drain(before..).collect();
        // what an inlinee covers is the inlinee, called from here
        for (s, e, locs) in placed {
            let mut at = s;
            let mut over: Vec<_> = inner.iter().filter(|(a, b, _)| *a < e && *b > s).collect();
            over.sort_by_key(|r| r.0);
            for (a, b, il) in over {
                let (a, b) = ((*a).max(at), (*b).min(e));
                if a >= b {
                    continue;
                }
                if a > at {
                    self.ranges.push((at, a, locs.clone()));
                }
                let mut both = il.clone();
                both.extend(locs.iter().cloned());
                self.ranges.push((a, b, both));
                at = b;
            }
            if at < e {
                self.ranges.push((at, e, locs));
            }
        }
    }

    pub fn process_object<'d, 'o>(&mut self, object: &'o Object<'d>) -> Result<(), Error> {
        self.arch = object.arch();
        let session = object.debug_session().map_err(|e| Error(e.to_string()))?;
        for f in session.functions() {
            let f = f.map_err(|e| Error(e.to_string()))?;
            self.function(&f, f.address);
        }
        self.ranges.sort_by_key(|r| r.0);
        // symbols cover what functions do not
        let mut symbols: Vec<_> = object.symbols().filter(|s| s.name().is_some()).collect();
        symbols.sort_by_key(|s| s.address);
        let mut extra = vec![];
        for (i, s) in symbols.iter().enumerate() {
            if self.ranges.iter().any(|(a, b, _)| *a <= s.address && s.address < *b) {
                continue;
            }
            let mut end = if s.size > 0 { s.address + s.size } else { u32::MAX as u64 };
            for n in symbols.iter().skip(i + 1).map(|n| n.address).chain(self.ranges.iter().map(|r| r.0)) {
                if n > s.address {
                    end = end.min(n);
                }
            }
            let mut name = s.name().unwrap().to_string();
            for t in &mut self.transformers {
                name = t.name(&name);
            }
            let lang = language(&Name::from(name.clone())) as u32;
            extra.push((s.address, end, vec![Loc { name, lang, entry: s.address as u32, file: None, line: 0 }]));
        }
        self.ranges.extend(extra);
        self.ranges.sort_by_key(|r| r.0);
        Ok(())
    }

    pub fn serialize<W: Write>(self, w: &mut W) -> io::Result<()> {
        let ranges: Vec<Value> = self
            .ranges
            .iter()
            .map(|(s, e, l)| json!([s, e, l.iter().map(|l| json!([l.name, l.lang, l.entry, l.file, l.line])).collect::<Vec<_>>()]))
            .collect();
        w.write_all(MAGIC)?;
        w.write_all(&serde_json::to_vec(&json!({"arch": self.arch as u32, "ranges": ranges}))?)
    }
}

#[derive(Clone, Debug)]
pub struct SymCache<'data> {
    arch: Arch,
    ranges: Vec<(u64, u64, Vec<Loc>)>,
    _data: PhantomData<&'data [u8]>,
}

impl<'slf> AsSelf<'slf> for SymCache<'_> {
    type Ref = SymCache<'slf>;
    fn as_self(&'slf self) -> &'slf Self::Ref {
        self
    }
}

impl<'data> SymCache<'data> {
    pub fn parse(data: &'data [u8]) -> Result<Self, Error> {
        let bad = || Error("not a symcache".into());
        let v: Value = data.strip_prefix(MAGIC).and_then(|d| serde_json::from_slice(d).ok()).ok_or_else(bad)?;
        let locs = |l: &Value| -> Option<Vec<Loc>> {
            l.as_array()?
                .iter()
                .map(|l| {
                    Some(Loc {
                        name: l[0].as_str()?.into(),
                        lang: l[1].as_u64()? as u32,
                        entry: l[2].as_u64()? as u32,
                        file: l[3].as_str().map(String::from),
                        line: l[4].as_u64()? as u32,
                    })
                })
                .collect()
        };
        let ranges: Option<Vec<_>> = v["ranges"].as_array().ok_or_else(bad)?.iter().map(|r| Some((r[0].as_u64()?, r[1].as_u64()?, locs(&r[2])?))).collect();
        let arch = v["arch"].as_u64().ok_or_else(bad)? as u32;
        Ok(Self { arch: Arch::from_u32(arch), ranges: ranges.ok_or_else(bad)?, _data: PhantomData })
    }

    pub fn arch(&self) -> Arch {
        self.arch
    }

    pub fn lookup<'c>(&'c self, addr: u64) -> SourceLocations<'c> {
        let i = self.ranges.partition_point(|r| r.0 <= addr);
        let at = i.checked_sub(1).map(|i| &self.ranges[i]).filter(|r| addr < r.1 && addr <= u32::MAX as u64);
        SourceLocations { locs: at.map_or(&[][..], |r| &r.2).iter() }
    }
}

pub struct SourceLocations<'c> {
    locs: std::slice::Iter<'c, Loc>,
}

impl<'c> Iterator for SourceLocations<'c> {
    type Item = SourceLocation<'c>;
    fn next(&mut self) -> Option<Self::Item> {
        self.locs.next().map(|loc| SourceLocation { loc })
    }
}

#[derive(Clone, Debug)]
pub struct SourceLocation<'c> {
    loc: &'c Loc,
}

impl<'c> SourceLocation<'c> {
    pub fn line(&self) -> u32 {
        self.loc.line
    }
    pub fn file(&self) -> Option<File<'c>> {
        self.loc.file.as_deref().map(|path| File { path })
    }
    pub fn function(&self) -> Function<'c> {
        Function { loc: self.loc }
    }
}

#[derive(Clone, Debug)]
pub struct File<'c> {
    path: &'c str,
}

impl File<'_> {
    pub fn full_path(&self) -> String {
        self.path.to_string()
    }
}

#[derive(Clone, Debug)]
pub struct Function<'c> {
    loc: &'c Loc,
}

impl<'c> Function<'c> {
    pub fn name(&self) -> &'c str {
        &self.loc.name
    }
    pub fn name_for_demangling(&self) -> Name<'c> {
        Name::new(self.name(), NameMangling::Unknown, self.language())
    }
    pub fn entry_pc(&self) -> u32 {
        self.loc.entry
    }
    pub fn language(&self) -> Language {
        Language::from_u32(self.loc.lang)
    }
}
