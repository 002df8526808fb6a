//! A stand-in for `symbolic-sourcemapcache` with the API surface symbolicator uses.
//!
//! Source maps are decoded as usual; scopes, which the real crate infers from the minified source,
//! are taken from an additional list `x_scopes` of `[line, column, name or null]`.
use serde_json::Value;
use std::fmt;
use std::io::{self, Write};
use std::marker::PhantomData;
use symbolic_common::AsSelf;

const MAGIC: &[u8] = b"SMCSTUB1";

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SourcePosition {
    pub line: u32,
    pub column: u32,
}

impl SourcePosition {
    pub fn new(line: u32, column: u32) -> Self {
        Self { line, column }
    }
}

#[derive(Debug)]
pub struct SourceMapCacheWriterError(String);

impl fmt::Display for SourceMapCacheWriterError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SourceMapCacheWriterError {}

#[derive(Debug)]
pub struct SourceMapCacheError(&'static str);

impl fmt::Display for SourceMapCacheError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for SourceMapCacheError {}

#[derive(Debug, Clone)]
struct Token {
    at: (u32, u32),
    file: Option<usize>,
    line: u32,
    column: u32,
    name: Option<usize>,
}

#[derive(Debug, Clone)]
struct FileData {
    name: Option<String>,
    source: Option<String>,
}

fn vlq(s: &[u8], i: &mut usize) -> Option<i64> {
    let (mut v, mut shift) = (0i64, 0);
    loop {
        let c = *s.get(*i)?;
        *i += 1;
        let d = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        } as i64;
        v |= (d & 31) << shift;
        shift += 5;
        if d & 32 == 0 {
            return Some(if v & 1 == 1 { -(v >> 1) } else { v >> 1 });
        }
        if shift > 40 {
            return None;
        }
    }
}

#[derive(Debug, Clone)]
struct Decoded {
    tokens: Vec<Token>,
    files: Vec<FileData>,
    names: Vec<String>,
    scopes: Vec<((u32, u32), Option<String>)>,
}

fn decode(text: &str) -> Option<Decoded> {
    let v: Value = serde_json::from_str(text).ok()?;
    let root = v.get("sourceRoot").and_then(|r| r.as_str()).filter(|r| !r.is_empty());
    let contents = v.get("sourcesContent").and_then(|c| c.as_array());
    let files = v
        .get("sources")?
        .as_array()?
        .iter()
        .enumerate()
        .map(|(i, s)| FileData {
            name: s.as_str().map(|s| match root {
                Some(r) if !s.starts_with('/') && !s.contains(':') => format!("{}/{s}", r.trim_end_matches('/')),
                _ => s.to_string(),
            }),
            source: contents.and_then(|c| c.get(i)).and_then(|c| c.as_str()).map(String::from),
        })
        .collect::<Vec<_>>();
    let names: Vec<String> = v.get("names")?.as_array()?.iter().map(|n| n.as_str().unwrap_or("").to_string()).collect();
    let mut tokens = vec![];
    let (mut file, mut line, mut column, mut name) = (0i64, 0i64, 0i64, 0i64);
    for (l, group) in v.get("mappings")?.as_str()?.split(';').enumerate() {
        let mut at = 0i64;
        for seg in group.split(',').filter(|s| !s.is_empty()) {
            let b = seg.as_bytes();
            let mut i = 0;
            let mut nums = vec![];
            while i < b.len() {
                nums.push(vlq(b, &mut i)?);
            }
            at += nums[0];
            let mut t = Token { at: (l as u32, u32::try_from(at).ok()?), file: None, line: 0, column: 0, name: None };
            match nums.len() {
                1 => {}
                4 | 5 => {
                    file += nums[1];
                    line += nums[2];
                    column += nums[3];
                    let f = usize::try_from(file).ok()?;
                    if f >= files.len() {
                        return None;
                    }
                    t.file = Some(f);
                    t.line = u32::try_from(line).ok()?;
                    t.column = u32::try_from(column).ok()?;
                    if let Some(n) = nums.get(4) {
                        name += n;
                        let n = usize::try_from(name).ok()?;
                        if n >= names.len() {
                            return None;
                        }
                        t.name = Some(n);
                    }
                }
                _ => return None,
            }
            tokens.push(t);
        }
    }
    tokens.sort_by_key(|t| t.at);
    let mut scopes = vec![];
    for s in v.get("x_scopes").and_then(|s| s.as_array()).into_iter().flatten() {
        let s = s.as_array()?;
        scopes.push(((s.first()?.as_u64()? as u32, s.get(1)?.as_u64()? as u32), s.get(2)?.as_str().map(String::from)));
    }
    scopes.sort();
    Some(Decoded { tokens, files, names, scopes })
}

pub struct SourceMapCacheWriter {
    source: String,
    sourcemap: String,
}

impl SourceMapCacheWriter {
    pub fn new(source: &str, sourcemap: &str) -> Result<Self, SourceMapCacheWriterError> {
        decode(sourcemap).ok_or_else(|| SourceMapCacheWriterError("could not parse the source map".into()))?;
        Ok(Self { source: source.into(), sourcemap: sourcemap.into() })
    }

    pub fn serialize<W: Write>(self, writer: &mut W) -> io::Result<()> {
        writer.write_all(MAGIC)?;
        writer.write_all(&(self.source.len() as u64).to_le_bytes())?;
        writer.write_all(&(self.sourcemap.len() as u64).to_le_bytes())?;
        writer.write_all(self.source.as_bytes())?;
        writer.write_all(self.sourcemap.as_bytes())
    }
}

#[derive(Debug, Clone)]
pub struct SourceMapCache<'data> {
    map: std::sync::Arc<Decoded>,
    _data: PhantomData<&'data [u8]>,
}

impl<'slf, 'data: 'slf> AsSelf<'slf> for SourceMapCache<'data> {
    type Ref = SourceMapCache<'slf>;
    fn as_self(&'slf self) -> &'slf Self::Ref {
        self
    }
}

impl<'data> SourceMapCache<'data> {
    pub fn parse(buf: &'data [u8]) -> Result<Self, SourceMapCacheError> {
        let bad = SourceMapCacheError("wrong format");
        let Some(rest) = buf.strip_prefix(MAGIC).filter(|r| r.len() >= 16) else { return Err(bad) };
        let a = u64::from_le_bytes(rest[..8].try_into().unwrap()) as usize;
        let b = u64::from_le_bytes(rest[8..16].try_into().unwrap()) as usize;
        if rest.len() != 16 + a + b {
            return Err(bad);
        }
        let text = std::str::from_utf8(&rest[16 + a..]).map_err(|_| SourceMapCacheError("wrong format"))?;
        let map = decode(text).ok_or(bad)?;
        Ok(Self { map: map.into(), _data: PhantomData })
    }

    pub fn lookup(&self, sp: SourcePosition) -> Option<SourceLocation<'_>> {
        let at = (sp.line, sp.column);
        let i = self.map.tokens.partition_point(|t| t.at <= at);
        let t = self.map.tokens.get(i.checked_sub(1)?)?;
        (t.at.0 == sp.line).then_some(SourceLocation { map: &self.map, token: t, at })
    }
}

pub enum ScopeLookupResult<'data> {
    NamedScope(&'data str),
    AnonymousScope,
    Unknown,
}

pub struct SourceLocation<'data> {
    map: &'data Decoded,
    token: &'data Token,
    at: (u32, u32),
}

impl<'data> SourceLocation<'data> {
    pub fn file(&self) -> Option<File<'data>> {
        Some(File { data: &self.map.files[self.token.file?] })
    }
    pub fn line(&self) -> u32 {
        self.token.line
    }
    pub fn column(&self) -> u32 {
        self.token.column
    }
    pub fn name(&self) -> Option<&'data str> {
        Some(&self.map.names[self.token.name?])
    }
    pub fn file_name(&self) -> Option<&'data str> {
        self.file().and_then(|f| f.name())
    }
    pub fn scope(&self) -> ScopeLookupResult<'data> {
        let i = self.map.scopes.partition_point(|s| s.0 <= self.at);
        match i.checked_sub(1).map(|i| &self.map.scopes[i].1) {
            None => ScopeLookupResult::Unknown,
            Some(None) => ScopeLookupResult::AnonymousScope,
            Some(Some(n)) if n == "?" => ScopeLookupResult::Unknown,
            Some(Some(n)) => ScopeLookupResult::NamedScope(n),
        }
    }
}

pub struct File<'data> {
    data: &'data FileData,
}

impl<'data> File<'data> {
    pub fn name(&self) -> Option<&'data str> {
        self.data.name.as_deref()
    }
    pub fn source(&self) -> Option<&'data str> {
        self.data.source.as_deref()
    }
}
