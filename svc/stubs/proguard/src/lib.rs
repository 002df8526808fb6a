//! A stand-in for `proguard` 5.5 with the API surface symbolicator uses: it parses mapping files
//! and remaps classes, methods, frames and signatures as the crate documents.
use std::collections::HashMap;
use std::fmt;
use std::io::{self, Write};

const MAGIC: &[u8] = b"PRGDSTUB\n";

#[derive(Clone, Debug)]
struct LineMapping {
    start: usize,
    end: usize,
    original_start: Option<usize>,
    original_end: Option<usize>,
}

#[derive(Clone, Debug)]
enum Record<'s> {
    Header { key: &'s str, value: Option<&'s str> },
    SourceFile(&'s str),
    Class { original: &'s str, obfuscated: &'s str },
    Field,
    Method {
        original: &'s str,
        obfuscated: &'s str,
        arguments: &'s str,
        original_class: Option<&'s str>,
        lines: Option<LineMapping>,
    },
}

fn parse_line(line: &str) -> Option<Record<'_>> {
    let trimmed = line.trim_start();
    if let Some(c) = trimmed.strip_prefix('#') {
        let c = c.trim();
        if let Some(rest) = c.strip_prefix(r#"{"id":"sourceFile","fileName":""#) {
            return Some(Record::SourceFile(rest.strip_suffix("\"}")?));
        }
        let (key, value) = match c.split_once(':') {
            Some((k, v)) => (k.trim(), Some(v.trim())),
            None => (c, None),
        };
        return Some(Record::Header { key, value });
    }
    let (left, obfuscated) = line.split_once(" -> ")?;
    if !line.starts_with("    ") {
        let obfuscated = obfuscated.trim_end().strip_suffix(':')?;
        if left.is_empty() || left.starts_with(' ') || obfuscated.is_empty() {
            return None;
        }
        return Some(Record::Class { original: left, obfuscated });
    }
    let mut rest = left.strip_prefix("    ")?;
    let obfuscated = obfuscated.trim_end();
    let number = |s: &mut &str| -> Option<usize> {
        let n = s.bytes().take_while(u8::is_ascii_digit).count();
        if n == 0 || s.as_bytes().get(n) != Some(&b':') {
            return None;
        }
        let v = s[..n].parse().ok()?;
        *s = &s[n + 1..];
        Some(v)
    };
    let start = number(&mut rest);
    let end = if start.is_some() { number(&mut rest) } else { None };
    let (_ty, rest) = rest.split_once(' ')?;
    let Some((name, rest)) = rest.split_once('(') else {
        return (start.is_none() && !rest.is_empty()).then_some(Record::Field);
    };
    let (arguments, rest) = rest.split_once(')')?;
    let (mut original_start, mut original_end) = (None, None);
    if let Some(r) = rest.strip_prefix(':') {
        match r.split_once(':') {
            Some((a, b)) => {
                original_start = Some(a.parse().ok()?);
                original_end = Some(b.parse().ok()?);
            }
            None => original_start = Some(r.parse().ok()?),
        }
    } else if !rest.is_empty() {
        return None;
    }
    let (original_class, original) = match name.rsplit_once('.') {
        Some((c, m)) => (Some(c), m),
        None => (None, name),
    };
    let lines = match (start, end) {
        (Some(start), Some(end)) if start > 0 && end > 0 => {
            Some(LineMapping { start, end, original_start, original_end })
        }
        _ => None,
    };
    Some(Record::Method { original, obfuscated, arguments, original_class, lines })
}

#[derive(Clone)]
pub struct ProguardMapping<'s> {
    source: &'s [u8],
}

impl<'s> ProguardMapping<'s> {
    pub fn new(source: &'s [u8]) -> Self {
        Self { source }
    }
    fn records(&self) -> impl Iterator<Item = Option<Record<'s>>> {
        self.source
            .split(|b| *b == b'\n' || *b == b'\r')
            .filter(|l| !l.is_empty())
            .map(|l| std::str::from_utf8(l).ok().and_then(parse_line))
    }
    /// Whether a class followed by a member is among the first 50 records.
    pub fn is_valid(&self) -> bool {
        let mut class = false;
        for r in self.records().take(50) {
            match r {
                Some(Record::Class { .. }) => class = true,
                Some(Record::Field | Record::Method { .. }) if class => return true,
                _ => {}
            }
        }
        false
    }
    pub fn has_line_info(&self) -> bool {
        self.records().any(|r| matches!(r, Some(Record::Method { lines: Some(_), .. })))
    }
}

#[derive(Debug)]
pub struct CacheError(&'static str);

impl fmt::Display for CacheError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}

impl std::error::Error for CacheError {}

#[derive(Clone, Debug)]
struct Member<'d> {
    original: &'d str,
    original_class: Option<&'d str>,
    arguments: &'d str,
    start: usize,
    end: usize,
    original_start: usize,
    original_end: Option<usize>,
}

#[derive(Clone, Debug, Default)]
struct Class<'d> {
    original: &'d str,
    file: Option<&'d str>,
    members: HashMap<&'d str, Vec<Member<'d>>>,
}

#[derive(Clone, Debug)]
pub struct ProguardCache<'data> {
    classes: HashMap<&'data str, Class<'data>>,
}

impl<'data> ProguardCache<'data> {
    pub fn write<W: Write>(mapping: &ProguardMapping<'_>, writer: &mut W) -> io::Result<()> {
        writer.write_all(MAGIC)?;
        writer.write_all(mapping.source)
    }
    pub fn parse(buf: &'data [u8]) -> Result<Self, CacheError> {
        let source = buf.strip_prefix(MAGIC).ok_or(CacheError("wrong magic"))?;
        let mut classes: HashMap<&'data str, Class<'data>> = HashMap::new();
        let mut current = None;
        for r in (ProguardMapping { source }).records().flatten() {
            match r {
                Record::Class { original, obfuscated } => {
                    current = Some(obfuscated);
                    classes.insert(obfuscated, Class { original, ..Default::default() });
                }
                Record::SourceFile(f) => {
                    if let Some(c) = current {
                        classes.get_mut(c).unwrap().file = Some(f);
                    }
                }
                Record::Header { key, value } => {
                    let _ = (key, value);
                }
                Record::Field => {}
                Record::Method { original, obfuscated, arguments, original_class, lines } => {
                    let Some(c) = current else { continue };
                    let l = lines.unwrap_or(LineMapping { start: 0, end: 0, original_start: None, original_end: None });
                    classes.get_mut(c).unwrap().members.entry(obfuscated).or_default().push(Member {
                        original,
                        original_class,
                        arguments,
                        start: l.start,
                        end: l.end,
                        original_start: l.original_start.unwrap_or(l.start),
                        original_end: if l.original_start.is_some() { l.original_end } else { Some(l.end) },
                    });
                }
            }
        }
        Ok(Self { classes })
    }
    pub fn test(&self) {}

    pub fn remap_class(&self, class: &str) -> Option<&'data str> {
        Some(self.classes.get(class)?.original)
    }
    /// Only an unambiguous method is remapped.
    pub fn remap_method(&self, class: &str, method: &str) -> Option<(&'data str, &'data str)> {
        let c = self.classes.get(class)?;
        let members = c.members.get(method)?;
        let first = members.first()?;
        members.iter().all(|m| m.original == first.original).then_some((c.original, first.original))
    }
    pub fn remap_frame<'r>(&'r self, frame: &StackFrame<'r>) -> std::vec::IntoIter<StackFrame<'r>> {
        let mut out = vec![];
        let found = self.classes.get(frame.class).and_then(|c| Some((c, c.members.get(frame.method)?)));
        if let Some((c, members)) = found {
            for m in members {
                let class = m.original_class.unwrap_or(c.original);
                if let Some(p) = frame.parameters {
                    if p != m.arguments {
                        continue;
                    }
                    let f = StackFrame { class, method: m.original, line: 0, file: None, parameters: frame.parameters };
                    if !out.contains(&f) {
                        out.push(f);
                    }
                    continue;
                }
                if m.end > 0 && (frame.line < m.start || frame.line > m.end) {
                    continue;
                }
                let line = match m.original_end {
                    Some(e) if e != m.original_start => m.original_start + frame.line - m.start,
                    _ if m.end == 0 => 0,
                    _ => m.original_start,
                };
                let file = match c.file {
                    _ if m.original_class.is_some() => None,
                    Some("R8$$SyntheticClass") => {
                        let name = class.rsplit('.').next().unwrap_or(class);
                        Some(name.split('$').next().unwrap_or(name))
                    }
                    f => f.or(frame.file),
                };
                out.push(StackFrame { class, method: m.original, line, file, parameters: None });
            }
        }
        out.into_iter()
    }
    pub fn deobfuscate_signature(&self, signature: &str) -> Option<DeobfuscatedSignature> {
        let rest = signature.strip_prefix('(')?;
        let (params, ret) = rest.rsplit_once(')')?;
        if params.contains(')') || ret.is_empty() {
            return None;
        }
        let mut parameters = vec![];
        let mut rest = params;
        while !rest.is_empty() {
            let (ty, r) = self.java_type(rest)?;
            parameters.push(ty);
            rest = r;
        }
        let (return_type, r) = self.java_type(ret)?;
        r.is_empty().then_some(DeobfuscatedSignature { parameters, return_type })
    }
    fn java_type<'a>(&self, s: &'a str) -> Option<(String, &'a str)> {
        let dims = s.bytes().take_while(|b| *b == b'[').count();
        let s = &s[dims..];
        let (ty, rest) = if let Some(r) = s.strip_prefix('L') {
            let (class, rest) = r.split_once(';')?;
            let dotted = class.replace('/', ".");
            (self.remap_class(&dotted).map(String::from).unwrap_or(dotted), rest)
        } else {
            let ty = match s.chars().next()? {
                'Z' => "boolean",
                'B' => "byte",
                'C' => "char",
                'S' => "short",
                'I' => "int",
                'J' => "long",
                'F' => "float",
                'D' => "double",
                'V' => "void",
                _ => return None,
            };
            (ty.to_string(), &s[1..])
        };
        Some((format!("{ty}{}", "[]".repeat(dims)), rest))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DeobfuscatedSignature {
    parameters: Vec<String>,
    return_type: String,
}

impl DeobfuscatedSignature {
    pub fn parameters_types(&self) -> impl Iterator<Item = &str> {
        self.parameters.iter().map(|s| s.as_str())
    }
    pub fn return_type(&self) -> &str {
        &self.return_type
    }
    pub fn format_signature(&self) -> String {
        let mut s = format!("({})", self.parameters.join(", "));
        if !self.return_type.is_empty() && self.return_type != "void" {
            s.push_str(": ");
            s.push_str(&self.return_type);
        }
        s
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StackFrame<'s> {
    class: &'s str,
    method: &'s str,
    line: usize,
    file: Option<&'s str>,
    parameters: Option<&'s str>,
}

impl<'s> StackFrame<'s> {
    pub fn new(class: &'s str, method: &'s str, line: usize) -> Self {
        Self { class, method, line, file: None, parameters: None }
    }
    pub fn with_file(class: &'s str, method: &'s str, line: usize, file: &'s str) -> Self {
        Self { class, method, line, file: Some(file), parameters: None }
    }
    pub fn with_parameters(class: &'s str, method: &'s str, parameters: &'s str) -> Self {
        Self { class, method, line: 0, file: None, parameters: Some(parameters) }
    }
    pub fn class(&self) -> &'s str {
        self.class
    }
    pub fn method(&self) -> &'s str {
        self.method
    }
    pub fn line(&self) -> usize {
        self.line
    }
    pub fn file(&self) -> Option<&'s str> {
        self.file
    }
    pub fn parameters(&self) -> Option<&'s str> {
        self.parameters
    }
}
