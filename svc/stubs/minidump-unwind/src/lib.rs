//! A stand-in for `minidump-unwind`: frames, the provider of symbols, and CFI files whose
//! `STACK CFI INIT` records say which instructions they know.
use minidump::{MinidumpContext, MinidumpModule, Module};
use std::fmt;
use std::future::Future;
use std::path::PathBuf;
use std::pin::Pin;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FrameTrust {
    None,
    Scan,
    CfiScan,
    FramePointer,
    CallFrameInfo,
    PreWalked,
    Context,
}

#[derive(Debug)]
pub struct FillSymbolError {}

#[derive(Debug)]
pub enum FileError {
    NotFound,
}

#[derive(Debug, Clone, Copy)]
pub enum FileKind {
    BreakpadSym,
    Binary,
    ExtraDebugInfo,
}

#[derive(Debug)]
pub struct SymbolError(&'static str);

impl fmt::Display for SymbolError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for SymbolError {}

pub trait FrameSymbolizer {
    fn get_instruction(&self) -> u64;
    fn set_function(&mut self, name: &str, base: u64, parameter_size: u32);
    fn set_source_file(&mut self, file: &str, line: u32, base: u64);
}

pub trait FrameWalker {
    fn get_instruction(&self) -> u64;
    fn set_ra(&mut self, val: u64) -> Option<()>;
}

type Boxed<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;

pub trait SymbolProvider {
    fn fill_symbol<'life0, 'life1, 'life2, 'async_trait>(
        &'life0 self,
        module: &'life1 (dyn Module + Sync),
        frame: &'life2 mut (dyn FrameSymbolizer + Send),
    ) -> Boxed<'async_trait, Result<(), FillSymbolError>>
    where
        'life0: 'async_trait,
        'life1: 'async_trait,
        'life2: 'async_trait,
        Self: 'async_trait;

    fn walk_frame<'life0, 'life1, 'life2, 'async_trait>(
        &'life0 self,
        module: &'life1 (dyn Module + Sync),
        walker: &'life2 mut (dyn FrameWalker + Send),
    ) -> Boxed<'async_trait, Option<()>>
    where
        'life0: 'async_trait,
        'life1: 'async_trait,
        'life2: 'async_trait,
        Self: 'async_trait;

    fn get_file_path<'life0, 'life1, 'async_trait>(&'life0 self, module: &'life1 (dyn Module + Sync), kind: FileKind) -> Boxed<'async_trait, Result<PathBuf, FileError>>
    where
        'life0: 'async_trait,
        'life1: 'async_trait,
        Self: 'async_trait;
}

/// The ranges of instructions with CFI.
#[derive(Debug, Default)]
pub struct CfiRanges(Vec<(u64, u64)>);

impl CfiRanges {
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn get(&self, at: u64) -> Option<&(u64, u64)> {
        self.0.iter().find(|(s, e)| *s <= at && at < *e)
    }
}

#[derive(Debug, Default)]
pub struct SymbolFile {
    pub cfi_stack_info: CfiRanges,
}

impl SymbolFile {
    pub fn from_bytes(bytes: &[u8]) -> Result<Self, SymbolError> {
        let text = std::str::from_utf8(bytes).map_err(|_| SymbolError("not text"))?;
        if !text.starts_with("MODULE ") {
            return Err(SymbolError("no module record"));
        }
        let mut ranges = vec![];
        for l in text.lines() {
            if let Some(rest) = l.strip_prefix("STACK CFI INIT ") {
                let mut it = rest.split(' ').map(|h| u64::from_str_radix(h, 16));
                if let (Some(Ok(a)), Some(Ok(n))) = (it.next(), it.next()) {
                    ranges.push((a, a + n));
                }
            }
        }
        Ok(Self { cfi_stack_info: CfiRanges(ranges) })
    }

    pub fn walk_frame(&self, module: &dyn Module, walker: &mut dyn FrameWalker) -> Option<()> {
        let at = walker.get_instruction().checked_sub(module.base_address())?;
        self.cfi_stack_info.get(at).map(|_| ())
    }
}

#[derive(Clone, Debug)]
pub struct StackFrame {
    pub instruction: u64,
    pub resume_address: u64,
    pub module: Option<MinidumpModule>,
    pub trust: FrameTrust,
    pub context: MinidumpContext,
}

#[derive(Clone, Debug)]
pub struct CallStack {
    pub frames: Vec<StackFrame>,
    pub thread_id: u32,
    pub thread_name: Option<String>,
}
