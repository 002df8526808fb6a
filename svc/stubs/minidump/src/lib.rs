//! A stand-in for `minidump`: the container is the real one, what the system, the modules and the
//! threads are is described by one stream of JSON.
use debugid::{CodeId, DebugId};
use serde_json::Value;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt;
use std::marker::PhantomData;
use std::ops::Deref;

/// The stream that holds the description.
pub const DESCRIPTION: u32 = 0x4a53_0001;

#[derive(Debug, Clone, PartialEq)]
pub enum Error {
    FileNotFound,
    MissingHeader,
    HeaderMismatch,
    VersionMismatch,
    MissingDirectory,
    StreamReadFailure,
    StreamNotFound,
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

pub struct Minidump<'a, T: Deref<Target = [u8]> + 'a> {
    data: T,
    streams: BTreeMap<u32, (usize, usize)>,
    _a: PhantomData<&'a ()>,
}

fn u32_at(d: &[u8], at: usize) -> Option<u32> {
    Some(u32::from_le_bytes(d.get(at..at.checked_add(4)?)?.try_into().unwrap()))
}

impl<'a, T: Deref<Target = [u8]> + 'a> Minidump<'a, T> {
    pub fn read(data: T) -> Result<Self, Error> {
        if data.len() < 32 {
            return Err(Error::MissingHeader);
        }
        if &data[..4] != b"MDMP" {
            return Err(Error::HeaderMismatch);
        }
        if u32_at(&data, 4).unwrap() & 0xffff != 0xa793 {
            return Err(Error::VersionMismatch);
        }
        let n = u32_at(&data, 8).unwrap() as usize;
        let dir = u32_at(&data, 12).unwrap() as usize;
        let mut streams = BTreeMap::new();
        for i in 0..n {
            let at = dir + i * 12;
            let e = (u32_at(&data, at), u32_at(&data, at + 4), u32_at(&data, at + 8));
            let (Some(ty), Some(size), Some(rva)) = e else { return Err(Error::MissingDirectory) };
            streams.insert(ty, (rva as usize, size as usize));
        }
        Ok(Self { data, streams, _a: PhantomData })
    }

    pub fn get_raw_stream(&self, ty: u32) -> Result<&[u8], Error> {
        let (at, len) = *self.streams.get(&ty).ok_or(Error::StreamNotFound)?;
        self.data.get(at..at + len).ok_or(Error::StreamReadFailure)
    }

    pub fn get_stream<S: MinidumpStream>(&self) -> Result<S, Error> {
        let v = serde_json::from_slice(self.get_raw_stream(DESCRIPTION)?).map_err(|_| Error::StreamReadFailure)?;
        S::read(&v).ok_or(Error::StreamNotFound)
    }
}

pub trait MinidumpStream: Sized {
    fn read(v: &Value) -> Option<Self>;
}

impl MinidumpStream for Value {
    fn read(v: &Value) -> Option<Self> {
        Some(v.clone())
    }
}

pub mod system_info {
    use std::fmt;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Os {
        Windows,
        MacOs,
        Ios,
        Linux,
        Solaris,
        Android,
        Ps3,
        NaCl,
        Unknown(u32),
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Cpu {
        X86,
        X86_64,
        Ppc,
        Ppc64,
        Sparc,
        Arm,
        Arm64,
        Mips,
        Mips64,
        Unknown(u16),
    }

    impl fmt::Display for Cpu {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
}

use system_info::{Cpu, Os};

#[derive(Clone, Debug)]
pub struct MinidumpSystemInfo {
    pub os: Os,
    pub cpu: Cpu,
    pub os_version: Option<String>,
    pub os_build: Option<String>,
}

impl MinidumpStream for MinidumpSystemInfo {
    fn read(v: &Value) -> Option<Self> {
        let text = |k: &str| v[k].as_str().map(String::from);
        Some(Self {
            os: match v["os"].as_str()? {
                "windows" => Os::Windows,
                "macos" => Os::MacOs,
                "ios" => Os::Ios,
                "linux" => Os::Linux,
                "solaris" => Os::Solaris,
                "android" => Os::Android,
                "ps3" => Os::Ps3,
                "nacl" => Os::NaCl,
                _ => Os::Unknown(77),
            },
            cpu: match v["cpu"].as_str()? {
                "x86" => Cpu::X86,
                "amd64" => Cpu::X86_64,
                "ppc" => Cpu::Ppc,
                "ppc64" => Cpu::Ppc64,
                "sparc" => Cpu::Sparc,
                "arm" => Cpu::Arm,
                "arm64" => Cpu::Arm64,
                "mips" => Cpu::Mips,
                "mips64" => Cpu::Mips64,
                _ => Cpu::Unknown(77),
            },
            os_version: text("os_version"),
            os_build: text("os_build"),
        })
    }
}

pub trait Module {
    fn base_address(&self) -> u64;
    fn size(&self) -> u64;
    fn code_file(&self) -> Cow<'_, str>;
    fn code_identifier(&self) -> Option<CodeId>;
    fn debug_file(&self) -> Option<Cow<'_, str>>;
    fn debug_identifier(&self) -> Option<DebugId>;
}

#[derive(Clone, Debug)]
pub struct MinidumpModule {
    base: u64,
    size: u64,
    code_file: String,
    code_id: Option<CodeId>,
    debug_file: Option<String>,
    debug_id: Option<DebugId>,
}

impl Module for MinidumpModule {
    fn base_address(&self) -> u64 {
        self.base
    }
    fn size(&self) -> u64 {
        self.size
    }
    fn code_file(&self) -> Cow<'_, str> {
        (&self.code_file).into()
    }
    fn code_identifier(&self) -> Option<CodeId> {
        self.code_id.clone()
    }
    fn debug_file(&self) -> Option<Cow<'_, str>> {
        self.debug_file.as_ref().map(Into::into)
    }
    fn debug_identifier(&self) -> Option<DebugId> {
        self.debug_id
    }
}

#[derive(Clone, Debug, Default)]
pub struct MinidumpModuleList(Vec<MinidumpModule>);

impl MinidumpModuleList {
    pub fn by_addr(&self) -> impl DoubleEndedIterator<Item = &MinidumpModule> {
        self.0.iter()
    }
    pub fn module_at_address(&self, addr: u64) -> Option<&MinidumpModule> {
        self.0.iter().find(|m| m.base <= addr && addr - m.base < m.size)
    }
}

impl MinidumpStream for MinidumpModuleList {
    fn read(v: &Value) -> Option<Self> {
        let mut all: Vec<MinidumpModule> = v["modules"]
            .as_array()?
            .iter()
            .map(|m| MinidumpModule {
                base: m["base"].as_u64().unwrap_or(0),
                size: m["size"].as_u64().unwrap_or(0),
                code_file: m["code_file"].as_str().unwrap_or("").into(),
                code_id: m["code_id"].as_str().map(|s| CodeId::new(s.into())),
                debug_file: m["debug_file"].as_str().map(Into::into),
                debug_id: m["debug_id"].as_str().and_then(|s| s.parse().ok()),
            })
            .collect();
        all.sort_by_key(|m| m.base);
        Some(Self(all))
    }
}

#[derive(Clone, Debug)]
pub struct MinidumpContext(pub Vec<(&'static str, u64)>);

impl MinidumpContext {
    pub fn valid_registers(&self) -> impl Iterator<Item = (&'static str, u64)> + '_ {
        self.0.iter().copied()
    }
}
