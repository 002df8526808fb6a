//! Generators of debug information files whose identity is known by construction.
use std::io::{Cursor, Write};

use symbolic::common::{CodeId, DebugId, Uuid};
use symbolic::debuginfo::sourcebundle::{SourceBundleWriter, SourceFileInfo, SourceFileType};
use symbolic::debuginfo::{Archive, FileFormat, ObjectKind};
use symbolicator_sources::{FileType, ObjectType};

use crate::common::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Executable,
    Debug,
    Sources,
    /// recognised, but nothing a symbol server stores (e.g. relocatable objects)
    Ignored,
}

impl Kind {
    pub fn file(self) -> &'static str {
        match self {
            Kind::Executable => "executable",
            Kind::Debug => "debuginfo",
            Kind::Sources => "sourcebundle",
            Kind::Ignored => "-",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub bytes: Vec<u8>,
    pub fmt: &'static str,
    pub kind: Kind,
    /// the identifier under which the unified layout stores it
    pub uid: String,
    pub arch: &'static str,
    /// what a crash report says about the module
    pub code_id: Option<CodeId>,
    pub debug_id: Option<DebugId>,
    pub object_type: ObjectType,
    /// the file type a client asks for to get this file (none: not offered through lookups)
    pub lookup: Option<FileType>,
}

impl Obj {
    pub fn rel_path(&self) -> String {
        format!("{}/{}/{}", &self.uid[..2], &self.uid[2..], self.kind.file())
    }
    pub fn dir(&self) -> String {
        format!("{}/{}", &self.uid[..2], &self.uid[2..])
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn pad(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => r.below(64 * 1024),
        2 => 300_000 + r.below(300_000),
        _ => r.below(2000),
    };
    let mut v = if r.chance(1, 2) { vec![r.next() as u8; n] } else { r.bytes(n) };
    // no padding ever looks like trailing structure
    if let Some(l) = v.last_mut() {
        *l = 0x5a;
    }
    v
}

struct W(Vec<u8>);
impl W {
    fn u8(&mut self, v: u8) -> &mut Self {
        self.0.push(v);
        self
    }
    fn u16(&mut self, v: u16) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    fn u32(&mut self, v: u32) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    fn u64(&mut self, v: u64) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    fn b(&mut self, v: &[u8]) -> &mut Self {
        self.0.extend(v);
        self
    }
    fn at(&mut self, off: usize) -> &mut Self {
        assert!(self.0.len() <= off);
        self.0.resize(off, 0);
        self
    }
}

pub fn elf(r: &mut Rng, id: &[u8], kind: Kind) -> Obj {
    let arm = r.chance(1, 3);
    let exec = r.chance(1, 2);
    // (e_type, interp, text present)
    let (e_type, interp, text) = match kind {
        Kind::Executable if exec => (2u16, true, true),
        Kind::Executable => (3, r.chance(1, 2), true),
        Kind::Debug if exec => (2, false, r.chance(1, 2)),
        Kind::Debug => (3, false, false),
        Kind::Ignored => (if exec { 1 } else { 4 }, false, true),
        Kind::Sources => unreachable!(),
    };
    let note_in_ph = r.chance(2, 3);
    let mut note = W(vec![]);
    note.u32(4).u32(id.len() as u32).u32(3).b(b"GNU\0").b(id);
    while note.0.len() % 4 != 0 {
        note.u8(0);
    }
    let note = note.0;
    let interp_s = b"/lib64/ld-linux-x86-64.so.2\0";
    let text_b = r.bytes(64);
    let tail = pad(r);
    let nph = note_in_ph as usize + interp as usize;
    // libraries may carry their debug info themselves
    let own_debug = kind == Kind::Executable && r.chance(1, 3);
    let names: &[u8] = if own_debug {
        b"\0.text\0.note.gnu.build-id\0.shstrtab\0.debug_info\0"
    } else {
        b"\0.text\0.note.gnu.build-id\0.shstrtab\0.debug_x\0"
    };
    let mut off = 64 + 56 * nph;
    let interp_off = off;
    off += 32;
    let note_off = off;
    off += note.len();
    let text_off = off;
    off += text_b.len();
    let tail_off = off;
    off += tail.len();
    let str_off = off;
    off += names.len();
    let sh_off = (off + 7) & !7;
    let mut w = W(vec![]);
    w.b(&[0x7f, b'E', b'L', b'F', 2, 1, 1, 0]).at(16);
    w.u16(e_type).u16(if arm { 183 } else { 62 }).u32(1).u64(0x1000).u64(if nph > 0 { 64 } else { 0 });
    w.u64(sh_off as u64).u32(0).u16(64).u16(56).u16(nph as u16).u16(64).u16(5).u16(3);
    let mut ph = |ty: u32, off: usize, len: usize| {
        w.u32(ty).u32(4).u64(off as u64).u64(off as u64).u64(off as u64).u64(len as u64).u64(len as u64).u64(4);
    };
    if interp {
        ph(3, interp_off, interp_s.len());
    }
    if note_in_ph {
        ph(4, note_off, note.len());
    }
    w.at(interp_off).b(interp_s).at(note_off).b(&note).at(text_off).b(&text_b).at(tail_off).b(&tail).at(str_off).b(names);
    w.at(sh_off);
    let mut sh = |name: u32, ty: u32, flags: u64, off: usize, len: usize| {
        w.u32(name).u32(ty).u64(flags).u64(off as u64).u64(off as u64).u64(len as u64).u32(0).u32(0).u64(4).u64(0);
    };
    sh(0, 0, 0, 0, 0);
    sh(1, if text { 1 } else { 8 }, 6, text_off, text_b.len());
    sh(7, 7, 2, note_off, note.len());
    sh(26, 3, 0, str_off, names.len());
    sh(36, 1, 0, tail_off, tail.len());
    let uid = hex(id);
    let mut u16b = [0u8; 16];
    let n = id.len().min(16);
    u16b[..n].copy_from_slice(&id[..n]);
    u16b[0..4].reverse();
    u16b[4..6].reverse();
    u16b[6..8].reverse();
    Obj {
        bytes: w.0,
        fmt: "elf",
        kind,
        code_id: Some(CodeId::new(uid.clone())),
        debug_id: Some(DebugId::from_uuid(Uuid::from_bytes(u16b))),
        uid,
        arch: if arm { "arm64" } else { "x86_64" },
        object_type: ObjectType::Elf,
        lookup: Some(if kind == Kind::Debug { FileType::ElfDebug } else { FileType::ElfCode }),
    }
}

pub fn macho(r: &mut Rng, uuid: [u8; 16], kind: Kind, arch: Option<usize>) -> Obj {
    let archs = [(0x0100_0007u32, 3u32, "x86_64"), (0x0100_000c, 0, "arm64"), (0x0100_000c, 2, "arm64e")];
    let (cpu, sub, arch) = archs[arch.unwrap_or_else(|| r.below(3))];
    let ft: u32 = match kind {
        Kind::Executable => *r.pick(&[2, 6, 8]),
        Kind::Debug => 10,
        Kind::Ignored => *r.pick(&[1, 4]),
        Kind::Sources => unreachable!(),
    };
    let mut w = W(vec![]);
    w.u32(0xfeed_facf).u32(cpu).u32(sub).u32(ft).u32(1).u32(24).u32(0).u32(0);
    w.u32(0x1b).u32(24).b(&uuid);
    w.b(&pad(r));
    let uid = hex(&uuid);
    Obj {
        bytes: w.0,
        fmt: "macho",
        kind,
        code_id: Some(CodeId::new(uid.clone())),
        debug_id: Some(DebugId::from_uuid(Uuid::from_bytes(uuid))),
        uid,
        arch,
        object_type: ObjectType::Macho,
        lookup: Some(if kind == Kind::Debug { FileType::MachDebug } else { FileType::MachCode }),
    }
}

/// A universal binary of the given slices.
pub fn fat(r: &mut Rng, slices: &[Obj]) -> Vec<u8> {
    let mut head = vec![];
    head.extend(0xcafe_babeu32.to_be_bytes());
    head.extend((slices.len() as u32).to_be_bytes());
    let align = *r.pick(&[4usize, 12]);
    let mut off = (8 + 20 * slices.len()).next_multiple_of(1 << align);
    let mut body = vec![];
    for s in slices {
        for k in [4..8, 8..12] {
            let v: [u8; 4] = s.bytes[k].try_into().unwrap();
            head.extend(u32::from_le_bytes(v).to_be_bytes());
        }
        for v in [off, s.bytes.len(), align] {
            head.extend((v as u32).to_be_bytes());
        }
        body.push((off, &s.bytes));
        off = (off + s.bytes.len()).next_multiple_of(1 << align);
    }
    for (off, b) in body {
        head.resize(off, 0);
        head.extend(b);
    }
    head
}

fn guid(b: [u8; 16]) -> Uuid {
    // the on-disk form is mixed endian
    let mut x = b;
    x[0..4].reverse();
    x[4..6].reverse();
    x[6..8].reverse();
    Uuid::from_bytes(x)
}

pub fn pe(r: &mut Rng, id: [u8; 16], age: u32) -> Obj {
    let dll = r.chance(1, 2);
    let mut w = W(vec![]);
    w.b(b"MZ").at(0x3c).u32(0x80).at(0x80);
    let ts = r.next() as u32;
    w.b(b"PE\0\0").u16(0x8664).u16(1).u32(ts).u32(0).u32(0).u16(240).u16(if dll { 0x2022 } else { 0x22 });
    let soi = 0x3000u32;
    w.u16(0x20b).u8(14).u8(0).u32(0x200).u32(0).u32(0).u32(0x1000).u32(0x1000);
    w.u64(0x1_4000_0000).u32(0x1000).u32(0x200).u16(6).u16(0).u16(0).u16(0).u16(6).u16(0).u32(0).u32(soi).u32(0x200).u32(0);
    w.u16(3).u16(0).u64(0x10_0000).u64(0x1000).u64(0x10_0000).u64(0x1000).u32(0).u32(16);
    for i in 0..16 {
        if i == 6 {
            w.u32(0x1000).u32(28);
        } else {
            w.u32(0).u32(0);
        }
    }
    w.b(b".text\0\0\0").u32(0x1000).u32(0x1000).u32(0x200).u32(0x200).u32(0).u32(0).u32(0).u32(0x6000_0020);
    w.at(0x200);
    // debug directory at rva 0x1000
    let name = b"C:\\build\\x.pdb\0";
    w.u32(0).u32(ts).u16(0).u16(0).u32(2).u32(24 + name.len() as u32).u32(0x1040).u32(0x240);
    w.at(0x240).b(b"RSDS").b(&id).u32(age).b(name);
    w.at(0x400).b(&pad(r));
    let debug_id = DebugId::from_parts(guid(id), age);
    Obj {
        bytes: w.0,
        fmt: "pe",
        kind: Kind::Executable,
        uid: debug_id.breakpad().to_string().to_lowercase(),
        arch: "x86_64",
        code_id: Some(CodeId::new(format!("{ts:08x}{soi:x}"))),
        debug_id: Some(debug_id),
        object_type: ObjectType::Pe,
        lookup: Some(FileType::Pe),
    }
}

pub fn pdb(r: &mut Rng, id: [u8; 16], age: u32) -> Obj {
    let ps = 512usize;
    let mut info = W(vec![]);
    info.u32(20000404).u32(r.next() as u32).u32(1).b(&id).u32(0).u32(0).u32(0).u32(0).u32(0).u32(0);
    let mut dbi = W(vec![]);
    dbi.u32(u32::MAX).u32(19990903).u32(age).u16(0xffff).u16(0).u16(0xffff).u16(0).u16(4).u16(0);
    dbi.u32(0).u32(0).u32(0).u32(0).u32(0).u32(0).u32(0).u32(0).u16(0).u16(0x8664).u32(0);
    let extra = {
        let mut p = pad(r);
        p.truncate(40_000);
        p
    };
    let streams: Vec<Vec<u8>> = vec![vec![], info.0, vec![], dbi.0, vec![0u8; 4], extra];
    let mut page = 5u32;
    let mut dir = W(vec![]);
    dir.u32(streams.len() as u32);
    for s in &streams {
        dir.u32(s.len() as u32);
    }
    let mut pages = vec![];
    for s in &streams {
        for c in s.chunks(ps) {
            dir.u32(page);
            page += 1;
            pages.push(c.to_vec());
        }
    }
    assert!(dir.0.len() <= ps, "directory fits its page");
    let mut w = W(vec![]);
    w.b(b"Microsoft C/C++ MSF 7.00\r\n\x1aDS\0\0\0").u32(ps as u32).u32(1).u32(page).u32(dir.0.len() as u32).u32(0).u32(3);
    w.at(3 * ps).u32(4);
    w.at(4 * ps).b(&dir.0);
    for (i, p) in pages.iter().enumerate() {
        w.at((5 + i) * ps).b(p);
    }
    w.at(page as usize * ps);
    let debug_id = DebugId::from_parts(guid(id), age);
    Obj {
        bytes: w.0,
        fmt: "pdb",
        kind: Kind::Debug,
        uid: debug_id.breakpad().to_string().to_lowercase(),
        arch: "x86_64",
        code_id: None,
        debug_id: Some(debug_id),
        object_type: ObjectType::Pe,
        lookup: Some(FileType::Pdb),
    }
}

pub fn ppdb(r: &mut Rng, id: [u8; 16]) -> Obj {
    let (base, known): (&[u8], &str) = *r.pick(&[
        (&include_bytes!("../fixtures/ppdb1.pdb")[..], "37E9E8A61A8E404EB93C6902E277FF55"),
        (&include_bytes!("../fixtures/ppdb2.pdb")[..], "0C1033F78632492E91C6C314B72E1920"),
    ]);
    let mut k: Vec<u8> = (0..16).map(|i| u8::from_str_radix(&known[2 * i..2 * i + 2], 16).unwrap()).collect();
    k[0..4].reverse();
    k[4..6].reverse();
    k[6..8].reverse();
    let mut bytes = base.to_vec();
    let pos = bytes.windows(16).position(|w| w == k).expect("guid in fixture");
    bytes[pos..pos + 16].copy_from_slice(&id);
    let age = u32::from_le_bytes(bytes[pos + 16..pos + 20].try_into().unwrap());
    let debug_id = DebugId::from_parts(guid(id), age);
    Obj {
        bytes,
        fmt: "portablepdb",
        kind: Kind::Debug,
        uid: debug_id.breakpad().to_string().to_lowercase(),
        arch: "unknown",
        code_id: None,
        debug_id: Some(debug_id),
        object_type: ObjectType::PeDotnet,
        lookup: Some(FileType::PortablePdb),
    }
}

pub fn leb(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}

pub fn wasm_section(id: u8, payload: &[u8]) -> Vec<u8> {
    let mut o = vec![id];
    o.extend(leb(payload.len() as u64));
    o.extend(payload);
    o
}

pub fn wasm_custom(name: &str, payload: &[u8]) -> Vec<u8> {
    let mut p = leb(name.len() as u64);
    p.extend(name.as_bytes());
    p.extend(payload);
    wasm_section(0, &p)
}

pub fn wasm(r: &mut Rng, id: &[u8], kind: Kind) -> Obj {
    let mut b = b"\0asm\x01\0\0\0".to_vec();
    b.extend(wasm_section(1, &[1, 0x60, 0, 0]));
    if kind == Kind::Executable {
        b.extend(wasm_section(3, &[1, 0]));
        b.extend(wasm_section(10, &[1, 2, 0, 0x0b]));
    }
    b.extend(wasm_custom("producers", &[0]));
    let p = pad(r);
    b.extend(wasm_custom("zz_padding", &p));
    let mut bid = leb(id.len() as u64);
    bid.extend(id);
    b.extend(wasm_custom("build_id", &bid));
    let uid = hex(&bid);
    Obj {
        bytes: b,
        fmt: "wasm",
        kind,
        code_id: Some(CodeId::new(uid.clone())),
        debug_id: bid.get(..16).map(|b| DebugId::from_uuid(Uuid::from_slice(b).unwrap())),
        uid,
        arch: "wasm32",
        object_type: ObjectType::Wasm,
        lookup: Some(if kind == Kind::Debug { FileType::WasmDebug } else { FileType::WasmCode }),
    }
}

/// Breakpad text; `files` become its source file records.
pub fn breakpad(r: &mut Rng, id: [u8; 16], age: u32, code: Option<&[u8]>, files: &[String]) -> Obj {
    let debug_id = DebugId::from_parts(Uuid::from_bytes(id), age);
    let mut s = format!("MODULE Linux x86_64 {} app{}\n", debug_id.breakpad(), r.below(100));
    if let Some(c) = code {
        s.push_str(&format!("INFO CODE_ID {}\n", hex(c).to_uppercase()));
    }
    for (i, f) in files.iter().enumerate() {
        s.push_str(&format!("FILE {i} {f}\n"));
    }
    for i in 0..1 + r.below(20) {
        s.push_str(&format!("FUNC {:x} 10 0 f{i}_{}\n", 0x1000 + i * 16, r.hex(8)));
        if !files.is_empty() {
            s.push_str(&format!("{:x} 10 {} {}\n", 0x1000 + i * 16, 1 + r.below(50), r.below(files.len())));
        }
    }
    s.push_str("PUBLIC 9000 0 end\n");
    Obj {
        bytes: s.into_bytes(),
        fmt: "breakpad",
        kind: Kind::Debug,
        uid: code.map(hex).unwrap_or_else(|| debug_id.breakpad().to_string().to_lowercase()),
        arch: "x86_64",
        code_id: code.map(|c| CodeId::from_binary(c)),
        debug_id: Some(debug_id),
        object_type: ObjectType::Elf,
        lookup: None,
    }
}

pub fn sourcebundle(r: &mut Rng, of: &Obj) -> Obj {
    let mut out = vec![];
    let mut w = SourceBundleWriter::start(Cursor::new(&mut out)).unwrap();
    w.set_attribute("arch", of.arch);
    w.set_attribute("debug_id", of.debug_id.unwrap().to_string());
    w.set_attribute("object_name", "x");
    let by_code = of.object_type != ObjectType::Pe && of.object_type != ObjectType::PeDotnet;
    if let Some(c) = of.code_id.as_ref().filter(|_| by_code) {
        w.set_attribute("code_id", c.to_string());
    }
    for i in 0..1 + r.below(4) {
        let mut info = SourceFileInfo::new();
        info.set_ty(SourceFileType::Source);
        info.set_path(format!("/src/pre{i}.c"));
        let body = format!("int a{};\n", r.hex(12)).into_bytes();
        w.add_file(format!("files/src/pre{i}.c"), body.as_slice(), info).unwrap();
    }
    w.finish().unwrap();
    Obj {
        bytes: out,
        fmt: "sourcebundle",
        kind: Kind::Sources,
        uid: of.uid.clone(),
        arch: of.arch,
        code_id: of.code_id.clone(),
        debug_id: of.debug_id,
        object_type: of.object_type,
        lookup: Some(FileType::SourceBundle),
    }
}

pub fn id16(r: &mut Rng) -> [u8; 16] {
    r.bytes(16).try_into().unwrap()
}

/// A random object with a fresh identity.
pub fn any(r: &mut Rng) -> Obj {
    let kind = if r.chance(1, 2) { Kind::Executable } else { Kind::Debug };
    let o = match r.below(10) {
        0..=2 => {
            let n = *r.pick(&[20usize, 20, 20, 16, 8, 32, 64, 4, 9]);
            let id = r.bytes(n);
            elf(r, &id, kind)
        }
        3 | 4 => {
            let id = id16(r);
            macho(r, id, kind, None)
        }
        5 => {
            let (id, age) = (id16(r), r.below(40) as u32);
            pe(r, id, age)
        }
        6 => {
            let (id, age) = (id16(r), 1 + r.below(40) as u32);
            pdb(r, id, age)
        }
        7 => {
            let id = id16(r);
            if r.chance(1, 3) {
                ppdb(r, id)
            } else {
                wasm(r, &id, kind)
            }
        }
        8 => {
            let id = id16(r);
            wasm(r, &id, kind)
        }
        _ => {
            let id = id16(r);
            let code = r.bytes(20);
            let code = r.chance(1, 2).then_some(&code[..]);
            let age = r.below(3) as u32;
            breakpad(r, id, age, code, &[])
        }
    };
    o
}

/// The generator's knowledge is confirmed against an independent reader once per object.
pub fn self_check(o: &Obj) {
    let a = Archive::parse(&o.bytes).unwrap_or_else(|e| panic!("generated {} does not parse: {e}", o.fmt));
    let objs: Vec<_> = a.objects().collect::<Result<_, _>>().unwrap_or_else(|e| panic!("generated {}: {e}", o.fmt));
    assert_eq!(objs.len(), 1, "{}", o.fmt);
    let x = &objs[0];
    let kind = match x.kind() {
        ObjectKind::Executable | ObjectKind::Library => Kind::Executable,
        ObjectKind::Debug => Kind::Debug,
        ObjectKind::Sources => Kind::Sources,
        _ => Kind::Ignored,
    };
    assert_eq!(kind, o.kind, "{} kind {:?}", o.fmt, x.kind());
    assert_eq!(x.data(), &o.bytes[..], "{} data", o.fmt);
    let uid = match x.code_id() {
        Some(c) if x.file_format() != FileFormat::Pe => c.to_string(),
        _ => x.debug_id().breakpad().to_string().to_lowercase(),
    };
    assert_eq!(uid, o.uid, "{} identity", o.fmt);
    assert_eq!(x.arch().to_string(), o.arch, "{} arch", o.fmt);
    if let Some(d) = o.debug_id {
        assert_eq!(x.debug_id(), d, "{} debug id", o.fmt);
    }
}

/// Files a sorter must leave alone.
pub fn noise(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => vec![],
        1 => b"MZ".to_vec(),
        2 => b"\x7fELF".to_vec(),
        3 => b"hello world, this is a readme\n".to_vec(),
        4 => b"{\"a\": 1, \"padding\": \"xxxxxxxxxxxx\"}".to_vec(),
        5 => b"\xca\xfe\xba\xbe\0\0\0\x34 java class file here".to_vec(),
        6 => b"\x89PNG\r\n\x1a\n....................".to_vec(),
        _ => {
            let n = 16 + r.below(400);
            let mut v = r.bytes(n);
            v[0] = 0xff;
            v
        }
    }
}

pub fn zip(r: &mut Rng, members: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(Cursor::new(vec![]));
    for (name, data) in members {
        let m = *r.pick(crate::ZIP_METHODS);
        let opt = zip::write::SimpleFileOptions::default().compression_method(m);
        if name.ends_with('/') {
            z.add_directory(name.trim_end_matches('/'), opt).unwrap();
        } else {
            z.start_file(name.as_str(), opt).unwrap();
            z.write_all(data).unwrap();
        }
    }
    z.finish().unwrap().into_inner()
}
