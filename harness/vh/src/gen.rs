//! Hostile and ordinary identifiers, names, layouts.
use crate::common::Rng;
use symbolic::common::{CodeId, DebugId, Uuid};
use symbolicator_sources::*;

pub const LAYOUTS: [DirectoryLayoutType; 7] = [
    DirectoryLayoutType::Native,
    DirectoryLayoutType::Symstore,
    DirectoryLayoutType::SymstoreIndex2,
    DirectoryLayoutType::Ssqp,
    DirectoryLayoutType::Debuginfod,
    DirectoryLayoutType::Unified,
    DirectoryLayoutType::SlashSymbols,
];
pub const CASINGS: [FilenameCasing; 3] = [
    FilenameCasing::Default,
    FilenameCasing::Uppercase,
    FilenameCasing::Lowercase,
];
pub const OBJECT_TYPES: [ObjectType; 6] = [
    ObjectType::Elf,
    ObjectType::Macho,
    ObjectType::Pe,
    ObjectType::Wasm,
    ObjectType::PeDotnet,
    ObjectType::Unknown,
];
pub const FILE_TYPES: [FileType; 15] = [
    FileType::Pe,
    FileType::Pdb,
    FileType::PortablePdb,
    FileType::MachDebug,
    FileType::MachCode,
    FileType::ElfDebug,
    FileType::ElfCode,
    FileType::WasmDebug,
    FileType::WasmCode,
    FileType::Breakpad,
    FileType::SourceBundle,
    FileType::UuidMap,
    FileType::BcSymbolMap,
    FileType::Il2cpp,
    FileType::Proguard,
];

const NAMES: &[&str] = &[
    "crash.pdb", "crash.exe", "crash.dll", "libc.so.6", "crash", "Foo.PDB", "Foo.Exe", "a.pdb", "x",
    "ab", "a.b", "name with spaces.dll", "wkernel32.pdb", "MyApp.App.dll", "libfoo.dll.pdb",
    "foo.exe.dll", "_.debug", "_.dwarf", "foo.debug", "foo.dwarf", "kernel32.dll.mui", "é.pdb",
    "Äpfel.dll", "日本語.so", "😀.exe", "ÏNDEX.PDB", "aé", "foo+bar.so", "foo%20bar.so", "foo bar.so",
    "foo?q=1.pdb", "foo#frag.pdb", "foo;p.pdb", "http:", "file:x", "C:", "~", "...", ".hidden", "-x",
    "a*b", "[x]", "%2e%2e", "%2F", "foo&bar", "CON", "foo.", ".pdb", ".exe", ".sym", "foo.sym", "İ.exe",
    "\u{212A}elvin.dll", "ﬀ.so", "ß.pdb",
];
const HOSTILE_NAMES: &[&str] = &[
    "", ".", "..", "/", "\\", "//", "/.", "/..", "\\..", "../", "..\\", "./", "a/..", "a/.", "a\\..",
    "C:\\", "C:\\..", "/..//", "../../../../etc/passwd", "..\\..\\secret", "/etc/shadow", "foo/\u{0}",
    "new\nline", "tab\tname", "\u{7f}", "\u{85}", "\u{202e}rtl", " ", "..  ", ". .",
];
const DIRS: &[&str] = &[
    "", "/", "/usr/lib/", "C:\\Windows\\System32\\", "c:/Program Files/", "\\\\server\\share\\", "./",
    "../", "/a/../b/", "build\\..\\x\\", "/Ünï/cödé/", "/private/var/containers/Bundle/", "\u{1}ctl/",
];

pub fn name(r: &mut Rng) -> String {
    match r.below(12) {
        0 | 1 => r.pick(HOSTILE_NAMES).to_string(),
        2 => {
            let n = *r.pick(&[1usize, 2, 3, 200, 254, 255, 256, 257, 600]);
            let c = *r.pick(&["a", "Z", "é", ".", "b."]);
            let mut s = c.repeat(n / c.len() + 1);
            while s.len() > n {
                s.pop();
            }
            s
        }
        3 => {
            // random printable soup
            let n = r.below(20);
            (0..n)
                .map(|_| char::from_u32(0x20 + r.below(0x5f) as u32).unwrap())
                .collect()
        }
        4 => {
            let n = r.below(12);
            (0..n)
                .map(|_| *r.pick(&['a', '.', '/', '\\', 'Z', '_', '%', '\u{0}', 'é', ':']))
                .collect()
        }
        5 | 6 => format!("{}{}", r.pick(STEMS), r.pick(EXTENSIONS)),
        _ => r.pick(NAMES).to_string(),
    }
}

const STEMS: &[&str] = &["crash", "ntfs", "My App", "Ünï", "lib", "Ж", "a.b", "_"];
const EXTENSIONS: &[&str] = &[
    ".pdb", ".PDB", ".Pdb", ".exe", ".EXE", ".dll", ".DLL", ".sys", ".ocx", ".drv", ".cpl", ".so", ".so.1", ".dylib", ".wasm",
    ".sym", ".debug", ".DEBUG", ".dwarf", ".dSYM", ".app", ".dbg", ".pd_", ".src.zip", ".zip", "", ".pdb.pdb", ".dll.exe",
];

pub fn file_path(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(3) {
        s.push_str(*r.pick(DIRS));
    }
    s.push_str(&name(r));
    if r.chance(1, 10) {
        s.push_str(*r.pick(&["/", "\\", "//"]));
    }
    s
}

pub fn code_id(r: &mut Rng) -> CodeId {
    let s = match r.below(10) {
        0 => String::new(),
        1 => {
            let n = 1 + r.below(9);
            r.hex(n)
        }
        2 => "5ab380779000".to_string(),
        3 => {
            let n = 8 + r.below(8);
            r.hex(n)
        }
        4 | 5 => r.hex(32),
        6 => r.hex(64),
        7 => {
            let n = r.below(130);
            r.hex(n)
        }
        _ => r.hex(40),
    };
    let s = if r.chance(1, 4) { s.to_uppercase() } else { s };
    CodeId::new(s)
}

pub fn debug_id(r: &mut Rng) -> DebugId {
    if r.chance(1, 20) {
        return DebugId::nil();
    }
    let b = r.bytes(16);
    let u = Uuid::from_slice(&b).unwrap();
    let age = match r.below(6) {
        0 | 1 => 0,
        2 => 1,
        3 => u32::MAX,
        4 => r.below(40) as u32,
        _ => r.next() as u32,
    };
    DebugId::from_parts(u, age)
}

pub fn object_id(r: &mut Rng) -> ObjectId {
    ObjectId {
        code_id: if r.chance(4, 5) { Some(code_id(r)) } else { None },
        code_file: if r.chance(5, 6) { Some(file_path(r)) } else { None },
        debug_id: if r.chance(5, 6) { Some(debug_id(r)) } else { None },
        debug_file: if r.chance(5, 6) { Some(file_path(r)) } else { None },
        debug_checksum: if r.chance(1, 2) { Some(r.hex(20)) } else { None },
        object_type: *r.pick(&OBJECT_TYPES),
    }
}

/// An identifier as real crash reports contain them.
pub fn plain_object_id(r: &mut Rng) -> ObjectId {
    let stem = r.pick(&["crash", "libFoo", "My App", "wkernel32", "a", "Ünïcode", "x.y"]).to_string();
    let ot = *r.pick(&OBJECT_TYPES);
    let dir = *r.pick(&["C:\\Windows\\", "/usr/lib/", "", "c:/x/"]);
    let (ce, de) = match ot {
        ObjectType::Pe | ObjectType::PeDotnet => (*r.pick(&[".exe", ".dll", ".EXE", ".sys"]), *r.pick(&[".pdb", ".pdb", ".PDB", ".sys", ".ocx", ".dll"])),
        ObjectType::Elf => (*r.pick(&[".so", "", ".so.6"]), *r.pick(&[".so", "", ".debug"])),
        ObjectType::Macho => ("", ""),
        _ => (".wasm", ".wasm"),
    };
    let uuid_bytes = r.bytes(16);
    let n = match ot {
        ObjectType::Pe | ObjectType::PeDotnet => 9 + r.below(8),
        ObjectType::Elf => *r.pick(&[40, 32, 16]),
        _ => 32,
    };
    ObjectId {
        code_id: Some(CodeId::new(r.hex(n))),
        code_file: Some(format!("{dir}{stem}{ce}")),
        debug_id: Some(DebugId::from_parts(
            Uuid::from_slice(&uuid_bytes).unwrap(),
            *r.pick(&[0, 0, 1, 2, 0xa, 0xff, u32::MAX]),
        )),
        debug_file: Some(format!("{dir}{stem}{de}")),
        debug_checksum: if r.chance(1, 2) { Some(r.hex(20)) } else { None },
        object_type: ot,
    }
}

pub fn describe(o: &ObjectId) -> serde_json::Value {
    serde_json::json!({
        "code_id": o.code_id.as_ref().map(|c| c.as_str().to_string()),
        "code_file": o.code_file,
        "debug_id": o.debug_id.map(|d| d.to_string()),
        "debug_file": o.debug_file,
        "object_type": o.object_type.to_string(),
        "debug_checksum": o.debug_checksum,
    })
}
