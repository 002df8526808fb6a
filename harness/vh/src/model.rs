//! Reference model of docs/advanced/symbol-server-compatibility.md, written from the document.
//! Every function returns the set of acceptable answers (several where the document leaves
//! the answer open), each answer being the ordered list of locations, lowest priority first.
use symbolicator_sources::*;

/// File name component of a path in Windows or Unix notation.
pub fn basename(path: &str) -> Option<String> {
    let seps = ['/', '\\'];
    let t = path.trim_end_matches(seps);
    let b = match t.rfind(seps) {
        Some(i) => &t[i + 1..],
        None => t,
    };
    if b.is_empty() || b == "." || b == ".." || b.len() > 255 || b.chars().any(|c| c.is_control()) {
        None
    } else {
        Some(b.to_string())
    }
}

struct M {
    code_id: Option<String>,
    uuid: Option<String>, // 32 lowercase hex digits of the debug id
    age: Option<u32>,
    code: Option<String>,
    debug: Option<String>,
    ty: ObjectType,
}

impl M {
    fn new(o: &ObjectId) -> M {
        M {
            code_id: o.code_id.as_ref().map(|c| c.as_str().to_string()),
            uuid: o.debug_id.map(|d| d.uuid().to_string().replace('-', "").to_lowercase()),
            age: o.debug_id.map(|d| d.appendix()),
            code: o.code_file.as_deref().and_then(basename),
            debug: o.debug_file.as_deref().and_then(basename),
            ty: o.object_type,
        }
    }
    fn gdb(&self) -> Option<String> {
        let c = self.code_id.as_ref()?;
        if c.len() < 2 {
            return None;
        }
        let (a, b) = c.split_at(2);
        Some(format!("{a}/{b}"))
    }
    fn mach_uuid(&self) -> Option<String> {
        match &self.code_id {
            Some(c) if c.len() == 32 => Some(c.clone()),
            Some(_) => None,
            None => self.uuid.clone(),
        }
    }
    fn lldb(&self) -> Option<String> {
        let u = self.mach_uuid()?.to_uppercase();
        Some(format!("{}/{}/{}/{}/{}/{}", &u[0..4], &u[4..8], &u[8..12], &u[12..16], &u[16..20], &u[20..]))
    }
    fn pdb(&self, ssqp: bool) -> Option<String> {
        let name = self.debug.clone()?;
        let age = if self.ty == ObjectType::PeDotnet { 0xffff_ffff } else { self.age? };
        let u = self.uuid.clone()?;
        Some(if ssqp {
            let n = name.to_lowercase();
            format!("{n}/{u}{age:X}/{n}")
        } else {
            format!("{name}/{}{age:x}/{name}", u.to_uppercase())
        })
    }
    fn pe(&self, ssqp: bool) -> Option<String> {
        let name = self.code.clone()?;
        let c = self.code_id.clone()?;
        Some(if ssqp {
            let n = name.to_lowercase();
            format!("{n}/{c}/{n}")
        } else {
            if c.len() < 8 {
                return None;
            }
            let (ts, size) = c.split_at(8);
            format!("{name}/{}{}/{name}", ts.to_uppercase(), size)
        })
    }
    /// Directory part and the acceptable stems of breakpad symbols.
    fn breakpad(&self) -> Option<(String, Vec<String>)> {
        if self.ty == ObjectType::Wasm {
            return None;
        }
        let name = self.debug.clone()?;
        let id = format!("{}{:x}", self.uuid.clone()?.to_uppercase(), self.age?);
        let windows = matches!(self.ty, ObjectType::Pe | ObjectType::PeDotnet);
        let mut stems = vec![];
        let mut stripped = None;
        for ext in [".exe", ".dll", ".pdb"] {
            if name.len() > ext.len() && name.ends_with(ext) {
                stripped = Some((name[..name.len() - ext.len()].to_string(), true));
            } else if name.len() >= ext.len()
                && name.is_char_boundary(name.len() - ext.len())
                && name[name.len() - ext.len()..].eq_ignore_ascii_case(ext)
            {
                // casing of the extension / a name that is nothing but extension: open
                stripped = Some((name[..name.len() - ext.len()].to_string(), false));
            }
        }
        match stripped {
            Some((s, true)) if windows => stems.push(s),
            Some((s, _)) => {
                stems.push(s);
                stems.push(name.clone());
            }
            None => stems.push(name.clone()),
        }
        Some((format!("{name}/{id}"), stems))
    }
}

fn strip_last_extension(path: &str) -> String {
    // everything after the last dot of the *file name*
    let slash = path.rfind('/').map(|i| i + 1).unwrap_or(0);
    match path[slash..].rfind('.') {
        Some(i) => path[..slash + i].to_string(),
        None => path.to_string(),
    }
}

fn one(p: Option<String>) -> Vec<Vec<String>> {
    vec![p.into_iter().collect()]
}

fn symstore(ft: FileType, m: &M, ssqp: bool) -> Option<String> {
    let lc = |s: String| if ssqp { s.to_lowercase() } else { s };
    match ft {
        FileType::ElfCode => {
            let n = lc(m.code.clone()?);
            Some(format!("{n}/elf-buildid-{}/{n}", m.code_id.clone()?))
        }
        FileType::ElfDebug => Some(format!("_.debug/elf-buildid-sym-{}/_.debug", m.code_id.clone()?)),
        FileType::MachCode => {
            let n = lc(m.code.clone()?);
            Some(format!("{n}/mach-uuid-{}/{n}", m.mach_uuid()?))
        }
        FileType::MachDebug => Some(format!("_.dwarf/mach-uuid-sym-{}/_.dwarf", m.mach_uuid()?)),
        FileType::Pdb | FileType::PortablePdb => m.pdb(ssqp),
        FileType::Pe => m.pe(ssqp),
        FileType::SourceBundle => {
            if m.ty != ObjectType::Pe {
                return None;
            }
            Some(format!("{}.src.zip", strip_last_extension(&m.pdb(ssqp)?)))
        }
        _ => None,
    }
}

fn unified(ft: FileType, m: &M) -> Option<String> {
    let suffix = match ft {
        FileType::ElfCode | FileType::MachCode | FileType::Pe | FileType::WasmCode => "executable",
        FileType::ElfDebug | FileType::MachDebug | FileType::Pdb | FileType::WasmDebug | FileType::PortablePdb => {
            "debuginfo"
        }
        FileType::Breakpad => "breakpad",
        FileType::SourceBundle => "sourcebundle",
        FileType::UuidMap => "uuidmap",
        FileType::BcSymbolMap => "bcsymbolmap",
        FileType::Il2cpp => "il2cpp",
        FileType::Proguard => return None,
    };
    #[derive(PartialEq)]
    enum K {
        Pe,
        Elf,
        Mach,
    }
    let k = match ft {
        FileType::Pe | FileType::Pdb | FileType::PortablePdb => K::Pe,
        FileType::ElfCode | FileType::ElfDebug => K::Elf,
        FileType::MachCode
        | FileType::MachDebug
        | FileType::WasmCode
        | FileType::WasmDebug
        | FileType::UuidMap
        | FileType::BcSymbolMap => K::Mach,
        _ => match m.ty {
            ObjectType::Pe | ObjectType::PeDotnet => K::Pe,
            ObjectType::Elf => K::Elf,
            ObjectType::Macho | ObjectType::Wasm => K::Mach,
            ObjectType::Unknown => return None,
        },
    };
    let id = match k {
        K::Pe => format!("{}{:x}", m.uuid.clone()?, m.age?),
        K::Elf => m.code_id.clone()?,
        K::Mach => m.code_id.clone().or_else(|| m.uuid.clone())?,
    };
    if id.len() < 2 {
        return None;
    }
    Some(format!("{}/{}/{}", &id[..2], &id[2..], suffix))
}

fn base(layout: DirectoryLayoutType, ft: FileType, m: &M) -> Vec<Vec<String>> {
    match layout {
        DirectoryLayoutType::Native => match ft {
            FileType::ElfCode | FileType::WasmCode => one(m.gdb()),
            FileType::ElfDebug | FileType::WasmDebug => one(m.gdb().map(|p| p + ".debug")),
            FileType::MachCode => one(m.lldb().map(|p| p + ".app")),
            FileType::MachDebug => one(m.lldb()),
            FileType::Pdb | FileType::PortablePdb => one(m.pdb(false)),
            FileType::Pe => one(m.pe(false)),
            FileType::Breakpad => match m.breakpad() {
                None => vec![vec![]],
                Some((dir, stems)) => stems.into_iter().map(|s| vec![format!("{dir}/{s}.sym")]).collect(),
            },
            FileType::SourceBundle => {
                let primary = match m.ty {
                    ObjectType::Pe | ObjectType::PeDotnet => m.pdb(false).map(|p| strip_last_extension(&p)),
                    ObjectType::Macho => m.lldb(),
                    ObjectType::Elf | ObjectType::Wasm => m.gdb(),
                    ObjectType::Unknown => None,
                };
                let Some(primary) = primary else { return vec![vec![]] };
                let primary = primary + ".src.zip";
                match m.breakpad() {
                    None => vec![vec![primary]],
                    Some((dir, stems)) => stems
                        .into_iter()
                        .map(|s| {
                            let b = format!("{dir}/{s}.src.zip");
                            if b == primary {
                                vec![primary.clone()]
                            } else {
                                vec![b, primary.clone()]
                            }
                        })
                        .collect(),
                }
            }
            _ => vec![vec![]],
        },
        DirectoryLayoutType::Symstore => one(symstore(ft, m, false)),
        DirectoryLayoutType::Ssqp => one(symstore(ft, m, true)),
        DirectoryLayoutType::SymstoreIndex2 => match symstore(ft, m, false) {
            None => vec![vec![]],
            Some(p) => {
                let name = &p[..p.find('/').unwrap()];
                let two: String = name.chars().take(2).collect();
                if name.is_ascii() {
                    // Windows directory names cannot end in a dot, so `a.pdb` lives below `a`
                    let two = two.strip_suffix('.').filter(|s| !s.is_empty()).map(str::to_string).unwrap_or(two);
                    one(Some(format!("{two}/{p}")))
                } else {
                    // the convention is only specified for ASCII names
                    let mut v = one(Some(format!("{two}/{p}")));
                    v.extend(one(Some(p.clone())));
                    let b: String = name.chars().take(1).collect();
                    v.extend(one(Some(format!("{b}/{p}"))));
                    v
                }
            }
        },
        DirectoryLayoutType::Debuginfod => {
            let c = m.code_id.clone().filter(|c| !c.is_empty());
            one(match ft {
                FileType::ElfCode => c.map(|c| c + "/executable"),
                FileType::ElfDebug => c.map(|c| c + "/debuginfo"),
                _ => None,
            })
        }
        DirectoryLayoutType::Unified => one(unified(ft, m)),
        DirectoryLayoutType::SlashSymbols => {
            one((|| Some(format!("{}/{}/symbols", m.code.clone()?, m.code_id.clone()?)))())
        }
    }
}

pub fn locations(layout: DirectoryLayout, ft: FileType, o: &ObjectId) -> Vec<Vec<String>> {
    let m = M::new(o);
    base(layout.ty, ft, &m)
        .into_iter()
        .map(|paths| {
            let mut out = vec![];
            for p in paths {
                let p: String = match layout.casing {
                    FilenameCasing::Default => p,
                    FilenameCasing::Uppercase => {
                        p.chars().map(|c| if c.is_ascii() { c.to_ascii_uppercase() } else { c }).collect()
                    }
                    FilenameCasing::Lowercase => {
                        p.chars().map(|c| if c.is_ascii() { c.to_ascii_lowercase() } else { c }).collect()
                    }
                };
                if matches!(ft, FileType::Pdb | FileType::Pe) {
                    // compressed variant first (lower priority)
                    let mut c: Vec<char> = p.chars().collect();
                    *c.last_mut().unwrap() = '_';
                    out.push(c.into_iter().collect());
                }
                out.push(p);
            }
            out
        })
        .collect()
}
