//! A stand-in for `symbolic-demangle`: the mangled name `<prefix><rest>` stands for
//! `int <language>::<rest>(int)`.
use symbolic_common::{Language, Name, NameMangling};

#[derive(Clone, Copy, Debug)]
pub struct DemangleOptions {
    return_type: bool,
    parameters: bool,
}

impl DemangleOptions {
    pub const fn complete() -> Self {
        Self { return_type: true, parameters: true }
    }
    pub const fn name_only() -> Self {
        Self { return_type: false, parameters: false }
    }
    pub const fn return_type(mut self, on: bool) -> Self {
        self.return_type = on;
        self
    }
    pub const fn parameters(mut self, on: bool) -> Self {
        self.parameters = on;
        self
    }
}

pub trait Demangle {
    fn detect_language(&self) -> Language;
    fn demangle(&self, opts: DemangleOptions) -> Option<String>;
    fn try_demangle(&self, opts: DemangleOptions) -> std::borrow::Cow<'_, str>;
}

impl Demangle for Name<'_> {
    fn detect_language(&self) -> Language {
        if self.language() != Language::Unknown {
            return self.language();
        }
        let s = self.as_str();
        if s.starts_with("_Z") {
            Language::Cpp
        } else if s.starts_with("_R") {
            Language::Rust
        } else if s.starts_with("$s") {
            Language::Swift
        } else {
            Language::Unknown
        }
    }

    fn demangle(&self, o: DemangleOptions) -> Option<String> {
        if matches!(self.mangling(), NameMangling::Unmangled) {
            return Some(self.to_string());
        }
        let (lang, prefix) = match self.detect_language() {
            Language::Cpp => ("cpp", "_Z"),
            Language::Rust => ("rust", "_R"),
            Language::Swift => ("swift", "$s"),
            _ => return None,
        };
        let rest = self.as_str().strip_prefix(prefix)?;
        Some(format!("{}{lang}::{rest}{}", if o.return_type { "int " } else { "" }, if o.parameters { "(int)" } else { "" }))
    }

    fn try_demangle(&self, o: DemangleOptions) -> std::borrow::Cow<'_, str> {
        self.demangle(o).map_or_else(|| self.to_string().into(), Into::into)
    }
}
