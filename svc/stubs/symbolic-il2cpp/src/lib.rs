//! A stand-in for `symbolic-il2cpp`: the JSON format `{"cpp": {"cs": {"cpp line": cs line}}}`.
use std::collections::BTreeMap;

#[derive(Debug, Default)]
pub struct LineMapping {
    files: BTreeMap<String, BTreeMap<u32, (String, u32)>>,
}

impl LineMapping {
    pub fn parse(data: &[u8]) -> Option<Self> {
        let v: serde_json::Value = serde_json::from_slice(data).ok()?;
        let mut files = BTreeMap::new();
        for (cpp, m) in v.as_object()? {
            if cpp.starts_with("__") {
                continue;
            }
            let lines: &mut BTreeMap<u32, (String, u32)> = files.entry(cpp.clone()).or_default();
            for (cs, m) in m.as_object()? {
                for (from, to) in m.as_object()? {
                    lines.insert(from.parse().ok()?, (cs.clone(), to.as_u64()? as u32));
                }
            }
        }
        Some(Self { files })
    }

    pub fn lookup(&self, file: &str, line: u32) -> Option<(&str, u32)> {
        let (_, (f, l)) = self.files.get(file)?.range(..=line).next_back()?;
        Some((f, *l))
    }
}
