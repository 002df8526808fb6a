//! A stand-in for `apple-crash-report-parser`: reports are JSON documents.
use chrono::{DateTime, Utc};
use serde_json::Value;
use std::collections::BTreeMap;
use std::fmt;
use std::io::Read;
use uuid::Uuid;

#[derive(Debug)]
pub struct ParseError;

impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("not a crash report")
    }
}
impl std::error::Error for ParseError {}

#[derive(Clone, Copy, Debug, Default)]
pub struct Addr(pub u64);

#[derive(Debug)]
pub struct BinaryImage {
    pub addr: Addr,
    pub size: u64,
    pub uuid: Uuid,
    pub arch: String,
    pub version: Option<String>,
    pub name: String,
    pub path: String,
}

#[derive(Debug)]
pub struct Frame {
    pub module: Option<String>,
    pub symbol: Option<String>,
    pub filename: Option<String>,
    pub lineno: Option<u32>,
    pub instruction_addr: Addr,
}

#[derive(Debug)]
pub struct Thread {
    pub id: u64,
    pub name: Option<String>,
    pub frames: Vec<Frame>,
    pub crashed: bool,
    pub registers: Option<BTreeMap<String, Addr>>,
}

#[derive(Debug, Default)]
pub struct AppleCrashReport {
    pub incident_identifier: Uuid,
    pub timestamp: Option<DateTime<Utc>>,
    pub code_type: Option<String>,
    pub path: Option<String>,
    pub application_specific_information: Option<String>,
    pub report_version: u32,
    pub metadata: BTreeMap<String, String>,
    pub threads: Vec<Thread>,
    pub binary_images: Vec<BinaryImage>,
}

impl AppleCrashReport {
    pub fn from_reader<R: Read>(mut r: R) -> Result<Self, ParseError> {
        let mut text = vec![];
        r.read_to_end(&mut text).map_err(|_| ParseError)?;
        let v: Value = serde_json::from_slice(&text).map_err(|_| ParseError)?;
        let text = |v: &Value| v.as_str().map(String::from);
        let addr = |v: &Value| Addr(v.as_u64().unwrap_or(0));
        let list = |v: &Value| v.as_array().cloned().unwrap_or_default();
        Ok(Self {
            timestamp: v["timestamp"].as_i64().and_then(|t| DateTime::from_timestamp(t, 0)),
            code_type: text(&v["code_type"]),
            application_specific_information: text(&v["information"]),
            metadata: v["metadata"].as_object().into_iter().flatten().filter_map(|(k, v)| Some((k.clone(), text(v)?))).collect(),
            threads: list(&v["threads"])
                .iter()
                .map(|t| Thread {
                    id: t["id"].as_u64().unwrap_or(0),
                    name: text(&t["name"]),
                    crashed: t["crashed"] == true,
                    registers: t["registers"].as_object().map(|r| r.iter().map(|(k, v)| (k.clone(), addr(v))).collect()),
                    frames: list(&t["frames"])
                        .iter()
                        .map(|f| Frame { module: text(&f["module"]), symbol: None, filename: None, lineno: None, instruction_addr: addr(&f["addr"]) })
                        .collect(),
                })
                .collect(),
            binary_images: list(&v["images"])
                .iter()
                .map(|i| BinaryImage {
                    addr: addr(&i["addr"]),
                    size: i["size"].as_u64().unwrap_or(0),
                    uuid: i["uuid"].as_str().and_then(|u| u.parse().ok()).unwrap_or_default(),
                    arch: "arm64".into(),
                    version: None,
                    name: "image".into(),
                    path: text(&i["path"]).unwrap_or_default(),
                })
                .collect(),
            ..Default::default()
        })
    }
}
