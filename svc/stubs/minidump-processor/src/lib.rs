//! A stand-in for `minidump-processor`. The description of a thread lists the return addresses its
//! stack holds; a caller the CFI of the frame before knows is found by it, otherwise by what the
//! description says, and an address found by scanning that the provider rejects is skipped.
use minidump::system_info::{Cpu, Os};
use minidump::{Minidump, MinidumpContext, MinidumpModuleList, MinidumpSystemInfo};
use minidump_unwind::{CallStack, FrameSymbolizer, FrameTrust, FrameWalker, StackFrame, SymbolProvider};
use serde_json::Value;
use std::fmt;
use std::ops::Deref;
use std::time::{Duration, SystemTime};

#[derive(Debug)]
pub enum ProcessError {
    MinidumpReadError(minidump::Error),
    MissingSystemInfo,
    MissingThreadList,
}

impl fmt::Display for ProcessError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for ProcessError {}

#[derive(Debug, Clone, Copy)]
pub struct Address(pub u64);

#[derive(Debug)]
pub struct ExceptionInfo {
    pub reason: String,
    pub address: Address,
}

#[derive(Debug)]
pub struct SystemInfo {
    pub os: Os,
    pub cpu: Cpu,
    pub os_version: Option<String>,
    pub os_build: Option<String>,
}

#[derive(Debug)]
pub struct ProcessState {
    pub system_info: SystemInfo,
    pub time: SystemTime,
    pub exception_info: Option<ExceptionInfo>,
    pub assertion: Option<String>,
    pub requesting_thread: Option<usize>,
    pub threads: Vec<CallStack>,
    pub modules: MinidumpModuleList,
}

impl ProcessState {
    pub fn crashed(&self) -> bool {
        self.exception_info.is_some()
    }
}

/// The monitor decides how long a dump takes and whether processing it crashes.
pub mod monitor {
    use futures::channel::oneshot;
    use futures::future::{FutureExt, Shared};
    use std::collections::HashMap;
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    use std::sync::Mutex;

    static GATES: Mutex<Option<HashMap<String, Shared<oneshot::Receiver<()>>>>> = Mutex::new(None);
    static RUNNING: AtomicUsize = AtomicUsize::new(0);
    static MOST: AtomicUsize = AtomicUsize::new(0);

    /// Dumps with `"hold": name` wait until what is returned is dropped.
    pub fn gate(name: &str) -> oneshot::Sender<()> {
        let (s, r) = oneshot::channel();
        GATES.lock().unwrap().get_or_insert_with(HashMap::new).insert(name.into(), r.shared());
        s
    }
    pub fn forget_gates() {
        *GATES.lock().unwrap() = None;
    }
    /// The most dumps processed at the same time since the last call.
    pub fn take_most() -> usize {
        MOST.swap(RUNNING.load(SeqCst), SeqCst)
    }
    pub fn running() -> usize {
        RUNNING.load(SeqCst)
    }
    pub(crate) struct Running;
    impl Running {
        pub fn start() -> Self {
            MOST.fetch_max(RUNNING.fetch_add(1, SeqCst) + 1, SeqCst);
            Running
        }
    }
    impl Drop for Running {
        fn drop(&mut self) {
            RUNNING.fetch_sub(1, SeqCst);
        }
    }
    pub(crate) async fn wait(name: &str) {
        let gate = GATES.lock().unwrap().as_ref().and_then(|g| g.get(name).cloned());
        if let Some(g) = gate {
            let _ = g.await;
        }
    }
}

struct At(u64, bool);

impl FrameSymbolizer for At {
    fn get_instruction(&self) -> u64 {
        self.0
    }
    fn set_function(&mut self, _: &str, _: u64, _: u32) {
        self.1 = true;
    }
    fn set_source_file(&mut self, _: &str, _: u32, _: u64) {}
}

impl FrameWalker for At {
    fn get_instruction(&self) -> u64 {
        self.0
    }
    fn set_ra(&mut self, _: u64) -> Option<()> {
        Some(())
    }
}

const REGISTERS: [&str; 4] = ["rip", "rsp", "pc", "eip"];

async fn walk<P: SymbolProvider + Sync>(t: &Value, modules: &MinidumpModuleList, provider: &P) -> CallStack {
    let registers = MinidumpContext(REGISTERS.iter().filter_map(|r| Some((*r, t["registers"][*r].as_u64()?))).collect());
    let mut frames: Vec<StackFrame> = vec![];
    for f in t["frames"].as_array().into_iter().flatten() {
        let addr = f["addr"].as_u64().unwrap_or(0);
        let mut trust = FrameTrust::Context;
        if let Some(last) = frames.last() {
            trust = if f["trust"] == "fp" { FrameTrust::FramePointer } else { FrameTrust::Scan };
            if let Some(m) = &last.module {
                if provider.walk_frame(m, &mut At(last.instruction, false)).await.is_some() {
                    trust = FrameTrust::CallFrameInfo;
                }
            }
        }
        // a caller's instruction is before the address it returns to
        let instruction = if trust == FrameTrust::Context { addr } else { addr.saturating_sub(1) };
        let module = modules.module_at_address(instruction).cloned();
        if let Some(m) = &module {
            let mut s = At(instruction, false);
            let filled = provider.fill_symbol(m, &mut s).await;
            if trust == FrameTrust::Scan && filled.is_ok() && !s.1 {
                continue;
            }
        } else if trust == FrameTrust::Scan {
            continue;
        }
        frames.push(StackFrame { instruction, resume_address: addr, module, trust, context: registers.clone() });
    }
    CallStack { frames, thread_id: t["id"].as_u64().unwrap_or(0) as u32, thread_name: t["name"].as_str().map(Into::into) }
}

pub async fn process_minidump<'a, T, P>(dump: &Minidump<'a, T>, provider: &P) -> Result<ProcessState, ProcessError>
where
    T: Deref<Target = [u8]> + 'a,
    P: SymbolProvider + Sync,
{
    let v = dump.get_stream::<Value>().map_err(ProcessError::MinidumpReadError)?;
    let _running = monitor::Running::start();
    if let Some(name) = v["hold"].as_str() {
        monitor::wait(name).await;
    }
    assert!(v["panic"] != true, "this dump crashes the processor");
    let info = dump.get_stream::<MinidumpSystemInfo>().map_err(|_| ProcessError::MissingSystemInfo)?;
    let modules = dump.get_stream::<MinidumpModuleList>().unwrap_or_default();
    let threads = v["threads"].as_array().ok_or(ProcessError::MissingThreadList)?;
    let threads = futures::future::join_all(threads.iter().map(|t| walk(t, &modules, provider))).await;
    Ok(ProcessState {
        system_info: SystemInfo { os: info.os, cpu: info.cpu, os_version: info.os_version, os_build: info.os_build },
        time: SystemTime::UNIX_EPOCH + Duration::from_secs(v["time"].as_u64().unwrap_or(0)),
        exception_info: v["exception"].as_object().map(|e| ExceptionInfo {
            reason: e["reason"].as_str().unwrap_or("").into(),
            address: Address(e["address"].as_u64().unwrap_or(0)),
        }),
        assertion: v["assertion"].as_str().map(Into::into),
        requesting_thread: v["requesting_thread"].as_u64().map(|n| n as usize),
        threads,
        modules,
    })
}
