//! Running the real binaries and recording what they did to the file system.
use std::collections::BTreeMap;
use std::io::Read;
use std::os::unix::fs::FileTypeExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    pub timed_out: bool,
}

impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// A crash: the process was ended by a signal or by a panic.
    pub fn crashed(&self) -> bool {
        !self.timed_out && (self.signal.is_some() || self.code == Some(101) || self.err.contains("panicked at"))
    }
    pub fn json(&self) -> serde_json::Value {
        let cut = |s: &str| s.chars().take(600).collect::<String>();
        serde_json::json!({"exit": self.code, "signal": self.signal, "timed_out": self.timed_out, "stdout": cut(&self.out), "stderr": cut(&self.err)})
    }
}

pub fn run(cmd: &mut Command, timeout: Duration) -> Run {
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    cmd.process_group(0);
    cmd.env("RUST_BACKTRACE", "0").env_remove("RUST_LOG");
    let mut child = cmd.spawn().expect("spawn");
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let t2 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let start = Instant::now();
    let mut timed_out = false;
    let mut nap = Duration::from_millis(1);
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if start.elapsed() > timeout {
            timed_out = true;
            unsafe { libc::kill(-(child.id() as i32), libc::SIGKILL) };
            break child.wait().unwrap();
        }
        std::thread::sleep(nap);
        nap = (nap * 2).min(Duration::from_millis(20));
    };
    Run {
        code: status.code(),
        signal: if timed_out { None } else { status.signal() },
        out: t1.join().unwrap(),
        err: t2.join().unwrap(),
        timed_out,
    }
}

/// Limits the size of files the child can write; writes beyond it fail with an error.
pub fn limit_file_size(cmd: &mut Command, bytes: u64) {
    unsafe {
        cmd.pre_exec(move || {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
            if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    Dir,
    File(Vec<u8>),
    Link(String),
    Other,
}

/// Everything below `root`, keyed by relative path.
pub fn snapshot(root: &Path) -> BTreeMap<String, Node> {
    fn walk(base: &Path, dir: &Path, out: &mut BTreeMap<String, Node>) {
        let Ok(rd) = std::fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            let ty = e.file_type().unwrap();
            if ty.is_dir() {
                out.insert(rel, Node::Dir);
                walk(base, &p, out);
            } else if ty.is_file() {
                out.insert(rel, Node::File(std::fs::read(&p).unwrap_or_default()));
            } else if ty.is_symlink() {
                out.insert(rel, Node::Link(std::fs::read_link(&p).unwrap().to_string_lossy().into_owned()));
            } else {
                let _ = ty.is_fifo();
                out.insert(rel, Node::Other);
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(root, root, &mut m);
    m
}
