//! A scripted HTTP/1.1 server: every response, including its faults, is chosen by a handler.
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

#[derive(Clone, Debug)]
pub struct Hit {
    pub n: usize,
    pub at: Instant,
    pub method: String,
    /// path and query
    pub target: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Hit {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
    pub fn path(&self) -> &str {
        self.target.split('?').next().unwrap()
    }
    /// `bytes=a-b`
    pub fn range(&self) -> Option<(u64, u64)> {
        let r = self.header("range")?.strip_prefix("bytes=")?;
        let (a, b) = r.split_once('-')?;
        Some((a.parse().ok()?, b.parse().ok()?))
    }
}

#[derive(Clone)]
pub enum Body {
    Bytes(Vec<u8>),
    /// bytes `[start, start + len)` of an endless pattern
    Pattern { seed: u64, start: u64, len: u64 },
}

impl Body {
    pub fn len(&self) -> u64 {
        match self {
            Body::Bytes(b) => b.len() as u64,
            Body::Pattern { len, .. } => *len,
        }
    }
    fn piece(&self, from: u64, n: usize) -> Vec<u8> {
        match self {
            Body::Bytes(b) => {
                let a = (from as usize).min(b.len());
                b[a..(a + n).min(b.len())].to_vec()
            }
            Body::Pattern { seed, start, len } => {
                let n = n.min((*len - from.min(*len)) as usize);
                pattern(*seed, start + from, n)
            }
        }
    }
}

/// `n` bytes of the pattern from offset `from` on.
pub fn pattern(seed: u64, from: u64, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 16);
    let mut w = from / 8;
    let skip = (from % 8) as usize;
    while v.len() < n + skip {
        let x = (w ^ seed).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        v.extend_from_slice(&(x ^ (x >> 29)).to_le_bytes());
        w += 1;
    }
    v.drain(..skip);
    v.truncate(n);
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Framing {
    Length,
    Chunked,
    /// neither a length nor chunks: the body ends where the connection ends
    Close,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Head {
    Normal,
    /// close the connection without a response
    Drop,
    /// something that is not HTTP
    Garbage,
    /// half of the head, then the connection is closed
    Half,
}

#[derive(Clone)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Body,
    pub framing: Framing,
    pub head: Head,
    pub head_delay: Duration,
    /// the connection is closed after this many bytes of the body
    pub cut: Option<u64>,
    /// a pause after this many bytes of the body
    pub stall: Option<(u64, Duration)>,
    /// bytes per write
    pub piece: usize,
    /// a pause between writes
    pub pause: Duration,
}

impl Resp {
    pub fn new(status: u16, body: impl Into<Vec<u8>>) -> Self {
        Resp {
            status,
            headers: vec![],
            body: Body::Bytes(body.into()),
            framing: Framing::Length,
            head: Head::Normal,
            head_delay: Duration::ZERO,
            cut: None,
            stall: None,
            piece: 64 * 1024,
            pause: Duration::ZERO,
        }
    }
    pub fn ok(body: impl Into<Vec<u8>>) -> Self {
        Self::new(200, body)
    }
    pub fn with(mut self, k: &str, v: impl Into<String>) -> Self {
        self.headers.push((k.into(), v.into()));
        self
    }
    pub fn json(v: &serde_json::Value) -> Self {
        Self::new(200, v.to_string()).with("content-type", "application/json")
    }
}

pub type Handler = dyn Fn(&Hit) -> Resp + Send + Sync;

pub struct Mock {
    pub addr: SocketAddr,
    log: Arc<Mutex<Vec<Hit>>>,
    handler: Arc<Mutex<Arc<Handler>>>,
}

fn server_rt() -> &'static tokio::runtime::Runtime {
    static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| crate::kit::rt(3))
}

impl Mock {
    pub fn start(handler: impl Fn(&Hit) -> Resp + Send + Sync + 'static) -> Mock {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        l.set_nonblocking(true).unwrap();
        let addr = l.local_addr().unwrap();
        let log: Arc<Mutex<Vec<Hit>>> = Default::default();
        let handler: Arc<Mutex<Arc<Handler>>> = Arc::new(Mutex::new(Arc::new(handler)));
        let (log2, handler2) = (log.clone(), handler.clone());
        server_rt().spawn(async move {
            let l = TcpListener::from_std(l).unwrap();
            loop {
                let Ok((conn, _)) = l.accept().await else { continue };
                let (log, handler) = (log2.clone(), handler2.clone());
                tokio::spawn(async move {
                    let _ = serve(conn, log, handler).await;
                });
            }
        });
        Mock { addr, log, handler }
    }
    pub fn set(&self, handler: impl Fn(&Hit) -> Resp + Send + Sync + 'static) {
        *self.handler.lock().unwrap() = Arc::new(handler);
    }
    pub fn port(&self) -> u16 {
        self.addr.port()
    }
    pub fn url(&self, path: &str) -> String {
        format!("http://{}{path}", self.addr)
    }
    pub fn hits(&self) -> usize {
        self.log.lock().unwrap().len()
    }
    pub fn log(&self) -> Vec<Hit> {
        self.log.lock().unwrap().clone()
    }
    pub fn take(&self) -> Vec<Hit> {
        std::mem::take(&mut self.log.lock().unwrap())
    }
}

async fn read_request(conn: &mut TcpStream) -> std::io::Result<Option<Hit>> {
    let mut buf = vec![];
    let end = loop {
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break p;
        }
        let mut b = [0u8; 4096];
        let n = conn.read(&mut b).await?;
        if n == 0 {
            return Ok(None);
        }
        buf.extend_from_slice(&b[..n]);
    };
    let head = String::from_utf8_lossy(&buf[..end]).into_owned();
    let mut body = buf[end + 4..].to_vec();
    let mut lines = head.split("\r\n");
    let first = lines.next().unwrap_or_default();
    let mut parts = first.split(' ');
    let method = parts.next().unwrap_or_default().to_string();
    let target = parts.next().unwrap_or_default().to_string();
    let headers: Vec<(String, String)> = lines
        .filter_map(|l| l.split_once(':').map(|(k, v)| (k.trim().to_ascii_lowercase(), v.trim().to_string())))
        .collect();
    let get = |n: &str| headers.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone());
    if let Some(n) = get("content-length").and_then(|v| v.parse::<usize>().ok()) {
        while body.len() < n {
            let mut b = [0u8; 4096];
            let k = conn.read(&mut b).await?;
            if k == 0 {
                return Ok(None);
            }
            body.extend_from_slice(&b[..k]);
        }
    } else if get("transfer-encoding").is_some() {
        while !body.ends_with(b"0\r\n\r\n") {
            let mut b = [0u8; 4096];
            let k = conn.read(&mut b).await?;
            if k == 0 {
                return Ok(None);
            }
            body.extend_from_slice(&b[..k]);
        }
        let mut out = vec![];
        let mut rest = &body[..];
        while let Some(p) = rest.windows(2).position(|w| w == b"\r\n") {
            let n = usize::from_str_radix(std::str::from_utf8(&rest[..p]).unwrap_or("0"), 16).unwrap_or(0);
            if n == 0 || rest.len() < p + 2 + n {
                break;
            }
            out.extend_from_slice(&rest[p + 2..p + 2 + n]);
            rest = &rest[(p + 2 + n + 2).min(rest.len())..];
        }
        body = out;
    }
    Ok(Some(Hit { n: 0, at: Instant::now(), method, target, headers, body }))
}

async fn serve(
    mut conn: TcpStream,
    log: Arc<Mutex<Vec<Hit>>>,
    handler: Arc<Mutex<Arc<Handler>>>,
) -> std::io::Result<()> {
    let Some(mut hit) = read_request(&mut conn).await? else { return Ok(()) };
    {
        let mut l = log.lock().unwrap();
        hit.n = l.len();
        l.push(hit.clone());
    }
    let h = handler.lock().unwrap().clone();
    let r = h(&hit);
    if !r.head_delay.is_zero() {
        tokio::time::sleep(r.head_delay).await;
    }
    let mut head = format!("HTTP/1.1 {} {}\r\n", r.status, reason(r.status));
    for (k, v) in &r.headers {
        head.push_str(&format!("{k}: {v}\r\n"));
    }
    match r.framing {
        Framing::Length if r.status != 204 && r.status != 304 => {
            if !r.headers.iter().any(|(k, _)| k.eq_ignore_ascii_case("content-length")) {
                head.push_str(&format!("content-length: {}\r\n", r.body.len()))
            }
        }
        Framing::Chunked => head.push_str("transfer-encoding: chunked\r\n"),
        _ => {}
    }
    head.push_str("connection: close\r\n\r\n");
    match r.head {
        Head::Normal => conn.write_all(head.as_bytes()).await?,
        Head::Drop => return Ok(()),
        Head::Garbage => {
            conn.write_all(b"\x16\x03\x01 this is not http\r\n\r\n").await?;
            return Ok(());
        }
        Head::Half => {
            conn.write_all(&head.as_bytes()[..head.len() / 2]).await?;
            return Ok(());
        }
    }
    let total = r.body.len().min(r.cut.unwrap_or(u64::MAX));
    let mut at = 0;
    let mut stall = r.stall;
    while at < total {
        if let Some((s, d)) = stall {
            if at >= s {
                stall = None;
                conn.flush().await?;
                tokio::time::sleep(d).await;
            }
        }
        let mut n = (r.piece.max(1) as u64).min(total - at);
        if let Some((s, _)) = stall {
            if at < s {
                n = n.min(s - at);
            }
        }
        let b = r.body.piece(at, n as usize);
        if r.framing == Framing::Chunked {
            conn.write_all(format!("{:x}\r\n", b.len()).as_bytes()).await?;
            conn.write_all(&b).await?;
            conn.write_all(b"\r\n").await?;
        } else {
            conn.write_all(&b).await?;
        }
        if !r.pause.is_zero() {
            tokio::time::sleep(r.pause).await;
        }
        at += n;
    }
    if let Some((_, d)) = stall {
        conn.flush().await?;
        tokio::time::sleep(d).await;
    }
    if r.framing == Framing::Chunked && total == r.body.len() && r.cut.is_none() {
        conn.write_all(b"0\r\n\r\n").await?;
    }
    conn.shutdown().await?;
    // let the client see the end before the socket goes away
    let mut b = [0u8; 64];
    let _ = tokio::time::timeout(Duration::from_secs(2), conn.read(&mut b)).await;
    Ok(())
}

fn reason(s: u16) -> &'static str {
    match s {
        200 => "OK",
        204 => "No Content",
        206 => "Partial Content",
        301 => "Moved Permanently",
        302 => "Found",
        304 => "Not Modified",
        307 => "Temporary Redirect",
        400 => "Bad Request",
        401 => "Unauthorized",
        403 => "Forbidden",
        404 => "Not Found",
        416 => "Range Not Satisfiable",
        429 => "Too Many Requests",
        500 => "Internal Server Error",
        502 => "Bad Gateway",
        503 => "Service Unavailable",
        _ => "Whatever",
    }
}
