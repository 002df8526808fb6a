//! A stand-in for `reqwest` 0.12 with the API surface symbolicator uses.
//!
//! It is a small HTTP/1.1 client over tokio TCP: one connection per request, strict about message
//! framing (a short body is an error, like hyper's), with reqwest's redirect, header-stripping,
//! timeout, DNS-filter and content-decoding rules. `https` is spoken without TLS. The `monitor`
//! module maps host names to addresses and addresses to local sockets, and records an event log.
use std::fmt;
use std::future::Future;
use std::net::{IpAddr, SocketAddr};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

use bytes::{Bytes, BytesMut};
use futures::{Stream, StreamExt};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
use tokio::time::Instant;

pub use http::{header, Method, StatusCode, Version};
pub use url::Url;

pub mod monitor;

pub type Result<T> = std::result::Result<T, Error>;
type BoxErr = Box<dyn std::error::Error + Send + Sync>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Kind {
    Builder,
    Request,
    Redirect,
    Body,
    Decode,
    Timeout,
}

pub struct Error {
    kind: Kind,
    url: Option<Url>,
    source: Option<BoxErr>,
}

impl Error {
    fn new(kind: Kind, source: impl Into<BoxErr>) -> Self {
        Error { kind, url: None, source: Some(source.into()) }
    }
    fn with_url(mut self, url: Url) -> Self {
        self.url = Some(url);
        self
    }
    pub fn is_timeout(&self) -> bool {
        self.kind == Kind::Timeout
    }
    pub fn is_redirect(&self) -> bool {
        self.kind == Kind::Redirect
    }
    pub fn is_body(&self) -> bool {
        self.kind == Kind::Body
    }
    pub fn is_decode(&self) -> bool {
        self.kind == Kind::Decode
    }
    pub fn is_connect(&self) -> bool {
        self.kind == Kind::Request
    }
    pub fn url(&self) -> Option<&Url> {
        self.url.as_ref()
    }
    pub fn status(&self) -> Option<StatusCode> {
        None
    }
}

impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("reqwest::Error")
            .field("kind", &self.kind)
            .field("url", &self.url.as_ref().map(|u| u.as_str()))
            .field("source", &self.source)
            .finish()
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self.kind {
            Kind::Builder => "builder error",
            Kind::Request => "error sending request",
            Kind::Redirect => "error following redirect",
            Kind::Body => "request or response body error",
            Kind::Decode => "error decoding response body",
            Kind::Timeout => "operation timed out",
        })?;
        if let Some(url) = &self.url {
            write!(f, " for url ({url})")?;
        }
        Ok(())
    }
}

impl std::error::Error for Error {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.source.as_ref().map(|e| &**e as _)
    }
}

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        if self.has_host() {
            Ok(self)
        } else {
            Err(Error::new(Kind::Builder, "URL scheme is not allowed").with_url(self))
        }
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url> {
        Url::parse(self).map_err(|e| Error::new(Kind::Builder, e))?.into_url()
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}
impl IntoUrl for &String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}

// ------------------------------------------------------------------------------------------ body

type BodyStream = Pin<Box<dyn Stream<Item = std::result::Result<Bytes, BoxErr>> + Send>>;

enum BodyInner {
    Bytes(Bytes),
    Stream(std::sync::Mutex<Option<BodyStream>>),
}

pub struct Body(BodyInner);

impl Body {
    pub fn wrap_stream<S, O, E>(stream: S) -> Body
    where
        S: Stream<Item = std::result::Result<O, E>> + Send + 'static,
        E: Into<BoxErr>,
        Bytes: From<O>,
    {
        let s = stream.map(|r| r.map(Bytes::from).map_err(Into::into));
        Body(BodyInner::Stream(std::sync::Mutex::new(Some(Box::pin(s)))))
    }
    pub fn as_bytes(&self) -> Option<&[u8]> {
        match &self.0 {
            BodyInner::Bytes(b) => Some(b),
            _ => None,
        }
    }
    fn try_clone(&self) -> Option<Body> {
        match &self.0 {
            BodyInner::Bytes(b) => Some(Body(BodyInner::Bytes(b.clone()))),
            _ => None,
        }
    }
}
impl fmt::Debug for Body {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Body")
    }
}
impl From<Bytes> for Body {
    fn from(b: Bytes) -> Self {
        Body(BodyInner::Bytes(b))
    }
}
impl From<Vec<u8>> for Body {
    fn from(b: Vec<u8>) -> Self {
        Body(BodyInner::Bytes(b.into()))
    }
}
impl From<String> for Body {
    fn from(b: String) -> Self {
        Body(BodyInner::Bytes(b.into()))
    }
}
impl From<&'static str> for Body {
    fn from(b: &'static str) -> Self {
        Body(BodyInner::Bytes(Bytes::from_static(b.as_bytes())))
    }
}

// --------------------------------------------------------------------------------------- request

#[derive(Debug)]
pub struct Request {
    method: Method,
    url: Url,
    headers: header::HeaderMap,
    body: Option<Body>,
    timeout: Option<Duration>,
}

impl Request {
    pub fn new(method: Method, url: Url) -> Self {
        Request { method, url, headers: Default::default(), body: None, timeout: None }
    }
    pub fn method(&self) -> &Method {
        &self.method
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn headers(&self) -> &header::HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut header::HeaderMap {
        &mut self.headers
    }
    pub fn body(&self) -> Option<&Body> {
        self.body.as_ref()
    }
    pub fn timeout(&self) -> Option<&Duration> {
        self.timeout.as_ref()
    }
    pub fn timeout_mut(&mut self) -> &mut Option<Duration> {
        &mut self.timeout
    }
    pub fn try_clone(&self) -> Option<Request> {
        let body = match &self.body {
            Some(b) => Some(b.try_clone()?),
            None => None,
        };
        Some(Request {
            method: self.method.clone(),
            url: self.url.clone(),
            headers: self.headers.clone(),
            body,
            timeout: self.timeout,
        })
    }
}

#[derive(Debug)]
pub struct RequestBuilder {
    client: Client,
    request: Result<Request>,
}

impl RequestBuilder {
    pub fn header<K, V>(mut self, key: K, value: V) -> Self
    where
        header::HeaderName: TryFrom<K>,
        <header::HeaderName as TryFrom<K>>::Error: Into<http::Error>,
        header::HeaderValue: TryFrom<V>,
        <header::HeaderValue as TryFrom<V>>::Error: Into<http::Error>,
    {
        let parsed = header::HeaderName::try_from(key)
            .map_err(Into::into)
            .and_then(|k| Ok((k, header::HeaderValue::try_from(value).map_err(Into::into)?)));
        let mut error = None;
        if let Ok(req) = &mut self.request {
            match parsed {
                Ok((k, v)) => {
                    req.headers.append(k, v);
                }
                Err(e) => error = Some(Error::new(Kind::Builder, e)),
            }
        }
        if let Some(e) = error {
            self.request = Err(e);
        }
        self
    }
    pub fn bearer_auth<T: fmt::Display>(self, token: T) -> Self {
        self.header(header::AUTHORIZATION, format!("Bearer {token}"))
    }
    pub fn body<T: Into<Body>>(mut self, body: T) -> Self {
        if let Ok(req) = &mut self.request {
            req.body = Some(body.into());
        }
        self
    }
    pub fn timeout(mut self, timeout: Duration) -> Self {
        if let Ok(req) = &mut self.request {
            req.timeout = Some(timeout);
        }
        self
    }
    pub fn query<T: serde::Serialize + ?Sized>(mut self, query: &T) -> Self {
        if let (Ok(req), Ok(v)) = (&mut self.request, serde_json::to_value(query)) {
            let mut pairs = req.url.query_pairs_mut();
            form_pairs(&v, |k, v| {
                pairs.append_pair(k, v);
            });
        }
        self
    }
    pub fn form<T: serde::Serialize + ?Sized>(mut self, form: &T) -> Self {
        if let Ok(req) = &mut self.request {
            let v = serde_json::to_value(form).unwrap_or_default();
            let mut ser = url::form_urlencoded::Serializer::new(String::new());
            form_pairs(&v, |k, v| {
                ser.append_pair(k, v);
            });
            req.headers
                .entry(header::CONTENT_TYPE)
                .or_insert(header::HeaderValue::from_static("application/x-www-form-urlencoded"));
            req.body = Some(ser.finish().into());
        }
        self
    }
    pub fn json<T: serde::Serialize + ?Sized>(mut self, json: &T) -> Self {
        if let Ok(req) = &mut self.request {
            req.headers
                .entry(header::CONTENT_TYPE)
                .or_insert(header::HeaderValue::from_static("application/json"));
            req.body = Some(serde_json::to_vec(json).unwrap_or_default().into());
        }
        self
    }
    pub fn build(self) -> Result<Request> {
        self.request
    }
    pub fn build_split(self) -> (Client, Result<Request>) {
        (self.client, self.request)
    }
    pub fn send(self) -> impl Future<Output = Result<Response>> + Send {
        let RequestBuilder { client, request } = self;
        async move { client.execute(request?).await }
    }
}

fn form_pairs(v: &serde_json::Value, mut f: impl FnMut(&str, &str)) {
    let mut one = |k: &str, v: &serde_json::Value| match v {
        serde_json::Value::String(s) => f(k, s),
        other => f(k, &other.to_string()),
    };
    match v {
        serde_json::Value::Object(m) => m.iter().for_each(|(k, v)| one(k, v)),
        serde_json::Value::Array(a) => {
            for p in a {
                if let Some([k, v]) = p.as_array().map(|p| &p[..]) {
                    one(k.as_str().unwrap_or_default(), v);
                }
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------------------------------- client

pub mod redirect {
    use super::*;

    pub struct Policy(pub(crate) Inner);
    pub(crate) enum Inner {
        Limit(usize),
        None,
        Custom(Box<dyn Fn(Attempt) -> Action + Send + Sync>),
    }
    impl fmt::Debug for Policy {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Policy")
        }
    }
    pub struct Attempt<'a> {
        pub(crate) status: StatusCode,
        pub(crate) next: &'a Url,
        pub(crate) previous: &'a [Url],
    }
    pub struct Action(pub(crate) ActionKind);
    pub(crate) enum ActionKind {
        Follow,
        Stop,
        Error(BoxErr),
    }
    impl Policy {
        pub fn limited(max: usize) -> Self {
            Policy(Inner::Limit(max))
        }
        pub fn none() -> Self {
            Policy(Inner::None)
        }
        pub fn custom<T>(policy: T) -> Self
        where
            T: Fn(Attempt) -> Action + Send + Sync + 'static,
        {
            Policy(Inner::Custom(Box::new(policy)))
        }
        pub fn redirect(&self, attempt: Attempt) -> Action {
            match &self.0 {
                Inner::Custom(f) => f(attempt),
                Inner::Limit(max) => {
                    // The first URL in the previous is the initial URL and not a redirection.
                    if attempt.previous.len() > *max {
                        attempt.error("too many redirects")
                    } else {
                        attempt.follow()
                    }
                }
                Inner::None => attempt.stop(),
            }
        }
    }
    impl Default for Policy {
        fn default() -> Self {
            Policy::limited(10)
        }
    }
    impl<'a> Attempt<'a> {
        pub fn status(&self) -> StatusCode {
            self.status
        }
        pub fn url(&self) -> &Url {
            self.next
        }
        pub fn previous(&self) -> &[Url] {
            self.previous
        }
        pub fn follow(self) -> Action {
            Action(ActionKind::Follow)
        }
        pub fn stop(self) -> Action {
            Action(ActionKind::Stop)
        }
        pub fn error<E: Into<BoxErr>>(self, error: E) -> Action {
            Action(ActionKind::Error(error.into()))
        }
    }
}

struct Cfg {
    gzip: bool,
    deflate: bool,
    connect_timeout: Option<Duration>,
    timeout: Option<Duration>,
    invalid_certs: bool,
    redirect: redirect::Policy,
    ip_filter: Option<fn(IpAddr) -> bool>,
}

pub struct ClientBuilder(Cfg);

impl Default for ClientBuilder {
    fn default() -> Self {
        Self::new()
    }
}

impl ClientBuilder {
    pub fn new() -> Self {
        ClientBuilder(Cfg {
            gzip: cfg!(feature = "gzip"),
            deflate: cfg!(feature = "deflate"),
            connect_timeout: None,
            timeout: None,
            invalid_certs: false,
            redirect: Default::default(),
            ip_filter: None,
        })
    }
    pub fn gzip(mut self, on: bool) -> Self {
        self.0.gzip = on;
        self
    }
    pub fn deflate(mut self, on: bool) -> Self {
        self.0.deflate = on;
        self
    }
    pub fn brotli(self, _on: bool) -> Self {
        self
    }
    pub fn hickory_dns(self, _on: bool) -> Self {
        self
    }
    pub fn connect_timeout(mut self, t: Duration) -> Self {
        self.0.connect_timeout = Some(t);
        self
    }
    pub fn timeout(mut self, t: Duration) -> Self {
        self.0.timeout = Some(t);
        self
    }
    pub fn pool_idle_timeout<D: Into<Option<Duration>>>(self, _t: D) -> Self {
        self
    }
    pub fn danger_accept_invalid_certs(mut self, on: bool) -> Self {
        self.0.invalid_certs = on;
        self
    }
    pub fn redirect(mut self, policy: redirect::Policy) -> Self {
        self.0.redirect = policy;
        self
    }
    pub fn ip_filter(mut self, f: fn(IpAddr) -> bool) -> Self {
        self.0.ip_filter = Some(f);
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(Client(Arc::new(self.0)))
    }
}

#[derive(Clone)]
pub struct Client(Arc<Cfg>);

impl fmt::Debug for Client {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Client")
    }
}
impl Default for Client {
    fn default() -> Self {
        Self::new()
    }
}

impl Client {
    pub fn new() -> Self {
        ClientBuilder::new().build().unwrap()
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::new()
    }
    pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
        RequestBuilder {
            client: self.clone(),
            request: url.into_url().map(|url| Request::new(method, url)),
        }
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::POST, url)
    }
    pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::PUT, url)
    }
    pub fn head<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::HEAD, url)
    }
    pub fn execute(&self, request: Request) -> impl Future<Output = Result<Response>> + Send {
        let client = self.clone();
        async move {
            let timeout = request.timeout.or(client.0.timeout);
            let deadline = timeout.map(|t| Instant::now() + t);
            let url = request.url.clone();
            with_deadline(deadline, client.run(request, deadline))
                .await
                .map_err(|_| Error::new(Kind::Timeout, "operation timed out").with_url(url))?
        }
    }

    async fn run(&self, request: Request, deadline: Option<Instant>) -> Result<Response> {
        let Request { mut method, mut url, mut headers, mut body, .. } = request;
        let cfg = &*self.0;
        // like the real client: what the server says decides, not what was asked for
        let auto_decode = cfg.gzip || cfg.deflate;
        if !headers.contains_key(header::ACCEPT_ENCODING) && !headers.contains_key(header::RANGE) {
            let mut enc = vec![];
            if cfg.gzip {
                enc.push("gzip");
            }
            if cfg.deflate {
                enc.push("deflate");
            }
            if !enc.is_empty() {
                headers.insert(header::ACCEPT_ENCODING, enc.join(", ").parse().unwrap());
            }
        }
        headers
            .entry(header::ACCEPT)
            .or_insert(header::HeaderValue::from_static("*/*"));
        let mut previous: Vec<Url> = vec![];
        loop {
            let replay = body.as_ref().map(|b| b.try_clone());
            let mut response = self
                .once(&method, &url, &headers, body.take(), deadline)
                .await
                .map_err(|e| e.with_url(url.clone()))?;
            let status = response.status;
            let mut next_body = None;
            let redirect = match status.as_u16() {
                301 | 302 | 303 => {
                    headers.remove(header::CONTENT_LENGTH);
                    headers.remove(header::CONTENT_TYPE);
                    headers.remove(header::TRANSFER_ENCODING);
                    if method != Method::GET && method != Method::HEAD {
                        method = Method::GET;
                    }
                    true
                }
                307 | 308 => match replay {
                    None => true,
                    Some(Some(b)) => {
                        next_body = Some(b);
                        true
                    }
                    Some(None) => false,
                },
                _ => false,
            };
            let location = response
                .headers
                .get(header::LOCATION)
                .and_then(|l| l.to_str().ok())
                .and_then(|l| url.join(l).ok());
            if let (true, Some(loc)) = (redirect, location) {
                previous.push(url.clone());
                let attempt = redirect::Attempt { status, next: &loc, previous: &previous };
                match cfg.redirect.redirect(attempt).0 {
                    redirect::ActionKind::Follow => {
                        monitor::record(monitor::Event::Redirect {
                            from: url.to_string(),
                            to: loc.to_string(),
                            status: status.as_u16(),
                        });
                        if !matches!(loc.scheme(), "http" | "https") {
                            return Err(Error::new(Kind::Redirect, "URL scheme is not allowed").with_url(loc));
                        }
                        let cross = url.host_str() != loc.host_str()
                            || url.port_or_known_default() != loc.port_or_known_default();
                        if cross {
                            for h in [
                                header::AUTHORIZATION,
                                header::COOKIE,
                                header::PROXY_AUTHORIZATION,
                                header::WWW_AUTHENTICATE,
                            ] {
                                headers.remove(h);
                            }
                            headers.remove("cookie2");
                        }
                        url = loc;
                        body = next_body;
                        continue;
                    }
                    redirect::ActionKind::Stop => {}
                    redirect::ActionKind::Error(e) => {
                        return Err(Error::new(Kind::Redirect, e).with_url(url));
                    }
                }
            }
            if auto_decode {
                let enc = response.headers.get(header::CONTENT_ENCODING).map(|v| v.as_bytes().to_vec());
                let gz = match enc.as_deref() {
                    Some(b"gzip") if cfg.gzip => Some(true),
                    Some(b"deflate") if cfg.deflate => Some(false),
                    _ => None,
                };
                if let Some(gz) = gz {
                    response.headers.remove(header::CONTENT_ENCODING);
                    response.headers.remove(header::CONTENT_LENGTH);
                    response.content_length = None;
                    response.body = decode(response.body, gz);
                }
            }
            return Ok(response);
        }
    }

    async fn once(
        &self,
        method: &Method,
        url: &Url,
        headers: &header::HeaderMap,
        body: Option<Body>,
        deadline: Option<Instant>,
    ) -> Result<Response> {
        let cfg = &*self.0;
        let host = url.host_str().unwrap_or_default().to_string();
        let port = url.port_or_known_default().unwrap_or(80);
        let bare = host.trim_start_matches('[').trim_end_matches(']');
        let ips = match bare.parse::<IpAddr>() {
            Ok(ip) => vec![ip],
            Err(_) => monitor::resolve(bare),
        };
        if ips.is_empty() {
            return Err(Error::new(Kind::Request, format!("dns error: no record found for {host}")));
        }
        let allowed: Vec<IpAddr> = match cfg.ip_filter {
            Some(f) => ips.iter().copied().filter(|ip| f(*ip)).collect(),
            None => ips.clone(),
        };
        if allowed.is_empty() {
            monitor::record(monitor::Event::Filtered { host: host.clone(), ips });
            return Err(Error::new(
                Kind::Request,
                format!("destination {host} resolves to forbidden addresses only"),
            ));
        }
        let mut last: Option<BoxErr> = None;
        let mut conn = None;
        for ip in allowed {
            monitor::record(monitor::Event::Connect {
                host: host.clone(),
                ip,
                port,
                https: url.scheme() == "https",
                accept_invalid_certs: cfg.invalid_certs,
            });
            if url.scheme() == "https" && !cfg.invalid_certs && monitor::has_bad_cert(&host) {
                last = Some("certificate verify failed".into());
                continue;
            }
            let Some(addr) = monitor::connector(ip, port) else {
                last = Some("network is unreachable".into());
                continue;
            };
            let connect = TcpStream::connect(addr);
            let res = match cfg.connect_timeout {
                Some(t) => match tokio::time::timeout(t, connect).await {
                    Ok(r) => r,
                    Err(_) => return Err(Error::new(Kind::Timeout, "connect timed out")),
                },
                None => connect.await,
            };
            match res {
                Ok(s) => {
                    conn = Some(s);
                    break;
                }
                Err(e) => last = Some(e.into()),
            }
        }
        let Some(mut conn) = conn else {
            return Err(Error::new(Kind::Request, last.unwrap_or_else(|| "connect error".into())));
        };
        let _ = conn.set_nodelay(true);

        // ---- request
        let mut target = url.path().to_string();
        if let Some(q) = url.query() {
            target.push('?');
            target.push_str(q);
        }
        monitor::record(monitor::Event::Request {
            method: method.to_string(),
            url: url.to_string(),
            headers: headers
                .iter()
                .map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned()))
                .collect(),
        });
        let mut head = Vec::new();
        head.extend_from_slice(format!("{method} {target} HTTP/1.1\r\n").as_bytes());
        for (k, v) in headers {
            head.extend_from_slice(k.as_str().as_bytes());
            head.extend_from_slice(b": ");
            head.extend_from_slice(v.as_bytes());
            head.extend_from_slice(b"\r\n");
        }
        let hostport = match url.port() {
            Some(p) => format!("{host}:{p}"),
            None => host.clone(),
        };
        if !headers.contains_key(header::HOST) {
            head.extend_from_slice(format!("host: {hostport}\r\n").as_bytes());
        }
        head.extend_from_slice(b"connection: close\r\n");
        let io = |e: std::io::Error| Error::new(Kind::Request, e);
        match body.map(|b| b.0) {
            None => {
                if method == Method::POST || method == Method::PUT {
                    head.extend_from_slice(b"content-length: 0\r\n");
                }
                head.extend_from_slice(b"\r\n");
                conn.write_all(&head).await.map_err(io)?;
            }
            Some(BodyInner::Bytes(b)) => {
                head.extend_from_slice(format!("content-length: {}\r\n\r\n", b.len()).as_bytes());
                conn.write_all(&head).await.map_err(io)?;
                conn.write_all(&b).await.map_err(io)?;
            }
            Some(BodyInner::Stream(s)) => {
                head.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
                conn.write_all(&head).await.map_err(io)?;
                let mut s = s.into_inner().unwrap().expect("body already used");
                while let Some(chunk) = s.next().await {
                    let chunk = chunk.map_err(|e| Error::new(Kind::Body, e))?;
                    if chunk.is_empty() {
                        continue;
                    }
                    conn.write_all(format!("{:x}\r\n", chunk.len()).as_bytes()).await.map_err(io)?;
                    conn.write_all(&chunk).await.map_err(io)?;
                    conn.write_all(b"\r\n").await.map_err(io)?;
                }
                conn.write_all(b"0\r\n\r\n").await.map_err(io)?;
            }
        }
        conn.flush().await.map_err(io)?;

        // ---- response head
        let mut buf = BytesMut::with_capacity(16 * 1024);
        let (status, rheaders, consumed) = loop {
            if let Some(parsed) = parse_head(&buf).map_err(|e| Error::new(Kind::Request, e))? {
                if parsed.0.is_informational() {
                    let _ = buf.split_to(parsed.2);
                    continue;
                }
                break parsed;
            }
            let n = conn.read_buf(&mut buf).await.map_err(io)?;
            if n == 0 {
                return Err(Error::new(Kind::Request, "connection closed before message completed"));
            }
        };
        let _ = buf.split_to(consumed);
        let clen = match rheaders.get(header::CONTENT_LENGTH) {
            Some(v) => Some(
                v.to_str()
                    .ok()
                    .and_then(|v| v.trim().parse::<u64>().ok())
                    .ok_or_else(|| Error::new(Kind::Request, "invalid content-length parsed"))?,
            ),
            None => None,
        };
        let chunked = rheaders
            .get_all(header::TRANSFER_ENCODING)
            .iter()
            .any(|v| v.as_bytes().to_ascii_lowercase().ends_with(b"chunked"));
        let bodyless = *method == Method::HEAD
            || status == StatusCode::NO_CONTENT
            || status == StatusCode::NOT_MODIFIED;
        let framing = if bodyless {
            Framing::Length(0)
        } else if chunked {
            Framing::Chunked(ChunkState::Size)
        } else if let Some(n) = clen {
            Framing::Length(n)
        } else {
            Framing::Eof
        };
        let content_length = if bodyless && *method != Method::HEAD {
            Some(0)
        } else if chunked {
            None
        } else {
            clen
        };
        let reader = Reader { conn, buf, framing, deadline, done: false };
        let body = futures::stream::unfold(reader, |mut r| async move {
            match r.next().await {
                Some(x) => Some((x, r)),
                None => None,
            }
        });
        Ok(Response {
            status,
            headers: rheaders,
            url: url.clone(),
            content_length,
            body: Box::pin(body),
        })
    }
}

async fn with_deadline<F: Future>(d: Option<Instant>, f: F) -> std::result::Result<F::Output, ()> {
    match d {
        Some(d) => tokio::time::timeout_at(d, f).await.map_err(|_| ()),
        None => Ok(f.await),
    }
}

fn parse_head(buf: &[u8]) -> std::result::Result<Option<(StatusCode, header::HeaderMap, usize)>, BoxErr> {
    let mut hs = [httparse::EMPTY_HEADER; 96];
    let mut resp = httparse::Response::new(&mut hs);
    match resp.parse(buf)? {
        httparse::Status::Partial => Ok(None),
        httparse::Status::Complete(n) => {
            let mut map = header::HeaderMap::new();
            for h in resp.headers.iter() {
                map.append(
                    header::HeaderName::from_bytes(h.name.as_bytes())?,
                    header::HeaderValue::from_bytes(h.value)?,
                );
            }
            Ok(Some((StatusCode::from_u16(resp.code.unwrap_or(0))?, map, n)))
        }
    }
}

enum Framing {
    Length(u64),
    Chunked(ChunkState),
    Eof,
}
enum ChunkState {
    Size,
    Data(u64),
    DataEnd,
    Trailer,
}

struct Reader {
    conn: TcpStream,
    buf: BytesMut,
    framing: Framing,
    deadline: Option<Instant>,
    done: bool,
}

impl Reader {
    async fn fill(&mut self) -> Result<usize> {
        let r = with_deadline(self.deadline, self.conn.read_buf(&mut self.buf)).await;
        match r {
            Err(()) => Err(Error::new(Kind::Timeout, "operation timed out")),
            Ok(Err(e)) => Err(Error::new(Kind::Body, e)),
            Ok(Ok(n)) => Ok(n),
        }
    }
    fn line(&mut self) -> Option<BytesMut> {
        let pos = self.buf.iter().position(|b| *b == b'\n')?;
        let mut l = self.buf.split_to(pos + 1);
        l.truncate(pos);
        if l.last() == Some(&b'\r') {
            l.truncate(l.len() - 1);
        }
        Some(l)
    }
    async fn next(&mut self) -> Option<Result<Bytes>> {
        if self.done {
            return None;
        }
        let r = self.step().await;
        match &r {
            Some(Ok(_)) => {}
            _ => self.done = true,
        }
        r
    }
    async fn step(&mut self) -> Option<Result<Bytes>> {
        const MAX: usize = 64 * 1024;
        macro_rules! fill_or {
            ($msg:expr) => {
                match self.fill().await {
                    Ok(0) => return Some(Err(Error::new(Kind::Body, $msg))),
                    Ok(_) => {}
                    Err(e) => return Some(Err(e)),
                }
            };
        }
        loop {
            match &mut self.framing {
                Framing::Length(0) => return None,
                Framing::Length(n) => {
                    if !self.buf.is_empty() {
                        let k = (self.buf.len().min(MAX) as u64).min(*n);
                        *n -= k;
                        return Some(Ok(self.buf.split_to(k as usize).freeze()));
                    }
                    fill_or!("end of file before message length reached");
                }
                Framing::Eof => {
                    if !self.buf.is_empty() {
                        let k = self.buf.len().min(MAX);
                        return Some(Ok(self.buf.split_to(k).freeze()));
                    }
                    match self.fill().await {
                        Ok(0) => return None,
                        Ok(_) => {}
                        Err(e) => return Some(Err(e)),
                    }
                }
                Framing::Chunked(ChunkState::Size) => {
                    if let Some(l) = self.line() {
                        let s = String::from_utf8_lossy(&l).into_owned();
                        let s = s.split(';').next().unwrap_or("").trim().to_string();
                        match u64::from_str_radix(&s, 16) {
                            Ok(0) => self.framing = Framing::Chunked(ChunkState::Trailer),
                            Ok(n) => self.framing = Framing::Chunked(ChunkState::Data(n)),
                            Err(_) => {
                                return Some(Err(Error::new(Kind::Body, "invalid chunk size line")))
                            }
                        }
                        continue;
                    }
                    fill_or!("unexpected EOF during chunk size line");
                }
                Framing::Chunked(ChunkState::Data(0)) => {
                    self.framing = Framing::Chunked(ChunkState::DataEnd)
                }
                Framing::Chunked(ChunkState::Data(n)) => {
                    if !self.buf.is_empty() {
                        let k = (self.buf.len().min(MAX) as u64).min(*n);
                        *n -= k;
                        return Some(Ok(self.buf.split_to(k as usize).freeze()));
                    }
                    fill_or!("unexpected EOF in chunk");
                }
                Framing::Chunked(ChunkState::DataEnd) => {
                    if self.line().is_some() {
                        self.framing = Framing::Chunked(ChunkState::Size);
                        continue;
                    }
                    fill_or!("unexpected EOF after chunk");
                }
                Framing::Chunked(ChunkState::Trailer) => {
                    if let Some(l) = self.line() {
                        if l.is_empty() {
                            return None;
                        }
                        continue;
                    }
                    fill_or!("unexpected EOF in trailers");
                }
            }
        }
    }
}

// -------------------------------------------------------------------------------------- decoding

fn decode(body: ResponseStream, gz: bool) -> ResponseStream {
    enum D {
        Gz(flate2::write::MultiGzDecoder<Vec<u8>>),
        Zl(flate2::write::ZlibDecoder<Vec<u8>>),
    }
    let d = if gz {
        D::Gz(flate2::write::MultiGzDecoder::new(vec![]))
    } else {
        D::Zl(flate2::write::ZlibDecoder::new(vec![]))
    };
    let st = (body, d, false);
    Box::pin(futures::stream::unfold(st, |(mut body, mut d, done)| async move {
        use std::io::Write;
        if done {
            return None;
        }
        loop {
            match body.next().await {
                None => {
                    let r = match &mut d {
                        D::Gz(g) => g.try_finish().map(|_| std::mem::take(g.get_mut())),
                        D::Zl(z) => z.try_finish().map(|_| std::mem::take(z.get_mut())),
                    };
                    return match r {
                        Ok(v) if v.is_empty() => None,
                        Ok(v) => Some((Ok(v.into()), (body, d, true))),
                        Err(e) => Some((Err(Error::new(Kind::Decode, e)), (body, d, true))),
                    };
                }
                Some(Err(e)) => return Some((Err(e), (body, d, true))),
                Some(Ok(b)) => {
                    let r = match &mut d {
                        D::Gz(g) => g.write_all(&b).map(|_| std::mem::take(g.get_mut())),
                        D::Zl(z) => z.write_all(&b).map(|_| std::mem::take(z.get_mut())),
                    };
                    match r {
                        Ok(v) if v.is_empty() => continue,
                        Ok(v) => return Some((Ok(v.into()), (body, d, false))),
                        Err(e) => return Some((Err(Error::new(Kind::Decode, e)), (body, d, true))),
                    }
                }
            }
        }
    }))
}

// -------------------------------------------------------------------------------------- response

type ResponseStream = Pin<Box<dyn Stream<Item = Result<Bytes>> + Send>>;

pub struct Response {
    status: StatusCode,
    headers: header::HeaderMap,
    url: Url,
    content_length: Option<u64>,
    body: ResponseStream,
}

impl fmt::Debug for Response {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Response").field("url", &self.url).field("status", &self.status).finish()
    }
}

struct SyncStream(std::sync::Mutex<ResponseStream>);
impl Stream for SyncStream {
    type Item = Result<Bytes>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.0.get_mut().unwrap().as_mut().poll_next(cx)
    }
}

impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn headers(&self) -> &header::HeaderMap {
        &self.headers
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn content_length(&self) -> Option<u64> {
        self.content_length
    }
    pub fn bytes_stream(self) -> impl Stream<Item = Result<Bytes>> + Send {
        SyncStream(std::sync::Mutex::new(self.body))
    }
    pub async fn chunk(&mut self) -> Result<Option<Bytes>> {
        self.body.next().await.transpose()
    }
    pub async fn bytes(mut self) -> Result<Bytes> {
        let mut out = BytesMut::new();
        while let Some(c) = self.body.next().await {
            out.extend_from_slice(&c?);
        }
        Ok(out.freeze())
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned())
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
        let b = self.bytes().await?;
        serde_json::from_slice(&b).map_err(|e| Error::new(Kind::Decode, e))
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error::new(Kind::Request, self.status.to_string()));
        }
        Ok(self)
    }
}

#[allow(unused)]
fn _assert(a: SocketAddr) {}
