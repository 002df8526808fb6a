//! A stand-in for the part of `axum` 0.7 that Symbolicator uses. There is no server: the monitor
//! hands a request to the router and gets the response.
use bytes::Bytes;
use futures::future::BoxFuture;
use futures::stream::{BoxStream, Stream, StreamExt};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::BTreeMap;
use std::convert::Infallible;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use tower_layer::Layer;
use tower_service::Service;

pub mod http {
    pub use ::http::*;
}
use http::{header, request::Parts, HeaderValue, Method, Request, StatusCode};

type Response = http::Response<Body>;
pub type BoxError = Box<dyn std::error::Error + Send + Sync>;

#[derive(Debug)]
pub struct Error(BoxError);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl std::error::Error for Error {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.0.source()
    }
}

pub mod body {
    pub use super::Body;
}
pub struct Body(BoxStream<'static, Result<Bytes, Error>>);
impl fmt::Debug for Body {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Body")
    }
}
impl Body {
    pub fn empty() -> Self {
        Body(futures::stream::empty().boxed())
    }
    pub fn new(data: impl Into<Bytes>) -> Self {
        let data = data.into();
        Body(futures::stream::once(async move { Ok(data) }).boxed())
    }
    pub fn from_stream<S, O, E>(stream: S) -> Self
    where
        S: Stream<Item = Result<O, E>> + Send + 'static,
        O: Into<Bytes>,
        E: Into<BoxError>,
    {
        Body(stream.map(|r| r.map(Into::into).map_err(|e| Error(e.into()))).boxed())
    }
    pub async fn bytes(mut self, limit: Option<usize>) -> Result<Vec<u8>, Option<Error>> {
        let mut all = vec![];
        while let Some(chunk) = self.0.next().await {
            all.extend_from_slice(&chunk.map_err(Some)?);
            if limit.is_some_and(|l| all.len() > l) {
                return Err(None);
            }
        }
        Ok(all)
    }
}
impl From<Vec<u8>> for Body {
    fn from(v: Vec<u8>) -> Self {
        Body::new(v)
    }
}
impl From<String> for Body {
    fn from(v: String) -> Self {
        Body::new(v)
    }
}
impl From<&'static str> for Body {
    fn from(v: &'static str) -> Self {
        Body::new(v)
    }
}

pub mod response {
    pub use super::Json;
    pub type Response = super::Response;
    pub trait IntoResponse {
        fn into_response(self) -> Response;
    }
}
use response::IntoResponse;

fn text(status: StatusCode, s: impl Into<String>) -> Response {
    let mut r = http::Response::new(Body::new(s.into()));
    *r.status_mut() = status;
    r.headers_mut().insert(header::CONTENT_TYPE, HeaderValue::from_static("text/plain; charset=utf-8"));
    r
}
impl IntoResponse for Response {
    fn into_response(self) -> Response {
        self
    }
}
impl IntoResponse for &'static str {
    fn into_response(self) -> Response {
        text(StatusCode::OK, self)
    }
}
impl IntoResponse for String {
    fn into_response(self) -> Response {
        text(StatusCode::OK, self)
    }
}
impl IntoResponse for StatusCode {
    fn into_response(self) -> Response {
        let mut r = http::Response::new(Body::empty());
        *r.status_mut() = self;
        r
    }
}
impl<T: IntoResponse> IntoResponse for (StatusCode, T) {
    fn into_response(self) -> Response {
        let mut r = self.1.into_response();
        *r.status_mut() = self.0;
        r
    }
}
impl<T: IntoResponse, E: IntoResponse> IntoResponse for Result<T, E> {
    fn into_response(self) -> Response {
        match self {
            Ok(t) => t.into_response(),
            Err(e) => e.into_response(),
        }
    }
}

#[derive(Debug, Clone, Copy, Default)]
pub struct Json<T>(pub T);
impl<T: Serialize> IntoResponse for Json<T> {
    fn into_response(self) -> Response {
        match serde_json::to_vec(&self.0) {
            Ok(v) => {
                let mut r = http::Response::new(Body::new(v));
                r.headers_mut().insert(header::CONTENT_TYPE, HeaderValue::from_static("application/json"));
                r
            }
            Err(e) => text(StatusCode::INTERNAL_SERVER_ERROR, e.to_string()),
        }
    }
}

#[derive(Clone, Copy)]
struct Limit(Option<usize>);
#[derive(Clone)]
struct PathParams(Vec<(String, String)>);

fn limit(parts: &Parts) -> Option<usize> {
    parts.extensions.get::<Limit>().unwrap_or(&Limit(Some(2 * 1024 * 1024))).0
}

/// Both kinds of extractors of the real crate: `body` is taken by the one that needs it.
pub trait FromRequest<S>: Sized + Send {
    fn take<'a>(parts: &'a mut Parts, body: &'a mut Option<Body>, state: &'a S) -> BoxFuture<'a, Result<Self, Response>>;
}

pub mod extract {
    pub use super::{DefaultBodyLimit, FromRequest, Json, Path, Query, State};
    #[cfg(feature = "multipart")]
    pub use multipart::Multipart;
    pub mod multipart {
        pub use crate::{Field, Multipart, MultipartError};
    }
    pub type Request = http::Request<crate::Body>;
}

#[derive(Debug, Clone, Copy)]
pub struct State<S>(pub S);
impl<S: Clone + Send + Sync + 'static> FromRequest<S> for State<S> {
    fn take<'a>(_: &'a mut Parts, _: &'a mut Option<Body>, state: &'a S) -> BoxFuture<'a, Result<Self, Response>> {
        Box::pin(async move { Ok(State(state.clone())) })
    }
}

/// What comes as text and is deserialized as a text or a number, like in `serde_urlencoded`.
struct Text(String);
macro_rules! parsed {
    ($($f:ident $v:ident,)*) => {$(
        fn $f<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
            v.$v(self.0.parse().map_err(serde::de::Error::custom)?)
        }
    )*};
}
impl<'de> serde::Deserializer<'de> for Text {
    type Error = serde::de::value::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_string(self.0)
    }
    parsed! {
        deserialize_bool visit_bool, deserialize_u8 visit_u8, deserialize_u16 visit_u16, deserialize_u32 visit_u32,
        deserialize_u64 visit_u64, deserialize_i8 visit_i8, deserialize_i16 visit_i16, deserialize_i32 visit_i32,
        deserialize_i64 visit_i64, deserialize_f32 visit_f32, deserialize_f64 visit_f64,
    }
    fn deserialize_option<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_some(self)
    }
    fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Self::Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: serde::de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Self::Error> {
        v.visit_enum(serde::de::value::StringDeserializer::new(self.0))
    }
    serde::forward_to_deserialize_any! {
        char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
impl<'de> serde::de::IntoDeserializer<'de, serde::de::value::Error> for Text {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}

#[derive(Debug, Clone, Copy, Default)]
pub struct Query<T>(pub T);
impl<S: Sync, T: DeserializeOwned + Send + 'static> FromRequest<S> for Query<T> {
    fn take<'a>(parts: &'a mut Parts, _: &'a mut Option<Body>, _: &'a S) -> BoxFuture<'a, Result<Self, Response>> {
        let pairs = form_urlencoded::parse(parts.uri.query().unwrap_or("").as_bytes()).map(|(k, v)| (k.into_owned(), Text(v.into_owned())));
        let r = T::deserialize(serde::de::value::MapDeserializer::new(pairs));
        Box::pin(async move { r.map(Query).map_err(|e| text(StatusCode::BAD_REQUEST, format!("Failed to deserialize query string: {e}"))) })
    }
}

#[derive(Debug, Clone, Copy, Default)]
pub struct Path<T>(pub T);
impl<S: Sync, T: DeserializeOwned + Send + 'static> FromRequest<S> for Path<T> {
    fn take<'a>(parts: &'a mut Parts, _: &'a mut Option<Body>, _: &'a S) -> BoxFuture<'a, Result<Self, Response>> {
        let p = parts.extensions.get::<PathParams>().cloned().unwrap_or(PathParams(vec![]));
        Box::pin(async move {
            let bad = |e: String| text(StatusCode::BAD_REQUEST, format!("Invalid URL: {e}"));
            let raw = p.0.into_iter().next().map(|(_, v)| v).ok_or_else(|| bad("no parameter".into()))?;
            let v = percent_encoding::percent_decode_str(&raw).decode_utf8().map_err(|e| bad(e.to_string()))?.into_owned();
            T::deserialize(Text(v)).map(Path).map_err(|e| bad(e.to_string()))
        })
    }
}

impl<S: Sync> FromRequest<S> for Request<Body> {
    fn take<'a>(parts: &'a mut Parts, body: &'a mut Option<Body>, _: &'a S) -> BoxFuture<'a, Result<Self, Response>> {
        Box::pin(async move { Ok(Request::from_parts(parts.clone(), body.take().unwrap_or_else(Body::empty))) })
    }
}

fn too_large() -> Response {
    text(StatusCode::PAYLOAD_TOO_LARGE, "Failed to buffer the request body: length limit exceeded")
}

impl<S: Sync, T: DeserializeOwned + Send + 'static> FromRequest<S> for Json<T> {
    fn take<'a>(parts: &'a mut Parts, body: &'a mut Option<Body>, _: &'a S) -> BoxFuture<'a, Result<Self, Response>> {
        Box::pin(async move {
            let ct = parts.headers.get(header::CONTENT_TYPE).and_then(|v| v.to_str().ok()).unwrap_or("");
            let essence = ct.split(';').next().unwrap_or("").trim().to_ascii_lowercase();
            if essence != "application/json" && !(essence.starts_with("application/") && essence.ends_with("+json")) {
                return Err(text(StatusCode::UNSUPPORTED_MEDIA_TYPE, "Expected request with `Content-Type: application/json`"));
            }
            let data = body.take().unwrap_or_else(Body::empty).bytes(limit(parts)).await;
            let data = data.map_err(|e| e.map_or_else(too_large, |e| text(StatusCode::BAD_REQUEST, e.to_string())))?;
            serde_json::from_slice(&data).map(Json).map_err(|e| {
                let status = if e.is_data() { StatusCode::UNPROCESSABLE_ENTITY } else { StatusCode::BAD_REQUEST };
                text(status, e.to_string())
            })
        })
    }
}

#[derive(Debug)]
pub struct MultipartError(String, StatusCode);
impl MultipartError {
    pub fn status(&self) -> StatusCode {
        self.1
    }
    pub fn body_text(&self) -> String {
        self.0.clone()
    }
}
impl fmt::Display for MultipartError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Error parsing `multipart/form-data` request: {}", self.0)
    }
}
impl std::error::Error for MultipartError {}
impl IntoResponse for MultipartError {
    fn into_response(self) -> Response {
        text(self.1, self.0)
    }
}

/// The data of the body arrives in chunks that have nothing to do with its parts; what is read and
/// not yet told is kept.
pub struct Multipart {
    body: BoxStream<'static, Result<Bytes, Error>>,
    boundary: Vec<u8>,
    buf: Vec<u8>,
    read: usize,
    limit: Option<usize>,
    begun: bool,
    in_field: bool,
    over: bool,
}
fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}
impl Multipart {
    fn err<T>(&self, s: &str) -> Result<T, MultipartError> {
        Err(MultipartError(s.into(), StatusCode::BAD_REQUEST))
    }
    async fn more(&mut self) -> Result<(), MultipartError> {
        match self.body.next().await {
            None => self.err("incomplete multipart stream"),
            Some(Err(e)) => self.err(&e.to_string()),
            Some(Ok(b)) => {
                self.read += b.len();
                if self.limit.is_some_and(|l| self.read > l) {
                    return Err(MultipartError("length limit exceeded".into(), StatusCode::PAYLOAD_TOO_LARGE));
                }
                self.buf.extend_from_slice(&b);
                Ok(())
            }
        }
    }
    async fn chunk(&mut self) -> Result<Option<Bytes>, MultipartError> {
        if !self.in_field {
            return Ok(None);
        }
        let mut end = b"\r\n--".to_vec();
        end.extend_from_slice(&self.boundary);
        loop {
            match find(&self.buf, &end) {
                Some(0) => {
                    self.buf.drain(..2);
                    self.in_field = false;
                    return Ok(None);
                }
                Some(n) => return Ok(Some(self.buf.drain(..n).collect::<Vec<u8>>().into())),
                None if self.buf.len() > end.len() => {
                    let n = self.buf.len() - end.len();
                    return Ok(Some(self.buf.drain(..n).collect::<Vec<u8>>().into()));
                }
                None => self.more().await?,
            }
        }
    }
    pub async fn next_field(&mut self) -> Result<Option<Field<'_>>, MultipartError> {
        while self.chunk().await?.is_some() {}
        if self.over {
            return Ok(None);
        }
        let mut start = b"--".to_vec();
        start.extend_from_slice(&self.boundary);
        while self.buf.len() < start.len() + 2 {
            self.more().await?;
        }
        if !self.begun {
            // what is before the first boundary does not matter
            while find(&self.buf, &start).is_none() {
                self.more().await?;
            }
            let n = find(&self.buf, &start).unwrap();
            self.buf.drain(..n);
            self.begun = true;
            while self.buf.len() < start.len() + 2 {
                self.more().await?;
            }
        }
        if !self.buf.starts_with(&start) {
            return self.err("no boundary");
        }
        if self.buf[start.len()..].starts_with(b"--") {
            self.over = true;
            return Ok(None);
        }
        if !self.buf[start.len()..].starts_with(b"\r\n") {
            return self.err("no line end after the boundary");
        }
        let head = loop {
            match find(&self.buf, b"\r\n\r\n") {
                Some(n) => break n,
                None => self.more().await?,
            }
        };
        let lines = String::from_utf8_lossy(&self.buf[start.len() + 2..head.max(start.len() + 2)]).into_owned();
        // the two bytes before the data stay, so that an empty part ends like any other
        self.buf.drain(..head + 2);
        self.buf.drain(..2);
        let mut name = None;
        let mut headers = BTreeMap::new();
        for l in lines.split("\r\n") {
            let Some((k, v)) = l.split_once(':') else { continue };
            let k = k.trim().to_ascii_lowercase();
            if k == "content-disposition" {
                for p in v.split(';').skip(1) {
                    if let Some(n) = p.trim().strip_prefix("name=") {
                        name = Some(n.trim_matches('"').to_string());
                    }
                }
            }
            headers.insert(k, v.trim().to_string());
        }
        self.in_field = true;
        if self.buf.starts_with(&start) {
            // a part without data
            self.in_field = false;
        }
        Ok(Some(Field { multipart: self, name, headers }))
    }
}
impl<S: Sync> FromRequest<S> for Multipart {
    fn take<'a>(parts: &'a mut Parts, body: &'a mut Option<Body>, _: &'a S) -> BoxFuture<'a, Result<Self, Response>> {
        Box::pin(async move {
            let ct = parts.headers.get(header::CONTENT_TYPE).and_then(|v| v.to_str().ok()).unwrap_or("");
            let boundary = ct.strip_prefix("multipart/form-data").and_then(|r| {
                r.split(';').find_map(|p| p.trim().strip_prefix("boundary=")).map(|b| b.trim_matches('"').as_bytes().to_vec())
            });
            let Some(boundary) = boundary else {
                return Err(text(StatusCode::BAD_REQUEST, "Invalid `boundary` for `multipart/form-data` request"));
            };
            Ok(Multipart {
                body: body.take().unwrap_or_else(Body::empty).0,
                boundary,
                buf: vec![],
                read: 0,
                limit: limit(parts),
                begun: false,
                in_field: false,
                over: false,
            })
        })
    }
}

pub struct Field<'a> {
    multipart: &'a mut Multipart,
    name: Option<String>,
    headers: BTreeMap<String, String>,
}
impl Field<'_> {
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn file_name(&self) -> Option<&str> {
        let d = self.headers.get("content-disposition")?;
        d.split(';').find_map(|p| p.trim().strip_prefix("filename=")).map(|f| f.trim_matches('"'))
    }
    pub fn content_type(&self) -> Option<&str> {
        self.headers.get("content-type").map(|s| s.as_str())
    }
    pub async fn chunk(&mut self) -> Result<Option<Bytes>, MultipartError> {
        self.multipart.chunk().await
    }
    pub async fn bytes(mut self) -> Result<Bytes, MultipartError> {
        let mut all = vec![];
        while let Some(c) = self.chunk().await? {
            all.extend_from_slice(&c);
        }
        Ok(all.into())
    }
}
impl<'a> Stream for Field<'a> {
    type Item = Result<Bytes, MultipartError>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        // nothing of a chunk is lost when the future is dropped: what is read is kept before it is
        // told
        let this = &mut *self;
        let mut f = Box::pin(this.multipart.chunk());
        f.as_mut().poll(cx).map(|r| r.transpose())
    }
}

type BoxedHandler<S> = Arc<dyn Fn(Request<Body>, S) -> BoxFuture<'static, Response> + Send + Sync>;

pub trait Handler<T, S>: Clone + Send + Sync + 'static {
    fn boxed(self) -> BoxedHandler<S>;
}
macro_rules! handlers {
    ($(($($t:ident)*))*) => {$(
        #[allow(non_snake_case, unused_variables, unused_mut)]
        impl<Fun, Fut, R, S, $($t,)*> Handler<(Fut, R, $($t,)*), S> for Fun
        where
            Fun: Fn($($t,)*) -> Fut + Clone + Send + Sync + 'static,
            Fut: Future<Output = R> + Send + 'static,
            R: IntoResponse + 'static,
            S: Clone + Send + Sync + 'static,
            $($t: FromRequest<S> + 'static,)*
        {
            fn boxed(self) -> BoxedHandler<S> {
                Arc::new(move |req, state| {
                    let this = self.clone();
                    Box::pin(async move {
                        let (mut parts, body) = req.into_parts();
                        let mut body = Some(body);
                        $(let $t = match $t::take(&mut parts, &mut body, &state).await {
                            Ok(v) => v,
                            Err(r) => return r,
                        };)*
                        this($($t,)*).await.into_response()
                    })
                })
            }
        }
    )*};
}
handlers! { () (A) (A B) (A B C) (A B C D) (A B C D E) }

#[derive(Debug, Clone, Copy)]
pub struct DefaultBodyLimit(Limit);
impl fmt::Debug for Limit {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl DefaultBodyLimit {
    pub fn max(n: usize) -> Self {
        DefaultBodyLimit(Limit(Some(n)))
    }
    pub fn disable() -> Self {
        DefaultBodyLimit(Limit(None))
    }
}
#[derive(Clone)]
pub struct DefaultBodyLimitService<S>(S, Limit);
impl<S> Layer<S> for DefaultBodyLimit {
    type Service = DefaultBodyLimitService<S>;
    fn layer(&self, inner: S) -> Self::Service {
        DefaultBodyLimitService(inner, self.0)
    }
}
impl<S: Service<Request<Body>>> Service<Request<Body>> for DefaultBodyLimitService<S> {
    type Response = S::Response;
    type Error = S::Error;
    type Future = S::Future;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
        self.0.poll_ready(cx)
    }
    fn call(&mut self, mut req: Request<Body>) -> S::Future {
        req.extensions_mut().insert(self.1);
        self.0.call(req)
    }
}

/// A service all layers are around.
#[derive(Clone)]
pub struct Route(Arc<dyn Fn(Request<Body>) -> BoxFuture<'static, Result<Response, Infallible>> + Send + Sync>);
impl Service<Request<Body>> for Route {
    type Response = Response;
    type Error = Infallible;
    type Future = BoxFuture<'static, Result<Response, Infallible>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, req: Request<Body>) -> Self::Future {
        (self.0)(req)
    }
}
fn layered<L>(layer: &L, route: Route) -> Route
where
    L: Layer<Route>,
    L::Service: Service<Request<Body>, Response = Response, Error = Infallible> + Clone + Send + Sync + 'static,
    <L::Service as Service<Request<Body>>>::Future: Send + 'static,
{
    let service = layer.layer(route);
    Route(Arc::new(move |req| {
        let mut service = service.clone();
        Box::pin(async move {
            std::future::poll_fn(|cx| service.poll_ready(cx)).await?;
            service.call(req).await
        })
    }))
}

type Wrap = Arc<dyn Fn(Route) -> Route + Send + Sync>;
pub struct MethodRouter<S = ()> {
    methods: Vec<(Method, BoxedHandler<S>)>,
    layers: Vec<Wrap>,
}
impl<S: Clone + Send + Sync + 'static> MethodRouter<S> {
    fn on<T, H: Handler<T, S>>(mut self, m: Method, h: H) -> Self {
        assert!(self.methods.iter().all(|(n, _)| *n != m), "Overlapping method route");
        self.methods.push((m, h.boxed()));
        self
    }
    pub fn get<T, H: Handler<T, S>>(self, h: H) -> Self {
        self.on(Method::GET, h)
    }
    pub fn head<T, H: Handler<T, S>>(self, h: H) -> Self {
        self.on(Method::HEAD, h)
    }
    pub fn post<T, H: Handler<T, S>>(self, h: H) -> Self {
        self.on(Method::POST, h)
    }
    pub fn put<T, H: Handler<T, S>>(self, h: H) -> Self {
        self.on(Method::PUT, h)
    }
    pub fn delete<T, H: Handler<T, S>>(self, h: H) -> Self {
        self.on(Method::DELETE, h)
    }
    pub fn layer<L>(mut self, layer: L) -> Self
    where
        L: Layer<Route> + Send + Sync + 'static,
        L::Service: Service<Request<Body>, Response = Response, Error = Infallible> + Clone + Send + Sync + 'static,
        <L::Service as Service<Request<Body>>>::Future: Send + 'static,
    {
        self.layers.push(Arc::new(move |r| layered(&layer, r)));
        self
    }
    fn route(&self, state: S) -> Route {
        let methods = self.methods.clone();
        let mut route = Route(Arc::new(move |req: Request<Body>| {
            let asked = req.method().clone();
            let find = |m: &Method| methods.iter().find(|(n, _)| n == m).map(|(_, h)| h.clone());
            let direct = find(&asked);
            let strip = direct.is_none() && asked == Method::HEAD;
            let handler = direct.or_else(|| if strip { find(&Method::GET) } else { None });
            let state = state.clone();
            let allow = methods.iter().map(|(m, _)| m.as_str()).collect::<Vec<_>>().join(",");
            Box::pin(async move {
                let Some(h) = handler else {
                    let mut r = StatusCode::METHOD_NOT_ALLOWED.into_response();
                    r.headers_mut().insert(header::ALLOW, HeaderValue::from_str(&allow).unwrap());
                    return Ok(r);
                };
                let mut r = h(req, state).await;
                if strip {
                    *r.body_mut() = Body::empty();
                }
                Ok(r)
            })
        }));
        for l in &self.layers {
            route = l(route);
        }
        route
    }
}

pub mod routing {
    pub use super::{MethodRouter, Router};
    use super::{Handler, Method};
    fn none<S>() -> MethodRouter<S> {
        MethodRouter { methods: vec![], layers: vec![] }
    }
    pub fn get<T, S: Clone + Send + Sync + 'static, H: Handler<T, S>>(h: H) -> MethodRouter<S> {
        none().on(Method::GET, h)
    }
    pub fn head<T, S: Clone + Send + Sync + 'static, H: Handler<T, S>>(h: H) -> MethodRouter<S> {
        none().on(Method::HEAD, h)
    }
    pub fn post<T, S: Clone + Send + Sync + 'static, H: Handler<T, S>>(h: H) -> MethodRouter<S> {
        none().on(Method::POST, h)
    }
}

enum Target<S> {
    Open(MethodRouter<S>),
    Ready(Route),
}
pub struct Router<S = ()> {
    routes: Vec<(String, Target<S>, Vec<Wrap>)>,
    fallback: Vec<Wrap>,
}
impl<S: Clone + Send + Sync + 'static> Default for Router<S> {
    fn default() -> Self {
        Self::new()
    }
}
impl<S: Clone + Send + Sync + 'static> Router<S> {
    pub fn new() -> Self {
        Router { routes: vec![], fallback: vec![] }
    }
    pub fn route(mut self, path: &str, m: MethodRouter<S>) -> Self {
        assert!(path.starts_with('/'), "Paths must start with a `/`");
        assert!(self.routes.iter().all(|(p, _, _)| p != path), "Overlapping route {path}");
        self.routes.push((path.into(), Target::Open(m), vec![]));
        self
    }
    pub fn merge(mut self, other: Router<S>) -> Self {
        self.routes.extend(other.routes);
        self
    }
    pub fn with_state<S2>(self, state: S) -> Router<S2> {
        let routes = self.routes.into_iter().map(|(p, t, l)| {
            let r = match t {
                Target::Open(m) => m.route(state.clone()),
                Target::Ready(r) => r,
            };
            (p, Target::Ready(r), l)
        });
        Router { routes: routes.collect(), fallback: self.fallback }
    }
    /// Around all routes added before.
    pub fn layer<L>(mut self, layer: L) -> Self
    where
        L: Layer<Route> + Send + Sync + 'static,
        L::Service: Service<Request<Body>, Response = Response, Error = Infallible> + Clone + Send + Sync + 'static,
        <L::Service as Service<Request<Body>>>::Future: Send + 'static,
    {
        let w: Wrap = Arc::new(move |r| layered(&layer, r));
        for r in &mut self.routes {
            r.2.push(w.clone());
        }
        self.fallback.push(w);
        self
    }
}

fn matches(pattern: &str, path: &str) -> Option<Vec<(String, String)>> {
    let mut found = vec![];
    let (mut a, mut b) = (pattern[1..].split('/'), path.get(1..)?);
    loop {
        match a.next() {
            None => return None,
            Some(seg) if seg.starts_with('*') => {
                if b.is_empty() {
                    return None;
                }
                found.push((seg[1..].to_string(), b.to_string()));
                return Some(found);
            }
            Some(seg) => {
                let (here, rest) = b.split_once('/').map_or((b, None), |(h, r)| (h, Some(r)));
                if let Some(name) = seg.strip_prefix(':') {
                    if here.is_empty() {
                        return None;
                    }
                    found.push((name.to_string(), here.to_string()));
                } else if seg != here {
                    return None;
                }
                match rest {
                    Some(r) => b = r,
                    None => return if a.next().is_none() { Some(found) } else { None },
                }
            }
        }
    }
}

impl Router<()> {
    /// Answers one request, the way the server would.
    pub fn respond(&self, mut req: Request<Body>) -> BoxFuture<'static, Response> {
        let path = req.uri().path().to_string();
        let target = self.routes.iter().find_map(|(p, t, l)| matches(p, &path).map(|m| (t, l, m)));
        let mut route = match target {
            None => {
                let mut r = Route(Arc::new(|_| Box::pin(async { Ok(StatusCode::NOT_FOUND.into_response()) })));
                for l in &self.fallback {
                    r = l(r);
                }
                r
            }
            Some((t, layers, params)) => {
                req.extensions_mut().insert(PathParams(params));
                let mut r = match t {
                    Target::Ready(r) => r.clone(),
                    Target::Open(m) => m.route(()),
                };
                for l in layers {
                    r = l(r);
                }
                r
            }
        };
        Box::pin(async move {
            match route.call(req).await {
                Ok(r) => r,
                Err(e) => match e {},
            }
        })
    }
}
