//! A stand-in for `sentry` 0.34: hubs and scopes exist, nothing is sent. What is captured is kept
//! for the monitor.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context as TaskContext, Poll};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub enum Level {
    Debug,
    #[default]
    Info,
    Warning,
    Error,
    Fatal,
}

pub mod protocol {
    pub type Value = serde_json::Value;
    pub type Map<K, V> = std::collections::BTreeMap<K, V>;
    #[derive(Debug, Clone)]
    pub enum Context {
        Other(Map<String, Value>),
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum SessionStatus {
        Ok,
        Exited,
        Crashed,
        Abnormal,
        Errored,
    }
}

pub mod types {
    pub use debugid::DebugId;
    #[derive(Debug, Clone, PartialEq, Eq, Hash, serde::Deserialize, serde::Serialize)]
    pub struct Dsn(pub String);
    impl std::str::FromStr for Dsn {
        type Err = std::convert::Infallible;
        fn from_str(s: &str) -> Result<Self, Self::Err> {
            Ok(Dsn(s.to_string()))
        }
    }
}

#[derive(Debug, Clone, Default)]
pub struct Scope {
    pub tags: BTreeMap<String, String>,
    pub extra: BTreeMap<String, protocol::Value>,
    pub contexts: BTreeMap<String, protocol::Context>,
    span: Option<TransactionOrSpan>,
}

impl Scope {
    pub fn set_tag<V: ToString>(&mut self, key: &str, value: V) {
        self.tags.insert(key.into(), value.to_string());
    }
    pub fn set_extra(&mut self, key: &str, value: protocol::Value) {
        self.extra.insert(key.into(), value);
    }
    pub fn set_context<C: Into<protocol::Context>>(&mut self, key: &str, value: C) {
        self.contexts.insert(key.into(), value.into());
    }
    pub fn get_span(&self) -> Option<TransactionOrSpan> {
        self.span.clone()
    }
    pub fn set_span(&mut self, span: Option<TransactionOrSpan>) {
        self.span = span;
    }
    pub fn set_transaction(&mut self, _t: Option<&str>) {}
    pub fn clear(&mut self) {
        *self = Default::default();
    }
}

#[derive(Debug, Clone)]
pub struct Transaction(Arc<TransactionContext>);
impl Transaction {
    pub fn finish(self) {}
    pub fn set_status(&self, _s: ()) {}
}
#[derive(Debug, Clone)]
pub struct TransactionOrSpan(Arc<TransactionContext>);
impl From<Transaction> for TransactionOrSpan {
    fn from(t: Transaction) -> Self {
        TransactionOrSpan(t.0)
    }
}
impl TransactionOrSpan {
    pub fn iter_headers(&self) -> impl Iterator<Item = (&'static str, String)> {
        std::iter::once(("sentry-trace", format!("{:032x}-{:016x}-1", 1, self.0.name.len())))
    }
    pub fn finish(self) {}
}
#[derive(Debug)]
pub struct TransactionContext {
    name: String,
    op: String,
}
impl TransactionContext {
    pub fn new(name: &str, op: &str) -> Self {
        TransactionContext { name: name.into(), op: op.into() }
    }
    pub fn op(&self) -> &str {
        &self.op
    }
    pub fn continue_from_span(name: &str, op: &str, _span: Option<TransactionOrSpan>) -> Self {
        Self::new(name, op)
    }
    pub fn continue_from_headers<'a, I: IntoIterator<Item = (&'a str, &'a str)>>(
        name: &str,
        op: &str,
        _headers: I,
    ) -> Self {
        Self::new(name, op)
    }
}
pub fn start_transaction(ctx: TransactionContext) -> Transaction {
    Transaction(Arc::new(ctx))
}

#[derive(Debug)]
pub struct Hub(Mutex<Vec<Scope>>, Mutex<Option<Arc<Session>>>);

/// Shared by all hubs that come from the one it was started on; ended once.
#[derive(Debug, Default)]
struct Session(Mutex<bool>);

thread_local! {
    static CURRENT: RefCell<Option<Arc<Hub>>> = const { RefCell::new(None) };
}

impl Hub {
    pub fn current() -> Arc<Hub> {
        CURRENT.with(|c| {
            c.borrow_mut()
                .get_or_insert_with(|| Arc::new(Hub(Mutex::new(vec![Scope::default()]), Default::default())))
                .clone()
        })
    }
    pub fn main() -> Arc<Hub> {
        Self::current()
    }
    pub fn new_from_top<H: AsRef<Hub>>(other: H) -> Hub {
        let top = other.as_ref().0.lock().unwrap().last().cloned().unwrap_or_default();
        let session = other.as_ref().1.lock().unwrap().clone();
        Hub(Mutex::new(vec![top]), Mutex::new(session))
    }
    pub fn push_scope(self: &Arc<Self>) -> ScopeGuard {
        let mut s = self.0.lock().unwrap();
        let top = s.last().cloned().unwrap_or_default();
        s.push(top);
        ScopeGuard(self.clone(), s.len())
    }
    pub fn start_session(&self) {
        *self.1.lock().unwrap() = Some(Default::default());
    }
    pub fn end_session_with_status(&self, status: protocol::SessionStatus) {
        if let Some(s) = self.1.lock().unwrap().take() {
            let mut over = s.0.lock().unwrap();
            if !*over {
                *over = true;
                SESSIONS.lock().unwrap().push(status);
            }
        }
    }
    pub fn configure_scope<R>(&self, f: impl FnOnce(&mut Scope) -> R) -> R {
        let mut s = self.0.lock().unwrap();
        f(s.last_mut().expect("a scope"))
    }
    pub fn run<R>(hub: Arc<Hub>, f: impl FnOnce() -> R) -> R {
        struct Restore(Option<Arc<Hub>>);
        impl Drop for Restore {
            fn drop(&mut self) {
                CURRENT.with(|c| *c.borrow_mut() = self.0.take());
            }
        }
        let _r = Restore(CURRENT.with(|c| c.borrow_mut().replace(hub)));
        f()
    }
}
impl AsRef<Hub> for Hub {
    fn as_ref(&self) -> &Hub {
        self
    }
}

#[must_use]
pub struct ScopeGuard(Arc<Hub>, usize);
impl Drop for ScopeGuard {
    fn drop(&mut self) {
        let mut s = self.0 .0.lock().unwrap();
        if s.len() != self.1 {
            ORDER.lock().unwrap().push((s.len(), self.1));
        }
        s.truncate(self.1 - 1);
    }
}

static ORDER: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
static SESSIONS: Mutex<Vec<protocol::SessionStatus>> = Mutex::new(vec![]);
static CAPTURED: Mutex<Vec<String>> = Mutex::new(vec![]);

pub mod monitor {
    /// The messages and errors captured since the last call.
    pub fn take_captured() -> Vec<String> {
        std::mem::take(&mut super::CAPTURED.lock().unwrap())
    }
    /// The status of each session ended since the last call.
    pub fn take_sessions() -> Vec<super::protocol::SessionStatus> {
        std::mem::take(&mut super::SESSIONS.lock().unwrap())
    }
    /// Scope guards dropped out of order, as (depth found, depth expected).
    pub fn take_disorder() -> Vec<(usize, usize)> {
        std::mem::take(&mut super::ORDER.lock().unwrap())
    }
}

fn keep(s: String) {
    let mut c = CAPTURED.lock().unwrap();
    if c.len() < 10_000 {
        c.push(s);
    }
}

pub fn start_session() {
    Hub::current().start_session()
}
pub fn end_session_with_status(status: protocol::SessionStatus) {
    Hub::current().end_session_with_status(status)
}
pub fn configure_scope<F, R>(f: F) -> R
where
    R: Default,
    F: FnOnce(&mut Scope) -> R,
{
    Hub::current().configure_scope(f)
}
pub fn with_scope<C, F, R>(scope_config: C, callback: F) -> R
where
    C: FnOnce(&mut Scope),
    F: FnOnce() -> R,
{
    let hub = Hub::current();
    let _g = hub.push_scope();
    hub.configure_scope(scope_config);
    callback()
}
pub fn capture_error<E: std::error::Error + ?Sized>(e: &E) {
    keep(e.to_string());
}
pub fn capture_message(msg: &str, _level: Level) {
    keep(msg.to_string());
}

pub struct SentryFuture<F> {
    hub: Arc<Hub>,
    future: F,
}
impl<F: Future> Future for SentryFuture<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut TaskContext<'_>) -> Poll<Self::Output> {
        let hub = self.hub.clone();
        // the future is structurally pinned, like in the real crate
        let future = unsafe { self.map_unchecked_mut(|s| &mut s.future) };
        Hub::run(hub, || future.poll(cx))
    }
}
pub trait SentryFutureExt: Sized {
    fn bind_hub<H: Into<Arc<Hub>>>(self, hub: H) -> SentryFuture<Self> {
        SentryFuture { future: self, hub: hub.into() }
    }
}
impl<F: Future> SentryFutureExt for F {}

pub mod integrations {
    pub mod anyhow {
        pub fn capture_anyhow(e: &::anyhow::Error) {
            crate::keep(format!("{e:#}"));
        }
    }
    pub mod tower {
        use crate::{Hub, SentryFuture, SentryFutureExt};
        use std::future::Future;
        use std::marker::PhantomData;
        use std::sync::Arc;
        use std::task::{Context, Poll};
        use tower_layer::Layer;
        use tower_service::Service;
        /// A hub of its own for each request.
        pub struct NewSentryLayer<R>(PhantomData<fn(R)>);
        impl<R> Clone for NewSentryLayer<R> {
            fn clone(&self) -> Self {
                NewSentryLayer(PhantomData)
            }
        }
        impl<R> NewSentryLayer<R> {
            pub fn new_from_top() -> Self {
                NewSentryLayer(PhantomData)
            }
        }
        pub struct SentryService<S, R>(S, PhantomData<fn(R)>);
        impl<S: Clone, R> Clone for SentryService<S, R> {
            fn clone(&self) -> Self {
                SentryService(self.0.clone(), PhantomData)
            }
        }
        impl<S, R> Layer<S> for NewSentryLayer<R> {
            type Service = SentryService<S, R>;
            fn layer(&self, inner: S) -> Self::Service {
                SentryService(inner, PhantomData)
            }
        }
        impl<S: Service<R>, R> Service<R> for SentryService<S, R> {
            type Response = S::Response;
            type Error = S::Error;
            type Future = SentryFuture<S::Future>;
            fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
                self.0.poll_ready(cx)
            }
            fn call(&mut self, req: R) -> Self::Future {
                let hub = Arc::new(Hub::new_from_top(Hub::current()));
                let future = Hub::run(hub.clone(), || self.0.call(req));
                future.bind_hub(hub)
            }
        }
        #[derive(Clone)]
        pub struct SentryHttpLayer;
        impl SentryHttpLayer {
            pub fn new() -> Self {
                SentryHttpLayer
            }
            pub fn with_transaction() -> Self {
                SentryHttpLayer
            }
        }
        #[derive(Clone)]
        pub struct SentryHttpService<S>(S);
        impl<S> Layer<S> for SentryHttpLayer {
            type Service = SentryHttpService<S>;
            fn layer(&self, inner: S) -> Self::Service {
                SentryHttpService(inner)
            }
        }
        impl<S: Service<R>, R> Service<R> for SentryHttpService<S>
        where
            S::Future: Future,
        {
            type Response = S::Response;
            type Error = S::Error;
            type Future = S::Future;
            fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
                self.0.poll_ready(cx)
            }
            fn call(&mut self, req: R) -> Self::Future {
                self.0.call(req)
            }
        }
    }
    pub mod tracing {
        pub fn layer() -> tracing_subscriber::layer::Identity {
            tracing_subscriber::layer::Identity::new()
        }
    }
}
