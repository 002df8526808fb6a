//! A stand-in for `aws-sdk-s3`: `GetObject` as an unsigned path-style request. The access key id
//! travels in the `x-access-key` header so that the server side can tell who asked.
use std::fmt;
use std::pin::Pin;
use std::task::{Context, Poll};

use aws_types::SdkConfig;
use bytes::Bytes;
use futures::{Stream, StreamExt};

#[derive(Debug, Clone)]
pub struct Client {
    http: reqwest::Client,
    conf: SdkConfig,
}
impl Client {
    pub fn new(conf: &SdkConfig) -> Self {
        Client { http: reqwest::Client::new(), conf: conf.clone() }
    }
    pub fn get_object(&self) -> GetObject {
        GetObject { client: self.clone(), bucket: String::new(), key: String::new() }
    }
}
pub struct GetObject {
    client: Client,
    bucket: String,
    key: String,
}

type BoxErr = Box<dyn std::error::Error + Send + Sync>;

#[derive(Debug)]
pub struct ByteStreamError(BoxErr);
impl fmt::Display for ByteStreamError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("streaming error")
    }
}
impl std::error::Error for ByteStreamError {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&*self.0)
    }
}

pub struct ByteStream(Pin<Box<dyn Stream<Item = Result<Bytes, ByteStreamError>> + Send>>);
impl ByteStream {
    pub fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Bytes, ByteStreamError>>> {
        self.0.as_mut().poll_next(cx)
    }
}
pub struct GetObjectOutput {
    pub content_length: Option<i64>,
    pub body: ByteStream,
}

#[derive(Debug)]
pub struct GetObjectError {
    code: String,
    message: String,
}
impl fmt::Display for GetObjectError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}: {}", self.code, self.message)
    }
}
impl std::error::Error for GetObjectError {}

#[derive(Debug)]
pub struct RawResponse(u16);
#[derive(Debug, Clone, Copy)]
pub struct RawStatus(u16);
impl RawStatus {
    pub fn as_u16(self) -> u16 {
        self.0
    }
}
impl RawResponse {
    pub fn status(&self) -> RawStatus {
        RawStatus(self.0)
    }
}

impl GetObject {
    pub fn bucket(mut self, b: impl Into<String>) -> Self {
        self.bucket = b.into();
        self
    }
    pub fn key(mut self, k: impl Into<String>) -> Self {
        self.key = k.into();
        self
    }
    pub async fn send(self) -> Result<GetObjectOutput, error::SdkError<GetObjectError>> {
        use error::SdkError;
        let region = self.client.conf.region().map(|r| r.to_string()).unwrap_or_default();
        let base = match self.client.conf.endpoint_url() {
            Some(e) => e.trim_end_matches('/').to_string(),
            None => format!("http://s3.{region}.amazonaws.com"),
        };
        let mut url = url::Url::parse(&base).map_err(|e| SdkError::ConstructionFailure(e.to_string()))?;
        url.path_segments_mut()
            .map_err(|_| SdkError::ConstructionFailure("endpoint".into()))?
            .pop_if_empty()
            .push(&self.bucket)
            .extend(self.key.split('/'));
        let mut access = String::new();
        if let Some(p) = self.client.conf.credentials_provider() {
            use aws_types_credentials::ProvideCredentials;
            match p.provide_credentials().await {
                Ok(c) => access = c.access_key_id().to_string(),
                Err(e) => return Err(SdkError::ConstructionFailure(e.to_string())),
            }
        }
        let resp = self
            .client
            .http
            .get(url)
            .header("accept-encoding", "identity")
            .header("x-access-key", access)
            .header("x-region", region)
            .send()
            .await
            .map_err(|e| {
                if e.is_timeout() {
                    SdkError::TimeoutError(e.to_string())
                } else {
                    SdkError::DispatchFailure(e.to_string())
                }
            })?;
        let status = resp.status().as_u16();
        if !resp.status().is_success() {
            let text = resp.text().await.unwrap_or_default();
            let tag = |t: &str| {
                let (open, close) = (format!("<{t}>"), format!("</{t}>"));
                let i = text.find(&open)? + open.len();
                Some(text[i..].split(&close).next().unwrap_or("").to_string())
            };
            let err = GetObjectError {
                code: tag("Code").unwrap_or_default(),
                message: tag("Message").unwrap_or_default(),
            };
            return Err(SdkError::ServiceError(error::ServiceError { raw: RawResponse(status), err }));
        }
        let content_length = resp.content_length().map(|l| l as i64);
        let body = resp.bytes_stream().map(|r| r.map_err(|e| ByteStreamError(Box::new(e))));
        Ok(GetObjectOutput { content_length, body: ByteStream(Box::pin(body)) })
    }
}

mod aws_types_credentials {
    pub use aws_credential_types::provider::ProvideCredentials;
}

#[derive(Debug)]
pub struct NoSuchBucket(String);
#[derive(Debug)]
pub struct NoSuchKey(String);
#[derive(Debug)]
pub struct NotFound(String);

#[derive(Debug)]
pub enum Error {
    NoSuchBucket(NoSuchBucket),
    NoSuchKey(NoSuchKey),
    NotFound(NotFound),
    Unhandled(Option<String>, String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::NoSuchBucket(e) => write!(f, "NoSuchBucket: {}", e.0),
            Error::NoSuchKey(e) => write!(f, "NoSuchKey: {}", e.0),
            Error::NotFound(e) => write!(f, "NotFound: {}", e.0),
            Error::Unhandled(c, m) => write!(f, "unhandled error ({}): {m}", c.as_deref().unwrap_or("")),
        }
    }
}
impl std::error::Error for Error {}
impl From<error::SdkError<GetObjectError>> for Error {
    fn from(e: error::SdkError<GetObjectError>) -> Self {
        match e {
            // GetObject models NoSuchKey only, the other codes stay unhandled
            error::SdkError::ServiceError(s) if s.err.code == "NoSuchKey" => {
                Error::NoSuchKey(NoSuchKey(s.err.message))
            }
            error::SdkError::ServiceError(s) => {
                Error::Unhandled((!s.err.code.is_empty()).then(|| s.err.code.clone()), s.err.message)
            }
            other => Error::Unhandled(None, other.to_string()),
        }
    }
}

pub mod error {
    use super::*;
    pub trait ProvideErrorMetadata {
        fn code(&self) -> Option<&str>;
        fn message(&self) -> Option<&str>;
    }
    impl ProvideErrorMetadata for GetObjectError {
        fn code(&self) -> Option<&str> {
            (!self.code.is_empty()).then_some(&*self.code)
        }
        fn message(&self) -> Option<&str> {
            (!self.message.is_empty()).then_some(&*self.message)
        }
    }
    impl ProvideErrorMetadata for Error {
        fn code(&self) -> Option<&str> {
            match self {
                Error::NoSuchBucket(_) => Some("NoSuchBucket"),
                Error::NoSuchKey(_) => Some("NoSuchKey"),
                Error::NotFound(_) => Some("NotFound"),
                Error::Unhandled(c, _) => c.as_deref(),
            }
        }
        fn message(&self) -> Option<&str> {
            match self {
                Error::NoSuchBucket(NoSuchBucket(m))
                | Error::NoSuchKey(NoSuchKey(m))
                | Error::NotFound(NotFound(m))
                | Error::Unhandled(_, m) => Some(m),
            }
        }
    }
    #[derive(Debug)]
    pub struct ServiceError<E> {
        pub(crate) raw: RawResponse,
        pub(crate) err: E,
    }
    impl<E> ServiceError<E> {
        pub fn raw(&self) -> &RawResponse {
            &self.raw
        }
        pub fn err(&self) -> &E {
            &self.err
        }
    }
    #[derive(Debug)]
    pub enum SdkError<E> {
        ConstructionFailure(String),
        TimeoutError(String),
        DispatchFailure(String),
        ServiceError(ServiceError<E>),
    }
    impl<E: fmt::Display> fmt::Display for SdkError<E> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                SdkError::ConstructionFailure(e) => write!(f, "failed to construct request: {e}"),
                SdkError::TimeoutError(e) => write!(f, "request has timed out: {e}"),
                SdkError::DispatchFailure(e) => write!(f, "dispatch failure: {e}"),
                SdkError::ServiceError(e) => write!(f, "service error: {}", e.err),
            }
        }
    }
    impl<E: fmt::Debug + fmt::Display> std::error::Error for SdkError<E> {}
}
