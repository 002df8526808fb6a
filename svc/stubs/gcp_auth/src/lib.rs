//! A stand-in for `gcp_auth`: tokens come from the monitor.
use std::future::Future;
use std::path::Path;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

#[derive(Debug)]
pub enum Error {
    NoAuthMethod(Box<Error>, Box<Error>, Box<Error>),
    Str(&'static str),
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::NoAuthMethod(..) => f.write_str("no available authentication method found"),
            Error::Str(s) => f.write_str(s),
        }
    }
}
impl std::error::Error for Error {}

#[derive(Debug)]
pub struct Token(String);
impl Token {
    pub fn as_str(&self) -> &str {
        &self.0
    }
}

static FAIL: Mutex<bool> = Mutex::new(false);
pub mod monitor {
    pub fn set_failing(on: bool) {
        *super::FAIL.lock().unwrap() = on;
    }
}

type BoxFut<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;

pub trait TokenProvider: Send + Sync {
    fn token<'a>(&'a self, scopes: &'a [&'a str]) -> BoxFut<'a, Result<Arc<Token>, Error>>;
}
pub struct CustomServiceAccount;
impl CustomServiceAccount {
    pub fn from_file(p: impl AsRef<Path>) -> Result<Self, Error> {
        match std::fs::read(p) {
            Ok(_) => Ok(CustomServiceAccount),
            Err(_) => Err(Error::Str("could not read the service account file")),
        }
    }
}
impl TokenProvider for CustomServiceAccount {
    fn token<'a>(&'a self, _scopes: &'a [&'a str]) -> BoxFut<'a, Result<Arc<Token>, Error>> {
        Box::pin(async {
            if *FAIL.lock().unwrap() {
                return Err(Error::Str("no token"));
            }
            Ok(Arc::new(Token("shared-cache-token".into())))
        })
    }
}
pub async fn provider() -> Result<Arc<dyn TokenProvider>, Error> {
    Ok(Arc::new(CustomServiceAccount))
}
