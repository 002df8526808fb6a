//! A stand-in for `jsonwebtoken`: tokens are unsigned, the claims can be read back from them.
use base64::Engine;

pub mod errors {
    #[derive(Debug)]
    pub struct Error(pub(crate) String);
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Error {}
}
#[derive(Clone)]
pub struct EncodingKey(String);
impl EncodingKey {
    /// Accepts PEM, whose markers must be on lines of their own.
    pub fn from_rsa_pem(key: &[u8]) -> Result<Self, errors::Error> {
        let s = String::from_utf8_lossy(key).into_owned();
        let mut lines = s.lines().map(str::trim).filter(|l| !l.is_empty());
        let ok = lines.next().is_some_and(|l| l.starts_with("-----BEGIN ") && l.ends_with("-----"))
            && lines.last().is_some_and(|l| l.starts_with("-----END ") && l.ends_with("-----"));
        if ok {
            Ok(EncodingKey(s.lines().map(str::trim).collect::<Vec<_>>().join("\n")))
        } else {
            Err(errors::Error("InvalidKeyFormat".into()))
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Algorithm {
    RS256,
}
#[derive(Debug, Clone)]
pub struct Header(Algorithm);
impl Header {
    pub fn new(a: Algorithm) -> Self {
        Header(a)
    }
}
pub fn encode<T: serde::Serialize>(h: &Header, claims: &T, key: &EncodingKey) -> Result<String, errors::Error> {
    let e = base64::engine::general_purpose::URL_SAFE_NO_PAD;
    let claims = serde_json::to_vec(claims).map_err(|e| errors::Error(e.to_string()))?;
    Ok(format!(
        "{}.{}.{}",
        e.encode(format!("{{\"alg\":\"{:?}\"}}", h.0)),
        e.encode(claims),
        e.encode(&key.0)
    ))
}
