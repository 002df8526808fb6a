//! A stand-in for `symbolic-cfi`: the module line and the stack records of Breakpad files.
use std::fmt;
use std::io::{self, Write};
use symbolic_common::ByteView;
use symbolic_debuginfo::Object;

pub const CFICACHE_LATEST_VERSION: u32 = 2;
const MAGIC: &[u8] = b"CFIC\x02\0\0\0";

#[derive(Debug)]
pub struct CfiError(&'static str);

impl fmt::Display for CfiError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for CfiError {}

pub struct CfiCache<'a> {
    view: ByteView<'a>,
    skip: usize,
}

impl CfiCache<'static> {
    pub fn from_object(object: &Object<'_>) -> Result<Self, CfiError> {
        let mut out = vec![];
        if let Object::Breakpad(o) = object {
            let text = std::str::from_utf8(o.data()).map_err(|_| CfiError("not text"))?;
            for l in text.lines() {
                if l.starts_with("STACK CFI BROKEN") {
                    return Err(CfiError("malformed CFI"));
                }
                if l.starts_with("STACK ") || l.starts_with("MODULE ") {
                    out.extend_from_slice(l.as_bytes());
                    out.push(b'\n');
                }
            }
        }
        let mut all = MAGIC.to_vec();
        all.extend(out);
        Ok(Self { view: ByteView::from_vec(all), skip: MAGIC.len() })
    }
}

impl<'a> CfiCache<'a> {
    pub fn from_bytes(view: ByteView<'a>) -> Result<Self, CfiError> {
        if view.is_empty() {
            return Ok(Self { view, skip: 0 });
        }
        if !view.starts_with(MAGIC) {
            return Err(CfiError("not a CFI cache"));
        }
        Ok(Self { view, skip: MAGIC.len() })
    }

    pub fn as_slice(&self) -> &[u8] {
        &self.view[self.skip..]
    }

    pub fn write_to<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&self.view)
    }
}
