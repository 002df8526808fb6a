//! A stand-in for `data-url` with the API surface symbolicator uses.
pub mod forgiving_base64 {
    #[derive(Debug)]
    pub struct InvalidBase64(pub(crate) ());
}
use forgiving_base64::InvalidBase64;

#[derive(Debug)]
pub enum DataUrlError {
    NotADataUrl,
    NoComma,
}

pub struct FragmentIdentifier<'a>(pub &'a str);

pub struct DataUrl<'a> {
    base64: bool,
    body: &'a str,
}

impl<'a> DataUrl<'a> {
    pub fn process(input: &'a str) -> Result<Self, DataUrlError> {
        let rest = input.trim_start();
        let (scheme, rest) = rest.split_once(':').ok_or(DataUrlError::NotADataUrl)?;
        if !scheme.eq_ignore_ascii_case("data") {
            return Err(DataUrlError::NotADataUrl);
        }
        let (meta, body) = rest.split_once(',').ok_or(DataUrlError::NoComma)?;
        let last = meta.rsplit(';').next().unwrap_or("");
        let base64 = meta.contains(';') && last.trim().eq_ignore_ascii_case("base64");
        Ok(Self { base64, body })
    }

    pub fn decode_to_vec(&self) -> Result<(Vec<u8>, Option<FragmentIdentifier<'a>>), InvalidBase64> {
        let (body, fragment) = match self.body.split_once('#') {
            Some((b, f)) => (b, Some(FragmentIdentifier(f))),
            None => (self.body, None),
        };
        let mut bytes = vec![];
        let b = body.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let hex = (b[i] == b'%').then(|| body.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok())).flatten();
            match hex {
                Some(x) => {
                    bytes.push(x);
                    i += 3;
                }
                None => {
                    if !matches!(b[i], b'\t' | b'\n' | b'\r') {
                        bytes.push(b[i]);
                    }
                    i += 1;
                }
            }
        }
        if !self.base64 {
            return Ok((bytes, fragment));
        }
        let mut v: Vec<u8> = bytes.into_iter().filter(|b| !b.is_ascii_whitespace()).collect();
        if v.len() % 4 == 0 {
            for _ in 0..2 {
                if v.last() == Some(&b'=') {
                    v.pop();
                }
            }
        }
        if v.len() % 4 == 1 {
            return Err(InvalidBase64(()));
        }
        let (mut out, mut acc, mut bits) = (vec![], 0u32, 0);
        for c in v {
            let x = match c {
                b'A'..=b'Z' => c - b'A',
                b'a'..=b'z' => c - b'a' + 26,
                b'0'..=b'9' => c - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                _ => return Err(InvalidBase64(())),
            };
            acc = (acc << 6) | x as u32;
            bits += 6;
            if bits >= 8 {
                bits -= 8;
                out.push((acc >> bits) as u8);
            }
        }
        Ok((out, fragment))
    }
}
