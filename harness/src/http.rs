//! Minimal HTTP/1.1 framing for the raw peers of the harness.
use crate::val::*;
use serde_json::{json, Value};

pub struct Head {
    pub line: Vec<u8>,
    pub headers: Vec<(Vec<u8>, Vec<u8>)>,
    pub len: usize,
}
/// Splits a message head off `buf` (None: incomplete).
pub fn head(buf: &[u8]) -> Option<Head> {
    let end = buf.windows(4).position(|w| w == b"\r\n\r\n")? + 4;
    let mut lines = buf[..end - 4].split(|b| *b == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
    let line = lines.next().unwrap_or(b"").to_vec();
    let headers = lines
        .map(|l| match l.iter().position(|b| *b == b':') {
            Some(i) => (l[..i].to_vec(), trim(&l[i + 1..]).to_vec()),
            None => (l.to_vec(), vec![]),
        })
        .collect();
    Some(Head { line, headers, len: end })
}
fn trim(mut b: &[u8]) -> &[u8] {
    while let [b' ' | b'\t', r @ ..] = b {
        b = r;
    }
    while let [r @ .., b' ' | b'\t'] = b {
        b = r;
    }
    b
}
impl Head {
    pub fn content_lengths(&self) -> Vec<i64> {
        self.headers
            .iter()
            .filter(|(k, _)| k.eq_ignore_ascii_case(b"content-length"))
            .map(|(_, v)| String::from_utf8_lossy(v).parse().unwrap_or(-1))
            .collect()
    }
    pub fn content_length(&self) -> usize {
        self.content_lengths().first().map_or(0, |x| *x.max(&0) as usize)
    }
    pub fn log_headers(&self) -> Value {
        Value::Array(
            self.headers
                .iter()
                .map(|(k, v)| json!([bytes_json(k), bytes_json(v)]))
                .collect(),
        )
    }
    /// (method, target, version) or (version, status, reason)
    pub fn parts(&self) -> (String, Vec<u8>, String) {
        let mut it = self.line.splitn(2, |b| *b == b' ');
        let a = String::from_utf8_lossy(it.next().unwrap_or(b"")).into_owned();
        let rest = it.next().unwrap_or(b"");
        let i = rest.iter().rposition(|b| *b == b' ').unwrap_or(rest.len());
        let last = if i < rest.len() { &rest[i + 1..] } else { b"" as &[u8] };
        (a, rest[..i].to_vec(), String::from_utf8_lossy(last).into_owned())
    }
    pub fn status(&self) -> i64 {
        let mut it = self.line.split(|b| *b == b' ');
        it.next();
        it.next().and_then(|s| String::from_utf8_lossy(s).parse().ok()).unwrap_or(-1)
    }
}
