//! Requests, responses and a small XML reader, independent of the code under test.

use std::sync::atomic::{AtomicUsize, Ordering};
use crate::exec::{self, Outcome};
use bytes::Bytes;
use futures::stream;
use hyper::{Body, Request, Response};
use s3_server::S3Service;
use std::fmt::Write as _;

#[derive(Clone, Debug)]
pub enum Chunk {
    Data(Bytes),
    /// the transport fails
    Error,
    /// one poll of the body is pending
    Pending,
}

/// how a connection fails
pub const FAILURES: [std::io::ErrorKind; 8] = {
    use std::io::ErrorKind::*;
    [ConnectionReset, UnexpectedEof, BrokenPipe, TimedOut, ConnectionAborted, Interrupted, Other, InvalidData]
};
/// the one of `Chunk::Error` (index in `FAILURES`)
pub static FAILURE: AtomicUsize = AtomicUsize::new(0);

/// run with every way in which a connection fails
pub fn each_failure<E>(mut f: impl FnMut() -> Result<(), E>) -> Result<(), E> {
    for kind in 0..FAILURES.len() {
        FAILURE.store(kind, Ordering::SeqCst);
        f()?;
    }
    FAILURE.store(0, Ordering::SeqCst);
    Ok(())
}

#[derive(Clone, Debug)]
pub struct Rq {
    pub method: String,
    /// encoded path
    pub path: String,
    /// encoded query
    pub query: Option<String>,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<Chunk>,
}

pub fn enc(s: &str, keep_slash: bool) -> String {
    let mut out = String::new();
    for &b in s.as_bytes() {
        if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) || (keep_slash && b == b'/') {
            out.push(b as char);
        } else {
            let _ = write!(out, "%{b:02X}");
        }
    }
    out
}

pub fn object_path(bucket: &str, key: &str) -> String {
    format!("/{}/{}", bucket, enc(key, true))
}

impl Rq {
    pub fn new(method: &str, path: &str) -> Self {
        Rq {
            method: method.to_owned(),
            path: path.to_owned(),
            query: None,
            headers: vec![("host".into(), b"localhost".to_vec())],
            body: vec![],
        }
    }
    pub fn obj(method: &str, bucket: &str, key: &str) -> Self {
        Self::new(method, &object_path(bucket, key))
    }
    pub fn q(mut self, q: &str) -> Self {
        self.query = Some(q.to_owned());
        self
    }
    /// set the query from decoded pairs
    pub fn qs(mut self, pairs: &[(&str, &str)]) -> Self {
        let s: Vec<String> = pairs
            .iter()
            .map(|(a, b)| format!("{}={}", enc(a, false), enc(b, false)))
            .collect();
        self.query = Some(s.join("&"));
        self
    }
    pub fn h(mut self, name: &str, value: impl AsRef<[u8]>) -> Self {
        self.headers.push((name.to_owned(), value.as_ref().to_vec()));
        self
    }
    pub fn set(&mut self, name: &str, value: impl AsRef<[u8]>) {
        let v = value.as_ref().to_vec();
        for h in &mut self.headers {
            if h.0.eq_ignore_ascii_case(name) {
                h.1 = v;
                return;
            }
        }
        self.headers.push((name.to_owned(), v));
    }
    pub fn get_header(&self, name: &str) -> Option<String> {
        self.headers
            .iter()
            .find(|h| h.0.eq_ignore_ascii_case(name))
            .map(|h| String::from_utf8_lossy(&h.1).into_owned())
    }
    pub fn remove(&mut self, name: &str) {
        self.headers.retain(|h| !h.0.eq_ignore_ascii_case(name));
    }
    /// body in one chunk, with its Content-Length
    pub fn body(mut self, data: impl AsRef<[u8]>) -> Self {
        let d = Bytes::copy_from_slice(data.as_ref());
        self.set("content-length", d.len().to_string());
        self.body = if d.is_empty() {
            vec![]
        } else {
            vec![Chunk::Data(d)]
        };
        self
    }
    /// whole body
    pub fn body_bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        for c in &self.body {
            if let Chunk::Data(d) = c {
                v.extend_from_slice(d);
            }
        }
        v
    }
    /// split the body at these offsets
    pub fn split(mut self, cuts: &[usize]) -> Self {
        let data = Bytes::from(self.body_bytes());
        let mut last = 0;
        self.body = vec![];
        for &c in cuts.iter().chain(std::iter::once(&data.len())) {
            let c = c.min(data.len());
            if c > last || (c == last && c != data.len()) {
                self.body.push(Chunk::Data(data.slice(last..c)));
            }
            last = c;
        }
        self
    }
    /// n bytes per chunk
    pub fn split_every(self, n: usize) -> Self {
        let len = self.body_bytes().len();
        let cuts: Vec<usize> = (1..).map(|i| i * n).take_while(|&c| c < len).collect();
        self.split(&cuts)
    }
    pub fn uri(&self) -> String {
        match &self.query {
            Some(q) => format!("{}?{}", self.path, q),
            None => self.path.clone(),
        }
    }
    pub fn build(&self) -> Result<Request<Body>, String> {
        let mut b = Request::builder().method(self.method.as_str()).uri(self.uri());
        for (n, v) in &self.headers {
            let v = hyper::header::HeaderValue::from_bytes(v).map_err(|e| e.to_string())?;
            b = b.header(n.as_str(), v);
        }
        let body = if self.body.is_empty() {
            Body::empty()
        } else if self.body.len() == 1 && matches!(self.body[0], Chunk::Data(_)) {
            match &self.body[0] {
                Chunk::Data(d) => Body::from(d.clone()),
                _ => unreachable!(),
            }
        } else {
            let chunks = self.body.clone();
            Body::wrap_stream(ChunkStream {
                chunks: chunks.into(),
                woke: false,
            })
        };
        b.body(body).map_err(|e| e.to_string())
    }
    pub fn show(&self) -> String {
        let mut s = format!("{} {}", self.method, self.uri());
        for (n, v) in &self.headers {
            let _ = write!(s, " | {n}: {}", String::from_utf8_lossy(v).escape_debug());
        }
        let b = self.body_bytes();
        if !b.is_empty() || !self.body.is_empty() {
            let shown = String::from_utf8_lossy(&b[..b.len().min(400)]).escape_debug().to_string();
            let _ = write!(s, " | body[{} bytes, {} chunks]: {shown}", b.len(), self.body.len());
        }
        s
    }
}

pub struct ChunkStream {
    pub chunks: std::collections::VecDeque<Chunk>,
    pub woke: bool,
}

impl stream::Stream for ChunkStream {
    type Item = Result<Bytes, std::io::Error>;
    fn poll_next(
        mut self: std::pin::Pin<&mut Self>,
        cx: &mut std::task::Context<'_>,
    ) -> std::task::Poll<Option<Self::Item>> {
        use std::task::Poll;
        match self.chunks.pop_front() {
            None => Poll::Ready(None),
            Some(Chunk::Data(d)) => Poll::Ready(Some(Ok(d))),
            Some(Chunk::Error) => {
                self.chunks.clear();
                Poll::Ready(Some(Err(std::io::Error::new(FAILURES[FAILURE.load(Ordering::SeqCst)], "the connection fails"))))
            }
            Some(Chunk::Pending) => {
                crate::sched::client();
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rs {
    pub status: u16,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    pub body_err: bool,
}

impl Rs {
    pub fn header(&self, name: &str) -> Option<String> {
        self.headers
            .iter()
            .find(|h| h.0 == name)
            .map(|h| String::from_utf8_lossy(&h.1).into_owned())
    }
    pub fn header_all(&self, name: &str) -> Vec<String> {
        self.headers
            .iter()
            .filter(|h| h.0 == name)
            .map(|h| String::from_utf8_lossy(&h.1).into_owned())
            .collect()
    }
    pub fn ok(&self) -> bool {
        (200..300).contains(&self.status) && !self.body_err
    }
    pub fn xml(&self) -> Result<Xml, String> {
        parse_xml(&self.body)
    }
    /// error code of an error response
    pub fn code(&self) -> Option<String> {
        let x = self.xml().ok()?;
        if x.name != "Error" {
            return None;
        }
        x.text_of("Code")
    }
    pub fn show(&self) -> String {
        let mut s = format!("{}", self.status);
        for (n, v) in &self.headers {
            let _ = write!(s, " | {n}: {}", String::from_utf8_lossy(v).escape_debug());
        }
        let _ = write!(
            s,
            " | body[{}]{}: {}",
            self.body.len(),
            if self.body_err { " (aborted)" } else { "" },
            String::from_utf8_lossy(&self.body[..self.body.len().min(300)]).escape_debug()
        );
        s
    }
}

/// one request against the service, response body included
pub async fn send(service: &S3Service, req: Request<Body>) -> Result<Rs, String> {
    match service.hyper_call(req).await {
        Err(e) => Err(format!("the service returned no response: {e}")),
        Ok(resp) => Ok(collect(resp).await),
    }
}

pub async fn collect(resp: Response<Body>) -> Rs {
    let (parts, mut body) = resp.into_parts();
    let mut data = vec![];
    let mut body_err = false;
    use futures::StreamExt;
    while let Some(c) = body.next().await {
        match c {
            Ok(b) => data.extend_from_slice(&b),
            Err(_) => {
                body_err = true;
                break;
            }
        }
    }
    Rs {
        status: parts.status.as_u16(),
        headers: parts
            .headers
            .iter()
            .map(|(n, v)| (n.as_str().to_owned(), v.as_bytes().to_vec()))
            .collect(),
        body: data,
        body_err,
    }
}

/// run one request to completion; Err describes a panic, a hang or a missing response
pub fn call(service: &S3Service, rq: &Rq) -> Result<Rs, String> {
    let req = rq.build().map_err(|e| format!("BAD-REQUEST {e}"))?;
    match exec::run(send(service, req)) {
        Outcome::Done(Ok(rs)) => Ok(rs),
        Outcome::Done(Err(e)) => Err(e),
        Outcome::Panic(p) => Err(format!("panic: {p}")),
        Outcome::Stuck => Err("the request never completes".into()),
    }
}

// --- XML ---

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Xml {
    pub name: String,
    pub attrs: String,
    pub text: String,
    pub children: Vec<Xml>,
}

impl Xml {
    pub fn child(&self, name: &str) -> Option<&Xml> {
        self.children.iter().find(|c| c.name == name)
    }
    pub fn all<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Xml> + 'a {
        self.children.iter().filter(move |c| c.name == name)
    }
    pub fn text_of(&self, name: &str) -> Option<String> {
        self.child(name).map(|c| c.text.clone())
    }
}

pub fn xml_escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&apos;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}

pub fn parse_xml(data: &[u8]) -> Result<Xml, String> {
    let s = std::str::from_utf8(data).map_err(|_| "not utf-8".to_string())?;
    // line ends, as every XML processor reads them
    let s = &s.replace("\r\n", "\n").replace('\r', "\n");
    let mut p = P { s, i: 0 };
    p.ws();
    if p.rest().starts_with("<?xml") {
        let e = p.rest().find("?>").ok_or("unterminated declaration")?;
        p.i += e + 2;
    }
    p.ws();
    let x = p.element(0)?;
    p.ws();
    if p.i != s.len() {
        return Err(format!("content after the root element: {:?}", p.rest()));
    }
    Ok(x)
}

struct P<'a> {
    s: &'a str,
    i: usize,
}
impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn ws(&mut self) {
        let r = self.rest();
        self.i += r.len() - r.trim_start().len();
    }
    fn element(&mut self, depth: usize) -> Result<Xml, String> {
        if depth > 50 {
            return Err("too deep".into());
        }
        if !self.rest().starts_with('<') {
            return Err(format!("expected an element at {:?}", self.rest().chars().take(20).collect::<String>()));
        }
        let end = self.rest().find('>').ok_or("unterminated tag")?;
        let tag = &self.rest()[1..end];
        self.i += end + 1;
        let (tag, empty) = match tag.strip_suffix('/') {
            Some(t) => (t, true),
            None => (tag, false),
        };
        let (name, attrs) = match tag.find(char::is_whitespace) {
            Some(k) => (&tag[..k], tag[k..].trim()),
            None => (tag, ""),
        };
        let valid = |c: char| c.is_ascii_alphanumeric() || "_-:.".contains(c);
        if name.is_empty() || !name.chars().all(valid) {
            return Err(format!("bad element name {name:?}"));
        }
        let mut x = Xml {
            name: name.to_owned(),
            attrs: attrs.to_owned(),
            ..Xml::default()
        };
        if empty {
            return Ok(x);
        }
        loop {
            let r = self.rest();
            let lt = r.find('<').ok_or("unterminated element")?;
            x.text.push_str(&unescape(&r[..lt])?);
            self.i += lt;
            if self.rest().starts_with("</") {
                let end = self.rest().find('>').ok_or("unterminated tag")?;
                let close = self.rest()[2..end].trim();
                if close != x.name {
                    return Err(format!("</{close}> closes <{}>", x.name));
                }
                self.i += end + 1;
                return Ok(x);
            }
            x.children.push(self.element(depth + 1)?);
        }
    }
}

fn unescape(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut r = s;
    while let Some(k) = r.find('&') {
        o.push_str(&r[..k]);
        let e = r[k..].find(';').ok_or("bare &")?;
        let ent = &r[k + 1..k + e];
        match ent {
            "amp" => o.push('&'),
            "lt" => o.push('<'),
            "gt" => o.push('>'),
            "quot" => o.push('"'),
            "apos" => o.push('\''),
            _ => {
                let n = if let Some(h) = ent.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = ent.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                o.push(n.and_then(char::from_u32).ok_or(format!("bad entity &{ent};"))?);
            }
        }
        r = &r[k + e + 1..];
    }
    o.push_str(r);
    // characters that XML 1.0 forbids
    if let Some(c) = o.chars().find(|&c| (c as u32) < 32 && !"\t\n\r".contains(c)) {
        return Err(format!("forbidden character {c:?}"));
    }
    Ok(o)
}

pub fn md5_hex(data: &[u8]) -> String {
    use md5::Digest;
    hex(&md5::Md5::digest(data))
}

pub fn md5_raw(data: &[u8]) -> Vec<u8> {
    use md5::Digest;
    md5::Md5::digest(data).to_vec()
}

pub fn md5_b64(data: &[u8]) -> String {
    use md5::Digest;
    b64(&md5::Md5::digest(data))
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

pub fn b64(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (u32::from(c[0]) << 16)
            | (u32::from(*c.get(1).unwrap_or(&0)) << 8)
            | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..4 {
            if i <= c.len() {
                o.push(T[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

/// decode the percent encoding; `plus` also reads + as a space
pub fn pct_decode(s: &str, plus: bool) -> Option<String> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'%' => {
                let h = std::str::from_utf8(b.get(i + 1..i + 3)?).ok()?;
                o.push(u8::from_str_radix(h, 16).ok()?);
                i += 3;
                continue;
            }
            b'+' if plus => o.push(b' '),
            c => o.push(c),
        }
        i += 1;
    }
    String::from_utf8(o).ok()
}
