//! The real file system storage behind the real service, its reference model, and the comparison.

use crate::api::{self, md5_b64, md5_hex, Chunk, Rq, Rs};
use crate::report::{Cx, Fail, R};
use crate::{ensure, fail};
use bytes::Bytes;
use s3_server::storages::fs::FileSystem;
use s3_server::S3Service;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub type Meta = BTreeMap<String, String>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Obj {
    pub data: Vec<u8>,
    pub meta: Meta,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Upload {
    pub bucket: String,
    pub key: String,
    pub parts: BTreeMap<i64, Vec<u8>>,
    pub meta: Meta,
    pub done: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Model {
    pub buckets: BTreeMap<String, BTreeMap<String, Obj>>,
    pub uploads: Vec<Upload>,
}

pub struct World {
    pub dir: PathBuf,
    pub root: PathBuf,
    pub svc: S3Service,
    pub ids: Vec<String>,
}

impl World {
    pub fn new(dir: &Path) -> World {
        let root = dir.join("root");
        std::fs::create_dir_all(&root).expect("root directory");
        World {
            dir: dir.to_owned(),
            svc: S3Service::new(FileSystem::new(&root).expect("root")),
            root,
            ids: vec![],
        }
    }
    /// as after a restart of the process
    pub fn restart(&mut self) {
        self.svc = S3Service::new(FileSystem::new(&self.root).expect("root"));
    }
    pub fn call(&self, rq: &Rq) -> Result<Rs, Fail> {
        api::call(&self.svc, rq).map_err(|e| Fail::from(format!("{}: {e}", rq.show())))
    }
    /// the files below the root
    pub fn tree(&self) -> Vec<(String, Option<Vec<u8>>)> {
        let mut out = vec![];
        walk(&self.root, &self.root, &mut out);
        out.sort();
        out
    }
    /// the files below the root, with random names replaced
    pub fn canonical_tree(&self) -> Vec<(String, Option<Vec<u8>>)> {
        let mut t: Vec<_> = self
            .tree()
            .into_iter()
            .map(|(p, d)| {
                let mut p = p;
                for (i, id) in self.ids.iter().enumerate() {
                    p = p.replace(id.as_str(), &format!("U{i}"));
                }
                (p, d)
            })
            .collect();
        t.sort();
        t
    }
}

fn walk(root: &Path, dir: &Path, out: &mut Vec<(String, Option<Vec<u8>>)>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        let rel = p.strip_prefix(root).unwrap().to_string_lossy().into_owned();
        if e.file_type().map_or(false, |t| t.is_dir()) {
            out.push((rel, None));
            walk(root, &p, out);
        } else {
            out.push((rel, Some(std::fs::read(&p).unwrap_or_default())));
        }
    }
}

/// deterministic content
pub fn content(seed: u8, len: usize) -> Vec<u8> {
    let mut x = u32::from(seed).wrapping_mul(2_654_435_761).wrapping_add(12345);
    (0..len)
        .map(|i| {
            if i % 251 == 0 {
                return seed.wrapping_add((i / 251) as u8);
            }
            x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
            (x >> 24) as u8
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Md5 {
    None,
    Good,
    /// of other content
    Bad,
    Invalid,
    /// the right one with one bit flipped
    Flip(usize),
    /// only the first bytes of the right one
    Cut(usize),
    /// more bytes after the right one
    Long(usize),
    /// the right one, in hexadecimal
    Hex,
    /// the right one in base64, without its last characters
    Chars(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tag {
    None,
    /// of the part as the client uploaded it last
    Good,
    Unquoted,
    /// of other content
    Bad,
    /// the right one with one digit altered
    Flip(usize),
    /// only the first digits of the right one
    Cut(usize),
    /// the right one followed by more digits
    Long(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    CreateBucket(String),
    DeleteBucket(String),
    Put {
        b: String,
        k: String,
        data: Vec<u8>,
        meta: Vec<(String, String)>,
        md5: Md5,
        /// bytes per chunk (0: one chunk)
        split: usize,
        /// the transport fails after this many bytes
        abort: Option<usize>,
    },
    Delete {
        b: String,
        k: String,
    },
    MultiDelete {
        b: String,
        ks: Vec<String>,
        quiet: bool,
    },
    Copy {
        sb: String,
        sk: String,
        db: String,
        dk: String,
        slash: bool,
        /// MetadataDirective: REPLACE with this metadata
        replace: Option<Vec<(String, String)>>,
    },
    CreateUpload {
        b: String,
        k: String,
        meta: Vec<(String, String)>,
    },
    Part {
        u: usize,
        b: String,
        k: String,
        n: i64,
        data: Vec<u8>,
        md5: Md5,
        abort: Option<usize>,
    },
    Complete {
        u: usize,
        b: String,
        k: String,
        parts: Vec<(i64, Tag)>,
    },
    Get {
        b: String,
        k: String,
    },
    List {
        b: String,
    },
    /// of the process (`step` only)
    Restart,
}

pub fn put(b: &str, k: &str, data: &[u8]) -> Op {
    Op::Put {
        b: b.into(),
        k: k.into(),
        data: data.to_vec(),
        meta: vec![],
        md5: Md5::None,
        split: 0,
        abort: None,
    }
}

pub fn put_meta(b: &str, k: &str, data: &[u8], meta: &[(&str, &str)]) -> Op {
    Op::Put {
        b: b.into(),
        k: k.into(),
        data: data.to_vec(),
        meta: meta.iter().map(|(a, b)| ((*a).into(), (*b).into())).collect(),
        md5: Md5::None,
        split: 0,
        abort: None,
    }
}

pub fn short(op: &Op) -> String {
    match op {
        Op::CreateBucket(b) => format!("create({b})"),
        Op::DeleteBucket(b) => format!("deleteBucket({b})"),
        Op::Put { b, k, data, meta, md5, split, abort } => {
            let mut s = format!("put({b}/{k},{}B:{}", data.len(), &md5_hex(data)[..4]);
            if !meta.is_empty() {
                s.push_str(&format!(",meta={meta:?}"));
            }
            if *md5 != Md5::None {
                s.push_str(&format!(",md5={md5:?}"));
            }
            if *split != 0 {
                s.push_str(&format!(",chunks of {split}"));
            }
            if let Some(a) = abort {
                s.push_str(&format!(",abort@{a}"));
            }
            s + ")"
        }
        Op::Delete { b, k } => format!("delete({b}/{k})"),
        Op::MultiDelete { b, ks, quiet } => format!("deleteObjects({b},{ks:?},quiet={quiet})"),
        Op::Copy { sb, sk, db, dk, slash, replace } => format!(
            "copy({sb}/{sk} -> {db}/{dk}{}{})",
            if *slash { ", leading slash" } else { "" },
            replace.as_ref().map_or(String::new(), |m| format!(", replace metadata {m:?}"))
        ),
        Op::CreateUpload { b, k, meta } => format!("createUpload({b}/{k},meta={meta:?})"),
        Op::Part { u, b, k, n, data, md5, abort } => {
            format!("part(#{u} {b}/{k} n={n},{}B:{},{md5:?},{abort:?})", data.len(), &md5_hex(data)[..4])
        }
        Op::Complete { u, b, k, parts } => format!("complete(#{u} {b}/{k} {parts:?})"),
        Op::Get { b, k } => format!("get({b}/{k})"),
        Op::List { b } => format!("list({b})"),
        Op::Restart => "restart".to_owned(),
    }
}

pub fn show(ops: &[Op]) -> String {
    ops.iter().map(short).collect::<Vec<_>>().join("; ")
}

/// what a response must look like
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Expect {
    /// success; the ETag, if it is checked
    Ok { etag: Option<String> },
    /// error with this status and code
    Err(u16, &'static str),
    /// any error
    AnyErr,
    /// error or success without effect
    Any,
}

fn body_chunks(data: &[u8], split: usize, abort: Option<usize>) -> Vec<Chunk> {
    let b = Bytes::copy_from_slice(data);
    let end = abort.unwrap_or(data.len()).min(data.len());
    let step = if split == 0 { end.max(1) } else { split };
    let mut v = vec![];
    let mut i = 0;
    while i < end {
        let j = (i + step).min(end);
        v.push(Chunk::Data(b.slice(i..j)));
        if split != 0 {
            v.push(Chunk::Pending);
            // a piece without data
            v.push(Chunk::Data(Bytes::new()));
        }
        i = j;
    }
    if abort.is_some() {
        v.push(Chunk::Error);
    }
    v
}

fn set_md5(rq: &mut Rq, md5: &Md5, data: &[u8]) {
    match md5 {
        Md5::None => {}
        Md5::Good => rq.set("content-md5", md5_b64(data)),
        Md5::Bad => {
            let mut d = data.to_vec();
            d.push(b'!');
            rq.set("content-md5", md5_b64(&d));
        }
        Md5::Invalid => rq.set("content-md5", "abc"),
        Md5::Flip(_) | Md5::Cut(_) | Md5::Long(_) => {
            let mut d = api::md5_raw(data);
            match *md5 {
                Md5::Flip(i) => d[i / 8] ^= 1 << (i % 8),
                Md5::Cut(n) => d.truncate(n),
                Md5::Long(n) => {
                    let more = d.clone();
                    d.extend(more.iter().cycle().take(n));
                }
                _ => {}
            }
            rq.set("content-md5", api::b64(&d));
        }
        Md5::Hex => rq.set("content-md5", md5_hex(data)),
        Md5::Chars(n) => {
            let t = md5_b64(data);
            rq.set("content-md5", &t[..(*n).min(t.len())]);
        }
    }
}

pub fn copy_source(b: &str, k: &str, slash: bool) -> String {
    format!("{}{}/{}", if slash { "/" } else { "" }, b, api::enc(k, true))
}

/// the request of an operation
pub fn request(op: &Op, ids: &[String], model: &Model) -> Rq {
    let id = |u: usize| ids.get(u).cloned().unwrap_or_else(|| "00000000-0000-4000-8000-000000000000".into());
    match op {
        Op::Restart => unreachable!("no request"),
        Op::CreateBucket(b) => Rq::new("PUT", &format!("/{b}")),
        Op::DeleteBucket(b) => Rq::new("DELETE", &format!("/{b}")),
        Op::Put { b, k, data, meta, md5, split, abort } => {
            let mut rq = Rq::obj("PUT", b, k).h("content-length", data.len().to_string());
            for (n, v) in meta {
                rq = rq.h(&format!("x-amz-meta-{n}"), v);
            }
            set_md5(&mut rq, md5, data);
            rq.body = body_chunks(data, *split, *abort);
            rq
        }
        Op::Delete { b, k } => Rq::obj("DELETE", b, k),
        Op::MultiDelete { b, ks, quiet } => {
            let mut x = String::from("<Delete xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\">");
            for k in ks {
                x.push_str(&format!("<Object><Key>{}</Key></Object>", api::xml_escape(k)));
            }
            if *quiet {
                x.push_str("<Quiet>true</Quiet>");
            }
            x.push_str("</Delete>");
            Rq::new("POST", &format!("/{b}")).q("delete").body(x)
        }
        Op::Copy { sb, sk, db, dk, slash, replace } => {
            let mut rq = Rq::obj("PUT", db, dk)
                .h("content-length", "0")
                .h("x-amz-copy-source", copy_source(sb, sk, *slash));
            if let Some(meta) = replace {
                rq = rq.h("x-amz-metadata-directive", "REPLACE");
                for (n, v) in meta {
                    rq = rq.h(&format!("x-amz-meta-{n}"), v);
                }
            }
            rq
        }
        Op::CreateUpload { b, k, meta } => {
            let mut rq = Rq::obj("POST", b, k).q("uploads=");
            for (n, v) in meta {
                rq = rq.h(&format!("x-amz-meta-{n}"), v);
            }
            rq
        }
        Op::Part { u, b, k, n, data, md5, abort } => {
            let mut rq = Rq::obj("PUT", b, k)
                .qs(&[("partNumber", &n.to_string()), ("uploadId", &id(*u))])
                .h("content-length", data.len().to_string());
            set_md5(&mut rq, md5, data);
            rq.body = body_chunks(data, 0, *abort);
            rq
        }
        Op::Complete { u, b, k, parts } => {
            let mut x = String::from("<CompleteMultipartUpload>");
            for (n, t) in parts {
                let data = model.uploads.get(*u).and_then(|u| u.parts.get(n));
                let md5 = md5_hex(data.map_or(b"none", |d| d));
                let tag = match t {
                    Tag::None => String::new(),
                    Tag::Good => format!("<ETag>&quot;{md5}&quot;</ETag>"),
                    Tag::Unquoted => format!("<ETag>{md5}</ETag>"),
                    Tag::Flip(i) => {
                        let c = if &md5[*i..=*i] == "0" { "f" } else { "0" };
                        format!("<ETag>&quot;{}{c}{}&quot;</ETag>", &md5[..*i], &md5[*i + 1..])
                    }
                    Tag::Cut(n) => format!("<ETag>&quot;{}&quot;</ETag>", &md5[..*n]),
                    Tag::Long(n) => format!("<ETag>&quot;{md5}{}&quot;</ETag>", &md5[..*n]),
                    Tag::Bad => format!("<ETag>&quot;{}&quot;</ETag>", md5_hex(b"something else")),
                };
                x.push_str(&format!("<Part>{tag}<PartNumber>{n}</PartNumber></Part>"));
            }
            x.push_str("</CompleteMultipartUpload>");
            Rq::obj("POST", b, k).qs(&[("uploadId", &id(*u))]).body(x)
        }
        Op::Get { b, k } => Rq::obj("GET", b, k),
        Op::List { b } => Rq::new("GET", &format!("/{b}")),
    }
}

/// conflicts of `k` with the other keys: one is the path of a directory of the other
pub fn conflicts<'a>(keys: impl IntoIterator<Item = &'a String>, k: &str) -> bool {
    let k = k.trim_end_matches('/');
    keys.into_iter().any(|o| {
        let o = o.trim_end_matches('/');
        o != k && (o.starts_with(&format!("{k}/")) || k.starts_with(&format!("{o}/")))
    })
}

/// the reference semantics: expected response, and the effect on the model
pub fn apply(m: &mut Model, op: &Op) -> Expect {
    const NO_BUCKET: Expect = Expect::Err(404, "NoSuchBucket");
    const NO_KEY: Expect = Expect::Err(404, "NoSuchKey");
    const NO_UPLOAD: Expect = Expect::Err(404, "NoSuchUpload");
    let ok = Expect::Ok { etag: None };
    let tagged = |d: &[u8]| Expect::Ok { etag: Some(format!("\"{}\"", md5_hex(d))) };
    match op {
        Op::Restart => Expect::Any,
        Op::CreateBucket(b) => {
            if m.buckets.contains_key(b) {
                return Expect::Err(409, "BucketAlreadyExists");
            }
            m.buckets.insert(b.clone(), BTreeMap::new());
            ok
        }
        Op::DeleteBucket(b) => match m.buckets.get(b) {
            None => NO_BUCKET,
            Some(x) if !x.is_empty() => Expect::Err(409, "BucketNotEmpty"),
            Some(_) => {
                m.buckets.remove(b);
                ok
            }
        },
        Op::Put { b, k, data, meta, md5, abort, .. } => {
            let bucket = match m.buckets.get_mut(b) {
                None => return NO_BUCKET,
                Some(x) => x,
            };
            if abort.is_some() {
                return Expect::AnyErr;
            }
            match md5 {
                Md5::None | Md5::Good => {}
                Md5::Bad | Md5::Flip(_) => return Expect::Err(400, "BadDigest"),
                Md5::Invalid => return Expect::Err(400, "InvalidDigest"),
                _ => return Expect::AnyErr,
            }
            bucket.insert(
                k.clone(),
                Obj { data: data.clone(), meta: meta.iter().cloned().collect() },
            );
            if k.ends_with('/') {
                // a directory marker has no ETag
                return ok;
            }
            tagged(data)
        }
        Op::Delete { b, k } => match m.buckets.get_mut(b) {
            None => NO_BUCKET,
            Some(x) => {
                x.remove(k);
                ok
            }
        },
        Op::MultiDelete { b, ks, .. } => match m.buckets.get_mut(b) {
            None => NO_BUCKET,
            Some(x) => {
                for k in ks {
                    x.remove(k);
                }
                ok
            }
        },
        Op::Copy { sb, sk, db, dk, replace, .. } => {
            if !m.buckets.contains_key(db) {
                return NO_BUCKET;
            }
            let src = match m.buckets.get(sb).and_then(|x| x.get(sk)) {
                None if !m.buckets.contains_key(sb) => return Expect::AnyErr,
                None => return NO_KEY,
                Some(o) => o.clone(),
            };
            let src = match replace {
                Some(meta) => Obj { data: src.data, meta: meta.iter().cloned().collect() },
                None => src,
            };
            let e = tagged(&src.data);
            m.buckets.get_mut(db).unwrap().insert(dk.clone(), src);
            e
        }
        Op::CreateUpload { b, k, meta } => {
            if !m.buckets.contains_key(b) {
                return NO_BUCKET;
            }
            m.uploads.push(Upload {
                bucket: b.clone(),
                key: k.clone(),
                parts: BTreeMap::new(),
                meta: meta.iter().cloned().collect(),
                done: false,
            });
            ok
        }
        Op::Part { u, b, k, n, data, md5, abort } => {
            let bucket_exists = m.buckets.contains_key(b);
            let up = match m.uploads.get_mut(*u) {
                Some(x) if !x.done && x.bucket == *b && x.key == *k => x,
                _ if !bucket_exists => return Expect::AnyErr,
                _ => return NO_UPLOAD,
            };
            if abort.is_some() {
                return Expect::AnyErr;
            }
            match md5 {
                Md5::None | Md5::Good => {}
                Md5::Bad | Md5::Flip(_) => return Expect::Err(400, "BadDigest"),
                Md5::Invalid => return Expect::Err(400, "InvalidDigest"),
                _ => return Expect::AnyErr,
            }
            if !bucket_exists {
                // the bucket of the upload is gone: nothing can become of the part
                up.parts.insert(*n, data.clone());
                return Expect::Any;
            }
            up.parts.insert(*n, data.clone());
            tagged(data)
        }
        Op::Complete { u, b, k, parts } => {
            if !m.buckets.contains_key(b) {
                return Expect::AnyErr;
            }
            let up = match m.uploads.get_mut(*u) {
                Some(x) if !x.done && x.bucket == *b && x.key == *k => x,
                _ => return NO_UPLOAD,
            };
            if parts.is_empty() {
                return Expect::AnyErr;
            }
            let ascending = parts.windows(2).all(|w| w[0].0 < w[1].0);
            let invalid = parts.iter().any(|(n, t)| !up.parts.contains_key(n) || matches!(t, Tag::Bad | Tag::Flip(_) | Tag::Cut(_) | Tag::Long(_)));
            if !ascending && invalid {
                return Expect::AnyErr;
            }
            if !ascending {
                return Expect::Err(400, "InvalidPartOrder");
            }
            if invalid {
                return Expect::Err(400, "InvalidPart");
            }
            let data: Vec<u8> = parts.iter().flat_map(|(n, _)| up.parts[n].clone()).collect();
            up.done = true;
            up.parts.clear();
            let meta = std::mem::take(&mut up.meta);
            m.buckets
                .get_mut(b)
                .unwrap()
                .insert(k.clone(), Obj { data, meta });
            ok
        }
        Op::Get { .. } | Op::List { .. } => Expect::Any,
    }
}

pub fn check_error(what: &str, rs: &Rs) -> R {
    let x = match rs.xml() {
        Ok(x) => x,
        Err(e) => fail!("{what}: malformed error body ({e}): {}", rs.show()),
    };
    ensure!(x.name == "Error", "{what}: the error body is no Error element: {}", rs.show());
    ensure!(
        x.text_of("Code").map_or(false, |c| !c.is_empty()),
        "{what}: no error code: {}",
        rs.show()
    );
    Ok(())
}

pub fn check_expect(what: &str, rs: &Rs, expect: &Expect) -> R {
    match expect {
        Expect::Ok { .. } => ensure!(rs.ok(), "{what}: expected success, got {}", rs.show()),
        Expect::Err(status, code) => {
            ensure!(rs.status >= 300, "{what}: expected {status} {code}, got {}", rs.show());
            check_error(what, rs)?;
            ensure!(
                rs.status == *status && rs.code().as_deref() == Some(code),
                "{what}: expected {status} {code}, got {}",
                rs.show()
            );
        }
        Expect::AnyErr => {
            ensure!(rs.status >= 400, "{what}: expected an error, got {}", rs.show());
            check_error(what, rs)?;
        }
        Expect::Any => {}
    }
    Ok(())
}

/// run one operation on the implementation and on the model, and compare
pub fn step(cx: &mut Cx, w: &mut World, m: &mut Model, op: &Op) -> R {
    if *op == Op::Restart {
        w.restart();
        return Ok(());
    }
    let rq = request(op, &w.ids, m);
    let rs = w.call(&rq)?;
    cx.add("transitions", 1);
    judge(&mut w.ids, m, op, &rs)
}

/// compare the response of an operation with the model, which makes the step, too
pub fn judge(ids: &mut Vec<String>, m: &mut Model, op: &Op, rs: &Rs) -> R {
    let before = m.clone();
    let what = short(op);
    let expect = apply(m, op);
    match op {
        Op::Get { b, k } => return check_get(&before, b, k, rs),
        Op::List { b } => return check_list(&before, b, "", rs, false),
        _ => {}
    }
    check_expect(&what, rs, &expect)?;
    if expect == Expect::Any {
        return Ok(());
    }
    if let Expect::Ok { etag } = &expect {
        let got = match op {
            Op::Copy { .. } => {
                let x = rs.xml().map_err(|e| format!("{what}: {e}: {}", rs.show()))?;
                ensure!(x.name == "CopyObjectResult", "{what}: {}", rs.show());
                x.text_of("ETag")
            }
            _ => rs.header("etag"),
        };
        if let Some(t) = etag {
            ensure!(got.as_ref() == Some(t), "{what}: ETag is {got:?}, the content has {t}");
        }
        match op {
            Op::CreateUpload { b, k, .. } => {
                let x = rs.xml().map_err(|e| format!("{what}: {e}: {}", rs.show()))?;
                let id = x.text_of("UploadId").unwrap_or_default();
                ensure!(!id.is_empty() && !ids.contains(&id), "{what}: upload id {id:?}: {}", rs.show());
                ensure!(
                    x.text_of("Bucket").as_ref() == Some(b) && x.text_of("Key").as_ref() == Some(k),
                    "{what}: {}",
                    rs.show()
                );
                ids.push(id);
            }
            Op::Complete { b, k, .. } => {
                let x = rs.xml().map_err(|e| format!("{what}: {e}: {}", rs.show()))?;
                ensure!(
                    x.text_of("Bucket").as_ref() == Some(b) && x.text_of("Key").as_ref() == Some(k),
                    "{what}: {}",
                    rs.show()
                );
                let got = x.text_of("ETag");
                let want = format!("\"{}\"", md5_hex(&m.buckets[b][k].data));
                ensure!(
                    got.as_deref().map_or(false, |g| g.trim_matches('"') == want.trim_matches('"')),
                    "{what}: ETag is {got:?}, the content has {want}"
                );
            }
            Op::MultiDelete { ks, quiet, .. } => {
                let x = rs.xml().map_err(|e| format!("{what}: {e}: {}", rs.show()))?;
                ensure!(x.name == "DeleteResult", "{what}: {}", rs.show());
                ensure!(x.child("Error").is_none(), "{what}: {}", rs.show());
                let mut got: Vec<String> = x.all("Deleted").filter_map(|d| d.text_of("Key")).collect();
                let mut want = ks.clone();
                got.sort();
                want.sort();
                if !*quiet {
                    ensure!(got == want, "{what}: reports {got:?} as deleted");
                } else {
                    ensure!(got == want || got.is_empty(), "{what}: reports {got:?} as deleted");
                }
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn check_get(m: &Model, b: &str, k: &str, rs: &Rs) -> R {
    let what = format!("GET {b}/{k}");
    let obj = match m.buckets.get(b).and_then(|x| x.get(k)) {
        None => {
            ensure!(rs.status == 404, "{what}: the object does not exist, got {}", rs.show());
            let code = rs.code();
            let want: &[&str] = if m.buckets.contains_key(b) {
                &["NoSuchKey"]
            } else {
                &["NoSuchKey", "NoSuchBucket"]
            };
            ensure!(
                code.as_deref().map_or(false, |c| want.contains(&c)),
                "{what}: expected {want:?}, got {}",
                rs.show()
            );
            return Ok(());
        }
        Some(o) => o,
    };
    ensure!(rs.status == 200 && !rs.body_err, "{what}: the object exists, got {}", rs.show());
    if rs.body != obj.data {
        let at = rs.body.iter().zip(&obj.data).position(|(a, b)| a != b);
        fail!(
            "{what}: wrong content: {} bytes instead of {}, first difference at {at:?} of the common part",
            rs.body.len(),
            obj.data.len()
        );
    }
    check_object_headers(&what, obj, rs, !k.ends_with('/'))
}

pub fn meta_of(rs: &Rs) -> Meta {
    rs.headers
        .iter()
        .filter_map(|(n, v)| {
            n.strip_prefix("x-amz-meta-")
                .map(|n| (n.to_owned(), String::from_utf8_lossy(v).into_owned()))
        })
        .collect()
}

fn check_object_headers(what: &str, obj: &Obj, rs: &Rs, etag: bool) -> R {
    let len = rs.header("content-length");
    ensure!(
        len.as_deref() == Some(obj.data.len().to_string().as_str()),
        "{what}: Content-Length {len:?} of {} bytes",
        obj.data.len()
    );
    if etag {
        let want = format!("\"{}\"", md5_hex(&obj.data));
        ensure!(
            rs.header("etag") == Some(want.clone()),
            "{what}: ETag {:?} instead of {want}",
            rs.header("etag")
        );
    }
    let meta = meta_of(rs);
    ensure!(meta == obj.meta, "{what}: metadata {meta:?} instead of {:?}", obj.meta);
    Ok(())
}

pub fn check_list(m: &Model, b: &str, prefix: &str, rs: &Rs, v2: bool) -> R {
    let what = format!("List{} {b} prefix={prefix:?}", if v2 { "V2" } else { "" });
    let objs = match m.buckets.get(b) {
        None => return check_expect(&what, rs, &Expect::Err(404, "NoSuchBucket")),
        Some(o) => o,
    };
    ensure!(rs.ok(), "{what}: {}", rs.show());
    let x = rs.xml().map_err(|e| format!("{what}: {e}: {}", rs.show()))?;
    ensure!(x.name == "ListBucketResult", "{what}: {}", rs.show());
    ensure!(x.text_of("Name").as_deref() == Some(b), "{what}: Name {:?}", x.text_of("Name"));
    let got: Vec<(String, String)> = x
        .all("Contents")
        .map(|c| {
            (
                c.text_of("Key").unwrap_or_default(),
                c.text_of("Size").unwrap_or_default(),
            )
        })
        .collect();
    let mut want: Vec<(String, String)> = objs
        .iter()
        .filter(|(k, _)| k.starts_with(prefix) && !k.ends_with('/'))
        .map(|(k, o)| (k.clone(), o.data.len().to_string()))
        .collect();
    want.sort();
    ensure!(got == want, "{what}: lists {got:?} instead of {want:?}");
    if v2 {
        let n = x.text_of("KeyCount");
        ensure!(
            n == Some(want.len().to_string()),
            "{what}: KeyCount {n:?} of {} keys",
            want.len()
        );
    }
    ensure!(
        x.text_of("IsTruncated").map_or(true, |t| t == "false"),
        "{what}: claims to be truncated"
    );
    Ok(())
}

/// seconds since 1970 of a civil time given by its numbers
fn seconds(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> i64 {
    let y = if mo <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let doy = (153 * (mo + if mo > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let yoe = y.rem_euclid(400);
    let days = era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468;
    days * 86_400 + h * 3_600 + mi * 60 + s
}

/// the time of an HTTP date, `Sun, 06 Nov 1994 08:49:37 GMT`
pub fn http_time(t: &str) -> Option<i64> {
    let f: Vec<&str> = t.split([' ', ':']).collect();
    if f.len() != 8 || f[7] != "GMT" {
        return None;
    }
    let mo = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
        .iter()
        .position(|m| *m == f[2])?;
    let n = |i: usize| f[i].parse::<i64>().ok();
    Some(seconds(n(3)?, mo as i64 + 1, n(1)?, n(4)?, n(5)?, n(6)?))
}

/// the time (to the second) of an XML dateTime, `1994-11-06T08:49:37.5+01:00`
pub fn xml_time(t: &str) -> Option<i64> {
    if !t.is_ascii() || t.len() < 20 {
        return None;
    }
    let n = |a: usize, b: usize| t[a..b].parse::<i64>().ok();
    let mut rest = &t[19..];
    if let Some(r) = rest.strip_prefix('.') {
        rest = r.trim_start_matches(|c: char| c.is_ascii_digit());
    }
    let off = match rest {
        "Z" => 0,
        r if r.len() == 6 && matches!(r.as_bytes()[0], b'+' | b'-') => {
            let m = r[1..3].parse::<i64>().ok()? * 60 + r[4..6].parse::<i64>().ok()?;
            if r.starts_with('-') { -m } else { m }
        }
        _ => return None,
    };
    Some(seconds(n(0, 4)?, n(5, 7)?, n(8, 10)?, n(11, 13)?, n(14, 16)?, n(17, 19)?) - off * 60)
}

/// the times of modification a listing shows
pub fn listed_times(rs: &Rs) -> Result<BTreeMap<String, Option<i64>>, Fail> {
    let x = rs.xml().map_err(|e| format!("List: {e}: {}", rs.show()))?;
    Ok(x.all("Contents")
        .map(|c| {
            let t = c.text_of("LastModified").and_then(|t| xml_time(&t));
            (c.text_of("Key").unwrap_or_default(), t)
        })
        .collect())
}

/// compare everything a client can see of these buckets and keys with the model
pub fn observe(cx: &mut Cx, w: &World, m: &Model, buckets: &[&str], keys: &[&str]) -> R {
    let rs = w.call(&Rq::new("GET", "/"))?;
    let x = rs.xml().map_err(|e| format!("ListBuckets: {e}: {}", rs.show()))?;
    let mut got: Vec<String> = x
        .child("Buckets")
        .into_iter()
        .flat_map(|b| b.all("Bucket"))
        .filter_map(|b| b.text_of("Name"))
        .collect();
    got.sort();
    let want: Vec<String> = m.buckets.keys().cloned().collect();
    ensure!(rs.ok() && got == want, "ListBuckets: {got:?} instead of {want:?}");
    // (not the clock that the service sees)
    let now = unsafe { libc::time(std::ptr::null_mut()) };
    for b in x.child("Buckets").into_iter().flat_map(|b| b.all("Bucket")) {
        let t = b.text_of("CreationDate");
        ensure!(
            t.as_deref().and_then(xml_time).map_or(false, |t| t <= now + 1 && t >= now - 7200),
            "ListBuckets: the creation date of {:?} is {t:?}",
            b.text_of("Name")
        );
    }
    let mut n = 1;
    for b in buckets {
        let exists = m.buckets.contains_key(*b);
        let rs = w.call(&Rq::new("HEAD", &format!("/{b}")))?;
        ensure!(
            rs.status == if exists { 200 } else { 404 },
            "HEAD bucket {b} (exists: {exists}): {}",
            rs.show()
        );
        let rs = w.call(&Rq::new("GET", &format!("/{b}")).q("location"))?;
        ensure!(
            rs.status == if exists { 200 } else { 404 },
            "GetBucketLocation {b} (exists: {exists}): {}",
            rs.show()
        );
        let rs = w.call(&Rq::new("GET", &format!("/{b}")))?;
        check_list(m, b, "", &rs, false)?;
        let mut times = vec![];
        if exists {
            times.push(listed_times(&rs)?);
        }
        let rs = w.call(&Rq::new("GET", &format!("/{b}")).q("list-type=2"))?;
        check_list(m, b, "", &rs, true)?;
        if exists {
            times.push(listed_times(&rs)?);
        }
        n += 4;
        for k in keys {
            let rs = w.call(&Rq::obj("GET", b, k))?;
            check_get(m, b, k, &rs)?;
            let modified = rs.header("last-modified");
            let hd = w.call(&Rq::obj("HEAD", b, k))?;
            n += 2;
            match m.buckets.get(*b).and_then(|x| x.get(*k)) {
                None => ensure!(hd.status == 404, "HEAD {b}/{k}: {}", hd.show()),
                Some(o) => {
                    let what = format!("HEAD {b}/{k}");
                    ensure!(hd.status == 200, "{what}: {}", hd.show());
                    ensure!(hd.body.is_empty(), "{what}: has a body");
                    check_object_headers(&what, o, &hd, false)?;
                    if let Some(t) = hd.header("etag") {
                        ensure!(
                            t == format!("\"{}\"", md5_hex(&o.data)),
                            "{what}: ETag {t} is not the one of the content"
                        );
                    }
                    ensure!(
                        hd.header("last-modified") == modified && modified.is_some(),
                        "{what}: Last-Modified {:?}, but {modified:?} for GET",
                        hd.header("last-modified")
                    );
                    let at = modified.as_deref().and_then(http_time);
                    ensure!(
                        at.map_or(false, |t| t <= now + 1 && t >= now - 7200),
                        "{what}: Last-Modified {modified:?} is not the time of the last write"
                    );
                    for (t, list) in times.iter().zip(["List", "ListV2"]) {
                        let t = t.get(*k).copied();
                        ensure!(
                            k.ends_with('/') || t == Some(at),
                            "{list} {b}: LastModified of {k} is {t:?}, for GET {at:?}"
                        );
                    }
                }
            }
        }
    }
    cx.add("evaluations", n);
    Ok(())
}

/// run a history from the empty root; Err names the failing step
pub fn run_history(
    cx: &mut Cx,
    ops: &[Op],
    buckets: &[&str],
    keys: &[&str],
    observe_all: bool,
) -> Result<(World, Model), Fail> {
    let dir = cx.fresh_dir();
    let mut w = World::new(&dir);
    let mut m = Model::default();
    for (i, op) in ops.iter().enumerate() {
        let r = step(cx, &mut w, &mut m, op).and_then(|()| {
            if observe_all || i + 1 == ops.len() {
                observe(cx, &w, &m, buckets, keys)
            } else {
                Ok(())
            }
        });
        if let Err(mut e) = r {
            e.what = format!("after {}: {}", show(&ops[..=i]), e.what);
            crate::report::remove_tree(&dir);
            return Err(e);
        }
    }
    Ok((w, m))
}

/// a prepared state, from which worlds are made by copying the files
pub struct Template {
    pub root: PathBuf,
    pub ids: Vec<String>,
    pub model: Model,
}

pub fn copy_tree(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).expect("mkdir");
    for e in std::fs::read_dir(from).expect("read_dir").flatten() {
        let t = to.join(e.file_name());
        if e.file_type().map_or(false, |t| t.is_dir()) {
            copy_tree(&e.path(), &t);
        } else {
            std::fs::copy(e.path(), t).expect("copy");
        }
    }
}

impl Template {
    pub fn new(cx: &mut Cx, ops: &[Op]) -> Result<Template, Fail> {
        let (w, model) = run_history(cx, ops, &[], &[], false)?;
        Ok(Template { root: w.root.clone(), ids: w.ids.clone(), model })
    }
    pub fn make(&self, cx: &mut Cx) -> World {
        let dir = cx.fresh_dir();
        copy_tree(&self.root, &dir.join("root"));
        let mut w = World::new(&dir);
        w.ids = self.ids.clone();
        w
    }
}

/// the states in which the storage may be, with the key of the finding that such a state shows
#[derive(Clone)]
pub struct Possible {
    pub states: Vec<(Model, Option<&'static str>)>,
}

impl Possible {
    /// keep the states that satisfy `f`; if there is none, fail for the first
    pub fn retain(&mut self, mut f: impl FnMut(&mut Model) -> R) -> R {
        let mut err = None;
        let mut keep = vec![];
        for (mut m, key) in std::mem::take(&mut self.states) {
            match f(&mut m) {
                Ok(()) => keep.push((m, key)),
                Err(e) => {
                    err.get_or_insert(e);
                }
            }
        }
        if keep.is_empty() {
            return Err(err.unwrap_or_else(|| Fail::from("no possible state")));
        }
        self.states = keep;
        Ok(())
    }
    pub fn observe(&mut self, cx: &mut Cx, w: &World, buckets: &[&str], keys: &[&str]) -> R {
        self.retain(|m| observe(cx, w, m, buckets, keys))
    }
    pub fn step(&mut self, cx: &mut Cx, w: &mut World, op: &Op) -> R {
        let rs = w.call(&request(op, &w.ids, &self.states[0].0))?;
        cx.add("transitions", 1);
        let mut ids = None;
        let old = w.ids.clone();
        let r = self.retain(|m| {
            let mut i = old.clone();
            judge(&mut i, m, op, &rs)?;
            ids.get_or_insert(i);
            Ok(())
        });
        if let Some(i) = ids {
            w.ids = i;
        }
        r
    }
    /// the finding, if only states that show one are left
    pub fn finding(&self) -> Option<&'static str> {
        if self.states.iter().any(|s| s.1.is_none()) {
            return None;
        }
        self.states[0].1
    }
}
