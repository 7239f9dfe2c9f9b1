//! R05: what the storage answers is what the client reads

use crate::api::*;
use crate::auth::T0;
use crate::rec::{Fixture, Make};
use crate::report::*;
use crate::sys;
use crate::{ensure, fail};
use s3_server::dto::*;
use s3_server::errors::S3StorageResult;
use std::collections::{BTreeMap, BTreeSet};

pub fn metas() -> Vec<Meta> {
    vec![Meta {
        id: "R05",
        level: "input_enumeration",
        rule: "every field of every operation's output with every value of the alphabet, in all pairs (thorough: all pairs of values, and triples), all together and all but one; every field of every list element, alone and together, in lists of zero to three (and a thousand) elements; bodies of boundary sizes in all segmentations and failing at every piece; the response parsed by an independent reader and compared with an independently written table as a whole, so that nothing else appears. states: distinct responses",
        assumptions: &["values of headers are visible ASCII or UTF-8 text without outer white space", "texts in documents are made of characters that XML 1.0 can represent", "a copy has a result"],
        quick_secs: 600,
        thorough_secs: 3000,
        run: r05,
    }]
}

/// where a field appears
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Place {
    Header,
    Element,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Text,
    Int,
    Bool,
    /// RFC 3339 in the storage, HTTP date on the wire
    Date,
}

pub struct Field<T> {
    pub place: Place,
    pub name: &'static str,
    pub kind: Kind,
    pub set: fn(&mut T, &str),
}

macro_rules! fields {
    ($t:ty; $($place:ident $name:literal $kind:ident $field:ident),* $(,)?) => {
        vec![$(Field::<$t> {
            place: Place::$place,
            name: $name,
            kind: Kind::$kind,
            set: |i, v| fields!(@set i v $kind $field),
        }),*]
    };
    (@set $i:ident $v:ident Text $f:ident) => { $i.$f = Some($v.to_owned()) };
    (@set $i:ident $v:ident Date $f:ident) => { $i.$f = Some($v.to_owned()) };
    (@set $i:ident $v:ident Int $f:ident) => { $i.$f = Some($v.parse::<i64>().expect("harness: int")) };
    (@set $i:ident $v:ident Bool $f:ident) => { $i.$f = Some($v == "true") };
}

/// (what the storage says, what the client reads)
const DATES: &[(&str, &str)] = &[
    ("2021-01-02T03:04:05.000Z", "Sat, 02 Jan 2021 03:04:05 GMT"),
    ("1970-01-01T00:00:00.000Z", "Thu, 01 Jan 1970 00:00:00 GMT"),
    ("1999-12-31T23:59:59.999Z", "Fri, 31 Dec 1999 23:59:59 GMT"),
    ("2000-02-29T12:00:00Z", "Tue, 29 Feb 2000 12:00:00 GMT"),
    ("2024-02-29T23:59:59.123456789Z", "Thu, 29 Feb 2024 23:59:59 GMT"),
    ("2038-01-19T03:14:08.000Z", "Tue, 19 Jan 2038 03:14:08 GMT"),
    ("2106-02-07T06:28:16Z", "Sun, 07 Feb 2106 06:28:16 GMT"),
    ("2021-03-01T00:30:00.000+02:00", "Sun, 28 Feb 2021 22:30:00 GMT"),
    ("2020-12-31T20:00:00-05:30", "Fri, 01 Jan 2021 01:30:00 GMT"),
    ("2021-07-14T15:16:17.000+00:00", "Wed, 14 Jul 2021 15:16:17 GMT"),
    ("2021-05-06T07:08:09.000Z", "Thu, 06 May 2021 07:08:09 GMT"),
    ("2021-06-30T10:20:30.000Z", "Wed, 30 Jun 2021 10:20:30 GMT"),
    ("2021-08-09T10:20:30.000Z", "Mon, 09 Aug 2021 10:20:30 GMT"),
    ("2021-09-10T10:20:30.000Z", "Fri, 10 Sep 2021 10:20:30 GMT"),
    ("2021-10-11T10:20:30.000Z", "Mon, 11 Oct 2021 10:20:30 GMT"),
    ("2021-11-12T10:20:30.000Z", "Fri, 12 Nov 2021 10:20:30 GMT"),
    ("2021-04-13T10:20:30.000Z", "Tue, 13 Apr 2021 10:20:30 GMT"),
];

impl Kind {
    fn values(self, place: Place) -> Vec<(&'static str, &'static str)> {
        let same = |v: &[&'static str]| v.iter().map(|x| (*x, *x)).collect();
        match (self, place) {
            (Kind::Date, Place::Header) => DATES.to_vec(),
            (Kind::Date, Place::Element) => DATES.iter().map(|d| (d.0, d.0)).collect(),
            (Kind::Bool, _) => same(&["true", "false"]),
            (Kind::Int, _) => same(&["0", "1", "9", "10", "1000", "2147483647", "2147483648", "4294967296", "9007199254740993", "9223372036854775807"]),
            (Kind::Text, Place::Header) => same(&[
                "v", "a b", "a  b", "%41", "a%2Fb", "a+b", "a,b", "a;b=c", "\"quoted\"", "\"d41d8cd98f00b204e9800998ecf8427e-3\"", "0", "true", "a=b&c=d", "<x>", "W/\"x\"",
                "Wed, 21 Oct 2015 07:28:00 GMT", "attachment; filename=\"x y.txt\"", "~!@#$^*()_{}|:?[]`'\\", "bytes 0-4/10", "","\u{e4}", "\u{65e5}\u{672c}", "\u{1f600} x", "\u{80}", "a\tb",
            ]),
            (Kind::Text, Place::Element) => same(&[
                "v", "", " ", " a ", "a  b", "\ta\t", "a\nb", "\r", "a\r\nb", "<", ">", "&", "\"", "'", "<a>b</a>", "&amp;", "&#65;", "]]>", "<![CDATA[x]]>", "<!-- x -->", "a&b<c>d\"e'f", "%41", "a+b",
                "a/b/../c", "\u{e4}", "\u{20ac}", "\u{1f600}", "\u{85}", "\u{2028}", "\u{feff}", "\u{fffd}", "\u{7f}", "a\u{301}", "\"d41d8cd98f00b204e9800998ecf8427e\"", "http://localhost/b/k?x=y&z", "?", "#", "\\", "${x}", "\u{5d0}\u{5d1}",
            ]),
        }
    }
    fn distinct(self, place: Place, i: usize) -> (String, String) {
        match self {
            Kind::Text => (format!("value-{i}"), format!("value-{i}")),
            Kind::Int => (format!("{}", 100 + i), format!("{}", 100 + i)),
            Kind::Bool => {
                let v = if i % 2 == 0 { "true" } else { "false" };
                (v.into(), v.into())
            }
            Kind::Date => {
                let d = DATES[i % DATES.len()];
                (d.0.into(), if place == Place::Header { d.1.into() } else { d.0.into() })
            }
        }
    }
}

/// a document without what does not matter: order of different elements, attributes
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Doc {
    pub name: String,
    pub text: String,
    pub children: BTreeMap<String, Vec<Doc>>,
}

impl Doc {
    pub fn new(name: &str) -> Doc {
        Doc { name: name.into(), ..Doc::default() }
    }
    pub fn leaf(name: &str, text: &str) -> Doc {
        Doc { name: name.into(), text: text.into(), ..Doc::default() }
    }
    pub fn with(mut self, child: Doc) -> Doc {
        self.push(child);
        self
    }
    pub fn push(&mut self, child: Doc) {
        self.children.entry(child.name.clone()).or_default().push(child);
    }
    pub fn of(x: &Xml) -> Doc {
        let mut d = Doc::new(&x.name);
        if x.children.is_empty() {
            d.text = x.text.clone();
        }
        for c in &x.children {
            d.push(Doc::of(c));
        }
        d
    }
}

#[derive(Clone, Default)]
struct Want {
    status: u16,
    headers: BTreeMap<String, String>,
    doc: Option<Doc>,
    body: Option<Vec<u8>>,
}

/// headers that say nothing about the answer
const NEUTRAL: &[&str] = &["date", "server", "connection", "x-amz-request-id", "x-amz-id-2", "vary"];

fn compare(cx: &mut Cx, rq: &Rq, rs: &Rs, want: &Want, said: &str) -> R {
    cx.add("evaluations", 1);
    cx.state(&(&rs.status, &rs.headers.iter().collect::<BTreeSet<_>>(), &rs.body));
    cx.outcome(&(rs.status, rq.method.clone(), rq.uri()));
    let ctx = || format!("{}: the storage answers {said}, the response is {}", rq.show(), rs.show());
    ensure!(rs.status == want.status, "{}, not of status {}", ctx(), want.status);
    let mut got: BTreeMap<String, String> = BTreeMap::new();
    for (n, v) in &rs.headers {
        if NEUTRAL.contains(&n.as_str()) {
            continue;
        }
        let v = String::from_utf8(v.clone()).map_err(|_| ctx())?;
        ensure!(got.insert(n.clone(), v).is_none(), "{}: repeated header {n}", ctx());
    }
    if want.doc.is_some() {
        let t = got.remove("content-type").unwrap_or_default();
        ensure!(t.starts_with("text/xml") || t.starts_with("application/xml"), "{}: Content-Type {t}", ctx());
    }
    if !want.headers.contains_key("content-length") {
        if let Some(l) = got.remove("content-length") {
            ensure!(l == rs.body.len().to_string(), "{}: Content-Length {l}", ctx());
        }
    }
    for (n, v) in &want.headers {
        ensure!(got.get(n) == Some(v), "{}: header {n} is {:?}, not {v:?}", ctx(), got.get(n));
    }
    for n in got.keys() {
        ensure!(want.headers.contains_key(n), "{}: unexpected header {n}", ctx());
    }
    match (&want.doc, &want.body) {
        (Some(d), _) => {
            let x = rs.xml().map_err(|e| format!("{}: {e}", ctx()))?;
            let got = Doc::of(&x);
            ensure!(got == *d, "{}: the document is {got:?} instead of {d:?}", ctx());
        }
        (None, Some(b)) => ensure!(rs.body == *b && !rs.body_err, "{}: the body has {} bytes instead of {}", ctx(), rs.body.len(), b.len()),
        (None, None) => ensure!(rs.body.is_empty() && !rs.body_err, "{}: unexpected body", ctx()),
    }
    Ok(())
}

pub struct Out<T> {
    pub name: &'static str,
    pub rq: Rq,
    pub status: u16,
    pub root: Option<&'static str>,
    pub fields: Vec<Field<T>>,
    pub answer: fn(&Fixture, T),
}

impl<T: Make + std::fmt::Debug + 'static> Out<T> {
    fn ask(&self, cx: &mut Cx, fx: &Fixture, t: T, want: &Want) -> R {
        let said: String = format!("{t:?}").chars().take(3000).collect();
        (self.answer)(fx, t);
        let (rs, calls) = match fx.run(&self.rq) {
            Ok(x) => x,
            Err(e) => fail!("{e}: the storage answers {said}"),
        };
        ensure!(calls.len() == 1, "harness: {} {}", self.rq.show(), rs.show());
        compare(cx, &self.rq, &rs, want, &said)
    }
    /// `values`: field, value, what the client reads
    fn check(&self, cx: &mut Cx, fx: &Fixture, values: &[(usize, &str, &str)]) -> R {
        let mut t = T::make();
        let mut want = Want { status: self.status, doc: self.root.map(Doc::new), ..Want::default() };
        for (f, v, w) in values {
            let f = &self.fields[*f];
            (f.set)(&mut t, v);
            match f.place {
                Place::Header => {
                    let _ = want.headers.insert(f.name.into(), (*w).into());
                    if f.name == "content-range" {
                        want.status = 206;
                    }
                }
                Place::Element => want.doc.as_mut().expect("root").push(Doc::leaf(f.name, w)),
            }
        }
        self.ask(cx, fx, t, &want)
    }
    /// values that cannot be represented in a header: the response reports an internal error
    pub fn hostile(&self, cx: &mut Cx, fx: &Fixture) {
        for f in self.fields.iter().filter(|f| f.place == Place::Header && matches!(f.kind, Kind::Text | Kind::Date)) {
            cx.case(
                || format!("{}: {} cannot be represented", self.name, f.name),
                |cx| {
                    let bad: &[&str] = match f.kind {
                        Kind::Date => &["", "x", "2021", "2021-13-01T00:00:00Z", "2021-02-30T00:00:00Z", "2021-01-01 00:00:00", "2021-01-01T00:00:00", "Sat, 02 Jan 2021 03:04:05 GMT", "99999-01-01T00:00:00Z", "2021-01-01T24:00:00Z", "\u{e4}"],
                        _ => &["a\nb", "\n", "a\r\nx-amz-evil: 1", "\0", "a\0b", "\u{7f}", "\u{1b}[0m", "\r"],
                    };
                    for v in bad {
                        let mut t = T::make();
                        (f.set)(&mut t, v);
                        (self.answer)(fx, t);
                        let (rs, _) = fx.run(&self.rq).map_err(|e| format!("{e}: the storage answers {} {v:?}", f.name))?;
                        crate::proto::refused_answer(cx, &self.rq, &rs, &format!("the storage answers {} {v:?}", f.name))?;
                    }
                    Ok(())
                },
            );
        }
    }
    fn run(&self, cx: &mut Cx, fx: &Fixture) {
        let n = self.fields.len();
        let name = self.name;
        cx.case(|| format!("{name}: no fields"), |cx| self.check(cx, fx, &[]));
        for (i, f) in self.fields.iter().enumerate() {
            cx.case(
                || format!("{name}: {} with every value", f.name),
                |cx| {
                    for (v, w) in f.kind.values(f.place) {
                        self.check(cx, fx, &[(i, v, w)])?;
                    }
                    Ok(())
                },
            );
            cx.case(
                || format!("{name}: {} with every other field", f.name),
                |cx| {
                    let vi = f.kind.distinct(f.place, i);
                    for (j, g) in self.fields.iter().enumerate() {
                        if j == i {
                            continue;
                        }
                        if cx.thorough {
                            for (v, w) in f.kind.values(f.place) {
                                for (v2, w2) in g.kind.values(g.place) {
                                    self.check(cx, fx, &[(i, v, w), (j, v2, w2)])?;
                                }
                            }
                        }
                        let vj = g.kind.distinct(g.place, j);
                        self.check(cx, fx, &[(i, &vi.0, &vi.1), (j, &vj.0, &vj.1)])?;
                        for (k, h) in self.fields.iter().enumerate().skip(j + 1) {
                            if k != i && (cx.thorough || (i + j + k) % 3 == 0) {
                                let vk = h.kind.distinct(h.place, k);
                                self.check(cx, fx, &[(i, &vi.0, &vi.1), (j, &vj.0, &vj.1), (k, &vk.0, &vk.1)])?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
        cx.case(
            || format!("{name}: all fields, and all but one"),
            |cx| {
                for shift in 0..4 {
                    let v: Vec<(String, String)> = self.fields.iter().enumerate().map(|(i, f)| f.kind.distinct(f.place, i + shift)).collect();
                    let all: Vec<(usize, &str, &str)> = (0..n).map(|i| (i, v[i].0.as_str(), v[i].1.as_str())).collect();
                    self.check(cx, fx, &all)?;
                    for skip in 0..n {
                        let some: Vec<_> = all.iter().copied().filter(|x| x.0 != skip).collect();
                        self.check(cx, fx, &some)?;
                    }
                }
                Ok(())
            },
        );
    }
}

macro_rules! out {
    ($name:literal $t:ident $e:ident, $rq:expr, $status:literal, $root:expr; $($f:tt)*) => {
        Out::<$t> {
            name: $name,
            rq: $rq,
            status: $status,
            root: $root,
            fields: fields!($t; $($f)*),
            answer: |fx, t| fx.rec.answer::<S3StorageResult<$t, $e>>(Ok(t)),
        }
    };
}

pub const DELETE: &str = "<Delete><Object><Key>k</Key></Object></Delete>";
pub const MULTI: &str = "<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>e</ETag></Part></CompleteMultipartUpload>";

pub struct Outs {
    pub complete: Out<CompleteMultipartUploadOutput>,
    pub copy: Out<CopyObjectOutput>,
    pub create_bucket: Out<CreateBucketOutput>,
    pub create_upload: Out<CreateMultipartUploadOutput>,
    pub delete: Out<DeleteObjectOutput>,
    pub delete_objects: Out<DeleteObjectsOutput>,
    pub location: Out<GetBucketLocationOutput>,
    pub get: Out<GetObjectOutput>,
    pub head: Out<HeadObjectOutput>,
    pub buckets: Out<ListBucketsOutput>,
    pub list: Out<ListObjectsOutput>,
    pub list2: Out<ListObjectsV2Output>,
    pub put: Out<PutObjectOutput>,
    pub part: Out<UploadPartOutput>,
    pub delete_bucket: Out<DeleteBucketOutput>,
    pub head_bucket: Out<HeadBucketOutput>,
}

pub fn outs() -> Outs {
    Outs {
        complete: out! {
            "CompleteMultipartUpload" CompleteMultipartUploadOutput CompleteMultipartUploadError, Rq::obj("POST", "aaa", "k").q("uploadId=u").body(MULTI), 200, Some("CompleteMultipartUploadResult");
            Element "Bucket" Text bucket, Header "x-amz-server-side-encryption-bucket-key-enabled" Bool bucket_key_enabled, Element "ETag" Text e_tag,
            Header "x-amz-expiration" Text expiration, Element "Key" Text key, Element "Location" Text location, Header "x-amz-request-charged" Text request_charged,
            Header "x-amz-server-side-encryption-aws-kms-key-id" Text ssekms_key_id, Header "x-amz-server-side-encryption" Text server_side_encryption, Header "x-amz-version-id" Text version_id,
        },
        copy: out! {
            "CopyObject" CopyObjectOutput CopyObjectError, Rq::obj("PUT", "aaa", "k").h("x-amz-copy-source", "bbb/src"), 200, None;
            Header "x-amz-server-side-encryption-bucket-key-enabled" Bool bucket_key_enabled, Header "x-amz-copy-source-version-id" Text copy_source_version_id, Header "x-amz-expiration" Text expiration,
            Header "x-amz-request-charged" Text request_charged, Header "x-amz-server-side-encryption-customer-algorithm" Text sse_customer_algorithm,
            Header "x-amz-server-side-encryption-customer-key-md5" Text sse_customer_key_md5, Header "x-amz-server-side-encryption-context" Text ssekms_encryption_context,
            Header "x-amz-server-side-encryption-aws-kms-key-id" Text ssekms_key_id, Header "x-amz-server-side-encryption" Text server_side_encryption, Header "x-amz-version-id" Text version_id,
        },
        create_bucket: out! {
            "CreateBucket" CreateBucketOutput CreateBucketError, Rq::new("PUT", "/aaa"), 200, None;
            Header "location" Text location,
        },
        create_upload: out! {
            "CreateMultipartUpload" CreateMultipartUploadOutput CreateMultipartUploadError, Rq::obj("POST", "aaa", "k").q("uploads"), 200, Some("InitiateMultipartUploadResult");
            Header "x-amz-abort-date" Text abort_date, Header "x-amz-abort-rule-id" Text abort_rule_id, Element "Bucket" Text bucket, Header "x-amz-server-side-encryption-bucket-key-enabled" Bool bucket_key_enabled,
            Element "Key" Text key, Header "x-amz-request-charged" Text request_charged, Header "x-amz-server-side-encryption-customer-algorithm" Text sse_customer_algorithm,
            Header "x-amz-server-side-encryption-customer-key-md5" Text sse_customer_key_md5, Header "x-amz-server-side-encryption-context" Text ssekms_encryption_context,
            Header "x-amz-server-side-encryption-aws-kms-key-id" Text ssekms_key_id, Header "x-amz-server-side-encryption" Text server_side_encryption, Element "UploadId" Text upload_id,
        },
        delete: out! {
            "DeleteObject" DeleteObjectOutput DeleteObjectError, Rq::obj("DELETE", "aaa", "k"), 204, None;
            Header "x-amz-delete-marker" Bool delete_marker, Header "x-amz-request-charged" Text request_charged, Header "x-amz-version-id" Text version_id,
        },
        delete_objects: out! {
            "DeleteObjects" DeleteObjectsOutput DeleteObjectsError, Rq::new("POST", "/aaa").q("delete").body(DELETE), 200, Some("DeleteResult");
            Header "x-amz-request-charged" Text request_charged,
        },
        location: out! {
            "GetBucketLocation" GetBucketLocationOutput GetBucketLocationError, Rq::new("GET", "/aaa").q("location"), 200, None;
        },
        get: out! {
            "GetObject" GetObjectOutput GetObjectError, Rq::obj("GET", "aaa", "k"), 200, None;
            Header "accept-ranges" Text accept_ranges, Header "x-amz-server-side-encryption-bucket-key-enabled" Bool bucket_key_enabled, Header "cache-control" Text cache_control,
            Header "content-disposition" Text content_disposition, Header "content-encoding" Text content_encoding, Header "content-language" Text content_language,
            Header "content-length" Int content_length, Header "content-range" Text content_range, Header "content-type" Text content_type, Header "x-amz-delete-marker" Bool delete_marker,
            Header "etag" Text e_tag, Header "x-amz-expiration" Text expiration, Header "expires" Text expires, Header "last-modified" Date last_modified, Header "x-amz-missing-meta" Int missing_meta,
            Header "x-amz-object-lock-legal-hold" Text object_lock_legal_hold_status, Header "x-amz-object-lock-mode" Text object_lock_mode,
            Header "x-amz-object-lock-retain-until-date" Text object_lock_retain_until_date, Header "x-amz-mp-parts-count" Int parts_count, Header "x-amz-replication-status" Text replication_status,
            Header "x-amz-request-charged" Text request_charged, Header "x-amz-restore" Text restore, Header "x-amz-server-side-encryption-customer-algorithm" Text sse_customer_algorithm,
            Header "x-amz-server-side-encryption-customer-key-md5" Text sse_customer_key_md5, Header "x-amz-server-side-encryption-aws-kms-key-id" Text ssekms_key_id,
            Header "x-amz-server-side-encryption" Text server_side_encryption, Header "x-amz-storage-class" Text storage_class, Header "x-amz-tagging-count" Int tag_count,
            Header "x-amz-version-id" Text version_id, Header "x-amz-website-redirect-location" Text website_redirect_location,
        },
        head: out! {
            "HeadObject" HeadObjectOutput HeadObjectError, Rq::obj("HEAD", "aaa", "k"), 200, None;
            Header "accept-ranges" Text accept_ranges, Header "x-amz-archive-status" Text archive_status, Header "x-amz-server-side-encryption-bucket-key-enabled" Bool bucket_key_enabled,
            Header "cache-control" Text cache_control, Header "content-disposition" Text content_disposition, Header "content-encoding" Text content_encoding,
            Header "content-language" Text content_language, Header "content-length" Int content_length, Header "content-type" Text content_type, Header "x-amz-delete-marker" Bool delete_marker,
            Header "etag" Text e_tag, Header "x-amz-expiration" Text expiration, Header "expires" Text expires, Header "last-modified" Date last_modified, Header "x-amz-missing-meta" Int missing_meta,
            Header "x-amz-object-lock-legal-hold" Text object_lock_legal_hold_status, Header "x-amz-object-lock-mode" Text object_lock_mode,
            Header "x-amz-object-lock-retain-until-date" Text object_lock_retain_until_date, Header "x-amz-mp-parts-count" Int parts_count, Header "x-amz-replication-status" Text replication_status,
            Header "x-amz-request-charged" Text request_charged, Header "x-amz-restore" Text restore, Header "x-amz-server-side-encryption-customer-algorithm" Text sse_customer_algorithm,
            Header "x-amz-server-side-encryption-customer-key-md5" Text sse_customer_key_md5, Header "x-amz-server-side-encryption-aws-kms-key-id" Text ssekms_key_id,
            Header "x-amz-server-side-encryption" Text server_side_encryption, Header "x-amz-storage-class" Text storage_class,
            Header "x-amz-version-id" Text version_id, Header "x-amz-website-redirect-location" Text website_redirect_location,
        },
        buckets: out! {
            "ListBuckets" ListBucketsOutput ListBucketsError, Rq::new("GET", "/"), 200, Some("ListAllMyBucketsResult");
        },
        list: out! {
            "ListObjects" ListObjectsOutput ListObjectsError, Rq::new("GET", "/aaa"), 200, Some("ListBucketResult");
            Element "Delimiter" Text delimiter, Element "EncodingType" Text encoding_type, Element "IsTruncated" Bool is_truncated, Element "Marker" Text marker, Element "MaxKeys" Int max_keys,
            Element "Name" Text name, Element "NextMarker" Text next_marker, Element "Prefix" Text prefix,
        },
        list2: out! {
            "ListObjectsV2" ListObjectsV2Output ListObjectsV2Error, Rq::new("GET", "/aaa").q("list-type=2"), 200, Some("ListBucketResult");
            Element "ContinuationToken" Text continuation_token, Element "Delimiter" Text delimiter, Element "EncodingType" Text encoding_type, Element "IsTruncated" Bool is_truncated, Element "KeyCount" Int key_count,
            Element "MaxKeys" Int max_keys, Element "Name" Text name, Element "NextContinuationToken" Text next_continuation_token, Element "Prefix" Text prefix, Element "StartAfter" Text start_after,
        },
        put: out! {
            "PutObject" PutObjectOutput PutObjectError, Rq::obj("PUT", "aaa", "k").body("data"), 200, None;
            Header "x-amz-server-side-encryption-bucket-key-enabled" Bool bucket_key_enabled, Header "etag" Text e_tag, Header "x-amz-expiration" Text expiration, Header "x-amz-request-charged" Text request_charged,
            Header "x-amz-server-side-encryption-customer-algorithm" Text sse_customer_algorithm, Header "x-amz-server-side-encryption-customer-key-md5" Text sse_customer_key_md5,
            Header "x-amz-server-side-encryption-context" Text ssekms_encryption_context, Header "x-amz-server-side-encryption-aws-kms-key-id" Text ssekms_key_id,
            Header "x-amz-server-side-encryption" Text server_side_encryption, Header "x-amz-version-id" Text version_id,
        },
        part: out! {
            "UploadPart" UploadPartOutput UploadPartError, Rq::obj("PUT", "aaa", "k").q("partNumber=1&uploadId=u").body("data"), 200, None;
            Header "x-amz-server-side-encryption-bucket-key-enabled" Bool bucket_key_enabled, Header "etag" Text e_tag, Header "x-amz-request-charged" Text request_charged,
            Header "x-amz-server-side-encryption-customer-algorithm" Text sse_customer_algorithm, Header "x-amz-server-side-encryption-customer-key-md5" Text sse_customer_key_md5,
            Header "x-amz-server-side-encryption-aws-kms-key-id" Text ssekms_key_id, Header "x-amz-server-side-encryption" Text server_side_encryption,
        },
        delete_bucket: out! {
            "DeleteBucket" DeleteBucketOutput DeleteBucketError, Rq::new("DELETE", "/aaa"), 204, None;
        },
        head_bucket: out! {
            "HeadBucket" HeadBucketOutput HeadBucketError, Rq::new("HEAD", "/aaa"), 200, None;
        },
    }
}

/// elements of a list, and their documents: no field, each field with every value, all fields
fn elements<T: Default + Clone>(root: &str, fields: &[Field<T>]) -> Vec<(T, Doc)> {
    let mut out = vec![(T::default(), Doc::new(root))];
    for f in fields {
        for (v, w) in f.kind.values(f.place) {
            let mut t = T::default();
            (f.set)(&mut t, v);
            out.push((t, Doc::new(root).with(Doc::leaf(f.name, w))));
        }
    }
    for shift in 0..3 {
        for skip in 0..=fields.len() {
            let mut t = T::default();
            let mut d = Doc::new(root);
            for (i, f) in fields.iter().enumerate() {
                if i != skip {
                    let (v, w) = f.kind.distinct(f.place, i + shift);
                    (f.set)(&mut t, &v);
                    d.push(Doc::leaf(f.name, &w));
                }
            }
            out.push((t, d));
        }
    }
    out
}

/// lists of up to three elements: each alone, all pairs with a fixed set, some triples, none, a thousand
fn lists<T: Clone>(els: &[(T, Doc)], few: usize) -> Vec<Vec<(T, Doc)>> {
    let mut out: Vec<Vec<(T, Doc)>> = vec![vec![]];
    out.extend(els.iter().map(|e| vec![e.clone()]));
    let some: Vec<&(T, Doc)> = els.iter().rev().take(few).chain(els.iter().take(2)).collect();
    for a in els {
        for b in &some {
            out.push(vec![a.clone(), (*b).clone()]);
            out.push(vec![(*b).clone(), a.clone()]);
        }
    }
    for a in &some {
        for b in &some {
            for c in &some {
                out.push(vec![(*a).clone(), (*b).clone(), (*c).clone()]);
            }
        }
    }
    out.push(els.iter().cycle().take(1000).cloned().collect());
    out
}

fn split<T, U>(l: &[(T, U)]) -> (Vec<T>, Vec<U>)
where
    T: Clone,
    U: Clone,
{
    (l.iter().map(|x| x.0.clone()).collect(), l.iter().map(|x| x.1.clone()).collect())
}

fn r05(cx: &mut Cx) {
    sys::fix_clock(Some((T0 + 60, 0)));
    let fx = Fixture::new(&[]);
    let fx = &fx;
    let o = outs();
    o.complete.run(cx, fx);
    o.create_bucket.run(cx, fx);
    o.create_upload.run(cx, fx);
    o.delete.run(cx, fx);
    o.delete_objects.run(cx, fx);
    o.get.run(cx, fx);
    o.head.run(cx, fx);
    o.buckets.run(cx, fx);
    o.list.run(cx, fx);
    o.list2.run(cx, fx);
    o.put.run(cx, fx);
    o.part.run(cx, fx);
    o.delete_bucket.run(cx, fx);
    o.head_bucket.run(cx, fx);
    // CopyObject, always with a result
    let results = elements("CopyObjectResult", &fields!(CopyObjectResult; Element "ETag" Text e_tag, Element "LastModified" Date last_modified));
    let full = results.last().expect("result").clone();
    let copy = |cx: &mut Cx, values: &[(usize, String, String)], r: &(CopyObjectResult, Doc)| {
        let mut t = CopyObjectOutput { copy_object_result: Some(r.0.clone()), ..Default::default() };
        let mut want = Want { status: 200, doc: Some(r.1.clone()), ..Want::default() };
        for (i, v, w) in values {
            (o.copy.fields[*i].set)(&mut t, v);
            let _ = want.headers.insert(o.copy.fields[*i].name.into(), w.clone());
        }
        o.copy.ask(cx, fx, t, &want)
    };
    cx.case(
        || "CopyObject: the result".into(),
        |cx| {
            for r in &results {
                copy(cx, &[], r)?;
            }
            Ok(())
        },
    );
    for (i, f) in o.copy.fields.iter().enumerate() {
        cx.case(
            || format!("CopyObject: {}", f.name),
            |cx| {
                for (v, w) in f.kind.values(f.place) {
                    copy(cx, &[(i, v.into(), w.into())], &full)?;
                }
                for (j, g) in o.copy.fields.iter().enumerate() {
                    let (a, b) = (f.kind.distinct(f.place, i), g.kind.distinct(g.place, j));
                    if i != j {
                        copy(cx, &[(i, a.0, a.1), (j, b.0, b.1)], &full)?;
                    }
                }
                let all: Vec<_> = o.copy.fields.iter().enumerate().map(|(j, g)| (j, g.kind.distinct(g.place, j))).map(|(j, v)| (j, v.0, v.1)).collect();
                copy(cx, &all, &full)?;
                let but: Vec<_> = all.into_iter().filter(|x| x.0 != i).collect();
                copy(cx, &but, &full)
            },
        );
    }
    // GetBucketLocation
    cx.case(
        || "GetBucketLocation".into(),
        |cx| {
            let mut values: Vec<Option<&str>> = vec![None, Some("eu-west-1"), Some("EU")];
            values.extend(Kind::Text.values(Place::Element).into_iter().map(|v| Some(v.0)));
            for v in values {
                let want = Want { status: 200, doc: Some(Doc::leaf("LocationConstraint", v.unwrap_or(""))), ..Want::default() };
                o.location.ask(cx, fx, GetBucketLocationOutput { location_constraint: v.map(Into::into) }, &want)?;
            }
            Ok(())
        },
    );
    // ListBuckets
    let buckets = elements("Bucket", &fields!(Bucket; Element "CreationDate" Date creation_date, Element "Name" Text name));
    let owners = elements("Owner", &fields!(Owner; Element "DisplayName" Text display_name, Element "ID" Text id));
    cx.case(
        || "ListBuckets: buckets and owners".into(),
        |cx| {
            let mut n = 0;
            for l in lists(&buckets, 4).iter().map(Some).chain([None]) {
                for owner in [None, Some(&owners[n % owners.len()]), Some(&owners[(n * 7 + 1) % owners.len()])] {
                    let mut d = Doc::new("ListAllMyBucketsResult");
                    if let Some((_, docs)) = l.map(|l| split(l)) {
                        let mut b = Doc::new("Buckets");
                        docs.into_iter().for_each(|x| b.push(x));
                        d.push(b);
                    }
                    if let Some(o) = owner {
                        d.push(o.1.clone());
                    }
                    let t = ListBucketsOutput { buckets: l.map(|l| split(l).0), owner: owner.map(|o| o.0.clone()) };
                    o.buckets.ask(cx, fx, t, &Want { status: 200, doc: Some(d), ..Want::default() })?;
                }
                n += 1;
            }
            for owner in &owners {
                let d = Doc::new("ListAllMyBucketsResult").with(owner.1.clone());
                o.buckets.ask(cx, fx, ListBucketsOutput { buckets: None, owner: Some(owner.0.clone()) }, &Want { status: 200, doc: Some(d), ..Want::default() })?;
            }
            Ok(())
        },
    );
    // ListObjects, ListObjectsV2
    let mut objects = elements(
        "Contents",
        &fields!(Object; Element "ETag" Text e_tag, Element "Key" Text key, Element "LastModified" Date last_modified, Element "Size" Int size, Element "StorageClass" Text storage_class),
    );
    let (plain, all) = (objects[0].clone(), objects[objects.len() - 1].clone());
    for owner in &owners {
        for base in [&plain, &all] {
            let mut t = base.0.clone();
            t.owner = Some(owner.0.clone());
            objects.push((t, base.1.clone().with(owner.1.clone())));
        }
    }
    let prefixes: Vec<(String, Doc)> = Kind::Text.values(Place::Element).iter().map(|v| (v.0.to_string(), Doc::new("CommonPrefixes").with(Doc::leaf("Prefix", v.0)))).collect();
    let object_lists = lists(&objects, 5);
    let n = object_lists.len();
    for chunk in 0..16 {
        cx.case(
            || format!("ListObjects and ListObjectsV2: contents ({chunk})"),
            |cx| {
                for (i, l) in object_lists.iter().enumerate().filter(|x| x.0 % 16 == chunk) {
                    let (objs, docs) = split(l);
                    let mut d = Doc::new("ListBucketResult");
                    docs.into_iter().for_each(|x| d.push(x));
                    let name = format!("bucket-{i}");
                    let full = i % 2 == 0;
                    if full {
                        d.push(Doc::leaf("Name", &name));
                        d.push(Doc::leaf("Prefix", "p&q"));
                        d.push(Doc::leaf("MaxKeys", "1000"));
                        d.push(Doc::leaf("IsTruncated", "false"));
                    }
                    let name = full.then(|| name);
                    let prefix = full.then(|| "p&q".to_string());
                    let max_keys = full.then_some(1000);
                    let is_truncated = full.then_some(false);
                    let want = Want { status: 200, doc: Some(d), ..Want::default() };
                    o.list.ask(
                        cx,
                        fx,
                        ListObjectsOutput { contents: Some(objs.clone()), name: name.clone(), prefix: prefix.clone(), max_keys, is_truncated, ..Default::default() },
                        &want,
                    )?;
                    o.list2.ask(cx, fx, ListObjectsV2Output { contents: Some(objs), name, prefix, max_keys, is_truncated, ..Default::default() }, &want)?;
                }
                cx.max("lists", n as u64);
                Ok(())
            },
        );
    }
    cx.case(
        || "ListObjects and ListObjectsV2: common prefixes".into(),
        |cx| {
            for (i, l) in lists(&prefixes, 3).into_iter().enumerate() {
                let (texts, docs) = split(&l);
                let mut d = Doc::new("ListBucketResult");
                docs.into_iter().for_each(|x| d.push(x));
                let obj = &objects[i % objects.len()];
                let contents = (i % 2 == 0).then(|| vec![obj.0.clone()]);
                if i % 2 == 0 {
                    d.push(obj.1.clone());
                }
                let want = Want { status: 200, doc: Some(d), ..Want::default() };
                let mut t = ListObjectsOutput { contents: contents.clone(), common_prefixes: Some(texts.iter().map(|_| Default::default()).collect()), ..Default::default() };
                for (p, v) in t.common_prefixes.as_mut().expect("prefixes").iter_mut().zip(&texts) {
                    p.prefix = Some(v.clone());
                }
                let t2 = ListObjectsV2Output { contents, common_prefixes: t.common_prefixes.clone(), ..Default::default() };
                o.list.ask(cx, fx, t, &want)?;
                o.list2.ask(cx, fx, t2, &want)?;
            }
            Ok(())
        },
    );
    // DeleteObjects
    let deleted = elements(
        "Deleted",
        &fields!(DeletedObject; Element "DeleteMarker" Bool delete_marker, Element "DeleteMarkerVersionId" Text delete_marker_version_id, Element "Key" Text key, Element "VersionId" Text version_id),
    );
    // (the type of the errors has no public name)
    #[derive(Clone, Default)]
    struct Error {
        code: Option<String>,
        key: Option<String>,
        message: Option<String>,
        version_id: Option<String>,
    }
    let errors = elements("Error", &fields!(Error; Element "Code" Text code, Element "Key" Text key, Element "Message" Text message, Element "VersionId" Text version_id));
    let ask = |cx: &mut Cx, l: Option<&[(DeletedObject, Doc)]>, e: Option<&[(Error, Doc)]>, charged: bool| {
        let mut d = Doc::new("DeleteResult");
        let mut t = DeleteObjectsOutput::default();
        if let Some(l) = l {
            let (objs, docs) = split(l);
            docs.into_iter().for_each(|x| d.push(x));
            t.deleted = Some(objs);
        }
        if let Some(l) = e {
            let mut v: Vec<_> = vec![];
            for (err, doc) in l {
                d.push(doc.clone());
                t.errors = Some(vec![Default::default()]);
                let mut one = t.errors.take().and_then(|mut x| x.pop()).expect("error");
                one.code = err.code.clone();
                one.key = err.key.clone();
                one.message = err.message.clone();
                one.version_id = err.version_id.clone();
                v.push(one);
            }
            t.errors = Some(v);
        }
        let mut want = Want { status: 200, doc: Some(d), ..Want::default() };
        if charged {
            t.request_charged = Some("requester".into());
            let _ = want.headers.insert("x-amz-request-charged".into(), "requester".into());
        }
        o.delete_objects.ask(cx, fx, t, &want)
    };
    cx.case(
        || "DeleteObjects: deleted objects".into(),
        |cx| {
            for (i, l) in lists(&deleted, 4).iter().enumerate() {
                ask(cx, Some(l), None, i % 2 == 0)?;
                ask(cx, Some(l), Some(&errors[i % errors.len()..][..1]), i % 2 == 1)?;
            }
            Ok(())
        },
    );
    cx.case(
        || "DeleteObjects: errors".into(),
        |cx| {
            for (i, l) in lists(&errors, 4).iter().enumerate() {
                ask(cx, None, Some(l), i % 2 == 0)?;
                ask(cx, Some(&deleted[i % deleted.len()..][..1]), Some(l), i % 2 == 1)?;
            }
            Ok(())
        },
    );
    // metadata
    for method in ["GET", "HEAD"] {
        cx.case(
            || format!("{method}: metadata"),
            |cx| {
                let names = ["a", "name", "x-y", "x_y", "a.b", "0", "amz-meta-a", "content-type", "etag", "a!#$%&'*+^`|~z"];
                let values = Kind::Text.values(Place::Header);
                let send = |cx: &mut Cx, m: &BTreeMap<String, String>| {
                    let mut want = Want { status: 200, ..Want::default() };
                    for (k, v) in m {
                        let _ = want.headers.insert(format!("x-amz-meta-{k}"), v.clone());
                    }
                    let metadata = Some(m.clone().into_iter().collect());
                    if method == "GET" {
                        o.get.ask(cx, fx, GetObjectOutput { metadata, ..Default::default() }, &want)
                    } else {
                        o.head.ask(cx, fx, HeadObjectOutput { metadata, ..Default::default() }, &want)
                    }
                };
                send(cx, &BTreeMap::new())?;
                for n in names {
                    for v in &values {
                        send(cx, &[(n.to_string(), v.0.to_string())].into())?;
                    }
                    for n2 in names {
                        send(cx, &[(n.to_string(), "1".into()), (n2.to_string(), "2".into())].into())?;
                    }
                }
                for k in [3usize, 10, 200] {
                    send(cx, &(0..k).map(|i| (format!("n{i}"), format!("v{i}"))).collect())?;
                }
                Ok(())
            },
        );
    }
    // bodies
    for size in [0usize, 1, 2, 1000, 4096, 65536, 300_000] {
        cx.case(
            || format!("GetObject: a body of {size} bytes"),
            |cx| {
                let data = crate::store::content(7, size);
                let mut pieces = vec![size.max(1), size / 2 + 1, size / 3 + 1, 4096];
                if size <= 1000 {
                    pieces.extend([1, 2, 7]);
                }
                for p in pieces {
                    for ranged in [false, true] {
                        let parts: Vec<Vec<u8>> = data.chunks(p).map(<[u8]>::to_vec).collect();
                        let stream = |fail_at: Option<usize>| {
                            let items: Vec<std::io::Result<bytes::Bytes>> = parts
                                .iter()
                                .enumerate()
                                .map(|(i, b)| if fail_at == Some(i) { Err(std::io::Error::from_raw_os_error(5)) } else { Ok(b.clone().into()) })
                                .chain((fail_at == Some(parts.len())).then(|| Err(std::io::Error::from_raw_os_error(5))))
                                .collect();
                            ByteStream::new(futures::stream::iter(items))
                        };
                        let make = |fail_at| GetObjectOutput {
                            body: Some(stream(fail_at)),
                            content_length: Some(size as i64),
                            content_range: ranged.then(|| format!("bytes 0-{}/{}", size.max(1) - 1, size + 5)),
                            ..Default::default()
                        };
                        let mut want = Want { status: if ranged { 206 } else { 200 }, body: Some(data.clone()), ..Want::default() };
                        let _ = want.headers.insert("content-length".into(), size.to_string());
                        if ranged {
                            let _ = want.headers.insert("content-range".into(), format!("bytes 0-{}/{}", size.max(1) - 1, size + 5));
                        }
                        o.get.ask(cx, fx, make(None), &want)?;
                        // a body that fails never looks complete
                        for at in 0..=parts.len().min(20) {
                            (o.get.answer)(fx, make(Some(at)));
                            let (rs, _) = fx.run(&o.get.rq)?;
                            cx.add("evaluations", 1);
                            let sent: usize = parts.iter().take(at).map(Vec::len).sum();
                            ensure!(rs.status >= 500 || (rs.body_err && rs.body[..] == data[..sent]), "the body fails after {sent} of {size} bytes, but the response is {}", rs.show());
                        }
                    }
                }
                Ok(())
            },
        );
    }
}
