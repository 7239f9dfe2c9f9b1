//! R01: dispatch. R02: parameters. R04: names.

use crate::api::{enc, Chunk, Rq};
use crate::auth::T0;
use crate::rec::{expect, Call, Fixture, Norm};
use crate::report::{Cx, Meta, R};
use crate::sig::{self, Cred, Form, Payload};
use crate::{ensure, fail, sys};
use s3_server::dto::*;

pub fn metas() -> Vec<Meta> {
    vec![
    Meta {
        id: "R01",
        level: "input_enumeration",
        rule: "the complete product of methods, resources, sets of up to two (thorough: three) parameters of the alphabet of sub-resources and neutral parameters in several spellings, selecting headers and bodies, without authentication, signed, presigned and as a form; compared with an independently written table of operations. states: distinct requests",
        assumptions: &["combinations to which S3 gives no definite meaning (for example two sub-resources of different operations) may invoke one of the operations named or be refused"],
        quick_secs: 600,
        thorough_secs: 3000,
        run: r01,
    },
    Meta {
        id: "R02",
        level: "input_enumeration",
        rule: "every parameter of every operation with every value of the alphabet, in all pairs (thorough: pairs of values, and triples), all together and all but one, in both orders, unsigned, signed and presigned; malformed values alone and with every other parameter; metadata names and values; keys in every operation and encoding; XML bodies in every way to write their text and structure, truncated and damaged at every position; compared with the expected request of an independently written table. states: distinct requests",
        assumptions: &["header values are ASCII without outer white space", "parameters are not repeated"],
        quick_secs: 600,
        thorough_secs: 3000,
        run: r02,
    }]
}

// --- R01 ---

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Resource {
    Service,
    Bucket,
    Object,
}

/// parameters that name a sub-resource, in any method
const SUB: &[&str] = &[
    "accelerate", "acl", "analytics", "attributes", "cors", "delete", "encryption", "intelligent-tiering", "inventory",
    "legal-hold", "lifecycle", "location", "logging", "metrics", "notification", "object-lock", "ownershipControls",
    "policy", "policyStatus", "publicAccessBlock", "replication", "requestPayment", "restore", "retention", "select",
    "tagging", "torrent", "uploads", "versioning", "versions", "website", "uploadId",
];

/// parameters that do not change what is addressed
const NEUTRAL: &[&str] = &[
    "partNumber", "versionId", "list-type=2", "list-type=1", "list-type=", "prefix=p", "max-keys=3", "delimiter", "marker=m", "key=k",
    "response-content-type=x", "x-id=GetObject", "foo", "foo=bar", "Policy", "UPLOADS", "Delete", "acls", "upload", "",
];

/// What a request denotes: an operation that must be invoked, operations that may be, or none.
#[derive(Debug, PartialEq, Eq, Clone)]
enum Denotes {
    Exactly(&'static str),
    /// one of them, or refused
    OneOf(Vec<&'static str>),
}

/// the operation table of S3, restricted to what the service implements
fn denotes(method: &str, res: Resource, params: &[(String, String)], copy: bool, form: bool) -> Denotes {
    use Resource::*;
    let has = |n: &str| params.iter().any(|p| p.0 == n);
    let value = |n: &str| params.iter().find(|p| p.0 == n).map(|p| p.1.as_str());
    let subs: Vec<&str> = SUB.iter().copied().filter(|s| has(s)).collect();
    let none = Denotes::OneOf(vec![]);
    let exactly = |op: &'static str| Denotes::Exactly(op);
    let maybe = |op: &'static str| Denotes::OneOf(vec![op]);
    if form && method == "POST" && res == Bucket {
        return if subs.is_empty() { exactly("put_object") } else { maybe("put_object") };
    }
    let odd = has("list-type") && !(method == "GET" && res == Bucket);
    let op = match (method, res, subs.as_slice()) {
        ("GET", Service, []) => exactly("list_buckets"),
        ("GET", Service, _) => maybe("list_buckets"),
        ("GET", Bucket, []) => match value("list-type") {
            None => exactly("list_objects"),
            Some("2") => exactly("list_objects_v2"),
            Some(_) => maybe("list_objects"),
        },
        ("GET", Bucket, ["location"]) => {
            if has("list-type") {
                Denotes::OneOf(vec!["get_bucket_location", "list_objects_v2"])
            } else {
                exactly("get_bucket_location")
            }
        }
        ("HEAD", Bucket, []) => exactly("head_bucket"),
        ("HEAD", Bucket, _) => maybe("head_bucket"),
        ("PUT", Bucket, []) => exactly("create_bucket"),
        ("DELETE", Bucket, []) => exactly("delete_bucket"),
        ("POST", Bucket, ["delete"]) => exactly("delete_objects"),
        ("GET", Object, []) => exactly("get_object"),
        ("HEAD", Object, []) => exactly("head_object"),
        ("HEAD", Object, _) => maybe("head_object"),
        ("DELETE", Object, []) => {
            if has("partNumber") {
                maybe("delete_object")
            } else {
                exactly("delete_object")
            }
        }
        ("PUT", Object, []) => {
            if has("partNumber") {
                none
            } else if has("versionId") {
                maybe(if copy { "copy_object" } else { "put_object" })
            } else {
                exactly(if copy { "copy_object" } else { "put_object" })
            }
        }
        ("PUT", Object, ["uploadId"]) => {
            if copy || !has("partNumber") {
                // UploadPartCopy, or incomplete
                none
            } else {
                exactly("upload_part")
            }
        }
        ("POST", Object, ["uploads"]) => exactly("create_multipart_upload"),
        ("POST", Object, ["uploadId"]) => {
            if has("partNumber") {
                maybe("complete_multipart_upload")
            } else {
                exactly("complete_multipart_upload")
            }
        }
        ("POST", Object, ["uploads", "uploadId"]) => Denotes::OneOf(vec!["create_multipart_upload", "complete_multipart_upload"]),
        _ => none,
    };
    match op {
        Denotes::Exactly(o) if odd || (copy && method != "PUT") || (copy && res == Bucket) || (form && method == "POST") => Denotes::OneOf(vec![o]),
        d => d,
    }
}

const COMPLETE: &str = "<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>\"e\"</ETag></Part></CompleteMultipartUpload>";
const DELETE: &str = "<Delete><Object><Key>a</Key></Object></Delete>";

fn dispatch(cx: &mut Cx, fx: &Fixture, rq: &Rq, want: &Denotes) -> R {
    cx.add("evaluations", 1);
    let (rs, calls) = match fx.run(rq) {
        Ok(x) => x,
        Err(e) if e.starts_with("BAD-REQUEST") => {
            cx.add("not representable", 1);
            return Ok(());
        }
        Err(e) => fail!("{e}: {}", rq.show()),
    };
    let ops: Vec<&str> = calls.iter().map(|c| c.op).collect();
    cx.outcome(&(rs.status, &ops));
    ensure!(ops.len() <= 1, "{} invokes {ops:?}", rq.show());
    let good = match want {
        Denotes::Exactly(o) => ops == [*o] && rs.status < 400,
        Denotes::OneOf(v) => ops.iter().all(|o| v.contains(o)) && (!ops.is_empty() || rs.status >= 400),
    };
    ensure!(good, "{} denotes {want:?}, but invokes {ops:?} with the response {}", rq.show(), rs.show());
    Ok(())
}

/// the body that the operation needs
fn bodies(want: &Denotes) -> Vec<&'static str> {
    match want {
        Denotes::Exactly("delete_objects") => vec![DELETE],
        Denotes::Exactly("complete_multipart_upload") => vec![COMPLETE],
        Denotes::Exactly("create_bucket") => vec![""],
        Denotes::Exactly("put_object" | "upload_part") => vec!["", "data"],
        Denotes::Exactly(_) => vec![""],
        Denotes::OneOf(_) => vec!["", DELETE, COMPLETE],
    }
}

fn split_param(p: &str) -> (String, String) {
    let (n, v) = p.split_once('=').unwrap_or((p, ""));
    (n.into(), v.into())
}

/// a value that the operation accepts
fn fill(p: &str) -> String {
    match p {
        "uploadId" => "uploadId=u-1".into(),
        "partNumber" => "partNumber=2".into(),
        "versionId" => "versionId=v1".into(),
        _ => p.into(),
    }
}

fn r01(cx: &mut Cx) {
    sys::fix_clock(Some((T0 + 60, 0)));
    let cred = Cred::default();
    let open = Fixture::new(&[]);
    let auth = Fixture::new(&[&cred]);
    let thorough = cx.thorough;
    let alphabet: Vec<String> = SUB.iter().chain(NEUTRAL).map(|p| fill(p)).collect();
    let mut sets: Vec<Vec<String>> = vec![vec![]];
    for (i, a) in alphabet.iter().enumerate() {
        sets.push(vec![a.clone()]);
        for (j, b) in alphabet.iter().enumerate() {
            if i == j || split_param(a).0 == split_param(b).0 {
                continue;
            }
            sets.push(vec![a.clone(), b.clone()]);
            if thorough && i < j {
                for d in &alphabet[j + 1..] {
                    let names = [a, b, d].map(|x| split_param(x).0);
                    if names[0] != names[2] && names[1] != names[2] {
                        sets.push(vec![a.clone(), b.clone(), d.clone()]);
                    }
                }
            }
        }
    }
    let paths: &[(&str, Resource)] = &[
        ("/", Resource::Service),
        ("/aaa", Resource::Bucket),
        ("/aaa/", Resource::Bucket),
        ("/aaa/k", Resource::Object),
        ("/aaa/d/", Resource::Object),
        ("/aaa/d/k%20x", Resource::Object),
    ];
    for method in ["GET", "HEAD", "PUT", "POST", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "get", "Put", "LIST"] {
        for &(path, res) in paths {
            for group in sets.chunks(150) {
                cx.case(
                    || format!("{method} {path} with the parameters {:?} and following", group[0]),
                    |cx| {
                        for set in group {
                            let pairs: Vec<(String, String)> = set.iter().filter(|p| !p.is_empty()).map(|p| split_param(p)).collect();
                            for copy in [false, true] {
                                let want = denotes(method, res, &pairs, copy, false);
                                for body in bodies(&want) {
                                    let mut rq = Rq::new(method, path).body(body);
                                    if !set.is_empty() {
                                        rq = rq.q(&set.join("&"));
                                    }
                                    if copy {
                                        rq = rq.h("x-amz-copy-source", "/bbb/src");
                                    }
                                    cx.state(&(method, path, set, copy, body));
                                    dispatch(cx, &open, &rq, &want)?;
                                    if set.len() <= 1 || thorough {
                                        let mut r = rq.clone();
                                        sig::sign(&mut r, &cred, Payload::Hash, None);
                                        dispatch(cx, &auth, &r, &want)?;
                                        let mut r = rq.clone();
                                        sig::presign(&mut r, &cred, "3600", None);
                                        if r.build().is_ok() {
                                            dispatch(cx, &auth, &r, &want)?;
                                        }
                                    }
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // other ways to write a parameter
    for method in ["GET", "HEAD", "PUT", "POST", "DELETE"] {
        for &(path, res) in paths {
            cx.case(
                || format!("{method} {path} with parameters in other spellings"),
                |cx| {
                    for p in SUB {
                        for v in ["", "=", "=x", "=%20", "=true", "=1&a=b"] {
                            let every: String = p.bytes().map(|b| format!("%{b:02X}")).collect();
                            let first = format!("%{:02x}{}", p.as_bytes()[0], &p[1..]);
                            for name in [p.to_string(), every, first] {
                                let mut queries = vec![format!("{name}{v}"), format!("&{name}{v}"), format!("{name}{v}&"), format!("{name}{v}&&x=y"), format!("a=b&{name}{v}&zz=1")];
                                if *p == "uploadId" {
                                    queries.extend(queries.clone().into_iter().map(|q| format!("{q}&partNumber=1")).collect::<Vec<_>>());
                                }
                                for q in queries {
                                    let pairs = sig::params(Some(&q));
                                    let mut want = denotes(method, res, &pairs, false, false);
                                    if *p == "uploadId" && (v.is_empty() || v == "=") {
                                        // there is no such upload, but it is no other operation
                                        if let Denotes::Exactly(o) = want {
                                            want = Denotes::OneOf(vec![o]);
                                        }
                                    }
                                    for body in bodies(&want) {
                                        let rq = Rq::new(method, path).q(&q).body(body);
                                        cx.state(&(method, path, &q, body));
                                        dispatch(cx, &open, &rq, &want)?;
                                    }
                                }
                            }
                        }
                        // repeated: of the same operation, or refused
                        let f = fill(p);
                        let q = format!("{f}&{f}");
                        let want = denotes(method, res, &[split_param(&f)], false, false);
                        let want = match want {
                            Denotes::Exactly(o) => Denotes::OneOf(vec![o]),
                            d => d,
                        };
                        for body in ["", DELETE, COMPLETE] {
                            dispatch(cx, &open, &Rq::new(method, path).q(&q).body(body), &want)?;
                        }
                    }
                    // an empty query
                    let want = denotes(method, res, &[], false, false);
                    for q in ["", "&", "&&", "="] {
                        let body = bodies(&want)[0];
                        dispatch(cx, &open, &Rq::new(method, path).q(q).body(body), &want)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // headers that select nothing
    for method in ["GET", "HEAD", "PUT", "POST", "DELETE"] {
        for &(path, res) in paths {
            cx.case(
                || format!("{method} {path} with other headers"),
                |cx| {
                    for p in [None, Some("uploads"), Some("uploadId=u"), Some("uploadId=u&partNumber=1"), Some("delete"), Some("location"), Some("list-type=2"), Some("acl")] {
                        for (n, v) in [
                            ("content-type", "application/xml"),
                            ("content-type", "application/x-www-form-urlencoded"),
                            ("content-type", "multipart/mixed; boundary=AB"),
                            ("x-amz-copy-source-range", "bytes=0-1"),
                            ("x-amz-metadata-directive", "REPLACE"),
                            ("x-amz-tagging", "a=b"),
                            ("x-amz-acl", "private"),
                            ("range", "bytes=0-1"),
                            ("x-http-method-override", "DELETE"),
                            ("x-method-override", "DELETE"),
                            ("x-amz-meta-uploads", "x"),
                            ("expect", "100-continue"),
                            ("if-match", "x"),
                            ("host", "aaa.localhost"),
                            ("origin", "http://x"),
                        ] {
                            let pairs = sig::params(p);
                            let want = denotes(method, res, &pairs, false, false);
                            for body in bodies(&want) {
                                let mut rq = Rq::new(method, path).body(body);
                                rq.query = p.map(str::to_owned);
                                rq.set(n, v);
                                cx.state(&(method, path, p, n, v, body));
                                dispatch(cx, &open, &rq, &want)?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // forms
    for method in ["POST", "PUT", "GET", "DELETE"] {
        for &(path, res) in paths {
            cx.case(
                || format!("{method} {path} with a form"),
                |cx| {
                    for set in sets.iter().filter(|s| s.len() <= 2) {
                        let pairs: Vec<(String, String)> = set.iter().filter(|p| !p.is_empty()).map(|p| split_param(p)).collect();
                        let mut rq = Form::new("k", b"content").sign_open(&cred, None).request("aaa");
                        rq.method = method.into();
                        rq.path = path.into();
                        if !set.is_empty() {
                            rq = rq.q(&set.join("&"));
                        }
                        cx.state(&(method, path, set));
                        if method == "POST" {
                            let want = if res == Resource::Bucket { denotes(method, res, &pairs, false, true) } else { Denotes::OneOf(vec![]) };
                            dispatch(cx, &auth, &rq, &want)?;
                            // not as a form, if there is no authentication
                            dispatch(cx, &open, &rq, &Denotes::OneOf(if res == Resource::Bucket { vec!["put_object"] } else { vec![] }))?;
                        } else if set.len() <= 1 {
                            sig::sign(&mut rq, &cred, Payload::Hash, None);
                            let want = match denotes(method, res, &pairs, false, false) {
                                Denotes::Exactly(o) => Denotes::OneOf(vec![o]),
                                d => d,
                            };
                            dispatch(cx, &auth, &rq, &want)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

// --- R02 ---

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Place {
    Header,
    Query,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Text,
    Int,
    Bool,
    Mime,
    CopySource,
}

struct Param<T> {
    place: Place,
    name: &'static str,
    kind: Kind,
    set: fn(&mut T, &str),
}

macro_rules! params {
    ($t:ty; $($place:ident $name:literal $kind:ident $field:ident),* $(,)?) => {
        vec![$(Param::<$t> {
            place: Place::$place,
            name: $name,
            kind: Kind::$kind,
            set: |i, v| params!(@set i v $kind $field),
        }),*]
    };
    (@set $i:ident $v:ident Text $f:ident) => { $i.$f = $v.to_owned().into() };
    (@set $i:ident $v:ident Mime $f:ident) => { $i.$f = $v.to_owned().into() };
    (@set $i:ident $v:ident CopySource $f:ident) => { $i.$f = $v.to_owned().into() };
    (@set $i:ident $v:ident Int $f:ident) => { $i.$f = $v.parse::<i64>().expect("harness: int").into() };
    (@set $i:ident $v:ident Bool $f:ident) => { $i.$f = Some($v == "true") };
}

impl Kind {
    /// values that are delivered as they are
    fn values(self, place: Place) -> Vec<&'static str> {
        match (self, place) {
            (Kind::Text, Place::Header) => vec![
                "v", "a b", "a  b", "%41", "%", "a%2Fb", "a+b", "a,b", "a;b=c", "\"quoted\"", "0", "-1", "true", "a=b&c=d", "<x>",
                "Wed, 21 Oct 2015 07:28:00 GMT", "2030-01-01T00:00:00Z", "id=\"abc\", emailAddress=\"x@y.z\"", "~!@#$^*()_{}|:?[]`'\\",
            ],
            (Kind::Text, Place::Query) => vec![
                "v", "a b", " ", "", "%41", "%", "%2541", "a/b", "/", "a+b", "+", "a,b", "a;b", "=", "a=b", "&", "a&b=c", "#", "?", "\"", "0", "-1",
                "true", "\u{e4}\u{20ac}\u{1f600}", "\u{0}", "\r\n", "\t", "~!@$^*()_{}|:[]`'\\<>",
            ],
            (Kind::Int, _) => vec!["0", "1", "2", "10", "1000", "10000", "2147483647", "2147483648", "4294967296", "9223372036854775807"],
            (Kind::Bool, _) => vec!["true", "false"],
            (Kind::Mime, _) => vec![
                "text/plain", "application/octet-stream", "binary/octet-stream", "text/html; charset=utf-8", "image/svg+xml", "a/b",
                "application/vnd.x.y-z+json;v=1", "multipart/mixed; boundary=x", "TEXT/HTML", "text", "not a type", "*/*", "a/b;", "x;y",
            ],
            (Kind::CopySource, _) => vec!["/bbb/src", "bbb/src", "bbb/a%20b", "/bbb/a/b/c", "bbb/%C3%A4", "bbb/a+b", "bbb/%2B", "bbb/a%2Fb"],
        }
    }
    /// values that are refused
    fn malformed(self) -> Vec<&'static str> {
        match self {
            Kind::Text | Kind::Mime => vec![],
            Kind::Int => vec!["x", "1x", "x1", "1.0", "1e3", "0x10", "1 2", "1,2", "--1", "9223372036854775808", "99999999999999999999999", "NaN", "true", "1_000"],
            Kind::Bool => vec!["x", "1", "0", "yes", "no", "truex", "true false", "tru", "null", "t"],
            Kind::CopySource => vec!["x", "/", "bbb", "/bbb", "bbb/", "/"],
        }
    }
    fn distinct(self, i: usize) -> String {
        match self {
            Kind::Text => format!("value-{i}"),
            Kind::Int => format!("{}", 100 + i),
            Kind::Bool => (if i % 2 == 0 { "true" } else { "false" }).into(),
            Kind::Mime => format!("text/x-{i}"),
            Kind::CopySource => format!("bbb/source-{i}"),
        }
    }
}

fn put_param<T>(rq: &mut Rq, p: &Param<T>, v: &str) {
    match p.place {
        Place::Header => rq.set(p.name, v),
        Place::Query => {
            let x = format!("{}={}", p.name, enc(v, false));
            rq.query = Some(rq.query.take().map_or(x.clone(), |q| format!("{q}&{x}")));
        }
    }
}

struct Target<T: Norm> {
    name: &'static str,
    base: Rq,
    make: fn() -> T,
    params: Vec<Param<T>>,
    body: bool,
    /// XML that the operation needs
    xml: Option<&'static str>,
    meta: bool,
}

struct Fixtures {
    cred: Cred,
    open: Fixture,
    auth: Fixture,
}

fn delivered(cx: &mut Cx, fx: &Fixture, rq: &Rq, want: &Call) -> R {
    cx.add("evaluations", 1);
    cx.state(&rq.show());
    let (rs, calls) = match fx.run(rq) {
        Ok(x) => x,
        Err(e) if e.starts_with("BAD-REQUEST") => {
            cx.add("not representable", 1);
            return Ok(());
        }
        Err(e) => fail!("{e}: {}", rq.show()),
    };
    cx.outcome(&(rs.status, want.op));
    ensure!(
        calls == [want.clone()],
        "{}\n delivers {}\n instead of {}\n response {}",
        rq.show(),
        calls.iter().map(Call::show).collect::<Vec<_>>().join(", "),
        want.show(),
        rs.show()
    );
    ensure!(rs.status < 400, "{} is refused: {}", rq.show(), rs.show());
    Ok(())
}

fn rejected(cx: &mut Cx, fx: &Fixture, rq: &Rq) -> R {
    cx.add("evaluations", 1);
    cx.state(&rq.show());
    let (rs, calls) = match fx.run(rq) {
        Ok(x) => x,
        Err(e) if e.starts_with("BAD-REQUEST") => return Ok(()),
        Err(e) => fail!("{e}: {}", rq.show()),
    };
    ensure!(calls.is_empty(), "{} has a malformed value, but invokes {}", rq.show(), calls.iter().map(Call::show).collect::<Vec<_>>().join(", "));
    ensure!(rs.status >= 400 && rs.status < 500, "{} has a malformed value, but the response is {}", rq.show(), rs.show());
    Ok(())
}

/// the same for a document without any element, which may also count as none at all
fn rejected_or_none(cx: &mut Cx, fx: &Fixture, rq: &Rq, none: &Option<Call>) -> R {
    match none {
        Some(want) => rejected(cx, fx, rq).or_else(|_| delivered(cx, fx, rq, want)),
        None => rejected(cx, fx, rq),
    }
}

/// all ways to send the request
fn everywhere(cx: &mut Cx, fx: &Fixtures, rq: &Rq, want: &Call, all: bool) -> R {
    delivered(cx, &fx.open, rq, want)?;
    if all {
        let mut r = rq.clone();
        sig::sign(&mut r, &fx.cred, Payload::Hash, None);
        delivered(cx, &fx.auth, &r, want)?;
        let mut r = rq.clone();
        sig::presign(&mut r, &fx.cred, "3600", None);
        delivered(cx, &fx.auth, &r, want)?;
    }
    Ok(())
}

const DATA: &[u8] = b"the body";

impl<T: Norm> Target<T> {
    fn rq(&self) -> Rq {
        match self.xml {
            Some(x) => self.base.clone().body(x),
            None if self.body => self.base.clone().body(DATA),
            None => self.base.clone(),
        }
    }
    fn want(&self, values: &[(usize, &str)]) -> Call {
        let mut i = (self.make)();
        for (p, v) in values {
            (self.params[*p].set)(&mut i, v);
        }
        let mut c = expect(i);
        if self.body {
            c.body = Some(Ok(DATA.to_vec()));
        }
        c
    }
    fn with(&self, values: &[(usize, &str)]) -> Rq {
        let mut rq = self.rq();
        for (p, v) in values {
            put_param(&mut rq, &self.params[*p], v);
        }
        rq
    }

    fn run(&self, cx: &mut Cx, fx: &Fixtures) {
        let n = self.params.len();
        let name = self.name;
        cx.case(
            || format!("{name} without parameters"),
            |cx| everywhere(cx, fx, &self.rq(), &self.want(&[]), true),
        );
        for (i, p) in self.params.iter().enumerate() {
            cx.case(
                || format!("{name}: {} with every value", p.name),
                |cx| {
                    for v in p.kind.values(p.place) {
                        everywhere(cx, fx, &self.with(&[(i, v)]), &self.want(&[(i, v)]), true)?;
                    }
                    if p.place == Place::Header {
                        // the case of the name
                        for n in [p.name.to_uppercase(), p.name.split('-').map(|w| w[..1].to_uppercase() + &w[1..]).collect::<Vec<_>>().join("-")] {
                            let v = p.kind.distinct(i);
                            let mut rq = self.rq();
                            rq.remove(p.name);
                            delivered(cx, &fx.open, &rq.h(&n, &v), &self.want(&[(i, &v)]))?;
                        }
                        // similar headers are something else
                        if p.kind != Kind::CopySource {
                            for n in [format!("{}-x", p.name), format!("x-{}", p.name), p.name.replace('-', "_")] {
                                if n != p.name {
                                    delivered(cx, &fx.open, &self.rq().h(&n, "v"), &self.want(&[]))?;
                                }
                            }
                        }
                    } else {
                        for q in [p.name.to_uppercase(), format!("{}x", p.name), p.name[1..].to_owned(), format!("x-{}", p.name)] {
                            let mut rq = self.rq();
                            let x = format!("{q}=5");
                            rq.query = Some(rq.query.map_or(x.clone(), |o| format!("{o}&{x}")));
                            delivered(cx, &fx.open, &rq, &self.want(&[]))?;
                        }
                        // in other encodings
                        if p.kind == Kind::Text {
                            for (written, v) in [("a+b", "a b"), ("a%20b", "a b"), ("%61", "a"), ("%c3%a4", "\u{e4}"), ("a%2bb", "a+b"), ("*", "*"), ("a=b", "a=b"), ("%26", "&"), ("~%7E", "~~")] {
                                let mut rq = self.rq();
                                let x = format!("{}={written}", p.name);
                                rq.query = Some(rq.query.map_or(x.clone(), |o| format!("{o}&{x}")));
                                everywhere(cx, fx, &rq, &self.want(&[(i, v)]), true)?;
                            }
                        }
                    }
                    Ok(())
                },
            );
            let bad = p.kind.malformed();
            if !bad.is_empty() {
                cx.case(
                    || format!("{name}: {} with malformed values", p.name),
                    |cx| {
                        for v in bad {
                            let rq = self.with(&[(i, v)]);
                            rejected(cx, &fx.open, &rq)?;
                            let mut r = rq.clone();
                            sig::sign(&mut r, &fx.cred, Payload::Hash, None);
                            rejected(cx, &fx.auth, &r)?;
                            // together with good ones
                            for (j, o) in self.params.iter().enumerate() {
                                if i != j {
                                    rejected(cx, &fx.open, &self.with(&[(j, &o.kind.distinct(j)), (i, v)]))?;
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
            if n > 1 {
                cx.case(
                    || format!("{name}: {} with each other parameter, all without it", p.name),
                    |cx| {
                        for j in 0..n {
                            if i == j {
                                continue;
                            }
                            let (a, b) = (p.kind.distinct(i), self.params[j].kind.distinct(j));
                            everywhere(cx, fx, &self.with(&[(i, &a), (j, &b)]), &self.want(&[(i, &a), (j, &b)]), cx.thorough)?;
                            if cx.thorough {
                                for k in 0..n {
                                    if k != i && k != j {
                                        let c = self.params[k].kind.distinct(k);
                                        let v = [(i, a.as_str()), (j, b.as_str()), (k, c.as_str())];
                                        delivered(cx, &fx.open, &self.with(&v), &self.want(&v))?;
                                    }
                                }
                                for va in p.kind.values(p.place) {
                                    for vb in self.params[j].kind.values(self.params[j].place) {
                                        delivered(cx, &fx.open, &self.with(&[(i, va), (j, vb)]), &self.want(&[(i, va), (j, vb)]))?;
                                    }
                                }
                            }
                        }
                        let vals: Vec<(usize, String)> = (0..n).map(|j| (j, self.params[j].kind.distinct(j))).collect();
                        for skip in [Some(i), None] {
                            let v: Vec<(usize, &str)> = vals.iter().filter(|x| Some(x.0) != skip).map(|(j, v)| (*j, v.as_str())).collect();
                            everywhere(cx, fx, &self.with(&v), &self.want(&v), true)?;
                            let r: Vec<(usize, &str)> = v.iter().rev().copied().collect();
                            everywhere(cx, fx, &self.with(&r), &self.want(&v), true)?;
                            // with other values
                            let w: Vec<(usize, String)> = v.iter().map(|(j, _)| (*j, self.params[*j].kind.distinct(j + 1))).collect();
                            let w: Vec<(usize, &str)> = w.iter().map(|(j, v)| (*j, v.as_str())).collect();
                            delivered(cx, &fx.open, &self.with(&w), &self.want(&w))?;
                        }
                        Ok(())
                    },
                );
            }
        }
        if self.meta {
            cx.case(
                || format!("{name}: metadata"),
                |cx| {
                    let names = ["a", "A", "color", "x-amz-meta-b", "a.b", "a_b", "0", "content-type", "meta", "a-b-c", "x"];
                    let one = |pairs: &[(&str, &str)]| {
                        let mut rq = self.rq();
                        let mut want = self.want(&[]);
                        let mut m = std::collections::BTreeMap::new();
                        for (n, v) in pairs {
                            rq = rq.h(&format!("x-amz-meta-{n}"), v);
                            m.insert(n.to_ascii_lowercase(), (*v).to_owned());
                        }
                        want.meta = Some(m);
                        (rq, want)
                    };
                    for n in names {
                        for v in Kind::Text.values(Place::Header) {
                            let (rq, want) = one(&[(n, v)]);
                            everywhere(cx, fx, &rq, &want, true)?;
                        }
                    }
                    for (i, a) in names.iter().enumerate() {
                        for b in &names[i + 1..] {
                            if a.eq_ignore_ascii_case(b) {
                                continue;
                            }
                            let (rq, want) = one(&[(a, "first"), (b, "second")]);
                            everywhere(cx, fx, &rq, &want, true)?;
                        }
                    }
                    for n in (2..=40).chain([64, 65, 99, 100, 128, 129, 256, 257, 1000]) {
                        let all: Vec<(String, String)> = (0..n).map(|i| (format!("n{i}"), format!("v{i}"))).collect();
                        let all: Vec<(&str, &str)> = all.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
                        let (rq, want) = one(&all);
                        everywhere(cx, fx, &rq, &want, true)?;
                    }
                    // other prefixes
                    for h in ["x-amz-metadata", "x-amz-met-a", "amz-meta-a", "x-meta-a"] {
                        delivered(cx, &fx.open, &self.rq().h(h, "v"), &self.want(&[]))?;
                    }
                    Ok(())
                },
            );
        }
    }
}

const MULTI: &str = "<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>e</ETag></Part></CompleteMultipartUpload>";

fn part(n: i64, e: &str) -> CompletedPart {
    CompletedPart { part_number: Some(n), e_tag: Some(e.into()) }
}

fn s(x: &str) -> String {
    x.to_owned()
}

fn r02(cx: &mut Cx) {
    sys::fix_clock(Some((T0 + 60, 0)));
    let cred = Cred::default();
    let fx = Fixtures { open: Fixture::new(&[]), auth: Fixture::new(&[&cred]), cred };
    macro_rules! target {
        ($name:literal $t:ident { $($init:tt)* } $base:expr, body $body:expr, xml $xml:expr, meta $meta:expr; $($p:tt)*) => {
            Target::<$t> {
                name: $name,
                base: $base,
                make: || $t { $($init)* ..Default::default() },
                params: params!($t; $($p)*),
                body: $body,
                xml: $xml,
                meta: $meta,
            }
            .run(cx, &fx);
        };
    }
    target!("CompleteMultipartUpload" CompleteMultipartUploadRequest {
        bucket: s("aaa"), key: s("k"), upload_id: s("u-1"),
        multipart_upload: Some(CompletedMultipartUpload { parts: Some(vec![part(1, "e")]) }),
    } Rq::obj("POST", "aaa", "k").q("uploadId=u-1"), body false, xml Some(MULTI), meta false;
        Header "x-amz-request-payer" Text request_payer,
        Header "x-amz-expected-bucket-owner" Text expected_bucket_owner,
    );
    target!("CopyObject" CopyObjectRequest {
        bucket: s("aaa"), key: s("k"), copy_source: s("bbb/src"),
    } Rq::obj("PUT", "aaa", "k").h("x-amz-copy-source", "bbb/src"), body false, xml None, meta true;
        Header "x-amz-copy-source" CopySource copy_source,
        Header "x-amz-acl" Text acl,
        Header "cache-control" Text cache_control,
        Header "content-disposition" Text content_disposition,
        Header "content-encoding" Text content_encoding,
        Header "content-language" Text content_language,
        Header "content-type" Mime content_type,
        Header "x-amz-copy-source-if-match" Text copy_source_if_match,
        Header "x-amz-copy-source-if-modified-since" Text copy_source_if_modified_since,
        Header "x-amz-copy-source-if-none-match" Text copy_source_if_none_match,
        Header "x-amz-copy-source-if-unmodified-since" Text copy_source_if_unmodified_since,
        Header "expires" Text expires,
        Header "x-amz-grant-full-control" Text grant_full_control,
        Header "x-amz-grant-read" Text grant_read,
        Header "x-amz-grant-read-acp" Text grant_read_acp,
        Header "x-amz-grant-write-acp" Text grant_write_acp,
        Header "x-amz-metadata-directive" Text metadata_directive,
        Header "x-amz-tagging-directive" Text tagging_directive,
        Header "x-amz-server-side-encryption" Text server_side_encryption,
        Header "x-amz-storage-class" Text storage_class,
        Header "x-amz-website-redirect-location" Text website_redirect_location,
        Header "x-amz-server-side-encryption-customer-algorithm" Text sse_customer_algorithm,
        Header "x-amz-server-side-encryption-customer-key" Text sse_customer_key,
        Header "x-amz-server-side-encryption-customer-key-MD5" Text sse_customer_key_md5,
        Header "x-amz-server-side-encryption-aws-kms-key-id" Text ssekms_key_id,
        Header "x-amz-server-side-encryption-context" Text ssekms_encryption_context,
        Header "x-amz-server-side-encryption-bucket-key-enabled" Bool bucket_key_enabled,
        Header "x-amz-copy-source-server-side-encryption-customer-algorithm" Text copy_source_sse_customer_algorithm,
        Header "x-amz-copy-source-server-side-encryption-customer-key" Text copy_source_sse_customer_key,
        Header "x-amz-copy-source-server-side-encryption-customer-key-MD5" Text copy_source_sse_customer_key_md5,
        Header "x-amz-request-payer" Text request_payer,
        Header "x-amz-tagging" Text tagging,
        Header "x-amz-object-lock-mode" Text object_lock_mode,
        Header "x-amz-object-lock-retain-until-date" Text object_lock_retain_until_date,
        Header "x-amz-object-lock-legal-hold" Text object_lock_legal_hold_status,
        Header "x-amz-expected-bucket-owner" Text expected_bucket_owner,
        Header "x-amz-source-expected-bucket-owner" Text expected_source_bucket_owner,
    );
    target!("CreateMultipartUpload" CreateMultipartUploadRequest {
        bucket: s("aaa"), key: s("k"),
    } Rq::obj("POST", "aaa", "k").q("uploads="), body false, xml None, meta true;
        Header "x-amz-acl" Text acl,
        Header "cache-control" Text cache_control,
        Header "content-disposition" Text content_disposition,
        Header "content-encoding" Text content_encoding,
        Header "content-language" Text content_language,
        Header "content-type" Mime content_type,
        Header "expires" Text expires,
        Header "x-amz-grant-full-control" Text grant_full_control,
        Header "x-amz-grant-read" Text grant_read,
        Header "x-amz-grant-read-acp" Text grant_read_acp,
        Header "x-amz-grant-write-acp" Text grant_write_acp,
        Header "x-amz-server-side-encryption" Text server_side_encryption,
        Header "x-amz-storage-class" Text storage_class,
        Header "x-amz-website-redirect-location" Text website_redirect_location,
        Header "x-amz-server-side-encryption-customer-algorithm" Text sse_customer_algorithm,
        Header "x-amz-server-side-encryption-customer-key" Text sse_customer_key,
        Header "x-amz-server-side-encryption-customer-key-MD5" Text sse_customer_key_md5,
        Header "x-amz-server-side-encryption-aws-kms-key-id" Text ssekms_key_id,
        Header "x-amz-server-side-encryption-context" Text ssekms_encryption_context,
        Header "x-amz-server-side-encryption-bucket-key-enabled" Bool bucket_key_enabled,
        Header "x-amz-request-payer" Text request_payer,
        Header "x-amz-tagging" Text tagging,
        Header "x-amz-object-lock-mode" Text object_lock_mode,
        Header "x-amz-object-lock-retain-until-date" Text object_lock_retain_until_date,
        Header "x-amz-object-lock-legal-hold" Text object_lock_legal_hold_status,
        Header "x-amz-expected-bucket-owner" Text expected_bucket_owner,
    );
    target!("CreateBucket" CreateBucketRequest {
        bucket: s("aaa"),
    } Rq::new("PUT", "/aaa"), body false, xml None, meta false;
        Header "x-amz-acl" Text acl,
        Header "x-amz-grant-full-control" Text grant_full_control,
        Header "x-amz-grant-read" Text grant_read,
        Header "x-amz-grant-read-acp" Text grant_read_acp,
        Header "x-amz-grant-write" Text grant_write,
        Header "x-amz-grant-write-acp" Text grant_write_acp,
        Header "x-amz-bucket-object-lock-enabled" Bool object_lock_enabled_for_bucket,
    );
    target!("DeleteObject" DeleteObjectRequest {
        bucket: s("aaa"), key: s("k"),
    } Rq::obj("DELETE", "aaa", "k"), body false, xml None, meta false;
        Header "x-amz-bypass-governance-retention" Bool bypass_governance_retention,
        Header "x-amz-mfa" Text mfa,
        Header "x-amz-request-payer" Text request_payer,
        Header "x-amz-expected-bucket-owner" Text expected_bucket_owner,
        Query "versionId" Text version_id,
    );
    target!("DeleteObjects" DeleteObjectsRequest {
        bucket: s("aaa"),
        delete: Delete { objects: vec![ObjectIdentifier { key: s("a"), version_id: None }], quiet: None },
    } Rq::new("POST", "/aaa").q("delete="), body false, xml Some(DELETE), meta false;
        Header "x-amz-bypass-governance-retention" Bool bypass_governance_retention,
        Header "x-amz-mfa" Text mfa,
        Header "x-amz-request-payer" Text request_payer,
        Header "x-amz-expected-bucket-owner" Text expected_bucket_owner,
    );
    target!("GetBucketLocation" GetBucketLocationRequest {
        bucket: s("aaa"),
    } Rq::new("GET", "/aaa").q("location="), body false, xml None, meta false;
        Header "x-amz-expected-bucket-owner" Text expected_bucket_owner,
    );
    target!("GetObject" GetObjectRequest {
        bucket: s("aaa"), key: s("k"),
    } Rq::obj("GET", "aaa", "k"), body false, xml None, meta false;
        Header "if-match" Text if_match,
        Header "if-modified-since" Text if_modified_since,
        Header "if-none-match" Text if_none_match,
        Header "if-unmodified-since" Text if_unmodified_since,
        Header "range" Text range,
        Header "x-amz-server-side-encryption-customer-algorithm" Text sse_customer_algorithm,
        Header "x-amz-server-side-encryption-customer-key" Text sse_customer_key,
        Header "x-amz-server-side-encryption-customer-key-MD5" Text sse_customer_key_md5,
        Header "x-amz-request-payer" Text request_payer,
        Header "x-amz-expected-bucket-owner" Text expected_bucket_owner,
        Query "partNumber" Int part_number,
        Query "response-cache-control" Text response_cache_control,
        Query "response-content-disposition" Text response_content_disposition,
        Query "response-content-encoding" Text response_content_encoding,
        Query "response-content-language" Text response_content_language,
        Query "response-content-type" Text response_content_type,
        Query "response-expires" Text response_expires,
        Query "versionId" Text version_id,
    );
    target!("HeadObject" HeadObjectRequest {
        bucket: s("aaa"), key: s("k"),
    } Rq::obj("HEAD", "aaa", "k"), body false, xml None, meta false;
        Header "if-match" Text if_match,
        Header "if-modified-since" Text if_modified_since,
        Header "if-none-match" Text if_none_match,
        Header "if-unmodified-since" Text if_unmodified_since,
        Header "range" Text range,
        Header "x-amz-server-side-encryption-customer-algorithm" Text sse_customer_algorithm,
        Header "x-amz-server-side-encryption-customer-key" Text sse_customer_key,
        Header "x-amz-server-side-encryption-customer-key-MD5" Text sse_customer_key_md5,
        Header "x-amz-request-payer" Text request_payer,
        Header "x-amz-expected-bucket-owner" Text expected_bucket_owner,
        Query "partNumber" Int part_number,
        Query "versionId" Text version_id,
    );
    target!("ListObjects" ListObjectsRequest {
        bucket: s("aaa"),
    } Rq::new("GET", "/aaa"), body false, xml None, meta false;
        Query "delimiter" Text delimiter,
        Query "encoding-type" Text encoding_type,
        Query "marker" Text marker,
        Query "max-keys" Int max_keys,
        Query "prefix" Text prefix,
        Header "x-amz-request-payer" Text request_payer,
        Header "x-amz-expected-bucket-owner" Text expected_bucket_owner,
    );
    target!("ListObjectsV2" ListObjectsV2Request {
        bucket: s("aaa"),
    } Rq::new("GET", "/aaa").q("list-type=2"), body false, xml None, meta false;
        Query "continuation-token" Text continuation_token,
        Query "delimiter" Text delimiter,
        Query "encoding-type" Text encoding_type,
        Query "fetch-owner" Bool fetch_owner,
        Query "max-keys" Int max_keys,
        Query "prefix" Text prefix,
        Query "start-after" Text start_after,
        Header "x-amz-request-payer" Text request_payer,
        Header "x-amz-expected-bucket-owner" Text expected_bucket_owner,
    );
    target!("PutObject" PutObjectRequest {
        bucket: s("aaa"), key: s("k"), content_length: Some(DATA.len() as i64),
    } Rq::obj("PUT", "aaa", "k"), body true, xml None, meta true;
        Header "x-amz-acl" Text acl,
        Header "cache-control" Text cache_control,
        Header "content-disposition" Text content_disposition,
        Header "content-encoding" Text content_encoding,
        Header "content-language" Text content_language,
        Header "content-md5" Text content_md5,
        Header "content-type" Mime content_type,
        Header "expires" Text expires,
        Header "x-amz-grant-full-control" Text grant_full_control,
        Header "x-amz-grant-read" Text grant_read,
        Header "x-amz-grant-read-acp" Text grant_read_acp,
        Header "x-amz-grant-write-acp" Text grant_write_acp,
        Header "x-amz-server-side-encryption" Text server_side_encryption,
        Header "x-amz-storage-class" Text storage_class,
        Header "x-amz-website-redirect-location" Text website_redirect_location,
        Header "x-amz-server-side-encryption-customer-algorithm" Text sse_customer_algorithm,
        Header "x-amz-server-side-encryption-customer-key" Text sse_customer_key,
        Header "x-amz-server-side-encryption-customer-key-MD5" Text sse_customer_key_md5,
        Header "x-amz-server-side-encryption-aws-kms-key-id" Text ssekms_key_id,
        Header "x-amz-server-side-encryption-context" Text ssekms_encryption_context,
        Header "x-amz-server-side-encryption-bucket-key-enabled" Bool bucket_key_enabled,
        Header "x-amz-request-payer" Text request_payer,
        Header "x-amz-tagging" Text tagging,
        Header "x-amz-object-lock-mode" Text object_lock_mode,
        Header "x-amz-object-lock-retain-until-date" Text object_lock_retain_until_date,
        Header "x-amz-object-lock-legal-hold" Text object_lock_legal_hold_status,
        Header "x-amz-expected-bucket-owner" Text expected_bucket_owner,
    );
    target!("UploadPart" UploadPartRequest {
        bucket: s("aaa"), key: s("k"), upload_id: s("u-1"), part_number: 7, content_length: Some(DATA.len() as i64),
    } Rq::obj("PUT", "aaa", "k").q("partNumber=7&uploadId=u-1"), body true, xml None, meta false;
        Header "content-md5" Text content_md5,
        Header "x-amz-server-side-encryption-customer-algorithm" Text sse_customer_algorithm,
        Header "x-amz-server-side-encryption-customer-key" Text sse_customer_key,
        Header "x-amz-server-side-encryption-customer-key-MD5" Text sse_customer_key_md5,
        Header "x-amz-request-payer" Text request_payer,
        Header "x-amz-expected-bucket-owner" Text expected_bucket_owner,
    );
    target!("DeleteBucket" DeleteBucketRequest {
        bucket: s("aaa"),
    } Rq::new("DELETE", "/aaa"), body false, xml None, meta false;
        Header "x-amz-expected-bucket-owner" Text expected_bucket_owner,
    );
    target!("HeadBucket" HeadBucketRequest {
        bucket: s("aaa"),
    } Rq::new("HEAD", "/aaa"), body false, xml None, meta false;
        Header "x-amz-expected-bucket-owner" Text expected_bucket_owner,
    );
    required(cx, &fx);
    paths(cx, &fx);
    xml_bodies(cx, &fx);
}

/// parameters without which there is no operation
fn required(cx: &mut Cx, fx: &Fixtures) {
    cx.case(
        || "partNumber and uploadId with every value".into(),
        |cx| {
            for n in Kind::Int.values(Place::Query) {
                for u in Kind::Text.values(Place::Query) {
                    if u.is_empty() {
                        continue;
                    }
                    for (a, b) in [("partNumber", "uploadId"), ("uploadId", "partNumber")] {
                        let (x, y) = if a == "partNumber" { (n, u) } else { (u, n) };
                        let rq = Rq::obj("PUT", "aaa", "k").qs(&[(a, x), (b, y)]).body(DATA);
                        let mut want = expect(UploadPartRequest {
                            bucket: s("aaa"),
                            key: s("k"),
                            upload_id: s(u),
                            part_number: n.parse().expect("int"),
                            content_length: Some(DATA.len() as i64),
                            ..Default::default()
                        });
                        want.body = Some(Ok(DATA.to_vec()));
                        everywhere(cx, fx, &rq, &want, true)?;
                    }
                }
            }
            for n in Kind::Int.malformed() {
                rejected(cx, &fx.open, &Rq::obj("PUT", "aaa", "k").qs(&[("partNumber", n), ("uploadId", "u")]).body(DATA))?;
            }
            for u in Kind::Text.values(Place::Query) {
                if u.is_empty() {
                    continue;
                }
                let want = expect(CompleteMultipartUploadRequest {
                    bucket: s("aaa"),
                    key: s("k"),
                    upload_id: s(u),
                    multipart_upload: Some(CompletedMultipartUpload { parts: Some(vec![part(1, "e")]) }),
                    ..Default::default()
                });
                everywhere(cx, fx, &Rq::obj("POST", "aaa", "k").qs(&[("uploadId", u)]).body(MULTI), &want, true)?;
            }
            Ok(())
        },
    );
    for len in [0usize, 1, 1000, 65536, 300_000] {
        cx.case(
            || format!("a body of {len} bytes"),
            |cx| {
                let data = crate::store::content(5, len);
                for piece in [len.max(1), 1 + len / 3, 4096] {
                    let mut want = expect(PutObjectRequest { bucket: s("aaa"), key: s("k"), content_length: Some(len as i64), ..Default::default() });
                    want.body = Some(Ok(data.clone()));
                    delivered(cx, &fx.open, &Rq::obj("PUT", "aaa", "k").body(&data).split_every(piece).h("content-length", len.to_string()), &want).or_else(|_| delivered(cx, &fx.open, &Rq::obj("PUT", "aaa", "k").body(&data).split_every(piece), &want))?;
                }
                Ok(())
            },
        );
    }
}

/// bucket and key
fn paths(cx: &mut Cx, fx: &Fixtures) {
    let keys = [
        "k", "a/b", "a b", "a+b", "%41", "%2541", "%", "a%2Fb", "?", "a?b=c", "#", "&", "a=b", "\u{e4}", "\u{20ac}/\u{1f600}", "~", "a//b", "/a", "a/", "*",
        "\"", "<x>", "\\", "'", "\u{7f}", "\r\n", "\t", ";", ":", "@", "k.", ".k", "..k", "$", "!", "()", "[]", "{}", "|", "^", "`", ",",
    ];
    for key in keys {
        cx.case(
            || format!("the key {key:?} in every operation"),
            |cx| {
                for bucket in ["aaa", "bucket.with-dots", "000"] {
                    let (b, k) = (s(bucket), s(key));
                    let table: Vec<(Rq, Call)> = vec![
                        (Rq::obj("GET", bucket, key), expect(GetObjectRequest { bucket: b.clone(), key: k.clone(), ..Default::default() })),
                        (Rq::obj("HEAD", bucket, key), expect(HeadObjectRequest { bucket: b.clone(), key: k.clone(), ..Default::default() })),
                        (Rq::obj("DELETE", bucket, key), expect(DeleteObjectRequest { bucket: b.clone(), key: k.clone(), ..Default::default() })),
                        (Rq::obj("POST", bucket, key).q("uploads"), expect(CreateMultipartUploadRequest { bucket: b.clone(), key: k.clone(), ..Default::default() })),
                        (
                            Rq::obj("PUT", bucket, key).h("x-amz-copy-source", format!("{bucket}/{}", enc(key, true))),
                            expect(CopyObjectRequest { bucket: b.clone(), key: k.clone(), copy_source: format!("{bucket}/{}", enc(key, true)), ..Default::default() }),
                        ),
                        (
                            Rq::obj("POST", bucket, key).q("uploadId=u").body(MULTI),
                            expect(CompleteMultipartUploadRequest {
                                bucket: b.clone(),
                                key: k.clone(),
                                upload_id: s("u"),
                                multipart_upload: Some(CompletedMultipartUpload { parts: Some(vec![part(1, "e")]) }),
                                ..Default::default()
                            }),
                        ),
                        (Rq::new("GET", &format!("/{bucket}")), expect(ListObjectsRequest { bucket: b.clone(), ..Default::default() })),
                        (Rq::new("GET", &format!("/{bucket}/")), expect(ListObjectsRequest { bucket: b.clone(), ..Default::default() })),
                        (Rq::new("HEAD", &format!("/{bucket}")), expect(HeadBucketRequest { bucket: b.clone(), ..Default::default() })),
                        (Rq::new("DELETE", &format!("/{bucket}")), expect(DeleteBucketRequest { bucket: b.clone(), ..Default::default() })),
                        (Rq::new("PUT", &format!("/{bucket}")), expect(CreateBucketRequest { bucket: b.clone(), ..Default::default() })),
                        (Rq::new("GET", &format!("/{bucket}")).q("location"), expect(GetBucketLocationRequest { bucket: b.clone(), ..Default::default() })),
                    ];
                    for (rq, want) in table {
                        everywhere(cx, fx, &rq, &want, true)?;
                        // written with lower-case digits, and all of it encoded
                        if rq.path.len() > bucket.len() + 2 {
                            let every: String = key.bytes().map(|b| format!("%{b:02x}")).collect();
                            let mut r = rq.clone();
                            r.path = format!("/{bucket}/{every}");
                            everywhere(cx, fx, &r, &want, true)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

/// ways to write text in XML
fn xml_texts(v: &str) -> Vec<String> {
    let esc: String = v
        .chars()
        .map(|c| match c {
            '&' => "&amp;".into(),
            '<' => "&lt;".into(),
            '>' => "&gt;".into(),
            '\r' => "&#13;".into(),
            c => c.to_string(),
        })
        .collect();
    let dec: String = v.chars().map(|c| format!("&#{};", c as u32)).collect();
    let hexa: String = v.chars().map(|c| format!("&#x{:x};", c as u32)).collect();
    let mut out = vec![esc.clone(), dec, hexa, esc.replace('"', "&quot;").replace('\'', "&apos;")];
    if !v.contains("]]>") && !v.contains('\r') {
        out.push(format!("<![CDATA[{v}]]>"));
        let mid = v.char_indices().nth(1).map_or(v.len(), |x| x.0);
        out.push(format!("<![CDATA[{}]]><!-- c -->{}", &v[..mid], xml_escape(&v[mid..])));
    }
    out.push(format!("<!-- c -->{esc}"));
    out
}

fn xml_escape(v: &str) -> String {
    v.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('\r', "&#13;")
}

/// the ways to write a document, from its root on
fn documents(root: &str, inner: &str) -> Vec<String> {
    let ns = "http://s3.amazonaws.com/doc/2006-03-01/";
    vec![
        format!("<{root}>{inner}</{root}>"),
        format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<{root} xmlns=\"{ns}\">{inner}</{root}>"),
        format!("<?xml version='1.0'?><!-- c --><{root} xmlns='{ns}' a=\"b\">{inner}</{root}>\n<!-- c -->\n"),
        format!("\n  <{root} >{inner}</{root} >\n"),
        format!("<p:{root} xmlns:p=\"{ns}\">{}</p:{root}>", prefixed(inner)),
    ]
}

/// every tag gets the prefix
fn prefixed(inner: &str) -> String {
    let mut out = String::new();
    let mut rest = inner;
    while let Some(i) = rest.find('<') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let len = if rest.starts_with("<![CDATA[") {
            rest.find("]]>").expect("end of CDATA")
        } else if rest.starts_with("<!--") {
            rest.find("-->").expect("end of comment")
        } else if rest.starts_with("</") {
            out.push_str("</p:");
            rest = &rest[2..];
            0
        } else {
            out.push_str("<p:");
            rest = &rest[1..];
            0
        };
        out.push_str(&rest[..len]);
        rest = &rest[len..];
    }
    out + rest
}

fn xml_bodies(cx: &mut Cx, fx: &Fixtures) {
    let texts = ["v", " ", " a ", "a b", "a&b", "<x>", "&amp;", "&#65;", "\"q\"", "it's", "\u{e4}\u{20ac}\u{1f600}", "a/b/../c", "]]", "a\nb", "\ta", "a\rb", "%41", "0", "true"];
    let pretty = |s: &str| s.replace("><", ">\n  <");
    // DeleteObjects
    let delete = |objects: &[(&str, Option<&str>)], quiet: Option<bool>| {
        expect(DeleteObjectsRequest {
            bucket: s("aaa"),
            delete: Delete {
                objects: objects.iter().map(|(k, v)| ObjectIdentifier { key: s(k), version_id: v.map(s) }).collect(),
                quiet,
            },
            ..Default::default()
        })
    };
    let post = |xml: &str| Rq::new("POST", "/aaa").q("delete").body(xml);
    for t in texts {
        cx.case(
            || format!("DeleteObjects: {t:?} as a key and a version"),
            |cx| {
                for x in xml_texts(t) {
                    for d in documents("Delete", &format!("<Object><Key>{x}</Key></Object>")) {
                        everywhere(cx, fx, &post(&d), &delete(&[(t, None)], None), true)?;
                    }
                    for d in documents("Delete", &format!("<Object><Key>k</Key><VersionId>{x}</VersionId></Object>")) {
                        everywhere(cx, fx, &post(&d), &delete(&[("k", Some(t))], None), false)?;
                    }
                    for d in documents("Delete", &format!("<Quiet>true</Quiet><Object><VersionId>{x}</VersionId><Key>{x}</Key></Object><Object><Key>{x}2</Key></Object>")) {
                        let second = format!("{t}2");
                        everywhere(cx, fx, &post(&d), &delete(&[(t, Some(t)), (&second, None)], Some(true)), false)?;
                    }
                }
                Ok(())
            },
        );
    }
    cx.case(
        || "DeleteObjects: lists and shapes".into(),
        |cx| {
            for n in [1usize, 2, 3, 10, 1000] {
                let keys: Vec<String> = (0..n).map(|i| format!("key-{i}")).collect();
                let objs: Vec<(&str, Option<&str>)> = keys.iter().map(|k| (k.as_str(), None)).collect();
                let inner: String = keys.iter().map(|k| format!("<Object><Key>{k}</Key></Object>")).collect();
                for (q, quiet) in [("", None), ("<Quiet>true</Quiet>", Some(true)), ("<Quiet>false</Quiet>", Some(false))] {
                    for inner in [format!("{inner}{q}"), format!("{q}{inner}"), pretty(&format!("{q}{inner}"))] {
                        for d in documents("Delete", &inner) {
                            everywhere(cx, fx, &post(&d), &delete(&objs, quiet), false)?;
                        }
                    }
                }
            }
            // elements that S3 does not define
            let d = "<Delete><Object><Key>a</Key><X><Key>b</Key></X></Object><Y>z</Y></Delete>";
            delivered(cx, &fx.open, &post(d), &delete(&[("a", None)], None)).or_else(|_| rejected(cx, &fx.open, &post(d)))
        },
    );
    // CompleteMultipartUpload
    let complete = |parts: &[(i64, &str)]| {
        expect(CompleteMultipartUploadRequest {
            bucket: s("aaa"),
            key: s("k"),
            upload_id: s("u"),
            multipart_upload: Some(CompletedMultipartUpload { parts: Some(parts.iter().map(|(n, e)| part(*n, e)).collect()) }),
            ..Default::default()
        })
    };
    let posted = |xml: &str| Rq::obj("POST", "aaa", "k").q("uploadId=u").body(xml);
    for t in texts.into_iter().chain(["\"d41d8cd98f00b204e9800998ecf8427e\"", "d41d8cd98f00b204e9800998ecf8427e"]) {
        cx.case(
            || format!("CompleteMultipartUpload: {t:?} as an ETag"),
            |cx| {
                for x in xml_texts(t) {
                    for inner in [format!("<Part><ETag>{x}</ETag><PartNumber>3</PartNumber></Part>"), format!("<Part><PartNumber>3</PartNumber><ETag>{x}</ETag></Part>")] {
                        for d in documents("CompleteMultipartUpload", &inner) {
                            everywhere(cx, fx, &posted(&d), &complete(&[(3, t)]), true)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    cx.case(
        || "CompleteMultipartUpload: lists and shapes".into(),
        |cx| {
            for n in [1i64, 2, 3, 10, 1000] {
                let etags: Vec<String> = (0..n).map(|i| format!("\"e{i}\"")).collect();
                let parts: Vec<(i64, &str)> = (0..n).map(|i| (10 * i + 1, etags[i as usize].as_str())).collect();
                let inner: String = parts.iter().map(|(n, e)| format!("<Part><PartNumber>{n}</PartNumber><ETag>{e}</ETag></Part>")).collect();
                for inner in [inner.clone(), pretty(&inner)] {
                    for d in documents("CompleteMultipartUpload", &inner) {
                        everywhere(cx, fx, &posted(&d), &complete(&parts), false)?;
                    }
                }
            }
            // the root that the SDK of the storage uses
            Ok(())
        },
    );
    // CreateBucket
    cx.case(
        || "CreateBucket: LocationConstraint".into(),
        |cx| {
            let want = |v: Option<&str>| {
                expect(CreateBucketRequest {
                    bucket: s("aaa"),
                    create_bucket_configuration: Some(CreateBucketConfiguration { location_constraint: v.map(s) }),
                    ..Default::default()
                })
            };
            for t in texts.into_iter().chain(["eu-west-1", "EU"]) {
                for x in xml_texts(t) {
                    for d in documents("CreateBucketConfiguration", &format!("<LocationConstraint>{x}</LocationConstraint>")) {
                        everywhere(cx, fx, &Rq::new("PUT", "/aaa").body(&d), &want(Some(t)), false)?;
                    }
                }
            }
            Ok(())
        },
    );
    // malformed documents
    let good: [(&str, String); 3] = [
        ("DeleteObjects", "<?xml version=\"1.0\"?><Delete><Quiet>true</Quiet><Object><Key>a&amp;b</Key><VersionId>v</VersionId></Object><Object><Key>c</Key></Object></Delete>".into()),
        ("CompleteMultipartUpload", format!("<?xml version=\"1.0\"?>{}", MULTI.replace("</Part>", "</Part><Part><PartNumber>2</PartNumber><ETag>f</ETag></Part>"))),
        ("CreateBucket", "<?xml version=\"1.0\"?><CreateBucketConfiguration><LocationConstraint>eu</LocationConstraint></CreateBucketConfiguration>".into()),
    ];
    for (op, doc) in good {
        let rq = |xml: &[u8]| match op {
            "DeleteObjects" => Rq::new("POST", "/aaa").q("delete").body(xml),
            "CompleteMultipartUpload" => Rq::obj("POST", "aaa", "k").q("uploadId=u").body(xml),
            _ => Rq::new("PUT", "/aaa").body(xml),
        };
        let none = match op {
            "DeleteObjects" => None,
            "CompleteMultipartUpload" => Some(expect(CompleteMultipartUploadRequest { bucket: s("aaa"), key: s("k"), upload_id: s("u"), ..Default::default() })),
            _ => Some(expect(CreateBucketRequest { bucket: s("aaa"), ..Default::default() })),
        };
        let has_element = |d: &[u8]| d.windows(2).any(|w| w[0] == b'<' && w[1].is_ascii_alphabetic());
        cx.case(
            || format!("{op}: truncated and damaged documents"),
            |cx| {
                let (rs, calls) = fx.open.run(&rq(doc.as_bytes()))?;
                ensure!(calls.len() == 1 && rs.status < 400, "harness: {}", rs.show());
                // (the last bracket is not judged)
                for end in 1..doc.len() - 1 {
                    if has_element(doc[..end].as_bytes()) {
                        rejected(cx, &fx.open, &rq(doc[..end].as_bytes()))?;
                    } else {
                        rejected_or_none(cx, &fx.open, &rq(doc[..end].as_bytes()), &none)?;
                    }
                }
                let at: Vec<usize> = (doc.find("?>").expect("declaration") + 2..doc.len() - 1).filter(|&i| doc.as_bytes()[i] == b'<' || doc.as_bytes()[i] == b'>').collect();
                for &i in &at {
                    // a missing bracket, or text that is not allowed
                    let mut d = doc.clone().into_bytes();
                    d.remove(i);
                    rejected(cx, &fx.open, &rq(&d))?;
                }
                // tags that do not match
                for (i, _) in doc.match_indices("</") {
                    let mut d = doc.clone();
                    d.insert(i + 2, 'x');
                    rejected(cx, &fx.open, &rq(d.as_bytes()))?;
                    let mut d = doc.clone();
                    let e = d[i..].find('>').expect("tag") + i;
                    d.replace_range(i..=e, "");
                    rejected(cx, &fx.open, &rq(d.as_bytes()))?;
                }
                for bad in ["x", "{}", "{\"Delete\":{}}", "&", "<", ">", "<>", "</>", "<a", "<Delete", "<!DOCTYPE x>", "\u{feff}", "\0", "<a></b>"] {
                    if has_element(bad.as_bytes()) {
                        rejected(cx, &fx.open, &rq(bad.as_bytes()))?;
                    } else {
                        rejected_or_none(cx, &fx.open, &rq(bad.as_bytes()), &none)?;
                    }
                }
                rejected(cx, &fx.open, &rq(b"\xff\xfe<\x00a\x00/\x00>\x00"))?;
                let mut d = doc.clone().into_bytes();
                let i = doc.find("</").expect("tag");
                d.insert(i, 0xff);
                rejected(cx, &fx.open, &rq(&d))?;
                // references that do not exist
                for e in ["&nope;", "&", "&;", "&#;", "&#x;", "&#xffffffff;", "&amp"] {
                    let mut d = doc.clone();
                    d.insert_str(i, e);
                    rejected(cx, &fx.open, &rq(d.as_bytes()))?;
                }
                // the body fails
                let whole = rq(doc.as_bytes());
                for i in 0..doc.len() {
                    let mut r = whole.clone().split(&[i]);
                    r.body.pop();
                    r.body.push(Chunk::Error);
                    crate::api::each_failure(|| rejected(cx, &fx.open, &r))?;
                }
                Ok(())
            },
        );
    }
    cx.case(
        || "elements that are missing or malformed".into(),
        |cx| {
            for d in [
                "", " ", "<Delete></Delete>", "<Delete/>", "<Delete><Object></Object></Delete>", "<Delete><Object><VersionId>v</VersionId></Object></Delete>",
                "<Delete><Object><Key>a</Key></Object><Object/></Delete>", "<Delete><Quiet>true</Quiet></Delete>",
                "<Delete><Quiet>maybe</Quiet><Object><Key>a</Key></Object></Delete>", "<Delete><Quiet>1x</Quiet><Object><Key>a</Key></Object></Delete>",
                "<Object><Key>a</Key></Object>", "<Delete><Key>a</Key></Delete>", "<Delete>a</Delete>",
            ] {
                // no object, or not what S3 defines: refused, or nothing to delete
                let rq = Rq::new("POST", "/aaa").q("delete").body(d);
                let empty = delete(&[], if d.contains("true") { Some(true) } else { None });
                if d.contains("Object") || d.contains("Key") || d.contains(">a<") || d.trim().is_empty() {
                    rejected(cx, &fx.open, &rq)?;
                } else {
                    rejected(cx, &fx.open, &rq).or_else(|_| delivered(cx, &fx.open, &rq, &empty))?;
                }
            }
            for n in Kind::Int.malformed() {
                let d = format!("<CompleteMultipartUpload><Part><PartNumber>{n}</PartNumber><ETag>e</ETag></Part></CompleteMultipartUpload>");
                rejected(cx, &fx.open, &posted(&d))?;
                let d = format!("<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>e</ETag></Part><Part><PartNumber>{n}</PartNumber><ETag>e</ETag></Part></CompleteMultipartUpload>");
                rejected(cx, &fx.open, &posted(&d))?;
            }
            for v in Kind::Int.values(Place::Query) {
                let d = format!("<CompleteMultipartUpload><Part><PartNumber>{v}</PartNumber><ETag>e</ETag></Part></CompleteMultipartUpload>");
                delivered(cx, &fx.open, &posted(&d), &complete(&[(v.parse().expect("int"), "e")]))?;
            }
            Ok(())
        },
    );
}
