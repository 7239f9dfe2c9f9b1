//! R03: every request gets a well-formed response

use crate::api::*;
use crate::auth::{requests, T0};
use crate::outputs::{self, Outs};
use crate::rec::{Fixture, Rec};
use crate::report::*;
use crate::sig::{self, Cred, Payload};
use crate::store::World;
use crate::sys;
use crate::{ensure, fail};
use async_trait::async_trait;
use s3_server::dto::*;
use s3_server::errors::{S3AuthError, S3Error, S3ErrorCode, S3StorageError, S3StorageResult};
use s3_server::{S3Auth, S3Service};
use std::sync::{Arc, Mutex};

pub fn metas() -> Vec<Meta> {
    vec![Meta {
        id: "R03",
        level: "input_enumeration",
        rule: "every operation with every error code of S3, of the storage and of the authentication provider, with and without messages; every operation with every operation-specific error; answers that cannot be represented; every operation, signed in every way, with every header and query parameter of the alphabet set to every malformed value (thorough: in pairs), all malformed queries, paths, methods; every single-byte alteration and truncation of every authorization, presigned query, signed chunk, form and XML document (thorough: more substitutes); with a recording storage and with the file system storage; oracle: the published table of codes and statuses and an independent reader of the error document. states: distinct requests",
        assumptions: &["error messages consist of characters that XML can represent", "the status of the codes to which S3 assigns none (NotSupported and others) is not judged"],
        quick_secs: 600,
        thorough_secs: 3000,
        run: r03,
    }]
}

/// the status that S3 publishes for each code, 0 if it has none
const CODES: &[(&str, u16)] = &[
    ("NotSignedUp", 403),
    ("AccessDenied", 403),
    ("AccountProblem", 403),
    ("AllAccessDisabled", 403),
    ("AmbiguousGrantByEmailAddress", 400),
    ("AuthorizationHeaderMalformed", 400),
    ("BadDigest", 400),
    ("BucketAlreadyExists", 409),
    ("BucketAlreadyOwnedByYou", 409),
    ("BucketNotEmpty", 409),
    ("CredentialsNotSupported", 400),
    ("CrossLocationLoggingProhibited", 403),
    ("EntityTooSmall", 400),
    ("EntityTooLarge", 400),
    ("ExpiredToken", 400),
    ("IllegalLocationConstraintException", 400),
    ("IllegalVersioningConfigurationException", 400),
    ("IncompleteBody", 400),
    ("IncorrectNumberOfFilesInPostRequest", 400),
    ("InlineDataTooLarge", 400),
    ("InternalError", 500),
    ("InvalidAccessKeyId", 403),
    ("InvalidAddressingHeader", 0),
    ("InvalidArgument", 400),
    ("InvalidBucketName", 400),
    ("InvalidBucketState", 409),
    ("InvalidDigest", 400),
    ("InvalidEncryptionAlgorithmError", 400),
    ("InvalidLocationConstraint", 400),
    ("InvalidObjectState", 403),
    ("InvalidPart", 400),
    ("InvalidPartOrder", 400),
    ("InvalidPayer", 403),
    ("InvalidPolicyDocument", 400),
    ("InvalidRange", 416),
    ("InvalidRequest", 400),
    ("InvalidSecurity", 403),
    ("InvalidSOAPRequest", 400),
    ("InvalidStorageClass", 400),
    ("InvalidTargetBucketForLogging", 400),
    ("InvalidToken", 400),
    ("InvalidURI", 400),
    ("KeyTooLongError", 400),
    ("MalformedACLError", 400),
    ("MalformedPOSTRequest", 400),
    ("MalformedXML", 400),
    ("MaxMessageLengthExceeded", 400),
    ("MaxPostPreDataLengthExceededError", 400),
    ("MetadataTooLarge", 400),
    ("MethodNotAllowed", 405),
    ("MissingAttachment", 0),
    ("MissingContentLength", 411),
    ("MissingRequestBodyError", 400),
    ("MissingSecurityElement", 400),
    ("MissingSecurityHeader", 400),
    ("NoLoggingStatusForKey", 400),
    ("NoSuchBucket", 404),
    ("NoSuchBucketPolicy", 404),
    ("NoSuchKey", 404),
    ("NoSuchLifecycleConfiguration", 404),
    ("NoSuchUpload", 404),
    ("NoSuchVersion", 404),
    ("NotImplemented", 501),
    ("NotSupported", 0),
    ("ObjectNotInActiveTierError", 403),
    ("OperationAborted", 409),
    ("PermanentRedirect", 301),
    ("PreconditionFailed", 412),
    ("Redirect", 307),
    ("RestoreAlreadyInProgress", 409),
    ("RequestIsNotMultiPartContent", 400),
    ("RequestTimeout", 400),
    ("RequestTimeTooSkewed", 403),
    ("RequestTorrentOfBucketError", 400),
    ("ServerSideEncryptionConfigurationNotFoundError", 0),
    ("ServiceUnavailable", 503),
    ("SignatureDoesNotMatch", 403),
    ("SlowDown", 503),
    ("TemporaryRedirect", 307),
    ("TokenRefreshRequired", 400),
    ("TooManyBuckets", 400),
    ("UnexpectedContent", 400),
    ("UnresolvableGrantByEmailAddress", 400),
    ("UserKeyMustBeSpecified", 400),
    ("XAmzContentSHA256Mismatch", 400),];

fn status_of(code: &str) -> Option<u16> {
    CODES.iter().find(|c| c.0 == code).map(|c| c.1)
}

/// Ok(code): an error; Ok(None): a success or a response to HEAD
fn well_formed(rq: &Rq, rs: &Rs) -> Result<Option<String>, Fail> {
    let ctx = || format!("{} is answered {}", rq.show(), rs.show());
    ensure!((200..=599).contains(&rs.status), "{}", ctx());
    ensure!(!rs.body_err, "{}: the body fails", ctx());
    if rs.status < 300 || (rq.method == "HEAD" && rs.body.is_empty()) {
        return Ok(None);
    }
    let x = rs.xml().map_err(|e| format!("{}: {e}", ctx()))?;
    let t = rs.header("content-type").unwrap_or_default();
    ensure!(t.starts_with("text/xml") || t.starts_with("application/xml"), "{}: Content-Type {t}", ctx());
    ensure!(x.name == "Error", "{}: no error document", ctx());
    ensure!(x.all("Code").count() == 1 && x.all("Message").count() <= 1, "{}: no error document", ctx());
    let code = x.text_of("Code").unwrap_or_default();
    match status_of(&code) {
        None => fail!("{}: unknown code {code:?}", ctx()),
        Some(0) => ensure!(rs.status >= 400, "{}: no error status", ctx()),
        Some(s) => ensure!(rs.status == s, "{}: status {} for {code}", ctx(), rs.status),
    }
    if let Some(l) = rs.header("content-length") {
        ensure!(rq.method == "HEAD" || l == rs.body.len().to_string(), "{}: Content-Length {l}", ctx());
    }
    Ok(Some(code))
}

/// a request that the server must survive; the storage never fails, so any failure is the client's
fn survive(cx: &mut Cx, fx: &Fixture, rq: &Rq) -> R {
    cx.add("evaluations", 1);
    cx.state(&rq.show());
    fx.rec.reset();
    cx.alarm(120);
    let (rs, calls) = match fx.run(rq) {
        Ok(x) => x,
        Err(e) if e.starts_with("BAD-REQUEST") => {
            cx.add("not representable", 1);
            return Ok(());
        }
        Err(e) => fail!("{e}: {}", rq.show()),
    };
    let code = well_formed(rq, &rs)?;
    cx.outcome(&(rs.status, &code, calls.first().map(|c| c.op)));
    if rs.status >= 300 && calls.iter().all(|c| c.effective()) {
        ensure!(calls.is_empty(), "{}: the storage answers {}, but the response is {}", rq.show(), calls[0].show(), rs.show());
        ensure!(
            rs.status < 500 || matches!(code.as_deref(), Some("NotSupported" | "NotImplemented") | None),
            "{}: a failure of the client is reported as one of the server: {}",
            rq.show(),
            rs.show()
        );
    }
    Ok(())
}

/// the same with the real storage
fn survive_world(cx: &mut Cx, w: &World, rq: &Rq) -> R {
    cx.add("evaluations", 1);
    let rs = match w.call(rq) {
        Ok(rs) => rs,
        Err(f) if f.what.contains("BAD-REQUEST") => return Ok(()),
        Err(f) => return Err(f),
    };
    let code = well_formed(rq, &rs)?;
    cx.outcome(&("fs", rs.status, &code));
    Ok(())
}

struct Fx {
    cred: Cred,
    open: Fixture,
    auth: Fixture,
}

// --- errors of the storage and of the authentication provider ---

const MESSAGES: &[Option<&str>] = &[
    None,
    Some("message"),
    Some(""),
    Some("<a>&amp;\"'</Message>"),
    Some("]]> <!-- -->"),
    Some("\u{e4}\u{20ac}\u{1f600}"),
    Some(" a\n\tb\r\n "),
];

fn error(code: &str, message: Option<&str>) -> S3Error {
    let c = S3ErrorCode::parse_from_str(code).unwrap_or_else(|_| panic!("harness: code {code}"));
    match message {
        None => S3Error::from_code(c).finish(),
        Some(m) => S3Error::new(c, m),
    }
}

fn reported(cx: &mut Cx, rq: &Rq, rs: &Rs, code: &str, message: Option<&str>) -> R {
    cx.add("evaluations", 1);
    let got = well_formed(rq, rs)?;
    cx.outcome(&(rs.status, &got));
    let ctx = || format!("{code} {message:?}: {} is answered {}", rq.show(), rs.show());
    match status_of(code) {
        Some(0) => ensure!(rs.status >= 400, "{}", ctx()),
        s => ensure!(Some(rs.status) == s, "{}", ctx()),
    }
    if rq.method != "HEAD" {
        ensure!(got.as_deref() == Some(code), "{}", ctx());
        let x = rs.xml().expect("checked");
        let m = x.text_of("Message");
        ensure!(m.as_deref().unwrap_or("") == message.unwrap_or(""), "{}: message {m:?}", ctx());
    }
    Ok(())
}

fn storage_errors(cx: &mut Cx, fx: &Fx) {
    for (name, base) in requests() {
        cx.case(
            || format!("{name}: every error code"),
            |cx| {
                let mut signed = base.clone();
                sig::sign(&mut signed, &fx.cred, Payload::Hash, None);
                let mut presigned = base.clone();
                sig::presign(&mut presigned, &fx.cred, "3600", None);
                for (code, _) in CODES {
                    for m in MESSAGES {
                        for (f, rq) in [(&fx.open, &base), (&fx.auth, &signed), (&fx.auth, &presigned)] {
                            f.rec.reset();
                            let (c, m2) = (code.to_string(), m.map(ToString::to_string));
                            f.rec.fail_with(move || error(&c, m2.as_deref()));
                            let (rs, calls) = f.run(rq)?;
                            f.rec.reset();
                            ensure!(calls.len() == 1 && calls[0].op == name, "harness: {}", rq.show());
                            cx.state(&(code, m, rq.show()));
                            reported(cx, rq, &rs, code, *m)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // operation-specific errors
    macro_rules! specific {
        ($($op:literal $o:ident $e:ident $v:ident;)*) => {
            vec![$(($op, stringify!($v), {
                let f: fn(&Rec, &str) = |rec, m| rec.answer::<S3StorageResult<$o, $e>>(Err(S3StorageError::Operation($e::$v(m.to_owned()))));
                f
            })),*]
        };
    }
    let table: Vec<(&str, &str, fn(&Rec, &str))> = specific! {
        "copy_object" CopyObjectOutput CopyObjectError ObjectNotInActiveTierError;
        "create_bucket" CreateBucketOutput CreateBucketError BucketAlreadyExists;
        "create_bucket" CreateBucketOutput CreateBucketError BucketAlreadyOwnedByYou;
        "get_object" GetObjectOutput GetObjectError NoSuchKey;
        "get_object" GetObjectOutput GetObjectError InvalidObjectState;
        "head_bucket" HeadBucketOutput HeadBucketError NoSuchBucket;
        "head_object" HeadObjectOutput HeadObjectError NoSuchKey;
        "list_objects" ListObjectsOutput ListObjectsError NoSuchBucket;
        "list_objects_v2" ListObjectsV2Output ListObjectsV2Error NoSuchBucket;
    };
    for (op, code, answer) in table {
        cx.case(
            || format!("{op}: its error {code}"),
            |cx| {
                let rq = requests().into_iter().find(|r| r.0 == op).expect("operation").1;
                for m in MESSAGES.iter().flatten() {
                    fx.open.rec.reset();
                    answer(&fx.open.rec, m);
                    let (rs, _) = fx.open.run(&rq)?;
                    reported(cx, &rq, &rs, code, Some(m))?;
                }
                Ok(())
            },
        );
    }
}

/// an authentication provider that fails as it is told
struct Failing(Arc<Mutex<Option<(String, Option<String>)>>>);

#[async_trait]
impl S3Auth for Failing {
    async fn get_secret_access_key(&self, _: &str) -> Result<String, S3AuthError> {
        match &*self.0.lock().unwrap() {
            None => Err(S3AuthError::NotSignedUp),
            Some((code, message)) => Err(S3AuthError::Other(error(code, message.as_deref()))),
        }
    }
}

fn auth_errors(cx: &mut Cx, fx: &Fx) {
    let told = Arc::new(Mutex::new(None));
    let rec: Arc<Rec> = Arc::default();
    let mut service = S3Service::new(crate::rec::Handle(Arc::clone(&rec)));
    service.set_auth(Failing(Arc::clone(&told)));
    let failing = Fixture { rec, service };
    let mut all: Vec<(String, Rq)> = vec![];
    for (name, base) in requests() {
        let mut signed = base.clone();
        sig::sign(&mut signed, &fx.cred, Payload::Hash, None);
        all.push((format!("{name} signed"), signed));
        let mut presigned = base.clone();
        sig::presign(&mut presigned, &fx.cred, "3600", None);
        all.push((format!("{name} presigned"), presigned));
    }
    all.push(("form".into(), sig::Form::new("k", b"content").sign_open(&fx.cred, Some("aaa")).request("aaa")));
    let mut streamed = Rq::obj("PUT", "aaa", "k");
    let _ = sig::sign_stream(&mut streamed, &fx.cred, &[b"abc", b""], None);
    all.push(("streamed upload".into(), streamed));
    for (name, rq) in all {
        cx.case(
            || format!("{name}: errors of the authentication provider"),
            |cx| {
                *told.lock().unwrap() = None;
                let (rs, calls) = failing.run(&rq)?;
                ensure!(calls.is_empty(), "{} invokes {}", rq.show(), calls[0].show());
                let code = well_formed(&rq, &rs)?;
                ensure!(rs.status == 403 && matches!(code.as_deref(), None | Some("NotSignedUp" | "InvalidAccessKeyId")), "{} is answered {}", rq.show(), rs.show());
                for (code, _) in CODES {
                    for m in MESSAGES {
                        *told.lock().unwrap() = Some((code.to_string(), m.map(ToString::to_string)));
                        let (rs, calls) = failing.run(&rq)?;
                        ensure!(calls.is_empty(), "{} invokes {}", rq.show(), calls[0].show());
                        cx.state(&("auth", code, m, rq.show()));
                        reported(cx, &rq, &rs, code, *m)?;
                    }
                }
                Ok(())
            },
        );
    }
}

// --- malformed requests ---

/// headers that the service reads, and some that it does not
const HEADERS: &[&str] = &[
    "authorization", "x-amz-date", "x-amz-content-sha256", "x-amz-decoded-content-length", "x-amz-security-token", "content-type", "content-length", "content-md5", "content-encoding", "transfer-encoding",
    "host", "date", "range", "if-match", "if-none-match", "if-modified-since", "if-unmodified-since", "x-amz-copy-source", "x-amz-copy-source-range", "x-amz-copy-source-if-modified-since",
    "x-amz-metadata-directive", "x-amz-tagging-directive", "x-amz-acl", "x-amz-meta-", "x-amz-meta-a", "x-amz-mfa", "x-amz-bypass-governance-retention", "x-amz-bucket-object-lock-enabled",
    "x-amz-server-side-encryption-bucket-key-enabled", "x-amz-object-lock-retain-until-date", "x-amz-expected-bucket-owner", "x-amz-request-payer", "x-amz-storage-class", "expires", "cache-control", "expect",
    "x-amz-trailer", "x-amz-sdk-checksum-algorithm", "accept-encoding", "cookie", "x-http-method-override", "connection", "upgrade",
];

fn values() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "", "x", "0", "-1", "1", "18446744073709551616", "99999999999999999999999", "1.5", "true", "TRUE", "null", "*", "/", "//", "/x", "x/", "/aaa/", "aaa/k", "/aaa/k", "aaa/%", "aaa/%zz", "aaa/%ff", "aaa/%00", "?", "aaa/k?versionId=", "%",
        "=", ",", ";", ",,", "=,=", "\"", "\"\"", "'", "bytes", "bytes=", "bytes=-", "bytes=--", "bytes=0-", "bytes=-0", "bytes=9-0", "bytes=0-0,1-1", "bytes=99999999999999999999-", "bytes=-99999999999999999999", "lines=0-1", "bytes=a-b", "bytes =0-1",
        "AWS4-HMAC-SHA256", "AWS4-HMAC-SHA256 ", "AWS4-HMAC-SHA256 Credential=", "AWS4-HMAC-SHA256 Credential=/,SignedHeaders=,Signature=", "AWS4-HMAC-SHA256 Credential=a/20210101/r/s3/aws4_request,SignedHeaders=host,Signature=", "AWS4-HMAC-SHA256 Credential=a/20210101/r/s3/aws4_request, SignedHeaders=host;;x, Signature=0",
        "AWS4-HMAC-SHA256 Credential=////,SignedHeaders=;,Signature=,", "AWS4-HMAC-SHA256 Signature=a,SignedHeaders=b,Credential=c", "AWS a:b", "Basic eDp5", "Bearer x", "AWS4-ECDSA-P256-SHA256 Credential=a",
        "20210101T000000Z", "20211301T000000Z", "20210230T000000Z", "20210101T250000Z", "99999999T999999Z", "00000000T000000Z", "20210101", "2021-01-01T00:00:00Z", "20210101T000000", "20210101T000000Z ", "x0210101T000000Z", "+0210101T000000Z", "2021010\u{661}T000000Z",
        "UNSIGNED-PAYLOAD", "STREAMING-AWS4-HMAC-SHA256-PAYLOAD", "STREAMING-UNSIGNED-PAYLOAD-TRAILER", "STREAMING-AWS4-HMAC-SHA256-PAYLOAD-TRAILER", "unsigned-payload", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "E3B0C44298FC1C149AFBF4C8996FB92427AE41E4649B934CA495991B7852B855", "e3b0c442", "zzzzc44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855",
        "multipart/form-data", "multipart/form-data;", "multipart/form-data; boundary", "multipart/form-data; boundary=", "multipart/form-data; boundary=\"\"", "multipart/form-data; boundary=a", "multipart/form-data; boundary=\"a b\"", "multipart/form-data; boundary=a; boundary=b", "multipart/form-data; charset=x", "multipart/mixed; boundary=x", "text", "text/", "/", ";", "a/b;c", "a/b;c=\"", "text/plain; charset=\u{e4}",
        "1B2M2Y8AsgTpgAmY7PhCfg==", "1B2M2Y8AsgTpgAmY7PhCfg", "AAAA", "====", "!!!!", "d41d8cd98f00b204e9800998ecf8427e", "aws-chunked", "gzip, aws-chunked", "chunked", "identity", "100-continue",
        "Wed, 21 Oct 2015 07:28:00 GMT", "Thu, 99 Foo 2015 99:99:99 XXX", "0000-00-00", "9999-12-31T23:59:59Z", "COPY", "REPLACE", "copy", "a\tb", "localhost:99999", "[::1]", "[", "a b", "..", "\u{e4}",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    v.push(vec![0xff, 0xfe]);
    v.push(vec![0x80]);
    v.push("\u{1f600}".into());
    v.push(vec![b'a'; 10_000]);
    v.push(vec![b'1'; 400]);
    v.push(b"/".repeat(5000));
    v.push(b"%41".repeat(3000));
    v.push(b"a=b,".repeat(2000));
    v
}

const QUERY: &[&str] = &[
    "acl", "attributes", "delete", "uploads", "uploadId", "partNumber", "list-type", "location", "prefix", "marker", "max-keys", "delimiter", "encoding-type", "start-after", "continuation-token", "fetch-owner", "versionId",
    "response-content-type", "response-expires", "tagging", "X-Amz-Algorithm", "X-Amz-Credential", "X-Amz-Date", "X-Amz-Expires", "X-Amz-SignedHeaders", "X-Amz-Signature", "X-Amz-Security-Token", "AWSAccessKeyId", "Signature", "x-id",
];

fn query_values() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "x", "0", "-1", "1", "2", "10001", "2147483648", "18446744073709551616", "1.5", "true", "%", "%zz", "%ff", "%C3%28", "%00", "%0d%0a", "%41", "%2541", "+", "++", "%2B", "a%20b", "/", "..%2F..", "=", "==", "%3D", "%26", "%3B", "url", "URL", "urll", "'", "[]", "a[b]=c",
        "AWS4-HMAC-SHA256", "a/20210101/us-east-1/s3/aws4_request", "a%2F20210101%2Fus-east-1%2Fs3%2Faws4_request", "20210101T000000Z", "20219999T999999Z", "604800", "604801", "99999999999999999999", "host", "host%3Bx", ";", "host;", "00",
        "%F0%9F%98%80", "\u{e4}",
    ]
    .iter()
    .map(ToString::to_string)
    .collect();
    v.push("a".repeat(5000));
    v.push("%41".repeat(2000));
    v.push("9".repeat(400));
    v
}

fn queries() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "&", "&&", "=", "==", "&=&", "=x", "a&a", "a=1&a=2", "a=1;b=2", "%", "%=%", "%zz=x", "%ff", "%ff=%ff", "%C3%28=x", "+", "+=+", "?", "??", "a?b", "/", "[]=1", "a[]=1", "a[b][c]=1", "list-type=2&list-type=1", "uploads&uploadId=u&partNumber=1", "uploadId", "uploadId=&partNumber=",
        "partNumber=1", "uploadId=u&partNumber=x", "uploadId=u&uploadId=v&partNumber=1&partNumber=2", "delete&delete", "delete=x&uploads", "location&list-type=2", "X-Amz-Signature", "X-Amz-Signature=", "X-Amz-Signature=x", "X-Amz-Signature=x&X-Amz-Signature=y", "x-amz-signature=x",
        "X-Amz-Algorithm=AWS4-HMAC-SHA256", "X-Amz-Algorithm=AWS4-HMAC-SHA256&X-Amz-Credential=a%2F20210101%2Fr%2Fs3%2Faws4_request&X-Amz-Date=20210101T000000Z&X-Amz-Expires=1&X-Amz-SignedHeaders=host&X-Amz-Signature=0", "a\u{e4}=b", "\"=\"", "'", "<x>", "{}", "|", "^", "`", "\\",
    ]
    .iter()
    .map(ToString::to_string)
    .collect();
    v.push((0..3000).map(|i| format!("a{i}={i}&")).collect());
    v.push("a=b&".repeat(3000));
    v.push("&".repeat(10_000));
    v.push(format!("prefix={}", "x".repeat(30_000)));
    v
}

const METHODS: &[&str] = &["GET", "HEAD", "PUT", "POST", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PATCH", "get", "FOO", "PROPFIND", "MKCOL", "COPY", "X!#$%&'*+-.^_`|~"];

const PATHS: &[&str] = &[
    "/", "//", "///", "/a", "/aa", "/aaa", "/aaa/", "/aaa//", "/aaa/k", "/AAA/k", "/aaa/%", "/aaa/%zz", "/aaa/%ff", "/%ff/k", "/aaa/%00", "/%00%00%00", "/..", "/../..", "/aaa/..", "/aaa/../x", "/./aaa/k", "/aaa/%2e%2e/x", "/aaa%2Fk", "%2Faaa%2Fk", "*", "/xn--aaa/k", "/1.2.3.4/k", "/aaa/\u{e4}",
    "/aaa;x/k", "/aaa/k;x", "/aaa/[k]", "/aaa/{k}", "/a_b/k", "/aaa/%F0%9F%98%80", "/aaa/%ED%A0%80", "http://localhost/aaa/k", "http://x:1/aaa", "http://localhost", "https://a@b/aaa/k", "aaa", "localhost:80", "/aaa/k#x", "/%E2%80%A8/k",
];

fn more_paths() -> Vec<String> {
    let mut v: Vec<String> = PATHS.iter().map(ToString::to_string).collect();
    for n in [62, 63, 64, 255, 1024, 1025, 1026, 5000, 20_000] {
        v.push(format!("/{}", "a".repeat(n)));
        v.push(format!("/aaa/{}", "k".repeat(n)));
        v.push(format!("/aaa/{}", "%C3%A4".repeat(n / 2)));
        v.push(format!("/aaa/{}", "k/".repeat(n / 2)));
        v.push(format!("/aaa{}", "/".repeat(n)));
    }
    v
}

/// the ways to sign a request
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Dress {
    None,
    Unsigned,
    Header,
    Query,
    Streamed,
}

const DRESSES: &[Dress] = &[Dress::None, Dress::Unsigned, Dress::Header, Dress::Query, Dress::Streamed];

fn dress<'a>(fx: &'a Fx, d: Dress, rq: &Rq) -> (&'a Fixture, Rq) {
    let mut rq = rq.clone();
    match d {
        Dress::None => return (&fx.open, rq),
        Dress::Unsigned => {}
        Dress::Header => {
            sig::sign(&mut rq, &fx.cred, Payload::Hash, None);
        }
        Dress::Query => sig::presign(&mut rq, &fx.cred, "3600", None),
        Dress::Streamed => {
            let data = rq.body_bytes();
            let _ = sig::sign_stream(&mut rq, &fx.cred, &[&data, b""], None);
        }
    }
    (&fx.auth, rq)
}

/// a client can sign whatever it sends, if it is text
fn signable(rq: &Rq) -> bool {
    rq.headers.iter().all(|h| std::str::from_utf8(&h.1).is_ok()) && rq.build().is_ok()
}

fn malformed(cx: &mut Cx, fx: &Fx) {
    let values = values();
    let qvalues = query_values();
    let with_header = |rq: &Rq, h: &str, v: &[u8]| {
        let mut r = rq.clone();
        r.set(h, v);
        r
    };
    let with_query = |rq: &Rq, q: &str| {
        let mut r = rq.clone();
        r.query = Some(r.query.take().map_or(q.to_owned(), |x| if x.is_empty() { q.to_owned() } else { format!("{x}&{q}") }));
        r
    };
    for (name, base) in requests() {
        for d in DRESSES.iter().copied() {
            if d == Dress::Streamed && base.body.is_empty() {
                continue;
            }
            // altered after the signature, and before it
            cx.case(
                || format!("{name} ({d:?}): headers"),
                |cx| {
                    let (f, good) = dress(fx, d, &base);
                    survive(cx, f, &good)?;
                    for h in HEADERS {
                        for v in &values {
                            survive(cx, f, &with_header(&good, h, v))?;
                            let mut twice = good.clone();
                            twice.headers.push((h.to_string(), v.clone()));
                            survive(cx, f, &twice)?;
                            let r = with_header(&base, h, v);
                            if d != Dress::None && signable(&r) {
                                let (f, r) = dress(fx, d, &r);
                                survive(cx, f, &r)?;
                            }
                        }
                        let mut r = good.clone();
                        r.remove(h);
                        survive(cx, f, &r)?;
                    }
                    Ok(())
                },
            );
            cx.case(
                || format!("{name} ({d:?}): queries"),
                |cx| {
                    let (f, good) = dress(fx, d, &base);
                    let mut all: Vec<String> = queries();
                    for q in QUERY {
                        all.push(q.to_string());
                        all.extend(qvalues.iter().map(|v| format!("{q}={v}")));
                    }
                    for q in &all {
                        let mut r = good.clone();
                        r.query = Some(q.clone());
                        survive(cx, f, &r)?;
                        survive(cx, f, &with_query(&good, q))?;
                        let r = with_query(&base, q);
                        if d != Dress::None && r.build().is_ok() {
                            let (f, r) = dress(fx, d, &r);
                            survive(cx, f, &r)?;
                        }
                    }
                    Ok(())
                },
            );
            cx.case(
                || format!("{name} ({d:?}): methods and paths"),
                |cx| {
                    for m in METHODS {
                        for p in more_paths() {
                            let mut r = base.clone();
                            r.method = m.to_string();
                            r.path = p;
                            if r.build().is_ok() {
                                let (f, r) = dress(fx, d, &r);
                                survive(cx, f, &r)?;
                            }
                        }
                    }
                    Ok(())
                },
            );
            if cx.thorough {
                for h in HEADERS {
                    cx.case(
                        || format!("{name} ({d:?}): {h} with other headers and queries"),
                        |cx| {
                            let (f, good) = dress(fx, d, &base);
                            for v in values.iter().filter(|v| v.len() < 300) {
                                let r = with_header(&good, h, v);
                                for h2 in HEADERS {
                                    for v2 in values.iter().skip(values.len() % 7).step_by(7) {
                                        if v2.len() < 300 {
                                            survive(cx, f, &with_header(&r, h2, v2))?;
                                        }
                                    }
                                }
                                for q in QUERY {
                                    for v2 in qvalues.iter().step_by(5) {
                                        if v2.len() < 300 {
                                            survive(cx, f, &with_query(&r, &format!("{q}={v2}")))?;
                                        }
                                    }
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}

/// all alterations of one byte, truncations and insertions
fn alterations(data: &[u8], subst: &[u8], mut f: impl FnMut(Vec<u8>) -> R) -> R {
    for i in 0..data.len() {
        for &s in subst {
            if data[i] != s {
                let mut d = data.to_vec();
                d[i] = s;
                f(d)?;
            }
            let mut d = data.to_vec();
            d.insert(i, s);
            f(d)?;
        }
        let mut d = data.to_vec();
        let _ = d.remove(i);
        f(d)?;
        f(data[..i].to_vec())?;
        f(data[i..].to_vec())?;
        let mut d = data.to_vec();
        d.insert(i, data[i]);
        f(d)?;
        if i + 1 < data.len() {
            let mut d = data.to_vec();
            d.swap(i, i + 1);
            f(d)?;
        }
    }
    Ok(())
}

/// a character of several bytes in the place of up to four bytes, so also without a change of the length
fn wide(data: &[u8], percent: bool, mut f: impl FnMut(Vec<u8>) -> R) -> R {
    for c in ["\u{e9}", "\u{20ac}", "\u{1f511}"] {
        let mut text = c.as_bytes().to_vec();
        if percent {
            text = c.bytes().flat_map(|b| format!("%{b:02X}").into_bytes()).collect();
        }
        for n in 0..=4 {
            for i in 0..(data.len() + 1).saturating_sub(n) {
                let mut d = data[..i].to_vec();
                d.extend_from_slice(&text);
                d.extend_from_slice(&data[i + n..]);
                f(d)?;
            }
        }
    }
    Ok(())
}

fn every_byte(cx: &mut Cx, fx: &Fx) {
    let all: Vec<u8> = (0..=255).collect();
    let thorough = cx.thorough;
    let pick = |few: &[u8]| if thorough { all.clone() } else { few.to_vec() };
    for (name, base) in requests() {
        cx.case(
            || format!("{name}: every alteration of its authorization"),
            |cx| {
                let (f, good) = dress(fx, Dress::Header, &base);
                for h in ["authorization", "x-amz-date", "x-amz-content-sha256"] {
                    let v = good.get_header(h).expect("header");
                    alterations(v.as_bytes(), &pick(b" ,=/;%\tA0\"\xc3\xff"), |v| {
                        let mut r = good.clone();
                        r.set(h, &v);
                        survive(cx, f, &r)
                    })?;
                    wide(v.as_bytes(), false, |v| {
                        let mut r = good.clone();
                        r.set(h, &v);
                        survive(cx, f, &r)
                    })?;
                }
                Ok(())
            },
        );
        cx.case(
            || format!("{name}: wide characters in its path, its parameters and its headers"),
            |cx| {
                for (f, percent) in [(&fx.open, true), (&fx.open, false)] {
                    let path = base.path.clone();
                    wide(path.as_bytes(), true, |v| {
                        let mut r = base.clone();
                        r.path = String::from_utf8_lossy(&v).into_owned();
                        if !r.path.starts_with('/') {
                            return Ok(());
                        }
                        survive(cx, f, &r)
                    })?;
                    if let Some(q) = &base.query {
                        wide(q.as_bytes(), true, |v| {
                            let mut r = base.clone();
                            r.query = String::from_utf8(v).ok();
                            survive(cx, f, &r)
                        })?;
                    }
                    for (h, v) in base.headers.clone() {
                        wide(&v, percent, |v| {
                            let mut r = base.clone();
                            r.set(&h, &v);
                            survive(cx, f, &r)
                        })?;
                    }
                }
                Ok(())
            },
        );
        cx.case(
            || format!("{name}: every alteration of its presigned query"),
            |cx| {
                let (f, good) = dress(fx, Dress::Query, &base);
                let q = good.query.clone().expect("query");
                wide(q.as_bytes(), true, |v| {
                    let mut r = good.clone();
                    r.query = String::from_utf8(v).ok();
                    survive(cx, f, &r)
                })?;
                alterations(q.as_bytes(), &pick(b"&=%+/;#A0?"), |v| {
                    let mut r = good.clone();
                    match String::from_utf8(v) {
                        Ok(v) => r.query = Some(v),
                        Err(_) => return Ok(()),
                    }
                    survive(cx, f, &r)
                })
            },
        );
    }
    // bodies
    let form = sig::Form::new("k", b"content").field("x-amz-meta-a", "b").field("content-type", "text/plain").sign_open(&fx.cred, Some("aaa")).request("aaa");
    let mut streamed = Rq::obj("PUT", "aaa", "k");
    let _ = sig::sign_stream(&mut streamed, &fx.cred, &[b"abc", b"defghijklmnop", b""], None);
    let delete = Rq::new("POST", "/aaa").q("delete").body("<?xml version=\"1.0\"?><!-- c --><Delete a=\"b\"><Quiet>true</Quiet><Object><Key>a&amp;b<![CDATA[c]]></Key><VersionId/></Object></Delete>");
    let complete = Rq::obj("POST", "aaa", "k").q("uploadId=u").body("<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>&quot;e&#34;</ETag></Part></CompleteMultipartUpload>");
    let create = Rq::new("PUT", "/aaa").body("<CreateBucketConfiguration xmlns=\"x\"><LocationConstraint>eu</LocationConstraint></CreateBucketConfiguration>");
    for (name, rq, f, subst) in [
        ("form", form, &fx.auth, &b"\r\n-;:\"= \0\xffA"[..]),
        ("streamed upload", streamed, &fx.auth, b"\r\n;=0fg \0\xff"),
        ("delete_objects", delete, &fx.open, b"<>&;\"'/=!?-[]\0\xff #x"),
        ("complete_multipart_upload", complete, &fx.open, b"<>&;\"'/=!?-[]\0\xff #x9"),
        ("create_bucket", create, &fx.open, b"<>&;\"'/=!?-[]\0\xff #x"),
    ] {
        let body = rq.body_bytes();
        let parts = 16;
        for part in 0..parts {
            cx.case(
                || format!("{name}: every alteration of its body ({part})"),
                |cx| {
                    let mut n = 0usize;
                    let _ = wide(&body, false, |v| {
                        n += 1;
                        if n % parts != part {
                            return Ok(());
                        }
                        let mut r = rq.clone();
                        r.body = vec![Chunk::Data(v.into())];
                        survive(cx, f, &r)
                    })?;
                    alterations(&body, &pick(subst), |v| {
                        n += 1;
                        if n % parts != part {
                            return Ok(());
                        }
                        let mut r = rq.clone();
                        r.body = vec![Chunk::Data(v.clone().into())];
                        survive(cx, f, &r)?;
                        if n % 5 == 0 || cx.thorough {
                            // also in pieces, and with the length that is sent
                            let mut r = r.split_every(1 + n % 7);
                            if r.get_header("content-length").is_some() {
                                r.set("content-length", v.len().to_string());
                            }
                            survive(cx, f, &r)?;
                        }
                        Ok(())
                    })
                },
            );
        }
        cx.case(
            || format!("{name}: the body fails at every point"),
            |cx| {
                for i in 0..=body.len() {
                    for pending in [false, true] {
                        let mut r = rq.clone();
                        r.body = vec![Chunk::Data(body[..i].to_vec().into())];
                        if pending {
                            r.body.push(Chunk::Pending);
                        }
                        r.body.push(Chunk::Error);
                        crate::api::each_failure(|| survive(cx, f, &r))?;
                    }
                }
                Ok(())
            },
        );
    }
}

/// documents that strain the parsers
fn straining(cx: &mut Cx, fx: &Fx) {
    let deep = |n: usize, inner: &str| format!("{}{inner}{}", "<a>".repeat(n), "</a>".repeat(n));
    cx.case(
        || "deep, wide and odd documents".into(),
        |cx| {
            let targets = [
                ("Delete", Rq::new("POST", "/aaa").q("delete")),
                ("CompleteMultipartUpload", Rq::obj("POST", "aaa", "k").q("uploadId=u")),
                ("CreateBucketConfiguration", Rq::new("PUT", "/aaa")),
            ];
            for (root, rq) in targets {
                for n in [1usize, 10, 100, 1000, 10_000, 100_000] {
                    let d = deep(n, "x");
                    for doc in [
                        d.clone(),
                        format!("<{root}>{d}</{root}>"),
                        format!("<{root}><Object><Key>{d}</Key></Object></{root}>"),
                        format!("<{root}><Part><ETag>{d}</ETag></Part></{root}>"),
                        format!("<{root}><LocationConstraint>{d}</LocationConstraint></{root}>"),
                        "<a>".repeat(n),
                        format!("<{root}>{}", "<a>".repeat(n)),
                        "</a>".repeat(n),
                        "<!--".repeat(n),
                        "<![CDATA[".repeat(n),
                        format!("<{root} {}/>", (0..n).map(|i| format!("a{i}='b' ")).collect::<String>()),
                        format!("<{root}>{}</{root}>", "&amp;".repeat(n)),
                        format!("<{root}>{}</{root}>", "<x/>".repeat(n)),
                        // (the parsing of declarations and of bodies in many pieces takes quadratic time)
                        format!("<!DOCTYPE x [{}]><{root}/>", "<!ENTITY a 'b'>".repeat(n.min(1000))),
                        format!("<?xml version='1.0'?>{}<{root}/>", "<?p x?>".repeat(n)),
                        " ".repeat(n),
                        "\u{feff}".repeat(n),
                    ] {
                        survive(cx, &fx.open, &rq.clone().body(doc))?;
                    }
                }
                for doc in [
                    "<!DOCTYPE x [<!ENTITY a \"aaaaaaaaaa\"><!ENTITY b \"&a;&a;&a;&a;\">]><Delete><Object><Key>&b;</Key></Object></Delete>",
                    "<!DOCTYPE x [<!ENTITY a SYSTEM \"file:///etc/passwd\">]><Delete><Object><Key>&a;</Key></Object></Delete>",
                    "<?xml version=\"1.0\" encoding=\"UTF-16\"?><Delete/>",
                    "<?xml version=\"1.0\" encoding=\"nonsense\"?><Delete/>",
                    "<?xml version=\"9.9\"?><Delete/>",
                    "<Delete/><Delete/>",
                    "<Delete/>x",
                    "x<Delete/>",
                    "<Delete><Delete/></Delete>",
                    "<:/>",
                    "<a:b:c/>",
                    "<:a/>",
                    "<a:/>",
                    "<1/>",
                    "<-/>",
                    "< Delete/>",
                    "<Delete / >",
                    "<Delete a/>",
                    "<Delete a=b/>",
                    "<Delete a='b' a='c'/>",
                    "<Object><Key>a</Key></Object>",
                    "<Part><PartNumber>1</PartNumber></Part>",
                    "<CompleteMultipartUpload><Part><PartNumber></PartNumber><ETag></ETag></Part></CompleteMultipartUpload>",
                    "<CompleteMultipartUpload><Part/></CompleteMultipartUpload>",
                    "<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><PartNumber>2</PartNumber><ETag>a</ETag><ETag>b</ETag></Part></CompleteMultipartUpload>",
                    "<Delete><Object/></Delete>",
                    "<Delete><Object><Key/></Object></Delete>",
                    "<Delete><Object><Key>a</Key><Key>b</Key></Object></Delete>",
                    "<Delete><Quiet/><Object><Key>a</Key></Object></Delete>",
                    "<Delete><Quiet>maybe</Quiet><Quiet>true</Quiet><Object><Key>a</Key></Object></Delete>",
                ] {
                    survive(cx, &fx.open, &rq.clone().body(doc))?;
                }
            }
            Ok(())
        },
    );
    cx.case(
        || "odd forms and chunks".into(),
        |cx| {
            let ct = |b: &str| format!("multipart/form-data; boundary={b}");
            let mut bodies: Vec<String> = vec!["".into(), "--".into(), "--AB".into(), "--AB--".into(), "--AB--\r\n".into(), "\r\n--AB--\r\n".into(), "--AB\r\n--AB--\r\n".into(), "--AB\r\n\r\n--AB--".into(), "--AB\r\n\r\n\r\n--AB--\r\n".into(), "x--AB\r\n".into()];
            let cds = [
                "", "form-data", "form-data;", "form-data; name", "form-data; name=", "form-data; name=\"", "form-data; name=\"\"", "form-data; name=key", "form-data; name=\"key\"", "form-data; name=\"file\"", "form-data; name=\"file\"; filename", "form-data; name=\"file\"; filename=\"", "form-data; filename=\"a\"; name=\"file\"",
                "attachment; name=\"key\"", "form-data; name=\"key\"; name=\"file\"", "form-data; name*=UTF-8''key", "FORM-DATA; NAME=\"key\"", "form-data; name=\"ke\\\"y\"", "form-data; name=\"\u{e4}\"", ";;;", "=", "form-data; name=\"x-amz-signature\"", "form-data; name=\"policy\"", "form-data; name=\"x-amz-credential\"", "form-data; name=\"x-amz-date\"",
            ];
            for cd in cds {
                for extra in ["", "\r\nContent-Type: text/plain", "\r\nContent-Type:", "\r\nX", "\r\n X", "\r\nContent-Disposition: form-data; name=\"key\"", "\r\n: x", "\r\nContent-Transfer-Encoding: base64"] {
                    for value in ["v", "", "\r\n", "--AB", "\r\n--A"] {
                        bodies.push(format!("--AB\r\nContent-Disposition: {cd}{extra}\r\n\r\n{value}\r\n--AB--\r\n"));
                        bodies.push(format!("--AB\r\nContent-Disposition: form-data; name=\"key\"\r\n\r\nk\r\n--AB\r\nContent-Disposition: {cd}{extra}\r\n\r\n{value}\r\n--AB\r\nContent-Disposition: form-data; name=\"file\"; filename=\"f\"\r\n\r\nfile\r\n--AB--\r\n"));
                    }
                }
            }
            for n in [10usize, 100, 1000, 10_000] {
                bodies.push("--AB\r\n".repeat(n));
                bodies.push("\r\n".repeat(n));
                bodies.push("-".repeat(n));
                bodies.push(format!("--AB\r\n{}\r\n\r\n--AB--\r\n", "A: b\r\n".repeat(n)));
                bodies.push(format!("--AB\r\nContent-Disposition: form-data; name=\"{}\"\r\n\r\nx\r\n--AB--\r\n", "n".repeat(n)));
                bodies.push((0..n).map(|i| format!("--AB\r\nContent-Disposition: form-data; name=\"f{i}\"\r\n\r\nx\r\n")).collect());
            }
            for b in &bodies {
                for path in ["/aaa", "/aaa/k", "/"] {
                    for boundary in ["AB", "A", "ABC", "\"AB\""] {
                        let rq = Rq::new("POST", path).h("content-type", ct(boundary)).body(b);
                        survive(cx, &fx.auth, &rq)?;
                        survive(cx, &fx.open, &rq)?;
                        if boundary == "AB" && b.len() < 20_000 {
                            survive(cx, &fx.auth, &rq.split_every(3))?;
                        }
                    }
                }
            }
            // chunks
            let mut chunks: Vec<String> = vec![];
            for size in ["", "0", "1", "3", "-1", "+3", "0x3", "3 ", " 3", "g", "ffffffff", "ffffffffffffffff", "7fffffffffffffff", "8000000000000000", "10000000000000000", "fffffffffffffffffffffffff", "00000000000000000000000000000000003", "\u{663}"] {
                for ext in ["", ";", ";chunk-signature", ";chunk-signature=", ";chunk-signature=x", ";chunk-signature=0000000000000000000000000000000000000000000000000000000000000000", ";x=y", ";chunk-signature=00;x=y", ";;"] {
                    for eol in ["\r\n", "\n", "\r", "\r\n\r\n", ""] {
                        for data in ["", "abc", "abc\r\n", "abc\r\n0;chunk-signature=x\r\n\r\n"] {
                            chunks.push(format!("{size}{ext}{eol}{data}"));
                        }
                    }
                }
            }
            for n in [100usize, 10_000, 200_000] {
                chunks.push("1".repeat(n));
                chunks.push(format!("3;chunk-signature={}", "0".repeat(n)));
                chunks.push("\r\n".repeat(n));
            }
            for c in &chunks {
                let mut rq = Rq::obj("PUT", "aaa", "k");
                let _ = sig::sign_stream(&mut rq, &fx.cred, &[b"abc", b""], None);
                rq.body = vec![Chunk::Data(c.clone().into_bytes().into())];
                survive(cx, &fx.auth, &rq)?;
                survive(cx, &fx.open, &rq)?;
                if c.len() < 1000 {
                    survive(cx, &fx.auth, &rq.split_every(2))?;
                }
            }
            Ok(())
        },
    );
}

/// the real storage with the same malformed requests
fn with_files(cx: &mut Cx) {
    let values = values();
    let qvalues = query_values();
    for (name, base) in requests() {
        for state in ["empty", "filled"] {
            cx.case(
                || format!("{name}: malformed requests on the file system storage ({state})"),
                |cx| {
                    let dir = cx.fresh_dir();
                    let w = World::new(&dir);
                    let fill = |cx: &mut Cx| -> R {
                        if state == "filled" {
                            survive_world(cx, &w, &Rq::new("PUT", "/aaa"))?;
                            survive_world(cx, &w, &Rq::new("PUT", "/bbb"))?;
                            survive_world(cx, &w, &Rq::obj("PUT", "aaa", "k").h("x-amz-meta-a", "b").body("content"))?;
                            survive_world(cx, &w, &Rq::obj("PUT", "bbb", "src").body("source"))?;
                        }
                        Ok(())
                    };
                    fill(cx)?;
                    for h in HEADERS {
                        for v in &values {
                            let mut r = base.clone();
                            r.set(h, v);
                            survive_world(cx, &w, &r)?;
                        }
                    }
                    fill(cx)?;
                    for q in QUERY {
                        for v in &qvalues {
                            let mut r = base.clone();
                            r.query = Some(r.query.take().map_or(format!("{q}={v}"), |x| format!("{x}&{q}={v}")));
                            survive_world(cx, &w, &r)?;
                        }
                    }
                    for q in queries() {
                        let mut r = base.clone();
                        r.query = Some(q);
                        survive_world(cx, &w, &r)?;
                    }
                    fill(cx)?;
                    for m in METHODS {
                        for p in more_paths() {
                            let mut r = base.clone();
                            r.method = m.to_string();
                            r.path = p;
                            survive_world(cx, &w, &r)?;
                        }
                    }
                    // it still works
                    survive_world(cx, &w, &Rq::new("PUT", "/last"))?;
                    let rs = w.call(&Rq::obj("PUT", "last", "k").body("x"))?;
                    ensure!(rs.status == 200, "the storage does not work any more: {}", rs.show());
                    remove_tree(&dir);
                    Ok(())
                },
            );
        }
    }
}

fn r03(cx: &mut Cx) {
    sys::fix_clock(Some((T0 + 60, 0)));
    let cred = Cred::default();
    let fx = Fx { open: Fixture::new(&[]), auth: Fixture::new(&[&cred]), cred };
    storage_errors(cx, &fx);
    auth_errors(cx, &fx);
    let o: Outs = outputs::outs();
    o.complete.hostile(cx, &fx.open);
    o.create_bucket.hostile(cx, &fx.open);
    o.create_upload.hostile(cx, &fx.open);
    o.delete.hostile(cx, &fx.open);
    o.delete_objects.hostile(cx, &fx.open);
    o.get.hostile(cx, &fx.open);
    o.head.hostile(cx, &fx.open);
    o.put.hostile(cx, &fx.open);
    o.part.hostile(cx, &fx.open);
    malformed(cx, &fx);
    every_byte(cx, &fx);
    straining(cx, &fx);
    with_files(cx);
}

/// the storage answered something that no response can say
pub fn refused_answer(cx: &mut Cx, rq: &Rq, rs: &Rs, what: &str) -> R {
    cx.add("evaluations", 1);
    let code = well_formed(rq, rs).map_err(|f| format!("{what}: {}", f.what))?;
    ensure!(rs.status == 500 && matches!(code.as_deref(), None | Some("InternalError")), "{what}: {} is answered {}", rq.show(), rs.show());
    Ok(())
}
