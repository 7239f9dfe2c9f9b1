"""Helpers of the demonstrations: the built server on a scratch directory, an HTTP client that
controls every byte, and signatures of their own."""
import base64, hashlib, hmac, json, os, shutil, socket, subprocess, sys, tempfile, time, urllib.parse

AK, SK = "AKIDEXAMPLE", "secret/key+EXAMPLE"
NOBODY = 65534


class Response:
    def __init__(self, status, headers, body):
        self.status, self.headers, self.body = status, headers, body

    def __getitem__(self, name):
        return self.headers.get(name.lower())

    def __repr__(self):
        return f"{self.status} {self.headers} {self.body[:300]!r}"


class Server:
    """the server runs as an unprivileged user, who can write to its scratch directory only"""

    def __init__(self, auth=False, env=None, host="127.0.0.1", start=True):
        self.dir = tempfile.mkdtemp(prefix="demo-")
        self.root = os.path.join(self.dir, "top", "root")
        os.makedirs(self.root)
        for d in (self.dir, os.path.join(self.dir, "top"), self.root):
            os.chown(d, NOBODY, NOBODY)
        self.exe = os.path.join(self.dir, "server")
        shutil.copy("target/debug/s3-server", self.exe)
        os.chmod(self.exe, 0o755)
        self.auth = auth
        self.env = env or {}
        self.bind = host
        if start:
            self.start()

    def start(self):
        with socket.socket() as s:
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
        args = [self.exe, "--fs-root", self.root, "--host", self.bind, "--port", str(self.port)]
        if self.auth:
            args += ["--access-key", AK, "--secret-key", SK]

        def demote():
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)

        self.proc = subprocess.Popen(args, cwd=self.root, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                     env={"PATH": "/usr/bin:/bin", **self.env}, preexec_fn=demote)
        for _ in range(200):
            if self.proc.poll() is not None:
                sys.exit("HARNESS: the server does not start")
            try:
                socket.create_connection(("127.0.0.1", self.port)).close()
                return
            except OSError:
                time.sleep(0.05)
        sys.exit("HARNESS: the server does not listen")

    def stop(self):
        if self.proc.poll() is None:
            self.proc.kill()
        self.proc.wait()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.stop()
        shutil.rmtree(self.dir, ignore_errors=True)

    @property
    def host(self):
        return f"127.0.0.1:{self.port}"

    def raw(self, pieces, delay=0.15):
        """send the pieces one after another, and read the response"""
        s = socket.create_connection(("127.0.0.1", self.port))
        s.settimeout(30)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        try:
            for i, p in enumerate(pieces):
                if i:
                    time.sleep(delay)
                s.sendall(p)
        except OSError:
            pass
        data = b""
        try:
            while True:
                d = s.recv(65536)
                if not d:
                    break
                data += d
        except OSError:
            pass
        s.close()
        return parse(data)

    def request(self, method, path, headers=(), body=b"", query=""):
        return self.raw([self.encode(method, path, headers, body, query)])

    def encode(self, method, path, headers=(), body=b"", query="", length=True):
        names = [n.lower() for n, _ in headers]
        h = list(headers)
        if "host" not in names:
            h.insert(0, ("host", self.host))
        if length and "content-length" not in names and (body or method in ("PUT", "POST")):
            h.append(("content-length", str(len(body))))
        h.append(("connection", "close"))
        target = path + ("?" + query if query else "")
        head = f"{method} {target} HTTP/1.1\r\n" + "".join(f"{n}: {v}\r\n" for n, v in h) + "\r\n"
        return head.encode("latin-1") + body

    def put(self, path, body=b"", headers=(), query=""):
        return self.request("PUT", path, headers, body, query)

    def get(self, path, headers=(), query=""):
        return self.request("GET", path, headers, b"", query)

    def delete(self, path, query=""):
        return self.request("DELETE", path, query=query)


def parse(data):
    if b"\r\n\r\n" not in data:
        return Response(0, {}, data)
    head, body = data.split(b"\r\n\r\n", 1)
    lines = head.decode("latin-1").split("\r\n")
    headers = {}
    for l in lines[1:]:
        n, v = l.split(":", 1)
        headers[n.strip().lower()] = v.strip()
    if headers.get("transfer-encoding") == "chunked":
        out, rest = b"", body
        while True:
            size, _, rest = rest.partition(b"\r\n")
            n = int(size or b"0", 16)
            if n == 0:
                break
            out += rest[:n]
            rest = rest[n + 2:]
        body = out
    return Response(int(lines[0].split()[1]), headers, body)


def enc(s, safe="-_.~"):
    return urllib.parse.quote(s, safe=safe)


def h256(key, s):
    return hmac.new(key, s.encode() if isinstance(s, str) else s, hashlib.sha256).digest()


def signing_key(date, region="us-east-1"):
    return h256(h256(h256(h256(("AWS4" + SK).encode(), date[:8]), region), "s3"), "aws4_request")


def now():
    return time.strftime("%Y%m%dT%H%M%SZ", time.gmtime())


def canonical(method, path, params, headers, signed, payload):
    """path is not encoded; params are decoded pairs"""
    q = "&".join(f"{n}={v}" for n, v in sorted((enc(n), enc(v)) for n, v in params))
    lines = "".join(n + ":" + ",".join(" ".join(v.split()) for m, v in headers if m.lower() == n) + "\n" for n in signed)
    return "\n".join([method, enc(path, "/-_.~"), q, lines, ";".join(signed), payload])


def string_to_sign(date, creq, region="us-east-1"):
    return "\n".join(["AWS4-HMAC-SHA256", date, f"{date[:8]}/{region}/s3/aws4_request", hashlib.sha256(creq.encode()).hexdigest()])


def sign(host, method, path, params=(), headers=(), body=b"", payload=None, date=None, region="us-east-1"):
    """the headers of a signed request"""
    date = date or now()
    payload = payload or hashlib.sha256(body).hexdigest()
    h = [("host", host), ("x-amz-date", date), ("x-amz-content-sha256", payload)] + list(headers)
    signed = sorted({n.lower() for n, _ in h})
    sts = string_to_sign(date, canonical(method, path, params, h, signed, payload), region)
    sig = h256(signing_key(date, region), sts).hex()
    h.append(("authorization", f"AWS4-HMAC-SHA256 Credential={AK}/{date[:8]}/{region}/s3/aws4_request,SignedHeaders={';'.join(signed)},Signature={sig}"))
    return h


def signature_of(headers):
    return dict(headers)["authorization"].rsplit("=", 1)[1]


def presign(host, method, path, params=(), date=None, expires="3600", region="us-east-1"):
    """the query of a presigned url"""
    date = date or now()
    p = list(params) + [("X-Amz-Algorithm", "AWS4-HMAC-SHA256"), ("X-Amz-Credential", f"{AK}/{date[:8]}/{region}/s3/aws4_request"),
                        ("X-Amz-Date", date), ("X-Amz-Expires", expires), ("X-Amz-SignedHeaders", "host")]
    creq = canonical(method, path, p, [("host", host)], ["host"], "UNSIGNED-PAYLOAD")
    sig = h256(signing_key(date, region), string_to_sign(date, creq, region)).hex()
    return "&".join(f"{enc(n)}={enc(v)}" for n, v in p) + "&X-Amz-Signature=" + sig


def chunk_signature(date, prev, data, region="us-east-1"):
    e = hashlib.sha256(b"").hexdigest()
    sts = "\n".join(["AWS4-HMAC-SHA256-PAYLOAD", date, f"{date[:8]}/{region}/s3/aws4_request", prev, e, hashlib.sha256(data).hexdigest()])
    return h256(signing_key(date, region), sts).hex()


def form(fields, content, boundary="BOUNDARY", filename="f"):
    b = b""
    for n, v in fields:
        b += f'--{boundary}\r\nContent-Disposition: form-data; name="{n}"\r\n\r\n{v}\r\n'.encode()
    b += f'--{boundary}\r\nContent-Disposition: form-data; name="file"; filename="{filename}"\r\nContent-Type: text/plain\r\n\r\n'.encode()
    return b + content + f"\r\n--{boundary}--\r\n".encode()


def signed_fields(key, extra=(), date=None, policy=None):
    date = date or now()
    names = ["key"] + [n for n, _ in extra]
    policy = policy or base64.b64encode(json.dumps({"expiration": "2999-01-01T00:00:00Z", "conditions": [["starts-with", "$" + n, ""] for n in names]}).encode()).decode()
    sig = h256(signing_key(date), policy).hex()
    return [("key", key), ("policy", policy), ("x-amz-algorithm", "AWS4-HMAC-SHA256"), ("x-amz-credential", f"{AK}/{date[:8]}/us-east-1/s3/aws4_request"),
            ("x-amz-date", date)] + list(extra) + [("x-amz-signature", sig)]


def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)


RECORDER = r'''
// a storage that notes what it is asked for
use s3_server::dto::*;
use s3_server::errors::S3StorageResult;
use s3_server::{S3Service, S3Storage};
use hyper::{Body, Request};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, Default)]
struct Recorder(Arc<Mutex<Vec<String>>>);
impl Recorder {
    fn note<T: std::fmt::Debug, O, E>(&self, t: T, o: O) -> S3StorageResult<O, E> {
        self.0.lock().unwrap().push(format!("{t:?}"));
        Ok(o)
    }
}
macro_rules! ops {
    ($($f:ident $i:ident $o:ident $e:ident $d:expr;)*) => {
        #[async_trait::async_trait]
        impl S3Storage for Recorder {
            $(async fn $f(&self, input: $i) -> S3StorageResult<$o, $e> {
                #[allow(unused_mut)]
                let mut o: $o = $d;
                /*OUT*/
                self.note(input, o)
            })*
        }
    };
}
ops! {
    complete_multipart_upload CompleteMultipartUploadRequest CompleteMultipartUploadOutput CompleteMultipartUploadError CompleteMultipartUploadOutput::default();
    copy_object CopyObjectRequest CopyObjectOutput CopyObjectError CopyObjectOutput::default();
    create_multipart_upload CreateMultipartUploadRequest CreateMultipartUploadOutput CreateMultipartUploadError CreateMultipartUploadOutput::default();
    create_bucket CreateBucketRequest CreateBucketOutput CreateBucketError CreateBucketOutput::default();
    delete_bucket DeleteBucketRequest DeleteBucketOutput DeleteBucketError DeleteBucketOutput;
    delete_object DeleteObjectRequest DeleteObjectOutput DeleteObjectError DeleteObjectOutput::default();
    delete_objects DeleteObjectsRequest DeleteObjectsOutput DeleteObjectsError DeleteObjectsOutput::default();
    get_bucket_location GetBucketLocationRequest GetBucketLocationOutput GetBucketLocationError GetBucketLocationOutput::default();
    get_object GetObjectRequest GetObjectOutput GetObjectError GetObjectOutput::default();
    head_bucket HeadBucketRequest HeadBucketOutput HeadBucketError HeadBucketOutput;
    head_object HeadObjectRequest HeadObjectOutput HeadObjectError HeadObjectOutput::default();
    list_buckets ListBucketsRequest ListBucketsOutput ListBucketsError ListBucketsOutput::default();
    list_objects ListObjectsRequest ListObjectsOutput ListObjectsError ListObjectsOutput::default();
    list_objects_v2 ListObjectsV2Request ListObjectsV2Output ListObjectsV2Error ListObjectsV2Output::default();
    put_object PutObjectRequest PutObjectOutput PutObjectError PutObjectOutput::default();
    upload_part UploadPartRequest UploadPartOutput UploadPartError UploadPartOutput::default();
}

/// (status, headers, body, what the storage was asked for)
async fn run(rq: Request<Body>) -> (u16, String, String, String) {
    let rec = Recorder::default();
    let service = S3Service::new(rec.clone());
    let rs = service.hyper_call(rq).await.unwrap();
    let status = rs.status().as_u16();
    let headers = format!("{:?}", rs.headers());
    let body = hyper::body::to_bytes(rs.into_body()).await.unwrap();
    let calls = rec.0.lock().unwrap().join("\n");
    (status, headers, String::from_utf8_lossy(&body).into_owned(), calls)
}

fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("FAILED: {what}");
        std::process::exit(1);
    }
}
'''


def rust(source):
    """build and run a Rust program against the library in the current directory"""
    repo = os.getcwd()
    d = tempfile.mkdtemp(prefix="s3demo-")
    try:
        os.mkdir(f"{d}/src")
        shutil.copy(f"{repo}/Cargo.lock", f"{d}/Cargo.lock")
        with open(f"{d}/Cargo.toml", "w") as f:
            f.write(f'''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
s3-server = {{ path = "{repo}" }}
hyper = "0.14"
async-trait = "0.1"
tokio = {{ version = "1", features = ["rt", "macros"] }}
[workspace]
''')
        with open(f"{d}/src/main.rs", "w") as f:
            f.write(source)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{d}/target", RUSTFLAGS="--cap-lints allow",
                   CARGO_PROFILE_DEV_DEBUG="0")
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env)
        check(r.returncode == 0, "the demonstration builds")
        r = subprocess.run([f"{d}/target/debug/demo"], cwd=d)
        check(r.returncode == 0, "the demonstration succeeds")
    finally:
        shutil.rmtree(d, ignore_errors=True)
