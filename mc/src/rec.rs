//! A storage that records what reaches it and answers as it is told.

use crate::sig::Cred;
use async_trait::async_trait;
use futures::StreamExt;
use s3_server::dto::*;
use s3_server::errors::{S3Error, S3ErrorCode, S3StorageError, S3StorageResult};
use s3_server::{S3Service, S3Storage, SimpleAuth};
use std::any::Any;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

/// one call of the storage; `input` is the Debug text of the request without its body and metadata
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Call {
    pub op: &'static str,
    pub input: String,
    pub meta: Option<BTreeMap<String, String>>,
    /// Err: what arrived before the body failed
    pub body: Option<Result<Vec<u8>, Vec<u8>>>,
}

impl Call {
    /// does the call take effect
    pub fn effective(&self) -> bool {
        !matches!(self.body, Some(Err(_)))
    }
    pub fn show(&self) -> String {
        let body = match &self.body {
            None => "none".into(),
            Some(Ok(b)) => format!("{} bytes {}", b.len(), String::from_utf8_lossy(&b[..b.len().min(60)]).escape_debug()),
            Some(Err(b)) => format!("failed after {} bytes", b.len()),
        };
        format!("{}: {} metadata {:?} body {body}", self.op, self.input, self.meta)
    }
}

type ErrFn = Box<dyn Fn() -> S3Error + Send>;

#[derive(Default)]
pub struct Rec {
    pub calls: Mutex<Vec<Call>>,
    /// S3StorageResult<Output, Error> of the next call
    pub answer: Mutex<Option<Box<dyn Any + Send>>>,
    pub error: Mutex<Option<ErrFn>>,
}

impl Rec {
    pub fn take(&self) -> Vec<Call> {
        std::mem::take(&mut self.calls.lock().unwrap())
    }
    pub fn answer<T: Send + 'static>(&self, t: T) {
        *self.answer.lock().unwrap() = Some(Box::new(t));
    }
    pub fn fail_with(&self, f: impl Fn() -> S3Error + Send + 'static) {
        *self.error.lock().unwrap() = Some(Box::new(f));
    }
    pub fn reset(&self) {
        self.take();
        *self.answer.lock().unwrap() = None;
        *self.error.lock().unwrap() = None;
    }
    fn reply<O: Make + Send + 'static, E: Send + 'static>(&self, call: Call) -> S3StorageResult<O, E> {
        let ok = call.effective();
        self.calls.lock().unwrap().push(call);
        if let Some(f) = &*self.error.lock().unwrap() {
            return Err(S3StorageError::Other(f()));
        }
        if !ok {
            return Err(S3StorageError::Other(S3Error::new(S3ErrorCode::InternalError, "the body failed")));
        }
        match self.answer.lock().unwrap().take() {
            None => Ok(O::make()),
            Some(a) => match a.downcast::<S3StorageResult<O, E>>() {
                Ok(a) => *a,
                Err(_) => Err(S3StorageError::Other(S3Error::new(S3ErrorCode::InternalError, "harness: wrong answer"))),
            },
        }
    }
}

pub struct Handle(pub Arc<Rec>);

/// the text of a request, its metadata and its body
pub trait Norm: Sized + Send {
    const OP: &'static str;
    fn norm(self) -> (Call, Option<ByteStream>);
}

async fn record<I: Norm>(i: I) -> Call {
    let (mut call, body) = i.norm();
    if let Some(mut b) = body {
        let mut v = vec![];
        let mut failed = false;
        while let Some(c) = b.next().await {
            match c {
                Ok(c) => v.extend_from_slice(&c),
                Err(_) => {
                    failed = true;
                    break;
                }
            }
        }
        call.body = Some(if failed { Err(v) } else { Ok(v) });
    }
    call
}

macro_rules! field {
    ($i:ident, $meta:ident, $body:ident, metadata) => {
        $meta = $i.metadata.take().map(|m| m.into_iter().collect());
    };
    ($i:ident, $meta:ident, $body:ident, body) => {
        $body = $i.body.take();
    };
}

macro_rules! ops {
    ($($op:ident $i:ident $o:ident $e:ident [$($f:ident)*])*) => {
        $(impl Norm for $i {
            const OP: &'static str = stringify!($op);
            #[allow(unused_mut, unused_assignments)]
            fn norm(mut self) -> (Call, Option<ByteStream>) {
                let i = &mut self;
                let mut meta: Option<BTreeMap<String, String>> = None;
                let mut body: Option<ByteStream> = None;
                $(field!(i, meta, body, $f);)*
                (Call { op: stringify!($op), input: format!("{i:?}"), meta, body: None }, body)
            }
        })*
        #[async_trait]
        impl S3Storage for Handle {
            $(async fn $op(&self, input: $i) -> S3StorageResult<$o, $e> {
                let call = record(input).await;
                self.0.reply(call)
            })*
        }
    };
}

/// Default, also for the outputs that lack it
pub trait Make {
    fn make() -> Self;
}
macro_rules! make {
    ($($t:ident $v:expr;)*) => { $(impl Make for $t { fn make() -> Self { $v } })* };
}
make! {
    CompleteMultipartUploadOutput Self::default();
    CopyObjectOutput Self::default();
    CreateMultipartUploadOutput Self::default();
    CreateBucketOutput Self::default();
    DeleteObjectOutput Self::default();
    DeleteObjectsOutput Self::default();
    GetBucketLocationOutput Self::default();
    GetObjectOutput Self::default();
    HeadObjectOutput Self::default();
    ListBucketsOutput Self::default();
    ListObjectsOutput Self::default();
    ListObjectsV2Output Self::default();
    PutObjectOutput Self::default();
    UploadPartOutput Self::default();
    DeleteBucketOutput DeleteBucketOutput;
    HeadBucketOutput HeadBucketOutput;
}

ops! {
    complete_multipart_upload CompleteMultipartUploadRequest CompleteMultipartUploadOutput CompleteMultipartUploadError []
    copy_object CopyObjectRequest CopyObjectOutput CopyObjectError [metadata]
    create_multipart_upload CreateMultipartUploadRequest CreateMultipartUploadOutput CreateMultipartUploadError [metadata]
    create_bucket CreateBucketRequest CreateBucketOutput CreateBucketError []
    delete_object DeleteObjectRequest DeleteObjectOutput DeleteObjectError []
    delete_objects DeleteObjectsRequest DeleteObjectsOutput DeleteObjectsError []
    get_bucket_location GetBucketLocationRequest GetBucketLocationOutput GetBucketLocationError []
    get_object GetObjectRequest GetObjectOutput GetObjectError []
    head_object HeadObjectRequest HeadObjectOutput HeadObjectError []
    list_buckets ListBucketsRequest ListBucketsOutput ListBucketsError []
    list_objects ListObjectsRequest ListObjectsOutput ListObjectsError []
    list_objects_v2 ListObjectsV2Request ListObjectsV2Output ListObjectsV2Error []
    put_object PutObjectRequest PutObjectOutput PutObjectError [metadata body]
    upload_part UploadPartRequest UploadPartOutput UploadPartError [body]
    delete_bucket DeleteBucketRequest DeleteBucketOutput DeleteBucketError []
    head_bucket HeadBucketRequest HeadBucketOutput HeadBucketError []
}

/// the recorded form of an expected request
pub fn expect<I: Norm>(i: I) -> Call {
    let (call, body) = i.norm();
    assert!(body.is_none(), "harness: expected bodies are given separately");
    call
}

pub struct Fixture {
    pub rec: Arc<Rec>,
    pub service: S3Service,
}

impl Fixture {
    /// with the credentials that the service knows (none: no authentication)
    pub fn new(creds: &[&Cred]) -> Fixture {
        let rec: Arc<Rec> = Arc::default();
        let mut service = S3Service::new(Handle(Arc::clone(&rec)));
        if !creds.is_empty() {
            let mut a = SimpleAuth::new();
            for c in creds {
                a.register(c.access.clone(), c.secret.clone());
            }
            service.set_auth(a);
        }
        Fixture { rec, service }
    }
    /// one request: the response and what reached the storage
    pub fn run(&self, rq: &crate::api::Rq) -> Result<(crate::api::Rs, Vec<Call>), String> {
        self.rec.take();
        let rs = crate::api::call(&self.service, rq)?;
        Ok((rs, self.rec.take()))
    }
}
