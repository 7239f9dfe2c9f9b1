From 02b6c4731cb00eb6a0731a986abbc785aec9f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 01/59] fix: UploadPart must only match object paths

PUT /?partNumber=1&uploadId=x (or the same on a bucket) matched the
UploadPart handler and panicked in unwrap_object_path.
---
 src/ops/upload_part.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index 7e6276c..7951a5f 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -22,6 +22,7 @@ pub struct Handler;
 impl S3Handler for Handler {
     fn is_match(&self, ctx: &'_ ReqContext<'_>) -> bool {
         bool_try!(ctx.req.method() == Method::PUT);
+        bool_try!(ctx.path.is_object());
         let qs = bool_try_some!(ctx.query_strings.as_ref());
         qs.get("partNumber").is_some() && qs.get("uploadId").is_some()
     }
-- 
2.43.0


From 66399fb1e34af6641b659539534a62b963108b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 02/59] fix: do not run the bucket/object operation for an
 unsupported sub-resource

DELETE /bucket/key?uploadId=ID (AbortMultipartUpload) deleted the object,
PUT /bucket/key?tagging replaced its content with the tagging document,
DELETE /bucket?policy deleted the bucket. Answer NotSupported instead.
---
 src/service.rs | 65 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 64 insertions(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index 30d5ec0..5190fad 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -4,7 +4,9 @@ use crate::auth::S3Auth;
 use crate::data_structures::{OrderedHeaders, OrderedQs};
 use crate::errors::{S3AuthError, S3ErrorCode, S3Result};
 use crate::headers::{AmzContentSha256, AmzDate, AuthorizationV4, CredentialV4};
-use crate::headers::{AUTHORIZATION, CONTENT_TYPE, X_AMZ_CONTENT_SHA256, X_AMZ_DATE};
+use crate::headers::{
+    AUTHORIZATION, CONTENT_TYPE, X_AMZ_CONTENT_SHA256, X_AMZ_COPY_SOURCE, X_AMZ_DATE,
+};
 use crate::ops::{ReqContext, S3Handler};
 use crate::output::S3Output;
 use crate::path::{S3Path, S3PathErrorKind};
@@ -169,6 +171,10 @@ impl S3Service {
             ));
         }
 
+        if names_unsupported_subresource(&ctx) {
+            return Err(not_supported!("The operation is not supported yet."));
+        }
+
         for handler in &self.handlers {
             if handler.is_match(&ctx) {
                 return handler.handle(&mut ctx, &*self.storage).await;
@@ -179,6 +185,63 @@ impl S3Service {
     }
 }
 
+/// Does the request address a sub-resource that no handler implements?
+///
+/// Such a request must not fall through to the handler of the bucket or the object itself:
+/// `DELETE /bucket/key?uploadId=ID` aborts an upload, it does not delete the object.
+fn names_unsupported_subresource(ctx: &ReqContext<'_>) -> bool {
+    /// sub-resources without any handler
+    const UNSUPPORTED: [&str; 27] = [
+        "accelerate",
+        "acl",
+        "analytics",
+        "cors",
+        "encryption",
+        "intelligent-tiering",
+        "inventory",
+        "legal-hold",
+        "lifecycle",
+        "logging",
+        "metrics",
+        "notification",
+        "object-lock",
+        "ownershipControls",
+        "policy",
+        "policyStatus",
+        "publicAccessBlock",
+        "replication",
+        "requestPayment",
+        "restore",
+        "retention",
+        "select",
+        "tagging",
+        "torrent",
+        "versioning",
+        "versions",
+        "website",
+    ];
+
+    let qs = match ctx.query_strings {
+        Some(ref qs) => qs,
+        None => return false,
+    };
+
+    if UNSUPPORTED.iter().any(|name| qs.get(name).is_some()) {
+        return true;
+    }
+
+    let method = ctx.req.method();
+    if qs.get("uploadId").is_some() {
+        // AbortMultipartUpload, ListParts and UploadPartCopy
+        return method == Method::DELETE
+            || method == Method::GET
+            || (method == Method::PUT && ctx.headers.get(X_AMZ_COPY_SOURCE).is_some());
+    }
+
+    // ListMultipartUploads
+    method == Method::GET && qs.get("uploads").is_some()
+}
+
 /// Extract urlencoded URI from Request
 fn decode_uri_path(req: &Request) -> S3Result<Cow<'_, str>> {
     urlencoding::decode(req.uri().path())
-- 
2.43.0


From 2ca4f26f5e5736e33a7211340d66da93c9678358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 03/59] fix: an aws-chunked body must end with its signed final
 chunk

The stream ended successfully at any chunk boundary, and within a chunk
header, so a truncated upload was stored as if it were complete. Nothing
may follow the final chunk either.
---
 src/streams/aws_chunked_stream.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/streams/aws_chunked_stream.rs b/src/streams/aws_chunked_stream.rs
index c2d3215..8716ea4 100644
--- a/src/streams/aws_chunked_stream.rs
+++ b/src/streams/aws_chunked_stream.rs
@@ -143,6 +143,7 @@ impl AwsChunkedStream {
                         pin_mut!(body);
                         let mut prev_bytes = Bytes::new();
                         let mut buf: Vec<u8> = Vec::new();
+                        let mut finished = false;
                         let mut ctx = SignatureCtx {
                             amz_date,
                             region,
@@ -155,8 +156,12 @@ impl AwsChunkedStream {
                                 match Self::read_meta_bytes(body.as_mut(), prev_bytes, &mut buf)
                                     .await
                                 {
-                                    None => break,
+                                    None if finished && buf.is_empty() => break,
+                                    None => return Err(AwsChunkedStreamError::Incomplete),
                                     Some(Err(e)) => return Err(AwsChunkedStreamError::Io(e)),
+                                    Some(Ok(_)) if finished => {
+                                        return Err(AwsChunkedStreamError::FormatError)
+                                    }
                                     Some(Ok(remaining_bytes)) => prev_bytes = remaining_bytes,
                                 };
                                 if let Ok((_, meta)) = parse_chunk_meta(&buf) {
@@ -182,6 +187,9 @@ impl AwsChunkedStream {
                                 Some(signature) => ctx.prev_signature = signature,
                             }
 
+                            // the last chunk is the one without data
+                            finished = meta.size == 0;
+
                             for bytes in data {
                                 y.yield_ok(bytes).await;
                             }
-- 
2.43.0


From 6067f4ba7d50f9d0ac559919e9d03548ab93973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 04/59] fix: a form upload must not depend on how its body is
 split into chunks

A chunk that ended inside the first boundary line made the parser take the
partial line for a wrong boundary and reject the upload.
---
 src/streams/multipart.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 8f1bed3..6e37729 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -389,11 +389,8 @@ impl<'a> CrlfLines<'a> {
                 return Some(left);
             }
         }
-        if self.slice.is_empty() {
-            None
-        } else {
-            Some(mem::take(&mut self.slice))
-        }
+        // the rest of the line has not arrived yet
+        None
     }
 
     /// split by pattern and return previous bytes
-- 
2.43.0


From 05fc4c3aa0057a6dc26199c764842bb35e8f17f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 05/59] fix: compute signatures over the decoded request path

The canonical URI is the URI-encoding of the decoded path. Encoding the
raw, already percent-encoded path once more rejected every correctly
signed request whose key needs percent-encoding.
---
 src/service.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 5190fad..4c7f8d2 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -482,9 +482,12 @@ async fn check_presigned_url(
             .headers
             .map_signed_headers(&presigned_url.signed_headers);
 
+        // the canonical request contains the encoding of the decoded path
+        let uri_path = decode_uri_path(ctx.req)?;
+
         let canonical_request = signature_v4::create_presigned_canonical_request(
             ctx.req.method(),
-            ctx.req.uri().path(),
+            uri_path.as_ref(),
             qs.as_ref(),
             &headers,
         );
@@ -537,7 +540,8 @@ async fn check_header_auth(
 
     let signature = {
         let method = ctx.req.method();
-        let uri_path = ctx.req.uri().path();
+        // the canonical request contains the encoding of the decoded path
+        let uri_path: &str = &decode_uri_path(ctx.req)?;
         let query_strings: &[(String, String)] =
             ctx.query_strings.as_ref().map_or(&[], AsRef::as_ref);
 
-- 
2.43.0


From 58aea530fa7262af66201595269924dc3e5f9f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 06/59] fix: canonicalize repeated headers and inner spaces as
 SigV4 does

Values of a repeated signed header are joined by commas under one name,
and sequential spaces are one space; requests signed that way by the usual
clients were rejected.
---
 src/data_structures/ordered_headers.rs |  2 +-
 src/signature_v4.rs                    | 48 +++++++++++++++++++++-----
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/src/data_structures/ordered_headers.rs b/src/data_structures/ordered_headers.rs
index 3ec6cb0..e445296 100644
--- a/src/data_structures/ordered_headers.rs
+++ b/src/data_structures/ordered_headers.rs
@@ -35,7 +35,7 @@ impl<'a> OrderedHeaders<'a> {
         for (name, value) in req.headers().iter() {
             headers.push((name.as_str(), value.to_str()?));
         }
-        headers.sort_unstable();
+        headers.sort_by_key(|&(name, _)| name); // keep the order of values
 
         Ok(Self { headers })
     }
diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index df3f8c8..bc7e47a 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -156,6 +156,18 @@ fn is_skipped_header(header: &str) -> bool {
     ["authorization", "user-agent"].contains(&header)
 }
 
+/// trim a header value and replace sequential spaces with a single space
+fn push_header_value(output: &mut String, value: &str) {
+    let mut prev_is_space = false;
+    for c in value.trim().chars() {
+        let is_space = c == ' ';
+        if !(is_space && prev_is_space) {
+            output.push(c);
+        }
+        prev_is_space = is_space;
+    }
+}
+
 /// is skipped query string
 fn is_skipped_query_string(name: &str) -> bool {
     name == "X-Amz-Signature"
@@ -233,13 +245,21 @@ pub fn create_canonical_request(
 
             // FIXME: check HOST, Content-Type, x-amz-security-token, x-amz-content-sha256
 
+            let mut last_name = None;
             for &(name, value) in headers.as_ref().iter() {
                 if is_skipped_header(name) {
                     continue;
                 }
-                ans.push_str(name);
-                ans.push(':');
-                ans.push_str(value.trim());
+                if last_name == Some(name) {
+                    // another value of the same header
+                    let _newline = ans.pop();
+                    ans.push(',');
+                } else {
+                    ans.push_str(name);
+                    ans.push(':');
+                    last_name = Some(name);
+                }
+                push_header_value(ans, value);
                 ans.push('\n');
             }
             ans.push('\n');
@@ -247,10 +267,12 @@ pub fn create_canonical_request(
         .also(|ans| {
             // <SignedHeaders>\n
             let mut first_flag = true;
+            let mut last_name = None;
             for &(name, _) in headers.as_ref().iter() {
-                if is_skipped_header(name) {
+                if is_skipped_header(name) || last_name == Some(name) {
                     continue;
                 }
+                last_name = Some(name);
                 if first_flag {
                     first_flag = false;
                 } else {
@@ -422,13 +444,21 @@ pub fn create_presigned_canonical_request(
 
             // FIXME: check HOST, Content-Type, x-amz-security-token, x-amz-content-sha256
 
+            let mut last_name = None;
             for &(name, value) in headers.as_ref().iter() {
                 if is_skipped_header(name) {
                     continue;
                 }
-                ans.push_str(name);
-                ans.push(':');
-                ans.push_str(value.trim());
+                if last_name == Some(name) {
+                    // another value of the same header
+                    let _newline = ans.pop();
+                    ans.push(',');
+                } else {
+                    ans.push_str(name);
+                    ans.push(':');
+                    last_name = Some(name);
+                }
+                push_header_value(ans, value);
                 ans.push('\n');
             }
             ans.push('\n');
@@ -436,10 +466,12 @@ pub fn create_presigned_canonical_request(
         .also(|ans| {
             // <SignedHeaders>\n
             let mut first_flag = true;
+            let mut last_name = None;
             for &(name, _) in headers.as_ref().iter() {
-                if is_skipped_header(name) {
+                if is_skipped_header(name) || last_name == Some(name) {
                     continue;
                 }
+                last_name = Some(name);
                 if first_flag {
                     first_flag = false;
                 } else {
-- 
2.43.0


From 7716dc9c36be36c03313d41a6be71962e5bff32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 07/59] fix: sort the signed headers of a presigned url

They are looked up by binary search.
---
 src/signature_v4.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index bc7e47a..0aafcee 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -92,7 +92,8 @@ impl<'a> PresignedUrl<'a> {
         if !info.x_amz_signed_headers.is_ascii() {
             return Err(ParsePresignedUrlError { _priv: () });
         }
-        let signed_headers = info.x_amz_signed_headers.split(';').collect::<Vec<&str>>();
+        let mut signed_headers = info.x_amz_signed_headers.split(';').collect::<Vec<&str>>();
+        signed_headers.sort_unstable();
 
         if !crypto::is_sha256_checksum(info.x_amz_signature) {
             return Err(ParsePresignedUrlError { _priv: () });
-- 
2.43.0


From 66de01a03f8eae47ce2f1cad3a1ad9e2e5b2b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 08/59] fix: reject expired presigned urls

X-Amz-Expires was parsed and ignored, so a presigned url was valid forever.
---
 src/headers/amz_date.rs | 15 +++++++++++++++
 src/service.rs          |  4 ++++
 src/signature_v4.rs     | 15 +++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/src/headers/amz_date.rs b/src/headers/amz_date.rs
index 71069ec..92fc625 100644
--- a/src/headers/amz_date.rs
+++ b/src/headers/amz_date.rs
@@ -98,6 +98,21 @@ impl AmzDate {
         )
     }
 
+    /// the point in time, if it exists
+    pub(crate) fn to_utc(self) -> Option<chrono::DateTime<chrono::Utc>> {
+        use chrono::{TimeZone, Utc};
+        let year = self.year.try_into().ok()?;
+        Utc.with_ymd_and_hms(
+            year,
+            self.month,
+            self.day,
+            self.hour,
+            self.minute,
+            self.second,
+        )
+        .single()
+    }
+
     /// `YYYYMMDD`
     #[must_use]
     pub fn to_date(&self) -> String {
diff --git a/src/service.rs b/src/service.rs
index 4c7f8d2..8024b8b 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -462,6 +462,10 @@ async fn check_presigned_url(
     let presigned_url = signature_v4::PresignedUrl::from_query(qs)
         .map_err(|err| invalid_request!("Missing presigned fields", err))?;
 
+    if presigned_url.is_expired() {
+        return Err(code_error!(AccessDenied, "Request has expired"));
+    }
+
     // TODO: how to use it?
     let _content_sha256: Option<AmzContentSha256<'_>> = extract_amz_content_sha256(&ctx.headers)?;
 
diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index 0aafcee..4a555bb 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -112,6 +112,21 @@ impl<'a> PresignedUrl<'a> {
     }
 }
 
+impl PresignedUrl<'_> {
+    /// Is the current time past the validity period?
+    pub fn is_expired(&self) -> bool {
+        let lifetime = chrono::Duration::seconds(i64::from(self.expires));
+        match self
+            .amz_date
+            .to_utc()
+            .and_then(|d| d.checked_add_signed(lifetime))
+        {
+            Some(deadline) => deadline < chrono::Utc::now(),
+            None => true,
+        }
+    }
+}
+
 /// custom uri encode
 fn uri_encode(output: &mut String, input: &str, encode_slash: bool) {
     /// hex uppercase table
-- 
2.43.0


From fcf2dec88bf188a6a23df2d2a308873ae27aaef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 09/59] fix: reject x-amz-* headers that the signature does not
 cover

Anyone on the path could add e.g. x-amz-copy-source to a signed PutObject
request and turn it into a copy of another object.
---
 src/service.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index 8024b8b..332705a 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -356,6 +356,24 @@ async fn fetch_secret_key(auth: &(dyn S3Auth + Send + Sync), access_key: &str) -
     }
 }
 
+/// Every `x-amz-*` header must be covered by the signature.
+///
+/// `x-amz-content-sha256` selects the payload line of the canonical request instead.
+fn check_unsigned_headers(headers: &OrderedHeaders<'_>, signed_headers: &[&str]) -> S3Result<()> {
+    let is_unsigned = |name: &str| {
+        name.starts_with("x-amz-")
+            && name != X_AMZ_CONTENT_SHA256.as_str()
+            && !signed_headers.contains(&name)
+    };
+    if headers.as_ref().iter().any(|&(name, _)| is_unsigned(name)) {
+        return Err(code_error!(
+            AccessDenied,
+            "There were headers present in the request which were not signed"
+        ));
+    }
+    Ok(())
+}
+
 /// check post signature (v4)
 async fn check_post_signature(
     ctx: &mut ReqContext<'_>,
@@ -508,6 +526,8 @@ async fn check_presigned_url(
         return Err(signature_mismatch!());
     }
 
+    check_unsigned_headers(&ctx.headers, &presigned_url.signed_headers)?;
+
     Ok(())
 }
 
@@ -600,6 +620,8 @@ async fn check_header_auth(
         return Err(signature_mismatch!());
     }
 
+    check_unsigned_headers(&ctx.headers, &authorization.signed_headers)?;
+
     if is_stream {
         let body = take_io_body(&mut ctx.body);
 
-- 
2.43.0


From 5b1da8635ef8e842a60ee546431d3d1da9144984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 10/59] fix: a failed upload must not destroy the existing
 object or part

PutObject and UploadPart truncated the target before the body had been
received. Write a temporary file and rename it when it is complete.
---
 src/storages/fs.rs | 49 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 551c52b..b76444f 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -87,6 +87,12 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// create the path of a temporary file under the virtual root
+    fn new_temp_file(&self) -> TempFile {
+        let path = self.root.join(format!(".tmp-{}", Uuid::new_v4()));
+        TempFile { path: Some(path) }
+    }
+
     /// load metadata from fs
     async fn load_metadata(
         &self,
@@ -140,6 +146,37 @@ impl FileSystem {
     }
 }
 
+/// A file that gets its final path only when it is complete, and is removed otherwise
+#[derive(Debug)]
+struct TempFile {
+    /// path, `None` if the file is persisted
+    path: Option<PathBuf>,
+}
+
+impl TempFile {
+    /// temporary path
+    fn path(&self) -> &Path {
+        self.path
+            .as_deref()
+            .unwrap_or_else(|| panic!("the temporary file is persisted"))
+    }
+
+    /// atomically replace `path` with this file
+    async fn persist(mut self, path: &Path) -> io::Result<()> {
+        async_fs::rename(self.path(), path).await?;
+        self.path = None;
+        Ok(())
+    }
+}
+
+impl Drop for TempFile {
+    fn drop(&mut self) {
+        if let Some(ref path) = self.path {
+            let _ignored = std::fs::remove_file(path);
+        }
+    }
+}
+
 /// copy bytes from a stream to a writer
 async fn copy_bytes<S, W>(mut stream: S, writer: &mut W) -> io::Result<usize>
 where
@@ -683,11 +720,13 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&object_path).await);
+        let temp_file = self.new_temp_file();
+        let file = trace_try!(File::create(temp_file.path()).await);
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
         let size = trace_try!(ret);
+        drop(writer);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
 
         debug!(
@@ -698,6 +737,8 @@ impl S3Storage for FileSystem {
             "PutObject: write file",
         );
 
+        trace_try!(temp_file.persist(&object_path).await);
+
         if let Some(ref metadata) = metadata {
             trace_try!(self.save_metadata(&bucket, &key, metadata).await);
         }
@@ -749,11 +790,13 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&file_path).await);
+        let temp_file = self.new_temp_file();
+        let file = trace_try!(File::create(temp_file.path()).await);
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
         let size = trace_try!(ret);
+        drop(writer);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
 
         debug!(
@@ -764,6 +807,8 @@ impl S3Storage for FileSystem {
             "UploadPart: write file",
         );
 
+        trace_try!(temp_file.persist(&file_path).await);
+
         let e_tag = format!("\"{}\"", md5_sum);
 
         let output = UploadPartOutput {
-- 
2.43.0


From f20c5cab822cdd96a15f1708787ec36e0ddd52b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 11/59] fix: copying an object onto itself must not truncate it

CopyObject truncated the destination before it read the source.
---
 src/storages/fs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index b76444f..3ae9456 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -262,7 +262,9 @@ impl S3Storage for FileSystem {
         let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let _ = trace_try!(async_fs::copy(&src_path, &dst_path).await);
+        let temp_file = self.new_temp_file();
+        let _ = trace_try!(async_fs::copy(&src_path, temp_file.path()).await);
+        trace_try!(temp_file.persist(&dst_path).await);
 
         debug!(
             from = %src_path.display(),
-- 
2.43.0


From 48a449d2b9eb07e704d99f0bd6c76acd46787aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 12/59] fix: CopyObject decodes its source and reports what is
 missing

The source is URL-encoded and may start with a slash; a missing source is
NoSuchKey, a missing destination bucket NoSuchBucket, and the directories
of the destination key are created as PutObject does.
---
 src/storages/fs.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 3ae9456..d10cc6d 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -17,7 +17,7 @@ use crate::dto::{
     PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError, UploadPartOutput,
     UploadPartRequest,
 };
-use crate::errors::{S3StorageError, S3StorageResult};
+use crate::errors::{S3Result, S3StorageError, S3StorageResult};
 use crate::headers::{AmzCopySource, Range};
 use crate::path::S3Path;
 use crate::storage::S3Storage;
@@ -73,6 +73,17 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// check that the bucket exists
+    fn check_bucket_exists(&self, bucket: &str) -> S3Result<()> {
+        if trace_try!(self.get_bucket_path(bucket)).exists() {
+            return Ok(());
+        }
+        Err(code_error!(
+            NoSuchBucket,
+            "The specified bucket does not exist."
+        ))
+    }
+
     /// resolve metadata path under the virtual root (custom format)
     fn get_metadata_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
         let encode = |s: &str| base64_simd::URL_SAFE_NO_PAD.encode_to_string(s);
@@ -246,7 +257,9 @@ impl S3Storage for FileSystem {
         &self,
         input: CopyObjectRequest,
     ) -> S3StorageResult<CopyObjectOutput, CopyObjectError> {
-        let copy_source = AmzCopySource::from_header_str(&input.copy_source)
+        let copy_source = input.copy_source.as_str();
+        let copy_source = copy_source.strip_prefix('/').unwrap_or(copy_source);
+        let copy_source = AmzCopySource::from_header_str(copy_source)
             .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
 
         let (bucket, key) = match copy_source {
@@ -255,13 +268,25 @@ impl S3Storage for FileSystem {
             }
             AmzCopySource::Bucket { bucket, key } => (bucket, key),
         };
+        let key = &*urlencoding::decode(key)
+            .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
 
         let src_path = trace_try!(self.get_object_path(bucket, key));
         let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
 
+        if !src_path.is_file() {
+            let err = code_error!(NoSuchKey, "The specified key does not exist.");
+            return Err(err.into());
+        }
+        self.check_bucket_exists(&input.bucket)?;
+
         let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
+        if let Some(dir_path) = dst_path.parent() {
+            trace_try!(async_fs::create_dir_all(&dir_path).await);
+        }
+
         let temp_file = self.new_temp_file();
         let _ = trace_try!(async_fs::copy(&src_path, temp_file.path()).await);
         trace_try!(temp_file.persist(&dst_path).await);
-- 
2.43.0


From b5fa130373d2bf4e2afb171e7532d0774cd06bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 13/59] fix: PutObject must not create a missing bucket

---
 src/storages/fs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index d10cc6d..8db7488 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -725,6 +725,8 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody,"You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
+        self.check_bucket_exists(&bucket)?;
+
         if key.ends_with('/') {
             if content_length == Some(0) {
                 let object_path = trace_try!(self.get_object_path(&bucket, &key));
-- 
2.43.0


From 3de605cce2c3bb4e1a68aec56afbaf031078213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 14/59] fix: DeleteBucket must not delete the objects of the
 bucket

A bucket that still contains objects is BucketNotEmpty, a missing one
NoSuchBucket.
---
 src/storages/fs.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 8db7488..2e6b27a 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -322,8 +322,31 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteBucketRequest,
     ) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
+        self.check_bucket_exists(&input.bucket)?;
         let path = trace_try!(self.get_bucket_path(&input.bucket));
-        trace_try!(async_fs::remove_dir_all(path).await);
+
+        // directories without any file are not objects
+        let mut dirs = vec![path];
+        let mut idx: usize = 0;
+        while let Some(dir) = dirs.get(idx) {
+            let mut entries = trace_try!(async_fs::read_dir(dir).await);
+            while let Some(entry) = entries.next().await {
+                let entry = trace_try!(entry);
+                if !trace_try!(entry.file_type().await).is_dir() {
+                    let err = code_error!(
+                        BucketNotEmpty,
+                        "The bucket you tried to delete is not empty."
+                    );
+                    return Err(err.into());
+                }
+                dirs.push(entry.path());
+            }
+            idx = idx.wrapping_add(1);
+        }
+        for dir in dirs.into_iter().rev() {
+            trace_try!(async_fs::remove_dir(dir).await);
+        }
+
         Ok(DeleteBucketOutput)
     }
 
-- 
2.43.0


From d52b2f98d572492f1127a3514a1765d59af057e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 15/59] fix: a key must not name a path outside its bucket or
 of another key

Keys are joined to the bucket directory and normalized, so ../other/key,
an absolute key or an empty component reached other buckets and the
metadata files; reject keys with such components.
---
 src/storages/fs.rs | 50 +++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 2e6b27a..fe24a79 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -56,13 +56,24 @@ impl FileSystem {
     }
 
     /// resolve object path under the virtual root
-    fn get_object_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
+    fn get_object_path(&self, bucket: &str, key: &str) -> S3Result<PathBuf> {
+        // the path must lie below the bucket and must not be the path of another key
+        let is_special = |s: &str| matches!(s, "" | "." | "..") || s.contains('\0');
+        if key
+            .strip_suffix('/')
+            .unwrap_or(key)
+            .split('/')
+            .any(is_special)
+        {
+            return Err(code_error!(
+                InvalidArgument,
+                "The key can not be represented as a path."
+            ));
+        }
+
         let dir = Path::new(&bucket);
         let file_path = Path::new(&key);
-        let ans = dir
-            .join(&file_path)
-            .absolutize_virtually(&self.root)?
-            .into();
+        let ans = trace_try!(dir.join(&file_path).absolutize_virtually(&self.root)).into();
         Ok(ans)
     }
 
@@ -135,9 +146,8 @@ impl FileSystem {
     }
 
     /// get md5 sum
-    async fn get_md5_sum(&self, bucket: &str, key: &str) -> io::Result<String> {
-        let object_path = self.get_object_path(bucket, key)?;
-        let mut file = File::open(&object_path).await?;
+    async fn get_md5_sum(&self, object_path: &Path) -> io::Result<String> {
+        let mut file = File::open(object_path).await?;
         let mut buf = vec![0; 4_usize.wrapping_mul(1024).wrapping_mul(1024)];
         let mut md5_hash = Md5::new();
         loop {
@@ -271,8 +281,8 @@ impl S3Storage for FileSystem {
         let key = &*urlencoding::decode(key)
             .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
 
-        let src_path = trace_try!(self.get_object_path(bucket, key));
-        let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let src_path = self.get_object_path(bucket, key)?;
+        let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
         if !src_path.is_file() {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
@@ -303,7 +313,7 @@ impl S3Storage for FileSystem {
             let _ = trace_try!(async_fs::copy(src_metadata_path, dst_metadata_path).await);
         }
 
-        let md5_sum = trace_try!(self.get_md5_sum(bucket, key).await);
+        let md5_sum = trace_try!(self.get_md5_sum(&src_path).await);
 
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
@@ -355,7 +365,7 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
-        let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let path = self.get_object_path(&input.bucket, &input.key)?;
         if input.key.ends_with('/') {
             let mut dir = trace_try!(async_fs::read_dir(&path).await);
             let is_empty = dir.next().await.is_none();
@@ -376,7 +386,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
         let mut objects: Vec<(PathBuf, String)> = Vec::new();
         for object in input.delete.objects {
-            let path = trace_try!(self.get_object_path(&input.bucket, &object.key));
+            let path = self.get_object_path(&input.bucket, &object.key)?;
             if path.exists() {
                 objects.push((path, object.key));
             }
@@ -421,7 +431,7 @@ impl S3Storage for FileSystem {
         &self,
         input: GetObjectRequest,
     ) -> S3StorageResult<GetObjectOutput, GetObjectError> {
-        let object_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let object_path = self.get_object_path(&input.bucket, &input.key)?;
 
         let parse_range = |s: &str| {
             Range::from_header_str(s).map_err(|err| invalid_request!("Invalid header: range", err))
@@ -485,7 +495,7 @@ impl S3Storage for FileSystem {
 
         let (md5_sum, duration) = {
             let (ret, duration) =
-                time::count_duration(self.get_md5_sum(&input.bucket, &input.key)).await;
+                time::count_duration(self.get_md5_sum(&object_path)).await;
             let md5_sum = trace_try!(ret);
             (md5_sum, duration)
         };
@@ -530,7 +540,7 @@ impl S3Storage for FileSystem {
         &self,
         input: HeadObjectRequest,
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
-        let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let path = self.get_object_path(&input.bucket, &input.key)?;
 
         if !path.exists() {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
@@ -752,7 +762,7 @@ impl S3Storage for FileSystem {
 
         if key.ends_with('/') {
             if content_length == Some(0) {
-                let object_path = trace_try!(self.get_object_path(&bucket, &key));
+                let object_path = self.get_object_path(&bucket, &key)?;
                 trace_try!(async_fs::create_dir_all(&object_path).await);
                 let output = PutObjectOutput::default();
                 return Ok(output);
@@ -764,7 +774,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         }
 
-        let object_path = trace_try!(self.get_object_path(&bucket, &key));
+        let object_path = self.get_object_path(&bucket, &key)?;
         if let Some(dir_path) = object_path.parent() {
             trace_try!(async_fs::create_dir_all(&dir_path).await);
         }
@@ -891,7 +901,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         };
 
-        let object_path = trace_try!(self.get_object_path(&bucket, &key));
+        let object_path = self.get_object_path(&bucket, &key)?;
         let file = trace_try!(File::create(&object_path).await);
         let mut writer = BufWriter::new(file);
 
@@ -929,7 +939,7 @@ impl S3Storage for FileSystem {
         let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
 
         let (md5_sum, duration) = {
-            let (ret, duration) = time::count_duration(self.get_md5_sum(&bucket, &key)).await;
+            let (ret, duration) = time::count_duration(self.get_md5_sum(&object_path)).await;
             let md5_sum = trace_try!(ret);
             (md5_sum, duration)
         };
-- 
2.43.0


From e76ee97b94b9b68baed473ef9b9a8f33fbf93615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 16/59] fix: deleting a missing object succeeds, and deletes no
 other object

DeleteObject answered InternalError for a missing key or a directory;
DeleteObjects left missing keys out of its result, failed on directories
and deleted the object 'a' for the key 'a/'.
---
 src/storages/fs.rs | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index fe24a79..13d7abd 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -145,6 +145,30 @@ impl FileSystem {
         async_fs::write(&path, &content).await
     }
 
+    /// remove an object, if it exists
+    async fn remove_object(&self, path: &Path, key: &str) -> io::Result<()> {
+        let ret = if key.ends_with('/') {
+            if !path.is_dir() {
+                return Ok(());
+            }
+            let mut dir = async_fs::read_dir(path).await?;
+            let is_empty = dir.next().await.is_none();
+            if !is_empty {
+                return Ok(());
+            }
+            async_fs::remove_dir(path).await
+        } else {
+            if !path.is_file() {
+                return Ok(());
+            }
+            async_fs::remove_file(path).await
+        };
+        match ret {
+            Err(e) if e.kind() != io::ErrorKind::NotFound => Err(e),
+            _ => Ok(()),
+        }
+    }
+
     /// get md5 sum
     async fn get_md5_sum(&self, object_path: &Path) -> io::Result<String> {
         let mut file = File::open(object_path).await?;
@@ -365,16 +389,9 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
+        self.check_bucket_exists(&input.bucket)?;
         let path = self.get_object_path(&input.bucket, &input.key)?;
-        if input.key.ends_with('/') {
-            let mut dir = trace_try!(async_fs::read_dir(&path).await);
-            let is_empty = dir.next().await.is_none();
-            if is_empty {
-                trace_try!(async_fs::remove_dir(&path).await);
-            }
-        } else {
-            trace_try!(async_fs::remove_file(path).await);
-        }
+        trace_try!(self.remove_object(&path, &input.key).await);
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
     }
@@ -384,17 +401,17 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectsRequest,
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
+        self.check_bucket_exists(&input.bucket)?;
+
         let mut objects: Vec<(PathBuf, String)> = Vec::new();
         for object in input.delete.objects {
             let path = self.get_object_path(&input.bucket, &object.key)?;
-            if path.exists() {
-                objects.push((path, object.key));
-            }
+            objects.push((path, object.key));
         }
 
         let mut deleted: Vec<DeletedObject> = Vec::new();
         for (path, key) in objects {
-            trace_try!(async_fs::remove_file(path).await);
+            trace_try!(self.remove_object(&path, &key).await);
             deleted.push(DeletedObject {
                 key: Some(key),
                 ..DeletedObject::default()
-- 
2.43.0


From 699aee282235d8f4a90462357669dcc1c88207ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 17/59] fix: a directory is not an object

GetObject and HeadObject of a key that is only a prefix of other keys
answered 500 and 200; a key with a trailing slash read the file without it.
---
 src/storages/fs.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 13d7abd..87fe2e1 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -467,6 +467,20 @@ impl S3Storage for FileSystem {
         let file_metadata = trace_try!(file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
+        // only a key with a trailing slash is a directory, which has no content
+        if file_metadata.is_dir() != input.key.ends_with('/') {
+            let err = code_error!(NoSuchKey, "The specified key does not exist.");
+            return Err(err.into());
+        }
+        if file_metadata.is_dir() {
+            let output = GetObjectOutput {
+                content_length: Some(0),
+                last_modified: Some(last_modified),
+                ..GetObjectOutput::default()
+            };
+            return Ok(output);
+        }
+
         let content_length = {
             let file_len = file_metadata.len();
             let content_len = match range {
@@ -559,14 +573,18 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
         let path = self.get_object_path(&input.bucket, &input.key)?;
 
-        if !path.exists() {
+        if !path.exists() || path.is_dir() != input.key.ends_with('/') {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
             return Err(err.into());
         }
 
         let file_metadata = trace_try!(async_fs::metadata(path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
-        let size = file_metadata.len();
+        let size = if file_metadata.is_dir() {
+            0
+        } else {
+            file_metadata.len()
+        };
 
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
 
-- 
2.43.0


From 1eb68c41ced2e1b288cbc01a7adc39fcd53298b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 18/59] fix: listing a missing bucket is NoSuchBucket

---
 src/storages/fs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 87fe2e1..4ac3a56 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -635,6 +635,7 @@ impl S3Storage for FileSystem {
         &self,
         input: ListObjectsRequest,
     ) -> S3StorageResult<ListObjectsOutput, ListObjectsError> {
+        self.check_bucket_exists(&input.bucket)?;
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
         let mut objects = Vec::new();
@@ -701,6 +702,7 @@ impl S3Storage for FileSystem {
         &self,
         input: ListObjectsV2Request,
     ) -> S3StorageResult<ListObjectsV2Output, ListObjectsV2Error> {
+        self.check_bucket_exists(&input.bucket)?;
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
         let mut objects = Vec::new();
-- 
2.43.0


From a0040c214c045165c48db52c3c89cfee648cb666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 19/59] fix: clamp byte ranges to the object

A range that ends behind the object announced more bytes than it sent, a
suffix longer than the object was an error, and an empty suffix a success.
---
 src/storages/fs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 4ac3a56..3473345 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -499,11 +499,14 @@ impl S3Storage for FileSystem {
 
                     last.and_then(|x| x.checked_add(1))
                         .unwrap_or(file_len)
+                        .min(file_len)
                         .wrapping_sub(first)
                 }
                 Some(Range::Suffix { last }) => {
+                    // the suffix of a shorter object is the whole object
+                    let last = last.min(file_len);
                     let offset = Some(last)
-                        .filter(|&x| x <= file_len)
+                        .filter(|&x| x != 0)
                         .and_then(|x| i64::try_from(x).ok())
                         .and_then(i64::checked_neg);
 
-- 
2.43.0


From 8959f7dcaac5fb478af49e4565ebf4776c6cf3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 20/59] fix: mark a partial response as partial content

A range request was answered 200 without Content-Range, so a client took
the part for the whole object.
---
 src/ops/get_object.rs |  5 ++++-
 src/storages/fs.rs    | 12 ++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ops/get_object.rs b/src/ops/get_object.rs
index 88d347f..ae74abe 100644
--- a/src/ops/get_object.rs
+++ b/src/ops/get_object.rs
@@ -18,7 +18,7 @@ use crate::headers::{
 use crate::output::S3Output;
 use crate::storage::S3Storage;
 use crate::utils::{time, ResponseExt};
-use crate::{async_trait, Body, Method, Response};
+use crate::{async_trait, Body, Method, Response, StatusCode};
 
 /// `GetObject` handler
 pub struct Handler;
@@ -104,6 +104,9 @@ impl S3Output for GetObjectOutput {
             res.set_optional_header(CONTENT_DISPOSITION, self.content_disposition)?;
             res.set_optional_header(CONTENT_ENCODING, self.content_encoding)?;
             res.set_optional_header(CONTENT_LANGUAGE, self.content_language)?;
+            if self.content_range.is_some() {
+                res.set_status(StatusCode::PARTIAL_CONTENT);
+            }
             res.set_optional_header(CONTENT_RANGE, self.content_range)?;
             res.set_optional_header(CONTENT_TYPE, self.content_type)?;
 
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 3473345..f8c78e5 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -523,6 +523,17 @@ impl S3Storage for FileSystem {
             trace_try!(usize::try_from(content_len))
         };
 
+        let content_range = range.map(|range| {
+            let file_len = file_metadata.len();
+            let len = content_length as u64;
+            let first = match range {
+                Range::Normal { first, .. } => first,
+                Range::Suffix { .. } => file_len.wrapping_sub(len),
+            };
+            let last = first.wrapping_add(len).wrapping_sub(1); // NOTE: len > 0
+            format!("bytes {}-{}/{}", first, last, file_len)
+        });
+
         let stream = BytesStream::new(file, 4096, Some(content_length));
 
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
@@ -545,6 +556,7 @@ impl S3Storage for FileSystem {
         let output: GetObjectOutput = GetObjectOutput {
             body: Some(crate::dto::ByteStream::new(stream)),
             content_length: Some(trace_try!(content_length.try_into())),
+            content_range,
             last_modified: Some(last_modified),
             metadata: object_metadata,
             e_tag: Some(format!("\"{}\"", md5_sum)),
-- 
2.43.0


From d1283cfcf9ba1478e5b9c68569ae1d727966b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 21/59] fix: the loser of a CreateBucket race gets
 BucketAlreadyExists

---
 src/storages/fs.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index f8c78e5..3c195ce 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -271,7 +271,18 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<CreateBucketOutput, CreateBucketError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
-        if path.exists() {
+        let already_exists = if path.exists() {
+            true
+        } else {
+            match async_fs::create_dir(&path).await {
+                Err(e) if e.kind() == io::ErrorKind::AlreadyExists => true,
+                ret => {
+                    trace_try!(ret);
+                    false
+                }
+            }
+        };
+        if already_exists {
             let err = CreateBucketError::BucketAlreadyExists(String::from(
                 "The requested bucket name is not available. \
                     The bucket namespace is shared by all users of the system. \
@@ -280,8 +291,6 @@ impl S3Storage for FileSystem {
             return Err(operation_error(err));
         }
 
-        trace_try!(async_fs::create_dir(&path).await);
-
         let output = CreateBucketOutput::default(); // TODO: handle other fields
         Ok(output)
     }
-- 
2.43.0


From 846a0d295594f0565089cf59bba2ab7d0bdd2379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 22/59] fix: an object must not have the metadata of a previous
 object

PutObject, CopyObject and the deletions left the metadata file of the
replaced object in place. A failed write also left a truncated file behind,
which made the object unreadable; store the metadata first and atomically.
---
 src/storages/fs.rs | 47 +++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 3c195ce..807f62c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -132,21 +132,32 @@ impl FileSystem {
         }
     }
 
-    /// save metadata
+    /// save metadata, or remove the metadata of a previous object
     async fn save_metadata(
         &self,
         bucket: &str,
         key: &str,
-        metadata: &HashMap<String, String>,
+        metadata: Option<&HashMap<String, String>>,
     ) -> io::Result<()> {
         let path = self.get_metadata_path(bucket, key)?;
+        let metadata = match metadata {
+            Some(metadata) => metadata,
+            None => {
+                return match async_fs::remove_file(&path).await {
+                    Err(e) if e.kind() != io::ErrorKind::NotFound => Err(e),
+                    _ => Ok(()),
+                }
+            }
+        };
         let content = serde_json::to_vec(metadata)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
-        async_fs::write(&path, &content).await
+        let temp_file = self.new_temp_file();
+        async_fs::write(temp_file.path(), &content).await?;
+        temp_file.persist(&path).await
     }
 
     /// remove an object, if it exists
-    async fn remove_object(&self, path: &Path, key: &str) -> io::Result<()> {
+    async fn remove_object(&self, path: &Path, bucket: &str, key: &str) -> io::Result<()> {
         let ret = if key.ends_with('/') {
             if !path.is_dir() {
                 return Ok(());
@@ -165,7 +176,7 @@ impl FileSystem {
         };
         match ret {
             Err(e) if e.kind() != io::ErrorKind::NotFound => Err(e),
-            _ => Ok(()),
+            _ => self.save_metadata(bucket, key, None).await,
         }
     }
 
@@ -332,6 +343,11 @@ impl S3Storage for FileSystem {
 
         let temp_file = self.new_temp_file();
         let _ = trace_try!(async_fs::copy(&src_path, temp_file.path()).await);
+        let metadata = trace_try!(self.load_metadata(bucket, key).await);
+        trace_try!(
+            self.save_metadata(&input.bucket, &input.key, metadata.as_ref())
+                .await
+        );
         trace_try!(temp_file.persist(&dst_path).await);
 
         debug!(
@@ -340,12 +356,6 @@ impl S3Storage for FileSystem {
             "CopyObject: copy file",
         );
 
-        let src_metadata_path = trace_try!(self.get_metadata_path(bucket, key));
-        if src_metadata_path.exists() {
-            let dst_metadata_path = trace_try!(self.get_metadata_path(&input.bucket, &input.key));
-            let _ = trace_try!(async_fs::copy(src_metadata_path, dst_metadata_path).await);
-        }
-
         let md5_sum = trace_try!(self.get_md5_sum(&src_path).await);
 
         let output = CopyObjectOutput {
@@ -400,7 +410,10 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
         self.check_bucket_exists(&input.bucket)?;
         let path = self.get_object_path(&input.bucket, &input.key)?;
-        trace_try!(self.remove_object(&path, &input.key).await);
+        trace_try!(
+            self.remove_object(&path, &input.bucket, &input.key)
+                .await
+        );
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
     }
@@ -420,7 +433,7 @@ impl S3Storage for FileSystem {
 
         let mut deleted: Vec<DeletedObject> = Vec::new();
         for (path, key) in objects {
-            trace_try!(self.remove_object(&path, &key).await);
+            trace_try!(self.remove_object(&path, &input.bucket, &key).await);
             deleted.push(DeletedObject {
                 key: Some(key),
                 ..DeletedObject::default()
@@ -860,12 +873,12 @@ impl S3Storage for FileSystem {
             "PutObject: write file",
         );
 
+        trace_try!(
+            self.save_metadata(&bucket, &key, metadata.as_ref())
+                .await
+        );
         trace_try!(temp_file.persist(&object_path).await);
 
-        if let Some(ref metadata) = metadata {
-            trace_try!(self.save_metadata(&bucket, &key, metadata).await);
-        }
-
         let output = PutObjectOutput {
             e_tag: Some(format!("\"{}\"", md5_sum)),
             ..PutObjectOutput::default()
-- 
2.43.0


From 2e96888bdddef8b6a6e5147d598c841cca882b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 23/59] fix: store the metadata of objects with long keys

The name of the metadata file contains the encoded key and exceeded the
limit of the file system for keys of about 150 bytes.
---
 src/storages/fs.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 807f62c..49fe620 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -39,6 +39,9 @@ use uuid::Uuid;
 
 use async_fs::File;
 
+/// The usual limit of file systems
+const MAX_FILE_NAME_LEN: usize = 255;
+
 /// A S3 storage implementation based on file system
 #[derive(Debug)]
 pub struct FileSystem {
@@ -99,11 +102,18 @@ impl FileSystem {
     fn get_metadata_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
         let encode = |s: &str| base64_simd::URL_SAFE_NO_PAD.encode_to_string(s);
 
-        let file_path_str = format!(
+        let mut file_path_str = format!(
             ".bucket-{}.object-{}.metadata.json",
             encode(bucket),
             encode(key),
         );
+        if file_path_str.len() > MAX_FILE_NAME_LEN {
+            file_path_str = format!(
+                ".bucket-{}.object_sha256-{}.metadata.json",
+                encode(bucket),
+                crypto::hex_sha256(key.as_bytes()),
+            );
+        }
         let file_path = Path::new(&file_path_str);
         let ans = file_path.absolutize_virtually(&self.root)?.into();
         Ok(ans)
-- 
2.43.0


From 5c83a9f5d6efc7d38fd73beafedc9007f5ca6b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 24/59] fix: the ETag of a GET or a copy is that of the bytes
 it read

The file could be replaced between the computation of the checksum and
the opening of the content.
---
 src/storages/fs.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 49fe620..684e2a5 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -190,9 +190,8 @@ impl FileSystem {
         }
     }
 
-    /// get md5 sum
-    async fn get_md5_sum(&self, object_path: &Path) -> io::Result<String> {
-        let mut file = File::open(object_path).await?;
+    /// get md5 sum of the remaining content
+    async fn get_md5_sum(&self, file: &mut File) -> io::Result<String> {
         let mut buf = vec![0; 4_usize.wrapping_mul(1024).wrapping_mul(1024)];
         let mut md5_hash = Md5::new();
         loop {
@@ -353,6 +352,8 @@ impl S3Storage for FileSystem {
 
         let temp_file = self.new_temp_file();
         let _ = trace_try!(async_fs::copy(&src_path, temp_file.path()).await);
+        let mut copied_file = trace_try!(File::open(temp_file.path()).await);
+        let md5_sum = trace_try!(self.get_md5_sum(&mut copied_file).await);
         let metadata = trace_try!(self.load_metadata(bucket, key).await);
         trace_try!(
             self.save_metadata(&input.bucket, &input.key, metadata.as_ref())
@@ -366,8 +367,6 @@ impl S3Storage for FileSystem {
             "CopyObject: copy file",
         );
 
-        let md5_sum = trace_try!(self.get_md5_sum(&src_path).await);
-
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
                 e_tag: Some(format!("\"{}\"", md5_sum)),
@@ -513,6 +512,13 @@ impl S3Storage for FileSystem {
             return Ok(output);
         }
 
+        let (md5_sum, duration) = {
+            let (ret, duration) = time::count_duration(self.get_md5_sum(&mut file)).await;
+            let md5_sum = trace_try!(ret);
+            (md5_sum, duration)
+        };
+        let _ = trace_try!(file.seek(SeekFrom::Start(0)).await);
+
         let content_length = {
             let file_len = file_metadata.len();
             let content_len = match range {
@@ -570,13 +576,6 @@ impl S3Storage for FileSystem {
 
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
 
-        let (md5_sum, duration) = {
-            let (ret, duration) =
-                time::count_duration(self.get_md5_sum(&object_path)).await;
-            let md5_sum = trace_try!(ret);
-            (md5_sum, duration)
-        };
-
         debug!(
             sum = ?md5_sum,
             path = %object_path.display(),
@@ -1023,7 +1022,8 @@ impl S3Storage for FileSystem {
         let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
 
         let (md5_sum, duration) = {
-            let (ret, duration) = time::count_duration(self.get_md5_sum(&object_path)).await;
+            let mut file = trace_try!(File::open(&object_path).await);
+            let (ret, duration) = time::count_duration(self.get_md5_sum(&mut file)).await;
             let md5_sum = trace_try!(ret);
             (md5_sum, duration)
         };
-- 
2.43.0


From 4269c21ab6518937cc8f9ff5009d290afb55997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 25/59] fix: bind multipart uploads to their object and
 complete them atomically

The upload id was not checked at all: any id (even a path) was accepted
for any object. A failing CompleteMultipartUpload truncated the existing
object and lost the parts, and the ETags of the parts were ignored.
---
 src/storages/fs.rs | 132 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 113 insertions(+), 19 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 684e2a5..f2752b2 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -87,6 +87,38 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// resolve the path of a part under the virtual root
+    fn get_part_path(&self, upload_id: &str, part_number: i64) -> io::Result<PathBuf> {
+        let part_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
+        let ans = Path::new(&part_path_str).absolutize_virtually(&self.root)?;
+        Ok(ans.into())
+    }
+
+    /// resolve the path of the record of a multipart upload under the virtual root
+    fn get_upload_path(&self, upload_id: &str) -> PathBuf {
+        self.root.join(format!(".upload_id-{}.json", upload_id))
+    }
+
+    /// check that the multipart upload is in progress
+    fn check_upload(&self, bucket: &str, key: &str, upload_id: &str) -> S3Result<()> {
+        let is_valid = Uuid::parse_str(upload_id).map_or(false, |id| id.to_string() == upload_id);
+        let upload = if is_valid {
+            match std::fs::read(self.get_upload_path(upload_id)) {
+                Err(e) if e.kind() == io::ErrorKind::NotFound => None,
+                ret => Some(trace_try!(ret)),
+            }
+        } else {
+            None
+        };
+        if upload == Some(trace_try!(serde_json::to_vec(&(bucket, key)))) {
+            return Ok(());
+        }
+        Err(code_error!(
+            NoSuchUpload,
+            "The specified multipart upload does not exist."
+        ))
+    }
+
     /// check that the bucket exists
     fn check_bucket_exists(&self, bucket: &str) -> S3Result<()> {
         if trace_try!(self.get_bucket_path(bucket)).exists() {
@@ -190,6 +222,20 @@ impl FileSystem {
         }
     }
 
+    /// remove the record and all parts of a multipart upload
+    async fn remove_upload(&self, upload_id: &str) -> io::Result<()> {
+        async_fs::remove_file(self.get_upload_path(upload_id)).await?;
+        let prefix = format!(".upload_id-{}.part-", upload_id);
+        let mut entries = async_fs::read_dir(&self.root).await?;
+        while let Some(entry) = entries.next().await {
+            let entry = entry?;
+            if entry.file_name().to_string_lossy().starts_with(&prefix) {
+                async_fs::remove_file(entry.path()).await?;
+            }
+        }
+        Ok(())
+    }
+
     /// get md5 sum of the remaining content
     async fn get_md5_sum(&self, file: &mut File) -> io::Result<String> {
         let mut buf = vec![0; 4_usize.wrapping_mul(1024).wrapping_mul(1024)];
@@ -903,6 +949,14 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError> {
         let upload_id = Uuid::new_v4().to_string();
 
+        self.check_bucket_exists(&input.bucket)?;
+        let _ = self.get_object_path(&input.bucket, &input.key)?;
+
+        let upload = trace_try!(serde_json::to_vec(&(&input.bucket, &input.key)));
+        let temp_file = self.new_temp_file();
+        trace_try!(async_fs::write(temp_file.path(), &upload).await);
+        trace_try!(temp_file.persist(&self.get_upload_path(&upload_id)).await);
+
         let output = CreateMultipartUploadOutput {
             bucket: Some(input.bucket),
             key: Some(input.key),
@@ -922,6 +976,8 @@ impl S3Storage for FileSystem {
             body,
             upload_id,
             part_number,
+            bucket,
+            key,
             ..
         } = input;
 
@@ -929,8 +985,8 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody, "You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
-        let file_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
-        let file_path = trace_try!(Path::new(&file_path_str).absolutize_virtually(&self.root));
+        self.check_upload(&bucket, &key, &upload_id)?;
+        let file_path = trace_try!(self.get_part_path(&upload_id, part_number));
 
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
@@ -952,6 +1008,7 @@ impl S3Storage for FileSystem {
             "UploadPart: write file",
         );
 
+        self.check_upload(&bucket, &key, &upload_id)?;
         trace_try!(temp_file.persist(&file_path).await);
 
         let e_tag = format!("\"{}\"", md5_sum);
@@ -985,25 +1042,52 @@ impl S3Storage for FileSystem {
         };
 
         let object_path = self.get_object_path(&bucket, &key)?;
-        let file = trace_try!(File::create(&object_path).await);
+        self.check_bucket_exists(&bucket)?;
+        self.check_upload(&bucket, &key, &upload_id)?;
+
+        let parts = multipart_upload.parts.unwrap_or_default();
+        if parts.is_empty() {
+            let err = code_error!(MalformedXML, "You must specify at least one part.");
+            return Err(err.into());
+        }
+
+        let temp_file = self.new_temp_file();
+        let file = trace_try!(File::create(temp_file.path()).await);
         let mut writer = BufWriter::new(file);
 
-        let mut cnt: i64 = 0;
-        for part in multipart_upload.parts.into_iter().flatten() {
-            let part_number = trace_try!(part
+        let mut last_part_number: Option<i64> = None;
+        for part in parts {
+            let part_number = part
                 .part_number
-                .ok_or_else(|| { io::Error::new(io::ErrorKind::NotFound, "Missing part_number") }));
-            cnt = cnt.wrapping_add(1);
-            if part_number != cnt {
-                trace_try!(Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "InvalidPartOrder"
-                )));
+                .ok_or_else(|| code_error!(MalformedXML, "Missing part_number"))?;
+            if last_part_number >= Some(part_number) {
+                let err = code_error!(
+                    InvalidPartOrder,
+                    "The list of parts was not in ascending order."
+                );
+                return Err(err.into());
             }
-            let part_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
-            let part_path = trace_try!(Path::new(&part_path_str).absolutize_virtually(&self.root));
+            last_part_number = Some(part_number);
 
-            let mut reader = trace_try!(File::open(&part_path).await);
+            let invalid_part = || {
+                code_error!(
+                    InvalidPart,
+                    "One or more of the specified parts could not be found."
+                )
+            };
+            let part_path = trace_try!(self.get_part_path(&upload_id, part_number));
+
+            let mut reader = match File::open(&part_path).await {
+                Err(e) if e.kind() == io::ErrorKind::NotFound => return Err(invalid_part().into()),
+                ret => trace_try!(ret),
+            };
+            if let Some(ref e_tag) = part.e_tag {
+                let md5_sum = trace_try!(self.get_md5_sum(&mut reader).await);
+                if e_tag.trim_matches('"') != md5_sum {
+                    return Err(invalid_part().into());
+                }
+                let _ = trace_try!(reader.seek(SeekFrom::Start(0)).await);
+            }
             let (ret, duration) =
                 time::count_duration(futures::io::copy(&mut reader, &mut writer)).await;
             let size = trace_try!(ret);
@@ -1015,14 +1099,14 @@ impl S3Storage for FileSystem {
                 ?duration,
                 "CompleteMultipartUpload: write file",
             );
-            trace_try!(async_fs::remove_file(&part_path).await);
         }
+        trace_try!(writer.flush().await);
         drop(writer);
 
-        let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
+        let file_size = trace_try!(async_fs::metadata(temp_file.path()).await).len();
 
         let (md5_sum, duration) = {
-            let mut file = trace_try!(File::open(&object_path).await);
+            let mut file = trace_try!(File::open(temp_file.path()).await);
             let (ret, duration) = time::count_duration(self.get_md5_sum(&mut file)).await;
             let md5_sum = trace_try!(ret);
             (md5_sum, duration)
@@ -1036,6 +1120,16 @@ impl S3Storage for FileSystem {
             "CompleteMultipartUpload: calculate md5 sum",
         );
 
+        self.check_upload(&bucket, &key, &upload_id)?;
+        if let Some(dir_path) = object_path.parent() {
+            trace_try!(async_fs::create_dir_all(&dir_path).await);
+        }
+        trace_try!(self.save_metadata(&bucket, &key, None).await);
+        trace_try!(temp_file.persist(&object_path).await);
+
+        // the upload is completed even if a file of it is left
+        let _ignored = self.remove_upload(&upload_id).await;
+
         let e_tag = format!("\"{}\"", md5_sum);
         let output = CompleteMultipartUploadOutput {
             bucket: Some(bucket),
-- 
2.43.0


From 3a0caddedef39efd539b159792a6db25c12cc39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 26/59] fix: copies and multipart uploads must not treat a
 directory key as a file

Their path is the path of the key without the trailing slash.
---
 src/storages/fs.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index f2752b2..e9761d8 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -380,6 +380,10 @@ impl S3Storage for FileSystem {
         let key = &*urlencoding::decode(key)
             .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
 
+        if key.ends_with('/') || input.key.ends_with('/') {
+            return Err(not_supported!("Copying a directory is not supported yet.").into());
+        }
+
         let src_path = self.get_object_path(bucket, key)?;
         let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
@@ -951,6 +955,13 @@ impl S3Storage for FileSystem {
 
         self.check_bucket_exists(&input.bucket)?;
         let _ = self.get_object_path(&input.bucket, &input.key)?;
+        if input.key.ends_with('/') {
+            let err = code_error!(
+                UnexpectedContent,
+                "Unexpected request body when creating a directory object."
+            );
+            return Err(err.into());
+        }
 
         let upload = trace_try!(serde_json::to_vec(&(&input.bucket, &input.key)));
         let temp_file = self.new_temp_file();
-- 
2.43.0


From 6b07ceeb1a6e1b771f04c2f07e69bac14235b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 27/59] fix: replace, remove and open an object and its
 metadata as a unit

Concurrent requests could see (or leave behind) the content of one
version of an object with the metadata of another, and a request that
is cancelled could do so as well. PutObject could also recreate the
directory of a bucket which was deleted during the upload.
---
 src/storages/fs.rs | 122 +++++++++++++++++++++++++++++----------------
 1 file changed, 80 insertions(+), 42 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index e9761d8..41afeca 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -30,6 +30,7 @@ use std::io::{self, SeekFrom};
 use std::path::{Path, PathBuf};
 
 use futures::io::{AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufWriter};
+use futures::lock::Mutex;
 use futures::stream::{Stream, StreamExt, TryStreamExt};
 use hyper::body::Bytes;
 use md5::{Digest, Md5};
@@ -47,6 +48,8 @@ const MAX_FILE_NAME_LEN: usize = 255;
 pub struct FileSystem {
     /// root path
     root: PathBuf,
+    /// held while the files of an object are replaced, removed or opened
+    lock: Mutex<()>,
 }
 
 impl FileSystem {
@@ -55,7 +58,10 @@ impl FileSystem {
     /// Returns an `Err` if current working directory is invalid or `root` doesn't exist
     pub fn new(root: impl AsRef<Path>) -> io::Result<Self> {
         let root = env::current_dir()?.join(root).canonicalize()?;
-        Ok(Self { root })
+        Ok(Self {
+            root,
+            lock: Mutex::new(()),
+        })
     }
 
     /// resolve object path under the virtual root
@@ -175,7 +181,7 @@ impl FileSystem {
     }
 
     /// save metadata, or remove the metadata of a previous object
-    async fn save_metadata(
+    fn save_metadata(
         &self,
         bucket: &str,
         key: &str,
@@ -185,7 +191,7 @@ impl FileSystem {
         let metadata = match metadata {
             Some(metadata) => metadata,
             None => {
-                return match async_fs::remove_file(&path).await {
+                return match std::fs::remove_file(&path) {
                     Err(e) if e.kind() != io::ErrorKind::NotFound => Err(e),
                     _ => Ok(()),
                 }
@@ -194,12 +200,33 @@ impl FileSystem {
         let content = serde_json::to_vec(metadata)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
         let temp_file = self.new_temp_file();
-        async_fs::write(temp_file.path(), &content).await?;
-        temp_file.persist(&path).await
+        std::fs::write(temp_file.path(), &content)?;
+        temp_file.persist(&path)
+    }
+
+    /// replace an object
+    ///
+    /// This must not be interrupted, even if the request is cancelled
+    fn save_object(
+        &self,
+        temp_file: TempFile,
+        path: &Path,
+        bucket: &str,
+        key: &str,
+        metadata: Option<&HashMap<String, String>>,
+    ) -> S3Result<()> {
+        self.check_bucket_exists(bucket)?;
+        if let Some(dir_path) = path.parent() {
+            trace_try!(std::fs::create_dir_all(&dir_path));
+        }
+        trace_try!(self.save_metadata(bucket, key, metadata));
+        trace_try!(temp_file.persist(path));
+        Ok(())
     }
 
     /// remove an object, if it exists
     async fn remove_object(&self, path: &Path, bucket: &str, key: &str) -> io::Result<()> {
+        let _guard = self.lock.lock().await;
         let ret = if key.ends_with('/') {
             if !path.is_dir() {
                 return Ok(());
@@ -218,7 +245,7 @@ impl FileSystem {
         };
         match ret {
             Err(e) if e.kind() != io::ErrorKind::NotFound => Err(e),
-            _ => self.save_metadata(bucket, key, None).await,
+            _ => self.save_metadata(bucket, key, None),
         }
     }
 
@@ -273,8 +300,8 @@ impl TempFile {
     }
 
     /// atomically replace `path` with this file
-    async fn persist(mut self, path: &Path) -> io::Result<()> {
-        async_fs::rename(self.path(), path).await?;
+    fn persist(mut self, path: &Path) -> io::Result<()> {
+        std::fs::rename(self.path(), path)?;
         self.path = None;
         Ok(())
     }
@@ -323,6 +350,14 @@ where
     Ok(nwrite)
 }
 
+/// copy the remaining content of a file to a new file
+async fn copy_file(reader: &mut File, path: &Path) -> io::Result<u64> {
+    let mut writer = File::create(path).await?;
+    let size = futures::io::copy(reader, &mut writer).await?;
+    writer.flush().await?;
+    Ok(size)
+}
+
 /// wrap operation error
 const fn operation_error<E>(e: E) -> S3StorageError<E> {
     S3StorageError::Operation(e)
@@ -387,29 +422,35 @@ impl S3Storage for FileSystem {
         let src_path = self.get_object_path(bucket, key)?;
         let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
-        if !src_path.is_file() {
-            let err = code_error!(NoSuchKey, "The specified key does not exist.");
-            return Err(err.into());
-        }
         self.check_bucket_exists(&input.bucket)?;
 
-        let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
-        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
+        let (mut src_file, metadata) = {
+            let _guard = self.lock.lock().await;
+            if !src_path.is_file() {
+                let err = code_error!(NoSuchKey, "The specified key does not exist.");
+                return Err(err.into());
+            }
+            let src_file = trace_try!(File::open(&src_path).await);
+            let metadata = trace_try!(self.load_metadata(bucket, key).await);
+            (src_file, metadata)
+        };
 
-        if let Some(dir_path) = dst_path.parent() {
-            trace_try!(async_fs::create_dir_all(&dir_path).await);
-        }
+        let file_metadata = trace_try!(src_file.metadata().await);
+        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
         let temp_file = self.new_temp_file();
-        let _ = trace_try!(async_fs::copy(&src_path, temp_file.path()).await);
+        let _ = trace_try!(copy_file(&mut src_file, temp_file.path()).await);
         let mut copied_file = trace_try!(File::open(temp_file.path()).await);
         let md5_sum = trace_try!(self.get_md5_sum(&mut copied_file).await);
-        let metadata = trace_try!(self.load_metadata(bucket, key).await);
-        trace_try!(
-            self.save_metadata(&input.bucket, &input.key, metadata.as_ref())
-                .await
-        );
-        trace_try!(temp_file.persist(&dst_path).await);
+
+        let _guard = self.lock.lock().await;
+        self.save_object(
+            temp_file,
+            &dst_path,
+            &input.bucket,
+            &input.key,
+            metadata.as_ref(),
+        )?;
 
         debug!(
             from = %src_path.display(),
@@ -434,6 +475,7 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteBucketRequest,
     ) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
+        let _guard = self.lock.lock().await;
         self.check_bucket_exists(&input.bucket)?;
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
@@ -536,6 +578,7 @@ impl S3Storage for FileSystem {
         };
         let range: Option<Range> = input.range.as_deref().map(parse_range).transpose()?;
 
+        let guard = self.lock.lock().await;
         let mut file = match File::open(&object_path).await {
             Ok(file) => file,
             Err(e) => {
@@ -544,6 +587,8 @@ impl S3Storage for FileSystem {
                 return Err(err.into());
             }
         };
+        let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
+        drop(guard);
 
         let file_metadata = trace_try!(file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
@@ -624,8 +669,6 @@ impl S3Storage for FileSystem {
 
         let stream = BytesStream::new(file, 4096, Some(content_length));
 
-        let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
-
         debug!(
             sum = ?md5_sum,
             path = %object_path.display(),
@@ -669,6 +712,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
         let path = self.get_object_path(&input.bucket, &input.key)?;
 
+        let _guard = self.lock.lock().await;
         if !path.exists() || path.is_dir() != input.key.ends_with('/') {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
             return Err(err.into());
@@ -896,7 +940,9 @@ impl S3Storage for FileSystem {
         if key.ends_with('/') {
             if content_length == Some(0) {
                 let object_path = self.get_object_path(&bucket, &key)?;
-                trace_try!(async_fs::create_dir_all(&object_path).await);
+                let _guard = self.lock.lock().await;
+                self.check_bucket_exists(&bucket)?;
+                trace_try!(std::fs::create_dir_all(&object_path));
                 let output = PutObjectOutput::default();
                 return Ok(output);
             }
@@ -908,9 +954,6 @@ impl S3Storage for FileSystem {
         }
 
         let object_path = self.get_object_path(&bucket, &key)?;
-        if let Some(dir_path) = object_path.parent() {
-            trace_try!(async_fs::create_dir_all(&dir_path).await);
-        }
 
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
@@ -932,11 +975,8 @@ impl S3Storage for FileSystem {
             "PutObject: write file",
         );
 
-        trace_try!(
-            self.save_metadata(&bucket, &key, metadata.as_ref())
-                .await
-        );
-        trace_try!(temp_file.persist(&object_path).await);
+        let _guard = self.lock.lock().await;
+        self.save_object(temp_file, &object_path, &bucket, &key, metadata.as_ref())?;
 
         let output = PutObjectOutput {
             e_tag: Some(format!("\"{}\"", md5_sum)),
@@ -966,7 +1006,7 @@ impl S3Storage for FileSystem {
         let upload = trace_try!(serde_json::to_vec(&(&input.bucket, &input.key)));
         let temp_file = self.new_temp_file();
         trace_try!(async_fs::write(temp_file.path(), &upload).await);
-        trace_try!(temp_file.persist(&self.get_upload_path(&upload_id)).await);
+        trace_try!(temp_file.persist(&self.get_upload_path(&upload_id)));
 
         let output = CreateMultipartUploadOutput {
             bucket: Some(input.bucket),
@@ -1019,8 +1059,9 @@ impl S3Storage for FileSystem {
             "UploadPart: write file",
         );
 
+        let _guard = self.lock.lock().await;
         self.check_upload(&bucket, &key, &upload_id)?;
-        trace_try!(temp_file.persist(&file_path).await);
+        trace_try!(temp_file.persist(&file_path));
 
         let e_tag = format!("\"{}\"", md5_sum);
 
@@ -1131,12 +1172,9 @@ impl S3Storage for FileSystem {
             "CompleteMultipartUpload: calculate md5 sum",
         );
 
+        let _guard = self.lock.lock().await;
         self.check_upload(&bucket, &key, &upload_id)?;
-        if let Some(dir_path) = object_path.parent() {
-            trace_try!(async_fs::create_dir_all(&dir_path).await);
-        }
-        trace_try!(self.save_metadata(&bucket, &key, None).await);
-        trace_try!(temp_file.persist(&object_path).await);
+        self.save_object(temp_file, &object_path, &bucket, &key, None)?;
 
         // the upload is completed even if a file of it is left
         let _ignored = self.remove_upload(&upload_id).await;
-- 
2.43.0


From dcafffe437f0f45233cf0235e77b06ac8b85da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 28/59] fix: a listing skips what is deleted meanwhile

---
 src/storages/fs.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 41afeca..e63e550 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -753,7 +753,10 @@ impl S3Storage for FileSystem {
                 let file_name = entry.file_name();
                 let name = file_name.to_string_lossy();
                 if S3Path::check_bucket_name(&*name) {
-                    let file_meta = trace_try!(entry.metadata().await);
+                    let file_meta = match entry.metadata().await {
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                        ret => trace_try!(ret),
+                    };
                     let creation_date = trace_try!(file_meta.created());
                     buckets.push(Bucket {
                         creation_date: Some(time::to_rfc3339(creation_date)),
@@ -783,7 +786,10 @@ impl S3Storage for FileSystem {
         dir_queue.push_back(path.clone());
 
         while let Some(dir) = dir_queue.pop_front() {
-            let mut entries = trace_try!(async_fs::read_dir(dir).await);
+            let mut entries = match async_fs::read_dir(dir).await {
+                Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                ret => trace_try!(ret),
+            };
             while let Some(entry) = entries.next().await {
                 let entry = trace_try!(entry);
                 let file_type = trace_try!(entry.file_type().await);
@@ -798,7 +804,10 @@ impl S3Storage for FileSystem {
                         }
                     }
 
-                    let metadata = trace_try!(entry.metadata().await);
+                    let metadata = match entry.metadata().await {
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                        ret => trace_try!(ret),
+                    };
                     let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
                     let size = metadata.len();
 
@@ -850,7 +859,10 @@ impl S3Storage for FileSystem {
         dir_queue.push_back(path.clone());
 
         while let Some(dir) = dir_queue.pop_front() {
-            let mut entries = trace_try!(async_fs::read_dir(dir).await);
+            let mut entries = match async_fs::read_dir(dir).await {
+                Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                ret => trace_try!(ret),
+            };
             while let Some(entry) = entries.next().await {
                 let entry = trace_try!(entry);
                 let file_type = trace_try!(entry.file_type().await);
@@ -865,7 +877,10 @@ impl S3Storage for FileSystem {
                         }
                     }
 
-                    let metadata = trace_try!(entry.metadata().await);
+                    let metadata = match entry.metadata().await {
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                        ret => trace_try!(ret),
+                    };
                     let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
                     let size = metadata.len();
 
-- 
2.43.0


From fa9304cb700d180448aac909deff66ca23566956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 29/59] fix: reject content that does not match its Content-MD5

---
 src/storages/fs.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index e63e550..abf0c79 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -350,6 +350,25 @@ where
     Ok(nwrite)
 }
 
+/// check the digest of the content
+fn check_content_md5(content_md5: Option<&str>, digest: &[u8]) -> S3Result<()> {
+    let content_md5 = match content_md5 {
+        Some(content_md5) => content_md5,
+        None => return Ok(()),
+    };
+    match base64_simd::STANDARD.decode_to_vec(content_md5) {
+        Ok(expected) if expected == digest => Ok(()),
+        Ok(expected) if expected.len() == digest.len() => Err(code_error!(
+            BadDigest,
+            "The Content-MD5 you specified did not match what we received."
+        )),
+        _ => Err(code_error!(
+            InvalidDigest,
+            "The Content-MD5 you specified is not valid."
+        )),
+    }
+}
+
 /// copy the remaining content of a file to a new file
 async fn copy_file(reader: &mut File, path: &Path) -> io::Result<u64> {
     let mut writer = File::create(path).await?;
@@ -943,6 +962,7 @@ impl S3Storage for FileSystem {
             key,
             metadata,
             content_length,
+            content_md5,
             ..
         } = input;
 
@@ -980,7 +1000,9 @@ impl S3Storage for FileSystem {
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
         let size = trace_try!(ret);
         drop(writer);
-        let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
+        let md5_digest = md5_hash.finalize();
+        check_content_md5(content_md5.as_deref(), md5_digest.as_ref())?;
+        let md5_sum = md5_digest.apply(crypto::to_hex_string);
 
         debug!(
             path = %object_path.display(),
@@ -1044,6 +1066,7 @@ impl S3Storage for FileSystem {
             part_number,
             bucket,
             key,
+            content_md5,
             ..
         } = input;
 
@@ -1064,7 +1087,9 @@ impl S3Storage for FileSystem {
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
         let size = trace_try!(ret);
         drop(writer);
-        let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
+        let md5_digest = md5_hash.finalize();
+        check_content_md5(content_md5.as_deref(), md5_digest.as_ref())?;
+        let md5_sum = md5_digest.apply(crypto::to_hex_string);
 
         debug!(
             path = %file_path.display(),
-- 
2.43.0


From a9b05a1b6f08dc054eb73627f794969dd7058754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 30/59] fix: check the algorithm and the scope of the
 credential

The date, the service and the algorithm in the Authorization header or
the presigned url were parsed and then ignored.
---
 src/service.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index 332705a..eb8082b 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -356,6 +356,24 @@ async fn fetch_secret_key(auth: &(dyn S3Auth + Send + Sync), access_key: &str) -
     }
 }
 
+/// The algorithm and the scope of the credential must be the ones of the signature
+fn check_credential(
+    algorithm: &str,
+    credential: &CredentialV4<'_>,
+    amz_date: &AmzDate,
+) -> S3Result<()> {
+    let is_valid = algorithm == "AWS4-HMAC-SHA256"
+        && credential.date == amz_date.to_date()
+        && credential.aws_service == "s3";
+    if is_valid {
+        return Ok(());
+    }
+    Err(code_error!(
+        AuthorizationHeaderMalformed,
+        "The authorization you provided is invalid."
+    ))
+}
+
 /// Every `x-amz-*` header must be covered by the signature.
 ///
 /// `x-amz-content-sha256` selects the payload line of the canonical request instead.
@@ -443,6 +461,8 @@ async fn check_post_signature(
         let amz_date = AmzDate::from_header_str(x_amz_date)
             .map_err(|err| invalid_request!("Invalid field: x-amz-date", err))?;
 
+        check_credential(x_amz_algorithm, &credential, &amz_date)?;
+
         // fetch secret_key
         let secret_key = fetch_secret_key(auth_provider, credential.access_key_id).await?;
 
@@ -480,6 +500,12 @@ async fn check_presigned_url(
     let presigned_url = signature_v4::PresignedUrl::from_query(qs)
         .map_err(|err| invalid_request!("Missing presigned fields", err))?;
 
+    check_credential(
+        presigned_url.algorithm,
+        &presigned_url.credential,
+        &presigned_url.amz_date,
+    )?;
+
     if presigned_url.is_expired() {
         return Err(code_error!(AccessDenied, "Request has expired"));
     }
@@ -560,6 +586,12 @@ async fn check_header_auth(
     let amz_date = extract_amz_date(&ctx.headers)?
         .ok_or_else(|| invalid_request!("Missing header: x-amz-date"))?;
 
+    check_credential(
+        authorization.algorithm,
+        &authorization.credential,
+        &amz_date,
+    )?;
+
     let is_stream = matches!(amz_content_sha256, AmzContentSha256::MultipleChunks);
 
     let signature = {
-- 
2.43.0


From 9186f1b3630a782df1564048bacd86355b02591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 31/59] fix: CompleteMultipartUpload never parsed its list of
 parts

---
 src/ops/complete_multipart_upload.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ops/complete_multipart_upload.rs b/src/ops/complete_multipart_upload.rs
index 7008694..d12b4d4 100644
--- a/src/ops/complete_multipart_upload.rs
+++ b/src/ops/complete_multipart_upload.rs
@@ -113,8 +113,8 @@ mod xml {
     /// `CompletedMultipartUpload`
     pub struct CompletedMultipartUpload {
         /// Part
-        #[serde(rename = "Part")]
-        parts: Option<Vec<CompletedPart>>,
+        #[serde(rename = "Part", default)]
+        parts: Vec<CompletedPart>,
     }
 
     /// `CompletedPart`
@@ -131,7 +131,7 @@ mod xml {
     impl From<CompletedMultipartUpload> for super::CompletedMultipartUpload {
         fn from(m: CompletedMultipartUpload) -> Self {
             Self {
-                parts: m.parts.map(|v| v.into_iter().map(From::from).collect()),
+                parts: Some(m.parts.into_iter().map(From::from).collect()),
             }
         }
     }
-- 
2.43.0


From f3e9aef8d4a5874b0a432b4f9b048608920b733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 32/59] fix: keep white space, comments and CDATA of xml bodies
 apart from the text

---
 src/utils/body.rs | 50 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/utils/body.rs b/src/utils/body.rs
index e75e451..15eb171 100644
--- a/src/utils/body.rs
+++ b/src/utils/body.rs
@@ -5,18 +5,64 @@ use crate::streams::multipart::{FileStream, FileStreamError};
 use crate::utils::Apply;
 use crate::{Body, BoxStdError};
 
-use std::io;
+use std::{io, str};
 
 use futures::stream::StreamExt;
+use quick_xml::events::Event;
+use quick_xml::Reader;
 use serde::de::DeserializeOwned;
 
 /// deserialize xml body
 pub async fn deserialize_xml_body<T: DeserializeOwned>(body: Body) -> Result<T, BoxStdError> {
     let bytes = hyper::body::to_bytes(body).await?;
-    let ans: T = quick_xml::de::from_reader(&*bytes)?;
+    let xml = normalize_xml(bytes.as_ref())?;
+    let ans: T = quick_xml::de::from_str(&xml)?;
     Ok(ans)
 }
 
+/// rewrite an xml document so that the deserializer, which trims the text of an element
+/// and ends it at a comment or a CDATA section, sees the whole text of each leaf element
+fn normalize_xml(xml: &[u8]) -> Result<String, BoxStdError> {
+    let mut reader = Reader::from_reader(xml);
+    let _ = reader.expand_empty_elements(true);
+
+    let mut ans = String::with_capacity(xml.len());
+    let mut text = String::new();
+    let mut is_leaf = false;
+    let mut depth: usize = 0;
+    loop {
+        match reader.read_event()? {
+            Event::Start(e) => {
+                let name = e.local_name();
+                ans.push_str(&format!("<{}>", str::from_utf8(name.as_ref())?));
+                text.clear();
+                is_leaf = true;
+                depth = depth.wrapping_add(1);
+            }
+            Event::Text(e) => text.push_str(&e.unescape()?),
+            Event::CData(e) => text.push_str(str::from_utf8(&e)?),
+            Event::End(e) => {
+                if is_leaf {
+                    for c in text.chars() {
+                        if c.is_whitespace() || matches!(c, '&' | '<' | '>') {
+                            ans.push_str(&format!("&#{};", u32::from(c)));
+                        } else {
+                            ans.push(c);
+                        }
+                    }
+                }
+                let name = e.local_name();
+                ans.push_str(&format!("</{}>", str::from_utf8(name.as_ref())?));
+                is_leaf = false;
+                depth = depth.wrapping_sub(1); // NOTE: the reader checks that each end has a start
+            }
+            Event::Eof if depth == 0 => return Ok(ans),
+            Event::Eof => return Err("unexpected end of xml".into()),
+            _ => {}
+        }
+    }
+}
+
 /// transform `Body` into `ByteStream`
 pub fn transform_body_stream(body: Body) -> ByteStream {
     body.map(|try_chunk| {
-- 
2.43.0


From fc430e681575b731587459bc870a45d3afbfa383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 33/59] fix: encode the keys of a listing when
 encoding-type=url is requested

---
 src/storages/fs.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index abf0c79..ecfbda5 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -377,6 +377,15 @@ async fn copy_file(reader: &mut File, path: &Path) -> io::Result<u64> {
     Ok(size)
 }
 
+/// encode the keys of a listing as the client requested
+fn encode_keys(objects: &mut [Object], encoding_type: Option<&str>) {
+    if encoding_type == Some("url") {
+        for key in objects.iter_mut().filter_map(|object| object.key.as_mut()) {
+            *key = urlencoding::encode(key).replace("%2F", "/");
+        }
+    }
+}
+
 /// wrap operation error
 const fn operation_error<E>(e: E) -> S3StorageError<E> {
     S3StorageError::Operation(e)
@@ -847,6 +856,7 @@ impl S3Storage for FileSystem {
             let rhs_key = rhs.key.as_deref().unwrap_or("");
             lhs_key.cmp(rhs_key)
         });
+        encode_keys(&mut objects, input.encoding_type.as_deref());
 
         // TODO: handle other fields
         let output = ListObjectsOutput {
@@ -920,6 +930,7 @@ impl S3Storage for FileSystem {
             let rhs_key = rhs.key.as_deref().unwrap_or("");
             lhs_key.cmp(rhs_key)
         });
+        encode_keys(&mut objects, input.encoding_type.as_deref());
 
         // TODO: handle other fields
         let output = ListObjectsV2Output {
-- 
2.43.0


From 2685b20a3a45b73f2b09fcd988893e72d61ad61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 34/59] fix: repeat CommonPrefixes for each prefix

---
 src/ops/list_objects.rs    | 10 ++++++----
 src/ops/list_objects_v2.rs | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ops/list_objects.rs b/src/ops/list_objects.rs
index 6e9cbc8..271c4aa 100644
--- a/src/ops/list_objects.rs
+++ b/src/ops/list_objects.rs
@@ -88,11 +88,13 @@ impl S3Output for ListObjectsOutput {
                     w.opt_element("Prefix", self.prefix)?;
                     w.opt_element("Delimiter", self.delimiter)?;
                     w.opt_element("MaxKeys", self.max_keys.map(|k| k.to_string()))?;
-                    w.opt_stack("CommonPrefixes", self.common_prefixes, |w, prefixes| {
+                    if let Some(prefixes) = self.common_prefixes {
                         w.iter_element(prefixes.into_iter(), |w, common_prefix| {
-                            w.opt_element("Prefix", common_prefix.prefix)
-                        })
-                    })?;
+                            w.stack("CommonPrefixes", |w| {
+                                w.opt_element("Prefix", common_prefix.prefix)
+                            })
+                        })?;
+                    }
                     w.opt_element("EncodingType", self.encoding_type)?;
                     Ok(())
                 })
diff --git a/src/ops/list_objects_v2.rs b/src/ops/list_objects_v2.rs
index c7609dc..7715280 100644
--- a/src/ops/list_objects_v2.rs
+++ b/src/ops/list_objects_v2.rs
@@ -94,11 +94,13 @@ impl S3Output for ListObjectsV2Output {
                     w.opt_element("Prefix", self.prefix)?;
                     w.opt_element("Delimiter", self.delimiter)?;
                     w.opt_element("MaxKeys", self.max_keys.map(|k| k.to_string()))?;
-                    w.opt_stack("CommonPrefixes", self.common_prefixes, |w, prefixes| {
+                    if let Some(prefixes) = self.common_prefixes {
                         w.iter_element(prefixes.into_iter(), |w, common_prefix| {
-                            w.opt_element("Prefix", common_prefix.prefix)
-                        })
-                    })?;
+                            w.stack("CommonPrefixes", |w| {
+                                w.opt_element("Prefix", common_prefix.prefix)
+                            })
+                        })?;
+                    }
                     w.opt_element("EncodingType", self.encoding_type)?;
                     w.opt_element("KeyCount", self.key_count.map(|k| k.to_string()))?;
                     w.opt_element("ContinuationToken", self.continuation_token)?;
-- 
2.43.0


From 7b3e2e17e3e6b82fc6bfa9581cdf958964bf2614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 35/59] fix: the result of CreateMultipartUpload is an
 InitiateMultipartUploadResult

---
 src/ops/create_multipart_upload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index 9ff5fb7..a87123e 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -82,7 +82,7 @@ impl S3Output for CreateMultipartUploadOutput {
             let upload_id = self.upload_id;
 
             res.set_xml_body(256, |w| {
-                w.stack("InitialMultipartUploadResult", |w| {
+                w.stack("InitiateMultipartUploadResult", |w| {
                     w.opt_element("Bucket", bucket)?;
                     w.opt_element("Key", key)?;
                     w.opt_element("UploadId", upload_id)?;
-- 
2.43.0


From 197f40e73c648829cef35cf081e3bc6d43a32ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 36/59] fix: escape carriage returns in xml responses

---
 src/utils/response.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils/response.rs b/src/utils/response.rs
index 3a25c9a..2962094 100644
--- a/src/utils/response.rs
+++ b/src/utils/response.rs
@@ -83,6 +83,14 @@ impl ResponseExt for Response {
             f(&mut w)?;
         }
 
+        // clients read a carriage return which is not escaped as a line feed
+        if body.contains(&b'\r') {
+            body = body
+                .split(|&b| b == b'\r')
+                .collect::<Vec<_>>()
+                .join(b"&#xD;".as_ref());
+        }
+
         *self.body_mut() = Body::from(body);
         self.set_mime(&mime::TEXT_XML)?;
         Ok(())
-- 
2.43.0


From ee7443abb0bb8a769e8bead0947662359f62eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 37/59] fix: the limit of a key applies to the decoded copy
 source

---
 src/headers/amz_copy_source.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/headers/amz_copy_source.rs b/src/headers/amz_copy_source.rs
index 185394b..69e39c7 100644
--- a/src/headers/amz_copy_source.rs
+++ b/src/headers/amz_copy_source.rs
@@ -81,7 +81,8 @@ impl<'a> AmzCopySource<'a> {
                     return Err(ParseAmzCopySourceError::InvalidBucketName);
                 }
 
-                if !S3Path::check_key(key) {
+                // the key is url-encoded
+                if !urlencoding::decode(key).map_or(false, |key| S3Path::check_key(&key)) {
                     return Err(ParseAmzCopySourceError::InvalidKey);
                 }
 
-- 
2.43.0


From 031b9d89328e17c15ecb9b858bdf6b3ac0452ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:31 +0000
Subject: [PATCH 38/59] fix: pass every parameter and every result of an
 operation on

GetObject and HeadObject ignored versionId and partNumber, CreateMultipartUpload and
CopyObject ignored the metadata, and x-amz-expected-bucket-owner was mostly ignored.
---
 src/data_structures/ordered_headers.rs | 15 +++++++++
 src/headers.rs                         |  9 ++++++
 src/ops/complete_multipart_upload.rs   | 13 ++++++--
 src/ops/copy_object.rs                 | 37 ++++++++++++++++++----
 src/ops/create_multipart_upload.rs     | 29 ++++++++++++++---
 src/ops/delete_object.rs               |  8 +++--
 src/ops/delete_objects.rs              |  7 ++++-
 src/ops/get_object.rs                  | 43 ++++++++++++++++++++++----
 src/ops/head_object.rs                 | 31 ++++++++++++++-----
 src/ops/list_objects.rs                | 10 ++++--
 src/ops/list_objects_v2.rs             | 10 ++++--
 src/ops/put_object.rs                  | 29 ++++++++++++++---
 src/ops/upload_part.rs                 | 17 ++++++++--
 13 files changed, 216 insertions(+), 42 deletions(-)

diff --git a/src/data_structures/ordered_headers.rs b/src/data_structures/ordered_headers.rs
index e445296..bc4672b 100644
--- a/src/data_structures/ordered_headers.rs
+++ b/src/data_structures/ordered_headers.rs
@@ -2,6 +2,7 @@
 
 use crate::Request;
 
+use std::collections::HashMap;
 use std::str::FromStr;
 
 use hyper::header::{AsHeaderName, ToStrError};
@@ -78,6 +79,20 @@ impl<'a> OrderedHeaders<'a> {
         Ok(())
     }
 
+    /// Gets the user metadata, if there is any
+    pub fn metadata(&self) -> Option<HashMap<String, String>> {
+        let metadata: HashMap<String, String> = self
+            .headers
+            .iter()
+            .filter_map(|&(name, value)| {
+                let meta_key = name.strip_prefix("x-amz-meta-")?;
+                Some((meta_key.to_owned(), value.to_owned()))
+            })
+            .filter(|&(ref meta_key, _)| !meta_key.is_empty())
+            .collect();
+        Some(metadata).filter(|m| !m.is_empty())
+    }
+
     /// Assigns string from optional header
     pub fn assign_str(&self, name: impl AsHeaderName, opt: &mut Option<String>) {
         if let Some(s) = self.get(name) {
diff --git a/src/headers.rs b/src/headers.rs
index 69b8cce..bac11d8 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -180,4 +180,13 @@ declare_header_name! {
 
     /// x-amz-expected-bucket-owner
     X_AMZ_EXPECTED_BUCKET_OWNER: "x-amz-expected-bucket-owner";
+
+    /// x-amz-source-expected-bucket-owner
+    X_AMZ_SOURCE_EXPECTED_BUCKET_OWNER: "x-amz-source-expected-bucket-owner";
+
+    /// x-amz-server-side-encryption-bucket-key-enabled
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED: "x-amz-server-side-encryption-bucket-key-enabled";
+
+    /// x-amz-archive-status
+    X_AMZ_ARCHIVE_STATUS: "x-amz-archive-status";
 }
diff --git a/src/ops/complete_multipart_upload.rs b/src/ops/complete_multipart_upload.rs
index d12b4d4..bb92164 100644
--- a/src/ops/complete_multipart_upload.rs
+++ b/src/ops/complete_multipart_upload.rs
@@ -8,8 +8,9 @@ use crate::dto::{
 };
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    X_AMZ_EXPIRATION, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_VERSION_ID,
+    X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_EXPIRATION, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED, X_AMZ_VERSION_ID,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -62,6 +63,10 @@ async fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CompleteMultipartUploadRe
 
     let h = &ctx.headers;
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
 
     Ok(input)
 }
@@ -83,6 +88,10 @@ impl S3Output for CompleteMultipartUploadOutput {
                 X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
                 self.ssekms_key_id,
             )?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
 
             let location = self.location;
diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index 01d36c4..dfebe7c 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -12,14 +12,15 @@ use crate::headers::{
     X_AMZ_COPY_SOURCE_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
     X_AMZ_COPY_SOURCE_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
     X_AMZ_COPY_SOURCE_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_COPY_SOURCE_VERSION_ID,
-    X_AMZ_EXPIRATION, X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ, X_AMZ_GRANT_READ_ACP,
-    X_AMZ_GRANT_WRITE_ACP, X_AMZ_METADATA_DIRECTIVE, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
-    X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REQUEST_CHARGED,
-    X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_EXPIRATION, X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ,
+    X_AMZ_GRANT_READ_ACP, X_AMZ_GRANT_WRITE_ACP, X_AMZ_METADATA_DIRECTIVE,
+    X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
-    X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING, X_AMZ_TAGGING_DIRECTIVE, X_AMZ_VERSION_ID,
-    X_AMZ_WEBSITE_REDIRECT_LOCATION,
+    X_AMZ_SOURCE_EXPECTED_BUCKET_OWNER, X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING,
+    X_AMZ_TAGGING_DIRECTIVE, X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -131,7 +132,27 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CopyObjectRequest> {
         X_AMZ_COPY_SOURCE_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
         &mut input.copy_source_sse_customer_key_md5,
     );
+    h.assign(
+        X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+        &mut input.bucket_key_enabled,
+    )
+    .map_err(|err| {
+        invalid_request!(
+            "Invalid header: x-amz-server-side-encryption-bucket-key-enabled",
+            err
+        )
+    })?;
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+    h.assign_str(
+        X_AMZ_SOURCE_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_source_bucket_owner,
+    );
+
+    input.metadata = h.metadata();
     h.assign_str(X_AMZ_TAGGING, &mut input.tagging);
     h.assign_str(X_AMZ_OBJECT_LOCK_MODE, &mut input.object_lock_mode);
     h.assign_str(
@@ -166,6 +187,10 @@ impl S3Output for CopyObjectOutput {
                 X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
                 self.ssekms_key_id,
             )?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(
                 X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
                 self.ssekms_encryption_context,
diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index a87123e..7bf3954 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -8,10 +8,11 @@ use crate::dto::{
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
     CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE, CONTENT_TYPE, EXPIRES,
-    X_AMZ_ABORT_DATE, X_AMZ_ABORT_RULE_ID, X_AMZ_ACL, X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ,
-    X_AMZ_GRANT_READ_ACP, X_AMZ_GRANT_WRITE_ACP, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
-    X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REQUEST_CHARGED,
-    X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_ABORT_DATE, X_AMZ_ABORT_RULE_ID, X_AMZ_ACL, X_AMZ_EXPECTED_BUCKET_OWNER,
+    X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ, X_AMZ_GRANT_READ_ACP, X_AMZ_GRANT_WRITE_ACP,
+    X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
     X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING, X_AMZ_WEBSITE_REDIRECT_LOCATION,
@@ -70,6 +71,10 @@ impl S3Output for CreateMultipartUploadOutput {
                 X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
                 self.ssekms_key_id,
             )?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(
                 X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
                 self.ssekms_encryption_context,
@@ -146,7 +151,23 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CreateMultipartUploadRequest> {
         X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
         &mut input.ssekms_encryption_context,
     );
+    h.assign(
+        X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+        &mut input.bucket_key_enabled,
+    )
+    .map_err(|err| {
+        invalid_request!(
+            "Invalid header: x-amz-server-side-encryption-bucket-key-enabled",
+            err
+        )
+    })?;
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+
+    input.metadata = h.metadata();
     h.assign_str(X_AMZ_TAGGING, &mut input.tagging);
     h.assign_str(X_AMZ_OBJECT_LOCK_MODE, &mut input.object_lock_mode);
     h.assign_str(
diff --git a/src/ops/delete_object.rs b/src/ops/delete_object.rs
index dee4e8d..2ab78f0 100644
--- a/src/ops/delete_object.rs
+++ b/src/ops/delete_object.rs
@@ -5,8 +5,8 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 use crate::dto::{DeleteObjectError, DeleteObjectOutput, DeleteObjectRequest};
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    X_AMZ_BYPASS_GOVERNANCE_RETENTION, X_AMZ_DELETE_MARKER, X_AMZ_MFA, X_AMZ_REQUEST_CHARGED,
-    X_AMZ_REQUEST_PAYER, X_AMZ_VERSION_ID,
+    X_AMZ_BYPASS_GOVERNANCE_RETENTION, X_AMZ_DELETE_MARKER, X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_MFA,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_VERSION_ID,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -54,6 +54,10 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<DeleteObjectRequest> {
 
     h.assign_str(X_AMZ_MFA, &mut input.mfa);
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
 
     if let Some(ref qs) = ctx.query_strings {
         input.version_id = qs.get("versionId").map(ToOwned::to_owned);
diff --git a/src/ops/delete_objects.rs b/src/ops/delete_objects.rs
index 1e7411c..f205b4d 100644
--- a/src/ops/delete_objects.rs
+++ b/src/ops/delete_objects.rs
@@ -7,7 +7,8 @@ use crate::dto::{
 };
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    X_AMZ_BYPASS_GOVERNANCE_RETENTION, X_AMZ_MFA, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
+    X_AMZ_BYPASS_GOVERNANCE_RETENTION, X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_MFA,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -54,6 +55,10 @@ pub async fn extract(ctx: &mut ReqContext<'_>) -> S3Result<DeleteObjectsRequest>
     let h = &ctx.headers;
     h.assign_str(X_AMZ_MFA, &mut input.mfa);
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
     h.assign(
         X_AMZ_BYPASS_GOVERNANCE_RETENTION,
         &mut input.bypass_governance_retention,
diff --git a/src/ops/get_object.rs b/src/ops/get_object.rs
index ae74abe..38c4348 100644
--- a/src/ops/get_object.rs
+++ b/src/ops/get_object.rs
@@ -8,12 +8,14 @@ use crate::headers::{
     ACCEPT_RANGES, CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE,
     CONTENT_LENGTH, CONTENT_RANGE, CONTENT_TYPE, ETAG, EXPIRES, IF_MATCH, IF_MODIFIED_SINCE,
     IF_NONE_MATCH, IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_DELETE_MARKER,
-    X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
-    X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REPLICATION_STATUS,
-    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
-    X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING_COUNT, X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
+    X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT,
+    X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
+    X_AMZ_REPLICATION_STATUS, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING_COUNT,
+    X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -70,6 +72,31 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<GetObjectRequest> {
         &mut input.sse_customer_key_md5,
     );
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+
+    if let Some(ref qs) = ctx.query_strings {
+        qs.assign("partNumber", &mut input.part_number)
+            .map_err(|err| invalid_request!("Invalid query: partNumber", err))?;
+        qs.assign_str("response-cache-control", &mut input.response_cache_control);
+        qs.assign_str(
+            "response-content-disposition",
+            &mut input.response_content_disposition,
+        );
+        qs.assign_str(
+            "response-content-encoding",
+            &mut input.response_content_encoding,
+        );
+        qs.assign_str(
+            "response-content-language",
+            &mut input.response_content_language,
+        );
+        qs.assign_str("response-content-type", &mut input.response_content_type);
+        qs.assign_str("response-expires", &mut input.response_expires);
+        qs.assign_str("versionId", &mut input.version_id);
+    }
 
     Ok(input)
 }
@@ -130,6 +157,10 @@ impl S3Output for GetObjectOutput {
                 X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
                 self.ssekms_key_id,
             )?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
 
             res.set_optional_header(X_AMZ_STORAGE_CLASS, self.storage_class)?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
diff --git a/src/ops/head_object.rs b/src/ops/head_object.rs
index 5731c96..f02d9a6 100644
--- a/src/ops/head_object.rs
+++ b/src/ops/head_object.rs
@@ -7,13 +7,15 @@ use crate::errors::{S3Error, S3ErrorCode, S3Result};
 use crate::headers::{
     ACCEPT_RANGES, CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE,
     CONTENT_LENGTH, CONTENT_TYPE, ETAG, EXPIRES, IF_MATCH, IF_MODIFIED_SINCE, IF_NONE_MATCH,
-    IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_DELETE_MARKER, X_AMZ_EXPIRATION,
-    X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT, X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE,
-    X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REPLICATION_STATUS, X_AMZ_REQUEST_CHARGED,
-    X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
-    X_AMZ_STORAGE_CLASS, X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
+    IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_ARCHIVE_STATUS, X_AMZ_DELETE_MARKER,
+    X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT,
+    X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
+    X_AMZ_REPLICATION_STATUS, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_VERSION_ID,
+    X_AMZ_WEBSITE_REDIRECT_LOCATION,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -70,6 +72,16 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<HeadObjectRequest> {
         &mut input.sse_customer_key_md5,
     );
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+
+    if let Some(ref qs) = ctx.query_strings {
+        qs.assign("partNumber", &mut input.part_number)
+            .map_err(|err| invalid_request!("Invalid query: partNumber", err))?;
+        qs.assign_str("versionId", &mut input.version_id);
+    }
 
     Ok(input)
 }
@@ -86,6 +98,7 @@ impl S3Output for HeadObjectOutput {
 
             res.set_optional_header(X_AMZ_EXPIRATION, self.expiration)?;
             res.set_optional_header(X_AMZ_RESTORE, self.restore)?;
+            res.set_optional_header(X_AMZ_ARCHIVE_STATUS, self.archive_status)?;
 
             res.set_optional_header(
                 LAST_MODIFIED,
@@ -126,6 +139,10 @@ impl S3Output for HeadObjectOutput {
                 X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
                 self.ssekms_key_id,
             )?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
 
             res.set_optional_header(X_AMZ_STORAGE_CLASS, self.storage_class)?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
diff --git a/src/ops/list_objects.rs b/src/ops/list_objects.rs
index 271c4aa..c0f3553 100644
--- a/src/ops/list_objects.rs
+++ b/src/ops/list_objects.rs
@@ -4,7 +4,7 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 
 use crate::dto::{ListObjectsError, ListObjectsOutput, ListObjectsRequest};
 use crate::errors::{S3Error, S3ErrorCode, S3Result};
-use crate::headers::X_AMZ_REQUEST_PAYER;
+use crate::headers::{X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_REQUEST_PAYER};
 use crate::output::S3Output;
 use crate::storage::S3Storage;
 use crate::utils::{ResponseExt, XmlWriterExt};
@@ -53,8 +53,12 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<ListObjectsRequest> {
         q.assign_str("prefix", &mut input.prefix);
     }
 
-    ctx.headers
-        .assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    let h = &ctx.headers;
+    h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
 
     Ok(input)
 }
diff --git a/src/ops/list_objects_v2.rs b/src/ops/list_objects_v2.rs
index 7715280..01c6897 100644
--- a/src/ops/list_objects_v2.rs
+++ b/src/ops/list_objects_v2.rs
@@ -4,7 +4,7 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 
 use crate::dto::{ListObjectsV2Error, ListObjectsV2Output, ListObjectsV2Request};
 use crate::errors::{S3Error, S3ErrorCode, S3Result};
-use crate::headers::X_AMZ_REQUEST_PAYER;
+use crate::headers::{X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_REQUEST_PAYER};
 use crate::output::S3Output;
 use crate::storage::S3Storage;
 use crate::utils::{ResponseExt, XmlWriterExt};
@@ -61,8 +61,12 @@ fn extract(
         q.assign_str("start-after", &mut input.start_after);
     }
 
-    ctx.headers
-        .assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    let h = &ctx.headers;
+    h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
 
     Ok(input)
 }
diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 32b7ef5..3677c87 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -6,11 +6,12 @@ use crate::dto::{PutObjectError, PutObjectOutput, PutObjectRequest};
 use crate::errors::{S3Error, S3ErrorCode, S3Result};
 use crate::headers::{
     CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE, CONTENT_LENGTH,
-    CONTENT_MD5, CONTENT_TYPE, ETAG, EXPIRES, X_AMZ_ACL, X_AMZ_EXPIRATION,
-    X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ, X_AMZ_GRANT_READ_ACP, X_AMZ_GRANT_WRITE_ACP,
-    X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
-    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
+    CONTENT_MD5, CONTENT_TYPE, ETAG, EXPIRES, X_AMZ_ACL, X_AMZ_EXPECTED_BUCKET_OWNER,
+    X_AMZ_EXPIRATION, X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ, X_AMZ_GRANT_READ_ACP,
+    X_AMZ_GRANT_WRITE_ACP, X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE,
+    X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED, X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING,
     X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
@@ -167,7 +168,21 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<PutObjectRequest> {
         X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
         &mut input.ssekms_encryption_context,
     );
+    h.assign(
+        X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+        &mut input.bucket_key_enabled,
+    )
+    .map_err(|err| {
+        invalid_request!(
+            "Invalid header: x-amz-server-side-encryption-bucket-key-enabled",
+            err
+        )
+    })?;
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
     h.assign_str(X_AMZ_TAGGING, &mut input.tagging);
     h.assign_str(X_AMZ_OBJECT_LOCK_MODE, &mut input.object_lock_mode);
     h.assign_str(
@@ -220,6 +235,10 @@ impl S3Output for PutObjectOutput {
                 X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
                 self.ssekms_key_id,
             )?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(
                 X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
                 self.ssekms_encryption_context,
diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index 7951a5f..03233be 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -5,9 +5,11 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 use crate::dto::{UploadPartError, UploadPartOutput, UploadPartRequest};
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    CONTENT_LENGTH, CONTENT_MD5, ETAG, X_AMZ_REQUEST_CHARGED, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
+    CONTENT_LENGTH, CONTENT_MD5, ETAG, X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_REQUEST_CHARGED,
+    X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -84,6 +86,11 @@ fn extract(
         X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
         &mut input.sse_customer_key_md5,
     );
+    h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
 
     Ok(input)
 }
@@ -106,6 +113,10 @@ impl S3Output for UploadPartOutput {
                 X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
                 self.ssekms_key_id,
             )?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
 
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
 
-- 
2.43.0


From 7ddcff7f1c573388315500e13418e3f70e8180d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 39/59] fix: CopyObject replaces the metadata when the client
 requests it

---
 src/storages/fs.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index ecfbda5..fdf5469 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -443,6 +443,12 @@ impl S3Storage for FileSystem {
         let key = &*urlencoding::decode(key)
             .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
 
+        let replaces_metadata = match input.metadata_directive.as_deref() {
+            None | Some("COPY") => false,
+            Some("REPLACE") => true,
+            Some(_) => return Err(code_error!(InvalidArgument, "Unknown metadata directive.").into()),
+        };
+
         if key.ends_with('/') || input.key.ends_with('/') {
             return Err(not_supported!("Copying a directory is not supported yet.").into());
         }
@@ -459,7 +465,11 @@ impl S3Storage for FileSystem {
                 return Err(err.into());
             }
             let src_file = trace_try!(File::open(&src_path).await);
-            let metadata = trace_try!(self.load_metadata(bucket, key).await);
+            let metadata = if replaces_metadata {
+                input.metadata
+            } else {
+                trace_try!(self.load_metadata(bucket, key).await)
+            };
             (src_file, metadata)
         };
 
-- 
2.43.0


From 02a3f86f2a1cb4ed3f87a8ba2c6bd869491b5bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 40/59] fix: a completed multipart upload has the metadata of
 its upload

---
 src/storages/fs.rs | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index fdf5469..a639835 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -105,8 +105,13 @@ impl FileSystem {
         self.root.join(format!(".upload_id-{}.json", upload_id))
     }
 
-    /// check that the multipart upload is in progress
-    fn check_upload(&self, bucket: &str, key: &str, upload_id: &str) -> S3Result<()> {
+    /// check that the multipart upload is in progress and get the metadata of its object
+    fn check_upload(
+        &self,
+        bucket: &str,
+        key: &str,
+        upload_id: &str,
+    ) -> S3Result<Option<HashMap<String, String>>> {
         let is_valid = Uuid::parse_str(upload_id).map_or(false, |id| id.to_string() == upload_id);
         let upload = if is_valid {
             match std::fs::read(self.get_upload_path(upload_id)) {
@@ -116,13 +121,17 @@ impl FileSystem {
         } else {
             None
         };
-        if upload == Some(trace_try!(serde_json::to_vec(&(bucket, key)))) {
-            return Ok(());
+        let upload: Option<(String, String, Option<HashMap<String, String>>)> = match upload {
+            Some(ref content) => Some(trace_try!(serde_json::from_slice(content))),
+            None => None,
+        };
+        match upload {
+            Some((ref b, ref k, metadata)) if b == bucket && k == key => Ok(metadata),
+            _ => Err(code_error!(
+                NoSuchUpload,
+                "The specified multipart upload does not exist."
+            )),
         }
-        Err(code_error!(
-            NoSuchUpload,
-            "The specified multipart upload does not exist."
-        ))
     }
 
     /// check that the bucket exists
@@ -1061,7 +1070,11 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         }
 
-        let upload = trace_try!(serde_json::to_vec(&(&input.bucket, &input.key)));
+        let upload = trace_try!(serde_json::to_vec(&(
+            &input.bucket,
+            &input.key,
+            &input.metadata
+        )));
         let temp_file = self.new_temp_file();
         trace_try!(async_fs::write(temp_file.path(), &upload).await);
         trace_try!(temp_file.persist(&self.get_upload_path(&upload_id)));
@@ -1095,7 +1108,7 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody, "You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
-        self.check_upload(&bucket, &key, &upload_id)?;
+        let _ = self.check_upload(&bucket, &key, &upload_id)?;
         let file_path = trace_try!(self.get_part_path(&upload_id, part_number));
 
         let mut md5_hash = Md5::new();
@@ -1121,7 +1134,7 @@ impl S3Storage for FileSystem {
         );
 
         let _guard = self.lock.lock().await;
-        self.check_upload(&bucket, &key, &upload_id)?;
+        let _ = self.check_upload(&bucket, &key, &upload_id)?;
         trace_try!(temp_file.persist(&file_path));
 
         let e_tag = format!("\"{}\"", md5_sum);
@@ -1156,7 +1169,7 @@ impl S3Storage for FileSystem {
 
         let object_path = self.get_object_path(&bucket, &key)?;
         self.check_bucket_exists(&bucket)?;
-        self.check_upload(&bucket, &key, &upload_id)?;
+        let _ = self.check_upload(&bucket, &key, &upload_id)?;
 
         let parts = multipart_upload.parts.unwrap_or_default();
         if parts.is_empty() {
@@ -1234,8 +1247,8 @@ impl S3Storage for FileSystem {
         );
 
         let _guard = self.lock.lock().await;
-        self.check_upload(&bucket, &key, &upload_id)?;
-        self.save_object(temp_file, &object_path, &bucket, &key, None)?;
+        let metadata = self.check_upload(&bucket, &key, &upload_id)?;
+        self.save_object(temp_file, &object_path, &bucket, &key, metadata.as_ref())?;
 
         // the upload is completed even if a file of it is left
         let _ignored = self.remove_upload(&upload_id).await;
-- 
2.43.0


From 7e5b4160389e7e43e33e6721f19b4e896c685a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 41/59] fix: a form without its closing boundary is incomplete

---
 src/streams/multipart.rs | 62 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 5 deletions(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 6e37729..593cedb 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -206,7 +206,7 @@ where
                 } else {
                     Some(Bytes::copy_from_slice(lines.slice))
                 };
-                let file_stream = FileStream::new(body, boundary, remaining_bytes);
+                let file_stream = FileStream::in_form(body, boundary, remaining_bytes);
                 let file = File {
                     name: filename.to_owned(),
                     content_type: content_type.to_owned(),
@@ -236,6 +236,32 @@ pub enum FileStreamError {
 /// `Pin<Box<dyn Future<Output = T> + Send + Sync + 'a>>`
 type SyncBoxFuture<'a, T> = Pin<Box<dyn Future<Output = T> + Send + Sync + 'a>>;
 
+/// read until the close delimiter (`\r\n--{boundary}--`), without which the form is incomplete
+async fn find_close_delimiter<S>(
+    mut body: Pin<Box<S>>,
+    crlf_pat: &'_ [u8],
+    tail: &'_ [u8],
+) -> Result<(), FileStreamError>
+where
+    S: Stream<Item = io::Result<Bytes>> + Send + Sync + 'static,
+{
+    let close_delimiter: &[u8] = &[crlf_pat, b"--"].concat();
+    let mut buf = tail.to_vec();
+    loop {
+        if memchr::memmem::find(&buf, close_delimiter).is_some() {
+            return Ok(());
+        }
+        // keep what may be the start of the close delimiter
+        let keep = close_delimiter.len().saturating_sub(1);
+        let _ = buf.drain(..buf.len().saturating_sub(keep));
+        match body.as_mut().next().await {
+            None => return Err(FileStreamError::Incomplete),
+            Some(Err(e)) => return Err(FileStreamError::Io(e)),
+            Some(Ok(b)) => buf.extend_from_slice(&b),
+        }
+    }
+}
+
 /// File stream
 pub struct FileStream {
     /// inner stream
@@ -250,8 +276,30 @@ impl Debug for FileStream {
 }
 
 impl FileStream {
-    /// Constructs a `FileStream`
+    /// Constructs a `FileStream` that ends at the first delimiter
+    #[cfg(test)]
     fn new<S>(body: Pin<Box<S>>, boundary: &'_ [u8], prev_bytes: Option<Bytes>) -> Self
+    where
+        S: Stream<Item = io::Result<Bytes>> + Send + Sync + 'static,
+    {
+        Self::build(body, boundary, prev_bytes, false)
+    }
+
+    /// Constructs the `FileStream` of a form, which must be closed after the file
+    fn in_form<S>(body: Pin<Box<S>>, boundary: &'_ [u8], prev_bytes: Option<Bytes>) -> Self
+    where
+        S: Stream<Item = io::Result<Bytes>> + Send + Sync + 'static,
+    {
+        Self::build(body, boundary, prev_bytes, true)
+    }
+
+    /// Constructs a `FileStream`
+    fn build<S>(
+        body: Pin<Box<S>>,
+        boundary: &'_ [u8],
+        prev_bytes: Option<Bytes>,
+        is_form: bool,
+    ) -> Self
     where
         S: Stream<Item = io::Result<Bytes>> + Send + Sync + 'static,
     {
@@ -261,6 +309,7 @@ impl FileStream {
             mut body: Pin<Box<S>>,
             crlf_pat: Box<[u8]>,
             prev_bytes: Option<Bytes>,
+            is_form: bool,
         ) -> Result<(), FileStreamError>
         where
             S: Stream<Item = io::Result<Bytes>> + Send + Sync + 'static,
@@ -296,9 +345,12 @@ impl FileStream {
 
                             if remaining.len() >= crlf_pat.len() {
                                 if remaining.starts_with(&crlf_pat) {
-                                    bytes.truncate(idx);
+                                    let tail = bytes.split_off(idx);
                                     y.yield_ok(bytes).await;
-                                    return Ok(());
+                                    if !is_form {
+                                        return Ok(());
+                                    }
+                                    return find_close_delimiter(body, &crlf_pat, &tail).await;
                                 }
                                 continue;
                             }
@@ -343,7 +395,7 @@ impl FileStream {
         Self {
             inner: AsyncTryStream::new(
                 |y| -> SyncBoxFuture<'static, Result<(), FileStreamError>> {
-                    Box::pin(gen(y, body, crlf_pat, prev_bytes))
+                    Box::pin(gen(y, body, crlf_pat, prev_bytes, is_form))
                 },
             ),
         }
-- 
2.43.0


From a410f73b78323b1352210ec464dc63d5d019c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 42/59] fix: an error of the file system is not the absence of
 metadata

---
 src/storages/fs.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index a639835..c5d5f62 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -179,14 +179,13 @@ impl FileSystem {
         key: &str,
     ) -> io::Result<Option<HashMap<String, String>>> {
         let path = self.get_metadata_path(bucket, key)?;
-        if path.exists() {
-            let content = async_fs::read(&path).await?;
-            let map = serde_json::from_slice(&content)
-                .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
-            Ok(Some(map))
-        } else {
-            Ok(None)
-        }
+        let content = match async_fs::read(&path).await {
+            Err(e) if e.kind() == io::ErrorKind::NotFound => return Ok(None),
+            ret => ret?,
+        };
+        let map = serde_json::from_slice(&content)
+            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+        Ok(Some(map))
     }
 
     /// save metadata, or remove the metadata of a previous object
-- 
2.43.0


From cfc4d968cdb8117bad62417d0e37ad475f50f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 43/59] fix: a failed upload leaves the metadata of the object

---
 src/storages/fs.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index c5d5f62..340d470 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -207,9 +207,14 @@ impl FileSystem {
         };
         let content = serde_json::to_vec(metadata)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+        self.write_metadata(&path, &content)
+    }
+
+    /// replace a metadata file
+    fn write_metadata(&self, path: &Path, content: &[u8]) -> io::Result<()> {
         let temp_file = self.new_temp_file();
-        std::fs::write(temp_file.path(), &content)?;
-        temp_file.persist(&path)
+        std::fs::write(temp_file.path(), content)?;
+        temp_file.persist(path)
     }
 
     /// replace an object
@@ -227,8 +232,21 @@ impl FileSystem {
         if let Some(dir_path) = path.parent() {
             trace_try!(std::fs::create_dir_all(&dir_path));
         }
+        let metadata_path = trace_try!(self.get_metadata_path(bucket, key));
+        let previous_metadata = match std::fs::read(&metadata_path) {
+            Err(e) if e.kind() == io::ErrorKind::NotFound => None,
+            ret => Some(trace_try!(ret)),
+        };
         trace_try!(self.save_metadata(bucket, key, metadata));
-        trace_try!(temp_file.persist(path));
+        let ret = temp_file.persist(path);
+        if ret.is_err() {
+            // the object is still the previous one
+            trace_try!(match previous_metadata {
+                Some(ref content) => self.write_metadata(&metadata_path, content),
+                None => self.save_metadata(bucket, key, None),
+            });
+        }
+        trace_try!(ret);
         Ok(())
     }
 
-- 
2.43.0


From 3b12a919f3e7468a31a7e22f39cb9a65d0a23cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 44/59] fix: an object that can not be examined is not deleted

---
 src/storages/fs.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 340d470..818d266 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -26,6 +26,8 @@ use crate::utils::{crypto, time, Apply};
 use std::collections::{HashMap, VecDeque};
 use std::convert::TryInto;
 use std::env;
+use std::ffi::OsStr;
+use std::fs::FileType;
 use std::io::{self, SeekFrom};
 use std::path::{Path, PathBuf};
 
@@ -253,8 +255,12 @@ impl FileSystem {
     /// remove an object, if it exists
     async fn remove_object(&self, path: &Path, bucket: &str, key: &str) -> io::Result<()> {
         let _guard = self.lock.lock().await;
+        let file_type = match get_file_type(path)? {
+            Some(file_type) => file_type,
+            None => return Ok(()),
+        };
         let ret = if key.ends_with('/') {
-            if !path.is_dir() {
+            if !file_type.is_dir() {
                 return Ok(());
             }
             let mut dir = async_fs::read_dir(path).await?;
@@ -264,7 +270,7 @@ impl FileSystem {
             }
             async_fs::remove_dir(path).await
         } else {
-            if !path.is_file() {
+            if !file_type.is_file() {
                 return Ok(());
             }
             async_fs::remove_file(path).await
@@ -341,6 +347,23 @@ impl Drop for TempFile {
     }
 }
 
+/// get the type of a file, `None` if it does not exist
+fn get_file_type(path: &Path) -> io::Result<Option<FileType>> {
+    match std::fs::metadata(path) {
+        Ok(metadata) => Ok(Some(metadata.file_type())),
+        Err(e) => {
+            let name_len = path.file_name().map_or(0, OsStr::len);
+            let can_exist = e.kind() != io::ErrorKind::NotFound
+                && name_len <= MAX_FILE_NAME_LEN
+                && path.parent().map_or(false, Path::is_dir);
+            if can_exist {
+                return Err(e);
+            }
+            Ok(None)
+        }
+    }
+}
+
 /// copy bytes from a stream to a writer
 async fn copy_bytes<S, W>(mut stream: S, writer: &mut W) -> io::Result<usize>
 where
-- 
2.43.0


From 854dc66fb60b8eb9d76ee231606f8fab6a7e5bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 45/59] fix: a listing shows one state of the storage

---
 src/storages/fs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 818d266..9889a90 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -832,6 +832,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<ListBucketsOutput, ListBucketsError> {
         let mut buckets = Vec::new();
 
+        let _guard = self.lock.lock().await;
         let mut iter = trace_try!(async_fs::read_dir(&self.root).await);
         while let Some(entry) = iter.next().await {
             let entry = trace_try!(entry);
@@ -865,6 +866,7 @@ impl S3Storage for FileSystem {
         &self,
         input: ListObjectsRequest,
     ) -> S3StorageResult<ListObjectsOutput, ListObjectsError> {
+        let _guard = self.lock.lock().await;
         self.check_bucket_exists(&input.bucket)?;
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
@@ -939,6 +941,7 @@ impl S3Storage for FileSystem {
         &self,
         input: ListObjectsV2Request,
     ) -> S3StorageResult<ListObjectsV2Output, ListObjectsV2Error> {
+        let _guard = self.lock.lock().await;
         self.check_bucket_exists(&input.bucket)?;
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
-- 
2.43.0


From b118c81de15ce8bfee4f7e7ef226f506e4252bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 46/59] fix: the parts of an upload do not change while they
 are assembled

---
 src/storages/fs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 9889a90..db50672 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -52,6 +52,8 @@ pub struct FileSystem {
     root: PathBuf,
     /// held while the files of an object are replaced, removed or opened
     lock: Mutex<()>,
+    /// held while the parts of an upload are replaced or assembled; taken before `lock`
+    upload_lock: Mutex<()>,
 }
 
 impl FileSystem {
@@ -63,6 +65,7 @@ impl FileSystem {
         Ok(Self {
             root,
             lock: Mutex::new(()),
+            upload_lock: Mutex::new(()),
         })
     }
 
@@ -1176,7 +1179,7 @@ impl S3Storage for FileSystem {
             "UploadPart: write file",
         );
 
-        let _guard = self.lock.lock().await;
+        let _upload_guard = self.upload_lock.lock().await;
         let _ = self.check_upload(&bucket, &key, &upload_id)?;
         trace_try!(temp_file.persist(&file_path));
 
@@ -1211,6 +1214,7 @@ impl S3Storage for FileSystem {
         };
 
         let object_path = self.get_object_path(&bucket, &key)?;
+        let _upload_guard = self.upload_lock.lock().await;
         self.check_bucket_exists(&bucket)?;
         let _ = self.check_upload(&bucket, &key, &upload_id)?;
 
-- 
2.43.0


From 2a6e2164221889e744d93742f75ccbb754fa8049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 47/59] fix: a signature may cover the User-Agent header

---
 src/signature_v4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index 4a555bb..a721247 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -169,7 +169,7 @@ fn uri_encode(output: &mut String, input: &str, encode_slash: bool) {
 
 /// is skipped header
 fn is_skipped_header(header: &str) -> bool {
-    ["authorization", "user-agent"].contains(&header)
+    header == "authorization"
 }
 
 /// trim a header value and replace sequential spaces with a single space
-- 
2.43.0


From dd6bd7cf0dfb7c39b33d85d7b99a153cd1fd8592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 48/59] fix: the credential of a form must not have a suffix

---
 src/service.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index eb8082b..ac4552d 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -454,8 +454,10 @@ async fn check_post_signature(
         }
 
         // check x_amz_credential
-        let (_, credential) = CredentialV4::parse_by_nom(x_amz_credential)
-            .map_err(|_err| invalid_request!("Invalid field: x-amz-credential"))?;
+        let credential = match CredentialV4::parse_by_nom(x_amz_credential) {
+            Ok(("", credential)) => credential,
+            _ => return Err(invalid_request!("Invalid field: x-amz-credential")),
+        };
 
         // check x_amz_date
         let amz_date = AmzDate::from_header_str(x_amz_date)
-- 
2.43.0


From 2e56735d27bbc5e50a43a14d90147fe0b431a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 49/59] fix: the fields of a form describe its object, not the
 headers

---
 src/ops/put_object.rs | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 3677c87..2e97e48 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -61,10 +61,41 @@ impl S3Handler for Handler {
 /// extract from multipart
 fn extract_from_multipart(input: &mut PutObjectRequest, mut multipart: Multipart) -> S3Result<()> {
     multipart.assign_str("acl", &mut input.acl);
+    multipart.assign_str("cache-control", &mut input.cache_control);
+    multipart.assign_str("content-disposition", &mut input.content_disposition);
+    multipart.assign_str("content-encoding", &mut input.content_encoding);
     multipart.assign_str("content-type", &mut input.content_type);
     multipart.assign_str("expires", &mut input.expires);
     multipart.assign_str("tagging", &mut input.tagging);
     multipart.assign_str("x-amz-storage-class", &mut input.storage_class);
+    multipart.assign_str(
+        "x-amz-website-redirect-location",
+        &mut input.website_redirect_location,
+    );
+    multipart.assign_str(
+        "x-amz-server-side-encryption",
+        &mut input.server_side_encryption,
+    );
+    multipart.assign_str(
+        "x-amz-server-side-encryption-aws-kms-key-id",
+        &mut input.ssekms_key_id,
+    );
+    multipart.assign_str(
+        "x-amz-server-side-encryption-context",
+        &mut input.ssekms_encryption_context,
+    );
+    multipart.assign_str(
+        "x-amz-server-side-encryption-customer-algorithm",
+        &mut input.sse_customer_algorithm,
+    );
+    multipart.assign_str(
+        "x-amz-server-side-encryption-customer-key",
+        &mut input.sse_customer_key,
+    );
+    multipart.assign_str(
+        "x-amz-server-side-encryption-customer-key-md5",
+        &mut input.sse_customer_key_md5,
+    );
 
     let mut metadata: HashMap<String, String> = HashMap::new();
     for &mut (ref mut name, ref mut value) in &mut multipart.fields {
@@ -122,6 +153,12 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<PutObjectRequest> {
         ..PutObjectRequest::default()
     };
 
+    if let Some(multipart) = ctx.multipart.take() {
+        // the fields of the form describe the object, and the headers describe the form
+        extract_from_multipart(&mut input, multipart)?;
+        return Ok(input);
+    }
+
     let h = &ctx.headers;
     h.assign(CONTENT_LENGTH, &mut input.content_length)
         .map_err(|err| invalid_request!("Invalid header: content-length", err))?;
@@ -208,10 +245,7 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<PutObjectRequest> {
         input.metadata = Some(metadata);
     }
 
-    match ctx.multipart.take() {
-        None => input.body = ctx.take_body().apply(transform_body_stream).apply(Some),
-        Some(multipart) => extract_from_multipart(&mut input, multipart)?,
-    };
+    input.body = ctx.take_body().apply(transform_body_stream).apply(Some);
 
     Ok(input)
 }
-- 
2.43.0


From 0e35ecc315ef26491d9135f911fd62b71a0db9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:15 +0000
Subject: [PATCH 50/59] fix: the size of a signed chunk must be hexadecimal as
 a whole

---
 src/streams/aws_chunked_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streams/aws_chunked_stream.rs b/src/streams/aws_chunked_stream.rs
index 8716ea4..fc3dadc 100644
--- a/src/streams/aws_chunked_stream.rs
+++ b/src/streams/aws_chunked_stream.rs
@@ -95,7 +95,8 @@ fn parse_chunk_meta(mut input: &[u8]) -> nom::IResult<&[u8], ChunkMeta<'_>> {
         (size_str, signature)
     });
 
-    let (_, size) = map_res(hex_u32, TryInto::try_into)(size_str)?;
+    // the size is hexadecimal as a whole
+    let (_, size) = all_consuming(map_res(hex_u32, TryInto::try_into))(size_str)?;
 
     Ok((input, ChunkMeta { size, signature }))
 }
-- 
2.43.0


From f0788a5d49cd0fab13d215b9c1b658accf06e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 51/59] fix: a form part may have no Content-Type or more
 headers

---
 src/streams/multipart.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 593cedb..0eb5672 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -152,7 +152,8 @@ where
         }
     };
 
-    let mut headers = [httparse::EMPTY_HEADER; 2];
+    // a part may have other headers, which do not matter
+    let mut headers = [httparse::EMPTY_HEADER; 16];
     loop {
         let (idx, parsed_headers) = match httparse::parse_headers(lines.slice, &mut headers) {
             Ok(httparse::Status::Complete(ans)) => ans,
@@ -197,7 +198,7 @@ where
             }
             Some(filename) => {
                 let content_type = match content_type_bytes.map(std::str::from_utf8) {
-                    None => return Err((body, pat)),
+                    None => "text/plain", // the default of RFC 7578
                     Some(Err(_)) => return Ok(Err(generate_format_error())),
                     Some(Ok(s)) => s,
                 };
-- 
2.43.0


From 12aa40252ed4961f6f67f4c1b2b9eb89ab503b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 52/59] fix: the file of a form may have no file name

---
 src/streams/multipart.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 0eb5672..7ff2794 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -179,8 +179,10 @@ where
             Some(Err(_)) => return Ok(Err(generate_format_error())),
             Some(Ok((_, c))) => c,
         };
+        // the content may be given as text, without a file name
+        let is_file = content_disposition.name.eq_ignore_ascii_case("file");
         match content_disposition.filename {
-            None => {
+            None if !is_file => {
                 let value = match lines.split_to(pat_without_crlf) {
                     None => return Err((body, pat)),
                     Some(b) => {
@@ -196,7 +198,7 @@ where
 
                 fields.push((content_disposition.name.to_owned(), value.to_owned()));
             }
-            Some(filename) => {
+            filename => {
                 let content_type = match content_type_bytes.map(std::str::from_utf8) {
                     None => "text/plain", // the default of RFC 7578
                     Some(Err(_)) => return Ok(Err(generate_format_error())),
@@ -209,7 +211,7 @@ where
                 };
                 let file_stream = FileStream::in_form(body, boundary, remaining_bytes);
                 let file = File {
-                    name: filename.to_owned(),
+                    name: filename.unwrap_or_default().to_owned(),
                     content_type: content_type.to_owned(),
                     stream: file_stream,
                 };
@@ -478,7 +480,7 @@ struct ContentDisposition<'a> {
 /// parse content disposition value
 fn parse_content_disposition(input: &[u8]) -> nom::IResult<&[u8], ContentDisposition<'_>> {
     use nom::{
-        bytes::complete::{tag, take, take_till1},
+        bytes::complete::{tag, take, take_till, take_till1},
         combinator::{all_consuming, map_res, opt},
         sequence::{delimited, preceded, tuple},
     };
@@ -491,7 +493,7 @@ fn parse_content_disposition(input: &[u8]) -> nom::IResult<&[u8], ContentDisposi
 
     let filename_parser = delimited(
         tag(b"filename=\""),
-        map_res(take_till1(|c| c == b'"'), std::str::from_utf8),
+        map_res(take_till(|c| c == b'"'), std::str::from_utf8),
         take(1_usize),
     );
 
-- 
2.43.0


From 0edb973c52040f0bed1bfa16498512e10bc27461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 53/59] fix: a sub-resource is not the bucket or the object
 itself

---
 src/service.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index ac4552d..7829a57 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -191,10 +191,12 @@ impl S3Service {
 /// `DELETE /bucket/key?uploadId=ID` aborts an upload, it does not delete the object.
 fn names_unsupported_subresource(ctx: &ReqContext<'_>) -> bool {
     /// sub-resources without any handler
-    const UNSUPPORTED: [&str; 27] = [
+    const UNSUPPORTED: [&str; 35] = [
+        "abac",
         "accelerate",
         "acl",
         "analytics",
+        "attributes",
         "cors",
         "encryption",
         "intelligent-tiering",
@@ -202,6 +204,10 @@ fn names_unsupported_subresource(ctx: &ReqContext<'_>) -> bool {
         "legal-hold",
         "lifecycle",
         "logging",
+        "metadataConfiguration",
+        "metadataInventoryTable",
+        "metadataJournalTable",
+        "metadataTable",
         "metrics",
         "notification",
         "object-lock",
@@ -209,11 +215,13 @@ fn names_unsupported_subresource(ctx: &ReqContext<'_>) -> bool {
         "policy",
         "policyStatus",
         "publicAccessBlock",
+        "renameObject",
         "replication",
         "requestPayment",
         "restore",
         "retention",
         "select",
+        "session",
         "tagging",
         "torrent",
         "versioning",
@@ -231,15 +239,23 @@ fn names_unsupported_subresource(ctx: &ReqContext<'_>) -> bool {
     }
 
     let method = ctx.req.method();
-    if qs.get("uploadId").is_some() {
-        // AbortMultipartUpload, ListParts and UploadPartCopy
-        return method == Method::DELETE
-            || method == Method::GET
-            || (method == Method::PUT && ctx.headers.get(X_AMZ_COPY_SOURCE).is_some());
-    }
-
-    // ListMultipartUploads
-    method == Method::GET && qs.get("uploads").is_some()
+    let has = |name: &str| qs.get(name).is_some();
+
+    // sub-resources with a handler, which are not supported in other combinations
+    let is_get_bucket = method == Method::GET && ctx.path.is_bucket();
+    let is_post_bucket = method == Method::POST && ctx.path.is_bucket();
+    let is_post_object = method == Method::POST && ctx.path.is_object();
+    let is_put_object = method == Method::PUT && ctx.path.is_object();
+    let is_part = is_put_object
+        && has("uploadId")
+        && has("partNumber")
+        && ctx.headers.get(X_AMZ_COPY_SOURCE).is_none();
+
+    (has("location") && !is_get_bucket)
+        || (has("delete") && !is_post_bucket)
+        || (has("uploads") && !is_post_object)
+        || (has("uploadId") && !is_post_object && !is_part)
+        || (has("partNumber") && is_put_object && !is_part)
 }
 
 /// Extract urlencoded URI from Request
-- 
2.43.0


From 6426785c6b7cdf3e8af4fabee30597a1b497ce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 54/59] fix: a content type that is no media type is not an
 error

---
 src/service.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 7829a57..060e889 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -150,7 +150,7 @@ impl S3Service {
         let path = extract_s3_path(&uri_path)?;
         let headers = extract_headers(&req)?;
         let query_strings = extract_qs(&req)?;
-        let mime = extract_mime(&headers)?;
+        let mime = extract_mime(&headers);
 
         let mut ctx: ReqContext<'_> = ReqContext {
             req: &req,
@@ -295,10 +295,11 @@ fn extract_qs(req: &Request) -> S3Result<Option<OrderedQs>> {
 }
 
 /// extrace `Option<Mime>` from headers
-fn extract_mime(headers: &OrderedHeaders<'_>) -> S3Result<Option<Mime>> {
-    let content_type = try_some!(headers.get(CONTENT_TYPE));
-    let err = try_err!(content_type.parse::<Mime>().map(Some));
-    invalid_request!("Invalid header: Content-Type", err).apply(Err)
+///
+/// A content type belongs to the object and may be any text:
+/// one that is not a media type is not that of a form.
+fn extract_mime(headers: &OrderedHeaders<'_>) -> Option<Mime> {
+    headers.get(CONTENT_TYPE)?.parse::<Mime>().ok()
 }
 
 /// extract `AmzContentSha256` from headers
-- 
2.43.0


From 05fb4dd4ae8a50568837fc9b73f49d71d1bc24b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 55/59] fix: the error ObjectNotInActiveTierError was answered
 with status 200

---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index fbf9e47..13cdcc8 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -615,7 +615,7 @@ impl S3ErrorCode {
             Self::NotImplemented => Some(StatusCode::NOT_IMPLEMENTED),
             Self::NotSignedUp => Some(StatusCode::FORBIDDEN),
             Self::NotSupported => None,
-            Self::ObjectNotInActiveTierError => Some(StatusCode::OK),
+            Self::ObjectNotInActiveTierError => Some(StatusCode::FORBIDDEN),
             Self::OperationAborted => Some(StatusCode::CONFLICT),
             Self::PermanentRedirect => Some(StatusCode::MOVED_PERMANENTLY),
             Self::PreconditionFailed => Some(StatusCode::PRECONDITION_FAILED),
-- 
2.43.0


From 8a469f92923e3a2cc79d7818cb860d9e3b2643d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 56/59] fix: the policy of a form was not enforced

---
 src/lib.rs               |   1 +
 src/post_policy.rs       | 173 +++++++++++++++++++++++++++++++++++++++
 src/service.rs           |  29 ++++++-
 src/streams/multipart.rs |  35 +++++++-
 src/utils/body.rs        |   2 +-
 5 files changed, 235 insertions(+), 5 deletions(-)
 create mode 100644 src/post_policy.rs

diff --git a/src/lib.rs b/src/lib.rs
index e3ad9db..bb14fd8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -130,6 +130,7 @@ pub(crate) mod utils;
 mod data_structures;
 mod ops;
 mod output;
+mod post_policy;
 mod signature_v4;
 mod streams;
 
diff --git a/src/post_policy.rs b/src/post_policy.rs
new file mode 100644
index 0000000..a76aa84
--- /dev/null
+++ b/src/post_policy.rs
@@ -0,0 +1,173 @@
+//! POST policy
+//!
+//! See <https://docs.aws.amazon.com/AmazonS3/latest/API/sigv4-HTTPPOSTConstructPolicy.html>
+
+use std::ops::RangeInclusive;
+
+use chrono::{DateTime, Utc};
+use serde_json::Value;
+
+/// The policy of a form, which is checked before the file is stored
+#[derive(Debug)]
+pub struct PostPolicy {
+    /// expiration
+    expiration: DateTime<Utc>,
+    /// conditions
+    conditions: Vec<Condition>,
+    /// `content-length-range`
+    content_length_range: Option<RangeInclusive<u64>>,
+}
+
+/// A condition on a field of the form
+#[derive(Debug)]
+struct Condition {
+    /// name of the field in lower case
+    field: String,
+    /// must the value be the same, or only start with it?
+    is_exact: bool,
+    /// value
+    value: String,
+}
+
+/// `ParsePostPolicyError`
+#[allow(missing_copy_implementations)] // Why? See `crate::path::ParseS3PathError`.
+#[derive(Debug, thiserror::Error)]
+#[error("ParsePostPolicyError")]
+pub struct ParsePostPolicyError {
+    /// private place holder
+    _priv: (),
+}
+
+/// `PostPolicyError`
+#[derive(Debug, thiserror::Error)]
+pub enum PostPolicyError {
+    /// the policy is expired
+    #[error("Policy expired")]
+    Expired,
+    /// a condition does not hold
+    #[error("Policy Condition failed: {}",.0)]
+    Condition(String),
+    /// a field is not mentioned in the policy
+    #[error("Extra input fields: {}",.0)]
+    ExtraField(String),
+}
+
+impl PostPolicy {
+    /// Parses the policy from the value of the form field
+    pub fn from_base64(policy: &str) -> Result<Self, ParsePostPolicyError> {
+        let json = base64_simd::STANDARD
+            .decode_to_vec(policy.as_bytes())
+            .map_err(|_| ParsePostPolicyError { _priv: () })?;
+        Self::from_json(&json).ok_or(ParsePostPolicyError { _priv: () })
+    }
+
+    /// Parses the policy document
+    fn from_json(json: &[u8]) -> Option<Self> {
+        let document: Value = serde_json::from_slice(json).ok()?;
+        let expiration = document.get("expiration")?.as_str()?;
+        let mut policy = Self {
+            expiration: DateTime::parse_from_rfc3339(expiration).ok()?.into(),
+            conditions: Vec::new(),
+            content_length_range: None,
+        };
+        for condition in document.get("conditions")?.as_array()? {
+            policy.add_condition(condition)?;
+        }
+        Some(policy)
+    }
+
+    /// Adds a condition
+    fn add_condition(&mut self, condition: &Value) -> Option<()> {
+        if let Some(object) = condition.as_object() {
+            for (name, value) in object {
+                self.conditions.push(Condition {
+                    field: name.to_ascii_lowercase(),
+                    is_exact: true,
+                    value: value.as_str()?.to_owned(),
+                });
+            }
+            return Some(());
+        }
+
+        let (operator, first, second) = match condition.as_array()?.as_slice() {
+            [operator, first, second] => (operator.as_str()?, first, second),
+            _ => return None,
+        };
+        let is_exact = match operator {
+            "eq" => true,
+            "starts-with" => false,
+            "content-length-range" => {
+                let to_u64 = |v: &Value| v.as_u64().or_else(|| v.as_str()?.parse().ok());
+                let (min, max) = (to_u64(first)?, to_u64(second)?);
+                // all of them must hold
+                let (min, max) = match self.content_length_range {
+                    None => (min, max),
+                    Some(ref range) => (min.max(*range.start()), max.min(*range.end())),
+                };
+                self.content_length_range = Some(min..=max);
+                return Some(());
+            }
+            _ => return None,
+        };
+        self.conditions.push(Condition {
+            field: first.as_str()?.strip_prefix('$')?.to_ascii_lowercase(),
+            is_exact,
+            value: second.as_str()?.to_owned(),
+        });
+        Some(())
+    }
+
+    /// Range of the size of the file
+    pub fn content_length_range(&self) -> Option<RangeInclusive<u64>> {
+        self.content_length_range.clone()
+    }
+
+    /// Checks that a form for the bucket complies with the policy
+    pub fn check(
+        &self,
+        now: DateTime<Utc>,
+        bucket: &str,
+        fields: &[(String, String)],
+    ) -> Result<(), PostPolicyError> {
+        if now > self.expiration {
+            return Err(PostPolicyError::Expired);
+        }
+
+        for condition in &self.conditions {
+            let is_compliant = |value: &str| {
+                if condition.is_exact {
+                    value == condition.value
+                } else {
+                    value.starts_with(&condition.value)
+                }
+            };
+            let mut values = fields
+                .iter()
+                .filter(|&&(ref name, _)| name.eq_ignore_ascii_case(&condition.field))
+                .map(|&(_, ref value)| value.as_str())
+                .chain((condition.field == "bucket").then(|| bucket))
+                .peekable();
+            if values.peek().is_none() || !values.all(is_compliant) {
+                return Err(PostPolicyError::Condition(condition.field.clone()));
+            }
+        }
+
+        for &(ref name, _) in fields {
+            let name = name.to_ascii_lowercase();
+            // these are checked with the signature, or not used
+            let is_exempt = matches!(
+                name.as_str(),
+                "policy"
+                    | "x-amz-algorithm"
+                    | "x-amz-credential"
+                    | "x-amz-date"
+                    | "x-amz-signature"
+            ) || name.starts_with("x-ignore-");
+            if !is_exempt && !self.conditions.iter().any(|c| c.field == name) {
+                return Err(PostPolicyError::ExtraField(name));
+            }
+        }
+
+        Ok(())
+    }
+}
diff --git a/src/service.rs b/src/service.rs
index 060e889..98264ca 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -10,6 +10,7 @@ use crate::headers::{
 use crate::ops::{ReqContext, S3Handler};
 use crate::output::S3Output;
 use crate::path::{S3Path, S3PathErrorKind};
+use crate::post_policy::PostPolicy;
 use crate::signature_v4;
 use crate::storage::S3Storage;
 use crate::streams::aws_chunked_stream::AwsChunkedStream;
@@ -447,10 +448,10 @@ async fn check_post_signature(
 
     let body = take_io_body(&mut ctx.body);
 
-    let multipart = multipart::transform_multipart(body, boundary.as_str().as_bytes())
+    let mut multipart = multipart::transform_multipart(body, boundary.as_str().as_bytes())
         .await
         .map_err(|err| invalid_request!("Invalid multipart/form-data body", err))?;
-    {
+    let size_range = {
         let (policy, x_amz_algorithm, x_amz_credential, x_amz_date, x_amz_signature) = {
             match find_info(&multipart) {
                 None => return Err(invalid_request!("Missing required fields")),
@@ -498,6 +499,30 @@ async fn check_post_signature(
         if signature != x_amz_signature {
             return Err(signature_mismatch!());
         }
+
+        // the form must comply with the signed policy
+        let policy = PostPolicy::from_base64(policy).map_err(|err| {
+            code_error!(
+                InvalidPolicyDocument,
+                "The content of the form does not meet the conditions specified in the policy document.",
+                err
+            )
+        })?;
+
+        let bucket = match ctx.path {
+            S3Path::Bucket { bucket } | S3Path::Object { bucket, .. } => bucket,
+            S3Path::Root => "",
+        };
+
+        policy
+            .check(chrono::Utc::now(), bucket, &multipart.fields)
+            .map_err(|err| code_error!(AccessDenied, "Invalid according to Policy", err))?;
+
+        policy.content_length_range()
+    };
+
+    if let Some(range) = size_range {
+        multipart.file.stream.limit_size(range);
     }
 
     // store ctx value
diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 7ff2794..acd31c2 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -9,7 +9,9 @@ use std::fmt::{self, Debug};
 use std::future::Future;
 use std::io;
 use std::mem;
+use std::ops::RangeInclusive;
 use std::pin::Pin;
+use std::task::Poll;
 
 use futures::stream::{Stream, StreamExt};
 use hyper::body::Bytes;
@@ -234,6 +236,9 @@ pub enum FileStreamError {
     /// IO error
     #[error("FileStreamError: IO: {}",.0)]
     Io(io::Error),
+    /// The size of the file is not in the range of the policy
+    #[error("FileStreamError: Size")]
+    Size,
 }
 
 /// `Pin<Box<dyn Future<Output = T> + Send + Sync + 'a>>`
@@ -270,6 +275,10 @@ pub struct FileStream {
     /// inner stream
     inner:
         AsyncTryStream<Bytes, FileStreamError, SyncBoxFuture<'static, Result<(), FileStreamError>>>,
+    /// range of the size
+    size_range: RangeInclusive<u64>,
+    /// count of the bytes
+    size: u64,
 }
 
 impl Debug for FileStream {
@@ -401,8 +410,15 @@ impl FileStream {
                     Box::pin(gen(y, body, crlf_pat, prev_bytes, is_form))
                 },
             ),
+            size_range: 0..=u64::MAX,
+            size: 0,
         }
     }
+
+    /// Lets the stream fail if the size of the file is not in the range
+    pub(crate) fn limit_size(&mut self, range: RangeInclusive<u64>) {
+        self.size_range = range;
+    }
 }
 
 impl Stream for FileStream {
@@ -411,8 +427,23 @@ impl Stream for FileStream {
     fn poll_next(
         mut self: Pin<&mut Self>,
         cx: &mut std::task::Context<'_>,
-    ) -> std::task::Poll<Option<Self::Item>> {
-        Pin::new(&mut self.inner).poll_next(cx)
+    ) -> Poll<Option<Self::Item>> {
+        let item = futures::ready!(Pin::new(&mut self.inner).poll_next(cx));
+        let is_valid = match item {
+            Some(Ok(ref bytes)) => {
+                self.size = self.size.saturating_add(bytes.len() as u64);
+                self.size <= *self.size_range.end()
+            }
+            Some(Err(_)) => true,
+            None => self.size >= *self.size_range.start(),
+        };
+        Poll::Ready(if is_valid {
+            item
+        } else {
+            // report it once
+            self.size_range = 0..=u64::MAX;
+            Some(Err(FileStreamError::Size))
+        })
     }
 }
 
diff --git a/src/utils/body.rs b/src/utils/body.rs
index 15eb171..2ba06d2 100644
--- a/src/utils/body.rs
+++ b/src/utils/body.rs
@@ -78,7 +78,7 @@ pub fn transform_file_stream(file_stream: FileStream) -> ByteStream {
     file_stream
         .map(|try_chunk| {
             try_chunk.map_err(|e| match e {
-                FileStreamError::Incomplete => {
+                FileStreamError::Incomplete | FileStreamError::Size => {
                     io::Error::new(io::ErrorKind::Other, format!("Error obtaining chunk: {e}"))
                 }
                 FileStreamError::Io(e) => e,
-- 
2.43.0


From 32b673deba65e94ae599b0fe47bed01154a45fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 57/59] fix: objects with metadata that no header can carry
 were unreadable

A form can give an object metadata with line breaks or other characters that
headers cannot have. Such fields are counted in x-amz-missing-meta, as S3 does.
---
 src/storages/fs.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index db50672..5b2f52e 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -35,6 +35,7 @@ use futures::io::{AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufWrit
 use futures::lock::Mutex;
 use futures::stream::{Stream, StreamExt, TryStreamExt};
 use hyper::body::Bytes;
+use hyper::header::{HeaderName, HeaderValue};
 use md5::{Digest, Md5};
 use path_absolutize::Absolutize;
 use tracing::{debug, error};
@@ -438,6 +439,28 @@ fn encode_keys(objects: &mut [Object], encoding_type: Option<&str>) {
     }
 }
 
+/// the metadata that headers can carry, and the number of the other fields
+fn split_metadata(
+    metadata: Option<HashMap<String, String>>,
+) -> (Option<HashMap<String, String>>, Option<i64>) {
+    let mut metadata = match metadata {
+        None => return (None, None),
+        Some(metadata) => metadata,
+    };
+    let total = metadata.len();
+    metadata.retain(|name, value| {
+        HeaderName::from_bytes(format!("x-amz-meta-{}", name).as_bytes()).is_ok()
+            && HeaderValue::from_str(value).is_ok()
+    });
+    let missing = total.saturating_sub(metadata.len());
+    let missing = if missing == 0 {
+        None
+    } else {
+        missing.try_into().ok()
+    };
+    (Some(metadata), missing)
+}
+
 /// wrap operation error
 const fn operation_error<E>(e: E) -> S3StorageError<E> {
     S3StorageError::Operation(e)
@@ -767,12 +790,15 @@ impl S3Storage for FileSystem {
             "GetObject: calculate md5 sum",
         );
 
+        let (metadata, missing_meta) = split_metadata(object_metadata);
+
         let output: GetObjectOutput = GetObjectOutput {
             body: Some(crate::dto::ByteStream::new(stream)),
             content_length: Some(trace_try!(content_length.try_into())),
             content_range,
             last_modified: Some(last_modified),
-            metadata: object_metadata,
+            metadata,
+            missing_meta,
             e_tag: Some(format!("\"{}\"", md5_sum)),
             ..GetObjectOutput::default() // TODO: handle other fields
         };
@@ -818,11 +844,14 @@ impl S3Storage for FileSystem {
 
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
 
+        let (metadata, missing_meta) = split_metadata(object_metadata);
+
         let output: HeadObjectOutput = HeadObjectOutput {
             content_length: Some(trace_try!(size.try_into())),
             content_type: Some(mime::APPLICATION_OCTET_STREAM.as_ref().to_owned()), // TODO: handle content type
             last_modified: Some(last_modified),
-            metadata: object_metadata,
+            metadata,
+            missing_meta,
             ..HeadObjectOutput::default()
         };
         Ok(output)
-- 
2.43.0


From a65366cdf0345ce95725f915f07c7a8f8b7af8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 58/59] fix: CopyObject reported the time of modification of
 its source

---
 src/storages/fs.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 5b2f52e..ecf3d74 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -548,13 +548,12 @@ impl S3Storage for FileSystem {
             (src_file, metadata)
         };
 
-        let file_metadata = trace_try!(src_file.metadata().await);
-        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
-
         let temp_file = self.new_temp_file();
         let _ = trace_try!(copy_file(&mut src_file, temp_file.path()).await);
         let mut copied_file = trace_try!(File::open(temp_file.path()).await);
         let md5_sum = trace_try!(self.get_md5_sum(&mut copied_file).await);
+        let file_metadata = trace_try!(copied_file.metadata().await);
+        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
         let _guard = self.lock.lock().await;
         self.save_object(
-- 
2.43.0


From f1a341db69f35af6ad11dfed459cdd5bf2291c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:07 +0000
Subject: [PATCH 59/59] fix: an I/O error was reported as the absence of the
 bucket or object

---
 src/storages/fs.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index ecf3d74..42018ab 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -142,7 +142,8 @@ impl FileSystem {
 
     /// check that the bucket exists
     fn check_bucket_exists(&self, bucket: &str) -> S3Result<()> {
-        if trace_try!(self.get_bucket_path(bucket)).exists() {
+        let path = trace_try!(self.get_bucket_path(bucket));
+        if trace_try!(get_file_type(&path)).is_some() {
             return Ok(());
         }
         Err(code_error!(
@@ -535,7 +536,8 @@ impl S3Storage for FileSystem {
 
         let (mut src_file, metadata) = {
             let _guard = self.lock.lock().await;
-            if !src_path.is_file() {
+            let src_type = trace_try!(get_file_type(&src_path));
+            if !src_type.map_or(false, |file_type| file_type.is_file()) {
                 let err = code_error!(NoSuchKey, "The specified key does not exist.");
                 return Err(err.into());
             }
@@ -666,7 +668,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<GetBucketLocationOutput, GetBucketLocationError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
-        if !path.exists() {
+        if trace_try!(get_file_type(&path)).is_none() {
             let err = code_error!(NoSuchBucket, "NotFound");
             return Err(err.into());
         }
@@ -695,6 +697,9 @@ impl S3Storage for FileSystem {
             Ok(file) => file,
             Err(e) => {
                 error!(error = %e, "GetObject: open file");
+                if trace_try!(get_file_type(&object_path)).is_some() {
+                    return Err(internal_error!(e).into());
+                }
                 let err = code_error!(NoSuchKey, "The specified key does not exist.");
                 return Err(err.into());
             }
@@ -812,7 +817,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<HeadBucketOutput, HeadBucketError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
-        if !path.exists() {
+        if trace_try!(get_file_type(&path)).is_none() {
             let err = code_error!(NoSuchBucket, "The specified bucket does not exist.");
             return Err(err.into());
         }
@@ -828,7 +833,8 @@ impl S3Storage for FileSystem {
         let path = self.get_object_path(&input.bucket, &input.key)?;
 
         let _guard = self.lock.lock().await;
-        if !path.exists() || path.is_dir() != input.key.ends_with('/') {
+        let file_type = trace_try!(get_file_type(&path));
+        if file_type.map(|file_type| file_type.is_dir()) != Some(input.key.ends_with('/')) {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
             return Err(err.into());
         }
-- 
2.43.0

