#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or ["HTTP responses of the service"], hook_needed=hook)))
FS = "src/storages/fs.rs"
SV = "src/service.rs"

p("A01", "Only correctly signed requests take effect",
  "When an authentication provider is configured, a request reaches the storage only if it carries a signature (Authorization header, presigned query, or POST form) that is valid under the current secret of the named access key for exactly the method, path, query, signed headers, timestamp, region and payload (unless the payload is declared unsigned) that are then executed. Any alteration of a signed component, an unknown key, a missing signature, or an x-amz header that the signature does not cover is refused with an error and has no effect (a form upload may ignore such a header instead).",
  ["inputs"], "every single-component alteration (each byte of each signed component, each header, parameter and body byte added, removed or changed) of signed requests of every authentication form and operation",
  "Tests check a few documented signature values; the guarantee is about all the requests that must NOT pass, one for every component and position that could be altered.",
  [SV, "src/signature_v4.rs", "src/headers/authorization_v4.rs", "src/data_structures/ordered_headers.rs"],
  [("check_header_auth / check_presigned_url / check_post_signature", SV), ("create_canonical_request, calculate_signature", "src/signature_v4.rs")])
p("A02", "Every correctly signed request is accepted",
  "A request signed according to AWS Signature Version 4 (any path and query characters, any number and order of headers and parameters, repeated headers, inner and outer white space, each payload mode, presigned or not) is accepted and reaches the storage with exactly the bucket, key, parameters and payload that were signed. With no authentication provider, unsigned requests are accepted alike.",
  ["inputs"], "signed requests over an enumerated alphabet of path, query, header and body shapes, for all authentication forms",
  "The canonicalization must agree with the one of every client on every input; the published examples use plain ASCII names, few headers and sorted parameters only.",
  [SV, "src/signature_v4.rs", "src/data_structures/ordered_qs.rs", "src/data_structures/ordered_headers.rs"],
  [("create_canonical_request / create_presigned_canonical_request", "src/signature_v4.rs"), ("decode_uri_path", SV)])
p("A03", "A presigned URL works exactly until it expires",
  "A correctly signed presigned URL with a validity period of 1 to 604800 seconds is accepted at every time from its date up to date plus its validity period, and is refused with an error and without effect at every later time. A URL without a valid date or validity period is refused.",
  ["inputs", "configurations"], "all boundary instants (including sub-second, day, month, leap-day and year boundaries) of dates and validity periods, under a controlled clock",
  "Needs control over the clock and all boundary combinations of date and period; tests run at one arbitrary time.",
  [SV, "src/signature_v4.rs", "src/headers/amz_date.rs"],
  [("PresignedUrl::is_expired", "src/signature_v4.rs"), ("AmzDate parsing", "src/headers/amz_date.rs")])
p("A04", "Chunk-signed uploads store exactly the signed bytes",
  "An upload with a chunk-signed streaming payload succeeds exactly if the body is a well-formed sequence of correctly signed chunks ending with the empty final chunk, and the stored bytes are then the concatenation of the chunk data. Altered, reordered, dropped, duplicated, truncated or appended chunks make the upload fail and leave the stored object as it was, and the result never depends on how the transport splits the body.",
  ["inputs", "fault_sequences"], "all splits of the encoded body into at most three transport pieces, all truncation points, all single-byte alterations, and all chunk-level rearrangements of enumerated payloads",
  "The decoder is a hand-written state machine over arbitrary buffer boundaries; the unit test feeds one body in one segmentation.",
  ["src/streams/aws_chunked_stream.rs", SV], [("AwsChunkedStream::new, read_meta_bytes, read_data", "src/streams/aws_chunked_stream.rs")],
  [("prev_signature", "signature of the preceding chunk, to which the next is bound", "src/streams/aws_chunked_stream.rs")])
p("A05", "Form uploads are parsed exactly, however the body is split",
  "A POST form upload stores exactly the bytes of its file part under the key (and with the metadata) given in its fields, for every file content including boundary look-alikes and line breaks. The result never depends on how the transport splits the body, and a truncated body or one without its closing boundary never creates or alters an object. The object is readable whatever its metadata: fields that no header can carry are counted in x-amz-missing-meta.",
  ["inputs", "fault_sequences"], "all splits of the form body into at most three transport pieces, all truncation points, and file contents over an alphabet of delimiter fragments",
  "The multipart parser searches for delimiters across buffer boundaries; unit tests use single splits of a fixed body.",
  ["src/streams/multipart.rs", "src/ops/put_object.rs"], [("transform_multipart, FileStream", "src/streams/multipart.rs"), ("extract_from_multipart", "src/ops/put_object.rs")])
p("A06", "The policy of a form upload is enforced",
  "A POST form upload is executed only if its signed policy has not expired and all conditions of the policy (exact matches, prefixes, content length range) hold for the submitted form; a field that no condition mentions (other than those of the signature and those named x-ignore-*) is refused, and a policy that is not a valid document allows nothing.",
  ["inputs"], "policies and forms over all kinds of conditions, satisfied and violated",
  "A policy is a small program supplied by the user; tests only check the signature over it.",
  [SV, "src/ops/put_object.rs"], [("check_post_signature", SV)])
p("R01", "Every request is dispatched to the operation it names",
  "Each combination of method, resource (service, bucket, object), sub-resource parameters and selecting headers invokes exactly the S3 operation that it denotes in the S3 API, at most once; combinations that denote no implemented operation are refused and never reach the storage as a different operation.",
  ["inputs"], "all combinations of methods, resources, sub-resource parameters (one and two at a time) and selecting headers",
  "The dispatcher is an ordered list of overlapping predicates; a wrong fall-through (for example deleting an object instead of aborting an upload) shows only on particular combinations.",
  ["src/ops.rs", SV, "src/ops"], [("is_match of each handler, order in setup_handlers", "src/ops.rs"), ("names_unsupported_subresource", SV)])
p("R02", "Request parameters reach the storage unchanged",
  "Every path component, query parameter, header and body element that an implemented operation defines is delivered to the storage in its proper field with exactly the value the client sent (decoded once), absent ones are absent, and malformed numeric, boolean or XML values are refused without invoking the storage.",
  ["inputs"], "every parameter of every operation singly, pairwise and all together, with values from an alphabet of plain, encoded, Unicode, boundary and malformed values",
  "There are more than two hundred parameter-to-field assignments; a swapped pair or a doubly decoded value is invisible unless that very parameter is exercised.",
  ["src/ops", "src/path.rs", "src/data_structures/ordered_qs.rs"], [("extract of each operation", "src/ops"), ("deserialize_xml_body", "src/utils/body.rs")])
p("R03", "Every request gets a well-formed response",
  "For every request, however malformed, and every outcome of the storage, the service neither panics nor hangs and returns a valid HTTP response; error responses carry a well-formed S3 error document whose code belongs to the failure and whose status is the one S3 assigns to the code.",
  ["inputs", "fault_sequences"], "malformed paths, queries, headers and bodies from an enumerated alphabet for every operation, and every storage error code and failure kind for every operation",
  "A panic needs an input nobody thought of; the alphabet covers every parser in the request path rather than a few bad inputs.",
  [SV, "src/errors.rs", "src/ops", "src/utils/body.rs"], [("hyper_call, handle", SV), ("S3ErrorCode::as_status_code, into_xml_response", "src/errors.rs")])
p("R04", "Bucket names and keys are validated exactly",
  "A request path is accepted exactly if its bucket is a valid S3 bucket name (3 to 63 lower-case letters, digits, dots and hyphens, starting and ending with a letter or digit, not an IP address, not starting with xn--) and its key has at most 1024 bytes; an accepted path is split into exactly that bucket and key, and every other path is refused with the error for its defect and without effect.",
  ["inputs"], "all bucket names up to length 4 over a class alphabet and boundary lengths, all key lengths around the limit, single and multi-byte characters, encoded separators",
  "The set of names is infinite and the rules are a conjunction of conditions; tests try a handful of names.",
  ["src/path.rs", SV], [("S3Path::try_from_path, check_bucket_name, check_key", "src/path.rs")])
p("R05", "Responses represent the storage's answer exactly",
  "Every field that the storage returns appears in the response in the header or XML element that S3 defines for it, and a client that parses the response recovers exactly the returned values (including keys with XML special or non-ASCII characters, empty and repeated elements); fields that are absent do not appear.",
  ["inputs"], "every output field of every operation singly and all together, with values from an alphabet including XML special characters and Unicode, lists of zero to three elements",
  "More than a hundred field-to-header and field-to-element mappings, each visible only for its own field; tests look at one or two fields.",
  ["src/ops", "src/output.rs", "src/utils/xml.rs", "src/utils/response.rs"], [("S3Output::try_into_response of each operation", "src/ops")])
p("R06", "The server command serves what its options configure, each request on its own",
  "The command s3-server serves exactly the buckets of the directory given by --fs-root (default: the working directory) at the given host and port; with --access-key and --secret-key it executes only requests signed with exactly that pair, without them it accepts unsigned requests, and with only one of them, or with a root, host or port that is not usable, it ends with an error and serves nothing. Requests sent over one connection, after each other or pipelined, in whatever segments, have the responses and effects that they have on separate connections; a request whose connection ends before it is complete has no effect.",
  ["inputs"], "all combinations of the options' forms; all sequences of two (thorough: three) kinds of requests on a connection; all splits and truncations",
  "A matrix of options and sequences; a mistake shows only for particular combinations (for example a server that runs without authentication because one key is missing), and no test starts the command.",
  ["src/bin/s3-server.rs", "src/auth.rs", SV], [("main", "src/bin/s3-server.rs"), ("SharedS3Service", SV)])
p("S01", "Objects read back exactly as last written",
  "After any sequence of bucket and object operations, GET and HEAD of a key return exactly the content, length, MD5 ETag and user metadata of the latest successful write (upload, copy or completed multipart upload) of that key, or NoSuchKey if it was never written or was deleted since. Operations on one key never change another key, and a restart of the server changes nothing.",
  ["histories", "inputs"], "all operation sequences up to a depth over a small alphabet of buckets, keys, contents and metadata, and all boundary content sizes and key shapes",
  "Defects such as stale metadata need particular sequences (overwrite after delete, copy over an existing object); the integration tests perform one put and one get.",
  [FS, "src/ops/put_object.rs", "src/ops/get_object.rs", "src/data_structures/bytes_stream.rs"], [("put_object, get_object, head_object, delete_object, copy_object", FS), ("save_metadata / load_metadata", FS)],
  [("object file", "content of the object", FS), ("metadata file", "user metadata, in a separate file named after bucket and key", FS)])
p("S02", "Buckets are created and deleted only as S3 allows",
  "A bucket exists exactly from its successful creation to its successful deletion; creating an existing bucket and deleting a missing or non-empty bucket are refused, and a refused operation changes nothing. The list of buckets names exactly the existing ones, with the time of their creation. No object operation creates a bucket, and every operation on a missing bucket reports an error and has no effect.",
  ["histories"], "all sequences of bucket and object operations up to a depth over two buckets",
  "The rules relate several operations over time; tests exercise each operation once, from one state.",
  [FS], [("create_bucket, delete_bucket, check_bucket_exists", FS)])
p("S03", "Listings and bulk deletion are exact",
  "Both list operations return exactly the existing objects of the bucket whose keys start with the requested prefix, once each, in key order, with their sizes, the time of modification that reading the object shows, and a matching key count; keys are recoverable from the response for every encoding the client requests. Bulk deletion removes exactly the named objects and reports each of them.",
  ["histories", "inputs"], "all sets of keys from an alphabet (nested, shared prefixes, special characters) with all prefixes derived from it, and all sub-lists for bulk deletion",
  "Correctness of a listing depends on the whole set of keys and on the prefix; tests list one object.",
  [FS, "src/ops/list_objects.rs", "src/ops/list_objects_v2.rs", "src/ops/delete_objects.rs"], [("list_objects, list_objects_v2, delete_objects", FS)])
p("S04", "A multipart upload yields exactly its listed parts",
  "Completing a multipart upload creates the object as the concatenation, in ascending part order, of the latest upload of each listed part, with the metadata given when the upload was created, and only if every listed part exists and matches the given ETag; otherwise it is refused, the existing object is unchanged and the upload can still be completed. Uploads are bound to their bucket and key, never affect each other, and a completed or unknown upload id is refused.",
  ["histories", "inputs"], "all sequences of create, upload-part and complete operations up to a depth over two uploads and up to twelve parts, with all part lists over a small alphabet",
  "The state spans several requests and ids; tests never complete a multipart upload.",
  [FS, "src/ops/upload_part.rs", "src/ops/complete_multipart_upload.rs"], [("create_multipart_upload, upload_part, complete_multipart_upload", FS)],
  [("part files and upload record", "the state of an upload in progress", FS)])
p("S05", "Range requests return exactly the requested bytes",
  "A GET with a byte range returns status 206, exactly the bytes of the object in that range (clamped to the object), and matching Content-Length and Content-Range; a range that selects no byte is refused as not satisfiable and a malformed range is refused, and neither returns object data as if it were the range.",
  ["inputs"], "all ranges (first, last, open-ended and suffix) over boundary offsets for objects of boundary sizes",
  "Off-by-one errors at the ends need every combination of boundaries; the unit test only checks the header parser.",
  [FS, "src/headers/range.rs", "src/data_structures/bytes_stream.rs"], [("get_object", FS), ("Range::from_header_str", "src/headers/range.rs"), ("BytesStream", "src/data_structures/bytes_stream.rs")])
p("S06", "No request reaches data outside its bucket",
  "Whatever bucket name, key, copy source, upload id, part number or list of keys a request contains, it never reads, creates, changes or deletes any file outside the storage root, nor any object, metadata or upload of a bucket or key other than the ones it names. Distinct keys never share their content or metadata.",
  ["inputs", "histories"], "all keys up to four path components over an alphabet of traversal, empty, special and internal file names, in every position that takes a name, with all accesses to files intercepted",
  "Containment is a statement about all names an attacker can invent; tests use benign names.",
  [FS, "src/path.rs", "src/headers/amz_copy_source.rs"], [("get_object_path, get_metadata_path, get_part_path, get_upload_path", FS)])
p("S07", "A failed upload changes nothing",
  "An upload of an object or a part that does not complete (connection failure at any point, Content-MD5 mismatch, invalid signature of a chunk, cancelled request) returns an error or nothing, and afterwards every object, its metadata and every part are exactly as before, whether the key existed or not (a request that is cancelled after its whole body arrived may instead have taken its full effect).",
  ["fault_sequences", "inputs"], "every failure point of the request body and every suspension point of the request as the point of cancellation, for new and existing keys and parts",
  "Requires injecting a failure at every point of the upload; tests only upload successfully.",
  [FS, SV], [("put_object, upload_part, TempFile", FS)])
p("S08", "Concurrent requests are linearizable",
  "For any interleaving of concurrent requests, the responses and the final state are those of some sequential execution of the requests (a copy reads its source and writes its destination, and a bulk deletion removes each object, as separate steps); in particular a reader sees the content, ETag and metadata of one single version of an object, and every request completes (no deadlock).",
  ["schedules"], "all interleavings, at the granularity of file system calls, of pairs and triples of operations and of pairs of request sequences on the same keys, up to a bound on preemptions",
  "A race shows only in one of thousands of interleavings, which tests neither control nor enumerate.",
  [FS, SV], [("lock, save_object, remove_object", FS), ("SharedS3Service", SV)],
  [("lock", "held while the files of an object are replaced, removed or opened", FS)])
p("S09", "A crash of the server never corrupts an object",
  "If the server process dies at any point of any operation, then after a restart every object is readable and has exactly the content and metadata of either before or after the interrupted operation; everything that was acknowledged before is intact, and every operation works again.",
  ["crash_points"], "every file system call of every operation as the crash point, with every write also torn, from several initial states",
  "The crash must hit one particular call; tests never kill the server.",
  [FS], [("save_object, TempFile::persist", FS)])
p("S10", "An I/O error never corrupts or misreports an object",
  "If any single file system call fails, or transfers fewer bytes than asked, then a request either succeeds with its full effect and correct data or fails with an error; in no case is wrong or truncated data returned or stored as a success, nor is an existing bucket, object, part or upload reported as absent, and a failed request leaves every object as before or as after the request.",
  ["fault_sequences"], "every file system call of every operation failing with each of several errors or transferring a partial amount",
  "Needs fault injection at every call site; tests run on a file system that never fails.",
  [FS, "src/data_structures/bytes_stream.rs"], [("all operations", FS), ("BytesStream::poll_next", "src/data_structures/bytes_stream.rs")])
p("S11", "A copy is exact and independent of its source",
  "CopyObject makes the destination (in the same or another bucket, new or existing, the source itself included) an exact copy of the content and metadata (those of the request instead, if its metadata directive is REPLACE) of the source as named after URL decoding, with or without a leading slash; the source is unchanged and later changes of one never affect the other, and the response names the ETag and the time of modification of the copy. A missing source or destination bucket is refused without effect.",
  ["histories", "inputs"], "all pairs of source and destination from an alphabet of keys and states, all encodings of the source name, with all operations before and after up to a depth",
  "Aliasing, self copies and encoded names are particular combinations which tests do not contain.",
  [FS, "src/headers/amz_copy_source.rs", "src/ops/copy_object.rs"], [("copy_object", FS), ("AmzCopySource::from_header_str", "src/headers/amz_copy_source.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
