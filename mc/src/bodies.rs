//! A04: chunk-signed uploads. A05: form uploads.

use crate::api::{self, Chunk, Rq};
use crate::auth::T0;
use crate::rec::{expect, Call, Fixture};
use crate::report::{remove_tree, Cx, Meta, R};
use crate::sig::{self, Cred, Payload, Piece};
use crate::store::{content, World};
use crate::{ensure, sys};
use bytes::Bytes;
use s3_server::dto::*;
use s3_server::storages::fs::FileSystem;
use s3_server::{S3Service, SimpleAuth};

pub fn metas() -> Vec<Meta> {
    vec![
    Meta {
        id: "A04",
        level: "input_enumeration",
        rule: "every chunk layout of the table with every split of the encoded body into at most three transport pieces (and byte by byte, with pauses and empty pieces), every truncation (ended or reset, in one or two pieces), every single-byte alteration, every sequence of up to four (thorough: five) chunks out of own, foreign, stale, unsigned and missized ones; judged by an independent decoder; against a recording storage, and the structural ones against the file system with the object before and after. states: distinct bodies with their split",
        assumptions: &["x-amz-decoded-content-length tells the true length", "the case of hexadecimal digits and leading zeros of a chunk size are not judged"],
        quick_secs: 600,
        thorough_secs: 3000,
        run: a04,
    },
    Meta {
        id: "A05",
        level: "input_enumeration",
        rule: "every file content up to length 5 (thorough: 7) over the characters of the delimiter, cut at every position around it; forms of the table with every split of the body in at most three pieces; every truncation (ended or reset); every field of a form alone and in pairs with values over an alphabet, the same as an enumeration of short values over the characters of the delimiter; boundaries and part headers of the table; against a recording storage with the expected call, and truncations also against the file system. states: distinct (body, split)",
        assumptions: &["the file neither contains the delimiter nor starts with the boundary line", "fields are not repeated", "Content-Disposition is written name first, with quoted values without escapes"],
        quick_secs: 600,
        thorough_secs: 3000,
        run: a05,
    }]
}

/// what a chunked body denotes
#[derive(Clone, Debug, PartialEq, Eq)]
enum Decoded {
    Valid(Vec<u8>),
    /// well-formed for a lenient reader
    Either(Vec<u8>),
    Invalid,
}

/// an independent decoder
fn decode(c: &Cred, seed: &str, body: &[u8]) -> Decoded {
    let mut prev = seed.to_owned();
    let mut out = vec![];
    let mut rest = body;
    let mut lenient = false;
    loop {
        let Some(e) = rest.windows(2).position(|w| w == b"\r\n") else { return Decoded::Invalid };
        let Ok(head) = std::str::from_utf8(&rest[..e]) else { return Decoded::Invalid };
        let Some((size, s)) = head.split_once(";chunk-signature=") else { return Decoded::Invalid };
        if size.is_empty() || !size.bytes().all(|b| b.is_ascii_hexdigit()) || s.len() != 64 {
            return Decoded::Invalid;
        }
        let digits = size.trim_start_matches('0');
        if digits.len() > 8 {
            return Decoded::Invalid;
        }
        let n = if digits.is_empty() { 0 } else { usize::from_str_radix(digits, 16).expect("hex") };
        lenient |= format!("{n:x}") != size;
        let data = &rest[e + 2..];
        if data.len() < n + 2 || &data[n..n + 2] != b"\r\n" {
            return Decoded::Invalid;
        }
        let want = sig::chunk_signature(c, &prev, &data[..n]);
        if want != s {
            if !want.eq_ignore_ascii_case(s) {
                return Decoded::Invalid;
            }
            lenient = true;
        }
        out.extend_from_slice(&data[..n]);
        prev = want;
        rest = &data[n + 2..];
        if n == 0 {
            break;
        }
    }
    match (rest.is_empty(), lenient) {
        (false, _) => Decoded::Invalid,
        (true, false) => Decoded::Valid(out),
        (true, true) => Decoded::Either(out),
    }
}

/// the outcome of an upload whose body denotes `want`
fn judge(cx: &mut Cx, fx: &Fixture, rq: &Rq, want: &Decoded, what: &dyn Fn() -> String) -> R {
    cx.add("evaluations", 1);
    let (rs, calls) = fx.run(rq).map_err(|e| format!("{}: {e}", what()))?;
    cx.outcome(&(rs.status, rs.code(), calls.len()));
    ensure!(calls.len() <= 1, "{}: {} calls of the storage", what(), calls.len());
    let stored = calls.first().filter(|c| c.effective());
    let ok = stored.is_some() && rs.status < 400;
    match (want, stored) {
        (Decoded::Invalid, None) => ensure!(rs.status >= 400, "{}: the body is not valid, but the response is {}", what(), rs.show()),
        (Decoded::Invalid, Some(c)) => crate::fail!("{}: a body that is not valid is stored: {}", what(), c.show()),
        (Decoded::Either(_), None) => ensure!(rs.status >= 400, "{}: nothing is stored, but the response is {}", what(), rs.show()),
        (Decoded::Valid(d) | Decoded::Either(d), _) => {
            ensure!(ok, "{}: the upload is refused: {}", what(), rs.show());
            let c = stored.expect("call");
            ensure!(c.body.as_ref() == Some(&Ok(d.clone())), "{}: stored {} instead of {} bytes", what(), c.show(), d.len());
        }
    }
    Ok(())
}

fn put() -> Rq {
    Rq::obj("PUT", "aaa", "k")
}

fn part() -> Rq {
    Rq::obj("PUT", "aaa", "k").q("partNumber=3&uploadId=u-1")
}

/// the layouts that are small enough for all splits
fn layouts(thorough: bool) -> Vec<Vec<Vec<u8>>> {
    let all: Vec<u8> = (0..=255).collect();
    let tricky = b"\r\n0;chunk-signature=0000000000000000000000000000000000000000000000000000000000000000\r\n\r\n".to_vec();
    let mut v: Vec<Vec<Vec<u8>>> = vec![
        vec![],
        vec![b"a".to_vec()],
        vec![b"\r\n".to_vec()],
        vec![b"\r".to_vec(), b"\n".to_vec()],
        vec![b"hello".to_vec(), b"ab".to_vec()],
        vec![b"\n\n".to_vec(), b"x".to_vec(), b"\r\r\n".to_vec()],
        vec![tricky.clone()],
    ];
    if thorough {
        v.push(vec![all.clone()]);
        v.push(vec![tricky, b"0".to_vec(), all]);
        v.push((0..5).map(|i| vec![i; i as usize + 1]).collect());
    }
    v
}

fn signed(rq: &Rq, c: &Cred, chunks: &[Vec<u8>]) -> (Rq, Vec<Piece>, String) {
    let mut r = rq.clone();
    let chunks: Vec<&[u8]> = chunks.iter().map(Vec::as_slice).collect();
    let p = sig::sign_stream(&mut r, c, &chunks, None);
    let a = r.get_header("authorization").expect("authorization");
    let seed = a.rsplit_once("Signature=").expect("signature").1.to_owned();
    (r, p, seed)
}

fn sized(chunks: &[Vec<u8>]) -> String {
    format!("chunks of {:?} bytes", chunks.iter().map(Vec::len).collect::<Vec<_>>())
}

/// the body in pieces, with pauses before each
fn with_pauses(rq: &Rq) -> Rq {
    let mut r = rq.clone();
    r.body = rq.body.iter().flat_map(|c| [Chunk::Pending, c.clone()]).collect();
    r.body.push(Chunk::Pending);
    r
}

fn with_empty_pieces(rq: &Rq) -> Rq {
    let mut r = rq.clone();
    r.body = rq.body.iter().flat_map(|c| [Chunk::Data(Bytes::new()), c.clone()]).collect();
    r.body.push(Chunk::Data(Bytes::new()));
    r
}

fn aborted(rq: &Rq) -> Rq {
    let mut r = rq.clone();
    // each cut with one of the ways to fail
    api::FAILURE.store(rq.body_bytes().len() % api::FAILURES.len(), std::sync::atomic::Ordering::SeqCst);
    r.body.push(Chunk::Error);
    r
}

fn replace(rq: &Rq, body: &[u8]) -> Rq {
    let mut r = rq.clone();
    sig::set_body(&mut r, body);
    r
}

/// every splitting of the body in at most three pieces, byte by byte, with pauses and with empty pieces
pub fn splits(len: usize, mut f: impl FnMut(&str, &[usize]) -> R) -> R {
    for i in 0..=len {
        f("at", &[i])?;
        for j in i..=len {
            f("at", &[i, j])?;
        }
    }
    Ok(())
}

fn variants(rq: &Rq) -> Vec<(&'static str, Rq)> {
    let mut v = vec![];
    for (n, name) in [(1, "byte by byte"), (2, "two bytes each"), (3, "three bytes each"), (7, "seven bytes each"), (64, "64 bytes each"), (1000, "1000 bytes each")] {
        let r = rq.clone().split_every(n);
        v.push((name, r.clone()));
        v.push((name, with_pauses(&r)));
        v.push((name, with_empty_pieces(&r)));
    }
    v
}

fn a04(cx: &mut Cx) {
    sys::fix_clock(Some((T0 + 60, 0)));
    let c = Cred::default();
    let fx = Fixture::new(&[&c]);
    let thorough = cx.thorough;
    // splits
    for layout in layouts(thorough) {
        for (op, base) in [("upload", put()), ("part", part())] {
            let (rq, _, seed) = signed(&base, &c, &layout);
            let body = rq.body_bytes();
            let want = decode(&c, &seed, &body);
            for first in 0..=body.len() {
                // one case per first cut
                cx.case(
                    || format!("{op}: {} {:?}, split at {first} and every later position", sized(&layout), layout.first().map(|l| String::from_utf8_lossy(&l[..l.len().min(8)]).into_owned())),
                    |cx| {
                        ensure!(matches!(&want, Decoded::Valid(d) if *d == layout.concat()), "harness: {want:?}");
                        judge(cx, &fx, &rq.clone().split(&[first]), &want, &|| format!("split at {first}"))?;
                        cx.state(&(op, &layout, first));
                        let step = if op == "part" && !thorough { 5 } else { 1 };
                        for second in (first..=body.len()).step_by(step) {
                            cx.state(&(op, &layout, first, second));
                            judge(cx, &fx, &rq.clone().split(&[first, second]), &want, &|| format!("split at {first} and {second}"))?;
                        }
                        Ok(())
                    },
                );
            }
            cx.case(
                || format!("{op}: {}, many pieces", sized(&layout)),
                |cx| {
                    for (n, r) in variants(&rq) {
                        cx.state(&(op, &layout, n));
                        judge(cx, &fx, &r, &want, &|| format!("{n}, {} pieces", r.body.len()))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // large chunks
    for sizes in [vec![65536, 1024], vec![8192, 8192, 1], vec![65535], vec![65537, 65536], vec![1 << 20, 3], vec![3_000_001], vec![10; 40], vec![1; 300], vec![100; 1001], vec![4095, 4096, 4097], vec![15, 16, 17, 255, 256, 257]] {
        cx.case(
            || format!("{} chunks of {:?} bytes", sizes.len(), &sizes[..sizes.len().min(8)]),
            |cx| {
                let layout: Vec<Vec<u8>> = sizes.iter().enumerate().map(|(i, &n)| content(i as u8, n)).collect();
                let (rq, p, seed) = signed(&put(), &c, &layout);
                let want = decode(&c, &seed, &rq.body_bytes());
                ensure!(matches!(want, Decoded::Valid(_)), "harness");
                let len = rq.body_bytes().len();
                // around every structural position
                let mut at = vec![];
                let mut o = 0;
                for (i, x) in p.iter().enumerate() {
                    if i > 8 && i + 3 < p.len() {
                        o += x.bytes().len();
                        continue;
                    }
                    let head = x.bytes().len() - x.data.len() - 2;
                    for q in [o, o + head, o + head + x.data.len(), o + x.bytes().len()] {
                        at.extend((q.saturating_sub(3)..=q + 3).filter(|&q| q <= len));
                    }
                    o += x.bytes().len();
                }
                for &i in &at {
                    for &j in at.iter().filter(|&&j| j >= i) {
                        // (many chunks: one split)
                        let skip = if p.len() > 20 { i != j } else { len >= 200_000 && (i / 8) % 3 != (j / 8) % 3 };
                        if !skip {
                            judge(cx, &fx, &rq.clone().split(&[i, j]), &want, &|| format!("split at {i} and {j}"))?;
                        }
                    }
                }
                for n in [1000, 4096, 8192, 16384, 65536, 65537] {
                    judge(cx, &fx, &rq.clone().split_every(n), &want, &|| format!("{n} bytes each"))?;
                }
                cx.state(&sizes);
                Ok(())
            },
        );
    }
    // truncated, altered
    for layout in layouts(thorough) {
        let (rq, _, seed) = signed(&put(), &c, &layout);
        let body = rq.body_bytes();
        for end in 0..body.len() {
            cx.case(
                || format!("{}, truncated after {end} of {} bytes", sized(&layout), body.len()),
                |cx| {
                    let cut = replace(&rq, &body[..end]);
                    for r in [cut.clone(), aborted(&cut)] {
                        judge(cx, &fx, &r, &Decoded::Invalid, &|| format!("truncated after {end} bytes"))?;
                    }
                    // the announced length remains
                    let mut r = cut.clone();
                    r.set("content-length", body.len().to_string());
                    judge(cx, &fx, &r, &Decoded::Invalid, &|| format!("truncated after {end} bytes"))?;
                    for i in 0..=end {
                        let r = cut.clone().split(&[i]);
                        for r in [aborted(&r), r] {
                            judge(cx, &fx, &r, &Decoded::Invalid, &|| format!("truncated after {end} bytes, split at {i}"))?;
                        }
                        cx.state(&(&layout, end, i));
                    }
                    Ok(())
                },
            );
        }
        for at in 0..=body.len() {
            cx.case(
                || format!("{}, altered at {at} of {} bytes", sized(&layout), body.len()),
                |cx| {
                    let mut alts: Vec<Vec<u8>> = vec![];
                    for x in 0..=255u8 {
                        if !thorough && !b"\r\n;=0159afAFgz \0\xff+-x".contains(&x) && body.get(at).map_or(true, |b| x != b ^ 1 && x != b.wrapping_add(1) && x != b ^ 0x20) {
                            continue;
                        }
                        let mut v = body.clone();
                        v.insert(at, x);
                        alts.push(v);
                        if at < body.len() && body[at] != x {
                            let mut v = body.clone();
                            v[at] = x;
                            alts.push(v);
                        }
                    }
                    for n in 1..=3 {
                        if at + n <= body.len() {
                            let mut v = body.clone();
                            v.drain(at..at + n);
                            alts.push(v);
                            let mut v = body.clone();
                            let d = v[at..at + n].to_vec();
                            v.splice(at..at, d);
                            alts.push(v);
                        }
                    }
                    for a in alts {
                        let want = decode(&c, &seed, &a);
                        let r = replace(&rq, &a);
                        cx.state(&a);
                        judge(cx, &fx, &r, &want, &|| format!("altered to {}", String::from_utf8_lossy(&a).escape_debug()))?;
                        let r = r.split(&[at.saturating_sub(1), at + 1]);
                        judge(cx, &fx, &r, &want, &|| format!("altered to {} and split", String::from_utf8_lossy(&a).escape_debug()))?;
                    }
                    Ok(())
                },
            );
        }
    }
    rearranged(cx, &c, &fx);
    bodies_of_other_operations(cx, &c, &fx);
    on_disk(cx, &c);
}

/// chunks out of which bodies are assembled
fn alphabet(c: &Cred) -> (Rq, String, Vec<(&'static str, Piece)>) {
    let (a, b) = (b"first".to_vec(), b"other".to_vec());
    let (rq, p, seed) = signed(&put(), c, &[a.clone(), b.clone()]);
    let later = Cred { date: "20130524T000001Z".into(), ..c.clone() };
    let (_, q, _) = signed(&put(), &later, &[a.clone(), b.clone()]);
    let (_, e, seed_e) = signed(&put(), c, &[]);
    let piece = |d: &[u8], s: String| Piece { size: format!("{:x}", d.len()), sig: s, data: d.to_vec() };
    let after = |n: usize, d: &[u8]| piece(d, sig::chunk_signature(c, &p[n].sig, d));
    let _ = seed_e;
    let v = vec![
        ("A", p[0].clone()),
        ("B", p[1].clone()),
        ("end", p[2].clone()),
        // of an upload with another time
        ("A of another upload", q[0].clone()),
        ("end of another upload", q[2].clone()),
        // of an upload with another length
        ("end of an empty upload", e[0].clone()),
        ("end after A", after(0, b"")),
        ("A with the signature of B", Piece { sig: p[1].sig.clone(), ..p[0].clone() }),
        ("end with the seed signature", piece(b"", seed.clone())),
        ("A with an empty signature", piece(&a, "0".repeat(64))),
        ("A with a signature for nothing", piece(&a, sig::chunk_signature(c, &seed, b""))),
        ("end bound to the seed", piece(b"", sig::chunk_signature(c, &seed, b""))),
    ];
    (rq, seed, v)
}

fn rearranged(cx: &mut Cx, c: &Cred, fx: &Fixture) {
    let (rq, seed, alpha) = alphabet(c);
    let depth = if cx.thorough { 5 } else { 4 };
    let n = alpha.len();
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut all = seqs.clone();
    for _ in 0..depth {
        seqs = seqs.iter().flat_map(|s| (0..n).map(move |i| [&s[..], &[i]].concat())).collect();
        all.extend(seqs.clone());
    }
    for group in all.chunks(500) {
        cx.case(
            || format!("sequences of chunks from {:?} on", group[0].iter().map(|&i| alpha[i].0).collect::<Vec<_>>()),
            |cx| {
                for s in group {
                    let body: Vec<u8> = s.iter().flat_map(|&i| alpha[i].1.bytes()).collect();
                    let want = decode(c, &seed, &body);
                    if matches!(want, Decoded::Valid(_)) {
                        cx.add("valid sequences", 1);
                    }
                    let r = replace(&rq, &body);
                    let cuts: Vec<usize> = s.iter().scan(0, |o, &i| { *o += alpha[i].1.bytes().len(); Some(*o) }).collect();
                    let what = || format!("chunks {:?}", s.iter().map(|&i| alpha[i].0).collect::<Vec<_>>());
                    cx.state(s);
                    judge(cx, fx, &r, &want, &what)?;
                    // a transport piece for each chunk
                    judge(cx, fx, &r.split(&cuts), &want, &what)?;
                }
                Ok(())
            },
        );
    }
    // other sizes with the same data
    cx.case(
        || "sizes that do not fit, data that moves between chunks".into(),
        |cx| {
            let (_, p, _) = signed(&put(), c, &[b"first".to_vec(), b"other".to_vec()]);
            for i in 0..p.len() {
                for size in ["", "0", "1", "4", "5", "6", "a", "00", "05", "005", "0x5", "+5", "-5", " 5", "5 ", "5.0", "5z", "5;x=1", "05zz", "00000005", "000000005", "100000005", "ffffffff", "fffffffff", "7fffffffffffffff", "ffffffffffffffff", "10000000000000005"] {
                    let mut q = p.clone();
                    q[i].size = size.into();
                    let body = sig::join(&q);
                    let want = decode(c, &seed, &body);
                    judge(cx, fx, &replace(&rq, &body), &want, &|| format!("size {size:?} of chunk {i}"))?;
                    cx.state(&(i, size));
                }
            }
            // all data in the first or the second chunk, under the signatures of the two
            let all = b"firstother";
            for k in 0..=all.len() {
                let mut q = p.clone();
                (q[0].data, q[1].data) = (all[..k].to_vec(), all[k..].to_vec());
                for x in &mut q {
                    x.size = format!("{:x}", x.data.len());
                }
                let body = sig::join(&q);
                let want = decode(c, &seed, &body);
                judge(cx, fx, &replace(&rq, &body), &want, &|| format!("{k} bytes in the first chunk"))?;
            }
            // line ends
            for e in ["", "\n", "\r", "\n\r", "\r\n\r\n", " \r\n", "xx"] {
                for at in 0..6 {
                    let mut body = vec![];
                    for (i, x) in p.iter().enumerate() {
                        let (h, t) = (if at == 2 * i { e } else { "\r\n" }, if at == 2 * i + 1 { e } else { "\r\n" });
                        body.extend_from_slice(format!("{};chunk-signature={}{h}", x.size, x.sig).as_bytes());
                        body.extend_from_slice(&x.data);
                        body.extend_from_slice(t.as_bytes());
                    }
                    let want = decode(c, &seed, &body);
                    judge(cx, fx, &replace(&rq, &body), &want, &|| format!("line end {e:?} at {at}"))?;
                    cx.state(&(e, at));
                }
            }
            // what follows the end
            for x in ["x", "\r\n", "\r", "0", "0;chunk-signature=", "x-amz-trailer:1\r\n\r\n"] {
                let mut body = sig::join(&p);
                body.extend_from_slice(x.as_bytes());
                let n = body.len();
                for cut in [n, n - x.len(), n - x.len() - 2] {
                    judge(cx, fx, &replace(&rq, &body).split(&[cut]), &Decoded::Invalid, &|| format!("{x:?} after the end, split at {cut}"))?;
                }
            }
            Ok(())
        },
    );
    // plain bodies where chunks are announced, and the reverse
    cx.case(
        || "plain body announced as chunked, and the reverse".into(),
        |cx| {
            for b in ["", "x", "the content", "5\r\nfirst\r\n0\r\n\r\n", "\r\n", "\n"] {
                judge(cx, fx, &replace(&rq, b.as_bytes()), &Decoded::Invalid, &|| format!("body {b:?}"))?;
            }
            let chunked = rq.body_bytes();
            for payload in [Payload::Hash, Payload::Unsigned] {
                let mut r = put().body(&chunked);
                sig::sign(&mut r, c, payload, None);
                judge(cx, fx, &r, &Decoded::Valid(chunked.clone()), &|| format!("{payload:?}"))?;
            }
            Ok(())
        },
    );
}

/// chunk-signed bodies that are not uploads
fn bodies_of_other_operations(cx: &mut Cx, c: &Cred, fx: &Fixture) {
    let complete = "<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>e</ETag></Part></CompleteMultipartUpload>";
    let delete = "<Delete><Object><Key>a</Key></Object><Object><Key>b</Key></Object></Delete>";
    let complete_call = expect(CompleteMultipartUploadRequest {
        bucket: "aaa".into(),
        key: "k".into(),
        upload_id: "u-1".into(),
        multipart_upload: Some(CompletedMultipartUpload {
            parts: Some(vec![CompletedPart { e_tag: Some("e".into()), part_number: Some(1) }]),
        }),
        ..Default::default()
    });
    let object = |k: &str| ObjectIdentifier { key: k.into(), version_id: None };
    let delete_call = expect(DeleteObjectsRequest {
        bucket: "aaa".into(),
        delete: Delete { objects: vec![object("a"), object("b")], quiet: None },
        ..Default::default()
    });
    let table: Vec<(Rq, &str, Call)> = vec![
        (Rq::obj("POST", "aaa", "k").q("uploadId=u-1"), complete, complete_call),
        (Rq::new("POST", "/aaa").q("delete="), delete, delete_call),
    ];
    for (base, xml, want) in table {
        for k in 0..xml.len() {
            cx.case(
                || format!("{} with its body in chunks of {k} and {} bytes", want.op, xml.len() - k),
                |cx| {
                    let chunks: Vec<Vec<u8>> = [&xml[..k], &xml[k..]].iter().filter(|x| !x.is_empty()).map(|x| x.as_bytes().to_vec()).collect();
                    let (rq, _, _) = signed(&base, c, &chunks);
                    let body = rq.body_bytes();
                    for r in [rq.clone(), rq.clone().split_every(50)] {
                        let (rs, calls) = fx.run(&r)?;
                        cx.add("evaluations", 1);
                        ensure!(calls == [want.clone()] && rs.status == 200, "the request is not executed: {} -> {}", calls.iter().map(Call::show).collect::<Vec<_>>().join(", "), rs.show());
                    }
                    for end in (0..body.len()).step_by(if cx.thorough { 1 } else { 7 }) {
                        let (rs, calls) = fx.run(&replace(&rq, &body[..end]))?;
                        cx.add("evaluations", 1);
                        ensure!(calls.is_empty() && rs.status >= 400, "truncated after {end} bytes: {} -> {}", calls.iter().map(Call::show).collect::<Vec<_>>().join(", "), rs.show());
                    }
                    for at in 0..body.len() {
                        let mut b = body.clone();
                        b[at] ^= 1;
                        let (rs, calls) = fx.run(&replace(&rq, &b))?;
                        cx.add("evaluations", 1);
                        ensure!(calls.is_empty() && rs.status >= 400, "altered at {at}: {} -> {}", calls.iter().map(Call::show).collect::<Vec<_>>().join(", "), rs.show());
                    }
                    cx.state(&(want.op, k));
                    Ok(())
                },
            );
        }
    }
}

/// with the file system, the object before and after
fn on_disk(cx: &mut Cx, c: &Cred) {
    let (rq, seed, alpha) = alphabet(c);
    let mut list: Vec<(String, Vec<u8>)> = vec![];
    for i in 0..alpha.len() {
        for j in 0..alpha.len() {
            for k in 0..alpha.len() {
                let s = [i, j, k];
                list.push((format!("{:?}", s.map(|i| alpha[i].0)), s.iter().flat_map(|&i| alpha[i].1.bytes()).collect()));
            }
        }
    }
    let good: Vec<u8> = rq.body_bytes();
    for end in 0..=good.len() {
        list.push((format!("the first {end} bytes"), good[..end].to_vec()));
    }
    for at in 0..good.len() {
        let mut v = good.clone();
        v[at] ^= 0x10;
        list.push((format!("altered at {at}"), v));
    }
    let mut world: Option<(World, S3Service)> = None;
    let mut list: Vec<(String, Vec<u8>, Rq)> = list.into_iter().map(|(n, b)| { let r = replace(&rq, &b).split_every(60); (n, b, r) }).collect();
    // all splits of what is correct
    for at in 1..good.len() {
        list.push((format!("split at {at}"), good.clone(), replace(&rq, &good).split(&[at])));
    }
    for (n, r) in variants(&rq) {
        list.push((format!("{n}, {} pieces", r.body.len()), good.clone(), r));
    }
    for (name, body, sent) in list {
        for old in [None, Some(&b"old content"[..])] {
            cx.case(
                || format!("file system, {}: {name}", if old.is_some() { "existing object" } else { "new object" }),
                |cx| {
                    if world.is_none() {
                        let w = World::new(&cx.fresh_dir());
                        let mut svc = S3Service::new(FileSystem::new(&w.root).expect("root"));
                        let mut a = SimpleAuth::new();
                        a.register(c.access.clone(), c.secret.clone());
                        svc.set_auth(a);
                        let rs = w.call(&Rq::new("PUT", "/aaa"))?;
                        ensure!(rs.status == 200, "bucket: {}", rs.show());
                        world = Some((w, svc));
                    }
                    let (w, svc) = world.as_ref().unwrap();
                    // independent requests that need no signature
                    match old {
                        Some(d) => drop(w.call(&put().h("x-amz-meta-a", "old").body(d))?),
                        None => drop(w.call(&Rq::obj("DELETE", "aaa", "k"))?),
                    }
                    let want = decode(c, &seed, &body);
                    let rs = api::call(svc, &sent)?;
                    cx.add("evaluations", 1);
                    cx.state(&(&name, old));
                    let get = w.call(&Rq::obj("GET", "aaa", "k"))?;
                    let now = (get.status == 200).then(|| get.body.to_vec());
                    match want {
                        Decoded::Invalid => {
                            ensure!(rs.status >= 400, "the body is not valid, but the response is {}", rs.show());
                            ensure!(now.as_deref() == old, "the object is not as before: {}", get.show());
                            ensure!(get.header("x-amz-meta-a").as_deref() == old.map(|_| "old"), "the metadata is not as before: {}", get.show());
                        }
                        Decoded::Valid(d) => {
                            ensure!(rs.status == 200, "the upload is refused: {}", rs.show());
                            ensure!(now == Some(d), "the object does not have its content: {}", get.show());
                        }
                        Decoded::Either(_) => {}
                    }
                    Ok(())
                },
            );
        }
    }
    if let Some((w, _)) = world {
        remove_tree(&w.dir);
    }
}

// --- A05 ---

/// a signed form, as it is transferred
#[derive(Clone, Debug)]
struct Fm {
    boundary: String,
    /// the Content-Type of the request
    mime: String,
    fields: Vec<(String, String)>,
    /// the header lines of the file part
    file_head: Vec<String>,
    file: Vec<u8>,
    /// between the file and the end: \r\n--boundary
    close: String,
    epilogue: String,
    preamble: String,
}

impl Fm {
    fn new(c: &Cred, boundary: &str, fields: &[(&str, &str)], file: &[u8]) -> Fm {
        let all: Vec<(String, String)> = fields.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        // a policy that never expires and allows all fields
        let mut p = sig::Form::new("k", b"");
        p.fields = all;
        if !p.fields.iter().any(|x| x.0 == "key") {
            p.fields.push(("key".into(), "k".into()));
        }
        let all = p.sign_open(c, None).fields;
        Fm {
            boundary: boundary.into(),
            mime: format!("multipart/form-data; boundary={boundary}"),
            fields: all,
            file_head: vec![
                "Content-Disposition: form-data; name=\"file\"; filename=\"f.txt\"".into(),
                "Content-Type: text/plain".into(),
            ],
            file: file.to_vec(),
            close: "--".into(),
            epilogue: "\r\n".into(),
            preamble: String::new(),
        }
    }
    /// up to the content of the file
    fn head(&self) -> Vec<u8> {
        let mut s = self.preamble.clone();
        for (n, v) in &self.fields {
            s.push_str(&format!("--{}\r\nContent-Disposition: form-data; name=\"{n}\"\r\n\r\n{v}\r\n", self.boundary));
        }
        s.push_str(&format!("--{}\r\n{}\r\n\r\n", self.boundary, self.file_head.join("\r\n")));
        s.into_bytes()
    }
    fn bytes(&self) -> Vec<u8> {
        let mut v = self.head();
        v.extend_from_slice(&self.file);
        v.extend_from_slice(format!("\r\n--{}{}{}", self.boundary, self.close, self.epilogue).as_bytes());
        v
    }
    fn rq(&self) -> Rq {
        let mut rq = Rq::new("POST", "/aaa").h("content-type", &self.mime);
        sig::set_body(&mut rq, &self.bytes());
        rq
    }
    /// the length that makes the form complete
    fn complete_len(&self) -> usize {
        self.bytes().len() - self.epilogue.len()
    }
}

/// may a part have this content
fn representable(boundary: &str, content: &[u8]) -> bool {
    let d = format!("\r\n--{boundary}");
    let all = [content, d.as_bytes()].concat();
    let first = all.windows(d.len()).position(|w| w == d.as_bytes());
    first == Some(content.len()) && !content.starts_with(&d.as_bytes()[2..])
}

fn form_call(f: &Fm) -> Call {
    let get = |n: &str| f.fields.iter().find(|x| x.0.eq_ignore_ascii_case(n)).map(|x| x.1.clone());
    let mut c = expect(PutObjectRequest {
        bucket: "aaa".into(),
        key: get("key").unwrap_or_default(),
        acl: get("acl"),
        cache_control: get("cache-control"),
        content_disposition: get("content-disposition"),
        content_encoding: get("content-encoding"),
        content_type: get("content-type"),
        expires: get("expires"),
        tagging: get("tagging"),
        storage_class: get("x-amz-storage-class"),
        website_redirect_location: get("x-amz-website-redirect-location"),
        server_side_encryption: get("x-amz-server-side-encryption"),
        ssekms_key_id: get("x-amz-server-side-encryption-aws-kms-key-id"),
        ssekms_encryption_context: get("x-amz-server-side-encryption-context"),
        sse_customer_algorithm: get("x-amz-server-side-encryption-customer-algorithm"),
        sse_customer_key: get("x-amz-server-side-encryption-customer-key"),
        sse_customer_key_md5: get("x-amz-server-side-encryption-customer-key-MD5"),
        ..Default::default()
    });
    let meta: std::collections::BTreeMap<String, String> = f
        .fields
        .iter()
        .filter_map(|(n, v)| Some((n.to_ascii_lowercase().strip_prefix("x-amz-meta-")?.to_owned(), v.clone())))
        .collect();
    c.meta = (!meta.is_empty()).then_some(meta);
    c.body = Some(Ok(f.file.clone()));
    c
}

/// the form is stored as it is
fn stored(cx: &mut Cx, fx: &Fixture, rq: &Rq, want: &Call, what: &dyn Fn() -> String) -> R {
    cx.add("evaluations", 1);
    let (rs, calls) = fx.run(rq).map_err(|e| format!("{}: {e}", what()))?;
    cx.outcome(&(rs.status, rs.code(), calls.len()));
    ensure!(
        calls.len() == 1 && calls[0] == *want && rs.status < 300,
        "{}: the form is not stored as it is: {} instead of {}, response {}, request {}",
        what(),
        calls.iter().map(Call::show).collect::<Vec<_>>().join(", "),
        want.show(),
        rs.show(),
        rq.show()
    );
    Ok(())
}

fn refused(cx: &mut Cx, fx: &Fixture, rq: &Rq, what: &dyn Fn() -> String) -> R {
    cx.add("evaluations", 1);
    let (rs, calls) = fx.run(rq).map_err(|e| format!("{}: {e}", what()))?;
    cx.outcome(&(rs.status, rs.code(), calls.len()));
    let effect: Vec<String> = calls.iter().filter(|c| c.effective()).map(Call::show).collect();
    ensure!(effect.is_empty() && rs.status >= 400, "{}: an incomplete form takes effect: {}, response {}", what(), effect.join(", "), rs.show());
    Ok(())
}

/// forms with every way to fill their fields
fn sample_forms(c: &Cred) -> Vec<(&'static str, Fm)> {
    let long = "x".repeat(70);
    vec![
        ("plain", Fm::new(c, "AB", &[("key", "k")], b"content")),
        ("empty file", Fm::new(c, "AB", &[("key", "k")], b"")),
        ("look-alikes", Fm::new(c, "AB", &[("key", "a/b c"), ("x-amz-meta-m", "v\r\nw"), ("acl", "--A")], b"\r\n--A\r\r\n-\r\n--\r\n\r\n--BA\r\n--A-B-")),
        ("dashes", Fm::new(c, "--", &[("key", "k"), ("Content-Type", "text/html")], b"-\r\n---\r-\n--\r\n-")),
        ("long boundary", Fm::new(c, &long, &[("key", "\u{fc}")], b"\r\n--xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\r\n")),
    ]
}

fn a05(cx: &mut Cx) {
    sys::fix_clock(Some((T0 + 60, 0)));
    let c = Cred::default();
    let fx = Fixture::new(&[&c]);
    let thorough = cx.thorough;
    // contents out of the characters of the delimiter
    for (boundary, letters) in [("AB", &b"\r\n-ABx"[..]), ("-", b"\r\n-x")] {
        let depth = match (thorough, letters.len()) {
            (false, 6) => 5,
            (false, _) => 6,
            (true, 6) => 6,
            (true, _) => 8,
        };
        let mut words: Vec<Vec<u8>> = vec![vec![]];
        let mut last = words.clone();
        for _ in 0..depth {
            last = last.iter().flat_map(|w| letters.iter().map(move |&l| [&w[..], &[l]].concat())).collect();
            words.extend(last.clone());
        }
        let base = Fm::new(&c, boundary, &[("key", "k")], b"");
        let head = base.head().len();
        for group in words.chunks(200) {
            cx.case(
                || format!("boundary {boundary:?}: contents from {:?} on", String::from_utf8_lossy(&group[0])),
                |cx| {
                    for w in group {
                        if !representable(boundary, w) {
                            cx.add("not representable", 1);
                            continue;
                        }
                        // the file at the end, and with data before it
                        for prefix in [&b""[..], b"0123456789"] {
                            let mut f = base.clone();
                            f.file = [prefix, w].concat();
                            let want = form_call(&f);
                            let rq = f.rq();
                            let len = rq.body_bytes().len();
                            let what = |at: &str| format!("content {:?} {at}", String::from_utf8_lossy(&f.file));
                            stored(cx, &fx, &rq, &want, &|| what("in one piece"))?;
                            for i in head..len {
                                stored(cx, &fx, &rq.clone().split(&[i]), &want, &|| what(&format!("split at {i}")))?;
                            }
                            let cuts: Vec<usize> = (head..len).collect();
                            stored(cx, &fx, &rq.clone().split(&cuts), &want, &|| what("byte by byte"))?;
                            if thorough && w.len() <= 5 && prefix.is_empty() {
                                for i in head..len {
                                    for j in i + 1..len {
                                        stored(cx, &fx, &rq.clone().split(&[i, j]), &want, &|| what(&format!("split at {i} and {j}")))?;
                                    }
                                }
                            }
                            cx.state(&(boundary, w, prefix));
                        }
                    }
                    Ok(())
                },
            );
        }
        // values of fields
        let depth = if thorough { 5 } else { 4 };
        let short: Vec<&Vec<u8>> = words.iter().filter(|w| w.len() <= depth).collect();
        for group in short.chunks(100) {
            cx.case(
                || format!("boundary {boundary:?}: values from {:?} on", String::from_utf8_lossy(group[0])),
                |cx| {
                    for w in group {
                        let w = String::from_utf8((*w).clone()).expect("ascii");
                        // no line of it is a boundary
                        if !representable(boundary, w.as_bytes()) || w.is_empty() {
                            continue;
                        }
                        for name in ["key", "x-amz-meta-m", "acl"] {
                            let f = Fm::new(&c, boundary, &[(name, &w)], b"content");
                            let want = form_call(&f);
                            let rq = f.rq();
                            let what = |at: &str| format!("{name}: {w:?} {at}");
                            stored(cx, &fx, &rq, &want, &|| what("in one piece"))?;
                            let at = rq.body_bytes().windows(w.len()).position(|x| x == w.as_bytes()).unwrap_or(0);
                            for i in at.saturating_sub(2)..at + w.len() + 6 {
                                stored(cx, &fx, &rq.clone().split(&[i]), &want, &|| what(&format!("split at {i}")))?;
                            }
                            cx.state(&(boundary, &w, name));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // all splits
    for (i, (name, f)) in sample_forms(&c).into_iter().enumerate() {
        let want = form_call(&f);
        let rq = f.rq();
        let len = rq.body_bytes().len();
        for first in 0..=len {
            cx.case(
                || format!("form {name}: split at {first} and every later position"),
                |cx| {
                    stored(cx, &fx, &rq.clone().split(&[first]), &want, &|| format!("split at {first}"))?;
                    cx.state(&(name, first));
                    let step = if thorough || i == 2 { 1 } else { 7 };
                    for second in (first..=len).step_by(step) {
                        cx.state(&(name, first, second));
                        stored(cx, &fx, &rq.clone().split(&[first, second]), &want, &|| format!("split at {first} and {second}"))?;
                    }
                    Ok(())
                },
            );
        }
        cx.case(
            || format!("form {name}: many pieces"),
            |cx| {
                for (n, r) in variants(&rq) {
                    stored(cx, &fx, &r, &want, &|| format!("{n}, {} pieces", r.body.len()))?;
                    cx.state(&(name, n));
                }
                Ok(())
            },
        );
        // truncations
        let body = rq.body_bytes();
        let complete = f.complete_len();
        for end in 0..complete {
            cx.case(
                || format!("form {name}: truncated after {end} of {len} bytes"),
                |cx| {
                    let cut = replace(&rq, &body[..end]);
                    let what = || format!("truncated after {end} bytes");
                    refused(cx, &fx, &cut, &what)?;
                    refused(cx, &fx, &aborted(&cut), &what)?;
                    let mut r = cut.clone();
                    r.set("content-length", len.to_string());
                    refused(cx, &fx, &r, &what)?;
                    let step = if thorough || end + 40 > len { 1 } else { 11 };
                    for i in (0..=end).rev().step_by(step) {
                        let r = cut.clone().split(&[i]);
                        refused(cx, &fx, &aborted(&r), &what)?;
                        refused(cx, &fx, &with_pauses(&r), &what)?;
                        cx.state(&(name, end, i));
                    }
                    Ok(())
                },
            );
        }
    }
    large_files(cx, &c, &fx);
    form_fields(cx, &c, &fx);
    form_shapes(cx, &c, &fx);
    forms_on_disk(cx, &c);
    forms_unprintable(cx, &c);
}

fn large_files(cx: &mut Cx, c: &Cred, fx: &Fixture) {
    for n in [1usize, 100, 4095, 4096, 4097, 65535, 65536, 65537, 300_000, 1_048_577, 3_000_000] {
        cx.case(
            || format!("a file of {n} bytes"),
            |cx| {
                let mut f = Fm::new(c, "9431149156168", &[("key", "k")], &content(3, n));
                for tail in [&b""[..], b"\r", b"\r\n", b"\r\n--943", b"\r\n--943114915616"] {
                    f.file = content(3, n);
                    f.file.extend_from_slice(tail);
                    let want = form_call(&f);
                    let rq = f.rq();
                    let (head, len) = (f.head().len(), rq.body_bytes().len());
                    for piece in [1000, 4096, 8192, 16384, 65536] {
                        stored(cx, fx, &rq.clone().split_every(piece), &want, &|| format!("{piece} bytes each"))?;
                    }
                    for i in (head..head + 5).chain(len.saturating_sub(40)..len) {
                        stored(cx, fx, &rq.clone().split(&[i]), &want, &|| format!("split at {i}"))?;
                    }
                }
                cx.state(&n);
                Ok(())
            },
        );
    }
    // every byte
    cx.case(
        || "a file with every pair of bytes".into(),
        |cx| {
            let mut v = vec![];
            for a in 0..=255u8 {
                for b in 0..=255u8 {
                    v.extend([a, b]);
                }
            }
            let f = Fm::new(c, "AB", &[("key", "k")], &v);
            let want = form_call(&f);
            for n in [0usize, 100, 4096, 8191, 65536] {
                let r = if n == 0 { f.rq() } else { f.rq().split_every(n) };
                stored(cx, fx, &r, &want, &|| format!("{n} bytes each"))?;
            }
            Ok(())
        },
    );
}

const FIELDS: &[&str] = &[
    "key", "acl", "cache-control", "content-type", "content-disposition", "content-encoding", "expires", "tagging",
    "x-amz-storage-class", "x-amz-website-redirect-location", "x-amz-server-side-encryption",
    "x-amz-server-side-encryption-aws-kms-key-id", "x-amz-server-side-encryption-context",
    "x-amz-server-side-encryption-customer-algorithm", "x-amz-server-side-encryption-customer-key",
    "x-amz-server-side-encryption-customer-key-MD5", "x-amz-meta-a", "x-amz-meta-Tag", "x-amz-meta-x-amz-meta-b",
];

fn form_fields(cx: &mut Cx, c: &Cred, fx: &Fixture) {
    let values = ["v", "a b", " ", " a ", "%41%2F", "a+b", "\u{e4}\u{20ac}\u{1f600}", "a=b&c=d", "\"q\"", "'", "<x>", "a;b", "--", "${x}", "a\tb", "0", "--AB--", "name=\"key\"", "\r\n", "x\r\n\r\ny", "\n", "a\nb", "a\n\nb", "a\r", "\rb", "a\n\r\nb"];
    for name in FIELDS {
        cx.case(
            || format!("field {name} with every value"),
            |cx| {
                for v in values {
                    if v == "--AB--" {
                        continue;
                    }
                    for n in [name.to_string(), name.to_lowercase(), name.to_uppercase(), name.replace("content-", "Content-")] {
                        let f = Fm::new(c, "AB", &[(n.as_str(), v), ("key", "k")][..if *name == "key" { 1 } else { 2 }], b"content");
                        let mut f = f;
                        if *name == "key" {
                            f.fields.retain(|x| x.0 == n || x.0 != "key");
                        }
                        let want = form_call(&f);
                        stored(cx, fx, &f.rq(), &want, &|| format!("{n}: {v:?}"))?;
                        cx.state(&(n, v));
                    }
                }
                Ok(())
            },
        );
        for other in FIELDS {
            if name == other {
                continue;
            }
            cx.case(
                || format!("fields {name} and {other}"),
                |cx| {
                    let f = Fm::new(c, "AB", &[(name, "first"), (other, "second")], b"content");
                    let want = form_call(&f);
                    stored(cx, fx, &f.rq(), &want, &|| "in order".into())?;
                    // among the others
                    let mut g = f.clone();
                    g.fields.rotate_left(1);
                    stored(cx, fx, &g.rq(), &want, &|| "one at the end".into())?;
                    cx.state(&(name, other));
                    Ok(())
                },
            );
        }
    }
    // many fields, and long ones (S3 allows 20 kB without the file)
    for n in [9usize, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 200] {
        cx.case(
            || format!("{n} fields"),
            |cx| {
                let mut fields = vec![("key".to_owned(), "k".to_owned())];
                fields.extend((1..n).map(|i| (format!("x-amz-meta-{}", i * 7 % 1000), format!("value {i}"))));
                fields.push(("acl".into(), "private".into()));
                let v: Vec<(&str, &str)> = fields.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
                let mut f = Fm::new(c, "AB", &v, b"content");
                let want = form_call(&f);
                for i in 0..4 {
                    stored(cx, fx, &f.rq(), &want, &|| format!("rotated {i} times"))?;
                    stored(cx, fx, &f.rq().split_every(1000), &want, &|| format!("rotated {i} times, 1000 bytes each"))?;
                    let by = f.fields.len() / 4;
                    f.fields.rotate_left(by);
                }
                cx.state(&n);
                Ok(())
            },
        );
    }
    for n in [255usize, 256, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16_384, 18_000] {
        cx.case(
            || format!("a field of {n} bytes"),
            |cx| {
                for (name, value) in [("x-amz-meta-a", "v".repeat(n)), ("x-amz-meta-a", "\u{e4} ".repeat(n / 3) + "b"), ("cache-control", "w".repeat(n)), ("x-ignore-a", "x".repeat(n))] {
                    let mut f = Fm::new(c, "AB", &[("key", "k"), (name, &value), ("acl", "private")], b"content");
                    let want = form_call(&f);
                    stored(cx, fx, &f.rq(), &want, &|| format!("{name} in one piece"))?;
                    for piece in [100, 1000, 4096, 8192] {
                        stored(cx, fx, &f.rq().split_every(piece), &want, &|| format!("{name}, {piece} bytes each"))?;
                    }
                    f.fields.rotate_left(2);
                    stored(cx, fx, &f.rq(), &want, &|| format!("{name} in other order"))?;
                }
                cx.state(&n);
                Ok(())
            },
        );
    }
    cx.case(
        || "all fields".into(),
        |cx| {
            let v: Vec<(String, String)> = FIELDS.iter().enumerate().map(|(i, n)| (n.to_string(), format!("value {i}"))).collect();
            let v: Vec<(&str, &str)> = v.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            let mut f = Fm::new(c, "AB", &v, b"content");
            let want = form_call(&f);
            for i in 0..f.fields.len() {
                f.fields.rotate_left(1);
                stored(cx, fx, &f.rq(), &want, &|| format!("rotated by {}", i + 1))?;
            }
            f.fields.reverse();
            stored(cx, fx, &f.rq(), &want, &|| "reversed".into())
        },
    );
    // headers of the request do not describe the object
    cx.case(
        || "fields that do not exist, no key".into(),
        |cx| {
            let f = Fm::new(c, "AB", &[("key", "k"), ("x-ignore-a", "b"), ("success_action_status", "200"), ("submit", "Upload"), ("x", "")], b"content");
            stored(cx, fx, &f.rq(), &form_call(&f), &|| "other fields".into())?;
            let mut f = Fm::new(c, "AB", &[("key", "k")], b"content");
            f.fields.retain(|x| x.0 != "key");
            refused(cx, fx, &f.rq(), &|| "no key".into())?;
            // after the file, fields are ignored
            for extra in ["key", "x-amz-meta-a", "acl"] {
                let f = Fm::new(c, "AB", &[("key", "k")], b"content");
                let mut b = f.bytes();
                b.truncate(b.len() - 4);
                b.extend_from_slice(format!("\r\nContent-Disposition: form-data; name=\"{extra}\"\r\n\r\nlate\r\n--AB--\r\n").as_bytes());
                let r = replace(&f.rq(), &b);
                for cut in [b.len(), f.head().len() + 3, f.complete_len(), b.len() - 5] {
                    stored(cx, fx, &r.clone().split(&[cut]), &form_call(&f), &|| format!("{extra} after the file, split at {cut}"))?;
                }
                // without the end
                refused(cx, fx, &replace(&r, &b[..b.len() - 4]), &|| format!("{extra} after the file, not closed"))?;
            }
            Ok(())
        },
    );
}

/// the ways to write the form
fn form_shapes(cx: &mut Cx, c: &Cred, fx: &Fixture) {
    for b in ["a", "0", "AB", "----WebKitFormBoundary7MA4YWxkTrZu0gW", "------------------------d74496d66958873e", "_x.y-z", "a'b", "a+b", "+", "'", &"z".repeat(69), &"z".repeat(70)] {
        cx.case(
            || format!("boundary {b}"),
            |cx| {
                for file in [&b"content"[..], b"", b"\r\n", b"\r\n--", b"--", b"\n"] {
                    let mut f = Fm::new(c, b, &[("key", "k")], file);
                    if !representable(b, file) {
                        continue;
                    }
                    let want = form_call(&f);
                    for m in [
                        format!("multipart/form-data; boundary={b}"),
                        format!("multipart/form-data;boundary={b}"),
                        format!("multipart/form-data; boundary=\"{b}\""),
                        format!("Multipart/Form-Data; boundary={b}"),
                        format!("multipart/form-data; charset=utf-8; boundary={b}"),
                        format!("multipart/form-data; boundary={b}; charset=utf-8"),
                    ] {
                        f.mime = m.clone();
                        stored(cx, fx, &f.rq(), &want, &|| m.clone())?;
                        cx.state(&(m, file));
                    }
                }
                Ok(())
            },
        );
    }
    for b in ["a b", "a:b", "a/b", "a=b", "a?b", "(ab)", "a,b"] {
        cx.case(
            || format!("quoted boundary {b}"),
            |cx| {
                let mut f = Fm::new(c, b, &[("key", "k")], b"\r\n--a\r\n");
                f.mime = format!("multipart/form-data; boundary=\"{b}\"");
                stored(cx, fx, &f.rq(), &form_call(&f), &|| f.mime.clone())
            },
        );
    }
    let cd = "Content-Disposition: form-data; name=\"file\"";
    let heads: Vec<Vec<String>> = vec![
        vec![format!("{cd}; filename=\"f\"")],
        vec![format!("{cd}; filename=\"\"")],
        vec![cd.to_string()],
        vec![cd.to_string(), "Content-Type: text/plain".into()],
        vec!["Content-Type: text/plain".into(), format!("{cd}; filename=\"f\"")],
        vec![format!("{cd}; filename=\"a b.txt\""), "Content-Type: application/octet-stream".into()],
        vec![format!("{cd}; filename=\"\u{fc}.txt\""), "Content-Type: image/png".into()],
        vec![format!("{cd}; filename=\"C:\\x\\y\""), "Content-Type: text/plain; charset=utf-8".into()],
        vec![format!("{cd}; filename=\"a;b=c\""), "Content-Type: x/y".into()],
        vec![format!("{cd}; filename=\"f\""), "Content-Type: x/y".into(), "Content-Transfer-Encoding: binary".into()],
        vec![format!("{cd}; filename=\"f\""), "Content-Length: 7".into(), "Content-Type: x/y".into(), "X-A: b".into()],
        vec![format!("{}; filename=\"f\"", cd.to_lowercase()), "content-type: text/plain".into()],
        vec![format!("{}; filename=\"f\"", cd.replace("Content-Disposition", "CONTENT-DISPOSITION")), "CONTENT-TYPE: text/plain".into()],
        vec![format!("{}; filename=\"f\"", cd.replace(": ", ":")), "Content-Type:text/plain".into()],
    ];
    for h in heads {
        cx.case(
            || format!("file part with {h:?}"),
            |cx| {
                for file in [&b"content"[..], b"", b"\r\n", b": \r\n\r\n", b"\r\n--A"] {
                    let mut f = Fm::new(c, "AB", &[("key", "k")], file);
                    f.file_head = h.clone();
                    let want = form_call(&f);
                    stored(cx, fx, &f.rq(), &want, &|| format!("content {:?}", String::from_utf8_lossy(file)))?;
                    let head = f.head().len();
                    for i in head - h.join("\r\n").len() - 4..f.bytes().len() {
                        stored(cx, fx, &f.rq().split(&[i]), &want, &|| format!("content {:?}, split at {i}", String::from_utf8_lossy(file)))?;
                    }
                    cx.state(&(&h, file));
                }
                Ok(())
            },
        );
    }
    cx.case(
        || "text around the form".into(),
        |cx| {
            for (pre, post) in [("\r\n", "\r\n"), ("", ""), ("", "\r\n\r\n"), ("", "\r\nepilogue"), ("", " \r\n"), ("", "\r\n--AB--\r\n"), ("\r\n", "x")] {
                let mut f = Fm::new(c, "AB", &[("key", "k")], b"content\r\n-");
                f.preamble = pre.into();
                f.epilogue = post.into();
                let want = form_call(&f);
                stored(cx, fx, &f.rq(), &want, &|| format!("{pre:?} before and {post:?} after"))?;
                for n in [1, 2, 3, 5] {
                    stored(cx, fx, &f.rq().split_every(n), &want, &|| format!("{pre:?} before and {post:?} after, {n} bytes each"))?;
                }
            }
            // delimiters that do not end the form
            for close in ["", "\r\n", "-", "- -", "x--", " --", "\r\n--"] {
                for epilogue in ["", "\r\n", "--", "\r\n--A", "\r\nAB--", "\n--AB--"] {
                    let mut f = Fm::new(c, "AB", &[("key", "k")], b"content");
                    (f.close, f.epilogue) = (close.into(), epilogue.into());
                    let tail = format!("{close}{epilogue}");
                    if tail.starts_with("--") || tail.contains("\r\n--AB--") {
                        continue;
                    }
                    let b = f.bytes().len();
                    for cut in [b, f.head().len(), b - tail.len(), b - tail.len() - 3] {
                        refused(cx, fx, &f.rq().split(&[cut]), &|| format!("a form that ends with {tail:?}, split at {cut}"))?;
                    }
                    cx.state(&tail);
                }
            }
            Ok(())
        },
    );
    // other boundaries than the announced one
    cx.case(
        || "boundaries that are not announced".into(),
        |cx| {
            for b in ["A", "ABC", "ab", "BA", " AB", "-AB", "\"AB"] {
                let mut f = Fm::new(c, "AB", &[("key", "k")], b"content");
                f.mime = format!("multipart/form-data; boundary={b}");
                if f.rq().build().is_err() || b == " AB" {
                    continue;
                }
                refused(cx, fx, &f.rq(), &|| format!("announced {b}"))?;
            }
            let mut f = Fm::new(c, "AB", &[("key", "k")], b"content");
            f.mime = "multipart/form-data".into();
            refused(cx, fx, &f.rq(), &|| "no boundary".into())?;
            f.mime = "multipart/form-data; boundary=".into();
            refused(cx, fx, &f.rq(), &|| "empty boundary".into())?;
            // without the first delimiter the first field, which is needed, is not in the form
            for first in ["x", "--A", "--ABx", "-AB", "AB", "--AB-", "--AB--", "--ab", " --AB", "--\"AB\"", "---AB"] {
                let mut f = Fm::new(c, "AB", &[("key", "k")], b"content");
                for _ in 0..f.fields.len() {
                    f.fields.rotate_left(1);
                    let b = f.bytes();
                    for start in [format!("{first}\r\n"), format!("\r\n{first}\r\n")] {
                        let mut v = start.clone().into_bytes();
                        v.extend_from_slice(&b["--AB\r\n".len()..]);
                        refused(cx, fx, &replace(&f.rq(), &v), &|| format!("the first delimiter is {start:?}, the first field is {}", f.fields[0].0))?;
                    }
                }
            }
            Ok(())
        },
    );
}

fn forms_on_disk(cx: &mut Cx, c: &Cred) {
    let mut world: Option<(World, S3Service)> = None;
    for (name, f) in sample_forms(c).into_iter().take(3) {
        let mut f = f;
        for x in &mut f.fields {
            if x.0 == "key" {
                x.1 = "k".into();
            }
            if x.0.starts_with("x-amz-meta-") {
                x.1 = "new".into();
            }
        }
        let body = f.bytes();
        for end in 0..=body.len() {
            for old in [None, Some(&b"old content"[..])] {
                cx.case(
                    || format!("file system, {}: form {name}, the first {end} of {} bytes", if old.is_some() { "existing object" } else { "new object" }, body.len()),
                    |cx| {
                        if world.is_none() {
                            let w = World::new(&cx.fresh_dir());
                            let mut svc = S3Service::new(FileSystem::new(&w.root).expect("root"));
                            let mut a = SimpleAuth::new();
                            a.register(c.access.clone(), c.secret.clone());
                            svc.set_auth(a);
                            let rs = w.call(&Rq::new("PUT", "/aaa"))?;
                            ensure!(rs.status == 200, "bucket: {}", rs.show());
                            world = Some((w, svc));
                        }
                        let (w, svc) = world.as_ref().unwrap();
                        match old {
                            Some(d) => drop(w.call(&put().h("x-amz-meta-a", "old").body(d))?),
                            None => drop(w.call(&Rq::obj("DELETE", "aaa", "k"))?),
                        }
                        let cut = replace(&f.rq(), &body[..end]);
                        let rqs = [cut.clone(), cut.clone().split_every(100)].into_iter().map(|rq| (rq, 0)).chain((0..api::FAILURES.len()).map(|kind| (aborted(&cut), kind)));
                        let mut rqs = rqs.collect::<Vec<_>>();
                        if end == body.len() {
                            rqs.extend((1..end).map(|at| (cut.clone().split(&[at]), 0)));
                            rqs.extend(variants(&cut).into_iter().map(|(_, r)| (r, 0)));
                        }
                        for (rq, kind) in rqs {
                            api::FAILURE.store(kind, std::sync::atomic::Ordering::SeqCst);
                            let done = end >= f.complete_len();
                            if done && matches!(rq.body.last(), Some(Chunk::Error)) {
                                continue;
                            }
                            let rs = api::call(svc, &rq)?;
                            cx.add("evaluations", 1);
                            cx.state(&(name, end, old));
                            let get = w.call(&Rq::obj("GET", "aaa", "k"))?;
                            let now = (get.status == 200).then(|| get.body.to_vec());
                            if done {
                                ensure!(rs.status < 300, "the form is refused: {}", rs.show());
                                ensure!(now.as_ref() == Some(&f.file), "the object does not have its content: {}", get.show());
                                ensure!(get.header("x-amz-meta-a").is_none(), "metadata of the previous object: {}", get.show());
                            } else {
                                ensure!(rs.status >= 400, "the form is not complete, but the response is {}", rs.show());
                                ensure!(now.as_deref() == old, "the object is not as before: {}", get.show());
                                ensure!(get.header("x-amz-meta-a").as_deref() == old.map(|_| "old"), "the metadata is not as before: {}", get.show());
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    if let Some((w, _)) = world {
        remove_tree(&w.dir);
    }
}

/// metadata of a form that no header can carry: the object is readable, what is not shown is counted
fn forms_unprintable(cx: &mut Cx, c: &Cred) {
    let mut world: Option<(World, S3Service)> = None;
    let chars: Vec<String> = (0u8..=127).map(|b| (b as char).to_string()).chain(["\u{80}", "\u{e4}", "\u{20ac}", "\u{1f600}"].map(String::from)).collect();
    let mut cases: Vec<(String, Vec<(String, String)>)> = vec![];
    for ch in &chars {
        cases.push((format!("{ch:?} in a value"), vec![("x-amz-meta-a".into(), format!("v{ch}w"))]));
        cases.push((format!("{ch:?} in a value, another field"), vec![("x-amz-meta-a".into(), format!("v{ch}w")), ("x-amz-meta-b".into(), "plain".into())]));
        // names that cannot be written in the quoted string of a form are excluded
        if ch.is_ascii() && !matches!(ch.as_bytes()[0], b'"' | b'\\' | 0..=31 | 127) && !ch.as_bytes()[0].is_ascii_uppercase() {
            cases.push((format!("{ch:?} in a name"), vec![(format!("x-amz-meta-a{ch}b"), "plain".into())]));
            cases.push((format!("{ch:?} in a name, another field"), vec![(format!("x-amz-meta-a{ch}b"), "plain".into()), ("x-amz-meta-b".into(), "v\r\nw".into())]));
        }
    }
    let header_name = |n: &str| n.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b));
    let header_value = |v: &str| v.bytes().all(|b| b == b'\t' || (b >= 32 && b != 127));
    for (name, fields) in cases {
        cx.case(
            || format!("file system, metadata: {name}"),
            |cx| {
                if world.is_none() {
                    let w = World::new(&cx.fresh_dir());
                    let mut svc = S3Service::new(FileSystem::new(&w.root).expect("root"));
                    let mut a = SimpleAuth::new();
                    a.register(c.access.clone(), c.secret.clone());
                    svc.set_auth(a);
                    let rs = w.call(&Rq::new("PUT", "/aaa"))?;
                    ensure!(rs.status == 200, "bucket: {}", rs.show());
                    world = Some((w, svc));
                }
                let (w, svc) = world.as_ref().unwrap();
                let mut all: Vec<(&str, &str)> = vec![("key", "k")];
                all.extend(fields.iter().map(|(n, v)| (n.as_str(), v.as_str())));
                let f = Fm::new(c, "AB", &all, b"content");
                let rs = api::call(svc, &f.rq())?;
                cx.add("evaluations", 1);
                cx.state(&fields);
                ensure!(rs.status < 300, "the form is refused: {}", rs.show());
                let (shown, hidden): (Vec<_>, Vec<_>) = fields.iter().partition(|(n, v)| header_name(n) && header_value(v));
                let copy = w.call(&Rq::obj("PUT", "aaa", "copy").h("x-amz-copy-source", "/aaa/k"))?;
                ensure!(copy.status == 200, "copy: {}", copy.show());
                for (m, k) in [("GET", "k"), ("HEAD", "k"), ("GET", "copy"), ("HEAD", "copy")] {
                    let get = w.call(&Rq::obj(m, "aaa", k))?;
                    cx.add("evaluations", 1);
                    ensure!(get.status == 200, "{m} {k}: {}", get.show());
                    ensure!(m == "HEAD" || get.body == f.file, "{m} {k}: wrong content: {}", get.show());
                    let n = get.header("x-amz-missing-meta");
                    ensure!(
                        n == (!hidden.is_empty()).then(|| hidden.len().to_string()) || (hidden.is_empty() && n.as_deref() == Some("0")),
                        "{m} {k}: {} fields of the metadata cannot be shown, x-amz-missing-meta is {n:?}",
                        hidden.len()
                    );
                    let want: Vec<(String, Vec<u8>)> = shown.iter().map(|(n, v)| (n.to_ascii_lowercase(), v.as_bytes().to_vec())).collect();
                    let mut got: Vec<(String, Vec<u8>)> = get.headers.iter().filter(|h| h.0.starts_with("x-amz-meta-")).cloned().collect();
                    got.sort();
                    ensure!(got == want, "{m} {k}: metadata {got:?} instead of {want:?}");
                }
                Ok(())
            },
        );
    }
    if let Some((w, _)) = world {
        remove_tree(&w.dir);
    }
}
