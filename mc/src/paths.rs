//! S06: names of every shape in every position that takes a name.

use crate::api::{self, enc, Rq, Rs};
use crate::report::{remove_tree, Cx, Fail, Meta, R};
use crate::sig::{self, Cred, Form};
use crate::storage::{create, key_shapes, part, upload_meta};
use crate::store::*;
use crate::{ensure, sys};
use s3_server::storages::fs::FileSystem;
use s3_server::{S3Service, SimpleAuth};

pub fn metas() -> Vec<Meta> {
    vec![Meta {
        id: "S06",
        level: "exploration",
        rule: "all keys of up to three (thorough: four) components over an alphabet of empty, '.', '..', ordinary, internal and bucket names, in three encodings, as the key of every operation, as copy source, in bulk deletions and in forms; bucket names, upload ids and part numbers of traversal and alias shape; every file system call intercepted; all objects, uploads and files that were not named compared before and after. Plus all key shapes together in one bucket. distinct_nontrivial: distinct (operation, name, encoding)",
        assumptions: &["no symbolic links below the root (the service creates none)", "a name may be refused, if that has no effect"],
        quick_secs: 400,
        thorough_secs: 1800,
        run: s06,
    }]
}

const KEYS: &[&str] = &["a", "d/a", "aaa", "bbb/a", "x", "x/x"];

/// the world, its model, and what lies next to the root
struct Place {
    w: World,
    m: Model,
    svc: S3Service,
}

fn place(cx: &mut Cx, t: &Template) -> Place {
    let w = t.make(cx);
    std::fs::write(w.dir.join("secret"), b"outside").expect("write");
    std::fs::create_dir_all(w.dir.join("out/a")).expect("mkdir");
    std::fs::write(w.dir.join("out/x"), b"outside, too").expect("write");
    // every access outside the root is reported
    sys::set_scratch(&w.root);
    let mut svc = S3Service::new(FileSystem::new(&w.root).expect("root"));
    let mut a = SimpleAuth::new();
    let c = Cred::default();
    a.register(c.access, c.secret);
    svc.set_auth(a);
    Place { w, m: t.model.clone(), svc }
}

fn leave(cx: &mut Cx, p: &Place) {
    sys::set_scratch(&cx.dir);
    remove_tree(&p.w.dir);
}

fn setup() -> Vec<Op> {
    vec![
        create("aaa"),
        create("bbb"),
        put_meta("aaa", "a", b"a in aaa", &[("which", "aaa a")]),
        put_meta("aaa", "d/a", b"d/a in aaa", &[("which", "aaa d/a")]),
        put("aaa", "aaa", b"aaa in aaa"),
        put("aaa", "bbb/a", b"bbb/a in aaa"),
        put_meta("bbb", "a", b"a in bbb", &[("which", "bbb a")]),
        put("bbb", "d/a", b"d/a in bbb"),
        upload_meta("aaa", "a", &[("from", "upload")]),
        part(0, "aaa", "a", 1, b"the part"),
    ]
}

/// the ordinary meaning of a name, or a refusal without effect
fn check(cx: &mut Cx, p: &mut Place, op: &Op, rs: &Rs, before: &[(String, Option<Vec<u8>>)], keys: &[&str]) -> R {
    if rs.status < 400 {
        judge(&mut p.w.ids, &mut p.m, op, rs)?;
    } else {
        ensure!(p.w.tree() == before, "refused with {}, but files changed", rs.show());
        if op_is_read(op) {
            return Ok(());
        }
    }
    observe(cx, &p.w, &p.m, &["aaa", "bbb"], keys)?;
    let out = std::fs::read(p.w.dir.join("out/x")).ok();
    ensure!(
        std::fs::read(p.w.dir.join("secret")).ok().as_deref() == Some(b"outside") && out.as_deref() == Some(b"outside, too"),
        "files outside the root changed"
    );
    Ok(())
}

fn op_is_read(op: &Op) -> bool {
    matches!(op, Op::Get { .. } | Op::List { .. })
}

/// can a file with this key coexist with the others?
fn known(keys: &[&str], k: &str) -> Vec<String> {
    let mut v: Vec<String> = keys.iter().map(|s| s.to_string()).collect();
    if !v.iter().any(|x| x == k) {
        v.push(k.to_owned());
    }
    v
}

fn names(len: usize) -> Vec<String> {
    let parts = ["", ".", "..", "a", "d", "aaa", "bbb", "x", "root", "secret", ".bucket-YWFh.object-YQ.metadata.json", "%2e%2e", "\0"];
    let mut v: Vec<String> = vec![];
    let mut level: Vec<String> = vec![String::new()];
    for depth in 0..len {
        let mut next = vec![];
        for p in &level {
            for c in parts {
                // the longest names: only with the components that can leave a directory
                if depth >= 2 && !["", "..", "a", "bbb", "x", "root", "secret"].contains(&c) {
                    continue;
                }
                let k = if depth == 0 { c.to_owned() } else { format!("{p}/{c}") };
                next.push(k);
            }
        }
        v.extend(next.iter().cloned());
        level = next;
    }
    v.retain(|k| !k.is_empty());
    v
}

fn encode(k: &str, how: usize) -> String {
    match how {
        0 => enc(k, true),
        1 => enc(k, false),
        _ => k.bytes().map(|c| if c == b'/' { "/".to_owned() } else { format!("%{c:02x}") }).collect(),
    }
}

const HOW: [&str; 3] = ["plain", "slashes encoded", "all characters encoded"];
const OPS: [&str; 11] = ["put", "get", "head", "delete", "bulk delete", "copy from", "copy to", "create upload", "part", "complete", "form"];

fn s06(cx: &mut Cx) {
    let mut tpl: Option<Template> = None;
    macro_rules! tpl {
        ($cx:expr) => {{
            if tpl.is_none() {
                tpl = Some(Template::new($cx, &setup())?);
            }
            tpl.as_ref().unwrap()
        }};
    }
    for k in names(if cx.thorough { 4 } else { 3 }) {
        for (o, name) in OPS.iter().enumerate() {
            for how in 0..3 {
                if how > 0 && (o == 4 || o == 10) {
                    continue;
                }
                if how == 1 && !k.contains('/') {
                    continue;
                }
                // a directory is no object: markers are not part of the model
                if k.ends_with('/') && matches!(o, 5 | 6 | 7 | 8 | 9 | 10) && how > 0 {
                    continue;
                }
                cx.case(
                    || format!("{name} {k:?}, {}", HOW[how]),
                    |cx| {
                        let t = tpl!(cx);
                        let mut p = place(cx, t);
                        let r = one(cx, &mut p, o, &k, how);
                        leave(cx, &p);
                        r
                    },
                );
            }
        }
    }
    // the other positions
    let mut rqs: Vec<(String, Rq)> = vec![];
    let buckets = [
        "..", ".", "...", "%2e%2e", "%2E%2E", "..%2f..", "..%2Faaa", "aaa%2f..", "aaa%2F..%2Fbbb", "aaa%00", "aaa%5c..", "AAA", "aaa.", ".bucket-YWFh.object-YQ.metadata.json", ".tmp-x", "a..b",
        "%252e%252e", "root", "out", "secret", "%2Fetc", "etc", "~", "aaa%20", "%20aaa", "aaa%0a", "aAa",
    ];
    for b in buckets {
        for key in ["", "/", "/a", "/x", "/a/x", "/../secret", "/aaa/a"] {
            for (m, q) in [("GET", None), ("PUT", None), ("DELETE", None), ("HEAD", None), ("POST", Some("delete")), ("POST", Some("uploads")), ("GET", Some("list-type=2")), ("GET", Some("location"))] {
                let mut rq = Rq::new(m, &format!("/{b}{key}"));
                if let Some(q) = q {
                    rq = rq.q(q);
                }
                if q == Some("delete") {
                    rq = rq.body("<Delete><Object><Key>a</Key></Object><Object><Key>x</Key></Object></Delete>");
                }
                rqs.push((format!("{m} {}", rq.uri()), rq));
            }
        }
    }
    for src in ["../secret", "/../secret", "aaa/../../secret", "aaa/..%2f..%2fsecret", "..%2fsecret", "aaa%2f../secret", "out/x", "../out/x", "aaa/%2e%2e/bbb/a", "AAA/a", "aaa/./a", "./aaa/a", "aaa/d/../a", "aaa//a", "aaa/.bucket-YWFh.object-YQ.metadata.json", "aaa/../.bucket-YWFh.object-YQ.metadata.json", "./.bucket-YWFh.object-YQ.metadata.json", ".//.bucket-YWFh.object-YQ.metadata.json"] {
        rqs.push((format!("copy from {src}"), Rq::obj("PUT", "bbb", "a").h("x-amz-copy-source", src).h("content-length", "0")));
    }
    for n in ["-1", "0", "+1", "1/../x", "../x", "1 ", " 1", "01", "1%2F..", "%00", "", "1.0", "99999999999999999999", "0x1", "１"] {
        rqs.push((format!("part number {n}"), Rq::obj("PUT", "aaa", "a").q(&format!("partNumber={}&uploadId=UPLOAD", if n.contains('%') { n.to_owned() } else { enc(n, false) })).body("other")));
    }
    for id in ["..", ".", "", "/", "../UPLOAD", "./UPLOAD", "UPLOAD/", "UPLOAD/.", "UPLOAD/..", "UPLOAD.json", "UPLOAD.part-1", "{UPLOAD}", "urn:uuid:UPLOAD", "UPPER", "SIMPLE", "UPLOAD ", " UPLOAD", "UPLOAD\0", "x/../UPLOAD", "aaa", "aaa/a", "*", "UPLOA?"] {
        rqs.push((format!("part of upload {id}"), Rq::obj("PUT", "aaa", "a").q(&format!("partNumber=1&uploadId={id}")).body("other")));
        rqs.push((format!("complete upload {id}"), Rq::obj("POST", "aaa", "a").q(&format!("uploadId={id}")).body("<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part></CompleteMultipartUpload>")));
    }
    for prefix in ["..", "../", "../../", "/", "d/..", "d/../", "a/../..", "./", "../secret", "\0"] {
        for q in ["", "list-type=2&"] {
            rqs.push((format!("list prefix {prefix:?}"), Rq::new("GET", "/aaa").q(&format!("{q}prefix={}", enc(prefix, false)))));
        }
    }
    for (name, rq) in rqs {
        cx.case(
            || name.clone(),
            |cx| {
                let t = tpl!(cx);
                let mut p = place(cx, t);
                let r = other(cx, &mut p, &name, &rq);
                leave(cx, &p);
                r
            },
        );
    }
    together(cx);
}

fn one(cx: &mut Cx, p: &mut Place, o: usize, k: &str, how: usize) -> R {
    let b = "aaa";
    let id = p.w.ids[0].clone();
    let url = format!("/{b}/{}", encode(k, how));
    let k_s = k.to_owned();
    let empty = k.ends_with('/');
    let (op, rq): (Op, Rq) = match o {
        0 => (put(b, k, if empty { b"" } else { b"written" }), Rq::new("PUT", &url).body(if empty { &b""[..] } else { b"written" })),
        1 => (Op::Get { b: b.into(), k: k_s }, Rq::new("GET", &url)),
        2 => (Op::Get { b: b.into(), k: k_s }, Rq::new("HEAD", &url)),
        3 => (crate::storage::del(b, k), Rq::new("DELETE", &url)),
        4 => {
            let op = Op::MultiDelete { b: b.into(), ks: vec!["x".into(), k_s, "x/x".into()], quiet: false };
            let rq = request(&op, &[], &p.m);
            (op, rq)
        }
        5 => (crate::storage::copy(b, k, "bbb", "x"), Rq::obj("PUT", "bbb", "x").h("content-length", "0").h("x-amz-copy-source", format!("{b}/{}", encode(k, how)))),
        6 => (crate::storage::copy("bbb", "a", b, k), Rq::new("PUT", &url).h("content-length", "0").h("x-amz-copy-source", "bbb/a")),
        7 => (Op::CreateUpload { b: b.into(), k: k_s, meta: vec![] }, Rq::new("POST", &url).q("uploads")),
        8 => (part(0, b, k, 1, b"other part"), Rq::new("PUT", &url).qs(&[("partNumber", "1"), ("uploadId", &id)]).body("other part")),
        9 => (
            crate::storage::complete(0, b, k, &[(1, Tag::None)]),
            Rq::new("POST", &url).qs(&[("uploadId", &id)]).body("<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part></CompleteMultipartUpload>"),
        ),
        _ => (put(b, k, b"from a form"), Form::new(k, b"from a form").sign_open(&Cred::default(), Some(b)).request(b)),
    };
    if k.contains('\0') && (o == 4 || o == 10) {
        return Ok(());
    }
    let before = p.w.tree();
    cx.state(&(o, k, how));
    let rs = if o == 10 { api::call(&p.svc, &rq).map_err(Fail::from)? } else { p.w.call(&rq)? };
    cx.add("transitions", 1);
    cx.outcome(&(o, rs.status, rs.code()));
    if o == 2 {
        let exists = p.m.buckets[b].contains_key(k);
        ensure!(exists == (rs.status == 200) || rs.status == 404 || rs.status == 400 || (k.ends_with('/') && rs.status == 200), "HEAD: {}", rs.show());
        if exists {
            ensure!(rs.status == 200, "HEAD of an existing object: {}", rs.show());
        }
        ensure!(p.w.tree() == before, "HEAD changes files");
        return Ok(());
    }
    if o == 1 {
        if k.ends_with('/') {
            // a directory, as far as it exists, has no content
            ensure!(rs.status >= 400 || rs.body.is_empty(), "{}", rs.show());
            return Ok(());
        }
        ensure!(p.w.tree() == before, "GET changes files");
        if p.m.buckets[b].contains_key(k) || rs.status < 400 {
            return check_get(&p.m, b, k, &rs);
        }
        return Ok(());
    }
    if rs.status < 400 && k.ends_with('/') && matches!(o, 0 | 3 | 4) {
        // markers of directories are objects only if created as such; others must not suffer
        let mut m = p.m.clone();
        if o == 4 {
            apply(&mut m, &op);
            m.buckets.get_mut(b).unwrap().remove("x");
        }
        return observe(cx, &p.w, &m, &["aaa", "bbb"], KEYS);
    }
    let keys = known(KEYS, k);
    let mut refs: Vec<&str> = keys.iter().map(String::as_str).collect();
    // keys that are the paths of directories of others can not be stored together
    if conflicts(p.m.buckets[b].keys(), k) {
        refs.retain(|x| *x != k);
        if rs.status >= 400 {
            // whatever the reason, the others must not suffer
            return observe(cx, &p.w, &p.m, &["aaa", "bbb"], &refs);
        }
    }
    if k.split('/').any(|c| matches!(c, "" | "." | "..") || c.contains('\0')) {
        refs.retain(|x| *x != k);
        if rs.status < 400 && matches!(o, 3 | 4) {
            let m = p.m.clone();
            return observe(cx, &p.w, &m, &["aaa", "bbb"], &refs);
        }
    }
    check(cx, p, &op, &rs, &before, &refs)
}

fn other(cx: &mut Cx, p: &mut Place, name: &str, rq: &Rq) -> R {
    let mut rq = rq.clone();
    let id = p.w.ids[0].clone();
    if let Some(q) = &rq.query {
        let q = q.replace("UPLOAD", &id).replace("UPLOA?", &format!("{}%3F", &id[..35])).replace("UPPER", &id.to_uppercase()).replace("SIMPLE", &id.replace('-', ""));
        let q = q.replace(' ', "%20").replace('\0', "%00").replace('{', "%7B").replace('}', "%7D");
        rq.query = Some(q);
    }
    let before = p.w.tree();
    cx.state(&name);
    let rs = match p.w.call(&rq) {
        Err(e) if e.what.contains("BAD-REQUEST") => return Ok(()),
        r => r?,
    };
    cx.add("transitions", 1);
    cx.outcome(&(name, rs.status, rs.code()));
    let text = String::from_utf8_lossy(&rs.body).into_owned();
    ensure!(!text.contains("outside"), "reads a file outside the root: {}", rs.show());
    let mut names: Vec<String> = vec!["aaa".into(), "bbb".into()];
    if rs.status < 400 {
        // only buckets with valid names may appear
        let b = api::pct_decode(rq.path.trim_start_matches('/').split('/').next().unwrap_or(""), false).unwrap_or_default();
        if rq.method == "PUT" && rq.query.is_none() && rq.get_header("x-amz-copy-source").is_none() {
            ensure!(["root", "out", "secret", "etc", "a..b"].contains(&&*b) && rq.path.matches('/').count() <= 2 && rq.path.split('/').nth(2).unwrap_or("").is_empty(), "creates something: {}", rs.show());
            p.m.buckets.insert(b.clone(), Default::default());
            names.push(b);
        } else if name.starts_with("part number") {
            // another spelling of a number, or another number: never another file than a part
            let after = p.w.tree();
            let in_buckets = |t: &[(String, Option<Vec<u8>>)]| t.iter().filter(|f| ["aaa", "bbb"].iter().any(|b| f.0.starts_with(b))).cloned().collect::<Vec<_>>();
            ensure!(in_buckets(&after) == in_buckets(&before), "files of buckets changed");
        } else if name.starts_with("list prefix") {
            ensure!(!text.contains("<Contents>"), "lists something: {}", rs.show());
        } else {
            ensure!(false, "accepted: {}", rs.show());
        }
    } else {
        ensure!(p.w.tree() == before, "refused with {}, but files changed", rs.show());
    }
    let refs: Vec<&str> = names.iter().map(String::as_str).collect();
    observe(cx, &p.w, &p.m, &refs, KEYS)?;
    ensure!(std::fs::read(p.w.dir.join("secret")).ok().as_deref() == Some(b"outside"), "files outside the root changed");
    ensure!(!p.w.dir.join("out").join("a").join("x").exists(), "files outside the root changed");
    Ok(())
}

/// all key shapes side by side
fn together(cx: &mut Cx) {
    let mut groups: Vec<Vec<String>> = vec![];
    for k in key_shapes(cx.thorough) {
        match groups.iter_mut().find(|g| !conflicts(g.iter(), &k)) {
            Some(g) => g.push(k),
            None => groups.push(vec![k]),
        }
    }
    for (i, g) in groups.into_iter().enumerate() {
        for n in 0..g.len().min(40) {
            cx.case(
                || format!("keys side by side, group {i}, removing from {n}"),
                |cx| {
                    let mut ops = vec![create("aaa"), create("bbb")];
                    for (j, k) in g.iter().enumerate() {
                        ops.push(put_meta(if j % 7 == 3 { "bbb" } else { "aaa" }, k, k.as_bytes(), &[("number", &j.to_string())]));
                    }
                    ops.push(Op::MultiDelete { b: "aaa".into(), ks: g.iter().skip(n).step_by(3).cloned().collect(), quiet: false });
                    let keys: Vec<&str> = g.iter().map(String::as_str).collect();
                    crate::storage::history(cx, &ops, &["aaa", "bbb"], &keys)
                },
            );
        }
    }
}
