//! S01–S05, S11: histories of operations on the file system storage against the reference model.

use crate::api::{self, Rq};
use crate::report::{hash_of, Cx, Fail, Meta, R};
use crate::store::*;
use crate::ensure;
use std::collections::HashMap;

const FS_ASSUME: &[&str] = &[
    "the file system is a local POSIX file system without other users (tmpfs here); names of path components have at most 255 bytes",
    "keys of which one is a directory prefix of the other are excluded (the storage maps keys to paths)",
    "bounds as given in the rule; keys with empty, '.' or '..' components are refused by design",
];

pub fn metas() -> Vec<Meta> {
    vec![
        Meta {
            id: "S01",
            level: "model_checking",
            rule: "states: (model, canonical file tree); every operation sequence over the alphabet up to the depth, each replayed from an empty root on the real service, every response and the full observable state compared with the model before and after a restart; plus every boundary size x write path x body segmentation, and every key shape x metadata shape",
            assumptions: FS_ASSUME,
            quick_secs: 400,
            thorough_secs: 1500,
            run: s01,
        },
        Meta {
            id: "S02",
            level: "model_checking",
            rule: "states: (model, canonical file tree); every sequence of bucket and object operations over two buckets up to the depth from the empty root, compared with the model as in S01; plus every operation on a bucket that never existed or was deleted",
            assumptions: FS_ASSUME,
            quick_secs: 400,
            thorough_secs: 1500,
            run: s02,
        },
        Meta {
            id: "S03",
            level: "model_checking",
            rule: "states: (model, canonical file tree); all subsets of five key alphabets (nested, Unicode, XML and URL special characters, white space, dots) with every prefix of every key, both list operations, both encodings; bulk deletions of sub-lists from each; listings along all histories up to a depth; up to 2500 objects. outcomes: distinct listing bodies",
            assumptions: FS_ASSUME,
            quick_secs: 400,
            thorough_secs: 1500,
            run: s03,
        },
        Meta {
            id: "S04",
            level: "model_checking",
            rule: "states: (model, canonical file tree); all sequences of create/part/complete (with right, wrong, missing ETags, wrong order, other keys and ids) on two uploads up to the depth from two initial states; all sets of four uploaded parts with all part lists up to length three; up to forty parts, boundary part numbers and sizes; numbers that no part can have, negative, huge and congruent ones included, and texts that are no numbers, uploaded and completed; ETags that differ in one digit or in length; up to 1500 (thorough: 10000) parts; uploads used through every other key of a pool of resembling names; ids that are no uploads",
            assumptions: FS_ASSUME,
            quick_secs: 400,
            thorough_secs: 1500,
            run: s04,
        },
        Meta {
            id: "S05",
            level: "exploration",
            rule: "all pairs of boundary offsets as first-last, first- and -suffix ranges on objects of boundary sizes, and malformed ranges; distinct_nontrivial: distinct (range, size)",
            assumptions: FS_ASSUME,
            quick_secs: 300,
            thorough_secs: 1500,
            run: s05,
        },
        Meta {
            id: "S11",
            level: "model_checking",
            rule: "states: (model, canonical file tree); all pairs of four source and destination objects in all states of both with later changes; all histories of copies, puts and deletes up to the depth; all key shapes x encodings of the source; names that are no sources; boundary sizes",
            assumptions: FS_ASSUME,
            quick_secs: 400,
            thorough_secs: 1500,
            run: s11,
        },
    ]
}

pub struct Search<'a> {
    pub name: &'a str,
    pub setup: Vec<Op>,
    pub alphabet: Vec<Op>,
    pub depth: usize,
    /// histories up to this length are all run; longer ones only from states not seen before
    pub full: usize,
    pub buckets: &'a [&'a str],
    pub keys: &'a [&'a str],
}

impl Search<'_> {
    /// Everything is observed after every step on the same instance, and no two states are taken for the same: the
    /// service may keep something in memory that the files do not show.
    fn watched(&self) -> bool {
        self.full >= self.depth && self.alphabet.contains(&Op::Restart)
    }
}

struct Seen {
    /// state -> largest remaining depth explored from it
    explored: HashMap<u64, usize>,
    observed: std::collections::HashSet<u64>,
}

/// all histories of the search
pub fn search(cx: &mut Cx, s: &Search) {
    let mut seen = Seen {
        explored: HashMap::new(),
        observed: Default::default(),
    };
    let n = s.alphabet.len();
    for a in 0..n {
        for b in 0..n {
            let first = b == 0;
            cx.case(
                || format!("{}: histories of {} starting with {}", s.name, s.depth, show(&[s.alphabet[a].clone(), s.alphabet[b].clone()])),
                |cx| {
                    if first {
                        node(cx, s, &mut seen, &mut vec![a], false)?;
                    }
                    node(cx, s, &mut seen, &mut vec![a, b], true)
                },
            );
        }
    }
}

fn node(cx: &mut Cx, s: &Search, seen: &mut Seen, path: &mut Vec<usize>, descend: bool) -> R {
    if cx.out_of_time() {
        cx.cap("time limit reached");
        return Ok(());
    }
    let mut ops = s.setup.clone();
    // operations on uploads that do not exist yet are never enabled
    ops.extend(path.iter().map(|&i| s.alphabet[i].clone()));
    let creates = |ops: &[Op]| ops.iter().filter(|o| matches!(o, Op::CreateUpload { .. })).count();
    let n_up = creates(&ops[..ops.len() - 1]);
    if let Some(Op::Part { u, .. } | Op::Complete { u, .. }) = ops.last() {
        if *u >= n_up && *u < 8 {
            return Ok(());
        }
    }
    if let Some(Op::CreateUpload { .. }) = ops.last() {
        if n_up >= 2 {
            return Ok(());
        }
    }
    cx.alarm(60);
    let dir = cx.fresh_dir();
    let mut w = World::new(&dir);
    let mut m = Model::default();
    let mut r = Ok(());
    for (i, op) in ops.iter().enumerate() {
        r = step(cx, &mut w, &mut m, op);
        if let Err(e) = &mut r {
            e.what = format!("after {}: {}", show(&ops[..=i]), e.what);
            break;
        }
        if s.watched() && i + 1 < ops.len() {
            r = observe(cx, &w, &m, s.buckets, s.keys);
            if let Err(e) = &mut r {
                e.what = format!("observed after each of {}: {}", show(&ops[..=i]), e.what);
                break;
            }
        }
    }
    let mut h = 0;
    if r.is_ok() {
        h = hash_of(&(&m, w.canonical_tree()));
        cx.state(&h);
        cx.add("traces", 1);
        if seen.observed.insert(h) || path.len() <= s.full {
            r = observe(cx, &w, &m, s.buckets, s.keys);
            if r.is_ok() {
                w.restart();
                r = observe(cx, &w, &m, s.buckets, s.keys);
                if let Err(e) = &mut r {
                    e.what = format!("restart; {}", e.what);
                }
            }
            if let Err(e) = &mut r {
                e.what = format!("after {}: {}", show(&ops), e.what);
            }
        }
    }
    crate::report::remove_tree(&dir);
    r?;
    let remaining = s.depth - path.len();
    if !descend || remaining == 0 {
        return Ok(());
    }
    if path.len() >= s.full {
        let e = seen.explored.entry(h).or_insert(0);
        if *e >= remaining {
            return Ok(());
        }
        *e = remaining;
    }
    for i in 0..s.alphabet.len() {
        path.push(i);
        let r = node(cx, s, seen, path, true);
        path.pop();
        r?;
    }
    Ok(())
}

fn s(x: &str) -> String {
    x.to_owned()
}

pub fn copy(sb: &str, sk: &str, db: &str, dk: &str) -> Op {
    Op::Copy { sb: s(sb), sk: s(sk), db: s(db), dk: s(dk), slash: false, replace: None }
}
pub fn del(b: &str, k: &str) -> Op {
    Op::Delete { b: s(b), k: s(k) }
}
pub fn mdel(b: &str, ks: &[&str]) -> Op {
    Op::MultiDelete { b: s(b), ks: ks.iter().map(|k| s(k)).collect(), quiet: false }
}
pub fn create(b: &str) -> Op {
    Op::CreateBucket(s(b))
}
pub fn part(u: usize, b: &str, k: &str, n: i64, data: &[u8]) -> Op {
    Op::Part { u, b: s(b), k: s(k), n, data: data.to_vec(), md5: Md5::None, abort: None }
}
pub fn complete(u: usize, b: &str, k: &str, parts: &[(i64, Tag)]) -> Op {
    Op::Complete { u, b: s(b), k: s(k), parts: parts.to_vec() }
}
pub fn upload(b: &str, k: &str) -> Op {
    Op::CreateUpload { b: s(b), k: s(k), meta: vec![] }
}
pub fn upload_meta(b: &str, k: &str, meta: &[(&str, &str)]) -> Op {
    Op::CreateUpload { b: s(b), k: s(k), meta: meta.iter().map(|(n, v)| (s(n), s(v))).collect() }
}
pub fn copy_replace(sb: &str, sk: &str, db: &str, dk: &str, meta: &[(&str, &str)]) -> Op {
    Op::Copy { sb: s(sb), sk: s(sk), db: s(db), dk: s(dk), slash: false, replace: Some(meta.iter().map(|(n, v)| (s(n), s(v))).collect()) }
}

const M1: &[(&str, &str)] = &[("color", "red")];
const M2: &[(&str, &str)] = &[("color", "blue"), ("shape", "a b")];

fn s01(cx: &mut Cx) {


    search(
        cx,
        &Search {
            name: "objects",
            setup: vec![create("aaa"), create("bbb")],
            alphabet: vec![
                put("aaa", "a", b"one"),
                put_meta("aaa", "a", b"second", M1),
                put_meta("aaa", "a", b"", M2),
                put("aaa", "d/b", b"three"),
                put_meta("aaa", "d/b", b"four four", M2),
                put_meta("bbb", "a", b"other", M1),
                del("aaa", "a"),
                del("aaa", "d/b"),
                mdel("aaa", &["a", "d/b"]),
                copy("aaa", "a", "aaa", "d/b"),
                copy("aaa", "d/b", "aaa", "a"),
                copy("aaa", "a", "aaa", "a"),
                copy_replace("aaa", "a", "bbb", "a", M2),
                copy_replace("aaa", "a", "aaa", "a", M2),
                upload_meta("aaa", "a", M1),
                part(0, "aaa", "a", 1, b"part"),
                complete(0, "aaa", "a", &[(1, Tag::Good)]),
            ],
            depth: if cx.thorough { 7 } else { 4 },
            full: if cx.thorough { 3 } else { 2 },
            buckets: &["aaa", "bbb"],
            keys: &["a", "d/b"],
        },
    );
    // with everything observed after every step on the same instance
    search(
        cx,
        &Search {
            name: "objects, observed after every step",
            setup: vec![create("aaa")],
            alphabet: vec![
                put("aaa", "a", b"one"),
                put("aaa", "a", b"two"),
                put_meta("aaa", "a", b"one", M1),
                put_meta("aaa", "a", b"two", M2),
                del("aaa", "a"),
                mdel("aaa", &["b", "a"]),
                copy("aaa", "a", "aaa", "b"),
                copy("aaa", "b", "aaa", "a"),
                copy_replace("aaa", "a", "aaa", "a", M2),
                put_meta("aaa", "b", b"six", M1),
                Op::Restart,
            ],
            depth: if cx.thorough { 5 } else { 4 },
            full: usize::MAX,
            buckets: &["aaa"],
            keys: &["a", "b"],
        },
    );
    sizes(cx);
    shapes(cx);
    resembling_keys(cx);
}

/// keys which a storage could take for each other
fn resembling(thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = [
        "readme", "README", "Readme", "readme ", " readme", "readme.", ".readme", "readm", "readmee", "reads", "read.me", "read-me", "read_me", "read me", "read+me", "read%20me", "read%2Fme",
        "read\\me", "read~me", "r/eadme", "read/m", "x/readme", "X/readme", "x/README", "x.readme", "x-readme", "x_readme",
        "\u{e9}t\u{e9}", "e\u{301}te\u{301}", "\u{c9}T\u{c9}", "\u{df}", "ss", "\u{130}", "i", "\u{131}", "I", "K", "\u{212a}", "k", "\u{ff21}", "A", "\u{3a3}", "\u{3c3}", "\u{3c2}",
        "a:b", "a>b", "a?b", "~~~", "\u{7f}", "0", "00", "000", "1", "01", "1.0", "1e0", "+1", "null", "NULL", "%00",
    ]
    .iter()
    .map(|k| s(k))
    .collect();
    // which differ only at the end, or only at the start
    for n in [30, 100, 240] {
        v.push("l".repeat(n) + "1");
        v.push("l".repeat(n) + "2");
        v.push(format!("1{}", "l".repeat(n)));
    }
    let deep = |x: &str| format!("{}/{}/{}/{x}", "p".repeat(250), "q".repeat(250), "r".repeat(250));
    v.push(deep("1"));
    v.push(deep("2"));
    if !thorough {
        v.retain(|k| k.len() != 31);
    }
    v
}

/// two objects are independent of each other
fn resembling_keys(cx: &mut Cx) {
    let pool = resembling(cx.thorough);
    for a in &pool {
        cx.case(
            || format!("keys that resemble {a:?}"),
            |cx| {
                for k in &pool {
                    if a == k || (!cx.thorough && a.len() > 600 && k.len() < 600) {
                        continue;
                    }
                    let ops = [
                        create("aaa"),
                        put_meta("aaa", k, b"stays", M1),
                        put_meta("aaa", a, b"changes", M2),
                        put("aaa", a, b"without metadata"),
                        put_meta("aaa", a, b"changed again", M2),
                        del("aaa", a),
                        put("aaa", a, b"anew"),
                        copy_replace("aaa", k, "aaa", a, M2),
                        upload_meta("aaa", a, M2),
                        part(0, "aaa", a, 1, b"part"),
                        complete(0, "aaa", a, &[(1, Tag::None)]),
                        mdel("aaa", &[a]),
                    ];
                    let dir = cx.fresh_dir();
                    let mut w = World::new(&dir);
                    let mut m = Model::default();
                    for (i, op) in ops.iter().enumerate() {
                        let r = step(cx, &mut w, &mut m, op).and_then(|_| if i >= 2 { same_objects(cx, &w, &m) } else { Ok(()) });
                        r.map_err(|mut e| {
                            e.what = format!("after {}: {}", show(&ops[..=i]), e.what);
                            e
                        })?;
                    }
                    cx.state(&(&m, a));
                    cx.add("traces", 1);
                    crate::report::remove_tree(&w.dir);
                }
                Ok(())
            },
        );
    }
}

/// all objects of the model can be read, and all buckets have only them
fn same_objects(cx: &mut Cx, w: &World, m: &Model) -> R {
    for (b, objects) in &m.buckets {
        for k in objects.keys() {
            cx.add("evaluations", 1);
            check_get(m, b, k, &w.call(&Rq::obj("GET", b, k))?)?;
        }
        check_list(m, b, "", &w.call(&Rq::new("GET", &format!("/{b}")))?, false)?;
    }
    Ok(())
}

/// buckets whose names resemble each other
fn resembling_buckets(cx: &mut Cx) {
    let long = "b".repeat(62);
    let mut pool: Vec<String> = [
        "abc", "abcd", "abcde", "abcdef", "abc-d", "abc.d", "abc-def", "abc.def", "abcdefghi", "xabc", "x-abc", "ab1", "ab10", "ab100", "1ab", "aaa", "aaaa", "aaab", "aab", "baa", "logs01", "logs012",
        "logs01-archive", "logs01.archive", "logs01-1", "bucket-abc", "bucket", "object", "metadata", "a.object-b", "abc.object-k", "upload", "a-b-c", "a.b.c",
    ]
    .iter()
    .map(|k| s(k))
    .collect();
    pool.extend([format!("{long}1"), format!("{long}2"), format!("1{long}"), long]);
    for a in &pool {
        cx.case(
            || format!("buckets that resemble {a:?}"),
            |cx| {
                for b in &pool {
                    if a == b {
                        continue;
                    }
                    let ops = [
                        create(b),
                        create(a),
                        put_meta(b, "k", b"stays", M1),
                        put_meta(b, "d/l", b"stays, too", M1),
                        upload_meta(b, "m", M1),
                        part(0, b, "m", 1, b"part"),
                        put_meta(a, "k", b"goes", M2),
                        put_meta(a, "d/l", b"goes, too", M2),
                        put(a, "k", b"without"),
                        del(a, "k"),
                        mdel(a, &["d/l", "k"]),
                        put_meta(a, "k", b"goes", M2),
                        Op::DeleteBucket(a.clone()),
                        del(a, "k"),
                        Op::DeleteBucket(a.clone()),
                        create(a),
                        put(a, "k", b"anew"),
                        complete(0, b, "m", &[(1, Tag::Good)]),
                    ];
                    let dir = cx.fresh_dir();
                    let mut w = World::new(&dir);
                    let mut m = Model::default();
                    for (i, op) in ops.iter().enumerate() {
                        let r = step(cx, &mut w, &mut m, op).and_then(|_| if i >= 6 { same_objects(cx, &w, &m) } else { Ok(()) });
                        r.map_err(|mut e| {
                            e.what = format!("after {}: {}", show(&ops[..=i]), e.what);
                            e
                        })?;
                    }
                    cx.state(&(&m, a));
                    cx.add("traces", 1);
                    crate::report::remove_tree(&w.dir);
                }
                Ok(())
            },
        );
    }
}

pub fn boundary_sizes(thorough: bool) -> Vec<usize> {
    let mut v = vec![
        0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 65535, 65536, 65537, 1_048_577,
    ];
    if thorough {
        v.extend([3, 100, 4094, 8190, 20000, 131_072, 4_194_303, 4_194_304, 4_194_305, 8_388_608, 8_388_609, 12_000_000]);
    } else {
        v.push(4_194_305);
    }
    v
}

fn sizes(cx: &mut Cx) {
    for n in boundary_sizes(cx.thorough) {
        let data = content(7, n);
        let mut splits = vec![0, 4096, 4097, 65536];
        if n <= 12288 {
            splits.extend([1, 1000, 4095, 8192]);
        }
        for split in splits {
            if split > n && split != 0 {
                continue;
            }
            for path in 0..3 {
              for (io, limits) in SHORT {
                let d = data.clone();
                if !limits.is_empty() && split != 0 {
                    continue;
                }
                cx.case(
                    || format!("size {n}, chunks of {split}, {}{io}", ["put", "put and copy", "overwrite, then copy over an object"][path]),
                    |cx| {
                        let p = Op::Put { b: s("aaa"), k: s("k"), data: d, meta: vec![(s("m"), s("1"))], md5: Md5::Good, split, abort: None };
                        let ops = match path {
                            0 => vec![create("aaa"), p],
                            1 => vec![create("aaa"), p, copy("aaa", "k", "aaa", "copied")],
                            _ => vec![
                                create("aaa"),
                                put_meta("aaa", "k", &content(9, 70000), M2),
                                p,
                                put_meta("aaa", "copied", &content(3, 9000), M1),
                                copy("aaa", "k", "aaa", "copied"),
                            ],
                        };
                        with_limits(limits, || history(cx, &ops, &["aaa"], &["k", "copied"]))
                    },
                );
              }
            }
        }
        if n > 0 {
            for (parts, (io, limits)) in [1usize, 2, 3].into_iter().flat_map(|p| SHORT.iter().map(move |s| (p, s))) {
                let d = data.clone();
                cx.case(
                    || format!("size {n} as {parts} parts{io}"),
                    |cx| {
                        let mut ops = vec![create("aaa"), upload("aaa", "k")];
                        let step = (d.len() + parts - 1) / parts;
                        let mut list = vec![];
                        for (i, c) in d.chunks(step).enumerate() {
                            ops.push(part(0, "aaa", "k", i as i64 + 1, c));
                            list.push((i as i64 + 1, Tag::Good));
                        }
                        ops.push(complete(0, "aaa", "k", &list));
                        with_limits(limits, || history(cx, &ops, &["aaa"], &["k"]))
                    },
                );
            }
        }
    }
}

/// numbers of bytes that the reads and writes of files transfer at most, in turn: any is allowed to the file system
pub const SHORT: &[(&str, &[usize])] = &[
    ("", &[]),
    (", short reads and writes", &[5000]),
    (", irregular reads and writes", &[70_000, 1, 4095, 1_000_000, 4097, 2, 65_536, usize::MAX]),
];

/// the same with short reads and writes
pub fn with_limits<T>(limits: &'static [usize], f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            blocking::mc::set_limits(&[]);
        }
    }
    let _off = Off;
    blocking::mc::set_limits(limits);
    f()
}

/// run one history, observing after the last step
pub fn history(cx: &mut Cx, ops: &[Op], buckets: &[&str], keys: &[&str]) -> R {
    let (mut w, m) = run_history(cx, ops, buckets, keys, false)?;
    cx.add("traces", 1);
    cx.state(&(&m, w.canonical_tree()));
    w.restart();
    let r = observe(cx, &w, &m, buckets, keys);
    crate::report::remove_tree(&w.dir);
    r.map_err(|mut e| {
        e.what = format!("after {} and restart: {}", show(ops), e.what);
        e
    })
}

pub fn key_shapes(thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = [
        "a", "A", "a b", " a", "a ", "a+b", "+", "%", "%41", "%2F", "a%2Fb", "a%20b", "%25", "a&b", "a<b>c", "\"q\"", "'q'", "a=b", "a?b", "?a=b&uploads",
        "a#b", "a;b", "a:b", "a,b", "a|b", "a\\b", "a*b", "a$b", "a@b", "a!b", "a~b", "a^b", "a`b", "{a}", "[a]", "(a)", "ü", "日本語", "e\u{301}", "\u{e9}", "😀",
        "a/b", "a/b/c/d/e", ".a", "..a", "a.", "a..", "...", ".../...", "a/.b", "-", "_", "a.metadata.json", ".tmp-a", ".bucket-a",
        ".bucket-YWFh.object-YQ.metadata.json", ".upload_id-1.part-1", "aaa", "aaa/aaa", "bbb/a", "a?versionId=null", "a?versionId", "?versionId=3/L4kqtJlcpXroDTDmpUMLUo", "a%3FversionId=null", "a?partNumber=1", "a?x-id=GetObject", "arn:aws:s3:::aaa/a", "http:", "index.html", "0", "null", "x\u{7f}y", "\u{feff}a", "\u{2028}", "a\u{a0}b", "ß/ß ß",
    ]
    .iter()
    .map(|k| s(k))
    .collect();
    v.push("l".repeat(255));
    v.push(format!("{}/{}", "m".repeat(200), "n".repeat(200)));
    v.push((0..4).map(|i| format!("{i}").repeat(255)).collect::<Vec<_>>().join("/") + "/");
    let mut k = (0..4).map(|i| format!("{i}").repeat(254)).collect::<Vec<_>>().join("/");
    while k.len() < 1022 {
        k.push_str("/x");
    }
    k.truncate(1024);
    v.push(k.trim_end_matches('/').to_owned());
    v.push("ü".repeat(127));
    v.push("d/".repeat(40) + "k");
    v.push("d/".repeat(511) + "k");
    v.retain(|k| !k.ends_with('/'));
    if thorough {
        for c in 0x20u8..0x7f {
            let c = c as char;
            if c != '/' {
                v.push(format!("p{c}q"));
                if c != '.' {
                    v.push(format!("{c}"));
                    v.push(format!("%{c}"));
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn shapes(cx: &mut Cx) {
    for k in key_shapes(cx.thorough) {
        // a near miss of the key, which must stay independent of it
        let mut other = format!("{}x", k.trim_end_matches(|c: char| !c.is_ascii()));
        if k.len() > 200 {
            other = s("other");
        }
        cx.case(
            || format!("key {k:?}"),
            |cx| {
                let ops = [
                    create("aaa"),
                    create("bbb"),
                    put_meta("bbb", &k, b"in the other bucket", M1),
                    put("aaa", &other, b"other key"),
                    put_meta("aaa", &k, b"content", M2),
                    copy("aaa", &k, "bbb", &k),
                    put("aaa", &k, b"content 2"),
                    upload_meta("aaa", &k, M1),
                    part(0, "aaa", &k, 1, b"content 3"),
                    complete(0, "aaa", &k, &[(1, Tag::Unquoted)]),
                    del("aaa", &k),
                    copy("bbb", &k, "aaa", &k),
                    mdel("aaa", &[&k]),
                ];
                let keys: &[&str] = &[&k, &other];
                let (w, _m) = run_history(cx, &ops, &["aaa", "bbb"], keys, true)?;
                cx.add("traces", 1);
                crate::report::remove_tree(&w.dir);
                Ok(())
            },
        );
    }
    // metadata
    let long = "v".repeat(1900);
    let names = ["a", "content-type", "x-y_z", "0", "etag", "amz-meta-a", "a.b", "very-long-name-very-long-name-very-long-name"];
    let values = ["", "1", "a b", "a  b", "a\"b\\c", "{\"a\":1}", "a=b; c", "%41", "ü", &long];
    for n in names {
        for v in values {
            cx.case(
                || format!("metadata {n:?}: {v:?}"),
                |cx| {
                    if !v.is_ascii() {
                        return Ok(());
                    }
                    let ops = [
                        create("aaa"),
                        put_meta("aaa", "k", b"content", &[(n, v), ("second", "2")]),
                        copy("aaa", "k", "aaa", "l"),
                        put_meta("aaa", "k", b"content", &[("only", v)]),
                    ];
                    history(cx, &ops, &["aaa"], &["k", "l"])
                },
            );
        }
    }
    // many entries, large ones, and every character that a name and a value can have
    let owned = |v: &[(String, String)]| v.to_vec();
    let mut sets: Vec<Vec<(String, String)>> = Vec::new();
    for n in [3usize, 10, 16, 17, 32, 33, 64, 100, 101, 200, 257] {
        sets.push((0..n).map(|i| (format!("n{i}"), format!("v{}", i * 7))).collect());
    }
    for len in [127usize, 128, 255, 256, 1023, 1024, 2048, 4095, 4096, 8192, 20000] {
        sets.push(vec![(s("long"), "v".repeat(len)), (s("short"), s("1"))]);
        if len < 8192 {
            sets.push(vec![("n".repeat(len), s("1")), (s("short"), s("1"))]);
        }
    }
    for c in (0x20u8..0x7f).map(char::from) {
        if c != ' ' {
            sets.push(vec![(s("c"), format!("{c}")), (s("d"), format!("{c}{c}a{c}")), (s("e"), format!("a{c}b"))]);
        }
        if c.is_ascii_lowercase() || c.is_ascii_digit() || "!#$%&'*+-.^_`|~".contains(c) {
            sets.push(vec![(format!("{c}"), s("1")), (format!("a{c}b"), s("2")), (format!("a{c}"), s("3")), (s("a"), s("4"))].into_iter().collect::<std::collections::BTreeMap<_, _>>().into_iter().collect());
        }
    }
    for set in sets {
        cx.case(
            || format!("metadata of {} entries that starts with {}", set.len(), format!("{:?}", set[0]).chars().take(60).collect::<String>()),
            |cx| {
                let set = owned(&set);
                let m: Vec<(&str, &str)> = set.iter().map(|(n, v)| (n.as_str(), v.as_str())).collect();
                let ops = [
                    create("aaa"),
                    put_meta("aaa", "k", b"content", &m),
                    copy("aaa", "k", "aaa", "l"),
                    upload_meta("aaa", "m", &m),
                    part(0, "aaa", "m", 1, b"of parts"),
                    complete(0, "aaa", "m", &[(1, Tag::Unquoted)]),
                    copy_replace("aaa", "k", "aaa", "n", &m),
                    put_meta("aaa", "k", b"content", &m[1..]),
                ];
                history(cx, &ops, &["aaa"], &["k", "l", "m", "n"])
            },
        );
    }
}

// --- S02 ---

fn s02(cx: &mut Cx) {
    search(
        cx,
        &Search {
            name: "buckets",
            setup: vec![],
            alphabet: vec![
                create("aaa"),
                create("bbb"),
                Op::DeleteBucket(s("aaa")),
                Op::DeleteBucket(s("bbb")),
                put("aaa", "k", b"one"),
                put_meta("bbb", "d/k", b"two", M1),
                del("aaa", "k"),
                del("bbb", "d/k"),
                mdel("bbb", &["d/k", "k"]),
                copy("aaa", "k", "bbb", "d/k"),
                copy("bbb", "d/k", "aaa", "k"),
                upload("aaa", "k"),
                part(0, "aaa", "k", 1, b"part"),
                complete(0, "aaa", "k", &[(1, Tag::Good)]),
            ],
            depth: if cx.thorough { 10 } else { 7 },
            full: if cx.thorough { 4 } else { 3 },
            buckets: &["aaa", "bbb"],
            keys: &["k", "d/k"],
        },
    );
    // with everything observed after every step on the same instance
    search(
        cx,
        &Search {
            name: "buckets, observed after every step",
            setup: vec![],
            alphabet: vec![
                create("aaa"),
                Op::DeleteBucket(s("aaa")),
                put("aaa", "k", b"one"),
                put_meta("aaa", "k", b"two", M1),
                put_meta("aaa", "d/k", b"six", M1),
                del("aaa", "k"),
                create("bbb"),
                Op::DeleteBucket(s("bbb")),
                Op::Restart,
            ],
            depth: if cx.thorough { 5 } else { 4 },
            full: usize::MAX,
            buckets: &["aaa", "bbb"],
            keys: &["k", "d/k"],
        },
    );
    resembling_buckets(cx);
    // many buckets
    for n in [30usize, 101, 300, 1001] {
        cx.case(
            || format!("{n} buckets"),
            |cx| {
                let dir = cx.fresh_dir();
                let mut w = World::new(&dir);
                let mut m = Model::default();
                let names: Vec<String> = (0..n).map(|i| format!("b{}-{i}", i * 7919 % 1013)).collect();
                for b in &names {
                    step(cx, &mut w, &mut m, &create(b))?;
                }
                observe(cx, &w, &m, &["aaa"], &["k"])?;
                for b in &names {
                    step(cx, &mut w, &mut m, &create(b))?;
                }
                for b in names.iter().step_by(2) {
                    step(cx, &mut w, &mut m, &Op::DeleteBucket(b.clone()))?;
                }
                w.restart();
                observe(cx, &w, &m, &["aaa"], &["k"])?;
                crate::report::remove_tree(&dir);
                Ok(())
            },
        );
    }
    foreign_entries(cx);
    // every operation on a missing bucket is refused without effect, and every one on an
    // existing bucket with each kind of content leaves the bucket in existence
    let b = "aaa";
    let requests: Vec<(&str, Rq)> = vec![
        ("HeadBucket", Rq::new("HEAD", "/aaa")),
        ("GetBucketLocation", Rq::new("GET", "/aaa").q("location")),
        ("ListObjects", Rq::new("GET", "/aaa")),
        ("ListObjects with prefix", Rq::new("GET", "/aaa").q("prefix=a")),
        ("ListObjectsV2", Rq::new("GET", "/aaa").q("list-type=2")),
        ("DeleteBucket", Rq::new("DELETE", "/aaa")),
        ("GetObject", Rq::obj("GET", b, "k")),
        ("GetObject of a directory", Rq::obj("GET", b, "k/")),
        ("GetObject with range", Rq::obj("GET", b, "k").h("range", "bytes=0-0")),
        ("HeadObject", Rq::obj("HEAD", b, "k")),
        ("PutObject", Rq::obj("PUT", b, "k").body("x")),
        ("PutObject, empty", Rq::obj("PUT", b, "k").body("")),
        ("PutObject, nested", Rq::obj("PUT", b, "d/e/k").body("x")),
        ("PutObject of a directory", Rq::obj("PUT", b, "k/").body("")),
        ("PutObject with metadata", Rq::obj("PUT", b, "k").h("x-amz-meta-a", "b").body("x")),
        ("DeleteObject", Rq::obj("DELETE", b, "k")),
        ("DeleteObject of a directory", Rq::obj("DELETE", b, "k/")),
        ("DeleteObjects", Rq::new("POST", "/aaa").q("delete").body("<Delete><Object><Key>k</Key></Object></Delete>")),
        ("CopyObject to it", Rq::obj("PUT", b, "k").h("x-amz-copy-source", "bbb/k").body("")),
        ("CopyObject from it", Rq::obj("PUT", "bbb", "l").h("x-amz-copy-source", "aaa/k").body("")),
        ("CreateMultipartUpload", Rq::obj("POST", b, "k").q("uploads")),
        ("UploadPart", Rq::obj("PUT", b, "k").q("partNumber=1&uploadId=00000000-0000-4000-8000-000000000000").body("x")),
        ("CompleteMultipartUpload", Rq::obj("POST", b, "k").q("uploadId=00000000-0000-4000-8000-000000000000").body("<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part></CompleteMultipartUpload>")),
    ];
    for history in 0..3 {
        for (name, rq) in &requests {
            cx.case(
                || format!("{name} on a bucket {}", ["never created", "deleted", "deleted after an object"][history]),
                |cx| {
                    let mut ops = vec![create("bbb"), put_meta("bbb", "k", b"source", M1)];
                    if history > 0 {
                        ops.push(create("aaa"));
                    }
                    if history == 2 {
                        ops.extend([put_meta("aaa", "k", b"gone", M2), put("aaa", "d/e/k", b"gone"), mdel("aaa", &["k", "d/e/k"])]);
                    }
                    if history > 0 {
                        ops.push(Op::DeleteBucket(s("aaa")));
                    }
                    let (w, m) = run_history(cx, &ops, &["aaa", "bbb"], &["k", "l"], false)?;
                    let before = w.canonical_tree();
                    let rs = w.call(rq)?;
                    cx.add("transitions", 1);
                    ensure!(rs.status == 404, "{name}: the bucket does not exist, got {}", rs.show());
                    if rq.method != "HEAD" {
                        check_error(name, &rs)?;
                        let code = rs.code().unwrap_or_default();
                        let want: &[&str] = match *name {
                            "CopyObject from it" | "GetObject" | "GetObject of a directory" | "GetObject with range" => &["NoSuchKey", "NoSuchBucket"],
                            "UploadPart" => &["NoSuchUpload", "NoSuchBucket"],
                            _ => &["NoSuchBucket"],
                        };
                        ensure!(want.contains(&code.as_str()), "{name}: expected {want:?}, got {}", rs.show());
                    }
                    ensure!(w.canonical_tree() == before, "{name} on a missing bucket changes the files: {:?} instead of {before:?}", w.canonical_tree());
                    observe(cx, &w, &m, &["aaa", "bbb"], &["k", "l"])?;
                    cx.add("traces", 1);
                    crate::report::remove_tree(&w.dir);
                    Ok(())
                },
            );
        }
    }
}

/// What lies below the root and cannot be a bucket is neither listed nor touched.
fn foreign_entries(cx: &mut Cx) {
    let long = "b".repeat(64);
    let dirs = [
        "lost+found", "Upper", "a", "ab", "..x", "...", ".hidden", "-abc", "abc-", "abc.", "a_b", "a b", "192.168.1.1", "xn--abc", "BUCKET", "bucket~", "#bucket#", "b\u{e9}c", &long,
        "$RECYCLE.BIN", "System Volume Information", "__MACOSX",
    ];
    let files = ["bucket-file", "README", "aab", "abc.txt", "192.168.1.2", "zzz"];
    for name in dirs.iter().chain(&files) {
        for filled in [false, true] {
            cx.case(
                || format!("{name:?} lies below the root{}", if filled { ", with content" } else { "" }),
                |cx| {
                    let dir = cx.fresh_dir();
                    let mut w = World::new(&dir);
                    let mut m = Model::default();
                    let path = w.root.join(name);
                    if files.contains(name) {
                        std::fs::write(&path, if filled { "text" } else { "" }).unwrap();
                    } else {
                        std::fs::create_dir(&path).unwrap();
                        if filled {
                            std::fs::write(path.join("k"), "text").unwrap();
                            std::fs::create_dir(path.join("d")).unwrap();
                        }
                    }
                    let ops = [
                        create("aaa"),
                        put_meta("aaa", "k", b"one", M1),
                        create("bbb"),
                        put("aaa", "d/l", b"two"),
                        Op::Restart,
                        del("aaa", "k"),
                        Op::DeleteBucket(s("bbb")),
                        mdel("aaa", &["d/l"]),
                        Op::DeleteBucket(s("aaa")),
                        create("aaa"),
                    ];
                    for (i, op) in ops.iter().enumerate() {
                        let r = step(cx, &mut w, &mut m, op).and_then(|_| observe(cx, &w, &m, &["aaa", "bbb"], &["k", "d/l"]));
                        r.map_err(|mut e| {
                            e.what = format!("after {}: {}", show(&ops[..=i]), e.what);
                            e
                        })?;
                    }
                    let there = if files.contains(name) {
                        std::fs::read(&path).map(|d| d == if filled { &b"text"[..] } else { b"" }).unwrap_or(false)
                    } else {
                        path.is_dir() && (!filled || std::fs::read(path.join("k")).map(|d| d == b"text").unwrap_or(false) && path.join("d").is_dir())
                    };
                    ensure!(there, "{name:?}, which no request names, is changed");
                    cx.add("traces", 1);
                    crate::report::remove_tree(&dir);
                    Ok(())
                },
            );
        }
    }
}

pub fn form(path: &str, key: &str, file: &[u8]) -> Rq {
    let mut body = format!("--B\r\nContent-Disposition: form-data; name=\"key\"\r\n\r\n{key}\r\n--B\r\nContent-Disposition: form-data; name=\"file\"; filename=\"f\"\r\nContent-Type: text/plain\r\n\r\n").into_bytes();
    body.extend_from_slice(file);
    body.extend_from_slice(b"\r\n--B--\r\n");
    Rq::new("POST", path).h("content-type", "multipart/form-data; boundary=B").body(body)
}

// --- S03 ---

fn list_rq(b: &str, prefix: Option<&str>, v2: bool, url: bool) -> Rq {
    let mut q: Vec<(&str, &str)> = vec![];
    if v2 {
        q.push(("list-type", "2"));
    }
    if let Some(p) = prefix {
        q.push(("prefix", p));
    }
    if url {
        q.push(("encoding-type", "url"));
    }
    let rq = Rq::new("GET", &format!("/{b}"));
    if q.is_empty() {
        rq
    } else {
        rq.qs(&q)
    }
}

/// decode the keys of a listing with encoding-type=url
fn decode_listing(rs: &api::Rs) -> Result<api::Rs, Fail> {
    let mut x = rs.xml().map_err(|e| format!("{e}: {}", rs.show()))?;
    ensure_url(&x, rs)?;
    fn go(x: &mut api::Xml) -> Result<(), Fail> {
        for c in &mut x.children {
            if c.name == "Key" {
                c.text = api::pct_decode(&c.text, true).ok_or_else(|| format!("key {:?} is not url encoded", c.text))?;
            }
            go(c)?;
        }
        Ok(())
    }
    go(&mut x)?;
    fn write(x: &api::Xml, o: &mut String) {
        o.push_str(&format!("<{}>{}", x.name, api::xml_escape(&x.text)));
        for c in &x.children {
            write(c, o);
        }
        o.push_str(&format!("</{}>", x.name));
    }
    let mut o = String::new();
    write(&x, &mut o);
    Ok(api::Rs { body: o.into_bytes(), ..rs.clone() })
}

fn ensure_url(x: &api::Xml, rs: &api::Rs) -> R {
    ensure!(x.text_of("EncodingType").as_deref() == Some("url"), "EncodingType is not reported: {}", rs.show());
    Ok(())
}

fn check_all_lists(cx: &mut Cx, w: &World, m: &Model, b: &str, prefixes: &[String]) -> R {
    for v2 in [false, true] {
        for url in [false, true] {
            for p in std::iter::once(None).chain(prefixes.iter().map(|p| Some(p.as_str()))) {
                let rq = list_rq(b, p, v2, url);
                let mut rs = w.call(&rq)?;
                if url && m.buckets.contains_key(b) {
                    rs = decode_listing(&rs).map_err(|mut e| {
                        e.what = format!("{}: {}", rq.show(), e.what);
                        e
                    })?;
                }
                check_list(m, b, p.unwrap_or(""), &rs, v2).map_err(|mut e| {
                    e.what = format!("{}: {}", rq.show(), e.what);
                    e
                })?;
                cx.add("evaluations", 1);
                cx.outcome(&rs.body);
            }
        }
    }
    Ok(())
}

/// all prefixes of the keys, and strings that are none
fn prefixes_of(keys: &[&str]) -> Vec<String> {
    let mut v = vec![];
    for k in keys {
        for (i, _) in k.char_indices().chain(std::iter::once((k.len(), ' '))) {
            v.push(s(&k[..i]));
        }
        v.push(format!("{k}x"));
        v.push(format!("/{k}"));
        v.push(format!("{k}/"));
    }
    v.extend(["x".into(), "/".into(), ".".into(), "%61".into(), "c/d/e/f".into(), "c//".into()]);
    v.sort();
    v.dedup();
    v
}

fn s03(cx: &mut Cx) {
    let sets: Vec<Vec<&str>> = vec![
        vec!["a", "ab", "a-b", "a.b", "b/a", "b/b", "b/c/d", "b-", "c/a"],
        vec!["ü", "ü/a", "e\u{301}", "\u{e9}", "日本/語", "😀", "z"].into_iter().filter(|k| *k != "ü").collect(),
        vec!["a b", "a+b", "a%20b", "a&b", "<x>", "\"'", "a\\b", "%"],
        vec!["a\rb", "a\nb", " a", "a ", "a\tb", "]]>", "a\r\nb", "\u{85}x"],
        vec![".c", "..a", "a..", ".a/.b", ".a/c", "A", "Z/a", "_"],
    ];
    for (si, set) in sets.iter().enumerate() {
        let prefixes = prefixes_of(set);
        let n = if cx.thorough { set.len() } else { set.len().min(7) };
        let set = &set[..n];
        for mask in 0u32..(1 << n) {
            cx.case(
                || format!("key set {si}/{mask:b}"),
                |cx| {
                    let mut ops = vec![create("aaa"), create("bbb"), put("bbb", "other", b"x"), put_meta("bbb", "a", b"x", M1)];
                    for (i, k) in set.iter().enumerate() {
                        if mask & (1 << i) != 0 {
                            ops.push(if i % 2 == 0 { put("aaa", k, &content(1, i * 3)) } else { put_meta("aaa", k, &content(2, i), M2) });
                        }
                    }
                    let dir = cx.fresh_dir();
                    let mut w = World::new(&dir);
                    let mut m = Model::default();
                    for op in &ops {
                        step(cx, &mut w, &mut m, op)?;
                    }
                    check_all_lists(cx, &w, &m, "aaa", &prefixes)?;
                    cx.state(&(&m, w.canonical_tree()));
                    // bulk deletion
                    let subs: Vec<u32> = if n <= 4 || mask.count_ones() <= 2 { (0..8).collect() } else { vec![(mask >> 1) & 7, 5] };
                    let keys: Vec<&str> = set.to_vec();
                    for sub in subs {
                        let base = (mask.count_ones() as usize) % (n.saturating_sub(2).max(1));
                        let mut ks: Vec<&str> = (0..3).filter(|i| sub & (1 << i) != 0).map(|i| keys[(base + i) % n]).collect();
                        if sub == 7 {
                            ks.push("never-existed");
                        }
                        if ks.is_empty() {
                            continue;
                        }
                        let op = Op::MultiDelete { b: s("aaa"), ks: ks.iter().map(|k| s(k)).collect(), quiet: sub == 6 };
                        step(cx, &mut w, &mut m, &op).map_err(|mut e| {
                            e.what = format!("keys {:?}: {}", m.buckets["aaa"].keys().collect::<Vec<_>>(), e.what);
                            e
                        })?;
                        check_all_lists(cx, &w, &m, "aaa", &[s("")])?;
                    }
                    let mut keys: Vec<&str> = keys.iter().copied().take(3).collect();
                    keys.push("never-existed");
                    observe(cx, &w, &m, &["aaa", "bbb"], &keys)?;
                    cx.add("traces", 1);
                    crate::report::remove_tree(&dir);
                    Ok(())
                },
            );
        }
    }
    // listings along histories
    search(
        cx,
        &Search {
            name: "listings",
            setup: vec![create("aaa"), create("bbb")],
            alphabet: vec![
                put("aaa", "b", b"1"),
                put_meta("aaa", "d/x", b"22", M1),
                put("aaa", "d/e/y", b"333"),
                put("aaa", "d-", b"4444"),
                put("bbb", "b", b"55555"),
                put("aaa", "dir/", b""),
                del("aaa", "b"),
                del("aaa", "d/x"),
                del("aaa", "dir/"),
                mdel("aaa", &["b", "d/x", "d/e/y"]),
                mdel("aaa", &["d", "d/e", "d-", "dir"]),
                copy("aaa", "b", "aaa", "d/x"),
                copy("aaa", "d/x", "bbb", "b"),
            ],
            depth: if cx.thorough { 6 } else { 3 },
            full: 2,
            buckets: &["aaa", "bbb"],
            keys: &["b", "d/x", "d/e/y", "d-"],
        },
    );
    // with everything observed after every step on the same instance
    search(
        cx,
        &Search {
            name: "listings, observed after every step",
            setup: vec![create("aaa")],
            alphabet: vec![
                put("aaa", "b", b"1"),
                put("aaa", "b", b"2"),
                put("aaa", "d/x", b"22"),
                put("aaa", "d/y", b"333"),
                del("aaa", "b"),
                del("aaa", "d/x"),
                mdel("aaa", &["d/x", "d/y"]),
                copy("aaa", "b", "aaa", "d/x"),
                Op::Restart,
            ],
            depth: if cx.thorough { 5 } else { 4 },
            full: usize::MAX,
            buckets: &["aaa"],
            keys: &["b", "d/x", "d/y"],
        },
    );
    // many objects
    for n in [10usize, 100, 1000, 1001, 2500] {
        if n > 1001 && !cx.thorough {
            continue;
        }
        cx.case(
            || format!("{n} objects"),
            |cx| {
                let dir = cx.fresh_dir();
                let mut w = World::new(&dir);
                let mut m = Model::default();
                step(cx, &mut w, &mut m, &create("aaa"))?;
                for i in 0..n {
                    let k = format!("{}/{:x}", i % 7, i * 2_654_435_761 % 65_536 + i * 65_536);
                    step(cx, &mut w, &mut m, &put("aaa", &k, &content(1, i % 5)))?;
                }
                check_all_lists(cx, &w, &m, "aaa", &[s("1"), s("1/"), s("3/1"), s("9")])?;
                let ks: Vec<String> = m.buckets["aaa"].keys().cloned().collect();
                for chunk in ks.chunks(1000) {
                    let del: Vec<&str> = chunk.iter().step_by(2).map(|k| k.as_str()).collect();
                    step(cx, &mut w, &mut m, &mdel("aaa", &del))?;
                }
                check_all_lists(cx, &w, &m, "aaa", &[s("1"), s("3/1")])?;
                crate::report::remove_tree(&dir);
                Ok(())
            },
        );
    }
}

// --- S04 ---

fn s04(cx: &mut Cx) {
    let good = Tag::Good;
    search(
        cx,
        &Search {
            name: "multipart",
            setup: vec![create("aaa"), put_meta("aaa", "k", b"old", M1)],
            alphabet: vec![
                upload_meta("aaa", "k", M1),
                upload("aaa", "l"),
                part(0, "aaa", "k", 1, b"A1"),
                part(0, "aaa", "k", 2, b"B22"),
                part(0, "aaa", "k", 1, b"C333"),
                Op::Part { u: 0, b: s("aaa"), k: s("k"), n: 2, data: b"D4444".to_vec(), md5: Md5::Bad, abort: None },
                part(1, "aaa", "k", 1, b"E55"),
                part(1, "aaa", "l", 1, b"F6"),
                complete(0, "aaa", "k", &[(1, good.clone())]),
                complete(0, "aaa", "k", &[(1, Tag::None), (2, good.clone())]),
                complete(0, "aaa", "k", &[(2, Tag::Unquoted), (1, good.clone())]),
                complete(0, "aaa", "k", &[(2, Tag::Bad)]),
                complete(0, "aaa", "l", &[(1, good.clone())]),
                complete(1, "aaa", "l", &[(1, good.clone())]),
                complete(1, "aaa", "k", &[(1, good.clone())]),
                put_meta("aaa", "l", b"plain", M2),
                del("aaa", "k"),
            ],
            depth: if cx.thorough { 6 } else { 4 },
            full: 2,
            buckets: &["aaa"],
            keys: &["k", "l"],
        },
    );
    // with everything observed after every step on the same instance
    search(
        cx,
        &Search {
            name: "multipart, observed after every step",
            setup: vec![create("aaa"), put_meta("aaa", "k", b"old", M1)],
            alphabet: vec![
                upload_meta("aaa", "k", M2),
                upload("aaa", "k"),
                part(0, "aaa", "k", 1, b"A1"),
                part(0, "aaa", "k", 1, b"B2"),
                part(0, "aaa", "k", 2, b"C3"),
                part(1, "aaa", "k", 1, b"D4"),
                complete(0, "aaa", "k", &[(1, good.clone())]),
                complete(0, "aaa", "k", &[(1, good.clone()), (2, good.clone())]),
                complete(1, "aaa", "k", &[(1, good.clone())]),
                Op::Restart,
            ],
            depth: if cx.thorough { 5 } else { 4 },
            full: usize::MAX,
            buckets: &["aaa"],
            keys: &["k"],
        },
    );
    // from an upload with parts on
    search(
        cx,
        &Search {
            name: "multipart, two uploads in progress",
            setup: vec![
                create("aaa"),
                create("bbb"),
                upload("aaa", "k"),
                upload_meta("aaa", "k", M2),
                part(0, "aaa", "k", 1, b"A1"),
                part(0, "aaa", "k", 2, b"B2"),
                part(1, "aaa", "k", 1, b"C3"),
                part(1, "aaa", "k", 3, b"D4"),
            ],
            alphabet: vec![
                part(0, "aaa", "k", 2, b"again"),
                part(1, "aaa", "k", 2, b"E5"),
                part(0, "bbb", "k", 1, b"wrong bucket"),
                part(0, "aaa", "k/x", 1, b"wrong key"),
                Op::Part { u: 1, b: s("aaa"), k: s("k"), n: 1, data: b"aborted".to_vec(), md5: Md5::None, abort: Some(3) },
                complete(0, "aaa", "k", &[(1, good.clone()), (2, good.clone())]),
                complete(0, "aaa", "k", &[(1, good.clone()), (3, Tag::None)]),
                complete(0, "bbb", "k", &[(1, good.clone())]),
                complete(1, "aaa", "k", &[(1, good.clone()), (2, Tag::None), (3, good.clone())]),
                complete(1, "aaa", "k", &[(1, good.clone()), (3, good.clone())]),
                complete(1, "aaa", "k", &[(3, good.clone()), (1, good.clone())]),
                complete(1, "aaa", "k", &[(1, good.clone()), (1, good.clone())]),
                complete(0, "aaa", "k", &[(1, Tag::Bad), (2, good.clone())]),
                complete(0, "aaa", "k", &[]),
                complete(9, "aaa", "k", &[(1, Tag::None)]),
                part(9, "aaa", "k", 1, b"no such upload"),
                put_meta("aaa", "k", b"plain", M2),
                copy("aaa", "k", "bbb", "k"),
            ],
            depth: if cx.thorough { 6 } else { 3 },
            full: 2,
            buckets: &["aaa", "bbb"],
            keys: &["k"],
        },
    );
    // all sets of uploaded parts and all lists of parts over small numbers
    let lists: Vec<Vec<i64>> = {
        let mut v: Vec<Vec<i64>> = vec![vec![]];
        let mut all = vec![];
        for _ in 0..3 {
            let mut next = vec![];
            for l in &v {
                for n in 1..=4 {
                    let mut l: Vec<i64> = l.clone();
                    l.push(n);
                    next.push(l);
                }
            }
            all.extend(next.clone());
            v = next;
        }
        all
    };
    for uploaded in 0u32..16 {
        for list in &lists {
            for tag in [Tag::Good, Tag::None, Tag::Bad] {
                if tag == Tag::Bad && list.len() > 2 {
                    continue;
                }
                cx.case(
                    || format!("parts {uploaded:04b} uploaded, {list:?} completed with ETag {tag:?}"),
                    |cx| {
                        let mut ops = vec![create("aaa"), put_meta("aaa", "k", b"old", M1), upload("aaa", "k")];
                        for n in [3i64, 1, 4, 2] {
                            if uploaded & (1 << (n - 1)) != 0 {
                                ops.push(part(0, "aaa", "k", n, &content(n as u8, n as usize * 10)));
                            }
                        }
                        let l: Vec<(i64, Tag)> = list.iter().enumerate().map(|(i, n)| (*n, if i + 1 == list.len() { tag.clone() } else { Tag::Good })).collect();
                        ops.push(complete(0, "aaa", "k", &l));
                        // a refused completion can be corrected
                        if let Some(n) = (1..=4i64).find(|n| uploaded & (1 << (n - 1)) != 0) {
                            ops.push(complete(0, "aaa", "k", &[(n, Tag::Good)]));
                        }
                        let (w, m) = run_history(cx, &ops, &["aaa"], &["k"], true)?;
                        cx.add("traces", 1);
                        cx.state(&(&m, w.canonical_tree()));
                        crate::report::remove_tree(&w.dir);
                        Ok(())
                    },
                );
            }
        }
    }
    // ETags that nearly are the right one
    let near: Vec<Tag> = (0..32).map(Tag::Flip).chain((1..32).map(Tag::Cut)).chain((1..=32).map(Tag::Long)).collect();
    for tag in near {
        for wrong in 0..3 {
            cx.case(
                || format!("three parts completed with ETag {tag:?} of number {}", wrong + 1),
                |cx| {
                    let mut ops = vec![create("aaa"), put_meta("aaa", "k", b"old", M1), upload("aaa", "k")];
                    ops.extend((1..=3).map(|n| part(0, "aaa", "k", n, &content(n as u8, n as usize * 10))));
                    let with = |t: &Tag| complete(0, "aaa", "k", &(0..3).map(|i| (i + 1, if i == wrong { t.clone() } else { Tag::Good })).collect::<Vec<_>>());
                    ops.extend([with(&tag), with(&Tag::Good)]);
                    let (w, m) = run_history(cx, &ops, &["aaa"], &["k"], true)?;
                    cx.add("traces", 1);
                    cx.state(&(&m, w.canonical_tree()));
                    crate::report::remove_tree(&w.dir);
                    Ok(())
                },
            );
        }
    }
    // part numbers and sizes
    let numbers: Vec<Vec<i64>> = vec![
        (1..=12).collect(),
        vec![1, 2, 10, 11, 20, 100],
        vec![1, 10000],
        vec![9, 10],
        vec![99, 100, 101],
        vec![2],
        vec![1, 3, 5, 7, 9, 11, 13],
        (1..=40).collect(),
        vec![1, 257, 513],
        vec![2, 258, 2050, 4098, 8194],
        vec![1, 100, 1000, 10000],
        vec![1, 11, 111, 1111],
    ];
    for ns in &numbers {
        for reverse in [false, true] {
            for size in [0usize, 1, 4096, 8193, 70000] {
                if size > 10000 && ns.len() > 12 {
                    continue;
                }
                cx.case(
                    || format!("part numbers {ns:?} {}of {size} bytes and up", if reverse { "uploaded in reverse " } else { "" }),
                    |cx| {
                        let mut ops = vec![create("aaa"), upload("aaa", "d/k")];
                        let mut order = ns.clone();
                        if reverse {
                            order.reverse();
                        }
                        for n in &order {
                            ops.push(part(0, "aaa", "d/k", *n, &content((*n % 256) as u8, size + (*n as usize % 3))));
                        }
                        ops.push(complete(0, "aaa", "d/k", &ns.iter().map(|n| (*n, Tag::Good)).collect::<Vec<_>>()));
                        ops.push(complete(0, "aaa", "d/k", &[(ns[0], Tag::None)]));
                        let (w, _) = run_history(cx, &ops, &["aaa"], &["d/k"], false)?;
                        // nothing is left of the upload
                        let rest: Vec<_> = w.tree().into_iter().map(|t| t.0).filter(|p| p.contains(".upload") || p.contains(".tmp")).collect();
                        ensure!(rest.is_empty(), "files of a completed upload are left: {rest:?}");
                        cx.add("traces", 1);
                        crate::report::remove_tree(&w.dir);
                        Ok(())
                    },
                );
            }
        }
    }
    // many parts
    for n in [60i64, 101, 1001, 1500, 10000] {
        if n > 1500 && !cx.thorough {
            continue;
        }
        cx.case(
            || format!("{n} parts"),
            |cx| {
                let mut ops = vec![create("aaa"), upload("aaa", "k")];
                ops.extend((1..=n).map(|i| part(0, "aaa", "k", i, format!("{i};").as_bytes())));
                let all: Vec<(i64, Tag)> = (1..=n).map(|n| (n, Tag::Good)).collect();
                let mut wrong = all.clone();
                wrong[n as usize - 1].1 = Tag::Bad;
                ops.extend([complete(0, "aaa", "k", &wrong), complete(0, "aaa", "k", &all)]);
                let (w, _) = run_history(cx, &ops, &["aaa"], &["k"], false)?;
                let rest: Vec<_> = w.tree().into_iter().map(|t| t.0).filter(|p| p.contains(".upload") || p.contains(".tmp")).collect();
                ensure!(rest.is_empty(), "files of a completed upload are left: {} of them", rest.len());
                cx.add("traces", 1);
                crate::report::remove_tree(&w.dir);
                Ok(())
            },
        );
    }
    odd_numbers(cx);
    other_objects(cx);
    // names that are no uploads
    let ids = [
        "", "x", "00000000-0000-4000-8000-000000000000", "../aaa", "..", "a/b", "%2e%2e", "*", "ID ", " ID", "ID-part-1", "ID.part-1", "ID.json", "UPPER", "SIMPLE", "{ID}", "urn:uuid:ID", "ID/../ID", "\0", "ü",
    ];
    for id in ids {
        for op in 0..2 {
            cx.case(
                || format!("{} with upload id {id:?}", ["UploadPart", "CompleteMultipartUpload"][op]),
                |cx| {
                    let ops = [create("aaa"), put_meta("aaa", "k", b"old", M1), upload("aaa", "k"), part(0, "aaa", "k", 1, b"A")];
                    let (w, m) = run_history(cx, &ops, &["aaa"], &["k"], false)?;
                    let real = &w.ids[0];
                    let id = id
                        .replace("UPPER", &real.to_uppercase())
                        .replace("SIMPLE", &real.replace('-', ""))
                        .replace("ID", real);
                    if id == *real {
                        return Ok(());
                    }
                    let before = w.tree();
                    let rs = if op == 0 {
                        w.call(&Rq::obj("PUT", "aaa", "k").qs(&[("partNumber", "1"), ("uploadId", &id)]).body("evil"))?
                    } else {
                        w.call(&Rq::obj("POST", "aaa", "k").qs(&[("uploadId", &id)]).body("<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part></CompleteMultipartUpload>"))?
                    };
                    cx.add("transitions", 1);
                    ensure!(rs.status == 404 && rs.code().as_deref() == Some("NoSuchUpload"), "expected 404 NoSuchUpload for upload id {id:?}, got {}", rs.show());
                    ensure!(w.tree() == before, "the refused request changes the files");
                    observe(cx, &w, &m, &["aaa"], &["k"])?;
                    crate::report::remove_tree(&w.dir);
                    Ok(())
                },
            );
        }
    }
}

/// numbers that no part can have, and numbers that could be taken for those of other parts
fn odd_numbers(cx: &mut Cx) {
    let setup = || {
        vec![
            create("aaa"),
            put_meta("aaa", "k", b"old", M1),
            upload_meta("aaa", "k", M2),
            part(0, "aaa", "k", 1, b"A1"),
            part(0, "aaa", "k", 2, b"B22"),
            part(0, "aaa", "k", 10000, b"C333"),
        ]
    };
    let parts = [(1, Tag::Good), (2, Tag::Good), (10000, Tag::Good)];
    let mut numbers: Vec<i128> = vec![0, -1, -2, 10001, 10002, 11000, 20001, 100_000, i128::from(i64::MAX), i128::from(i64::MIN)];
    for bits in [8, 15, 16, 31, 32, 63, 64] {
        for n in [0i128, 1, 2, 10000] {
            numbers.extend([(1i128 << bits) + n, n - (1i128 << bits)]);
        }
    }
    numbers.sort_unstable();
    numbers.dedup();
    let texts: Vec<String> = ["", "x", "1x", "x1", "1.5", "-", "0x1", "1,2", "1;2", "1/2", "one", "\u{661}", "\u{ff11}", "nan", "1e0", "--1"].iter().map(|t| s(t)).collect();
    for t in numbers.iter().map(|n| n.to_string()).chain(texts) {
        let number = t.parse::<i128>().ok();
        // what an upload can have
        let valid = number.map_or(false, |n| (1..=10000).contains(&n));
        for how in 0..3 {
            cx.case(
                || format!("part number {t:?}, {}", ["uploaded", "completed", "uploaded and completed"][how]),
                |cx| {
                    let (mut w, mut m) = run_history(cx, &setup(), &["aaa"], &["k"], false)?;
                    let id = w.ids[0].clone();
                    let mut uploaded = false;
                    if how != 1 {
                        let before = w.tree();
                        let rs = w.call(&Rq::obj("PUT", "aaa", "k").qs(&[("partNumber", &t), ("uploadId", &id)]).body("other"))?;
                        cx.add("transitions", 1);
                        uploaded = rs.ok();
                        ensure!(uploaded || !valid, "UploadPart with the part number {t:?} is refused: {}", rs.show());
                        ensure!(!uploaded || number.is_some(), "UploadPart with the part number {t:?} is accepted: {}", rs.show());
                        if uploaded {
                            let tag = format!("\"{}\"", api::md5_hex(b"other"));
                            ensure!(rs.header("etag").as_deref() == Some(&tag[..]), "UploadPart with the part number {t:?}: wrong ETag: {}", rs.show());
                        } else {
                            ensure!((400..500).contains(&rs.status), "UploadPart with the part number {t:?}: {}", rs.show());
                            crate::store::check_error("UploadPart", &rs)?;
                            ensure!(w.tree() == before, "the refused UploadPart with the part number {t:?} changes the files");
                        }
                    }
                    if how != 0 {
                        // first of all, or last of all
                        let listed = |n: &str, d: &str| format!("<Part><PartNumber>{n}</PartNumber><ETag>&quot;{}&quot;</ETag></Part>", api::md5_hex(d.as_bytes()));
                        let first = number.map_or(false, |n| n < 1);
                        let (a, b) = (listed("1", "A1"), listed(&t, "other"));
                        let doc = format!("<CompleteMultipartUpload>{}</CompleteMultipartUpload>", if first { b + &a } else { a + &b });
                        let before = w.tree();
                        let rs = w.call(&Rq::obj("POST", "aaa", "k").qs(&[("uploadId", &id)]).body(&doc))?;
                        cx.add("transitions", 1);
                        if uploaded && rs.ok() {
                            let data = if first { &b"otherA1"[..] } else { b"A1other" };
                            m.uploads[0].done = true;
                            m.uploads[0].parts.clear();
                            let meta = std::mem::take(&mut m.uploads[0].meta);
                            m.buckets.get_mut("aaa").unwrap().insert(s("k"), crate::store::Obj { data: data.to_vec(), meta });
                        } else {
                            ensure!((400..500).contains(&rs.status), "CompleteMultipartUpload with the part number {t:?}, {}: {}", if uploaded { "uploaded" } else { "not uploaded" }, rs.show());
                            ensure!(!(valid && uploaded), "CompleteMultipartUpload with the uploaded part {t:?} is refused: {}", rs.show());
                            crate::store::check_error("CompleteMultipartUpload", &rs)?;
                            ensure!(w.tree() == before, "the refused CompleteMultipartUpload with the part number {t:?} changes the files");
                        }
                    }
                    observe(cx, &w, &m, &["aaa"], &["k"])?;
                    step(cx, &mut w, &mut m, &complete(0, "aaa", "k", &parts))?;
                    observe(cx, &w, &m, &["aaa"], &["k"])?;
                    let rest: Vec<_> = w.tree().into_iter().map(|t| t.0).filter(|p| p.contains(".upload") || p.contains(".tmp")).collect();
                    ensure!(rest.is_empty(), "files of a completed upload are left: {rest:?}");
                    cx.add("traces", 1);
                    crate::report::remove_tree(&w.dir);
                    Ok(())
                },
            );
        }
    }
}

/// an upload is one of its object only, however much another one resembles it
fn other_objects(cx: &mut Cx) {
    let mut pool: Vec<(String, String)> = resembling(cx.thorough).into_iter().map(|k| (s("aaa"), k)).collect();
    pool.extend([("aaa", "x/readme"), ("aaax", "readme"), ("aaax", "x/readme"), ("aaa-x", "readme"), ("aaa.x", "readme"), ("aaa", "aaa/readme")].iter().map(|(b, k)| (s(b), s(k))));
    pool.sort();
    pool.dedup();
    for (b, k) in &pool {
        cx.case(
            || format!("uploads of objects that resemble {b}/{k:?}"),
            |cx| {
                let mut ops: Vec<Op> = ["aaa-x", "aaa", "aaax", "aaa.x"].iter().map(|b| create(b)).collect();
                ops.extend([upload_meta(b, k, M1), part(0, b, k, 1, b"A1"), part(0, b, k, 2, b"B22")]);
                let (mut w, mut m) = run_history(cx, &ops, &[], &[], false)?;
                let before = w.tree();
                let mut others: Vec<(String, String, bool)> = pool.iter().map(|(b, k)| (b.clone(), k.clone(), true)).collect();
                // (these need not be names of objects at all)
                let mut cut = k.clone();
                cut.pop();
                let base = k.rsplit('/').next().unwrap_or("");
                for o in [format!("{k}/"), format!("{k}/x"), format!("{k}x"), format!("x{k}"), format!("/{k}"), format!("./{k}"), format!("{b}/{k}"), format!("{k}\0"), format!("{k}#"), format!("{k}?uploads"), cut, s(base), format!("{k},1"), k.to_lowercase(), k.to_uppercase()] {
                    if !o.is_empty() {
                        others.push((b.clone(), o, false));
                    }
                }
                for (ob, ok, named) in &others {
                    if (ob, ok) == (b, k) {
                        continue;
                    }
                    for op in [part(0, ob, ok, 1, b"other"), part(0, ob, ok, 3, b"other"), complete(0, ob, ok, &[(1, Tag::Good)])] {
                        let what = crate::store::short(&op);
                        let rs = w.call(&crate::store::request(&op, &w.ids, &m))?;
                        cx.add("transitions", 1);
                        ensure!((400..500).contains(&rs.status), "an upload of {b}/{k:?}: {what} is answered by {}", rs.show());
                        ensure!(!named || rs.code().as_deref() == Some("NoSuchUpload"), "an upload of {b}/{k:?}: {what} is answered by {}", rs.show());
                    }
                }
                ensure!(w.tree() == before, "refused requests for an upload of {b}/{k:?} change the files");
                step(cx, &mut w, &mut m, &complete(0, b, k, &[(1, Tag::Good), (2, Tag::Good)]))?;
                same_objects(cx, &w, &m)?;
                cx.add("traces", 1);
                crate::report::remove_tree(&w.dir);
                Ok(())
            },
        );
    }
}

// --- S05 ---

#[derive(Debug, PartialEq, Clone)]
pub enum RangeOut {
    Part(u64, u64),
    NotSatisfiable,
    Malformed,
}

/// the meaning of a range, as RFC 7233 defines it for one byte range
pub fn range_meaning(r: &str, len: u64) -> RangeOut {
    let spec = match r.strip_prefix("bytes=") {
        Some(x) => x,
        None => return RangeOut::Malformed,
    };
    let (a, b) = match spec.split_once('-') {
        Some(x) => x,
        None => return RangeOut::Malformed,
    };
    let num = |x: &str| -> Option<Option<u128>> {
        if x.is_empty() {
            return Some(None);
        }
        if !x.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        Some(Some(x.parse::<u128>().unwrap_or(u128::MAX)))
    };
    let (a, b) = match (num(a), num(b)) {
        (Some(a), Some(b)) => (a, b),
        _ => return RangeOut::Malformed,
    };
    let len = u128::from(len);
    match (a, b) {
        (None, None) => RangeOut::Malformed,
        (None, Some(n)) => {
            if n == 0 || len == 0 {
                RangeOut::NotSatisfiable
            } else {
                let n = n.min(len);
                RangeOut::Part((len - n) as u64, (len - 1) as u64)
            }
        }
        (Some(a), Some(b)) if a > b => RangeOut::Malformed,
        (Some(a), b) => {
            if a >= len {
                RangeOut::NotSatisfiable
            } else {
                RangeOut::Part(a as u64, b.unwrap_or(u128::MAX).min(len - 1) as u64)
            }
        }
    }
}

fn s05(cx: &mut Cx) {
    s05_large(cx);
    let mut sizes = vec![0usize, 1, 2, 3, 10, 4095, 4096, 4097, 8192, 8193, 100_000];
    if cx.thorough {
        sizes.extend([5, 4094, 12288, 12289, 65536, 1_048_576, 4_194_305]);
    }
    for n in sizes {
        let data = content(5, n);
        let l = n as u64;
        let mut offs: Vec<u64> = vec![0, 1, 2, 3, 4, l / 2, 4094, 4095, 4096, 4097, 8191, 8192, 8193];
        for d in 0..3 {
            offs.push(l.saturating_sub(d));
            offs.push(l + d);
        }
        if n <= 10 {
            offs.extend(0..=12);
        }
        if cx.thorough {
            offs.extend([100, 1000, 4093, 4098, 65535, 65536, 65537, 4_194_303, 4_194_304]);
            for d in 3..6 {
                offs.push(l.saturating_sub(d));
                offs.push(l + d);
            }
        }
        offs.push(u64::MAX);
        offs.push(u64::MAX - 1);
        offs.push(i64::MAX as u64);
        offs.push(i64::MAX as u64 + 1);
        offs.push(u64::from(u32::MAX));
        offs.push(u64::from(u32::MAX) + 1);
        offs.sort_unstable();
        offs.dedup();
        let mut ranges: Vec<String> = vec![];
        for a in &offs {
            ranges.push(format!("bytes={a}-"));
            ranges.push(format!("bytes=-{a}"));
            for b in &offs {
                ranges.push(format!("bytes={a}-{b}"));
            }
        }
        ranges.extend(["bytes=00-01", "bytes=007-", "bytes=-007"].map(s));
        let malformed = [
            "", "bytes", "bytes=", "bytes=-", "bytes=a-b", "bytes=1-a", "bytes=a-1", "bytes=1", "bytes 0-1", "0-1", "=0-1", "bytes=--1", "bytes=1--2", "bytes=-1-2", "bytes=+1-2", "bytes=1-+2", "bytes=0x1-2",
            "bytes=1.0-2", "items=0-1", "bytes=0-1x", "xbytes=0-1", "bytes==0-1",
        ];
        for r in ranges {
            let data = &data;
            for (io, limits) in SHORT {
                cx.case(
                    || format!("{r} of {n} bytes{io}"),
                    |cx| with_limits(limits, || one_range(cx, &r, data, range_meaning(&r, l))),
                );
            }
        }
        for r in malformed {
            cx.case(|| format!("{r:?} of {n} bytes"), |cx| one_range(cx, r, &data, RangeOut::Malformed));
        }
        // several ranges, or white space: may be refused, or answered with the whole object as if there was no range
        for r in ["bytes=0-0,2-3", "bytes=0-0, 2-3", "bytes=0-0,", " bytes=0-1", "bytes=0-1 ", "bytes= 0-1", "bytes=0 -1", "Bytes=0-1", "BYTES=0-1", "bytes=99999999999999999999999-", "bytes=0-99999999999999999999999", "bytes=-99999999999999999999999"] {
            cx.case(
                || format!("{r:?} of {n} bytes (may be refused or answered in full)"),
                |cx| {
                    let (w, rs) = get_range(cx, r, &data)?;
                    let m = range_meaning(&r.trim().to_lowercase().replace("= ", "=").replace(" -", "-"), l);
                    if rs.status == 206 {
                        check_range(r, &data, &m, &rs)?;
                    } else if rs.status == 200 {
                        ensure!(rs.body == data, "{r}: a full response with {} bytes of {n}", rs.body.len());
                    } else {
                        ensure!(rs.status == 416 || rs.status == 400, "{r}: {}", rs.show());
                        check_error(r, &rs)?;
                    }
                    crate::report::remove_tree(&w.dir);
                    Ok(())
                },
            );
        }
    }
}

/// objects whose sizes and offsets need more than 31 or 32 bits (sparse files)
fn s05_large(cx: &mut Cx) {
    use std::os::unix::fs::FileExt;
    const G4: u64 = 1 << 32;
    let place = |cx: &mut Cx, n: u64| {
        let w = World::new(&cx.fresh_dir());
        std::fs::create_dir(w.root.join("aaa")).unwrap();
        let f = std::fs::File::create(w.root.join("aaa/k")).unwrap();
        f.set_len(n).unwrap();
        (w, f)
    };
    for n in [(1 << 31) - 1, 1 << 31, G4 - 1, G4, G4 + 1, 2 * G4 + 7, 1 << 40] {
        cx.case(
            || format!("an object of {n} bytes: its size"),
            |cx| {
                let (w, _f) = place(cx, n);
                cx.add("evaluations", 3);
                let hd = w.call(&Rq::obj("HEAD", "aaa", "k"))?;
                ensure!(hd.status == 200 && hd.header("content-length") == Some(n.to_string()), "HEAD of {n} bytes: {}", hd.show());
                for q in ["", "list-type=2"] {
                    let rs = w.call(&Rq::new("GET", "/aaa").q(q))?;
                    let size = rs.xml().ok().and_then(|x| x.child("Contents").and_then(|c| c.text_of("Size")));
                    ensure!(size == Some(n.to_string()), "list {q}: size {size:?} of {n} bytes: {}", rs.show());
                }
                cx.state(&n);
                crate::report::remove_tree(&w.dir);
                Ok(())
            },
        );
    }
    let n = G4 + 10;
    let marks: Vec<u8> = (1..=20).collect();
    let mut ranges = vec![(format!("bytes={}-{}", G4 - 6, G4 + 3), G4 - 6, 10), ("bytes=-12".to_string(), n - 12, 12)];
    if cx.thorough {
        ranges.extend([
            (format!("bytes={}-", G4 - 1), G4 - 1, 11),
            (format!("bytes={G4}-{G4}"), G4, 1),
            (format!("bytes={}-99999999999", G4 + 9), G4 + 9, 1),
            ("bytes=0-3".to_string(), 0, 4),
        ]);
    }
    for (r, at, len) in ranges {
        cx.case(
            || format!("an object of {n} bytes: {r}"),
            |cx| {
                // the MD5 of 4 GiB
                cx.alarm(if cx.thorough { 900 } else { 300 });
                let (w, f) = place(cx, n);
                f.write_all_at(&marks, G4 - 10).unwrap();
                cx.add("evaluations", 1);
                let rs = w.call(&Rq::obj("GET", "aaa", "k").h("range", r.as_str()))?;
                let want: Vec<u8> = (at..at + len).map(|p| if p >= G4 - 10 { (p - (G4 - 10) + 1) as u8 } else { 0 }).collect();
                ensure!(rs.status == 206 && rs.body == want, "{r} of {n} bytes: {}", rs.show());
                let cr = rs.header("content-range");
                ensure!(cr == Some(format!("bytes {at}-{}/{n}", at + len - 1)), "{r} of {n} bytes: Content-Range {cr:?}");
                ensure!(rs.header("content-length") == Some(len.to_string()), "{r} of {n} bytes: {}", rs.show());
                cx.state(&r);
                crate::report::remove_tree(&w.dir);
                Ok(())
            },
        );
    }
}

fn get_range(cx: &mut Cx, r: &str, data: &[u8]) -> Result<(World, api::Rs), Fail> {
    let dir = cx.fresh_dir();
    let w = World::new(&dir);
    // the object is written directly: S01 covers writing
    std::fs::create_dir(w.root.join("aaa")).unwrap();
    std::fs::write(w.root.join("aaa/k"), data).unwrap();
    std::fs::write(w.root.join("aaa/l"), content(99, 5000)).unwrap();
    let rs = w.call(&Rq::obj("GET", "aaa", "k").h("range", r))?;
    cx.add("evaluations", 1);
    cx.outcome(&(rs.status, &rs.body, rs.header("content-range")));
    Ok((w, rs))
}

fn check_range(r: &str, data: &[u8], m: &RangeOut, rs: &api::Rs) -> R {
    let n = data.len();
    match m {
        RangeOut::Part(a, b) => {
            ensure!(rs.status == 206, "{r} of {n} bytes: expected status 206, got {}", rs.show());
            let want = &data[*a as usize..=*b as usize];
            ensure!(!rs.body_err && rs.body == want, "{r} of {n} bytes: wrong content, {} bytes instead of {}", rs.body.len(), want.len());
            let len = rs.header("content-length");
            ensure!(len == Some(want.len().to_string()), "{r} of {n} bytes: Content-Length {len:?} of {} bytes", want.len());
            let cr = rs.header("content-range");
            ensure!(cr == Some(format!("bytes {a}-{b}/{n}")), "{r} of {n} bytes: Content-Range {cr:?}");
            let tag = rs.header("etag");
            ensure!(tag == Some(format!("\"{}\"", api::md5_hex(data))), "{r} of {n} bytes: ETag {tag:?}");
        }
        RangeOut::NotSatisfiable => {
            ensure!(rs.status == 416 && rs.code().as_deref() == Some("InvalidRange"), "{r} of {n} bytes: expected 416 InvalidRange, got {}", rs.show());
        }
        RangeOut::Malformed => {
            // S3 ignores a malformed range, this implementation refuses it; it must not return a part
            ensure!(
                rs.status == 416 || rs.status == 400 || (rs.status == 200 && rs.body == data),
                "{r} of {n} bytes: expected a refusal, got {}",
                rs.show()
            );
        }
    }
    Ok(())
}

fn one_range(cx: &mut Cx, r: &str, data: &[u8], m: RangeOut) -> R {
    let (w, rs) = get_range(cx, r, data)?;
    cx.state(&(r, data.len()));
    check_range(r, data, &m, &rs)?;
    if m != RangeOut::Malformed || rs.status != 200 {
        if rs.status >= 300 {
            check_error(r, &rs)?;
        }
    }
    crate::report::remove_tree(&w.dir);
    Ok(())
}

// --- S11 ---

/// the file below the root with this content
fn file_of(w: &World, data: &[u8]) -> Result<std::path::PathBuf, Fail> {
    let v: Vec<String> = w.tree().into_iter().filter(|(_, d)| d.as_deref() == Some(data)).map(|x| x.0).collect();
    ensure!(v.len() == 1, "harness: the files of the object are {v:?}");
    Ok(w.root.join(&v[0]))
}

/// the times of modification of the source and the destination
fn s11_times(cx: &mut Cx) {
    use std::time::{Duration, SystemTime, UNIX_EPOCH};
    const OLD: i64 = 1_000_000_000;
    let objs = [("aaa", "a"), ("aaa", "d/b"), ("bbb", "a"), ("bbb", "c c")];
    for src in objs {
        for dst in objs {
            for (existing, meta, replace) in [(false, false, false), (true, false, false), (false, true, false), (true, true, true), (false, false, true)] {
                cx.case(
                    || format!("copy {src:?} to {dst:?}, the destination exists: {existing}, metadata: {meta}, replaced: {replace}: times"),
                    |cx| {
                        let mut ops = vec![create("aaa"), create("bbb")];
                        if existing && src != dst {
                            ops.push(put(dst.0, dst.1, b"old destination"));
                        }
                        ops.push(put_meta(src.0, src.1, b"source", if meta { M1 } else { &[] }));
                        let (w, _) = run_history(cx, &ops, &["aaa", "bbb"], &[], false)?;
                        let set_old = |f: std::path::PathBuf| {
                            let f = std::fs::File::options().write(true).open(f)?;
                            f.set_modified(UNIX_EPOCH + Duration::from_secs(OLD as u64))
                        };
                        for d in [&b"source"[..], b"old destination"] {
                            if existing && src != dst || d == b"source" {
                                set_old(file_of(&w, d)?).map_err(|e| format!("harness: {e}"))?;
                            }
                        }
                        let shown = |o: (&str, &str)| -> Result<Option<i64>, Fail> {
                            let get = w.call(&Rq::obj("GET", o.0, o.1))?;
                            ensure!(get.ok() && get.body == b"source", "GET {o:?}: {}", get.show());
                            let t = get.header("last-modified").and_then(|t| http_time(&t));
                            let hd = w.call(&Rq::obj("HEAD", o.0, o.1))?;
                            ensure!(hd.header("last-modified").and_then(|t| http_time(&t)) == t, "HEAD {o:?}: {}", hd.show());
                            for q in ["", "list-type=2"] {
                                let l = listed_times(&w.call(&Rq::new("GET", &format!("/{}", o.0)).q(q))?)?;
                                ensure!(l.get(o.1) == Some(&t), "list {q}: {o:?} has the time {:?}, not {t:?}", l.get(o.1));
                            }
                            Ok(t)
                        };
                        ensure!(shown(src)? == Some(OLD), "the source is modified at {OLD}, not {:?}", shown(src)?);
                        let mut rq = Rq::obj("PUT", dst.0, dst.1).h("x-amz-copy-source", format!("/{}/{}", src.0, api::enc(src.1, true))).h("content-length", "0");
                        if replace {
                            rq = rq.h("x-amz-metadata-directive", "REPLACE").h("x-amz-meta-n", "w");
                        }
                        let rs = w.call(&rq)?;
                        ensure!(rs.ok(), "copy: {}", rs.show());
                        let now = SystemTime::now().duration_since(UNIX_EPOCH).map_or(0, |d| d.as_secs() as i64);
                        let t = shown(dst)?;
                        ensure!(t.map_or(false, |t| t <= now + 1 && t >= now - 3600), "the copy is modified at {t:?}, now it is {now}");
                        let x = rs.xml().map_err(|e| format!("copy: {e}"))?;
                        let said = x.text_of("LastModified").and_then(|t| xml_time(&t));
                        ensure!(said == t, "the response says that the copy is modified at {said:?}, GET says {t:?}: {}", rs.show());
                        if src != dst {
                            ensure!(shown(src)? == Some(OLD), "the source is modified at {:?} now", shown(src)?);
                        }
                        cx.add("evaluations", 1);
                        cx.state(&(src, dst, existing, meta, replace));
                        crate::report::remove_tree(&w.dir);
                        Ok(())
                    },
                );
            }
        }
    }
}

fn s11(cx: &mut Cx) {
    s11_times(cx);
    // all pairs of source and destination, in all states of both
    let objs = [("aaa", "a"), ("aaa", "d/b"), ("bbb", "a"), ("bbb", "c c+%2F")];
    let states: [Option<(&[u8], &[(&str, &str)])>; 4] = [None, Some((b"", &[])), Some((b"source", M1)), Some((b"a longer source", &[]))];
    for src in objs {
        for dst in objs {
            for ss in &states {
                for ds in &states {
                    for how in 0..5 {
                        let slash = how == 1;
                        let replace: Option<&[(&str, &str)]> = [None, None, Some(&[][..]), Some(M1), Some(&[("new", "1"), ("color", "")])][how];
                        if src == dst && ss != ds {
                            continue;
                        }
                        cx.case(
                            || format!("copy {src:?} {ss:?} to {dst:?} {ds:?}, leading slash: {slash}, replace: {replace:?}"),
                            |cx| {
                                let mut ops = vec![create("aaa"), create("bbb")];
                                if let Some((d, m)) = ss {
                                    ops.push(put_meta(src.0, src.1, d, m));
                                }
                                if let (Some((d, m)), true) = (ds, src != dst) {
                                    let mut d = d.to_vec();
                                    d.extend_from_slice(b" of dst");
                                    ops.push(put_meta(dst.0, dst.1, &d, if m.is_empty() { M2 } else { &[] }));
                                }
                                let c = Op::Copy { sb: s(src.0), sk: s(src.1), db: s(dst.0), dk: s(dst.1), slash, replace: replace.map(|m| m.iter().map(|(n, v)| (s(n), s(v))).collect()) };
                                ops.push(c.clone());
                                ops.push(put_meta(src.0, src.1, b"changed later", M2));
                                ops.push(c);
                                ops.push(del(src.0, src.1));
                                let keys: &[&str] = &[src.1, dst.1];
                                let (w, m) = run_history(cx, &ops, &["aaa", "bbb"], keys, true)?;
                                cx.add("traces", 1);
                                cx.state(&(&m, w.canonical_tree()));
                                crate::report::remove_tree(&w.dir);
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
    // metadata in the request counts with the directive REPLACE only
    for dst in objs {
        for existing in [false, true] {
            for (directive, replaces) in [(None, Some(false)), (Some("COPY"), Some(false)), (Some("REPLACE"), Some(true)), (Some("MOVE"), None), (Some("REPLACED"), None), (Some("COPY,REPLACE"), None)] {
                for given in [&[][..], &[("color", "green")], &[("color", "green"), ("x", "y")], &[("new", "z")]] {
                    for source_meta in [&[][..], M1] {
                        cx.case(
                            || format!("copy to {dst:?}, exists: {existing}, directive {directive:?}, metadata {given:?}, of the source {source_meta:?}"),
                            |cx| {
                                let mut ops = vec![create("aaa"), create("bbb")];
                                if existing && dst != objs[0] {
                                    ops.push(put_meta(dst.0, dst.1, b"of dst", M2));
                                }
                                ops.push(put_meta("aaa", "a", b"source", source_meta));
                                let (mut w, mut m) = run_history(cx, &ops, &[], &[], false)?;
                                let mut rq = Rq::obj("PUT", dst.0, dst.1).h("content-length", "0").h("x-amz-copy-source", "aaa/a");
                                if let Some(d) = directive {
                                    rq = rq.h("x-amz-metadata-directive", d);
                                }
                                for (n, v) in given {
                                    rq = rq.h(&format!("x-amz-meta-{n}"), v);
                                }
                                let before = w.tree();
                                let rs = w.call(&rq)?;
                                cx.add("transitions", 1);
                                match replaces {
                                    None => {
                                        ensure!((400..500).contains(&rs.status), "a copy with the metadata directive {directive:?} is answered by {}", rs.show());
                                        ensure!(w.tree() == before, "the refused copy changes the files");
                                    }
                                    Some(r) => {
                                        let mut op = copy("aaa", "a", dst.0, dst.1);
                                        if r {
                                            op = copy_replace("aaa", "a", dst.0, dst.1, given);
                                        }
                                        crate::store::judge(&mut w.ids, &mut m, &op, &rs)?;
                                    }
                                }
                                same_objects(cx, &w, &m)?;
                                cx.add("traces", 1);
                                crate::report::remove_tree(&w.dir);
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
    search(
        cx,
        &Search {
            name: "copies",
            setup: vec![create("aaa"), create("bbb"), put_meta("aaa", "a", b"first", M1)],
            alphabet: vec![
                put("aaa", "a", b"second"),
                put_meta("bbb", "b", b"third", M2),
                del("aaa", "a"),
                del("bbb", "b"),
                copy("aaa", "a", "bbb", "b"),
                copy("bbb", "b", "aaa", "a"),
                copy("aaa", "a", "aaa", "a"),
                copy("aaa", "a", "aaa", "x/y"),
                copy("aaa", "x/y", "bbb", "b"),
                copy_replace("aaa", "a", "aaa", "a", M2),
                copy_replace("aaa", "a", "bbb", "b", &[]),
                copy("aaa", "a", "ccc", "a"),
                copy("ccc", "a", "aaa", "a"),
            ],
            depth: if cx.thorough { 8 } else { 5 },
            full: 2,
            buckets: &["aaa", "bbb", "ccc"],
            keys: &["a", "b", "x/y"],
        },
    );
    // with everything observed after every step on the same instance
    search(
        cx,
        &Search {
            name: "copies, observed after every step",
            setup: vec![create("aaa"), put_meta("aaa", "a", b"one", M1)],
            alphabet: vec![
                put("aaa", "a", b"two"),
                put_meta("aaa", "b", b"six", M2),
                del("aaa", "a"),
                del("aaa", "b"),
                copy("aaa", "a", "aaa", "b"),
                copy("aaa", "b", "aaa", "a"),
                copy("aaa", "a", "aaa", "a"),
                copy_replace("aaa", "a", "aaa", "b", M2),
                copy_replace("aaa", "a", "aaa", "a", &[]),
                Op::Restart,
            ],
            depth: if cx.thorough { 5 } else { 4 },
            full: usize::MAX,
            buckets: &["aaa"],
            keys: &["a", "b"],
        },
    );
    // sources by name
    for k in key_shapes(cx.thorough) {
        for how in 0..5 {
            cx.case(
                || format!("copy source {k:?}, {}", ["encoded", "all characters encoded", "slashes encoded", "encoded but for sub-delimiters", "not encoded"][how]),
                |cx| {
                    let ops = [
                        create("aaa"),
                        create("bbb"),
                        put_meta("aaa", &k, b"the source", M1),
                        put_meta("aaa", "other", b"not the source", M2),
                        put("bbb", "dst", b"old"),
                    ];
                    let (w, mut m) = run_history(cx, &ops, &["aaa", "bbb"], &[&k, "dst", "other"], false)?;
                    let name = match how {
                        0 => api::enc(&k, true),
                        1 => k.bytes().map(|c| if c == b'/' { s("/") } else { format!("%{c:02X}") }).collect(),
                        2 => api::enc(&k, false),
                        // (a plus sign may mean a blank)
                        3 => k.bytes().map(|c| if c.is_ascii_alphanumeric() || b"/-._~=&@:$,;!*'()".contains(&c) { (c as char).to_string() } else { format!("%{c:02X}") }).collect(),
                        _ => {
                            if !k.bytes().all(|c| (0x21..0x7f).contains(&c) && c != b'%' && c != b'?' && c != b'+') {
                                return Ok(());
                            }
                            k.clone()
                        }
                    };
                    let rs = w.call(&Rq::obj("PUT", "bbb", "dst").h("x-amz-copy-source", format!("aaa/{name}")).h("content-length", "0"))?;
                    cx.add("transitions", 1);
                    let e = apply(&mut m, &copy("aaa", &k, "bbb", "dst"));
                    check_expect("copy", &rs, &e)?;
                    observe(cx, &w, &m, &["aaa", "bbb"], &[&k, "dst", "other"])?;
                    cx.add("traces", 1);
                    crate::report::remove_tree(&w.dir);
                    Ok(())
                },
            );
        }
    }
    // names that are no sources
    for src in ["", "/", "//", "aaa", "/aaa", "aaa/", "/aaa/", "aaa//a", "//aaa/a", "aaa/missing", "ccc/a", "AAA/a", "a/a", "aaa/../aaa/a", "aaa/./a", "aaa/a/", "aaa/%", "aaa/%zz", "aaa/%ff", "aaa/a%00", "aaa/../../x", "../aaa/a", "arn:aws:s3:us-west-2:1:accesspoint/x/object/a", "aaa%2Fa"] {
        cx.case(
            || format!("copy source {src:?}"),
            |cx| {
                let ops = [create("aaa"), create("bbb"), put_meta("aaa", "a", b"the source", M1), put_meta("bbb", "dst", b"old", M2)];
                let (w, m) = run_history(cx, &ops, &["aaa", "bbb"], &["a", "dst"], false)?;
                let before = w.tree();
                let rs = w.call(&Rq::obj("PUT", "bbb", "dst").h("x-amz-copy-source", src).h("content-length", "0"))?;
                cx.add("transitions", 1);
                let mut m2 = m.clone();
                if src == "aaa%2Fa" && rs.ok() {
                    // S3 decodes the whole name
                    apply(&mut m2, &copy("aaa", "a", "bbb", "dst"));
                } else {
                    ensure!(rs.status >= 400, "not a source, but {}", rs.show());
                    check_error("copy", &rs)?;
                    ensure!(w.tree() == before, "the refused copy changes the files");
                }
                observe(cx, &w, &m2, &["aaa", "bbb"], &["a", "dst"])?;
                cx.add("traces", 1);
                crate::report::remove_tree(&w.dir);
                Ok(())
            },
        );
    }
    for n in boundary_sizes(cx.thorough) {
      for (io, limits) in SHORT {
        cx.case(
            || format!("copy of {n} bytes{io}"),
            |cx| {
                let ops = [
                    create("aaa"),
                    put_meta("aaa", "a", &content(1, n), M1),
                    put_meta("aaa", "b", &content(2, 5000), M2),
                    copy("aaa", "a", "aaa", "b"),
                    copy("aaa", "b", "aaa", "b"),
                ];
                with_limits(limits, || history(cx, &ops, &["aaa"], &["a", "b"]))
            },
        );
      }
    }
}
