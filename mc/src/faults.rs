//! S07, S09, S10: interrupted uploads, crashes and I/O errors on the file system storage.

use crate::api::{self, Chunk, Rq, Rs};
use crate::report::{remove_tree, Cx, Fail, Meta, R};
use crate::sig::{self, Cred, Form, Payload};
use crate::storage::{complete, copy, copy_replace, create, del, mdel, part, upload, upload_meta};
use crate::store::*;
use crate::sys::{self, Decision, Hook, Kind};
use crate::{ensure, exec, fail};
use s3_server::storages::fs::FileSystem;
use s3_server::{S3Service, SimpleAuth};
use std::cell::Cell;
use std::rc::Rc;

pub fn metas() -> Vec<Meta> {
    vec![
        Meta {
            id: "S07",
            level: "fault_enumeration",
            rule: "every upload of the table (objects and parts; plain, digest, chunk-signed, form; new and existing keys) interrupted at every chunk of its body, with every kind of rejected body (digests with any byte altered, cut at any length, extended, in hexadecimal), and dropped at every poll; then the whole observable state, and the upload completed, compared with the state before, also after a restart. distinct_nontrivial: distinct (target, interruption)",
            assumptions: &[
                "a cancelled request may also have taken full effect, as its client cannot know",
                "the tasks that the storage handed to the thread pool finish after the request was dropped",
            ],
            quick_secs: 400,
            thorough_secs: 1500,
            run: s07,
        },
        Meta {
            id: "S09",
            level: "fault_enumeration",
            rule: "the process dies before every mutating system call of every operation of the table, and after the first byte, half and all but one byte of every write; restart on the same directory; observable state equal to the one before or after the operation; then the operation again, other operations, and removal of everything. thorough: two crashes in a row in all pairs of operations. distinct_nontrivial: distinct (operation, crash point, torn write)",
            assumptions: &[
                "process crash: what completed system calls wrote survives; power loss is not covered (the storage does not call fsync)",
                "a crash before a system call that changes nothing leaves the same files as one before the next call that changes something",
            ],
            quick_secs: 400,
            thorough_secs: 1800,
            run: s09,
        },
        Meta {
            id: "S10",
            level: "fault_enumeration",
            rule: "every system call of every operation of the table fails once with each error that applies, and every read and write transfers only 1 byte, half, or all but one byte; the response is fully correct, or an error of the server (5xx), or the error that the request has without the fault (never that an existing object, bucket, part or upload does not exist), and the observable state is the one before or after (after a success: after). distinct_nontrivial: distinct (operation, system call, fault)",
            assumptions: &["one fault per request; a failing call has no effect", "errors that say that a file does not exist are not injected, they would be wrong data"],
            quick_secs: 400,
            thorough_secs: 1500,
            run: s10,
        },
    ]
}

pub const M1: &[(&str, &str)] = &[("color", "red")];
pub const M2: &[(&str, &str)] = &[("color", "blue"), ("shape", "a b")];
pub const M3: &[(&str, &str)] = &[("from", "upload")];
pub const BUCKETS: &[&str] = &["aaa", "bbb", "ccc", "ddd"];
pub const KEYS: &[&str] = &["k", "d/x", "new/n/k", "u", "p/q"];

pub fn setup() -> Vec<Op> {
    vec![
        create("aaa"),
        create("bbb"),
        create("ccc"),
        put_meta("aaa", "k", &content(1, 5000), M1),
        put("aaa", "d/x", b"x"),
        put_meta("bbb", "k", b"other", M2),
        put("ccc", "p/q", b"gone"),
        del("ccc", "p/q"),
        upload_meta("aaa", "k", M3),
        part(0, "aaa", "k", 1, b"part one "),
        part(0, "aaa", "k", 2, &content(2, 9000)),
        upload("bbb", "u"),
        part(1, "bbb", "u", 1, b"only part"),
        upload_meta("aaa", "d/x", M3),
        part(2, "aaa", "d/x", 1, b"part of d/x"),
        upload("aaa", "k"),
        part(3, "aaa", "k", 1, b"part without metadata"),
    ]
}

pub fn mutations() -> Vec<Op> {
    vec![
        put_meta("aaa", "k", &content(3, 70000), M2),
        put("aaa", "k", b"no metadata"),
        put_meta("aaa", "k", b"", M2),
        put_meta("aaa", "new/n/k", b"new", M2),
        put("aaa", "d/x", b"y"),
        put_meta("aaa", "d/x", b"z", M2),
        put("aaa", "new/o", b"new"),
        put("bbb", "u", b"not from the upload"),
        copy("aaa", "k", "bbb", "k"),
        copy("aaa", "k", "aaa", "new/n/k"),
        copy("aaa", "d/x", "aaa", "k"),
        copy("aaa", "k", "aaa", "d/x"),
        copy("aaa", "d/x", "bbb", "new"),
        copy("aaa", "k", "aaa", "k"),
        copy_replace("aaa", "k", "aaa", "k", M2),
        copy_replace("bbb", "k", "aaa", "k", &[]),
        copy_replace("bbb", "k", "aaa", "d/x", M2),
        copy_replace("aaa", "d/x", "aaa", "d/x", M2),
        del("aaa", "k"),
        del("aaa", "d/x"),
        del("aaa", "missing"),
        mdel("aaa", &["k", "d/x", "missing"]),
        create("ddd"),
        create("aaa"),
        Op::DeleteBucket("ccc".into()),
        Op::DeleteBucket("aaa".into()),
        upload_meta("aaa", "d/x", M1),
        part(0, "aaa", "k", 1, &content(5, 20000)),
        part(0, "aaa", "k", 3, b"third"),
        complete(0, "aaa", "k", &[(1, Tag::Good), (2, Tag::None)]),
        complete(0, "aaa", "k", &[(2, Tag::Good)]),
        complete(1, "bbb", "u", &[(1, Tag::Good)]),
        complete(0, "aaa", "k", &[(1, Tag::Good), (7, Tag::None)]),
        complete(2, "aaa", "d/x", &[(1, Tag::Good)]),
        complete(3, "aaa", "k", &[(1, Tag::Good)]),
    ]
}

/// is this the key of an operation that replaces an object
fn target(op: &Op) -> Option<(&str, &str)> {
    match op {
        Op::Put { b, k, .. } | Op::Complete { b, k, .. } => Some((b, k)),
        Op::Copy { db, dk, .. } => Some((db, dk)),
        _ => None,
    }
}

/// the states an interrupted operation may leave
fn possible(before: &Model, op: &Op, mixed: Option<&'static str>) -> Possible {
    let mut states = vec![(before.clone(), None)];
    let mut after = before.clone();
    apply(&mut after, op);
    if let Op::MultiDelete { b, ks, .. } = op {
        // each object on its own
        for set in 1u32..1 << ks.len() {
            let mut m = before.clone();
            for (i, k) in ks.iter().enumerate() {
                if set >> i & 1 == 1 {
                    apply(&mut m, &del(b, k));
                }
            }
            states.push((m, None));
        }
        return Possible { states };
    }
    states.push((after.clone(), None));
    if let (Some(key), Some((b, k))) = (mixed, target(op)) {
        let old = before.buckets.get(b).and_then(|x| x.get(k));
        let new = after.buckets.get(b).and_then(|x| x.get(k));
        if let (Some(old), Some(new)) = (old, new) {
            if old.meta != new.meta {
                let mut m = before.clone();
                m.buckets.get_mut(b).unwrap().get_mut(k).unwrap().meta = new.meta.clone();
                states.push((m, Some(key)));
            }
        }
    }
    if let (Op::Complete { u, .. }, true) = (op, after != *before) {
        // the object is there, the upload is not removed yet
        let mut m = after.clone();
        m.uploads[*u] = before.uploads[*u].clone();
        // first, as the ETags of requests are taken from the first state
        states.insert(1, (m, None));
    }
    states.sort_by_key(|s| s.1.is_some());
    Possible { states }
}

/// everything works in the state
fn follow_up(cx: &mut Cx, w: &mut World, p: &mut Possible, again: &Op) -> R {
    let step = |cx: &mut Cx, w: &mut World, p: &mut Possible, op: &Op| {
        p.step(cx, w, op).map_err(|mut e| {
            e.what = format!("then {}: {}", short(op), e.what);
            e
        })
    };
    step(cx, w, p, again)?;
    p.observe(cx, w, BUCKETS, KEYS)?;
    // the parts are what they were
    step(cx, w, p, &complete(0, "aaa", "k", &[(1, Tag::None), (2, Tag::None)]))?;
    step(cx, w, p, &complete(1, "bbb", "u", &[(1, Tag::None)]))?;
    p.observe(cx, w, BUCKETS, KEYS)?;
    for op in [
        put_meta("aaa", "k", b"later", M3),
        put("aaa", "new/n/k", b"later, too"),
        copy("aaa", "k", "bbb", "k"),
    ] {
        step(cx, w, p, &op)?;
    }
    p.observe(cx, w, BUCKETS, KEYS)?;
    for b in BUCKETS {
        for k in KEYS {
            step(cx, w, p, &del(b, k))?;
        }
        step(cx, w, p, &Op::DeleteBucket((*b).into()))?;
    }
    p.observe(cx, w, BUCKETS, KEYS)
}

fn finish(p: &Possible, what: &str) -> R {
    match p.finding() {
        Some(k) => Err(Fail { what: what.to_owned(), finding: Some(k.to_owned()) }),
        None => Ok(()),
    }
}

// --- S09 ---

struct CrashHook {
    n: usize,
    at: usize,
    /// bytes of the write that are still done
    torn: Option<fn(usize) -> usize>,
    die: bool,
}

impl Hook for CrashHook {
    fn before(&mut self, op: &sys::Op) -> Decision {
        if self.die {
            unsafe { libc::_exit(42) }
        }
        if !op.kind.mutating() {
            return Decision::Proceed;
        }
        let i = self.n;
        self.n += 1;
        if i != self.at {
            return Decision::Proceed;
        }
        match self.torn {
            None => unsafe { libc::_exit(42) },
            Some(f) => {
                if !matches!(op.kind, Kind::Write | Kind::CopyRange) || op.len < 2 {
                    unsafe { libc::_exit(43) }
                }
                let n = f(op.len);
                if n == 0 || n >= op.len {
                    unsafe { libc::_exit(43) }
                }
                self.die = true;
                Decision::Short(n)
            }
        }
    }
}

enum Crash {
    Crashed,
    /// this crash point does not apply
    Skipped,
    Completed,
}

fn crash(w: &World, m: &Model, op: &Op, at: usize, torn: Option<fn(usize) -> usize>) -> Result<Crash, Fail> {
    let rq = request(op, &w.ids, m);
    let pid = unsafe { libc::fork() };
    ensure!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe { libc::alarm(60) };
        sys::set_hook(Some(Box::new(CrashHook { n: 0, at, torn, die: false })));
        let r = w.call(&rq);
        let esc = sys::take_escapes();
        unsafe { libc::_exit(if !esc.is_empty() { 44 } else if r.is_err() { 45 } else { 0 }) }
    }
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    match libc::WIFEXITED(status).then(|| libc::WEXITSTATUS(status)) {
        Some(0) => Ok(Crash::Completed),
        Some(42) => Ok(Crash::Crashed),
        Some(43) => Ok(Crash::Skipped),
        Some(44) => fail!("access outside the root"),
        Some(45) => fail!("no response"),
        s => fail!("the process ended with {s:?} (status {status:#x})"),
    }
}

const MIXED: &str = "crash-between-metadata-and-content";
const TORN: [Option<fn(usize) -> usize>; 4] = [None, Some(|_| 1), Some(|n| n / 2), Some(|n| n - 1)];
const TORN_NAMES: [&str; 4] = ["", ", after one byte", ", half written", ", all but one byte written"];

/// all crash points of `op`; `f` is called with each state that is left
fn crashes(
    cx: &mut Cx,
    w0: &World,
    p0: &Possible,
    op: &Op,
    f: &mut dyn FnMut(&mut Cx, &mut World, Possible, String) -> R,
) -> R {
    for at in 0.. {
        ensure!(at < 500, "{}: too many system calls", short(op));
        let mut done = false;
        for (t, name) in TORN.iter().zip(TORN_NAMES) {
            let dir = cx.fresh_dir();
            copy_tree(&w0.root, &dir.join("root"));
            let mut w = World::new(&dir);
            w.ids = w0.ids.clone();
            let c = crash(&w, &p0.states[0].0, op, at, *t)?;
            match c {
                Crash::Completed if t.is_none() => done = true,
                Crash::Completed | Crash::Skipped => {}
                Crash::Crashed => {
                    let mut states = vec![];
                    for (m, key) in &p0.states {
                        for (m2, k2) in possible(m, op, Some(MIXED)).states {
                            states.push((m2, key.or(k2)));
                        }
                    }
                    states.sort_by_key(|s| s.1.is_some());
                    w.restart();
                    let what = format!("{}: crash before mutating call {at}{name}", short(op));
                    cx.add("transitions", 1);
                    if let Err(mut e) = f(cx, &mut w, Possible { states }, what.clone()) {
                        e.what = format!("{what}: {}", e.what);
                        cx.soft(&what, e)?;
                    }
                }
            }
            remove_tree(&dir);
            if done {
                return Ok(());
            }
        }
    }
    Ok(())
}

fn s09(cx: &mut Cx) {
    let ops = mutations();
    let mut tpl: Option<Template> = None;
    for op in &ops {
        cx.case(
            || format!("crash in {}", short(op)),
            |cx| {
                if tpl.is_none() {
                    tpl = Some(Template::new(cx, &setup())?);
                }
                let t = tpl.as_ref().unwrap();
                let w0 = t.make(cx);
                let p0 = Possible { states: vec![(t.model.clone(), None)] };
                crashes(cx, &w0, &p0, op, &mut |cx, w, mut p, what| {
                    cx.alarm(60);
                    cx.state(&what);
                    p.observe(cx, w, BUCKETS, KEYS)?;
                    let r = finish(&p, "the object has its old content with the new metadata");
                    cx.outcome(&w.canonical_tree());
                    let mut p2 = p.clone();
                    follow_up(cx, w, &mut p2, op)?;
                    r
                })
            },
        );
    }
    if !cx.thorough {
        return;
    }
    for a in &ops {
        for b in &ops {
            cx.case(
                || format!("crash in {}, then crash in {}", short(a), short(b)),
                |cx| {
                    if tpl.is_none() {
                        tpl = Some(Template::new(cx, &setup())?);
                    }
                    let t = tpl.as_ref().unwrap();
                    let w0 = t.make(cx);
                    let p0 = Possible { states: vec![(t.model.clone(), None)] };
                    crashes(cx, &w0, &p0, a, &mut |cx, w, mut p, what_a| {
                        p.observe(cx, w, BUCKETS, KEYS)?;
                        crashes(cx, w, &p, b, &mut |cx, w, mut p, what_b| {
                            cx.alarm(60);
                            cx.state(&(&what_a, what_b));
                            p.observe(cx, w, BUCKETS, KEYS)?;
                            let r = finish(&p, "the object has its old content with the new metadata");
                            cx.outcome(&w.canonical_tree());
                            let mut p2 = p.clone();
                            follow_up(cx, w, &mut p2, a)?;
                            r
                        })
                    })
                },
            );
        }
    }
}

// --- S10 ---

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Errno(&'static str, i32),
    Short(&'static str, fn(usize) -> usize),
}

const FAULTS: [Fault; 9] = [
    Fault::Errno("EIO", libc::EIO),
    Fault::Errno("ENOSPC", libc::ENOSPC),
    Fault::Errno("EACCES", libc::EACCES),
    Fault::Errno("EMFILE", libc::EMFILE),
    Fault::Errno("EINTR", libc::EINTR),
    Fault::Errno("EROFS", libc::EROFS),
    Fault::Short("1 byte", |_| 1),
    Fault::Short("half", |n| n / 2),
    Fault::Short("all but one byte", |n| n - 1),
];

fn applies(f: Fault, op: &sys::Op) -> bool {
    use Kind::*;
    match f {
        Fault::Errno(_, libc::EIO) => true,
        Fault::Errno(_, libc::ENOSPC) => matches!(op.kind, OpenW | Write | Rename | Mkdir | Link | CopyRange | Truncate),
        Fault::Errno(_, libc::EACCES) => matches!(op.kind, Open | OpenW | Rename | Unlink | Rmdir | Mkdir | Opendir | Stat | Link),
        Fault::Errno(_, libc::EMFILE) => matches!(op.kind, Open | OpenW | Opendir),
        Fault::Errno(_, libc::EINTR) => matches!(op.kind, Read | Write | Open | OpenW),
        Fault::Errno(_, libc::EROFS) => matches!(op.kind, OpenW | Rename | Unlink | Rmdir | Mkdir),
        Fault::Errno(..) => false,
        Fault::Short(_, f) => {
            let n = op.len.min(1 << 20);
            matches!(op.kind, Read | Write | CopyRange) && op.len > 1 && f(n) > 0 && f(n) < n
        }
    }
}

struct FaultHook {
    n: usize,
    at: usize,
    fault: Fault,
    /// 0: not reached, 1: did not apply, 2: injected
    fired: Rc<Cell<u8>>,
    what: Rc<std::cell::RefCell<String>>,
}

impl Hook for FaultHook {
    fn before(&mut self, op: &sys::Op) -> Decision {
        if matches!(op.kind, Kind::FutexWait | Kind::FutexWake) || op.path.starts_with("/proc") || op.path.starts_with("/etc") {
            return Decision::Proceed;
        }
        let i = self.n;
        self.n += 1;
        if i != self.at {
            return Decision::Proceed;
        }
        if !applies(self.fault, op) {
            self.fired.set(1);
            return Decision::Proceed;
        }
        self.fired.set(2);
        *self.what.borrow_mut() = format!(
            "call {i}, {:?} {} ({} bytes), {}",
            op.kind,
            op.path.file_name().map_or(String::new(), |n| n.to_string_lossy().into_owned()),
            op.len,
            match self.fault {
                Fault::Errno(n, _) => format!("fails with {n}"),
                Fault::Short(n, _) => format!("transfers only {n}"),
            }
        );
        match self.fault {
            Fault::Errno(_, e) => Decision::Fail(e),
            Fault::Short(_, f) => Decision::Short(f(op.len.min(1 << 20))),
        }
    }
}

/// requests that change nothing, with the check of a successful response
type Check = Box<dyn Fn(&Model, &Rs) -> R>;
fn reads() -> Vec<(String, Rq, Check)> {
    let mut v: Vec<(String, Rq, Check)> = vec![];
    for (b, k) in [("aaa", "k"), ("aaa", "d/x"), ("bbb", "k"), ("aaa", "missing")] {
        v.push((format!("GET {b}/{k}"), Rq::obj("GET", b, k), Box::new(move |m, rs| check_get(m, b, k, rs))));
        v.push((
            format!("HEAD {b}/{k}"),
            Rq::obj("HEAD", b, k),
            Box::new(move |m, rs| {
                let o = match m.buckets[b].get(k) {
                    None => fail!("{} for a missing object", rs.show()),
                    Some(o) => o,
                };
                ensure!(rs.header("content-length") == Some(o.data.len().to_string()), "wrong length: {}", rs.show());
                ensure!(meta_of(rs) == o.meta, "wrong metadata: {}", rs.show());
                Ok(())
            }),
        ));
    }
    for (range, a, b) in [("bytes=10-4500", 10, 4500), ("bytes=4000-", 4000, 4999), ("bytes=-7", 4993, 4999)] {
        v.push((
            format!("GET {range}"),
            Rq::obj("GET", "aaa", "k").h("range", range),
            Box::new(move |m, rs| {
                let o = &m.buckets["aaa"]["k"];
                ensure!(rs.status == 206 && rs.body == o.data[a..=b], "wrong range: {}", rs.show());
                ensure!(rs.header("etag") == Some(format!("\"{}\"", api::md5_hex(&o.data))), "wrong ETag: {}", rs.show());
                ensure!(meta_of(rs) == o.meta, "wrong metadata: {}", rs.show());
                Ok(())
            }),
        ));
    }
    for v2 in [false, true] {
        for b in ["aaa", "ccc", "ddd"] {
            let mut rq = Rq::new("GET", &format!("/{b}"));
            if v2 {
                rq = rq.q("list-type=2");
            }
            v.push((format!("list {b} (version 2: {v2})"), rq, Box::new(move |m, rs| check_list(m, b, "", rs, v2))));
        }
    }
    v.push((
        "ListBuckets".into(),
        Rq::new("GET", "/"),
        Box::new(|m, rs| {
            let x = rs.xml().map_err(Fail::from)?;
            let n = x.child("Buckets").map_or(0, |b| b.all("Bucket").count());
            ensure!(n == m.buckets.len(), "lists {n} buckets: {}", rs.show());
            Ok(())
        }),
    ));
    for b in ["aaa", "ddd"] {
        for rq in [Rq::new("HEAD", &format!("/{b}")), Rq::new("GET", &format!("/{b}")).q("location")] {
            v.push((
                format!("{} {}", rq.method, rq.uri()),
                rq,
                Box::new(move |m, rs| {
                    ensure!(m.buckets.contains_key(b), "{} for a missing bucket", rs.show());
                    Ok(())
                }),
            ));
        }
    }
    v
}

fn with_fault(w: &World, rq: &Rq, fault: Fault, at: usize) -> (Result<Rs, Fail>, u8, String) {
    let fired = Rc::new(Cell::new(0));
    let what = Rc::new(std::cell::RefCell::new(String::new()));
    sys::set_hook(Some(Box::new(FaultHook { n: 0, at, fault, fired: Rc::clone(&fired), what: Rc::clone(&what) })));
    let r = w.call(rq);
    sys::set_hook(None);
    let what = what.borrow().clone();
    (r, fired.get(), what)
}

/// A failure of the file system is reported as a failure of the service, not as a mistake of the
/// client such as the name of an object that does not exist, unless the client made that mistake.
fn blames(plain: &Rs, rs: &Rs) -> R {
    ensure!(
        rs.ok() || rs.status >= 500 || (rs.status == plain.status && rs.code() == plain.code()),
        "the failure is reported as {}, where otherwise the response is {}",
        rs.show(),
        plain.show()
    );
    Ok(())
}

fn s10(cx: &mut Cx) {
    let mut tpl: Option<Template> = None;
    for op in mutations() {
        for fault in FAULTS {
            cx.case(
                || format!("{fault:?} in {}", short(&op)),
                |cx| {
                    if tpl.is_none() {
                        tpl = Some(Template::new(cx, &setup())?);
                    }
                    let t = tpl.as_ref().unwrap();
                    let w = t.make(cx);
                    let plain = w.call(&request(&op, &w.ids, &t.model))?;
                    remove_tree(&w.dir);
                    for at in 0.. {
                        cx.alarm(60);
                        let mut w = t.make(cx);
                        let rq = request(&op, &w.ids, &t.model);
                        let (rs, fired, what) = with_fault(&w, &rq, fault, at);
                        if fired == 0 {
                            remove_tree(&w.dir);
                            break;
                        }
                        if fired == 1 {
                            remove_tree(&w.dir);
                            continue;
                        }
                        cx.add("transitions", 1);
                        cx.state(&(&what, short(&op)));
                        let r = match rs {
                            Ok(rs) => blames(&plain, &rs).and_then(|()| fault_effect(cx, &mut w, t, &op, Ok(rs))),
                            Err(e) => Err(e),
                        };
                        if let Err(mut e) = r {
                            e.what = format!("{what}: {}", e.what);
                            cx.soft(&what, e)?;
                        }
                        remove_tree(&w.dir);
                    }
                    Ok(())
                },
            );
        }
    }
    for (name, rq, check) in reads() {
        for fault in FAULTS {
            cx.case(
                || format!("{fault:?} in {name}"),
                |cx| {
                    if tpl.is_none() {
                        tpl = Some(Template::new(cx, &setup())?);
                    }
                    let t = tpl.as_ref().unwrap();
                    let w = t.make(cx);
                    let plain = w.call(&rq)?;
                    for at in 0.. {
                        let (rs, fired, what) = with_fault(&w, &rq, fault, at);
                        if fired == 0 {
                            break;
                        }
                        if fired == 1 {
                            continue;
                        }
                        cx.add("transitions", 1);
                        cx.state(&(&what, &name));
                        let r = rs.and_then(|rs| {
                            blames(&plain, &rs)?;
                            if rs.status >= 400 {
                                if rq.method != "HEAD" {
                                    return check_error("response", &rs);
                                }
                                return Ok(());
                            }
                            if rs.body_err {
                                // the connection is closed before the announced length
                                return Ok(());
                            }
                            check(&t.model, &rs)
                        });
                        if let Err(mut e) = r {
                            e.what = format!("{what}: {}", e.what);
                            cx.soft(&what, e)?;
                        }
                    }
                    observe(cx, &w, &t.model, BUCKETS, KEYS)?;
                    remove_tree(&w.dir);
                    Ok(())
                },
            );
        }
    }
}

fn fault_effect(cx: &mut Cx, w: &mut World, t: &Template, op: &Op, rs: Result<Rs, Fail>) -> R {
    let rs = rs?;
    let mut p = possible(&t.model, op, None);
    if rs.ok() {
        let mut after = t.model.clone();
        judge(&mut w.ids, &mut after, op, &rs)?;
        let mut states = vec![(after.clone(), None)];
        if let Op::Complete { u, .. } = op {
            // the upload may outlive its completion
            let mut m = after;
            m.uploads[*u] = t.model.uploads[*u].clone();
            states.insert(0, (m, None));
        }
        p = Possible { states };
    } else {
        check_error("response", &rs)?;
        w.ids = t.ids.clone();
        if let Op::CreateUpload { .. } = op {
            // no client knows of the upload
            p = Possible { states: vec![(t.model.clone(), None)] };
        }
    }
    cx.outcome(&(rs.status, w.canonical_tree()));
    let how = if rs.ok() { "success" } else { "error" };
    let r = p.observe(cx, w, BUCKETS, KEYS).and_then(|()| {
        w.restart();
        p.observe(cx, w, BUCKETS, KEYS)
    });
    let r = r.and_then(|()| {
        if let (Op::CreateUpload { b, k, .. }, true) = (op, rs.ok()) {
            let u = w.ids.len() - 1;
            p.step(cx, w, &part(u, b, k, 1, b"later"))?;
            p.step(cx, w, &complete(u, b, k, &[(1, Tag::Good)]))?;
            p.observe(cx, w, BUCKETS, KEYS)?;
        }
        follow_up(cx, w, &mut p, op)
    });
    r.map_err(|mut e| {
        e.what = format!("{} although the request reported {how} ({}): {}", "wrong state", rs.show(), e.what);
        e
    })
}

// --- S07 ---

/// Content-MD5 headers which are wrong; `all`: also those that nearly are the right one
fn digests(all: bool, thorough: bool) -> Vec<Md5> {
    let mut v = vec![Md5::Bad, Md5::Invalid];
    if all {
        v.extend((0..128).filter(|i| thorough || i % 8 == i / 8 % 8).map(Md5::Flip));
        v.extend((1..16).map(Md5::Cut));
        v.extend([1, 2, 4, 16].map(Md5::Long));
        v.push(Md5::Hex);
        // (without padding only, it still says what the right one says)
        v.extend((1..22).map(Md5::Chars));
    }
    v
}

/// an upload in all its forms: the requests that must fail, and whether a signature is needed
fn bad_uploads(thorough: bool) -> Vec<(String, Rq, bool)> {
    let c = Cred::default();
    let mut v: Vec<(String, Rq, bool)> = vec![];
    let targets: [(&str, &str); 4] = [("aaa", "k"), ("aaa", "new/n/k"), ("aaa", "d/x"), ("bbb", "u")];
    let sizes: &[usize] = if thorough { &[0, 1, 100, 4096, 8193, 70000, 300_000] } else { &[0, 1, 100, 8193, 70000] };
    let cuts = |n: usize, total: usize| -> Vec<Vec<usize>> {
        // the body in pieces of n bytes, failing after each of them
        let mut out = vec![];
        let mut end = 0;
        loop {
            out.push((0..).map(|i| i * n).take_while(|&x| x < end).chain([end]).skip(1).collect());
            if end >= total {
                return out;
            }
            end = (end + n).min(total);
        }
    };
    let aborted = |rq: &Rq, cuts: &[usize]| -> Rq {
        let data = bytes::Bytes::from(rq.body_bytes());
        let mut rq = rq.clone();
        rq.body = vec![];
        let mut last = 0;
        for &c in cuts {
            rq.body.push(Chunk::Data(data.slice(last..c)));
            last = c;
        }
        rq.body.push(Chunk::Error);
        rq
    };
    for &(b, k) in &targets {
        for &n in sizes {
            let data = content(9, n);
            let plain = Rq::obj("PUT", b, k).h("x-amz-meta-color", "green").body(&data);
            for piece in [1 + n / 3, 4096] {
                for c in cuts(piece, n) {
                    v.push((format!("put {b}/{k}: connection lost after {c:?} of {n} bytes"), aborted(&plain, &c), false));
                }
            }
            for d in digests(n == 100 || (thorough && n == 8193), thorough) {
                let op = Op::Put { b: b.into(), k: k.into(), data: data.clone(), meta: vec![("color".into(), "green".into())], md5: d.clone(), split: 0, abort: None };
                v.push((format!("put {b}/{k}: {n} bytes with {d:?} Content-MD5"), request(&op, &[], &Model::default()), false));
            }
            // wrong payload hash
            let mut rq = plain.clone();
            sig::sign(&mut rq, &c, Payload::Hash, None);
            sig::set_body(&mut rq, &content(8, n + 1));
            v.push((format!("put {b}/{k}: {n} bytes, other payload than signed"), rq, true));
            // chunk signatures
            let third = n / 3;
            let chunks: Vec<&[u8]> = if n == 0 { vec![] } else if third == 0 { vec![&data[..]] } else { vec![&data[..third], &data[third..2 * third], &data[2 * third..]] };
            let mut rq = Rq::obj("PUT", b, k).h("x-amz-meta-color", "green");
            let p = sig::sign_stream(&mut rq, &c, &chunks, None);
            for i in 0..p.len() {
                let mut q = p.clone();
                q[i].sig = q[i].sig.chars().rev().collect();
                let mut r = rq.clone();
                sig::set_body(&mut r, &sig::join(&q));
                v.push((format!("put {b}/{k}: {n} bytes, bad signature of chunk {i}"), r, true));
                let mut q = p.clone();
                if let Some(x) = q[i].data.last_mut() {
                    *x ^= 1;
                    let mut r = rq.clone();
                    sig::set_body(&mut r, &sig::join(&q));
                    v.push((format!("put {b}/{k}: {n} bytes, altered data of chunk {i}"), r, true));
                }
                let mut r = rq.clone();
                sig::set_body(&mut r, &sig::join(&p[..i]));
                v.push((format!("put {b}/{k}: {n} bytes, ends after {i} chunks"), r, true));
                let mut r = rq.clone();
                let mut cut = sig::join(&p[..i]);
                cut.extend_from_slice(&p[i].bytes()[..p[i].bytes().len() / 2]);
                sig::set_body(&mut r, &cut);
                v.push((format!("put {b}/{k}: {n} bytes, ends in chunk {i}"), r.clone(), true));
                v.push((format!("put {b}/{k}: {n} bytes, connection lost in chunk {i}"), aborted(&r, &[cut.len() / 2, cut.len()]), true));
            }
            // form
            if n <= 8193 {
                let f = Form::new(k, &data).field("x-amz-meta-color", "green").sign_open(&c, Some(b));
                let body = f.bytes();
                let head = body.windows(11).position(|w| w == b"text/plain\r").unwrap();
                let mut at: Vec<usize> = vec![0, head / 2, head, head + 14, head + 14 + n / 2, head + 14 + n];
                at.extend((1..f.boundary.len() + 8).map(|i| body.len() - 2 - i));
                for a in at {
                    let mut r = f.request(b);
                    sig::set_body(&mut r, &body[..a]);
                    v.push((format!("form {b}/{k}: {n} bytes, body ends after {a} of {}", body.len()), r.clone(), true));
                    v.push((format!("form {b}/{k}: {n} bytes, connection lost after {a} of {}", body.len()), aborted(&f.request(b), &[a / 2, a]), true));
                }
            }
        }
    }
    v
}

fn bad_parts(thorough: bool) -> Vec<Op> {
    let mut v = vec![];
    for n in [1, 2, 3] {
        for len in [0usize, 1, 9000, 70000] {
            let data = content(11, len);
            for md5 in digests(n == 2 && len < 10000, thorough) {
                v.push(Op::Part { u: 0, b: "aaa".into(), k: "k".into(), n, data: data.clone(), md5, abort: None });
            }
            let mut at = vec![0, len / 2, len.saturating_sub(1), len];
            at.dedup();
            for a in at {
                v.push(Op::Part { u: 0, b: "aaa".into(), k: "k".into(), n, data: data.clone(), md5: Md5::None, abort: Some(a) });
            }
        }
    }
    v
}

fn unchanged(cx: &mut Cx, w: &mut World, p: &mut Possible) -> R {
    p.observe(cx, w, BUCKETS, KEYS)?;
    w.restart();
    p.observe(cx, w, BUCKETS, KEYS)?;
    // the parts can still be completed and are what they were
    p.step(cx, w, &complete(0, "aaa", "k", &[(3, Tag::None)]))?;
    p.step(cx, w, &complete(0, "aaa", "k", &[(1, Tag::None), (2, Tag::None)]))?;
    p.step(cx, w, &complete(1, "bbb", "u", &[(1, Tag::None)]))?;
    p.observe(cx, w, BUCKETS, KEYS)
}

fn s07(cx: &mut Cx) {
    let mut tpl: Option<Template> = None;
    let get = |cx: &mut Cx, tpl: &mut Option<Template>| -> Result<(World, Model), Fail> {
        if tpl.is_none() {
            *tpl = Some(Template::new(cx, &setup())?);
        }
        let t = tpl.as_ref().unwrap();
        Ok((t.make(cx), t.model.clone()))
    };
    for (name, rq, signed) in bad_uploads(cx.thorough) {
        cx.case(
            || name.clone(),
            |cx| {
              let kinds = if rq.body.iter().any(|c| matches!(c, api::Chunk::Error)) { api::FAILURES.len() } else { 1 };
              for kind in 0..kinds {
                api::FAILURE.store(kind, std::sync::atomic::Ordering::SeqCst);
                let (mut w, m) = get(cx, &mut tpl)?;
                let rs = if signed {
                    let mut svc = S3Service::new(FileSystem::new(&w.root).expect("root"));
                    let mut a = SimpleAuth::new();
                    let c = Cred::default();
                    a.register(c.access, c.secret);
                    svc.set_auth(a);
                    api::call(&svc, &rq).map_err(Fail::from)?
                } else {
                    w.call(&rq)?
                };
                cx.add("transitions", 1);
                cx.state(&(&name, kind));
                let failure = api::FAILURES[kind];
                ensure!(rs.status >= 400, "expected an error, got {} ({failure:?})", rs.show());
                let mut p = Possible { states: vec![(m, None)] };
                unchanged(cx, &mut w, &mut p).map_err(|mut e| {
                    e.what = format!("{failure:?}: {}", e.what);
                    e
                })?;
                remove_tree(&w.dir);
              }
              api::FAILURE.store(0, std::sync::atomic::Ordering::SeqCst);
              Ok(())
            },
        );
    }
    for op in bad_parts(cx.thorough) {
        cx.case(
            || short(&op),
            |cx| {
              for kind in 0..api::FAILURES.len() {
                api::FAILURE.store(kind, std::sync::atomic::Ordering::SeqCst);
                let (mut w, mut m) = get(cx, &mut tpl)?;
                step(cx, &mut w, &mut m, &op)?;
                cx.state(&(short(&op), kind));
                let mut p = Possible { states: vec![(m, None)] };
                unchanged(cx, &mut w, &mut p)?;
                remove_tree(&w.dir);
              }
              api::FAILURE.store(0, std::sync::atomic::Ordering::SeqCst);
              Ok(())
            },
        );
    }
    // dropped requests
    let mut ops: Vec<Op> = mutations();
    for (k, n) in [("k", 20000), ("new/n/k", 20000), ("d/x", 1)] {
        for md5 in [Md5::None, Md5::Good, Md5::Bad] {
            ops.push(Op::Put { b: "aaa".into(), k: k.into(), data: content(4, n), meta: vec![("a".into(), "b".into())], md5, split: 4096, abort: None });
        }
    }
    for op in ops {
        cx.case(
            || format!("{} dropped at every poll", short(&op)),
            |cx| {
                for polls in 0.. {
                    cx.alarm(60);
                    let (mut w, m) = get(cx, &mut tpl)?;
                    let req = request(&op, &w.ids, &m).build()?;
                    let end = match exec::run_cancelled(api::send(&w.svc, req), polls) {
                        exec::Outcome::Done(Some(_)) => true,
                        exec::Outcome::Done(None) => false,
                        exec::Outcome::Panic(p) => fail!("dropped at poll {polls}: panic: {p}"),
                        exec::Outcome::Stuck => fail!("dropped at poll {polls}: the request never completes"),
                    };
                    if !end {
                        cx.add("transitions", 1);
                        cx.state(&(short(&op), polls));
                        let mut p = possible(&m, &op, None);
                        let part = matches!(op, Op::Part { .. });
                        let r = if part { p.observe(cx, &w, BUCKETS, KEYS).and_then(|()| follow_up(cx, &mut w, &mut p, &op)) } else { unchanged_or_done(cx, &mut w, &mut p) };
                        if let Err(mut e) = r {
                            e.what = format!("dropped at poll {polls}: {}", e.what);
                            return Err(e);
                        }
                    }
                    remove_tree(&w.dir);
                    if end {
                        cx.max("polls", polls as u64);
                        break;
                    }
                }
                Ok(())
            },
        );
    }
}

fn unchanged_or_done(cx: &mut Cx, w: &mut World, p: &mut Possible) -> R {
    p.observe(cx, w, BUCKETS, KEYS)?;
    w.restart();
    p.observe(cx, w, BUCKETS, KEYS)?;
    p.step(cx, w, &complete(0, "aaa", "k", &[(1, Tag::None), (2, Tag::None)]))?;
    p.step(cx, w, &complete(1, "bbb", "u", &[(1, Tag::None)]))?;
    p.observe(cx, w, BUCKETS, KEYS)
}
