//! S08: exploration of the interleavings of concurrent requests.
//!
//! Every request runs on its own thread; a baton lets exactly one of them run. The baton may be
//! passed before every system call whose target is shared (touched by two requests, one of which
//! changes it), at every poll of a request after such a call, when a request wakes another, when
//! a request waits for a lock or for its client. The search is depth-first over the choices, by
//! replay of prefixes, up to a number of preemptions.

use crate::api::{self, Rq, Rs};
use crate::exec::{self, Flag, Outcome};
use crate::report::{hash_of, remove_tree, Cx, Fail, Meta, R};
use crate::storage::{complete, copy, create, del, mdel, part, range_meaning, upload, upload_meta, RangeOut};
use crate::store::*;
use crate::sys::{self, Decision, Hook, Kind};
use crate::{ensure, fail};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub fn metas() -> Vec<Meta> {
    vec![Meta {
        id: "S08",
        level: "interleaving_exploration",
        rule: "all interleavings, up to the preemption bound, of all pairs of operations of the table on a prepared state, and of triples of operations (failing uploads included) and pairs of request sequences that meet on an object, a bucket or an upload (listings against two successive changes of another client included), at the granularity of system calls on shared files, polls, wake-ups and lock operations; every execution must complete, and its responses and final state must be those of a linearization of the model that respects the real-time order. states: distinct (responses, final files); transitions: scheduling choices; traces: executions",
        assumptions: &[
            "system calls are atomic with respect to each other",
            "the bodies of requests arrive in at most three pieces",
            "as in S3, a copy reads its source and writes its destination, and a bulk deletion removes each object, as separate steps",
        ],
        quick_secs: 400,
        thorough_secs: 2700,
        run: s08,
    }]
}

// --- the scheduler ---

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Ready,
    /// waits to be woken
    Idle,
    /// waits for a futex
    Futex(usize),
    Done,
}

#[derive(Clone, Copy, Debug)]
struct Choice {
    n: u8,
    chosen: u8,
    /// 1 if any but the first choice is a preemption
    cost: u8,
}

/// a name (`N`), the data of a file (`D`) or the entries of a directory (`E`)
type Loc = (char, String);

#[derive(Default)]
struct St {
    cur: usize,
    status: Vec<Status>,
    prefix: Vec<u8>,
    trace: Vec<Choice>,
    dead: bool,
    clock: u64,
    touched: HashMap<Loc, (u32, u32)>,
    shared: Arc<HashSet<Loc>>,
    /// an access to a shared location since the last poll
    dirty: Vec<bool>,
    log: Option<Vec<String>>,
}

pub struct Sched {
    root: PathBuf,
    st: Mutex<St>,
    cvs: Vec<Condvar>,
}

impl St {
    /// the thread that goes on
    fn pick(&mut self, me: Option<usize>, free: bool) -> Option<usize> {
        let n = self.status.len();
        let first = me.unwrap_or(0);
        let ready = |st: &St, i: usize| st.status[i] == Status::Ready;
        let enabled: Vec<usize> = (0..n).map(|i| (first + i) % n).filter(|&i| ready(self, i)).collect();
        if enabled.len() <= 1 || self.dead {
            return enabled.first().copied();
        }
        let at = self.trace.len();
        let chosen = self.prefix.get(at).copied().unwrap_or(0).min(enabled.len() as u8 - 1);
        let cost = u8::from(me.map_or(false, |m| self.status[m] == Status::Ready) && !free);
        self.trace.push(Choice { n: enabled.len() as u8, chosen, cost });
        Some(enabled[chosen as usize])
    }
    fn note(&mut self, s: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            l.push(s());
        }
    }
}

impl Sched {
    fn lock(&self) -> MutexGuard<'_, St> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn wait(&self, mut st: MutexGuard<'_, St>, me: usize) {
        while st.cur != me {
            st = self.cvs[me].wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }
    fn pass(&self, st: &mut St, to: usize) {
        if st.cur != to {
            st.cur = to;
            self.cvs[to].notify_one();
        }
    }
    /// the baton may be passed here
    fn point(&self, me: usize, free: bool) {
        let mut st = self.lock();
        if let Some(next) = st.pick(Some(me), free) {
            if next != me {
                st.note(|| format!("--- {next}"));
                self.pass(&mut st, next);
                self.wait(st, me);
            }
        }
    }
    /// `me` can not go on; false if nobody can
    fn block(&self, me: usize, status: Status) -> bool {
        let mut st = self.lock();
        st.status[me] = status;
        st.note(|| format!("{me} waits"));
        match st.pick(None, false) {
            Some(next) => {
                self.pass(&mut st, next);
                self.wait(st, me);
            }
            None => {
                // nobody is ready: a deadlock
                st.dead = true;
                for s in &mut st.status {
                    if *s != Status::Done {
                        if matches!(s, Status::Futex(_)) {
                            eprintln!("deadlock on a futex");
                            std::process::abort();
                        }
                        *s = Status::Ready;
                    }
                }
            }
        }
        !self.lock().dead
    }
    fn finish(&self, me: usize) {
        let mut st = self.lock();
        st.status[me] = Status::Done;
        st.note(|| format!("{me} ends"));
        match st.pick(None, false) {
            Some(next) => self.pass(&mut st, next),
            None => {
                if st.status.iter().any(|s| *s != Status::Done) {
                    st.dead = true;
                    for s in &mut st.status {
                        if *s == Status::Idle {
                            *s = Status::Ready;
                        }
                    }
                    if let Some(next) = st.pick(None, false) {
                        self.pass(&mut st, next);
                    } else {
                        eprintln!("deadlock on a futex");
                        std::process::abort();
                    }
                }
            }
        }
    }
    fn now(&self) -> u64 {
        let mut st = self.lock();
        st.clock += 1;
        st.clock
    }

    /// the locations that the call reads and writes, relative to the root
    fn access(&self, op: &sys::Op) -> (Vec<Loc>, Vec<Loc>) {
        let rel = |p: &Path| -> Option<String> {
            let p = p.strip_prefix(&self.root).ok()?;
            Some(p.to_string_lossy().trim_end_matches(" (deleted)").to_owned())
        };
        let parents = |s: &str| -> Vec<Loc> {
            let mut v = vec![];
            let mut p = Path::new(s);
            while let Some(q) = p.parent() {
                if !q.as_os_str().is_empty() {
                    v.push(('N', q.to_string_lossy().into_owned()));
                }
                p = q;
            }
            v
        };
        let dir = |s: &str| ('E', Path::new(s).parent().map_or(String::new(), |p| p.to_string_lossy().into_owned()));
        let (mut r, mut w) = (vec![], vec![]);
        for (i, p) in [Some(&op.path), op.path2.as_ref()].into_iter().enumerate() {
            let Some(s) = p.and_then(|p| rel(p)) else { continue };
            match op.kind {
                Kind::Read | Kind::Seek | Kind::Fstat | Kind::Sync => r.push(('D', s)),
                Kind::Write | Kind::Truncate | Kind::CopyRange => {
                    if i == 0 {
                        w.push(('D', s));
                    }
                }
                Kind::Stat | Kind::Open => {
                    r.extend(parents(&s));
                    r.push(('D', s.clone()));
                    r.push(('N', s));
                }
                Kind::Opendir | Kind::Readdir => {
                    r.extend(parents(&s));
                    r.push(('E', s.clone()));
                    r.push(('N', s));
                }
                Kind::OpenW | Kind::Rename | Kind::Unlink | Kind::Rmdir | Kind::Mkdir | Kind::Link | Kind::Chmod => {
                    r.extend(parents(&s));
                    if op.kind == Kind::Rmdir {
                        r.push(('E', s.clone()));
                    }
                    if op.kind == Kind::OpenW {
                        w.push(('D', s.clone()));
                    }
                    w.push(dir(&s));
                    w.push(('N', s));
                }
                Kind::FutexWait | Kind::FutexWake => {}
            }
        }
        (r, w)
    }
}

/// names with random parts, made equal
fn pattern(l: &Loc) -> Loc {
    if l.1.len() < 36 {
        return l.clone();
    }
    let mut out = String::new();
    let mut run = String::new();
    for c in l.1.chars().chain(std::iter::once('\0')) {
        if c.is_ascii_hexdigit() || c == '-' {
            run.push(c);
            continue;
        }
        out.push_str(if run.len() >= 36 && run.contains('-') { "*" } else { &run });
        run.clear();
        if c != '\0' {
            out.push(c);
        }
    }
    (l.0, out)
}

struct SchedHook {
    s: Arc<Sched>,
    me: usize,
}

impl Hook for SchedHook {
    fn before(&mut self, op: &sys::Op) -> Decision {
        match op.kind {
            Kind::FutexWait => {
                let _ = self.s.block(self.me, Status::Futex(op.len));
                return Decision::Skip;
            }
            Kind::FutexWake => {
                {
                    let mut st = self.s.lock();
                    for s in &mut st.status {
                        if *s == Status::Futex(op.len) {
                            *s = Status::Ready;
                        }
                    }
                }
                self.s.point(self.me, false);
                return Decision::Proceed;
            }
            _ => {}
        }
        let (r, w) = self.s.access(op);
        let is_shared = {
            let mut st = self.s.lock();
            let bit = 1 << self.me;
            for l in &r {
                st.touched.entry(l.clone()).or_default().0 |= bit;
            }
            for l in &w {
                st.touched.entry(l.clone()).or_default().1 |= bit;
            }
            let shared = Arc::clone(&st.shared);
            let is_shared = r.iter().chain(&w).any(|l| shared.contains(&pattern(l)));
            if is_shared {
                st.dirty[self.me] = true;
            }
            is_shared
        };
        if is_shared {
            self.s.point(self.me, false);
        }
        let me = self.me;
        self.s.lock().note(|| {
            format!(
                "{me} {}{:?} {}{}",
                if is_shared { "*" } else { " " },
                op.kind,
                op.path.display(),
                op.path2.as_ref().map_or(String::new(), |p| format!(" -> {}", p.display()))
            )
        });
        Decision::Proceed
    }
}

thread_local! {
    static ME: std::cell::RefCell<Option<(Arc<Sched>, usize)>> = const { std::cell::RefCell::new(None) };
}

fn me() -> Option<(Arc<Sched>, usize)> {
    ME.try_with(|m| m.borrow().clone()).ok().flatten()
}

/// who polls on this thread
pub fn owner() -> Option<(Arc<Sched>, usize)> {
    sys::disarmed(me)
}

/// the waker of a request was called
pub fn on_wake(owner: &(Arc<Sched>, usize)) {
    sys::disarmed(|| {
        let Some((s, i)) = me() else { return };
        if i == owner.1 {
            return;
        }
        {
            let mut st = s.lock();
            if st.status[owner.1] == Status::Idle {
                st.status[owner.1] = Status::Ready;
            }
            st.note(|| format!("{i} wakes {}", owner.1));
        }
        s.point(i, false);
    });
}

/// a poll of the request of this thread follows
pub fn boundary() {
    if let Some((s, i)) = me() {
        let dirty = std::mem::replace(&mut s.lock().dirty[i], false);
        if dirty {
            s.point(i, false);
        }
    }
}

/// the request waits for its client
pub fn client() {
    sys::disarmed(|| {
        if let Some((s, i)) = me() {
            s.lock().note(|| format!("{i} waits for its client"));
            s.point(i, true);
        }
    });
}

fn idle(f: &Flag) -> bool {
    if f.woken.load(Ordering::SeqCst) {
        return true;
    }
    match me() {
        Some((s, i)) => s.block(i, Status::Idle),
        None => false,
    }
}

struct Ran {
    rs: Vec<Vec<Result<Rs, String>>>,
    /// start and end of each request
    span: Vec<Vec<(u64, u64)>>,
    trace: Vec<Choice>,
    new_shared: Vec<Loc>,
    dead: bool,
    log: Vec<String>,
}

/// one execution: the requests of each thread, in the order that `prefix` chooses
fn execute(w: &World, rqs: &[Vec<Rq>], prefix: &[u8], shared: &Arc<HashSet<Loc>>, log: bool) -> Ran {
    let n = rqs.len();
    let mut st = St {
        cur: usize::MAX,
        status: vec![Status::Ready; n],
        prefix: prefix.to_vec(),
        shared: Arc::clone(shared),
        dirty: vec![false; n],
        log: log.then(Vec::new),
        ..St::default()
    };
    let first = st.pick(None, true).unwrap_or(0);
    st.cur = first;
    let s = Arc::new(Sched {
        root: w.root.clone(),
        st: Mutex::new(st),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
    });
    let mut rs = vec![];
    let mut span = vec![];
    let svc = &w.svc;
    std::thread::scope(|scope| {
        let hs: Vec<_> = rqs
            .iter()
            .enumerate()
            .map(|(i, list)| {
                let s = Arc::clone(&s);
                let f = move || {
                    ME.with(|m| *m.borrow_mut() = Some((Arc::clone(&s), i)));
                    s.wait(s.lock(), i);
                    sys::set_hook(Some(Box::new(SchedHook { s: Arc::clone(&s), me: i })));
                    let mut out = vec![];
                    let mut spans = vec![];
                    for (j, rq) in list.iter().enumerate() {
                        if j > 0 {
                            s.point(i, true);
                        }
                        let t0 = s.now();
                        s.lock().note(|| format!("{i} begins {}", rq.uri()));
                        let r = rq.build().map_err(|e| format!("BAD-REQUEST {e}")).and_then(|req| {
                            match exec::run_with(api::send(svc, req), idle) {
                                Outcome::Done(r) => r,
                                Outcome::Panic(p) => Err(format!("panic: {p}")),
                                Outcome::Stuck => Err("the request never completes".into()),
                            }
                        });
                        let t1 = s.now();
                        out.push(r);
                        spans.push((t0, t1));
                    }
                    let _ = sys::set_hook(None);
                    s.finish(i);
                    ME.with(|m| *m.borrow_mut() = None);
                    (out, spans)
                };
                std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(scope, f).expect("thread")
            })
            .collect();
        for h in hs {
            let (a, b) = h.join().expect("thread");
            rs.push(a);
            span.push(b);
        }
    });
    let mut st = s.lock();
    let mut new_shared = vec![];
    for (l, (r, w)) in &st.touched {
        let conflict = if l.0 == 'E' {
            // entries of different names commute
            (0..n).any(|i| w >> i & 1 == 1 && r & !(1 << i) != 0)
        } else {
            (0..n).any(|i| w >> i & 1 == 1 && (r | w) & !(1 << i) != 0)
        };
        if conflict {
            let p = pattern(l);
            if !shared.contains(&p) {
                new_shared.push(p);
            }
        }
    }
    Ran {
        rs,
        span,
        trace: std::mem::take(&mut st.trace),
        new_shared,
        dead: st.dead,
        log: st.log.take().unwrap_or_default(),
    }
}

// --- linearizability ---

type Check = Arc<dyn Fn(&Model, &Rs) -> R>;

#[derive(Clone)]
pub enum Sop {
    Op(Op),
    Read(String, Rq, Check),
}

impl Sop {
    fn name(&self) -> String {
        match self {
            Sop::Op(o) => short(o),
            Sop::Read(n, ..) => n.clone(),
        }
    }
}

struct Item<'a> {
    sop: &'a Sop,
    rs: &'a Rs,
    span: (u64, u64),
}

#[derive(Clone)]
struct Lin {
    m: Model,
    ids: Vec<String>,
    /// completed requests of each thread
    done: Vec<usize>,
    /// steps done of the current request of each thread
    sub: Vec<usize>,
    /// the source that a copy has read
    copied: Vec<Option<Option<Obj>>>,
}

struct Search<'a> {
    items: Vec<Vec<Item<'a>>>,
    initial: &'a Model,
    finals: Vec<(Model, Vec<String>)>,
    err: Option<(usize, Fail)>,
    visited: HashSet<u64>,
}

impl Search<'_> {
    fn key(l: &Lin) -> u64 {
        hash_of(&(&l.m, &l.ids, &l.done, &l.sub, &l.copied))
    }

    fn go(&mut self, l: &Lin) {
        if !self.visited.insert(Self::key(l)) {
            return;
        }
        let n = self.items.len();
        if (0..n).all(|t| l.done[t] == self.items[t].len()) {
            // new uploads in the order of their ids, whatever the order of their creation
            let (mut m, mut ids) = (l.m.clone(), l.ids.clone());
            let old = self.initial.uploads.len();
            let mut order: Vec<usize> = (old..ids.len()).collect();
            order.sort_by(|a, b| ids[*a].cmp(&ids[*b]));
            let (m0, i0) = (m.clone(), ids.clone());
            for (to, from) in order.into_iter().enumerate() {
                m.uploads[old + to] = m0.uploads[from].clone();
                ids[old + to] = i0[from].clone();
            }
            if !self.finals.iter().any(|f| f.0 == m) {
                self.finals.push((m, ids));
            }
            return;
        }
        for t in 0..n {
            let Some(it) = self.items[t].get(l.done[t]) else { continue };
            // everything that ended before this one began comes first
            let early = (0..n).any(|u| {
                u != t && self.items[u][l.done[u]..].first().map_or(false, |o| o.span.1 < it.span.0)
            });
            if early {
                continue;
            }
            let mut k = l.clone();
            match self.step(t, &mut k) {
                Ok(()) => self.go(&k),
                Err(e) => {
                    let depth = l.done.iter().sum();
                    if self.err.as_ref().map_or(true, |x| x.0 < depth) {
                        self.err = Some((depth, e));
                    }
                }
            }
        }
    }

    /// the next step of thread `t`
    fn step(&self, t: usize, l: &mut Lin) -> R {
        let it = &self.items[t][l.done[t]];
        let end = |l: &mut Lin| {
            l.done[t] += 1;
            l.sub[t] = 0;
            l.copied[t] = None;
        };
        match it.sop {
            Sop::Read(_, _, f) => {
                f(&l.m, it.rs)?;
                end(l);
            }
            Sop::Op(op @ Op::MultiDelete { b, ks, .. }) => {
                let i = l.sub[t];
                if i == 0 {
                    let mut m = l.m.clone();
                    judge(&mut l.ids.clone(), &mut m, op, it.rs)?;
                    if !l.m.buckets.contains_key(b) || ks.is_empty() {
                        end(l);
                        return Ok(());
                    }
                }
                if l.m.buckets.contains_key(b) {
                    apply(&mut l.m, &del(b, &ks[i]));
                }
                l.sub[t] += 1;
                if l.sub[t] == ks.len() {
                    end(l);
                }
            }
            Sop::Op(op @ Op::Copy { sb, sk, db, dk, .. }) => match l.copied[t].clone() {
                None => {
                    if !it.rs.ok() {
                        // refused: at any point
                        judge(&mut l.ids, &mut l.m, op, it.rs)?;
                        end(l);
                        return Ok(());
                    }
                    l.copied[t] = Some(l.m.buckets.get(sb).and_then(|x| x.get(sk)).cloned());
                    l.sub[t] = 1;
                }
                Some(src) => {
                    let mut m = l.m.clone();
                    let x = m.buckets.entry(sb.clone()).or_default();
                    match src {
                        Some(o) => drop(x.insert(sk.clone(), o)),
                        None => drop(x.remove(sk)),
                    }
                    judge(&mut l.ids, &mut m, op, it.rs)?;
                    let dst = m.buckets.get(db).and_then(|x| x.get(dk)).cloned();
                    match (l.m.buckets.get_mut(db), dst) {
                        (Some(x), Some(o)) => drop(x.insert(dk.clone(), o)),
                        _ => fail!("{}: succeeds without its bucket", short(op)),
                    }
                    end(l);
                }
            },
            Sop::Op(Op::Complete { u, b, k, parts }) => {
                // the ETags are those of the parts before all requests
                let parts = parts
                    .iter()
                    .map(|(n, tag)| {
                        let old = self.initial.uploads.get(*u).and_then(|x| x.parts.get(n));
                        let new = l.m.uploads.get(*u).and_then(|x| x.parts.get(n));
                        let stale = *tag == Tag::Good && old != new;
                        (*n, if stale { Tag::Bad } else { tag.clone() })
                    })
                    .collect();
                let op = Op::Complete { u: *u, b: b.clone(), k: k.clone(), parts };
                judge(&mut l.ids, &mut l.m, &op, it.rs)?;
                end(l);
            }
            Sop::Op(op) => {
                judge(&mut l.ids, &mut l.m, op, it.rs)?;
                end(l);
            }
        }
        Ok(())
    }
}

// --- the exploration ---

struct Plan {
    name: String,
    threads: Vec<Vec<Sop>>,
    bound: u32,
    cap: usize,
}

impl Plan {
    fn new(threads: Vec<Vec<Sop>>, bound: u32, cap: usize) -> Plan {
        let name: Vec<String> =
            threads.iter().map(|l| l.iter().map(Sop::name).collect::<Vec<_>>().join("; ")).collect();
        Plan { name: name.join(" || "), threads, bound, cap }
    }
}

const BUCKETS: &[&str] = &["aaa", "bbb", "ccc", "ddd"];
const KEYS: &[&str] = &["k", "d/x", "n/n/k", "u"];

fn headers_of(rs: &Rs) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<_> = rs.headers.iter().filter(|h| h.0 != "last-modified" && h.0 != "date").cloned().collect();
    v.sort();
    v
}

/// bodies without what differs from run to run
fn digest(rs: &Rs) -> u64 {
    let text = String::from_utf8_lossy(&rs.body);
    let text = if text.starts_with("<?xml") || text.starts_with('<') {
        let mut t = pattern(&('D', text.into_owned())).1;
        for e in ["LastModified", "CreationDate"] {
            let (a, z) = (format!("<{e}>"), format!("</{e}>"));
            while let Some(i) = t.find(&a) {
                let j = t[i..].find(&z).map_or(t.len(), |j| i + j + z.len());
                t.replace_range(i..j, "");
            }
        }
        t
    } else {
        text.into_owned()
    };
    hash_of(&(rs.status, headers_of(rs), text, rs.body_err))
}

/// the threads of an execution run one at a time: keep those of a worker on one processor
fn pin(worker: usize) {
    unsafe {
        let size = std::mem::size_of::<libc::cpu_set_t>();
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, size, &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &set)).collect();
        if cpus.len() > 1 {
            let mut one: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(cpus[worker % cpus.len()], &mut one);
            libc::sched_setaffinity(0, size, &one);
        }
    }
}

fn explore(cx: &mut Cx, t: &Template, p: &Plan) -> R {
    let rqs: Vec<Vec<Rq>> = p
        .threads
        .iter()
        .map(|l| {
            l.iter()
                .map(|s| match s {
                    Sop::Op(o) => request(o, &t.ids, &t.model),
                    Sop::Read(_, rq, _) => rq.clone(),
                })
                .collect()
        })
        .collect();
    let mut shared: Arc<HashSet<Loc>> = Arc::default();
    let mut verdicts: HashSet<u64> = HashSet::new();
    let mut prefix: Vec<u8> = vec![];
    let mut runs = 0;
    loop {
        let dir = cx.fresh_dir();
        copy_tree(&t.root, &dir.join("root"));
        let mut w = World::new(&dir);
        w.ids = t.ids.clone();
        let ran = execute(&w, &rqs, &prefix, &shared, false);
        runs += 1;
        cx.add("traces", 1);
        cx.add("transitions", ran.trace.len() as u64);
        cx.max("choices", ran.trace.len() as u64);
        if !ran.new_shared.is_empty() {
            // these were not scheduling points: start again with them
            let mut s = (*shared).clone();
            s.extend(ran.new_shared);
            shared = Arc::new(s);
            prefix.clear();
            remove_tree(&dir);
            ensure!(runs < p.cap, "harness: the set of shared files does not become stable");
            continue;
        }
        let r = check(cx, &mut w, t, p, &ran, &mut verdicts);
        remove_tree(&dir);
        if let Err(mut e) = r {
            let schedule: Vec<u8> = ran.trace.iter().map(|c| c.chosen).collect();
            // once more, with a record
            let dir = cx.fresh_dir();
            copy_tree(&t.root, &dir.join("root"));
            let mut w = World::new(&dir);
            w.ids = t.ids.clone();
            let again = execute(&w, &rqs, &schedule, &shared, true);
            remove_tree(&dir);
            let root = format!("{}/root", dir.display());
            e.what = format!("{}\nschedule {schedule:?}:\n{}", e.what, again.log.join("\n").replace(&root, ""));
            return Err(e);
        }
        // the next schedule
        let mut next = None;
        let mut cost = vec![0; ran.trace.len() + 1];
        for (i, c) in ran.trace.iter().enumerate() {
            cost[i + 1] = cost[i] + if c.chosen > 0 { u32::from(c.cost) } else { 0 };
        }
        for (i, c) in ran.trace.iter().enumerate().rev() {
            if c.chosen + 1 < c.n && cost[i] + u32::from(c.cost) <= p.bound {
                next = Some(i);
                break;
            }
        }
        let Some(i) = next else { break };
        prefix = ran.trace[..i].iter().map(|c| c.chosen).collect();
        prefix.push(ran.trace[i].chosen + 1);
        if runs >= p.cap {
            cx.cap("executions per case");
            break;
        }
        if cx.out_of_time() {
            cx.cap("time limit reached");
            break;
        }
    }
    cx.max("executions of one case", runs as u64);
    if cx.verbose || std::env::var_os("MC_RUNS").is_some() {
        println!("{runs} executions: {}", p.name);
    }
    Ok(())
}

fn check(cx: &mut Cx, w: &mut World, t: &Template, p: &Plan, ran: &Ran, verdicts: &mut HashSet<u64>) -> R {
    ensure!(!ran.dead, "deadlock: {:?}", ran.rs.iter().flatten().filter_map(|r| r.as_ref().err()).collect::<Vec<_>>());
    let mut all = vec![];
    for l in &ran.rs {
        let mut v = vec![];
        for r in l {
            match r {
                Ok(rs) => v.push(rs),
                Err(e) => fail!("{e}"),
            }
        }
        all.push(v);
    }
    let order: Vec<bool> = {
        let spans: Vec<(u64, u64)> = ran.span.iter().flatten().copied().collect();
        spans.iter().flat_map(|a| spans.iter().map(move |b| a.1 < b.0)).collect()
    };
    let tree: Vec<_> = w.canonical_tree().into_iter().map(|(p, d)| (pattern(&('N', p)), d)).collect();
    let digests: Vec<u64> = all.iter().flatten().map(|r| digest(r)).collect();
    let key = hash_of(&(&digests, &order, &tree));
    cx.state(&(&p.name, key));
    cx.outcome(&(&p.name, digests));
    if !verdicts.insert(key) {
        return Ok(());
    }
    let items = p
        .threads
        .iter()
        .zip(&all)
        .zip(&ran.span)
        .map(|((l, r), s)| l.iter().zip(r).zip(s).map(|((sop, rs), span)| Item { sop, rs, span: *span }).collect())
        .collect();
    let n = p.threads.len();
    let mut s = Search { items, initial: &t.model, finals: vec![], err: None, visited: HashSet::new() };
    s.go(&Lin { m: t.model.clone(), ids: t.ids.clone(), done: vec![0; n], sub: vec![0; n], copied: vec![None; n] });
    let show = |all: &Vec<Vec<&Rs>>| -> String {
        let mut o = String::new();
        for (l, r) in p.threads.iter().zip(all) {
            for (a, b) in l.iter().zip(r) {
                o.push_str(&format!("\n  {} -> {}", a.name(), b.show()));
            }
        }
        o
    };
    if s.finals.is_empty() {
        let e = s.err.map_or_else(String::new, |e| e.1.what);
        fail!("no sequential execution gives these responses: {e}{}", show(&all));
    }
    cx.add("histories_checked", 1);
    cx.add("evaluations", s.visited.len() as u64);
    // the state is the one of such an execution, also for a restarted server
    let ids = s.finals[0].1.clone();
    let mut poss = Possible { states: s.finals.into_iter().map(|f| (f.0, None)).collect() };
    w.restart();
    w.ids = ids;
    let r = poss.observe(cx, w, BUCKETS, KEYS).and_then(|()| parts(cx, w, &mut poss));
    r.map_err(|mut e| {
        e.what = format!("final state: {}{}", e.what, show(&all));
        e
    })
}

/// the parts of the uploads are those of a possible state, and it works
fn parts(cx: &mut Cx, w: &mut World, p: &mut Possible) -> R {
    for u in 0..w.ids.len() {
        loop {
            let x = &p.states[0].0.uploads[u];
            if x.done || x.parts.is_empty() {
                break;
            }
            let list: Vec<(i64, Tag)> = x.parts.keys().map(|n| (*n, Tag::None)).collect();
            let op = complete(u, &x.bucket, &x.key, &list);
            let before = p.states.len();
            p.step(cx, w, &op)?;
            p.observe(cx, w, BUCKETS, KEYS)?;
            if p.states.len() == before && !p.states[0].0.uploads[u].done {
                // its bucket is gone
                break;
            }
        }
    }
    for b in BUCKETS {
        for k in KEYS {
            p.step(cx, w, &del(b, k))?;
        }
        p.step(cx, w, &Op::DeleteBucket((*b).into()))?;
    }
    Ok(())
}

fn setup() -> Vec<Op> {
    vec![
        create("aaa"),
        create("bbb"),
        create("ccc"),
        put_meta("aaa", "k", &content(1, 9000), &[("v", "1")]),
        put("aaa", "d/x", b"x"),
        put_meta("bbb", "k", b"other", &[("v", "b")]),
        upload_meta("aaa", "k", &[("v", "u")]),
        part(0, "aaa", "k", 1, b"part one "),
        part(0, "aaa", "k", 2, b"part two"),
        upload("bbb", "u"),
        part(1, "bbb", "u", 1, b"only part"),
    ]
}

/// an upload whose body arrives in two pieces, with a pause between them
fn slow(mut op: Op) -> Op {
    if let Op::Put { data, split, .. } = &mut op {
        *split = data.len().div_ceil(2).max(1);
    }
    op
}

fn mutations() -> Vec<Op> {
    vec![
        slow(put_meta("aaa", "k", &content(3, 5000), &[("v", "2")])),
        put("aaa", "k", b"no metadata"),
        slow(put_meta("aaa", "n/n/k", b"new", &[("v", "n")])),
        put("ccc", "k", b"in an empty bucket"),
        copy("aaa", "k", "bbb", "k"),
        copy("bbb", "k", "aaa", "k"),
        copy("aaa", "k", "aaa", "n/n/k"),
        del("aaa", "k"),
        del("aaa", "d/x"),
        mdel("aaa", &["k", "d/x"]),
        create("ddd"),
        Op::DeleteBucket("ccc".into()),
        Op::DeleteBucket("aaa".into()),
        upload_meta("aaa", "d/x", &[("v", "w")]),
        part(0, "aaa", "k", 1, b"another part one "),
        part(0, "aaa", "k", 3, b"part three"),
        complete(0, "aaa", "k", &[(1, Tag::Good), (2, Tag::Good)]),
        complete(0, "aaa", "k", &[(1, Tag::None)]),
        complete(1, "bbb", "u", &[(1, Tag::None)]),
        // uploads that fail, after their data was written
        slow(Op::Put { b: "aaa".into(), k: "k".into(), data: content(4, 600), meta: vec![("v".into(), "bad".into())], md5: Md5::Bad, split: 0, abort: None }),
        Op::Put { b: "aaa".into(), k: "k".into(), data: content(4, 600), meta: vec![], md5: Md5::None, split: 0, abort: Some(300) },
        Op::Put { b: "ccc".into(), k: "new/k".into(), data: content(4, 600), meta: vec![("v".into(), "bad".into())], md5: Md5::Bad, split: 0, abort: None },
        Op::Part { u: 0, b: "aaa".into(), k: "k".into(), n: 1, data: content(4, 600), md5: Md5::Bad, abort: None },
        complete(0, "aaa", "k", &[(1, Tag::Good), (2, Tag::Bad)]),
    ]
}

fn reads() -> Vec<Sop> {
    let mut v: Vec<Sop> = vec![];
    for (b, k) in [("aaa", "k"), ("bbb", "k"), ("aaa", "n/n/k")] {
        v.push(Sop::Read(format!("GET {b}/{k}"), Rq::obj("GET", b, k), Arc::new(move |m, rs| check_get(m, b, k, rs))));
    }
    v.push(Sop::Read(
        "HEAD aaa/k".into(),
        Rq::obj("HEAD", "aaa", "k"),
        Arc::new(|m, rs| match m.buckets.get("aaa").and_then(|x| x.get("k")) {
            None => {
                ensure!(rs.status == 404, "HEAD of a missing object: {}", rs.show());
                Ok(())
            }
            Some(o) => {
                ensure!(rs.status == 200, "HEAD aaa/k: {}", rs.show());
                ensure!(rs.header("content-length") == Some(o.data.len().to_string()), "HEAD aaa/k: length: {}", rs.show());
                ensure!(meta_of(rs) == o.meta, "HEAD aaa/k: metadata: {}", rs.show());
                if let Some(t) = rs.header("etag") {
                    ensure!(t == format!("\"{}\"", api::md5_hex(&o.data)), "HEAD aaa/k: ETag: {}", rs.show());
                }
                Ok(())
            }
        }),
    ));
    v.push(Sop::Read(
        "GET bytes=2-6".into(),
        Rq::obj("GET", "aaa", "k").h("range", "bytes=2-6"),
        Arc::new(|m, rs| match m.buckets.get("aaa").and_then(|x| x.get("k")) {
            None => check_get(m, "aaa", "k", rs),
            Some(o) => {
                match range_meaning("bytes=2-6", o.data.len() as u64) {
                    RangeOut::Part(a, b) => {
                        ensure!(rs.status == 206 && rs.body == o.data[a as usize..=b as usize], "range: {}", rs.show());
                    }
                    _ => fail!("harness: range"),
                }
                ensure!(
                    rs.header("content-range") == Some(format!("bytes 2-{}/{}", 6.min(o.data.len() - 1), o.data.len())),
                    "range: Content-Range: {}",
                    rs.show()
                );
                ensure!(rs.header("etag") == Some(format!("\"{}\"", api::md5_hex(&o.data))), "range: ETag: {}", rs.show());
                ensure!(meta_of(rs) == o.meta, "range: metadata: {}", rs.show());
                Ok(())
            }
        }),
    ));
    for (b, v2) in [("aaa", false), ("aaa", true), ("ccc", true)] {
        let mut rq = Rq::new("GET", &format!("/{b}"));
        if v2 {
            rq = rq.q("list-type=2");
        }
        v.push(Sop::Read(format!("list {b} (version 2: {v2})"), rq, Arc::new(move |m, rs| check_list(m, b, "", rs, v2))));
    }
    v.push(Sop::Read(
        "ListBuckets".into(),
        Rq::new("GET", "/"),
        Arc::new(|m, rs| {
            ensure!(rs.ok(), "ListBuckets: {}", rs.show());
            let x = rs.xml().map_err(Fail::from)?;
            let got: BTreeSet<String> =
                x.child("Buckets").into_iter().flat_map(|b| b.all("Bucket")).filter_map(|b| b.text_of("Name")).collect();
            let want: BTreeSet<String> = m.buckets.keys().cloned().collect();
            ensure!(got == want, "ListBuckets: {got:?} instead of {want:?}");
            Ok(())
        }),
    ));
    // (a directory is no object: nothing shows it)
    for b in ["ccc", "ddd"] {
        v.push(Sop::Read(
            format!("PUT {b}/d/"),
            Rq::obj("PUT", b, "d/").h("content-length", "0").body(""),
            Arc::new(move |m, rs| {
                let want = if m.buckets.contains_key(b) { 200 } else { 404 };
                ensure!(rs.status == want, "PUT {b}/d/: {want} expected: {}", rs.show());
                Ok(())
            }),
        ));
    }
    for b in ["ccc", "ddd"] {
        v.push(Sop::Read(
            format!("HEAD {b}"),
            Rq::new("HEAD", &format!("/{b}")),
            Arc::new(move |m, rs| {
                let want = if m.buckets.contains_key(b) { 200 } else { 404 };
                ensure!(rs.status == want, "HEAD {b}: {want} expected: {}", rs.show());
                Ok(())
            }),
        ));
    }
    v
}

fn s08(cx: &mut Cx) {
    let muts: Vec<Sop> = mutations().into_iter().map(Sop::Op).collect();
    let reads = reads();
    pin(cx.worker());
    let mut tpl: Option<Template> = None;
    let mut plans: Vec<Plan> = vec![];
    let bound = if cx.thorough { 3 } else { 2 };
    for (i, a) in muts.iter().enumerate() {
        for b in muts[i..].iter().chain(&reads) {
            plans.push(Plan::new(vec![vec![a.clone()], vec![b.clone()]], bound, if cx.thorough { 100_000 } else { 30_000 }));
        }
    }
    // three clients: operations that meet on the object, the bucket, or the upload
    let op = |o: Op| Sop::Op(o);
    let writers: Vec<Sop> = vec![
        op(slow(put_meta("aaa", "k", &content(3, 5000), &[("v", "2")]))),
        op(put("aaa", "k", b"no metadata")),
        op(copy("bbb", "k", "aaa", "k")),
        op(copy("aaa", "k", "bbb", "k")),
        op(del("aaa", "k")),
        op(complete(0, "aaa", "k", &[(1, Tag::Good), (2, Tag::Good)])),
        op(part(0, "aaa", "k", 1, b"another part one ")),
        op(Op::Put { b: "aaa".into(), k: "k".into(), data: content(4, 600), meta: vec![("v".into(), "bad".into())], md5: Md5::Bad, split: 0, abort: None }),
    ];
    let bound = if cx.thorough { 2 } else { 1 };
    let cap = if cx.thorough { 100_000 } else { 40_000 };
    let mut triple = |a: &Sop, b: &Sop, c: &Sop| {
        plans.push(Plan::new(vec![vec![a.clone()], vec![b.clone()], vec![c.clone()]], bound, cap));
    };
    for (i, a) in writers.iter().enumerate() {
        for (j, b) in writers.iter().enumerate().skip(i) {
            // GET, GET of the copy, and the listing
            for r in [&reads[0], &reads[1], &reads[5]] {
                // two slow uploads: a long case
                if cx.thorough || j > 0 || !r.name().starts_with("list") {
                    triple(a, b, r);
                }
            }
            if cx.thorough {
                for c in &writers[j..] {
                    triple(a, b, c);
                }
            }
        }
    }
    let bucket: Vec<Sop> = vec![
        op(Op::DeleteBucket("ccc".into())),
        op(create("ccc")),
        op(put("ccc", "k", b"in an empty bucket")),
        op(put_meta("ccc", "d/x", b"deep", &[("v", "3")])),
        op(copy("aaa", "k", "ccc", "k")),
        op(del("ccc", "k")),
    ];
    for (i, a) in bucket.iter().enumerate() {
        for (j, b) in bucket.iter().enumerate().skip(i) {
            for c in &bucket[j..] {
                triple(a, b, c);
            }
            triple(a, b, &reads[7]);
        }
    }
    // two clients with two requests each
    let two: Vec<Vec<Sop>> = vec![
        vec![op(put_meta("aaa", "k", b"second", &[("v", "2")])), reads[0].clone()],
        vec![op(del("aaa", "k")), reads[0].clone()],
        vec![op(put("aaa", "k", b"third")), op(del("aaa", "k"))],
        vec![op(del("aaa", "k")), op(put_meta("aaa", "k", b"fourth", &[("v", "4")]))],
        vec![op(copy("bbb", "k", "aaa", "k")), op(copy("aaa", "k", "bbb", "k"))],
        vec![reads[0].clone(), reads[3].clone()],
        vec![reads[5].clone(), reads[0].clone()],
        vec![op(part(0, "aaa", "k", 1, b"another part one ")), op(complete(0, "aaa", "k", &[(1, Tag::None), (2, Tag::None)]))],
        vec![op(part(0, "aaa", "k", 2, b"another two")), op(complete(0, "aaa", "k", &[(2, Tag::None)]))],
        vec![op(create("ddd")), op(put("ddd", "k", b"first of its bucket"))],
        vec![op(Op::DeleteBucket("ccc".into())), op(create("ccc"))],
        vec![op(put("ccc", "k", b"c")), op(del("ccc", "k"))],
        vec![op(del("ccc", "k")), op(Op::DeleteBucket("ccc".into()))],
    ];
    for (i, a) in two.iter().enumerate() {
        for b in &two[i..] {
            plans.push(Plan::new(vec![a.clone(), b.clone()], bound, cap));
        }
    }
    // a listing while another client makes two changes, one after the other
    let changes: Vec<Sop> = vec![
        op(put("aaa", "a", b"before all")),
        op(put_meta("aaa", "zz/z", b"after all", &[("v", "5")])),
        op(put("aaa", "k", b"replaced by another")),
        op(del("aaa", "k")),
        op(del("aaa", "n/n/k")),
        op(copy("aaa", "k", "aaa", "0/k")),
        op(complete(0, "aaa", "k", &[(1, Tag::Good), (2, Tag::Good)])),
    ];
    let buckets: Vec<Sop> = vec![op(create("ddd")), op(Op::DeleteBucket("ccc".into())), op(create("000")), op(put("ccc", "k", b"c"))];
    for (list, watching) in [(&changes, &[5usize, 6][..]), (&buckets, &[8][..])] {
        for (i, a) in list.iter().enumerate() {
            for (j, b) in list.iter().enumerate() {
                for (n, r) in watching.iter().enumerate() {
                    if i != j && (cx.thorough || watching.len() == 1 || (i + j + n) % 2 == 0) {
                        plans.push(Plan::new(vec![vec![a.clone(), b.clone()], vec![reads[*r].clone()]], bound, cap));
                    }
                }
            }
        }
    }
    for p in plans {
        cx.case(
            || p.name.clone(),
            |cx| {
                if tpl.is_none() {
                    tpl = Some(Template::new(cx, &setup())?);
                }
                cx.alarm(if cx.thorough { 3000 } else { 600 });
                explore(cx, tpl.as_ref().unwrap(), &p)
            },
        );
    }
}
