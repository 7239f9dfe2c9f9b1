//! Case enumeration over worker processes, evidence, known findings and violations.

use crate::{exec, sys};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    pub what: String,
    /// identifies a defect that the known-findings file may list
    pub finding: Option<String>,
}

impl From<String> for Fail {
    fn from(what: String) -> Self {
        Fail { what, finding: None }
    }
}
impl From<&str> for Fail {
    fn from(what: &str) -> Self {
        Fail { what: what.to_owned(), finding: None }
    }
}

pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::report::Fail::from(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::fail!($($t)*) } };
}

/// what the parent can read after a worker died
#[repr(C)]
struct Shared {
    case: u64,
    started: u64,
    len: u64,
    desc: [u8; 4000],
}

pub struct Cx {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: u64,
    worker: usize,
    workers: usize,
    next: u64,
    only: Option<u64>,
    pub dir: PathBuf,
    pub stats: BTreeMap<String, u64>,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<(u64, String, String)>,
    findings: BTreeMap<String, (u64, String)>,
    known: BTreeSet<String>,
    caps: BTreeSet<String>,
    deadline: Instant,
    shared: *mut Shared,
    pub verbose: bool,
    tmp_seq: u64,
}

pub fn hash_of(x: &impl Hash) -> u64 {
    // deterministic, unlike RandomState
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl Cx {
    /// enumerate one case; runs it if it belongs to this worker
    pub fn case(&mut self, desc: impl FnOnce() -> String, f: impl FnOnce(&mut Cx) -> R) {
        let idx = self.next;
        self.next += 1;
        match self.only {
            Some(o) if o != idx => return,
            None if idx as usize % self.workers != self.worker => return,
            _ => {}
        }
        if self.violations.len() >= 3 {
            return;
        }
        if Instant::now() > self.deadline {
            self.cap("time limit reached");
            return;
        }
        let desc = desc();
        self.mark(idx, &desc);
        *self.stats.entry("cases".into()).or_default() += 1;
        if self.samples.len() < 3 {
            self.samples.push(desc.clone());
        }
        if self.verbose {
            println!("case {idx}: {desc}");
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self)));
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                // a panic here is one of the harness, unless it says otherwise
                eprintln!("harness panic in case {idx} ({desc}): {}", exec::last_panic());
                std::process::exit(70);
            }
        };
        let esc = sys::take_escapes();
        let r = if r.is_ok() && !esc.is_empty() {
            Err(Fail::from(format!("access outside the root directory: {esc:?}")))
        } else {
            r
        };
        if let Err(fail) = r {
            self.record(idx, &desc, fail);
        }
        unsafe { libc::alarm(0) };
    }

    fn record(&mut self, idx: u64, desc: &str, fail: Fail) {
        if let Some(key) = &fail.finding {
            if self.known.contains(key) {
                let e = self
                    .findings
                    .entry(key.clone())
                    .or_insert((0, format!("{desc}: {}", fail.what)));
                e.0 += 1;
                return;
            }
        }
        if self.verbose {
            println!("FAILED: {}", fail.what);
        }
        let tag = fail.finding.map_or(String::new(), |k| format!(" [{k}]"));
        self.violations
            .push((idx, desc.to_owned(), format!("{}{}", fail.what, tag)));
    }

    /// a failure inside a case which goes on
    pub fn soft(&mut self, desc: &str, fail: Fail) -> R {
        if let Some(key) = &fail.finding {
            if self.known.contains(key) {
                self.record(0, desc, fail);
                return Ok(());
            }
        }
        Err(fail)
    }

    fn mark(&mut self, idx: u64, desc: &str) {
        unsafe {
            set_alarm(if self.thorough { 600 } else { 120 });
            let s = &mut *self.shared;
            s.case = idx;
            s.started = 1;
            let n = desc.len().min(s.desc.len());
            s.desc[..n].copy_from_slice(&desc.as_bytes()[..n]);
            s.len = n as u64;
        }
    }

    /// limit the time of the current case
    pub fn alarm(&self, secs: u32) {
        unsafe { set_alarm(secs) }
    }

    pub fn add(&mut self, name: &str, n: u64) {
        *self.stats.entry(name.to_owned()).or_default() += n;
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.stats.entry(format!("max:{name}")).or_default();
        *e = (*e).max(n);
    }
    /// count a distinct state; true if it is new to this worker
    pub fn state(&mut self, s: &impl Hash) -> bool {
        self.states.insert(hash_of(s))
    }
    /// count a distinct observed outcome
    pub fn outcome(&mut self, s: &impl Hash) -> bool {
        self.outcomes.insert(hash_of(s))
    }
    pub fn cap(&mut self, what: &str) {
        self.caps.insert(what.to_owned());
    }
    pub fn out_of_time(&self) -> bool {
        Instant::now() > self.deadline
    }
    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }
    /// enough violations to stop
    pub fn done(&self) -> bool {
        !self.violations.is_empty() && self.violations.len() >= 3
    }
    pub fn worker(&self) -> usize {
        self.worker
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.known.contains(key)
    }
    /// a fresh directory
    pub fn fresh_dir(&mut self) -> PathBuf {
        self.tmp_seq += 1;
        let d = self.dir.join(format!("d{}", self.tmp_seq));
        std::fs::create_dir(&d).expect("scratch directory");
        d
    }
}

pub fn remove_tree(p: &Path) {
    assert!(p.is_absolute() && p.components().count() > 3);
    let _ = std::fs::remove_dir_all(p);
}

pub struct Meta {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick_secs: u64,
    pub thorough_secs: u64,
    pub run: fn(&mut Cx),
}

fn known_findings(verif: &Path, id: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let text = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    for line in text.lines() {
        let rest = match line.strip_prefix("finding: ") {
            Some(r) => r,
            None => continue,
        };
        let mut parts = rest.splitn(3, ' ');
        let prop = parts.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
        let key = parts.next().unwrap_or("").strip_prefix("key=").unwrap_or("");
        if prop == id {
            out.insert(key.to_owned(), parts.next().unwrap_or("").to_owned());
        }
    }
    out
}

fn scratch_base() -> PathBuf {
    for base in ["/dev/shm", "/tmp"] {
        let p = Path::new(base).join(format!("mc-{}", std::process::id()));
        if std::fs::create_dir(&p).is_ok() {
            return p;
        }
    }
    eprintln!("no scratch directory");
    std::process::exit(70);
}

static mut LIMIT: u32 = 0;
static mut REARMED: u32 = 0;
static mut SINCE: (f64, f64) = (0.0, 0.0);

fn seconds(clock: libc::clockid_t) -> f64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    // not through the interposed function: the clock of the cases can be another one
    unsafe { libc::syscall(libc::SYS_clock_gettime, clock, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

unsafe fn set_alarm(secs: u32) {
    LIMIT = secs;
    REARMED = 0;
    SINCE = (seconds(libc::CLOCK_MONOTONIC), seconds(libc::CLOCK_PROCESS_CPUTIME_ID));
    libc::alarm(secs);
}

extern "C" fn on_alarm(_: libc::c_int) {
    unsafe {
        // a process that gets little of a busy machine is given more time
        let wall = seconds(libc::CLOCK_MONOTONIC) - SINCE.0;
        let cpu = seconds(libc::CLOCK_PROCESS_CPUTIME_ID) - SINCE.1;
        if cpu > 0.05 * wall && cpu < 0.7 * wall && REARMED < 3 {
            REARMED += 1;
            libc::alarm(LIMIT);
            return;
        }
        libc::_exit(99)
    }
}

pub fn main(meta: &Meta, thorough: bool, only: Option<u64>, verif: &Path) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known = known_findings(verif, meta.id);
    let workers = if only.is_some() {
        1
    } else {
        std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)
    };
    let base = scratch_base();
    let shared: Vec<*mut Shared> = (0..workers)
        .map(|_| unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            p.cast::<Shared>()
        })
        .collect();
    let secs = if thorough { meta.thorough_secs } else { meta.quick_secs };
    let mut pids = vec![];
    for w in 0..workers {
        let dir = base.join(format!("w{w}"));
        std::fs::create_dir(&dir).expect("scratch");
        // the code under test runs as an unprivileged user with only scratch files of its own
        let root = unsafe { libc::geteuid() } == 0;
        if root {
            std::os::unix::fs::chown(&dir, Some(65534), Some(65534)).expect("chown");
        }
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                libc::signal(libc::SIGALRM, on_alarm as *const () as usize);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if root {
                    libc::setgroups(0, std::ptr::null());
                    libc::setgid(65534);
                    libc::setuid(65534);
                }
            }
            let code = worker(meta, thorough, seed, only, &known, w, workers, dir, shared[w], secs);
            unsafe { libc::_exit(code) };
        }
        pids.push(pid);
    }
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut caps: BTreeSet<String> = BTreeSet::new();
    let mut violations: Vec<(u64, String, String)> = vec![];
    let mut findings: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut broken = false;
    for (w, pid) in pids.into_iter().enumerate() {
        let mut status = 0;
        unsafe { libc::waitpid(pid, &mut status, 0) };
        let exited = libc::WIFEXITED(status).then(|| libc::WEXITSTATUS(status));
        if exited == Some(0) {
            let text = std::fs::read(base.join(format!("w{w}/result.json"))).unwrap_or_default();
            let v: Value = match serde_json::from_slice(&text) {
                Ok(v) => v,
                Err(e) => {
                    eprintln!("no result of worker {w}: {e}");
                    broken = true;
                    continue;
                }
            };
            for (k, n) in v["stats"].as_object().into_iter().flatten() {
                let n = n.as_u64().unwrap_or(0);
                let e = stats.entry(k.clone()).or_default();
                if k.starts_with("max:") {
                    *e = (*e).max(n);
                } else {
                    *e += n;
                }
            }
            states.extend(v["states"].as_array().into_iter().flatten().filter_map(Value::as_u64));
            outcomes.extend(v["outcomes"].as_array().into_iter().flatten().filter_map(Value::as_u64));
            for s in v["samples"].as_array().into_iter().flatten() {
                if samples.len() < 8 {
                    samples.push(s.as_str().unwrap_or("").to_owned());
                }
            }
            for s in v["caps"].as_array().into_iter().flatten() {
                caps.insert(s.as_str().unwrap_or("").to_owned());
            }
            for x in v["violations"].as_array().into_iter().flatten() {
                violations.push((
                    x[0].as_u64().unwrap_or(0),
                    x[1].as_str().unwrap_or("").to_owned(),
                    x[2].as_str().unwrap_or("").to_owned(),
                ));
            }
            for (k, x) in v["findings"].as_object().into_iter().flatten() {
                let e = findings
                    .entry(k.clone())
                    .or_insert((0, x[1].as_str().unwrap_or("").to_owned()));
                e.0 += x[0].as_u64().unwrap_or(0);
            }
        } else {
            let s = unsafe { &*shared[w] };
            let desc = String::from_utf8_lossy(&s.desc[..s.len as usize]).into_owned();
            let sig = libc::WIFSIGNALED(status).then(|| libc::WTERMSIG(status));
            match (exited, sig) {
                (Some(99), _) => violations.push((s.case, desc, "the request never completes".into())),
                (_, Some(sig)) if s.started == 1 && sig != libc::SIGKILL => {
                    violations.push((s.case, desc, format!("the process is killed by signal {sig}")));
                }
                _ => {
                    eprintln!("worker {w} failed: {exited:?} {sig:?} in case {} {desc}", s.case);
                    broken = true;
                }
            }
        }
    }
    remove_tree(&base.join("w0").parent().unwrap().to_path_buf());
    let wall = t0.elapsed().as_secs_f64();
    let tier = if thorough { "thorough" } else { "quick" };
    let get = |k: &str| stats.get(k).copied().unwrap_or(0);
    let evaluations = get("evaluations").max(get("cases"));
    let mut cov = serde_json::Map::new();
    for (k, v) in &stats {
        cov.insert(k.replace("max:", "max_"), json!(v));
    }
    cov.insert("rule".into(), json!(meta.rule));
    cov.insert("samples".into(), json!(samples));
    cov.insert("distinct_outcomes".into(), json!(outcomes.len()));
    cov.insert("exhaustive".into(), json!(caps.is_empty()));
    if !caps.is_empty() {
        cov.insert("caps_hit".into(), json!(caps));
    }
    match meta.level {
        "model_checking" => {
            cov.insert("states".into(), json!(states.len()));
            cov.insert("transitions".into(), json!(get("transitions")));
            cov.insert("traces_validated_against_impl".into(), json!(get("traces")));
        }
        _ => {
            cov.insert("evaluations".into(), json!(evaluations));
            cov.insert(
                "distinct_nontrivial".into(),
                json!(if states.is_empty() { outcomes.len() } else { states.len() }),
            );
        }
    }
    let ev = json!({
        "property": meta.id, "tier": tier, "seed": seed, "level": meta.level,
        "coverage": Value::Object(cov), "assumptions": meta.assumptions,
        "wall_s": wall, "violations": violations.len(),
        "known_findings": findings.iter().map(|(k, v)| json!({"key": k, "occurrences": v.0, "example": v.1})).collect::<Vec<_>>(),
    });
    if only.is_none() {
        let _ = std::fs::create_dir_all(verif.join("evidence"));
        if let Err(e) = std::fs::write(
            verif.join("evidence").join(format!("{}.json", meta.id)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        ) {
            eprintln!("cannot write the evidence: {e}");
            broken = true;
        }
    }
    for (k, v) in &findings {
        println!(
            "KNOWN-FINDING: property={} {} ({}; {} occurrences)",
            meta.id,
            known.get(k).map_or("", String::as_str),
            k,
            v.0
        );
    }
    println!(
        "{} {tier}: cases={} states={} transitions={} outcomes={} violations={} wall={wall:.1}s{}",
        meta.id,
        get("cases"),
        states.len(),
        get("transitions"),
        outcomes.len(),
        violations.len(),
        if caps.is_empty() { String::new() } else { format!(" caps={caps:?}") }
    );
    println!("  {stats:?}");
    violations.sort();
    if let Some((idx, desc, what)) = violations.first() {
        let dir = verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{tier}-{idx}.txt", meta.id));
        let mut text = format!(
            "property: {}\nreplay: bash /verif/run.sh {} {tier} --case {idx}\ncase: {desc}\nviolation: {what}\n",
            meta.id, meta.id
        );
        for (i, d, w) in violations.iter().skip(1) {
            text.push_str(&format!("\nalso case {i}: {d}\nviolation: {w}\n"));
        }
        let _ = std::fs::write(&path, text);
        println!("case {idx}: {desc}");
        println!("{what}");
        println!("VIOLATION property={} replay={}", meta.id, path.display());
        return 1;
    }
    if broken {
        return 70;
    }
    0
}

#[allow(clippy::too_many_arguments)]
fn worker(
    meta: &Meta,
    thorough: bool,
    seed: u64,
    only: Option<u64>,
    known: &BTreeMap<String, String>,
    worker: usize,
    workers: usize,
    dir: PathBuf,
    shared: *mut Shared,
    secs: u64,
) -> i32 {
    exec::install_panic_hook();
    sys::set_scratch(&dir);
    let mut cx = Cx {
        id: meta.id,
        thorough,
        seed,
        worker,
        workers,
        next: 0,
        only,
        dir: dir.clone(),
        stats: BTreeMap::new(),
        states: HashSet::new(),
        outcomes: HashSet::new(),
        samples: vec![],
        violations: vec![],
        findings: BTreeMap::new(),
        known: known.keys().cloned().collect(),
        caps: BTreeSet::new(),
        deadline: Instant::now() + Duration::from_secs(secs),
        shared,
        verbose: only.is_some(),
        tmp_seq: 0,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (meta.run)(&mut cx)));
    if r.is_err() {
        eprintln!("harness panic: {}", exec::last_panic());
        return 70;
    }
    unsafe { libc::alarm(0) };
    let v = json!({
        "stats": cx.stats,
        "states": cx.states.iter().collect::<Vec<_>>(),
        "outcomes": cx.outcomes.iter().collect::<Vec<_>>(),
        "samples": cx.samples, "caps": cx.caps,
        "violations": cx.violations.iter().map(|(a, b, c)| json!([a, b, c])).collect::<Vec<_>>(),
        "findings": cx.findings.iter().map(|(k, v)| (k.clone(), json!([v.0, v.1]))).collect::<serde_json::Map<_, _>>(),
    });
    if std::fs::write(dir.join("result.json"), serde_json::to_vec(&v).unwrap()).is_err() {
        return 70;
    }
    0
}
