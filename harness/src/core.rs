//! Cases, observations, events, the parent and worker processes.
use crate::gen::Gen;
use crate::{alloc, cov};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const EXIT_STEPS: i32 = 77;
pub const EXIT_MEMORY: i32 = 78;
pub const EXIT_ERROR: i32 = 2;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, Default)]
pub struct Case {
    pub k: String,
    pub s: Vec<String>,
    pub n: Vec<i64>,
}
impl Case {
    pub fn new(k: &str, s: &[&str], n: &[i64]) -> Self {
        Self { k: k.into(), s: s.iter().map(|v| v.to_string()).collect(), n: n.to_vec() }
    }
    pub fn t(k: &str, s: Vec<String>, n: Vec<i64>) -> Self {
        Self { k: k.into(), s, n }
    }
}

/// What was seen while checking a case.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub want_note: bool,
    pub note: String,
    pub oracle: u64,
}
impl Obs {
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_note && self.note.is_empty() {
            self.note = f();
        }
    }
}

pub enum Stop {
    /// The property is broken.
    Violation(String),
    /// The harness could not decide.
    Error(String),
}
pub type Verdict = Result<(), Stop>;
pub fn bad<T>(s: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Violation(s.into()))
}
pub fn harness_error<T>(s: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Error(s.into()))
}

// ---------------------------------------------------------------- events
pub struct Ev {
    name: &'static str,
    n: AtomicU64,
}
static EVS: Mutex<Vec<&'static Ev>> = Mutex::new(Vec::new());
static NEW_EV: AtomicBool = AtomicBool::new(false);
impl Ev {
    pub const fn new(name: &'static str) -> Self {
        Ev { name, n: AtomicU64::new(0) }
    }
    pub fn hits(&'static self, n: u64) {
        if n > 0 {
            self.hit();
            self.n.fetch_add(n - 1, Relaxed);
        }
    }
    #[inline]
    pub fn hit(&'static self) {
        if self.n.fetch_add(1, Relaxed) == 0 {
            EVS.lock().unwrap().push(self);
            NEW_EV.store(true, Relaxed);
        }
    }
}
#[macro_export]
macro_rules! ev {
    ($n:expr) => {{
        static E: $crate::core::Ev = $crate::core::Ev::new($n);
        E.hit();
    }};
}
static FEATS: Mutex<BTreeMap<&'static str, HashSet<u64>>> = Mutex::new(BTreeMap::new());
/// A numbered event (a rule of a rule file, a configuration, ...).
pub fn feature(ns: &'static str, id: u64) {
    let mut f = FEATS.lock().unwrap();
    if f.entry(ns).or_default().insert(id) {
        NEW_EV.store(true, Relaxed);
    }
}

// ---------------------------------------------------------------- calling the code under test
static IN_SUT: AtomicUsize = AtomicUsize::new(0);
thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn in_sut() -> bool {
    IN_SUT.load(Relaxed) != 0
}
pub static STEP_LIMIT: AtomicU64 = AtomicU64::new(8_000_000_000);
pub static MEM_LIMIT: AtomicUsize = AtomicUsize::new(2 << 30);
static MAX_STEPS: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
        if IN_SUT.load(Relaxed) == 0 {
            eprintln!("harness panic: {m} at {l}");
        }
    }));
}

pub struct Cost {
    pub steps: u64,
    pub peak: usize,
    pub allocs: u64,
    pub bytes: u64,
    pub before: usize,
}

/// Runs code of the crate under test, watched: a panic, too many steps or too much memory is a violation.
pub fn sut_cost<T>(what: &str, f: impl FnOnce() -> T) -> Result<(T, Cost), Stop> {
    IN_SUT.fetch_add(1, Relaxed);
    CALLS.fetch_add(1, Relaxed);
    cov::begin(STEP_LIMIT.load(Relaxed));
    let before = alloc::live();
    alloc::begin(MEM_LIMIT.load(Relaxed));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let (peak, allocs, bytes) = alloc::end();
    let steps = cov::end();
    IN_SUT.fetch_sub(1, Relaxed);
    if steps > MAX_STEPS.load(Relaxed) {
        MAX_STEPS.store(steps, Relaxed);
    }
    match r {
        Ok(v) => Ok((v, Cost { steps, peak: peak.saturating_sub(before), allocs, bytes, before })),
        Err(_) => {
            let p = LAST_PANIC.with(|p| p.borrow().clone());
            bad(format!("{what} panicked: {p}"))
        }
    }
}
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Stop> {
    sut_cost(what, f).map(|v| v.0)
}

// ---------------------------------------------------------------- properties
pub trait Prop {
    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial (evidence).
    fn rule(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    /// Files whose literals are fed to the generators.
    fn files(&self) -> &'static [&'static str];
    /// Systematic cases; worker `w` of `n` takes its share. The callback returns false to stop.
    fn enumerate(&self, _g: &mut Gen, _thorough: bool, _w: usize, _n: usize, _f: &mut dyn FnMut(&Case) -> bool) {}
    fn gen(&self, g: &mut Gen) -> Case;
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        g.mutate_default(c);
    }
    /// Makes a mutated or shrunk case well-formed; false to skip it.
    fn repair(&self, _c: &mut Case) -> bool {
        true
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict;
    /// Least number of (evaluations, non-trivial ones) for a run to count as having observed something.
    fn minimum(&self) -> (u64, u64) {
        (2000, 500)
    }
    /// (quick, thorough) seconds for the random phase.
    fn seconds(&self) -> (u64, u64) {
        (12, 600)
    }
    fn workers(&self) -> usize {
        8
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    /// Events that must have been observed for the run to count.
    fn required_events(&self) -> &'static [&'static str] {
        &[]
    }
    fn shrink(&self) -> bool {
        true
    }
}

#[derive(Serialize, Deserialize, Default)]
struct WStats {
    evaluations: u64,
    enumerated: u64,
    enumeration_complete: bool,
    calls: u64,
    nontrivial: u64,
    max_steps: u64,
    corpus: usize,
    events: BTreeMap<String, u64>,
    feats: BTreeMap<String, Vec<u64>>,
    samples: Vec<serde_json::Value>,
    edges_total: usize,
    seen: Vec<u8>,
    hashes: Vec<u64>,
    violation: Option<(Case, String)>,
    error: Option<String>,
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

fn case_hash(c: &Case) -> u64 {
    let mut h = fnv(c.k.as_bytes());
    for s in &c.s {
        h = h.rotate_left(17) ^ fnv(s.as_bytes());
        h = h.wrapping_mul(0x9E3779B97F4A7C15);
    }
    for n in &c.n {
        h = (h.rotate_left(9) ^ *n as u64).wrapping_mul(0x9E3779B97F4A7C15);
    }
    h
}

struct Worker<'a> {
    prop: &'a dyn Prop,
    st: WStats,
    hs: HashSet<u64>,
    virgin: cov::Virgin,
    corpus: Vec<Case>,
    state: std::fs::File,
    buf: Vec<u8>,
    t0: Instant,
}
const HASH_CAP: usize = 3_000_000;

impl Worker<'_> {
    fn one(&mut self, c: &Case, keep: bool) -> bool {
        self.buf.clear();
        serde_json::to_writer(&mut self.buf, c).unwrap();
        self.buf.push(b'\n');
        self.buf.push(0);
        let _ = self.state.write_at(&self.buf, 0);
        let mut o = Obs { want_note: self.st.samples.len() < 6 && self.st.evaluations % 37 == 5, ..Default::default() };
        NEW_EV.store(false, Relaxed);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.prop.check(c, &mut o)));
        self.st.evaluations += 1;
        match r {
            Err(_) => {
                let p = LAST_PANIC.with(|p| p.borrow().clone());
                self.st.error = Some(format!("harness panic: {p} on {}", serde_json::to_string(c).unwrap()));
                return false;
            }
            Ok(Err(Stop::Error(e))) => {
                self.st.error = Some(format!("{e} on {}", serde_json::to_string(c).unwrap()));
                return false;
            }
            Ok(Err(Stop::Violation(v))) => {
                self.st.violation = Some((c.clone(), v));
                return false;
            }
            Ok(Ok(())) => {}
        }
        if o.nontrivial {
            self.st.nontrivial += 1;
            if self.hs.len() < HASH_CAP {
                self.hs.insert(case_hash(c));
            }
        }
        if !o.note.is_empty() {
            let n: String = o.note.chars().take(400).collect();
            let mut k = c.clone();
            k.s.iter_mut().for_each(|s| *s = s.chars().take(300).collect());
            self.st.samples.push(serde_json::json!({"case": k, "observed": n}));
        }
        let new = self.virgin.merge();
        if keep && (new || NEW_EV.load(Relaxed)) && self.corpus.len() < 20000 {
            self.corpus.push(c.clone());
        }
        true
    }
}

pub fn worker(prop: &dyn Prop, thorough: bool, seed: u64, w: usize, n: usize, dir: &Path) -> i32 {
    let state = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(dir.join(format!("w{w}.case"))).unwrap();
    let mut g = Gen::new(seed ^ fnv(prop.id().as_bytes()).rotate_left(w as u32 * 5 + 1) ^ ((w as u64) << 32), prop.files());
    let mut wk = Worker {
        prop,
        st: WStats::default(),
        hs: HashSet::new(),
        virgin: cov::Virgin::new(),
        corpus: vec![],
        state,
        buf: vec![],
        t0: Instant::now(),
    };
    wk.virgin.merge();
    let secs = if thorough { prop.seconds().1 } else { prop.seconds().0 };
    let secs = std::env::var("VH_SECONDS").ok().and_then(|v| v.parse().ok()).unwrap_or(secs);
    let mut ok = true;
    let mut complete = true;
    {
        let deadline = wk.t0 + Duration::from_secs(secs * 2);
        let wkr = &mut wk;
        let okr = &mut ok;
        let cr = &mut complete;
        prop.enumerate(&mut g, thorough, w, n, &mut |c| {
            if !wkr.one(c, wkr.corpus.len() < 5000) {
                *okr = false;
                return false;
            }
            wkr.st.enumerated += 1;
            if wkr.st.enumerated % 4 == 0 && Instant::now() > deadline {
                *cr = false;
                return false;
            }
            true
        });
    }
    wk.st.enumeration_complete = complete && ok;
    let deadline = Instant::now() + Duration::from_secs(secs);
    let mut i = 0u64;
    while ok {
        i += 1;
        if i % 4 == 0 && Instant::now() > deadline {
            break;
        }
        let mut c = if !wk.corpus.is_empty() && g.rng.chance(1, 2) {
            let k = g.rng.below(wk.corpus.len());
            let mut c = wk.corpus[k].clone();
            if g.rng.chance(1, 6) {
                let o = g.rng.below(wk.corpus.len());
                let other = wk.corpus[o].clone();
                g.splice(&mut c, &other);
            }
            let times = 1 + g.rng.below(3);
            for _ in 0..times {
                prop.mutate(&mut g, &mut c);
            }
            c
        } else {
            prop.gen(&mut g)
        };
        if !prop.repair(&mut c) {
            continue;
        }
        ok = wk.one(&c, true);
    }
    if let Some((c, m)) = wk.st.violation.take() {
        wk.st.violation = Some(if prop.shrink() { shrink(prop, c, m) } else { (c, m) });
    }
    let mut st = wk.st;
    st.calls = CALLS.load(Relaxed);
    st.max_steps = MAX_STEPS.load(Relaxed);
    st.corpus = wk.corpus.len();
    st.edges_total = cov::edges_total();
    st.seen = wk.virgin.bits();
    for e in EVS.lock().unwrap().iter() {
        *st.events.entry(e.name.to_string()).or_default() += e.n.load(Relaxed);
    }
    for (k, v) in FEATS.lock().unwrap().iter() {
        st.feats.insert(k.to_string(), v.iter().copied().collect());
    }
    st.hashes = wk.hs.into_iter().collect();
    let code = if st.violation.is_some() {
        1
    } else if st.error.is_some() {
        EXIT_ERROR
    } else {
        0
    };
    let hashes = std::mem::take(&mut st.hashes);
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("w{w}.hash")), hb).unwrap();
    std::fs::write(dir.join(format!("w{w}.json")), serde_json::to_vec(&st).unwrap()).unwrap();
    code
}

fn shrink(prop: &dyn Prop, mut c: Case, mut m: String) -> (Case, String) {
    let mut budget = 3000;
    let t0 = Instant::now();
    let try_case = |n: &Case, budget: &mut i32| -> Option<String> {
        if *budget <= 0 || t0.elapsed() > Duration::from_secs(20) {
            return None;
        }
        *budget -= 1;
        let mut n = n.clone();
        if !prop.repair(&mut n) {
            return None;
        }
        let mut o = Obs::default();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| prop.check(&n, &mut o))) {
            Ok(Err(Stop::Violation(v))) => Some(v),
            _ => None,
        }
    };
    loop {
        let mut progress = false;
        for si in 0..c.s.len() {
            let mut chunk = c.s[si].chars().count();
            while chunk > 0 {
                let mut pos = 0;
                loop {
                    let v: Vec<char> = c.s[si].chars().collect();
                    if pos >= v.len() {
                        break;
                    }
                    let e = (pos + chunk).min(v.len());
                    let mut n = c.clone();
                    n.s[si] = v[..pos].iter().chain(v[e..].iter()).collect();
                    if let Some(v) = try_case(&n, &mut budget) {
                        c = n;
                        m = v;
                        progress = true;
                    } else {
                        pos += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        if !progress {
            break;
        }
    }
    (c, m)
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub case: Case,
    pub what: String,
}

pub fn verif_dir() -> PathBuf {
    static D: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    D.get_or_init(|| PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))).clone()
}

/// (does not allocate)
pub fn own_dirs() -> &'static [PathBuf; 2] {
    static D: std::sync::OnceLock<[PathBuf; 2]> = std::sync::OnceLock::new();
    D.get_or_init(|| [verif_dir(), PathBuf::from(std::env::var("REPO_DIR").unwrap_or_else(|_| "/repo".into()))])
}

fn write_replay(id: &str, c: &Case, what: &str) -> PathBuf {
    let d = verif_dir().join("replays");
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join(format!("{id}-{:016x}.json", case_hash(c)));
    let r = Replay { property: id.into(), case: c.clone(), what: what.chars().take(4000).collect() };
    std::fs::write(&p, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    p
}

/// Checks one recorded case in this process.
pub fn replay_here(prop: &dyn Prop, c: &Case) -> i32 {
    let mut o = Obs { want_note: true, ..Default::default() };
    match prop.check(c, &mut o) {
        Ok(()) => {
            println!("held: {}", o.note);
            0
        }
        Err(Stop::Violation(v)) => {
            println!("violated: {v}");
            1
        }
        Err(Stop::Error(e)) => {
            println!("error: {e}");
            EXIT_ERROR
        }
    }
}

fn describe(st: &std::process::ExitStatus) -> Option<String> {
    match (st.code(), st.signal()) {
        (Some(EXIT_STEPS), _) => Some("did not finish within the step budget".into()),
        (Some(EXIT_MEMORY), _) => Some("exceeded the memory budget".into()),
        (_, Some(s)) if [libc::SIGSEGV, libc::SIGABRT, libc::SIGILL, libc::SIGBUS, libc::SIGFPE, libc::SIGTRAP].contains(&s) => {
            Some(format!("the process died with signal {s}"))
        }
        _ => None,
    }
}

const BLOCKED: Duration = Duration::from_secs(60);

/// Processor time used by a process this one started, in clock ticks.
pub fn cpu_time(pid: u32) -> u64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0 };
    let Some(i) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    // A process in another state than sleeping isn't blocked on a lock.
    let state = if f.first() == Some(&"S") { 0 } else { 1 << 62 };
    (g(11) + g(12)) | state
}

fn read_state(dir: &Path, w: usize) -> Option<Case> {
    let b = std::fs::read(dir.join(format!("w{w}.case"))).ok()?;
    let e = b.iter().position(|x| *x == 0)?;
    serde_json::from_slice::<Case>(&b[..e]).ok()
}

/// Runs a command; Err when it blocks for a minute without using the processor.
pub fn run_watched(mut c: std::process::Command, dir: &Path) -> std::io::Result<Result<std::process::Output, String>> {
    use std::sync::atomic::AtomicU64;
    static N: AtomicU64 = AtomicU64::new(0);
    let tag = format!("o{}-{}", std::process::id(), N.fetch_add(1, Relaxed));
    std::fs::create_dir_all(dir)?;
    let (po, pe) = (dir.join(format!("{tag}.out")), dir.join(format!("{tag}.err")));
    let mut k = c.stdin(std::process::Stdio::null()).stdout(std::fs::File::create(&po)?).stderr(std::fs::File::create(&pe)?).spawn()?;
    let mut last = (u64::MAX, Instant::now());
    let status = loop {
        if let Some(s) = k.try_wait()? {
            break Some(s);
        }
        if last.1.elapsed() > Duration::from_secs(2) || last.0 == u64::MAX {
            let t = cpu_time(k.id());
            if t != last.0 {
                last = (t, Instant::now());
            } else if last.1.elapsed() > BLOCKED {
                let _ = k.kill();
                let _ = k.wait();
                break None;
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let out = (std::fs::read(&po), std::fs::read(&pe));
    let _ = std::fs::remove_file(&po);
    let _ = std::fs::remove_file(&pe);
    Ok(match status {
        Some(status) => Ok(std::process::Output { status, stdout: out.0?, stderr: out.1? }),
        None => Err("blocked: no progress and no processor time used for 60 s".into()),
    })
}

/// Replays in a fresh process; Some(what) when it is a violation.
pub fn replay_fresh(file: &Path) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("replay1").arg(file);
    let out = match run_watched(cmd, &verif_dir().join("build").join("run")).ok()? {
        Ok(o) => o,
        Err(e) => return Some(e),
    };
    if let Some(d) = describe(&out.status) {
        return Some(d);
    }
    if out.status.code() == Some(1) {
        return Some(String::from_utf8_lossy(&out.stdout).trim().to_string());
    }
    None
}

pub fn parent(prop: &dyn Prop, thorough: bool, seed: u64) -> i32 {
    let t0 = Instant::now();
    let id = prop.id();
    let tier = if thorough { "thorough" } else { "quick" };
    let dir = verif_dir().join("build").join("run").join(format!("{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let n = prop.workers();
    let mut kids = vec![];
    for w in 0..n {
        let k = std::process::Command::new(&exe)
            .args(["worker", id, tier, &seed.to_string(), &w.to_string(), &n.to_string()])
            .arg(&dir)
            .env("VH_SCRATCH", &dir)
            .stderr(std::fs::File::create(dir.join(format!("w{w}.err"))).unwrap())
            .spawn()
            .unwrap();
        kids.push(Some(k));
    }
    // The watchdog is generous and only ever makes a run inconclusive.
    let secs = if thorough { prop.seconds().1 } else { prop.seconds().0 };
    let watchdog = Duration::from_secs(if thorough { secs * 3 + 600 } else { 600 });
    let mut violation: Option<(Case, String)> = None;
    let mut error: Option<String> = None;
    let mut live = n;
    let mut cpu: Vec<(u64, Instant)> = vec![(0, Instant::now()); n];
    while live > 0 {
        for (w, slot) in kids.iter_mut().enumerate() {
            if let Some(k) = slot {
                if cpu[w].1.elapsed() > Duration::from_secs(2) {
                    let t = cpu_time(k.id());
                    if t != cpu[w].0 {
                        cpu[w] = (t, Instant::now());
                    } else if cpu[w].1.elapsed() > BLOCKED {
                        // Sleeping for that long without using the processor: a deadlock, if it is reproduced.
                        let _ = k.kill();
                        let _ = k.wait();
                        live -= 1;
                        *slot = None;
                        match read_state(&dir, w) {
                            Some(c) => {
                                let p = write_replay(id, &c, "blocked");
                                match replay_fresh(&p) {
                                    Some(d2) => violation = violation.or(Some((c, d2))),
                                    None => error = error.or(Some(format!("worker {w} blocked, not reproduced in a fresh process"))),
                                }
                            }
                            None => error = error.or(Some(format!("worker {w} blocked before any case"))),
                        }
                        continue;
                    }
                }
                if let Some(st) = k.try_wait().unwrap() {
                    live -= 1;
                    *slot = None;
                    let c = read_state(&dir, w);
                    if let Some(d) = describe(&st) {
                        match c {
                            Some(c) => {
                                let p = write_replay(id, &c, &d);
                                match replay_fresh(&p) {
                                    Some(d2) => violation = violation.or(Some((c, d2))),
                                    None => {
                                        let _ = std::fs::remove_file(&p);
                                        error = error.or(Some(format!("worker {w}: {d}, not reproduced in a fresh process")));
                                    }
                                }
                            }
                            None => error = error.or(Some(format!("worker {w}: {d} before any case"))),
                        }
                    } else {
                        match st.code() {
                            Some(0) | Some(1) | Some(EXIT_ERROR) => {}
                            _ => {
                                let e = std::fs::read_to_string(dir.join(format!("w{w}.err"))).unwrap_or_default();
                                error = error.or(Some(format!("worker {w}: ended with {st:?}: {}", e.chars().take(500).collect::<String>())))
                            }
                        }
                        if st.code() == Some(1) && !thorough {
                            // One violation decides; the others are told to end.
                            if let Ok(b) = std::fs::read(dir.join(format!("w{w}.json"))) {
                                if let Ok(s) = serde_json::from_slice::<WStats>(&b) {
                                    if let Some(v) = s.violation {
                                        violation = violation.or(Some(v));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        if violation.is_some() {
            break;
        }
        if t0.elapsed() > watchdog {
            error = error.or(Some("watchdog: the run took too long (inconclusive)".into()));
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for k in kids.iter_mut().flatten() {
        let _ = k.kill();
        let _ = k.wait();
    }
    // merge
    let mut tot = WStats { enumeration_complete: true, ..Default::default() };
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut feats: BTreeMap<String, HashSet<u64>> = BTreeMap::new();
    let mut reports = 0;
    for w in 0..n {
        let Some(s) = std::fs::read(dir.join(format!("w{w}.json"))).ok().and_then(|b| serde_json::from_slice::<WStats>(&b).ok()) else {
            continue;
        };
        reports += 1;
        tot.evaluations += s.evaluations;
        tot.enumerated += s.enumerated;
        tot.enumeration_complete &= s.enumeration_complete;
        tot.calls += s.calls;
        tot.nontrivial += s.nontrivial;
        tot.max_steps = tot.max_steps.max(s.max_steps);
        tot.corpus += s.corpus;
        tot.edges_total = s.edges_total;
        for (k, v) in s.events {
            *tot.events.entry(k).or_default() += v;
        }
        for (k, v) in s.feats {
            feats.entry(k).or_default().extend(v);
        }
        if tot.seen.len() < s.seen.len() {
            tot.seen.resize(s.seen.len(), 0);
        }
        for (i, b) in s.seen.iter().enumerate() {
            tot.seen[i] |= b;
        }
        for x in s.samples {
            if tot.samples.len() < 8 {
                tot.samples.push(x);
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("w{w}.hash"))) {
            for ch in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(ch.try_into().unwrap()));
            }
        }
        if violation.is_none() {
            violation = s.violation;
        }
        if error.is_none() {
            error = s.error;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let edges_seen = tot.seen.iter().filter(|b| **b != 0).count();
    let (min_e, min_n) = prop.minimum();
    if violation.is_none() && error.is_none() {
        if reports < n {
            error = Some(format!("only {reports} of {n} workers reported"));
        } else if tot.evaluations < min_e || (hashes.len() as u64) < min_n {
            error = Some(format!("too few observations: {} evaluations, {} non-trivial", tot.evaluations, hashes.len()));
        } else if edges_seen == 0 {
            error = Some("the code under test is not instrumented: no edge observed".into());
        } else if let Some(e) = prop.required_events().iter().find(|e| !tot.events.contains_key(**e)) {
            error = Some(format!("event {e} was never observed"));
        }
    }
    let viol = violation.as_ref().map(|(c, v)| (write_replay(id, c, v), c, v));
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": seed, "level": prop.level(),
        "coverage": {
            "evaluations": tot.evaluations,
            "distinct_nontrivial": hashes.len(),
            "rule": prop.rule(),
            "samples": tot.samples,
            "systematic_cases": tot.enumerated,
            "systematic_cases_complete": tot.enumeration_complete,
            "calls_into_the_crate": tot.calls,
            "max_logical_steps_of_a_call": tot.max_steps,
            "edges_of_the_crate_seen": edges_seen,
            "edges_of_the_crate": tot.edges_total,
            "coverage_guided_corpus": tot.corpus,
            "distinct_model_events": tot.events.len(),
            "model_events": tot.events,
            "distinct_numbered_events": feats.iter().map(|(k,v)|(k.clone(),v.len())).collect::<BTreeMap<_,_>>(),
        },
        "assumptions": prop.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if viol.is_some() {1} else {0},
    });
    write_evidence(id, &ev);
    if let Some((p, c, v)) = viol {
        println!("{id}: {} evaluations, then: {v}", tot.evaluations);
        println!("case: {}", serde_json::to_string(c).unwrap().chars().take(2000).collect::<String>());
        println!("VIOLATION property={id} replay={}", p.display());
        return 1;
    }
    if let Some(e) = error {
        // A busy machine may not get as far as it has to in the usual time: once more, with more of it.
        if !thorough && std::env::var_os("VH_SECONDS").is_none() {
            println!("{id}: {e}; once more with more time");
            std::env::set_var("VH_SECONDS", (secs * 4).min(150).to_string());
            return parent(prop, thorough, seed.wrapping_add(1000));
        }
        println!("{id}: inconclusive: {e}");
        return EXIT_ERROR;
    }
    println!(
        "{id}: held on {} evaluations ({} distinct non-trivial, {} systematic), {} edges of {}, {} model events, max steps {}, {:.1} s",
        tot.evaluations,
        hashes.len(),
        tot.enumerated,
        edges_seen,
        tot.edges_total,
        tot.events.len() + feats.values().map(|v| v.len()).sum::<usize>(),
        tot.max_steps,
        t0.elapsed().as_secs_f64()
    );
    0
}

pub fn write_evidence(id: &str, ev: &serde_json::Value) {
    let d = verif_dir().join("evidence");
    std::fs::create_dir_all(&d).unwrap();
    let mut f = std::fs::File::create(d.join(format!("{id}.json"))).unwrap();
    f.write_all(serde_json::to_string_pretty(ev).unwrap().as_bytes()).unwrap();
    f.write_all(b"\n").unwrap();
}
