//! C29: the same calls in builds watched by AddressSanitizer (with LeakSanitizer), ThreadSanitizer and MemorySanitizer,
//! and interpreted by Miri; see ../../san.
use super::bmp::{clean_scratch, scratch};
use super::pure::{dirs_to, fix, gen_call, make, parse, results, Call};
use super::*;
use crate::core::{bad, feature, harness_error, run_watched, sut, verif_dir, Obs, Prop, Stop, Verdict};
use crate::enc::{langs, KINDS};
use crate::{alloc, ev};
use std::cell::RefCell;
use std::io::Write;
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct C29;
const SANITIZERS: [&str; 3] = ["address", "thread", "memory"];

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
pub fn batch(mode: &str, seed: u64, calls: &[Call]) -> String {
    let mut t = format!("B\t{mode}\t{seed}\t{}\n", dirs().display());
    for c in calls {
        let n: Vec<String> = c.n.iter().map(|x| x.to_string()).collect();
        t += &format!("C\t{}\t{}\t{}\n", c.k, n.join(","), c.s.iter().map(|s| hex(s)).collect::<Vec<_>>().join("\t"));
    }
    t + "E\n"
}
/// Where the Beider-Morse directories are; written once per process.
pub fn dirs() -> PathBuf {
    let d = scratch().join("dirs");
    if !d.exists() {
        let _ = std::fs::create_dir_all(&d);
        dirs_to(&d);
    }
    d
}
fn binary(s: &str) -> PathBuf {
    verif_dir().join("build").join(format!("san-{s}")).join("x86_64-unknown-linux-gnu/release/san")
}
fn command(s: &str) -> Command {
    let mut c = Command::new(binary(s));
    c.env("VERIF_DIR", verif_dir());
    c.env("ASAN_OPTIONS", "detect_leaks=1:allocator_may_return_null=1:halt_on_error=1:exitcode=66:detect_stack_use_after_return=1:symbolize=1");
    c.env("LSAN_OPTIONS", "exitcode=0:print_suppressions=0");
    c.env("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:allocator_may_return_null=1:history_size=4");
    c.env("MSAN_OPTIONS", "halt_on_error=1:exit_code=66:allocator_may_return_null=1");
    c.env("SAN_LEAKS", "1");
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}

/// What a sanitizer said, shortened; None when what happened is none of its errors (stack or memory exhausted).
fn report(text: &str, status: &std::process::ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    for no in ["stack-overflow", "overflowed its stack", "allocation-size-too-big", "out-of-memory", "out of memory", "memory allocation of"] {
        if text.contains(no) {
            return None;
        }
    }
    let found = ["Sanitizer", "unsafe precondition", "misaligned pointer", "null pointer dereference", "free():", "double free", "malloc"]
        .iter()
        .any(|m| text.contains(m));
    let signal = matches!(status.signal(), Some(libc::SIGSEGV | libc::SIGBUS | libc::SIGILL));
    if !found && !signal {
        return None;
    }
    let mut v: Vec<&str> = text.lines().filter(|l| l.contains("SUMMARY") || l.contains("ERROR:") || l.contains("WARNING:") || l.contains("unsafe precondition")).take(3).collect();
    v.extend(text.lines().filter(|l| l.trim_start().starts_with('#') && l.contains("rphonetic")).take(4));
    Some(format!("{} ({status})", v.iter().map(|l| l.trim()).collect::<Vec<_>>().join("; ")))
}

struct Server {
    child: Child,
    err: PathBuf,
    buf: Vec<u8>,
}
enum Answer {
    Ok(u64, u64),
    Bad(String),
    /// ended for a reason of no concern here
    Gone,
}
impl Server {
    fn new(s: &str) -> Result<Server, Stop> {
        let io = |e: std::io::Error| Stop::Error(format!("{s} sanitizer build: {e}"));
        std::fs::create_dir_all(scratch()).map_err(io)?;
        let err = scratch().join(format!("{s}.err"));
        let child = command(s)
            .arg("serve")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(std::fs::File::create(&err).map_err(io)?)
            .spawn()
            .map_err(io)?;
        Ok(Server { child, err, buf: vec![] })
    }
    fn ask(&mut self, b: &str) -> Result<Answer, Stop> {
        let _ = self.child.stdin.as_mut().unwrap().write_all(b.as_bytes());
        let _ = self.child.stdin.as_mut().unwrap().flush();
        let fd = self.child.stdout.as_ref().unwrap().as_raw_fd();
        let t0 = Instant::now();
        loop {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            let r = unsafe { libc::poll(&mut p, 1, 200) };
            if r > 0 {
                let mut b = [0u8; 4096];
                let n = unsafe { libc::read(fd, b.as_mut_ptr() as *mut _, b.len()) };
                if n > 0 {
                    self.buf.extend_from_slice(&b[..n as usize]);
                    if let Some(i) = self.buf.iter().position(|x| *x == b'\n') {
                        let l: Vec<u8> = self.buf.drain(..=i).collect();
                        let l = String::from_utf8_lossy(&l).trim().to_string();
                        let f: Vec<&str> = l.splitn(2, ' ').collect();
                        let n: Vec<u64> = f.get(1).unwrap_or(&"").split(' ').filter_map(|x| x.parse().ok()).collect();
                        match (f[0], n.as_slice()) {
                            ("OK", [ops, panics, _]) => return Ok(Answer::Ok(*ops, *panics)),
                            ("BAD", _) => {
                                let e = std::fs::read_to_string(&self.err).unwrap_or_default();
                                let s: Vec<&str> = e.lines().filter(|l| l.contains("rphonetic") && l.contains('#')).take(4).collect();
                                return Ok(Answer::Bad(format!("{} {}", f.get(1).unwrap_or(&""), s.join("; "))));
                            }
                            _ => return harness_error(format!("answer {l:?}")),
                        }
                    }
                    continue;
                }
                let st = self.child.wait().map_err(|e| Stop::Error(e.to_string()))?;
                let e = String::from_utf8_lossy(&std::fs::read(&self.err).unwrap_or_default()).into_owned();
                return Ok(match report(&e, &st) {
                    Some(r) => Answer::Bad(r),
                    None => Answer::Gone,
                });
            }
            if t0.elapsed() > Duration::from_secs(180) {
                let _ = self.child.kill();
                let _ = self.child.wait();
                return Ok(Answer::Gone);
            }
        }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! { static SERVERS: RefCell<[Option<Server>; 3]> = const { RefCell::new([None, None, None]) }; }

fn ask(s: usize, mode: &str, seed: u64, calls: &[Call]) -> Verdict {
    let a = SERVERS.with(|v| -> Result<Answer, Stop> {
        let mut v = v.borrow_mut();
        if v[s].is_none() {
            v[s] = Some(Server::new(SANITIZERS[s])?);
        }
        let a = v[s].as_mut().unwrap().ask(&batch(mode, seed, calls))?;
        if !matches!(a, Answer::Ok(..)) {
            v[s] = None;
        }
        Ok(a)
    })?;
    match a {
        Answer::Ok(ops, _) => {
            match (s, mode) {
                (0, "leaks") => ev!("leak check of a process with AddressSanitizer"),
                (0, _) => ev!("batch under AddressSanitizer"),
                (1, "own") => ev!("batch under ThreadSanitizer, four threads building encoders at the same time"),
                (1, _) => ev!("batch under ThreadSanitizer, four threads sharing encoders"),
                _ => ev!("batch under MemorySanitizer"),
            }
            COUNTS[s].add(ops);
            Ok(())
        }
        Answer::Bad(r) => bad(format!("{} sanitizer build, {mode}: {r}", SANITIZERS[s])),
        Answer::Gone => {
            ev!("a sanitized process ended for another reason");
            Ok(())
        }
    }
}
struct Count(crate::core::Ev);
impl Count {
    fn add(&'static self, n: u64) {
        self.0.hits(n);
    }
}
static COUNTS: [Count; 4] = [
    Count(crate::core::Ev::new("operations executed under AddressSanitizer")),
    Count(crate::core::Ev::new("operations executed under ThreadSanitizer")),
    Count(crate::core::Ev::new("operations executed under MemorySanitizer")),
    Count(crate::core::Ev::new("operations interpreted by Miri")),
];

/// Miri on a program that `cargo miri` has built for the crate in `dir`.
pub fn miri_runner(program: &std::path::Path, dir: &std::path::Path) -> Command {
    let home = std::env::var("HOME").unwrap_or_else(|_| "/root".into());
    let mut c = Command::new(format!("{home}/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/bin/cargo-miri"));
    c.arg("runner").arg(program).current_dir(dir);
    c.env("MIRI_SYSROOT", format!("{home}/.cache/miri")).env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu");
    c.env("VERIF_DIR", verif_dir());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}
fn miri(args: &[&str], seed: u64) -> Result<std::process::Output, Stop> {
    let io = |e: std::io::Error| Stop::Error(format!("miri: {e}"));
    let mut c = miri_runner(&verif_dir().join("build/san-miri/miri/x86_64-unknown-linux-gnu/debug/san"), &verif_dir().join("san"));
    c.args(args);
    c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-seed={seed} -Zmiri-preemption-rate=0.03 -Zmiri-strict-provenance"));
    match run_watched(c, &scratch()).map_err(io)? {
        Ok(o) => Ok(o),
        Err(e) => harness_error(format!("miri: {e}")),
    }
}
fn ask_miri(seed: u64, calls: &[Call]) -> Verdict {
    let f = scratch().join("miri.txt");
    let b = batch("miri", seed, calls);
    if let Some(d) = std::env::var_os("SAN_KEEP") {
        let _ = std::fs::write(PathBuf::from(d).join(format!("miri-{}.txt", std::process::id())), &b);
    }
    std::fs::write(&f, b).map_err(|e| Stop::Error(e.to_string()))?;
    let o = miri(&["run", &f.to_string_lossy()], seed & 0xffff)?;
    let (out, err) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
    if o.status.success() {
        if let Some(e) = out.lines().find_map(|l| l.strip_prefix("BAD ")) {
            return bad(format!("interpreted by Miri: {e}"));
        }
        if let Some(n) = out.lines().find_map(|l| l.strip_prefix("OK ")).and_then(|l| l.split(' ').next()?.parse::<u64>().ok()) {
            ev!("batch interpreted by Miri");
            COUNTS[3].add(n);
            return Ok(());
        }
    }
    let e: Vec<&str> = err.lines().filter(|l| l.starts_with("error") || l.contains("unsafe precondition") || l.contains("rphonetic") || l.contains("/src/")).take(8).collect();
    let e = e.join("; ");
    if err.contains("error: Undefined Behavior") || err.contains("error: memory leaked") || err.contains("Data race") || err.contains("unsafe precondition") {
        return bad(format!("interpreted by Miri: {e}"));
    }
    if err.contains("unsupported operation") || err.contains("resource exhaustion") || err.contains("deadlock") || err.contains("abnormal termination") {
        ev!("Miri stopped for another reason");
        return Ok(());
    }
    harness_error(format!("miri: {:?} {out} {}", o.status, err.chars().take(1500).collect::<String>()))
}

/// Every monitor has to report the error it is for.
fn controls() -> Verdict {
    for (s, kind, word) in [
        ("address", "bounds", "AddressSanitizer: heap-buffer-overflow"),
        ("address", "free", "AddressSanitizer: heap-use-after-free"),
        ("address", "leak", "LeakSanitizer"),
        ("thread", "race", "ThreadSanitizer: data race"),
        ("memory", "uninit", "MemorySanitizer: use-of-uninitialized-value"),
    ] {
        let mut c = command(s);
        c.args(["control", kind]);
        let o = match run_watched(c, &scratch()).map_err(|e| Stop::Error(format!("{s}: {e}")))? {
            Ok(o) => o,
            Err(e) => return harness_error(format!("{s}: {e}")),
        };
        if !String::from_utf8_lossy(&o.stderr).contains(word) {
            return harness_error(format!("{s} sanitizer doesn't report {kind}: {}", String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>()));
        }
        ev!("positive control of a sanitizer reported");
    }
    for (kind, word) in [("uninit", "Undefined Behavior"), ("race", "Data race"), ("leak", "memory leaked")] {
        let o = miri(&["control", kind], 1)?;
        if !String::from_utf8_lossy(&o.stderr).contains(word) {
            return harness_error(format!("Miri doesn't report {kind}: {}", String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>()));
        }
        ev!("positive control of Miri reported");
    }
    Ok(())
}

/// The same calls again and again must not hold more memory every time.
fn repeated(calls: &[Call]) -> Verdict {
    for c in calls {
        let e = make(c)?;
        let l = langs(&c.s[3]);
        let again = || -> Result<i64, Stop> {
            let b = alloc::live() as i64;
            sut("operations", || {
                let mut i = 0;
                while let Some((_, r)) = e.op(i, &c.s[0], &c.s[1], &l) {
                    std::hint::black_box(r.len());
                    i += 1;
                }
                drop(e.copy());
            })?;
            Ok(alloc::live() as i64 - b)
        };
        let _ = again()?;
        let mut v = vec![];
        loop {
            let g = again()?;
            if g <= 0 {
                break;
            }
            v.push(g);
            if v.len() == 12 {
                return bad(format!("{} {:?} on {:?}: each of {} repetitions of the same operations keeps memory: {v:?} bytes", c.k, c.n, c.s[0], v.len()));
            }
        }
        ev!("operations repeated, no memory kept");
    }
    Ok(())
}

/// What Miri can interpret in a moment.
fn small(g: &mut Gen, i: usize) -> Call {
    let k = ["soundex", "refined", "cav1", "cav2", "cologne", "meta", "dmeta", "nysiis", "phonex", "mra", "dm", "bmdir"][i % 12];
    let mut c = gen_call(g, k);
    if k == "dm" && c.s[2].is_empty() {
        c.s[2] = super::dmp::rule_set(g);
    }
    if k == "dm" {
        super::cross::cut_to(&mut c.s[2], 1500);
    }
    let m = if k == "bmdir" { 4 } else { 12 };
    super::cross::cut_to(&mut c.s[0], m);
    super::cross::cut_to(&mut c.s[1], m.min(8));
    fix(&mut c);
    if k == "bmdir" {
        c.n[4] = 6;
        c.n[3] = c.n[3].clamp(0, 4);
    }
    c
}
fn case(v: &[Call], n: Vec<i64>) -> Case {
    Case::t("", v.iter().map(|c| serde_json::to_string(c).unwrap()).collect(), n)
}

impl Prop for C29 {
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "a case is a batch of calls (encoders, configurations, texts) executed under AddressSanitizer and LeakSanitizer, ThreadSanitizer (four threads sharing encoders and configurations, or building their own at the same time), MemorySanitizer, and, for systematic cases, interpreted by Miri; positive controls show that each of them reports its errors; non-trivial: a batch whose operations all were executed"
    }
    fn files(&self) -> &'static [&'static str] {
        &super::cross::ALL_FILES
    }
    fn enumerate(&self, g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        if w == 0 && !f(&case(&[small(g, 0)], vec![2, 0])) {
            return;
        }
        // characters of all lengths and at the borders of what is a character, with every encoder
        let all: Vec<char> = crate::gen::SPECIALS.chars().collect();
        let mut v = vec![];
        for (j, s) in all.chunks(10).enumerate() {
            if j % n != w {
                continue;
            }
            for (i, k) in KINDS[..11].iter().enumerate() {
                let mut c = gen_call(g, k);
                c.s[0] = s.iter().collect();
                c.s[1] = s.iter().rev().flat_map(|x| [(b'a' + ((i + j) % 26) as u8) as char, *x]).collect();
                fix(&mut c);
                v.push(c);
            }
            if !f(&case(&v, vec![0, 5])) {
                return;
            }
            v.clear();
        }
        // Miri: every encoder kind in every batch
        for i in 0..if t { 12 } else { 1 } {
            let mut v: Vec<Call> = (0..if t { 60 } else { 15 }).map(|i| small(g, i * 5 + w)).collect();
            if t && i == 0 && w == n - 1 {
                // the shipped rules once
                let mut c = gen_call(g, "dm");
                c.s = ["Schwarzenegger".into(), "Peters".into(), String::new(), String::new()];
                v.push(c);
            }
            if t && i == 1 && w == 0 {
                let c = Call { k: "bm".into(), n: vec![1, 0, 1, 20, 1], s: ["Angelo".into(), "x".into(), String::new(), "*".into()] };
                v.insert(0, c);
            }
            if !f(&case(&v, vec![1, g.rng.next() as i64 & 0xffff])) {
                return;
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let n = 1 + g.rng.below(5);
        let mut v = vec![];
        for _ in 0..n {
            let k = if g.rng.chance(1, 8) { "bmdir" } else { KINDS[g.rng.below(KINDS.len())] };
            let mut c = gen_call(g, k);
            fix(&mut c);
            v.push(c);
        }
        case(&v, vec![0, g.rng.next() as i64 & 0x7fffffff])
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        super::pure::C02.mutate(g, c);
        c.n[0] = 0;
    }
    fn repair(&self, c: &mut Case) -> bool {
        if c.n.len() != 2 {
            return false;
        }
        c.n[0] = 0;
        c.s.truncate(8);
        super::pure::C02.repair(c)
    }
    fn shrink(&self) -> bool {
        false
    }
    fn seconds(&self) -> (u64, u64) {
        (25, 900)
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        let Some(calls) = parse(c) else { return harness_error("calls") };
        for k in &calls {
            feature("encoder kinds", KINDS.iter().position(|x| *x == k.k).unwrap_or(99) as u64);
        }
        o.nontrivial = true;
        o.note(|| calls.iter().map(|c| format!("{} {:?} {:?}", c.k, c.n, c.s[0])).collect::<Vec<_>>().join("; "));
        let seed = c.n[1] as u64;
        match c.n[0] {
            1 => return ask_miri(seed, &calls),
            2 => {
                controls()?;
                return ask(0, "single", seed, &calls);
            }
            _ => {}
        }
        // here, for coverage
        for k in &calls {
            let e = make(k)?;
            let r = sut("operations", || results(&e, k))?;
            for r in &r {
                if std::str::from_utf8(std::hint::black_box(r.as_bytes())).is_err() {
                    return bad(format!("{} on {:?} gives bytes that are no valid UTF-8: {:x?}", k.k, k.s[0], r.as_bytes()));
                }
            }
        }
        if seed % 16 == 0 {
            repeated(&calls)?;
        }
        ask(0, if seed % 32 == 1 { "leaks" } else { "single" }, seed, &calls)?;
        ask(2, "single", seed, &calls)?;
        if seed % 64 == 3 {
            // a new process: what is initialised once is initialised by racing threads
            SERVERS.with(|v| v.borrow_mut()[1] = None);
            ev!("new process under ThreadSanitizer");
            ask(1, "own", seed, &calls)?;
        }
        ask(1, if seed % 4 == 0 { "own" } else { "threads" }, seed, &calls)
    }
    fn minimum(&self) -> (u64, u64) {
        (300, 200)
    }
    fn required_events(&self) -> &'static [&'static str] {
        &[
            "batch under AddressSanitizer",
            "leak check of a process with AddressSanitizer",
            "batch under ThreadSanitizer, four threads sharing encoders",
            "batch under ThreadSanitizer, four threads building encoders at the same time",
            "batch under MemorySanitizer",
            "batch interpreted by Miri",
            "positive control of a sanitizer reported",
            "positive control of Miri reported",
            "operations repeated, no memory kept",
        ]
    }
}
/// Ends the servers of this process.
#[allow(dead_code)]
pub fn end() {
    SERVERS.with(|v| *v.borrow_mut() = [None, None, None]);
    clean_scratch();
}
