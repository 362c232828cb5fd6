//! C32: the same calls in builds of the crate with other features, other options of the compiler, and for other platforms
//! (interpreted by Miri); see ../../builds.
use super::bmp::{encoder, gen_dir_parts, opt, scratch, write_dir};
use super::cross::cut_to;
use super::pure::{fix, gen_call, make, parse, results, Call};
use super::san::{batch, dirs, miri_runner};
use super::*;
use crate::core::{bad, feature, harness_error, run_watched, sut, verif_dir, Ev, Obs, Prop, Stop, Verdict};
use crate::enc::{E, KINDS};
use crate::ev;
use rphonetic::ConfigFiles;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::Write;
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[path = "../../../builds/src/extra.rs"]
mod extra;

pub struct C32;
/// (name, binary, log of its build, what it says about itself)
const BUILDS: [(&str, &str, &str, &str); 5] = [
    ("without features, optimised, without checks", "bld/release/bld", "bld-release.log", "64 false false"),
    ("with embedded_dm, not optimised, with checks", "bld/debug/bld", "bld-debug.log", "64 false true"),
    ("with embedded_bm, optimised for size, linked as a whole", "bld/small/bld", "bld-small.log", "64 false false"),
    ("with embedded_bm, for a platform of 32 bits", "bld/wasm32-unknown-unknown/debug/bld.wasm", "bld-wasm.log", "32 false true"),
    ("without features, for a big-endian platform", "bld/miri/s390x-unknown-linux-gnu/debug/bld", "bld-s390x.log", "64 true true"),
];
static ASKED: [Ev; 5] = [
    Ev::new("calls compared with a build without features, optimised, without checks"),
    Ev::new("calls compared with a build with embedded_dm, not optimised"),
    Ev::new("calls compared with a build with embedded_bm, optimised for size"),
    Ev::new("calls compared with a build for 32 bits"),
    Ev::new("calls compared with a build for a big-endian platform"),
];
fn binary(i: usize) -> PathBuf {
    verif_dir().join("build").join(BUILDS[i].1)
}
fn hex(s: &str) -> Option<String> {
    let b: Option<Vec<u8>> = s.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()).collect();
    Some(String::from_utf8_lossy(&b?).into_owned())
}
/// The results of the calls in an answer.
fn answer(t: &str) -> Option<Vec<Vec<String>>> {
    let mut v = vec![];
    for l in t.lines() {
        if l == "E" {
            return Some(v);
        }
        let mut f = l.split('\t');
        if f.next() != Some("R") {
            return None;
        }
        v.push(f.map(hex).collect::<Option<Vec<String>>>()?);
    }
    None
}

/// A native program, or a WebAssembly one.
fn program(i: usize) -> Command {
    if i < 3 {
        return Command::new(binary(i));
    }
    let mut c = Command::new("node");
    c.arg(verif_dir().join("builds/wasm/serve.js")).arg(binary(i));
    c
}
struct Server {
    child: Child,
    err: PathBuf,
}
impl Server {
    fn new(i: usize) -> Result<Server, Stop> {
        let io = |e: std::io::Error| Stop::Error(format!("{}: {e}", BUILDS[i].1));
        std::fs::create_dir_all(scratch()).map_err(io)?;
        let err = scratch().join(format!("bld{i}.err"));
        let mut c = program(i);
        c.arg("serve").env("VERIF_DIR", verif_dir()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(std::fs::File::create(&err).map_err(io)?);
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        Ok(Server { child: c.spawn().map_err(io)?, err })
    }
    fn ask(&mut self, b: &str) -> Result<Result<Vec<Vec<String>>, String>, Stop> {
        let mut stdin = self.child.stdin.take().unwrap();
        let fd = self.child.stdout.as_ref().unwrap().as_raw_fd();
        let mut buf = vec![];
        // answers come when all calls are done
        let _ = stdin.write_all(b.as_bytes()).and_then(|_| stdin.flush());
        self.child.stdin = Some(stdin);
        let t0 = Instant::now();
        loop {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 200) } > 0 {
                let mut b = [0u8; 1 << 16];
                let n = unsafe { libc::read(fd, b.as_mut_ptr() as *mut _, b.len()) };
                if n > 0 {
                    buf.extend_from_slice(&b[..n as usize]);
                    if buf.ends_with(b"\nE\n") || buf == b"E\n" {
                        return match answer(&String::from_utf8_lossy(&buf)) {
                            Some(v) => Ok(Ok(v)),
                            None => harness_error("answer of another build"),
                        };
                    }
                    continue;
                }
                let st = self.child.wait().map_err(|e| Stop::Error(e.to_string()))?;
                let e = String::from_utf8_lossy(&std::fs::read(&self.err).unwrap_or_default()).into_owned();
                return Ok(Err(format!("its process ended: {st} {}", e.chars().take(300).collect::<String>())));
            }
            if t0.elapsed() > Duration::from_secs(150) {
                let _ = self.child.kill();
                let _ = self.child.wait();
                return Ok(Err("no answer in 150 seconds".into()));
            }
        }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! { static SERVERS: RefCell<[Option<Server>; 4]> = const { RefCell::new([None, None, None, None]) }; }

/// Whether a build was possible.
fn built(i: usize) -> Verdict {
    if binary(i).exists() {
        return Ok(());
    }
    let log = std::fs::read_to_string(verif_dir().join("build").join(BUILDS[i].2)).unwrap_or_default();
    let e: Vec<&str> = log.lines().filter(|l| l.starts_with("error")).take(3).collect();
    if log.contains("could not compile `rphonetic`") {
        return bad(format!("the crate doesn't build {}: {}", BUILDS[i].0, e.join("; ")));
    }
    harness_error(format!("no build {}: {}", BUILDS[i].0, e.join("; ")))
}

fn dir_config(i: i64) -> Result<&'static ConfigFiles, Stop> {
    thread_local! { static D: RefCell<HashMap<i64, &'static ConfigFiles>> = RefCell::new(HashMap::new()); }
    if let Some(c) = D.with(|d| d.borrow().get(&i).copied()) {
        return Ok(c);
    }
    let c = match sut("ConfigFiles::new", || ConfigFiles::new(&dirs().join(format!("d{i}"))))? {
        Ok(c) => &*Box::leak(Box::new(c)),
        Err(e) => return bad(format!("a well-formed directory is refused: {e}")),
    };
    D.with(|d| d.borrow_mut().insert(i, c));
    Ok(c)
}
fn here(calls: &[Call]) -> Result<Vec<Vec<String>>, Stop> {
    let mut v = vec![];
    for c in calls {
        if let Some(r) = sut("operations", || extra::extra(&c.k, &c.n, &c.s))? {
            v.push(r);
            continue;
        }
        let e = match c.k.as_str() {
            "bmdir" => {
                let cf = dir_config(c.n[4].rem_euclid(7))?;
                E::Bm(sut("builder", || encoder(cf, opt(&c.n)))?)
            }
            _ => make(c)?,
        };
        let mut r = vec![];
        for t in c.s[0].split('\u{1}') {
            let mut one = c.clone();
            one.s[0] = t.to_string();
            r.extend(sut("operations", || results(&e, &one))?);
        }
        v.push(r);
    }
    Ok(v)
}
fn compare(i: usize, calls: &[Call], want: &[Vec<String>], got: Result<Vec<Vec<String>>, String>) -> Verdict {
    let got = match got {
        Ok(v) => v,
        Err(e) => return bad(format!("built {}: {e}; calls {:?}", BUILDS[i].0, calls.iter().map(|c| (&c.k, &c.s[0])).take(3).collect::<Vec<_>>())),
    };
    if got.len() != calls.len() {
        return harness_error("number of answers");
    }
    for ((c, w), g) in calls.iter().zip(want).zip(&got) {
        if w != g {
            let j = w.iter().zip(g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
            let n = c.s[0].split('\u{1}').count();
            let per = (w.len() / n).max(1);
            let t = c.s[0].split('\u{1}').nth(j / per).unwrap_or(&c.s[0]);
            if let ("bulk", Some(w), Some(g)) = (c.k.as_str(), w.get(j), g.get(j)) {
                let tails: Vec<&str> = c.s[3].split('\u{2}').collect();
                for (x, (a, b)) in w.split('\u{3}').zip(g.split('\u{3}')).enumerate() {
                    if a != b {
                        let t: String = c.s[0].chars().nth(j).into_iter().chain(c.s[1].chars().nth(x / tails.len())).collect::<String>() + tails[x % tails.len()];
                        return bad(format!("{} {:?} of {t:?} is {b:?} when built {}, {a:?} in the instrumented build", c.s[2], c.n, BUILDS[i].0));
                    }
                }
            }
            return bad(format!(
                "{} {:?} on {:?}, {:?} ({:?}, {:?}) gives {:?} when built {}, {:?} in the instrumented build",
                c.k,
                c.n,
                t,
                c.s[1],
                c.s[2].chars().take(200).collect::<String>(),
                c.s[3],
                g.get(j),
                BUILDS[i].0,
                w.get(j)
            ));
        }
    }
    let texts = |c: &Call| match c.k.as_str() {
        "bulk" => c.s[0].chars().count() * c.s[1].chars().count() * c.s[3].split('\u{2}').count(),
        _ => c.s[0].split('\u{1}').count(),
    };
    ASKED[i].hits(calls.iter().map(|c| texts(c) as u64).sum());
    Ok(())
}

fn miri(i: usize, calls: &[Call]) -> Result<Result<Vec<Vec<String>>, String>, Stop> {
    let f = scratch().join("calls.txt");
    std::fs::write(&f, batch("miri", 0, calls)).map_err(|e| Stop::Error(e.to_string()))?;
    let mut c = miri_runner(&binary(i), &verif_dir().join("builds"));
    c.arg("run").arg(&f);
    c.env("MIRI_SYSROOT", verif_dir().join("build/cache/miri"));
    c.env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check -Zmiri-disable-data-race-detector");
    let o = match run_watched(c, &scratch()).map_err(|e| Stop::Error(format!("miri: {e}")))? {
        Ok(o) => o,
        Err(e) => return harness_error(format!("miri: {e}")),
    };
    let err = String::from_utf8_lossy(&o.stderr);
    match answer(&String::from_utf8_lossy(&o.stdout)) {
        Some(v) if o.status.success() => Ok(Ok(v)),
        _ if err.contains("error: Undefined Behavior") || err.contains("error: abnormal termination") => Ok(Err(err.lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join("; "))),
        _ => harness_error(format!("miri: {:?} {}", o.status, err.chars().take(1000).collect::<String>())),
    }
}

const OTHER: [&str; 6] = ["dmrules", "load", "mapping", "langs", "chars", "names"];
/// A call whose result can't depend on the features.
fn plain(c: &mut Call, bits32: bool) {
    if c.k == "bm" {
        c.n.resize(5, 0);
        c.n[4] = 0;
    }
    if c.k == "dm" && crate::dm::parse(&c.s[2]).is_err() {
        c.s[2] = String::new();
    }
    for s in &mut c.s {
        s.retain(|x| x != '\u{1}');
    }
    if bits32 {
        for n in &mut c.n {
            *n = (*n).min(i32::MAX as i64);
        }
    }
}
fn other(g: &mut Gen, k: &str) -> Call {
    let mut c = gen_call(g, "soundex");
    c.k = k.into();
    match k {
        "dmrules" => {
            c.s[2] = super::dmp::any_rules(g);
            c.s[0] = super::dmp::rule_text(g);
        }
        "load" => c.s[0] = g.letters("abcde", 8),
        "mapping" => {
            let mut t = "01230120022455012623010202".to_string();
            for _ in 0..g.rng.below(3) {
                g.mutate_str(&mut t, "0123-aé");
            }
            c.s[2] = t;
        }
        "names" => {
            for i in 0..2 {
                c.s[i] = (*g.rng.pick(&["ash", "gen", "sep", "", "Ash", "generic"])).into();
            }
        }
        "langs" => {
            c.s[2] = super::bmp::gen_langs(g, &super::bmp::LANGS);
            if c.s[2].chars().all(|x| x.is_ascii_digit() || x == '#') {
                c.s[2] = "*".into();
            }
        }
        _ => cut_to(&mut c.s[0], 20),
    }
    cut_to(&mut c.s[0], 40);
    cut_to(&mut c.s[1], 40);
    c
}
fn case(k: &str, calls: &[Call], n: i64) -> Case {
    Case::t(k, calls.iter().map(|c| serde_json::to_string(c).unwrap()).collect(), vec![0, n])
}
/// Texts as one call.
fn joined(k: &str, cfg: &[i64], t: &[String], l: &str) -> Call {
    let t: Vec<String> = t.iter().map(|t| t.replace('\u{1}', "")).collect();
    Call { k: k.into(), n: cfg.to_vec(), s: [t.join("\u{1}"), "Smith".into(), String::new(), l.into()] }
}
fn default_n(k: &str) -> Vec<i64> {
    match k {
        "bm" => vec![1, 0, 1, 20, 0],
        "bmdir" => vec![1, 0, 1, 20, 6],
        "nysiis" | "soundex" | "dm" => vec![1],
        _ => vec![4],
    }
}

impl Prop for C32 {
    fn id(&self) -> &'static str {
        "C32"
    }
    fn rule(&self) -> &'static str {
        "a case is a list of calls (encoders with their configuration and texts, rules and directories that may be wrong, values); their results in the instrumented build are compared with those of builds with other features and options of the compiler, and, for platforms of 32 bits (WebAssembly) and of another byte order (Miri); non-trivial: a case of several texts"
    }
    fn files(&self) -> &'static [&'static str] {
        &super::cross::ALL_FILES
    }
    fn enumerate(&self, g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        let mut i = 0;
        let mut go = |c: Case, f: &mut dyn FnMut(&Case) -> bool| {
            i += 1;
            i % n != w || f(&c)
        };
        // other platforms: names, literals and hostile texts
        let per = if t { 500 } else { 30 };
        for (p, plat) in ["s390x"].iter().enumerate() {
            for (j, k) in KINDS[..11].iter().chain(&["bmdir"]).enumerate() {
                let m = match *k {
                    "bmdir" => per / 10,
                    "dm" => per / 3,
                    _ => per,
                };
                let mut r = Gen { rng: crate::gen::Rng::new((j * 7 + p) as u64 + 5), ..Gen::new(5, &[]) };
                let texts: Vec<String> = (0..m)
                    .map(|x| {
                        let mut s = match x % 3 {
                            0 => g.names[(x * 37 + j * 11) % g.names.len()].clone(),
                            1 => r.text(super::cross::ALPHA, 9),
                            _ => gen_call(&mut r, k).s[0].clone(),
                        };
                        if *k == "bmdir" {
                            s = s.to_lowercase();
                        }
                        cut_to(&mut s, if matches!(*k, "dm" | "bmdir") { 7 } else { 24 });
                        s
                    })
                    .collect();
                let mut c = joined(k, &default_n(k), &texts, "xa");
                if *k == "dm" {
                    c.s[2] = super::dmp::rule_set(&mut r);
                    cut_to(&mut c.s[2], 900);
                }
                let mut v = vec![c];
                if *k == "meta" || *k == "dmeta" {
                    let mut c = v[0].clone();
                    c.n = vec![i32::MAX as i64];
                    v.push(c);
                }
                if *k == "soundex" {
                    v.extend(OTHER.iter().filter(|o| **o != "load").map(|o| other(&mut r, o)));
                }
                for c in &mut v {
                    let t = std::mem::take(&mut c.s[0]);
                    plain(c, true);
                    c.s[0] = t;
                    // the standard library of Miri's compiler may know characters that ours doesn't
                    for s in &mut c.s[..2] {
                        s.retain(|c| c.is_alphanumeric() || c.is_ascii() || c.is_whitespace());
                    }
                }
                if !go(case(plat, &v, 0), f) {
                    return;
                }
            }
        }
        // two characters and an end
        let ascii: String = (33..127u8).map(|c| c as char).filter(|c| !c.is_ascii_lowercase()).collect();
        let upper: String = ('A'..='Z').collect();
        let other = "éÉßİıǅǆſΣÄöÜñŁł漢😀\u{301}\u{a0} \t\n";
        let bulk = |k: &str, n: &[i64], a: &str, b: &str, z: &str| Call { k: "bulk".into(), n: n.to_vec(), s: [a.into(), b.into(), k.into(), z.into()] };
        for (j, k) in KINDS[..10].iter().enumerate() {
            let n = default_n(k);
            for (p, plat) in ["s390x"].iter().enumerate() {
                let heads: Vec<char> = upper.chars().collect();
                for h in heads.chunks(if t { 3 } else { 13 }) {
                    let h: String = h.iter().collect();
                    let all = ascii.clone() + other;
                    let mid: String = if t { all } else { all.chars().enumerate().filter(|(i, _)| (i * 7 + j + p + h.len() + h.as_bytes()[0] as usize) % 12 == 0).map(|(_, c)| c).collect() };
                    if !go(case(plat, &[bulk(k, &n, &h, &mid, if t { "m\u{2}\u{2}ET" } else { "m" })], 0), f) {
                        return;
                    }
                }
            }
            let all = ascii.clone() + "abehwxyz" + other;
            for h in all.chars().collect::<Vec<_>>().chunks(12) {
                let h: String = h.iter().collect();
                if !go(case("calls", &[bulk(k, &n, &h, &all, "\u{2}m\u{2}AB\u{2}é ch")], 0), f) {
                    return;
                }
            }
        }
        for len in 0..=4 {
            let mut v = vec![];
            all_strings(&['a', 'é', '漢', '😀'], len, 0, 1, &mut |s| {
                v.push(Call { k: "chars".into(), n: vec![], s: [s, String::new(), String::new(), String::new()] });
                true
            });
            for b in v.chunks(50) {
                if !go(case("calls", b, 0), f) {
                    return;
                }
            }
            if len <= 2 {
                if !go(case("s390x", &v, 0), f) {
                    return;
                }
            }
        }
        // all names, and short texts
        for k in KINDS {
            let names: Vec<String> = g.names.iter().enumerate().filter(|(i, _)| k != "bm" || t || i % 4 == 0).map(|(_, s)| s.clone()).collect();
            for b in names.chunks(if k == "bm" { 20 } else { 100 }) {
                if !go(case("calls", &[joined(k, &default_n(k), b, "*")], 0), f) {
                    return;
                }
            }
            let a: Vec<char> = "abcdefghijklmnopqrstuvwxyzéß' ".chars().collect();
            let deepest = match (k, t) {
                ("bm", _) => 1,
                ("dm", false) => 2,
                _ => 3,
            };
            for len in 0..=deepest {
                let mut v = vec![];
                all_strings(&a, len, 0, 1, &mut |s| {
                    v.push(s);
                    true
                });
                for b in v.chunks(500) {
                    if !go(case("calls", &[joined(k, &default_n(k), b, "*")], 0), f) {
                        return;
                    }
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let n = g.rng.range(4, 20);
        let calls: Vec<Call> = (0..n)
            .map(|_| {
                let k = match g.rng.below(20) {
                    0..=2 => "bmdir",
                    3..=5 => *g.rng.pick(&OTHER),
                    _ => *g.rng.pick(&KINDS),
                };
                let mut c = if OTHER.contains(&k) { other(g, k) } else { gen_call(g, k) };
                fix(&mut c);
                if k == "mapping" {
                    c.s[2].retain(|x| x != '\u{1}');
                }
                plain(&mut c, false);
                c
            })
            .collect();
        case("calls", &calls, g.rng.next() as i64 & 0xffff)
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        let Some(mut v) = parse(c) else { return };
        let i = g.rng.below(v.len());
        if g.rng.chance(1, 4) {
            let k = v[i].k.clone();
            v[i] = if OTHER.contains(&k.as_str()) { other(g, &k) } else { gen_call(g, &k) };
        } else {
            let j = g.rng.below(2);
            let mut s = std::mem::take(&mut v[i].s[j]);
            g.mutate_str(&mut s, super::cross::ALPHA);
            v[i].s[j] = s;
        }
        let t = v[i].s[0].contains('\u{1}');
        if !t {
            fix(&mut v[i]);
            plain(&mut v[i], false);
        }
        let n = c.n[1];
        let k = c.k.clone();
        *c = case(&k, &v, n);
    }
    fn repair(&self, c: &mut Case) -> bool {
        let Some(mut v) = parse(c) else { return false };
        if v.is_empty() || c.n.len() != 2 || c.k != "calls" {
            return false;
        }
        for k in &mut v {
            let m = match k.k.as_str() {
                "bmdir" => 5,
                "bm" => 4,
                x if KINDS.contains(&x) || OTHER.contains(&x) => 0,
                _ => return false,
            };
            if k.n.len() < m {
                return false;
            }
            if !k.s[0].contains('\u{1}') {
                fix(k);
                plain(k, false);
            }
        }
        c.s = v.iter().map(|c| serde_json::to_string(c).unwrap()).collect();
        true
    }
    fn shrink(&self) -> bool {
        false
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        let Some(mut calls) = parse(c) else { return harness_error("calls") };
        o.nontrivial = calls.len() > 1 || calls[0].k == "bulk" || calls.iter().any(|c| c.s[0].contains('\u{1}'));
        for k in &calls {
            feature("kinds of calls", KINDS.iter().chain(&OTHER).position(|x| *x == k.k).unwrap_or(99) as u64);
        }
        // directories that may be wrong are written once, for all builds
        let d = scratch().join("load");
        for k in calls.iter_mut().filter(|k| k.k == "load") {
            let mut g = Gen::new(c.n[1] as u64, &[]);
            let parts = gen_dir_parts(&mut g);
            let mut files = super::bmp::dir_of(&parts);
            if g.rng.chance(2, 3) {
                super::bmp::C18.damage(&mut g, &mut files);
            }
            write_dir(&d, &files)?;
            k.s[2] = d.to_string_lossy().into_owned();
        }
        let want = here(&calls)?;
        o.note(|| format!("{:?}: {:?}", calls[0].k, want[0].iter().take(3).collect::<Vec<_>>()));
        if c.k == "s390x" {
            built(4)?;
            let got = miri(4, &calls)?;
            return compare(4, &calls, &want, got);
        }
        // WebAssembly has no files
        let mut asm = calls.clone();
        let mut want_asm = want.clone();
        for i in (0..asm.len()).rev() {
            match asm[i].k.as_str() {
                "load" | "bmdir" => {
                    asm.remove(i);
                    want_asm.remove(i);
                }
                "dm" if asm[i].s[2].is_empty() => asm[i].s[2] = crate::enc::DM_RULES.clone(),
                "bm" => {
                    asm[i].n.resize(5, 0);
                    asm[i].n[4] = 1;
                    want_asm[i] = here(&asm[i..=i])?.remove(0);
                }
                _ => {}
            }
            // limits that fit
            if asm.get(i).is_some_and(|k| k.n.iter().any(|n| *n > i32::MAX as i64)) {
                asm[i].n.iter_mut().for_each(|n| *n = (*n).min(i32::MAX as i64));
                want_asm[i] = here(&asm[i..=i])?.remove(0);
            }
        }
        for i in 0..4 {
            built(i)?;
            let (calls, want) = if i == 3 { (&asm, &want_asm) } else { (&calls, &want) };
            if calls.is_empty() {
                continue;
            }
            let got = SERVERS.with(|s| {
                let mut s = s.borrow_mut();
                if s[i].is_none() {
                    let o = program(i).arg("none").output().map_err(|e| Stop::Error(e.to_string()))?;
                    if String::from_utf8_lossy(&o.stdout).trim() != BUILDS[i].3 {
                        return harness_error(format!("{} isn't what it should be", BUILDS[i].1));
                    }
                    ev!("build that is what it should be");
                    s[i] = Some(Server::new(i)?);
                }
                let r = s[i].as_mut().unwrap().ask(&batch("calls", 0, calls))?;
                if r.is_err() {
                    s[i] = None;
                }
                Ok(r)
            })?;
            compare(i, calls, want, got)?;
        }
        Ok(())
    }
    fn minimum(&self) -> (u64, u64) {
        (400, 300)
    }
    fn seconds(&self) -> (u64, u64) {
        (15, 700)
    }
    fn required_events(&self) -> &'static [&'static str] {
        &[
            "build that is what it should be",
            "calls compared with a build without features, optimised, without checks",
            "calls compared with a build with embedded_dm, not optimised",
            "calls compared with a build with embedded_bm, optimised for size",
            "calls compared with a build for 32 bits",
            "calls compared with a build for a big-endian platform",
        ]
    }
}
