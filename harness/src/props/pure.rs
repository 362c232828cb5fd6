//! C02: results depend on the arguments and the configuration only.
use super::bmp::{bm_text, dir_of, encoder, gen_dir_parts, gen_langs, gen_opt, opt, LANGS};
use super::cross::{bm_limit, config_of, cut_to, text_for, ALPHA};
use super::*;
use crate::core::{bad, feature, harness_error, run_watched, sut, verif_dir, Obs, Prop, Stop, Verdict};
use crate::enc::{build, config, langs, E, KINDS};
use crate::gen::Rng;
use crate::{bm, ev, interpose};
use rphonetic::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use std::sync::atomic::Ordering::Relaxed;

pub struct C02;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    pub k: String,
    pub n: Vec<i64>,
    /// text, second text, mapping or rules, languages
    pub s: [String; 4],
}
type Results = Vec<Vec<String>>;

#[derive(Serialize, Deserialize)]
struct Request {
    calls: Vec<Call>,
    /// 0: in order, 1: in order with perturbed surroundings, 2: threads from the start, 4: in order on shared encoders,
    /// 5: the same with perturbed surroundings
    mode: u8,
    seed: u64,
}
#[derive(Serialize, Deserialize)]
enum Reply {
    Results(Results, Option<String>, (u64, u64)),
    Failed(String),
}

// ---------------------------------------------------------------- encoders
const DIRS: usize = 6;
/// Two directories, and for each of them one that differs in the guessed languages only and one in the rules only.
fn dir_files(i: usize) -> bm::Dir {
    let mut g = Gen::new(0, &[]);
    let mut seed = (i / 3) as u64 * 1000 + 77;
    loop {
        g.rng = Rng::new(seed);
        seed += 1;
        let base = gen_dir_parts(&mut g);
        let v: Vec<bm::Dir> = (0..3)
            .map(|i| {
                let mut p = base.clone();
                match i {
                    1 => p[1] = p[1].replace("xa", "x#").replace("xb", "xa").replace("x#", "xb"),
                    2 => {
                        p[2..5].rotate_left(1);
                        p[6..9].rotate_left(1);
                    }
                    _ => {}
                }
                dir_of(&p)
            })
            .collect();
        if v.iter().all(|d| bm::load(d).is_ok()) && v[0] != v[1] && v[0] != v[2] {
            return v[i % 3].clone();
        }
    }
}
/// Writes the directories.
pub fn dirs_to(d: &std::path::Path) {
    // and one with almost no regular expression
    let mut tiny = dir_files(0);
    for (f, t) in tiny.iter_mut() {
        *t = match f {
            f if f.ends_with("_languages.txt") => "any\nxa\nxb\n",
            f if f.ends_with("_lang.txt") => "^a xa+any true\n",
            f if f.contains("rules") => "\"a\" \"\" \"\" \"(a|o[xa])\"\n\"b\" \"\" \"a\" \"v\" // comment\n\"b\" \"\" \"\" \"(b|p[xa]|[xb])\"\n\"é\" \"^\" \"\" \"e\"\n",
            _ => "\"v\" \"\" \"\" \"(v|f[xb])\"\n\"o\" \"\" \"$\" \"u\"\n",
        }
        .into();
    }
    let _ = super::bmp::write_dir(&d.join(format!("d{DIRS}")), &tiny);
    for i in 0..DIRS {
        let _ = super::bmp::write_dir(&d.join(format!("d{i}")), &dir_files(i));
    }
}
fn dir_config(i: usize) -> Result<&'static ConfigFiles, Stop> {
    thread_local! { static D: RefCell<HashMap<usize, &'static ConfigFiles>> = RefCell::new(HashMap::new()); }
    if let Some(c) = D.with(|d| d.borrow().get(&i).copied()) {
        return Ok(c);
    }
    let d = dir_files(i);
    let p = super::bmp::scratch().join(format!("d{i}"));
    super::bmp::write_dir(&p, &d)?;
    let c = match sut("ConfigFiles::new", || ConfigFiles::new(&p))? {
        Ok(c) => &*Box::leak(Box::new(c)),
        Err(e) => return bad(format!("a well-formed directory is refused: {e}")),
    };
    D.with(|d| d.borrow_mut().insert(i, c));
    Ok(c)
}
pub fn make(c: &Call) -> Result<E, Stop> {
    if c.k == "bmdir" {
        let cf = dir_config(c.n[4].rem_euclid(DIRS as i64) as usize)?;
        return Ok(E::Bm(sut("builder", || encoder(cf, opt(&c.n)))?));
    }
    // by other constructors: the second number, and for Beider-Morse the sixth
    let other = c.n.get(if c.k == "bm" { 5 } else { 1 }).is_some_and(|v| *v == 1);
    let n0 = c.n.first().copied().unwrap_or(0);
    match (c.k.as_str(), n0) {
        ("bm", _) if other => {
            ev!("a configuration loaded anew");
            let cf: &'static ConfigFiles = Box::leak(Box::new(sut("ConfigFiles::default", ConfigFiles::default)?));
            Ok(E::Bm(sut("builder", || encoder(cf, opt(&c.n)))?))
        }
        ("dm", f) if other && c.s[2].is_empty() => {
            ev!("an encoder made with defaults");
            Ok(E::Dm(match f {
                0 => match sut("DaitchMokotoffSoundexBuilder::default", || DaitchMokotoffSoundexBuilder::default().ascii_folding(false).build())? {
                    Ok(e) => e,
                    Err(e) => return bad(format!("the default Daitch-Mokotoff rules don't build: {e}")),
                },
                _ => sut("DaitchMokotoffSoundex::default", DaitchMokotoffSoundex::default)?,
            }))
        }
        ("meta", 4) if other => Ok(E::Meta(sut("Metaphone::default", Metaphone::default)?)),
        ("dmeta", 4) if other => Ok(E::DMeta(sut("DoubleMetaphone::default", DoubleMetaphone::default)?)),
        ("nysiis", 1) if other => Ok(E::Nysiis(sut("Nysiis::default", Nysiis::default)?)),
        ("phonex", 4) if other => Ok(E::Phonex(sut("Phonex::default", Phonex::default)?)),
        _ => build(&c.k, &c.n, &c.s[2]),
    }
}
/// Every operation, without watching each of them.
pub fn results(e: &E, c: &Call) -> Vec<String> {
    let l = langs(&c.s[3]);
    let mut v = vec![];
    let mut i = 0;
    while let Some((n, r)) = e.op(i, &c.s[0], &c.s[1], &l) {
        v.push(format!("{n}: {r}"));
        i += 1;
    }
    v
}
fn flush() {
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
}
fn in_order(calls: &[Call]) -> Result<Results, Stop> {
    let mut v = vec![];
    for c in calls {
        let e = make(c)?;
        v.push(sut("operations", || {
            let r = results(&e, c);
            flush();
            r
        })?);
    }
    Ok(v)
}
fn same_encoder(a: &Call, b: &Call) -> bool {
    a.k == b.k && a.n == b.n && a.s[2] == b.s[2]
}
/// In order, on encoders made once.
fn in_order_shared(calls: &[Call]) -> Result<Results, Stop> {
    let mut es: Vec<(usize, E)> = vec![];
    let mut v = vec![];
    for (i, c) in calls.iter().enumerate() {
        let k = match es.iter().position(|(j, _)| same_encoder(&calls[*j], c)) {
            Some(k) => k,
            None => {
                es.push((i, make(c)?));
                es.len() - 1
            }
        };
        let e = &es[k].1;
        v.push(sut("operations", || results(e, c))?);
    }
    flush();
    Ok(v)
}

struct Shared<'a>(&'a [E]);
// Whether encoders may be shared is what C29 watches; this is only run when they are said to be.
unsafe impl Sync for Shared<'_> {}
unsafe impl Send for Shared<'_> {}
impl<'a> Shared<'a> {
    fn get(&self) -> &'a [E] {
        self.0
    }
}

/// The calls on shared encoders from four threads, each in its own order, with delays between basic blocks.
fn threads(calls: &[Call], encoders: &[E], seed: u64, rounds: usize) -> Result<(Vec<Results>, (u64, u64)), Stop> {
    const T: usize = 4;
    let sh = Shared(encoders);
    let go = std::sync::Barrier::new(T);
    interpose::chaos(true);
    let r = sut("operations from several threads", || {
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..T)
                .map(|t| {
                    let (sh, go) = (&sh, &go);
                    s.spawn(move || {
                        interpose::thread(t as u64 + 1, seed ^ (t as u64) << 20);
                        let mut order: Vec<usize> = (0..calls.len()).collect();
                        order.rotate_left((t + seed as usize) % calls.len().max(1));
                        if t % 2 == 1 {
                            order.reverse();
                        }
                        if t == 3 {
                            // the same call at the same time as the first thread
                            order = (0..calls.len()).collect();
                            order.rotate_left(seed as usize % calls.len().max(1));
                        }
                        let mut v: Results = vec![vec![]; calls.len()];
                        go.wait();
                        for k in 0..rounds {
                            for &i in &order {
                                let e = &sh.get()[i];
                                let r = if (k + t) % 3 == 2 { results(&e.copy(), &calls[i]) } else { results(e, &calls[i]) };
                                if k == 0 || r != v[i] {
                                    // a result that changes is kept, and differs from the reference
                                    v[i] = r;
                                    if k > 0 {
                                        return v;
                                    }
                                }
                            }
                        }
                        v
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| match h.join() {
                    Ok(v) => v,
                    Err(p) => std::panic::resume_unwind(p),
                })
                .collect::<Vec<Results>>()
        })
    });
    interpose::chaos(false);
    Ok((r?, interpose::interleaving()))
}

// ---------------------------------------------------------------- the process that has encoded nothing
fn send(s: &mut UnixStream, v: &impl Serialize) -> std::io::Result<()> {
    let b = serde_json::to_vec(v)?;
    s.write_all(&(b.len() as u64).to_le_bytes())?;
    s.write_all(&b)
}
fn receive<T: for<'a> Deserialize<'a>>(s: &mut UnixStream) -> std::io::Result<T> {
    let mut n = [0; 8];
    s.read_exact(&mut n)?;
    let mut b = vec![0; u64::from_le_bytes(n) as usize];
    s.read_exact(&mut b)?;
    Ok(serde_json::from_slice(&b)?)
}
fn die_with_parent() {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}
fn interpose_reads() -> (u64, u64) {
    (interpose::ENV_READ.load(Relaxed) + interpose::FILES_READ.load(Relaxed), interpose::TIME_READ.load(Relaxed))
}
/// In the main thread, or in one with or without a name.
fn in_some_thread(calls: &[Call], seed: u64) -> Result<Results, Stop> {
    let b = std::thread::Builder::new();
    let b = match seed / 8 % 3 {
        0 => return in_order_shared(calls),
        1 => b,
        _ => b.name("worker-1".into()).stack_size(32 << 20),
    };
    match std::thread::scope(|s| b.spawn_scoped(s, || in_order_shared(calls)).unwrap().join()) {
        Ok(v) => v,
        Err(_) => harness_error("thread"),
    }
}
fn perform(r: &Request) -> Reply {
    let go = || -> Result<(Results, (u64, u64)), Stop> {
        match r.mode {
            2 => {
                let es = r.calls.iter().map(make).collect::<Result<Vec<E>, Stop>>()?;
                let (v, i) = threads(&r.calls, &es, r.seed, 3)?;
                // one result per thread and call
                Ok((v.into_iter().flatten().collect(), i))
            }
            1 => {
                let d = super::bmp::scratch();
                let _ = std::fs::create_dir_all(&d);
                let _ = std::env::set_current_dir(&d);
                for (k, v) in [("LANG", "tr_TR.UTF-8"), ("LC_ALL", "de_DE"), ("TZ", "Asia/Tokyo"), ("RUST_LOG", "trace"), ("HOME", "/nonexistent")] {
                    std::env::set_var(k, v);
                }
                interpose::SEED.store(r.seed, Relaxed);
                interpose::PERTURB.store(true, Relaxed);
                // another thread, with another stack
                let v = std::thread::scope(|s| std::thread::Builder::new().name("other".into()).stack_size(16 << 20).spawn_scoped(s, || in_order(&r.calls)).unwrap().join());
                interpose::PERTURB.store(false, Relaxed);
                match v {
                    Ok(v) => Ok((v?, interpose_reads())),
                    Err(_) => harness_error("thread"),
                }
            }
            4 => Ok((in_some_thread(&r.calls, r.seed)?, interpose_reads())),
            5 => {
                interpose::SEED.store(r.seed, Relaxed);
                interpose::PERTURB.store(true, Relaxed);
                let v = in_some_thread(&r.calls, r.seed);
                interpose::PERTURB.store(false, Relaxed);
                Ok((v?, interpose_reads()))
            }
            _ => Ok((in_order(&r.calls)?, (0, 0))),
        }
    };
    match go() {
        Ok((v, i)) => Reply::Results(v, interpose::printed_text(), i),
        Err(Stop::Violation(v)) => Reply::Failed(v),
        Err(Stop::Error(e)) => Reply::Failed(format!("harness: {e}")),
    }
}
fn pristine_loop(mut s: UnixStream) -> ! {
    die_with_parent();
    // Configuration is read once; nothing is encoded in this process.
    let _ = (config(0), config(1), verif_dir(), crate::enc::DM_RULES.len());
    for i in 0..DIRS {
        let _ = dir_config(i);
    }
    loop {
        let Ok(r) = receive::<Request>(&mut s) else { unsafe { libc::_exit(0) } };
        let Ok((mut a, mut b)) = UnixStream::pair() else { unsafe { libc::_exit(3) } };
        match unsafe { libc::fork() } {
            0 => {
                die_with_parent();
                drop(a);
                let _ = send(&mut b, &perform(&r));
                unsafe { libc::_exit(0) }
            }
            p if p > 0 => {
                drop(b);
                let reply = receive::<Reply>(&mut a);
                let mut st = 0;
                unsafe { libc::waitpid(p, &mut st, 0) };
                let reply = reply.unwrap_or_else(|_| {
                    let why = if libc::WIFSIGNALED(st) { format!("signal {}", libc::WTERMSIG(st)) } else { format!("exit code {}", libc::WEXITSTATUS(st)) };
                    Reply::Failed(format!("a process that ran the calls died: {why}"))
                });
                if send(&mut s, &reply).is_err() {
                    unsafe { libc::_exit(0) }
                }
            }
            _ => unsafe { libc::_exit(3) },
        }
    }
}
/// Asks the pristine process to fork and run the calls there.
fn pristine(calls: &[Call], mode: u8, seed: u64) -> Result<(Results, (u64, u64)), Stop> {
    thread_local! { static S: RefCell<Option<UnixStream>> = const { RefCell::new(None) }; }
    let r = S.with(|s| -> std::io::Result<Reply> {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let (a, b) = UnixStream::pair()?;
            match unsafe { libc::fork() } {
                0 => {
                    drop(a);
                    pristine_loop(b)
                }
                p if p > 0 => *s = Some(a),
                _ => return Err(std::io::Error::last_os_error()),
            }
        }
        let s = s.as_mut().unwrap();
        send(s, &Request { calls: calls.to_vec(), mode, seed })?;
        receive(s)
    });
    match r {
        Ok(Reply::Results(v, None, i)) => Ok((v, i)),
        Ok(Reply::Results(_, Some(p), _)) => bad(format!("the crate printed {p:?} while encoding")),
        Ok(Reply::Failed(f)) if f.starts_with("harness") => harness_error(f),
        Ok(Reply::Failed(f)) => bad(f),
        Err(e) => harness_error(format!("pristine process: {e}")),
    }
}

pub fn parse(c: &Case) -> Option<Vec<Call>> {
    c.s.iter().map(|s| serde_json::from_str::<Call>(s).ok()).collect()
}

fn kept(c: &Call) -> Result<std::rc::Rc<E>, Stop> {
    thread_local! { static K: RefCell<HashMap<String, std::rc::Rc<E>>> = RefCell::new(HashMap::new()); }
    let key = format!("{} {:?} {}", c.k, c.n, c.s[2]);
    if let Some(e) = K.with(|k| k.borrow().get(&key).cloned()) {
        ev!("an encoder used in earlier cases");
        return Ok(e);
    }
    let e = std::rc::Rc::new(make(c)?);
    K.with(|k| {
        let mut k = k.borrow_mut();
        if k.len() > 300 {
            k.clear();
        }
        k.insert(key, e.clone());
    });
    Ok(e)
}

pub fn gen_call(g: &mut Gen, k: &str) -> Call {
    let (mut n, t) = if k == "bmdir" { (gen_opt(g), String::new()) } else { config_of(g, k) };
    let mut s = if k == "bmdir" { g.letters("abcde ", 12) } else { text_for(g, k) };
    let mut t = t;
    if k == "bmdir" {
        n.push(g.rng.below(DIRS) as i64);
    }
    if k == "dm" && g.rng.chance(1, 3) {
        t = super::dmp::rule_set(g);
        if g.rng.chance(2, 3) {
            s = super::dmp::rule_text(g);
        }
    }
    if k == "bm" {
        n[3] = n[3].min(20);
        if g.rng.chance(1, 2) {
            s = bm_text(g);
        }
        cut_to(&mut s, 30);
    }
    if matches!(k, "meta" | "dmeta" | "nysiis" | "phonex" | "dm") {
        n.push(g.rng.below(2) as i64);
    }
    if k == "bm" && n[4] == 1 {
        n.push(g.rng.chance(1, 40) as i64);
    }
    let b = text_for(g, "soundex");
    let l = gen_langs(g, &LANGS);
    Call { k: k.into(), n, s: [s, b, t, l] }
}
pub fn fix(c: &mut Call) {
    if c.k == "bm" {
        c.n[3] = c.n[3].min(20);
        let m = bm_limit(20).min(30);
        cut_to(&mut c.s[0], m);
        cut_to(&mut c.s[1], m);
    } else if c.k == "bmdir" {
        cut_to(&mut c.s[0], 30);
        cut_to(&mut c.s[1], 30);
    } else {
        cut_to(&mut c.s[0], 200);
        cut_to(&mut c.s[1], 60);
    }
    if matches!(c.k.as_str(), "soundex" | "refined") {
        let v: Vec<char> = c.s[2].chars().collect();
        if !v.is_empty() && v.len() != 26 {
            c.s[2] = v.iter().cycle().take(26).collect();
        }
    }
}
fn first_difference(calls: &[Call], want: &Results, got: &Results, how: &str) -> Verdict {
    for (i, c) in calls.iter().enumerate() {
        if want[i] != got[i] {
            let j = want[i].iter().zip(&got[i]).position(|(a, b)| a != b).unwrap_or(0);
            return bad(format!(
                "{how}: call {i} ({} {:?} on {:?}) gives {:?}; alone in a new process it gives {:?}",
                c.k,
                c.n,
                c.s,
                got[i].get(j),
                want[i].get(j)
            ));
        }
    }
    Ok(())
}

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "a case is a history of calls (encoders, configurations, texts); the results of each call alone in a process that has encoded nothing are compared with those of the history in one process, backwards and interleaved on encoders kept from earlier cases and on copies, from four threads sharing the encoders with injected delays, with perturbed environment and clock, and in a new process; printing is watched; or a case is many texts given to encoders of a kind that differ in their configuration, text by text here and encoder by encoder in a new process, and some of them alone; or one call hundreds of times with its texts at every address modulo 256; or thousands of calls in both orders in two processes; non-trivial: a history of two calls or more"
    }
    fn files(&self) -> &'static [&'static str] {
        &super::cross::ALL_FILES
    }
    fn enumerate(&self, g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        let mut i = 0;
        // histories in each of the ways first, however busy the machine is
        for mode in 0..4 {
            for k in &KINDS[..11] {
                i += 1;
                if i % n != w {
                    continue;
                }
                let v: Vec<Call> = (0..3)
                    .map(|_| {
                        let mut c = gen_call(g, k);
                        fix(&mut c);
                        c
                    })
                    .collect();
                let c = Case::t("", v.iter().map(|c| serde_json::to_string(c).unwrap()).collect(), vec![mode, g.rng.next() as i64 & 0x7fffffff]);
                if !f(&c) {
                    return;
                }
            }
        }
        for k in &KINDS[..11] {
            for r in 0..if t { 30 } else { 3 } {
                i += 1;
                if i % n == w && !f(&marathon_case(g, k, if *k == "dm" { 600 } else { 3000 }, r)) {
                    return;
                }
            }
            for l in 'A'..='Z' {
                for a in [l.to_string(), format!("{l}a"), format!("s{l}e"), format!("ac{l}ti")] {
                    i += 1;
                    if i % n != w {
                        continue;
                    }
                    let mut c = gen_call(g, k);
                    if g.rng.chance(1, 2) {
                        c.s[2] = String::new();
                    }
                    c.s[1] = if g.rng.chance(1, 2) { a.to_lowercase() + "b" } else { format!("{a}bcd") };
                    c.s[0] = a;
                    fix(&mut c);
                    if !f(&Case::t("places", vec![serde_json::to_string(&c).unwrap()], vec![0, i as i64])) {
                        return;
                    }
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        if g.rng.chance(1, 6) {
            let k = if g.rng.chance(1, 40) { "bmdir" } else { KINDS[g.rng.below(11)] };
            let mut c = gen_call(g, k);
            if g.rng.chance(1, 2) {
                let mut b = c.s[0].clone();
                g.mutate_str(&mut b, ALPHA);
                c.s[1] = b;
            }
            cut_to(&mut c.s[0], 12);
            cut_to(&mut c.s[1], 12);
            fix(&mut c);
            return Case::t("places", vec![serde_json::to_string(&c).unwrap()], vec![0, g.rng.next() as i64 & 0xffff]);
        }
        if g.rng.chance(1, 150) {
            let k = KINDS[g.rng.below(11)];
            return marathon_case(g, k, 600, 9);
        }
        if g.rng.chance(2, 3) {
            return bulk_case(g);
        }
        let n = g.rng.range(2, 6);
        let mut v: Vec<Call> = vec![];
        // few encoders and related texts: what one call leaves is what another would meet
        let one = g.rng.chance(2, 3);
        let kinds = ["bmdir", "bm"];
        let mut k = if g.rng.chance(1, 12) { kinds[g.rng.below(2)] } else { KINDS[g.rng.below(11)] };
        for _ in 0..n {
            if !one {
                k = if g.rng.chance(1, 12) { kinds[g.rng.below(2)] } else { KINDS[g.rng.below(11)] };
            }
            let mut c = gen_call(g, k);
            if let Some(p) = v.last().filter(|p| p.k == c.k).cloned() {
                match g.rng.below(6) {
                    0 => c.n = p.n.clone(),
                    1 => {
                        c.n = p.n.clone();
                        c.s[2] = p.s[2].clone();
                    }
                    2 => c.s[0] = p.s[0].clone(),
                    3 => {
                        c = p.clone();
                        g.mutate_str(&mut c.s[0], ALPHA);
                    }
                    4 => {
                        c = p.clone();
                        c.s[0] = p.s[0].to_lowercase();
                    }
                    _ => {}
                }
            } else if let Some(p) = v.last() {
                if g.rng.chance(1, 2) {
                    c.s[0] = p.s[0].clone();
                }
            }
            fix(&mut c);
            v.push(c);
        }
        let mode = match g.rng.below(200) {
            0 => 3,
            1..=40 => 2,
            41..=80 => 1,
            _ => 0,
        };
        Case::t("", v.iter().map(|c| serde_json::to_string(c).unwrap()).collect(), vec![mode, g.rng.next() as i64 & 0x7fffffff])
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if c.k == "bulk" || c.k == "marathon" {
            *c = bulk_case(g);
            return;
        }
        let Some(mut v) = parse(c) else { return };
        let i = g.rng.below(v.len());
        match g.rng.below(5) {
            0 if v.len() > 2 => {
                v.remove(i);
            }
            1 if v.len() < 8 => {
                let k = v[i].k.clone();
                v.push(gen_call(g, &k));
            }
            2 => {
                let j = g.rng.below(v.len());
                v.swap(i, j);
            }
            3 => {
                let k = v[i].k.clone();
                let t = gen_call(g, &k);
                v[i].n = t.n;
                v[i].s[2] = t.s[2].clone();
            }
            _ => g.mutate_str(&mut v[i].s[0], ALPHA),
        }
        v.iter_mut().for_each(fix);
        c.s = v.iter().map(|c| serde_json::to_string(c).unwrap()).collect();
        c.n = vec![g.rng.below(3) as i64, g.rng.next() as i64 & 0x7fffffff];
    }
    fn repair(&self, c: &mut Case) -> bool {
        let Some(mut v) = parse(c) else { return false };
        if v.is_empty() || v.len() != c.s.len() || c.n.len() != 2 {
            return false;
        }
        for k in &mut v {
            let m = if k.k == "bmdir" { 5 } else { 0 };
            if (k.k != "bmdir" && !KINDS.contains(&k.k.as_str())) || k.n.len() < m {
                return false;
            }
            if k.k == "bm" && k.n.len() < 4 {
                return false;
            }
            fix(k);
        }
        c.s = v.iter().map(|c| serde_json::to_string(c).unwrap()).collect();
        true
    }
    fn shrink(&self) -> bool {
        false
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        let Some(calls) = parse(c) else { return harness_error("calls") };
        for k in &calls {
            feature("encoder kinds", KINDS.iter().position(|x| *x == k.k).unwrap_or(99) as u64);
        }
        o.nontrivial = calls.len() > 1;
        let seed = c.n[1] as u64;
        if c.k == "bulk" {
            return bulk(&calls, seed, o);
        }
        if c.k == "places" {
            return calls.iter().take(1).try_for_each(|k| places(k, seed, o));
        }
        if c.k == "marathon" {
            return marathon(&calls, o);
        }
        // the reference: each call alone
        let mut want: Results = vec![];
        for k in &calls {
            want.push(pristine(std::slice::from_ref(k), 0, 0)?.0.remove(0));
            ev!("call alone in a process that has encoded nothing");
        }
        o.note(|| format!("{:?}", want));
        let (got, _) = pristine(&calls, 0, 0)?;
        first_difference(&calls, &want, &got, "after the calls before it")?;
        if c.n[0] == 1 {
            let (got, (env, time)) = pristine(&calls, 1, seed)?;
            ev!("perturbed surroundings");
            first_difference(&calls, &want, &got, "in another directory, with another environment, clock and thread")?;
            // what is read decides something, perhaps for few values only
            for i in 0..reads(env, time) {
                let (got, _) = pristine(&calls, 5, seed ^ i)?;
                first_difference(&calls, &want, &got, "with another environment and clock")?;
            }
        }
        // backwards, on encoders that have been used before
        let es = calls.iter().map(kept).collect::<Result<Vec<_>, Stop>>()?;
        let mut got: Results = vec![vec![]; calls.len()];
        for i in (0..calls.len()).rev() {
            got[i] = sut("operations", || results(&es[i], &calls[i]))?;
        }
        first_difference(&calls, &want, &got, "on an encoder used before, calls in reverse order")?;
        // operations of all calls in turn, with copies
        let mut got: Results = vec![vec![]; calls.len()];
        for op in 0..8 {
            for (i, k) in calls.iter().enumerate() {
                let l = langs(&k.s[3]);
                let copy;
                let e = if (op + i) % 2 == 0 {
                    copy = sut("copy", || es[i].copy())?;
                    &copy
                } else {
                    &*es[i]
                };
                if let Some((n, r)) = sut("an operation", || e.op(op, &k.s[0], &k.s[1], &l))? {
                    got[i].push(format!("{n}: {r}"));
                }
            }
        }
        first_difference(&calls, &want, &got, "operations of all calls in turn, on copies")?;
        if c.n[0] == 2 {
            let fresh = calls.iter().map(make).collect::<Result<Vec<E>, Stop>>()?;
            let mut sw = vec![threads(&calls, &fresh, seed, 4)?];
            let (v, i) = pristine(&calls, 2, seed)?;
            sw.push((v.chunks(calls.len()).map(|c| c.to_vec()).collect(), i));
            for (rs, (switches, hash)) in sw {
                ev!("calls from four threads");
                if switches > 8 {
                    ev!("calls from four threads that took turns");
                }
                feature("orders in which the threads went on", hash);
                for r in rs {
                    first_difference(&calls, &want, &r, "from several threads sharing the encoders")?;
                }
            }
        }
        if let Some(p) = interpose::printed_text() {
            return bad(format!("the crate printed {p:?} while encoding"));
        }
        if c.n[0] == 3 {
            let got = elsewhere(&calls, seed)?;
            ev!("calls in a new process");
            first_difference(&calls, &want, &got, "in a new process with another environment and directory, calls in another order")?;
        }
        Ok(())
    }
    fn minimum(&self) -> (u64, u64) {
        (300, 200)
    }
    fn seconds(&self) -> (u64, u64) {
        (25, 900)
    }
    fn required_events(&self) -> &'static [&'static str] {
        &[
            "call alone in a process that has encoded nothing",
            "an encoder used in earlier cases",
            "calls text by text and encoder by encoder",
            "perturbed surroundings",
            "calls of many with perturbed surroundings",
            "calls from four threads that took turns",
            "calls in a new process",
            "one call many times, its texts at other addresses",
            "thousands of calls in both orders",
        ]
    }
}

/// How often calls that read the environment or the clock are repeated.
fn reads(env: u64, time: u64) -> u64 {
    if env > 0 {
        ev!("the environment, or a file, was read");
    }
    if time > 0 {
        ev!("the clock was read");
    }
    if env + time > 0 {
        16
    } else {
        0
    }
}

/// Some texts, each given to some encoders of a kind that differ in their configuration only.
fn bulk_case(g: &mut Gen) -> Case {
    let k = match g.rng.below(24) {
        0..=3 => "bmdir",
        4 | 5 => "bm",
        i => KINDS[i % 11],
    };
    let slow = matches!(k, "bm" | "bmdir");
    let mut configs: Vec<Call> = vec![];
    for _ in 0..if matches!(k, "cav1" | "cav2" | "cologne" | "mra") { 1 } else { g.rng.range(2, 6) } {
        let mut c = gen_call(g, k);
        if let Some(p) = configs.last() {
            // one setting changed
            if g.rng.chance(1, 2) && !p.n.is_empty() && !c.n.is_empty() {
                let i = g.rng.below(p.n.len().min(c.n.len()));
                let x = c.n[i];
                c.n = p.n.clone();
                c.n[i] = x;
                c.s[2] = p.s[2].clone();
            }
            // or one code of the mapping, one character of the rules
            if g.rng.chance(1, 3) && matches!(k, "soundex" | "refined" | "dm") {
                c.n = p.n.clone();
                let mut m: Vec<char> = match (k, p.s[2].as_str()) {
                    ("soundex", "") => DEFAULT_US_ENGLISH_MAPPING_SOUNDEX.to_vec(),
                    ("refined", "") => "01360240043788015936020505".chars().collect(),
                    (_, s) => s.chars().collect(),
                };
                let places: Vec<usize> = (0..m.len()).filter(|i| m[*i].is_ascii_digit() || k != "dm").collect();
                if !places.is_empty() {
                    m[places[g.rng.below(places.len())]] = (b'0' + g.rng.below(10) as u8) as char;
                }
                c.s[2] = m.iter().collect();
            }
            c.s[3] = p.s[3].clone();
        }
        configs.push(c);
    }
    let mut texts: Vec<(String, String)> = vec![];
    let n = if slow { g.rng.range(1, 5) } else { g.rng.range(4, 30) };
    for _ in 0..n {
        let t = gen_call(g, k);
        let mut a = t.s[0].clone();
        let mut b = t.s[1].clone();
        if let Some((p, q)) = texts.last() {
            match g.rng.below(8) {
                0 => {
                    a = p.clone();
                    g.mutate_str(&mut a, ALPHA);
                }
                1 => a = p.chars().rev().collect(),
                2 => a = p.to_lowercase(),
                3 => a = q.clone(),
                4 => {
                    a = p.clone();
                    a += &t.s[1];
                }
                5 => b = p.clone(),
                _ => {}
            }
        }
        if slow {
            cut_to(&mut a, 16);
            cut_to(&mut b, 16);
        }
        texts.push((a, b));
    }
    let mut v = vec![];
    for (a, b) in &texts {
        for c in &configs {
            let mut c = c.clone();
            c.s[0] = a.clone();
            c.s[1] = b.clone();
            if slow {
                c.n[3] = c.n[3].min(20);
            }
            fix(&mut c);
            v.push(serde_json::to_string(&c).unwrap());
        }
    }
    Case::t("bulk", v, vec![0, g.rng.next() as i64 & 0x7fffffff])
}
/// The calls text by text here, on encoders used before, and encoder by encoder in a process that has encoded nothing;
/// a call whose results differ is repeated alone.
/// Calls of one encoder on many different texts.
fn marathon_case(g: &mut Gen, k: &str, n: usize, round: usize) -> Case {
    let c = gen_call(g, k);
    let mut v = vec![];
    for i in 0..n {
        let mut c = c.clone();
        if round == 0 {
            // the default configuration
            c.s[2] = String::new();
        }
        c.s[0] = if i % 3 == 0 { g.name() } else { g.letters(ALPHA, 8) };
        c.s[1] = g.letters(ALPHA, 5);
        fix(&mut c);
        cut_to(&mut c.s[0], if k == "dm" { 12 } else { 40 });
        v.push(serde_json::to_string(&c).unwrap());
    }
    Case::t("marathon", v, vec![0, round as i64])
}
/// All calls in a process, and in another one backwards, in another thread.
fn marathon(calls: &[Call], o: &mut Obs) -> Verdict {
    let (here, _) = pristine(calls, 4, 0)?;
    let back: Vec<Call> = calls.iter().rev().cloned().collect();
    // (in a thread without name)
    let (mut there, _) = pristine(&back, 4, 8)?;
    there.reverse();
    o.note(|| format!("{} calls, e.g. {} {:?} on {:?}: {:?}", calls.len(), calls[0].k, calls[0].n, calls[0].s[0], here[0]));
    ev!("thousands of calls in both orders");
    for i in 0..calls.len() {
        if here[i] != there[i] || i % (calls.len() / 4 + 1) == 0 {
            let one = std::slice::from_ref(&calls[i]);
            let alone = pristine(one, 0, 0)?.0;
            first_difference(one, &alone, &vec![here[i].clone()], &format!("after {i} other calls"))?;
            first_difference(one, &alone, &vec![there[i].clone()], &format!("after {} other calls", calls.len() - 1 - i))?;
            if here[i] != there[i] {
                return bad(format!("{:?}: results depend on the calls before: {:?}, {:?}", calls[i], here[i], there[i]));
            }
        }
    }
    Ok(())
}
/// A call again and again, with its texts at every address modulo 256.
fn places(k: &Call, seed: u64, o: &mut Obs) -> Verdict {
    let one = std::slice::from_ref(k);
    let want = if seed % 16 == 0 || k.k == "bmdir" { Some(pristine(one, 0, 0)?.0) } else { None };
    let e = kept(k)?;
    let l = langs(&k.s[3]);
    let (a, b) = (&k.s[0], &k.s[1]);
    let times = match (k.k.as_str(), a.len()) {
        ("bmdir", _) => 40,
        ("dm", _) => 130,
        (_, 0..=16) => 257,
        _ => 70,
    };
    let mut here = vec![0u8; times + 512 + a.len()];
    let mut there = vec![0u8; 2 * times + 512 + b.len()];
    let (p, q) = (here.as_ptr().align_offset(256), there.as_ptr().align_offset(256));
    // what surrounds the texts isn't theirs
    here.fill(b'X' + (seed % 3) as u8);
    there.fill(b'e');
    let mut first: Option<Vec<String>> = None;
    sut("operations at other addresses", || -> Verdict {
        for i in 0..times {
            let (x, y) = (p + i, q + (i * 7) % times);
            here[x..x + a.len()].copy_from_slice(a.as_bytes());
            there[y..y + b.len()].copy_from_slice(b.as_bytes());
            let (s, t) = (std::str::from_utf8(&here[x..x + a.len()]).unwrap(), std::str::from_utf8(&there[y..y + b.len()]).unwrap());
            let mut v = vec![];
            let mut j = 0;
            while let Some((n, r)) = e.op(j, s, t, &l) {
                v.push(format!("{n}: {r}"));
                j += 1;
            }
            match &first {
                None => first = Some(v),
                Some(f) if *f != v => {
                    return bad(format!("{} {:?} on {:?}, {:?}: call {i}, with the texts at other places in memory, gives {v:?}, the first one {f:?}", k.k, k.n, a, b));
                }
                _ => {}
            }
            here[x..x + a.len()].fill(b'h');
            there[y..y + b.len()].fill(b'e');
        }
        Ok(())
    })??;
    ev!("one call many times, its texts at other addresses");
    let first = first.unwrap_or_default();
    o.note(|| format!("{times} times {} {:?} on {a:?}: {first:?}", k.k, k.n));
    if let Some(w) = want {
        first_difference(one, &w, &vec![first], "on an encoder used before")?;
    }
    Ok(())
}
fn bulk(calls: &[Call], seed: u64, o: &mut Obs) -> Verdict {
    let es = calls.iter().map(kept).collect::<Result<Vec<_>, Stop>>()?;
    let run = |i: usize| sut("operations", || results(&es[i], &calls[i]));
    let mut here: Results = vec![vec![]; calls.len()];
    if seed & 2 == 0 {
        for i in 0..calls.len() {
            here[i] = run(i)?;
        }
    } else {
        // one operation after the other
        let ls: Vec<LanguageSet> = calls.iter().map(|c| langs(&c.s[3])).collect();
        sut("operations", || {
            for op in 0..20 {
                let mut more = false;
                for (i, c) in calls.iter().enumerate() {
                    if let Some((n, r)) = es[i].op(op, &c.s[0], &c.s[1], &ls[i]) {
                        here[i].push(format!("{n}: {r}"));
                        more = true;
                    }
                }
                if !more {
                    break;
                }
            }
        })?;
    }
    let mut order: Vec<usize> = (0..calls.len()).collect();
    let first = |i: usize| calls.iter().position(|c| same_encoder(c, &calls[i])).unwrap();
    order.sort_by_key(|i| first(*i));
    if seed % 2 == 0 {
        order.reverse();
    }
    let other: Vec<Call> = order.iter().map(|i| calls[*i].clone()).collect();
    let perturbed = seed & 4 != 0;
    if perturbed {
        ev!("calls of many with perturbed surroundings");
    }
    let (r, (env, time)) = pristine(&other, if perturbed { 5 } else { 4 }, seed)?;
    let mut there: Results = vec![vec![]; calls.len()];
    for (i, r) in order.iter().zip(r) {
        there[*i] = r;
    }
    BULK.hits(calls.len() as u64);
    o.note(|| format!("{} calls, e.g. {} {:?} on {:?}: {:?}", calls.len(), calls[0].k, calls[0].n, calls[0].s[0], here[0]));
    let check = |i: usize, r: &Vec<String>, how: &str| -> Verdict {
        let alone = pristine(std::slice::from_ref(&calls[i]), 0, 0)?.0;
        first_difference(std::slice::from_ref(&calls[i]), &alone, &vec![r.clone()], how)
    };
    let mut differ = false;
    for i in 0..calls.len() {
        if here[i] != there[i] {
            differ = true;
            check(i, &here[i], "text by text on encoders used before")?;
            check(i, &there[i], if perturbed { "encoder by encoder in a new process, with another environment and clock" } else { "encoder by encoder in a new process" })?;
        }
    }
    for k in 0..reads(env, time) {
        let (r, _) = pristine(&other, 5, seed.wrapping_add(k))?;
        for (i, r) in order.iter().zip(r) {
            if r != here[*i] {
                check(*i, &r, "encoder by encoder in a new process, with another environment and clock")?;
            }
        }
    }
    if differ {
        return bad("calls give other results in another order, and yet others alone");
    }
    // some of them alone, whatever the others say
    let i = seed as usize % calls.len();
    ev!("call of many alone in a process that has encoded nothing");
    check(i, &here[i], "text by text on encoders used before")?;
    // and in the other order here
    for &i in &order {
        let r = run(i)?;
        if r != here[i] {
            check(i, &r, "again, encoder by encoder")?;
            return bad(format!("{} {:?} on {:?} gives {:?}, then {r:?}", calls[i].k, calls[i].n, calls[i].s, here[i]));
        }
    }
    if let Some(p) = interpose::printed_text() {
        return bad(format!("the crate printed {p:?} while encoding"));
    }
    Ok(())
}
static BULK: crate::core::Ev = crate::core::Ev::new("calls text by text and encoder by encoder");

/// The calls in a process of its own, in another order.
fn elsewhere(calls: &[Call], seed: u64) -> Result<Results, Stop> {
    let d = super::bmp::scratch().join("elsewhere");
    let io = |e: std::io::Error| Stop::Error(format!("new process: {e}"));
    std::fs::create_dir_all(&d).map_err(io)?;
    let mut order: Vec<usize> = (0..calls.len()).collect();
    let mut r = Rng::new(seed);
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    let v: Vec<&Call> = order.iter().map(|i| &calls[*i]).collect();
    let (fi, fo) = (d.join("calls.json"), d.join("results.json"));
    std::fs::write(&fi, serde_json::to_vec(&v).unwrap()).map_err(io)?;
    let _ = std::fs::remove_file(&fo);
    let mut cmd = std::process::Command::new(std::env::current_exe().map_err(io)?);
    cmd.arg("child").arg(&fi).arg(&fo).env_clear().current_dir("/");
    cmd.env("VERIF_DIR", verif_dir()).env("VH_SCRATCH", &d);
    if seed % 2 == 0 {
        for (k, v) in [("LANG", "ja_JP.EUC"), ("LC_ALL", "tr_TR.UTF-8"), ("RUST_BACKTRACE", "full"), ("TZ", "UTC+13"), ("DEBUG", "1"), ("RPHONETIC", "1")] {
            cmd.env(k, v);
        }
    }
    let out = match run_watched(cmd, &d).map_err(io)? {
        Ok(o) => o,
        Err(e) => return bad(format!("calls in a new process: {e}")),
    };
    if !out.stdout.is_empty() || !out.stderr.is_empty() {
        return bad(format!("a new process printed {:?} {:?}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr)));
    }
    if !out.status.success() {
        return bad(format!("a new process running the calls ended with {:?}", out.status));
    }
    let b = std::fs::read(&fo).map_err(io)?;
    let r: Results = serde_json::from_slice(&b).map_err(|e| Stop::Error(format!("new process: {e}")))?;
    let mut v: Results = vec![vec![]; calls.len()];
    for (j, i) in order.iter().enumerate() {
        v[*i] = r[j].clone();
    }
    Ok(v)
}
pub fn child(a: &[String]) -> i32 {
    let Some(calls) = std::fs::read(&a[0]).ok().and_then(|b| serde_json::from_slice::<Vec<Call>>(&b).ok()) else { return 2 };
    let r = match in_order(&calls) {
        Ok(r) => r,
        Err(_) => return 3,
    };
    super::bmp::clean_scratch();
    match std::fs::write(&a[1], serde_json::to_vec(&r).unwrap()) {
        Ok(()) => 0,
        Err(_) => 2,
    }
}
