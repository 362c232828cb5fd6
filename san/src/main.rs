//! san: runs batches of calls of the crate under test in a build watched by a sanitizer (AddressSanitizer,
//! ThreadSanitizer, MemorySanitizer) or interpreted by Miri. What the sanitizer reports is the verdict; this program only
//! makes executions happen, and checks that results are valid strings.
//!
//! `san serve`: batches from standard input; `san run FILE`: one batch; `san control KIND`: an error on purpose.
mod core;
#[path = "../../harness/src/enc.rs"]
#[allow(dead_code)]
mod enc;

use enc::{build, langs, E};
use rphonetic::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Barrier;

struct Call {
    k: String,
    n: Vec<i64>,
    s: [String; 4],
}
struct Batch {
    mode: String,
    seed: u64,
    dirs: PathBuf,
    calls: Vec<Call>,
}

fn unhex(h: &str) -> String {
    let b: Vec<u8> = h.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
fn read(r: &mut dyn BufRead) -> Option<Batch> {
    let mut b: Option<Batch> = None;
    loop {
        let mut l = String::new();
        if r.read_line(&mut l).ok()? == 0 {
            return None;
        }
        let f: Vec<&str> = l.trim_end_matches('\n').split('\t').collect();
        match f[0] {
            "B" => b = Some(Batch { mode: f[1].into(), seed: f[2].parse().unwrap(), dirs: f[3].into(), calls: vec![] }),
            "C" => b.as_mut().unwrap().calls.push(Call {
                k: f[1].into(),
                n: f[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                s: [unhex(f[3]), unhex(f[4]), unhex(f[5]), unhex(f[6])],
            }),
            "E" => return b,
            _ => panic!("line {l:?}"),
        }
    }
}

static OPS: AtomicU64 = AtomicU64::new(0);
static PANICS: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);

/// The configuration of directory i, kept as long as the process.
fn dir_config(b: &Batch, i: i64) -> Option<&'static ConfigFiles> {
    thread_local! { static D: RefCell<HashMap<i64, &'static ConfigFiles>> = RefCell::new(HashMap::new()); }
    if let Some(c) = D.with(|d| d.borrow().get(&i).copied()) {
        return Some(c);
    }
    let c = ConfigFiles::new(&b.dirs.join(format!("d{i}"))).ok()?;
    let c: &'static ConfigFiles = Box::leak(Box::new(c));
    KEPT.lock().unwrap().push(Any(c));
    D.with(|d| d.borrow_mut().insert(i, c));
    Some(c)
}
static KEPT: std::sync::Mutex<Vec<Any<&'static ConfigFiles>>> = std::sync::Mutex::new(Vec::new());

fn make(b: &Batch, c: &Call) -> Option<E> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        if c.k == "bmdir" {
            let g = |i: usize| c.n.get(i).copied().unwrap_or(0);
            let cf = dir_config(b, g(4).rem_euclid(7))?;
            return Some(E::Bm(
                BeiderMorseBuilder::new(cf)
                    .name_type(enc::NAME_TYPES[g(0).rem_euclid(3) as usize])
                    .rule_type(enc::RULE_TYPES[g(1).rem_euclid(2) as usize])
                    .concat(g(2) != 0)
                    .max_phonemes(if g(3) < 0 { 20 } else { g(3) as usize })
                    .build(),
            ));
        }
        build(&c.k, &c.n, &c.s[2]).ok()
    }));
    r.unwrap_or_else(|_| {
        PANICS.fetch_add(1, Relaxed);
        None
    })
}

/// Every operation; results are read byte by byte and have to be valid strings.
fn run(e: &E, c: &Call) -> Result<u64, String> {
    let mut h = 0xcbf29ce484222325u64;
    let mut i = 0;
    let l = langs(&c.s[3]);
    loop {
        let r = catch_unwind(AssertUnwindSafe(|| e.op(i, &c.s[0], &c.s[1], &l)));
        i += 1;
        match r {
            Ok(Some((name, r))) => {
                OPS.fetch_add(1, Relaxed);
                let b = std::hint::black_box(r.as_bytes());
                BYTES.fetch_add(b.len() as u64, Relaxed);
                if std::str::from_utf8(b).is_err() {
                    return Err(format!("{name} of {} on {:?} gives bytes that are no valid UTF-8: {b:x?}", c.k, c.s[0]));
                }
                for x in b {
                    h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
                }
                // a branch on what was read, for MemorySanitizer
                if h == 42 {
                    println!("42");
                }
            }
            Ok(None) => return Ok(h),
            Err(_) => {
                PANICS.fetch_add(1, Relaxed);
            }
        }
        if i > 20 {
            return Ok(h);
        }
    }
}
fn values(c: &Call) {
    // operations on values, whatever they give
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let v = [langs(&c.s[3]), langs(&c.s[1]), LanguageSet::Any, LanguageSet::NoLanguages];
        for a in &v {
            for b in &v {
                let (r, m) = (a.restrict_to(b), a.merge(b));
                std::hint::black_box((r.to_string().len(), m.to_string().len(), r == m, r.is_empty(), m.is_singleton(), r.any()));
            }
        }
    }));
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let s = CharSequence::from(c.s[0].as_str());
        let n = s.len() + 2;
        let step = 1 + n / 6;
        for i in (0..n).step_by(step) {
            for j in (0..n).step_by(step) {
                let t = [&s[i..j], &s[i..], &s[..j], &s[i..=j], &s[..=j], &s[..]];
                let total: usize = t.iter().map(|x| std::hint::black_box(x.chars().count() + std::str::from_utf8(x.as_bytes()).is_ok() as usize)).sum();
                std::hint::black_box(total);
            }
        }
        std::hint::black_box((s.to_string(), s.as_str().len(), s.is_empty(), <&str>::from(s).len()));
    }));
    let _ = catch_unwind(AssertUnwindSafe(|| {
        // rules that are mostly wrong, and what is said about them
        for t in [&c.s[0], &c.s[1], &c.s[3]] {
            if let Err(e) = DaitchMokotoffSoundexBuilder::with_rules(t).build() {
                std::hint::black_box(e.to_string().len());
            }
        }
        std::hint::black_box((Soundex::try_from(c.s[2].as_str()).is_ok(), c.s[2].parse::<RefinedSoundex>().is_ok(), c.s[1].parse::<NameType>().is_ok()));
    }));
}

struct Any<T>(T);
// Whether types may be shared is watched by `shareable`; nothing is shared when they may not.
unsafe impl<T> Sync for Any<T> {}
unsafe impl<T> Send for Any<T> {}
impl<T> Any<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn into(self) -> T {
        self.0
    }
}

fn threads(b: &Batch, t: usize, rounds: usize, own: bool) -> Result<(), String> {
    let es: Vec<Option<E>> = if own { vec![] } else { b.calls.iter().map(|c| make(b, c)).collect() };
    let es = Any(es);
    let go = Barrier::new(t);
    let r: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..t)
            .map(|k| {
                let (es, go) = (&es, &go);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut x = (b.seed ^ (k as u64 + 1) << 17).wrapping_mul(0x9E3779B97F4A7C15) | 1;
                        let mut order: Vec<usize> = (0..b.calls.len()).collect();
                        if k % 2 == 1 {
                            order.rotate_left(b.seed as usize % b.calls.len().max(1));
                        }
                        go.wait();
                        // every thread builds its own at the same time
                        let mine = Any(if own { b.calls.iter().map(|c| make(b, c)).collect() } else { vec![] });
                        let es = if own { mine.get() } else { es.get() };
                        for round in 0..rounds {
                            for &i in &order {
                                x ^= x << 13;
                                x ^= x >> 7;
                                x ^= x << 17;
                                match x >> 40 & 15 {
                                    0 => std::thread::yield_now(),
                                    1 => (0..x & 255).for_each(|_| std::hint::spin_loop()),
                                    _ => {}
                                }
                                if i % 3 == 0 {
                                    values(&b.calls[i]);
                                }
                                let Some(e) = &es[i] else { continue };
                                if round % 2 == 1 {
                                    run(&e.copy(), &b.calls[i])?;
                                } else {
                                    run(e, &b.calls[i])?;
                                }
                            }
                        }
                        Ok(())
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Ok(()))).collect()
    });
    r.into_iter().collect::<Result<(), String>>()?;
    // encoders go to another thread, which drops them
    let es = Any(if own { b.calls.iter().map(|c| make(b, c)).collect() } else { es.into() });
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                let es: Vec<Option<E>> = es.into();
                for (e, c) in es.iter().zip(&b.calls).take(2) {
                    if let Some(e) = e {
                        run(e, c)?;
                    }
                }
                Ok(())
            })
            .unwrap()
            .join()
            .unwrap_or(Ok(()))
    })
}
struct Time<'a>(&'a str, bool, std::time::Instant);
impl Drop for Time<'_> {
    fn drop(&mut self) {
        if self.1 {
            println!("{} {:?}", self.0, self.2.elapsed());
        }
    }
}
fn single(b: &Batch) -> Result<(), String> {
    let verbose = std::env::var_os("SAN_VERBOSE").is_some();
    for c in &b.calls {
        let t0 = std::time::Instant::now();
        values(c);
        if verbose {
            println!("values {:?}", t0.elapsed());
        }
        let _d = Time(&c.k, verbose, t0);
        let Some(e) = make(b, c) else { continue };
        run(&e, c)?;
        let d = e.copy();
        drop(e);
        run(&d, c)?;
    }
    Ok(())
}

trait Yes {
    fn is(&self) -> bool {
        true
    }
}
trait No {
    fn is(&self) -> bool {
        false
    }
}
struct IsSync<T>(std::marker::PhantomData<T>);
struct IsSend<T>(std::marker::PhantomData<T>);
impl<T: Sync> Yes for IsSync<T> {}
impl<T> No for &IsSync<T> {}
impl<T: Send> Yes for IsSend<T> {}
impl<T> No for &IsSend<T> {}

fn shareable() -> Result<usize, String> {
    let mut n = 0;
    let mut bad = vec![];
    macro_rules! t {
        ($($t:ty),* $(,)?) => {$(
            n += 1;
            if !(&IsSync::<$t>(std::marker::PhantomData)).is() {
                bad.push(concat!(stringify!($t), " can't be shared between threads (not Sync)"));
            }
            if !(&IsSend::<$t>(std::marker::PhantomData)).is() {
                bad.push(concat!(stringify!($t), " can't be sent to another thread (not Send)"));
            }
        )*};
    }
    t!(
        Soundex,
        RefinedSoundex,
        Caverphone1,
        Caverphone2,
        Cologne,
        Metaphone,
        DoubleMetaphone,
        DoubleMetaphoneResult,
        Nysiis,
        Phonex,
        MatchRatingApproach,
        DaitchMokotoffSoundex,
        BeiderMorse<'static>,
        ConfigFiles,
        LanguageSet,
        NameType,
        RuleType
    );
    match bad.is_empty() {
        true => Ok(n),
        false => Err(bad.join("; ")),
    }
}

#[cfg(san_address)]
extern "C" {
    fn __lsan_do_recoverable_leak_check() -> i32;
}
/// Memory no pointer leads to.
fn leaks() -> bool {
    #[cfg(san_address)]
    if std::env::var_os("SAN_LEAKS").is_some() {
        return unsafe { __lsan_do_recoverable_leak_check() } != 0;
    }
    false
}

fn perform(b: &Batch) -> String {
    let before = (OPS.load(Relaxed), PANICS.load(Relaxed), BYTES.load(Relaxed));
    if let Err(e) = shareable() {
        return format!("BAD {e}");
    }
    let r = match b.mode.as_str() {
        "threads" => threads(b, 4, 2, false),
        "own" => threads(b, 4, 1, true),
        "miri" => {
            // a third of them from two threads
            single(b).and_then(|_| {
                let calls = std::mem::take(&mut *CALLS.lock().unwrap());
                threads(&Batch { mode: String::new(), seed: b.seed, dirs: b.dirs.clone(), calls }, 2, 1, b.seed % 2 == 1)
            })
        }
        _ => single(b),
    };
    if let Err(e) = r {
        return format!("BAD {}", e.replace('\n', " "));
    }
    if b.mode == "leaks" && leaks() {
        return "BAD memory leaked (LeakSanitizer)".into();
    }
    let d = |a: &AtomicU64, b: u64| a.load(Relaxed) - b;
    format!("OK {} {} {}", d(&OPS, before.0), d(&PANICS, before.1), d(&BYTES, before.2))
}
static CALLS: std::sync::Mutex<Vec<Call>> = std::sync::Mutex::new(Vec::new());

/// Positive controls: each sanitizer has to report its error.
fn control(kind: &str) {
    use std::hint::black_box;
    match kind {
        "bounds" => {
            let v = black_box(vec![1u8; 10]);
            let p = black_box(v.as_ptr());
            println!("{}", unsafe { *p.add(black_box(10)) });
        }
        "free" => {
            let v = black_box(vec![1u8; 10]);
            let p = black_box(v.as_ptr());
            drop(v);
            println!("{}", unsafe { *p });
        }
        "leak" => {
            let v = black_box(vec![1u8; 10]);
            std::mem::forget(v);
            std::thread::spawn(|| black_box(vec![2u8; 20]).len()).join().unwrap();
            if leaks() {
                println!("LeakSanitizer: leak");
                std::process::exit(66);
            }
        }
        "uninit" => {
            let v: Box<[std::mem::MaybeUninit<u8>]> = black_box(Box::new_uninit_slice(10));
            if unsafe { v[3].assume_init() } == black_box(3) {
                println!("three");
            }
        }
        "race" => {
            static mut X: u64 = 0;
            let f = || {
                for _ in 0..10 {
                    unsafe { *(&raw mut X) += black_box(1) };
                    std::thread::yield_now();
                }
            };
            let t = std::thread::spawn(f);
            f();
            t.join().unwrap();
        }
        _ => std::process::exit(2),
    }
    println!("not reported");
}

fn main() {
    if std::env::var_os("SAN_VERBOSE").is_none() {
        std::panic::set_hook(Box::new(|i| {
            // what the standard library says before it aborts
            let m = i.to_string();
            if ["unsafe precondition", "misaligned pointer", "null pointer"].iter().any(|x| m.contains(x)) {
                eprintln!("{m}");
            }
        }));
    }
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "control" => control(&a[2]),
        "run" => {
            let f = std::fs::read(&a[2]).unwrap();
            let mut b = read(&mut f.as_slice()).unwrap();
            // the calls at the end are for threads
            let n = b.calls.len() - b.calls.len() / 3;
            *CALLS.lock().unwrap() = b.calls.split_off(n);
            println!("{}", perform(&b));
        }
        _ => {
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
                let mut i = std::io::stdin().lock();
                while let Some(b) = read(&mut i) {
                    let r = perform(&b);
                    let mut o = std::io::stdout().lock();
                    let _ = writeln!(o, "{r}").and_then(|_| o.flush());
                }
            });
            let _ = h.unwrap().join();
        }
    }
}
