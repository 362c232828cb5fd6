//! bld: answers calls of the crate under test, in a build unlike the harness's (see check.sh). For each batch of calls
//! one line per call: the results.
//!
//! `bld serve`: batches from standard input; `bld run FILE`: one batch (under Miri, for another platform); `bld none`.
#[path = "../../san/src/core.rs"]
#[allow(dead_code)]
mod core;
#[path = "../../harness/src/enc.rs"]
#[allow(dead_code)]
mod enc;
mod extra;

use enc::{build, langs, E};
use rphonetic::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

struct Call {
    k: String,
    n: Vec<i64>,
    s: [String; 4],
}
fn unhex(h: &str) -> String {
    let b: Vec<u8> = h.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
/// (directory of the Beider-Morse directories, calls)
fn read(r: &mut dyn BufRead) -> Option<(PathBuf, Vec<Call>)> {
    let mut dirs = PathBuf::new();
    let mut v = vec![];
    loop {
        let mut l = String::new();
        if r.read_line(&mut l).ok()? == 0 {
            return None;
        }
        let f: Vec<&str> = l.trim_end_matches('\n').split('\t').collect();
        match f[0] {
            "B" => dirs = f[3].into(),
            "C" => v.push(Call {
                k: f[1].into(),
                n: f[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                s: [unhex(f[3]), unhex(f[4]), unhex(f[5]), unhex(f[6])],
            }),
            "E" => return Some((dirs, v)),
            _ => panic!("line {l:?}"),
        }
    }
}
fn dir_config(dirs: &std::path::Path, i: i64) -> &'static ConfigFiles {
    thread_local! { static D: RefCell<HashMap<i64, &'static ConfigFiles>> = RefCell::new(HashMap::new()); }
    if let Some(c) = D.with(|d| d.borrow().get(&i).copied()) {
        return c;
    }
    let c: &'static ConfigFiles = Box::leak(Box::new(ConfigFiles::new(&dirs.join(format!("d{i}"))).unwrap()));
    D.with(|d| d.borrow_mut().insert(i, c));
    c
}
fn make(dirs: &std::path::Path, c: &Call) -> E {
    if c.k == "bmdir" {
        let g = |i: usize| c.n.get(i).copied().unwrap_or(0);
        return E::Bm(
            BeiderMorseBuilder::new(dir_config(dirs, g(4).rem_euclid(7)))
                .name_type(enc::NAME_TYPES[g(0).rem_euclid(3) as usize])
                .rule_type(enc::RULE_TYPES[g(1).rem_euclid(2) as usize])
                .concat(g(2) != 0)
                .max_phonemes(if g(3) < 0 { 20 } else { g(3) as usize })
                .build(),
        );
    }
    build(&c.k, &c.n, &c.s[2]).unwrap()
}
fn run(dirs: &std::path::Path, c: &Call) -> Vec<String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        if let Some(v) = extra::extra(&c.k, &c.n, &c.s) {
            return v;
        }
        let e = make(dirs, c);
        let l = langs(&c.s[3]);
        let mut v = vec![];
        // several texts for an encoder
        for t in c.s[0].split('\u{1}') {
            let mut i = 0;
            while let Some((n, r)) = e.op(i, t, &c.s[1], &l) {
                v.push(format!("{n}: {r}"));
                i += 1;
            }
        }
        v
    }));
    r.unwrap_or_else(|_| vec!["panic".into()])
}
fn answer(dirs: &std::path::Path, calls: &[Call]) {
    let o = text(dirs, calls);
    let mut w = std::io::stdout().lock();
    let _ = w.write_all(o.as_bytes());
    let _ = w.flush();
}
fn text(dirs: &std::path::Path, calls: &[Call]) -> String {
    let mut o = String::new();
    for c in calls {
        o.push('R');
        for r in run(dirs, c) {
            o.push('\t');
            for b in r.bytes() {
                o.push(char::from_digit((b >> 4) as u32, 16).unwrap());
                o.push(char::from_digit((b & 15) as u32, 16).unwrap());
            }
        }
        o.push('\n');
    }
    o + "E\n"
}
/// For WebAssembly (see wasm.js): room for a batch, and the answer to it.
#[cfg(target_arch = "wasm32")]
mod wasm {
    static mut BUF: Vec<u8> = Vec::new();
    #[no_mangle]
    pub extern "C" fn room(n: usize) -> *mut u8 {
        unsafe {
            BUF = vec![0; n];
            (*(&raw mut BUF)).as_mut_ptr()
        }
    }
    /// The length of the answer, which is where `room` was.
    #[no_mangle]
    pub extern "C" fn answer_batch() -> usize {
        let b = unsafe { std::mem::take(&mut *(&raw mut BUF)) };
        let mut r = std::io::BufReader::new(&b[..]);
        let t = match super::read(&mut r) {
            Some((d, c)) => super::text(&d, &c),
            None => format!("{} {} {}", usize::BITS, cfg!(target_endian = "big"), cfg!(debug_assertions)),
        };
        let n = t.len();
        unsafe { BUF = t.into_bytes() };
        n
    }
    #[no_mangle]
    pub extern "C" fn answer_at() -> *const u8 {
        unsafe { (*(&raw const BUF)).as_ptr() }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("serve") => {
            let mut r = std::io::stdin().lock();
            while let Some((d, c)) = read(&mut r) {
                answer(&d, &c);
            }
        }
        Some("run") => {
            let mut r = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
            if let Some((d, c)) = read(&mut r) {
                answer(&d, &c);
            }
        }
        _ => println!("{} {} {}", usize::BITS, cfg!(target_endian = "big"), cfg!(debug_assertions)),
    }
}
