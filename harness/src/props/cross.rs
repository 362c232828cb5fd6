//! C01, C20 to C23: every encoder.
use super::bmp::{bm_text, gen_dir_parts, gen_langs, gen_opt, LANGS};
use super::*;
use crate::core::{bad, feature, sut, Obs, Prop, Stop, Verdict};
use crate::enc::{build, langs, max, E, KINDS};
use crate::ev;
use crate::gen::UPPER;
use rphonetic::*;

pub struct C01;
pub struct C20;
pub struct C21;
pub struct C22;
pub struct C23;

pub const ALL_FILES: [&str; 13] = [
    "src/soundex.rs",
    "src/refined_soundex.rs",
    "src/caverphone.rs",
    "src/cologne.rs",
    "src/metaphone.rs",
    "src/double_metaphone.rs",
    "src/nysiis.rs",
    "src/phonex.rs",
    "src/match_rating_approach.rs",
    "src/daitch_mokotoff.rs",
    "src/beider_morse/engine.rs",
    "src/helper.rs",
    "src/lib.rs",
];
pub const ALPHA: &str = "AEIOUYAEIOUYHWBCDFGJKLMNPQRSTVXZCGHSTCGHSTNMKLR";

pub fn mapping_text(g: &mut Gen) -> String {
    match g.rng.below(4) {
        0 | 1 => String::new(),
        2 => {
            let a: Vec<char> = "00123456-".chars().collect();
            (0..26).map(|_| *g.rng.pick(&a)).collect()
        }
        _ => (0..26).map(|_| g.any_char()).collect(),
    }
}
/// Configuration numbers and text for an encoder.
pub fn config_of(g: &mut Gen, k: &str) -> (Vec<i64>, String) {
    match k {
        "soundex" => (vec![g.rng.below(2) as i64], mapping_text(g)),
        "refined" => (vec![], mapping_text(g)),
        "meta" | "dmeta" => (vec![g.max_len()], String::new()),
        "nysiis" => (vec![g.rng.below(2) as i64], String::new()),
        "phonex" => (
            vec![match g.rng.below(12) {
                0..=3 => 4,
                4 => g.boundary(5000) as i64,
                _ => g.rng.below(30) as i64,
            }],
            String::new(),
        ),
        "dm" => (vec![g.rng.below(2) as i64], String::new()),
        "bm" => {
            let mut n = gen_opt(g);
            n.push(g.rng.below(4).min(1) as i64 ^ 1);
            (n, String::new())
        }
        _ => (vec![], String::new()),
    }
}
pub fn text_for(g: &mut Gen, k: &str) -> String {
    match k {
        "bm" => bm_text(g),
        _ => {
            let max = match g.rng.below(60) {
                0 => 600,
                1..=3 => 60,
                _ => 20,
            };
            g.text(ALPHA, max)
        }
    }
}
fn near(g: &mut Gen, s: &str) -> String {
    let mut t = s.to_string();
    for _ in 0..g.rng.range(1, 3) {
        g.mutate_str(&mut t, ALPHA);
    }
    t
}
/// s: text, second text, mapping or rules, languages.
pub fn gen_case(g: &mut Gen) -> Case {
    let k = *g.rng.pick(&KINDS);
    let (n, t) = config_of(g, k);
    let a = text_for(g, k);
    let b = if g.rng.chance(1, 2) { near(g, &a) } else { text_for(g, k) };
    let l = gen_langs(g, &LANGS);
    Case::t(k, vec![a, b, t, l], n)
}
pub fn mutate_case(g: &mut Gen, c: &mut Case) {
    if g.rng.chance(1, 6) {
        let k = c.k.clone();
        let (n, t) = config_of(g, &k);
        c.n = n;
        c.s[2] = t;
    } else {
        let i = g.rng.below(2);
        let mut s = std::mem::take(&mut c.s[i]);
        g.mutate_str(&mut s, ALPHA);
        c.s[i] = s;
    }
}
pub fn cut_to(s: &mut String, n: usize) {
    if s.chars().count() > n {
        *s = s.chars().take(n).collect();
    }
}
/// Longest text for a number of alternatives: the cost grows with both, and is what C28 watches.
pub fn bm_limit(max: i64) -> usize {
    match max {
        -2 => 4,
        i64::MIN..=-1 => 100,
        n => (2000 / (n.min(10000) as usize + 1)).clamp(4, 150),
    }
}
/// Longest text for options: short words that are encoded one by one cost little, however many they are.
pub fn bm_limit_for(n: &[i64], s: &str) -> usize {
    let m = bm_limit(n[3]);
    let long = s.split(|c: char| c.is_whitespace() || c == '-').map(|w| w.chars().count()).max().unwrap_or(0);
    if n[2] == 0 && long <= m.min(12) {
        m.max(600)
    } else {
        m
    }
}
pub fn repair_case(c: &mut Case) -> bool {
    if c.k == "bm" {
        for i in 0..2 {
            let m = bm_limit_for(&c.n, &c.s[i]);
            cut_to(&mut c.s[i], m);
        }
    }
    if matches!(c.k.as_str(), "soundex" | "refined") {
        let v: Vec<char> = c.s[2].chars().collect();
        if !v.is_empty() && v.len() != 26 {
            c.s[2] = v.iter().cycle().take(26).collect();
        }
    }
    true
}

/// One encoder per configuration is kept: building is not what these monitors watch.
pub fn cached<T>(c: &Case, f: impl FnOnce(&E) -> Result<T, Stop>) -> Result<T, Stop> {
    use std::cell::RefCell;
    thread_local! { static DM: RefCell<[Option<E>; 2]> = const { RefCell::new([None, None]) }; }
    if c.k == "dm" && c.s[2].is_empty() {
        let i = (c.n[0] != 0) as usize;
        return DM.with(|d| {
            if d.borrow()[i].is_none() {
                d.borrow_mut()[i] = Some(build("dm", &c.n, "")?);
            }
            f(d.borrow()[i].as_ref().unwrap())
        });
    }
    f(&build(&c.k, &c.n, &c.s[2])?)
}

fn kind_ev(k: &str) {
    feature("encoder kinds", KINDS.iter().position(|x| *x == k).unwrap_or(99) as u64);
}

fn wild(g: &mut Gen) -> String {
    match g.rng.below(8) {
        0 => {
            let n = g.rng.range(0, 40);
            (0..n).map(|_| g.special()).collect()
        }
        1 => {
            let n = *g.rng.pick(&[1usize, 2, 3, 5, 7, 64, 255, 256, 257, 1000, 4096]);
            let c = g.any_char();
            std::iter::repeat(c).take(n).collect()
        }
        2 => {
            // one special character at every kind of place
            let c = g.special();
            let mut t = g.token();
            crate::gen::insert_at(&mut t, g.rng.next() as usize, c);
            let l = g.letters(ALPHA, 3);
            g.vary_case(&(l + &t))
        }
        3 => {
            let n = g.rng.range(0, 12);
            (0..n).map(|_| g.any_char()).collect()
        }
        4 => {
            let n = g.rng.range(0, 6);
            (0..n).map(|_| *g.rng.clone().pick(&[' ', '\t', '\n', '\u{a0}', '\u{3000}', '-', '\'', '\u{85}', '\0'])).collect()
        }
        5 => {
            let n = g.rng.range(200, 3000);
            let t = text_for(g, "soundex");
            t.chars().cycle().take(if t.is_empty() { 0 } else { n }).collect()
        }
        _ => text_for(g, "soundex"),
    }
}

/// Every operation on a piece repeated up to a length, on a stack of the size threads have.
fn huge(c: &Case) -> Verdict {
    let n = c.n[0].clamp(1, 3_000_000) as usize;
    let s: String = c.s[0].chars().chain(" ".chars().take(c.s[0].is_empty() as usize)).cycle().take(n).collect();
    let b: String = s.chars().rev().collect();
    struct Shared<'a>(&'a E);
    // one thread at a time
    unsafe impl Send for Shared<'_> {}
    let e = build(&c.k[5..], &c.n[1..], &c.s[1])?;
    let l = LanguageSet::Any;
    sut(&format!("{} {:?} on {n} characters", c.k, c.n), || {
        std::thread::scope(|sc| {
            let e = Shared(&e);
            let (s, b, l) = (&s, &b, &l);
            let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, move || {
                let e = e;
                let mut i = 0;
                while let Some((_, r)) = e.0.op(i, s, b, l) {
                    std::hint::black_box(r);
                    i += 1;
                }
            });
            if let Err(p) = h.unwrap().join() {
                std::panic::resume_unwind(p);
            }
        })
    })?;
    if n > 100_000 {
        ev!("a text of more than 100000 characters");
    }
    Ok(())
}
fn huge_case(k: &str, cfg: &[i64], t: &str, piece: String, thorough: bool) -> Case {
    let n = match k {
        "bm" => 400,
        "meta" => 8_000,
        _ if thorough => 3_000_000,
        _ => 400_000,
    };
    let mut v = vec![n];
    v.extend(cfg);
    Case::t(&format!("huge-{k}"), vec![piece, t.into()], v)
}

/// Encoders that take little time, in the configurations that make a difference to texts.
fn cheap() -> Result<&'static [(&'static str, E)], Stop> {
    thread_local! { static A: std::cell::Cell<Option<&'static [(&'static str, E)]>> = const { std::cell::Cell::new(None) }; }
    if let Some(v) = A.get() {
        return Ok(v);
    }
    let mut v = vec![];
    for (k, n, t) in [
        ("soundex", 1, ""),
        ("soundex", 0, "01230120022455012623010202"),
        ("refined", 0, ""),
        ("cav1", 0, ""),
        ("cav2", 0, ""),
        ("cologne", 0, ""),
        ("meta", 4, ""),
        ("meta", -1, ""),
        ("dmeta", -1, ""),
        ("dmeta", 4, ""),
        ("dmeta", 1, ""),
        ("nysiis", 1, ""),
        ("nysiis", 0, ""),
        ("phonex", 4, ""),
        ("phonex", 0, ""),
        ("mra", 0, ""),
        ("dm", 1, ""),
    ] {
        v.push((k, build(k, &[n], t)?));
    }
    let v = &*Box::leak(v.into_boxed_slice());
    A.set(Some(v));
    Ok(v)
}
/// Every operation of every encoder that takes little time, on a short text and one that goes with it.
fn all(a: &str, b: &str) -> Verdict {
    let v = cheap()?;
    let at = std::cell::Cell::new(("", "", false));
    let r = sut("", || {
        let mut ok = true;
        for (k, e) in v {
            let mut i = 0;
            loop {
                at.set((k, "", ok));
                let Some((n, r)) = e.op(i, a, b, &LanguageSet::Any) else { break };
                if std::str::from_utf8(std::hint::black_box(r.as_bytes())).is_err() {
                    at.set((k, n, false));
                    ok = false;
                }
                i += 1;
            }
        }
        ok
    });
    let (k, n, _) = at.get();
    match r {
        Ok(true) => Ok(()),
        Ok(false) => bad(format!("{k} {n} returned invalid UTF-8 on {a:?} {b:?}")),
        Err(Stop::Violation(m)) => bad(format!("an operation of {k} on {a:?} {b:?}{m}")),
        Err(e) => Err(e),
    }
}
fn all_case(a: String, b: String) -> Case {
    Case::t("all", vec![a, b], vec![])
}

impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "a case is an encoder, a configuration, two hostile texts and a language set; every public operation is called under panic, step, memory and overflow monitors and its result checked to be valid UTF-8; non-trivial: the text has a character outside a-z, or more than 50"
    }
    fn files(&self) -> &'static [&'static str] {
        &ALL_FILES
    }
    fn enumerate(&self, g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        // every short text, for the encoders that take little time
        let letters: Vec<char> = UPPER.chars().collect();
        let more: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdhsz -'.1\tÇÑßéÄœ\u{301}ſ漢".chars().collect();
        let mut i = 0usize;
        for (abc, top) in [(&more, 3), (&letters, if t { 5 } else { 4 })] {
            for len in 0..=top {
                for k in 0..abc.len().pow(len as u32) {
                    i += 1;
                    if i % n != w {
                        continue;
                    }
                    let (mut k, mut s) = (k, String::new());
                    for _ in 0..len {
                        s.push(abc[k % abc.len()]);
                        k /= abc.len();
                    }
                    let b = s.chars().rev().collect();
                    if !f(&all_case(s, b)) {
                        return;
                    }
                }
            }
        }
        // texts of hundreds of thousands of characters
        let toks = g.tokens.clone();
        for r in 0..if t { 12 } else { 3 } {
            for (i, k) in KINDS.iter().enumerate() {
                let piece = match r {
                    0 => "ab".into(),
                    1 => g.rng.clone().pick(&toks).clone() + "a",
                    _ => {
                        let n = g.rng.range(1, 9);
                        (0..n).map(|_| if g.rng.chance(1, 4) { g.special() } else { *g.rng.clone().pick(&letters) }).collect()
                    }
                };
                g.rng.next();
                let (cn, tx): (&[i64], _) = match *k {
                    "bm" => (&[1, 1, 1, 2, 0], ""),
                    "meta" | "dmeta" => (&[-1], ""),
                    "phonex" => (&[100], ""),
                    _ => (&[1], ""),
                };
                if (i + r) % n == w && !f(&huge_case(k, cn, tx, piece, t)) {
                    return;
                }
            }
        }
        // literals of the sources, two after each other and in other letters
        let toks = g.tokens.clone();
        for (i, a) in toks.iter().enumerate() {
            for (j, b) in toks.iter().enumerate() {
                if (i + j) % n == w && !f(&all_case(format!("{a}{b}"), a.clone())) {
                    return;
                }
                for c in ["A", "S", "H", "T", "é", " "] {
                    if (i * 7 + j) % n == w && (t || (i + j) % 8 == 0) && !f(&all_case(format!("{a}{c}{b}"), format!("{c}{a}"))) {
                        return;
                    }
                }
            }
        }
        // every character of Unicode up to a bound, alone and beside letters, for every encoder
        let top = if t { 0x20000 } else { 0x2600 };
        for x in (0..top).filter(|x| x % n as u32 == w as u32) {
            let Some(c) = char::from_u32(x) else { continue };
            for (i, k) in KINDS.iter().enumerate() {
                if *k == "bm" && x % 7 != 0 && !t {
                    continue;
                }
                let (cn, tx) = config_of(g, k);
                let s = match (x as usize / n + i) % 4 {
                    0 => c.to_string(),
                    1 => format!("{c}ab"),
                    2 => format!("sc{c}h"),
                    _ => format!("ma{c}"),
                };
                if !f(&Case::t(k, vec![s, format!("a{c}"), tx, "*".into()], cn)) {
                    return;
                }
            }
        }
        // every literal of the sources cut by a character that is long in UTF-8
        let toks = g.tokens.clone();
        for (i, tk) in toks.iter().enumerate() {
            if i % n != w {
                continue;
            }
            for k in KINDS.iter() {
                let (cn, tx) = config_of(g, k);
                for p in 0..=tk.chars().count() {
                    for c in ['é', 'ß', '𝒶', '\u{301}'] {
                        let mut s = tk.clone();
                        crate::gen::insert_at(&mut s, p, c);
                        if !f(&Case::t(k, vec![s.clone(), s.to_lowercase(), tx.clone(), "".into()], cn.clone())) {
                            return;
                        }
                    }
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        if g.rng.chance(1, 40) {
            let n = gen_opt(g);
            return Case::t("bmdir", gen_dir_parts(g), n);
        }
        if g.rng.chance(1, 40) {
            let (mut n, t) = config_of(g, "bm");
            n[2] = 0;
            let l = gen_langs(g, &LANGS);
            return Case::t("bm", vec![super::bmp::many_words(g), super::bmp::many_words(g), t, l], n);
        }
        if g.rng.chance(9, 10) {
            let a = if g.rng.chance(1, 4) { wild(g) } else { text_for(g, "soundex") };
            let b = if g.rng.chance(1, 2) { near(g, &a) } else { text_for(g, "soundex") };
            return all_case(a, b);
        }
        let mut c = gen_case(g);
        if g.rng.chance(2, 3) {
            c.s[0] = wild(g);
        }
        if g.rng.chance(1, 4) {
            c.s[1] = wild(g);
        }
        if c.k == "dm" && g.rng.chance(1, 3) {
            c.s[2] = super::dmp::rule_set(g);
        }
        if c.k == "bm" && g.rng.chance(1, 12) {
            c.n[3] = *g.rng.pick(&[0, 1, 1000, i64::MAX]);
        }
        if c.k == "phonex" && g.rng.chance(1, 12) {
            c.n[0] = *g.rng.pick(&[0, 1, 2, 5000]);
        }
        c
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if c.k == "all" {
            let i = g.rng.below(4) / 3;
            let mut s = std::mem::take(&mut c.s[i]);
            g.mutate_str(&mut s, ALPHA);
            c.s[i] = s;
        } else if c.k.starts_with("huge-") {
            c.n[0] = 1000;
            g.mutate_str(&mut c.s[0], ALPHA);
        } else if c.k == "bmdir" {
            g.mutate_str(&mut c.s[0], "ABCDE -'");
        } else if g.rng.chance(1, 5) {
            c.s[0] = wild(g);
        } else {
            mutate_case(g, c);
        }
    }
    fn repair(&self, c: &mut Case) -> bool {
        if c.k.starts_with("huge-") {
            cut_to(&mut c.s[0], 200);
            return c.s.len() == 2;
        }
        if c.k == "all" {
            cut_to(&mut c.s[0], 1100);
            cut_to(&mut c.s[1], 200);
            return c.s.len() == 2;
        }
        if c.k == "bmdir" {
            cut_to(&mut c.s[0], 400);
            return c.s.len() == 10;
        }
        if c.s.len() != 4 {
            return false;
        }
        if c.k == "bm" && c.n[3] > 60 {
            cut_to(&mut c.s[0], 4);
            cut_to(&mut c.s[1], 4);
        }
        if c.k == "dm" && !c.s[2].is_empty() {
            if c.s[2].matches('|').count() > 40 {
                return false;
            }
            cut_to(&mut c.s[0], 60);
            cut_to(&mut c.s[1], 60);
        }
        repair_case(c);
        cut_to(&mut c.s[0], 5000);
        cut_to(&mut c.s[1], 5000);
        true
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        o.nontrivial = c.s[0].chars().any(|c| !c.is_ascii_lowercase()) || c.s[0].len() > 50;
        if c.k == "all" {
            ev!("a text for every encoder but Beider-Morse");
            return all(&c.s[0], &c.s[1]);
        }
        if c.k.starts_with("huge-") {
            return huge(c);
        }
        kind_ev(&c.k);
        if c.k == "bmdir" {
            let d = super::bmp::dir_of(&c.s);
            let p = super::bmp::scratch();
            super::bmp::write_dir(&p, &d)?;
            if let Ok(cf) = sut("ConfigFiles::new", || ConfigFiles::new(&p))? {
                ev!("generated Beider-Morse rules");
                for t in c.s[0].split('\n') {
                    let e = super::bmp::encoder(&cf, super::bmp::opt(&c.n));
                    sut("Beider-Morse operations", || {
                        (e.encode(t), e.encode_with_languages(t, &LanguageSet::Any), e.encode_with_languages(t, &LanguageSet::NoLanguages))
                    })?;
                }
            }
            return Ok(());
        }
        let e = if c.k == "phonex" || c.k == "dm" { build(&c.k, &c.n, &c.s[2])? } else { build(&c.k, &c.n, &c.s[2])? };
        let l = langs(&c.s[3]);
        let mut i = 0;
        while let Some((n, r)) = sut(&format!("{} {:?} on {:?}", c.k, c.n, c.s[0].chars().take(200).collect::<String>()), || e.op(i, &c.s[0], &c.s[1], &l))? {
            if std::str::from_utf8(std::hint::black_box(r.as_bytes())).is_err() {
                return bad(format!("{} {n} returned invalid UTF-8 {:?}", c.k, r.as_bytes()));
            }
            if i == 0 {
                o.note(|| format!("{} {:?} -> {r:?}", c.k, c.n));
            }
            i += 1;
        }
        if c.s[0].chars().count() > 1000 {
            ev!("long text");
        }
        Ok(())
    }
    fn minimum(&self) -> (u64, u64) {
        (20000, 5000)
    }
    fn seconds(&self) -> (u64, u64) {
        (30, 900)
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["a text of more than 100000 characters", "long text", "generated Beider-Morse rules", "a text for every encoder but Beider-Morse"]
    }
}

fn only(s: &str, set: &str) -> bool {
    s.chars().all(|c| set.contains(c))
}

impl Prop for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "a case is an encoder, a configuration and a text; length and alphabet of every code are checked; non-trivial: a code of two characters or more"
    }
    fn files(&self) -> &'static [&'static str] {
        &ALL_FILES
    }
    fn enumerate(&self, _g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        let a: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZ".chars().collect();
        for k in KINDS {
            let len = match (k, t) {
                ("bm", _) => 1,
                ("dm", false) => 2,
                (_, true) => 4,
                _ => 3,
            };
            let cn: &[i64] = match k {
                "bm" => &[1, 0, 1, 20, 0],
                "nysiis" | "soundex" | "dm" => &[1],
                _ => &[4],
            };
            for l in 0..=len {
                if !all_strings(&a, l, w, n, &mut |s| f(&Case::t(k, vec![s, String::new(), String::new(), "*".into()], cn.to_vec()))) {
                    return;
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        gen_case(g)
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        mutate_case(g, c)
    }
    fn repair(&self, c: &mut Case) -> bool {
        c.s.len() == 4 && repair_case(c)
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        kind_ev(&c.k);
        let s = &c.s[0];
        let r = cached(c, |e| {
            Ok(match e {
                E::DMeta(d) => {
                    let r = sut("double_metaphone", || d.double_metaphone(s))?;
                    vec![r.primary(), r.alternate()]
                }
                E::Dm(d) => sut("inner_soundex", || d.inner_soundex(s, true))?,
                e => vec![sut("encode", || e.encode(s))?],
            })
        })?;
        o.note(|| format!("{} {s:?} -> {r:?}", c.k));
        let n0 = c.n.first().copied().unwrap_or(0);
        for x in &r {
            let len = x.chars().count();
            o.nontrivial |= len > 1;
            let mut it = x.chars();
            it.next();
            let rest = it.as_str();
            let default_map = c.s[2].is_empty();
            let ok = match c.k.as_str() {
                "soundex" => (len == 4 && (!default_map || only(rest, "0123456"))) || (len == 0 && !s.chars().any(|c| c.is_alphabetic())),
                "refined" => (len > 0 && (!default_map || only(rest, "0123456789"))) || (len == 0 && !s.chars().any(|c| c.is_alphabetic())),
                "cav1" => len == 6 && only(x, "AFHKLMNPRSTWY1"),
                "cav2" => len == 10 && only(x, "AFHKLMNPRSTWY1"),
                "cologne" => only(x, "012345678") && only(rest, "12345678"),
                "meta" => {
                    (max(n0).is_none_or(|m| len <= m) && only(x, "0ABEFHIJKLMNOPRSTUWXY")) || s.chars().count() == 1
                }
                "dmeta" => max(n0).is_none_or(|m| len <= m) && only(x, "0AFHJKLMNPRSTX "),
                "nysiis" => n0 == 0 || len <= 6,
                "phonex" => len == n0.clamp(0, 5000) as usize && only(rest, "0123456"),
                "mra" => len <= 6 && !x.chars().any(|c| " -&'.,".contains(c)) && !rest.chars().any(|c| "AEIOU".contains(c)),
                "dm" => len == 6 && only(x, "0123456789"),
                _ => true,
            };
            if !ok {
                return bad(format!("{} {:?} {:?} of {s:?} gives {x:?}: wrong length or alphabet", c.k, c.n, c.s[2]));
            }
        }
        Ok(())
    }
}

/// Two lengths, the second one not shorter; sometimes around powers of two.
fn lengths(g: &mut Gen, k: &str) -> Vec<i64> {
    let m = match g.rng.below(10) {
        0 => g.boundary(1100) as i64,
        _ => g.rng.below(9) as i64,
    };
    let l = match g.rng.below(30) {
        0 => g.boundary(1100) as i64,
        1 => (1i64 << g.rng.range(7, 17)) - 1 + g.rng.below(3) as i64,
        2 if k != "phonex" => {
            let x = (1i64 << g.rng.range(7, 62)) - 1 + g.rng.below(3) as i64;
            *g.rng.pick(&[x, i64::MAX, i64::MAX - 1])
        }
        _ => m + g.rng.below(12) as i64,
    };
    if g.rng.chance(1, 4) {
        vec![l, l]
    } else {
        vec![m, l.max(m)]
    }
}

impl Prop for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "a case is an encoder with a length limit, a text and two lengths; the limited codes are compared with the cut unlimited (or longer) code; non-trivial: the limit cuts something"
    }
    fn files(&self) -> &'static [&'static str] {
        &["src/metaphone.rs", "src/double_metaphone.rs", "src/nysiis.rs", "src/phonex.rs", "src/lib.rs"]
    }
    fn enumerate(&self, g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        let a: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZ".chars().collect();
        for (k, m) in [("meta", 2), ("meta", 1), ("dmeta", 1), ("dmeta", 2), ("nysiis", 0), ("phonex", 2)] {
            for l in 0..=(if t { 5 } else { 3 }) {
                if !all_strings(&a, l, w, n, &mut |s| f(&Case::t(k, vec![s], vec![m, 9]))) {
                    return;
                }
            }
            let one = strings("ABCDEFGHIKLMNOPRSTUVWXZ", 1);
            if !contexts(g, &one, &strings("AEISTHCNX", 2), w, n, &mut |s| f(&Case::t(k, vec![s], vec![m + 1, 7]))) {
                return;
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let k = *g.rng.pick(&["meta", "dmeta", "dmeta", "nysiis", "phonex"]);
        let s = text_for(g, k);
        Case::t(k, vec![s], lengths(g, k))
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if g.rng.chance(1, 4) {
            c.n = lengths(g, &c.k.clone());
        } else {
            g.mutate_str(&mut c.s[0], ALPHA);
        }
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        kind_ev(&c.k);
        let s = &c.s[0];
        let long = |n: i64| if n == i64::MAX { usize::MAX } else { n.max(0) as usize };
        let (mut m, mut l) = (long(c.n[0]), long(c.n[1].max(c.n[0])));
        if c.k == "phonex" {
            // the code has this length
            (m, l) = (m.min(70_000), l.min(70_000));
        }
        let cut = |s: &str, n: usize| s.chars().take(n).collect::<String>();
        let fail = |what: &str, short: &str, long: &str| bad(format!("{what} of {s:?}: {short:?} is not the beginning of {long:?}"));
        match c.k.as_str() {
            "meta" => {
                if s.chars().count() <= 1 {
                    return Ok(());
                }
                let full = sut("encode", || Metaphone::new(None).encode(s))?;
                for n in [m, l] {
                    let x = sut("encode", || Metaphone::new(Some(n)).encode(s))?;
                    o.nontrivial |= x != full;
                    if x != cut(&full, n) {
                        return fail(&format!("Metaphone({n})"), &x, &full);
                    }
                }
            }
            "dmeta" => {
                let full = sut("double_metaphone", || DoubleMetaphone::new(None).double_metaphone(s))?;
                for n in [m, l] {
                    let x = sut("double_metaphone", || DoubleMetaphone::new(Some(n)).double_metaphone(s))?;
                    o.nontrivial |= x.primary() != full.primary();
                    if x.primary() != cut(&full.primary(), n) {
                        return fail(&format!("DoubleMetaphone({n}) primary"), &x.primary(), &full.primary());
                    }
                    if x.alternate() != cut(&full.alternate(), n) {
                        return fail(&format!("DoubleMetaphone({n}) alternate"), &x.alternate(), &full.alternate());
                    }
                }
            }
            "nysiis" => {
                let full = sut("encode", || Nysiis::new(false).encode(s))?;
                let x = sut("encode", || Nysiis::new(true).encode(s))?;
                o.nontrivial |= x != full;
                if x != cut(&full, 6) {
                    return fail("strict Nysiis", &x, &full);
                }
            }
            _ => {
                let full = sut("encode", || Phonex::new(l).encode(s))?;
                let x = sut("encode", || Phonex::new(m).encode(s))?;
                o.nontrivial |= x != full;
                if x != cut(&full, m) {
                    return fail(&format!("Phonex({m})"), &x, &full);
                }
            }
        }
        o.note(|| format!("{} {:?} {s:?}", c.k, c.n));
        Ok(())
    }
}

/// A character that an encoder ignores wherever it is, or None.
fn ignorable(g: &mut Gen, k: &str) -> Option<char> {
    for _ in 0..30 {
        let c = if g.rng.chance(1, 2) { *g.rng.clone().pick(&g.noise) } else { g.special() };
        g.rng.next();
        if ignored(k, c) {
            return Some(c);
        }
    }
    None
}
fn ignored(k: &str, c: char) -> bool {
    match k {
        "soundex" | "refined" | "nysiis" | "phonex" => !c.is_alphabetic(),
        "cav1" | "cav2" => !c.to_lowercase().any(|x| x.is_ascii_lowercase()),
        "mra" => "-'&., \t".contains(c),
        "dm" => c.is_whitespace(),
        _ => false,
    }
}

impl Prop for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "a case is an encoder, a configuration, a text and a seed that chooses case changes and insertions of ignorable characters; the codes of both texts are compared; non-trivial: the texts differ and the code isn't empty"
    }
    fn files(&self) -> &'static [&'static str] {
        &ALL_FILES
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let mut c = gen_case(g);
        c.s[1] = String::new();
        for _ in 0..g.rng.range(0, 4) {
            if let Some(x) = ignorable(g, &c.k) {
                c.s[1].push(x);
            }
        }
        c.n.push(g.rng.next() as i64 & 0x7fffffff);
        c
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if g.rng.chance(1, 4) {
            let l = c.n.len() - 1;
            c.n[l] = g.rng.next() as i64 & 0x7fffffff;
            if let Some(x) = ignorable(g, &c.k) {
                c.s[1].push(x);
            }
        } else {
            g.mutate_str(&mut c.s[0], ALPHA);
        }
    }
    fn repair(&self, c: &mut Case) -> bool {
        if c.s.len() != 4 || c.s[1].chars().count() > 8 || !c.s[1].chars().all(|x| ignored(&c.k, x)) {
            return false;
        }
        repair_case(c)
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        kind_ev(&c.k);
        let s = &c.s[0];
        let mut g = crate::gen::Rng::new(*c.n.last().unwrap() as u64);
        let mode = g.below(4);
        let mut t: String = s
            .chars()
            .map(|c| match mode {
                0 => c.to_ascii_uppercase(),
                1 => c.to_ascii_lowercase(),
                2 => c,
                _ => {
                    if g.chance(1, 2) {
                        c.to_ascii_uppercase()
                    } else {
                        c.to_ascii_lowercase()
                    }
                }
            })
            .collect();
        if c.k == "dmeta" {
            if g.chance(1, 2) {
                t = format!("{}{t}{}", ["", " ", "\t ", "\u{a0}"][g.below(4)], ["", " ", "\n", "  "][g.below(4)]);
            }
        } else if c.k != "mra" || s.trim().chars().count() > 1 {
            for x in c.s[1].chars() {
                crate::gen::insert_at(&mut t, g.next() as usize, x);
            }
        }
        if t == *s {
            return Ok(());
        }
        let (a, b) = cached(c, |e| {
            sut("encode", || match e {
                E::DMeta(d) => {
                    let (x, y) = (d.double_metaphone(s), d.double_metaphone(&t));
                    (format!("{} {}", x.primary(), x.alternate()), format!("{} {}", y.primary(), y.alternate()))
                }
                E::Dm(d) => (d.soundex(s), d.soundex(&t)),
                e => (e.encode(s), e.encode(&t)),
            })
        })?;
        o.nontrivial = !a.trim().is_empty();
        o.note(|| format!("{}: {s:?} and {t:?} -> {a:?}", c.k));
        if a != b {
            return bad(format!("{} {:?}: {s:?} gives {a:?} but {t:?} gives {b:?}", c.k, c.n));
        }
        Ok(())
    }
}

/// An encoder as a user of the traits writes one.
struct User(i64);
impl Encoder for User {
    fn encode(&self, s: &str) -> String {
        match self.0.rem_euclid(4) {
            0 => s.to_string(),
            1 => s.to_uppercase(),
            2 => s.chars().rev().filter(|c| !c.is_whitespace()).collect(),
            _ => s.chars().take(4).collect(),
        }
    }
}
impl SoundexCommons for User {}
fn user(mode: i64, a: &str, b: &str, o: &mut Obs) -> Verdict {
    o.nontrivial = a != b;
    let e = User(mode);
    let dynamic: &dyn Encoder = &e;
    let (x, y) = (e.encode(a), e.encode(b));
    let same = x.chars().zip(y.chars()).filter(|(p, q)| p == q).count();
    o.note(|| format!("user {mode}: {x:?}, {y:?}: {same}"));
    let r = sut("is_encoded_equals", || [e.is_encoded_equals(a, b), e.is_encoded_equals(b, a), dynamic.is_encoded_equals(a, b)])?;
    if r != [x == y; 3] || !sut("is_encoded_equals", || e.is_encoded_equals(a, a) && e.is_encoded_equals(b, b))? {
        return bad(format!("a user's encoder gives {x:?} and {y:?} for {a:?} and {b:?}, is_encoded_equals gives {r:?}"));
    }
    let d = sut("difference", || [e.difference(a, b), e.difference(b, a), e.difference(a, a), e.difference(b, b)])?;
    if d != [same, same, x.chars().count(), y.chars().count()] {
        return bad(format!("a user's encoder gives {x:?} and {y:?} for {a:?} and {b:?}, alike at {same} places; difference, both ways and with themselves: {d:?}"));
    }
    if x != y {
        ev!("a user's encoder compared");
    }
    Ok(())
}

impl Prop for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "a case is an encoder, a configuration and a pair of texts (often with equal codes); comparisons and differences in both orders are compared with the codes; non-trivial: different texts"
    }
    fn files(&self) -> &'static [&'static str] {
        &ALL_FILES
    }
    fn enumerate(&self, g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        let mut i = 0;
        let mut go = |k: &str, a: &str, b: String, n0: i64| {
            i += 1;
            i % n != w || f(&Case::t(k, vec![a.to_string(), b, String::new(), "*".into()], vec![n0]))
        };
        // a user's encoder: pairs of short codes, with characters of every size
        let short = strings("aAé漢😀 ", if t { 4 } else { 2 });
        for a in &short {
            for b in &short {
                if a.chars().count() + b.chars().count() < 7 && (0..4).any(|m| !go("user", a, b.clone(), m)) {
                    return;
                }
            }
        }
        // each literal of the sources, and the same one edit away
        let tokens = g.tokens.clone();
        for x in &tokens {
            let v: Vec<char> = x.chars().collect();
            if v.len() > 12 {
                continue;
            }
            let mut near: Vec<String> = vec![x.to_lowercase(), x.to_uppercase(), format!("{x}s"), format!("{x}e"), format!("{x} "), format!("a{x}")];
            for p in 0..v.len() {
                let with = |u: &[char]| v[..p].iter().chain(u).chain(&v[p + 1..]).collect::<String>();
                near.extend([with(&[]), with(&[v[p], v[p]]), with(&['h']), with(&[v[p], 'é'])]);
            }
            for b in near {
                for k in &KINDS[..9] {
                    if !go(k, x, b.clone(), 4) {
                        return;
                    }
                }
                if t && !go("dm", x, b, 1) {
                    return;
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let mut c = gen_case(g);
        if g.rng.chance(1, 8) {
            let a = wild(g);
            let b = if g.rng.chance(2, 3) { near(g, &a) } else { wild(g) };
            return Case::t("user", vec![a, b, String::new(), "*".into()], vec![g.rng.below(4) as i64]);
        }
        match g.rng.below(6) {
            0 => c.s[1] = c.s[0].to_ascii_lowercase(),
            1 => {
                // drop or double vowels and h: equal codes are likely
                let v: Vec<char> = c.s[0].chars().collect();
                c.s[1] = v.iter().filter(|c| !"aeiouhwyAEIOUHWY".contains(**c)).collect();
            }
            2 => {
                c.s[1] = c.s[0].clone() + g.rng.clone().pick(&["e", "a", "h", "s", " ", "t", "x"]);
            }
            _ => {}
        }
        c
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if c.k == "user" {
            let i = g.rng.below(2);
            return g.mutate_str(&mut c.s[i], ALPHA);
        }
        mutate_case(g, c)
    }
    fn repair(&self, c: &mut Case) -> bool {
        c.s.len() == 4 && repair_case(c)
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        kind_ev(&c.k);
        let (a, b) = (&c.s[0], &c.s[1]);
        if c.k == "user" {
            return user(c.n[0], a, b, o);
        }
        if c.k == "mra" {
            // its comparison is C13
            return Ok(());
        }
        o.nontrivial = a != b;
        cached(c, |e| {
            let (x, y) = sut("encode", || (e.encode(a), e.encode(b)))?;
            let want = x == y;
            if want && a != b {
                ev!("compare: equal codes of different texts");
            }
            o.note(|| format!("{}: {a:?} -> {x:?}, {b:?} -> {y:?}", c.k));
            let (p, q, ra, rb) = sut("is_encoded_equals", || (e.equal(a, b), e.equal(b, a), e.equal(a, a), e.equal(b, b)))?;
            if p != want || q != want || !ra || !rb {
                return bad(format!("{}: codes {x:?} and {y:?} of {a:?} and {b:?}, but is_encoded_equals gives {p}, exchanged {q}, with itself {ra} {rb}", c.k));
            }
            let diff = |d: &dyn Fn(&str, &str) -> usize| -> Verdict {
                let want = x.chars().zip(y.chars()).filter(|(p, q)| p == q).count();
                let (p, q, r) = sut("difference", || (d(a, b), d(b, a), d(a, a)))?;
                if want > 0 {
                    ev!("compare: some difference");
                }
                if p != want || q != want || r != x.chars().count() {
                    return bad(format!("{}: codes {x:?} and {y:?} of {a:?} and {b:?} agree at {want} places, difference gives {p}, exchanged {q}, with itself {r}", c.k));
                }
                Ok(())
            };
            match e {
                E::Soundex(e) => diff(&|a, b| e.difference(a, b)),
                E::Refined(e) => diff(&|a, b| e.difference(a, b)),
                E::DMeta(e) => {
                    let (x, y) = sut("double_metaphone", || (e.double_metaphone(a), e.double_metaphone(b)))?;
                    for alt in [false, true] {
                        let want = if alt { x.alternate() == y.alternate() } else { x.primary() == y.primary() };
                        let (p, q) = sut("is_double_metaphone_equal", || (e.is_double_metaphone_equal(a, b, alt), e.is_double_metaphone_equal(b, a, alt)))?;
                        if p != want || q != want {
                            return bad(format!("{x} and {y} of {a:?} and {b:?}: is_double_metaphone_equal (alternate {alt}) gives {p}, exchanged {q}"));
                        }
                    }
                    Ok(())
                }
                _ => Ok(()),
            }
        })
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["compare: equal codes of different texts", "compare: some difference", "a user's encoder compared"]
    }
}
