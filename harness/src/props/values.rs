//! C24 to C27 and C30: values, configurations and their constructors.
use super::bmp::{bm_text, gen_langs, gen_opt, LANGS};
use super::cross::{config_of, mapping_text, text_for};
use super::*;
use crate::bm;
use crate::core::{bad, feature, harness_error, sut, Obs, Prop, Stop, Verdict};
use crate::enc::{assets, build, langs, mapping, DM_RULES, E, KINDS, NAME_TYPES, RULE_TYPES};
use crate::{dm, ev};
use rphonetic::*;
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::convert::TryFrom;
use std::rc::Rc;

pub struct C24;
pub struct C25;
pub struct C26;
pub struct C27;
pub struct C30;

fn bound(g: &mut Gen, len: usize) -> i64 {
    match g.rng.below(12) {
        0 => return *g.rng.pick(&[i64::MAX, -1, -2, -3, i64::MIN, i64::MIN + 1, i64::MAX - 1, 1 << 62, -(1 << 32), -(1 << 62)]),
        1 => {
            let p = 1i64 << *g.rng.pick(&[7u32, 8, 15, 16, 24, 31, 32, 33, 48, 63 - 1]);
            p + g.rng.range(0, 4) as i64 - 2
        }
        2 => g.rng.range(0, 70) as i64,
        3 => len as i64,
        4 => len as i64 + 1,
        5 => len as i64 - 1,
        _ => g.rng.below(len + 3) as i64,
    }
    .max(0)
}
/// i64::MAX stands for the largest position usable everywhere; negative numbers for those of the upper half.
fn position(n: i64) -> usize {
    match n {
        i64::MAX => usize::MAX - 1,
        n => n as usize,
    }
}

impl Prop for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "a case is a text and two positions; the six kinds of ranges over them are compared with the list of characters, and the range is cut again; non-trivial: a text that isn't ASCII"
    }
    fn files(&self) -> &'static [&'static str] {
        &["src/helper.rs"]
    }
    fn enumerate(&self, g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        let a = ['a', 'é', '漢', '😀'];
        // long texts, near powers of two
        let mut i = 0;
        for len in [127i64, 255, 256, 1024, 4096, 32768, 65535, 65536, 70_000] {
            for x in ["a", "é", "a漢", "😀"] {
                for (p, q) in [(0, len), (len - 1, len), (len - 3, -1), (1, len - 1), (len / 2, len + 5), (len, len + 1)] {
                    i += 1;
                    if i % n != w || (len > 40_000 && x.len() > 2 && p == 1) {
                        continue;
                    }
                    let s: String = x.chars().cycle().take(len as usize).collect();
                    if !f(&Case::t("", vec![s], vec![p, q])) {
                        return;
                    }
                }
            }
        }
        for len in 0..=(if t { 7 } else { 5 }) {
            let go = all_strings(&a, len, w, n, &mut |s| {
                for p in 0..=(len + 2) as i64 {
                    for q in 0..=(len + 2) as i64 {
                        if !f(&Case::t("", vec![s.clone()], vec![p, q])) {
                            return false;
                        }
                    }
                }
                let far = [i64::MAX, -1, -2, i64::MIN, 1 << 32, (1 << 32) - 1, 1 << 31, (1 << 31) - 1];
                for p in far {
                    for q in far.into_iter().chain([0, 1, len as i64]) {
                        if !f(&Case::t("", vec![s.clone()], vec![p, q])) || !f(&Case::t("", vec![s.clone()], vec![q, p])) {
                            return false;
                        }
                    }
                }
                true
            });
            if !go {
                return;
            }
        }
        // every character, between two others
        let top = if t { 0x110000 } else { 0x20000 };
        for x in (0..top).filter(|x| x % n as u32 == w as u32) {
            let Some(c) = char::from_u32(x) else { continue };
            let k = g.rng.below(4) as i64;
            if !f(&Case::t("", vec![format!("x{c}é")], vec![k, k + 1])) {
                return;
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let s: String = match g.rng.below(3) {
            0 => text_for(g, "soundex"),
            1 => {
                let n = g.rng.range(0, 24);
                (0..n).map(|_| g.special()).collect()
            }
            _ => {
                let n = if g.rng.chance(1, 20) { 3000 } else { 40 };
                let mut n = g.rng.below(n);
                if g.rng.chance(1, 40) {
                    n = *g.rng.pick(&[127usize, 255, 256, 1023, 4095, 32767, 65535, 65536]) + g.rng.below(3);
                    if n > 5000 && g.rng.chance(9, 10) {
                        n %= 300;
                    }
                }
                (0..n).map(|_| g.any_char()).collect()
            }
        };
        let len = s.chars().count();
        let (a, b) = (bound(g, len), bound(g, len));
        Case::t("", vec![s], vec![a, b])
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if g.rng.chance(1, 2) {
            let len = c.s[0].chars().count();
            let k = g.rng.below(2);
            c.n[k] = bound(g, len);
        } else {
            g.mutate_str(&mut c.s[0], "aé漢😀");
        }
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        let s = &c.s[0];
        let v: Vec<char> = s.chars().collect();
        o.nontrivial = !s.is_ascii();
        let (a, b) = (position(c.n[0]), position(c.n[1]));
        let cs = sut("CharSequence::from", || CharSequence::from(s.as_str()))?;
        let want = |a: usize, b: usize| -> String { v.iter().enumerate().filter(|(i, _)| a <= *i && *i < b).map(|(_, c)| *c).collect() };
        let expect = |what: String, got: &str, want: String| -> Verdict {
            if got != want {
                return bad(format!("CharSequence {s:?} [{what}] = {got:?}, not {want:?}"));
            }
            Ok(())
        };
        let r = sut("a..b", || &cs[a..b])?;
        expect(format!("{a}..{b}"), r, want(a, b))?;
        o.note(|| format!("{s:?}[{a}..{b}] = {r:?}"));
        expect(format!("{a}.."), sut("a..", || &cs[a..])?, want(a, usize::MAX))?;
        expect("..".into(), sut("..", || &cs[..])?, s.clone())?;
        if b < usize::MAX {
            expect(format!("{a}..={b}"), sut("a..=b", || &cs[a..=b])?, want(a, b + 1))?;
            expect(format!("..={b}"), sut("..=b", || &cs[..=b])?, want(0, b + 1))?;
        }
        expect(format!("..{b}"), sut("..b", || &cs[..b])?, want(0, b))?;
        let (len, empty, as_str, shown) = sut("len, is_empty, as_str, Display", || (cs.len(), cs.is_empty(), cs.as_str().to_string(), format!("{cs}")))?;
        if len != v.len() || empty != v.is_empty() {
            return bad(format!("{s:?}: len {len}, is_empty {empty}"));
        }
        let back: &str = sut("into &str", || cs.clone().into())?;
        if as_str != *s || shown != *s || back != s {
            return bad(format!("{s:?}: as_str {as_str:?}, printed {shown:?}, converted back {back:?}"));
        }
        // a part of a part
        let p = CharSequence::from(r);
        let k = (a ^ b) % 5;
        if p.len() != want(a, b).chars().count() {
            return bad(format!("{r:?}: len {}", p.len()));
        }
        let q = sut("k..", || p[k..].to_string())?;
        expect(format!("{a}..{b}][{k}.."), &q, want(a, b).chars().skip(k).collect())?;
        match (a < b, a < v.len(), b <= v.len()) {
            (false, _, _) => ev!("range: empty or reversed"),
            (_, false, _) => ev!("range: begins past the end"),
            (_, _, false) => ev!("range: ends past the end"),
            _ => ev!("range: inside"),
        }
        Ok(())
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["range: empty or reversed", "range: begins past the end", "range: ends past the end", "range: inside"]
    }
}

// ---------------------------------------------------------------- C25
/// What a set denotes; None is the universe.
type Den = Option<BTreeSet<String>>;
fn den(l: &LanguageSet) -> Den {
    match l {
        LanguageSet::Any => None,
        LanguageSet::NoLanguages => Some(BTreeSet::new()),
        LanguageSet::SomeLanguages(s) => Some(s.clone()),
    }
}
fn meet(a: &Den, b: &Den) -> Den {
    match (a, b) {
        (None, x) | (x, None) => x.clone(),
        (Some(a), Some(b)) => Some(a.iter().filter(|x| b.contains(*x)).cloned().collect()),
    }
}
fn join(a: &Den, b: &Den) -> Den {
    match (a, b) {
        (None, _) | (_, None) => None,
        (Some(a), Some(b)) => Some(a.iter().chain(b.iter()).cloned().collect()),
    }
}
fn gen_set(g: &mut Gen) -> String {
    const L: [&str; 10] = ["a", "b", "c", "french", "German", "any", "é", "", "french ", "fr"];
    match g.rng.below(10) {
        0 => "*".into(),
        1 => "".into(),
        2 => "#".into(),
        3 => "##".into(),
        4 => {
            // a large one
            let n = g.rng.range(5, 90);
            let (from, step) = (g.rng.below(40), g.rng.range(1, 3));
            let v: Vec<String> = (0..n).map(|i| format!("l{}", from + i * step)).collect();
            format!("{}{}", if g.rng.chance(1, 2) { "!" } else { "+" }, v.join("+"))
        }
        _ => {
            let n = g.rng.range(1, 5);
            let v: Vec<&str> = (0..n).map(|_| *g.rng.pick(&L)).collect();
            format!("{}{}", if g.rng.chance(1, 2) { "!" } else { "+" }, v.join("+"))
        }
    }
}
/// '#': an empty set made from a vector, '##': from a BTreeSet, '+': from a vector, '!': from a BTreeSet.
fn set(s: &str) -> (LanguageSet, Den) {
    let parts = |r: &str| r.split('+').map(|x| x.to_string()).collect::<BTreeSet<String>>();
    match s {
        "*" => (LanguageSet::Any, None),
        "" => (LanguageSet::NoLanguages, Some(BTreeSet::new())),
        "#" => (LanguageSet::from(Vec::<&str>::new()), Some(BTreeSet::new())),
        "##" => (LanguageSet::from(BTreeSet::new()), Some(BTreeSet::new())),
        s => match s.strip_prefix('!') {
            Some(r) => (LanguageSet::from(parts(r)), Some(parts(r))),
            None => {
                let r = s.strip_prefix('+').unwrap_or(s);
                (LanguageSet::from(r.split('+').collect::<Vec<_>>()), Some(parts(r)))
            }
        },
    }
}

impl Prop for C25 {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "a case is three language sets; the operations and their compositions are compared with sets of strings with a universe; non-trivial: three different sets"
    }
    fn files(&self) -> &'static [&'static str] {
        &["src/beider_morse/languages.rs"]
    }
    fn enumerate(&self, _g: &mut Gen, _t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        let mut v: Vec<String> = ["*", "", "#", "##"].iter().map(|s| s.to_string()).collect();
        for m in 1..16 {
            let l: Vec<&str> = ["any", "b", "fr", "french"].iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, l)| *l).collect();
            v.push(format!("+{}", l.join("+")));
            v.push(format!("!{}", l.join("+")));
        }
        let mut i = 0;
        for a in &v {
            for b in &v {
                for c in &v {
                    i += 1;
                    if i % n == w && !f(&Case::t("", vec![a.clone(), b.clone(), c.clone()], vec![])) {
                        return;
                    }
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        Case::t("", (0..3).map(|_| gen_set(g)).collect(), vec![])
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        let k = g.rng.below(3);
        c.s[k] = gen_set(g);
    }
    fn shrink(&self) -> bool {
        false
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        let s: Vec<(LanguageSet, Den)> = sut("construction", || c.s.iter().map(|s| set(s)).collect())?;
        o.nontrivial = s[0].1 != s[1].1 && s[1].1 != s[2].1 && s[0].1 != s[2].1;
        for (l, d) in &s {
            if den(l) != *d {
                return bad(format!("{l:?} doesn't hold {d:?}"));
            }
            let (e, g, a) = sut("is_empty, is_singleton, any", || (l.is_empty(), l.is_singleton(), l.any().map(|s| s.to_string())))?;
            let (we, wg) = match d {
                None => (false, false),
                Some(d) => (d.is_empty(), d.len() == 1),
            };
            let wa = d.as_ref().and_then(|d| d.iter().next().cloned());
            if e != we || g != wg || a != wa {
                return bad(format!("{l:?}: is_empty {e}, is_singleton {g}, any {a:?}"));
            }
            let k = sut("clone", || l.clone())?;
            if k != *l {
                return bad(format!("{l:?} isn't equal to its clone {k:?}"));
            }
        }
        for i in 0..3 {
            for j in 0..3 {
                let (a, b, x) = (&s[i], &s[j], &s[(3 - (i + j) % 3) % 3].0);
                let (m, u) = sut("restrict_to, merge", || (a.0.restrict_to(&b.0), a.0.merge(&b.0)))?;
                if den(&m) != meet(&a.1, &b.1) {
                    return bad(format!("{:?}.restrict_to({:?}) = {m:?}", a.0, b.0));
                }
                if den(&u) != join(&a.1, &b.1) {
                    return bad(format!("{:?}.merge({:?}) = {u:?}", a.0, b.0));
                }
                let dx = den(x);
                let (mm, uu, mu, um) = sut("compositions", || (m.restrict_to(x), u.merge(x), u.restrict_to(x), m.merge(x)))?;
                for (what, got, want) in [
                    ("restrict_to twice", &mm, meet(&meet(&a.1, &b.1), &dx)),
                    ("merge twice", &uu, join(&join(&a.1, &b.1), &dx)),
                    ("merge then restrict_to", &mu, meet(&join(&a.1, &b.1), &dx)),
                    ("restrict_to then merge", &um, join(&meet(&a.1, &b.1), &dx)),
                ] {
                    if den(got) != want {
                        return bad(format!("{what} of {:?}, {:?}, {x:?} = {got:?}", a.0, b.0));
                    }
                    let (e, g) = sut("is_empty, is_singleton", || (got.is_empty(), got.is_singleton()))?;
                    if e != want.as_ref().is_some_and(|w| w.is_empty()) || g != want.as_ref().is_some_and(|w| w.len() == 1) {
                        return bad(format!("{what} of {:?}, {:?}, {x:?} = {got:?}: is_empty {e}, is_singleton {g}", a.0, b.0));
                    }
                }
                o.note(|| format!("{:?} and {:?}: {m:?}, {u:?}", a.0, b.0));
                match (&a.1, &b.1) {
                    (None, None) => ev!("sets: Any and Any"),
                    (None, _) | (_, None) => ev!("sets: Any and another"),
                    (Some(p), Some(q)) if p.is_disjoint(q) => ev!("sets: disjoint"),
                    (Some(p), Some(q)) if p.is_subset(q) || q.is_subset(p) => ev!("sets: one in the other"),
                    _ => ev!("sets: overlapping"),
                }
            }
        }
        Ok(())
    }
    fn seconds(&self) -> (u64, u64) {
        (10, 150)
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["sets: Any and another", "sets: disjoint", "sets: one in the other", "sets: overlapping"]
    }
}

// ---------------------------------------------------------------- C26
fn back<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(v: &T) -> Result<T, Stop> {
    let j = match sut("serialize", || serde_json::to_string(v))? {
        Ok(j) => j,
        Err(e) => return bad(format!("{v:?} isn't serialised: {e}")),
    };
    let r: T = match sut("deserialize", || serde_json::from_str(&j))? {
        Ok(r) => r,
        Err(e) => return bad(format!("{v:?} serialised as {j} isn't read back: {e}")),
    };
    if r != *v {
        return bad(format!("{v:?} serialised as {j} is read back as {r:?}"));
    }
    // through the tree of values as well
    let t = match sut("to_value", || serde_json::to_value(v))? {
        Ok(t) => t,
        Err(e) => return bad(format!("{v:?} isn't serialised: {e}")),
    };
    match sut("from_value", || serde_json::from_value::<T>(t))? {
        Ok(r2) if r2 == *v => {}
        r2 => return bad(format!("{v:?} is read back from a value as {r2:?}")),
    }
    ev!("serialised and read back");
    Ok(r)
}
fn show(what: &str, got: String, want: String) -> Verdict {
    if got != want {
        return bad(format!("{what} prints as {got:?}, not {want:?}"));
    }
    Ok(())
}

/// Errors tell what they were made from, through every conversion.
fn bm_errors(s: &[String]) -> Verdict {
    let t = &s[0];
    let all = [
        BMError::UnknownNameType(t.clone()),
        BMError::UnknownRuleType(t.clone()),
        BMError::ParseConfiguration(t.clone()),
        BMError::WrongFilename(t.clone()),
        BMError::WrongPhoneme(t.clone()),
        BMError::NotABoolean(t.clone()),
        BMError::BadRule(t.clone()),
    ];
    use std::io::ErrorKind::*;
    for kind in [Other, NotFound, PermissionDenied, ConnectionRefused, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, IsADirectory, BrokenPipe] {
        let (i, k) = sut("From<io::Error>", || {
            let e = || std::io::Error::new(kind, t.clone());
            (BMError::from(e()), PhoneticError::from(e()))
        })?;
        if i != all[2] || k != PhoneticError::BMError(i.clone()) {
            return bad(format!("the input error {t:?} of kind {kind:?} becomes {i:?} and {k:?}"));
        }
    }
    for code in [1, 2, 5, 13, 21, 9999] {
        let (i, k) = sut("From<io::Error>", || {
            let e = || std::io::Error::from_raw_os_error(code);
            (BMError::from(e()), PhoneticError::from(e()))
        })?;
        let text = std::io::Error::from_raw_os_error(code).to_string();
        if i != BMError::ParseConfiguration(text) || k != PhoneticError::BMError(i.clone()) {
            return bad(format!("the error {code} of the system becomes {i:?} and {k:?}"));
        }
    }
    for e in all {
        let p = sut("From<BMError>", || PhoneticError::from(e.clone()))?;
        let (a, b) = sut("Display", || (e.to_string(), p.to_string()))?;
        if !a.contains(t.as_str()) || !b.contains(&a) || p != PhoneticError::BMError(e.clone()) {
            return bad(format!("{e:?} prints as {a:?}, and becomes {p:?}, which prints as {b:?}"));
        }
    }
    for r in ["[", "a{2,1}", "(?P<x"] {
        let e = regex::Regex::new(r).unwrap_err();
        let (b, p) = sut("From<regex::Error>", || (BMError::from(e.clone()), PhoneticError::from(e.clone())))?;
        let (x, y) = sut("Display", || (b.to_string(), p.to_string()))?;
        if b != BMError::BadContextRegex(e.clone()) || p != PhoneticError::BMError(b.clone()) || !x.contains(&e.to_string()) || !y.contains(&x) {
            return bad(format!("{e:?} becomes {b:?} ({x:?}) and {p:?} ({y:?})"));
        }
    }
    ev!("errors converted and printed");
    Ok(())
}

impl Prop for C26 {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "a case is a value or an encoder with its configuration, and a text; it is serialised, read back, compared, and used; printed forms are compared with the documented ones; non-trivial: a configuration that isn't the default one, or a value with text"
    }
    fn files(&self) -> &'static [&'static str] {
        &["src/lib.rs", "src/beider_morse/mod.rs", "src/beider_morse/languages.rs", "src/double_metaphone.rs"]
    }
    fn enumerate(&self, g: &mut Gen, _t: bool, w: usize, _n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        if w != 0 {
            return;
        }
        for k in &KINDS[..10] {
            for m in [-1i64, 0, 1, 2, 3, 4, 5, 6, 10, 100, 65535, 65536, 1 << 32, i64::MAX] {
                let t = if m % 2 == 0 { String::new() } else { mapping_text(g) };
                if !f(&Case::t(k, vec!["Schmidt-Gough".into(), "".into(), t, "*".into()], vec![m])) {
                    return;
                }
            }
        }
        for s in ["ash", "gen", "sep", "", "ASH", "Gen", "gen ", " gen", "ashkenazi", "generic", "g", "any", "sephardic", "ge", "genx", "ash\0"] {
            if !f(&Case::t("names", vec![s.into()], vec![])) {
                return;
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        match g.rng.below(5) {
            0 => Case::t("langs", vec![gen_set(g), gen_langs(g, &LANGS)], vec![]),
            1 => {
                let t = match g.rng.below(3) {
                    0 => (*g.rng.pick(&["ash", "gen", "sep"])).to_string(),
                    1 => {
                        let mut t = (*g.rng.pick(&["ash", "gen", "sep"])).to_string();
                        g.mutate_str(&mut t, "agensh");
                        t
                    }
                    _ => g.text("agensh", 6),
                };
                Case::t("names", vec![t], vec![])
            }
            2 => {
                let t: Vec<String> = (0..3)
                    .map(|_| match g.rng.below(3) {
                        0 => String::new(),
                        1 => g.text("abc", 10),
                        _ => (0..5).map(|_| g.special()).collect(),
                    })
                    .collect();
                let l = g.rng.next() as i64 >> g.rng.below(64);
                Case::t("error", t, vec![l, g.rng.below(3) as i64])
            }
            _ => {
                let k = *g.rng.pick(&KINDS[..10]);
                let (n, t) = config_of(g, k);
                let (a, b) = (text_for(g, k), text_for(g, k));
                Case::t(k, vec![a, b, t, "*".into()], n)
            }
        }
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if KINDS.contains(&c.k.as_str()) {
            super::cross::mutate_case(g, c)
        } else {
            let k = g.rng.below(c.s.len());
            g.mutate_str(&mut c.s[k], "abcn");
        }
    }
    fn repair(&self, c: &mut Case) -> bool {
        !KINDS.contains(&c.k.as_str()) || super::cross::repair_case(c)
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        match c.k.as_str() {
            "langs" => {
                for s in &c.s {
                    let (l, d) = if s.len() % 2 == 0 { set(s) } else { (langs(s), den(&langs(s))) };
                    o.nontrivial |= d.as_ref().is_some_and(|d| d.len() > 1);
                    back(&l)?;
                    if let Some(d) = &d {
                        if !d.is_empty() {
                            let want = d.iter().cloned().collect::<Vec<_>>().join(",");
                            show(&format!("{l:?}"), sut("Display", || l.to_string())?, want)?;
                        }
                    }
                    match &l {
                        LanguageSet::Any => show("Any", sut("Display", || l.to_string())?, "ANY_LANGUAGE".into())?,
                        LanguageSet::NoLanguages => show("NoLanguages", sut("Display", || l.to_string())?, "NO_LANGUAGES".into())?,
                        _ => {}
                    }
                    let v = vec![l.clone(), LanguageSet::Any, LanguageSet::NoLanguages];
                    back(&v)?;
                }
                Ok(())
            }
            "names" => {
                let t = &c.s[0];
                o.nontrivial = true;
                for (n, s) in [(NameType::Ashkenazi, "ash"), (NameType::Generic, "gen"), (NameType::Sephardic, "sep")] {
                    show(&format!("{n:?}"), sut("Display", || n.to_string())?, s.into())?;
                    if back(&n)? != n || sut("parse", || s.parse::<NameType>())? != Ok(n) {
                        return bad(format!("{s} isn't parsed as {n:?}"));
                    }
                    let r = sut("parse", || t.parse::<NameType>())?;
                    match r {
                        Ok(x) if x == n && t != s => return bad(format!("{t:?} is parsed as {n:?}")),
                        Err(_) if t == s => return bad(format!("{t:?} isn't parsed")),
                        Err(BMError::UnknownNameType(x)) if x != *t => return bad(format!("the error about {t:?} tells {x:?}")),
                        Err(BMError::UnknownNameType(_)) => ev!("name type refused"),
                        Err(e) => return bad(format!("{t:?}: error {e:?}")),
                        Ok(_) => {}
                    }
                }
                for r in RULE_TYPES {
                    back(&r)?;
                }
                Ok(())
            }
            "error" => {
                o.nontrivial = true;
                let e = ParseError {
                    line_number: c.n[0] as usize,
                    filename: if c.n[1] == 0 { None } else { Some(c.s[0].clone()) },
                    line_content: c.s[1].clone(),
                    description: c.s[2].clone(),
                };
                back(&e)?;
                let f = e.filename.clone().unwrap_or_else(|| "Unknown".into());
                show(&format!("{e:?}"), sut("Display", || e.to_string())?, format!("{f}:{} {} : {}", c.n[0] as usize, c.s[2], c.s[1]))?;
                let p = PhoneticError::from(e.clone());
                if !sut("Display", || p.to_string())?.contains(&e.to_string()) || !matches!(&p, PhoneticError::ParseRuleError(x) if *x == e) {
                    return bad(format!("{e:?} becomes {p:?}, which prints as {p}"));
                }
                bm_errors(&c.s)?;
                for t in &c.s {
                    // a borrowed text can only be read back when JSON doesn't have to escape it
                    if t.chars().all(|c| c >= ' ' && c != '"' && c != '\\') {
                        let v = sut("from", || CharSequence::from(t.as_str()))?;
                        let j = match sut("serialize", || serde_json::to_string(&v))? {
                            Ok(j) => j,
                            Err(e) => return bad(format!("{v:?} isn't serialised: {e}")),
                        };
                        match sut("deserialize", || serde_json::from_str::<CharSequence>(&j))? {
                            Ok(r) if r == v && r.as_str() == t && r.len() == t.chars().count() && r[..] == **t => ev!("characters read back"),
                            r => return bad(format!("{v:?} serialised as {j} is read back as {r:?}")),
                        }
                    }
                }
                Ok(())
            }
            k => {
                feature("encoder kinds", KINDS.iter().position(|x| *x == k).unwrap_or(99) as u64);
                let e = build(k, &c.n, &c.s[2])?;
                o.nontrivial = c.n.first().is_some_and(|n| *n != 4) || !c.s[2].is_empty();
                let r = match &e {
                    E::Soundex(x) => E::Soundex(back(x)?),
                    E::Refined(x) => E::Refined(back(x)?),
                    E::Cav1(x) => E::Cav1(back(x)?),
                    E::Cav2(x) => E::Cav2(back(x)?),
                    E::Cologne(x) => E::Cologne(back(x)?),
                    E::Meta(x) => E::Meta(back(x)?),
                    E::DMeta(x) => {
                        for t in &c.s[..2] {
                            let r = sut("double_metaphone", || x.double_metaphone(t))?;
                            let b = back(&r)?;
                            if b.primary() != r.primary() || b.alternate() != r.alternate() {
                                return bad(format!("{r:?} is read back as {b:?}"));
                            }
                            show(&format!("{r:?}"), sut("Display", || r.to_string())?, format!("[primary={}, alternate={}]", r.primary(), r.alternate()))?;
                        }
                        E::DMeta(back(x)?)
                    }
                    E::Nysiis(x) => E::Nysiis(back(x)?),
                    E::Phonex(x) => E::Phonex(back(x)?),
                    E::Mra(x) => E::Mra(back(x)?),
                    E::Dm(_) | E::Bm(_) => return Ok(()),
                };
                for t in &c.s[..2] {
                    let (a, b) = (sut("encode", || e.encode(t))?, sut("encode", || r.encode(t))?);
                    o.note(|| format!("{k} {:?} {t:?} -> {a:?}", c.n));
                    if a != b {
                        return bad(format!("{k} {:?}: {t:?} gives {a:?}, and {b:?} once serialised and read back", c.n));
                    }
                }
                Ok(())
            }
        }
    }
    fn seconds(&self) -> (u64, u64) {
        (12, 200)
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["serialised and read back", "name type refused", "errors converted and printed", "characters read back"]
    }
}

// ---------------------------------------------------------------- C27
thread_local! {
    static EMB: RefCell<Option<Rc<bm::Config>>> = const { RefCell::new(None) };
    static DEF: RefCell<Option<(&'static DaitchMokotoffSoundex, &'static DaitchMokotoffSoundex, Rc<dm::Rules>)>> = const { RefCell::new(None) };
}
fn embedded() -> Rc<bm::Config> {
    EMB.with(|m| m.borrow_mut().get_or_insert_with(|| Rc::new(bm::embedded(&bm::read_dir(&assets().join("bm"))).ok().unwrap())).clone())
}
fn default_dm() -> Result<(&'static DaitchMokotoffSoundex, &'static DaitchMokotoffSoundex, Rc<dm::Rules>), Stop> {
    if let Some(d) = DEF.with(|d| d.borrow().clone()) {
        return Ok(d);
    }
    let a = sut("DaitchMokotoffSoundex::default", DaitchMokotoffSoundex::default)?;
    let b = match sut("build", || DaitchMokotoffSoundexBuilder::with_rules(&DM_RULES).build())? {
        Ok(b) => b,
        Err(e) => return bad(format!("the shipped rules are refused: {e}")),
    };
    let Ok(r) = dm::parse(&DM_RULES) else { return harness_error("model") };
    let d = (&*Box::leak(Box::new(a)), &*Box::leak(Box::new(b)), Rc::new(r));
    DEF.with(|x| *x.borrow_mut() = Some(d.clone()));
    Ok(d)
}

const US: &str = "01230120022455012623010202";
const GENEALOGY: &str = "-123-12--22455-12623-1-2-2";
const REFINED: &str = "01360240043788015936020505";

impl Prop for C27 {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "a case is a text and an encoder built by default, or a sequence of Beider-Morse builder settings in any order; results are compared with the explicit documented configuration and with the models on the shipped rule files; non-trivial: a code of more than one character"
    }
    fn files(&self) -> &'static [&'static str] {
        &["src/beider_morse/rule.rs", "src/beider_morse/mod.rs", "src/daitch_mokotoff.rs"]
    }
    fn enumerate(&self, g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        let one = strings("abcdefghijklmnopqrstuvwxyz", 1);
        for (i, s) in one.iter().chain(strings("aeszchtrk", if t { 4 } else { 3 }).iter()).enumerate() {
            if i % n != w {
                continue;
            }
            for k in ["bm", "dm", "dmb"] {
                if k == "bm" && s.len() > 2 && !t {
                    continue;
                }
                let l: Vec<i64> = if k == "bm" { vec![0, (i % 3) as i64, 1, (i % 2) as i64] } else { vec![] };
                if !f(&Case::t(k, vec![s.clone()], l)) {
                    return;
                }
            }
        }
        for (i, s) in g.names.clone().iter().enumerate() {
            if i % n != w {
                continue;
            }
            for k in ["others", "dm"] {
                if !f(&Case::t(k, vec![s.clone()], vec![])) {
                    return;
                }
            }
            let k = i as i64 / n as i64;
            if (i / n) % 4 == 0 && !f(&Case::t("bm", vec![s.clone()], vec![0, k % 3, 1, k / 3 % 2])) {
                return;
            }
        }
        // the settings in any order, with many alternatives allowed, on words that have many
        let mut at = 0;
        for word in ["chrzchvch", "szczuchajoch", "chaoauel", "gejchajzoch"] {
            for max in [5000, 1000, 300, 257, 256, 255, 129, 128, 127, 101, 100, 65, 64, 33, 32] {
                for order in 0..24usize {
                    at += 1;
                    if at % n != w || (!t && at / n % 3 != 0) {
                        continue;
                    }
                    let mut left = vec![0i64, 1, 2, 3];
                    let mut o = order;
                    let mut v = vec![];
                    for k in (1..=4).rev() {
                        let x = left.remove(o % k);
                        o /= k;
                        v.push(x);
                        v.push(match x {
                            0 => (at / 24 % 3) as i64,
                            1 => (at / 48 % 2) as i64,
                            2 => (at / 7 % 2) as i64,
                            _ => max,
                        });
                    }
                    if !f(&Case::t("bm", vec![word.into()], v)) {
                        return;
                    }
                }
            }
        }
        // every pattern of the shipped Daitch-Mokotoff rules, at every kind of place
        let Ok(r) = dm::parse(&DM_RULES) else { return };
        for (i, p) in r.rules.iter().enumerate() {
            let p: String = p.pat.iter().collect();
            for (j, s) in [format!("{p}"), format!("{p}a"), format!("{p}t"), format!("a{p}"), format!("t{p}a"), format!("l{p}t")].into_iter().enumerate() {
                if (i * 6 + j) % n == w && !f(&Case::t("dm", vec![s], vec![])) {
                    return;
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        match g.rng.below(4) {
            0 => Case::t("others", vec![text_for(g, "soundex")], vec![]),
            1 => {
                let k = *g.rng.pick(&["dm", "dmb"]);
                Case::t(k, vec![text_for(g, "soundex")], vec![])
            }
            _ => {
                let mut n = vec![];
                for _ in 0..g.rng.below(7) {
                    let o = gen_opt(g);
                    let k = g.rng.below(4);
                    n.push(k as i64);
                    n.push(o[k]);
                }
                Case::t("bm", vec![bm_text(g)], n)
            }
        }
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if c.k == "bm" && g.rng.chance(1, 3) {
            c.n = self.gen(g).n;
            if c.n.len() % 2 == 1 {
                c.n.pop();
            }
        } else {
            g.mutate_str(&mut c.s[0], super::cross::ALPHA);
        }
    }
    fn repair(&self, c: &mut Case) -> bool {
        if c.k == "bm" {
            let m = c.n.chunks_exact(2).filter(|p| p[0] == 3).map(|p| p[1]).max().unwrap_or(20).max(20);
            super::cross::cut_to(&mut c.s[0], super::cross::bm_limit(m).max(if m > 100 { 12 } else { 0 }));
        }
        true
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        let s = &c.s[0];
        let same = |what: &str, a: String, b: String| -> Verdict {
            if a != b {
                return bad(format!("{what} of {s:?}: {a:?}, the documented configuration gives {b:?}"));
            }
            Ok(())
        };
        match c.k.as_str() {
            "dm" | "dmb" => {
                let (d, b, m) = default_dm()?;
                if *d != *b {
                    return bad("DaitchMokotoffSoundex::default() isn't equal to the encoder built from the shipped rules");
                }
                let built;
                let d = if c.k == "dmb" {
                    built = match sut("build", || DaitchMokotoffSoundexBuilder::default().build())? {
                        Ok(b) => b,
                        Err(e) => return bad(format!("the default builder fails: {e}")),
                    };
                    &built
                } else {
                    d
                };
                let r = sut("soundex", || d.soundex(s))?;
                o.nontrivial = r.len() > 1 && r != "000000";
                o.note(|| format!("{s:?} -> {r:?}"));
                same("default Daitch-Mokotoff", r.clone(), sut("soundex", || b.soundex(s))?)?;
                same("default Daitch-Mokotoff", r, dm::encode(&m, true, s, true, false).join("|"))?;
                same("default Daitch-Mokotoff encode", sut("encode", || d.encode(s))?, sut("encode", || b.encode(s))?)
            }
            "bm" => {
                let cf = crate::enc::config(1)?;
                let mut b = sut("builder", || BeiderMorseBuilder::new(cf))?;
                let mut op = bm::Opt { name: 1, kind: 0, concat: true, max: 20 };
                let mut first = None;
                for (i, p) in c.n.chunks_exact(2).enumerate() {
                    if i == 2 {
                        // a builder can be used several times
                        first = Some((b.build(), op));
                    }
                    b = match p[0].rem_euclid(4) {
                        0 => {
                            op.name = p[1].rem_euclid(3) as usize;
                            b.name_type(NAME_TYPES[op.name])
                        }
                        1 => {
                            op.kind = p[1].rem_euclid(2) as usize;
                            b.rule_type(RULE_TYPES[op.kind])
                        }
                        2 => {
                            op.concat = p[1] != 0;
                            b.concat(op.concat)
                        }
                        _ => {
                            op.max = p[1].clamp(0, 5000) as usize;
                            b.max_phonemes(op.max)
                        }
                    };
                }
                if c.n.is_empty() {
                    ev!("builder: nothing set");
                }
                if op.max > 100 {
                    ev!("builder: a large number of phonemes");
                }
                feature("builder settings", (op.name * 4 + op.kind * 2 + op.concat as usize) as u64);
                let m = embedded();
                let e = b.build();
                let r = sut("encode", || e.encode(s))?;
                o.nontrivial = r.len() > 1;
                o.note(|| format!("{:?} {s:?} -> {r:?}", c.n));
                same(&format!("embedded Beider-Morse, settings {:?}", c.n), r.clone(), m.encode(op, s))?;
                same("second encoder of a builder", sut("encode", || b.clone().build().encode(s))?, r)?;
                if let Some((e, op)) = first {
                    ev!("builder: used twice");
                    same(&format!("first encoder of a builder, settings {:?}", c.n), sut("encode", || e.encode(s))?, m.encode(op, s))?;
                }
                if c.n.len() % 4 == 0 {
                    let e = b.build();
                    same("embedded Beider-Morse, any language", sut("encode", || e.encode_with_languages(s, &LanguageSet::Any))?, m.encode_with(op, s, &bm::Ls::Any))?;
                    same("embedded Beider-Morse, language any", sut("encode", || e.encode_with_languages(s, &langs("any")))?, m.encode_with(op, s, &bm::Ls::of(&["any"])))?;
                }
                Ok(())
            }
            _ => {
                o.nontrivial = s.len() > 1;
                let us = mapping(US).unwrap();
                if us != DEFAULT_US_ENGLISH_MAPPING_SOUNDEX || mapping(GENEALOGY).unwrap() != DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX {
                    return bad("a default mapping isn't the documented one");
                }
                let q = |what: &str, a: E, b: E| -> Verdict {
                    let (a, b) = (sut("encode", || a.encode(s))?, sut("encode", || b.encode(s))?);
                    same(what, a, b)
                };
                if Soundex::default() != Soundex::new(us, true)
                    || RefinedSoundex::default() != RefinedSoundex::new(mapping(REFINED).unwrap())
                    || Metaphone::default() != Metaphone::new(Some(4))
                    || DoubleMetaphone::default() != DoubleMetaphone::new(Some(4))
                    || Phonex::default() != Phonex::new(4)
                    || Nysiis::default() != Nysiis::new(true)
                {
                    return bad("a default encoder isn't equal to the documented one");
                }
                q("Soundex", E::Soundex(Soundex::default()), E::Soundex(Soundex::new(us, true)))?;
                q("RefinedSoundex", E::Refined(RefinedSoundex::default()), E::Refined(RefinedSoundex::new(mapping(REFINED).unwrap())))?;
                q("Metaphone", E::Meta(Metaphone::default()), E::Meta(Metaphone::new(Some(4))))?;
                q("DoubleMetaphone", E::DMeta(DoubleMetaphone::default()), E::DMeta(DoubleMetaphone::new(Some(4))))?;
                q("Phonex", E::Phonex(Phonex::default()), E::Phonex(Phonex::new(4)))?;
                q("Nysiis", E::Nysiis(Nysiis::default()), E::Nysiis(Nysiis::new(true)))?;
                // and with the models
                let up: Vec<(&str, String, String)> = vec![
                    ("Soundex", Soundex::default().encode(s), crate::models::soundex(&us, true, s)),
                    ("RefinedSoundex", RefinedSoundex::default().encode(s), crate::models::refined(&mapping(REFINED).unwrap(), s)),
                    ("Metaphone", Metaphone::default().encode(s), crate::models::metaphone(Some(4), s)),
                    ("Nysiis", Nysiis::default().encode(s), crate::models::nysiis(true, s)),
                    ("Phonex", Phonex::default().encode(s), crate::models::phonex(4, s)),
                ];
                for (w, a, b) in up {
                    same(w, a, b)?;
                }
                Ok(())
            }
        }
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["builder: nothing set", "builder: used twice", "builder: a large number of phonemes"]
    }
}

// ---------------------------------------------------------------- C30
impl Prop for C30 {
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "a case is a mapping string and a text; the constructors of Soundex and RefinedSoundex are compared with each other and the codes with the models; non-trivial: a mapping that isn't 26 ASCII characters, or one with a hyphen"
    }
    fn files(&self) -> &'static [&'static str] {
        &["src/soundex.rs", "src/refined_soundex.rs"]
    }
    fn enumerate(&self, g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        let long: String = "-ab0".chars().cycle().take(300).collect();
        let mut i = 0;
        let mut all = vec![];
        // every length, of one, two, three and four byte characters
        for len in 0..80 {
            for c in ['a', 'é', '漢', '😀', '-', ' '] {
                all.push(c.to_string().repeat(len));
            }
            all.push(long.chars().take(len).collect());
        }
        // a hyphen, or another character, at each place
        for base in [US, GENEALOGY, REFINED, "abcdefghijklmnopqrstuvwxyz"] {
            for p in 0..26 {
                for c in ['-', '0', 'é', '–', '\0', '\u{2d}', '_', '7', 'H'] {
                    let mut v: Vec<char> = base.chars().collect();
                    v[p] = c;
                    all.push(v.iter().collect());
                    if t || c == '-' {
                        v.insert(p, c);
                        all.push(v.iter().collect());
                        v.remove(p);
                        v.remove(p);
                        all.push(v.iter().collect());
                    }
                }
            }
        }
        for m in all {
            i += 1;
            if i % n == w {
                for s in ["Ashcraft", "abcdefghijklmnopqrstuvwxyz", "thhwaw"] {
                    if !f(&Case::t("", vec![m.clone(), s.into()], vec![])) {
                        return;
                    }
                }
                let s = text_for(g, "soundex");
                if !f(&Case::t("", vec![m, s], vec![])) {
                    return;
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let m = match g.rng.below(6) {
            0 => mapping_text(g),
            1 => {
                let n = g.rng.below(60);
                (0..n).map(|_| g.special()).collect()
            }
            2 => {
                let n = g.rng.range(24, 28);
                (0..n).map(|_| if g.rng.chance(1, 5) { '-' } else { g.any_char() }).collect()
            }
            _ => {
                let one = g.rng.chance(1, 3);
                let hyphens = g.rng.below(4);
                let a: Vec<char> = "0123456".chars().collect();
                let mut v: Vec<char> = (0..26).map(|_| if one { g.special() } else { *g.rng.pick(&a) }).collect();
                for _ in 0..hyphens {
                    v[g.rng.below(26)] = '-';
                }
                v.into_iter().collect()
            }
        };
        let s = text_for(g, "soundex");
        Case::t("", vec![m, s], vec![])
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if g.rng.chance(1, 2) {
            g.mutate_str(&mut c.s[1], super::cross::ALPHA);
        } else {
            let mut v: Vec<char> = c.s[0].chars().collect();
            let x = if g.rng.chance(1, 3) { '-' } else { g.any_char() };
            let p = g.rng.below(v.len() + 1);
            match g.rng.below(4) {
                0 if p < v.len() => {
                    v.remove(p);
                }
                1 => v.insert(p, x),
                _ if p < v.len() => v[p] = x,
                _ => v.push(x),
            }
            c.s[0] = v.into_iter().collect();
        }
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        let (m, s) = (&c.s[0], &c.s[1]);
        let v: Vec<char> = m.chars().collect();
        o.nontrivial = v.len() != 26 || !m.is_ascii() || m.contains('-');
        let a = sut("Soundex::try_from(&str)", || Soundex::try_from(m.as_str()))?;
        let b = sut("Soundex::try_from(String)", || Soundex::try_from(m.clone()))?;
        let p = sut("Soundex parse", || m.parse::<Soundex>())?;
        let ra = sut("RefinedSoundex::try_from(&str)", || RefinedSoundex::try_from(m.as_str()))?;
        let rb = sut("RefinedSoundex::try_from(String)", || RefinedSoundex::try_from(m.clone()))?;
        let rp = sut("RefinedSoundex parse", || m.parse::<RefinedSoundex>())?;
        if a != b || a != p || ra != rb || ra != rp {
            return bad(format!("mapping {m:?}: {a:?}, {b:?}, {p:?}, {ra:?}, {rb:?}, {rp:?} differ"));
        }
        match mapping(m) {
            None => {
                ev!("mapping: wrong length");
                if a != Err(v.clone()) || ra != Err(v) {
                    return bad(format!("mapping {m:?}: {a:?}, {ra:?}"));
                }
            }
            Some(map) => {
                let special = !m.contains('-');
                if special {
                    ev!("mapping: without hyphen");
                } else {
                    ev!("mapping: with hyphen");
                }
                let (n, f, r) = sut("new, from", || (Soundex::new(map, special), Soundex::from(map), RefinedSoundex::new(map)))?;
                if a != Ok(n) || f != n || ra != Ok(r) {
                    return bad(format!("mapping {m:?}: {a:?}, from the array {n:?} {f:?}; {ra:?}, {r:?}"));
                }
                let (x, y, z, t) = sut("encode", || (a.unwrap().encode(s), f.encode(s), p.unwrap().encode(s), b.unwrap().encode(s)))?;
                let want = crate::models::soundex(&map, special, s);
                o.note(|| format!("{m:?} {s:?} -> {x:?}"));
                if [&x, &y, &z, &t].iter().any(|x| **x != want) {
                    return bad(format!("mapping {m:?}: {s:?} gives {x:?}, {y:?}, {z:?}, {t:?}, not {want:?}"));
                }
                let (x, y, z) = sut("encode", || (ra.unwrap().encode(s), rb.unwrap().encode(s), rp.unwrap().encode(s)))?;
                let want = crate::models::refined(&map, s);
                if x != want || y != want || z != want {
                    return bad(format!("mapping {m:?}: {s:?} gives {x:?}, {y:?}, {z:?} for RefinedSoundex, not {want:?}"));
                }
            }
        }
        Ok(())
    }
    fn seconds(&self) -> (u64, u64) {
        (12, 200)
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["mapping: wrong length", "mapping: with hyphen", "mapping: without hyphen"]
    }
}
