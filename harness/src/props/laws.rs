//! C31: values as keys: equality, order, hash, clones.
use super::bmp::{gen_langs, LANGS};
use super::cross::{config_of, text_for};
use super::dmp::rule_text;
use super::*;
use crate::core::{bad, feature, sut, Obs, Stop, Verdict};
use crate::enc::{langs, mapping, max, DM_RULES, NAME_TYPES, RULE_TYPES};
use crate::ev;
use rphonetic::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher, RandomState};

pub struct C31;

const VALUES: [&str; 19] = [
    "soundex", "refined", "cav1", "cav2", "cologne", "meta", "dmeta", "nysiis", "phonex", "mra", "dm", "langs", "result", "error", "phonetic", "bmerror",
    "chars", "name", "rule",
];

/// Equality as an equivalence, telling apart what differs and nothing else; `same` decides where the property says.
fn equality<T: Clone + PartialEq + Debug>(what: &str, v: &[T; 3], same: &dyn Fn(usize, usize) -> Option<bool>) -> Verdict {
    sut("comparisons", || {
        for i in 0..3 {
            let c = v[i].clone();
            let mut f = v[(i + 1) % 3].clone();
            f.clone_from(&v[i]);
            if c != v[i] || f != v[i] || !(v[i] == v[i]) || v[i] != v[i] {
                return bad(format!("{what}: {:?} is not equal to itself, its clone {c:?} or {f:?}", v[i]));
            }
            for j in 0..3 {
                let e = v[i] == v[j];
                if e == (v[i] != v[j]) || e != (v[j] == v[i]) {
                    return bad(format!("{what}: == and != of {:?} and {:?} disagree, or depend on the side", v[i], v[j]));
                }
                if same(i, j).is_some_and(|s| s != e) {
                    return bad(format!("{what}: {:?} == {:?} is {e}, though they are {}", v[i], v[j], if e { "different" } else { "the same" }));
                }
                for k in 0..3 {
                    if e && v[j] == v[k] && v[i] != v[k] {
                        return bad(format!("{what}: equality of {:?}, {:?} and {:?} isn't transitive", v[i], v[j], v[k]));
                    }
                }
                if i != j {
                    if e {
                        ev!("two values found equal");
                    } else {
                        ev!("two values found different");
                    }
                }
            }
        }
        Ok(())
    })?
}
fn order<T: Clone + Ord + Debug>(what: &str, v: &[T; 3], same: &dyn Fn(usize, usize) -> Option<bool>) -> Verdict {
    equality(what, v, same)?;
    sut("comparisons", || {
        for i in 0..3 {
            for j in 0..3 {
                let (a, b) = (&v[i], &v[j]);
                let c = a.cmp(b);
                if (c == Ordering::Equal) != (a == b) || b.cmp(a) != c.reverse() || a.partial_cmp(b) != Some(c) || a.clone().cmp(b) != c {
                    return bad(format!("{what}: {a:?} and {b:?}: cmp {c:?}, the other way {:?}, partial_cmp {:?}, == {}", b.cmp(a), a.partial_cmp(b), a == b));
                }
                if (a < b) != (c == Ordering::Less) || (a > b) != (c == Ordering::Greater) || (a <= b) == (a > b) || (a >= b) == (a < b) {
                    return bad(format!("{what}: {a:?} and {b:?}: <, >, <=, >= are {} {} {} {}, cmp {c:?}", a < b, a > b, a <= b, a >= b));
                }
                let (mi, ma) = (a.clone().min(b.clone()), a.clone().max(b.clone()));
                if mi > ma || !(mi == *a && ma == *b || mi == *b && ma == *a) {
                    return bad(format!("{what}: min and max of {a:?} and {b:?} are {mi:?} and {ma:?}"));
                }
                for k in 0..3 {
                    if c != Ordering::Greater && v[j] <= v[k] && v[i] > v[k] {
                        return bad(format!("{what}: order of {:?}, {:?} and {:?} isn't transitive", v[i], v[j], v[k]));
                    }
                }
            }
        }
        let mut sorted: Option<Vec<T>> = None;
        for p in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
            let mut x: Vec<T> = p.iter().map(|i| v[*i].clone()).collect();
            x.sort();
            if sorted.get_or_insert_with(|| x.clone()) != &x {
                return bad(format!("{what}: sorting {v:?} depends on where they start"));
            }
        }
        let s: BTreeSet<T> = v.iter().cloned().collect();
        if s.len() != distinct(v) || v.iter().any(|x| !s.contains(x)) {
            return bad(format!("{what}: a BTreeSet of {v:?} holds {s:?}"));
        }
        ev!("an order observed");
        Ok(())
    })?
}
fn distinct<T: PartialEq>(v: &[T; 3]) -> usize {
    (0..3).filter(|i| (0..*i).all(|j| v[j] != v[*i])).count()
}
fn hashes<T: Clone + Eq + Hash + Debug>(what: &str, v: &[T; 3]) -> Verdict {
    let r = RandomState::new();
    sut("hash", || {
        let h = |x: &T| {
            let mut d = DefaultHasher::new();
            x.hash(&mut d);
            (d.finish(), r.hash_one(x))
        };
        for a in v {
            for b in v {
                if a == b && h(a) != h(b) {
                    return bad(format!("{what}: {a:?} and {b:?} are equal, their hashes differ"));
                }
            }
            if h(a) != h(&a.clone()) {
                return bad(format!("{what}: the clone of {a:?} has another hash"));
            }
        }
        let s: HashSet<T> = v.iter().cloned().collect();
        if s.len() != distinct(v) || v.iter().any(|x| !s.contains(x)) {
            return bad(format!("{what}: a HashSet of {v:?} holds {s:?}"));
        }
        ev!("hashes observed");
        Ok(())
    })?
}
fn keys<T: Clone + Ord + Hash + Debug>(what: &str, v: &[T; 3], same: &dyn Fn(usize, usize) -> Option<bool>) -> Verdict {
    order(what, v, same)?;
    hashes(what, v)
}
/// Equal encoders, and clones, encode alike.
fn codes<T: Encoder + PartialEq + Clone + Debug>(what: &str, v: &[T; 3], c: &Case) -> Verdict {
    for t in &c.s[3..5] {
        let r = sut("encode", || {
            let mut f = v[1].clone();
            f.clone_from(&v[2]);
            (v.each_ref().map(|e| e.encode(t)), v.each_ref().map(|e| e.clone().encode(t)), f.encode(t))
        })?;
        for i in 0..3 {
            if r.0[i] != r.1[i] || r.2 != r.0[2] {
                return bad(format!("{what}: {:?} encodes {t:?} as {:?}, its clone as {:?} ({:?})", v[i], r.0[i], r.1[i], r.2));
            }
            for j in 0..i {
                if v[i] == v[j] && r.0[i] != r.0[j] {
                    return bad(format!("{what}: {:?} and {:?} are equal and encode {t:?} as {:?} and {:?}", v[i], v[j], r.0[i], r.0[j]));
                }
            }
        }
    }
    Ok(())
}
fn make<T>(f: impl Fn(usize) -> T) -> Result<[T; 3], Stop> {
    sut("constructors", || [f(0), f(1), f(2)])
}
fn letters(s: &str) -> String {
    let mut v: Vec<char> = s.chars().take(26).collect();
    let p: Vec<char> = "01230120022455012623010202".chars().collect();
    for i in v.len()..26 {
        v.push(p[i]);
    }
    v.into_iter().collect()
}
fn bm_error(i: i64, s: &str) -> BMError {
    match i.rem_euclid(9) {
        0 => BMError::UnknownNameType(s.into()),
        1 => BMError::UnknownRuleType(s.into()),
        2 => BMError::ParseConfiguration(s.into()),
        3 => BMError::WrongFilename(s.into()),
        4 => BMError::WrongPhoneme(s.into()),
        5 => BMError::NotABoolean(s.into()),
        6 => BMError::BadRule(s.into()),
        7 => BMError::from(std::io::Error::other(s.to_string())),
        _ => {
            let l = s.chars().count() % 3;
            BMError::from(regex::Regex::new(["[", "a{2,1}", "(?P<x"][l]).unwrap_err())
        }
    }
}

impl Prop for C31 {
    fn id(&self) -> &'static str {
        "C31"
    }
    fn rule(&self) -> &'static str {
        "a case is three values of one type (mostly alike, made in different ways) and two texts; equality, order, hash, clones and, for encoders, codes are observed; non-trivial: some two of the values are made from the same data, or nearly"
    }
    fn files(&self) -> &'static [&'static str] {
        &["src/lib.rs", "src/beider_morse/mod.rs", "src/beider_morse/languages.rs", "src/double_metaphone.rs", "src/helper.rs"]
    }
    fn enumerate(&self, _g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        // mappings that differ at one place, lengths, names and texts that differ in one character or by a prefix
        let base = "01230120022455012623010202";
        let mut all: Vec<Case> = vec![];
        let texts = || vec!["Ashcraft".to_string(), "zyxwvutsrqponmlkjihgfedcba".to_string()];
        let case = |k: &str, s: [String; 3], n: [i64; 6]| {
            let mut s = s.to_vec();
            s.extend(texts());
            Case::t(k, s, n.to_vec())
        };
        for k in ["soundex", "refined"] {
            for p in 0..26 {
                for (x, y) in [('7', '8'), ('-', '0'), ('é', 'É'), ('0', '\0'), ('1', '１')] {
                    let put = |c: char| base.chars().enumerate().map(|(i, d)| if i == p { c } else { d }).collect::<String>();
                    for r in 0..4 {
                        all.push(case(k, [put(x), put(y), put(x)], [1, r, 1, r + 1, 1, r + 2]));
                        all.push(case(k, [put(x), put(x), base.into()], [0, 0, 1, 0, 1, r]));
                    }
                }
            }
        }
        let lens = [-1i64, 0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 127, 128, 129, 255, 256, 257, 260, 511, 512, 1023, 1024, 4095, 4096, 5000, 65535, 65536, 65537, 65540, 1 << 31, 1 << 32, (1 << 32) + 4, 1 << 48, i64::MAX];
        for k in ["meta", "dmeta", "phonex", "nysiis"] {
            for a in lens {
                for b in lens {
                    all.push(case(k, Default::default(), [a, 0, b, 1, a, 2]));
                }
            }
        }
        let words = ["", "a", "A", "b", "ab", "ba", "abc", "é", "e\u{301}", "\0", " ", "a ", "a,b", "😀", "Unknown"];
        for k in ["langs", "result", "error", "phonetic", "bmerror", "chars"] {
            for a in words {
                for b in words {
                    for v in 0..9 {
                        all.push(case(k, [a.into(), b.into(), a.into()], [v, v, v, v + 1, v + (v / 3), v]));
                        if t {
                            for u in 0..9 {
                                all.push(case(k, [a.into(), b.into(), b.into()], [v, u, u, v, v, v]));
                            }
                        }
                    }
                }
            }
        }
        // values that are printed alike
        for (a, b) in [("a,b", "a+b"), ("ANY_LANGUAGE", "*"), ("NO_LANGUAGES", ""), ("NO_LANGUAGES", "~"), ("a,", "a+"), ("a,b+c", "a+b,c"), ("+a", "a")] {
            all.push(case("langs", [a.into(), b.into(), a.into()], [0; 6]));
            all.push(case("langs", [b.into(), a.into(), b.into()], [0; 6]));
        }
        for (l, a, m, b) in [
            (1, "f\u{1}b : c\u{1}d", 1, "f\u{1}b\u{1}c : d"),
            (2, "f:1 x\u{1}y\u{1}z", 1, "f\u{1}x:2 y\u{1}z"),
            (2, "f:1  : x\u{1}\u{1}", 1, "f\u{1}\u{1}x:2  : "),
            (1, "Unknown\u{1}a\u{1}b", 1, "Unknown\u{1}a\u{1}b"),
        ] {
            for k in ["error", "phonetic"] {
                all.push(case(k, [a.into(), b.into(), a.into()], [l, 0, m, 0, l, 0]));
            }
        }
        for i in 0..9 {
            for j in 0..9 {
                // the parts of what is printed around the text
                let around = |k: i64| {
                    let t = bm_error(k, "\u{1}").to_string();
                    t.split_once('\u{1}').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or_default()
                };
                let ((p, e), (q, d)) = (around(i), around(j));
                if let (Some(p), true) = (p.strip_prefix(&q), d.ends_with(&e)) {
                    for x in ["", "a"] {
                        let (x, y) = (format!("{x}{}", &d[..d.len() - e.len()]), format!("{p}{x}"));
                        all.push(case("bmerror", [x.clone(), y, x], [i, 0, j, 0, i, 0]));
                    }
                }
            }
        }
        for a in 0..3 {
            for b in 0..3 {
                for c in 0..3 {
                    for k in ["name", "rule"] {
                        all.push(case(k, Default::default(), [a, 0, b, 0, c, 0]));
                    }
                }
            }
        }
        for (i, c) in all.iter().enumerate() {
            if i % n == w && !f(c) {
                return;
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let k = *g.rng.pick(&VALUES);
        let (mut s, mut n): (Vec<String>, Vec<i64>) = (vec![], vec![]);
        for i in 0..3usize {
            let (mut a, t) = match k {
                "langs" => (g.rng.below(4) as i64, gen_langs(g, &LANGS)),
                "dm" => (g.rng.below(2) as i64, if g.rng.chance(1, 6) { String::new() } else { rule_text(g) }),
                "result" | "error" | "phonetic" | "bmerror" | "chars" => (
                    g.rng.below(9) as i64,
                    match g.rng.below(3) {
                        0 => text_for(g, "dmeta"),
                        1 => (0..g.rng.below(4)).map(|_| g.special()).collect(),
                        _ => g.text("ab,", 4),
                    },
                ),
                "name" | "rule" => (g.rng.below(3) as i64, String::new()),
                k => {
                    let (n, t) = config_of(g, k);
                    (n.first().copied().unwrap_or(0), t)
                }
            };
            let mut t = t;
            if i > 0 && g.rng.chance(2, 3) {
                // like an earlier one, exactly or nearly
                let j = g.rng.below(i);
                t = s[j].clone();
                if g.rng.chance(3, 4) {
                    a = n[2 * j];
                }
                if g.rng.chance(1, 3) {
                    g.mutate_str(&mut t, "ab01-,\"");
                }
            }
            s.push(t);
            n.push(a);
            n.push(g.rng.below(6) as i64);
        }
        for _ in 0..2 {
            s.push(text_for(g, "dmeta"));
        }
        Case::t(k, s, n)
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        match g.rng.below(4) {
            0 => {
                let i = g.rng.below(3);
                c.s[i] = c.s[(i + 1) % 3].clone();
                c.n[2 * i] = c.n[2 * ((i + 1) % 3)];
            }
            1 => c.n[g.rng.below(6)] = g.rng.below(9) as i64,
            2 => {
                let i = g.rng.range(3, 5).min(4);
                g.mutate_str(&mut c.s[i], super::cross::ALPHA);
            }
            _ => {
                let i = g.rng.below(3);
                g.mutate_str(&mut c.s[i], "ab01-,\"");
            }
        }
    }
    fn repair(&self, c: &mut Case) -> bool {
        c.s.len() == 5 && c.n.len() == 6 && VALUES.contains(&c.k.as_str())
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        let k = c.k.as_str();
        let (s, n, route) = (&c.s, |i: usize| c.n[2 * i], |i: usize| c.n[2 * i + 1].rem_euclid(6));
        feature("types", VALUES.iter().position(|x| *x == k).unwrap_or(99) as u64);
        o.nontrivial = (0..3).any(|i| (0..i).any(|j| n(i) == n(j) || s[i] == s[j]));
        let by = |f: &dyn Fn(usize, usize) -> bool| -> Box<dyn Fn(usize, usize) -> Option<bool>> {
            let t: Vec<bool> = (0..9).map(|x| f(x / 3, x % 3)).collect();
            Box::new(move |i, j| Some(t[3 * i + j]))
        };
        o.note(|| format!("{k} {:?} {:?}", c.n, &c.s[..3]));
        match k {
            "soundex" => {
                let texts: Vec<String> = (0..3).map(|i| letters(&s[i])).collect();
                let flag = |i: usize| if route(i) < 2 { n(i) != 0 } else { !texts[i].contains('-') };
                let m = |i: usize| mapping(&texts[i]).unwrap();
                let v = make(|i| match route(i) {
                    0 | 1 => Soundex::new(m(i), flag(i)),
                    2 => Soundex::from(m(i)),
                    3 => Soundex::try_from(texts[i].as_str()).unwrap(),
                    4 => Soundex::try_from(texts[i].clone()).unwrap(),
                    _ => texts[i].parse().unwrap(),
                })?;
                keys(k, &v, &*by(&|i, j| texts[i] == texts[j] && flag(i) == flag(j)))?;
                codes(k, &v, c)
            }
            "refined" => {
                let texts: Vec<String> = (0..3).map(|i| letters(&s[i])).collect();
                let v = make(|i| match route(i) {
                    0..=2 => RefinedSoundex::new(mapping(&texts[i]).unwrap()),
                    3 => RefinedSoundex::try_from(texts[i].as_str()).unwrap(),
                    4 => RefinedSoundex::try_from(texts[i].clone()).unwrap(),
                    _ => texts[i].parse().unwrap(),
                })?;
                keys(k, &v, &*by(&|i, j| texts[i] == texts[j]))?;
                codes(k, &v, c)
            }
            "cav1" => {
                let v = [Caverphone1; 3];
                keys(k, &v, &*by(&|_, _| true))?;
                codes(k, &v, c)
            }
            "cav2" => {
                let v = [Caverphone2; 3];
                keys(k, &v, &*by(&|_, _| true))?;
                codes(k, &v, c)
            }
            "cologne" => {
                let v = [Cologne; 3];
                keys(k, &v, &*by(&|_, _| true))?;
                codes(k, &v, c)
            }
            "mra" => {
                let v = [MatchRatingApproach; 3];
                keys(k, &v, &*by(&|_, _| true))?;
                codes(k, &v, c)
            }
            "meta" => {
                let v = make(|i| if n(i) == 4 && route(i) % 2 == 0 { Metaphone::default() } else { Metaphone::new(max(n(i))) })?;
                keys(k, &v, &*by(&|i, j| max(n(i)) == max(n(j))))?;
                codes(k, &v, c)
            }
            "dmeta" => {
                let v = make(|i| if n(i) == 4 && route(i) % 2 == 0 { DoubleMetaphone::default() } else { DoubleMetaphone::new(max(n(i))) })?;
                keys(k, &v, &*by(&|i, j| max(n(i)) == max(n(j))))?;
                codes(k, &v, c)
            }
            "nysiis" => {
                let v = make(|i| if n(i) == 1 && route(i) % 2 == 0 { Nysiis::default() } else { Nysiis::new(n(i) != 0) })?;
                keys(k, &v, &*by(&|i, j| (n(i) != 0) == (n(j) != 0)))?;
                codes(k, &v, c)
            }
            "phonex" => {
                let v = make(|i| if n(i) == 4 && route(i) % 2 == 0 { Phonex::default() } else { Phonex::new(n(i).max(0) as usize) })?;
                keys(k, &v, &*by(&|i, j| n(i).max(0) == n(j).max(0)))?;
                // a code has exactly that length
                if (0..3).all(|i| n(i) <= 5000) {
                    codes(k, &v, c)?;
                }
                Ok(())
            }
            "dm" => {
                // a comment or an empty line changes nothing
                let source = |i: usize| {
                    let t = if s[i].is_empty() { DM_RULES.as_str() } else { s[i].as_str() };
                    match route(i) {
                        1 => format!("// a comment\n\n{t}"),
                        2 => format!("/* a\ncomment */\n{t}"),
                        _ => t.to_string(),
                    }
                };
                let texts: Vec<String> = (0..3).map(source).collect();
                let mut v = vec![];
                for (i, t) in texts.iter().enumerate() {
                    match sut("build", || DaitchMokotoffSoundexBuilder::with_rules(t).ascii_folding(n(i) != 0).build())? {
                        Ok(e) => v.push(e),
                        Err(_) => return Ok(()), // whether it should be accepted is C15
                    }
                }
                let v: [DaitchMokotoffSoundex; 3] = v.try_into().unwrap();
                order(k, &v, &|i, j| if s[i] == s[j] { Some((n(i) != 0) == (n(j) != 0)) } else { None })?;
                if s[3].len() > 200 || s[4].len() > 200 {
                    return Ok(());
                }
                codes(k, &v, c)?;
                for t in &s[3..5] {
                    let r = sut("soundex", || v.each_ref().map(|e| (e.soundex(t), e.inner_soundex(t, false), e.clone().soundex(t))))?;
                    for i in 0..3 {
                        for j in 0..3 {
                            if v[i] == v[j] && (r[i].0 != r[j].0 || r[i].1 != r[j].1 || r[i].2 != r[j].0) {
                                return bad(format!("dm: equal encoders give {:?} and {:?} for {t:?}", r[i], r[j]));
                            }
                        }
                    }
                }
                Ok(())
            }
            "langs" => {
                let v = make(|i| langs(&s[i]))?;
                let den = |l: &LanguageSet| match l {
                    LanguageSet::Any => None,
                    LanguageSet::NoLanguages => Some(BTreeSet::new()),
                    LanguageSet::SomeLanguages(s) => Some(s.clone()),
                };
                // the empty set has several representations: whether they are equal isn't decided, only that they're the same as themselves
                keys(k, &v, &|i, j| {
                    let (a, b) = (den(&v[i]), den(&v[j]));
                    if a == b && a.is_some_and(|x| x.is_empty()) && s[i] != s[j] {
                        None
                    } else {
                        Some(den(&v[i]) == b)
                    }
                })
            }
            "result" => {
                let v = make(|i| DoubleMetaphone::new(max(n(i) - 1)).double_metaphone(&s[i]))?;
                let t = sut("codes", || v.each_ref().map(|r| (r.primary(), r.alternate())))?;
                // results with the same codes under different limits: not decided
                keys(k, &v, &|i, j| if t[i] != t[j] { Some(false) } else if max(n(i) - 1) == max(n(j) - 1) { Some(true) } else { None })
            }
            "error" | "phonetic" => {
                let e = |i: usize| {
                    let r = route(i);
                    if let Some((f, (d, c))) = s[i].split_once('\u{1}').and_then(|(f, r)| Some((f, r.split_once('\u{1}')?))) {
                        return ParseError { line_number: n(i).max(0) as usize, filename: Some(f.into()), line_content: c.into(), description: d.into() };
                    }
                    ParseError {
                        line_number: n(i).max(0) as usize,
                        filename: match r {
                            0 | 1 => None,
                            2 => Some(String::new()),
                            3 => Some("Unknown".into()),
                            _ => Some(s[i].clone()),
                        },
                        line_content: if r % 2 == 0 { s[i].clone() } else { String::new() },
                        description: if r % 2 == 1 { s[i].clone() } else { String::new() },
                    }
                };
                let f = [e(0), e(1), e(2)];
                let t = f.each_ref().map(|e| (e.line_number, e.filename.clone(), e.line_content.clone(), e.description.clone()));
                let same = by(&|i, j| t[i] == t[j]);
                if k == "error" {
                    return keys(k, &f, &*same);
                }
                let v = f.map(PhoneticError::from);
                equality(k, &v, &*same)
            }
            "bmerror" => {
                let v = make(|i| bm_error(n(i), &s[i]))?;
                // 7 is made from an input error, and becomes the same as 2
                let id = |i: usize| match n(i).rem_euclid(9) {
                    7 => 2,
                    x => x,
                };
                let same = by(&|i, j| {
                    id(i) == id(j)
                        && match id(i) {
                            8 => s[i].chars().count() % 3 == s[j].chars().count() % 3,
                            _ => s[i] == s[j],
                        }
                });
                equality(k, &v, &*same)?;
                equality("PhoneticError", &v.map(PhoneticError::from), &*same)
            }
            "chars" => {
                // the same text at other addresses, alone or inside another
                let holders: Vec<String> = (0..3).map(|i| if route(i) % 2 == 0 { s[i].clone() } else { format!("é{}x", s[i]) }).collect();
                let v = make(|i| {
                    let h = holders[i].as_str();
                    CharSequence::from(if route(i) % 2 == 0 { h } else { &h[2..h.len() - 1] })
                })?;
                keys(k, &v, &*by(&|i, j| s[i] == s[j]))
            }
            "name" => keys(k, &[0, 1, 2].map(|i| NAME_TYPES[n(i).rem_euclid(3) as usize]), &*by(&|i, j| n(i).rem_euclid(3) == n(j).rem_euclid(3))),
            _ => keys(k, &[0, 1, 2].map(|i| RULE_TYPES[n(i).rem_euclid(2) as usize]), &*by(&|i, j| n(i).rem_euclid(2) == n(j).rem_euclid(2))),
        }
    }
    fn seconds(&self) -> (u64, u64) {
        (12, 200)
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["two values found equal", "two values found different", "an order observed", "hashes observed"]
    }
}
