//! C03 to C13: one text (or two), one configuration, a reference model.
use super::*;
use crate::core::{bad, sut, Obs, Prop, Verdict};
use crate::enc::{mapping, max};
use crate::{dmeta, ev, models};
use rphonetic::*;

type EnumF = fn(&mut Gen, bool, usize, usize, &mut dyn FnMut(&Case) -> bool);

pub struct Simple {
    id: &'static str,
    rule: &'static str,
    files: &'static [&'static str],
    alphabet: &'static str,
    len: usize,
    gen: fn(&mut Gen, &Simple) -> Case,
    enumerate: EnumF,
    check: fn(&Case, &mut Obs) -> Verdict,
    repair: fn(&mut Case) -> bool,
    events: &'static [&'static str],
}

impl Prop for Simple {
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn files(&self) -> &'static [&'static str] {
        self.files
    }
    fn enumerate(&self, g: &mut Gen, thorough: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        // long texts of a letter, often silent, and a few others at the end
        let mut i = 0;
        for x in ('a'..='z').map(|x| x.to_string()).chain(["é".into(), " ".into(), "ae".into(), "hw".into(), "bd".into(), "lamg".into()]) {
            for (len, end) in [(70, "t"), (140, "rs"), (300, "t"), (600, "bds"), (600, "ay"), (1100, "t"), (1100, "as"), (2060, "mes"), (4200, "t"), (66_000, "d")] {
                i += 1;
                if i % n != w || (self.id == "C08" && len > 2100) || (len > 60_000 && !thorough && i % 7 != 0) {
                    continue;
                }
                let mut c = (self.gen)(g, self);
                let k = c.s.len() - 1;
                let first = if i % 2 == 0 { "" } else { "k" };
                c.s[k] = format!("{first}{}{end}", x.repeat(len / x.chars().count()));
                if (self.repair)(&mut c) && !f(&c) {
                    return;
                }
            }
        }
        (self.enumerate)(g, thorough, w, n, f)
    }
    fn gen(&self, g: &mut Gen) -> Case {
        g.long = (if self.id == "C08" { 2100 } else { 140_000 }, 60);
        (self.gen)(g, self)
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if !c.n.is_empty() && g.rng.chance(1, 6) {
            c.n = (self.gen)(g, self).n;
        } else if c.s.len() == 2 && self.id <= "C04" && g.rng.chance(3, 4) {
            g.mutate_str(&mut c.s[0], self.alphabet);
        } else {
            let k = g.rng.below(c.s.len());
            g.mutate_str(&mut c.s[k], self.alphabet);
        }
    }
    fn repair(&self, c: &mut Case) -> bool {
        (self.repair)(c)
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        (self.check)(c, o)
    }
    fn required_events(&self) -> &'static [&'static str] {
        self.events
    }
}

fn any_case(_: &mut Case) -> bool {
    true
}
fn text1(g: &mut Gen, p: &Simple) -> Case {
    Case::t("t", vec![text(g, p)], vec![])
}
fn text(g: &mut Gen, p: &Simple) -> String {
    let max = match g.rng.below(40) {
        0 => 400,
        1..=4 => 60,
        _ => p.len,
    };
    g.text(p.alphabet, max)
}

/// Short strings exhaustively, then every literal of the algorithm in context.
fn letters_enum(
    alpha: &str,
    n4: &[i64],
    g: &mut Gen,
    thorough: bool,
    w: usize,
    n: usize,
    f: &mut dyn FnMut(&Case) -> bool,
) -> bool {
    let a: Vec<char> = alpha.chars().collect();
    let top = if thorough { 5 } else { 4 };
    for len in 0..=top {
        if !all_strings(&a, len, w, n, &mut |s| f(&case_text("t", s, n4))) {
            return false;
        }
    }
    let one = strings(alpha, 1);
    let two = strings("AEIOUYHSCTNLMRKZ", 2);
    let three = if thorough { strings("AEISHTNRMC", 3) } else { strings("AESN", 3) };
    contexts(g, &one, &two, w, n, &mut |s| f(&case_text("t", s, n4)))
        && contexts(g, &two, &one, w, n, &mut |s| f(&case_text("t", s, n4)))
        && contexts(g, &three, &one, w, n, &mut |s| f(&case_text("t", s, n4)))
        && contexts(g, &one, &three, w, n, &mut |s| f(&case_text("t", s, n4)))
        && {
            // two literals with a letter between
            let toks = g.tokens.clone();
            let mut i = 0;
            let mid = ["", "A", "T", "S", "H"];
            let mut ok = true;
            'o: for a in &toks {
                for b in &toks {
                    for m in mid {
                        i += 1;
                        if i % n == w && !f(&case_text("t", format!("{a}{m}{b}"), n4)) {
                            ok = false;
                            break 'o;
                        }
                    }
                }
            }
            ok
        }
}

macro_rules! letters {
    ($alpha:expr, $n:expr) => {
        |g, t, w, n, f| {
            letters_enum($alpha, &$n, g, t, w, n, f);
        }
    };
}

fn show(o: &mut Obs, s: &str, got: &str) {
    o.note(|| format!("{s:?} -> {got:?}"));
    o.oracle += 1;
}
fn compare(what: &str, s: &str, got: &str, want: &str, o: &mut Obs) -> Verdict {
    o.nontrivial = want.chars().count() > 1;
    show(o, s, got);
    if got != want {
        return bad(format!("{what}({s:?}) = {got:?}, the algorithm gives {want:?}"));
    }
    Ok(())
}

const AZ: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";

fn gen_mapping(g: &mut Gen) -> String {
    match g.rng.below(6) {
        0 | 1 => String::new(),
        2 => DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX.iter().collect(),
        3 => {
            let a: Vec<char> = "0123-".chars().collect();
            (0..26).map(|_| *g.rng.pick(&a)).collect()
        }
        4 => {
            let a: Vec<char> = "00123456789-".chars().collect();
            (0..26).map(|_| *g.rng.pick(&a)).collect()
        }
        _ => (0..26).map(|_| if g.rng.chance(1, 2) { *g.rng.clone().pick(&['0', '-', '1', 'é', 'H']) } else { g.any_char() }).collect(),
    }
}
fn repair_mapping(c: &mut Case) -> bool {
    // s[1] must be empty or have 26 characters
    let v: Vec<char> = c.s[1].chars().collect();
    if !v.is_empty() && v.len() != 26 {
        c.s[1] = if v.len() > 26 { v[..26].iter().collect() } else { v.iter().cycle().take(26).collect() };
    }
    true
}

fn soundex_check(c: &Case, o: &mut Obs) -> Verdict {
    let m = mapping(&c.s[1]);
    let s = &c.s[0];
    let (enc, map, hw) = match (m, c.n[0]) {
        (None, 2) => (Soundex::default(), DEFAULT_US_ENGLISH_MAPPING_SOUNDEX, true),
        (None, n) => (Soundex::new(DEFAULT_US_ENGLISH_MAPPING_SOUNDEX, n == 1), DEFAULT_US_ENGLISH_MAPPING_SOUNDEX, n == 1),
        (Some(m), 2) => (Soundex::from(m), m, !m.contains(&'-')),
        (Some(m), n) => (Soundex::new(m, n == 1), m, n == 1),
    };
    let got = sut("encode", || enc.encode(s))?;
    let want = models::soundex(&map, hw, s);
    compare(&format!("Soundex with {} special_case_h_w={hw}", map.iter().collect::<String>()), s, &got, &want, o)
}
fn refined_check(c: &Case, o: &mut Obs) -> Verdict {
    let s = &c.s[0];
    const US: &str = "01360240043788015936020505";
    let (enc, map) = match mapping(&c.s[1]) {
        None => (RefinedSoundex::default(), mapping(US).unwrap()),
        Some(m) => (RefinedSoundex::new(m), m),
    };
    let got = sut("encode", || enc.encode(s))?;
    let want = models::refined(&map, s);
    compare(&format!("RefinedSoundex with {}", map.iter().collect::<String>()), s, &got, &want, o)
}
fn mapping_enum(g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
    let a: Vec<char> = "ABFCDLHWéÇ1".chars().collect();
    let maps: Vec<String> =
        [String::new(), DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX.iter().collect()].into_iter().chain((0..6).map(|_| gen_mapping(g))).collect();
    // the generator differs per worker: maps are only used by their own worker, on all strings
    for (i, m) in maps.iter().enumerate() {
        let (w, n) = if i < 2 { (w, n) } else { (0, 1) };
        for hw in 0..3 {
            for len in 0..=(if t { 5 } else if i < 2 { 4 } else { 3 }) {
                if !all_strings(&a, len, w, n, &mut |s| f(&Case::t("t", vec![s, m.clone()], vec![hw]))) {
                    return;
                }
            }
        }
    }
    let az: Vec<char> = AZ.chars().collect();
    for len in 0..=(if t { 5 } else { 4 }) {
        if !all_strings(&az, len, w, n, &mut |s| f(&Case::t("t", vec![s, String::new()], vec![2]))) {
            return;
        }
    }
}

fn one<T: Encoder>(name: &str, e: &T, s: &str, want: String, o: &mut Obs) -> Verdict {
    let got = sut("encode", || e.encode(s))?;
    compare(name, s, &got, &want, o)
}

fn cut(s: &str, max: Option<usize>) -> String {
    match max {
        None => s.into(),
        Some(n) => s.chars().take(n).collect(),
    }
}
fn dmeta_check(c: &Case, o: &mut Obs) -> Verdict {
    let (s, m) = (&c.s[0], max(c.n[0]));
    let (p, a) = dmeta::codes(s);
    let (p, a) = (cut(&p, m), cut(&a, m));
    let e = DoubleMetaphone::new(m);
    let r = sut("double_metaphone", || e.double_metaphone(s))?;
    let (gp, ga) = (r.primary(), r.alternate());
    o.nontrivial = p.chars().count() > 1;
    show(o, s, &format!("{gp} {ga}"));
    if gp != p || ga != a {
        return bad(format!("double_metaphone({s:?}) with maximum {m:?} = {gp:?}, {ga:?}; the algorithm gives {p:?}, {a:?}"));
    }
    if o.oracle % 2 == 1 || c.n.len() > 1 {
        let (x, y) = sut("encode", || (e.encode(s), e.encode_alternate(s)))?;
        if x != gp || y != ga {
            return bad(format!("encode({s:?}) = {x:?}, encode_alternate = {y:?}, double_metaphone gave {gp:?}, {ga:?}"));
        }
    }
    Ok(())
}

fn mra_check(c: &Case, o: &mut Obs) -> Verdict {
    let (a, b) = (&c.s[0], &c.s[1]);
    let e = MatchRatingApproach;
    let got = sut("is_encoded_equals", || e.is_encoded_equals(a, b))?;
    let want = models::mra_equal(a, b);
    o.nontrivial = a != b && !a.trim().is_empty() && !b.trim().is_empty();
    o.note(|| format!("{a:?} {b:?} -> {got}"));
    if want {
        ev!("mra: match");
    } else {
        ev!("mra: no match");
    }
    if got != want {
        return bad(format!("is_encoded_equals({a:?}, {b:?}) = {got}, the minimum-rating rule gives {want}"));
    }
    let back = sut("is_encoded_equals", || e.is_encoded_equals(b, a))?;
    if back != got {
        return bad(format!("is_encoded_equals({a:?}, {b:?}) = {got} but {back} with the arguments exchanged"));
    }
    Ok(())
}
fn mra_gen(g: &mut Gen, p: &Simple) -> Case {
    let a = text(g, p);
    let b = match g.rng.below(5) {
        0 => text(g, p),
        1 => a.chars().rev().collect(),
        _ => {
            let mut b = a.clone();
            for _ in 0..g.rng.range(0, 4) {
                g.mutate_str(&mut b, p.alphabet);
            }
            b
        }
    };
    Case::t("t", vec![a, b], vec![])
}

pub fn add(v: &mut Vec<Box<dyn Prop>>) {
    let base = |id, rule, files, alphabet| Simple {
        id,
        rule,
        files,
        alphabet,
        len: 24,
        gen: text1,
        enumerate: letters!(AZ, []),
        check: |_, _| Ok(()),
        repair: any_case,
        events: &[],
    };
    let sdx = |g: &mut Gen, p: &Simple| {
        let s = text(g, p);
        let m = gen_mapping(g);
        Case::t("t", vec![s, m], vec![g.rng.below(3) as i64])
    };
    v.push(Box::new(Simple {
        gen: sdx,
        repair: repair_mapping,
        enumerate: mapping_enum,
        check: soundex_check,
        events: &["soundex: cut", "soundex: padded", "soundex: silent letter", "soundex: separator", "soundex: equal code", "soundex: H or W passed over"],
        ..base(
            "C03",
            "a case is a text, a mapping (default, genealogy, or random) and special_case_h_w; the code is compared with a reference model; non-trivial: the code has two characters or more",
            &["src/soundex.rs", "src/lib.rs"],
            "AEIOUYHWHWHWBFPVCGJKQSXZDTLMNR",
        )
    }));
    v.push(Box::new(Simple {
        gen: sdx,
        repair: repair_mapping,
        enumerate: mapping_enum,
        check: refined_check,
        events: &["refined: letter without code", "refined: equal code"],
        ..base(
            "C04",
            "a case is a text and a mapping; the code is compared with a reference model; non-trivial: two characters or more",
            &["src/refined_soundex.rs", "src/lib.rs"],
            "AEIOUYHWBFPVCGJKQSXZDTLMNR",
        )
    }));
    v.push(Box::new(Simple {
        check: |c, o| one("Caverphone1", &Caverphone1, &c.s[0], models::caverphone1(&c.s[0]), o),
        ..base(
            "C05",
            "a case is a text; the code is compared with an independent interpreter of the published rule table; non-trivial: any",
            &["src/caverphone.rs", "src/helper.rs"],
            "AEIOUYAEIOUYHWGHTCKDQXBPFVSSNMLRTJZ",
        )
    }));
    v.push(Box::new(Simple {
        check: |c, o| one("Caverphone2", &Caverphone2, &c.s[0], models::caverphone2(&c.s[0]), o),
        ..base(
            "C06",
            "a case is a text; the code is compared with an independent interpreter of the published rule table; non-trivial: any",
            &["src/caverphone.rs", "src/helper.rs"],
            "AEIOUYAEIOUYHWGHTCKDQXBPFVSSNMLRTJZ",
        )
    }));
    v.push(Box::new(Simple {
        check: |c, o| one("Cologne", &Cologne, &c.s[0], models::cologne(&c.s[0]), o),
        enumerate: |g, t, w, n, f| {
            if letters_enum("ABCDFGHKLMNPQRSTXZ -Ä", &[], g, t, w, n, f) {
                let a: Vec<char> = "ACHKSXTP -1ß".chars().collect();
                all_strings(&a, if t { 7 } else { 5 }, w, n, &mut |s| f(&case_text("t", s, &[])));
            }
        },
        ..base(
            "C07",
            "a case is a text; the code is compared with a reference model of the context table; non-trivial: two characters or more",
            &["src/cologne.rs"],
            "AEOÄÖÜHHPPCCCKQXXSZDTTGBFVWLMNRJY -1ß",
        )
    }));
    let with_max = |g: &mut Gen, p: &Simple| {
        let s = text(g, p);
        Case::t("t", vec![s], vec![g.max_len()])
    };
    v.push(Box::new(Simple {
        gen: with_max,
        enumerate: |g, t, w, n, f| {
            if letters_enum("ABCDEFGHIKLMNOPQRSTUVWXYZ", &[-1], g, t, w, n, f) {
                let a: Vec<char> = "ACGHINESTM".chars().collect();
                for m in [-1, 0, 1, 2, 3, 4] {
                    let len = if m == -1 { if t { 7 } else { 6 } } else { 4 };
                    if !all_strings(&a, len, w, n, &mut |s| f(&case_text("t", s, &[m]))) {
                        return;
                    }
                }
            }
        },
        check: |c, o| one(&format!("Metaphone {:?}", max(c.n[0])), &Metaphone::new(max(c.n[0])), &c.s[0], models::metaphone(max(c.n[0]), &c.s[0]), o),
        ..base(
            "C08",
            "a case is a text and a maximum length; the code is compared with a reference model of Metaphone; non-trivial: two characters or more",
            &["src/metaphone.rs", "src/helper.rs"],
            "AEIOUYAEICCCHHHGGGDDTTSSSNNNMBKPWWRXQZLFVJIIAOE",
        )
    }));
    v.push(Box::new(Simple {
        gen: |g, p| {
            let s = text(g, p);
            Case::t("t", vec![s], vec![g.max_len(), 1])
        },
        enumerate: |g, t, w, n, f| {
            if letters_enum("ABCDEFGHIJKLMNOPQRSTUVWXYZ Ç", &[-1], g, t, w, n, f) {
                let a: Vec<char> = "ACGHIESTZWL".chars().collect();
                all_strings(&a, if t { 7 } else { 5 }, w, n, &mut |s| f(&case_text("t", s, &[-1])));
            }
        },
        check: dmeta_check,
        ..base(
            "C09",
            "a case is a text and a maximum length; both codes are compared with a reference model of Double Metaphone, and encode/encode_alternate with double_metaphone; non-trivial: two characters or more",
            &["src/double_metaphone.rs"],
            "AEIOUYAEIOCCCCGGGGHHHHSSSSTTZZWWJLLMNRKDBPFVXQÇÑ ",
        )
    }));
    v.push(Box::new(Simple {
        gen: |g, p| {
            let s = text(g, p);
            Case::t("t", vec![s], vec![g.rng.below(3) as i64 & 1])
        },
        enumerate: letters!(AZ, [0]),
        check: |c, o| {
            let strict = c.n[0] != 0;
            one(&format!("Nysiis strict={strict}"), &Nysiis::new(strict), &c.s[0], models::nysiis(strict, &c.s[0]), o)
        },
        ..base(
            "C10",
            "a case is a text and strictness; the code is compared with a reference model of NYSIIS; non-trivial: two characters or more",
            &["src/nysiis.rs", "src/lib.rs"],
            "AEIOUYAEIOMMACKKNNPPHHSSCCVVQZWWEEDTTRRDFGL",
        )
    }));
    v.push(Box::new(Simple {
        gen: |g, p| {
            let s = text(g, p);
            let n = match g.rng.below(8) {
                0..=2 => 4,
                3..=5 => g.rng.below(12) as i64,
                6 => 60,
                _ if g.rng.chance(1, 40) => g.boundary(140_000) as i64,
                _ => g.rng.below(700) as i64,
            };
            Case::t("t", vec![s], vec![n])
        },
        enumerate: |g, t, w, n, f| {
            if letters_enum("ABCDEGHIJKLMNOPQRSTUVWXYZ", &[12], g, t, w, n, f) {
                let a: Vec<char> = "ACDGHLNRSMT".chars().collect();
                all_strings(&a, if t { 7 } else { 5 }, w, n, &mut |s| f(&case_text("t", s, &[9])));
            }
        },
        check: |c, o| {
            let n = c.n[0].clamp(0, 150_000) as usize;
            one(&format!("Phonex {n}"), &Phonex::new(n), &c.s[0], models::phonex(n, &c.s[0]), o)
        },
        ..base(
            "C11",
            "a case is a text and a length; the code is compared with a reference model of Phonex and its length checked; non-trivial: two characters or more",
            &["src/phonex.rs", "src/lib.rs"],
            "AEIOUYHWBPFVCSKGJQXZDTDTCCLLRRMNMNGGDD",
        )
    }));
    v.push(Box::new(Simple {
        enumerate: |g, t, w, n, f| {
            if letters_enum("ABCDEFGHILMNRSTUY -'É", &[], g, t, w, n, f) {
                let a: Vec<char> = "ABCEDT .".chars().collect();
                all_strings(&a, if t { 8 } else { 6 }, w, n, &mut |s| f(&case_text("t", s, &[])));
            }
        },
        check: |c, o| one("MatchRatingApproach", &MatchRatingApproach, &c.s[0], models::mra_code(&c.s[0]), o),
        ..base(
            "C12",
            "a case is a text; the code is compared with a reference model; non-trivial: two characters or more",
            &["src/match_rating_approach.rs"],
            "AEIOUBCDFGHJKLMNPQRSTVWXYZBBCCDDSS -'.,&ÀÉÎÕÜÿß",
        )
    }));
    v.push(Box::new(Simple {
        len: 12,
        gen: mra_gen,
        enumerate: |_, t, w, n, f| {
            let a: Vec<char> = "BCAD".chars().collect();
            let mut words = vec![];
            for l in 0..=(if t { 5 } else { 4 }) {
                all_strings(&a, l, 0, 1, &mut |s| {
                    words.push(s);
                    true
                });
            }
            let mut i = 0;
            for x in &words {
                for y in &words {
                    i += 1;
                    if i % n == w && x.len() + y.len() > 1 && !f(&Case::t("t", vec![x.clone(), y.clone()], vec![])) {
                        return;
                    }
                }
            }
        },
        check: mra_check,
        events: &["mra: match", "mra: no match"],
        ..base(
            "C13",
            "a case is a pair of texts; the verdict is compared with a reference model of the minimum-rating rule and with the verdict on the exchanged pair; non-trivial: two different texts that are not blank",
            &["src/match_rating_approach.rs"],
            "AEIOUBCDFGHJKLMNPQRSTVWXYZBCDSTNM -'.,&ÀÉ",
        )
    }));
}
