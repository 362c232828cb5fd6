//! C14, C15: Daitch-Mokotoff.
use super::*;
use crate::core::{bad, sut, Obs, Prop, Stop, Verdict};
use crate::enc::DM_RULES;
use crate::{dm, ev};
use rphonetic::*;
use std::collections::HashMap;
use std::sync::{LazyLock, Mutex};

pub struct C14;
pub struct C15;

static SHIPPED: LazyLock<dm::Rules> = LazyLock::new(|| dm::parse(&DM_RULES).unwrap());
static PATTERNS: LazyLock<Vec<String>> = LazyLock::new(|| {
    let mut v: Vec<String> = SHIPPED.rules.iter().map(|r| r.pat.iter().collect()).collect();
    v.extend(SHIPPED.folds.keys().map(|c| c.to_string()));
    v
});
const ALPHA: &str = "AEIOUAEIOUMNMNSCZSCZTHRDJKPBFGLVWXYÖÄßŚ ";

fn shipped(folding: bool) -> Result<&'static DaitchMokotoffSoundex, Stop> {
    static C: Mutex<Option<HashMap<bool, &'static DaitchMokotoffSoundex>>> = Mutex::new(None);
    let mut g = C.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(e) = m.get(&folding) {
        return Ok(e);
    }
    let e = sut("build", || DaitchMokotoffSoundexBuilder::with_rules(&DM_RULES).ascii_folding(folding).build())?;
    let e = match e {
        Ok(e) => Box::leak(Box::new(e)),
        Err(e) => return bad(format!("the shipped rules are refused: {e}")),
    };
    m.insert(folding, e);
    Ok(e)
}

fn word(g: &mut Gen) -> String {
    match g.rng.below(4) {
        0 => {
            let n = g.rng.range(1, 6);
            (0..n).map(|_| g.rng.pick(&PATTERNS[..]).clone()).collect()
        }
        1 => {
            let mut s = String::new();
            for _ in 0..g.rng.range(1, 5) {
                if g.rng.chance(1, 2) {
                    s += &g.letters("AEIOU", 2);
                }
                s += g.rng.clone().pick(&PATTERNS[..]);
                g.rng.next();
            }
            g.vary_case(&s)
        }
        _ => {
            let max = if g.rng.chance(1, 200) {
                400
            } else if g.rng.chance(1, 20) {
                60
            } else {
                16
            };
            g.text(ALPHA, max)
        }
    }
}

fn replacement(g: &mut Gen) -> String {
    let one = |g: &mut Gen| -> String {
        match g.rng.below(10) {
            0 => String::new(),
            1 => g.letters("0123456789", 3),
            2 => g.letters("01", 8),
            3 => g.letters("6é𝒶a", 4),
            _ => ((b'0' + g.rng.below(10) as u8) as char).to_string(),
        }
    };
    let n = if g.rng.chance(1, 3) { g.rng.range(2, 3) } else { 1 };
    (0..n).map(|_| one(g)).collect::<Vec<_>>().join("|")
}
fn pattern(g: &mut Gen) -> String {
    match g.rng.below(16) {
        0..=1 => g.letters("abßé𝒶 ", 3),
        2..=4 => g.letters("mnaé", 3),
        5..=6 => g.letters("mna", 9),
        7 => g.letters("abAMÉI", 3),
        8 => g.letters("abcmnsté", 40),
        _ => g.letters("abcmnst", 4),
    }
}
pub fn rule_set(g: &mut Gen) -> String {
    let n = if g.rng.chance(1, 30) { g.rng.range(10, 200) } else { g.rng.range(1, 9) };
    let mut s = String::new();
    for _ in 0..n {
        if g.rng.chance(1, 6) {
            let a = *g.rng.pick(&['a', 'b', 'c', 't', 'é', 'ß', 'ä', 'm', 'x', ' ', '=', 'é', 'A', 'M', 'É', 'İ', 'ẞ', 'S']);
            let b = *g.rng.pick(&['a', 'b', 'é', 'n', '𝒶', 's', ' ', 'A', 'É', 'm']);
            s += &format!("{a}={b}\n");
        } else {
            s += &format!("\"{}\" \"{}\" \"{}\" \"{}\"\n", pattern(g), replacement(g), replacement(g), replacement(g));
        }
    }
    s
}

/// A text for generated rules.
pub fn rule_text(g: &mut Gen) -> String {
    let a = *g.rng.pick(&["abcmnst", "abcmnst", "abcmnsté ßaeiouäx=", "aAbBmMnNsStTéÉßẞİi x"]);
    g.letters(a, 16)
}

fn encode_all(e: &DaitchMokotoffSoundex, r: &dm::Rules, folding: bool, s: &str, feat: bool, o: &mut Obs) -> Verdict {
    let want = dm::encode(r, folding, s, true, feat);
    let first = dm::encode(r, folding, s, false, false);
    let got = sut("inner_soundex", || e.inner_soundex(s, true))?;
    o.note(|| format!("{s:?} -> {got:?}"));
    if got != want {
        return bad(format!("inner_soundex({s:?}, true) with folding {folding} = {got:?}, the rules give {want:?}"));
    }
    let got1 = sut("inner_soundex", || e.inner_soundex(s, false))?;
    if got1 != first {
        return bad(format!("inner_soundex({s:?}, false) with folding {folding} = {got1:?}, the rules give {first:?}"));
    }
    let (j, c) = sut("soundex, encode", || (e.soundex(s), e.encode(s)))?;
    if j != want.join("|") || c != first[0] {
        return bad(format!("soundex({s:?}) = {j:?}, encode = {c:?}; the rules give {want:?} and {first:?}"));
    }
    o.nontrivial |= want.iter().any(|c| c != "000000");
    Ok(())
}

impl Prop for C14 {
    fn seconds(&self) -> (u64, u64) {
        (16, 600)
    }
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "a case is a text, a rule set (shipped, or generated with overlapping patterns and alternatives) and folding; inner_soundex with and without branching, soundex and encode are compared with a reference model; non-trivial: a code other than 000000"
    }
    fn files(&self) -> &'static [&'static str] {
        &["src/daitch_mokotoff.rs"]
    }
    fn enumerate(&self, _g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        let a: Vec<char> = "abcdefghijklmnopqrstuvwxyz".chars().collect();
        for len in 0..=(if t { 4 } else { 3 }) {
            if !all_strings(&a, len, w, n, &mut |s| f(&Case::t("t", vec![s, String::new()], vec![1]))) {
                return;
            }
        }
        let mut i = 0;
        // long texts that have a short code up to their end
        for x in ["a", "b", "h", "i", "j", "rs", "nm", "ţ", " ", "?", "é", "y"] {
            for (len, end) in [(70, "t"), (140, "rs"), (300, "t"), (600, "bd"), (1100, "ch"), (2100, "mes"), (4200, "t"), (9000, "t")] {
                i += 1;
                if i % n != w || (len > 2100 && !t && matches!(x, "j" | "rs" | "ţ")) {
                    continue;
                }
                let s = format!("{}{}{end}", ["", "k"][i / 3 % 2], x.repeat(len / x.chars().count()));
                if !f(&Case::t("t", vec![s, String::new()], vec![i as i64 & 1])) {
                    return;
                }
            }
        }
        for p in PATTERNS.iter() {
            for q in PATTERNS.iter() {
                for v in ["", "a", "m"] {
                    for pre in if t { &["", "a", "n", "t"][..] } else { &["", "a"][..] } {
                        i += 1;
                        if i % n == w && !f(&Case::t("t", vec![format!("{pre}{p}{v}{q}"), String::new()], vec![i as i64 & 1])) {
                            return;
                        }
                    }
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let f = g.rng.below(2) as i64;
        if g.rng.chance(1, 2) {
            let w = word(g);
            Case::t("t", vec![w, String::new()], vec![f])
        } else {
            let r = rule_set(g);
            let s = match g.rng.below(6) {
                0..=1 => word(g),
                2 => g.letters("abcmnst", 16),
                3 => g.letters("abcmnsté ßaeiou", 20),
                4 => rule_text(g),
                // made of the rules' own patterns
                _ => {
                    let p: Vec<&str> = r.lines().filter_map(|l| l.split('"').nth(1)).collect();
                    let mut s = String::new();
                    for _ in 0..g.rng.range(1, 6) {
                        if !p.is_empty() {
                            s += g.rng.pick(&p[..]);
                        }
                        if g.rng.chance(1, 3) {
                            s += &g.letters("aeimnb", 2);
                        }
                    }
                    g.vary_case(&s.chars().take(40).collect::<String>())
                }
            };
            Case::t("t", vec![s, r], vec![f])
        }
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if g.rng.chance(1, 8) {
            c.n[0] ^= 1;
        } else if !c.s[1].is_empty() && g.rng.chance(1, 3) {
            let mut r = std::mem::take(&mut c.s[1]);
            g.mutate_str(&mut r, "ABCMNST0123456789\"|=\n ");
            c.s[1] = if g.rng.chance(1, 2) { r.to_lowercase() } else { r };
        } else if c.s[1].is_empty() && g.rng.chance(1, 2) {
            let p = g.rng.pick(&PATTERNS[..]).clone();
            let v: Vec<char> = c.s[0].chars().collect();
            let k = g.rng.below(v.len() + 1);
            c.s[0] = v[..k].iter().collect::<String>() + &p + &v[k..].iter().collect::<String>();
        } else {
            let mut s = std::mem::take(&mut c.s[0]);
            g.mutate_str(&mut s, ALPHA);
            c.s[0] = s;
        }
    }
    fn repair(&self, c: &mut Case) -> bool {
        if c.s[1].is_empty() {
            return true;
        }
        // rules that are not accepted belong to C15; the number of codes is kept reasonable
        c.s[0].chars().count() <= 40
            && !c.s[1].contains('\0')
            && match dm::parse(&c.s[1]) {
                Ok(r) => r.rules.iter().all(|r| r.rep.iter().all(|a| a.len() <= 3)) && (r.rules.len() <= 14 || c.s[0].chars().count() <= 12 && r.rules.len() <= 250),
                Err(_) => false,
            }
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        let folding = c.n[0] != 0;
        if c.s[1].is_empty() {
            return encode_all(shipped(folding)?, &SHIPPED, folding, &c.s[0], true, o);
        }
        let Ok(r) = dm::parse(&c.s[1]) else { return Ok(()) };
        match sut("build", || DaitchMokotoffSoundexBuilder::with_rules(&c.s[1]).ascii_folding(folding).build())? {
            Ok(e) => {
                ev!("dm: generated rules");
                encode_all(&e, &r, folding, &c.s[0], false, o)
            }
            Err(e) => bad(format!("well-formed rules are refused: {e}")),
        }
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["dm: branching", "dm: equal branches", "dm: m next to n", "dm: replacement not repeated", "dm: folded character", "dm: generated rules"]
    }
}

/// Rules that may be wrong.
pub fn any_rules(g: &mut Gen) -> String {
    let n = g.rng.range(1, 8);
    let nl = *g.rng.pick(&["\n", "\n", "\n", "\r\n", "\r"]);
    let mut s = String::new();
    for i in 0..n {
        s += &line(g);
        if i + 1 < n || g.rng.chance(2, 3) {
            s += if g.rng.chance(1, 12) { "\r\n" } else { nl };
        }
    }
    s
}
fn line(g: &mut Gen) -> String {
    let q = |g: &mut Gen| {
        let sp = g.rng.clone();
        g.rng.next();
        let sep = *sp.clone().pick(&[" ", "  ", "\t", " \t "]);
        format!("\"{}\"{sep}\"{}\"{sep}\"{}\" \"{}\"", pattern(g), replacement(g), replacement(g), replacement(g))
    };
    match g.rng.below(20) {
        0..=7 => q(g),
        8 => q(g) + *g.rng.pick(&[" // c", "// c", " ", "\t", " /* no */", " x", " /", "\"", " \"\""]),
        9 => {
            let v: Vec<&str> = DM_RULES.lines().collect();
            v[g.rng.below(v.len())].to_string()
        }
        10 => match g.rng.below(4) {
            0 => {
                let c = g.any_char();
                format!("{c}={c}")
            }
            // the same characters again and again
            1 | 2 => format!("{}={}", *g.rng.clone().pick(&['a', 'b', 'B', 'é', 'c']), {
                g.rng.next();
                *g.rng.pick(&['a', 'b', 'c', 'é'])
            }),
            _ => format!("{}={}", g.any_char(), g.any_char()),
        },
        11 => format!("{}={}{}", g.any_char(), g.any_char(), *g.rng.clone().pick(&[" ", " // x", "x", "=", "\t"])),
        12 => (*g.rng.pick(&["", " ", "\t", "// comment", "  // comment \"a\"", "//", "/ /"])).to_string(),
        13 => "/* one line */".to_string() + *g.rng.pick(&["", " ", " // more", " x", "*/", "/"]),
        14 => (*g.rng.pick(&["/* several\nlines */", "/*\n * x\n */", "/**/", "/*/", "/*\n", "/* a\n\nb */ \n", "/***/", "/*\r\n*/", " /* x */"])).to_string(),
        15 => {
            let mut l = q(g);
            let n = g.rng.range(1, 3);
            for _ in 0..n {
                g.mutate_str(&mut l, "AB\"\" |=/*\r\n\t");
            }
            l
        }
        16 => (*g.rng.pick(&[
            "\"\" \"1\" \"2\" \"3\"",
            "\"a\" \"1\" \"2\"",
            "\"a\" \"1\" \"2\" \"3\" \"4\"",
            "\"a\"\"1\"\"2\"\"3\"",
            "\"a\" \"1\" \"2\" 3",
            "'a' '1' '2' '3'",
            "\"a \"1\" \"2\" \"3\"",
            "ab=c",
            "a==",
            "===",
            "a=",
            "=a",
            "a =b",
            "\"\\\"\" \"1\" \"2\" \"3\"",
            "\"a\\\"\" \"1\" \"2\" \"3\"",
            "\"a\" \"\" \"\" \"\"",
            "\"a\" \"|\" \"|1\" \"1|\"",
            " \"a\" \"1\" \"2\" \"3\"",
        ]))
        .to_string(),
        17 => (*g.rng.pick(&["\u{feff}", "é", "\"é\" \"1\" \"2\" \"3\"", "é=e", "😀=a", "\u{2028}", "\u{a0}"])).to_string(),
        _ => q(g),
    }
}

/// Texts that exercise every rule of a rule text, and characters around.
fn probes(r: &dm::Rules) -> Vec<String> {
    let mut v = vec![String::new(), "abcmnst".into(), "amanbasa".into()];
    let p: Vec<String> = r.rules.iter().take(12).map(|r| r.pat.iter().collect::<String>()).collect();
    for x in &p {
        v.push(x.clone());
        v.push(format!("{x}a"));
        v.push(format!("{x}{x}b"));
    }
    v.push(p.concat());
    v.push(p.iter().rev().cloned().collect::<Vec<_>>().concat());
    v.push(r.folds.keys().take(12).collect());
    v.push(r.folds.keys().take(12).flat_map(|c| c.to_uppercase()).collect());
    v.push(r.folds.values().take(12).collect());
    v
}

impl Prop for C15 {
    fn seconds(&self) -> (u64, u64) {
        (16, 600)
    }
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "a case is a rule text made of well-formed and damaged lines (or the shipped text with one edit); acceptance, the error's line number and content, and the behaviour of the built encoder on probe texts of every rule are compared with a reference parser and model; non-trivial: more than one line"
    }
    fn files(&self) -> &'static [&'static str] {
        &["src/daitch_mokotoff.rs", "src/rules_parser.rs"]
    }
    fn enumerate(&self, _g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        // short texts over the characters that matter
        let a: Vec<char> = "\"a =/*\n\r|".chars().collect();
        for len in 0..=(if t { 6 } else { 5 }) {
            if !all_strings(&a, len, w, n, &mut |s| f(&Case::t("t", vec![s], vec![]))) {
                return;
            }
        }
        // sequences of lines that have to do with each other
        let lines = [
            "a=b", "b=a", "a=a", "b=b", "A=b", "\"a\" \"1\" \"2\" \"3\"", "\"a\" \"4|5\" \"\" \"6\"", "\"b\" \"7\" \"7\" \"7\"", "\"ab\" \"8\" \"8\" \"8\"", "/*", "*/", "// a=b",
        ];
        let idx: Vec<char> = (0..lines.len()).map(|i| (b'A' + i as u8) as char).collect();
        for len in 1..=(if t { 5 } else { 4 }) {
            let text = |s: String| s.chars().map(|c| lines[(c as u8 - b'A') as usize]).collect::<Vec<_>>().join("\n");
            if !all_strings(&idx, len, w, n, &mut |s| f(&Case::t("t", vec![text(s)], vec![]))) {
                return;
            }
        }
        // the shipped text with each line damaged
        let l: Vec<&str> = DM_RULES.lines().collect();
        for i in (0..l.len()).filter(|i| i % n == w) {
            for (k, nl) in [(0, "\n"), (1, "\n"), (2, "\r\n"), (3, "\n"), (4, "\n")] {
                let mut v: Vec<String> = l.iter().map(|s| s.to_string()).collect();
                match k {
                    0 => v[i] = v[i].replacen('"', "", 1) + "x",
                    1 => v[i] = "\"\" \"1\" \"1\" \"1\"".into(),
                    2 => v[i] += " x",
                    3 => v.insert(i, "/* a\n b\n*/".into()),
                    _ => v.insert(i, "/* unfinished".into()),
                }
                if !f(&Case::t("t", vec![v.join(nl)], vec![])) {
                    return;
                }
            }
        }
        // very many lines before, or after, a wrong one
        let mut i = 0;
        for unit in ["\n", "// c\n", "a=b\n", "\"ab\" \"1\" \"2\" \"3\"\n", "/* c */\n", "C"] {
            for k in [250i64, 254, 255, 256, 257, 510, 4095, 4096, 9999, 10000, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 99999, 100000, 131072, 140000] {
                for end in ["", "x", "\"\" \"1\" \"1\" \"1\"", "ab=c", "/*"] {
                    if k > 10000 && end.is_empty() && unit.starts_with('"') {
                        // the probes would take long
                        continue;
                    }
                    i += 1;
                    if i % n == w && (t || k < 5000 || (end == "x" || i % 8 == 0) && k % 7 < 5) {
                        if !f(&Case::t("many", vec![unit.into(), end.into()], vec![k])) {
                            return;
                        }
                    }
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        Case::t("t", vec![any_rules(g)], vec![])
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if c.k != "t" {
            *c = self.gen(g);
            return;
        }
        let mut s = std::mem::take(&mut c.s[0]);
        if g.rng.chance(1, 3) {
            let l = line(g);
            let mut v: Vec<&str> = s.split('\n').collect();
            let k = g.rng.below(v.len() + 1);
            v.insert(k, &l);
            s = v.join("\n");
        } else {
            g.mutate_str(&mut s, "AB\"\" |=/*\r\n\t\"=");
        }
        c.s[0] = s;
    }
    fn repair(&self, c: &mut Case) -> bool {
        !c.s[0].contains('\0')
            && c.s[0].matches('|').count() < 3 * 14
            && !c.s[0].lines().any(|l| l.matches('|').count() > 7)
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        let many;
        let t = if c.k == "many" {
            let k = c.n[0].clamp(0, 200_000) as usize;
            ev!("dm text: thousands of lines");
            many = if c.s[0] == "C" { format!("/*{}*/\n{}\na=b\n", "\n".repeat(k), c.s[1]) } else { c.s[0].repeat(k) + &c.s[1] + "\na=b\n" };
            &many
        } else {
            &c.s[0]
        };
        o.nontrivial = t.contains('\n');
        let folding = t.len() % 4 != 0;
        let got = sut("build", || DaitchMokotoffSoundexBuilder::with_rules(t).ascii_folding(folding).build())?;
        match (dm::parse(t), got) {
            (Ok(r), Ok(e)) => {
                ev!("dm text: accepted");
                for p in probes(&r) {
                    let keep = o.nontrivial;
                    encode_all(&e, &r, folding, &p, false, o)?;
                    o.nontrivial = keep;
                }
                Ok(())
            }
            (Err(w), Err(PhoneticError::ParseRuleError(e))) => {
                ev!("dm text: refused");
                o.note(|| format!("{e}"));
                if e.line_number != w.line || e.line_content != w.content {
                    return bad(format!(
                        "rules {t:?}: the error is at line {} {:?}, reported at line {} {:?}",
                        w.line, w.content, e.line_number, e.line_content
                    ));
                }
                Ok(())
            }
            (Err(w), Err(e)) => bad(format!("rules {t:?}: line {} is wrong, reported as {e}", w.line)),
            (Ok(_), Err(e)) => bad(format!("well-formed rules {t:?} are refused: {e}")),
            (Err(w), Ok(_)) => bad(format!("rules {t:?} are accepted, line {} {:?} is wrong", w.line, w.content)),
        }
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["dm text: accepted", "dm text: refused", "dm text: thousands of lines", "dm: comment over several lines", "dm: empty pattern"]
    }
}
