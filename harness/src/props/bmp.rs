//! C16 to C19: Beider-Morse.
use super::*;
use crate::bm::{self, Dir, Fault, Ls, Opt};
use crate::core::{bad, harness_error, sut, verif_dir, Obs, Prop, Stop, Verdict};
use crate::enc::{assets, config, langs, NAME_TYPES, RULE_TYPES};
use crate::ev;
use rphonetic::*;
use std::cell::RefCell;
use std::os::unix::ffi::OsStrExt;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub struct C16;
pub struct C17;
pub struct C18;
pub struct C19;

thread_local! {
    static MODEL: RefCell<Option<Rc<bm::Config>>> = const { RefCell::new(None) };
    static EXPOSE: RefCell<Option<Rc<(bm::Config, &'static ConfigFiles)>>> = const { RefCell::new(None) };
}
pub fn model() -> Rc<bm::Config> {
    MODEL.with(|m| m.borrow_mut().get_or_insert_with(|| Rc::new(bm::load(&bm::read_dir(&assets().join("cc-rules"))).ok().unwrap())).clone())
}
pub const LANGS: [&str; 20] = [
    "any", "arabic", "cyrillic", "czech", "dutch", "english", "french", "german", "greek", "greeklatin", "hebrew", "hungarian", "italian",
    "latvian", "polish", "portuguese", "romanian", "russian", "spanish", "turkish",
];
const LETTERS: &str = "AEIOUAEIOUBCDFGHJKLMNPQRSTVWXYZSCHSCHTZRNÀÉÎÖÜÇÑŁŠß";

// ---------------------------------------------------------------- scratch directories
pub fn scratch() -> PathBuf {
    match std::env::var("VH_SCRATCH") {
        Ok(d) => PathBuf::from(d),
        Err(_) => verif_dir().join("build").join("run"),
    }
    .join(format!("scratch-{}", std::process::id()))
}
pub fn clean_scratch() {
    let _ = std::fs::remove_dir_all(scratch());
}
/// Writes a directory, removing what was there; files whose name starts with '!' are skipped.
pub fn write_dir(d: &Path, files: &Dir) -> Result<(), Stop> {
    let go = || -> std::io::Result<()> {
        std::fs::create_dir_all(d)?;
        for f in std::fs::read_dir(d)? {
            let f = f?;
            if !files.contains_key(&*f.file_name().to_string_lossy()) {
                std::fs::remove_file(f.path())?;
            }
        }
        for (n, c) in files {
            std::fs::write(d.join(n), c)?;
        }
        Ok(())
    };
    go().map_err(|e| Stop::Error(format!("scratch directory: {e}")))
}

// ---------------------------------------------------------------- generated rules
fn gen_phoneme(g: &mut Gen) -> String {
    let t = match g.rng.below(12) {
        0 | 1 => String::new(),
        2 => g.letters("abc", 2),
        3 => g.letters("abcdexyz", 6),
        4 if g.rng.chance(1, 3) => {
            // characters of any kind that don't mean anything in a phoneme
            let mut s = g.letters("abAé", 1);
            s.push(*g.rng.pick(&['A', 'Z', 'é', 'É', 'ß', 'İ', ' ', '\u{a0}', '\u{200b}', '\t', '-', '\'', '1', '.', ',', '+', '_', '*', '\u{301}', '😀', '\u{1}', '\u{feff}', '/', '=']));
            s + &g.letters("abAé", 1)
        }
        _ => ((b'a' + g.rng.below(5) as u8) as char).to_string(),
    };
    match g.rng.below(7) {
        0 => t + "[xa]",
        1 => t + "[xb]",
        2 => t + "[xa+xb]",
        3 if g.rng.chance(1, 3) => t + "[any]",
        4 if g.rng.chance(1, 3) => t + "[xc]",
        _ => t,
    }
}
pub fn gen_rule(g: &mut Gen) -> String {
    const L: [&str; 30] = [
        "", "", "", "", "^", "^", "a", "b", "^a", "^ab", "ab", "[ab]", "[^ab]", "^[ab]", "^[^ab]", "[abc]", "(a|b)", "(^|a)", "(a|bc)", "[ab]c", "a[bc]",
        "^a[bc]", ".", "..", "(^|[ab])", "^.", "[é ]", " ", "^c ", "^[é]",
    ];
    const R: [&str; 30] = [
        "", "", "", "", "$", "$", "a", "b", "a$", "ab$", "ab", "[ab]", "[^ab]", "[ab]$", "[^ab]$", "[abc]", "(a|b)", "($|a)", "(a|bc)", "[ab]c", "a[bc]",
        "a[bc]$", ".", "..", "($|[ab])", ".$", "[é ]", " ", " c$", "[é]$",
    ];
    let p = match g.rng.below(8) {
        0 => g.letters("abcdeé ", 3),
        1 => g.letters("abcde", 3),
        2 if g.rng.chance(1, 3) => g.letters("aAé-'1 \u{a0}", 2),
        _ => g.letters("abcde", 1),
    };
    let ph = match g.rng.below(6) {
        0 | 1 => gen_phoneme(g),
        2 => format!("({})", gen_phoneme(g)),
        3 => (*g.rng.pick(&["(a|)", "(|b)", "()", "(|)", "(a[xa]|b[xb]|)"])).to_string(),
        _ => {
            let n = g.rng.range(2, 4);
            format!("({})", (0..n).map(|_| gen_phoneme(g)).collect::<Vec<_>>().join("|"))
        }
    };
    format!("\"{p}\" \"{}\" \"{}\" \"{ph}\"", g.rng.clone().pick(&L), {
        g.rng.next();
        g.rng.pick(&R)
    })
}
pub fn gen_rules(g: &mut Gen, max: usize, include: bool) -> String {
    let n = g.rng.range(0, max);
    let nl = if g.rng.chance(1, 6) { "\r\n" } else { "\n" };
    let mut s = String::new();
    for _ in 0..n {
        if g.rng.chance(1, 12) {
            s += g.rng.clone().pick(&["// comment", "/* x */", "/* a\n b */", "", " "]);
            s += nl;
        }
        if include && g.rng.chance(1, 10) {
            s += "#include inc";
            s += nl;
        }
        s += &gen_rule(g);
        s += nl;
    }
    if g.rng.chance(1, 8) && !s.is_empty() {
        s.pop();
        if s.ends_with('\r') {
            s.pop();
        }
    }
    s
}
pub fn gen_lang_rules(g: &mut Gen) -> String {
    let n = g.rng.range(0, 5);
    let mut s = String::new();
    for _ in 0..n {
        let re = *g.rng.pick(&[
            "a", "b", "^a", "a$", "[ab]", "ab", "(a|b)c", "^[^c]", "c.*c", "d", "e$", "^.$", "aa", "[cde]{2}", "b+c?", "é", "(?i)A", "A", "\\bb",
        ]);
        let l = *g.rng.pick(&["xa", "xb", "xa+xb", "any", "any+xa", "any+xb", "xc", "any+xa+xb"]);
        s += &format!("{re} {l} {}\n", g.rng.chance(2, 3));
    }
    s
}
const PARTS: [&str; 9] = ["texts", "lang", "rules_any", "rules_xa", "rules_xb", "common", "final_any", "final_xa", "final_xb"];
/// The directory of a generated case: the same rules for the three name types, exact and approx alike but for the
/// order of the two common files.
pub fn dir_of(s: &[String]) -> Dir {
    let g = |i: usize| s.get(i).cloned().unwrap_or_default();
    let mut d = Dir::new();
    for t in bm::TYPES {
        d.insert(format!("{t}_languages.txt"), "any\nxa\nxb\n".into());
        d.insert(format!("{t}_lang.txt"), g(1));
        for (i, l) in ["any", "xa", "xb"].iter().enumerate() {
            d.insert(format!("{t}_rules_{l}.txt"), g(2 + i));
            d.insert(format!("{t}_approx_{l}.txt"), g(6 + i));
            d.insert(format!("{t}_exact_{l}.txt"), g(6 + (i + 1) % 3));
        }
        d.insert(format!("{t}_approx_common.txt"), g(5));
        d.insert(format!("{t}_exact_common.txt"), if t == "gen" { String::new() } else { g(5) });
    }
    d.insert("inc.txt".into(), g(9));
    d
}
pub fn gen_dir_parts(g: &mut Gen) -> Vec<String> {
    let n = g.rng.range(4, 12);
    let texts: Vec<String> = (0..n)
        .map(|_| {
            let max = if g.rng.chance(1, 10) { 40 } else { 9 };
            match g.rng.below(6) {
                0 => g.letters("abcdeé'- ABC", max),
                1 => format!("{} {}", g.letters("abcde", 4), g.letters("abcde", 4)),
                2 => format!("{}{}", g.rng.clone().pick(&["d'", "da ", "van ", "de la ", "bar ", "el ", "al-", "ben ", "a'", "de\t", "da\u{a0}", "el\t", "ben--", "d\u{2019}"]), g.letters("abcde", 5)),
                _ => g.letters("abcde", max),
            }
            .replace('\n', " ")
        })
        .collect();
    let mut v = vec![texts.join("\n"), gen_lang_rules(g)];
    for i in 2..PARTS.len() {
        let m = if (2..5).contains(&i) { 8 } else { 5 };
        v.push(gen_rules(g, m, true));
    }
    v.push(gen_rules(g, 4, false));
    if g.rng.chance(1, 3) {
        transcribe(g, &mut v);
    }
    v
}
/// Letters to use in the place of a to e, and other characters whose small letters may be among them.
const SCRIPTS: [(&str, &str); 9] = [
    ("σςαßi", "ΣΣΑẞSİIıςσ"),
    ("kåωǆs", "KÅΩǅǄſKSÅ"),
    ("𐐨𝒶😀éa", "𐐀ÉA\u{301}"),
    ("e\u{301}\u{307}ia", "İÉIEAé"),
    ("бвгёй", "БВГЁЙЙ"),
    ("אבגדה", "שׁאּ\u{5b7}"),
    ("'’1_,", "`\"´2-"),
    ("ŉǰΐﬁև", "ﬀʼNJ̌ΐFI"),
    ("ǰ\u{30c}\u{345}ιᾳ", "ᾼΙJᾈ\u{3a3}"),
];
/// The same rules and texts for letters of another kind.
fn transcribe(g: &mut Gen, v: &mut [String]) {
    let (small, other) = *g.rng.pick(&SCRIPTS);
    let small: Vec<char> = small.chars().collect();
    let other: Vec<char> = other.chars().collect();
    let map = |c: char| if ('a'..='e').contains(&c) { small[c as usize - 'a' as usize] } else { c };
    v[0] = v[0]
        .chars()
        .map(|c| {
            if g.rng.chance(1, 3) && c.is_alphabetic() {
                return *g.rng.pick(&other);
            }
            map(c.to_ascii_lowercase())
        })
        .collect();
    v[1] = v[1]
        .lines()
        .map(|l| {
            let (re, rest) = l.split_once(' ').unwrap();
            if re.contains('\\') || re.contains("(?i)") {
                format!("{l}\n")
            } else {
                format!("{} {rest}\n", re.chars().map(map).collect::<String>())
            }
        })
        .collect();
    for part in &mut v[2..] {
        let end = part.ends_with('\n');
        let mut lines: Vec<String> = part
            .split('\n')
            .map(|l| {
                let mut f: Vec<String> = l.split('"').map(|s| s.to_string()).collect();
                if f.len() != 9 || !f[0].is_empty() {
                    return l.to_string();
                }
                for k in [1, 3, 5] {
                    f[k] = f[k].chars().map(map).collect();
                }
                let mut inside = false;
                f[7] = f[7]
                    .chars()
                    .map(|c| {
                        inside = c == '[' || inside && c != ']';
                        if inside {
                            c
                        } else {
                            map(c)
                        }
                    })
                    .collect();
                f.join("\"")
            })
            .collect();
        if end {
            lines.pop();
        }
        *part = lines.join("\n") + if end { "\n" } else { "" };
    }
}
/// A directory with many languages for generic names, made from a number.
fn many_languages(n: usize, seed: u64) -> (Vec<String>, Dir) {
    let mut r = crate::gen::Rng::new(seed);
    let mut names: Vec<String> = vec![];
    let mut i = 0u32;
    while names.len() < n {
        i += 1;
        let mut k = i;
        let mut s = String::new();
        while k > 0 {
            s.insert(0, (b'f' + (k % 7) as u8) as char);
            k /= 7;
        }
        names.push(s);
    }
    let some = |r: &mut crate::gen::Rng| -> String {
        let of = |f: &mut dyn FnMut(usize) -> bool| (0..n).filter(|&i| f(i)).map(|i| names[i].clone()).collect::<Vec<_>>();
        let v = match r.below(6) {
            0 => vec![r.pick(&names).clone()],
            1 => {
                let k = r.below(n);
                of(&mut |i| i != k)
            }
            2 => {
                let k = r.below(n);
                of(&mut |i| i < k)
            }
            3 => {
                let k = r.below(n);
                of(&mut |i| i >= k)
            }
            _ => of(&mut |_| r.chance(1, 2)),
        };
        if v.is_empty() {
            names[0].clone()
        } else {
            v.join("+")
        }
    };
    let mut d = Dir::new();
    let mut lang = String::new();
    for _ in 0..r.below(6) {
        let re = *r.pick(&["a", "b", "^a", "a$", "[ab]", "ab", "(a|b)c", "e$", "d", "c"]);
        let any = if r.chance(1, 2) { "any+" } else { "" };
        let l = some(&mut r);
        lang += &format!("{re} {any}{l} {}\n", r.chance(1, 2));
    }
    let rules = |r: &mut crate::gen::Rng, top: usize, mark: &str| -> String {
        let mut s = String::new();
        for _ in 0..r.range(1, top) {
            let c = *r.pick(&["a", "b", "c", "d", "e", "ab", "cd"]);
            let ph: Vec<String> = (0..r.range(1, 4))
                .map(|k| {
                    let l = if r.chance(2, 3) { format!("[{}]", some(r)) } else { String::new() };
                    format!("{}{mark}{l}", (b'a' + k as u8) as char)
                })
                .collect();
            s += &format!("\"{c}\" \"\" \"\" \"({})\"\n", ph.join("|"));
        }
        s
    };
    for t in bm::TYPES {
        let mut all = vec!["any".to_string()];
        if t == "gen" {
            all.extend(names.iter().cloned());
        }
        d.insert(format!("{t}_languages.txt"), all.iter().map(|s| format!("{s}\n")).collect());
        d.insert(format!("{t}_lang.txt"), if t == "gen" { lang.clone() } else { String::new() });
        for l in &all {
            let few = l != "any";
            d.insert(format!("{t}_rules_{l}.txt"), rules(&mut r, if few { 4 } else { 10 }, if few { l } else { "" }));
            for k in ["approx", "exact"] {
                d.insert(format!("{t}_{k}_{l}.txt"), if r.chance(1, 2) { String::new() } else { rules(&mut r, 3, "") });
            }
        }
        for k in ["approx", "exact"] {
            d.insert(format!("{t}_{k}_common.txt"), rules(&mut r, 4, ""));
        }
    }
    (names, d)
}
fn mutate_parts(g: &mut Gen, c: &mut Case) {
    let k = g.rng.below(c.s.len());
    match k {
        0 => {
            let mut t = std::mem::take(&mut c.s[0]);
            g.mutate_str(&mut t, "ABCDE ABCDE\n'-");
            c.s[0] = t.to_lowercase();
        }
        1 => c.s[1] = gen_lang_rules(g),
        _ => {
            let mut l: Vec<String> = c.s[k].lines().map(|s| s.to_string()).collect();
            let p = g.rng.below(l.len() + 1);
            match g.rng.below(4) {
                0 if p < l.len() => {
                    l.remove(p);
                }
                1 if p < l.len() => l[p] = gen_rule(g),
                2 if l.len() > 1 => {
                    let q = g.rng.below(l.len());
                    let p = p.min(l.len() - 1);
                    l.swap(p, q);
                }
                _ => {
                    if l.len() < 14 {
                        l.insert(p, gen_rule(g))
                    }
                }
            }
            c.s[k] = l.join("\n") + "\n";
        }
    }
}

pub fn opt(n: &[i64]) -> Opt {
    let g = |i: usize| n.get(i).copied().unwrap_or(0);
    Opt {
        name: g(0).rem_euclid(3) as usize,
        kind: g(1).rem_euclid(2) as usize,
        concat: g(2) != 0,
        max: match g(3) {
            -2 => usize::MAX,
            i64::MIN..=-1 => 20,
            m => m as usize,
        },
    }
}
pub fn encoder<'a>(c: &'a ConfigFiles, o: Opt) -> BeiderMorse<'a> {
    BeiderMorseBuilder::new(c).name_type(NAME_TYPES[o.name]).rule_type(RULE_TYPES[o.kind]).concat(o.concat).max_phonemes(o.max).build()
}
pub fn gen_opt(g: &mut Gen) -> Vec<i64> {
    let max = match g.rng.below(8) {
        0..=3 => 20,
        4 => g.rng.below(4) as i64,
        5 => g.rng.below(12) as i64,
        6 => 10,
        _ if g.rng.chance(1, 5) => *g.rng.pick(&[63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]),
        _ => g.rng.below(60) as i64,
    };
    vec![g.rng.below(3) as i64, g.rng.below(2) as i64, g.rng.below(3).min(1) as i64, max]
}
pub fn ls(l: &str) -> Ls {
    match l {
        "*" => Ls::Any,
        "" => Ls::No,
        "~" | "!~" => Ls::of(&[]),
        l => Ls::of(&l.trim_start_matches('!').split('+').collect::<Vec<_>>()),
    }
}
pub fn gen_langs(g: &mut Gen, known: &[&str]) -> String {
    match g.rng.below(8) {
        0 => "*".into(),
        1 => String::new(),
        2 | 3 => (*g.rng.pick(known)).into(),
        4 => (*g.rng.pick(&["klingon", "~", "!~", "klingon", "any+klingon"])).into(),
        _ => {
            let n = g.rng.range(1, 4);
            let v: Vec<&str> = (0..n).map(|_| *g.rng.pick(known)).collect();
            let p = if g.rng.chance(1, 3) { "!" } else { "" };
            format!("{p}{}", v.join("+"))
        }
    }
}
/// Many short words.
pub fn many_words(g: &mut Gen) -> String {
    let top = *g.rng.pick(&[4, 12, 40, 130]);
    let n = g.rng.range(2, top);
    let same = if g.rng.chance(1, 3) { Some(g.text(LETTERS, 3)) } else { None };
    let mut t = String::new();
    for i in 0..n {
        if i > 0 {
            t.push(*g.rng.pick(&[' ', ' ', ' ', '-', '\u{a0}']));
        }
        match &same {
            Some(w) => t += w,
            None => {
                for _ in 0..g.rng.range(1, 3) {
                    let c = if g.rng.chance(1, 8) { g.special() } else { *g.rng.pick(&['a', 'b', 'e', 's', 'c', 'h', 'É', 'z', 'ß', 'd', 'v', 'n']) };
                    t.push(c);
                }
            }
        }
    }
    t
}
pub fn bm_text(g: &mut Gen) -> String {
    if g.rng.chance(1, 40) {
        return many_words(g);
    }
    let max = if g.rng.chance(1, 30) { 80 } else { 14 };
    match g.rng.below(10) {
        0..=2 => {
            let n = g.name();
            g.vary_case(&n)
        }
        3 => {
            let mut n = g.name();
            for _ in 0..g.rng.range(1, 3) {
                g.mutate_str(&mut n, LETTERS);
            }
            n
        }
        4 => {
            let p = *g.rng.pick(&[
                "d'", "da ", "dal ", "de ", "del ", "dela ", "de la ", "della ", "des ", "di ", "do ", "dos ", "du ", "van ", "von ", "bar ", "ben ",
                "al ", "el ", "D'", "Van-", "De La ", "l'", "o'", "von der ", "d'd'", "de de ",
            ]);
            // what only looks like a prefix
            let p = match g.rng.below(12) {
                0 => p.replace(' ', *g.rng.clone().pick(&["\t", "\u{a0}", "\n", "\u{2003}", "-", "--", "\r", "\u{2010}", "_", "'", "  "])),
                1 => p.replace('\'', *g.rng.clone().pick(&["\u{2019}", "`", "\u{2bc}", "' ", "-", "''"])),
                2 => format!("{}{p}", *g.rng.clone().pick(&[" ", "\t", "-", "'", "\u{a0}", "a"])),
                3 => p.trim_end().to_string(),
                _ => p.to_string(),
            };
            format!("{p}{}", g.name())
        }
        5 => {
            let s = *g.rng.pick(&[" ", "-", "  ", "'", " van ", " de la ", " ben ", "\t", "\u{a0}", "\n", "\u{2019}"]);
            format!("{}{s}{}", g.name(), g.name())
        }
        _ => {
            let long = std::mem::replace(&mut g.long, (180, 400));
            let s = g.text(LETTERS, max);
            g.long = long;
            s
        }
    }
}

fn cmp(e: &BeiderMorse, m: &bm::Config, o: Opt, s: &str, with: Option<&str>, obs: &mut Obs) -> Verdict {
    let (got, want) = match with {
        None => (sut("BeiderMorse::encode", || e.encode(s))?, m.encode(o, s)),
        Some(l) => {
            let set = langs(l);
            (sut("encode_with_languages", || e.encode_with_languages(s, &set))?, m.encode_with(o, s, &ls(l)))
        }
    };
    obs.nontrivial |= want.contains('|');
    obs.note(|| format!("{s:?} {o:?} {with:?} -> {got:?}"));
    if got != want {
        return bad(format!("Beider-Morse {o:?} of {s:?} with languages {with:?} = {got:?}, the rules give {want:?}"));
    }
    Ok(())
}

/// Loads a generated directory in the crate and in the model; None when the model refuses it.
pub fn load_both(d: &Dir) -> Result<Option<(bm::Config, ConfigFiles)>, Stop> {
    let Ok(m) = bm::load(d) else { return Ok(None) };
    let p = scratch();
    write_dir(&p, d)?;
    match sut("ConfigFiles::new", || ConfigFiles::new(&p))? {
        Ok(c) => Ok(Some((m, c))),
        Err(e) => bad(format!("a well-formed directory is refused: {e}")),
    }
}

impl Prop for C16 {
    fn seconds(&self) -> (u64, u64) {
        (20, 600)
    }
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "a case is a text, options (name type, rule type, concat, max_phonemes) and perhaps a language set on the shipped rules, or a generated rule directory with several texts; encode and encode_with_languages are compared with a reference model that reads the same files; non-trivial: several alternatives"
    }
    fn files(&self) -> &'static [&'static str] {
        &["src/beider_morse/engine.rs", "src/beider_morse/mod.rs"]
    }
    fn enumerate(&self, g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        let names = g.names.clone();
        let step = if t { 1 } else { 6 };
        for (i, s) in names.iter().enumerate() {
            if i % n == w && (i / n) % step == 0 {
                for nt in 0..3 {
                    for rt in 0..2 {
                        if !f(&Case::t("t", vec![s.clone(), "?".into()], vec![nt, rt, 1, 20])) {
                            return;
                        }
                    }
                }
            }
        }
        // each prefix, followed by what may end it or not
        let prefixes = [
            "d'", "da", "dal", "de", "del", "dela", "de la", "della", "des", "di", "do", "dos", "du", "van", "von", "abe", "aben", "abi", "abou", "abu", "al", "bar", "ben", "bou", "bu", "d",
            "dell", "el", "la", "le", "ibn", "san", "mac", "a", "la", "l'", "a'", "dal'", "o'", "di la", "de los", "'", "von der", "haj",
        ];
        let mut i = 0;
        for p in prefixes {
            for e in ["", " ", "-", "'", "\t", "\u{a0}", "\n", "  ", " -", "\u{2019}", "\u{3000}", ".", ","] {
                for (pre, rest) in [("", "sol"), ("", "angel"), ("", ""), (" ", "sol"), ("x", "sol"), ("sol ", "angel"), ("sol ", ""), (p, "sol"), ("-", "sol")] {
                    for nt in 0..3 {
                        i += 1;
                        let s = format!("{pre}{p}{e}{rest}");
                        if i % n == w && (t || i / n % 4 == 0 || pre.is_empty() && rest.len() == 3) && !f(&Case::t("t", vec![s, "?".into()], vec![nt, 1, 1, 20])) {
                            return;
                        }
                    }
                }
            }
        }
        // the same prefix, or word, many times
        for k in 2..=(if t { 90 } else { 34 }) {
            for (j, p) in ["d'", "de ", "de la ", "van ", "l'", "al ", "-", " ", "x", "ben ", "d' ", "a'", "e-"].into_iter().enumerate() {
                for (nt, concat) in [(2, 1), (2, 0), (0, 1), (1, 1)] {
                    i += 1;
                    if i % n == w && (t || nt == 2 || (k + j) % 4 == 0) {
                        let s = format!("{}{}", p.repeat(k), ["sol", "x"][(k + j) % 2]);
                        if !f(&Case::t("t", vec![s, "?".into()], vec![nt, 1, concat, 20])) {
                            return;
                        }
                    }
                }
            }
        }
        // many alternatives, and no limit
        for (j, p) in ["chrzchvch", "szczuchajoch", "chaoauel", "gejchajzoch", "", "a", "cz", "ojch"].into_iter().enumerate() {
            for (k, max) in [1000, 300, 257, 256, 255, 129, 128, 127, 101, 65, 64, 63, 33, 32, 5000, 65535, 65536, 65537, -2].into_iter().enumerate() {
                for (nt, rt) in [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)] {
                    i += 1;
                    let s = if max > 1000 || max < 0 { p.chars().take(5).collect() } else { p.to_string() };
                    if i % n == w && (t || (j + k + nt as usize) % 3 == 0) && !f(&Case::t("t", vec![s, "?".into()], vec![nt, rt, 1, max])) {
                        return;
                    }
                }
            }
        }
        let a: Vec<char> = "abcdefghijklmnopqrstuvwxyz".chars().collect();
        for len in 0..=(if t { 3 } else { 2 }) {
            for nt in 0..3 {
                if !all_strings(&a, len, w, n, &mut |s| f(&Case::t("t", vec![s, "?".into()], vec![nt, (nt + 1) % 2, 1, 20]))) {
                    return;
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let mut n = gen_opt(g);
        if g.rng.chance(1, 150) {
            n[0] = 1;
            n.push(*g.rng.clone().pick(&[1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 70]));
            n.push(g.rng.next() as i64);
            let t = (0..6).map(|_| g.letters("abcde", 7)).collect::<Vec<_>>().join("\n");
            Case::t("m", vec![t], n)
        } else if g.rng.chance(1, 3) {
            Case::t("d", gen_dir_parts(g), n)
        } else {
            let s = bm_text(g);
            let l = if g.rng.chance(1, 2) { "?".into() } else { gen_langs(g, &LANGS) };
            Case::t("t", vec![s, l], n)
        }
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if c.k == "m" {
            match g.rng.below(3) {
                0 => c.n[5] = g.rng.next() as i64,
                1 => {
                    let o = gen_opt(g);
                    c.n[1..4].copy_from_slice(&o[1..4]);
                }
                _ => {
                    let mut s = std::mem::take(&mut c.s[0]);
                    g.mutate_str(&mut s, "abcde");
                    c.s[0] = s;
                }
            }
        } else if g.rng.chance(1, 5) {
            c.n = gen_opt(g);
        } else if c.k == "d" {
            mutate_parts(g, c);
        } else if g.rng.chance(1, 6) {
            c.s[1] = gen_langs(g, &LANGS);
        } else {
            let mut s = std::mem::take(&mut c.s[0]);
            g.mutate_str(&mut s, LETTERS);
            c.s[0] = s;
        }
    }
    fn repair(&self, c: &mut Case) -> bool {
        if c.k == "t" {
            let m = super::cross::bm_limit_for(&c.n, &c.s[0]);
            super::cross::cut_to(&mut c.s[0], m);
            return c.s.len() == 2;
        }
        if c.k == "m" {
            return c.n.len() == 6 && (1..=80).contains(&c.n[4]) && c.s[0].chars().count() < 100;
        }
        c.s.len() == 10
            && c.s[0].chars().count() <= 400
            && c.s[1..].iter().all(|s| s.len() < 3000 && !s.contains("[^^") && !s.contains("[]"))
            && bm::load(&dir_of(&c.s)).is_ok()
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        let op = opt(&c.n);
        if c.k == "t" {
            let m = model();
            let e = encoder(config(0)?, op);
            return cmp(&e, &m, op, &c.s[0], if c.s[1] == "?" { None } else { Some(&c.s[1]) }, o);
        }
        if c.k == "m" {
            let (names, d) = many_languages(c.n[4] as usize, c.n[5] as u64);
            let Some((m, cf)) = load_both(&d)? else { return harness_error("a directory with many languages is not well-formed") };
            ev!("bm: many languages");
            let mut r = crate::gen::Rng::new(c.n[5] as u64 + 1);
            for t in c.s[0].split('\n') {
                for k in 0..2 {
                    let op = Opt { kind: (op.kind + k) % 2, ..op };
                    let e = encoder(&cf, op);
                    cmp(&e, &m, op, t, None, o)?;
                    let l: Vec<&str> = names.iter().filter(|_| r.chance(1, 2)).map(|s| s.as_str()).collect();
                    cmp(&e, &m, op, t, Some(&format!("!{}", if l.is_empty() { "any".to_string() } else { l.join("+") })), o)?;
                    cmp(&e, &m, op, t, Some(r.pick(&names)), o)?;
                }
            }
            return Ok(());
        }
        let Some((m, cf)) = load_both(&dir_of(&c.s))? else { return Ok(()) };
        ev!("bm: generated directory");
        for (i, t) in c.s[0].split('\n').enumerate() {
            for k in 0..2 {
                let op = Opt { name: (op.name + i) % 3, kind: (op.kind + k) % 2, ..op };
                let e = encoder(&cf, op);
                cmp(&e, &m, op, t, None, o)?;
                let l = ["*", "xa", "xb", "xa+xb", "", "any", "nope", "!any+xa"][(i + k) % 8];
                cmp(&e, &m, op, t, Some(l), o)?;
            }
        }
        Ok(())
    }
    fn minimum(&self) -> (u64, u64) {
        (500, 200)
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["bm: split name", "bm: words one by one", "bm: prefix dropped", "bm: equal alternatives merged", "bm: max_phonemes reached", "bm: alternative without language dropped", "bm: generated directory", "bm: language without rules"]
    }
}

/// A directory with the shipped language lists and detection rules, and rules that write out the languages in use.
fn expose() -> Result<Rc<(bm::Config, &'static ConfigFiles)>, Stop> {
    if let Some(e) = EXPOSE.with(|e| e.borrow().clone()) {
        return Ok(e);
    }
    let src = bm::read_dir(&assets().join("cc-rules"));
    let mut d = Dir::new();
    for t in bm::TYPES {
        let list = src[&format!("{t}_languages.txt")].clone();
        d.insert(format!("{t}_lang.txt"), src[&format!("{t}_lang.txt")].clone());
        let l = bm::parse_list(&list).ok().unwrap();
        d.insert(format!("{t}_languages.txt"), list);
        let all = exposing(&l.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        for x in &l {
            d.insert(format!("{t}_rules_{x}.txt"), if x == "any" { all.clone() } else { one_language(x) });
            d.insert(format!("{t}_approx_{x}.txt"), String::new());
            d.insert(format!("{t}_exact_{x}.txt"), String::new());
        }
        d.insert(format!("{t}_approx_common.txt"), String::new());
        d.insert(format!("{t}_exact_common.txt"), String::new());
    }
    let p = scratch();
    write_dir(&p, &d)?;
    let c = match sut("ConfigFiles::new", || ConfigFiles::new(&p))? {
        Ok(c) => c,
        Err(e) => return bad(format!("a well-formed directory is refused: {e}")),
    };
    let Ok(m) = bm::load(&d) else { return harness_error("model") };
    let e = Rc::new((m, &*Box::leak(Box::new(c))));
    EXPOSE.with(|x| *x.borrow_mut() = Some(e.clone()));
    Ok(e)
}
/// The first character becomes one alternative per language in use, the others disappear.
fn exposing(l: &[&str]) -> String {
    let ph = l.iter().enumerate().map(|(i, x)| format!("{}[{x}]", (b'A' + i as u8) as char)).collect::<Vec<_>>().join("|");
    starts().map(|c| format!("\"{c}\" \"^\" \"\" \"({ph}|z)\"\n")).collect()
}
fn one_language(x: &str) -> String {
    starts().map(|c| format!("\"{c}\" \"^\" \"\" \"only {x}\"\n")).collect()
}
fn starts() -> impl Iterator<Item = char> {
    ('a'..='z').chain("àáâãäåæçèéêëìíîïñòóôõöøùúûüýßœłšžčřęąśźżňňğıșțőű אבגדהוζάλбвгджкмн0123456789'".chars())
}

impl Prop for C17 {
    fn seconds(&self) -> (u64, u64) {
        (20, 600)
    }
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "a case is a text and name type on a directory with the shipped detection rules whose rule files write out the languages in use, or on the shipped rules (encode against encode_with_languages with the expected set), or a generated detection file; non-trivial: fewer than all languages are left"
    }
    fn files(&self) -> &'static [&'static str] {
        &["src/beider_morse/lang.rs"]
    }
    fn enumerate(&self, g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        for (i, s) in g.names.clone().iter().enumerate() {
            if i % n == w {
                for nt in 0..3 {
                    if !f(&Case::t("t", vec![s.clone()], vec![nt, 0])) {
                        return;
                    }
                }
            }
        }
        // names beside short words, whose languages are others
        for (i, s) in g.names.clone().iter().enumerate() {
            if i % n != w || !t && i % 4 != 0 {
                continue;
            }
            let c = (b'a' + (i / 4 % 26) as u8) as char;
            let d = (b'a' + (i / 8 % 23) as u8) as char;
            for x in [format!("{s} {c}"), format!("{c} {s}"), format!("{s}-{c}{d} {d}"), format!("d'{c} {s}"), format!("van {c}{s}")] {
                if !f(&Case::t("t", vec![x], vec![(i % 3) as i64, 0])) {
                    return;
                }
            }
        }
        let a: Vec<char> = "abcdefghijklmnopqrstuvwxyz".chars().collect();
        for len in 0..=(if t { 4 } else { 3 }) {
            if !all_strings(&a, len, w, n, &mut |s| f(&Case::t("t", vec![s], vec![1, 0]))) {
                return;
            }
        }
        // the literals of the detection rules, in context
        let src = bm::read_dir(&assets().join("cc-rules"));
        let mut i = 0;
        for (nt, name) in bm::TYPES.iter().enumerate() {
            for l in src[&format!("{name}_lang.txt")].lines() {
                let Some(re) = l.split(' ').next() else { continue };
                let lit: String = re.chars().filter(|c| c.is_alphabetic()).collect();
                if lit.is_empty() || lit.chars().count() > 12 {
                    continue;
                }
                let parts: Vec<String> = re.split(['(', ')', '|', '^', '$', '[', ']']).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
                for p in parts.iter().chain([&lit]) {
                    for pre in ["", "a", "b", "ma"] {
                        for post in ["", "a", "t", "ein"] {
                            i += 1;
                            if i % n == w && !f(&Case::t("t", vec![format!("{pre}{p}{post}")], vec![nt as i64, 0])) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let nt = g.rng.below(3) as i64;
        if g.rng.chance(1, 8) {
            let mut p = gen_dir_parts(g);
            p.truncate(2);
            Case::t("d", p, vec![nt, 0])
        } else {
            let s = bm_text(g);
            Case::t("t", vec![s], vec![nt, g.rng.below(4).min(1) as i64])
        }
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        let mut s = std::mem::take(&mut c.s[0]);
        if c.k == "d" {
            if g.rng.chance(1, 2) {
                c.s[1] = gen_lang_rules(g);
            }
            g.mutate_str(&mut s, "ABCDE\n");
        } else {
            g.mutate_str(&mut s, LETTERS);
        }
        c.s[0] = s;
    }
    fn repair(&self, c: &mut Case) -> bool {
        c.s[0].chars().count() <= 300
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        let nt = c.n[0].rem_euclid(3) as usize;
        if c.k == "d" {
            let mut d = dir_of(&["".into(), c.s[1].clone()]);
            let first: BTreeSet<char> = c.s[0]
                .to_lowercase()
                .split(|c: char| c == '-' || c.is_whitespace())
                .filter_map(|t| t.chars().next())
                .filter(|&c| c != '"' && !c.is_control() && !starts().any(|x| x == c))
                .collect();
            let more = |ph: &str| first.iter().map(|c| format!("\"{c}\" \"^\" \"\" \"{ph}\"\n")).collect::<String>();
            for t in bm::TYPES {
                d.insert(format!("{t}_rules_any.txt"), exposing(&["any", "xa", "xb"]) + &more("(A[any]|B[xa]|C[xb]|z)"));
                d.insert(format!("{t}_rules_xa.txt"), one_language("xa") + &more("only xa"));
                d.insert(format!("{t}_rules_xb.txt"), one_language("xb") + &more("only xb"));
            }
            let Some((m, cf)) = load_both(&d)? else { return Ok(()) };
            ev!("lang: generated rules");
            for t in c.s[0].split('\n') {
                for concat in [true, false] {
                    let op = Opt { name: nt, kind: 0, concat, max: 100 };
                    cmp(&encoder(&cf, op), &m, op, t, None, o)?;
                }
                o.nontrivial |= !c.s[1].is_empty();
            }
            return Ok(());
        }
        let s = &c.s[0];
        let op = Opt { name: nt, kind: 0, concat: true, max: 100 };
        let e = expose()?;
        let enc = encoder(e.1, op);
        let l = e.0.guess(nt, s);
        cmp(&enc, &e.0, op, s, None, o)?;
        if s.contains(|c: char| c.is_whitespace() || c == '-') {
            // the parts, each with its own languages
            let op = Opt { concat: false, ..op };
            ev!("lang: words one by one");
            cmp(&encoder(e.1, op), &e.0, op, s, None, o)?;
        }
        let text = match &l {
            Ls::Any => "*".to_string(),
            Ls::No => String::new(),
            Ls::Set(x) => x.iter().cloned().collect::<Vec<_>>().join("+"),
        };
        o.nontrivial |= matches!(&l, Ls::Set(x) if x.len() < e.0.langs[nt].len());
        let set = langs(&text);
        let (a, b) = sut("encode", || (enc.encode(s), enc.encode_with_languages(s, &set)))?;
        if a != b {
            return bad(format!("encode({s:?}) = {a:?} but with the languages {text} left by the detection rules {b:?}"));
        }
        if c.n.get(1) == Some(&1) {
            let op = Opt { max: 20, ..op };
            let enc = encoder(config(0)?, op);
            let (a, b) = sut("encode", || (enc.encode(s), enc.encode_with_languages(s, &set)))?;
            if a != b {
                return bad(format!("shipped rules: encode({s:?}) = {a:?} but with the languages {text} left by the detection rules {b:?}"));
            }
        }
        Ok(())
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["bm: one language detected", "bm: no language left", "lang: generated rules", "lang: words one by one"]
    }
}

// ---------------------------------------------------------------- C18
/// First fault of every file that a directory needs; empty when it is well-formed.
fn faults(d: &Dir) -> Vec<Fault> {
    let mut v = vec![];
    let mut lists: Vec<BTreeSet<String>> = vec![];
    for t in bm::TYPES {
        match d.get(&format!("{t}_languages.txt")) {
            None => v.push(Fault::Other("languages".into())),
            Some(x) => match bm::parse_list(x) {
                Err(f) => v.push(f),
                Ok(l) => {
                    if !l.contains("any") {
                        ev!("bm: any not listed");
                        v.push(Fault::Other("any".into()));
                    }
                    lists.push(l)
                }
            },
        }
    }
    if lists.len() < 3 {
        // which files are needed isn't known: whatever is wrong elsewhere may be reported too
        v.push(Fault::Other("lists".into()));
        lists.resize(3, BTreeSet::new());
    }
    for (t, l) in bm::TYPES.iter().zip(&lists) {
        let f = format!("{t}_lang.txt");
        match d.get(&f) {
            None => v.push(Fault::Other(f)),
            Some(x) => {
                if let Err(e) = bm::parse_langs(&f, x) {
                    v.push(e)
                }
            }
        }
        for kind in ["approx", "exact", "rules"] {
            let mut need: Vec<String> = l.iter().cloned().collect();
            if kind != "rules" {
                need.push("common".into());
            }
            for x in need {
                if let Err(e) = bm::parse_rules(d, &format!("{t}_{kind}_{x}"), &mut vec![]) {
                    if let Fault::Line(Some(n), l, c) = &e {
                        // an error of another kind in an included file may be reported at the include line or not
                        if c.starts_with("#include") {
                            v.push(Fault::Other(format!("{n}:{l}")));
                        }
                    }
                    v.push(e);
                }
            }
        }
    }
    v
}
fn files_case(d: &Dir, extra: Vec<i64>) -> Case {
    let mut s = vec![];
    for (k, v) in d {
        s.push(k.clone());
        s.push(v.clone());
    }
    Case::t("f", s, extra)
}
fn bad_line(g: &mut Gen, kind: &str) -> String {
    match kind {
        "lang" => (*g.rng.pick(&[
            "a xa", "a xa maybe", "( xa true", "[a xa true", "a  xa true", "a xa true x", " a xa true", "xa", "a xa TRUE", "*a xa false", "a xa+ true x", "/a", "a xa true// c",
            "a xa true // c", "/* x */", "// x", "\\ xa true", "a xa truefalse", "(?P<a) xa true",
        ]))
        .into(),
        "languages" => (*g.rng.pick(&["a b", "xa,xb", "1", "é", "x_a", "-", "xa // c", " xa", "/* x", "xa xb", "\"any\"", "xa\txb", "//xa", "xa//"])).into(),
        _ => (*g.rng.pick(&[
            "\"a\" \"\" \"\" \"(b\"", "\"a\" \"\" \"\" \"b[xa\"", "\"a\" \"\" \"\" \"b[xa]c\"", "\"a\" \"(\" \"\" \"b\"", "\"a\" \"(a|[)b\" \"\" \"b\"",
            "\"a\" \"\" \"[b]a[\" \"b\"", "\"\" \"\" \"\" \"b\"", "\"a\" \"\" \"b\"", "\"a\" \"\" \"\" b", "#include nothere", "#include", "#include  inc",
            "#include inc x", "#include inc.txt", "#include inc // c", "#include inc", "#includeinc", "# include inc", "\"a\" \"\" \"\" \"b\" x",
            "\"a\" \"\" \"\" \"b\" // c", "abc", "/* x", "*/", "/* x */ y", "\"a\" \"[b\" \"\" \"c\"", "\"a\" \"\" \"(b|c\" \"c\"", "\"a\" \"\" \"\" \"(b|c[xa)\"",
            "\"a\" \"\" \"\" \"b)\"", "\"a\" \"\" \"\" \"b]\"", "\"a\"\"\"\"\"\"b\"", "a", "\"a",
        ]))
        .into(),
    }
}
/// The rule files of a language, if it were one.
fn files_for(d: &mut Dir, t: &str, name: &str) {
    if name.contains(['/', '\0', '\n']) || name.len() > 60 {
        return;
    }
    for kind in ["approx", "exact", "rules"] {
        d.entry(format!("{t}_{kind}_{name}.txt")).or_insert_with(|| "\"b\" \"\" \"\" \"i\"\n".into());
    }
}
/// Names of files to include, some of them not allowed.
const INCLUDED: [&str; 24] = [
    "a", "A", "é1", "É", "ß", "漢字", "имя", "ⅷ", "²", "٣", "a-b", "a_b", "-", "_", "0", "a.b", "a b", "a\u{301}", "😀", "ǆ", "a'b", "a,b", "a~b", "Gen_Approx_Any",
];
fn file_kind(n: &str) -> &'static str {
    if n.ends_with("_lang.txt") {
        "lang"
    } else if n.ends_with("_languages.txt") {
        "languages"
    } else {
        "rules"
    }
}

impl Prop for C18 {
    fn seconds(&self) -> (u64, u64) {
        (20, 600)
    }
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "a case is a small rule directory, well-formed or with files removed, cut, or lines damaged; ConfigFiles::new is compared with a reference loader (acceptance, file, line and content of the error), and what loads with the model's encodings; non-trivial: the directory has a fault"
    }
    fn files(&self) -> &'static [&'static str] {
        &["src/beider_morse/rule.rs", "src/beider_morse/lang.rs", "src/beider_morse/languages.rs", "src/rules_parser.rs"]
    }
    fn enumerate(&self, g: &mut Gen, _t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        // each file removed, and each kind of bad line in each file
        let base = dir_of(&gen_dir_parts(&mut Gen { rng: crate::gen::Rng::new(7), ..Gen::new(7, &[]) }));
        let mut i = 0;
        for name in base.keys() {
            let mut d = base.clone();
            d.remove(name);
            i += 1;
            if i % n == w && !f(&files_case(&d, vec![0])) {
                return;
            }
            for k in 0..40 {
                i += 1;
                if i % n != w {
                    continue;
                }
                let mut d = base.clone();
                let bl = bad_line(g, file_kind(name));
                let c = d.get_mut(name).unwrap();
                let mut l: Vec<String> = c.split('\n').map(|s| s.to_string()).collect();
                let p = k % l.len();
                l.insert(p, bl);
                *c = l.join("\n");
                if !f(&files_case(&d, vec![0])) {
                    return;
                }
            }
        }
        // strange entries, directories and links in the place of files
        for k in 0..120 {
            i += 1;
            if i % n != w {
                continue;
            }
            let mut d = base.clone();
            let c = d.get_mut("gen_lang.txt").unwrap();
            *c = format!("// {k}\n{c}");
            if !f(&files_case(&d, vec![[1, 3, 4][k % 3]])) {
                return;
            }
        }
        // names of included files
        for name in INCLUDED {
            for there in [true, false] {
                i += 1;
                if i % n != w {
                    continue;
                }
                let mut d = base.clone();
                if there {
                    d.insert(format!("{name}.txt"), "\"b\" \"\" \"\" \"i\"\n".into());
                }
                let c = d.get_mut("gen_rules_any.txt").unwrap();
                *c = format!("#include {name}\n{c}");
                if !f(&files_case(&d, vec![0])) {
                    return;
                }
            }
        }
        // names of languages
        for name in INCLUDED {
            for (file, line) in [
                ("gen_languages.txt", format!("{name}\n")),
                ("gen_lang.txt", format!("a {name} true\n")),
                ("gen_lang.txt", format!("a xa+{name} false\n")),
                ("gen_lang.txt", format!("{name} xa true\n")),
                ("gen_rules_any.txt", format!("\"a\" \"\" \"\" \"b[{name}]\"\n")),
                ("gen_rules_any.txt", format!("\"a\" \"\" \"\" \"(b[{name}+xa]|c)\"\n")),
                ("gen_rules_any.txt", format!("\"{name}\" \"\" \"\" \"{name}\"\n")),
            ] {
                i += 1;
                if i % n != w {
                    continue;
                }
                let mut d = base.clone();
                let c = d.get_mut(file).unwrap();
                *c = format!("{c}\n{line}");
                if file == "gen_languages.txt" {
                    files_for(&mut d, "gen", name);
                }
                if !f(&files_case(&d, vec![0])) {
                    return;
                }
            }
        }
        // names of languages joined by something else than "+" are one name
        for mark in ["_", "-", ".", "'", ",", "|", ":", ";", "/", "&", "~", "*", "#", "=", "\u{301}", "\u{b7}", "\u{2011}", "é", "0", "x", "++", "+", "//"] {
            for (file, line) in [
                ("gen_lang.txt", format!("a xa{mark}xb true\n")),
                ("gen_lang.txt", format!("a xa{mark}xb false\n")),
                ("gen_lang.txt", format!("a {mark}xa true\n")),
                ("gen_lang.txt", format!("a xb{mark} false\n")),
                ("gen_rules_any.txt", format!("\"a\" \"\" \"\" \"(a[xa{mark}xb]|u)\"\n")),
                ("gen_rules_any.txt", format!("\"a\" \"\" \"\" \"(a[{mark}xa]|u)\"\n")),
            ] {
                i += 1;
                if i % n != w {
                    continue;
                }
                let mut d = base.clone();
                let text = if file == "gen_lang.txt" { line } else { format!("{line}\"b\" \"\" \"\" \"o\"\n") };
                d.insert(file.into(), text);
                d.insert("gen_languages.txt".into(), "any\nxa\nxb\n".into());
                for (l, out) in [("xa", "e"), ("xb", "y"), ("any", "(a[xa]|o[xb]|u)")] {
                    if file == "gen_lang.txt" || l != "any" {
                        d.insert(format!("gen_rules_{l}.txt"), format!("\"a\" \"\" \"\" \"{out}\"\n"));
                    }
                    for kind in ["approx", "exact"] {
                        d.insert(format!("gen_{kind}_{l}.txt"), String::new());
                    }
                }
                if !f(&files_case(&d, vec![0])) {
                    return;
                }
            }
        }
        // files included through many others, and large ones
        for depth in [1, 2, 5, 9, 17, 40, 130] {
            for end in ["\"a\" \"\" \"\" \"i\"\n", "nonsense\n", "#include inc\n", "#include nothere\n", "#include chain0\n"] {
                i += 1;
                if i % n != w {
                    continue;
                }
                let mut d = base.clone();
                for k in 0..depth {
                    d.insert(format!("chain{k}.txt"), format!("\"b\" \"\" \"\" \"{}\"\n#include chain{}\n", (b'a' + (k % 26) as u8) as char, k + 1));
                }
                d.insert(format!("chain{depth}.txt"), end.into());
                d.insert("inc.txt".into(), "\"c\" \"\" \"\" \"c\"\n".into());
                let c = d.get_mut("gen_rules_any.txt").unwrap();
                *c = format!("#include chain0\n{c}");
                if !f(&files_case(&d, vec![0])) {
                    return;
                }
            }
        }
        for size in [2000, 4096, 8192, 16384, 32768, 65536, 100_000, 140_000] {
            for (name, end) in [
                ("gen_rules_any.txt", "\"a\" \"\" \"\" \"i\"\n"),
                ("gen_rules_any.txt", "nonsense\n"),
                ("sep_exact_common.txt", "\"a\" \"\" \"\" \"i\"\n"),
                ("inc.txt", "\"a\" \"\" \"\" \"i\"\n"),
                ("ash_lang.txt", "a xa true\n"),
                ("gen_lang.txt", "a xa true\nb xb maybe\n"),
                ("gen_languages.txt", "xc\n"),
            ] {
                for filler in ["// nothing to see here\n", "\n", "/* a comment\n of two lines */\n", "one long comment"] {
                    i += 1;
                    if i % n != w {
                        continue;
                    }
                    let mut d = base.clone();
                    let c = d.get_mut(name).unwrap();
                    *c = match filler {
                        "one long comment" => format!("// {}\n{c}\n{end}", "x".repeat(size)),
                        _ => format!("{}{c}\n{end}", filler.repeat(size / filler.len() + 1)),
                    };
                    if name == "inc.txt" {
                        let c = d.get_mut("gen_rules_any.txt").unwrap();
                        *c = format!("#include inc\n{c}");
                    }
                    if !f(&files_case(&d, vec![0])) {
                        return;
                    }
                }
            }
        }
        // the shipped directory loads
        let _ = w == 0 && f(&Case::new("shipped", &["cc-rules"], &[]));
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let parts = gen_dir_parts(g);
        let mut d = dir_of(&parts);
        for _ in 0..g.rng.below(4) {
            self.damage(g, &mut d);
        }
        files_case(&d, vec![g.rng.below(5) as i64])
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if c.k != "f" {
            return;
        }
        let mut d: Dir = c.s.chunks_exact(2).map(|p| (p[0].clone(), p[1].clone())).collect();
        if g.rng.chance(1, 5) {
            if let Some((_, v)) = d.iter_mut().nth(g.rng.below(30)) {
                *v = String::new();
            }
        } else {
            self.damage(g, &mut d);
        }
        let n = c.n.clone();
        *c = files_case(&d, n);
    }
    fn repair(&self, c: &mut Case) -> bool {
        // rules with another character class inside brackets, or ranges, are not what the reference reads
        c.k != "f"
            || (c.s.len() % 2 == 0
                && c.s.iter().map(|s| s.len()).sum::<usize>() < 260_000
                && c.s.chunks_exact(2).all(|p| {
                    p[0].ends_with(".txt")
                        && !p[0].contains('/')
                        && !p[1].contains('\0')
                        && !["[^^", "[]", "-]", "[-", "&&", "\\", "~~", "--"].iter().any(|x| p[1].contains(x) && file_kind(&p[0]) == "rules")
                }))
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        if c.k == "shipped" {
            let p = assets().join(&c.s[0]);
            return match sut("ConfigFiles::new", || ConfigFiles::new(&p))? {
                Ok(_) => Ok(()),
                Err(e) => bad(format!("the shipped directory {} is refused: {e}", c.s[0])),
            };
        }
        let d: Dir = c.s.chunks_exact(2).map(|p| (p[0].clone(), p[1].clone())).collect();
        let p = scratch();
        write_dir(&p, &d)?;
        let style = crate::core::fnv(c.s.concat().as_bytes());
        let sub = p.join("gen_rules_other.txt.d");
        let mut strange: Vec<PathBuf> = vec![];
        if c.n[0] == 1 {
            // unrelated entries don't matter
            let _ = std::fs::create_dir(&sub);
            let raw = |b: &[u8]| p.join(std::ffi::OsStr::from_bytes(b));
            for (i, n) in [&b"caf\xe9"[..], b"\xff_languages.txt", b"gen_languages.txt\xff", b"zz_languages.txt", b"GEN_languages.txt", b" gen_languages.txt", b"a\nb"].iter().enumerate() {
                let n = raw(n);
                let made = match (style >> (8 + 2 * i)) % 4 {
                    0 => std::fs::write(&n, "nonsense (").is_ok(),
                    1 => std::fs::create_dir(&n).is_ok(),
                    2 => std::os::unix::fs::symlink("/nonexistent/file", &n).is_ok(),
                    _ => false,
                };
                if made {
                    ev!("dir: strange entries");
                    strange.push(n);
                }
            }
        }
        let mut dir_at = None;
        if c.n[0] == 3 || c.n[0] == 4 {
            if let Some(name) = d.keys().nth((style >> 8) as usize % d.len().max(1)) {
                let f = p.join(name);
                let real = p.with_extension("elsewhere");
                if c.n[0] == 3 {
                    // a directory in the place of a file
                    let _ = std::fs::remove_file(&f);
                    if std::fs::create_dir(&f).is_ok() {
                        dir_at = Some(name.clone());
                        strange.push(f);
                    }
                } else if std::fs::rename(&f, &real).is_ok() {
                    // a link to a file
                    let _ = std::os::unix::fs::symlink(&real, &f);
                    ev!("dir: a link to a file");
                    strange.push(real);
                    strange.push(f);
                }
            }
        }
        let mut odd = None;
        if c.n[0] == 2 {
            // a file that isn't UTF-8
            let k = c.s.len() / 2;
            if let Some(name) = d.keys().nth(d.len() / 2).filter(|n| *n != "inc.txt" && k > 0) {
                std::fs::write(p.join(name), b"\"a\" \"\" \"\" \"\xff\xfe\"\n").map_err(|e| Stop::Error(e.to_string()))?;
                odd = Some(name.clone());
            }
        }
        // the same directory under another path
        let link = p.with_extension("à l'autre");
        let path = match style % 8 {
            0 => p.join("."),
            1 => PathBuf::from(format!("{}/", p.display())),
            2 if std::os::unix::fs::symlink(&p, &link).is_ok() => {
                ev!("dir: through a link with a strange name");
                link.clone()
            }
            _ => p.clone(),
        };
        let r = sut("ConfigFiles::new", || ConfigFiles::new(&path));
        let _ = std::fs::remove_dir(&sub);
        let _ = std::fs::remove_file(&link);
        for x in strange {
            let _ = std::fs::remove_dir(&x).or_else(|_| std::fs::remove_file(&x));
        }
        let r = r?;
        if let Some(name) = dir_at {
            if r.is_ok() && needed(&d, &name) {
                return bad(format!("{name} is a directory and the directory loads"));
            }
            ev!("dir: a directory in the place of a file");
            return Ok(());
        }
        if let Some(name) = odd {
            if r.is_ok() && needed(&d, &name) {
                return bad(format!("{name} isn't UTF-8 and the directory loads"));
            }
            ev!("dir: not UTF-8");
            return Ok(());
        }
        let fs = faults(&d);
        o.nontrivial = !fs.is_empty();
        match r {
            Ok(cf) => {
                if let Some(x) = fs.first() {
                    return bad(format!("the directory loads, its fault is {x:?}"));
                }
                ev!("dir: well-formed");
                let Ok(m) = bm::load(&d) else { return harness_error("the model refuses what has no fault") };
                // once loaded, the directory isn't needed any more
                match style / 8 % 8 {
                    0 => {
                        let _ = std::fs::remove_dir_all(&p);
                        ev!("dir: removed after loading");
                    }
                    1 => {
                        for n in d.keys() {
                            std::fs::write(p.join(n), "\"a\" \"\" \"\" \"changed\"\n").map_err(|e| Stop::Error(e.to_string()))?;
                        }
                        ev!("dir: overwritten after loading");
                    }
                    _ => {}
                }
                for (i, t) in ["abcde", "edcba", "a", "cab abc", "deadbeaded"].iter().enumerate() {
                    for k in 0..2 {
                        let op = Opt { name: i % 3, kind: k, concat: true, max: 12 };
                        let keep = o.nontrivial;
                        cmp(&encoder(&cf, op), &m, op, t, None, o)?;
                        o.nontrivial = keep;
                    }
                }
                Ok(())
            }
            Err(e) => {
                o.note(|| format!("{e}"));
                if fs.is_empty() {
                    return bad(format!("a well-formed directory is refused: {e}"));
                }
                ev!("dir: refused");
                match &e {
                    PhoneticError::ParseRuleError(x) => {
                        let hit = fs.iter().any(|f| match f {
                            Fault::Line(name, line, content) => {
                                *line == x.line_number
                                    && *content == x.line_content
                                    && match (name, &x.filename) {
                                        (None, _) => true,
                                        (Some(n), Some(f)) => names_file(f, n),
                                        (Some(_), None) => false,
                                    }
                            }
                            Fault::Other(_) => false,
                        });
                        if !hit {
                            return bad(format!("the faults are {fs:?}, reported: {x:?}"));
                        }
                        ev!("dir: fault located");
                    }
                    other => {
                        if !fs.iter().any(|f| matches!(f, Fault::Other(_))) {
                            return bad(format!("the faults are {fs:?}, reported without location: {other}"));
                        }
                    }
                }
                Ok(())
            }
        }
    }
    fn minimum(&self) -> (u64, u64) {
        (800, 300)
    }
    fn shrink(&self) -> bool {
        false
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["dir: well-formed", "dir: refused", "dir: fault located", "bm: include cycle", "bm: empty pattern", "bm: wrong phoneme", "bm: wrong context", "bm: wrong language line", "bm: any not listed", "bm: missing rule file"]
    }
}
/// Whether a reported name is that of the file, with or without directory and extension.
fn names_file(reported: &str, file: &str) -> bool {
    let base = reported.rsplit(['/', '\\']).next().unwrap();
    let strip = |s: &str| s.strip_suffix(".txt").unwrap_or(s).to_string();
    strip(base) == strip(file)
}
fn needed(d: &Dir, name: &str) -> bool {
    let mut e = d.clone();
    e.remove(name);
    faults(&e).iter().any(|f| matches!(f, Fault::Other(_))) && !faults(d).iter().any(|f| matches!(f, Fault::Other(_)))
}
impl C18 {
    pub fn damage(&self, g: &mut Gen, d: &mut Dir) {
        let names: Vec<String> = d.keys().cloned().collect();
        if names.is_empty() {
            return;
        }
        let name = g.rng.pick(&names).clone();
        let kind = file_kind(&name);
        let rule = gen_rule(g);
        match g.rng.below(14) {
            0 => {
                d.remove(&name);
            }
            1 => {
                let inc = names.iter().filter(|n| file_kind(n) == "rules").nth(g.rng.below(25)).map(|n| n.trim_end_matches(".txt").to_string());
                if let (Some(mut i), "rules") = (inc, kind) {
                    if g.rng.chance(1, 3) {
                        i = g.rng.pick(&INCLUDED).to_string();
                        if g.rng.chance(1, 2) {
                            d.insert(format!("{i}.txt"), format!("{rule}\n"));
                        }
                    }
                    let c = d.get_mut(&name).unwrap();
                    *c = format!("#include {i}\n{c}");
                }
            }
            2 => {
                let c = d.get_mut(&name).unwrap();
                let k = g.rng.below(c.chars().count() + 1);
                *c = c.chars().take(k).collect();
            }
            3 => {
                let mut c = d[&name].clone();
                g.mutate_str(&mut c, "AB\"\" [](|)/*\n\r#");
                d.insert(name, c);
            }
            4 => {
                let list = *g.rng.pick(&["any\nxa\nxb\n", "xa\nxb\n", "any\n", "any\nxa\nxb\nxd\n", "// c\nany\n\n/* xa\n xb */\nxa", "Any\nxa", ""]);
                d.insert(format!("{}_languages.txt", g.rng.pick(&bm::TYPES)), list.into());
            }
            5 if g.rng.chance(1, 2) => {
                // under a name that isn't quite its own
                let other = match g.rng.below(5) {
                    0 => name.to_uppercase().replace(".TXT", ".txt"),
                    1 => format!("{}{}", name[..1].to_uppercase(), &name[1..]),
                    2 => name.replace('_', "-"),
                    3 => format!(" {name}"),
                    _ => name.replace(".txt", ".txt.txt"),
                };
                if let Some(c) = d.remove(&name) {
                    d.insert(other, c);
                }
            }
            5 => {
                d.insert(g.rng.pick(&["readme.txt", "gen_rules_zz.txt", "zz_languages.txt", "xgen_languages.txt", "gen_languages.txt.txt"]).to_string(), "nonsense (".into());
            }
            6..=9 => {
                let b = bad_line(g, kind);
                if kind == "languages" && g.rng.chance(2, 3) {
                    for l in [b.trim(), b.as_str(), b.split(' ').next().unwrap()] {
                        files_for(d, &name[..3], l);
                    }
                }
                let mut l: Vec<String> = d[&name].split('\n').map(|s| s.to_string()).collect();
                let p = g.rng.below(l.len() + 1);
                l.insert(p, b);
                d.insert(name, l.join("\n"));
            }
            10 => {
                let c = d.get_mut(&name).unwrap();
                *c = c.replace('\n', "\r\n");
            }
            11 => {
                let c = d.get_mut("inc.txt");
                if let Some(c) = c {
                    *c += &bad_line(g, "rules");
                }
            }
            12 => {
                let mut l: Vec<String> = d[&name].split('\n').map(|s| s.to_string()).collect();
                let p = g.rng.below(l.len() + 1);
                l.insert(p, g.rng.pick(&["/* comment\nover\nlines */", "/* one */", "// c", "", "   ", "/*\n*/ // more"]).to_string());
                d.insert(name, l.join("\n"));
            }
            _ => {
                if kind == "rules" {
                    let c = d.get_mut(&name).unwrap();
                    c.push_str(&rule);
                    c.push('\n');
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C19
fn shape(s: &str, max: usize) -> Result<(usize, usize), String> {
    // well-parenthesised groups joined by '-'
    let mut depth = 0i64;
    let mut lists = 0;
    let mut most = 0;
    let mut cur = String::new();
    let mut flush = |cur: &mut String, depth: i64| -> Result<(), String> {
        if depth < 0 {
            return Err("unbalanced parentheses".into());
        }
        let v: Vec<&str> = cur.split('|').collect();
        for w in v.windows(2) {
            if w[0] >= w[1] {
                return Err(format!("{:?} before {:?}", w[0], w[1]));
            }
        }
        let m = max.max(1);
        if v.len() > m.saturating_mul(m).saturating_mul(m) {
            return Err(format!("{} alternatives", v.len()));
        }
        lists += 1;
        most = most.max(v.len());
        cur.clear();
        Ok(())
    };
    for c in s.chars() {
        match c {
            '(' => depth += 1,
            ')' => {
                flush(&mut cur, depth)?;
                depth -= 1
            }
            '-' => flush(&mut cur, depth)?,
            c => cur.push(c),
        }
    }
    // the text after ')' is empty and not a list of its own
    flush(&mut cur, depth)?;
    if depth != 0 {
        return Err("unbalanced parentheses".into());
    }
    Ok((lists, most))
}

impl Prop for C19 {
    fn seconds(&self) -> (u64, u64) {
        (20, 600)
    }
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "a case is a text, options and perhaps a language set on the shipped or embedded rules; the shape of the result is checked, and the result for the text in other letter case and with hyphens for spaces compared; non-trivial: several alternatives"
    }
    fn files(&self) -> &'static [&'static str] {
        &["src/beider_morse/engine.rs", "src/beider_morse/mod.rs"]
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let mut n = gen_opt(g);
        n.push(g.rng.below(4).min(1) as i64 ^ 1);
        n.push(g.rng.next() as i64 & 0xffff);
        let s = bm_text(g);
        let l = if g.rng.chance(3, 4) { "?".into() } else { gen_langs(g, &LANGS) };
        Case::t("t", vec![s, l], n)
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if g.rng.chance(1, 4) {
            let x = self.gen(g);
            c.n = x.n;
        } else {
            let mut s = std::mem::take(&mut c.s[0]);
            g.mutate_str(&mut s, LETTERS);
            c.s[0] = s;
        }
    }
    fn repair(&self, c: &mut Case) -> bool {
        let m = super::cross::bm_limit_for(&c.n, &c.s[0]);
        super::cross::cut_to(&mut c.s[0], m);
        true
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        let op = opt(&c.n);
        let e = encoder(config(c.n[4])?, op);
        let run = |s: &str| -> Result<String, Stop> {
            match c.s[1].as_str() {
                "?" => sut("encode", || e.encode(s)),
                l => {
                    let set = langs(l);
                    sut("encode_with_languages", || e.encode_with_languages(s, &set))
                }
            }
        };
        let s = &c.s[0];
        let r = run(s)?;
        o.nontrivial = r.contains('|');
        o.note(|| format!("{s:?} {op:?} -> {r:?}"));
        if r.contains('(') {
            ev!("bm shape: groups");
        }
        if let Err(w) = shape(&r, op.max) {
            return bad(format!("Beider-Morse {op:?} of {s:?} = {r:?}: {w}"));
        }
        let mut x = c.n[5] as u64;
        let flipped: String = s
            .chars()
            .map(|c| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                if x >> 40 & 1 == 1 {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            })
            .collect();
        if flipped != *s {
            let r2 = run(&flipped)?;
            if r2 != r {
                return bad(format!("Beider-Morse {op:?}: {s:?} gives {r:?} but {flipped:?} gives {r2:?}"));
            }
        }
        if s.contains(' ') {
            ev!("bm shape: hyphen for space");
            let h = s.replace(' ', "-");
            let r2 = run(&h)?;
            if r2 != r {
                return bad(format!("Beider-Morse {op:?}: {s:?} gives {r:?} but {h:?} gives {r2:?}"));
            }
        }
        Ok(())
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["bm shape: groups", "bm shape: hyphen for space"]
    }
}
