//! C28: memory and work.
use super::bmp::{bm_text, gen_dir_parts, gen_langs, LANGS};
use super::cross::{cut_to, text_for, ALPHA};
use super::*;
use crate::alloc;
use crate::core::{bad, feature, sut, sut_cost, Obs, Prop, Stop, Verdict};
use crate::enc::{build, langs, DM_RULES, E, KINDS};
use crate::ev;
use rphonetic::*;

pub struct C28;

/// Bounds for a text of `l` characters (and `m` alternatives): (steps, bytes held at the peak). They are about ten
/// times what the families of texts below need, see DESIGN.md.
fn bounds(k: &str, n: &[i64], l: u64) -> (u64, u64) {
    let l = l + 16;
    let one = |s2: u64, s1: u64, p1: u64| (s2 * l * l + s1 * l + 50_000, p1 * l + 20_000);
    match k {
        "soundex" | "refined" | "cologne" | "nysiis" | "phonex" | "mra" | "cav1" | "cav2" | "meta" | "dmeta" => {
            let (s, p) = one(100, 2000, 400);
            let m = if k == "phonex" { n.first().copied().unwrap_or(0).clamp(0, 5000) as u64 } else { 0 };
            (s + 2000 * m, p + 100 * m)
        }
        "dm" => (8_000_000 * l + 400 * l * l, 1_000_000 + 1000 * l),
        _ => {
            let m = n.get(3).copied().unwrap_or(20).clamp(1, 10_000) as u64 + 4;
            (10_000 * l * l * m + 600_000 * l * m, 500_000 + 12_000 * l * m)
        }
    }
}

fn longest(k: &str, n: &[i64], deep: bool) -> usize {
    match k {
        "bm" => super::cross::bm_limit(n.get(3).copied().unwrap_or(20)),
        "dm" if deep => 3000,
        "dm" => 250,
        _ if deep => 20_000,
        _ => 3000,
    }
}

fn unit(g: &mut Gen, k: &str) -> String {
    let n = g.rng.range(1, 4);
    let mut u = String::new();
    for _ in 0..n {
        u += &match (g.rng.below(6), k) {
            (0..=1, "dm") => (*g.rng.pick(&["rs", "ch", "ck", "c", "j", "rz", "ţ", "ą", "ę", "a", "t", "rsa", "che"])).to_string(),
            (0, "bm") => (*g.rng.pick(&["d'", "da ", "de la ", "van ", "a ", "-", "au", "sch", "ou", "x", "tsch", "ei", "ie", "ph", "c"])).to_string(),
            (0..=2, _) => g.token(),
            (3, _) => g.special().to_string(),
            _ => g.letters(ALPHA, 3),
        };
    }
    if u.is_empty() {
        "a".into()
    } else {
        u
    }
}

fn text_of(c: &Case, deep: bool) -> String {
    let max = longest(&c.k, &c.n[2..], deep);
    let mut t = c.s[1].clone();
    let reps = c.n[1].clamp(0, 20_000) as usize;
    let ul = c.s[0].chars().count().max(1);
    for _ in 0..reps.min(max / ul + 1) {
        t += &c.s[0];
    }
    t += &c.s[2];
    cut_to(&mut t, max);
    t
}

/// A different text for every number.
fn variant(t: &str, mut i: usize) -> String {
    let mut s = t.to_string();
    loop {
        s.push((b'a' + (i % 26) as u8) as char);
        i /= 26;
        if i == 0 {
            return s;
        }
    }
}

fn all_ops(e: &E, t: &str, l: &LanguageSet) {
    let mut i = 0;
    while e.op(i, t, "Smith", l).is_some() {
        i += 1;
    }
}

/// Live bytes must stop growing. `f(i)` is the i-th call; rounds of `n` calls.
fn retention(what: &str, n: usize, extra: usize, mut f: impl FnMut(usize) -> Result<(), Stop>) -> Verdict {
    let mut i = 0;
    let mut round = |n: usize, f: &mut dyn FnMut(usize) -> Result<(), Stop>| -> Result<i64, Stop> {
        let before = alloc::live() as i64;
        for _ in 0..n {
            f(i)?;
            i += 1;
        }
        Ok(alloc::live() as i64 - before)
    };
    let mut v = vec![];
    for _ in 0..5 {
        v.push(round(n, &mut f)?);
        if v.len() > 1 && v.last().unwrap() < &(n as i64) {
            ev!("retention: stopped growing");
            return Ok(());
        }
    }
    // Buffers and caches of a fixed size are no retention: it has to go on.
    for _ in 0..4 {
        let g = round(extra, &mut f)?;
        v.push(g);
        if g < extra as i64 {
            ev!("retention: stopped growing late");
            return Ok(());
        }
    }
    bad(format!("{what}: the memory held grows with every call; bytes kept by rounds of {n} and then {extra} calls: {v:?}"))
}


impl Prop for C28 {
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "a case is an encoder, a configuration and a family of texts (a unit repeated); the edges executed and the bytes held at the peak of a call are compared with a polynomial bound, or the bytes still held after rounds of calls on one text or on many different ones are watched; non-trivial: a text of more than 30 characters, or a history"
    }
    fn files(&self) -> &'static [&'static str] {
        &super::cross::ALL_FILES
    }
    fn enumerate(&self, _g: &mut Gen, t: bool, w: usize, n: usize, f: &mut dyn FnMut(&Case) -> bool) {
        let mut i = 0;
        let mut go = |k: &str, s: Vec<String>, v: Vec<i64>, f: &mut dyn FnMut(&Case) -> bool| {
            i += 1;
            i % n != w || f(&Case::t(k, s, v))
        };
        let e = String::new;
        // histories of every encoder
        for k in KINDS {
            for cfg in [vec![4i64], vec![1, 0, 1, 20, 0], vec![1, 1, 0, 10, 1]] {
                if (k == "bm") != (cfg.len() > 1) {
                    continue;
                }
                for base in ["", "Schmidt", "van der Rosochowaciec", "d'Ortiz-Angel", "Thompson ÉÖ", "MacGoughtz"] {
                    for mode in [1, 2] {
                        let mut v = vec![mode, 0];
                        v.extend(&cfg);
                        if !go(k, vec![e(), base.to_string(), e(), e(), "*".into()], v, f) {
                            return;
                        }
                    }
                }
            }
        }
        for k in ["dmbuild", "bmbuild", "bmdefault", "dmdefault"] {
            if !go(k, vec![e(), "Schmidt".into(), e(), e(), e()], vec![1, 0], f) {
                return;
            }
        }
        // every branching rule of the shipped Daitch-Mokotoff rules, alone and in pairs
        if let Ok(r) = crate::dm::parse(&DM_RULES) {
            let br: Vec<String> = r.rules.iter().filter(|r| r.rep.iter().any(|x| x.len() > 1)).map(|r| r.pat.iter().collect()).collect();
            for a in &br {
                for b in br.iter().map(|s| s.as_str()).chain(["", "a", "t", "l"]) {
                    for x in [100, 20] {
                        if !go("dm", vec![format!("{a}{b}"), e(), e(), e(), e()], vec![0, x, 1], f) {
                            return;
                        }
                    }
                }
            }
        }
        // rules of one's own with many alternatives, different or not: [0, how many, letters, how many are different]
        for (k, l, d) in [
            (2i64, 1i64, 2i64), (2, 300, 2), (2, 300, 1), (3, 40, 3), (3, 300, 1), (3, 200, 2), (8, 1, 8), (8, 3, 8), (8, 200, 1), (8, 60, 2), (12, 1, 12), (16, 1, 16), (16, 2, 16), (16, 40, 1), (20, 1, 20),
            (24, 2, 24), (24, 100, 1), (32, 1, 32), (40, 1, 40), (40, 2, 40), (64, 1, 64), (64, 30, 1), (100, 1, 100), (300, 1, 300), (300, 20, 1),
        ] {
            if !go("dmbranch", vec![e(), e(), e(), e(), e()], vec![0, k, l, d], f) {
                return;
            }
        }
        // letters repeated
        let u: Vec<String> = strings("aehsctrzwkn", if t { 3 } else { 2 });
        for k in KINDS.iter().filter(|k| **k != "bm") {
            for s in &u {
                let reps = if s.len() > 1 { 200 } else { 3000 };
                if !go(k, vec![s.clone(), e(), e(), e(), e()], vec![0, reps, -1], f) {
                    return;
                }
            }
        }
        for (j, s) in strings("aeiocshtzr", 2).iter().chain(["d'", "de la ", "da ", "d'de la ", "van ", "ei-", "a ", "sch ", "au'", "ou x "].map(|s| s.to_string()).iter()).enumerate() {
            let j = j as i64;
            if !go("bm", vec![s.clone(), e(), e(), e(), "*".into()], vec![0, 40, j % 3, j / 3 % 2, j % 2, 20, 0], f) {
                return;
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let k = match g.rng.below(6) {
            0 => "dm",
            1 => "bm",
            _ => *g.rng.pick(&KINDS),
        };
        let (cfg, t) = super::cross::config_of(g, k);
        let mode = if g.rng.chance(1, 60) { g.rng.range(1, 2) as i64 } else { 0 };
        let reps = match g.rng.below(4) {
            0 => 3000,
            1 => g.rng.range(100, 900) as i64,
            _ => g.rng.range(1, 60) as i64,
        };
        let (a, b) = if g.rng.chance(1, 2) { (text_for(g, k), unit(g, k)) } else { (String::new(), String::new()) };
        let a = if k == "bm" && g.rng.chance(1, 2) { bm_text(g) } else { a };
        let l = gen_langs(g, &LANGS);
        let mut n = vec![mode, reps];
        n.extend(cfg);
        if g.rng.chance(1, 200) {
            let mut s = vec![String::new(), "abc".into(), String::new(), String::new(), String::new()];
            s.extend(gen_dir_parts(g));
            return Case::t("bmbuild", s, vec![1, 0]);
        }
        Case::t(k, vec![unit(g, k), a, b, t, l], n)
    }
    fn mutate(&self, g: &mut Gen, c: &mut Case) {
        if c.k == "dmbranch" {
            *c = self.gen(g);
        } else if g.rng.chance(1, 3) {
            c.s[0] = unit(g, &c.k.clone());
        } else {
            let k = g.rng.below(3);
            g.mutate_str(&mut c.s[k], ALPHA);
            c.n[1] = g.rng.range(1, 400) as i64;
        }
    }
    fn repair(&self, c: &mut Case) -> bool {
        if c.s.len() < 5 || c.n.len() < 2 || (c.k == "bm" && c.n.len() < 7) {
            return false;
        }
        if matches!(c.k.as_str(), "soundex" | "refined") {
            let v: Vec<char> = c.s[3].chars().collect();
            if !v.is_empty() && v.len() != 26 {
                c.s[3] = v.iter().cycle().take(26).collect();
            }
        } else {
            c.s[3].clear();
        }
        if c.n[0] != 0 {
            cut_to(&mut c.s[1], 40);
        }
        true
    }
    fn check(&self, c: &Case, o: &mut Obs) -> Verdict {
        let k = c.k.as_str();
        feature("encoder kinds", KINDS.iter().position(|x| *x == k).unwrap_or(99) as u64);
        let t = text_of(c, c.n.first() == Some(&0) && c.n[1] > 5000);
        let len = t.chars().count() as u64;
        match (k, c.n[0]) {
            ("dmbranch", _) if c.n.len() == 4 => {
                o.nontrivial = true;
                let (k, l, d) = (c.n[1].clamp(1, 300) as u64, c.n[2].clamp(1, 300) as u64, c.n[3].clamp(1, 300) as u64);
                let p = (0..k).map(|i| char::from_u32('0' as u32 + (i % d) as u32).unwrap().to_string()).filter(|x| x != "|").collect::<Vec<_>>().join("|").replace('"', "0");
                let e = match sut("build", || DaitchMokotoffSoundexBuilder::with_rules(&format!("\"a\" \"{p}\" \"{p}\" \"{p}\"\n")).build())? {
                    Ok(e) => e,
                    Err(e) => return bad(format!("rules with the replacements {p} are refused: {e}")),
                };
                let t = "a".repeat(l as usize);
                // codes of six digits at most, and the last replacement
                let branches = (1..=l.min(7)).fold(1u64, |b, _| (b * d).min(20_000)) + k;
                ev!("rules with many alternatives");
                for op in 0..2 {
                    let (r, cost) = sut_cost("Daitch-Mokotoff", || if op == 0 { e.soundex(&t) } else { e.encode(&t) })?;
                    let ms = 300_000 + 500 * l * branches + 10 * l * branches * branches;
                    let mp = 50_000 + 1000 * branches + 1000 * l;
                    if std::env::var_os("VH_COST").is_some() {
                        eprintln!("COST {k} {d} {l}: {} of {ms}, {} of {mp}", cost.steps, cost.peak);
                    }
                    o.note(|| format!("{k} alternatives, {d} different, {l} letters: {} steps of {ms}, {} bytes of {mp}", cost.steps, cost.peak));
                    if cost.steps > ms || cost.peak as u64 > mp {
                        return bad(format!("Daitch-Mokotoff of {l} times a letter with the replacements {p}: {} steps and {} bytes, more than {ms} and {mp}", cost.steps, cost.peak));
                    }
                    drop(r);
                }
                return Ok(());
            }
            ("dmdefault", _) => {
                o.nontrivial = true;
                return retention("building the default Daitch-Mokotoff encoder", 6, 40, |_| sut("default", || drop(DaitchMokotoffSoundex::default())));
            }
            ("bmdefault", _) => {
                o.nontrivial = true;
                return retention("building the embedded Beider-Morse rules", 2, 6, |_| {
                    sut("default", || {
                        let c = ConfigFiles::default();
                        BeiderMorseBuilder::new(&c).build().encode("abc")
                    })
                    .map(drop)
                });
            }
            ("dmbuild", _) => {
                o.nontrivial = true;
                return retention("building a Daitch-Mokotoff encoder", 6, 40, |i| {
                    let r = variant("", i);
                    sut("build", || {
                        let r = format!("\"{r}\" \"1\" \"2|3\" \"4\"\né=e\n");
                        let _ = DaitchMokotoffSoundexBuilder::with_rules(&r).build();
                        let bad = format!("{r}\"wrong\n");
                        let _ = DaitchMokotoffSoundexBuilder::with_rules(&bad).build();
                    })
                });
            }
            ("bmbuild", _) => {
                o.nontrivial = true;
                if c.s.len() < 15 {
                    let p = crate::enc::assets().join("cc-rules");
                    return retention("loading the Beider-Morse rules", 2, 3, |_| {
                        sut("ConfigFiles::new", || {
                            let c = ConfigFiles::new(&p).ok()?;
                            Some(BeiderMorseBuilder::new(&c).build().encode("abc"))
                        })
                        .map(drop)
                    });
                }
                let p = super::bmp::scratch();
                super::bmp::write_dir(&p, &super::bmp::dir_of(&c.s[5..]))?;
                return retention("loading Beider-Morse rules", 5, 20, |_| {
                    sut("ConfigFiles::new", || {
                        let c = ConfigFiles::new(&p).ok()?;
                        Some(BeiderMorseBuilder::new(&c).build().encode("abc"))
                    })
                    .map(drop)
                });
            }
            (_, 0) => {}
            (_, mode) => {
                o.nontrivial = true;
                let cfg = &c.n[2..];
                let e = build(k, cfg, &c.s[3])?;
                let l = langs(&c.s[4]);
                let (n, extra) = if k == "bm" { (24, 400) } else { (64, 8000) };
                o.note(|| format!("{k} {cfg:?}: history on {t:?}"));
                if mode == 1 {
                    ev!("history of one text");
                    return retention(&format!("{k} {cfg:?} on {t:?} again and again"), n, extra, |_| sut("operations", || all_ops(&e, &t, &l)));
                }
                ev!("history of different texts");
                return retention(&format!("{k} {cfg:?} on different texts beginning with {t:?}"), n, extra, |i| {
                    let t = variant(&t, i);
                    sut("operations", || all_ops(&e, &t, &l))
                });
            }
        }
        let cfg = &c.n[2..];
        o.nontrivial = len > 30;
        let e = build(k, cfg, &c.s[3])?;
        let l = langs(&c.s[4]);
        let (ms, mp) = bounds(k, cfg, len);
        for op in 0.. {
            // comparisons are with the empty text
            let (r, cost) = sut_cost(&format!("{k} {cfg:?}"), || e.op(op, &t, "", &l))?;
            let Some((name, r)) = r else { break };
            if op == 0 {
                o.note(|| format!("{k} {cfg:?} on {len} characters: {} edges, {} bytes at the peak, {} allocations", cost.steps, cost.peak, cost.allocs));
            }
            if std::env::var_os("VH_COST").is_some() {
                report(k, name, cost.steps as f64 / ms as f64, cost.peak as f64 / mp as f64, len, &t, cost.steps, cost.peak as u64, cfg);
            }
            let show: String = t.chars().take(60).collect();
            if cost.steps > ms {
                return bad(format!("{k} {cfg:?} {name} on {len} characters ({show:?}...) takes {} steps, more than {ms}", cost.steps));
            }
            if cost.peak as u64 > mp {
                return bad(format!("{k} {cfg:?} {name} on {len} characters ({show:?}...) holds {} bytes, more than {mp}", cost.peak));
            }
            drop(r);
        }
        if len > 900 {
            ev!("text of more than 900 characters");
        }
        Ok(())
    }
    fn shrink(&self) -> bool {
        false
    }
    fn required_events(&self) -> &'static [&'static str] {
        &["rules with many alternatives", "history of one text", "history of different texts", "retention: stopped growing", "text of more than 900 characters"]
    }
}

/// For calibration: prints new maxima.
#[allow(clippy::too_many_arguments)]
fn report(k: &str, name: &str, s: f64, p: f64, len: u64, t: &str, steps: u64, peak: u64, cfg: &[i64]) {
    use std::collections::HashMap;
    thread_local! { static M: std::cell::RefCell<HashMap<(String, bool), f64>> = Default::default(); }
    for (what, x) in [(false, s), (true, p)] {
        let up = M.with(|m| {
            let mut m = m.borrow_mut();
            let e = m.entry((k.to_string(), what)).or_insert(0.0);
            let up = x > *e;
            if up {
                *e = x;
            }
            up
        });
        if up {
            eprintln!("COST {k} {name} {} {x:.4} len {len} steps {steps} peak {peak} {cfg:?} {:?}", if what { "peak" } else { "steps" }, t.chars().take(40).collect::<String>());
        }
    }
}
