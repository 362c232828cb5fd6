//! Random choices, dictionaries harvested from the crate's sources, text generators and mutators.
use crate::core::Case;
use std::path::Path;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub const SPECIALS: &str = "ßŉǰΐﬀﬃİıſKÅÄÖÜÇÑçñéèêëàâäåîïíìôöòóõùûüúýÿŸŶŷŐőŰűŒœøØłŁțșţşąęćńóśźżčřšžåæÆþÐđħΣσςαΩжЖщЪאבשالع漢字ひ한😀👍\u{200d}\u{301}\u{308}\u{327}\u{a0}\u{2028}\u{85}\u{3000}\u{2003}\u{feff}\0\u{1}\u{b}\u{c}\u{7f}Džǆⅷªº٠０Ａａ𝐀𝒶𐐀ẞᾳᾼⓐⅠʼ’‘“–—−·ﬁﬆև\u{10ffff}\u{fffd}\u{e000}\u{1f1e6}Ꭰꭰᏸßẖώᵫ\u{345}Ͱͱ\u{d7ff}\u{ffff}\u{10000}\u{7ff}\u{800}\u{80}ÿ";
pub const NOISE: &str = " -'&.,\t\n\r/\\_+*()[]{}|\"`~!?@#$%^=;:<>0123456789";
pub const UPPER: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
pub const LOWER: &str = "abcdefghijklmnopqrstuvwxyz";

pub struct Gen {
    pub rng: Rng,
    pub tokens: Vec<String>,
    pub ints: Vec<i64>,
    pub names: Vec<String>,
    pub specials: Vec<char>,
    pub noise: Vec<char>,
    /// Longest text made on purpose, and how rarely (one text in so many) one is made long.
    pub long: (usize, usize),
}

static NAMES: &str = include_str!("../../assets/names.txt");

impl Gen {
    pub fn new(seed: u64, files: &[&str]) -> Self {
        let (mut tokens, mut ints) = (vec![], vec![]);
        let repo = std::env::var("REPO_DIR").unwrap_or_else(|_| "/repo".into());
        // Literals as they were when this was written, and as they are now.
        let frozen: std::collections::BTreeMap<String, (Vec<String>, Vec<i64>)> =
            serde_json::from_str(include_str!("../../assets/tokens.json")).unwrap();
        for f in files {
            harvest(&Path::new(&repo).join(f), &mut tokens, &mut ints);
            if let Some((t, i)) = frozen.get(*f) {
                tokens.extend(t.iter().cloned());
                ints.extend(i);
            }
        }
        tokens.sort();
        tokens.dedup();
        ints.sort();
        ints.dedup();
        Gen {
            rng: Rng::new(seed),
            tokens,
            ints,
            names: NAMES.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect(),
            specials: SPECIALS.chars().collect(),
            noise: NOISE.chars().collect(),
            long: (1100, 60),
        }
    }
    pub fn name(&mut self) -> String {
        let k = self.rng.below(self.names.len());
        self.names[k].clone()
    }
    pub fn token(&mut self) -> String {
        if self.tokens.is_empty() {
            return self.name();
        }
        let k = self.rng.below(self.tokens.len());
        self.tokens[k].clone()
    }
    pub fn special(&mut self) -> char {
        match self.rng.below(12) {
            0 => loop {
                if let Some(c) = char::from_u32(self.rng.below(0x110000) as u32) {
                    return c;
                }
            },
            1 => loop {
                if let Some(c) = char::from_u32(self.rng.below(0x3000) as u32) {
                    return c;
                }
            },
            2 | 3 => loop {
                if let Some(c) = char::from_u32(self.rng.range(0x80, 0x24f) as u32) {
                    return c;
                }
            },
            _ => {
                let k = self.rng.below(self.specials.len());
                self.specials[k]
            }
        }
    }
    pub fn any_char(&mut self) -> char {
        match self.rng.below(10) {
            0..=5 => (b'A' + self.rng.below(26) as u8) as char,
            6 => (b'a' + self.rng.below(26) as u8) as char,
            7 => {
                let k = self.rng.below(self.noise.len());
                self.noise[k]
            }
            _ => self.special(),
        }
    }
    /// Letters from a small random sub-alphabet: rules interact often.
    pub fn letters(&mut self, alphabet: &str, max: usize) -> String {
        let a: Vec<char> = alphabet.chars().collect();
        let k = self.rng.range(1, 7.min(a.len()));
        let sub: Vec<char> = if self.rng.chance(1, 3) { a.clone() } else { (0..k).map(|_| *self.rng.pick(&a)).collect() };
        let n = self.rng.range(1, max);
        (0..n).map(|_| *self.rng.pick(&sub)).collect()
    }
    pub fn vary_case(&mut self, s: &str) -> String {
        match self.rng.below(5) {
            0 => s.to_string(),
            1 => s.to_ascii_lowercase(),
            2 => s.to_ascii_uppercase(),
            3 => {
                let l = s.to_lowercase();
                let mut c = l.chars();
                match c.next() {
                    Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
                    None => l,
                }
            }
            _ => s
                .chars()
                .map(|c| if self.rng.chance(1, 2) { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() })
                .collect(),
        }
    }
    /// A length next to a boundary: a number of the sources or a power of two.
    pub fn boundary(&mut self, top: usize) -> usize {
        let n = match self.rng.below(3) {
            0 if !self.ints.is_empty() => {
                let k = self.rng.below(self.ints.len());
                self.ints[k].max(0) as usize
            }
            1 if top > 1100 && self.rng.chance(1, 8) => 1 << self.rng.range(10, 17),
            1 => 1 << self.rng.range(3, 10),
            _ => self.rng.range(8, 1100),
        };
        (n + self.rng.below(5)).saturating_sub(2).clamp(1, top)
    }
    /// A text of about `n` characters: pieces of other texts, or one repeated.
    pub fn long_text(&mut self, alphabet: &str, n: usize) -> String {
        let mut v: Vec<char> = vec![];
        let one = self.rng.chance(1, 3);
        let mut piece: Vec<char> = self.letters(alphabet, 9).chars().collect();
        while v.len() < n {
            if !one {
                let p = match self.rng.below(6) {
                    0 | 1 => self.letters(alphabet, 40),
                    2 => self.name(),
                    3 => self.token(),
                    4 => self.letters("AEIOUYHWBX", 12),
                    _ => self.any_char().to_string().repeat(2),
                };
                piece = p.chars().collect();
            }
            v.extend(&piece);
        }
        v.truncate(n);
        // something to see at the end
        if self.rng.chance(1, 2) {
            let e: Vec<char> = self.letters(alphabet, 6).chars().collect();
            let k = v.len().saturating_sub(e.len());
            v.truncate(k);
            v.extend(e);
        }
        let s: String = v.into_iter().collect();
        self.vary_case(&s)
    }
    /// Text made for an encoder whose rules work on `alphabet` (upper-case letters, weighted by repetition).
    pub fn text(&mut self, alphabet: &str, max: usize) -> String {
        if self.rng.chance(1, self.long.1) {
            let n = self.boundary(self.long.0);
            return self.long_text(alphabet, n);
        }
        let mut s = match self.rng.below(20) {
            0..=2 => self.name(),
            3 => {
                let mut s = self.name();
                s.push(*self.rng.clone().pick(&[' ', '-', '\'']));
                s + &self.name()
            }
            4..=8 => self.letters(alphabet, max.min(9)),
            9..=10 => self.letters(alphabet, max),
            11..=15 => {
                let n = self.rng.range(1, 5);
                let mut s = String::new();
                for _ in 0..n {
                    match self.rng.below(4) {
                        0 => s += &self.letters(alphabet, 3),
                        1 => s += &self.letters("AEIOUY", 1),
                        _ => s += &self.token(),
                    }
                }
                s
            }
            16 => {
                let n = self.rng.range(0, max);
                (0..n).map(|_| self.any_char()).collect()
            }
            17 => {
                let mut s = self.name();
                self.mutate_str(&mut s, alphabet);
                self.mutate_str(&mut s, alphabet);
                s
            }
            18 => {
                let b = self.letters(alphabet, 4);
                let n = self.rng.range(1, max.max(8) / 2);
                b.repeat(n)
            }
            _ => {
                let mut s = self.letters(alphabet, 8);
                s += &self.token();
                s += &self.letters(alphabet, 8);
                s
            }
        };
        if self.rng.chance(1, 8) {
            let k = self.rng.range(1, 3);
            for _ in 0..k {
                let c = if self.rng.chance(1, 2) { self.special() } else { *self.rng.clone().pick(&self.noise) };
                self.rng.next();
                insert_at(&mut s, self.rng.next() as usize, c);
            }
        }
        self.vary_case(&s)
    }
    pub fn mutate_str(&mut self, s: &mut String, alphabet: &str) {
        let a: Vec<char> = alphabet.chars().collect();
        let mut v: Vec<char> = s.chars().collect();
        let pos = self.rng.below(v.len() + 1);
        match self.rng.below(14) {
            0 | 1 => v.insert(pos, *self.rng.pick(&a)),
            2 => {
                let c = self.any_char();
                v.insert(pos, c)
            }
            3 | 4 => {
                if !v.is_empty() {
                    v.remove(pos.min(v.len() - 1));
                }
            }
            5 | 6 => {
                if !v.is_empty() {
                    let p = pos.min(v.len() - 1);
                    v[p] = *self.rng.pick(&a);
                }
            }
            7 => {
                if !v.is_empty() {
                    let p = pos.min(v.len() - 1);
                    v[p] = self.any_char();
                }
            }
            8 => {
                if v.len() > 1 {
                    let p = pos.min(v.len() - 2);
                    v.swap(p, p + 1);
                }
            }
            9 => {
                let t: Vec<char> = self.token().chars().collect();
                let t: Vec<char> = self.vary_case(&t.iter().collect::<String>()).chars().collect();
                for (i, c) in t.into_iter().enumerate() {
                    v.insert(pos + i, c);
                }
            }
            10 => {
                if !v.is_empty() {
                    let p = pos.min(v.len() - 1);
                    let e = (p + self.rng.range(1, 4)).min(v.len());
                    let w: Vec<char> = v[p..e].to_vec();
                    let n = if self.rng.chance(1, 10) { self.rng.range(1, 20) } else { 1 };
                    for _ in 0..n {
                        for (i, c) in w.iter().enumerate() {
                            v.insert(p + i, *c);
                        }
                    }
                }
            }
            11 => v.truncate(pos),
            12 => {
                v.drain(..pos);
            }
            _ => {
                let t = self.vary_case(&v.iter().collect::<String>());
                v = t.chars().collect();
            }
        }
        if v.len() > 4000 {
            v.truncate(4000);
        }
        *s = v.into_iter().collect();
    }
    pub fn int(&mut self) -> i64 {
        match self.rng.below(4) {
            0 if !self.ints.is_empty() => {
                let k = self.rng.below(self.ints.len());
                self.ints[k] + self.rng.below(3) as i64 - 1
            }
            1 => self.rng.below(5) as i64,
            2 => self.rng.below(40) as i64,
            _ => self.rng.below(12) as i64,
        }
    }
    /// A maximum code length: None is -1.
    pub fn max_len(&mut self) -> i64 {
        match self.rng.below(16) {
            0..=5 => -1,
            6..=9 => 4,
            10..=13 => self.rng.below(10) as i64,
            14 => self.rng.below(60) as i64,
            _ if self.rng.chance(3, 4) => self.boundary(1100) as i64,
            _ => i64::MAX,
        }
    }
    pub fn mutate_default(&mut self, c: &mut Case) {
        if c.s.is_empty() {
            return;
        }
        let k = self.rng.below(c.s.len());
        let mut s = std::mem::take(&mut c.s[k]);
        self.mutate_str(&mut s, "AAEEIIOUUYBCCCDDFGGGHHHHJKKLLMMNNNPPQRRSSSSTTTVWWXZZ");
        c.s[k] = s;
    }
    pub fn splice(&mut self, c: &mut Case, o: &Case) {
        if c.s.is_empty() || o.s.is_empty() {
            return;
        }
        let k = self.rng.below(c.s.len());
        let a: Vec<char> = c.s[k].chars().collect();
        let b: Vec<char> = o.s[k.min(o.s.len() - 1)].chars().collect();
        let i = self.rng.below(a.len() + 1);
        let j = self.rng.below(b.len() + 1);
        c.s[k] = a[..i].iter().chain(b[j..].iter()).collect();
    }
}

pub fn insert_at(s: &mut String, r: usize, c: char) {
    let n = s.chars().count();
    let p = r % (n + 1);
    let b = s.char_indices().nth(p).map(|(i, _)| i).unwrap_or(s.len());
    s.insert(b, c);
}

/// Literals of a source file (code before the tests): they steer generation only, no verdict depends on them.
pub fn harvest(p: &Path, tokens: &mut Vec<String>, ints: &mut Vec<i64>) {
    let Ok(src) = std::fs::read_to_string(p) else { return };
    let src = match src.find("#[cfg(test)]") {
        Some(i) => &src[..i],
        None => &src,
    };
    for line in src.lines() {
        let t = line.trim_start();
        if t.starts_with("//") || t.starts_with("#[") || t.starts_with("#![") || t.starts_with('*') {
            continue;
        }
        let v: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < v.len() {
            match v[i] {
                '/' if v.get(i + 1) == Some(&'/') => break,
                '"' => {
                    let mut s = String::new();
                    i += 1;
                    while i < v.len() && v[i] != '"' {
                        i = lit(&v, i, &mut s);
                    }
                    if !s.is_empty() && s.chars().count() <= 24 && !s.contains('{') {
                        tokens.push(s);
                    }
                }
                '\'' => {
                    let mut s = String::new();
                    if i + 1 < v.len() {
                        let j = lit(&v, i + 1, &mut s);
                        if v.get(j) == Some(&'\'') {
                            tokens.push(s);
                            i = j;
                        }
                    }
                }
                c if c.is_ascii_digit() && (i == 0 || !(v[i - 1].is_alphanumeric() || v[i - 1] == '_')) => {
                    let mut x: i64 = 0;
                    while i < v.len() && (v[i].is_ascii_digit() || v[i] == '_') {
                        if let Some(d) = v[i].to_digit(10) {
                            x = x.saturating_mul(10).saturating_add(d as i64);
                        }
                        i += 1;
                    }
                    if x < 5000 {
                        ints.push(x);
                    }
                    continue;
                }
                _ => {}
            }
            i += 1;
        }
    }
}
fn lit(v: &[char], i: usize, s: &mut String) -> usize {
    if v[i] != '\\' {
        s.push(v[i]);
        return i + 1;
    }
    match v.get(i + 1) {
        Some('n') => s.push('\n'),
        Some('r') => s.push('\r'),
        Some('t') => s.push('\t'),
        Some('0') => s.push('\0'),
        Some('u') => {
            let mut j = i + 3;
            let mut x = 0u32;
            while j < v.len() && v[j] != '}' {
                x = x.wrapping_mul(16).wrapping_add(v[j].to_digit(16).unwrap_or(0));
                j += 1;
            }
            if let Some(c) = char::from_u32(x) {
                s.push(c);
            }
            return j + 1;
        }
        Some(c) => s.push(*c),
        None => {}
    }
    i + 2
}
