//! Reference models of the single-code algorithms, written over character arrays.
use crate::ev;

fn is(c: Option<char>, set: &str) -> bool {
    c.is_some_and(|c| set.contains(c))
}

/// Letters only, upper-cased.
pub fn letters_upper(s: &str) -> Vec<char> {
    let mut v = vec![];
    for c in s.chars() {
        if c.is_alphabetic() {
            v.extend(c.to_uppercase());
        }
    }
    v
}

pub fn soundex(map: &[char; 26], special_hw: bool, s: &str) -> String {
    let v = letters_upper(s);
    if v.is_empty() {
        ev!("soundex: no letter");
        return String::new();
    }
    let code = |c: char| if c.is_ascii_uppercase() { map[(c as u8 - b'A') as usize] } else { '-' };
    let mut out = vec![v[0]];
    let mut last = code(v[0]);
    for &c in &v[1..] {
        let k = code(c);
        if special_hw && (c == 'H' || c == 'W') {
            ev!("soundex: H or W passed over");
        } else if k == '-' {
            ev!("soundex: silent letter");
        } else {
            if k == '0' {
                ev!("soundex: separator");
            } else if k == last {
                ev!("soundex: equal code");
            } else {
                out.push(k);
            }
            last = k;
        }
    }
    if out.len() > 4 {
        ev!("soundex: cut");
    } else if out.len() < 4 {
        ev!("soundex: padded");
    }
    out.resize(out.len().max(4), '0');
    out[..4].iter().collect()
}

pub fn refined(map: &[char; 26], s: &str) -> String {
    let v = letters_upper(s);
    let Some(first) = v.first() else { return String::new() };
    let mut out = String::from(*first);
    let codes: Vec<Option<char>> =
        v.iter().map(|c| if c.is_ascii_uppercase() { Some(map[(*c as u8 - b'A') as usize]) } else { None }).collect();
    for i in 0..codes.len() {
        match codes[i] {
            None => ev!("refined: letter without code"),
            Some(k) => {
                if i > 0 && codes[i - 1] == Some(k) {
                    ev!("refined: equal code");
                } else {
                    out.push(k);
                }
            }
        }
    }
    out
}

/// Replaces every occurrence, left to right, without overlap.
fn sub(v: &mut Vec<char>, from: &str, to: &str) -> bool {
    let f: Vec<char> = from.chars().collect();
    let mut out = Vec::with_capacity(v.len());
    let mut i = 0;
    let mut hit = false;
    while i < v.len() {
        if v[i..].starts_with(&f) {
            out.extend(to.chars());
            i += f.len();
            hit = true;
        } else {
            out.push(v[i]);
            i += 1;
        }
    }
    *v = out;
    hit
}
fn sub_start(v: &mut Vec<char>, from: &str, to: &str) -> bool {
    let f: Vec<char> = from.chars().collect();
    if v.starts_with(&f) {
        v.splice(..f.len(), to.chars());
        return true;
    }
    false
}
fn sub_end(v: &mut Vec<char>, from: &str, to: &str) -> bool {
    let f: Vec<char> = from.chars().collect();
    if v.ends_with(&f) {
        let n = v.len() - f.len();
        v.splice(n.., to.chars());
        return true;
    }
    false
}

/// A line of a Caverphone rule table: '^a>b' at the start, 'a$>b' at the end, 'a>b' everywhere, '#x' a special step.
fn caverphone(table: &'static [&'static str], len: usize, ns: &'static str, s: &str) -> String {
    let mut v: Vec<char> = s.to_lowercase().chars().filter(|c| ('a'..='z').contains(c)).collect();
    for (n, r) in table.iter().enumerate() {
        let hit = match *r {
            "#vowels" => {
                let mut hit = false;
                for (i, c) in v.iter_mut().enumerate() {
                    if "aeiou".contains(*c) {
                        *c = if i == 0 { 'A' } else { '3' };
                        hit = true;
                    }
                }
                hit
            }
            "#runs" => {
                let mut out: Vec<char> = vec![];
                let mut prev = None;
                for &c in &v {
                    if "stpkfmn".contains(c) {
                        if prev != Some(c) {
                            out.push(c.to_ascii_uppercase());
                        }
                    } else {
                        out.push(c);
                    }
                    prev = Some(c);
                }
                let hit = out.len() != v.len();
                v = out;
                hit
            }
            r => {
                let (from, to) = r.split_once('>').unwrap();
                if let Some(f) = from.strip_prefix('^') {
                    sub_start(&mut v, f, to)
                } else if let Some(f) = from.strip_suffix('$') {
                    sub_end(&mut v, f, to)
                } else {
                    sub(&mut v, from, to)
                }
            }
        };
        if hit {
            crate::core::feature(ns, n as u64);
        }
    }
    v.resize(v.len().max(len), '1');
    v[..len].iter().collect()
}

pub const CAVERPHONE1: &[&str] = &[
    "^cough>cou2f", "^rough>rou2f", "^tough>tou2f", "^enough>enou2f", "^gn>2n", "mb$>m2", "cq>2q", "ci>si", "ce>se",
    "cy>sy", "tch>2ch", "c>k", "q>k", "x>k", "v>f", "dg>2g", "tio>sio", "tia>sia", "d>t", "ph>fh", "b>p", "sh>s2", "z>s",
    "#vowels", "3gh3>3kh3", "gh>22", "g>k", "#runs", "w3>W3", "wy>Wy", "wh3>Wh3", "why>Why", "w>2", "^h>A", "h>2", "r3>R3",
    "ry>Ry", "r>2", "l3>L3", "ly>Ly", "l>2", "j>y", "y3>Y3", "y>2", "2>", "3>",
];
pub const CAVERPHONE2: &[&str] = &[
    "e$>", "^cough>cou2f", "^rough>rou2f", "^tough>tou2f", "^enough>enou2f", "^trough>trou2f", "^gn>2n", "mb$>m2", "cq>2q",
    "ci>si", "ce>se", "cy>sy", "tch>2ch", "c>k", "q>k", "x>k", "v>f", "dg>2g", "tio>sio", "tia>sia", "d>t", "ph>fh", "b>p",
    "sh>s2", "z>s", "#vowels", "j>y", "^y3>Y3", "^y>A", "y>3", "3gh3>3kh3", "gh>22", "g>k", "#runs", "w3>W3", "wh3>Wh3",
    "w$>3", "w>2", "^h>A", "h>2", "r3>R3", "r$>3", "r>2", "l3>L3", "l$>3", "l>2", "2>", "3$>A", "3>",
];
pub fn caverphone1(s: &str) -> String {
    caverphone(CAVERPHONE1, 6, "caverphone1 rules that fired", s)
}
pub fn caverphone2(s: &str) -> String {
    caverphone(CAVERPHONE2, 10, "caverphone2 rules that fired", s)
}

/// Koelner Phonetik: letter table with neighbours, then collapsing.
pub fn cologne(s: &str) -> String {
    let v: Vec<char> = s
        .to_uppercase()
        .chars()
        .map(|c| match c {
            'Ä' => 'A',
            'Ö' => 'O',
            'Ü' => 'U',
            c => c,
        })
        .collect();
    // (code, '-' is silent) with the previous letter and the very next character.
    let mut out = String::new();
    let mut last_code = '/';
    let mut prev: Option<char> = None;
    for (i, &c) in v.iter().enumerate() {
        if !c.is_ascii_uppercase() {
            ev!("cologne: ignored character");
            continue;
        }
        let next = v.get(i + 1).copied();
        let codes: &str = match c {
            'A' | 'E' | 'I' | 'J' | 'O' | 'U' | 'Y' => "0",
            'H' => "-",
            'B' => "1",
            'P' if next == Some('H') => {
                ev!("cologne: PH");
                "3"
            }
            'P' => "1",
            'D' | 'T' if is(next, "CSZ") => {
                ev!("cologne: D/T before CSZ");
                "8"
            }
            'D' | 'T' => "2",
            'F' | 'V' | 'W' => "3",
            'G' | 'K' | 'Q' => "4",
            'X' if is(prev, "CKQ") => {
                ev!("cologne: X after CKQ");
                "8"
            }
            'X' => "48",
            'S' | 'Z' => "8",
            'L' => "5",
            'M' | 'N' => "6",
            'R' => "7",
            'C' if out.is_empty() => {
                if is(next, "AHKLOQRUX") {
                    ev!("cologne: initial C 4");
                    "4"
                } else {
                    ev!("cologne: initial C 8");
                    "8"
                }
            }
            'C' => {
                if is(prev, "SZ") {
                    ev!("cologne: C after SZ");
                    "8"
                } else if is(next, "AHKOQUX") {
                    ev!("cologne: inner C 4");
                    "4"
                } else {
                    ev!("cologne: inner C 8");
                    "8"
                }
            }
            _ => unreachable!(),
        };
        for k in codes.chars() {
            if k == last_code && k != '-' {
                ev!("cologne: equal code");
            }
            if k != '-' && k != last_code && (k != '0' || out.is_empty()) {
                out.push(k);
            }
            last_code = k;
        }
        prev = Some(c);
    }
    out
}

pub fn metaphone(max: Option<usize>, s: &str) -> String {
    let up: Vec<char> = s.to_uppercase().chars().collect();
    if up.len() == 1 {
        ev!("metaphone: single character");
        return up.iter().collect();
    }
    let mut w: Vec<char> = up.clone();
    match (up.first(), up.get(1)) {
        (Some('K' | 'G' | 'P'), Some('N')) => {
            ev!("metaphone: KN GN PN");
            w.remove(0);
        }
        (Some('A'), Some('E')) => {
            ev!("metaphone: AE");
            w.remove(0);
        }
        (Some('W'), Some('R')) => {
            ev!("metaphone: WR");
            w.remove(0);
        }
        (Some('W'), Some('H')) => {
            ev!("metaphone: WH");
            w.remove(1);
        }
        (Some('X'), _) => {
            ev!("metaphone: initial X");
            w[0] = 'S';
        }
        _ => {}
    }
    let n = w.len();
    let at = |i: usize| w.get(i).copied();
    let pat = |i: usize, p: &str| p.chars().enumerate().all(|(k, c)| at(i + k) == Some(c));
    let vowel = |i: usize| is(at(i), "AEIOUaeiou");
    let front = |i: usize| is(at(i), "EIY");
    let mut out = String::new();
    let mut i = 0;
    while i < n {
        let c = w[i];
        let prev = if i > 0 { at(i - 1) } else { None };
        let last = i + 1 == n;
        let mut used = 1;
        if c != 'C' && prev == Some(c) {
            ev!("metaphone: doubled letter");
            i += 1;
            continue;
        }
        match c {
            'A' | 'E' | 'I' | 'O' | 'U' => {
                if i == 0 {
                    out.push(c);
                }
            }
            'B' => {
                if prev == Some('M') && last {
                    ev!("metaphone: final MB");
                } else {
                    out.push('B');
                }
            }
            'C' => {
                if prev == Some('S') && front(i + 1) {
                    ev!("metaphone: SC before EIY");
                } else if pat(i, "CIA") {
                    ev!("metaphone: CIA");
                    out.push('X');
                } else if front(i + 1) {
                    ev!("metaphone: C before EIY");
                    out.push('S');
                } else if at(i + 1) == Some('H') {
                    if prev == Some('S') {
                        ev!("metaphone: SCH");
                        out.push('K');
                    } else if i == 0 && n > 3 && vowel(2) {
                        ev!("metaphone: initial CH and vowel");
                        out.push('K');
                    } else {
                        ev!("metaphone: CH");
                        out.push('X');
                    }
                } else {
                    out.push('K');
                }
            }
            'D' => {
                if at(i + 1) == Some('G') && front(i + 2) {
                    ev!("metaphone: DGE DGI DGY");
                    out.push('J');
                    used = 3;
                } else {
                    out.push('T');
                }
            }
            'G' => {
                if at(i + 1) == Some('H') && i + 2 == n {
                    ev!("metaphone: final GH");
                } else if at(i + 1) == Some('H') && !vowel(i + 2) {
                    ev!("metaphone: GH before consonant");
                } else if i > 0 && at(i + 1) == Some('N') {
                    ev!("metaphone: GN");
                } else if front(i + 1) {
                    ev!("metaphone: G before EIY");
                    out.push('J');
                } else {
                    out.push('K');
                }
            }
            'H' => {
                if is(prev, "CSPTG") {
                    ev!("metaphone: H after CSPTG");
                } else if vowel(i + 1) {
                    out.push('H');
                } else {
                    ev!("metaphone: silent H");
                }
            }
            'F' | 'J' | 'L' | 'M' | 'N' | 'R' => out.push(c),
            'K' => {
                if prev == Some('C') {
                    ev!("metaphone: CK");
                } else {
                    out.push('K');
                }
            }
            'P' => {
                if at(i + 1) == Some('H') {
                    ev!("metaphone: PH");
                    out.push('F');
                } else {
                    out.push('P');
                }
            }
            'Q' => out.push('K'),
            'S' => {
                if pat(i, "SH") || pat(i, "SIO") || pat(i, "SIA") {
                    ev!("metaphone: SH SIO SIA");
                    out.push('X');
                } else {
                    out.push('S');
                }
            }
            'T' => {
                if pat(i, "TIA") || pat(i, "TIO") {
                    ev!("metaphone: TIA TIO");
                    out.push('X');
                } else if pat(i, "TCH") {
                    ev!("metaphone: TCH");
                } else if pat(i, "TH") {
                    ev!("metaphone: TH");
                    out.push('0');
                } else {
                    out.push('T');
                }
            }
            'V' => out.push('F'),
            'W' | 'Y' => {
                if vowel(i + 1) {
                    ev!("metaphone: W or Y before vowel");
                    out.push(c);
                }
            }
            'X' => out.push_str("KS"),
            'Z' => out.push('S'),
            _ => {}
        }
        i += used;
    }
    match max {
        Some(m) => out.chars().take(m).collect(),
        None => out,
    }
}

pub fn nysiis(strict: bool, s: &str) -> String {
    let mut v = letters_upper(s);
    if v.is_empty() {
        return String::new();
    }
    // Start; the replacements follow each other.
    for (f, t) in [("MAC", "MCC"), ("KN", "NN"), ("K", "C")] {
        if sub_start(&mut v, f, t) {
            ev!("nysiis: start MAC KN K");
        }
    }
    if sub_start(&mut v, "PH", "FF") || sub_start(&mut v, "PF", "FF") {
        ev!("nysiis: start PH PF");
    }
    if sub_start(&mut v, "SCH", "SSS") {
        ev!("nysiis: start SCH");
    }
    if sub_end(&mut v, "EE", "Y") || sub_end(&mut v, "IE", "Y") {
        ev!("nysiis: end EE IE");
    }
    for f in ["DT", "RT", "RD", "NT", "ND"] {
        if sub_end(&mut v, f, "D") {
            ev!("nysiis: end DT RT RD NT ND");
            break;
        }
    }
    let vowel = |c: Option<char>| is(c, "AEIOUaeiou");
    let mut key = vec![v[0]];
    for i in 1..v.len() {
        let (p, c, n, nn) = (v[i - 1], v[i], v.get(i + 1).copied(), v.get(i + 2).copied());
        let put: Vec<char> = if c == 'E' && n == Some('V') {
            ev!("nysiis: EV");
            vec!['A', 'F']
        } else if vowel(Some(c)) {
            vec!['A']
        } else if c == 'Q' {
            vec!['G']
        } else if c == 'Z' {
            vec!['S']
        } else if c == 'M' {
            vec!['N']
        } else if c == 'K' {
            if n == Some('N') {
                ev!("nysiis: KN");
                vec!['N', 'N']
            } else {
                vec!['C']
            }
        } else if c == 'S' && n == Some('C') && nn == Some('H') {
            ev!("nysiis: SCH");
            vec!['S', 'S', 'S']
        } else if c == 'P' && n == Some('H') {
            ev!("nysiis: PH");
            vec!['F', 'F']
        } else if c == 'H' && (!vowel(Some(p)) || !vowel(n)) {
            ev!("nysiis: H not between vowels");
            vec![p]
        } else if c == 'W' && vowel(Some(p)) {
            ev!("nysiis: W after vowel");
            vec![p]
        } else {
            vec![c]
        };
        for (k, x) in put.into_iter().enumerate() {
            v[i + k] = x;
        }
        if v[i] != v[i - 1] {
            key.push(v[i]);
        } else {
            ev!("nysiis: equal letter");
        }
    }
    // A code of one letter is kept, and so is the code AY.
    if key.len() > 1 {
        if key.last() == Some(&'S') {
            ev!("nysiis: final S");
            key.pop();
        }
        if key.len() > 2 && key.ends_with(&['A', 'Y']) {
            ev!("nysiis: final AY");
            let n = key.len();
            key.remove(n - 2);
        }
        if key.last() == Some(&'A') {
            ev!("nysiis: final A");
            key.pop();
        }
    }
    if strict {
        if key.len() > 6 {
            ev!("nysiis: cut");
        }
        key.truncate(6);
    }
    key.iter().collect()
}

pub fn phonex(max: usize, s: &str) -> String {
    let mut v = letters_upper(s);
    while v.last() == Some(&'S') {
        ev!("phonex: trailing S");
        v.pop();
    }
    for (f, t) in [("KN", 'N'), ("PH", 'F'), ("WR", 'R')] {
        if v.starts_with(&f.chars().collect::<Vec<_>>()) {
            ev!("phonex: KN PH WR");
            v[0] = t;
            break;
        }
    }
    if v.first() == Some(&'H') {
        ev!("phonex: leading H");
        v.remove(0);
    }
    if let Some(c) = v.first_mut() {
        *c = match *c {
            'E' | 'I' | 'O' | 'U' | 'Y' => 'A',
            'P' => 'B',
            'V' => 'F',
            'K' | 'Q' => 'C',
            'J' => 'G',
            'Z' => 'S',
            c => c,
        };
    }
    let mut out: Vec<char> = vec![];
    let vowel = |c: Option<char>| is(c, "AEIOUYaeiouy");
    let mut code = '0'; // kept from the previous letter when a letter has none of its own
    let mut last = '0'; // what a code must differ from to be pushed
    let mut pushed = '0';
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        let next = v.get(i + 1).copied();
        let first = i == 0;
        if first {
            out.push(c);
            pushed = c;
        }
        let mut ignored = false;
        match c {
            'B' | 'P' | 'F' | 'V' => code = '1',
            'C' | 'S' | 'K' | 'G' | 'J' | 'Q' | 'X' | 'Z' => code = '2',
            'D' | 'T' => {
                if next == Some('C') {
                    ev!("phonex: D or T before C");
                } else {
                    code = '3'
                }
            }
            'L' | 'R' => {
                if vowel(next) || next.is_none() {
                    code = if c == 'L' { '4' } else { '6' }
                } else {
                    ev!("phonex: L or R before consonant");
                }
            }
            'M' | 'N' => {
                code = '5';
                ignored = is(next, "DG");
                if ignored {
                    ev!("phonex: D or G after M or N");
                }
            }
            _ => code = '0',
        }
        // The first letter gives no code, unless it takes the D or G after it along.
        if (!first || ignored) && code != '0' && code != last {
            out.push(code);
            pushed = code;
        } else if !first && code != '0' {
            ev!("phonex: repeated code");
        }
        last = if first && !ignored { code } else { pushed };
        i += if ignored { 2 } else { 1 };
    }
    if out.len() > max {
        ev!("phonex: cut");
    }
    out.truncate(max);
    while out.len() < max {
        out.push('0');
    }
    out.iter().collect()
}

const ACCENTS: &[(char, &str)] = &[
    ('A', "ÀÁÂÃÄÅ"), ('a', "àáâãäå"), ('E', "ÈÉÊË"), ('e', "èéêë"), ('I', "ÌÍÎÏ"), ('i', "ìíîï"), ('O', "ÒÓÔÕÖŐ"),
    ('o', "òóôõöő"), ('U', "ÙÚÛÜŰ"), ('u', "ùúûüű"), ('Y', "ÝŶŸ"), ('y', "ýŷÿ"), ('N', "Ñ"), ('n', "ñ"), ('C', "Ç"), ('c', "ç"),
];

pub fn mra_code(s: &str) -> String {
    if s.trim().chars().count() <= 1 {
        ev!("mra: too short");
        return String::new();
    }
    let mut v: Vec<char> = vec![];
    for c in s.to_uppercase().chars() {
        if "-&'.,".contains(c) || c.is_whitespace() {
            continue;
        }
        let plain = ACCENTS.iter().find(|(_, l)| l.contains(c));
        if plain.is_some() {
            ev!("mra: accent");
        }
        v.push(plain.map_or(c, |p| p.0));
    }
    let vowels: Vec<char> = "AEIOUaeiou".chars().collect();
    let mut k = 0;
    v.retain(|c| {
        k += 1;
        k == 1 || !vowels.contains(c)
    });
    let text: String = v.iter().collect();
    v = text.to_uppercase().chars().collect();
    for d in "BCDFGHJKLMNPQRSTVWXYZ".chars() {
        let dd: String = [d, d].iter().collect();
        if sub(&mut v, &dd, &d.to_string()) {
            ev!("mra: double consonant");
        }
    }
    if v.len() > 6 {
        ev!("mra: first three and last three");
        let n = v.len();
        v.drain(3..n - 3);
    }
    v.iter().collect()
}

pub fn mra_equal(a: &str, b: &str) -> bool {
    if a.trim().is_empty() || b.trim().is_empty() {
        ev!("mra: blank");
        return false;
    }
    if a.trim().chars().count() == 1 || b.trim().chars().count() == 1 {
        return false;
    }
    if a == b {
        ev!("mra: identical");
        return true;
    }
    let x: Vec<char> = mra_code(a).chars().collect();
    let y: Vec<char> = mra_code(b).chars().collect();
    if x.is_empty() || y.is_empty() {
        ev!("mra: empty code");
        return false;
    }
    let (lx, ly) = (x.len(), y.len());
    if lx.max(ly) - lx.min(ly) >= 3 {
        ev!("mra: lengths too different");
        return false;
    }
    let need = match lx + ly {
        0..=4 => 5,
        5..=7 => 4,
        8..=11 => 3,
        12 => 2,
        _ => 1,
    };
    crate::core::feature("minimum ratings used", need);
    // Pass over both codes from both ends; a matched character is struck out and matches nothing but another struck one.
    let mut x: Vec<Option<char>> = x.into_iter().map(Some).collect();
    let mut y: Vec<Option<char>> = y.into_iter().map(Some).collect();
    for i in 0..lx.min(ly) {
        if x[i] == y[i] {
            x[i] = None;
            y[i] = None;
        }
        let (p, q) = (lx - 1 - i, ly - 1 - i);
        if x[p] == y[q] {
            x[p] = None;
            y[q] = None;
        }
    }
    let rx = x.iter().flatten().count();
    let ry = y.iter().flatten().count();
    let left = rx.max(ry) as i64;
    (6 - left).unsigned_abs() >= need
}
