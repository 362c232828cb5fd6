//! Reference model of Daitch-Mokotoff soundex: rule text and encoding.
use crate::ev;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct R {
    pub pat: Vec<char>,
    pub rep: [Vec<String>; 3],
}
#[derive(Clone, Debug, Default)]
pub struct Rules {
    pub rules: Vec<R>,
    pub by_first: BTreeMap<char, Vec<usize>>,
    pub folds: BTreeMap<char, char>,
}

#[derive(Debug, PartialEq)]
pub struct ParseErr {
    pub line: usize,
    pub content: String,
}

pub enum Line {
    Rule([String; 4]),
    Fold(char, char),
    Blank,
    /// A comment over that many lines.
    Comment(usize),
    Other,
}

/// Spaces, perhaps a // comment, then the end of the line ("\n" was removed, "\r" may remain, `last`: end of text).
pub fn blank_tail(v: &[char], last: bool) -> bool {
    let mut i = 0;
    while i < v.len() && (v[i] == ' ' || v[i] == '\t') {
        i += 1;
    }
    let rest = &v[i..];
    if rest.starts_with(&['/', '/']) {
        return true;
    }
    rest.is_empty() || (!last && rest == ['\r'])
}

/// One quoted part at `i`: its content and the position after it.
fn quoted(v: &[char], i: usize) -> Option<(String, usize)> {
    if v.get(i) != Some(&'"') {
        return None;
    }
    if v.get(i + 1) == Some(&'\\') && v.get(i + 2) == Some(&'"') {
        // The escaped quote, which stands alone between its quotes.
        return if v.get(i + 3) == Some(&'"') { Some(("\\\"".into(), i + 4)) } else { None };
    }
    let n = v[i + 1..].iter().position(|c| *c == '"')?;
    Some((v[i + 1..i + 1 + n].iter().collect(), i + n + 2))
}

fn spaces(v: &[char], i: usize) -> Option<usize> {
    let mut k = i;
    while k < v.len() && (v[k] == ' ' || v[k] == '\t') {
        k += 1;
    }
    if k > i {
        Some(k)
    } else {
        None
    }
}

pub fn four_parts(v: &[char], last: bool) -> Option<[String; 4]> {
    let mut parts = vec![];
    let mut i = 0;
    for k in 0..4 {
        let (p, j) = quoted(v, i)?;
        parts.push(p);
        i = if k < 3 { spaces(v, j)? } else { j };
    }
    if blank_tail(&v[i..], last) {
        parts.try_into().ok()
    } else {
        None
    }
}

/// Lines of a text; each without its '\n'. A final '\n' does not open another line.
pub fn lines(text: &str) -> Vec<Vec<char>> {
    let mut l: Vec<Vec<char>> = text.split('\n').map(|s| s.chars().collect()).collect();
    if l.last().is_some_and(|x| x.is_empty()) {
        l.pop();
    }
    l
}

/// A /* */ comment starting line `n`: number of lines it takes.
pub fn comment(l: &[Vec<char>], n: usize, ends_nl: bool) -> Option<usize> {
    if !l[n].starts_with(&['/', '*']) {
        return None;
    }
    let mut from = 2;
    for k in n..l.len() {
        let v = &l[k];
        let mut i = from;
        while i + 1 < v.len() {
            if v[i] == '*' && v[i + 1] == '/' {
                let last = k + 1 == l.len() && !ends_nl;
                return if blank_tail(&v[i + 2..], last) { Some(k - n + 1) } else { None };
            }
            i += 1;
        }
        from = 0;
    }
    None
}

pub fn classify(l: &[Vec<char>], n: usize, ends_nl: bool) -> Line {
    let v = &l[n];
    let last = n + 1 == l.len() && !ends_nl;
    if let Some(p) = four_parts(v, last) {
        return Line::Rule(p);
    }
    if v.len() >= 3 && v[1] == '=' && v[0] != '\r' && v[2] != '\r' && blank_tail(&v[3..], last) {
        return Line::Fold(v[0], v[2]);
    }
    if blank_tail(v, last) {
        return Line::Blank;
    }
    match comment(l, n, ends_nl) {
        Some(k) => Line::Comment(k),
        None => Line::Other,
    }
}

pub fn parse(text: &str) -> Result<Rules, ParseErr> {
    let l = lines(text);
    let ends_nl = text.ends_with('\n');
    let mut out = Rules::default();
    let mut n = 0;
    while n < l.len() {
        let err = || ParseErr { line: n + 1, content: l[n].iter().collect() };
        match classify(&l, n, ends_nl) {
            Line::Rule([p, a, b, c]) => {
                let pat: Vec<char> = p.chars().collect();
                if pat.is_empty() {
                    ev!("dm: empty pattern");
                    return Err(err());
                }
                let f = |s: String| s.split('|').map(|x| x.to_string()).collect::<Vec<_>>();
                out.by_first.entry(pat[0]).or_default().push(out.rules.len());
                out.rules.push(R { pat, rep: [f(a), f(b), f(c)] });
                n += 1;
            }
            Line::Fold(a, b) => {
                ev!("dm: folding line");
                out.folds.insert(a, b);
                n += 1;
            }
            Line::Blank => n += 1,
            Line::Comment(k) => {
                if k > 1 {
                    ev!("dm: comment over several lines");
                } else {
                    ev!("dm: comment on one line");
                }
                n += k
            }
            Line::Other => {
                ev!("dm: wrong line");
                return Err(err());
            }
        }
    }
    for v in out.by_first.values_mut() {
        let r = &out.rules;
        v.sort_by_key(|i| std::cmp::Reverse(r[*i].pat.len()));
    }
    Ok(out)
}

pub fn prepare(r: &Rules, folding: bool, s: &str) -> Vec<char> {
    s.chars()
        .filter(|c| !c.is_whitespace())
        .map(|c| {
            let l = c.to_lowercase().next().unwrap();
            if folding {
                if let Some(f) = r.folds.get(&l) {
                    ev!("dm: folded character");
                    return *f;
                }
            }
            l
        })
        .collect()
}

/// The codes, in order of first discovery.
pub fn encode(r: &Rules, folding: bool, s: &str, branching: bool, feat: bool) -> Vec<String> {
    let src = prepare(r, folding, s);
    // A branch: the code so far (at most six characters) and the last replacement.
    let mut branches: Vec<(Vec<char>, Option<String>)> = vec![(vec![], None)];
    let mut prev: Option<char> = None;
    let mut i = 0;
    while i < src.len() {
        let c = src[i];
        let Some(cands) = r.by_first.get(&c) else {
            ev!("dm: character without rules");
            i += 1;
            continue;
        };
        let mut step = 1;
        if let Some(&k) = cands.iter().find(|k| src[i..].starts_with(&r.rules[**k].pat)) {
            let rule = &r.rules[k];
            step = rule.pat.len();
            let which = if prev.is_none() {
                0
            } else if src.get(i + step).is_some_and(|x| "aeiou".contains(*x)) {
                1
            } else {
                2
            };
            if feat {
                crate::core::feature("dm rule and position", (k * 3 + which) as u64);
            }
            let force = matches!((prev, c), (Some('m'), 'n') | (Some('n'), 'm'));
            if force {
                ev!("dm: m next to n");
            }
            let alts = &rule.rep[which];
            let alts = if branching { &alts[..] } else { &alts[..1] };
            if alts.len() > 1 {
                ev!("dm: branching");
            }
            let mut next: Vec<(Vec<char>, Option<String>)> = vec![];
            let mut seen: BTreeSet<(Vec<char>, String)> = BTreeSet::new();
            for (code, last) in &branches {
                for a in alts {
                    let mut code = code.clone();
                    let repeated = last.as_ref().is_some_and(|l| l.ends_with(a.as_str()));
                    if repeated && !force {
                        ev!("dm: replacement not repeated");
                    } else {
                        for x in a.chars() {
                            if code.len() < 6 {
                                code.push(x);
                            }
                        }
                    }
                    if seen.insert((code.clone(), a.clone())) {
                        next.push((code, Some(a.clone())));
                    } else {
                        ev!("dm: equal branches");
                    }
                }
            }
            branches = next;
        } else {
            ev!("dm: no rule matches");
        }
        // SUT-visible convention: the character before is the one that started the last step.
        prev = Some(c);
        i += step;
    }
    let mut out: Vec<String> = vec![];
    for (mut code, _) in branches {
        code.resize(6.max(code.len()), '0');
        let code: String = code.into_iter().collect();
        if !out.contains(&code) {
            out.push(code);
        }
    }
    out
}
