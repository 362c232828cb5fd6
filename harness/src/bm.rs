//! Reference model of Beider-Morse: rule directories, language detection, encoding.
use crate::dm::{blank_tail, comment, four_parts, lines};
use crate::ev;
use regex::Regex;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type Dir = BTreeMap<String, String>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ls {
    Any,
    No,
    Set(BTreeSet<String>),
}
impl Ls {
    pub fn of(l: &[&str]) -> Ls {
        Ls::Set(l.iter().map(|s| s.to_string()).collect())
    }
    fn both(&self, o: &Ls) -> Ls {
        match (self, o) {
            (Ls::No, _) | (_, Ls::No) => Ls::No,
            (Ls::Any, x) | (x, Ls::Any) => x.clone(),
            (Ls::Set(a), Ls::Set(b)) => Ls::Set(a & b),
        }
    }
    fn either(&self, o: &Ls) -> Ls {
        match (self, o) {
            (Ls::Any, _) | (_, Ls::Any) => Ls::Any,
            (Ls::No, x) | (x, Ls::No) => x.clone(),
            (Ls::Set(a), Ls::Set(b)) => Ls::Set(a | b),
        }
    }
    fn none(&self) -> bool {
        match self {
            Ls::Any => false,
            Ls::No => true,
            Ls::Set(s) => s.is_empty(),
        }
    }
}

#[derive(Debug, Clone)]
enum Ctx {
    All,
    /// (text, whole)
    Lit(Vec<char>, bool),
    /// (characters, member, whole)
    Class(Vec<char>, bool, bool),
    Re(Regex),
}

/// A context written in a rule: literal text without brackets, one bracketed class, or a regular expression.
fn context(t: &str, left: bool) -> Result<Ctx, ()> {
    let v: Vec<char> = t.chars().collect();
    let anchored = if left { v.first() == Some(&'^') } else { v.last() == Some(&'$') };
    let core: &[char] = match (anchored, left) {
        (true, true) => &v[1..],
        (true, false) => &v[..v.len() - 1],
        _ => &v,
    };
    if !v.contains(&'[') {
        return Ok(if v.is_empty() { Ctx::All } else { Ctx::Lit(core.to_vec(), anchored) });
    }
    if core.len() >= 2 && core[0] == '[' && core[core.len() - 1] == ']' {
        let inner = &core[1..core.len() - 1];
        if !inner.contains(&'[') {
            return Ok(match inner.first() {
                Some('^') => Ctx::Class(inner[1..].to_vec(), false, anchored),
                _ => Ctx::Class(inner.to_vec(), true, anchored),
            });
        }
    }
    Regex::new(&if left { format!("{t}$") } else { format!("^{t}") }).map(Ctx::Re).map_err(|_| ())
}

impl Ctx {
    fn ok(&self, side: &[char], text: &str, left: bool) -> bool {
        match self {
            Ctx::All => true,
            Ctx::Lit(l, true) => side == &l[..],
            Ctx::Lit(l, false) => {
                if left {
                    side.ends_with(l)
                } else {
                    side.starts_with(l)
                }
            }
            Ctx::Class(l, member, whole) => {
                let c = if left { side.last() } else { side.first() };
                c.is_some_and(|c| l.contains(c) == *member) && (!whole || side.len() == 1)
            }
            Ctx::Re(r) => r.is_match(text),
        }
    }
}

#[derive(Debug)]
pub struct Rule {
    pat: Vec<char>,
    left: Ctx,
    right: Ctx,
    phon: Vec<(String, Ls)>,
    id: u64,
}
pub type Set = BTreeMap<char, Vec<Rc<Rule>>>;

#[derive(Debug, Clone, PartialEq)]
pub enum Fault {
    /// (file, line, content): file is None for the languages list
    Line(Option<String>, usize, String),
    Other(String),
}

fn phoneme(p: &str) -> Result<(String, Ls), Fault> {
    match p.find('[') {
        None => Ok((p.to_string(), Ls::Any)),
        Some(i) => {
            if !p.ends_with(']') {
                return Err(Fault::Other(format!("phoneme {p}")));
            }
            Ok((p[..i].to_string(), Ls::Set(p[i + 1..p.len() - 1].split('+').map(|s| s.to_string()).collect())))
        }
    }
}
fn phonemes(e: &str) -> Result<Vec<(String, Ls)>, Fault> {
    let Some(r) = e.strip_prefix('(') else { return Ok(vec![phoneme(e)?]) };
    let Some(r) = r.strip_suffix(')') else { return Err(Fault::Other(format!("phonemes {e}"))) };
    let mut v = vec![];
    for p in r.split('|') {
        v.push(phoneme(p)?);
    }
    if r.starts_with('|') || r.ends_with('|') {
        v.push((String::new(), Ls::Any));
    }
    Ok(v)
}

pub fn parse_rules(dir: &Dir, name: &str, parents: &mut Vec<String>) -> Result<Set, Fault> {
    if parents.iter().any(|p| p == name) {
        ev!("bm: include cycle");
        return Err(Fault::Other(format!("cycle {name}")));
    }
    let Some(text) = dir.get(&format!("{name}.txt")) else {
        ev!("bm: missing rule file");
        return Err(Fault::Other(format!("missing {name}")));
    };
    parents.push(name.to_string());
    let l = lines(text);
    let nl = text.ends_with('\n');
    let mut out = Set::new();
    let mut n = 0;
    while n < l.len() {
        let here = || Fault::Line(Some(name.to_string()), n + 1, l[n].iter().collect());
        let last = n + 1 == l.len() && !nl;
        let s: String = l[n].iter().collect();
        if let Some([p, lc, rc, ph]) = four_parts(&l[n], last) {
            let pat: Vec<char> = p.chars().collect();
            if pat.is_empty() {
                ev!("bm: empty pattern");
                return Err(here());
            }
            let ctx = |t: &str, left| {
                context(t, left).map_err(|_| {
                    ev!("bm: wrong context");
                    Fault::Other(format!("regex {t}"))
                })
            };
            let rule = Rule {
                left: ctx(&lc, true)?,
                right: ctx(&rc, false)?,
                phon: phonemes(&ph).inspect_err(|_| ev!("bm: wrong phoneme"))?,
                id: crate::core::fnv(format!("{name}:{n}").as_bytes()),
                pat,
            };
            out.entry(rule.pat[0]).or_default().push(Rc::new(rule));
            n += 1;
        } else if blank_tail(&l[n], last) {
            n += 1;
        } else if let Some(inc) = include(&s, last) {
            let r = parse_rules(dir, &inc, parents).map_err(|e| match e {
                Fault::Other(_) => here(),
                e => e,
            })?;
            ev!("bm: include");
            out.extend(r);
            n += 1;
        } else if let Some(k) = comment(&l, n, nl) {
            n += k;
        } else {
            ev!("bm: wrong rule line");
            return Err(here());
        }
    }
    parents.pop();
    Ok(out)
}

fn include(s: &str, last: bool) -> Option<String> {
    let r = s.strip_prefix("#include ")?;
    let n = r.find(|c: char| !(c.is_alphanumeric() || c == '-' || c == '_')).unwrap_or(r.len());
    if n == 0 || !blank_tail(&r[n..].chars().collect::<Vec<_>>(), last) {
        return None;
    }
    Some(r[..n].to_string())
}

pub struct LangRule {
    re: Regex,
    langs: BTreeSet<String>,
    accept: bool,
}
pub fn parse_langs(name: &str, text: &str) -> Result<Vec<LangRule>, Fault> {
    let l = lines(text);
    let nl = text.ends_with('\n');
    let mut out = vec![];
    let mut n = 0;
    while n < l.len() {
        let here = || Fault::Line(Some(name.to_string()), n + 1, l[n].iter().collect());
        let last = n + 1 == l.len() && !nl;
        if blank_tail(&l[n], last) {
            n += 1;
            continue;
        }
        if let Some(k) = comment(&l, n, nl) {
            n += k;
            continue;
        }
        let s: String = l[n].iter().collect();
        let parsed = (|| {
            let (re, r) = s.split_once(' ')?;
            let (langs, r) = r.split_once(' ')?;
            if re.is_empty() || langs.is_empty() {
                return None;
            }
            let (accept, r) = if let Some(r) = r.strip_prefix("true") { (true, r) } else { (false, r.strip_prefix("false")?) };
            if !blank_tail(&r.chars().collect::<Vec<_>>(), last) {
                return None;
            }
            Some((re.to_string(), langs.split('+').map(|x| x.to_string()).collect::<BTreeSet<_>>(), accept))
        })();
        let Some((re, langs, accept)) = parsed else {
            ev!("bm: wrong language line");
            return Err(here());
        };
        let Ok(re) = Regex::new(&re) else {
            ev!("bm: wrong language expression");
            return Err(here());
        };
        out.push(LangRule { re, langs, accept });
        n += 1;
    }
    Ok(out)
}
pub fn parse_list(text: &str) -> Result<BTreeSet<String>, Fault> {
    let l = lines(text);
    let nl = text.ends_with('\n');
    let mut out = BTreeSet::new();
    let mut n = 0;
    while n < l.len() {
        let last = n + 1 == l.len() && !nl;
        if blank_tail(&l[n], last) {
            n += 1;
        } else if let Some(k) = comment(&l, n, nl) {
            n += k;
        } else {
            let s: String = l[n].iter().collect();
            let k = s.find(|c: char| !c.is_ascii_alphabetic()).unwrap_or(s.len());
            if k == 0 || !blank_tail(&s[k..].chars().collect::<Vec<_>>(), last) {
                ev!("bm: wrong list line");
                return Err(Fault::Line(None, n + 1, s));
            }
            out.insert(s[..k].to_string());
            n += 1;
        }
    }
    Ok(out)
}

pub const TYPES: [&str; 3] = ["ash", "gen", "sep"];
pub const RULES: usize = 2; // index of "rules" in KINDS
const KINDS: [&str; 3] = ["approx", "exact", "rules"];

pub struct Config {
    pub langs: [BTreeSet<String>; 3],
    detect: [Vec<LangRule>; 3],
    rules: HashMap<(usize, usize, String), Set>,
    no_detection: bool,
}

pub fn load(dir: &Dir) -> Result<Config, Fault> {
    let mut langs: [BTreeSet<String>; 3] = Default::default();
    let mut detect: [Vec<LangRule>; 3] = Default::default();
    let mut rules = HashMap::new();
    for (t, name) in TYPES.iter().enumerate() {
        let Some(text) = dir.get(&format!("{name}_languages.txt")) else {
            ev!("bm: missing languages");
            return Err(Fault::Other("languages".into()));
        };
        langs[t] = parse_list(text)?;
    }
    for (t, name) in TYPES.iter().enumerate() {
        let f = format!("{name}_lang.txt");
        let Some(text) = dir.get(&f) else {
            ev!("bm: missing lang file");
            return Err(Fault::Other(f));
        };
        detect[t] = parse_langs(&f, text)?;
    }
    for (t, name) in TYPES.iter().enumerate() {
        if !langs[t].contains("any") {
            ev!("bm: any not listed");
            return Err(Fault::Other("any".into()));
        }
        for (k, kind) in KINDS.iter().enumerate() {
            let mut need: Vec<String> = langs[t].iter().cloned().collect();
            if k != RULES {
                need.push("common".into());
            }
            for l in need {
                let s = parse_rules(dir, &format!("{name}_{kind}_{l}"), &mut vec![])?;
                rules.insert((t, k, l), s);
            }
        }
    }
    Ok(Config { langs, detect, rules, no_detection: false })
}

/// The rules for `any` only, and no language detection: what the embedded configuration is documented to be.
pub fn embedded(dir: &Dir) -> Result<Config, Fault> {
    let mut d = dir.clone();
    for t in TYPES {
        d.insert(format!("{t}_languages.txt"), "any\n".into());
        d.insert(format!("{t}_lang.txt"), "".into());
    }
    let mut c = load(&d)?;
    c.no_detection = true;
    Ok(c)
}

#[derive(Clone, Copy, Debug)]
pub struct Opt {
    pub name: usize,
    pub kind: usize,
    pub concat: bool,
    pub max: usize,
}

const GEN: [&str; 14] =
    ["da", "dal", "de", "de la", "del", "dela", "della", "des", "di", "do", "dos", "du", "van", "von"];
const ASH: [&str; 6] = ["bar", "ben", "da", "de", "van", "von"];
const SEP: [&str; 16] = [
    "al", "el", "da", "dal", "de", "del", "dela", "de la", "della", "des", "di", "do", "dos", "du", "van", "von",
];

type Alts = BTreeMap<String, Ls>;

impl Config {
    pub fn guess(&self, name: usize, s: &str) -> Ls {
        if self.no_detection {
            return Ls::Any;
        }
        let low = s.to_lowercase();
        let mut l = self.langs[name].clone();
        for (i, r) in self.detect[name].iter().enumerate() {
            if r.re.is_match(&low) {
                crate::core::feature("bm detection rules that fired", (name * 1000 + i) as u64);
                l.retain(|x| r.langs.contains(x) == r.accept);
            }
        }
        if l.is_empty() {
            ev!("bm: no language left");
            Ls::Any
        } else {
            if l.len() == 1 {
                ev!("bm: one language detected");
            }
            Ls::Set(l)
        }
    }

    pub fn encode(&self, o: Opt, s: &str) -> String {
        self.encode_with(o, s, &self.guess(o.name, s))
    }

    fn split(&self, o: Opt, prefix: &str, rest: &str) -> String {
        ev!("bm: split name");
        let joined = format!("{prefix}{rest}");
        format!("({})-({})", self.encode(o, rest), self.encode(o, &joined))
    }

    pub fn encode_with(&self, o: Opt, s: &str, given: &Ls) -> String {
        let s: String = s.to_lowercase().chars().map(|c| if c == '-' { ' ' } else { c }).collect();
        if o.name == 1 {
            if let Some(r) = s.strip_prefix("d'") {
                return self.split(o, "d", r);
            }
            // At most one of them applies with its space, but for "de" and "de la": the shorter sorts first.
            for p in GEN {
                if let Some(r) = s.strip_prefix(p).and_then(|r| r.strip_prefix(' ')) {
                    return self.split(o, p, r);
                }
            }
        }
        let words: Vec<&str> = s.split_whitespace().collect();
        if !o.concat && words.len() != 1 {
            ev!("bm: words one by one");
            return words.iter().map(|w| self.encode(o, w)).collect::<Vec<_>>().join("-");
        }
        let text = if o.concat {
            let mut keep: Vec<&str> = vec![];
            for w in words {
                let w = if o.name == 2 { w.rsplit('\'').next().unwrap() } else { w };
                let dropped = match o.name {
                    0 => ASH.contains(&w),
                    2 => SEP.contains(&w),
                    _ => false,
                };
                if dropped {
                    ev!("bm: prefix dropped");
                } else {
                    keep.push(w);
                }
            }
            keep.join(" ")
        } else {
            words[0].to_string()
        };
        let mut lang = match given {
            Ls::Set(x) if x.len() == 1 => x.iter().next().unwrap().as_str(),
            _ => "any",
        };
        if !self.rules.contains_key(&(o.name, RULES, lang.to_string())) {
            ev!("bm: language without rules");
            lang = "any";
        }
        let set = |k: usize, l: &str| &self.rules[&(o.name, k, l.to_string())];
        let mut alts: Alts = [(String::new(), given.clone())].into();
        run(set(RULES, lang), &text, &mut alts, o.max, false);
        for l in ["common", lang] {
            let rules = set(o.kind, l);
            if rules.is_empty() {
                continue;
            }
            let mut out = Alts::new();
            for (t, ls) in alts {
                let mut sub: Alts = [(String::new(), ls)].into();
                run(rules, &t, &mut sub, o.max, true);
                for (t, ls) in sub {
                    match out.get_mut(&t) {
                        Some(x) => {
                            ev!("bm: equal alternatives merged");
                            *x = x.either(&ls)
                        }
                        None => {
                            out.insert(t, ls);
                        }
                    }
                }
            }
            alts = out;
        }
        alts.into_keys().collect::<Vec<_>>().join("|")
    }
}

/// Applies the first matching rule at each position; without one, the character is skipped, or copied by final rules.
fn run(rules: &Set, text: &str, alts: &mut Alts, max: usize, copy: bool) {
    let v: Vec<char> = text.chars().collect();
    let mut off: Vec<usize> = text.char_indices().map(|(i, _)| i).collect();
    off.push(text.len());
    let mut i = 0;
    while i < v.len() {
        let hit = rules.get(&v[i]).and_then(|c| {
            c.iter().find(|r| {
                let e = i + r.pat.len();
                v[i..].starts_with(&r.pat) && r.right.ok(&v[e..], &text[off[e]..], false) && r.left.ok(&v[..i], &text[..off[i]], true)
            })
        });
        match hit {
            Some(r) => {
                crate::core::feature("bm rules that fired", r.id);
                let mut next = Alts::new();
                'all: for (t, ls) in alts.iter() {
                    for (p, pl) in &r.phon {
                        let l = ls.both(pl);
                        if l.none() {
                            ev!("bm: alternative without language dropped");
                            continue;
                        }
                        if next.len() < max {
                            next.entry(format!("{t}{p}")).or_insert(l);
                        }
                        if next.len() >= max {
                            ev!("bm: max_phonemes reached");
                            break 'all;
                        }
                    }
                }
                *alts = next;
                i += r.pat.len();
            }
            None => {
                if copy {
                    *alts = std::mem::take(alts).into_iter().map(|(t, l)| (format!("{t}{}", v[i]), l)).collect();
                }
                i += 1;
            }
        }
    }
}

pub fn read_dir(p: &std::path::Path) -> Dir {
    let mut d = Dir::new();
    for f in std::fs::read_dir(p).unwrap() {
        let f = f.unwrap();
        d.insert(f.file_name().to_string_lossy().to_string(), std::fs::read_to_string(f.path()).unwrap());
    }
    d
}
