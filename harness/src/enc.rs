//! Encoders under test, built from cases.
use crate::core::{sut, verif_dir, Stop};
use rphonetic::*;
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::{LazyLock, Mutex};

pub enum E {
    Soundex(Soundex),
    Refined(RefinedSoundex),
    Cav1(Caverphone1),
    Cav2(Caverphone2),
    Cologne(Cologne),
    Meta(Metaphone),
    DMeta(DoubleMetaphone),
    Nysiis(Nysiis),
    Phonex(Phonex),
    Mra(MatchRatingApproach),
    Dm(DaitchMokotoffSoundex),
    Bm(BeiderMorse<'static>),
}

pub const KINDS: [&str; 12] =
    ["soundex", "refined", "cav1", "cav2", "cologne", "meta", "dmeta", "nysiis", "phonex", "mra", "dm", "bm"];
pub const NAME_TYPES: [NameType; 3] = [NameType::Ashkenazi, NameType::Generic, NameType::Sephardic];
pub const RULE_TYPES: [RuleType; 2] = [RuleType::Approx, RuleType::Exact];

pub fn assets() -> PathBuf {
    verif_dir().join("assets")
}
pub static DM_RULES: LazyLock<String> = LazyLock::new(|| std::fs::read_to_string(assets().join("dmrules.txt")).unwrap());

/// Configurations are leaked: encoders borrow them. 0: shipped directory, 1: embedded.
pub fn config(which: i64) -> Result<&'static ConfigFiles, Stop> {
    struct Kept(Option<HashMap<i64, &'static ConfigFiles>>);
    // Whether configurations may be shared is what C29 watches, not what this file depends on.
    unsafe impl Send for Kept {}
    static C: Mutex<Kept> = Mutex::new(Kept(None));
    let mut c = C.lock().unwrap();
    let m = c.0.get_or_insert_with(HashMap::new);
    if let Some(c) = m.get(&which) {
        return Ok(c);
    }
    let v = match which {
        0 => {
            let d = assets().join("cc-rules");
            match sut("ConfigFiles::new", || ConfigFiles::new(&d))? {
                Ok(c) => c,
                Err(e) => return Err(Stop::Violation(format!("ConfigFiles::new on the shipped rules: {e}"))),
            }
        }
        #[cfg(feature = "embedded_bm")]
        _ => sut("ConfigFiles::default", ConfigFiles::default)?,
        #[cfg(not(feature = "embedded_bm"))]
        _ => return Err(Stop::Error("no embedded rules in this build".into())),
    };
    let v = Box::leak(Box::new(v));
    m.insert(which, v);
    Ok(v)
}

pub fn max(n: i64) -> Option<usize> {
    match n {
        n if n < 0 => None,
        i64::MAX => Some(usize::MAX),
        n => Some(n as usize),
    }
}
pub fn mapping(s: &str) -> Option<[char; 26]> {
    s.chars().collect::<Vec<_>>().try_into().ok()
}

/// An encoder from its kind, numbers and text (mapping or rules; empty: the default one).
pub fn build(k: &str, n: &[i64], t: &str) -> Result<E, Stop> {
    let n0 = n.first().copied().unwrap_or(0);
    Ok(match k {
        "soundex" => E::Soundex(match mapping(t) {
            Some(m) => Soundex::new(m, n0 != 0),
            None => Soundex::default(),
        }),
        "refined" => E::Refined(match mapping(t) {
            Some(m) => RefinedSoundex::new(m),
            None => RefinedSoundex::default(),
        }),
        "cav1" => E::Cav1(Caverphone1),
        "cav2" => E::Cav2(Caverphone2),
        "cologne" => E::Cologne(Cologne),
        "meta" => E::Meta(Metaphone::new(max(n0))),
        "dmeta" => E::DMeta(DoubleMetaphone::new(max(n0))),
        "nysiis" => E::Nysiis(Nysiis::new(n0 != 0)),
        "phonex" => E::Phonex(Phonex::new(n0.clamp(0, 5000) as usize)),
        "mra" => E::Mra(MatchRatingApproach),
        "dm" => E::Dm(if t.is_empty() {
            let rules = DM_RULES.as_str();
            sut("DaitchMokotoffSoundexBuilder::build", || {
                DaitchMokotoffSoundexBuilder::with_rules(rules).ascii_folding(n0 != 0).build()
            })?
            .map_err(|e| Stop::Violation(format!("the shipped Daitch-Mokotoff rules don't build: {e}")))?
        } else {
            match sut("DaitchMokotoffSoundexBuilder::build", || {
                DaitchMokotoffSoundexBuilder::with_rules(t).ascii_folding(n0 != 0).build()
            })? {
                Ok(e) => e,
                Err(_) => return build(k, n, ""),
            }
        }),
        "bm" => {
            let g = |i: usize| n.get(i).copied().unwrap_or(0);
            let c = config(g(4))?;
            E::Bm(
                BeiderMorseBuilder::new(c)
                    .name_type(NAME_TYPES[g(0).rem_euclid(3) as usize])
                    .rule_type(RULE_TYPES[g(1).rem_euclid(2) as usize])
                    .concat(g(2) != 0)
                    .max_phonemes(max(g(3)).unwrap_or(20))
                    .build(),
            )
        }
        _ => return Err(Stop::Error(format!("kind {k}"))),
    })
}

impl E {
    pub fn encode(&self, s: &str) -> String {
        match self {
            E::Soundex(e) => e.encode(s),
            E::Refined(e) => e.encode(s),
            E::Cav1(e) => e.encode(s),
            E::Cav2(e) => e.encode(s),
            E::Cologne(e) => e.encode(s),
            E::Meta(e) => e.encode(s),
            E::DMeta(e) => e.encode(s),
            E::Nysiis(e) => e.encode(s),
            E::Phonex(e) => e.encode(s),
            E::Mra(e) => e.encode(s),
            E::Dm(e) => e.encode(s),
            E::Bm(e) => e.encode(s),
        }
    }
    pub fn equal(&self, a: &str, b: &str) -> bool {
        match self {
            E::Soundex(e) => e.is_encoded_equals(a, b),
            E::Refined(e) => e.is_encoded_equals(a, b),
            E::Cav1(e) => e.is_encoded_equals(a, b),
            E::Cav2(e) => e.is_encoded_equals(a, b),
            E::Cologne(e) => e.is_encoded_equals(a, b),
            E::Meta(e) => e.is_encoded_equals(a, b),
            E::DMeta(e) => e.is_encoded_equals(a, b),
            E::Nysiis(e) => e.is_encoded_equals(a, b),
            E::Phonex(e) => e.is_encoded_equals(a, b),
            E::Mra(e) => e.is_encoded_equals(a, b),
            E::Dm(e) => e.is_encoded_equals(a, b),
            E::Bm(e) => e.is_encoded_equals(a, b),
        }
    }
    /// A copy made the way users make one (Copy or Clone).
    pub fn copy(&self) -> E {
        match self {
            E::Soundex(e) => E::Soundex(e.clone()),
            E::Refined(e) => E::Refined(e.clone()),
            E::Cav1(e) => E::Cav1(e.clone()),
            E::Cav2(e) => E::Cav2(e.clone()),
            E::Cologne(e) => E::Cologne(e.clone()),
            E::Meta(e) => E::Meta(e.clone()),
            E::DMeta(e) => E::DMeta(e.clone()),
            E::Nysiis(e) => E::Nysiis(e.clone()),
            E::Phonex(e) => E::Phonex(e.clone()),
            E::Mra(e) => E::Mra(e.clone()),
            E::Dm(e) => E::Dm(e.clone()),
            E::Bm(e) => E::Bm(e.clone()),
        }
    }
    /// Every operation, by number: (name, rendered result). None when there are no more.
    pub fn op(&self, i: usize, a: &str, b: &str, langs: &LanguageSet) -> Option<(&'static str, String)> {
        Some(match i {
            0 => ("encode", self.encode(a)),
            1 => ("is_encoded_equals", self.equal(a, b).to_string()),
            _ => match (self, i) {
                (E::Soundex(e), 2) => ("difference", e.difference(a, b).to_string()),
                (E::Refined(e), 2) => ("difference", e.difference(a, b).to_string()),
                (E::DMeta(e), 2) => ("encode_alternate", e.encode_alternate(a)),
                (E::DMeta(e), 3) => {
                    let r = e.double_metaphone(a);
                    ("double_metaphone", format!("{r} {} {} {r:?}", r.primary(), r.alternate()))
                }
                (E::DMeta(e), 4) => ("is_double_metaphone_equal", e.is_double_metaphone_equal(a, b, false).to_string()),
                (E::DMeta(e), 5) => {
                    ("is_double_metaphone_equal alternate", e.is_double_metaphone_equal(a, b, true).to_string())
                }
                (E::Dm(e), 2) => ("soundex", e.soundex(a)),
                (E::Dm(e), 3) => ("inner_soundex", e.inner_soundex(a, true).join("|")),
                (E::Dm(e), 4) => ("inner_soundex without branching", e.inner_soundex(a, false).join("|")),
                (E::Bm(e), 2) => ("encode_with_languages", e.encode_with_languages(a, langs)),
                _ => return None,
            },
        })
    }
    pub fn ops(&self, a: &str, b: &str, langs: &LanguageSet) -> Result<Vec<String>, Stop> {
        let mut v = vec![];
        let mut i = 0;
        while let Some((n, r)) = sut("an operation", || self.op(i, a, b, langs))? {
            v.push(format!("{n}: {r}"));
            i += 1;
        }
        Ok(v)
    }
}

/// "*": any, "": no languages, "~": a set of no names, else names separated by '+'; a leading '!' builds the set from a BTreeSet.
pub fn langs(s: &str) -> LanguageSet {
    match s {
        "*" => LanguageSet::Any,
        "" => LanguageSet::NoLanguages,
        "~" => LanguageSet::from(Vec::<&str>::new()),
        "!~" => LanguageSet::from(std::collections::BTreeSet::<String>::new()),
        s => match s.strip_prefix('!') {
            Some(r) => LanguageSet::from(r.split('+').map(|x| x.to_string()).collect::<std::collections::BTreeSet<_>>()),
            None => LanguageSet::from(s.split('+').collect::<Vec<_>>()),
        },
    }
}
