//! Operations that aren't those of an encoder, rendered; here and in the harness (for C32).
use rphonetic::*;

/// None: not one of these kinds.
pub fn extra(k: &str, n: &[i64], s: &[String; 4]) -> Option<Vec<String>> {
    let n0 = n.first().copied().unwrap_or(0);
    let mut v = vec![];
    match k {
        // rules that may be wrong
        "dmrules" => match DaitchMokotoffSoundexBuilder::with_rules(&s[2]).ascii_folding(n0 != 0).build() {
            Ok(e) => v.push(format!("{:?} {}", e.inner_soundex(&s[0], true), e.encode(&s[1]))),
            Err(e) => v.push(format!("{e:?} {e}")),
        },
        // a directory that may be wrong
        "load" => match ConfigFiles::new(&s[2].as_str().into()) {
            Ok(c) => {
                let b = BeiderMorseBuilder::new(&c).build();
                v.push(format!("{} {}", b.encode(&s[0]), b.encode(&s[1])));
            }
            Err(e) => v.push(format!("{e:?} {e}")),
        },
        "mapping" => {
            v.push(format!("{:?}", Soundex::try_from(s[2].as_str()).map(|e| (e.encode(&s[0]), e.difference(&s[0], &s[1])))));
            v.push(format!("{:?}", s[2].parse::<RefinedSoundex>().map(|e| (e.encode(&s[0]), e.difference(&s[0], &s[1])))));
        }
        "langs" => {
            let l = [crate::enc::langs(&s[2]), crate::enc::langs(&s[3]), LanguageSet::Any, LanguageSet::NoLanguages];
            for a in &l {
                for b in &l {
                    v.push(format!("{} {} {} {} {:?} {}", a.restrict_to(b), a.merge(b), a == b, a.is_empty(), a.any(), b.is_singleton()));
                }
            }
        }
        "chars" => {
            let c = CharSequence::from(s[0].as_str());
            v.push(format!("{} {} {c}", c.len(), c.is_empty()));
            let top = usize::MAX;
            v.push(format!("{} {} {} {} {}", &c[..top], &c[..top - 1], &c[..=top - 1], &c[top..], &c[top - 1..top]));
            for i in 0..=c.len().min(12) {
                v.push(format!("{} {} {} {} {}", &c[i..top], &c[i..top - 1], &c[i..=top - 1], &c[i..top / 2 + 1], &c[top..i]));
                for j in i..c.len() + 2 {
                    v.push(format!("{} {} {} {}", &c[i..j], &c[..j], &c[i..], &c[i..=j]));
                }
            }
        }
        // the codes of every text of a head, a middle and an end
        "bulk" => {
            let Ok(e) = crate::enc::build(&s[2], n, "") else { return None };
            let mut t = String::new();
            for a in s[0].chars() {
                let mut o = String::new();
                for b in s[1].chars() {
                    for z in s[3].split('\u{2}') {
                        t.clear();
                        t.push(a);
                        t.push(b);
                        t.push_str(z);
                        o += &match &e {
                            crate::enc::E::DMeta(d) => d.double_metaphone(&t).to_string(),
                            e => e.encode(&t),
                        };
                        o.push('\u{3}');
                    }
                }
                v.push(o);
            }
        }
        "names" => v.push(format!("{:?} {:?}", s[0].parse::<NameType>(), s[1].parse::<NameType>().map(|n| n.to_string()))),
        _ => return None,
    }
    Some(v)
}
