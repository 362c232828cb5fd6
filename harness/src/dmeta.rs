//! Reference model of Double Metaphone: the codes without maximum, then cut.
use crate::ev;

struct W {
    v: Vec<char>,
    slavo: bool,
    p: String,
    a: String,
}

impl W {
    fn at(&self, i: isize) -> Option<char> {
        if i < 0 {
            None
        } else {
            self.v.get(i as usize).copied()
        }
    }
    /// One of the patterns (separated by commas, '_' is a space) is at position i.
    fn any(&self, i: isize, pats: &str) -> bool {
        i >= 0
            && pats.split(',').any(|p| {
                let mut k = i as usize;
                for c in p.chars() {
                    let c = if c == '_' { ' ' } else { c };
                    if self.v.get(k) != Some(&c) {
                        return false;
                    }
                    k += 1;
                }
                true
            })
    }
    fn vowel(&self, i: isize) -> bool {
        self.at(i).is_some_and(|c| "AEIOUYaeiouy".contains(c))
    }
    fn end(&self) -> isize {
        self.v.len() as isize - 1
    }
    fn add(&mut self, p: &str, a: &str) {
        self.p.push_str(p);
        self.a.push_str(a);
    }
    fn both(&mut self, p: &str) {
        self.add(p, p)
    }
    fn germanic(&self) -> bool {
        self.any(0, "VAN_,VON_,SCH")
    }
    fn double(&self, i: isize) -> isize {
        if self.at(i + 1) == self.at(i) {
            2
        } else {
            1
        }
    }
}

/// (primary, alternate) without maximum.
pub fn codes(s: &str) -> (String, String) {
    let t = s.trim();
    if t.is_empty() {
        return Default::default();
    }
    let up = t.to_uppercase();
    let v: Vec<char> = up.chars().collect();
    let pair = |a: char, b: char| v.windows(2).any(|w| w == [a, b]);
    let slavo = v.contains(&'W') || v.contains(&'K') || pair('C', 'Z') || v.windows(4).any(|w| w == ['W', 'I', 'T', 'Z']);
    let mut w = W { v, slavo, p: String::new(), a: String::new() };
    let mut i: isize = 0;
    if w.any(0, "GN,KN,PN,WR,PS") {
        ev!("dmeta: silent start");
        i = 1;
    }
    if slavo {
        ev!("dmeta: slavo-germanic");
    }
    while i <= w.end() {
        let c = w.at(i).unwrap();
        i += match c {
            'A' | 'E' | 'I' | 'O' | 'U' | 'Y' => {
                if i == 0 {
                    w.both("A");
                }
                1
            }
            'B' => {
                w.both("P");
                w.double(i)
            }
            'Ç' => {
                ev!("dmeta: C cedilla");
                w.both("S");
                1
            }
            'Ñ' => {
                ev!("dmeta: N tilde");
                w.both("N");
                1
            }
            'F' | 'K' | 'N' => {
                w.both(&c.to_string());
                w.double(i)
            }
            'Q' => {
                w.both("K");
                w.double(i)
            }
            'V' => {
                w.both("F");
                w.double(i)
            }
            'C' => letter_c(&mut w, i),
            'D' => {
                if w.any(i, "DG") {
                    if w.any(i + 2, "I,E,Y") {
                        ev!("dmeta: DGE");
                        w.both("J");
                        3
                    } else {
                        ev!("dmeta: DG");
                        w.both("TK");
                        2
                    }
                } else {
                    w.both("T");
                    if w.any(i, "DT,DD") {
                        ev!("dmeta: DT DD");
                        2
                    } else {
                        1
                    }
                }
            }
            'G' => letter_g(&mut w, i),
            'H' => {
                if (i == 0 || w.vowel(i - 1)) && w.vowel(i + 1) {
                    ev!("dmeta: H kept");
                    w.both("H");
                    2
                } else {
                    1
                }
            }
            'J' => letter_j(&mut w, i),
            'L' => {
                if w.at(i + 1) == Some('L') {
                    let n = w.v.len() as isize;
                    let spanish = (i == n - 3 && w.any(i - 1, "ILLO,ILLA,ALLE"))
                        || ((w.any(n - 2, "AS,OS") || w.any(n - 1, "A,O")) && w.any(i - 1, "ALLE"));
                    if spanish {
                        ev!("dmeta: Spanish LL");
                        w.add("L", "");
                    } else {
                        w.both("L");
                    }
                    2
                } else {
                    w.both("L");
                    1
                }
            }
            'M' => {
                w.both("M");
                if w.at(i + 1) == Some('M') {
                    2
                } else if w.any(i - 1, "UMB") && (i + 1 == w.end() || w.any(i + 2, "ER")) {
                    ev!("dmeta: UMB");
                    2
                } else {
                    1
                }
            }
            'P' => {
                if w.at(i + 1) == Some('H') {
                    ev!("dmeta: PH");
                    w.both("F");
                    2
                } else {
                    w.both("P");
                    if w.any(i + 1, "P,B") {
                        2
                    } else {
                        1
                    }
                }
            }
            'R' => {
                if i == w.end() && !w.slavo && w.any(i - 2, "IE") && !w.any(i - 4, "ME,MA") {
                    ev!("dmeta: French IER");
                    w.add("", "R");
                } else {
                    w.both("R");
                }
                w.double(i)
            }
            'S' => letter_s(&mut w, i),
            'T' => letter_t(&mut w, i),
            'W' => letter_w(&mut w, i),
            'X' => {
                if i == 0 {
                    ev!("dmeta: initial X");
                    w.both("S");
                    1
                } else {
                    if i == w.end() && (w.any(i - 3, "IAU,EAU") || w.any(i - 2, "AU,OU")) {
                        ev!("dmeta: French final X");
                    } else {
                        w.both("KS");
                    }
                    if w.any(i + 1, "C,X") {
                        2
                    } else {
                        1
                    }
                }
            }
            'Z' => {
                if w.at(i + 1) == Some('H') {
                    ev!("dmeta: ZH");
                    w.both("J");
                    2
                } else {
                    if w.any(i + 1, "ZO,ZI,ZA") {
                        ev!("dmeta: ZZO ZZI ZZA");
                        w.add("S", "TS");
                    } else if w.slavo && i > 0 && w.at(i - 1) != Some('T') {
                        ev!("dmeta: slavo-germanic Z");
                        w.add("S", "TS");
                    } else {
                        w.both("S");
                    }
                    w.double(i)
                }
            }
            _ => 1,
        };
    }
    (w.p, w.a)
}

fn letter_c(w: &mut W, i: isize) -> isize {
    // "achr", "acht" and the like after a consonant, "bacher", "macher", "chia"
    let ach = i >= 2
        && !w.vowel(i - 2)
        && w.any(i - 1, "ACH")
        && (!matches!(w.at(i + 2), Some('I' | 'E')) || w.any(i - 2, "BACHER,MACHER"));
    if w.any(i, "CHIA") {
        ev!("dmeta: CHIA");
        w.both("K");
        return 2;
    }
    if ach {
        ev!("dmeta: germanic ACH");
        w.both("K");
        return 2;
    }
    if i == 0 && w.any(0, "CAESAR") {
        ev!("dmeta: CAESAR");
        w.both("S");
        return 2;
    }
    if w.at(i + 1) == Some('H') {
        letter_ch(w, i);
        return 2;
    }
    if w.any(i, "CZ") && !w.any(i - 2, "WICZ") {
        ev!("dmeta: CZ");
        w.add("S", "X");
        return 2;
    }
    if w.any(i + 1, "CIA") {
        ev!("dmeta: CCIA");
        w.both("X");
        return 3;
    }
    if w.any(i, "CC") && !(i == 1 && w.at(0) == Some('M')) {
        if w.any(i + 2, "I,E,H") && !w.any(i + 2, "HU") {
            if (i == 1 && w.at(0) == Some('A')) || w.any(i - 1, "UCCEE,UCCES") {
                ev!("dmeta: ACC UCCE");
                w.both("KS");
            } else {
                ev!("dmeta: Italian CC");
                w.both("X");
            }
            return 3;
        }
        ev!("dmeta: Pierce's rule");
        w.both("K");
        return 2;
    }
    if w.any(i, "CK,CG,CQ") {
        ev!("dmeta: CK CG CQ");
        w.both("K");
        return 2;
    }
    if w.any(i, "CI,CE,CY") {
        if w.any(i, "CIO,CIE,CIA") {
            ev!("dmeta: CIO CIE CIA");
            w.add("S", "X");
        } else {
            w.both("S");
        }
        return 2;
    }
    w.both("K");
    if w.any(i + 1, "_C,_Q,_G") {
        ev!("dmeta: Mac C");
        3
    } else if w.any(i + 1, "C,K,Q") && !w.any(i + 1, "CE,CI") {
        ev!("dmeta: C before CKQ");
        2
    } else {
        1
    }
}

fn letter_ch(w: &mut W, i: isize) {
    if i > 0 && w.any(i, "CHAE") {
        ev!("dmeta: CHAE");
        return w.add("K", "X");
    }
    if i == 0 && w.any(1, "HARAC,HARIS,HOR,HYM,HIA,HEM") && !w.any(0, "CHORE") {
        ev!("dmeta: Greek CH");
        return w.both("K");
    }
    if w.germanic() {
        ev!("dmeta: germanic CH");
        return w.both("K");
    }
    if w.any(i - 2, "ORCHES,ARCHIT,ORCHID") {
        ev!("dmeta: ORCHES");
        return w.both("K");
    }
    if w.any(i + 2, "T,S") {
        ev!("dmeta: CHT CHS");
        return w.both("K");
    }
    if (i == 0 || w.any(i - 1, "A,O,U,E")) && (i + 1 == w.end() || w.any(i + 2, "L,R,N,M,B,H,F,V,W,_")) {
        ev!("dmeta: CH before consonant");
        return w.both("K");
    }
    if i == 0 {
        w.both("X")
    } else if w.any(0, "MC") {
        ev!("dmeta: MCH");
        w.both("K")
    } else {
        ev!("dmeta: inner CH");
        w.add("X", "K")
    }
}

fn letter_g(w: &mut W, i: isize) -> isize {
    let next = w.at(i + 1);
    if next == Some('H') {
        if i == 0 {
            if w.at(2) == Some('I') {
                ev!("dmeta: GHI");
                w.both("J");
            } else {
                w.both("K");
            }
        } else if !w.vowel(i - 1) {
            ev!("dmeta: GH after consonant");
            w.both("K");
        } else if w.any(i - 2, "B,H,D") || w.any(i - 3, "B,H,D") || w.any(i - 4, "B,H") {
            ev!("dmeta: Parker's rule");
        } else if w.at(i - 1) == Some('U') && w.any(i - 3, "C,G,L,R,T") {
            ev!("dmeta: laugh");
            w.both("F");
        } else if w.at(i - 1) != Some('I') {
            ev!("dmeta: GH after vowel");
            w.both("K");
        } else {
            ev!("dmeta: IGH");
        }
        return 2;
    }
    if next == Some('N') {
        if i == 1 && w.vowel(0) && !w.slavo {
            ev!("dmeta: vowel GN");
            w.add("KN", "N");
        } else if !w.any(i + 2, "EY") && !w.slavo {
            ev!("dmeta: GN");
            w.add("N", "KN");
        } else {
            ev!("dmeta: GNEY");
            w.both("KN");
        }
        return 2;
    }
    if w.any(i + 1, "LI") && !w.slavo {
        ev!("dmeta: GLI");
        w.add("KL", "L");
        return 2;
    }
    if i == 0 && w.any(1, "Y,ES,EP,EB,EL,EY,IB,IL,IN,IE,EI,ER") {
        ev!("dmeta: initial GES");
        w.add("K", "J");
        return 2;
    }
    if w.any(i + 1, "ER,Y") && !w.any(0, "DANGER,RANGER,MANGER") && !w.any(i - 1, "E,I") && !w.any(i - 1, "RGY,OGY") {
        ev!("dmeta: GER GY");
        w.add("K", "J");
        return 2;
    }
    if w.any(i + 1, "E,I,Y") || w.any(i - 1, "AGGI,OGGI") {
        if w.germanic() || w.any(i + 1, "ET") {
            ev!("dmeta: germanic G");
            w.both("K");
        } else if w.any(i + 1, "IER") {
            ev!("dmeta: GIER");
            w.both("J");
        } else {
            ev!("dmeta: soft G");
            w.add("J", "K");
        }
        return 2;
    }
    w.both("K");
    w.double(i)
}

fn letter_j(w: &mut W, i: isize) -> isize {
    let n = w.v.len();
    if w.any(i, "JOSE") || w.any(0, "SAN_") {
        if (i == 0 && w.at(4) == Some(' ')) || n == 4 || w.any(0, "SAN_") {
            ev!("dmeta: Spanish J");
            w.both("H");
        } else {
            ev!("dmeta: JOSE in a word");
            w.add("J", "H");
        }
        return 1;
    }
    if i == 0 {
        ev!("dmeta: initial J");
        w.add("J", "A");
    } else if w.vowel(i - 1) && !w.slavo && matches!(w.at(i + 1), Some('A' | 'O')) {
        ev!("dmeta: vowel JA JO");
        w.add("J", "H");
    } else if i == w.end() {
        ev!("dmeta: final J");
        w.add("J", " ");
    } else if !w.any(i + 1, "L,T,K,S,N,M,B,Z") && !w.any(i - 1, "S,K,L") {
        w.both("J");
    } else {
        ev!("dmeta: silent J");
    }
    w.double(i)
}

fn letter_s(w: &mut W, i: isize) -> isize {
    if w.any(i - 1, "ISL,YSL") {
        ev!("dmeta: ISL");
        return 1;
    }
    if i == 0 && w.any(0, "SUGAR") {
        ev!("dmeta: SUGAR");
        w.add("X", "S");
        return 1;
    }
    if w.any(i, "SH") {
        if w.any(i + 1, "HEIM,HOEK,HOLM,HOLZ") {
            ev!("dmeta: SHEIM");
            w.both("S");
        } else {
            w.both("X");
        }
        return 2;
    }
    if w.any(i, "SIO,SIA") {
        ev!("dmeta: SIO SIA");
        if w.slavo {
            w.both("S");
        } else {
            w.add("S", "X");
        }
        return 3;
    }
    if w.any(i + 1, "Z") {
        ev!("dmeta: SZ");
        w.add("S", "X");
        return 2;
    }
    if i == 0 && w.any(1, "M,N,L,W") {
        ev!("dmeta: initial SM SN SL SW");
        w.add("S", "X");
        return 1;
    }
    if w.any(i, "SC") {
        if w.at(i + 2) == Some('H') {
            if w.any(i + 3, "ER,EN") {
                ev!("dmeta: SCHER SCHEN");
                w.add("X", "SK");
            } else if w.any(i + 3, "OO,UY,ED,EM") {
                ev!("dmeta: Dutch SCH");
                w.both("SK");
            } else if i == 0 && !w.vowel(3) && w.at(3) != Some('W') {
                ev!("dmeta: initial SCH and consonant");
                w.add("X", "S");
            } else {
                w.both("X");
            }
        } else if w.any(i + 2, "I,E,Y") {
            ev!("dmeta: SCI SCE SCY");
            w.both("S");
        } else {
            ev!("dmeta: SC");
            w.both("SK");
        }
        return 3;
    }
    if i == w.end() && w.any(i - 2, "AI,OI") {
        ev!("dmeta: French final S");
        w.add("", "S");
    } else {
        w.both("S");
    }
    if w.any(i + 1, "S,Z") {
        2
    } else {
        1
    }
}

fn letter_t(w: &mut W, i: isize) -> isize {
    if w.any(i, "TION,TIA,TCH") {
        ev!("dmeta: TION TIA TCH");
        w.both("X");
        return 3;
    }
    if w.any(i, "TH,TTH") {
        if w.any(i + 2, "OM,AM") || w.germanic() {
            ev!("dmeta: THOM germanic TH");
            w.both("T");
        } else {
            ev!("dmeta: TH");
            w.add("0", "T");
        }
        return 2;
    }
    w.both("T");
    if w.any(i + 1, "T,D") {
        2
    } else {
        1
    }
}

fn letter_w(w: &mut W, i: isize) -> isize {
    if w.any(i, "WR") {
        ev!("dmeta: WR");
        w.both("R");
        return 2;
    }
    if i == 0 && (w.vowel(1) || w.at(1) == Some('H')) {
        if w.vowel(1) {
            ev!("dmeta: initial W and vowel");
            w.add("A", "F");
        } else {
            ev!("dmeta: initial WH");
            w.both("A");
        }
        return 1;
    }
    if (i == w.end() && w.vowel(i - 1)) || w.any(i - 1, "EWSKI,EWSKY,OWSKI,OWSKY") || w.any(0, "SCH") {
        ev!("dmeta: W as F");
        w.add("", "F");
        return 1;
    }
    if w.any(i, "WICZ,WITZ") {
        ev!("dmeta: WICZ WITZ");
        w.add("TS", "FX");
        return 4;
    }
    1
}
