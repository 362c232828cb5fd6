#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"where":w} for n,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ALL=["src/soundex.rs","src/refined_soundex.rs","src/caverphone.rs","src/cologne.rs","src/metaphone.rs","src/double_metaphone.rs","src/nysiis.rs","src/phonex.rs","src/match_rating_approach.rs","src/daitch_mokotoff.rs","src/beider_morse/engine.rs"]
ENC=[("Encoder::encode of every encoder","src/lib.rs and each algorithm file")]

p("C01","Encoding never panics, aborts or hangs, whatever the text and configuration",
"For every valid UTF-8 string (any script, combining marks, characters whose upper or lower case expands, control characters, whitespace, empty, long) and every constructible configuration (mappings, strictness, maximum lengths including 0, None and huge, custom rules that were accepted, name and rule types, language sets, max_phonemes), every public operation (encode, encode_alternate, double_metaphone, soundex, inner_soundex, encode_with_languages, is_encoded_equals, difference, is_double_metaphone_equal) returns a valid string or value. It never panics, overflows, aborts the process or fails to terminate.",
["inputs","configurations"],"all strings up to thousands of characters (hundreds for Beider-Morse; Phonex lengths up to what can be allocated, since its code is padded to that length), all configurations of all encoders",
"Byte-index slicing, table lookups and length arithmetic only go wrong for particular characters at particular positions under particular configurations; a test samples a few names.",
ALL,ENC)
p("C02","A result depends only on the arguments and the configuration",
"Encoding is a pure function: the result of an operation depends only on the encoder's configuration and the arguments. It is not influenced by earlier or interleaved calls, by which copy or clone of the encoder is used, by the thread or the number of threads sharing one encoder (or one ConfigFiles), by another encoder being built, or by the process, its environment or working directory; calls print nothing.",
["histories","schedules","configurations"],"all histories of calls, all interleavings of threads sharing encoders, all processes",
"A unit test makes each call once, in a fresh state, on one thread; state leaking between calls or threads only shows for particular call histories.",
["src/lib.rs"]+ALL+["src/beider_morse/lang.rs","src/beider_morse/rule.rs"],ENC+[("shared rules and lazily initialised tables","src/beider_morse/engine.rs, src/beider_morse/rule.rs")])
p("C03","Soundex produces the four character code of the algorithm for any mapping",
"For every text and mapping, Soundex keeps only letters (upper-cased), keeps the first one, then appends the codes of the following letters, where '0' and a code equal to the previous code are not appended, letters mapped to '-' and letters outside A-Z are passed over without separating equal codes, and, when special_case_h_w is set, H and W are too; other letters coded '0' do separate. The code is padded with '0' to exactly four characters; a text without letters gives the empty string, and special_case_h_w defaults to true exactly when the mapping has no '-'.",
["inputs","configurations"],"all strings and all mappings of 26 characters",
"The interaction of silent letters, separators, repeated codes and a custom mapping depends on the whole letter sequence.",
["src/soundex.rs","src/lib.rs"],[("Soundex::encode","src/soundex.rs"),("soundex_clean","src/lib.rs")])
p("C04","Refined Soundex produces the code of the algorithm for any mapping",
"For every text and mapping, Refined Soundex keeps only letters (upper-cased) and gives the first letter followed by the code of every letter (the first included), a code equal to the one of the immediately preceding letter being dropped. Letters outside A-Z have no code and separate equal codes; the code has no maximum length, and a text without letters gives the empty string.",
["inputs","configurations"],"all strings and all mappings of 26 characters","Duplicate collapsing depends on the whole sequence and the mapping.",
["src/refined_soundex.rs","src/lib.rs"],[("RefinedSoundex::encode","src/refined_soundex.rs")])
p("C05","Caverphone 1 applies the published replacement rules in order",
"For every text, Caverphone1 lower-cases it, keeps only a-z, applies the Caverphone 1.0 replacement rules (starts cough/rough/tough/enough/gn, final mb, then the ordered substitutions) each at every place it matches and in the published order, and gives exactly six characters, padded with '1' or truncated. Texts with the same a-z letters have the same code.",
["inputs"],"all strings","About forty ordered rewriting rules feed each other; a wrong rule, place or order shows only for inputs where rules interact.",
["src/caverphone.rs","src/helper.rs"],[("Caverphone1::encode","src/caverphone.rs"),("replace_end, replace_compact_all_to_uppercase, remove_all_non_letter","src/helper.rs")])
p("C06","Caverphone 2 applies the published replacement rules in order",
"For every text, Caverphone2 lower-cases it, keeps only a-z, drops a final e, applies the Caverphone 2.0 replacement rules (starts cough/rough/tough/enough/trough/gn, final mb, then the ordered substitutions with the final w, r, l and 3 rules) each at every place it matches and in the published order, and gives exactly ten characters, padded with '1' or truncated. Texts with the same a-z letters have the same code.",
["inputs"],"all strings","About fifty ordered rewriting rules feed each other; a wrong rule, place or order shows only for inputs where rules interact.",
["src/caverphone.rs","src/helper.rs"],[("Caverphone2::encode","src/caverphone.rs"),("replace_end, replace_compact_all_to_uppercase, remove_all_non_letter","src/helper.rs")])
p("C07","Cologne phonetics follows the context table for every letter sequence",
"For every text, Cologne upper-cases it, folds umlauts, ignores anything but A-Z, and codes each letter from its previous and next characters as the Koelner Phonetik table says (P before H, D/T before C/S/Z, initial and inner C, X after C/K/Q, H silent). Consecutive equal codes are collapsed, also across nothing but ignored characters, and 0 is kept only at the beginning of the code.",
["inputs"],"all strings","The code of a letter depends on its neighbours (of any kind) and on the codes already produced.",
["src/cologne.rs"],[("Cologne::encode and CologneOutput::push","src/cologne.rs")])
p("C08","Metaphone applies its context rules at every position and length limit",
"For every text and maximum length, Metaphone upper-cases the text, applies the initial-letter exceptions (KN, GN, PN, AE, WR, WH, X), skips doubled letters other than C, and codes every other letter by the Metaphone rules of its context (CIA, SCE, CH, SCH, DGE, GH, GN, PH, SH, SIO, TIA, TCH, TH, ...), stopping at the maximum length. A single character is its own code, in upper case.",
["inputs","configurations"],"all strings, all maximum lengths including 0 and None",
"Each rule looks up to four characters around a position and at word ends; tests sample words, not contexts.",
["src/metaphone.rs","src/helper.rs"],[("Metaphone::encode","src/metaphone.rs")])
p("C09","Double Metaphone gives the algorithm's primary and alternate codes",
"For every text and maximum length, double_metaphone gives the primary and alternate codes of Philips' Double Metaphone (as in commons-codec) on the trimmed, upper-cased text: silent starts, slavo-germanic words, and each letter's rules with their contexts, appended pieces and number of consumed letters. Each code is truncated to the maximum length and encoding goes on until both are full; encode and encode_alternate give the two codes of double_metaphone.",
["inputs","configurations"],"all strings, all maximum lengths including 0 and None",
"More than a hundred conditions look at contexts up to six letters away and at the beginning of the word; most appear in no test word, and with a limit of four most of the word is never reached.",
["src/double_metaphone.rs"],[("DoubleMetaphone::double_metaphone and its handle_* and condition_* functions","src/double_metaphone.rs")])
p("C10","NYSIIS transcodes every letter sequence as the algorithm says",
"For every text, Nysiis keeps letters (upper-cased), applies the start (MAC, KN, K, PH/PF, SCH) and end (EE, IE, DT, RT, RD, NT, ND) replacements, transcodes each following letter from its current context (EV, vowels, Q, Z, M, KN, K, SCH, PH, H, W) with replacements visible to later letters, drops letters equal to the preceding one, and, when the code has more than one letter, removes a final S, turns a final AY after other letters into Y, and removes a final A. Strict codes are the first six characters of the code that is not strict.",
["inputs","configurations"],"all strings, strict or not","Transcoding is in place: an earlier replacement changes the context of the following letters.",
["src/nysiis.rs","src/lib.rs"],[("Nysiis::encode, Nysiis::transcode","src/nysiis.rs")])
p("C11","Phonex gives a code of exactly the requested length, by its rules",
"For every text and maximum length, Phonex keeps letters (upper-cased), drops trailing S, applies the leading rules (KN, PH, WR, H, vowels, P, V, K/Q, J, Z), then codes the following letters (B/P/F/V 1; C/S/K/G/J/Q/X/Z 2; D/T 3 unless before C; L 4 and R 6 only before a vowel or at the end; M/N 5, ignoring a following D or G; others 0), a code being dropped when it repeats the last one or is 0. The code has exactly max_code_length characters: cut, or padded with '0'.",
["inputs","configurations"],"all strings, all lengths including 0 and 1","The code of a letter depends on its neighbours, on the letter skipped before it and on the last code pushed.",
["src/phonex.rs","src/lib.rs"],[("Phonex::encode, preprocess, transcode","src/phonex.rs")])
p("C12","Match Rating Approach codes drop vowels and doubles and keep 3+3 letters",
"For every text, the Match Rating Approach code is the upper-cased text without - & ' . , and whitespace, with accented letters replaced by their plain letter, without vowels other than at the first place, with doubled consonants made single, and, when more than six characters remain, only the first three and the last three. A text of at most one character (trimmed) gives the empty code.",
["inputs"],"all strings","The steps feed each other (a removed vowel makes a double consonant) for arbitrary Unicode text.",
["src/match_rating_approach.rs"],[("MatchRatingApproach::encode","src/match_rating_approach.rs")])
p("C13","Match Rating Approach comparison is the minimum-rating rule, symmetric",
"For every pair of texts, is_encoded_equals of MatchRatingApproach is false when one is blank or a single character (trimmed), else true when they are identical, else false when a code is empty or the code lengths differ by three or more, and otherwise true exactly when 6 minus the larger number of characters left unmatched by the left-to-right and right-to-left pass reaches the minimum rating for the summed length (up to 4: 5, 5-7: 4, 8-11: 3, 12: 2). It is symmetric in its arguments.",
["inputs"],"all pairs of strings","The verdict depends on the pairing of two codes of any lengths; the tests compare a few dozen pairs.",
["src/match_rating_approach.rs"],[("MatchRatingApproach::is_encoded_equals, left_to_right_then_right_to_left_processing, get_minimum_rating","src/match_rating_approach.rs")])
p("C14","Daitch-Mokotoff encoding applies the longest rule and explores every branch",
"For every text and every rule set, Daitch-Mokotoff soundex drops whitespace, lower-cases, folds (when enabled), and at each position applies the longest matching pattern, with the start, before-vowel or default replacement; a replacement that the previous one ends with is not repeated, except between m and n; characters without rules are skipped. With branching it gives every distinct code reachable by choosing among alternatives, once, in order of first discovery, without branching the one obtained with first alternatives; each code has exactly six characters, cut or padded with '0', and soundex joins the codes of inner_soundex with '|' while encode gives the first one.",
["inputs","configurations"],"all strings, all rule sets, folding on or off, branching on or off",
"Longest-match, position context, adjacency and branching interact over the whole word, for any rule set.",
["src/daitch_mokotoff.rs","rules/dmrules.txt"],[("DaitchMokotoffSoundex::inner_soundex, Branch, Rule","src/daitch_mokotoff.rs")])
p("C15","Daitch-Mokotoff rule text is parsed line by line, errors locate the line",
"For every rule text, the builder accepts it exactly when every line is a four-part quoted rule, a one-character folding c=d, blank, a // comment (alone or after a rule) or part of a /* */ comment starting and ending a line, with \\n or \\r\\n line ends; the resulting encoder applies exactly the rules and foldings written. Otherwise build returns a ParseRuleError with the one-based number and the content of the first line that is wrong (a rule with an empty pattern included), and never panics.",
["inputs","configurations"],"all rule texts, well-formed or mutated","Malformed texts are unbounded in variety; tests contain one malformed line.",
["src/daitch_mokotoff.rs","src/rules_parser.rs","src/lib.rs"],[("DaitchMokotoffSoundexBuilder::build","src/daitch_mokotoff.rs"),("quadruplet, folding, end_of_line, multiline_comment","src/rules_parser.rs"),("build_error","src/lib.rs")])
p("C16","Beider-Morse encoding applies the rule files for the given languages",
"For every text, language set, name type, rule type, concat and max_phonemes, encode_with_languages gives the alternatives obtained by applying, at each position, the first rule of the language's file (that language when there is exactly one and it has rules, else any) whose pattern and contexts match, then the common and the language's final rules, keeping for every alternative only the languages allowed by every rule used and dropping it when none is left, never holding more than max_phonemes alternatives while applying a rule. Name prefixes (d', da, van, ...) give (rest)-(combined) for generic names and are dropped otherwise, hyphens are spaces, words are joined before encoding, or encoded one by one and joined with - without concat.",
["inputs","configurations"],"all strings, language sets, name types, rule types, concat, max_phonemes (0 and 1 included), and rule directories",
"Hundreds of context rules per language, language restriction and the cap on alternatives interact; tests sample a few names on few configurations.",
["src/beider_morse/engine.rs","src/beider_morse/rule.rs","src/beider_morse/regex_optim.rs","src/beider_morse/mod.rs"],
[("PhoneticEngine::encode_with_language_set, RulesApplication::invoke, PhonemeBuilder::apply, apply_final_rule","src/beider_morse/engine.rs"),("Rule::pattern_and_context_matches, parse_phoneme_expr","src/beider_morse/rule.rs"),("OptimizedRegex","src/beider_morse/regex_optim.rs")])
p("C17","Beider-Morse language detection follows the language rules in order",
"For every text and name type, the languages used by BeiderMorse::encode are those left from all languages of that name type after applying, in order, every language rule whose regular expression matches the lower-cased text (true keeps only the rule's languages, false removes them), or any language when none is left. Hence encode(x) equals encode_with_languages(x, that set), for each part of a split name on its own text.",
["inputs","configurations"],"all strings, all name types, shipped and custom language rule files","Rules narrow the set in sequence; which rules fire depends on the whole text.",
["src/beider_morse/lang.rs","src/beider_morse/languages.rs","src/beider_morse/engine.rs"],[("Lang::guess_languages","src/beider_morse/lang.rs")])
p("C18","Beider-Morse configuration loads exactly well-formed directories",
"ConfigFiles::new succeeds when the directory holds, for every name type, its languages file (listing any), language rules file and every rule file needed, all well-formed (includes, comments and phoneme expressions supported; a rule file's include replaces earlier rules of the same first letter and later rules are appended). When a file is missing, a line is malformed, a regular expression or phoneme expression is wrong, a pattern is empty, any is not listed or includes form a cycle, it returns an error, never panicking; a parse error names the file (for rules and language rules), the one-based line number and the line at fault. Once loaded, a configuration no longer depends on its directory, nor on the path it was given by.",
["configurations","inputs"],"all directories: well-formed ones and ones with any file removed, truncated or mutated","The tests load one good directory; faults can be at any line of any of a hundred files.",
["src/beider_morse/rule.rs","src/beider_morse/lang.rs","src/beider_morse/languages.rs","src/beider_morse/mod.rs","src/rules_parser.rs"],
[("build_rules, parse_rule, parse_phoneme_expr","src/beider_morse/rule.rs"),("build_langs, parse_lang","src/beider_morse/lang.rs"),("Languages::try_from, parse_liste","src/beider_morse/languages.rs")])
p("C19","Beider-Morse output is well-shaped: distinct, ordered, capped alternatives",
"Every Beider-Morse result is a |-separated list of alternatives, or such lists in parentheses joined by - for split names, or joined by - without concat. Within a list the alternatives are distinct and in increasing character order, and with exact or approximate rules a list has at most max_phonemes cubed alternatives (one when max_phonemes is 0 or 1); changing nothing but the letter case of the text, or writing a hyphen instead of a space, does not change the result.",
["inputs","configurations"],"all strings, all shipped languages, name types, rule types, concat, max_phonemes","Structural invariants of the output over every input and configuration.",
["src/beider_morse/engine.rs","src/beider_morse/rule.rs"],[("PhonemeBuilder::make_string, apply_final_rule","src/beider_morse/engine.rs"),("Ord for Phoneme","src/beider_morse/rule.rs")])
p("C20","Codes keep the documented length and alphabet",
"For every text: Soundex codes have 0 or 4 characters, Caverphone1 6 and Caverphone2 10 (of the letters A F H K L M N P R S T W Y and 1), Phonex exactly its length, Daitch-Mokotoff 6 digits with shipped rules, Nysiis at most 6 when strict, Match Rating at most 6, Metaphone and Double Metaphone at most their maximum (a single character excepted for Metaphone). Cologne codes contain only 0-8 with 0 only in first place; Metaphone codes only 0 (for th) and the letters A B E F H I J K L M N O P R S T U W X Y, Double Metaphone codes only 0 and A F H J K L M N P R S T X (and spaces).",
["inputs","configurations"],"all strings, all maximum lengths","Length and alphabet must hold for every input; a test only shows it for its names.",
ALL,ENC)
p("C21","A maximum code length only cuts the unlimited code",
"For every text and every n, Metaphone and Double Metaphone (primary and alternate) with maximum n give the first n characters of the code without maximum, strict Nysiis gives the first six of the code that is not strict, and Phonex with length n gives the first n characters of its code with a longer length. A longer maximum never changes characters already given (Metaphone's single-character texts excepted).",
["inputs","configurations"],"all strings and all pairs of maximum lengths","It relates runs under different configurations, which no test does.",
["src/metaphone.rs","src/double_metaphone.rs","src/nysiis.rs","src/phonex.rs"],[("length checks in the encoding loops","src/metaphone.rs, src/double_metaphone.rs, src/phonex.rs, src/nysiis.rs")])
p("C22","Letter case and ignorable characters do not change a code",
"For every text, every encoder gives the same code when ASCII letters change case. Inserting anywhere characters that an encoder ignores does not change its code: non-letters for Soundex, Refined Soundex, Nysiis and Phonex; anything that does not lower-case to a-z for Caverphone; hyphen, apostrophe, &, dot, comma and spaces for Match Rating (texts of two characters or more); whitespace for Daitch-Mokotoff; surrounding whitespace for Double Metaphone.",
["inputs"],"all strings and all insertions of ignorable characters","Relates pairs of inputs; tests check a few fixed pairs.",
ALL,[("soundex_clean","src/lib.rs"),("remove_all_non_letter","src/helper.rs"),("clean_name","src/match_rating_approach.rs")])
p("C23","Comparisons agree with the codes they compare",
"For every pair of texts and every encoder but Match Rating, is_encoded_equals is true exactly when the two codes are equal; is_double_metaphone_equal is true exactly when the primary (or alternate) codes are equal; difference of Soundex and RefinedSoundex is the number of positions at which the two codes have the same character, 0 if a code is empty. The same holds for a user's own type that implements Encoder and SoundexCommons by giving encode only, whatever its codes contain. All are symmetric, and a text always equals itself.",
["inputs","configurations"],"all pairs of strings, all encoders and configurations","Relates three results over all pairs.",
["src/lib.rs","src/double_metaphone.rs","src/soundex.rs","src/refined_soundex.rs"],[("Encoder::is_encoded_equals, SoundexCommons::difference","src/lib.rs"),("is_double_metaphone_equal","src/double_metaphone.rs")])
p("C24","CharSequence slices by characters, clamped to the text",
"For every text and every range (a..b, a.., .., a..=b, ..b, ..=b), indexing a CharSequence gives exactly the characters whose positions are in the range, positions beyond the end and reversed ranges giving fewer or none, without panicking. len is the number of characters, is_empty tells whether it is 0, and as_str, Display and conversion back give the original text.",
["inputs"],"all strings and ranges (inclusive ends below usize::MAX)","Ranges and multi-byte texts combine without bound; tests use one-character texts and two sentences.",
["src/helper.rs"],[("Index implementations of CharSequence","src/helper.rs")])
p("C25","LanguageSet operations obey set algebra with Any and NoLanguages",
"restrict_to is intersection and merge is union of language sets, where Any is the universe and NoLanguages the empty set: for all sets both are commutative and idempotent as sets, restrict_to(Any) and merge(NoLanguages) change nothing, restrict_to(NoLanguages) is empty and merge(Any) is Any. is_empty, is_singleton and any agree with the members, and duplicates or order in construction do not matter.",
["inputs"],"all triples of language sets","Algebraic laws over all combinations; tests check a few.",
["src/beider_morse/languages.rs"],[("LanguageSet::restrict_to, merge, any, is_singleton, is_empty","src/beider_morse/languages.rs")])
p("C26","Serialised and printed forms represent the value faithfully",
"For every configuration, serialising an encoder (Soundex, RefinedSoundex, Caverphone1/2, Cologne, Metaphone, DoubleMetaphone, Nysiis, Phonex, MatchRatingApproach) or a value (LanguageSet, NameType, RuleType, DoubleMetaphoneResult, ParseError, CharSequence) and reading it back gives an equal value that encodes every text identically. NameType prints as ash, gen, sep and parses back (anything else is an error), a DoubleMetaphoneResult prints as [primary=P, alternate=A], a ParseError as FILE:LINE DESCRIPTION : CONTENT (Unknown without file), a LanguageSet as its sorted comma-separated members (ANY_LANGUAGE, NO_LANGUAGES). A BMError and a PhoneticError print the text or error they were made from, and conversions from parse, Beider-Morse, input and regex errors keep it.",
["configurations","inputs"],"all configurations and values","Round trips over all configurations are not tested.",
["src/lib.rs","src/double_metaphone.rs","src/helper.rs","src/beider_morse/mod.rs","src/beider_morse/languages.rs"],[("derived and manual Display, FromStr, Serialize, Deserialize","src/lib.rs, src/double_metaphone.rs, src/beider_morse/mod.rs, src/beider_morse/languages.rs")])
p("C27","Defaults and embedded rules behave as the documented configuration",
"With the embedded rules, DaitchMokotoffSoundex::default() encodes every text as one built from rules/dmrules.txt with folding, and ConfigFiles::default() encodes every text as the shipped any and common rules do with language any and no detection. Builder defaults are generic names, approximate rules, concatenated words, 20 phonemes; setters change only their own setting, in any order; Metaphone, DoubleMetaphone and Phonex default to 4, Nysiis to strict, Soundex to the US English mapping.",
["configurations","inputs"],"all strings, default and explicit configurations","Compares two configurations over all texts; tests compare a few words.",
["src/daitch_mokotoff.rs","src/beider_morse/mod.rs","src/beider_morse/rule.rs","src/beider_morse/lang.rs","src/beider_morse/languages.rs","rules/dmrules.txt","rules/bm"],[("Default implementations","each encoder's file"),("embedded rules","src/beider_morse/rule.rs, src/daitch_mokotoff.rs")])
p("C28","Memory and work stay bounded by the text length and the limits",
"The memory an encoding holds at its peak and the work it does are bounded by a fixed polynomial of the text length (linear memory for the single-code encoders), whatever the text: Daitch-Mokotoff branches are bounded because codes are cut at six characters, Beider-Morse alternatives by max_phonemes, so no text makes the cost grow exponentially. Nothing is retained after a result is dropped, however many texts are encoded.",
["inputs","histories"],"all strings, in particular repetitive and branching ones, and long histories of calls","Tests check a few long strings by eye; growth shows only on families of adversarial texts and on long histories.",
ALL,[("branch de-duplication","src/daitch_mokotoff.rs"),("max_phonemes cap in PhonemeBuilder::apply","src/beider_morse/engine.rs")])
p("C29","Encoders are free of memory errors, undefined behaviour and data races",
"Running any operation on any text, from any number of threads sharing encoders and configuration, never reads or writes out of bounds or after free, leaks, invokes undefined behaviour or races on shared data. Encoders and configurations can be shared and sent between threads.",
["schedules","inputs"],"all interleavings of threads sharing encoders, all texts","Memory errors and races do not fail a unit test by themselves and need particular schedules.",
["src/lib.rs"]+ALL,[("all encoders; lazily initialised tables","src/beider_morse/engine.rs, src/beider_morse/rule.rs")])
p("C30","Every way of giving a Soundex mapping is equivalent and checked",
"For every string, Soundex and RefinedSoundex built by try_from(&str), try_from(String) or parse succeed exactly when it has 26 characters, are then equal to the one built from the array of those characters (for Soundex with special_case_h_w true exactly when no '-' is in it), and encode alike; otherwise the error holds the characters given. Mapping characters are used as they are, position i for the i-th letter.",
["inputs","configurations"],"all mapping strings","All mapping strings, including wrong lengths and multi-byte characters, are never enumerated by tests.",
["src/soundex.rs","src/refined_soundex.rs"],[("TryFrom, FromStr, From implementations","src/soundex.rs, src/refined_soundex.rs")])
p("C31","Values and encoders are consistent keys: equality, order, hash and clones",
"Two encoders of a type are equal exactly when they have the same configuration, however they were constructed (mappings by any constructor, defaults against explicit values, Daitch-Mokotoff rules with other comments), and equal encoders encode every text alike. Two values (LanguageSet with members, NameType, RuleType, DoubleMetaphoneResult of one limit, ParseError, PhoneticError, BMError, CharSequence) are equal exactly when their content is. Equality is an equivalence; where there is an order it is total and agrees with equality, where there is a hash equal values have the same; so they work as keys of sorted and hashed sets, and clones equal and behave as the original.",
["inputs","configurations"],"all triples of values and encoders of a type","Laws over all pairs and triples of values; tests compare a few values for equality only.",
["src/lib.rs","src/helper.rs","src/soundex.rs","src/refined_soundex.rs","src/metaphone.rs","src/double_metaphone.rs","src/nysiis.rs","src/phonex.rs","src/daitch_mokotoff.rs","src/beider_morse/mod.rs","src/beider_morse/languages.rs"],[("PartialEq, Eq, PartialOrd, Ord, Hash, Clone of the public types","each type's file")])
p("C32","Results do not depend on how the crate is built",
"The features embedded_bm and embedded_dm only add default rules: with any of them or none the crate compiles, and every encoder, configuration, text, rule text, rule directory and value gives the same results (codes, comparisons, accepted or refused rules with the same error, printed forms). The same holds with and without optimisation, debug assertions and overflow checks, and for platforms of 32 bits or another byte order.",
["configurations","inputs"],"all builds, inputs and configurations","Tests run in one kind of build (not optimised, with assertions and overflow checks, on one platform), mostly with all features.",
["src/daitch_mokotoff.rs","src/beider_morse/rule.rs","src/beider_morse/mod.rs","src/beider_morse/languages.rs","src/beider_morse/lang.rs","src/lib.rs"],[("cfg(feature) parts, arithmetic, and everything that may depend on the build","src")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
