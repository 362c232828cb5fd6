From 68576a7a2837ede7eafe255354eed3b1a7714343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 01/22] fix: soundex no longer panics on letters outside A-Z,
 they are silent

---
 src/soundex.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/soundex.rs b/src/soundex.rs
index 00b47d2..d2148a9 100644
--- a/src/soundex.rs
+++ b/src/soundex.rs
@@ -97,8 +97,12 @@ impl Soundex {
         }
     }
 
+    /// Letters that are not in the mapping (any letter outside `A` to `Z`) are silent.
     fn get_mapping_code(&self, ch: char) -> char {
-        self.mapping[ch as usize - 65]
+        match ch {
+            'A'..='Z' => self.mapping[ch as usize - 65],
+            _ => SILENT,
+        }
     }
 }
 
-- 
2.43.0


From 251950758c02bfa2204225d595bf2a065b9154b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 02/22] fix: refined soundex no longer panics on letters
 outside A-Z, they have no code

---
 src/refined_soundex.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/refined_soundex.rs b/src/refined_soundex.rs
index 6917de0..2972522 100644
--- a/src/refined_soundex.rs
+++ b/src/refined_soundex.rs
@@ -57,8 +57,12 @@ impl RefinedSoundex {
         Self { mapping }
     }
 
-    fn get_mapping_code(&self, ch: char) -> char {
-        self.mapping[ch as usize - 65]
+    /// Letters that are not in the mapping (any letter outside `A` to `Z`) don't have any code.
+    fn get_mapping_code(&self, ch: char) -> Option<char> {
+        match ch {
+            'A'..='Z' => Some(self.mapping[ch as usize - 65]),
+            _ => None,
+        }
     }
 }
 
@@ -176,10 +180,10 @@ impl Encoder for RefinedSoundex {
 
         for ch in value.chars() {
             let code_value = self.get_mapping_code(ch);
-            if Some(code_value) != previous {
-                code.push(code_value);
+            if code_value != previous {
+                code.extend(code_value);
             }
-            previous = Some(code_value);
+            previous = code_value;
         }
 
         code
-- 
2.43.0


From 7dbad148958b5c45f26632d81f93c5200710903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 03/22] fix: caverphone only keeps the letters a to z before
 encoding

---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 7ed4b1e..0740afb 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -70,7 +70,7 @@ where
 pub fn remove_all_non_letter(string: String) -> String {
     string
         .chars()
-        .filter(|&c| c.is_lowercase())
+        .filter(|&c| c.is_ascii_lowercase())
         .collect::<String>()
 }
 
-- 
2.43.0


From cff1db8804b0ef6add17b6870544a788db310195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 04/22] fix: nysiis strict code is truncated by characters, not
 bytes

---
 src/nysiis.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nysiis.rs b/src/nysiis.rs
index 2c75944..65bbb99 100644
--- a/src/nysiis.rs
+++ b/src/nysiis.rs
@@ -214,8 +214,7 @@ impl Encoder for Nysiis {
         };
 
         if self.strict {
-            let min = std::cmp::min(result.len(), TRUE_LENGTH);
-            result[..min].to_string()
+            result.chars().take(TRUE_LENGTH).collect()
         } else {
             result
         }
-- 
2.43.0


From 50cda09200f90886f41cf6786dd6bfd3064114db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 05/22] fix: phonex code always has max_code_length characters

---
 src/phonex.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/phonex.rs b/src/phonex.rs
index aa80d15..6dfe68d 100644
--- a/src/phonex.rs
+++ b/src/phonex.rs
@@ -158,6 +158,9 @@ impl Encoder for Phonex {
         // Use directly the return type, with the right allocated capacity (if we're
         // only using ASCII).
         let mut result = String::with_capacity(self.max_code_length);
+        // Number of characters in `result` (it differs from `result.len()` if the first
+        // character is not an ASCII one).
+        let mut result_len = 0;
 
         let mut code = '0';
         let mut last = '0';
@@ -165,13 +168,14 @@ impl Encoder for Phonex {
 
         'char_iter: while let Some((mut i, curr)) = chars.next() {
             // We reach max_code_length we stop here.
-            if result.len() == self.max_code_length {
+            if result_len == self.max_code_length {
                 break 'char_iter;
             }
 
             // We always add the first (sanitized, preprocessed) character.
             if i == 0 {
                 result.push(curr);
+                result_len += 1;
                 last_push = curr;
             }
 
@@ -196,8 +200,9 @@ impl Encoder for Phonex {
                 i += 1;
             }
 
-            if last != code && code != '0' && i != 0 {
+            if last != code && code != '0' && i != 0 && result_len < self.max_code_length {
                 result.push(code);
+                result_len += 1;
                 last_push = code;
             }
 
@@ -209,8 +214,9 @@ impl Encoder for Phonex {
         }
 
         // Pad to ensure we meet `max_code_length`
-        while result.len() < self.max_code_length {
+        while result_len < self.max_code_length {
             result.push('0');
+            result_len += 1;
         }
 
         result
-- 
2.43.0


From 0e50dee6e60db89786f35a72bab8f60a27585b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 06/22] fix: match rating approach counts characters, not
 bytes, and doesn't panic on empty codes

---
 src/match_rating_approach.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/match_rating_approach.rs b/src/match_rating_approach.rs
index 0c1ae62..d8faeef 100644
--- a/src/match_rating_approach.rs
+++ b/src/match_rating_approach.rs
@@ -130,8 +130,14 @@ impl MatchRatingApproach {
     }
 
     fn get_first3_last3(value: String) -> String {
-        if value.len() > 6 {
-            format!("{}{}", &value[0..3], &value[value.len() - 3..])
+        let len = value.chars().count();
+        if len > 6 {
+            value
+                .chars()
+                .enumerate()
+                .filter(|(index, _)| *index < 3 || *index >= len - 3)
+                .map(|(_, ch)| ch)
+                .collect()
         } else {
             value
         }
@@ -174,20 +180,20 @@ impl MatchRatingApproach {
             }
         }
 
-        let r1: String = n1.iter().filter(|c| c != &&' ').collect();
-        let r2: String = n2.iter().filter(|c| c != &&' ').collect();
+        let r1 = n1.iter().filter(|c| c != &&' ').count();
+        let r2 = n2.iter().filter(|c| c != &&' ').count();
 
-        if r1.len() > r2.len() {
-            6usize.abs_diff(r1.len())
+        if r1 > r2 {
+            6usize.abs_diff(r1)
         } else {
-            6usize.abs_diff(r2.len())
+            6usize.abs_diff(r2)
         }
     }
 }
 
 impl Encoder for MatchRatingApproach {
     fn encode(&self, value: &str) -> String {
-        if value.trim().is_empty() || value.trim().len() == 1 {
+        if value.trim().chars().count() <= 1 {
             return String::new();
         }
 
@@ -204,7 +210,7 @@ impl Encoder for MatchRatingApproach {
             return false;
         }
 
-        if first.trim().len() == 1 || second.trim().len() == 1 {
+        if first.trim().chars().count() == 1 || second.trim().chars().count() == 1 {
             return false;
         }
 
@@ -215,11 +221,19 @@ impl Encoder for MatchRatingApproach {
         let name1 = self.encode(first);
         let name2 = self.encode(second);
 
-        if name1.len().abs_diff(name2.len()) >= 3 {
+        // There is nothing to compare, for example there are only punctuation.
+        if name1.is_empty() || name2.is_empty() {
+            return false;
+        }
+
+        let name1_len = name1.chars().count();
+        let name2_len = name2.chars().count();
+
+        if name1_len.abs_diff(name2_len) >= 3 {
             return false;
         }
 
-        let sum_length = name1.len() + name2.len();
+        let sum_length = name1_len + name2_len;
 
         let min_rating = MatchRatingApproach::get_minimum_rating(sum_length);
         let count = MatchRatingApproach::left_to_right_then_right_to_left_processing(name1, name2);
-- 
2.43.0


From 0149a3c7654e41be65d3f992a0ab1c10c3abc9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 07/22] fix: metaphone indexes by characters, not bytes

---
 src/metaphone.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/metaphone.rs b/src/metaphone.rs
index b74b90f..b07ef3c 100644
--- a/src/metaphone.rs
+++ b/src/metaphone.rs
@@ -65,7 +65,8 @@ impl Metaphone {
     }
 
     fn region_match(text: &str, index: usize, test: &str) -> bool {
-        index + test.len() - 1 < text.len() && text[index..].starts_with(test)
+        let mut chars = text.chars().skip(index);
+        test.chars().all(|ch| chars.next() == Some(ch))
     }
 
     fn is_last_char(wdsz: usize, n: usize) -> bool {
@@ -86,7 +87,7 @@ impl Encoder for Metaphone {
     fn encode(&self, value: &str) -> String {
         let inwd = value.to_uppercase();
 
-        if inwd.len() == 1 {
+        if inwd.chars().count() == 1 {
             return inwd;
         }
 
@@ -124,7 +125,7 @@ impl Encoder for Metaphone {
             _ => local.push_str(&inwd),
         }
 
-        let wdsz = local.len();
+        let wdsz = local.chars().count();
 
         let mut skip = 0;
         for (index, symb) in local.chars().enumerate() {
-- 
2.43.0


From 67294c3cfa30532c227ef7f8bafbf28bf7c5562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 08/22] fix: double metaphone indexes by characters, not bytes

---
 src/double_metaphone.rs | 91 +++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 50 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index c75b172..f0e1e00 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -15,8 +15,6 @@
  * limitations under the License.
  */
 use std::fmt::{Display, Formatter};
-use std::iter::Peekable;
-use std::str::CharIndices;
 
 use serde::{Deserialize, Serialize};
 
@@ -221,24 +219,11 @@ impl DoubleMetaphone {
             || value.contains("WITZ")
     }
 
-    fn contains(value: &str, start: isize, length: usize, criteria: Vec<&str>) -> bool {
-        let result = false;
-
-        if start < 0 {
-            return false;
-        }
-
-        let start = start as usize;
-
-        if start + length <= value.len() {
-            let target: &str = &value[start..start + length];
-            return criteria.contains(&target);
-        }
-
-        result
+    fn contains(value: &[char], start: isize, length: usize, criteria: Vec<&str>) -> bool {
+        Self::contains_array(value, start, length, &criteria)
     }
 
-    fn contains_array(value: &str, start: isize, length: usize, criteria: &[&str]) -> bool {
+    fn contains_array(value: &[char], start: isize, length: usize, criteria: &[&str]) -> bool {
         let result = false;
 
         if start < 0 {
@@ -247,19 +232,20 @@ impl DoubleMetaphone {
         let start = start as usize;
 
         if start + length <= value.len() {
-            let target: &str = &value[start..start + length];
-            return criteria.contains(&target);
+            let target = &value[start..start + length];
+            return criteria
+                .iter()
+                .any(|criterion| criterion.chars().eq(target.iter().copied()));
         }
 
         result
     }
 
-    fn char_at(value: &str, index: isize) -> Option<char> {
-        if index >= 0 && (index as usize) < value.len() {
-            return value[index as usize..].chars().next();
-        }
-
-        None
+    fn char_at(value: &[char], index: isize) -> Option<char> {
+        usize::try_from(index)
+            .ok()
+            .and_then(|index| value.get(index))
+            .copied()
     }
 
     /// Encode `value` and return the code.
@@ -284,9 +270,14 @@ impl DoubleMetaphone {
 
         let slavo_germanic = Self::is_slavo_germanic(value);
 
-        let mut iterator: Peekable<CharIndices<'_>> = value.char_indices().peekable();
+        let silent_start = SILENT_START.iter().any(|sl| value.starts_with(sl));
+
+        // Rules work on characters' positions.
+        let value: &[char] = &value.chars().collect::<Vec<char>>();
+
+        let mut iterator = value.iter().copied().enumerate();
         let mut char_index: Option<(usize, char)> = iterator.next();
-        if SILENT_START.iter().any(|sl| value.starts_with(sl)) {
+        if silent_start {
             char_index = iterator.next();
         }
 
@@ -390,7 +381,7 @@ impl DoubleMetaphone {
         result
     }
 
-    fn handle_c(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_c(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::condition_c0(value, index) {
             result.append_char('K', None);
             1
@@ -440,7 +431,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn condition_c0(value: &str, index: isize) -> bool {
+    fn condition_c0(value: &[char], index: isize) -> bool {
         if Self::contains(value, index, 4, vec!["CHIA"]) {
             return true;
         }
@@ -468,7 +459,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_ch(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_ch(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if index > 0 && Self::contains(value, index, 4, vec!["CHAE"]) {
             // Michael
             result.append_char('K', Some('X'));
@@ -489,7 +480,7 @@ impl DoubleMetaphone {
         1
     }
 
-    fn condition_ch0(value: &str, index: isize) -> bool {
+    fn condition_ch0(value: &[char], index: isize) -> bool {
         if index != 0 {
             return false;
         }
@@ -503,7 +494,7 @@ impl DoubleMetaphone {
         !Self::contains(value, 0, 5, vec!["CHORE"])
     }
 
-    fn condition_ch1(value: &str, index: isize) -> bool {
+    fn condition_ch1(value: &[char], index: isize) -> bool {
         (Self::contains(value, 0, 4, vec!["VAN", "VON"])
             || Self::contains(value, 0, 3, vec!["SCH"]))
             || (index > 1
@@ -514,7 +505,7 @@ impl DoubleMetaphone {
                     || (index as usize) + 1 == value.len() - 1))
     }
 
-    fn handle_cc(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_cc(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index + 2, 1, vec!["I", "E", "H"])
             && !Self::contains(value, index + 2, 2, vec!["HU"])
         {
@@ -536,7 +527,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_d(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_d(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index, 2, vec!["DG"]) {
             if Self::contains(value, index + 2, 1, vec!["I", "E", "Y"]) {
                 result.append_char('J', None);
@@ -555,7 +546,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_g(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -621,7 +612,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_gh(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_gh(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         // Unwrap is safe in the first if because index > 0
         if index > 0
             && !(is_vowel(
@@ -658,7 +649,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_h(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_h(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         //-- only keep if first & before vowel or between 2 vowels --//
         if (index == 0
             || is_vowel(
@@ -679,7 +670,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_j(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -725,7 +716,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_l(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_l(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::char_at(value, index + 1) == Some('L') {
             if Self::condition_l0(value, index) {
                 result.append_char_primary('L');
@@ -739,7 +730,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn condition_l0(value: &str, index: isize) -> bool {
+    fn condition_l0(value: &[char], index: isize) -> bool {
         if value.len() >= 3
             && (index as usize) == value.len() - 3
             && index > 0
@@ -755,7 +746,7 @@ impl DoubleMetaphone {
             && Self::contains(value, index - 1, 4, vec!["ALLE"])
     }
 
-    fn condition_m0(value: &str, index: isize) -> bool {
+    fn condition_m0(value: &[char], index: isize) -> bool {
         if Self::char_at(value, index + 1) == Some('M') {
             return true;
         }
@@ -766,7 +757,7 @@ impl DoubleMetaphone {
                 || Self::contains(value, index + 2, 2, vec!["ER"]))
     }
 
-    fn handle_p(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_p(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::char_at(value, index + 1) == Some('H') {
             result.append_char('F', None);
             1
@@ -781,7 +772,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_r(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -804,7 +795,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_s(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
@@ -867,7 +858,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_sc(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_sc(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::char_at(value, index + 2) == Some('H') {
             //-- Schlesinger's rule --//
             if Self::contains(
@@ -902,7 +893,7 @@ impl DoubleMetaphone {
         2
     }
 
-    fn handle_t(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_t(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index, 4, vec!["TION"])
             || Self::contains(value, index, 3, vec!["TIA", "TCH"])
         {
@@ -931,7 +922,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_w(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_w(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if Self::contains(value, index, 2, vec!["WR"]) {
             //-- can also be in middle of word --//
             result.append_char('R', None);
@@ -980,7 +971,7 @@ impl DoubleMetaphone {
         }
     }
 
-    fn handle_x(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
+    fn handle_x(value: &[char], result: &mut DoubleMetaphoneResult, index: isize) -> usize {
         if index == 0 {
             result.append_char('S', None);
             0
@@ -1001,7 +992,7 @@ impl DoubleMetaphone {
     }
 
     fn handle_z(
-        value: &str,
+        value: &[char],
         result: &mut DoubleMetaphoneResult,
         index: isize,
         slavo_germanic: bool,
-- 
2.43.0


From eba4aa376a1748da6e7ff666854d95a5be7a7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 09/22] fix: double metaphone doesn't allocate max_code_length
 upfront

---
 src/double_metaphone.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index f0e1e00..7e024b5 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -52,11 +52,12 @@ impl Display for DoubleMetaphoneResult {
 /// It contains both `primary` and `alternate` codes.
 impl DoubleMetaphoneResult {
     fn new(max_length: Option<usize>) -> Self {
-        // If no `max_length` is given, allocate resulting string with
+        // If no `max_length` is given, or a big one, allocate resulting string with
         // a capacity of 10. It should be sufficient without realloc.
+        let capacity = max_length.unwrap_or(10).min(10);
         Self {
-            primary: String::with_capacity(max_length.unwrap_or(10)),
-            alternate: String::with_capacity(max_length.unwrap_or(10)),
+            primary: String::with_capacity(capacity),
+            alternate: String::with_capacity(capacity),
             max_length,
         }
     }
-- 
2.43.0


From eb5564052113415f307540467cb1729afbedf352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 10/22] fix: double metaphone germanic 'ch' and final 'ier'
 rules follow the algorithm

---
 src/double_metaphone.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index 7e024b5..7254579 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -496,11 +496,11 @@ impl DoubleMetaphone {
     }
 
     fn condition_ch1(value: &[char], index: isize) -> bool {
-        (Self::contains(value, 0, 4, vec!["VAN", "VON"])
+        (Self::contains(value, 0, 4, vec!["VAN ", "VON "])
             || Self::contains(value, 0, 3, vec!["SCH"]))
             || (index > 1
                 && Self::contains(value, index - 2, 6, vec!["ORCHES", "ARCHIT", "ORCHID"]))
-            || (index > 1 && Self::contains(value, index + 2, 1, vec!["T", "S"]))
+            || Self::contains(value, index + 2, 1, vec!["T", "S"])
             || ((index == 0 || Self::contains(value, index - 1, 1, vec!["A", "O", "U", "E"]))
                 && (Self::contains_array(value, index + 2, 1, L_R_N_M_B_H_F_V_W_SPACE)
                     || (index as usize) + 1 == value.len() - 1))
@@ -778,8 +778,7 @@ impl DoubleMetaphone {
         index: isize,
         slavo_germanic: bool,
     ) -> usize {
-        if index > 3
-            && index == value.len() as isize - 1
+        if index == value.len() as isize - 1
             && !slavo_germanic
             && Self::contains(value, index - 2, 2, vec!["IE"])
             && !Self::contains(value, index - 4, 2, vec!["ME", "MA"])
-- 
2.43.0


From db6ebde320bcd1c8f95ada7f359ac69888307bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 11/22] fix: Daitch-Mokotoff patterns are measured in
 characters, not bytes

---
 src/daitch_mokotoff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index fac1414..4441772 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -82,8 +82,9 @@ impl Rule {
         part.split('|').map(|v| v.to_string()).collect()
     }
 
+    /// Pattern's length in characters.
     fn get_pattern_length(&self) -> usize {
-        self.pattern.len()
+        self.pattern.chars().count()
     }
 
     fn matches(&self, context: &str) -> bool {
@@ -96,8 +97,7 @@ impl Rule {
         }
 
         let next_index = self.get_pattern_length();
-        let next_char_is_vowel =
-            next_index < context.len() && is_vowel(context.chars().nth(next_index), false);
+        let next_char_is_vowel = is_vowel(context.chars().nth(next_index), false);
         if next_char_is_vowel {
             return &self.replacement_before_vowel;
         }
-- 
2.43.0


From 17aca5503f9867c497183bd69437e8ba1bfa77ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 12/22] fix: Daitch-Mokotoff codes are truncated by characters,
 not bytes

---
 src/daitch_mokotoff.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 4441772..983a630 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -47,7 +47,7 @@ impl Default for Branch<'_> {
 impl<'a> Branch<'a> {
     /// Finish matching [MAX_LENGTH] by appending `0`.
     fn finish(&mut self) {
-        while self.builder.len() < MAX_LENGTH {
+        for _ in self.builder.chars().count()..MAX_LENGTH {
             self.builder.push('0');
         }
     }
@@ -58,11 +58,9 @@ impl<'a> Branch<'a> {
             .map_or(true, |v| !v.ends_with(replacement))
             || append_force;
 
-        if append && self.builder.len() < MAX_LENGTH {
-            self.builder.push_str(replacement);
-            if self.builder.len() > MAX_LENGTH {
-                self.builder = self.builder[0..MAX_LENGTH].to_string();
-            }
+        if append {
+            let remaining = MAX_LENGTH.saturating_sub(self.builder.chars().count());
+            self.builder.extend(replacement.chars().take(remaining));
         }
 
         self.last_replacement = Some(replacement);
-- 
2.43.0


From be00c1bf4254769288f3c3a7be94300b65ac93c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 13/22] fix: Daitch-Mokotoff soundex doesn't return the same
 code twice

---
 src/daitch_mokotoff.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 983a630..a99decc 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -389,7 +389,10 @@ impl DaitchMokotoffSoundex {
         let mut result: Vec<String> = Vec::with_capacity(current_branches.len());
         for branch in current_branches.iter_mut() {
             branch.finish();
-            result.push(branch.builder.clone());
+            // Branches that only differ by their last replacement give the same code.
+            if !result.contains(&branch.builder) {
+                result.push(branch.builder.clone());
+            }
         }
 
         result
-- 
2.43.0


From c437f13e5b6ec589fe87aca45f5ee8e4a205208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 14/22] fix: a rule with an empty pattern is an error, not a
 panic

---
 src/beider_morse/rule.rs | 9 ++++++++-
 src/daitch_mokotoff.rs   | 5 +++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index cd26b8f..9e588ff 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -228,6 +228,14 @@ fn parse_rule(
         if let Ok((rm, (pattern, left_context, right_context, phoneme_expr))) =
             quadruplet().parse(remains)
         {
+            let ch = pattern.chars().next().ok_or_else(|| {
+                build_error(
+                    line_number,
+                    Some(filename.to_string()),
+                    remains,
+                    "Empty pattern".to_string(),
+                )
+            })?;
             remains = rm;
             let pattern_length_char = pattern.chars().count();
             let left_context = format!("{left_context}$");
@@ -252,7 +260,6 @@ fn parse_rule(
                 right_context,
                 phoneme,
             };
-            let ch = pattern.chars().next().unwrap();
             result.entry(ch).or_default().push(rule);
             continue;
         }
diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index a99decc..9884421 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -480,8 +480,9 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
             // Try quadruplet rule
             if let Ok((rm, quadruplet)) = quadruplet().parse(remains) {
                 let rule = Rule::try_from(quadruplet)?;
-                // There's always at least one char, the regex ensures that.
-                let ch = rule.pattern.chars().next().unwrap();
+                let ch = rule.pattern.chars().next().ok_or_else(|| {
+                    build_error(line_number, None, remains, "Empty pattern".to_string())
+                })?;
                 rules.entry(ch).or_default().push(rule);
                 remains = rm;
                 continue;
-- 
2.43.0


From c912f916e0177c18eeb3cc79a8ebd3671ae72ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 15/22] fix: Daitch-Mokotoff parse error gives the right line
 number after a multiline comment

---
 src/daitch_mokotoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 9884421..8aa4105 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -503,7 +503,7 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
 
             // Try multiline comment
             if let Ok((rm, ln)) = multiline_comment().parse(remains) {
-                line_number += ln;
+                line_number += ln - 1;
                 remains = rm;
                 continue;
             }
-- 
2.43.0


From ee80b0ef6978d83c73f7cab4ad2ca02b1c56c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 16/22] fix: a rule can't span several lines, malformed lines
 are no longer merged with the following one

---
 src/rules_parser.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/rules_parser.rs b/src/rules_parser.rs
index 40b3f06..74eeaa8 100644
--- a/src/rules_parser.rs
+++ b/src/rules_parser.rs
@@ -1,6 +1,6 @@
 use nom::branch::alt;
-use nom::bytes::complete::{is_not, tag, take_till1, take_until, take_while1};
-use nom::character::complete::{alpha1, anychar, char, crlf, space1};
+use nom::bytes::complete::{is_not, tag, take_till, take_till1, take_until, take_while1};
+use nom::character::complete::{alpha1, char, crlf, none_of, space1};
 use nom::combinator::{eof, map, map_opt, opt, value};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
 
@@ -68,8 +68,12 @@ pub fn end_of_line<'a>(
 /// Recognize something between two double quote (`"..."`).
 fn part<'a>() -> impl nom::Parser<&'a str, Output = &'a str, Error = nom::error::Error<&'a str>> {
     // There is only "\"" in rules, so to keep thing simple, we will just alt between
-    // tag("\\\"") and take_until("\"").
-    delimited(char('"'), alt((tag("\\\""), take_until("\""))), char('"'))
+    // tag("\\\"") and everything until '"'. A rule is on one line.
+    delimited(
+        char('"'),
+        alt((tag("\\\""), take_till(|ch| ch == '"' || ch == '\n'))),
+        char('"'),
+    )
 }
 
 /// Recognize a quadruplet rule (`"..." "..." "..." "..."`). It could be followed by a single line comment.
@@ -91,7 +95,10 @@ pub fn quadruplet<'a>() -> impl nom::Parser<
 /// Recognize a Daitch-Mokotoff folding rule (`a=b`). It could be followed by a single line comment.
 pub fn folding<'a>(
 ) -> impl nom::Parser<&'a str, Output = (char, char), Error = nom::error::Error<&'a str>> {
-    terminated(separated_pair(anychar, char('='), anychar), end_of_line())
+    terminated(
+        separated_pair(none_of("\r\n"), char('='), none_of("\r\n")),
+        end_of_line(),
+    )
 }
 
 /// Recognize a Beider-Morse language detection rule. It could be followed by a single line comment.
@@ -99,8 +106,8 @@ pub fn lang<'a>(
 ) -> impl nom::Parser<&'a str, Output = (&'a str, &'a str, bool), Error = nom::error::Error<&'a str>>
 {
     (
-        terminated(take_till1(|ch| ch == ' '), char(' ')),
-        terminated(take_till1(|ch| ch == ' '), char(' ')),
+        terminated(take_till1(|ch| ch == ' ' || ch == '\n'), char(' ')),
+        terminated(take_till1(|ch| ch == ' ' || ch == '\n'), char(' ')),
         terminated(alt((boolean_true(), boolean_false())), end_of_line()),
     )
 }
-- 
2.43.0


From 4d088fb7c21a854d6ae1755e5a024d6376c4d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 17/22] fix: Beider-Morse parse errors give the file and the
 line that is wrong

---
 src/beider_morse/lang.rs | 5 ++---
 src/beider_morse/rule.rs | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index 5659aee..53175f7 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -119,11 +119,10 @@ fn parse_lang(
         }
 
         if let Ok((rm, (pattern, langs, accept_on_match))) = lang().parse(remains) {
-            remains = rm;
-
             let pattern: Regex = Regex::new(pattern).map_err(|error| {
                 build_error(line_number, filename.clone(), remains, error.to_string())
             })?;
+            remains = rm;
             let langs: BTreeSet<String> =
                 BTreeSet::from_iter(langs.split('+').map(|v| v.to_string()));
             rules.push(LangRule {
@@ -138,7 +137,7 @@ fn parse_lang(
         // Everything fails, then return an error...
         return Err(build_error(
             line_number,
-            None,
+            filename,
             remains,
             "Can't parse line for language detection".to_string(),
         ));
diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index 9e588ff..55542df 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -272,7 +272,6 @@ fn parse_rule(
 
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
-            remains = rm;
             let rules = parse_rule(resolver, include_filename).map_err(|error| {
                 if let PhoneticError::BMError(error) = error.clone() {
                     build_error(
@@ -285,6 +284,7 @@ fn parse_rule(
                     error
                 }
             })?;
+            remains = rm;
             result.extend(rules);
             continue;
         }
-- 
2.43.0


From 62c36625733a303aaefe470e3c15f04e136a5fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 18/22] fix: a missing Beider-Morse languages file is an error,
 not a panic

---
 src/beider_morse/lang.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index 53175f7..8cee278 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -153,7 +153,9 @@ fn build_langs(directory: &Path, languages_set: &Languages) -> Result<Langs, Pho
     let mut langs: BTreeMap<NameType, Lang> = BTreeMap::new();
 
     for name_type in all::<NameType>() {
-        let languages = languages_set.get(&name_type).unwrap();
+        let languages = languages_set
+            .get(&name_type)
+            .ok_or_else(|| BMError::UnknownNameType(name_type.language_filename()))?;
         let filename = directory.join(format!("{name_type}_lang.txt"));
         let content = std::fs::read_to_string(filename.clone())
             .map_err(|error| PhoneticError::BMError(BMError::from(error)))?;
-- 
2.43.0


From de46651dc750616012e26e78f82c07f7643e3ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 19/22] fix: a Beider-Morse languages file without 'any' is an
 error, not a panic when encoding

---
 src/beider_morse/rule.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index 55542df..d8b5192 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -316,6 +316,12 @@ fn build_rules(resolver: Resolver, languages: &Languages) -> Result<Rules, Phone
         let l = languages
             .get(&name_type)
             .ok_or_else(|| BMError::UnknownNameType(name_type.language_filename()))?;
+        // Rules for `any` are used when there is more than one language.
+        if !l.contains("any") {
+            return Err(PhoneticError::BMError(BMError::ParseConfiguration(
+                format!("Missing language any in {}", name_type.language_filename()),
+            )));
+        }
         for rule_type in all::<PrivateRuleType>() {
             for language in l {
                 let filename = format!("{name_type}_{rule_type}_{language}");
-- 
2.43.0


From aa5f0dfe906b3d1c51a5335acaf7346257e9fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 20/22] fix: a cycle of Beider-Morse includes is an error, not
 a stack overflow

---
 src/beider_morse/rule.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index d8b5192..370792a 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -215,7 +215,23 @@ fn parse_rule(
     resolver: &Resolver,
     filename: &str,
 ) -> Result<BTreeMap<char, Vec<Rule>>, PhoneticError> {
+    parse_rule_file(resolver, filename, &mut Vec::new())
+}
+
+/// Parse a rule file. `parents` are the files that are being parsed and
+/// that lead to this one through `#include`.
+fn parse_rule_file(
+    resolver: &Resolver,
+    filename: &str,
+    parents: &mut Vec<String>,
+) -> Result<BTreeMap<char, Vec<Rule>>, PhoneticError> {
+    if parents.iter().any(|parent| parent == filename) {
+        return Err(PhoneticError::BMError(BMError::BadRule(format!(
+            "{filename} includes itself"
+        ))));
+    }
     let content = resolver.resolve(filename)?;
+    parents.push(filename.to_string());
     let mut result: BTreeMap<char, Vec<Rule>> = BTreeMap::new();
     let mut remains = content.as_str();
     let mut line_number: usize = 0;
@@ -272,7 +288,7 @@ fn parse_rule(
 
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
-            let rules = parse_rule(resolver, include_filename).map_err(|error| {
+            let rules = parse_rule_file(resolver, include_filename, parents).map_err(|error| {
                 if let PhoneticError::BMError(error) = error.clone() {
                     build_error(
                         line_number,
@@ -305,6 +321,7 @@ fn parse_rule(
         ));
     }
 
+    parents.pop();
     Ok(result)
 }
 
-- 
2.43.0


From 115f8022d702964fbccb3657e41d476b03b48052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 21/22] fix: Beider-Morse encoding with an unknown language
 doesn't panic

---
 src/beider_morse/engine.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index ecadcde..50a9179 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -198,10 +198,16 @@ impl PhoneticEngine<'_> {
         } else {
             "any"
         };
-        let rules = self
-            .rules
-            .rules(self.name_type, PrivateRuleType::Rules, l)
-            .unwrap();
+        // If there is no rule for the language, use those for any language.
+        let (l, rules) = match self.rules.rules(self.name_type, PrivateRuleType::Rules, l) {
+            Some(rules) => (l, rules),
+            None => (
+                "any",
+                self.rules
+                    .rules(self.name_type, PrivateRuleType::Rules, "any")
+                    .unwrap(),
+            ),
+        };
         let final_rules1 = self
             .rules
             .rules(self.name_type, self.rule_type, "common")
-- 
2.43.0


From 2c1d168dd011b69df9adec3227cef35b91fa4d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 22/22] fix: Beider-Morse final rules merge the languages of
 the phonemes they produce

---
 src/beider_morse/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index 50a9179..79f94aa 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -170,7 +170,7 @@ impl PhoneticEngine<'_> {
 
             for new_phoneme in sub_builder.phonemes {
                 if let Some(old_phoneme) = phonemes.get(&new_phoneme) {
-                    let merge_phoneme = old_phoneme.merge_with_language(phoneme.languages());
+                    let merge_phoneme = old_phoneme.merge_with_language(new_phoneme.languages());
                     // Since equality is on text, replace should work fine
                     phonemes.replace(merge_phoneme);
                 } else {
-- 
2.43.0

