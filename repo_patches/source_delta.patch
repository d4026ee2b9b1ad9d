From f6c8a82e6c78d6dff8b941aa0a1d232cf5005215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:36 +0000
Subject: [PATCH 01/20] verif hook: resolve std to a controllable re-export
 under cfg(sds_verif)

---
 sds/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sds/src/lib.rs b/sds/src/lib.rs
index 39df6e4..6a8c620 100644
--- a/sds/src/lib.rs
+++ b/sds/src/lib.rs
@@ -2,6 +2,13 @@
 // override with `#[allow(clippy::print_stdout)]`.
 #![deny(clippy::print_stdout)]
 #![allow(clippy::new_without_default)]
+// `sds_verif` is only ever set by the verification harness
+#![allow(unexpected_cfgs)]
+
+// Verification builds only: resolve `std` to a re-export of the standard library whose
+// synchronization primitives are driven by a controlled scheduler.
+#[cfg(sds_verif)]
+extern crate sds_verif_std as std;
 
 mod encoding;
 mod event;
-- 
2.43.0


From 5e77eb6d82dff7c8f87a07a1e835c4507dab3ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:38 +0000
Subject: [PATCH 02/20] fix: excluded keywords next to a '-' or '_' just
 outside the search window

---
 .../proximity_keywords/excluded_keywords.rs    | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sds/src/proximity_keywords/excluded_keywords.rs b/sds/src/proximity_keywords/excluded_keywords.rs
index 1005c0c..74086c2 100644
--- a/sds/src/proximity_keywords/excluded_keywords.rs
+++ b/sds/src/proximity_keywords/excluded_keywords.rs
@@ -46,13 +46,21 @@ fn contains_excluded_keyword_match(
     // at least 1 more char is always available since empty matches aren't allowed
     let prefix_end = next_char_index(content, match_start).unwrap_or(content.len());
 
-    let stripped_prefix =
-        content[prefix_start_info.start..prefix_end].replace(EXCLUDED_KEYWORDS_REMOVED_CHARS, "");
+    let prefix = &content[prefix_start_info.start..prefix_end];
+    let stripped_prefix = prefix.replace(EXCLUDED_KEYWORDS_REMOVED_CHARS, "");
 
-    // Subtracting one to exclude the last char which was added only for boundary checking
-    let span_end = prev_char_index(&stripped_prefix, stripped_prefix.len()).unwrap_or(0);
+    // The chars added for boundary checking must not be part of the search. They are already gone
+    // if they are among the removed chars.
+    let span_end = if prefix.ends_with(EXCLUDED_KEYWORDS_REMOVED_CHARS) {
+        stripped_prefix.len()
+    } else {
+        // Subtracting one to exclude the last char which was added only for boundary checking
+        prev_char_index(&stripped_prefix, stripped_prefix.len()).unwrap_or(0)
+    };
 
-    let span_start = if prefix_start_info.used_all_chars {
+    let span_start = if prefix_start_info.used_all_chars
+        && !prefix.starts_with(EXCLUDED_KEYWORDS_REMOVED_CHARS)
+    {
         // an extra char was added for assertion checking, so it needs to be removed here
         next_char_index(&stripped_prefix, 0).unwrap_or(stripped_prefix.len())
     } else {
-- 
2.43.0


From 93d74f1cec1b8d10edd0557f8061bac08ac27565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:04 +0000
Subject: [PATCH 03/20] fix: a match may start where its included keyword
 starts

---
 sds/src/proximity_keywords/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index 40cdf98..d7853c5 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -128,7 +128,7 @@ pub fn is_index_within_prefix(
     target: usize,
     prefix_size: usize,
 ) -> bool {
-    debug_assert!(target > prefix_start);
+    debug_assert!(target >= prefix_start);
     debug_assert!(content.is_char_boundary(prefix_start));
     debug_assert!(content.is_char_boundary(target));
 
-- 
2.43.0


From f177406b920a15447f1a2be8e94ad77a6f03ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:04 +0000
Subject: [PATCH 04/20] fix: find the last character of multi-byte path fields
 and keywords when standardizing

---
 sds/src/proximity_keywords/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index d7853c5..f497d94 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -326,7 +326,7 @@ where
         return;
     };
 
-    let kw_length = characters.len();
+    let kw_length = characters.chars().count();
 
     let mut previous = char;
     for (i, current) in characters_iter.enumerate() {
-- 
2.43.0


From c210c65c705078fb25f947eabd2c6a26e151ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:24 +0000
Subject: [PATCH 05/20] fix: consider every included keyword before a match,
 not only those after the previous match

---
 sds/src/scanner/regex_rule/compiled.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sds/src/scanner/regex_rule/compiled.rs b/sds/src/scanner/regex_rule/compiled.rs
index 9623b3e..c60ab97 100644
--- a/sds/src/scanner/regex_rule/compiled.rs
+++ b/sds/src/scanner/regex_rule/compiled.rs
@@ -149,13 +149,15 @@ impl RegexCompiledRule {
         }
 
         let mut included_keyword_matches = included_keywords.keyword_matches(content);
+        // The end of the last match that was emitted. Matches from different keywords don't overlap.
+        let mut last_match_end = 0;
 
         'included_keyword_search: while let Some(included_keyword_match_start) =
             included_keyword_matches.next(regex_caches)
         {
             let true_positive_search = self.true_positive_matches(
                 content,
-                included_keyword_match_start,
+                included_keyword_match_start.max(last_match_end),
                 regex_caches.get(&self.regex),
                 false,
                 exclusion_check,
@@ -169,11 +171,10 @@ impl RegexCompiledRule {
                     true_positive_match.start,
                     included_keywords.look_ahead_character_count,
                 ) {
-                    // The match start might be further than the current start, so some chars
-                    // can be skipped before the next included keyword scanning. The start
-                    // is used instead of the end since the included keyword can overlap with
-                    // a previous match (maybe this can be removed in the future?)
-                    included_keyword_matches.skip_to(true_positive_match.start);
+                    // Keywords before this match can't be skipped, since they may be close enough
+                    // to a later match that is too far from the current keyword. Only the search
+                    // for matches can be resumed after this one.
+                    last_match_end = true_positive_match.end;
                     match_emitter.emit(true_positive_match);
 
                     // Continue search since another true positive could potentially be found within the same prefix
-- 
2.43.0


From 87e983ebe547e85e9afd21973f1325a4ee51683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:58 +0000
Subject: [PATCH 06/20] fix: an NHS number has exactly ten digits

---
 sds/src/secondary_validation/nhs_check_digit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sds/src/secondary_validation/nhs_check_digit.rs b/sds/src/secondary_validation/nhs_check_digit.rs
index c13125b..bb56541 100644
--- a/sds/src/secondary_validation/nhs_check_digit.rs
+++ b/sds/src/secondary_validation/nhs_check_digit.rs
@@ -2,6 +2,8 @@ use crate::secondary_validation::{get_previous_digit, Validator};
 
 pub struct NhsCheckDigit;
 
+const NHS_NUMBER_LENGTH: usize = 10;
+
 fn nhs_multiplier_from_number_idx(index: usize) -> u32 {
     11 - ((index + 1) as u32)
 }
@@ -17,7 +19,7 @@ impl Validator for NhsCheckDigit {
         let mut check_digit = 0;
 
         while let Some(digit) = get_previous_digit(&mut input_iter) {
-            if nb_digit > 10 {
+            if nb_digit >= NHS_NUMBER_LENGTH {
                 return false;
             }
             if nb_digit < 9 {
@@ -29,6 +31,10 @@ impl Validator for NhsCheckDigit {
             nb_digit += 1;
         }
 
+        if nb_digit != NHS_NUMBER_LENGTH {
+            return false;
+        }
+
         // Divide the total_sum by 11 and get the remainder
         let remainder = total_sum % 11;
 
-- 
2.43.0


From 134ff1938f7586befb68bc45048480a3b2408099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:58 +0000
Subject: [PATCH 07/20] fix: pad the base62 checksum of GitHub tokens to six
 characters

---
 sds/src/secondary_validation/github_token_checksum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sds/src/secondary_validation/github_token_checksum.rs b/sds/src/secondary_validation/github_token_checksum.rs
index e26375b..83e7aba 100644
--- a/sds/src/secondary_validation/github_token_checksum.rs
+++ b/sds/src/secondary_validation/github_token_checksum.rs
@@ -22,7 +22,8 @@ impl Validator for GithubTokenChecksum {
 
         // extract the payload (everything except the last 6 chars)
         let computed_checksum = crc32fast::hash(last_part[..last_part.len() - 6].as_bytes());
-        let computed_checksum_b62 = base62::encode(computed_checksum);
+        // smaller checksums are padded with zeros
+        let computed_checksum_b62 = format!("{:0>6}", base62::encode(computed_checksum));
         // check that the crc is the last 6 chars
         computed_checksum_b62 == last_part[last_part.len() - 6..]
     }
-- 
2.43.0


From f935bcba1ef7db197111c013d405ed0b7c129d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:51 +0000
Subject: [PATCH 08/20] fix: reject patterns that can match an empty span in a
 non-empty text

---
 sds/src/validation.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/sds/src/validation.rs b/sds/src/validation.rs
index 89921b6..9eb44c0 100644
--- a/sds/src/validation.rs
+++ b/sds/src/validation.rs
@@ -1,6 +1,7 @@
 use crate::normalization::rust_regex_adapter::{convert_to_rust_regex, QUANTIFIER_LIMIT};
 use crate::parser::error::ParseError;
 use regex_automata::meta::{self};
+use regex_syntax::hir::{Hir, HirKind};
 use thiserror::Error;
 
 #[derive(Debug, PartialEq, Eq, Error)]
@@ -65,12 +66,31 @@ pub fn validate_and_create_regex(input: &str) -> Result<meta::Regex, RegexValida
     // This validates that the syntax is valid and normalizes behavior.
     let converted_pattern = convert_to_rust_regex(input)?;
     let regex = build_regex(&converted_pattern, REGEX_COMPLEXITY_LIMIT)?;
-    if regex.is_match("") {
+    if can_match_empty_span(&converted_pattern)? {
         return Err(RegexValidationError::MatchesEmptyString);
     }
     Ok(regex)
 }
 
+/// Whether a match can be empty somewhere in some text. This is not the same as matching the
+/// empty string: `\b` doesn't match "", but it has empty matches in any text with a word.
+fn can_match_empty_span(converted_pattern: &str) -> Result<bool, RegexValidationError> {
+    fn can_be_empty(hir: &Hir) -> bool {
+        match hir.kind() {
+            HirKind::Empty | HirKind::Look(_) => true,
+            HirKind::Literal(_) | HirKind::Class(_) => false,
+            HirKind::Repetition(repetition) => repetition.min == 0 || can_be_empty(&repetition.sub),
+            HirKind::Capture(capture) => can_be_empty(&capture.sub),
+            HirKind::Concat(list) => list.iter().all(can_be_empty),
+            HirKind::Alternation(list) => list.iter().any(can_be_empty),
+        }
+    }
+
+    regex_syntax::parse(converted_pattern)
+        .map(|hir| can_be_empty(&hir))
+        .map_err(|_| RegexValidationError::InvalidSyntax)
+}
+
 fn is_regex_within_complexity_limit(
     converted_pattern: &str,
     complexity_limit: usize,
-- 
2.43.0


From 62c347db730d0e45deda0eccacb013eb4aa5e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:51 +0000
Subject: [PATCH 09/20] fix: quantifiers too large for an integer exceed the
 quantifier limit

---
 sds/src/parser/regex_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sds/src/parser/regex_parser.rs b/sds/src/parser/regex_parser.rs
index 391d042..180eba2 100644
--- a/sds/src/parser/regex_parser.rs
+++ b/sds/src/parser/regex_parser.rs
@@ -525,8 +525,8 @@ fn hex_digit(input: Input) -> ParseResult<char> {
 
 fn integer(input: Input) -> ParseResult<u32> {
     let (input, digits) = digit1(input)?;
-    let value =
-        u32::from_str(digits.value).map_err(|_| nom::Err::Error(ParseError::InvalidSyntax))?;
+    // Only digits, so this can only fail on overflow, which is far above any allowed value.
+    let value = u32::from_str(digits.value).unwrap_or(u32::MAX);
     Ok((input, value))
 }
 
-- 
2.43.0


From b3e723465452f583e734721cf7a3f97127d7fb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:30 +0000
Subject: [PATCH 10/20] fix: scanning a matching JSON number or boolean
 panicked instead of redacting it

---
 sds/src/event_json.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sds/src/event_json.rs b/sds/src/event_json.rs
index 3b56401..6e7bab1 100644
--- a/sds/src/event_json.rs
+++ b/sds/src/event_json.rs
@@ -56,6 +56,13 @@ impl Event for serde_json::Value {
             serde_json::Value::String(s) => {
                 (visit)(s);
             }
+            serde_json::Value::Bool(_) | serde_json::Value::Number(_) => {
+                // These are scanned as strings, so a mutated value is replaced by a string
+                let mut s = value.to_string();
+                if (visit)(&mut s) {
+                    *value = serde_json::Value::String(s);
+                }
+            }
             _ => panic!("unknown value"),
         };
     }
-- 
2.43.0


From 54749910e00645d57b3308c552010216e21cbb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:54 +0000
Subject: [PATCH 11/20] fix: emit each match once when keywords match both the
 content and the path

---
 sds/src/scanner/regex_rule/compiled.rs | 66 +++++++++++---------------
 1 file changed, 29 insertions(+), 37 deletions(-)

diff --git a/sds/src/scanner/regex_rule/compiled.rs b/sds/src/scanner/regex_rule/compiled.rs
index c60ab97..c45fa09 100644
--- a/sds/src/scanner/regex_rule/compiled.rs
+++ b/sds/src/scanner/regex_rule/compiled.rs
@@ -148,6 +148,35 @@ impl RegexCompiledRule {
             return;
         }
 
+        if should_kws_match_event_paths {
+            let input = Input::new(content);
+            if self
+                .regex
+                .search_with(regex_caches.get(&self.regex), &input)
+                .is_none()
+            {
+                return;
+            }
+
+            // If the keywords match the path, keywords in the content don't matter. This is checked
+            // first to make sure each match is only emitted once.
+            if contains_keyword_in_path(&path.sanitize(), &included_keywords.keywords_pattern) {
+                let true_positive_search = self.true_positive_matches(
+                    content,
+                    0,
+                    regex_caches.get(&self.regex),
+                    false,
+                    exclusion_check,
+                    excluded_matches,
+                );
+
+                for string_match in true_positive_search {
+                    match_emitter.emit(string_match);
+                }
+                return;
+            }
+        }
+
         let mut included_keyword_matches = included_keywords.keyword_matches(content);
         // The end of the last match that was emitted. Matches from different keywords don't overlap.
         let mut last_match_end = 0;
@@ -197,43 +226,6 @@ impl RegexCompiledRule {
             // to continue scanning for included keywords.
             break;
         }
-
-        if should_kws_match_event_paths {
-            let mut has_verified_kws_in_path: Option<bool> = None;
-
-            {
-                let input = Input::new(content);
-                if self
-                    .regex
-                    .search_with(regex_caches.get(&self.regex), &input)
-                    .is_some()
-                {
-                    has_verified_kws_in_path = Some(contains_keyword_in_path(
-                        &path.sanitize(),
-                        &included_keywords.keywords_pattern,
-                    ))
-                }
-            };
-
-            if has_verified_kws_in_path.is_none() || has_verified_kws_in_path.is_some_and(|x| !x) {
-                // We don't deal with true positives is in this case, because keywords don't match the path.
-                // Return early.
-                return;
-            }
-
-            let true_positive_search = self.true_positive_matches(
-                content,
-                0,
-                regex_caches.get(&self.regex),
-                false,
-                exclusion_check,
-                excluded_matches,
-            );
-
-            for string_match in true_positive_search {
-                match_emitter.emit(string_match);
-            }
-        }
     }
 
     fn true_positive_matches<'a>(
-- 
2.43.0


From abc8360f3c855b6e0de365a300e23a1295f64f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:54 +0000
Subject: [PATCH 12/20] fix: count the regex cache size when a regex is stored,
 not only when it is removed

---
 sds/src/scanner/regex_rule/regex_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sds/src/scanner/regex_rule/regex_store.rs b/sds/src/scanner/regex_rule/regex_store.rs
index 24d9681..1d50b53 100644
--- a/sds/src/scanner/regex_rule/regex_store.rs
+++ b/sds/src/scanner/regex_rule/regex_store.rs
@@ -127,10 +127,12 @@ impl RegexStore {
             let shared_regex = Arc::new(regex);
 
             let regex_cache = shared_regex.create_cache();
+            let cache_size = regex_cache.memory_usage() + std::mem::size_of::<Cache>();
             let cache_key = self.key_map.insert(WeakSharedRegex {
                 regex: Arc::downgrade(&shared_regex),
-                cache_size: regex_cache.memory_usage() + std::mem::size_of::<Cache>(),
+                cache_size,
             });
+            GLOBAL_STATS.add_total_regex_cache(cache_size as i64);
             if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key) {
                 // cleanup old value (which must be a "dead" reference since `get` returned None)
                 if let Some(weak_ref) = self.key_map.remove(old_cache_key) {
-- 
2.43.0


From ea5c63cf90216c9021bc67313d731a76aa67baa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:51 +0000
Subject: [PATCH 13/20] fix: don't share compiled regexes between keywords and
 rules with the same pattern

---
 sds/src/proximity_keywords/mod.rs         |  7 ++++---
 sds/src/scanner/regex_rule/mod.rs         |  2 +-
 sds/src/scanner/regex_rule/regex_store.rs | 22 +++++++++++++++++++++-
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index f497d94..16fa920 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -7,7 +7,7 @@ pub use crate::proximity_keywords::included_keywords::*;
 use crate::proximity_keywords::ProximityKeywordsValidationError::{
     EmptyKeyword, InvalidLookAheadCharacterCount, KeywordTooLong, TooManyKeywords,
 };
-use crate::scanner::regex_rule::{get_memoized_regex, SharedRegex};
+use crate::scanner::regex_rule::SharedRegex;
 use crate::{Labels, ProximityKeywordsConfig};
 use metrics::counter;
 use regex_automata::{meta, Input};
@@ -230,8 +230,9 @@ fn compile_keywords(
         .syntax(regex_automata::util::syntax::Config::default().case_insensitive(true));
 
     Ok(Some((
-        get_memoized_regex(&content_pattern, |p| regex_builder.build(p)).unwrap(),
-        get_memoized_regex(&path_pattern, |p| regex_builder.build(p)).unwrap(),
+        SharedRegex::get_memoized_for_keywords(&content_pattern, |p| regex_builder.build(p))
+            .unwrap(),
+        SharedRegex::get_memoized_for_keywords(&path_pattern, |p| regex_builder.build(p)).unwrap(),
     )))
 }
 
diff --git a/sds/src/scanner/regex_rule/mod.rs b/sds/src/scanner/regex_rule/mod.rs
index ba26683..e13eabe 100644
--- a/sds/src/scanner/regex_rule/mod.rs
+++ b/sds/src/scanner/regex_rule/mod.rs
@@ -4,4 +4,4 @@ mod regex_cache_store;
 mod regex_store;
 
 pub use regex_cache_store::{access_regex_caches, RegexCaches};
-pub use regex_store::{get_memoized_regex, SharedRegex};
+pub use regex_store::SharedRegex;
diff --git a/sds/src/scanner/regex_rule/regex_store.rs b/sds/src/scanner/regex_rule/regex_store.rs
index 1d50b53..d63d8b4 100644
--- a/sds/src/scanner/regex_rule/regex_store.rs
+++ b/sds/src/scanner/regex_rule/regex_store.rs
@@ -27,11 +27,31 @@ impl Deref for SharedRegex {
     }
 }
 
+impl SharedRegex {
+    /// Same as `get_memoized_regex`, for regexes that search for keywords. These are compiled with
+    /// different options (e.g. case-insensitive) so they can't be shared with rules, even if the
+    /// patterns are the same.
+    pub fn get_memoized_for_keywords<T>(
+        pattern: &str,
+        regex_factory: impl FnOnce(&str) -> Result<regex_automata::meta::Regex, T>,
+    ) -> Result<Self, T> {
+        get_memoized_regex_with_custom_store(
+            &format!("keywords:{pattern}"),
+            |_| regex_factory(pattern),
+            &REGEX_STORE,
+        )
+    }
+}
+
 pub fn get_memoized_regex<T>(
     pattern: &str,
     regex_factory: impl FnOnce(&str) -> Result<regex_automata::meta::Regex, T>,
 ) -> Result<SharedRegex, T> {
-    get_memoized_regex_with_custom_store(pattern, regex_factory, &REGEX_STORE)
+    get_memoized_regex_with_custom_store(
+        &format!("rule:{pattern}"),
+        |_| regex_factory(pattern),
+        &REGEX_STORE,
+    )
 }
 
 fn get_memoized_regex_with_custom_store<T>(
-- 
2.43.0


From 4563321661ed1512f4cb2ed85c34128d6145df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:30 +0000
Subject: [PATCH 14/20] fix: set the scanner count gauge while holding the
 count, so concurrent updates can't leave a stale value

---
 sds/src/stats.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sds/src/stats.rs b/sds/src/stats.rs
index 51bd129..1ad4914 100644
--- a/sds/src/stats.rs
+++ b/sds/src/stats.rs
@@ -1,6 +1,7 @@
 use lazy_static::lazy_static;
 use metrics::{counter, gauge, Counter, Gauge};
 use std::sync::atomic::{AtomicI64, Ordering};
+use std::sync::Mutex;
 
 lazy_static! {
     pub static ref GLOBAL_STATS: Stats = Stats::new();
@@ -10,9 +11,10 @@ pub struct Stats {
     pub scanner_creations: Counter,
     pub scanner_deletions: Counter,
 
-    // Count of total scanners. The actual count is calculated with an atomic
-    // since some metrics exporters don't support incrementing gauges (e.g. statsd)
-    total_scanners_count: AtomicI64,
+    // Count of total scanners. The actual count is calculated here since some metrics
+    // exporters don't support incrementing gauges (e.g. statsd). The lock is held while the
+    // gauge is set, so that the last value set is always the latest count.
+    total_scanners_count: Mutex<i64>,
     total_scanners: Gauge,
 
     total_regexes: Gauge,
@@ -26,7 +28,7 @@ impl Stats {
         Self {
             scanner_creations: counter!("scanner.creations"),
             scanner_deletions: counter!("scanner.deletions"),
-            total_scanners_count: AtomicI64::new(0),
+            total_scanners_count: Mutex::new(0),
             total_scanners: gauge!("scanner.total_count"),
             total_regexes: gauge!("scanner.total_regexes"),
             total_regex_cache_size_count: AtomicI64::new(0),
@@ -43,10 +45,9 @@ impl Stats {
     }
 
     fn update_total_scanners(&self, delta: i64) {
-        let prev_value = self
-            .total_scanners_count
-            .fetch_add(delta, Ordering::Relaxed);
-        self.total_scanners.set((prev_value + delta) as f64);
+        let mut count = self.total_scanners_count.lock().unwrap();
+        *count += delta;
+        self.total_scanners.set(*count as f64);
     }
 
     pub fn set_total_regexes(&self, total_regexes: usize) {
-- 
2.43.0


From 84b88c1b112e37ff1c20ec8421ee9c67fe280420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:33 +0000
Subject: [PATCH 15/20] verif hook: resolve std to a controllable re-export in
 the Go binding under cfg(sds_verif)

---
 sds-go/rust/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sds-go/rust/src/lib.rs b/sds-go/rust/src/lib.rs
index 4b1a3fa..f67fed2 100644
--- a/sds-go/rust/src/lib.rs
+++ b/sds-go/rust/src/lib.rs
@@ -1,6 +1,13 @@
 // This blocks accidental use of `println`. If one is actually needed, you can
 // override with `#[allow(clippy::print_stdout)]`.
 #![deny(clippy::print_stdout)]
+// `sds_verif` is only ever set by the verification harness
+#![allow(unexpected_cfgs)]
+
+// Verification builds only: resolve `std` to a re-export of the standard library whose
+// synchronization primitives are driven by a controlled scheduler.
+#[cfg(sds_verif)]
+extern crate sds_verif_std as std;
 
 mod native;
 
-- 
2.43.0


From e1029ef687fa4749466207d1f97b5dc42589afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:40 +0000
Subject: [PATCH 16/20] fix: validate_matches keeps the matches of rules
 without a validator

---
 sds/src/scanner/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sds/src/scanner/mod.rs b/sds/src/scanner/mod.rs
index 6572883..28ca789 100644
--- a/sds/src/scanner/mod.rs
+++ b/sds/src/scanner/mod.rs
@@ -394,6 +394,8 @@ impl Scanner {
         }
         // Create MatchValidatorRuleMatch per match_validator_type to pass it to each match_validator
         let mut match_validator_rule_match_per_type = AHashMap::new();
+        // Matches of rules without a validation type are kept as they are
+        let mut unvalidated_rule_matches = vec![];
         for rule_match in rule_matches.drain(..) {
             let rule = &self.rules[rule_match.rule_index];
             if let Some(match_validation_type) = rule.get_internal_match_validation_type() {
@@ -404,6 +406,8 @@ impl Scanner {
                     .get_mut(match_validation_type)
                     .unwrap()
                     .push(rule_match);
+            } else {
+                unvalidated_rule_matches.push(rule_match);
             }
         }
 
@@ -419,7 +423,8 @@ impl Scanner {
             },
         );
 
-        // Refill the rule_matches with the validated matches
+        // Refill the rule_matches with all the matches
+        rule_matches.append(&mut unvalidated_rule_matches);
         for (_, mut matches) in match_validator_rule_match_per_type {
             rule_matches.append(&mut matches);
         }
-- 
2.43.0


From 696834512778ddf297b39e187f7e4af5ba766b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:02 +0000
Subject: [PATCH 17/20] fix: a match is validated with its own rule's HTTP
 configuration

---
 sds/src/match_validation/http_validator.rs | 34 ++++++++++++++++------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/sds/src/match_validation/http_validator.rs b/sds/src/match_validation/http_validator.rs
index 19d2e59..d19ae54 100644
--- a/sds/src/match_validation/http_validator.rs
+++ b/sds/src/match_validation/http_validator.rs
@@ -1,5 +1,5 @@
 use super::{
-    config::{HttpValidatorConfig, HttpValidatorConfigBuilder, RequestHeader},
+    config::{HttpValidatorConfig, HttpValidatorConfigBuilder, MatchValidationType, RequestHeader},
     match_validator::MatchValidator,
 };
 use crate::{match_validation::config::HttpMethod, CompiledRuleDyn, MatchStatus, RuleMatch};
@@ -21,16 +21,31 @@ impl HttpValidator {
     pub fn new_from_config(config: HttpValidatorConfig) -> Self {
         HttpValidator { config }
     }
-    fn handle_reqwest_response(&self, match_status: &mut MatchStatus, val: &Response) {
+    // Rules with the same endpoints share a validator, the rest of the config is the one of the rule that matched
+    fn get_config<'a>(
+        &'a self,
+        rule_match: &RuleMatch,
+        scanner_rules: &'a [Box<dyn CompiledRuleDyn>],
+    ) -> &'a HttpValidatorConfig {
+        match scanner_rules[rule_match.rule_index].get_match_validation_type() {
+            Some(MatchValidationType::CustomHttp(config)) => config,
+            _ => &self.config,
+        }
+    }
+    fn handle_reqwest_response(
+        config: &HttpValidatorConfig,
+        match_status: &mut MatchStatus,
+        val: &Response,
+    ) {
         // First check if this is in the valid status ranges
-        for valid_range in &self.config.valid_http_status_code {
+        for valid_range in &config.valid_http_status_code {
             if valid_range.contains(&val.status().as_u16()) {
                 *match_status = MatchStatus::Valid;
                 return;
             }
         }
         // Next check if this is in the invalid status ranges
-        for invalid_range in &self.config.invalid_http_status_code {
+        for invalid_range in &config.invalid_http_status_code {
             if invalid_range.contains(&val.status().as_u16()) {
                 *match_status = MatchStatus::Invalid;
                 return;
@@ -99,7 +114,7 @@ impl HttpValidatorHelper {
 }
 
 impl MatchValidator for HttpValidator {
-    fn validate(&self, matches: &mut Vec<RuleMatch>, _: &[Box<dyn CompiledRuleDyn>]) {
+    fn validate(&self, matches: &mut Vec<RuleMatch>, scanner_rules: &[Box<dyn CompiledRuleDyn>]) {
         // build a map of match status per endpoint and per match_idx
         let mut match_status_per_endpoint_and_match: AHashMap<_, _> = matches
             .iter()
@@ -114,25 +129,26 @@ impl MatchValidator for HttpValidator {
 
         match_status_per_endpoint_and_match.par_iter_mut().for_each(
             |((match_idx, endpoint), match_status)| {
+                let config = self.get_config(&matches[*match_idx], scanner_rules);
                 let match_value = matches[*match_idx].match_value.as_ref().unwrap();
-                let mut request_builder = match self.config.method {
+                let mut request_builder = match config.method {
                     HttpMethod::Get => BLOCKING_HTTP_CLIENT.get(*endpoint),
                     HttpMethod::Post => BLOCKING_HTTP_CLIENT.post(*endpoint),
                     HttpMethod::Put => BLOCKING_HTTP_CLIENT.put(*endpoint),
                     HttpMethod::Delete => BLOCKING_HTTP_CLIENT.delete(*endpoint),
                     HttpMethod::Patch => BLOCKING_HTTP_CLIENT.patch(*endpoint),
                 };
-                request_builder = request_builder.timeout(self.config.options.timeout);
+                request_builder = request_builder.timeout(config.options.timeout);
 
                 // Add headers
-                for header in &self.config.request_header {
+                for header in &config.request_header {
                     request_builder = request_builder
                         .header(&header.key, &header.get_value_with_match(match_value));
                 }
                 let res = request_builder.send();
                 match res {
                     Ok(val) => {
-                        self.handle_reqwest_response(match_status, &val);
+                        Self::handle_reqwest_response(config, match_status, &val);
                     }
                     Err(err) => {
                         // TODO(trosenblatt) emit a metrics for this
-- 
2.43.0


From 632ea9474f6f0830d9ef4dcee6767fdf50132619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:33 +0000
Subject: [PATCH 18/20] fix: an AWS id that no header can carry gives an error
 status, not a panic

---
 sds/src/match_validation/aws_validator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sds/src/match_validation/aws_validator.rs b/sds/src/match_validation/aws_validator.rs
index 81fb851..45a3b7d 100644
--- a/sds/src/match_validation/aws_validator.rs
+++ b/sds/src/match_validation/aws_validator.rs
@@ -139,6 +139,14 @@ impl MatchValidator for AwsValidator {
                 }
                 let match_secret = extract_aws_secret_from_match(match_secret.as_ref().unwrap());
                 let match_id = match_id.as_ref().unwrap();
+                // The id is sent in a header, not every string can be
+                if let Err(err) = reqwest::header::HeaderValue::from_str(match_id) {
+                    *match_status = MatchStatus::Error(fmt::format(format_args!(
+                        "Error making HTTP request: {}",
+                        err
+                    )));
+                    return;
+                }
                 // Let's reqwest the HTTP API endpoint to validate the matches
                 let mut datetime = chrono::Utc::now();
                 if self.config.forced_datetime_utc.is_some() {
-- 
2.43.0


From 1a7466e423e49c98076e4b3a3c55a8672e421422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:11 +0000
Subject: [PATCH 19/20] fix: only matches close to an included keyword are
 saved as excluded matches

---
 sds/src/scanner/regex_rule/compiled.rs | 67 ++++++++------------------
 1 file changed, 20 insertions(+), 47 deletions(-)

diff --git a/sds/src/scanner/regex_rule/compiled.rs b/sds/src/scanner/regex_rule/compiled.rs
index c45fa09..ca10716 100644
--- a/sds/src/scanner/regex_rule/compiled.rs
+++ b/sds/src/scanner/regex_rule/compiled.rs
@@ -62,14 +62,22 @@ impl CompiledRule for RegexCompiledRule {
         true_positive_rule_idx: &[usize],
         should_kws_match_event_paths: bool,
     ) {
+        let match_emitter = &mut |string_match: StringMatch| {
+            if exclusion_check.is_excluded(self.rule_index) {
+                // Matches from excluded paths are saved and used to treat additional equal matches as false positives.
+                // Matches are checked against this `excluded_matches` set after all scanning has been done.
+                excluded_matches.insert(content[string_match.start..string_match.end].to_string());
+            } else {
+                match_emitter.emit(string_match);
+            }
+        };
+
         match self.included_keywords {
             Some(ref included_keywords) => {
                 self.get_string_matches_with_included_keywords(
                     content,
                     path,
                     regex_caches,
-                    exclusion_check,
-                    excluded_matches,
                     match_emitter,
                     true_positive_rule_idx,
                     included_keywords,
@@ -77,14 +85,8 @@ impl CompiledRule for RegexCompiledRule {
                 );
             }
             None => {
-                let true_positive_search = self.true_positive_matches(
-                    content,
-                    0,
-                    regex_caches.get(&self.regex),
-                    true,
-                    exclusion_check,
-                    excluded_matches,
-                );
+                let true_positive_search =
+                    self.true_positive_matches(content, 0, regex_caches.get(&self.regex), true);
                 for string_match in true_positive_search {
                     match_emitter.emit(string_match);
                 }
@@ -125,8 +127,6 @@ impl RegexCompiledRule {
         content: &str,
         path: &Path,
         regex_caches: &mut RegexCaches,
-        exclusion_check: &ExclusionCheck<'_>,
-        excluded_matches: &mut AHashSet<String>,
         match_emitter: &mut dyn MatchEmitter,
         true_positive_rule_idx: &[usize],
         included_keywords: &CompiledIncludedProximityKeywords,
@@ -134,14 +134,8 @@ impl RegexCompiledRule {
     ) {
         if true_positive_rule_idx.contains(&self.rule_index) {
             // since the path contains a match, we can skip future included keyword checks
-            let true_positive_search = self.true_positive_matches(
-                content,
-                0,
-                regex_caches.get(&self.regex),
-                false,
-                exclusion_check,
-                excluded_matches,
-            );
+            let true_positive_search =
+                self.true_positive_matches(content, 0, regex_caches.get(&self.regex), false);
             for string_match in true_positive_search {
                 match_emitter.emit(string_match);
             }
@@ -161,14 +155,8 @@ impl RegexCompiledRule {
             // If the keywords match the path, keywords in the content don't matter. This is checked
             // first to make sure each match is only emitted once.
             if contains_keyword_in_path(&path.sanitize(), &included_keywords.keywords_pattern) {
-                let true_positive_search = self.true_positive_matches(
-                    content,
-                    0,
-                    regex_caches.get(&self.regex),
-                    false,
-                    exclusion_check,
-                    excluded_matches,
-                );
+                let true_positive_search =
+                    self.true_positive_matches(content, 0, regex_caches.get(&self.regex), false);
 
                 for string_match in true_positive_search {
                     match_emitter.emit(string_match);
@@ -189,8 +177,6 @@ impl RegexCompiledRule {
                 included_keyword_match_start.max(last_match_end),
                 regex_caches.get(&self.regex),
                 false,
-                exclusion_check,
-                excluded_matches,
             );
 
             for true_positive_match in true_positive_search {
@@ -234,8 +220,6 @@ impl RegexCompiledRule {
         start: usize,
         cache: &'a mut Cache,
         check_excluded_keywords: bool,
-        exclusion_check: &'a ExclusionCheck<'a>,
-        excluded_matches: &'a mut AHashSet<String>,
     ) -> TruePositiveSearch<'a> {
         TruePositiveSearch {
             rule: self,
@@ -243,8 +227,6 @@ impl RegexCompiledRule {
             start,
             cache,
             check_excluded_keywords,
-            exclusion_check,
-            excluded_matches,
         }
     }
 }
@@ -255,8 +237,6 @@ pub struct TruePositiveSearch<'a> {
     start: usize,
     cache: &'a mut Cache,
     check_excluded_keywords: bool,
-    exclusion_check: &'a ExclusionCheck<'a>,
-    excluded_matches: &'a mut AHashSet<String>,
 }
 
 impl<'a> Iterator for TruePositiveSearch<'a> {
@@ -287,17 +267,10 @@ impl<'a> Iterator for TruePositiveSearch<'a> {
                     // patterns that can match empty matches are rejected.
                     self.start = regex_match.end();
 
-                    if self.exclusion_check.is_excluded(self.rule.rule_index) {
-                        // Matches from excluded paths are saved and used to treat additional equal matches as false positives.
-                        // Matches are checked against this `excluded_matches` set after all scanning has been done.
-                        self.excluded_matches
-                            .insert(self.content[regex_match.range()].to_string());
-                    } else {
-                        return Some(StringMatch {
-                            start: regex_match.start(),
-                            end: regex_match.end(),
-                        });
-                    }
+                    return Some(StringMatch {
+                        start: regex_match.start(),
+                        end: regex_match.end(),
+                    });
                 }
             } else {
                 return None;
-- 
2.43.0


From aaa348e58846859a1b94563bc32f988ef7d3bcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:02 +0000
Subject: [PATCH 20/20] fix: keep escaped non-ASCII whitespace in extended-mode
 patterns

---
 sds/src/normalization/rust_regex_adapter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sds/src/normalization/rust_regex_adapter.rs b/sds/src/normalization/rust_regex_adapter.rs
index 01cb4c8..594517e 100644
--- a/sds/src/normalization/rust_regex_adapter.rs
+++ b/sds/src/normalization/rust_regex_adapter.rs
@@ -447,6 +447,10 @@ fn convert_literal(literal: Literal, kind: LiteralKind) -> RegexLiteral {
         } else {
             RegexLiteralKind::Verbatim
         }
+    } else if literal.escaped && literal.c.is_whitespace() {
+        // Rust's "x" flag also ignores non-ASCII whitespace, which must not happen to a character
+        // that was escaped.
+        RegexLiteralKind::HexBrace(RegexHexLiteralKind::X)
     } else {
         // escape non-printable characters
         if (literal.c as u32) < 32 && regex_syntax::is_escapeable_character(literal.c) {
-- 
2.43.0

