#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
S="sds/src/"
SC=S+"scanner/mod.rs"
p("C01","Redaction rewrites exactly the reported matches and nothing else",
  "After a scan, every string of the event equals its input with the matched text of each reported match of a mutating rule replaced by that rule's replacement (redact, hash, partial redact), and all other text, keys, list positions and strings are byte-for-byte unchanged. A rule whose action is None never changes any string. This holds for any number of matches per string, for replacements longer, shorter or empty compared to the match, and for multi-byte text.",
  ["inputs","configurations"],"all rule sets (actions, patterns) and all events / strings",
  "The tests redact a few fixed strings; cursor arithmetic over several replacements of different lengths and multi-byte text needs all combinations.",
  [SC,S+"match_action.rs"],[("apply_match_actions (running byte delta)",SC),("get_replacement",S+"match_action.rs")],
  [("utf8_byte_delta","difference in length between the mutated and the original string so far",SC)],["Scanner::scan, event after the call"])
p("C02","Reported positions locate the replaced text in the output event",
  "For every reported match, start_index and end_index_exclusive delimit, in the output string and in the event's index encoding (UTF-8 bytes, or a custom encoding such as UTF-16), exactly the text that now stands for that match, and shift_offset is the difference between the end of the match in the output and in the input in that encoding. Path, rule index, replacement type and (when a match validator is configured) the original matched value belong to that same match; within a string, matches are reported in increasing start order.",
  ["inputs","configurations"],"all events, index encodings, rule sets, match values enabled or not",
  "Tests check a handful of single matches in UTF-8; cumulative shifts with several matches, mixed mutating and non-mutating rules and non-UTF-8 index encodings are not enumerated.",
  [SC,S+"encoding.rs",S+"rule_match.rs"],[("apply_match_actions_for_string",SC),("Encoding::calculate_indices / adjust_shift",S+"encoding.rs")],
  [("custom_index_delta","accumulated shift in the event's encoding",SC)],["RuleMatch fields returned by Scanner::scan"])
p("C03","Overlapping matches are resolved by fixed priorities",
  "No two reported matches of the same string overlap. Among candidate matches, mutating rules take precedence over non-mutating ones, then the earliest start, then the longest match, then the lowest rule index; a candidate is dropped only if it overlaps one retained with higher precedence, and touching (adjacent) matches are all kept. The result does not depend on the order in which candidates were found.",
  ["inputs","configurations"],"all sets of candidate matches of all rules over a string",
  "Tests hold a few pairwise overlaps; three-way chains between mutating and non-mutating candidates and ties are combinatorial.",
  [SC],[("sort_and_remove_overlapping_rules",SC)],(),["Scanner::scan result and redacted output"])
p("C04","Every match is found, and a rejected one never hides its neighbours",
  "For a rule without included keywords, the candidates in a visited string are exactly those obtained by repeatedly taking the leftmost match: after an accepted match the search resumes at its end, after one rejected by the rule's validator or excluded keywords it resumes one character after the rejected match's start. This holds up to the end of the string and for every string of the event, whatever other rules are configured.",
  ["inputs","configurations"],"all strings, patterns, validators",
  "Rejected candidates that overlap the next good one, multi-byte resume positions and end-of-string positions are only sampled by tests.",
  [S+"scanner/regex_rule/compiled.rs",SC],[("TruePositiveSearch",S+"scanner/regex_rule/compiled.rs"),("get_next_regex_start",SC)],
  [("start","next search position",S+"scanner/regex_rule/compiled.rs")],["Scanner::scan result"])
p("C05","Scopes select exactly the strings each rule scans",
  "A rule is applied to a string iff the string's path is at or below one of its include paths (every path, for an exclude-only scope), and a match found there is suppressed iff the path is also at or below one of the rule's exclude paths; each rule is applied at most once per string and the selection does not depend on other rules, on sibling strings or on visiting order. With implicit index wildcards enabled, list indices in the event path may additionally be skipped when comparing with a scope path, except that an index directly following a skipped one cannot be matched explicitly.",
  ["inputs","configurations"],"all scopes (include / exclude path lists, nested and duplicated) and all event trees",
  "The set of (scope paths x tree shapes x wildcard) interactions grows combinatorially; tests list about thirty trees by hand.",
  [S+"scoped_ruleset/mod.rs",S+"scoped_ruleset/bool_set.rs",S+"scanner/scope.rs"],
  [("RuleTree insert / recursively_remove",S+"scoped_ruleset/mod.rs"),("push_segment / pop_segment active tree stack",S+"scoped_ruleset/mod.rs"),("BoolSet de-duplication",S+"scoped_ruleset/bool_set.rs")],
  [("tree_nodes / active_node_counter","stack of active rule-tree nodes while walking the event",S+"scoped_ruleset/mod.rs")],["Scanner::scan result, ScopedRuleSet visitor"])
p("C06","Text matched in an excluded scope is a false positive everywhere in the event",
  "With multi-pass enabled (the default), a match whose text equals text that some regex rule matched in a string excluded by that rule's scope is not reported and not redacted, in any string of the event and for any regex rule, whether the excluded string is visited before or after. With multi-pass disabled such matches are reported and redacted normally; in both modes nothing is ever reported or redacted in the excluded string by the excluding rule, and no state carries over to the next scan.",
  ["inputs","histories","configurations"],"all events, visiting orders, rule sets and sequences of scans",
  "Order of visits, several rules sharing excluded text and consecutive scans are only covered by single examples.",
  [SC,S+"scanner/regex_rule/compiled.rs"],[("excluded_matches set and the retain pass after the visit",SC),("TruePositiveSearch exclusion check",S+"scanner/regex_rule/compiled.rs")],
  [("excluded_matches","texts matched in excluded scopes during this scan",SC)],["Scanner::scan result and output"])
p("C07","Included keywords admit exactly the matches close after a keyword",
  "A rule with included keywords reports a match iff one of its keywords occurs in the same string (or, when enabled, in the event path), starting at most look_ahead_character_count characters before the start of the match. Keywords compare case-insensitively and as literal text, and must stand on ASCII word boundaries at each end that is an ASCII letter or digit; distances count Unicode characters. Each keyword occurrence may admit several matches and every occurrence is considered.",
  ["inputs","configurations"],"all strings, keyword lists, look-ahead counts 1..50",
  "Off-by-one distances with multi-byte text, several keywords and several matches in one prefix window are not enumerated by tests.",
  [S+"proximity_keywords/included_keywords.rs",S+"proximity_keywords/mod.rs",S+"scanner/regex_rule/compiled.rs"],
  [("get_string_matches_with_included_keywords",S+"scanner/regex_rule/compiled.rs"),("is_index_within_prefix / get_prefix_start",S+"proximity_keywords/mod.rs"),("calculate_keyword_content_pattern",S+"proximity_keywords/mod.rs")],
  [("IncludedKeywordSearch.start","next keyword search position",S+"proximity_keywords/included_keywords.rs")],["Scanner::scan result"])
p("C08","Excluded keywords suppress exactly the matches close after a keyword",
  "A rule with excluded keywords and no included keywords suppresses a match iff one of its keywords occurs entirely within the look_ahead_character_count characters before the match start, where '-' and '_' are ignored in both keyword and text but still count towards the distance. Keywords compare case-insensitively, as literal text, with ASCII word boundaries at ends that are ASCII letters or digits, taking into account the characters just outside the window. When the rule also has included keywords, the excluded ones have no effect.",
  ["inputs","configurations"],"all strings, keyword lists, look-ahead counts 1..50",
  "Boundary characters just outside the window, stripped separators at the window edges and multi-byte text are only sampled.",
  [S+"proximity_keywords/excluded_keywords.rs",S+"proximity_keywords/mod.rs",SC],
  [("contains_excluded_keyword_match",S+"proximity_keywords/excluded_keywords.rs"),("get_prefix_start",S+"proximity_keywords/mod.rs")],(),["Scanner::scan result"])
p("C09","Path keywords match the standardized path of the string",
  "When the scanner is told that keywords may match event paths, a rule with included keywords reports every match of a string whose path contains one of its keywords, in addition to matches admitted by keywords in the content and without duplicates; when it is not, paths never matter. The comparison is case-insensitive, on word boundaries and separator-insensitive: fields are joined with '.', list indices are left out, '-', '_', ' ', '/' and '.' and lower-to-upper case changes inside fields and keywords all become '.', except that a field's or keyword's first and last character and characters directly after a separator are kept as they are, and all-lowercase or all-uppercase fields are taken whole.",
  ["inputs","configurations"],"all paths and keywords over letters, digits, separators and non-ASCII characters",
  "Path and keyword standardization is a character state machine; tests check some twenty spellings.",
  [S+"path.rs",S+"proximity_keywords/mod.rs",S+"scanner/regex_rule/compiled.rs"],
  [("standardize_path_chars / should_bypass_standardize_path",S+"proximity_keywords/mod.rs"),("Path::sanitize",S+"path.rs"),("contains_keyword_in_path",S+"proximity_keywords/mod.rs")],(),["Path::sanitize, Scanner::scan result"])
p("C10","A blocked rule behaves as if it were not configured",
  "Scanning with a list of blocked rule indices gives the same matches and the same output event as scanning with a scanner built without those rules, up to the numbering of the remaining rules. This includes overlap resolution and multi-pass exclusion, for any subset, duplicated or out-of-range indices in the list, and does not affect later scans.",
  ["inputs","configurations","histories"],"all rule sets, all subsets of blocked rules, all events",
  "One test blocks one rule; the interaction with overlaps, scopes and multi-pass is not covered.",
  [SC],[("blocked_rules check in visit_content",SC)],(),["Scanner::scan result and output"])
p("C11","Match actions produce the documented replacement",
  "Redact yields its replacement text; Hash yields the lowercase hexadecimal 64-bit farmhash fingerprint of the matched UTF-8 bytes (UTF-16LE code units for the UTF-16 variant), without padding; partial redaction of n characters replaces the first (or last) min(n, length) characters, counted in Unicode characters, by exactly n asterisks. Only the matched text matters, and partial redaction with a count of zero is rejected at scanner creation.",
  ["inputs","configurations"],"all matched texts, counts and directions",
  "The boundary between count and length for 1 to 4 byte characters in both directions is only sampled (and those tests do not run in this environment).",
  [S+"match_action.rs"],[("get_replacement, partial_redaction_first/last, hash",S+"match_action.rs")],(),["Scanner::scan output"])
p("C12","Numeric checksum validators accept exactly the valid identifiers",
  "As a rule's secondary validator: Luhn accepts iff there is a digit and the digits pass the Luhn algorithm; Chinese ID accepts iff the text is 17 ASCII digits plus the correct ISO 7064 MOD 11-2 check character (x or X allowed); NHS accepts iff there are exactly ten digits with a correct modulus-11 check digit; NIR accepts iff there are exactly fifteen digits, the last two being 97 minus the first thirteen modulo 97. For Luhn, NHS and NIR non-digit characters are ignored.",
  ["inputs"],"all candidate texts",
  "Tests have a dozen positive and negative identifiers; single wrong weights, moduli, lengths or positions show only on some inputs.",
  [S+"secondary_validation/luhn_checksum.rs",S+"secondary_validation/chinese_id_checksum.rs",S+"secondary_validation/nhs_check_digit.rs",S+"secondary_validation/nir_checksum.rs",S+"secondary_validation/mod.rs"],
  [("is_valid_match of each validator",S+"secondary_validation/mod.rs")],(),["Scanner::scan with the validator, Validator::is_valid_match"])
p("C13","Token validators (GitHub, IBAN, JWT expiry) accept exactly the valid tokens",
  "GitHub: accepted iff the part after the last '_' is alphanumeric, longer than six characters, and its last six characters are the base62 CRC32 (zero-padded to six) of the rest. IBAN: accepted iff, ignoring non-alphanumeric characters, it is a structurally valid IBAN of a registered country with a correct mod-97 checksum. JWT: accepted iff it has three dot-separated segments whose first two are unpadded base64url JSON and the payload has no exp claim or an integer exp strictly after the current time.",
  ["inputs"],"all candidate texts and all current times",
  "Tests check a handful of tokens; the padding of small checksums, clock boundaries and malformed segments are not enumerated.",
  [S+"secondary_validation/github_token_checksum.rs",S+"secondary_validation/iban_checker.rs",S+"secondary_validation/jwt_expiration_checker.rs"],
  [("is_valid_match of each validator",S+"secondary_validation/mod.rs")],(),["Validator::is_valid_match"])
p("C14","Regex patterns mean what the documented dialect says",
  "An accepted rule pattern matches exactly the text its PCRE-like syntax denotes under leftmost-first (Perl) priorities: literals and escapes, character classes and ranges with negation, ASCII-only \\d \\w \\s \\h \\v and POSIX classes and their negations, \\R-free Unicode properties, greedy / lazy quantifiers and counted repetition, groups and named groups, alternation, inline flags (i, s, x) with their group scoping, and anchors and word boundaries with ASCII word characters. Characters with no special meaning stand for themselves.",
  ["programs","inputs"],"all patterns of the dialect and all inputs",
  "The parser / rewriter handles some sixty constructs in combination; tests check each alone on its printed translation, not on what it matches.",
  [S+"parser/regex_parser.rs",S+"parser/ast.rs",S+"normalization/rust_regex_adapter.rs",S+"parser/unicode_property_names.rs"],
  [("parse_regex_pattern",S+"parser/regex_parser.rs"),("convert_to_rust_regex",S+"normalization/rust_regex_adapter.rs")],(),["Scanner::scan with the pattern"])
p("C15","Pattern validation is total, consistent and enforces its limits",
  "validate_regex answers for every string without panicking: patterns nested deeper than the limit, with a quantifier bound above 3000, above the complexity limit, malformed, or able to match the empty string are each rejected with their own error, and everything else in the dialect is accepted. A scanner can be built from a single plain rule iff validate_regex accepts its pattern, with the same error; the complexity estimate of a pattern is at most the limit iff it is not rejected as too complex.",
  ["programs","inputs"],"all pattern strings",
  "The space of malformed patterns is unbounded; tests sample some dozens, and limits at one value.",
  [S+"validation.rs",S+"parser/regex_parser.rs",S+"parser/error.rs",S+"normalization/rust_regex_adapter.rs"],
  [("validate_and_create_regex",S+"validation.rs"),("depth and quantifier limits",S+"parser/regex_parser.rs")],(),["validate_regex, ScannerBuilder::build, get_regex_complexity_estimate_very_slow"])
p("C16","Every scan terminates and never reports an empty match",
  "For every accepted rule set and every event, a scan returns, does not panic, and each reported match covers at least one input character. In particular a pattern that could match an empty span anywhere in some text (not only in the empty string) is never accepted.",
  ["programs","inputs"],"all accepted patterns and all inputs",
  "Termination depends on the joint behaviour of pattern acceptance and the search loop; tests never run accepted zero-width patterns.",
  [S+"validation.rs",S+"scanner/regex_rule/compiled.rs",S+"proximity_keywords/included_keywords.rs"],
  [("empty-match rejection",S+"validation.rs"),("TruePositiveSearch advancing start",S+"scanner/regex_rule/compiled.rs")],(),["Scanner::scan"])
p("C17","Rule configuration is validated at creation with the right error",
  "Building a scanner fails iff some rule has an invalid pattern, a partial-redact count of zero, a look-ahead outside 1..=50, more than 50 included or excluded keywords, a keyword longer (in characters) than the look-ahead, or a keyword that is empty after trimming (and, for excluded keywords, after removing '-' and '_'). The error returned is the one for the first offending rule, and its kind determines the numeric code given to bindings (-2 regex, -3 keywords, -4 match action). A failed build changes nothing observable.",
  ["configurations"],"all rule configurations",
  "Limits interact (trim, strip, counts, character vs byte length) and the order of checks is visible; tests probe a few values.",
  [S+"proximity_keywords/mod.rs",S+"scanner/regex_rule/config.rs",S+"scanner/error.rs",SC],
  [("compile_keywords_proximity_config",S+"proximity_keywords/mod.rs"),("convert_to_compiled_rule",S+"scanner/regex_rule/config.rs")],(),["ScannerBuilder::build result, i64::from(error), create_scanner"])
p("C18","Configuration survives a JSON round trip and defaults are stable",
  "Serializing any rule configuration, scope, path, match action, validator or label set and reading it back gives an equal value that builds a scanner with the same behaviour. Missing or null optional fields read as their documented defaults (scan everything, no keywords, no validator, no labels), unknown enum tags and malformed label pairs are rejected, and field and tag names stay those of the published format.",
  ["configurations"],"all configuration values and all subsets of omitted or null fields",
  "Tests round-trip one or two values; each variant, nesting and omission is a separate path in the derived and hand-written (de)serializers.",
  [S+"scanner/regex_rule/config.rs",S+"observability/labels.rs",S+"path.rs",S+"scanner/scope.rs",S+"match_action.rs"],
  [("serde attributes",S+"scanner/regex_rule/config.rs"),("Labels (de)serializer",S+"observability/labels.rs")],(),["serde_json on the public types"])
p("C19","Sharing compiled regexes never changes results",
  "What a scanner finds depends only on its own configuration: whatever scanners were created, used and dropped before or are alive now (same or different patterns, keyword lists that compile to similar text, clean-ups of the shared store), a scanner behaves as the first one created in a fresh process. A pattern that failed validation keeps failing, and patterns of dropped scanners are eventually forgotten: the number of retained dead patterns stays below the clean-up interval.",
  ["histories","schedules"],"all histories of create / scan / drop, and their interleavings",
  "State is process-global and keyed by pattern text; tests use one store instance with at most two patterns.",
  [S+"scanner/regex_rule/regex_store.rs",S+"scanner/regex_rule/regex_cache_store.rs",S+"proximity_keywords/mod.rs",S+"scanner/regex_rule/config.rs"],
  [("get_memoized_regex",S+"scanner/regex_rule/regex_store.rs"),("GC every 1000 insertions",S+"scanner/regex_rule/regex_store.rs")],
  [("REGEX_STORE","global pattern -> weak regex map",S+"scanner/regex_rule/regex_store.rs"),("REGEX_CACHE_STORE","pool of per-regex search caches keyed by slot key",S+"scanner/regex_rule/regex_cache_store.rs")],["Scanner::scan, scanner.total_regexes gauge"],"std resolved to the controlled re-export (cfg sds_verif)")
p("C20","Concurrent use of scanners is equivalent to sequential use",
  "Any number of threads may create, share, use and drop scanners at the same time: every scan returns the same matches and output as the same scan run alone, every build the same result, and nothing deadlocks or panics, in every interleaving. Search caches are never used by two scans at once.",
  ["schedules"],"all interleavings of scanner operations of several threads",
  "The unit tests are single-threaded; interleavings at the store lock, the cache pool and the statistics are never controlled.",
  [S+"scanner/regex_rule/regex_store.rs",S+"scanner/regex_rule/regex_cache_store.rs",S+"scanner/shared_pool.rs",S+"stats.rs",SC],
  [("Mutex around the regex store",S+"scanner/regex_rule/regex_store.rs"),("SharedPool guard",S+"scanner/shared_pool.rs")],
  [("REGEX_STORE","global mutex-protected store",S+"scanner/regex_rule/regex_store.rs")],["Scanner::scan / build / drop on 2-3 threads under a controlled scheduler"],"std resolved to the controlled re-export (cfg sds_verif)")
p("C21","Metrics report what happened",
  "Per scan: scanned_events grows by one, scanning.match_count by the number of returned matches, and the false-positive counters by the number of candidates suppressed by excluded keywords or by multi-pass, with the scanner's labels followed by the rule's labels. Globally: creations and deletions count every successful build and drop, and whenever no call is in progress the gauges equal the number of live scanners and of stored regexes, and the reported cache size never goes below zero.",
  ["histories","schedules"],"all histories and interleavings of build, scan and drop",
  "Gauges are maintained by separate atomic steps, so errors need particular interleavings or histories; no test reads them.",
  [S+"stats.rs",S+"scanner/metrics.rs",SC,S+"proximity_keywords/excluded_keywords.rs",S+"observability/labels.rs"],
  [("update_total_scanners",S+"stats.rs"),("add_total_regex_cache",S+"stats.rs"),("ScannerMetrics / RuleMetrics",S+"scanner/metrics.rs")],
  [("total_scanners_count","number of live scanners",S+"stats.rs")],["a metrics recorder installed by the harness"],"std resolved to the controlled re-export (cfg sds_verif)")
p("C22","Match validation keeps every match and assigns the best status",
  "validate_matches returns the same matches it was given, only their status may change, and the order is by start index. A match of an HTTP-validated rule gets, over all endpoints, the highest-priority outcome (valid over error over invalid) where a response in the configured valid range gives Valid, in the invalid range Invalid and anything else or a failed request Error, the request carrying the match in place of $MATCH; AWS ids and secrets are tried in all pairs and each takes its best pair. Matches of rules without validation stay NotAvailable, and merging never lowers a status.",
  ["inputs","fault_sequences","configurations"],"all sets of matches, validator configurations, endpoint answers and failures",
  "Tests (which need a network mock and do not run here) check single answers; combinations of endpoints, answers and mixed rules are not enumerated.",
  [SC,S+"match_validation/http_validator.rs",S+"match_validation/aws_validator.rs",S+"match_validation/config.rs",S+"match_validation/match_status.rs"],
  [("validate_matches regrouping",SC),("handle_reqwest_response",S+"match_validation/http_validator.rs"),("MatchStatus::merge",S+"match_validation/match_status.rs")],(),["Scanner::validate_matches against a loopback server"])
p("C23","The binary event encoding is scanned and answered faithfully",
  "Scanning an encoded event visits exactly the strings and paths that were encoded, gives the same matches as scanning the equivalent in-memory event, and the encoded response lists exactly the mutated strings (with their paths and final content) and the matches (rule, path, replacement type, indices, shift) in order; it is absent iff nothing matched. Decoding the response and applying the mutations to the original event reproduces the scanned in-memory event.",
  ["inputs","configurations"],"all well-formed encoded events and rule sets",
  "The bindings crate has no tests at all.",
  ["sds-bindings-utils/src/binary_encoding.rs"],[("BinaryEvent::visit_event / visit_string_mut","sds-bindings-utils/src/binary_encoding.rs"),("encode_response","sds-bindings-utils/src/binary_encoding.rs")],
  [("storage","strings that may be mutated, keyed by path","sds-bindings-utils/src/binary_encoding.rs")],["encode_response bytes"])
p("C24","The C interface is safe over every legal call sequence",
  "For every order of creating, appending, freeing and using rules, rule lists and scanners in which each handle is freed at most once and not used after, every call returns the documented result: results do not depend on when rules or lists are freed, memory is released exactly once and completely, and errors are reported as negative codes. A panic inside the library never crosses the boundary; it becomes an error message or code, and later calls still work.",
  ["histories","inputs"],"all legal call sequences up to a bound, malformed inputs included",
  "The FFI crate has no tests; ownership errors depend on call order.",
  ["sds-go/rust/src/native/mod.rs","sds-go/rust/src/native/rule.rs","sds-go/rust/src/native/create_scanner.rs","sds-go/rust/src/native/delete_scanner.rs","sds-go/rust/src/native/scan.rs"],
  [("Arc::into_raw / ManuallyDrop","sds-go/rust/src/native/rule.rs"),("convert_panic_to_go_error","sds-go/rust/src/native/mod.rs")],(),["extern \"C\" functions"])
p("C25","The Go binding returns what the scanner found and redacts in place",
  "For every Go event (bytes, or nested maps, lists and strings) and rule set, Scan and ScanEventsMap report the same matches as the native scanner and leave the event equal to the natively redacted one, flagging it as mutated iff a mutating rule matched; bytes events that did not mutate are returned unchanged. Rule configurations built in Go mean the same as their native equivalents, and creation errors map to the documented Go errors.",
  ["inputs","configurations"],"all Go events and rule configurations",
  "The Go tests need the native library and do not run here; they cover a dozen events.",
  ["sds-go/go/scanner.go","sds-go/go/regex_rule.go","sds-go/go/rule.go","sds-go/rust/src/native/scan.rs"],
  [("encodeValueRecursive / decodeEventMapResponse","sds-go/go/scanner.go"),("MarshalJSON","sds-go/go/regex_rule.go")],(),["Go API"])
p("C26","Every string of an event is visited once under its own path",
  "For each provided event type (plain string, nested event, JSON value, JSON map), a scan visits every contained string exactly once with the path leading to it, pushes and pops balance, the field named message of a nested event comes first at each level, and mutable access by a visited path reaches that same string. Results therefore depend only on the event's content: two representations of the same content give the same matches and redactions.",
  ["inputs"],"all event trees up to the bound",
  "Tests walk one or two small trees.",
  [S+"event.rs",S+"simple_event.rs",S+"event_json.rs"],[("visit_event / visit_string_mut",S+"simple_event.rs"),("visit_event / visit_string_mut",S+"event_json.rs")],(),["Event::visit_event with a recording visitor, Scanner::scan"])
p("C27","User-supplied rule types take part in scans like built-in rules",
  "A scanner may mix regex rules with rule types supplied by the user. Matches such rules emit are reported, redacted and overlap-resolved like any other rule's. A non-blocked rule is called exactly once for each string in its scope, with that string's content, path and exclusion status. Group data is created with the scanner's labels, once per string, and shared by exactly the rules of that data type; the rule scan cache is created at most once per scan, shared by exactly the rules of its type and never survives the scan; the group configuration is created once per scanner and every rule has processed it once before the first scan. A match equal to excluded text is dropped only if its rule opts in, and its callback is then invoked once per dropped match. The user's code called during a scan (rules, events) may itself scan or build scanners; if it panics, the panic reaches the caller of that scan only and later scans are unaffected.",
  ["configurations","histories","inputs"],"all mixes of rule types, scopes, options and sequences of scans up to the bound",
  "Tests use one custom rule type in a handful of scans.",
  [SC,S+"scoped_ruleset/mod.rs"],[("CompiledRule / CompiledRuleDyn",SC),("ScannerContentVisitor::visit_content",SC),("ExclusionCheck",S+"scoped_ruleset/mod.rs")],(),["Scanner::scan with recording custom rules"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
