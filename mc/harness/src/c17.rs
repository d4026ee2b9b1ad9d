//! C17 configuration errors, C18 JSON form of configurations.
use crate::common::*;
use crate::core::*;
use crate::rec::rec;
use crate::refscan::*;
use dd_sds::*;
use serde_json::{json, Value};

/// Every error that applies to one rule, as (code, debug text); empty when the rule is valid.
fn errors(r: &RegexRuleConfig) -> Vec<(i64, String)> {
    let mut e = vec![];
    if let Some((_, Some(k))) = patterns().into_iter().find(|p| p.0 == r.pattern) {
        e.push((-2, format!("InvalidRegex({k})")));
    }
    if let MatchAction::PartialRedact { character_count: 0, .. } = r.match_action {
        e.push((-4, "InvalidMatchAction(PartialRedactionNumCharsZero)".into()));
    }
    if let Some(k) = &r.proximity_keywords {
        let l = k.look_ahead_character_count;
        if !(1..=50).contains(&l) {
            e.push((-3, "InvalidKeywords(InvalidLookAheadCharacterCount)".into()));
        }
        if k.included_keywords.len() > 50 || k.excluded_keywords.len() > 50 {
            e.push((-3, "InvalidKeywords(TooManyKeywords)".into()));
        }
        let long = |s: &String| s.chars().count() > l;
        if k.included_keywords.iter().chain(&k.excluded_keywords).any(long) {
            e.push((-3, format!("InvalidKeywords(KeywordTooLong({l}))")));
        }
        let blank = |s: &str| s.chars().all(|c| c.is_whitespace());
        let bare = |s: &String| s.trim().chars().all(|c| c == '-' || c == '_');
        if k.included_keywords.iter().any(|s| blank(s)) || k.excluded_keywords.iter().any(bare) {
            e.push((-3, "InvalidKeywords(EmptyKeyword)".into()));
        }
    }
    e
}
fn expected(rules: &[RegexRuleConfig]) -> Vec<(i64, String)> {
    rules.iter().map(errors).find(|e| !e.is_empty()).unwrap_or_default()
}
fn try_build(w: &mut Worker, rules: &[RegexRuleConfig]) -> bool {
    let want = expected(rules);
    let text = rules_text(rules, &Opts::default());
    let text = if text.len() > 400 { format!("{}… ({} bytes)", text.chars().take(400).collect::<String>(), text.len()) } else { text };
    let Some(got) = w.run(&text, rules.len() as u64, || build(rules, Opts::default())) else { return false };
    let got = got.map(|_| ()).map_err(|e| {
        let d = format!("{e:?}");
        (i64::from(e), d)
    });
    w.outcome(&(want.clone(), got.clone()), !want.is_empty());
    let ok = match &got {
        Ok(()) => want.is_empty(),
        Err(e) => want.contains(e),
    };
    if !ok {
        w.violate("build", json!({"case": text, "acceptable": want, "observed": format!("{got:?}")}));
    } else if !want.is_empty() && w.want_sample() {
        w.ctx.sample(json!({"space": w.space, "case": text, "result": format!("{got:?}")}));
    }
    ok
}
fn kws(n: usize, make: impl Fn(usize) -> String) -> Vec<String> {
    (0..n).map(make).collect()
}
fn pk(look: usize, i: Vec<String>, e: Vec<String>) -> ProximityKeywordsConfig {
    ProximityKeywordsConfig { look_ahead_character_count: look, included_keywords: i, excluded_keywords: e }
}
/// The patterns used here, with the kind of their error.
fn patterns() -> Vec<(String, Option<&'static str>)> {
    let deep = format!("{}a{}", "(".repeat(200), ")".repeat(200));
    [
        ("a", None),
        (r"\bab+c", None),
        ("(?i)x|y", None),
        ("", Some("MatchesEmptyString")),
        ("(", Some("InvalidSyntax")),
        ("a{3001}", Some("ExceededQuantifierLimit")),
        ("a*", Some("MatchesEmptyString")),
        ("a|", Some("MatchesEmptyString")),
        ("[z-a]", Some("InvalidSyntax")),
        (r"\b", Some("MatchesEmptyString")),
        (".{1000}{1000}", Some("TooComplex")),
        (deep.as_str(), Some("ExceededDepthLimit")),
    ]
    .iter()
    .map(|(p, e)| (p.to_string(), *e))
    .collect()
}
fn keyword_words() -> Vec<&'static str> {
    vec![
        "", " ", "\t", "\u{a0}", "\u{3000}\u{2003}", "-", "_", "--", "-_-", " - ", "_ ", "- -", "a", "-a", "a_", " a", "é", "€€", "𝄞", "ab", "abc", "a b", "     ", "a    ", "----a", "*", "\\", "(", "[a", "\n",
    ]
}
pub fn c17(c: &Ctx) {
    c.assume("a rule with several defects may be reported with the error of any of them; the first rule with a defect decides");
    rec();
    let pats = patterns();
    let mut acts = all_actions();
    acts.extend([partial(true, 0), partial(false, 0)]);
    let looks: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 25, 49, 50, 51, 52, 100, 256, 306, 65536, usize::MAX];
    // 1. pattern x action x look-ahead
    let mut items = vec![];
    for (p, _) in &pats {
        for a in &acts {
            items.push((p.clone(), a.clone()));
        }
    }
    c.space("pattern-action-lookahead", "patterns valid and invalid x every action incl. count 0 x look-aheads x keyword presence", &items, |w, (p, a)| {
        let base = rule(p).match_action(a.clone());
        if !try_build(w, &[base.clone()]) {
            return;
        }
        for &l in &looks {
            for (i, e) in [(vec![], vec![]), (vec!["k".to_string()], vec![]), (vec![], vec!["k".to_string()]), (vec!["k".to_string()], vec!["x".to_string()])] {
                if !try_build(w, &[base.proximity_keywords(pk(l, i, e))]) {
                    return;
                }
            }
        }
    });
    // 2. every look-ahead 0..=60 x keyword length around it, in characters, single- and multi-byte
    let ls: Vec<usize> = (0..=60).collect();
    c.space("keyword-length", "every look-ahead 0..60 x keyword of every length 1..62, made of 1- to 4-byte characters or spaces around it, included or excluded, alone, first or last of two", &ls, |w, &l| {
        for n in 1..=62usize {
            for ch in ["a", "é", "𝄞", "-a", " "] {
                let k: String = match ch {
                    "-a" => (0..n).map(|i| if i + 1 == n { 'a' } else { '-' }).collect(),
                    " " => (0..n).map(|i| if i == n / 2 { 'a' } else { ' ' }).collect(),
                    _ => ch.repeat(n),
                };
                for inc in [true, false] {
                    for list in [vec![k.clone()], vec!["z".into(), k.clone()], vec![k.clone(), "z".into()]] {
                        let cfg = if inc { pk(l, list, vec![]) } else { pk(l, vec![], list) };
                        if !try_build(w, &[rule("a").proximity_keywords(cfg)]) {
                            return;
                        }
                    }
                    if c.thorough {
                        let cfg = if inc { pk(l, vec![k.clone()], vec!["z".into()]) } else { pk(l, vec!["z".into()], vec![k.clone()]) };
                        if !try_build(w, &[rule("a").proximity_keywords(cfg)]) {
                            return;
                        }
                    }
                }
            }
        }
    });
    // 3. keyword counts
    let counts: Vec<usize> = c.q(vec![0, 1, 2, 25, 48, 49, 50, 51, 52, 99, 100, 101, 256, 257, 306], (0..=60).chain([99, 100, 101, 255, 256, 257, 306, 1000]).collect());
    let mut items = vec![];
    for &i in &counts {
        for &e in &counts {
            items.push((i, e));
        }
    }
    c.space("keyword-count", "counts of included x excluded keywords around 50, distinct or all equal", &items, |w, &(i, e)| {
        for same in [false, true] {
            let mk = |n| if same { "kw".to_string() } else { format!("k{n}") };
            if !try_build(w, &[rule("a").proximity_keywords(pk(30, kws(i, mk), kws(e, mk)))]) {
                return;
            }
        }
    });
    // 4. keyword texts
    let words = keyword_words();
    let mut items: Vec<(&str, &str)> = vec![];
    for a in &words {
        for b in &words {
            items.push((a, b));
        }
    }
    c.space("keyword-texts", "every pair of keyword texts (blank, separators only, multi-byte, regex metacharacters) in one or both lists x small look-aheads", &items, |w, &(a, b)| {
        for l in [1usize, 2, 3, 5, 50] {
            let (a, b) = (a.to_string(), b.to_string());
            for cfg in [
                pk(l, vec![a.clone(), b.clone()], vec![]),
                pk(l, vec![], vec![a.clone(), b.clone()]),
                pk(l, vec![a.clone()], vec![b.clone()]),
                pk(l, vec!["q".into(), a.clone(), "q".into()], vec!["q".into(), b.clone()]),
            ] {
                if !try_build(w, &[rule("a").proximity_keywords(cfg)]) {
                    return;
                }
            }
        }
    });
    // 5. every blank-ish keyword string
    let alpha = ['-', '_', ' ', '\u{a0}', 'a'];
    let ks = all_strings(&alpha, 0, c.q(5, 7));
    let chunks: Vec<&[String]> = ks.chunks(64).collect();
    c.space("blank-keywords", "every keyword up to length 5 (7) over '-', '_', ' ', NBSP and 'a', included or excluded", &chunks, |w, ch| {
        for k in ch.iter() {
            for cfg in [pk(7, vec![k.clone()], vec![]), pk(7, vec![], vec![k.clone()])] {
                if !try_build(w, &[rule("a").proximity_keywords(cfg)]) {
                    return;
                }
            }
        }
    });
    // 6. every scalar value as a keyword
    let blocks: Vec<u32> = (0..0x110000 / 0x400).collect();
    let step = c.q(1, 1);
    c.space("scalar-keywords", "keywords made of a single scalar value, in lists of up to 50: every scalar value", &blocks, |w, &b| {
        let mut v = vec![];
        for x in b * 0x400..(b + 1) * 0x400 {
            if x >= 0x3000 && x % step != 0 {
                continue;
            }
            if let Some(ch) = char::from_u32(x) {
                v.push(ch.to_string());
            }
        }
        let (bl, ok): (Vec<String>, Vec<String>) = v.into_iter().partition(|s| s.trim().is_empty() || s == "-" || s == "_");
        for ch in ok.chunks(50) {
            for cfg in [pk(1, ch.to_vec(), vec![]), pk(1, vec![], ch.to_vec())] {
                if !try_build(w, &[rule("a").proximity_keywords(cfg)]) {
                    return;
                }
            }
        }
        for k in bl {
            for cfg in [pk(1, vec![k.clone()], vec![]), pk(1, vec![], vec![k.clone()])] {
                if !try_build(w, &[rule("a").proximity_keywords(cfg)]) {
                    return;
                }
            }
        }
    });
    // 7. rule lists
    let kinds: Vec<RegexRuleConfig> = vec![
        rule("a"),
        rule("b").match_action(partial(true, 2)).proximity_keywords(kw(5, &["k"], &["x"])),
        rule("c").scope(Scope::exclude(vec![path("p")])).validator(SecondaryValidator::LuhnChecksum),
        rule("("),
        rule("a*"),
        rule("a{3001}"),
        rule(".{1000}{1000}"),
        rule("a").match_action(partial(true, 0)),
        rule("a").match_action(partial(false, 0)).proximity_keywords(kw(0, &["k"], &[])),
        rule("a").proximity_keywords(kw(0, &[], &[])),
        rule("a").proximity_keywords(kw(51, &["k"], &[])),
        rule("a").proximity_keywords(pk(9, kws(51, |i| format!("k{i}")), vec![])),
        rule("a").proximity_keywords(kw(3, &["long"], &[])),
        rule("a").proximity_keywords(kw(4, &[], &["ok", "longer"])),
        rule("a").proximity_keywords(kw(4, &[], &["--"])),
        rule("(").match_action(partial(true, 0)).proximity_keywords(kw(4, &[""], &[])),
    ];
    let idx: Vec<usize> = (0..kinds.len()).collect();
    c.space("rule-lists", "every list of up to 4 rules of 16 kinds, valid or with one defect or several", &idx, |w, &first| {
        fn rec_(w: &mut Worker, kinds: &[RegexRuleConfig], cur: &mut Vec<RegexRuleConfig>, left: usize) -> bool {
            if !try_build(w, cur) {
                return false;
            }
            if left == 0 {
                return true;
            }
            for k in kinds {
                cur.push(k.clone());
                if !rec_(w, kinds, cur, left - 1) {
                    return false;
                }
                cur.pop();
            }
            true
        }
        rec_(w, &kinds, &mut vec![kinds[first].clone()], c.q(3, 3));
    });
    // 8. failed builds leave no trace
    let valid: Vec<Vec<RegexRuleConfig>> = vec![
        vec![kinds[0].match_action(redact("X"))],
        vec![kinds[1].clone(), kinds[2].clone()],
        vec![rule("[ab]+").proximity_keywords(kw(4, &["long", "k"], &[]))],
    ];
    let texts = ["a", "k ab", "long abab", "x b b", "c 4242"];
    c.space("failed-builds", "every pair of failing lists between two builds of every valid list: counters and gauges of scanners unchanged, live and later scanners give the same results", &[()], |w, _| {
        let fails: Vec<Vec<RegexRuleConfig>> = kinds.iter().flat_map(|a| kinds.iter().map(move |b| vec![a.clone(), b.clone()])).filter(|l| !expected(l).is_empty()).collect();
        for v in &valid {
            let run = |sc: &Scanner| -> Vec<String> { texts.iter().map(|t| format!("{:?}", show(&run_impl::<Utf8Encoding>(sc, &one(t), &[]).0))).collect() };
            let Ok(live) = build(v, Opts::default()) else { return };
            let before = run(&live);
            let m = ["scanner.creations", "scanner.deletions", "scanner.total_count"];
            let mut g: Vec<i64> = m.iter().map(|n| rec().get(n)).collect();
            for a in &fails {
                for b in fails.iter().step_by(c.q(13, 2)) {
                    for l in [a, b] {
                        if !try_build(w, l) {
                            return;
                        }
                    }
                    let after: Vec<i64> = m.iter().map(|n| rec().get(n)).collect();
                    if g != after {
                        w.violate("trace", json!({"case": rules_text(a, &Opts::default()), "then": rules_text(b, &Opts::default()), "metrics": m, "before": g, "after": after}));
                        return;
                    }
                }
                let again = build(v, Opts::default()).map(|s| run(&s)).map_err(|e| format!("{e:?}"));
                if run(&live) != before || again.as_ref() != Ok(&before) {
                    w.violate("trace", json!({"case": rules_text(a, &Opts::default()), "before": before, "later build": format!("{again:?}"), "live": run(&live)}));
                    return;
                }
                // the extra build and drop
                let after: Vec<i64> = m.iter().map(|n| rec().get(n)).collect();
                if after != [g[0] + 1, g[1] + 1, g[2]] {
                    w.violate("trace", json!({"metrics": m, "before": g, "after one build and drop": after}));
                    return;
                }
                g = after;
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------
fn jpath(p: &Path) -> Value {
    json!({"segments": p.segments.iter().map(|s| match s {
        PathSegment::Field(f) => json!({"type": "Field", "value": f}),
        PathSegment::Index(i) => json!({"type": "Index", "value": i}),
    }).collect::<Vec<_>>()})
}
fn jpaths(p: &[Path]) -> Value {
    Value::Array(p.iter().map(jpath).collect())
}
fn jscope(s: &Scope) -> Value {
    match s {
        Scope::Include { include, exclude } => json!({"type": "Include", "paths": {"include": jpaths(include), "exclude": jpaths(exclude)}}),
        Scope::Exclude(v) => json!({"type": "Exclude", "paths": jpaths(v)}),
    }
}
#[allow(deprecated)]
fn jaction(a: &MatchAction) -> Value {
    match a {
        MatchAction::None => json!({"type": "None"}),
        MatchAction::Redact { replacement } => json!({"type": "Redact", "replacement": replacement}),
        MatchAction::Hash => json!({"type": "Hash"}),
        MatchAction::Utf16Hash => json!({"type": "Utf16Hash"}),
        MatchAction::PartialRedact { direction, character_count } => json!({"type": "PartialRedact", "character_count": character_count,
            "direction": match direction { PartialRedactDirection::FirstCharacters => "FirstCharacters", PartialRedactDirection::LastCharacters => "LastCharacters" }}),
    }
}
fn jkw(k: &ProximityKeywordsConfig) -> Value {
    json!({"look_ahead_character_count": k.look_ahead_character_count, "included_keywords": k.included_keywords, "excluded_keywords": k.excluded_keywords})
}
fn validators() -> Vec<(SecondaryValidator, &'static str)> {
    use SecondaryValidator::*;
    vec![
        (LuhnChecksum, "LuhnChecksum"),
        (ChineseIdChecksum, "ChineseIdChecksum"),
        (GithubTokenChecksum, "GithubTokenChecksum"),
        (NhsCheckDigit, "NhsCheckDigit"),
        (IbanChecker, "IbanChecker"),
        (NirChecksum, "NirChecksum"),
        (JwtExpirationChecker, "JwtExpirationChecker"),
    ]
}
fn mvts() -> Vec<(MatchValidationType, Value)> {
    let dur = |s: u64, n: u32| json!({"secs": s, "nanos": n});
    let mut v = vec![
        (MatchValidationType::Aws(AwsType::AwsId), json!({"Aws": "AwsId"})),
        (MatchValidationType::Aws(AwsType::AwsSession), json!({"Aws": "AwsSession"})),
        (
            MatchValidationType::Aws(AwsType::AwsSecret(AwsConfig::default())),
            json!({"Aws": {"AwsSecret": {"aws_sts_endpoint": "https://sts.amazonaws.com", "forced_datetime_utc": null, "timeout": dur(3, 0)}}}),
        ),
        (
            MatchValidationType::Aws(AwsType::AwsSecret(AwsConfig { aws_sts_endpoint: "http://x".into(), forced_datetime_utc: None, timeout: std::time::Duration::from_millis(1500) })),
            json!({"Aws": {"AwsSecret": {"aws_sts_endpoint": "http://x", "forced_datetime_utc": null, "timeout": dur(1, 500_000_000)}}}),
        ),
    ];
    for (m, n) in [(HttpMethod::Get, "Get"), (HttpMethod::Post, "Post"), (HttpMethod::Put, "Put"), (HttpMethod::Delete, "Delete"), (HttpMethod::Patch, "Patch")] {
        for hosts in [vec![], vec!["a".to_string()], vec!["a".to_string(), "b".to_string()]] {
            let ep = if hosts.is_empty() { "http://h/p" } else { "http://$HOST/p" };
            let eps: Vec<String> = if hosts.is_empty() { vec![ep.into()] } else { hosts.iter().map(|h| ep.replace("$HOST", h)).collect() };
            let mut b = HttpValidatorConfigBuilder::new(ep.into());
            b.set_method(m.clone()).set_hosts(hosts.clone());
            let (mut jh, mut jv, mut ji, mut jd) = (json!([{"key": "Authorization", "value": "Bearer $MATCH"}]), json!([{"start": 200, "end": 300}]), json!([{"start": 400, "end": 500}]), dur(3, 0));
            if hosts.len() == 1 {
                b.set_request_header(vec![]).set_valid_http_status_code(vec![]).set_invalid_http_status_code(vec![]).set_timeout(std::time::Duration::from_nanos(7));
                (jh, jv, ji, jd) = (json!([]), json!([]), json!([]), dur(0, 7));
            }
            if hosts.len() == 2 {
                b.set_request_header(vec![RequestHeader { key: "K".into(), value: "$MATCH".into() }, RequestHeader { key: "L".into(), value: "".into() }])
                    .set_valid_http_status_code(vec![200..201, 204..205])
                    .set_invalid_http_status_code(vec![0..0, 65534..65535]);
                (jh, jv, ji) = (json!([{"key": "K", "value": "$MATCH"}, {"key": "L", "value": ""}]), json!([{"start": 200, "end": 201}, {"start": 204, "end": 205}]), json!([{"start": 0, "end": 0}, {"start": 65534, "end": 65535}]));
            }
            let cfg = b.build().unwrap();
            v.push((
                MatchValidationType::CustomHttp(cfg),
                json!({"CustomHttp": {"endpoints": eps, "method": n, "request_header": jh, "valid_http_status_code": jv, "invalid_http_status_code": ji, "options": {"timeout": jd}}}),
            ));
        }
    }
    v
}
fn scopes() -> Vec<Scope> {
    let ps = vec![Path::root(), path("a"), path("a.0"), path("0.é"), Path { segments: vec![PathSegment::Field("".into()), PathSegment::Index(usize::MAX), PathSegment::Field("a.\"b\"[0]\n".into())] }];
    let mut l: Vec<Vec<Path<'static>>> = vec![vec![]];
    for p in &ps {
        l.push(vec![p.clone()]);
    }
    for p in &ps {
        for q in &ps {
            l.push(vec![p.clone(), q.clone()]);
        }
    }
    let mut v: Vec<Scope> = l.iter().map(|x| Scope::Exclude(x.clone())).collect();
    for a in &l {
        for b in &l {
            v.push(Scope::Include { include: a.clone(), exclude: b.clone() });
        }
    }
    v
}
/// to JSON = expected; from JSON (value, compact text, pretty text) = original; and again.
fn roundtrip<X>(w: &mut Worker, x: &X, want: &Value) -> bool
where
    X: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let case = want.to_string();
    let Some((v, s)) = w.run(&case, 1, || (serde_json::to_value(x), serde_json::to_string(x))) else { return false };
    let (v, s) = match (v, s) {
        (Ok(v), Ok(s)) => (v, s),
        e => {
            w.violate("json", json!({"case": case, "error": format!("{e:?}")}));
            return false;
        }
    };
    w.outcome(&case, true);
    if &v != want {
        w.violate("json", json!({"case": case, "written": v}));
        return false;
    }
    let Some(back) = w.run(&case, 1, || {
        vec![
            serde_json::from_value::<X>(want.clone()).map_err(|e| e.to_string()),
            serde_json::from_str::<X>(&s).map_err(|e| e.to_string()),
            serde_json::from_str::<X>(&serde_json::to_string_pretty(want).unwrap()).map_err(|e| e.to_string()),
            serde_json::from_slice::<X>(want.to_string().as_bytes()).map_err(|e| e.to_string()),
        ]
    }) else {
        return false;
    };
    for b in back {
        if b.as_ref().ok() != Some(x) {
            w.violate("json", json!({"case": case, "expected": format!("{x:?}"), "read back": format!("{b:?}")}));
            return false;
        }
    }
    if w.want_sample() {
        w.ctx.sample(json!({"space": w.space, "json": case}));
    }
    true
}
fn read<X: serde::de::DeserializeOwned>(v: &Value) -> Result<X, String> {
    serde_json::from_value::<X>(v.clone()).map_err(|e| e.to_string())
}
fn expect_read<X>(w: &mut Worker, v: &Value, want: Option<&X>) -> bool
where
    X: serde::de::DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let case = v.to_string();
    let Some((a, b)) = w.run(&case, 1, || (read::<X>(v), serde_json::from_str::<X>(&case).map_err(|e| e.to_string()))) else { return false };
    w.outcome(&(case.clone(), want.is_some()), want.is_some());
    if a.as_ref().ok() != want || b.as_ref().ok() != want {
        w.violate("read", json!({"case": case, "expected": format!("{want:?}"), "observed": format!("{a:?} / {b:?}")}));
        return false;
    }
    true
}
/// Variants of a tag that must not be accepted in its place.
fn near(tag: &str, all: &[&str]) -> Vec<String> {
    let mut v = vec![tag.to_lowercase(), tag.to_uppercase(), format!("{tag} "), format!(" {tag}"), format!("{tag}s"), tag[..tag.len() - 1].to_string(), String::new(), "Other".into()];
    // snake_case and camelCase
    let mut snake = String::new();
    for (i, ch) in tag.chars().enumerate() {
        if ch.is_uppercase() && i > 0 {
            snake.push('_');
        }
        snake.push(ch.to_ascii_lowercase());
    }
    v.push(snake);
    v.push(tag[..1].to_lowercase() + &tag[1..]);
    v.retain(|x| !all.contains(&x.as_str()));
    v
}
fn same_behaviour(w: &mut Worker, a: &RegexRuleConfig, b: &RegexRuleConfig) -> bool {
    let evs: Vec<Strs> = vec![
        one("a 42 k 42 x 42"),
        strs(&[("a", "k 42"), ("b", "42 424242424242")]),
        strs(&[("a.0", "4242"), ("0.é", "k42"), ("b", "4242")]),
    ];
    let run = |r: &RegexRuleConfig| -> Result<Vec<Value>, String> {
        let sc = build(std::slice::from_ref(r), Opts::default()).map_err(|e| format!("{e:?}"))?;
        Ok(evs.iter().map(|e| show(&run_impl::<Utf8Encoding>(&sc, e, &[]).0)).collect())
    };
    let text = rules_text(std::slice::from_ref(a), &Opts::default());
    let Some((x, y)) = w.run(&text, 3, || (run(a), run(b))) else { return false };
    if x != y {
        w.violate("behaviour", json!({"case": text, "original": format!("{x:?}"), "read back": format!("{y:?}")}));
        return false;
    }
    true
}
pub fn c18(c: &Ctx) {
    let texts = ["a", "", "\\d+", "\"\\\u{0}\n\u{7f}é€𝄞", "null", "[1]"];
    let acts: Vec<MatchAction> = {
        let mut v = all_actions();
        v.extend(texts.iter().map(|t| redact(t)));
        v.extend([partial(true, 0), partial(false, usize::MAX)]);
        v
    };
    let all_scopes = scopes();
    let kwl: Vec<Vec<String>> = vec![vec![], vec!["k".into()], vec!["".into(), "é-_ ".into()], texts.iter().map(|s| s.to_string()).collect()];
    let mut kwc: Vec<ProximityKeywordsConfig> = vec![];
    for l in [0usize, 1, 30, 50, 51, usize::MAX] {
        for i in &kwl {
            for e in &kwl {
                kwc.push(pk(l, i.clone(), e.clone()));
            }
        }
    }
    let lab = |v: &[(&str, &str)]| Labels::new(&v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>());
    let labels: Vec<Vec<(&str, &str)>> = vec![vec![], vec![("k", "v")], vec![("", "")], vec![("k", "v"), ("k", "v")], vec![("b", "1"), ("a", "é\"\n")], vec![("1", "2"), ("3", "4"), ("5", "6")]];
    // parts on their own
    c.space("parts", "every path, scope, action, validator, label set, keyword configuration and validation type of the bound: exact JSON form and round trip", &[0usize, 1, 2, 3, 4, 5, 6], |w, &part| {
        match part {
            0 => {
                let segs: Vec<PathSegment<'static>> = vec![PathSegment::Field("".into()), PathSegment::Field("a".into()), PathSegment::Field("é\"\\".into()), PathSegment::Field("0".into()), PathSegment::Index(0), PathSegment::Index(1), PathSegment::Index(usize::MAX)];
                let mut level: Vec<Vec<PathSegment<'static>>> = vec![vec![]];
                for _ in 0..c.q(4, 6) {
                    for l in &level {
                        let p = Path { segments: l.clone() };
                        if !roundtrip(w, &p, &jpath(&p)) {
                            return;
                        }
                    }
                    level = level.iter().flat_map(|l| segs.iter().map(move |s| [l.clone(), vec![s.clone()]].concat())).collect();
                }
            }
            1 => {
                for s in &all_scopes {
                    if !roundtrip(w, s, &jscope(s)) {
                        return;
                    }
                }
            }
            2 => {
                for a in &acts {
                    if !roundtrip(w, a, &jaction(a)) {
                        return;
                    }
                }
                for n in (0..300).chain([65535, 65536, u32::MAX as usize, u32::MAX as usize + 1]) {
                    for f in [true, false] {
                        let a = partial(f, n);
                        if !roundtrip(w, &a, &jaction(&a)) {
                            return;
                        }
                    }
                }
            }
            3 => {
                for (v, n) in validators() {
                    if !roundtrip(w, &v, &json!({"type": n})) {
                        return;
                    }
                }
            }
            4 => {
                for l in &labels {
                    let j = Value::Array(l.iter().map(|(a, b)| json!([a, b])).collect());
                    if !roundtrip(w, &lab(l), &j) {
                        return;
                    }
                }
            }
            5 => {
                for k in &kwc {
                    if !roundtrip(w, k, &jkw(k)) {
                        return;
                    }
                }
            }
            _ => {
                for (m, j) in mvts() {
                    if !roundtrip(w, &m, &j) {
                        return;
                    }
                }
            }
        }
    });
    // whole rules: every pair of optional parts together (every other one at its default), and a full product of representatives
    let opt_v: Vec<Option<(SecondaryValidator, &str)>> = std::iter::once(None).chain(validators().into_iter().map(Some)).collect();
    let opt_m: Vec<Option<(MatchValidationType, Value)>> = std::iter::once(None).chain(mvts().into_iter().map(Some)).collect();
    let opt_k: Vec<Option<ProximityKeywordsConfig>> = std::iter::once(None).chain(kwc.iter().step_by(c.q(7, 2)).cloned().map(Some)).collect();
    let pats = ["a", r"\d+", "4(2", "\"\\\n𝄞"];
    let sc_step = c.q(60, 13);
    let mut items = vec![];
    for a in &acts {
        for p in pats {
            items.push((a.clone(), p));
        }
    }
    let jrule = |p: &str, a: &MatchAction, s: &Scope, k: &Option<ProximityKeywordsConfig>, v: &Option<(SecondaryValidator, &str)>, l: &[(&str, &str)], m: &Option<(MatchValidationType, Value)>| {
        json!({"pattern": p, "match_action": jaction(a), "scope": jscope(s), "proximity_keywords": k.as_ref().map(jkw),
               "validator": v.as_ref().map(|x| json!({"type": x.1})), "labels": l.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>(),
               "match_validation_type": m.as_ref().map(|x| x.1.clone())})
    };
    let mk = |p: &str, a: &MatchAction, s: &Scope, k: &Option<ProximityKeywordsConfig>, v: &Option<(SecondaryValidator, &str)>, l: &[(&str, &str)], m: &Option<(MatchValidationType, Value)>| RegexRuleConfig {
        pattern: p.into(),
        match_action: a.clone(),
        scope: s.clone(),
        proximity_keywords: k.clone(),
        validator: v.as_ref().map(|x| x.0.clone()),
        labels: lab(l),
        match_validation_type: m.as_ref().map(|x| x.0.clone()),
    };
    c.space("rules", "actions x patterns x scopes x keyword configurations x validators x (labels, validation types in step): exact JSON form and round trip", &items, |w, (a, p)| {
        let mut n = 0usize;
        for s in all_scopes.iter().step_by(sc_step) {
            for k in &opt_k {
                for v in &opt_v {
                    let l = &labels[n % labels.len()];
                    let m = &opt_m[(n / labels.len()) % opt_m.len()];
                    n += 1;
                    let r = mk(p, a, s, k, v, l, m);
                    if !roundtrip(w, &r, &jrule(p, a, s, k, v, l, m)) {
                        return;
                    }
                }
            }
        }
        for l in &labels {
            for m in &opt_m {
                let r = mk(p, a, &all_scopes[3], &opt_k[1], &opt_v[1], l, m);
                if !roundtrip(w, &r, &jrule(p, a, &all_scopes[3], &opt_k[1], &opt_v[1], l, m)) {
                    return;
                }
            }
        }
    });
    // behaviour after a round trip
    let mut items = vec![];
    for a in acts.iter() {
        if !matches!(a, MatchAction::PartialRedact { character_count: usize::MAX, .. }) {
            items.push(a.clone());
        }
    }
    c.space("behaviour", "every action x scope x keyword representative, built and scanned before and after the round trip", &items, |w, a| {
        for s in all_scopes.iter().step_by(c.q(23, 5)) {
            for k in [None, Some(kw(4, &["k"], &[])), Some(kw(4, &[], &["k"])), Some(kw(0, &[], &[])), Some(kw(30, &["k", "K-x"], &["x"]))] {
                for v in [None, Some(SecondaryValidator::LuhnChecksum), Some(SecondaryValidator::JwtExpirationChecker)] {
                    let r = RegexRuleConfig { pattern: r"\d\d".into(), match_action: a.clone(), scope: s.clone(), proximity_keywords: k.clone(), validator: v.clone(), labels: lab(&labels[1]), match_validation_type: None };
                    let t = serde_json::to_string(&r).unwrap();
                    let Ok(b) = serde_json::from_str::<RegexRuleConfig>(&t) else {
                        w.violate("json", json!({"case": t, "error": "not read back"}));
                        return;
                    };
                    if !same_behaviour(w, &r, &b) {
                        return;
                    }
                }
            }
        }
    });
    // defaults: every combination of absent / null / present for the optional fields
    let opts = [0u8, 1, 2];
    let mut items = vec![];
    for a in opts {
        for b in opts {
            items.push((a, b));
        }
    }
    c.space("defaults", "every combination of absent, null or present for the optional fields of rules and keyword configurations", &items, |w, &(s, k)| {
        for v in opts {
            for l in opts {
                for m in opts {
                    let sc = Scope::include(vec![path("a")]);
                    let kc = kw(5, &["k"], &["x"]);
                    let mv = mvts().remove(0);
                    let mut o = serde_json::Map::new();
                    o.insert("pattern".into(), json!("a"));
                    o.insert("match_action".into(), json!({"type": "Hash"}));
                    let mut put = |n: &str, st: u8, val: Value| {
                        match st {
                            1 => drop(o.insert(n.into(), Value::Null)),
                            2 => drop(o.insert(n.into(), val)),
                            _ => {}
                        }
                    };
                    if s == 1 {
                        continue; // the scope is not nullable
                    }
                    put("scope", s, jscope(&sc));
                    put("proximity_keywords", k, jkw(&kc));
                    put("validator", v, json!({"type": "LuhnChecksum"}));
                    put("labels", l, json!([["k", "v"]]));
                    put("match_validation_type", m, mv.1.clone());
                    let want = RegexRuleConfig {
                        pattern: "a".into(),
                        match_action: MatchAction::Hash,
                        scope: if s == 2 { sc } else { Scope::Exclude(vec![]) },
                        proximity_keywords: (k == 2).then_some(kc),
                        validator: (v == 2).then_some(SecondaryValidator::LuhnChecksum),
                        labels: if l == 2 { lab(&[("k", "v")]) } else { lab(&[]) },
                        match_validation_type: (m == 2).then_some(mv.0),
                    };
                    if !expect_read(w, &Value::Object(o), Some(&want)) {
                        return;
                    }
                }
            }
        }
        for i in opts {
            for e in opts {
                let mut o = serde_json::Map::new();
                o.insert("look_ahead_character_count".into(), json!(7));
                for (n, st) in [("included_keywords", i), ("excluded_keywords", e)] {
                    match st {
                        1 => drop(o.insert(n.into(), Value::Null)),
                        2 => drop(o.insert(n.into(), json!([n]))),
                        _ => {}
                    }
                }
                let want = kw(7, if i == 2 { &["included_keywords"] } else { &[] }, if e == 2 { &["excluded_keywords"] } else { &[] });
                if !expect_read(w, &Value::Object(o), Some(&want)) {
                    return;
                }
            }
        }
    });
    // required fields
    c.space("required", "every required field or tag missing is an error", &[()], |w, _| {
        let full = jrule("a", &redact("x"), &scopes()[40], &Some(kw(5, &["k"], &[])), &opt_v[1], &[("k", "v")], &None);
        for f in ["pattern", "match_action"] {
            let mut v = full.clone();
            v.as_object_mut().unwrap().remove(f);
            if !expect_read::<RegexRuleConfig>(w, &v, None) {
                return;
            }
        }
        for v in [json!({}), json!({"replacement": "x"}), json!({"type": "Redact"}), json!({"type": "PartialRedact", "character_count": 1}), json!({"type": "PartialRedact", "direction": "FirstCharacters"}), json!("None"), json!(null)] {
            if !expect_read::<MatchAction>(w, &v, None) {
                return;
            }
        }
        for v in [json!({}), json!({"included_keywords": []})] {
            if !expect_read::<ProximityKeywordsConfig>(w, &v, None) {
                return;
            }
        }
        for v in [json!({}), json!({"type": "Include"}), json!({"type": "Exclude"}), json!({"paths": []})] {
            if !expect_read::<Scope>(w, &v, None) {
                return;
            }
        }
    });
    // tags
    c.space("tags", "every tag of every enum replaced by near-miss spellings is an error; every tag is accepted", &[0usize, 1, 2, 3, 4, 5, 6], |w, &e| {
        let acts = ["None", "Redact", "Hash", "Utf16Hash", "PartialRedact"];
        let vals: Vec<&str> = validators().iter().map(|v| v.1).collect();
        let act = |t: &str| json!({"type": t, "replacement": "x", "direction": "FirstCharacters", "character_count": 2});
        match e {
            0 => {
                for t in acts {
                    if !expect_read(w, &act(t), Some(&match t { "None" => MatchAction::None, "Redact" => redact("x"), "Hash" => MatchAction::Hash, "Utf16Hash" => all_actions()[6].clone(), _ => partial(true, 2) })) {
                        return;
                    }
                    for n in near(t, &acts) {
                        if !expect_read::<MatchAction>(w, &act(&n), None) {
                            return;
                        }
                    }
                }
            }
            1 => {
                for (v, t) in validators() {
                    if !expect_read(w, &json!({"type": t}), Some(&v)) {
                        return;
                    }
                    for n in near(t, &vals) {
                        if !expect_read::<SecondaryValidator>(w, &json!({"type": n}), None) {
                            return;
                        }
                    }
                }
            }
            2 => {
                for t in ["Include", "Exclude"] {
                    for n in near(t, &["Include", "Exclude"]) {
                        for p in [json!([]), json!({"include": [], "exclude": []})] {
                            if !expect_read::<Scope>(w, &json!({"type": n, "paths": p}), None) {
                                return;
                            }
                        }
                    }
                }
            }
            3 => {
                for t in ["Field", "Index"] {
                    for n in near(t, &["Field", "Index"]) {
                        for p in [json!(0), json!("a")] {
                            if !expect_read::<PathSegment>(w, &json!({"type": n, "value": p}), None) {
                                return;
                            }
                        }
                    }
                }
                for v in [json!({"type": "Field", "value": 1}), json!({"type": "Index", "value": "1"}), json!({"type": "Index", "value": -1})] {
                    if !expect_read::<PathSegment>(w, &v, None) {
                        return;
                    }
                }
            }
            4 => {
                for t in ["FirstCharacters", "LastCharacters"] {
                    for n in near(t, &["FirstCharacters", "LastCharacters"]) {
                        if !expect_read::<MatchAction>(w, &json!({"type": "PartialRedact", "direction": n, "character_count": 2}), None) {
                            return;
                        }
                    }
                }
            }
            5 => {
                for t in ["Aws", "CustomHttp", "AwsId", "AwsSession"] {
                    for n in near(t, &["Aws", "CustomHttp"]) {
                        if !expect_read::<MatchValidationType>(w, &json!({n.clone(): "AwsId"}), None) {
                            return;
                        }
                        if n != "AwsId" && n != "AwsSession" && !expect_read::<MatchValidationType>(w, &json!({"Aws": n}), None) {
                            return;
                        }
                    }
                }
            }
            _ => {
                let j = mvts().pop().unwrap().1;
                for t in ["Get", "Post", "Put", "Delete", "Patch"] {
                    for n in near(t, &["Get", "Post", "Put", "Delete", "Patch"]) {
                        let mut j = j.clone();
                        j["CustomHttp"]["method"] = json!(n);
                        if !expect_read::<MatchValidationType>(w, &j, None) {
                            return;
                        }
                    }
                }
            }
        }
    });
    // labels
    let elems: Vec<Value> = vec![json!([]), json!(["a"]), json!(["a", "b"]), json!(["", ""]), json!(["a", "b", "c"]), json!(["a", "b", "c", "d"]), json!("ab"), json!(["a", 1]), json!([null, "a"]), json!(null), json!({"a": "b"})];
    let mut lists: Vec<Vec<Value>> = vec![vec![]];
    let mut level = lists.clone();
    for _ in 0..c.q(3, 4) {
        level = level.iter().flat_map(|l| elems.iter().map(move |e| [l.clone(), vec![e.clone()]].concat())).collect();
        lists.extend(level.clone());
    }
    c.space("label-pairs", "every list of up to 3 (4) elements that are pairs, shorter or longer lists, or no lists at all", &lists, |w, l| {
        let good = l.iter().all(|e| e.as_array().map_or(false, |a| a.len() == 2 && a.iter().all(|x| x.is_string())));
        let want = good.then(|| Labels::new(&l.iter().map(|e| (e[0].as_str().unwrap().to_string(), e[1].as_str().unwrap().to_string())).collect::<Vec<_>>()));
        expect_read(w, &Value::Array(l.clone()), want.as_ref());
        let r = json!({"pattern": "a", "match_action": {"type": "None"}, "labels": l});
        let wr = want.map(|x| rule("a").labels(x));
        expect_read(w, &r, wr.as_ref());
    });
}
