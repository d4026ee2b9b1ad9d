//! Helpers shared by the checks.
use crate::core::*;
use crate::refscan::*;
use dd_sds::*;
use serde_json::json;

/// Which part of the result a check compares.
#[derive(Clone, Copy, PartialEq)]
pub enum Cmp {
    All,
    Output,
    Matches,
}
pub fn case_text(strs: &Strs, blocked: &[usize]) -> String {
    let mut s = String::new();
    for (p, t) in strs {
        if !p.segments.is_empty() {
            s.push_str(&path_key(p));
            s.push('=');
        }
        s.push_str(&format!("{t:?} "));
    }
    if !blocked.is_empty() {
        s.push_str(&format!("blocked={blocked:?}"));
    }
    s
}
pub fn rules_text(rules: &[RegexRuleConfig], o: &Opts) -> String {
    let r: Vec<_> = rules.iter().map(|r| serde_json::to_value(r).unwrap()).map(strip_nulls).collect();
    let mut s = serde_json::to_string(&r).unwrap();
    if *o != Opts::default() {
        s.push_str(&format!(" {o:?}"));
    }
    s
}
fn strip_nulls(v: serde_json::Value) -> serde_json::Value {
    match v {
        serde_json::Value::Object(m) => serde_json::Value::Object(
            m.into_iter()
                .filter(|(k, v)| {
                    !v.is_null()
                        && !(k == "labels" && v.as_array().map_or(false, |a| a.is_empty()))
                        && !(k == "scope" && *v == json!({"type":"Exclude","paths":[]}))
                })
                .map(|(k, v)| (k, strip_nulls(v)))
                .collect(),
        ),
        v => v,
    }
}
pub struct Pair {
    pub sc: Scanner,
    pub rf: RefScanner,
}
/// Builds the implementation and the reference for a configuration; a refused build is a violation.
pub fn pair(w: &mut Worker, rules: &[RegexRuleConfig], o: Opts) -> Option<Pair> {
    w.config(rules_text(rules, &o));
    let sc = w.run("(build)", 1, || build(rules, o))?;
    match sc {
        Ok(sc) => Some(Pair {
            sc,
            rf: RefScanner::new(rules, o),
        }),
        Err(e) => {
            w.violate("build", json!({"case": "(build)", "error": format!("{e:?}")}));
            None
        }
    }
}
pub fn run_enc(sc: &Scanner, strs: &Strs, blocked: &[usize], enc: Enc) -> (Out, Option<String>) {
    match enc {
        Enc::Utf8 => run_impl::<Utf8Encoding>(sc, strs, blocked),
        Enc::Utf16 => run_impl::<CustomEnc<true>>(sc, strs, blocked),
        Enc::Chars => run_impl::<CustomEnc<false>>(sc, strs, blocked),
    }
}
/// One case: implementation against reference. False when a violation was recorded.
pub fn check(w: &mut Worker, p: &Pair, strs: &Strs, blocked: &[usize], enc: Enc, cmp: Cmp) -> bool {
    let text = case_text(strs, blocked);
    let steps = strs.iter().map(|s| s.1.len() as u64 + s.0.segments.len() as u64).sum::<u64>();
    let Some((got, bad)) = w.run(&text, steps, || run_enc(&p.sc, strs, blocked, enc)) else {
        return false;
    };
    let want = p.rf.scan(strs, blocked, enc);
    let ok = match cmp {
        Cmp::All => same(&got, &want),
        Cmp::Output => got.strs == want.strs && got.mutated == want.mutated,
        Cmp::Matches => got.matches == want.matches,
    };
    w.outcome(&want, !want.matches.is_empty());
    if !ok || bad.is_some() {
        w.violate(
            "mismatch",
            json!({"case": text, "encoding": format!("{enc:?}"), "expected": show(&want), "observed": show(&got), "protocol": bad}),
        );
        return false;
    }
    if !want.matches.is_empty() && w.want_sample() {
        let c = w.cfg_text().to_string();
        w.ctx.sample(json!({"space": w.space, "config": c, "case": text, "result": show(&got)}));
    }
    true
}
pub fn one(s: &str) -> Strs {
    vec![(Path::root(), s.to_string())]
}
pub fn rule(p: &str) -> RegexRuleConfig {
    RegexRuleConfig::new(p)
}
#[allow(deprecated)]
pub fn all_actions() -> Vec<MatchAction> {
    vec![
        MatchAction::None,
        redact(""),
        redact("X"),
        redact("é€"),
        redact("aaa"),
        MatchAction::Hash,
        MatchAction::Utf16Hash,
        partial(true, 1),
        partial(true, 2),
        partial(true, 5),
        partial(false, 1),
        partial(false, 2),
        partial(false, 5),
    ]
}

/// Every concatenation of up to `max` tokens.
pub fn token_strings(tokens: &[&str], max: usize, f: &mut dyn FnMut(&str) -> bool) -> bool {
    fn go(tokens: &[&str], left: usize, s: &mut String, f: &mut dyn FnMut(&str) -> bool) -> bool {
        if !f(s) {
            return false;
        }
        if left > 0 {
            for t in tokens {
                let n = s.len();
                s.push_str(t);
                let r = go(tokens, left - 1, s, f);
                s.truncate(n);
                if !r {
                    return false;
                }
            }
        }
        true
    }
    go(tokens, max, &mut String::new(), f)
}
/// Pieces of realistic text, from one character to longer than any window: keywords, secrets, numbers
/// that pass and fail their checksum, wide characters, separators, filler.
pub const TOKENS: &[&str] = &[
    "key", "id ", "secret", " ", "-", "é", "世世𝄞", "4111111111111111", "4111111111111112", "12", "lorem ipsum dolor sit amet, consec, ", "1234567890123456789012345678901234",
];
/// Rules that combine every feature a rule can have with every other.
pub fn feature_rules() -> Vec<RegexRuleConfig> {
    use SecondaryValidator::*;
    let mut v = vec![];
    for p in [r"\d{16}", r"secret\S*", r"[é世𝄞]+\d*", r"\S{33}"] {
        for k in [kw(10, &["key"], &[]), kw(10, &[], &["id"]), kw(6, &["id", "key"], &["secret"]), kw(50, &[], &["key", "secret"])] {
            for luhn in [false, true] {
                if luhn && !p.contains("\\d") && !p.contains("\\S") {
                    continue;
                }
                let mut r = rule(p).proximity_keywords(k.clone());
                if luhn {
                    r = r.validator(LuhnChecksum);
                }
                v.push(r);
            }
        }
        v.push(rule(p));
        v.push(rule(p).validator(LuhnChecksum));
    }
    let acts = [MatchAction::None, redact("[R]"), partial(false, 4), redact(""), MatchAction::Hash, partial(true, 20)];
    for (i, r) in v.iter_mut().enumerate() {
        r.match_action = acts[i % acts.len()].clone();
    }
    v
}
/// Feature rules, alone and with a second rule, on every sequence of text pieces; with `excluded`, the second
/// string of the event is in an excluded scope of the first rule.
pub fn mixed(c: &Ctx, depth: usize, cmp: Cmp, encs: &[Enc], excluded: bool) {
    let rules = feature_rules();
    let items: Vec<(usize, usize)> = (0..rules.len()).flat_map(|i| (0..3).map(move |k| (i, k))).collect();
    let what = if excluded { "two strings of one event, the second in an excluded scope, each" } else { "one string," };
    c.space("pieces", &format!("{} rules combining pattern, keywords, checksum and action, alone and with 2 other rules x {what} every sequence of up to {depth} of {} text pieces of 1-36 characters", rules.len(), TOKENS.len()), &items, |w, (i, k)| {
        let mut rs = vec![rules[*i].clone()];
        match k {
            0 => (),
            1 => rs.push(rule(r"\w+").match_action(if rs[0].match_action.is_mutating() { MatchAction::None } else { redact("é") })),
            _ => rs.insert(0, rule(r"[ce]|1+|世").match_action(redact("##"))),
        }
        if excluded {
            let n = if *k == 2 { 1 } else { 0 };
            rs[n].scope = Scope::Exclude(vec![path("x")]);
        }
        let Some(p) = pair(w, &rs, Opts::default()) else { return };
        if !excluded {
            let mut n = 0;
            token_strings(TOKENS, depth, &mut |t| {
                n += 1;
                check(w, &p, &one(t), &[], encs[n % encs.len()], cmp) && !w.stopped()
            });
        } else {
            let mut all = vec![];
            token_strings(TOKENS, depth, &mut |t| {
                all.push(t.to_string());
                true
            });
            let short: Vec<String> = all.iter().filter(|t| t.len() <= 22 && !t.is_empty()).cloned().collect();
            for a in &all {
                // every second string that shares a piece of the first one
                for b in [a.clone(), format!("key {a}"), format!("id {a} "), "secret".into(), "key secret".into(), "key 4111111111111111".into(), "世世𝄞12".into()] {
                    if !check(w, &p, &strs(&[("a", a), ("x", &b)]), &[], encs[0], cmp) || !check(w, &p, &strs(&[("x", &b), ("y", a)]), &[], encs[0], cmp) || w.stopped() {
                        return;
                    }
                }
            }
            for a in &short {
                for b in &short {
                    if a.len() + b.len() < 20 && (!check(w, &p, &strs(&[("a", a), ("x", b)]), &[], encs[0], cmp) || w.stopped()) {
                        return;
                    }
                }
            }
        }
    });
}
/// Everything at once: all the feature rules together, in several scope layouts and orders, on events of many
/// strings holding every sequence of text pieces, chunked into events of n strings.
pub fn crowd(c: &Ctx, cmp: Cmp, encs: &[Enc]) {
    let rules = feature_rules();
    let places = ["", "a", "a.b", "x", "x.0", "x.1.key", "y.key-id", "message", "y.Secret.2", "z"];
    let mut texts = vec![];
    token_strings(TOKENS, c.q(2, 3), &mut |t| {
        texts.push(t.to_string());
        true
    });
    let ns: Vec<usize> = (1..=c.q(40, 70)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 513]).collect();
    let items: Vec<(usize, usize)> = ns.iter().flat_map(|n| (0..6).map(move |k| (*n, k))).collect();
    c.space("crowd", "all feature rules in one scanner, three rule orders x scopes or none x settings, on events of n strings (n = 1.. and around powers of two) that together hold every sequence of text pieces", &items, |w, (n, k)| {
        let mut rs = rules.clone();
        match k % 3 {
            0 => (),
            1 => rs.reverse(),
            _ => rs = (0..rules.len()).map(|i| rules[i * 7 % rules.len()].clone()).collect(),
        }
        if *k >= 3 {
            for (i, r) in rs.iter_mut().enumerate() {
                r.scope = match i % 5 {
                    0 => Scope::all(),
                    1 => Scope::exclude(vec![path("x")]),
                    2 => Scope::include(vec![path("a"), path("y"), path("x.1")]),
                    3 => Scope::include_and_exclude(vec![path(""), path("a")], vec![path("a.b"), path("z")]),
                    _ => Scope::exclude(vec![path("s3"), path("x.0"), path("message")]),
                };
            }
        }
        let o = Opts { kw_paths: k % 2 == 1, wild: k % 4 == 2, multipass: *k != 5, ..Opts::default() };
        let Some(p) = pair(w, &rs, o) else { return };
        let stride = texts.len() / 3 + 1;
        for (m, e) in (0..texts.len()).step_by((*n).max(texts.len() / 24)).enumerate() {
            let ev: Strs = (0..*n)
                .map(|i| {
                    let t = &texts[(e + i * if m % 2 == 0 { 1 } else { stride }) % texts.len()];
                    let pl = if i < places.len() { places[(i + m) % places.len()].to_string() } else { format!("{}s{i}", if i % 3 == 0 { "x." } else { "" }) };
                    (path(&pl), t.clone())
                })
                .collect();
            if !check(w, &p, &ev, &[], encs[m % encs.len()], cmp) || w.stopped() {
                return;
            }
        }
    });
}

/// Long strings: pieces around filler of every size around a power of two, long matches and long candidates.
pub fn far(c: &Ctx, cmp: Cmp, encs: &[Enc], big: bool) {
    use SecondaryValidator::*;
    let mut ns = vec![];
    for k in (2..c.q(17, 20)).chain(if big { c.q(20..21, 20..23) } else { 0..0 }) {
        let p = 1usize << k;
        ns.extend([p - 1, p, p + 1]);
    }
    ns.reverse();
    let mut items = vec![];
    for n in ns {
        for k in 0..if n > 1 << 17 { c.q(1, 3) } else if n > 1 << 13 { 3 } else { 9 } {
            items.push((n, k));
        }
    }
    c.space("far", "strings of up to 2^16 (2^19; C04 and C06 2^20 and 2^22) characters: filler of 2^k-1, 2^k, 2^k+1 characters before, between and after matches, rejected candidates and keywords; matches, candidates and shared values that long", &items, |w, &(n, k)| {
        let rs = match k {
            0 => vec![rule("key|m+").match_action(redact("#")), rule(r"\d{2}").validator(LuhnChecksum).match_action(partial(false, 1))],
            1 => vec![rule("key|m+").scope(Scope::Exclude(vec![path("x")])).match_action(redact("#")), rule("id").proximity_keywords(kw(8, &["key"], &[]))],
            2 => vec![rule("key|m+").match_action(MatchAction::Hash).proximity_keywords(kw(8, &[], &["id"]))],
            3 => vec![rule("key|m+"), rule("mkey|m{2}|id").match_action(redact("longer"))],
            4 => vec![rule("key|m+").match_action(partial(true, 3)).scope(Scope::Exclude(vec![path("x")])), rule("m+k?").scope(Scope::Exclude(vec![path("y")]))],
            5 => vec![rule("key|m+").proximity_keywords(kw(20, &["id"], &[])).match_action(redact(""))],
            6 => vec![rule("key|m+").validator(LuhnChecksum), rule(r"\d+").validator(LuhnChecksum).match_action(redact("##"))],
            7 => vec![rule("id.key").match_action(redact("##")), rule("m+").match_action(redact("é")), rule("(?s).+")],
            _ => vec![rule(r"\w+").match_action(MatchAction::Hash), rule("m+").match_action(redact("#"))],
        };
        let Some(p) = pair(w, &rs, Opts::default()) else { return };
        let (f, m) = ("- ".repeat(n / 2) + if n % 2 == 1 { "é" } else { "" }, "m".repeat(n));
        let mut evs = vec![one(&format!("{f}key")), strs(&[("x", &m), ("y", &m)]), one(&format!("id {f}key m 17 18")), one(&format!("17{f}id key {f}18"))];
        if n <= 1 << 16 {
            evs.extend([
                one(&format!("key{f}key{f}id key")),
                one(&format!("key {m}id key id {m} 17 18")),
                strs(&[("y", &format!("id {m}-key")), ("x", &format!("key {m}")), ("z", &m)]),
                one(&format!("{}18 key", "17 ".repeat((n / 3).min(3000)))),
                one(&format!("0{}18", "0".repeat(n))),
            ]);
        }
        for (i, ev) in evs.iter().enumerate() {
            if !check(w, &p, ev, &[], encs[i % encs.len()], cmp) || w.stopped() {
                return;
            }
        }
    });
}
