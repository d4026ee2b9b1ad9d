//! C01 (output), C02 (positions), C03 (overlap), C04 (search iteration)
use crate::common::*;
use crate::core::*;
use crate::refscan::*;
use dd_sds::*;

const SETS: &[&[&str]] = &[
    &["a|€+", "é𝄞?|𝄞"],
    &["a.", ".€|é+"],
    &["(?s).+", "é"],
    &["[a€]", "€+|-𝄞"],
];

fn with_actions(pats: &[&str], acts: &[MatchAction]) -> Vec<RegexRuleConfig> {
    pats.iter()
        .zip(acts)
        .map(|(p, a)| rule(p).match_action(a.clone()))
        .collect()
}

fn action_pairs() -> Vec<(MatchAction, MatchAction)> {
    let a = all_actions();
    let mut v = vec![];
    for x in &a {
        for y in &a {
            v.push((x.clone(), y.clone()));
        }
    }
    v
}

fn c01_02(c: &Ctx, cmp: Cmp, encs: &[Enc]) {
    let alpha: Vec<char> = "aé€𝄞-".chars().collect();
    // 1. all strings x all action pairs x pattern sets
    let len = if cmp == Cmp::Matches { c.q(4, 6) } else { c.q(5, 7) };
    let mut items = vec![];
    for s in SETS {
        for (x, y) in action_pairs() {
            for e in encs {
                items.push((*s, x.clone(), y.clone(), *e));
            }
        }
    }
    c.space(
        "strings",
        &format!("4 pattern pairs x 13x13 action pairs x encodings x every string over a é € 𝄞 - up to length {len}"),
        &items,
        |w, (s, x, y, e)| {
            let Some(p) = pair(w, &with_actions(s, &[x.clone(), y.clone()]), Opts::default()) else { return };
            strings(&alpha, 0, len, &mut |t| check(w, &p, &one(t), &[], *e, cmp) && !w.stopped());
        },
    );
    // 1b. one-byte letters, longer strings (many matches)
    let l2 = c.q(9, 12);
    let ab: Vec<char> = "ab-".chars().collect();
    let small: Vec<MatchAction> = vec![MatchAction::None, redact(""), redact("XY"), partial(true, 1), partial(false, 2)];
    let mut items = vec![];
    for x in &small {
        for y in &small {
            items.push((x.clone(), y.clone()));
        }
    }
    c.space(
        "long-strings",
        &format!("rules a+ and b x 5x5 actions x every string over a b - up to length {l2}"),
        &items,
        |w, (x, y)| {
            let Some(p) = pair(w, &with_actions(&["a+", "b"], &[x.clone(), y.clone()]), Opts::default()) else { return };
            strings(&ab, 0, l2, &mut |t| check(w, &p, &one(t), &[], encs[encs.len() - 1], cmp) && !w.stopped());
        },
    );
    // 2. events of several strings
    let parts = all_strings(&['a', 'é', '-'], 0, 2);
    let paths: &[&[&str]] = &[&["a", "b"], &["a.0", "a.1", "a.0.a"], &["", "x", "x.y"]];
    let mut items = vec![];
    for ps in paths {
        for x in &small {
            for y in &small {
                items.push((*ps, x.clone(), y.clone()));
            }
        }
    }
    c.space(
        "events",
        "events of 2 and 3 strings (every string over a é - up to length 2 at each path) x 5x5 actions",
        &items,
        |w, (ps, x, y)| {
            let Some(p) = pair(w, &with_actions(&["a", "é+|-$"], &[x.clone(), y.clone()]), Opts::default()) else { return };
            let n = ps.len();
            let mut idx = vec![0; n];
            loop {
                let ev: Strs = ps.iter().zip(&idx).map(|(q, i)| (path(q), parts[*i].clone())).collect();
                if !check(w, &p, &ev, &[], encs[0], cmp) || w.stopped() {
                    return;
                }
                let mut k = 0;
                loop {
                    if k == n {
                        return;
                    }
                    idx[k] += 1;
                    if idx[k] < parts.len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
            }
        },
    );
    // 3. scale: number of matches, sizes of gaps, matches and replacements around powers of two
    let counts: Vec<usize> = (0..c.q(70, 300)).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049]).collect();
    c.space(
        "match-counts",
        "strings with n matches, n = 0.. and around powers of two, alternating rules, 4 separators, 5 action pairs",
        &counts,
        |w, n| {
            for (x, y) in [
                (redact("XYZ"), redact("")),
                (redact(""), MatchAction::None),
                (MatchAction::Hash, partial(true, 3)),
                (partial(false, 7), redact("é")),
                (MatchAction::None, MatchAction::None),
            ] {
                let Some(p) = pair(w, &with_actions(&["a", "é+"], &[x, y]), Opts::default()) else { return };
                for sep in ["-", "€", "--𝄞", "é"] {
                    let mut s = String::new();
                    for i in 0..*n {
                        s.push(if i % 3 == 1 { 'é' } else { 'a' });
                        s.push_str(sep);
                    }
                    for e in encs {
                        if !check(w, &p, &one(&s), &[], *e, cmp) {
                            return;
                        }
                    }
                }
            }
        },
    );
    let sizes: Vec<usize> = {
        let mut v = vec![];
        for k in 0..c.q(15, 18) {
            let p = 1usize << k;
            v.extend([p - 1, p, p + 1]);
        }
        v.sort();
        v.dedup();
        v
    };
    c.space(
        "sizes",
        "leading text, match and replacement of size 2^k-1, 2^k, 2^k+1, two matches each",
        &sizes,
        |w, n| {
            for ch in ["a", "é", "𝄞"] {
                let big = ch.repeat(*n);
                let cfgs = [
                    (format!("{big}|m{big}m|m+"), redact("r"), format!("{big}m-m{big}m")),
                    ("m".to_string(), redact(&big), "m-m-".to_string()),
                    ("mk*".to_string(), partial(true, 3), format!("m{}{big}-m", "k".repeat(*n))),
                ];
                for (i, (pat, act, s)) in cfgs.iter().enumerate() {
                    let pat = if i == 0 { "m[^m-]*m|m+".to_string() } else { pat.clone() };
                    let Some(p) = pair(w, &[rule(&pat).match_action(act.clone())], Opts::default()) else { return };
                    for e in encs {
                        if !check(w, &p, &one(s), &[], *e, cmp) {
                            return;
                        }
                    }
                }
            }
        },
    );
    // 4. match values (a validator is configured on one of the rules)
    let l4 = c.q(4, 6);
    c.space(
        "match-values",
        &format!("a match validator on rule 0, rule 1 or both x 5x5 actions x every string up to length {l4}"),
        &items.iter().filter(|i| i.0.len() == 2).cloned().collect::<Vec<_>>(),
        |w, (_, x, y)| {
            for v in 1..4 {
                let mut r = with_actions(&["a.", "é+|𝄞"], &[x.clone(), y.clone()]);
                for k in 0..2 {
                    if v >> k & 1 == 1 {
                        r[k].match_validation_type = Some(MatchValidationType::CustomHttp(
                            HttpValidatorConfigBuilder::new("http://localhost:1/".into()).build().unwrap(),
                        ));
                    }
                }
                let Some(p) = pair(w, &r, Opts::default()) else { return };
                strings(&alpha, 0, l4, &mut |t| check(w, &p, &one(t), &[], encs[0], cmp) && !w.stopped());
            }
        },
    );
    c.space("match-value-sizes", "a match validator; matches, gaps and replacements of size 2^k-1, 2^k, 2^k+1; that many matches", &sizes, |w, n| {
        for x in [MatchAction::None, redact(&"é".repeat(*n)), redact(""), partial(false, 3)] {
            let mut r = with_actions(&["m[^m-]*m", "x"], &[x.clone(), redact("yy")]);
            r[0].match_validation_type = Some(MatchValidationType::CustomHttp(HttpValidatorConfigBuilder::new("http://localhost:1/".into()).build().unwrap()));
            let Some(p) = pair(w, &r, Opts::default()) else { return };
            let (a, b) = ("é".repeat(*n), "𝄞 x".repeat(*n / 2));
            let count = (*n).min(2050);
            for t in [format!("m{a}m-x-m{b}m{a}m1m"), format!("{a}m1m{b}m{a}mx"), format!("x{b}{}", "m1m x".repeat(count))] {
                if !matches!(x, MatchAction::Redact { .. }) || t.matches('m').count() < 100 || *n < 300 {
                    if !check(w, &p, &one(&t), &[], encs[0], cmp) || w.stopped() {
                        return;
                    }
                }
            }
        }
    });
}

pub fn c01(c: &Ctx) {
    c01_02(c, Cmp::Output, &[Enc::Utf8]);
    mixed(c, c.q(3, 4), Cmp::Output, &[Enc::Utf8], false);
    crowd(c, Cmp::Output, &[Enc::Utf8]);
    far(c, Cmp::Output, &[Enc::Utf8], false);
}
pub fn c02(c: &Ctx) {
    c01_02(c, Cmp::Matches, &[Enc::Utf8, Enc::Utf16, Enc::Chars]);
    mixed(c, c.q(3, 4), Cmp::Matches, &[Enc::Utf8, Enc::Utf16, Enc::Chars], false);
    crowd(c, Cmp::Matches, &[Enc::Utf16, Enc::Chars, Enc::Utf8]);
    far(c, Cmp::Matches, &[Enc::Utf16, Enc::Chars, Enc::Utf8], false);
}

// ---------------------------------------------------------------- C03
const LETTERS: &[char] = &['a', 'b', 'é', 'd', '𝄞', 'f', 'g', 'h'];
fn interval_rules(n: usize, mutating: &[bool]) -> Vec<RegexRuleConfig> {
    let mut v = vec![];
    for i in 0..n {
        for j in i + 1..=n {
            let p: String = LETTERS[i..j].iter().collect();
            for m in mutating {
                v.push(rule(&p).match_action(if *m { redact("XY") } else { MatchAction::None }));
            }
        }
    }
    v
}
pub fn c03(c: &Ctx) {
    let explore = |name: &str, desc: &str, rs: Vec<RegexRuleConfig>, k: usize, contents: Vec<String>| {
        let keep = build(&rs, Opts::default()).expect("base rules");
        let mut items: Vec<Vec<usize>> = vec![];
        for a in 0..rs.len() {
            for b in 0..rs.len() {
                items.push(vec![a, b]);
            }
        }
        c.space(name, desc, &items, |w, pre| {
            fn go(w: &mut Worker, rs: &[RegexRuleConfig], k: usize, ix: &mut Vec<usize>, contents: &[String]) -> bool {
                if ix.len() == k {
                    let rules: Vec<_> = ix.iter().map(|i| rs[*i].clone()).collect();
                    let Some(p) = pair(w, &rules, Opts::default()) else { return false };
                    return contents.iter().all(|s| check(w, &p, &one(s), &[], Enc::Utf8, Cmp::All)) && !w.stopped();
                }
                for i in 0..rs.len() {
                    ix.push(i);
                    let r = go(w, rs, k, ix, contents);
                    ix.pop();
                    if !r {
                        return false;
                    }
                }
                true
            }
            go(w, &rs, k, &mut pre.clone(), &contents);
        });
        drop(keep);
    };
    let text = |n: usize| LETTERS[..n].iter().collect::<String>();
    let n3 = c.q(5, 8);
    explore(
        "triples",
        &format!("all ordered triples of literal rules over the {} intervals of {n3} characters x mutating or not", n3 * (n3 + 1) / 2),
        interval_rules(n3, &[true, false]),
        3,
        vec![text(n3), format!("{}-{}", text(n3), text(n3))],
    );
    let n4 = c.q(3, 5);
    explore(
        "quadruples",
        &format!("all ordered quadruples of literal rules over the intervals of {n4} characters x mutating or not"),
        interval_rules(n4, &[true, false]),
        4,
        vec![text(n4)],
    );
    // rules with two alternatives: several candidates per rule
    let n = c.q(4, 5);
    let single = interval_rules(n, &[true]);
    let mut two = vec![];
    for i in 0..single.len() {
        for j in 0..single.len() {
            if i != j {
                for m in [redact("Z"), MatchAction::None] {
                    two.push(rule(&format!("{}|{}", single[i].pattern, single[j].pattern)).match_action(m));
                }
            }
        }
    }
    explore(
        "pairs-of-alternations",
        "all ordered pairs of rules x|y over intervals x, y, mutating or not",
        two,
        2,
        vec![text(n), format!("{}{}", text(n), text(n))],
    );
    // repeated letters: classes with runs, all strings
    let runs: Vec<RegexRuleConfig> = ["a+", "ab", "b+a?", "a", "aba", "[ab]{2}", "(?s).", "b$"]
        .iter()
        .flat_map(|p| [rule(p).match_action(redact("")), rule(p)])
        .collect();
    let l = c.q(6, 8);
    let all = all_strings(&['a', 'b', '-'], 1, l);
    explore(
        "run-pairs",
        &format!("all ordered pairs of 16 run-shaped rules x every string over a b - up to length {l}"),
        runs.clone(),
        2,
        all,
    );
    if c.thorough {
        explore("run-triples", "ordered triples of the same rules, strings up to length 5", runs, 3, all_strings(&['a', 'b'], 1, 5));
    }
    // scale: many rules
    let counts: Vec<usize> = (1..=70).chain([127, 128, 129, 255, 256, 257]).collect();
    c.space("many-rules", "k rules, k = 1..70 and around powers of two: identical, nested and chained intervals, only some mutating", &counts, |w, k| {
        let long: String = (0..*k + 3).map(|i| char::from_u32(0x4e00 + i as u32).unwrap()).collect();
        let ch: Vec<char> = long.chars().collect();
        let sub = |a: usize, b: usize| ch[a..b].iter().collect::<String>();
        for shape in 0..5 {
            for mutmask in 0..5usize {
                let rules: Vec<_> = (0..*k)
                    .map(|i| {
                        let p = match shape {
                            0 => sub(0, 2),
                            1 => sub(0, i + 1),
                            2 => sub(i, i + 2),
                            3 => sub(*k - 1 - i, *k + 1 - i),
                            _ => sub(i / 2, i + 2),
                        };
                        let m = match mutmask {
                            0 => true,
                            1 => false,
                            2 => i + 1 == *k,
                            3 => i % 2 == 1,
                            _ => i == 0 || i == 40,
                        };
                        rule(&p).match_action(if m { redact("#") } else { MatchAction::None })
                    })
                    .collect();
                let Some(p) = pair(w, &rules, Opts::default()) else { return };
                if !check(w, &p, &one(&long), &[], Enc::Utf8, Cmp::All) {
                    return;
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C04
pub fn c04(c: &Ctx) {
    use SecondaryValidator::*;
    let mut cfgs: Vec<(Vec<RegexRuleConfig>, &str, usize)> = vec![];
    let l = c.q(6, 8);
    let other = rule("é|0").match_action(redact(""));
    let zero_other = rule("(?s).+");
    for p in [
        r"\d\d", r"\d{1,3}", r"\d+", r"\d\dé?", r"é?\d\d", r"\b\d+", r"^\d\d", r"\d\d$", r"\d+?", r"\d{2}|\d é", r"\S+", r"(?s).{2}", r"0\d|\d8",
    ] {
        cfgs.push((vec![rule(p)], "018é ", l));
        for extra in [None, Some(&other), Some(&zero_other)] {
            let r = rule(p).validator(LuhnChecksum);
            let mut v = vec![r];
            v.extend(extra.cloned());
            if extra.is_some() {
                v.reverse();
            }
            cfgs.push((v, "018é ", l));
        }
    }
    for (p, k, al) in [
        (r"\d+", "no", "no1 é"),
        (r"\w\w", "no", "no1 é"),
        (r"1.?", "n", "n1 é-"),
        (r"é|11", "o", "o1 é_"),
        (r"[^ ]+", "n", "n1 é"),
    ] {
        for look in [1, 2, 3, 5, 50] {
            if look < k.len() {
                continue;
            }
            cfgs.push((vec![rule(p).proximity_keywords(kw(look, &[], &[k]))], al, l));
            cfgs.push((
                vec![rule(p).validator(LuhnChecksum).proximity_keywords(kw(look, &[], &[k])).match_action(redact("#"))],
                al,
                l,
            ));
        }
    }
    c.space("strings", &format!("patterns x validator / excluded keyword / neither x other rules x every string over 5 characters up to length {l}"), &cfgs, |w, (r, al, l)| {
        let Some(p) = pair(w, r, Opts::default()) else { return };
        let al: Vec<char> = al.chars().collect();
        strings(&al, 0, *l, &mut |t| check(w, &p, &one(t), &[], Enc::Utf8, Cmp::All) && !w.stopped());
    });
    // several strings in one event: the position restarts for every string
    let parts = all_strings(&['1', '8', 'é'], 0, 3);
    let items: Vec<usize> = (0..parts.len()).collect();
    c.space("events", "events of 2-3 strings, every string over 1 8 é up to length 3, rules with and without Luhn", &items, |w, i| {
        let rules = [rule(r"\d\d").validator(LuhnChecksum), rule("é+").match_action(redact("x")), rule(r"^\d{3}$")];
        let Some(p) = pair(w, &rules, Opts::default()) else { return };
        for a in &parts {
            for b in parts.iter().take(if w.ctx.thorough { 999 } else { 13 }) {
                let ev = strs(&[("a", &parts[*i]), ("b.0", a), ("b.1", b)]);
                if !check(w, &p, &ev, &[], Enc::Utf8, Cmp::All) || w.stopped() {
                    return;
                }
            }
        }
    });
    mixed(c, c.q(3, 4), Cmp::All, &[Enc::Utf8], false);
    crowd(c, Cmp::All, &[Enc::Utf8]);
    far(c, Cmp::All, &[Enc::Utf8], true);
    // long candidates: every length, the valid one starting 0.. characters after a rejected one
    let ns: Vec<usize> = (1..=c.q(70, 140)).chain([127, 128, 129, 255, 256, 257]).collect();
    c.space("match-lengths", "candidates of n characters: a Luhn-valid one starting 0-4 characters after the first candidate, every last pair of digits; the same with an excluded keyword and with wide characters", &ns, |w, n| {
        let Some(p) = pair(w, &[rule(&format!("[0-9]{{{n}}}")).validator(LuhnChecksum)], Opts::default()) else { return };
        for extra in 0..4 {
            for tail in 0..100 {
                let mut d: String = (0..n + extra).map(|i| char::from(b'0' + (i * 7 % 10) as u8)).collect();
                d.truncate((n + extra).saturating_sub(2));
                let s = format!("{d}{tail:02}");
                if !check(w, &p, &one(&s), &[], Enc::Utf8, Cmp::All) || w.stopped() {
                    return;
                }
            }
        }
        for ch in ["a", "é", "𝄞"] {
            let Some(p) = pair(w, &[rule(&format!("{ch}{{{n}}}")).proximity_keywords(kw(4, &[], &["no"])).match_action(redact("#"))], Opts::default()) else { return };
            for extra in 0..8 {
                for pre in ["no", "no ", "no: ", "no    ", "-no-"] {
                    let s = format!("{pre}{}", ch.repeat(n + extra));
                    if !check(w, &p, &one(&s), &[], Enc::Utf8, Cmp::All) || w.stopped() {
                        return;
                    }
                }
            }
        }
    });
    // scale: many rejected candidates before a good one, long distances
    let ns: Vec<usize> = (0..c.q(130, 300)).chain([511, 512, 513, 1023, 1024, 1025, 2000]).collect();
    c.space("scale", "n rejected candidates before, between and after good ones; n = 0.. and around powers of two", &ns, |w, n| {
        for (pat, bad, good) in [(r"\d\d", "11", "18"), (r"é\d\d", "é11", "é18"), (r"\d{3}", "1", "109")] {
            let Some(p) = pair(w, &[rule(pat).validator(LuhnChecksum)], Opts::default()) else { return };
            let b = bad.repeat(*n);
            for s in [format!("{b}{good}"), format!("{good}{b}{good}"), format!("{good}{b}"), format!("{b} {good} {b}")] {
                if !check(w, &p, &one(&s), &[], Enc::Utf8, Cmp::All) {
                    return;
                }
            }
        }
        // number of matches
        let Some(p) = pair(w, &[rule(r"\d")], Opts::default()) else { return };
        for sep in ["", " ", "é"] {
            let s: String = (0..*n).map(|_| format!("1{sep}")).collect();
            if !check(w, &p, &one(&s), &[], Enc::Utf8, Cmp::All) {
                return;
            }
        }
    });
}
