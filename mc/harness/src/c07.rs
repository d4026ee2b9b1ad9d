//! C07 (included keywords), C08 (excluded keywords), C09 (path keywords)
use crate::common::*;
use crate::core::*;
use crate::refscan::*;
use dd_sds::*;
use serde_json::json;

type Cfg = (Vec<RegexRuleConfig>, String, usize, Opts);

/// Long strings: many keyword occurrences, many candidates, filler of 2^k-1, 2^k, 2^k+1 characters.
fn far_keywords(c: &Ctx, o: Opts) {
    let mut items = vec![];
    for k in 2..c.q(13, 15) {
        let p = 1usize << k;
        for n in [p - 1, p, p + 1] {
            for cfg in 0..6 {
                items.push((n, cfg));
            }
        }
    }
    c.space("far", "n occurrences of a keyword, n candidates, n characters of filler, keywords in reach of the last candidate only: n = 2^k-1, 2^k, 2^k+1 up to 2^12 (2^14)", &items, |w, &(n, k)| {
        use SecondaryValidator::*;
        let r = match k {
            0 => rule("#+").proximity_keywords(kw(6, &["w", "key"], &[])),
            1 => rule("#+").proximity_keywords(kw(6, &[], &["w", "key"])),
            2 => rule(r"\d\d").validator(LuhnChecksum).proximity_keywords(kw(6, &["w"], &[])),
            3 => rule(r"\d\d").validator(LuhnChecksum).proximity_keywords(kw(6, &[], &["w"])),
            4 => rule("#|18").proximity_keywords(kw(50, &["key"], &[])).match_action(redact("")),
            _ => rule("#|18").proximity_keywords(kw(50, &[], &["w"])).match_action(redact("longer")),
        };
        let Some(p) = pair(w, &[r], o) else { return };
        let (f, g) = ("- ".repeat(n / 2) + if n % 2 == 1 { "é" } else { "" }, "#".repeat(n));
        for t in [
            "w ".repeat(n) + "# 18",
            "w ".repeat(n) + "              # 18",
            format!("{f}w # 18"),
            format!("w {f}# 18"),
            format!("w #{f}key #{f} w {f} #"),
            "# ".repeat(n) + "w # 18",
            "w # ,,,, #, ".repeat(n) + "w # 18",
            "w 18 ,,,, 18, ".repeat(n) + "key 18",
            "17 ".repeat(n) + "w 17 18",
            format!("w {g} w{g} key-{g}"),
            format!("{} w #", "key".repeat(n)),
            format!("w{}#", "_".repeat(n)),
            format!("key 17{}18", "7".repeat(n)),
        ] {
            if !check(w, &p, &one(&t), &[], Enc::Utf8, Cmp::All) || w.stopped() {
                return;
            }
        }
        let ev = vec![(path("x"), f.clone()), (path("key"), "# 18 ".repeat(n.min(300))), (path("y"), "w # 18".into())];
        check(w, &p, &ev, &[], Enc::Utf8, Cmp::All);
    });
}

pub fn c07(c: &Ctx) {
    let mut items: Vec<Cfg> = vec![];
    let l = c.q(6, 7);
    let d = Opts::default();
    let push = |items: &mut Vec<Cfg>, r: Vec<RegexRuleConfig>, al: &str| items.push((r, al.to_string(), l, d));
    for look in [1usize, 2, 3, 5] {
        for (kws, pat, al) in [
            (vec!["k"], "1", "k 1é_K"),
            (vec!["k"], "1+", "k 1é-"),
            (vec!["k", "w"], "1", "kw 1-"),
            (vec!["kw", "w"], r"\d", "kw 1"),
            (vec!["k w", "w"], r"1 ?", "kw 1"),
            (vec![" k "], r"\d", "k 1-"),
            (vec!["é"], "1", "é1 k"),
            (vec!["é"], "é1?", "é1 "),
            (vec!["-k"], "1", "-k1 "),
            (vec!["k-"], "1", "-k1 "),
            (vec!["."], "1", ".1a "),
            (vec!["k."], "1|2", "k.12"),
            (vec!["_k"], "1", "_k1 "),
            (vec!["5"], "a", "5a 0"),
            (vec!["k"], "1.", "k 1é"),
            (vec!["K"], "[^kK]1", "k1K "),
            (vec!["ſ"], "1", "ſs1 S"),
            (vec!["k"], "1", "\u{212a}k1 "),
            (vec!["\\"], "1", "\\1 a"),
            (vec!["(k"], "1", "(k1 "),
            (vec!["k*"], "1", "k*1 "),
            (vec!["[k]"], "1", "k[]1 "),
            (vec!["𝄞"], "1", "𝄞1 "),
            (vec!["k"], "é", "ké -"),
            (vec!["k"], "[é𝄞]+", "ké𝄞 "),
            (vec!["w", "k"], "𝄞|_", "kw𝄞_"),
        ] {
            if kws.iter().any(|k| k.chars().count() > look) {
                continue;
            }
            push(&mut items, vec![rule(pat).proximity_keywords(kw(look, &kws, &[]))], al);
        }
        // with a validator, with another rule, with excluded keywords that must have no effect
        push(&mut items, vec![rule(r"\d\d").validator(SecondaryValidator::LuhnChecksum).proximity_keywords(kw(look, &["k"], &[])).match_action(redact(""))], "k18 ");
        push(&mut items, vec![rule(r"1").proximity_keywords(kw(look, &["k"], &[])).match_action(redact("k")), rule("1 ?").proximity_keywords(kw(look, &["w"], &[]))], "kw1 ");
        push(&mut items, vec![rule(r"1").proximity_keywords(kw(look, &["k"], &["w"]))], "kw1 ");
    }
    c.space("strings", &format!("keyword lists (letters, digits, punctuation, multi-byte, several, trimmed) x patterns x look-ahead 1,2,3,5 x every string up to length {l}"), &items, |w, (r, al, l, o)| {
        let Some(p) = pair(w, r, *o) else { return };
        let al: Vec<char> = al.chars().collect();
        let l = if al.len() <= 4 { *l + 1 } else { *l };
        strings(&al, 0, l, &mut |t| check(w, &p, &one(t), &[], Enc::Utf8, Cmp::All) && !w.stopped());
    });
    // every look-ahead count x every distance
    let looks: Vec<usize> = (1..=50).collect();
    c.space("distances", "look-ahead 1..50 x distances 0..55 x fillers of 1-4 bytes x keyword at start or after text x two matches", &looks, |w, look| {
        for (k, after) in [("k", " "), ("é", ""), ("k.", "")] {
            if k.chars().count() > *look {
                continue;
            }
            let Some(p) = pair(w, &[rule(r"\d+").proximity_keywords(kw(*look, &[k], &[]))], Opts::default()) else { return };
            for fill in [" ", "é", "€", "𝄞", "a "] {
                for d in 0..56 {
                    let f: String = fill.chars().cycle().take(d).collect();
                    for pre in ["", "é ", "1 "] {
                        for s in [
                            format!("{pre}{k}{after}{f}1"),
                            format!("{pre}{k}{after}{f}1 2"),
                            format!("{pre}{k}{after}{f}1{f}2 {k}{after}3"),
                            format!("{pre}{f}{k}{after}{k}{after}{f}12"),
                        ] {
                            if !check(w, &p, &one(&s), &[], Enc::Utf8, Cmp::All) || w.stopped() {
                                return;
                            }
                        }
                    }
                }
            }
        }
    });
    // number of keywords and of occurrences
    let ns: Vec<usize> = (1..=50).collect();
    c.space("keyword-counts", "1..50 keywords, each of them in turn before the match; n keyword occurrences and n matches", &ns, |w, n| {
        let ks: Vec<String> = (0..*n).map(|i| format!("w{i}")).collect();
        let kr: Vec<&str> = ks.iter().map(|s| s.as_str()).collect();
        let Some(p) = pair(w, &[rule("#").proximity_keywords(kw(7, &kr, &[]))], Opts::default()) else { return };
        for i in 0..*n + 2 {
            for s in [format!("w{i} #"), format!("W{i}: # x w{} #", i + 1), format!("w{i}    #    #")] {
                if !check(w, &p, &one(&s), &[], Enc::Utf8, Cmp::All) {
                    return;
                }
            }
        }
        let many = |x: &str| x.repeat(*n);
        for s in [many("w0 "), many("w0 #"), many("w0  # #  "), many("# w0 "), many("w0 ") + "#", many("w0 w0 x #  # "), many("é w0  é#")] {
            if !check(w, &p, &one(&s), &[], Enc::Utf8, Cmp::All) {
                return;
            }
        }
    });
    pieces(c, true);
    // several strings: the keyword must be in the same string; rules in sequence on the same string
    let parts = all_strings(&['k', '1', ' '], 0, 3);
    let items: Vec<usize> = (0..parts.len()).collect();
    c.space("events", "two strings of one event, every string over k 1 space up to length 3, three keyword rules", &items, |w, i| {
        let r = [
            rule("1").proximity_keywords(kw(2, &["k"], &[])).match_action(redact("é")),
            rule("1 ").proximity_keywords(kw(1, &["k"], &[])),
            rule("1").proximity_keywords(kw(3, &["k"], &[])),
        ];
        let Some(p) = pair(w, &r, Opts::default()) else { return };
        for b in &parts {
            if !check(w, &p, &strs(&[("k", &parts[*i]), ("b", b)]), &[], Enc::Utf8, Cmp::All) {
                return;
            }
        }
    });
    far_keywords(c, Opts::default());
}

/// realistic pieces of text around keywords, with matches that start with wide characters
fn pieces(c: &Ctx, inc: bool) {
    let toks: &[&str] = &["key", "id", "KEY-ID ", " ", "_", "é", "世", "secret", "42", "ééé", "lorem ipsum dolor sit amet, consec, ", "it's "];
    let mut items = vec![];
    for p in ["secret", r"\d+", "[é世]+", r"\w+é"] {
        for ks in [vec!["key"], vec!["id", "key"], vec!["key id"], vec!["世"], vec!["it's", "é"]] {
            for look in [6usize, 12, 37, 50] {
                items.push((p, ks.clone(), look));
            }
        }
    }
    let depth = c.q(4, 5);
    c.space("pieces", &format!("4 patterns x 5 keyword lists x look-ahead 6,12,37,50 x every sequence of up to {depth} of 12 text pieces of 1-36 characters"), &items, |w, (p, ks, look)| {
        let (i, e): (&[&str], &[&str]) = if inc { (ks, &[]) } else { (&[], ks) };
        let Some(p) = pair(w, &[rule(p).proximity_keywords(kw(*look, i, e))], Opts::default()) else { return };
        token_strings(toks, depth, &mut |t| check(w, &p, &one(t), &[], Enc::Utf8, Cmp::All) && !w.stopped());
    });
}

pub fn c08(c: &Ctx) {
    pieces(c, false);
    let mut items: Vec<Cfg> = vec![];
    let l = c.q(6, 7);
    let d = Opts::default();
    for look in [1usize, 2, 3, 4, 6] {
        for (kws, pat, al) in [
            (vec!["k"], "1", "k 1é-"),
            (vec!["k"], "1", "k_1K "),
            (vec!["k"], "1+", "k1é-"),
            (vec!["kw"], "1", "kw1-_"),
            (vec!["k-w"], "1", "kw1- "),
            (vec!["k_"], "1", "k1_ "),
            (vec!["kw", "w"], "1.?", "kw1 "),
            (vec!["k w"], "1", "kw1 "),
            (vec![" k"], r"\d", "k 1-"),
            (vec!["é"], "1", "é1 k"),
            (vec!["."], "1", ".1a-"),
            (vec!["k."], "1|2", "k.12"),
            (vec!["5"], "a", "5a 0"),
            (vec!["k"], "-1|1", "k-1 "),
            (vec!["k"], "[_ ]1", "k_1 "),
            (vec!["kw"], "w?1", "kw1-"),
            (vec!["ſ"], "1", "ſs1 S"),
            (vec!["k"], "1", "\u{212a}k1 "),
            (vec!["𝄞-"], "1", "𝄞1-"),
            (vec!["(k"], "1", "(k1 "),
            (vec!["k*"], "1", "k*1 "),
            (vec!["k"], "é", "ké -"),
            (vec!["kw"], "[é𝄞]+", "kwé𝄞 "),
            (vec!["é"], "é1?", "é1 -"),
            (vec!["k"], "𝄞|_", "k𝄞_ "),
            (vec!["w", "k"], "[é-]", "kwé- "),
        ] {
            if kws.iter().any(|k| k.chars().count() > look) {
                continue;
            }
            items.push((vec![rule(pat).proximity_keywords(kw(look, &[], &kws))], al.to_string(), l, d));
        }
        items.push((vec![rule(r"\d\d").validator(SecondaryValidator::LuhnChecksum).proximity_keywords(kw(look, &[], &["k"])).match_action(redact(""))], "k18 ".into(), l, d));
        items.push((vec![rule(r"1").proximity_keywords(kw(look, &[], &["k"])).match_action(redact("k")), rule("1").proximity_keywords(kw(look, &[], &["w"])), rule(" 1")], "kw1 ".into(), l, d));
    }
    c.space("strings", &format!("keyword lists x patterns x look-ahead 1,2,3,4,6 x every string up to length {l}"), &items, |w, (r, al, l, o)| {
        let Some(p) = pair(w, r, *o) else { return };
        let al: Vec<char> = al.chars().collect();
        let l = if al.len() <= 4 { *l + 1 } else { *l };
        strings(&al, 0, l, &mut |t| check(w, &p, &one(t), &[], Enc::Utf8, Cmp::All) && !w.stopped());
    });
    let looks: Vec<usize> = (1..=50).collect();
    c.space("distances", "look-ahead 1..50 x distances 0..55 x fillers (1-4 bytes, removed characters) x boundary characters around the window", &looks, |w, look| {
        for k in ["k", "é", "no-x", "a b"] {
            if k.chars().count() > *look {
                continue;
            }
            let Some(p) = pair(w, &[rule(r"\d+").proximity_keywords(kw(*look, &[], &[k]))], Opts::default()) else { return };
            for fill in [" ", "é", "-", "𝄞", "_ ", " 1"] {
                for d in 0..56 {
                    let f: String = fill.chars().cycle().take(d).collect();
                    for pre in ["", " ", "x", "é", "-", "x-"] {
                        let s = format!("{pre}{k}{f}1");
                        if !check(w, &p, &one(&s), &[], Enc::Utf8, Cmp::All) || w.stopped() {
                            return;
                        }
                    }
                    let s = format!("{k}{f}1 {f}{k}2{f}3");
                    if !check(w, &p, &one(&s), &[], Enc::Utf8, Cmp::All) || w.stopped() {
                        return;
                    }
                }
            }
        }
    });
    let ns: Vec<usize> = (1..=50).collect();
    c.space("keyword-counts", "1..50 keywords, each in turn before the match; both lists used; n matches", &ns, |w, n| {
        let ks: Vec<String> = (0..*n).map(|i| format!("w{i}")).collect();
        let kr: Vec<&str> = ks.iter().map(|s| s.as_str()).collect();
        for both in [false, true] {
            let inc: Vec<&str> = if both { vec!["x"] } else { vec![] };
            let Some(p) = pair(w, &[rule("#").proximity_keywords(kw(7, &inc, &kr))], Opts::default()) else { return };
            for i in 0..*n + 2 {
                for s in [format!("w{i} #"), format!("W{i}: # x w{} #", i + 1), format!("w{i}    #    #"), format!("x w-{i}_ #")] {
                    if !check(w, &p, &one(&s), &[], Enc::Utf8, Cmp::All) {
                        return;
                    }
                }
            }
            let s = "w0 # é # ".repeat(*n);
            if !check(w, &p, &one(&s), &[], Enc::Utf8, Cmp::All) {
                return;
            }
        }
    });
    far_keywords(c, Opts::default());
}

pub fn c09(c: &Ctx) {
    let al: Vec<char> = "aA-. /_é0B".chars().collect();
    // 1. sanitize: single fields
    let l = c.q(5, 6);
    c.space("fields", &format!("the standardized form of every field over a A B 0 - . space / _ é up to length {l}"), &al, |w, first| {
        w.config("Path::sanitize, one field");
        strings(&al, 0, l - 1, &mut |t| {
            let f = format!("{first}{t}");
            let p = Path::from(vec![PathSegment::Field(f.clone().into())]);
            let Some(got) = w.run(&f, f.len() as u64, || (p.sanitize(), p.segments[0].sanitize().map(|x| x.into_owned()))) else { return false };
            let want = std_path(&p);
            w.outcome(&want, want != f);
            if got.0 != want || got.1.as_ref() != Some(&want) {
                w.violate("sanitize", json!({"case": f, "expected": want, "observed": got}));
                return false;
            }
            if want != f && w.want_sample() {
                w.ctx.sample(json!({"space": "fields", "field": f, "standardized": want}));
            }
            !w.stopped()
        });
    });
    // 2. sanitize: several segments
    let mut segs: Vec<PathSegment<'static>> = all_strings(&['a', 'A', '-', 'é'], 0, 2).into_iter().map(|s| PathSegment::Field(s.into())).collect();
    segs.push(PathSegment::Index(0));
    segs.push(PathSegment::Index(12));
    let n3 = c.q(2, 3);
    c.space("paths", &format!("the standardized form of every path of up to {} segments (fields over a A - é up to length 2, indices)", n3 + 1), &segs, |w, first| {
        fn go(w: &mut Worker, p: &mut Path<'static>, segs: &[PathSegment<'static>], d: usize) -> bool {
            let text = path_key(p);
            let Some(got) = w.run(&text, p.segments.len() as u64, || p.sanitize()) else { return false };
            let want = std_path(p);
            w.outcome(&want, true);
            // a leading list index leaves a leading separator, which no comparison depends on
            let lead = matches!(p.segments.first(), Some(PathSegment::Index(_)));
            let norm = |s: &str| if lead { s.trim_start_matches('.').to_string() } else { s.to_string() };
            if norm(&got) != norm(&want) {
                w.violate("sanitize", json!({"case": text, "expected": want, "observed": got}));
                return false;
            }
            if d == 0 {
                return !w.stopped();
            }
            for s in segs {
                p.segments.push(s.clone());
                let r = go(w, p, segs, d - 1);
                p.segments.pop();
                if !r {
                    return false;
                }
            }
            true
        }
        w.config("Path::sanitize, several segments");
        go(w, &mut Path::from(vec![first.clone()]), &segs, n3);
    });
    // 3. scanning: keywords against paths
    let kws = ["a", "aB", "a-b", "a_b", "a b", "A", "ab", "b.a", "é", "aé", "AB", "a0", "0", "a.", "-a", "aBé", "a/b", "aAb"];
    let fields = all_strings(&['a', 'B', '-', 'é', '0'], 1, c.q(3, 4));
    let mut paths: Vec<Path<'static>> = fields.iter().map(|f| Path::from(vec![PathSegment::Field(f.clone().into())])).collect();
    for a in ["a", "b", "aB", "é", "A-b", "x"] {
        for b in ["a", "b", "Ab", "éa", "B"] {
            paths.push(Path::from(vec![seg(a), seg(b)]));
            paths.push(Path::from(vec![seg(a), seg("0"), seg(b)]));
            paths.push(Path::from(vec![seg("7"), seg(a), seg(b), seg("3")]));
        }
    }
    let contents = ["1", "", "-", "1 2", "a 1", "aB 1   2", "1 a"];
    let mut items = vec![];
    for k in kws {
        for on in [true, false] {
            for look in [3usize, 5] {
                items.push((vec![k], on, look));
            }
        }
    }
    items.push((vec!["zz", "a"], true, 3));
    items.push((vec!["a-b", "é"], true, 3));
    c.space("scan", "keywords (letters, case changes, separators, multi-byte) x path keywords on/off x paths (every field over a B - é 0 up to length 3, nested, with indices) x 7 contents", &items, |w, (k, on, look)| {
        let r = [
            rule(r"\d").proximity_keywords(kw(*look, k, &[])).match_action(redact("#")),
            rule(r"\d ").proximity_keywords(kw(*look, &["nop"], &[])),
            rule("2").proximity_keywords(kw(*look, &[], k)),
        ];
        let Some(p) = pair(w, &r, Opts { kw_paths: *on, ..Default::default() }) else { return };
        for q in &paths {
            for t in &contents {
                if !check(w, &p, &vec![(q.clone(), t.to_string())], &[], Enc::Utf8, Cmp::All) || w.stopped() {
                    return;
                }
            }
        }
    });
    // 4. siblings: a keyword in one string's path never admits matches of another string
    let ps = ["a", "b", "a.b", "b.a", "0.a", "b.0"];
    let items: Vec<(usize, usize, usize)> = (0..6).flat_map(|i| (0..6).flat_map(move |j| (0..6).map(move |k| (i, j, k)))).filter(|(i, j, k)| i != j && j != k && i != k).collect();
    c.space("siblings", "every ordered triple of 6 paths in one event x keyword sets x path keywords on/off", &items, |w, (i, j, k)| {
        for ks in [vec!["a"], vec!["a.b"], vec!["b a"], vec!["b", "q"]] {
            for on in [true, false] {
                for wild in [true, false] {
                    let r = [rule(r"1").proximity_keywords(kw(4, &ks, &[])), rule("1 ?").match_action(redact("")).proximity_keywords(kw(4, &["b"], &[]))];
                    let Some(p) = pair(w, &r, Opts { kw_paths: on, wild, ..Default::default() }) else { return };
                    for (x, y) in [("1", "1"), ("b 1", "1 1"), ("11", "-"), ("a 1     1", "1 b")] {
                        let ev = strs(&[(ps[*i], x), (ps[*j], y), (ps[*k], "1 1")]);
                        if !check(w, &p, &ev, &[], Enc::Utf8, Cmp::All) || w.stopped() {
                            return;
                        }
                    }
                }
            }
        }
    });
    // 5. validators and scale
    let ns: Vec<usize> = (1..=c.q(140, 300)).chain([511, 512, 513, 1024, 1025]).collect();
    c.space("scale", "paths of n segments, fields of n characters, keyword first / last / absent; n matches in the content; with Luhn", &ns, |w, n| {
        let r = [
            rule(r"\d\d").validator(SecondaryValidator::LuhnChecksum).proximity_keywords(kw(4, &["k"], &[])),
            rule(r"1").proximity_keywords(kw(9, &["kW", "k.w"], &[])),
        ];
        let Some(p) = pair(w, &r, Opts { kw_paths: true, ..Default::default() }) else { return };
        let deep = |at: usize, s: &str| Path::from((0..*n).map(|i| if i == at { seg(s) } else if i % 3 == 2 { PathSegment::Index(i) } else { seg("x") }).collect::<Vec<_>>());
        let x = "x".repeat(*n);
        let mut ps = vec![];
        for i in [0, n / 2, n - 1] {
            for s in ["k", "kW", "K-w", "ak"] {
                ps.push(deep(i, s));
            }
        }
        for f in [format!("{x}-k"), format!("{x}K"), format!("k.{x}"), format!("k-w{x}"), format!("{x}_k_w_{x}"), "é".repeat(*n) + "k", "é".repeat(*n) + "-kW", "-".repeat(*n) + "k"] {
            ps.push(Path::from(vec![PathSegment::Field(f.into())]));
        }
        for f in [x.clone(), x.to_uppercase(), format!("X{x}"), format!("{x}X"), "xX".repeat(*n), "x-".repeat(*n), "\u{e9}".repeat(*n)] {
            ps.push(Path::from(vec![PathSegment::Field(f.into())]));
        }
        for q in &ps {
            let Some(got) = w.run(&path_key(q), *n as u64, || (q.sanitize(), q.segments.iter().map(|s| s.sanitize().map(|x| x.into_owned())).collect::<Vec<_>>())) else { return };
            let one: Vec<_> = q.segments.iter().map(|s| matches!(s, PathSegment::Field(_)).then(|| std_path(&Path::from(vec![s.clone()])))).collect();
            let want = std_path(q);
            if got.0.trim_start_matches('.') != want.trim_start_matches('.') || got.1 != one {
                w.violate("sanitize", json!({"case": path_key(q), "expected": want, "observed": got}));
                return;
            }
        }
        for q in ps {
            for t in ["18 ".repeat(*n), "k 18".repeat(*n), "17".repeat(*n)] {
                if !check(w, &p, &vec![(q.clone(), t)], &[], Enc::Utf8, Cmp::All) || w.stopped() {
                    return;
                }
            }
        }
    });
    far_keywords(c, Opts { kw_paths: true, ..Default::default() });
}
