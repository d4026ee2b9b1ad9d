//! C05 (scopes), C06 (multi-pass), C10 (blocked rules)
use crate::common::*;
use crate::core::*;
use crate::refscan::*;
use dd_sds::*;
use serde_json::json;

/// Rule selection observed directly on the rule set (crate feature "testing").
#[cfg(feature = "internals")]
mod selection {
    use super::*;
    struct Rec<'a> {
        out: &'a mut Vec<Vec<(usize, bool)>>,
    }
    impl<'p> ContentVisitor<'p> for Rec<'_> {
        fn visit_content<'c>(
            &'c mut self,
            _path: &Path<'p>,
            _content: &str,
            mut rules: RuleIndexVisitor,
            ex: ExclusionCheck<'c>,
            _tp: &[usize],
        ) -> bool {
            let mut v = vec![];
            rules.visit_rule_indices(|i| v.push((i, ex.is_excluded(i))));
            v.sort();
            self.out.push(v);
            true
        }
        fn find_true_positive_rules_from_current_path(&self, _: &str, _: &mut Vec<usize>) -> usize {
            0
        }
    }
    pub fn select(scopes: &[Scope], ev: &mut FlatEvent<Utf8Encoding>, wild: bool) -> Vec<Vec<(usize, bool)>> {
        let mut got = vec![];
        let rs = ScopedRuleSet::new(scopes).with_implicit_index_wildcards(wild);
        rs.visit_string_rule_combinations(ev, Rec { out: &mut got });
        got
    }
}
/// The same through the scanner, which does not show rules that are selected but excluded.
mod scanned {
    use super::*;
    pub fn select(scopes: &[Scope], ev: &mut FlatEvent<Utf8Encoding>, wild: bool) -> Vec<Vec<(usize, bool)>> {
        let rules: Vec<_> = scopes.iter().enumerate().map(|(i, s)| rule(&format!("r{i};")).scope(s.clone())).collect();
        let text: String = (0..scopes.len()).map(|i| format!("r{i};")).collect();
        for s in &mut ev.strs {
            s.1 = text.clone();
        }
        let sc = build(&rules, Opts { wild, multipass: false, ..Default::default() }).expect("build");
        let ms = sc.scan(ev, vec![]);
        let mut got: Vec<Vec<(usize, bool)>> = ev.strs.iter().map(|(p, _)| ms.iter().filter(|m| m.path == *p).map(|m| (m.rule_index, false)).collect()).collect();
        got.iter_mut().for_each(|v| v.sort());
        got
    }
}

fn all_paths(segs: &[PathSegment<'static>], max: usize) -> Vec<Path<'static>> {
    let mut v = vec![Path::root()];
    let mut last = v.clone();
    for _ in 0..max {
        let mut next = vec![];
        for p in &last {
            for s in segs {
                let mut q = p.clone();
                q.segments.push(s.clone());
                next.push(q);
            }
        }
        v.extend(next.clone());
        last = next;
    }
    v
}
/// depth-first order, as an event tree would be walked
fn tree_order(mut v: Vec<Path<'static>>) -> Strs {
    v.sort();
    v.into_iter().enumerate().map(|(i, p)| (p, format!("s{i}"))).collect()
}
fn subsets(p: &[Path<'static>], max: usize) -> Vec<Vec<Path<'static>>> {
    let mut v = vec![vec![]];
    if max >= 1 {
        v.extend(p.iter().map(|a| vec![a.clone()]));
    }
    if max >= 2 {
        for a in p {
            for b in p {
                v.push(vec![a.clone(), b.clone()]);
            }
        }
    }
    v
}
fn expect(strs: &Strs, scopes: &[Scope], wild: bool) -> Vec<Vec<(usize, bool)>> {
    strs.iter()
        .map(|(p, _)| {
            scopes
                .iter()
                .enumerate()
                .filter_map(|(i, s)| {
                    let (a, b) = scope_of(p, s, wild);
                    a.then_some((i, b))
                })
                .collect()
        })
        .collect()
}
type Select = fn(&[Scope], &mut FlatEvent<Utf8Encoding>, bool) -> Vec<Vec<(usize, bool)>>;
fn run_set(w: &mut Worker, scopes: &[Scope], strs: &Strs, wild: bool, tree: bool) -> bool {
    #[cfg(feature = "internals")]
    if !run_set_by(w, scopes, strs, wild, tree, selection::select, true) {
        return false;
    }
    run_set_by(w, scopes, strs, wild, tree, scanned::select, false)
}
fn run_set_by(w: &mut Worker, scopes: &[Scope], strs: &Strs, wild: bool, tree: bool, select: Select, exact: bool) -> bool {
    let text = serde_json::to_string(scopes).unwrap();
    w.config(format!("wildcards={wild} tree={tree} strings={}", strs.len()));
    let r = w.run(&text, strs.len() as u64, || {
        let mut ev = FlatEvent::<Utf8Encoding>::new(strs.clone());
        ev.tree = tree;
        let got = select(scopes, &mut ev, wild);
        (got, ev.bad)
    });
    let Some((got, bad)) = r else { return false };
    let mut want = expect(strs, scopes, wild);
    if !exact {
        want.iter_mut().for_each(|v| v.retain(|x| !x.1));
    }
    w.add_states(strs.len() as u64 - 1, 0);
    w.outcome(&want, want.iter().any(|x| !x.is_empty()));
    if got != want || bad.is_some() {
        let i = (0..strs.len()).find(|i| got.get(*i) != Some(&want[*i])).unwrap_or(0);
        w.violate(
            "selection",
            json!({"case": text, "path": format!("{:?}", strs[i].0), "expected (rule, excluded)": format!("{:?}", want[i]),
                "observed": format!("{:?}", got.get(i)), "protocol": bad}),
        );
        return false;
    }
    if w.want_sample() {
        let c = w.cfg_text().to_string();
        w.ctx.sample(json!({"space": w.space, "config": c, "case": text, "selected": format!("{:?}", got)}));
    }
    true
}

pub fn c05(c: &Ctx) {
    let segs = [seg("a"), seg("b"), seg("0"), seg("1")];
    let sp = all_paths(&segs, 2);
    let ev = tree_order(all_paths(&segs, 3));
    let inc = subsets(&sp, 2);
    // single rule: every include list x every exclude list
    let mut items: Vec<Option<Vec<Path<'static>>>> = vec![None];
    items.extend(inc.iter().cloned().map(Some));
    let exc = c.q(subsets(&sp, 1), subsets(&sp, 2));
    let exc2 = subsets(&sp, 2);
    c.space(
        "single-rule",
        "one rule: include lists of <=2 of 21 paths x exclude lists of <=1 (thorough: 2) of 21 paths, plus exclude-only scopes of <=2 paths, wildcards on/off; event with every path up to depth 3",
        &items,
        |w, i| {
            for wild in [false, true] {
                let ex = if i.is_none() { &exc2 } else { &exc };
                for e in ex {
                    let s = match i {
                        None => Scope::Exclude(e.clone()),
                        Some(i) => Scope::Include { include: i.clone(), exclude: e.clone() },
                    };
                    if !run_set(w, &[s], &ev, wild, true) || w.stopped() {
                        return;
                    }
                }
            }
        },
    );
    // deeper scope paths with lists
    let seg2 = [seg("a"), seg("0"), seg("1")];
    let sp3 = all_paths(&seg2, 3);
    let ev4 = tree_order(all_paths(&seg2, c.q(4, 5)));
    let items: Vec<_> = sp3.iter().cloned().collect();
    c.space(
        "deep",
        "include lists of 2 paths up to depth 3 over a 0 1 x one exclude path up to depth 2, wildcards on/off; event with every path up to depth 4 (thorough 5)",
        &items,
        |w, a| {
            let ex = subsets(&all_paths(&seg2, w.ctx.q(1, 2)), 1);
            for b in &sp3 {
                for e in &ex {
                    for wild in [false, true] {
                        let s = Scope::Include { include: vec![a.clone(), b.clone()], exclude: e.clone() };
                        if !run_set(w, &[s], &ev4, wild, true) || w.stopped() {
                            return;
                        }
                    }
                }
            }
        },
    );
    // two rules
    let segs3 = [seg("a"), seg("0")];
    let spp = all_paths(&segs3, 2);
    let evp = tree_order(all_paths(&segs3, 3));
    let mut sc: Vec<Scope> = vec![];
    for i in subsets(&spp, 2) {
        for e in subsets(&spp, 1) {
            sc.push(Scope::Include { include: i.clone(), exclude: e });
        }
    }
    for e in subsets(&spp, 2) {
        sc.push(Scope::Exclude(e));
    }
    let short = c.q(10, 1);
    c.space(
        "two-rules",
        "ordered pairs of rules, scopes over 7 paths (quick: every 10th second scope), wildcards on/off",
        &sc,
        |w, a| {
            for (i, b) in sc.iter().enumerate() {
                if i % short != 0 {
                    continue;
                }
                for wild in [false, true] {
                    if !run_set(w, &[a.clone(), b.clone()], &evp, wild, true) || w.stopped() {
                        return;
                    }
                }
            }
        },
    );
    // visiting orders: siblings visited in every order
    let small: Vec<Path<'static>> = ["a", "a.b", "0", "0.a", "1.0"].iter().map(|p| path(p)).collect();
    let mut orders = vec![];
    perms(&mut (0..5).collect::<Vec<_>>(), 0, &mut orders);
    let scs: Vec<Scope> = subsets(&small, 1)
        .into_iter()
        .flat_map(|i| {
            let s2 = subsets(&small, 1);
            s2.into_iter()
                .map(move |e| Scope::Include { include: i.clone(), exclude: e })
                .collect::<Vec<_>>()
        })
        .collect();
    c.space("orders", "every visiting order of 5 strings (tree walk and walk from the root), 36 scopes, wildcards on/off", &orders, |w, o| {
        let ev: Strs = o.iter().map(|i| (small[*i].clone(), format!("s{i}"))).collect();
        for s in &scs {
            for wild in [false, true] {
                for tree in [false, true] {
                    if !run_set(w, &[s.clone(), Scope::default()], &ev, wild, tree) || w.stopped() {
                        return;
                    }
                }
            }
        }
    });
    // special segments: the field named like a number, empty field, case, multi-byte, big index
    let special = [
        PathSegment::Field("0".into()),
        PathSegment::Index(0),
        PathSegment::Field("".into()),
        PathSegment::Field("A".into()),
        PathSegment::Field("a".into()),
        PathSegment::Field("é".into()),
        PathSegment::Field("a.a".into()),
        PathSegment::Index(usize::MAX),
        PathSegment::Field("[0]".into()),
        PathSegment::Field("a ".into()),
        PathSegment::Field("ab".into()),
    ];
    let sps = all_paths(&special, 2);
    let evs = tree_order(all_paths(&special, 2));
    c.space("special-segments", "fields named like numbers, empty, upper/lower case, prefixes of each other, with a trailing space, multi-byte, containing dots; huge indices: scope path pairs up to depth 2", &sps, |w, a| {
        for b in &sps {
            for wild in [false, true] {
                let s = [
                    Scope::Include { include: vec![a.clone()], exclude: vec![b.clone()] },
                    Scope::Exclude(vec![a.clone(), b.clone()]),
                ];
                if !run_set(w, &s, &evs, wild, true) || w.stopped() {
                    return;
                }
            }
        }
    });
    // the public "at or below" relation of paths
    c.space("prefixes", "Path::starts_with, len, is_empty and rendering of every pair of paths up to depth 2 over 11 segments", &sps, |w, a| {
        w.config(format!("{:?}", a.segments));
        for b in &sps {
            let below = b.segments.len() <= a.segments.len() && b.segments.iter().zip(&a.segments).all(|(x, y)| x == y);
            let mut shown = String::new();
            for (i, s) in a.segments.iter().enumerate() {
                match s {
                    PathSegment::Field(f) => {
                        if i > 0 {
                            shown.push('.');
                        }
                        shown.push_str(f);
                    }
                    PathSegment::Index(n) => shown.push_str(&format!("[{n}]")),
                }
            }
            let want = (below, a.segments.len(), a.segments.is_empty(), shown, a.segments == b.segments);
            let text = format!("{:?}", b.segments);
            let Some(got) = w.run(&text, 1, || {
                let s = a.into_static();
                (s.starts_with(b), s.len(), s.is_empty(), s.to_string(), s == *b)
            }) else { return };
            w.outcome(&want.0, want.0);
            if got != want {
                w.violate("path", json!({"case": text, "expected (starts_with, len, is_empty, display, equal)": format!("{want:?}"), "observed": format!("{got:?}")}));
                return;
            }
        }
    });
    // scale: many rules, long scope lists, deep paths
    let ns: Vec<usize> = (1..=70).chain([127, 128, 129, 255, 256, 257, 300]).collect();
    c.space("scale", "n rules / n scope paths / paths of depth n, n = 1..70 and around powers of two", &ns, |w, n| {
        let fields: Vec<Path<'static>> = (0..*n).map(|i| path(&format!("f{i}"))).collect();
        let mut ev: Strs = fields.iter().map(|p| (p.clone(), "x".to_string())).collect();
        ev.push((path("other"), "x".into()));
        ev.push((path("f0.1.k"), "x".into()));
        for wild in [false, true] {
            let per: Vec<Scope> = (0..*n)
                .map(|i| match i % 3 {
                    0 => Scope::Include { include: vec![fields[i].clone()], exclude: vec![] },
                    1 => Scope::Exclude(vec![fields[i].clone()]),
                    _ => Scope::Include { include: vec![Path::root(), fields[i].clone()], exclude: vec![fields[i - 1].clone()] },
                })
                .collect();
            if !run_set(w, &per, &ev, wild, true) {
                return;
            }
            let one = Scope::Include { include: fields.clone(), exclude: fields[n / 2..].to_vec() };
            if !run_set(w, &[one, Scope::Exclude(fields.clone())], &ev, wild, true) {
                return;
            }
            if *n <= 140 {
                // n indices, then a field
                let at = |k: usize| (0..k).map(|i| PathSegment::Index(i % 3));
                let mut ev: Strs = vec![];
                let mut ks = vec![*n / 2, n - 1, *n, n + 1];
                ks.dedup();
                for k in ks {
                    ev.push((Path::from(at(k).collect::<Vec<_>>()), "x".into()));
                    ev.push((Path::from(at(k).chain([seg("k")]).collect::<Vec<_>>()), "x".into()));
                    ev.push((Path::from(at(k).chain([seg("k"), seg("1"), seg("m")]).collect::<Vec<_>>()), "x".into()));
                }
                let mut lists = vec![vec![path("k")], vec![path("0.k")], vec![path("k.m")], vec![path("0.1.k")]];
                lists.push(vec![Path::from(at(*n).chain([seg("k")]).collect::<Vec<_>>())]);
                for l in &lists {
                    let s = [Scope::Exclude(l.clone()), Scope::Include { include: l.clone(), exclude: vec![path("1.k")] }, Scope::Include { include: vec![Path::root()], exclude: l.clone() }];
                    if !run_set(w, &s, &ev, wild, true) {
                        return;
                    }
                }
            }
            if *n <= 12 || (!wild && *n <= 70) {
                for mixed in [false, true] {
                    let deep = |k: usize| {
                        Path::from((0..k).map(|i| if mixed && i % 2 == 1 { PathSegment::Index(i) } else { seg("a") }).collect::<Vec<_>>())
                    };
                    let ev: Strs = (0..=*n).map(|k| (deep(k), "x".to_string())).collect();
                    for k in 0..=*n {
                        let s = [
                            Scope::Include { include: vec![deep(k)], exclude: vec![deep(n / 2)] },
                            Scope::Exclude(vec![deep(k)]),
                        ];
                        if !run_set(w, &s, &ev, wild, true) {
                            return;
                        }
                    }
                }
            }
        }
    });
    // end to end: the scanner reports and redacts exactly in the selected strings
    let ev2 = tree_order(all_paths(&segs, 2));
    let items: Vec<Vec<Path<'static>>> = subsets(&sp, 1);
    c.space("scanner", "scanner with one scoped and one unscoped rule, include and exclude lists of <=1 (thorough 2) path, exclude-only; wildcards and multi-pass on/off, event with every path up to depth 2", &items, |w, i| {
        for e in &w.ctx.q(subsets(&sp, 1), subsets(&sp, 2)) {
            for s in [Scope::Include { include: i.clone(), exclude: e.clone() }, Scope::Exclude([i.clone(), e.clone()].concat())] {
                for (wild, multipass) in [(false, false), (true, false), (false, true), (true, true)] {
                    let r = [rule("s[0-9]+").scope(s.clone()).match_action(redact("#")), rule("s1")];
                    let Some(p) = pair(w, &r, Opts { wild, multipass, ..Default::default() }) else { return };
                    if !check(w, &p, &ev2, &[], Enc::Utf8, Cmp::All) || w.stopped() {
                        return;
                    }
                }
            }
        }
    });
}
fn perms(v: &mut Vec<usize>, k: usize, out: &mut Vec<Vec<usize>>) {
    if k == v.len() {
        out.push(v.clone());
        return;
    }
    for i in k..v.len() {
        v.swap(k, i);
        perms(v, k + 1, out);
        v.swap(k, i);
    }
}

// ---------------------------------------------------------------- C06
fn sub_paths(ps: &[&str], mask: usize) -> Vec<Path<'static>> {
    ps.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, p)| path(p)).collect()
}
pub fn c06(c: &Ctx) {
    let pats: &[&[&str]] = &[&["x", "[xy]"], &["x+", "xy?"], &["x|y", "y"], &["xx?", "(?s).+"], &["x", "x"]];
    let ps = ["a", "b", "c"];
    let texts = all_strings(&['x', 'y', '-'], 0, c.q(2, 3));
    let mut items = vec![];
    for p in pats {
        for m0 in 0..8 {
            for m1 in 0..8 {
                for mp in [true, false] {
                    items.push((*p, m0, m1, mp));
                }
            }
        }
    }
    c.space("assignments", "5 pattern pairs x exclude masks of both rules over 3 strings x multi-pass on/off x every assignment of strings over x y - up to length 2 (thorough 3)", &items, |w, (p, m0, m1, mp)| {
        let r = [
            rule(p[0]).scope(Scope::Exclude(sub_paths(&ps, *m0))).match_action(redact("#")),
            rule(p[1]).scope(Scope::Exclude(sub_paths(&ps, *m1))),
        ];
        let Some(pr) = pair(w, &r, Opts { multipass: *mp, ..Default::default() }) else { return };
        for a in &texts {
            for b in &texts {
                for d in &texts {
                    let ev: Strs = vec![(path("a"), a.clone()), (path("b"), b.clone()), (path("c"), d.clone())];
                    if !check(w, &pr, &ev, &[], Enc::Utf8, Cmp::All) || w.stopped() {
                        return;
                    }
                }
            }
        }
    });
    // histories: consecutive scans with the same scanner, the excluding event in between
    let evs: Vec<Strs> = {
        let t = ["x", "y", "xy", "-"];
        let mut v = vec![];
        for a in t {
            for b in t {
                v.push(strs(&[("a", a), ("b", b)]));
                v.push(strs(&[("b", b), ("a", a)]));
            }
        }
        v
    };
    let items: Vec<(usize, bool)> = (0..evs.len()).flat_map(|i| [(i, true), (i, false)]).collect();
    let depth = c.q(2, 3);
    c.space("histories", &format!("every sequence of {} scans of 32 events with one scanner (excluded path first or last)", depth + 1), &items, |w, (i, mp)| {
        let r = [
            rule("[xy]").scope(Scope::Exclude(vec![path("a")])).match_action(redact("#")),
            rule("x").scope(Scope::Include { include: vec![path("b")], exclude: vec![] }),
        ];
        let Some(pr) = pair(w, &r, Opts { multipass: *mp, ..Default::default() }) else { return };
        fn go(w: &mut Worker, pr: &Pair, evs: &[Strs], d: usize) -> bool {
            if d == 0 {
                return true;
            }
            for e in evs {
                if !check(w, pr, e, &[], Enc::Utf8, Cmp::All) || w.stopped() || !go(w, pr, evs, d - 1) {
                    return false;
                }
            }
            true
        }
        if check(w, &pr, &evs[*i], &[], Enc::Utf8, Cmp::All) {
            go(w, &pr, &evs, depth);
        }
    });
    // nested exclusion, includes with excludes, wildcard indices, validators, excluded keywords
    let items: Vec<usize> = (0..14).collect();
    c.space("features", "excluded scopes combined with include lists, nested paths, wildcards, Luhn, included, excluded and path keywords: every assignment of 9 texts to 4 strings", &items, |w, k| {
        use SecondaryValidator::*;
        let scope = Scope::Include { include: vec![path("a"), path("l")], exclude: vec![path("a.x"), path("l.x")] };
        let (r, t): (Vec<RegexRuleConfig>, Vec<&str>) = match k {
            0 | 1 => (vec![rule(r"\d\d").validator(LuhnChecksum).scope(scope.clone()).match_action(redact("#"))], vec!["18", "17", "1 18", "-"]),
            2 | 3 => (vec![rule(r"\d").proximity_keywords(kw(2, &[], &["k"])).scope(scope.clone()), rule(r"\d\d?")], vec!["1", "k 1", "2", "12"]),
            4 | 5 => (vec![rule(r"\w+").scope(scope.clone()).match_action(MatchAction::Hash), rule("é").scope(Scope::Exclude(vec![path("l")]))], vec!["ab", "ab é", "é", "Ab"]),
            8 | 9 => (vec![rule(r"\d").proximity_keywords(kw(3, &["k"], &[])).scope(scope.clone()).match_action(redact("#")), rule(r"\d\d?")], vec!["k 1", "1", "k 1 2", "2k1"]),
            10 | 11 => (vec![rule(r"\d+").proximity_keywords(kw(2, &["k"], &["j"])).scope(Scope::Exclude(vec![path("a.x")])), rule("1").proximity_keywords(kw(4, &["k"], &[])).scope(scope.clone())], vec!["k 1", "j k 1", "1", "k  1 k 1"]),
            12 | 13 => (vec![rule(r"\d\d").validator(LuhnChecksum).proximity_keywords(kw(3, &["k", "x"], &[])).scope(scope.clone()).match_action(redact(""))], vec!["18", "k 18", "k 17 18", "-"]),
            _ => (vec![rule(r"x").scope(Scope::Exclude(vec![path("l.1")])), rule(r"(?i)x+").scope(scope.clone()).match_action(redact(""))], vec!["x", "X", "xx", "-x"]),
        };
        let wild = k % 2 == 1;
        let Some(pr) = pair(w, &r, Opts { wild, kw_paths: *k >= 10, ..Default::default() }) else { return };
        for perm in 0..2 {
            let mut ps = ["a.x", "a.y", "l.0.x", "l.1", "z"];
            if perm == 1 {
                ps.reverse();
            }
            let n = t.len();
            for x in 0..n.pow(5) {
                let ev: Strs = ps.iter().enumerate().map(|(i, p)| (path(p), t[x / n.pow(i as u32) % n].to_string())).collect();
                if !check(w, &pr, &ev, &[], Enc::Utf8, Cmp::All) || w.stopped() {
                    return;
                }
            }
        }
    });
    // which texts count as the same value
    let alike: Vec<char> = " \t\n\u{a0}\u{200b}\0aAeé\u{301}É\u{c5}\u{212b}ßſsK\u{212a}k1\u{ff11}\u{661}-_.\u{2010}\u{1f600}".chars().collect();
    let alike = all_strings(&alike, 1, 2);
    c.space("equal-text", "a rule matching whole strings, excluded at one path: every pair of texts of length 1, and each text of length 2 against its reverse, its parts and its case, width and accent variants, in both orders (whitespace, controls, combining marks, compatibility characters)", &alike, |w, a| {
        let r = [rule("(?s).+").scope(Scope::Exclude(vec![path("ex")])).match_action(redact("#"))];
        let Some(pr) = pair(w, &r, Opts::default()) else { return };
        let mut bs: Vec<String> = alike.iter().filter(|b| b.chars().count() + a.chars().count() <= 3).cloned().collect();
        bs.extend([a.clone(), a.chars().rev().collect(), a.to_lowercase(), a.to_uppercase(), a.trim().into(), a.repeat(2), a.chars().filter(|c| c.is_ascii()).collect()]);
        for b in &bs {
            for ev in [strs(&[("ex", a), ("in", b)]), strs(&[("in", a), ("ex", b)])] {
                if !check(w, &pr, &ev, &[], Enc::Utf8, Cmp::All) || w.stopped() {
                    return;
                }
            }
        }
    });
    mixed(c, c.q(2, 3), Cmp::All, &[Enc::Utf8], true);
    crowd(c, Cmp::All, &[Enc::Utf8]);
    far(c, Cmp::All, &[Enc::Utf8], true);
    let ns: Vec<usize> = (0..=c.q(70, 200)).chain([255, 256, 257, 513, 1025]).collect();
    c.space("scale", "n distinct texts matched in the excluded string, some repeated in the scanned one before and after; long texts", &ns, |w, n| {
        let r = [rule(r"[a-z]\d+").scope(Scope::Exclude(vec![path("ex")])).match_action(redact("#"))];
        let Some(pr) = pair(w, &r, Opts::default()) else { return };
        let list = |f: &dyn Fn(usize) -> bool| (0..*n + 2).filter(|i| f(*i)).map(|i| format!("k{i} ")).collect::<String>();
        for (a, b) in [
            (list(&|i| i < *n), list(&|i| i % 2 == 0)),
            (list(&|i| i == *n), list(&|_| true)),
            (list(&|_| true), list(&|i| i + 1 >= *n)),
            (format!("k{}", "1".repeat(*n + 1)), format!("k{} k{}", "1".repeat(*n + 1), "1".repeat(*n + 2))),
        ] {
            for ev in [strs(&[("ex", &a), ("in", &b)]), strs(&[("in", &b), ("ex", &a)])] {
                if !check(w, &pr, &ev, &[], Enc::Utf8, Cmp::All) {
                    return;
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C10
pub fn c10(c: &Ctx) {
    let sets: Vec<Vec<RegexRuleConfig>> = vec![
        vec![rule("a+").match_action(redact("#")), rule("ab"), rule("b").match_action(redact(""))],
        vec![
            rule("[ab]").scope(Scope::Exclude(vec![path("p")])).match_action(redact("X")),
            rule("a").scope(Scope::Include { include: vec![path("q")], exclude: vec![] }),
            rule("b+").match_action(MatchAction::Hash),
        ],
        vec![
            rule("b").proximity_keywords(kw(3, &["a"], &[])),
            rule("b").proximity_keywords(kw(3, &[], &["a"])).match_action(redact("-")),
            rule(r"a\b"),
        ],
        vec![rule("a"), rule("a"), rule("a").match_action(redact("aa"))],
    ];
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..5 {
        lists.push(vec![a]);
        for b in 0..5 {
            lists.push(vec![a, b]);
        }
    }
    for x in 0..27 {
        lists.push(vec![x / 9, x / 3 % 3, x % 3]);
    }
    lists.push(vec![2, 2, 1, 1]);
    lists.push([2, 7, 0].repeat(30));
    lists.push((1..40).rev().collect());
    lists.push(vec![usize::MAX, 0]);
    let texts = all_strings(&['a', 'b', ' '], 0, c.q(3, 4));
    let mut items = vec![];
    for (i, _) in sets.iter().enumerate() {
        for l in &lists {
            items.push((i, l.clone()));
        }
    }
    c.space("subsets", "4 rule sets x every blocked list of <=2 indices (duplicates, out of range), every list of 3 of the rules and longer ones x every pair of strings over a b space up to length 3 (thorough 4): against the scanner without those rules, and that the next unblocked scan is unaffected", &items, |w, (i, l)| {
        let full = &sets[*i];
        let kept: Vec<usize> = (0..full.len()).filter(|k| !l.contains(k)).collect();
        let less: Vec<_> = kept.iter().map(|k| full[*k].clone()).collect();
        let Some(pf) = pair(w, full, Opts::default()) else { return };
        let Ok(sl) = build(&less, Opts::default()) else {
            w.violate("build", json!({"case": "without blocked rules"}));
            return;
        };
        let cfg = rules_text(full, &Opts::default());
        w.config(cfg);
        for a in &texts {
            for b in &texts {
                let ev: Strs = vec![(path("p"), a.clone()), (path("q"), b.clone())];
                if !check(w, &pf, &ev, l, Enc::Utf8, Cmp::All) || w.stopped() {
                    return;
                }
                let text = case_text(&ev, l);
                let Some((x, y, z)) = w.run(&text, 3, || {
                    (
                        run_enc(&pf.sc, &ev, l, Enc::Utf8).0,
                        run_enc(&sl, &ev, &[], Enc::Utf8).0,
                        if a.len() + b.len() <= 3 { Some(run_enc(&pf.sc, &ev, &[], Enc::Utf8).0) } else { None },
                    )
                }) else { return };
                let mut y = y;
                for m in &mut y.matches {
                    m.rule = kept[m.rule];
                }
                if x != y {
                    w.violate("differs", json!({"case": text, "blocked": show(&x), "without": show(&y)}));
                    return;
                }
                if let Some(z) = z {
                    let want = pf.rf.scan(&ev, &[], Enc::Utf8);
                    if !same(&z, &want) {
                        w.violate("later-scan", json!({"case": text, "observed": show(&z), "expected": show(&want)}));
                        return;
                    }
                }
            }
        }
    });
    let ns: Vec<usize> = (1..=70).chain([128, 200, 256, 257, 300]).collect();
    c.space("scale", "k rules with one, all but one, every second rule blocked; indices beyond the rules (a rule's index plus a power of two)", &ns, |w, k| {
        let rules: Vec<_> = (0..*k).map(|i| rule(&format!("x{}y?", i % 7)).match_action(if i % 2 == 0 { redact("#") } else { MatchAction::None })).collect();
        let Some(p) = pair(w, &rules, Opts::default()) else { return };
        let mut ls: Vec<Vec<usize>> = (0..*k).map(|i| vec![i]).collect();
        ls.extend((0..(*k).min(20)).map(|i| (0..*k).filter(|j| *j != i).collect::<Vec<_>>()));
        for far in [1usize << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 63] {
            ls.extend([0, k / 2, k - 1].map(|i| vec![i + far]));
        }
        ls.push((0..*k).filter(|i| i % 2 == 0).collect());
        ls.push((0..*k).rev().collect());
        ls.push((0..*k).map(|i| (i * 7 + 3) % *k).filter(|i| i % 3 != 0).collect());
        ls.push((0..*k).rev().chain(0..*k).filter(|i| i % 2 == 1).collect());
        for l in ls {
            if !check(w, &p, &strs(&[("a", "x0 x1y x2"), ("b", "x3x4 x6yx5")]), &l, Enc::Utf8, Cmp::All) || w.stopped() {
                return;
            }
        }
    });
}
