//! C19 shared regexes, C21 metrics: histories of builds, scans and drops, every node of the tree a process.
use crate::common::*;
use crate::core::*;
use crate::forkx::X;
use crate::rec::{rec, MKey};
use crate::refscan::*;
use dd_sds::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone)]
pub struct Cfg {
    pub rules: Vec<RegexRuleConfig>,
    pub o: Opts,
    pub labels: Vec<(&'static str, &'static str)>,
    /// numeric code and text of the error, for lists that must be refused
    pub err: Option<(i64, &'static str)>,
}
fn cfg(rules: Vec<RegexRuleConfig>) -> Cfg {
    let kw_paths = rules.iter().any(|r| r.proximity_keywords.as_ref().map_or(false, |k| !k.included_keywords.is_empty()));
    Cfg { rules, o: Opts { kw_paths, ..Opts::default() }, labels: vec![], err: None }
}
fn bad(p: &str, e: &'static str) -> Cfg {
    Cfg { err: Some((-2, e)), ..cfg(vec![rule(p).match_action(redact("!"))]) }
}
pub fn build_cfg(c: &Cfg) -> Result<Scanner, CreateScannerError> {
    let v: Vec<_> = c.rules.iter().map(|r| r.build()).collect();
    Scanner::builder(&v)
        .labels(Labels::new(&c.labels.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>()))
        .with_multipass_v0(c.o.multipass)
        .with_keywords_should_match_event_paths(c.o.kw_paths)
        .with_implicit_wildcard_indexes_for_scopes(c.o.wild)
        .build()
}
pub fn text(c: &Cfg) -> String {
    rules_text(&c.rules, &c.o)
}
/// Configurations chosen so that patterns, keyword lists and their compiled texts coincide or nearly do.
pub fn configs() -> Vec<Cfg> {
    let x = |p: &str| rule(p).match_action(redact("X"));
    vec![
        cfg(vec![x("é")]),
        cfg(vec![x("É").match_action(MatchAction::Hash), x("é")]),
        cfg(vec![x("a").proximity_keywords(kw(4, &["é"], &[]))]),
        cfg(vec![x("a").proximity_keywords(kw(4, &[], &["é"]))]),
        cfg(vec![x(r"\#x\#")]),
        cfg(vec![x("a").proximity_keywords(kw(6, &["#x#"], &[]))]),
        cfg(vec![x("(?i)é")]),
        cfg(vec![x("é|ü"), x("é|ü").match_action(MatchAction::None)]),
        cfg(vec![x("a").proximity_keywords(kw(4, &["é", "ü"], &[]))]),
        cfg(vec![x("ab"), x("a").proximity_keywords(kw(4, &["ab"], &["é"]))]),
        cfg(vec![x("a").proximity_keywords(kw(5, &["éB"], &[])), x("b").proximity_keywords(kw(5, &["é.b"], &[]))]),
        bad(r"(?-u:\b)ab(?-u:\b)", "InvalidRegex(InvalidSyntax)"),
        bad("a*", "InvalidRegex(MatchesEmptyString)"),
        bad("(é", "InvalidRegex(InvalidSyntax)"),
    ]
}
pub fn events() -> Vec<Strs> {
    vec![
        one("é É a É a ü a Ü a"),
        one("#x# a #X# a"),
        one("ab a AB a aB"),
        strs(&[("éB", "a b"), ("x", "é.b a é.B b éb a")]),
    ]
}
fn near() -> Vec<Cfg> {
    let mut v = vec![];
    let long = |at: usize| {
        let mut t: Vec<u8> = b"abcdefghijklmnopqrstuvwxyz".repeat(12);
        t[at] = b'0';
        String::from_utf8(t).unwrap()
    };
    let mut pats: Vec<String> = [
        "ab", " ab", "ab ", "ab\n", "\tab", "a b", "AB", "Ab", "(?i)ab", "(?i:a)b", "(ab)", "(?:ab)", "(?x)a b", "ab$", "^ab", r"ab\b", r"ab\B", "ab?", "ab+", "ab+?", "ab{2}", "ab{1}", "[ab]", "[^ab]",
        "a.b", "(?s)a.b", r"a\.b", r"a\sb", "a\u{e9}b", "a\u{c9}b", "ae\u{301}b", "ab|b", "b|ab", "a|b", r"\x61b", r"a\x62", "(?-i)ab", "ab\u{200b}",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    pats.extend([0, 1, 155, 310, 311].map(long));
    for p in pats {
        v.push(cfg(vec![rule(&p).match_action(redact("X"))]));
    }
    let k = |n, i: &[&str], e: &[&str]| cfg(vec![rule("[0-9]").match_action(redact("X")).proximity_keywords(kw(n, i, e))]);
    v.extend([
        k(6, &["ab"], &[]),
        k(2, &["ab"], &[]),
        k(6, &[], &["ab"]),
        k(2, &[], &["ab"]),
        k(6, &["a b"], &[]),
        k(6, &["a-b"], &[]),
        k(6, &[], &["a-b"]),
        k(6, &[], &["a b"]),
        k(6, &["ab", "b"], &[]),
        k(6, &["b", "ab"], &[]),
        k(6, &["ab"], &["b"]),
        k(6, &["b"], &["ab"]),
        k(6, &["\u{e9}"], &[]),
        k(6, &["\u{c9}"], &[]),
        k(6, &["abb"], &[]),
    ]);
    v
}
fn near_events() -> Vec<Strs> {
    let l = String::from_utf8(b"abcdefghijklmnopqrstuvwxyz".repeat(12)).unwrap();
    let mut t = vec![
        one("ab  ab \tab\nab AB Ab aB a b abb a.b a\nb a\u{e9}b a\u{c9}b ae\u{301}b abc ab\u{200b} ab"),
        strs(&[("ab", "ab 1 AB 2 a-b 3 b 4 a b 5 abb 6"), ("x", "ab    7 \u{e9} 8   \u{c9} 9   b-a 0 a_b 1")]),
    ];
    for at in [0, 1, 155, 310, 311] {
        let mut b = l.clone().into_bytes();
        b[at] = b'0';
        t.push(strs(&[("k", &String::from_utf8(b).unwrap())]));
    }
    t
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Op {
    Build(usize),
    Drop(usize),
    Scan(usize),
}
struct Node {
    live: Vec<(usize, Scanner)>,
    hist: Vec<Op>,
}
struct World {
    cfgs: Vec<Cfg>,
    evs: Vec<Strs>,
    want: Vec<Vec<Out>>,
    max_live: usize,
}
impl World {
    fn new(cfgs: Vec<Cfg>, evs: Vec<Strs>) -> World {
        let want = cfgs
            .iter()
            .map(|c| {
                if c.err.is_some() {
                    return vec![];
                }
                let r = RefScanner::new(&c.rules, c.o);
                evs.iter().map(|e| r.scan(e, &[], Enc::Utf8)).collect()
            })
            .collect();
        World { cfgs, evs, want, max_live: 3 }
    }
    fn hist_text(&self, n: &Node, note: &str) -> String {
        let h: Vec<String> = n
            .hist
            .iter()
            .map(|o| match o {
                Op::Build(i) => format!("build {}", text(&self.cfgs[*i])),
                Op::Drop(i) => format!("drop scanner {i}"),
                Op::Scan(i) => format!("scan with scanner {i}"),
            })
            .collect();
        format!("{note}{}", h.join("; "))
    }
    fn ops(&self, n: &Node, scans: bool) -> Vec<Op> {
        let mut v = vec![];
        if n.live.len() < self.max_live {
            v.extend((0..self.cfgs.len()).map(Op::Build));
        }
        for i in 0..n.live.len() {
            v.push(Op::Drop(i));
            if scans && n.hist.last() != Some(&Op::Scan(i)) {
                v.push(Op::Scan(i));
            }
        }
        v
    }
    fn scan_ok(&self, x: &X, n: &Node, i: usize, note: &str) -> bool {
        let (c, sc) = &n.live[i];
        for (e, want) in self.evs.iter().zip(&self.want[*c]) {
            let (got, bad) = run_impl::<Utf8Encoding>(sc, e, &[]);
            x.trace(1);
            if !same(&got, want) || bad.is_some() {
                x.violate(
                    "result",
                    &self.hist_text(n, note),
                    json!({"scanner": text(&self.cfgs[*c]), "event": case_text(e, &[]), "expected": show(want), "observed": show(&got), "protocol": bad}),
                );
                return false;
            }
        }
        true
    }
    fn apply(&self, x: &X, n: &mut Node, op: Op, note: &str) -> bool {
        n.hist.push(op);
        match op {
            Op::Build(c) => {
                let r = build_cfg(&self.cfgs[c]);
                match (r, self.cfgs[c].err) {
                    (Ok(s), None) => n.live.push((c, s)),
                    (Err(e), Some(w)) if format!("{e:?}") == w.1 => {}
                    (r, w) => {
                        let r = r.map(|_| ()).map_err(|e| format!("{e:?}"));
                        x.violate("build", &self.hist_text(n, note), json!({"expected": format!("{w:?}"), "observed": format!("{r:?}")}));
                        return false;
                    }
                }
            }
            Op::Drop(i) => drop(n.live.remove(i)),
            Op::Scan(i) => return self.scan_ok(x, n, i, note),
        }
        true
    }
    /// Upper bound of the number of regexes that scanners in `live` keep in use.
    fn in_use(&self, live: &[(usize, Scanner)]) -> usize {
        live.iter()
            .map(|(c, _)| {
                self.cfgs[*c]
                    .rules
                    .iter()
                    .map(|r| 1 + r.proximity_keywords.as_ref().map_or(0, |k| 2 * (!k.included_keywords.is_empty()) as usize + 2 * (!k.excluded_keywords.is_empty()) as usize))
                    .sum::<usize>()
            })
            .sum()
    }
    fn explore(&self, x: &X, n: Node, depth: usize, scans: bool, note: &str) {
        if depth > 0 {
            for op in self.ops(&n, scans) {
                let label = || {
                    let mut h = self.hist_text(&n, note);
                    h.push_str(&format!("; {op:?}"));
                    h
                };
                // SAFETY of the reference: the child owns a copy of the whole process
                let np = &n as *const Node as *mut Node;
                x.child(label, || {
                    let n = unsafe { std::ptr::read(np) };
                    let mut n = std::mem::ManuallyDrop::new(n);
                    if self.apply(x, &mut n, op, note) {
                        let n = std::mem::ManuallyDrop::into_inner(n);
                        self.explore(x, n, depth - 1, scans, note);
                    }
                });
                if x.stopped() {
                    break;
                }
            }
        }
        x.state(1);
        x.outcome(&(format!("{:?}", n.live.iter().map(|l| l.0).collect::<Vec<_>>()), n.hist.len()), !n.live.is_empty());
        for i in 0..n.live.len() {
            if !self.scan_ok(x, &n, i, note) {
                break;
            }
        }
        let total = rec().get("scanner.total_regexes") as usize;
        let cap = self.in_use(&n.live) + 1000;
        if total > cap {
            x.violate("retained", &self.hist_text(&n, note), json!({"stored": total, "in use": self.in_use(&n.live)}));
        }
        if n.hist.len() == 4 {
            x.sample(|| json!({"space": x.space, "history": self.hist_text(&n, note), "live": n.live.len()}));
        }
        std::mem::forget(n);
    }
}
pub fn churn(from: usize, n: usize) {
    for i in from..from + n {
        let _ = build(&[rule(&format!("z{i}"))], Opts::default());
    }
}
pub fn c19(c: &Ctx) {
    rec();
    let w = World::new(configs(), events());
    let root: Vec<Op> = (0..w.cfgs.len()).map(Op::Build).collect();
    // histories from a fresh process
    let mut items = vec![];
    for a in &root {
        for b in 0..w.cfgs.len() {
            items.push(vec![*a, Op::Build(b)]);
        }
        if let Op::Build(k) = a {
            if w.cfgs[*k].err.is_none() {
                items.push(vec![*a, Op::Drop(0)]);
                items.push(vec![*a, Op::Scan(0)]);
            }
        }
    }
    let d = c.q(2, 3);
    c.fork_space("histories", "every history of 4 (thorough 5) operations among builds of 14 configurations, scans and drops with up to 3 live scanners, from a fresh process; all live scanners are checked in every state", 40, &items, |x, first| {
        let mut n = Node { live: vec![], hist: vec![] };
        for op in first {
            if !w.apply(x, &mut n, *op, "") {
                return;
            }
        }
        w.explore(x, n, d, true, "");
    });
    // every ordered pair of configurations that are nearly the same
    let al = World::new(near(), near_events());
    let items: Vec<usize> = (0..al.cfgs.len()).collect();
    c.fork_space("near-equal", "every ordered pair of 58 configurations whose patterns or keyword lists differ in white space, case, flags, grouping, accents, quantifiers, in one character at the start, middle or end of a long pattern, in the look-ahead or in their use (included, excluded, pattern), the first kept or dropped", 60, &items, |x, &a| {
        for b in 0..al.cfgs.len() {
            for drop_first in [false, true] {
                x.child(
                    || format!("build {}; {}build {}", text(&al.cfgs[a]), if drop_first { "drop it; " } else { "" }, text(&al.cfgs[b])),
                    || {
                        let mut n = Node { live: vec![], hist: vec![] };
                        let ok = al.apply(x, &mut n, Op::Build(a), "")
                            && (!drop_first || al.scan_ok(x, &n, 0, "") && al.apply(x, &mut n, Op::Drop(0), ""))
                            && al.apply(x, &mut n, Op::Build(b), "");
                        x.state(3);
                        x.outcome(&(a, b), a != b);
                        if ok {
                            for i in (0..n.live.len()).rev() {
                                if !al.scan_ok(x, &n, i, "") {
                                    break;
                                }
                            }
                        }
                        std::mem::forget(n);
                    },
                );
                if x.stopped() {
                    return;
                }
            }
        }
    });
    // long patterns that agree up to one end
    let ns: Vec<usize> = c.q(vec![33, 129, 257, 1025, 4097, 16385], (5..15).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect());
    c.fork_space("long patterns", "pairs of patterns of n characters (n = 33, 129, 257, 1025, 4097, 16385; thorough: all around 2^5..2^14) that differ only in their first, middle or last character, and full keyword lists that differ only in one keyword, both orders, the first kept or dropped", 60, &ns, |x, &n| {
        let lit = |at: usize| {
            let mut t = b"abcdefg".iter().cycle().take(n).copied().collect::<Vec<_>>();
            t[at] = b'0';
            String::from_utf8(t).unwrap()
        };
        let mut cfgs: Vec<Cfg> = [0, n / 2, n - 1].iter().map(|at| cfg(vec![rule(&lit(*at)).match_action(redact("X"))])).collect();
        if n < 64 {
            let list = |at: usize| (0..50).map(|i| format!("{}{}", "k".repeat(n.min(44)), if i == at { 900 } else { i + 100 })).collect::<Vec<_>>();
            for at in [0, 25, 49] {
                let l = list(at);
                let l: Vec<&str> = l.iter().map(|s| s.as_str()).collect();
                cfgs.push(cfg(vec![rule("[0-9]!").proximity_keywords(kw(50, &l, &[]))]));
                cfgs.push(cfg(vec![rule("[0-9]!").proximity_keywords(kw(50, &[], &l))]));
            }
        }
        let k = "k".repeat(n.min(44));
        let mut evs = vec![one(&format!("{k}900 1! . . . . . . . . . . . . . . . . . . . . . . . . . . . . {k}100 2!")), one(&format!("{k}125 3!")), one(&format!("{k}149 4!"))];
        evs.extend([0, n / 2, n - 1].map(|at| one(&lit(at))));
        let al = World::new(cfgs, evs);
        for a in 0..al.cfgs.len() {
            for b in 0..al.cfgs.len() {
                for drop_first in [false, true] {
                    x.child(
                        || format!("build {}; {}build {}", text(&al.cfgs[a]), if drop_first { "drop it; " } else { "" }, text(&al.cfgs[b])),
                        || {
                            let mut nd = Node { live: vec![], hist: vec![] };
                            let ok = al.apply(x, &mut nd, Op::Build(a), "") && (!drop_first || al.apply(x, &mut nd, Op::Drop(0), "")) && al.apply(x, &mut nd, Op::Build(b), "");
                            x.state(3);
                            x.outcome(&(n, a, b), a != b);
                            if ok {
                                for i in (0..nd.live.len()).rev() {
                                    if !al.scan_ok(x, &nd, i, "") {
                                        break;
                                    }
                                }
                            }
                            std::mem::forget(nd);
                        },
                    );
                    if x.stopped() {
                        return;
                    }
                }
            }
        }
    });
    // histories around a clean-up of the store
    let mut items = vec![];
    for off in 0..c.q(10usize, 16) {
        for a in &root {
            for keep in 0..3 {
                items.push((off, *a, keep));
            }
        }
    }
    c.fork_space("clean-up", "every history of 3 (thorough 4) operations starting 0..9 (15) insertions before a clean-up of the store is due, with scanners that live through it, with scanners that were used and dropped before, or without any", 60, &items, |x, &(off, a, keep)| {
        let note = format!("(after {} builds and drops of other patterns{}) ", 999 - off, ["", ", with scanners of configurations 1 and 9 alive since before", ", after scanners of configurations 1 and 9 scanned and were dropped"][keep]);
        let mut n = Node { live: vec![], hist: vec![] };
        if keep > 0 {
            for k in [1usize, 9] {
                if !w.apply(x, &mut n, Op::Build(k), &note) {
                    return;
                }
            }
        }
        if keep == 2 {
            for i in [0, 1] {
                if !w.scan_ok(x, &n, i, &note) {
                    return;
                }
            }
            n = Node { live: vec![], hist: vec![] };
        }
        churn(0, 999 - off - if keep > 0 { 6 } else { 0 });
        if !w.apply(x, &mut n, a, &note) {
            return;
        }
        w.explore(x, n, c.q(2, 3), true, &note);
    });
    // patterns whose searches depend on the state that threads keep for them
    let sw = World::new(
        [r"[a-f]{1,30}[0-9]{2,25}x?", r"\w{2,20}\d", r"(?:ab|cd|ef){1,20}[^a-z]", r"[0-9a-f]{4,20}-[0-9]{2,13}", r"[A-Z][a-zé]{0,30}[0-9]", r"\w{1,15}@[a-z.]{1,15}", r"é[a-z]{0,30}\d?", r"(?i)x[é-ü]{2,30}"].iter().map(|p| cfg(vec![rule(p).match_action(redact("X"))])).collect(),
        vec![one("abef12345x cd12 abcd! éab1 XéÜ"), one("Word1 wOrd2 x@y.z 1f2e-123 ab ef-"), one("aaaa fff 12 É cdef cdcd9 xüé dead-10")],
    );
    let mut items = vec![];
    for a in 0..sw.cfgs.len() {
        for b in 0..sw.cfgs.len() {
            for off in 0..c.q(2usize, 3) {
                items.push((a, b, off));
            }
        }
    }
    c.fork_space("clean-up, reuse", "every ordered pair of 8 configurations with stateful searches: the first is built, scans and is dropped, other patterns are built and dropped up to 1 (2) insertions before a clean-up, then the second is built twice and scans", 60, &items, |x, &(a, b, off)| {
        let note = "(with some 990 builds and drops of other patterns in between) ";
        let mut n = Node { live: vec![], hist: vec![] };
        if !sw.apply(x, &mut n, Op::Build(a), note) || !sw.scan_ok(x, &n, 0, note) || !sw.apply(x, &mut n, Op::Drop(0), note) {
            return;
        }
        churn(0, 998 - off);
        for _ in 0..2 {
            let i = n.live.len();
            if !sw.apply(x, &mut n, Op::Build(b), note) || !sw.scan_ok(x, &n, i, note) {
                return;
            }
        }
    });
    // long histories
    let items: Vec<usize> = (0..w.cfgs.len()).filter(|i| w.cfgs[*i].err.is_none()).collect();
    c.fork_space("churn", "long histories: 2400 (thorough 12000) builds and drops of distinct patterns beside a live scanner of every configuration; stored dead patterns never exceed the clean-up interval", 120, &items, |x, &k| {
        let mut n = Node { live: vec![], hist: vec![] };
        if !w.apply(x, &mut n, Op::Build(k), "") {
            return;
        }
        for i in 0..c.q(240usize, 1200) {
            churn(i * 10, 10);
            x.state(10);
            let note = format!("({} other patterns built and dropped) ", (i + 1) * 10);
            let total = rec().get("scanner.total_regexes") as usize;
            if total > w.in_use(&n.live) + 1000 {
                x.violate("retained", &w.hist_text(&n, &note), json!({"stored": total, "in use": w.in_use(&n.live)}));
                return;
            }
            if i % 5 == 0 && !w.scan_ok(x, &n, 0, &note) {
                return;
            }
            if i % 60 == 59 {
                // a second scanner of the same configuration, made now
                if !w.apply(x, &mut n, Op::Build(k), &note) || !w.scan_ok(x, &n, 1, &note) || !w.apply(x, &mut n, Op::Drop(0), &note) {
                    return;
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------ C21
type Metrics = BTreeMap<MKey, i64>;
struct Model {
    m: Metrics,
    live: i64,
}
fn mkey(n: &str, l: &[(String, String)]) -> MKey {
    (n.to_string(), l.to_vec())
}
fn own(l: &[(&str, &str)]) -> Vec<(String, String)> {
    l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
impl Model {
    fn add(&mut self, n: &str, l: &[(String, String)], v: i64) {
        *self.m.entry(mkey(n, l)).or_insert(0) += v;
    }
    fn scan(&mut self, c: &Cfg, labels: &[Vec<(&'static str, &'static str)>], out: &Out) {
        let sl = own(&c.labels);
        self.add("scanned_events", &sl, 1);
        self.add("scanning.match_count", &sl, out.matches.len() as i64);
        for (i, rl) in labels.iter().enumerate() {
            let mut l = sl.clone();
            l.extend(own(rl));
            self.add("false_positive.multipass.excluded_match", &l, out.fp_multi[i] as i64);
            l.push(("type".into(), "excluded_keywords".into()));
            self.add("false_positive.proximity_keywords", &l, out.fp_kw[i] as i64);
        }
    }
}
struct MCfg {
    c: Cfg,
    rl: Vec<Vec<(&'static str, &'static str)>>,
}
fn mc(mut rules: Vec<RegexRuleConfig>, o: Opts, labels: &[(&'static str, &'static str)], rl: &[&[(&'static str, &'static str)]]) -> MCfg {
    for (r, l) in rules.iter_mut().zip(rl) {
        r.labels = Labels::new(&own(l));
    }
    MCfg { c: Cfg { rules, o, labels: labels.to_vec(), err: None }, rl: rl.iter().map(|l| l.to_vec()).collect() }
}
fn metric_configs() -> Vec<MCfg> {
    let d = Opts::default();
    let ex = |p: &str, e: &str| rule(p).match_action(redact("X")).scope(Scope::exclude(vec![path(e)]));
    let mut v = vec![
        mc(vec![rule("a")], d, &[], &[&[]]),
        mc(vec![rule("a").match_action(redact("bb")), rule("b")], d, &[("s", "1")], &[&[("r", "1")], &[("r", "2"), ("q", "x")]]),
        mc(vec![rule("[ab]").proximity_keywords(kw(3, &[], &["k"])), rule("b").match_action(MatchAction::Hash).proximity_keywords(kw(5, &[], &["k", "a"]))], d, &[("s", "1")], &[&[("r", "1")], &[]]),
        mc(vec![ex("a", "x"), ex("b", "y")], d, &[("s", "2"), ("t", "z")], &[&[("r", "a")], &[("r", "b")]]),
        mc(vec![ex("a", "x"), rule("[ab]")], Opts { multipass: false, ..d }, &[], &[&[("r", "a")], &[("r", "b")]]),
        mc(vec![rule("[ab]").scope(Scope::exclude(vec![path("x")])).proximity_keywords(kw(3, &["k", "y.k"], &["a"]))], Opts { kw_paths: true, ..d }, &[("s", "1")], &[&[("r", "1")]]),
        mc(vec![ex("[ab]", "x").proximity_keywords(kw(3, &[], &["k"])), ex("a", "x").proximity_keywords(kw(3, &["k", "ky"], &[]))], Opts { kw_paths: true, ..d }, &[], &[&[("s", "1")], &[("s", "1")]]),
    ];
    let mut f = mc(vec![rule("a").labels(Labels::default()), rule("a*")], d, &[("s", "f")], &[&[], &[]]);
    f.c.err = Some((-2, "InvalidRegex(MatchesEmptyString)"));
    v.push(f);
    let mut f = mc(vec![rule("b").match_action(partial(true, 0))], d, &[("s", "f")], &[&[]]);
    f.c.err = Some((-4, "InvalidMatchAction(PartialRedactionNumCharsZero)"));
    v.push(f);
    v
}
fn keys_of_interest(k: &MKey) -> bool {
    matches!(k.0.as_str(), "scanned_events" | "scanning.match_count" | "false_positive.multipass.excluded_match" | "false_positive.proximity_keywords" | "scanner.creations" | "scanner.deletions" | "scanner.total_count")
}
/// Differences between the recorded metrics and the model; absent means zero.
fn diff(m: &Model) -> Vec<String> {
    let got = rec().snapshot();
    let keys: BTreeSet<&MKey> = got.keys().chain(m.m.keys()).filter(|k| keys_of_interest(k)).collect();
    let mut v = vec![];
    for k in keys {
        let (g, w) = (got.get(k).copied().unwrap_or(0), m.m.get(k).copied().unwrap_or(0));
        if g != w {
            v.push(format!("{k:?}: expected {w}, observed {g}"));
        }
    }
    if rec().low("scanner.total_regex_cache_size") < 0 {
        v.push(format!("scanner.total_regex_cache_size went down to {}", rec().low("scanner.total_regex_cache_size")));
    }
    v
}
struct MNode {
    live: Vec<(usize, Scanner)>,
    hist: Vec<String>,
    m: Model,
}
#[derive(Clone, Copy, Debug)]
enum MOp {
    Build(usize),
    Drop(usize),
    Scan(usize, usize),
}
struct MWorld {
    cfgs: Vec<MCfg>,
    evs: Vec<(Strs, Vec<usize>)>,
    want: Vec<Vec<Out>>,
}
impl MWorld {
    fn new() -> MWorld {
        let evs: Vec<(Strs, Vec<usize>)> = vec![
            (one("a b k a kb"), vec![]),
            (strs(&[("x", "a k b"), ("y", "a a b"), ("y.k", "ka b k b a")]), vec![]),
            (strs(&[("y.k", "k a b"), ("x", "k a b"), ("ky", "b b a")]), vec![0]),
            (strs(&[("x", "")]), vec![]),
        ];
        let cfgs = metric_configs();
        let want = cfgs
            .iter()
            .map(|c| {
                if c.c.err.is_some() {
                    return vec![];
                }
                let r = RefScanner::new(&c.c.rules, c.c.o);
                evs.iter().map(|(e, b)| r.scan(e, b, Enc::Utf8)).collect()
            })
            .collect();
        MWorld { cfgs, evs, want }
    }
    fn apply(&self, n: &mut MNode, op: MOp) -> Option<String> {
        match op {
            MOp::Build(i) => {
                n.hist.push(format!("build {} labels {:?}", text(&self.cfgs[i].c), self.cfgs[i].c.labels));
                let r = build_cfg(&self.cfgs[i].c);
                match (r, self.cfgs[i].c.err) {
                    (Ok(s), None) => {
                        n.live.push((i, s));
                        n.m.live += 1;
                        n.m.add("scanner.creations", &[], 1);
                    }
                    (Err(_), Some(_)) => {}
                    (r, _) => return Some(format!("build: {:?}", r.map(|_| ()))),
                }
            }
            MOp::Drop(i) => {
                n.hist.push(format!("drop scanner {i}"));
                drop(n.live.remove(i));
                n.m.live -= 1;
                n.m.add("scanner.deletions", &[], 1);
            }
            MOp::Scan(i, e) => {
                let (ev, b) = &self.evs[e];
                n.hist.push(format!("scanner {i} scans {}", case_text(ev, b)));
                let (k, s) = &n.live[i];
                let _ = run_impl::<Utf8Encoding>(s, ev, b);
                let out = &self.want[*k][e];
                n.m.scan(&self.cfgs[*k].c, &self.cfgs[*k].rl, out);
            }
        }
        n.m.m.insert(mkey("scanner.total_count", &[]), n.m.live);
        None
    }
    fn explore(&self, x: &X, n: MNode, depth: usize) {
        if depth > 0 {
            let mut ops = vec![];
            if n.live.len() < 3 {
                ops.extend((0..self.cfgs.len()).map(MOp::Build));
            }
            for i in 0..n.live.len() {
                ops.push(MOp::Drop(i));
                ops.extend((0..self.evs.len()).map(|e| MOp::Scan(i, e)));
            }
            for op in ops {
                let np = &n as *const MNode as *mut MNode;
                x.child(
                    || format!("{}; {op:?}", n.hist.join("; ")),
                    || {
                        let mut m = std::mem::ManuallyDrop::new(unsafe { std::ptr::read(np) });
                        let e = self.apply(&mut m, op);
                        let m = std::mem::ManuallyDrop::into_inner(m);
                        if let Some(e) = e {
                            x.violate("build", &m.hist.join("; "), json!(e));
                            std::mem::forget(m);
                            return;
                        }
                        self.explore(x, m, depth - 1);
                    },
                );
                if x.stopped() {
                    break;
                }
            }
        }
        x.state(1);
        x.trace(1);
        x.outcome(&rec().snapshot().into_iter().filter(|(k, _)| keys_of_interest(k)).collect::<Vec<_>>(), n.m.m.values().any(|v| *v > 1));
        let d = diff(&n.m);
        if !d.is_empty() {
            x.violate("metrics", &n.hist.join("; "), json!(d));
        }
        if n.hist.len() == 4 {
            x.sample(|| json!({"space": x.space, "history": n.hist, "metrics": rec().snapshot().into_iter().filter(|(k, v)| keys_of_interest(k) && *v != 0).map(|(k, v)| format!("{k:?} {v}")).collect::<Vec<_>>()}));
        }
        std::mem::forget(n);
    }
}
pub fn c21(c: &Ctx) {
    rec();
    let w = MWorld::new();
    let fresh = || MNode { live: vec![], hist: vec![], m: Model { m: Metrics::new(), live: 0 } };
    let mut items = vec![];
    for a in 0..w.cfgs.len() {
        for b in 0..w.cfgs.len() {
            items.push(vec![MOp::Build(a), MOp::Build(b)]);
        }
        if w.cfgs[a].c.err.is_none() {
            items.push(vec![MOp::Build(a), MOp::Drop(0)]);
            for e in 0..w.evs.len() {
                items.push(vec![MOp::Build(a), MOp::Scan(0, e)]);
            }
        }
    }
    c.fork_space("histories", "every history of 4 (thorough 5) operations among builds of 9 configurations (2 invalid), drops and scans of 4 events with up to 3 live scanners: all counters with their labels and all gauges after each", 40, &items, |x, first| {
        let mut n = fresh();
        for op in first {
            if let Some(e) = w.apply(&mut n, *op) {
                return x.violate("build", &n.hist.join("; "), json!(e));
            }
        }
        w.explore(x, n, c.q(2, 3));
    });
    crate::c20::gauges(c);
    store_gauges(c);
    scan_metrics(c);
}

// The gauges of the regex store. What one pattern adds is measured at its first build in the history;
// when dead patterns are forgotten is left open, so both gauges lie between what the live patterns
// and what all patterns so far account for.
#[derive(Clone, Default)]
struct SNode {
    live: Vec<(usize, std::sync::Arc<Scanner>)>,
    hist: Vec<usize>,
    cost: BTreeMap<usize, (i64, i64)>,
}
const STORE_SETS: [&[&str]; 4] = [&["q1"], &["q1", r"q\w{3}[0-9]+x"], &[r"q[a-z]{1,40}\b", "q4"], &["q5", "q5"]];
fn store_apply(n: &mut SNode, op: usize) -> Option<String> {
    let at = || (rec().get("scanner.total_regexes"), rec().get("scanner.total_regex_cache_size"));
    let before = at();
    n.hist.push(op);
    match op {
        4 if !n.live.is_empty() => drop(n.live.remove(0)),
        5 => drop(n.live.pop()),
        4 => {}
        k => {
            let rules: Vec<_> = STORE_SETS[k].iter().map(|p| rule(p)).collect();
            let Ok(s) = build(&rules, Opts::default()) else { return Some("build failed".into()) };
            n.live.push((k, std::sync::Arc::new(s)));
            if !n.cost.contains_key(&k) && !(k < 2 && (n.cost.contains_key(&0) || n.cost.contains_key(&1))) {
                let a = at();
                let d = (a.0 - before.0, a.1 - before.1);
                if d.0 < 1 || d.1 < 1 {
                    return Some(format!("building {:?} for the first time changed (total_regexes, total_regex_cache_size) by {d:?}", STORE_SETS[k]));
                }
                n.cost.insert(k, d);
            }
        }
    }
    let a = at();
    // q1 is shared by the first two sets: the costs of those sets are bounds, not sums
    let (mut lo, mut hi) = ((0, 0), (0, 0));
    let alive = |k: usize| n.live.iter().any(|l| l.0 == k);
    for (k, c) in &n.cost {
        if alive(*k) {
            lo = (lo.0 + c.0, lo.1 + c.1);
        }
        hi = (hi.0 + c.0, hi.1 + c.1);
    }
    let exact = !n.hist.iter().any(|o| *o >= 4);
    let shared = n.hist.contains(&0) && n.hist.contains(&1);
    if a.0 < lo.0 || a.1 < lo.1 || !shared && (a.0 > hi.0 || a.1 > hi.1 || exact && a != hi) {
        return Some(format!("(total_regexes, total_regex_cache_size) = {a:?}; the live scanners account for {lo:?}, all so far for {hi:?}"));
    }
    if (a.0 == 0) != (a.1 == 0) {
        return Some(format!("(total_regexes, total_regex_cache_size) = {a:?}"));
    }
    None
}
fn store_gauges(c: &Ctx) {
    fn go(x: &X, n: SNode, d: usize) {
        if d > 0 {
            for op in 0..6 {
                if op >= 4 && n.live.is_empty() {
                    continue;
                }
                x.child(
                    || format!("{:?} then {op}", n.hist),
                    || {
                        let mut m = n.clone();
                        // the parent's handles would keep the scanners alive
                        let mut n2 = std::mem::ManuallyDrop::new(unsafe { std::ptr::read(&n) });
                        n2.live.clear();
                        if let Some(e) = store_apply(&mut m, op) {
                            x.violate("store", &format!("{:?} (0-3: build, 4: drop oldest, 5: drop newest)", m.hist), json!(e));
                        } else {
                            go(x, m, d - 1);
                        }
                    },
                );
                if x.stopped() {
                    break;
                }
            }
        }
        x.state(1);
        x.trace(1);
        x.outcome(&(rec().get("scanner.total_regexes"), n.live.len()), true);
        std::mem::forget(n);
    }
    let items: Vec<usize> = (0..16).collect();
    c.fork_space("store gauges", "every history of 6 (thorough 7) builds of four rule lists (sharing patterns) and drops of the oldest or newest scanner: total_regexes and total_regex_cache_size lie between what the live scanners and what all so far account for, exactly while nothing was dropped", 40, &items, |x, i| {
        let mut n = SNode::default();
        for op in [i / 4, i % 4] {
            if let Some(e) = store_apply(&mut n, op) {
                return x.violate("store", &format!("{:?}", n.hist), json!(e));
            }
        }
        go(x, n, c.q(4, 5));
    });
    c.fork_space("store gauges, clean-up", "2500 (12000) builds and drops of distinct patterns: after each, the cache size is within twice the range that the number of stored regexes accounts for", 60, &[0usize, 1, 2], |x, k| {
        let keep: Vec<_> = (0..*k).map(|i| build(&[rule(&format!("keep{i}"))], Opts::default())).collect();
        let (mut lo, mut hi) = (i64::MAX, 0);
        let mut last = (rec().get("scanner.total_regexes"), rec().get("scanner.total_regex_cache_size"));
        for i in 0..c.q(2500usize, 12000) {
            churn(i, 1);
            let a = (rec().get("scanner.total_regexes"), rec().get("scanner.total_regex_cache_size"));
            if a.0 == last.0 + 1 {
                lo = lo.min(a.1 - last.1);
                hi = hi.max(a.1 - last.1);
            }
            last = a;
            x.state(1);
            if a.0 < *k as i64 || hi > 0 && (a.1 * 2 < lo * a.0 || a.1 > 2 * hi * a.0) {
                return x.violate("store", &format!("{} patterns built and dropped, {k} scanners kept", i + 1), json!({"total_regexes": a.0, "total_regex_cache_size": a.1, "one regex accounts for": [lo, hi]}));
            }
        }
        drop(keep);
    });
}
/// The counters of one scan, over many rules and events. The scanner's labels name the configuration, so that
/// configurations explored at the same time use different counters.
fn scan_metrics(c: &Ctx) {
    let mut cfgs: Vec<MCfg> = metric_configs().into_iter().filter(|m| m.c.err.is_none()).collect();
    let d = Opts::default();
    let one_label: &[(&'static str, &'static str)] = &[("r", "1")];
    let two_labels: &[(&'static str, &'static str)] = &[("r", "2"), ("z", "")];
    for (n, r) in feature_rules().into_iter().enumerate() {
        let second = rule(r"secret|\d+").match_action(if n % 2 == 0 { MatchAction::None } else { redact("#") });
        cfgs.push(mc(vec![r.clone()], d, &[("s", "1")], &[one_label]));
        cfgs.push(mc(vec![r.clone().scope(Scope::exclude(vec![path("x")])), second.clone()], Opts { kw_paths: n % 3 == 0, ..d }, &[], &[one_label, two_labels]));
        cfgs.push(mc(vec![second.scope(Scope::include_and_exclude(vec![path("x"), path("a")], vec![path("a.b")])), r.clone().scope(Scope::include(vec![path("x"), path("y")]))], Opts { multipass: n % 2 == 0, wild: n % 3 == 1, ..d }, &[("a", "b"), ("s", "1")], &[&[], one_label]));
    }
    let depth = c.q(2, 3);
    let short = c.q(4usize, 5);
    let items: Vec<usize> = (0..cfgs.len()).collect();
    c.space("scans", "the small configurations and the feature rules in three scope layouts x events of one to three strings (every short string or every sequence of text pieces) x blocked rules: the counters after each scan", &items, |w, i| {
        let mut all = vec![];
        if *i < 7 {
            all = all_strings(&['a', 'b', 'k', ' '], 0, short);
        } else {
            token_strings(TOKENS, depth, &mut |t| {
                all.push(t.to_string());
                true
            });
        }
        let mut steps = (0..all.len()).flat_map(|n| {
            let (s, t) = (&all[n], &all[(n * 7 + 3) % all.len()]);
            [one(s), strs(&[("x", s)]), strs(&[("x", s), ("y", s)]), strs(&[("y.k", s), ("x", s), ("a.b", s)]), strs(&[("a", s), ("x", t)]), strs(&[("x", t), ("y", s)]), strs(&[("x", s), ("x.y", t), ("key", s)])]
        });
        counted(w, &format!("{i}"), &cfgs[*i], &mut steps, &[&[], &[0], &[1, 1]]);
    });
    // n keywords, rules, labels, strings and matches
    let ns: Vec<usize> = (1..=c.q(20, 40)).chain([31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257]).collect();
    let items: Vec<(usize, usize)> = ns.iter().flat_map(|n| (0..5).map(move |k| (*n, k))).filter(|(n, k)| *n <= 30 || *k == 4 || *n < 70 && *k > 1).collect();
    c.space("counts", "n excluded or included keywords, n rules, n labels on rule and scanner, n strings with n matches and exclusions; n = 1..20 (40) and around powers of two", &items, |w, (n, kind)| {
        let words: Vec<String> = (0..*n).map(|i| format!("kw{i}z")).collect();
        let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
        let r = |i: usize| rule("s[0-9]+").proximity_keywords(kw(30, &[], &[words[i].as_str()])).match_action(if i % 2 == 0 { redact("#") } else { MatchAction::None });
        let refs: Vec<&str> = words.iter().map(|s| s.as_str()).collect();
        let m = match kind {
            0 => mc(vec![rule("s[0-9]+").proximity_keywords(kw(30, &[], &refs)), rule("s1")], d, &[("s", "1")], &[&[("r", "1")], &[("r", "2")]]),
            1 => mc(vec![rule("s[0-9]+").proximity_keywords(kw(30, &refs, &refs[n / 2..])).match_action(MatchAction::Hash), rule("s1")], d, &[("s", "1")], &[&[("r", "1")], &[]]),
            2 => mc((0..*n).map(r).collect(), d, &[("s", "1")], &vec![one_label; *n]),
            3 => {
                let l: Vec<(&'static str, &'static str)> = (0..*n).map(|i| (leak(format!("l{i}")), leak(format!("v{i}")))).collect();
                let q: Vec<(&'static str, &'static str)> = (0..*n).map(|i| (leak(format!("q{i}")), leak(format!("w{i}")))).collect();
                mc(vec![r(0), rule("s[0-9]+").scope(Scope::exclude(vec![path("x")]))], d, &l, &[&q, one_label])
            }
            _ => mc(vec![r(0).scope(Scope::exclude(vec![path("x")])), r(n / 2)], d, &[("s", "1")], &[one_label, two_labels]),
        };
        let first = &words[0];
        let mid = &words[n / 2];
        let last = words.last().unwrap();
        let many = |f: &dyn Fn(usize) -> String| (0..*n).map(f).collect::<Vec<_>>().join(" ; ");
        let fields: Vec<(Path<'static>, String)> = (0..*n).map(|i| (path(&format!("f{i}")), format!("{} s{i}", words[i]))).collect();
        let mut evs = vec![one(&format!("{last} s1 s2")), one(&format!("{first} s1 ; {mid} s22")), strs(&[("x", "s1 s2"), ("y", &format!("s1 {last} s2"))]), one(&many(&|i| format!("s{i}"))), one(&many(&|i| format!("{} s{i}", words[i]))), fields.clone()];
        evs.push(fields.into_iter().map(|(p, s)| (p, s.replace("kw", "k-w"))).chain([(path("x"), "s1 s3".to_string())]).collect());
        let mut steps = evs.clone().into_iter().chain(evs);
        counted(w, &format!("n{n}.{kind}"), &m, &mut steps, &[&[], &[0]]);
    });
}
fn counted(w: &mut Worker, id: &str, m: &MCfg, steps: &mut dyn Iterator<Item = Strs>, blocks: &[&[usize]]) {
    let id: &'static str = Box::leak(id.to_string().into_boxed_str());
    let mut cf = m.c.clone();
    cf.labels.insert(0, ("item", id));
    w.config(format!("{} labels {:?} {:?}", text(&cf), cf.labels, m.rl));
    let sc = match w.run("(build)", 1, || build_cfg(&cf)) {
        Some(Ok(s)) => s,
        Some(Err(e)) => return w.violate("build", json!({"case": "(build)", "error": format!("{e:?}")})),
        None => return,
    };
    let rf = RefScanner::new(&cf.rules, cf.o);
    let mut model = Model { m: Metrics::new(), live: 0 };
    model.scan(&cf, &m.rl, &rf.scan(&vec![], &[], Enc::Utf8));
    let cells: Vec<(MKey, std::sync::Arc<crate::rec::Cell>)> = model.m.keys().map(|k| (k.clone(), rec().counter(k))).collect();
    model.m.clear();
    let mut step = |w: &mut Worker, e: &Strs, b: &[usize]| -> bool {
        let case = case_text(e, b);
        if w.run(&case, 1 + e.len() as u64, || run_impl::<Utf8Encoding>(&sc, e, b)).is_none() {
            return false;
        }
        let want = rf.scan(e, b, Enc::Utf8);
        let before = model.m.clone();
        model.scan(&cf, &m.rl, &want);
        w.outcome(&(want.matches.len(), &want.fp_kw, &want.fp_multi), want.fp_kw.iter().chain(&want.fp_multi).any(|x| *x > 0));
        for (k, c) in &cells {
            let (g, x) = (c.value(), model.m.get(k).copied().unwrap_or(0));
            if g != x {
                let b = before.get(k).copied().unwrap_or(0);
                w.violate("scan metrics", json!({"case": case, "counter": format!("{k:?}"), "expected to grow by": x - b, "grew by": g - b}));
                return false;
            }
        }
        !w.stopped()
    };
    for e in steps {
        for b in blocks {
            if !step(w, &e, b) {
                return;
            }
        }
    }
    // nothing was counted under other labels
    let own = |k: &MKey| k.1.contains(&("item".to_string(), id.to_string()));
    let stray: Vec<String> = rec().snapshot().into_iter().filter(|(k, v)| *v != 0 && own(k) && keys_of_interest(k) && !model.m.contains_key(k)).map(|(k, v)| format!("{k:?} {v}")).collect();
    if !stray.is_empty() {
        w.violate("scan metrics", json!({"case": "(all)", "counted under wrong labels": stray}));
    }
}
