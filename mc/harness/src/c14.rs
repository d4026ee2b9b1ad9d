//! C14 pattern dialect, C15 pattern validation, C16 termination.
use crate::common::*;
use crate::core::*;
use crate::props::PROPS;
use crate::refre::{self, min_len, print, Item, Node, PErr, Re};
use crate::refscan::*;
use dd_sds::*;
use serde_json::json;

/// Expected matches of a bare rule: repeated leftmost match (byte offsets).
fn expect(re: &Re, t: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut p = 0;
    while let Some((a, b)) = re.find(t, p) {
        if b == a {
            break;
        }
        v.push((a, b));
        p = b;
    }
    v
}
fn observe(sc: &Scanner, t: &str) -> Vec<(usize, usize)> {
    let mut s = t.to_string();
    sc.scan(&mut s, vec![])
        .into_iter()
        .map(|m| (m.start_index, m.end_index_exclusive))
        .collect()
}
fn build1(p: &str) -> Result<Scanner, CreateScannerError> {
    build(&[rule(p)], Opts::default())
}
/// Compares one accepted pattern on all texts.
fn compare(w: &mut Worker, sc: &Scanner, re: &Re, texts: &[String]) -> bool {
    for t in texts {
        let Some(got) = w.run(t, t.len() as u64 + 1, || observe(sc, t)) else {
            return false;
        };
        let want = expect(re, t);
        w.outcome(&(t.len(), &want), !want.is_empty());
        if got != want {
            w.violate("match", json!({"case": t, "expected": want, "observed": got}));
            return false;
        }
        if want.len() > 1 && w.want_sample() {
            let c = w.cfg_text().to_string();
            w.ctx.sample(json!({"space": w.space, "pattern": c, "text": t, "matches": want}));
        }
    }
    true
}

// ---------------------------------------------------------------- AST enumeration
#[derive(Clone)]
pub struct Grammar {
    atoms: Vec<Node>,
    reps: Vec<(u32, Option<u32>)>,
    lazy: Vec<bool>,
    groups: Vec<(Vec<char>, Vec<char>)>, // flag groups
    named: bool,
}
fn wrap(n: &Node) -> Node {
    Node::FlagGroup(vec![], vec![], Box::new(n.clone()))
}
impl Grammar {
    /// All terms of exactly `size`, given those of smaller sizes.
    fn level(&self, lv: &[Vec<Node>], size: usize) -> Vec<Node> {
        let mut out = vec![];
        if size == 1 {
            return self.atoms.clone();
        }
        for n in &lv[size - 2] {
            if !matches!(n, Node::Flags(..)) {
                let inner = match n {
                    Node::Cat(_) | Node::Alt(_) | Node::Rep(..) | Node::Empty | Node::Assert('$') | Node::Assert('Z') => wrap(n),
                    Node::Lit(c, false) if c.is_ascii_whitespace() => wrap(n),
                    n => n.clone(),
                };
                for (a, b) in &self.reps {
                    for l in &self.lazy {
                        out.push(Node::Rep(Box::new(inner.clone()), *a, *b, *l));
                    }
                }
            }
            if !matches!(n, Node::Group(..)) {
                out.push(Node::Group(Box::new(n.clone()), None));
                if self.named {
                    out.push(Node::Group(Box::new(n.clone()), Some("g".into())));
                }
            }
            for (a, r) in &self.groups {
                out.push(Node::FlagGroup(a.clone(), r.clone(), Box::new(n.clone())));
            }
        }
        for i in 1..size - 1 {
            let j = size - 1 - i;
            for x in &lv[i - 1] {
                for y in &lv[j - 1] {
                    // concatenation (right associated, alternatives wrapped)
                    if !matches!(x, Node::Cat(_) | Node::Empty) && !matches!(y, Node::Empty) {
                        let x2 = if matches!(x, Node::Alt(_)) { wrap(x) } else { x.clone() };
                        let mut v = vec![x2];
                        match y {
                            Node::Cat(l) => v.extend(l.iter().cloned()),
                            Node::Alt(_) => v.push(wrap(y)),
                            y => v.push(y.clone()),
                        }
                        out.push(Node::Cat(v));
                    }
                    if !matches!(x, Node::Alt(_)) {
                        let mut v = vec![x.clone()];
                        match y {
                            Node::Alt(l) => v.extend(l.iter().cloned()),
                            y => v.push(y.clone()),
                        }
                        out.push(Node::Alt(v));
                    }
                }
            }
        }
        out
    }
    pub fn upto(&self, size: usize) -> Vec<Node> {
        let mut lv: Vec<Vec<Node>> = vec![];
        for s in 1..=size {
            let l = self.level(&lv, s);
            lv.push(l);
        }
        lv.concat()
    }
}
fn lit(c: char) -> Node {
    Node::Lit(c, false)
}
fn r(a: char, b: char) -> Item {
    Item::R(a, b)
}
fn cls(neg: bool, v: Vec<Item>) -> Node {
    Node::Class(neg, v)
}
fn fl(a: &str, b: &str) -> (Vec<char>, Vec<char>) {
    (a.chars().collect(), b.chars().collect())
}
fn flag(a: &str, b: &str) -> Node {
    Node::Flags(a.chars().collect(), b.chars().collect())
}
fn reps_all() -> Vec<(u32, Option<u32>)> {
    vec![(0, None), (1, None), (0, Some(1)), (2, Some(2)), (1, Some(2)), (2, None), (0, Some(2)), (0, Some(0))]
}
fn dup_names(p: &str) -> bool {
    p.matches("?<g>").count() > 1
}

/// pattern -> verdict of the reference: Err(kind) or the node
pub enum Verdict {
    Accept(Node),
    Reject(RegexValidationError),
    Unspecified,
}
pub fn verdict(p: &str) -> Verdict {
    match refre::parse(p, PROPS) {
        Err(PErr::Syntax) => Verdict::Reject(RegexValidationError::InvalidSyntax),
        Err(PErr::Depth) => Verdict::Reject(RegexValidationError::ExceededDepthLimit),
        Err(PErr::Quant) => Verdict::Reject(RegexValidationError::ExceededQuantifierLimit),
        Ok(x) if x.quirk => Verdict::Unspecified,
        Ok(x) => {
            if min_len(&x.node) == 0 {
                Verdict::Reject(RegexValidationError::MatchesEmptyString)
            } else {
                Verdict::Accept(x.node)
            }
        }
    }
}

fn node_space(c: &Ctx, name: &str, rule_txt: &str, g: Grammar, size: usize, alpha: &str, len: usize) {
    let nodes = g.upto(size);
    let texts = all_strings(&alpha.chars().collect::<Vec<_>>(), 0, len);
    let chunks: Vec<&[Node]> = nodes.chunks(200).collect();
    c.space(name, rule_txt, &chunks, |w, ns| {
        for n in ns.iter() {
            if w.stopped() {
                return;
            }
            if min_len(n) == 0 {
                continue;
            }
            let mut p = String::new();
            print(n, &mut p);
            if dup_names(&p) {
                continue;
            }
            w.config(p.clone());
            let Some(sc) = w.run("(build)", p.len() as u64, || build1(&p)) else { return };
            let sc = match sc {
                Ok(s) => s,
                Err(e) => {
                    w.violate("rejected", json!({"case": "(build)", "error": format!("{e:?}")}));
                    return;
                }
            };
            if !compare(w, &sc, &Re::new(n), &texts) {
                return;
            }
        }
    });
}
fn string_space(c: &Ctx, name: &str, rule_txt: &str, alpha: &str, len: usize, talpha: &str, tlen: usize) {
    let a: Vec<char> = alpha.chars().collect();
    let texts = all_strings(&talpha.chars().collect::<Vec<_>>(), 0, tlen);
    let pre = if len >= 2 { all_strings(&a, 0, 2) } else { all_strings(&a, 0, 1) };
    c.space(name, rule_txt, &pre, |w, p0| {
        let max = if p0.chars().count() < 2 { 0 } else { len - 2 };
        strings(&a, 0, max, &mut |s| {
            let p = format!("{p0}{s}");
            if let Verdict::Accept(n) = verdict(&p) {
                w.config(p.clone());
                match w.run("(build)", p.len() as u64, || build1(&p)) {
                    None => return false,
                    Some(Err(e)) => {
                        w.violate("rejected", json!({"case": "(build)", "error": format!("{e:?}")}));
                        return false;
                    }
                    Some(Ok(sc)) => {
                        if !compare(w, &sc, &Re::new(&n), &texts) {
                            return false;
                        }
                    }
                }
            }
            !w.stopped()
        });
    });
}
/// every scalar value in ascending order, in texts of `n` scalars
fn scalars(max: u32, n: usize) -> Vec<String> {
    let v: Vec<char> = (0..=max).filter_map(char::from_u32).collect();
    v.chunks(n).map(|c| c.iter().collect()).collect()
}
fn g_core() -> Grammar {
    Grammar {
        atoms: vec![
            lit('a'),
            lit('b'),
            Node::Dot,
            cls(false, vec![Item::Perl('d')]),
            cls(false, vec![r('a', 'b')]),
            cls(true, vec![r('a', 'a')]),
            Node::Empty,
        ],
        reps: reps_all(),
        lazy: vec![false, true],
        groups: vec![fl("", "")],
        named: true,
    }
}
fn g_flags() -> Grammar {
    Grammar {
        atoms: vec![
            lit('a'),
            lit('B'),
            lit(' '),
            Node::Lit(' ', true),
            Node::Dot,
            cls(false, vec![r('A', 'B'), r(' ', ' ')]),
            flag("i", ""),
            flag("", "i"),
            flag("s", ""),
            flag("x", ""),
            flag("", "x"),
            flag("is", "x"),
        ],
        reps: vec![(0, None), (2, Some(2))],
        lazy: vec![false],
        groups: vec![fl("", ""), fl("i", ""), fl("", "i"), fl("x", ""), fl("s", "i"), fl("ix", "s")],
        named: false,
    }
}
fn g_anchor() -> Grammar {
    Grammar {
        atoms: vec![
            lit('a'),
            lit('\n'),
            cls(false, vec![Item::Perl('w')]),
            Node::Assert('b'),
            Node::Assert('B'),
            Node::Assert('^'),
            Node::Assert('$'),
            Node::Assert('A'),
            Node::Assert('z'),
            Node::Assert('Z'),
            flag("m", ""),
        ],
        reps: vec![(0, None), (1, None), (0, Some(1))],
        lazy: vec![false],
        groups: vec![fl("m", ""), fl("", "")],
        named: false,
    }
}

pub fn c14(c: &Ctx) {
    c.assume("Unicode property tables are the regex engine's own; constructs whose meaning the dialect leaves open (quantified line anchors, quantified whitespace in extended mode, contradictory assertions, a range ending in a class escape) are skipped");
    // 1. every class against every scalar value
    let mut v: Vec<(Node, String)> = vec![];
    for x in "dswhvDSWHV".chars() {
        v.push((cls(false, vec![Item::Perl(x)]), format!("\\{x}")));
        v.push((cls(false, vec![Item::Perl(x)]), format!("[\\{x}]")));
        v.push((cls(true, vec![Item::Perl(x)]), format!("[^\\{x}]")));
        v.push((cls(false, vec![Item::Perl(x), r('é', 'é'), r('0', '4')]), format!("[0-4\\{x}é]")));
    }
    for n in refre::POSIX {
        for (neg, s) in [(false, ""), (true, "^")] {
            for (o, os) in [(false, ""), (true, "^")] {
                v.push((cls(o, vec![Item::Posix(neg, n.into())]), format!("[{os}[:{s}{n}:]]")));
            }
        }
        v.push((cls(false, vec![Item::Posix(false, n.into()), r('€', '€')]), format!("[€[:{n}:]]")));
    }
    v.push((Node::Dot, ".".into()));
    v.push((Node::FlagGroup(vec!['s'], vec![], Box::new(Node::Dot)), "(?s:.)".into()));
    let txt = scalars(c.q(0x2fff, 0x10ffff), 4096);
    class_space(c, "classes", "every class escape and POSIX class, plain, bracketed, negated, against every scalar value of the bound", &v, &txt);
    let mut v = vec![];
    for n in PROPS {
        for neg in [false, true] {
            let p = if neg { 'P' } else { 'p' };
            v.push((cls(false, vec![Item::Prop(neg, n.to_string())]), format!("\\{p}{{{n}}}")));
            v.push((cls(true, vec![Item::Prop(neg, n.to_string())]), format!("[^\\{p}{{{n}}}]")));
            v.push((cls(false, vec![r('a', 'c'), Item::Prop(neg, n.to_string())]), format!("[a-c\\{p}{{{n}}}]")));
        }
    }
    // every scalar where some property changes value, and its neighbour
    let mut edge = std::collections::BTreeSet::new();
    for n in PROPS {
        for (a, b) in refre::prop_table(n).iter() {
            edge.extend([a.saturating_sub(1), *a, *b, b + 1]);
        }
    }
    let edge: Vec<char> = edge.into_iter().filter_map(char::from_u32).collect();
    let step = c.q(7, 1);
    let edge: Vec<char> = edge.into_iter().step_by(step).collect();
    let txt: Vec<String> = edge.chunks(4096).map(|c| c.iter().collect()).collect();
    class_space(c, "properties", "every Unicode property, negated or bracketed, against (every n-th of) the scalar values where some property changes", &v, &txt);
    // 2. every scalar as a literal, an escaped literal, a bracket literal, hex escapes
    let lits: Vec<char> = scalars(c.q(0x17f, 0x2fff), usize::MAX).concat().chars().collect();
    c.space("literals", "every scalar as literal, escape, bracket member, range end, \\x and \\x{} escape, \\Q..\\E", &lits, |w, x| {
        let x = *x;
        let u = x as u32;
        let mut ps = vec![format!("{x}"), format!("\\{x}"), format!("[{x}]"), format!("[\\{x}]"), format!("[^{x}]"), format!("[^\\{x}]"),
            format!("\\x{{{u:x}}}"), format!("\\x{{{u:06X}}}"), format!("[\\x{{{u:x}}}]"), format!("[\\x{{{u:x}}}-\\x{{{:x}}}]", u + 2),
            format!("\\Q{x}\\E"), format!("\\Q{x}{x}\\E"), format!("[\\Q{x}a\\E]"), format!("{x}+"), format!("{x}{{2}}"), format!("a{x}b"), format!("a\\{x}b"), format!("(?x)a{x}b"), format!("(?x)a\\{x}b"), format!("(?x)a\\x{{{u:x}}}b"), format!("(?x: a \\Q{x}\\E b )"), format!("(?x:a[{x}b]c)"), format!("(?x:a[\\x{{{u:x}}}b]c)"), format!("\\c{x}"), format!("[{x}-{x}]"), format!("[a{x}]"), format!("[a-{x}]"), format!("[!-{x}]"), format!("[a{x}{x}b]"), format!("[^{x}{x}a]"), format!("[{x}{x}]"), format!("[a{x}{x}\\{x}{x}]"), format!("\\x{{{u:09x}}}")];
        if u < 256 {
            ps.push(format!("\\x{u:02x}"));
            ps.push(format!("[\\x{u:02X}]"));
            ps.push(format!("\\x{u:02x}1"));
            ps.push(format!("\\x{u:x}g"));
        }
        let near: Vec<char> = [u.wrapping_sub(1), u, u + 1, u + 2, u + 3].iter().filter_map(|c| char::from_u32(*c)).collect();
        let mut texts: Vec<String> = near.iter().map(|c| c.to_string()).collect();
        texts.extend([format!("{x}{x}"), format!("a{x}b"), format!("ab"), format!("axb"), format!("a{x}c ac abc a c"), "a\\b".into(), "\\".into(), "^]-[".into(), "abcxyz09 \u{1}\u{2}\u{1a}".into(), format!("\\{x}"), format!("{x}1{x}g")]);
        for p in ps {
            if let Verdict::Accept(n) = verdict(&p) {
                // unescaped non-ASCII white space in extended mode is left open
                if p == format!("(?x)a{x}b") && x.is_whitespace() && !x.is_ascii() {
                    continue;
                }
                w.config(p.clone());
                match w.run("(build)", 1, || build1(&p)) {
                    Some(Ok(sc)) => {
                        if !compare(w, &sc, &Re::new(&n), &texts) {
                            return;
                        }
                    }
                    Some(Err(e)) => {
                        w.violate("rejected", json!({"case": "(build)", "error": format!("{e:?}")}));
                        return;
                    }
                    None => return,
                }
            }
        }
    });
    // 3. grammar terms
    node_space(c, "terms", "every term of the core grammar up to the size bound, on every text up to the length bound", g_core(), 4, "ab1\n", c.q(3, 5));
    let mut g = g_core();
    g.atoms = vec![lit('a'), lit('b')];
    g.named = false;
    g.reps = vec![(0, None), (1, None), (0, Some(1)), (1, Some(2)), (2, None)];
    node_space(c, "deep terms", "every term over two letters up to a larger size: priorities of alternation, greedy and lazy repetition", g.clone(), c.q(5, 6), "ab", c.q(4, 5));
    node_space(c, "flag terms", "every term with inline flags and flag groups up to the size bound", g_flags(), 4, "aAbB \n", c.q(2, 3));
    node_space(c, "anchor terms", "every term with anchors and word boundaries up to the size bound", g_anchor(), c.q(4, 5), "a-\n", 4);
    // every flag list: added, removed, both, repeated
    let fl = all_strings(&['i', 'm', 's', 'x'], 0, c.q(2, 3));
    let sets: Vec<String> = fl.iter().flat_map(|a| fl.iter().map(move |r| format!("{a}-{r}")).chain([a.clone(), format!("{a}-")])).collect();
    let mut texts = vec!["x".to_string(), "a\nb".into(), "A\nb".into(), "\na\nb\n".into()];
    for a in ["a", "A"] {
        for d in ["x", "\n", ""] {
            for sp in [" ", ""] {
                for b in ["b", "B"] {
                    texts.push(format!("{a}{d}{b}{sp}c"));
                    texts.push(format!("{a}{d}{b}{sp}c{a}{d}{b}{sp}c"));
                }
            }
        }
    }
    c.space("flag lists", "every pair of flag lists up to the bound, added and removed, inline and as a group, alone, after all flags were set and before text they must not reach", &sets, |w, f| {
        for body in ["A.b c", "a$.^b", "[A ]\\.*?b", "a (?-i)B"] {
            for p in [format!("(?{f}){body}"), format!("(?{f}:{body})"), format!("(?imsx)(?{f}){body}"), format!("(?imsx:(?{f}:{body}))"), format!("(?:(?{f})A.b) c"), format!("(?{f}:A.?)b c"), format!("x|(?{f})a|A.b c"), format!("(?{f}:(?is-ix:A)).b c")] {
                if let Verdict::Accept(n) = verdict(&p) {
                    w.config(p.clone());
                    match w.run("(build)", 1, || build1(&p)) {
                        Some(Ok(sc)) => {
                            if !compare(w, &sc, &Re::new(&n), &texts) {
                                return;
                            }
                        }
                        Some(Err(e)) => return w.violate("rejected", json!({"case": "(build)", "pattern": p, "error": format!("{e:?}")})),
                        None => return,
                    }
                }
            }
        }
    });
    // 4. pattern strings
    string_space(c, "pattern strings", "every string over the syntax alphabet that the reference accepts, on every text up to the bound",
        "ab.|()*+?{}12,[]^-$\\dwbQEix: ", c.q(4, 5), "ab1-", 2);
    string_space(c, "bracket strings", "every string over the bracket alphabet", "[]^-ab\\d:E", c.q(6, 7), "ab-]^[:\\1", 1);
    string_space(c, "set operator strings", "every string over the characters that other dialects take as set operators in brackets", "[]^a&~-b", c.q(6, 7), "ab-&~]^[", 1);
    string_space(c, "group strings", "every string over the group / flag alphabet", "(?:)-ix<P>a|", c.q(6, 7), "aA i", c.q(1, 2));
    string_space(c, "quantifier strings", "every string over the quantifier alphabet", "a{1,2}?+b", c.q(6, 7), "ab{1", c.q(2, 3));
}
fn class_space(c: &Ctx, name: &str, rule_txt: &str, v: &[(Node, String)], txt: &[String]) {
    c.space(name, rule_txt, v, |w, (n, p)| {
        w.config(p.clone());
        match w.run("(build)", 1, || build1(p)) {
            Some(Ok(sc)) => {
                let re = Re::new(n);
                for t in txt {
                    let want: Vec<(usize, usize)> =
                        t.char_indices().map(|(i, x)| (i, i + x.len_utf8())).filter(|(a, b)| re.find(&t[*a..*b], 0).is_some()).collect();
                    let what = format!("scalars from {:x}", t.chars().next().unwrap() as u32);
                    let Some(got) = w.run(&what, t.chars().count() as u64, || observe(&sc, t)) else { return };
                    w.add_states(t.chars().count() as u64 - 1, 0);
                    w.outcome(&(want.len(), &what), !want.is_empty());
                    if got != want {
                        let diff = got.iter().filter(|x| !want.contains(x)).chain(want.iter().filter(|x| !got.contains(x))).take(3)
                            .map(|(a, b)| t.get(*a..*b).map(|s| format!("{:x}", s.chars().next().unwrap_or('?') as u32))).collect::<Vec<_>>();
                        w.violate("class", json!({"case": what, "scalars matched or missed wrongly": diff}));
                        return;
                    }
                }
            }
            Some(Err(e)) => w.violate("rejected", json!({"case": "(build)", "error": format!("{e:?}")})),
            None => {}
        }
    });
}

// ---------------------------------------------------------------- C15
fn err_name(e: &Result<(), RegexValidationError>) -> String {
    format!("{e:?}")
}
/// validate_regex and scanner construction against the reference verdict.
fn check_validation(w: &mut Worker, p: &str, with_builder: bool) -> bool {
    let v = verdict(p);
    let Some(got) = w.run(p, p.len() as u64 + 1, || validate_regex(p)) else { return false };
    let want = match v {
        Verdict::Accept(_) => Some(Ok(())),
        Verdict::Reject(e) => Some(Err(e)),
        Verdict::Unspecified => None,
    };
    let name = err_name(&got);
    w.outcome(&name, got.is_ok());
    if let Some(want) = want {
        if got != want {
            w.violate("verdict", json!({"case": p, "expected": err_name(&want), "observed": name}));
            return false;
        }
    }
    if with_builder {
        let Some(b) = w.run(p, 1, || build1(p).map(|_| ())) else { return false };
        let same = match (&got, &b) {
            (Ok(()), Ok(())) => true,
            (Err(e), Err(CreateScannerError::InvalidRegex(f))) => e == f,
            _ => false,
        };
        if !same {
            w.violate("builder", json!({"case": p, "validate_regex": name, "scanner": format!("{b:?}")}));
            return false;
        }
    }
    true
}
pub fn c15(c: &Ctx) {
    c.assume("whether a pattern is too complex is the regex engine's verdict (consistency with the estimate and monotonicity are checked); constructs the dialect leaves open are only checked for consistency between validate_regex and the builder");
    let spaces: Vec<(&str, &str, usize, usize, bool)> = vec![
        ("syntax strings", "ab.|()*+?{}12,[]^-$\\dQEi:<P ", 4, 5, true),
        ("escapes", "\\abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789{}[]^-_ é€", 3, 4, true),
        ("bracket strings", "[]^-a\\d:pQE", 6, 7, false),
        ("group strings", "(?:)-i<P>'a1|", 6, 7, false),
        ("quantifier strings", "a{01,}?*b", 6, 7, false),
        ("quote strings", "\\QEa+[]", 7, 8, false),
        ("hex strings", "\\x{}01dDgé", 6, 7, false),
    ];
    for (name, al, q, t, b) in spaces {
        let a: Vec<char> = al.chars().collect();
        let len = c.q(q, t);
        let pre = all_strings(&a, 0, 2);
        c.space(name, "every string over the alphabet up to the length bound: verdict and error kind", &pre, |w, p0| {
            let max = if p0.chars().count() < 2 { 0 } else { len - 2 };
            strings(&a, 0, max, &mut |s| {
                let p = format!("{p0}{s}");
                check_validation(w, &p, b) && !w.stopped()
            });
        });
    }
    // grammar terms, including nullable ones
    for (name, g, q, t) in [("core terms", g_core(), 4, 5), ("flag terms", g_flags(), 4, 5), ("anchor terms", g_anchor(), 5, 6)] {
        let nodes = g.upto(c.q(q, t));
        let chunks: Vec<&[Node]> = nodes.chunks(500).collect();
        c.space(name, "every term of the grammar up to the size bound (nullable ones included)", &chunks, |w, ns| {
            for n in ns.iter() {
                let mut p = String::new();
                print(n, &mut p);
                if !check_validation(w, &p, false) || w.stopped() {
                    return;
                }
            }
        });
    }
    // nesting
    let depths: Vec<usize> = (0..=c.q(120, 400)).collect();
    c.space("depth", "every nesting depth 0..120 of every group form, closed or not, with siblings", &depths, |w, d| {
        for (o, cl) in [("(", ")"), ("(?:", ")"), ("(?i:", ")"), ("((?:", "))"), ("(a|", ")"), ("(", ")+"), ("(b", "c)"), ("(?:(d)", ")"), ("(?<gN>", ")"), ("(?P<gN>x", "|y)"), ("(?'gN'", ")?")] {
            for inner in ["x", "", "()", "[(]", "\\(", "\\Q(((\\E", "(x", "x)", "$"] {
                let p = format!("{}{}{}", (0..*d).map(|i| o.replace('N', &i.to_string())).collect::<String>(), inner, cl.repeat(*d));
                if !check_validation(w, &p, true) {
                    return;
                }
                let p = format!("y{p}z(q)");
                if !check_validation(w, &p, true) {
                    return;
                }
            }
        }
    });
    // many groups that are not nested in each other
    let counts: Vec<usize> = (0..=c.q(70, 140)).chain([127, 128, 129, 255, 256, 257]).collect();
    c.space("siblings", "every number of groups of every form beside each other, as alternatives, inside another group or before nested ones", &counts, |w, n| {
        for f in ["(a)", "(?:a)", "(?i:a)", "(?<gN>a)", "(?P<gN>a)", "(?'gN'a)", "(?i)a", "[a]", "\\Qa\\E", "a+", "a{1,2}?", "(b(?<gN>a))", "(?:(a)|(?-i:b))+"] {
            let one = |i: usize| f.replace('N', &i.to_string());
            let all: String = (0..*n).map(one).collect();
            let alt = (0..*n).map(one).collect::<Vec<_>>().join("|");
            for p in [format!("x{all}"), format!("(x{all})y"), alt, format!("{all}((((x))))"), format!("((x{all})(y))"), format!("x{all}("), format!("x{all})")] {
                if !check_validation(w, &p, true) {
                    return;
                }
            }
        }
    });
    // quantifier bounds
    let mut q: Vec<String> = (0..=4u64).chain(2990..=3010).map(|x| x.to_string()).collect();
    for x in ["9999", "65535", "65536", "4294967295", "4294967296", "4294967297", "4294970297", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "0003000", "00000000000000000000003001", "000000000000000000000000001"] {
        q.push(x.into());
    }
    if c.thorough {
        q.extend((5..2990).map(|x: u64| x.to_string()));
    }
    c.space("quantifier bounds", "every bound around the limit and around the integer sizes, in every quantifier form and position", &q, |w, x| {
        for p in [format!("a{{{x}}}"), format!("a{{{x},}}"), format!("a{{0,{x}}}b"), format!("a{{1,{x}}}"), format!("a{{{x},{x}}}"), format!("a{{{x},3000}}"), format!("a{{{x}}}?b"), format!("(a{{{x}}}b)?c"), format!("b|a{{{x}}}"), format!("a{{{x}}}b{{3001}}"), format!("[ab]{{{x},3}}"), format!("b(c[)a{{{x}}}"), format!("\\Qa{{{x}}}\\E"), format!("[{{{x}}}]")] {
            if !check_validation(w, &p, true) {
                return;
            }
        }
    });
    // names
    let names = all_strings(&['a', 'B', '1', '_', '-', 'é', ' '], 0, c.q(3, 4));
    c.space("names", "every group name up to length 3, unique or repeated; every property name and its mutations", &names, |w, n| {
        for p in [format!("(?<{n}>x)"), format!("(?P<{n}>x)"), format!("(?'{n}'x)"), format!("(?<{n}>x)(?<a>y)"), format!("(?<{n}>x)|(?P<{n}>y)"), format!("(?<{n}>x)(?'{n}1'y)"), format!("\\p{{{n}}}"), format!("(?<{n}'x)")] {
            if !check_validation(w, &p, true) {
                return;
            }
        }
    });
    let ns: Vec<usize> = (1..=c.q(130, 300)).chain([255, 256, 257, 513, 1025]).collect();
    c.space("long forms", "group names, zero-padded hex escapes, quoted text, brackets, flags, comments of alternatives and literals of every length up to 130 (300) and around powers of two", &ns, |w, n| {
        let z = "0".repeat(*n);
        let a = "a".repeat(*n);
        for p in [format!("(?<{a}>x)"), format!("(?P<_{z}>x)"), format!("(?'{a}1'x)"), format!("(?<{a}>x)(?<{a}b>y)"), format!("(?<{a}>x)(?<{a}>y)"), format!("\\x{{{z}41}}"), format!("[\\x{{{z}41}}-\\x{{{z}5A}}]"), format!("\\x{{{z}110000}}"), format!("a{{{z}2}}"), format!("a{{{z}1,{z}3}}"), format!("\\Q{a}\\E"), format!("\\Q{a}\\Eb\\Q{z}\\E"), format!("[{a}]"), format!("[\\Q{a}]\\E]"), format!("(?{})a", "i".repeat(*n)), format!("(?{}-{}:a)", "is".repeat(*n), "x".repeat(*n)), "a|".repeat(*n) + "b", "a|".repeat(*n), a.clone(), format!("{a}+"), "a?".repeat(*n) + "b", "[ab]".repeat(*n), "[[:alpha:]\\d]".repeat(*n), "\\Q\\E".repeat(*n) + "a", "\\p{L}".repeat((*n).min(12)), format!("a{}", "{2}".repeat((*n).min(9)))] {
            if !check_validation(w, &p, true) {
                return;
            }
        }
    });
    let props: Vec<&str> = PROPS.to_vec();
    c.space("property names", "every property name, changed in case, truncated, extended, spaced or negated", &props, |w, n| {
        let mut v = vec![n.to_string(), n.to_lowercase(), n.to_uppercase(), format!("{n}_"), format!("^{n}"), format!(" {n}"), format!("{n} "), n[..n.len() - 1].to_string(), format!("Is{n}"), format!("{n}={n}"), format!("sc={n}"), n.replace('_', ""), n.replace('_', " "), n.replace('_', "-")];
        v.dedup();
        for x in v {
            for p in [format!("\\p{{{x}}}"), format!("\\P{{{x}}}"), format!("[\\p{{{x}}}]"), format!("[^\\P{{{x}}}a]"), format!("\\p{x}"), format!("\\p{{{x}")] {
                if !check_validation(w, &p, true) {
                    return;
                }
            }
        }
    });
    // complexity
    let fam: Vec<(&str, u32)> = vec![("(?:abc){N}", 3000), (".{N}", 3000), ("\\p{L}{N}", 400), ("(?:\\w{M}x){N}", 3000), ("[a-f0-9]{N}z|q", 3000), ("(?:a?){N}b", 3000), ("(?:(?:a|bc){N}d){N}", 300), ("\\p{Han}{0,N}x", 300)];
    let step = c.q(1, 4);
    c.space("complexity", "bisected repetition counts of pattern families: too complex iff the estimate exceeds the limit, estimates never decrease", &fam, |w, (f, max)| {
        let mk = |n: u32| f.replace("{N}", &format!("{{{n}}}")).replace("{0,N}", &format!("{{0,{n}}}")).replace("{M}", &format!("{{{}}}", n / 10 + 1));
        // find the flip point of validate_regex by bisection, then check its neighbourhood with the estimate
        let (mut lo, mut hi) = (1u32, *max);
        let mut bad = false;
        let mut too = |w: &mut Worker, n: u32| -> bool {
            let p = mk(n);
            match w.run(&p, 1, || validate_regex(&p)) {
                Some(Ok(())) => false,
                Some(Err(RegexValidationError::TooComplex)) => true,
                e => {
                    w.violate("verdict", json!({"case": p, "expected": "Ok or TooComplex", "observed": format!("{e:?}")}));
                    bad = true;
                    false
                }
            }
        };
        let mut ns = vec![1, 2, 10];
        if !too(w, *max) {
            ns.push(*max);
        } else {
            while lo < hi {
                let m = (lo + hi) / 2;
                if too(w, m) {
                    hi = m
                } else {
                    lo = m + 1
                }
            }
            for d in 0..=2 * step {
                ns.push((lo + d).saturating_sub(step).max(1));
            }
        }
        if bad {
            return;
        }
        ns.sort();
        ns.dedup();
        let mut last = 0;
        for n in ns {
            let p = mk(n);
            let v = validate_regex(&p);
            let Some(e) = w.run(&p, 24, || get_regex_complexity_estimate_very_slow(&p)) else { return };
            let b = build1(&p).map(|_| ());
            w.outcome(&(f, n), true);
            let ok = match &e {
                Ok(x) => {
                    let r = (*x > 1_000_000) == (v == Err(RegexValidationError::TooComplex)) && *x >= last && (*x > 1_000_000) == b.is_err();
                    last = *x;
                    r
                }
                Err(_) => false,
            };
            if !ok {
                w.violate("complexity", json!({"case": p, "validate_regex": format!("{v:?}"), "estimate": format!("{e:?}"), "builder": format!("{b:?}")}));
                return;
            }
        }
    });
    // the estimate fails exactly where the pattern is malformed
    let a: Vec<char> = "a(){}1,[\\".chars().collect();
    let pre = all_strings(&a, 0, 2);
    c.space("estimate errors", "every short pattern: the estimate is Ok iff the pattern is well formed, with the same error otherwise", &pre, |w, p0| {
        strings(&a, 0, if p0.len() < 2 { 0 } else { c.q(1, 2) }, &mut |s| {
            let p = format!("{p0}{s}");
            let v = validate_regex(&p);
            let Some(e) = w.run(&p, 24, || get_regex_complexity_estimate_very_slow(&p)) else { return false };
            let ok = match (&v, &e) {
                (Ok(()) | Err(RegexValidationError::MatchesEmptyString), Ok(x)) => *x <= 1_000_000,
                (Err(a), Err(b)) => a == b,
                _ => false,
            };
            if !ok {
                w.violate("estimate", json!({"case": p, "validate_regex": format!("{v:?}"), "estimate": format!("{e:?}")}));
            }
            ok && !w.stopped()
        });
    });
}

// ---------------------------------------------------------------- C16
pub fn c16(c: &Ctx) {
    c.hang_secs.store(20, std::sync::atomic::Ordering::SeqCst);
    c.assume("termination is observed as an answer within 20 s and 2 GB on inputs whose scan takes microseconds");
    let kw = |inc: &[&str], exc: &[&str]| ProximityKeywordsConfig {
        look_ahead_character_count: 3,
        included_keywords: inc.iter().map(|s| s.to_string()).collect(),
        excluded_keywords: exc.iter().map(|s| s.to_string()).collect(),
    };
    let variants = |p: &str| -> Vec<RegexRuleConfig> {
        vec![
            rule(p),
            rule(p).match_action(redact("")),
            rule(p).match_action(redact("aa")),
            rule(p).proximity_keywords(kw(&["a"], &[])),
            rule(p).proximity_keywords(kw(&[], &["a"])),
            rule(p).validator(SecondaryValidator::LuhnChecksum),
        ]
    };
    let run = |w: &mut Worker, p: &str, nullable: bool, texts: &[String]| -> bool {
        w.config(p.to_string());
        for (k, r) in variants(p).into_iter().enumerate() {
            let Some(sc) = w.run("(build)", 1, || build(&[r.clone()], Opts::default())) else { return false };
            let sc = match sc {
                Ok(s) => {
                    if nullable {
                        w.violate("accepted", json!({"case": p, "observed": "a pattern that can match an empty span was accepted"}));
                        return false;
                    }
                    s
                }
                Err(_) => return true,
            };
            for t in texts {
                let Some((ms, out)) = w.run(t, t.len() as u64 + 1, || {
                    let mut s = t.to_string();
                    let m = sc.scan(&mut s, vec![]);
                    (m, s)
                }) else {
                    return false;
                };
                w.outcome(&(k, ms.len(), out.len()), !ms.is_empty());
                // input span of each match: undo the shifts of the matches before it
                let mut prev = 0isize;
                for m in &ms {
                    let start_in = m.start_index as isize - prev;
                    let end_in = m.end_index_exclusive as isize - m.shift_offset;
                    prev = m.shift_offset;
                    if end_in <= start_in || end_in > t.len() as isize {
                        w.violate("empty match", json!({"case": t, "variant": k, "match": format!("{m:?}")}));
                        return false;
                    }
                }
            }
        }
        true
    };
    for (name, g, q, t, al, len) in [
        ("core terms", g_core(), 3, 3, "ab1\n", c.q(3, 4)),
        ("flag terms", g_flags(), 3, 4, "aAbB \n", 2),
        ("anchor terms", g_anchor(), 4, 5, "a-\n", c.q(3, 4)),
    ] {
        let nodes = g.upto(c.q(q, t));
        let texts = all_strings(&al.chars().collect::<Vec<_>>(), 0, len);
        let chunks: Vec<&[Node]> = nodes.chunks(20).collect();
        c.space(name, "every term of the grammar up to the size bound x six rule variants x every text up to the bound", &chunks, |w, ns| {
            for n in ns.iter() {
                let mut p = String::new();
                print(n, &mut p);
                if !run(w, &p, min_len(n) == 0, &texts) || w.stopped() {
                    return;
                }
            }
        });
    }
    // rejection of nullable patterns, larger terms
    for (name, g, q, t) in [("nullable core terms", g_core(), 4, 5), ("nullable anchor terms", g_anchor(), 5, 6), ("nullable flag terms", g_flags(), 4, 5)] {
        let nodes = g.upto(c.q(q, t));
        let chunks: Vec<&[Node]> = nodes.chunks(500).collect();
        c.space(name, "every term: accepted only if it cannot match an empty span", &chunks, |w, ns| {
            for n in ns.iter() {
                if min_len(n) > 0 || matches!(n, Node::Flags(..)) {
                    continue;
                }
                let mut p = String::new();
                print(n, &mut p);
                w.config(p.clone());
                let Some(v) = w.run(&p, 1, || validate_regex(&p)) else { return };
                w.outcome(&p.len(), true);
                if v.is_ok() {
                    w.violate("accepted", json!({"case": p, "observed": "a pattern that can match an empty span was accepted"}));
                    return;
                }
                if w.stopped() {
                    return;
                }
            }
        });
    }
    let a: Vec<char> = "a1|()*?[]^$\\bBAzZ{}0x".chars().collect();
    let texts = all_strings(&['a', '1', ' '], 0, 3);
    let pre = all_strings(&a, 0, 2);
    c.space("pattern strings", "every string over the syntax alphabet accepted by the scanner x six rule variants x every text", &pre, |w, p0| {
        strings(&a, 0, if p0.len() < 2 { 0 } else { c.q(2, 3) }, &mut |s| {
            let p = format!("{p0}{s}");
            let n = matches!(verdict(&p), Verdict::Reject(RegexValidationError::MatchesEmptyString));
            run(w, &p, n, &texts) && !w.stopped()
        });
    });
    // long inputs
    let ps: Vec<(&str, &str)> = vec![("a+", "a"), ("(a|aa)+$", "a"), ("(a*)*b", "a"), ("a{1,50}", "a"), (".*x", "a "), ("\\w+\\b", "ab "), ("(?:a?){30}a{30}", "a"), ("[ab]+c", "ab"), ("\\d{16}", "4"), ("é+", "é"), ("a", "ab-"), ("(?s).+", "a\n")];
    let mut items = vec![];
    for (p, u) in &ps {
        for l in c.q(vec![1000, 20000], vec![1000, 20000, 200000, 1000000]) {
            items.push((*p, *u, l));
        }
    }
    c.space("long texts", "repetitive texts of up to 20 kB (thorough 1 MB) with patterns that tempt backtracking, six rule variants", &items, |w, (p, u, l)| {
        let t = vec![u.repeat(*l / u.len())];
        // Luhn-rejected matches restart one character later: quadratic by design, keep those short
        let t = if *l > 20000 { vec![t[0].chars().take(20000).collect::<String>()] } else { t };
        run(w, p, false, &t);
    });
}
