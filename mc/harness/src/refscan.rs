//! Reference scanner: what a scan must report and produce, computed from the rule configurations
//! by the declarative definitions in properties.jsonl.
use crate::refre::{self, folds, perl, Re};
use crate::refval;
use dd_sds::{
    EncodeIndices, Encoding, Event, EventVisitor, MatchAction, MatchStatus, PartialRedactDirection,
    Path, PathSegment, RegexRuleConfig, ReplacementType, RuleMatch, Scope,
};
use std::collections::{HashMap, HashSet};
use std::marker::PhantomData;

// ---------------------------------------------------------------- events and encodings
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Enc {
    Utf8,
    Utf16,
    Chars,
}
pub fn enc_len(e: Enc, s: &str) -> usize {
    match e {
        Enc::Utf8 => s.len(),
        Enc::Utf16 => s.encode_utf16().count(),
        Enc::Chars => s.chars().count(),
    }
}
/// A custom index encoding, written against the documented contract of `Encoding`.
pub struct CustomEnc<const UTF16: bool>;
impl<const UTF16: bool> CustomEnc<UTF16> {
    fn len(s: &str) -> usize {
        enc_len(if UTF16 { Enc::Utf16 } else { Enc::Chars }, s)
    }
}
impl<const UTF16: bool> Encoding for CustomEnc<UTF16> {
    type Index = usize;
    type IndexShift = isize;
    fn zero_index() -> usize {
        0
    }
    fn zero_shift() -> isize {
        0
    }
    fn get_index(v: &usize, _: usize) -> usize {
        *v
    }
    fn get_shift(v: &isize, _: isize) -> isize {
        *v
    }
    fn calculate_indices<'a>(
        content: &str,
        it: impl Iterator<Item = EncodeIndices<'a, Self>>,
    ) {
        // incremental on purpose: relies on the promised ordering by start
        let (mut b, mut n) = (0usize, 0usize);
        for m in it {
            assert!(m.utf8_start >= b, "calculate_indices: matches not sorted by start");
            n += Self::len(&content[b..m.utf8_start]);
            b = m.utf8_start;
            *m.custom_start = n;
            *m.custom_end = n + Self::len(&content[b..m.utf8_end]);
        }
    }
    fn adjust_shift(shift: &mut isize, before: &str, after: &str) {
        *shift += Self::len(after) as isize - Self::len(before) as isize;
    }
}
thread_local! {
    /// what the user's code (events, rules) does when its n-th call of `user_point` is reached
    static POINT: std::cell::Cell<i64> = const { std::cell::Cell::new(-1) };
    static POINT_DOES: std::cell::RefCell<Option<std::rc::Rc<dyn Fn()>>> = const { std::cell::RefCell::new(None) };
}
pub fn user_point() {
    let n = POINT.get();
    if n >= 0 {
        POINT.set(n - 1);
        if n == 0 {
            let f = POINT_DOES.with(|p| p.borrow().clone());
            f.inspect(|f| f());
        }
    }
}
/// Runs `f` with `does` called at the n-th point; returns whether it was reached.
pub fn at_point<T>(n: usize, does: std::rc::Rc<dyn Fn()>, f: impl FnOnce() -> T) -> (T, bool) {
    POINT.set(n as i64);
    POINT_DOES.with(|p| *p.borrow_mut() = Some(does));
    let r = f();
    POINT_DOES.with(|p| *p.borrow_mut() = None);
    (r, POINT.replace(-1) < 0)
}
pub type Strs = Vec<(Path<'static>, String)>;
/// An event given as a list of (path, string), visited in that order.
pub struct FlatEvent<E> {
    pub strs: Strs,
    pub mutated: Vec<bool>,
    pub mut_calls: Vec<u32>,
    pub might: Vec<bool>,
    pub bad: Option<String>,
    /// walk like a tree: only pop to the common prefix between consecutive strings
    pub tree: bool,
    p: PhantomData<E>,
}
impl<E> FlatEvent<E> {
    pub fn new(strs: Strs) -> Self {
        let n = strs.len();
        FlatEvent {
            strs,
            mutated: vec![false; n],
            mut_calls: vec![0; n],
            might: vec![false; n],
            bad: None,
            tree: true,
            p: PhantomData,
        }
    }
}
impl<E: Encoding> Event for FlatEvent<E> {
    type Encoding = E;
    fn visit_event<'a>(&'a mut self, v: &mut impl EventVisitor<'a>) {
        let mut cur: &[PathSegment<'static>] = &[];
        for (i, (p, s)) in self.strs.iter().enumerate() {
            let common = if self.tree {
                cur.iter().zip(&p.segments).take_while(|(a, b)| a == b).count()
            } else {
                0
            };
            for _ in common..cur.len() {
                v.pop_segment();
            }
            for seg in &p.segments[common..] {
                v.push_segment(seg.clone());
            }
            cur = &p.segments;
            sds_verif_std::sched::point();
            user_point();
            let r = v.visit_string(s);
            user_point();
            if r.path != p {
                self.bad = Some(format!("visitor path {:?} for string at {p:?}", r.path));
            }
            self.might[i] = r.might_mutate;
        }
        for _ in cur {
            v.pop_segment();
        }
    }
    fn visit_string_mut(&mut self, path: &Path, mut visit: impl FnMut(&mut String) -> bool) {
        let i = self
            .strs
            .iter()
            .position(|(p, _)| p == path)
            .expect("mutable access to a path that was never visited");
        self.mut_calls[i] += 1;
        if !self.might[i] {
            self.bad = Some(format!("visit_string_mut for {path:?} without might_mutate"));
        }
        user_point();
        if visit(&mut self.strs[i].1) {
            self.mutated[i] = true;
        }
        user_point();
    }
}

pub fn seg(s: &str) -> PathSegment<'static> {
    match s.parse::<usize>() {
        Ok(n) => PathSegment::Index(n),
        Err(_) => PathSegment::Field(s.to_string().into()),
    }
}
/// "a.0.b" -> Path (all-digit parts are indices, "" is the root)
pub fn path(s: &str) -> Path<'static> {
    if s.is_empty() {
        return Path::root();
    }
    Path::from(s.split('.').map(seg).collect::<Vec<_>>())
}
pub fn strs(v: &[(&str, &str)]) -> Strs {
    v.iter().map(|(p, s)| (path(p), s.to_string())).collect()
}

// ---------------------------------------------------------------- model
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Opts {
    pub multipass: bool,
    pub kw_paths: bool,
    pub wild: bool,
    pub now: i64,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            multipass: true,
            kw_paths: false,
            wild: false,
            now: 0,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct M {
    pub rule: usize,
    pub path: String,
    pub rt: &'static str,
    pub start: usize,
    pub end: usize,
    pub shift: isize,
    pub value: Option<String>,
    pub status: &'static str,
}
pub fn rt_name(r: &ReplacementType) -> &'static str {
    match r {
        ReplacementType::None => "none",
        ReplacementType::Placeholder => "placeholder",
        ReplacementType::Hash => "hash",
        ReplacementType::PartialStart => "partial_beginning",
        ReplacementType::PartialEnd => "partial_end",
    }
}
pub fn st_name(s: &MatchStatus) -> &'static str {
    match s {
        MatchStatus::NotAvailable => "NotAvailable",
        MatchStatus::NotChecked => "NotChecked",
        MatchStatus::Invalid => "Invalid",
        MatchStatus::Valid => "Valid",
        MatchStatus::Error(_) => "Error",
    }
}
pub fn path_key(p: &Path) -> String {
    serde_json::to_string(p).unwrap()
}
impl M {
    pub fn of(r: &RuleMatch) -> M {
        M {
            rule: r.rule_index,
            path: path_key(&r.path),
            rt: rt_name(&r.replacement_type),
            start: r.start_index,
            end: r.end_index_exclusive,
            shift: r.shift_offset,
            value: r.match_value.clone(),
            status: st_name(&r.match_status),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Out {
    pub matches: Vec<M>,
    pub strs: Vec<String>,
    pub mutated: Vec<bool>,
    pub fp_kw: Vec<u64>,
    pub fp_multi: Vec<u64>,
}
pub struct RefScanner {
    pub rules: Vec<RegexRuleConfig>,
    res: Vec<Re>,
    pub o: Opts,
    returns: bool,
    /// rules whose matches are subject to multi-pass (all regex rules are)
    pub optin: Vec<bool>,
}

/// `path` is at or below `scope` (list indices may be skipped when `wild`).
pub fn in_scope(path: &[PathSegment], scope: &[PathSegment], wild: bool, skipped: bool) -> bool {
    if scope.is_empty() {
        return true;
    }
    let Some(p) = path.first() else { return false };
    let idx = matches!(p, PathSegment::Index(_));
    (p == &scope[0] && !(skipped && idx) && in_scope(&path[1..], &scope[1..], wild, false))
        || (wild && idx && in_scope(&path[1..], scope, wild, true))
}
/// (scanned, excluded)
pub fn scope_of(p: &Path, s: &Scope, wild: bool) -> (bool, bool) {
    let any = |l: &Vec<Path>| l.iter().any(|x| in_scope(&p.segments, &x.segments, wild, false));
    match s {
        Scope::Include { include, exclude } => (any(include), any(exclude)),
        Scope::Exclude(e) => (true, any(e)),
    }
}

fn is_word(c: Option<&char>) -> bool {
    c.map_or(false, |c| perl('w', *c))
}
/// Does `kw` occur in `t` at character position `i` as literal text, on word boundaries?
pub fn kw_at(t: &[char], i: usize, kw: &[char]) -> bool {
    if i + kw.len() > t.len() {
        return false;
    }
    for (a, b) in t[i..].iter().zip(kw) {
        if a != b && !folds(*a).contains(b) {
            return false;
        }
    }
    let b = |p: usize| is_word(if p == 0 { None } else { t.get(p - 1) }) != is_word(t.get(p));
    let e = |c: &char| c.is_ascii_alphanumeric();
    (!e(&kw[0]) || b(i)) && (!e(kw.last().unwrap()) || b(i + kw.len()))
}
pub fn kw_chars(k: &str) -> Vec<char> {
    k.trim().chars().collect()
}
fn stripped(c: char) -> bool {
    c == '-' || c == '_'
}
/// C08: does an excluded keyword occur entirely within the `look` characters before byte `ms`?
pub fn excluded(content: &str, ms: usize, kws: &[String], look: usize) -> bool {
    let pre: Vec<char> = content[..ms].chars().collect();
    let nxt = content[ms..].chars().next();
    let ws = pre.len().saturating_sub(look);
    let win: Vec<char> = pre[ws..].iter().copied().filter(|c| !stripped(*c)).collect();
    // characters just outside the window decide the word boundaries at its ends
    let mut t = vec![];
    let left = if ws > 0 { Some(pre[ws - 1]) } else { None }.filter(|c| !stripped(*c));
    t.extend(left);
    let off = t.len();
    t.extend(&win);
    t.extend(nxt.filter(|c| !stripped(*c)));
    kws.iter().any(|k| {
        let k: Vec<char> = kw_chars(k).into_iter().filter(|c| !stripped(*c)).collect();
        (off..off + win.len()).any(|i| i + k.len() <= off + win.len() && kw_at(&t, i, &k))
    })
}
/// C09: standardized form of a field or keyword
pub fn standardize(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let sep = |c: char| "-_ /.".contains(c);
    let mut o = String::new();
    for i in 0..c.len() {
        let x = c[i].to_ascii_lowercase();
        if i == 0 || i + 1 == c.len() {
            o.push(x);
            continue;
        }
        let prev = c[i - 1];
        if sep(prev) {
            o.push(x)
        } else if sep(c[i]) {
            o.push('.')
        } else {
            if c[i].is_ascii_uppercase() && !prev.is_ascii_uppercase() {
                o.push('.')
            }
            o.push(x)
        }
    }
    o
}
pub fn std_field(f: &str) -> String {
    if f.chars().all(|c| c.is_ascii_lowercase()) || f.chars().all(|c| c.is_ascii_uppercase()) {
        f.to_ascii_lowercase()
    } else {
        standardize(f)
    }
}
pub fn std_path(p: &Path) -> String {
    p.segments
        .iter()
        .filter_map(|s| match s {
            PathSegment::Field(f) => Some(std_field(f)),
            _ => None,
        })
        .collect::<Vec<_>>()
        .join(".")
}
pub fn kw_in_path(p: &Path, kws: &[String]) -> bool {
    let t: Vec<char> = std_path(p).chars().collect();
    kws.iter().any(|k| {
        let k: Vec<char> = standardize(k.trim()).chars().collect();
        (0..t.len()).any(|i| kw_at(&t, i, &k))
    })
}
/// Replacement text standing for `m` in the output (None: unchanged).
pub fn replace(a: &MatchAction, m: &str) -> Option<String> {
    #[allow(deprecated)]
    match a {
        MatchAction::None => None,
        MatchAction::Redact { replacement } => Some(replacement.clone()),
        MatchAction::Hash => Some(format!("{:x}", farmhash::fingerprint64(m.as_bytes()))),
        MatchAction::Utf16Hash => {
            let b: Vec<u8> = m.encode_utf16().flat_map(|u| [u as u8, (u >> 8) as u8]).collect();
            Some(format!("{:x}", farmhash::fingerprint64(&b)))
        }
        MatchAction::PartialRedact {
            direction,
            character_count: n,
        } => {
            let c: Vec<char> = m.chars().collect();
            let k = (*n).min(c.len());
            let stars = "*".repeat(*n);
            Some(match direction {
                PartialRedactDirection::FirstCharacters => stars + &c[k..].iter().collect::<String>(),
                PartialRedactDirection::LastCharacters => {
                    c[..c.len() - k].iter().collect::<String>() + &stars
                }
            })
        }
    }
}
pub fn action_rt(a: &MatchAction) -> &'static str {
    #[allow(deprecated)]
    match a {
        MatchAction::None => "none",
        MatchAction::Redact { .. } => "placeholder",
        MatchAction::Hash | MatchAction::Utf16Hash => "hash",
        MatchAction::PartialRedact { direction, .. } => match direction {
            PartialRedactDirection::FirstCharacters => "partial_beginning",
            PartialRedactDirection::LastCharacters => "partial_end",
        },
    }
}
/// C03: candidates (rule, start, end) of one string -> retained ones, in start order.
pub fn resolve(c: &[(usize, usize, usize)], mutating: &[bool]) -> Vec<(usize, usize, usize)> {
    let mut v: Vec<_> = c.to_vec();
    v.sort();
    v.dedup();
    v.sort_by_key(|(r, s, e)| (!mutating[*r], *s, std::cmp::Reverse(e - s), *r));
    let mut kept: Vec<(usize, usize, usize)> = vec![];
    for m in v {
        if kept.iter().all(|k| k.2 <= m.1 || m.2 <= k.1) {
            kept.push(m)
        }
    }
    kept.sort_by_key(|m| m.1);
    kept
}
/// C01/C02: applies the retained matches to `s`.
pub fn apply(
    s: &str,
    kept: &[(usize, usize, usize)],
    rules: &[RegexRuleConfig],
    p: &str,
    enc: Enc,
    returns: bool,
    out: &mut Vec<M>,
) -> (String, bool) {
    let mut o = String::new();
    let mut at = 0;
    let mut mutated = false;
    for &(r, a, b) in kept {
        o.push_str(&s[at..a]);
        let st = enc_len(enc, &o);
        let rep = replace(&rules[r].match_action, &s[a..b]);
        mutated |= rep.is_some();
        o.push_str(rep.as_deref().unwrap_or(&s[a..b]));
        let en = enc_len(enc, &o);
        out.push(M {
            rule: r,
            path: p.to_string(),
            rt: action_rt(&rules[r].match_action),
            start: st,
            end: en,
            shift: en as isize - enc_len(enc, &s[..b]) as isize,
            value: returns.then(|| s[a..b].to_string()),
            status: if rules[r].match_validation_type.is_some() {
                "NotChecked"
            } else {
                "NotAvailable"
            },
        });
        at = b;
    }
    o.push_str(&s[at..]);
    (o, mutated)
}

thread_local! {
    static RES: std::cell::RefCell<HashMap<String, std::rc::Rc<Re>>> = Default::default();
}

impl RefScanner {
    pub fn new(rules: &[RegexRuleConfig], o: Opts) -> RefScanner {
        RefScanner {
            rules: rules.to_vec(),
            res: rules.iter().map(|r| Re::parse(&r.pattern)).collect(),
            o,
            optin: vec![true; rules.len()],
            returns: rules.iter().any(|r| {
                r.match_validation_type
                    .as_ref()
                    .map_or(false, |m| m.can_create_match_validator())
            }),
        }
    }
    /// Accepted matches of rule `r` in `s` from byte `from`; counts candidates rejected by excluded keywords.
    pub fn leftmost(&self, r: usize, s: &str, from: usize, exc: bool, fp: &mut u64) -> Vec<(usize, usize)> {
        let rule = &self.rules[r];
        let mut v = vec![];
        let mut at = from;
        while let Some((a, b)) = self.res[r].find(s, at) {
            assert!(b > a, "reference found an empty match for {}", rule.pattern);
            let mut ok = true;
            if exc {
                if let Some(k) = &rule.proximity_keywords {
                    if excluded(s, a, &k.excluded_keywords, k.look_ahead_character_count) {
                        *fp += 1;
                        ok = false;
                    }
                }
            }
            if ok {
                if let Some(val) = &rule.validator {
                    ok = refval::valid(val, &s[a..b], self.o.now);
                }
            }
            if ok {
                v.push((a, b));
                at = b;
            } else {
                at = a + s[a..].chars().next().unwrap().len_utf8();
                if at >= s.len() {
                    break;
                }
            }
        }
        v
    }
    /// Candidate matches of rule `r` in string `s` at path `p`, regardless of scope.
    pub fn candidates(&self, r: usize, s: &str, p: &Path, fp: &mut u64) -> Vec<(usize, usize)> {
        let rule = &self.rules[r];
        let inc = rule
            .proximity_keywords
            .as_ref()
            .filter(|k| !k.included_keywords.is_empty());
        let Some(k) = inc else {
            return self.leftmost(r, s, 0, true, fp);
        };
        if self.o.kw_paths && kw_in_path(p, &k.included_keywords) {
            return self.leftmost(r, s, 0, false, fp);
        }
        let chars: Vec<char> = s.chars().collect();
        let off: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
        let kws: Vec<Vec<char>> = k.included_keywords.iter().map(|x| kw_chars(x)).collect();
        let occ: Vec<usize> = (0..chars.len())
            .filter(|i| kws.iter().any(|w| kw_at(&chars, *i, w)))
            .collect();
        let mut v: Vec<(usize, usize)> = vec![];
        let mut last = 0;
        for o in occ {
            for (a, b) in self.leftmost(r, s, off[o].max(last), false, fp) {
                let d = s[off[o]..a].chars().count();
                if d > k.look_ahead_character_count {
                    break;
                }
                v.push((a, b));
                last = b;
            }
        }
        v
    }
    pub fn scan(&self, strs: &[(Path<'static>, String)], blocked: &[usize], enc: Enc) -> Out {
        let n = self.rules.len();
        let mut out = Out {
            fp_kw: vec![0; n],
            fp_multi: vec![0; n],
            ..Default::default()
        };
        let mut cand: Vec<Vec<(usize, usize, usize)>> = vec![];
        let mut bad: HashSet<String> = HashSet::new();
        for (p, s) in strs {
            let mut c = vec![];
            for r in 0..n {
                if blocked.contains(&r) {
                    continue;
                }
                let (scan, excl) = scope_of(p, &self.rules[r].scope, self.o.wild);
                if !scan {
                    continue;
                }
                let mut fp = 0;
                for (a, b) in self.candidates(r, s, p, &mut fp) {
                    if excl {
                        bad.insert(s[a..b].to_string());
                    } else {
                        c.push((r, a, b));
                    }
                }
                out.fp_kw[r] += fp;
            }
            cand.push(c);
        }
        let mutating: Vec<bool> = self
            .rules
            .iter()
            .map(|r| !matches!(r.match_action, MatchAction::None))
            .collect();
        for ((p, s), mut c) in strs.iter().zip(cand) {
            if self.o.multipass {
                c.retain(|(r, a, b)| {
                    let f = self.optin[*r] && bad.contains(&s[*a..*b]);
                    out.fp_multi[*r] += f as u64;
                    !f
                });
            }
            let kept = resolve(&c, &mutating);
            let (o, m) = apply(s, &kept, &self.rules, &path_key(p), enc, self.returns, &mut out.matches);
            out.strs.push(o);
            out.mutated.push(m);
        }
        out
    }
}

/// Runs the implementation on a flat event.
pub fn run_impl<E: Encoding>(sc: &dd_sds::Scanner, strs: &Strs, blocked: &[usize]) -> (Out, Option<String>) {
    let mut ev = FlatEvent::<E>::new(strs.clone());
    let ms = sc.scan(&mut ev, blocked.to_vec());
    let mut bad = ev.bad.clone();
    if let Some(i) = ev.mut_calls.iter().position(|c| *c > 1) {
        bad = Some(format!("string {i} was opened for mutation {} times", ev.mut_calls[i]));
    }
    (
        Out {
            matches: ms.iter().map(M::of).collect(),
            strs: ev.strs.into_iter().map(|x| x.1).collect(),
            mutated: ev.mutated,
            fp_kw: vec![],
            fp_multi: vec![],
        },
        bad,
    )
}
pub fn same(a: &Out, b: &Out) -> bool {
    a.matches == b.matches && a.strs == b.strs && a.mutated == b.mutated
}
pub fn show(o: &Out) -> serde_json::Value {
    serde_json::json!({"matches": o.matches.iter().map(|m| format!("{m:?}")).collect::<Vec<_>>(), "strings": o.strs, "mutated": o.mutated})
}
pub fn build(rules: &[RegexRuleConfig], o: Opts) -> Result<dd_sds::Scanner, dd_sds::CreateScannerError> {
    let v: Vec<_> = rules.iter().map(|r| r.build()).collect();
    // settings at their default are not set here: C19 and C27 set them all explicitly
    let mut b = dd_sds::Scanner::builder(&v);
    if !o.multipass {
        b = b.with_multipass_v0(false);
    }
    if o.kw_paths {
        b = b.with_keywords_should_match_event_paths(true);
    }
    if o.wild {
        b = b.with_implicit_wildcard_indexes_for_scopes(true);
    }
    b.build()
}
pub fn kw(look: usize, inc: &[&str], exc: &[&str]) -> dd_sds::ProximityKeywordsConfig {
    dd_sds::ProximityKeywordsConfig {
        look_ahead_character_count: look,
        included_keywords: inc.iter().map(|s| s.to_string()).collect(),
        excluded_keywords: exc.iter().map(|s| s.to_string()).collect(),
    }
}
pub fn redact(s: &str) -> MatchAction {
    MatchAction::Redact {
        replacement: s.into(),
    }
}
pub fn partial(first: bool, n: usize) -> MatchAction {
    MatchAction::PartialRedact {
        direction: if first {
            PartialRedactDirection::FirstCharacters
        } else {
            PartialRedactDirection::LastCharacters
        },
        character_count: n,
    }
}
#[allow(unused)]
pub fn _unused() {
    let _ = refre::MAX_QUANT;
}
