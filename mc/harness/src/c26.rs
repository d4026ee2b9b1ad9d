//! C26 events, C23 binary encoding.
use crate::common::*;
use crate::core::*;
use crate::refscan::*;
use dd_sds::*;
use sds_bindings_utils::{encode_response, BinaryEvent};
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    S(String),
    J(Value), // JSON scalar that is not a string
    L(Vec<T>),
    M(Vec<(String, T)>),
}
/// All trees of depth `d`: leaves, lists and maps (each key at most once) of up to `wid` children.
pub fn trees(d: usize, leaves: &[T], keys: &[&str], wl: usize, wm: usize) -> Vec<T> {
    if d == 0 {
        return leaves.to_vec();
    }
    let sub = trees(d - 1, leaves, keys, wl, wm);
    let mut out = leaves.to_vec();
    let mut level: Vec<Vec<T>> = vec![vec![]];
    for w in 0..=wl {
        out.extend(level.iter().cloned().map(T::L));
        if w < wl {
            level = level.iter().flat_map(|v| sub.iter().map(move |s| [v.clone(), vec![s.clone()]].concat())).collect();
        }
    }
    fn maps(keys: &[&str], from: usize, left: usize, cur: &mut Vec<(String, T)>, sub: &[T], out: &mut Vec<T>) {
        out.push(T::M(cur.clone()));
        if left == 0 {
            return;
        }
        for k in from..keys.len() {
            for s in sub {
                cur.push((keys[k].to_string(), s.clone()));
                maps(keys, k + 1, left - 1, cur, sub, out);
                cur.pop();
            }
        }
    }
    maps(keys, 0, wm, &mut vec![], &sub, &mut out);
    out
}
impl T {
    pub fn simple(&self) -> SimpleEvent {
        match self {
            T::S(s) => SimpleEvent::String(s.clone()),
            T::J(_) => unreachable!(),
            T::L(v) => SimpleEvent::List(v.iter().map(|x| x.simple()).collect()),
            T::M(v) => SimpleEvent::Map(v.iter().map(|(k, x)| (k.clone(), x.simple())).collect()),
        }
    }
    pub fn json(&self) -> Value {
        match self {
            T::S(s) => Value::String(s.clone()),
            T::J(v) => v.clone(),
            T::L(v) => Value::Array(v.iter().map(|x| x.json()).collect()),
            T::M(v) => Value::Object(v.iter().map(|(k, x)| (k.clone(), x.json())).collect()),
        }
    }
    /// (path, text) of every string, in tree order; JSON numbers and booleans count as their text
    pub fn flat(&self) -> Strs {
        let mut o = vec![];
        self.flat_in(&mut vec![], &mut o);
        o
    }
    fn flat_in(&self, p: &mut Vec<PathSegment<'static>>, o: &mut Strs) {
        match self {
            T::S(s) => o.push((Path::from(p.clone()), s.clone())),
            T::J(Value::Null) => {}
            T::J(v) => o.push((Path::from(p.clone()), v.to_string())),
            T::L(v) => {
                for (i, x) in v.iter().enumerate() {
                    p.push(PathSegment::Index(i));
                    x.flat_in(p, o);
                    p.pop();
                }
            }
            T::M(v) => {
                for (k, x) in v {
                    p.push(PathSegment::Field(k.clone().into()));
                    x.flat_in(p, o);
                    p.pop();
                }
            }
        }
    }
    /// The order in which a nested event must be visited: "message" first at each level, then by key.
    fn simple_order(&self) -> T {
        match self {
            T::L(v) => T::L(v.iter().map(|x| x.simple_order()).collect()),
            T::M(v) => {
                let mut v: Vec<_> = v.iter().map(|(k, x)| (k.clone(), x.simple_order())).collect();
                v.sort_by_key(|(k, _)| (k != "message", k.clone()));
                T::M(v)
            }
            x => x.clone(),
        }
    }
    pub fn get_mut(&mut self, p: &[PathSegment]) -> Option<&mut T> {
        let Some(s) = p.first() else { return Some(self) };
        match (self, s) {
            (T::L(v), PathSegment::Index(i)) => v.get_mut(*i)?.get_mut(&p[1..]),
            (T::M(v), PathSegment::Field(f)) => v.iter_mut().find(|(k, _)| k == f)?.1.get_mut(&p[1..]),
            _ => None,
        }
    }
    fn has_null_or_scalar(&self) -> bool {
        match self {
            T::J(_) => true,
            T::S(_) => false,
            T::L(v) => v.iter().any(|x| x.has_null_or_scalar()),
            T::M(v) => v.iter().any(|x| x.1.has_null_or_scalar()),
        }
    }
}
/// Records what an event shows to a visitor.
struct RecVisitor<'p> {
    path: Path<'p>,
    seen: Strs,
    depth: i64,
    low: bool,
    ops: u64,
}
impl<'p> EventVisitor<'p> for RecVisitor<'p> {
    fn push_segment(&mut self, s: PathSegment<'p>) {
        self.path.segments.push(s);
        self.depth += 1;
        self.ops += 1;
    }
    fn pop_segment(&mut self) {
        self.depth -= 1;
        self.ops += 1;
        self.low |= self.path.segments.pop().is_none();
    }
    fn visit_string<'s>(&'s mut self, v: &str) -> VisitStringResult<'s, 'p> {
        self.ops += 1;
        self.seen.push((self.path.into_static(), v.to_string()));
        VisitStringResult { might_mutate: true, path: &self.path }
    }
}
fn visit<E: Event>(e: &mut E) -> (Strs, i64, bool, u64) {
    let mut v = RecVisitor { path: Path::root(), seen: vec![], depth: 0, low: false, ops: 0 };
    e.visit_event(&mut v);
    (v.seen, v.depth, v.low, v.ops)
}
fn skey(s: &Strs) -> Vec<(String, String)> {
    let mut v: Vec<_> = s.iter().map(|(p, t)| (path_key(p), t.clone())).collect();
    v.sort();
    v
}
/// Visits, mutates each visited string and looks again.
fn check_visits<E: Event>(w: &mut Worker, kind: &str, what: &str, mk: &dyn Fn() -> E, want: &Strs, ordered: bool) -> bool {
    let case = format!("{kind} {what}");
    let Some((seen, depth, low, ops)) = w.run(&case, want.len() as u64 + 1, || visit(&mut mk())) else { return false };
    let same = if ordered { seen == *want } else { skey(&seen) == skey(want) };
    w.add_states(0, ops);
    w.outcome(&(kind, skey(want)), !want.is_empty());
    if !same || depth != 0 || low {
        w.violate("visit", json!({"case": case, "expected": skey(want), "observed": skey(&seen), "observed order": format!("{seen:?}"), "unbalanced": depth != 0 || low}));
        return false;
    }
    for (i, (p, s)) in want.iter().enumerate() {
        if want.len() > 64 && i % 37 != 0 && i + 3 < want.len() {
            continue;
        }
        let r = w.run(&case, 1, || {
            let mut e = mk();
            let mut hit = vec![];
            e.visit_string_mut(p, |x| {
                hit.push(x.clone());
                x.push('!');
                true
            });
            let (after, ..) = visit(&mut e);
            // an access that leaves the string alone must leave the event alone
            let mut e2 = mk();
            e2.visit_string_mut(p, |_| false);
            (hit, after, visit(&mut e2).0)
        });
        let Some((hit, after, untouched)) = r else { return false };
        let mut exp = want.clone();
        exp.iter_mut().find(|x| x.0 == *p).unwrap().1.push('!');
        if hit != [s.clone()] || skey(&after) != skey(&exp) || skey(&untouched) != skey(want) {
            w.violate("mutable access", json!({"case": case, "path": format!("{p:?}"), "reached": hit, "expected": s, "after": skey(&after)}));
            return false;
        }
    }
    true
}
fn by_path(o: &Out, strs: &Strs) -> (Vec<M>, Vec<(String, String)>) {
    let mut m = o.matches.clone();
    m.sort_by_key(|m| (m.path.clone(), m.start, m.rule));
    let mut s: Vec<_> = strs.iter().zip(&o.strs).map(|((p, _), t)| (path_key(p), t.clone())).collect();
    s.sort();
    (m, s)
}
fn check_scan<E: Event>(w: &mut Worker, kind: &str, what: &str, mk: &dyn Fn() -> E, strs: &Strs, pr: &Pair, ordered: bool) -> bool {
    let case = format!("{kind} {what}");
    let Some((ms, after)) = w.run(&case, strs.len() as u64 + 1, || {
        let mut e = mk();
        let ms: Vec<M> = pr.sc.scan(&mut e, vec![]).iter().map(M::of).collect();
        (ms, visit(&mut e).0)
    }) else {
        return false;
    };
    let want = pr.rf.scan(strs, &[], Enc::Utf8);
    let (wm, ws) = by_path(&want, strs);
    let mut gm = ms.clone();
    gm.sort_by_key(|m| (m.path.clone(), m.start, m.rule));
    w.outcome(&want, !want.matches.is_empty());
    if gm != wm || skey(&after) != ws || (ordered && ms != want.matches) {
        w.violate("scan", json!({"case": case, "expected": show(&want), "observed matches": format!("{ms:?}"), "observed strings": skey(&after)}));
        return false;
    }
    if !wm.is_empty() && w.want_sample() {
        let c = w.cfg_text().to_string();
        w.ctx.sample(json!({"space": w.space, "config": c, "case": case, "matches": format!("{ms:?}")}));
    }
    true
}
pub fn rule_sets() -> Vec<(Vec<RegexRuleConfig>, Opts)> {
    let d = Opts::default();
    let inc = |p: &[&str], e: &[&str]| Scope::Include { include: p.iter().map(|x| path(x)).collect(), exclude: e.iter().map(|x| path(x)).collect() };
    vec![
        (vec![rule("[0-9]").match_action(redact("###")), rule("x")], d),
        (vec![rule("1").match_action(redact("")).scope(inc(&["a", "0"], &["a.1"]))], d),
        (vec![rule("[x1]+").match_action(MatchAction::Hash).scope(Scope::Exclude(vec![path("message")]))], d),
        (vec![rule("1").match_action(partial(true, 2)).proximity_keywords(kw(10, &["a"], &[])), rule("x")], Opts { kw_paths: true, ..d }),
        (vec![rule("x").scope(inc(&["a.a"], &[])).match_action(redact("é")), rule("1").scope(Scope::Exclude(vec![path("a")]))], Opts { wild: true, multipass: false, ..d }),
    ]
}
fn all_events(w: &mut Worker, t: &T, pr: Option<&Pair>) -> bool {
    let what = serde_json::to_string(&t.json()).unwrap();
    let plain = !t.has_null_or_scalar();
    let flat = t.flat();
    if plain {
        let ord = t.simple_order().flat();
        let mk = || t.simple();
        let ok = match pr {
            None => check_visits(w, "nested event", &what, &mk, &ord, true),
            Some(p) => check_scan(w, "nested event", &what, &mk, &ord, p, true),
        };
        if !ok {
            return false;
        }
        if let T::S(s) = t {
            let mk = || s.clone();
            let ok = match pr {
                None => check_visits(w, "string", &what, &mk, &flat, true),
                Some(p) => check_scan(w, "string", &what, &mk, &flat, p, true),
            };
            if !ok {
                return false;
            }
        }
    }
    let mk = || t.json();
    let ok = match pr {
        None => check_visits(w, "json value", &what, &mk, &flat, false),
        Some(p) => check_scan(w, "json value", &what, &mk, &flat, p, false),
    };
    if !ok {
        return false;
    }
    if let T::M(m) = t {
        let mk = || -> HashMap<String, Value, std::hash::RandomState> { m.iter().map(|(k, x)| (k.clone(), x.json())).collect() };
        let ok = match pr {
            None => check_visits(w, "json map", &what, &mk, &flat, false),
            Some(p) => check_scan(w, "json map", &what, &mk, &flat, p, false),
        };
        if !ok {
            return false;
        }
    }
    true
}
fn s(x: &str) -> T {
    T::S(x.into())
}
pub fn tree_spaces(c: &Ctx) -> Vec<(&'static str, &'static str, Vec<T>)> {
    let txt = [s("1"), s("x1é"), s("")];
    let mut js = txt[..2].to_vec();
    js.extend([json!(null), json!(true), json!(false), json!(12), json!(-1.5), json!(1e300), json!(u64::MAX)].into_iter().map(T::J));
    let mut v = vec![
        ("wide", "every tree of depth 2 over two texts, keys a / message / z, lists of <=2, maps of <=3", trees(2, &txt[..2], &["a", "message", "z"], 2, 3)),
        ("deep", "every tree of depth 3 over one text, keys a / message, lists of <=1, maps of <=2", trees(3, &txt[..1], &["a", "message"], c.q(1, 2), 2)),
        ("json scalars", "every tree of depth 1-2 with null, booleans and numbers", { let mut v = trees(1, &js, &["a", "b"], 2, 2); v.extend(trees(2, &[T::J(json!(1)), T::J(json!(null)), s("1")], &["a", "1"], c.q(1, 2), c.q(2, 2))); v }),
        ("escaped keys", "every tree of depth 2 over keys with characters that pointers, patterns, paths and quoting treat specially", trees(2, &txt[..1], &["~1", "~0a", "a/b", "\"\\", "a b ", "[0]", "-", "$", "%2f", "\0\n"], 1, 1)),
        ("special keys", "every tree of depth 2 over keys that are empty, numeric, dotted, upper-case or multi-byte", trees(2, &txt[..c.q(1, 2)], &["", "0", "a.b", "Message", "message", "é"], 1, 2)),
    ];
    let mut scale = vec![];
    for n in (0..40usize).chain([63, 64, 65, 127, 128, 255, 256, 257, 1000]) {
        scale.push(T::L((0..n).map(|i| s(&format!("x{}", i % 3))).collect()));
        scale.push(T::M((0..n).map(|i| (format!("k{i}"), s("1"))).chain([("message".to_string(), s("x1"))]).collect()));
        if n <= 128 {
            let mut t = s("x1");
            for i in 0..n {
                t = if i % 2 == 0 { T::L(vec![s("1"), t]) } else { T::M(vec![("a".into(), t), ("message".into(), s("x"))]) };
            }
            scale.push(t);
        }
    }
    for n in [4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537] {
        if n < 5000 {
            scale.push(T::L((0..n + 1).map(|i| s(if i < 2 || i >= n - 1 { "x1" } else { "-" })).collect()));
            scale.push(T::M((0..n + 1).map(|i| (format!("k{i}"), s(if i < 2 || i >= n - 1 { "1" } else { "-" }))).collect()));
        }
        scale.push(T::M(vec![("k".repeat(n), s("x1")), ("k".repeat(n + 1), T::L(vec![s(&format!("{}1", "-".repeat(n)))]))]));
    }
    v.push(("scale", "lists, maps and nesting of every size up to 40 and around powers of two up to 65537, keys and texts of such lengths", scale));
    v
}
pub fn c26(c: &Ctx) {
    for (name, txt, v) in tree_spaces(c) {
        let chunks: Vec<&[T]> = v.chunks(16).collect();
        c.space(&format!("visits: {name}"), txt, &chunks, |w, ts| {
            for t in ts.iter() {
                if !all_events(w, t, None) || w.stopped() {
                    return;
                }
            }
        });
        for (i, (rules, o)) in rule_sets().into_iter().enumerate() {
            c.space(&format!("scans: {name} {i}"), txt, &chunks, |w, ts| {
                let Some(p) = pair(w, &rules, o) else { return };
                for t in ts.iter() {
                    if !all_events(w, t, Some(&p)) || w.stopped() {
                        return;
                    }
                }
            });
        }
    }
}

// ---------------------------------------------------------------- C23
/// The documented encoding, one byte tag and big-endian lengths.
pub fn encode(t: &T, o: &mut Vec<u8>) {
    let put = |o: &mut Vec<u8>, tag: u8, b: &[u8]| {
        o.push(tag);
        o.extend((b.len() as u32).to_be_bytes());
        o.extend(b);
    };
    match t {
        T::S(s) => put(o, 3, s.as_bytes()),
        T::J(_) => {}
        T::L(v) => {
            for (i, x) in v.iter().enumerate() {
                o.push(1);
                o.extend((i as u32).to_be_bytes());
                encode(x, o);
                o.push(2);
            }
        }
        T::M(v) => {
            for (k, x) in v {
                put(o, 0, k.as_bytes());
                encode(x, o);
                o.push(2);
            }
        }
    }
}
#[derive(Debug, PartialEq, Clone, Default)]
pub struct Response {
    pub mutations: Vec<(Path<'static>, String)>,
    /// rule, path text, replacement type, start, end, shift
    pub matches: Vec<(u32, String, String, u32, u32, i32)>,
}
/// Independent decoder of the response format.
pub fn decode(b: &[u8]) -> Result<Response, String> {
    let mut r = Response::default();
    let mut i = 0;
    fn u(b: &[u8], i: &mut usize) -> Result<u32, String> {
        let x = b.get(*i..*i + 4).ok_or(format!("truncated at {i}"))?;
        *i += 4;
        Ok(u32::from_be_bytes(x.try_into().unwrap()))
    }
    fn st(b: &[u8], i: &mut usize) -> Result<String, String> {
        let n = u(b, i)? as usize;
        let x = b.get(*i..*i + n).ok_or(format!("truncated string at {i}"))?;
        *i += n;
        String::from_utf8(x.to_vec()).map_err(|e| e.to_string())
    }
    while i < b.len() {
        let tag = b[i];
        i += 1;
        match tag {
            4 => {
                if !r.matches.is_empty() {
                    return Err("mutation after a match".into());
                }
                let mut p = vec![];
                loop {
                    let t = *b.get(i).ok_or("truncated path")?;
                    i += 1;
                    match t {
                        0 => p.push(PathSegment::Field(st(b, &mut i)?.into())),
                        1 => p.push(PathSegment::Index(u(b, &mut i)? as usize)),
                        3 => break,
                        x => return Err(format!("tag {x} in a path")),
                    }
                }
                r.mutations.push((Path::from(p), st(b, &mut i)?));
            }
            5 => {
                let rule = u(b, &mut i)?;
                let p = st(b, &mut i)?;
                let rt = st(b, &mut i)?;
                r.matches.push((rule, p, rt, u(b, &mut i)?, u(b, &mut i)?, u(b, &mut i)? as i32));
            }
            x => return Err(format!("unknown tag {x}")),
        }
    }
    Ok(r)
}
/// a[0].b
pub fn path_text(p: &Path) -> String {
    let mut o = String::new();
    for (i, s) in p.segments.iter().enumerate() {
        match s {
            PathSegment::Field(f) => {
                if i > 0 {
                    o.push('.')
                }
                o.push_str(f)
            }
            PathSegment::Index(n) => o.push_str(&format!("[{n}]")),
        }
    }
    o
}
pub fn expected_response(want: &Out, strs: &Strs) -> Option<Response> {
    if want.matches.is_empty() {
        return None;
    }
    let texts: HashMap<String, String> = strs.iter().map(|(p, _)| (path_key(p), path_text(p))).collect();
    Some(Response {
        mutations: strs.iter().zip(&want.strs).zip(&want.mutated).filter(|x| *x.1).map(|((p, s), _)| (p.0.clone(), s.clone())).collect(),
        matches: want.matches.iter().map(|m| (m.rule as u32, texts[&m.path].clone(), m.rt.to_string(), m.start as u32, m.end as u32, m.shift as i32)).collect(),
    })
}
pub fn norm(mut r: Response) -> Response {
    r.mutations.sort_by_key(|x| (path_key(&x.0), x.1.clone()));
    r
}
fn run_bin<E: Encoding>(pr: &Pair, bytes: &[u8], utf8: bool) -> (Vec<M>, Option<Vec<u8>>) {
    let mut e = BinaryEvent::<E>::new(bytes.to_vec(), utf8);
    let ms = pr.sc.scan(&mut e, vec![]);
    let r = encode_response(&e.storage, &ms);
    (ms.iter().map(M::of).collect(), r)
}
fn check_bin(w: &mut Worker, t: &T, pr: &Pair, enc: Enc, utf8: bool) -> bool {
    let case = format!("{enc:?} utf8={utf8} {}", serde_json::to_string(&t.json()).unwrap());
    let mut bytes = vec![];
    encode(t, &mut bytes);
    let strs = t.flat();
    let Some((ms, resp)) = w.run(&case, bytes.len() as u64, || match enc {
        Enc::Utf8 => run_bin::<Utf8Encoding>(pr, &bytes, utf8),
        Enc::Utf16 => run_bin::<CustomEnc<true>>(pr, &bytes, utf8),
        Enc::Chars => run_bin::<CustomEnc<false>>(pr, &bytes, utf8),
    }) else {
        return false;
    };
    let want = pr.rf.scan(&strs, &[], enc);
    w.outcome(&want, !want.matches.is_empty());
    let exp = expected_response(&want, &strs).map(norm);
    let got = match resp.as_deref().map(decode) {
        None => None,
        Some(Ok(r)) => Some(norm(r)),
        Some(Err(e)) => {
            w.violate("response", json!({"case": case, "malformed": e, "bytes": format!("{resp:?}")}));
            return false;
        }
    };
    if ms != want.matches || got != exp {
        w.violate("response", json!({"case": case, "expected": format!("{exp:?}"), "observed": format!("{got:?}"), "matches": format!("{ms:?}")}));
        return false;
    }
    // applying the mutations to the original gives the event scanned in memory
    if enc == Enc::Utf8 && pr.rf.o.multipass {
        let mut t2 = t.clone();
        for (p, s) in got.iter().flat_map(|r| &r.mutations) {
            match t2.get_mut(&p.segments) {
                Some(x @ T::S(_)) => *x = T::S(s.clone()),
                _ => {
                    w.violate("mutation path", json!({"case": case, "path": format!("{p:?}")}));
                    return false;
                }
            }
        }
        let mut e = t.simple();
        pr.sc.scan(&mut e, vec![]);
        if e != t2.simple() {
            w.violate("in-memory event", json!({"case": case, "in memory": format!("{e:?}"), "decoded": format!("{t2:?}")}));
            return false;
        }
    }
    true
}
pub fn c23(c: &Ctx) {
    let mut sets = rule_sets();
    sets.push((all_actions().into_iter().enumerate().map(|(i, a)| rule(&format!("{}", char::from(b'a' + i as u8))).match_action(a)).collect(), Opts::default()));
    for (name, txt, v) in tree_spaces(c) {
        if name == "json scalars" {
            continue;
        }
        let chunks: Vec<&[T]> = v.chunks(16).collect();
        for (i, (rules, o)) in sets.iter().enumerate() {
            c.space(&format!("{name} {i}"), txt, &chunks, |w, ts| {
                let Some(p) = pair(w, rules, *o) else { return };
                for t in ts.iter() {
                    for (enc, utf8) in [(Enc::Utf8, false), (Enc::Utf8, true), (Enc::Utf16, false)] {
                        if !check_bin(w, t, &p, enc, utf8) || w.stopped() {
                            return;
                        }
                    }
                }
            });
        }
    }
    // texts: every short string with every action, three encodings
    let texts = all_strings(&['a', 'f', 'k', 'é', '😀', '-'], 0, c.q(4, 5));
    let acts = all_actions();
    c.space("texts", "every string up to the bound with every match action in three encodings: indices, shift and content", &acts, |w, a| {
        let rules = [rule("a+").match_action(a.clone()), rule("[ké]").match_action(redact("zz")), rule("f").match_action(MatchAction::None)];
        let Some(p) = pair(w, &rules, Opts::default()) else { return };
        for s in &texts {
            for enc in [Enc::Utf8, Enc::Utf16, Enc::Chars] {
                if !check_bin(w, &T::M(vec![("f".into(), T::S(s.clone()))]), &p, enc, false) || w.stopped() {
                    return;
                }
            }
        }
    });
    // bytes that are not UTF-8 are scanned as their lossy text
    let alpha: Vec<char> = "a1\u{80}\u{ff}\u{c3}\u{a9}\u{e2}\u{82}\u{f0}\u{9f}".chars().collect();
    let byte_strs: Vec<Vec<u8>> = all_strings(&alpha, 0, c.q(4, 5)).into_iter().map(|s| s.chars().map(|c| c as u32 as u8).collect()).collect();
    let chunks: Vec<&[Vec<u8>]> = byte_strs.chunks(64).collect();
    c.space("invalid UTF-8", "every byte string up to the bound over truncated, stray and overlong-looking bytes, scanned as its lossy text", &chunks, |w, bs| {
        let rules = [rule("1").match_action(redact("##")), rule("\u{fffd}|é")];
        let Some(p) = pair(w, &rules, Opts::default()) else { return };
        for b in bs.iter() {
            let text = String::from_utf8_lossy(b).into_owned();
            let mut bytes = vec![0, 0, 0, 0, 1, b'k', 3];
            bytes.extend((b.len() as u32).to_be_bytes());
            bytes.extend(b);
            bytes.extend([2, 0, 0, 0, 0, 1, b'm', 3, 0, 0, 0, 1, b'1', 2]);
            let strs = vec![(path("k"), text), (path("m"), "1".to_string())];
            let case = format!("{b:?}");
            let Some((ms, resp)) = w.run(&case, b.len() as u64, || run_bin::<Utf8Encoding>(&p, &bytes, false)) else { return };
            let want = p.rf.scan(&strs, &[], Enc::Utf8);
            w.outcome(&want, true);
            let exp = expected_response(&want, &strs).map(norm);
            let got = resp.map(|r| decode(&r).map(norm));
            if ms != want.matches || got.clone().transpose().ok() != Some(exp.clone()) {
                w.violate("lossy", json!({"case": case, "expected": format!("{exp:?}"), "observed": format!("{got:?}")}));
                return;
            }
        }
    });
    // counts: many matches, many strings, deep nesting
    let ns: Vec<usize> = (1..=c.q(70, 140)).chain([255, 256, 257, 513, 1025]).collect();
    c.space("counts", "n matches in one string of which one, none or all redact, n strings, n levels: n = 1..70 (140) and around powers of two", &ns, |w, n| {
        let rules = [rule("a"), rule("k").match_action(redact("##")), rule("é+").match_action(MatchAction::Hash), rule("m.")];
        let Some(p) = pair(w, &rules, Opts::default()) else { return };
        let mut ts = vec![T::S("é m".repeat(*n)), T::S("k".repeat(*n)), T::S("a".repeat(*n))];
        for j in [0, n / 2, n - 1] {
            let text: String = (0..*n).map(|i| if i == j { "k " } else { "a " }).collect();
            ts.push(T::S(text.clone()));
            ts.push(T::M(vec![("x".into(), T::S(text)), ("y".into(), s("k"))]));
            ts.push(T::L((0..*n).map(|i| s(if i == j { "k" } else { "a" })).collect()));
            ts.push(T::M((0..*n).map(|i| (format!("f{i}"), s(if i == j { "a" } else { "éé" }))).collect()));
            if *n <= 140 {
                let mut t = s("a k");
                for i in 0..*n {
                    t = if i % 3 == j % 3 { T::L(vec![s("k"), t]) } else { T::M(vec![("d".into(), t), ("e".into(), s("-"))]) };
                }
                ts.push(t);
            }
        }
        for t in &ts {
            for enc in [Enc::Utf8, Enc::Utf16] {
                if !check_bin(w, t, &p, enc, true) || w.stopped() {
                    return;
                }
            }
        }
    });
    // sizes: string and key lengths, list positions and rule numbers around the byte boundaries of the length fields
    let ns: Vec<usize> = [0, 1, 2, 100, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 100000].into_iter().chain(c.q(vec![], vec![(1 << 24) - 1, 1 << 24, (1 << 24) + 1])).collect();
    c.space("sizes", "lengths of texts and keys, list positions, offsets and rule numbers around 2^7, 2^8, 2^15, 2^16 (thorough 2^24)", &ns, |w, n| {
        let rules = [rule("1").match_action(redact("yes")), rule("z+").match_action(redact(""))];
        let Some(p) = pair(w, &rules, Opts::default()) else { return };
        let mut l: Vec<T> = vec![];
        for i in 0..(*n).min(1 << 17) + 1 {
            l.push(s(if i + 1 >= *n { "1" } else { "" }));
        }
        for t in [T::S(format!("{}1", "x".repeat(*n))), T::M(vec![("k".repeat(*n), s("1"))]), T::L(l), T::S(format!("1{}1", "z".repeat(*n)))] {
            if !check_bin(w, &t, &p, Enc::Utf8, false) {
                return;
            }
        }
        if *n <= 300 {
            let rules: Vec<_> = (0..*n + 1).map(|i| rule(&format!("r{i};")).match_action(redact("#"))).collect();
            let Some(p) = pair(w, &rules, Opts::default()) else { return };
            let t = T::L(vec![s(&(0..*n + 1).map(|i| format!("r{i};")).collect::<String>()), s(&format!("r{n};"))]);
            check_bin(w, &t, &p, Enc::Utf8, false);
        }
    });
}
