//! C24: every legal sequence of C calls.
use crate::c26::{decode, encode, expected_response, norm, Response, T as Tree};
use crate::common::*;
use crate::core::*;
use crate::forkx::{shared_words, X};
use crate::rec::rec;
use crate::refscan::*;
use dd_sds::*;
use dd_sds_go as ffi;
use sds_verif_std::sched::{self, End};
use serde_json::json;
use std::collections::HashMap;
use std::ffi::{c_char, CStr, CString};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Rule(u8),
    FreeRule(u8),
    List,
    Append(u8, u8),
    FreeList(u8),
    Scanner(u8, bool),
    Delete(u8),
    /// scanner, event; the result stays outstanding
    Scan(u8, u8),
    FreeResult(u8),
}
use Op::*;
#[derive(Clone, Default, Debug)]
struct Model {
    rules: Vec<u8>,
    lists: Vec<Vec<u8>>,
    scanners: Vec<(Vec<u8>, bool)>,
    results: Vec<bool>,
}
struct Kind {
    json: CString,
    rule: Option<RegexRuleConfig>,
    /// what create_scanner answers because of this rule
    code: i64,
}
struct Lab {
    kinds: Vec<Kind>,
    events: Vec<(Vec<u8>, Option<Tree>)>,
    memo: Mutex<HashMap<(Vec<u8>, bool, u8), Option<Response>>>,
}
impl Lab {
    fn new() -> Lab {
        let j = |r: &RegexRuleConfig| CString::new(serde_json::to_string(r).unwrap()).unwrap();
        let ok = |r: RegexRuleConfig| Kind { json: j(&r), rule: Some(r), code: 0 };
        let bad = |r: RegexRuleConfig, code| Kind { json: j(&r), rule: Some(r), code };
        let raw = |s: &str| Kind { json: CString::new(s).unwrap(), rule: None, code: 0 };
        let kinds = vec![
            ok(rule("secret").match_action(redact("[R]"))),
            ok(rule("[0-9]{3}").proximity_keywords(kw(30, &["card"], &[]))),
            bad(rule("("), -2),
            raw("{\"pattern\": 1}"),
            bad(rule("x").proximity_keywords(kw(0, &["a"], &[])), -3),
            bad(rule("x").match_action(partial(true, 0)), -4),
            ok(rule("sec").match_action(MatchAction::Hash)),
            raw(""),
        ];
        let tree = |v: &[(&str, &str)]| Tree::M(v.iter().map(|(k, s)| (k.to_string(), Tree::S(s.to_string()))).collect());
        let enc = |t: &Tree| {
            let mut o = vec![];
            encode(t, &mut o);
            o
        };
        let t0 = tree(&[("card", "123"), ("m", "a secret é secret")]);
        let t1 = tree(&[("m", "nothing")]);
        let mut cut = enc(&t0);
        cut.truncate(cut.len() - 4);
        let mut tag = enc(&t0);
        tag.push(9);
        let events = vec![(enc(&t0), Some(t0)), (cut, None), (enc(&t1), Some(t1)), (tag, None), (vec![3, 255, 255, 255, 255, b'a'], None), (vec![], Some(Tree::M(vec![]))), (vec![3, 0], None)];
        Lab { kinds, events, memo: Default::default() }
    }
    fn created(&self, rules: &[u8]) -> i64 {
        rules.iter().map(|k| self.kinds[*k as usize].code).find(|c| *c != 0).unwrap_or(0)
    }
    fn response(&self, rules: &[u8], kp: bool, e: u8) -> Option<Response> {
        let key = (rules.to_vec(), kp, e);
        if let Some(r) = self.memo.lock().unwrap().get(&key) {
            return r.clone();
        }
        let t = self.events[e as usize].1.as_ref().unwrap();
        let cfg: Vec<_> = rules.iter().map(|k| self.kinds[*k as usize].rule.clone().unwrap()).collect();
        let strs = t.flat();
        let out = RefScanner::new(&cfg, Opts { kw_paths: kp, ..Opts::default() }).scan(&strs, &[], Enc::Utf8);
        let r = expected_response(&out, &strs).map(norm);
        self.memo.lock().unwrap().insert(key, r.clone());
        r
    }
    fn step(&self, m: &mut Model, op: Op) {
        match op {
            Rule(k) => {
                if self.kinds[k as usize].rule.is_some() {
                    m.rules.push(k)
                }
            }
            FreeRule(i) => {
                m.rules.remove(i as usize);
            }
            List => m.lists.push(vec![]),
            Append(r, l) => {
                let k = m.rules[r as usize];
                m.lists[l as usize].push(k)
            }
            FreeList(i) => {
                m.lists.remove(i as usize);
            }
            Scanner(l, kp) => {
                if self.created(&m.lists[l as usize]) == 0 {
                    m.scanners.push((m.lists[l as usize].clone(), kp))
                }
            }
            Delete(i) => {
                m.scanners.remove(i as usize);
            }
            Scan(s, e) => {
                if self.events[e as usize].1.is_some() {
                    let (r, kp) = &m.scanners[s as usize];
                    if self.response(r, *kp, e).is_some() {
                        m.results.push(true)
                    }
                }
            }
            FreeResult(i) => {
                m.results.remove(i as usize);
            }
        }
    }
    fn ops(&self, m: &Model, kinds: &[u8], evs: &[u8], lim: (usize, usize, usize)) -> Vec<Op> {
        let mut v = vec![];
        if m.rules.len() < lim.0 {
            v.extend(kinds.iter().map(|k| Rule(*k)));
        }
        v.extend((0..m.rules.len()).map(|i| FreeRule(i as u8)));
        if m.lists.len() < lim.1 {
            v.push(List);
        }
        for (l, x) in m.lists.iter().enumerate() {
            if x.len() < 3 {
                v.extend((0..m.rules.len()).map(|r| Append(r as u8, l as u8)));
            }
            v.push(FreeList(l as u8));
            if m.scanners.len() < lim.2 {
                v.push(Scanner(l as u8, false));
                v.push(Scanner(l as u8, true));
            }
        }
        for s in 0..m.scanners.len() {
            v.push(Delete(s as u8));
            if m.results.len() < 2 {
                v.extend(evs.iter().map(|e| Scan(s as u8, *e)));
            }
        }
        v.extend((0..m.results.len()).map(|i| FreeResult(i as u8)));
        v
    }
    /// Runs the calls, then releases what is left in creation order (or the reverse).
    fn exec(&self, seq: &[Op], reverse: bool) -> Result<(), String> {
        let mut m = Model::default();
        let mut rules: Vec<i64> = Vec::with_capacity(8);
        let mut lists: Vec<i64> = Vec::with_capacity(8);
        let mut scanners: Vec<i64> = Vec::with_capacity(8);
        let mut results: Vec<(*const c_char, i64, i64, Vec<u8>)> = Vec::with_capacity(8);
        for op in seq {
            match *op {
                Rule(k) => {
                    let kd = &self.kinds[k as usize];
                    let h = ffi::rule::create_regex_rule(kd.json.as_ptr());
                    if (h > 0) != kd.rule.is_some() || h == 0 {
                        return Err(format!("create_regex_rule({:?}) returned {}", kd.json, if h > 0 { "a handle".into() } else { h.to_string() }));
                    }
                    if h > 0 {
                        rules.push(h);
                    }
                }
                FreeRule(i) => ffi::rule::free_any_rule(rules.remove(i as usize)),
                List => {
                    let h = ffi::rule::create_rule_list();
                    if h <= 0 {
                        return Err(format!("create_rule_list returned {h}"));
                    }
                    lists.push(h)
                }
                Append(r, l) => ffi::rule::append_rule_to_list(rules[r as usize], lists[l as usize]),
                FreeList(i) => ffi::rule::free_rule_list(lists.remove(i as usize)),
                Scanner(l, kp) => {
                    let want = self.created(&m.lists[l as usize]);
                    let (h, err) = create(lists[l as usize], kp);
                    if (want == 0 && h <= 0) || (want != 0 && h != want) || err.is_some() {
                        return Err(format!("create_scanner of {:?} returned {} {err:?}, expected {want}", m.lists[l as usize], if h > 0 { "a handle".into() } else { h.to_string() }));
                    }
                    if h > 0 {
                        scanners.push(h);
                    }
                }
                Delete(i) => ffi::delete_scanner::delete_scanner(scanners.remove(i as usize)),
                Scan(s, e) => {
                    let (r, kp) = &m.scanners[s as usize];
                    let (bytes, t) = &self.events[e as usize];
                    let got = scan(scanners[s as usize], bytes);
                    match (got, t) {
                        (Err(_), None) => {}
                        (Ok(x), Some(_)) => {
                            let want = self.response(r, *kp, e);
                            let got = x.as_ref().map(|x| decode(&x.3).map(norm));
                            if got.clone().transpose() != Ok(want.clone()) {
                                return Err(format!("scan with {r:?} {kp} of event {e}: expected {want:?}, observed {got:?}"));
                            }
                            results.extend(x);
                        }
                        (Ok(None), None) => return Err(format!("scan of malformed event {e} reported nothing")),
                        (g, _) => return Err(format!("scan with {r:?} of event {e}: observed {g:?}")),
                    }
                }
                FreeResult(i) => free_result(results.remove(i as usize))?,
            }
            self.step(&mut m, *op);
        }
        // results handed out stay intact until released
        if reverse {
            rules.reverse();
            lists.reverse();
            scanners.reverse();
            results.reverse();
            for x in results.drain(..) {
                free_result(x)?;
            }
        }
        for h in scanners.drain(..) {
            ffi::delete_scanner::delete_scanner(h)
        }
        for h in lists.drain(..) {
            ffi::rule::free_rule_list(h)
        }
        for h in rules.drain(..) {
            ffi::rule::free_any_rule(h)
        }
        for x in results.drain(..) {
            free_result(x)?;
        }
        Ok(())
    }
}
fn create(list: i64, kp: bool) -> (i64, Option<String>) {
    let mut err: *const c_char = std::ptr::null();
    let h = ffi::create_scanner::create_scanner(list, &mut err, kp);
    let e = (!err.is_null()).then(|| unsafe { CStr::from_ptr(err) }.to_string_lossy().into_owned());
    if !err.is_null() {
        ffi::scan::free_string(err);
    }
    (h, e)
}
type Res = (*const c_char, i64, i64, Vec<u8>);
fn scan(scanner: i64, bytes: &[u8]) -> Result<Option<Res>, String> {
    let (mut n, mut cap) = (-7i64, -7i64);
    let mut err: *const c_char = std::ptr::null();
    let p = ffi::scan::scan(scanner, bytes.as_ptr() as *const _, bytes.len() as i64, &mut n, &mut cap, &mut err);
    if !err.is_null() {
        let m = unsafe { CStr::from_ptr(err) }.to_string_lossy().into_owned();
        ffi::scan::free_string(err);
        if n != 0 || cap != 0 || !p.is_null() {
            return Ok(Some((p, n, cap, vec![0xff]))); // reported as a wrong result
        }
        return Err(m);
    }
    if n == 0 && cap == 0 && p.is_null() {
        return Ok(None);
    }
    if n <= 0 || cap < n || p.is_null() {
        return Ok(Some((p, n, cap, vec![0xff])));
    }
    let b = unsafe { std::slice::from_raw_parts(p as *const u8, n as usize) }.to_vec();
    Ok(Some((p, n, cap, b)))
}
fn free_result((p, n, cap, b): Res) -> Result<(), String> {
    let same = unsafe { std::slice::from_raw_parts(p as *const u8, n as usize) } == &b[..];
    ffi::scan::free_vec(p, n, cap);
    if same {
        Ok(())
    } else {
        Err("the bytes of a result changed before it was released".into())
    }
}
/// One execution with the memory balance. Caches are filled on first use, so an execution that
/// leaves memory behind is repeated: a leak happens again.
fn checked(f: impl Fn() -> Result<(), String>) -> Result<(), String> {
    for last in [false, false, true] {
        let (l0, b0) = (LIVE.load(SeqCst), LIVE_BLOCKS.load(SeqCst));
        f()?;
        if let Some(m) = mem_bad() {
            return Err(m.into());
        }
        let (l, b) = (LIVE.load(SeqCst) - l0, LIVE_BLOCKS.load(SeqCst) - b0);
        if l == 0 && b == 0 {
            return Ok(());
        }
        if last {
            return Err(format!("{l} bytes in {b} blocks not released (negative: released too often)"));
        }
    }
    Ok(())
}
/// Warms every cache and keeps every pattern alive, then starts the memory accounting.
fn warm(lab: &Lab) {
    CHECK_MEM.store(true, SeqCst);
    TRACK_LIVE.store(true, SeqCst);
    for k in &lab.kinds {
        if let (Some(r), 0) = (&k.rule, k.code) {
            std::mem::forget(build(std::slice::from_ref(r), Opts::default()));
        }
    }
    let all = [Rule(0), Rule(1), Rule(6), List, Append(0, 0), Append(1, 0), Append(2, 0), Scanner(0, true), Scan(0, 0), Scan(0, 1), Scan(0, 3), Scan(0, 2), Scan(0, 4), Scan(0, 5), Scan(0, 6)];
    for _ in 0..3 {
        let _ = lab.exec(&all, false);
        let _ = lab.exec(&[Rule(3), Rule(7), Rule(2), Rule(4), Rule(5), List, Append(0, 0), Scanner(0, false), List, Append(1, 1), Scanner(1, false), List, Append(2, 2), Scanner(2, false)], true);
    }
    // reference results of what follows are computed outside the accounting
    for a in 0..8u8 {
        for b in 0..9u8 {
            for c in 0..9u8 {
                let v: Vec<u8> = [a, b, c].into_iter().filter(|x| *x < 8).collect();
                if v.iter().all(|k| lab.kinds[*k as usize].rule.is_some() && lab.kinds[*k as usize].code == 0) {
                    for kp in [false, true] {
                        for e in 0..lab.events.len() as u8 {
                            if lab.events[e as usize].1.is_some() {
                                lab.response(&v, kp, e);
                                lab.response(&[], kp, e);
                            }
                        }
                    }
                }
            }
        }
    }
    let _ = mem_bad();
}
struct Explore<'a> {
    lab: &'a Lab,
    kinds: &'a [u8],
    evs: &'a [u8],
    lim: (usize, usize, usize),
    mem: &'static [AtomicU64],
}
fn pack(op: Op) -> u64 {
    let (t, a, b) = match op {
        Rule(k) => (0, k, 0),
        FreeRule(i) => (1, i, 0),
        List => (2, 0, 0),
        Append(r, l) => (3, r, l),
        FreeList(i) => (4, i, 0),
        Scanner(l, k) => (5, l, k as u8),
        Delete(i) => (6, i, 0),
        Scan(s, e) => (7, s, e),
        FreeResult(i) => (8, i, 0),
    };
    t << 16 | (a as u64) << 8 | b as u64
}
fn unpack(w: u64) -> Op {
    let (a, b) = ((w >> 8) as u8, w as u8);
    match w >> 16 {
        0 => Rule(a),
        1 => FreeRule(a),
        2 => List,
        3 => Append(a, b),
        4 => FreeList(a),
        5 => Scanner(a, b == 1),
        6 => Delete(a),
        7 => Scan(a, b),
        _ => FreeResult(a),
    }
}
impl Explore<'_> {
    fn go(&self, x: &X, seq: &mut Vec<Op>, m: &Model, depth: usize) {
        if x.stopped() {
            return;
        }
        x.state(0);
        let ops = if depth > 0 { self.lab.ops(m, self.kinds, self.evs, self.lim) } else { vec![] };
        if ops.is_empty() {
            for reverse in [false, true] {
                self.mem[0].store(seq.len() as u64, Relaxed);
                for (w, o) in self.mem[1..].iter().zip(seq.iter()) {
                    w.store(pack(*o), Relaxed);
                }
                let r = guard(|| checked(|| self.lab.exec(seq, reverse))).unwrap_or_else(|p| Err(format!("panic out of a call: {p}")));
                x.trace(1);
                x.sh.transitions.fetch_add(seq.len() as u64, Relaxed);
                if let Err(e) = r {
                    x.violate("sequence", &format!("{seq:?} then release {}", if reverse { "in reverse" } else { "in order" }), json!(e));
                    return;
                }
            }
            x.outcome(&format!("{m:?}"), !m.scanners.is_empty() || seq.iter().any(|o| matches!(o, Scan(..))));
            if m.scanners.len() == 1 && m.results.len() == 1 {
                x.sample(|| json!({"space": x.space, "calls": format!("{seq:?}")}));
            }
            return;
        }
        for op in ops {
            let mut n = m.clone();
            self.lab.step(&mut n, op);
            seq.push(op);
            self.go(x, seq, &n, depth - 1);
            seq.pop();
        }
    }
}
pub fn c24(c: &Ctx) {
    c.assume("memory errors are seen through a checking allocator (release twice, wrong size, writes after release) and through wrong results from poisoned memory; handles passed are valid ones");
    rec();
    let lab = Lab::new();
    let spaces: Vec<(&str, &str, Vec<Op>, Vec<u8>, Vec<u8>, (usize, usize, usize), usize)> = vec![
        ("from nothing", "every legal sequence of 7 (8) calls from an empty state over two valid rules, with up to 2 rules, 2 lists and 2 scanners alive", vec![], vec![0, 1], vec![0], (2, 2, 2), c.q(7, 8)),
        ("failures", "every legal sequence of 6 (7) calls over valid, invalid and malformed rules and malformed events", vec![], vec![0, 2, 3, 4, 5, 7], vec![0, 1], (2, 1, 1), c.q(6, 7)),
        (
            "one scanner",
            "every legal sequence of 5 (7) calls after a rule, a list and a scanner were created",
            vec![Rule(0), List, Append(0, 0), Scanner(0, false)],
            vec![1],
            vec![0, 2, 3],
            (2, 2, 2),
            c.q(5, 7),
        ),
        (
            "two rules",
            "every legal sequence of 4 (6) calls after a scanner with three rules was used",
            vec![Rule(0), Rule(1), List, Append(0, 0), Append(1, 0), Append(0, 0), Scanner(0, true), Scan(0, 0)],
            vec![6],
            vec![0, 1, 2, 3, 4, 5, 6],
            (3, 2, 2),
            c.q(4, 6),
        ),
    ];
    for (name, txt, prefix, kinds, evs, lim, depth) in &spaces {
        // items: the prefix followed by every pair of calls
        let mut items: Vec<(Vec<Op>, Model)> = vec![];
        let mut m0 = Model::default();
        for op in prefix {
            lab.step(&mut m0, *op);
        }
        for a in lab.ops(&m0, kinds, evs, *lim) {
            let mut m1 = m0.clone();
            lab.step(&mut m1, a);
            for b in lab.ops(&m1, kinds, evs, *lim) {
                let mut m2 = m1.clone();
                lab.step(&mut m2, b);
                items.push(([prefix.clone(), vec![a, b]].concat(), m2));
            }
        }
        c.fork_space(name, txt, 600, &items, |x, (seq, m)| {
            let mem = shared_words(64);
            x.child(
                || {
                    let n = mem[0].load(SeqCst) as usize;
                    format!("{:?}", mem[1..=n].iter().map(|w| unpack(w.load(SeqCst))).collect::<Vec<_>>())
                },
                || {
                    std::panic::set_hook(Box::new(|_| {}));
                    warm(&lab);
                    let e = Explore { lab: &lab, kinds, evs, lim: *lim, mem };
                    e.go(x, &mut seq.clone(), m, depth - 2);
                },
            );
        });
    }
    malformed(c, &lab);
    large(c, &lab);
    concurrent(c);
    #[cfg(feature = "internals")]
    panics(c, &lab);
}
/// Events and responses around powers of two: the response is right and is released with the layout it was allocated with.
fn large(c: &Ctx, lab: &Lab) {
    let mut items: Vec<(u8, usize)> = vec![];
    for k in 5..=c.q(17u32, 19) {
        for d in [-1i64, 0, 1] {
            items.push((0, ((1i64 << k) + d) as usize));
        }
    }
    for k in 3..=c.q(11u32, 13) {
        for d in [-1i64, 0, 1] {
            items.push((1, ((1i64 << k) + d) as usize));
            items.push((2, ((1i64 << k) + d) as usize));
        }
    }
    c.fork_space("large results", "texts of 2^k-1, 2^k and 2^k+1 bytes for k = 5..17 (19) around a match, and as many matches or keys for k = 3..11 (13): the result is the right one, and releasing it balances", 120, &items, |x, &(kind, n)| {
        std::panic::set_hook(Box::new(|_| {}));
        warm(lab);
        let t = match kind {
            0 => Tree::M(vec![("m".into(), Tree::S(format!("{}secret", "-".repeat(n.saturating_sub(6)))))]),
            1 => Tree::M(vec![("m".into(), Tree::S("secret ".repeat(n)))]),
            _ => Tree::M((0..n).map(|i| (format!("k{i}"), Tree::S("a secret".into()))).collect()),
        };
        let strs = t.flat();
        let want = expected_response(&RefScanner::new(&[lab.kinds[0].rule.clone().unwrap()], Opts::default()).scan(&strs, &[], Enc::Utf8), &strs).map(norm);
        let mut bytes = vec![];
        encode(&t, &mut bytes);
        x.state(1);
        x.trace(1);
        x.outcome(&(kind, n), true);
        let r = guard(|| {
            checked(|| {
                let r = ffi::rule::create_regex_rule(lab.kinds[0].json.as_ptr());
                let l = ffi::rule::create_rule_list();
                ffi::rule::append_rule_to_list(r, l);
                ffi::rule::free_any_rule(r);
                let (s, _) = create(l, false);
                ffi::rule::free_rule_list(l);
                let res = scan(s, &bytes)?.ok_or("no result")?;
                let again = scan(s, &bytes)?.ok_or("no result")?;
                ffi::delete_scanner::delete_scanner(s);
                for r in [again, res] {
                    let ok = Some(norm(decode(&r.3)?)) == want;
                    free_result(r)?;
                    if !ok {
                        return Err("the result is not the expected one".into());
                    }
                }
                Ok(())
            })
        })
        .unwrap_or_else(|p| Err(format!("panic out of a call: {p}")));
        if let Err(e) = r {
            x.violate("large result", &format!("{} {n}", ["a text of bytes:", "matches in one text:", "keys with a match:"][kind as usize]), json!(e));
        }
    });
}
/// Every short byte string as an event: a result, an empty result or an error, and the scanner still works.
fn malformed(c: &Ctx, lab: &Lab) {
    let alpha: Vec<u8> = vec![0, 1, 2, 3, 4, 255, b's'];
    let mut items: Vec<Vec<u8>> = vec![];
    for a in &alpha {
        for b in &alpha {
            items.push(vec![*a, *b]);
        }
    }
    let n = c.q(6usize, 8);
    c.fork_space("event bytes", "every byte string up to length 6 (8) over tags, lengths and text as an event: never a crash, memory balanced, and a scan afterwards is right", 600, &items, |x, pre| {
        std::panic::set_hook(Box::new(|_| {}));
        warm(lab);
        let seq = [Rule(0), Rule(1), List, Append(0, 0), Append(1, 0), Scanner(0, false)];
        let r: Vec<i64> = vec![ffi::rule::create_regex_rule(lab.kinds[0].json.as_ptr()), ffi::rule::create_regex_rule(lab.kinds[1].json.as_ptr())];
        let l = ffi::rule::create_rule_list();
        r.iter().for_each(|r| ffi::rule::append_rule_to_list(*r, l));
        let (s, _) = create(l, false);
        let want = lab.response(&[0, 1], false, 0);
        let _ = seq;
        let mut stack = vec![pre.clone()];
        while let Some(b) = stack.pop() {
            if x.stopped() {
                return;
            }
            x.state(1);
            x.trace(1);
            let what = std::cell::Cell::new(0u8);
            let r = guard(|| {
                checked(|| {
                    match scan(s, &b) {
                        Ok(Some(r)) => {
                            what.set(1);
                            decode(&r.3)?;
                            free_result(r)?
                        }
                        Ok(None) => what.set(2),
                        Err(_) => {}
                    }
                    Ok(())
                })
            })
            .unwrap_or_else(|p| Err(format!("panic out of scan: {p}")));
            x.outcome(&(what.get(), b.len()), what.get() == 0);
            if let Err(e) = r {
                x.violate("event", &format!("{b:?}"), json!(e));
                return;
            }
            if b.len() == n {
                continue;
            }
            if b.len() == n - 1 {
                let ok = match scan(s, &lab.events[0].0) {
                    Ok(Some(r)) => {
                        let g = decode(&r.3).map(norm);
                        let _ = free_result(r);
                        g == Ok(want.clone().unwrap())
                    }
                    _ => false,
                };
                if !ok {
                    x.violate("afterwards", &format!("{b:?}"), json!("a correct event gave another result after this one"));
                    return;
                }
            }
            for a in &alpha {
                let mut v = b.clone();
                v.push(*a);
                stack.push(v);
            }
        }
    });
}
/// Calls on shared handles from several threads, every schedule within the bound.
fn concurrent(c: &Ctx) {
    #[derive(Clone, Debug)]
    enum P {
        /// create a rule of kind k, append it to the shared list and free it
        Add(u8),
        /// append the shared rule (kind 6)
        AddShared,
        /// scanner from the shared list, scan, delete
        Use,
        /// scan with the shared scanner (rule kind 0)
        ScanShared,
        /// a scanner that fails, then a malformed scan on the shared scanner
        Fail,
    }
    let all = [P::Add(0), P::Add(1), P::AddShared, P::Use, P::ScanShared, P::Fail];
    let mut items: Vec<Vec<usize>> = vec![];
    for a in 0..all.len() {
        for b in a..all.len() {
            items.push(vec![a, b]);
            for d in b..all.len() {
                items.push(vec![a, b, d]);
            }
        }
    }
    let lab: &'static Lab = Box::leak(Box::new(Lab::new()));
    for a in [vec![], vec![0], vec![1], vec![6]] {
        lab.response(&a, false, 0);
    }
    c.fork_space("concurrent", "every pair and triple of six programs calling on a shared list, rule and scanner, every schedule with up to 2 (3) deviations for pairs and 1 (2) for triples", 30, &items, |x, it| {
        std::panic::set_hook(Box::new(|_| {}));
        let label = format!("{:?}", it.iter().map(|i| all[*i].clone()).collect::<Vec<_>>());
        let bound = if it.len() == 2 { c.q(2, 3) } else { c.q(1, 2) };
        crate::c20::schedules(x, &label, bound, 400_000, &|prefix| {
            let list = ffi::rule::create_rule_list();
            let shared_rule = ffi::rule::create_regex_rule(lab.kinds[6].json.as_ptr());
            let own = ffi::rule::create_rule_list();
            let r0 = ffi::rule::create_regex_rule(lab.kinds[0].json.as_ptr());
            ffi::rule::append_rule_to_list(r0, own);
            let (shared, _) = create(own, false);
            let bad: Arc<Mutex<Vec<String>>> = Default::default();
            let sc = move |kinds: &dyn Fn(&Response) -> bool, s: i64| -> Result<(), String> {
                match scan(s, &lab.events[0].0) {
                    Ok(Some(r)) => {
                        let d = decode(&r.3).map(norm)?;
                        free_result(r)?;
                        if kinds(&d) {
                            Ok(())
                        } else {
                            Err(format!("scan returned {d:?}"))
                        }
                    }
                    Ok(None) => {
                        if kinds(&Response::default()) {
                            Ok(())
                        } else {
                            Err("scan found nothing".into())
                        }
                    }
                    Err(e) => Err(format!("scan failed: {e}")),
                }
            };
            // any sequence of distinct added rules is a possible content of the list
            let mut added: Vec<u8> = vec![];
            for i in it {
                match all[*i] {
                    P::Add(k) => added.push(k),
                    P::AddShared => added.push(6),
                    _ => {}
                }
            }
            let perms = arrangements(&added);
            let tasks: Vec<Box<dyn FnOnce() + Send>> = it
                .iter()
                .map(|i| {
                    let (p, bad, perms) = (all[*i].clone(), bad.clone(), perms.clone());
                    Box::new(move || {
                        let r = guard(|| match p {
                            P::Add(k) => {
                                let r = ffi::rule::create_regex_rule(lab.kinds[k as usize].json.as_ptr());
                                ffi::rule::append_rule_to_list(r, list);
                                ffi::rule::free_any_rule(r);
                                Ok(())
                            }
                            P::AddShared => {
                                ffi::rule::append_rule_to_list(shared_rule, list);
                                Ok(())
                            }
                            P::Use => {
                                let (s, e) = create(list, false);
                                if s <= 0 {
                                    return Err(format!("create_scanner: {s} {e:?}"));
                                }
                                let r = sc(&|d| perms.iter().any(|p| lab.response(p, false, 0).unwrap_or_default() == *d), s);
                                ffi::delete_scanner::delete_scanner(s);
                                r
                            }
                            P::ScanShared => sc(&|d| lab.response(&[0], false, 0).unwrap_or_default() == *d, shared),
                            P::Fail => {
                                let l = ffi::rule::create_rule_list();
                                let r = ffi::rule::create_regex_rule(lab.kinds[2].json.as_ptr());
                                ffi::rule::append_rule_to_list(r, l);
                                ffi::rule::free_any_rule(r);
                                let (s, _) = create(l, true);
                                ffi::rule::free_rule_list(l);
                                if s != -2 {
                                    return Err(format!("create_scanner with an invalid regex: {s}"));
                                }
                                match scan(shared, &lab.events[1].0) {
                                    Err(_) => Ok(()),
                                    x => Err(format!("malformed event: {x:?}")),
                                }
                            }
                        })
                        .unwrap_or_else(|p| Err(format!("panic out of a call: {p}")));
                        if let Err(e) = r {
                            bad.lock().unwrap().push(e)
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            let e = sched::run(tasks, prefix);
            let mut bad = bad.lock().unwrap().clone();
            if e.end == End::AllDone {
                // the list holds every rule added, once each
                let (s, er) = create(list, false);
                if s <= 0 {
                    bad.push(format!("create_scanner afterwards: {s} {er:?}"));
                } else {
                    let full = perms.iter().filter(|p| p.len() == added.len()).cloned().collect::<Vec<_>>();
                    if let Err(e) = sc(&|d| full.iter().any(|p| lab.response(p, false, 0).unwrap_or_default() == *d), s) {
                        bad.push(format!("afterwards: {e}"));
                    }
                    ffi::delete_scanner::delete_scanner(s);
                }
                ffi::rule::free_rule_list(list);
                ffi::rule::free_rule_list(own);
                ffi::rule::free_any_rule(shared_rule);
                ffi::rule::free_any_rule(r0);
                ffi::delete_scanner::delete_scanner(shared);
            }
            (e, bad)
        });
    });
}
/// Every ordered selection of the elements.
fn arrangements(v: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        out.extend(arrangements(&rest).into_iter().map(|mut r| {
            r.insert(0, x);
            r
        }));
    }
    out
}
/// Rules of another kind that panic when a scanner is created.
#[cfg(feature = "internals")]
fn panics(c: &Ctx, lab: &Lab) {
    struct Boom(u8);
    impl RuleConfig for Boom {
        fn convert_to_compiled_rule(&self, _: usize, _: Labels) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
            match self.0 {
                0 => panic!("literal message"),
                1 => panic!("formatted {}", self.0),
                2 => panic!("with \0 inside {}", self.0),
                _ => std::panic::panic_any(42),
            }
        }
        fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
            None
        }
    }
    let mut items = vec![];
    for k in 0..4u8 {
        for at in 0..3usize {
            for n in 1..4usize {
                items.push((k, at, n));
            }
        }
    }
    c.fork_space("panicking rules", "a rule that panics with each kind of payload at each position, repeatedly: an error code and message each time, memory balanced, other handles unaffected", 60, &items, |x, (k, at, n)| {
        std::panic::set_hook(Box::new(|_| {}));
        warm(lab);
        let go = || -> Result<(), String> {
            let r0 = ffi::rule::create_regex_rule(lab.kinds[0].json.as_ptr());
            let good = ffi::rule::create_rule_list();
            ffi::rule::append_rule_to_list(r0, good);
            let (s, _) = create(good, false);
            for _ in 0..*n {
                let l = ffi::rule::create_rule_list();
                let dp: ffi::RuleDoublePtr = Arc::new(Arc::new(Boom(*k)) as ffi::RulePtr);
                let b = Arc::into_raw(dp) as usize as i64;
                for i in 0..3 {
                    ffi::rule::append_rule_to_list(if i == *at { b } else { r0 }, l);
                }
                let (h, e) = create(l, false);
                let msg = ["literal message", "formatted 1"].get(*k as usize).copied();
                if h >= 0 || e.is_none() || msg.map_or(false, |m| e.as_deref() != Some(m)) {
                    return Err(format!("create_scanner returned {h} with message {e:?}"));
                }
                ffi::rule::free_rule_list(l);
                ffi::rule::free_any_rule(b);
                for (want, list) in [(true, good), (true, good)] {
                    let (h, e) = create(list, false);
                    if (h > 0) != want {
                        return Err(format!("create_scanner afterwards returned {h} {e:?}"));
                    }
                    ffi::delete_scanner::delete_scanner(h);
                }
                match scan(s, &lab.events[0].0) {
                    Ok(Some(r)) => {
                        let d = decode(&r.3).map(norm);
                        free_result(r)?;
                        if d != Ok(lab.response(&[0], false, 0).unwrap()) {
                            return Err(format!("scan afterwards: {d:?}"));
                        }
                    }
                    o => return Err(format!("scan afterwards: {o:?}")),
                }
            }
            ffi::delete_scanner::delete_scanner(s);
            ffi::rule::free_rule_list(good);
            ffi::rule::free_any_rule(r0);
            Ok(())
        };
        let _ = go();
        let r = guard(|| checked(&go)).unwrap_or_else(|p| Err(format!("panic out of a call: {p}")));
        x.state(*n as u64);
        x.trace(1);
        x.outcome(&(k, at, n), true);
        if let Err(e) = r {
            x.violate("panicking rule", &format!("payload {k} at {at}, {n} times"), json!(e));
        }
    });
}
