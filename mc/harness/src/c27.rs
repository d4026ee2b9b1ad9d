//! C27: rule types supplied by the user.
use crate::common::*;
use crate::core::*;
use crate::refscan::*;
use ahash::AHashSet;
use dd_sds::*;
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::Arc;

/// What a custom rule saw when it was called.
#[derive(Clone, Debug)]
struct Call {
    rule: usize,
    kind: usize,
    content: String,
    path: String,
    excluded: bool,
    data: u64,
    data_labels: String,
    data_before: Vec<usize>,
    cache: u64,
    cache_before: Vec<(usize, String)>,
    config: u64,
    config_rules: Vec<usize>,
    kw_paths: bool,
}
#[derive(Default)]
struct Log {
    next: u64,
    calls: Vec<Call>,
    dropped: BTreeMap<usize, u64>,
    created: Vec<(usize, String)>,
}
thread_local! {
    static LOG: RefCell<Log> = Default::default();
}
fn fresh() -> u64 {
    LOG.with(|l| {
        l.borrow_mut().next += 1;
        l.borrow().next
    })
}
fn labels_text(l: &Labels) -> String {
    serde_json::to_string(l).unwrap()
}
// which custom kinds share what: data 0,1 | 2; cache 0 | 1,2; configuration 0,2 | 1
struct Data<const N: usize> {
    id: u64,
    labels: String,
    seen: Vec<usize>,
}
struct Cache<const N: usize> {
    id: u64,
    seen: Vec<(usize, String)>,
}
struct Config<const N: usize> {
    id: u64,
    rules: Vec<usize>,
}
const DATA: [usize; 3] = [0, 0, 1];
const CACHE: [usize; 3] = [0, 1, 1];
const CONFIG: [usize; 3] = [0, 1, 0];

/// kinds 0-2 are the custom ones, 3 is the regex rule
#[derive(Clone, Debug)]
struct Spec {
    kind: usize,
    optin: bool,
    rule: RegexRuleConfig,
}
struct Compiled<const K: usize> {
    index: usize,
    s: Spec,
}
macro_rules! custom {
    ($k:literal, $d:literal, $c:literal, $g:literal, $($optin:tt)*) => {
        impl CompiledRule for Compiled<$k> {
            type GroupData = Data<$d>;
            type GroupConfig = Config<$g>;
            type RuleScanCache = Cache<$c>;
            fn create_group_data(labels: &Labels) -> Data<$d> {
                Data { id: fresh(), labels: labels_text(labels), seen: vec![] }
            }
            fn create_group_config() -> Config<$g> {
                Config { id: fresh(), rules: vec![] }
            }
            fn create_rule_scan_cache() -> Cache<$c> {
                Cache { id: fresh(), seen: vec![] }
            }
            fn get_match_action(&self) -> &MatchAction {
                &self.s.rule.match_action
            }
            fn get_scope(&self) -> &Scope {
                &self.s.rule.scope
            }
            fn get_string_matches(
                &self,
                content: &str,
                path: &Path,
                _caches: &mut RegexCaches,
                data: &mut Data<$d>,
                config: &Config<$g>,
                cache: &mut Cache<$c>,
                exclusion: &ExclusionCheck<'_>,
                excluded_matches: &mut AHashSet<String>,
                emitter: &mut dyn MatchEmitter,
                _true_positive: &[usize],
                kw_paths: bool,
            ) {
                let excluded = exclusion.is_excluded(self.index);
                let call = Call {
                    rule: self.index,
                    kind: $k,
                    content: content.to_string(),
                    path: path_key(path),
                    excluded,
                    data: data.id,
                    data_labels: data.labels.clone(),
                    data_before: data.seen.clone(),
                    cache: cache.id,
                    cache_before: cache.seen.clone(),
                    config: config.id,
                    config_rules: config.rules.clone(),
                    kw_paths,
                };
                data.seen.push(self.index);
                cache.seen.push((self.index, path_key(path)));
                LOG.with(|l| l.borrow_mut().calls.push(call));
                user_point();
                // kind 1 reports its matches from the end
                let mut found: Vec<(usize, &str)> = content.match_indices(&self.s.rule.pattern).collect();
                if $k == 1 {
                    found.reverse();
                }
                for (a, t) in found {
                    if excluded {
                        excluded_matches.insert(t.to_string());
                    } else {
                        emitter.emit(StringMatch { start: a, end: a + t.len() });
                    }
                }
            }
            $($optin)*
            fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
                self.s.rule.match_validation_type.as_ref()
            }
            fn get_internal_match_validation_type(&self) -> Option<&InternalMatchValidationType> {
                None
            }
            fn process_scanner_config(&self, c: &mut Config<$g>) {
                c.rules.push(self.index);
            }
        }
    };
}
custom!(0, 0, 0, 0, fn should_exclude_multipass_v0(&self) -> bool {
                self.s.optin
            }
            fn on_excluded_match_multipass_v0(&self) {
                LOG.with(|l| *l.borrow_mut().dropped.entry(self.index).or_default() += 1);
            });
custom!(1, 0, 1, 1, fn should_exclude_multipass_v0(&self) -> bool {
                self.s.optin
            }
            fn on_excluded_match_multipass_v0(&self) {
                LOG.with(|l| *l.borrow_mut().dropped.entry(self.index).or_default() += 1);
            });
// this one leaves the optional methods at their defaults
custom!(2, 1, 1, 0,);
impl RuleConfig for Spec {
    fn convert_to_compiled_rule(&self, index: usize, labels: Labels) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
        LOG.with(|l| l.borrow_mut().created.push((index, labels_text(&labels))));
        let s = self.clone();
        Ok(match self.kind {
            0 => Box::new(Compiled::<0> { index, s }),
            1 => Box::new(Compiled::<1> { index, s }),
            _ => Box::new(Compiled::<2> { index, s }),
        })
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
        self.rule.match_validation_type.as_ref()
    }
}
fn make(specs: &[Spec], o: Opts, labels: &Labels) -> Result<Scanner, CreateScannerError> {
    let v: Vec<Arc<dyn RuleConfig>> = specs.iter().map(|s| if s.kind == 3 { s.rule.build() } else { Arc::new(s.clone()) as Arc<dyn RuleConfig> }).collect();
    Scanner::builder(&v).with_multipass_v0(o.multipass).with_keywords_should_match_event_paths(o.kw_paths).with_implicit_wildcard_indexes_for_scopes(o.wild).labels(labels.clone()).build()
}
/// One group per (scan or scanner, ...) key, and no key has two groups.
fn partition<'a, K: Ord + Clone + std::fmt::Debug>(calls: impl Iterator<Item = (u64, K)> + 'a) -> Option<String> {
    let mut by_id: BTreeMap<u64, K> = BTreeMap::new();
    let mut by_key: BTreeMap<K, u64> = BTreeMap::new();
    for (id, k) in calls {
        if *by_id.entry(id).or_insert(k.clone()) != k {
            return Some(format!("one instance serves {:?} and {k:?}", by_id[&id]));
        }
        if *by_key.entry(k.clone()).or_insert(id) != id {
            return Some(format!("two instances for {k:?}"));
        }
    }
    None
}
/// Scans the events one after the other with two scanners of the same rules, alternating.
fn drive(w: &mut Worker, specs: &[Spec], o: Opts, labels: &Labels, events: &[&Strs], blocked: &[usize]) -> bool {
    let case = format!("{} blocked={blocked:?}", events.iter().map(|e| case_text(e, &[])).collect::<Vec<_>>().join(" | "));
    let spec_rules: Vec<RegexRuleConfig> = specs.iter().map(|s| s.rule.clone()).collect();
    let mut rf = RefScanner::new(&spec_rules, o);
    rf.optin = specs.iter().map(|s| s.kind == 3 || s.optin).collect();
    let steps = events.iter().map(|e| e.len() as u64).sum::<u64>() + 1;
    let Some(r) = w.run(&case, steps, || {
        LOG.with(|l| *l.borrow_mut() = Log::default());
        let scanners = [make(specs, o, labels).map_err(|e| format!("{e:?}"))?, make(specs, o, labels).map_err(|e| format!("{e:?}"))?];
        let mut outs = vec![];
        // (scanner, scan number) of each call
        let mut marks = vec![];
        for (i, e) in events.iter().enumerate() {
            let from = LOG.with(|l| std::mem::take(&mut l.borrow_mut().dropped));
            debug_assert!(from.is_empty());
            let (out, bad) = run_enc(&scanners[i % 2], e, blocked, Enc::Utf8);
            let d = LOG.with(|l| std::mem::take(&mut l.borrow_mut().dropped));
            let n = LOG.with(|l| l.borrow().calls.len());
            while marks.len() < n {
                marks.push((i % 2, i));
            }
            outs.push((out, bad, d));
        }
        let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        Ok::<_, String>((outs, marks, log))
    }) else {
        return false;
    };
    let (outs, marks, log) = match r {
        Ok(x) => x,
        Err(e) => {
            w.violate("build", json!({"case": case, "error": e}));
            return false;
        }
    };
    let fail = |w: &mut Worker, what: &str, d: serde_json::Value| {
        w.violate("custom rule", json!({"case": case, "what": what, "detail": d}));
        false
    };
    let custom: Vec<usize> = (0..specs.len()).filter(|i| specs[*i].kind < 3).collect();
    let mut want: Vec<(usize, String)> = (0..2).flat_map(|_| custom.iter().map(|i| (*i, labels_text(labels)))).collect();
    let mut got = log.created.clone();
    want.sort();
    got.sort();
    if got != want {
        return fail(w, "each rule is compiled once per scanner, with its index and the scanner's labels", json!(log.created));
    }
    for (i, e) in events.iter().enumerate() {
        let want = rf.scan(e, blocked, Enc::Utf8);
        let (got, bad, dropped) = &outs[i];
        w.outcome(&want, !want.matches.is_empty());
        if !same(got, &want) || bad.is_some() {
            return fail(w, "result", json!({"scan": i, "expected": show(&want), "observed": show(got), "protocol": bad}));
        }
        let wd: BTreeMap<usize, u64> = custom.iter().filter(|r| specs[**r].kind < 2 && want.fp_multi[**r] > 0).map(|r| (*r, want.fp_multi[*r])).collect();
        if *dropped != wd {
            return fail(w, "calls of on_excluded_match", json!({"scan": i, "expected": wd, "observed": dropped}));
        }
        let mut wc: Vec<(usize, String, String, bool)> = vec![];
        for (p, s) in e.iter() {
            for r in &custom {
                let (scan, excl) = scope_of(p, &specs[*r].rule.scope, o.wild);
                if scan && !blocked.contains(r) {
                    wc.push((*r, path_key(p), s.clone(), excl));
                }
            }
        }
        let mut gc: Vec<_> = log.calls.iter().zip(&marks).filter(|(_, m)| m.1 == i).map(|(c, _)| (c.rule, c.path.clone(), c.content.clone(), c.excluded)).collect();
        wc.sort();
        gc.sort();
        if wc != gc {
            return fail(w, "strings given to the rules", json!({"scan": i, "expected": wc, "observed": gc}));
        }
        if got.matches.len() > 1 && w.want_sample() {
            let c = w.cfg_text().to_string();
            w.ctx.sample(json!({"space": w.space, "config": c, "case": case, "result": show(got)}));
        }
    }
    let calls = || log.calls.iter().zip(&marks);
    if let Some(e) = partition(calls().map(|(c, m)| (c.data, (m.1, c.path.clone(), DATA[c.kind])))) {
        return fail(w, "group data is created once per string", json!(e));
    }
    if let Some(e) = partition(calls().map(|(c, m)| (c.cache, (m.1, CACHE[c.kind])))) {
        return fail(w, "the rule cache is created once per scan", json!(e));
    }
    if let Some(e) = partition(calls().map(|(c, m)| (c.config, (m.0, CONFIG[c.kind])))) {
        return fail(w, "the configuration is created once per scanner", json!(e));
    }
    for (n, (c, m)) in calls().enumerate() {
        let before = |f: &dyn Fn(&Call) -> bool| log.calls[..n].iter().zip(&marks).filter(|(x, y)| y.1 == m.1 && f(x)).map(|(x, _)| (x.rule, x.path.clone())).collect::<Vec<_>>();
        let d: Vec<usize> = before(&|x| x.path == c.path && DATA[x.kind] == DATA[c.kind]).into_iter().map(|x| x.0).collect();
        if c.data_before != d || c.data_labels != labels_text(labels) {
            return fail(w, "what rules put in the group data is seen by the later ones of the same string", json!({"call": format!("{c:?}"), "expected": d}));
        }
        let k = before(&|x| CACHE[x.kind] == CACHE[c.kind]);
        if c.cache_before != k {
            return fail(w, "what rules put in the cache is seen by the later ones of the same scan", json!({"call": format!("{c:?}"), "expected": k}));
        }
        let g: Vec<usize> = custom.iter().copied().filter(|r| CONFIG[specs[*r].kind] == CONFIG[c.kind]).collect();
        let mut seen = c.config_rules.clone();
        seen.sort();
        if seen != g {
            return fail(w, "every rule of the group has processed the configuration once", json!({"call": format!("{c:?}"), "expected": g}));
        }
        if c.kw_paths != o.kw_paths {
            return fail(w, "the path keyword option is passed on", json!(format!("{c:?}")));
        }
    }
    true
}
pub fn c27(c: &Ctx) {
    c.assume("custom rules keep to the contract: they emit non-empty matches on character boundaries, none in strings they are told are excluded");
    // rule: kind x pattern/action x scope
    let scopes = [Scope::all(), Scope::include(vec![path("a")]), Scope::exclude(vec![path("x")]), Scope::include_and_exclude(vec![path("a"), path("x")], vec![path("a.b")])];
    let bodies: Vec<(&str, MatchAction)> = vec![("é1", redact("[é]")), ("1", MatchAction::None), ("12", partial(false, 1)), ("é", redact(""))];
    let mut menu = vec![];
    for kind in 0..4 {
        for (n, (p, a)) in bodies.iter().enumerate() {
            for (m, sc) in scopes.iter().enumerate() {
                // in pairs and triples, every kind with every scope and every body, not their whole product
                let optin = kind != 2 && (n + m + kind) % 2 == 0;
                let mut rule = rule(p).match_action(a.clone()).scope(sc.clone());
                if kind == 2 && n == 1 {
                    rule = rule.match_validation_type(MatchValidationType::Aws(AwsType::AwsId));
                }
                menu.push((n == m || kind == 0 || (n + m) % 4 == 3, Spec { kind, optin, rule }));
            }
        }
    }
    let small: Vec<Spec> = menu.iter().filter(|x| x.0).map(|x| x.1.clone()).collect();
    let menu: Vec<Spec> = menu.into_iter().map(|x| x.1).collect();
    let texts = ["é12 1", "1é1", "xé12é1"];
    let mut events: Vec<Strs> = vec![];
    for (i, t) in texts.iter().enumerate() {
        events.push(strs(&[("", t)]));
        for u in &texts[..] {
            events.push(strs(&[("a", t), ("x", u)]));
            events.push(strs(&[("x", u), ("a.b", t), ("a.c", texts[(i + 1) % 3])]));
        }
    }
    events.push(strs(&[("a.b.c.d", "é12 1"), ("a.b.c.e", "1é1"), ("a.b.f", "1"), ("a.g.0.h.1.i", "1"), ("a.g.0.h.1.j", "12"), ("x.b.c.d.e", "1"), ("x.y", "1")]));
    events.push(strs(&[("a.0", "1"), ("a.1", "1"), ("b", "1")]));
    let seqs: Vec<Vec<usize>> = (0..events.len()).map(|i| vec![i]).chain((0..events.len()).step_by(3).flat_map(|i| [vec![i, (i + 1) % 4, i], vec![i, i, (i * 5 + 2) % 7, i]])).collect();
    let labels = [Labels::empty(), Labels::new(&[("team", "t1".to_string()), ("k", "v".to_string())])];
    let opts = [Opts::default(), Opts { multipass: false, ..Opts::default() }, Opts { kw_paths: true, wild: true, ..Opts::default() }];
    let run = |w: &mut Worker, specs: &[Spec], deep: bool| {
        for (oi, o) in opts.iter().enumerate() {
            let l = &labels[oi % 2];
            w.config(format!("{} {o:?} labels={}", specs.iter().map(|s| format!("kind {} opt-in {} {}", s.kind, s.optin, rules_text(&[s.rule.clone()], &Opts::default()))).collect::<Vec<_>>().join("; "), labels_text(l)));
            for q in &seqs {
                let ev: Vec<&Strs> = q.iter().map(|i| &events[*i]).collect();
                if !drive(w, specs, *o, l, &ev, &[]) || w.stopped() {
                    return;
                }
                if deep {
                    for b in 0..specs.len() {
                        if !drive(w, specs, *o, l, &ev, &[b, 9]) || w.stopped() {
                            return;
                        }
                    }
                }
            }
        }
    };
    c.space("one rule", "every custom and regex rule alone x options x labels x sequences of up to four scans by two scanners x blocked rules", &menu, |w, s| run(w, &[s.clone()], true));
    let pairs: Vec<(usize, usize)> = (0..menu.len()).flat_map(|i| (0..menu.len()).map(move |j| (i, j))).filter(|(i, j)| c.q((i + j) % 3 == 0, true) && (menu[*i].kind < 3 || menu[*j].kind < 3)).collect();
    c.space("two rules", "pairs of rules (every third in the quick tier)", &pairs, |w, (i, j)| run(w, &[menu[*i].clone(), menu[*j].clone()], false));
    let n = small.len();
    let triples: Vec<[usize; 3]> = (0..n).flat_map(|i| (0..n).flat_map(move |j| (0..n).map(move |k| [i, j, k]))).filter(|[i, j, k]| (i * 7 + j * 3 + k) % c.q(37, 3) == 0).collect();
    c.space("three rules", "triples of rules, a fixed fraction of the product", &triples, |w, t| run(w, &t.map(|i| small[i].clone()), false));
    inside(c, &small);
}
/// The user's code (an event or a rule) scans, builds or panics in the middle of a scan.
fn inside(c: &Ctx, menu: &[Spec]) {
    let evs = [
        strs(&[("", "é12 1 x")]),
        strs(&[("a", "é12 1"), ("x", "1é1"), ("x.y", "12 é1")]),
        strs(&[("a.b", "é1"), ("a.c.0", "xé12é1"), ("x", "é1 1"), ("z", "1")]),
    ];
    let n = menu.len();
    let mut items: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
    items.extend((0..n).flat_map(|i| (0..n).filter(move |j| (i * 5 + j) % 4 == 0).map(move |j| vec![i, j])));
    items.push((0..n).collect());
    c.space("inside a scan", "one to all rules x three events x every call the scan makes into the user's code (before and after each string, rule calls, before and after mutations) x what that call does: a scan of each event by the same or another scanner, building and dropping a scanner, a panic; results of the outer, inner and later scans", &items, |w, ix| {
        let specs: Vec<Spec> = ix.iter().map(|i| menu[*i].clone()).collect();
        let rules: Vec<RegexRuleConfig> = specs.iter().map(|s| s.rule.clone()).collect();
        let l = Labels::empty();
        let o = Opts::default();
        w.config(format!("{}", specs.iter().map(|s| format!("kind {} opt-in {} {}", s.kind, s.optin, rules_text(&[s.rule.clone()], &Opts::default()))).collect::<Vec<_>>().join("; ")));
        let Some(Ok(scs)) = w.run("(build)", 2, || Ok::<_, CreateScannerError>([std::rc::Rc::new(make(&specs, o, &l)?), std::rc::Rc::new(build(&[rule("é+").match_action(redact("<é>")), rule("[1x] ?").scope(Scope::exclude(vec![path("x")]))], o)?)])) else { return };
        let mut rf = RefScanner::new(&rules, o);
        rf.optin = specs.iter().map(|s| s.kind == 3 || s.optin).collect();
        let rf2 = RefScanner::new(&[rule("é+").match_action(redact("<é>")), rule("[1x] ?").scope(Scope::exclude(vec![path("x")]))], o);
        let want: Vec<[Out; 2]> = evs.iter().map(|e| [rf.scan(e, &[], Enc::Utf8), rf2.scan(e, &[], Enc::Utf8)]).collect();
        for (ei, e) in evs.iter().enumerate() {
            // 0-5: scan of event k % 3 by scanner k / 3; 6: build and drop; 7: panic
            for act in 0..8usize {
                for point in 0.. {
                    let case = format!("{} act {act} at point {point}", case_text(e, &[]));
                    let seen = std::rc::Rc::new(RefCell::new(None));
                    let does: std::rc::Rc<dyn Fn()> = {
                        let (scs, evs, seen) = (scs.clone(), evs.clone(), seen.clone());
                        std::rc::Rc::new(move || match act {
                            0..6 => *seen.borrow_mut() = Some(run_enc(&scs[act / 3], &evs[act % 3], &[], Enc::Utf8)),
                            6 => {
                                let s = build(&[rule("é1{1,3}"), rule("in[s]ide").proximity_keywords(kw(5, &["z"], &["y"]))], Opts::default());
                                *seen.borrow_mut() = s.ok().map(|s| run_enc(&s, &evs[0], &[1], Enc::Utf8));
                            }
                            _ => panic!("of the user"),
                        })
                    };
                    let Some((r, reached)) = w.run(&case, 2 * e.len() as u64, || at_point(point, does.clone(), || guard(|| run_enc(&scs[0], e, &[], Enc::Utf8)))) else { return };
                    if !reached {
                        break;
                    }
                    let ok = match (&r, act) {
                        (Ok((out, bad)), 0..7) => same(out, &want[ei][0]) && bad.is_none(),
                        (Err(p), 7) => p.contains("of the user"),
                        _ => false,
                    };
                    if !ok {
                        return w.violate("outer", json!({"case": case, "expected": show(&want[ei][0]), "observed": format!("{r:?}")}));
                    }
                    let inner = seen.borrow();
                    let ok = match (&*inner, act) {
                        (Some((out, bad)), 0..6) => same(out, &want[act % 3][act / 3]) && bad.is_none(),
                        (Some((out, _)), 6) => out.matches.iter().map(|m| (m.start, m.end)).collect::<Vec<_>>() == [(0, 3)],
                        (None, 7) => true,
                        _ => false,
                    };
                    w.outcome(&(act, point, ei), act < 7 && !want[ei][0].matches.is_empty());
                    if !ok {
                        return w.violate("inner", json!({"case": case, "observed": format!("{inner:?}")}));
                    }
                    // afterwards
                    for (k, e) in evs.iter().enumerate().filter(|x| act == 7 || x.0 == ei) {
                        for s in 0..2 {
                            let Some((out, bad)) = w.run(&format!("after {case}: {} by {s}", case_text(e, &[])), 1, || run_enc(&scs[s], e, &[], Enc::Utf8)) else { return };
                            if !same(&out, &want[k][s]) || bad.is_some() {
                                return w.violate("later", json!({"case": case, "later": case_text(e, &[]), "expected": show(&want[k][s]), "observed": show(&out)}));
                            }
                        }
                    }
                    if w.stopped() {
                        return;
                    }
                }
            }
        }
    });
}
