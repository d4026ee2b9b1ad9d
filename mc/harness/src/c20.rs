//! C20 concurrency: every schedule within a deviation bound of small multi-threaded programs, each
//! execution in a process of its own, on the implementation with its locks and atomics under a
//! controlled scheduler.
use crate::c19::*;
use crate::common::*;
use crate::core::*;
use crate::forkx::{shared_words, X};
use crate::rec::rec;
use crate::refscan::*;
use dd_sds::*;
use sds_verif_std::sched::{self, End, Point};
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T {
    /// build a configuration into the task's own list
    B(usize),
    /// scan event `e` with own scanner `i`
    S(usize, usize),
    /// drop own scanner `i`
    D(usize),
    /// scan event `e` with shared scanner `k`
    H(usize, usize),
    /// give up the task's reference to shared scanner `k`
    X(usize),
}
pub struct Lab {
    cfgs: Vec<Cfg>,
    /// event and blocked rules
    evs: Vec<(Strs, Vec<usize>)>,
    want: Vec<Vec<Out>>,
}
impl Lab {
    pub fn new() -> Lab {
        Lab::with(configs(), events().into_iter().map(|e| (e, vec![])).collect())
    }
    pub fn with(cfgs: Vec<Cfg>, evs: Vec<(Strs, Vec<usize>)>) -> Lab {
        let want = cfgs
            .iter()
            .map(|c| if c.err.is_some() { vec![] } else { evs.iter().map(|(e, b)| RefScanner::new(&c.rules, c.o).scan(e, b, Enc::Utf8)).collect() })
            .collect();
        Lab { cfgs, evs, want }
    }
    fn build(&self, k: usize) -> Result<Option<Scanner>, String> {
        match (build_cfg(&self.cfgs[k]), self.cfgs[k].err) {
            (Ok(s), None) => Ok(Some(s)),
            (Err(e), Some(w)) if format!("{e:?}") == w.1 => Ok(None),
            (r, w) => Err(format!("building {}: expected {w:?}, observed {:?}", text(&self.cfgs[k]), r.map(|_| ()))),
        }
    }
    fn scan(&self, k: usize, sc: &Scanner, e: usize) -> Result<(), String> {
        let (got, bad) = run_impl::<Utf8Encoding>(sc, &self.evs[e].0, &self.evs[e].1);
        let want = &self.want[k][e];
        if same(&got, want) && bad.is_none() {
            Ok(())
        } else {
            Err(format!("{} on {}: expected {}, observed {} {bad:?}", text(&self.cfgs[k]), case_text(&self.evs[e].0, &self.evs[e].1), show(want), show(&got)))
        }
    }
    fn program(&self, ops: &[T], shared: &mut Vec<Option<(usize, Arc<Scanner>)>>) -> Result<usize, String> {
        let mut own: Vec<(usize, Scanner)> = vec![];
        for op in ops {
            match *op {
                T::B(k) => {
                    if let Some(s) = self.build(k)? {
                        own.push((k, s));
                    }
                }
                T::S(i, e) => self.scan(own[i].0, &own[i].1, e)?,
                T::D(i) => drop(own.remove(i)),
                T::H(k, e) => {
                    let (c, s) = shared[k].as_ref().unwrap();
                    self.scan(*c, s, e)?
                }
                T::X(k) => shared[k] = None,
            }
        }
        Ok(own.len())
    }
}
/// Every execution whose schedule deviates at most `bound` times from running each task to its next
/// blocking point; `run` executes one schedule and reports the problems found.
pub fn schedules(x: &X, label: &str, bound: usize, cap: u64, run: &dyn Fn(&[u16]) -> (sched::Execution, Vec<String>)) {
    let mem = shared_words(1 << 15);
    let mut prefix: Vec<u16> = vec![];
    let mut execs = 0u64;
    let mut again = 0;
    loop {
        mem[1].store(0, SeqCst);
        x.child(
            || format!("{label} schedule {prefix:?}"),
            || {
                let (e, bad) = run(&prefix);
                x.trace(1);
                x.sh.transitions.fetch_add(e.steps as u64, Relaxed);
                if e.end == End::Diverged {
                    // the execution did not follow the recorded one (allocator addresses, hash seeds): try again
                    mem[1].store(u64::MAX, SeqCst);
                    return;
                }
                let trace: Vec<u16> = e.points.iter().map(|p| p.chosen).collect();
                x.outcome(&(label, trace.clone()), e.points.iter().any(|p| p.chosen != 0));
                if e.end != End::AllDone {
                    x.violate("schedule", &format!("{label} schedule {trace:?}"), json!({"execution ended with": format!("{:?}", e.end)}));
                } else if !bad.is_empty() {
                    x.violate("schedule", &format!("{label} schedule {trace:?}"), json!(bad));
                }
                if trace.iter().filter(|t| **t != 0).count() == bound {
                    x.sample(|| json!({"space": x.space, "program": label, "schedule": trace, "steps": e.steps}));
                }
                for (i, p) in e.points.iter().enumerate() {
                    mem[2 + i].store((p.n as u64) << 32 | (p.chosen as u64) << 8 | p.costs as u64, Relaxed);
                }
                mem[0].store(1, SeqCst);
                mem[1].store(e.points.len() as u64 + 1, SeqCst);
            },
        );
        execs += 1;
        x.state(0);
        if x.stopped() {
            break;
        }
        let n = mem[1].load(SeqCst);
        if n == 0 {
            break; // the execution died; reported by child()
        }
        if n == u64::MAX {
            again += 1;
            if again < 20 {
                continue;
            }
            x.sh.capped.fetch_add(1, Relaxed);
            break;
        }
        again = 0;
        let pts: Vec<Point> = (0..n as usize - 1)
            .map(|i| {
                let w = mem[2 + i].load(Relaxed);
                Point { n: (w >> 32) as u16, chosen: (w >> 8) as u16, costs: w & 1 == 1 }
            })
            .collect();
        let cost = |upto: usize| pts[..upto].iter().filter(|p| p.costs && p.chosen != 0).count();
        let next = (0..pts.len()).rev().find(|&i| pts[i].chosen + 1 < pts[i].n && cost(i) + pts[i].costs as usize <= bound);
        match next {
            None => break,
            Some(i) => {
                prefix = pts[..i].iter().map(|p| p.chosen).collect();
                prefix.push(pts[i].chosen + 1);
            }
        }
        if execs >= cap {
            x.sh.capped.fetch_add(1, Relaxed);
            break;
        }
    }
    unsafe {
        libc::munmap(mem.as_ptr() as *mut _, (1 << 15) * 8);
    }
}
fn run_tasks(lab: &'static Lab, shared: &[usize], progs: &[Vec<T>], prefix: &[u16]) -> (sched::Execution, Vec<String>) {
    let bad: Arc<Mutex<Vec<String>>> = Default::default();
    let sh: Vec<Option<(usize, Arc<Scanner>)>> = shared.iter().map(|k| lab.build(*k).unwrap().map(|s| (*k, Arc::new(s)))).collect();
    let tasks: Vec<Box<dyn FnOnce() + Send>> = progs
        .iter()
        .map(|p| {
            let (p, mut sh, bad) = (p.clone(), sh.clone(), bad.clone());
            Box::new(move || {
                let r = guard(|| lab.program(&p, &mut sh));
                let e = match r {
                    Ok(Ok(_)) => guard(move || drop(sh)).err(),
                    Ok(Err(e)) => Some(e),
                    Err(e) => Some(format!("panic: {e}")),
                };
                if let Some(e) = e {
                    bad.lock().unwrap().push(e);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    drop(sh);
    let e = sched::run(tasks, prefix);
    let mut bad = bad.lock().unwrap().clone();
    if e.end == End::AllDone && bad.is_empty() {
        // afterwards, sequentially: everything still works and nothing is left alive
        let after = guard(|| -> Result<(), String> {
            let mut ks: Vec<usize> = progs.iter().flatten().filter_map(|o| if let T::B(k) = o { Some(*k) } else { None }).chain(shared.iter().copied()).collect();
            ks.sort();
            ks.dedup();
            for k in ks {
                if let Some(s) = lab.build(k)? {
                    for e in 0..lab.evs.len() {
                        lab.scan(k, &s, e)?;
                    }
                }
            }
            Ok(())
        });
        match after {
            Ok(Ok(())) => {}
            Ok(Err(m)) => bad.push(format!("afterwards: {m}")),
            Err(m) => bad.push(format!("afterwards: panic: {m}")),
        }
    }
    (e, bad)
}
fn rich_configs() -> Vec<Cfg> {
    let ex = |p: &str| Scope::Exclude(vec![path(p)]);
    let base = Cfg { rules: vec![], o: Opts::default(), labels: vec![("s", "1")], err: None };
    vec![
        Cfg { rules: vec![rule("[ab]").scope(ex("ex")).match_action(redact("#")), rule("b+").scope(ex("in")).match_action(MatchAction::Hash)], ..base.clone() },
        Cfg {
            rules: vec![
                rule("[ab]").scope(Scope::Include { include: vec![path("l.k"), path("in")], exclude: vec![path("l.ex"), path("ex")] }).match_action(partial(true, 1)),
                rule("a").scope(ex("ex")).proximity_keywords(kw(4, &["k"], &[])),
                rule("[0-9]{2}").validator(SecondaryValidator::LuhnChecksum).scope(ex("ex")).match_action(redact("")),
                rule("b").proximity_keywords(kw(3, &[], &["k"])).match_action(redact("BB")),
            ],
            o: Opts { wild: true, kw_paths: true, ..Opts::default() },
            ..base
        },
    ]
}
fn rich_events() -> Vec<(Strs, Vec<usize>)> {
    vec![
        (strs(&[("in", "a b")]), vec![]),
        (strs(&[("ex", "a 18"), ("in", "k a b")]), vec![]),
        (strs(&[("in", "a 18 k b"), ("ex", "b")]), vec![]),
        (strs(&[("ex", "a b bb"), ("in", "bb a b")]), vec![0]),
        (strs(&[("l.0.k", "a b 18"), ("l.1.ex", "a"), ("k", "a 17")]), vec![]),
        (strs(&[("in", "a b 18"), ("l.k", "b")]), vec![1, 0]),
        (strs(&[("ex", "-")]), vec![]),
    ]
}
fn lab() -> &'static Lab {
    Box::leak(Box::new(Lab::new()))
}
pub fn c20(c: &Ctx) {
    c.assume("sequentially consistent memory; scheduling points at every lock, atomic, pool and gauge operation and between the strings of an event (for each task and object, before its first 12 operations)");
    rec();
    let lab = lab();
    use T::*;
    let progs: Vec<Vec<T>> = vec![
        vec![B(0), S(0, 0), D(0)],
        vec![B(0), D(0), B(0), S(0, 0)],
        vec![H(0, 0)],
        vec![H(0, 0), H(0, 3)],
        vec![H(0, 3), X(0)],
        vec![X(0), B(2), S(0, 0)],
        vec![B(2), S(0, 0)],
        vec![B(12), B(0)],
        vec![B(9), S(0, 2), D(0)],
        vec![B(7), D(0)],
    ];
    let mut items = vec![];
    for a in 0..progs.len() {
        for b in a..progs.len() {
            items.push(vec![a, b]);
        }
    }
    let bound = c.q(2, 3);
    let name = |v: &[usize]| v.iter().map(|i| format!("{:?}", progs[*i])).collect::<Vec<_>>().join(" || ");
    c.fork_space("pairs", "every pair of ten programs (build, scan own or shared scanners, drop, failing builds), every schedule with up to 2 (3) deviations, from a fresh process", 30, &items, |x, it| {
        schedules(x, &name(it), bound, 400_000, &|p| run_tasks(lab, &[2], &it.iter().map(|i| progs[*i].clone()).collect::<Vec<_>>(), p));
    });
    let mut items = vec![];
    for a in 0..progs.len() {
        for b in a..progs.len() {
            for d in b..progs.len() {
                items.push(vec![a, b, d]);
            }
        }
    }
    c.fork_space("triples", "every triple of the programs, every schedule with up to 1 deviation (2 for triples of the first six in thorough)", 30, &items, |x, it| {
        schedules(x, &name(it), if it[2] < 6 { c.q(1, 2) } else { 1 }, 400_000, &|p| run_tasks(lab, &[2], &it.iter().map(|i| progs[*i].clone()).collect::<Vec<_>>(), p));
    });
    // one scanner with every feature, used for different events at once
    let rich: &'static Lab = Box::leak(Box::new(Lab::with(rich_configs(), rich_events())));
    let n = rich.evs.len();
    let mut items = vec![];
    for k in 0..rich.cfgs.len() {
        for a in 0..n {
            for b in a..n {
                items.push((k, vec![vec![H(0, a)], vec![H(0, b)]]));
                if (a, b) != (0, 0) && a + b < 5 {
                    items.push((k, vec![vec![H(0, a), H(0, b)], vec![H(0, b)]]));
                    items.push((k, vec![vec![H(0, b), H(0, a)], vec![H(0, a), H(0, b)]]));
                }
            }
        }
    }
    c.fork_space("shared scanner", "one scanner (excluded scopes with multi-pass, wildcards, included, excluded and path keywords, validator, all actions, blocked rules) scanning every pair of seven events at once, and short sequences of them, every schedule with up to 2 (3) deviations", 30, &items, |x, (k, ps)| {
        schedules(x, &format!("{} {ps:?}", text(&rich.cfgs[*k])), bound, 400_000, &|p| run_tasks(rich, &[*k], ps, p));
    });
    // tiny programs without a bound
    let tiny: Vec<Vec<T>> = vec![vec![B(0)], vec![B(0), D(0)], vec![H(0, 1)], vec![X(0)], vec![B(12)]];
    let mut items = vec![];
    for a in 0..tiny.len() {
        for b in a..tiny.len() {
            items.push((vec![a, b], 0usize));
            items.push((vec![a, b], 999));
            items.push((vec![a, b], 998));
        }
    }
    c.fork_space("unbounded", "every pair of five tiny programs, every schedule without bound on deviations, from a fresh store and with a clean-up of the store due at the first or second insertion", 30, &items, |x, (it, pre)| {
        churn(0, *pre);
        let l = format!("(after {pre} other patterns) {}", it.iter().map(|i| format!("{:?}", tiny[*i])).collect::<Vec<_>>().join(" || "));
        schedules(x, &l, 1000, 400_000, &|p| run_tasks(lab, &[0], &it.iter().map(|i| tiny[*i].clone()).collect::<Vec<_>>(), p));
    });
    // a clean-up of the store in the middle
    let gp = [0usize, 1, 5, 6, 8];
    let mut items = vec![];
    for a in 0..gp.len() {
        for b in a..gp.len() {
            for off in 1..c.q(7usize, 11) {
                items.push((vec![gp[a], gp[b]], off));
            }
        }
    }
    c.fork_space("clean-up", "pairs of building programs with the clean-up of the store due after 1..6 (10) insertions, up to 2 deviations", 60, &items, |x, (it, off)| {
        churn(0, 1000 - off);
        schedules(x, &format!("({} insertions before a clean-up) {}", off, name(it)), 2, 400_000, &|p| run_tasks(lab, &[2], &it.iter().map(|i| progs[*i].clone()).collect::<Vec<_>>(), p));
    });
}
/// C21: the gauges once nothing runs any more.
pub fn gauges(c: &Ctx) {
    rec();
    let lab = lab();
    use T::*;
    let progs: Vec<Vec<T>> = vec![vec![B(0)], vec![B(0), D(0)], vec![B(6), B(12)], vec![X(0)], vec![B(2), D(0), B(2)]];
    let mut items = vec![];
    for a in 0..progs.len() {
        for b in a..progs.len() {
            items.push(vec![a, b]);
            for d in b..progs.len() {
                items.push(vec![a, b, d]);
            }
        }
    }
    c.fork_space("concurrent gauges", "every pair and triple of five programs that build and drop scanners, every schedule with up to 2 (4) deviations for pairs, 1 (2) for triples: counters and gauges once all are done", 30, &items, |x, it| {
        let label = it.iter().map(|i| format!("{:?}", progs[*i])).collect::<Vec<_>>().join(" || ");
        let bound = if it.len() == 2 { c.q(2, 4) } else { c.q(1, 2) };
        schedules(x, &label, bound, 400_000, &|p| {
            let sh = Arc::new(lab.build(0).unwrap().unwrap());
            let kept: Arc<Mutex<Vec<Scanner>>> = Default::default();
            let built = Arc::new(AtomicU64::new(1));
            let dropped = Arc::new(AtomicU64::new(0));
            let last = it.iter().any(|i| progs[*i].contains(&X(0)));
            let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
            for i in it {
                let (p, k, b, d) = (progs[*i].clone(), kept.clone(), built.clone(), dropped.clone());
                let mut sh = Some(sh.clone());
                if !p.contains(&X(0)) {
                    sh = None;
                }
                tasks.push(Box::new(move || {
                    let mut own = vec![];
                    for op in p {
                        match op {
                            B(i) => {
                                if let Ok(s) = build_cfg(&lab.cfgs[i]) {
                                    own.push(s);
                                    b.fetch_add(1, SeqCst);
                                }
                            }
                            D(i) => {
                                drop(own.remove(i));
                                d.fetch_add(1, SeqCst);
                            }
                            X(_) => drop(sh.take()),
                            _ => {}
                        }
                    }
                    k.lock().unwrap().extend(own);
                }));
            }
            let keep = if last { None } else { Some(sh.clone()) };
            drop(sh);
            let e = sched::run(tasks, p);
            if last {
                dropped.fetch_add(1, SeqCst);
            }
            let mut bad = vec![];
            if e.end == End::AllDone {
                let (b, d) = (built.load(SeqCst) as i64, dropped.load(SeqCst) as i64);
                for (n, w) in [("scanner.creations", b), ("scanner.deletions", d), ("scanner.total_count", b - d)] {
                    if rec().get(n) != w {
                        bad.push(format!("{n}: expected {w}, observed {}", rec().get(n)));
                    }
                }
                let n = rec().get("scanner.total_regexes");
                let live = b - d;
                if n < (live > 0) as i64 || n > 5 {
                    bad.push(format!("scanner.total_regexes: {n} with {live} scanners alive and at most five patterns used"));
                }
                if rec().low("scanner.total_regex_cache_size") < 0 {
                    bad.push("scanner.total_regex_cache_size went below zero".into());
                }
            }
            std::mem::forget(keep);
            std::mem::forget(kept);
            (e, bad)
        });
    });
}
