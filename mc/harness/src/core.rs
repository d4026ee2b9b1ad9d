//! Exploration driver: parallel workers over the items (configurations) of a space, counters,
//! violation recording, hang / crash / memory detection, evidence.
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

// ---------------------------------------------------------------- allocator
pub struct CountAlloc;
thread_local! {
    static NET: Cell<i64> = const { Cell::new(0) };
    static ACT: Cell<bool> = const { Cell::new(false) };
}
pub static TRACK_LIVE: AtomicBool = AtomicBool::new(false);
pub static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
pub static LIVE_BLOCKS: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
const CASE_MEM_CAP: i64 = 2 << 30;

fn account(delta: i64, blocks: i64) {
    let _ = NET.try_with(|n| {
        let v = n.get() + delta;
        n.set(v);
        if v > CASE_MEM_CAP && ACT.with(|a| a.get()) {
            // memory exhausted inside one case: die in a way the wrapper reports with the case
            unsafe {
                let m = b"MEMCAP\n";
                libc::write(2, m.as_ptr() as *const _, m.len());
                libc::abort()
            }
        }
    });
    if TRACK_LIVE.load(Relaxed) {
        LIVE.fetch_add(delta, Relaxed);
        LIVE_BLOCKS.fetch_add(blocks, Relaxed);
    }
}
// Memory checking (C24): every block carries a header; freeing twice, freeing with another layout
// than the allocation's and writing to freed memory are recorded, and freed memory reads as garbage.
pub static CHECK_MEM: AtomicBool = AtomicBool::new(false);
pub static MEM_BAD: AtomicUsize = AtomicUsize::new(0);
const MAGIC: usize = 0x51d5_a110_c8ed_b10c;
const DEAD: usize = 0x51d5_dead_dead_b10c;
const POISON: u8 = 0xdb;
const RING: usize = 4096;
static RING_LOCK: AtomicBool = AtomicBool::new(false);
static mut RING_AT: usize = 0;
static mut RING_BUF: [(*mut u8, usize, usize); RING] = [(std::ptr::null_mut(), 0, 0); RING];
pub fn mem_bad() -> Option<&'static str> {
    match MEM_BAD.swap(0, SeqCst) {
        0 => None,
        1 => Some("a block was released twice"),
        2 => Some("a block was released with another size than it was allocated with"),
        _ => Some("released memory was written to"),
    }
}
fn hdr(align: usize) -> usize {
    align.max(32)
}
unsafe fn chk_alloc(l: Layout) -> *mut u8 {
    let h = hdr(l.align());
    let base = System.alloc(Layout::from_size_align_unchecked(l.size() + h, l.align().max(16)));
    if base.is_null() {
        return base;
    }
    let p = base.add(h);
    let w = p as *mut usize;
    *w.sub(4) = MAGIC ^ p as usize;
    *w.sub(3) = l.size();
    *w.sub(2) = l.align();
    p
}
unsafe fn chk_known(p: *mut u8) -> bool {
    let m = *(p as *mut usize).sub(4);
    m == MAGIC ^ p as usize || m == DEAD ^ p as usize
}
unsafe fn chk_dealloc(p: *mut u8, l: Layout) {
    let w = p as *mut usize;
    if *w.sub(4) == DEAD ^ p as usize {
        MEM_BAD.store(1, SeqCst);
        return;
    }
    let (size, align) = (*w.sub(3), *w.sub(2));
    if size != l.size() || align != l.align() {
        MEM_BAD.store(2, SeqCst);
    }
    *w.sub(4) = DEAD ^ p as usize;
    std::ptr::write_bytes(p, POISON, size);
    while RING_LOCK.swap(true, SeqCst) {}
    let (op, os, oa) = RING_BUF[RING_AT];
    RING_BUF[RING_AT] = (p, size, align);
    RING_AT = (RING_AT + 1) % RING;
    RING_LOCK.store(false, SeqCst);
    if !op.is_null() {
        if std::slice::from_raw_parts(op, os).iter().any(|b| *b != POISON) {
            MEM_BAD.store(3, SeqCst);
        }
        let h = hdr(oa);
        *(op as *mut usize).sub(4) = 0;
        System.dealloc(op.sub(h), Layout::from_size_align_unchecked(os + h, oa.max(16)))
    }
}
unsafe impl GlobalAlloc for CountAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64, 1);
        if CHECK_MEM.load(Relaxed) {
            return chk_alloc(l);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64), -1);
        if CHECK_MEM.load(Relaxed) && chk_known(p) {
            return chk_dealloc(p, l);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64, 0);
        if CHECK_MEM.load(Relaxed) {
            let q = chk_alloc(Layout::from_size_align_unchecked(n, l.align()));
            std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
            if chk_known(p) {
                chk_dealloc(p, l);
            } else {
                System.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: CountAlloc = CountAlloc;

// ---------------------------------------------------------------- crash slots
const SLOT: usize = 8192;
const NSLOTS: usize = 64;
pub struct Slots {
    base: *mut u8,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    fn open(path: Option<&str>) -> Slots {
        unsafe {
            let len = SLOT * NSLOTS;
            let base = match path {
                Some(p) => {
                    let c = std::ffi::CString::new(p).unwrap();
                    let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o644);
                    assert!(fd >= 0);
                    libc::ftruncate(fd, len as i64);
                    libc::mmap(std::ptr::null_mut(), len, 3, libc::MAP_SHARED, fd, 0)
                }
                None => libc::mmap(
                    std::ptr::null_mut(),
                    len,
                    3,
                    libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                ),
            };
            assert!(base != libc::MAP_FAILED);
            Slots {
                base: base as *mut u8,
            }
        }
    }
    // layout: [0..8) seq (odd = in case), [8..12) len of config text, [12..16) len of case text,
    // [16..16+3000) config, [3016..) case
    fn seq(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(i * SLOT) as *const AtomicU64) }
    }
    fn put(&self, i: usize, what: usize, text: &[u8]) {
        let (off, cap, lenoff) = if what == 0 {
            (16, 3000, 8)
        } else {
            (3016, SLOT - 3016, 12)
        };
        let n = text.len().min(cap);
        unsafe {
            let b = self.base.add(i * SLOT);
            (b.add(lenoff) as *mut u32).write(n as u32);
            std::ptr::copy_nonoverlapping(text.as_ptr(), b.add(off), n);
        }
    }
    fn get(&self, i: usize) -> (String, String) {
        unsafe {
            let b = self.base.add(i * SLOT);
            let n0 = (b.add(8) as *const u32).read() as usize;
            let n1 = (b.add(12) as *const u32).read() as usize;
            let a = std::slice::from_raw_parts(b.add(16), n0.min(3000));
            let c = std::slice::from_raw_parts(b.add(3016), n1.min(SLOT - 3016));
            (
                String::from_utf8_lossy(a).into_owned(),
                String::from_utf8_lossy(c).into_owned(),
            )
        }
    }
}

// ---------------------------------------------------------------- context
pub struct Finding {
    pub key: String,
    pub detail: Value,
}
pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<(String, usize)>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub nontrivial: AtomicU64,
    outcomes: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<Value>>,
    pub spaces: Mutex<Vec<Value>>,
    viol: Mutex<Option<Finding>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    pub stop: AtomicBool,
    pub start: Instant,
    pub slots: Slots,
    pub hang_secs: AtomicU64,
    pub assumptions: Mutex<Vec<String>>,
    nthreads: usize,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.try_with(|q| q.get()).unwrap_or(false);
        let msg = info.to_string();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = msg);
        if !quiet {
            prev(info);
        }
    }));
}

/// Runs `f`; a panic becomes `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

impl Ctx {
    pub fn new(id: &str, only: Option<(String, usize)>) -> Ctx {
        let dir = verif_dir();
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{dir}/known-findings.json")) {
            let v: Value = serde_json::from_str(&s).expect("known-findings.json");
            for f in v["findings"].as_array().cloned().unwrap_or_default() {
                if f["property"] == id {
                    known.push((
                        f["key"].as_str().unwrap().to_string(),
                        f["what"].as_str().unwrap().to_string(),
                    ));
                }
            }
        }
        let slotfile = std::env::var("MC_SLOTS").ok();
        Ctx {
            id: id.to_string(),
            thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
            seed: std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(0),
            only,
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            nontrivial: 0.into(),
            outcomes: Default::default(),
            samples: Default::default(),
            spaces: Default::default(),
            viol: Default::default(),
            known,
            known_hit: Default::default(),
            stop: false.into(),
            start: Instant::now(),
            slots: Slots::open(slotfile.as_deref()),
            hang_secs: 40.into(),
            assumptions: Default::default(),
            nthreads: std::thread::available_parallelism()
                .map(|x| x.get())
                .unwrap_or(8)
                .min(NSLOTS - 2),
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// Records a violation unless its key is a listed finding.
    pub fn violate(&self, key: &str, detail: Value) {
        if let Some((k, _)) = self.known.iter().find(|(k, _)| k == key) {
            *self.known_hit.lock().unwrap().entry(k.clone()).or_insert(0) += 1;
            return;
        }
        let mut v = self.viol.lock().unwrap();
        if v.is_none() {
            *v = Some(Finding {
                key: key.to_string(),
                detail,
            });
        }
        self.stop.store(true, SeqCst);
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn nthreads(&self) -> usize {
        self.nthreads
    }
    pub fn known_index(&self, key: &str) -> Option<usize> {
        self.known.iter().position(|(k, _)| k == key)
    }
    pub fn known_count(&self, i: usize, n: u64) {
        if n > 0 {
            if let Some((k, _)) = self.known.get(i) {
                *self.known_hit.lock().unwrap().entry(k.clone()).or_insert(0) += n;
            }
        }
    }
    pub fn add_outcomes(&self, it: impl Iterator<Item = u64>) {
        self.outcomes.lock().unwrap().extend(it);
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    fn write_replay(&self, f: &Finding) -> String {
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let p = format!("{dir}/{}.json", self.id);
        let v = json!({"property": self.id, "key": f.key, "tier": if self.thorough {"thorough"} else {"quick"},
            "detail": f.detail});
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
        p
    }
    /// Explores `items` in parallel; `f` handles one item, calling `w.case(..)` for every case.
    pub fn space<I: Sync, F>(&self, name: &str, rule: &str, items: &[I], f: F)
    where
        F: Fn(&mut Worker, &I) + Sync,
    {
        if self.stopped() {
            return;
        }
        if let Some((n, _)) = &self.only {
            if n != name {
                return;
            }
        }
        let t0 = Instant::now();
        let s0 = self.states.load(SeqCst);
        let next = AtomicUsize::new(0);
        let done = AtomicBool::new(false);
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for t in 0..self.nthreads {
                let (next, f) = (&next, &f);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            let mut w = Worker::new(self, t, name);
                            loop {
                                let i = next.fetch_add(1, SeqCst);
                                if i >= items.len() || self.stopped() {
                                    break;
                                }
                                if let Some((_, only)) = &self.only {
                                    if *only != i {
                                        continue;
                                    }
                                }
                                w.item = i;
                                let r = guard(|| f(&mut w, &items[i]));
                                w.leave();
                                if let Err(p) = r {
                                    let (c, k) = self.slots.get(t);
                                    self.violate(
                                        &format!("panic:{name}"),
                                        json!({"space": name, "item": i, "config": c, "case": k, "panic": p}),
                                    );
                                }
                            }
                            w.flush();
                        })
                        .unwrap(),
                );
            }
            let done = &done;
            let wd = sc.spawn(move || {
                let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); self.nthreads];
                while !done.load(SeqCst) {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    for t in 0..self.nthreads {
                        let q = self.slots.seq(t).load(Relaxed);
                        if q != last[t].0 || q % 2 == 0 {
                            last[t] = (q, Instant::now());
                        } else if last[t].1.elapsed().as_secs() >= self.hang_secs.load(Relaxed) {
                            let (c, k) = self.slots.get(t);
                            self.violate(
                                &format!("hang:{name}"),
                                json!({"space": name, "config": c, "case": k,
                                    "observed": format!("no result after {} s", self.hang_secs.load(Relaxed))}),
                            );
                            if self.stopped() {
                                self.finish_and_exit();
                            }
                            last[t].1 = Instant::now();
                        }
                    }
                }
            });
            for h in hs {
                h.join().unwrap();
            }
            done.store(true, SeqCst);
            wd.join().unwrap();
        });
        let st = self.states.load(SeqCst) - s0;
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!(
                "  space {name}: items={} states={} {:.2}s",
                items.len(),
                st,
                t0.elapsed().as_secs_f64()
            );
        }
        self.spaces.lock().unwrap().push(json!({"space": name, "rule": rule, "configurations": items.len(),
            "states": st, "seconds": (t0.elapsed().as_secs_f64()*100.0).round()/100.0, "complete": !self.stopped()}));
    }
    pub fn finish_and_exit(&self) -> ! {
        let dir = verif_dir();
        let v = self.viol.lock().unwrap();
        let known_hit = self.known_hit.lock().unwrap();
        let outcomes = self.outcomes.lock().unwrap().len();
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states.load(SeqCst),
                "transitions": self.transitions.load(SeqCst),
                "traces_validated_against_impl": self.traces.load(SeqCst),
                "distinct_nontrivial": self.nontrivial.load(SeqCst),
                "distinct_outcomes": outcomes,
                "spaces": *self.spaces.lock().unwrap(),
                "samples": *self.samples.lock().unwrap(),
                "rule": "states: cases (configuration + input or operation history) visited; transitions: steps (appended symbols, operations, schedule steps) taken to reach them; traces: executions of the implementation compared with the reference model; non-trivial: cases whose expected result is not the empty one",
                "exhaustive": v.is_none(),
            },
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": if v.is_some() {1} else {0},
            "known_findings_hit": known_hit.keys().collect::<Vec<_>>(),
        });
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        std::fs::write(
            format!("{dir}/evidence/{}.json", self.id),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("evidence");
        for (k, n) in known_hit.iter() {
            let what = &self.known.iter().find(|(a, _)| a == k).unwrap().1;
            println!("KNOWN-FINDING: property={} {} ({} cases)", self.id, what, n);
        }
        println!(
            "{}: states={} transitions={} traces={} nontrivial={} outcomes={} wall={:.1}s",
            self.id,
            self.states.load(SeqCst),
            self.transitions.load(SeqCst),
            self.traces.load(SeqCst),
            self.nontrivial.load(SeqCst),
            outcomes,
            self.start.elapsed().as_secs_f64()
        );
        let code = match &*v {
            Some(f) => {
                let p = self.write_replay(f);
                println!("{}", serde_json::to_string_pretty(&f.detail).unwrap().chars().take(4000).collect::<String>());
                println!("VIOLATION property={} replay={}", self.id, p);
                1
            }
            None => 0,
        };
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(code) }
    }
}

pub struct Worker<'c> {
    pub ctx: &'c Ctx,
    pub t: usize,
    pub space: String,
    pub item: usize,
    states: u64,
    transitions: u64,
    traces: u64,
    nontrivial: u64,
    outcomes: HashSet<u64>,
    cfg: String,
    sampled: u32,
}

impl<'c> Worker<'c> {
    fn new(ctx: &'c Ctx, t: usize, space: &str) -> Self {
        Worker {
            ctx,
            t,
            space: space.into(),
            item: 0,
            states: 0,
            transitions: 0,
            traces: 0,
            nontrivial: 0,
            outcomes: HashSet::new(),
            cfg: String::new(),
            sampled: 0,
        }
    }
    /// Describes the configuration the following cases belong to.
    pub fn config(&mut self, s: impl Into<String>) {
        self.cfg = s.into();
        self.ctx.slots.put(self.t, 0, self.cfg.as_bytes());
    }
    pub fn cfg_text(&self) -> &str {
        &self.cfg
    }
    fn enter(&self, case: &str) {
        self.ctx.slots.put(self.t, 1, case.as_bytes());
        let q = self.ctx.slots.seq(self.t);
        let v = q.load(Relaxed);
        q.store((v + 1) | 1, Relaxed);
        NET.with(|n| n.set(0));
        ACT.with(|a| a.set(true));
    }
    fn leave(&self) {
        let q = self.ctx.slots.seq(self.t);
        let v = q.load(Relaxed);
        if v % 2 == 1 {
            q.store(v + 1, Relaxed);
        }
        ACT.with(|a| a.set(false));
    }
    pub fn stopped(&self) -> bool {
        self.ctx.stopped()
    }
    /// Runs the implementation on one case; a panic is a violation. Returns None on a panic.
    pub fn run<T>(&mut self, case: &str, steps: u64, f: impl FnOnce() -> T) -> Option<T> {
        self.states += 1;
        self.transitions += steps;
        self.traces += 1;
        self.enter(case);
        let r = guard(f);
        self.leave();
        match r {
            Ok(x) => Some(x),
            Err(p) => {
                self.violate("panic", json!({ "case": case, "panic": p }));
                None
            }
        }
    }
    pub fn add_states(&mut self, n: u64, tr: u64) {
        self.states += n;
        self.transitions += tr;
    }
    pub fn outcome<H: Hash>(&mut self, h: &H, nontrivial: bool) {
        if nontrivial {
            self.nontrivial += 1;
        }
        if self.outcomes.len() < 200_000 {
            let mut s = std::collections::hash_map::DefaultHasher::new();
            h.hash(&mut s);
            self.outcomes.insert(s.finish());
        }
    }
    pub fn want_sample(&mut self) -> bool {
        if self.sampled < 1 {
            self.sampled += 1;
            true
        } else {
            false
        }
    }
    pub fn violate(&mut self, kind: &str, detail: Value) {
        self.ctx.violate(
            &format!("{}:{}:{}", self.space, kind, self.key(&detail)),
            json!({"space": self.space, "item": self.item, "kind": kind, "config": self.cfg, "detail": detail,
                "rerun": format!("/verif/check {} --only {}:{}", self.ctx.id, self.space, self.item)}),
        );
    }
    fn key(&self, d: &Value) -> String {
        format!("{}|{}", self.cfg, d.get("case").map(|x| x.to_string()).unwrap_or_default())
    }
    fn flush(&mut self) {
        let c = self.ctx;
        c.states.fetch_add(self.states, SeqCst);
        c.transitions.fetch_add(self.transitions, SeqCst);
        c.traces.fetch_add(self.traces, SeqCst);
        c.nontrivial.fetch_add(self.nontrivial, SeqCst);
        c.outcomes.lock().unwrap().extend(self.outcomes.drain());
        (self.states, self.transitions, self.traces, self.nontrivial) = (0, 0, 0, 0);
    }
}

/// Depth-first enumeration of all strings over `alpha` with length `min..=max`; `f` returns false to stop.
pub fn strings(alpha: &[char], min: usize, max: usize, f: &mut dyn FnMut(&str) -> bool) -> bool {
    fn go(
        alpha: &[char],
        len: usize,
        s: &mut String,
        f: &mut dyn FnMut(&str) -> bool,
    ) -> bool {
        if len == 0 {
            return f(s);
        }
        for c in alpha {
            s.push(*c);
            let r = go(alpha, len - 1, s, f);
            s.pop();
            if !r {
                return false;
            }
        }
        true
    }
    let mut s = String::new();
    for l in min..=max {
        if !go(alpha, l, &mut s, f) {
            return false;
        }
    }
    true
}

/// All strings over `alpha` of length `min..=max`, shortest first.
pub fn all_strings(alpha: &[char], min: usize, max: usize) -> Vec<String> {
    let mut v = vec![];
    strings(alpha, min, max, &mut |s| {
        v.push(s.to_string());
        true
    });
    v
}

pub fn once_init() {
    static X: OnceLock<()> = OnceLock::new();
    X.get_or_init(install_panic_hook);
}
