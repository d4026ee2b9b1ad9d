//! Exploration in which a process is a state: every operation runs in a forked copy, so each node
//! of the tree starts from exactly the state its history produced, globals included.
use crate::core::*;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering::*};
use std::time::Instant;

const BUF: usize = 1 << 18;
const BITS: usize = 1 << 22;
#[repr(C)]
pub struct Shared {
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub nontrivial: AtomicU64,
    pub capped: AtomicU64,
    next: AtomicU64,
    stop: AtomicU32,
    ready: AtomicU32,
    len: AtomicU32,
    samples: AtomicU32,
    slen: AtomicU32,
    known: [AtomicU32; 64],
    buf: [AtomicU8; BUF],
    sbuf: [AtomicU8; 65536],
    bits: [AtomicU64; BITS / 64],
}
pub struct X<'a> {
    pub c: &'a Ctx,
    pub sh: &'a Shared,
    pub space: String,
    pub item: usize,
    pub timeout: u32,
}
unsafe fn map<T>() -> &'static T {
    let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
    assert!(p != libc::MAP_FAILED);
    &*(p as *const T)
}
/// Shared memory of `n` words, zeroed.
pub fn shared_words(n: usize) -> &'static [AtomicU64] {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n * 8, 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p as *const AtomicU64, n)
    }
}
impl<'a> X<'a> {
    pub fn stopped(&self) -> bool {
        self.sh.stop.load(Relaxed) != 0
    }
    pub fn state(&self, steps: u64) {
        self.sh.states.fetch_add(1, Relaxed);
        self.sh.transitions.fetch_add(steps, Relaxed);
    }
    pub fn trace(&self, n: u64) {
        self.sh.traces.fetch_add(n, Relaxed);
    }
    pub fn outcome<H: Hash>(&self, h: &H, nontrivial: bool) {
        if nontrivial {
            self.sh.nontrivial.fetch_add(1, Relaxed);
        }
        let mut s = DefaultHasher::new();
        h.hash(&mut s);
        let b = s.finish() as usize % BITS;
        self.sh.bits[b / 64].fetch_or(1 << (b % 64), Relaxed);
    }
    pub fn violate(&self, kind: &str, case: &str, detail: Value) {
        let key = format!("{}:{}:{}", self.space, kind, case);
        if let Some(i) = self.c.known_index(&key) {
            self.sh.known[i % 64].fetch_add(1, Relaxed);
            return;
        }
        if self.sh.stop.compare_exchange(0, 1, SeqCst, SeqCst).is_ok() {
            let v = json!({"key": key, "detail": {"space": self.space, "item": self.item, "kind": kind, "case": case, "detail": detail,
                "rerun": format!("/verif/check {} --only {}:{}", self.c.id, self.space, self.item)}})
            .to_string();
            self.put(&self.sh.buf, &self.sh.len, &v);
            self.sh.ready.store(1, SeqCst);
        }
    }
    fn put(&self, buf: &[AtomicU8], len: &AtomicU32, v: &str) {
        let v = if v.len() > buf.len() { json!({"key": "long", "detail": v.chars().take(20000).collect::<String>()}).to_string() } else { v.to_string() };
        for (b, x) in buf.iter().zip(v.bytes()) {
            b.store(x, Relaxed);
        }
        len.store(v.len() as u32, SeqCst);
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        if self.sh.samples.load(Relaxed) == 0 && self.sh.samples.compare_exchange(0, 1, SeqCst, SeqCst).is_ok() {
            let s = v().to_string();
            if s.len() < 60000 {
                self.put(&self.sh.sbuf, &self.sh.slen, &s);
            }
        }
    }
    /// Runs `f` in a copy of this process. A panic, a crash or `timeout` seconds without an end is a violation.
    /// The label is rendered only then.
    pub fn child(&self, label: impl Fn() -> String, f: impl FnOnce()) {
        if self.stopped() {
            return;
        }
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::alarm(self.timeout);
                if let Err(p) = guard(f) {
                    self.violate("panic", &label(), json!({ "panic": p }));
                }
                libc::_exit(0);
            }
            let mut st = 0;
            // the clock of this process stands still while its copies run
            let left = libc::alarm(0);
            loop {
                let r = libc::waitpid(pid, &mut st, 0);
                if r == pid {
                    break;
                }
                assert!(*libc::__errno_location() == libc::EINTR);
            }
            libc::alarm(left);
            if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                let kind = if sig == libc::SIGALRM { "hang" } else { "crash" };
                self.violate(kind, &label(), json!({ "signal": sig }));
            } else if libc::WEXITSTATUS(st) != 0 {
                self.violate("crash", &label(), json!({"exit status": libc::WEXITSTATUS(st)}));
            }
        }
    }
}
impl Ctx {
    /// Like `space`, with the items spread over worker processes instead of threads. `f` runs in a
    /// process forked for the item from the caller's state.
    pub fn fork_space<I>(&self, name: &str, rule: &str, timeout: u32, items: &[I], f: impl Fn(&X, &I)) {
        if self.stopped() || self.only.as_ref().map_or(false, |o| o.0 != name) {
            return;
        }
        let t0 = Instant::now();
        let sh: &'static Shared = unsafe { map() };
        let mut pids = vec![];
        for _ in 0..self.nthreads() {
            unsafe {
                let pid = libc::fork();
                assert!(pid >= 0);
                if pid == 0 {
                    let mut x = X { c: self, sh, space: name.into(), item: 0, timeout };
                    loop {
                        let i = sh.next.fetch_add(1, SeqCst) as usize;
                        if i >= items.len() || x.stopped() {
                            break;
                        }
                        if self.only.as_ref().map_or(false, |o| o.1 != i) {
                            continue;
                        }
                        x.item = i;
                        x.child(|| format!("item {i}"), || f(&x, &items[i]));
                    }
                    libc::_exit(0);
                }
                pids.push(pid);
            }
        }
        for pid in pids {
            unsafe {
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                if st != 0 && sh.ready.load(SeqCst) == 0 {
                    self.violate("worker", json!({"space": name, "worker status": st}));
                }
            }
        }
        let text = |b: &[AtomicU8], n: u32| String::from_utf8_lossy(&b[..n as usize].iter().map(|x| x.load(Relaxed)).collect::<Vec<u8>>()).into_owned();
        if sh.stop.load(SeqCst) != 0 {
            let v: Value = serde_json::from_str(&text(&sh.buf, sh.len.load(SeqCst))).unwrap_or(json!({"key": "?", "detail": "violation report lost"}));
            self.violate(v["key"].as_str().unwrap_or("?"), v["detail"].clone());
        }
        let n = sh.slen.load(SeqCst);
        if n > 0 {
            if let Ok(v) = serde_json::from_str(&text(&sh.sbuf, n)) {
                self.sample(v);
            }
        }
        for (i, k) in sh.known.iter().enumerate() {
            self.known_count(i, k.load(SeqCst) as u64);
        }
        let st = sh.states.load(SeqCst);
        self.states.fetch_add(st, SeqCst);
        self.transitions.fetch_add(sh.transitions.load(SeqCst), SeqCst);
        self.traces.fetch_add(sh.traces.load(SeqCst), SeqCst);
        self.nontrivial.fetch_add(sh.nontrivial.load(SeqCst), SeqCst);
        self.add_outcomes(sh.bits.iter().enumerate().flat_map(|(i, w)| {
            let w = w.load(Relaxed);
            (0..64).filter(move |b| w >> b & 1 == 1).map(move |b| (i * 64 + b) as u64)
        }));
        if sh.capped.load(SeqCst) > 0 {
            self.assume(&format!("space {name}: {} configurations were cut off at their limit of executions", sh.capped.load(SeqCst)));
        }
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("  space {name}: items={} states={} transitions={} {:.2}s", items.len(), st, sh.transitions.load(SeqCst), t0.elapsed().as_secs_f64());
        }
        self.spaces.lock().unwrap().push(json!({"space": name, "rule": rule, "configurations": items.len(),
            "states": st, "transitions": sh.transitions.load(SeqCst), "seconds": (t0.elapsed().as_secs_f64()*100.0).round()/100.0, "complete": !self.stopped() && sh.capped.load(SeqCst) == 0}));
        unsafe {
            libc::munmap(sh as *const Shared as *mut _, std::mem::size_of::<Shared>());
        }
    }
}
