//! A metrics recorder that keeps every counter and gauge, keyed by name and ordered labels.
use metrics::{Counter, CounterFn, Gauge, GaugeFn, Histogram, Key, KeyName, Metadata, Recorder, SharedString, Unit};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};

pub type MKey = (String, Vec<(String, String)>);
#[derive(Default)]
pub struct Cell {
    v: AtomicI64,
    low: AtomicI64,
}
impl Cell {
    pub fn value(&self) -> i64 {
        self.v.load(SeqCst)
    }
}
impl CounterFn for Cell {
    fn increment(&self, n: u64) {
        self.v.fetch_add(n as i64, SeqCst);
    }
    fn absolute(&self, n: u64) {
        self.v.store(n as i64, SeqCst);
    }
}
impl GaugeFn for Cell {
    fn increment(&self, d: f64) {
        let v = self.v.fetch_add(d as i64, SeqCst) + d as i64;
        self.low.fetch_min(v, SeqCst);
    }
    fn decrement(&self, d: f64) {
        GaugeFn::increment(self, -d)
    }
    fn set(&self, d: f64) {
        // an exporter may be slow: other threads can run before the value arrives
        sds_verif_std::sched::point_at(self as *const _ as usize);
        self.v.store(d as i64, SeqCst);
        self.low.fetch_min(d as i64, SeqCst);
    }
}
#[derive(Default)]
pub struct Rec(Mutex<BTreeMap<(bool, MKey), Arc<Cell>>>);
impl Rec {
    fn cell(&self, gauge: bool, key: &Key) -> Arc<Cell> {
        let k = (
            key.name().to_string(),
            key.labels().map(|l| (l.key().to_string(), l.value().to_string())).collect::<Vec<_>>(),
        );
        self.0.lock().unwrap().entry((gauge, k)).or_default().clone()
    }
    /// The counter of that name and labels (made if there is none yet).
    pub fn counter(&self, k: &MKey) -> Arc<Cell> {
        self.0.lock().unwrap().entry((false, k.clone())).or_default().clone()
    }
    pub fn snapshot(&self) -> BTreeMap<MKey, i64> {
        self.0.lock().unwrap().iter().map(|(k, v)| (k.1.clone(), v.v.load(SeqCst))).collect()
    }
    pub fn get(&self, name: &str) -> i64 {
        self.0.lock().unwrap().iter().filter(|(k, _)| k.1 .0 == name).map(|(_, v)| v.v.load(SeqCst)).sum()
    }
    pub fn exists(&self, name: &str) -> bool {
        self.0.lock().unwrap().iter().any(|(k, _)| k.1 .0 == name)
    }
    /// Lowest value a gauge has ever had.
    pub fn low(&self, name: &str) -> i64 {
        self.0.lock().unwrap().iter().filter(|(k, _)| k.1 .0 == name).map(|(_, v)| v.low.load(SeqCst)).min().unwrap_or(0)
    }
}
impl Recorder for &'static Rec {
    fn describe_counter(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_gauge(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_histogram(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn register_counter(&self, k: &Key, _: &Metadata<'_>) -> Counter {
        Counter::from_arc(self.cell(false, k))
    }
    fn register_gauge(&self, k: &Key, _: &Metadata<'_>) -> Gauge {
        Gauge::from_arc(self.cell(true, k))
    }
    fn register_histogram(&self, _: &Key, _: &Metadata<'_>) -> Histogram {
        Histogram::noop()
    }
}
/// The global recorder; installed on first use, which must precede the first use of the library.
pub fn rec() -> &'static Rec {
    static R: OnceLock<&'static Rec> = OnceLock::new();
    R.get_or_init(|| {
        let r: &'static Rec = Box::leak(Box::default());
        metrics::set_global_recorder(r).expect("recorder");
        r
    })
}
