//! Deterministic cooperative scheduler: exactly one task runs at a time; at every scheduling
//! point the next task is picked from a recorded list of choices (0 beyond its end).
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Status {
    Ready,
    Blocked(usize),
    Done,
}

/// One scheduling or data choice.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Point {
    /// number of alternatives
    pub n: u16,
    pub chosen: u16,
    /// choosing an alternative other than 0 costs one deviation (the running task was still
    /// enabled, or it is a data choice)
    pub costs: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Running,
    AllDone,
    Deadlock,
    Diverged,
    TooLong,
}

struct Inner {
    current: usize,
    status: Vec<Status>,
    points: Vec<Point>,
    prefix: Vec<u16>,
    end: End,
    steps: usize,
    seen: std::collections::HashMap<(usize, usize), usize>,
}

pub struct Sched {
    st: Mutex<Inner>,
    cv: Condvar,
}

thread_local! {
    static TASK: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}
static RUNNING: AtomicUsize = AtomicUsize::new(0);
/// Operations of one task on one object before which another task may run; later ones go on
/// without a choice (loops over a thousand dead regexes would otherwise dominate everything).
pub const PER_OBJECT: usize = 12;
const MAX_STEPS: usize = 20_000;

fn me() -> Option<(Arc<Sched>, usize)> {
    if RUNNING.load(Ordering::Relaxed) == 0 {
        return None;
    }
    TASK.try_with(|t| t.borrow().clone()).ok().flatten()
}

pub fn active() -> bool {
    me().is_some()
}

impl Sched {
    fn pick(&self, st: &mut Inner, n: usize, costs: bool) -> Option<usize> {
        st.steps += 1;
        if st.steps > MAX_STEPS {
            st.end = End::TooLong;
            return None;
        }
        if n == 1 {
            return Some(0);
        }
        let pos = st.points.len();
        let c = st.prefix.get(pos).copied().unwrap_or(0) as usize;
        if c >= n {
            st.end = End::Diverged;
            return None;
        }
        st.points.push(Point {
            n: n as u16,
            chosen: c as u16,
            costs,
        });
        Some(c)
    }
    /// Hands the baton on; returns once it is `me`'s turn again (never, if the run has ended).
    fn switch(&self, mut st: std::sync::MutexGuard<'_, Inner>, me: usize, wait: bool) {
        let still = st.status[me] == Status::Ready;
        let mut opts = vec![];
        if still {
            opts.push(me);
        }
        for (i, s) in st.status.iter().enumerate() {
            if i != me && *s == Status::Ready {
                opts.push(i);
            }
        }
        if opts.is_empty() {
            st.end = if st.status.iter().all(|s| *s == Status::Done) {
                End::AllDone
            } else {
                End::Deadlock
            };
        } else if let Some(c) = self.pick(&mut st, opts.len(), still) {
            st.current = opts[c];
        }
        self.cv.notify_all();
        while wait && !(st.current == me && st.end == End::Running && st.status[me] == Status::Ready) {
            st = self.cv.wait(st).unwrap();
        }
    }
}

/// A point where another task may run first.
pub fn point() {
    if let Some((s, me)) = me() {
        let st = s.st.lock().unwrap();
        s.switch(st, me, true);
    }
}

/// A point before an operation on the object at `addr`.
pub fn point_at(addr: usize) {
    if let Some((s, me)) = me() {
        let mut st = s.st.lock().unwrap();
        let n = st.seen.entry((me, addr)).or_insert(0);
        *n += 1;
        if *n > PER_OBJECT {
            st.steps += 1;
            if st.steps <= MAX_STEPS {
                return;
            }
        }
        s.switch(st, me, true);
    }
}

/// The current task cannot go on until `unblock(addr)`.
pub fn block(addr: usize) {
    if let Some((s, me)) = me() {
        let mut st = s.st.lock().unwrap();
        st.status[me] = Status::Blocked(addr);
        s.switch(st, me, true);
    }
}

pub fn unblock(addr: usize) {
    if let Some((s, _)) = me() {
        let mut st = s.st.lock().unwrap();
        for x in st.status.iter_mut() {
            if *x == Status::Blocked(addr) {
                *x = Status::Ready;
            }
        }
    }
}

pub fn unblock_one(addr: usize) {
    if let Some((s, _)) = me() {
        let mut st = s.st.lock().unwrap();
        if let Some(x) = st.status.iter_mut().find(|x| **x == Status::Blocked(addr)) {
            *x = Status::Ready;
        }
    }
}

/// A data choice among `n` alternatives (0 when no scheduler is active).
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    if let Some((s, me)) = me() {
        let mut st = s.st.lock().unwrap();
        match s.pick(&mut st, n, true) {
            Some(c) => return c,
            None => {
                s.cv.notify_all();
                while st.end != End::Running || st.current != me {
                    st = s.cv.wait(st).unwrap();
                }
            }
        }
    }
    0
}

pub struct Execution {
    pub end: End,
    pub points: Vec<Point>,
    pub steps: usize,
}

/// Runs the tasks under the choices of `prefix` (then always alternative 0).  If the run ends in
/// anything but `AllDone`, the task threads are left blocked for ever: the caller is expected to
/// be a process of its own that exits afterwards.
pub fn run(tasks: Vec<Box<dyn FnOnce() + Send>>, prefix: &[u16]) -> Execution {
    let n = tasks.len();
    let s = Arc::new(Sched {
        st: Mutex::new(Inner {
            current: usize::MAX,
            status: vec![Status::Ready; n],
            points: vec![],
            prefix: prefix.to_vec(),
            end: End::Running,
            steps: 0,
            seen: Default::default(),
        }),
        cv: Condvar::new(),
    });
    RUNNING.fetch_add(1, Ordering::SeqCst);
    let mut handles = vec![];
    for (i, t) in tasks.into_iter().enumerate() {
        let s = s.clone();
        handles.push(std::thread::spawn(move || {
            TASK.with(|x| *x.borrow_mut() = Some((s.clone(), i)));
            {
                let mut st = s.st.lock().unwrap();
                while !(st.current == i && st.end == End::Running) {
                    st = s.cv.wait(st).unwrap();
                }
            }
            t();
            TASK.with(|x| *x.borrow_mut() = None);
            let mut st = s.st.lock().unwrap();
            st.status[i] = Status::Done;
            s.switch(st, i, false);
        }));
    }
    {
        let mut st = s.st.lock().unwrap();
        // which task starts is itself a (free) choice
        match s.pick(&mut st, n, false) {
            Some(c) => st.current = c,
            None => {}
        }
        s.cv.notify_all();
        while st.end == End::Running {
            st = s.cv.wait(st).unwrap();
        }
    }
    let done = s.st.lock().unwrap().end == End::AllDone;
    if done {
        for h in handles {
            let _ = h.join();
        }
    }
    RUNNING.fetch_sub(1, Ordering::SeqCst);
    let st = s.st.lock().unwrap();
    Execution {
        end: st.end,
        points: st.points.clone(),
        steps: st.steps,
    }
}
