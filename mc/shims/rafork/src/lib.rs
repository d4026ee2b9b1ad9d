//! Stands in for `regex_automata::util::pool` of the unreachable fork: a pool that hands out any
//! cached value or a fresh one, and may or may not keep what is returned.  Under the scheduler
//! all of these are explored as choices; otherwise the most recently returned value is reused.
pub mod util {
    pub mod pool {
        use sds_verif_std::sched;
        use std::sync::Mutex;
        pub struct Pool<T, F, const N: usize = 8> {
            f: F,
            v: Mutex<Vec<T>>,
        }
        impl<T: Send, F: Fn() -> T, const N: usize> Pool<T, F, N> {
            pub fn new(f: F) -> Self {
                Pool {
                    f,
                    v: Default::default(),
                }
            }
            pub fn get(&self) -> PoolGuard<'_, T, F, N> {
                sched::point();
                let mut q = self.v.lock().unwrap();
                let n = q.len();
                let c = sched::choose(n + 1);
                let v = if c < n {
                    Some(q.remove(n - 1 - c))
                } else {
                    None
                };
                drop(q);
                PoolGuard {
                    p: self,
                    v: Some(v.unwrap_or_else(|| (self.f)())),
                }
            }
        }
        pub struct PoolGuard<'a, T: Send, F: Fn() -> T, const N: usize = 8> {
            p: &'a Pool<T, F, N>,
            v: Option<T>,
        }
        impl<'a, T: Send, F: Fn() -> T, const N: usize> std::ops::Deref for PoolGuard<'a, T, F, N> {
            type Target = T;
            fn deref(&self) -> &T {
                self.v.as_ref().unwrap()
            }
        }
        impl<'a, T: Send, F: Fn() -> T, const N: usize> std::ops::DerefMut for PoolGuard<'a, T, F, N> {
            fn deref_mut(&mut self) -> &mut T {
                self.v.as_mut().unwrap()
            }
        }
        impl<'a, T: Send, F: Fn() -> T, const N: usize> Drop for PoolGuard<'a, T, F, N> {
            fn drop(&mut self) {
                sched::point();
                if let Some(v) = self.v.take() {
                    if sched::choose(2) == 0 {
                        self.p.v.lock().unwrap().push(v);
                    }
                }
            }
        }
    }
}
