//! Stands in for `regex_automata::util::pool` of a git crate that is not available offline.
pub mod util {
    pub mod pool {
        use std::sync::Mutex;
        pub struct Pool<T, F, const N: usize = 8> {
            f: F,
            v: Mutex<Vec<T>>,
        }
        impl<T: Send, F: Fn() -> T, const N: usize> Pool<T, F, N> {
            pub fn new(f: F) -> Self {
                Pool { f, v: Default::default() }
            }
            pub fn get(&self) -> PoolGuard<'_, T, F, N> {
                let v = self.v.lock().unwrap().pop();
                PoolGuard { p: self, v: Some(v.unwrap_or_else(|| (self.f)())) }
            }
        }
        pub struct PoolGuard<'a, T: Send, F: Fn() -> T, const N: usize = 8> {
            p: &'a Pool<T, F, N>,
            v: Option<T>,
        }
        impl<'a, T: Send, F: Fn() -> T, const N: usize> std::ops::Deref for PoolGuard<'a, T, F, N> {
            type Target = T;
            fn deref(&self) -> &T {
                self.v.as_ref().unwrap()
            }
        }
        impl<'a, T: Send, F: Fn() -> T, const N: usize> std::ops::DerefMut for PoolGuard<'a, T, F, N> {
            fn deref_mut(&mut self) -> &mut T {
                self.v.as_mut().unwrap()
            }
        }
        impl<'a, T: Send, F: Fn() -> T, const N: usize> Drop for PoolGuard<'a, T, F, N> {
            fn drop(&mut self) {
                if let Some(v) = self.v.take() {
                    self.p.v.lock().unwrap().push(v);
                }
            }
        }
    }
}
