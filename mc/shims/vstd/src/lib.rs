//! The standard library, with the blocking and atomic primitives of `std::sync` replaced by
//! versions that hand control to a deterministic scheduler.  Threads that are not tasks of the
//! scheduler use the real primitives unchanged.
pub use ::std::*;

pub mod sched;

pub mod sync {
    pub use ::std::sync::*;

    use crate::sched;
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync as real;

    fn addr<T: ?Sized>(x: &T) -> usize {
        x as *const T as *const () as usize
    }

    // ---- Mutex ----------------------------------------------------------------------------
    pub struct Mutex<T: ?Sized>(real::Mutex<T>);
    pub struct MutexGuard<'a, T: ?Sized> {
        m: &'a Mutex<T>,
        g: Option<real::MutexGuard<'a, T>>,
    }
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex(real::Mutex::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            if sched::active() {
                sched::point_at(addr(self));
                loop {
                    match self.0.try_lock() {
                        Ok(g) => return Ok(MutexGuard { m: self, g: Some(g) }),
                        Err(TryLockError::Poisoned(p)) => {
                            return Err(PoisonError::new(MutexGuard {
                                m: self,
                                g: Some(p.into_inner()),
                            }))
                        }
                        Err(TryLockError::WouldBlock) => sched::block(addr(self)),
                    }
                }
            }
            match self.0.lock() {
                Ok(g) => Ok(MutexGuard { m: self, g: Some(g) }),
                Err(p) => Err(PoisonError::new(MutexGuard {
                    m: self,
                    g: Some(p.into_inner()),
                })),
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            sched::point();
            match self.0.try_lock() {
                Ok(g) => Ok(MutexGuard { m: self, g: Some(g) }),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                Err(TryLockError::Poisoned(p)) => {
                    Err(TryLockError::Poisoned(PoisonError::new(MutexGuard {
                        m: self,
                        g: Some(p.into_inner()),
                    })))
                }
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.0.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
        fn drop(&mut self) {
            if self.g.take().is_some() {
                sched::unblock(addr(self.m));
            }
        }
    }

    // ---- RwLock ---------------------------------------------------------------------------
    pub struct RwLock<T: ?Sized>(real::RwLock<T>);
    pub struct RwLockReadGuard<'a, T: ?Sized> {
        a: usize,
        g: Option<real::RwLockReadGuard<'a, T>>,
    }
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        a: usize,
        g: Option<real::RwLockWriteGuard<'a, T>>,
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock(real::RwLock::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    macro_rules! rw {
        ($lock:ident, $try_lock:ident, $guard:ident) => {
            pub fn $lock(&self) -> LockResult<$guard<'_, T>> {
                let a = addr(self);
                if sched::active() {
                    sched::point_at(addr(self));
                    loop {
                        match self.0.$try_lock() {
                            Ok(g) => return Ok($guard { a, g: Some(g) }),
                            Err(TryLockError::Poisoned(p)) => {
                                return Err(PoisonError::new($guard {
                                    a,
                                    g: Some(p.into_inner()),
                                }))
                            }
                            Err(TryLockError::WouldBlock) => sched::block(a),
                        }
                    }
                }
                match self.0.$lock() {
                    Ok(g) => Ok($guard { a, g: Some(g) }),
                    Err(p) => Err(PoisonError::new($guard {
                        a,
                        g: Some(p.into_inner()),
                    })),
                }
            }
            pub fn $try_lock(&self) -> TryLockResult<$guard<'_, T>> {
                sched::point();
                let a = addr(self);
                match self.0.$try_lock() {
                    Ok(g) => Ok($guard { a, g: Some(g) }),
                    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                    Err(TryLockError::Poisoned(p)) => {
                        Err(TryLockError::Poisoned(PoisonError::new($guard {
                            a,
                            g: Some(p.into_inner()),
                        })))
                    }
                }
            }
        };
    }
    impl<T: ?Sized> RwLock<T> {
        rw!(read, try_read, RwLockReadGuard);
        rw!(write, try_write, RwLockWriteGuard);
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> {
        fn drop(&mut self) {
            self.g.take();
            sched::unblock(self.a);
        }
    }
    impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> {
        fn drop(&mut self) {
            self.g.take();
            sched::unblock(self.a);
        }
    }

    // ---- Condvar --------------------------------------------------------------------------
    #[derive(Default)]
    pub struct Condvar(real::Condvar);
    impl Condvar {
        pub const fn new() -> Self {
            Condvar(real::Condvar::new())
        }
        pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let m = guard.m;
            if sched::active() {
                drop(guard);
                sched::block(addr(self));
                return m.lock();
            }
            let g = guard.g.take().unwrap();
            match self.0.wait(g) {
                Ok(g) => Ok(MutexGuard { m, g: Some(g) }),
                Err(p) => Err(PoisonError::new(MutexGuard {
                    m,
                    g: Some(p.into_inner()),
                })),
            }
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
            &self,
            mut guard: MutexGuard<'a, T>,
            mut cond: F,
        ) -> LockResult<MutexGuard<'a, T>> {
            while cond(&mut *guard) {
                guard = self.wait(guard)?;
            }
            Ok(guard)
        }
        pub fn notify_one(&self) {
            if sched::active() {
                sched::point();
                sched::unblock_one(addr(self));
            } else {
                self.0.notify_one()
            }
        }
        pub fn notify_all(&self) {
            if sched::active() {
                sched::point();
                sched::unblock(addr(self));
            } else {
                self.0.notify_all()
            }
        }
    }

    // ---- one-time initialisation ------------------------------------------------------------
    pub struct OnceLock<T> {
        v: real::OnceLock<T>,
        m: Mutex<()>,
    }
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock {
                v: real::OnceLock::new(),
                m: Mutex::new(()),
            }
        }
        pub fn get(&self) -> Option<&T> {
            sched::point();
            self.v.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.v.get_mut()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            let _g = self.m.lock();
            self.v.set(t)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            if self.get().is_none() {
                let _g = self.m.lock();
                if self.v.get().is_none() {
                    let _ = self.v.set(f());
                }
            }
            self.v.get().unwrap()
        }
        pub fn into_inner(self) -> Option<T> {
            self.v.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.v.take()
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.v.fmt(f)
        }
    }

    pub struct LazyLock<T, F = fn() -> T> {
        v: OnceLock<T>,
        f: real::Mutex<Option<F>>,
    }
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            LazyLock {
                v: OnceLock::new(),
                f: real::Mutex::new(Some(f)),
            }
        }
        pub fn force(this: &Self) -> &T {
            this.v.get_or_init(|| {
                let f = this.f.lock().unwrap().take().expect("LazyLock poisoned");
                f()
            })
        }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            LazyLock::force(self)
        }
    }

    pub struct Once {
        done: real::atomic::AtomicBool,
        m: Mutex<()>,
    }
    impl Once {
        pub const fn new() -> Self {
            Once {
                done: real::atomic::AtomicBool::new(false),
                m: Mutex::new(()),
            }
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            use real::atomic::Ordering::SeqCst;
            sched::point();
            if !self.done.load(SeqCst) {
                let _g = self.m.lock();
                if !self.done.load(SeqCst) {
                    f();
                    self.done.store(true, SeqCst);
                }
            }
        }
        pub fn is_completed(&self) -> bool {
            sched::point();
            self.done.load(real::atomic::Ordering::SeqCst)
        }
    }

    // ---- atomics ----------------------------------------------------------------------------
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use ::std::sync::atomic as real;

        macro_rules! base {
            ($name:ident, $t:ty) => {
                #[derive(Default, Debug)]
                pub struct $name(real::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        $name(real::$name::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        crate::sched::point_at(self as *const _ as *const u8 as usize);
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        crate::sched::point_at(self as *const _ as *const u8 as usize);
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        crate::sched::point_at(self as *const _ as *const u8 as usize);
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(
                        &self,
                        a: $t,
                        b: $t,
                        s: Ordering,
                        f: Ordering,
                    ) -> Result<$t, $t> {
                        crate::sched::point_at(self as *const _ as *const u8 as usize);
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(
                        &self,
                        a: $t,
                        b: $t,
                        s: Ordering,
                        f: Ordering,
                    ) -> Result<$t, $t> {
                        crate::sched::point_at(self as *const _ as *const u8 as usize);
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                        &self,
                        s: Ordering,
                        f: Ordering,
                        mut g: F,
                    ) -> Result<$t, $t> {
                        let mut prev = self.load(f);
                        while let Some(next) = g(prev) {
                            match self.compare_exchange_weak(prev, next, s, f) {
                                Ok(x) => return Ok(x),
                                Err(x) => prev = x,
                            }
                        }
                        Err(prev)
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                }
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        $name::new(v)
                    }
                }
            };
        }
        macro_rules! fetch {
            ($name:ident, $t:ty, $($op:ident),*) => {
                impl $name {
                    $(pub fn $op(&self, v: $t, o: Ordering) -> $t {
                        crate::sched::point_at(self as *const _ as *const u8 as usize);
                        self.0.$op(v, o)
                    })*
                }
            };
        }
        macro_rules! int {
            ($($name:ident $t:ty),*) => { $(
                base!($name, $t);
                fetch!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
            )* };
        }
        int!(AtomicI8 i8, AtomicU8 u8, AtomicI16 i16, AtomicU16 u16, AtomicI32 i32, AtomicU32 u32,
             AtomicI64 i64, AtomicU64 u64, AtomicIsize isize, AtomicUsize usize);
        base!(AtomicBool, bool);
        fetch!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
    }
}
