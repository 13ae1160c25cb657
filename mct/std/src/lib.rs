//! Stands in for `std` while compiling tower: the real thing, except that locks and atomics are
//! scheduling points of the explorer.
#![no_std]
#![allow(clippy::all)]
extern crate std as real;
pub use real::*;

pub mod thread {
    pub use real::thread::*;
    pub fn yield_now() {
        if mc_rt::modelled() {
            mc_rt::yield_point("yield_now")
        } else {
            real::thread::yield_now()
        }
    }
}
pub mod hint {
    pub use real::hint::*;
    pub fn spin_loop() {
        if mc_rt::modelled() {
            mc_rt::yield_point("spin_loop")
        }
    }
}

pub mod sync {
    pub use real::sync::*;
    use real::fmt;
    use real::mem::ManuallyDrop;
    use real::ops::{Deref, DerefMut};
    use real::prelude::rust_2021::*;
    use real::sync as rs;

    fn key<T: ?Sized>(p: &T) -> usize {
        p as *const T as *const () as usize
    }

    // ---------------------------------------------------------------- Mutex
    #[derive(Default)]
    pub struct Mutex<T: ?Sized> {
        real: rs::Mutex<T>,
    }
    pub struct MutexGuard<'a, T: ?Sized> {
        g: ManuallyDrop<rs::MutexGuard<'a, T>>,
        m: &'a Mutex<T>,
    }
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { real: rs::Mutex::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.real.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn wrap<'a>(&'a self, g: rs::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
            MutexGuard { g: ManuallyDrop::new(g), m: self }
        }
        fn result<'a>(&'a self, r: LockResult<rs::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
            match r {
                Ok(g) => Ok(self.wrap(g)),
                Err(e) if mc_rt::aborting() => Ok(self.wrap(e.into_inner())),
                Err(e) => Err(PoisonError::new(self.wrap(e.into_inner()))),
            }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            mc_rt::point("lock");
            while mc_rt::modelled() {
                match self.real.try_lock() {
                    Ok(g) => return Ok(self.wrap(g)),
                    Err(TryLockError::Poisoned(e)) => return self.result(Err(e)),
                    Err(TryLockError::WouldBlock) => mc_rt::block(key(self), "a lock"),
                }
            }
            self.result(self.real.lock())
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            mc_rt::point("try_lock");
            match self.real.try_lock() {
                Ok(g) => {
                    let g = self.wrap(g);
                    // others may find it taken now
                    mc_rt::point("holds the lock");
                    Ok(g)
                }
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                Err(TryLockError::Poisoned(e)) => self.result(Err(e)).map_err(TryLockError::Poisoned),
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.real.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.real.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.real.get_mut()
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.real.fmt(f)
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            unsafe { ManuallyDrop::drop(&mut self.g) };
            mc_rt::wake_key(key(self.m));
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.g
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.g
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    // ---------------------------------------------------------------- Condvar
    #[derive(Default, Debug)]
    pub struct Condvar {
        real: rs::Condvar,
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar { real: rs::Condvar::new() }
        }
        pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let m = g.m;
            drop(g);
            mc_rt::block(key(self), "a condition");
            m.lock()
        }
        pub fn notify_one(&self) {
            mc_rt::point("notify");
            mc_rt::wake_key(key(self));
        }
        pub fn notify_all(&self) {
            self.notify_one()
        }
    }

    // ---------------------------------------------------------------- RwLock
    #[derive(Default)]
    pub struct RwLock<T: ?Sized> {
        real: rs::RwLock<T>,
    }
    pub struct RwLockReadGuard<'a, T: ?Sized> {
        g: ManuallyDrop<rs::RwLockReadGuard<'a, T>>,
        k: usize,
    }
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        g: ManuallyDrop<rs::RwLockWriteGuard<'a, T>>,
        k: usize,
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { real: rs::RwLock::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.real.into_inner()
        }
    }
    macro_rules! rw {
        ($f:ident, $tf:ident, $g:ident, $l:expr) => {
            pub fn $f(&self) -> LockResult<$g<'_, T>> {
                mc_rt::point($l);
                let k = key(self);
                while mc_rt::modelled() {
                    match self.real.$tf() {
                        Ok(g) => return Ok($g { g: ManuallyDrop::new(g), k }),
                        Err(TryLockError::Poisoned(e)) => {
                            return Err(PoisonError::new($g { g: ManuallyDrop::new(e.into_inner()), k }))
                        }
                        Err(TryLockError::WouldBlock) => mc_rt::block(k, "a lock"),
                    }
                }
                match self.real.$f() {
                    Ok(g) => Ok($g { g: ManuallyDrop::new(g), k }),
                    Err(e) if mc_rt::aborting() => Ok($g { g: ManuallyDrop::new(e.into_inner()), k }),
                    Err(e) => Err(PoisonError::new($g { g: ManuallyDrop::new(e.into_inner()), k })),
                }
            }
            pub fn $tf(&self) -> TryLockResult<$g<'_, T>> {
                mc_rt::point($l);
                let k = key(self);
                match self.real.$tf() {
                    Ok(g) => {
                        let g = $g { g: ManuallyDrop::new(g), k };
                        mc_rt::point("holds the lock");
                        Ok(g)
                    }
                    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                    Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new($g { g: ManuallyDrop::new(e.into_inner()), k }))),
                }
            }
        };
    }
    impl<T: ?Sized> RwLock<T> {
        rw!(read, try_read, RwLockReadGuard, "read lock");
        rw!(write, try_write, RwLockWriteGuard, "write lock");
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.real.get_mut()
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.real.fmt(f)
        }
    }
    macro_rules! rwg {
        ($g:ident) => {
            impl<T: ?Sized> Drop for $g<'_, T> {
                fn drop(&mut self) {
                    unsafe { ManuallyDrop::drop(&mut self.g) };
                    mc_rt::wake_key(self.k);
                }
            }
            impl<T: ?Sized> Deref for $g<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    &self.g
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $g<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
        };
    }
    rwg!(RwLockReadGuard);
    rwg!(RwLockWriteGuard);
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.g
        }
    }

    // ---------------------------------------------------------------- atomics
    pub mod atomic {
        use real::fmt;
        use real::prelude::rust_2021::*;
        pub use real::sync::atomic::*;
        use real::sync::atomic as ra;
        macro_rules! common {
            ($a:ident, $t:ty) => {
                #[derive(Default)]
                #[repr(transparent)]
                pub struct $a(ra::$a);
                impl $a {
                    pub const fn new(v: $t) -> Self {
                        $a(ra::$a::new(v))
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        mc_rt::point("load");
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        mc_rt::point("store");
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        mc_rt::point("swap");
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        mc_rt::point("compare_exchange");
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        mc_rt::point("compare_exchange");
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
                        let mut prev = self.load(l);
                        while let Some(next) = f(prev) {
                            match self.compare_exchange_weak(prev, next, s, l) {
                                Ok(x) => return Ok(x),
                                Err(x) => prev = x,
                            }
                        }
                        Err(prev)
                    }
                    common!(@f $t, fetch_and);
                    common!(@f $t, fetch_or);
                    common!(@f $t, fetch_xor);
                    common!(@f $t, fetch_nand);
                }
                impl From<$t> for $a {
                    fn from(v: $t) -> Self {
                        $a::new(v)
                    }
                }
                impl fmt::Debug for $a {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }
            };
            (@f $t:ty, $f:ident) => {
                pub fn $f(&self, v: $t, o: Ordering) -> $t {
                    mc_rt::point(stringify!($f));
                    self.0.$f(v, o)
                }
            };
        }
        macro_rules! int {
            ($($a:ident $t:ty),*) => { $(
                common!($a, $t);
                impl $a {
                    common!(@f $t, fetch_add);
                    common!(@f $t, fetch_sub);
                    common!(@f $t, fetch_max);
                    common!(@f $t, fetch_min);
                }
            )* };
        }
        int!(AtomicIsize isize, AtomicUsize usize, AtomicI64 i64, AtomicU64 u64, AtomicI32 i32, AtomicU32 u32, AtomicI16 i16, AtomicU16 u16, AtomicI8 i8, AtomicU8 u8);
        common!(AtomicBool, bool);
        pub fn fence(o: Ordering) {
            ra::fence(o)
        }
    }
}
