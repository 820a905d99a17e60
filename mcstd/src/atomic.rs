//! Integer atomics for `static` counters, one value per thread of the explorer.
//!
//! The explorer runs many executions in one process; each stands for a process of its own, so what
//! a static counter holds must not leak from one execution (or worker thread) to another. `reset`
//! starts a new execution whose counters have already counted to their initial value + `base`.
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
pub use std::sync::atomic::Ordering;

thread_local! {
    static VALUES: RefCell<HashMap<usize, u64>> = RefCell::new(HashMap::new());
    static BASE: Cell<u64> = Cell::new(0);
}

/// what happened before the execution: this many steps of every counter
pub fn reset(base: u64) {
    VALUES.with(|v| v.borrow_mut().clear());
    BASE.with(|b| b.set(base));
}

macro_rules! atomic {
    ($name:ident, $t:ty) => {
        #[derive(Debug)]
        pub struct $name($t, u8);
        impl $name {
            pub const fn new(x: $t) -> Self {
                $name(x, 0)
            }
            fn with<R>(&self, f: impl FnOnce(&mut $t) -> R) -> R {
                VALUES.with(|v| {
                    let mut v = v.borrow_mut();
                    let x = v.entry(self as *const _ as usize).or_insert_with(|| (self.0 as u64).wrapping_add(BASE.with(|b| b.get())));
                    let mut t = *x as $t;
                    let r = f(&mut t);
                    *x = t as u64;
                    r
                })
            }
            pub fn load(&self, _: Ordering) -> $t {
                self.with(|x| *x)
            }
            pub fn store(&self, n: $t, _: Ordering) {
                self.with(|x| *x = n)
            }
            pub fn swap(&self, n: $t, _: Ordering) -> $t {
                self.with(|x| std::mem::replace(x, n))
            }
            pub fn fetch_add(&self, n: $t, _: Ordering) -> $t {
                self.with(|x| std::mem::replace(x, x.wrapping_add(n)))
            }
            pub fn fetch_sub(&self, n: $t, _: Ordering) -> $t {
                self.with(|x| std::mem::replace(x, x.wrapping_sub(n)))
            }
            pub fn fetch_max(&self, n: $t, _: Ordering) -> $t {
                self.with(|x| std::mem::replace(x, n.max(*x)))
            }
            pub fn fetch_min(&self, n: $t, _: Ordering) -> $t {
                self.with(|x| std::mem::replace(x, n.min(*x)))
            }
            pub fn compare_exchange(&self, old: $t, new: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                self.with(|x| if *x == old { Ok(std::mem::replace(x, new)) } else { Err(*x) })
            }
            pub fn compare_exchange_weak(&self, old: $t, new: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.compare_exchange(old, new, s, f)
            }
            pub fn fetch_update(&self, _: Ordering, _: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                let mut f = f;
                let old = self.with(|x| *x);
                match f(old) {
                    Some(n) => {
                        self.with(|x| *x = n);
                        Ok(old)
                    }
                    None => Err(old),
                }
            }
        }
    };
}
atomic!(AtomicU32, u32);
atomic!(AtomicU64, u64);
atomic!(AtomicUsize, usize);
atomic!(AtomicI32, i32);
atomic!(AtomicI64, i64);
