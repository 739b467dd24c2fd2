//! Harness state shared by tasks. Exactly one task runs at a time, so plain access is sound;
//! access makes no scheduling points.
use crate::sched;
use std::cell::UnsafeCell;
use std::sync::Arc;

pub struct Sh<T>(Arc<UnsafeCell<T>>);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Clone for Sh<T> {
    fn clone(&self) -> Self {
        Sh(self.0.clone())
    }
}
impl<T> Sh<T> {
    pub fn new(t: T) -> Sh<T> {
        Sh(Arc::new(UnsafeCell::new(t)))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        sched::inert(|| f(unsafe { &mut *self.0.get() }))
    }
    /// A reference for use by code that itself should make scheduling points.
    #[allow(clippy::mut_from_ref)]
    pub fn raw(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}
