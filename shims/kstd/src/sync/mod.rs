pub use std::sync::*;
use std::cell::{Ref, RefCell, RefMut};

/// Called before every lock acquisition and after every release: the places where another thread
/// can run. The callback does not run inside itself.
static mut OBSERVER: Option<fn()> = None;
static mut INSIDE: bool = false;
pub fn set_observer(f: Option<fn()>) {
    unsafe {
        OBSERVER = f;
        INSIDE = false;
    }
}
fn others_run() {
    unsafe {
        if let (Some(f), false) = (OBSERVER, INSIDE) {
            INSIDE = true;
            f();
            INSIDE = false;
        }
    }
}

/// Single-threaded stand-in: never poisoned, a conflicting borrow panics (it would
/// deadlock or panic in the original).
#[derive(Debug, Default)]
pub struct RwLock<T>(RefCell<T>);
unsafe impl<T> Sync for RwLock<T> {}
unsafe impl<T> Send for RwLock<T> {}
pub type RwLockReadGuard<'a, T> = Ref<'a, T>;
pub type RwLockWriteGuard<'a, T> = RefMut<'a, T>;
pub type MutexGuard<'a, T> = RefMut<'a, T>;
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(RefCell::new(t))
    }
    pub fn read(&self) -> LockResult<Ref<'_, T>> {
        others_run();
        Ok(self.0.borrow())
    }
    pub fn write(&self) -> LockResult<RefMut<'_, T>> {
        others_run();
        Ok(self.0.borrow_mut())
    }
    pub fn try_read(&self) -> TryLockResult<Ref<'_, T>> {
        others_run();
        self.0.try_borrow().map_err(|_| TryLockError::WouldBlock)
    }
    pub fn try_write(&self) -> TryLockResult<RefMut<'_, T>> {
        others_run();
        self.0.try_borrow_mut().map_err(|_| TryLockError::WouldBlock)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.0.get_mut())
    }
    pub fn is_poisoned(&self) -> bool {
        false
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.0.into_inner())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
#[derive(Debug, Default)]
pub struct Mutex<T>(RefCell<T>);
unsafe impl<T> Sync for Mutex<T> {}
unsafe impl<T> Send for Mutex<T> {}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(RefCell::new(t))
    }
    pub fn lock(&self) -> LockResult<RefMut<'_, T>> {
        others_run();
        Ok(self.0.borrow_mut())
    }
    pub fn try_lock(&self) -> TryLockResult<RefMut<'_, T>> {
        others_run();
        self.0.try_borrow_mut().map_err(|_| TryLockError::WouldBlock)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.0.get_mut())
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.0.into_inner())
    }
}
