//! The part of owning_ref 0.4 that pairs an owner with something borrowed from it.
use std::ops::{Deref, DerefMut};
use std::rc::Rc;
use std::sync::Arc;

/// # Safety
/// The target must not move when the owner does.
pub unsafe trait StableAddress: Deref {}
unsafe impl<T: ?Sized> StableAddress for Box<T> {}
unsafe impl<T: ?Sized> StableAddress for Rc<T> {}
unsafe impl<T: ?Sized> StableAddress for Arc<T> {}
unsafe impl<T> StableAddress for Vec<T> {}
unsafe impl StableAddress for String {}

/// Fields are dropped in order: first what borrows, then the owner.
pub struct OwningHandle<O: StableAddress, H: Deref> {
    handle: H,
    _owner: O,
}
impl<O: StableAddress, H: Deref> OwningHandle<O, H> {
    pub fn new_with_fn<F: FnOnce(*const O::Target) -> H>(owner: O, f: F) -> Self {
        let handle = f(&*owner as *const O::Target);
        OwningHandle { handle, _owner: owner }
    }
    pub fn try_new<F: FnOnce(*const O::Target) -> Result<H, E>, E>(owner: O, f: F) -> Result<Self, E> {
        let handle = f(&*owner as *const O::Target)?;
        Ok(OwningHandle { handle, _owner: owner })
    }
    pub fn as_owner(&self) -> &O {
        &self._owner
    }
}
impl<O: StableAddress, H: Deref> Deref for OwningHandle<O, H> {
    type Target = H::Target;
    fn deref(&self) -> &H::Target {
        &self.handle
    }
}
impl<O: StableAddress, H: DerefMut> DerefMut for OwningHandle<O, H> {
    fn deref_mut(&mut self) -> &mut H::Target {
        &mut self.handle
    }
}
