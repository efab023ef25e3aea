//! A stand-in for the one type of owning_ref that /repo/native/src uses.
use std::ops::{Deref, DerefMut};

/// A handle kept together with the owner it points into; the handle is dropped first.
pub struct OwningHandle<O, H> {
    handle: H,
    owner: O,
}

impl<O: Deref, H: Deref> OwningHandle<O, H> {
    pub fn new_with_fn<F: FnOnce(*const O::Target) -> H>(owner: O, f: F) -> Self {
        let h = f(&*owner as *const O::Target);
        OwningHandle { handle: h, owner }
    }
    pub fn as_owner(&self) -> &O {
        &self.owner
    }
}
impl<O, H: Deref> Deref for OwningHandle<O, H> {
    type Target = H::Target;
    fn deref(&self) -> &H::Target {
        self.handle.deref()
    }
}
impl<O, H: DerefMut> DerefMut for OwningHandle<O, H> {
    fn deref_mut(&mut self) -> &mut H::Target {
        self.handle.deref_mut()
    }
}
