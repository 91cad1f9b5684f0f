//! A storage of the user's, which refuses whatever its contract rules out.

use std::{cell::UnsafeCell, collections::BTreeMap, mem, thread};

use goggles::RawStorage;

pub struct Own<T>(BTreeMap<u32, UnsafeCell<T>>);

// Like any storage's, its cells are only written to by whoever has that element to himself.
unsafe impl<T: Send> Send for Own<T> {}
unsafe impl<T: Sync> Sync for Own<T> {}

impl<T> Default for Own<T> {
    fn default() -> Self {
        Own(BTreeMap::new())
    }
}

impl<T> RawStorage for Own<T> {
    type Item = T;

    unsafe fn get(&self, index: u32) -> &T {
        match self.0.get(&index) {
            Some(v) => &*v.get(),
            None => panic!("get of the empty index {index} of a storage"),
        }
    }

    unsafe fn get_mut(&self, index: u32) -> &mut T {
        match self.0.get(&index) {
            Some(v) => &mut *v.get(),
            None => panic!("get_mut of the empty index {index} of a storage"),
        }
    }

    unsafe fn insert(&mut self, index: u32, value: T) {
        if self.0.contains_key(&index) {
            panic!("insert at the index {index} of a storage, which is not empty");
        }
        self.0.insert(index, UnsafeCell::new(value));
    }

    unsafe fn remove(&mut self, index: u32) -> T {
        match self.0.remove(&index) {
            Some(v) => v.into_inner(),
            None => panic!("remove of the empty index {index} of a storage"),
        }
    }
}

impl<T> Drop for Own<T> {
    fn drop(&mut self) {
        // Values without a destructor may be left behind.
        if mem::needs_drop::<T>() && !self.0.is_empty() && !thread::panicking() {
            panic!("a storage dropped with {} indexes that are not empty", self.0.len());
        }
    }
}
