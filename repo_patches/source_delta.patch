From 54b88588104eaf41de29cae24d2eb39f115dad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 01/12] fix: refuse to allocate an entity index that no bitset
 can represent

The bitsets hold indexes below 2^24 (2^20 on 32-bit targets).  Allocating one more silently damaged
the live bitset, or panicked after the index had already been counted.
---
 src/entity.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index f931955..c6565b9 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -2,7 +2,6 @@ use std::{
     iter,
     num::NonZeroI32,
     sync::atomic::{AtomicU32, Ordering},
-    u32,
 };
 
 use hibitset::{AtomicBitSet, BitSet, BitSetLike, BitSetOr};
@@ -146,8 +145,8 @@ impl Allocator {
     pub fn allocate(&mut self) -> Entity {
         let index = self.cache.pop().unwrap_or_else(|| {
             let index = *self.index_len.get_mut();
-            let index_len = index.checked_add(1).expect("no entity left to allocate");
-            *self.index_len.get_mut() = index_len;
+            assert!(index < MAX_INDEX, "no entity left to allocate");
+            *self.index_len.get_mut() = index + 1;
             self.update_generation_length();
             index
         });
@@ -291,7 +290,8 @@ impl Extend<Index> for EntityCache {
     }
 }
 
-const MAX_INDEX: Index = u32::MAX;
+// All indexes must be lower than this, it is how many a hibitset with its four layers can represent.
+const MAX_INDEX: Index = (BitSet::BITS_PER_USIZE as Index).pow(4);
 type AtomicIndex = AtomicU32;
 
 type GenId = i32;
-- 
2.43.0


From ecdc7e3e73834b2767f4affef0d06369dd934947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 02/12] fix: Allocator::entity gives None for any index without
 an entity

AtomicBitSet::contains panics for indexes of 2^24 and above.
---
 src/entity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index c6565b9..65f0910 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -133,7 +133,7 @@ impl Allocator {
         let generation = self.generation(index);
         if let Some(alive) = generation.to_alive() {
             Some(Entity::new(index, alive))
-        } else if self.raised_atomic.contains(index) {
+        } else if index < MAX_INDEX && self.raised_atomic.contains(index) {
             Some(Entity::new(index, generation.raised()))
         } else {
             None
-- 
2.43.0


From a1f64e66d0c56e377e031d7c9a5f8c466cbfdd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 03/12] fix: a panic in a get_or_insert_with closure leaves the
 index empty

The index was marked as present before the closure ran, so after a panic the storage had an
uninitialized value.
---
 src/masked.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index 7dabd55..46946be 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -79,8 +79,10 @@ impl<S: RawStorage> MaskedStorage<S> {
         f: impl FnOnce() -> S::Item,
     ) -> &mut S::Item {
         if !self.mask.contains(index) {
+            // `f` may panic, the index must not be in the mask before there is a value for it.
+            let v = f();
             self.mask.add(index);
-            unsafe { self.storage.insert(index, f()) };
+            unsafe { self.storage.insert(index, v) };
         }
         unsafe { self.storage.get_mut(index) }
     }
-- 
2.43.0


From 7bb3ea9e9641f2ebb0ffd737c9634ccc10c08189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:39 +0000
Subject: [PATCH 04/12] fix: RwResources::union keeps a written resource out of
 the reads

---
 src/resources.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resources.rs b/src/resources.rs
index c1d18ca..fe0cda2 100644
--- a/src/resources.rs
+++ b/src/resources.rs
@@ -120,7 +120,7 @@ where
 impl<R: Eq + Hash + Clone> Resources for RwResources<R> {
     fn union(&mut self, other: &Self) {
         for w in &other.writes {
-            self.writes.insert(w.clone());
+            self.add_write(w.clone());
         }
 
         for r in &other.reads {
-- 
2.43.0


From 569f8a3c879c9ef73ac304c4ad5c7113e8bf0d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 05/12] fix: RwResources::map keeps a written resource out of
 the reads

This makes a difference if the function maps a read and a written resource to the same one.
---
 src/resources.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/resources.rs b/src/resources.rs
index fe0cda2..4ee521d 100644
--- a/src/resources.rs
+++ b/src/resources.rs
@@ -77,10 +77,7 @@ where
         R2: Eq + Hash,
         F: Fn(&R) -> R2,
     {
-        RwResources {
-            reads: self.reads.iter().map(&f).collect(),
-            writes: self.writes.iter().map(&f).collect(),
-        }
+        RwResources::from_iters(self.reads.iter().map(&f), self.writes.iter().map(&f))
     }
 
     pub fn add_read(&mut self, r: R) {
-- 
2.43.0


From 3ea4e6d4ee3654c0ffdd8b36381791ca272a6060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 06/12] fix: refuse to insert a component at an index that the
 mask cannot represent

BitSet::add accepts 2^24, one more than it can represent, which silently damages the mask.
---
 src/entity.rs | 2 +-
 src/masked.rs | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 65f0910..3ac9f50 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -291,7 +291,7 @@ impl Extend<Index> for EntityCache {
 }
 
 // All indexes must be lower than this, it is how many a hibitset with its four layers can represent.
-const MAX_INDEX: Index = (BitSet::BITS_PER_USIZE as Index).pow(4);
+pub(crate) const MAX_INDEX: Index = (BitSet::BITS_PER_USIZE as Index).pow(4);
 type AtomicIndex = AtomicU32;
 
 type GenId = i32;
diff --git a/src/masked.rs b/src/masked.rs
index 46946be..b1af92c 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -3,6 +3,7 @@ use std::mem;
 use hibitset::{BitIter, BitSet, BitSetLike};
 
 use crate::{
+    entity::MAX_INDEX,
     join::{Index, Join},
     storage::{DenseStorage, RawStorage},
     tracked::{ModifiedBitSet, TrackedStorage},
@@ -79,6 +80,7 @@ impl<S: RawStorage> MaskedStorage<S> {
         f: impl FnOnce() -> S::Item,
     ) -> &mut S::Item {
         if !self.mask.contains(index) {
+            assert!(index < MAX_INDEX, "index too large");
             // `f` may panic, the index must not be in the mask before there is a value for it.
             let v = f();
             self.mask.add(index);
@@ -92,6 +94,7 @@ impl<S: RawStorage> MaskedStorage<S> {
             mem::swap(&mut v, unsafe { self.storage.get_mut(index) });
             Some(v)
         } else {
+            assert!(index < MAX_INDEX, "index too large");
             self.mask.add(index);
             unsafe { self.storage.insert(index, v) };
             None
-- 
2.43.0


From 9192e3769abc50e7af72a5c05ed8c5ddcce01d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 07/12] fix: a symmetric difference of two unconstrained sets
 is constrained

Counted as unconstrained, its negation counted as constrained, so that a checked join over
e.g. !(!a ^ !b) was accepted and yielded indexes that are in no set at all.
---
 src/join.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/join.rs b/src/join.rs
index f00a9e2..1393b6d 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -369,7 +369,9 @@ define_bit_join!(impl<'a> for &'a dyn BitSetLike);
 /// * A `BitSetAll` is unconstrained.
 /// * A `BitSetNot` is constrained if its inner type is unconstrained, and vice versa.
 /// * A `BitSetAnd` is constrained if either of its inner sets is constrained.
-/// * A `BitSetOr` or `BitSetXor` is constrained if *both* of its inner sets are constrained.
+/// * A `BitSetOr` is constrained if *both* of its inner sets are constrained.
+/// * A `BitSetXor` is constrained if *both or neither* of its inner sets are constrained (all of the
+///   indexes that no constrained set contains cancel out if they are in both).
 pub trait BitSetConstrained: BitSetLike {
     fn is_constrained(&self) -> bool;
 }
@@ -431,6 +433,6 @@ where
     B: BitSetConstrained,
 {
     fn is_constrained(&self) -> bool {
-        self.0.is_constrained() && self.1.is_constrained()
+        self.0.is_constrained() == self.1.is_constrained()
     }
 }
-- 
2.43.0


From 2ecdf9399037b8d214897fd67d27f0d11934e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 08/12] Hook: let a harness decide what runs between atomic
 accesses (cfg goggles_verif)

---
 src/entity.rs       |  10 ++--
 src/lib.rs          |   4 ++
 src/verif_atomic.rs | 114 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 123 insertions(+), 5 deletions(-)
 create mode 100644 src/verif_atomic.rs

diff --git a/src/entity.rs b/src/entity.rs
index 3ac9f50..7db6763 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1,13 +1,13 @@
-use std::{
-    iter,
-    num::NonZeroI32,
-    sync::atomic::{AtomicU32, Ordering},
-};
+#[cfg(not(goggles_verif))]
+use std::sync::atomic::AtomicU32;
+use std::{iter, num::NonZeroI32, sync::atomic::Ordering};
 
 use hibitset::{AtomicBitSet, BitSet, BitSetLike, BitSetOr};
 use thiserror::Error;
 
 use crate::join::{Index, Join};
+#[cfg(goggles_verif)]
+use crate::verif_atomic::AtomicU32;
 
 #[derive(Debug, Error)]
 #[error("Entity is no longer alive or has a mismatched generation")]
diff --git a/src/lib.rs b/src/lib.rs
index 80d0061..304e538 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unknown_lints, unexpected_cfgs)]
+
 pub use hibitset;
 
 pub mod any_components;
@@ -11,6 +13,8 @@ pub mod resources;
 pub mod storage;
 pub mod system;
 pub mod tracked;
+#[cfg(goggles_verif)]
+pub mod verif_atomic;
 pub mod world;
 pub mod world_common;
 
diff --git a/src/verif_atomic.rs b/src/verif_atomic.rs
new file mode 100644
index 0000000..6614dd6
--- /dev/null
+++ b/src/verif_atomic.rs
@@ -0,0 +1,114 @@
+//! A stand-in for `AtomicU32` that lets a verification harness decide what runs between any two
+//! accesses.  Only there if built with `--cfg goggles_verif`.
+
+use std::{
+    ops::Deref,
+    sync::{
+        atomic::{self, Ordering},
+        OnceLock,
+    },
+};
+
+/// Called before every access.  If it is told that the access may fail spuriously, then returning
+/// true makes it do so.
+pub type Hook = fn(may_fail: bool) -> bool;
+
+static HOOK: OnceLock<Hook> = OnceLock::new();
+
+pub fn set_hook(hook: Hook) {
+    let _ = HOOK.set(hook);
+}
+
+fn point(may_fail: bool) -> bool {
+    HOOK.get().map_or(false, |hook| hook(may_fail))
+}
+
+#[derive(Debug, Default)]
+pub struct AtomicU32(atomic::AtomicU32);
+
+impl AtomicU32 {
+    pub fn new(v: u32) -> Self {
+        Self(atomic::AtomicU32::new(v))
+    }
+
+    pub fn get_mut(&mut self) -> &mut u32 {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> u32 {
+        self.0.into_inner()
+    }
+
+    pub fn load(&self, order: Ordering) -> u32 {
+        point(false);
+        self.0.load(order)
+    }
+
+    pub fn store(&self, v: u32, order: Ordering) {
+        point(false);
+        self.0.store(v, order)
+    }
+
+    pub fn compare_exchange(
+        &self,
+        current: u32,
+        new: u32,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<u32, u32> {
+        point(false);
+        self.0.compare_exchange(current, new, success, failure)
+    }
+
+    pub fn compare_exchange_weak(
+        &self,
+        current: u32,
+        new: u32,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<u32, u32> {
+        if point(true) {
+            return Err(self.0.load(failure));
+        }
+        self.0.compare_exchange(current, new, success, failure)
+    }
+
+    pub fn fetch_update<F: FnMut(u32) -> Option<u32>>(
+        &self,
+        set_order: Ordering,
+        fetch_order: Ordering,
+        mut f: F,
+    ) -> Result<u32, u32> {
+        let mut prev = self.load(fetch_order);
+        while let Some(next) = f(prev) {
+            match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                Ok(x) => return Ok(x),
+                Err(next_prev) => prev = next_prev,
+            }
+        }
+        Err(prev)
+    }
+}
+
+macro_rules! read_modify_write {
+    ($($name:ident)*) => {
+        impl AtomicU32 {
+            $(pub fn $name(&self, v: u32, order: Ordering) -> u32 {
+                point(false);
+                self.0.$name(v, order)
+            })*
+        }
+    };
+}
+
+read_modify_write! { swap fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor fetch_nand }
+
+/// For whatever else there may be.
+impl Deref for AtomicU32 {
+    type Target = atomic::AtomicU32;
+
+    fn deref(&self) -> &atomic::AtomicU32 {
+        point(false);
+        &self.0
+    }
+}
-- 
2.43.0


From b25e402912684995ba607d7fb1b40f5811843507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:25 +0000
Subject: [PATCH 09/12] fix: an index whose generations are used up is not
 marked as live

---
 src/entity.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 7db6763..b442d40 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -151,11 +151,12 @@ impl Allocator {
             index
         });
 
-        self.alive.add(index);
-
+        // This panics if there is no generation left, the index must not be marked as live before.
         let generation = &mut self.generations[index as usize];
         let raised = generation.raised();
         *generation = raised.generation();
+
+        self.alive.add(index);
         Entity::new(index, raised)
     }
 
@@ -173,8 +174,11 @@ impl Allocator {
             atomic_increment(&self.index_len).expect("no entity left to allocate")
         });
 
+        // This panics if there is no generation left, the index must not be marked as live before.
+        let raised = self.generation(index).raised();
+
         self.raised_atomic.add_atomic(index);
-        Entity::new(index, self.generation(index).raised())
+        Entity::new(index, raised)
     }
 
     /// Returns a `BitSetLike` for all live entities.
-- 
2.43.0


From 3a11155a57d70852ec9b6de76ab963c6f02a1968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:14 +0000
Subject: [PATCH 10/12] fix: a component that panics when dropped no longer
 leaves components of dead entities behind

---
 src/world.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index b086773..db3cfca 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -50,9 +50,9 @@ impl World {
 
     pub fn delete_entity(&mut self, e: Entity) -> Result<(), WrongGeneration> {
         self.allocator.kill(e)?;
-        for remove_component in self.remove_components.values() {
-            remove_component(&self.components, &[e]);
-        }
+        for_all(self.remove_components.values(), |remove_component| {
+            remove_component(&self.components, &[e])
+        });
         Ok(())
     }
 
@@ -120,9 +120,9 @@ impl World {
             TypeId::of::<C>(),
             Box::new(|resource_set, entities| {
                 let mut storage = resource_set.borrow_mut::<ComponentStorage<C>>();
-                for e in entities {
+                for_all(entities, |e| {
                     storage.remove(e.index());
-                }
+                });
             }),
         );
         self.components.insert(ComponentStorage::<C>::default())
@@ -207,9 +207,9 @@ impl World {
     /// No entity is actually removed until this method is called.
     pub fn merge(&mut self) {
         self.allocator.merge_atomic(&mut self.killed);
-        for remove_component in self.remove_components.values() {
-            remove_component(&self.components, &self.killed);
-        }
+        for_all(self.remove_components.values(), |remove_component| {
+            remove_component(&self.components, &self.killed)
+        });
     }
 }
 
@@ -586,3 +586,23 @@ where
         world.write_component()
     }
 }
+
+// Calls the given function with all of the items, even if it panics for one of them.
+//
+// Dropping a component may panic, and no component of a dead entity may be left behind.
+fn for_all<I: IntoIterator>(items: I, f: impl FnMut(I::Item)) {
+    struct DropGuard<I: Iterator, F: FnMut(I::Item)>(I, F);
+
+    impl<I: Iterator, F: FnMut(I::Item)> Drop for DropGuard<I, F> {
+        fn drop(&mut self) {
+            while let Some(item) = self.0.next() {
+                (self.1)(item);
+            }
+        }
+    }
+
+    let mut guard = DropGuard(items.into_iter(), f);
+    while let Some(item) = guard.0.next() {
+        (guard.1)(item);
+    }
+}
-- 
2.43.0


From 77ad7d98a1b81a93532238476644ab9c97e5e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 11/12] fix: references from a GuardedElement borrow from it,
 so that two of them can not alias

---
 src/masked.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/masked.rs b/src/masked.rs
index b1af92c..cc3be94 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -239,11 +239,11 @@ pub struct GuardedElement<'a, S> {
 }
 
 impl<'a, S: RawStorage> GuardedElement<'a, S> {
-    pub fn get(&self) -> &'a S::Item {
+    pub fn get(&self) -> &S::Item {
         unsafe { self.storage.get(self.index) }
     }
 
-    pub fn get_mut(&mut self) -> &'a mut S::Item {
+    pub fn get_mut(&mut self) -> &mut S::Item {
         unsafe { self.storage.get_mut(self.index) }
     }
 }
-- 
2.43.0


From b03777bc66dff0dda762c3cd6d40e35ef7e57896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:50 +0000
Subject: [PATCH 12/12] fix: a guard or mutable join can only be sent to
 another thread if its items can be

---
 src/join.rs   | 9 ++++++---
 src/masked.rs | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/join.rs b/src/join.rs
index 1393b6d..9f3bc97 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -1,3 +1,5 @@
+use std::marker::PhantomData;
+
 use hibitset::{
     AtomicBitSet, BitIter, BitSet, BitSetAll, BitSetAnd, BitSetLike, BitSetNot, BitSetOr, BitSetXor,
 };
@@ -103,7 +105,8 @@ impl<J: Join> Join for MaybeJoin<J> {
     }
 }
 
-pub struct JoinIter<J: Join>(BitIter<J::Mask>, J::Access);
+// The access of a mutable join may be `Send` where the join itself is not.
+pub struct JoinIter<J: Join>(BitIter<J::Mask>, J::Access, PhantomData<J>);
 
 impl<J: Join> JoinIter<J> {
     pub fn new(j: J) -> Result<Self, JoinIterUnconstrained>
@@ -112,7 +115,7 @@ impl<J: Join> JoinIter<J> {
     {
         let (mask, access) = j.open();
         if mask.is_constrained() {
-            Ok(Self(mask.iter(), access))
+            Ok(Self(mask.iter(), access, PhantomData))
         } else {
             Err(JoinIterUnconstrained)
         }
@@ -120,7 +123,7 @@ impl<J: Join> JoinIter<J> {
 
     pub fn new_unconstrained(j: J) -> Self {
         let (mask, access) = j.open();
-        Self(mask.iter(), access)
+        Self(mask.iter(), access, PhantomData)
     }
 }
 
diff --git a/src/masked.rs b/src/masked.rs
index cc3be94..f109ed9 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -1,4 +1,4 @@
-use std::mem;
+use std::{marker::PhantomData, mem};
 
 use hibitset::{BitIter, BitSet, BitSetLike};
 
@@ -68,6 +68,7 @@ impl<S: RawStorage> MaskedStorage<S> {
             Some(GuardedElement {
                 storage: &self.storage,
                 index,
+                marker: PhantomData,
             })
         } else {
             None
@@ -229,6 +230,7 @@ impl<'a, S: RawStorage> Join for GuardedJoin<'a, S> {
         GuardedElement {
             storage: *access,
             index,
+            marker: PhantomData,
         }
     }
 }
@@ -236,6 +238,8 @@ impl<'a, S: RawStorage> Join for GuardedJoin<'a, S> {
 pub struct GuardedElement<'a, S> {
     storage: &'a S,
     index: Index,
+    // A guard can only be sent to another thread if a mutable reference to its element can be.
+    marker: PhantomData<&'a mut S>,
 }
 
 impl<'a, S: RawStorage> GuardedElement<'a, S> {
-- 
2.43.0

