From 9cbbbf4a21504196d3395292bcf8a9526d8be228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:16 +0000
Subject: [PATCH 1/8] fix: compute next versions before mutating storage in
 destroy

A slot or archetype version overflow panicked half way through force_destroy,
after the components were moved out but before len was decremented, leaving
dropped components readable (use after free) and a bogus destroyed event.
---
 src/archetype/slot.rs    |  8 ++++----
 src/archetype/storage.rs | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/archetype/slot.rs b/src/archetype/slot.rs
index 366a052..7b1d555 100644
--- a/src/archetype/slot.rs
+++ b/src/archetype/slot.rs
@@ -150,13 +150,13 @@ impl Slot {
         // NOTE: We increment the version on release, not assignment.
     }
 
-    /// Releases a slot and increments its version, invalidating all handles.
-    /// Returns an `EcsError::VersionOverflow` if the version increment overflows.
+    /// Releases a slot and advances its version, invalidating all handles. The caller
+    /// computes `next_version` up front, since advancing a version panics on overflow.
     #[inline(always)]
-    pub(crate) fn release(&mut self, index_next_free: SlotIndex) {
+    pub(crate) fn release(&mut self, index_next_free: SlotIndex, next_version: SlotVersion) {
         debug_assert!(self.is_free() == false);
         self.index = index_next_free;
-        self.version = self.version.next();
+        self.version = next_version;
     }
 }
 
diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 9f331fd..61a8631 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -559,6 +559,16 @@ macro_rules! declare_storage_n {
                             entities[dense_index_usize].version(),
                             self.slots.slice(self.capacity())[slot_index_usize].version());
 
+                        // Compute the next versions before touching any data. Either of these
+                        // may panic on overflow, and a panic must leave the storage unchanged.
+                        let next_slot_version = self
+                            .slots
+                            .slice(self.capacity())
+                            .get_unchecked(slot_index_usize) // SAFETY: See declaration.
+                            .version()
+                            .next();
+                        let next_version = self.version.next();
+
                         #[cfg(feature = "events")]
                         {
                             self.destroyed.push(*entities.get_unchecked(dense_index_usize));
@@ -589,10 +599,10 @@ macro_rules! declare_storage_n {
                         // Return the target slot to the free list
                         slots
                             .get_unchecked_mut(slot_index_usize) // SAFETY: See declaration.
-                            .release(self.free_head);
+                            .release(self.free_head, next_slot_version);
 
                         // Advance this storage's overall version (for add/removes).
-                        self.version = self.version.next();
+                        self.version = next_version;
 
                         result
                     };
-- 
2.43.0


From 1f0d3b3852cc02b8ecc4ba0b0148f12603aacbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:44 +0000
Subject: [PATCH 2/8] fix: reject stale direct handles in to_direct

to_direct returned any EntityDirect as-is, so a direct handle invalidated by a
removal (or to a destroyed entity) was still accepted by this lookup path.
---
 src/archetype/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 61a8631..fa6eb0e 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -672,7 +672,9 @@ macro_rules! declare_storage_n {
 
                 #[inline(always)]
                 fn resolve_direct(&self, entity: EntityDirect<A>) -> Option<EntityDirect<A>> {
-                    Some(entity) // Trivially return, as we're already an EntityDirect
+                    // We're already an EntityDirect, but we still need to check that it's valid.
+                    let (_, dense_index) = self.resolve_direct(entity)?;
+                    Some(EntityDirect::new(dense_index, self.version()))
                 }
 
                 #[inline]
-- 
2.43.0


From b4000a281ea849df88491212728caa7a7200a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 3/8] fix: refresh the archetype version on each step of
 ecs_iter_destroy

The version was read once before the loop, so every direct handle given to the
closure after the first destroy was already stale and did not resolve.
---
 macros/src/generate/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/generate/query.rs b/macros/src/generate/query.rs
index 800635b..acf067b 100644
--- a/macros/src/generate/query.rs
+++ b/macros/src/generate/query.rs
@@ -439,12 +439,13 @@ pub fn generate_query_iter_destroy(
                     let mut closure = |#(#attrs #arg: &#maybe_mut #Type),*| #body;
 
                     let archetype = #get_archetype;
-                    let version = archetype.version();
                     let len = archetype.len();
 
                     // Iterate in reverse order to still visit each entity once.
                     // Note: This assumes that we remove entities by swapping.
                     for idx in (0..len).rev() {
+                        // Destroying an entity advances the version, so get it every time.
+                        let version = archetype.version();
                         let slices = #get_slices;
                         match closure(#(#attrs #bind),*).into() {
                             EcsStepDestroy::Continue => {
-- 
2.43.0


From 0e2da2c4f492c79403becec6de12cc38ca05a890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 4/8] fix: never resolve another archetype's handle after an
 unchecked conversion

Lookups compared only the slot (or dense) index and version, so a typed handle
made from another archetype's handle with from_any_unchecked could match an
unrelated live entity, although the handles are not equal.
---
 src/archetype/storage.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index fa6eb0e..677258b 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -344,6 +344,11 @@ macro_rules! declare_storage_n {
                         return None;
                     }
 
+                    // An unchecked conversion can give us another archetype's entity handle
+                    if entity.into_any().archetype_id() != A::ARCHETYPE_ID {
+                        return None;
+                    }
+
                     // Get the index into the slot array from the entity.
                     let slot_index = entity.slot_index();
 
@@ -400,6 +405,11 @@ macro_rules! declare_storage_n {
                         return None;
                     }
 
+                    // An unchecked conversion can give us another archetype's entity handle
+                    if entity.into_any().archetype_id() != A::ARCHETYPE_ID {
+                        return None;
+                    }
+
                     // For direct entities, we compare against the storage version
                     if entity.version() != self.version() {
                         return None;
-- 
2.43.0


From 7a7c5b276f67ba1b57fffa01b2a2912f169dd631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 5/8] fix: drop already cloned components if a clone panics

A panic in a component's Clone leaked every component value (and allocation)
that had been cloned into the new storage up to that point.
---
 src/archetype/storage.rs | 47 +++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 677258b..131e528 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -739,12 +739,24 @@ macro_rules! declare_storage_n {
                 fn clone(&self) -> Self {
                     #(let ref_d~I = self.d~I.borrow();)*
 
-                    let mut new_slots = DataPtr::with_capacity(self.capacity);
-                    let mut new_entities = DataPtr::with_capacity(self.capacity);
-                    #(let mut new_d~I = DataPtr::with_capacity(self.capacity);)*
+                    // If a component's clone panics, dropping this will clean up everything
+                    // that we've cloned so far, because we only advance len by whole rows.
+                    let mut new = Self {
+                        len: 0,
+                        version: self.version,
+                        capacity: self.capacity,
+                        free_head: self.free_head,
+                        slots: DataPtr::with_capacity(self.capacity),
+                        entities: DataPtr::with_capacity(self.capacity),
+                        #(d~I: RefCell::new(DataPtr::with_capacity(self.capacity)),)*
 
-                    unsafe {
+                        #[cfg(feature = "events")]
+                        created: self.created.clone(),
+                        #[cfg(feature = "events")]
+                        destroyed: self.destroyed.clone(),
+                    };
 
+                    unsafe {
                         // SAFETY: We know that the storage is valid up to self.len.
                         let old_slots = self.slots.slice(self.capacity);
                         let old_entities = self.entities.slice(self.len);
@@ -753,31 +765,22 @@ macro_rules! declare_storage_n {
                         for idx in 0..self.capacity {
                             // SAFETY: We know that the slot storage is valid up to our capacity,
                             // and the new storage has no data that needs to be dropped first.
-                            new_slots.write(idx, old_slots.get_unchecked(idx).clone());
+                            new.slots.write(idx, old_slots.get_unchecked(idx).clone());
                         }
 
                         for idx in 0..self.len {
+                            // Clone the whole row first, since this may run user code.
+                            #(let val_~I = old_~I.get_unchecked(idx).clone();)*
+
                             // SAFETY: We know that the slot storage is valid up to our len,
                             // and the new storage has no data that needs to be dropped first.
-                            new_entities.write(idx, old_entities.get_unchecked(idx).clone());
-                            #(new_d~I.write(idx, old_~I.get_unchecked(idx).clone());)*
-                        }
-
-                        Self {
-                            len: self.len,
-                            version: self.version,
-                            capacity: self.capacity,
-                            free_head: self.free_head,
-                            slots: new_slots,
-                            entities: new_entities,
-                            #(d~I: RefCell::new(new_d~I),)*
-
-                            #[cfg(feature = "events")]
-                            created: self.created.clone(),
-                            #[cfg(feature = "events")]
-                            destroyed: self.destroyed.clone(),
+                            new.entities.write(idx, old_entities.get_unchecked(idx).clone());
+                            #(new.d~I.get_mut().write(idx, val_~I);)*
+                            new.len = idx + 1;
                         }
                     }
+
+                    new
                 }
             }
 
-- 
2.43.0


From ce3d08a1bcc04c59d8d9e584dbae9657d75eb09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 6/8] fix: drop every component of a storage even if one drop
 panics

A panic in a component's Drop while a world was being dropped leaked all of
the archetype's remaining components and its allocations.
---
 src/archetype/storage.rs | 71 ++++++++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 14 deletions(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 131e528..1e1bb4b 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -701,16 +701,17 @@ macro_rules! declare_storage_n {
             {
                 #[inline(always)]
                 fn drop(&mut self) {
-                    // SAFETY: We guarantee that the storage is valid up to self.len.
-                    unsafe {
-                        #(self.d~I.get_mut().drop_to(self.len);)*
-                        // We don't need to drop the other stuff since it's all trivial.
+                    let (len, capacity) = (self.len, self.capacity);
 
-                        // For dynamic storage we need to deallocate when dropping.
-                        self.slots.dealloc(self.capacity);
-                        self.entities.dealloc(self.capacity);
-                        #(self.d~I.get_mut().dealloc(self.capacity);)*
-                    };
+                    // SAFETY: We guarantee that the storage is valid up to self.len.
+                    // We don't need to drop the slots or entities since they're all trivial,
+                    // but for dynamic storage we need to deallocate them when dropping.
+                    // NOTE: If a component's drop panics then the remaining guards still run.
+                    let _guards = unsafe {(
+                        #(DataPtrGuard::new(self.d~I.get_mut(), len, capacity),)*
+                        DataPtrGuard::new(&mut self.slots, 0, capacity),
+                        DataPtrGuard::new(&mut self.entities, 0, capacity),
+                    )};
                 }
             }
 
@@ -1071,7 +1072,8 @@ impl<T> DataPtr<T> {
         }
     }
 
-    /// Drops all elements in the range `0..len`.
+    /// Drops all elements in the range `0..len`. If dropping one of them panics, then
+    /// the rest are still dropped before this unwinds.
     ///
     /// # Safety
     ///
@@ -1081,16 +1083,57 @@ impl<T> DataPtr<T> {
     #[inline(always)]
     unsafe fn drop_to(&mut self, len: usize) {
         unsafe {
+            // SAFETY: The caller guarantees these elements are valid.
+            ptr::drop_in_place(self.slice_mut(len));
+
             for i in 0..len {
-                let i_ptr = self.0.as_ptr().add(i);
-                // SAFETY: The caller guarantees this element is valid.
-                ptr::drop_in_place(i_ptr as *mut T);
-                ptr::write(i_ptr, MaybeUninit::uninit()); // Hint for Miri
+                self.0.as_ptr().add(i).write(MaybeUninit::uninit()); // Hint for Miri
             }
         };
     }
 }
 
+/// Drops the elements of a data array and then deallocates it, even if unwinding.
+struct DataPtrGuard<'a, T> {
+    data: DataPtrDealloc<'a, T>,
+    len: usize,
+}
+
+struct DataPtrDealloc<'a, T> {
+    data: &'a mut DataPtr<T>,
+    capacity: usize,
+}
+
+impl<'a, T> DataPtrGuard<'a, T> {
+    /// # Safety
+    ///
+    /// It is up to the caller to guarantee the following:
+    /// - All elements in the range `0..len` are valid
+    /// - This array has exactly `capacity` elements allocated
+    /// - This array isn't used again
+    #[inline(always)]
+    unsafe fn new(data: &'a mut DataPtr<T>, len: usize, capacity: usize) -> Self {
+        let data = DataPtrDealloc { data, capacity };
+        Self { data, len }
+    }
+}
+
+impl<T> Drop for DataPtrGuard<'_, T> {
+    #[inline(always)]
+    fn drop(&mut self) {
+        // SAFETY: This is guaranteed by the caller of new.
+        unsafe { self.data.data.drop_to(self.len) }
+    }
+}
+
+impl<T> Drop for DataPtrDealloc<'_, T> {
+    #[inline(always)]
+    fn drop(&mut self) {
+        // SAFETY: This is guaranteed by the caller of DataPtrGuard::new.
+        unsafe { self.data.dealloc(self.capacity) }
+    }
+}
+
 #[inline(always)]
 fn new_layout<T>(capacity: usize) -> Layout {
     let layout = Layout::array::<T>(capacity).unwrap();
-- 
2.43.0


From 945616138e0cc3f55053cd23cd49397959f54446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 7/8] fix: support cfg attributes on OneOf query parameters

A cfg attribute on a OneOf parameter was a compile error regardless of its
predicate, instead of behaving as if the parameter (or attribute) were absent.
---
 macros/src/generate/query.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/macros/src/generate/query.rs b/macros/src/generate/query.rs
index acf067b..a8001e7 100644
--- a/macros/src/generate/query.rs
+++ b/macros/src/generate/query.rs
@@ -670,11 +670,14 @@ fn bind_query_params(
                     }
                 }
                 ParseQueryParamType::OneOf(args) => {
-                    if param.cfgs.len() > 0 {
-                        return Err(syn::Error::new(
-                            param.name.span(),
-                            "cfg attributes not currently supported on OneOf",
-                        ));
+                    if param.is_cfg_enabled == false {
+                        // This param will be removed by its cfg, so what we bind here doesn't
+                        // matter. We just can't leave a OneOf after binding the params.
+                        bound.push(ParseQueryParam {
+                            param_type: ParseQueryParamType::EntityWild,
+                            ..param.clone()
+                        });
+                        continue;
                     }
 
                     if let Some(found) = bind_one_of(archetype, args)? {
-- 
2.43.0


From 2a1090707ff3a1dd5cbabc1a7f0490bbe3861a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 8/8] hook: __verif_fast_forward behind cfg(gecs_verif)

Advances the generational versions as if entities had been created and
destroyed many times, so that overflow can be reached quickly when verifying.
---
 src/archetype/slot.rs    | 10 ++++++++++
 src/archetype/storage.rs | 16 ++++++++++++++++
 src/version.rs           | 23 +++++++++++++++++++++++
 3 files changed, 49 insertions(+)

diff --git a/src/archetype/slot.rs b/src/archetype/slot.rs
index 7b1d555..6b1affb 100644
--- a/src/archetype/slot.rs
+++ b/src/archetype/slot.rs
@@ -160,6 +160,16 @@ impl Slot {
     }
 }
 
+// Verification hook, see `__verif_fast_forward` in the archetype storage.
+#[allow(unexpected_cfgs)]
+#[cfg(gecs_verif)]
+impl Slot {
+    pub(crate) fn verif_advance(&mut self, steps: u32) {
+        assert!(self.is_free());
+        self.version = self.version.verif_advance(steps);
+    }
+}
+
 // Need to enforce this invariant here just in case.
 // If this isn't true, then we can't trust the FREE_LIST_END value.
 #[test]
diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 1e1bb4b..004e3ff 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -333,6 +333,22 @@ macro_rules! declare_storage_n {
                     }
                 )*
 
+                /// Verification hook. Has the same effect on the generational versions as
+                /// creating and then destroying an entity `cycles` times, without the wait.
+                #[allow(unexpected_cfgs)]
+                #[cfg(gecs_verif)]
+                #[doc(hidden)]
+                pub fn __verif_fast_forward(&mut self, cycles: u32) {
+                    assert!(self.len < self.capacity);
+                    let slot_index: usize = self.free_head.index_free().unwrap().into();
+                    unsafe {
+                        // SAFETY: The slot storage is valid up to our capacity.
+                        let slots = self.slots.slice_mut(self.capacity);
+                        slots[slot_index].verif_advance(cycles);
+                    }
+                    self.version = self.version.verif_advance(cycles);
+                }
+
                 /// Resolves the slot index and data index for a given entity.
                 /// Both indices are guaranteed to point to valid corresponding cells.
                 #[inline(always)]
diff --git a/src/version.rs b/src/version.rs
index 1149a9b..0211f1a 100644
--- a/src/version.rs
+++ b/src/version.rs
@@ -69,3 +69,26 @@ impl ArchetypeVersion {
         }
     }
 }
+
+// Verification hook, see `__verif_fast_forward` in the archetype storage.
+#[allow(unexpected_cfgs)]
+#[cfg(gecs_verif)]
+mod verif {
+    use super::*;
+
+    impl SlotVersion {
+        pub(crate) fn verif_advance(&self, steps: u32) -> Self {
+            Self {
+                version: self.version.checked_add(steps).expect("fast forward overflow"),
+            }
+        }
+    }
+
+    impl ArchetypeVersion {
+        pub(crate) fn verif_advance(&self, steps: u32) -> Self {
+            Self {
+                version: self.version.checked_add(steps).expect("fast forward overflow"),
+            }
+        }
+    }
+}
-- 
2.43.0

