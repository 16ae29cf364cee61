From 488f5f906b8f524392d11ebca2c356eb2edb37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 01/43] fix: make reference count decrements AcqRel, so that
 dropping and freeing happen after every use

The last owner dropped the value and freed its memory without synchronizing with the
other owners' accesses.
---
 stabby-abi/src/alloc/sync.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 9036d1a..8695e5f 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -286,7 +286,7 @@ impl<T, Alloc: IAlloc> Drop for Arc<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -383,7 +383,7 @@ impl<T, Alloc: IAlloc> Drop for Weak<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.ptr.prefix() }
             .weak
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -586,7 +586,7 @@ impl<T, Alloc: IAlloc> Drop for ArcSlice<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.inner.start.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -713,7 +713,7 @@ impl<T, Alloc: IAlloc> Drop for WeakSlice<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.inner.start.prefix() }
             .weak
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -744,7 +744,7 @@ impl<T, Alloc: IAlloc> crate::IPtrOwned for Arc<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         if unsafe { this.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -772,7 +772,7 @@ impl<T, Alloc: IAlloc> crate::IPtrOwned for Weak<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         if unsafe { this.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
-- 
2.43.0


From b58b43aca4e5eb99b3c543d50b487c235e15c545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 02/43] fix: dropping a Dyn<Weak> releases a weak reference
 instead of a strong one

It decremented the strong count, which dropped the value under its owners' feet.
---
 stabby-abi/src/alloc/sync.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 8695e5f..a158ab5 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -769,18 +769,9 @@ impl<T, Alloc: IAlloc> IntoDyn for Arc<T, Alloc> {
 }
 
 impl<T, Alloc: IAlloc> crate::IPtrOwned for Weak<T, Alloc> {
-    fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
-        if unsafe { this.ptr.prefix() }
-            .strong
-            .fetch_sub(1, Ordering::AcqRel)
-            != 1
-        {
-            return;
-        }
-        unsafe {
-            drop(this.ptr.cast().as_mut());
-            _ = Weak::<T, Alloc>::from_raw(this.ptr);
-        }
+    fn drop(this: &mut core::mem::ManuallyDrop<Self>, _drop: unsafe extern "C" fn(&mut ())) {
+        // The value belongs to the strong references: only the weak reference is to be released.
+        unsafe { core::mem::ManuallyDrop::drop(this) }
     }
 }
 
-- 
2.43.0


From de583c6bfb70fb6a78955af05316d810697bfcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 03/43] fix: upgrading a weak reference must not resurrect the
 value nor leak it

The upgrade flagged the strong count's top bit before looking at it: a strong reference dropped
meanwhile didn't recognize itself as the last one and leaked the value, and the store of 0 on the
failure path could erase another thread's increment.
---
 stabby-abi/src/alloc/sync.rs | 44 ++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index a158ab5..4926a71 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -39,6 +39,20 @@ unsafe impl<T: Send + Sync, Alloc: IAlloc + Send + Sync> Send for Arc<T, Alloc>
 unsafe impl<T: Send + Sync, Alloc: IAlloc + Send + Sync> Sync for Arc<T, Alloc> {}
 const USIZE_TOP_BIT: usize = 1 << (core::mem::size_of::<usize>() as i32 * 8 - 1);
 
+/// Increments `strong` unless it has reached 0, in which case the value has been (or is being) dropped.
+fn try_increment(strong: &AtomicUsize) -> bool {
+    let mut count = strong.load(Ordering::Relaxed);
+    loop {
+        if count & !USIZE_TOP_BIT == 0 {
+            return false;
+        }
+        match strong.compare_exchange_weak(count, count + 1, Ordering::Acquire, Ordering::Relaxed) {
+            Ok(_) => return true,
+            Err(current) => count = current,
+        }
+    }
+}
+
 #[cfg(not(stabby_default_alloc = "disabled"))]
 impl<T> Arc<T> {
     /// Attempts to allocate [`Self`], initializing it with `constructor`.
@@ -357,17 +371,10 @@ impl<T, Alloc: IAlloc> Weak<T, Alloc> {
     /// Attempts to upgrade self into an Arc.
     pub fn upgrade(&self) -> Option<Arc<T, Alloc>> {
         let strong = &unsafe { self.ptr.prefix() }.strong;
-        let count = strong.fetch_or(USIZE_TOP_BIT, Ordering::Acquire);
-        match count {
-            0 | USIZE_TOP_BIT => {
-                strong.store(0, Ordering::Release);
-                None
-            }
-            _ => {
-                strong.fetch_add(1, Ordering::Release);
-                strong.fetch_and(!USIZE_TOP_BIT, Ordering::Release);
-                Some(Arc { ptr: self.ptr })
-            }
+        if try_increment(strong) {
+            Some(Arc { ptr: self.ptr })
+        } else {
+            None
         }
     }
 }
@@ -650,17 +657,10 @@ impl<T, Alloc: IAlloc> WeakSlice<T, Alloc> {
     /// Return a strong reference to the slice if it hasn't been destroyed yet.
     pub fn upgrade(&self) -> Option<ArcSlice<T, Alloc>> {
         let strong = &unsafe { self.inner.start.prefix() }.strong;
-        let count = strong.fetch_or(USIZE_TOP_BIT, Ordering::Acquire);
-        match count {
-            0 | USIZE_TOP_BIT => {
-                strong.store(0, Ordering::Release);
-                None
-            }
-            _ => {
-                strong.fetch_add(1, Ordering::Release);
-                strong.fetch_and(!USIZE_TOP_BIT, Ordering::Release);
-                Some(ArcSlice { inner: self.inner })
-            }
+        if try_increment(strong) {
+            Some(ArcSlice { inner: self.inner })
+        } else {
+            None
         }
     }
     /// For types that are [`Copy`], the slice actually remains valid even after all strong references
-- 
2.43.0


From 7893ac49cbfd0851ce189db3b37de5641c1d2825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 04/43] fix: Arc and ArcSlice uniqueness must hold for both
 counts at once, and synchronize with past owners

get_mut, make_mut, try_into_inner, as_slice_mut and the conversion to Vec could grant exclusive access
while a weak reference was being upgraded, or without happening after former owners' accesses.
---
 stabby-abi/src/alloc/sync.rs | 37 ++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 4926a71..42c1b84 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -46,6 +46,12 @@ fn try_increment(strong: &AtomicUsize) -> bool {
         if count & !USIZE_TOP_BIT == 0 {
             return false;
         }
+        if count & USIZE_TOP_BIT != 0 {
+            // `is_unique` is looking at the weak count, which must not be traded for a strong one meanwhile.
+            core::hint::spin_loop();
+            count = strong.load(Ordering::Relaxed);
+            continue;
+        }
         match strong.compare_exchange_weak(count, count + 1, Ordering::Acquire, Ordering::Relaxed) {
             Ok(_) => return true,
             Err(current) => count = current,
@@ -224,7 +230,7 @@ impl<T, Alloc: IAlloc> Arc<T, Alloc> {
 
     /// Returns the strong count.
     pub fn strong_count(this: &Self) -> usize {
-        unsafe { this.ptr.prefix() }.strong.load(Ordering::Relaxed)
+        unsafe { this.ptr.prefix() }.strong.load(Ordering::Relaxed) & !USIZE_TOP_BIT
     }
     /// Increments the strong count.
     /// # Safety
@@ -266,7 +272,8 @@ impl<T, Alloc: IAlloc> Arc<T, Alloc> {
 
     /// Whether or not `this` is the sole owner of its data, including weak owners.
     pub fn is_unique(this: &Self) -> bool {
-        Self::strong_count(this) == 1 && Self::weak_count(this) == 1
+        let prefix = unsafe { this.ptr.prefix() };
+        is_unique(&prefix.strong, &prefix.weak)
     }
     /// Attempts the value from the allocation, freeing said allocation.
     /// # Errors
@@ -326,6 +333,24 @@ impl<T, Alloc: IAlloc> core::ops::Deref for Arc<T, Alloc> {
     }
 }
 
+/// Whether a single strong reference remains, and no weak one.
+///
+/// The two counts can't be observed at once: upgrades are kept at bay while the weak count is observed,
+/// lest a weak reference be upgraded and dropped between the two observations.
+fn is_unique(strong: &AtomicUsize, weak: &AtomicUsize) -> bool {
+    const LOCKED: usize = USIZE_TOP_BIT | 1;
+    loop {
+        match strong.compare_exchange(1, LOCKED, Ordering::Acquire, Ordering::Relaxed) {
+            Ok(_) => break,
+            // Another thread is doing the same through a shared reference.
+            Err(LOCKED) => core::hint::spin_loop(),
+            Err(_) => return false,
+        }
+    }
+    let weak = weak.load(Ordering::Acquire);
+    strong.fetch_and(!USIZE_TOP_BIT, Ordering::Release) == LOCKED && weak == 1
+}
+
 /// [`alloc::sync::Weak`](https://doc.rust-lang.org/stable/alloc/sync/struct.Weak.html), but ABI-stable.
 #[crate::stabby]
 pub struct Weak<T, Alloc: IAlloc = super::DefaultAllocator> {
@@ -435,8 +460,7 @@ impl<T, Alloc: IAlloc> ArcSlice<T, Alloc> {
     }
     /// Returns a mutable borrow to the slice if no other references to it may exist.
     pub fn as_slice_mut(&mut self) -> Option<&mut [T]> {
-        (ArcSlice::strong_count(self) == 1 && ArcSlice::weak_count(self) == 1)
-            .then(|| unsafe { self.as_slice_mut_unchecked() })
+        ArcSlice::is_unique(self).then(|| unsafe { self.as_slice_mut_unchecked() })
     }
     /// Returns a mutable borrow to the slice.
     /// # Safety
@@ -448,7 +472,7 @@ impl<T, Alloc: IAlloc> ArcSlice<T, Alloc> {
     }
     /// Returns the strong count to the slice.
     pub fn strong_count(this: &Self) -> usize {
-        unsafe { this.inner.start.prefix().strong.load(Ordering::Relaxed) }
+        unsafe { this.inner.start.prefix().strong.load(Ordering::Relaxed) & !USIZE_TOP_BIT }
     }
     /// Returns the weak count to the slice.
     pub fn weak_count(this: &Self) -> usize {
@@ -456,7 +480,8 @@ impl<T, Alloc: IAlloc> ArcSlice<T, Alloc> {
     }
     /// Whether or not `this` is the sole owner of its data, including weak owners.
     pub fn is_unique(this: &Self) -> bool {
-        Self::strong_count(this) == 1 && Self::weak_count(this) == 1
+        let prefix = unsafe { this.inner.start.prefix() };
+        is_unique(&prefix.strong, &prefix.weak)
     }
     /// Returns the slice's raw representation, without altering the associated reference counts.
     ///
-- 
2.43.0


From ed51e3dc6b18170b602c7b27599a95d2de38904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 05/43] fix: AtomicArc::store must release the value it
 replaces

The previous value used to be leaked.
---
 stabby-abi/src/alloc/sync.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 42c1b84..6b0e76a 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -893,7 +893,15 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
     /// Atomically store a new value.
     pub fn store(&self, value: MaybeArc<T, Alloc>, order: Ordering) {
         let ptr = value.map_or(core::ptr::null_mut(), |value| Arc::into_raw(value).as_ptr());
-        self.ptr.store(ptr, order)
+        let order = match order {
+            Ordering::SeqCst => Ordering::SeqCst,
+            // The previous value is acquired in order to be dropped.
+            _ => Ordering::AcqRel,
+        };
+        drop(Self {
+            ptr: AtomicPtr::new(self.ptr.swap(ptr, order)),
+            alloc: PhantomData,
+        });
     }
     /// Compares `self` with `current` by pointer.
     /// # Errors
-- 
2.43.0


From 5014cbae4ff8a49bc13a10eac8bf81ac2b3a119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 06/43] fix: AtomicArc::compare_exchange must release the new
 value when it fails

The value that wasn't exchanged used to be leaked.
---
 stabby-abi/src/alloc/sync.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 6b0e76a..5b5bd98 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -946,13 +946,21 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
                     marker: PhantomData,
                 })
             })),
-            Err(ptr) => Err(NonNull::new(ptr).map(|ptr| unsafe {
-                Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
-                Arc::from_raw(AllocPtr {
-                    ptr,
-                    marker: PhantomData,
-                })
-            })),
+            Err(ptr) => {
+                let current = NonNull::new(ptr).map(|ptr| unsafe {
+                    Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
+                    Arc::from_raw(AllocPtr {
+                        ptr,
+                        marker: PhantomData,
+                    })
+                });
+                // `new` wasn't handed over to `self`: it must be released.
+                drop(Self {
+                    ptr: AtomicPtr::new(new),
+                    alloc: PhantomData,
+                });
+                Err(current)
+            }
         }
     }
 }
-- 
2.43.0


From 922dc52e06ff519238dfa17dcc0f9c3e44a581f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 07/43] fix: AtomicArcBTreeSet must not let its root be freed
 while it is being cloned

Between a reader loading the root's address and incrementing its reference count, a concurrent edit
could free that root; edit could also succeed wrongly if the root's address had been reused by then (ABA),
and get didn't synchronize with the edit whose root it read.
---
 stabby-abi/src/alloc/collections/arc_btree.rs | 66 ++++++++++++++-----
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index d74a0f6..7aa499d 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -38,28 +38,61 @@ where
             ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>,
         ) -> ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>,
     ) {
-        let mut current = self.0.load(core::sync::atomic::Ordering::Acquire);
         loop {
-            let new = f(ArcBTreeSet::copy_from_ptr(current));
+            // `current` is kept alive until the exchange, lest its address be reused by another root.
+            let current = self.load();
+            let new = f(current.clone());
+            let current_ptr = current.as_ptr();
             let new_ptr = new.as_ptr();
-            if core::ptr::eq(current, new_ptr) {
+            if core::ptr::eq(current_ptr, new_ptr) {
                 return;
             }
-            match self.0.compare_exchange(
-                current,
-                new_ptr,
-                core::sync::atomic::Ordering::Release,
+            loop {
+                match self.0.compare_exchange_weak(
+                    current_ptr,
+                    new_ptr,
+                    core::sync::atomic::Ordering::AcqRel,
+                    core::sync::atomic::Ordering::Relaxed,
+                ) {
+                    // SAFETY: we've just replaced the old pointer succesfully, we can now free it.
+                    Ok(old) => unsafe {
+                        core::mem::forget(new);
+                        ArcBTreeSet::take_ownership_from_ptr(old);
+                        return;
+                    },
+                    // `self` still is `current`, but it is being loaded by another thread.
+                    Err(p) if core::ptr::eq(Self::unlocked(p), current_ptr) => {
+                        core::hint::spin_loop()
+                    }
+                    Err(_) => break,
+                }
+            }
+        }
+    }
+    /// Nodes are word-aligned: the lowest bit of the root's address is used to keep it from being replaced (and freed)
+    /// between its address being read and its reference count being incremented.
+    fn unlocked(
+        ptr: *mut ArcBTreeSetNodeInner<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>,
+    ) -> *mut ArcBTreeSetNodeInner<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT> {
+        ptr.cast::<u8>().wrapping_sub(ptr as usize & 1).cast()
+    }
+    /// Returns the current value of the set.
+    fn load(&self) -> ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT> {
+        loop {
+            let ptr = Self::unlocked(self.0.load(core::sync::atomic::Ordering::Relaxed));
+            let locked = ptr.cast::<u8>().wrapping_add(1).cast();
+            match self.0.compare_exchange_weak(
+                ptr,
+                locked,
                 core::sync::atomic::Ordering::Acquire,
+                core::sync::atomic::Ordering::Relaxed,
             ) {
-                // SAFETY: we've just replaced the old pointer succesfully, we can now free it.
-                Ok(old) => unsafe {
-                    core::mem::forget(new);
-                    ArcBTreeSet::take_ownership_from_ptr(old);
-                    return;
-                },
-                Err(new_old) => {
-                    current = new_old;
+                Ok(_) => {
+                    let current = ArcBTreeSet::copy_from_ptr(ptr);
+                    self.0.store(ptr, core::sync::atomic::Ordering::Release);
+                    return current;
                 }
+                Err(_) => core::hint::spin_loop(),
             }
         }
     }
@@ -68,8 +101,7 @@ where
     where
         T: PartialOrd<K>,
     {
-        let set = ArcBTreeSet::copy_from_ptr(self.0.load(core::sync::atomic::Ordering::Relaxed));
-        f(set.get(value))
+        f(self.load().get(value))
     }
 }
 
-- 
2.43.0


From 0ff165dd0581cc933cb3417c705ad35caf83d2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 08/43] fix: AtomicArcBTreeSet must release its content when
 dropped

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index 7aa499d..ee30a60 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -11,6 +11,21 @@ pub struct AtomicArcBTreeSet<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_
 )
 where
     DefaultAllocator: core::default::Default + IAlloc;
+impl<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Drop
+    for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
+where
+    DefaultAllocator: core::default::Default + IAlloc,
+{
+    fn drop(&mut self) {
+        // SAFETY: `self` owns its root, whose layout is that of an optional node.
+        drop(unsafe {
+            core::mem::transmute::<
+                *mut ArcBTreeSetNodeInner<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>,
+                Option<ArcBTreeSetNode<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>>,
+            >(*self.0.get_mut())
+        })
+    }
+}
 impl<T: Ord + Clone, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Default
     for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
 where
-- 
2.43.0


From 5b8015e2c3d455d7a40cc505445d23c377825380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 09/43] fix: failing to allocate an ArcBTreeSet's root must
 leave it its allocator

The allocator was moved out of the set, which would then drop it again.
---
 stabby-abi/src/alloc/collections/arc_btree.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index ee30a60..e7a5393 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -435,7 +435,7 @@ impl<T: Ord, Alloc: IAlloc, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: us
             None => {
                 // SAFETY: root == None <=> allocator is can be taken to construct a node.
                 let alloc = unsafe { self.alloc.assume_init_read() };
-                self.root = Some(ArcBTreeSetNode(Arc::new_in(
+                match Arc::try_new_in(
                     ArcBTreeSetNodeInner::new(
                         Some(ArcBTreeSetEntry {
                             value,
@@ -444,7 +444,13 @@ impl<T: Ord, Alloc: IAlloc, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: us
                         None,
                     ),
                     alloc,
-                )));
+                ) {
+                    Ok(root) => self.root = Some(ArcBTreeSetNode(root)),
+                    Err((_, alloc)) => {
+                        self.alloc.write(alloc);
+                        panic!("Allocation failed")
+                    }
+                }
                 None
             }
         }
-- 
2.43.0


From f67913ecca99a771930b0a6efea1724dea78a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 10/43] fix: converting an Arc into an ArcSlice must hand its
 reference over

---
 stabby-abi/src/alloc/sync.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 5b5bd98..7adca0e 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -516,10 +516,12 @@ impl<T, Alloc: IAlloc> Clone for ArcSlice<T, Alloc> {
 impl<T, Alloc: IAlloc> From<Arc<T, Alloc>> for ArcSlice<T, Alloc> {
     fn from(mut value: Arc<T, Alloc>) -> Self {
         unsafe { value.ptr.prefix_mut() }.capacity = AtomicUsize::new(1);
+        // The reference is handed over to the slice.
+        let start = Arc::into_raw(value);
         Self {
             inner: AllocSlice {
-                start: value.ptr,
-                end: ptr_add(value.ptr.ptr, 1),
+                start,
+                end: ptr_add(start.ptr, 1),
             },
         }
     }
-- 
2.43.0


From 344010d91cafdff0a51f0b3ebda193d14ebbfbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 11/43] fix: converting a shared Arc into an ArcSlice must not
 race on the capacity

---
 stabby-abi/src/alloc/sync.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 7adca0e..b1ea4e8 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -514,8 +514,11 @@ impl<T, Alloc: IAlloc> Clone for ArcSlice<T, Alloc> {
     }
 }
 impl<T, Alloc: IAlloc> From<Arc<T, Alloc>> for ArcSlice<T, Alloc> {
-    fn from(mut value: Arc<T, Alloc>) -> Self {
-        unsafe { value.ptr.prefix_mut() }.capacity = AtomicUsize::new(1);
+    fn from(value: Arc<T, Alloc>) -> Self {
+        // The allocation may be shared with other threads converting it too.
+        unsafe { value.ptr.prefix() }
+            .capacity
+            .store(1, Ordering::Relaxed);
         // The reference is handed over to the slice.
         let start = Arc::into_raw(value);
         Self {
-- 
2.43.0


From c47762e767b68221204c74cdda5566a6b2f6fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 12/43] fix: RustAlloc must return null when the system's
 allocator fails, or when nothing is requested

---
 stabby-abi/src/alloc/allocators/rust_alloc.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/stabby-abi/src/alloc/allocators/rust_alloc.rs b/stabby-abi/src/alloc/allocators/rust_alloc.rs
index 29dc4d1..967efdc 100644
--- a/stabby-abi/src/alloc/allocators/rust_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/rust_alloc.rs
@@ -20,12 +20,18 @@ pub struct RustAllocPrefix {
 }
 
 extern "C" fn alloc(requested: crate::alloc::Layout) -> *mut () {
+    if requested.size == 0 {
+        return core::ptr::null_mut();
+    }
     let requested = Layout::of::<RustAllocPrefix>().concat(requested);
     let Ok(layout) = core::alloc::Layout::from_size_align(requested.size, requested.align) else {
         return core::ptr::null_mut();
     };
     // SAFETY: The layout is always non-zero-sized
     let alloc_start = unsafe { alloc_rs::alloc::alloc(layout) };
+    if alloc_start.is_null() {
+        return core::ptr::null_mut();
+    }
     let ret = // SAFETY: the addition is indeed in-bound.
         unsafe { alloc_start.add(layout.align().max(core::mem::size_of::<RustAllocPrefix>())) };
     // SAFETY: `ret` is allocated and _at least_ one `RustAllocPrefix` greater than the start of the allocation, so writing there is safe.
@@ -38,6 +44,9 @@ extern "C" fn alloc(requested: crate::alloc::Layout) -> *mut () {
     ret.cast()
 }
 extern "C" fn realloc(ptr: *mut (), prev_layout: crate::alloc::Layout, new_size: usize) -> *mut () {
+    if new_size == 0 {
+        return core::ptr::null_mut();
+    }
     // SAFETY: The corresponding `alloc` returns the allocation offset by this much (see the line where `ret` is constructed in both the `alloc` and `realloc` functions)
     let realloc_start = unsafe {
         ptr.cast::<u8>().sub(
@@ -54,10 +63,16 @@ extern "C" fn realloc(ptr: *mut (), prev_layout: crate::alloc::Layout, new_size:
         size: new_size,
         align: prev_layout.align,
     });
+    if core::alloc::Layout::from_size_align(requested.size, requested.align).is_err() {
+        return core::ptr::null_mut();
+    }
     // SAFETY: See each line
     unsafe {
         // If `ptr` was indeed allocated on by this allocator, then `realloc_start` was indeed allocated by _our_ GlobalAlloc.
         let alloc_start = alloc_rs::alloc::realloc(realloc_start, layout, requested.size);
+        if alloc_start.is_null() {
+            return core::ptr::null_mut();
+        }
         // We follow the same return-value shifting as in `alloc`
         let ret = alloc_start.add(layout.align().max(core::mem::size_of::<RustAllocPrefix>()));
         // And prepend the same prefix
-- 
2.43.0


From db762f01ffcb2c357ab93af7853d61da85266a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 13/43] fix: RustAlloc must make room for the padding before
 the prefix of over-aligned allocations

---
 stabby-abi/src/alloc/allocators/rust_alloc.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/allocators/rust_alloc.rs b/stabby-abi/src/alloc/allocators/rust_alloc.rs
index 967efdc..12269b7 100644
--- a/stabby-abi/src/alloc/allocators/rust_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/rust_alloc.rs
@@ -19,11 +19,20 @@ pub struct RustAllocPrefix {
     vtable: RustAllocVt,
 }
 
+/// The layout of what precedes an allocation aligned to `align`, including the padding before its prefix.
+const fn prefix_layout(align: usize) -> Layout {
+    let mut layout = Layout::of::<RustAllocPrefix>();
+    if layout.size < align {
+        layout.size = align;
+    }
+    layout
+}
+
 extern "C" fn alloc(requested: crate::alloc::Layout) -> *mut () {
     if requested.size == 0 {
         return core::ptr::null_mut();
     }
-    let requested = Layout::of::<RustAllocPrefix>().concat(requested);
+    let requested = prefix_layout(requested.align).concat(requested);
     let Ok(layout) = core::alloc::Layout::from_size_align(requested.size, requested.align) else {
         return core::ptr::null_mut();
     };
@@ -59,7 +68,7 @@ extern "C" fn realloc(ptr: *mut (), prev_layout: crate::alloc::Layout, new_size:
     else {
         return core::ptr::null_mut();
     };
-    let requested = Layout::of::<RustAllocPrefix>().concat(Layout {
+    let requested = prefix_layout(prev_layout.align).concat(Layout {
         size: new_size,
         align: prev_layout.align,
     });
-- 
2.43.0


From 0f96ac43f3ead5ca664e1d05feb6456665ff0ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 14/43] fix: layouts that are too large must saturate rather
 than wrap around to a small allocation

---
 stabby-abi/src/alloc/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index 472c5ac..c83b215 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -77,13 +77,13 @@ impl Layout {
     pub const fn array<T: Sized>(n: usize) -> Self {
         let Self { size, align } = Self::of::<T>();
         Layout {
-            size: size * n,
+            size: size.saturating_mul(n),
             align,
         }
     }
     /// Concatenates a layout to `self`, ensuring that alignment padding is taken into account.
     pub const fn concat(mut self, other: Self) -> Self {
-        self.size += other.size;
+        self.size = self.size.saturating_add(other.size);
         self.realign(if self.align < other.align {
             other.align
         } else {
@@ -101,8 +101,9 @@ impl Layout {
     /// Changes the alignment of the layout, adding padding if necessary.
     pub const fn realign(mut self, new_align: usize) -> Self {
         self.align = new_align;
-        self.size = self.size
-            + (new_align - (self.size % new_align)) * (((self.size % new_align) != 0) as usize);
+        self.size = self.size.saturating_add(
+            (new_align - (self.size % new_align)) * (((self.size % new_align) != 0) as usize),
+        );
         self
     }
 }
-- 
2.43.0


From a4fbdc6dbcd971faf8104dffed6c78c14419e49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 15/43] fix: reallocating to a smaller size must not write past
 the new allocation

---
 stabby-abi/src/alloc/allocators/libc_alloc.rs |  2 +-
 stabby-abi/src/alloc/mod.rs                   | 20 +++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/allocators/libc_alloc.rs b/stabby-abi/src/alloc/allocators/libc_alloc.rs
index e4e49f7..4f82508 100644
--- a/stabby-abi/src/alloc/allocators/libc_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/libc_alloc.rs
@@ -86,7 +86,7 @@ impl crate::alloc::IAlloc for LibcAlloc {
                     core::ptr::copy_nonoverlapping(
                         ptr.cast::<u8>(),
                         new_ptr.cast::<u8>(),
-                        prev.size,
+                        prev.size.min(new_size),
                     )
                 }
                 self.free(ptr.cast());
diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index c83b215..88d393f 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -137,7 +137,15 @@ pub trait IAlloc: Unpin {
         });
         if !ret.is_null() {
             unsafe {
-                core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), ret.cast(), prev_layout.size);
+                core::ptr::copy_nonoverlapping(
+                    ptr.cast::<u8>(),
+                    ret.cast(),
+                    if prev_layout.size < new_size {
+                        prev_layout.size
+                    } else {
+                        new_size
+                    },
+                );
                 self.free(ptr);
             }
         }
@@ -176,7 +184,15 @@ pub trait IStableAlloc: Unpin {
         });
         if !ret.is_null() {
             unsafe {
-                core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), ret.cast(), prev_layout.size);
+                core::ptr::copy_nonoverlapping(
+                    ptr.cast::<u8>(),
+                    ret.cast(),
+                    if prev_layout.size < new_size {
+                        prev_layout.size
+                    } else {
+                        new_size
+                    },
+                );
                 self.free(ptr);
             }
         }
-- 
2.43.0


From 5b323633279f858a777f785d4aaa6d7f7a2437b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 16/43] fix: LibcAlloc must accept alignments smaller than a
 pointer's

---
 stabby-abi/src/alloc/allocators/libc_alloc.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/allocators/libc_alloc.rs b/stabby-abi/src/alloc/allocators/libc_alloc.rs
index 4f82508..c01571d 100644
--- a/stabby-abi/src/alloc/allocators/libc_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/libc_alloc.rs
@@ -52,6 +52,11 @@ impl LibcAlloc {
     }
 }
 
+/// `posix_memalign` refuses alignments smaller than that of a pointer.
+fn min_align(align: usize) -> usize {
+    align.max(core::mem::align_of::<*mut ()>())
+}
+
 impl crate::alloc::IAlloc for LibcAlloc {
     fn alloc(&mut self, layout: Layout) -> *mut () {
         if layout.size == 0 {
@@ -59,8 +64,8 @@ impl crate::alloc::IAlloc for LibcAlloc {
         }
         let mut ptr = core::ptr::null_mut();
         // SAFETY: `posix_memalign` is always safe.
-        let err = unsafe { posix_memalign(&mut ptr, layout.align, layout.size) };
-        if err != 0 && (ptr as usize % layout.align != 0) {
+        let err = unsafe { posix_memalign(&mut ptr, min_align(layout.align), layout.size) };
+        if err != 0 {
             ptr = core::ptr::null_mut();
         }
         ptr.cast()
@@ -80,7 +85,7 @@ impl crate::alloc::IAlloc for LibcAlloc {
         };
         if new_ptr.is_null() {
             // SAFETY: `posix_memalign` is always safe.
-            let err = unsafe { posix_memalign(&mut new_ptr, prev.align, new_size) };
+            let err = unsafe { posix_memalign(&mut new_ptr, min_align(prev.align), new_size) };
             if err == 0 {
                 unsafe {
                     core::ptr::copy_nonoverlapping(
-- 
2.43.0


From 40eee059a8eb8640754552c75afdd14efac7279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 17/43] fix: prefixed allocations must honor the alignment of
 over-aligned elements

---
 stabby-abi/src/alloc/mod.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index 88d393f..0b1ba7c 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -375,8 +375,7 @@ impl<T, Alloc: IAlloc> AllocPtr<T, Alloc> {
     }
     /// Allocates a pointer to an array of `capacity` `T`, prefixed by an [`AllocPrefix`]
     pub fn alloc_array(alloc: &mut Alloc, capacity: usize) -> Option<Self> {
-        let mut layout = Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(capacity));
-        layout.align = core::mem::align_of::<AllocPrefix<Alloc>>();
+        let layout = Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(capacity));
         let ptr = alloc.alloc(layout);
         NonNull::new(ptr).map(|ptr| unsafe { Self::init(ptr, capacity) })
     }
@@ -392,13 +391,9 @@ impl<T, Alloc: IAlloc> AllocPtr<T, Alloc> {
         prev_capacity: usize,
         new_capacity: usize,
     ) -> Option<Self> {
-        let mut layout =
-            Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(prev_capacity));
-        layout.align = core::mem::align_of::<AllocPrefix<Alloc>>();
+        let layout = Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(prev_capacity));
         let ptr = alloc.realloc(
-            (self.prefix() as *const AllocPrefix<Alloc>)
-                .cast_mut()
-                .cast(),
+            self.prefix().origin.as_ptr(),
             layout,
             Layout::of::<AllocPrefix<Alloc>>()
                 .concat(Layout::array::<T>(new_capacity))
-- 
2.43.0


From 1bb544f3fb83556c079df9a8977809fb7d4ac3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 18/43] fix: trait objects behind references must dereference
 them

---
 stabby-abi/src/fatptr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index 69aa144..04aecef 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -52,17 +52,17 @@ pub trait IPtrClone: IPtrOwned {
 }
 impl<T> IPtr for &T {
     unsafe fn as_ref<U>(&self) -> &U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&T, &U>(*self)
     }
 }
 impl<T> IPtr for &mut T {
     unsafe fn as_ref<U>(&self) -> &U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&T, &U>(&**self)
     }
 }
 impl<T> IPtrMut for &mut T {
     unsafe fn as_mut<U>(&mut self) -> &mut U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&mut T, &mut U>(&mut **self)
     }
 }
 impl<T> IPtrOwned for &mut T {
-- 
2.43.0


From e7f313ec04f6642a013579a0534f26cfdf6126f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 19/43] fix: vectors of zero-sized elements must compile

---
 stabby-abi/src/alloc/vec.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index f971e08..73e7efd 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -178,10 +178,11 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
     pub const fn remaining_capacity(&self) -> usize {
         ptr_diff(self.inner.capacity, self.inner.end)
     }
-    const FIRST_CAPACITY: usize = match 1024 / core::mem::size_of::<T>() {
-        0 => 1,
-        v @ 1..=8 => v,
-        _ => 8,
+    const FIRST_CAPACITY: usize = match 1024usize.checked_div(core::mem::size_of::<T>()) {
+        Some(0) => 1,
+        Some(v @ 1..=8) => v,
+        // Zero-sized types never need to grow.
+        Some(_) | None => 8,
     };
     fn grow(&mut self) {
         self.try_grow().unwrap();
-- 
2.43.0


From 346c126e466e4ebbe43134f816737ec407dde2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 20/43] fix: Vec::try_drain must accept valid ranges, and
 refuse invalid ones

---
 stabby-abi/src/alloc/vec.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 73e7efd..1247e9b 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -366,15 +366,15 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         let original_len = self.len();
         let from = match range.start_bound() {
             core::ops::Bound::Included(i) => *i,
-            core::ops::Bound::Excluded(i) => *i + 1,
+            core::ops::Bound::Excluded(i) => i.checked_add(1)?,
             core::ops::Bound::Unbounded => 0,
         };
         let to = match range.end_bound() {
-            core::ops::Bound::Included(i) => *i + 1,
+            core::ops::Bound::Included(i) => i.checked_add(1)?,
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => original_len,
         };
-        if to >= from || to <= original_len {
+        if to < from || to > original_len {
             return None;
         }
         unsafe { self.set_len(from) };
-- 
2.43.0


From cb227253720df6647d30da087206ecad0ffa6c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 21/43] fix: Vec::extend must not trust the iterator's upper
 bound

---
 stabby-abi/src/alloc/vec.rs | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 1247e9b..d1fa6d9 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -555,20 +555,10 @@ impl<T: Copy, Alloc: IAlloc + Default> From<&[T]> for Vec<T, Alloc> {
 impl<T, Alloc: IAlloc> core::iter::Extend<T> for Vec<T, Alloc> {
     fn extend<Iter: IntoIterator<Item = T>>(&mut self, iter: Iter) {
         let iter = iter.into_iter();
-        let (min, max) = iter.size_hint();
-        match max {
-            Some(max) => {
-                self.reserve(max);
-                iter.for_each(|item| {
-                    unsafe { self.inner.end.as_ptr().write(item) };
-                    self.inner.end = ptr_add(self.inner.end, 1);
-                })
-            }
-            _ => {
-                self.reserve(min);
-                iter.for_each(|item| self.push(item))
-            }
-        }
+        // The upper bound is but a hint: it may be huge, or a lie.
+        let (min, _) = iter.size_hint();
+        self.reserve(min);
+        iter.for_each(|item| self.push(item))
     }
 }
 
-- 
2.43.0


From 47726f8264149456c76fb0f76b0aa4805a159f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 22/43] fix: BoxedSlice must keep its allocation when empty,
 and not look for one it never had

---
 stabby-abi/src/alloc/boxed.rs | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index 0369bb1..80cd6ff 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -308,38 +308,32 @@ impl<T, Alloc: IAlloc> BoxedSlice<T, Alloc> {
     /// # Errors
     /// Returns the value if pushing would require reallocating.
     pub fn try_push(&mut self, value: T) -> Result<(), T> {
-        // SAFETY: the prefix must be initialized for this type to exist.
-        if self.slice.len()
-            >= unsafe { self.slice.start.prefix() }
-                .capacity
-                .load(core::sync::atomic::Ordering::Relaxed)
-        {
+        if core::mem::size_of::<T>() != 0 && self.slice.len() >= self.allocated_capacity() {
             return Err(value);
         }
         // SAFETY: we've acertained that we have enough space to push an element.
         unsafe {
             core::ptr::write(self.slice.end.as_ptr(), value);
-            self.slice.end = NonNull::new_unchecked(self.slice.end.as_ptr().add(1));
         }
+        self.slice.end = ptr_add(self.slice.end, 1);
         Ok(())
     }
+    /// The number of elements that the allocation has room for, 0 meaning that nothing was ever allocated.
+    fn allocated_capacity(&self) -> usize {
+        if core::mem::size_of::<T>() == 0 || self.slice.start.ptr == NonNull::dangling() {
+            return 0;
+        }
+        // SAFETY: we store the capacity in the prefix when constructed.
+        unsafe { self.slice.start.prefix() }
+            .capacity
+            .load(core::sync::atomic::Ordering::Relaxed)
+    }
     pub(crate) fn into_raw_components(self) -> (AllocSlice<T, Alloc>, usize, Alloc) {
         let slice = self.slice;
+        let capacity = self.allocated_capacity();
         // SAFETY: We forget `alloc` immediately.
         let alloc = unsafe { core::ptr::read(&self.alloc) };
         core::mem::forget(self);
-        let capacity = if core::mem::size_of::<T>() == 0 || slice.is_empty() {
-            0
-        } else {
-            // SAFETY: we store the capacity in the prefix when constructed.
-            unsafe {
-                slice
-                    .start
-                    .prefix()
-                    .capacity
-                    .load(core::sync::atomic::Ordering::Relaxed)
-            }
-        };
         (slice, capacity, alloc)
     }
 }
@@ -438,7 +432,7 @@ impl<T, Alloc: IAlloc + Default> FromIterator<T> for BoxedSlice<T, Alloc> {
 impl<T, Alloc: IAlloc> Drop for BoxedSlice<T, Alloc> {
     fn drop(&mut self) {
         unsafe { core::ptr::drop_in_place(self.as_slice_mut()) }
-        if core::mem::size_of::<T>() != 0 && !self.is_empty() {
+        if self.allocated_capacity() != 0 {
             unsafe { self.slice.start.free(&mut self.alloc) }
         }
     }
-- 
2.43.0


From e345f258bdec8ea4daa116e70c2ecd055e2e24f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 23/43] fix: DoubleEndedDrain::next_back must yield the drained
 elements

---
 stabby-abi/src/alloc/vec.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index d1fa6d9..06ec2f0 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -741,7 +741,7 @@ pub struct DoubleEndedDrain<'a, T: 'a, Alloc: IAlloc + 'a> {
 impl<'a, T: 'a, Alloc: IAlloc + 'a> Iterator for DoubleEndedDrain<'a, T, Alloc> {
     type Item = T;
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.to - self.lindex;
+        let remaining = self.rindex - self.lindex;
         (remaining, Some(remaining))
     }
     fn next(&mut self) -> Option<Self::Item> {
@@ -755,9 +755,8 @@ impl<'a, T: 'a, Alloc: IAlloc + 'a> Iterator for DoubleEndedDrain<'a, T, Alloc>
 impl<'a, T: 'a, Alloc: IAlloc + 'a> DoubleEndedIterator for DoubleEndedDrain<'a, T, Alloc> {
     fn next_back(&mut self) -> Option<Self::Item> {
         (self.lindex < self.rindex).then(|| unsafe {
-            let ret = self.vec.inner.start.as_ptr().add(self.rindex).read();
             self.rindex -= 1;
-            ret
+            self.vec.inner.start.as_ptr().add(self.rindex).read()
         })
     }
 }
-- 
2.43.0


From 308bc936711376299d585ecf33301a8dd0d748ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 24/43] fix: Vec::try_reserve must refuse capacities that
 overflow

---
 stabby-abi/src/alloc/vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 06ec2f0..32d2f3b 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -214,7 +214,9 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
     pub fn try_reserve(&mut self, additional: usize) -> Result<NonMaxUsize, AllocationError> {
         if self.remaining_capacity() < additional {
             let len = self.len();
-            let new_capacity = len + additional;
+            let Some(new_capacity) = len.checked_add(additional) else {
+                return Err(AllocationError());
+            };
             let old_capacity = self.capacity();
             let start = if old_capacity != 0 {
                 unsafe {
-- 
2.43.0


From f868b9b776518939adf3d44764b22e4cbdf2c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 25/43] fix: the capacity of vectors of zero-sized elements
 must be representable as a distance

---
 stabby-abi/src/alloc/boxed.rs | 6 +++++-
 stabby-abi/src/alloc/vec.rs   | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index 80cd6ff..30addaf 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -408,7 +408,11 @@ impl<T, Alloc: IAlloc> From<BoxedSlice<T, Alloc>> for Vec<T, Alloc> {
                     start: slice.start,
                     end: slice.end,
                     capacity: if core::mem::size_of::<T>() == 0 {
-                        unsafe { core::mem::transmute::<usize, NonNull<T>>(usize::MAX) }
+                        unsafe {
+                            core::mem::transmute::<usize, NonNull<T>>(
+                                Vec::<T, Alloc>::ZST_CAPACITY_END,
+                            )
+                        }
                     } else {
                         slice.start.ptr
                     },
diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 32d2f3b..6a1786d 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -79,7 +79,7 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
                 start,
                 end: start.ptr,
                 capacity: if Self::zst_mode() {
-                    unsafe { core::mem::transmute::<usize, NonNull<T>>(usize::MAX) }
+                    unsafe { core::mem::transmute::<usize, NonNull<T>>(Self::ZST_CAPACITY_END) }
                 } else {
                     start.ptr
                 },
@@ -125,6 +125,9 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
     {
         Self::try_with_capacity_in(capacity, Alloc::default())
     }
+    /// The end of the capacity of vectors of zero-sized elements: the furthest address whose distance to their start
+    /// is still representable.
+    pub(crate) const ZST_CAPACITY_END: usize = isize::MAX as usize;
     #[inline(always)]
     const fn zst_mode() -> bool {
         core::mem::size_of::<T>() == 0
@@ -217,6 +220,9 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
             let Some(new_capacity) = len.checked_add(additional) else {
                 return Err(AllocationError());
             };
+            if Self::zst_mode() {
+                return Err(AllocationError());
+            }
             let old_capacity = self.capacity();
             let start = if old_capacity != 0 {
                 unsafe {
-- 
2.43.0


From 646aff45f2441d67730e392843769df539ddde45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 26/43] fix: Vec::truncate and vec::IntoIter must not destroy
 elements twice when a destructor panics

---
 stabby-abi/src/alloc/vec.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 6a1786d..209bcdf 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -254,12 +254,16 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
     ///
     /// Does nothing if `self.len() <= len`
     pub fn truncate(&mut self, len: usize) {
-        if self.len() <= len {
+        let Some(removed) = self.len().checked_sub(len) else {
             return;
-        }
+        };
+        // Shorten `self` first: should a destructor panic, no element may be destroyed again.
         unsafe {
-            core::ptr::drop_in_place(&mut self[len..]);
-            self.set_len(len)
+            self.set_len(len);
+            core::ptr::drop_in_place(core::ptr::slice_from_raw_parts_mut(
+                self.inner.start.as_ptr().add(len),
+                removed,
+            ));
         };
     }
     /// Returns a slice of the vector's elements.
@@ -659,9 +663,14 @@ impl<T, Alloc: IAlloc> Iterator for IntoIter<T, Alloc> {
 }
 impl<T, Alloc: IAlloc> Drop for IntoIter<T, Alloc> {
     fn drop(&mut self) {
+        let remaining = self.vec.len() - self.index;
+        // Empty the vector first: should a destructor panic, no element may be destroyed again.
         unsafe {
-            core::ptr::drop_in_place(&mut self.vec.as_slice_mut()[self.index..]);
             self.vec.set_len(0);
+            core::ptr::drop_in_place(core::ptr::slice_from_raw_parts_mut(
+                self.vec.inner.start.as_ptr().add(self.index),
+                remaining,
+            ));
         }
     }
 }
-- 
2.43.0


From c1bb1f8514e84d9cc99554de0dde55fe00d70282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 27/43] fix: SingleOrVec::try_reserve must keep its single
 element

---
 stabby-abi/src/alloc/single_or_vec.rs | 45 +++++++++++++--------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/stabby-abi/src/alloc/single_or_vec.rs b/stabby-abi/src/alloc/single_or_vec.rs
index 670069c..be08283 100644
--- a/stabby-abi/src/alloc/single_or_vec.rs
+++ b/stabby-abi/src/alloc/single_or_vec.rs
@@ -201,29 +201,28 @@ where
     /// Returns Ok(new_capacity) if succesful (including if no reallocation was needed),
     /// otherwise returns Err(AllocationError)
     pub fn try_reserve(&mut self, additional: usize) -> Result<NonMaxUsize, AllocationError> {
-        let inner = &mut self.inner as *mut _;
-        self.inner.match_mut(
-            |value| unsafe {
-                let new_capacity = 1 + additional;
-                // either `inner` must be leaked and overwritten by the new owner of `value` and `alloc`,
-                // or these two must be leaked to prevent double frees.
-                let Single { value, alloc } = core::ptr::read(&*value);
-                match Vec::try_with_capacity_in(new_capacity, alloc) {
-                    Ok(mut vec) => {
-                        vec.push(value);
-                        // overwrite `inner` with `value` and `alloc` with their new owner without freeing `inner`.
-                        core::ptr::write(inner, crate::Result::Err(vec));
-                        NonMaxUsize::new(new_capacity).ok_or(AllocationError())
-                    }
-                    Err(alloc) => {
-                        // leak both `value` and `alloc` since `inner` can't be overwritten
-                        core::mem::drop((value, alloc));
-                        Err(AllocationError())
-                    }
-                }
-            },
-            |mut vec| vec.try_reserve(additional),
-        )
+        if let Some(mut vec) = self.inner.err_mut() {
+            return vec.try_reserve(additional);
+        }
+        let Some(new_capacity) = additional.checked_add(1) else {
+            return Err(AllocationError());
+        };
+        // Safety: `self.inner` is `Ok`, and it is either overwritten by the new owner of `value` and `alloc`,
+        // or these two are leaked to prevent double frees.
+        let Single { value, alloc } = unsafe { core::ptr::read(&self.inner).unwrap_unchecked() };
+        match Vec::try_with_capacity_in(new_capacity, alloc) {
+            Ok(mut vec) => {
+                vec.push(value);
+                // overwrite `inner` with the new owner of `value` and `alloc` without freeing `inner`.
+                unsafe { core::ptr::write(&mut self.inner, crate::Result::Err(vec)) };
+                NonMaxUsize::new(new_capacity).ok_or(AllocationError())
+            }
+            Err(alloc) => {
+                // leak both `value` and `alloc` since `inner` can't be overwritten
+                core::mem::forget((value, alloc));
+                Err(AllocationError())
+            }
+        }
     }
     /// Removes all elements from `self` from the `len`th onward.
     ///
-- 
2.43.0


From cc0622162ff0525e047f42738a1a8c0221871aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 28/43] fix: SingleOrVec::truncate must destroy its single
 element exactly once

---
 stabby-abi/src/alloc/single_or_vec.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/stabby-abi/src/alloc/single_or_vec.rs b/stabby-abi/src/alloc/single_or_vec.rs
index be08283..ae62620 100644
--- a/stabby-abi/src/alloc/single_or_vec.rs
+++ b/stabby-abi/src/alloc/single_or_vec.rs
@@ -231,16 +231,14 @@ where
         if self.len() <= len {
             return;
         }
-        let inner = &mut self.inner as *mut _;
-        self.inner.match_mut(
-            |value| unsafe {
-                let Single { value, alloc } = core::ptr::read(&*value);
-                core::mem::drop(value); // drop `value` to prevent leaking it since we'll overwrite `inner` with something that doesn't own it
-                                        // overwrite `inner` with the new owner of `alloc`
-                core::ptr::write(inner, crate::Result::Err(Vec::new_in(alloc)))
-            },
-            |mut vec| vec.truncate(len),
-        )
+        if let Some(mut vec) = self.inner.err_mut() {
+            return vec.truncate(len);
+        }
+        // Safety: `self.inner` is `Ok`, and is overwritten without being destroyed by the new owner of `alloc`.
+        let Single { value, alloc } = unsafe { core::ptr::read(&self.inner).unwrap_unchecked() };
+        unsafe { core::ptr::write(&mut self.inner, crate::Result::Err(Vec::new_in(alloc))) };
+        // `self` is valid again, even if `value`'s destructor panics.
+        core::mem::drop(value);
     }
     /// Returns a slice of the elements in the vector.
     pub fn as_slice(&self) -> &[T] {
-- 
2.43.0


From 9e715b21216d4a6e99561aa7cf96c9b82b30f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 29/43] fix: single_or_vec::IterMut::nth must not overflow

---
 stabby-abi/src/alloc/single_or_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/single_or_vec.rs b/stabby-abi/src/alloc/single_or_vec.rs
index ae62620..186a23f 100644
--- a/stabby-abi/src/alloc/single_or_vec.rs
+++ b/stabby-abi/src/alloc/single_or_vec.rs
@@ -505,7 +505,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.start += n;
+        self.start = self.start.saturating_add(n);
         self.next()
     }
 }
-- 
2.43.0


From 9e13a528daf1442d708dd4d7bd241feb99c82fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 30/43] fix: ArcSlices of vectors that own no memory must store
 their allocator where it belongs

---
 stabby-abi/src/alloc/sync.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index b1ea4e8..cc83d77 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -558,12 +558,9 @@ impl<T, Alloc: IAlloc> From<Vec<T, Alloc>> for ArcSlice<T, Alloc> {
                 start.prefix_mut().capacity = if core::mem::size_of::<T>() != 0 {
                     AtomicUsize::new(0)
                 } else {
-                    AtomicUsize::new(ptr_diff(
-                        core::mem::transmute::<usize, NonNull<u8>>(usize::MAX),
-                        start.ptr.cast::<u8>(),
-                    ))
+                    AtomicUsize::new(usize::MAX)
                 };
-                slice.start.prefix_mut().alloc.write(alloc);
+                start.prefix_mut().alloc.write(alloc);
             }
             Self {
                 inner: AllocSlice {
-- 
2.43.0


From 794d810f1b8c6020031ca61a735d5bc84a451fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 31/43] fix: turning an ArcSlice without capacity into a Vec
 must free its allocation

---
 stabby-abi/src/alloc/sync.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index cc83d77..3c44f25 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -578,19 +578,22 @@ impl<T, Alloc: IAlloc> TryFrom<ArcSlice<T, Alloc>> for Vec<T, Alloc> {
             Err(value)
         } else {
             unsafe {
-                let ret = Vec {
+                let slice = ArcSlice::into_raw(value);
+                let capacity = slice.start.prefix().capacity.load(Ordering::Relaxed);
+                let mut alloc = slice.start.prefix().alloc.assume_init_read();
+                if capacity == 0 {
+                    // Vectors expect not to own any memory when they have no capacity.
+                    slice.start.free(&mut alloc);
+                    return Ok(Vec::new_in(alloc));
+                }
+                Ok(Vec {
                     inner: VecInner {
-                        start: value.inner.start,
-                        end: value.inner.end,
-                        capacity: ptr_add(
-                            value.inner.start.ptr,
-                            value.inner.start.prefix().capacity.load(Ordering::Relaxed),
-                        ),
-                        alloc: value.inner.start.prefix().alloc.assume_init_read(),
+                        start: slice.start,
+                        end: slice.end,
+                        capacity: ptr_add(slice.start.ptr, capacity),
+                        alloc,
                     },
-                };
-                core::mem::forget(value);
-                Ok(ret)
+                })
             }
         }
     }
-- 
2.43.0


From 5db36c3bd5832583f4f83cc65e41f0ea1ebc0346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 32/43] fix: AtomicDuration::MAX must be a normal duration

---
 stabby/src/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby/src/time.rs b/stabby/src/time.rs
index d3792e9..75eca1d 100644
--- a/stabby/src/time.rs
+++ b/stabby/src/time.rs
@@ -139,7 +139,7 @@ impl AtomicDuration {
     /// This type's time resolution.
     pub const RESOLUTION: Duration = Self::i64_to_duration(1).0;
     /// This type's maximum value.
-    pub const MAX: Duration = Self::i64_to_duration(i64::MAX).0;
+    pub const MAX: Duration = Duration::new((i64::MAX >> SHIFT) as u64, 999_999_000);
     /// Atomically loads the stored value, converting it to a duration-sign tuple.
     ///
     /// The [`Ordering`] is used in a single `load` operation.
-- 
2.43.0


From a225cc753e44bb6ed93bd51e52cb78a1a6c48aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:22 +0000
Subject: [PATCH 33/43] fix: MaybeResolved must not be overwritten while it is
 matched mutably

---
 stabby-abi/src/future.rs | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/stabby-abi/src/future.rs b/stabby-abi/src/future.rs
index b975f3d..7362e3b 100644
--- a/stabby-abi/src/future.rs
+++ b/stabby-abi/src/future.rs
@@ -345,27 +345,25 @@ where
         self: core::pin::Pin<&mut Self>,
         cx: &mut Context<'_>,
     ) -> core::task::Poll<Self::Output> {
+        use core::task::Poll;
         let this = self.get_mut();
-        let inner = this as *mut _;
-        this.match_mut(
-            |value| {
-                let value = unsafe {
-                    let value = core::ptr::read(value);
-                    core::ptr::write(inner, MaybeResolved::Empty());
-                    value
-                };
-                core::task::Poll::Ready(value)
-            },
-            || core::task::Poll::Pending,
-            |future| match core::future::Future::poll(core::pin::Pin::new(future), cx) {
-                core::task::Poll::Ready(value) => {
-                    unsafe {
-                        core::ptr::replace(inner, MaybeResolved::Empty());
-                    }
-                    core::task::Poll::Ready(value)
-                }
-                core::task::Poll::Pending => core::task::Poll::Pending,
-            },
-        )
+        // `this` may only be overwritten once `match_mut` has returned, as it still has determinants to write back.
+        let ready = this.match_mut(
+            |_| Poll::Ready(None),
+            || Poll::Pending,
+            |future| core::future::Future::poll(core::pin::Pin::new(future), cx).map(Some),
+        );
+        match ready {
+            Poll::Ready(Some(value)) => {
+                *this = MaybeResolved::Empty();
+                Poll::Ready(value)
+            }
+            Poll::Ready(None) => core::mem::replace(this, MaybeResolved::Empty()).match_owned(
+                Poll::Ready,
+                || Poll::Pending,
+                |_| Poll::Pending,
+            ),
+            Poll::Pending => Poll::Pending,
+        }
     }
 }
-- 
2.43.0


From c5d805bf5b105cd6c4df63525dd76ed368f14615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:31 +0000
Subject: [PATCH 34/43] fix: StableWaker must clone with its own allocator

---
 stabby-abi/src/future.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/stabby-abi/src/future.rs b/stabby-abi/src/future.rs
index 7362e3b..e5bcf5b 100644
--- a/stabby-abi/src/future.rs
+++ b/stabby-abi/src/future.rs
@@ -127,21 +127,25 @@ mod stable_waker {
     impl<Alloc: IAlloc + Default> StableWaker<'_, Alloc> {
         /// Turns this into a waker whose clone implementation is to clone the underlying waker into a stable Arc.
         pub fn with_waker<F: FnOnce(&Waker) -> U, U>(&self, f: F) -> U {
-            const VTABLE: RawWakerVTable =
-                RawWakerVTable::new(clone, wake_by_ref, wake_by_ref, drop);
-            unsafe fn clone(this: *const ()) -> RawWaker {
-                let this = unsafe { &*(this as *const StableWaker) };
-                (this.clone)(this.waker).into_raw_waker()
-            }
-            unsafe fn wake_by_ref(this: *const ()) {
-                let this = unsafe { &*(this as *const StableWaker) };
-                (this.wake_by_ref.as_ref_unchecked())(this.waker.as_ref_unchecked())
-            }
-            const unsafe fn drop(_: *const ()) {}
-            let waker = RawWaker::new(self as *const Self as *const _, &VTABLE);
+            let waker = RawWaker::new(self as *const Self as *const _, &Self::VTABLE);
             let waker = unsafe { Waker::from_raw(waker) };
             f(&waker)
         }
+        const VTABLE: RawWakerVTable = RawWakerVTable::new(
+            Self::raw_clone,
+            Self::raw_wake_by_ref,
+            Self::raw_wake_by_ref,
+            Self::raw_drop,
+        );
+        unsafe fn raw_clone(this: *const ()) -> RawWaker {
+            let this = unsafe { &*(this as *const Self) };
+            (this.clone)(this.waker).into_raw_waker()
+        }
+        unsafe fn raw_wake_by_ref(this: *const ()) {
+            let this = unsafe { &*(this as *const Self) };
+            (this.wake_by_ref.as_ref_unchecked())(this.waker.as_ref_unchecked())
+        }
+        const unsafe fn raw_drop(_: *const ()) {}
         unsafe extern "C" fn waker_drop(waker: &mut ManuallyDrop<Waker>) {
             ManuallyDrop::drop(waker)
         }
-- 
2.43.0


From 3e2037f43874e234f2f9dc8b598a7894954c4932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 35/43] fix: CheckedImport must acquire the verdict it reads

---
 stabby-abi/src/checked_import.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/checked_import.rs b/stabby-abi/src/checked_import.rs
index 1e1c678..90db6e4 100644
--- a/stabby-abi/src/checked_import.rs
+++ b/stabby-abi/src/checked_import.rs
@@ -109,7 +109,7 @@ impl<F> CheckedImport<F> {
     /// Returns a [`ReportMismatch`] if the local and loaded reports differ.
     pub fn as_ref(&self) -> Result<&F, ReportMismatch> {
         loop {
-            match self.checked.load(Ordering::Relaxed) {
+            match self.checked.load(Ordering::Acquire) {
                 UNCHECKED => match unsafe { (self.checker)(self.local_report) } {
                     Some(result) => {
                         if self
-- 
2.43.0


From 3114e14c7dd7fed4b1f1d11aadda63c3c92a6b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 36/43] fix: reports of types with different numbers of fields
 must not be compatible

---
 stabby-abi/src/report.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stabby-abi/src/report.rs b/stabby-abi/src/report.rs
index 433d235..d7db2fb 100644
--- a/stabby-abi/src/report.rs
+++ b/stabby-abi/src/report.rs
@@ -69,6 +69,7 @@ impl TypeReport {
             && self.module == other.module
             && self.version == other.version
             && self.tyty == other.tyty
+            && self.fields().count() == other.fields().count()
             && self
                 .fields()
                 .zip(other.fields())
-- 
2.43.0


From ae74ccc4d931c8f80aadd548517d97e8f5338fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 37/43] fix: Result: size is a multiple of the alignment

---
 stabby-abi/src/result.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index 94f7f13..a84510a 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -47,8 +47,8 @@ where
     Ok: IDeterminantProvider<Err>,
     Err: IStable,
 {
-    /// The size is the max of the variants' sizes, plus the size of the determinant upgraded to a multiple of the alignment.
-    type Size = tyeval!(<<Determinant<Ok, Err> as IStable>::Size as Unsigned>::NextMultipleOf<Self::Align> + <Ok::Size as Unsigned>::Max<Err::Size>);
+    /// The size is the max of the variants' sizes upgraded to a multiple of the alignment, plus the size of the determinant upgraded to a multiple of the alignment.
+    type Size = tyeval!(<<Determinant<Ok, Err> as IStable>::Size as Unsigned>::NextMultipleOf<Self::Align> + <<Ok::Size as Unsigned>::Max<Err::Size> as Unsigned>::NextMultipleOf<Self::Align>);
     /// The alignment is the max of the variants' alignments.
     type Align = <Ok::Align as Alignment>::Max<Err::Align>;
     // If either variant may contain an indirection, so may their sum-type.
-- 
2.43.0


From 316dbb55a66b8484b41c0b1c0c0551af267aacf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 38/43] fix: BitDeterminant: read the determinant bit, not the
 enum

---
 stabby-abi/src/enums/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/enums/mod.rs b/stabby-abi/src/enums/mod.rs
index 6268d0d..ed85cb8 100644
--- a/stabby-abi/src/enums/mod.rs
+++ b/stabby-abi/src/enums/mod.rs
@@ -68,8 +68,10 @@ impl IDeterminant for BitDeterminant {
     unsafe fn err(_: *mut u8) -> Self {
         BitDeterminant::Err
     }
-    fn is_det_ok(&self, _: *const u8) -> bool {
-        (*self as u8 & 1) == 0
+    fn is_det_ok(&self, union: *const u8) -> bool {
+        // The other bits of the determinant are exported as niches, so it may not be read as an enum:
+        // an enclosing sum-type may have set them.
+        unsafe { *union & 1 == 0 }
     }
     type IsNicheTrick = B0;
 }
-- 
2.43.0


From 029bc8281cb9314a52204dfdb3ecdd85d9938002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 39/43] fix: Vec: do not trust the length announced by a
 stream, report allocation failures while deserialising

---
 stabby-abi/src/alloc/vec.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 209bcdf..510c08e 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -874,9 +874,14 @@ mod serde_impl {
         where
             A: serde::de::SeqAccess<'a>,
         {
-            let mut this = Vec::with_capacity_in(seq.size_hint().unwrap_or(0), Alloc::default());
+            // The hint comes from the stream: like `serde` itself, trust it up to a point only.
+            let hint = seq.size_hint().unwrap_or(0);
+            let hint = hint.min((1 << 16) / core::mem::size_of::<T>().max(1));
+            let mut this =
+                Vec::try_with_capacity_in(hint, Alloc::default()).unwrap_or_else(Vec::new_in);
             while let Some(v) = seq.next_element()? {
-                this.push(v);
+                this.try_push(v)
+                    .map_err(|_| serde::de::Error::custom("allocation failure"))?;
             }
             Ok(this)
         }
-- 
2.43.0


From 0b5700d68033e2beb4c282e1adea69ebf02a461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 40/43] fix: ArcSlice: drop the zero-sized elements of a Vec
 that cannot be converted

---
 stabby-abi/src/alloc/sync.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 3c44f25..a2c6fc6 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -551,7 +551,14 @@ impl<T, Alloc: IAlloc> From<Vec<T, Alloc>> for ArcSlice<T, Alloc> {
                 },
             }
         } else {
-            let mut start = AllocPtr::alloc_array(&mut alloc, 0).expect("Allocation failed");
+            let Some(mut start) = AllocPtr::alloc_array(&mut alloc, 0) else {
+                // Without a capacity, only zero-sized elements may be there.
+                unsafe {
+                    core::ptr::slice_from_raw_parts_mut(slice.start.ptr.as_ptr(), slice.len())
+                        .drop_in_place()
+                };
+                panic!("Allocation failed")
+            };
             unsafe {
                 start.prefix_mut().strong = AtomicUsize::new(1);
                 start.prefix_mut().weak = AtomicUsize::new(1);
-- 
2.43.0


From c008b4d0cf70b5598f32bc7e5678ff378b7a58d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:04 +0000
Subject: [PATCH 41/43] fix: String: deserialise from strings that are not
 borrowed

---
 stabby-abi/src/alloc/string.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/string.rs b/stabby-abi/src/alloc/string.rs
index 6ab2b5b..ae5f3fc 100644
--- a/stabby-abi/src/alloc/string.rs
+++ b/stabby-abi/src/alloc/string.rs
@@ -371,7 +371,7 @@ mod std_impl {
 mod serde_impl {
     use super::*;
     use crate::alloc::IAlloc;
-    use serde::{Deserialize, Serialize};
+    use serde::{de::Visitor, Deserialize, Serialize};
     impl<Alloc: IAlloc> Serialize for String<Alloc> {
         fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
         where
@@ -386,7 +386,24 @@ mod serde_impl {
         where
             D: serde::Deserializer<'a>,
         {
-            crate::str::Str::deserialize(deserializer).map(Into::into)
+            deserializer.deserialize_string(StringVisitor(core::marker::PhantomData))
+        }
+    }
+    struct StringVisitor<Alloc>(core::marker::PhantomData<Alloc>);
+    impl<Alloc: IAlloc + Default> Visitor<'_> for StringVisitor<Alloc> {
+        type Value = String<Alloc>;
+        // Borrowed and owned strings end up here as well.
+        fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
+        where
+            E: serde::de::Error,
+        {
+            let mut this = String::default();
+            this.try_concat(v)
+                .map_err(|_| E::custom("allocation failure"))?;
+            Ok(this)
+        }
+        fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
+            formatter.write_str("A string")
         }
     }
 }
-- 
2.43.0


From 67de6c6d5b65052b8ed3b25a0ca5550b12aaff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:14 +0000
Subject: [PATCH 42/43] fix: checking uniqueness must synchronize with owners
 revived meanwhile

---
 stabby-abi/src/alloc/sync.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index a2c6fc6..8374ce7 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -348,7 +348,8 @@ fn is_unique(strong: &AtomicUsize, weak: &AtomicUsize) -> bool {
         }
     }
     let weak = weak.load(Ordering::Acquire);
-    strong.fetch_and(!USIZE_TOP_BIT, Ordering::Release) == LOCKED && weak == 1
+    // `force_upgrade` is not kept at bay: an owner it revived may have come and gone meanwhile.
+    strong.fetch_and(!USIZE_TOP_BIT, Ordering::AcqRel) == LOCKED && weak == 1
 }
 
 /// [`alloc::sync::Weak`](https://doc.rust-lang.org/stable/alloc/sync/struct.Weak.html), but ABI-stable.
-- 
2.43.0


From a14c54d0529315d204ecfd53a608067c51958162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 43/43] fix: build the canary error from symbol names that are
 not UTF-8 soundly

---
 stabby/src/libloading.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby/src/libloading.rs b/stabby/src/libloading.rs
index f0802bb..e30b3c1 100644
--- a/stabby/src/libloading.rs
+++ b/stabby/src/libloading.rs
@@ -121,7 +121,7 @@ impl StabbyLibrary for libloading::Library {
             if let Err(e) = self.get::<extern "C" fn()>(&[symbol, suffix.as_bytes()].concat()) {
                 return Err(format!(
                     "Canary {symbol}{suffix} not found: {e}",
-                    symbol = std::str::from_utf8_unchecked(symbol)
+                    symbol = String::from_utf8_lossy(symbol)
                 )
                 .into());
             }
-- 
2.43.0

