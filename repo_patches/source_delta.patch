From 55a3282c5d1d60400676638ce8ba6bb7c62e5a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 01/13] fix: keep operand order when concatenating a shorter
 persistent vector with a taller one

---
 src/pvec/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 1a246ba..2892a6d 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -288,7 +288,7 @@ impl<T: Clone> RRBTree<T> {
         if self.height == other.height {
             self.concat_same_height(other)
         } else if self.height < other.height {
-            other.concat_different_height(self, false)
+            self.concat_different_height(other, false)
         } else {
             self.concat_different_height(other, true)
         }
-- 
2.43.0


From 78dbc52fe65a77b807e15ea5f6c552e8cc18af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 02/13] fix: follow the whole path to the split point in
 persistent vectors whose subtrees differ in height

---
 src/pvec/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 2892a6d..35ee7da 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -756,7 +756,9 @@ impl<T: Clone> RRBTree<T> {
         let mut remaining_index = index;
         let mut current_height = self.height;
 
-        while current_height > 0 {
+        // Descend until a leaf is reached: after concatenation or a leaf push the
+        // subtrees of a relaxed node may be deeper than the recorded height.
+        loop {
             match current_node.as_ref() {
                 RRBNode::Branch { children, sizes } => {
                     let (child_idx, sub_index) = if sizes.is_some() {
-- 
2.43.0


From a99fca14d4ff4d272027aaf0f29b1875071ae098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 03/13] fix: do not count the head buffer as part of the tree
 in PersistentVector::pop_back

---
 src/pvec/tree.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 35ee7da..5309db7 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -457,13 +457,21 @@ impl<T: Clone> RRBTree<T> {
     }
 
     fn pop_from_tree(&self) -> Option<(Self, T)> {
-        if self.len == 0 {
-            return None;
-        }
-
-        let tree_size = self.len - self.tail.len();
+        let tree_size = self.len - self.head.len() - self.tail.len();
         if tree_size == 0 {
-            return None;
+            // Only the head buffer holds elements.
+            let mut new_head = self.head.clone();
+            let popped = new_head.pop()?;
+            return Some((
+                Self {
+                    root: self.root.clone(),
+                    tail: self.tail.clone(),
+                    head: new_head,
+                    height: self.height,
+                    len: self.len - 1,
+                },
+                popped,
+            ));
         }
 
         let last_tree_index = tree_size - 1;
-- 
2.43.0


From 9eb1f721f7c83e1d3e599ff238468cb82e74dbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 04/13] fix: keep element order when
 PersistentVector::pop_front drains the tail buffer

---
 src/pvec/tree.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 5309db7..1dbfc55 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -544,11 +544,8 @@ impl<T: Clone> RRBTree<T> {
         }
 
         if !self.tail.is_empty() {
-            let mut new_head = SmallVec::new();
-            for item in self.tail.iter().rev() {
-                new_head.push(item.clone());
-            }
-            let popped = new_head.pop()?;
+            let mut new_head = self.tail.clone();
+            let popped = new_head.remove(0);
 
             Some((
                 Self {
-- 
2.43.0


From 843cd846a6a9cb265c72ac2b2bed5501e1e6935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 05/13] fix: never keep an empty node as a child of a
 persistent vector's tree

---
 src/pvec/node.rs | 10 ++++++++++
 src/pvec/tree.rs |  7 +++++++
 2 files changed, 17 insertions(+)

diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index a7f9b5e..8cb0ab1 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -212,6 +212,11 @@ impl<T: Clone> RRBNode<T> {
     }
 
     pub fn push_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
+        // An empty node must not become a child: popping stops at empty children.
+        if self.calculate_size() == 0 {
+            return (*leaf).clone();
+        }
+
         match self {
             RRBNode::Leaf { .. } => {
                 let self_size = self.calculate_size();
@@ -328,6 +333,11 @@ impl<T: Clone> RRBNode<T> {
     }
 
     pub fn push_front_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
+        // An empty node must not become a child: popping stops at empty children.
+        if self.calculate_size() == 0 {
+            return (*leaf).clone();
+        }
+
         match self {
             RRBNode::Leaf { .. } => {
                 let leaf_size = leaf.calculate_size();
diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 1dbfc55..d43bb40 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -354,6 +354,13 @@ impl<T: Clone> RRBTree<T> {
     }
 
     fn concat_nodes(left: &Arc<RRBNode<T>>, right: &Arc<RRBNode<T>>, height: usize) -> RRBNode<T> {
+        if left.calculate_size() == 0 {
+            return (**right).clone();
+        }
+        if right.calculate_size() == 0 {
+            return (**left).clone();
+        }
+
         match (left.as_ref(), right.as_ref()) {
             (
                 RRBNode::Leaf {
-- 
2.43.0


From 0be4deb5806567bcce1acdf92ea4bcc956699f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 06/13] fix: compare, order and hash persistent vectors by
 their elements only

---
 src/pvec/core.rs | 46 ++++++++++++++++++++++++++++++++++++++++++++--
 src/pvec/node.rs |  4 ++++
 src/pvec/tree.rs |  4 ++++
 3 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/pvec/core.rs b/src/pvec/core.rs
index f185bbb..479076e 100644
--- a/src/pvec/core.rs
+++ b/src/pvec/core.rs
@@ -1,7 +1,9 @@
 //! Core implementation of the persistent vector data structure.
 
 use smallvec::SmallVec;
+use std::cmp::Ordering;
 use std::fmt::{self, Debug};
+use std::hash::{Hash, Hasher};
 use std::sync::Arc;
 
 use super::error::PVecError;
@@ -40,7 +42,7 @@ type Generation = u32;
 /// assert_eq!(vec.get(1), Some(&2));  // Original unchanged
 /// assert_eq!(vec2.get(1), Some(&42)); // New vector updated
 /// ```
-#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone)]
 pub struct PersistentVector<T> {
     inner: VectorImpl<T>,
     len: usize,
@@ -51,7 +53,7 @@ pub struct PersistentVector<T> {
 ///
 /// Uses an adaptive strategy where small vectors are stored inline
 /// and larger vectors use a tree structure.
-#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug)]
 enum VectorImpl<T> {
     /// Inline storage for small vectors.
     Inline {
@@ -187,7 +189,9 @@ impl<T: Clone> PersistentVector<T> {
     {
         PersistentVector::from_iter(self.iter().map(f))
     }
+}
 
+impl<T> PersistentVector<T> {
     /// Gets a reference to the element at the specified index.
     ///
     /// Returns `None` if the index is out of bounds.
@@ -211,7 +215,9 @@ impl<T: Clone> PersistentVector<T> {
             VectorImpl::Tree { tree } => tree.as_ref().get(index),
         }
     }
+}
 
+impl<T: Clone> PersistentVector<T> {
     /// Creates a new vector containing only elements that match the predicate.
     ///
     /// # Examples
@@ -977,6 +983,42 @@ impl<T: Clone> PersistentVector<T> {
     }
 }
 
+// Comparison and hashing look at the elements only: how a vector was built (its
+// generation, and how its tree is shaped) must not be observable through them.
+
+impl<T: PartialEq> PartialEq for PersistentVector<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.len == other.len && (0..self.len).all(|i| self.get(i) == other.get(i))
+    }
+}
+
+impl<T: Eq> Eq for PersistentVector<T> {}
+
+impl<T: PartialOrd> PartialOrd for PersistentVector<T> {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        let left = (0..self.len).filter_map(|i| self.get(i));
+        let right = (0..other.len).filter_map(|i| other.get(i));
+        left.partial_cmp(right)
+    }
+}
+
+impl<T: Ord> Ord for PersistentVector<T> {
+    fn cmp(&self, other: &Self) -> Ordering {
+        let left = (0..self.len).filter_map(|i| self.get(i));
+        let right = (0..other.len).filter_map(|i| other.get(i));
+        left.cmp(right)
+    }
+}
+
+impl<T: Hash> Hash for PersistentVector<T> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.len.hash(state);
+        for i in 0..self.len {
+            self.get(i).hash(state);
+        }
+    }
+}
+
 impl<T> Default for PersistentVector<T> {
     fn default() -> Self {
         Self::new()
diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index 8cb0ab1..e5df2c2 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -48,7 +48,9 @@ impl<T: Clone> RRBNode<T> {
             sizes: Some(sizes),
         }
     }
+}
 
+impl<T> RRBNode<T> {
     pub fn find_child_relaxed(&self, index: usize) -> Option<(usize, usize)> {
         match self {
             RRBNode::Branch {
@@ -88,7 +90,9 @@ impl<T: Clone> RRBNode<T> {
             },
         }
     }
+}
 
+impl<T: Clone> RRBNode<T> {
     pub fn is_relaxed(&self) -> bool {
         matches!(self, RRBNode::Branch { sizes: Some(_), .. })
     }
diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index d43bb40..c65a44f 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -110,7 +110,9 @@ impl<T: Clone> RRBTree<T> {
         let (root, sub_height) = Self::build_tree_recursive(next_level);
         (root, sub_height + 1)
     }
+}
 
+impl<T> RRBTree<T> {
     pub fn get(&self, index: usize) -> Option<&T> {
         if index >= self.len {
             return None;
@@ -156,7 +158,9 @@ impl<T: Clone> RRBTree<T> {
             }
         }
     }
+}
 
+impl<T: Clone> RRBTree<T> {
     pub fn update(&self, index: usize, value: T) -> Self {
         if index >= self.len {
             return self.clone();
-- 
2.43.0


From 4281d70e939288e265921ca8495b3949fff54795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 07/13] fix: make IO::new_async run its future from any thread
 and share the result with concurrent runs

---
 src/datatypes/io.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/datatypes/io.rs b/src/datatypes/io.rs
index e7beb46..7543f24 100644
--- a/src/datatypes/io.rs
+++ b/src/datatypes/io.rs
@@ -780,17 +780,26 @@ impl<A: Send + Sync + 'static + Clone> IO<A> {
                 return cached_result.clone();
             }
 
-            let future_to_run = future_once.lock().unwrap().take();
-            if let Some(f) = future_to_run {
-                let result = TOKIO_RUNTIME
-                    .block_on(tokio::task::spawn_blocking(move || {
-                        TOKIO_RUNTIME.block_on(f)
-                    }))
-                    .unwrap();
-                let _ = result_cache.set(result.clone());
-                result
+            // The lock is held while the future runs, so that concurrent runs wait for
+            // its result. A panicking future is reported to every run, poisoned or not.
+            let mut future_to_run = future_once
+                .lock()
+                .unwrap_or_else(std::sync::PoisonError::into_inner);
+            if let Some(f) = future_to_run.take() {
+                // A dedicated thread is never inside an async context, so this works
+                // from plain threads and from within any Tokio runtime alike.
+                match std::thread::spawn(move || TOKIO_RUNTIME.block_on(f)).join() {
+                    Ok(result) => {
+                        let _ = result_cache.set(result.clone());
+                        result
+                    },
+                    Err(panic) => std::panic::resume_unwind(panic),
+                }
             } else {
-                result_cache.get().unwrap().clone()
+                result_cache
+                    .get()
+                    .expect("the future of this async IO panicked in an earlier run")
+                    .clone()
             }
         })
     }
-- 
2.43.0


From f555b150676336d66309550b0b50674257e7f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 08/13] fix: keep a Memoizer usable after a computation
 panicked

---
 src/datatypes/wrapper/memoizer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/datatypes/wrapper/memoizer.rs b/src/datatypes/wrapper/memoizer.rs
index f3ec6fc..86281cc 100644
--- a/src/datatypes/wrapper/memoizer.rs
+++ b/src/datatypes/wrapper/memoizer.rs
@@ -77,7 +77,7 @@
 //! ```
 use std::collections::HashMap;
 use std::hash::Hash;
-use std::sync::RwLock;
+use std::sync::{PoisonError, RwLock};
 
 /// Thread-safe memoizer for pure functions.
 ///
@@ -200,13 +200,13 @@ where
     {
         // Try to read from cache first
         {
-            let cache = self.cache.read().unwrap();
+            let cache = self.cache.read().unwrap_or_else(PoisonError::into_inner);
             if let Some(v) = cache.get(&key) {
                 return v.clone();
             }
         }
         // Not found, compute and insert
-        let mut cache = self.cache.write().unwrap();
+        let mut cache = self.cache.write().unwrap_or_else(PoisonError::into_inner);
         // Double-check in case another thread inserted
         if let Some(v) = cache.get(&key) {
             return v.clone();
@@ -252,7 +252,7 @@ where
     /// assert_eq!(value, 126);
     /// ```
     pub fn clear(&self) {
-        let mut cache = self.cache.write().unwrap();
+        let mut cache = self.cache.write().unwrap_or_else(PoisonError::into_inner);
         cache.clear();
     }
 }
-- 
2.43.0


From 9915ef3d904f7208cc5ab85bfa538c9d6b278526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 09/13] fix: do not drop the bound value twice in ReaderT::bind

---
 src/transformers/reader_t.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transformers/reader_t.rs b/src/transformers/reader_t.rs
index b2a2e4d..a618a6c 100644
--- a/src/transformers/reader_t.rs
+++ b/src/transformers/reader_t.rs
@@ -953,10 +953,12 @@ where
             let e_clone = e.clone();
 
             M::bind::<B, _>(&ma, move |source_ref: &M::Source| {
-                let a_owned = source_ref.clone();
+                // The bitwise copy below takes over ownership, so the original must not be
+                // dropped as well.
+                let a_owned = std::mem::ManuallyDrop::new(source_ref.clone());
                 // Use unsafe transmute to convert from M::Source to A
                 // This is safe because we have the constraint M: HKT<Source = A>
-                let a_value: A = unsafe { std::mem::transmute_copy(&a_owned) };
+                let a_value: A = unsafe { std::mem::transmute_copy(&*a_owned) };
                 f_clone(a_value).run_reader(e_clone.clone())
             })
         })
-- 
2.43.0


From d561e9e392edcc8f52fde1d002ca3fd5e19a681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 10/13] fix: an invalid value without errors makes a collected
 Validated invalid

---
 src/datatypes/validated/core.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/datatypes/validated/core.rs b/src/datatypes/validated/core.rs
index e47702c..fca62f6 100644
--- a/src/datatypes/validated/core.rs
+++ b/src/datatypes/validated/core.rs
@@ -1547,18 +1547,23 @@ impl<E: Clone, A: Clone> Validated<E, A> {
         A: Clone,
         E: Clone,
     {
-        let (values, errors): (Vec<_>, SmallVec<[E; 8]>) = iter.fold(
-            (Vec::new(), SmallVec::<[E; 8]>::new()),
-            |(mut values, mut errors), item| {
+        // An invalid value may carry no error (the monoid's empty value), so the
+        // number of errors does not tell whether everything was valid.
+        let (values, errors, all_valid): (Vec<_>, SmallVec<[E; 8]>, bool) = iter.fold(
+            (Vec::new(), SmallVec::<[E; 8]>::new(), true),
+            |(mut values, mut errors, mut all_valid), item| {
                 match item {
                     Validated::Valid(a) => values.push(a),
-                    Validated::Invalid(es) => errors.extend(es),
+                    Validated::Invalid(es) => {
+                        all_valid = false;
+                        errors.extend(es);
+                    },
                 }
-                (values, errors)
+                (values, errors, all_valid)
             },
         );
 
-        if errors.is_empty() {
+        if all_valid {
             Validated::Valid(C::from_iter(values))
         } else {
             Validated::Invalid(errors)
@@ -1595,15 +1600,19 @@ impl<E: Clone, A: Clone> Validated<E, A> {
     {
         let mut acc = ErrorAccumulator::new();
         let mut values = Vec::new();
+        let mut all_valid = true;
 
         for item in iter {
             match item {
                 Validated::Valid(a) => values.push(a),
-                Validated::Invalid(es) => acc.extend_owned(es),
+                Validated::Invalid(es) => {
+                    all_valid = false;
+                    acc.extend_owned(es);
+                },
             }
         }
 
-        if acc.buffer.is_empty() {
+        if all_valid {
             Validated::Valid(C::from_iter(values))
         } else {
             Validated::Invalid(acc.into_inner())
-- 
2.43.0


From 924a76d6d7dee3557217cf8a505dd2e6933a8468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 11/13] fix: stop calling the function of
 FoldableExt::fold_option after the first None

---
 src/traits/foldable.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/traits/foldable.rs b/src/traits/foldable.rs
index 91b3791..d91f25e 100644
--- a/src/traits/foldable.rs
+++ b/src/traits/foldable.rs
@@ -465,9 +465,8 @@ pub trait FoldableExt: Foldable {
         F: Fn(&Self::Source) -> Option<B>,
         B: Monoid + Clone,
     {
-        self.fold_left(&Some(B::empty()), |acc, x| match (acc, f(x)) {
-            (Some(a), Some(b)) => Some(a.combine(&b)),
-            _ => None,
+        self.fold_left(&Some(B::empty()), |acc: &Option<B>, x| {
+            acc.as_ref().and_then(|a| f(x).map(|b| a.combine(&b)))
         })
     }
 
-- 
2.43.0


From 1b3a4718288538e30be48795406987dfc61cef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 12/13] fix: combine_n_owned combines n copies, not 2^(n-1)

---
 src/traits/semigroup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits/semigroup.rs b/src/traits/semigroup.rs
index 6a57dc1..48dffd2 100644
--- a/src/traits/semigroup.rs
+++ b/src/traits/semigroup.rs
@@ -234,9 +234,9 @@ pub trait SemigroupExt: Semigroup {
         if n == 0 {
             return self;
         }
-        let mut acc = self;
+        let mut acc = self.clone();
         for _ in 1..n {
-            acc = acc.clone().combine_owned(acc);
+            acc = acc.combine_owned(self.clone());
         }
         acc
     }
-- 
2.43.0


From 8e3de834c5a6967e8736b99ea1540c4223fb8839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 13/13] fix: Validated::invalid_many does not reserve for the
 iterator's upper bound

An honest iterator whose upper size hint is large but which yields few
errors made it panic with a capacity overflow.
---
 src/datatypes/validated/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datatypes/validated/core.rs b/src/datatypes/validated/core.rs
index fca62f6..81d4bdf 100644
--- a/src/datatypes/validated/core.rs
+++ b/src/datatypes/validated/core.rs
@@ -719,7 +719,8 @@ impl<E: Clone, A: Clone> Validated<E, A> {
                 if upper_bound <= 4 {
                     Validated::Invalid(iter.collect())
                 } else {
-                    let mut vec = SmallVec::with_capacity(upper_bound);
+                    // The upper bound may be far larger than what will be produced
+                    let mut vec = SmallVec::with_capacity(lower);
                     vec.extend(iter);
                     Validated::Invalid(vec)
                 }
-- 
2.43.0

