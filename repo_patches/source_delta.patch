From 6c84135e20bd2c668a3fb38040c3fe3649efff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 01/12] fix: PersistentVector::pop_back takes the front buffer
 into account

pop_from_tree computed the tree size as len - tail, so after a push_front
into the head buffer it looked up an index past the tree and returned None.
---
 src/pvec/tree.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 1a246ba..0bd1225 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -461,9 +461,21 @@ impl<T: Clone> RRBTree<T> {
             return None;
         }
 
-        let tree_size = self.len - self.tail.len();
+        let tree_size = self.len - self.head.len() - self.tail.len();
         if tree_size == 0 {
-            return None;
+            // Only the head holds elements: its last one is the last of the vector.
+            let mut new_head = self.head.clone();
+            let popped = new_head.pop()?;
+            return Some((
+                Self {
+                    root: self.root.clone(),
+                    tail: self.tail.clone(),
+                    head: new_head,
+                    height: self.height,
+                    len: self.len - 1,
+                },
+                popped,
+            ));
         }
 
         let last_tree_index = tree_size - 1;
-- 
2.43.0


From ca53824fe956520fd925f0e76a61ec9b5573b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 02/12] fix: PersistentVector::pop_front keeps the order when
 the tail becomes the head

The tail was copied into the head in reverse order, so every element after
the popped one came out reversed.
---
 src/pvec/tree.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 0bd1225..f7409a5 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -548,11 +548,8 @@ impl<T: Clone> RRBTree<T> {
         }
 
         if !self.tail.is_empty() {
-            let mut new_head = SmallVec::new();
-            for item in self.tail.iter().rev() {
-                new_head.push(item.clone());
-            }
-            let popped = new_head.pop()?;
+            let mut new_head = self.tail.clone();
+            let popped = new_head.remove(0);
 
             Some((
                 Self {
-- 
2.43.0


From b07344dece990dce0487b54e862b201d9da95a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 03/12] fix: PersistentVector::concat keeps the operand order
 for a shorter left tree

concat calls other.concat_different_height(self, false), where `self` is the
right operand; the branch appended the left operand after it.
---
 src/pvec/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index f7409a5..5bf8cdc 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -326,8 +326,8 @@ impl<T: Clone> RRBTree<T> {
             let elevated_other = Self::elevate_tree(other, self.height);
             self.concat_same_height(&elevated_other)
         } else {
-            let elevated_self = Self::elevate_tree(self, other.height);
-            elevated_self.concat_same_height(other)
+            let elevated_other = Self::elevate_tree(other, self.height);
+            elevated_other.concat_same_height(self)
         }
     }
 
-- 
2.43.0


From c9bec16c48bd2e2de477638ff399a335edda6ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 04/12] fix: PersistentVector::split_at keeps every element of
 a concatenated vector

The recorded height of a concatenated or skewed tree can be smaller than its
depth; the path to the split point then stopped above the leaf and the
remaining siblings were dropped by split_at, take, skip, insert and remove.
---
 src/pvec/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 5bf8cdc..38a36e0 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -765,7 +765,8 @@ impl<T: Clone> RRBTree<T> {
         let mut remaining_index = index;
         let mut current_height = self.height;
 
-        while current_height > 0 {
+        // Descend to the leaf: the recorded height can be smaller than the depth of the tree.
+        loop {
             match current_node.as_ref() {
                 RRBNode::Branch { children, sizes } => {
                     let (child_idx, sub_index) = if sizes.is_some() {
-- 
2.43.0


From eb88a102f9c0380f2873efe98ff70d2deddaf2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 05/12] fix: PersistentVector pops no longer stop at an empty
 tree child

Pushing a full tail or head into an empty root, or concatenating with an
empty root, left an empty leaf as the first or last child; pop_back and
pop_front then returned None, or an element twice, on a non-empty vector.
---
 src/pvec/node.rs |  4 ++++
 src/pvec/tree.rs | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index a7f9b5e..e3ccbb5 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -213,6 +213,8 @@ impl<T: Clone> RRBNode<T> {
 
     pub fn push_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
         match self {
+            // An empty root must not become an empty child: pops stop at it.
+            RRBNode::Leaf { elements } if elements.is_empty() => (*leaf).clone(),
             RRBNode::Leaf { .. } => {
                 let self_size = self.calculate_size();
                 let leaf_size = leaf.calculate_size();
@@ -329,6 +331,8 @@ impl<T: Clone> RRBNode<T> {
 
     pub fn push_front_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
         match self {
+            // An empty root must not become an empty child: pops stop at it.
+            RRBNode::Leaf { elements } if elements.is_empty() => (*leaf).clone(),
             RRBNode::Leaf { .. } => {
                 let leaf_size = leaf.calculate_size();
                 let self_size = self.calculate_size();
diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 38a36e0..3df13f2 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -332,6 +332,11 @@ impl<T: Clone> RRBTree<T> {
     }
 
     fn elevate_tree(tree: &Self, target_height: usize) -> Self {
+        // An empty root stays as it is: a branch must not have an empty child.
+        if tree.root.calculate_size() == 0 {
+            return tree.clone();
+        }
+
         let mut current_root = tree.root.clone();
         let mut current_height = tree.height;
 
@@ -354,6 +359,14 @@ impl<T: Clone> RRBTree<T> {
     }
 
     fn concat_nodes(left: &Arc<RRBNode<T>>, right: &Arc<RRBNode<T>>, height: usize) -> RRBNode<T> {
+        // An empty side must not become an empty child: pops stop at it.
+        if left.calculate_size() == 0 {
+            return right.as_ref().clone();
+        }
+        if right.calculate_size() == 0 {
+            return left.as_ref().clone();
+        }
+
         match (left.as_ref(), right.as_ref()) {
             (
                 RRBNode::Leaf {
-- 
2.43.0


From 5b821cbd94f5b55da401f60ee292a417e359cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 06/12] fix: PersistentVector compares, orders and hashes by
 its elements

The derived implementations included the generation counter and the storage
layout, so vectors with the same elements compared unequal depending on how
they were built, which also broke the monoid laws under ==.
---
 src/pvec/core.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/pvec/core.rs b/src/pvec/core.rs
index f185bbb..d398592 100644
--- a/src/pvec/core.rs
+++ b/src/pvec/core.rs
@@ -1,7 +1,9 @@
 //! Core implementation of the persistent vector data structure.
 
 use smallvec::SmallVec;
+use std::cmp::Ordering;
 use std::fmt::{self, Debug};
+use std::hash::{Hash, Hasher};
 use std::sync::Arc;
 
 use super::error::PVecError;
@@ -40,7 +42,7 @@ type Generation = u32;
 /// assert_eq!(vec.get(1), Some(&2));  // Original unchanged
 /// assert_eq!(vec2.get(1), Some(&42)); // New vector updated
 /// ```
-#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone)]
 pub struct PersistentVector<T> {
     inner: VectorImpl<T>,
     len: usize,
@@ -977,6 +979,37 @@ impl<T: Clone> PersistentVector<T> {
     }
 }
 
+// Equality, ordering and hashing look at the elements only: the generation counter and the
+// shape of the storage depend on how a vector was built, not on what it contains.
+impl<T: Clone + PartialEq> PartialEq for PersistentVector<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.len == other.len && self.iter().eq(other.iter())
+    }
+}
+
+impl<T: Clone + Eq> Eq for PersistentVector<T> {}
+
+impl<T: Clone + PartialOrd> PartialOrd for PersistentVector<T> {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        self.iter().partial_cmp(other.iter())
+    }
+}
+
+impl<T: Clone + Ord> Ord for PersistentVector<T> {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.iter().cmp(other.iter())
+    }
+}
+
+impl<T: Clone + Hash> Hash for PersistentVector<T> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.len.hash(state);
+        for item in self {
+            item.hash(state);
+        }
+    }
+}
+
 impl<T> Default for PersistentVector<T> {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 7a785da827004f13adc713db8743b60cf88458bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 07/12] fix: the PersistentVector generation counter wraps
 instead of overflowing

The counter is 32 bits wide and goes up by one per operation, so a long-lived
vector panicked in builds with overflow checks after 2^32 operations.
---
 src/pvec/core.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/pvec/core.rs b/src/pvec/core.rs
index d398592..dbf35a2 100644
--- a/src/pvec/core.rs
+++ b/src/pvec/core.rs
@@ -519,7 +519,7 @@ impl<T: Clone> PersistentVector<T> {
                             elements: new_elements,
                         },
                         len: self.len + 1,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     }
                 } else {
                     self.transition_to_tree().push_back(value)
@@ -552,7 +552,7 @@ impl<T: Clone> PersistentVector<T> {
                             elements: new_elements,
                         },
                         len: self.len + 1,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     }
                 } else {
                     self.transition_to_tree().push_front(value)
@@ -613,7 +613,7 @@ impl<T: Clone> PersistentVector<T> {
                         elements: new_elements,
                     },
                     len: self.len,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
             VectorImpl::Tree { tree } => {
@@ -623,7 +623,7 @@ impl<T: Clone> PersistentVector<T> {
                         tree: Arc::new(new_tree),
                     },
                     len: self.len,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
         }
@@ -639,7 +639,7 @@ impl<T: Clone> PersistentVector<T> {
                         tree: Arc::new(tree),
                     },
                     len: self.len,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
             VectorImpl::Tree { .. } => self.clone(),
@@ -656,7 +656,7 @@ impl<T: Clone> PersistentVector<T> {
                         tree: Arc::new(new_tree),
                     },
                     len: self.len + 1,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
             _ => unreachable!(),
@@ -673,7 +673,7 @@ impl<T: Clone> PersistentVector<T> {
                         tree: Arc::new(new_tree),
                     },
                     len: self.len + 1,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
             _ => unreachable!(),
@@ -706,7 +706,7 @@ impl<T: Clone> PersistentVector<T> {
                         tree: Arc::new(merged_tree),
                     },
                     len: self.len + other.len,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
             (VectorImpl::Tree { tree }, VectorImpl::Inline { elements }) => {
@@ -717,7 +717,7 @@ impl<T: Clone> PersistentVector<T> {
                         tree: Arc::new(merged_tree),
                     },
                     len: self.len + other.len,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
             (VectorImpl::Tree { .. }, VectorImpl::Tree { .. }) => {
@@ -729,7 +729,7 @@ impl<T: Clone> PersistentVector<T> {
                         tree: Arc::new(merged_tree),
                     },
                     len: self.len + other.len,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
         }
@@ -773,7 +773,7 @@ impl<T: Clone> PersistentVector<T> {
                                 elements: new_elements,
                             },
                             len: self.len - 1,
-                            generation: self.generation + 1,
+                            generation: self.generation.wrapping_add(1),
                         },
                         last,
                     ))
@@ -788,7 +788,7 @@ impl<T: Clone> PersistentVector<T> {
                             tree: Arc::new(new_tree),
                         },
                         len: self.len - 1,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     },
                     value,
                 )
@@ -825,7 +825,7 @@ impl<T: Clone> PersistentVector<T> {
                                 elements: new_elements,
                             },
                             len: self.len - 1,
-                            generation: self.generation + 1,
+                            generation: self.generation.wrapping_add(1),
                         },
                         first,
                     ))
@@ -840,7 +840,7 @@ impl<T: Clone> PersistentVector<T> {
                             tree: Arc::new(new_tree),
                         },
                         len: self.len - 1,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     },
                     value,
                 )
@@ -879,12 +879,12 @@ impl<T: Clone> PersistentVector<T> {
                     Self {
                         inner: VectorImpl::Inline { elements: left },
                         len: index,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     },
                     Self {
                         inner: VectorImpl::Inline { elements: right },
                         len: self.len - index,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     },
                 )
             },
@@ -896,14 +896,14 @@ impl<T: Clone> PersistentVector<T> {
                             tree: Arc::new(left_tree),
                         },
                         len: index,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     },
                     Self {
                         inner: VectorImpl::Tree {
                             tree: Arc::new(right_tree),
                         },
                         len: self.len - index,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     },
                 )
             },
-- 
2.43.0


From 3031ab7b7b8e7aecf8034493af47bbae58c1adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 08/12] fix: ReaderT::bind no longer frees the bound value
 twice

transmute_copy duplicated the cloned value without forgetting the original,
so any value that owns memory was dropped twice. M::Source is A already.
---
 src/transformers/reader_t.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/transformers/reader_t.rs b/src/transformers/reader_t.rs
index b2a2e4d..9c6775b 100644
--- a/src/transformers/reader_t.rs
+++ b/src/transformers/reader_t.rs
@@ -953,10 +953,7 @@ where
             let e_clone = e.clone();
 
             M::bind::<B, _>(&ma, move |source_ref: &M::Source| {
-                let a_owned = source_ref.clone();
-                // Use unsafe transmute to convert from M::Source to A
-                // This is safe because we have the constraint M: HKT<Source = A>
-                let a_value: A = unsafe { std::mem::transmute_copy(&a_owned) };
+                let a_value: A = source_ref.clone();
                 f_clone(a_value).run_reader(e_clone.clone())
             })
         })
-- 
2.43.0


From c2b3d5243474ae1de4af931b6e48e921ffdd526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 09/12] fix: combine_n_owned combines n copies like combine_n

It doubled the accumulator on every step, so n copies became 2^(n-1).
---
 src/traits/semigroup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits/semigroup.rs b/src/traits/semigroup.rs
index 6a57dc1..c8a30a6 100644
--- a/src/traits/semigroup.rs
+++ b/src/traits/semigroup.rs
@@ -234,9 +234,9 @@ pub trait SemigroupExt: Semigroup {
         if n == 0 {
             return self;
         }
-        let mut acc = self;
+        let mut acc = self.clone();
         for _ in 1..n {
-            acc = acc.clone().combine_owned(acc);
+            acc = acc.combine(&self);
         }
         acc
     }
-- 
2.43.0


From da1eb16555ce99c389a4e01e9645fe2903a11ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 10/12] fix: Choice::bind and join keep the results of later
 alternatives

When the first value produced an empty Choice, the results of all the other
values were dropped, which broke the documented associativity law of bind.
---
 src/datatypes/choice.rs | 119 +++++++---------------------------------
 1 file changed, 19 insertions(+), 100 deletions(-)

diff --git a/src/datatypes/choice.rs b/src/datatypes/choice.rs
index b4842f0..824b597 100644
--- a/src/datatypes/choice.rs
+++ b/src/datatypes/choice.rs
@@ -1446,34 +1446,13 @@ impl<T: Clone> Monad for Choice<T> {
         F: Fn(&T) -> Self::Output<U>,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let self_values = &self.values;
-        let first_choice = f(&self_values[0]);
-
-        if first_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first_choice_values = &first_choice.values;
-        let first = first_choice_values[0].clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(first_choice_values.len() - 1 + self_values.len() - 1);
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(&first_choice_values[1..]);
-
-        // Apply f to each alternative and collect all values
-        for alt in &self_values[1..] {
-            let alt_choice = f(alt);
-            alternatives.extend_from_slice(alt_choice.values.as_ref());
+        // An alternative that yields nothing, the primary included, contributes nothing.
+        let mut values = SmallVec::<[U; 8]>::new();
+        for value in &self.values {
+            values.extend(f(value).values);
         }
 
-        Choice::new(first, alternatives)
+        Choice { values }
     }
 
     fn bind_owned<U, F>(self, mut f: F) -> Self::Output<U>
@@ -1481,31 +1460,12 @@ impl<T: Clone> Monad for Choice<T> {
         F: FnMut(Self::Source) -> Self::Output<U>,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let mut values = self.values;
-        let primary_choice = f(values.remove(0));
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let primary_choice_values = &primary_choice.values;
-        let first = primary_choice_values[0].clone();
-
-        // Calculate better capacity estimate for bind_owned
-        let mut alternatives = Vec::with_capacity(primary_choice_values.len() - 1 + values.len());
-
-        alternatives.extend_from_slice(&primary_choice_values[1..]);
-
-        for alt in values {
-            let alt_choice = f(alt);
-            alternatives.extend(alt_choice.values);
+        let mut values = SmallVec::<[U; 8]>::new();
+        for value in self.values {
+            values.extend(f(value).values);
         }
 
-        Choice::new(first, alternatives)
+        Choice { values }
     }
 
     #[inline]
@@ -1514,33 +1474,13 @@ impl<T: Clone> Monad for Choice<T> {
         T: Into<Self::Output<U>> + Clone,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let primary_value = self.first().unwrap().clone();
-        let primary_choice: Self::Output<U> = primary_value.into();
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
+        let mut values = SmallVec::<[U; 8]>::new();
+        for value in &self.values {
+            let inner: Self::Output<U> = value.clone().into();
+            values.extend(inner.values);
         }
 
-        let first = primary_choice.first().unwrap().clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(primary_choice.alternatives().len() + self.alternatives().len());
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(primary_choice.alternatives());
-
-        // Add all values from alternative choices
-        for alt in self.alternatives() {
-            let alt_choice: Self::Output<U> = alt.clone().into();
-            alternatives.extend_from_slice(alt_choice.values.as_ref());
-        }
-
-        Choice::new(first, alternatives)
+        Choice { values }
     }
 
     #[inline]
@@ -1549,34 +1489,13 @@ impl<T: Clone> Monad for Choice<T> {
         T: Into<Self::Output<U>> + Clone,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let mut values = self.values;
-        let primary_value = values.remove(0);
-        let primary_choice: Self::Output<U> = primary_value.into();
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first = primary_choice.first().unwrap().clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(primary_choice.alternatives().len() + values.len());
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(primary_choice.alternatives());
-
-        // Add all values from alternative choices
-        for alt in values {
-            let alt_choice: Self::Output<U> = alt.into();
-            alternatives.extend_from_slice(&alt_choice.values);
+        let mut values = SmallVec::<[U; 8]>::new();
+        for value in self.values {
+            let inner: Self::Output<U> = value.into();
+            values.extend(inner.values);
         }
 
-        Choice::new(first, alternatives)
+        Choice { values }
     }
 }
 
-- 
2.43.0


From f4c27bd29cadaa00eb47aa3fb6c40d1344c7a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 11/12] fix: Validated::collect stays invalid for an Invalid
 without errors

---
 src/datatypes/validated/core.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/datatypes/validated/core.rs b/src/datatypes/validated/core.rs
index e47702c..71c0107 100644
--- a/src/datatypes/validated/core.rs
+++ b/src/datatypes/validated/core.rs
@@ -1547,21 +1547,25 @@ impl<E: Clone, A: Clone> Validated<E, A> {
         A: Clone,
         E: Clone,
     {
-        let (values, errors): (Vec<_>, SmallVec<[E; 8]>) = iter.fold(
-            (Vec::new(), SmallVec::<[E; 8]>::new()),
-            |(mut values, mut errors), item| {
+        let (values, errors, invalid): (Vec<_>, SmallVec<[E; 8]>, bool) = iter.fold(
+            (Vec::new(), SmallVec::<[E; 8]>::new(), false),
+            |(mut values, mut errors, mut invalid), item| {
                 match item {
                     Validated::Valid(a) => values.push(a),
-                    Validated::Invalid(es) => errors.extend(es),
+                    Validated::Invalid(es) => {
+                        // An `Invalid` may carry no error at all (`Monoid::empty`).
+                        invalid = true;
+                        errors.extend(es);
+                    },
                 }
-                (values, errors)
+                (values, errors, invalid)
             },
         );
 
-        if errors.is_empty() {
-            Validated::Valid(C::from_iter(values))
-        } else {
+        if invalid {
             Validated::Invalid(errors)
+        } else {
+            Validated::Valid(C::from_iter(values))
         }
     }
 
@@ -1595,18 +1599,23 @@ impl<E: Clone, A: Clone> Validated<E, A> {
     {
         let mut acc = ErrorAccumulator::new();
         let mut values = Vec::new();
+        let mut invalid = false;
 
         for item in iter {
             match item {
                 Validated::Valid(a) => values.push(a),
-                Validated::Invalid(es) => acc.extend_owned(es),
+                Validated::Invalid(es) => {
+                    // An `Invalid` may carry no error at all (`Monoid::empty`).
+                    invalid = true;
+                    acc.extend_owned(es);
+                },
             }
         }
 
-        if acc.buffer.is_empty() {
-            Validated::Valid(C::from_iter(values))
-        } else {
+        if invalid {
             Validated::Invalid(acc.into_inner())
+        } else {
+            Validated::Valid(C::from_iter(values))
         }
     }
 
-- 
2.43.0


From 8e94bf0136fb0313ac1ae76e95114eef9bf39025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 12/12] fix: IO::new_async panicked when run outside a runtime
 or by two threads at once

---
 src/datatypes/io.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/datatypes/io.rs b/src/datatypes/io.rs
index e7beb46..1a1b3d8 100644
--- a/src/datatypes/io.rs
+++ b/src/datatypes/io.rs
@@ -776,22 +776,12 @@ impl<A: Send + Sync + 'static + Clone> IO<A> {
         let result_cache = Arc::new(OnceLock::<A>::new());
 
         IO::new(move || {
-            if let Some(cached_result) = result_cache.get() {
-                return cached_result.clone();
-            }
-
-            let future_to_run = future_once.lock().unwrap().take();
-            if let Some(f) = future_to_run {
-                let result = TOKIO_RUNTIME
-                    .block_on(tokio::task::spawn_blocking(move || {
-                        TOKIO_RUNTIME.block_on(f)
-                    }))
-                    .unwrap();
-                let _ = result_cache.set(result.clone());
-                result
-            } else {
-                result_cache.get().unwrap().clone()
-            }
+            result_cache
+                .get_or_init(|| {
+                    let future = future_once.lock().unwrap().take();
+                    TOKIO_RUNTIME.block_on(future.expect("The future of an IO panicked"))
+                })
+                .clone()
         })
     }
 
-- 
2.43.0

