From fe96dca819fde2e018957a6a759c7fb6adcb4701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 1/8] fix: map_path passes the path of the node being mapped

The path was read before the inner iterator advanced, so the closure saw the
previous node's path through a pointer that advancing could leave dangling.
---
 tree_iterators_rs/src/tree_collection_iterators/map_path.rs | 6 +++---
 tree_iterators_rs/src/tree_iterators/map_path.rs            | 4 +---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/tree_iterators_rs/src/tree_collection_iterators/map_path.rs b/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
index 293eeaf..4ca44d1 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
@@ -37,9 +37,9 @@ where
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // SAFETY: self.f cannot borrow path mutably since path is our internal state.
-        let path = unsafe { &*(self.current_path() as *const [usize]) };
-        self.inner.next().map(|value| (self.f)(path, value))
+        self.inner
+            .next()
+            .map(|value| (self.f)(self.inner.current_path(), value))
     }
 }
 
diff --git a/tree_iterators_rs/src/tree_iterators/map_path.rs b/tree_iterators_rs/src/tree_iterators/map_path.rs
index 4c36137..c64e5bd 100644
--- a/tree_iterators_rs/src/tree_iterators/map_path.rs
+++ b/tree_iterators_rs/src/tree_iterators/map_path.rs
@@ -37,11 +37,9 @@ where
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // SAFETY: self.f cannot borrow path mutably since path is our internal state.
-        let path = self.current_path() as *const [usize];
         self.inner
             .next()
-            .map(|value| (self.f)(unsafe { &*path }, value))
+            .map(|value| (self.f)(self.inner.current_path(), value))
     }
 }
 
-- 
2.43.0


From 214cbf97709b067927206a087d44a0fb89f5bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 2/8] fix: prune stages report paths in the pruned tree for
 every sibling

current_path only moved on when a subtree had been left, so a childless
sibling kept its predecessor's index and pruned siblings were not taken out.
---
 .../src/tree_collection_iterators/prune.rs             | 10 +++++++---
 .../src/tree_collection_iterators/prune_path.rs        | 10 +++++++---
 tree_iterators_rs/src/tree_iterators/prune.rs          | 10 +++++++---
 tree_iterators_rs/src/tree_iterators/prune_path.rs     | 10 +++++++---
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/tree_iterators_rs/src/tree_collection_iterators/prune.rs b/tree_iterators_rs/src/tree_collection_iterators/prune.rs
index 34f62d0..6585e14 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/prune.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/prune.rs
@@ -58,10 +58,14 @@ where
             } else if self.pruned_at_each_depth.len() > inner_path_len {
                 self.pruned_at_each_depth.truncate(inner_path_len);
                 self.current_path.truncate(inner_path_len);
+            }
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            if let (Some(segment), Some(inner_segment), Some(pruned)) = (
+                self.current_path.last_mut(),
+                self.inner.current_path().last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *segment = inner_segment - pruned;
             }
 
             if (self.f)(&item) {
diff --git a/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs b/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
index d32eaa0..33022c3 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
@@ -63,10 +63,14 @@ where
             } else if self.pruned_at_each_depth.len() > inner_path_len {
                 self.pruned_at_each_depth.truncate(inner_path_len);
                 self.current_path.truncate(inner_path_len);
+            }
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            if let (Some(segment), Some(inner_segment), Some(pruned)) = (
+                self.current_path.last_mut(),
+                self.inner.current_path().last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *segment = inner_segment - pruned;
             }
 
             if (self.f)(self.inner.current_path(), &item) {
diff --git a/tree_iterators_rs/src/tree_iterators/prune.rs b/tree_iterators_rs/src/tree_iterators/prune.rs
index 6af5b61..6513b5a 100644
--- a/tree_iterators_rs/src/tree_iterators/prune.rs
+++ b/tree_iterators_rs/src/tree_iterators/prune.rs
@@ -58,10 +58,14 @@ where
             } else if self.pruned_at_each_depth.len() > inner_path_len {
                 self.pruned_at_each_depth.truncate(inner_path_len);
                 self.current_path.truncate(inner_path_len);
+            }
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            if let (Some(segment), Some(inner_segment), Some(pruned)) = (
+                self.current_path.last_mut(),
+                self.inner.current_path().last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *segment = inner_segment - pruned;
             }
 
             if (self.f)(&item) {
diff --git a/tree_iterators_rs/src/tree_iterators/prune_path.rs b/tree_iterators_rs/src/tree_iterators/prune_path.rs
index 1d53054..0ebb4e4 100644
--- a/tree_iterators_rs/src/tree_iterators/prune_path.rs
+++ b/tree_iterators_rs/src/tree_iterators/prune_path.rs
@@ -58,10 +58,14 @@ where
             } else if self.pruned_at_each_depth.len() > inner_depth {
                 self.pruned_at_each_depth.truncate(inner_depth);
                 self.current_path.truncate(inner_depth);
+            }
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            if let (Some(segment), Some(inner_segment), Some(pruned)) = (
+                self.current_path.last_mut(),
+                self.inner.current_path().last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *segment = inner_segment - pruned;
             }
 
             if (self.f)(self.inner.current_path(), &item) {
-- 
2.43.0


From 224ca8c8773a04c8fd06cc2552ccbf03597711b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 3/8] fix: map_path_each of owned binary tree collections
 passes the path

It was declared and implemented as map_each.
---
 tree_iterators_rs/src/prelude.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tree_iterators_rs/src/prelude.rs b/tree_iterators_rs/src/prelude.rs
index 44d25c1..33c8a0b 100644
--- a/tree_iterators_rs/src/prelude.rs
+++ b/tree_iterators_rs/src/prelude.rs
@@ -4079,7 +4079,7 @@ where
     ) -> BinaryTrees<
         Output,
         (),
-        CollectionMap<
+        CollectionMapPath<
             T::OwnedValue,
             [Option<T>; 2],
             impl BinaryTreeCollectionIterator<T::OwnedValue, [Option<T>; 2]>,
@@ -4088,9 +4088,9 @@ where
         >,
     >
     where
-        F: FnMut(T::OwnedValue) -> Output,
+        F: FnMut(&[usize], T::OwnedValue) -> Output,
     {
-        self.into_pipeline().map_trees(f).trees()
+        self.into_pipeline().map_path(f).trees()
     }
 
     /// Applies the fold operation to every tree within this [`OwnedIntoIteratorOfBinaryTrees`].
-- 
2.43.0


From f1cc1ed9cba3ae89a638fd7865dd22d44925115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 4/8] fix: leaves() keeps leaves that hang directly off an
 already entered subtree

A childless node taken from the half-consumed iterator's own stack was not
recognised as a leaf, so calling leaves() mid-iteration dropped it.
---
 tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
index 3acbce6..6995f89 100644
--- a/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
@@ -34,7 +34,8 @@ macro_rules! dfs_postorder_leaves_next {
                     if let Some(node) = next_iter.next() {
                         let (value, children) = node.$get_value_and_children();
                         self.item_stack.push(value);
-                        self.traversal_stack_top.push(children.into_iter())
+                        self.traversal_stack_top.push(children.into_iter());
+                        just_added = true;
                     } else {
                         self.traversal_stack_bottom.pop();
                     }
-- 
2.43.0


From 1a97996b89320b0bbdb07ded3b731fc17049c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 5/8] fix: attach_ancestors().leaves() keeps ancestors in step
 mid-iteration

Calling leaves() after advancing reported leaves with ancestors that had
already been left (or lost ones), because the value stack and the stack of
half-consumed child iterators were popped independently of each other.
---
 .../src/dfs_inorder_iterators/borrow.rs       | 19 ++++++--
 .../src/dfs_inorder_iterators/mut_borrow.rs   | 19 ++++++--
 .../src/dfs_inorder_iterators/owned.rs        | 19 ++++++--
 .../ancestors_depth_first/mod.rs              | 46 ++++++++-----------
 4 files changed, 62 insertions(+), 41 deletions(-)

diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs b/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
index 3d91844..15446fb 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
@@ -148,15 +148,24 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.status_stack.is_empty() {
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+
+            // One entry per ancestor: nothing is left below those whose
+            // right subtree has already been entered.
+            let mut right_subtrees = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
-                .into_iter()
-                .map(|opt| opt.into_iter())
+                .status_stack
+                .iter()
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    TraversalStatus::WentLeft | TraversalStatus::ReturnedSelf => {
+                        right_subtrees.next().flatten().into_iter()
+                    }
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
index e54cbdf..258bab2 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
@@ -152,15 +152,24 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.status_stack.is_empty() {
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+
+            // One entry per ancestor: nothing is left below those whose
+            // right subtree has already been entered.
+            let mut right_subtrees = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
-                .into_iter()
-                .map(|opt| opt.into_iter())
+                .status_stack
+                .iter()
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    TraversalStatus::WentLeft | TraversalStatus::ReturnedSelf => {
+                        right_subtrees.next().flatten().into_iter()
+                    }
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs b/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
index 4757f64..435a19e 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
@@ -148,15 +148,24 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.status_stack.is_empty() {
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+
+            // One entry per ancestor: nothing is left below those whose
+            // right subtree has already been entered.
+            let mut right_subtrees = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
-                .into_iter()
-                .map(|opt| opt.into_iter())
+                .status_stack
+                .iter()
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    TraversalStatus::WentLeft | TraversalStatus::ReturnedSelf => {
+                        right_subtrees.next().flatten().into_iter()
+                    }
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
index 1f79a09..3de178a 100644
--- a/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
@@ -11,45 +11,39 @@ macro_rules! streaming_leaves {
                 self.new_traversal_stack.push(children.into_iter());
                 self.item_stack.push(value);
                 pushed_another_iterator = true;
-            } else {
-                self.item_stack.pop();
             }
 
-            loop {
-                if let Some(new_stack_last) = self.new_traversal_stack.last_mut() {
-                    if let Some(node) = new_stack_last.next() {
-                        let (value, children) = node.$get_value_and_children();
-                        self.new_traversal_stack.push(children.into_iter());
-                        self.item_stack.push(value);
-                        pushed_another_iterator = true;
-                        continue;
-                    }
-                }
+            // Every ancestor has an iterator of its remaining children. A node that was
+            // already yielded as a leaf (or in post-order) does not, and is done with.
+            self.item_stack
+                .truncate(self.old_traversal_stack.len() + self.new_traversal_stack.len());
 
-                self.new_traversal_stack.pop();
-                if pushed_another_iterator {
+            loop {
+                let next = if let Some(top) = self.new_traversal_stack.last_mut() {
+                    top.next()
+                } else if let Some(top) = self.old_traversal_stack.last_mut() {
+                    top.next()
+                } else {
                     return;
+                };
+
+                if let Some(node) = next {
+                    let (value, children) = node.$get_value_and_children();
+                    self.new_traversal_stack.push(children.into_iter());
+                    self.item_stack.push(value);
+                    pushed_another_iterator = true;
+                    continue;
                 }
 
-                if let Some(old_stack_last) = self.old_traversal_stack.last_mut() {
-                    if let Some(node) = old_stack_last.next() {
-                        let (value, children) = node.$get_value_and_children();
-                        self.new_traversal_stack.push(children.into_iter());
-                        self.item_stack.push(value);
-                        pushed_another_iterator = true;
-                        continue;
-                    }
+                if self.new_traversal_stack.pop().is_none() {
+                    self.old_traversal_stack.pop();
                 }
 
-                self.old_traversal_stack.pop();
                 if pushed_another_iterator {
                     return;
                 }
 
                 self.item_stack.pop();
-                if self.item_stack.is_empty() {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From c37e8d9289c89f0781cc2a42f2b3ff49951f5f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 6/8] fix: owned breadth-first context and ancestor iterators
 drop the values they hold back

---
 tree_iterators_rs/src/bfs_iterators/mod.rs    | 21 ++++++++-----------
 .../ancestors_breadth_first/mod.rs            |  7 +++----
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/tree_iterators_rs/src/bfs_iterators/mod.rs b/tree_iterators_rs/src/bfs_iterators/mod.rs
index 2ba830c..0690ab7 100644
--- a/tree_iterators_rs/src/bfs_iterators/mod.rs
+++ b/tree_iterators_rs/src/bfs_iterators/mod.rs
@@ -131,8 +131,7 @@ macro_rules! bfs_context_advance_iterator {
                 if let Some(mut value) = child {
                     self.current_context
                         .ancestors
-                        .push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                        .push(value.value.take().unwrap());
 
                     self.current_context.path.push(value.path_segment);
 
@@ -157,8 +156,7 @@ macro_rules! bfs_context_advance_iterator {
 
                 if self.current_context.ancestors.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value =
-                        core::mem::MaybeUninit::new(self.current_context.ancestors.pop().unwrap());
+                    target.value = self.current_context.ancestors.pop();
                     target.path_segment = self.current_context.path.pop().unwrap();
                 }
 
@@ -185,7 +183,7 @@ macro_rules! bfs_context_advance_iterator {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.current_context.ancestors.pop().unwrap()),
+                value: self.current_context.ancestors.pop(),
                 path_segment: self.current_context.path.pop().unwrap(),
                 children: VecDeque::new(),
             }));
@@ -361,8 +359,7 @@ macro_rules! bfs_ancestors_advance_iterator {
                 };
 
                 if let Some(mut value) = child {
-                    self.item_stack.push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                    self.item_stack.push(value.value.take().unwrap());
                     let has_children = !value.children.is_empty();
                     self.traversal_stack.push(value);
                     if !has_children && self.item_stack.len() >= starting_depth {
@@ -383,7 +380,7 @@ macro_rules! bfs_ancestors_advance_iterator {
 
                 if self.item_stack.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value = core::mem::MaybeUninit::new(self.item_stack.pop().unwrap());
+                    target.value = self.item_stack.pop();
                 }
 
                 if let Some(popped) = self.traversal_stack.pop() {
@@ -413,7 +410,7 @@ macro_rules! bfs_ancestors_advance_iterator {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.item_stack.pop().unwrap()),
+                value: self.item_stack.pop(),
                 path_segment: 0,
                 children: VecDeque::new(),
             }));
@@ -432,7 +429,7 @@ pub(crate) use get_mut_context;
 
 #[derive(Debug)]
 pub(crate) struct TreeNodeVecDeque<T> {
-    pub(crate) value: core::mem::MaybeUninit<T>,
+    pub(crate) value: Option<T>,
     pub(crate) path_segment: usize,
     pub(crate) children: alloc::collections::VecDeque<Option<Self>>,
 }
@@ -443,7 +440,7 @@ where
 {
     fn clone(&self) -> Self {
         Self {
-            value: core::mem::MaybeUninit::new(unsafe { self.value.assume_init_ref().clone() }),
+            value: self.value.clone(),
             path_segment: self.path_segment,
             children: self.children.clone(),
         }
@@ -453,7 +450,7 @@ where
 impl<T> Default for TreeNodeVecDeque<T> {
     fn default() -> Self {
         Self {
-            value: core::mem::MaybeUninit::uninit(),
+            value: None,
             path_segment: 0,
             children: alloc::collections::VecDeque::new(),
         }
diff --git a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
index 668927b..401b297 100644
--- a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
@@ -22,8 +22,7 @@ macro_rules! bfs_next {
                 };
 
                 if let Some(mut value) = child {
-                    self.item_stack.push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                    self.item_stack.push(value.value.take().unwrap());
                     let has_children = !value.children.is_empty();
                     self.traversal_stack.push(value);
                     if !has_children && self.item_stack.len() >= starting_depth {
@@ -43,7 +42,7 @@ macro_rules! bfs_next {
 
                 if self.item_stack.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value = core::mem::MaybeUninit::new(self.item_stack.pop().unwrap());
+                    target.value = self.item_stack.pop();
                 }
 
                 if let Some(popped) = self.traversal_stack.pop() {
@@ -70,7 +69,7 @@ macro_rules! bfs_next {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.item_stack.pop().unwrap()),
+                value: self.item_stack.pop(),
                 path_segment: 0,
                 children: VecDeque::new(),
             }));
-- 
2.43.0


From 617eb64baef5e02bb542b94d8a5eee07990a8f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 7/8] fix: attach_context of an exhausted collection iterator
 panics as documented

---
 tree_iterators_rs/src/collection_iterators.rs | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/tree_iterators_rs/src/collection_iterators.rs b/tree_iterators_rs/src/collection_iterators.rs
index 0fcba7a..90c0228 100644
--- a/tree_iterators_rs/src/collection_iterators.rs
+++ b/tree_iterators_rs/src/collection_iterators.rs
@@ -38,12 +38,10 @@ macro_rules! owned_collection_iterator_impl {
                         }
                     }
 
-                    self.tree_traversal_iterator = self
-                        .collection
-                        .next()
-                        .map(|item| $inner_iterator::new(item));
-
-                    self.tree_traversal_iterator.as_ref()?;
+                    // When the collection runs out, hold onto the last tree's iterator so that
+                    // attach_context() can tell that elements have been yielded.
+                    self.tree_traversal_iterator =
+                        Some($inner_iterator::new(self.collection.next()?));
                 }
             }
         }
@@ -453,12 +451,10 @@ macro_rules! mut_borrowed_collection_iterator_impl {
                         }
                     }
 
-                    self.tree_traversal_iterator = self
-                        .collection
-                        .next()
-                        .map(|item| $inner_iterator::new(item));
-
-                    self.tree_traversal_iterator.as_ref()?;
+                    // When the collection runs out, hold onto the last tree's iterator so that
+                    // attach_context() can tell that elements have been yielded.
+                    self.tree_traversal_iterator =
+                        Some($inner_iterator::new(self.collection.next()?));
                 }
             }
         }
@@ -677,12 +673,10 @@ macro_rules! borrowed_collection_iterator_impl {
                         }
                     }
 
-                    self.tree_traversal_iterator = self
-                        .collection
-                        .next()
-                        .map(|item| $inner_iterator::new(item));
-
-                    self.tree_traversal_iterator.as_ref()?;
+                    // When the collection runs out, hold onto the last tree's iterator so that
+                    // attach_context() can tell that elements have been yielded.
+                    self.tree_traversal_iterator =
+                        Some($inner_iterator::new(self.collection.next()?));
                 }
             }
         }
-- 
2.43.0


From bef1e1fae25dc0919ba03e6bd47865893c5bf767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 8/8] fix: postorder contexts no longer duplicate the children
 collection

---
 .../src/dfs_postorder_iterators/borrow.rs     | 17 +++-----
 .../src/dfs_postorder_iterators/mut_borrow.rs | 43 ++++++++-----------
 2 files changed, 24 insertions(+), 36 deletions(-)

diff --git a/tree_iterators_rs/src/dfs_postorder_iterators/borrow.rs b/tree_iterators_rs/src/dfs_postorder_iterators/borrow.rs
index cc407e0..12bb0b1 100644
--- a/tree_iterators_rs/src/dfs_postorder_iterators/borrow.rs
+++ b/tree_iterators_rs/src/dfs_postorder_iterators/borrow.rs
@@ -138,11 +138,9 @@ where
     fn advance(&mut self) {
         if let Some(next) = self.root.take() {
             let (value, children) = next.get_value_and_children_iter();
-            // ASSUMPTION: self.into_iterator_stack will always outlive self.traversal_stack.
-            // If that assumption is not true, this code will cause Undefined Behavior.
-            self.traversal_stack.push(
-                unsafe { core::ptr::read(&children as *const Node::BorrowedChildren) }.into_iter(),
-            );
+            // One children collection is iterated, the other is kept for the context.
+            let (_, children_to_visit) = next.get_value_and_children_iter();
+            self.traversal_stack.push(children_to_visit.into_iter());
             self.current_context.ancestors.push(value);
             self.current_context.path.push(usize::MAX);
             self.into_iterator_stack.push(children);
@@ -164,13 +162,8 @@ where
                     *last = last.wrapping_add(1);
 
                     let (value, children) = node.get_value_and_children_iter();
-
-                    // ASSUMPTION: self.into_iterator_stack will always outlive self.traversal_stack.
-                    // If that assumption is not true, this code will cause Undefined Behavior.
-                    self.traversal_stack.push(
-                        unsafe { core::ptr::read(&children as *const Node::BorrowedChildren) }
-                            .into_iter(),
-                    );
+                    let (_, children_to_visit) = node.get_value_and_children_iter();
+                    self.traversal_stack.push(children_to_visit.into_iter());
                     self.current_context.ancestors.push(value);
                     self.current_context.path.push(usize::MAX);
                     self.into_iterator_stack.push(children);
diff --git a/tree_iterators_rs/src/dfs_postorder_iterators/mut_borrow.rs b/tree_iterators_rs/src/dfs_postorder_iterators/mut_borrow.rs
index 703337e..bb35116 100644
--- a/tree_iterators_rs/src/dfs_postorder_iterators/mut_borrow.rs
+++ b/tree_iterators_rs/src/dfs_postorder_iterators/mut_borrow.rs
@@ -112,7 +112,7 @@ where
 {
     root: Option<&'a mut Node>,
     traversal_stack: Vec<<Node::MutBorrowedChildren as IntoIterator>::IntoIter>,
-    into_iterator_stack: Vec<Node::MutBorrowedChildren>,
+    node_stack: Vec<*mut Node>,
     current_context: TreeContext<Node::MutBorrowedValue, Node::MutBorrowedChildren>,
 }
 
@@ -127,7 +127,7 @@ where
         Self {
             root: Some(root),
             traversal_stack: Vec::new(),
-            into_iterator_stack: Vec::new(),
+            node_stack: Vec::new(),
             current_context: TreeContext {
                 path,
                 ancestors: Vec::new(),
@@ -143,17 +143,15 @@ where
 {
     type Item = TreeContext<Node::MutBorrowedValue, Node::MutBorrowedChildren>;
     fn advance(&mut self) {
+        self.current_context.children = None;
+
         if let Some(next) = self.root.take() {
-            let (value, children) = next.get_value_and_children_iter_mut();
-            // ASSUMPTION: self.into_iterator_stack will always outlive self.traversal_stack.
-            // If that assumption is not true, this code will cause Undefined Behavior.
-            self.traversal_stack.push(
-                unsafe { core::ptr::read(&children as *const Node::MutBorrowedChildren) }
-                    .into_iter(),
-            );
+            let next = next as *mut Node;
+            let (value, children) = unsafe { &mut *next }.get_value_and_children_iter_mut();
+            self.traversal_stack.push(children.into_iter());
             self.current_context.ancestors.push(value);
             self.current_context.path.push(usize::MAX);
-            self.into_iterator_stack.push(children);
+            self.node_stack.push(next);
         } else {
             self.current_context.ancestors.pop();
             if self.current_context.ancestors.is_empty() {
@@ -171,27 +169,24 @@ where
                         .expect("There to be a path unless we are on the root element");
                     *last = last.wrapping_add(1);
 
-                    let (value, children) = node.get_value_and_children_iter_mut();
-
-                    // ASSUMPTION: self.into_iterator_stack will always outlive self.traversal_stack.
-                    // If that assumption is not true, this code will cause Undefined Behavior.
-                    self.traversal_stack.push(
-                        unsafe { core::ptr::read(&children as *const Node::MutBorrowedChildren) }
-                            .into_iter(),
-                    );
+                    let node = node as *mut Node;
+                    let (value, children) = unsafe { &mut *node }.get_value_and_children_iter_mut();
+                    self.traversal_stack.push(children.into_iter());
                     self.current_context.ancestors.push(value);
                     self.current_context.path.push(usize::MAX);
-                    self.into_iterator_stack.push(children);
+                    self.node_stack.push(node);
                     continue;
                 }
             }
 
-            self.current_context.children = Some(
-                self.into_iterator_stack
-                    .pop()
-                    .expect("There to be a children IntoIterator"),
-            );
+            // Everything borrowed from the node is given up before it is borrowed again
+            // to get a children collection that has not been iterated.
             self.traversal_stack.pop();
+            self.current_context.ancestors.pop();
+            let node = self.node_stack.pop().expect("There to be a node");
+            let (value, children) = unsafe { &mut *node }.get_value_and_children_iter_mut();
+            self.current_context.ancestors.push(value);
+            self.current_context.children = Some(children);
             self.current_context.path.pop();
             return;
         }
-- 
2.43.0

