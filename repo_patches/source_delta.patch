From 254b45bc52cd77aa6e88e539b684f0a5cc78f392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 01/10] fix: leaves() called mid-way through a depth first
 traversal skips leaves of unvisited siblings

---
 tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
index 3acbce6..6995f89 100644
--- a/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
@@ -34,7 +34,8 @@ macro_rules! dfs_postorder_leaves_next {
                     if let Some(node) = next_iter.next() {
                         let (value, children) = node.$get_value_and_children();
                         self.item_stack.push(value);
-                        self.traversal_stack_top.push(children.into_iter())
+                        self.traversal_stack_top.push(children.into_iter());
+                        just_added = true;
                     } else {
                         self.traversal_stack_bottom.pop();
                     }
-- 
2.43.0


From 24b2e2b942b0ec07854bbd0510b708a15b99998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 02/10] fix: attach_ancestors().leaves() called mid-way through
 a depth first traversal yields wrong ancestors and leaves

---
 .../ancestors_depth_first/mod.rs              | 35 +++++++++----------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
index 1f79a09..37757e1 100644
--- a/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
@@ -5,13 +5,18 @@ pub mod owned;
 macro_rules! streaming_leaves {
     ($get_value_and_children: ident) => {
         fn advance(&mut self) {
-            let mut pushed_another_iterator = false;
+            // whether the item at the top of the item stack was reached during this call.
+            // If it was and it turns out to have no children, it is the next leaf.
+            let mut just_added = false;
             if let Some(root) = self.root.take() {
                 let (value, children) = root.$get_value_and_children();
                 self.new_traversal_stack.push(children.into_iter());
                 self.item_stack.push(value);
-                pushed_another_iterator = true;
-            } else {
+                just_added = true;
+            } else if self.item_stack.len()
+                > self.old_traversal_stack.len() + self.new_traversal_stack.len()
+            {
+                // the children of the last item have already been exhausted.
                 self.item_stack.pop();
             }
 
@@ -21,35 +26,29 @@ macro_rules! streaming_leaves {
                         let (value, children) = node.$get_value_and_children();
                         self.new_traversal_stack.push(children.into_iter());
                         self.item_stack.push(value);
-                        pushed_another_iterator = true;
+                        just_added = true;
                         continue;
                     }
-                }
-
-                self.new_traversal_stack.pop();
-                if pushed_another_iterator {
-                    return;
-                }
 
-                if let Some(old_stack_last) = self.old_traversal_stack.last_mut() {
+                    self.new_traversal_stack.pop();
+                    if just_added {
+                        return;
+                    }
+                } else if let Some(old_stack_last) = self.old_traversal_stack.last_mut() {
                     if let Some(node) = old_stack_last.next() {
                         let (value, children) = node.$get_value_and_children();
                         self.new_traversal_stack.push(children.into_iter());
                         self.item_stack.push(value);
-                        pushed_another_iterator = true;
+                        just_added = true;
                         continue;
                     }
-                }
 
-                self.old_traversal_stack.pop();
-                if pushed_another_iterator {
+                    self.old_traversal_stack.pop();
+                } else {
                     return;
                 }
 
                 self.item_stack.pop();
-                if self.item_stack.is_empty() {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From 950fede47ad8a1d10c6e79d817b737d49c941bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 03/10] fix: attach_ancestors().leaves() called mid-way through
 an in order traversal loses leaves

---
 .../src/dfs_inorder_iterators/borrow.rs       | 19 ++++++++++++++-----
 .../src/dfs_inorder_iterators/mut_borrow.rs   | 19 ++++++++++++++-----
 .../src/dfs_inorder_iterators/owned.rs        | 19 ++++++++++++++-----
 3 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs b/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
index 3d91844..82e2334 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
@@ -148,15 +148,24 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.status_stack.is_empty() {
+            // either traversal hasn't started yet, or it has already ended.
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            // line the right children up with the items they belong to. The right
+            // child of an item is gone once we have gone right.
+            let mut right_children = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
-                .into_iter()
-                .map(|opt| opt.into_iter())
+                .status_stack
+                .iter()
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    TraversalStatus::WentLeft | TraversalStatus::ReturnedSelf => {
+                        right_children.next().flatten().into_iter()
+                    }
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
index e54cbdf..2cda9a9 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
@@ -152,15 +152,24 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.status_stack.is_empty() {
+            // either traversal hasn't started yet, or it has already ended.
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            // line the right children up with the items they belong to. The right
+            // child of an item is gone once we have gone right.
+            let mut right_children = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
-                .into_iter()
-                .map(|opt| opt.into_iter())
+                .status_stack
+                .iter()
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    TraversalStatus::WentLeft | TraversalStatus::ReturnedSelf => {
+                        right_children.next().flatten().into_iter()
+                    }
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs b/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
index 4757f64..26be054 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
@@ -148,15 +148,24 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.status_stack.is_empty() {
+            // either traversal hasn't started yet, or it has already ended.
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            // line the right children up with the items they belong to. The right
+            // child of an item is gone once we have gone right.
+            let mut right_children = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
-                .into_iter()
-                .map(|opt| opt.into_iter())
+                .status_stack
+                .iter()
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    TraversalStatus::WentLeft | TraversalStatus::ReturnedSelf => {
+                        right_children.next().flatten().into_iter()
+                    }
+                })
                 .collect();
         }
 
-- 
2.43.0


From 1dcd0a840fa90fffbc57fbfd8c6bde9ebb1e4aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 04/10] fix: map_path passes the previous node's path, through
 a possibly dangling pointer

---
 .../src/tree_collection_iterators/map_path.rs              | 5 ++---
 tree_iterators_rs/src/tree_iterators/map_path.rs           | 7 ++-----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/tree_iterators_rs/src/tree_collection_iterators/map_path.rs b/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
index 293eeaf..6fac816 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
@@ -37,9 +37,8 @@ where
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // SAFETY: self.f cannot borrow path mutably since path is our internal state.
-        let path = unsafe { &*(self.current_path() as *const [usize]) };
-        self.inner.next().map(|value| (self.f)(path, value))
+        let value = self.inner.next()?;
+        Some((self.f)(self.inner.current_path(), value))
     }
 }
 
diff --git a/tree_iterators_rs/src/tree_iterators/map_path.rs b/tree_iterators_rs/src/tree_iterators/map_path.rs
index 4c36137..b9bed17 100644
--- a/tree_iterators_rs/src/tree_iterators/map_path.rs
+++ b/tree_iterators_rs/src/tree_iterators/map_path.rs
@@ -37,11 +37,8 @@ where
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // SAFETY: self.f cannot borrow path mutably since path is our internal state.
-        let path = self.current_path() as *const [usize];
-        self.inner
-            .next()
-            .map(|value| (self.f)(unsafe { &*path }, value))
+        let value = self.inner.next()?;
+        Some((self.f)(self.inner.current_path(), value))
     }
 }
 
-- 
2.43.0


From 84b35803e5ad9c135b58294cdf88645286bf8294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 05/10] fix: paths after prune and prune_path do not count
 unpruned siblings

---
 .../src/tree_collection_iterators/prune.rs    | 30 +++++++------------
 .../tree_collection_iterators/prune_path.rs   | 30 +++++++------------
 tree_iterators_rs/src/tree_iterators/prune.rs | 30 +++++++------------
 .../src/tree_iterators/prune_path.rs          | 30 +++++++------------
 4 files changed, 44 insertions(+), 76 deletions(-)

diff --git a/tree_iterators_rs/src/tree_collection_iterators/prune.rs b/tree_iterators_rs/src/tree_collection_iterators/prune.rs
index 34f62d0..b118f04 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/prune.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/prune.rs
@@ -43,25 +43,17 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some(item) = self.inner.next() {
-            let inner_path_len = self.inner.current_path().len();
-
-            if self.pruned_at_each_depth.len() < inner_path_len {
-                // Technically, this only needs to be a single .push() call on each collection,
-                // but putting it in a loop will prevent panics if inner is implemented incorrectly.
-                loop {
-                    self.pruned_at_each_depth.push(0);
-                    self.current_path.push(0);
-                    if self.pruned_at_each_depth.len() == inner_path_len {
-                        break;
-                    }
-                }
-            } else if self.pruned_at_each_depth.len() > inner_path_len {
-                self.pruned_at_each_depth.truncate(inner_path_len);
-                self.current_path.truncate(inner_path_len);
-
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            let inner_path = self.inner.current_path();
+            self.pruned_at_each_depth.resize(inner_path.len(), 0);
+            self.current_path.resize(inner_path.len(), 0);
+
+            // Every sibling that was pruned moved the current node over by one.
+            if let (Some(last_path_segment), Some(inner_index), Some(pruned)) = (
+                self.current_path.last_mut(),
+                inner_path.last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *last_path_segment = inner_index - pruned;
             }
 
             if (self.f)(&item) {
diff --git a/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs b/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
index d32eaa0..aca5468 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
@@ -48,25 +48,17 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some(item) = self.inner.next() {
-            let inner_path_len = self.inner.current_path().len();
-
-            if self.pruned_at_each_depth.len() < inner_path_len {
-                // Technically, this only needs to be a single .push() call on each collection,
-                // but putting it in a loop will prevent panics if inner is implemented incorrectly.
-                loop {
-                    self.pruned_at_each_depth.push(0);
-                    self.current_path.push(0);
-                    if self.pruned_at_each_depth.len() == inner_path_len {
-                        break;
-                    }
-                }
-            } else if self.pruned_at_each_depth.len() > inner_path_len {
-                self.pruned_at_each_depth.truncate(inner_path_len);
-                self.current_path.truncate(inner_path_len);
-
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            let inner_path = self.inner.current_path();
+            self.pruned_at_each_depth.resize(inner_path.len(), 0);
+            self.current_path.resize(inner_path.len(), 0);
+
+            // Every sibling that was pruned moved the current node over by one.
+            if let (Some(last_path_segment), Some(inner_index), Some(pruned)) = (
+                self.current_path.last_mut(),
+                inner_path.last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *last_path_segment = inner_index - pruned;
             }
 
             if (self.f)(self.inner.current_path(), &item) {
diff --git a/tree_iterators_rs/src/tree_iterators/prune.rs b/tree_iterators_rs/src/tree_iterators/prune.rs
index 6af5b61..6cd5b97 100644
--- a/tree_iterators_rs/src/tree_iterators/prune.rs
+++ b/tree_iterators_rs/src/tree_iterators/prune.rs
@@ -43,25 +43,17 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some(item) = self.inner.next() {
-            let inner_path_len = self.inner.current_path().len();
-
-            if self.pruned_at_each_depth.len() < inner_path_len {
-                // Technically, this only needs to be a single .push() call on each collection,
-                // but putting it in a loop will prevent panics if inner is implemented incorrectly.
-                loop {
-                    self.pruned_at_each_depth.push(0);
-                    self.current_path.push(0);
-                    if self.pruned_at_each_depth.len() == inner_path_len {
-                        break;
-                    }
-                }
-            } else if self.pruned_at_each_depth.len() > inner_path_len {
-                self.pruned_at_each_depth.truncate(inner_path_len);
-                self.current_path.truncate(inner_path_len);
-
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            let inner_path = self.inner.current_path();
+            self.pruned_at_each_depth.resize(inner_path.len(), 0);
+            self.current_path.resize(inner_path.len(), 0);
+
+            // Every sibling that was pruned moved the current node over by one.
+            if let (Some(last_path_segment), Some(inner_index), Some(pruned)) = (
+                self.current_path.last_mut(),
+                inner_path.last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *last_path_segment = inner_index - pruned;
             }
 
             if (self.f)(&item) {
diff --git a/tree_iterators_rs/src/tree_iterators/prune_path.rs b/tree_iterators_rs/src/tree_iterators/prune_path.rs
index 1d53054..2f46ee1 100644
--- a/tree_iterators_rs/src/tree_iterators/prune_path.rs
+++ b/tree_iterators_rs/src/tree_iterators/prune_path.rs
@@ -43,25 +43,17 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some(item) = self.inner.next() {
-            let inner_depth = self.inner.current_depth();
-
-            if self.pruned_at_each_depth.len() < inner_depth {
-                // Technically, this only needs to be a single .push() call on each collection,
-                // but putting it in a loop will prevent panics if inner is implemented incorrectly.
-                loop {
-                    self.pruned_at_each_depth.push(0);
-                    self.current_path.push(0);
-                    if self.pruned_at_each_depth.len() == inner_depth {
-                        break;
-                    }
-                }
-            } else if self.pruned_at_each_depth.len() > inner_depth {
-                self.pruned_at_each_depth.truncate(inner_depth);
-                self.current_path.truncate(inner_depth);
-
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            let inner_path = self.inner.current_path();
+            self.pruned_at_each_depth.resize(inner_path.len(), 0);
+            self.current_path.resize(inner_path.len(), 0);
+
+            // Every sibling that was pruned moved the current node over by one.
+            if let (Some(last_path_segment), Some(inner_index), Some(pruned)) = (
+                self.current_path.last_mut(),
+                inner_path.last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *last_path_segment = inner_index - pruned;
             }
 
             if (self.f)(self.inner.current_path(), &item) {
-- 
2.43.0


From b21560f852b87c69646c960d4a35689653c74db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 06/10] fix: map_path_each of owned collections of binary trees
 does not pass the path

---
 tree_iterators_rs/src/prelude.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tree_iterators_rs/src/prelude.rs b/tree_iterators_rs/src/prelude.rs
index 44d25c1..33c8a0b 100644
--- a/tree_iterators_rs/src/prelude.rs
+++ b/tree_iterators_rs/src/prelude.rs
@@ -4079,7 +4079,7 @@ where
     ) -> BinaryTrees<
         Output,
         (),
-        CollectionMap<
+        CollectionMapPath<
             T::OwnedValue,
             [Option<T>; 2],
             impl BinaryTreeCollectionIterator<T::OwnedValue, [Option<T>; 2]>,
@@ -4088,9 +4088,9 @@ where
         >,
     >
     where
-        F: FnMut(T::OwnedValue) -> Output,
+        F: FnMut(&[usize], T::OwnedValue) -> Output,
     {
-        self.into_pipeline().map_trees(f).trees()
+        self.into_pipeline().map_path(f).trees()
     }
 
     /// Applies the fold operation to every tree within this [`OwnedIntoIteratorOfBinaryTrees`].
-- 
2.43.0


From 7af62d525e7fb4564763fb31cb1d1b410841a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 07/10] fix: breadth first context and ancestors iterators leak
 owned values when abandoned

TreeNodeVecDeque parked values in a MaybeUninit, which never drops them (and
whose Clone read uninitialized memory). Park them in an Option.
---
 tree_iterators_rs/src/bfs_iterators/mod.rs    | 21 ++++++++-----------
 .../ancestors_breadth_first/mod.rs            |  7 +++----
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/tree_iterators_rs/src/bfs_iterators/mod.rs b/tree_iterators_rs/src/bfs_iterators/mod.rs
index 2ba830c..69ec17f 100644
--- a/tree_iterators_rs/src/bfs_iterators/mod.rs
+++ b/tree_iterators_rs/src/bfs_iterators/mod.rs
@@ -131,8 +131,7 @@ macro_rules! bfs_context_advance_iterator {
                 if let Some(mut value) = child {
                     self.current_context
                         .ancestors
-                        .push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                        .push(value.value.take().unwrap());
 
                     self.current_context.path.push(value.path_segment);
 
@@ -157,8 +156,7 @@ macro_rules! bfs_context_advance_iterator {
 
                 if self.current_context.ancestors.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value =
-                        core::mem::MaybeUninit::new(self.current_context.ancestors.pop().unwrap());
+                    target.value = Some(self.current_context.ancestors.pop().unwrap());
                     target.path_segment = self.current_context.path.pop().unwrap();
                 }
 
@@ -185,7 +183,7 @@ macro_rules! bfs_context_advance_iterator {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.current_context.ancestors.pop().unwrap()),
+                value: Some(self.current_context.ancestors.pop().unwrap()),
                 path_segment: self.current_context.path.pop().unwrap(),
                 children: VecDeque::new(),
             }));
@@ -361,8 +359,7 @@ macro_rules! bfs_ancestors_advance_iterator {
                 };
 
                 if let Some(mut value) = child {
-                    self.item_stack.push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                    self.item_stack.push(value.value.take().unwrap());
                     let has_children = !value.children.is_empty();
                     self.traversal_stack.push(value);
                     if !has_children && self.item_stack.len() >= starting_depth {
@@ -383,7 +380,7 @@ macro_rules! bfs_ancestors_advance_iterator {
 
                 if self.item_stack.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value = core::mem::MaybeUninit::new(self.item_stack.pop().unwrap());
+                    target.value = Some(self.item_stack.pop().unwrap());
                 }
 
                 if let Some(popped) = self.traversal_stack.pop() {
@@ -413,7 +410,7 @@ macro_rules! bfs_ancestors_advance_iterator {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.item_stack.pop().unwrap()),
+                value: Some(self.item_stack.pop().unwrap()),
                 path_segment: 0,
                 children: VecDeque::new(),
             }));
@@ -432,7 +429,7 @@ pub(crate) use get_mut_context;
 
 #[derive(Debug)]
 pub(crate) struct TreeNodeVecDeque<T> {
-    pub(crate) value: core::mem::MaybeUninit<T>,
+    pub(crate) value: Option<T>,
     pub(crate) path_segment: usize,
     pub(crate) children: alloc::collections::VecDeque<Option<Self>>,
 }
@@ -443,7 +440,7 @@ where
 {
     fn clone(&self) -> Self {
         Self {
-            value: core::mem::MaybeUninit::new(unsafe { self.value.assume_init_ref().clone() }),
+            value: self.value.clone(),
             path_segment: self.path_segment,
             children: self.children.clone(),
         }
@@ -453,7 +450,7 @@ where
 impl<T> Default for TreeNodeVecDeque<T> {
     fn default() -> Self {
         Self {
-            value: core::mem::MaybeUninit::uninit(),
+            value: None,
             path_segment: 0,
             children: alloc::collections::VecDeque::new(),
         }
diff --git a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
index 668927b..1b83bbd 100644
--- a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
@@ -22,8 +22,7 @@ macro_rules! bfs_next {
                 };
 
                 if let Some(mut value) = child {
-                    self.item_stack.push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                    self.item_stack.push(value.value.take().unwrap());
                     let has_children = !value.children.is_empty();
                     self.traversal_stack.push(value);
                     if !has_children && self.item_stack.len() >= starting_depth {
@@ -43,7 +42,7 @@ macro_rules! bfs_next {
 
                 if self.item_stack.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value = core::mem::MaybeUninit::new(self.item_stack.pop().unwrap());
+                    target.value = Some(self.item_stack.pop().unwrap());
                 }
 
                 if let Some(popped) = self.traversal_stack.pop() {
@@ -70,7 +69,7 @@ macro_rules! bfs_next {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.item_stack.pop().unwrap()),
+                value: Some(self.item_stack.pop().unwrap()),
                 path_segment: 0,
                 children: VecDeque::new(),
             }));
-- 
2.43.0


From d70a461fa769d5ace7e0d7645913d25a4e7301d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 08/10] fix: drained collection iterators accept attach_context

attach_context() of a collection iterator is documented to panic once an
element was yielded. A collection iterator that had run to its end forgot
that it ever yielded anything and accepted.
---
 tree_iterators_rs/src/collection_iterators.rs | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/tree_iterators_rs/src/collection_iterators.rs b/tree_iterators_rs/src/collection_iterators.rs
index 0fcba7a..12b1323 100644
--- a/tree_iterators_rs/src/collection_iterators.rs
+++ b/tree_iterators_rs/src/collection_iterators.rs
@@ -38,12 +38,10 @@ macro_rules! owned_collection_iterator_impl {
                         }
                     }
 
-                    self.tree_traversal_iterator = self
-                        .collection
-                        .next()
-                        .map(|item| $inner_iterator::new(item));
-
-                    self.tree_traversal_iterator.as_ref()?;
+                    // Hold on to the last tree's iterator after the end,
+                    // it records that elements have been yielded.
+                    let next_tree = self.collection.next()?;
+                    self.tree_traversal_iterator = Some($inner_iterator::new(next_tree));
                 }
             }
         }
@@ -453,12 +451,10 @@ macro_rules! mut_borrowed_collection_iterator_impl {
                         }
                     }
 
-                    self.tree_traversal_iterator = self
-                        .collection
-                        .next()
-                        .map(|item| $inner_iterator::new(item));
-
-                    self.tree_traversal_iterator.as_ref()?;
+                    // Hold on to the last tree's iterator after the end,
+                    // it records that elements have been yielded.
+                    let next_tree = self.collection.next()?;
+                    self.tree_traversal_iterator = Some($inner_iterator::new(next_tree));
                 }
             }
         }
@@ -677,12 +673,10 @@ macro_rules! borrowed_collection_iterator_impl {
                         }
                     }
 
-                    self.tree_traversal_iterator = self
-                        .collection
-                        .next()
-                        .map(|item| $inner_iterator::new(item));
-
-                    self.tree_traversal_iterator.as_ref()?;
+                    // Hold on to the last tree's iterator after the end,
+                    // it records that elements have been yielded.
+                    let next_tree = self.collection.next()?;
+                    self.tree_traversal_iterator = Some($inner_iterator::new(next_tree));
                 }
             }
         }
-- 
2.43.0


From 3582c5957dd59d4818bf64a04c057157fbac1d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 09/10] fix: breadth first ancestors iterators panic when
 advanced past their end

---
 tree_iterators_rs/src/bfs_iterators/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree_iterators_rs/src/bfs_iterators/mod.rs b/tree_iterators_rs/src/bfs_iterators/mod.rs
index 69ec17f..d39d2cf 100644
--- a/tree_iterators_rs/src/bfs_iterators/mod.rs
+++ b/tree_iterators_rs/src/bfs_iterators/mod.rs
@@ -275,6 +275,10 @@ macro_rules! bfs_ancestors_streaming_iterator_impl {
                 return;
             }
 
+            if self.item_stack.is_empty() {
+                return;
+            }
+
             loop {
                 if self.item_stack.len() == self.traversal_stack.len() + 2 {
                     self.pop_from_item_stack();
-- 
2.43.0


From 69743e59c6ee508622be0fd7afc0a60126d2ef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 10/10] fix: breadth first ancestors leaves poll an ended
 children iterator again

---
 .../src/leaves_iterators/ancestors_breadth_first/mod.rs        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
index 1b83bbd..a8f1d4d 100644
--- a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
@@ -121,6 +121,9 @@ macro_rules! streaming_leaves {
                     }
                 } else if self.is_root {
                     self.is_root = false;
+                    // a root without children is the only leaf. Its children
+                    // must not be polled again now that they have ended.
+                    self.iterator_queue.clear();
                     return;
                 }
 
-- 
2.43.0

