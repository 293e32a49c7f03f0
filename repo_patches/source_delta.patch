From 1563e4cc7b7b86577a55fe586c9cf6ae77f20c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:14 +0000
Subject: [PATCH 01/20] fix: only return a value from `get` for the exact key

A lookup compared keys only up to the length of the shorter one, so `get`
returned a leaf's value for prefixes and for extensions of its key.
A key shorter than an extension node on its path made `get` panic.
---
 src/trie_ops.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 7883e47..06cd643 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -311,6 +311,12 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Extension { nibbles, child } => {
                 trace!("Get traversed Extension (nibbles: {:?})", nibbles);
+
+                // A key that ends inside of the extension can not be in the trie.
+                if curr_nibbles.count < nibbles.count {
+                    return None;
+                }
+
                 let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
                 match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
@@ -320,7 +326,7 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Leaf { nibbles, value } => {
                 trace!("Get traversed Leaf (nibbles: {:?})", nibbles);
-                match nibbles.nibbles_are_identical_up_to_smallest_count(curr_nibbles) {
+                match nibbles == curr_nibbles {
                     false => None,
                     true => Some(value),
                 }
-- 
2.43.0


From 8a27a789dee195bf775685cc61b947b549043836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:14 +0000
Subject: [PATCH 02/20] fix: split an extension when the inserted key ends
 inside of it

Inserting a key that is a strict prefix of an extension node's path stored
the value in the branch below the extension, which is a different key.
---
 src/trie_ops.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 06cd643..2c1e071 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -403,7 +403,10 @@ fn insert_into_trie_rec<N: PartialTrie>(
 
             let info = get_pre_and_postfixes_for_existing_and_new_nodes(nibbles, &new_node.nibbles);
 
-            if nibbles.nibbles_are_identical_up_to_smallest_count(&new_node.nibbles) {
+            // A key that ends inside of the extension has to split it instead.
+            if new_node.nibbles.count >= nibbles.count
+                && nibbles.nibbles_are_identical_up_to_smallest_count(&new_node.nibbles)
+            {
                 new_node.truncate_n_nibbles(nibbles.count);
 
                 return insert_into_trie_rec(child, new_node)
-- 
2.43.0


From 6e8e9776cf3300b628b50e31d7574202cd61c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:54:03 +0000
Subject: [PATCH 03/20] fix: do not delete a branch value when the key ends
 inside an extension

Deleting a key that is a strict prefix of an extension node's path removed
the value of the branch below the extension, which is a different key.
---
 src/trie_ops.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 2c1e071..f70a3de 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -516,6 +516,11 @@ fn delete_intern<N: PartialTrie>(
         } => {
             trace!("Delete traversed Extension (nibbles: {:?})", ext_nibbles);
 
+            // A key that ends inside of the extension can not be in the trie.
+            if curr_k.count < ext_nibbles.count {
+                return None;
+            }
+
             ext_nibbles
                 .nibbles_are_identical_up_to_smallest_count(&curr_k)
                 .then(|| {
-- 
2.43.0


From c7e4a7b6e71d47d9154eabdfd5bd9b4170b863a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:54:04 +0000
Subject: [PATCH 04/20] fix: return `None` when deleting a branch value that
 does not exist

An empty branch value means that the key is not in the trie, but `delete`
reported an empty value as deleted.
---
 src/trie_ops.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index f70a3de..5153a58 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -471,7 +471,8 @@ fn delete_intern<N: PartialTrie>(
         } // TODO: Find a nice way to get the full key path...
         Node::Branch { children, value } => {
             if curr_k.is_empty() {
-                return Some((branch(children.clone(), Vec::new()), value.clone()));
+                return (!value.is_empty())
+                    .then(|| (branch(children.clone(), Vec::new()), value.clone()));
             }
 
             let nibble = curr_k.pop_next_nibble_front();
-- 
2.43.0


From cc3b07b98b385f5e00e4bf4f8e0069752e77e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:54:04 +0000
Subject: [PATCH 05/20] fix: keep the value of a branch when one of its
 children is deleted

Deleting a child of a branch with a value and two children collapsed the
branch into its remaining child and silently dropped the value. With only
one child `delete` panicked.
---
 src/trie_ops.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 5153a58..4a7ab6a 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -483,7 +483,7 @@ fn delete_intern<N: PartialTrie>(
                     // If the child we recursively called is deleted, then we may need to reduce
                     // this branch to an extension/leaf.
                     let updated_node = match node_is_empty(&updated_child)
-                        && get_num_non_empty_children(children) <= 2
+                        && get_num_non_empty_children(children) + (!value.is_empty() as usize) <= 2
                     {
                         false => {
                             // Branch stays.
@@ -492,6 +492,8 @@ fn delete_intern<N: PartialTrie>(
                                 try_collapse_if_extension(updated_child);
                             branch(updated_children, value.clone())
                         }
+                        // Only the value of the branch is left.
+                        true if !value.is_empty() => leaf(Nibbles::default(), value.clone()),
                         true => {
                             let (child_nibble, non_empty_node) =
                                 get_other_non_empty_child_and_nibble_in_two_elem_branch(
-- 
2.43.0


From 4970d3f22005b017a80c728fd44bfdd7d537ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:54:04 +0000
Subject: [PATCH 06/20] fix: collapse a branch that is left with one child
 after its value is deleted

The redundant branch stayed in the trie, so the root hash no longer agreed
with an Ethereum trie that holds the same entries.
---
 src/partial_trie.rs |  7 +++----
 src/trie_ops.rs     | 26 ++++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index dca6df6..608ab8c 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -76,10 +76,9 @@ pub trait PartialTrie:
 
     /// Deletes a `Leaf` node or `Branch` value field if it exists.
     ///
-    /// To agree with Ethereum specs, deleting nodes does not result in the trie
-    /// removing nodes that are redundant after deletion. For example, a
-    /// `Branch` node that is completely empty after all of its children are
-    /// deleted is not pruned. Also note:
+    /// To agree with Ethereum specs, nodes that are redundant after the deletion
+    /// are collapsed. For example, a `Branch` node with no value and a single
+    /// child left is merged into the child. Also note:
     /// - Deleted leaves are replaced with `Empty` nodes.
     /// - Deleted branch values are replaced with empty `Vec`s.
     ///
diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 4a7ab6a..a3b749e 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -471,8 +471,19 @@ fn delete_intern<N: PartialTrie>(
         } // TODO: Find a nice way to get the full key path...
         Node::Branch { children, value } => {
             if curr_k.is_empty() {
-                return (!value.is_empty())
-                    .then(|| (branch(children.clone(), Vec::new()), value.clone()));
+                return (!value.is_empty()).then(|| {
+                    // If there is a single child left, then we need to reduce this branch to an
+                    // extension (may be collapsed one level above).
+                    let updated_node = match get_num_non_empty_children(children) {
+                        1 => {
+                            let (child_nibble, child) = get_only_non_empty_child(children);
+                            extension(Nibbles::from_nibble(child_nibble), child.clone())
+                        }
+                        _ => branch(children.clone(), Vec::new()),
+                    };
+
+                    (updated_node, value.clone())
+                });
             }
 
             let nibble = curr_k.pop_next_nibble_front();
@@ -718,6 +729,17 @@ fn get_other_non_empty_child_and_nibble_in_two_elem_branch<N: PartialTrie>(
         .expect("Expected to find a non-empty node in the branch's children")
 }
 
+fn get_only_non_empty_child<N: PartialTrie>(
+    children: &[WrappedNode<N>; 16],
+) -> (Nibble, &WrappedNode<N>) {
+    children
+        .iter()
+        .enumerate()
+        .find(|(_, c)| !node_is_empty(c))
+        .map(|(n, c)| (n as Nibble, c))
+        .expect("Expected to find a non-empty node in the branch's children")
+}
+
 fn node_is_empty<N: PartialTrie>(node: &WrappedNode<N>) -> bool {
     matches!(node.as_ref(), Node::Empty)
 }
-- 
2.43.0


From f336b14eafad3c915a8d36d6e0c00bf2305a2500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:27 +0000
Subject: [PATCH 07/20] fix: do not share the cached hash with a clone that is
 modified

Clones of a `HashedPartialTrie` share the cell that caches the hash.
Modifying a clone only cleared the shared cell, so hashing the original
afterwards stored its hash for the modified clone too (and vice versa).
A modified trie now gets a cell of its own. This is done up front, so an
`extend` that panics midway also does not leave an outdated hash behind.
---
 src/partial_trie.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index 608ab8c..f2858a2 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -305,6 +305,12 @@ impl HashedPartialTrie {
     pub(crate) fn set_hash(&self, v: Option<H256>) {
         *self.hash.write() = v;
     }
+
+    /// Drops the cached hash. Clones share the cell that holds the cached hash,
+    /// so we need to switch to a new one instead of clearing it.
+    fn invalidate_hash(&mut self) {
+        self.hash = Arc::new(RwLock::new(None));
+    }
 }
 
 impl PartialTrie for HashedPartialTrie {
@@ -320,8 +326,8 @@ impl PartialTrie for HashedPartialTrie {
         K: Into<crate::nibbles::Nibbles>,
         V: Into<crate::trie_ops::ValOrHash>,
     {
+        self.invalidate_hash();
         self.node.trie_insert(k, v);
-        self.set_hash(None);
     }
 
     fn extend<K, V, I>(&mut self, nodes: I)
@@ -330,8 +336,8 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
         I: IntoIterator<Item = (K, V)>,
     {
+        self.invalidate_hash();
         self.node.trie_extend(nodes);
-        self.set_hash(None);
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
@@ -345,10 +351,8 @@ impl PartialTrie for HashedPartialTrie {
     where
         K: Into<crate::nibbles::Nibbles>,
     {
-        let res = self.node.trie_delete(k);
-        self.set_hash(None);
-
-        res
+        self.invalidate_hash();
+        self.node.trie_delete(k)
     }
 
     fn hash(&self) -> H256 {
-- 
2.43.0


From 8d7e2ff1b4c49a99363f0d5f0e8df35b1d66d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:27 +0000
Subject: [PATCH 08/20] fix: drop the cached hash when a node is accessed
 through `DerefMut`

A node modified through `DerefMut` kept reporting its old cached hash.
---
 src/partial_trie.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index f2858a2..b88f4dd 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -399,6 +399,8 @@ impl Deref for HashedPartialTrie {
 
 impl DerefMut for HashedPartialTrie {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The node may be modified through the reference.
+        self.invalidate_hash();
         &mut self.node
     }
 }
-- 
2.43.0


From 2fd3817cafad2620dc2988778e9c60525ccd2d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:27 +0000
Subject: [PATCH 09/20] fix: do not panic in a subset query when the key ends
 inside an extension

Keys that do not exist in the trie are not an error when creating a subset,
but one that is shorter than an extension node on its path caused a panic.
---
 src/trie_subsets.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index aa5f805..2ca5572 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -284,6 +284,12 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
         }
         TrackedNodeIntern::Extension(child) => {
             let nibbles = trie.info.get_nibbles_expected();
+
+            // The key does not exist in the trie if it ends inside of the extension.
+            if curr_nibbles.count < nibbles.count {
+                return Ok(());
+            }
+
             let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
             match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
-- 
2.43.0


From 60cd5d69e3432c2145847ecfe1e3ebdaa126f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:28 +0000
Subject: [PATCH 10/20] fix: reset all nodes between the subsets made by
 `create_trie_subsets`

Only the nodes right below the root were reset, so a subset also contained
nodes that were only needed by the subsets created before it.
---
 src/trie_subsets.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index 2ca5572..946f9f9 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -336,14 +336,14 @@ fn create_partial_trie_subset_from_tracked_trie<N: PartialTrie>(
 }
 
 fn reset_tracked_trie_state<N: PartialTrie>(tracked_node: &mut TrackedNode<N>) {
+    tracked_node.info.reset();
+
     match tracked_node.node {
         TrackedNodeIntern::Branch(ref mut children) => {
-            children.iter_mut().for_each(|c| c.info.reset())
-        }
-        TrackedNodeIntern::Extension(ref mut child) => child.info.reset(),
-        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => {
-            tracked_node.info.reset()
+            children.iter_mut().for_each(reset_tracked_trie_state)
         }
+        TrackedNodeIntern::Extension(ref mut child) => reset_tracked_trie_state(child),
+        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => (),
     }
 }
 
-- 
2.43.0


From d1dc0b55d01a9dcb534a78f82729e9442cba8b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:28 +0000
Subject: [PATCH 11/20] fix: use the size of the integer when converting it to
 a trie value

The buffer was always 32 bytes. Converting a `U512` panicked, and converting
a `U128` panicked or appended 16 zero bytes to the value.
---
 src/trie_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index a3b749e..c6d9ce4 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -56,10 +56,7 @@ macro_rules! impl_eth_type_from_for_val_variant {
     ($type:ty) => {
         impl From<$type> for ValOrHash {
             fn from(v: $type) -> Self {
-                let size = size_of::<Self>();
-
-                let mut buf = Vec::with_capacity(size);
-                buf.resize(32, 0);
+                let mut buf = vec![0; size_of::<$type>()];
                 v.to_big_endian(&mut buf);
                 ValOrHash::Val(buf)
             }
-- 
2.43.0


From 58c8f9bd0119a71100d3a4d37e62dc75ea2bfb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:28 +0000
Subject: [PATCH 12/20] fix: panic on out of range `Nibbles` accesses without
 overflow checks too

These methods are documented to panic, but only did so through an integer
overflow check. In a release build they returned made up nibbles instead.
---
 src/nibbles.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index 730d924..ffb32df 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -285,6 +285,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `Nibbles` is empty.
     pub fn pop_next_nibble_back(&mut self) -> Nibble {
+        assert!(!self.is_empty());
+
         let n = self.get_nibble(self.count - 1);
         self.truncate_n_nibbles_back_mut(1);
 
@@ -314,6 +316,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `n` is larger than the number of nibbles contained.
     pub fn pop_nibbles_back(&mut self, n: usize) -> Nibbles {
+        assert!(n <= self.count);
+
         let r = self
             .get_nibble_range((self.count - n)..self.count)
             .reverse();
@@ -368,6 +372,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `range.end` is outside of the current `Nibbles`.
     pub fn get_nibble_range(&self, range: Range<usize>) -> Nibbles {
+        assert!(range.start <= range.end && range.end <= self.count);
+
         let range_count = range.end - range.start;
 
         let shift_amt = (self.count - range.end) * 4;
@@ -479,6 +485,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx_prefix(&self, idx: usize) -> Nibbles {
+        assert!(idx <= self.count);
+
         let shift_amt = (self.count - idx) * 4;
         let pre_mask = create_mask_of_1s(idx * 4) << shift_amt;
 
-- 
2.43.0


From 9cc6f79750d8a2edf1d4af8e26d73cbbd5f9f0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:29 +0000
Subject: [PATCH 13/20] fix: return an error when decoding an empty hex prefix
 byte string

`from_hex_prefix_encoding` panicked instead of returning an error.
---
 src/nibbles.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index ffb32df..f9e239c 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -56,6 +56,9 @@ pub enum BytesToNibblesError {
 
 #[derive(Debug, Error)]
 pub enum FromHexPrefixError {
+    #[error("Tried to convert a hex prefix byte string into `Nibbles` that was empty")]
+    ZeroSizedInput,
+
     #[error("Tried to convert a hex prefix byte string into `Nibbles` with invalid flags at the start: {0:#04b}")]
     InvalidFlags(Nibble),
 
@@ -657,6 +660,10 @@ impl Nibbles {
 
     /// Converts a hex prefix byte string ("AKA "compact") into `Nibbles`.
     pub fn from_hex_prefix_encoding(hex_prefix_bytes: &[u8]) -> Result<Self, FromHexPrefixError> {
+        if hex_prefix_bytes.is_empty() {
+            return Err(FromHexPrefixError::ZeroSizedInput);
+        }
+
         if hex_prefix_bytes.len() > 33 {
             return Err(FromHexPrefixError::TooLong(
                 hex::encode(hex_prefix_bytes),
-- 
2.43.0


From fb89782332712f2fba686f1d087ef2849b6e1ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:21 +0000
Subject: [PATCH 14/20] fix: panic on all out of range `Nibbles` indices
 without overflow checks

An index close to `usize::MAX` wrapped around in a release build, and these
methods returned made up nibbles instead of panicking as documented.
---
 src/nibbles.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index f9e239c..61a5fae 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -263,6 +263,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `idx` is out of range.
     pub fn get_nibble(&self, idx: usize) -> Nibble {
+        assert!(idx < self.count);
+
         let nib_idx = self.count - idx - 1;
         let byte = self.packed.byte(nib_idx / 2);
 
@@ -465,6 +467,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx(&self, idx: usize) -> (Nibbles, Nibbles) {
+        assert!(idx <= self.count);
+
         let post_count = self.count - idx;
         let post_mask = create_mask_of_1s(post_count * 4);
 
@@ -504,6 +508,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx_postfix(&self, idx: usize) -> Nibbles {
+        assert!(idx <= self.count);
+
         let postfix_count = self.count - idx;
         let mask = create_mask_of_1s(postfix_count * 4);
 
-- 
2.43.0


From 161e90e6f1f0a5f0e3560670bc8d61338b8cda7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:21 +0000
Subject: [PATCH 15/20] fix: only report a node diff when the nodes differ

The check for differing nodes was inverted. Nodes of the same kind were
reported as a node diff without looking at their children, and comparing
nodes of different kinds panicked.
---
 src/debug_tools/diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index b043d72..540ba05 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -297,7 +297,7 @@ fn find_latest_diff_point_between_tries_rec(
 
     // Note that differences in a node's `value` will be picked up by a hash
     // mismatch.
-    if (a_type, a_key_piece) == (b_type, b_key_piece) {
+    if (a_type, a_key_piece) != (b_type, b_key_piece) {
         depth_state.try_update_longest_divergence_key_node(state);
         DiffDetectionState::NodeTypesDiffer
     } else {
-- 
2.43.0


From 89e0a4693f6f7782ba4e8b4868dab1891202d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:22 +0000
Subject: [PATCH 16/20] fix: report a diff between branches that only differ in
 their value

The hash check that is meant for branches without a differing child was
skipped for exactly those, so the diff of such tries was empty.
`NodeTypesDiffer` is the most significant state but has the lowest integer
representation, so the comparison of the states was inverted as well.
---
 src/debug_tools/diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index 540ba05..ee40d84 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -62,7 +62,7 @@ enum DiffDetectionState {
 
 impl DiffDetectionState {
     fn pick_most_significant_state(&self, other: &Self) -> Self {
-        match self.get_int_repr() > other.get_int_repr() {
+        match self.get_int_repr() < other.get_int_repr() {
             false => *other,
             true => *self,
         }
@@ -336,7 +336,7 @@ fn find_latest_diff_point_between_tries_rec(
                         most_significant_diff_found.pick_most_significant_state(&res);
                 }
 
-                if matches!(
+                if !matches!(
                     most_significant_diff_found,
                     DiffDetectionState::NoDiffDetected
                 ) {
-- 
2.43.0


From ce12c424e41d2ce44893c9ca94ac14522882d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:22 +0000
Subject: [PATCH 17/20] fix: report the depth of a diff point

The depth was tracked while searching for the diff but always reported as 0.
---
 src/debug_tools/diff.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index ee40d84..d18797f 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -89,13 +89,14 @@ impl DiffPoint {
         child_a: &HashedPartialTrie,
         child_b: &HashedPartialTrie,
         parent_k: Nibbles,
+        depth: usize,
         path: NodePath,
     ) -> Self {
         let a_key = parent_k.merge_nibbles(&get_key_piece_from_node(child_a));
         let b_key = parent_k.merge_nibbles(&get_key_piece_from_node(child_b));
 
         DiffPoint {
-            depth: 0,
+            depth,
             path,
             key: parent_k,
             a_info: NodeInfo::new(child_a, a_key, get_value_from_node(child_a).cloned()),
@@ -195,6 +196,7 @@ impl DepthNodeDiffState {
             &state.curr_key,
             state.a,
             state.b,
+            state.curr_depth,
             state.curr_path.clone(),
         );
     }
@@ -205,6 +207,7 @@ impl DepthNodeDiffState {
             &state.curr_key,
             state.a,
             state.b,
+            state.curr_depth,
             state.curr_path.clone(),
         );
     }
@@ -214,13 +217,14 @@ impl DepthNodeDiffState {
         parent_k: &Nibbles,
         child_a: &HashedPartialTrie,
         child_b: &HashedPartialTrie,
+        depth: usize,
         path: NodePath,
     ) {
         if field
             .as_ref()
             .map_or(true, |d_point| d_point.key.count < parent_k.count)
         {
-            *field = Some(DiffPoint::new(child_a, child_b, *parent_k, path));
+            *field = Some(DiffPoint::new(child_a, child_b, *parent_k, depth, path));
         }
     }
 }
-- 
2.43.0


From 5d2085c1d9fd6c329209986b980d188b1cf0258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:22 +0000
Subject: [PATCH 18/20] fix: follow extension nodes correctly in a debug query

The nibbles of an extension were not removed from the key before going on
with its child, and the child was visited even if the nibbles did not match.
The reported path was wrong for every key below an extension.
---
 src/debug_tools/query.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/debug_tools/query.rs b/src/debug_tools/query.rs
index e75c2ed..25a5fc4 100644
--- a/src/debug_tools/query.rs
+++ b/src/debug_tools/query.rs
@@ -283,8 +283,13 @@ fn get_path_from_query_rec<T: PartialTrie>(
             get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
         }
         Node::Extension { nibbles, child } => {
-            get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
-            get_path_from_query_rec(child, curr_key, query_out);
+            let curr_key_next_nibs =
+                get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
+
+            if *nibbles == curr_key_next_nibs {
+                curr_key.pop_nibbles_front(curr_key_next_nibs.count);
+                get_path_from_query_rec(child, curr_key, query_out);
+            }
         }
         Node::Leaf { nibbles, value: _ } => {
             let curr_key_next_nibs =
-- 
2.43.0


From 60bc99af001feb707669325ee22df8d4e052ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:23 +0000
Subject: [PATCH 19/20] fix: do not panic in a debug query when the key ends at
 a branch

---
 src/debug_tools/common.rs | 16 ++++++++++------
 src/debug_tools/query.rs  |  6 ++++--
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/debug_tools/common.rs b/src/debug_tools/common.rs
index b63bba9..9a43d76 100644
--- a/src/debug_tools/common.rs
+++ b/src/debug_tools/common.rs
@@ -10,7 +10,8 @@ use crate::{
 pub(super) enum PathSegment {
     Empty,
     Hash,
-    Branch(Nibble),
+    /// Does not contain a nibble if the path ends at the branch.
+    Branch(Option<Nibble>),
     Extension(Nibbles),
     Leaf(Nibbles),
 }
@@ -20,7 +21,8 @@ impl Display for PathSegment {
         match self {
             PathSegment::Empty => write!(f, "Empty"),
             PathSegment::Hash => write!(f, "Hash"),
-            PathSegment::Branch(nib) => write!(f, "Branch({})", nib),
+            PathSegment::Branch(Some(nib)) => write!(f, "Branch({})", nib),
+            PathSegment::Branch(None) => write!(f, "Branch"),
             PathSegment::Extension(nibs) => write!(f, "Extension({})", nibs),
             PathSegment::Leaf(nibs) => write!(f, "Leaf({})", nibs),
         }
@@ -40,8 +42,8 @@ impl PathSegment {
 
     pub(super) fn get_key_piece_from_seg_if_present(&self) -> Option<Nibbles> {
         match self {
-            PathSegment::Empty | PathSegment::Hash => None,
-            PathSegment::Branch(nib) => Some(Nibbles::from_nibble(*nib)),
+            PathSegment::Empty | PathSegment::Hash | PathSegment::Branch(None) => None,
+            PathSegment::Branch(Some(nib)) => Some(Nibbles::from_nibble(*nib)),
             PathSegment::Extension(nibs) | PathSegment::Leaf(nibs) => Some(*nibs),
         }
     }
@@ -54,7 +56,9 @@ pub(super) fn get_segment_from_node_and_key_piece<T: PartialTrie>(
     match TrieNodeType::from(n) {
         TrieNodeType::Empty => PathSegment::Empty,
         TrieNodeType::Hash => PathSegment::Hash,
-        TrieNodeType::Branch => PathSegment::Branch(k_piece.get_nibble(0)),
+        TrieNodeType::Branch => {
+            PathSegment::Branch((!k_piece.is_empty()).then(|| k_piece.get_nibble(0)))
+        }
         TrieNodeType::Extension => PathSegment::Extension(*k_piece),
         TrieNodeType::Leaf => PathSegment::Leaf(*k_piece),
     }
@@ -73,7 +77,7 @@ pub(super) fn get_key_piece_from_node_pulling_from_key_for_branches<T: PartialTr
 ) -> Nibbles {
     match n {
         Node::Empty | Node::Hash(_) => Nibbles::default(),
-        Node::Branch { .. } => curr_key.get_next_nibbles(1),
+        Node::Branch { .. } => curr_key.get_next_nibbles(curr_key.count.min(1)),
         Node::Extension { nibbles, child: _ } | Node::Leaf { nibbles, value: _ } => *nibbles,
     }
 }
diff --git a/src/debug_tools/query.rs b/src/debug_tools/query.rs
index 25a5fc4..0317650 100644
--- a/src/debug_tools/query.rs
+++ b/src/debug_tools/query.rs
@@ -278,9 +278,11 @@ fn get_path_from_query_rec<T: PartialTrie>(
     match node {
         Node::Empty | Node::Hash(_) => (),
         Node::Branch { children, value: _ } => {
-            let nib = curr_key.pop_next_nibble_front();
+            if !curr_key.is_empty() {
+                let nib = curr_key.pop_next_nibble_front();
 
-            get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
+                get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
+            }
         }
         Node::Extension { nibbles, child } => {
             let curr_key_next_nibs =
-- 
2.43.0


From a9f0cd711af8857cf12b4fcc0305936891023884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:54 +0000
Subject: [PATCH 20/20] fix: only report a node as found in a debug query if it
 exists

A query whose key ended at an empty branch slot or above the end of a leaf or
an extension reported the node as found.
---
 src/debug_tools/query.rs | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/debug_tools/query.rs b/src/debug_tools/query.rs
index 0317650..8df55a3 100644
--- a/src/debug_tools/query.rs
+++ b/src/debug_tools/query.rs
@@ -276,13 +276,17 @@ fn get_path_from_query_rec<T: PartialTrie>(
         .push(ExtraNodeSegmentInfo::from_node(node));
 
     match node {
-        Node::Empty | Node::Hash(_) => (),
+        Node::Empty => (),
+        Node::Hash(_) => query_out.node_found = curr_key.is_empty(),
         Node::Branch { children, value: _ } => {
-            if !curr_key.is_empty() {
-                let nib = curr_key.pop_next_nibble_front();
-
-                get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
+            if curr_key.is_empty() {
+                query_out.node_found = true;
+                return;
             }
+
+            let nib = curr_key.pop_next_nibble_front();
+
+            get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
         }
         Node::Extension { nibbles, child } => {
             let curr_key_next_nibs =
@@ -293,18 +297,7 @@ fn get_path_from_query_rec<T: PartialTrie>(
                 get_path_from_query_rec(child, curr_key, query_out);
             }
         }
-        Node::Leaf { nibbles, value: _ } => {
-            let curr_key_next_nibs =
-                get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
-
-            if *nibbles == curr_key_next_nibs {
-                curr_key.pop_nibbles_front(curr_key_next_nibs.count);
-            }
-        }
-    }
-
-    if curr_key.is_empty() {
-        query_out.node_found = true;
+        Node::Leaf { nibbles, value: _ } => query_out.node_found = *nibbles == *curr_key,
     }
 }
 
-- 
2.43.0

