From 72fa6bc898fb0a063825a4850233e03eab6bc0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:29 +0000
Subject: [PATCH 01/21] fix: rebalance the left spine when an AVL removal takes
 out the minimum

---
 src/avl_tree/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avl_tree/tree.rs b/src/avl_tree/tree.rs
index 9809776..8e4bf1b 100644
--- a/src/avl_tree/tree.rs
+++ b/src/avl_tree/tree.rs
@@ -44,7 +44,9 @@ fn balance<T, U>(tree: &mut Tree<T, U>) {
 fn remove_min<T, U>(tree: &mut Tree<T, U>) -> Box<Node<T, U>> {
     if let Some(ref mut node) = tree {
         if node.left.is_some() {
-            return remove_min(&mut node.left);
+            let ret = remove_min(&mut node.left);
+            balance(tree);
+            return ret;
         }
     }
 
-- 
2.43.0


From ad1e73fd12cd8254f06aa3f1b9a82b06cd790d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:29 +0000
Subject: [PATCH 02/21] fix: reach the links of a skip list node without
 indexing a zero-length array

---
 src/skiplist/list.rs | 6 +++---
 src/skiplist/map.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 8689be6..82f031f 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -30,11 +30,11 @@ impl<T> Node<T> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &Link<T> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut Link<T> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_size_in_u64s(links_len: usize) -> usize {
@@ -51,7 +51,7 @@ impl<T> Node<T> {
         mem::forget(v);
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index f191732..94712f2 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -26,11 +26,11 @@ impl<T, U> Node<T, U> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &*mut Node<T, U> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut *mut Node<T, U> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_size_in_u64s(links_len: usize) -> usize {
@@ -47,7 +47,7 @@ impl<T, U> Node<T, U> {
         mem::forget(v);
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
-- 
2.43.0


From 01a4d1c466597348f55f90f26c3839ba0949edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:58 +0000
Subject: [PATCH 03/21] fix: link each node of a skip map intersection only at
 the levels it has

---
 src/skiplist/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 94712f2..1ddefa4 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -729,7 +729,7 @@ impl<T, U> SkipMap<T, U> {
                 );
 
                 let links_len = (*next_node).links_len;
-                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len + 1) {
+                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len) {
                     *(**curr_node).get_pointer_mut(i) = next_node;
                     *curr_node = next_node;
                 }
-- 
2.43.0


From 838514bdef01cec9855a92d6474972b76556727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:58 +0000
Subject: [PATCH 04/21] fix: take the rest of the left operand in a skip map
 difference

---
 src/skiplist/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 1ddefa4..666ce57 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -798,8 +798,8 @@ impl<T, U> SkipMap<T, U> {
                         }
                     }
                     (false, true) => {
-                        let next_right_node = *(*right.head).get_pointer(0);
-                        next_node = mem::replace(&mut right.head, next_right_node);
+                        let next_left_node = *(*left.head).get_pointer(0);
+                        next_node = mem::replace(&mut left.head, next_left_node);
                     }
                 }
                 ret.len += 1;
-- 
2.43.0


From 1d3aaac9ffd9fff01729f2cb43ae4cc9ac2b7949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:59 +0000
Subject: [PATCH 05/21] fix: drop the rest of a skip list iterator once, not
 twice

---
 src/skiplist/list.rs | 1 -
 src/skiplist/map.rs  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 82f031f..b744f03 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -576,7 +576,6 @@ impl<T> Drop for SkipListIntoIter<T> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).value);
                 let next_node = (*self.current).get_pointer(0).next;
                 Node::free(mem::replace(&mut self.current, next_node));
             }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 666ce57..f0fb2a1 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1018,7 +1018,6 @@ impl<T, U> Drop for SkipMapIntoIter<T, U> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).entry);
                 let next_node = *(*self.current).get_pointer(0);
                 Node::free(mem::replace(&mut self.current, next_node));
             }
-- 
2.43.0


From b726d511a70f484faf36a260c0f1d5b03e57c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:59 +0000
Subject: [PATCH 06/21] fix: shorten the links to the end of a skip list when a
 value is removed

---
 src/skiplist/list.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index b744f03..e29b79b 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -214,20 +214,18 @@ impl<T> SkipList<T> {
                     curr_node = &mut mem::replace(&mut next_link, next_next_link).next;
                 }
 
-                if !next_link.next.is_null() {
-                    if next_link.distance == index + 1 {
-                        let Link { next, distance } = *next_link;
-                        mem::swap(next_link, (*next).get_pointer_mut(curr_height));
-                        next_link.distance += distance - 1;
-                        if curr_height == 0 {
-                            let ret = ptr::read(&(*next).value);
-                            Node::deallocate(next);
-                            self.len -= 1;
-                            return ret;
-                        }
-                    } else {
-                        next_link.distance -= 1;
+                if !next_link.next.is_null() && next_link.distance == index + 1 {
+                    let Link { next, distance } = *next_link;
+                    mem::swap(next_link, (*next).get_pointer_mut(curr_height));
+                    next_link.distance += distance - 1;
+                    if curr_height == 0 {
+                        let ret = ptr::read(&(*next).value);
+                        Node::deallocate(next);
+                        self.len -= 1;
+                        return ret;
                     }
+                } else {
+                    next_link.distance -= 1;
                 }
 
                 curr_height -= 1;
-- 
2.43.0


From a22e54e072c521cf1c3cb2a3f770ac101c02a709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:59 +0000
Subject: [PATCH 07/21] fix: keep an empty root when the last key of a radix
 map is removed

---
 src/radix/map.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/radix/map.rs b/src/radix/map.rs
index ec033b2..3454cf1 100644
--- a/src/radix/map.rs
+++ b/src/radix/map.rs
@@ -103,10 +103,14 @@ impl<T> RadixMap<T> {
     /// assert_eq!(map.remove(b"foobar"), None);
     /// ```
     pub fn remove(&mut self, key: &[u8]) -> Option<(Vec<u8>, T)> {
-        tree::remove(&mut self.root, key, 0).and_then(|value| {
+        let ret = tree::remove(&mut self.root, key, 0).and_then(|value| {
             self.len -= 1;
             Some(value)
-        })
+        });
+        if self.root.is_none() {
+            self.root = Some(Box::new(Node::new(Vec::new(), None)));
+        }
+        ret
     }
 
     /// Checks if a key exists in the map.
-- 
2.43.0


From e6118f038c06fd10aef0166ca6317a5bcd954ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:59 +0000
Subject: [PATCH 08/21] fix: return exactly the keys that share the longest
 prefix in a radix map

---
 src/radix/tree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/radix/tree.rs b/src/radix/tree.rs
index 980fefd..c9f1698 100644
--- a/src/radix/tree.rs
+++ b/src/radix/tree.rs
@@ -146,6 +146,8 @@ pub fn get_longest_prefix<T>(
         .zip(key[index..].iter())
         .position(|pair| pair.0 != pair.1);
     match split_index {
+        // no key shares a prefix with the specified key
+        Some(split_index) if index + split_index == 0 => {}
         Some(_) => {
             if node.value.is_some() {
                 keys.push(curr_key.clone());
@@ -158,10 +160,12 @@ pub fn get_longest_prefix<T>(
                 let next_child = node.get(key[index]);
                 match next_child {
                     Some(_) => get_longest_prefix(next_child, key, index, curr_key, keys),
+                    None if index == 0 => {}
                     None => {
                         if node.value.is_some() {
-                            keys.push(curr_key)
+                            keys.push(curr_key.clone());
                         }
+                        node.push_all_children(curr_key, keys);
                     }
                 }
             }
-- 
2.43.0


From 948eef9482c08ee6aaabf1eea4e53e00c6118e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:59 +0000
Subject: [PATCH 09/21] fix: treat the largest index as out of bounds in a
 treap list

---
 src/treap/list.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/treap/list.rs b/src/treap/list.rs
index ef672dd..20dba1e 100644
--- a/src/treap/list.rs
+++ b/src/treap/list.rs
@@ -181,7 +181,7 @@ impl<T> TreapList<T> {
     /// assert_eq!(list.get(1), None);
     /// ```
     pub fn get(&self, index: usize) -> Option<&T> {
-        implicit_tree::get(&self.tree, index + 1)
+        implicit_tree::get(&self.tree, index.checked_add(1)?)
     }
 
     /// Returns a mutable reference to the value at a particular index. Returns `None` if the
@@ -198,7 +198,7 @@ impl<T> TreapList<T> {
     /// assert_eq!(list.get(0), Some(&2));
     /// ```
     pub fn get_mut(&mut self, index: usize) -> Option<&mut T> {
-        implicit_tree::get_mut(&mut self.tree, index + 1)
+        implicit_tree::get_mut(&mut self.tree, index.checked_add(1)?)
     }
 
     /// Returns the number of elements in the list.
-- 
2.43.0


From 1fa746e13a533e31b53b5a50812b1c27258db629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:11 +0000
Subject: [PATCH 10/21] fix: leave the free list of an arena alone when a
 vacant block is freed

---
 src/arena.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arena.rs b/src/arena.rs
index 264ad3d..7217d61 100644
--- a/src/arena.rs
+++ b/src/arena.rs
@@ -138,12 +138,15 @@ impl<T> TypedArena<T> {
         if !self.is_valid_entry(entry) {
             panic!("Error: attempting to free invalid block.");
         }
+        if let Block::Vacant(_) = self.chunks[entry.chunk_index][entry.block_index] {
+            panic!("Error: attempting to free vacant block.");
+        }
         let old_block = mem::replace(
             &mut self.chunks[entry.chunk_index][entry.block_index],
             Block::Vacant(self.head.take()),
         );
         match old_block {
-            Block::Vacant(_) => panic!("Error: attempting to free vacant block."),
+            Block::Vacant(_) => unreachable!(),
             Block::Occupied(value) => {
                 self.size -= 1;
                 self.head = Some(Entry {
-- 
2.43.0


From 60e38ffde83d12ecfd5d3fbba8ff956f67917d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:51 +0000
Subject: [PATCH 11/21] fix: replace a key of a full B+ tree leaf in place
 instead of splitting it

---
 src/bp_tree/node.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index e4f79b1..5c0a72e 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -245,16 +245,19 @@ impl<T, U> LeafNode<T, U> {
             self.entries[index] = Some(new_entry);
             None
         }
+        // node is full but has the key; can replace
+        else if let Some(index) = self.search::<T>(&new_entry.key) {
+            self.entries[index]
+                .replace(new_entry)
+                .map(InsertCases::Entry)
+        }
         // node is full; have to split
         else {
             let mut split_node = LeafNode::new(leaf_degree);
             for index in 0..leaf_degree {
                 if let Some(ref mut entry) = self.entries[index] {
-                    if new_entry <= *entry {
+                    if new_entry < *entry {
                         mem::swap(entry, &mut new_entry);
-                        if new_entry == *entry {
-                            return Some(InsertCases::Entry(new_entry));
-                        }
                     }
                 }
                 if index > leaf_degree / 2 {
-- 
2.43.0


From f6bc90b54ad28e50b25b3e5d295f345e06721e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:47 +0000
Subject: [PATCH 12/21] fix: size B+ tree pages for the tags that encoded nodes
 contain

---
 src/bp_tree/node.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index 5c0a72e..38f8475 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -7,6 +7,8 @@ use std::mem;
 
 const U64_SIZE: u64 = mem::size_of::<u64>() as u64;
 const OPT_U64_SIZE: u64 = mem::size_of::<Option<u64>>() as u64;
+const OPT_TAG_SIZE: u64 = 1;
+const ENUM_TAG_SIZE: u64 = 4;
 pub const BLOCK_SIZE: u64 = 4096;
 
 #[derive(Serialize, Deserialize)]
@@ -29,7 +31,8 @@ impl<T, U> InternalNode<T, U> {
     fn get_payload_size(key_size: u64) -> u64 {
         let option_size = mem::size_of::<Option<T>>() as u64;
         let entry_size = mem::size_of::<T>() as u64;
-        U64_SIZE + key_size + option_size - entry_size
+        // the tag of an option is encoded as one byte even if it takes no room in memory
+        U64_SIZE + key_size + cmp::max(option_size - entry_size, OPT_TAG_SIZE)
     }
 
     #[inline]
@@ -202,7 +205,8 @@ impl<T, U> LeafNode<T, U> {
     fn get_payload_size(key_size: u64, value_size: u64) -> u64 {
         let option_size = mem::size_of::<Option<Entry<T, U>>>() as u64;
         let entry_size = mem::size_of::<Entry<T, U>>() as u64;
-        key_size + value_size + option_size - entry_size
+        // the tag of an option is encoded as one byte even if it takes no room in memory
+        key_size + value_size + cmp::max(option_size - entry_size, OPT_TAG_SIZE)
     }
 
     #[inline]
@@ -376,7 +380,8 @@ impl<T, U> Node<T, U> {
     ) -> u64 {
         cmp::max(
             LeafNode::<T, U>::get_max_size(leaf_degree, key_size, value_size),
-            InternalNode::<T, U>::get_max_size(internal_degree, key_size),
+            // the constant size of an internal node does not account for the tag of the enum
+            ENUM_TAG_SIZE + InternalNode::<T, U>::get_max_size(internal_degree, key_size),
         )
     }
 }
-- 
2.43.0


From 6483e9c3f4d61a46b571a6440c8ed41691798795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:47 +0000
Subject: [PATCH 13/21] fix: keep at least two children in every internal node
 of a B+ tree

---
 src/bp_tree/map.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bp_tree/map.rs b/src/bp_tree/map.rs
index 80e2f8a..cdb25d3 100644
--- a/src/bp_tree/map.rs
+++ b/src/bp_tree/map.rs
@@ -4,6 +4,7 @@ use crate::entry::Entry;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use std::borrow::Borrow;
+use std::cmp;
 use std::mem;
 use std::path::Path;
 
@@ -74,14 +75,13 @@ impl<T, U> BpMap<T, U> {
     {
         let leaf_degree = LeafNode::<T, U>::get_degree(key_size, value_size);
         let internal_degree = InternalNode::<T, U>::get_degree(key_size);
-        Pager::new(
+        Self::with_degrees(
             file_path,
             key_size,
             value_size,
             leaf_degree,
             internal_degree,
         )
-        .map(|pager| BpMap { pager })
     }
 
     /// Constructs a new, empty `BpMap<T, U>` with maximum sizes for keys and values and specific
@@ -113,6 +113,8 @@ impl<T, U> BpMap<T, U> {
         U: Serialize,
         P: AsRef<Path>,
     {
+        // a split needs a node to hold at least one entry, or at least two keys
+        assert!(leaf_degree >= 1 && internal_degree >= 2);
         assert!(LeafNode::<T, U>::get_max_size(leaf_degree, key_size, value_size) <= BLOCK_SIZE);
         assert!(InternalNode::<T, U>::get_max_size(internal_degree, key_size) <= BLOCK_SIZE);
         Pager::new(
@@ -372,11 +374,13 @@ impl<T, U> BpMap<T, U> {
             _ => panic!("Expected a leaf node."),
         }
 
+        // an internal node with a single child would have no sibling to merge that child with
+        let min_children = cmp::max((self.pager.get_internal_degree() + 1) / 2, 2);
         while let Some((delete_index, curr_page, mut curr_node)) = delete_entry {
             delete_entry = None;
             curr_node.remove_at(delete_index, true);
 
-            let is_underflow = curr_node.len + 1 < (self.pager.get_internal_degree() + 1) / 2;
+            let is_underflow = curr_node.len + 1 < min_children;
             if is_underflow {
                 if let Some((parent_page, parent_node, curr_index)) = stack.pop() {
                     let mut parent_node = {
@@ -400,7 +404,7 @@ impl<T, U> BpMap<T, U> {
                         }
                     };
 
-                    if sibling_node.len + 1 == (self.pager.get_internal_degree() + 1) / 2 {
+                    if sibling_node.len + 1 == min_children {
                         if sibling_index == curr_index + 1 {
                             let parent_key = parent_node.keys[curr_index]
                                 .clone()
-- 
2.43.0


From 312ea980187bcfc74d2562305ae144dcea5a524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 14/21] fix: LsmMap::min and LsmMap::max respect in-memory
 removals of disk-resident keys

---
 src/lsm_tree/map.rs | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index a5a38d0..8d499b8 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -4,7 +4,6 @@ use bincode::serialized_size;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use std::borrow::Borrow;
-use std::cmp;
 use std::collections::BTreeMap;
 use std::hash::Hash;
 use std::mem;
@@ -378,7 +377,8 @@ where
         self.compaction_strategy.clear()
     }
 
-    /// Returns the minimum key of the map. Returns `None` if the map is empty.
+    /// Returns the minimum key of the map. Returns `None` if the map is empty. The in-memory tree is
+    /// flushed, so that removals that are only in memory are taken into account.
     ///
     /// # Examples
     ///
@@ -401,23 +401,12 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn min(&mut self) -> Result<Option<T>> {
-        let in_memory_min = self
-            .in_memory_tree
-            .iter()
-            .find(|entry| entry.1.data.is_some())
-            .map(|entry| entry.0.clone());
-        let disk_min = self.compaction_strategy.min()?;
-
-        if in_memory_min.is_none() {
-            Ok(disk_min)
-        } else if disk_min.is_none() {
-            Ok(in_memory_min)
-        } else {
-            Ok(cmp::min(in_memory_min, disk_min))
-        }
+        self.flush()?;
+        self.compaction_strategy.min()
     }
 
-    /// Returns the maximum key of the map. Returns `None` if the map is empty.
+    /// Returns the maximum key of the map. Returns `None` if the map is empty. The in-memory tree is
+    /// flushed, so that removals that are only in memory are taken into account.
     ///
     /// # Examples
     ///
@@ -440,14 +429,8 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn max(&mut self) -> Result<Option<T>> {
-        Ok(cmp::max(
-            self.in_memory_tree
-                .iter()
-                .rev()
-                .find(|entry| entry.1.data.is_some())
-                .map(|entry| entry.0.clone()),
-            self.compaction_strategy.max()?,
-        ))
+        self.flush()?;
+        self.compaction_strategy.max()
     }
 
     /// Flushes the in-memory tree into a SSTable if it is not empty. The map must be flushed
-- 
2.43.0


From b3ca20aaa508d1afa35d70b70cce6af831b658ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 15/21] fix: a compaction strategy that has just been created
 can be opened

---
 src/lsm_tree/compaction/leveled.rs     | 1 +
 src/lsm_tree/compaction/size_tiered.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index ac7bd62..128a505 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -190,6 +190,7 @@ where
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
         }
+        ret.logical_time_file.write_u64::<BigEndian>(0)?;
 
         Ok(ret)
     }
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index bd44d8d..cc48ea8 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -244,6 +244,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
         }
+        ret.logical_time_file.write_u64::<BigEndian>(0)?;
 
         Ok(ret)
     }
-- 
2.43.0


From f41f1b7946d5a7dced5dc69655d94d077a4a3b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 16/21] fix: len, is_empty and max of an LSM map report a
 failed read instead of a wrong answer

---
 src/lsm_tree/compaction/leveled.rs     | 14 ++++++++++----
 src/lsm_tree/compaction/size_tiered.rs | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 128a505..f647a48 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -592,7 +592,12 @@ where
     }
 
     fn len(&mut self) -> Result<usize> {
-        Ok(self.iter()?.count())
+        let mut len = 0;
+        for entry in self.iter()? {
+            entry?;
+            len += 1;
+        }
+        Ok(len)
     }
 
     fn is_empty(&mut self) -> Result<bool> {
@@ -634,10 +639,11 @@ where
     }
 
     fn max(&mut self) -> Result<Option<T>> {
-        match self.iter()?.last() {
-            Some(entry) => Ok(Some(entry?.0)),
-            None => Ok(None),
+        let mut max = None;
+        for entry in self.iter()? {
+            max = Some(entry?.0);
         }
+        Ok(max)
     }
 
     fn iter(&mut self) -> Result<Box<CompactionIter<T, U>>> {
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index cc48ea8..7753f0d 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -489,7 +489,12 @@ where
     }
 
     fn len(&mut self) -> Result<usize> {
-        Ok(self.iter()?.count())
+        let mut len = 0;
+        for entry in self.iter()? {
+            entry?;
+            len += 1;
+        }
+        Ok(len)
     }
 
     fn is_empty(&mut self) -> Result<bool> {
@@ -530,10 +535,11 @@ where
     }
 
     fn max(&mut self) -> Result<Option<T>> {
-        match self.iter()?.last() {
-            Some(entry) => Ok(Some(entry?.0)),
-            None => Ok(None),
+        let mut max = None;
+        for entry in self.iter()? {
+            max = Some(entry?.0);
         }
+        Ok(max)
     }
 
     fn iter(&mut self) -> Result<Box<CompactionIter<T, U>>> {
-- 
2.43.0


From 7d5b0cfd50b3c58e43f3b449501a93b43b326385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 17/21] fix: a finished size-tiered compaction does not bring
 back SSTables it has compacted away

---
 src/lsm_tree/compaction/size_tiered.rs | 29 ++++++++++++++++++--------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 7753f0d..d7237dd 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -151,6 +151,12 @@ impl<T, U> SizeTieredMetadata<T, U> {
     }
 }
 
+/// The result of a compaction along with the logical time up to which SSTables are part of it.
+struct NextMetadata<T, U> {
+    metadata: SizeTieredMetadata<T, U>,
+    max_logical_time: Option<u64>,
+}
+
 /// A compaction strategy based on bucketing SSTables by their sizes and then compacting buckets
 /// when they become too full.
 ///
@@ -175,7 +181,7 @@ pub struct SizeTieredStrategy<T, U> {
     metadata_lock_count: Rc<Cell<u64>>,
     metadata_file: fs::File,
     curr_metadata: Arc<Mutex<SizeTieredMetadata<T, U>>>,
-    next_metadata: Arc<Mutex<Option<SizeTieredMetadata<T, U>>>>,
+    next_metadata: Arc<Mutex<Option<NextMetadata<T, U>>>>,
 }
 
 impl<T, U> SizeTieredStrategy<T, U> {
@@ -299,7 +305,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
         path: P,
         is_compacting: &Arc<AtomicBool>,
         mut metadata_snapshot: SizeTieredMetadata<T, U>,
-        next_metadata: &Arc<Mutex<Option<SizeTieredMetadata<T, U>>>>,
+        next_metadata: &Arc<Mutex<Option<NextMetadata<T, U>>>>,
         range: (usize, usize),
     ) -> Result<()>
     where
@@ -309,8 +315,16 @@ impl<T, U> SizeTieredStrategy<T, U> {
     {
         println!("Started compacting.");
 
+        let max_logical_time = metadata_snapshot
+            .sstables
+            .iter()
+            .map(|sstable| sstable.summary.logical_time_range.1)
+            .max();
         metadata_snapshot.compact(path, range)?;
-        *next_metadata.lock().unwrap() = Some(metadata_snapshot);
+        *next_metadata.lock().unwrap() = Some(NextMetadata {
+            metadata: metadata_snapshot,
+            max_logical_time,
+        });
         is_compacting.store(false, Ordering::Release);
 
         println!("Finished compacting");
@@ -355,12 +369,9 @@ impl<T, U> SizeTieredStrategy<T, U> {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
-            let logical_time_opt = next_metadata
-                .sstables
-                .iter()
-                .map(|sstable| sstable.summary.logical_time_range.1)
-                .max();
-            let old_sstables = mem::replace(&mut curr_metadata.sstables, next_metadata.sstables);
+            let logical_time_opt = next_metadata.max_logical_time;
+            let old_sstables =
+                mem::replace(&mut curr_metadata.sstables, next_metadata.metadata.sstables);
             curr_metadata.sstables.extend(
                 old_sstables
                     .iter()
-- 
2.43.0


From ff123c159ed1617b9de6d6286c61484170c284e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:14 +0000
Subject: [PATCH 18/21] fix: keep the in-memory entries of an LSM map when
 writing them out fails

---
 src/lsm_tree/map.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index 8d499b8..4f06e78 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -6,7 +6,6 @@ use serde::ser::Serialize;
 use std::borrow::Borrow;
 use std::collections::BTreeMap;
 use std::hash::Hash;
-use std::mem;
 
 /// An ordered map implemented using a log structured merge-tree.
 ///
@@ -87,16 +86,22 @@ where
     }
 
     fn try_compact(&mut self) -> Result<()> {
-        self.in_memory_usage = 0;
         let mut sstable_builder = SSTableBuilder::new(
             self.compaction_strategy.get_path(),
             self.in_memory_tree.len(),
         )?;
-        for entry in mem::replace(&mut self.in_memory_tree, BTreeMap::new()) {
-            sstable_builder.append(entry.0, entry.1)?;
+        for (key, value) in &self.in_memory_tree {
+            let value = SSTableValue {
+                data: value.data.clone(),
+                logical_time: value.logical_time,
+            };
+            sstable_builder.append(key.clone(), value)?;
         }
         let sstable = SSTable::new(sstable_builder.flush()?)?;
-        self.compaction_strategy.try_compact(sstable)
+        self.compaction_strategy.try_compact(sstable)?;
+        self.in_memory_tree.clear();
+        self.in_memory_usage = 0;
+        Ok(())
     }
 
     /// Inserts a key-value pair into the map. If the key-value pair causes the size of the
-- 
2.43.0


From ad4ceaa68c2af5a66732fe4ced5d64653c77b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:10 +0000
Subject: [PATCH 19/21] fix: do not drop a value popped off the stack again
 when its node is reclaimed

---
 src/sync/stack.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 6570afa..7a8c293 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -1,9 +1,10 @@
 use crossbeam_epoch::{self, Atomic, Owned};
+use std::mem::ManuallyDrop;
 use std::ptr;
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 struct Node<T> {
-    value: T,
+    value: ManuallyDrop<T>,
     next: Atomic<Node<T>>,
 }
 
@@ -61,7 +62,7 @@ impl<T> Stack<T> {
     /// ```
     pub fn push(&self, value: T) {
         let mut new_node = Owned::new(Node {
-            value,
+            value: ManuallyDrop::new(value),
             next: Atomic::null(),
         });
 
@@ -112,7 +113,7 @@ impl<T> Stack<T> {
                         unsafe {
                             self.len.fetch_sub(1, Ordering::Release);
                             guard.defer(move || head_shared.into_owned());
-                            return Some(ptr::read(&(*head).value));
+                            return Some(ManuallyDrop::into_inner(ptr::read(&(*head).value)));
                         }
                     }
                 }
-- 
2.43.0


From 66490ea05d0cb9f010d1f7996d7327005627837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:10 +0000
Subject: [PATCH 20/21] fix: drop the values that are left on a stack with it

---
 src/sync/stack.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 7a8c293..d140208 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -157,6 +157,12 @@ impl<T> Stack<T> {
     }
 }
 
+impl<T> Drop for Stack<T> {
+    fn drop(&mut self) {
+        while self.try_pop().is_some() {}
+    }
+}
+
 impl<T> Default for Stack<T> {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 7d2331ffd84127ae58e3b0ec8d763384b6cb71df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:10 +0000
Subject: [PATCH 21/21] fix: count an item before it is pushed onto the stack
 so that the length cannot wrap around

---
 src/sync/stack.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index d140208..2b524db 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -67,6 +67,8 @@ impl<T> Stack<T> {
         });
 
         let guard = &crossbeam_epoch::pin();
+        // count the item before it can be popped so that the length never falls below zero
+        self.len.fetch_add(1, Ordering::Release);
         loop {
             let head_shared = self.head.load(Ordering::Relaxed, guard);
             new_node.next.store(head_shared, Ordering::Relaxed);
@@ -74,10 +76,7 @@ impl<T> Stack<T> {
                 .head
                 .compare_and_set(head_shared, new_node, Ordering::Release, guard)
             {
-                Ok(_) => {
-                    self.len.fetch_add(1, Ordering::Release);
-                    break;
-                }
+                Ok(_) => break,
                 Err(e) => new_node = e.new,
             }
         }
-- 
2.43.0

