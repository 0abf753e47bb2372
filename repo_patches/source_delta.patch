From 6873000f2d290928e63879d15b8a63e58ad40d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 01/13] fix: reject range proofs with more than 256 siblings
 instead of underflowing

---
 jmt/src/types/proof/definition.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jmt/src/types/proof/definition.rs b/jmt/src/types/proof/definition.rs
index 6f90e12..165ed9f 100644
--- a/jmt/src/types/proof/definition.rs
+++ b/jmt/src/types/proof/definition.rs
@@ -269,6 +269,13 @@ impl SparseMerkleRangeProof {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle Tree range proof has more than {} ({} + {}) siblings.",
+            256,
+            left_siblings.len(),
+            self.right_siblings.len(),
+        );
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From 7f6f46e46ad30f9c7d72a53bf9a9be92807a8464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 02/13] fix: look up exclusion-proof neighbors at the version
 they were written

---
 jmt/src/tree.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jmt/src/tree.rs b/jmt/src/tree.rs
index 728f87b..b2831a6 100644
--- a/jmt/src/tree.rs
+++ b/jmt/src/tree.rs
@@ -923,25 +923,25 @@ where
             node: &InternalNode,
             child_index: Nibble,
             extreme: Extreme,
-        ) -> Option<Nibble> {
+        ) -> Option<(Nibble, Version)> {
             match extreme {
                 // Rightmost left neighbor
                 Extreme::Left => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble < &child_index)
                     .max_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .map(|p| (p.0, p.1.version)),
                 // Leftmost right neighbor
                 Extreme::Right => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble > &child_index)
                     .min_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .map(|p| (p.0, p.1.version)),
             }
         }
 
         let mut parents = parents;
-        let mut neighbor: Option<Nibble> = None;
+        let mut neighbor: Option<(Nibble, Version)> = None;
         let mut path = to;
 
         while neighbor.is_none() {
@@ -956,13 +956,15 @@ where
                 continue;
             }
         }
-        path.push(neighbor.unwrap());
+        // the neighbor may have been written at an older version than the one queried
+        let (neighbor_nibble, neighbor_version) = neighbor.unwrap();
+        path.push(neighbor_nibble);
 
         // nibble path will represent the left nibble path. this is currently at
         // the parent of the leaf for `key`
         Ok(Some(self.get_extreme_key_hash(
             version,
-            NodeKey::new(version, path.clone()),
+            NodeKey::new(neighbor_version, path.clone()),
             path.num_nibbles(),
             extreme.opposite(),
         )?))
-- 
2.43.0


From 47c3c783dfee68701d251dacf9570dcdc7682874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 03/13] fix: removing a branch value reports whether one
 existed and collapses the branch

---
 pmt/src/inner.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 9ddb1c4..ce12c1f 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -528,19 +528,19 @@ where
                 let borrow_branch = branch.borrow_mut();
 
                 if partial.at(0) == 0x10 {
-                    borrow_branch.value = None;
-                    return Ok((Node::Branch(branch.clone()), true));
-                }
+                    let deleted = borrow_branch.value.take().is_some();
+                    Ok((Node::Branch(branch.clone()), deleted))
+                } else {
+                    let index = partial.at(0);
+                    let child = &mut borrow_branch.children[index];
 
-                let index = partial.at(0);
-                let child = &mut borrow_branch.children[index];
+                    let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
+                    if deleted {
+                        *borrow_branch.children[index] = new_child;
+                    }
 
-                let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
-                if deleted {
-                    *borrow_branch.children[index] = new_child;
+                    Ok((Node::Branch(branch.clone()), deleted))
                 }
-
-                Ok((Node::Branch(branch.clone()), deleted))
             }
             Node::Extension(ext) => {
                 let borrow_ext = ext.borrow_mut();
-- 
2.43.0


From ee01a06ccdb478c6446766ca7be7dfd71e705c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 04/13] fix: failed or ineffective insertions and removals no
 longer schedule live nodes for pruning

---
 pmt/src/inner.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index ce12c1f..38092e2 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -154,7 +154,14 @@ where
 
         let mut root = self.root.clone();
         let path = &Nibbles::from_raw(key, true);
+
+        // Nodes passed through are replaced at the next commit only if the insertion takes effect
+        let mut passing_keys = std::mem::take(&mut self.passing_keys);
         let result = self.insert_at(&mut root, path, 0, value.to_vec());
+        if result.is_ok() {
+            passing_keys.extend(self.passing_keys.drain());
+        }
+        self.passing_keys = passing_keys;
 
         if let Err(TrieError::MissingTrieNode {
             node_hash,
@@ -180,7 +187,13 @@ where
     fn remove(&mut self, key: Key) -> Result<bool> {
         let path = &Nibbles::from_raw(key, true);
 
+        // Nodes passed through are replaced at the next commit only if a value is really removed
+        let mut passing_keys = std::mem::take(&mut self.passing_keys);
         let result = self.delete_at(&mut self.root.clone(), path, 0);
+        if let Ok((_, true)) = result {
+            passing_keys.extend(self.passing_keys.drain());
+        }
+        self.passing_keys = passing_keys;
 
         if let Err(TrieError::MissingTrieNode {
             node_hash,
-- 
2.43.0


From 96e7339d2f86478c0ddd160e4bf71a8be3fb0187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 05/13] fix: proofs from a trie handle whose root is not loaded
 yet no longer panic

---
 pmt/src/inner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 38092e2..be9693b 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -252,7 +252,8 @@ where
 
         let mut path = result?;
         match self.root {
-            Node::Empty => {}
+            // a root known only by hash is already part of the path as the recovered node
+            Node::Empty | Node::Hash(_) => {}
             _ => path.push(self.root.clone()),
         }
 
-- 
2.43.0


From 61c24790a753cb6ff58d2875f9f3770488c12a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 06/13] fix: decoding a node with a malformed key is an error
 instead of a panic

---
 pmt/src/inner.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index be9693b..08e26e0 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -797,7 +797,16 @@ where
             Prototype::Data(0) => Ok(Node::Empty),
             Prototype::List(2) => {
                 let key = r.at(0)?.data()?;
+                if !matches!(key.first(), Some(flag) if flag >> 4 <= 0x3) {
+                    return Err(TrieError::InvalidData(
+                        "node key is not a compact encoding".to_string(),
+                    ));
+                }
+
                 let key = Nibbles::from_compact(key);
+                if key.is_empty() {
+                    return Err(TrieError::InvalidData("node key is empty".to_string()));
+                }
 
                 if key.is_leaf() {
                     Ok(Node::from_leaf(key, r.at(1)?.data()?.to_vec()))
-- 
2.43.0


From 85108fe72b69c1873aad67a204e08b564eab1fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 07/13] fix: bound the nesting of inlined nodes so that a
 malformed proof cannot exhaust the stack

---
 pmt/src/inner.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 08e26e0..5dfe538 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -811,7 +811,7 @@ where
                 if key.is_leaf() {
                     Ok(Node::from_leaf(key, r.at(1)?.data()?.to_vec()))
                 } else {
-                    let n = self.decode_node(r.at(1)?.as_raw())?;
+                    let n = self.decode_child(&r.at(1)?)?;
 
                     Ok(Node::from_extension(key, n))
                 }
@@ -820,8 +820,7 @@ where
                 let mut nodes: [Box<Node>; 16] = Default::default();
                 #[allow(clippy::needless_range_loop)]
                 for i in 0..nodes.len() {
-                    let rlp_data = r.at(i)?;
-                    let n = self.decode_node(rlp_data.as_raw())?;
+                    let n = self.decode_child(&r.at(i)?)?;
                     *nodes[i] = n;
                 }
 
@@ -848,6 +847,19 @@ where
         }
     }
 
+    /// Decodes a child found inside its parent's encoding: a hash, or an inlined node, which is
+    /// always shorter than a hash.
+    fn decode_child(&self, child: &Rlp) -> Result<Node> {
+        let data = child.as_raw();
+        if child.is_list() && data.len() >= HASHED_LENGTH {
+            return Err(TrieError::InvalidData(
+                "inlined node is too long".to_string(),
+            ));
+        }
+
+        self.decode_node(data)
+    }
+
     pub(crate) fn recover_from_db(&self, key: H256) -> Result<Option<Node>> {
         let node = match self
             .db
-- 
2.43.0


From d1ebd47abda14b7d66f461a9e05458221264fd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 08/13] fix: MemoryDB size and values wait for concurrent
 writers instead of panicking or reporting nothing

---
 pmt/src/db.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pmt/src/db.rs b/pmt/src/db.rs
index 88171ed..e744add 100644
--- a/pmt/src/db.rs
+++ b/pmt/src/db.rs
@@ -110,20 +110,18 @@ impl Database for MemoryDB {
     }
 
     fn len(&self) -> Result<usize, Self::Error> {
-        Ok(self.storage.try_read().unwrap().len())
+        Ok(self.storage.read().len())
     }
 
     fn is_empty(&self) -> Result<bool, Self::Error> {
-        Ok(self.storage.try_read().unwrap().is_empty())
+        Ok(self.storage.read().is_empty())
     }
 
     fn values(&self) -> Result<Vec<(Vec<u8>, OwnedValue)>, Self::Error> {
         let mut values = Vec::new();
 
-        if let Some(handle) = self.storage.try_read() {
-            for (k, v) in handle.iter() {
-                values.push((k.clone(), v.clone()));
-            }
+        for (k, v) in self.storage.read().iter() {
+            values.push((k.clone(), v.clone()));
         }
 
         Ok(values)
-- 
2.43.0


From 4ebde69ad69cf6df5b11e9035ae4e1a1e79721a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:49 +0000
Subject: [PATCH 09/13] fix: finishing a restoration checks the restored root
 against the expected root hash

---
 jmt/src/restore.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 67b024a..925b799 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -667,6 +667,18 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         }
     }
 
+    /// Checks the hash of the restored root node against the root hash we expect, so that an
+    /// incomplete restoration is never written to storage as if it were the whole tree.
+    fn ensure_expected_root(&self, root_hash: [u8; 32]) -> Result<()> {
+        ensure!(
+            root_hash == self.expected_root_hash.0,
+            "Restored root hash does not match. Actual root hash: {:?}. Expected root hash: {:?}.",
+            root_hash,
+            self.expected_root_hash,
+        );
+        Ok(())
+    }
+
     /// Finishes the restoration process. This tells the code that there is no more account,
     /// otherwise we can not freeze the rightmost leaf and its ancestors.
     fn finish_impl(mut self) -> Result<()> {
@@ -685,6 +697,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
 
             if num_children == 1 {
                 if let Some(node) = leaf {
+                    self.ensure_expected_root(node.hash())?;
                     let node_key = NodeKey::new_empty_path(self.version);
                     assert!(self.frozen_nodes.is_empty());
                     self.frozen_nodes.insert_node(node_key, node.into());
@@ -692,9 +705,15 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     return Ok(());
                 }
             }
+            ensure!(num_children > 0, "Nothing has been restored.");
         }
 
         self.freeze(0);
+        let root_node_key = NodeKey::new_empty_path(self.version);
+        match self.frozen_nodes.get_node(&root_node_key) {
+            Some(root_node) => self.ensure_expected_root(root_node.hash())?,
+            None => bail!("The root node has not been restored."),
+        }
         self.store.write_node_batch(&self.frozen_nodes)
     }
 }
-- 
2.43.0


From 1a21b9c9ee85ff5b0a8341c5d18c264637877a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 10/13] fix: committing a small root that was read back by hash
 no longer deletes the root just written

---
 pmt/src/inner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 5dfe538..afd2a92 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -296,6 +296,7 @@ where
             EncodedNode::Inline(encoded) => {
                 let hash = keccak(&encoded);
                 self.cache.insert(hash.as_bytes().to_vec(), encoded);
+                self.gen_keys.insert(hash.as_bytes().to_vec());
                 hash
             }
         };
-- 
2.43.0


From 22aa0f77419105d1039cfe03517f82d13c5a6e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 11/13] fix: committing a handle whose root is not in storage
 is an error, not a panic

---
 pmt/src/inner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index afd2a92..4f79b5b 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -329,7 +329,12 @@ where
         self.passing_keys.clear();
         self.root = self
             .recover_from_db(root_hash)?
-            .expect("The root that was just created is missing");
+            .ok_or(TrieError::MissingTrieNode {
+                node_hash: root_hash,
+                traversed: None,
+                root_hash: Some(root_hash),
+                err_key: None,
+            })?;
 
         Ok(root_hash)
     }
-- 
2.43.0


From a955c4d42049c99c8940e9f5c5f25cd8f54589bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:02 +0000
Subject: [PATCH 12/13] fix: a stored node that is only a reference is
 rejected, so proofs cannot chain references until the stack overflows

---
 pmt/src/inner.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 4f79b5b..f2bd9c2 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -872,7 +872,15 @@ where
             .get(key.as_bytes())
             .map_err(|e| TrieError::Database(e.to_string()))?
         {
-            Some(value) => Some(self.decode_node(&value)?),
+            Some(value) => match self.decode_node(&value)? {
+                // references only occur inside nodes: chains of them would be followed without bound
+                Node::Hash(_) => {
+                    return Err(TrieError::InvalidData(
+                        "stored node is a reference to another node".to_string(),
+                    ))
+                }
+                node => Some(node),
+            },
             None => None,
         };
         Ok(node)
-- 
2.43.0


From fc7487ed6b7d9f8aebbe508f19a5d8ab693d9ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:41 +0000
Subject: [PATCH 13/13] fix: a storage error at the root is reported as such,
 not as a missing root

---
 jmt/src/tree.rs | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/jmt/src/tree.rs b/jmt/src/tree.rs
index b2831a6..e825a1a 100644
--- a/jmt/src/tree.rs
+++ b/jmt/src/tree.rs
@@ -853,13 +853,11 @@ where
         // We limit the number of loops here deliberately to avoid potential cyclic graph bugs
         // in the tree structure.
         for nibble_depth in 0..=ROOT_NIBBLE_HEIGHT {
-            let next_node = self.reader.get_node(&next_node_key).map_err(|err| {
-                if nibble_depth == 0 {
-                    anyhow::anyhow!(MissingRootError { version })
-                } else {
-                    err
-                }
-            })?;
+            let next_node = match self.reader.get_node_option(&next_node_key)? {
+                Some(node) => node,
+                None if nibble_depth == 0 => bail!(MissingRootError { version }),
+                None => bail!("Missing node at {:?}.", next_node_key),
+            };
             match next_node {
                 Node::Internal(internal_node) => {
                     let queried_child_index = nibble_iter
@@ -982,13 +980,11 @@ where
         let mut internal_nodes = vec![];
 
         for nibble_depth in 0..=ROOT_NIBBLE_HEIGHT {
-            let next_node = self.reader.get_node(&next_node_key).map_err(|err| {
-                if nibble_depth == 0 {
-                    anyhow::anyhow!(MissingRootError { version })
-                } else {
-                    err
-                }
-            })?;
+            let next_node = match self.reader.get_node_option(&next_node_key)? {
+                Some(node) => node,
+                None if nibble_depth == 0 => bail!(MissingRootError { version }),
+                None => bail!("Missing node at {:?}.", next_node_key),
+            };
             match next_node {
                 Node::Internal(node) => {
                     internal_nodes.push(node.clone());
@@ -1166,13 +1162,11 @@ where
         };
 
         for nibble_depth in nibble_depth..=ROOT_NIBBLE_HEIGHT {
-            let node = self.reader.get_node(&node_key).map_err(|err| {
-                if nibble_depth == 0 {
-                    anyhow::anyhow!(MissingRootError { version })
-                } else {
-                    err
-                }
-            })?;
+            let node = match self.reader.get_node_option(&node_key)? {
+                Some(node) => node,
+                None if nibble_depth == 0 => bail!(MissingRootError { version }),
+                None => bail!("Missing node at {:?}.", node_key),
+            };
             match node {
                 Node::Internal(internal_node) => {
                     // Find the leftmost nibble in the children
-- 
2.43.0

