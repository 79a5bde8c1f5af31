From 0dff95981d4d2f4759554d658c7cb6673868f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 01/27] fix: index files could only be read from 8-byte aligned
 buffers

The chunks of the offset table were read in place with an alignment
requirement of 8 bytes, but layers start at arbitrary positions of an index
file: misaligned references, i.e. undefined behaviour, for almost every
loaded index with more than one layer.
---
 src/slice_vector/offsets.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/slice_vector/offsets.rs b/src/slice_vector/offsets.rs
index dd82d31..d42daf2 100644
--- a/src/slice_vector/offsets.rs
+++ b/src/slice_vector/offsets.rs
@@ -145,8 +145,9 @@ impl<'a, T: Clone> CompressedVariableWidthSliceVector<'a, T> {
     }
 }
 
-#[repr(C)]
-#[derive(Clone)]
+// packed, since chunks are read directly from (possibly unaligned) byte buffers
+#[repr(C, packed)]
+#[derive(Clone, Copy)]
 pub struct Chunk {
     initial: usize,
     deltas: [DeltaType; OFFSETS_PER_CHUNK],
@@ -163,7 +164,7 @@ impl Chunk {
     }
 
     fn len(self: &Self) -> usize {
-        self.deltas.iter().take_while(|&&x| x != UNUSED).count()
+        (0..OFFSETS_PER_CHUNK).take_while(|&i| self.deltas[i] != UNUSED).count()
     }
 
     fn is_empty(self: &Self) -> bool {
-- 
2.43.0


From 27dd2a15aafe4c68d720bfc9e3cfcdd734cc0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 02/27] fix: Vectors::from_bytes formed misaligned references

Loading f32 vectors from a byte slice that is not 4-byte aligned is
possible in safe code, but created a misaligned slice (undefined
behaviour). Such data is copied instead.
---
 src/io.rs               | 19 +++++++++++++++++++
 src/slice_vector/mod.rs | 17 ++++++++++-------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 49ecdee..833a824 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,3 +1,4 @@
+use std::borrow::Cow;
 use std::io::{Result, Write};
 
 /// Loads a slice of bytes as a slice of type T
@@ -8,6 +9,24 @@ pub unsafe fn load_bytes_as<T>(bytes: &[u8]) -> &[T] {
     elements
 }
 
+/// Loads a slice of bytes as a slice of type T, copying the data only if it is not aligned for T
+pub unsafe fn load_bytes_as_cow<T: Clone>(bytes: &[u8]) -> Cow<'_, [T]> {
+    if bytes.as_ptr() as usize % ::std::mem::align_of::<T>() == 0 {
+        return Cow::Borrowed(load_bytes_as(bytes));
+    }
+
+    let len = bytes.len() / ::std::mem::size_of::<T>();
+    let mut elements: Vec<T> = Vec::with_capacity(len);
+    ::std::ptr::copy_nonoverlapping(
+        bytes.as_ptr(),
+        elements.as_mut_ptr() as *mut u8,
+        len * ::std::mem::size_of::<T>(),
+    );
+    elements.set_len(len);
+
+    Cow::Owned(elements)
+}
+
 pub fn write_as_bytes<T, B: Write>(elements: &[T], buffer: &mut B) -> Result<usize> {
     let size = elements.len() * ::std::mem::size_of::<T>();
     let data = unsafe { ::std::slice::from_raw_parts(elements.as_ptr() as *const u8, size) };
diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index bfe6111..b11266b 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -121,11 +121,12 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     }
 
     pub fn from_bytes(buffer: &'a [u8]) -> Self {
-        let (data, width) = Self::load_mmap(buffer);
+        let width = Self::load_width(buffer);
+        let data: Cow<'a, [T]> = unsafe { crate::io::load_bytes_as_cow(&buffer[U64_LEN..]) };
 
         assert!(width > 0 && data.len() % width == 0);
 
-        Self::Memory(Cow::Borrowed(data), width)
+        Self::Memory(data, width)
     }
 
     /// Returns an iterator over all slices in `self`.
@@ -210,12 +211,14 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         }
     }
 
+    fn load_width(buffer: &[u8]) -> usize {
+        let mut buf = [0x0; U64_LEN];
+        buf.copy_from_slice(&buffer[..U64_LEN]);
+        u64::from_le_bytes(buf) as usize
+    }
+
     fn load_mmap(buffer: &[u8]) -> (&[T], usize) {
-        let width = {
-            let mut buf = [0x0; U64_LEN];
-            buf.copy_from_slice(&buffer[..U64_LEN]);
-            u64::from_le_bytes(buf) as usize
-        };
+        let width = Self::load_width(buffer);
 
         (unsafe { crate::io::load_bytes_as(&buffer[U64_LEN..]) }, width)
     }
-- 
2.43.0


From 85336e0ef3f1a3a7b660e2b51f2f6f5cfa5e65e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 03/27] fix: links added by another thread were lost when a
 node was initialized

Whether a node already had neighbors was checked before taking its write
lock, so that links made by another thread in between were overwritten (or,
with debug assertions, made the build panic).
---
 src/index/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 5370b1e..cc70fad 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -832,9 +832,7 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         }
 
         // if current node is empty, initialize it with the neighbors
-        if layer[idx].read()[0] == UNUSED {
-            Self::initialize_node(&layer[idx], &neighbors[..]);
-        } else {
+        if !Self::initialize_node(&layer[idx], &neighbors[..]) {
             for &(neighbor, d) in &neighbors {
                 Self::connect_nodes(elements, &layer[idx], idx, neighbor, d);
             }
@@ -882,16 +880,21 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         neighbors
     }
 
-    /// Sets neighbors for `node`.
-    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) {
-        debug_assert_eq!(&UNUSED, &node.read()[0]);
-
+    /// Sets neighbors for `node`, unless it already has some (e.g. added by another thread).
+    /// Returns whether the neighbors were set.
+    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) -> bool {
         // Write Lock!
         let mut node = node.write();
 
+        if node[0] != UNUSED {
+            return false;
+        }
+
         for (i, &(idx, _)) in neighbors.iter().enumerate().take(node.len()) {
             node[i] = NeighborId::try_from(idx).unwrap();
         }
+
+        true
     }
 
     /// Tries to add `j` as a neighbor to `i`. If the neighbor list is full, uses `select_neighbors`
-- 
2.43.0


From 99c20ced8c1605b1bd258bc259c410bd97a15625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 04/27] fix: errors when writing the last part of a file were
 ignored

The BufWriters were dropped without being flushed, which discards errors:
saving to e.g. a full disk reported success with data missing.
---
 src/elements/embeddings/parsing.rs | 4 ++++
 src/index/io.rs                    | 3 ++-
 src/index/rw/mod.rs                | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index d3550b4..9be05bd 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -43,6 +43,7 @@ pub fn parse_elements_and_save_to_disk(
     let mut file = BufWriter::new(file);
 
     elements.write(&mut file).expect("Failed to write elements to disk");
+    file.flush().expect("Failed to write elements to disk");
 
     elements.len()
 }
@@ -94,6 +95,7 @@ pub fn parse_elements_and_save_shards_to_disk(
         elements
             .write_range(&mut file, begin, end)
             .expect("Failed to write elements to disk");
+        file.flush().expect("Failed to write elements to disk");
     }
 
     elements.len()
@@ -149,6 +151,8 @@ pub fn compute_embeddings_and_save_to_disk(
             progress_bar.add(vectors.len() as u64);
         }
     }
+
+    file.flush().expect("Failed to write vectors to disk");
 }
 
 pub fn parse_elements_in_directory_or_file(
diff --git a/src/index/io.rs b/src/index/io.rs
index 242a6e1..d0eef1e 100644
--- a/src/index/io.rs
+++ b/src/index/io.rs
@@ -66,7 +66,8 @@ pub(super) fn write_index(layers: &Layers, buffer: impl Write + Seek) -> Result<
 
     buffer.write_all(metadata.as_slice())?;
 
-    Ok(())
+    // dropping the buffer would ignore errors
+    buffer.flush()
 }
 
 pub(super) fn load_layers(buffer: &'_ [u8]) -> Layers<'_> {
diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 5ce3ade..a6887e2 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -76,6 +76,7 @@ where
 
         let mut elements_file = BufWriter::new(elements_file);
         elements.write(&mut elements_file)?;
+        elements_file.flush()?;
 
         // this is safe because we have a write lock on self.write_lock, so no writes
         // can happen
-- 
2.43.0


From ffe494d7473da427cef314ca8c3d7554532a8ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 05/27] fix: reordering an index with fewer than two layers
 panicked

---
 src/index/reorder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index dfe9896..ea7b8ad 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -125,8 +125,12 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
     }
 
     fn compute_order(self: &mut Self, show_progress: bool) -> Vec<usize> {
+        if self.num_layers() == 0 {
+            return Vec::new();
+        }
+
         let mut order: Vec<usize> = (0..self.layer_len(0)).collect();
-        let mut order_inv = vec![0; self.layer_len(self.num_layers() - 2)];
+        let mut order_inv = vec![0; self.layer_len(self.num_layers().saturating_sub(2))];
 
         let start_time = time::Instant::now();
         let progress_bar = if show_progress {
-- 
2.43.0


From 017e094086ecd145c546c080121a58a0ca9273f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 06/27] fix: RwGranneBuilder::search found nothing while there
 was only one layer

---
 src/index/rw/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index a6887e2..5c83775 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -196,15 +196,18 @@ where
             &*elements,
         );
 
-        if let Some((entrypoint, _)) = index.search(&element, 1, 1).first() {
-            super::search_for_neighbors(current_layer.as_slice(), *entrypoint, &*elements, element, max_search)
-                .into_iter()
-                .take(num_neighbors)
-                .map(|(i, d)| (i, d.into_inner()))
-                .collect()
-        } else {
-            vec![]
+        if elements.is_empty() {
+            return vec![];
         }
+
+        // there might not be any layers above the current one
+        let entrypoint = index.search(&element, 1, 1).first().map_or(0, |r| r.0);
+
+        super::search_for_neighbors(current_layer.as_slice(), entrypoint, &*elements, element, max_search)
+            .into_iter()
+            .take(num_neighbors)
+            .map(|(i, d)| (i, d.into_inner()))
+            .collect()
     }
 
     pub fn get_elements(self: &Self) -> parking_lot::RwLockReadGuard<Elements> {
-- 
2.43.0


From f281287745b8d6519cb0ef702c10198a6426b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 07/27] fix: deadlock when saving while a batch spanning
 several layers is inserted

insert_batch acquires write_lock recursively. With a writer waiting in
between, both waited for each other forever.
---
 src/index/rw/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 5c83775..b10d3a0 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -106,8 +106,9 @@ where
             return vec![];
         }
 
-        // signal that writes will happen
-        let _guard = self.write_lock.read();
+        // signal that writes will happen (recursive, since the lock is already held when inserting
+        // remaining elements and a waiting writer must not block this)
+        let _guard = self.write_lock.read_recursive();
 
         let (mut inserted, remaining) = {
             // write locks are needed to append elements and potentially append a new layer
-- 
2.43.0


From 687241c4d0ebd029216332dd2f6e48a57e633ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 08/27] fix: RwGranneBuilder::insert could deadlock when called
 from a rayon worker

While waiting for its own pool inside another pool's worker, rayon executes
other jobs of that worker: if these insert into (or save) the same builder,
the thread waits for locks it holds itself.
---
 src/index/rw/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index b10d3a0..9f323b3 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -158,7 +158,9 @@ where
                 &*elements,
             );
 
-            if self.pool.current_num_threads() > 1 {
+            // a worker of another thread pool would execute other jobs while waiting for self.pool,
+            // which might try to acquire the locks that are held here
+            if self.pool.current_num_threads() > 1 && rayon::current_thread_index().is_none() {
                 self.pool.install(|| {
                     ids.par_iter().for_each(|id| {
                         GranneBuilder::index_element(&self.config, &*elements, &index, current_layer.as_slice(), *id)
-- 
2.43.0


From a057f4638688e4372b6d31904c307ff03494ecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 09/27] fix: inserts racing for the last free slot appended
 surplus layers

The capacity was only checked before acquiring the locks.
---
 src/index/rw/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 9f323b3..834ffd0 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -113,6 +113,10 @@ where
         let (mut inserted, remaining) = {
             // write locks are needed to append elements and potentially append a new layer
             let mut elements = self.elements.write();
+            if elements.len() >= self.max_elements {
+                // filled by another thread since the check above
+                return vec![];
+            }
             let mut layers = self.layers.write();
             let (ref mut current_layer, ref mut prev_layers) = *layers;
 
-- 
2.43.0


From db067815a1fa81e55567231e306aa731c4b332d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 10/27] fix: RwGranneBuilder could shrink a layer that is
 larger than planned

Happens for an index built with another layer multiplier and made the
insert panic.
---
 src/index/rw/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 834ffd0..5e368af 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -129,10 +129,13 @@ where
                     let mut new_layer = current_layer.clone();
                     prev_layers.push(current_layer);
 
-                    let num_elements_in_layer = compute_num_elements_in_layer(
-                        self.max_elements,
-                        self.config.layer_multiplier,
-                        prev_layers.len(),
+                    let num_elements_in_layer = cmp::max(
+                        new_layer.len(),
+                        compute_num_elements_in_layer(
+                            self.max_elements,
+                            self.config.layer_multiplier,
+                            prev_layers.len(),
+                        ),
                     );
 
                     new_layer.resize(num_elements_in_layer, UNUSED);
-- 
2.43.0


From 7d45c7dea51a7f1b393550db1195bbc35a8f7609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 11/27] fix: quantizing a zero vector divided by zero

With debug assertions creating an angular_int::Vector from zeros panicked.
---
 src/elements/angular_int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elements/angular_int.rs b/src/elements/angular_int.rs
index 5adef75..a50ad8c 100644
--- a/src/elements/angular_int.rs
+++ b/src/elements/angular_int.rs
@@ -30,6 +30,7 @@ impl Vector<'static> {
             .iter()
             .map(|s| NotNan::new(s.abs()).unwrap())
             .max()
+            .filter(|max_value| max_value.into_inner() > 0.0)
             .unwrap_or_else(|| NotNan::new(MAX_QVALUE).unwrap());
 
         let mut v = Vec::with_capacity(s.len());
-- 
2.43.0


From 14a4997af0f401756c9a6873aa1d332590d464e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 12/27] fix: returned number of bytes written did not include
 headers

---
 src/slice_vector/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index b11266b..03fbf78 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -464,8 +464,11 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         let (data, width) = self.load();
 
         buffer.write_all(&width.to_le_bytes())?;
+        let mut bytes_written = U64_LEN;
 
-        io::write_as_bytes(&data[..], buffer)
+        bytes_written += io::write_as_bytes(&data[..], buffer)?;
+
+        Ok(bytes_written)
     }
 }
 
@@ -582,12 +585,14 @@ where
         for &offset in &offsets[begin..=end] {
             let offset = usize::try_from(offset).unwrap();
             let offset = Offset::try_from(offset - offset_begin).unwrap();
-            io::write_as_bytes(&[offset], buffer)?;
+            bytes_written += io::write_as_bytes(&[offset], buffer)?;
         }
 
         let data_begin = usize::try_from(offsets[begin]).unwrap();
         let data_end = usize::try_from(offsets[end]).unwrap();
-        io::write_as_bytes(&data[data_begin..data_end], buffer)
+        bytes_written += io::write_as_bytes(&data[data_begin..data_end], buffer)?;
+
+        Ok(bytes_written)
     }
 
     pub fn get(self: &Self, idx: usize) -> &[T] {
-- 
2.43.0


From 51e2e9ad54be635633787c8c7858fc4d6d0de623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 13/27] fix: compute_embeddings_and_save_to_disk swapped its
 keyword arguments (python)

---
 py/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/src/lib.rs b/py/src/lib.rs
index 3696988..765cb53 100644
--- a/py/src/lib.rs
+++ b/py/src/lib.rs
@@ -46,8 +46,8 @@ py_module_initializer!(granne, initgranne, PyInit_granne, |py, m| {
         py_fn!(
             py,
             py_compute_embeddings_and_save_to_disk(
-                embeddings_path: String,
                 elements_path: String,
+                embeddings_path: String,
                 output_path: String,
                 show_progress: bool = true
             )
-- 
2.43.0


From 08832f6f614aff26e433731078ca926600ef0374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 14/27] fix: saving in shards panicked when there are more
 shards than needed

---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index 9be05bd..da66d7f 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -77,7 +77,7 @@ pub fn parse_elements_and_save_shards_to_disk(
     for shard in 0..num_shards {
         let output_path = get_shard_name(output_path, shard);
 
-        let begin = shard * shard_size;
+        let begin = std::cmp::min(shard * shard_size, elements.len());
         let end = std::cmp::min((shard + 1) * shard_size, elements.len());
         if show_progress {
             println!(
-- 
2.43.0


From e79340e62cfac8038f8bd570fef17930507783e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 15/27] fix: written empty collections of vectors could not be
 loaded

---
 src/slice_vector/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 03fbf78..51c4111 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -115,7 +115,8 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         // try to fail early
         let (data, width) = slice_vec.load();
 
-        assert!(width > 0 && data.len() % width == 0);
+        // the width is unspecified if nothing has been pushed
+        assert!(data.is_empty() || (width > 0 && data.len() % width == 0));
 
         Ok(slice_vec)
     }
@@ -124,7 +125,8 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         let width = Self::load_width(buffer);
         let data: Cow<'a, [T]> = unsafe { crate::io::load_bytes_as_cow(&buffer[U64_LEN..]) };
 
-        assert!(width > 0 && data.len() % width == 0);
+        // the width is unspecified if nothing has been pushed
+        assert!(data.is_empty() || (width > 0 && data.len() % width == 0));
 
         Self::Memory(data, width)
     }
-- 
2.43.0


From 96c43b7e5cbc66089ac7840b141067b78caaa7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 16/27] fix: extending vectors with an empty collection
 panicked

---
 src/slice_vector/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 51c4111..0d4da3f 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -182,6 +182,10 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         let (data, width) = self.load_mut();
         let (other_data, other_width) = other.load();
 
+        if other_data.is_empty() {
+            return;
+        }
+
         if *width == 0 {
             *width = other_width;
         }
-- 
2.43.0


From 8fba3d4a94dc9bc27f0fd50246867afea547db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 17/27] fix: only the first member of gzip files was read

Concatenated or block-wise compressed files (e.g. cat a.gz b.gz > c.gz) lost
all lines after the first member without any error.
---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index da66d7f..aae275e 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -181,7 +181,7 @@ pub fn parse_elements_in_directory_or_file(
             let query_file = File::open(&part).expect(&format!("Input file: {:?} not found", &part));
 
             let elements = if part.to_str().unwrap().ends_with(".gz") {
-                let query_file = flate2::read::GzDecoder::new(query_file);
+                let query_file = flate2::read::MultiGzDecoder::new(query_file);
                 parse_file(query_file, &word_ids)
             } else {
                 parse_file(query_file, &word_ids)
-- 
2.43.0


From 89510e80c5ed64dffbfb9fffe52c0e2de9fd4c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 18/27] fix: the largest component was often quantized to 126
 instead of 127

---
 src/elements/angular_int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elements/angular_int.rs b/src/elements/angular_int.rs
index a50ad8c..c3a4f74 100644
--- a/src/elements/angular_int.rs
+++ b/src/elements/angular_int.rs
@@ -36,7 +36,8 @@ impl Vector<'static> {
         let mut v = Vec::with_capacity(s.len());
 
         for x in s {
-            let vi = x * MAX_QVALUE / *max_value;
+            // dividing first maps the largest component to exactly +-MAX_QVALUE
+            let vi = x / *max_value * MAX_QVALUE;
             debug_assert!(-MAX_QVALUE - 0.0001 <= vi && vi <= MAX_QVALUE + 0.0001);
             v.push(vi as i8);
         }
-- 
2.43.0


From 223374cf3de244c503f295c72889e04d29a1ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 19/27] fix: permuting by something that is not a permutation
 could run forever

---
 src/slice_vector/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 0d4da3f..91032ee 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -456,6 +456,9 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
             let loop_begin = self.get(i).to_vec();
             let mut j = i;
             while permutation[j] != i {
+                // would never get back to i if an index occurs more than once
+                assert!(!visited[j], "Not a permutation");
+
                 let (to, from) = self.get_two_mut(j, permutation[j]);
                 to.clone_from_slice(from);
                 visited[j] = true;
-- 
2.43.0


From 79ea7aae48f183ded9840ba4df1542f3707f5b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 20/27] fix: Embeddings.append no longer keeps the word of an
 embedding it refuses

---
 py/src/embeddings.rs   | 11 +++++++----
 py/src/variants/mod.rs |  4 ++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/py/src/embeddings.rs b/py/src/embeddings.rs
index c0dc6bb..954182b 100644
--- a/py/src/embeddings.rs
+++ b/py/src/embeddings.rs
@@ -106,12 +106,15 @@ py_class!(pub class Embeddings |py| {
     ///     The word or label representing the vector
     ///
     def append(&self, embedding: Vec<f32>, word: String) -> PyResult<bool> {
-        let inserted = self.words(py).borrow_mut().push(word);
-        if inserted {
-            self.embeddings(py).borrow_mut().push_embedding(&embedding);
+        if self.words(py).borrow().contains(&word) {
+            return Ok(false);
         }
 
-        Ok(inserted)
+        // the embedding goes first: nothing is left behind if it is refused (wrong dimension)
+        self.embeddings(py).borrow_mut().push_embedding(&embedding);
+        self.words(py).borrow_mut().push(word);
+
+        Ok(true)
     }
 
     /// Saves the embeddings (vectors) and words/labels to disk.
diff --git a/py/src/variants/mod.rs b/py/src/variants/mod.rs
index 7cc8310..8fbf2d8 100644
--- a/py/src/variants/mod.rs
+++ b/py/src/variants/mod.rs
@@ -57,6 +57,10 @@ impl WordDict {
             .collect()
     }
 
+    pub fn contains(self: &Self, word: &str) -> bool {
+        self.word_to_id.contains_key(word)
+    }
+
     pub fn push(self: &mut Self, word: String) -> bool {
         match self.word_to_id.entry(word.clone()) {
             hash_map::Entry::Vacant(e) => e.insert(self.id_to_word.len()),
-- 
2.43.0


From 3bbb9141e92e5d61343fef472966dda24e734e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 21/27] fix: documented default of num_neighbors in the Python
 builder

---
 py/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/src/lib.rs b/py/src/lib.rs
index 765cb53..17f1925 100644
--- a/py/src/lib.rs
+++ b/py/src/lib.rs
@@ -370,7 +370,7 @@ py_class!(class GranneBuilder |py| {
     /// expected_num_elements: int
     ///     Needs to be used when building before all elements have been inserted into the builder.
     /// num_neighbors: int
-    ///     The maximum number of neighbors per node and layer (Default: 20).
+    ///     The maximum number of neighbors per node and layer (Default: 30).
     /// max_search: int
     ///     The `max_search` parameter used during build time (Default: 200).
     /// reinsert_elements: bool
-- 
2.43.0


From 65cada8a780e4521ec26bf42e3963dda9b610733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 22/27] fix: Embeddings.get_embedding took words that look like
 numbers for ids

---
 py/src/embeddings.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/src/embeddings.rs b/py/src/embeddings.rs
index 954182b..9f4d3bc 100644
--- a/py/src/embeddings.rs
+++ b/py/src/embeddings.rs
@@ -62,13 +62,13 @@ py_class!(pub class Embeddings |py| {
     /// Returns the (non-normalized) embedding for a word/sentence or id/list of ids.
     def get_embedding(&self, input: &PyObject) -> PyResult<Vec<f32>>
     {
-        let idxs: Vec<usize> = if let Ok(idx) = usize::extract(py, input) {
+        // strings first: a word such as "7" would also be accepted as a number
+        let idxs: Vec<usize> = if let Ok(words) = String::extract(py, input) {
+            self.words(py).borrow().get_word_ids(&words)
+        } else if let Ok(idx) = usize::extract(py, input) {
             vec![idx]
-        } else if let Ok(data) = Vec::<usize>::extract(py, input) {
-            data
         } else {
-            let words = String::extract(py, input)?;
-            self.words(py).borrow().get_word_ids(&words)
+            Vec::<usize>::extract(py, input)?
         };
 
         Ok(self.embeddings(py).borrow().create_embedding(&idxs))
-- 
2.43.0


From 7e4e5860129d3000413dc5cdc36b1fde60345319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:35 +0000
Subject: [PATCH 23/27] fix: neighbor lists longer than 255 were silently cut
 when saved

The number of neighbors is stored in one byte. Lists of exactly 255 failed a
debug assertion although they fit.
---
 src/slice_vector/set_vector.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/slice_vector/set_vector.rs b/src/slice_vector/set_vector.rs
index 80f3c31..c1ba9b2 100644
--- a/src/slice_vector/set_vector.rs
+++ b/src/slice_vector/set_vector.rs
@@ -1,7 +1,7 @@
 use super::{CompressedVariableWidthSliceVector, FixedWidthSliceVector, VariableWidthSliceVector};
 use crate::io::write_as_bytes;
 use std::convert::TryFrom;
-use std::io::{Read, Result, Seek, SeekFrom, Write};
+use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
 use stream_vbyte::{decode, encode, Scalar};
 
 #[derive(Clone)]
@@ -11,6 +11,9 @@ pub struct MultiSetVector<'a> {
 
 const MIN_NUMBERS_TO_ENCODE: usize = 4;
 
+// the number of numbers in a set is stored in one byte
+const MAX_NUMBERS_IN_SET: usize = u8::max_value() as usize;
+
 impl<'a> MultiSetVector<'a> {
     pub fn new() -> Self {
         Self {
@@ -115,10 +118,7 @@ fn decode_into(encoded_data: &[u8], decoded_nums: &mut Vec<u32>) {
 }
 
 fn set_encode(mut data: Vec<u32>) -> Vec<u8> {
-    debug_assert!(data.len() < u8::max_value() as usize);
-    if data.len() >= u8::max_value() as usize {
-        data.resize(u8::max_value() as usize, 0)
-    }
+    assert!(data.len() <= MAX_NUMBERS_IN_SET, "Too many numbers in set");
 
     delta_encode(&mut data);
     let count = data.len();
@@ -195,6 +195,10 @@ where
                     }
                 }
 
+                if slice_buffer.len() > MAX_NUMBERS_IN_SET {
+                    return Err(Error::new(ErrorKind::InvalidInput, "Too many numbers in set"));
+                }
+
                 slice_buffer.sort();
 
                 let encoded = set_encode(slice_buffer.clone());
-- 
2.43.0


From 8f0da1e528d202bf94d4bcf0e6c18c6a1b55f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 24/27] fix: automatic reordering ignored the top layer

The ids of the top layer were all mapped to zero, so that an index of two
layers was not reordered at all.
---
 src/index/reorder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index ea7b8ad..94a9f4c 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -130,7 +130,7 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
         }
 
         let mut order: Vec<usize> = (0..self.layer_len(0)).collect();
-        let mut order_inv = vec![0; self.layer_len(self.num_layers().saturating_sub(2))];
+        let mut order_inv: Vec<usize> = (0..self.layer_len(self.num_layers().saturating_sub(2))).collect();
 
         let start_time = time::Instant::now();
         let progress_bar = if show_progress {
-- 
2.43.0


From 526cb90ffbc08720e5211c649595f651818af9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:38 +0000
Subject: [PATCH 25/27] fix: reordering an index with fewer elements than its
 collection panics after replacing the links

---
 src/index/reorder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index 94a9f4c..704da18 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -66,13 +66,15 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
             println!("Reordering index...");
         }
 
-        self.layers = FileOrMemoryLayers::Memory(reorder_layers(&self.layers.load(), &order, show_progress));
+        let layers = reorder_layers(&self.layers.load(), &order, show_progress);
 
         if show_progress {
             println!("Reordering elements...");
         }
 
+        // refuses elements that are not part of the index, so the layers must not be replaced before
         self.elements.permute(&order);
+        self.layers = FileOrMemoryLayers::Memory(layers);
 
         if show_progress {
             println!("Reordered index and elements in {} s", start_time.elapsed().as_secs());
@@ -109,13 +111,15 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
             println!("Reordering index...");
         }
 
-        self.layers = FileOrMemoryLayers::Memory(reorder_layers(&self.layers.load(), &order, show_progress));
+        let layers = reorder_layers(&self.layers.load(), &order, show_progress);
 
         if show_progress {
             println!("Reordering elements...");
         }
 
+        // refuses elements that are not part of the index, so the layers must not be replaced before
         self.elements.permute(&order);
+        self.layers = FileOrMemoryLayers::Memory(layers);
 
         if show_progress {
             println!("Total time: {} s", start_time.elapsed().as_secs());
-- 
2.43.0


From 5a6f897266c2a5fd262e089f18ee067f44e3b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:22 +0000
Subject: [PATCH 26/27] fix: release builds return an element for an index out
 of bounds if the collection is empty or the position wraps around

---
 src/slice_vector/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 91032ee..73a041d 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -356,10 +356,8 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     {
         let (data, width) = self.load();
 
-        debug_assert!(idx < self.len());
-
-        let begin = idx * width;
-        let end = (idx + 1) * width;
+        let begin = Self::begin(idx, width);
+        let end = begin + width;
 
         &data[begin..end]
     }
@@ -368,16 +366,22 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     where
         'a: 'b,
     {
-        debug_assert!(idx < self.len());
-
         let (data, width) = self.load_mut();
 
-        let begin = idx * *width;
+        let begin = Self::begin(idx, *width);
         let end = begin + *width;
 
         &mut data[begin..end]
     }
 
+    /// The position in the data of the slice at `idx`. The range check of the data can only refuse
+    /// an invalid `idx` if slices are not empty and the position does not wrap around.
+    fn begin(idx: usize, width: usize) -> usize {
+        assert!(width > 0, "Index out of bounds");
+
+        idx.checked_mul(width).expect("Index out of bounds")
+    }
+
     fn get_two_mut<'b>(self: &'b mut Self, idx0: usize, idx1: usize) -> (&'b mut [T], &'b mut [T])
     where
         'a: 'b,
-- 
2.43.0


From 749d2c9d251c5418f96b8701ddd386e81cfd0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:58 +0000
Subject: [PATCH 27/27] fix: saving could wait forever while several threads
 keep inserting

---
 src/index/rw/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 5e368af..2c1a018 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -101,15 +101,19 @@ where
         self.insert_batch(vec![element]).pop()
     }
 
-    pub fn insert_batch(self: &Self, mut elements_to_insert: Vec<Elements::InternalElement>) -> Vec<usize> {
+    pub fn insert_batch(self: &Self, elements_to_insert: Vec<Elements::InternalElement>) -> Vec<usize> {
         if self.elements.read().len() >= self.max_elements {
             return vec![];
         }
 
-        // signal that writes will happen (recursive, since the lock is already held when inserting
-        // remaining elements and a waiting writer must not block this)
-        let _guard = self.write_lock.read_recursive();
+        // signal that writes will happen
+        let _guard = self.write_lock.read();
 
+        self.insert_batch_internal(elements_to_insert)
+    }
+
+    /// Inserts a batch while `self.write_lock` is held by the caller.
+    fn insert_batch_internal(self: &Self, mut elements_to_insert: Vec<Elements::InternalElement>) -> Vec<usize> {
         let (mut inserted, remaining) = {
             // write locks are needed to append elements and potentially append a new layer
             let mut elements = self.elements.write();
@@ -185,7 +189,7 @@ where
         };
 
         if !remaining.is_empty() {
-            let ids = self.insert_batch(remaining);
+            let ids = self.insert_batch_internal(remaining);
             inserted.extend(ids.into_iter());
         }
 
-- 
2.43.0

