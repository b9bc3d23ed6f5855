From 633b95f960e7c74390159f180c00581722331f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 1/4] fix: do not print to stdout from collision and distance
 queries

The two solvers used println!, which pollutes the output of the host program
and panics when its standard output is closed or broken. Use trace! like the
other solver modes.
---
 src/col2d/shape/local_minkowski_diff/v.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 4be036a..ce1ca96 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -17,7 +17,7 @@ where
     T: Transformation2d,
 {
     fn sdfv_minkowski(&self) -> (bool, Vec2) {
-        println!("[ GJK (collision only)]");
+        trace!("[ GJK (collision only)]");
         let mut direction = self.initial_direction();
         trace!("initial direction: {}", direction);
         let mut simplex = Simplex2d::new();
@@ -60,7 +60,7 @@ where
     T: Transformation2d,
 {
     fn sdfv_minkowski(&self) -> (bool, Vec2) {
-        println!("[ GJK (distance only)]");
+        trace!("[ GJK (distance only)]");
         let mut direction = self.initial_direction();
         let mut simplex = Simplex2d::new();
         let iteration_limit = 20;
-- 
2.43.0


From 689dbc0ce3e96ead586cd8d101b480d95a231740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 2/4] fix: report exactly the changes made by
 Tilemap::remove_tile

Removing a tile from a chunk that does not exist recorded a ChunkRemoved event
for it, and removing a tile from a chunk that stays recorded nothing, so an
observer of the events ended up with a stale copy.
---
 src/col2d/shape/tilemap.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/tilemap.rs b/src/col2d/shape/tilemap.rs
index 12e5cd4..eca3ca3 100644
--- a/src/col2d/shape/tilemap.rs
+++ b/src/col2d/shape/tilemap.rs
@@ -108,11 +108,16 @@ impl Tilemap {
 
     pub fn remove_tile(&mut self, pos: V2i32) {
         let (chunk_pos, local) = pos.modular_decompose(CHUNK_SIZE);
-        let chunk = self.chunks.entry(chunk_pos).or_default();
+        let Some(chunk) = self.chunks.get_mut(&chunk_pos) else {
+            return;
+        };
+        let changed = chunk.array2d.get(local).is_some_and(|x| x != &0);
         chunk.array2d.set(local, 0);
         if chunk.array2d.data.iter().all(|x| x == &0) {
             self.events.notify(TilemapEvent::ChunkRemoved(chunk_pos));
             self.chunks.remove(&chunk_pos);
+        } else if changed {
+            self.events.notify(TilemapEvent::ChunkChanged(chunk_pos));
         }
     }
 
-- 
2.43.0


From 664550982f6e022eb5254037aced31d542e45e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 3/4] fix: keep the previous file intact when Tilemap::save
 fails or is interrupted

save() truncated the destination before writing, so a full disk, an I/O error, a
crash or a power cut during the save destroyed the previous save. Write to a
temporary file, sync it and rename it over the destination.
---
 src/col2d/shape/tilemap.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/col2d/shape/tilemap.rs b/src/col2d/shape/tilemap.rs
index eca3ca3..40a7fc4 100644
--- a/src/col2d/shape/tilemap.rs
+++ b/src/col2d/shape/tilemap.rs
@@ -1,4 +1,5 @@
 use std::io::{BufReader, BufWriter, Write};
+use std::sync::atomic::{AtomicU64, Ordering};
 
 use lk_math::arraynd::Array2d;
 use lk_math::modular::ModularDecompose;
@@ -217,10 +218,26 @@ impl<T: Transformation2d> SdfvCommonRel2d<true, false, Point, T> for Tilemap {
 
 impl Tilemap {
     pub fn save(&self, filename: &'static str) -> std::io::Result<()> {
+        // Write to a file of our own next to the destination and rename it once it is complete and
+        // on disk, so that a crash or an error never damages what was saved there before.
+        static SAVES: AtomicU64 = AtomicU64::new(0);
+        let n = SAVES.fetch_add(1, Ordering::Relaxed);
+        let temporary = format!("{filename}.{}-{n}.tmp", std::process::id());
+        let result = self
+            .write_file(&temporary)
+            .and_then(|()| std::fs::rename(&temporary, filename));
+        if result.is_err() {
+            let _ = std::fs::remove_file(&temporary);
+        }
+        result
+    }
+
+    fn write_file(&self, filename: &str) -> std::io::Result<()> {
         let file = std::fs::File::create(filename)?;
         let mut writer = BufWriter::new(file);
         let serialized = serde_json::to_writer(&mut writer, self)?;
         writer.flush()?;
+        writer.get_ref().sync_all()?;
         Ok(())
     }
 
-- 
2.43.0


From 9621c7f6724f830d6e17aaf89fd6ae9fafa7b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 4/4] fix: reject damaged chunks when loading a Tilemap

A stored chunk with wrong dimensions, strides or too little data was accepted
and made later tile operations panic or silently ignore writes.
---
 src/col2d/shape/tilemap.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/col2d/shape/tilemap.rs b/src/col2d/shape/tilemap.rs
index 40a7fc4..415eba9 100644
--- a/src/col2d/shape/tilemap.rs
+++ b/src/col2d/shape/tilemap.rs
@@ -40,9 +40,25 @@ pub struct Tilemap {
 
 #[derive(Debug, Serialize, Deserialize)]
 pub struct Chunk {
+    #[serde(deserialize_with = "deserialize_chunk_array")]
     pub array2d: Array2d<u8>,
 }
 
+/// Rejects arrays that do not have the shape of a chunk, whose tiles could not be accessed.
+fn deserialize_chunk_array<'de, D: serde::Deserializer<'de>>(
+    deserializer: D,
+) -> Result<Array2d<u8>, D::Error> {
+    let array = Array2d::<u8>::deserialize(deserializer)?;
+    let expected = Chunk::default().array2d;
+    if array.dims != expected.dims
+        || array.dim_strides != expected.dim_strides
+        || array.data.len() != expected.data.len()
+    {
+        return Err(serde::de::Error::custom("malformed tilemap chunk"));
+    }
+    Ok(array)
+}
+
 impl Default for Chunk {
     fn default() -> Self {
         Self {
-- 
2.43.0

