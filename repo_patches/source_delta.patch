From f7201ef021fa28c8d7f9ff6c1d1a380d6c756193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:02 +0000
Subject: [PATCH 01/53] fix: restore a corpus from its backup to the current
 folder instead of a nested one

---
 core/src/graph/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 5d1f277..bd07bdc 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -313,7 +313,8 @@ impl<CT: ComponentType> Graph<CT> {
 
         if load_from_backup {
             // save the current corpus under the actual location
-            self.save_to(&location.join("current"))?;
+            self.ensure_loaded_all()?;
+            self.internal_save(&location.join("current"))?;
             // rename backup folder (renaming is atomic and deleting could leave an incomplete backup folder on disk)
             let tmp_dir = tempfile::Builder::new()
                 .prefix("temporary-graphannis-backup")
-- 
2.43.0


From 31487da9d5312e8ef45d6eb2cf5947a73103adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:33 +0000
Subject: [PATCH 02/53] fix: write disk maps to a temporary file first, so a
 map can be saved over its own file

---
 core/src/util/disk_collections.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/core/src/util/disk_collections.rs b/core/src/util/disk_collections.rs
index e1b1996..111f7ad 100644
--- a/core/src/util/disk_collections.rs
+++ b/core/src/util/disk_collections.rs
@@ -306,17 +306,15 @@ where
 
     pub fn write_to(&self, location: &Path) -> Result<()> {
         // Make sure the parent directory exist
-        if let Some(parent) = location.parent() {
-            std::fs::create_dir_all(parent)?;
-        }
-        // Open file as writable
-        let out_file = std::fs::OpenOptions::new()
-            .write(true)
-            .read(true)
-            .create(true)
-            .truncate(true)
-            .open(location)?;
-        let mut builder = TableBuilder::new(custom_options(self.block_cache_capacity), out_file);
+        let parent = location.parent().unwrap_or(Path::new(""));
+        std::fs::create_dir_all(parent)?;
+        // Write to a temporary file first: the map itself might still read its
+        // entries from an existing file at this location.
+        let out_file = tempfile::NamedTempFile::new_in(parent)?;
+        let mut builder = TableBuilder::new(
+            custom_options(self.block_cache_capacity),
+            out_file.reopen()?,
+        );
         for entry in self.iter()? {
             let (key, value) = entry?;
             let key = key.create_key();
@@ -324,6 +322,7 @@ where
             builder.add(&key, &self.serialization.serialize(&value)?)?;
         }
         builder.finish()?;
+        out_file.persist(location)?;
 
         Ok(())
     }
-- 
2.43.0


From 78987553750abab73aafedacf281cea16fa78738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:33 +0000
Subject: [PATCH 03/53] fix: always save disk path storages, the old location
 might have been moved to the backup

---
 core/src/graph/storage/disk_path.rs | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index a5a668c..01bc694 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -1,9 +1,6 @@
 use itertools::Itertools;
 use memmap2::{Mmap, MmapMut};
-use normpath::PathExt;
-use std::{
-    collections::HashSet, convert::TryInto, fs::File, io::BufReader, ops::Bound, path::PathBuf,
-};
+use std::{collections::HashSet, convert::TryInto, fs::File, io::BufReader, ops::Bound};
 use tempfile::tempfile;
 use transient_btree_index::BtreeConfig;
 
@@ -38,7 +35,6 @@ pub struct DiskPathStorage {
     inverse_edges: DiskMap<Edge, bool>,
     annos: AnnoStorageImpl<Edge>,
     stats: Option<GraphStatistic>,
-    location: Option<PathBuf>,
 }
 
 fn offset_in_file(n: NodeID) -> u64 {
@@ -56,7 +52,6 @@ impl DiskPathStorage {
             paths,
             paths_file_size: 0,
             inverse_edges: DiskMap::default(),
-            location: None,
             annos: AnnoStorageImpl::new(None)?,
             stats: None,
         })
@@ -382,28 +377,18 @@ impl GraphStorage for DiskPathStorage {
             inverse_edges,
             annos,
             stats,
-            location: Some(location.to_path_buf()),
         })
     }
 
     fn save_to(&self, location: &std::path::Path) -> Result<()> {
-        // Make sure the output location exists before trying to normalize the paths
+        // Make sure the output location exists
         std::fs::create_dir_all(location)?;
-        // Normalize all paths to check if they are the same
-        let new_location = location.normalize()?;
-        if let Some(old_location) = &self.location {
-            let old_location = old_location.normalize()?;
-            if new_location == old_location {
-                // This is an immutable graph storage so there can't be any
-                // changes to write to the existing location we already use.
-                return Ok(());
-            }
-        }
-        // Copy the current paths file to the new location
-        let new_paths_file = new_location.join("paths.bin");
-        let mut new_paths = File::create(new_paths_file)?;
+        // Copy the current paths to a temporary file and move it to its final
+        // name, since the paths might be mapped from an existing file with this name
+        let mut new_paths = tempfile::NamedTempFile::new_in(location)?;
         let mut old_reader = BufReader::new(&self.paths[..]);
         std::io::copy(&mut old_reader, &mut new_paths)?;
+        new_paths.persist(location.join("paths.bin"))?;
 
         // Copy the inverse edges map to the new location
         self.inverse_edges
-- 
2.43.0


From 41a4714700a477371f7fe5ff65eba2568e4ab8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 04/53] fix: restore the last state from disk when the update
 log could not be written

---
 core/src/graph/mod.rs | 54 ++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index bd07bdc..d1d416c 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -694,40 +694,46 @@ impl<CT: ComponentType> Graph<CT> {
     where
         F: Fn(&str),
     {
+        let mut result = apply_update_result;
         if let Some(location) = self.location.clone() {
             trace!("output location for persisting updates is {:?}", location);
-            if apply_update_result.is_ok() {
-                let current_path = location.join("current");
-                // make sure the output path exits
-                std::fs::create_dir_all(&current_path)?;
-
-                // If successfull write log
-                let log_path = current_path.join("update_log.bin");
-
-                // Create a temporary directory in the same file system as the output
-                let temporary_dir = tempfile::tempdir_in(&current_path)?;
-                let mut temporary_disk_file = tempfile::NamedTempFile::new_in(&temporary_dir)?;
-
-                debug!("writing WAL update log to {:?}", temporary_disk_file.path());
-                bincode::serialize_into(temporary_disk_file.as_file(), &u)?;
-                temporary_disk_file.flush()?;
-                debug!("moving finished WAL update log to {:?}", &log_path);
-                // Since the temporary file should be on the same file system, persisting/moving it should be an atomic operation
-                temporary_disk_file.persist(&log_path)?;
-
+            if result.is_ok() {
+                result = self.write_update_log(u, &location);
+            }
+            if result.is_ok() {
                 progress_callback("finished writing WAL update log");
             } else {
-                trace!(
-                    "error occured while applying updates: {:?}",
-                    &apply_update_result
-                );
+                trace!("error occured while applying updates: {:?}", &result);
                 // load corpus from disk again
                 self.open(&location)?;
                 self.ensure_loaded_all()?;
             }
         }
 
-        apply_update_result
+        result
+    }
+
+    /// Write the update to the write-ahead-log of the corpus at the given location.
+    fn write_update_log(&self, u: &GraphUpdate, location: &Path) -> Result<()> {
+        let current_path = location.join("current");
+        // make sure the output path exits
+        std::fs::create_dir_all(&current_path)?;
+
+        // If successfull write log
+        let log_path = current_path.join("update_log.bin");
+
+        // Create a temporary directory in the same file system as the output
+        let temporary_dir = tempfile::tempdir_in(&current_path)?;
+        let mut temporary_disk_file = tempfile::NamedTempFile::new_in(&temporary_dir)?;
+
+        debug!("writing WAL update log to {:?}", temporary_disk_file.path());
+        bincode::serialize_into(temporary_disk_file.as_file(), u)?;
+        temporary_disk_file.flush()?;
+        debug!("moving finished WAL update log to {:?}", &log_path);
+        // Since the temporary file should be on the same file system, persisting/moving it should be an atomic operation
+        temporary_disk_file.persist(&log_path)?;
+
+        Ok(())
     }
 
     /// A function to persist the changes of a write-ahead-log update on the disk. Should be run in a background thread.
-- 
2.43.0


From 66d1acf511c8983d421d162eb3fae6790feda32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:51 +0000
Subject: [PATCH 05/53] fix: keep updates of an existing update log when
 applying another update

---
 core/src/graph/mod.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index d1d416c..565a182 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -714,16 +714,37 @@ impl<CT: ComponentType> Graph<CT> {
     }
 
     /// Write the update to the write-ahead-log of the corpus at the given location.
+    /// If there is already a log with updates that have not been saved yet, it is extended.
     fn write_update_log(&self, u: &GraphUpdate, location: &Path) -> Result<()> {
-        let current_path = location.join("current");
+        // The log must be part of the folder that is loaded the next time: the
+        // current one is incomplete as long as there is a backup.
+        let backup_path = location.join("backup");
+        let log_dir = if backup_path.is_dir() {
+            backup_path
+        } else {
+            location.join("current")
+        };
         // make sure the output path exits
-        std::fs::create_dir_all(&current_path)?;
+        std::fs::create_dir_all(&log_dir)?;
+
+        let log_path = log_dir.join("update_log.bin");
 
-        // If successfull write log
-        let log_path = current_path.join("update_log.bin");
+        // Do not lose any earlier updates which are only stored in the log
+        let extended_update = if log_path.is_file() {
+            let log_reader = std::fs::File::open(&log_path)?;
+            let mut all_updates: GraphUpdate = bincode::deserialize_from(log_reader)?;
+            for entry in u.iter()? {
+                let (_, event) = entry?;
+                all_updates.add_event(event)?;
+            }
+            Some(all_updates)
+        } else {
+            None
+        };
+        let u = extended_update.as_ref().unwrap_or(u);
 
         // Create a temporary directory in the same file system as the output
-        let temporary_dir = tempfile::tempdir_in(&current_path)?;
+        let temporary_dir = tempfile::tempdir_in(&log_dir)?;
         let mut temporary_disk_file = tempfile::NamedTempFile::new_in(&temporary_dir)?;
 
         debug!("writing WAL update log to {:?}", temporary_disk_file.path());
-- 
2.43.0


From 414afd39a811f8cd717df212651904284a63f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 06/53] fix: report background workers as finished even if they
 fail

---
 graphannis/src/annis/db/corpusstorage.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 840222f..ec694e3 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2771,10 +2771,27 @@ fn create_lockfile_for_directory(db_dir: &Path) -> Result<File> {
     Ok(lock_file)
 }
 
+/// Reports a background worker as finished when it is dropped, even if the worker failed.
+struct BackgroundWorkerGuard {
+    active_background_workers: Arc<(Mutex<usize>, Condvar)>,
+}
+
+impl Drop for BackgroundWorkerGuard {
+    fn drop(&mut self) {
+        let (lock, cvar) = &*self.active_background_workers;
+        let mut nr_active_background_workers = lock.lock().unwrap_or_else(|e| e.into_inner());
+        *nr_active_background_workers -= 1;
+        cvar.notify_all();
+    }
+}
+
 fn sync_wal_updates_in_background(
     db_entry: Arc<RwLock<CacheEntry>>,
     active_background_workers: Arc<(Mutex<usize>, Condvar)>,
 ) -> Result<()> {
+    let _worker = BackgroundWorkerGuard {
+        active_background_workers,
+    };
     trace!("Starting background thread to sync WAL updates");
     let lock = db_entry.read()?;
     if let Ok(db) = get_read_or_error(&lock) {
@@ -2785,9 +2802,5 @@ fn sync_wal_updates_in_background(
             trace!("Finished background thread to sync WAL updates");
         }
     }
-    let (lock, cvar) = &*active_background_workers;
-    let mut nr_active_background_workers = lock.lock()?;
-    *nr_active_background_workers -= 1;
-    cvar.notify_all();
     Ok(())
 }
-- 
2.43.0


From a578ad4b060d5399c8849a05d9c844f68bbeba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:52 +0000
Subject: [PATCH 07/53] fix: report errors when saving an imported corpus

---
 graphannis/src/annis/db/corpusstorage.rs | 36 +++++++-----------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index ec694e3..7036555 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -972,13 +972,7 @@ impl CorpusStorage {
             }
         };
 
-        let r = graph.ensure_loaded_all();
-        if let Err(e) = r {
-            error!(
-                "Some error occurred when attempting to load components from disk: {:?}",
-                e
-            );
-        }
+        graph.ensure_loaded_all()?;
 
         self.update_corpus_size_info(&mut config, &graph);
 
@@ -1002,22 +996,19 @@ impl CorpusStorage {
                 .map(|db_entry| db_entry.write())
                 .transpose()?;
 
-            if db_path.is_dir()
-                && let Err(e) = std::fs::remove_dir_all(&db_path)
-            {
-                error!("Error when removing existing files {}", e);
+            if db_path.is_dir() {
+                std::fs::remove_dir_all(&db_path).map_err(|e| {
+                    CorpusStorageError::RemoveFileForCorpus {
+                        corpus: corpus_name.to_string(),
+                        source: e,
+                    }
+                })?;
             }
         } else if cache.contains_key(&corpus_name) || db_path.is_dir() {
             return Err(GraphAnnisError::CorpusExists(corpus_name.to_string()));
         }
 
-        if let Err(e) = std::fs::create_dir_all(&db_path) {
-            error!(
-                "Can't create directory {}: {:?}",
-                db_path.to_string_lossy(),
-                e
-            );
-        }
+        std::fs::create_dir_all(&db_path)?;
 
         info!("Copying linked files for corpus {}", corpus_name);
         let current_dir = PathBuf::from(".");
@@ -1031,14 +1022,7 @@ impl CorpusStorage {
 
         // save to its location
         info!("Saving corpus {} to disk", corpus_name);
-        let save_result = graph.save_to(&db_path);
-        if let Err(e) = save_result {
-            error!(
-                "Can't save corpus to {}: {:?}",
-                db_path.to_string_lossy(),
-                e
-            );
-        }
+        graph.save_to(&db_path)?;
 
         // Use the imported/generated/default corpus configuration and store it in our graph directory
         let corpus_config_path = db_path.join("corpus-config.toml");
-- 
2.43.0


From f41371c9b2ed9c7c70953bbd363daae74fdb45a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:54 +0000
Subject: [PATCH 08/53] fix: report an error if the corpora can not be listed

---
 graphannis/src/annis/db/corpusstorage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 7036555..aec2c9a 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -469,7 +469,7 @@ impl CorpusStorage {
 
     /// List  all available corpora in the corpus storage.
     pub fn list(&self) -> Result<Vec<CorpusInfo>> {
-        let names: Vec<String> = self.list_from_disk().unwrap_or_default();
+        let names: Vec<String> = self.list_from_disk()?;
         let mut result: Vec<CorpusInfo> = vec![];
 
         for n in names {
-- 
2.43.0


From 82cea77f4436e16a4ee63ad167231f9a6f663f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:57 +0000
Subject: [PATCH 09/53] fix: do not load a corpus twice if it is requested
 concurrently

---
 graphannis/src/annis/db/corpusstorage.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index aec2c9a..7685f70 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -700,6 +700,13 @@ impl CorpusStorage {
             Ok(cache_entry)
         } else {
             let mut cache_lock = self.corpus_cache.write()?;
+            // The corpus might have been loaded while waiting for the lock, do
+            // not load it a second time.
+            if let Some(cache_entry) = cache_lock.get(corpus_name)
+                && matches!(&*cache_entry.read()?, CacheEntry::Loaded(_))
+            {
+                return Ok(cache_entry.clone());
+            }
             self.load_entry_with_lock(
                 &mut cache_lock,
                 corpus_name,
-- 
2.43.0


From 379a1442b8fc380172d82fa248360b5424dea978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:01 +0000
Subject: [PATCH 10/53] fix: do not add non-existing corpora to the cache when
 they are requested

---
 graphannis/src/annis/db/corpusstorage.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 7685f70..9527f81 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -617,6 +617,13 @@ impl CorpusStorage {
         let mut cache_lock = self.corpus_cache.write()?;
         let cache = &mut *cache_lock;
 
+        // do not remember an entry for a corpus that does not exist
+        if !cache.contains_key(&corpus_name)
+            && !self.corpus_directory_on_disk(&corpus_name).is_dir()
+        {
+            return Ok(Arc::new(RwLock::new(CacheEntry::NotLoaded)));
+        }
+
         let entry = cache
             .entry(corpus_name)
             .or_insert_with(|| Arc::new(RwLock::new(CacheEntry::NotLoaded)));
-- 
2.43.0


From fcd8f8ab4f41024cee50d20d819ff96ce597393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:41 +0000
Subject: [PATCH 11/53] fix: do not remove corpora from the cache while they
 are used

---
 graphannis/src/annis/db/corpusstorage.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 9527f81..c568f0d 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2651,7 +2651,11 @@ fn check_cache_size_and_remove_with_cache(
     let all_corpus_names: Vec<String> = cache.keys().cloned().collect();
     let mut removed = false;
     for corpus_name in all_corpus_names {
-        let corpus_is_loaded = if let Some(cache_entry) = cache.get(&corpus_name) {
+        // Entries which are still used, e.g. by a query or a background writer,
+        // must not be removed: the corpus would be loaded a second time otherwise.
+        let corpus_is_loaded = if let Some(cache_entry) = cache.get(&corpus_name)
+            && Arc::strong_count(cache_entry) == 1
+        {
             matches!(*cache_entry.read()?, CacheEntry::Loaded(_))
         } else {
             false
-- 
2.43.0


From 0c20ba1da11bd3bda3384bacf6b2fbf7a171f25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 12/53] fix: wait for running operations before unloading a
 corpus

---
 graphannis/src/annis/db/corpusstorage.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index c568f0d..4efca9e 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1506,6 +1506,11 @@ impl CorpusStorage {
     pub fn unload(&self, corpus_name: &str) -> Result<()> {
         let mut cache_lock = self.corpus_cache.write()?;
         let cache = &mut *cache_lock;
+        if let Some(db_entry) = cache.get(corpus_name).cloned() {
+            // Wait for all other users of this corpus and detach its data, so
+            // background writers or updates do not use it any longer
+            *db_entry.write()? = CacheEntry::NotLoaded;
+        }
         cache.remove(corpus_name);
         Ok(())
     }
-- 
2.43.0


From 630e7d4719964904477e3db92f06e002030df601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:11 +0000
Subject: [PATCH 13/53] fix: pending background writers must not write files of
 a deleted or replaced corpus

---
 graphannis/src/annis/db/corpusstorage.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 4efca9e..1127cd0 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1005,10 +1005,14 @@ impl CorpusStorage {
 
             // if there is a cache entry, acquire an exclusive lock for it because
             // other queries or background writers might still have access to it and need to finish first
-            let _lock = old_entry
+            let mut lock = old_entry
                 .as_ref()
                 .map(|db_entry| db_entry.write())
                 .transpose()?;
+            // detach the data, so pending background writers can't overwrite the new files
+            if let Some(lock) = &mut lock {
+                **lock = CacheEntry::NotLoaded;
+            }
 
             if db_path.is_dir() {
                 std::fs::remove_dir_all(&db_path).map_err(|e| {
@@ -1366,10 +1370,14 @@ impl CorpusStorage {
 
         // if there is a cache entry, acquire an exclusive lock for it because
         // other queries or background writers might still have access to it and need to finish first
-        let _lock = db_entry
+        let mut lock = db_entry
             .as_ref()
             .map(|db_entry| db_entry.write())
             .transpose()?;
+        // detach the data, so pending background writers can't restore the deleted files
+        if let Some(lock) = &mut lock {
+            **lock = CacheEntry::NotLoaded;
+        }
 
         if db_path.is_dir() {
             std::fs::remove_dir_all(db_path).map_err(|e| {
-- 
2.43.0


From a52a1ad1242cfd27adf52af5e9fea0dc71896311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:37 +0000
Subject: [PATCH 14/53] fix: never give up the directory lock for two owners at
 the same time

---
 graphannis/src/annis/db/corpusstorage.rs | 90 +++++++++++++++---------
 1 file changed, 56 insertions(+), 34 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 1127cd0..a102077 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2584,27 +2584,30 @@ impl Drop for CorpusStorage {
             nr_active_background_workers = cvar.wait(nr_active_background_workers).unwrap();
         }
 
+        // Delete the lock file. This helps in case
+        // different users have acess to the corpus directory. The first
+        // user owns the lock file and closes the CLI/web service. The
+        // second user could take over the lock, but can't if the lock file
+        // still exists and is owned by the previous user. An example
+        // workflow is having a system user for the web service and
+        // occasionally adding new corpora on the command line using an
+        // administration account (see
+        // https://github.com/korpling/graphANNIS/issues/230).
+        // The file is deleted before it is unlocked: it might already belong to
+        // another process afterwards.
+        let lock_file_path = self.db_dir.join(DB_LOCK_FILE_NAME);
+        if lock_file_path.exists()
+            && lock_file_path.is_file()
+            && let Err(e) = std::fs::remove_file(lock_file_path)
+        {
+            warn!("Could not remove CorpusStorage lock file: {:?}", e);
+        }
+
         // unlock lock file
         if let Err(e) = FileExt::unlock(&self.lock_file) {
             warn!("Could not unlock CorpusStorage lock file: {:?}", e);
         } else {
             trace!("Unlocked CorpusStorage lock file");
-            // Delete the file after it has been unlocked. This helps in case
-            // different users have acess to the corpus directory. The first
-            // user owns the lock file and closes the CLI/web service. The
-            // second user could take over the lock, but can't if the lock file
-            // still exists and is owned by the previous user. An example
-            // workflow is having a system user for the web service and
-            // occasionally adding new corpora on the command line using an
-            // administration account (see
-            // https://github.com/korpling/graphANNIS/issues/230).
-            let lock_file_path = self.db_dir.join(DB_LOCK_FILE_NAME);
-            if lock_file_path.exists()
-                && lock_file_path.is_file()
-                && let Err(e) = std::fs::remove_file(lock_file_path)
-            {
-                warn!("Could not remove CorpusStorage lock file: {:?}", e);
-            }
         }
     }
 }
@@ -2765,25 +2768,44 @@ fn create_lockfile_for_directory(db_dir: &Path) -> Result<File> {
         source: e,
     })?;
     let lock_file_path = db_dir.join(DB_LOCK_FILE_NAME);
-    // check if we can get the file lock
-    let lock_file = OpenOptions::new()
-        .read(true)
-        .write(true)
-        .create(true)
-        .truncate(true)
-        .open(lock_file_path.as_path())
-        .map_err(|e| CorpusStorageError::LockCorpusDirectory {
-            path: db_dir.to_string_lossy().to_string(),
-            source: e,
-        })?;
-    lock_file
-        .try_lock_exclusive()
-        .map_err(|e| CorpusStorageError::LockCorpusDirectory {
-            path: db_dir.to_string_lossy().to_string(),
-            source: e,
-        })?;
+    let map_lock_error = |e| CorpusStorageError::LockCorpusDirectory {
+        path: db_dir.to_string_lossy().to_string(),
+        source: e,
+    };
+    loop {
+        // check if we can get the file lock
+        let lock_file = OpenOptions::new()
+            .read(true)
+            .write(true)
+            .create(true)
+            .truncate(true)
+            .open(lock_file_path.as_path())
+            .map_err(map_lock_error)?;
+        lock_file.try_lock_exclusive().map_err(map_lock_error)?;
+
+        // The previous owner might have deleted the file before we could lock it
+        if is_same_file(&lock_file, &lock_file_path).map_err(map_lock_error)? {
+            return Ok(lock_file);
+        }
+    }
+}
+
+/// Check if an opened file is still the one that can be found with the given path.
+#[cfg(unix)]
+fn is_same_file(file: &File, path: &Path) -> std::io::Result<bool> {
+    use std::os::unix::fs::MetadataExt;
+
+    let file = file.metadata()?;
+    match std::fs::metadata(path) {
+        Ok(other) => Ok(file.dev() == other.dev() && file.ino() == other.ino()),
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(false),
+        Err(e) => Err(e),
+    }
+}
 
-    Ok(lock_file)
+#[cfg(not(unix))]
+fn is_same_file(_file: &File, path: &Path) -> std::io::Result<bool> {
+    path.try_exists()
 }
 
 /// Reports a background worker as finished when it is dropped, even if the worker failed.
-- 
2.43.0


From acd720b7cc40519b2ef4695b6ce40e391db3080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 15/53] fix: report errors while evaluating negated operators

---
 .../annis/db/aql/operators/non_existing.rs    | 38 ++++++++-----------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/non_existing.rs b/graphannis/src/annis/db/aql/operators/non_existing.rs
index 5dff03a..ca15d9a 100644
--- a/graphannis/src/annis/db/aql/operators/non_existing.rs
+++ b/graphannis/src/annis/db/aql/operators/non_existing.rs
@@ -159,10 +159,7 @@ impl UnaryOperator for NonExistingUnaryOperatorIndex<'_> {
             Box::new(it),
         )?;
 
-        let value_filter = self
-            .target
-            .get_value_filter(self.graph, None)
-            .unwrap_or_default();
+        let value_filter = self.target.get_value_filter(self.graph, None)?;
 
         // Only return true if no match was found which matches the operator and
         // the node value filter
@@ -214,34 +211,31 @@ impl Display for NonExistingUnaryOperatorFilter<'_> {
 impl UnaryOperator for NonExistingUnaryOperatorFilter<'_> {
     fn filter_match(&self, m: &graphannis_core::annostorage::Match) -> Result<bool> {
         // The candidate match is on one side and we need to get an iterator of all possible matches for the other side
-        if let Ok(node_search) = NodeSearch::from_spec(
+        let node_search = NodeSearch::from_spec(
             self.target.clone(),
             0,
             self.graph,
             None,
             &mut HashMap::new(),
             TimeoutCheck::new(None),
-        ) {
-            // Include if no nodes matches the conditions
-            if self.target_left {
-                for lhs in node_search {
-                    let lhs = lhs?;
-                    if self.negated_op.filter_match(&lhs[0], m)? {
-                        return Ok(false);
-                    }
-                }
-            } else {
-                for rhs in node_search {
-                    let rhs = rhs?;
-                    if self.negated_op.filter_match(m, &rhs[0])? {
-                        return Ok(false);
-                    }
+        )?;
+        // Include if no nodes matches the conditions
+        if self.target_left {
+            for lhs in node_search {
+                let lhs = lhs?;
+                if self.negated_op.filter_match(&lhs[0], m)? {
+                    return Ok(false);
                 }
             }
-            Ok(true)
         } else {
-            Ok(false)
+            for rhs in node_search {
+                let rhs = rhs?;
+                if self.negated_op.filter_match(m, &rhs[0])? {
+                    return Ok(false);
+                }
+            }
         }
+        Ok(true)
     }
 
     fn estimation_type(&self) -> EstimationType {
-- 
2.43.0


From 21fedbfff2500e23c82e57e50458a6078149cafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 16/53] fix: report components that can not be written when
 creating a sub-graph

---
 graphannis/src/annis/db/corpusstorage/subgraph.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage/subgraph.rs b/graphannis/src/annis/db/corpusstorage/subgraph.rs
index a9e2d30..55fb42e 100644
--- a/graphannis/src/annis/db/corpusstorage/subgraph.rs
+++ b/graphannis/src/annis/db/corpusstorage/subgraph.rs
@@ -571,17 +571,14 @@ fn create_subgraph_edge(
                         source: source_id,
                         target,
                     };
-                    if let Ok(new_gs) = db.get_or_create_writable(c) {
-                        new_gs.add_edge(e.clone())?;
-                    }
+                    db.get_or_create_writable(c)?.add_edge(e.clone())?;
 
                     for a in orig_gs.get_anno_storage().get_annotations_for_item(&Edge {
                         source: source_id,
                         target,
                     })? {
-                        if let Ok(new_gs) = db.get_or_create_writable(c) {
-                            new_gs.add_edge_annotation(e.clone(), a)?;
-                        }
+                        db.get_or_create_writable(c)?
+                            .add_edge_annotation(e.clone(), a)?;
                     }
                 }
             }
-- 
2.43.0


From 7766e1a61f7999b4d2ac93ee6be7ed7b2bbe668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 17/53] fix: report errors of matches when counting or skipping
 them and do not treat failed listings as empty

---
 graphannis/src/annis/db/corpusstorage.rs | 200 ++++++++++++-----------
 1 file changed, 103 insertions(+), 97 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index a102077..3ee9423 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1614,7 +1614,8 @@ impl CorpusStorage {
             let plan =
                 ExecutionPlan::from_disjunction(&prep.query, db, &self.query_config, timeout)?;
 
-            for _ in plan {
+            for m in plan {
+                m?;
                 total_count += 1;
                 if total_count.is_multiple_of(TIMEOUT_CHECK_TUPLE_COUNT) {
                     timeout.check()?;
@@ -1905,7 +1906,10 @@ impl CorpusStorage {
 
         // skip the first entries
         let mut skipped = 0;
-        while skipped < find_arguments.offset && base_it.next().is_some() {
+        while skipped < find_arguments.offset
+            && let Some(m) = base_it.next()
+        {
+            m?;
             skipped += 1;
 
             if skipped % 1_000 == 0 {
@@ -2402,43 +2406,45 @@ impl CorpusStorage {
         ctype: Option<AnnotationComponentType>,
         name: Option<&str>,
     ) -> Result<Vec<Component<AnnotationComponentType>>> {
-        if let Ok(db_entry) = self.get_entry(corpus_name) {
-            // Lock the entry so no-one else can write to it
-            let _lock = db_entry.read()?;
-            // Get the components by listing the directories on the disk We
-            // could use `Graph:get_all_components() but this needs to load the
-            // annotation storage which can be costly.
-            let db_path = self.corpus_directory_on_disk(corpus_name);
-            let backup = db_path.join("backup");
-
-            let dir2load = if backup.exists() && backup.is_dir() {
-                backup.clone()
+        let db_entry = match self.get_entry(corpus_name) {
+            Ok(db_entry) => db_entry,
+            Err(GraphAnnisError::NoSuchCorpus(_)) => return Ok(vec![]),
+            Err(e) => return Err(e),
+        };
+        // Lock the entry so no-one else can write to it
+        let _lock = db_entry.read()?;
+        // Get the components by listing the directories on the disk We
+        // could use `Graph:get_all_components() but this needs to load the
+        // annotation storage which can be costly.
+        let db_path = self.corpus_directory_on_disk(corpus_name);
+        let backup = db_path.join("backup");
+
+        let dir2load = if backup.exists() && backup.is_dir() {
+            backup.clone()
+        } else {
+            db_path.join("current")
+        };
+        let components = graphannis_core::graph::find_components_from_disk::<
+            AnnotationComponentType,
+            _,
+        >(&dir2load)?
+        .into_iter()
+        .filter(|c| {
+            if let Some(ctype) = ctype.as_ref() {
+                &c.get_type() == ctype
             } else {
-                db_path.join("current")
-            };
-            let components = graphannis_core::graph::find_components_from_disk::<
-                AnnotationComponentType,
-                _,
-            >(&dir2load)?
-            .into_iter()
-            .filter(|c| {
-                if let Some(ctype) = ctype.as_ref() {
-                    &c.get_type() == ctype
-                } else {
-                    true
-                }
-            })
-            .filter(|c| {
-                if let Some(name) = name {
-                    c.name.as_str() == name
-                } else {
-                    true
-                }
-            })
-            .collect();
-            return Ok(components);
-        }
-        Ok(vec![])
+                true
+            }
+        })
+        .filter(|c| {
+            if let Some(name) = name {
+                c.name.as_str() == name
+            } else {
+                true
+            }
+        })
+        .collect();
+        Ok(components)
     }
 
     /// Returns a list of all node annotations of a corpus given by `corpus_name`.
@@ -2452,38 +2458,38 @@ impl CorpusStorage {
         only_most_frequent_values: bool,
     ) -> Result<Vec<Annotation>> {
         let mut result: Vec<Annotation> = Vec::new();
-        if let Ok(db_entry) = self.get_loaded_entry(corpus_name, false, false) {
-            let lock = db_entry.read()?;
-            if let Ok(db) = get_read_or_error(&lock) {
-                let node_annos: &dyn NodeAnnotationStorage = db.get_node_annos();
-                for key in node_annos.annotation_keys()? {
-                    if list_values {
-                        if only_most_frequent_values {
-                            // get the first value
-                            if let Some(val) =
-                                node_annos.get_all_values(&key, true)?.into_iter().next()
-                            {
-                                result.push(Annotation {
-                                    key: key.clone(),
-                                    val: val.into(),
-                                });
-                            }
-                        } else {
-                            // get all values
-                            for val in node_annos.get_all_values(&key, false)? {
-                                result.push(Annotation {
-                                    key: key.clone(),
-                                    val: val.into(),
-                                });
-                            }
-                        }
-                    } else {
+        let db_entry = match self.get_loaded_entry(corpus_name, false, false) {
+            Ok(db_entry) => db_entry,
+            Err(GraphAnnisError::NoSuchCorpus(_)) => return Ok(vec![]),
+            Err(e) => return Err(e),
+        };
+        let lock = db_entry.read()?;
+        let db = get_read_or_error(&lock)?;
+        let node_annos: &dyn NodeAnnotationStorage = db.get_node_annos();
+        for key in node_annos.annotation_keys()? {
+            if list_values {
+                if only_most_frequent_values {
+                    // get the first value
+                    if let Some(val) = node_annos.get_all_values(&key, true)?.into_iter().next() {
                         result.push(Annotation {
                             key: key.clone(),
-                            val: String::default(),
+                            val: val.into(),
+                        });
+                    }
+                } else {
+                    // get all values
+                    for val in node_annos.get_all_values(&key, false)? {
+                        result.push(Annotation {
+                            key: key.clone(),
+                            val: val.into(),
                         });
                     }
                 }
+            } else {
+                result.push(Annotation {
+                    key: key.clone(),
+                    val: String::default(),
+                });
             }
         }
 
@@ -2502,41 +2508,41 @@ impl CorpusStorage {
         only_most_frequent_values: bool,
     ) -> Result<Vec<Annotation>> {
         let mut result: Vec<Annotation> = Vec::new();
-        if let Ok(db_entry) =
-            self.get_loaded_entry_with_components(corpus_name, vec![component.clone()])
-        {
-            let lock = db_entry.read()?;
-            if let Ok(db) = get_read_or_error(&lock)
-                && let Some(gs) = db.get_graphstorage(component)
-            {
-                let edge_annos = gs.get_anno_storage();
-                for key in edge_annos.annotation_keys()? {
-                    if list_values {
-                        if only_most_frequent_values {
-                            // get the first value
-                            if let Some(val) =
-                                edge_annos.get_all_values(&key, true)?.into_iter().next()
-                            {
-                                result.push(Annotation {
-                                    key: key.clone(),
-                                    val: val.into(),
-                                });
-                            }
-                        } else {
-                            // get all values
-                            for val in edge_annos.get_all_values(&key, false)? {
-                                result.push(Annotation {
-                                    key: key.clone(),
-                                    val: val.into(),
-                                });
-                            }
+        let db_entry =
+            match self.get_loaded_entry_with_components(corpus_name, vec![component.clone()]) {
+                Ok(db_entry) => db_entry,
+                Err(GraphAnnisError::NoSuchCorpus(_)) => return Ok(vec![]),
+                Err(e) => return Err(e),
+            };
+        let lock = db_entry.read()?;
+        let db = get_read_or_error(&lock)?;
+        if let Some(gs) = db.get_graphstorage(component) {
+            let edge_annos = gs.get_anno_storage();
+            for key in edge_annos.annotation_keys()? {
+                if list_values {
+                    if only_most_frequent_values {
+                        // get the first value
+                        if let Some(val) = edge_annos.get_all_values(&key, true)?.into_iter().next()
+                        {
+                            result.push(Annotation {
+                                key: key.clone(),
+                                val: val.into(),
+                            });
                         }
                     } else {
-                        result.push(Annotation {
-                            key: key.clone(),
-                            val: String::new(),
-                        });
+                        // get all values
+                        for val in edge_annos.get_all_values(&key, false)? {
+                            result.push(Annotation {
+                                key: key.clone(),
+                                val: val.into(),
+                            });
+                        }
                     }
+                } else {
+                    result.push(Annotation {
+                        key: key.clone(),
+                        val: String::new(),
+                    });
                 }
             }
         }
-- 
2.43.0


From 868c9d71c9468c1f98b2e6ef832dd14e47178137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 18/53] fix: only treat impossible searches as alternatives
 without a result

---
 graphannis/src/annis/db/plan.rs | 55 ++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/graphannis/src/annis/db/plan.rs b/graphannis/src/annis/db/plan.rs
index 00d58c9..9fd6144 100644
--- a/graphannis/src/annis/db/plan.rs
+++ b/graphannis/src/annis/db/plan.rs
@@ -35,42 +35,41 @@ impl<'a> ExecutionPlan<'a> {
         let mut descriptions = Vec::new();
         let mut inverse_node_pos = Vec::new();
         for alt in &query.alternatives {
-            let p = alt.make_exec_node(db, config, timeout);
-            if let Ok(p) = p {
-                descriptions.push(p.get_desc().cloned());
+            let p = match alt.make_exec_node(db, config, timeout) {
+                Ok(p) => p,
+                // This alternative can not have any results for this corpus
+                Err(GraphAnnisError::ImpossibleSearch(_)) => continue,
+                Err(e) => return Err(e),
+            };
+            descriptions.push(p.get_desc().cloned());
 
-                if let Some(desc) = p.get_desc() {
-                    // check if node position mapping is actually needed
-                    let node_pos_needed = desc
+            if let Some(desc) = p.get_desc() {
+                // check if node position mapping is actually needed
+                let node_pos_needed = desc
+                    .node_pos
+                    .iter()
+                    .any(|(target_pos, stream_pos)| target_pos != stream_pos);
+                if node_pos_needed {
+                    // invert the node position mapping
+                    let new_mapping_map: HashMap<usize, usize> = desc
                         .node_pos
                         .iter()
-                        .any(|(target_pos, stream_pos)| target_pos != stream_pos);
-                    if node_pos_needed {
-                        // invert the node position mapping
-                        let new_mapping_map: HashMap<usize, usize> = desc
-                            .node_pos
-                            .iter()
-                            .map(|(target_pos, stream_pos)| (*stream_pos, *target_pos))
-                            .collect();
-                        let mut new_mapping: Vec<usize> = Vec::with_capacity(new_mapping_map.len());
-                        for i in 0..new_mapping_map.len() {
-                            let mapping_value = new_mapping_map.get(&i).unwrap_or(&i);
-                            new_mapping.push(*mapping_value);
-                        }
-                        inverse_node_pos.push(Some(new_mapping));
-                    } else {
-                        inverse_node_pos.push(None);
+                        .map(|(target_pos, stream_pos)| (*stream_pos, *target_pos))
+                        .collect();
+                    let mut new_mapping: Vec<usize> = Vec::with_capacity(new_mapping_map.len());
+                    for i in 0..new_mapping_map.len() {
+                        let mapping_value = new_mapping_map.get(&i).unwrap_or(&i);
+                        new_mapping.push(*mapping_value);
                     }
+                    inverse_node_pos.push(Some(new_mapping));
                 } else {
                     inverse_node_pos.push(None);
                 }
-
-                plans.push(p);
-            } else if let Err(e) = p
-                && let GraphAnnisError::AQLSemanticError(_) = &e
-            {
-                return Err(e);
+            } else {
+                inverse_node_pos.push(None);
             }
+
+            plans.push(p);
         }
 
         if plans.is_empty() {
-- 
2.43.0


From b494a3e0ca5d156c883918617199fcc926b52452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 19/53] fix: report read errors when checking that a node is a
 leaf

---
 graphannis/src/annis/db/exec/nodesearch.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/graphannis/src/annis/db/exec/nodesearch.rs b/graphannis/src/annis/db/exec/nodesearch.rs
index 1cc9e99..2927a62 100644
--- a/graphannis/src/annis/db/exec/nodesearch.rs
+++ b/graphannis/src/annis/db/exec/nodesearch.rs
@@ -368,7 +368,7 @@ fn create_token_leaf_filter(g: &AnnotationGraph) -> MatchValueFilterFunc {
 
     let filter_func: MatchValueFilterFunc = Box::new(move |m, _| {
         for cov in cov_gs.iter() {
-            if cov.get_outgoing_edges(m.node).next().is_some() {
+            if cov.get_outgoing_edges(m.node).next().transpose()?.is_some() {
                 return Ok(false);
             }
         }
@@ -849,13 +849,17 @@ impl<'a> NodeSearch<'a> {
                 })
                 .collect();
 
-            let it = it_base.filter_ok(move |n| {
-                for cov in cov_gs.iter() {
-                    if cov.get_outgoing_edges(n.node).next().is_some() {
-                        return false;
+            let it = it_base.filter_map(move |n| {
+                if let Ok(n) = &n {
+                    for cov in cov_gs.iter() {
+                        match cov.get_outgoing_edges(n.node).next() {
+                            Some(Ok(_)) => return None,
+                            Some(Err(e)) => return Some(Err(e.into())),
+                            None => {}
+                        }
                     }
                 }
-                true
+                Some(n)
             });
             Box::new(it)
         } else {
-- 
2.43.0


From b6af38b5872aee285068f7d16ac10eb99734c6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 20/53] fix: report read errors when checking for existing
 coverage edges

---
 graphannis/src/annis/db/relannis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphannis/src/annis/db/relannis.rs b/graphannis/src/annis/db/relannis.rs
index e05e93c..564e0a6 100644
--- a/graphannis/src/annis/db/relannis.rs
+++ b/graphannis/src/annis/db/relannis.rs
@@ -1143,6 +1143,7 @@ fn add_automatic_cov_edge_for_node(
                     .text_coverage_edges
                     .range(nodes_with_same_source)
                     .next()
+                    .transpose()?
                     .is_some();
                 let (component_layer, component_name) = if has_any_outgoing_text_coverage_edge {
                     // this is an additional auto-generated coverage edge, mark it as such
-- 
2.43.0


From 5352272e8bb5e923cba7bf97764c1a02e61dab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 21/53] fix: do not count read errors in disk-based annotation
 storage as annotations

---
 core/src/annostorage/ondisk.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index d6b13d5..3921b55 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -533,7 +533,11 @@ where
     }
 
     fn number_of_annotations(&self) -> Result<usize> {
-        let result = self.by_container.iter()?.count();
+        let mut result = 0;
+        for entry in self.by_container.iter()? {
+            entry?;
+            result += 1;
+        }
         Ok(result)
     }
 
@@ -1188,7 +1192,7 @@ impl NodeAnnotationStorage for AnnoStorageImpl<NodeID> {
             let upper_bound = create_by_anno_qname_key(NodeID::MAX, node_name_symbol, node_name);
 
             let mut results = self.by_anno_qname.range(lower_bound..=upper_bound);
-            return Ok(results.next().is_some());
+            return Ok(results.next().transpose()?.is_some());
         }
         Ok(false)
     }
-- 
2.43.0


From d55ecfaa77b4b052a3900d6fff62184d289c6c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 22/53] fix: do not treat read errors as existing connections
 or edges

---
 core/src/graph/storage/adjacencylist.rs   |  2 +-
 core/src/graph/storage/dense_adjacency.rs |  2 +-
 core/src/graph/storage/prepost.rs         | 20 ++++++++------------
 3 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index 6b23a55..8d67aa5 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -233,7 +233,7 @@ impl GraphStorage for AdjacencyListStorage {
         let mut it = CycleSafeDFS::new(self, source, min_distance, max_distance)
             .filter_ok(|x| target == x.node);
 
-        Ok(it.next().is_some())
+        Ok(it.next().transpose()?.is_some())
     }
 
     fn copy(
diff --git a/core/src/graph/storage/dense_adjacency.rs b/core/src/graph/storage/dense_adjacency.rs
index 66c6413..8debe09 100644
--- a/core/src/graph/storage/dense_adjacency.rs
+++ b/core/src/graph/storage/dense_adjacency.rs
@@ -154,7 +154,7 @@ impl GraphStorage for DenseAdjacencyListStorage {
         let mut it = CycleSafeDFS::new(self, source, min_distance, max_distance)
             .filter_ok(|x| target == x.node);
 
-        Ok(it.next().is_some())
+        Ok(it.next().transpose()?.is_some())
     }
 
     fn get_anno_storage(&self) -> &dyn EdgeAnnotationStorage {
diff --git a/core/src/graph/storage/prepost.rs b/core/src/graph/storage/prepost.rs
index 54c382b..72d3d1e 100644
--- a/core/src/graph/storage/prepost.rs
+++ b/core/src/graph/storage/prepost.rs
@@ -160,18 +160,14 @@ where
     }
 
     fn source_nodes<'a>(&'a self) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
-        let it = self
-            .node_to_order
-            .keys()
-            .filter_map(move |n| {
-                // check if this is actual a source node (and not only a target node)
-                if self.get_outgoing_edges(*n).next().is_some() {
-                    Some(*n)
-                } else {
-                    None
-                }
-            })
-            .map(Ok);
+        let it = self.node_to_order.keys().filter_map(move |n| {
+            // check if this is actual a source node (and not only a target node)
+            match self.get_outgoing_edges(*n).next() {
+                Some(Ok(_)) => Some(Ok(*n)),
+                Some(Err(e)) => Some(Err(e)),
+                None => None,
+            }
+        });
         Box::new(it)
     }
 
-- 
2.43.0


From e740588089fafdd7fa5359a334e23c08f6f51733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 23/53] fix: report read errors of disk-based maps instead of
 ignoring or endlessly repeating them

---
 core/src/util/disk_collections.rs | 50 +++++++++++++++----------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/core/src/util/disk_collections.rs b/core/src/util/disk_collections.rs
index 111f7ad..894b211 100644
--- a/core/src/util/disk_collections.rs
+++ b/core/src/util/disk_collections.rs
@@ -295,7 +295,7 @@ where
             return Ok(true);
         }
         let mut it = self.iter()?;
-        Ok(it.next().is_none())
+        Ok(it.next().transpose()?.is_none())
     }
 
     pub fn clear(&mut self) {
@@ -473,6 +473,14 @@ where
             || self.c1_iterator.peek().is_some()
             || self.c2_iterator.peek().is_some()
         {
+            // Report read errors instead of continuing with the entries of the other maps
+            if let Some(Err(e)) = self.c1_iterator.next_if(|entry| entry.is_err()) {
+                return Some(Err(e));
+            }
+            if let Some(Err(e)) = self.c2_iterator.next_if(|entry| entry.is_err()) {
+                return Some(Err(e));
+            }
+
             // Get keys from all iterators and determine which is the smallest one
             let c0 = self.c0_iterator.peek().map(|(k, _v)| Some(*k));
             let c1 = self.c1_iterator.peek().map(|entry| match entry {
@@ -497,12 +505,18 @@ where
                     None
                 };
                 let c1 = if c1_is_min {
-                    self.c1_iterator.next()
+                    match self.c1_iterator.next().transpose() {
+                        Ok(entry) => entry,
+                        Err(e) => return Some(Err(e)),
+                    }
                 } else {
                     None
                 };
                 let c3 = if c3_is_min {
-                    self.c2_iterator.next()
+                    match self.c2_iterator.next().transpose() {
+                        Ok(entry) => entry,
+                        Err(e) => return Some(Err(e)),
+                    }
                 } else {
                     None
                 };
@@ -515,29 +529,15 @@ where
                         // Value was explicitly deleted, do not check the other maps
                         continue;
                     }
-                } else if let Some(entry) = c1 {
-                    match entry {
-                        Ok((k, v)) => {
-                            if let Some(v) = v {
-                                return Some(Ok((k, v)));
-                            } else {
-                                // Value was explicitly deleted, do not check the other maps
-                                continue;
-                            }
-                        }
-                        Err(e) => {
-                            return Some(Err(e));
-                        }
-                    };
-                } else if let Some(entry) = c3 {
-                    match entry {
-                        Ok((k, v)) => {
-                            return Some(Ok((k, v)));
-                        }
-                        Err(e) => {
-                            return Some(Err(e));
-                        }
+                } else if let Some((k, v)) = c1 {
+                    if let Some(v) = v {
+                        return Some(Ok((k, v)));
+                    } else {
+                        // Value was explicitly deleted, do not check the other maps
+                        continue;
                     }
+                } else if let Some(entry) = c3 {
+                    return Some(Ok(entry));
                 }
             }
         }
-- 
2.43.0


From 245529a347ce09d4eb095c33eab7ef561d368f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 24/53] fix: delete edges of a deleted node in all components

---
 core/src/graph/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 565a182..31e37b0 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -404,8 +404,6 @@ impl<CT: ComponentType> Graph<CT> {
     where
         F: Fn(&str),
     {
-        let all_components = self.get_all_components(None, None);
-
         let mut update_graph_index = ComponentType::init_update_graph_index(self)?;
         // Cache the expensive mapping of node names to IDs
         let cache_size = NonZeroUsize::new(1_000).ok_or(GraphAnnisCoreError::ZeroCacheSize)?;
@@ -457,10 +455,9 @@ impl<CT: ComponentType> Graph<CT> {
                         self.node_annos.remove_item(&existing_node_id)?;
 
                         // delete all edges pointing to this node either as source or target
-                        for c in all_components.iter() {
-                            if let Ok(gs) = self.get_or_create_writable(c) {
-                                gs.delete_node(existing_node_id)?;
-                            }
+                        for c in self.get_all_components(None, None) {
+                            self.get_or_create_writable(&c)?
+                                .delete_node(existing_node_id)?;
                         }
 
                         // update the internal cache
-- 
2.43.0


From a173aacd2aa6daffbe96ae4ade5be1a6f6f4eea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 25/53] fix: report errors of the last buffered write when
 saving

---
 core/src/annostorage/inmemory.rs | 2 ++
 core/src/annostorage/ondisk.rs   | 2 ++
 core/src/graph/storage/mod.rs    | 3 ++-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index b97abed..c82f5a9 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -12,6 +12,7 @@ use rustc_hash::FxHashSet;
 use std::borrow::Cow;
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::hash::Hash;
+use std::io::Write;
 use std::path::Path;
 use std::sync::Arc;
 
@@ -1003,6 +1004,7 @@ where
         let f = std::fs::File::create(location.join("nodes_v1.bin"))?;
         let mut writer = std::io::BufWriter::new(f);
         bincode::serialize_into(&mut writer, self)?;
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 3921b55..7d09603 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -15,6 +15,7 @@ use regex_syntax::hir::literal::Seq;
 use serde_bytes::ByteBuf;
 use std::borrow::Cow;
 use std::collections::{BTreeMap, HashMap, HashSet};
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use transient_btree_index::BtreeConfig;
@@ -1165,6 +1166,7 @@ where
         bincode::serialize_into(&mut writer, &self.anno_key_sizes)?;
         bincode::serialize_into(&mut writer, &self.histogram_bounds)?;
         bincode::serialize_into(&mut writer, &self.anno_key_symbols)?;
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/core/src/graph/storage/mod.rs b/core/src/graph/storage/mod.rs
index 6d3e4f2..7a72867 100644
--- a/core/src/graph/storage/mod.rs
+++ b/core/src/graph/storage/mod.rs
@@ -17,7 +17,7 @@ use crate::{
 };
 use itertools::Itertools;
 use serde::{Deserialize, Serialize};
-use std::{self, path::Path};
+use std::{self, io::Write, path::Path};
 
 /// Some general statistical numbers specific to a graph component
 #[derive(Serialize, Deserialize, Clone)]
@@ -209,6 +209,7 @@ where
     let f_data = std::fs::File::create(data_path)?;
     let mut writer = std::io::BufWriter::new(f_data);
     bincode::serialize_into(&mut writer, field)?;
+    writer.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 2af52312c4f851197ae45ee9b1803c914fbba139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:19 +0000
Subject: [PATCH 26/53] fix: never save a graph with components that are not
 loaded

---
 core/src/graph/mod.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 31e37b0..e69ee2b 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -358,17 +358,19 @@ impl<CT: ComponentType> Graph<CT> {
         self.node_annos.save_annotations_to(&location)?;
 
         for (c, e) in &self.components {
-            if let Some(ref data) = *e {
-                let dir = PathBuf::from(&location).join(component_to_relative_path(c));
-                std::fs::create_dir_all(&dir)?;
+            // A component that is not loaded would be missing in the saved graph
+            let data = e
+                .as_ref()
+                .ok_or_else(|| GraphAnnisCoreError::ComponentNotLoaded(c.to_string()))?;
+            let dir = PathBuf::from(&location).join(component_to_relative_path(c));
+            std::fs::create_dir_all(&dir)?;
 
-                let impl_name = data.serialization_id();
-                data.save_to(&dir)?;
+            let impl_name = data.serialization_id();
+            data.save_to(&dir)?;
 
-                let cfg_path = PathBuf::from(&dir).join("impl.cfg");
-                let mut f_cfg = std::fs::File::create(cfg_path)?;
-                f_cfg.write_all(impl_name.as_bytes())?;
-            }
+            let cfg_path = PathBuf::from(&dir).join("impl.cfg");
+            let mut f_cfg = std::fs::File::create(cfg_path)?;
+            f_cfg.write_all(impl_name.as_bytes())?;
         }
 
         // Save global statistics
-- 
2.43.0


From bedcd91b8e60ea395d83800b0037222ff633afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 27/53] fix: do not find overwritten annotations by their old
 value in disk-based annotation storages

---
 core/src/annostorage/ondisk.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 7d09603..9deb401 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -365,11 +365,27 @@ where
             .largest_item
             .as_ref()
             .is_none_or(|largest_item| item <= *largest_item);
-        let already_existed =
-            item_smaller_than_largest && self.by_container.contains_key(&by_container_key)?;
+        let existing_value = if item_smaller_than_largest {
+            self.by_container
+                .get(&by_container_key)?
+                .map(|val| val.into_owned())
+        } else {
+            None
+        };
         self.by_container
             .insert(by_container_key, anno.val.clone())?;
 
+        // An existing annotation with another value is replaced: it must not be found by its old value anymore
+        if let Some(existing_value) = &existing_value
+            && existing_value != &anno.val
+        {
+            self.by_anno_qname.remove(&create_by_anno_qname_key(
+                item.clone(),
+                anno_key_symbol,
+                existing_value,
+            ))?;
+        }
+
         // To save some space, insert an boolean value as a marker value
         // (all information is part of the key already)
         self.by_anno_qname.insert(
@@ -377,7 +393,7 @@ where
             true,
         )?;
 
-        if !already_existed {
+        if existing_value.is_none() {
             // a new annotation entry was inserted and did not replace an existing one
             if let Some(largest_item) = self.largest_item.clone() {
                 if largest_item < item {
-- 
2.43.0


From 0a58d30d40bffcb575d8ae112a917053224626c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 28/53] fix: reset the number of annotations when an in-memory
 annotation storage is cleared

---
 core/src/annostorage/inmemory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index c82f5a9..3eb79ed 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -65,6 +65,7 @@ impl<T: Ord + Hash + Clone + serde::Serialize + serde::de::DeserializeOwned + De
         self.histogram_bounds.clear();
         self.largest_item = None;
         self.anno_values.clear();
+        self.total_number_of_annos = 0;
     }
 
     fn create_sparse_anno(&mut self, orig: Annotation) -> Result<SparseAnnotation> {
-- 
2.43.0


From ec483153b56bdc32bc2625172534fe86c8a81d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:06 +0000
Subject: [PATCH 29/53] fix: forget the statistics of an edge storage when an
 edge is deleted

---
 core/src/graph/storage/adjacencylist.rs  | 1 +
 core/src/graph/storage/disk_adjacency.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index 8d67aa5..f41fb76 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -314,6 +314,7 @@ impl WriteableGraphStorage for AdjacencyListStorage {
             ingoing.remove(idx);
         }
         self.annos.remove_item(edge)?;
+        self.stats = None;
 
         Ok(())
     }
diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index d3e9924..a5ad791 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -314,6 +314,7 @@ impl WriteableGraphStorage for DiskAdjacencyListStorage {
         self.inverse_edges.remove(&edge.inverse())?;
 
         self.annos.remove_item(edge)?;
+        self.stats = None;
 
         Ok(())
     }
-- 
2.43.0


From e7f55cf5349d6c353081997d86e6e28083f52ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:06 +0000
Subject: [PATCH 30/53] fix: forget the old edge labels when copying to a
 disk-based path storage

---
 core/src/graph/storage/disk_path.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index 01bc694..7d3cde3 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -275,6 +275,7 @@ impl GraphStorage for DiskPathStorage {
         orig: &dyn GraphStorage,
     ) -> Result<()> {
         self.inverse_edges.clear();
+        self.annos.clear()?;
 
         // Create a new file which is large enough to contain the paths for all nodes.
         let max_node_id = orig
-- 
2.43.0


From 5cf5000dfb9ad713acf248c34d4b6d88b855f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:06 +0000
Subject: [PATCH 31/53] fix: forget the old statistics when copying to a dense
 adjacency list

---
 core/src/graph/storage/dense_adjacency.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/graph/storage/dense_adjacency.rs b/core/src/graph/storage/dense_adjacency.rs
index 8debe09..5bbca13 100644
--- a/core/src/graph/storage/dense_adjacency.rs
+++ b/core/src/graph/storage/dense_adjacency.rs
@@ -169,6 +169,7 @@ impl GraphStorage for DenseAdjacencyListStorage {
         self.annos.clear()?;
         self.edges.clear();
         self.inverse_edges.clear();
+        self.stats = None;
 
         if let Some(largest_idx) = node_annos
             .get_largest_item()?
-- 
2.43.0


From 9046b9e362a411c29886187afeb948084546768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:00 +0000
Subject: [PATCH 32/53] fix: subgraph_for_query with a component type must not
 depend on which components were loaded before

---
 graphannis/src/annis/db/corpusstorage.rs          | 10 +++++++++-
 graphannis/src/annis/db/corpusstorage/subgraph.rs |  7 ++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 3ee9423..b8ab022 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2140,7 +2140,15 @@ impl CorpusStorage {
         component_type_filter: Option<AnnotationComponentType>,
     ) -> Result<AnnotationGraph> {
         let prep = self.prepare_query(corpus_name, query, query_language, |g| {
-            g.get_all_components(component_type_filter.clone(), None)
+            let mut components = g.get_all_components(component_type_filter.clone(), None);
+            // These components are needed to find the gaps between the tokens
+            components.push(Component::new(
+                AnnotationComponentType::Ordering,
+                ANNIS_NS.into(),
+                "".into(),
+            ));
+            components.extend(token_helper::necessary_components(g));
+            components
         })?;
 
         let mut max_alt_size = 0;
diff --git a/graphannis/src/annis/db/corpusstorage/subgraph.rs b/graphannis/src/annis/db/corpusstorage/subgraph.rs
index 55fb42e..722bafb 100644
--- a/graphannis/src/annis/db/corpusstorage/subgraph.rs
+++ b/graphannis/src/annis/db/corpusstorage/subgraph.rs
@@ -473,6 +473,10 @@ where
 
     let mut result = AnnotationGraph::new(false)?;
 
+    // The edges describing gaps are ordering edges and can be filtered out
+    let include_gaps = component_type_filter
+        .as_ref()
+        .is_none_or(|ctype| *ctype == AnnotationComponentType::Ordering);
     let gs_orig_ordering = orig_graph.get_graphstorage(&Component::new(
         AnnotationComponentType::Ordering,
         ANNIS_NS.into(),
@@ -498,7 +502,8 @@ where
                     match_result.insert(m.clone());
                     trace!("subgraph query extracted node {:?}", m.node);
 
-                    if let Some(token_helper) = &token_helper
+                    if include_gaps
+                        && let Some(token_helper) = &token_helper
                         && token_helper.is_token(m.node)?
                     {
                         if let (Some(gs_ordering), Some(previous_node)) =
-- 
2.43.0


From b8565c176f5f515a7e10e4e9db573ec65b486fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:27 +0000
Subject: [PATCH 33/53] fix: do not use outdated node IDs for names of deleted,
 re-added or renamed nodes in updates

---
 core/src/graph/mod.rs                |  8 ++++
 graphannis/src/annis/db/aql/model.rs | 68 ++++++++++++++++++----------
 2 files changed, 51 insertions(+), 25 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index e69ee2b..2288258 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -483,6 +483,10 @@ impl<CT: ComponentType> Graph<CT> {
                             },
                             val: anno_value.into(),
                         };
+                        if anno.key == *NODE_NAME_KEY.as_ref() {
+                            // the node is renamed
+                            node_id_cache.clear();
+                        }
                         self.node_annos.insert(existing_node_id, anno)?;
                     }
                 }
@@ -501,6 +505,10 @@ impl<CT: ComponentType> Graph<CT> {
                         };
                         self.node_annos
                             .remove_annotation_for_item(&existing_node_id, &key)?;
+                        if key == *NODE_NAME_KEY.as_ref() {
+                            // the node can not be found by its name anymore
+                            node_id_cache.clear();
+                        }
                     }
                 }
                 UpdateEvent::AddEdge {
diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 4ad8807..f4ac0f8 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -1,6 +1,5 @@
 use crate::{
     annis::{db::token_helper::TokenHelper, util::quicksort},
-    errors::GraphAnnisError,
     graph::{Edge, EdgeContainer, GraphStorage, NodeID},
 };
 use facet::Facet;
@@ -8,7 +7,7 @@ use graphannis_core::{
     annostorage::ValueSearch,
     dfs::CycleSafeDFS,
     errors::ComponentTypeError,
-    graph::{ANNIS_NS, NODE_TYPE_KEY, storage::union::UnionEdgeContainer},
+    graph::{ANNIS_NS, NODE_NAME, NODE_TYPE_KEY, storage::union::UnionEdgeContainer},
     types::ComponentType,
     util::disk_collections::{DEFAULT_BLOCK_CACHE_CAPACITY, DiskMap, EvictionStrategy},
 };
@@ -187,16 +186,15 @@ impl AQLUpdateGraphIndex {
         &mut self,
         node_name: Cow<String>,
         graph: &AnnotationGraph,
-    ) -> std::result::Result<NodeID, ComponentTypeError> {
+    ) -> std::result::Result<Option<NodeID>, ComponentTypeError> {
         if let Some(id) = self.cached_node_ids.get(&node_name)? {
-            return Ok(*id);
+            return Ok(Some(*id));
         } else if let Some(id) = graph.get_node_annos().get_node_id_from_name(&node_name)? {
             self.cached_node_ids.insert(node_name.to_string(), id)?;
-            return Ok(id);
+            return Ok(Some(id));
         }
-        Err(ComponentTypeError(
-            GraphAnnisError::NoSuchNodeID(node_name.to_string()).into(),
-        ))
+        // Events for non-existing nodes have no effect
+        Ok(None)
     }
 
     fn calculate_invalidated_nodes_by_coverage(
@@ -471,12 +469,25 @@ impl ComponentType for AnnotationComponentType {
     ) -> std::result::Result<(), ComponentTypeError> {
         match update {
             UpdateEvent::DeleteNode { node_name } if !index.graph_without_nodes => {
-                let existing_node_id =
-                    index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?;
-                if !index.invalid_nodes.contains_key(&existing_node_id)? {
-                    index.calculate_invalidated_nodes_by_coverage(graph, existing_node_id)?;
+                if let Some(existing_node_id) =
+                    index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?
+                {
+                    if !index.invalid_nodes.contains_key(&existing_node_id)? {
+                        index.calculate_invalidated_nodes_by_coverage(graph, existing_node_id)?;
+                    }
+                    // A node which is added with the same name later gets a new ID
+                    index.cached_node_ids.remove(node_name)?;
                 }
             }
+            UpdateEvent::AddNodeLabel {
+                anno_ns, anno_name, ..
+            }
+            | UpdateEvent::DeleteNodeLabel {
+                anno_ns, anno_name, ..
+            } if anno_ns == ANNIS_NS && anno_name == NODE_NAME => {
+                // The node is renamed
+                index.cached_node_ids.clear();
+            }
             UpdateEvent::DeleteEdge {
                 source_node,
                 target_node,
@@ -492,15 +503,19 @@ impl ComponentType for AnnotationComponentType {
                         || ctype == AnnotationComponentType::LeftToken
                         || ctype == AnnotationComponentType::RightToken
                     {
-                        let source = index
-                            .get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?;
-                        index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                        if let Some(source) =
+                            index.get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?
+                        {
+                            index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                        }
                     }
 
                     if ctype == AnnotationComponentType::Ordering {
-                        let target = index
-                            .get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?;
-                        index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                        if let Some(target) =
+                            index.get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?
+                        {
+                            index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                        }
                     }
                 }
             }
@@ -541,16 +556,19 @@ impl ComponentType for AnnotationComponentType {
                     || ctype == AnnotationComponentType::LeftToken
                     || ctype == AnnotationComponentType::RightToken
                 {
-                    let source =
-                        index.get_cached_node_id_from_name(Cow::Owned(source_node), graph)?;
-
-                    index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                    if let Some(source) =
+                        index.get_cached_node_id_from_name(Cow::Owned(source_node), graph)?
+                    {
+                        index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                    }
                 }
 
                 if ctype == AnnotationComponentType::Ordering {
-                    let target =
-                        index.get_cached_node_id_from_name(Cow::Owned(target_node), graph)?;
-                    index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                    if let Some(target) =
+                        index.get_cached_node_id_from_name(Cow::Owned(target_node), graph)?
+                    {
+                        index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                    }
                 }
             }
         }
-- 
2.43.0


From f473472b1f08448d33a56292cbea94ac2b3a79e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:38 +0000
Subject: [PATCH 34/53] fix: only use a part-of-component search for operators
 that need an outgoing edge, and yield each node once

---
 graphannis/src/annis/db/aql/conjunction.rs       |  4 +++-
 graphannis/src/annis/db/aql/operators/edge_op.rs | 16 ++++++++++++++++
 .../src/annis/db/aql/operators/precedence.rs     |  4 ++++
 graphannis/src/annis/db/exec/nodesearch.rs       |  7 +++++++
 graphannis/src/annis/operator.rs                 |  8 ++++++++
 5 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index dd3d0ac..0631f28 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -561,7 +561,9 @@ impl Conjunction {
             if let Some(node_search_cost) = desc.cost.as_ref() {
                 for e in op_spec_entries {
                     let op_spec = &e.op;
-                    if e.args.left - self.var_idx_offset == desc.component_nr {
+                    if op_spec.needs_outgoing_edge()
+                        && e.args.left - self.var_idx_offset == desc.component_nr
+                    {
                         // get the necessary components and count the number of nodes in these components
                         let components = op_spec.necessary_components(db);
                         if !components.is_empty() {
diff --git a/graphannis/src/annis/db/aql/operators/edge_op.rs b/graphannis/src/annis/db/aql/operators/edge_op.rs
index c57eddd..211ed51 100644
--- a/graphannis/src/annis/db/aql/operators/edge_op.rs
+++ b/graphannis/src/annis/db/aql/operators/edge_op.rs
@@ -119,6 +119,10 @@ impl BinaryOperatorSpec for BaseEdgeOpSpec {
         self.edge_anno.clone()
     }
 
+    fn needs_outgoing_edge(&self) -> bool {
+        self.dist.min_dist() >= 1
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -654,6 +658,10 @@ impl BinaryOperatorSpec for DominanceSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn needs_outgoing_edge(&self) -> bool {
+        self.dist.min_dist() >= 1
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -706,6 +714,10 @@ impl BinaryOperatorSpec for PointingSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn needs_outgoing_edge(&self) -> bool {
+        self.dist.min_dist() >= 1
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -766,6 +778,10 @@ impl BinaryOperatorSpec for PartOfSubCorpusSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn needs_outgoing_edge(&self) -> bool {
+        self.dist.min_dist() >= 1
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index 4e35b85..821638d 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -78,6 +78,10 @@ impl BinaryOperatorSpec for PrecedenceSpec {
         Ok(BinaryOperator::Index(Box::new(op)))
     }
 
+    fn needs_outgoing_edge(&self) -> bool {
+        self.dist.min_dist() >= 1
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
diff --git a/graphannis/src/annis/db/exec/nodesearch.rs b/graphannis/src/annis/db/exec/nodesearch.rs
index 2927a62..06072eb 100644
--- a/graphannis/src/annis/db/exec/nodesearch.rs
+++ b/graphannis/src/annis/db/exec/nodesearch.rs
@@ -1001,6 +1001,9 @@ impl<'a> NodeSearch<'a> {
         let node_search_desc_1 = node_search_desc.clone();
         let node_search_desc_2 = node_search_desc.clone();
 
+        // The same node can be a source node in more than one component
+        let mut visited_nodes = HashSet::new();
+
         let it = components
             .into_iter()
             .flat_map(
@@ -1034,6 +1037,10 @@ impl<'a> NodeSearch<'a> {
                     }
                 },
             )
+            .filter(move |node| match node {
+                Ok(node) => visited_nodes.insert(*node),
+                Err(_) => true,
+            })
             .map(move |node| {
                 match node {
                     Ok(node) => {
diff --git a/graphannis/src/annis/operator.rs b/graphannis/src/annis/operator.rs
index a4a8614..f5844da 100644
--- a/graphannis/src/annis/operator.rs
+++ b/graphannis/src/annis/operator.rs
@@ -238,6 +238,14 @@ pub trait BinaryOperatorSpec: std::fmt::Debug + Send + Sync {
         true
     }
 
+    /// Returns true if a node can only be the left operand of a match when it
+    /// is the source node of at least one edge in any of the necessary
+    /// components (and this edge has the annotation returned by
+    /// [`Self::get_edge_anno_spec`], if there is any).
+    fn needs_outgoing_edge(&self) -> bool {
+        false
+    }
+
     #[cfg(test)]
     fn into_any(self: std::sync::Arc<Self>) -> std::sync::Arc<dyn std::any::Any>;
 
-- 
2.43.0


From 843e2b2484703dfb16cf0e924d0457c811f0faad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:22 +0000
Subject: [PATCH 35/53] fix: legacy meta-data search must not yield a node once
 per namespace

---
 graphannis/src/annis/db/exec/nodesearch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/exec/nodesearch.rs b/graphannis/src/annis/db/exec/nodesearch.rs
index 06072eb..bbedffd 100644
--- a/graphannis/src/annis/db/exec/nodesearch.rs
+++ b/graphannis/src/annis/db/exec/nodesearch.rs
@@ -603,7 +603,7 @@ impl<'a> NodeSearch<'a> {
                             // The unique_by will merge all errors into a single
                             // error, which should be ok for our use case
                             .unique_by(|m| match m {
-                                Ok(m) => Some(m.clone()),
+                                Ok(m) => Some(m.node),
                                 Err(_) => None,
                             })
                             .map(move |m| match m {
@@ -717,7 +717,7 @@ impl<'a> NodeSearch<'a> {
                     Box::new(
                         base_it
                             .unique_by(|m| match m {
-                                Ok(m) => Some(m.clone()),
+                                Ok(m) => Some(m.node),
                                 Err(_) => None,
                             })
                             .map(move |m| match m {
-- 
2.43.0


From e532bfc75cec7eff6f18dd70ec10ed9f565a5886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:27 +0000
Subject: [PATCH 36/53] fix: parallel nested loop join must report errors of
 its inputs instead of looping forever

---
 .../src/annis/db/exec/parallel/nestedloop.rs  | 111 +++++++-----------
 1 file changed, 45 insertions(+), 66 deletions(-)

diff --git a/graphannis/src/annis/db/exec/parallel/nestedloop.rs b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
index 98d4362..d0ca33c 100644
--- a/graphannis/src/annis/db/exec/parallel/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
@@ -134,89 +134,68 @@ impl<'a> NestedLoop<'a> {
         Ok(self.current_outer.as_ref().cloned())
     }
 
-    fn next_match_buffer(&mut self, tx: &Sender<Result<MatchGroup>>) {
+    /// Fill the candidate buffer until it is full, all candidates have been
+    /// added, or the search for the candidates failed.
+    fn next_match_buffer(&mut self, tx: &Sender<Result<MatchGroup>>) -> Result<()> {
         self.match_candidate_buffer.clear();
 
         while self.match_candidate_buffer.len() < MAX_BUFFER_SIZE {
-            match self.peek_outer() {
-                Ok(m_outer) => {
-                    if let Some(m_outer) = m_outer {
-                        if self.pos_inner_cache.is_some() {
-                            let mut cache_pos = self.pos_inner_cache.unwrap();
-
-                            while cache_pos < self.inner_cache.len() {
-                                let m_inner = &self.inner_cache[cache_pos];
-                                cache_pos += 1;
-                                self.pos_inner_cache = Some(cache_pos);
-
-                                self.match_candidate_buffer.push((
-                                    m_outer.clone(),
-                                    m_inner.clone(),
-                                    tx.clone(),
-                                ));
-
-                                if self.match_candidate_buffer.len() >= MAX_BUFFER_SIZE {
-                                    return;
-                                }
-                            }
-                        } else {
-                            for m_inner in &mut self.inner {
-                                match m_inner {
-                                    Ok(m_inner) => {
-                                        let m_inner: Arc<MatchGroup> = Arc::from(m_inner);
-
-                                        self.inner_cache.push(m_inner.clone());
-
-                                        self.match_candidate_buffer.push((
-                                            m_outer.clone(),
-                                            m_inner,
-                                            tx.clone(),
-                                        ));
-
-                                        if self.match_candidate_buffer.len() >= MAX_BUFFER_SIZE {
-                                            return;
-                                        }
-                                    }
-                                    Err(e) => {
-                                        if tx.send(Err(e)).is_err() {
-                                            return;
-                                        }
-                                    }
-                                };
-                            }
+            if let Some(m_outer) = self.peek_outer()? {
+                if let Some(mut cache_pos) = self.pos_inner_cache {
+                    while cache_pos < self.inner_cache.len() {
+                        let m_inner = &self.inner_cache[cache_pos];
+                        cache_pos += 1;
+                        self.pos_inner_cache = Some(cache_pos);
+
+                        self.match_candidate_buffer.push((
+                            m_outer.clone(),
+                            m_inner.clone(),
+                            tx.clone(),
+                        ));
+
+                        if self.match_candidate_buffer.len() >= MAX_BUFFER_SIZE {
+                            return Ok(());
                         }
-                        // inner was completed once, use cache from now, or reset to first item once completed
-                        self.pos_inner_cache = Some(0)
                     }
-                }
-                Err(e) => {
-                    if tx.send(Err(e)).is_err() {
-                        return;
+                } else {
+                    for m_inner in &mut self.inner {
+                        let m_inner: Arc<MatchGroup> = Arc::from(m_inner?);
+
+                        self.inner_cache.push(m_inner.clone());
+
+                        self.match_candidate_buffer
+                            .push((m_outer.clone(), m_inner, tx.clone()));
+
+                        if self.match_candidate_buffer.len() >= MAX_BUFFER_SIZE {
+                            return Ok(());
+                        }
                     }
                 }
+                // inner was completed once, use cache from now, or reset to first item once completed
+                self.pos_inner_cache = Some(0)
             }
 
             // consume next outer
             self.current_outer = None;
-            match self.peek_outer() {
-                Ok(next_outer) => {
-                    if next_outer.is_none() {
-                        return;
-                    }
-                }
-                Err(e) => {
-                    if tx.send(Err(e)).is_err() {
-                        return;
-                    }
-                }
-            };
+            if self.peek_outer()?.is_none() {
+                return Ok(());
+            }
         }
+        Ok(())
     }
 
     fn next_match_receiver(&mut self) -> Option<Receiver<Result<MatchGroup>>> {
         let (tx, rx) = channel();
 
-        self.next_match_buffer(&tx);
+        if let Err(e) = self.next_match_buffer(&tx) {
+            // Report the error to the caller instead of searching for more
+            // candidates.
+            self.match_candidate_buffer.clear();
+            if let Err(e) = tx.send(Err(e)) {
+                trace!("Could not send error in parallel nested loop: {}", e);
+            }
+            return Some(rx);
+        }
 
         if self.match_candidate_buffer.is_empty() {
             return None;
-- 
2.43.0


From c5ec51f0956af31a2d48d5645323502ddfa9f763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:33 +0000
Subject: [PATCH 37/53] fix: nested loop join must apply the same difference
 condition in the first pass over the inner side

---
 graphannis/src/annis/db/exec/nestedloop.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/graphannis/src/annis/db/exec/nestedloop.rs b/graphannis/src/annis/db/exec/nestedloop.rs
index d4cdcff..94be149 100644
--- a/graphannis/src/annis/db/exec/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/nestedloop.rs
@@ -158,9 +158,12 @@ impl Iterator for NestedLoop<'_> {
                         let filter_true = try_as_option!(filter_true);
                         if filter_true
                             && (self.op.is_reflexive()
-                                || m_outer[self.outer_idx].node != m_inner[self.inner_idx].node
-                                || m_outer[self.outer_idx].anno_key
-                                    != m_inner[self.inner_idx].anno_key)
+                                || (self.global_reflexivity
+                                    && m_outer[self.outer_idx].different_to_all(&m_inner)
+                                    && m_inner[self.inner_idx].different_to_all(m_outer))
+                                || (!self.global_reflexivity
+                                    && m_outer[self.outer_idx]
+                                        .different_to(&m_inner[self.inner_idx])))
                         {
                             let mut result = m_outer.clone();
                             result.append(&mut m_inner);
-- 
2.43.0


From 1db44a899280ff593a44a1e21a04c1d470457431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:36 +0000
Subject: [PATCH 38/53] fix: apply the time limit of the query to the search of
 optional negated operands

---
 graphannis/src/annis/db/aql/conjunction.rs            |  2 +-
 graphannis/src/annis/db/aql/operators/arity.rs        |  7 ++++++-
 graphannis/src/annis/db/aql/operators/non_existing.rs | 10 +++++++---
 graphannis/src/annis/operator.rs                      |  6 +++++-
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index 0631f28..255d2bf 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -859,7 +859,7 @@ impl Conjunction {
                 .remove(&op_spec_entry.idx)
                 .ok_or(GraphAnnisError::NoExecutionNode(op_spec_entry.idx))?;
 
-            let op = op_spec_entry.op.create_operator(db)?;
+            let op = op_spec_entry.op.create_operator(db, timeout)?;
             let op_entry = UnaryOperatorEntry {
                 op,
                 node_nr: op_spec_entry.idx + 1,
diff --git a/graphannis/src/annis/db/aql/operators/arity.rs b/graphannis/src/annis/db/aql/operators/arity.rs
index f935712..403ea55 100644
--- a/graphannis/src/annis/db/aql/operators/arity.rs
+++ b/graphannis/src/annis/db/aql/operators/arity.rs
@@ -5,6 +5,7 @@ use crate::{
     annis::{
         db::aql::model::AnnotationComponentType,
         operator::{UnaryOperator, UnaryOperatorSpec},
+        util::TimeoutCheck,
     },
     errors::Result,
     graph::{GraphStorage, Match},
@@ -31,7 +32,11 @@ impl UnaryOperatorSpec for AritySpec {
         result
     }
 
-    fn create_operator(&self, db: &AnnotationGraph) -> Result<Box<dyn UnaryOperator>> {
+    fn create_operator(
+        &self,
+        db: &AnnotationGraph,
+        _timeout: TimeoutCheck,
+    ) -> Result<Box<dyn UnaryOperator>> {
         // collect all relevant graph storages
         let mut graphstorages = Vec::default();
 
diff --git a/graphannis/src/annis/db/aql/operators/non_existing.rs b/graphannis/src/annis/db/aql/operators/non_existing.rs
index ca15d9a..e7eee0d 100644
--- a/graphannis/src/annis/db/aql/operators/non_existing.rs
+++ b/graphannis/src/annis/db/aql/operators/non_existing.rs
@@ -61,6 +61,7 @@ impl NonExistingUnaryOperatorSpec {
         negated_op: BinaryOperator<'b>,
         target_left: bool,
         op_estimation: EstimationType,
+        timeout: TimeoutCheck,
     ) -> Box<dyn crate::annis::operator::UnaryOperator + 'b> {
         Box::new(NonExistingUnaryOperatorFilter {
             target: self.target.clone(),
@@ -68,6 +69,7 @@ impl NonExistingUnaryOperatorSpec {
             graph: g,
             op_estimation,
             negated_op,
+            timeout,
         })
     }
 }
@@ -89,6 +91,7 @@ impl UnaryOperatorSpec for NonExistingUnaryOperatorSpec {
     fn create_operator<'b>(
         &'b self,
         g: &'b AnnotationGraph,
+        timeout: TimeoutCheck,
     ) -> Result<Box<dyn crate::annis::operator::UnaryOperator + 'b>> {
         let mut target_left = self.target_left;
         let mut orig_op = self.op.create_operator(g, None)?;
@@ -113,10 +116,10 @@ impl UnaryOperatorSpec for NonExistingUnaryOperatorSpec {
                     negated_op: orig_op,
                 })
             } else {
-                self.create_filter_operator(g, orig_op, target_left, op_estimation)
+                self.create_filter_operator(g, orig_op, target_left, op_estimation, timeout)
             }
         } else {
-            self.create_filter_operator(g, orig_op, target_left, op_estimation)
+            self.create_filter_operator(g, orig_op, target_left, op_estimation, timeout)
         };
 
         Ok(negated_op)
@@ -195,6 +198,7 @@ struct NonExistingUnaryOperatorFilter<'a> {
     negated_op: BinaryOperator<'a>,
     graph: &'a AnnotationGraph,
     op_estimation: EstimationType,
+    timeout: TimeoutCheck,
 }
 
 impl Display for NonExistingUnaryOperatorFilter<'_> {
@@ -217,7 +221,7 @@ impl UnaryOperator for NonExistingUnaryOperatorFilter<'_> {
             self.graph,
             None,
             &mut HashMap::new(),
-            TimeoutCheck::new(None),
+            self.timeout,
         )?;
         // Include if no nodes matches the conditions
         if self.target_left {
diff --git a/graphannis/src/annis/operator.rs b/graphannis/src/annis/operator.rs
index f5844da..a720a2b 100644
--- a/graphannis/src/annis/operator.rs
+++ b/graphannis/src/annis/operator.rs
@@ -1,4 +1,7 @@
-use super::db::{aql::model::AnnotationComponentType, exec::CostEstimate};
+use super::{
+    db::{aql::model::AnnotationComponentType, exec::CostEstimate},
+    util::TimeoutCheck,
+};
 use crate::{AnnotationGraph, errors::Result, graph::Match};
 use graphannis_core::{annostorage::EdgeAnnotationStorage, types::Component};
 use std::{collections::HashSet, fmt::Display};
@@ -262,6 +265,7 @@ pub trait UnaryOperatorSpec: std::fmt::Debug {
     fn create_operator<'a>(
         &'a self,
         db: &'a AnnotationGraph,
+        timeout: TimeoutCheck,
     ) -> Result<Box<dyn UnaryOperator + 'a>>;
 }
 
-- 
2.43.0


From e648dbddeb017af43a1df56cbeba17eccf398070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 39/53] fix: inverted value comparison must swap the node
 search specifications

---
 graphannis/src/annis/db/aql/operators/equal_value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/equal_value.rs b/graphannis/src/annis/db/aql/operators/equal_value.rs
index 77e5920..a66b947 100644
--- a/graphannis/src/annis/db/aql/operators/equal_value.rs
+++ b/graphannis/src/annis/db/aql/operators/equal_value.rs
@@ -167,8 +167,8 @@ impl BinaryOperatorBase for EqualValue<'_> {
     ) -> Result<Option<BinaryOperator<'b>>> {
         let inverse = BinaryOperator::Index(Box::from(EqualValue {
             node_annos: graph.get_node_annos(),
-            spec_left: self.spec_left.clone(),
-            spec_right: self.spec_right.clone(),
+            spec_left: self.spec_right.clone(),
+            spec_right: self.spec_left.clone(),
             negated: self.negated,
         }));
         Ok(Some(inverse))
-- 
2.43.0


From e62a55462d64260955a18860c223d855e264507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:35 +0000
Subject: [PATCH 40/53] fix: check the time limit while collecting the results
 that need to be sorted

---
 graphannis/src/annis/db/corpusstorage.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index b8ab022..0b1d0d4 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1769,6 +1769,10 @@ impl CorpusStorage {
                     }
                     let m = match_group_with_symbol_ids(&mgroup, &mut anno_key_symbols)?;
                     tmp_results.insert(idx as usize, m)?;
+
+                    if tmp_results.len() % 1_000 == 0 {
+                        timeout.check()?;
+                    }
                 }
             } else {
                 // Insert results in the order as they are given by the iterator
@@ -1777,6 +1781,10 @@ impl CorpusStorage {
                     // add all matches to temporary container
                     let m = match_group_with_symbol_ids(&mgroup, &mut anno_key_symbols)?;
                     tmp_results.insert(idx, m)?;
+
+                    if idx % 1_000 == 0 {
+                        timeout.check()?;
+                    }
                 }
 
                 let token_helper = TokenHelper::new(db).ok();
-- 
2.43.0


From 85eeb875208ccba8e06bd60249ebb68f8dd2c336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 41/53] fix: entries deleted from a disk map must not be
 reported as contained

---
 core/src/util/disk_collections.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/util/disk_collections.rs b/core/src/util/disk_collections.rs
index 894b211..2ab92cd 100644
--- a/core/src/util/disk_collections.rs
+++ b/core/src/util/disk_collections.rs
@@ -161,9 +161,10 @@ where
 
         // Check C1 (BTree disk index)
         if let Some(c1) = &self.c1
-            && c1.contains_key(key)?
+            && let Some(entry) = c1.get(key)?
         {
-            return Ok(true);
+            // The entry might be a tombstone: in this case do not query C2
+            return Ok(entry.is_some());
         }
 
         // Use a iterator on the single disk to check if there is an entry with this, without getting the value.
-- 
2.43.0


From 17fd40d3d90e2e232f2411eeeaa5d13c1d8c3c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:37 +0000
Subject: [PATCH 42/53] fix: keep the not yet written entries of a disk map
 when compacting it fails

---
 core/src/util/disk_collections.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/util/disk_collections.rs b/core/src/util/disk_collections.rs
index 2ab92cd..67796de 100644
--- a/core/src/util/disk_collections.rs
+++ b/core/src/util/disk_collections.rs
@@ -338,10 +338,10 @@ where
         }
 
         if let Some(c1) = self.c1.as_mut() {
-            let mut c0 = BTreeMap::new();
-            std::mem::swap(&mut self.c0, &mut c0);
-            for (k, v) in c0.into_iter() {
-                c1.insert(k, v)?;
+            // Only remove an entry from C0 after it has been written successfully
+            while let Some(entry) = self.c0.first_entry() {
+                c1.insert(entry.key().clone(), entry.get().clone())?;
+                entry.remove();
             }
         }
 
-- 
2.43.0


From aa21e0d191030c708b245b6de00dbe8cddc3e815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:26 +0000
Subject: [PATCH 43/53] fix: report the constant annotation also when all nodes
 of a component are searched

---
 graphannis/src/annis/db/exec/nodesearch.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/graphannis/src/annis/db/exec/nodesearch.rs b/graphannis/src/annis/db/exec/nodesearch.rs
index bbedffd..117a537 100644
--- a/graphannis/src/annis/db/exec/nodesearch.rs
+++ b/graphannis/src/annis/db/exec/nodesearch.rs
@@ -1003,6 +1003,8 @@ impl<'a> NodeSearch<'a> {
 
         // The same node can be a source node in more than one component
         let mut visited_nodes = HashSet::new();
+        // Only return the constant annotation once per node
+        let mut constant_output_nodes = HashSet::new();
 
         let it = components
             .into_iter()
@@ -1068,6 +1070,16 @@ impl<'a> NodeSearch<'a> {
                             return Ok(None);
                         }
                     }
+                    if let Some(const_output) = &node_search_desc_2.const_output {
+                        // replace the annotation with a constant value
+                        if !constant_output_nodes.insert(m.node) {
+                            return Ok(None);
+                        }
+                        return Ok(Some(smallvec![Match {
+                            node: m.node,
+                            anno_key: const_output.clone(),
+                        }]));
+                    }
                     Ok(Some(smallvec![m]))
                 }
                 Err(e) => Err(GraphAnnisError::from(e)),
-- 
2.43.0


From be811da3f06da75e774d70993c20133965118afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:55 +0000
Subject: [PATCH 44/53] fix: do not assume a fixed size for annotation values
 when loading a disk-based annotation storage

---
 core/src/annostorage/ondisk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 9deb401..ae0e141 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -1144,7 +1144,7 @@ where
                 Some(&location.join("by_container.bin")),
                 EVICTION_STRATEGY,
                 BLOCK_CACHE_CAPACITY,
-                BtreeConfig::default().fixed_value_size(T::key_size() + 9),
+                BtreeConfig::default().fixed_key_size(T::key_size() + 16),
             )?;
             self.by_anno_qname = DiskMap::new(
                 Some(&location.join("by_anno_qname.bin")),
-- 
2.43.0


From af22bfe94f8ff05744f201ed3f2c7959547d8f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:30 +0000
Subject: [PATCH 45/53] fix: do not add aligned nodes as matches of a
 precedence or near operator with an explicit segmentation

---
 graphannis/src/annis/db/aql/operators/near.rs      | 14 ++++++++++++--
 .../src/annis/db/aql/operators/precedence.rs       | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/near.rs b/graphannis/src/annis/db/aql/operators/near.rs
index 1a80652..ac6082f 100644
--- a/graphannis/src/annis/db/aql/operators/near.rs
+++ b/graphannis/src/annis/db/aql/operators/near.rs
@@ -217,7 +217,12 @@ impl BinaryOperatorIndex for Near<'_> {
                 .fuse();
             let it = connected
                 .map_ok(|t| {
-                    let it_aligned = self.tok_helper.get_gs_left_token().get_ingoing_edges(t);
+                    // segmentation nodes are compared directly, and not by their aligned token
+                    let it_aligned = if self.spec.segmentation.is_none() {
+                        self.tok_helper.get_gs_left_token().get_ingoing_edges(t)
+                    } else {
+                        Box::new(std::iter::empty())
+                    };
                     std::iter::once(Ok(t)).chain(it_aligned)
                 })
                 .flatten_ok()
@@ -245,7 +250,12 @@ impl BinaryOperatorIndex for Near<'_> {
             let it = connected
                 // find all right aligned nodes for this token and add it together with the token itself
                 .map_ok(move |t| {
-                    let it_aligned = self.tok_helper.get_gs_right_token().get_ingoing_edges(t);
+                    // segmentation nodes are compared directly, and not by their aligned token
+                    let it_aligned = if self.spec.segmentation.is_none() {
+                        self.tok_helper.get_gs_right_token().get_ingoing_edges(t)
+                    } else {
+                        Box::new(std::iter::empty())
+                    };
                     std::iter::once(Ok(t)).chain(it_aligned)
                 })
                 .flatten_ok()
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index 821638d..fa82586 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -237,7 +237,12 @@ impl BinaryOperatorIndex for Precedence<'_> {
         let result = connected
             // find all left aligned nodes for this token and add it together with the token itself
             .map_ok(move |t| {
-                let it_aligned = self.gs_left.get_ingoing_edges(t);
+                // segmentation nodes are compared directly, and not by their aligned token
+                let it_aligned = if self.spec.segmentation.is_none() {
+                    self.gs_left.get_ingoing_edges(t)
+                } else {
+                    Box::new(std::iter::empty())
+                };
                 std::iter::once(Ok(t)).chain(it_aligned)
             })
             .flatten_ok()
@@ -355,7 +360,12 @@ impl BinaryOperatorIndex for InversePrecedence<'_> {
         let result = token_in_range
             .map_ok(move |t| {
                 // find all right aligned nodes for this token and add it together with the token itself
-                let it_aligned = self.gs_right.get_ingoing_edges(t);
+                // segmentation nodes are compared directly, and not by their aligned token
+                let it_aligned = if self.spec.segmentation.is_none() {
+                    self.gs_right.get_ingoing_edges(t)
+                } else {
+                    Box::new(std::iter::empty())
+                };
                 std::iter::once(Ok(t)).chain(it_aligned)
             })
             .flatten_ok()
-- 
2.43.0


From b776a8da34fb72511fed3ad45b8bad3ce28fc4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:20 +0000
Subject: [PATCH 46/53] fix: do not panic when estimating operators with
 distances larger than the corpus or of zero

---
 graphannis/src/annis/db/aql/operators/edge_op.rs    | 2 +-
 graphannis/src/annis/db/aql/operators/near.rs       | 3 ++-
 graphannis/src/annis/db/aql/operators/precedence.rs | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/edge_op.rs b/graphannis/src/annis/db/aql/operators/edge_op.rs
index 211ed51..407b22f 100644
--- a/graphannis/src/annis/db/aql/operators/edge_op.rs
+++ b/graphannis/src/annis/db/aql/operators/edge_op.rs
@@ -392,7 +392,7 @@ impl BinaryOperatorBase for BaseEdgeOp {
                     } else {
                         std::cmp::min(max_dist, stats.max_depth) as i32
                     };
-                    let min_path_length = std::cmp::max(0, self.spec.dist.min_dist() - 1) as i32;
+                    let min_path_length = self.spec.dist.min_dist().saturating_sub(1) as i32;
 
                     let reachable_max = reachable_by_path_length(stats, max_path_length);
                     let reachable_min = reachable_by_path_length(stats, min_path_length);
diff --git a/graphannis/src/annis/db/aql/operators/near.rs b/graphannis/src/annis/db/aql/operators/near.rs
index ac6082f..4cf8715 100644
--- a/graphannis/src/annis/db/aql/operators/near.rs
+++ b/graphannis/src/annis/db/aql/operators/near.rs
@@ -172,7 +172,8 @@ impl BinaryOperatorBase for Near<'_> {
                 std::ops::Bound::Excluded(max_dist) => max_dist - 1,
             };
             let max_possible_dist = std::cmp::min(max_dist, stats_order.max_depth);
-            let num_of_descendants = 2 * (max_possible_dist - self.spec.dist.min_dist() + 1);
+            let num_of_descendants =
+                2 * (max_possible_dist.saturating_sub(self.spec.dist.min_dist()) + 1);
 
             return Ok(EstimationType::Selectivity(
                 (num_of_descendants as f64) / (stats_order.nodes as f64 / 2.0),
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index fa82586..6d33fc1 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -326,7 +326,8 @@ impl BinaryOperatorBase for InversePrecedence<'_> {
                 std::ops::Bound::Excluded(max_dist) => max_dist - 1,
             };
             let max_possible_dist = std::cmp::min(max_dist, stats_order.max_depth);
-            let num_of_descendants = max_possible_dist - self.spec.dist.min_dist() + 1;
+            let num_of_descendants =
+                max_possible_dist.saturating_sub(self.spec.dist.min_dist()) + 1;
 
             return Ok(EstimationType::Selectivity(
                 (num_of_descendants as f64) / (stats_order.nodes as f64 / 2.0),
-- 
2.43.0


From bbd6d7bcef93f0b08d5c3366665c0ca6b4fdaeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:18 +0000
Subject: [PATCH 47/53] fix: do not overflow when the estimated costs of a
 query are larger than the maximal number

---
 graphannis/src/annis/db/exec/filter.rs              | 4 ++--
 graphannis/src/annis/db/exec/mod.rs                 | 6 +++---
 graphannis/src/annis/db/exec/nestedloop.rs          | 4 ++--
 graphannis/src/annis/db/exec/parallel/nestedloop.rs | 4 ++--
 graphannis/src/annis/db/plan.rs                     | 4 ++--
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/graphannis/src/annis/db/exec/filter.rs b/graphannis/src/annis/db/exec/filter.rs
index 84bd555..04b40e8 100644
--- a/graphannis/src/annis/db/exec/filter.rs
+++ b/graphannis/src/annis/db/exec/filter.rs
@@ -51,7 +51,7 @@ impl<'a> Filter<'a> {
                 Some(CostEstimate {
                     output: calculate_binary_outputsize(&op_entry.op, orig_cost.output)?,
                     processed_in_step: orig_cost.processed_in_step,
-                    intermediate_sum: orig_cost.intermediate_sum + orig_cost.processed_in_step,
+                    intermediate_sum: orig_cost.intermediate_sum.saturating_add(orig_cost.processed_in_step),
                 })
             } else {
                 None
@@ -95,7 +95,7 @@ impl<'a> Filter<'a> {
                 Some(CostEstimate {
                     output: calculate_unary_outputsize(op_entry.op.as_ref(), orig_cost.output),
                     processed_in_step: orig_cost.processed_in_step,
-                    intermediate_sum: orig_cost.intermediate_sum + orig_cost.processed_in_step,
+                    intermediate_sum: orig_cost.intermediate_sum.saturating_add(orig_cost.processed_in_step),
                 })
             } else {
                 None
diff --git a/graphannis/src/annis/db/exec/mod.rs b/graphannis/src/annis/db/exec/mod.rs
index fbd1f31..e5822a4 100644
--- a/graphannis/src/annis/db/exec/mod.rs
+++ b/graphannis/src/annis/db/exec/mod.rs
@@ -40,7 +40,7 @@ fn calculate_outputsize<Op: BinaryOperatorBase + ?Sized>(
 ) -> Result<usize> {
     let output = match op.estimation_type()? {
         EstimationType::Selectivity(selectivity) => {
-            let num_tuples = (cost_lhs.output * cost_rhs.output) as f64;
+            let num_tuples = (cost_lhs.output as f64) * (cost_rhs.output as f64);
             if let Some(edge_sel) = op.edge_anno_selectivity()? {
                 (num_tuples * selectivity * edge_sel).round() as usize
             } else {
@@ -121,8 +121,8 @@ impl ExecutionNodeDesc {
                 Some(CostEstimate {
                     output,
                     intermediate_sum: processed_in_step
-                        + cost_lhs.intermediate_sum
-                        + cost_rhs.intermediate_sum,
+                        .saturating_add(cost_lhs.intermediate_sum)
+                        .saturating_add(cost_rhs.intermediate_sum),
                     processed_in_step,
                 })
             } else {
diff --git a/graphannis/src/annis/db/exec/nestedloop.rs b/graphannis/src/annis/db/exec/nestedloop.rs
index 94be149..6971acb 100644
--- a/graphannis/src/annis/db/exec/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/nestedloop.rs
@@ -41,10 +41,10 @@ impl<'a> NestedLoop<'a> {
         let processed_func = |_, out_lhs: usize, out_rhs: usize| {
             if out_lhs <= out_rhs {
                 // we use LHS as outer
-                out_lhs + (out_lhs * out_rhs)
+                out_lhs.saturating_add(out_lhs.saturating_mul(out_rhs))
             } else {
                 // we use RHS as outer
-                out_rhs + (out_rhs * out_lhs)
+                out_rhs.saturating_add(out_rhs.saturating_mul(out_lhs))
             }
         };
 
diff --git a/graphannis/src/annis/db/exec/parallel/nestedloop.rs b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
index d0ca33c..31575a4 100644
--- a/graphannis/src/annis/db/exec/parallel/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
@@ -49,10 +49,10 @@ impl<'a> NestedLoop<'a> {
         let processed_func = |_, out_lhs: usize, out_rhs: usize| {
             if out_lhs <= out_rhs {
                 // we use LHS as outer
-                out_lhs + (out_lhs * out_rhs)
+                out_lhs.saturating_add(out_lhs.saturating_mul(out_rhs))
             } else {
                 // we use RHS as outer
-                out_rhs + (out_rhs * out_lhs)
+                out_rhs.saturating_add(out_rhs.saturating_mul(out_lhs))
             }
         };
 
diff --git a/graphannis/src/annis/db/plan.rs b/graphannis/src/annis/db/plan.rs
index 9fd6144..cf3727c 100644
--- a/graphannis/src/annis/db/plan.rs
+++ b/graphannis/src/annis/db/plan.rs
@@ -117,10 +117,10 @@ impl<'a> ExecutionPlan<'a> {
     }
 
     pub fn estimated_output_size(&self) -> usize {
-        let mut estimation = 0;
+        let mut estimation: usize = 0;
         for desc in self.descriptions.iter().flatten() {
             if let Some(cost) = &desc.cost {
-                estimation += cost.output;
+                estimation = estimation.saturating_add(cost.output);
             }
         }
         estimation
-- 
2.43.0


From 8e55033ca622a8c76fb11e3a319ef0f1839a50a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:18 +0000
Subject: [PATCH 48/53] fix: do not overflow when adding the offset and limit
 of a find query

---
 graphannis/src/annis/db/corpusstorage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 0b1d0d4..8cf7d10 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1837,7 +1837,7 @@ impl CorpusStorage {
 
                 let sort_size = if let Some(limit) = find_arguments.limit {
                     // we won't need to sort all items
-                    find_arguments.offset + limit
+                    find_arguments.offset.saturating_add(limit)
                 } else {
                     // sort all items if unlimited iterator is requested
                     tmp_results.len()
-- 
2.43.0


From baf836dcd6d42a3533df45dfe432354e27e5e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:30 +0000
Subject: [PATCH 49/53] fix: limit the memory allocated in advance for the
 estimated or requested number of results

---
 graphannis/src/annis/db/corpusstorage.rs | 9 +++++++--
 graphannis/src/annis/db/exec/filter.rs   | 8 ++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 8cf7d10..ca9015f 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -72,6 +72,10 @@ mod tests;
 /// After how many produces tuples the timeout check should be manually triggered (in case the underlying joint did not already check the timeout)
 const TIMEOUT_CHECK_TUPLE_COUNT: u64 = 1_000;
 
+/// Maximum number of result items for which memory is allocated in advance, if the actual number of
+/// results is not known yet.
+const MAX_PREALLOCATED_RESULTS: usize = 1_000_000;
+
 enum CacheEntry {
     Loaded(AnnotationGraph),
     NotLoaded,
@@ -1749,7 +1753,7 @@ impl CorpusStorage {
             // if quirks mode is active.
             Box::from(plan)
         } else {
-            let estimated_result_size = plan.estimated_output_size();
+            let estimated_result_size = plan.estimated_output_size().min(MAX_PREALLOCATED_RESULTS);
             let btree_config = BtreeConfig::default()
                 .fixed_key_size(size_of::<usize>())
                 .max_value_size(512);
@@ -1907,7 +1911,8 @@ impl CorpusStorage {
         let mut results: Vec<String> = if let Some(expected_size) = expected_size {
             new_vector_with_memory_aligned_capacity(expected_size)
         } else if let Some(limit) = find_arguments.limit {
-            new_vector_with_memory_aligned_capacity(limit)
+            // The limit is only an upper bound and can be much larger than the actual number of results
+            new_vector_with_memory_aligned_capacity(limit.min(MAX_PREALLOCATED_RESULTS))
         } else {
             Vec::new()
         };
diff --git a/graphannis/src/annis/db/exec/filter.rs b/graphannis/src/annis/db/exec/filter.rs
index 04b40e8..ffd4663 100644
--- a/graphannis/src/annis/db/exec/filter.rs
+++ b/graphannis/src/annis/db/exec/filter.rs
@@ -51,7 +51,9 @@ impl<'a> Filter<'a> {
                 Some(CostEstimate {
                     output: calculate_binary_outputsize(&op_entry.op, orig_cost.output)?,
                     processed_in_step: orig_cost.processed_in_step,
-                    intermediate_sum: orig_cost.intermediate_sum.saturating_add(orig_cost.processed_in_step),
+                    intermediate_sum: orig_cost
+                        .intermediate_sum
+                        .saturating_add(orig_cost.processed_in_step),
                 })
             } else {
                 None
@@ -95,7 +97,9 @@ impl<'a> Filter<'a> {
                 Some(CostEstimate {
                     output: calculate_unary_outputsize(op_entry.op.as_ref(), orig_cost.output),
                     processed_in_step: orig_cost.processed_in_step,
-                    intermediate_sum: orig_cost.intermediate_sum.saturating_add(orig_cost.processed_in_step),
+                    intermediate_sum: orig_cost
+                        .intermediate_sum
+                        .saturating_add(orig_cost.processed_in_step),
                 })
             } else {
                 None
-- 
2.43.0


From 2abd0d727d9daca0c5408fba44d116cb3b6fc7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:22 +0000
Subject: [PATCH 50/53] fix: report invalid frequency definitions in the C API
 instead of ignoring them

---
 capi/src/corpusstorage.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/capi/src/corpusstorage.rs b/capi/src/corpusstorage.rs
index debe38c..5c8b753 100644
--- a/capi/src/corpusstorage.rs
+++ b/capi/src/corpusstorage.rs
@@ -390,12 +390,16 @@ pub extern "C" fn annis_cs_frequency(
     };
 
     let frequency_query_definition = cstr(frequency_query_definition);
-    let table_def: Vec<FrequencyDefEntry> = frequency_query_definition
+    let table_def: graphannis::errors::Result<Vec<FrequencyDefEntry>> = frequency_query_definition
         .split(',')
-        .filter_map(|d| -> Option<FrequencyDefEntry> { d.parse().ok() })
+        .filter(|d| !d.is_empty())
+        .map(|d| d.parse())
         .collect();
 
-    match map_cerr(cs.frequency(search_query, table_def), err) {
+    match map_cerr(
+        table_def.and_then(|table_def| cs.frequency(search_query, table_def)),
+        err,
+    ) {
         Some(orig_ft) => {
             let mut result: FrequencyTable<CString> = FrequencyTable::new();
 
-- 
2.43.0


From 395e5f807ac75bcf7f8cfb9b1b9e276b0e9259ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:37 +0000
Subject: [PATCH 51/53] fix: do not overflow when searching connected nodes
 with a very large maximal distance in chains

---
 core/src/graph/storage/linear.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/graph/storage/linear.rs b/core/src/graph/storage/linear.rs
index a5a6bca..af96c78 100644
--- a/core/src/graph/storage/linear.rs
+++ b/core/src/graph/storage/linear.rs
@@ -216,8 +216,10 @@ where
                 std::ops::Bound::Unbounded => {
                     return Box::new(chain[min_distance..].iter().map(|n| Ok(*n)));
                 }
-                std::ops::Bound::Included(max_distance) => offset + max_distance + 1,
-                std::ops::Bound::Excluded(max_distance) => offset + max_distance,
+                std::ops::Bound::Included(max_distance) => {
+                    offset.saturating_add(max_distance).saturating_add(1)
+                }
+                std::ops::Bound::Excluded(max_distance) => offset.saturating_add(max_distance),
             };
             // clip to chain length
             let max_distance = std::cmp::min(chain.len(), max_distance);
-- 
2.43.0


From d37717b18148d7ca796c44051a33eb3692f7935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:37 +0000
Subject: [PATCH 52/53] fix: do not overflow when converting a very large
 maximal cache size to bytes

---
 graphannis/src/annis/db/corpusstorage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index ca9015f..0ef1eb9 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2661,7 +2661,7 @@ fn get_write_or_error<'a>(
 
 fn get_max_cache_size(cache_strategy: &CacheStrategy, used_cache_size: usize) -> usize {
     match cache_strategy {
-        CacheStrategy::FixedMaxMemory(max_size) => *max_size * 1_000_000,
+        CacheStrategy::FixedMaxMemory(max_size) => max_size.saturating_mul(1_000_000),
         CacheStrategy::PercentOfFreeMemory(max_percent) => {
             // get the current free space in main memory
             if let Ok(mem) = sys_info::mem_info() {
-- 
2.43.0


From 381eccaf596ec54eba21d82ba111a10aea13c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:55 +0000
Subject: [PATCH 53/53] fix: answer requests for subgraphs with a very large
 context in finite time

---
 .../src/annis/db/corpusstorage/subgraph.rs    | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/graphannis/src/annis/db/corpusstorage/subgraph.rs b/graphannis/src/annis/db/corpusstorage/subgraph.rs
index 722bafb..ad882ab 100644
--- a/graphannis/src/annis/db/corpusstorage/subgraph.rs
+++ b/graphannis/src/annis/db/corpusstorage/subgraph.rs
@@ -85,6 +85,19 @@ impl Iterator for TokenIterator<'_> {
     }
 }
 
+/// Restrict a requested context size to the number of nodes which are reachable in this direction.
+fn restrict_context<'a>(
+    ctx: usize,
+    reachable: Box<dyn Iterator<Item = CoreResult<NodeID>> + 'a>,
+) -> Result<usize> {
+    let mut number_of_reachable_nodes = 0;
+    for n in reachable {
+        n?;
+        number_of_reachable_nodes += 1;
+    }
+    Ok(ctx.min(number_of_reachable_nodes))
+}
+
 fn get_left_right_token_with_offset_with_token(
     ordering_edges: &dyn GraphStorage,
     ordered_covered_token: &[NodeID],
@@ -102,6 +115,14 @@ fn get_left_right_token_with_offset_with_token(
     // The context might be larger than the actual document, try to get the
     // largest possible context
     let mut left_with_context = left_most_covered_token;
+    let ctx_left = restrict_context(
+        ctx_left,
+        ordering_edges.find_connected_inverse(
+            left_most_covered_token,
+            1,
+            std::ops::Bound::Included(ctx_left),
+        ),
+    )?;
     for ctx in (0..=ctx_left).rev() {
         if let Some(result) = ordering_edges
             .find_connected_inverse(left_most_covered_token, ctx, std::ops::Bound::Included(ctx))
@@ -112,6 +133,14 @@ fn get_left_right_token_with_offset_with_token(
         }
     }
     let mut right_with_context = right_most_covered_token;
+    let ctx_right = restrict_context(
+        ctx_right,
+        ordering_edges.find_connected(
+            right_most_covered_token,
+            1,
+            std::ops::Bound::Included(ctx_right),
+        ),
+    )?;
     for ctx in (0..=ctx_right).rev() {
         if let Some(result) = ordering_edges
             .find_connected(
@@ -193,6 +222,10 @@ fn get_left_right_token_with_offset_with_segmentation(
     // The context might be larger than the actual document, try to get the
     // largest possible context
     let mut left_with_context = left_seg;
+    let ctx_left = restrict_context(
+        ctx_left,
+        gs_ordering.find_connected_inverse(left_seg, 1, std::ops::Bound::Included(ctx_left)),
+    )?;
     for ctx in (0..=ctx_left).rev() {
         if let Some(result) = gs_ordering
             .find_connected_inverse(left_seg, ctx, std::ops::Bound::Included(ctx))
@@ -203,6 +236,10 @@ fn get_left_right_token_with_offset_with_segmentation(
         }
     }
     let mut right_with_context = right_seg;
+    let ctx_right = restrict_context(
+        ctx_right,
+        gs_ordering.find_connected(right_seg, 1, std::ops::Bound::Included(ctx_right)),
+    )?;
     for ctx in (0..=ctx_right).rev() {
         if let Some(result) = gs_ordering
             .find_connected(right_seg, ctx, std::ops::Bound::Included(ctx))
-- 
2.43.0

