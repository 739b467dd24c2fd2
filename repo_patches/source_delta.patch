From 387cb81e717c3f8737427be605118bc8c94d8ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 01/24] fix: a failed procedure or chain no longer destroys
 secrets that existed before it

---
 client/src/types/client.rs | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/client/src/types/client.rs b/client/src/types/client.rs
index ae13eba..e9e07a5 100644
--- a/client/src/types/client.rs
+++ b/client/src/types/client.rs
@@ -243,22 +243,50 @@ impl Client {
         let mut log = Vec::new();
         // Execute the procedures sequentially.
         for proc in procedures {
-            if let Some(output) = proc.output() {
-                log.push(output);
-            }
+            // Remember what the output location held before.
+            let undo = proc.output().map(|location| {
+                let previous = self.export_record(&location);
+                (location, previous)
+            });
             let output = match proc.execute(self) {
                 Ok(o) => o,
                 Err(e) => {
-                    for location in log {
-                        let _ = self.revoke_data(&location);
+                    // Undo the changes of the procedures that succeeded, the last one first.
+                    for (location, previous) in log.into_iter().rev() {
+                        let _ = match previous {
+                            Some(record) => self.restore_record(&location, record),
+                            None => self.revoke_data(&location),
+                        };
                     }
                     return Err(e);
                 }
             };
+            log.extend(undo);
             out.push(output);
         }
         Ok(out)
     }
+
+    /// Returns a copy of the (encrypted) [`Record`] stored in `location`, if there is one.
+    fn export_record(&self, location: &Location) -> Option<Record> {
+        let (vault_id, record_id) = location.resolve();
+        let db = self.db.read().ok()?;
+        if !db.contains_record(vault_id, record_id) {
+            return None;
+        }
+        db.vaults.get(&vault_id)?.export_record(&record_id)
+    }
+
+    /// Puts back a [`Record`] that was returned by `export_record` for the same `location`.
+    fn restore_record(&self, location: &Location, record: Record) -> Result<(), RecordError> {
+        let (vault_id, record_id) = location.resolve();
+        let keystore = self.keystore.read().map_err(|_| RecordError::LockPoisoned)?;
+        let mut db = self.db.write().map_err(|_| RecordError::LockPoisoned)?;
+        match (keystore.get_key(vault_id), db.vaults.get_mut(&vault_id)) {
+            (Some(key), Some(vault)) => vault.extend(&key, [(record_id.into(), record)]),
+            _ => Ok(()),
+        }
+    }
 }
 
 impl<'a> SyncClients<'a> for Client {
-- 
2.43.0


From 03e3654dd8ea0a149953b809b5ab9ba076866686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 02/24] fix: concurrent borrows of guarded memory no longer
 race on the borrow count

---
 engine/runtime/src/boxed.rs | 57 +++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/engine/runtime/src/boxed.rs b/engine/runtime/src/boxed.rs
index 452e4ff..40f4bae 100644
--- a/engine/runtime/src/boxed.rs
+++ b/engine/runtime/src/boxed.rs
@@ -5,12 +5,13 @@ use crate::types::*;
 use zeroize::Zeroize;
 
 use core::{
-    cell::Cell,
     fmt::{self, Debug},
     mem,
     ptr::NonNull,
     slice,
+    sync::atomic::{AtomicU8, Ordering},
 };
+use std::sync::Mutex;
 
 use libsodium_sys::{
     sodium_allocarray, sodium_free, sodium_init, sodium_mlock, sodium_mprotect_noaccess, sodium_mprotect_readonly,
@@ -26,19 +27,60 @@ enum Prot {
 
 type RefCount = u8;
 
+/// The protection level, readable from every thread that shares the memory.
+struct ProtCell(AtomicU8);
+
+impl ProtCell {
+    fn new(prot: Prot) -> Self {
+        ProtCell(AtomicU8::new(prot as u8))
+    }
+
+    fn get(&self) -> Prot {
+        match self.0.load(Ordering::SeqCst) {
+            x if x == Prot::ReadOnly as u8 => Prot::ReadOnly,
+            x if x == Prot::ReadWrite as u8 => Prot::ReadWrite,
+            _ => Prot::NoAccess,
+        }
+    }
+
+    fn set(&self, prot: Prot) {
+        self.0.store(prot as u8, Ordering::SeqCst)
+    }
+}
+
+/// The number of borrows, readable from every thread that shares the memory.
+struct RefsCell(AtomicU8);
+
+impl RefsCell {
+    fn new(refs: RefCount) -> Self {
+        RefsCell(AtomicU8::new(refs))
+    }
+
+    fn get(&self) -> RefCount {
+        self.0.load(Ordering::SeqCst)
+    }
+
+    fn set(&self, refs: RefCount) {
+        self.0.store(refs, Ordering::SeqCst)
+    }
+}
+
 /// A protected piece of memory.
-#[derive(Eq)]
 pub(crate) struct Boxed<T: Bytes> {
     // the pointer to the underlying protected memory
     ptr: NonNull<T>,
     // The number of elements of type `T` that can be stored in the pointer.
     len: usize,
     // the current protection level of the data.
-    prot: Cell<Prot>,
+    prot: ProtCell,
     // The number of current borrows of this pointer.
-    refs: Cell<RefCount>,
+    refs: RefsCell,
+    // Serializes changes of the protection level and the number of borrows.
+    access: Mutex<()>,
 }
 
+impl<T: Bytes + Eq> Eq for Boxed<T> {}
+
 impl<T: Bytes> Boxed<T> {
     pub(crate) fn new<F>(len: usize, init: F) -> Self
     where
@@ -152,12 +194,14 @@ impl<T: Bytes> Boxed<T> {
         Self {
             ptr,
             len,
-            prot: Cell::new(Prot::ReadWrite),
-            refs: Cell::new(1),
+            prot: ProtCell::new(Prot::ReadWrite),
+            refs: RefsCell::new(1),
+            access: Mutex::new(()),
         }
     }
 
     fn retain(&self, prot: Prot) {
+        let _access = self.access.lock().unwrap_or_else(|e| e.into_inner());
         let refs = self.refs.get();
 
         if refs == 0 {
@@ -185,6 +229,7 @@ impl<T: Bytes> Boxed<T> {
     }
 
     fn release(&self) {
+        let _access = self.access.lock().unwrap_or_else(|e| e.into_inner());
         assert!(self.refs.get() != 0, "Releases exceeded retains");
 
         assert!(
-- 
2.43.0


From f2a622fe53a53f81bf995c48131b881800904394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 03/24] fix: an acknowledged commit survives a power failure
 and a failed one leaves no temporary file

---
 client/src/types/stronghold.rs |  4 +--
 engine/src/snapshot/logic.rs   | 51 ++++++++++++++++++++++++++++++++--
 2 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/client/src/types/stronghold.rs b/client/src/types/stronghold.rs
index 0c3e3ab..d693bf1 100644
--- a/client/src/types/stronghold.rs
+++ b/client/src/types/stronghold.rs
@@ -283,7 +283,7 @@ impl Stronghold {
             let path = snapshot_path.as_path().parent().ok_or_else(|| {
                 ClientError::SnapshotFileMissing("Parent directory of snapshot file does not exist".to_string())
             })?;
-            if let Err(io_error) = std::fs::create_dir_all(path) {
+            if let Err(io_error) = engine::snapshot::create_dir_all_durable(path) {
                 return Err(ClientError::SnapshotFileMissing(
                     "Could not create snapshot file".to_string(),
                 ));
@@ -321,7 +321,7 @@ impl Stronghold {
             let path = snapshot_path.as_path().parent().ok_or_else(|| {
                 ClientError::SnapshotFileMissing("Parent directory of snapshot file does not exist".to_string())
             })?;
-            if let Err(io_error) = std::fs::create_dir_all(path) {
+            if let Err(io_error) = engine::snapshot::create_dir_all_durable(path) {
                 return Err(ClientError::SnapshotFileMissing(
                     "Could not create snapshot file".to_string(),
                 ));
diff --git a/engine/src/snapshot/logic.rs b/engine/src/snapshot/logic.rs
index c388a5a..ac41742 100644
--- a/engine/src/snapshot/logic.rs
+++ b/engine/src/snapshot/logic.rs
@@ -2,7 +2,7 @@
 // SPDX-License-Identifier: Apache-2.0
 
 use std::{
-    fs::{rename, File, OpenOptions},
+    fs::{create_dir, remove_file, rename, File, OpenOptions},
     io::{Read, Write},
     path::Path,
 };
@@ -183,14 +183,59 @@ pub fn write_to(plain: &[u8], path: &Path, key: &Key, associated_data: &[u8]) ->
     let tmp = Path::new(&s);
 
     let mut f = OpenOptions::new().write(true).create_new(true).open(tmp)?;
+    let res = write_file(&compressed_plain, &mut f, key, associated_data).and_then(|_| {
+        rename(tmp, path)?;
+        sync_parent_dir(path)?;
+        Ok(())
+    });
+    if res.is_err() {
+        // Don't leave the incomplete temporary file behind.
+        let _ = remove_file(tmp);
+    }
+    res
+}
+
+/// Write the header and the encrypted content and flush them to the disk.
+fn write_file(compressed_plain: &[u8], f: &mut File, key: &Key, associated_data: &[u8]) -> Result<(), WriteError> {
     // write magic and version bytes
     f.write_all(&MAGIC)?;
     f.write_all(&VERSION)?;
-    write(&compressed_plain, &mut f, key, associated_data)?;
+    write(compressed_plain, f, key, associated_data)?;
     f.sync_all()?;
+    Ok(())
+}
 
-    rename(tmp, path)?;
+/// Flush the directory that contains `path`, without which a new or renamed entry may be lost on
+/// power failure.
+pub fn sync_parent_dir(path: &Path) -> std::io::Result<()> {
+    #[cfg(unix)]
+    {
+        let parent = match path.parent() {
+            Some(p) if !p.as_os_str().is_empty() => p,
+            _ => Path::new("."),
+        };
+        File::open(parent)?.sync_all()?;
+    }
+    Ok(())
+}
 
+/// Create the directory `dir` and its missing parents such that they survive a power failure.
+pub fn create_dir_all_durable(dir: &Path) -> std::io::Result<()> {
+    if dir.as_os_str().is_empty() {
+        return Ok(());
+    }
+    if let Some(parent) = dir.parent() {
+        create_dir_all_durable(parent)?;
+    }
+    if !dir.is_dir() {
+        match create_dir(dir) {
+            Ok(()) => return sync_parent_dir(dir),
+            Err(e) if !dir.is_dir() => return Err(e),
+            Err(_) => {}
+        }
+    }
+    // The directory may just have been created by someone else who did not flush it yet.
+    let _ = sync_parent_dir(dir);
     Ok(())
 }
 
-- 
2.43.0


From 3ae2eeadbf377fd27bad0d16006364ecf22cd9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:52 +0000
Subject: [PATCH 04/24] fix: a refused load of a loaded client leaves the
 snapshot in memory as it was

---
 client/src/types/stronghold.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/types/stronghold.rs b/client/src/types/stronghold.rs
index d693bf1..794ee7b 100644
--- a/client/src/types/stronghold.rs
+++ b/client/src/types/stronghold.rs
@@ -129,13 +129,13 @@ impl Stronghold {
         let mut snapshot = self.snapshot.write()?;
         let mut clients = self.clients.write()?;
 
-        load_snapshot!(snapshot, snapshot_path, keyprovider);
-
         // If a client has already been loaded returns an error
         if clients.contains_key(&client_id) {
             return Err(ClientError::ClientAlreadyLoaded(client_id));
         }
 
+        load_snapshot!(snapshot, snapshot_path, keyprovider);
+
         let client_state: ClientState = snapshot
             .get_state(client_id)
             .map_err(|e| ClientError::Inner(e.to_string()))?;
-- 
2.43.0


From 7595ceb365f8cab184c6770e5b8427ffcbfa23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 05/24] fix: clear removes clients and their saved states in
 one step

---
 client/src/types/stronghold.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/src/types/stronghold.rs b/client/src/types/stronghold.rs
index 794ee7b..ba7f9c3 100644
--- a/client/src/types/stronghold.rs
+++ b/client/src/types/stronghold.rs
@@ -371,8 +371,9 @@ impl Stronghold {
     /// snapshot file. Use [`Self::load_client_from_snapshot`] to reload any [`Client`] and
     /// [`Snapshot`] state
     pub fn clear(&self) -> Result<(), ClientError> {
-        self.snapshot.write()?.clear()?;
+        let mut snapshot = self.snapshot.write()?;
         let mut clients = self.clients.write()?;
+        snapshot.clear()?;
         self.store.clear()?;
         self.key_location.write()?.take();
         for (_, client) in clients.drain() {
-- 
2.43.0


From 2e56ec566144d7f6941fbadb99067612d9df05ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 06/24] fix: purging a client wipes it for every holder of a
 handle

---
 client/src/types/stronghold.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/src/types/stronghold.rs b/client/src/types/stronghold.rs
index ba7f9c3..af734c5 100644
--- a/client/src/types/stronghold.rs
+++ b/client/src/types/stronghold.rs
@@ -216,7 +216,10 @@ impl Stronghold {
     pub fn purge_client(&self, client: Client) -> Result<(), ClientError> {
         let mut snapshot = self.snapshot.write()?;
         let mut clients = self.clients.write()?;
-        clients.remove(client.id());
+        if let Some(loaded) = clients.remove(client.id()) {
+            loaded.clear()?;
+        }
+        client.clear()?;
 
         snapshot
             .purge_client(*client.id())
-- 
2.43.0


From c11e278023cdaf66d3e2a1f495cbfb9ba326edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 07/24] fix: store lifetimes and clock changes no longer make
 store operations panic

A lifetime beyond what the system time can represent overflowed, and a cache
with a scanner panicked once the system time was set back.
---
 engine/src/store/storage.rs       | 3 ++-
 engine/src/store/storage/cache.rs | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/engine/src/store/storage.rs b/engine/src/store/storage.rs
index 7c8b217..dfa7296 100644
--- a/engine/src/store/storage.rs
+++ b/engine/src/store/storage.rs
@@ -20,7 +20,8 @@ impl<T> Value<T> {
     pub fn new(val: T, duration: Option<Duration>) -> Self {
         Value {
             val,
-            expiration: duration.map(|d| SystemTime::now() + d),
+            // A lifetime that ends later than the system time can represent never ends.
+            expiration: duration.and_then(|d| SystemTime::now().checked_add(d)),
         }
     }
 
diff --git a/engine/src/store/storage/cache.rs b/engine/src/store/storage/cache.rs
index b0b66f0..cad3770 100644
--- a/engine/src/store/storage/cache.rs
+++ b/engine/src/store/storage/cache.rs
@@ -248,11 +248,12 @@ impl<K: Hash + Eq + Clone, V: Clone + Debug> Cache<K, V> {
     /// attempts to remove expired items based on the current system time provided.
     fn try_remove_expired_items(&mut self, now: SystemTime) {
         if let Some(frequency) = self.scan_freq {
-            let since = now
+            // If the system time was set back behind the last scan, the scan is due.
+            let due = now
                 .duration_since(self.last_scan_at.unwrap_or(self.created_at))
-                .expect("System time is before the scanned time");
+                .map_or(true, |since| since >= frequency);
 
-            if since >= frequency {
+            if due {
                 self.table.retain(|_, value| !value.has_expired(now));
 
                 self.last_scan_at = Some(now)
-- 
2.43.0


From 09cc86ba5960882a51f187df4b094dfc9c4fb631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:18 +0000
Subject: [PATCH 08/24] fix: comparing records with a mapped vault uses that
 vault's key

Synchronising into a differently named vault that already held one of the
records failed with InvalidKey.
---
 client/src/sync.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index ee7bdee..6cd41a0 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -158,14 +158,14 @@ pub(crate) trait SyncClients<'a> {
                 }
                 match &key_provider {
                     KeyProvider::KeyStore(ks) => {
-                        if let Some(target_key) = ks.get_key(vid) {
+                        if let Some(target_key) = ks.get_key(mapped_vid) {
                             if db.get_blob_id(&target_key, mapped_vid, rid)? == bid {
                                 continue;
                             }
                         }
                     }
                     KeyProvider::KeyMap(map) => {
-                        if let Some(target_key) = map.get(&vid) {
+                        if let Some(target_key) = map.get(&mapped_vid) {
                             if db.get_blob_id(target_key, mapped_vid, rid)? == bid {
                                 continue;
                             }
-- 
2.43.0


From d49c8c952abe1b7cd63469073893aa5f056e0591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:18 +0000
Subject: [PATCH 09/24] fix: a record selection also applies if the target
 vault does not exist yet

---
 client/src/sync.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index 6cd41a0..b3fd9e0 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -136,11 +136,6 @@ pub(crate) trait SyncClients<'a> {
                 }
             }
             let mapped_vid = config.map_vaults.get(&vid).copied().unwrap_or(vid);
-            if !db.contains_vault(&mapped_vid) {
-                let d = list.into_iter().map(|(rid, _)| rid).collect();
-                diff.insert(vid, d);
-                continue;
-            }
             let select_records = config.select_records.get(&vid);
             let mut record_diff = Vec::new();
             for (rid, bid) in list {
-- 
2.43.0


From 6d606b28418f8d949f957025bf06a314c4ac31c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:18 +0000
Subject: [PATCH 10/24] fix: synchronisation skips revoked records instead of
 failing or panicking

---
 engine/src/vault/view.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 3874686..0d9ce96 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -282,6 +282,7 @@ impl<P: BoxProvider> DbView<P> {
         let list = records
             .into_iter()
             .filter_map(|rid| vault.export_record(&rid).map(|r| (rid, r)))
+            .filter(|(_, record)| record.revoke.is_none())
             .collect();
         Ok(list)
     }
@@ -299,9 +300,7 @@ impl<P: BoxProvider> DbView<P> {
             self.init_vault(new_key, vid);
         }
         for (rid, record) in &mut records {
-            record
-                .update_meta(old_key, (*rid).into(), new_key, (*rid).into())
-                .unwrap();
+            record.update_meta(old_key, (*rid).into(), new_key, (*rid).into())?;
         }
         let vault = self.vaults.get_mut(&vid).expect("Vault was initiated.");
         vault.extend(new_key, records.into_iter().map(|(rid, r)| (rid.0, r)))
@@ -373,10 +372,10 @@ impl<P: BoxProvider> Vault<P> {
         buf
     }
 
-    /// List the [`RecordId`]s of the entries stored in this [`Vault`].
+    /// List the [`RecordId`]s of the entries stored in this [`Vault`], without those that are revoked.
     fn list_entries(&self, key: &Key<P>) -> Result<Vec<(RecordId, BlobId)>, RecordError<P::Error>> {
         let mut buf = Vec::new();
-        for (&id, record) in self.entries.iter() {
+        for (&id, record) in self.entries.iter().filter(|(_, record)| record.revoke.is_none()) {
             let blob_id = record.get_blob_id(key, id)?;
             buf.push((id.into(), blob_id))
         }
-- 
2.43.0


From 72fceabd12bb568534ef0f30fce41c315ef953d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 11/24] fix: importing client data honours the mapping of
 clients and vaults

A mapped vault panicked or was stored under its old name, a mapped client was
compared with and merged into the unmapped one, and errors were dropped.
---
 client/src/sync.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index b3fd9e0..2effdcf 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -305,7 +305,7 @@ pub(crate) trait SyncSnapshots {
                 };
                 Ok(Some(client_diff))
             };
-            if let Some(client_diff) = self.get_from_state(cid, f)? {
+            if let Some(client_diff) = self.get_from_state(mapped_cid, f)? {
                 diff.insert(cid, client_diff);
             }
         }
@@ -360,25 +360,25 @@ pub(crate) trait SyncSnapshots {
                         records.retain(|(rid, _)| select_records.contains(rid));
                     }
                     let mapped_vid = config.map_vaults.get(&vid).copied().unwrap_or(vid);
-                    state.0.entry(vid).or_insert_with(Key::random);
+                    state.0.entry(mapped_vid).or_insert_with(Key::random);
                     let old_key = old_keystore
                         .get(&vid)
                         .ok_or_else(|| SnapshotError::Inner(format!("Missing Key for vault {:?}", vid)))?;
                     let new_key = state.0.get(&mapped_vid).expect("Key was inserted.");
-                    state.1.import_records(old_key, new_key, vid, records)?;
+                    state.1.import_records(old_key, new_key, mapped_vid, records)?;
                 }
                 Ok(())
             };
-            let f = match config.client_config.get(&cid) {
-                Some(c) => self.update_state(cid, |state| import_records(state, c)),
+            match config.client_config.get(&cid) {
+                Some(c) => self.update_state(mapped_cid, |state| import_records(state, c)),
                 None => {
                     let config = SyncClientsConfig {
                         merge_policy: config.merge_policy,
                         ..Default::default()
                     };
-                    self.update_state(cid, |state| import_records(state, &config))
+                    self.update_state(mapped_cid, |state| import_records(state, &config))
                 }
-            };
+            }?;
         }
         Ok(())
     }
-- 
2.43.0


From d28cf335b98a1fc318ee401debd11571f86d48b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:13 +0000
Subject: [PATCH 12/24] fix: a malformed buffer length in received data is an
 error, not a panic

---
 engine/runtime/src/memories/buffer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/memories/buffer.rs b/engine/runtime/src/memories/buffer.rs
index 2b32dca..e88577c 100644
--- a/engine/runtime/src/memories/buffer.rs
+++ b/engine/runtime/src/memories/buffer.rs
@@ -261,7 +261,8 @@ where
     where
         E: SeqAccess<'de>,
     {
-        let mut seq = Vec::<T>::with_capacity(access.size_hint().unwrap_or(0));
+        // The length is only a hint: it comes from the input, which may be malformed.
+        let mut seq = Vec::<T>::with_capacity(access.size_hint().unwrap_or(0).min(4096));
 
         while let Some(e) = access.next_element()? {
             seq.push(e);
-- 
2.43.0


From 5ecedea78387d2d6f1533d224e928f5670b3bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 13/24] fix: a clone of a memory fragment has memory of its own

---
 engine/runtime/src/memories/frag.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index 715317b..cbd7047 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -57,7 +57,6 @@ pub trait Alloc<T: Default + Clone> {
 
 /// Frag is being used as control object to load different allocators
 /// according to their strategy
-#[derive(Clone)]
 pub struct Frag<T: Default + Clone> {
     ptr: NonNull<T>,
     strategy: FragStrategy,
@@ -72,6 +71,24 @@ pub struct Frag<T: Default + Clone> {
     info: Option<(windows::Win32::Foundation::HANDLE, *const libc::c_void)>,
 }
 
+impl<T: Default + Clone> Clone for Frag<T> {
+    /// A clone is a fragment of its own holding the same value. It must not share the memory of the
+    /// original, as each of them erases and releases its memory when it is dropped.
+    fn clone(&self) -> Self {
+        let config = Some(FragConfig::new(self.ptr.as_ptr() as usize));
+        let mut frag = match self.strategy {
+            FragStrategy::Map => MemoryMapAlloc::alloc(config),
+            FragStrategy::Direct | FragStrategy::Hybrid => DirectAlloc::alloc(config),
+        }
+        .expect("Error while allocating fragment memory");
+        match self.get() {
+            Ok(value) => frag.set(value.clone()).expect("A new fragment is live"),
+            Err(_) => frag.zeroize(),
+        }
+        frag
+    }
+}
+
 impl<T: Default + Clone> Zeroize for Frag<T> {
     fn zeroize(&mut self) {
         self.live = false;
-- 
2.43.0


From b565825705b356b6479c78047482684ef2ec4a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 14/24] fix: keys of client states do not collide with stored
 snapshot keys

---
 client/src/types/snapshot.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index dbca914..d0adeed 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -26,7 +26,7 @@ use zeroize::Zeroize;
 use crate::{
     procedures::{DeriveSecret, X25519DiffieHellman},
     sync::{self, KeyProvider, SnapshotHierarchy, SyncClients, SyncClientsConfig, SyncSnapshots, SyncSnapshotsConfig},
-    ClientError, KeyStore, Location, Provider, SnapshotError,
+    ClientError, KeyStore, LoadFromPath, Location, Provider, SnapshotError,
 };
 
 type EncryptedClientState = (Vec<u8>, Cache<Vec<u8>, Vec<u8>>);
@@ -131,6 +131,12 @@ pub enum UseKey {
     Stored(Location),
 }
 
+/// The place of the key that encrypts a client's state in the keystore of a [`Snapshot`]. It is distinct from the
+/// places of keys that users store, whose vault may have the same path as a client.
+fn state_key_id(id: ClientId) -> VaultId {
+    VaultId::load_from_path(id.as_ref(), b"client state key")
+}
+
 impl Snapshot {
     /// Creates a new [`Snapshot`] from a buffer of [`SnapshotState`] state.
     pub fn from_state(
@@ -161,7 +167,7 @@ impl Snapshot {
 
     /// Gets the state component parts as a tuple.
     pub fn get_state(&self, id: ClientId) -> Result<ClientState, SnapshotError> {
-        let vid = VaultId(id.0);
+        let vid = state_key_id(id);
         let ((encrypted, store), key) = match self
             .states
             .get(&id)
@@ -243,7 +249,7 @@ impl Snapshot {
         ),
     ) -> Result<(), SnapshotError> {
         let bytes = bincode::serialize(&(keys, db))?;
-        let vault_id = VaultId(id.0);
+        let vault_id = state_key_id(id);
         let key: snapshot::Key = random::random();
         let mut buffer = Vec::new();
         write(&bytes, &mut buffer, &key, &[])?;
-- 
2.43.0


From c6beab234653b351f4329a361f4b644279a267c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:24 +0000
Subject: [PATCH 15/24] fix: loading a snapshot keeps the snapshot key stored
 in the instance

---
 client/src/types/snapshot.rs   | 12 ++++++++++++
 client/src/types/stronghold.rs |  7 ++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index d0adeed..d8ea7b0 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -308,6 +308,18 @@ impl Snapshot {
         Ok(())
     }
 
+    /// Takes over the keys stored in another [`Snapshot`] with [`Self::store_snapshot_key`] or
+    /// [`Self::store_secret_key`].
+    pub(crate) fn take_stored_keys(&mut self, other: &mut Snapshot) -> Result<(), SnapshotError> {
+        for vault_id in other.db.list_vaults() {
+            if let Some(key) = other.keystore.get_key(vault_id) {
+                self.keystore.insert_key(vault_id, key)?;
+            }
+        }
+        self.db = std::mem::take(&mut other.db);
+        Ok(())
+    }
+
     /// Merge another state into the currently loaded snapshot.
     pub fn merge_state(&mut self, mut state: SnapshotState, config: SyncSnapshotsConfig) -> Result<(), SnapshotError> {
         let hierarchy = state.get_hierarchy(config.select_clients.clone())?;
diff --git a/client/src/types/stronghold.rs b/client/src/types/stronghold.rs
index af734c5..3667aa6 100644
--- a/client/src/types/stronghold.rs
+++ b/client/src/types/stronghold.rs
@@ -66,8 +66,13 @@ macro_rules! load_snapshot {
                 .map_err(|e| ClientError::Inner(format!("{:?}", e)))?;
             let buffer_ref = buffer.borrow().deref().try_into().unwrap();
 
-            *($snapshot) = Snapshot::read_from_snapshot(($snapshot_path), buffer_ref, None)
+            let mut loaded = Snapshot::read_from_snapshot(($snapshot_path), buffer_ref, None)
                 .map_err(|e| ClientError::Inner(e.to_string()))?;
+            // loading replaces the states of the clients, not the keys stored in this session
+            loaded
+                .take_stored_keys(&mut ($snapshot))
+                .map_err(|e| ClientError::Inner(e.to_string()))?;
+            *($snapshot) = loaded;
             // END CRITICAL SECTION
         }
     }};
-- 
2.43.0


From e613a86e58c715b711ad70c5016a0af1a2f4fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:25 +0000
Subject: [PATCH 16/24] fix: create the files of FileMemory readable by nobody
 else

---
 engine/runtime/src/memories/file_memory.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 1fdec12..4f9b66c 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -14,13 +14,13 @@ use serde::{
     ser::{Serialize, Serializer},
 };
 use std::{
-    fs::{self, File},
+    fs::{self, File, OpenOptions},
     io::{self, prelude::*},
     path::PathBuf,
 };
 
 #[cfg(unix)]
-use std::os::unix::fs::PermissionsExt;
+use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
 
 use zeroize::Zeroize;
 
@@ -165,7 +165,12 @@ impl FileMemory {
                 return err;
             }
         };
-        let mut file = File::create(&self.fname)?;
+        // The file is private from the start on
+        let mut options = OpenOptions::new();
+        options.write(true).create(true).truncate(true);
+        #[cfg(unix)]
+        options.mode(0o200);
+        let mut file = options.open(&self.fname)?;
         file.write_all(payload.as_bytes())?;
         self.lock_file()
     }
-- 
2.43.0


From f880e3ad1181b26f61de4a3f67ae04f486c5562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:58 +0000
Subject: [PATCH 17/24] fix: remove the file of a dropped FileMemory even if it
 cannot be cleared

---
 engine/runtime/src/memories/file_memory.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 4f9b66c..55ae718 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -63,12 +63,17 @@ impl FileMemory {
     }
 
     fn clear_and_delete_file(&self) -> Result<(), std::io::Error> {
+        let cleared = self.clear_file();
+        // Remove file, even if it could not be cleared
+        fs::remove_file(&self.fname)?;
+        cleared
+    }
+
+    fn clear_file(&self) -> Result<(), std::io::Error> {
         self.set_write_only()?;
         let mut file = File::create(&self.fname)?;
         // Zeroes out the file
-        file.write_all(&vec![0; self.size])?;
-        // Remove file
-        fs::remove_file(&self.fname)
+        file.write_all(&vec![0; self.size])
     }
 
     // We create a directory in the home directory to store the data
-- 
2.43.0


From 837cc7e421742f3443a87959831f81d756bdf859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:31 +0000
Subject: [PATCH 18/24] fix: report disk errors when file-backed memory is
 (de)serialized instead of panicking

---
 engine/runtime/src/memories/file_memory.rs    | 11 ++++++----
 .../src/memories/noncontiguous_memory.rs      | 21 ++++++++++++-------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 55ae718..7a0a8d5 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -10,8 +10,8 @@ use core::{
 };
 use dirs::{data_local_dir, home_dir};
 use serde::{
-    de::{Deserialize, Deserializer, SeqAccess, Visitor},
-    ser::{Serialize, Serializer},
+    de::{self, Deserialize, Deserializer, SeqAccess, Visitor},
+    ser::{self, Serialize, Serializer},
 };
 use std::{
     fs::{self, File, OpenOptions},
@@ -250,7 +250,9 @@ impl Serialize for FileMemory {
     where
         S: Serializer,
     {
-        let buf = self.unlock().expect("Failed to unlock file memory for serialization");
+        let buf = self
+            .unlock()
+            .map_err(|e| ser::Error::custom(format!("Failed to unlock file memory for serialization: {}", e)))?;
         buf.serialize(serializer)
     }
 }
@@ -282,7 +284,8 @@ impl<'de> Visitor<'de> for FileMemoryVisitor {
             seq.push(e);
         }
 
-        let seq = FileMemory::alloc(seq.as_slice(), seq.len()).expect("Failed to deserialize file memory");
+        let seq = FileMemory::alloc(seq.as_slice(), seq.len())
+            .map_err(|e| de::Error::custom(format!("Failed to deserialize file memory: {}", e)))?;
 
         Ok(seq)
     }
diff --git a/engine/runtime/src/memories/noncontiguous_memory.rs b/engine/runtime/src/memories/noncontiguous_memory.rs
index a7f7fab..9b04c7c 100644
--- a/engine/runtime/src/memories/noncontiguous_memory.rs
+++ b/engine/runtime/src/memories/noncontiguous_memory.rs
@@ -24,8 +24,8 @@ use crypto::hashes::{blake2b, Digest};
 use zeroize::Zeroize;
 
 use serde::{
-    de::{Deserialize, Deserializer, SeqAccess, Visitor},
-    ser::{Serialize, Serializer},
+    de::{self, Deserialize, Deserializer, SeqAccess, Visitor},
+    ser::{self, Serialize, Serializer},
 };
 
 use std::{cell::RefCell, sync::Mutex};
@@ -280,9 +280,12 @@ impl Serialize for NonContiguousMemory {
     where
         S: Serializer,
     {
-        let buf = self
-            .unlock()
-            .expect("Failed to unlock NonContiguousMemory for serialization");
+        let buf = self.unlock().map_err(|e| {
+            ser::Error::custom(format!(
+                "Failed to unlock NonContiguousMemory for serialization: {}",
+                e
+            ))
+        })?;
         buf.serialize(serializer)
     }
 }
@@ -314,8 +317,12 @@ impl<'de> Visitor<'de> for NonContiguousMemoryVisitor {
             seq.push(e);
         }
 
-        let seq = NonContiguousMemory::alloc(seq.as_slice(), seq.len(), NC_CONFIGURATION)
-            .expect("Failed to allocate NonContiguousMemory during deserialization");
+        let seq = NonContiguousMemory::alloc(seq.as_slice(), seq.len(), NC_CONFIGURATION).map_err(|e| {
+            de::Error::custom(format!(
+                "Failed to allocate NonContiguousMemory during deserialization: {}",
+                e
+            ))
+        })?;
 
         Ok(seq)
     }
-- 
2.43.0


From 56d1fdb873b16d27c45bd838dcc5fbfbd9a2c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:55 +0000
Subject: [PATCH 19/24] fix: a failing copy of FileMemory leaves no file behind
 and locks the original again

---
 engine/runtime/src/memories/file_memory.rs | 29 +++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 7a0a8d5..afdb1d1 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -103,6 +103,22 @@ impl FileMemory {
         Ok(content)
     }
 
+    fn copy_file(&self) -> Result<Self, std::io::Error> {
+        // From here on dropping it removes an incomplete copy
+        let fm = FileMemory {
+            fname: FileMemory::new_fname()?,
+            noise: self.noise.clone(),
+            size: self.size,
+        };
+        let copied = self
+            .set_read_only()
+            .and_then(|_| fs::copy(&self.fname, &fm.fname));
+        self.lock_file()?;
+        copied?;
+        fm.lock_file()?;
+        Ok(fm)
+    }
+
     // Set access control to minimum on the file
     #[cfg(unix)]
     fn lock_file(&self) -> Result<(), std::io::Error> {
@@ -230,18 +246,7 @@ impl Debug for FileMemory {
 /// To clone file memory we make a duplicate of the file containing the data
 impl Clone for FileMemory {
     fn clone(&self) -> Self {
-        let error_msg = "Issue while copying file";
-        let fname = FileMemory::new_fname().expect(error_msg);
-        self.set_read_only().expect(error_msg);
-        fs::copy(&self.fname, fname.clone()).expect(error_msg);
-        self.lock_file().expect(error_msg);
-        let fm = FileMemory {
-            fname,
-            noise: self.noise.clone(),
-            size: self.size,
-        };
-        fm.lock_file().expect(error_msg);
-        fm
+        self.copy_file().expect("Issue while copying file")
     }
 }
 
-- 
2.43.0


From 1f6b49d62fe7fc070e232cc73f5762562b952b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 20/24] fix: lock the file of FileMemory again after a failed
 read

---
 engine/runtime/src/memories/file_memory.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index afdb1d1..08faee0 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -97,10 +97,10 @@ impl FileMemory {
 
     // Set access control before and after reading the file
     fn read_file(&self) -> Result<Vec<u8>, std::io::Error> {
-        self.set_read_only()?;
-        let content = fs::read(&self.fname)?;
+        let content = self.set_read_only().and_then(|_| fs::read(&self.fname));
+        // Lock the file again, even if it could not be read
         self.lock_file()?;
-        Ok(content)
+        content
     }
 
     fn copy_file(&self) -> Result<Self, std::io::Error> {
-- 
2.43.0


From 16b00b2c36ad77bf404e665f9bacea24f0bf2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:05 +0000
Subject: [PATCH 21/24] fix: concurrent unlocks of one FileMemory don't lock
 each other's file

---
 engine/runtime/src/memories/file_memory.rs      | 17 +++++++++++++----
 .../src/memories/noncontiguous_memory.rs        |  5 +----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 08faee0..c3dd0e3 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -17,6 +17,7 @@ use std::{
     fs::{self, File, OpenOptions},
     io::{self, prelude::*},
     path::PathBuf,
+    sync::Mutex,
 };
 
 #[cfg(unix)]
@@ -35,6 +36,8 @@ pub struct FileMemory {
     noise: Vec<u8>,
     // Size of the decrypted data
     size: usize,
+    // Held while the file is unlocked, since others would lock it again too early
+    access: Mutex<()>,
 }
 
 impl FileMemory {
@@ -50,7 +53,12 @@ impl FileMemory {
 
         // Write to file
         let fname = FileMemory::new_fname().or(Err(FileSystemError))?;
-        let fm = FileMemory { fname, noise, size };
+        let fm = FileMemory {
+            fname,
+            noise,
+            size,
+            access: Mutex::default(),
+        };
         fm.write_to_file(&data).or(Err(FileSystemError))?;
         Ok(fm)
     }
@@ -97,6 +105,7 @@ impl FileMemory {
 
     // Set access control before and after reading the file
     fn read_file(&self) -> Result<Vec<u8>, std::io::Error> {
+        let _access = self.access.lock();
         let content = self.set_read_only().and_then(|_| fs::read(&self.fname));
         // Lock the file again, even if it could not be read
         self.lock_file()?;
@@ -104,15 +113,15 @@ impl FileMemory {
     }
 
     fn copy_file(&self) -> Result<Self, std::io::Error> {
+        let _access = self.access.lock();
         // From here on dropping it removes an incomplete copy
         let fm = FileMemory {
             fname: FileMemory::new_fname()?,
             noise: self.noise.clone(),
             size: self.size,
+            access: Mutex::default(),
         };
-        let copied = self
-            .set_read_only()
-            .and_then(|_| fs::copy(&self.fname, &fm.fname));
+        let copied = self.set_read_only().and_then(|_| fs::copy(&self.fname, &fm.fname));
         self.lock_file()?;
         copied?;
         fm.lock_file()?;
diff --git a/engine/runtime/src/memories/noncontiguous_memory.rs b/engine/runtime/src/memories/noncontiguous_memory.rs
index 9b04c7c..eefc829 100644
--- a/engine/runtime/src/memories/noncontiguous_memory.rs
+++ b/engine/runtime/src/memories/noncontiguous_memory.rs
@@ -281,10 +281,7 @@ impl Serialize for NonContiguousMemory {
         S: Serializer,
     {
         let buf = self.unlock().map_err(|e| {
-            ser::Error::custom(format!(
-                "Failed to unlock NonContiguousMemory for serialization: {}",
-                e
-            ))
+            ser::Error::custom(format!("Failed to unlock NonContiguousMemory for serialization: {}", e))
         })?;
         buf.serialize(serializer)
     }
-- 
2.43.0


From 442e8f3caaf58f052fc929bd0239808e5657e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 22/24] fix: a failing chain also undoes ConcatSecret,
 AesKeyWrapDecrypt and RevokeData

---
 client/src/procedures/primitives.rs |  5 +++++
 client/src/types/client.rs          | 11 ++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index 9aa5386..e46f534 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -135,6 +135,11 @@ impl StrongholdProcedure {
             | StrongholdProcedure::X25519DiffieHellman(X25519DiffieHellman { shared_key: output, .. })
             | StrongholdProcedure::Hkdf(Hkdf { okm: output, .. })
             | StrongholdProcedure::ConcatKdf(ConcatKdf { output, .. })
+            | StrongholdProcedure::AesKeyWrapDecrypt(AesKeyWrapDecrypt { output, .. })
+            | StrongholdProcedure::ConcatSecret(ConcatSecret {
+                output_location: output,
+                ..
+            })
             | StrongholdProcedure::Pbkdf2Hmac(Pbkdf2Hmac { output, .. }) => Some(output.clone()),
             _ => None,
         }
diff --git a/client/src/types/client.rs b/client/src/types/client.rs
index e9e07a5..446f93a 100644
--- a/client/src/types/client.rs
+++ b/client/src/types/client.rs
@@ -5,7 +5,8 @@ use super::{location, snapshot};
 use crate::{
     derive_vault_id,
     procedures::{
-        FatalProcedureError, Procedure, ProcedureError, ProcedureOutput, Products, Runner, StrongholdProcedure,
+        FatalProcedureError, Procedure, ProcedureError, ProcedureOutput, Products, RevokeData, Runner,
+        StrongholdProcedure,
     },
     sync::{KeyProvider, MergePolicy, SyncClients, SyncClientsConfig, SyncSnapshots, SyncSnapshotsConfig},
     ClientError, ClientState, ClientVault, KeyStore, Location, Provider, RecordError, SnapshotError, Store, Stronghold,
@@ -243,8 +244,12 @@ impl Client {
         let mut log = Vec::new();
         // Execute the procedures sequentially.
         for proc in procedures {
-            // Remember what the output location held before.
-            let undo = proc.output().map(|location| {
+            // Remember what the location that the procedure changes held before.
+            let changed = match &proc {
+                StrongholdProcedure::RevokeData(RevokeData { location, .. }) => Some(location.clone()),
+                proc => proc.output(),
+            };
+            let undo = changed.map(|location| {
                 let previous = self.export_record(&location);
                 (location, previous)
             });
-- 
2.43.0


From 05c72c981198df7600cdbba30e6454676ce90a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 23/24] fix: locations written by a failing chain are free
 again afterwards

---
 client/src/types/client.rs | 22 ++++++++++------------
 engine/src/vault/view.rs   |  5 +++++
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/client/src/types/client.rs b/client/src/types/client.rs
index 446f93a..9c02498 100644
--- a/client/src/types/client.rs
+++ b/client/src/types/client.rs
@@ -258,10 +258,7 @@ impl Client {
                 Err(e) => {
                     // Undo the changes of the procedures that succeeded, the last one first.
                     for (location, previous) in log.into_iter().rev() {
-                        let _ = match previous {
-                            Some(record) => self.restore_record(&location, record),
-                            None => self.revoke_data(&location),
-                        };
+                        let _ = self.restore_record(&location, previous);
                     }
                     return Err(e);
                 }
@@ -276,21 +273,22 @@ impl Client {
     fn export_record(&self, location: &Location) -> Option<Record> {
         let (vault_id, record_id) = location.resolve();
         let db = self.db.read().ok()?;
-        if !db.contains_record(vault_id, record_id) {
-            return None;
-        }
         db.vaults.get(&vault_id)?.export_record(&record_id)
     }
 
-    /// Puts back a [`Record`] that was returned by `export_record` for the same `location`.
-    fn restore_record(&self, location: &Location, record: Record) -> Result<(), RecordError> {
+    /// Puts back what `export_record` returned for the same `location`.
+    fn restore_record(&self, location: &Location, previous: Option<Record>) -> Result<(), RecordError> {
         let (vault_id, record_id) = location.resolve();
         let keystore = self.keystore.read().map_err(|_| RecordError::LockPoisoned)?;
         let mut db = self.db.write().map_err(|_| RecordError::LockPoisoned)?;
-        match (keystore.get_key(vault_id), db.vaults.get_mut(&vault_id)) {
-            (Some(key), Some(vault)) => vault.extend(&key, [(record_id.into(), record)]),
-            _ => Ok(()),
+        if let Some(vault) = db.vaults.get_mut(&vault_id) {
+            match (previous, keystore.get_key(vault_id)) {
+                (None, _) => vault.remove_record(&record_id),
+                (Some(record), Some(key)) => vault.extend(&key, [(record_id.into(), record)])?,
+                _ => (),
+            }
         }
+        Ok(())
     }
 }
 
diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 0d9ce96..4f9fca3 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -357,6 +357,11 @@ impl<P: BoxProvider> Vault<P> {
         self.entries.get(&rid.0).cloned()
     }
 
+    /// Removes the record stored in the current vault, if there is one.
+    pub fn remove_record(&mut self, rid: &RecordId) {
+        self.entries.remove(&rid.0);
+    }
+
     /// List the [`RecordHint`] values and [`RecordId`] values of the specified [`Vault`].
     pub(crate) fn list_hints_and_ids(&self, key: &Key<P>) -> Vec<(RecordId, RecordHint)> {
         let mut buf: Vec<(RecordId, RecordHint)> = Vec::new();
-- 
2.43.0


From 6722ca5685f8a8eb276539e087e214a75ff2423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 24/24] fix: AES key wrap with a key of the wrong length is an
 error, not a panic

---
 client/src/procedures/primitives.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index e46f534..6b7f05c 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -1008,12 +1008,26 @@ impl UseSecret<2> for AesKeyWrapEncrypt {
     }
 }
 
+/// [`Aes256Kw`] panics if the key does not have the right length.
+fn check_aes_key_wrap_key(key: &[u8]) -> Result<(), FatalProcedureError> {
+    if key.len() != Aes256Kw::KEY_LENGTH {
+        let e = crypto::Error::BufferSize {
+            has: key.len(),
+            needs: Aes256Kw::KEY_LENGTH,
+            name: "key",
+        };
+        return Err(e.into());
+    }
+    Ok(())
+}
+
 impl AesKeyWrapEncrypt {
     fn wrap_key(&self, encryption_key: &[u8], wrap_key: &[u8]) -> Result<Vec<u8>, FatalProcedureError> {
         // This uses Aes256Kw unconditionally, since AesKeyWrapCipher has just one variant.
         // The enum was added for future proofing so support for other variants can be added non-breakingly.
         let mut ciphertext: Vec<u8> = vec![0; wrap_key.len() + Aes256Kw::BLOCK];
 
+        check_aes_key_wrap_key(encryption_key)?;
         let wrap: Aes256Kw = Aes256Kw::new(encryption_key);
         wrap.wrap_key(wrap_key, &mut ciphertext)?;
 
@@ -1066,6 +1080,7 @@ impl AesKeyWrapDecrypt {
         })?;
         let mut plaintext: Vec<u8> = vec![0; plaintext_len];
 
+        check_aes_key_wrap_key(decryption_key)?;
         let wrap: Aes256Kw = Aes256Kw::new(decryption_key);
         wrap.unwrap_key(self.wrapped_key.as_ref(), &mut plaintext)?;
 
-- 
2.43.0

